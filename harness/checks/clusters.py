"""
K07: single clusters and messages against the belief update algebra.
"""
import math

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.categorical import close_div
from harness.checks.categorical import ref_kl as table_kl
from harness.checks.cluster_graph import MEANS, SCALES, domain_of, reduced
from harness.checks.gaussian import ref_kl as gaussian_kl
from harness.core import Violation, check, prop

prop("K07", [
    "Clusters of dense and sparse categorical and of Gaussian factors with one to four neighbours, whose messages are independent of "
    "each other and positive (what was removed by a zero cannot be restored).",
    "Equality has the tolerances of the factors' equality: only clear differences are required to be seen.",
])


def neighbour(vrs, number):
    """A cluster (of an all positive factor) that is only used as a neighbour."""
    from veroku._cg_helpers._cluster import Cluster
    from veroku.factors.gaussian import Gaussian

    return Cluster(Gaussian.make_vacuous(list(vrs)), cluster_name_prefix=f"n{number} ")


@st.composite
def history_case(draw):
    if draw(st.booleans()):
        uni = draw(D.universe(min_vars=1, max_vars=4, max_size=60))
        kind = draw(st.sampled_from(["dense", "sparse"]))
        scope = draw(st.permutations(list(range(len(uni["names"])))))
        spec = draw(D.factor_over(uni, scope, kind=kind))

        def message(sepset):
            return draw(D.factor_over(uni, [uni["names"].index(v) for v in sepset], kind=kind, zeros=False))
        domain, values = "discrete", {v: c for v, c in zip(uni["names"], uni["cards"])}
        if spec["logs"] and all(x is None for x in spec["logs"]):
            spec["logs"][0] = 0.0
    else:
        vrs = draw(Q.names(1, 4))
        spec = draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS))

        def message(sepset):
            return draw(Q.gaussian_over(list(sepset), scales=SCALES, means=MEANS))
        domain, values = "gaussian", None
    hidden = draw(Q.subset(spec["vars"], low=1, high=2)) if len(spec["vars"]) > 1 and draw(st.booleans()) else []
    shared = [v for v in spec["vars"] if v not in hidden] or spec["vars"]
    sepsets = [draw(Q.subset(shared, low=1)) for _ in range(draw(st.integers(1, 4)))]
    steps = []
    for _ in range(draw(st.integers(2, 9))):
        n = draw(st.integers(0, len(sepsets) - 1))
        op = draw(st.sampled_from(["receive", "receive", "receive", "make", "make", "reject", "special"]))
        step = {"op": op, "n": n}
        if op in ("receive", "reject"):
            step["f"] = message(draw(st.permutations(sepsets[n])))
        elif op == "special":
            chosen = draw(Q.subset(hidden or spec["vars"], low=1, high=2))
            step["evidence"] = [[v, draw(st.integers(0, values[v] - 1)) if values else draw(st.sampled_from([0.0, 1.0, -2.0]))]
                                for v in chosen]
        steps.append(step)
    return {"domain": domain, "f": spec, "sepsets": sepsets, "steps": steps, "prefix": draw(st.sampled_from(["", "c1#", "a,"]))}


def size_of(domain, refs):
    if domain == "discrete":
        return 1.0
    return 1.0 + max([max(np.abs(r.K).max(initial=0), np.abs(r.h).max(initial=0), abs(r.g)) for r in refs] or [0.0])


def same(case, actual, wanted, what, refs):
    domain = domain_of(case)
    if case["domain"] == "discrete":
        finite = [abs(x) for r in refs for x in r.values.values() if math.isfinite(x)]
        domain.same(actual, wanted, what, tol=1e-6 + 1e-8 * max(finite or [0.0]))
    else:
        domain.same(actual, wanted, what, size=size_of("gaussian", refs))


@check("K07", "histories", history_case(), quick=8000, thorough=120000,
       rule="a cluster with one to four neighbours and two to nine received, rejected and made messages and special evidence; "
            "non-trivial: at least two messages were received, or one was made after another was received from the same neighbour.")
def histories_body(case, ctx):
    from veroku._cg_helpers._cluster import Cluster, Message

    domain = domain_of(case)
    ctx.tag(case["domain"])
    cluster = Cluster(domain.build(case["f"]), cluster_name_prefix=case["prefix"])
    own = cluster.cluster_id
    if not own.startswith(case["prefix"]) or any(v not in own for v in case["f"]["vars"]):
        raise Violation(f"the id of the cluster of {case['f']['vars']} with the prefix {case['prefix']!r} is {own!r}")
    others = [neighbour(s, i) for i, s in enumerate(case["sepsets"])]
    for other, sepset in zip(others, case["sepsets"]):
        given = list(sepset)
        cluster.add_neighbour(other, given)
        given.append("changed")
    if sorted(cluster.neighbour_ids) != sorted(o.cluster_id for o in others):
        raise Violation(f"the neighbours are {cluster.neighbour_ids}")
    belief = domain.ref_of(case["f"])
    received, evidence, count, answered = {}, {}, 0, 0
    answers = [{"op": "make", "n": i} for i in range(len(others))]
    for number, step in enumerate(case["steps"] + answers):
        n, op = step["n"], step["op"]
        other = others[n].cluster_id
        what = f"step {number} ({op})"
        if op == "receive":
            factor, ref = domain.build(step["f"]), domain.ref_of(step["f"])
            message = Message(factor=factor, sender_id=other, receiver_id=own)
            cluster.receive_message(message)
            belief = domain.product([belief, ref])
            if n in received:
                belief = domain.cancel(belief, received[n])
                ctx.tag("replaced")
            received[n] = ref
            count += 1
            same(case, domain.read(message.factor), ref, what + ": the message", [ref])
        elif op == "reject":
            for wrong in (other, own + "x"):
                try:
                    cluster.receive_message(Message(factor=domain.build(step["f"]), sender_id=other, receiver_id=wrong))
                except Exception:  # pylint: disable=broad-except
                    ctx.tag("rejected")
                else:
                    raise Violation(f"{what}: the cluster {own} receives a message for {wrong}")
        elif op == "special":
            values = dict(step["evidence"])
            if any(set(s) <= set(values) for s in case["sepsets"]):
                continue
            evidence = values
            cluster.add_special_evidence(dict(values))
        refs = [belief, *received.values()]
        same(case, domain.read(cluster.factor), belief, what + ": the cluster's factor", refs)
        if list(cluster.var_names) != list(cluster.factor.var_names):
            raise Violation(f"{what}: the cluster's var_names are {cluster.var_names}, those of its factor {cluster.factor.var_names}")
        for i, sepset in enumerate(case["sepsets"]):
            got = cluster.get_sepset(others[i].cluster_id)
            if sorted(got) != sorted(sepset):
                raise Violation(f"{what}: the separator to {others[i].cluster_id} is {got} instead of {sepset}")
            got.append("changed")
        if op != "make" or set(evidence) & set(case["sepsets"][n]):
            continue
        message = cluster.make_message(other)
        if (message.sender_id, message.receiver_id) != (own, other):
            raise Violation(f"{what}: a message from {message.sender_id} to {message.receiver_id}")
        given = reduced(belief, evidence)
        wanted = given.marginal(case["sepsets"][n])
        if n in received:
            wanted = domain.cancel(wanted, received[n])
            answered += 1
            ctx.tag("answered")
        if evidence:
            ctx.tag("special")
        same(case, domain.read(message.factor), wanted, what + ": the message", refs + [given])
        if sorted(message.var_names) != sorted(case["sepsets"][n]):
            raise Violation(f"{what}: the message has the variables {message.var_names} instead of {case['sepsets'][n]}")
        same(case, domain.read(cluster.factor), belief, what + ": the factor after making a message", refs)
    cluster.remove_all_neighbours()
    if list(cluster.neighbour_ids):
        raise Violation(f"the neighbours after removing all of them are {cluster.neighbour_ids}")
    ctx.nontrivial = count >= 2 or answered > 0


RELATIONS = ["same", "permuted", "scaled", "independent", "variables"]
IDS = ["same", "same", "sender", "receiver", "swapped"]


@st.composite
def message_case(draw):
    relation = draw(st.sampled_from(RELATIONS))
    case = {"relation": relation, "addresses": draw(st.sampled_from(IDS)), "ids": draw(st.permutations(["a", "b", "a,b", "c0#a", ""]))[:3], "shift": draw(st.sampled_from([2.0, -3.0]))}
    if draw(st.booleans()):
        uni = draw(D.universe(min_vars=2, max_vars=4, max_size=40))
        names = list(range(len(uni["names"])))
        scope = draw(Q.subset(names, low=1, high=len(names) - 1))
        case.update(domain="discrete", f=draw(D.factor_over(uni, scope, zeros=False)))
        case["g"] = draw(D.factor_over(uni, draw(st.permutations(scope)), kind=case["f"]["kind"], zeros=False))
        case["h"] = draw(D.factor_over(uni, names, kind=case["f"]["kind"], zeros=False))
    else:
        vrs = draw(Q.names(2, 4))
        scope = draw(Q.subset(vrs, low=1, high=len(vrs) - 1))
        case.update(domain="gaussian", f=draw(Q.gaussian_over(scope, scales=SCALES, means=MEANS)))
        case["g"] = draw(Q.gaussian_over(draw(st.permutations(scope)), scales=SCALES, means=MEANS))
        case["h"] = draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS))
    return case


def reordered(case, order):
    """The specification of the same function with another order of the variables."""
    f = case["f"]
    if case["domain"] == "gaussian":
        return Q.permuted(f, order)
    table = D.ref_of(f).reorder(order)
    logs = [table.values[a] for a in table.assignments()]
    return dict(f, vars=list(order), cards=[table.cards[v] for v in order], logs=[None if x == D.NEG_INF else x for x in logs])


def clearly_different(case, a, b):
    if case["domain"] == "discrete":
        b = b.reorder(a.vrs)
        return any(abs(math.exp(min(x, 300)) - math.exp(min(b.values[k], 300))) > 0.1 * (1 + math.exp(min(max(x, b.values[k]), 300)))
                   and abs(x - b.values[k]) > 0.1 for k, x in a.values.items())
    b = b.reorder(a.vrs)
    return bool(np.abs(a.mean() - b.mean()).max() > 0.2 * (1 + np.abs(a.mean()).max() + np.abs(b.mean()).max()))


@check("K07", "messages", message_case(), quick=12000, thorough=150000,
       rule="two messages that are equal, have permuted variables or differ in the sender, the receiver, both or the factor; "
            "non-trivial: they are not the same message of one variable.")
def messages_body(case, ctx):
    from veroku._cg_helpers._cluster import Message

    domain, relation = domain_of(case), case["relation"]
    addresses = case["addresses"]
    ctx.tag(case["domain"], relation, "ids_" + addresses)
    sender, receiver, third = case["ids"]
    f, g = case["f"], case["f"]
    ids = {"sender": (third, receiver), "receiver": (sender, third), "swapped": (receiver, sender)}.get(addresses, (sender, receiver))
    if relation == "permuted":
        g = reordered(case, case["g"]["vars"])
    elif relation == "independent":
        g = case["g"]
    elif relation == "scaled":
        if case["domain"] == "gaussian":
            g = dict(f, lw=f["lw"] + case["shift"])
        else:
            g = dict(f, logs=[x if x is None else x + case["shift"] for x in f["logs"]], how="logs", layout="C")
            if g.get("default") is not None:
                g["default"] = g["default"] + case["shift"]
    elif relation == "variables":
        g = case["h"]
    ref_f, ref_g = domain.ref_of(f), domain.ref_of(g)
    a = Message(factor=domain.build(f), sender_id=sender, receiver_id=receiver)
    b = Message(factor=domain.build(g), sender_id=ids[0], receiver_id=ids[1])
    if (a.sender_id, a.receiver_id, b.sender_id, b.receiver_id) != (sender, receiver, *ids):
        raise Violation("a message has other sender or receiver ids than it was made with")
    if not a.equals(a) or not a.equals(Message(factor=domain.build(f), sender_id=sender, receiver_id=receiver)):
        raise Violation("a message does not equal itself")
    ctx.nontrivial = relation not in ("same", "independent") or addresses != "same" or len(f["vars"]) > 1
    if addresses != "same":
        if a.equals(b) or b.equals(a):
            raise Violation(f"messages with different ids ({addresses}) are equal")
    elif relation in ("same", "permuted"):
        if not a.equals(b) or not b.equals(a):
            raise Violation(f"two messages with the {relation} factor, sender and receiver are not equal")
    elif relation == "variables":
        if a.equals(b) or b.equals(a):
            raise Violation("messages over different variables are equal")
    elif relation == "scaled" and case["domain"] == "gaussian" or relation == "independent" and clearly_different(case, ref_f, ref_g):
        ctx.tag("different")
        if a.equals(b) or b.equals(a):
            raise Violation(f"messages with clearly different factors ({relation}) are equal")
        if relation == "independent" and case["domain"] == "gaussian" and not a.equals(b, rtol=1e9, atol=1e9):
            raise Violation("messages with different factors are not equal although the tolerance is huge")
    # the divergences
    if relation != "variables":
        p, q = (ref_f.normalized(), ref_g.normalized())
        wanted = table_kl(p, q) if case["domain"] == "discrete" else gaussian_kl(p, q)
        got = float(a.kl_divergence(b))
        if not close_div(got, wanted):
            raise Violation(f"the divergence between two messages ({relation}) is {got} instead of {wanted}")
    got = float(a.distance_from_vacuous())
    if case["domain"] == "discrete":
        p = ref_f.normalized()
        wanted = table_kl(p, D.Table(p.vrs, p.cards, {k: 0.0 for k in p.values}).normalized())
    else:
        wanted = math.inf
    if not close_div(got, wanted):
        raise Violation(f"the distance of a message from a vacuous one is {got} instead of {wanted}")
    for message, ref in ((a, ref_f), (b, ref_g)):
        same(case, domain.read(message.factor), ref, "the factor of a message", [ref])
