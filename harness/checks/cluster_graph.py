"""
K01 - K06: cluster graphs of discrete and Gaussian factors against exact inference.
"""
import math

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.categorical import close_div
from harness.checks.categorical import ref_kl as table_kl
from harness.checks.factorised import well_posed
from harness.checks.gaussian import linear_ref
from harness.checks.gaussian import ref_kl as gaussian_kl
from harness.checks.nonlinear import affine_joint, make_nlg
from harness.core import Discard, Violation, check, prop

COMMON = [
    "Models of up to seven cluster scopes (trees of scopes with one or two shared variables, or random scopes with loops) with "
    "further factors over subsets of the scopes, over equal scopes and disconnected parts, in any order; all the factors of a model "
    "have one type.",
    "The evidence has positive probability (the generators fix a hidden assignment at which every factor is positive).",
]
for _pid in ("K01", "K02", "K03", "K04", "K05", "K06"):
    prop(_pid, COMMON)
prop("K03", ["Exactness is only asserted if the graph that was built is a tree (or a forest)."])
prop("K05", ["Independence of the order and names is only asserted for trees: on graphs with loops it depends on the schedule."])


# ----------------------------------------------------------------------------------------------------------------------
# discrete models


@st.composite
def scopes_of(draw, loopy, max_clusters):
    """
    Lists of variable numbers.
    """
    n = draw(st.sampled_from([k for k in (3, 2, 4, 1, 5, 6, 7) if k <= max_clusters]))
    scopes = []
    fresh = 0
    if loopy and n >= 3 and draw(st.booleans()):  # a ring, possibly with chords
        for i in range(n):
            extra = [] if draw(st.booleans()) else [draw(st.integers(0, n - 1))]
            scopes.append(draw(st.permutations(sorted({i, (i + 1) % n, *extra}))))
        return scopes
    for i in range(n):
        shared = []
        if scopes and not loopy:
            parent = scopes[draw(st.integers(0, len(scopes) - 1))]
            size = draw(st.sampled_from([1, 1, 1, 1, 2, 0]))
            shared = draw(Q.subset(parent, low=min(size, len(parent)), high=min(size, len(parent))))
        elif scopes:
            known = list(range(fresh))
            shared = draw(Q.subset(known, low=1, high=3))
        new = draw(st.sampled_from([1, 2, 1, 0]))
        if not shared and not new:
            new = 1
        if fresh + new > 9:
            new = 9 - fresh
        scope = shared + list(range(fresh, fresh + new))
        fresh += new
        if scope:
            scopes.append(draw(st.permutations(scope)))
    return scopes


@st.composite
def discrete_model(draw, loopy=False, max_clusters=7, evidence=True, named=False, zeros=None, max_joint=500):
    scopes = draw(scopes_of(loopy, max_clusters))
    count = 1 + max(v for scope in scopes for v in scope)
    names = draw(st.permutations(D.NAMES))[:count]
    cards = []
    size = 1
    for _ in range(count):
        card = draw(st.sampled_from([c for c in (2, 3, 2, 1, 4) if c * size <= max_joint or c == 1]))
        cards.append(card)
        size *= card
    uni = {"names": list(names), "cards": cards}
    if named and draw(st.booleans()):
        uni["anames"] = [list(D.ASSIGNMENT_NAMES[i % 2:i % 2 + c]) if c <= 4 else None for i, c in enumerate(cards)]
    all_scopes = list(scopes)
    for _ in range(draw(st.sampled_from([0, 1, 2, 3]))):
        base = draw(st.sampled_from(scopes))
        all_scopes.append(draw(Q.subset(base, low=1)))
    all_scopes = draw(st.permutations(all_scopes))
    truth = [draw(st.integers(0, c - 1)) for c in cards]
    kind = draw(st.sampled_from(["dense", "sparse"])) if "anames" not in uni else "dense"
    with_zeros = draw(st.booleans()) if zeros is None else zeros
    specs = []
    extreme = draw(st.sampled_from([False, False, "shift"]))
    for scope in all_scopes:
        spec = draw(D.factor_over(uni, scope, kind=kind, zeros=with_zeros, named="anames" in uni, extreme=extreme))
        repeated = [s for s in specs if s["cards"] == spec["cards"]]
        if repeated and draw(st.integers(0, 3)) == 3:  # the same parameters for other variables
            spec.update(logs=list(draw(st.sampled_from(repeated))["logs"]), how="logs")
        position = 0
        for i in scope:
            position = position * cards[i] + truth[i]
        if spec["logs"][position] is None:
            spec["logs"][position] = 0.0
        specs.append(spec)
    observed = []
    if evidence and draw(st.booleans()):
        observed = draw(Q.subset(list(range(count)), low=1, high=3))
    model = {"domain": "discrete", "factors": specs, "evidence": [[names[i], truth[i]] for i in observed]}
    if draw(st.integers(0, 4)) == 0:
        model["evidence"].append(["not in the model", 0])
    return model


# ----------------------------------------------------------------------------------------------------------------------
# Gaussian models

SCALES = (1, 1, 0.1, 10)
MEANS = [0, 1, -1, 2, 0.5, -3]


@st.composite
def gaussian_model(draw, loopy=False, max_clusters=6, evidence=True):
    scopes = draw(scopes_of(loopy, max_clusters))
    count = 1 + max(v for scope in scopes for v in scope)
    names = draw(st.permutations(Q.NAMES))[:count]
    all_scopes = list(scopes)
    for _ in range(draw(st.sampled_from([0, 1, 2]))):
        base = draw(st.sampled_from(scopes))
        all_scopes.append(draw(Q.subset(base, low=1)))
    all_scopes = draw(st.permutations(all_scopes))
    specs = []
    for scope in all_scopes:
        vrs = [names[i] for i in scope]
        repeated = [s for s in specs if len(s["vars"]) == len(vrs)]
        if repeated and draw(st.integers(0, 3)) == 3:  # the same parameters for other variables
            specs.append(Q.twin(draw(st.sampled_from(repeated)), vrs))
        else:
            specs.append(draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS)))
    observed = draw(Q.subset(list(range(count)), low=1, high=3)) if evidence and draw(st.booleans()) else []
    model = {"domain": "gaussian", "factors": specs,
             "evidence": [[names[i], draw(st.sampled_from([0.0, 1.0, -2.0, 0.5, 3]))] for i in observed]}
    if draw(st.integers(0, 4)) == 0:
        model["evidence"].append(["not in the model", 1.0])
    return model


# ----------------------------------------------------------------------------------------------------------------------
# the two domains behind one interface


class Discrete:
    unit = staticmethod(D.unit)
    build = staticmethod(D.build)
    ref_of = staticmethod(D.ref_of)
    product = staticmethod(D.product)

    @staticmethod
    def read(factor, what="factor"):
        return D.table_of(factor, what)

    @staticmethod
    def cancel(a, b):
        return a.cancel(b)

    @staticmethod
    def same(actual, expected, what, constant=True, tol=1e-6):
        if not constant:
            actual, expected = actual.normalized(), expected.normalized()
        D.assert_same(actual, expected, what, atol=tol)

    @staticmethod
    def same_distribution(actual, expected, what, tol=1e-4):
        """Compare normalised probabilities (with an absolute tolerance)."""
        if set(actual.vrs) != set(expected.vrs):
            raise Violation(f"{what}: the scope is {list(actual.vrs)} instead of {list(expected.vrs)}")
        if actual.all_zero():
            raise Violation(f"{what}: zero everywhere")
        actual, expected = actual.normalized(), expected.normalized()
        for assignment, value in expected.values.items():
            valuation = dict(zip(expected.vrs, assignment))
            got = actual.at(valuation)
            if not abs(math.exp(got) - math.exp(value)) <= tol:
                raise Violation(f"{what}: the probability of {valuation} is {math.exp(got)} instead of {math.exp(value)}")
            if (value == D.NEG_INF) != (got == D.NEG_INF) and tol < 1e-3 and max(value, got) > -25:
                raise Violation(f"{what}: the log probability of {valuation} is {got} instead of {value}")


class Gaussians:
    ref_of = staticmethod(Q.ref_of)
    product = staticmethod(Q.quad_product)

    @staticmethod
    def unit():
        return Q.Quad([], [], [], 0.0)

    @staticmethod
    def build(spec):
        factor = Q.build(spec)
        return factor.factor if Q.UNITS else factor

    @staticmethod
    def read(factor, what="factor"):
        names = list(factor.var_names)
        if len(set(names)) != len(names):
            raise Violation(f"{what} has variables {names}")
        if Q.UNITS:
            factor = Q.InUnits(factor)
        return Q.Quad(names, factor.get_prec(), factor.get_h(), float(factor.get_g()))

    @staticmethod
    def cancel(a, b):
        return a.divide(b)

    @staticmethod
    def same(actual, expected, what, constant=True, tol=1e-6, size=1.0):
        if sorted(actual.vrs) != sorted(expected.vrs):
            raise Violation(f"{what}: the scope is {actual.vrs} instead of {expected.vrs}")
        actual = actual.reorder(expected.vrs)
        if not Q.near(actual.K, expected.K, size + np.abs(expected.K).max(initial=0.0), tol):
            raise Violation(f"{what}: precision {actual.K.tolist()} instead of {expected.K.tolist()} for {expected.vrs}")
        if not Q.near(actual.h, expected.h, size + np.abs(expected.h).max(initial=0.0) + np.abs(expected.K).max(initial=0.0), tol):
            raise Violation(f"{what}: h {actual.h.tolist()} instead of {expected.h.tolist()} for {expected.vrs}")
        if constant and not abs(actual.g - expected.g) <= tol * (size + abs(expected.g) + 10):
            raise Violation(f"{what}: g {actual.g} instead of {expected.g}")

    @staticmethod
    def same_distribution(actual, expected, what, tol=1e-4, floor=0.0):
        if sorted(actual.vrs) != sorted(expected.vrs):
            raise Violation(f"{what}: the scope is {actual.vrs} instead of {expected.vrs}")
        actual = actual.reorder(expected.vrs)
        if not actual.proper():
            raise Violation(f"{what}: not a proper distribution (precision {actual.K.tolist()})")
        cov, mean = expected.cov(), expected.mean()
        scale = np.abs(cov).max(initial=0.0)
        if not Q.near(actual.cov(), cov, scale + floor, tol):
            raise Violation(f"{what}: covariance {actual.cov().tolist()} instead of {cov.tolist()} for {expected.vrs}")
        if not Q.near(actual.mean(), mean, floor + math.sqrt(scale) + np.abs(mean).max(initial=0.0), tol):
            raise Violation(f"{what}: mean {actual.mean().tolist()} instead of {mean.tolist()} for {expected.vrs}")


def domain_of(model):
    return Discrete if model["domain"] == "discrete" else Gaussians


def evidence_of(model):
    return {v: x for v, x in model["evidence"]}


def reference(model, evidence=None):
    """The product of the factors given the evidence."""
    domain = domain_of(model)
    evidence = evidence_of(model) if evidence is None else evidence
    return domain.product([reduced(domain.ref_of(s), evidence) for s in model["factors"]])


def reduced(ref, evidence):
    relevant = {v: x for v, x in evidence.items() if v in ref.vrs}
    return ref.reduce(relevant) if relevant else ref


def make_graph(model, special=None, evidence=None, factors=None):
    from veroku.cluster_graph import ClusterGraph

    domain = domain_of(model)
    if factors is None:
        factors = [domain.build(s) for s in model["factors"]]
    evidence = evidence_of(model) if evidence is None else evidence
    if Q.UNITS:
        evidence = {v: x * Q.UNITS.get(v, 1.0) for v, x in evidence.items()}
    kwargs = {"disable_tqdm": True}
    if evidence or model.get("explicit"):
        kwargs["evidence"] = evidence
    if special:
        kwargs["special_evidence"] = special
    return ClusterGraph(factors, **kwargs)


def clusters_of(graph):
    return list(graph._clusters)


def edges_of(graph):
    """
    The edges of a cluster graph: {frozenset of the two cluster ids: separator}; checks that they are symmetric.
    """
    clusters = {c.cluster_id: c for c in clusters_of(graph)}
    edges = {}
    for cid, cluster in clusters.items():
        for nid in cluster.neighbour_ids:
            if nid not in clusters or nid == cid:
                raise Violation(f"the cluster {cid} has the neighbour {nid}")
            sepset = list(cluster.get_sepset(nid))
            back = list(clusters[nid].get_sepset(cid)) if cid in clusters[nid].neighbour_ids else None
            if back is None or sorted(back) != sorted(sepset):
                raise Violation(f"the separator from {cid} to {nid} is {sepset} but {back} in the other direction")
            edges[frozenset((cid, nid))] = sepset
    return edges


def components(nodes, edges):
    parent = {n: n for n in nodes}

    def find(n):
        while parent[n] != n:
            n = parent[n]
        return n
    for edge in edges:
        a, b = tuple(edge)
        parent[find(a)] = find(b)
    return len({find(n) for n in nodes})


def is_forest(graph):
    nodes = [c.cluster_id for c in clusters_of(graph)]
    edges = edges_of(graph)
    return len(edges) == len(nodes) - components(nodes, edges)


def shape_tags(graph, model, ctx):
    clusters = clusters_of(graph)
    ctx.tag(model["domain"], "forest" if is_forest(graph) else "loopy", f"clusters_{min(len(clusters), 5)}")
    if len(clusters) < len(model["factors"]):
        ctx.tag("absorbed")
    if model["evidence"]:
        ctx.tag("evidence")
    nodes = [c.cluster_id for c in clusters]
    if components(nodes, edges_of(graph)) > 1:
        ctx.tag("disconnected")


# ----------------------------------------------------------------------------------------------------------------------
# K01


@st.composite
def any_model(draw, **kwargs):
    loopy = draw(st.booleans())
    if draw(st.booleans()):
        model = draw(discrete_model(loopy=loopy, **kwargs))
    else:
        model = draw(gaussian_model(loopy=loopy))
    return model


@st.composite
def structure_case(draw):
    model = draw(any_model())
    model["explicit"] = draw(st.booleans())
    names = sorted({v for s in model["factors"] for v in s["vars"]} - set(evidence_of(model)))
    special = draw(Q.subset(names, low=0, high=2)) if draw(st.booleans()) else []
    model["special"] = [[v, 0] for v in special]
    return model


@check("K01", "structure", structure_case(), quick=12000, thorough=250000,
       rule="a set of discrete or Gaussian factors with evidence; non-trivial: at least three clusters, or two of which at least one "
            "absorbed another factor.")
def structure_body(case, ctx):
    domain = domain_of(case)
    special = {v: x for v, x in case["special"]}
    graph = make_graph(case, special=special)
    clusters = clusters_of(graph)
    shape_tags(graph, case, ctx)
    ctx.nontrivial = len(clusters) >= 3 or (len(clusters) == 2 and len(case["factors"]) > 2)
    ids = [c.cluster_id for c in clusters]
    if len(set(ids)) != len(ids):
        raise Violation(f"cluster ids {ids}")
    # the joint
    refs = [domain.read(c.factor, f"the factor of cluster {c.cluster_id}") for c in clusters]
    expected = reference(case)
    domain.same(domain.product(refs), expected, "the product of the cluster factors")
    # the scopes
    scopes = {}
    for cluster, ref in zip(clusters, refs):
        if list(cluster.var_names) != list(ref.vrs):
            raise Violation(f"cluster {cluster.cluster_id}: var_names {cluster.var_names} but a factor over {ref.vrs}")
        scopes[cluster.cluster_id] = set(ref.vrs)
        if scopes[cluster.cluster_id] & set(evidence_of(case)):
            raise Violation(f"cluster {cluster.cluster_id} contains an observed variable ({evidence_of(case)})")
    for spec in case["factors"]:
        scope = set(spec["vars"]) - set(evidence_of(case))
        if not any(scope <= s for s in scopes.values()):
            raise Violation(f"no cluster covers the factor over {sorted(scope)}")
    # the separators
    edges = edges_of(graph)
    for edge, sepset in edges.items():
        a, b = tuple(edge)
        if not sepset or len(set(sepset)) != len(sepset) or not set(sepset) <= scopes[a] & scopes[b]:
            raise Violation(f"the separator {sepset} between {a} and {b}")
        if set(sepset) & (set(special) | set(evidence_of(case))):
            raise Violation(f"the separator {sepset} contains an observed variable")
    for v in set().union(*scopes.values()) - set(special):
        nodes = [i for i in ids if v in scopes[i]]
        v_edges = [e for e, sepset in edges.items() if v in sepset]
        if len(v_edges) != len(nodes) - 1 or components(nodes, v_edges) != 1:
            raise Violation(f"the separators with {v} connect {[sorted(e) for e in v_edges]}, the clusters with {v} are {nodes}")
    # the message paths
    paths = sorted((p.sender_cluster.cluster_id, p.receiver_cluster.cluster_id) for p in graph.graph_message_paths)
    if paths != sorted([tuple(e) for e in edges] + [tuple(e)[::-1] for e in edges]):
        raise Violation(f"the message paths {paths} for the edges {[sorted(e) for e in edges]}")
    if graph.num_messages_passed != 0:
        raise Violation("messages were passed at construction")


# ----------------------------------------------------------------------------------------------------------------------
# K02


@st.composite
def schedule_case(draw):
    loopy = draw(st.integers(0, 2)) > 0
    if draw(st.booleans()):
        model = draw(discrete_model(loopy=loopy, max_clusters=5, max_joint=200))
    else:
        model = draw(gaussian_model(loopy=loopy, max_clusters=5))
    names = sorted({v for s in model["factors"] for v in s["vars"]} - set(evidence_of(model)))
    special = draw(Q.subset(names, low=1, high=2)) if draw(st.integers(0, 3)) == 0 else []
    model["special"] = [[v, 0] for v in special]
    steps = draw(st.lists(st.tuples(st.sampled_from(["pass", "pass", "pass", "pass", "recompute", "process", "joint"]),
                                    st.integers(0, 19)), min_size=2, max_size=12))
    model["steps"] = [list(s) for s in steps]
    return model


def path_key(path):
    return path.sender_cluster.cluster_id, path.receiver_cluster.cluster_id


@check("K02", "schedules", schedule_case(), quick=8000, thorough=80000,
       rule="a model and a sequence of single messages along any path, recomputations, short runs of the built in schedule and "
            "queries of the posterior joint; non-trivial: at least three messages and a repeated path or a loop.")
def schedules_body(case, ctx):
    domain = domain_of(case)
    special = {v: x for v, x in case["special"]}
    if special and domain is Discrete and D.Table.all_zero(reduced(reference(case), special)):
        raise Discard()
    graph = make_graph(case, special=special)
    shape_tags(graph, case, ctx)
    expected = reduced(reference(case), special)
    sent = {}

    def paths():
        return sorted(graph.graph_message_paths, key=path_key)

    def read_all():
        return {c.cluster_id: domain.read(c.factor) for c in clusters_of(graph)}

    def size_of(refs):
        if domain is Discrete:
            return 1.0
        return 1.0 + max([max(np.abs(r.K).max(initial=0), np.abs(r.h).max(initial=0), abs(r.g)) for r in refs] or [0.0])

    def same(actual, wanted, what, refs):
        if domain is Discrete:
            finite = [abs(x) for r in refs for x in r.values.values() if math.isfinite(x)]
            domain.same(actual, wanted, what, tol=1e-6 + 1e-8 * max(finite or [0.0]))
        else:
            domain.same(actual, wanted, what, size=size_of(refs))

    def last_messages():
        return [domain.read(p.previously_sent_message.factor) for p in paths() if p.previously_sent_message is not None]

    def check_invariant(what):
        beliefs, messages = list(read_all().values()), last_messages()
        actual = domain.cancel(domain.product(beliefs), domain.product(messages))
        same(reduced(actual, special), expected, what, beliefs + messages)

    def check_message(path, what):
        sender, receiver = path_key(path)
        factor = reduced(domain.read(path.sender_cluster.factor), special)
        wanted = factor.marginal(path.sender_cluster.get_sepset(receiver))
        involved = [factor]
        back = sent.get((receiver, sender))
        if back is not None:
            wanted = domain.cancel(wanted, back)
            involved.append(back)
        message = path.next_message
        if (message.sender_id, message.receiver_id) != (sender, receiver):
            raise Violation(f"{what}: a message from {message.sender_id} to {message.receiver_id} on the path {sender} - {receiver}")
        same(domain.read(message.factor), wanted, f"{what}: the next message from {sender} to {receiver}", involved)

    check_invariant("before any message")
    passed = 0
    repeated = False
    for number, (op, index) in enumerate(case["steps"]):
        what = f"step {number} ({op})"
        available = paths()
        if op in ("pass", "recompute") and not available:
            continue
        if op == "recompute":
            available[index % len(available)].recompute_next_message()
        elif op == "pass":
            path = available[index % len(available)]
            sender, receiver = path_key(path)
            check_message(path, what)
            before = read_all()
            message = domain.read(path.next_message.factor)
            path.pass_next_message()
            passed += 1
            after = read_all()
            for cid, belief in after.items():
                wanted = before[cid]
                involved = [wanted, belief]
                if cid == receiver:
                    wanted = domain.product([wanted, message])
                    if (sender, receiver) in sent:
                        repeated = True
                        wanted = domain.cancel(wanted, sent[(sender, receiver)])
                        involved.append(sent[(sender, receiver)])
                same(belief, wanted, f"{what}: the factor of {cid} after a message from {sender} to {receiver}", involved)
            sent[(sender, receiver)] = message
            if domain is Gaussians and size_of(after.values()) > 1e7:
                raise Discard()  # beliefs that explode on a loop
        elif op == "process":
            if domain is Gaussians and "loopy" in ctx.tags:
                continue
            # (this first sends messages although nothing changed if there are edges)
            old_count = graph.num_messages_passed
            graph.process_graph(tol=1e-3, max_iter=1)
            passed += graph.num_messages_passed - old_count
            for path in paths():
                if path.previously_sent_message is not None:
                    sent[path_key(path)] = domain.read(path.previously_sent_message.factor)
            if len(clusters_of(graph)) == 1:
                return
        else:
            joint = domain.read(graph.get_posterior_joint(), "posterior joint")
            joint = reduced(joint, special)
            if domain is Discrete:
                if joint.all_zero():
                    raise Violation(f"{what}: the posterior joint is zero everywhere")
                finite = [abs(x) for r in read_all().values() for x in r.values.values() if math.isfinite(x)]
                domain.same(joint, expected, f"{what}: the posterior joint", constant=False, tol=1e-6 + 1e-8 * max(finite or [0.0]))
            else:
                domain.same(joint, expected, f"{what}: the posterior joint", constant=False,
                            size=size_of(list(read_all().values()) + last_messages()))
        check_invariant(f"after {what}")
        for path in paths():
            check_message(path, f"after {what}")
    ctx.nontrivial = passed >= 3 and (repeated or "loopy" in ctx.tags)
    if repeated:
        ctx.tag("repeated_message")


# ----------------------------------------------------------------------------------------------------------------------
# K03


def queries_of(draw, model, count=3):
    return [[draw(st.integers(0, 9)), draw(st.integers(0, 99))] for _ in range(count)]


def pick(items, number):
    """A non-empty sublist of items chosen by a number, in an order that depends on it as well."""
    items = list(items)
    chosen = [v for i, v in enumerate(items) if (number >> i) & 1] or [items[number % len(items)]]
    return chosen[::-1] if number % 2 else chosen


def check_marginals(graph, domain, expected, queries, what, special=(), tol=None):
    """
    Compare marginals of the graph with those of the exact joint; and those of all the clusters with each other (as both are
    compared with the exact ones).
    """
    kwargs = {} if tol is None else {"tol": tol}
    clusters = clusters_of(graph)
    for cluster_number, subset_number in queries:
        scope = [v for v in clusters[cluster_number % len(clusters)].var_names if v not in special]
        if not scope:
            continue
        wanted = pick(scope, subset_number)
        marginal = graph.get_marginal(wanted)
        domain.same_distribution(domain.read(marginal), expected.marginal(wanted), f"{what}: the marginal of {wanted}", **kwargs)
    for cluster in clusters:
        ref = reduced(domain.read(cluster.factor), dict(special))
        if ref.vrs:
            domain.same_distribution(ref, expected.marginal(ref.vrs), f"{what}: the belief of cluster {cluster.cluster_id}", **kwargs)


def true_gain(path, sent, special):
    """
    How much the message that the beliefs of the clusters imply differs from the last one along a path (the KL-divergence).
    """
    sender, receiver = path_key(path)
    message = reduced(D.table_of(path.sender_cluster.factor), special).marginal(path.sender_cluster.get_sepset(receiver))
    if (receiver, sender) in sent:
        message = Discrete.cancel(message, sent[(receiver, sender)])
    if message.all_zero():
        return math.inf
    message = message.normalized()
    if (sender, receiver) in sent:
        p, q = sent[(sender, receiver)].normalized(), message
    else:
        p, q = message, D.Table(message.vrs, message.cards, {a: 0.0 for a in message.assignments()}).normalized()
    gain = []
    for assignment, value in p.values.items():
        other = q.at(dict(zip(p.vrs, assignment)))
        if value > D.NEG_INF:
            if other == D.NEG_INF:
                return math.inf
            gain.append(math.exp(value) * (value - other))
    return math.fsum(gain)


def compare_settled(graph, domain, ctx, compare, special=()):
    """
    Run compare(). The schedule leaves out messages that change a belief by less than the tolerance (a KL-divergence), and with
    very unlikely values such a message can matter once it meets an equally unlikely belief. So if the comparison fails although
    no message differs from the last one along its path by more than the tolerance, all the messages are passed.
    """
    try:
        compare()
    except Violation:
        if domain is not Discrete:
            raise
        paths = list(graph.graph_message_paths)
        sent = {path_key(p): D.table_of(p.previously_sent_message.factor) for p in paths if p.previously_sent_message is not None}
        if not all(true_gain(p, sent, dict(special)) <= 1e-12 for p in paths):
            raise
        for _ in range(len(clusters_of(graph))):
            for path in sorted(paths, key=path_key):
                path.pass_next_message()
        compare()
        ctx.tag("below_tolerance")


@st.composite
def exact_case(draw):
    model = draw(discrete_model(named=True))
    model["queries"] = queries_of(draw, model)
    model["again"] = draw(st.booleans())
    return model


@check("K03", "trees", exact_case(), quick=2500, thorough=60000,
       rule="a discrete model with evidence; non-trivial: the graph is a forest with at least three clusters.")
def trees_body(case, ctx):
    graph = make_graph(case)
    shape_tags(graph, case, ctx)
    if not is_forest(graph):
        raise Discard()
    ctx.nontrivial = len(clusters_of(graph)) >= 3
    ctx.tag(case["factors"][0]["kind"])
    graph.process_graph(tol=1e-13, max_iter=60)
    expected = reference(case)
    compare_settled(graph, Discrete, ctx,
                    lambda: check_marginals(graph, Discrete, expected, case["queries"], "after message passing"))
    if case["again"]:
        graph.process_graph(tol=1e-13, max_iter=60)
        compare_settled(graph, Discrete, ctx,
                        lambda: check_marginals(graph, Discrete, expected, case["queries"], "after message passing twice"))


@st.composite
def hmm_case(draw):
    states = draw(st.integers(2, 4))
    symbols = draw(st.integers(2, 4))
    length = draw(st.sampled_from([2, 3, 4, 5, 6, 8, 11, 16]))
    zeros = draw(st.sampled_from([0.0, 0.0, 0.3, 0.6]))
    return {"states": states, "symbols": symbols, "length": length, "zeros": zeros, "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "kind": draw(st.sampled_from(["dense", "sparse"])), "how": draw(st.sampled_from(["direct", "template"])),
            "order": draw(st.integers(0, 999)), "observed": draw(st.integers(0, 2 ** 16 - 1)),
            "mode": draw(st.sampled_from(["evidence", "special"])), "flip": draw(st.booleans())}


def random_cpd(rng, rows, cols, zeros):
    table = rng.gamma(0.7, 1.0, (rows, cols)) + 1e-3
    mask = rng.random((rows, cols)) < zeros
    mask[np.arange(rows), rng.integers(0, cols, rows)] = False
    table[mask] = 0.0
    return table / table.sum(axis=1, keepdims=True)


@check("K03", "hidden_markov", hmm_case(), quick=500, thorough=12000, weight=2,
       rule="a hidden Markov model of up to 16 steps (with zeros, built directly or from templates) against the forward-backward "
            "algorithm; non-trivial: at least four steps and an observation.")
def hmm_body(case, ctx):
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.categorical import Categorical, CategoricalTemplate
    from veroku.factors.sparse_categorical import SparseCategorical, SparseCategoricalTemplate

    rng = np.random.default_rng(case["seed"])
    n, m, length = case["states"], case["symbols"], case["length"]
    prior = random_cpd(rng, 1, n, 0.0)[0]
    trans = random_cpd(rng, n, n, case["zeros"])
    emit = random_cpd(rng, n, m, case["zeros"])
    state = rng.choice(n, p=prior)
    truth = []
    for t in range(length):
        if t:
            state = rng.choice(n, p=trans[state])
        truth.append(int(rng.choice(m, p=emit[state])))
    observed = {t: truth[t] for t in range(length) if (case["observed"] >> (t % 16)) & 1}
    ctx.nontrivial = length >= 4 and bool(observed)
    ctx.tag(case["kind"], case["how"], case["mode"], f"length_{length}", "zeros" if case["zeros"] else "positive")

    dense = case["kind"] == "dense"

    def table(matrix, flip):
        array = np.atleast_2d(matrix)
        full = {}
        for i in range(array.shape[0]):
            for j in range(array.shape[1]):
                if array[i, j] > 0:
                    key = (j, i) if flip else (i, j)
                    full[key] = float(array[i, j])
        return full

    def factor(matrix, vrs, cards, flip):
        if flip:
            vrs, cards = vrs[::-1], cards[::-1]
        if dense:
            return Categorical(var_names=vrs, cardinalities=cards, probs_table=table(matrix, flip))
        return SparseCategorical(var_names=vrs, cardinalities=cards, probs_table=table(matrix, flip))

    flip = case["flip"]
    x, y = (lambda t: f"x{t}"), (lambda t: f"y_{t}")
    probs = {(i,): float(p) for i, p in enumerate(prior)}
    factors = [Categorical(var_names=[x(0)], cardinalities=[n], probs_table=probs) if dense else
               SparseCategorical(var_names=[x(0)], cardinalities=[n], probs_table=probs)]
    if case["how"] == "template":
        template = CategoricalTemplate if dense else SparseCategoricalTemplate
        t_names, e_names = ["x{i}", "x{j}"], ["x{i}", "y_{i}"]
        t_cards, e_cards = [n, n], [n, m]
        if flip:
            t_names, e_names, t_cards, e_cards = t_names[::-1], e_names[::-1], t_cards[::-1], e_cards[::-1]
        move = template(probs_table=table(trans, flip), var_templates=t_names, cardinalities=t_cards)
        see = template(probs_table=table(emit, flip), var_templates=e_names, cardinalities=e_cards)
        for t in range(length):
            factors.append(see.make_factor(format_dict={"i": t}))
            if t:
                factors.append(move.make_factor(format_dict={"i": t - 1, "j": t}))
    else:
        for t in range(length):
            factors.append(factor(emit, [x(t), y(t)], [n, m], flip))
            if t:
                factors.append(factor(trans, [x(t - 1), x(t)], [n, n], flip))
    order = np.random.default_rng(case["order"]).permutation(len(factors)) if case["order"] else range(len(factors))
    factors = [factors[i] for i in order]
    evidence = {y(t): v for t, v in observed.items()}
    graph = ClusterGraph(factors, disable_tqdm=True,
                         **({"evidence": evidence} if case["mode"] == "evidence" else {"special_evidence": evidence}))
    if not is_forest(graph):
        raise Violation("the cluster graph of a chain has a loop")
    graph.process_graph(tol=1e-13, max_iter=60)

    # forward-backward
    likelihood = [emit[:, observed[t]] if t in observed else np.ones(n) for t in range(length)]
    forward = [prior * likelihood[0]]
    for t in range(1, length):
        f = (forward[-1] @ trans) * likelihood[t]
        forward.append(f / f.sum())
    backward = [np.ones(n)]
    for t in range(length - 1, 0, -1):
        b = trans @ (backward[0] * likelihood[t])
        backward.insert(0, b / b.sum())
    names = [x(t) for t in range(length)] + [y(t) for t in range(length)]

    def marginal(vrs, cards):
        result = graph.get_marginal(list(vrs))
        got = D.table_of(result)
        if sorted(got.vrs) != sorted(vrs):
            raise Violation(f"the marginal of {vrs} has the scope {got.vrs} ({names})")
        got = got.reorder(vrs).normalized()
        return np.exp(np.array([got.values[a] for a in np.ndindex(*cards)])).reshape(cards)

    for t in range(length):
        smooth = forward[t] * backward[t]
        smooth /= smooth.sum()
        got = marginal([x(t)], [n])
        if not np.allclose(got, smooth, atol=1e-5, rtol=0):
            raise Violation(f"P({x(t)}) is {got} instead of {smooth}")
        if t not in observed:
            wanted = smooth @ emit
            got = marginal([y(t)], [m])
            if not np.allclose(got, wanted, atol=1e-5, rtol=0):
                raise Violation(f"P({y(t)}) is {got} instead of {wanted}")
    for t in range(1, length):
        pair = forward[t - 1][:, None] * trans * (likelihood[t] * backward[t])[None, :]
        pair /= pair.sum()
        got = marginal([x(t), x(t - 1)], [n, n]).T
        if not np.allclose(got, pair, atol=1e-5, rtol=0):
            raise Violation(f"P({x(t - 1)}, {x(t)}) is {got} instead of {pair}")


# ----------------------------------------------------------------------------------------------------------------------
# K04


@st.composite
def gaussian_tree_case(draw):
    model = draw(gaussian_model())
    model["queries"] = queries_of(draw, model)
    return model


@check("K04", "trees", gaussian_tree_case(), quick=2500, thorough=60000,
       rule="a tree structured model of Gaussian factors with evidence; non-trivial: the graph is a forest with at least three "
            "clusters.")
def gaussian_trees_body(case, ctx):
    graph = make_graph(case)
    shape_tags(graph, case, ctx)
    if not is_forest(graph):
        raise Discard()
    ctx.nontrivial = len(clusters_of(graph)) >= 3
    graph.process_graph(tol=1e-13, max_iter=60)
    check_marginals(graph, Gaussians, reference(case), case["queries"], "after message passing")


@st.composite
def units_tree_case(draw):
    model = draw(gaussian_tree_case())
    unit = draw(st.sampled_from([1e-3, 1e-5, 30.0, 1e3, 1e-2]))
    model["units"] = {v: unit * draw(st.sampled_from([1.0, 1.0, 0.25, 4.0])) for v in Q.NAMES}
    return model


@check("K04", "units", units_tree_case(), quick=1500, thorough=40000,
       rule="the same with the variables in other units (1e-5 to 1e3 times the values); non-trivial: at least three clusters.")
def units_tree_body(case, ctx):
    with Q.in_units(case["units"]):
        ctx.tag("small_units" if min(case["units"].values()) < 0.1 else "large_units")
        gaussian_trees_body(case, ctx)


@st.composite
def kalman_case(draw, kinds=("direct", "template")):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 2))
    entry = st.sampled_from([1, 0, -1, 0.5, 2, -0.3])
    length = draw(st.sampled_from([2, 3, 4, 5, 7, 10, 15]))
    a_mat = [[draw(entry) for _ in range(n)] for _ in range(n)]
    radius = np.abs(np.linalg.eigvals(np.array(a_mat, dtype=float))).max()
    if radius > 1.3:
        a_mat = np.round(np.array(a_mat) * 1.2 / radius, 3).tolist()
    if abs(np.linalg.det(a_mat)) < 0.05:  # (see known_findings.txt for singular dynamics)
        a_mat = (np.round(np.array(a_mat, dtype=float) * 0.3, 3) + np.eye(n)).tolist()
        if abs(np.linalg.det(a_mat)) < 0.05:
            a_mat = np.eye(n).tolist()
    return {
        "n": n, "m": m, "length": length, "A": a_mat,
        "C": [[draw(entry) for _ in range(n)] for _ in range(m)],
        "Q": draw(Q.covariance(n, (1, 1, 0.1))).tolist(), "R": draw(Q.covariance(m, (1, 1, 0.1))).tolist(),
        "P": draw(Q.covariance(n, (1, 1, 10))).tolist(), "mean": [draw(st.sampled_from(MEANS)) for _ in range(n)],
        "lw": draw(st.sampled_from([0.0, 1.5, -2.0])),
        "observed": [draw(st.integers(0, 2 ** m - 1)) if draw(st.integers(0, 3)) == 0 else 2 ** m - 1 for _ in range(length)],
        "how": draw(st.sampled_from(list(kinds))), "mode": draw(st.sampled_from(["evidence", "special"])),
        "order": draw(st.integers(0, 999)), "seed": draw(st.integers(0, 2 ** 32 - 1)),
        "start": draw(st.sampled_from([0, 0, 0, 1])), "query": draw(st.integers(0, 7)),
        "unit": draw(st.sampled_from([1.0, 1.0, 1e-2, 1e-3, 30.0])),
    }


def kalman_smoother(case, values):
    """
    The textbook filter and Rauch-Tung-Striebel smoother. :return: the smoothed means and covariances
    """
    a_mat, c_mat = np.array(case["A"], dtype=float), np.array(case["C"], dtype=float)
    q_mat, r_mat = np.array(case["Q"]), np.array(case["R"])
    mean, cov = np.array(case["mean"], dtype=float), np.array(case["P"])
    filtered, predicted = [], []
    for t in range(case["length"]):
        if t:
            mean, cov = a_mat @ mean, a_mat @ cov @ a_mat.T + q_mat
        predicted.append((mean, cov))
        rows = [i for i in range(case["m"]) if values[t].get(i) is not None]
        if rows:
            c, r = c_mat[rows], r_mat[np.ix_(rows, rows)]
            y = np.array([values[t][i] for i in rows])
            gain = cov @ c.T @ np.linalg.inv(c @ cov @ c.T + r)
            mean = mean + gain @ (y - c @ mean)
            cov = cov - gain @ c @ cov
        filtered.append((mean, cov))
    smoothed = [filtered[-1]]
    for t in range(case["length"] - 2, -1, -1):
        f_mean, f_cov = filtered[t]
        p_mean, p_cov = predicted[t + 1]
        s_mean, s_cov = smoothed[0]
        gain = f_cov @ a_mat.T @ np.linalg.inv(p_cov)
        smoothed.insert(0, (f_mean + gain @ (s_mean - p_mean), f_cov + gain @ (s_cov - p_cov) @ gain.T))
    return smoothed


def state_space(case):
    """
    The factors of a linear state space model. :return: factors, evidence, values by time
    """
    from veroku.factors.gaussian import Gaussian, make_linear_gaussian, make_linear_gaussian_cpd_template

    a_mat, c_mat = np.array(case["A"], dtype=float), np.array(case["C"], dtype=float)
    q_mat, r_mat = np.array(case["Q"]), np.array(case["R"])
    n, m = case["n"], case["m"]

    def xs(t):
        return [f"x{i}_{t}" for i in range(n)]

    def ys(t):
        return [f"y{i}_{t}" for i in range(m)]

    factors = [Gaussian(cov=np.array(case["P"]), mean=np.array(case["mean"], dtype=float).reshape(-1, 1), log_weight=case["lw"],
                        var_names=xs(0))]
    if case["how"] == "template":
        move_template = make_linear_gaussian_cpd_template(a_mat, q_mat, xs("{i}"), xs("{j}"))
        see_template = make_linear_gaussian_cpd_template(c_mat, r_mat, xs("{i}"), ys("{i}"))
    for t in range(case["length"]):
        if case["how"] == "template":
            see = see_template.make_factor(format_dict={"i": t})
            move = move_template.make_factor(format_dict={"i": t - 1, "j": t}) if t else None
        elif case["how"] == "direct":
            see = make_linear_gaussian(c_mat, r_mat, xs(t), ys(t))
            move = make_linear_gaussian(a_mat, q_mat, xs(t - 1), xs(t)) if t else None
        else:
            def nonlinear(mat, cov, x, y):
                return make_nlg({"x": x, "y": y, "N": cov, "template": case["how"] == "nonlinear_template",
                                 "transform": {"A": mat, "b": [0.0] * len(y), "phi": ["id"] * len(y), "cross": [0] * len(y),
                                               "named": bool(case["seed"] % 2)}})
            see = nonlinear(case["C"], case["R"], xs(t), ys(t))
            move = nonlinear(case["A"], case["Q"], xs(t - 1), xs(t)) if t else None
        factors.extend([see] if move is None else [see, move])
    rng = np.random.default_rng(case["seed"])
    values = []
    evidence = {}
    for t in range(case["length"]):
        drawn = np.round(rng.normal(0, 2, m), 3) * case.get("unit", 1.0)
        values.append({i: float(drawn[i]) for i in range(m) if (case["observed"][t] >> i) & 1})
        evidence.update({ys(t)[i]: v for i, v in values[t].items()})
    if case["order"]:
        factors = [factors[i] for i in np.random.default_rng(case["order"]).permutation(len(factors))]
    return factors, evidence, values, xs, ys


@check("K04", "kalman", kalman_case(), quick=700, thorough=16000, weight=2,
       rule="a linear state space model of up to 15 steps with missing measurements, in any factor order, against the "
            "Rauch-Tung-Striebel smoother; non-trivial: at least three steps and two states or a missing measurement.")
def kalman_body(case, ctx):
    from veroku.cluster_graph import ClusterGraph

    unit = case.get("unit", 1.0)  # of all the states and measurements
    case = dict(case, mean=[m * unit for m in case["mean"]],
                **{key: (np.array(case[key]) * unit ** 2).tolist() for key in ("P", "Q", "R")})
    factors, evidence, values, xs, ys = state_space(case)
    full = all(o == 2 ** case["m"] - 1 for o in case["observed"])
    ctx.nontrivial = case["length"] >= 3 and (case["n"] >= 2 or not full)
    ctx.tag(case["how"], case["mode"], "complete" if full else "missing_measurements", f"length_{case['length']}")
    graph = ClusterGraph(factors, disable_tqdm=True,
                         **({"evidence": evidence} if case["mode"] == "evidence" else {"special_evidence": evidence}))
    if not is_forest(graph):
        if case["n"] == 1:
            raise Violation("the cluster graph of a chain has a loop")
        ctx.tag("loopy")
        raise Discard()
    smoothed = kalman_smoother(case, values)
    tol, floor = 1e-4, 0.0
    if case["how"].startswith("nonlinear"):
        # messages in covariance form: what the noise adds to states of which little is known is lost in rounding errors
        tol = 1e-3
        prior = kalman_smoother(case, [{} for _ in values])
        smallest = min(np.linalg.eigvalsh(cov)[0] for _, cov in smoothed)
        if max(np.abs(cov).max() for _, cov in prior) > 2e4 * min(smallest, np.linalg.eigvalsh(np.array(case["Q"]))[0]):
            ctx.tag("ill_conditioned")
            raise Discard()
    graph.process_graph(tol=1e-13, max_iter=80)
    for t, (mean, cov) in enumerate(smoothed):
        expected = Q.Quad.from_moments(xs(t), cov, mean, 0.0)
        if np.linalg.cond(cov) > 1e5 or np.abs(cov).max() > 1e5 * unit ** 2:
            raise Discard()
        marginal = graph.get_marginal(xs(t)[::-1] if case["query"] & 1 else xs(t))
        Gaussians.same_distribution(Gaussians.read(marginal), expected, f"the state at {t}", tol, floor)
        single = xs(t)[case["query"] % case["n"]]
        marginal = graph.get_marginal([single])
        Gaussians.same_distribution(Gaussians.read(marginal), expected.marginal([single]), f"the state {single}", tol, floor)


@check("K04", "nonlinear_factors", kalman_case(kinds=("nonlinear", "nonlinear_template")), quick=250, thorough=6000, weight=4,
       rule="the same with affine nonlinear Gaussian factors; non-trivial: at least three steps.")
def nonlinear_kalman_body(case, ctx):
    kalman_body(case, ctx)
    ctx.nontrivial = case["length"] >= 3


# ----------------------------------------------------------------------------------------------------------------------
# K05


@st.composite
def process_case(draw):
    loopy = draw(st.booleans())
    if draw(st.booleans()):
        model = draw(discrete_model(loopy=loopy, max_clusters=6, max_joint=200))
    else:
        model = draw(gaussian_model(loopy=loopy, max_clusters=6))
    model["runs"] = [[draw(st.sampled_from([1e-3, 1e-6, 0.1, 1.0, 1e-10, 0.0])), draw(st.sampled_from([1, 2, 3, 10, 0, 30]))]
                     for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    model["before"] = draw(st.sampled_from([0, 0, 0, 1, 2]))  # messages of an earlier (incomplete) run
    model["exact"] = draw(st.sampled_from([None, 0, 1, 2, 3, 5, 8]))  # another run, the tolerance is a distance of the first one
    return model


def check_stop(distances, tol, limit):
    """
    A run ends with the first message after which no message would change a belief by more than the tolerance.
    """
    for i, distance in enumerate(distances[:-1]):
        if distance <= tol:
            raise Violation(f"{len(distances)} messages were passed, but the largest change was {distance} after message {i} already "
                            f"(tolerance {tol})")
    if len(distances) < limit and not (distances and distances[-1] <= tol):
        raise Violation(f"stopped after {len(distances)} of {limit} messages with the distances {distances} (tolerance {tol})")


def gains(graph):
    return {path_key(p): float(p.next_information_gain) for p in graph.graph_message_paths}


def close_gain(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 + 1e-6 * abs(b)


def check_gain(path, domain):
    """
    The information gain of a message is the KL-divergence of the last message from it (the distance of the first message from a
    vacuous one), as far as the reference can tell.
    """
    got = float(path.next_information_gain)
    after = domain.read(path.next_message.factor)
    if not after.vrs:
        return
    if domain is Discrete:
        if after.all_zero():
            return
        after = after.normalized()
        if path.previously_sent_message is None:
            uniform = D.Table(after.vrs, after.cards, {a: 0.0 for a in after.assignments()}).normalized()
            want = table_kl(after, uniform)
        else:
            want = table_kl(domain.read(path.previously_sent_message.factor).normalized(), after)
        if not close_div(got, want):
            raise Violation(f"the information gain along {path_key(path)} is {got} instead of {want}")
    elif path.previously_sent_message is not None:
        before = domain.read(path.previously_sent_message.factor)
        if not well_posed(before, 1e4) or not well_posed(after, 1e4):
            return
        want = gaussian_kl(before, after)
        if not math.isclose(got, want, rel_tol=1e-3, abs_tol=1e-6):
            raise Violation(f"the information gain along {path_key(path)} is {got} instead of {want}")


@check("K05", "schedule", process_case(), quick=3000, thorough=60000,
       rule="a model (with or without loops) and one to three runs with a tolerance and an iteration limit each; every message of the "
            "built in schedule is repeated on a second graph with the same factors; non-trivial: at least four messages.")
def process_body(case, ctx):
    graph, shadow = make_graph(case), make_graph(case)
    shape_tags(graph, case, ctx)
    count = len(graph.graph_message_paths)
    if case["before"] and count:
        for g in (graph, shadow):
            for path in sorted(g.graph_message_paths, key=path_key)[:case["before"]]:
                path.pass_next_message()
    graph.debug = True  # records the messages
    domain = domain_of(case)
    total = 0
    recorded = []
    state = {"blowup": False}
    for number, (tol, max_iter) in enumerate(case["runs"]):
        before = total
        try:
            graph.process_graph(tol=tol, max_iter=max_iter)
        except ValueError:
            # (see known_findings.txt: the log constants of messages can grow without bounds on graphs with several loops)
            if domain is Discrete and not is_forest(graph) and not case.get("strict") and \
                    max([magnitude(domain.read(m.factor)) for m in graph.passed_messages[-count:]], default=0) > 1e7:
                raise Discard() from None
            raise
        messages, distances = list(graph.passed_messages)[before:], list(graph.sync_message_passing_max_distances)
        total = graph.num_messages_passed
        if count == 0:
            if messages or distances or total:
                raise Violation("messages were passed in a graph without edges")
            return
        if len(messages) != total - before or len(distances) != total - before:
            raise Violation(f"run {number}: {total - before} messages were counted, {len(messages)} recorded and {len(distances)} "
                            "distances reported")
        check_stop(distances, tol, max_iter * count)
        recorded = recorded + distances
        check_run(graph, shadow, domain, messages, distances, tol, max_iter * count, state, ctx)
    finite = [d for d in recorded if math.isfinite(d)]
    if case.get("exact") is not None and finite and not state["blowup"]:
        ctx.tag("exact_tolerance")
        graph_2, tol = make_graph(case), finite[case["exact"] % len(finite)]
        graph_2.process_graph(tol=tol, max_iter=3)
        check_stop(list(graph_2.sync_message_passing_max_distances), tol, 3 * count)
    ctx.nontrivial = total >= 4
    for path in graph.graph_message_paths:
        history = path.information_gains_with_iters
        if not history or history[-1] != path.next_information_gain:
            raise Violation(f"the recorded information gains {history[-3:]} of a path end with {path.next_information_gain}")


def magnitude(table):
    return max([abs(x) for x in table.values.values() if math.isfinite(x)] or [0.0])


def check_run(graph, shadow, domain, messages, distances, tol, limit, state, ctx):
    passed = len(messages)
    if passed > limit:
        raise Violation(f"{passed} messages, but at most {limit} were allowed")
    for i, message in enumerate(messages):
        before = gains(shadow)
        key = (message.sender_id, message.receiver_id)
        if key not in before:
            raise Violation(f"message {i} from {key[0]} to {key[1]}")
        if i and max(before.values()) < tol and not close_gain(max(before.values()), tol):
            raise Violation(f"message {i} was passed although the largest change was {max(before.values())} (tolerance {tol})")
        if not before[key] >= max(before.values()) and not close_gain(before[key], max(before.values())):
            raise Violation(f"message {i} ({key[0]} to {key[1]}) has an information gain of {before[key]}, the largest one is "
                            f"{max(before.values())}")
        path = [p for p in shadow.graph_message_paths if path_key(p) == key][0]
        sent = domain.read(path.next_message.factor)
        actual = domain.read(message.factor)
        state["blowup"] = state["blowup"] or (np.abs(sent.K).max(initial=0) if domain is Gaussians else magnitude(sent)) > 1e6
        if not state["blowup"]:
            domain.same(actual, sent, f"message {i} from {key[0]} to {key[1]}", tol=1e-5)
            if i < 8:
                for other in shadow.graph_message_paths:
                    check_gain(other, domain)
        path.pass_next_message()
        largest = max(gains(shadow).values())
        if not state["blowup"] and not close_gain(float(distances[i]), largest):
            raise Violation(f"the distance reported for message {i} is {distances[i]} instead of {largest}")
    largest = max(gains(shadow).values())
    ctx.tag("converged" if largest <= tol else "limit")
    if passed < limit and (largest > tol and not close_gain(largest, tol) or not passed):
        raise Violation(f"stopped after {passed} of {limit} messages although the largest change is {largest} (tolerance {tol})")
    if not state["blowup"]:
        for a, b in zip(sorted(clusters_of(graph), key=lambda c: c.cluster_id),
                        sorted(clusters_of(shadow), key=lambda c: c.cluster_id)):
            domain.same(domain.read(a.factor), domain.read(b.factor), f"the factor of {a.cluster_id}", tol=1e-5)


@check("K05", "convergence", any_model(), quick=2500, thorough=50000,
       rule="a tree structured model that is processed to convergence and then once more; non-trivial: at least three clusters.")
def convergence_body(case, ctx):
    domain = domain_of(case)
    graph = make_graph(case)
    shape_tags(graph, case, ctx)
    if not is_forest(graph):
        raise Discard()
    clusters = clusters_of(graph)
    ctx.nontrivial = len(clusters) >= 3
    edge_count = len(graph.graph_message_paths)
    graph.process_graph(tol=1e-13, max_iter=60)
    if graph.num_messages_passed > 20 * edge_count * (len(clusters) + 1):
        raise Violation(f"{graph.num_messages_passed} messages on a tree with {edge_count} message paths")
    for path in graph.graph_message_paths:
        if path.next_information_gain > 1e-9:
            raise Violation(f"the next information gain of {path_key(path)} is {path.next_information_gain} after convergence")
        if path.previously_sent_message is None:
            continue
        before, after = domain.read(path.previously_sent_message.factor), domain.read(path.next_message.factor)
        if domain is Discrete:
            domain.same_distribution(after, before, f"the next message along {path_key(path)} after convergence")
        else:
            domain.same(after, before, f"the next message along {path_key(path)} after convergence", tol=1e-3, constant=False)
    beliefs = {c.cluster_id: domain.read(c.factor) for c in clusters}
    graph.process_graph(tol=1e-13, max_iter=60)

    def compare(wanted, what):
        for cluster in clusters_of(graph):
            if cluster.var_names:
                domain.same_distribution(domain.read(cluster.factor), wanted(cluster), f"the belief of {cluster.cluster_id} {what}")

    try:
        compare(lambda cluster: beliefs[cluster.cluster_id], "after processing again")
    except Violation:
        if domain is not Discrete:
            raise
        expected = reference(case)
        compare_settled(graph, domain, ctx, lambda: compare(lambda cluster: expected.marginal(list(cluster.var_names)),
                                                            "after processing again"))


@st.composite
def order_case(draw):
    model = draw(any_model())
    n = len(model["factors"])
    model["permutation"] = draw(st.permutations(list(range(n))))
    names = sorted({v for s in model["factors"] for v in s["vars"]} | set(evidence_of(model)))
    model["rename"] = [[v, w] for v, w in zip(names, draw(st.permutations(names)))] if draw(st.booleans()) else \
        [[v, f"{v}~{len(names) - i}"] for i, v in enumerate(names)]
    model["orders"] = [draw(st.permutations(s["vars"])) for s in model["factors"]]
    model["queries"] = queries_of(draw, model)
    model["shift"] = draw(st.sampled_from([0.0, 3.0, -5.0]))
    return model


@check("K05", "invariance", order_case(), quick=1500, thorough=30000,
       rule="a tree structured model, and the same model with its factors in another order, renamed variables, other variable orders "
            "and a scaled factor; non-trivial: at least three clusters and two factors in another order.")
def invariance_body(case, ctx):
    domain = domain_of(case)
    rename = dict(case["rename"])
    back = {w: v for v, w in rename.items()}

    def transformed(spec, order, shift):
        if domain is Discrete:
            ref = domain.ref_of(spec).scaled(shift).reorder(order)
            logs = [None if ref.values[a] == D.NEG_INF else ref.values[a] for a in ref.assignments()]
            return {"kind": spec["kind"], "vars": [rename[v] for v in order], "cards": [ref.cards[v] for v in order], "logs": logs,
                    "how": "logs", "default": None, "omit": "all"}
        result = Q.permuted(spec, order)
        return dict(result, vars=[rename[v] for v in order], lw=result["lw"] + shift, form="cov", style="array", warm=[])

    other = {"domain": case["domain"], "evidence": [[rename[v], x] for v, x in case["evidence"]],
             "factors": [transformed(case["factors"][i], case["orders"][i], case["shift"] if i == 0 else 0.0)
                         for i in case["permutation"]]}
    graph, other_graph = make_graph(case), make_graph(other)
    shape_tags(graph, case, ctx)
    if not is_forest(graph) or not is_forest(other_graph):
        raise Discard()
    clusters = clusters_of(graph)
    ctx.nontrivial = len(clusters) >= 3 and case["permutation"] != sorted(case["permutation"])
    for g in (graph, other_graph):
        g.process_graph(tol=1e-13, max_iter=60)

    def read(g, wanted):
        """The marginal in terms of the original names"""
        if g is graph:
            return domain.read(graph.get_marginal(wanted))
        marginal = domain.read(other_graph.get_marginal([rename[v] for v in wanted]))
        if domain is Discrete:
            return D.Table([back[v] for v in marginal.vrs], {back[v]: c for v, c in marginal.cards.items()}, marginal.values)
        return Q.Quad([back[v] for v in marginal.vrs], marginal.K, marginal.h, marginal.g)

    for cluster_number, subset_number in case["queries"]:
        scope = list(clusters[cluster_number % len(clusters)].var_names)
        if not scope:
            continue
        wanted = pick(scope, subset_number)
        what = f"the marginal of {wanted} with another order and names"
        try:
            domain.same_distribution(read(graph, wanted), read(other_graph, wanted), what)
        except Violation:
            if domain is not Discrete:
                raise
            exact = reference(case).marginal(wanted)
            for g in (graph, other_graph):
                compare_settled(g, domain, ctx, lambda g=g: domain.same_distribution(read(g, wanted), exact, what))


# ----------------------------------------------------------------------------------------------------------------------
# K06


@st.composite
def special_case(draw):
    model = draw(discrete_model(evidence=False)) if draw(st.booleans()) else draw(gaussian_model(evidence=False))
    names = sorted({v for s in model["factors"] for v in s["vars"]})
    observed = draw(Q.subset(names, low=1, high=4))
    if model["domain"] == "discrete":
        values = {}
        for v in observed:
            card = [s["cards"][s["vars"].index(v)] for s in model["factors"] if v in s["vars"]][0]
            values[v] = draw(st.integers(0, card - 1))
    else:
        values = {v: draw(st.sampled_from([0.0, 1.0, -2.0, 0.5, 3])) for v in observed}
    model["evidence"] = []
    model["observed"] = [[v, values[v], draw(st.sampled_from(["special", "special", "evidence"]))] for v in observed]
    if draw(st.integers(0, 4)) == 0:
        model["observed"].append(["not in the model", 0, draw(st.sampled_from(["special", "evidence"]))])
    model["queries"] = queries_of(draw, model)
    model["again"] = draw(st.booleans())
    return model


@st.composite
def wide_case(draw):
    """
    A cluster with several observed variables and branches that share its other variables (and some of the observed ones).
    """
    domain = draw(st.sampled_from(["discrete", "gaussian"]))
    number, free = draw(st.integers(3, 5)), draw(st.integers(1, 3))
    hub = list(range(number + free))
    observed, fresh = draw(st.permutations(hub))[:number], len(hub)
    scopes = [draw(st.permutations(hub))]
    for v in [v for v in hub if v not in observed]:
        last = [v]
        for _ in range(draw(st.sampled_from([1, 1, 2, 0]))):
            if fresh == 9:
                break
            shared = draw(Q.subset(observed, low=0, high=2)) if draw(st.integers(0, 2)) == 0 else []
            scopes.append(draw(st.permutations(last + [fresh] + shared)))
            last, fresh = [fresh], fresh + 1
    names = draw(st.permutations(D.NAMES if domain == "discrete" else Q.NAMES))[:fresh]
    model = {"domain": domain, "evidence": []}
    if domain == "discrete":
        uni = {"names": list(names), "cards": [2] * fresh}
        kind = draw(st.sampled_from(["dense", "sparse"]))
        model["factors"] = [draw(D.factor_over(uni, scope, kind=kind, zeros=False)) for scope in draw(st.permutations(scopes))]
        values = [draw(st.integers(0, 1)) for _ in observed]
    else:
        model["factors"] = [draw(Q.gaussian_over([names[i] for i in scope], scales=SCALES, means=MEANS))
                            for scope in draw(st.permutations(scopes))]
        values = [draw(st.sampled_from([0.0, 1.0, -2.0, 0.5, 3])) for _ in observed]
    kinds = draw(st.sampled_from([["special"], ["special"], ["special", "special", "evidence"]]))
    model["observed"] = [[names[v], x, draw(st.sampled_from(kinds))] for v, x in zip(observed, values)]
    model["queries"] = queries_of(draw, model)
    model["again"] = False
    return model


@check("K06", "wide_clusters", wide_case(), quick=600, thorough=8000,
       rule="a cluster with three to five observed variables and branches over its other variables; as for special_evidence.")
@check("K06", "special_evidence", special_case(), quick=6000, thorough=60000,
       rule="a tree structured model and observations that are split over the two mechanisms, compared with exact inference and with a "
            "graph that is given all of them at construction; non-trivial: at least two clusters and special evidence.")
def special_body(case, ctx):
    domain = domain_of(case)
    observed = {v: x for v, x, _ in case["observed"]}
    special = {v: x for v, x, how in case["observed"] if how == "special"}
    evidence = {v: x for v, x, how in case["observed"] if how == "evidence"}
    expected = reference(case, observed)
    if domain is Discrete and expected.all_zero():
        raise Discard()
    given = dict(special)
    graph = make_graph(case, special=given, evidence=evidence)
    shape_tags(graph, case, ctx)
    ctx.tag("mixed" if evidence else "only_special")
    if not is_forest(graph):
        raise Discard()
    clusters = clusters_of(graph)
    ctx.nontrivial = len(clusters) >= 2 and bool(special)
    scopes = [[v for v in c.var_names if v not in special] for c in clusters]
    if len(clusters) == 1:
        ctx.tag("single_cluster")
        if not scopes[0]:
            raise Discard()
    runs = 2 if case["again"] else 1
    for run in range(runs):
        graph.process_graph(tol=1e-13, max_iter=60)
        for cluster_number, subset_number in case["queries"]:
            scope = scopes[cluster_number % len(scopes)]
            if not scope:
                continue
            wanted = pick(scope, subset_number)
            compare_settled(graph, domain, ctx, lambda wanted=wanted, run=run: domain.same_distribution(
                domain.read(graph.get_marginal(wanted)), expected.marginal(wanted),
                f"run {run}: the marginal of {wanted} given {observed}"), special=special)
        for path in graph.graph_message_paths:
            message = domain.read(path.next_message.factor)
            if set(message.vrs) & set(observed):
                raise Violation(f"a message over the observed variables {set(message.vrs) & set(observed)}")
    if given != special:
        raise Violation("the given evidence was changed")
    # the other mechanism
    direct = make_graph(case, evidence=observed)
    if not is_forest(direct):
        return
    direct.process_graph(tol=1e-13, max_iter=60)
    for cluster in clusters_of(direct):
        scope = list(cluster.var_names)
        if scope:
            compare_settled(direct, domain, ctx, lambda scope=scope: domain.same_distribution(
                domain.read(direct.get_marginal(scope)), expected.marginal(scope),
                f"the marginal of {scope} with all the evidence at construction"))
            try:
                graph.get_marginal(scope)
            except ValueError:
                continue  # (clusters are absorbed in a different way if the evidence is given at construction)
            compare_settled(graph, domain, ctx, lambda scope=scope: domain.same_distribution(
                domain.read(graph.get_marginal(scope)), domain.read(direct.get_marginal(scope)),
                f"the marginal of {scope} with both kinds of evidence"), special=special)
