"""
K08: converged message passing on cluster graphs with loops.
"""
import math

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.cluster_graph import (Discrete, Gaussians, clusters_of, domain_of, edges_of, is_forest, magnitude,
                                          make_graph, pick, reduced, reference, shape_tags)
from harness.core import Discard, Violation, check, prop

prop("K08", [
    "Rings (with chords), grids, complete graphs and random sets of pairs and triples of up to nine variables, with evidence that is "
    "given at construction or later; the couplings are so weak that belief propagation has one fixed point (`weak`), or stronger.",
    "Stronger models of which the message passing does not converge within the limit are left out (a share that is reported).",
    "The fixed point is that of the cluster graph that was built (its clusters and separators), not of some other graph.",
])

TOL = 1e-11


@st.composite
def loopy_scopes(draw, kinds=("ring", "chords", "grid", "complete", "pairs", "triples")):
    kind = draw(st.sampled_from(list(kinds)))
    if kind in ("ring", "chords"):
        n = draw(st.sampled_from([3, 4, 5, 6]))
        scopes = [[i, (i + 1) % n] for i in range(n)]
        if kind == "chords":
            for _ in range(draw(st.integers(1, 2))):
                i = draw(st.integers(0, n - 1))
                scopes.append([i, (i + draw(st.integers(1, n - 1))) % n])
    elif kind == "grid":
        rows, cols = draw(st.sampled_from([(2, 2), (2, 3), (3, 3), (2, 4)]))
        scopes = [[r * cols + c, r * cols + c + 1] for r in range(rows) for c in range(cols - 1)]
        scopes += [[r * cols + c, (r + 1) * cols + c] for r in range(rows - 1) for c in range(cols)]
    elif kind == "web":  # most pairs of five or six variables
        n = draw(st.sampled_from([5, 5, 6]))
        pairs = [[i, j] for i in range(n) for j in range(i)]
        scopes = [pairs[k] for k in draw(st.permutations(range(len(pairs))))[:draw(st.integers(6, 9))]]
        used = sorted({v for s in scopes for v in s})
        scopes = [[used.index(v) for v in s] for s in scopes]
    elif kind == "complete":
        n = draw(st.sampled_from([3, 4]))
        scopes = [[i, j] for i in range(n) for j in range(i)]
    else:
        size = 2 if kind == "pairs" else 3
        n = draw(st.integers(size + 1, 6))
        scopes = [draw(st.permutations(range(n)))[:size] for _ in range(draw(st.integers(3, 5)))]
        used = sorted({v for s in scopes for v in s})
        scopes = [[used.index(v) for v in s] for s in scopes]
    return kind, scopes


@st.composite
def loopy_case(draw, domains=("discrete", "gaussian")):
    kind, scopes = draw(loopy_scopes())
    count = 1 + max(v for s in scopes for v in s)
    domain = draw(st.sampled_from(list(domains)))
    names = draw(st.permutations(D.NAMES))[:count]
    weak = draw(st.sampled_from([True, True, False]))
    for i in range(count):
        if draw(st.integers(0, 2)):
            scopes.append([i])
    scopes = [draw(st.permutations(s)) for s in draw(st.permutations(scopes))]
    specs = []
    cards = [draw(st.sampled_from([2, 2, 3])) for _ in range(count)]
    factor_kind = draw(st.sampled_from(["dense", "sparse"]))
    for scope in scopes:
        vrs = [names[i] for i in scope]
        seed = draw(st.integers(0, 2 ** 32 - 1))
        rng = np.random.default_rng(seed)
        if domain == "discrete":
            size = int(np.prod([cards[i] for i in scope]))
            strength = 1.5 if len(scope) == 1 else (0.25 if weak else draw(st.sampled_from([0.7, 1.5, 3.0])))
            shift = draw(st.sampled_from([0.0, 0.0, -5.0, 3.0]))
            logs = [round(float(x), 3) + shift for x in rng.uniform(-strength, strength, size)]
            spec = {"kind": factor_kind, "vars": vrs, "cards": [cards[i] for i in scope], "how": "logs", "logs": logs}
            if factor_kind == "dense":
                spec["layout"] = draw(st.sampled_from(["C", "F"]))
            else:
                spec.update(default=None, omit="none", reverse=False)
            specs.append(spec)
        else:
            n = len(scope)
            strength = 0.15 if weak else draw(st.sampled_from([0.5, 0.9, 1.3]))
            K = np.diag(rng.uniform(1.0, 2.0, n))
            for i in range(n):
                for j in range(i):
                    K[i, j] = K[j, i] = rng.uniform(-strength, strength) / max(n - 1, 1)
            K, h = np.round(K, 4), np.round(rng.uniform(-3, 3, n), 3)
            specs.append({"vars": vrs, "K": K.tolist(), "h": h.tolist(), "g": draw(st.sampled_from([0.0, 1.5, -20.0]))})
    observed = draw(Q.subset(list(range(count)), low=1, high=2)) if draw(st.booleans()) else []
    evidence = [[names[i], draw(st.integers(0, cards[i] - 1)) if domain == "discrete" else draw(st.sampled_from([0.0, 1.0, -2.0]))]
                for i in observed]
    later = draw(st.booleans())
    return {"domain": domain, "shape": kind, "weak": weak, "factors": specs, "evidence": [] if later else evidence,
            "special": evidence if later else [], "queries": [[draw(st.integers(0, 9)), draw(st.integers(0, 99))] for _ in range(2)],
            "parts": draw(st.sampled_from([[], [], [1e-2], [0.3, 1e-4]])), "scaled": draw(st.sampled_from([None, 2.0, -7.0]))}



def propagate(domain, factors, edges, limit):
    """
    Belief propagation on a cluster graph: the beliefs of the fixed point, or None if it is not found. The messages are normalised
    and sent in rounds.
    """
    directed = [tuple(e) for e in edges] + [tuple(e)[::-1] for e in edges]
    seps = {**{tuple(e): s for e, s in edges.items()}, **{tuple(e)[::-1]: s for e, s in edges.items()}}
    messages = {}

    def belief(i):
        return domain.product([factors[i]] + [m for (_, j), m in messages.items() if j == i])

    for _ in range(limit):
        change = 0.0
        for i, j in directed:
            message = belief(i).marginal(seps[i, j])
            if (j, i) in messages:
                message = domain.cancel(message, messages[j, i])
            if domain is Discrete:
                message = message.normalized()
            else:
                message.g = 0.0
            old = messages.get((i, j))
            if old is None:
                change = math.inf
            elif domain is Discrete:
                change = max([change] + [abs(message.at(dict(zip(old.vrs, a))) - x) for a, x in old.values.items()])
            else:
                other = message.reorder(old.vrs)
                change = max(change, np.abs(other.K - old.K).max(), np.abs(other.h - old.h).max())
            messages[i, j] = message
        if change <= 1e-12:
            return {i: belief(i) for i in factors}
        if domain is Gaussians and not all(belief(i).proper() for i in factors):
            return None
    return None


def converge(graph, parts):
    for tol in parts:
        graph.process_graph(tol=tol, max_iter=60)
    before = graph.num_messages_passed
    limit = 60
    graph.process_graph(tol=TOL, max_iter=limit)
    return graph.num_messages_passed - before, all(p.next_information_gain <= TOL for p in graph.graph_message_paths)


@check("K08", "fixed_points", loopy_case(), quick=1800, thorough=40000,
       rule="a discrete or Gaussian model with loops that is processed until no message changes a belief; non-trivial: the graph has a "
            "loop and the message passing converged.")
def fixed_points_body(case, ctx):
    domain = domain_of(case)
    special = {v: x for v, x in case["special"]}
    given = {v: x * Q.UNITS.get(v, 1.0) for v, x in special.items()} if Q.UNITS else special
    graph = make_graph(case, special=given)
    shape_tags(graph, case, ctx)
    ctx.tag(case["shape"], "weak" if case["weak"] else "strong")
    clusters = {c.cluster_id: c for c in clusters_of(graph)}
    edges = edges_of(graph)
    factors = {i: reduced(domain.read(c.factor), special) for i, c in clusters.items()}
    if len(clusters) < 2:
        raise Discard()
    graph.debug = True  # records the messages
    try:
        passed, converged = converge(graph, case["parts"])
    except ValueError:
        if domain is Discrete and max([magnitude(domain.read(m.factor)) for m in graph.passed_messages[-10:]], default=0) > 1e7:
            raise Discard() from None  # (see known_findings.txt: the log constants of messages can grow without bounds)
        raise
    if domain is Discrete and max(magnitude(domain.read(c.factor)) for c in clusters.values()) > 1e7:
        raise Discard()
    if not converged:
        if passed < 60 * len(graph.graph_message_paths):
            raise Violation(f"stopped after {passed} messages although the largest change is "
                            f"{max(p.next_information_gain for p in graph.graph_message_paths)}")
        if case["weak"]:
            raise Violation(f"no convergence within {passed} messages: the largest change is "
                            f"{max(p.next_information_gain for p in graph.graph_message_paths)}")
        raise Discard()
    beliefs = {i: reduced(domain.read(c.factor, f"the belief of {i}"), special) for i, c in clusters.items()}
    if domain is Gaussians and not all(b.proper() for b in beliefs.values()):
        if case["weak"]:
            raise Violation(f"an improper belief: {[b.K.tolist() for b in beliefs.values()]}")
        raise Discard()
    loopy = not is_forest(graph)
    ctx.nontrivial = loopy
    # neighbours agree on their separators
    for edge, sepset in edges.items():
        a, b = sorted(edge)
        domain.same_distribution(beliefs[a].marginal(sepset), beliefs[b].marginal(sepset),
                                 f"the marginal of {sorted(sepset)} of the neighbours {a} and {b}")
    exact = reduced(reference(case), special)
    if domain is Gaussians:  # the means of a calibrated Gaussian graph are exact
        means = dict(zip(exact.vrs, exact.mean().ravel()))
        sds = dict(zip(exact.vrs, np.sqrt(np.diag(exact.cov()))))
        for i, belief in beliefs.items():
            for v, m in zip(belief.vrs, belief.mean().ravel()):
                if not abs(m - means[v]) <= 1e-4 * (sds[v] + abs(means[v])):
                    raise Violation(f"the mean of {v} in {i} is {m}, the exact one is {means[v]}")
    if not loopy:
        for i, belief in beliefs.items():
            domain.same_distribution(belief, exact.marginal(belief.vrs), f"the belief of {i} (a tree)")
    # the fixed point
    if case["weak"]:
        wanted = propagate(domain, factors, edges, 300)
        if wanted is None:
            raise Violation("the reference did not converge (a fault of the check)")
        for i, belief in beliefs.items():
            domain.same_distribution(belief, wanted[i], f"the belief of {i}")
        for number, subset in case["queries"]:
            i = sorted(clusters)[number % len(clusters)]
            vrs = pick([v for v in factors[i].vrs], subset) if factors[i].vrs else []
            if not vrs:
                continue
            # (the marginal may be read from any cluster that contains the variables; these agree if they share them in separators)
            marginal = domain.read(graph.get_marginal(vrs), f"the marginal of {vrs}")
            candidates = [wanted[j] for j in wanted if set(vrs) <= set(wanted[j].vrs)]
            for number, candidate in enumerate(candidates):
                try:
                    domain.same_distribution(marginal, candidate.marginal(vrs), f"the marginal of {vrs}")
                    break
                except Violation:
                    if number == len(candidates) - 1:
                        raise
        if case["scaled"] is not None:  # a constant factor makes no difference
            model = dict(case, factors=[dict(s) for s in case["factors"]])
            if domain is Discrete:
                if max(magnitude(domain.read(c.factor)) for c in clusters.values()) > 1e5:
                    return
                model["factors"][0]["logs"] = [x + case["scaled"] for x in model["factors"][0]["logs"]]
            else:
                model["factors"][0]["g"] += case["scaled"]
            other = make_graph(model, special=given)
            converge(other, [])
            for i, c in {c.cluster_id: c for c in clusters_of(other)}.items():
                ref = reduced(domain.read(c.factor), special)
                if i in wanted and edges_of(other) == edges:
                    ctx.tag("scaled")
                    domain.same_distribution(ref, wanted[i], f"the belief of {i} after a factor was scaled")


@st.composite
def units_case(draw):
    case = draw(loopy_case(domains=("gaussian",)))
    unit = draw(st.sampled_from([1e-3, 1e-5, 30.0, 1e3, 1e-2]))
    case["units"] = {v: unit * draw(st.sampled_from([1.0, 1.0, 0.25, 4.0])) for v in D.NAMES}
    return case


@check("K08", "units", units_case(), quick=600, thorough=12000,
       rule="a Gaussian model with loops whose variables are given in other units (1e-5 to 1e3 times the values); non-trivial: as above.")
def units_body(case, ctx):
    with Q.in_units(case["units"]):
        ctx.tag("small_units" if min(case["units"].values()) < 0.1 else "large_units")
        fixed_points_body(case, ctx)


# ----------------------------------------------------------------------------------------------------------------------
# constraints


@st.composite
def constraints_case(draw):
    kind, scopes = draw(loopy_scopes(("web", "ring", "chords", "web", "grid", "complete", "web", "pairs", "triples")))
    count = 1 + max(v for s in scopes for v in s)
    names = draw(st.permutations(D.NAMES))[:count]
    cards = [draw(st.sampled_from([3, 3, 2, 4] if count <= 5 else [3, 3, 2] if count <= 6 else [2]))] * count
    if kind != "web" and draw(st.integers(0, 2)) == 0:
        cards = [draw(st.sampled_from([2, 3])) if count <= 7 else 2 for _ in range(count)]
    truth = [draw(st.integers(0, c - 1)) for c in cards]
    for i in range(count):
        if draw(st.integers(0, 5 if kind == "web" else 2)) == 0:
            scopes.append([i])
    scopes = [draw(st.permutations(s)) for s in draw(st.permutations(scopes))]
    factor_kind = draw(st.sampled_from(["dense", "sparse"]))
    density = draw(st.sampled_from([0.5, 0.4, 0.6, 0.7, 0.25]))
    weights = draw(st.sampled_from([0.0, 0.0, 0.3]))
    rule = draw(st.sampled_from(["random", "random", "random", "different"]))
    specs = []
    for scope in scopes:
        rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
        logs = []
        for assignment in np.ndindex(*[cards[i] for i in scope]):
            true = all(a == truth[i] for a, i in zip(assignment, scope))
            different = [(a == b) == (truth[i] == truth[j]) for k, (a, i) in enumerate(zip(assignment, scope))
                         for b, j in list(zip(assignment, scope))[:k]]
            allowed = all(different) if rule == "different" and len(scope) > 1 else rng.random() > density
            logs.append(round(float(rng.uniform(-weights, weights)), 3) if true or allowed else None)
        spec = {"kind": factor_kind, "vars": [names[i] for i in scope], "cards": [cards[i] for i in scope], "how": "logs", "logs": logs}
        if factor_kind == "dense":
            spec["layout"] = draw(st.sampled_from(["C", "F"]))
        else:
            spec.update(default=None, omit=draw(st.sampled_from(["all", "some", "none"])), reverse=draw(st.booleans()))
        specs.append(spec)
    observed = draw(Q.subset(list(range(count)), low=1, high=2)) if draw(st.integers(0, 3)) == 0 else []
    evidence = [[names[i], truth[i]] for i in observed]
    later = draw(st.booleans())
    return {"domain": "discrete", "shape": kind, "factors": specs, "evidence": [] if later else evidence,
            "special": evidence if later else [], "runs": [[draw(st.sampled_from([1e-3, 1e-6, 0.1])), draw(st.sampled_from([1, 2, 4]))]
                                                           for _ in range(draw(st.integers(0, 2)))] + [[1e-6, 40]]}


def support(table):
    return {frozenset(zip(table.vrs, a)) for a, x in table.values.items() if x > D.NEG_INF}


def closure(supports, edges):
    """
    The largest supports of the clusters whose projections on the separators agree.
    """
    supports = {i: set(s) for i, s in supports.items()}
    changed = True
    while changed:
        changed = False
        for edge, sepset in edges.items():
            for i, j in (tuple(edge), tuple(edge)[::-1]):
                shadow = {frozenset(x for x in a if x[0] in sepset) for a in supports[i]}
                left = {a for a in supports[j] if frozenset(x for x in a if x[0] in sepset) in shadow}
                changed = changed or left != supports[j]
                supports[j] = left
    return supports


@check("K08", "constraints", constraints_case(), quick=2400, thorough=40000,
       rule="a discrete model with loops and many zeros (constraints with a hidden solution); non-trivial: the graph has a loop and the "
            "message passing excludes something that no single cluster excludes.")
def constraints_body(case, ctx):
    special = {v: x for v, x in case["special"]}
    graph = make_graph(case, special=special)
    shape_tags(graph, case, ctx)
    ctx.tag(case["shape"], case["factors"][0]["kind"])
    clusters = {c.cluster_id: c for c in clusters_of(graph)}
    edges = edges_of(graph)
    if len(clusters) < 2:
        raise Discard()
    exact = reduced(reference(case), special)
    solutions = support(exact)

    def beliefs():
        return {i: reduced(D.table_of(c.factor, f"the belief of {i}"), special) for i, c in clusters.items()}

    start = {i: support(b) for i, b in beliefs().items()}
    wanted = closure(start, edges)
    ctx.nontrivial = wanted != start and not is_forest(graph)
    ctx.tag(f"solutions_{min(len(solutions), 3)}")
    for number, (tol, max_iter) in enumerate(case["runs"]):
        before = graph.num_messages_passed
        try:
            graph.process_graph(tol=tol, max_iter=max_iter)
        except ValueError:
            if max(magnitude(D.table_of(p.next_message.factor)) for p in graph.graph_message_paths) > 1e6:
                raise Discard() from None  # (see known_findings.txt)
            raise
        largest = max([p.next_information_gain for p in graph.graph_message_paths], default=0.0)
        if largest > tol and graph.num_messages_passed - before < max_iter * len(graph.graph_message_paths):
            raise Violation(f"run {number} stopped after {graph.num_messages_passed - before} messages although the largest change is "
                            f"{largest} (tolerance {tol})")
        final = number == len(case["runs"]) - 1 and largest <= tol
        for i, belief in beliefs().items():
            got = support(belief)
            for solution in solutions:
                part = frozenset(x for x in solution if x[0] in belief.vrs)
                if part not in got:
                    raise Violation(f"run {number}: {dict(solution)} has a positive probability, but {dict(part)} is excluded in {i}")
            if not got <= start[i]:
                raise Violation(f"run {number}: {i} allows {[dict(a) for a in got - start[i]]}, which its factors exclude")
            if not got >= wanted[i]:
                raise Violation(f"run {number}: {i} excludes {[dict(a) for a in wanted[i] - got]}, which no message excludes")
            if final and got != wanted[i]:
                raise Violation(f"{i} allows {[dict(a) for a in got - wanted[i]]}, which its neighbours exclude")
        if final:
            ctx.tag("converged")
    for v in exact.vrs:  # a variable of which one value is left is certain
        for i, allowed in wanted.items():
            values = {dict(a)[v] for a in allowed if v in dict(a)}
            if len(values) == 1 and final:
                table = D.table_of(graph.get_marginal([v])).normalized()
                if not abs(math.exp(table.values[(values.pop(),)]) - 1.0) < 1e-6:
                    raise Violation(f"the marginal of {v} is {table.values}, only one value is possible")
                ctx.tag("certain")
