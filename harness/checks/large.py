"""
Cluster graphs with many factors (K01-K06): the same properties on graphs that are larger than those of cluster_graph.py. Scopes
and parameters come from a generated seed, so that a case stays small; the exact marginals of large discrete models come from
variable elimination.
"""
import math

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness.checks import cluster_graph as C
from harness.core import Discard, Violation, check

SHAPES = ["random", "chain", "star", "caterpillar", "binary", "hubs"]


class Elimination:
    """
    The product of discrete factors, of which only marginals over a few variables can be computed.
    """

    def __init__(self, tables):
        self.cards = {}
        self.arrays = []
        for table in tables:
            self.cards.update(table.cards)
            array = np.full([table.cards[v] for v in table.vrs], -np.inf)
            for assignment, value in table.values.items():
                array[tuple(assignment)] = value
            self.arrays.append((list(table.vrs), array))

    @staticmethod
    def _product(parts, scope, cards):
        total = np.zeros([cards[v] for v in scope])
        for vrs, array in parts:
            order = sorted(range(len(vrs)), key=lambda i: scope.index(vrs[i]))
            array = np.transpose(array, order) if vrs else array
            total = total + array.reshape([cards[v] if v in vrs else 1 for v in scope])
        return total

    def marginal(self, wanted):
        wanted = list(wanted)
        parts = list(self.arrays)
        left = [v for v in self.cards if v not in wanted]
        while left:
            def size(v):
                return len(set().union(*(set(vrs) for vrs, _ in parts if v in vrs)))
            v = min(left, key=size)
            left.remove(v)
            chosen = [p for p in parts if v in p[0]]
            parts = [p for p in parts if v not in p[0]]
            scope = sorted(set().union(*(set(vrs) for vrs, _ in chosen)))
            if math.prod(self.cards[x] for x in scope) > 200000:
                raise Discard()
            total = self._product(chosen, scope, self.cards)
            axis = scope.index(v)
            top = np.max(total, axis=axis, keepdims=True)
            top = np.where(np.isfinite(top), top, 0.0)
            with np.errstate(divide="ignore"):
                summed = np.log(np.sum(np.exp(total - top), axis=axis)) + np.squeeze(top, axis=axis)
            parts.append(([x for x in scope if x != v], summed))
        total = self._product(parts, wanted, self.cards)
        cards = [self.cards[v] for v in wanted]
        return D.Table(wanted, dict(zip(wanted, cards)), {a: float(total[a]) for a in np.ndindex(*cards)})


def tree_scopes(rng, shape, n, triples):
    """
    Scopes over n variables such that every new one shares (at most) one variable with the earlier ones.
    """
    scopes = []
    fresh = 1
    while fresh < n:
        if shape == "chain":
            parent = fresh - 1
        elif shape == "star":
            parent = 0
        elif shape == "caterpillar":
            parent = fresh - 1 if fresh % 2 else max(fresh - 2, 0)
        elif shape == "binary":
            parent = (fresh - 1) // 2
        elif shape == "hubs":
            parent = int(rng.integers(0, min(fresh, 3)))
        else:
            parent = int(rng.integers(0, fresh))
        width = 2 if triples and fresh + 1 < n and rng.random() < 0.3 else 1
        scope = [parent] + list(range(fresh, fresh + width))
        fresh += width
        scopes.append([int(v) for v in rng.permutation(scope)])
    return scopes


def random_scopes(rng, n, count):
    """
    Any scopes over a few variables, many of them equal or parts of each other.
    """
    widths = [[1, 2, 3], [2], [3], [2, 3]][int(rng.integers(0, 4))]
    scopes = [[int(v) for v in rng.permutation(n)[:int(rng.choice(widths))]] for _ in range(count)]
    pool = int(rng.integers(1, count + 1))  # only a few different ones
    return [[int(v) for v in rng.permutation(scopes[int(rng.integers(0, pool))])] for _ in range(count)]


def discrete_specs(rng, scopes, cards, truth, names, kind, zeros, spread):
    specs = []
    for scope in scopes:
        shape = [cards[v] for v in scope]
        logs = rng.normal(0.0, spread, shape).round(3)
        logs[rng.random(shape) < zeros] = -np.inf
        if np.isinf(logs[tuple(truth[v] for v in scope)]):
            logs[tuple(truth[v] for v in scope)] = 0.0
        flat = [None if math.isinf(x) else float(x) for x in logs.ravel()]
        spec = {"kind": kind, "vars": [names[v] for v in scope], "cards": shape, "logs": flat, "how": "logs"}
        if kind == "dense":
            spec["layout"] = "C"
        else:
            spec.update(default=None, omit="all", reverse=False)
        specs.append(spec)
    return specs


def gaussian_specs(rng, scopes, names):
    specs = []
    for scope in scopes:
        n = len(scope)
        root = rng.normal(0.0, 1.0, (n, n)).round(2)
        cov = (root @ root.T + (0.3 + rng.random()) * np.eye(n)).round(3)
        specs.append({"vars": [names[v] for v in scope], "cov": cov.tolist(), "mean": rng.normal(0.0, 2.0, n).round(2).tolist(),
                      "lw": round(float(rng.normal()), 2), "form": str(rng.choice(["cov", "can"])), "style": "array", "warm": []})
    return specs


def expand(case):
    """
    The model of a case (in the format of cluster_graph.py).
    """
    rng = np.random.default_rng(case["seed"])
    n = case["variables"]
    if case["shape"] == "any":
        scopes = random_scopes(rng, n, case["factors"])
    else:
        scopes = tree_scopes(rng, case["shape"], n, case["triples"])
    used = sorted({v for s in scopes for v in s})
    names = {v: f"v{v}" for v in used}
    if case["shuffle"]:
        labels = [int(x) for x in rng.permutation(n)]
        names = {v: f"x_{labels[v]}" for v in used}
    unary = [[v] for v in used if rng.random() < case["unary"]]
    repeats = [list(scopes[int(rng.integers(0, len(scopes)))]) for _ in range(case["repeats"])]
    scopes = scopes + unary + repeats
    scopes = [scopes[i] for i in rng.permutation(len(scopes))]
    observed = [int(v) for v in rng.permutation(used)[:min(case["observed"], len(used) - 1)]]
    special = [int(v) for v in rng.permutation([v for v in used if v not in observed])[:case.get("special", 0)]]
    if case["domain"] == "discrete":
        cards = {v: int(rng.choice(case["cards"])) for v in used}
        truth = {v: int(rng.integers(0, cards[v])) for v in used}
        specs = discrete_specs(rng, scopes, cards, truth, names, case["kind"], case["zeros"], case["spread"])
        values = truth
    else:
        specs = gaussian_specs(rng, scopes, names)
        values = {v: round(float(rng.normal(0.0, 2.0)), 2) for v in used}
    return {"domain": case["domain"], "factors": specs, "evidence": [[names[v], values[v]] for v in observed],
            "special": [[names[v], values[v]] for v in special],
            "queries": [[int(rng.integers(0, 40)), int(rng.integers(0, 100))] for _ in range(6)]}


@st.composite
def large_case(draw, domains=("discrete", "gaussian"), shapes=tuple(SHAPES), sizes=(8, 12, 16, 24), special=(0,), observed=(0, 1, 3, 6)):
    domain = draw(st.sampled_from(list(domains)))
    case = {"domain": domain, "shape": draw(st.sampled_from(list(shapes))), "variables": draw(st.sampled_from(list(sizes))),
            "triples": draw(st.booleans()), "unary": draw(st.sampled_from([0.0, 0.3, 0.8])), "shuffle": draw(st.booleans()),
            "repeats": draw(st.sampled_from([0, 0, 0, 1])), "observed": draw(st.sampled_from(list(observed))),
            "special": draw(st.sampled_from(list(special))), "seed": draw(st.integers(0, 2 ** 32 - 1))}
    if domain == "discrete":
        case.update(kind=draw(st.sampled_from(["dense", "sparse"])), cards=draw(st.sampled_from([[2], [2, 3], [2, 1, 4]])),
                    zeros=draw(st.sampled_from([0.0, 0.0, 0.3])), spread=draw(st.sampled_from([1.0, 0.2, 3.0])))
    return case


@st.composite
def many_case(draw):
    case = draw(large_case(shapes=("any", "any", "any", "hubs"), sizes=(2, 3, 4, 6), special=(0, 0, 1), observed=(0, 0, 1)))
    case["factors"] = draw(st.sampled_from([12, 8, 16, 24]))
    if case["domain"] == "discrete":
        case["cards"] = [2]
    case["explicit"] = draw(st.booleans())
    return case


@check("K01", "many_factors", many_case(), quick=1200, thorough=20000,
       rule="8 to 24 factors over up to six variables (many with the same scope); non-trivial: at least ten clusters.")
def many_factors_body(case, ctx):
    model = expand(case)
    model["explicit"] = case["explicit"]
    C.structure_body(model, ctx)
    graph = C.make_graph(model, special=dict(map(tuple, model["special"])))
    count = len(C.clusters_of(graph))
    ctx.nontrivial = count >= 10
    ctx.tag("more_than_10_clusters" if count > 10 else "up_to_10_clusters")


@check("K01", "large_trees", large_case(special=(0, 0, 2)), quick=300, thorough=8000, weight=3,
       rule="trees of 8 to 24 variables (chains, stars and others): every factor in one cluster, separators that satisfy the running "
            "intersection rule; non-trivial: at least ten clusters.")
def large_structure_body(case, ctx):
    model = expand(case)
    if case["domain"] == "discrete":
        structure_only(model, ctx)
    else:
        C.structure_body(model, ctx)
    ctx.nontrivial = ctx.nontrivial and case["variables"] >= 12


def structure_only(model, ctx):
    """
    As in cluster_graph.structure_body, with marginals of the product in place of the product.
    """
    special = dict(map(tuple, model["special"]))
    graph = C.make_graph(model, special=special)
    C.shape_tags(graph, model, ctx)
    clusters = C.clusters_of(graph)
    ctx.nontrivial = len(clusters) >= 3
    scopes = {c.cluster_id: set(c.var_names) for c in clusters}
    if len(scopes) != len(clusters):
        raise Violation(f"cluster ids {[c.cluster_id for c in clusters]}")
    actual = Elimination([D.table_of(c.factor) for c in clusters])
    expected = exact(model)
    for cluster in clusters:
        scope = list(cluster.var_names)
        if scope:
            C.Discrete.same(actual.marginal(scope), expected.marginal(scope), f"the product of the clusters over {scope}", tol=1e-5)
    edges = C.edges_of(graph)
    observed = set(C.evidence_of(model))
    for edge, sepset in edges.items():
        a, b = tuple(edge)
        if not sepset or not set(sepset) <= scopes[a] & scopes[b] - observed - set(special):
            raise Violation(f"the separator {sepset} between {a} and {b}")
    for v in set().union(*scopes.values()) - set(special):
        nodes = [i for i in scopes if v in scopes[i]]
        v_edges = [e for e, sepset in edges.items() if v in sepset]
        if len(v_edges) != len(nodes) - 1 or C.components(nodes, v_edges) != 1:
            raise Violation(f"the separators with {v} connect {[sorted(e) for e in v_edges]}, the clusters with {v} are {nodes}")


def exact(model, evidence=None):
    evidence = C.evidence_of(model) if evidence is None else evidence
    if model["domain"] == "discrete":
        return Elimination([C.reduced(D.ref_of(s), evidence) for s in model["factors"]])
    return C.reference(model, evidence)


def infer(case, ctx, iterations=60):
    model = expand(case)
    domain = C.domain_of(model)
    special = dict(map(tuple, model["special"]))
    graph = C.make_graph(model, special=dict(special))
    C.shape_tags(graph, model, ctx)
    ctx.tag(case["shape"], f"variables_{case['variables']}")
    if not C.is_forest(graph):
        raise Discard()
    count = len(C.clusters_of(graph))
    ctx.nontrivial = count >= 8
    graph.process_graph(tol=1e-13, max_iter=iterations)
    expected = exact(model, dict(C.evidence_of(model), **special))
    settled = graph
    C.compare_settled(settled, domain, ctx, lambda: C.check_marginals(settled, domain, expected, model["queries"],
                                                                      "after message passing", special=special), special=special)
    limit = 20 * len(graph.graph_message_paths) * (count + 1)
    if graph.num_messages_passed > limit:
        raise Violation(f"{graph.num_messages_passed} messages on a tree of {count} clusters")


@check("K03", "large_trees", large_case(domains=("discrete",)), quick=500, thorough=6000, weight=5,
       rule="discrete trees of 8 to 24 variables against variable elimination; non-trivial: at least eight clusters.")
def large_discrete_body(case, ctx):
    infer(case, ctx)


@check("K04", "large_trees", large_case(domains=("gaussian",)), quick=500, thorough=6000, weight=5,
       rule="Gaussian trees of 8 to 24 variables against the solution of the joint system; non-trivial: at least eight clusters.")
def large_gaussian_body(case, ctx):
    infer(case, ctx)


@check("K06", "large_trees", large_case(special=(1, 2, 4)), quick=400, thorough=5000, weight=5,
       rule="trees of 8 to 24 variables with both kinds of evidence against exact inference; non-trivial: at least eight clusters.")
def large_special_body(case, ctx):
    infer(case, ctx)


@st.composite
def walk_case(draw):
    case = draw(large_case(shapes=("any", "any", "random", "star"), sizes=(5, 6, 4), observed=(0, 0, 1), special=(0, 0, 0, 1)))
    case["factors"] = draw(st.sampled_from([6, 8, 11]))
    if case["domain"] == "discrete":
        case["cards"] = [2]
    case["steps"] = draw(st.sampled_from([15, 25, 40]))
    return case


@check("K02", "long_schedules", walk_case(), quick=1000, thorough=20000, weight=3,
       rule="graphs of up to eleven clusters (most of them with loops) and 15 to 40 messages along random paths: the beliefs over the "
            "messages represent the product of the factors; non-trivial: a path that is used twice.")
def long_schedules_body(case, ctx):
    model = expand(case)
    domain = C.domain_of(model)
    special = dict(map(tuple, model["special"]))
    graph = C.make_graph(model, special=dict(special))
    C.shape_tags(graph, model, ctx)
    paths = sorted(graph.graph_message_paths, key=C.path_key)
    if not paths:
        raise Discard()
    evidence = dict(C.evidence_of(model), **special)
    expected = C.reduced(C.reference(model), special)
    rng = np.random.default_rng(case["seed"] + 1)
    used = []
    for number in range(case["steps"]):
        path = paths[int(rng.integers(0, len(paths)))] if rng.random() < 0.6 else \
            max(paths, key=lambda p: (p.next_information_gain, C.path_key(p)))
        path.pass_next_message()
        used.append(C.path_key(path))
        if number not in (4, case["steps"] // 2, case["steps"] - 1):
            continue
        beliefs = [domain.read(c.factor) for c in C.clusters_of(graph)]
        messages = [domain.read(p.previously_sent_message.factor) for p in paths if p.previously_sent_message is not None]
        what = f"after {number + 1} messages"
        if domain is D or domain is C.Discrete:
            finite = [abs(x) for r in beliefs + messages for x in r.values.values() if math.isfinite(x)]
            top = max(finite or [0.0])
            if top > 1e6:
                raise Discard()
            actual = C.reduced(domain.cancel(domain.product(beliefs), domain.product(messages)), special)
            domain.same(actual, expected, what, tol=1e-6 + 1e-8 * top)
            joint = C.reduced(domain.read(graph.get_posterior_joint()), special)
            domain.same(joint, expected, f"{what}: the posterior joint", constant=False, tol=1e-6 + 1e-8 * top)
        else:
            size = 1.0 + max(max(np.abs(r.K).max(initial=0), np.abs(r.h).max(initial=0), abs(r.g)) for r in beliefs + messages)
            if size > 1e6:
                raise Discard()
            actual = C.reduced(domain.cancel(domain.product(beliefs), domain.product(messages)), special)
            domain.same(actual, expected, what, size=size)
            joint = C.reduced(domain.read(graph.get_posterior_joint()), special)
            domain.same(joint, expected, f"{what}: the posterior joint", constant=False, size=size)
    ctx.nontrivial = len(set(used)) < len(used)
    if len(evidence):
        ctx.tag("observed")


@st.composite
def large_process_case(draw):
    case = draw(large_case(shapes=("random", "hubs", "any", "chain"), sizes=(6, 9, 12), observed=(0, 1)))
    if case["shape"] == "any":
        case["factors"] = draw(st.sampled_from([6, 9, 12]))
    case["runs"] = [[draw(st.sampled_from([1e-3, 1e-6, 0.1, 1e-10, 0.0])), draw(st.sampled_from([1, 2, 3]))]
                    for _ in range(draw(st.sampled_from([1, 1, 2])))]
    return case


@check("K05", "large_graphs", large_process_case(), quick=400, thorough=8000, weight=5,
       rule="the schedule on graphs of up to 14 clusters; non-trivial: at least ten messages.")
def large_process_body(case, ctx):
    model = expand(case)
    model.update(runs=case["runs"], before=0, exact=None)
    C.process_body(model, ctx)
