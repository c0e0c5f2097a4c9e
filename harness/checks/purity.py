"""
X01: operations do not change their operands; results, arguments and operands do not share state.
"""
import contextlib
import copy
import io
import math

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.mixture import build_mixture, mixture_over
from harness.checks.nonlinear import make_nlg, transform_for
from harness.core import Violation, check, prop

prop("X01", [
    "Changing a factor means changing what it exposes without a leading underscore in place: its arrays and tables, the arrays "
    "that its getters return, its components or parts, or its log weight. The lists and dictionaries that describe the scope "
    "(cardinalities) are only changed as constructor arguments.",
    "Operations that the code rejects with an exception are included (their operands may not change either).",
])

FAMILIES = ["dense", "sparse", "gaussian", "mixture", "factorised", "nlg"]
MEANS = [0, 1, -1, 2, 0.5]
SCALES = (1, 1, 0.1, 10)


# ----------------------------------------------------------------------------------------------------------------------
# what a factor represents


def kind_of(factor):
    name = type(factor).__name__
    if hasattr(factor, "log_probs_tensor"):
        return "dense"
    if hasattr(factor, "log_probs_table"):
        return "sparse"
    if hasattr(factor, "nlgs"):
        return "nlgs"
    if hasattr(factor, "conditioning_vars"):
        return "nlg"
    if hasattr(factor, "components"):
        return "mixture"
    if hasattr(factor, "factors"):
        return "factorised"
    if hasattr(factor, "get_prec"):
        return "gaussian"
    raise Violation(f"unknown type of factor {name}")


def attempt(func):
    """
    :return: the result as a flat list of numbers, or None if there is none.
    """
    try:
        return np.array(func(), dtype=float).ravel().tolist()
    except Exception:  # pylint: disable=broad-except
        return None


def read(factor):
    """
    A summary of the function that a factor represents: a nested list of names and numbers. (Works on deep copies.)
    """
    kind = kind_of(factor)
    factor = copy.deepcopy(factor)
    names = list(factor.var_names)
    if kind in ("dense", "sparse"):
        table = D.table_of(factor)
        return [kind, names, [table.cards[v] for v in names], [table.values[a] for a in table.assignments()]]
    if kind == "gaussian":
        other = copy.deepcopy(factor)
        return [kind, names] + [attempt(getattr(factor, g)) for g in ("get_prec", "get_h", "get_g")] + \
            [attempt(getattr(other, g)) for g in ("get_cov", "get_mean", "get_log_weight")]
    if kind == "mixture":
        rng = np.random.default_rng(1)
        points = rng.normal(0, 3, (3, len(names)))
        return [kind, names, len(factor.components)] + [
            attempt(lambda p=p: factor.log_potential(p.reshape(-1, 1))) for p in points]
    if kind == "factorised":
        total = Q.Quad([], [], [], 0.0)
        for part in factor.factors:
            total = total.multiply(Q.Quad(part.var_names, part.get_prec(), part.get_h(), part.get_g()))
        total = total.reorder(sorted(total.vrs))
        return [kind, names, total.vrs, total.K.ravel().tolist(), total.h.tolist(), total.g]
    if kind == "nlgs":
        return [kind, names] + [read(n) for n in factor.nlgs]
    joint = read(factor.joint_distribution)
    samples = factor.transform(np.ones((len(factor.conditioning_vars), 2)), list(factor.conditioning_vars))
    return [kind, names, list(factor.conditioning_vars), list(factor.conditional_vars), joint,
            np.array(samples, dtype=float).ravel().tolist(), sorted(factor.observed_evidence.items()),
            np.array(factor.noise_cov, dtype=float).ravel().tolist()]


def same(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        numbers = [x for x in list(a) + list(b) if isinstance(x, float) and math.isfinite(x)]
        scale = max([1.0] + [abs(x) for x in numbers])
        return all(same(x, y, tol * scale) if isinstance(x, float) and isinstance(y, float) else same(x, y, 1e-6)
                   for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol
    return a == b


def ensure_same(before, after, what):
    if not same(before, after):
        raise Violation(f"{what}: it was {before} and is now {after}")


def size_of(factor):
    """
    The number of components (products multiply them).
    """
    parts = getattr(factor, "nlgs", None) or getattr(factor, "components", None) or [0]
    return len(parts) * (4 if hasattr(factor, "nlgs") else 1)


# ----------------------------------------------------------------------------------------------------------------------
# changes in place


def spoil_array(array):
    if isinstance(array, np.ndarray) and array.flags.writeable and array.size:
        array *= 2
        array += 1


def vandalise(factor):
    """
    Change a factor in place through what it exposes.
    """
    kind = kind_of(factor)
    names = factor.var_names
    names.reverse()
    names.append("vandal")
    if kind == "dense":
        spoil_array(factor.log_probs_tensor)
    elif kind == "sparse":
        for key in list(factor.log_probs_table):
            factor.log_probs_table[key] = factor.log_probs_table[key] * 2 - 1
        for key in list(factor.log_probs_table)[:1]:
            del factor.log_probs_table[key]
    elif kind == "gaussian":
        for getter in ("get_prec", "get_h", "get_cov", "get_mean"):
            with contextlib.suppress(Exception):
                spoil_array(getattr(factor, getter)())
        for name in ("cov", "mean", "prec", "h_vec"):
            spoil_array(getattr(factor, name, None))
        for name in ("log_weight", "g_val"):
            if getattr(factor, name, None) is not None:
                setattr(factor, name, getattr(factor, name) + 1.0)
    elif kind == "mixture":
        for component in list(factor.components):
            vandalise(component)
        factor.components.append(factor.components[0])
    elif kind == "factorised":
        for part in list(factor.factors):
            vandalise(part)
        factor.factors.append(factor.factors[0])
    elif kind == "nlgs":
        for nlg in list(factor.nlgs):
            vandalise(nlg)
        factor.nlgs.append(factor.nlgs[0])
    elif kind == "nlg":
        spoil_array(factor.noise_cov)
        for part in (factor.conditioning_factor, factor.conditional_update_factor):
            if part is not None:
                vandalise(part)
        factor.add_log_weight(1.5)
        factor.observed_evidence[factor.conditional_vars[0]] = 17.0


# ----------------------------------------------------------------------------------------------------------------------
# factors


@st.composite
def pool_case(draw):
    family = draw(st.sampled_from(FAMILIES))
    case = {"family": family}
    low, high = 1, 3
    if family in ("dense", "sparse"):
        uni = draw(D.universe(min_vars=1, max_vars=3, max_card=3))
        uni["anames"] = [D.ASSIGNMENT_NAMES[:c] for c in uni["cards"]]
        case["vars"] = uni["names"]
        case["cards"] = uni["cards"]
        named = draw(st.booleans())
        case["pool"] = [
            draw(D.factor_over(uni, draw(D.scope_of(uni)), kind=family, named=named, finite_default=draw(st.booleans())))
            for _ in range(draw(st.integers(low, high)))]
    elif family == "nlg":
        vrs = draw(Q.names(2, 4))
        nx = draw(st.integers(1, len(vrs) - 1))
        x, y = vrs[:nx], vrs[nx:]
        case["vars"] = vrs
        case["pool"] = [{"nlg": {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), False)),
                                 "N": draw(Q.covariance(len(y), SCALES)).tolist(), "template": draw(st.booleans()), "lw": 0.0,
                                 "mixture": draw(st.integers(0, 3)) == 3}}]
        for _ in range(draw(st.integers(1, 3))):
            side = draw(st.sampled_from([x, x, y]))
            over = draw(st.permutations(side)) if draw(st.booleans()) else draw(Q.subset(side, low=1))
            if draw(st.integers(0, 3)) == 3:
                case["pool"].append({"mixture": draw(mixture_over(over, 1, 2, far=False))})
            else:
                case["pool"].append({"gaussian": draw(Q.gaussian_over(over, scales=SCALES, means=MEANS))})
    else:
        vrs = draw(Q.names(1, 4))
        case["vars"] = vrs
        case["pool"] = []
        for _ in range(draw(st.integers(low, high))):
            kind = draw(st.sampled_from({"gaussian": ["gaussian", "gaussian", "improper"],
                                         "mixture": ["mixture", "mixture", "gaussian"],
                                         "factorised": ["factorised", "factorised", "gaussian"]}[family]))
            over = draw(Q.subset(vrs, low=1))
            if kind == "gaussian":
                case["pool"].append({"gaussian": draw(Q.gaussian_over(over, scales=SCALES, means=MEANS))})
            elif kind == "improper":
                case["pool"].append({"gaussian": draw(Q.improper_over(over))})
            elif kind == "mixture":
                case["pool"].append({"mixture": draw(mixture_over(over, 1, 3, far=False))})
            else:
                parts = [draw(Q.gaussian_over(draw(Q.subset(over, low=1)), scales=SCALES, means=MEANS))
                         for _ in range(draw(st.integers(1, 3)))]
                case["pool"].append({"factorised": parts})
    case["ops"] = [draw(operation(case)) for _ in range(draw(st.integers(1, 5)))]
    return case


UNARY = ["normalize", "copy", "show", "repr", "joint", "distance", "vacuous", "getters", "potential", "sample", "argmax",
         "reorder", "moments", "frame"]
BINARY = ["multiply", "divide", "cancel", "absorb", "mul", "equals", "eq", "ne", "kl"]


@st.composite
def operation(draw, case):
    kind = draw(st.sampled_from(["marginalize", "reduce", "binary", "unary", "binary", "graph", "marginalize"]))
    op = {"op": kind, "i": draw(st.integers(0, 5)), "j": draw(st.integers(0, 5)), "keep_result": draw(st.booleans())}
    if kind == "binary":
        op["op"] = draw(st.sampled_from(BINARY))
    elif kind == "unary":
        op["op"] = draw(st.sampled_from(UNARY))
    elif kind in ("marginalize", "reduce", "graph"):
        op["vars"] = draw(Q.subset(case["vars"], low=0 if kind == "graph" else 1))
        op["keep"] = draw(st.booleans())
        op["values"] = [draw(st.sampled_from([0, 1])) for _ in op["vars"]]
    return op


def build_any(spec):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

    if "gaussian" in spec:
        return Q.build(spec["gaussian"])
    if "mixture" in spec:
        return build_mixture(spec["mixture"])
    if "factorised" in spec:
        return FactorizedFactor([Q.build(s) for s in spec["factorised"]])
    if "nlg" in spec:
        nlg = make_nlg(spec["nlg"])
        return NonLinearGaussianMixture([nlg, nlg]) if spec["nlg"].get("mixture") else nlg
    return D.build(spec)


def is_factor(thing):
    return hasattr(thing, "var_names") and hasattr(thing, "marginalize")


class Arguments:
    """
    The lists and dictionaries that are passed to operations, which have to stay as they are.
    """

    def __init__(self):
        self.passed = []

    def __call__(self, thing):
        flat = list(thing.items()) if isinstance(thing, dict) else list(thing)
        self.passed.append((thing, flat, [None if is_factor(x) else repr(x) for x in flat]))
        return thing

    def ensure_unchanged(self, what):
        for thing, before, printed in self.passed:
            now = list(thing.items()) if isinstance(thing, dict) else list(thing)
            fine = len(now) == len(before)
            for x, y, text in zip(now, before, printed):
                fine = fine and (x is y if text is None else repr(x) == text)
            if not fine:
                raise Violation(f"{what} changed a list or dictionary that was passed to it: {before} became {now}")


def apply(op, pool, discrete, arg):
    """
    :param arg: an Arguments
    :return: the factors that result.
    """
    from veroku.cluster_graph import ClusterGraph

    kind = op["op"]
    f, g = pool[op["i"] % len(pool)], pool[op["j"] % len(pool)]
    if kind in ("multiply", "divide", "cancel", "absorb", "equals"):
        return getattr(f, kind)(g)
    if kind == "mul":
        return f * g
    if kind == "eq":
        return f == g
    if kind == "ne":
        return f != g
    if kind == "kl":
        return f.kl_divergence(g)
    scope = list(f.var_names)
    if kind == "marginalize":
        return f.marginalize(arg([v for v in op["vars"] if v in scope]), keep=op["keep"])
    evidence = {v: x if not discrete else min(x, f.var_cards.get(v, 1) - 1)
                for v, x in zip(op.get("vars", []), op.get("values", [])) if v in scope}
    if kind == "reduce":
        return f.reduce(arg(list(evidence)), arg(list(evidence.values())))
    if kind == "normalize":
        return f.normalize()
    if kind == "copy":
        return f.copy()
    if kind == "show":
        f.show()
        return None
    if kind == "repr":
        return repr(f)
    if kind == "joint":
        return f.joint_distribution
    if kind == "distance":
        return f.distance_from_vacuous()
    if kind == "vacuous":
        return f.is_vacuous
    if kind == "getters":
        for name in Q.GETTERS + ["get_weight"]:
            with contextlib.suppress(Exception):
                getattr(f, name)()
        return getattr(f, "dense_distribution_array", None)
    if kind == "potential":
        if discrete:
            return f.potential(arg(list(scope)), arg([0] * len(scope)))
        f.log_potential(np.zeros((len(scope), 1)))
        f.log_potential(arg([0.0] * len(scope)), vrs=arg(list(reversed(scope))))
        return f.potential(np.zeros((len(scope), 1)))
    if kind == "sample":
        return f.sample(2)
    if kind == "argmax":
        return f.argmax()
    if kind == "reorder":
        return f.reorder(arg(list(reversed(scope))))
    if kind == "moments":
        return f.moment_match_to_single_gaussian()
    if kind == "frame":
        return f.get_df()
    if kind == "graph":
        if not discrete and not op["keep"]:
            evidence = {v: np.array([float(x)]) for v, x in evidence.items()}
        special = {v: 1.0 for v in scope[:1] if v not in evidence and op["keep"]}
        graph = ClusterGraph(arg(list(pool)), evidence=arg(evidence) or None, special_evidence=arg(special), disable_tqdm=True)
        graph.process_graph(max_iter=2)
        results = []
        for factor in pool:
            with contextlib.suppress(Exception):
                results.append(graph.get_marginal(arg([v for v in factor.var_names if v not in evidence][:1])))
        return results
    raise AssertionError(kind)


@check("X01", "operations", pool_case(), quick=6000, thorough=120000,
       rule="one to four factors of one family and one to five operations on them (including comparing, printing, and building "
            "and processing a cluster graph); after each one the operands are compared with what they were, and the operands "
            "and results are in turn changed in place while the others are watched; non-trivial: an operation that gives a factor.",
       weight=2.0)
def operations_body(case, ctx):
    discrete = case["family"] in ("dense", "sparse")
    ctx.tag(case["family"])
    pool = [build_any(s) for s in case["pool"]]
    snapshots = [read(f) for f in pool]
    for op in case["ops"]:
        what = f"{op['op']} (factors {op['i'] % len(pool)}, {op['j'] % len(pool)})"
        results, arguments = [], Arguments()
        if op["op"] == "graph" and math.prod(size_of(f) for f in pool) > 32:
            continue
        try:
            np.random.seed(1)
            with contextlib.redirect_stdout(io.StringIO()):
                result = apply(op, pool, discrete, arguments)
            results = [r for r in (result if isinstance(result, list) else [result]) if is_factor(r)]
            ctx.tag(op["op"])
        except Exception:  # pylint: disable=broad-except
            ctx.tag("rejected")
        arguments.ensure_unchanged(what)
        for k, (factor, before) in enumerate(zip(pool, snapshots)):
            ensure_same(before, read(factor), f"{what} changed the operand {k}")
        if results:
            ctx.nontrivial = True
            after = [read(r) for r in results]
            group, expected = pool + results, snapshots + after
            for k in range(len(group)):
                if k < len(pool) and k not in (op["i"] % len(pool), op["j"] % len(pool)) and op["op"] != "graph":
                    continue
                world = copy.deepcopy(group)  # keeps what is shared shared
                vandalise(world[k])
                for n, factor in enumerate(world):
                    if n != k:
                        role = "operand" if n < len(pool) else "result"
                        changed = "an operand" if k < len(pool) else "the result"
                        ensure_same(expected[n], read(factor), f"{what}: changing {changed} in place also changed the {role} {n}")
            if op["keep_result"] and len(pool) < 6 and size_of(results[0]) <= 8:
                pool.append(results[0])
                snapshots.append(after[0])


# ----------------------------------------------------------------------------------------------------------------------
# arguments of constructors and operations


@st.composite
def argument_case(draw):
    family = draw(st.sampled_from(FAMILIES + ["nlgs"]))
    case = {"family": family, "list_cards": draw(st.booleans())}
    if family in ("dense", "sparse"):
        uni = draw(D.universe(min_vars=1, max_vars=3, max_card=3))
        spec = draw(D.factor_over(uni, draw(D.scope_of(uni)), kind=family, zeros=False))
        spec["how"] = draw(st.sampled_from(["logs", "probs"]))
        spec["logs"] = [max(-30.0, min(30.0, x)) for x in [0.0 if x is None else x for x in spec["logs"]]]
        spec["named"] = draw(st.booleans())
        case["spec"] = spec
    elif family in ("nlg", "nlgs"):
        vrs = draw(Q.names(2, 4))
        nx = draw(st.integers(1, len(vrs) - 1))
        x, y = vrs[:nx], vrs[nx:]
        case["spec"] = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), False)),
                        "N": draw(Q.covariance(len(y), SCALES)).tolist(), "lw": 0.5}
        case["inputs"] = draw(Q.gaussian_over(x, scales=SCALES, means=MEANS))
        case["update"] = draw(Q.gaussian_over(y, scales=SCALES, means=MEANS))
    else:
        vrs = draw(Q.names(1, 3))
        case["spec"] = [draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS)) for _ in range(draw(st.integers(1, 3)))]
    return case


def make_with_arguments(case):
    """
    :return: the factor, the function that changes the arguments that it was built from.
    """
    from veroku.factors.categorical import Categorical
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianMixture
    from veroku.factors.gaussian import Gaussian
    from veroku.factors.sparse_categorical import SparseCategorical

    spec, family = case["spec"], case["family"]

    def spoil_names(names):
        names.reverse()
        names[0] = "vandal"

    if family in ("dense", "sparse"):
        vrs, cards = list(spec["vars"]), list(spec["cards"])
        kwargs = {"var_names": vrs}
        tensor = np.array(spec["logs"], dtype=float).reshape(cards)
        if spec["how"] == "probs":
            table = {a: float(np.exp(tensor[a])) for a in np.ndindex(*tensor.shape)}
            kwargs["probs_table"] = table
        elif family == "sparse":
            table = {a: float(tensor[a]) for a in np.ndindex(*tensor.shape)}
            kwargs["log_probs_table"] = table
        else:
            table = {}
            kwargs["log_probs_tensor"] = tensor
        if family == "sparse" or spec["how"] == "probs" or case["list_cards"]:
            kwargs["cardinalities"] = cards
        names = [D.ASSIGNMENT_NAMES[:c] for c in cards]
        if family == "dense" and spec["named"]:
            kwargs["variables_assignment_names"] = names
        factor = (Categorical if family == "dense" else SparseCategorical)(**kwargs)

        def spoil():
            spoil_names(vrs)
            spoil_array(tensor)
            for key in list(table):
                table[key] = 0.125
            table.pop(next(iter(table), None), None)
            cards[0] += 1
            cards.append(2)
            for row in names:
                row[0] = "vandal"
            names.reverse()
        return factor, spoil
    if family in ("nlg", "nlgs"):
        x, y = list(spec["x"]), list(spec["y"])
        noise = np.array(spec["N"], dtype=float)
        inputs, update = Q.build(case["inputs"]), Q.build(case["update"])
        evidence = {y[0]: 0.5}
        from harness.checks.nonlinear import make_transform
        factor = NonLinearGaussian(x, y, make_transform(spec["transform"], list(x)), noise, log_weight=spec["lw"],
                                   conditioning_factor=inputs, conditional_update_factor=update, observed_evidence=evidence)
        parts = [factor]
        if family == "nlgs":
            parts = [factor, factor.copy()]
            factor = NonLinearGaussianMixture(parts)

        def spoil():
            spoil_names(x)
            spoil_names(y)
            spoil_array(noise)
            vandalise(inputs)
            vandalise(update)
            evidence["vandal"] = 1.0
            evidence[next(iter(evidence))] = 9.0
            if family == "nlgs":
                for part in parts:
                    vandalise(part)
                parts.append(parts[0])
        return factor, spoil
    if family == "gaussian":
        one = spec[0]
        vrs = list(one["vars"])
        ref = Q.ref_of(one)
        if one["form"] == "cov":
            arrays = [np.array(one["cov"], dtype=float), np.array(one["mean"], dtype=float).reshape(-1, 1), np.array([one["lw"]])]
            names = ["cov", "mean", "log_weight"]
        else:
            arrays = [ref.K.copy(), ref.h.reshape(-1, 1).copy(), np.array([ref.g])]
            names = ["prec", "h_vec", "g_val"]
        factor = Gaussian(var_names=vrs, **dict(zip(names, arrays)))

        def spoil():
            spoil_names(vrs)
            for array in arrays:
                spoil_array(array)
        return factor, spoil
    parts = [Q.build(s) for s in spec]
    factor = GaussianMixture(parts) if family == "mixture" else FactorizedFactor(parts)

    def spoil():
        for part in parts:
            vandalise(part)
        parts.append(parts[0])
        parts.reverse()
    return factor, spoil


@check("X01", "arguments", argument_case(), quick=2500, thorough=50000,
       rule="a factor is built from arguments, then the arguments (variable names, cardinalities, tables, arrays, assignment "
            "names, lists of factors) are changed in place; every case is non-trivial.")
def arguments_body(case, ctx):
    ctx.nontrivial = True
    ctx.tag(case["family"])
    factor, spoil = make_with_arguments(case)
    before = read(factor)
    twin = copy.deepcopy(factor)
    spoil()
    ensure_same(before, read(factor), "changing the constructor's arguments changed the factor")
    # ... and it still works as before
    scope = list(factor.var_names)
    for call in (lambda f: f.copy(), lambda f: f.marginalize(scope[:1], keep=True), lambda f: f.multiply(f),
                 lambda f: f.reduce(scope[:1], [0])):
        try:
            expected = read(call(twin))
        except Exception:  # pylint: disable=broad-except
            continue
        ensure_same(expected, read(call(factor)), "after changing the constructor's arguments, the factor behaves differently")


# ----------------------------------------------------------------------------------------------------------------------
# cluster graphs


@st.composite
def graph_case(draw):
    family = draw(st.sampled_from(["dense", "sparse", "gaussian"]))
    case = {"family": family}
    if family in ("dense", "sparse"):
        uni = draw(D.universe(min_vars=2, max_vars=4, max_card=3))
        case["vars"] = uni["names"]
        case["pool"] = [draw(D.factor_over(uni, draw(D.scope_of(uni)), kind=family, zeros=False, finite_default=False))
                        for _ in range(draw(st.integers(1, 4)))]
    else:
        vrs = draw(Q.names(2, 4))
        case["vars"] = vrs
        case["pool"] = [{"gaussian": draw(Q.gaussian_over(draw(Q.subset(vrs, low=1)), scales=SCALES, means=MEANS))}
                        for _ in range(draw(st.integers(1, 4)))]
    case["evidence"] = [[v, draw(st.sampled_from([0, 1]))] for v in draw(Q.subset(case["vars"], low=0, high=1))]
    case["queries"] = [draw(Q.subset(case["vars"], low=1, high=2)) for _ in range(2)]
    case["when"] = draw(st.integers(0, 3))
    case["target"] = draw(st.integers(0, 3))
    return case


@check("X01", "graphs", graph_case(), quick=1500, thorough=30000,
       rule="a graph is built and processed while the factors, the evidence or the returned marginals are changed in place; its "
            "answers are compared with those of an undisturbed graph; non-trivial: a query that is answered.")
def graphs_body(case, ctx):
    from veroku.cluster_graph import ClusterGraph

    discrete = case["family"] != "gaussian"
    ctx.tag(case["family"])
    cards = {}
    for spec in case["pool"]:
        if discrete:
            cards.update(zip(spec["vars"], spec["cards"]))

    def run(disturb):
        factors = [build_any(s) for s in case["pool"]]
        evidence = {v: (min(x, cards.get(v, 1) - 1) if discrete else x) for v, x in case["evidence"]}
        special = {}
        graph = ClusterGraph(factors, evidence=evidence, special_evidence=special, disable_tqdm=True)
        if disturb and case["when"] == 0:
            for factor in factors:
                vandalise(factor)
            factors.clear()
            evidence.clear()
        graph.process_graph(tol=1e-9, max_iter=5)
        if disturb and case["when"] == 1:
            for factor in factors:
                vandalise(factor)
            factors.reverse()
            evidence["vandal"] = 1
        answers = []
        for query in case["queries"]:
            try:
                result = graph.get_marginal(list(query))
            except Exception:  # pylint: disable=broad-except
                answers.append("none")
                continue
            answers.append(read(result))
            if disturb and case["when"] >= 2:
                vandalise(result)
        try:
            joint = graph.get_posterior_joint()
            answers.append(read(joint))
            if disturb and case["when"] == 3:
                vandalise(joint)
        except Exception:  # pylint: disable=broad-except
            answers.append("none")
        try:
            answers.append(read(graph.get_marginal(list(case["queries"][0]))))
        except Exception:  # pylint: disable=broad-except
            answers.append("none")
        return answers

    undisturbed = run(False)
    ctx.nontrivial = any(a != "none" for a in undisturbed[:2])
    moments = ["the factors after building", "the factors after processing", "the marginals", "the joint"]
    ensure_same(undisturbed, run(True), f"changing {moments[case['when']]} in place changed the answers of the graph")
