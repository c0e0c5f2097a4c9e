"""
M01, M02: Gaussian mixtures against sums of closed form quadratic exponentials.
"""
import math
import types

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.core import Violation, check, prop

COMMON = [
    "One to four components (17 to 110 in many_components; at most 32 after products) over one to four variables; log weights from -900 to 900.",
    "The division of a mixture by a mixture with several components is only specified for the default method (division by the "
    "moment matched Gaussian); the approximate methods 1 and 2 are not covered.",
]
for _pid in ("M01", "M02"):
    prop(_pid, COMMON)

MEANS = [0, 1, -1, 2, 0.5, -3, 10, -7.25]
SCALES = (1, 1, 1, 0.1, 10)
LIMIT = 32


def logsumexp(values):
    top = max(values)
    return top + math.log(math.fsum(math.exp(v - top) for v in values))


class Mix:
    """A sum of quadratic exponentials (the reference model)."""

    def __init__(self, parts):
        self.parts = parts
        self.vrs = parts[0].vrs

    def log_at(self, valuation):
        return logsumexp([p.log_at(valuation) for p in self.parts])

    def magnitude(self, valuation):
        return max(p.magnitude(valuation) for p in self.parts)

    def map(self, func):
        return Mix([func(p) for p in self.parts])

    def proper(self, limit=1e5):
        return all(p.proper() and p.condition() < limit for p in self.parts)

    def total(self):
        return logsumexp([p.log_weight() for p in self.parts])

    def moments(self):
        """:return: log weight, mean and covariance of the whole mixture (in the variable order self.vrs)"""
        lws = [p.log_weight() for p in self.parts]
        total = logsumexp(lws)
        ws = [math.exp(x - total) for x in lws]
        parts = [p.reorder(self.vrs) for p in self.parts]
        mean = sum(w * p.mean() for w, p in zip(ws, parts))
        cov = sum(w * (p.cov() + np.outer(p.mean() - mean, p.mean() - mean)) for w, p in zip(ws, parts))
        return total, mean, cov


@st.composite
def mixture_over(draw, vrs, low=1, high=4, far=True):
    n = draw(st.integers(low, high))
    parts = [draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS)) for _ in range(n)]
    if far and draw(st.integers(0, 5)) == 5:  # weights (all or some) far away from one
        shift = draw(st.sampled_from([-900.0, 900.0, -300.0]))
        for part in parts:
            if draw(st.integers(0, 3)) > 0:
                part["lw"] = part["lw"] + shift
    return parts


class MixtureInUnits(Q.InUnits):
    """
    A mixture over variables y = u * x, seen as a function of x: f(u * x) * exp(-shift).
    """

    components = property(lambda self: [Q.InUnits(c, self.shift) for c in self.factor.components])
    num_components = property(lambda self: self.factor.num_components)
    cancel_method = property(lambda self: self.factor.cancel_method)

    def copy(self):
        return MixtureInUnits(self.factor.copy(), self.shift)

    def normalize(self):
        return MixtureInUnits(self.factor.normalize(), -self.jacobian())

    def multiply(self, other):
        return MixtureInUnits(self.factor.multiply(other.factor), self.shift + other.shift)

    def divide(self, other):
        return MixtureInUnits(self.factor.divide(other.factor), self.shift - other.shift)

    def marginalize(self, vrs, keep=True):
        result = super().marginalize(vrs, keep)
        return MixtureInUnits(result.factor, result.shift)

    def reduce(self, vrs, values):
        result = super().reduce(vrs, values)
        return MixtureInUnits(result.factor, result.shift)

    def moment_match_to_single_gaussian(self):
        return Q.InUnits(self.factor.moment_match_to_single_gaussian(), self.shift)


def build_mixture(specs, cancel_method=0):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    if Q.UNITS:
        return MixtureInUnits(GaussianMixture([Q.build(s).factor for s in specs], cancel_method=cancel_method))
    if cancel_method:
        return GaussianMixture([Q.build(s) for s in specs], cancel_method=cancel_method)
    return GaussianMixture([Q.build(s) for s in specs])


def mix_of(specs):
    return Mix([Q.ref_of(s) for s in specs])


def mix_points(mix, seed, n=4):
    rng = np.random.default_rng(seed)
    result = []
    for _ in range(n):
        part = mix.parts[int(rng.integers(0, len(mix.parts)))]
        result.extend(Q.points(part, int(rng.integers(0, 2 ** 31)), 1))
    return result


def assert_mix(mixture, expected, what, seed=0, tol=1e-6):
    """
    The mixture represents the expected function.
    """
    if sorted(mixture.var_names) != sorted(expected.vrs):
        raise Violation(f"{what}: the scope is {mixture.var_names} instead of {expected.vrs}")
    if mixture.dim != len(expected.vrs):
        raise Violation(f"{what}: dim {mixture.dim} for {expected.vrs}")
    names = list(mixture.var_names)
    if any(list(c.var_names) != names for c in mixture.components) or mixture.num_components != len(mixture.components):
        raise Violation(f"{what}: inconsistent components")
    for i, valuation in enumerate(mix_points(expected, seed)):
        x = [valuation[v] for v in names]
        if i % 2:
            order = sorted(names)
            got = float(mixture.log_potential([valuation[v] for v in order], vrs=order))
        else:
            got = float(mixture.log_potential(np.array(x).reshape(-1, 1)))
        want = expected.log_at(valuation)
        if not abs(got - want) <= tol * expected.magnitude(valuation):
            raise Violation(f"{what}: the log potential at {valuation} is {got} instead of {want}")
        if abs(want) < 600 and i == 0 and all(abs(p.log_at(valuation)) < 700 or p.log_at(valuation) < 0 for p in expected.parts):
            pot = float(mixture.potential(np.array(x).reshape(-1, 1)))
            if not math.isclose(pot, Q.exp(want), rel_tol=10 * tol * expected.magnitude(valuation)):
                raise Violation(f"{what}: the potential at {valuation} is {pot} instead of {Q.exp(want)}")


@st.composite
def history_case(draw):
    vrs = draw(Q.names(1, 4))
    start = draw(Q.subset(vrs, low=1))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["gaussian", "mixture", "divide", "divide_mixture", "marginal", "reduce", "normalize",
                                     "copy", "divide_single", "square"]))
        op = {"op": kind}
        if kind in ("gaussian", "divide"):
            op["f"] = draw(Q.gaussian_over(draw(Q.subset(vrs, low=1)), scales=SCALES, means=MEANS))
        elif kind in ("mixture", "divide_mixture", "divide_single"):
            low, high = {"mixture": (1, 3), "divide_mixture": (2, 3), "divide_single": (1, 1)}[kind]
            op["f"] = draw(mixture_over(draw(Q.subset(vrs, low=1)), low, high, far=False))
        elif kind in ("marginal", "reduce"):
            op["vars"] = draw(Q.subset(vrs, low=1))
            op["keep"] = draw(st.booleans())
            op["values"] = [draw(st.sampled_from([0, 1.0, -2, 0.5, 3.25])) for _ in op["vars"]]
        ops.append(op)
    return {"start": draw(mixture_over(start)), "ops": ops, "seed": draw(st.integers(0, 999)),
            "method": draw(st.sampled_from([0, 0, 0, 1, 2]))}


@check("M01", "histories", history_case(), quick=6000, thorough=100000,
       rule="a mixture of one to four Gaussians and a history of one to four operations with Gaussians and mixtures over drawn "
            "scopes; non-trivial: two or more components and at least one operation that changed the function.")
def histories_body(case, ctx):
    mixture, ref = build_mixture(case["start"], case.get("method", 0)), mix_of(case["start"])
    seed = case["seed"]
    assert_mix(mixture, ref, "the mixture", seed)
    changed = False
    for step, op in enumerate(case["ops"]):
        kind = op["op"]
        before, before_ref = mixture, ref
        what = f"step {step} ({kind})"
        tol = 1e-6 if ref.proper(1e4) else 1e-5
        if kind in ("gaussian", "divide"):
            other, other_ref = Q.build(op["f"]), Q.ref_of(op["f"])
            if kind == "gaussian":
                mixture, ref = mixture.multiply(other), ref.map(lambda p, o=other_ref: p.multiply(o))
            else:
                mixture, ref = mixture.divide(other), ref.map(lambda p, o=other_ref: p.divide(o))
            Q.assert_quad(other, other_ref, what + ": the argument", seed)
        elif kind == "mixture":
            if len(ref.parts) * len(op["f"]) > LIMIT:
                continue
            other, other_ref = build_mixture(op["f"]), mix_of(op["f"])
            mixture = mixture.multiply(other)
            ref = Mix([a.multiply(b) for a in ref.parts for b in other_ref.parts])
            assert_mix(other, other_ref, what + ": the argument", seed)
        elif kind == "square":  # the same object twice
            if len(ref.parts) ** 2 > LIMIT:
                continue
            mixture, ref = mixture.multiply(mixture), Mix([a.multiply(b) for a in ref.parts for b in ref.parts])
        elif kind in ("divide_mixture", "divide_single"):
            if case.get("method", 0):  # the other (approximate) methods of division
                continue
            other, other_ref = build_mixture(op["f"]), mix_of(op["f"])
            total, mean, cov = other_ref.moments()
            divisor = Q.Quad.from_moments(other_ref.vrs, cov, mean, total)
            mixture, ref = mixture.divide(other), ref.map(lambda p, o=divisor: p.divide(o))
            assert_mix(other, other_ref, what + ": the argument", seed)
        elif kind == "marginal":
            vrs = [v for v in op["vars"] if v in ref.vrs]
            keep = vrs if op["keep"] else [v for v in ref.vrs if v not in vrs]
            if not keep or not vrs or not ref.proper():
                continue
            # (a single variable can be given by its name)
            mixture = mixture.marginalize(vrs[0] if len(vrs) == 1 and seed % 2 else vrs, keep=op["keep"])
            ref = ref.map(lambda p, k=keep: p.marginal(k))
        elif kind == "reduce":
            evidence = {v: x for v, x in zip(op["vars"], op["values"]) if v in ref.vrs}
            if not evidence:
                continue
            mixture = mixture.reduce(list(evidence), list(evidence.values()))
            ref = ref.map(lambda p, e=evidence: p.reduce(e))
            if not ref.vrs:  # everything is observed
                ctx.tag("all_observed")
                want = [p.g for p in ref.parts]
                size = 10 * tol * (1 + abs(logsumexp(want)) + max(abs(p.g) + p.magnitude(evidence) for p in before_ref.parts))
                for got in (mixture.get_log_weight(), mixture.log_potential([])):
                    if list(mixture.var_names) or not abs(float(got) - logsumexp(want)) <= size:
                        raise Violation(f"{what}: the potential of the observation of all the variables is {got} instead of "
                                        f"{logsumexp(want)}")
                assert_mix(before, before_ref, what + ": the original", seed, tol)
                break
        elif kind == "normalize":
            if not ref.proper():
                continue
            mixture = mixture.normalize()
            total = ref.total()
            ref = ref.map(lambda p, t=total: Q.Quad(p.vrs, p.K, p.h, p.g - t))
            if abs(float(mixture.get_log_weight())) > 1e-5:
                raise Violation(f"the normalised mixture has log weight {mixture.get_log_weight()}")
        elif kind == "copy":
            mixture = mixture.copy()
        ctx.tag(kind)
        changed = changed or kind != "copy"
        assert_mix(mixture, ref, what, seed, tol)
        if mixture.cancel_method != case.get("method", 0):
            raise Violation(f"{what}: the cancel method changes from {case.get('method', 0)} to {mixture.cancel_method}")
        assert_mix(before, before_ref, what + ": the original", seed, tol)
        if mixture.is_vacuous and ref.proper():
            raise Violation(f"{what}: a proper mixture is vacuous")
        if ref.proper():
            total = ref.total()
            size = 1 + abs(total) + max(abs(p.g) + abs(p.mean() @ p.h) for p in ref.parts)
            if not abs(float(mixture.get_log_weight()) - total) <= 1e-5 * size:
                raise Violation(f"{what}: the log weight is {mixture.get_log_weight()} instead of {total}")
    ctx.tag("components_" + ("1" if len(ref.parts) == 1 else "2_4" if len(ref.parts) < 5 else "many"))
    ctx.nontrivial = changed and len(ref.parts) >= 2


@st.composite
def many_case(draw):
    vrs = draw(Q.names(1, 3))
    number = draw(st.sampled_from([17, 24, 33, 48, 70, 110]))
    kinds = [draw(Q.gaussian_over(vrs, scales=(1,), means=[0, 1, -1, 0.5])) for _ in range(draw(st.integers(1, 4)))]
    rng = np.random.default_rng(draw(st.integers(0, 9999)))
    flat = draw(st.booleans())
    parts = []
    for i in range(number):
        part = dict(kinds[i % len(kinds)])
        part["lw"] = 0.25 if flat else round(float(rng.normal()), 3)
        part["mean"] = [m + round(0.1 * float(rng.normal()), 3) for m in part["mean"]]
        parts.append(part)
    return {"parts": parts, "f": draw(Q.gaussian_over(draw(Q.subset(vrs, low=1)), scales=(1,), means=[0, 1])),
            "vars": draw(Q.subset(vrs, low=1)), "values": [draw(st.sampled_from([0, 1.0, -0.5])) for _ in vrs],
            "seed": draw(st.integers(0, 999))}


@check("M01", "many_components", many_case(), quick=150, thorough=3000,
       rule="a mixture of 17 to 110 components with similar weights, and its product with a Gaussian, marginal, observation and "
            "normalisation; all cases are non-trivial.")
def many_body(case, ctx):
    ctx.nontrivial = True
    ctx.tag(f"components_{len(case['parts'])}")
    mixture, ref, seed = build_mixture(case["parts"]), mix_of(case["parts"]), case["seed"]
    assert_mix(mixture, ref, "the mixture", seed)
    total, mean, cov = ref.moments()
    if not abs(float(mixture.get_log_weight()) - total) <= 1e-6 * (1 + abs(total)):
        raise Violation(f"the log weight of {len(ref.parts)} components is {mixture.get_log_weight()} instead of {total}")
    other, other_ref = Q.build(case["f"]), Q.ref_of(case["f"])
    assert_mix(mixture.multiply(other), ref.map(lambda p: p.multiply(other_ref)), "the product with a Gaussian", seed)
    assert_mix(mixture.divide(other), ref.map(lambda p: p.divide(other_ref)), "the quotient by a Gaussian", seed, 1e-5)
    assert_mix(mixture.normalize(), ref.map(lambda p: Q.Quad(p.vrs, p.K, p.h, p.g - total)), "the normalised mixture", seed)
    vrs = case["vars"]
    assert_mix(mixture.marginalize(vrs, keep=True), ref.map(lambda p: p.marginal(vrs)), "the marginal", seed)
    if len(vrs) < len(ref.vrs):
        evidence = dict(zip(vrs, case["values"]))
        assert_mix(mixture.reduce(list(evidence), list(evidence.values())), ref.map(lambda p: p.reduce(evidence)),
                   "the reduced mixture", seed)
    Q.assert_moments(mixture.moment_match_to_single_gaussian(), Q.Quad.from_moments(ref.vrs, cov, mean, total),
                     "the moment matched Gaussian", 1e-6)


# ----------------------------------------------------------------------------------------------------------------------


@st.composite
def match_case(draw):
    vrs = draw(Q.names(1, 4))
    return {"parts": draw(mixture_over(vrs)), "sklearn": draw(st.booleans()), "order": draw(st.permutations([0, 1, 2, 3])),
            "seed": draw(st.integers(0, 999))}


@check("M02", "moments", match_case(), quick=6000, thorough=100000,
       rule="a mixture of one to four Gaussians; non-trivial: two or more components.")
def moments_body(case, ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    ref = mix_of(case["parts"])
    ctx.nontrivial = len(ref.parts) >= 2
    total, mean, cov = ref.moments()
    ctx.tag("far" if abs(total) > 600 else "near", f"components_{len(ref.parts)}")
    mixture = build_mixture(case["parts"])
    single = mixture.moment_match_to_single_gaussian()
    Q.assert_moments(single, Q.Quad.from_moments(ref.vrs, cov, mean, total), "moment matched Gaussian", 1e-6)
    assert_mix(mixture, ref, "the mixture after moment matching", case["seed"])
    shuffled = build_mixture([case["parts"][i] for i in case["order"] if i < len(case["parts"])])
    Q.assert_moments(shuffled.moment_match_to_single_gaussian(), Q.Quad.from_moments(ref.vrs, cov, mean, total),
                     "moment matched Gaussian of the permuted mixture", 1e-6)
    if not abs(float(mixture.get_log_weight()) - total) <= 1e-6 * (1 + abs(total)):
        raise Violation(f"the log weight is {mixture.get_log_weight()} instead of {total}")
    if case["sklearn"] and not Q.UNITS:
        lws = [p["lw"] for p in case["parts"]]
        weights = np.exp(np.array(lws) - max(lws))
        if weights.min() > 1e-200:
            weights = weights / weights.sum()
            model = types.SimpleNamespace(
                means_=np.array([p["mean"] for p in case["parts"]], dtype=float),
                covariances_=np.array([p["cov"] for p in case["parts"]], dtype=float), weights_=weights)
            learned = GaussianMixture.from_sklearn_gmm(model, list(ref.vrs))
            want = Mix([Q.Quad.from_moments(ref.vrs, p["cov"], p["mean"], math.log(w))
                        for p, w in zip(case["parts"], weights)])
            assert_mix(learned, want, "the mixture of a learned model", case["seed"])


@st.composite
def argmax_case(draw):
    vrs = draw(Q.names(1, 3))
    return {"parts": draw(mixture_over(vrs, 1, 3)), "seed": draw(st.integers(0, 999))}


@check("M02", "argmax", argmax_case(), quick=1200, thorough=20000, weight=3,
       rule="a mixture of one to three Gaussians over one to three variables; non-trivial: two or more components.")
def argmax_body(case, ctx):
    from veroku.factors.experimental.gaussian_mixture import OptimizationFailedError

    ref = mix_of(case["parts"])
    ctx.nontrivial = len(ref.parts) >= 2
    mixture = build_mixture(case["parts"])
    try:
        best = np.asarray(mixture.argmax(), dtype=float).ravel()
    except OptimizationFailedError:  # documented
        ctx.tag("failed")
        return
    if best.shape != (len(ref.vrs),):
        raise Violation(f"the argmax is {best}")
    found = ref.log_at(dict(zip(mixture.var_names, best)))
    for part in ref.parts:
        at_mean = ref.log_at(dict(zip(part.vrs, part.mean())))
        if found < at_mean - 1e-6 * (1 + abs(at_mean)):
            raise Violation(f"the log potential at the argmax {best} is {found}, but {at_mean} at the mean {part.mean()}")
    if len(ref.parts) == 1:
        spread = np.sqrt(np.diag(ref.parts[0].cov()))
        if np.any(np.abs(best - ref.parts[0].mean()) > 1e-2 * (1e-2 + spread)):
            raise Violation(f"the argmax of a single Gaussian is {best} instead of its mean {ref.parts[0].mean()}")
    assert_mix(mixture, ref, "the mixture after argmax", case["seed"])


@st.composite
def equality_case(draw):
    vrs = draw(Q.names(1, 3))
    distinct = draw(mixture_over(vrs, 1, 3, far=False))
    parts = [draw(st.integers(0, len(distinct) - 1)) for _ in range(draw(st.integers(1, 4)))]
    relation = draw(st.sampled_from(["permuted", "changed", "missing", "resampled", "name"]))
    return {"distinct": distinct, "parts": parts, "relation": relation, "order": draw(st.permutations(range(len(parts)))),
            "names": draw(st.permutations(vrs)), "forms": [draw(st.sampled_from(["cov", "can"])) for _ in parts],
            "index": draw(st.integers(0, 3)), "other": [draw(st.integers(0, len(distinct) - 1)) for _ in parts],
            "change": draw(st.sampled_from(["mean", "lw", "cov"])), "seed": draw(st.integers(0, 999))}


def perfect_matching(n, allowed):
    def extend(i, used):
        if i == n:
            return True
        return any(allowed[i][j] and not (used >> j) & 1 and extend(i + 1, used | (1 << j)) for j in range(n))
    return extend(0, 0)


@check("M02", "equality", equality_case(), quick=4000, thorough=60000,
       rule="two mixtures whose components come from a common set (permuted, one changed, one missing, other multiplicities, "
            "permuted variables, either form); non-trivial: two or more components.")
def equality_body(case, ctx):
    relation, vrs = case["relation"], case["names"]
    ctx.tag(relation)
    first = [case["distinct"][i] for i in case["parts"]]
    ids = case["other"] if relation == "resampled" else [case["parts"][i] for i in case["order"]]
    second = []
    for i, k in enumerate(ids):
        spec = dict(Q.permuted(case["distinct"][k], vrs), form=case["forms"][i])
        if relation == "changed" and i == case["index"] % len(ids):
            if case["change"] == "lw":
                spec["lw"] = spec["lw"] + 2.0
            elif case["change"] == "mean":
                spec["mean"] = [m + 3.0 for m in spec["mean"]]
            else:
                spec["cov"] = (np.array(spec["cov"], dtype=float) * 3.0).tolist()
        if relation == "name":
            spec["vars"] = ["other"] + list(spec["vars"][1:])
        second.append(spec)
    if relation == "missing" and len(second) > 1:
        del second[case["index"] % len(second)]
    ctx.nontrivial = len(first) >= 2
    a, b = build_mixture(first), build_mixture(second)
    refs_a, refs_b = [Q.ref_of(s) for s in first], [Q.ref_of(s) for s in second]
    verdict = None
    if relation == "name" or len(first) != len(second):
        verdict = False
    else:
        n = len(first)
        differences = [[Q.form_difference(p, q) for q in refs_b] for p in refs_a]
        back = [[Q.form_difference(q, p) for q in refs_b] for p in refs_a]
        surely = [[max(differences[i][j] + back[i][j]) < 1e-6 for j in range(n)] for i in range(n)]
        perhaps = [[min(differences[i][j] + back[i][j]) < 1e-3 for j in range(n)] for i in range(n)]
        if not perfect_matching(n, perhaps):
            verdict = False
        elif surely == perhaps:
            verdict = True
    if verdict is None:
        ctx.tag("undecided")
        return
    ctx.tag("equal" if verdict else "different")
    for x, y, what in ((a, b, "a == b"), (b, a, "b == a"), (a, b.copy(), "a == copy of b")):
        if bool(x == y) != verdict or bool(x.equals(y)) != verdict or bool(x != y) == verdict:
            raise Violation(f"{what} is {not verdict} for mixtures that are {'equal' if verdict else 'different'} ({relation})")
    if not a == a.copy():
        raise Violation("a mixture does not equal its copy")
    if relation == "changed" and len(first) == len(second):
        order = case["order"]
        pairs = [(refs_a[k], refs_b[i]) for i, k in enumerate(order)]
        absolute = 2.0 * Q.absolute_difference(pairs)
        size = 2.0 * max(max(Q.form_difference(x, y) + Q.form_difference(y, x)) for x, y in pairs)
        alone = len(first) == 1 or (len(first) == 2 and min(max(Q.form_difference(p, q)) for p, q in (
            (refs_a[order[0]], refs_b[1]), (refs_a[order[1]], refs_b[0]))) > 20 * max(size, absolute))
        for x, y in ((a, b), (b, a)):
            for rtol, atol in ((0.0, absolute), (10 * size, 10 * size)):
                if alone and not x.equals(y, rtol=rtol, atol=atol):
                    raise Violation(f"mixtures that differ less than rtol={rtol}, atol={atol} are not equal with these")
    # the copy is independent
    clone = a.copy()
    clone.components[0]._reorder_parameters(sorted(clone.components[0].var_names))  # pylint: disable=protected-access
    clone.components[0] = clone.components[0].normalize()
    assert_mix(a, Mix(refs_a), "the mixture after its copy was changed", case["seed"])
    assert_mix(b, Mix(refs_b), "the compared mixture", case["seed"])
