"""
F01: factorised factors against the product of their parts.
"""
import math

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.checks.gaussian import ref_kl
from harness.checks.mixture import perfect_matching
from harness.core import Violation, check, prop

prop("F01", [
    "The parts are Gaussian factors (proper, improper or vacuous with any constant); integrals are only taken where they exist.",
    "Division is required for divisors whose scope lies in the scope of one part (the code raises otherwise); marginalising out "
    "all the variables raises by design.",
])

MEANS = [0, 1, -1, 2, 0.5, -3, 10]
SCALES = (1, 1, 0.1, 10)


@st.composite
def part_over(draw, vrs):
    kind = draw(st.integers(0, 5))
    if kind == 5:
        return draw(Q.improper_over(vrs))
    if kind == 4 and len(vrs) > 1:  # a conditional distribution: improper on its own
        n = draw(st.integers(1, len(vrs) - 1))
        a_mat = np.array([[draw(st.sampled_from([1, 0, -1, 2, 0.5])) for _ in range(n)] for _ in range(len(vrs) - n)])
        inv = np.linalg.inv(draw(Q.covariance(len(vrs) - n, scales=SCALES)))
        K = np.block([[a_mat.T @ inv @ a_mat, -a_mat.T @ inv], [-inv @ a_mat, inv]])
        return {"vars": list(vrs), "K": (0.5 * (K + K.T)).tolist(), "h": [0.0] * len(vrs), "g": draw(st.sampled_from(Q.WEIGHTS)),
                "style": "array"}
    return draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS))


@st.composite
def history_case(draw):
    vrs = draw(Q.names(1, 6))
    parts = [draw(part_over(draw(Q.subset(vrs, low=1, high=3)))) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 4)) == 4:  # the same parameters for other variables
        parts.append(Q.twin(parts[0], draw(st.permutations(vrs))[:len(parts[0]["vars"])]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["multiply", "divide", "divide_part", "marginal", "reduce", "normalize", "copy", "marginal",
                                     "reduce"]))
        op = {"op": kind}
        if kind == "multiply":
            op["f"] = draw(part_over(draw(Q.subset(vrs, low=1, high=3))))
        elif kind == "divide":
            op["part"] = draw(st.integers(0, 3))
            op["pattern"] = draw(st.integers(1, 7))
            op["like"] = draw(st.booleans())
            op["f"] = draw(Q.gaussian_over([0, 1, 2], scales=SCALES, means=MEANS))
        elif kind == "divide_part":
            op["part"] = draw(st.integers(0, 3))
        elif kind in ("marginal", "reduce"):
            op["vars"] = draw(Q.subset(vrs, low=1))
            op["keep"] = draw(st.booleans())
            op["values"] = [draw(st.sampled_from([0, 1.0, -2, 0.5, 3.25])) for _ in op["vars"]]
        ops.append(op)
    return {"parts": parts, "ops": ops, "seed": draw(st.integers(0, 999)), "order": draw(st.permutations([0, 1, 2, 3]))}


def as_factorised(factor):
    return factor if hasattr(factor, "factors") else make([factor])


class PartsInUnits(Q.InUnits):
    """
    A factorised factor over variables y = u * x, seen as a function of x: f(u * x) * exp(-shift).
    """

    num_factors = property(lambda self: self.factor.num_factors)
    joint_distribution = property(lambda self: Q.InUnits(self.factor.joint_distribution, self.shift))

    @property
    def factors(self):  # the constant is taken from the first part
        return [Q.InUnits(part, 0.0 if k else self.shift) for k, part in enumerate(self.factor.factors)]

    @classmethod
    def view(cls, factor, shift):
        return cls(factor, shift) if hasattr(factor, "factors") else Q.InUnits(factor, shift)

    def get_cov(self):
        u = self.u(self.factor.joint_distribution.var_names)
        return self.factor.get_cov() / np.outer(u, u)

    def get_mean(self):
        return self.factor.get_mean() / self.u(self.factor.joint_distribution.var_names)[:, None]

    def copy(self):
        return PartsInUnits.view(self.factor.copy(), self.shift)

    def normalize(self):
        return PartsInUnits.view(self.factor.normalize(), -self.jacobian())

    def multiply(self, other):
        return PartsInUnits.view(self.factor.multiply(other.factor), self.shift + other.shift)

    def divide(self, other):
        return PartsInUnits.view(self.factor.divide(other.factor), self.shift - other.shift)

    def marginalize(self, vrs, keep=True):
        result = self.factor.marginalize(vrs, keep=keep)
        return PartsInUnits.view(result, self.shift + self.jacobian([v for v in self.var_names if v not in result.var_names]))

    def reduce(self, vrs, values):
        return PartsInUnits.view(self.factor.reduce(vrs, [x * u for x, u in zip(values, self.u(vrs))]), self.shift)


def make(parts):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    if Q.UNITS:
        return PartsInUnits(FactorizedFactor([part.factor for part in parts]), sum(part.shift for part in parts))
    return FactorizedFactor(parts)


def assert_factorised(factor, ref, what, seed, tol=1e-6):
    if seed % 3:  # (looking at the parameters of a Gaussian can change the form in which it is stored)
        factor = factor.copy()
    names = list(factor.var_names)
    if sorted(names) != sorted(ref.vrs):
        raise Violation(f"{what}: the scope is {names} instead of {ref.vrs}")
    if hasattr(factor, "factors"):
        if factor.num_factors != len(factor.factors):
            raise Violation(f"{what}: num_factors is {factor.num_factors}")
        parts = Q.Quad([], [], [], 0.0)
        for part in factor.factors:
            parts = parts.multiply(Q.Quad(part.var_names, part.get_prec(), part.get_h(), part.get_g()))
        if sorted(parts.vrs) != sorted(ref.vrs):
            raise Violation(f"{what}: the parts have the variables {parts.vrs} instead of {ref.vrs}")
        joint = factor.joint_distribution
    else:
        joint = factor
    Q.assert_quad(joint, ref, what, seed, tol)


def without_residue(quad, origin):
    """Remove what is left of precision that cancels out in a quotient (rounding errors, that have no scale of their own)."""
    if not quad.vrs:
        return quad
    values, vectors = np.linalg.eigh(quad.K)
    small = np.abs(values) < 1e-9 * (1.0 + np.abs(origin.K).max(initial=0.0))
    if not small.any() or np.abs(vectors[:, small].T @ quad.h).max() > 1e-7 * (1.0 + np.abs(origin.h).max(initial=0.0)):
        return quad
    kept = vectors[:, ~small]
    return Q.Quad(quad.vrs, kept @ np.diag(values[~small]) @ kept.T, kept @ (kept.T @ quad.h), quad.g)


def well_posed(quad, limit=1e5):
    if not quad.vrs:
        return True
    # the scales of the variables do not matter
    diag = np.diag(quad.K)
    if np.any(diag <= 1e-9):
        return False
    K = quad.K / np.sqrt(np.outer(diag, diag))
    eig = np.linalg.eigvalsh(K)
    return eig.min() > 1.0 / limit and quad.condition() < 1e6


@check("F01", "histories", history_case(), quick=8000, thorough=150000,
       rule="one to four Gaussian parts over drawn scopes and one to five operations; non-trivial: two or more parts and two "
            "operations that could be applied.")
def histories_body(case, ctx):
    seed = case["seed"]
    ref = Q.quad_product([Q.ref_of(p) for p in case["parts"]])
    factor = make([Q.build(p) for p in case["parts"]])
    assert_factorised(factor, ref, "the factor", seed)
    applied = 0
    tol = 1e-6
    for step, op in enumerate(case["ops"]):
        kind = op["op"]
        what = f"step {step} ({kind})"
        factor = as_factorised(factor)
        before, before_ref = factor, ref
        if kind == "multiply":
            factor, ref = factor.multiply(Q.build(op["f"])), ref.multiply(Q.ref_of(op["f"]))
        elif kind == "divide":
            part = factor.factors[op["part"] % len(factor.factors)]
            chosen = [(k, v) for k, v in enumerate(part.var_names[:3]) if (op["pattern"] >> k) & 1] or [(0, part.var_names[0])] \
                if part.var_names else []
            if not chosen:
                continue
            index = [k for k, _ in chosen]
            spec = dict(op["f"], vars=[v for _, v in chosen], mean=[op["f"]["mean"][k] for k in index],
                        cov=np.array(op["f"]["cov"])[np.ix_(index, index)].tolist(), warm=[])
            like = part.copy()
            part_ref = Q.Quad(like.var_names, like.get_prec(), like.get_h(), like.get_g())
            if op["like"] and len(index) == len(part.var_names) and well_posed(part_ref, 1e4):
                spec["lw"] = part_ref.log_weight()
                ctx.tag("divisor_of_same_weight")
            factor, ref = factor.divide(Q.build(spec)), ref.divide(Q.ref_of(spec))
        elif kind == "divide_part":
            part = factor.factors[op["part"] % len(factor.factors)].copy()
            if not part.var_names:
                continue
            like = part.copy()
            part_ref = Q.Quad(like.var_names, like.get_prec(), like.get_h(), like.get_g())
            factor = factor.divide(part)
            ref = ref.divide(part_ref)
            tol = max(tol, 2e-6)
        elif kind == "marginal":
            vrs = [v for v in op["vars"] if v in ref.vrs]
            keep = vrs if op["keep"] else [v for v in ref.vrs if v not in vrs]
            out = [v for v in ref.vrs if v not in keep]
            if not keep or not vrs:
                continue
            block = ref.reduce(dict.fromkeys(keep, 0.0))
            if not well_posed(block):
                ctx.tag("improper_integral")
                continue
            # (a single variable can be given by its name)
            factor = factor.marginalize(vrs[0] if len(vrs) == 1 and seed % 2 else vrs, keep=op["keep"])
            ref = ref.marginal(keep)
            if out and not np.any(ref.K):
                ctx.tag("flat_marginal")
            tol = 1e-5
        elif kind == "reduce":
            evidence = {v: x for v, x in zip(op["vars"], op["values"]) if v in ref.vrs}
            if not evidence:
                continue
            factor, ref = factor.reduce(list(evidence), list(evidence.values())), ref.reduce(evidence)
        elif kind == "normalize":
            if not well_posed(ref):
                continue
            factor, ref = factor.normalize(), ref.normalized()
            tol = 1e-5
        else:
            factor = factor.copy()
        if kind in ("divide", "divide_part"):
            gone = [v for v in ref.vrs if v not in factor.var_names]
            index = [ref.vrs.index(v) for v in gone]
            if gone:  # variables that the quotient does not depend on may be dropped
                if np.abs(ref.K[index]).max() > 1e-6 * (1 + np.abs(before_ref.K).max()) or np.abs(ref.h[index]).max() > \
                        1e-6 * (1 + np.abs(before_ref.h).max()):
                    raise Violation(f"{what}: the variables {gone} were dropped, but the quotient depends on them")
                ref = ref.reduce(dict.fromkeys(gone, 0.0))
            ref = without_residue(ref, before_ref)
        ctx.tag(kind)
        applied += 1
        if kind == "reduce" and not ref.vrs:
            got = float(as_factorised(factor).joint_distribution.get_g())
            if not abs(got - ref.g) <= 10 * tol * (1 + abs(ref.g) + before_ref.magnitude(evidence)):
                raise Violation(f"{what}: all the variables are observed: the log constant is {got} instead of {ref.g}")
            break
        if kind == "reduce":
            tol = tol * (1 if before_ref.magnitude({v: evidence.get(v, 0.0) for v in before_ref.vrs}) < 1e3 else 100)
        assert_factorised(factor, ref, what, seed, tol)
        assert_factorised(before, before_ref, what + ": the original", seed, tol)
        if np.abs(ref.K).max() > 1e6 or np.abs(ref.h).max() > 1e7 or tol > 1e-3:
            break
    ctx.nontrivial = len(case["parts"]) >= 2 and applied >= 2
    if ref.vrs and well_posed(ref, 1e4) and abs(ref.mean()).max() < 1e3:
        ctx.tag("proper_result")
        joint_names = list(as_factorised(factor).joint_distribution.var_names)
        expected = ref.reorder(joint_names)
        scale = np.abs(expected.cov()).max()
        if not Q.near(factor.get_cov(), expected.cov(), scale, 1e-3 if tol > 1e-6 else 1e-4):
            raise Violation(f"the covariance is {factor.get_cov()} instead of {expected.cov()}")
        if not Q.near(factor.get_mean(), expected.mean().reshape(-1, 1), math.sqrt(scale) + np.abs(expected.mean()).max(), 1e-3):
            raise Violation(f"the mean is {factor.get_mean()} instead of {expected.mean()}")


@st.composite
def relation_case(draw):
    vrs = draw(Q.names(1, 5))
    parts = [draw(Q.gaussian_over(draw(Q.subset(vrs, low=1, high=3)), scales=SCALES, means=MEANS[:-1]))
             for _ in range(draw(st.integers(1, 4)))]
    return {"parts": parts, "order": draw(st.permutations(range(len(parts)))),
            "forms": [draw(st.sampled_from(["cov", "can"])) for _ in parts],
            "relation": draw(st.sampled_from(["permuted", "merged", "changed", "missing", "duplicated", "doubled"])),
            "index": draw(st.integers(0, 3)), "index2": draw(st.integers(0, 3)), "other": draw(st.booleans()),
            "change": draw(st.sampled_from(["lw", "mean", "cov"])), "seed": draw(st.integers(0, 999))}


@check("F01", "relations", relation_case(), quick=4000, thorough=60000,
       rule="two factorised factors (permuted parts, merged parts, one part changed, missing, duplicated); non-trivial: two or "
            "more parts.")
def relations_body(case, ctx):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    relation, first = case["relation"], case["parts"]
    ctx.tag(relation)
    ctx.nontrivial = len(first) >= 2
    second = [dict(first[i], form=case["forms"][k]) for k, i in enumerate(case["order"])]
    i, j = case["index"] % len(second), case["index2"] % len(second)
    if relation == "changed":
        spec = second[i]
        if case["change"] == "lw":
            spec["lw"] = spec["lw"] + 2.0
        elif case["change"] == "mean":
            spec["mean"] = [m + 3.0 for m in spec["mean"]]
        else:
            spec["cov"] = (np.array(spec["cov"], dtype=float) * 3.0).tolist()
    elif relation == "missing" and len(second) > 1:
        del second[i]
    elif relation == "duplicated":
        second[j] = dict(second[i])
    elif relation == "doubled":
        second.append(dict(second[i]))
    p, q = Q.quad_product([Q.ref_of(s) for s in first]), Q.quad_product([Q.ref_of(s) for s in second])
    a, b = FactorizedFactor([Q.build(s) for s in first]), FactorizedFactor([Q.build(s) for s in second])
    if relation == "merged" and len(second) > 1:
        merged = Q.build(second[0]).multiply(Q.build(second[1]))
        b = FactorizedFactor([merged] + [Q.build(s) for s in second[2:]])
    verdict = None
    if set(p.vrs) != set(q.vrs):
        verdict = False
    else:
        gaps = Q.form_difference(p, q) + Q.form_difference(q, p)
        # the parts (in either form) or the joint distributions may be compared
        if relation in ("permuted", "merged") and all(part_safe(s) for s in first) and max(gaps) < 1e-6:
            verdict = True
        elif min(gaps) > 3e-3 and relation not in ("permuted", "merged") and not parts_may_match(first, second):
            verdict = False
    ctx.tag({True: "equal", False: "different", None: "undecided"}[verdict])
    if verdict is not None:
        for x, y, what in ((a, b, "a == b"), (b, a, "b == a"), (a, b.copy(), "a == copy of b")):
            if bool(x == y) != verdict or bool(x.equals(y)) != verdict or bool(x != y) == verdict:
                raise Violation(f"{what} is {not verdict} for factors that are {'equal' if verdict else 'different'} ({relation})")
    if relation == "changed" and set(p.vrs) == set(q.vrs):
        # a wide tolerance holds for every part in both forms; a narrow one fails for the parts and the joint distribution
        pairs = [(Q.ref_of(first[k]), Q.ref_of(s)) for k, s in zip(case["order"], second)] + [(p, q)]
        size = max(max(Q.form_difference(x, y) + Q.form_difference(y, x)) for x, y in pairs)
        for x, y in ((a, b), (b, a)):
            for rtol, atol in ((0.0, 2.0 * Q.absolute_difference(pairs)), (20.0 * size, 20.0 * size)):
                if not x.equals(y, rtol=rtol, atol=atol):
                    raise Violation(f"factorised factors that differ less than rtol={rtol}, atol={atol} are not equal with these")
            if verdict is False and min(gaps) > 3e-2 and x.equals(y, rtol=1e-3, atol=1e-3):
                raise Violation("different factorised factors are equal with a tolerance of 0.001")
    assert_factorised(a, p, "a compared factor", case["seed"])
    assert_factorised(b, q, "the other compared factor", case["seed"])
    if verdict is True and not a == Q.build(first[0]) and len(first) == 1:
        raise Violation("a factorised factor with one part does not equal that part")
    # divergences are those of the joint distributions
    if not well_posed(p, 1e4) or not well_posed(q, 1e4):
        return
    if a.is_vacuous or not a.distance_from_vacuous() > 0:
        raise Violation("a proper factorised factor is vacuous")
    if set(p.vrs) == set(q.vrs):
        want = ref_kl(p, q)
        for other, what in ((b.joint_distribution, "the joint distribution of the other factor"), (b, "the other factor")):
            got = float(a.kl_divergence(other))
            if not math.isclose(got, want, rel_tol=1e-4, abs_tol=1e-5):
                raise Violation(f"the KL-divergence to {what} is {got} instead of {want}")


def parts_may_match(first, second):
    """Whether the parts could be the same, pair by pair, within the tolerance of the comparison (in one of the two forms)."""
    if len(first) != len(second):
        return False
    refs = [(Q.ref_of(a), Q.ref_of(b)) for a in first for b in second]
    perhaps = [set(p.vrs) == set(q.vrs) and min(Q.form_difference(p, q) + Q.form_difference(q, p)) < 3e-3 for p, q in refs]
    n = len(first)
    return perfect_matching(n, [perhaps[i * n:(i + 1) * n] for i in range(n)])


def part_safe(spec):
    ref = Q.ref_of(spec)
    return max(np.abs(ref.K).max(), 1.0) * (1 + np.abs(ref.mean()).max()) < 1e4


# ----------------------------------------------------------------------------------------------------------------------
# cancelling parts

@st.composite
def cancelling_case(draw):
    names = ["a", "b", "c"]
    parts = []
    for _ in range(draw(st.integers(1, 3))):
        vrs = draw(st.permutations(names))[:draw(st.integers(1, 3))]
        n = len(vrs)
        low = np.tril(np.array([[draw(st.integers(-2, 2)) for _ in range(n)] for _ in range(n)]))
        K = low @ low.T + np.eye(n, dtype=int)
        parts.append({"vars": list(vrs), "K": K.astype(float).tolist(),
                      "h": [float(draw(st.integers(-3, 3))) for _ in range(n)], "g": float(draw(st.integers(-4, 4)))})
    negated = [draw(st.integers(0, 3)) > 0 for _ in parts]
    return {"parts": parts, "negated": negated, "seed": draw(st.integers(0, 99))}


@check("F01", "cancelling", cancelling_case(), quick=400, thorough=4000,
       rule="one to three parts with small integer parameters, with the inverses of some or all of them, in any order; "
            "non-trivial: some part is cancelled by its inverse.")
def check_cancelling(case, ctx):
    """
    The divergence from the uniform distribution is that of the product of the parts, also if parts cancel each other (all
    the parameters are small integers, so that they cancel without rounding errors in any order).
    """
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    specs = []
    for spec, negated in zip(case["parts"], case["negated"]):
        specs.append(spec)
        if negated:
            specs.append({"vars": spec["vars"][::-1], "K": [[-x for x in row[::-1]] for row in spec["K"][::-1]],
                          "h": [-x for x in spec["h"][::-1]], "g": -spec["g"]})
    order = np.random.default_rng(case["seed"]).permutation(len(specs))
    factor = FactorizedFactor([Q.build(specs[k]) for k in order])
    uniform = all(case["negated"])
    ctx.tag("uniform" if uniform else "informative")
    ctx.nontrivial = any(case["negated"])
    got, joint = factor.distance_from_vacuous(), factor.joint_distribution
    if got != (0.0 if uniform else math.inf):
        raise Violation(f"the divergence from the uniform distribution is {got} for a product that is "
                        f"{'' if uniform else 'not '}uniform")
    if joint.distance_from_vacuous() != got or bool(joint.is_vacuous) != uniform:
        raise Violation("the joint distribution of parts that cancel each other is not uniform" if uniform else
                        "the joint distribution of parts is uniform although they do not cancel each other")
