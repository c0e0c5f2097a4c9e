"""
G01 - G05, M01, M02, F01, N01 and N02 in other units of measurement: a variable in millimetres or kilometres instead of metres is another variable, y = u * x,
and everything that is known about x holds for y / u. The bodies of the checks run on a view of the factors in the original units.
"""
import math

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.checks import factorised as F
from harness.checks import gaussian as G
from harness.checks import mixture as M
from harness.checks import nonlinear as N
from harness.core import Violation, check

UNIT = [1e-5, 1e4, 1e-3, 1e3, 1e-6, 1e5, 1.0]


def has_improper(value):
    if isinstance(value, dict):
        return "K" in value or bool(value.get("vacuous")) or any(has_improper(v) for v in value.values())
    return isinstance(value, list) and any(has_improper(v) for v in value)


@st.composite
def in_units(draw, strategy):
    base = draw(strategy)
    unit = draw(st.sampled_from(UNIT))
    if unit > 1.0 and (has_improper(base) or any(op["op"].startswith(("divide", "undo", "vacuous")) for op in base.get("ops", []))):
        # (a precision matrix with entries below 1e-8 that is not positive definite counts as a vacuous one)
        unit = 1.0 / unit
    spread = [draw(st.sampled_from([1.0, 1.0, 0.25, 4.0])) for _ in Q.NAMES]
    return {"base": base, "units": {v: unit * s for v, s in zip(Q.NAMES, spread)}}


def convert(body):
    def in_units_body(case, ctx):
        units = list(case["units"].values())
        with Q.in_units(case["units"]):
            body(case["base"], ctx)
        size = sorted(units)[len(units) // 2]
        ctx.tag("small_units" if size < 0.1 else "large_units" if size > 10 else "base_units",
                "same_unit" if len(set(units)) == 1 else "different_units")
        ctx.nontrivial = ctx.nontrivial and not 0.1 < size < 10

    return in_units_body


RULE = "the cases of {} with every variable in another unit (1e-6 to 1e5 times its values); non-trivial: as there, in another unit."

check("G01", "units", in_units(G.forms_case()), quick=3000, thorough=60000, rule=RULE.format("forms"))(convert(G.forms_body))
check("G02", "units", in_units(G.product_case()), quick=3000, thorough=60000, weight=2,
      rule=RULE.format("products"))(convert(G.products_body))
check("G03", "units_marginals", in_units(G.marginal_case()), quick=3000, thorough=60000,
      rule=RULE.format("marginals"))(convert(G.marginals_body))
check("G03", "units_reductions", in_units(G.reduce_case()), quick=3000, thorough=60000,
      rule=RULE.format("reductions"))(convert(G.reductions_body))
check("G05", "units", in_units(G.linear_case()), quick=3000, thorough=60000, rule=RULE.format("linear"))(convert(G.linear_body))
check("F01", "units", in_units(F.history_case()), quick=3000, thorough=60000, rule=RULE.format("histories"))(convert(F.histories_body))
check("M01", "units", in_units(M.history_case()), quick=2000, thorough=40000, rule=RULE.format("histories"))(convert(M.histories_body))
check("M02", "units", in_units(M.match_case()), quick=2000, thorough=40000, rule=RULE.format("moments"))(convert(M.moments_body))
check("N01", "units", in_units(N.sigma_case()), quick=2000, thorough=40000, rule=RULE.format("sigma_points"))(convert(N.sigma_body))
check("N02", "units", in_units(N.history_case()), quick=2000, thorough=40000, rule=RULE.format("histories"))(convert(N.histories_body))


# ----------------------------------------------------------------------------------------------------------------------
# G04: the divergence of two distributions does not depend on the units


@st.composite
def divergence_case(draw):
    vrs = draw(Q.names(1, 4))
    f = draw(Q.gaussian_over(vrs, means=[0, 1, -1, 2, 0.5, -3]))
    g = draw(Q.gaussian_over(draw(st.permutations(vrs)), means=[0, 1, -1, 2, 0.5, -3]))
    return {"f": f, "g": g, "relation": draw(st.sampled_from(["mean", "cov", "independent", "scaled", "same"])),
            "form2": draw(st.sampled_from(["cov", "can"])), "entry": draw(st.integers(0, 99)),
            "delta": draw(st.sampled_from([1.0, -0.5, 0.1, 0.02])), "shift": draw(st.sampled_from([0.0, 0.0, 1.0, -30.0])),
            "normal": draw(st.booleans()), "seed": draw(st.integers(0, 999))}


def divergence_body(case, ctx):
    f, relation = case["f"], case["relation"]
    ctx.tag(relation, f["form"] + "-" + case["form2"])
    g = case["g"]
    if relation != "independent":
        g = dict(Q.permuted(f, g["vars"]), form=case["form2"], style=g["style"], warm=g["warm"])
        i = case["entry"] % len(g["vars"])
        cov = np.array(g["cov"], dtype=float)
        if relation == "mean":
            g["mean"] = [m + (case["delta"] * math.sqrt(cov[i, i]) if k == i else 0.0) for k, m in enumerate(g["mean"])]
        elif relation == "cov":
            cov[i, i] *= 1.0 + abs(case["delta"])
            g["cov"] = cov.tolist()
        elif relation == "scaled":
            g["lw"] = g["lw"] + case["shift"]
    p, q = Q.ref_of(f), Q.ref_of(g)
    if case["normal"] and relation in ("mean", "cov"):
        # with the same constant in canonical form
        g["lw"] = g["lw"] + p.g - q.g
        q = Q.ref_of(g)
    a, b = Q.build(f), Q.build(g)
    ctx.nontrivial = relation in ("mean", "cov", "independent")
    for x, y, want in ((a, b, G.ref_kl(p, q)), (b, a, G.ref_kl(q, p))):
        if max(p.condition(), q.condition()) > 1e6:
            break
        for what, got in (("", x.kl_divergence(y)), (" of normalised factors", x.normalize().kl_divergence(y.normalize())),
                          (" of a normalised factor", x.kl_divergence(y.normalize(), normalize_factor=False))):
            if not abs(float(got) - want) <= 1e-7 * (1.0 + want) + 1e-14 * (p.condition() + q.condition()) * (1 + want):
                raise Violation(f"the KL-divergence{what} is {float(got)} instead of {want}")
    for x, ref in ((a, p), (b, q)):
        Q.assert_moments(x, ref, "moments")
        normal = x.normalize()
        Q.assert_quad(normal, ref.normalized(), "normalised", case["seed"])
        Q.assert_moments(normal, ref.normalized(), "normalised")
        if abs(normal.factor.get_log_weight()) > 1e-7:
            raise Violation(f"the normalised Gaussian has log weight {normal.factor.get_log_weight()}")
        if x.is_vacuous or not x.distance_from_vacuous() > 0:
            raise Violation("a proper Gaussian is vacuous")


check("G04", "units", in_units(divergence_case()), quick=4000, thorough=80000,
      rule="two Gaussians (different in the mean or the variance of one variable, in everything or only in the weight) in other units "
           "(1e-6 to 1e5 times the values): weights, normalisation and the KL-divergence, which does not depend on the units; "
           "non-trivial: different distributions in another unit.")(convert(divergence_body))
