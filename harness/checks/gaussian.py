"""
G01 - G05: Gaussian factors against closed form quadratic log functions.
"""
import math

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.core import Violation, check, prop

COMMON = [
    "Dimensions 1 to 6 (and up to 330 variables in a few cases), covariance condition numbers up to about 1e5, scales from 1e-2 to 1e2 and means up to 100 (G01-G04: times units of 1e-6 to 1e5).",
    "Log potentials are compared relative to the magnitude of their terms (1e-6), parameters relative to the largest entry.",
    "Gaussian equality has an absolute tolerance of 1e-4 by design: only clear differences are required to be seen.",
]
for _pid in ("G01", "G02", "G03", "G04", "G05"):
    prop(_pid, COMMON)


# ----------------------------------------------------------------------------------------------------------------------
# G01 parametrisations


@st.composite
def forms_case(draw):
    vrs = draw(Q.names(1, 5))
    spec = draw(Q.gaussian_over(vrs))
    actions = draw(st.lists(st.sampled_from(Q.GETTERS + ["copy", "log_potential", "repr", "equals", "normalize_other"]),
                            max_size=8))
    return {"f": spec, "actions": actions, "order": draw(st.permutations(vrs)), "seed": draw(st.integers(0, 999))}


@check("G01", "forms", forms_case(), quick=12000, thorough=200000,
       rule="a Gaussian in one of the forms (scalars, lists or arrays, integers or floats) and a sequence of queries, copies and "
            "representations; non-trivial: two or more correlated variables.")
def forms_body(case, ctx):
    spec = case["f"]
    ref = Q.ref_of(spec)
    ctx.tag(spec["form"], spec["style"])
    cov = np.array(spec["cov"], dtype=float)
    ctx.nontrivial = len(spec["vars"]) >= 2 and np.any(cov != np.diag(np.diag(cov)))
    factor = Q.build(spec)
    if list(factor.var_names) != spec["vars"]:
        raise Violation(f"var_names {factor.var_names} instead of {spec['vars']}")
    n = len(spec["vars"])
    want = {
        "get_prec": ref.K, "get_h": ref.h.reshape(-1, 1), "get_g": ref.g, "get_cov": cov,
        "get_mean": np.array(spec["mean"], dtype=float).reshape(-1, 1), "get_log_weight": spec["lw"],
    }
    big = 1 + abs(ref.g) + abs(ref.mean() @ ref.h)
    scales = {"get_prec": np.abs(ref.K).max(), "get_h": np.abs(ref.K).max() * (1 + np.abs(ref.mean()).max()), "get_g": big,
              "get_cov": np.abs(cov).max(), "get_mean": 1 + np.abs(ref.mean()).max(), "get_log_weight": big}

    def query(getter):
        got = getattr(factor, getter)()
        if not Q.near(got, want[getter], scales[getter], 1e-6):
            raise Violation(f"{getter} gives {got} instead of {want[getter]}")
        if isinstance(got, np.ndarray):  # what a getter returns can be changed without effect on the factor
            got[...] = 77.0

    for action in case["actions"]:
        if action in want:
            query(action)
        elif action == "copy":
            factor = factor.copy()
        elif action == "log_potential":
            for valuation in Q.points(ref, case["seed"], 1):
                got = Q.log_potential_of(factor, valuation)
                if not abs(got - ref.log_at(valuation)) <= 1e-6 * ref.magnitude(valuation):
                    raise Violation(f"log potential {got} instead of {ref.log_at(valuation)} at {valuation}")
        elif action == "repr":
            if not all(v in repr(factor) for v in spec["vars"]):
                raise Violation("the representation does not name all the variables")
        elif action == "equals":
            if not factor.equals(factor.copy()):
                raise Violation("a Gaussian does not equal its copy")
        else:
            factor.copy().normalize().get_prec()
    for valuation in Q.points(ref, case["seed"], 2):
        for order in (None, case["order"], list(reversed(spec["vars"]))):
            got = Q.log_potential_of(factor, valuation, order)
            if not abs(got - ref.log_at(valuation)) <= 1e-6 * ref.magnitude(valuation):
                raise Violation(f"log potential {got} instead of {ref.log_at(valuation)} at {valuation} (order {order})")
        x = [valuation[v] for v in spec["vars"]]
        if ref.log_at(valuation) > -600 and not math.isclose(factor.potential(x), Q.exp(ref.log_at(valuation)),
                                                            rel_tol=1e-5 * ref.magnitude(valuation) + 1e-9):
            raise Violation(f"potential {factor.potential(x)} instead of {Q.exp(ref.log_at(valuation))} at {valuation}")
    for getter in Q.GETTERS:
        query(getter)
        query(getter)
    Q.assert_quad(factor, ref, "after all the queries", case["seed"])
    if factor.dim != n:
        raise Violation(f"dim {factor.dim} for {n} variables")


# ----------------------------------------------------------------------------------------------------------------------
# G02 products and quotients


@st.composite
def product_case(draw):
    vrs = draw(Q.names(1, 6))
    n = draw(st.integers(2, 4))
    factors = []
    for _ in range(n):
        scope = draw(Q.subset(vrs, low=1, high=4))
        if draw(st.integers(0, 4)) == 4:
            factors.append(draw(Q.improper_over(scope)))
        else:
            factors.append(draw(Q.gaussian_over(scope)))
    if draw(st.integers(0, 3)) == 3:  # the same set of variables in another order
        factors[1] = draw(Q.gaussian_over(draw(st.permutations(factors[0]["vars"]))))
    elif draw(st.integers(0, 5)) == 5:  # the same parameters over other variables or in another order
        factors[-1] = Q.twin(factors[0], draw(st.permutations(vrs))[:len(factors[0]["vars"])])
    return {"factors": factors, "signs": [draw(st.booleans()) for _ in range(n)], "order": draw(st.permutations(range(n))),
            "seed": draw(st.integers(0, 999))}


def tag_pair(ctx, a, b):
    x, y = set(a["vars"]), set(b["vars"])
    ctx.tag("same_set" if x == y else "nested" if x < y or y < x else "overlap" if x & y else "disjoint")
    if x == y and a["vars"] != b["vars"]:
        ctx.tag("permuted")


@check("G02", "products", product_case(), quick=12000, thorough=200000, weight=2,
       rule="2 to 4 Gaussian factors (some improper or vacuous) over drawn scopes, multiplied or divided in sequence and in "
            "another order; non-trivial: two of them share a variable and the union has two or more variables.")
def products_body(case, ctx):
    specs = case["factors"]
    tag_pair(ctx, specs[0], specs[1])
    if any("K" in s or s.get("vacuous") for s in specs):
        ctx.tag("improper")
    union = set(v for s in specs for v in s["vars"])
    ctx.nontrivial = len(union) >= 2 and sum(len(s["vars"]) for s in specs) > len(union)
    refs = [Q.ref_of(s) for s in specs]
    factors = [Q.build(s) for s in specs]
    size = max(np.abs(r.K).max(initial=0) for r in refs) / max(1e-6, min(np.abs(r.K).max(initial=1) for r in refs) or 1.0)
    tol = 1e-6 if size < 1e6 else 1e-4
    result, expected = factors[0], refs[0]
    for i in range(1, len(specs)):
        if case["signs"][i]:
            result, expected = result.multiply(factors[i]), expected.multiply(refs[i])
        else:
            result, expected = result.divide(factors[i]), expected.divide(refs[i])
        Q.assert_quad(result, expected, f"after step {i}", case["seed"], tol)
    # another order and grouping of the product
    order = case["order"]
    whole = Q.quad_product(refs)
    other = factors[order[0]]
    for i in order[1:]:
        other = other * factors[i]
    Q.assert_quad(other, whole, "product in another order", case["seed"], tol)
    if len(specs) >= 3:
        grouped = factors[0].multiply(factors[1].absorb(factors[2]))
        Q.assert_quad(grouped, Q.quad_product(refs[:3]), "grouped product", case["seed"], tol)
    # division undoes multiplication
    undone = factors[0].multiply(factors[1]).cancel(factors[1])
    Q.assert_quad(undone, refs[0].expand(refs[0].vrs + [v for v in refs[1].vrs if v not in refs[0].vrs]), "(f*g)/g",
                  case["seed"], tol)
    alone = factors[0].divide(factors[0])
    if not alone.is_vacuous or abs(alone.get_g()) > 1e-9:
        raise Violation("f/f is not vacuous with constant one")
    if expected.proper() and expected.condition() < 1e6:
        Q.assert_moments(result, expected, "moments of the result", 1e-5)


# ----------------------------------------------------------------------------------------------------------------------
# G03 marginals and reductions


@st.composite
def marginal_case(draw):
    vrs = draw(Q.names(1, 6))
    spec = draw(Q.gaussian_over(vrs))
    chosen = draw(Q.subset(vrs))
    return {"f": spec, "vars": chosen, "keep": draw(st.booleans()), "as_str": draw(st.booleans()),
            "steps": draw(st.permutations(vrs)), "seed": draw(st.integers(0, 999))}


@check("G03", "marginals", marginal_case(), quick=10000, thorough=200000,
       rule="a Gaussian in one of the forms and a subset of its variables to keep or integrate out; non-trivial: some but not "
            "all of >= 2 correlated variables are integrated out.")
def marginals_body(case, ctx):
    spec, vrs = case["f"], case["vars"]
    ref = Q.ref_of(spec)
    keep = vrs if case["keep"] else [v for v in spec["vars"] if v not in vrs]
    if not keep:
        keep = [spec["vars"][0]]
        vrs, case["keep"] = keep, True
    ctx.tag(spec["form"], "keep" if case["keep"] else "integrate_out")
    ctx.nontrivial = 0 < len(keep) < len(spec["vars"])
    factor = Q.build(spec)
    arg = vrs[0] if (len(vrs) == 1 and case["as_str"]) else list(vrs)
    result = factor.marginalize(arg, keep=case["keep"])
    cov = np.array(spec["cov"], dtype=float)
    index = [spec["vars"].index(v) for v in keep]
    expected = Q.Quad.from_moments(keep, cov[np.ix_(index, index)], np.array(spec["mean"], dtype=float)[index], spec["lw"])
    Q.assert_quad(result, expected, "marginal", case["seed"])
    Q.assert_moments(result, expected, "marginal", 1e-6)
    if set(result.var_names) != set(keep):
        raise Violation(f"the marginal has the variables {result.var_names} instead of {keep}")
    stepwise = factor
    for var in case["steps"]:
        if var not in keep:
            stepwise = stepwise.marginalize([var], keep=False)
    Q.assert_quad(stepwise, expected, "step by step marginal", case["seed"], 1e-5)
    other = Q.build(dict(spec, form="can" if spec["form"] == "cov" else "cov"))
    Q.assert_quad(other.marginalize(list(keep)), expected, "marginal from the other form", case["seed"])
    if not ref.proper():
        raise Violation("harness: improper reference")


@st.composite
def reduce_case(draw):
    vrs = draw(Q.names(1, 6))
    improper = draw(st.integers(0, 3)) == 3
    spec = draw(Q.improper_over(vrs)) if improper else draw(Q.gaussian_over(vrs))
    observed = draw(Q.subset(vrs))
    values = [draw(st.sampled_from([0, 1.0, -2, 0.5, 3.25, -40.0])) for _ in observed]
    return {"f": spec, "vars": observed, "values": values, "split": draw(st.integers(0, len(observed))),
            "drop": draw(st.integers(0, 63)), "seed": draw(st.integers(0, 999)),
            "form": draw(st.sampled_from(["list", "array", "column"])), "alias": draw(st.booleans())}


@check("G03", "reductions", reduce_case(), quick=10000, thorough=200000,
       rule="a proper or improper Gaussian and evidence on a subset of its variables in any order; non-trivial: some but not "
            "all of >= 2 variables are observed.")
def reductions_body(case, ctx):
    spec, vrs, values = case["f"], case["vars"], case["values"]
    if not vrs:
        return
    ref = Q.ref_of(spec)
    improper = "K" in spec or spec.get("vacuous")
    ctx.tag("improper" if improper else spec["form"])
    ctx.nontrivial = len(vrs) < len(spec["vars"])
    if len(vrs) == len(spec["vars"]):
        ctx.tag("all_observed")
    evidence = dict(zip(vrs, values))
    expected = ref.reduce(evidence)
    factor = Q.build(spec)
    arg = {"list": list(values), "array": np.array(values), "column": np.array(values).reshape(-1, 1)}[case["form"]]
    result = (factor.observe if case["alias"] else factor.reduce)(list(vrs), arg)
    magnitude = ref.magnitude({v: evidence.get(v, 0.0) for v in ref.vrs})
    tol = 1e-6 * max(1.0, 1e-2 * magnitude)
    Q.assert_quad(result, expected, "reduction", case["seed"], tol)
    for valuation in Q.points(expected, case["seed"], 2):
        full = {**valuation, **evidence}
        a, b = Q.log_potential_of(result, valuation), Q.log_potential_of(factor, full)
        if not abs(a - b) <= 1e-6 * (magnitude + ref.magnitude(full)):
            raise Violation(f"the reduced factor has log potential {a}, the factor itself {b} at {full}")
    k = case["split"]
    if 0 < k < len(vrs):
        two = factor.reduce(vrs[:k], values[:k]).reduce(vrs[k:], values[k:])
        Q.assert_quad(two, expected, "reduction in two steps", case["seed"], tol)
    if not improper:
        drop = [v for i, v in enumerate(spec["vars"]) if v not in evidence and (case["drop"] >> i) & 1]
        rest = [v for v in spec["vars"] if v not in evidence and v not in drop]
        if drop and rest:
            ctx.tag("with_marginal")
            marginal_first = ref.marginal([v for v in ref.vrs if v not in drop]).reduce(evidence)
            a = factor.marginalize(drop, keep=False).reduce(list(vrs), list(values))
            b = factor.reduce(list(vrs), list(values)).marginalize(drop, keep=False)
            Q.assert_quad(a, marginal_first, "reduction of the marginal", case["seed"], 10 * tol)
            Q.assert_quad(b, marginal_first, "marginal of the reduction", case["seed"], 10 * tol)


# ----------------------------------------------------------------------------------------------------------------------
# G04 weights, divergences, equality


@st.composite
def relation_case(draw):
    vrs = draw(Q.names(1, 4))
    f = draw(Q.gaussian_over(vrs, means=[0, 1, -1, 2, 0.5, -3]))
    g = draw(Q.gaussian_over(draw(st.permutations(vrs)), means=[0, 1, -1, 2, 0.5, -3]))
    return {"f": f, "g": g, "relation": draw(st.sampled_from(["independent", "same", "scaled", "mean", "cov", "weight", "name", "twin"])),
            "form2": draw(st.sampled_from(["cov", "can"])), "entry": draw(st.integers(0, 99)),
            "delta": draw(st.sampled_from([1.0, -0.5, 0.1, 0.003])), "tol": draw(st.sampled_from([1e-2, 1e-5, 0.3])), "seed": draw(st.integers(0, 999))}


def ref_kl(p, q):
    p, q = p.normalized(), q.reorder(p.vrs).normalized()
    cov, n = p.cov(), len(p.vrs)
    d = q.mean() - p.mean()
    return 0.5 * (np.trace(q.K @ cov) + d @ q.K @ d - n + np.linalg.slogdet(p.K)[1] - np.linalg.slogdet(q.K)[1])


@check("G04", "relations", relation_case(), quick=12000, thorough=200000,
       rule="two Gaussians over one set of variables (independent, equal, proportional or different in one parameter; permuted "
            "variables; either form); non-trivial: the factors represent different functions.")
def relations_body(case, ctx):
    f, relation = case["f"], case["relation"]
    ctx.tag(relation, f["form"] + "-" + case["form2"])
    g = case["g"]
    if relation == "twin":
        g = dict(Q.twin(f, g["vars"]), form=case["form2"], style=g["style"], warm=g["warm"])
    elif relation != "independent":
        g = dict(Q.permuted(f, g["vars"]), form=case["form2"], style=g["style"], warm=g["warm"])
        i = case["entry"] % len(g["vars"])
        if relation == "scaled":
            g["lw"] = f["lw"] + case["delta"]
        elif relation == "mean":
            size = math.sqrt(float(np.diag(np.array(f["cov"], dtype=float)).max()))
            g["mean"] = [m + (case["delta"] * (1.0 + size) if k == i else 0.0) for k, m in enumerate(g["mean"])]
        elif relation == "cov":
            cov = np.array(g["cov"], dtype=float)
            cov[i, i] += abs(case["delta"]) * (1 + cov[i, i])
            g["cov"] = cov.tolist()
        elif relation == "weight":
            g["lw"] = f["lw"] + 2.0
        elif relation == "name":
            g["vars"] = ["other" if k == i else v for k, v in enumerate(g["vars"])]
    a, b = Q.build(f), Q.build(g)
    p, q = Q.ref_of(f), Q.ref_of(g)
    ctx.nontrivial = relation != "same"

    # equality
    if relation != "independent":
        if relation == "name":
            if a == b or b == a or a.equals(b) or b.equals(a):
                raise Violation("Gaussians over different variables are equal")
        else:
            difference = [Q.form_difference(x, y) for x, y in ((p, q), (q, p))]
            for tol in (1e-4, case["tol"]):
                for x, y, (can, cov) in ((a, b, difference[0]), (b, a, difference[1])):
                    got = (x == y, x.equals(y)) if tol == 1e-4 else (x.equals(y, rtol=tol, atol=tol),)
                    # the comparison may be made in either of the two forms
                    if max(can, cov) < 0.1 * tol and not all(got):
                        raise Violation(f"two representations of the same Gaussian ({relation}) are not equal")
                    if min(can, cov) > 10 * tol and any(got):
                        raise Violation(f"Gaussians that differ in the {relation} are equal (tolerance {tol})")
                    if tol == 1e-4 and (x != y) == (x == y):
                        raise Violation("!= is not the negation of ==")
            if not a == a.copy() or not b == b.copy():
                raise Violation("a Gaussian does not equal its copy")
            ctx.tag("visible" if min(min(d) for d in difference) > 1e-3 else "similar")
        for x, ref in ((a, p), (b, q)):
            Q.assert_quad(x, ref, "a compared Gaussian", case["seed"])
    if relation == "name":
        return

    # weights and normalisation
    Q.assert_moments(a, p, "moments")
    if abs(f["lw"]) < 30 and not math.isclose(a.get_weight(), math.exp(f["lw"]), rel_tol=1e-5):
        raise Violation(f"the weight is {a.get_weight()} instead of exp({f['lw']})")
    normal = a.normalize()
    Q.assert_quad(normal, p.normalized(), "normalised", case["seed"])
    Q.assert_moments(normal, p.normalized(), "normalised")
    if abs(normal.get_log_weight()) > 1e-7:
        raise Violation(f"the normalised Gaussian has log weight {normal.get_log_weight()}")
    Q.assert_quad(a, p, "the original after normalising", case["seed"])

    # divergence
    want = ref_kl(p, q)
    got = float(a.kl_divergence(b))
    if relation in ("same", "scaled", "weight") and abs(got) > 1e-5:
        raise Violation(f"the KL-divergence between proportional Gaussians is {got}")
    if not math.isclose(got, want, rel_tol=1e-5, abs_tol=1e-6):
        raise Violation(f"the KL-divergence is {got} instead of {want}")
    if got < 0:
        raise Violation(f"the KL-divergence {got} is negative")
    back = float(b.kl_divergence(a))
    want = ref_kl(q, p)
    if not math.isclose(back, want, rel_tol=1e-5, abs_tol=1e-6):
        raise Violation(f"the reverse KL-divergence is {back} instead of {want}")
    normalized_other = float(a.kl_divergence(b.normalize(), normalize_factor=False))
    if abs(normalized_other - got) > 1e-5 * (1 + abs(got)):
        raise Violation(f"normalize_factor=False gives {normalized_other} instead of {got} for a normalised factor")

    # vacuousness
    if a.is_vacuous or not a.distance_from_vacuous() > 0:
        raise Violation("a proper Gaussian is vacuous")


@st.composite
def vacuous_case(draw):
    vrs = draw(Q.names(1, 4))
    return {"f": draw(Q.gaussian_over(vrs)), "partial": draw(Q.improper_over(vrs)), "order": draw(st.permutations(vrs)),
            "g": draw(st.sampled_from(Q.WEIGHTS)), "g2": draw(st.sampled_from(Q.WEIGHTS)), "seed": draw(st.integers(0, 999))}


@check("G04", "vacuous", vacuous_case(), quick=4000, thorough=60000,
       rule="vacuous, partially vacuous and proper Gaussians compared with each other; non-trivial: two or more variables.")
def vacuous_body(case, ctx):
    from veroku.factors.gaussian import Gaussian

    f = case["f"]
    vrs = f["vars"]
    ctx.tag(f["form"])
    ctx.nontrivial = len(vrs) >= 2
    proper = Q.build(f)
    vacuous = Gaussian.make_vacuous(var_names=list(case["order"]), g_val=case["g"])
    Q.assert_quad(vacuous, Q.Quad(case["order"], np.zeros((len(vrs),) * 2), np.zeros(len(vrs)), case["g"]), "vacuous")
    if not vacuous.is_vacuous or vacuous.distance_from_vacuous() != 0.0:
        raise Violation("make_vacuous gives a factor that is not vacuous")
    if vacuous == proper or proper == vacuous:
        raise Violation("a proper and a vacuous Gaussian are equal")
    if not vacuous == vacuous.copy() or not vacuous.copy().is_vacuous:
        raise Violation("a vacuous Gaussian differs from its copy")
    if "g2" in case:
        same = Gaussian.make_vacuous(var_names=list(vrs), g_val=case["g"])
        other = Gaussian.make_vacuous(var_names=list(vrs), g_val=case["g2"])
        if not vacuous == same or not same == vacuous:
            raise Violation("two vacuous Gaussians with one constant are not equal")
        if abs(case["g"] - case["g2"]) > 0.01 * (1.0 + abs(case["g2"])) and (vacuous == other or other == vacuous):
            raise Violation("vacuous Gaussians with different constants are equal")
    if proper.kl_divergence(vacuous) != math.inf or vacuous.kl_divergence(proper) != math.inf:
        raise Violation("the divergence between a proper and a vacuous Gaussian is finite")
    if vacuous.kl_divergence(vacuous.copy()) != 0.0:
        raise Violation("the divergence between vacuous Gaussians is not zero")
    product = proper.multiply(vacuous)
    ref = Q.ref_of(f)
    Q.assert_quad(product, Q.Quad(ref.vrs, ref.K, ref.h, ref.g + case["g"]), "product with a vacuous factor", case["seed"])
    marginal = vacuous.marginalize(list(case["order"])[:1])
    if not marginal.is_vacuous or list(marginal.var_names) != list(case["order"])[:1]:
        raise Violation("the marginal of a vacuous Gaussian is not vacuous")
    partial = Q.build(case["partial"])
    ref_partial = Q.ref_of(case["partial"])
    if not partial == partial.copy():
        raise Violation("a partially vacuous Gaussian differs from its copy")
    if not case["partial"].get("vacuous"):
        if partial == proper or proper == partial:
            if not np.allclose(ref_partial.reorder(vrs).K, ref.K, rtol=1e-3, atol=1e-3):
                raise Violation("a partially vacuous and a proper Gaussian are equal")
        if partial == vacuous or vacuous == partial:
            raise Violation("a partially vacuous and a vacuous Gaussian are equal")
        if partial.is_vacuous:
            raise Violation("a partially vacuous Gaussian is vacuous")
    if partial.kl_divergence(partial.copy()) != 0.0:
        raise Violation("the divergence of a partially vacuous Gaussian from its copy is not zero")
    if not case["partial"].get("vacuous"):
        # a factor that cannot be normalised is infinitely far from one that can
        eig = np.linalg.eigvalsh(ref_partial.K)
        clear = eig.min() < -1e-6 * np.abs(eig).max()
        for got in (partial.kl_divergence(proper), proper.kl_divergence(partial)):
            if eig.min() < 1e-9 and (got != math.inf if clear else not got > 1.0):
                raise Violation(f"the divergence between a proper and an improper Gaussian is {got}")


# ----------------------------------------------------------------------------------------------------------------------
# G05 linear Gaussian factors


@st.composite
def linear_case(draw):
    vrs = draw(Q.names(2, 6))
    nx = draw(st.integers(1, len(vrs) - 1))
    ny = len(vrs) - nx
    a_mat = [[draw(st.sampled_from([1, 0, -1, 2, 0.5, -0.25, 3])) for _ in range(nx)] for _ in range(ny)]
    return {"x": vrs[:nx], "y": vrs[nx:], "A": a_mat, "N": draw(Q.covariance(ny, scales=(1, 1, 0.1, 10))).tolist(),
            "prior": draw(Q.gaussian_over(draw(st.permutations(vrs[:nx])), scales=(1, 1, 0.1, 10), means=[0, 1, -1, 2, 0.5, -3])),
            "obs": [draw(st.sampled_from([0, 1.0, -2.0, 5.0])) for _ in range(ny)], "template": draw(st.booleans()),
            "seed": draw(st.integers(0, 999))}


def linear_ref(x, y, a_mat, n_mat):
    a_mat, n_mat = np.array(a_mat, dtype=float), np.array(n_mat, dtype=float)
    inv = np.linalg.inv(n_mat)
    K = np.block([[a_mat.T @ inv @ a_mat, -a_mat.T @ inv], [-inv @ a_mat, inv]])
    g = -0.5 * (len(y) * Q.LOG_2PI + np.linalg.slogdet(n_mat)[1])
    return Q.Quad(list(x) + list(y), K, np.zeros(len(K)), g)


def make_linear(case):
    from veroku.factors.gaussian import make_linear_gaussian, make_linear_gaussian_cpd_template

    a_mat, n_mat = np.array(case["A"], dtype=float), np.array(case["N"], dtype=float)
    if Q.UNITS:
        u_x, u_y = np.array([Q.UNITS[v] for v in case["x"]]), np.array([Q.UNITS[v] for v in case["y"]])
        units = dict(Q.UNITS)
        Q.UNITS.clear()
        try:
            factor = make_linear(dict(case, A=(a_mat * u_y[:, None] / u_x).tolist(), N=(n_mat * np.outer(u_y, u_y)).tolist()))
        finally:
            Q.UNITS.update(units)
        return Q.InUnits(factor, -float(np.log(u_y).sum()))
    if not case["template"]:
        return make_linear_gaussian(a_mat, n_mat, list(case["x"]), list(case["y"]))
    template = make_linear_gaussian_cpd_template(
        a_mat, n_mat, [v + "{i}" for v in case["x"]], [v + "{j}" for v in case["y"]])
    return template.make_factor(format_dict={"i": "", "j": ""})


@check("G05", "linear", linear_case(), quick=8000, thorough=150000,
       rule="a linear Gaussian conditional with a matrix A of any shape, a prior over x and an observation of y; non-trivial: A is "
            "not square or not symmetric.")
def linear_body(case, ctx):
    x, y = case["x"], case["y"]
    a_mat, n_mat = np.array(case["A"], dtype=float), np.array(case["N"], dtype=float)
    ctx.tag("template" if case["template"] else "direct", "square" if len(x) == len(y) else "not_square")
    ctx.nontrivial = len(x) != len(y) or not np.allclose(a_mat, a_mat.T)
    cpd = make_linear(case)
    ref = linear_ref(x, y, a_mat, n_mat)
    Q.assert_quad(cpd, ref, "linear Gaussian factor", case["seed"], 1e-5)
    # the definition: log N(y; A x, N)
    rng = np.random.default_rng(case["seed"])
    for _ in range(2):
        xv, yv = rng.normal(0, 2, len(x)), rng.normal(0, 2, len(y))
        d = yv - a_mat @ xv
        want = -0.5 * d @ np.linalg.solve(n_mat, d) - 0.5 * (len(y) * Q.LOG_2PI + np.linalg.slogdet(n_mat)[1])
        got = Q.log_potential_of(cpd, {**dict(zip(x, xv)), **dict(zip(y, yv))}, list(y) + list(x))
        if not abs(got - want) <= 1e-5 * (1 + abs(want) + ref.magnitude({**dict(zip(x, xv)), **dict(zip(y, yv))})):
            raise Violation(f"log N(y; Ax, N) is {want}, the log potential is {got}")
    prior = Q.build(case["prior"])
    p = Q.ref_of(case["prior"])
    joint = prior.multiply(cpd)
    Q.assert_quad(joint, p.multiply(ref), "joint", case["seed"], 1e-5)
    if p.multiply(ref).condition() > 1e5:  # the moments are lost in rounding errors
        ctx.tag("ill_conditioned")
        return
    mean, cov = p.reorder(x).mean(), p.reorder(x).cov()
    y_marginal = joint.marginalize(list(y))
    want = Q.Quad.from_moments(y, a_mat @ cov @ a_mat.T + n_mat, a_mat @ mean, case["prior"]["lw"])
    Q.assert_moments(y_marginal, want, "marginal over y", 1e-5)
    x_marginal = joint.marginalize(list(x))
    Q.assert_moments(x_marginal, p, "marginal over x", 1e-5)
    posterior = joint.reduce(list(y), list(case["obs"]))
    innovation = a_mat @ cov @ a_mat.T + n_mat
    gain = np.linalg.solve(innovation, a_mat @ cov).T
    residual = np.array(case["obs"]) - a_mat @ mean
    want_cov = cov - gain @ a_mat @ cov
    want = Q.Quad.from_moments(
        x, 0.5 * (want_cov + want_cov.T), mean + gain @ residual,
        case["prior"]["lw"] - 0.5 * residual @ np.linalg.solve(innovation, residual)
        - 0.5 * (len(y) * Q.LOG_2PI + np.linalg.slogdet(innovation)[1]))
    Q.assert_moments(posterior, want, "posterior", 1e-4)


# ----------------------------------------------------------------------------------------------------------------------
# G01 - G05 with many variables (the determinants of which no float can hold)


def wide_spec(start, n, scale, rho, lw, form):
    """A Gaussian over n variables: covariance scale * rho ** |i - j|."""
    index = np.arange(n)
    cov = scale * rho ** np.abs(index[:, None] - index[None, :])
    return {"vars": [f"v{start + i}" for i in range(n)], "cov": cov.tolist(),
            "mean": [((3 * i) % 7 - 3) * math.sqrt(scale) for i in range(n)], "lw": lw, "form": form, "style": "array"}


@st.composite
def wide_case(draw):
    def one():
        return {"n": draw(st.sampled_from([150, 260, 7, 90, 200, 330])), "scale": draw(st.sampled_from([1e-2, 1e2, 1.0, 1e-4, 1e4, 0.05])),
                "rho": draw(st.sampled_from([0.0, 0.5, -0.5, 0.2])), "lw": draw(st.sampled_from(Q.WEIGHTS)),
                "form": draw(st.sampled_from(["cov", "can"]))}

    return {"f": one(), "g": one(), "shift": draw(st.integers(0, 60)), "reverse": draw(st.booleans()),
            "keep": draw(st.sampled_from([1, 2, 5, 40, 200])), "every": draw(st.integers(1, 3)), "which": draw(st.booleans()),
            "seed": draw(st.integers(0, 999))}


WIDE_RULE = ("Gaussians over 1 to 330 variables with variances from 1e-4 to 1e4; non-trivial: a determinant that under- or overflows "
             "a float.")


def wide_prepare(case, ctx):
    f = wide_spec(0, **case["f"])
    size = case["f"]["n"] * math.log(case["f"]["scale"] * 2 * math.pi)
    ctx.nontrivial = abs(size) > 700
    ctx.tag("huge" if size > 700 else "tiny" if size < -700 else "moderate", case["f"]["form"])
    return f, Q.build(f), Q.ref_of(f)


@check("G01", "many_variables", wide_case(), quick=80, thorough=2000, rule=WIDE_RULE)
def wide_forms_body(case, ctx):
    spec, factor, ref = wide_prepare(case, ctx)
    fresh = Q.build(spec)
    for valuation in Q.points(ref, case["seed"], 2):
        got, want = Q.log_potential_of(fresh, valuation), ref.log_at(valuation)
        if not abs(got - want) <= 1e-6 * ref.magnitude(valuation):
            raise Violation(f"log potential {got} instead of {want}")
    for _ in range(2):
        Q.assert_quad(factor, ref, "a Gaussian over many variables", case["seed"])
        Q.assert_moments(factor, ref, "a Gaussian over many variables")
    Q.assert_quad(factor.copy(), ref, "the copy", case["seed"])


@check("G02", "many_variables", wide_case(), quick=25, thorough=600, rule=WIDE_RULE)
def wide_algebra_body(case, ctx):
    f, factor, ref = wide_prepare(case, ctx)
    g = wide_spec(case["shift"], **case["g"])
    if case["reverse"]:
        g = Q.permuted(g, list(reversed(g["vars"])))
    other, ref_g = Q.build(g), Q.ref_of(g)
    product = factor.multiply(other)
    expected = ref.multiply(ref_g)
    Q.assert_quad(product, expected, "product", case["seed"])
    if expected.condition() < 1e6:
        Q.assert_moments(product, expected, "moments of the product", 1e-5)
    tol = 1e-6 * max(1.0, 1e-4 * np.abs(expected.K).max() / np.abs(ref.K).max())
    undone = ref.expand(ref.vrs + [v for v in ref_g.vrs if v not in ref.vrs])
    Q.assert_quad(product.divide(other), undone, "(f*g)/g", case["seed"], tol)


@check("G03", "many_variables", wide_case(), quick=80, thorough=2000, rule=WIDE_RULE)
def wide_marginal_body(case, ctx):
    f, factor, ref = wide_prepare(case, ctx)
    chosen = f["vars"][::case["every"]][:case["keep"]]
    if case["reverse"]:
        chosen = list(reversed(chosen))
    cov, mean = np.array(f["cov"]), np.array(f["mean"])
    index = [f["vars"].index(v) for v in chosen]
    expected = Q.Quad.from_moments(chosen, cov[np.ix_(index, index)], mean[index], f["lw"])
    out = [v for v in f["vars"] if v not in chosen]
    result = factor.marginalize(list(chosen)) if case["which"] or not out else factor.marginalize(out, keep=False)
    Q.assert_quad(result, expected, "marginal", case["seed"])
    Q.assert_moments(result, expected, "marginal")
    if out:
        values = [mean[f["vars"].index(v)] + math.sqrt(case["f"]["scale"]) * ((i % 3) - 1) for i, v in enumerate(out)]
        reduced = factor.reduce(out, values)
        Q.assert_quad(reduced, ref.reduce(dict(zip(out, values))), "reduction", case["seed"], 1e-5)
        Q.assert_moments(reduced, ref.reduce(dict(zip(out, values))), "reduction", 1e-5)


@check("G04", "many_variables", wide_case(), quick=80, thorough=2000, rule=WIDE_RULE)
def wide_divergence_body(case, ctx):
    f, factor, ref = wide_prepare(case, ctx)
    g = wide_spec(0, **dict(case["g"], n=case["f"]["n"]))
    if case["reverse"]:
        g = Q.permuted(g, list(reversed(g["vars"])))
    other, ref_g = Q.build(g), Q.ref_of(g)
    normal = factor.normalize()
    Q.assert_quad(normal, ref.normalized(), "normalised", case["seed"])
    Q.assert_moments(normal, ref.normalized(), "normalised")
    want = ref_kl(ref, ref_g)
    got = float(factor.kl_divergence(other))
    if not math.isclose(got, want, rel_tol=1e-5, abs_tol=1e-6):
        raise Violation(f"the KL-divergence is {got} instead of {want}")
    same = Q.build(dict(Q.permuted(f, list(reversed(f["vars"]))), form="cov" if f["form"] == "can" else "can"))
    if not factor == same or not same.equals(factor):
        raise Violation("two representations of the same Gaussian are not equal")
    if abs(float(factor.kl_divergence(same))) > 1e-5:
        raise Violation("the KL-divergence from another representation of the same Gaussian is not zero")


@check("G05", "many_variables", wide_case(), quick=40, thorough=1000, rule=WIDE_RULE)
def wide_linear_body(case, ctx):
    from veroku.factors.gaussian import make_linear_gaussian

    f, prior, ref = wide_prepare(case, ctx)
    x = f["vars"]
    rng = np.random.default_rng(case["seed"])
    m = max(1, min(case["keep"], 120))
    y = [f"y{i}" for i in range(m)]
    a_mat = np.zeros((m, len(x)))
    for i in range(m):
        a_mat[i, rng.integers(len(x))] = 1.0
        a_mat[i, rng.integers(len(x))] += -0.5
    n_mat = np.eye(m) * case["f"]["scale"] * (1.0 if case["which"] else 4.0)
    cpd = make_linear_gaussian(a_mat, n_mat, list(x), list(y))
    want = linear_ref(x, y, a_mat, n_mat)
    point = {**dict(zip(x, np.array(f["mean"]))), **{v: math.sqrt(case["f"]["scale"]) * (i % 5 - 2) for i, v in enumerate(y)}}
    d = np.array([point[v] for v in y]) - a_mat @ np.array(f["mean"])
    log_pdf = -0.5 * d @ np.linalg.solve(n_mat, d) - 0.5 * (m * Q.LOG_2PI + np.linalg.slogdet(n_mat)[1])
    got = Q.log_potential_of(cpd, point)
    tol = 1e-6
    if not abs(got - log_pdf) <= tol * (want.magnitude(point) + abs(log_pdf)):
        raise Violation(f"log N(y; Ax, N) is {log_pdf}, the log potential is {got}")
    joint = prior.multiply(cpd)
    cov, mean = np.array(f["cov"]), np.array(f["mean"])
    expected = Q.Quad.from_moments(y, a_mat @ cov @ a_mat.T + n_mat, a_mat @ mean, f["lw"])
    Q.assert_moments(joint.marginalize(list(y)), expected, "marginal over y", 10 * tol)
    Q.assert_moments(joint.marginalize(list(x)), ref, "marginal over x", 10 * tol)
