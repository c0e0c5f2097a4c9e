"""
C01 - C07: discrete factors (Categorical and SparseCategorical) against a reference table.
"""
import itertools
import math

import numpy as np

from harness import gen as st
from harness.core import Violation, check, prop
from harness import discrete as D

COMMON = [
    "The reference model is a dictionary from assignments to log values; values are compared with atol 1e-7 in the log domain.",
    "Scopes of up to 6 variables, cardinalities 1 to 5, at most a few hundred entries per table.",
    "Sparse tables only have entries within the cardinalities; sparse cancel is compared on divisors within the dividend's "
    "scope or without zeros that meet a non-zero dividend (x/0 is infinite for dense and undefined for sparse factors).",
]
for _pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    prop(_pid, COMMON)


def same_kind(draw, uni, scopes, **kwargs):
    kind = draw(st.sampled_from(["dense", "sparse"]))
    return [draw(D.factor_over(uni, s, kind=kind, **kwargs)) for s in scopes]


@st.composite
def anames(draw, uni):
    """
    Give the universe assignment names.
    """
    names = []
    for i, card in enumerate(uni["cards"]):
        order = draw(st.permutations(D.ASSIGNMENT_NAMES))
        names.append([f"{order[k]}" if k < len(order) else f"n{k}" for k in range(card)] if draw(st.booleans())
                     else list(range(card)))
    return dict(uni, anames=names)


def expected_anames(specs, var):
    for spec in specs:
        if spec.get("names") is not None and var in spec["vars"]:
            return tuple(spec["names"][spec["vars"].index(var)])
    return None


def assert_anames(factor, specs, what):
    """
    The assignment names of the variables survive the operation (they are visible in the data frame of the factor).
    """
    if not D.is_dense(factor) or not factor.var_names:
        return
    named = {v: expected_anames(specs, v) for v in factor.var_names}
    frame = factor.get_df(named_assignments=True)
    if list(frame.columns) != list(factor.var_names) + ["prob"]:
        raise Violation(f"{what}: the data frame has columns {list(frame.columns)} for variables {factor.var_names}")
    table = D.table_of(factor)
    rows = set()
    for row in frame.itertuples(index=False):
        assignment = []
        for var, value in zip(factor.var_names, row[:-1]):
            names = named[var] if named[var] is not None else tuple(range(factor.var_cards[var]))
            if value not in names:
                raise Violation(f"{what}: assignment name {value!r} of {var}, expected one of {names}")
            assignment.append(names.index(value))
        rows.add(tuple(assignment))
        expected = table.values[tuple(assignment)]
        if not math.isnan(expected) and not np.isclose(row[-1], np.exp(expected), rtol=1e-6, atol=1e-12):
            raise Violation(f"{what}: named row {tuple(row)} but the log value is {expected}")
    if len(rows) != len(table.values):
        raise Violation(f"{what}: {len(rows)} of {len(table.values)} rows in the data frame")


# ----------------------------------------------------------------------------------------------------------------------
# C01 products


@st.composite
def pair_case(draw, **kwargs):
    uni = draw(D.universe(max_vars=6, max_size=200))
    uni = draw(anames(uni))
    min_scope = 0 if draw(st.integers(0, 9)) == 9 else 1
    scopes = [draw(D.scope_of(uni, min_scope, 5)) for _ in range(2)]
    if draw(st.integers(0, 4)) == 4:  # the same set of variables in another order
        scopes[1] = list(draw(st.permutations(scopes[0])))
    f, g = same_kind(draw, uni, scopes, named=draw(st.booleans()), **kwargs)
    if draw(st.integers(0, 7)) == 7:
        g = draw(D.twin(f, uni))
    if g.get("names") is None or f.get("names") is None:
        f["names"] = g["names"] = None
    return {"f": f, "g": g, "op": draw(st.sampled_from(["multiply", "absorb", "mul", "chain"]))}


def scope_tags(ctx, f, g):
    a, b = set(f["vars"]), set(g["vars"])
    if a == b:
        ctx.tag("same_set" if f["vars"] == g["vars"] else "same_set_permuted")
    elif a < b or b < a:
        ctx.tag("nested")
    elif a & b:
        ctx.tag("overlap")
    else:
        ctx.tag("disjoint")
    if not a or not b:
        ctx.tag("empty_scope")
    ctx.tag(f["kind"])
    if None in f["logs"] or None in g["logs"]:
        ctx.tag("zeros")
    if any(c == 1 for c in f["cards"] + g["cards"]):
        ctx.tag("singleton")
    if f.get("default") is not None or g.get("default") is not None:
        ctx.tag("finite_default")
    if f.get("names"):
        ctx.tag("assignment_names")


PAIR_RULE = ("two factors of one kind with drawn scopes (any overlap, any variable order); non-trivial: the scopes share a "
             "variable and at least one of them has two or more variables.")


@check("C01", "product", pair_case(extreme=True), quick=10000, thorough=200000, rule=PAIR_RULE, weight=2)
def product_body(case, ctx):
    f, g = case["f"], case["g"]
    scope_tags(ctx, f, g)
    ctx.nontrivial = bool(set(f["vars"]) & set(g["vars"])) and max(len(f["vars"]), len(g["vars"])) > 1
    a, b = D.build(f), D.build(g)
    op = case["op"]
    if op == "mul":
        result = a * b
    elif op == "absorb":
        result = a.absorb(b)
    else:
        result = a.multiply(b)
    expected = D.ref_of(f).multiply(D.ref_of(g))
    D.assert_same(D.table_of(result, "the product"), expected, f"{f['kind']} product")
    if type(result) is not type(a):
        raise Violation(f"the product of {type(a).__name__} factors is a {type(result).__name__}")
    if f.get("names"):
        assert_anames(result, [f, g], "product")
    if op == "chain":
        again = result.multiply(a)
        D.assert_same(D.table_of(again, "f*g*f"), expected.multiply(D.ref_of(f)), f"{f['kind']} repeated product")


@st.composite
def many_case(draw):
    uni = draw(D.universe(min_vars=2, max_vars=6, max_card=3, max_size=250))
    n = draw(st.integers(3, 5))
    scopes = [draw(D.scope_of(uni, 1, 3)) for _ in range(n)]
    factors = same_kind(draw, uni, scopes, extreme=True)
    if draw(st.integers(0, 3)) == 3:
        factors[-1] = draw(D.twin(factors[0], uni))
    return {"factors": factors, "order": draw(st.permutations(list(range(n)))), "split": draw(st.integers(1, n - 1))}


@check("C01", "product_order", many_case(), quick=3000, thorough=60000, weight=1.5,
       rule="3 to 5 factors multiplied in two orders and groupings; non-trivial: the union of the scopes has >= 3 variables.")
def product_order_body(case, ctx):
    specs = case["factors"]
    ctx.tag(specs[0]["kind"])
    union = set(v for s in specs for v in s["vars"])
    ctx.nontrivial = len(union) >= 3
    expected = D.product([D.ref_of(s) for s in specs])

    def fold(factors):
        result = factors[0]
        for factor in factors[1:]:
            result = result.multiply(factor)
        return result

    factors = [D.build(s) for s in specs]
    D.assert_same(D.table_of(fold(factors)), expected, "product in the given order")
    permuted = [factors[i] for i in case["order"]]
    left, right = permuted[:case["split"]], permuted[case["split"]:]
    D.assert_same(D.table_of(fold(left).multiply(fold(right))), expected, "product in another order and grouping")


# ----------------------------------------------------------------------------------------------------------------------
# C02 quotients


@st.composite
def quotient_case(draw):
    case = draw(pair_case(extreme=True))
    case["op"] = draw(st.sampled_from(["divide", "cancel", "undo", "undo_divide", "message", "twice"]))
    return case


def drop_extra_zeros(case):
    """
    Replace the zeros of the divisor if the divisor has variables outside of the dividend's scope.
    """
    g = dict(case["g"])
    if not set(g["vars"]) <= set(case["f"]["vars"]):
        g["logs"] = [-3.0 if x is None else x for x in g["logs"]]
    return g


@check("C02", "quotient", quotient_case(), quick=10000, thorough=200000, rule=PAIR_RULE)
def quotient_body(case, ctx):
    f, op = case["f"], case["op"]
    g = drop_extra_zeros(case)
    if op in ("undo_divide",):
        g["logs"] = [-3.0 if x is None else x for x in g["logs"]]
    scope_tags(ctx, f, g)
    if op == "twice":  # positive factors
        f, g = (dict(s, default=None, logs=[-3.0 if x is None else x for x in s["logs"]]) for s in (f, g))
    ctx.tag(op)
    ctx.nontrivial = bool(set(f["vars"]) & set(g["vars"])) and max(len(f["vars"]), len(g["vars"])) > 1
    a, b = D.build(f), D.build(g)
    ra, rb = D.ref_of(f), D.ref_of(g)
    sparse = f["kind"] == "sparse"
    if op == "divide":
        if sparse and a.default_log_prob != b.default_log_prob:
            ctx.tag("unsupported_defaults")
            try:
                result = a.divide(b)
            except NotImplementedError:
                return
        else:
            result = a.divide(b)
        expected = ra.divide(rb)
        D.assert_same(D.table_of(result), expected, f"{f['kind']} quotient")
        if f.get("names"):
            assert_anames(result, [f, g], "quotient")
    elif op == "cancel":
        result = a.cancel(b)
        expected = ra.cancel(rb)
        if sparse:  # the quotient of a positive value and zero is not specified
            expected.values = {k: (math.nan if x == math.inf else x) for k, x in expected.values.items()}
        D.assert_same(D.table_of(result), expected, f"{f['kind']} cancellation")
        if f.get("names"):
            assert_anames(result, [f, g], "cancellation")
    elif op == "undo_divide":
        result = a.multiply(b)
        if sparse:
            # multiply makes the defaults explicit; a positive divisor has an infinite negative default only if complete
            if result.default_log_prob != b.default_log_prob:
                return
        result = result.divide(b)
        expected = ra.multiply(rb).divide(rb)
        D.assert_same(D.table_of(result), expected, "(f*g)/g")
    elif op == "twice":
        result = a.divide(b).divide(b)
        expected = ra.divide(rb).divide(rb)
        D.assert_same(D.table_of(result), expected, "(f/g)/g")
        D.assert_same(D.table_of(a.divide(b).cancel(b)), expected, "f/g cancelled by g")
        D.assert_same(D.table_of(result.multiply(b).multiply(b)), ra.multiply(rb).divide(rb), "(f/g)/g multiplied by g twice")
    elif op == "undo":
        result = a.multiply(b).cancel(b)
        expected = ra.multiply(rb).cancel(rb)
        D.assert_same(D.table_of(result), expected, "(f*g) cancelled by g")
        for assignment, value in expected.values.items():
            valuation = dict(zip(expected.vrs, assignment))
            if rb.at(valuation) != D.NEG_INF and not D.close(value, ra.at(valuation)):
                raise Violation("harness: reference cancel is inconsistent")
    else:
        # the message passing pattern: f is divided by its own marginal, and multiplied by it again
        keep = [v for v in f["vars"] if v in g["vars"]]
        marginal = a.marginalize(keep, keep=True)
        result = a.cancel(marginal)
        ref_marginal = ra.marginal(keep)
        conditional = ra.cancel(ref_marginal)
        D.assert_same(D.table_of(result), conditional, "f cancelled by its marginal")
        D.assert_same(D.table_of(result.multiply(marginal)), ra, "f cancelled by its marginal and multiplied by it again")


# ----------------------------------------------------------------------------------------------------------------------
# C03 marginalisation


@st.composite
def marginal_case(draw):
    uni = draw(D.universe(max_vars=6, max_size=300))
    uni = draw(anames(uni))
    f = draw(D.factor_spec(uni=uni, extreme=True, named=draw(st.booleans())))
    n = len(f["vars"])
    order = list(draw(st.permutations(f["vars"])))
    k = draw(st.integers(0, n))
    steps = draw(st.lists(st.integers(0, 5), min_size=0, max_size=3))
    return {"f": f, "vars": order[:k], "keep": draw(st.booleans()), "as_str": draw(st.booleans()), "steps": steps}


@check("C03", "marginal", marginal_case(), quick=10000, thorough=200000,
       rule="a factor, a subset of its variables in any order, keep or sum out; non-trivial: some but not all of >= 2 "
            "variables are summed out.")
def marginal_body(case, ctx):
    f = case["f"]
    vrs = case["vars"]
    ctx.tag(f["kind"], "keep" if case["keep"] else "sum_out")
    keep = vrs if case["keep"] else [v for v in f["vars"] if v not in vrs]
    ctx.nontrivial = 0 < len(keep) < len(f["vars"])
    if None in f["logs"]:
        ctx.tag("zeros")
    if not keep:
        ctx.tag("all_out")
    if 1 in f["cards"]:
        ctx.tag("singleton")
    if f.get("default") is not None:
        ctx.tag("finite_default")
    a = D.build(f)
    ref = D.ref_of(f)
    arg = vrs[0] if (len(vrs) == 1 and case["as_str"]) else list(vrs)
    result = a.marginalize(arg, keep=case["keep"])
    expected = ref.marginal(keep)
    got = D.table_of(result)
    D.assert_same(got, expected, f"{f['kind']} marginal")
    if f.get("names"):
        assert_anames(result, [f], "marginal")
    if not D.close(got.total(), ref.total()):
        raise Violation(f"the total mass changed from {ref.total()} to {got.total()}")
    # step by step, one variable at a time and in any order
    out = [v for v in f["vars"] if v not in keep]
    stepwise = a
    order = list(out)
    for step in case["steps"]:
        if order:
            order.append(order.pop(step % len(order)))
    for var in order:
        stepwise = stepwise.marginalize([var], keep=False)
    D.assert_same(D.table_of(stepwise), expected, "step by step marginal")


@st.composite
def distribute_case(draw):
    case = draw(pair_case(extreme=True))
    case["drop"] = draw(st.integers(0, 63))
    return case


@check("C03", "distributive", distribute_case(), quick=4000, thorough=80000,
       rule="sum over x of f*g = f * sum over x of g for variables x that only g has; non-trivial: such a variable exists.")
def distributive_body(case, ctx):
    f, g = case["f"], case["g"]
    only_g = [v for i, v in enumerate(g["vars"]) if v not in f["vars"] and (case["drop"] >> i) & 1]
    ctx.nontrivial = bool(only_g)
    ctx.tag(f["kind"])
    a, b = D.build(f), D.build(g)
    expected = D.ref_of(f).multiply(D.ref_of(g))
    expected = expected.marginal([v for v in expected.vrs if v not in only_g])
    D.assert_same(D.table_of(a.multiply(b).marginalize(only_g, keep=False)), expected, "sum of the product")
    D.assert_same(D.table_of(a.multiply(b.marginalize(only_g, keep=False))), expected, "product with the sum")


# ----------------------------------------------------------------------------------------------------------------------
# C04 conditioning


@st.composite
def reduce_case(draw):
    uni = draw(D.universe(max_vars=6, max_size=300))
    uni = draw(anames(uni))
    f = draw(D.factor_spec(uni=uni, extreme=True, named=draw(st.booleans())))
    order = list(draw(st.permutations(f["vars"])))
    k = draw(st.integers(0, len(order)))
    vrs = order[:k]
    values = [draw(st.integers(0, f["cards"][f["vars"].index(v)] - 1)) for v in vrs]
    return {"f": f, "vars": vrs, "values": values, "split": draw(st.integers(0, k)),
            "form": draw(st.sampled_from(["list", "tuple", "numpy"])), "alias": draw(st.booleans())}


@check("C04", "slice", reduce_case(), quick=10000, thorough=200000,
       rule="a factor and evidence on a subset of its variables in any order; non-trivial: some but not all of >= 2 variables "
            "are observed.")
def reduce_body(case, ctx):
    f, vrs, values = case["f"], case["vars"], case["values"]
    ctx.tag(f["kind"])
    ctx.nontrivial = 0 < len(vrs) < len(f["vars"])
    a, ref = D.build(f), D.ref_of(f)
    evidence = dict(zip(vrs, values))
    expected = ref.reduce(evidence)
    if expected.all_zero():
        ctx.tag("zero_probability_evidence")
    if len(vrs) == len(f["vars"]):
        ctx.tag("all_observed")
    if f.get("default") is not None:
        ctx.tag("finite_default")
    arg = {"list": list(values), "tuple": tuple(values), "numpy": [np.int64(x) for x in values]}[case["form"]]
    result = (a.observe if case["alias"] else a.reduce)(list(vrs), arg)
    D.assert_same(D.table_of(result), expected, f"{f['kind']} reduction")
    if f.get("names"):
        assert_anames(result, [f], "reduction")
    k = case["split"]
    two_steps = a.reduce(vrs[:k], values[:k]).reduce(vrs[k:], values[k:])
    D.assert_same(D.table_of(two_steps), expected, "reduction in two steps")
    for assignment in itertools.islice(expected.assignments(), 12):
        valuation = {**dict(zip(expected.vrs, assignment)), **evidence}
        got = a.potential(list(valuation), list(valuation.values()))
        if not np.isclose(got, np.exp(expected.values[assignment]), rtol=1e-6, atol=0.0):
            raise Violation(f"the potential at {valuation} is {got} instead of {np.exp(expected.values[assignment])}")


@st.composite
def reduce_product_case(draw):
    case = draw(pair_case(extreme=True))
    union = list(dict.fromkeys(case["f"]["vars"] + case["g"]["vars"]))
    cards = {**dict(zip(case["f"]["vars"], case["f"]["cards"])), **dict(zip(case["g"]["vars"], case["g"]["cards"]))}
    mask = draw(st.integers(0, 2 ** len(union) - 1))
    case["evidence"] = [[v, draw(st.integers(0, cards[v] - 1))] for i, v in enumerate(union) if (mask >> i) & 1]
    case["sum"] = draw(st.integers(0, 63))
    return case


@check("C04", "commutes", reduce_product_case(), quick=4000, thorough=80000,
       rule="conditioning commutes with products and with marginalising other variables; non-trivial: evidence on a shared "
            "variable.")
def reduce_commutes_body(case, ctx):
    f, g = case["f"], case["g"]
    evidence = dict((v, x) for v, x in case["evidence"])
    ctx.tag(f["kind"])
    ctx.nontrivial = any(v in f["vars"] and v in g["vars"] for v in evidence)
    a, b = D.build(f), D.build(g)

    def local(factor, spec):
        vrs = [v for v in evidence if v in spec["vars"]]
        return factor.reduce(vrs, [evidence[v] for v in vrs])

    expected = D.ref_of(f).multiply(D.ref_of(g)).reduce(evidence)
    whole = a.multiply(b).reduce(list(evidence), list(evidence.values()))
    D.assert_same(D.table_of(whole), expected, "reduction of the product")
    D.assert_same(D.table_of(local(a, f).multiply(local(b, g))), expected, "product of the reductions")
    out = [v for i, v in enumerate(f["vars"]) if v not in evidence and (case["sum"] >> i) & 1]
    vrs = [v for v in evidence if v in f["vars"]]
    expected_f = D.ref_of(f).reduce({v: evidence[v] for v in vrs})
    expected_f = expected_f.marginal([v for v in expected_f.vrs if v not in out])
    D.assert_same(D.table_of(a.marginalize(out, keep=False).reduce(vrs, [evidence[v] for v in vrs])), expected_f,
                  "reduction of the marginal")
    D.assert_same(D.table_of(local(a, f).marginalize(out, keep=False)), expected_f, "marginal of the reduction")


# ----------------------------------------------------------------------------------------------------------------------
# C05 measures


@st.composite
def measure_case(draw):
    uni = draw(D.universe(max_vars=5, max_size=200))
    scope = draw(D.scope_of(uni))
    other = list(draw(st.permutations(scope)))
    f, g = same_kind(draw, uni, [scope, other], extreme="shift")
    near = draw(st.sampled_from(["independent", "independent", "same", "scaled", "support", "twin", "near"]))
    if near == "twin":  # the same parameters, the variables in another order
        g = draw(D.twin(f, {"names": f["vars"], "cards": f["cards"]}))
    return {"f": f, "g": g, "relation": near, "scale": draw(st.sampled_from([-5.0, -0.5, 0.3, 2.0, 30.0])),
            "change": draw(st.sampled_from([1e-3, 1e-2, 1e-4, 1e-5, 0.1]))}


def ref_kl(p, q):
    """
    D(p || q) of two tables with the same variables (neither is normalised here).
    """
    terms = []
    for assignment, log_p in p.values.items():
        if log_p == D.NEG_INF:
            continue
        log_q = q.at(dict(zip(p.vrs, assignment)))
        if log_q == D.NEG_INF:
            return math.inf
        terms.append(math.exp(log_p) * (log_p - log_q))
    return math.fsum(terms)


def close_div(got, expected):
    if math.isinf(expected):
        return got == expected
    return abs(got - expected) <= 1e-6 * (1 + abs(expected))


@check("C05", "measures", measure_case(), quick=30000, thorough=200000,
       rule="two factors over the same variables (the second in a permuted order; independent, proportional or with the same "
            "support); non-trivial: >= 2 assignments have positive values in the first factor and the factors differ.")
def measures_body(case, ctx):
    f, g = dict(case["f"]), dict(case["g"])
    ctx.tag(f["kind"], case["relation"])
    ref_f = D.ref_of(f)
    if case["relation"] in ("same", "scaled"):
        shift = 0.0 if case["relation"] == "same" else case["scale"]
        table = ref_f.reorder(g["vars"])
        g["logs"] = [None if x == D.NEG_INF else x + shift for x in table.values.values()]
        g["how"] = "logs"
    elif case["relation"] == "support":
        table = ref_f.reorder(g["vars"])
        g["logs"] = [None if x == D.NEG_INF else (-3.0 if y is None else y) for x, y in zip(table.values.values(), g["logs"])]
    elif case["relation"] == "near":
        table = ref_f.reorder(g["vars"])
        g["logs"] = [None if x == D.NEG_INF else x + case["change"] * ((3 * i) % 5 - 2) for i, x in enumerate(table.values.values())]
        g["how"] = "logs"
    a, b = D.build(f), D.build(g)
    ref_g = D.ref_of(g)
    if ref_f.all_zero() or ref_g.all_zero():
        return
    p, q = ref_f.normalized(), ref_g.normalized()
    positive = sum(1 for x in ref_f.values.values() if x != D.NEG_INF)
    ctx.nontrivial = positive >= 2 and case["relation"] != "same"
    if ref_f.has_zero():
        ctx.tag("zeros")
    if f.get("default") is not None:
        ctx.tag("finite_default")

    normal = a.normalize()
    D.assert_same(D.table_of(normal), p, "normalisation")
    if abs(D.table_of(normal).total()) > 1e-7:
        raise Violation(f"the normalised factor has log mass {D.table_of(normal).total()}")
    D.assert_same(D.table_of(normal.normalize()), p, "repeated normalisation")
    if hasattr(a, "weight") and ref_f.total() < 700:
        if abs(a.weight - math.exp(ref_f.total())) > 1e-7 * math.exp(ref_f.total()):
            raise Violation(f"the weight is {a.weight} instead of {math.exp(ref_f.total())}")

    expected = ref_kl(p, q)
    got = float(a.kl_divergence(b))
    if got < 0 or not close_div(got, expected):
        raise Violation(f"the KL divergence is {got} instead of {expected}")
    if case["relation"] == "near":
        logs = [abs(x) for t in (ref_f, ref_g) for x in t.values.values() if x != D.NEG_INF]
        if not abs(got - expected) <= 1e-4 * expected + 1e-14 * (10.0 + max(logs)):
            raise Violation(f"the KL divergence between factors that almost equal each other is {got} instead of {expected}")
    if case["relation"] in ("same", "scaled") and abs(got) > 1e-6:
        raise Violation(f"the KL divergence between proportional factors is {got}")
    got = float(b.kl_divergence(a))
    if got < 0 or not close_div(got, ref_kl(q, p)):
        raise Violation(f"the reverse KL divergence is {got} instead of {ref_kl(q, p)}")
    got = float(a.kl_divergence(b.normalize(), normalize_factor=False))
    if got < 0 or not close_div(got, expected):
        raise Violation(f"the KL divergence with normalize_factor=False and a normalised factor is {got}, not {expected}")
    raw = ref_kl(p, ref_g)
    if raw >= 1e-3:
        got = float(a.kl_divergence(b, normalize_factor=False))
        if not close_div(got, raw):
            raise Violation(f"the KL divergence with normalize_factor=False is {got} instead of {raw}")

    size = len(p.values)
    distance = math.fsum(math.exp(x) * (x + math.log(size)) for x in p.values.values() if x != D.NEG_INF)
    got = float(a.distance_from_vacuous())
    if not close_div(got, distance):
        raise Violation(f"the distance from vacuous is {got} instead of {distance}")
    if distance > 1e-6 and a.is_vacuous:
        raise Violation("a factor that is not uniform is vacuous")
    if distance == 0.0 and not a.is_vacuous and got > 1e-10:
        raise Violation("a uniform factor is not vacuous")

    best = max(ref_f.values.values())
    arg = tuple(int(x) for x in a.argmax())
    if len(arg) != len(f["vars"]) or ref_f.at(dict(zip(a.var_names, arg))) < best - 1e-9:
        raise Violation(f"argmax gives {arg} with log value "
                        f"{ref_f.values.get(arg)} for variables {a.var_names}, the maximum is {best}")
    if D.is_dense(a):
        # without custom names the assignment names are the indices
        if tuple(a.argmax_assignment_names()) != arg:
            raise Violation("argmax_assignment_names differs from argmax for default names")


@st.composite
def named_argmax_case(draw):
    uni = draw(anames(draw(D.universe(max_vars=4))))
    return {"f": draw(D.factor_spec(uni=uni, kind="dense", named=True, extreme="shift"))}


@check("C05", "argmax_names", named_argmax_case(), quick=1500, thorough=20000,
       rule="dense factors with assignment names; non-trivial: >= 2 variables.")
def argmax_names_body(case, ctx):
    f = case["f"]
    ref = D.ref_of(f)
    if ref.all_zero():
        return
    ctx.nontrivial = len(f["vars"]) >= 2
    a = D.build(f)
    names = a.argmax_assignment_names()
    valuation = {}
    for var, name in zip(a.var_names, names):
        options = f["names"][f["vars"].index(var)]
        if name not in options:
            raise Violation(f"argmax name {name!r} is not one of {options}")
        valuation[var] = list(options).index(name)
    if len(valuation) != len(f["vars"]) or ref.at(valuation) < max(ref.values.values()) - 1e-9:
        raise Violation(f"argmax_assignment_names gives {names}, which does not maximise the factor")


# ----------------------------------------------------------------------------------------------------------------------
# C06 representations


@st.composite
def view_case(draw):
    uni = draw(anames(draw(D.universe(max_vars=5, max_size=150))))
    f = draw(D.factor_spec(uni=uni, extreme="shift", named=draw(st.booleans())))
    return {"f": f, "order": draw(st.permutations(f["vars"])), "query": draw(st.permutations(f["vars"])),
            "entry": draw(st.integers(0, 10 ** 6)), "delta": draw(st.sampled_from([0.7, -0.7, 3.0, "zero"]))}


@check("C06", "views", view_case(), quick=6000, thorough=120000, weight=2,
       rule="a factor read through every public view; non-trivial: >= 2 variables that are reordered.")
def views_body(case, ctx):
    f = case["f"]
    ref = D.ref_of(f)
    ctx.tag(f["kind"], f.get("how", ""))
    ctx.nontrivial = len(f["vars"]) >= 2 and case["order"] != f["vars"]
    if f.get("default") is not None:
        ctx.tag("finite_default")
    a = D.build(f)
    D.assert_same(D.table_of(a), ref, "construction")
    if a.dim != len(f["vars"]) or list(a.var_names) != f["vars"]:
        raise Violation(f"dim {a.dim} and var_names {a.var_names} for {f['vars']}")

    def check_views(factor, what):
        vrs = list(factor.var_names)
        array = np.asarray(factor.dense_distribution_array)
        seen = set()
        for row in array:
            assignment = tuple(int(x) for x in row[:-1])
            seen.add(assignment)
            if not np.isclose(row[-1], np.exp(ref.at(dict(zip(vrs, assignment)))), rtol=1e-7, atol=0):
                raise Violation(f"{what}: row {row} of the distribution array of {vrs}")
        if len(array) != len(ref.values) or len(seen) != len(ref.values):
            raise Violation(f"{what}: the distribution array has {len(array)} rows for {len(ref.values)} assignments")
        for assignment in ref.assignments():
            valuation = dict(zip(ref.vrs, assignment))
            got = factor.potential(list(case["query"]), [valuation[v] for v in case["query"]])
            if not np.isclose(got, np.exp(ref.values[assignment]), rtol=1e-7, atol=0):
                raise Violation(f"{what}: potential at {valuation} is {got} instead of {np.exp(ref.values[assignment])}")
        lines = [line for line in repr(factor).split("\n") if line]
        if lines[0] != "\t".join(vrs) + "\tprob":
            raise Violation(f"{what}: header {lines[0]!r} of the representation for variables {vrs}")
        shown = {}
        for line in lines[1:]:
            parts = line.split()
            shown[tuple(int(x) for x in parts[:-1])] = float(parts[-1])
        for assignment, value in shown.items():
            expected = float(np.exp(ref.at(dict(zip(vrs, assignment)))))
            if value != expected and abs(value - expected) > 0.5001e-4 + 1e-9 * expected:
                raise Violation(f"{what}: the representation shows {value} at {assignment}, the value is {expected}")
        for assignment in itertools.product(*[range(ref.cards[v]) for v in vrs]):
            explicit = D.is_dense(factor) or assignment in factor.log_probs_table
            if explicit and assignment not in shown:
                raise Violation(f"{what}: assignment {assignment} is missing in the representation")
        if D.is_dense(factor):
            frame = factor.get_df()
            if list(frame.columns) != vrs + ["prob"] or len(frame) != len(ref.values):
                raise Violation(f"{what}: data frame with columns {list(frame.columns)} and {len(frame)} rows")
            for row in frame.itertuples(index=False):
                valuation = {v: int(x) for v, x in zip(vrs, row[:-1])}
                if not np.isclose(row[-1], np.exp(ref.at(valuation)), rtol=1e-7, atol=0):
                    raise Violation(f"{what}: data frame row {tuple(row)}")
            assert_anames(factor, [f], what)

    check_views(a, "factor")
    reordered = a.reorder(list(case["order"]))
    if list(reordered.var_names) != list(case["order"]):
        raise Violation(f"reorder gives {reordered.var_names} instead of {case['order']}")
    D.assert_same(D.table_of(reordered), ref, "reordering")
    check_views(reordered, "reordered factor")
    D.assert_same(D.table_of(a), ref, "the original after reordering")
    copied = a.copy()
    D.assert_same(D.table_of(copied), ref, "copy")
    check_views(copied, "copy")
    D.assert_same(D.table_of(a.joint_distribution), ref, "joint_distribution")


@st.composite
def equality_case(draw):
    case = draw(view_case())
    case["repr2"] = draw(st.sampled_from(["all", "some", "none"]))
    case["how2"] = draw(st.sampled_from(["logs", "probs"]))
    case["extra"] = draw(st.booleans())
    f = case["f"]
    case["twin"] = draw(D.twin(dict(f, names=None), {"names": f["vars"], "cards": f["cards"]}))["vars"]
    return case


@check("C06", "equality", equality_case(), quick=6000, thorough=120000,
       rule="a factor compared with a differently represented (order, table or tensor, implicit or explicit default entries) "
            "version of itself and with one that differs in one entry, the scope or a cardinality; non-trivial: >= 2 variables.")
def equality_body(case, ctx):
    f = case["f"]
    ref = D.ref_of(f)
    ctx.tag(f["kind"])
    ctx.nontrivial = len(f["vars"]) >= 2
    a = D.build(f)
    table = ref.reorder(tuple(case["order"]))
    default2 = f.get("default")
    if f["kind"] == "sparse" and case["extra"]:  # another default value, for the same function
        default2 = [None if x == D.NEG_INF else x for x in table.values.values()][case["entry"] % len(table.values)]
        ctx.tag("other_default")
    g = dict(f, default=default2, vars=list(case["order"]), cards=[ref.cards[v] for v in case["order"]],
             logs=[None if x == D.NEG_INF else x for x in table.values.values()], how=case["how2"], omit=case["repr2"],
             names=None)
    if f.get("names"):
        g["names"] = [f["names"][f["vars"].index(v)] for v in case["order"]]
    if any(x is not None and abs(x) > 600 for x in g["logs"]):
        g["how"] = "logs"
    b = D.build(g)
    for x, y, what in ((a, b, "a == b"), (b, a, "b == a"), (a, a, "a == a"), (a, a.copy(), "a == copy")):
        if not (x == y) or (x != y) or not x.equals(y):
            raise Violation(f"{what} does not hold for two representations of the same function")
    # one entry differs
    entries = list(table.values.items())
    index = case["entry"] % len(entries)
    assignment, value = entries[index]
    if case["delta"] == "zero":
        new = -2.0 if value == D.NEG_INF else D.NEG_INF
    else:
        new = -2.0 if value == D.NEG_INF else value + case["delta"]
    logs = list(g["logs"])
    logs[index] = None if new == D.NEG_INF else new
    c = D.build(dict(g, logs=logs))
    ctx.tag("changed_entry")
    for x, y in ((a, c), (c, a)):
        if x == y or x.equals(y):
            raise Violation(f"factors that differ at {assignment} ({value} and {new}) are equal")
    if not math.isinf(value) and not math.isinf(new):
        size = max(abs(value - new), 1e-3)
        for x, y in ((a, c), (c, a)):
            for rtol, atol, equal in ((0.0, 1.5 * size, True), (0.0, 0.5 * size, False), (0.0, 1e-9, False),
                                      (1.5 * size / max(min(abs(value), abs(new)), 1e-3), 0.0, True),
                                      (0.5 * size / max(abs(value), abs(new), 1e-3), 0.0, False)):
                if rtol and min(abs(value), abs(new)) < 1e-2:
                    continue
                if bool(x.equals(y, rtol=rtol, atol=atol)) != equal:
                    raise Violation(f"factors that differ at {assignment} ({value} and {new}) are {'not ' * equal}equal with "
                                    f"rtol={rtol}, atol={atol}")
    # the same parameters for the variables in another order
    t = dict(f, vars=case.get("twin", f["vars"]))
    if any(not D.close(x, ref.at(dict(zip(t["vars"], k))), atol=0.1) for k, x in D.ref_of(t).values.items()):
        ctx.tag("twin")
        twin = D.build(t)
        if a == twin or twin == a or a.equals(twin) or not a != twin:
            raise Violation(f"the same table over {f['vars']} and {t['vars']} is equal")
    # another scope or cardinality
    other_vars = ["other" if i == 0 else v for i, v in enumerate(g["vars"])]
    d = D.build(dict(g, vars=other_vars))
    if a == d or d == a:
        raise Violation("factors over different variables are equal")
    if len(g["vars"]) >= 1:
        bigger = dict(g, cards=[c_ + 1 if i == 0 else c_ for i, c_ in enumerate(g["cards"])], names=None)
        block = len(g["logs"]) // g["cards"][0]
        bigger["logs"] = list(g["logs"]) + [g.get("default")] * block
        e = D.build(bigger)
        if a == e or e == a:
            raise Violation("factors with different cardinalities are equal")


# ----------------------------------------------------------------------------------------------------------------------
# C07 histories


@st.composite
def history_case(draw):
    uni = draw(D.universe(min_vars=2, max_vars=5, max_card=3, max_size=110))
    n = draw(st.integers(2, 4))
    factors = [draw(D.factor_over(uni, draw(D.scope_of(uni, 1, 3)), kind="sparse", finite_default=draw(st.booleans()),
                               extreme="shift")) for _ in range(n)]
    if draw(st.integers(0, 3)) == 3:
        factors[-1] = draw(D.twin(factors[0], uni))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(["multiply", "multiply", "cancel_own", "cancel_any", "marginalize", "reduce", "reorder", "normalize",
                         "copy", "divide"]),
        st.integers(0, 30), st.integers(0, 30), st.integers(0, 2 ** 10 - 1)), min_size=1, max_size=12))
    return {"factors": factors, "ops": [list(o) for o in ops]}


@check("C07", "histories", history_case(), quick=6000, thorough=150000, weight=2,
       rule="the same history of up to 12 operations on dense factors, sparse factors and reference tables, with every pool "
            "entry compared after every step; non-trivial: >= 3 effective steps, including a product and a marginalisation, "
            "reduction or division.")
def history_body(case, ctx):
    pool = []
    for k, spec in enumerate(case["factors"]):
        ref = D.ref_of(spec)
        dense = D.build({"kind": "dense", "vars": spec["vars"], "cards": spec["cards"], "logs": spec["logs"], "how": "logs",
                         "layout": ["C", "F", "view", "reversed"][(k + len(case["ops"])) % 4]})
        pool.append((ref, dense, D.build(spec)))
    done = []
    for op, i, j, bits in case["ops"]:
        ref, dense, sparse = pool[i % len(pool)]
        ref2, dense2, sparse2 = pool[j % len(pool)]
        vrs = list(ref.vrs)
        if op == "multiply":
            if len(set(ref.vrs) | set(ref2.vrs)) > 5:
                continue
            new = (ref.multiply(ref2), dense.multiply(dense2), sparse.multiply(sparse2))
        elif op == "cancel_own":
            keep = [v for k, v in enumerate(vrs) if (bits >> k) & 1]
            new = (ref.cancel(ref.marginal(keep)), dense.cancel(dense.marginalize(keep)),
                   sparse.cancel(sparse.marginalize(keep)))
        elif op in ("cancel_any", "divide"):
            quotient = ref.cancel(ref2) if op == "cancel_any" else ref.divide(ref2)
            if any(math.isnan(x) or x == math.inf for x in quotient.values.values()):
                continue
            if op == "divide" and sparse.default_log_prob != sparse2.default_log_prob:
                continue
            if op == "cancel_any":
                new = (quotient, dense.cancel(dense2), sparse.cancel(sparse2))
            else:
                new = (quotient, dense.divide(dense2), sparse.divide(sparse2))
        elif op == "marginalize":
            subset = [v for k, v in enumerate(vrs) if (bits >> k) & 1]
            keep = bool(bits & 512)
            kept = subset if keep else [v for v in vrs if v not in subset]
            new = (ref.marginal(kept), dense.marginalize(subset, keep=keep), sparse.marginalize(subset, keep=keep))
        elif op == "reduce":
            subset = [v for k, v in enumerate(vrs) if (bits >> k) & 1]
            values = [(bits >> (5 + k)) % ref.cards[v] for k, v in enumerate(subset)]
            new = (ref.reduce(dict(zip(subset, values))), dense.reduce(subset, values), sparse.reduce(subset, values))
        elif op == "reorder":
            order = sorted(vrs, key=lambda v: ((vrs.index(v) * (2 * bits + 1) + bits) % 7, v))
            new = (ref.reorder(tuple(order)), dense.reorder(list(order)), sparse.reorder(list(order)))
        elif op == "normalize":
            if ref.all_zero():
                continue
            new = (ref.normalized(), dense.normalize(), sparse.normalize())
        else:
            new = (ref, dense.copy(), sparse.copy())
        finite = [abs(x) for x in new[0].values.values() if not math.isinf(x)]
        if finite and max(finite) > 6000:
            continue
        done.append(op)
        pool.append(new)
        for k, (r, d, s) in enumerate(pool):
            if k < len(pool) - 1 and len(pool) > 6 and k % 3 != len(pool) % 3:
                continue
            D.assert_same(D.table_of(d), r, f"dense factor {k} after {done}")
            D.assert_same(D.table_of(s), r, f"sparse factor {k} after {done}")
        r, d, s = pool[-1]
        if not r.all_zero():
            if not close_div(float(d.distance_from_vacuous()), float(s.distance_from_vacuous())):
                raise Violation(f"dense and sparse distance_from_vacuous differ after {done}")
    ctx.tag(*set(done))
    ctx.nontrivial = len(done) >= 3 and "multiply" in done and bool(
        {"marginalize", "reduce", "cancel_own", "cancel_any", "divide"} & set(done))


# ----------------------------------------------------------------------------------------------------------------------
# C01, C03 - C05: sparse factors over many variables (no dense table of these can exist)


@st.composite
def sparse_wide_case(draw):
    n = draw(st.sampled_from([12, 30, 45, 70]))
    cards = [draw(st.sampled_from([2, 3, 10, 1000])) for _ in range(n)]
    centre = [draw(st.integers(0, c - 1)) for c in cards]

    def entries(scope):
        chosen = {}
        for _ in range(draw(st.integers(1, 12))):
            assignment = [centre[i] for i in scope]
            for k in draw(st.lists(st.integers(0, len(scope) - 1), max_size=4)):
                assignment[k] = (assignment[k] + draw(st.integers(1, 3))) % cards[scope[k]]
            chosen[tuple(assignment)] = draw(st.sampled_from([0.0, -1.0, 2.5, -30.0, -700.0, 4.0, 0.5]))
        return [[list(a), x] for a, x in chosen.items()]

    def factor(low):
        scope = draw(st.permutations(range(n)))[:draw(st.integers(low, n))]
        if draw(st.booleans()):
            scope = sorted(scope)
        return {"scope": list(scope), "entries": entries(scope)}

    f = factor(8)
    return {"cards": cards, "f": f, "g": factor(1), "vars": draw(st.lists(st.integers(0, n - 1), max_size=n)),
            "keep": draw(st.booleans()), "values": centre, "off": draw(st.integers(0, 20))}


def sparse_build(case, spec, default=-math.inf):
    from veroku.factors.sparse_categorical import SparseCategorical

    return SparseCategorical(var_names=[f"v{i}" for i in spec["scope"]], cardinalities=[case["cards"][i] for i in spec["scope"]],
                             log_probs_table={tuple(a): x for a, x in spec["entries"]}, default_log_prob=default)


def sparse_read(factor, case, scope, what):
    """The entries of a sparse factor as a dictionary from assignments to the variables of a scope (in order)."""
    names = [f"v{i}" for i in scope]
    if sorted(factor.var_names) != sorted(names):
        raise Violation(f"{what}: the scope is {factor.var_names} instead of {names}")
    if any(factor.var_cards[f"v{i}"] != case["cards"][i] for i in scope):
        raise Violation(f"{what}: wrong cardinalities {factor.var_cards}")
    if factor.default_log_prob != -math.inf:
        raise Violation(f"{what}: the default log value is {factor.default_log_prob}")
    index = [factor.var_names.index(v) for v in names]
    return {tuple(a[i] for i in index): float(x) for a, x in factor.log_probs_table.items() if x != -math.inf}


def sparse_same(got, want, what):
    if set(got) != set(want):
        raise Violation(f"{what}: the entries are at {sorted(got)} instead of {sorted(want)}")
    for assignment, value in want.items():
        if not D.close(got[assignment], value):
            raise Violation(f"{what}: the value at {assignment} is {got[assignment]} instead of {value}")


def sparse_group(items):
    groups = {}
    for assignment, value in items:
        groups.setdefault(assignment, []).append(value)
    return {a: D.log_sum_exp(x) for a, x in groups.items()}


SPARSE_WIDE = ("sparse factors over 8 to 70 variables (cardinalities 2 to 1000) with 1 to 12 entries near a common assignment; "
               "non-trivial: ")


@check("C01", "many_variables", sparse_wide_case(), quick=400, thorough=15000, rule=SPARSE_WIDE + "the product has an entry.")
def sparse_wide_product(case, ctx):
    f, g = case["f"], case["g"]
    scope = f["scope"] + [i for i in g["scope"] if i not in f["scope"]]
    want = {}
    for a, x in f["entries"]:
        for b, y in g["entries"]:
            va, vb = dict(zip(f["scope"], a)), dict(zip(g["scope"], b))
            if all(vb[i] == va[i] for i in vb if i in va):
                want[tuple({**va, **vb}[i] for i in scope)] = x + y
    ctx.nontrivial = bool(want)
    a, b = sparse_build(case, f), sparse_build(case, g)
    sparse_same(sparse_read(a * b, case, scope, "the product"), want, "the product")
    sparse_same(sparse_read(b.multiply(a), case, scope, "the product"), want, "the reverse product")
    sparse_same(sparse_read(a, case, f["scope"], "the operand"), {tuple(k): x for k, x in f["entries"]}, "the operand")


@check("C03", "many_variables", sparse_wide_case(), quick=400, thorough=15000, rule=SPARSE_WIDE + "entries are added up.")
def sparse_wide_marginal(case, ctx):
    f = case["f"]
    chosen = list(dict.fromkeys(i for i in case["vars"] if i in f["scope"]))
    keep = chosen if case["keep"] else [i for i in f["scope"] if i not in chosen]
    if not keep or not chosen:
        return
    index = [f["scope"].index(i) for i in keep]
    want = sparse_group((tuple(a[i] for i in index), x) for a, x in f["entries"])
    ctx.nontrivial = len(want) < len(f["entries"])
    factor = sparse_build(case, f)
    result = factor.marginalize([f"v{i}" for i in chosen], keep=case["keep"])
    sparse_same(sparse_read(result, case, keep, "the marginal"), want, "the marginal")


@check("C04", "many_variables", sparse_wide_case(), quick=400, thorough=15000, rule=SPARSE_WIDE + "some entries agree with the evidence.")
def sparse_wide_reduce(case, ctx):
    f = case["f"]
    chosen = list(dict.fromkeys(i for i in case["vars"] if i in f["scope"]))
    if not chosen or len(chosen) == len(f["scope"]):
        return
    values = {i: case["values"][i] for i in chosen}
    if case["off"] == 0:
        values[chosen[0]] = (values[chosen[0]] + 1) % case["cards"][chosen[0]]
    rest = [i for i in f["scope"] if i not in values]
    want = {}
    for a, x in f["entries"]:
        at = dict(zip(f["scope"], a))
        if all(at[i] == v for i, v in values.items()):
            want[tuple(at[i] for i in rest)] = x
    ctx.nontrivial = bool(want)
    result = sparse_build(case, f).reduce([f"v{i}" for i in values], list(values.values()))
    sparse_same(sparse_read(result, case, rest, "the reduced factor"), want, "the reduced factor")


@check("C05", "many_variables", sparse_wide_case(), quick=400, thorough=15000, rule=SPARSE_WIDE + "two or more entries.")
def sparse_wide_measures(case, ctx):
    f = case["f"]
    ctx.nontrivial = len(f["entries"]) >= 2
    factor = sparse_build(case, f)
    entries = {tuple(a): x for a, x in f["entries"]}
    total = D.log_sum_exp(list(entries.values()))
    sparse_same(sparse_read(factor.normalize(), case, f["scope"], "normalised"), {a: x - total for a, x in entries.items()}, "normalised")
    if not math.isclose(factor.weight, math.exp(total), rel_tol=1e-9):
        raise Violation(f"the weight is {factor.weight} instead of {math.exp(total)}")
    best = tuple(factor.argmax())
    if entries.get(best) != max(entries.values()):
        raise Violation(f"argmax gives {best} with {entries.get(best)}, the largest value is {max(entries.values())}")
    if not factor.equals(factor.copy()):
        raise Violation("a sparse factor does not equal its copy")
    changed = [[a, x + (1.0 if i == case["off"] % len(f["entries"]) else 0.0)] for i, (a, x) in enumerate(f["entries"])]
    other = sparse_build(case, dict(f, entries=changed))
    if factor.equals(other) or other.equals(factor):
        raise Violation("sparse factors with different values are equal")
    for defaults in ((-1.0, -2.0), (-math.inf, -1.0)):
        x, y = [sparse_build(case, f, default) for default in defaults]
        if x.equals(y) or y.equals(x) or x == y:
            raise Violation(f"sparse factors with the default log values {defaults} are equal")
