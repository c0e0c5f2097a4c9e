"""
X02: factors made from templates against factors built directly from the same parameters.
"""
import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.gaussian import linear_ref, make_linear
from harness.checks.nonlinear import make_transform, transform_for
from harness.checks.purity import ensure_same, read, spoil_array, vandalise
from harness.core import Violation, check, prop

prop("X02", [
    "Format strings are built from literal text, named fields (optionally zero padded integers) and escaped braces; a template "
    "is made with a format dictionary or with explicit variable names.",
])

FIELDS = ["i", "j", "time", "n_1"]
KINDS = ["dense_table", "dense_tensor", "sparse", "gaussian", "linear_cpd", "nlg"]
MEANS = [0, 1, -1, 2, 0.5]
SCALES = (1, 1, 0.1, 10)


@st.composite
def var_template(draw, stem):
    """A list of [kind, text] segments, starting with a stem that makes the formatted names unique."""
    segments = [["text", stem]]
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["field", "field", "text", "pad", "brace"]))
        text = draw(st.sampled_from(FIELDS if kind in ("field", "pad") else ["_", ",", " ", "x"]))
        segments.append([kind, text])
    return segments


def source_of(segments):
    pieces = {"text": "{0}", "field": "{{{0}}}", "pad": "{{{0}:03d}}", "brace": "{{{{{0}}}}}"}
    return "".join(pieces[kind].format(text) for kind, text in segments)


def formatted(segments, values):
    result = ""
    for kind, text in segments:
        if kind in ("field", "pad"):
            value = values[text]
            result += str(value).zfill(3) if kind == "pad" else str(value)
        else:
            result += "{" + text + "}" if kind == "brace" else text
    return result


def fields_of(segment_lists):
    return {text for segments in segment_lists for kind, text in segments if kind in ("field", "pad")}


@st.composite
def template_case(draw):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(2 if kind in ("linear_cpd", "nlg") else 1, 3))
    stems = draw(st.permutations(["a", "b", "c_", "X", "var "]))[:n]
    case = {"kind": kind, "templates": [draw(var_template(s)) for s in stems]}
    uni = {"names": [f"v{i}" for i in range(n)], "cards": [draw(st.sampled_from([2, 3, 1])) for _ in range(n)]}
    if kind in ("dense_table", "dense_tensor", "sparse"):
        spec = draw(D.factor_over(uni, list(range(n)), kind="sparse" if kind == "sparse" else "dense", finite_default=False))
        spec["how"] = "logs" if kind == "dense_tensor" else "probs"
        spec["logs"] = [x if x is None else max(-30.0, min(30.0, x)) for x in spec["logs"]]
        case["spec"] = spec
    elif kind == "gaussian":
        case["spec"] = draw(st.one_of(Q.gaussian_over(uni["names"], scales=SCALES, means=MEANS), Q.improper_over(uni["names"])))
    else:
        nx = draw(st.integers(1, n - 1))
        case["nx"] = nx
        case["N"] = draw(Q.covariance(n - nx, SCALES)).tolist()
        if kind == "linear_cpd":
            case["A"] = [[draw(st.sampled_from([1, 0, -1, 2, 0.5])) for _ in range(nx)] for _ in range(n - nx)]
        else:
            case["transform"] = draw(transform_for(nx, n - nx, False))
            case["inputs"] = draw(Q.gaussian_over(uni["names"][:nx], scales=SCALES, means=MEANS))
    values = [0, 1, 7, 12, 123]
    case["formats"] = []
    for _ in range(draw(st.integers(1, 3))):
        case["formats"].append({f: draw(st.sampled_from(values)) for f in FIELDS})
    case["drop"] = draw(Q.subset(FIELDS, low=0))
    case["explicit"] = draw(st.booleans())
    case["positional"] = draw(st.sampled_from([None, None, None, "{}", "{0}", "{1}"]))
    case["strings"] = draw(st.booleans())
    case["spoil"] = draw(st.sampled_from(["factor", "inputs", "both"]))
    return case


def make_template(case):
    """
    :return: the template and the function that changes its inputs in place.
    """
    from veroku.factors.categorical import CategoricalTemplate
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianTemplate
    from veroku.factors.gaussian import GaussianTemplate, make_linear_gaussian_cpd_template
    from veroku.factors.sparse_categorical import SparseCategoricalTemplate

    kind = case["kind"]
    sources = [source_of(t) for t in case["templates"]]
    if kind in ("dense_table", "dense_tensor", "sparse"):
        spec = case["spec"]
        cards = list(spec["cards"])
        tensor = np.array([D.decode(x) for x in spec["logs"]], dtype=float).reshape(cards)
        table = {a: float(np.exp(tensor[a])) for a in np.ndindex(*tensor.shape) if np.isfinite(tensor[a])}
        if kind == "dense_tensor":
            template = CategoricalTemplate(var_templates=sources, log_probs_tensor=tensor)
        elif kind == "dense_table":
            template = CategoricalTemplate(var_templates=sources, probs_table=table, cardinalities=cards)
        else:
            template = SparseCategoricalTemplate(var_templates=sources, probs_table=table, cardinalities=cards)

        def spoil():
            spoil_array(tensor)
            for key in list(table):
                table[key] = 0.125
            table[tuple([0] * len(cards))] = 0.75
            cards[0] += 1
            sources[0] = "vandal"
        return template, spoil
    if kind == "gaussian":
        ref = Q.ref_of(case["spec"])
        K, h = ref.K.copy(), ref.h.reshape(-1, 1).copy()
        parameters = {"prec": K, "h": h, "g": ref.g}
        template = GaussianTemplate(parameters, sources)

        def spoil():
            spoil_array(K)
            spoil_array(h)
            parameters["g"] = 99.0
            sources[0] = "vandal"
        return template, spoil
    x, y = sources[:case["nx"]], sources[case["nx"]:]
    noise = np.array(case["N"], dtype=float)
    if kind == "linear_cpd":
        a_mat = np.array(case["A"], dtype=float)
        template = make_linear_gaussian_cpd_template(a_mat, noise, x, y)

        def spoil():
            spoil_array(a_mat)
            spoil_array(noise)
            x[0] = "vandal"
            y[0] = "vandal"
        return template, spoil
    template = NonLinearGaussianTemplate(x, y, make_transform(dict(case["transform"], named=False), None), noise)

    def spoil_nlg():
        spoil_array(noise)
        x[0] = "vandal"
        y[0] = "vandal"
    return template, spoil_nlg


def direct(case, names):
    """
    The factor that is built directly, and what it should be.
    """
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

    kind = case["kind"]
    if kind in ("dense_table", "dense_tensor", "sparse"):
        return D.build(dict(case["spec"], vars=names))
    if kind == "gaussian":
        ref = Q.ref_of(case["spec"])
        return Q.build({"vars": names, "K": ref.K.tolist(), "h": ref.h.tolist(), "g": ref.g})
    x, y = names[:case["nx"]], names[case["nx"]:]
    if kind == "linear_cpd":
        return make_linear({"A": case["A"], "N": case["N"], "x": x, "y": y, "template": False})
    return NonLinearGaussian(x, y, make_transform(dict(case["transform"], named=False), None), np.array(case["N"], dtype=float))


def confirm(case, factor, names, what):
    kind = case["kind"]
    if list(factor.var_names) != names:
        raise Violation(f"{what}: the variables are {factor.var_names} instead of {names}")
    if type(factor) is not type(direct(case, names)):
        raise Violation(f"{what}: the factor is a {type(factor).__name__}")
    if kind in ("dense_table", "dense_tensor", "sparse"):
        D.assert_same(D.table_of(factor), D.ref_of(dict(case["spec"], vars=names)), what)
    elif kind == "gaussian":
        ref = Q.ref_of(case["spec"])
        Q.assert_quad(factor, Q.Quad(names, ref.K, ref.h, ref.g), what)
    elif kind == "linear_cpd":
        ref = linear_ref(names[:case["nx"]], names[case["nx"]:], case["A"], case["N"])
        Q.assert_quad(factor, ref, what)
    else:
        inputs = dict(case["inputs"], vars=names[:case["nx"]])
        ensure_same(read(direct(case, names).multiply(Q.build(inputs))), read(factor.multiply(Q.build(inputs))), what)
    ensure_same(read(direct(case, names)), read(factor), what)


@check("X02", "templates", template_case(), quick=4000, thorough=80000,
       rule="a template of one of six kinds with drawn format strings and parameters makes one to three factors, of which the "
            "first (or the template's inputs) is then changed in place; also the formattable test for dictionaries with and "
            "without all the fields; non-trivial: a template with a field.")
def templates_body(case, ctx):
    kind = case["kind"]
    template, spoil = make_template(case)
    needed = fields_of(case["templates"])
    ctx.tag(kind)
    ctx.nontrivial = bool(needed)
    conditional = kind == "nlg"

    def values_of(i):
        values = case["formats"][i % len(case["formats"])]
        return values

    def make(i):
        values = values_of(i)
        names = [formatted(t, values) for t in case["templates"]]
        if case["explicit"] and i % 2 == 1:
            if conditional:
                return template.make_factor(conditioning_vars=names[:case["nx"]], conditional_vars=names[case["nx"]:]), names
            return template.make_factor(var_names=list(names)), names
        given = dict(values)
        if case["strings"] and not any(k == "pad" for t in case["templates"] for k, _ in t):
            given = {k: str(v) for k, v in values.items()}
        return template.make_factor(format_dict=given), names

    made = [make(i) for i in range(3)]
    for i, (factor, names) in enumerate(made):
        confirm(case, factor, names, f"factor {i} of the template")

    # which dictionaries can format the template
    values = {k: v for k, v in values_of(0).items() if k not in case["drop"]}
    possible = needed <= set(values)
    ctx.tag("formattable" if possible else "missing_field")
    answer = template.formattable(values)
    if bool(answer) != possible:
        raise Violation(f"formattable({values}) is {answer} for {[source_of(t) for t in case['templates']]}")
    if not possible:
        try:
            factor = template.make_factor(format_dict=values)
        except Exception:  # pylint: disable=broad-except
            factor = None
        if factor is not None:
            raise Violation(f"a factor was made without the fields {sorted(needed - set(values))}: {factor.var_names}")
    if template.formattable({}) != (not needed):
        raise Violation(f"formattable({{}}) is {template.formattable({})} for {[source_of(t) for t in case['templates']]}")

    # positional fields can never be filled in
    if case.get("positional") is not None:
        from veroku.factors.categorical import CategoricalTemplate

        field = CategoricalTemplate(var_templates=["v" + case["positional"]], probs_table={(0,): 1.0}, cardinalities=[1])
        if field.formattable(values):
            raise Violation(f"formattable({values}) is true for ['v{case['positional']}']")

    # independence
    if case["spoil"] in ("factor", "both"):
        vandalise(made[0][0])
    if case["spoil"] in ("inputs", "both"):
        spoil()
    for i, (factor, names) in enumerate(made[1:]):
        confirm(case, factor, names, f"factor {i + 1} of the template after changing {case['spoil']} in place")
    for i in (0, 1):
        factor, names = make(i)
        confirm(case, factor, names, f"factor {i} made after changing {case['spoil']} in place")
