"""
X03: single corruptions of valid constructor arguments and operands must be rejected with an exception.
"""
import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks.mixture import mixture_over
from harness.core import Violation, check, prop

prop("X03", [
    "The corruptions are those of the list KINDS in harness/checks/rejection.py; any exception counts as a rejection. Each case "
    "also runs the same call without the corruption, which has to be accepted.",
    "Not claimed: the assignments (keys) of the tables of categorical factors, which are not validated completely (a TODO of the "
    "code), and variables in reduce or marginalize of categorical factors that are not in their scope.",
])

SCALES = (1, 1, 0.1, 10)
MEANS = [0, 1, -1, 2, 0.5]

KINDS = {
    "discrete": ["duplicate_vars", "cards_length", "tensor_dimension", "no_parameters", "no_cardinalities", "table_index",
                 "names_length", "names_count", "names_duplicate", "reorder", "type", "cards_conflict", "names_conflict",
                 "potential_vars", "divide_defaults", "equals_type"],
    "gaussian": ["duplicate_vars", "no_names", "incomplete", "matrix_dimension", "vector_dimension", "not_square", "flat_matrix",
                 "scalar_length", "equals_type", "reduce_outside", "potential_vars", "potential_length", "ragged"],
    "other": ["mixture_empty", "mixture_names", "mixture_type", "mixture_equals", "factorised_nested", "factorised_disjoint",
              "factorised_all", "nlg_overlap", "nlg_noise", "nlg_both", "nlg_scope", "nlg_type", "nlg_transform",
              "nlg_marginal", "nlgm_empty", "nlgm_type", "nlgm_names", "graph_marginal", "template_sides"],
}


@st.composite
def rejection_case(draw, group):
    kind = draw(st.sampled_from(KINDS[group]))
    case = {"kind": kind, "group": group, "pick": draw(st.integers(0, 11)), "pick2": draw(st.integers(0, 11))}
    if group == "discrete":
        uni = draw(D.universe(min_vars=2, max_vars=4, max_card=3))
        uni["anames"] = [D.ASSIGNMENT_NAMES[:c] for c in uni["cards"]]
        factor_kind = draw(st.sampled_from(["dense", "sparse"]))
        if kind in ("tensor_dimension", "no_cardinalities", "table_index", "names_length", "names_count", "names_duplicate",
                    "names_conflict"):
            factor_kind = "dense"
        if kind == "divide_defaults":
            factor_kind = "sparse"
        low = 2 if kind == "names_count" else 1
        a = draw(D.scope_of(uni, min_size=low))
        rest = [i for i in range(len(uni["names"])) if i not in a]
        others = rest if draw(st.booleans()) else [i for i in range(len(uni["names"])) if i != a[case["pick"] % len(a)]]
        b = draw(st.permutations([a[case["pick"] % len(a)]] + draw(Q.subset(others))))
        case["f"] = draw(D.factor_over(uni, a, kind=factor_kind, zeros=False, finite_default=False))
        case["g"] = draw(D.factor_over(uni, b, kind=factor_kind, zeros=False, finite_default=False))
        case["shared"] = uni["names"][a[case["pick"] % len(a)]]
        case["operation"] = draw(st.sampled_from(["multiply", "divide", "cancel"]))
    else:
        vrs = draw(Q.names(2, 5))
        n = draw(st.integers(1, len(vrs) - 1))
        case["x"], case["y"] = vrs[:n], vrs[n:]
        case["f"] = draw(Q.gaussian_over(case["x"], scales=SCALES, means=MEANS))
        case["f"]["style"] = "array" if case["f"]["style"] == "scalar" else case["f"]["style"]
        case["g"] = draw(Q.gaussian_over(case["y"], scales=SCALES, means=MEANS))
        case["mix"] = draw(mixture_over(case["x"], 1, 3, far=False))
        case["operation"] = draw(st.sampled_from(["multiply", "divide"]))
    return case


def other_type(case):
    """A factor of another type over the same variables."""
    vrs = case["f"]["vars"]
    if case["group"] == "discrete":
        kind = {"dense": "sparse", "sparse": "dense"}[case["f"]["kind"]]
        if case["pick"] % 2:
            n = len(vrs)
            return Q.build({"vars": vrs, "cov": np.eye(n).tolist(), "mean": [0.0] * n, "lw": 0.0})
        flat = [0.5] * int(np.prod(case["f"]["cards"]))
        return D.build({"kind": kind, "vars": vrs, "cards": case["f"]["cards"], "logs": flat, "how": "logs"})
    cards = [2] * len(vrs)
    return D.build({"kind": ["dense", "sparse"][case["pick"] % 2], "vars": vrs, "cards": cards,
                    "logs": [0.5] * int(np.prod(cards)), "how": "logs"})


def wrong_names(vrs, pick):
    """Another set of names."""
    options = [vrs[:-1], vrs + ["other"], vrs[:-1] + ["other"]]
    return options[pick % 3]


def discrete_calls(case):
    """
    :return: the call without and with the corruption.
    """
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    kind, f, g, pick = case["kind"], case["f"], case["g"], case["pick"]
    vrs, cards = list(f["vars"]), list(f["cards"])
    tensor = np.array([D.decode(x) for x in f["logs"]], dtype=float).reshape(cards)
    table = {a: float(np.exp(max(-30.0, min(30.0, tensor[a])))) for a in np.ndindex(*tensor.shape)}
    cls = Categorical if f["kind"] == "dense" else SparseCategorical

    def make(**kwargs):
        return cls(**kwargs)

    def from_table(names=vrs, cardinalities=cards, values=table, **kwargs):
        return make(var_names=list(names), cardinalities=list(cardinalities), probs_table=dict(values), **kwargs)

    if kind == "duplicate_vars":
        two = vrs + ["extra"] if len(vrs) == 1 else list(vrs)
        two_cards = cards + [2] if len(vrs) == 1 else cards
        values = {a + ((0,) if len(vrs) == 1 else ()): p for a, p in table.items()}
        bad = list(two)
        i = pick % len(two)
        bad[i] = two[(i + 1) % len(two)]
        if f["kind"] == "dense" and case["pick2"] % 2:
            array = np.zeros(two_cards)
            return lambda: make(var_names=two, log_probs_tensor=array), lambda: make(var_names=bad, log_probs_tensor=array)
        return lambda: from_table(two, two_cards, values), lambda: from_table(bad, two_cards, values)
    if kind == "cards_length":
        bad = cards[:-1] if pick % 2 else cards + [2]
        return from_table, lambda: from_table(vrs, bad)
    if kind == "tensor_dimension":
        bad = tensor.reshape(cards + [1]) if pick % 2 else tensor.reshape([1] + cards)
        if pick % 3 == 0 and len(cards) > 1:
            bad = tensor.ravel()
        return lambda: make(var_names=vrs, log_probs_tensor=tensor), lambda: make(var_names=vrs, log_probs_tensor=bad)
    if kind == "no_parameters":
        return from_table, lambda: make(var_names=vrs, cardinalities=cards)
    if kind == "no_cardinalities":
        return from_table, lambda: make(var_names=vrs, probs_table=table) if pick % 2 else make(var_names=vrs)
    if kind == "table_index":
        i = pick % len(cards)
        bad = dict(table)
        key = [0] * len(cards)
        key[i] = cards[i] + case["pick2"] % 2
        bad[tuple(key)] = 0.5
        return from_table, lambda: from_table(values=bad)
    names = [D.ASSIGNMENT_NAMES[:c] for c in cards]
    if kind.startswith("names_") and kind != "names_conflict":
        i = pick % len(cards)
        bad = [list(x) for x in names]
        if kind == "names_length":
            bad = bad[:-1] if case["pick2"] % 2 else bad + [["yes"]]
        elif kind == "names_count":
            bad[i] = bad[i] + ["more"] if case["pick2"] % 2 or len(bad[i]) == 1 else bad[i][:-1]
        else:
            bad[i] = [bad[i][0]] * len(bad[i]) if len(bad[i]) > 1 else [bad[i][0], bad[i][0] + "2"]
        return lambda: from_table(variables_assignment_names=names), lambda: from_table(variables_assignment_names=bad)
    factor, other = D.build(f), D.build(g)
    if kind == "reorder":
        bad = wrong_names(vrs, case["pick2"])
        return lambda: factor.reorder(list(reversed(vrs))), lambda: factor.reorder(bad)
    if kind == "type":
        return lambda: getattr(factor, case["operation"])(other), lambda: getattr(factor, case["operation"])(other_type(case))
    if kind == "equals_type":
        return lambda: factor.equals(factor.copy()), lambda: factor.equals(other_type(case))
    if kind == "potential_vars":
        bad = wrong_names(vrs, case["pick2"])
        return lambda: factor.potential(vrs, [0] * len(vrs)), lambda: factor.potential(bad, [0] * len(bad))
    if kind == "cards_conflict":
        i = g["vars"].index(case["shared"])
        bad_cards = list(g["cards"])
        bad_cards[i] += 1 + pick % 2
        bad_spec = dict(g, cards=bad_cards, logs=[0.25] * int(np.prod(bad_cards)), how="logs")
        return (lambda: getattr(factor, case["operation"])(other)), (lambda: getattr(factor, case["operation"])(D.build(bad_spec)))
    if kind == "names_conflict":
        named = [D.ASSIGNMENT_NAMES[:c] for c in g["cards"]]
        i = g["vars"].index(case["shared"])
        bad_names = [list(x) for x in named]
        if case["pick2"] % 2 and len(bad_names[i]) > 1:
            bad_names[i] = bad_names[i][1:] + bad_names[i][:1]
        else:
            bad_names[i][-1] = "another"
        mine = D.build(dict(f, names=names))
        good, bad = D.build(dict(g, names=named)), D.build(dict(g, names=bad_names))
        return (lambda: getattr(mine, case["operation"])(good)), (lambda: getattr(mine, case["operation"])(bad))
    assert kind == "divide_defaults"
    one = SparseCategorical(var_names=vrs, cardinalities=cards, probs_table=table, default_log_prob=-1.0)
    same = SparseCategorical(var_names=vrs, cardinalities=cards, probs_table=table, default_log_prob=-1.0)
    two = SparseCategorical(var_names=vrs, cardinalities=cards, probs_table=table, default_log_prob=-2.0)
    return (lambda: one.divide(same)), (lambda: one.divide(two))


def gaussian_calls(case):
    from veroku.factors.gaussian import Gaussian

    kind, f, pick, pick2 = case["kind"], case["f"], case["pick"], case["pick2"]
    vrs = list(f["vars"])
    n = len(vrs)
    ref = Q.ref_of(f)
    if f["form"] == "cov":
        names = ["cov", "mean", "log_weight"]
        values = [np.array(f["cov"], dtype=float), np.array(f["mean"], dtype=float).reshape(-1, 1), float(f["lw"])]
    else:
        names = ["prec", "h_vec", "g_val"]
        values = [ref.K, ref.h.reshape(-1, 1), float(ref.g)]
    good = dict(zip(names, values))

    def as_given(parameters):
        if f["style"] == "list":
            return {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in parameters.items()}
        return parameters

    def make(var_names=vrs, **changes):
        parameters = as_given({**good, **changes})
        return Gaussian(var_names=var_names, **{k: v for k, v in parameters.items() if v is not None})

    if kind == "duplicate_vars":
        m = n + 1
        matrix, vector = np.eye(m), np.zeros((m, 1))
        bad = vrs + [vrs[pick % n]]
        return (lambda: make(vrs + ["extra"], **{names[0]: matrix, names[1]: vector})), \
               (lambda: make(bad, **{names[0]: matrix, names[1]: vector}))
    if kind == "no_names":
        return make, lambda: make(var_names=None)
    if kind == "incomplete":
        missing = {name: None for i, name in enumerate(names) if (pick % 7 + 1) >> i & 1}
        return make, lambda: make(**missing)
    if kind == "matrix_dimension":
        m = n + 1 if pick % 2 or n == 1 else n - 1
        return make, lambda: make(**{names[0]: np.eye(m)})
    if kind == "vector_dimension":
        m = n + 1 if pick % 2 or n == 1 else n - 1
        return make, lambda: make(**{names[1]: np.zeros((m, 1))})
    if kind == "not_square":
        shape = (n, n + 1) if pick % 2 else (n + 1, n)
        return make, lambda: make(**{names[0]: np.ones(shape)})
    if kind == "flat_matrix":
        m = max(2, n)
        bad = np.ones(m) if pick % 2 else np.ones((m, m, m))
        return make, lambda: make(**{names[0]: bad})
    if kind == "ragged":
        bad = np.ones((n, n)).tolist()
        bad[pick % n] = bad[pick % n] + [1.0]
        return make, lambda: Gaussian(var_names=vrs, **{**as_given(good), names[0]: bad})
    if kind == "scalar_length":
        bad = [0.0, 1.0] if pick % 2 else np.array([0.0, 1.0])
        return make, lambda: Gaussian(var_names=vrs, **{**as_given(good), names[2]: bad})
    factor = Q.build(f)
    if kind == "equals_type":
        return (lambda: factor.equals(factor.copy())), (lambda: factor.equals(other_type(case)))
    if kind == "reduce_outside":
        return (lambda: factor.reduce(vrs[:1], [0.5])), (lambda: factor.reduce(["outside"] if pick % 2 else vrs[:1] + ["outside"],
                                                                              [0.5] if pick % 2 else [0.5, 1.0]))
    call = factor.log_potential
    if kind == "potential_vars":
        bad = wrong_names(vrs, pick2)
        return (lambda: call([0.5] * n, vrs=vrs)), (lambda: call([0.5] * len(bad), vrs=bad))
    assert kind == "potential_length"
    m = n + 1 if pick2 % 2 or n == 1 else n - 1
    return (lambda: call([0.5] * n, vrs=vrs)), (lambda: call([0.5] * m, vrs=vrs))


def other_calls(case):
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors._factor_template import FactorTemplate
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianMixture

    kind, pick, pick2 = case["kind"], case["pick"], case["pick2"]
    x, y = list(case["x"]), list(case["y"])
    f, g = Q.build(case["f"]), Q.build(case["g"])
    parts = [Q.build(s) for s in case["mix"]]

    if kind == "mixture_empty":
        return (lambda: GaussianMixture(parts)), (lambda: GaussianMixture([]))
    if kind == "mixture_names":
        bad = parts + [g]
        if pick % 2:
            bad.reverse()
        return (lambda: GaussianMixture(parts)), (lambda: GaussianMixture(bad))
    mixture = GaussianMixture(parts)
    if kind == "mixture_type":
        return (lambda: getattr(mixture, case["operation"])(f)), (lambda: getattr(mixture, case["operation"])(other_type(case)))
    if kind == "mixture_equals":
        return (lambda: mixture.equals(mixture)), (lambda: mixture.equals(f if pick % 2 else other_type(case)))
    if kind == "factorised_nested":
        return (lambda: FactorizedFactor([f, g])), (lambda: FactorizedFactor([f, FactorizedFactor([g])]))
    factorised = FactorizedFactor([f, g])
    if kind == "factorised_disjoint":
        names = ["outside"]
        other = Q.build({"vars": names, "cov": [[1.0]], "mean": [0.5], "lw": 0.0})
        return (lambda: factorised.divide(g)), (lambda: factorised.divide(other))
    if kind == "factorised_all":
        return (lambda: factorised.marginalize(x, keep=True)), (lambda: factorised.marginalize(x + y, keep=False))

    def transform(points, _):
        return np.tile(points[:1], [len(y), 1])

    noise = np.eye(len(y))

    def nlg(a=x, b=y, function=transform, cov=noise):
        return NonLinearGaussian(list(a), list(b), function, cov)

    if kind == "nlg_overlap":
        bad = list(y)
        bad[pick % len(bad)] = x[pick2 % len(x)]
        return nlg, lambda: nlg(b=bad)
    if kind == "nlg_noise":
        m = len(y) + 1 if pick % 2 or len(y) == 1 else len(y) - 1
        bad = np.eye(m) if pick2 % 2 else np.ones((m, len(y)))
        return nlg, lambda: nlg(cov=bad)
    factor = nlg()
    if kind == "nlg_both":
        return (lambda: factor.multiply(f)), (lambda: factor.multiply(nlg()))
    if kind == "nlg_scope":
        names = [x[0], y[0]] if pick % 2 else [x[0], "outside"]
        bad = Q.build({"vars": names, "cov": [[1.0, 0.25], [0.25, 1.0]], "mean": [0.5, 1.0], "lw": 0.0})
        ready = factor.multiply(f)
        return (lambda: getattr(ready, case["operation"])(g)), (lambda: getattr(ready, case["operation"])(bad))
    if kind == "nlg_type":
        return (lambda: factor.multiply(f)), (lambda: getattr(factor, case["operation"])(other_type(case)))
    if kind == "nlg_transform":
        def bad_transform(points, _):
            return np.tile(points[:1], [len(y) + 1, 1])
        return (lambda: factor.multiply(f).joint_distribution.get_cov()), \
               (lambda: nlg(function=bad_transform).multiply(f).joint_distribution)
    if kind == "nlg_marginal":
        return (lambda: factor.multiply(f).marginalize(y)), (lambda: factor.multiply(f).marginalize(y + ["outside"]))
    if kind == "nlgm_empty":
        return (lambda: NonLinearGaussianMixture([factor])), (lambda: NonLinearGaussianMixture([]))
    if kind == "nlgm_type":
        return (lambda: NonLinearGaussianMixture([factor])), (lambda: NonLinearGaussianMixture([factor, f] if pick % 2 else [f]))
    if kind == "nlgm_names":
        other = nlg(a=x[:-1] + ["outside"])
        return (lambda: NonLinearGaussianMixture([factor, factor])), (lambda: NonLinearGaussianMixture([factor, other]))
    if kind == "graph_marginal":
        graph = ClusterGraph([f, g], disable_tqdm=True)
        graph.process_graph(max_iter=2)
        bad = [x[0], y[0]] if pick % 2 else ["outside"]
        return (lambda: graph.get_marginal(x)), (lambda: graph.get_marginal(bad))
    assert kind == "template_sides"

    class Plain(FactorTemplate):
        pass

    return (lambda: Plain(conditioning_var_templates=["a"], conditional_var_templates=["b"])), \
           (lambda: Plain(conditioning_var_templates=["a"]) if pick % 2 else Plain(conditional_var_templates=["b"]))


def judge(case, ctx, calls):
    ctx.nontrivial = True
    ctx.tag(case["kind"])
    good, bad = calls
    good()
    try:
        result = bad()
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation(f"{case['kind']}: accepted, with the result {result!r:.300}")


RULE = "a valid construction or operation and the same with a single corruption; every case is non-trivial."


@check("X03", "discrete", rejection_case("discrete"), quick=3000, thorough=60000, rule=RULE)
def discrete_body(case, ctx):
    judge(case, ctx, discrete_calls(case))


@check("X03", "gaussian", rejection_case("gaussian"), quick=2500, thorough=50000, rule=RULE)
def gaussian_body(case, ctx):
    judge(case, ctx, gaussian_calls(case))


@check("X03", "other", rejection_case("other"), quick=3000, thorough=60000, rule=RULE)
def other_body(case, ctx):
    judge(case, ctx, other_calls(case))
