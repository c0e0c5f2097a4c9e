"""
X05: helpers on named parameters, conversions and evidence selection against entry by entry references.
"""
import operator

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.core import Violation, check, prop

prop("X05", ["Matrices of up to five named variables; scalars are Python ints and floats or numpy floats."])

NAMES = ["a", "b", "c", "x_1", "x_10", "Z", "var 2", "a1"]
OPERATORS = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "max": max,
    "affine": lambda a, b: 2.0 * a - 3.0 * b + 1.0, "first": lambda a, b: a, "second": lambda a, b: b,
}


@st.composite
def indexed_case(draw):
    names = draw(st.permutations(NAMES))[:6]
    relation = draw(st.sampled_from(["any", "any", "subset", "superset", "equal", "disjoint"]))
    a = draw(Q.subset(names, low=1, high=4))
    if relation == "any":
        b = draw(Q.subset(names, low=1, high=4))
    elif relation == "subset":
        b = draw(Q.subset(a, low=1))
    elif relation == "superset":
        b = draw(st.permutations(a + draw(Q.subset([v for v in names if v not in a], low=1, high=2))))
    elif relation == "equal":
        b = draw(st.permutations(a))
    else:
        b = draw(Q.subset([v for v in names if v not in a], low=1, high=3))
    entries = st.sampled_from([0, 1, -1, 2.5, 7, -3, 100.25, 11, 13, 17])
    return {"a": a, "b": b, "A": [[draw(entries) for _ in a] for _ in a], "B": [[draw(entries) for _ in b] for _ in b],
            "op": draw(st.sampled_from(sorted(OPERATORS))), "ints": draw(st.booleans()), "relation": relation}


@check("X05", "indexed", indexed_case(), quick=12000, thorough=200000,
       rule="two matrices (and column vectors) over drawn lists of names and an operator; non-trivial: different lists of names.")
def indexed_body(case, ctx):
    from veroku.factors._factor_utils import indexed_column_vector_operation, indexed_square_matrix_operation

    a, b = case["a"], case["b"]
    ctx.nontrivial = a != b
    ctx.tag(case["relation"], case["op"])
    func = OPERATORS[case["op"]]
    mats = [np.array(case["A"], dtype=float), np.array(case["B"], dtype=float)]
    if case["ints"]:
        mats = [m.astype(int) for m in mats]
    vecs = [m[:, :1].copy() for m in mats]
    originals = [m.copy() for m in mats + vecs]
    names = [list(a), list(b)]
    union = set(a) | set(b)

    def entry(matrix, order, i, j):
        return matrix[order.index(i), order.index(j)] if i in order and j in order else 0.0

    result, order = indexed_square_matrix_operation(mats[0], mats[1], names[0], names[1], func)
    if sorted(order) != sorted(union) or np.shape(result) != (len(union), len(union)):
        raise Violation(f"matrix operation: variables {order} and shape {np.shape(result)} for {a} and {b}")
    for r, i in enumerate(order):
        for c, j in enumerate(order):
            want = func(entry(mats[0], a, i, j), entry(mats[1], b, i, j))
            if not np.isclose(result[r, c], want, rtol=1e-12, atol=1e-12):
                raise Violation(f"matrix {case['op']}: the entry of {i}, {j} is {result[r, c]} instead of {want}")
    vector, order = indexed_column_vector_operation(vecs[0], vecs[1], names[0], names[1], func)
    if sorted(order) != sorted(union) or np.shape(vector) != (len(union), 1):
        raise Violation(f"vector operation: variables {order} and shape {np.shape(vector)} for {a} and {b}")
    for r, i in enumerate(order):
        want = func(vecs[0][a.index(i), 0] if i in a else 0.0, vecs[1][b.index(i), 0] if i in b else 0.0)
        if not np.isclose(vector[r, 0], want, rtol=1e-12, atol=1e-12):
            raise Violation(f"vector {case['op']}: the entry of {i} is {vector[r, 0]} instead of {want}")
    if names != [a, b] or any(not np.array_equal(x, y) for x, y in zip(originals, mats + vecs)):
        raise Violation("an indexed operation changed its arguments")


@st.composite
def conversion_case(draw):
    n = draw(st.integers(1, 4))
    ints = draw(st.booleans())
    entries = st.sampled_from([0, 1, -1, 2, 7, -3, 100] if ints else [0.0, 1.5, -1.25, 2.0, 1e-7, -3.75, 1e9])
    return {"n": n, "M": [[draw(entries) for _ in range(n)] for _ in range(n)], "ints": ints,
            "corrupt": draw(st.integers(0, 5)), "pick": draw(st.integers(0, 5))}


def expect(actual, wanted, what):
    if not isinstance(actual, np.ndarray) or actual.shape != np.shape(wanted) or not np.array_equal(actual, wanted):
        raise Violation(f"{what} is {actual!r} instead of {np.asarray(wanted).tolist()}")


def must_raise(func, what):
    try:
        result = func()
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation(f"{what} was accepted: {result!r}")


@check("X05", "conversions", conversion_case(), quick=4000, thorough=60000,
       rule="a square array of numbers in every representation (scalar, list, nested list, flat, row and column arrays); "
            "non-trivial: more than one number.")
def conversion_body(case, ctx):
    from veroku.factors._factor_utils import make_column_vector, make_scalar, make_square_matrix

    n, rows = case["n"], case["M"]
    ctx.nontrivial = n > 1
    array = np.array(rows)
    first = array[:, 0]
    column = first.reshape(-1, 1)
    flat = [row[0] for row in rows]
    for what, value in [("a list", flat), ("a flat array", first.copy()), ("a column", column.copy()), ("a row", column.T.copy()),
                        ("a nested list", [[x] for x in flat])]:
        expect(make_column_vector(value), column, f"make_column_vector of {what}")
    expect(make_square_matrix([list(r) for r in rows]), array, "make_square_matrix of a nested list")
    source = array.copy()
    converted = make_square_matrix(source)
    expect(converted, array, "make_square_matrix of an array")
    converted += 1
    expect(source, array, "after changing the result, the argument of make_square_matrix")
    source = column.copy()
    converted = make_column_vector(source)
    converted += 1
    expect(source, column, "after changing the result, the argument of make_column_vector")
    if n == 1:
        x = rows[0][0]
        expect(make_column_vector(x), [[x]], "make_column_vector of a scalar")
        expect(make_square_matrix(x), [[x]], "make_square_matrix of a scalar")
        expect(make_square_matrix([x]), [[x]], "make_square_matrix of a list with a scalar")
        for value in (x, [x], np.array([x]), np.array([[x]])):
            got = make_scalar(value)
            if got != x or np.ndim(got) != 0:
                raise Violation(f"make_scalar({value!r}) is {got!r}")
    else:
        must_raise(lambda: make_scalar(flat), "make_scalar of several values")
        must_raise(lambda: make_scalar(first), "make_scalar of several values")
        must_raise(lambda: make_column_vector(array), "make_column_vector of a matrix")
        must_raise(lambda: make_square_matrix(flat), "make_square_matrix of a flat list")
        must_raise(lambda: make_square_matrix(array[:, :-1]), "make_square_matrix of a matrix that is not square")
        must_raise(lambda: make_square_matrix([list(r) for r in rows[:-1]] if n > 2 else [[1, 2]]),
                   "make_square_matrix of a list that is not square")
        ragged = [list(r) for r in rows]
        ragged[case["pick"] % n] = ragged[case["pick"] % n][:-1]
        must_raise(lambda: make_square_matrix(ragged), "make_square_matrix of a ragged list")
    must_raise(lambda: make_square_matrix(first), "make_square_matrix of a flat array")
    must_raise(lambda: make_square_matrix([]), "make_square_matrix of an empty list")
    must_raise(lambda: make_square_matrix("1"), "make_square_matrix of a string")
    must_raise(lambda: make_scalar("1"), "make_scalar of a string")


@st.composite
def evidence_case(draw):
    names = draw(st.permutations(NAMES))
    values = [0, 1, 2, 0.0, -0.0, 0.5, -3.25, 1e300, -1, "yes", "", False]
    return {"numpy": draw(st.booleans()), "evidence": [[v, draw(st.sampled_from(values))] for v in names[:draw(st.integers(0, 6))]],
            "scope": draw(Q.subset(NAMES, low=0, high=6)),
            "numbers": draw(st.lists(st.sampled_from([0, 1, 1.5, 1.25, -2, 3, 1.1, 0.3]), min_size=1, max_size=8)),
            "tol": draw(st.sampled_from([0.0, 0.1, 0.5])), "fields": draw(st.lists(st.sampled_from(["i", "j", "k"]), max_size=4))}


@check("X05", "evidence", evidence_case(), quick=4000, thorough=60000,
       rule="an evidence dictionary and a scope; also lists of numbers with near duplicates and lists of format strings; "
            "non-trivial: evidence in and outside of the scope.")
def evidence_body(case, ctx):
    from veroku.factors._factor_utils import format_list_elements, get_subset_evidence, remove_duplicate_values

    evidence = {v: x for v, x in case["evidence"]}
    if case.get("numpy"):
        evidence = {v: x if isinstance(x, (str, bool)) else np.float64(x) if isinstance(x, float) else np.int64(x)
                    for v, x in evidence.items()}
    inside = set(evidence) & set(case["scope"])
    ctx.nontrivial = bool(inside) and bool(set(evidence) - inside)
    passed, scope = dict(evidence), list(case["scope"])
    vrs, values = get_subset_evidence(passed, scope)
    if list(passed.items()) != list(evidence.items()) or scope != case["scope"]:
        raise Violation(f"get_subset_evidence changed its arguments {evidence}, {case['scope']} to {passed}, {scope}")
    if len(vrs) != len(values) or len(vrs) != len(inside) or dict(zip(vrs, values)) != {v: evidence[v] for v in inside}:
        raise Violation(f"get_subset_evidence of {evidence} for {case['scope']}: {vrs}, {values}")
    numbers, tol = case["numbers"], case["tol"]
    unique = remove_duplicate_values(list(numbers), tol=tol)
    if any(x not in numbers for x in unique):
        raise Violation(f"remove_duplicate_values of {numbers}: new values in {unique}")
    if any(min(abs(x - y) for y in unique) > tol for x in numbers):
        raise Violation(f"remove_duplicate_values of {numbers} with tolerance {tol}: {unique} lacks values")
    if any(abs(x - y) <= tol for i, x in enumerate(unique) for y in unique[:i]):
        raise Violation(f"remove_duplicate_values of {numbers} with tolerance {tol}: duplicates in {unique}")
    templates = [f"v{n}_{{{f}}}" for n, f in enumerate(case["fields"])]
    got = format_list_elements(templates, {"i": 0, "j": 12, "k": "x"})
    want = [f"v{n}_{({'i': 0, 'j': 12, 'k': 'x'})[f]}" for n, f in enumerate(case["fields"])]
    if list(got) != want:
        raise Violation(f"format_list_elements: {got} instead of {want}")


@st.composite
def standard_case(draw):
    low = draw(st.sampled_from([-10, 0, 5, -0.5]))
    cov_low = draw(st.sampled_from([1, 0.25, 3]))
    return {"vars": draw(Q.names(1, 5)), "mean": [low, low + draw(st.sampled_from([1, 10, 0.5]))],
            "cov": [cov_low, cov_low + draw(st.sampled_from([1, 9, 0.5]))], "default": draw(st.booleans()),
            "seed": draw(st.integers(0, 9999))}


@check("X05", "standard", standard_case(), quick=1500, thorough=20000,
       rule="the standard and the random Gaussian over drawn variables with drawn ranges; every case is non-trivial.")
def standard_body(case, ctx):
    from veroku.factors.gaussian import make_random_gaussian, make_std_gaussian

    ctx.nontrivial = True
    vrs = case["vars"]
    n = len(vrs)
    Q.assert_quad(make_std_gaussian(list(vrs)), Q.Quad.from_moments(vrs, np.eye(n), np.zeros(n), 0.0), "make_std_gaussian")
    np.random.seed(case["seed"])
    kwargs = {} if case["default"] else {"mean_range": list(case["mean"]), "cov_range": list(case["cov"])}
    means, covs = ([-10, 10], [1, 10]) if case["default"] else (case["mean"], case["cov"])
    factor = make_random_gaussian(list(vrs), **kwargs)
    if list(factor.var_names) != list(vrs):
        raise Violation(f"make_random_gaussian over {vrs}: {factor.var_names}")
    mean, cov = np.asarray(factor.get_mean()).ravel(), np.asarray(factor.get_cov())
    if len(mean) != n or np.any(mean < means[0]) or np.any(mean > means[1]):
        raise Violation(f"make_random_gaussian: the mean {mean.tolist()} is not in {means}")
    if cov.shape != (n, n) or np.any(np.diag(cov) < covs[0]) or np.any(np.diag(cov) > covs[1]):
        raise Violation(f"make_random_gaussian: the variances {np.diag(cov).tolist()} are not in {covs}")
    if np.any(np.linalg.eigvalsh(cov) <= 0):
        raise Violation(f"make_random_gaussian: the covariance {cov.tolist()} is not positive definite")
    if abs(float(factor.get_log_weight())) > 1e-9:
        raise Violation(f"make_random_gaussian: the log weight is {factor.get_log_weight()}")
