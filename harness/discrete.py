"""
The reference model of discrete factors (a plain dictionary from assignments to log values), the generators of discrete
factors, and the conversion between the reference model and the factors of the code under test.
"""
import itertools
import math

import numpy as np

from harness import gen as st
from harness.core import Violation

NEG_INF = -math.inf


# ----------------------------------------------------------------------------------------------------------------------
# the reference model


def log_sum_exp(values):
    values = [v for v in values if v != NEG_INF]
    if not values:
        return NEG_INF
    top = max(values)
    if top == math.inf:
        return math.inf
    return top + math.log(math.fsum(math.exp(v - top) for v in values))


class Table:
    """
    A function of discrete variables: values[assignment] is the log of the function value at the assignment.
    """

    def __init__(self, vrs, cards, values):
        self.vrs = tuple(vrs)
        self.cards = dict(cards)
        self.values = values

    @classmethod
    def from_flat(cls, vrs, card_list, flat):
        assignments = itertools.product(*[range(c) for c in card_list])
        return cls(vrs, dict(zip(vrs, card_list)), dict(zip(assignments, flat)))

    def assignments(self):
        return itertools.product(*[range(self.cards[v]) for v in self.vrs])

    def at(self, valuation):
        return self.values[tuple(valuation[v] for v in self.vrs)]

    def pointwise(self, other, func):
        vrs = self.vrs + tuple(v for v in other.vrs if v not in self.vrs)
        cards = {**self.cards, **other.cards}
        values = {}
        for assignment in itertools.product(*[range(cards[v]) for v in vrs]):
            valuation = dict(zip(vrs, assignment))
            values[assignment] = func(self.at(valuation), other.at(valuation))
        return Table(vrs, cards, values)

    def multiply(self, other):
        return self.pointwise(other, lambda a, b: NEG_INF if NEG_INF in (a, b) else a + b)

    def divide(self, other, zero_by_zero=math.nan):
        def quotient(a, b):
            if b == NEG_INF:
                return zero_by_zero if a == NEG_INF else math.inf
            return a - b
        return self.pointwise(other, quotient)

    def cancel(self, other):
        return self.divide(other, zero_by_zero=NEG_INF)

    def marginal(self, keep):
        keep = tuple(keep)
        groups = {a: [] for a in itertools.product(*[range(self.cards[v]) for v in keep])}
        index = [self.vrs.index(v) for v in keep]
        for assignment, value in self.values.items():
            groups[tuple(assignment[i] for i in index)].append(value)
        return Table(keep, {v: self.cards[v] for v in keep}, {a: log_sum_exp(g) for a, g in groups.items()})

    def reduce(self, evidence):
        remaining = tuple(v for v in self.vrs if v not in evidence)
        values = {}
        for assignment, value in self.values.items():
            valuation = dict(zip(self.vrs, assignment))
            if all(valuation[v] == x for v, x in evidence.items() if v in valuation):
                values[tuple(valuation[v] for v in remaining)] = value
        return Table(remaining, {v: self.cards[v] for v in remaining}, values)

    def reorder(self, vrs):
        index = [self.vrs.index(v) for v in vrs]
        values = {tuple(a[i] for i in index): x for a, x in self.values.items()}
        return Table(vrs, self.cards, dict(sorted(values.items())))

    def total(self):
        return log_sum_exp(list(self.values.values()))

    def normalized(self):
        total = self.total()
        return Table(self.vrs, self.cards, {a: (x - total if x != NEG_INF else NEG_INF) for a, x in self.values.items()})

    def has_zero(self):
        return any(x == NEG_INF for x in self.values.values())

    def all_zero(self):
        return all(x == NEG_INF for x in self.values.values())

    def scaled(self, log_constant):
        return Table(self.vrs, self.cards, {a: x + log_constant for a, x in self.values.items()})


def unit():
    return Table((), {}, {(): 0.0})


def product(tables):
    result = unit()
    for table in tables:
        result = result.multiply(table)
    return result


def close(a, b, atol=1e-7, rtol=1e-9):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def assert_same(actual, expected, what, atol=1e-7, skip_nan=True):
    """
    Check that two tables are the same function (of the same set of variables). Where expected is nan nothing is required.
    """
    if set(actual.vrs) != set(expected.vrs) or len(actual.vrs) != len(expected.vrs):
        raise Violation(f"{what}: the scope is {list(actual.vrs)} instead of (a permutation of) {list(expected.vrs)}")
    for v in expected.vrs:
        if actual.cards[v] != expected.cards[v]:
            raise Violation(f"{what}: the cardinality of {v} is {actual.cards[v]} instead of {expected.cards[v]}")
    for assignment, value in expected.values.items():
        if skip_nan and math.isnan(value):
            continue
        got = actual.at(dict(zip(expected.vrs, assignment)))
        if not close(got, value, atol=atol):
            raise Violation(f"{what}: the log value at {dict(zip(expected.vrs, assignment))} is {got} instead of {value}")


# ----------------------------------------------------------------------------------------------------------------------
# from and to the code under test


def is_dense(factor):
    return hasattr(factor, "log_probs_tensor")


def table_of(factor, what="the factor"):
    """
    Read the function that a (dense or sparse) categorical factor represents.
    """
    if factor is None:
        raise Violation(f"{what} is None")
    vrs = list(factor.var_names)
    cards = dict(factor.var_cards)
    if len(set(vrs)) != len(vrs):
        raise Violation(f"{what} has duplicate variables {vrs}")
    if set(cards) != set(vrs):
        raise Violation(f"{what} has variables {vrs} but cardinalities {cards}")
    if is_dense(factor):
        tensor = np.asarray(factor.log_probs_tensor)
        if tuple(tensor.shape) != tuple(cards[v] for v in vrs):
            raise Violation(f"{what} has variables {vrs}, cardinalities {cards} but a tensor of shape {tensor.shape}")
        values = {a: float(tensor[a]) for a in np.ndindex(*tensor.shape)} if vrs else {(): float(tensor)}
        return Table(vrs, {v: int(cards[v]) for v in vrs}, values)
    values = {}
    for assignment in factor.log_probs_table:
        if len(assignment) != len(vrs) or any(not 0 <= x < cards[v] for v, x in zip(vrs, assignment)):
            raise Violation(f"{what} has the entry {assignment} but variables {vrs} with cardinalities {cards}")
    for assignment in itertools.product(*[range(cards[v]) for v in vrs]):
        values[assignment] = float(factor.log_probs_table.get(assignment, factor.default_log_prob))
    return Table(vrs, {v: int(cards[v]) for v in vrs}, values)


def decode(value):
    """
    Log values in cases are numbers or None (for -inf).
    """
    return NEG_INF if value is None else float(value)


def ref_of(spec):
    return Table.from_flat(spec["vars"], spec["cards"], [decode(x) for x in spec["logs"]])


def tensor_of(logs, cards, layout):
    """
    An array in one of several memory layouts and types.
    """
    array = np.array(logs, dtype=float).reshape(cards)
    if layout == "F" and array.ndim:
        return np.asfortranarray(array)
    if layout == "view" and array.ndim:
        padded = np.full([2 * c + 1 for c in cards], 99.0)
        view = padded[tuple(slice(0, 2 * c, 2) for c in cards)]
        view[...] = array
        return view
    if layout == "reversed" and array.ndim:
        return np.ascontiguousarray(array[::-1])[::-1]
    if layout == "int" and np.all(np.isfinite(array)) and np.array_equal(array, np.round(array)):
        return array.astype(int)
    return array


def build(spec):
    """
    Build the factor that a factor specification describes.
    """
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    vrs = list(spec["vars"])
    cards = list(spec["cards"])
    logs = [decode(x) for x in spec["logs"]]
    how = spec.get("how", "logs")
    names = spec.get("names")
    kind = spec.get("kind", "dense")
    assignments = list(itertools.product(*[range(c) for c in cards]))
    if kind == "dense":
        kwargs = {}
        if names is not None:
            kwargs["variables_assignment_names"] = [list(n) for n in names]
        if how == "logs":
            return Categorical(var_names=vrs, log_probs_tensor=tensor_of(logs, cards, spec.get("layout")), **kwargs)
        table = {}
        for assignment, value in zip(assignments, logs):
            if how == "all_probs" or value != NEG_INF:
                table[assignment] = math.exp(value)
        return Categorical(var_names=vrs, cardinalities=cards, probs_table=table, **kwargs)
    default = decode(spec.get("default"))
    omit = spec.get("omit", "all")
    table = {}
    for i, (assignment, value) in enumerate(zip(assignments, logs)):
        if value == default and (omit == "all" or (omit == "some" and i % 2 == 0)):
            continue
        table[assignment] = value
    if spec.get("reverse"):
        table = dict(reversed(list(table.items())))
    if how == "logs":
        return SparseCategorical(var_names=vrs, cardinalities=cards, log_probs_table=table, default_log_prob=default)
    table = {a: (0.0 if x == NEG_INF else math.exp(x)) for a, x in table.items()}
    return SparseCategorical(var_names=vrs, cardinalities=cards, probs_table=table, default_log_prob=default)


# ----------------------------------------------------------------------------------------------------------------------
# generators

NAMES = ["a", "b", "c", "d", "e", "x_1", "x_10", "Z", "var 2", "long_variable_name", "b1", "A"]

PALETTE = [0.0, None, -1.0, math.log(0.5), math.log(0.25), 1.0, -2.5, 0.75, -7.0, math.log(3.0), 4.0, -20.0]
EXTREME = [-700.0, -800.0, 300.0, 710.0, -1500.0, -40.0]
# constants added to all the log values of a factor: the exponentials underflow or overflow, the function is as before
SHIFTS = [-800.0, -1200.0, 750.0, -2500.0, -400.0]


@st.composite
def log_values(draw, size, zeros=None, extreme=False):
    """
    A list of `size` log values. zeros: True/False/None = with zeros, without, either. extreme: with very small and large
    values (True), or moderate values that are sometimes shifted by a large constant ("shift").
    """
    if extreme and draw(st.integers(0, 7)) == 7:
        shift = draw(st.sampled_from(SHIFTS))
        return [None if x is None else x + shift for x in draw(log_values(size, zeros=zeros))]
    if zeros is None:
        zeros = draw(st.booleans())
    palette = PALETTE if zeros else [x for x in PALETTE if x is not None]
    if extreme is True and draw(st.integers(0, 5)) == 5:
        palette = palette + EXTREME
    style = draw(st.integers(0, 3))
    if style == 0 and size <= 12:
        return [palette[i] for i in draw(st.lists(st.integers(0, len(palette) - 1), min_size=size, max_size=size))]
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    if style == 1:
        return [palette[i] for i in rng.integers(0, len(palette), size)]
    spread = [1.0, 3.0, 8.0][int(rng.integers(0, 3))]
    values = [float(x) for x in np.round(rng.normal(0, spread, size), 6)]
    if zeros:
        fraction = float(rng.choice([0.1, 0.3, 0.6, 0.9]))
        values = [None if u < fraction else x for u, x in zip(rng.random(size), values)]
    return values


@st.composite
def large_universe(draw, min_vars, max_vars, max_size):
    """
    A variable with more than ten values, or more variables than usual.
    """
    if draw(st.booleans()) or max_vars < 5:
        cards = [draw(st.integers(9, 13))] + [draw(st.integers(1, 3)) for _ in range(max(min_vars, 2) - 1)]
    else:
        cards = [2] * 7 if max_size >= 128 else [2, 2, 2, 2, 2, 1, 2]
        if draw(st.booleans()):
            cards += [1]
    cards = draw(st.permutations(cards))
    return {"names": list(draw(st.permutations(NAMES))[:len(cards)]), "cards": list(cards)}


@st.composite
def universe(draw, min_vars=1, max_vars=5, max_card=4, max_size=200):
    if max_size >= 100 and max_card >= 4 and draw(st.integers(0, 15)) == 15:
        return draw(large_universe(min_vars, max_vars, max_size))
    n = draw(st.sampled_from([k for k in (1, 2, 3, 2, 3, 4, 3, 4, 5, 6) if min_vars <= k <= max_vars]))
    names = draw(st.permutations(NAMES))[:n]
    cards = []
    size = 1
    for _ in range(n):
        top = max(1, min(max_card, max_size // size))
        card = draw(st.sampled_from([c for c in (2, 3, 1, 4, 5) if c <= top]))
        cards.append(card)
        size *= card
    return {"names": list(names), "cards": cards}


@st.composite
def scope_of(draw, uni, min_size=1, max_size=None):
    names = uni["names"]
    order = draw(st.permutations(list(range(len(names)))))
    top = len(names) if max_size is None else min(max_size, len(names))
    low = min(min_size, top)
    size = max(draw(st.integers(low, top)), draw(st.integers(low, top)) if draw(st.booleans()) else low)
    return [order[i] for i in range(size)]


ASSIGNMENT_NAMES = ["yes", "no", "maybe", "low", "high"]


@st.composite
def factor_over(draw, uni, scope, kind=None, zeros=None, extreme=False, finite_default=True, named=None):
    """
    The specification of a factor over the variables with the indices in scope.
    """
    cards = [uni["cards"][i] for i in scope]
    size = int(np.prod(cards)) if cards else 1
    logs = draw(log_values(size, zeros=zeros, extreme=extreme))
    if kind is None:
        kind = draw(st.sampled_from(["dense", "sparse"]))
    spec = {"kind": kind, "vars": [uni["names"][i] for i in scope], "cards": cards}
    moderate = all(x is None or -600 < x < 600 for x in logs)
    if kind == "dense":
        spec["how"] = draw(st.sampled_from(["logs", "probs", "all_probs"])) if moderate else "logs"
        if spec["how"] == "logs":
            spec["layout"] = draw(st.sampled_from(["C", "C", "F", "view", "reversed", "int"]))
            if spec["layout"] == "int":
                logs = [x if x is None else float(round(x)) for x in logs]
        if named and "anames" in uni:
            spec["names"] = [uni["anames"][i] for i in scope]
    else:
        default = None
        if finite_default and draw(st.integers(0, 3)) == 3:
            default = draw(st.sampled_from([0.0, -1.0, math.log(0.5)]))
            pattern = draw(st.integers(0, 2 ** 20 - 1))
            logs = [default if (pattern >> (i % 20)) & 1 else x for i, x in enumerate(logs)]
        spec["default"] = default
        spec["omit"] = draw(st.sampled_from(["all", "some", "none"]))
        spec["reverse"] = draw(st.booleans())
        spec["how"] = draw(st.sampled_from(["logs", "probs"])) if moderate else "logs"
    spec["logs"] = logs
    return spec


@st.composite
def twin(draw, spec, uni):
    """
    A factor with the same parameters as another one, over (possibly) other variables with these cardinalities in this order.
    """
    order = draw(st.permutations(list(range(len(uni["names"])))))
    scope = []
    for card in spec["cards"]:
        scope.append(next(i for i in order if uni["cards"][i] == card and i not in scope))
    result = dict(spec, vars=[uni["names"][i] for i in scope], logs=list(spec["logs"]))
    if result.get("names") is not None:
        result["names"] = [uni["anames"][i] for i in scope]
    return result


@st.composite
def factor_spec(draw, uni=None, min_scope=1, max_scope=None, **kwargs):
    if uni is None:
        uni = draw(universe())
    scope = draw(scope_of(uni, min_scope, max_scope))
    return draw(factor_over(uni, scope, **kwargs))
