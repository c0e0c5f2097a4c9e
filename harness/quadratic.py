"""
The reference model of Gaussian factors: an explicit quadratic log function, with closed form operations; and the generators of
Gaussian factors.
"""
import contextlib
import math

import numpy as np

from harness import gen as st
from harness.core import Violation

LOG_2PI = math.log(2.0 * math.pi)


def _sub(matrix, rows, cols):
    return matrix[np.ix_(rows, cols)]


def exp(value):
    """exp, with inf for what no float can hold."""
    return math.exp(value) if value < 709 else math.inf


class Quad:
    """
    log f(x) = -0.5 x'Kx + h'x + g over named variables.
    """

    def __init__(self, vrs, K, h, g):
        self.vrs = list(vrs)
        n = len(self.vrs)
        self.K = np.array(K, dtype=float).reshape(n, n)
        self.h = np.array(h, dtype=float).reshape(n)
        self.g = float(g)

    @classmethod
    def from_moments(cls, vrs, cov, mean, log_weight):
        cov = np.array(cov, dtype=float).reshape(len(vrs), len(vrs))
        mean = np.array(mean, dtype=float).reshape(len(vrs))
        K = np.linalg.inv(cov) if len(vrs) else cov
        K = 0.5 * (K + K.T)
        h = K @ mean
        logdet = np.linalg.slogdet(cov)[1] if len(vrs) else 0.0
        g = log_weight - 0.5 * mean @ h - 0.5 * (len(vrs) * LOG_2PI + logdet)
        return cls(vrs, K, h, g)

    def reorder(self, vrs):
        index = [self.vrs.index(v) for v in vrs]
        return Quad(vrs, _sub(self.K, index, index), self.h[index], self.g)

    def expand(self, vrs):
        n = len(vrs)
        K, h = np.zeros((n, n)), np.zeros(n)
        index = [vrs.index(v) for v in self.vrs]
        K[np.ix_(index, index)] = self.K
        h[index] = self.h
        return Quad(vrs, K, h, self.g)

    def multiply(self, other, sign=1.0):
        vrs = self.vrs + [v for v in other.vrs if v not in self.vrs]
        a, b = self.expand(vrs), other.expand(vrs)
        return Quad(vrs, a.K + sign * b.K, a.h + sign * b.h, a.g + sign * b.g)

    def divide(self, other):
        return self.multiply(other, sign=-1.0)

    def marginal(self, keep):
        keep = list(keep)
        out = [v for v in self.vrs if v not in keep]
        x = [self.vrs.index(v) for v in keep]
        y = [self.vrs.index(v) for v in out]
        if not out:
            return self.reorder(keep)
        Kyy = _sub(self.K, y, y)
        solve_yx = np.linalg.solve(Kyy, _sub(self.K, y, x))
        solve_yh = np.linalg.solve(Kyy, self.h[y])
        K = _sub(self.K, x, x) - _sub(self.K, x, y) @ solve_yx
        h = self.h[x] - _sub(self.K, x, y) @ solve_yh
        g = self.g + 0.5 * (self.h[y] @ solve_yh + len(out) * LOG_2PI - np.linalg.slogdet(Kyy)[1])
        return Quad(keep, 0.5 * (K + K.T), h, g)

    def reduce(self, evidence):
        remaining = [v for v in self.vrs if v not in evidence]
        x = [self.vrs.index(v) for v in remaining]
        y = [i for i in range(len(self.vrs)) if i not in x]
        obs = np.array([float(evidence[self.vrs[i]]) for i in y])
        K = _sub(self.K, x, x)
        h = self.h[x] - _sub(self.K, x, y) @ obs
        g = self.g + self.h[y] @ obs - 0.5 * obs @ _sub(self.K, y, y) @ obs
        return Quad(remaining, K, h, g)

    def log_at(self, valuation):
        x = np.array([float(valuation[v]) for v in self.vrs])
        return float(-0.5 * x @ self.K @ x + self.h @ x + self.g)

    def magnitude(self, valuation):
        """The size of the terms in log_at (for tolerances)."""
        x = np.abs(np.array([float(valuation[v]) for v in self.vrs]))
        return float(0.5 * x @ np.abs(self.K) @ x + np.abs(self.h) @ x + abs(self.g)) + 1.0

    def proper(self):
        if not self.vrs:
            return True
        eig = np.linalg.eigvalsh(self.K)
        return bool(eig.min() > 1e-9 * max(1.0, abs(eig).max()))

    def condition(self):
        if not self.vrs:
            return 1.0
        eig = np.linalg.eigvalsh(self.K)
        return float(eig.max() / eig.min()) if eig.min() > 0 else math.inf

    def cov(self):
        return np.linalg.inv(self.K) if self.vrs else self.K

    def mean(self):
        return np.linalg.solve(self.K, self.h) if self.vrs else self.h

    def log_weight(self):
        return self.marginal([]).g

    def normalized(self):
        return Quad(self.vrs, self.K, self.h, self.g - self.log_weight())


def quad_product(quads):
    result = Quad([], [], [], 0.0)
    for quad in quads:
        result = result.multiply(quad)
    return result


def near(a, b, scale=1.0, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= tol * (scale + np.abs(b))))


def points(quad, seed, n=3):
    """
    Some points around the mean (or the origin) of a quadratic.
    """
    rng = np.random.default_rng(seed)
    dim = len(quad.vrs)
    if quad.vrs and quad.proper():
        centre, chol = quad.mean(), np.linalg.cholesky(quad.cov())
    else:
        centre, chol = np.zeros(dim), np.eye(dim)
    return [dict(zip(quad.vrs, centre + chol @ rng.normal(0, 1.5, dim))) for _ in range(n)]


def log_potential_of(factor, valuation, order=None):
    """
    The log potential of a Gaussian through its public interface.
    """
    if order is None:
        x = np.array([valuation[v] for v in factor.var_names]).reshape(-1, 1)
        return float(factor.log_potential(x))
    return float(factor.log_potential([valuation[v] for v in order], vrs=list(order)))


def assert_quad(factor, expected, what, seed=0, tol=1e-6, constant=True):
    """
    Check that a Gaussian factor represents the expected function: by its log potential at some points and by its canonical
    parameters. constant=False ignores a constant factor.
    """
    if factor is None:
        raise Violation(f"{what} is None")
    names = list(factor.var_names)
    if sorted(names) != sorted(expected.vrs):
        raise Violation(f"{what}: the scope is {names} instead of (a permutation of) {expected.vrs}")
    if factor.dim != len(names):
        raise Violation(f"{what}: dim is {factor.dim} for {names}")
    ref = expected.reorder(names)
    scale_k = 1e-3 + np.abs(ref.K).max(initial=0.0)
    scale_h = 1e-3 + np.abs(ref.h).max(initial=0.0) + scale_k
    K, h = np.asarray(factor.get_prec()), np.asarray(factor.get_h())
    if not near(K, ref.K, scale_k, tol):
        raise Violation(f"{what}: precision {K.tolist()} instead of {ref.K.tolist()} for {names}")
    if not near(h, ref.h.reshape(-1, 1), scale_h, tol):
        raise Violation(f"{what}: h {h.tolist()} instead of {ref.h.tolist()} for {names}")
    values = []
    for i, valuation in enumerate(points(ref, seed)):
        order = None if i == 0 else (list(reversed(names)) if i == 1 else sorted(names))
        got = log_potential_of(factor, valuation, order)
        want = ref.log_at(valuation)
        values.append((got - want, ref.magnitude(valuation), valuation, got, want))
    shift = 0.0 if constant else values[0][0]
    for difference, magnitude, valuation, got, want in values:
        if not abs(difference - shift) <= tol * magnitude:
            raise Violation(f"{what}: the log potential at {valuation} is {got} instead of {want}")
    if constant:
        g = float(factor.get_g())
        if not abs(g - ref.g) <= tol * (1.0 + abs(ref.g) + ref.magnitude(dict.fromkeys(names, 0.0)) +
                                        (abs(ref.mean() @ ref.h) if ref.proper() else 0.0)):
            raise Violation(f"{what}: g is {g} instead of {ref.g}")


def assert_moments(factor, expected, what, tol=1e-6, weight=True):
    """
    Check the covariance form parameters of a Gaussian factor (or anything with get_mean, get_cov and get_log_weight).
    """
    names = list(factor.var_names)
    ref = expected.reorder(names)
    cov, mean = ref.cov(), ref.mean().reshape(-1, 1)
    scale = np.abs(cov).max(initial=0.0)
    if not near(factor.get_cov(), cov, scale, tol):
        raise Violation(f"{what}: covariance {np.asarray(factor.get_cov()).tolist()} instead of {cov.tolist()} for {names}")
    if not near(factor.get_mean(), mean, math.sqrt(scale) + np.abs(mean).max(initial=0.0), tol):
        raise Violation(f"{what}: mean {np.asarray(factor.get_mean()).tolist()} instead of {mean.tolist()} for {names}")
    if weight:
        want = ref.log_weight()
        size = 1.0 + abs(want) + abs(float(ref.mean() @ ref.h)) + abs(ref.g)
        if not abs(float(factor.get_log_weight()) - want) <= tol * size:
            raise Violation(f"{what}: log weight {factor.get_log_weight()} instead of {want}")


def form_difference(p, q):
    """
    How much q differs from p in canonical and in covariance form: max |x - y| / (1 + |y|) over the parameters.
    """
    q = q.reorder(p.vrs)

    def diff(pairs):
        return max(float(np.max(np.abs(np.asarray(x) - np.asarray(y)) / (1.0 + np.abs(np.asarray(y))))) for x, y in pairs)

    can = diff([(p.K, q.K), (p.h, q.h), (p.g, q.g)])
    cov = diff([(p.cov(), q.cov()), (p.mean(), q.mean()), (p.log_weight(), q.log_weight())])
    return can, cov


def absolute_difference(pairs):
    """The largest absolute difference of the parameters (in either form) of pairs of quadratics."""
    worst = 0.0
    for p, q in pairs:
        q = q.reorder(p.vrs)
        for x, y in ((p.K, q.K), (p.h, q.h), (p.g, q.g), (p.cov(), q.cov()), (p.mean(), q.mean()), (p.log_weight(), q.log_weight())):
            worst = max(worst, float(np.abs(np.asarray(x) - np.asarray(y)).max()))
    return worst + 1e-6


# ----------------------------------------------------------------------------------------------------------------------
# cases


def ref_of(spec):
    """
    The quadratic that a specification describes: covariance form parameters, possibly divided by others (which makes it
    improper or partially vacuous).
    """
    if spec.get("vacuous"):
        n = len(spec["vars"])
        return Quad(spec["vars"], np.zeros((n, n)), np.zeros(n), spec["lw"])
    if "K" in spec:
        return Quad(spec["vars"], spec["K"], spec["h"], spec["g"])
    return Quad.from_moments(spec["vars"], spec["cov"], spec["mean"], spec["lw"])


def build(spec):
    """
    Build the Gaussian factor of a specification.
    """
    from veroku.factors.gaussian import Gaussian

    if UNITS:
        return InUnits.build(spec)
    vrs = list(spec["vars"])
    if spec.get("vacuous"):
        return Gaussian.make_vacuous(var_names=vrs, g_val=spec["lw"])
    style = spec.get("style", "array")

    def matrix(values):
        if style == "list":
            return [list(row) for row in values]
        if style == "scalar" and len(vrs) == 1:
            return values[0][0]
        return np.array(values)

    def vector(values):
        if style == "list":
            return list(values)
        if style == "scalar" and len(vrs) == 1:
            return values[0]
        if style == "flat":
            return np.array(values)
        return np.array(values).reshape(-1, 1)

    def scalar(value):
        if style == "flat":
            return np.array([value])
        if style == "list":
            return [value]
        return value

    if "K" in spec:
        return Gaussian(prec=matrix(spec["K"]), h_vec=vector(spec["h"]), g_val=scalar(spec["g"]), var_names=vrs)
    if spec.get("form", "cov") == "cov":
        factor = Gaussian(cov=matrix(spec["cov"]), mean=vector(spec["mean"]), log_weight=scalar(spec["lw"]), var_names=vrs)
    else:
        ref = ref_of(spec)
        factor = Gaussian(prec=matrix(ref.K.tolist()), h_vec=vector(ref.h.tolist()), g_val=scalar(ref.g), var_names=vrs)
    for getter in spec.get("warm", []):
        getattr(factor, getter)()
    return factor


# ----------------------------------------------------------------------------------------------------------------------
# units of measurement

UNITS = {}  # the units of the variables, when factors are to be built in other units than those of their specification


@contextlib.contextmanager
def in_units(units):
    """Within this context the specifications of factors are in base units: a variable with unit u has u times their values."""
    UNITS.clear()
    UNITS.update(units)
    try:
        yield
    finally:
        UNITS.clear()


class InUnits:
    """
    A Gaussian factor over variables y = u * x, seen as a function of x: f(u * x) * exp(-shift).
    """

    def __init__(self, factor, shift=0.0):
        self.factor, self.shift = factor, shift

    @classmethod
    def build(cls, spec):
        units = dict(UNITS)
        u = np.array([units[v] for v in spec["vars"]])
        jacobian = float(np.log(u).sum())
        spec = dict(spec)
        if "K" in spec:
            spec["K"] = (np.array(spec["K"], dtype=float) / np.outer(u, u)).tolist()
            spec["h"] = (np.array(spec["h"], dtype=float) / u).tolist()
        elif not spec.get("vacuous"):
            spec["cov"] = (np.array(spec["cov"], dtype=float) * np.outer(u, u)).tolist()
            spec["mean"] = (np.array(spec["mean"], dtype=float) * u).tolist()
            spec["lw"] = spec["lw"] + jacobian
        UNITS.clear()
        try:
            return cls(build(spec))
        finally:
            UNITS.update(units)

    def u(self, names=None):
        return np.array([UNITS[v] for v in (self.factor.var_names if names is None else names)])

    def jacobian(self, names=None):
        return float(np.log(self.u(names)).sum())

    var_names = property(lambda self: self.factor.var_names)
    dim = property(lambda self: self.factor.dim)
    is_vacuous = property(lambda self: self.factor.is_vacuous)

    def get_prec(self):
        return self.factor.get_prec() * np.outer(self.u(), self.u())

    def get_h(self):
        return self.factor.get_h() * self.u()[:, None]

    def get_g(self):
        return self.factor.get_g() - self.shift

    def get_cov(self):
        return self.factor.get_cov() / np.outer(self.u(), self.u())

    def get_mean(self):
        return self.factor.get_mean() / self.u()[:, None]

    def get_log_weight(self):
        return self.factor.get_log_weight() - self.jacobian() - self.shift

    def log_potential(self, x_val, vrs=None):
        x_val = np.array(x_val, dtype=float)
        return self.factor.log_potential((x_val.ravel() * self.u(vrs)).reshape(x_val.shape), vrs=vrs) - self.shift

    def potential(self, x_val):
        x_val = np.array(x_val, dtype=float)
        return self.factor.potential((x_val.ravel() * self.u()).reshape(x_val.shape)) * exp(-self.shift)

    def copy(self):
        return InUnits(self.factor.copy(), self.shift)

    def normalize(self):
        return InUnits(self.factor.normalize(), -self.jacobian())

    def multiply(self, other):
        return InUnits(self.factor.multiply(other.factor), self.shift + other.shift)

    def absorb(self, other):
        return InUnits(self.factor.absorb(other.factor), self.shift + other.shift)

    def __mul__(self, other):
        return InUnits(self.factor * other.factor, self.shift + other.shift)

    def divide(self, other):
        return InUnits(self.factor.divide(other.factor), self.shift - other.shift)

    def cancel(self, other):
        return InUnits(self.factor.cancel(other.factor), self.shift - other.shift)

    def marginalize(self, vrs, keep=True):
        result = self.factor.marginalize(vrs, keep=keep)
        out = [v for v in self.var_names if v not in result.var_names]
        return InUnits(result, self.shift + self.jacobian(out))

    def reduce(self, vrs, values):
        values = np.array(values, dtype=float)
        return InUnits(self.factor.reduce(vrs, (values.ravel() * self.u(vrs)).reshape(values.shape)), self.shift)

    def observe(self, vrs, values):
        values = np.array(values, dtype=float)
        return InUnits(self.factor.observe(vrs, (values.ravel() * self.u(vrs)).reshape(values.shape)), self.shift)

    def equals(self, other, **kwargs):
        return self.factor.equals(other.factor, **kwargs)

    def __eq__(self, other):
        return self.factor == other.factor

    def kl_divergence(self, other, **kwargs):
        return self.factor.kl_divergence(other.factor, **kwargs)

    def distance_from_vacuous(self):
        return self.factor.distance_from_vacuous()

    def __repr__(self):
        return repr(self.factor)


GETTERS = ["get_prec", "get_h", "get_g", "get_cov", "get_mean", "get_log_weight"]
DIAGONAL = [1, 2, 0.5, 3, 1.5, 0.25, 4]
OFF_DIAGONAL = [0, 1, -1, 0.5, -0.5, 2, 0.25]
MEANS = [0, 1, -1, 2, 0.5, -3, 10, -7.25, 100]
WEIGHTS = [0.0, 1.0, -1.0, 0.5, -3.0, 4.0, -20.0, 25.0, -800.0, 650.0, 1500.0]


@st.composite
def covariance(draw, n, scales=(1, 1, 1, 0.01, 100)):
    """
    A positive definite matrix: L L' for a lower triangular L.
    """
    factor = np.zeros((n, n))
    diagonal_only = draw(st.integers(0, 3)) == 0
    for i in range(n):
        factor[i, i] = draw(st.sampled_from(DIAGONAL))
        if not diagonal_only:
            for j in range(i):
                factor[i, j] = draw(st.sampled_from(OFF_DIAGONAL))
    cov = factor @ factor.T * draw(st.sampled_from(list(scales)))
    if np.linalg.cond(cov) > 1e5:
        cov = cov + np.eye(n) * np.abs(cov).max()
    return cov


def jsonable(array, ints=False):
    array = np.asarray(array, dtype=float)
    if ints and np.all(array == np.round(array)):
        return array.astype(int).tolist()
    return array.tolist()


@st.composite
def gaussian_over(draw, vrs, form=None, weights=True, scales=(1, 1, 1, 0.01, 100), means=None):
    n = len(vrs)
    ints = draw(st.booleans())
    cov = draw(covariance(n, scales=scales))
    spec = {
        "vars": list(vrs),
        "cov": jsonable(cov, ints),
        "mean": jsonable([draw(st.sampled_from(means or MEANS)) for _ in range(n)], ints),
        "lw": draw(st.sampled_from(WEIGHTS)) if weights else 0.0,
        "form": form or draw(st.sampled_from(["cov", "can"])),
        "style": draw(st.sampled_from(["array", "list", "flat", "scalar"])),
        "warm": draw(st.lists(st.sampled_from(GETTERS), max_size=2)),
    }
    return spec


@st.composite
def improper_over(draw, vrs):
    """
    Canonical parameters with a singular or indefinite precision matrix.
    """
    n = len(vrs)
    if n == 0 or draw(st.integers(0, 4)) == 0:
        return {"vars": list(vrs), "vacuous": True, "lw": draw(st.sampled_from(WEIGHTS))}
    rank = draw(st.integers(1, n))
    low_rank = np.array([[draw(st.sampled_from([1, 0, -1, 2, 0.5])) for _ in range(n)] for _ in range(rank)])
    K = low_rank.T @ low_rank * (1.0 if draw(st.booleans()) else -1.0)
    h = low_rank.T @ np.array([draw(st.sampled_from([0, 1, -2])) for _ in range(rank)])
    if not np.any(K):
        return {"vars": list(vrs), "vacuous": True, "lw": 0.5}
    return {"vars": list(vrs), "K": jsonable(K), "h": jsonable(h), "g": draw(st.sampled_from(WEIGHTS)),
            "style": draw(st.sampled_from(["array", "list", "flat"]))}


NAMES = ["a", "b", "c", "x_1", "x_10", "Z", "y", "var 2", "long_variable_name", "b1"]


@st.composite
def names(draw, low=1, high=5):
    n = draw(st.integers(low, high))
    return draw(st.permutations(NAMES))[:n]


@st.composite
def subset(draw, items, low=0, high=None):
    order = draw(st.permutations(list(items)))
    high = len(order) if high is None else min(high, len(order))
    low = min(low, high)
    return order[:draw(st.integers(low, high))]


def twin(spec, order):
    """
    A factor with the same parameters over other variables (or the same ones in another order).
    """
    return dict(spec, vars=list(order))


def permuted(spec, order):
    index = [spec["vars"].index(v) for v in order]
    cov = np.array(spec["cov"], dtype=float)
    return dict(spec, vars=list(order), cov=cov[np.ix_(index, index)].tolist(), mean=[spec["mean"][i] for i in index])
