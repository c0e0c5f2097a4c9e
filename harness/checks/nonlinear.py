"""
N01, N02: nonlinear Gaussian factors against sigma point references and exact linear Gaussian algebra.
"""
import itertools
import math

import numpy as np

from harness import gen as st
from harness import quadratic as Q
from harness.checks.gaussian import linear_ref
from harness.checks.mixture import Mix, assert_mix, mix_of, build_mixture, mixture_over
from harness.core import Violation, check, prop

COMMON = [
    "One to four conditioning and one to three conditional variables; the Gaussians over the conditioning variables together are proper (a "
    "nonlinear Gaussian without that is vacuous by design, and products of two nonlinear Gaussians raise).",
    "The sigma points are the mean and mean +- sqrt(d + 1/2) times the columns of a Cholesky factor (for any variable order).",
]
for _pid in ("N01", "N02"):
    prop(_pid, COMMON)

MEANS = [0, 1, -1, 2, 0.5, -3]
SCALES = (1, 1, 0.1, 10)


def phi(kind, x):
    return {"id": lambda v: v, "square": np.square, "sin": np.sin, "tanh": np.tanh, "cube": lambda v: v ** 3 / 10.0}[kind](x)


def apply_transform(transform, rows):
    """
    rows: an array with one row per conditioning variable (in order).
    """
    result = []
    for i, row in enumerate(transform["A"]):
        value = transform["b"][i] + sum(a * phi(transform["phi"][i], rows[j]) for j, a in enumerate(row))
        result.append(value + transform["cross"][i] * rows[0] * rows[-1] + 0.0 * rows[0])
    return np.array(result)


def make_transform(transform, x_vars):
    """
    The callable for the code under test: it takes the rows by their names, or by their positions.
    """
    def by_name(points, names):
        return apply_transform(transform, [np.asarray(points)[list(names).index(v)] for v in x_vars])

    def by_position(points, _):
        return apply_transform(transform, list(np.asarray(points)))

    return by_name if transform["named"] else by_position


@st.composite
def transform_for(draw, nx, ny, affine):
    return {
        "A": [[draw(st.sampled_from([1, 0, -1, 2, 0.5, -0.25])) for _ in range(nx)] for _ in range(ny)],
        "b": [draw(st.sampled_from([0, 1, -2, 0.5])) for _ in range(ny)],
        "phi": ["id" if affine else draw(st.sampled_from(["square", "id", "sin", "tanh", "cube"])) for _ in range(ny)],
        "cross": [0 if affine else draw(st.sampled_from([0, 0, 1, -0.5])) for _ in range(ny)],
        "named": draw(st.booleans()),
    }


class NonlinearInUnits(Q.InUnits):
    """
    A nonlinear Gaussian over variables u * x and u * y, seen as a function of x and y: f(u * x, u * y) * exp(-shift).
    """

    @classmethod
    def make(cls, case, transform, noise):
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

        u_x, u_y = (np.array([Q.UNITS[v] for v in case[side]]) for side in "xy")

        def in_units(points, names):
            return transform(np.asarray(points) / u_x[:, None], names) * u_y[:, None]

        nlg = NonLinearGaussian(conditioning_vars=list(case["x"]), conditional_vars=list(case["y"]), transform=in_units,
                                noise_cov=noise * np.outer(u_y, u_y), log_weight=case.get("lw", 0.0))
        return cls(nlg, -float(np.log(u_y).sum()))

    joint_distribution = property(lambda self: Q.InUnits(self.factor.joint_distribution, self.shift))

    def u(self, names=None):
        return super().u(self.factor.joint_distribution.var_names if names is None else names)

    def copy(self):
        return NonlinearInUnits(self.factor.copy(), self.shift)

    def multiply(self, other):
        return NonlinearInUnits(self.factor.multiply(other.factor), self.shift + other.shift)

    def divide(self, other):
        return NonlinearInUnits(self.factor.divide(other.factor), self.shift - other.shift)

    def normalize(self):
        return Q.InUnits(self.factor.normalize(), -self.jacobian())

    def marginalize(self, vrs, keep=True):
        known = self.factor.joint_distribution.var_names
        result = self.factor.marginalize(vrs, keep=keep)
        return Q.InUnits(result, self.shift + self.jacobian([v for v in known if v not in result.var_names]))

    def reduce(self, vrs, values):
        return NonlinearInUnits(self.factor.reduce(list(vrs), [x * u for x, u in zip(values, self.u(vrs))]), self.shift)


def make_nlg(case, cls=None):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianTemplate

    transform = make_transform(case["transform"], case["x"])
    noise = np.array(case["N"], dtype=float)
    if Q.UNITS:
        return NonlinearInUnits.make(case, transform, noise)
    if case.get("template"):
        template = NonLinearGaussianTemplate([v + "{i}" for v in case["x"]], [v + "{j}" for v in case["y"]], transform, noise)
        return template.make_factor(format_dict={"i": "", "j": ""})
    return NonLinearGaussian(conditioning_vars=list(case["x"]), conditional_vars=list(case["y"]), transform=transform,
                             noise_cov=noise, log_weight=case.get("lw", 0.0))


def sigma_joint(case, conditioning, update, evidence, order):
    """
    The joint distribution by the definition; order is the variable order used for the Cholesky factor.
    """
    x, y = case["x"], case["y"]
    x_obs = {v: e for v, e in evidence.items() if v in x}
    y_obs = {v: e for v, e in evidence.items() if v in y}
    inner = conditioning.reduce({v: e for v, e in x_obs.items() if v in conditioning.vrs})
    hidden = [v for v in order if v not in x_obs]
    inner = inner.reorder(hidden)
    mean, d = inner.mean(), len(hidden)
    if d:
        chol = math.sqrt(d + 0.5) * np.linalg.cholesky(inner.cov())
        points = np.concatenate([mean.reshape(-1, 1) - chol, mean.reshape(-1, 1), mean.reshape(-1, 1) + chol], axis=1)
    else:
        points = np.zeros((0, 1))
    rows = [points[hidden.index(v)] if v in hidden else np.full(points.shape[1], float(x_obs[v])) for v in x]
    joint = np.concatenate([points, apply_transform(case["transform"], rows)], axis=0)
    centre = joint.mean(axis=1)
    cov = (joint - centre.reshape(-1, 1)) @ (joint - centre.reshape(-1, 1)).T / joint.shape[1]
    cov[d:, d:] += np.array(case["N"], dtype=float)
    result = Q.Quad.from_moments(hidden + list(y), cov, centre, inner.log_weight() + case.get("lw", 0.0))
    if update is not None:
        result = result.multiply(update)
    return result.reduce(y_obs)


@st.composite
def sigma_case(draw):
    vrs = draw(Q.names(2, 7 if draw(st.integers(0, 3)) == 0 else 5))
    nx = draw(st.integers(1, min(4, len(vrs) - 1)))
    x, y = vrs[:nx], vrs[nx:nx + 3]
    affine = draw(st.integers(0, 3)) == 0
    case = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), affine)), "N": draw(Q.covariance(len(y), SCALES)).tolist(),
            "template": draw(st.booleans()), "lw": 0.0, "seed": draw(st.integers(0, 999))}
    if not case["template"]:
        case["lw"] = draw(st.sampled_from([0.0, 1.0, -2.0]))
    if draw(st.booleans()) or nx == 1:
        case["inputs"] = [draw(Q.gaussian_over(draw(st.permutations(x)), scales=SCALES, means=MEANS))]
    else:
        k = draw(st.integers(1, nx - 1))
        order = draw(st.permutations(x))
        case["inputs"] = [draw(Q.gaussian_over(order[:k], scales=SCALES, means=MEANS)),
                          draw(Q.gaussian_over(order[k - draw(st.integers(0, 1)):], scales=SCALES, means=MEANS))]
    case["update"] = draw(Q.gaussian_over(draw(Q.subset(y, low=1)), scales=SCALES, means=MEANS)) if draw(st.booleans()) else None
    observed = draw(Q.subset(x, low=0, high=nx)) + draw(Q.subset(y, low=0, high=len(y) - 1)) if draw(st.booleans()) else []
    case["evidence"] = [[v, draw(st.sampled_from([0, 1.0, -2, 0.5]))] for v in draw(st.permutations(observed))]
    case["missing"] = draw(st.booleans())  # leave out the inputs if all the conditioning variables are observed
    case["late"] = draw(st.booleans())
    case["marginal"] = draw(Q.subset(x + y, low=1))
    return case


@check("N01", "sigma_points", sigma_case(), quick=5000, thorough=100000,
       rule="a nonlinear or affine transform of one to three variables (taking its inputs by name or by position), one or two "
            "Gaussians over them in any variable order, optionally an update Gaussian and observations; non-trivial: a nonlinear "
            "transform or two conditioning variables.")
def sigma_body(case, ctx):
    evidence = {v: e for v, e in case["evidence"]}
    transform = case["transform"]
    nonlinear = any(p != "id" for p in transform["phi"]) or any(transform["cross"])
    ctx.nontrivial = nonlinear or len(case["x"]) >= 2
    ctx.tag("nonlinear" if nonlinear else "affine", "named" if transform["named"] else "by_position")
    factor = make_nlg(case)
    if list(factor.var_names) != case["x"] + case["y"]:
        raise Violation(f"var_names {factor.var_names}")
    if not factor.joint_distribution.is_vacuous:
        raise Violation("a nonlinear Gaussian without input is not vacuous")
    inputs = case["inputs"]
    if set(case["x"]) <= set(evidence) and case["missing"]:
        ctx.tag("no_input")
        inputs = []
    conditioning = Q.quad_product([Q.ref_of(s) for s in inputs])
    if not inputs:
        conditioning = Q.Quad([], [], [], 0.0)
    update = Q.ref_of(case["update"]) if case["update"] else None

    def observe(f):
        if evidence:
            return f.reduce(list(evidence), list(evidence.values()))
        return f

    untouched = factor
    if not case["late"]:
        factor = observe(factor)
    for spec in inputs:
        factor = factor.multiply(Q.build(spec))
    if update is not None:
        factor = factor.multiply(Q.build(case["update"]))
    if case["late"]:
        factor = observe(factor)
    if evidence:
        ctx.tag("observed_x" if set(evidence) & set(case["x"]) else "observed_y")
    joint = factor.joint_distribution
    orders = [c for c in itertools.permutations(case["x"])]
    if not nonlinear:
        orders = orders[:1]
    failure, expected = None, None
    candidates = [sigma_joint(case, conditioning, update, evidence, list(order)) for order in orders]
    if any(c.condition() > 1e7 for c in candidates):
        ctx.tag("ill_conditioned")
        return
    # (the orders can give almost the same joint distribution: take the one that fits best)
    for tol, candidate in itertools.product((1e-9, 1e-7, 1e-5), candidates):
        try:
            Q.assert_quad(joint, candidate, "joint distribution", case["seed"], tol)
            Q.assert_moments(joint, candidate, "joint distribution", tol)
            expected = candidate
            break
        except Violation as exc:
            failure = exc if failure is None or tol == 1e-5 and candidate is candidates[0] else failure
    if expected is None:
        raise failure
    # the other views of the same joint distribution
    names = list(joint.var_names)
    ordered = expected.reorder(names)
    scale = np.abs(ordered.cov()).max()
    if not Q.near(factor.get_cov(), ordered.cov(), scale, 1e-5):
        raise Violation(f"get_cov gives {factor.get_cov()} instead of {ordered.cov()}")
    if not Q.near(factor.get_mean(), ordered.mean().reshape(-1, 1), math.sqrt(scale) + np.abs(ordered.mean()).max(), 1e-5):
        raise Violation(f"get_mean gives {factor.get_mean()} instead of {ordered.mean()}")
    if not Q.near(factor.get_prec(), ordered.K, np.abs(ordered.K).max(), 1e-5):
        raise Violation(f"get_prec gives {factor.get_prec()} instead of {ordered.K}")
    if abs(float(factor.get_log_weight()) - expected.log_weight()) > 1e-5 * (1 + abs(expected.g) + abs(expected.mean() @ expected.h)):
        raise Violation(f"the log weight is {factor.get_log_weight()} instead of {expected.log_weight()}")
    keep = [v for v in case["marginal"] if v not in evidence]
    if keep:
        marginal = factor.marginalize(keep, keep=True)
        Q.assert_moments(marginal, expected.marginal(keep), "marginal", 1e-5)
        if set(marginal.var_names) != set(keep):
            raise Violation(f"the marginal has the variables {marginal.var_names}")
    normal = factor.normalize()
    Q.assert_moments(normal, expected.normalized(), "normalised", 1e-5)
    if not factor.equals(factor.copy()) or not factor.equals(factor.joint_distribution):
        raise Violation("a nonlinear Gaussian does not equal its copy or its joint distribution")
    Q.assert_moments(factor.joint_distribution, expected, "joint distribution after the queries", 1e-5)
    if not untouched.joint_distribution.is_vacuous:
        raise Violation("the original factor has changed")


# ----------------------------------------------------------------------------------------------------------------------
# N02


@st.composite
def history_case(draw):
    vrs = draw(Q.names(2, 5))
    nx = draw(st.integers(1, min(3, len(vrs) - 1)))
    x, y = vrs[:nx], vrs[nx:nx + 3]
    case = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), True)), "N": draw(Q.covariance(len(y), SCALES)).tolist(),
            "template": draw(st.booleans()), "lw": 0.0, "seed": draw(st.integers(0, 999))}
    ops = [{"op": "multiply", "f": draw(Q.gaussian_over(draw(st.permutations(x)), scales=SCALES, means=MEANS))}]
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["multiply", "multiply", "divide", "undo", "marginal", "reduce", "normalize", "copy",
                                     "vacuous", "joint"]))
        op = {"op": kind}
        if kind in ("multiply", "divide"):
            op["f"] = draw(Q.gaussian_over(draw(Q.subset(x if draw(st.booleans()) else y, low=1)), scales=SCALES, means=MEANS))
        elif kind == "undo":
            op["which"] = draw(st.integers(0, 5))
        elif kind in ("marginal", "reduce"):
            op["vars"] = draw(Q.subset(x + y, low=1, high=2 if kind == "reduce" else None))
            op["values"] = [draw(st.sampled_from([0, 1.0, -2, 0.5])) for _ in op["vars"]]
            op["keep"] = draw(st.booleans())
        elif kind == "vacuous":
            op["vars"] = draw(Q.subset(x if draw(st.booleans()) else y, low=1))
            op["g"] = draw(st.sampled_from([0.0, 0.0, 1.5, -2.5, 7.0]))
            op["sign"] = draw(st.sampled_from([1, 1, -1]))
        ops.append(op)
    case["ops"] = draw(st.permutations(ops)) if draw(st.integers(0, 2)) == 0 else ops
    return case


def affine_joint(case):
    """N(y; Ax + b, N) as a quadratic."""
    x, y = case["x"], case["y"]
    base = linear_ref(x, y, case["transform"]["A"], case["N"])
    b = np.array(case["transform"]["b"], dtype=float)
    shift = np.concatenate([np.zeros(len(x)), b])
    h = base.K @ shift
    return Q.Quad(base.vrs, base.K, h, base.g - 0.5 * shift @ h)


def usable(quad, limit=1e5):
    if not quad.vrs:
        return True
    diag = np.diag(quad.K)
    if np.any(diag <= 1e-6):
        return False
    eig = np.linalg.eigvalsh(quad.K / np.sqrt(np.outer(diag, diag)))
    return eig.min() > 1.0 / limit and quad.condition() < 1e6


@check("N02", "histories", history_case(), quick=5000, thorough=100000,
       rule="an affine nonlinear Gaussian factor and a history of two to seven products, quotients, observations and queries; "
            "non-trivial: at least three operations of which two changed the factor.")
def histories_body(case, ctx):
    x, seed = case["x"], case["seed"]
    base = affine_joint(case)
    factor = make_nlg(case)
    # the reference: the Gaussians over the conditioning variables, those over the conditional variables, and the evidence
    inputs, updates, evidence, absorbed = Q.Quad([], [], [], 0.0), Q.Quad([], [], [], 0.0), {}, []
    changes, checked = 0, 0

    def reference():
        """:return: the joint distribution, None if it is not defined (or numerically out of reach)"""
        if not set(x) <= set(inputs.vrs) | set(evidence):
            return None
        inner = inputs.reduce({v: e for v, e in evidence.items() if v in inputs.vrs})
        if not usable(inner):
            return None
        joint = base.multiply(inputs).multiply(updates).reduce(evidence)
        return joint if joint.vrs and usable(joint, 1e4) else None

    for step, op in enumerate(case["ops"]):
        kind = op["op"]
        what = f"step {step} ({kind})"
        before, before_ref = factor, reference()
        if kind in ("multiply", "divide"):
            vrs = op["f"]["vars"]
            if any(v in evidence for v in vrs):
                continue
            if kind == "divide" and set(vrs) <= set(x) and not inputs.vrs:
                continue  # not supported (documented by a NotImplementedError)
            other = Q.build(op["f"])
            sign = 1.0 if kind == "multiply" else -1.0
            if set(vrs) <= set(x):
                candidate = inputs.multiply(Q.ref_of(op["f"]), sign)
                if not usable(candidate):
                    continue  # the sigma points of an improper factor do not exist
                inputs = candidate
            else:
                updates = updates.multiply(Q.ref_of(op["f"]), sign)
            if sign > 0:
                absorbed.append(op["f"])
            factor = factor.multiply(other) if sign > 0 else factor.divide(other)
            Q.assert_quad(other, Q.ref_of(op["f"]), what + ": the argument", seed)
            changes += 1
        elif kind == "undo":
            if not absorbed:
                continue
            spec = absorbed[op["which"] % len(absorbed)]
            if any(v in evidence for v in spec["vars"]):
                continue
            if set(spec["vars"]) <= set(x):
                candidate = inputs.multiply(Q.ref_of(spec), -1.0)
                if not usable(candidate):
                    continue
                inputs = candidate
            else:
                updates = updates.multiply(Q.ref_of(spec), -1.0)
            absorbed.remove(spec)
            factor = factor.divide(Q.build(spec))
            changes += 1
        elif kind == "vacuous":
            constant, sign = op.get("g", 0.0), op.get("sign", 1)
            other = Q.build({"vars": list(op["vars"]), "vacuous": True, "lw": constant})
            factor = factor.multiply(other) if sign > 0 else factor.divide(other)
            base = Q.Quad(base.vrs, base.K, base.h, base.g + sign * constant)
            if constant:
                changes += 1
                ctx.tag("constant")
        elif kind == "reduce":
            new = {v: e for v, e in zip(op["vars"], op["values"]) if v not in evidence}
            if not new or len(evidence) + len(new) >= len(base.vrs):
                continue
            evidence.update(new)
            factor = factor.reduce(list(new), list(new.values()))
            changes += 1
        elif kind == "copy":
            factor = factor.copy()
        ctx.tag(kind)
        ref = reference()
        if ref is None:
            ctx.tag("undefined")
            continue
        checked += 1
        if kind == "marginal":
            vrs = [v for v in op["vars"] if v not in evidence]
            keep = vrs if op["keep"] else [v for v in ref.vrs if v not in vrs]
            if keep and vrs:
                if op["keep"]:
                    result = factor.marginalize(keep[0] if len(keep) == 1 and case["seed"] % 2 else list(keep), keep=True)
                elif evidence:  # the scope still names the observed variables
                    result = factor.marginalize(list(vrs) + list(evidence), keep=False)
                else:
                    result = factor.marginalize(list(vrs), keep=False)
                Q.assert_moments(result, ref.marginal(keep), what, 1e-4)
        elif kind == "normalize":
            Q.assert_moments(factor.normalize(), ref.normalized(), what, 1e-4)
        joint = factor.joint_distribution
        Q.assert_quad(joint, ref, what + ": joint distribution", seed, 1e-4)
        Q.assert_moments(joint, ref, what + ": joint distribution", 1e-4)
        if before_ref is not None:
            Q.assert_moments(before.joint_distribution, before_ref, what + ": the original", 1e-4)
    ctx.nontrivial = checked >= 2 and changes >= 2 and len(case["ops"]) >= 3


@st.composite
def waiting_case(draw):
    vrs = draw(Q.names(2, 6))
    nx = draw(st.integers(1, min(3, len(vrs) - 1)))
    x, y = vrs[:nx], vrs[nx:nx + 3]
    case = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), True)), "N": draw(Q.covariance(len(y), SCALES)).tolist(),
            "template": False, "lw": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0])), "seed": draw(st.integers(0, 999))}
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(draw(Q.gaussian_over(draw(Q.subset(y, low=1)), scales=SCALES, means=MEANS)))
    case["known"] = draw(Q.subset(x, low=0, high=nx - 1)) if nx > 1 else []
    if case["known"]:
        steps.insert(draw(st.integers(0, len(steps))), draw(Q.gaussian_over(case["known"], scales=SCALES, means=MEANS)))
    case["steps"] = steps
    case["rest"] = draw(Q.gaussian_over(draw(st.permutations([v for v in x if v not in case["known"]])), scales=SCALES, means=MEANS))
    case["marginal_x"] = draw(Q.subset(case["known"], low=1)) if case["known"] else []
    case["marginal_y"] = draw(Q.subset(y, low=1))
    case["unknown"] = draw(Q.subset(x + y, low=1))
    return case


@check("N02", "waiting", waiting_case(), quick=2500, thorough=40000,
       rule="an affine nonlinear Gaussian factor that absorbs one to three Gaussians over its conditional variables and at most one "
            "over a part of its conditioning variables, before the input is complete; non-trivial: two or more of them.")
def waiting_body(case, ctx):
    seed, x, y = case["seed"], case["x"], case["y"]
    factor = make_nlg(case)
    updates, inputs = Q.Quad([], [], [], 0.0), Q.Quad([], [], [], 0.0)
    for spec in case["steps"]:
        if set(spec["vars"]) <= set(x):
            inputs = inputs.multiply(Q.ref_of(spec))
        else:
            updates = updates.multiply(Q.ref_of(spec))
        factor = factor.multiply(Q.build(spec))
    ctx.nontrivial = len(case["steps"]) >= 2
    if not factor.joint_distribution.is_vacuous:
        raise Violation("the joint distribution is known before the input is complete")
    keep = [v for v in case["marginal_y"] if v in updates.vrs]
    if keep and usable(updates):
        ctx.tag("conditional")
        expected = updates.marginal(keep)
        expected = Q.Quad(expected.vrs, expected.K, expected.h, expected.g + case["lw"])
        Q.assert_moments(factor.marginalize(list(keep), keep=True), expected, "the marginal of conditional variables", 1e-4)
    if case["marginal_x"] and usable(inputs):
        ctx.tag("conditioning")
        Q.assert_moments(factor.marginalize(list(case["marginal_x"]), keep=True), inputs.marginal(case["marginal_x"]),
                         "the marginal of conditioning variables", 1e-4)
    unknown = case["unknown"]
    if not set(unknown) <= set(updates.vrs) and not set(unknown) <= set(inputs.vrs):
        ctx.tag("unknown")
        marginal = factor.marginalize(list(unknown), keep=True)
        if set(marginal.var_names) != set(unknown) or not marginal.is_vacuous:
            raise Violation(f"the marginal of {unknown}, about which nothing is known, is {marginal}")
    # once the input is complete, everything that was absorbed counts
    factor = factor.multiply(Q.build(case["rest"]))
    joint = affine_joint(case).multiply(inputs).multiply(Q.ref_of(case["rest"])).multiply(updates)
    joint = Q.Quad(joint.vrs, joint.K, joint.h, joint.g + case["lw"])
    if usable(joint, 1e4):
        ctx.tag("completed")
        Q.assert_quad(factor.joint_distribution, joint, "the joint distribution with the complete input", seed, 1e-4)


@st.composite
def mixture_case(draw):
    vrs = draw(Q.names(2, 4))
    nx = draw(st.integers(1, min(2, len(vrs) - 1)))
    x, y = vrs[:nx], vrs[nx:nx + 2]
    case = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), True)), "N": draw(Q.covariance(len(y), SCALES)).tolist(),
            "template": False, "lw": 0.0, "seed": draw(st.integers(0, 999)), "split": draw(st.booleans()),
            "route": draw(st.sampled_from(["nlg", "mixture"])), "nlgs": draw(st.integers(1, 2)),
            "input": draw(mixture_over(draw(st.permutations(x)), 1, 3, far=False)),
            "shift": draw(st.sampled_from([0, 1.5]))}
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["update", "update_mixture", "divide", "divide_mixture", "reduce", "copy"]))
        op = {"op": kind}
        if kind in ("update", "divide"):
            op["f"] = draw(Q.gaussian_over(draw(Q.subset(y, low=1)), scales=SCALES, means=MEANS))
        elif kind in ("update_mixture", "divide_mixture"):
            op["f"] = draw(mixture_over(draw(Q.subset(y, low=1)), 2, 3, far=False))
        elif kind == "reduce":
            op["vars"] = draw(Q.subset(x + y, low=1, high=1))
            op["values"] = [draw(st.sampled_from([0, 1.0, -2, 0.5]))]
        ops.append(op)
    case["ops"] = ops
    case["marginal"] = draw(Q.subset(x + y, low=1))
    return case


@check("N02", "mixtures", mixture_case(), quick=2500, thorough=40000, weight=2,
       rule="a mixture of affine nonlinear Gaussians that absorbs a Gaussian mixture and a history of up to three further products, "
            "quotients and observations; non-trivial: the result has two or more components.")
def mixtures_body(case, ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

    seed, x = case["seed"], case["x"]
    bases = [affine_joint(case)]
    nlg = make_nlg(case)
    second = dict(case, transform=dict(case["transform"], b=[b + case["shift"] for b in case["transform"]["b"]]))
    factors = [nlg]
    source = build_mixture(case["input"])
    source_ref = mix_of(case["input"])
    # single one-dimensional Gaussians are replaced by three components with the same moments
    splitting = case["split"] and len(x) == 1 and len(case["input"]) == 1
    if case["route"] == "nlg":
        factor = nlg.multiply(source)
        splitting = False
    else:
        if case["nlgs"] == 2:
            factors.append(make_nlg(second))
            bases.append(affine_joint(second))
        factor = NonLinearGaussianMixture(factors, split_singles_before_absorb=case["split"])
        factor = factor.multiply(source if len(case["input"]) > 1 or seed % 2 else source.components[0])
    if not isinstance(factor, NonLinearGaussianMixture):
        raise Violation(f"the product with a mixture is a {type(factor)}")
    ref = Mix([base.multiply(p) for base in bases for p in source_ref.parts])
    evidence = {}

    def compare(what):
        if not ref.vrs or not all(usable(p, 1e4) for p in ref.parts):
            return False
        joint = factor.joint_distribution
        if not isinstance(joint, GaussianMixture):
            raise Violation(f"{what}: the joint distribution is a {type(joint)}")
        if splitting:
            total, mean, cov = ref.moments()
            Q.assert_moments(joint.moment_match_to_single_gaussian(), Q.Quad.from_moments(ref.vrs, cov, mean, total),
                             what + ": moments of the joint distribution", 1e-5)
        else:
            assert_mix(joint, ref, what + ": joint distribution", seed, 1e-5)
        return True

    compare("product")
    for step, op in enumerate(case["ops"]):
        if splitting:
            break  # further products do not commute with the approximation
        kind = op["op"]
        if kind == "reduce":
            new = dict(zip(op["vars"], op["values"]))
            if set(new) & set(evidence) or len(evidence) + 1 >= len(bases[0].vrs):
                continue
            evidence.update(new)
            factor, ref = factor.reduce(list(new), list(new.values())), ref.map(lambda p, e=new: p.reduce(e))
        elif kind == "copy":
            factor = factor.copy()
        else:
            specs = op["f"] if isinstance(op["f"], list) else [op["f"]]
            vrs = specs[0]["vars"]
            if set(vrs) & set(evidence):
                continue
            split_now = case["route"] == "nlg" or case["split"]
            if kind == "update" and split_now and len(vrs) == 1:
                continue
            if kind == "update":
                other = Q.ref_of(op["f"])
                factor, ref = factor.multiply(Q.build(op["f"])), ref.map(lambda p, o=other: p.multiply(o))
            elif kind == "divide":
                other = Q.ref_of(op["f"])
                factor, ref = factor.divide(Q.build(op["f"])), ref.map(lambda p, o=other: p.divide(o))
            elif kind == "update_mixture":
                if len(ref.parts) * len(specs) > 16:
                    continue
                factor = factor.multiply(build_mixture(specs))
                ref = Mix([p.multiply(o) for p in ref.parts for o in mix_of(specs).parts])
            else:
                total, mean, cov = mix_of(specs).moments()
                other = Q.Quad.from_moments(vrs, cov, mean, total)
                factor, ref = factor.divide(build_mixture(specs)), ref.map(lambda p, o=other: p.divide(o))
        ctx.tag(kind)
        compare(f"step {step} ({kind})")
    ctx.tag("split" if splitting else "exact")
    ctx.nontrivial = len(ref.parts) >= 2 or splitting
    keep = [v for v in case["marginal"] if v not in evidence]
    if keep and ref.vrs and all(usable(p, 1e4) for p in ref.parts):
        ctx.tag("marginal")
        marginal = factor.marginalize(keep)
        marginal_ref = ref.map(lambda p: p.marginal(keep))
        if not isinstance(marginal, GaussianMixture):
            raise Violation(f"the marginal is a {type(marginal)}")
        if splitting:
            total, mean, cov = marginal_ref.moments()
            Q.assert_moments(marginal.moment_match_to_single_gaussian(), Q.Quad.from_moments(keep, cov, mean, total),
                             "moments of the marginal", 1e-5)
        else:
            assert_mix(marginal, marginal_ref, "marginal", seed, 1e-5)
    assert_mix(source, source_ref, "the absorbed mixture", seed)
