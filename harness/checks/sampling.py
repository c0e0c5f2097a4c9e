"""
X04: samples against the distribution functions of the represented distributions.
"""
import math

import numpy as np
from scipy.special import ndtr

from harness import gen as st
from harness import quadratic as Q
from harness.checks.mixture import Mix, build_mixture, mix_of, mixture_over
from harness.checks.nonlinear import make_nlg, sigma_joint, transform_for
from harness.core import Violation, check, prop

LIMIT = 3.8  # of sqrt(n) times the Kolmogorov-Smirnov distance: it is exceeded with probability 6e-13
SIGMAS = 7.5

prop("X04", [
    "Each case draws 1 to 20000 samples and compares the distribution functions of their projections on the axes and on drawn "
    f"directions with the exact ones (for all the samples, the first half and every other one) (Kolmogorov-Smirnov, sqrt(n) D < {LIMIT}, exceeded by correct code with probability below "
    f"1e-12 per test), their mean and (Gaussian) covariance within {SIGMAS} standard errors, and the shares of separated "
    "components. Deviations below about 3 % of a standard deviation are not detected.",
])

MEANS = [0, 1, -1, 2, 0.5, -3, 10, -7.25, 100]
SCALES = (1, 1, 1, 0.01, 100, 1e-8, 1e8)


def check_shape(samples, dim, number, what):
    samples = np.asarray(samples)
    if samples.shape != (dim, number):
        raise Violation(f"{what}: {number} samples of {dim} variables have the shape {samples.shape}")
    if not np.all(np.isfinite(samples)):
        raise Violation(f"{what}: samples that are not finite")
    return samples


def check_distribution(samples, mix, names, directions, what, half=False):
    """
    mix: the normalised reference.
    """
    n = samples.shape[1]
    parts = [p.reorder(names) for p in mix.parts]
    log_weights = np.array([p.log_weight() for p in parts])
    weights = np.exp(log_weights - log_weights.max())
    weights /= weights.sum()
    for direction in list(np.eye(len(names))) + directions:
        values = np.sort(direction @ samples)
        cdf = np.zeros(n)
        for weight, part in zip(weights, parts):
            cdf += weight * ndtr((values - direction @ part.mean()) / math.sqrt(direction @ part.cov() @ direction))
        distance = max(np.max(np.arange(1, n + 1) / n - cdf), np.max(cdf - np.arange(n) / n))
        if distance * math.sqrt(n) > LIMIT:
            raise Violation(f"{what}: the {n} samples of {names} along {direction.tolist()} do not follow the represented "
                            f"distribution: Kolmogorov-Smirnov distance {distance}")
    if n >= 1000 and not half:  # any part of the samples follows the same distribution
        check_distribution(samples[:, :n // 2], mix, names, directions[:1], what + " (the first half)", half=True)
        check_distribution(samples[:, 1::2], mix, names, directions[:1], what + " (every other sample)", half=True)
    _, mean, cov = Mix(parts).moments()
    error = np.abs(samples.mean(axis=1) - mean)
    if n >= 100 and np.any(error > SIGMAS * np.sqrt(np.diag(cov) / n) + 1e-12 * np.abs(mean)):
        raise Violation(f"{what}: the mean of the {n} samples is {samples.mean(axis=1).tolist()} instead of {mean.tolist()}")
    if len(parts) == 1 and n >= 1000:
        got = np.cov(samples).reshape(cov.shape)
        spread = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov ** 2) / n)
        if np.any(np.abs(got - cov) > SIGMAS * spread):
            raise Violation(f"{what}: the covariance of the {n} samples is {got.tolist()} instead of {cov.tolist()}")


def draw_directions(seed, parts, number=3):
    rng = np.random.default_rng(seed)
    scale = np.sqrt(np.mean([np.diag(p.cov()) for p in parts], axis=0))
    return [rng.normal(0, 1, len(scale)) / scale for _ in range(number)]


@st.composite
def gaussian_case(draw):
    spec = draw(Q.gaussian_over(draw(Q.names(1, 4)), scales=SCALES, means=MEANS))
    return {"f": spec, "n": draw(st.sampled_from([20000, 20000, 5000, 1, 2, 17])), "seed": draw(st.integers(0, 99999)),
            "twice": draw(st.booleans())}


@check("X04", "gaussian", gaussian_case(), quick=6000, thorough=100000,
       rule="a Gaussian in covariance or canonical form and a number of samples; non-trivial: at least 5000 samples.")
def gaussian_body(case, ctx):
    factor, ref = Q.build(case["f"]), Q.ref_of(case["f"])
    names = list(factor.var_names)
    ctx.nontrivial = case["n"] >= 5000
    np.random.seed(case["seed"])
    samples = check_shape(factor.sample(case["n"]), len(names), case["n"], "Gaussian.sample")
    directions = draw_directions(case["seed"], [ref.reorder(names)])
    check_distribution(samples, Mix([ref]), names, directions, "Gaussian.sample")
    if case["twice"] and case["n"] > 1:
        again = check_shape(factor.sample(case["n"]), len(names), case["n"], "the second Gaussian.sample")
        if np.array_equal(samples, again):
            raise Violation("Gaussian.sample: the same samples twice")
        check_distribution(again, Mix([ref]), names, directions, "the second Gaussian.sample")


@st.composite
def mixture_case(draw):
    case = {"f": draw(mixture_over(draw(Q.names(1, 3)), 1, 4)), "n": draw(st.sampled_from([1500, 1500, 4000, 1, 3])),
            "seed": draw(st.integers(0, 99999)), "chunk": draw(st.sampled_from([None, 1, 2, 7, 5]))}
    if draw(st.booleans()):  # components far apart
        for i, part in enumerate(case["f"]):
            part["mean"] = [m + 1000.0 * i for m in part["mean"]]
        case["apart"] = True
    return case


@check("X04", "mixture", mixture_case(), quick=1600, thorough=30000,
       rule="a mixture of one to four components (also far apart, and with weights far from one); non-trivial: at least 1500 "
            "samples of at least two components.")
def mixture_body(case, ctx):
    factor, ref = build_mixture(case["f"]), mix_of(case["f"])
    names = list(factor.var_names)
    n = case["n"]
    ctx.nontrivial = n >= 1500 and len(ref.parts) > 1
    ctx.tag(f"{len(ref.parts)}_components")
    np.random.seed(case["seed"])
    if case.get("chunk"):  # a few samples at a time
        ctx.tag("chunks")
        chunk = case["chunk"]
        n = max(chunk, min(n, 600 if chunk == 1 else 1500) // chunk * chunk)
        samples = np.concatenate([check_shape(factor.sample(chunk), len(names), chunk, "GaussianMixture.sample")
                                  for _ in range(n // chunk)], axis=1)
    else:
        samples = check_shape(factor.sample(n), len(names), n, "GaussianMixture.sample")
    check_distribution(samples, ref, names, draw_directions(case["seed"], ref.parts), "GaussianMixture.sample")
    if case.get("apart"):
        ctx.tag("apart")
        log_weights = np.array([p.log_weight() for p in ref.parts])
        weights = np.exp(log_weights - log_weights.max())
        weights /= weights.sum()
        means = np.array([p.reorder(names).mean()[0] for p in ref.parts])
        nearest = np.argmin(np.abs(samples[0][:, None] - means[None, :]), axis=1)
        for k, weight in enumerate(weights):
            count = int(np.sum(nearest == k))
            if abs(count - n * weight) > SIGMAS * math.sqrt(n * weight * (1 - weight)) + 4.0:
                raise Violation(f"GaussianMixture.sample: {count} of {n} samples come from component {k} with the weight {weight}")


@st.composite
def nonlinear_case(draw):
    vrs = draw(Q.names(2, 4))
    nx = draw(st.integers(1, len(vrs) - 1))
    x, y = vrs[:nx], vrs[nx:]
    means, scales = [0, 1, -1, 0.5], (1, 0.1)
    case = {"x": x, "y": y, "transform": draw(transform_for(nx, len(y), draw(st.booleans()))),
            "N": draw(Q.covariance(len(y), scales)).tolist(), "template": draw(st.booleans()), "lw": 0.0}
    components = draw(st.sampled_from([1, 1, 2, 3]))
    case["inputs"] = [draw(Q.gaussian_over(draw(st.permutations(x)) if components == 1 else x, scales=scales, means=means))
                      for _ in range(components)]
    case["update"] = draw(Q.gaussian_over(y, scales=scales, means=means)) if draw(st.booleans()) else None
    case["n"] = draw(st.sampled_from([1500, 1, 4]) if components > 1 else st.sampled_from([20000, 5000, 1, 4]))
    case["seed"] = draw(st.integers(0, 99999))
    return case


@check("X04", "nonlinear", nonlinear_case(), quick=1600, thorough=30000,
       rule="a nonlinear Gaussian factor with a Gaussian or a mixture over its conditioning variables; the reference is the sigma "
            "point joint distribution; non-trivial: at least 1500 samples.")
def nonlinear_body(case, ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    ctx.nontrivial = case["n"] >= 1500
    specs = case["inputs"]
    factor = make_nlg(case)
    parts = [Q.build(s) for s in specs]
    factor = factor.multiply(parts[0] if len(parts) == 1 else GaussianMixture(parts))
    update = None
    if case["update"]:
        update = Q.ref_of(case["update"])
        factor = factor.multiply(Q.build(case["update"]))
        if hasattr(factor, "nlgs") and len(case["y"]) == 1:
            ctx.nontrivial = False
            ctx.tag("split")  # the update is split: its mean and covariance remain, its shape does not
            return
    ctx.tag("mixture" if len(parts) > 1 else "single")
    joints = [sigma_joint(case, Q.ref_of(s), update, {}, s["vars"]) for s in specs]
    if not all(j.proper() and j.condition() < 1e6 for j in joints):
        return
    names = list(factor.joint_distribution.var_names)
    np.random.seed(case["seed"])
    samples = check_shape(factor.sample(case["n"]), len(names), case["n"], "NonLinearGaussian.sample")
    ref = Mix(joints)
    check_distribution(samples, Mix([j.reorder(names) for j in joints]), names,
                       draw_directions(case["seed"], [j.reorder(names) for j in ref.parts]), "NonLinearGaussian.sample")
