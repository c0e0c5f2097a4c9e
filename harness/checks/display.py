"""
X07: what is printed and plotted of factors and cluster graphs against their values.
"""
import contextlib
import io
import math
import re

import numpy as np

from harness import discrete as D
from harness import gen as st
from harness import quadratic as Q
from harness.checks import cluster_graph as CG
from harness.checks.mixture import build_mixture, mix_of, mixture_over
from harness.checks.nonlinear import make_nlg, transform_for
from harness.checks.purity import build_any, kind_of, pool_case
from harness.core import Violation, check, prop

prop("X07", [
    "Figures are drawn by matplotlib with the Agg backend; the data of their lines, bars and contours are judged, not the pixels.",
    "Only factors of one or two variables can be plotted by design (Gaussians, mixtures and non-linear Gaussians).",
    "Printed numbers have at least three significant digits relative to the largest entry of the same array.",
])

MEANS = [0, 1, -1, 2, 0.5, 30]
SCALES = (1, 1, 0.1, 10)


def pyplot():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    return plt


# ----------------------------------------------------------------------------------------------------------------------
# text

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)")


def printed(func):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        func()
    return out.getvalue()


def sections_of(text):
    """
    The arrays in a printout: a list of (title, numbers).
    """
    result = []
    title, numbers = None, []
    for line in text.split("\n"):
        match = re.match(r"^\s*(\w+)\s*=\s*(.*)$", line)
        if match:
            if title is not None:
                result.append((title, numbers))
            title, numbers = match.group(1), []
            line = match.group(2)
        elif re.match(r"^\s*\w+:", line) or re.match(r"^\s*[A-Za-z]", line):
            if title is not None:
                result.append((title, numbers))
            title = None
            continue
        if title is not None and title not in ("vars",):
            numbers.extend(float(x) for x in NUMBER.findall(line.replace("[", " ").replace("]", " ")))
    if title is not None:
        result.append((title, numbers))
    return result


TITLES = {"prec": "get_prec", "h": "get_h", "g": "get_g", "cov": "get_cov", "mean": "get_mean", "log_weight": "get_log_weight"}


def check_gaussian_text(text, gaussian, what):
    """
    Every number that is printed of a Gaussian under a known title is the number of that parameter.
    """
    gaussian = gaussian.copy()
    if not all(v in text for v in gaussian.var_names):
        raise Violation(f"{what}: the text does not name all the variables of {gaussian.var_names}: {text!r}")
    count = 0
    for title, numbers in sections_of(text):
        if title not in TITLES:
            continue
        try:
            want = np.asarray(getattr(gaussian, TITLES[title])(), dtype=float).ravel()
        except Exception:  # pylint: disable=broad-except
            continue
        count += 1
        if not np.all(np.isfinite(want)):
            continue
        if len(numbers) != len(want):
            raise Violation(f"{what}: {title} is printed as {numbers} instead of {want.tolist()}")
        scale = np.abs(want).max(initial=0.0)
        if not np.all(np.abs(np.array(numbers) - want) <= 1e-3 * scale + 1e-4):
            raise Violation(f"{what}: {title} is printed as {numbers} instead of {want.tolist()}")
    return count


def check_nlg_text(text, nlg):
    """
    The printout of a non-linear Gaussian shows its noise, its joint distribution and the distributions it was multiplied by.
    """
    pieces = re.split(r"(noise covariance|joint_distribution|conditional update distribution|conditioning distribution)\s*=", text)
    pieces = dict(zip(pieces[1::2], pieces[2::2]))
    if len(pieces) < 4:
        raise Violation(f"the printout of a non-linear Gaussian only shows {list(pieces)}: {text!r}")
    numbers = [float(x) for x in NUMBER.findall(re.sub(r"[\[\]]", " ", pieces["noise covariance"]))]
    noise = np.asarray(nlg.noise_cov, dtype=float).ravel()
    if len(numbers) != len(noise) or not np.allclose(numbers, noise, rtol=1e-3, atol=1e-4 + 1e-3 * np.abs(noise).max()):
        raise Violation(f"the noise covariance is printed as {numbers} instead of {noise.tolist()}")
    for title, part in (("joint_distribution", nlg.joint_distribution), ("conditional update distribution",
                                                                         nlg.conditional_update_factor),
                        ("conditioning distribution", nlg.conditioning_factor)):
        if part is not None and not check_gaussian_text(pieces[title], part, f"printout of the {title}"):
            raise Violation(f"the {title} of a non-linear Gaussian is not printed: {text!r}")


@check("X07", "prints", pool_case(), quick=3000, thorough=60000,
       rule="factors of every type are shown and represented as text; the parameters of Gaussians (also in mixtures and factorised "
            "factors) are read back; non-trivial: a factor of two or more variables.")
def prints_body(case, ctx):
    for spec in case["pool"]:
        factor = build_any(spec)
        kind = kind_of(factor)
        ctx.tag(kind)
        ctx.nontrivial = ctx.nontrivial or len(factor.var_names) >= 2
        if kind == "gaussian":
            warm = factor.copy()
            sections = check_gaussian_text(repr(factor), factor, "representation")
            text = printed(factor.show)
            check_gaussian_text(text, factor, "printout")
            if sections == 0:
                raise Violation(f"the representation shows no parameters: {factor!r}")
            with contextlib.suppress(Exception):
                warm.get_cov()
                warm.get_prec()
            check_gaussian_text(repr(warm), factor, "representation")
            check_gaussian_text(printed(warm.show), factor, "printout")
        elif kind in ("mixture", "factorised"):
            parts = factor.components if kind == "mixture" else factor.factors
            text = printed(factor.show)
            pieces = re.split(r"(?:component|factor)\s+\d+\s*/\s*\d+:?", text)
            if len(pieces) != len(parts) + 1:
                raise Violation(f"a {kind} of {len(parts)} parts is printed in {len(pieces) - 1} parts: {text!r}")
            for piece, part in zip(pieces[1:], parts):
                check_gaussian_text(piece, part, f"printout of a {kind}")
        elif kind in ("nlg", "nlgs"):
            for other in case["pool"][1:]:
                if "gaussian" in other and sum(factor.var_names.index(v) for v in other["gaussian"]["vars"]) % 3:
                    factor = factor.multiply(build_any(other))
            text = printed(factor.show)
            if not all(v in text for v in factor.var_names):
                raise Violation(f"the printout does not name all the variables of {factor.var_names}: {text!r}")
            for nlg, text in [(factor, text)] if kind == "nlg" else zip(factor.nlgs, re.split(r"NLG \d+ ", text)[1:]):
                check_nlg_text(text, nlg)
                ctx.tag("conditioned" if nlg.conditioning_factor is not None else "unconditioned")
        else:
            text = printed(factor.show)
            if repr(factor).strip() != text.strip():
                raise Violation(f"the printout {text!r} differs from the representation {factor!r}")
            if not all(v in text for v in factor.var_names):
                raise Violation(f"the printout does not name all the variables of {factor.var_names}: {text!r}")
        if kind in ("gaussian", "dense", "sparse"):
            from veroku._cg_helpers._cluster import Message

            text = repr(Message(factor, "the sender", "the receiver"))
            if "the sender" not in text or "the receiver" not in text or repr(factor) not in text:
                raise Violation(f"a message is represented by {text!r}")


# ----------------------------------------------------------------------------------------------------------------------
# plots of functions


@st.composite
def function_case(draw):
    dims = 1 if draw(st.integers(0, 2)) < 2 else 2
    kind = draw(st.sampled_from(["gaussian", "mixture", "nlg", "nlgs"] if dims == 2 else ["gaussian", "mixture"]))
    vrs = draw(Q.names(dims, dims))
    case = {"kind": kind, "dims": dims, "log": draw(st.booleans()), "limits": None, "parts_shown": False, "vars": vrs}
    if kind == "gaussian":
        case["f"] = draw(Q.gaussian_over(vrs, scales=SCALES, means=MEANS))
    elif kind == "mixture":
        case["f"] = draw(mixture_over(vrs, 1, 4, far=False))
        case["parts_shown"] = draw(st.booleans())
        if len(case["f"]) > 1 and draw(st.booleans()):  # close to each other, of very different widths
            for part in case["f"]:
                part.update(mean=[draw(st.sampled_from([0, 1, -1, 0.5])) for _ in vrs],
                            cov=(np.eye(dims) * draw(st.sampled_from([0.01, 25.0, 1.0]))).tolist())
    else:
        case["f"] = {"x": vrs[:1], "y": vrs[1:], "transform": draw(transform_for(1, 1, False)),
                     "N": draw(Q.covariance(1, SCALES)).tolist(), "lw": 0.0, "template": False}
        case["inputs"] = draw(st.lists(Q.gaussian_over(vrs[:1], scales=SCALES, means=MEANS), min_size=1, max_size=2))
    if draw(st.booleans()):
        case["limits"] = [draw(st.sampled_from([[0, 1], [-3.5, 2], [10, 20]])) for _ in range(dims)]
        if dims == 2 and draw(st.integers(0, 3)) == 3:
            case["limits"][draw(st.integers(0, 1))] = None
    return case


@check("X07", "functions", function_case(), quick=260, thorough=2500, weight=3,
       rule="the curve (one variable) or contours (two) of a Gaussian, mixture or non-linear Gaussian, over given or default limits, "
            "as potentials or log potentials; every plotted value is compared; non-trivial: all.")
def functions_body(case, ctx):
    from unittest import mock

    import matplotlib.axes

    plt = pyplot()
    kind = case["kind"]
    ctx.tag(kind, f"dims_{case['dims']}", "log" if case["log"] else "potential", "limits" if case["limits"] else "default_limits")
    ctx.nontrivial = True
    kwargs = {}
    if kind == "gaussian":
        factor = Q.build(case["f"])
        refs = [Q.ref_of(case["f"])]
    elif kind == "mixture":
        factor = build_mixture(case["f"])
        refs = mix_of(case["f"]).parts
        if case["parts_shown"] and case["dims"] == 1:
            kwargs["show_individual_components"] = True
    else:
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

        parts = [make_nlg(case["f"]).multiply(Q.build(f)) for f in case["inputs"]]
        refs = []
        for part in parts:
            joint = part.copy().joint_distribution
            refs.append(Q.Quad(joint.var_names, joint.get_prec(), joint.get_h(), float(joint.get_g())))
        if kind == "nlg":
            factor, refs = parts[0], refs[:1]
        else:
            factor = NonLinearGaussianMixture(parts)
    names = list(factor.var_names) if kind in ("gaussian", "mixture") else refs[0].vrs
    log = case["log"] and kind in ("gaussian", "mixture")
    limits = case["limits"] if kind in ("gaussian", "mixture") else None
    if log:
        kwargs["log"] = True
    if limits:
        for key, limit in zip(("xlim", "ylim"), limits):
            if limit:
                kwargs[key] = list(limit)
    if limits and None in limits:
        ctx.tag("partial_limits")
        if kind == "mixture":  # (which then chooses both)
            limits = None
    recorded = []

    def recording(name):
        original = getattr(matplotlib.axes.Axes, name)

        def record(self, *args, **options):
            if self.get_label() != "<colorbar>":
                recorded.append([np.array(a, dtype=float) for a in args[:3]])
            return original(self, *args, **options)
        return mock.patch.object(matplotlib.axes.Axes, name, record)

    def value(chosen, point):
        logs = [r.log_at(dict(zip(names, point))) for r in chosen]
        top = max(logs)
        total = top + math.log(sum(math.exp(x - top) for x in logs))
        return total if log else (math.exp(total) if total < 700 else math.inf)

    def agree(chosen, points, got, what):
        want = np.array([value(chosen, p) for p in points])
        scale = np.abs(want) + max(1e-6, min(np.abs(want).max(initial=0.0), 1e6)) * 1e-6
        size = max(r.magnitude(dict(zip(names, p))) for r in chosen for p in (points[0], points[-1]))
        got = np.asarray(got, dtype=float)
        with np.errstate(invalid="ignore", over="ignore"):
            bad = ~(np.abs(got - want) <= 1e-6 * size * (scale if not log else 1))
        # (what a float can barely hold, or not)
        bad &= ~((want > 1e290) & (got > 1e280))
        if np.any(bad):
            i = int(np.argmax(bad))
            return f"{what} shows {got[i]} at {dict(zip(names, points[i]))} instead of {want[i]}"
        return None

    with contextlib.ExitStack() as stack:
        for name in ("contourf", "contour", "pcolormesh", "pcolor"):
            stack.enter_context(recording(name))
        factor.plot(**kwargs)
    axes = plt.gcf().axes
    if case["dims"] == 1:
        lines = axes[0].get_lines() if axes else []
        if len(lines) != 1 + (len(refs) if "show_individual_components" in kwargs else 0):
            raise Violation(f"the plot of a {kind} has {len(lines)} lines")
        curves = []
        for line in lines:
            x = np.asarray(line.get_xdata(), dtype=float).ravel()
            curves.append(([(t,) for t in x], np.asarray(line.get_ydata(), dtype=float).ravel()))
            cover(limits, refs, [x], what="the plot")
        problem = agree(refs, *curves[-1], f"the curve of a {kind}")
        if problem:
            raise Violation(problem)
        for ref, curve in zip(refs, curves[:-1]):
            problem = agree([ref], *curve, "the curve of a component")
            if problem:
                raise Violation(problem)
    else:
        if not recorded:
            raise Violation("a function of two variables is not plotted (by contours or colours)")
        for x, y, z in recorded:
            if z.ndim != 2:
                raise Violation(f"a function of two variables is plotted with values of the shape {z.shape}")
            if x.ndim == 1:
                x, y = np.meshgrid(x, y)
            cover(limits, [r.reorder(names) for r in refs], [x.ravel(), y.ravel()], what="the plot")
            pick = np.random.default_rng(1).integers(0, z.size, 60)
            points = [(x.ravel()[i], y.ravel()[i]) for i in pick]
            problem = agree(refs, points, z.ravel()[pick], f"the contour plot of a {kind}")
            if problem:
                raise Violation(problem)
        labels = [axes[0].get_xlabel(), axes[0].get_ylabel()]
        if labels != names:
            raise Violation(f"the axes for {names} are labelled {labels}")
    plt.close("all")


def cover(limits, refs, coordinates, what):
    """
    The given limits are used, the default ones show the means of all the components and their standard deviations.
    """
    for k, x in enumerate(coordinates):
        low, high = x.min(), x.max()
        if limits and limits[k]:
            if not (np.isclose(low, limits[k][0]) and np.isclose(high, limits[k][1])):
                raise Violation(f"{what} has the range {low} to {high} instead of {limits[k]}")
            continue
        for ref in refs:
            mean, spread = ref.mean()[k], math.sqrt(ref.cov()[k, k])
            if low > mean - spread or high < mean + spread:
                raise Violation(f"{what} has the range {low} to {high}, but the mean is {mean} with standard deviation {spread}")


# ----------------------------------------------------------------------------------------------------------------------
# bars


@st.composite
def bars_case(draw):
    if draw(st.integers(0, 2)) == 2:
        return {"gaussian": draw(Q.gaussian_over(draw(Q.names(1, 4)), scales=SCALES, means=MEANS))}
    uni = draw(D.universe(min_vars=1, max_vars=3, max_card=3, max_size=12))
    uni["anames"] = [(D.ASSIGNMENT_NAMES * 2)[i:i + c] for i, c in enumerate(uni["cards"])]
    return {"discrete": draw(D.factor_over(uni, draw(D.scope_of(uni)), kind="dense", named=draw(st.booleans())))}


@check("X07", "bars", bars_case(), quick=200, thorough=3000, weight=2,
       rule="the bar plot of a categorical factor with or without assignment names, or the heat map and bars of a Gaussian's parameters; "
            "non-trivial: two or more variables.")
def bars_body(case, ctx):
    plt = pyplot()
    if "gaussian" in case:
        ctx.tag("gaussian")
        ref = Q.ref_of(case["gaussian"])
        ctx.nontrivial = len(ref.vrs) >= 2
        Q.build(case["gaussian"]).show_vis()
        plt.gcf().canvas.draw()
        heat = [a for a in plt.gcf().axes if len(a.texts) == len(ref.vrs) ** 2 and a.texts]
        if heat:
            shown = np.array([float(t.get_text().replace("−", "-")) for t in heat[0].texts])
            want = ref.cov().ravel()
            if not np.all(np.abs(shown - want) <= 0.06 * np.abs(want) + 1e-9 * np.abs(want).max()):
                raise Violation(f"the heat map shows {shown.tolist()} for the covariance {want.tolist()}")
            labels = [t.get_text() for t in heat[0].get_xticklabels()]
            if labels != ref.vrs:
                raise Violation(f"the heat map of the covariance of {ref.vrs} is labelled {labels}")
        bars = [a for a in plt.gcf().axes if len(a.patches) == len(ref.vrs)]
        if bars:
            heights = [p.get_height() for p in bars[0].patches]
            if not np.allclose(heights, ref.mean(), rtol=1e-6, atol=1e-6 * (1 + np.abs(ref.mean()).max())):
                raise Violation(f"the bars have heights {heights} for the mean {ref.mean().tolist()}")
            labels = [t.get_text() for t in bars[0].get_xticklabels()]
            if labels != ref.vrs:
                raise Violation(f"the bars of the mean of {ref.vrs} are labelled {labels}")
        if not heat or not bars:
            raise Violation(f"the covariance and mean of {ref.vrs} are not shown")
    else:
        spec = case["discrete"]
        ctx.tag("discrete", "named" if spec.get("names") else "unnamed")
        ref = D.ref_of(spec)
        ctx.nontrivial = len(spec["vars"]) >= 2
        factor = D.build(spec)
        factor.plot()
        axis = plt.gcf().axes[0]
        plt.gcf().canvas.draw()
        widths = {}
        for patch, label in zip(axis.patches, axis.get_yticklabels()):
            widths[label.get_text()] = patch.get_width()
        if len(widths) != len(ref.values):
            raise Violation(f"{len(widths)} bars for {len(ref.values)} assignments")
        position = {}
        for name, card in zip(spec["vars"], spec["cards"]):
            position[name] = [str(factor.vars_assignments_names_dict[name][i]) for i in range(card)]
            if spec.get("names") and position[name] != [str(x) for x in dict(zip(spec["vars"], spec["names"]))[name]]:
                raise Violation(f"the assignments of {name} are named {position[name]}")
        for assignment, value in ref.values.items():
            label = ", ".join(position[v][ref_value] for v, ref_value in sorted(
                zip(ref.vrs, assignment), key=lambda item: list(factor.var_names).index(item[0])))
            if label not in widths:
                raise Violation(f"no bar is labelled {label!r}: {sorted(widths)}")
            if not np.isclose(widths[label], math.exp(value), rtol=1e-6, atol=1e-12):
                raise Violation(f"the bar of {label!r} has the length {widths[label]} instead of {math.exp(value)}")
    plt.close("all")


# ----------------------------------------------------------------------------------------------------------------------
# plots of cluster graphs


@st.composite
def convergence_case(draw):
    return {"model": draw(CG.any_model()), "max_iter": draw(st.sampled_from([3, 1, 8])), "log": draw(st.booleans()),
            "legend": draw(st.booleans())}


@check("X07", "convergence", convergence_case(), quick=160, thorough=2500, weight=2,
       rule="the convergence and information gain plots of a processed cluster graph; non-trivial: two or more messages.")
def convergence_body(case, ctx):
    plt = pyplot()
    graph = CG.make_graph(case["model"])
    graph.process_graph(max_iter=case["max_iter"])
    distances = [float(d) for d in graph.sync_message_passing_max_distances]
    ctx.tag(f"messages_{min(len(distances), 9)}")
    ctx.nontrivial = len(distances) >= 2
    with np.errstate(all="ignore"):
        shown = np.log(distances) if case["log"] else np.array(distances)
    if len(distances) and not np.any(np.isnan(shown)):
        with np.errstate(all="ignore"):
            graph.plot_message_convergence(log=case["log"])
        lines = plt.gcf().axes[0].get_lines()
        x, y = np.asarray(lines[0].get_xdata(), dtype=float), np.asarray(lines[0].get_ydata(), dtype=float)
        marks = [(np.asarray(line.get_xdata(), dtype=float), np.ma.getmaskarray(line.get_ydata()) | ~np.isfinite(
            np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan))) for line in lines[1:]]
        top = max([v for v in shown if np.isfinite(v)], default=-math.inf)
        for i, want in enumerate(shown):
            got = y[np.isclose(x, i)]
            marked = any(np.any(~hidden[np.isclose(at, i)]) for at, hidden in marks)
            if len(got) == 0:
                raise Violation(f"the convergence plot shows no distance at message {i} of {len(shown)}")
            if want == np.inf:
                ctx.tag("infinite" if np.isfinite(top) else "only_infinite")
                if not (np.all(got > top) and marked):
                    raise Violation(f"the convergence plot shows {got} at message {i} for an infinite distance (largest finite {top}, "
                                    f"{'' if marked else 'not '}marked as infinite)")
            elif marked:
                raise Violation(f"the convergence plot marks the distance {want} at message {i} as infinite")
            elif not all(g == want or np.isclose(g, want, rtol=1e-9, atol=0) for g in got):
                raise Violation(f"the convergence plot shows {got} instead of {want} at message {i} (largest {top})")
        plt.close("all")
    graph.plot_next_messages_info_gain(legend_on=case["legend"])
    axis = plt.gcf().axes[0]
    lines = axis.get_lines()
    paths = list(graph.graph_message_paths)
    if len(lines) != len(paths):
        raise Violation(f"{len(lines)} information gain curves for {len(paths)} message paths")
    want = [([float(v) for v in p.information_gains_with_iters], f"{p.sender_cluster.cluster_id}->{p.receiver_cluster.cluster_id}")
            for p in paths]
    legend = axis.get_legend()
    if case["legend"] and paths:
        texts = [t.get_text() for t in legend.get_texts()] if legend else []
        shown_by = {h.get_label(): h for h in lines}
        if sorted(texts) != sorted(label for _, label in want):
            raise Violation(f"the legend {texts} does not name the message paths {[label for _, label in want]}")
        del shown_by
        curves = list(zip(texts, lines))
    else:
        curves = [(None, line) for line in lines]
    remaining = list(want)
    for text, line in curves:
        values = [float(v) for v in np.asarray(line.get_ydata(), dtype=float)]
        found = [w for w in remaining if (text is None or w[1] == text) and len(w[0]) == len(values) and
                 all(a == b or (a != a and b != b) for a, b in zip(w[0], values))]
        if not found:
            raise Violation(f"an information gain curve ({text}) shows {values}, which is none of {remaining}")
        remaining.remove(found[0])
    plt.close("all")
