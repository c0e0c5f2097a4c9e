"""
K05: the options of a cluster graph and questions between the runs make no difference.
"""
import contextlib
import io
import math
from unittest import mock

from harness import gen as st
from harness.checks import cluster_graph as CG
from harness.checks.figures import Recorder
from harness.core import Discard, Violation, check

QUESTIONS = ("marginal", "joint", "factors", "print", "edges", "plot", "gains", "recompute")


@st.composite
def options_case(draw):
    loopy = draw(st.booleans())
    if draw(st.booleans()):
        model = draw(CG.discrete_model(loopy=loopy, max_clusters=5, max_joint=200))
    else:
        model = draw(CG.gaussian_model(loopy=loopy, max_clusters=5))
    names = sorted({v for s in model["factors"] for v in s["vars"]} - set(CG.evidence_of(model)))
    special = draw(st.integers(0, 3)) == 0 and names and not loopy
    model["special"] = [[draw(st.sampled_from(names)), 0]] if special else []
    model["runs"] = [[draw(st.sampled_from([1e-3, 1e-6, 0.1, 0.0])), draw(st.sampled_from([1, 2, 3, 5]))]
                     for _ in range(draw(st.sampled_from([1, 2, 3])))]
    model["options"] = draw(Q_subset(["debug", "verbose", "tqdm", "animation"]))
    model["questions"] = [[draw(st.sampled_from(QUESTIONS)), draw(st.integers(0, 9)), draw(st.integers(0, 99))]
                          for _ in range(draw(st.integers(0, 4)))]
    return model


@st.composite
def Q_subset(draw, items):
    return [x for x in items if draw(st.booleans())]


def ask(graph, question, number, subset):
    import matplotlib.pyplot as plt

    clusters = CG.clusters_of(graph)
    cluster = clusters[number % len(clusters)]
    hidden = [v for v in cluster.var_names if v not in graph.special_evidence]
    if question == "marginal" and hidden:
        graph.get_marginal(CG.pick(hidden, subset))
    elif question == "joint":
        graph.get_posterior_joint()
    elif question == "factors" and cluster.var_names:
        factor = cluster.factor
        factor.normalize()
        factor.marginalize(CG.pick(cluster.var_names, subset), keep=True)
    elif question == "print":
        repr(cluster.factor)
        for path in graph.graph_message_paths:
            repr(path.next_message)
    elif question == "edges":
        for neighbour in cluster.neighbour_ids:
            cluster.get_sepset(neighbour).clear()
            cluster.make_message(neighbour)
    elif question == "plot" and len(graph.sync_message_passing_max_distances):
        with mock.patch.object(plt, "show", lambda *_, **__: None):
            graph.plot_message_convergence()
            graph.plot_next_messages_info_gain()
        plt.close("all")
    elif question == "gains":
        for path in graph.graph_message_paths:
            path.next_message.distance_from_vacuous()
    elif question == "recompute":
        for path in list(graph.graph_message_paths):
            message = path.sender_cluster.make_message(path.receiver_cluster.cluster_id)
            message.copy().factor.normalize()


@check("K05", "options", options_case(), quick=1500, thorough=30000,
       rule="the same runs on two graphs, one of which has options (recorded messages, output, progress bars, an animation) and is asked "
            "questions between the runs; non-trivial: at least four messages and an option or a question.")
def options_body(case, ctx):
    import graphviz
    import PIL.Image

    domain = CG.domain_of(case)
    special = {v: x for v, x in case["special"]}
    if special and domain is CG.Discrete and CG.reduced(CG.reference(case), special).all_zero():
        raise Discard()
    plain, other = CG.make_graph(case, special=dict(special)), CG.make_graph(case, special=dict(special))
    CG.shape_tags(plain, case, ctx)
    ctx.tag(*case["options"], *[q for q, _, _ in case["questions"]])
    other.debug = "debug" in case["options"]
    other.verbose = "verbose" in case["options"]
    other.disable_tqdm = "tqdm" not in case["options"]
    recorder = Recorder()
    for number, (tol, max_iter) in enumerate(case["runs"]):
        try:
            plain.process_graph(tol=tol, max_iter=max_iter)
        except ValueError:
            raise Discard() from None  # (numerical trouble on graphs with loops)
        with mock.patch.object(graphviz.Graph, "render", lambda self, *a, **k: recorder.render(self, *a, **k)), \
                mock.patch.object(PIL.Image, "open", recorder.open), \
                contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            other.process_graph(tol=tol, max_iter=max_iter, make_animation_gif="animation" in case["options"])
            for question, index, subset in case["questions"]:
                if special and question in ("joint", "factors"):
                    continue
                ask(other, question, index, subset)
        what = f"after run {number} with {case['options']} and {[q for q, _, _ in case['questions']]}"
        if plain.num_messages_passed != other.num_messages_passed:
            raise Violation(f"{what}: {other.num_messages_passed} messages were passed, without {plain.num_messages_passed}")
        distances = [[float(d) for d in g.sync_message_passing_max_distances] for g in (plain, other)]
        if len(distances[0]) != len(distances[1]) or not all(
                a == b or math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9) for a, b in zip(*distances)):
            raise Violation(f"{what}: the distances are {distances[1]}, without {distances[0]}")
        beliefs = [{c.cluster_id: domain.read(c.factor) for c in CG.clusters_of(g)} for g in (plain, other)]
        if set(beliefs[0]) != set(beliefs[1]):
            raise Violation(f"{what}: the clusters are {sorted(beliefs[1])}, without {sorted(beliefs[0])}")
        for cid, wanted in beliefs[0].items():
            domain.same(beliefs[1][cid], wanted, f"{what}: the factor of {cid}")
        if other.debug and len(other.passed_messages) != other.num_messages_passed:
            raise Violation(f"{what}: {len(other.passed_messages)} messages were recorded, {other.num_messages_passed} were passed")
    ctx.nontrivial = plain.num_messages_passed >= 4 and bool(case["options"] or case["questions"])
