"""
X06: the figure of a cluster graph, and the recolouring of its elements in the message passing animation.

The lines of a figure are read with a parser of our own for the subset of DOT that they use.
"""
import os
import re
import tempfile
from unittest import mock

from harness import gen as st
from harness.checks import cluster_graph as CG
from harness.core import Violation, check, prop

prop("X06", [
    "Names hold no double quotes, backslashes, colons, line breaks or '--' (they have a meaning of their own in DOT) and do not look "
    "like HTML.",
    "Rendering itself (the dot program) is replaced by a stand-in that records the figure; the frames of saved animations are images of one colour each.",
])

TOKEN = re.compile(r'"([^"]*)"|([^\s"=\[\]]+)')


def parse_line(line):
    """
    :return: ("node", name, attributes) or ("edge", a, b, attributes)
    """
    position = 0

    def skip():
        nonlocal position
        while position < len(line) and line[position].isspace():
            position += 1

    def token():
        nonlocal position
        skip()
        found = TOKEN.match(line, position)
        if not found:
            raise Violation(f"the line {line!r} of the figure is malformed at {position}")
        position = found.end()
        return found.group(1) if found.group(1) is not None else found.group(2)

    name = token()
    skip()
    other = None
    if line.startswith("--", position):
        position += 2
        other = token()
        skip()
    attributes = {}
    if position < len(line) and line[position] == "[":
        position += 1
        skip()
        while position < len(line) and line[position] != "]":
            key = token()
            if position >= len(line) or line[position] != "=":
                raise Violation(f"the line {line!r} of the figure is malformed at {position}")
            position += 1
            attributes[key] = token()
            skip()
        position += 1
    skip()
    if position != len(line):
        raise Violation(f"the line {line!r} of the figure has trailing text at {position}")
    return ("node", name, attributes) if other is None else ("edge", name, other, attributes)


def parse(body):
    """
    :return: (nodes: name -> attributes, edges: frozenset of names -> attributes)
    """
    nodes, edges = {}, {}
    for line in body:
        for part in line.splitlines():
            if not part.strip():
                continue
            item = parse_line(part)
            if item[0] == "node":
                if item[1] in nodes:
                    raise Violation(f"the figure has the node {item[1]} twice")
                nodes[item[1]] = item[2]
            else:
                key = frozenset(item[1:3])
                if key in edges:
                    raise Violation(f"the figure has the edge {sorted(key)} twice")
                edges[key] = item[3]
    return nodes, edges


# variable names that are awkward in regular expressions, or parts of one another
FIGURE_NAMES = ["a", "b", "x", "x_1", "x_10", "c1", "x(1)", "x[0]", "x.1", "a+b", "a|b", "p*", "x?", "{t}", "^a", "a$", "x y", "ba", "sepset",
                "x-1", "é", "1", "10", "label=x", "color", "fillcolor"]


def rename(model, draw):
    """Give the variables of a model the names of this module."""
    names = []
    for spec in model["factors"]:
        names += [v for v in spec["vars"] if v not in names]
    fresh = draw(st.permutations(FIGURE_NAMES))[:len(names)]
    mapping = dict(zip(names, fresh))
    for spec in model["factors"]:
        spec["vars"] = [mapping[v] for v in spec["vars"]]
    model["evidence"] = [[mapping[v], x] for v, x in model["evidence"] if v in mapping]
    return model


@st.composite
def figure_model(draw, max_clusters=7):
    model = draw(CG.discrete_model(loopy=draw(st.booleans()), max_clusters=max_clusters, max_joint=100))
    return rename(model, draw)


def make_separator_name(a, b):
    from veroku._cg_helpers._animation import make_sepset_node_name

    return make_sepset_node_name(a, b)


def check_figure(graph):
    """
    Compare the figure with the graph.
    :return: (nodes, edges, {frozenset of cluster ids: separator node name})
    """
    nodes, edges = parse(graph._graph.body)
    scopes = {c.cluster_id: list(c.var_names) for c in CG.clusters_of(graph)}
    separators = CG.edges_of(graph)
    if len(nodes) != len(scopes) + len(separators) or len(edges) != 2 * len(separators):
        raise Violation(f"the figure of {len(scopes)} clusters and {len(separators)} separators has {len(nodes)} nodes and {len(edges)} edges")
    for cluster, scope in scopes.items():
        if cluster not in nodes:
            raise Violation(f"the figure does not show the cluster {cluster} (it shows {sorted(nodes)})")
        label = nodes[cluster].get("label", cluster)
        if not label.endswith(",".join(scope)):
            raise Violation(f"the figure shows the cluster of {scope} with the label {label}")
    at = {}
    for node in nodes:
        if node in scopes:
            continue
        ends = [next(iter(e - {node})) for e in edges if node in e and len(e) == 2]
        if len(ends) != 2 or any(e not in scopes for e in ends):
            raise Violation(f"the separator {node} of the figure is linked to {ends}")
        pair = frozenset(ends)
        if pair not in separators or pair in at:
            raise Violation(f"the figure has a separator between {ends}; the graph: {[sorted(p) for p in separators]}")
        label = nodes[node].get("label", node)
        if sorted(label.split(",")) != sorted(separators[pair]):
            raise Violation(f"the separator {separators[pair]} between {ends} is shown as {label}")
        at[pair] = node
    return nodes, edges, at


@check("X06", "figure", figure_model(), quick=600, thorough=12000,
       rule="a cluster graph of up to seven clusters with drawn variable names, its figure is read back; non-trivial: at least one separator.")
def figure_body(case, ctx):
    graph = CG.make_graph(case)
    nodes, _, at = check_figure(graph)
    ctx.nontrivial = len(at) > 0
    ctx.tag(f"separators_{min(len(at), 5)}", f"nodes_{min(len(nodes), 9)}")


COLOURS = ["red", "green", "blue", "black", "white"]


@st.composite
def recolour_case(draw):
    model = draw(figure_model())
    moves = draw(st.lists(st.tuples(st.sampled_from(["edge", "node", "edge", "node", "missing edge", "missing node"]), st.integers(0, 40),
                                    st.sampled_from(COLOURS), st.booleans()), min_size=1, max_size=12))
    return {"model": model, "moves": [list(m) for m in moves]}


def recoloured(nodes, edges, body, what):
    got = parse(body)
    if got == (nodes, edges):
        return
    for kind, want, have in (("node", nodes, got[0]), ("edge", edges, got[1])):
        for key in set(want) | set(have):
            if want.get(key) != have.get(key):
                raise Violation(f"{what}: the {kind} {key if isinstance(key, str) else sorted(key)} is {have.get(key)} instead of {want.get(key)}")


@check("X06", "recolour", recolour_case(), quick=500, thorough=10000,
       rule="a history of up to twelve recolourings of clusters and of edges (in either direction), of which some are not in the figure, "
            "the whole figure is compared with a model after each; non-trivial: an edge and a node were recoloured.")
def recolour_body(case, ctx):
    from veroku._cg_helpers._animation import change_cluster_graph_edge_color, change_graph_node_color

    graph = CG.make_graph(case["model"])
    nodes, edges, at = check_figure(graph)
    clusters = [c.cluster_id for c in CG.clusters_of(graph)]
    pairs = sorted((sorted(p) for p in at))
    figure = graph._graph
    done = set()
    for kind, index, colour, flip in case["moves"]:
        ctx.tag(kind)
        if kind == "node":
            name = clusters[index % len(clusters)]
            what = f"colouring the node {name} {colour}"
            change_graph_node_color(graph=figure, node_name=name, new_color=colour)
            nodes[name] = dict(nodes[name], fillcolor=colour)
            done.add("node")
        elif kind == "edge":
            if not pairs:
                continue
            a, b = pairs[index % len(pairs)][::-1 if flip else 1]
            what = f"colouring the edge between {a} and {b} {colour}"
            change_cluster_graph_edge_color(graph=figure, node_a_name=a, node_b_name=b, new_color=colour)
            for end in (a, b):
                key = frozenset((end, at[frozenset((a, b))]))
                edges[key] = dict(edges[key], color=colour)
            done.add("edge")
        elif kind == "missing node":
            what = "colouring a missing node"
            missing = ["c99#zz", "no such cluster"][flip]
            try:
                change_graph_node_color(graph=figure, node_name=missing, new_color=colour)
            except ValueError:
                pass
            else:
                raise Violation("recolouring a node that is not in the figure was accepted")
        else:
            absent = [sorted((a, b)) for i, a in enumerate(clusters) for b in clusters[i + 1:] if frozenset((a, b)) not in at]
            if not absent:
                continue
            a, b = absent[index % len(absent)][::-1 if flip else 1]
            what = "colouring a missing edge"
            try:
                change_cluster_graph_edge_color(graph=figure, node_a_name=a, node_b_name=b, new_color=colour)
            except ValueError:
                pass
            else:
                raise Violation(f"recolouring the edge between {a} and {b}, which is not in the figure, was accepted")
        recoloured(nodes, edges, figure.body, what)
    ctx.nontrivial = len(done) == 2


# general graphs, with names that are parts of one another
PLAIN_NAMES = ["a", "ba", "ab", "aa", "b", "bab", "x.y", "xzy", "x y", "y", "a b", "n(1)", "n1", "1", "11", "[a]", "a_", "_a", "node", "a*"]


@st.composite
def general_case(draw):
    names = draw(st.permutations(PLAIN_NAMES))
    count = draw(st.sampled_from([3, 2, 4, 5]))
    others, names = names[count:], names[:count]
    pairs = [[i, j] for i in range(len(names)) for j in range(i)]
    edges = draw(st.permutations(pairs))[:draw(st.integers(1, len(pairs)))]
    edges = [e[::-1] if draw(st.booleans()) else e for e in edges]
    moves = draw(st.lists(st.tuples(st.booleans(), st.integers(0, 20), st.sampled_from(COLOURS), st.booleans()), min_size=1, max_size=8))
    return {"names": names, "others": others[:3], "edges": edges, "moves": [list(m) for m in moves]}


@check("X06", "general", general_case(), quick=2000, thorough=40000,
       rule="the same for plain graphs whose names are parts of one another (or are special in regular expressions); non-trivial: at least "
            "one edge was recoloured in a graph with two or more.")
def general_body(case, ctx):
    import graphviz
    from veroku._cg_helpers._animation import change_graph_edge_color, change_graph_node_color

    names = case["names"]
    figure = graphviz.Graph(format="png")
    for name in names:
        figure.node(name=name, label=name, style="filled", fillcolor="white", color="black")
    for i, j in case["edges"]:
        figure.edge(names[i], names[j], color="black", penwidth="2.0")
    nodes, edges = parse(figure.body)
    for is_edge, index, colour, flip in case["moves"]:
        if is_edge:
            a, b = [names[i] for i in case["edges"][index % len(case["edges"])]][::-1 if flip else 1]
            change_graph_edge_color(graph=figure, node_a_name=a, node_b_name=b, new_color=colour)
            key = frozenset((a, b))
            edges[key] = dict(edges[key], color=colour)
            ctx.nontrivial = ctx.nontrivial or len(edges) > 1
            what = f"colouring the edge between {a} and {b} {colour}"
        else:
            name = names[index % len(names)]
            change_graph_node_color(graph=figure, node_name=name, new_color=colour)
            nodes[name] = dict(nodes[name], fillcolor=colour)
            what = f"colouring the node {name} {colour}"
        recoloured(nodes, edges, figure.body, what)
    absent = [(a, b) for a in names + case["others"] for b in names if a != b and frozenset((a, b)) not in edges]
    for args in absent + [(name,) for name in case["others"]]:
        try:
            if len(args) == 2:
                change_graph_edge_color(graph=figure, node_a_name=args[0], node_b_name=args[1], new_color="pink")
            else:
                change_graph_node_color(graph=figure, node_name=args[0], new_color="pink")
        except ValueError:
            pass
        else:
            raise Violation(f"recolouring {args}, which is not in the figure, was accepted")
        recoloured(nodes, edges, figure.body, f"recolouring the missing {args}")
    if any(a != b and a in b for a in names for b in names):
        ctx.tag("nested names")


@st.composite
def animation_case(draw):
    return {"model": draw(figure_model(max_clusters=4)), "max_iter": draw(st.sampled_from([2, 1, 3]))}


class Recorder:
    def __init__(self):
        self.bodies = []

    def render(self, graph, *_, **__):
        self.bodies.append(list(graph.body))

    def open(self, *_, **__):
        import PIL.Image

        return PIL.Image.new("RGB", (12, 9), colour_of(len(self.bodies) - 1))


def colour_of(number):
    """Different colours for up to 1000 frames."""
    return (40 + number % 10 * 20, 40 + number // 10 % 10 * 20, 40 + number // 100 * 20)


def check_gif(graph, count):
    """
    The frames are saved in order.
    """
    import PIL.Image

    before = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif_gif_") as scratch:
        os.chdir(scratch)
        try:
            graph.make_message_passing_animation_gif("animation of a graph.gif")
            files = os.listdir(scratch)
            if files != ["animation of a graph.gif"]:
                raise Violation(f"the animation is saved as {files}")
            with PIL.Image.open(os.path.join(scratch, files[0])) as image:
                shown = []
                for i in range(getattr(image, "n_frames", 1)):
                    image.seek(i)
                    shown.append(image.convert("RGB").getpixel((5, 4)))
        finally:
            os.chdir(before)
    numbers = []
    for colour in shown:
        number = min(range(max(count, 1)), key=lambda i: sum(abs(a - b) for a, b in zip(colour_of(i), colour)))
        if sum(abs(a - b) for a, b in zip(colour_of(number), colour)) > 12:
            raise Violation(f"a saved frame shows the colour {colour}, which no frame has")
        numbers.append(number)
    if numbers != list(range(count)):
        raise Violation(f"the saved animation shows the frames {numbers} of {count}")


@check("X06", "animation", animation_case(), quick=160, thorough=3000,
       rule="message passing with an animation: every recorded frame is compared with the messages that were passed; non-trivial: at "
            "least two messages.")
def animation_body(case, ctx):
    import graphviz
    import PIL.Image

    graph = CG.make_graph(case["model"])
    start_nodes, start_edges, at = check_figure(graph)
    graph.debug = True
    recorder = Recorder()
    with mock.patch.object(graphviz.Graph, "render", lambda self, *a, **k: recorder.render(self, *a, **k)), \
            mock.patch.object(PIL.Image, "open", recorder.open):
        graph.process_graph(max_iter=case["max_iter"], make_animation_gif=True)
    messages = [(m.sender_id, m.receiver_id) for m in graph.passed_messages]
    ctx.nontrivial = len(messages) > 1
    ctx.tag(f"messages_{min(len(messages), 6)}")
    if len(graph.message_passing_animation_frames) != len(recorder.bodies):
        raise Violation(f"{len(graph.message_passing_animation_frames)} frames of {len(recorder.bodies)} rendered figures")
    if 0 < len(recorder.bodies) <= 1000:
        check_gif(graph, len(recorder.bodies))
    # A frame is described by what is red in it; consecutive equal frames are allowed.
    want = []
    for sender, receiver in messages:
        link = [frozenset((end, at[frozenset((sender, receiver))])) for end in (sender, receiver)]
        want.append((sender, receiver, frozenset(link)))
    # The frames follow the messages in order: states are pairs (number of the message, whether its link was highlighted).
    states = {(-1, True)}
    for body in recorder.bodies:
        nodes, edges = parse(body)
        if set(nodes) != set(start_nodes) or set(edges) != set(start_edges):
            raise Violation("an animation frame shows other elements than the graph")
        red_nodes = {n for n, a in nodes.items() if a != start_nodes[n]}
        red_edges = frozenset(e for e, a in edges.items() if a != start_edges[e])
        if not red_nodes and not red_edges:
            continue
        following = set()
        for position, linked in states:
            for target in [position] + [position + 1] * linked:
                if not 0 <= target < len(want):
                    continue
                sender, receiver, link = want[target]
                if red_nodes <= {sender, receiver} and red_edges in (frozenset(), link) and (target == position or sender in red_nodes):
                    following.add((target, bool(red_edges) or (linked and target == position)))
        if not following:
            raise Violation(f"an animation frame highlights {sorted(red_nodes)} and {[sorted(e) for e in red_edges]}, after message number "
                            f"{max(states)[0]}: the messages were {messages}")
        states = following
    # Every message has frames, but for the last one if it ends the processing.
    if not any(linked and position >= len(want) - 2 for position, linked in states):
        raise Violation(f"the animation ends at message number {max(states)[0]} of {messages}")
    if messages and len(at) > 0 and parse(graph._graph.body) != (start_nodes, start_edges):
        raise Violation("the figure is still highlighted after message passing")
