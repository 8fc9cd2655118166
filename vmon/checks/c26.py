"""C26: drawings against the circuit drawn."""
import copy
import matplotlib
matplotlib.use("Agg")
import logging
logging.getLogger("matplotlib").setLevel(logging.ERROR)
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_rgba
from matplotlib.patches import FancyArrowPatch
import networkx as nx
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("random circuits (with and without flow, with controlled, fixed, trainable and unmeasured nodes, shared inputs and outputs, own labels) and graph states drawn "
        "with every style and label; markers, texts, line segments and arrows are read back from the matplotlib axes; non-trivial: "
        "at least two roles of nodes.")
ASSUMPTIONS = ["markers and labels are matched by position", "colours are those of the current legend"]
QUICK_SCALE = 6
MIN_EVENTS = {"drawings": 150, "nodes": 600, "edges": 400, "arrows": 150, "texts": 500, "controls": 25, "rejected": 12, "graph_states": 20, "control-along-edge": 5, "edits": 30}

DEFAULT, IO, CONTROLLED, FIXED = "#FFBD59", "#ADD8E6", "#A88FE8", "#CCCCCC"
ARROWS = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$", "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$",
          "XYZ": r"$\nwarrow \nearrow$", "": ""}
LABELS = {"index": "index", "indices": "index", "plane": "plane", "planes": "plane", "arrow": "arrow", "arrows": "arrow", "angle": "angle",
          "angles": "angle", "pauliop": "pauliop", None: "index"}
STYLES = ["default", "black_and_white", "blue_inputs", None]


def artists(fig, ax):
    fig.canvas.draw()
    marks = [c for c in ax.collections if isinstance(c, PathCollection)]
    lines = [c for c in ax.collections if isinstance(c, LineCollection)]
    arrows = [p for p in ax.patches if isinstance(p, FancyArrowPatch)]
    return marks, lines, arrows, list(ax.texts)


def near(p, q):
    return abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6


def positions(ctx, nodes, marks):
    """the markers of every layer are at the same places, one for each node"""
    ctx.check(marks, "no node is drawn")
    offs = np.asarray(marks[0].get_offsets())
    ctx.check(len(offs) == len(nodes), "number of nodes drawn", got=len(offs), want=len(nodes))
    ctx.check(np.isfinite(offs).all(), "a node has no position")
    for i in range(len(offs)):
        for j in range(i):
            ctx.check(not np.linalg.norm(offs[i] - offs[j]) < 1e-6, "two nodes are drawn at the same position", nodes=[str(nodes[i]), str(nodes[j])])
    ctx.event("nodes", len(offs))
    return dict(zip(nodes, map(tuple, offs)))


def role_colours(c, style, facts):
    out = {}
    for v in c.graph.nodes():
        if v in facts["controlled"]:
            col = CONTROLLED
        elif v in facts["quantum_outputs"]:
            col = IO
        elif v in facts["trainable"]:
            col = DEFAULT
        else:
            col = FIXED
        out[v] = col
    if style == "black_and_white":
        out = {v: "#FFFFFF" for v in out}
    if style == "blue_inputs":
        for v in c.input_nodes:
            out[v] = IO
    return out


def facts_of(c):
    meas = dict(c.measurements)
    con = {v for v, m in meas.items() if isinstance(m, mp.ControlMent)}
    return dict(controlled=con, trainable=set(c.trainable_nodes),
                quantum_outputs=[v for v in c.graph.nodes() if meas.get(v) is None])


def label_of(c, facts, kind, v, op):
    m = c.measurements.get(v)
    if kind == "index":
        return str(v)
    if kind == "pauliop":
        return op.txt[list(c.graph.nodes()).index(v)]
    if v in facts["controlled"]:
        return "Ctrl"
    if kind == "plane":
        return m.plane if m is not None else ""
    if kind == "arrow":
        return ARROWS[m.plane if m is not None else ""]
    if m is None:
        return ""
    return r"$\theta$" if m.angle is None else m.angle


def same_label(kind, txt, want):
    if kind != "angle" or isinstance(want, str):
        return txt == want
    try:
        got = np.array([float(s.replace("np.float64(", "").replace(")", "").strip(" (")) for s in txt.split(",")])
    except ValueError:
        return False
    return got.shape == np.atleast_1d(want).shape and np.max(np.abs(got - np.atleast_1d(want))) < 1e-3


def snapshot(c):
    return (list(c.graph.nodes(data=True)), list(c.graph.edges(data=True)), list(c.input_nodes), list(c.output_nodes),
            [(v, id(m), getattr(m, "angle", None) if not isinstance(m, mp.ControlMent) else None) for v, m in c.measurements.items()],
            list(c.trainable_nodes), None if c.measurement_order is None else list(c.measurement_order))


def judge(ctx, rng, c, fl, style, label, show_flow=True, show_controls=True, **extra):
    """fl: expected flow as a dictionary, or None"""
    nodes = list(c.graph.nodes())
    facts = facts_of(c)
    before = snapshot(c)
    kw = dict(extra)
    op = None
    if label is not None and label != "pauliop":
        kw["label"] = label
    if label == "pauliop":
        op = mp.PauliOp("".join(gen.choice(rng, ["I", "X", "Y", "Z"]) for _ in nodes))
        kw["pauliop"] = op
    if style is not None:
        kw["style"] = style
    if not show_flow or rng.random() < .2:
        kw["show_flow"] = show_flow
    if not show_controls or rng.random() < .2:
        kw["show_controls"] = show_controls
    fig, ax = mp.draw(c, **kw)
    try:
        ctx.check(snapshot(c) == before, "drawing changed the circuit")
        marks, lines, arrows, texts = artists(fig, ax)
        pos = positions(ctx, nodes, marks)
        cols = role_colours(c, style, facts)
        # what is seen is the top layer at each place
        for mk in marks:
            offs, face = np.asarray(mk.get_offsets()), mk.get_facecolors()
            for i, o in enumerate(offs):
                v = next((u for u in nodes if near(pos[u], o)), None)
                ctx.check(v is not None, "a marker that is no node")
                got = face[i if len(face) > 1 else 0]
                ctx.check(np.allclose(got, to_rgba(cols[v])), "colour of a node", node=str(v), got=list(got), want=cols[v], style=style)
        # texts
        seen = {v: [] for v in nodes}
        for t in texts:
            v = next((u for u in nodes if near(pos[u], t.get_position())), None)
            ctx.check(v is not None, "a label that belongs to no node", text=t.get_text())
            seen[v].append(t.get_text())
        for v in nodes:
            want = label_of(c, facts, LABELS[label], v, op)
            ctx.check(all(same_label(LABELS[label], s, want) for s in seen[v]) and (seen[v] or want == ""),
                      "label of a node", node=str(v), got=seen[v], want=want, label=label)
            ctx.event("texts")
        # edges and dashed links
        segs, solid, broken = [], [], []
        for col in lines:
            styles = col.get_linestyle()
            for k, s in enumerate(col.get_segments()):
                if len(s):
                    e = (tuple(s[0]), tuple(s[-1]))
                    segs.append(e)
                    (solid if styles[k % len(styles)][1] is None else broken).append(e)

        def drawn(u, v, segs=segs):
            return any((near(a, pos[u]) and near(b, pos[v])) or (near(a, pos[v]) and near(b, pos[u])) for a, b in segs)

        for u, v in c.graph.edges():
            ctx.check(drawn(u, v, solid), "an edge is not drawn", edge=(str(u), str(v)))
            ctx.event("edges")
        links = {frozenset((v, k)) for v in facts["controlled"] for k in getattr(c.measurements[v].condition, "cond_nodes", ())}
        links = {e for e in links if len(e) == 2}
        allowed = {frozenset(e) for e in c.graph.edges()} | (links if show_controls else set())
        for a, b in segs:
            ends = frozenset(u for u in nodes if near(pos[u], a) or near(pos[u], b))
            ctx.check(ends in allowed, "a line that is no edge", ends=[str(u) for u in ends])
        for a, b in broken:
            ends = frozenset(u for u in nodes if near(pos[u], a) or near(pos[u], b))
            ctx.check(show_controls and ends in links, "a dashed line that is no condition", ends=[str(u) for u in ends])
        if show_controls:
            for e in links:
                ctx.check(drawn(*e, broken), "a condition is not drawn", link=[str(u) for u in e])
                ctx.event("control-along-edge", int(c.graph.has_edge(*e)))
                ctx.event("controls")
        # flow
        got = []
        for p in arrows:
            a, b = p._posA_posB
            got.append((next(u for u in nodes if near(pos[u], a)), next(u for u in nodes if near(pos[u], b))))
        want = sorted(fl.items()) if fl is not None and show_flow else []
        ctx.check(sorted(got) == want, "arrows of the flow", got=str(got), want=str(want))
        ctx.event("arrows", len(got))
        ctx.event("drawings")
        if len(set(cols.values())) > 1 or len({v for v in nodes if v in c.input_nodes}) < len(nodes):
            ctx.nontrivial(tuple(map(str, nodes)), str(style), str(label), len(segs))
    finally:
        plt.close("all")
    return pos


def on_lines(ctx, c, fl, pos):
    """every wire of the flow is drawn from left to right on a line of its own"""
    ys = []
    for v in c.input_nodes:
        w = [v]
        while w[-1] not in c.output_nodes:
            w.append(fl[w[-1]])
        p = [pos[u] for u in w]
        ctx.check(len({round(y, 6) for _, y in p}) == 1 and all(a[0] < b[0] for a, b in zip(p, p[1:])),
                  "a wire of the flow is not drawn from left to right on a line", wire=[str(u) for u in w], at=p)
        ys.append(round(p[0][1], 6))
        ctx.event("wires")
        ctx.event("long-wires", int(len(w) > 9))
    ctx.check(len(set(ys)) == len(ys), "two wires are drawn on the same line")


def some_options(rng, idx):
    labels = list(LABELS)
    return STYLES[idx % len(STYLES)], labels[(idx // len(STYLES)) % len(labels)]


@workload(100, 1500)
def circuits(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3) if rng.random() < .8 else (4, 9), nmax=int(gen.choice(rng, [9, 9, 9, 20])), tail=30)
    fixed_planes = [("XY", None), ("XY", None), ("XY", gen.angle(rng)), ("X", 0), ("Y", 0), ("Z", 0), ("XZ", gen.angle(rng)), ("YZ", None),
                    ("XYZ", (0.25, gen.angle(rng))), ("XYZ", None)]
    for v in spec.nodes:
        if v not in spec.outputs or rng.random() < 0.25:
            spec.meas[v] = gen.choice(rng, fixed_planes)
    c = spec.make(mp, rng)
    # some controlled measurements, on nodes that come after others
    order = list(c.measurement_order)
    for v in spec.meas:
        if rng.random() < 0.2:
            prev = [u for u in order[:order.index(v)] if u in spec.meas]
            if prev and rng.random() < 0.8:
                cond = c[gen.choice(rng, prev)].outcome
                if rng.random() < .5:
                    cond = cond ^ c[gen.choice(rng, prev)].outcome
                near_ = [u for u in prev if c.graph.has_edge(u, v)]
                if near_ and rng.random() < .5:
                    cond = c[gen.choice(rng, near_)].outcome
                if rng.random() < .3:      # many nodes
                    for u in gen.shuffled(rng, prev)[:int(rng.integers(2, 6))]:
                        cond = cond & c[u].outcome
            else:
                cond = bool(rng.integers(2))
            try:
                c[v] = mp.ControlMent(cond, gen.choice(rng, [None, 0.4]), "XY", gen.choice(rng, [0.0, 0.3]), gen.choice(rng, ["XY"]))
            except ValueError:
                pass
    used = {k for m in c.measurements.values() for k in getattr(getattr(m, "condition", None), "cond_nodes", ())}
    for v in order:                       # some nodes are left unmeasured
        if c[v] is not None and v not in used and rng.random() < 0.1:
            del c[v]
    ctx.describe(**spec.desc())
    style, label = some_options(rng, ctx.idx)
    pos = judge(ctx, rng, c, spec.f, style, label, show_flow=rng.random() < .85, show_controls=rng.random() < .85)
    on_lines(ctx, c, spec.f, pos)


@workload(40, 400)
def any_graph(ctx, rng):
    """no flow is promised: empty graphs, no inputs, shared nodes, gflow"""
    n = int(rng.integers(1, 8))
    edges = gen.random_graph(rng, n)
    i, o = gen.random_io(rng, n)
    g = mp.GraphState()
    g.add_nodes_from(gen.shuffled(rng, range(n)))
    g.add_edges_from(edges)
    c = mp.MBQCircuit(g, input_nodes=i, output_nodes=o)
    res = ref.causal_layers(list(range(n)), edges, i, o)
    fl = {v: c.flow(v) for v in c.outputc} if res is not None else None
    ctx.describe(n=n, edges=edges, inputs=i, outputs=o)
    style, label = some_options(rng, ctx.idx)
    judge(ctx, rng, c, fl, style, label)


@workload(20, 100)
def templates(ctx, rng):
    c = gen.choice(rng, [lambda: mp.templates.linear_cluster(int(rng.integers(2, 16))), lambda: mp.templates.grid_cluster(2, int(rng.integers(2, 5))),
                         lambda: mp.templates.many_wires([int(v) for v in rng.integers(2, 5, size=3)]), lambda: mp.templates.muta(1, 1),
                         lambda: mp.templates.from_pauli(mp.PauliOp("".join(gen.choice(rng, ["X", "Y", "Z"]) for _ in range(int(rng.integers(1, 4))))))])()
    fl = {v: c.flow(v) for v in c.outputc} if c.flow is not None else None
    style, label = some_options(rng, ctx.idx)
    pos = judge(ctx, rng, c, fl, style, label)
    if fl is not None and ref.causal_layers(
            list(c.nodes()), [tuple(e) for e in c.edges()], list(c.input_nodes), list(c.output_nodes)) is not None:
        on_lines(ctx, c, fl, pos)


@workload(40, 300)
def wires(ctx, rng):
    """wires given by the user lie on horizontal lines, from left to right"""
    c = mp.templates.many_wires([int(v) for v in rng.integers(2, 7, size=int(rng.integers(1, 4)))])
    fl = {v: c.flow(v) for v in c.outputc}
    ws = []
    for v in c.input_nodes:
        w = [v]
        while w[-1] not in c.output_nodes:
            w.append(fl[w[-1]])
        ws.append(w)
    if rng.random() < .5:
        ws = gen.shuffled(rng, ws)
    k = int(rng.integers(len(ws)))
    if rng.random() < .5:
        j = int(rng.integers(1, len(ws[k])))
        ws[k] = ws[k][:j] + ["*"] + ws[k][j:]
    if rng.random() < .6:      # the ends of a wire, which are drawn at the sides, may be left out
        ws = [w[:-1] if len(w) > 2 and rng.random() < .6 else w for w in ws]
        ctx.event("partial-wires")
    pos = judge(ctx, rng, c, fl, None, None, fix_wires=[tuple(w) for w in ws])
    for w in ws:
        p = [pos[v] for v in w if v != "*"]
        ctx.check(len({round(y, 6) for _, y in p}) == 1, "the nodes of a wire are not on a line", wire=w)
        ctx.check(all(a[0] < b[0] for a, b in zip(p, p[1:])), "the nodes of a wire are not ordered", wire=w)
    ys = [pos[w[0] if w[0] != "*" else w[1]][1] for w in ws]
    ctx.check(len(set(ys)) == len(ys), "two wires are drawn on the same line")


@workload(24, 200)
def graph_states(ctx, rng):
    n = int(rng.integers(1, 9))
    g = mp.GraphState()
    labels = gen.labels_for(rng, n) if rng.random() < .6 else [f"q{i}" for i in range(n)]
    g.add_nodes_from(gen.shuffled(rng, labels))
    g.add_edges_from([(labels[u], labels[v]) for u, v in gen.random_graph(rng, n)])
    before = (list(g.nodes(data=True)), list(g.edges(data=True)))
    kw = {}
    style, label = some_options(rng, ctx.idx)
    if style:
        kw["style"] = style
    if label and label != "pauliop":
        kw["label"] = label
    fig, ax = mp.draw(g, **kw)
    try:
        ctx.check(before == (list(g.nodes(data=True)), list(g.edges(data=True))), "drawing changed the graph state")
        marks, lines, arrows, texts = artists(fig, ax)
        nodes = list(g.nodes())
        pos = positions(ctx, nodes, marks)
        segs = [tuple(map(tuple, (s[0], s[-1]))) for col in lines for s in col.get_segments()]
        got = {frozenset(u for u in nodes if near(pos[u], a) or near(pos[u], b)) for a, b in segs}
        ctx.check(got == {frozenset(e) for e in g.edges()}, "edges of a graph state")
        ctx.check({(t.get_text(), tuple(np.round(t.get_position(), 6))) for t in texts} == {(str(v), tuple(np.round(pos[v], 6))) for v in nodes}, "labels of a graph state")
        ctx.event("graph_states")
    finally:
        plt.close("all")


@workload(20, 60)
def rejected(ctx, rng):
    c = mp.templates.linear_cluster(int(rng.integers(2, 6)))
    before = snapshot(c)
    k = ctx.idx % 3
    try:
        if k == 0:
            ctx.raises((AssertionError, ValueError), lambda: mp.draw(c, style=gen.choice(rng, ["", "Default", "red", None])), "unsupported style")
        elif k == 1:
            ctx.raises(ValueError, lambda: mp.draw(c, label=gen.choice(rng, ["", "idx", "Angles", "name", None])), "unsupported label")
        else:
            ctx.raises(ValueError, lambda: mp.draw(c, pauliop=mp.PauliOp("X" * len(c) + ";" + "Z" * len(c))), "several Pauli operators")
        ctx.check(snapshot(c) == before, "a refused drawing changed the circuit")
        ctx.event("rejected")
    finally:
        plt.close("all")


@workload(24, 300)
def edited(ctx, rng):
    """drawn, changed and drawn again"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=8)
    planes = [("XY", None), ("XY", gen.angle(rng)), ("X", 0), ("Y", 0), ("XZ", gen.angle(rng)), ("XYZ", None)]
    for v in spec.outputc:
        spec.meas[v] = gen.choice(rng, planes)
    c = spec.make(mp, rng)
    for _ in range(3):
        style, label = some_options(rng, int(rng.integers(60)))
        ctx.describe(**spec.desc())
        on_lines(ctx, c, spec.f, judge(ctx, rng, c, spec.f, style, label))
        r = rng.random()
        if r < 0.4:
            spec.join_outputs(rng, c)
        elif spec.outputc:
            v = gen.choice(rng, spec.outputc)
            spec.meas[v] = gen.choice(rng, planes)
            c[v] = spec.ment(mp, v)
        ctx.event("edits")
