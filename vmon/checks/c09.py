"""C09: bookkeeping under edit histories, vs a plain record of the edits."""
import copy
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("histories of 6-20 edits (set, replace, delete, assign the whole dictionary, add edges, a measurement taken from a circuit, set_angle, refused edits of every "
        "kind) on two circuits that share measurement objects and dictionaries, with and without flow and relabelling; "
        "after every edit each attribute is compared with one derived from a plain record of the edits, and every "
        "object owned by the caller with its earlier snapshot; non-trivial: at least three accepted edits.")
ASSUMPTIONS = ["planes of controlled measurements are not compared (they depend on outcomes)"]
MIN_EVENTS = {"edits": 1000, "refused": 300, "edges-added": 100, "judged": 1500, "edge-refused": 10, "aliased": 60, "angles-set": 60, "refused-constructors": 100, "owned-conditions": 50}


def ment_data(m):
    if m is None:
        return None
    if isinstance(m, mp.ControlMent):
        nodes = gen.cond_nodes(m)
        (fp, fa), (tp, ta) = gen.branches(m)
        return ("C", fp, fa, tp, ta, bool(m.condition()) if nodes is None else nodes)
    return ("M", m.plane, m.angle)


def owned(m):
    return None if m is None else (ment_data(m), m.node_id)


def is_trainable(d):
    two = ("XY", "XZ", "YZ", "XYZ")
    if d is None:
        return False
    if d[0] == "M":
        return d[1] in two and d[2] is None
    return (d[1] in two and d[2] is None) or (d[3] in two and d[4] is None)


def random_ment(rng, circ=None, nodes=()):
    r = rng.random()
    if r < 0.12:
        return mp.ControlMent(bool(rng.integers(2)), *gen.choice(rng, [(None, "XY"), (0.4, "YZ"), (None, "Z")]),
                              *gen.choice(rng, [(0, "X"), (None, "XZ"), (None, "Z")]))
    plane = gen.choice(rng, ["XY", "XZ", "YZ", "X", "Y", "Z", "XY"])
    if plane in ("X", "Y", "Z"):
        return mp.Ment(plane)
    return mp.Ment(plane) if rng.random() < 0.5 else mp.Ment(gen.angle(rng), plane)


def judge(ctx, circ, rec, msg=""):
    """rec: nodes (graph order), edges, inputs, outputs, meas: node -> data"""
    ctx.event("judged")
    nodes, meas, outs = rec["nodes"], rec["meas"], rec["outputs"]
    d = dict(meas=meas)
    ctx.check(sorted(circ.graph.nodes) == sorted(nodes) and len(circ) == len(nodes), "nodes", **d)
    ctx.check({frozenset(e) for e in circ.graph.edges} == rec["edges"], "edges", got=sorted(map(sorted, circ.graph.edges)), want=sorted(map(sorted, rec["edges"])))
    ctx.check(list(circ.input_nodes) == rec["inputs"] and list(circ.output_nodes) == outs, "inputs or outputs")
    ctx.check(set(circ.measurements) == set(nodes), "measurements does not list every node", got=sorted(circ.measurements))
    for v in nodes:
        m = circ[v]
        ctx.check(ment_data(m) == meas[v], "measurement of a node", v=v, got=ment_data(m), want=meas[v])
        ctx.check(circ.measurements[v] is m, "measurements and indexing disagree", v=v)
        if m is not None:
            ctx.check(m.node_id == v, "node of a measurement", v=v, got=m.node_id)
            if not isinstance(m, mp.ControlMent):
                ctx.check(circ.planes[v] == meas[v][1], "plane", v=v, got=circ.planes[v])
                for bit in (0, 1):
                    ctx.check(m.outcome({v: bit}) == bit, "outcome of a measurement", v=v)
                ctx.check(set(m.outcome.cond_nodes) == {v}, "nodes of an outcome", v=v)
        else:
            ctx.check(circ.planes[v] == "", "plane of an unmeasured node", v=v)
    tr = list(circ.trainable_nodes)
    ctx.check(len(tr) == len(set(tr)) and set(tr) == {v for v in nodes if is_trainable(meas[v])}, "trainable nodes", got=tr, **d)
    co = list(circ.controlled_nodes)
    ctx.check(len(co) == len(set(co)) and set(co) == {v for v in nodes if meas[v] and meas[v][0] == "C"}, "controlled nodes", got=co, **d)
    q = list(circ.quantum_output_nodes)
    first = [v for v in outs if meas[v] is None]
    ctx.check(q[:len(first)] == first and len(q) == len(set(q)) and set(q) == {v for v in nodes if meas[v] is None}, "quantum outputs", got=q, want=first, **d)
    ctx.check(list(circ.classical_output_nodes) == [v for v in outs if meas[v] is not None], "classical outputs", got=circ.classical_output_nodes, **d)
    ctx.check(sorted(circ.outputc) == sorted(v for v in nodes if v not in outs), "outputc", got=circ.outputc)
    ctx.check(sorted(circ.inputc) == sorted(v for v in nodes if v not in rec["inputs"]), "inputc", got=circ.inputc)
    c = ref.causal_layers(nodes, [tuple(e) for e in rec["edges"]], rec["inputs"], outs)
    ctx.check((circ.flow is None) == (c is None), "flow after the edits")
    if c:
        ctx.check({v: circ.flow(v) for v in c[0]} == c[0], "flow after the edits", want=c[0])


def fingerprint(circ):
    return (list(circ.graph.nodes), sorted(map(sorted, circ.graph.edges)), {v: (id(circ[v]), owned(circ[v])) for v in circ.graph.nodes},
            list(circ.trainable_nodes), list(circ.controlled_nodes), list(circ.quantum_output_nodes), list(circ.classical_output_nodes),
            circ.measurement_order and list(circ.measurement_order), list(circ.input_nodes), list(circ.output_nodes))


class Owned:
    """objects of the caller, with snapshots"""

    def __init__(self):
        self.ments, self.lists = [], []

    def ment(self, m):
        if m is not None:
            self.ments.append((m, owned(m)))
        return m

    def thing(self, x):
        self.lists.append((x, copy.copy(x)))
        return x

    def check(self, ctx):
        for m, o in self.ments:
            ctx.check(owned(m) == o, "a measurement of the caller was modified", before=o, after=owned(m))
        for x, o in self.lists:
            ctx.check(x == o if not isinstance(x, dict) else (list(x) == list(o) and all(x[k] is o[k] for k in o)),
                      "a list or dictionary of the caller was modified", before=str(o), after=str(x))


def start(rng, own, relabel):
    if rng.random() < 0.7:
        spec = gen.flow_spec(rng, wires=(1, 3), nmax=8, nmin=2, tail=14) if rng.random() < 0.85 else gen.flow_spec(rng, wires=(4, 6), nmax=12, nmin=6)
    else:
        n = int(rng.integers(2, 8))
        i, o = gen.random_io(rng, n)
        spec = gen.Spec(n, gen.random_graph(rng, n), i, o, None, gen.labels_for(rng, n))
    L = spec.labels
    name = (lambda v: v) if relabel else (lambda v: L[v])
    return spec, name


@workload(250, 8000)
def histories(ctx, rng):
    import warnings
    warnings.simplefilter("ignore")
    own = Owned()
    relabel = bool(rng.random() < 0.7)
    spec, name = start(rng, own, relabel)
    L = spec.labels
    shared = own.ment(random_ment(rng))
    default = own.ment(gen.choice(rng, [mp.Ment("XY"), mp.Ment("X"), mp.Ment(0.7, "XY"), mp.Ment("Z")])) if rng.random() < 0.5 else None
    init = {}
    mode = rng.random()
    if mode < 0.7:
        for v in gen.shuffled(rng, spec.nodes):
            if rng.random() < 0.6:
                init[v] = shared if rng.random() < 0.3 else (None if rng.random() < 0.2 else own.ment(random_ment(rng)))
    given = None if mode >= 0.7 else own.thing({L[v]: m for v, m in init.items()})
    ins, outs = own.thing([L[v] for v in spec.inputs]), own.thing([L[v] for v in spec.outputs])
    kw = {} if default is None else dict(default_measurement=default)
    dflt = ment_data(default) if default is not None else ("M", "XY", None)
    g = spec.graph(mp, rng)
    gn, ge = list(g.nodes), sorted(map(sorted, g.edges))
    ctx.describe(spec=spec.desc(), relabel=relabel, init={v: ment_data(m) for v, m in init.items()}, default=dflt, log=[])
    circs, recs = [], []
    for _ in range(2):
        circs.append(mp.MBQCircuit(g if rng.random() < .5 else g.copy(), input_nodes=ins, output_nodes=outs, measurements=given, relabel_indices=relabel, **kw))
        meas = {name(v): (ment_data(init[v]) if v in init else (None if v in spec.outputs else dflt)) for v in spec.nodes}
        recs.append(dict(nodes=[name(v) for v in spec.nodes], edges={frozenset((name(u), name(v))) for u, v in spec.edges},
                         inputs=[name(v) for v in spec.inputs], outputs=[name(v) for v in spec.outputs], meas=meas))
    log = ctx.desc["log"]
    for c, r in zip(circs, recs):
        judge(ctx, c, r)
    edits = 0
    for _ in range(int(rng.integers(6, 21))):
        w = int(rng.integers(2))
        c, r = circs[w], recs[w]
        v = gen.choice(rng, r["nodes"])
        op = rng.random()
        if op < 0.08:
            x, y = (circs[1 - w], recs[1 - w]) if rng.random() < 0.8 else (c, r)
            both = [u for u in r["nodes"] if u in y["nodes"] and x[u] is not None]
            if not both:
                continue
            if x is not c and set(r["nodes"]) == set(y["nodes"]) and rng.random() < 0.3:
                log.append((w, "all-from-other"))
                c.measurements = dict(x.measurements)
                r["meas"] = dict(y["meas"])
            else:
                u = gen.choice(rng, both)
                v = u if rng.random() < 0.7 else v
                log.append((w, "set-from", v, u, x is c))
                d = ment_data(x[u])
                c[v] = x[u]
                r["meas"][v] = d
            ctx.event("aliased")
        elif op < 0.18:
            able = [u for u in r["nodes"] if r["meas"][u] and r["meas"][u][0] == "M" and r["meas"][u][1] not in ("X", "Y", "Z") and r["meas"][u][2] is not None]
            if not able:
                continue
            u, a = gen.choice(rng, able), gen.angle(rng)
            log.append((w, "set_angle", u, a))
            c[u].set_angle(a)
            r["meas"][u] = r["meas"][u][:2] + (a,)
            ctx.event("angles-set")
        elif op < 0.3:
            m = shared if rng.random() < 0.25 else own.ment(random_ment(rng))
            log.append((w, "set", v, str(ment_data(m))))
            c[v] = m
            r["meas"][v] = ment_data(m)
        elif op < 0.42:
            log.append((w, "del", v))
            del c[v]
            r["meas"][v] = None
        elif op < 0.55:
            new = {}
            for u in gen.shuffled(rng, r["nodes"]):
                if rng.random() < 0.6:
                    new[u] = None if rng.random() < 0.2 else (shared if rng.random() < 0.3 else own.ment(random_ment(rng)))
            own.thing(new)
            log.append((w, "all", {u: str(ment_data(m)) for u, m in new.items()}))
            for i in ([0, 1] if rng.random() < 0.3 and set(recs[0]["nodes"]) == set(recs[1]["nodes"]) else [w]):   # the same dictionary given to both
                circs[i].measurements = new
                recs[i]["meas"] = {u: (ment_data(new[u]) if u in new else (None if u in recs[i]["outputs"] else dflt)) for u in recs[i]["nodes"]}
        elif op < 0.7 and len(r["nodes"]) > 1:
            es = [tuple(gen.shuffled(rng, r["nodes"])[:2]) for _ in range(int(rng.integers(1, 4)))]
            fresh = []
            if rng.random() < 0.2 and all(isinstance(u, int) for u in r["nodes"]):     # an edge to a node that did not exist
                fresh = [max(r["nodes"]) + 1]
                es[0] = (es[0][0], fresh[0]) if rng.random() < 0.5 else (fresh[0], es[0][0])
            one = rng.random() < 0.5
            log.append((w, "edges", es[:1] if one else es))
            if one:
                c.add_edge(*es[0])
                es = es[:1]
            else:
                own.thing(es)
                kw = dict(weight=gen.angle(rng)) if rng.random() < 0.3 else {}
                c.add_edges_from(es, **kw)
                ctx.check(all(c.graph.edges[e].get(k) == x for e in es for k, x in kw.items()), "attributes of the new edges", es=es, kw=kw)
            r["edges"] |= {frozenset(e) for e in es}
            for u in fresh:
                r["nodes"] = r["nodes"] + [u]
                r["meas"][u] = dflt
                ctx.event("nodes-added")
            ctx.event("edges-added")
        else:
            before = fingerprint(c)
            bad_node = gen.choice(rng, [max(r["nodes"]) + 7, "nowhere", -1000])
            k = int(rng.integers(9))
            log.append((w, "refused", k))

            def do():
                if k == 0:
                    c[bad_node] = mp.Ment("X")
                elif k == 1:
                    c[v] = gen.choice(rng, [None, "X", 0.3, {"X": 1}])
                elif k == 2:
                    del c[bad_node]
                elif k == 3:
                    c.measurements = {**{u: mp.Ment("Z") for u in r["nodes"]}, bad_node: mp.Ment("X")}
                elif k == 4:
                    c.measurements = {**{u: mp.Ment("Z") for u in r["nodes"]}, v: "X"}
                elif k == 5:
                    return c[bad_node]
                elif k == 6:
                    c.trainable_nodes = [v, bad_node]
                elif k == 7:
                    c.add_edges_from([(v,)])
                elif k == 8:
                    c.add_edges_from([(r["nodes"][0], r["nodes"][-1]), (1, 2, 3, 4, 5)])
            ctx.raises(ValueError, do, f"invalid edit {k}")
            ctx.check(fingerprint(c) == before, f"a refused edit ({k}) changed the circuit")
            ctx.event("refused")
            judge(ctx, c, r)
            continue
        edits += 1
        ctx.event("edits")
        for i in (0, 1):
            judge(ctx, circs[i], recs[i])
        own.check(ctx)
    own.check(ctx)
    ctx.check(not hasattr(circs[0], "no_such_attribute"), "an unknown attribute of a circuit exists")
    ctx.check(list(g.nodes) == gn and sorted(map(sorted, g.edges)) == ge, "the caller's graph was modified")
    if edits >= 3:
        ctx.nontrivial(spec.key(), str(log))


@workload(100, 2000)
def owned_conditions(ctx, rng):
    """conditional measurements of the caller serve for several circuits, in the caller's labels"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=8, nmin=3)
    if len(spec.outputc) < 2:
        return
    L = spec.labels
    for v in spec.nodes:
        spec.meas[v] = gen.choice(rng, [("XY", None), ("X", 0), ("Z", 0), ("XY", gen.angle(rng))])
    layer = ref.causal_layers(spec.nodes, spec.edges, spec.inputs, spec.outputs)[1]
    ms = spec.measurements(mp, rng)
    conds = {}
    for v in gen.shuffled(rng, spec.nodes)[:3]:
        prev = [u for u in spec.nodes if layer[u] > layer[v]]
        if not prev:
            continue
        conds[v] = gen.shuffled(rng, prev)[:int(rng.integers(1, 4))]
        lib = None
        for u in conds[v]:
            m = mp.Ment("Z")
            m.node_id = L[u]
            lib = m.outcome if lib is None else lib ^ m.outcome if rng.random() < .7 else lib & m.outcome
        ms[L[v]] = mp.ControlMent(lib, gen.choice(rng, [None, 0.3]), "XY", 0, "X")
    if not conds:
        return
    mine = {v: gen.truth(ms[L[v]]) for v in conds}
    ctx.describe(spec=spec.desc(), conditions=conds)
    made = []
    for _ in range(int(rng.integers(2, 4))):
        relabel = bool(rng.random() < .7)
        circ = spec.make_with(mp, rng, ms, relabel_indices=relabel)
        name = (lambda v: v) if relabel else (lambda v: L[v])
        made.append((circ, name, {v: gen.truth(circ[name(v)]) for v in conds}))
        for v in conds:
            ctx.check(gen.truth(ms[L[v]]) == mine[v], "a condition of the caller was modified", before=mine[v], after=gen.truth(ms[L[v]]))
            ctx.check(gen.cond_nodes(circ[name(v)]) == {name(u) for u in conds[v]}, "nodes of a condition", node=v, got=str(gen.cond_nodes(circ[name(v)])))
    # editing one of them leaves the others and the caller's objects alone
    circ, name, _ = made[0]
    u = gen.choice(rng, sorted(conds))
    r = rng.random()
    if r < 0.3:
        circ[name(u)] = mp.Ment("Y")
    elif r < 0.6:
        circ[name(u)].condition = bool(rng.integers(2))
    else:
        circ.measurements = {}
    for c, nm, was in made[1:]:
        for v in conds:
            ctx.check(gen.truth(c[nm(v)]) == was[v], "a condition changed with another circuit", node=v)
    for v in conds:
        ctx.check(gen.truth(ms[L[v]]) == mine[v], "a condition of the caller was modified", before=mine[v], after=gen.truth(ms[L[v]]))
    ctx.event("owned-conditions", len(conds))
    ctx.nontrivial(spec.key(), str(conds), L)


@workload(200, 3000)
def refused_edges(ctx, rng):
    """an edge whose new flow contradicts a condition is refused and leaves everything as it was"""
    spec = gen.flow_spec(rng, wires=(2, 3), nmax=7, nmin=4)
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    oc = [v for v in spec.outputc]
    if len(oc) < 2:
        return
    controls = []
    for _ in range(3):
        a, v = (int(x) for x in rng.choice(oc, size=2, replace=False))
        try:
            circ[v] = mp.ControlMent(circ[a].outcome, None, "XY", 0, "X")
        except ValueError:
            continue
        controls = [(x, y) for x, y in controls if y != v] + [(a, v)]
    if not controls:
        return
    for _ in range(6):
        u, v = (int(x) for x in rng.choice(spec.n, size=2, replace=False))
        edges = sorted(set(spec.edges) | {tuple(sorted((u, v)))})
        c = ref.causal_layers(spec.nodes, edges, spec.inputs, spec.outputs)
        if c is None:
            continue
        adj = ref.adjacency(spec.nodes, edges)
        deps = {x: set() for x in spec.nodes}
        for x, w in c[0].items():
            deps[x] |= {w} | (adj[w] - {x})
        for a, x in controls:
            deps[a].add(x)
        ctx.describe(spec=spec.desc(), controls=controls, edge=(u, v), edges=edges)
        before = fingerprint(circ)
        if ref.descendants(deps) is None:
            ctx.raises(ValueError, lambda: (circ.add_edge(u, v) if rng.random() < .5 else circ.add_edges_from([(u, v)])), "an edge that contradicts a condition")
            ctx.check(fingerprint(circ) == before, "a refused edge changed the circuit")
            ctx.event("edge-refused")
            ctx.nontrivial(spec.key(), controls, u, v)
        else:
            circ.add_edge(u, v)
            ctx.check({frozenset(e) for e in circ.graph.edges} == {frozenset(e) for e in edges}, "edges")
            ctx.check(all(ment_data(circ[x]) == before[2][x][1][0] if before[2][x][1] else circ[x] is None for x in spec.nodes), "adding an edge changed measurements")
            old = spec
            spec = gen.Spec(old.n, edges, old.inputs, old.outputs, c[0], old.labels)


@workload(150, 3000)
def refused_constructors(ctx, rng):
    """nodes that are not in the graph and values that are no measurements are refused with ValueError"""
    import warnings
    warnings.simplefilter("ignore")
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=2)
    gen.measure_xy(rng, spec)
    relabel = bool(rng.random() < .6)
    L = spec.labels
    # an absent label, possibly one of the names that relabelling would give
    absent = gen.choice(rng, [x for x in list(range(-3, spec.n + 3)) + [max(L) + 1, min(L) - 1, 1000] if x not in L])
    g = spec.graph(mp, rng)
    kw = dict(input_nodes=[L[v] for v in spec.inputs], output_nodes=[L[v] for v in spec.outputs],
              measurements=spec.measurements(mp, rng), relabel_indices=relabel)
    what = gen.choice(rng, ["input", "output", "key", "value", "default", "order"])
    at = lambda xs: int(rng.integers(len(xs)))
    if what in ("input", "output"):
        kw[what + "_nodes"][at(kw[what + "_nodes"])] = absent
    elif what == "key":
        kw["measurements"][absent] = gen.choice(rng, [mp.Ment("X"), None, mp.Ment("XY")])
    elif what == "value":
        kw["measurements"][L[at(L)]] = gen.choice(rng, ["X", 0.3, 0, object(), (0.3, "XY")])
    elif what == "default":
        kw["default_measurement"] = gen.choice(rng, ["X", None, 0.3])
    else:
        order = [L[v] for v in gen.schedule(rng, spec)]
        order[at(order)] = absent
        kw["measurement_order"] = order
    ctx.describe(spec=spec.desc(), relabel=relabel, what=what, absent=absent, kw=str(kw))
    before = (list(g.nodes), list(g.edges), {k: str(v) for k, v in kw.items()})
    ctx.raises(ValueError, lambda: mp.MBQCircuit(g, **kw), "invalid constructor argument: " + what)
    ctx.check(before == (list(g.nodes), list(g.edges), {k: str(v) for k, v in kw.items()}), "a refused constructor changed its arguments")
    ctx.event("refused-constructors")
