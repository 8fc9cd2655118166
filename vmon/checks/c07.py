"""C07: measurement orders, under histories of edits, conditions and assigned orders."""
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("random flow circuits (2-9 nodes, permuted labels), histories of 4-10 edits: controlled measurements with random "
        "Boolean conditions (acyclic and contradictory), plain measurements, deletions, whole-dictionary assignment, "
        "assigned orders (linear extensions, near misses, wrong lists); after every step the order is judged against "
        "the dependency graph (flow corrections + conditions) kept by the monitor; non-trivial: a condition was in "
        "force when an order was judged.")
ASSUMPTIONS = []
MIN_EVENTS = {"orders-judged": 500, "controls-in-force": 100, "contradictions": 30, "order-accepted": 50, "order-refused": 100,
              "constructor-orders": 40, "layers-with-fixed-nodes": 200, "far-apart": 40}


def flow_edges(spec):
    succ = {v: set() for v in spec.nodes}
    for v, w in spec.f.items():
        succ[v] |= {w} | (spec.adj[w] - {v})
    return succ


def relation(circ, nodes):
    return {(a, b) for a in nodes for b in nodes if circ.partial_order(a, b)}


def state(circ, nodes):
    return (list(circ.measurement_order), {v: circ[v] for v in nodes}, list(circ.trainable_nodes),
            list(circ.controlled_nodes), list(circ.quantum_output_nodes), list(circ.classical_output_nodes),
            relation(circ, nodes), list(circ.input_nodes), list(circ.output_nodes), sorted(circ.graph.edges))


def same_state(a, b):
    return all((all(x[k] is y[k] or str(x[k]) == str(y[k]) for k in y) and len(x) == len(y)) if isinstance(x, dict) else x == y
               for x, y in zip(a, b))


def linear_extension(rng, nodes, succ):
    after = ref.descendants(succ)
    rest, out = list(nodes), []
    while rest:
        ready = [v for v in rest if not any(v in after[u] for u in rest)]
        v = gen.choice(rng, ready)
        out.append(v)
        rest.remove(v)
    return out


def respects(order, rel):
    return not any((b, a) in rel for i, a in enumerate(order) for b in order[i + 1:])


def judge(ctx, spec, circ, succ, controls):
    nodes = spec.nodes
    ctx.event("orders-judged")
    if controls:
        ctx.event("controls-in-force")
    deps = {v: set(succ[v]) for v in nodes}
    for v, conds in controls.items():
        for c in conds:
            deps[c].add(v)
    after = ref.descendants(deps)
    rel = relation(circ, nodes)
    want = {(a, b) for a in nodes for b in after[a]}
    data = dict(order=circ.measurement_order, controls=controls)
    ctx.check(want <= rel, "partial order misses dependencies", missing=sorted(want - rel), **data)
    ctx.check(not any((b, a) in rel for a, b in rel), "partial order is not antisymmetric", **data)
    ctx.check(all((a, d) in rel for a, b in rel for c, d in rel if b == c), "partial order is not transitive", **data)
    mo = list(circ.measurement_order)
    ctx.check(sorted(mo) == nodes, "measurement order does not list every node once", **data)
    ctx.check(respects(mo, want), "a node is measured before one it depends on", **data)
    ctx.check(respects(mo, rel), "measurement order contradicts the partial order", **data)
    layers, tr = circ.ordered_layers(), list(circ.trainable_nodes)
    ctx.check(sorted(v for l in layers for v in l) == nodes, "layers do not list every node once", layers=layers)
    indices = circ.ordered_layers(train_indices=True)
    ctx.check([list(l) for l in indices[: len(layers) - 1]] == [[tr.index(v) for v in l if v in tr] for l in layers[:-1]],
              "positions of the trainable nodes of every layer", layers=layers, trainable=tr, got=indices)
    if len(tr) < len(spec.f):
        ctx.event("layers-with-fixed-nodes")
    return deps, rel


def condition(rng, circ, nodes):
    k = int(rng.integers(1, min(3 if rng.random() < .75 else 7, len(nodes)) + 1))
    sel = [int(v) for v in rng.choice(nodes, size=k, replace=False)]
    c = circ[sel[0]].outcome
    for v in sel[1:]:
        o = circ[v].outcome
        c = gen.choice(rng, [lambda: c ^ o, lambda: c & o, lambda: c | o, lambda: c + o, lambda: c * o])()
    if rng.random() < 0.3:
        c = ~c
    if rng.random() < 0.2:
        c = c ^ True
    return c, set(sel)


def plain(rng):
    return gen.choice(rng, [lambda: mp.Ment("XY"), lambda: mp.Ment("X"), lambda: mp.Ment("Z"), lambda: mp.Ment(0.3, "YZ"),
                            lambda: mp.Ment("Y")])()


def orders(rng, spec, deps, rel):
    """a candidate order"""
    r = rng.random()
    if r < 0.3:
        return linear_extension(rng, spec.nodes, {v: {b for a, b in rel if a == v} for v in spec.nodes})
    if r < 0.5:
        o = linear_extension(rng, spec.nodes, deps)
        i = int(rng.integers(len(o)))
        j = int(rng.integers(len(o)))
        o[i], o[j] = o[j], o[i]
        return o
    if r < 0.6:
        return linear_extension(rng, spec.nodes, deps)
    if r < 0.7:
        return gen.shuffled(rng, spec.nodes)
    o = linear_extension(rng, spec.nodes, {v: {b for a, b in rel if a == v} for v in spec.nodes})
    if r < 0.8:
        return o[:-1] if rng.random() < .5 else o[1:]
    if r < 0.9:
        return o + [o[int(rng.integers(len(o)))]]
    o[int(rng.integers(len(o)))] = o[0] if rng.random() < .5 else spec.n + 3
    return o


@workload(300, 8000)
def histories(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=9, nmin=2, tail=16)
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    succ = flow_edges(spec)
    controls, measured = {}, {v for v in spec.meas}
    log = []
    ctx.describe(spec=spec.desc(), log=log)
    deps, rel = judge(ctx, spec, circ, succ, controls)
    for _ in range(int(rng.integers(4, 11))):
        r = rng.random()
        v = gen.choice(rng, spec.nodes)
        if r < 0.4 and measured:
            cand = [w for w in measured if w != v or rng.random() < 0.1]
            if rng.random() < 0.6:
                cand = [w for w in cand if (v, w) not in rel and w != v]
            if not cand:
                continue
            c, conds = condition(rng, circ, cand)
            cm = mp.ControlMent(c, *gen.choice(rng, [(None, "XY"), (0.4, "XY"), (None, "Z")]), *gen.choice(rng, [(0, "X"), (0.2, "XY"), (None, "Z")]))
            trial = {**controls, v: conds}
            d2 = {a: set(succ[a]) for a in spec.nodes}
            for a, cs in trial.items():
                for x in cs:
                    d2[x].add(a)
            bad = ref.descendants(d2) is None
            log.append(("control", v, sorted(conds), bad))
            before = state(circ, spec.nodes)
            how = rng.integers(2)

            def put():
                if how:
                    circ[v] = cm
                else:
                    circ.measurements = {**circ.measurements, v: cm}
            if bad:
                ctx.raises(ValueError, put, "a contradictory condition")
                ctx.check(same_state(before, state(circ, spec.nodes)), "a rejected condition changed the circuit")
                ctx.event("contradictions")
            else:
                put()
                controls = trial
                measured.add(v)
        elif r < 0.5:
            log.append(("plain", v))
            circ[v] = plain(rng)
            controls.pop(v, None)
            measured.add(v)
        elif r < 0.58:
            log.append(("del", v))
            # conditions on v remain in force: they are part of other measurements
            del circ[v]
            controls.pop(v, None)
            measured.discard(v)
        elif r < 0.65:
            log.append(("all",))
            new = {w: plain(rng) for w in gen.shuffled(rng, spec.nodes) if rng.random() < 0.7}
            circ.measurements = new
            controls = {}
            measured = set(new) | set(spec.outputc)
        else:
            o = orders(rng, spec, deps, rel)
            ok = sorted(o) == spec.nodes and respects(o, rel)
            log.append(("order", o, ok))
            before = state(circ, spec.nodes)

            def put():
                circ.measurement_order = list(o)
            if ok:
                put()
                ctx.check(list(circ.measurement_order) == o, "an assigned order is not used", got=circ.measurement_order)
                ctx.event("order-accepted")
            else:
                ctx.raises(ValueError, put, f"invalid order {o}")
                ctx.check(same_state(before, state(circ, spec.nodes)), "a rejected order changed the circuit")
                ctx.event("order-refused")
        deps, rel = judge(ctx, spec, circ, succ, controls)
        if controls:
            ctx.nontrivial(spec.key(), sorted((a, sorted(b)) for a, b in controls.items()), str(log[-1]))
    if not controls:
        fresh = spec.make(mp)
        ctx.check(rel == relation(fresh, spec.nodes), "the partial order keeps dependencies of removed conditions")


@workload(250, 5000)
def constructor(ctx, rng):
    """measurement_order and conditions given to the constructor, in the caller's labels"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=8, nmin=2, tail=16)
    gen.measure_xy(rng, spec)
    plain_circ = spec.make(mp, rng)
    L = spec.labels
    inv = {l: v for v, l in enumerate(L)}
    succ = flow_edges(spec)
    controls = {}
    ms = spec.measurements(mp)
    for _ in range(int(rng.integers(0, 3))):
        if not spec.outputc:
            break
        v = gen.choice(rng, spec.outputc)
        cand = [w for w in spec.outputc if w != v]
        if not cand:
            break
        conds = {int(w) for w in rng.choice(cand, size=int(rng.integers(1, min(2, len(cand)) + 1)), replace=False)}
        c = mp.MentOutcome(lambda x, cs=tuple(L[w] for w in conds): sum(x[w] for w in cs) % 2 == 1, cond_nodes={L[w] for w in conds})
        ms[L[v]] = mp.ControlMent(c, None, "XY", 0, "X")
        controls[v] = conds
    deps = {a: set(succ[a]) for a in spec.nodes}
    for a, cs in controls.items():
        for x in cs:
            deps[x].add(a)
    bad = ref.descendants(deps) is None
    io = dict(input_nodes=[L[v] for v in spec.inputs], output_nodes=[L[v] for v in spec.outputs])
    ctx.describe(spec=spec.desc(), controls=controls, bad=bad)
    make = lambda **kw: mp.MBQCircuit(spec.graph(mp), measurements=ms, **io, **kw)
    if bad:
        ctx.raises(ValueError, make, "contradictory conditions")
        ctx.event("contradictions")
        return
    circ = make()
    _, rel = judge(ctx, spec, circ, succ, controls)
    for _ in range(3):
        o = orders(rng, spec, deps, rel)
        if not set(o) <= set(spec.nodes):
            continue
        ok = sorted(o) == spec.nodes and respects(o, rel)
        if ok:
            c2 = make(measurement_order=[L[v] for v in o])
            ctx.check(list(c2.measurement_order) == o, "a measurement order given to the constructor is not used",
                      got=c2.measurement_order, want=o)
            ctx.event("order-accepted")
        else:
            ctx.raises(ValueError, lambda: make(measurement_order=[L[v] for v in o]), f"invalid order {o}")
            ctx.event("order-refused")
        ctx.event("constructor-orders")
    ctx.nontrivial(spec.key(), sorted((a, sorted(b)) for a, b in controls.items()))


@workload(50, 600)
def wide_circuits(ctx, rng):
    """many wires: an order in which one node comes long before a node it depends on"""
    spec = gen.flow_spec(rng, wires=(5, 14), nmax=40, nmin=24, p_cz=0.3)
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    succ = flow_edges(spec)
    ctx.describe(spec=spec.desc())
    # with a condition in force only true dependencies order the nodes
    c = gen.choice(rng, spec.outputc)
    v = gen.choice(rng, [w for w in spec.nodes if circ.partial_order(c, w)])
    lab = spec.labels
    ms = {lab[v]: mp.ControlMent(mp.MentOutcome(lambda x, k=lab[c]: x[k], cond_nodes={lab[c]}), 0.4)}
    circ[v] = mp.ControlMent(circ[c].outcome, 0.4)
    deps, rel = judge(ctx, spec, circ, succ, {v: {c}})
    succ = {v: {b for a, b in rel if a == v} for v in spec.nodes}
    pairs = [(a, b) for a, b in sorted(rel) if not any((a, x) in rel and (x, b) in rel for x in spec.nodes)]
    ext = lambda sel: linear_extension(rng, sel, {v: {w for w in succ[v] if w in sel} for v in sel})
    make = lambda o: mp.MBQCircuit(spec.graph(mp), input_nodes=[spec.labels[v] for v in spec.inputs],
                                   output_nodes=[spec.labels[v] for v in spec.outputs], measurements=dict(ms), measurement_order=[spec.labels[v] for v in o])
    for _ in range(4):
        if not pairs:
            return
        a, b = gen.choice(rng, pairs)
        before = [x for x in spec.nodes if x != a and ((x, a) in rel or (x, b) in rel)]
        after = [x for x in spec.nodes if x != b and ((a, x) in rel or (b, x) in rel)]
        between = [x for x in spec.nodes if x not in before + after + [a, b]]
        head, mid, tail = ext(before), ext(between), ext(after)
        for first, last, ok in ((b, a, False), (a, b, True)):
            o = head + [first] + mid + [last] + tail

            def put():
                if rng.random() < 0.5:
                    circ.measurement_order = list(o)
                    return circ
                return make(o)
            if not ok:
                ctx.raises(ValueError, put, f"node {first} long before node {last}")
                ctx.event("order-refused")
                if len(mid) > 8:
                    ctx.event("far-apart")
            else:
                ctx.check(list(put().measurement_order) == o, "an assigned order is not used")
                ctx.event("order-accepted")
    ctx.nontrivial(spec.key())


@workload(1, 12, cpu=300)
def long_circuits(ctx, rng):
    """130-150 nodes in one or two wires"""
    spec = gen.flow_spec(rng, wires=(1, 2), nmax=150, nmin=130, p_cz=0.2)
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    ctx.describe(spec=spec.desc())
    judge(ctx, spec, circ, flow_edges(spec), {})
    ctx.event("long")
    ctx.nontrivial(spec.key())


@workload(60, 1500)
def after_adding_edges(ctx, rng):
    """edges may be added only while a flow remains; the order follows the new graph"""
    spec = gen.flow_spec(rng, wires=(2, 3), nmax=8, nmin=3, tail=14)
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    log = []
    ctx.describe(spec=spec.desc(), log=log)
    for _ in range(4):
        a, b = (int(x) for x in rng.choice(spec.n, size=2, replace=False))
        edges = sorted(set(spec.edges) | {tuple(sorted((a, b)))})
        c = ref.causal_layers(spec.nodes, edges, spec.inputs, spec.outputs)
        if c is None:
            continue
        log.append((a, b))
        circ.add_edge(a, b) if rng.random() < .5 else circ.add_edges_from([(a, b)])
        old = spec
        spec = gen.Spec(old.n, edges, old.inputs, old.outputs, c[0], old.labels)
        spec.meas = old.meas
        judge(ctx, spec, circ, flow_edges(spec), {})
    ctx.nontrivial(spec.key(), log)
