"""C10: node names, insertion orders and dictionary orders; user-supplied flows."""
import contextlib
import io
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("one random flow circuit written several times: labels shifted, spread, strings, tuples, any permutation, nodes "
        "and edges inserted in random order, measurements in random order, relabelling on and off, conditions and orders "
        "given in the caller's labels; names, flow, layers, measurements and computed state are compared with the canonical "
        "circuit; user flows: the true one, equivalent orders, perturbed ones; non-trivial: labels differ from 0..n-1 or "
        "are permuted.")
ASSUMPTIONS = ["labels of one graph are mutually comparable (the library sorts them)"]
MIN_EVENTS = {"variants": 300, "states-compared": 150, "user-flow-accepted": 30, "user-flow-refused": 60, "conditions": 30, "wide-conditions": 5, "orders-follow": 60}


def labelling(rng, n):
    """increasing labels of several kinds"""
    r = int(rng.integers(6))
    if r == 0:
        return list(range(n))
    if r == 1:
        s = int(rng.integers(-5, 40))
        return list(range(s, s + n))
    if r == 2:
        return sorted(int(x) for x in rng.choice(300, size=n, replace=False) - 80)
    if r == 3:
        return [f"q{i:03d}" for i in sorted(int(x) for x in rng.choice(500, size=n, replace=False))]
    if r == 4:
        return sorted((int(a), int(b)) for a, b in {(x // 7, x % 7) for x in map(int, rng.choice(49, size=n, replace=False))})
    return sorted(float(x) / 4 for x in rng.choice(300, size=n, replace=False))


def canonical(spec):
    return gen.Spec(spec.n, spec.edges, spec.inputs, spec.outputs, spec.f)


def structure(circ, nodes, name=lambda v: v):
    """everything in canonical names"""
    inv = {name(v): v for v in nodes}
    rel = {(a, b) for a in nodes for b in nodes if circ.partial_order(name(a), name(b))}
    return dict(
        edges={frozenset((inv[u], inv[v])) for u, v in circ.graph.edges},
        nodes={inv[v] for v in circ.graph.nodes},
        inputs=[inv[v] for v in circ.input_nodes], outputs=[inv[v] for v in circ.output_nodes],
        flow={v: inv[circ.flow(name(v))] for v in nodes if v not in [inv[w] for w in circ.output_nodes]},
        order=rel, depth=circ.depth, layers=[{inv[v] for v in l} for l in circ.ordered_layers()],
        meas={v: None if circ[name(v)] is None else (circ[name(v)].plane, circ[name(v)].angle) for v in nodes},
        trainable={inv[v] for v in circ.trainable_nodes}, qout=[inv[v] for v in circ.quantum_output_nodes],
        cout=[inv[v] for v in circ.classical_output_nodes])


@workload(300, 8000)
def names(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=2, relabel=False, tail=13)
    gen.measure_xy(rng, spec)
    base = spec.make(mp)
    want = structure(base, spec.nodes)
    ang = {v: gen.angle(rng) for v in spec.trainables()}
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    exp = ref.density(ref.normalised(spec.expected(psi, [ang[v] for v in sorted(ang)], sorted(ang))))
    for _ in range(3):
        spec.labels = labelling(rng, spec.n)
        relabel = bool(rng.random() < 0.6)
        L = spec.labels
        name = (lambda v: v) if relabel else (lambda v: L[v])
        ctx.describe(spec=spec.desc(), relabel=relabel)
        circ = spec.make(mp, rng, relabel_indices=relabel)
        if relabel:
            ctx.check(list(circ.graph.nodes) == list(range(spec.n)), "nodes are not renamed 0..n-1 in order", got=list(circ.graph.nodes))
        got = structure(circ, spec.nodes, name)
        for k in want:
            ctx.check(got[k] == want[k], f"{k} depends on names or insertion order", got=str(got[k]), want=str(want[k]))
        inv = {name(v): v for v in spec.nodes}
        mo = [inv[v] for v in circ.measurement_order]
        ctx.check(sorted(mo) == spec.nodes and not any((b, a) in want["order"] for i, a in enumerate(mo) for b in mo[i + 1:]), "measurement order")
        ctx.event("variants")
        tr = [inv[v] for v in circ.trainable_nodes]
        if gen.window(circ) > 8:
            continue
        for b in (["numpy-sv"] if rng.random() < .6 else ["numpy-dm"]) + (["pennylane"] if spec.n <= 5 and rng.random() < .15 else []):
            if b == "pennylane" and not relabel:
                continue
            out = mp.PatternSimulator(circ, psi_arg, backend=b).run([ang[v] for v in tr])
            ctx.close(out, exp, f"{b}: state depends on names or insertion order", 1e-6)
            ctx.event("states-compared")
        if L != spec.nodes:
            ctx.nontrivial(spec.key(), L, relabel)


@workload(200, 5000)
def permutations(ctx, rng):
    """an arbitrary bijection of the names: same map, conjugated structure"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=2, relabel=False, tail=13)
    gen.measure_xy(rng, spec)
    p = gen.shuffled(rng, spec.nodes)
    twin = gen.Spec(spec.n, [(p[u], p[v]) for u, v in spec.edges], [p[v] for v in spec.inputs], [p[v] for v in spec.outputs],
                    {p[a]: p[b] for a, b in spec.f.items()})
    twin.meas = {p[v]: m for v, m in spec.meas.items()}
    ctx.describe(spec=spec.desc(), p=p)
    a, b = spec.make(mp), twin.make(mp, rng)
    wa, wb = structure(a, spec.nodes), structure(b, twin.nodes)
    ctx.check({p[x]: p[y] for x, y in wa["flow"].items()} == wb["flow"], "flow does not follow a renaming")
    ctx.check({(p[x], p[y]) for x, y in wa["order"]} == wb["order"], "order does not follow a renaming")
    ctx.check([{p[v] for v in l} for l in wa["layers"]] == wb["layers"] and wa["depth"] == wb["depth"], "layers do not follow a renaming")
    ctx.check([p[v] for v in wa["qout"]] == wb["qout"], "outputs do not follow a renaming")
    ang = {v: gen.angle(rng) for v in spec.trainables()}
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    inv = {p[v]: v for v in spec.nodes}
    ctx.event("variants")
    ctx.nontrivial(spec.key(), p)
    if max(gen.window(a), gen.window(b)) > 8:
        return
    bk = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    ra = mp.PatternSimulator(a, psi_arg, backend=bk).run([ang[v] for v in a.trainable_nodes])
    rb = mp.PatternSimulator(b, psi_arg, backend=bk).run([ang[inv[v]] for v in b.trainable_nodes])
    ctx.close(ra, rb, "renaming changes the computed state", 1e-6)
    exp = ref.density(ref.normalised(spec.expected(psi, [ang[v] for v in sorted(ang)], sorted(ang))))
    ctx.close(ra, exp, "computed state", 1e-6)
    ctx.event("states-compared")


@workload(120, 2500)
def orders_follow(ctx, rng):
    """a measurement order given in the caller's labels, which may run upwards, downwards or anyhow along the labels"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=int(gen.choice(rng, [6, 8, 14])), nmin=2, relabel=False)
    gen.measure_xy(rng, spec)
    layer = ref.causal_layers(spec.nodes, spec.edges, spec.inputs, spec.outputs)[1]
    o = sorted(gen.shuffled(rng, spec.nodes), key=lambda v: -layer[v])
    way = int(rng.integers(3))
    rank = {v: i for i, v in enumerate(o if way == 0 else o[::-1] if way == 1 else gen.shuffled(rng, o))}
    lab = labelling(rng, spec.n)
    spec.labels = L = [lab[rank[v]] for v in spec.nodes]
    relabel = bool(rng.random() < 0.6)
    name = (lambda v: rank[v]) if relabel else (lambda v: L[v])
    ctx.describe(spec=spec.desc(), order=o, labels=L, relabel=relabel)
    given = [L[v] for v in o]
    circ = spec.make(mp, rng, relabel_indices=relabel, measurement_order=given)
    ctx.check(list(circ.measurement_order) == [name(v) for v in o], "a given measurement order does not follow the names",
              got=list(circ.measurement_order), want=[name(v) for v in o])
    ctx.check(given == [L[v] for v in o], "the given order was modified")
    ctx.check(sorted(circ.trainable_nodes) == sorted(name(v) for v in spec.trainables()), "trainable nodes")
    if len(o) > 1 and layer[o[0]] > layer[o[-1]]:
        bad = given[-1:] + given[1:-1] + given[:1]
        ctx.raises(ValueError, lambda: spec.make(mp, rng, relabel_indices=relabel, measurement_order=bad), "an order that ends with the first node")
    circ.measurement_order = [name(v) for v in o]
    ctx.event("orders-follow")
    ctx.nontrivial(spec.key(), o, L, relabel)


@workload(260, 3000)
def conditions_follow(ctx, rng):
    """conditions written in the caller's labels"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=int(gen.choice(rng, [6, 6, 11])), nmin=3, relabel=False)
    if len(spec.outputc) < 2:
        return
    for v in spec.outputc:
        spec.meas[v] = ("Z", 0)
    base = spec.make(mp)
    v = gen.choice(rng, spec.outputc)
    cands = [w for w in spec.outputc if w != v and not base.partial_order(v, w)]
    if not cands:
        return
    conds = [int(w) for w in rng.choice(cands, size=min(len(cands), int(rng.integers(1, 7))), replace=False)]
    if len(conds) > 3:
        ctx.event("wide-conditions")
    spec.labels = labelling(rng, spec.n)
    L = spec.labels
    relabel = bool(rng.random() < 0.7)
    name = (lambda x: x) if relabel else (lambda x: L[x])
    ms = spec.measurements(mp, rng)
    terms = []
    for w in conds:
        m = mp.Ment("Z")
        m.node_id = L[w]
        terms.append(m.outcome)
    neg = bool(rng.integers(2))
    lib = terms[0]
    for t in terms[1:]:
        lib = lib ^ t
    lib = ~lib if neg else lib
    ms[L[v]] = mp.ControlMent(lib, 0.3, "XY", None, "Y")
    mine = gen.truth(ms[L[v]])

    def build():
        return mp.MBQCircuit(spec.graph(mp, rng), input_nodes=[L[x] for x in spec.inputs], output_nodes=[L[x] for x in spec.outputs],
                             measurements={k: ms[k] for k in gen.shuffled(rng, list(ms))}, relabel_indices=relabel)
    if rng.random() < 0.3:            # the same measurements serve for several circuits
        build()
    circ = build()
    ctx.check(gen.truth(ms[L[v]]) == mine, "building a circuit changed a condition of the caller", before=mine)
    ctx.describe(spec=spec.desc(), v=v, conds=conds, relabel=relabel)
    cm = circ[name(v)]
    ctx.check(set(cm.condition.cond_nodes) == {name(w) for w in conds}, "nodes of the condition do not follow", got=list(cm.condition.cond_nodes))
    mo = list(circ.measurement_order)
    ctx.check(all(mo.index(name(w)) < mo.index(name(v)) for w in conds), "the condition is not measured first", got=mo)
    for bits in range(2 ** len(conds)):
        val = {name(w): bits >> i & 1 for i, w in enumerate(conds)}
        want = (sum(val.values()) + neg) % 2 == 1
        ctx.check(bool(cm.condition(val)) == want, "the condition does not follow", val=str(val))
        ctx.check(cm.plane(val) == ("XY" if want else "Y"), "branch of a renamed condition")
    ctx.event("conditions")
    ctx.nontrivial(spec.key(), v, conds, L, relabel)


@workload(250, 6000)
def user_flow(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=2, relabel=False, tail=13)
    gen.measure_xy(rng, spec)
    spec.labels = labelling(rng, spec.n)
    L = spec.labels
    relabel = bool(rng.random() < 0.6)
    f = dict(spec.f)
    layer = dict(ref.causal_layers(spec.nodes, spec.edges, spec.inputs, spec.outputs)[1])
    rel = {(a, b) for a in spec.nodes for b in spec.nodes if layer[a] > layer[b]}
    r = rng.random()
    if r < 0.2:
        # the coarsest valid order
        deps = {v: set() for v in spec.nodes}
        for v, w in f.items():
            deps[v] |= {w} | (spec.adj[w] - {v})
        rel = {(a, b) for a, bs in ref.descendants(deps).items() for b in bs}
    elif r < 0.5 and f:
        v = gen.choice(rng, sorted(f))
        f[v] = gen.choice(rng, spec.nodes)
    elif r < 0.7 and rel:
        pairs = sorted(rel)
        rel = rel - {pairs[int(rng.integers(len(pairs)))]}
    elif r < 0.8:
        rel = {(b, a) for a, b in rel}
    ok = all(f[v] in spec.adj[v] and f[v] not in spec.inputs and (v, f[v]) in rel
             and all((v, u) in rel for u in spec.adj[f[v]] - {v}) for v in f)
    if ok and any((a, d) not in rel for a, b in rel for c, d in rel if b == c):
        return   # the relation is not a partial order: nothing is promised
    inv = {l: v for v, l in enumerate(L)}
    uf = lambda x: L[f[inv[x]]]
    uo = lambda x, y: (inv[x], inv[y]) in rel
    ctx.describe(spec=spec.desc(), f=f, rel=sorted(rel), ok=ok, relabel=relabel)

    given = None
    if rng.random() < 0.5:                # an order of the measurements comes along
        given, rest = [], gen.shuffled(rng, spec.nodes)
        while rest:
            free = [v for v in rest if not any((w, v) in rel for w in rest)] or rest
            given.append(free[0])
            rest.remove(free[0])

    def make(given=given):
        kw = {} if given is None else {"measurement_order": [L[v] for v in given]}
        with contextlib.redirect_stdout(io.StringIO()):
            return spec.make(mp, rng, flow=uf, partial_order=uo, relabel_indices=relabel, **kw)
    if not ok:
        ctx.raises(ValueError, make, "an invalid flow")
        ctx.event("user-flow-refused")
        return
    circ = make()
    name = (lambda v: v) if relabel else (lambda v: L[v])
    ctx.check({v: circ.flow(name(v)) for v in f} == {v: name(w) for v, w in f.items()}, "a valid user flow is not used")
    ctx.check({(a, b) for a in spec.nodes for b in spec.nodes if circ.partial_order(name(a), name(b))} == rel, "a valid user order is not used")
    mo = [v if relabel else inv[v] for v in circ.measurement_order]
    ctx.check(sorted(mo) == spec.nodes and not any((b, a) in rel for i, a in enumerate(mo) for b in mo[i + 1:]), "measurement order with a user flow", got=mo)
    if given is not None:
        ctx.check(mo == given, "a given measurement order is not used with a user flow", got=mo, want=given)
        bad = list(given)
        i, j = sorted(int(k) for k in rng.integers(0, len(bad), size=2))
        bad[i], bad[j] = bad[j], bad[i]
        if any((b, a) in rel for k, a in enumerate(bad) for b in bad[k + 1:]):
            ctx.raises(ValueError, lambda: make(bad), "a measurement order against the user order")
    ctx.event("user-flow-accepted")
    ctx.nontrivial(spec.key(), sorted(rel), L)
    if gen.window(circ) > 8:
        return
    ang = {v: gen.angle(rng) for v in spec.trainables()}
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    exp = ref.density(ref.normalised(spec.expected(psi, [ang[v] for v in sorted(ang)], sorted(ang))))
    tr = [v if relabel else inv[v] for v in circ.trainable_nodes]
    out = mp.PatternSimulator(circ, psi_arg, backend="numpy-sv").run([ang[v] for v in tr])
    ctx.close(out, exp, "state with a user flow", 1e-6)
    ctx.event("states-compared")
