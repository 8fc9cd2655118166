"""C27: copies of every kind of object, taken at random points of a history, vs the original and vs a plain record."""
import copy, itertools, warnings
import dill
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload
from vmon.checks.c03 import rand_condition
from vmon.checks.c09 import judge, ment_data, random_ment, start, Owned
from vmon.checks.c13 import apply_lib, apply_py, OPS

RULE = ("pools of circuits, simulators, measurements, outcomes, Pauli operators and graph states that grow by copying a random member "
        "(copy, deepcopy, dill round trips, rebuilding from its parts, copy methods) at a random point of its history and are edited or "
        "run independently afterwards; after every action every member is compared with its own record; non-trivial: something was "
        "edited or run after it had been copied.")
ASSUMPTIONS = ["a shallow copy (copy.copy) is only compared at the moment it is made",
               "the copy methods of measurements give a measurement that is attached to no node",
               "dill is the pickling library, as circuits hold closures"]
MIN_EVENTS = {"copies": 200, "judged": 1500, "edits": 300, "sim-copies": 60, "sim-runs": 60, "same-run": 60, "ments": 150, "outcomes": 100,
              "paulis": 60, "graphs": 40}

DEEP = {"deepcopy": copy.deepcopy, "dill": lambda x: dill.loads(dill.dumps(x)),
        "twice": lambda x: copy.deepcopy(dill.loads(dill.dumps(copy.deepcopy(x))))}


def deep(rng):
    k = gen.choice(rng, ["deepcopy", "deepcopy", "dill", "twice"])
    return k, DEEP[k]


def rebuild(c, relabel, default):
    kw = {} if default is None else dict(default_measurement=default)
    return mp.MBQCircuit(c.graph, input_nodes=c.input_nodes, output_nodes=c.output_nodes, measurements=c.measurements,
                         relabel_indices=relabel, **kw)


def clone(rec):
    return dict(rec, nodes=list(rec["nodes"]), edges=set(rec["edges"]), meas=dict(rec["meas"]))


def same_circuit(ctx, a, b, what):
    nodes = list(a.graph.nodes)
    ctx.check(list(b.graph.nodes) == nodes, f"{what}: nodes")
    ctx.check(a.measurement_order == b.measurement_order or (a.measurement_order is not None and b.measurement_order is not None
              and list(a.measurement_order) == list(b.measurement_order)), f"{what}: measurement order", got=b.measurement_order, want=a.measurement_order)
    ctx.check(list(a.trainable_nodes) == list(b.trainable_nodes), f"{what}: order of the trainable nodes")
    ctx.check((a.partial_order is None) == (b.partial_order is None), f"{what}: partial order")
    if a.partial_order is not None:
        for u in nodes:
            for v in nodes:
                ctx.check(bool(a.partial_order(u, v)) == bool(b.partial_order(u, v)), f"{what}: partial order of {u}, {v}")
    fa, fb = a.gflow, b.gflow
    ctx.check((fa.func is None) == (fb.func is None) and fa.depth == fb.depth, f"{what}: depth or flow")
    ctx.check(a.ordered_layers() == b.ordered_layers(), f"{what}: layers")
    for v in nodes:
        ca, cb = a[v], b[v]
        if isinstance(ca, mp.ControlMent) and gen.cond_nodes(ca) is not None:
            cond = sorted(ca.condition.cond_nodes)
            for vals in itertools.product((0, 1), repeat=len(cond)):
                x = dict(zip(cond, vals))
                ctx.check(bool(ca.condition(x)) == bool(cb.condition(x)), f"{what}: condition of node {v}", at=x)
                ctx.check(ca.plane(x) == cb.plane(x) and ca.angle(x) == cb.angle(x), f"{what}: controlled measurement of node {v}", at=x)


def run_both(ctx, rng, a, b, what):
    """the same seeded simulation of both gives the same outcomes and state"""
    if not all(isinstance(v, (int, np.integer)) for v in a.graph.nodes) or a.measurement_order is None or len(a.graph) > 7:
        return
    angles = [gen.angle(rng) for _ in a.trainable_nodes]
    seed = int(rng.integers(2 ** 31))
    res = []
    for c in (a, b):
        np.random.seed(seed)
        try:
            sim = mp.PatternSimulator(c, backend="numpy-dm")
            out = sim.run(angles)
            res.append((np.asarray(out), {k: int(v) for k, v in dict(sim.outcomes).items()}))
        except Exception as e:
            res.append((type(e).__name__, str(e)))
    (o1, h1), (o2, h2) = res
    if isinstance(o1, str) or isinstance(o2, str):
        ctx.check(isinstance(o1, str) and isinstance(o2, str) and o1 == o2, f"{what}: simulating one fails", errors=[str(r) for r in res])
        ctx.event("both-fail")
        return
    ctx.check(h1 == h2, f"{what}: outcomes of the simulation", got=h2, want=h1)
    ctx.close(o2, o1, f"{what}: simulated state", 1e-9)
    ctx.event("same-run")


@workload(120, 3000)
def circuits(ctx, rng):
    warnings.simplefilter("ignore")
    own = Owned()
    relabel = bool(rng.random() < 0.7)
    spec, name = start(rng, own, relabel)
    L = spec.labels
    default = gen.choice(rng, [None, mp.Ment("X"), mp.Ment(0.7, "XY"), mp.Ment("Z")])
    kw = {} if default is None else dict(default_measurement=default)
    dflt = ("M", "XY", None) if default is None else ment_data(default)
    init = {v: random_ment(rng) for v in spec.nodes if rng.random() < .4}
    c = mp.MBQCircuit(spec.graph(mp, rng), input_nodes=[L[v] for v in spec.inputs], output_nodes=[L[v] for v in spec.outputs],
                      measurements={L[v]: m for v, m in init.items()} if init or rng.random() < .5 else None, relabel_indices=relabel, **kw)
    rec = dict(nodes=[name(v) for v in spec.nodes], edges={frozenset((name(u), name(v))) for u, v in spec.edges},
               inputs=[name(v) for v in spec.inputs], outputs=[name(v) for v in spec.outputs],
               meas={name(v): ment_data(init[v]) if v in init else (None if v in spec.outputs else dflt) for v in spec.nodes})
    pool = [[c, rec, 0]]          # circuit, record, edits since it was copied
    log = []
    ctx.describe(spec=spec.desc(), relabel=relabel, default=dflt, meas=rec["meas"], log=log)
    judge(ctx, c, rec)
    after = 0
    for _ in range(int(rng.integers(6, 16))):
        w = int(rng.integers(len(pool)))
        c, r, _ = pool[w]
        if rng.random() < 0.35 and len(pool) < 5:
            k = rng.random()
            if k < 0.2:
                log.append((w, "copy.copy"))
                s = copy.copy(c)
                judge(ctx, s, r)
                same_circuit(ctx, c, s, "shallow copy")
                run_both(ctx, rng, c, s, "shallow copy")
                ctx.event("copies")
                continue
            if k < 0.4:
                log.append((w, "rebuild"))
                new = rebuild(c, relabel, default)
                what = "rebuilt circuit"
            else:
                how, fn = deep(rng)
                log.append((w, how))
                new, what = fn(c), how
                same_circuit(ctx, c, new, what)
                run_both(ctx, rng, c, new, what)
            pool.append([new, clone(r), 0])
            ctx.event("copies")
        else:
            v = gen.choice(rng, r["nodes"])
            op = rng.random()
            if op < 0.35:
                m = random_ment(rng)
                log.append((w, "set", v, str(ment_data(m))))
                c[v] = m
                r["meas"][v] = ment_data(m)
            elif op < 0.5:
                cands = [u for u in r["nodes"] if u != v and r["meas"][u] is not None and c.partial_order is not None and not c.partial_order(v, u)]
                if not cands:
                    continue
                # the condition is taken from another member of the pool half of the time
                src = c if rng.random() < .5 else gen.choice(rng, pool)[0]
                cands = [u for u in cands if src[u] is not None]
                if not cands:
                    continue
                lib, fn, nodes = rand_condition(rng, src, cands) if all(isinstance(u, int) for u in cands) else (src[cands[0]].outcome, None, [cands[0]])
                m = mp.ControlMent(lib, None, "XY", 0.3, "XZ")
                log.append((w, "control", v, nodes))
                try:
                    c[v] = m
                except ValueError:
                    log[-1] += ("refused",)
                else:
                    r["meas"][v] = ment_data(m)
            elif op < 0.6:
                log.append((w, "del", v))
                del c[v]
                r["meas"][v] = None
            elif op < 0.7:
                new = {u: random_ment(rng) for u in r["nodes"] if rng.random() < .6}
                log.append((w, "all", {u: str(ment_data(m)) for u, m in new.items()}))
                c.measurements = new
                r["meas"] = {u: (ment_data(new[u]) if u in new else (None if u in r["outputs"] else dflt)) for u in r["nodes"]}
            elif op < 0.85 and len(r["nodes"]) > 1:
                e = tuple(gen.shuffled(rng, r["nodes"])[:2])
                log.append((w, "edge", e))
                try:
                    c.add_edge(*e)
                except ValueError:
                    ctx.check(any(d and d[0] == "C" for d in r["meas"].values()), "an edge was refused")
                else:
                    r["edges"].add(frozenset(e))
            elif c[v] is not None and not isinstance(c[v], mp.ControlMent) and c[v].plane in ("XY", "XZ", "YZ"):
                a = gen.angle(rng)
                log.append((w, "set_angle", v, a))
                c[v] = c[v].copy().set_angle(a)
                r["meas"][v] = ("M", c[v].plane, a)
            else:
                continue
            ctx.event("edits")
            if len(pool) > 1:
                after += 1
        for i, (c2, r2, _) in enumerate(pool):
            judge(ctx, c2, r2, f"member {i}")
    # every member still behaves like a circuit built from its record
    if after and rng.random() < .7:
        c, r, _ = gen.choice(rng, pool)
        n = rebuild(c, relabel, default)
        judge(ctx, n, r)
        run_both(ctx, rng, c, copy.deepcopy(c), "last copy")
    if after:
        ctx.nontrivial(spec.key(), str(log))


def sim_compare(ctx, sim, spec, circ, psi, given, tr, st):
    live = list(sim.current_simulated_nodes())
    vec = ref.reorder(ref.normalised(spec.expected(psi, [given[v] for v in tr], tr)), spec.outputs, live)
    got = np.asarray(st)
    ctx.close(ref.density(got) if got.ndim == 1 else got, ref.density(vec), "state of a copied simulator", 1e-6)


@workload(80, 2000)
def stepwise(ctx, rng):
    """numpy simulators copied in the middle of a measurement sequence continue independently"""
    warnings.simplefilter("ignore")
    backend = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=3, tail=12))
    circ = spec.make(mp, rng)
    if gen.window(circ) > 7:
        return
    tr = list(circ.trainable_nodes)
    measured = [v for v in circ.measurement_order if v in spec.meas]
    pa, psi = gen.input_state(rng, len(spec.inputs))
    kw = {}
    if rng.random() < .4 and spec.n <= 7:
        kw["window_size"] = spec.n
    sim = mp.PatternSimulator(circ, pa, backend=backend, **kw)
    if rng.random() < .3:
        sim = sim.simulator
    pool = [dict(sim=sim, psi=psi, given={}, m=0)]
    log = []
    ctx.describe(backend=backend, spec=spec.desc(), log=log)
    copied = 0
    for _ in range(40):
        w = int(rng.integers(len(pool)))
        p = pool[w]
        r = rng.random()
        if r < 0.25 and len(pool) < 4:
            how, fn = deep(rng)
            log.append((w, how, p["m"]))
            pool.append(dict(p, sim=fn(p["sim"]), given=dict(p["given"])))
            q = pool[-1]["sim"]
            ctx.check({k: int(x) for k, x in dict(q.outcomes).items()} == {k: int(x) for k, x in dict(p["sim"].outcomes).items()}, "outcomes of a copy")
            ctx.check(list(q.current_simulated_nodes()) == list(p["sim"].current_simulated_nodes()), "current nodes of a copy")
            ctx.event("sim-copies")
            copied += 1
        elif r < 0.32:
            log.append((w, "reset"))
            p["sim"].reset()
            p["m"], p["given"] = 0, {}
        elif r < 0.38:
            na = None
            while na is None:
                na, npsi = gen.input_state(rng, len(spec.inputs))
            log.append((w, "reset-input"))
            p["sim"].reset(na)
            p["psi"], p["m"], p["given"] = npsi, 0, {}
        elif r < 0.48:
            log.append((w, "run"))
            p["sim"].reset()
            angs = [gen.angle(rng) for _ in tr]
            out = p["sim"].run(angs)
            ctx.close(out, ref.density(ref.normalised(spec.expected(p["psi"], angs, tr))), "run of a copied simulator", 1e-6)
            p["m"] = len(measured)
            p["given"] = dict(zip(tr, angs))
            ctx.event("sim-runs")
        elif p["m"] < len(measured):
            v = measured[p["m"]]
            plane, ang = spec.meas[v]
            if plane == "XY" and ang is None:
                ang = p["given"][v] = gen.angle(rng)
            log.append((w, "measure", v))
            st, _ = p["sim"].measure(ang)
            p["m"] += 1
            if p["m"] == len(measured):
                sim_compare(ctx, p["sim"], spec, circ, p["psi"], p["given"], tr, st)
                ctx.event("sim-runs")
    for p in pool:
        ctx.check({k: int(x) for k, x in dict(p["sim"].outcomes).items()} == {v: 0 for v in measured[:p["m"]]}, "outcomes of a member",
                  got=dict(p["sim"].outcomes), measured=measured[:p["m"]])
    if copied:
        ctx.nontrivial(backend, spec.key(), str(log))


@workload(50, 1000)
def simulators(ctx, rng):
    """copies of whole simulators of every backend; the original's circuit is edited afterwards"""
    warnings.simplefilter("ignore")
    backend = gen.choice(rng, ["numpy-sv", "numpy-dm", "pennylane", "pennylane"])
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=6, nmin=3))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    pa, psi = gen.input_state(rng, len(spec.inputs))
    sim = mp.PatternSimulator(circ, pa, backend=backend)
    numpy_ = backend != "pennylane"
    angs = [gen.angle(rng) for _ in tr]
    ran = rng.random() < .5
    if ran:
        sim.run(angs)
    how, fn = deep(rng)
    new = fn(sim)
    ctx.describe(backend=backend, spec=spec.desc(), how=how, ran=ran, psi=psi, angles=angs)
    ctx.event("sim-copies")
    ctx.check(new.mbqcircuit is not circ and new.mbqcircuit is not sim.mbqcircuit, "a deep copy shares the circuit")
    edited = rng.random() < .7
    if edited:
        for _ in range(3):
            r = rng.random()
            if r < .5:
                u, v = (int(x) for x in rng.choice(spec.n, size=2, replace=False))
                circ.add_edge(u, v)
            elif spec.outputc:
                circ[gen.choice(rng, spec.outputc)] = gen.choice(rng, [mp.Ment("X"), mp.Ment("Y"), mp.Ment(0.3, "XY"), mp.Ment("XY")])
    want = ref.density(ref.normalised(spec.expected(psi, angs, tr)))
    if ran and numpy_:
        new.reset()
    ctx.close(new.run(angs), want, "run of a deep copy" + (" after the circuit of the original was edited" if edited else ""), 1e-6)
    ctx.event("sim-runs")
    if not edited:
        if numpy_:
            sim.reset()
        ctx.close(sim.run(angs), want, "run of the original", 1e-6)
    na, npsi = gen.input_state(rng, len(spec.inputs))
    if na is not None:
        ctx.close(new.run(angs, input_state=na), ref.density(ref.normalised(spec.expected(npsi, angs, tr))), "run of a deep copy with a new input", 1e-6)
        if not edited:
            if numpy_:
                sim.reset()
            ctx.close(sim.run(angs), want, "the input of a copy changed the original", 1e-6)
    ctx.nontrivial(backend, spec.key(), how, str(angs))


def some_ment(rng):
    plane = gen.choice(rng, ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"])
    if plane in "XYZ" and len(plane) == 1:
        return mp.Ment(plane)
    if rng.random() < .4:
        return mp.Ment(plane)
    return mp.Ment((gen.angle(rng), gen.angle(rng)) if plane == "XYZ" else gen.angle(rng), plane)


def behaviour(m, probe):
    """what a measurement does, as plain data"""
    if isinstance(m, mp.ControlMent):
        nodes = gen.cond_nodes(m)
        tab = []
        for x in ([{}] if nodes is None else [dict(zip(sorted(nodes), v)) for v in itertools.product((0, 1), repeat=len(nodes))]):
            tab.append((bool(m.condition(x)), m.angle(x), m.plane(x)))
        return ("C", tab, m.is_trainable(), repr(m), m.angle(), m.plane())
    mats = []
    a = m.angle if m.angle is not None else (probe if m.plane != "XYZ" else (probe, 0.3))
    mats = [np.round(m.matrix(a), 12).tolist()] + [np.round(x, 12).tolist() for x in m.get_povm(a)]
    return ("M", m.plane, m.angle, m.is_trainable(), repr(m), str(mats))


@workload(200, 4000)
def measurements(ctx, rng):
    warnings.simplefilter("ignore")
    src = mp.templates.linear_cluster(5)
    probe = gen.angle(rng)

    def make():
        if rng.random() < .6:
            return some_ment(rng)
        cond = bool(rng.integers(2)) if rng.random() < .3 else rand_condition(rng, src, [0, 1, 2, 3])[0]
        t, f = some_ment(rng), some_ment(rng)
        return mp.ControlMent(cond, t.angle if len(t.plane) > 1 else None, t.plane, f.angle if len(f.plane) > 1 else None, f.plane)
    pool = []

    def add(m, node):
        pool.append([m, behaviour(m, probe), node])
    add(make(), None)
    log = []
    ctx.describe(first=repr(pool[0][0]), log=log)
    edits = 0
    for _ in range(int(rng.integers(3, 12))):
        w = int(rng.integers(len(pool)))
        m, b, node = pool[w]
        r = rng.random()
        if r < .45:
            how = gen.choice(rng, ["copy()", "copy.copy", "deepcopy", "dill"])
            log.append((w, how))
            if how == "copy()":
                new, node = m.copy(), None
            elif how == "copy.copy":
                new = copy.copy(m)
            else:
                new = DEEP[how](m)
            ctx.check(type(new) is type(m) and new is not m, "type of a copy")
            ctx.check(behaviour(new, probe) == b, f"{how}: behaviour", got=behaviour(new, probe), want=b)
            if how != "copy()":
                ctx.check(new.node_id == m.node_id, "node of a copy")
            add(new, node)
        elif r < .7:
            node = int(rng.integers(6))
            m.node_id = node
            pool[w][2] = node
            log.append((w, "node", node))
            edits += 1
        elif r < .85 and not isinstance(m, mp.ControlMent) and len(m.plane) == 2:
            a = gen.angle(rng)
            ctx.check(m.set_angle(a) is m, "set_angle")
            pool[w][1] = behaviour(m, probe)
            ctx.check(m.angle == a, "set_angle")
            log.append((w, "angle", a))
            edits += 1
        elif isinstance(m, mp.ControlMent):
            m.condition = bool(rng.integers(2)) if rng.random() < .3 else rand_condition(rng, src, [0, 1, 2, 3])[0]
            pool[w][1] = behaviour(m, probe)
            log.append((w, "condition"))
            edits += 1
        for i, (m2, b2, n2) in enumerate(pool):
            ctx.check(behaviour(m2, probe) == b2, "a measurement changed with another one", member=i, got=behaviour(m2, probe), want=b2)
            if n2 is not None:
                ctx.check(m2.node_id == n2 and set(m2.outcome.cond_nodes) == {n2}, "node of a measurement", member=i)
                for bit in (0, 1):
                    x = {v: 1 - bit for v in range(6)}
                    x[n2] = bit
                    ctx.check(m2.outcome(x) == bit, "the outcome of a measurement follows another node", member=i, node=n2)
    ctx.event("ments", len(pool))
    if len(pool) > 1 and edits:
        ctx.nontrivial(str(log), pool[0][1])


@workload(120, 3000)
def outcomes(ctx, rng):
    """outcomes of measurements that are moved, and copies of outcome expressions"""
    warnings.simplefilter("ignore")
    ments, pool, log = [], [], []
    for _ in range(4):
        m = some_ment(rng)
        m.node_id = int(rng.integers(6))
        ments.append(m)
    ctx.describe(log=log, nodes=[m.node_id for m in ments])
    copies = 0
    for _ in range(int(rng.integers(4, 16))):
        r = rng.random()
        if r < .3 or not pool:
            m = gen.choice(rng, ments)
            pool.append((m.outcome, (lambda x, v=m.node_id: int(x[v])), {m.node_id}))
            log.append(("outcome", m.node_id))
        elif r < .5:
            m = gen.choice(rng, ments)
            m.node_id = int(rng.integers(6))
            log.append(("move", m.node_id))
        elif r < .75:
            o, f, c = gen.choice(rng, pool)
            how = gen.choice(rng, ["copy.copy", "deepcopy", "dill"])
            pool.append((copy.copy(o) if how == "copy.copy" else DEEP[how](o), f, c))
            copies += 1
            log.append((how,))
        else:
            (o, f, c), (p, g, d) = gen.choice(rng, pool), gen.choice(rng, pool)
            op = gen.choice(rng, OPS)
            pool.append((apply_lib(op, o, p), (lambda x, f=f, g=g, op=op: apply_py(op, f(x), g(x))), c | d))
            log.append((op,))
        for _ in range(6):
            x = {v: int(rng.integers(2)) for v in range(6)}
            for i, (o, f, c) in enumerate(pool):
                ctx.check(int(o(x)) == f(x) % 2, "value of an outcome", member=i, at=x, log=log[-4:])
                ctx.check(set(o.cond_nodes) == c, "conditioning nodes", member=i)
    ctx.event("outcomes", copies)
    if copies:
        ctx.nontrivial(str(log))


@workload(120, 2000)
def paulis(ctx, rng):
    n = int(rng.integers(1, 5))
    txt = ["".join(gen.choice(rng, "IXYZ") for _ in range(n)) for _ in range(int(rng.integers(1, 4)))]
    pool = [[mp.PauliOp(";".join(txt)), list(txt)]]
    log = []
    ctx.describe(first=txt, log=log)
    for _ in range(int(rng.integers(3, 9))):
        w = int(rng.integers(len(pool)))
        op, t = pool[w]
        if rng.random() < .5:
            how = gen.choice(rng, ["copy.copy", "deepcopy", "dill", "rebuild", "text"])
            new = (copy.copy(op) if how == "copy.copy" else mp.PauliOp(op.matrix) if how == "rebuild" else mp.PauliOp(";".join(t)) if how == "text"
                   else DEEP[how](op))
            ctx.check(new == op and hash(new) == hash(op), f"{how}: a copy is not equal to the original")
            pool.append([new, list(t)])
            log.append((w, how))
        else:
            s = "".join(gen.choice(rng, "IXYZ") for _ in range(n))
            op.append(mp.PauliOp(s))
            t.append(s)
            log.append((w, "append", s))
        for o, t2 in pool:
            ctx.check(o == mp.PauliOp(";".join(t2)) and len(o) == len(t2) and o.txt.split("\n") == t2, "an operator changed with a copy", got=o.txt, want=t2)
            ctx.event("paulis")
    if len(pool) > 1:
        ctx.nontrivial(txt, str(log))


@workload(60, 1000)
def graphs(ctx, rng):
    n = int(rng.integers(1, 8))
    lab = gen.labels_for(rng, n)
    E = gen.random_graph(rng, n)
    g = mp.GraphState()
    g.add_nodes_from(lab)
    g.add_edges_from((lab[u], lab[v]) for u, v in E)
    pool = [[g, set(lab), {frozenset((lab[u], lab[v])) for u, v in E}]]
    for _ in range(int(rng.integers(3, 10))):
        w = int(rng.integers(len(pool)))
        g, N, E = pool[w]
        r = rng.random()
        if r < .45:
            how = gen.choice(rng, ["copy()", "deepcopy", "dill"])
            new = g.copy() if how == "copy()" else DEEP[how](g)
            ctx.check(type(new) is mp.GraphState and list(new.nodes) == list(g.nodes), f"{how}: nodes or type")
            pool.append([new, set(N), set(E)])
        elif r < .8 and n > 1:
            u, v = (lab[int(i)] for i in rng.choice(n, size=2, replace=False))
            if g.has_edge(u, v):
                g.remove_edge(u, v)
                E.discard(frozenset((u, v)))
            else:
                g.add_edge(u, v)
                E.add(frozenset((u, v)))
        for g2, N2, E2 in pool:
            ctx.check(set(g2.nodes) == N2 and {frozenset(e) for e in g2.edges} == E2, "a graph state changed with a copy")
            nodes = list(g2.nodes)
            st = g2.stabilizers()
            ctx.check(st.txt.split("\n") == ["".join("X" if u == v else "Z" if frozenset((u, v)) in E2 else "I" for u in nodes) for v in nodes],
                      "stabilizers of a copy", got=st.txt)
            ctx.event("graphs")
    ctx.nontrivial(n, str(E), len(pool))
