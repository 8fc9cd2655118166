"""C04: histories of run / reset / measure calls vs a model of a memoryless simulator."""
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload
from vmon.checks import c03

RULE = ("random sequences (5-9 calls, in one of ten cases up to 35) of run, run with a new input, reset, reset with a new input, stepwise measure, "
        "wrong calls, on one simulator of every backend over random flow circuits; after every call the returned "
        "state is compared with a model that recomputes it from the current input; the same on numpy-dm with sampled Z outcomes, each run judged by its own outcomes; invalid constructor arguments; "
        "non-trivial: at least two runs with different inputs or angles in one history.")
ASSUMPTIONS = ["tolerance 1e-6", "pennylane needs no reset between runs; the numpy backends refuse to run twice"]
MIN_EVENTS = {"runs": 100, "resets": 30, "stepwise": 10, "refused": 30, "different-outcomes": 12, "edits": 60}


def snapshot(circ):
    return (list(circ.measurement_order), sorted(circ.measurements), list(circ.trainable_nodes),
            sorted(map(str, circ.measurements.items())), sorted(circ.graph.edges), list(circ.input_nodes),
            list(circ.output_nodes))


@workload(150, 5000)
def histories(ctx, rng):
    backend = gen.choice(rng, ["numpy-sv", "numpy-dm", "pennylane", "numpy-sv", "numpy-dm"])
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=6 if backend == "pennylane" else 7, nmin=2))
    circ = spec.make(mp, rng)
    before = snapshot(circ)
    tr = list(circ.trainable_nodes)
    k = len(spec.inputs)
    psi_arg, psi = gen.input_state(rng, k)
    numpy_ = backend != "pennylane"
    kw, sched = {}, list(circ.measurement_order)
    if numpy_ and rng.random() < 0.5:
        s = gen.schedule(rng, spec)
        w = ref.min_window(k, s, spec.meas, spec.adj)
        if w <= 8:
            sched, kw = s, dict(schedule=list(s), window_size=int(rng.integers(w, min(spec.n, 8) + 1)))
            ctx.event("custom-schedule")
    sim = mp.PatternSimulator(circ, psi_arg, backend=backend, **kw)
    fresh = True            # numpy backends: nothing measured since the last reset
    log = []
    measured = [v for v in sched if v in spec.meas]
    nruns, runs = 0, set()
    for _ in range(int(rng.integers(5, 10)) if rng.random() < 0.9 else int(rng.integers(10, 36))):
        angles = np.array([gen.angle(rng) for _ in tr])
        a0 = angles.copy()
        op = gen.choice(rng, ["run", "run", "reset", "reset_in", "run_in", "step", "bad", "run"])
        new_arg = new = None
        if op in ("reset_in", "run_in"):
            while new_arg is None:
                new_arg, new = gen.input_state(rng, k)
            keep = new_arg.copy()
        log.append((op, a0.tolist(), new))
        ctx.describe(backend=backend, spec=spec.desc(), first=psi_arg, trainable=tr, log=log, kw=kw)
        out = None
        if op == "run":
            if numpy_ and not fresh and measured:
                ctx.raises(ValueError, lambda: sim.run(angles), "running again without a reset")
                ctx.event("refused")
            else:
                out = sim.run(angles) if rng.random() < 0.5 else sim(angles)
                fresh = False
        elif op == "run_in":
            out = sim.run(angles, input_state=new_arg) if rng.random() < 0.6 else sim(angles, input_state=new_arg)
            psi, fresh = new, False
        elif op == "reset":
            sim.reset()
            fresh = True
            ctx.event("resets")
            if numpy_:
                ctx.check(dict(sim.outcomes) == {}, "outcomes survive a reset")
        elif op == "reset_in":
            sim.reset(input_state=new_arg) if rng.random() < 0.5 else sim.reset(new_arg)
            psi, fresh = new, True
            ctx.event("resets")
            if numpy_:
                ctx.check(dict(sim.outcomes) == {}, "outcomes survive a reset with a new input")
        elif op == "bad":
            n = len(tr)
            wrong = [x for x in (n - 1, n + 1, n + 3) if x >= 0]
            m = gen.choice(rng, wrong)
            ctx.raises(ValueError, lambda: sim.run([0.1] * m), "wrong number of angles")
            ctx.event("refused")
        elif op == "step" and numpy_:
            if not fresh:
                sim.reset()
            st = None
            m = int(rng.integers(0, len(measured) + 1)) if rng.random() < 0.4 else len(measured)
            for v in measured[:m]:
                plane, ang = spec.meas[v]
                if plane == "XY" and ang is None:
                    ang = float(angles[tr.index(v)])
                st, o = sim.measure(ang)
                ctx.check(o == 0, "outcome of a step")
            fresh = m == 0
            ctx.check(dict(sim.outcomes) == {v: 0 for v in measured[:m]}, "outcomes of the steps", got=sim.outcomes, want=measured[:m])
            if m == len(measured) and m:
                live = list(sim.current_simulated_nodes())
                ctx.check(set(live) == set(spec.outputs), "nodes left after measuring", live=live)
                vec = ref.normalised(spec.expected(psi, angles, tr))
                vec = ref.reorder(vec, spec.outputs, live)
                got = np.asarray(st)
                ctx.close(ref.density(got) if got.ndim == 1 else got, ref.density(vec), "stepwise state", 1e-6)
                ctx.event("stepwise")
                ctx.raises(ValueError, lambda: sim.measure(0.3), "measuring after the last node")
                ctx.event("refused")
            elif m:
                ctx.raises(ValueError, lambda: sim.run(angles), "running after some steps without a reset")
                ctx.event("refused")
        if out is not None:
            exp = ref.density(ref.normalised(spec.expected(psi, angles, tr)))
            ctx.close(out, exp, f"{backend}: {op} differs from a fresh simulator", 1e-6)
            if numpy_:
                ctx.check(dict(sim.outcomes) == {v: 0 for v in measured}, "outcomes of the run", got=sim.outcomes)
            ctx.event("runs")
            runs.add((op, tuple(a0), str(psi)))
        ctx.check(np.array_equal(angles, a0), "angles were modified")
        if new_arg is not None:
            ctx.check(np.array_equal(new_arg, keep), "input state was modified")
    ctx.check(snapshot(circ) == before, "simulating changed the circuit")
    if len(runs) > 1:
        ctx.nontrivial(backend, spec.key(), str(log))


@workload(90, 2500)
def sampled_histories(ctx, rng):
    """numpy-dm with every plane: outcomes differ from run to run, and each run is judged by its own outcomes and its own input"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=6, nmin=2)
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = c03.rand_meas(rng) if rng.random() < 0.5 else ("Z", 0)
    if not spec.meas:
        return
    circ = spec.make(mp, rng)
    if gen.window(circ) > 6:
        return
    pat, tr = c03.Pattern(spec), list(circ.trainable_nodes)
    order = [v for v in circ.measurement_order if v in spec.meas]
    pa, psi = gen.input_state(rng, len(spec.inputs))
    sim = mp.PatternSimulator(circ, pa, backend="numpy-dm")
    log, seen = [], set()
    for i in range(int(rng.integers(3, 7))):
        given = {v: c03.rand_angle(rng, spec.meas[v][0]) for v in tr}
        args = [given[v] for v in tr]
        if i:
            if rng.random() < 0.5:
                sim.reset()
                log.append("reset")
            else:
                new = None
                while new is None:
                    new, psi = gen.input_state(rng, len(spec.inputs))
                sim.reset(input_state=new)
                log.append("reset_in")
            ctx.check(dict(sim.outcomes) == {}, "outcomes survive a reset", log=log)
            ctx.event("resets")
        op = gen.choice(rng, ["run", "run", "run_in", "partial"])
        log.append(op)
        ctx.describe(spec=spec.desc(), log=log, given=given, psi=psi)
        if op == "partial":
            m = int(rng.integers(1, len(order) + 1))
            for v in order[:m]:
                _, o = sim.measure(given[v] if v in tr else circ[v].angle)
                ctx.check(int(sim.outcomes[v]) == int(o), "outcome of a step")
            ctx.check(list(sim.outcomes) == order[:m], "outcomes of the steps", got=sim.outcomes, want=order[:m])
            continue
        if op == "run_in":
            new = None
            while new is None:
                new, psi = gen.input_state(rng, len(spec.inputs))
            out = sim.run(args, input_state=new)
        else:
            out = sim.run(args)
        ctx.event("runs")
        if c03.judge(ctx, pat, order, psi, given, out, dict(sim.outcomes)):
            seen.add(tuple(int(sim.outcomes[v]) for v in order))
    if len(seen) > 1:
        ctx.event("different-outcomes")
        ctx.nontrivial(spec.key(), str(log), sorted(seen))


@workload(60, 1500)
def same_as_fresh(ctx, rng):
    """two interleaved simulators of one circuit do not influence each other"""
    backend = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=3))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    measured = [v for v in circ.measurement_order if v in spec.meas]
    sims = []
    for _ in range(2):
        pa, p = gen.input_state(rng, len(spec.inputs))
        angs = [gen.angle(rng) for _ in tr]
        sims.append([mp.PatternSimulator(circ, pa, backend=backend), p, angs, 0, None])
    ctx.describe(backend=backend, spec=spec.desc(), angles=[s[2] for s in sims])
    while any(s[3] < len(measured) for s in sims):
        s = gen.choice(rng, [s for s in sims if s[3] < len(measured)])
        v = measured[s[3]]
        plane, ang = spec.meas[v]
        ang = float(s[2][tr.index(v)]) if (plane == "XY" and ang is None) else ang
        s[4], _ = s[0].measure(ang)
        s[3] += 1
    for sim, p, angs, m, st in sims:
        if st is None:
            continue
        live = list(sim.current_simulated_nodes())
        vec = ref.reorder(ref.normalised(spec.expected(p, angs, tr)), spec.outputs, live)
        got = np.asarray(st)
        ctx.close(ref.density(got) if got.ndim == 1 else got, ref.density(vec), "interleaved simulators", 1e-6)
        ctx.event("interleaved")
    ctx.nontrivial(backend, spec.key(), str([s[2] for s in sims]))


@workload(5, 60)
def many_default_inputs(ctx, rng):
    """the default input is |+> on each of up to eight input wires"""
    k = int(rng.integers(5, 9))
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(k, k), nmax=k + 4, nmin=k + 1))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    ctx.describe(spec=spec.desc())
    psi = np.ones(2 ** k, dtype=complex) / np.sqrt(2 ** k)
    sim = mp.PatternSimulator(circ, backend="numpy-sv")
    for i in range(2):
        angles = np.array([gen.angle(rng) for _ in tr])
        out = np.asarray(sim.run(angles) if rng.random() < 0.5 else sim(angles))
        want = ref.normalised(spec.expected(psi, angles, tr))
        ctx.close(ref.density(out) if out.ndim == 1 else out, ref.density(want), "the default input of many wires", 1e-6)
        sim.reset()
        ctx.event("default-inputs")
    ctx.nontrivial(spec.key())


@workload(60, 800)
def invalid_use(ctx, rng):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=3))
    circ = spec.make(mp, rng)
    k = len(spec.inputs)
    ctx.describe(spec=spec.desc())
    b = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    order = list(circ.measurement_order)
    sched = spec.inputs + [v for v in order if v not in spec.inputs]
    wmin = ref.min_window(k, sched, spec.meas, spec.adj, order)
    r = rng.integers(9)
    if r == 6:
        # a node that nothing can correct: no flow of any kind, hence no order to measure in unless it is given
        import networkx as nx
        import warnings
        warnings.simplefilter("ignore")
        g = mp.GraphState(nx.Graph())
        g.add_nodes_from(circ.graph.nodes)
        g.add_edges_from(circ.graph.edges)
        g.add_node(spec.n)
        bad = mp.MBQCircuit(g, input_nodes=list(circ.input_nodes), output_nodes=list(circ.output_nodes))
        ctx.raises(ValueError, lambda: mp.PatternSimulator(bad, backend=b), "a circuit without flow and no schedule")
    elif r == 7:
        # the state-vector backend knows no other planes
        if not spec.outputc:
            return
        v = gen.choice(rng, spec.outputc)
        circ[v] = gen.choice(rng, [mp.Ment("Z"), mp.Ment(0.3, "YZ"), mp.Ment("XZ"), mp.Ment((0.1, 0.2), "XYZ")])
        ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, backend="numpy-sv"), "a plane the state-vector backend does not support")
    elif r == 8:
        if k < 3:
            return
        ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, backend=b, window_size=int(rng.integers(2, k))), "a window smaller than the input")
    elif r == 0:
        ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, backend=gen.choice(rng, ["qiskit", "numpy", "", "dm", "numpy_sv"])),
                   "unknown backend")
    elif r == 1:
        bad = gen.choice(rng, [[1, 0], "0", 1, (1.0, 0.0)])
        ctx.raises(TypeError, lambda: mp.PatternSimulator(circ, bad, backend=gen.choice(rng, [b, "pennylane"])), "input state that is no array")
    elif r == 2:
        ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, backend=b, window_size=spec.n + int(rng.integers(1, 4))), "window too large")
    elif r == 3:
        if wmin <= 2:
            return
        w = int(rng.integers(2, wmin))
        ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, backend=b, window_size=w).run(
            [0.3] * len(circ.trainable_nodes)), f"window {w} below {wmin}")
    elif r == 4:
        ctx.raises(NotImplementedError, lambda: mp.PatternSimulator(circ, backend=b, force0=False), "force0=False")
    else:
        sim = mp.PatternSimulator(circ, backend=b)
        sim.run([0.3] * len(circ.trainable_nodes))
        ctx.raises(ValueError, lambda: sim.measure(0.1), "measuring after the end")
    ctx.event("refused")
    ctx.nontrivial(int(r), spec.key())


@workload(40, 1200)
def edited_circuits(ctx, rng):
    """one circuit changed between the runs: a simulator made afterwards runs the circuit as it is now"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=3))
    if not spec.outputc:
        return
    circ = spec.make(mp, rng)
    log = []
    for _ in range(int(rng.integers(2, 5))):
        op = gen.choice(rng, ["measurement", "measurement", "edge", "trainable", "same"])
        if op == "measurement" and log:
            v = gen.choice(rng, spec.outputc)
            spec.meas[v] = gen.choice(rng, [("XY", gen.angle(rng)), ("XY", None), ("X", 0), ("Y", 0)])
            circ[v] = spec.ment(mp, v)
        elif op == "edge" and log:
            spec.join_outputs(rng, circ)
        elif op == "trainable" and log:      # all measurements at once
            gen.measure_xy(rng, spec)
            circ.measurements = {v: spec.ment(mp, v) if v in spec.meas else None for v in spec.nodes}
        log.append(op)
        backend = gen.choice(rng, ["numpy-sv", "numpy-dm", "pennylane"])
        pa, psi = gen.input_state(rng, len(spec.inputs))
        tr = list(circ.trainable_nodes)
        angles = [gen.angle(rng) for _ in tr]
        ctx.describe(backend=backend, spec=spec.desc(), log=log, angles=angles)
        ctx.check(set(tr) == {v for v, (p, a) in spec.meas.items() if a is None}, "trainable nodes after an edit", got=tr)
        sim = mp.PatternSimulator(circ, pa, backend=backend)
        out = sim.run(angles)
        ctx.close(out, ref.density(ref.normalised(spec.expected(psi, angles, tr))), f"{backend}: an edited circuit", 1e-6)
        ctx.event("edits")
    ctx.nontrivial(log, spec.key())
