"""C01: numpy backends vs the projected graph state."""
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("random circuits with causal flow (1-4 wires, up to 14 nodes, shared inputs/outputs, permuted labels, "
        "insertion orders, inputs and outputs), measured in X/Y/XY with fixed or trainable angles (special and "
        "random); non-trivial: the input state is not the default or an angle is not a multiple of pi/2, and at "
        "least one node is measured; distinct by graph, pattern, angles, window and backend. Every measure() call "
        "is monitored for normalisation, positivity and outcome.")
ASSUMPTIONS = ["reference: lazily contracted state vector of the graph state (vmon/ref.py:project)",
               "tolerance 1e-6 on every entry of the density matrix"]
MIN_EVENTS = {"runs-numpy-sv": 50, "runs-numpy-dm": 50, "forced-1": 5, "improbable-0": 3, "exchanged-outputs": 15, "own-names": 20}
MON = {}


def prepare():
    """monitor: every measure() of the numpy backends returns a normalised state and outcome 0"""
    from mentpy.simulators.np_simulator_sv import NumpySimulatorSV
    from mentpy.simulators.np_simulator_dm import NumpySimulatorDM

    for cls in (NumpySimulatorSV, NumpySimulatorDM):
        if getattr(cls.measure, "_vmon", False):
            continue

        def wrap(orig):
            def measure(self, *a, **k):
                r = orig(self, *a, **k)
                ctx = MON.get("ctx")
                if ctx is not None:
                    ctx.event("monitored-measure-calls")
                    st = np.asarray(r[0])
                    if st.ndim == 1:
                        ctx.check(abs(np.linalg.norm(st) - 1) < 1e-7, "state after measure is not normalised")
                    else:
                        ctx.check(abs(np.trace(st) - 1) < 1e-7, "trace after measure is not 1")
                        ctx.check(np.allclose(st, st.conj().T, atol=1e-8), "state after measure is not Hermitian")
                    if MON.get("zero"):
                        ctx.check(r[1] == 0, "a projected node reported another outcome than 0", outcome=r[1])
                return r
            measure._vmon = True
            return measure

        cls.measure = wrap(cls.measure)


def compare(ctx, spec, circ, backend, psi_arg, psi, angles, tr, **kw):
    exp = spec.expected(psi, angles, tr)
    nrm = np.linalg.norm(exp)
    if nrm**2 < 1e-9:
        ctx.event("skipped-impossible-branch")
        return None
    exp = exp / nrm
    MON["ctx"], MON["zero"] = ctx, True
    try:
        keep = None if psi_arg is None else psi_arg.copy()
        sim = mp.PatternSimulator(circ, psi_arg, backend=backend, **kw)
        out = sim.run(list(angles) if len(angles) % 2 else np.array(angles))
        outcomes = dict(sim.outcomes)
    finally:
        MON["ctx"] = None
    ctx.event("runs-" + backend)
    ctx.close(out, ref.density(exp), f"{backend} does not return the projected state", 1e-6, kw=kw, angles=angles)
    ctx.check(outcomes == {v: 0 for v in spec.meas}, "outcomes is not 0 for every measured node", outcomes=outcomes)
    if keep is not None:
        ctx.check(np.array_equal(keep, psi_arg), "input state was modified")
    ctx.nontrivial(spec.key(), sorted(spec.meas.items()), [round(a, 6) for a in angles], backend, sorted(kw.items(), key=str))
    return exp


def angles_for(rng, tr):
    return [gen.angle(rng) for _ in tr]


def setup(ctx, rng, **kw):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, **kw))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    ctx.check(sorted(tr) == sorted(spec.trainables()), "trainable nodes are wrong", got=tr)
    ctx.check(list(circ.quantum_output_nodes) == spec.quantum_outputs(), "quantum outputs are wrong",
              got=circ.quantum_output_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = angles_for(rng, tr)
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi)
    return spec, circ, tr, psi_arg, psi, angles


@workload(160, 6000)
def default_window(ctx, rng):
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=9)
    for b in ("numpy-sv", "numpy-dm"):
        compare(ctx, spec, circ, b, psi_arg, psi, angles, tr)


@workload(60, 2500)
def every_window(ctx, rng):
    """all admissible window sizes of a circuit agree with the reference"""
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=7)
    for b in ("numpy-sv", "numpy-dm"):
        ok = 0
        for w in range(2, spec.n + 1):
            sched = spec.inputs + [v for v in circ.measurement_order if v not in spec.inputs]
            if w < ref.min_window(len(spec.inputs), sched, spec.meas, spec.adj, circ.measurement_order):
                continue
            compare(ctx, spec, circ, b, psi_arg, psi, angles, tr, window_size=w)
            ok += 1
        ctx.event("windows", ok)
        ctx.check(ok > 0 or spec.n == 1, "no window was tried")


@workload(60, 2500)
def custom_schedule(ctx, rng):
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=8)
    sched = gen.schedule(rng, spec)
    w = ref.min_window(len(spec.inputs), sched, spec.meas, spec.adj)
    if w > 8:
        return
    b = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    kw = dict(schedule=list(sched))
    if rng.random() < 0.7:
        kw["window_size"] = int(rng.integers(max(w, 2), spec.n + 1)) if spec.n > 1 else 1
    compare(ctx, spec, circ, b, psi_arg, psi, angles, tr, **kw)
    ctx.check(kw["schedule"] == sched, "schedule was modified")


@workload(60, 1500)
def own_names(ctx, rng):
    """nodes keep their names, which are any integers"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 4), nmax=8, relabel=False))
    spec.labels = [int(x) for x in (rng.permutation(spec.n) if rng.random() < .5 else rng.choice(60, size=spec.n, replace=False))]
    circ = spec.make(mp, rng, relabel_indices=False)
    if gen.window(circ) > 7:
        return
    tr = [spec.labels.index(v) for v in circ.trainable_nodes]
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = angles_for(rng, tr)
    ctx.describe(spec=spec.desc(), labels=spec.labels, angles=angles, trainable=tr, psi=psi)
    exp = spec.expected(psi, angles, tr)
    if np.linalg.norm(exp) ** 2 < 1e-9:
        return
    b = gen.choice(rng, ["numpy-sv", "numpy-dm"])
    sim = mp.PatternSimulator(circ, psi_arg, backend=b)
    ctx.close(sim.run(angles), ref.density(ref.normalised(exp)), f"{b} does not return the projected state", 1e-6)
    ctx.check({v: int(o) for v, o in sim.outcomes.items()} == {spec.labels[v]: 0 for v in spec.meas}, "outcomes is not 0 for every measured node", outcomes=sim.outcomes)
    ctx.event("own-names")
    ctx.nontrivial("own names", spec.key(), sorted(spec.meas.items()), spec.labels, [round(a, 6) for a in angles], b)


@workload(40, 1200)
def own_order(ctx, rng):
    """orders set through the circuit"""
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=8)
    layer = ref.causal_layers(spec.nodes, spec.edges, spec.inputs, spec.outputs)[1]
    sched = sorted(gen.shuffled(rng, spec.nodes), key=lambda v: -layer[v])
    w = ref.min_window(len(spec.inputs), spec.inputs + [v for v in sched if v not in spec.inputs], spec.meas, spec.adj, sched)
    if w > 7:
        return
    circ.measurement_order = list(sched)
    compare(ctx, spec, circ, gen.choice(rng, ["numpy-sv", "numpy-dm"]), psi_arg, psi, angles, tr)


@workload(30, 1000)
def long_circuits(ctx, rng):
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=22, nmin=12)
    sched = spec.inputs + [v for v in circ.measurement_order if v not in spec.inputs]
    if ref.min_window(len(spec.inputs), sched, spec.meas, spec.adj, circ.measurement_order) > 9:
        return
    compare(ctx, spec, circ, "numpy-sv", psi_arg, psi, angles, tr)
    if ref.min_window(len(spec.inputs), sched, spec.meas, spec.adj, circ.measurement_order) <= 6:
        compare(ctx, spec, circ, "numpy-dm", psi_arg, psi, angles, tr)
        ctx.event("long")


@workload(60, 1500)
def four_wires(ctx, rng):
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(3, 5), nmax=11, p_cz=0.8)
    sched = spec.inputs + [v for v in circ.measurement_order if v not in spec.inputs]
    if ref.min_window(len(spec.inputs), sched, spec.meas, spec.adj, circ.measurement_order) > 8:
        return
    for b in ("numpy-sv", "numpy-dm") if rng.random() < .4 else ("numpy-sv",):
        compare(ctx, spec, circ, b, psi_arg, psi, angles, tr)


@workload(40, 1000)
def outputs_in_another_order(ctx, rng):
    """outputs that end up simulated in the requested order except for two of them"""
    spec = gen.flow_spec(rng, wires=(3, 5), nmax=7, nmin=4, p_cz=0.8)
    sched = gen.schedule(rng, spec)
    order = [v for v in sched if v in spec.outputs]
    i = int(rng.integers(len(order) - 1)) if rng.random() < 0.3 else len(order) - 2
    order[i], order[i + 1] = order[i + 1], order[i]
    spec.outputs = order
    gen.measure_xy(rng, spec)
    circ = spec.make(mp, rng)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    tr = list(circ.trainable_nodes)
    angles = angles_for(rng, tr)
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi, sched=sched)
    ctx.event("exchanged-outputs")
    compare(ctx, spec, circ, gen.choice(rng, ["numpy-sv", "numpy-dm"]), psi_arg, psi, angles, tr, schedule=sched, window_size=spec.n)


@workload(40, 1500)
def output_forms(ctx, rng):
    spec, circ, tr, psi_arg, psi, angles = setup(ctx, rng, wires=(1, 3), nmax=8)
    exp = ref.normalised(spec.expected(psi, angles, tr))
    for form in ("sv", "statevector", "SV"):
        out = mp.PatternSimulator(circ, psi_arg, backend="numpy-sv").run(angles, output_form=form)
        ctx.check(np.asarray(out).ndim == 1, "state vector expected")
        ctx.close(ref.density(out), ref.density(exp), "state vector form", 1e-6)
    for form in ("dm", "densitymatrix", "DM"):
        out = mp.PatternSimulator(circ, psi_arg, backend="numpy-sv").run(angles, output_form=form)
        ctx.close(out, ref.density(exp), "density form", 1e-6)
    ctx.raises(ValueError, lambda: mp.PatternSimulator(circ, psi_arg, backend="numpy-sv").run(angles, output_form="x"),
               "unknown output form")


@workload(50, 1500)
def partly_measured_outputs(ctx, rng):
    """measured outputs and unmeasured inner nodes"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=7))
    for v in spec.outputs:
        if rng.random() < 0.4:
            spec.meas[v] = gen.choice(rng, [("XY", gen.angle(rng)), ("X", 0), ("Y", 0), ("XY", None)])
    if rng.random() < 0.4 and spec.outputc:
        spec.meas.pop(gen.choice(rng, spec.outputc))
        if rng.random() < 0.5:      # more unmeasured nodes than inputs
            for v in spec.outputc:
                if v in spec.meas and rng.random() < 0.7:
                    spec.meas.pop(v)
    if not spec.meas:
        return
    circ = spec.make(mp, rng)
    for v in spec.outputc:
        if v not in spec.meas:
            del circ[v]
    tr = list(circ.trainable_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = angles_for(rng, tr)
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi)
    exp = spec.expected(psi, angles, tr)
    # keep clear of branches of probability close to 0
    flat = np.linalg.norm(exp) ** 2 * 2 ** len(spec.meas)
    if flat < 0.05:
        return
    for b in ("numpy-sv", "numpy-dm"):
        compare(ctx, spec, circ, b, psi_arg, psi, angles, tr)
    if spec.n > len(spec.meas):
        ctx.event("partly-measured")


@workload(30, 1000)
def linearity(ctx, rng):
    """the implemented map is an isometry: metamorphic, without the reference model"""
    spec, circ, tr, _, _, angles = setup(ctx, rng, wires=(1, 2), nmax=9)
    k = len(spec.inputs)
    cols = []
    for i in range(2**k):
        e = np.zeros(2**k, dtype=complex)
        e[i] = 1
        cols.append(mp.PatternSimulator(circ, e, backend="numpy-dm").run(angles))
    a = gen.haar(rng, k)
    U = np.array([ref.normalised(spec.expected(np.eye(2**k)[i], angles, tr)) for i in range(2**k)]).T
    for i, c in enumerate(cols):
        for j in range(i):
            ctx.check(abs(np.trace(c @ cols[j])) < 1e-7, "orthogonal inputs give overlapping outputs")
    out = mp.PatternSimulator(circ, a, backend="numpy-dm").run(angles)
    probs = [np.real(np.trace(out @ c)) for c in cols]
    ctx.close(probs, np.abs(a) ** 2, "overlaps are not preserved", 1e-6)
    ctx.event("isometries")


def near(rng):
    """0, or so little that an outcome has a probability between 0.001 and 0.01"""
    return 0.0 if rng.random() < 0.5 else float(gen.choice(rng, [-1, 1]) * rng.uniform(0.07, 0.19))


@workload(220, 4000)
def impossible_outcomes(ctx, rng):
    """sparse graphs and Pauli inputs: a node is projected on outcome 1 exactly where outcome 0 is impossible"""
    n = int(rng.integers(2, 6))
    edges = gen.random_graph(rng, n, 0.25)
    k = int(rng.integers(1, n))
    inputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    outputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    spec = gen.Spec(n, edges, inputs, outputs, None, gen.labels_for(rng, n))
    for v in gen.shuffled(rng, spec.nodes):
        if v in spec.outputc or rng.random() < 0.3:
            spec.meas[v] = gen.choice(rng, [("X", 0), ("Y", 0), ("XY", gen.choice(rng, gen.SPECIAL[:4]) + near(rng))])
    if not spec.meas:
        return
    one = [np.array([1, 0]), np.array([0, 1]), ref.PLUS, np.array([1, -1]) / np.sqrt(2),
           np.array([1, 1j]) / np.sqrt(2), np.array([1, -1j]) / np.sqrt(2)]
    psi = np.array([1.0 + 0j])
    for _ in range(k):
        psi = np.kron(psi, one[rng.integers(6)])
    circ = spec.make(mp, rng)
    sched = gen.shuffled(rng, inputs) + gen.shuffled(rng, [v for v in range(n) if v not in inputs])
    kets, prev, outcomes, rare = {}, 1.0, {}, False
    for v in [v for v in sched if v in spec.meas]:
        plane, ang = spec.meas[v]
        kets[v] = ref.ket(plane, ang, 0)
        rest = [w for w in spec.nodes if w not in kets]
        p = np.linalg.norm(ref.project(spec.nodes, spec.edges, inputs, psi, kets, rest)) ** 2
        if p / prev < 1e-9:
            outcomes[v] = 1
            kets[v] = ref.ket(plane, ang, 1)
            p = np.linalg.norm(ref.project(spec.nodes, spec.edges, inputs, psi, kets, rest)) ** 2
        else:
            outcomes[v] = 0
            if p / prev < 1e-3:
                return
            rare = rare or p / prev < 0.01
        prev = p
    ctx.describe(spec=spec.desc(), psi=psi, sched=sched, outcomes=outcomes)
    outs = spec.quantum_outputs()
    exp = ref.project(spec.nodes, spec.edges, inputs, psi, kets, outs)
    for b in ("numpy-sv", "numpy-dm"):
        sim = mp.PatternSimulator(circ, psi, backend=b, schedule=list(sched), window_size=max(2, n))
        out = sim.run([])
        ctx.check(dict(sim.outcomes) == outcomes, "outcomes", backend=b, got=sim.outcomes)
        if outs:
            ctx.close(out, ref.density(ref.normalised(exp)), "state with impossible outcomes", 1e-6, backend=b)
    if rare:
        ctx.event("improbable-0")
    if any(outcomes.values()):
        ctx.event("forced-1")
        ctx.nontrivial(spec.key(), sorted(spec.meas.items(), key=str), sched)
