"""C02: PennyLane backend (adaptive corrections) vs the all-zero branch, and vs an explicit noisy simulation."""
import itertools
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("random flow circuits (up to 11 nodes noiseless, 4-5 nodes noisy) with X/Y/XY patterns, permuted labels and "
        "insertion orders, random input states; noise channels with random strengths on the mixed device; "
        "non-trivial: at least one measured node whose correction acts (every flow circuit has one); distinct by "
        "graph, pattern, angles and channel.")
ASSUMPTIONS = ["PennyLane's simulator devices are trusted", "tolerance 1e-6"]
MIN_EVENTS = {"noiseless-runs": 30, "noisy-runs": 10, "rejections": 5, "own-names": 10}


def noisy_reference(spec, circ_order, psi, angles, tr, kraus):
    n = spec.n
    order = list(spec.inputs) + [v for v in spec.nodes if v not in spec.inputs]
    full = np.asarray(psi, dtype=complex)
    for _ in range(n - len(spec.inputs)):
        full = np.kron(full, ref.PLUS)
    full = ref.reorder(full, order, spec.nodes)
    for u, v in spec.edges:
        t = full.reshape((2,) * n)
        sl = [slice(None)] * n
        sl[u] = sl[v] = 1
        t[tuple(sl)] *= -1
        full = t.reshape(-1)
    rho = ref.density(full)

    def op(v, m):
        return ref.kron(*[m if q == v else ref.I2 for q in range(n)])

    for v in range(n):
        rho = sum(op(v, K) @ rho @ op(v, K).conj().T for K in kraus)
    for v in circ_order:
        if v in spec.outputs:
            continue
        plane, ang = spec.meas[v]
        if plane == "XY" and ang is None:
            ang = angles[tr.index(v)]
        new = 0
        for m in (0, 1):
            P = op(v, ref.density(ref.ket(plane, ang, m)))
            K = P
            if m:
                C = op(spec.f[v], ref.X)
                for w in spec.adj[spec.f[v]] - {v}:
                    C = op(w, ref.Z) @ C
                K = C @ P
            new = new + K @ rho @ K.conj().T
        rho = new
    return ref.ptrace(rho, spec.outputs, n)


def channels(name, p, g):
    s = np.sqrt
    if name == "depolarizing":
        return [s(1 - p) * ref.I2] + [s(p / 3) * m for m in (ref.X, ref.Y, ref.Z)]
    if name == "amplitude_damping":
        return [np.array([[1, 0], [0, s(1 - g)]]), np.array([[0, s(g)], [0, 0]])]
    if name == "phase_damping":
        return [np.array([[1, 0], [0, s(1 - g)]]), np.array([[0, 0], [0, s(g)]])]
    if name == "phase_flip":
        return [s(1 - p) * ref.I2, s(p) * ref.Z]
    if name == "generalized_amplitude_damping":
        return [s(p) * np.array([[1, 0], [0, s(1 - g)]]), s(p) * np.array([[0, s(g)], [0, 0]]),
                s(1 - p) * np.array([[s(1 - g), 0], [0, 1]]), s(1 - p) * np.array([[0, 0], [s(g), 0]])]


@workload(160, 5000)
def noiseless(ctx, rng):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 4), nmax=6, tail=11))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = [gen.angle(rng) for _ in tr]
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi)
    exp = ref.normalised(spec.expected(psi, angles, tr))
    sim = mp.PatternSimulator(circ, psi_arg, backend="pennylane") if rng.random() < 0.5 else \
        mp.PatternSimulator(circ, psi_arg)
    out = sim.run(angles)
    ctx.event("noiseless-runs")
    ctx.close(out, ref.density(exp), "pennylane differs from the all-zero branch", 1e-6)
    again = sim.run(angles)
    ctx.close(again, out, "running twice gives different states", 1e-9)
    if gen.window(circ) <= 7:
        other = mp.PatternSimulator(circ, psi_arg, backend="numpy-sv").run(angles)
        ctx.close(out, other, "backends disagree", 1e-6)
        ctx.event("cross-backend")
    ctx.nontrivial(spec.key(), sorted(spec.meas.items()), [round(a, 6) for a in angles])


@workload(40, 800)
def own_names(ctx, rng):
    """nodes keep their names: 0, 1, ... in any order of insertion"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 4), nmax=7, relabel=False))
    spec.labels = [int(x) for x in rng.permutation(spec.n)]
    circ = spec.make(mp, rng, relabel_indices=False)
    tr = [spec.labels.index(v) for v in circ.trainable_nodes]
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = [gen.angle(rng) for _ in tr]
    ctx.describe(spec=spec.desc(), labels=spec.labels, angles=angles, trainable=tr, psi=psi)
    exp = ref.normalised(spec.expected(psi, angles, tr))
    out = mp.PatternSimulator(circ, psi_arg, backend="pennylane").run(angles)
    ctx.event("noiseless-runs")
    ctx.event("own-names", int(spec.labels != sorted(spec.labels)))
    ctx.close(out, ref.density(exp), "pennylane differs from the all-zero branch", 1e-6)
    ctx.nontrivial("own names", spec.key(), sorted(spec.meas.items()), spec.labels, [round(a, 6) for a in angles])


@workload(40, 1000)
def all_trainable(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 4), nmax=6, tail=11)
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = ("XY", None)
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = [float(rng.uniform(-3, 3)) for _ in tr]
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi)
    exp = ref.normalised(spec.expected(psi, angles, tr))
    out = mp.PatternSimulator(circ, psi_arg, backend="PennyLane").run(angles)
    ctx.event("noiseless-runs")
    ctx.close(out, ref.density(exp), "pennylane differs from the all-zero branch", 1e-6)
    ctx.nontrivial(spec.key(), sorted(spec.meas.items()), [round(a, 6) for a in angles])


@workload(60, 1200)
def noisy(ctx, rng):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=4, tail=6))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = [gen.angle(rng) for _ in tr]
    name = gen.choice(rng, ["depolarizing", "amplitude_damping", "phase_damping", "phase_flip",
                            "generalized_amplitude_damping"])
    p, g = float(rng.uniform(0, 0.7)), float(gen.choice(rng, [rng.uniform(0, 1), rng.uniform(0, 1), 0.0, 1.0]))
    if rng.random() < 0.2:
        p = float(gen.choice(rng, [0.0, 1.0, 0.5]))
    kw = dict(p=p)
    if rng.random() < 0.6 or name.startswith("gen"):
        kw["gamma"] = g
    else:
        g = p
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi, noise=name, kw=kw)
    out = mp.PatternSimulator(circ, psi_arg, backend="pennylane", device="default.mixed", circuit_noise=name, **kw).run(angles)
    exp = noisy_reference(spec, circ.measurement_order, psi, angles, tr, channels(name, p, g))
    ctx.close(np.trace(np.asarray(out)), 1.0, "trace", 1e-6)
    ctx.close(out, exp, f"state under {name} noise", 1e-6)
    ctx.event("noisy-runs")
    ctx.event("noise-" + name)
    ctx.nontrivial(spec.key(), sorted(spec.meas.items()), name, round(p, 6))


@workload(24, 300)
def zero_noise_and_branches(ctx, rng):
    """every branch of outcomes, corrected by hand through the reported flow, is the same state"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 2), nmax=5))
    circ = spec.make(mp, rng)
    tr = list(circ.trainable_nodes)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    angles = [gen.angle(rng) for _ in tr]
    ctx.describe(spec=spec.desc(), angles=angles, trainable=tr, psi=psi)
    out = mp.PatternSimulator(circ, psi_arg, backend="pennylane", device="default.mixed",
                              circuit_noise="depolarizing", p=0).run(angles)
    exp = ref.normalised(spec.expected(psi, angles, tr))
    ctx.close(out, ref.density(exp), "zero noise", 1e-6)
    # oracle on the circuit's flow: byproducts X on f(v), Z on its other neighbours, in the
    # circuit's measurement order, make every branch equal
    nodes = list(spec.nodes)
    order = [v for v in circ.measurement_order if v not in spec.outputs]
    done = 0
    for bits in itertools.product((0, 1), repeat=len(order)):
        kets, byp = {}, {v: [0, 0] for v in nodes}
        for v, b in zip(order, bits):
            plane, ang = spec.meas[v]
            if plane == "XY" and ang is None:
                ang = angles[tr.index(v)]
            k = ref.ket(plane, ang, b)
            x, z = byp[v]
            k = (np.linalg.matrix_power(ref.X, x) @ np.linalg.matrix_power(ref.Z, z)) @ k
            kets[v] = k
            if b:
                fv = circ.flow(v)
                byp[fv][0] ^= 1
                for w in circ.graph.neighbors(fv):
                    if w != v:
                        byp[w][1] ^= 1
        st = ref.project(nodes, spec.edges, spec.inputs, psi, kets, spec.outputs)
        corr = ref.kron(*[np.linalg.matrix_power(ref.X, byp[o][0]) @ np.linalg.matrix_power(ref.Z, byp[o][1])
                          for o in spec.outputs])
        ctx.check(ref.same_ray(corr @ st, exp), "a corrected branch differs", bits=bits)
        done += 1
    ctx.event("branches", done)
    ctx.event("noisy-runs")
    ctx.nontrivial(spec.key(), sorted(spec.meas.items()))


@workload(30, 300)
def rejected_patterns(ctx, rng):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 3), nmax=6, nmin=4, tail=11))
    circ = spec.make(mp, rng)
    ctx.describe(spec=spec.desc())
    bad = (ValueError, NotImplementedError)
    v = gen.choice(rng, spec.outputc) if spec.outputc else None
    r = rng.integers(4)
    if r == 0 and v is not None:
        plane = gen.choice(rng, ["XZ", "YZ", "Z"])
        circ[v] = mp.Ment(plane)
        ctx.describe(spec=spec.desc(), node=v, plane=plane)
    elif r == 1 and v is not None:
        first = circ.measurement_order[0]
        later = [w for w in spec.outputc if circ.partial_order(first, w)]
        if not later:
            return
        circ[gen.choice(rng, later)] = mp.ControlMent(circ[first].outcome, 0.3)
    elif r == 2:
        circ[gen.choice(rng, spec.outputs)] = mp.Ment(gen.choice(rng, ["X", "Y", "XY", "Z"]))
    else:
        noise = mp.PatternSimulator
        tr = circ.trainable_nodes
        ctx.raises(Exception, lambda: noise(circ, backend="pennylane", device="default.mixed",
                                            circuit_noise="nonsense", p=0.1).run([0.1] * len(tr)), "unknown noise")
        ctx.event("rejections")
        return
    ctx.raises(bad, lambda: mp.PatternSimulator(circ, backend="pennylane").run([0.1] * len(circ.trainable_nodes)),
               "unsupported pattern")
    ctx.event("rejections")
    ctx.nontrivial(spec.key(), int(r))
