"""C03: numpy-dm in every plane, expectation mode, controlled measurements, measured outputs."""
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("random circuits (with causal flow, or arbitrary graphs with an explicit schedule), up to 13 nodes, every "
        "node measured in any of the 7 planes, fixed or trainable, or by a controlled measurement whose condition is "
        "a random Boolean expression of earlier outcomes; sampled outcomes are read back and the state is recomputed "
        "for exactly that outcome history; non-trivial: at least one node not in X/Y/XY, a controlled node, or "
        "expectation mode; distinct by graph, pattern, angles and outcome history.")
ASSUMPTIONS = ["cases in which a forced outcome has a conditional probability between 1e-7 and 1e-3 are skipped: "
               "there the implementation's threshold of 1e-4 is a matter of precision",
               "Born frequencies are tested at 6 sigma on seeded samples"]
MIN_EVENTS = {"runs": 100, "controlled-true": 10, "controlled-false": 10, "expectation-runs": 10, "z-outcome-1": 10,
              "z-outcome-0": 10, "forced-1": 5, "stepwise": 40, "long-patterns": 15, "certain-z": 30, "controlled-expectation": 30, "controlled-expectation-z": 10, "unmeasured-inner": 10}

PLANES = ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"]


def rand_meas(rng, trainable=True, planes=PLANES):
    plane = gen.choice(rng, planes)
    if plane in ("X", "Y", "Z"):
        return plane, 0
    if trainable and rng.random() < 0.4:
        return plane, None
    if plane == "XYZ":
        return plane, (gen.angle(rng), gen.angle(rng))
    return plane, gen.angle(rng)


def rand_angle(rng, plane):
    return (gen.angle(rng), gen.angle(rng)) if plane == "XYZ" else gen.angle(rng)


def ment(plane, ang):
    if plane in ("X", "Y", "Z"):
        return mp.Ment(plane)
    return mp.Ment(plane) if ang is None else mp.Ment(ang, plane)


class Pattern:
    """what every node does, as data: ('m', plane, angle) or
    ('c', (condition fn, nodes), (plane, angle) if true, (plane, angle) if false)"""

    def __init__(self, spec):
        self.spec = spec
        self.node = {v: ("m",) + spec.meas[v] for v in spec.meas}

    def effective(self, v, outcomes, given):
        """(plane, angle) actually measured"""
        a = self.node[v]
        if a[0] == "m":
            plane, ang = a[1], a[2]
        else:
            plane, ang = a[2] if a[1][0](outcomes) else a[3]
        if ang is None:
            ang = given[v]
        return plane, ang


def conditional_norm(spec, psi, order, m, kets):
    """norm^2 after projecting the first m nodes of order"""
    k = {v: kets[v] for v in order[:m]}
    rest = [v for v in spec.nodes if v not in k]
    return np.linalg.norm(ref.project(spec.nodes, spec.edges, spec.inputs, psi, k, rest)) ** 2


def judge(ctx, pat, order, psi, given, out, outcomes):
    """the recorded history is admissible, and the state is the one of that history"""
    spec = pat.spec
    ctx.check(set(outcomes) == set(order), "outcomes does not list the measured nodes", outcomes=outcomes)
    kets = {}
    prev = 1.0
    for i, v in enumerate(order):
        o = outcomes[v]
        ctx.check(o in (0, 1), "outcome is not a bit", v=v, o=o)
        plane, ang = pat.effective(v, {w: outcomes[w] for w in order[:i]}, given)
        p = []
        for b in (0, 1):
            kets[v] = ref.ket(plane, ang, b)
            p.append(conditional_norm(spec, psi, order, i + 1, kets) / prev)
        kets[v] = ref.ket(plane, ang, int(o))
        ctx.check(p[int(o)] > 1e-9, "an impossible outcome was recorded", v=v, p=p)
        if plane != "Z":
            if 1e-7 < p[0] < 1e-3:
                ctx.event("skipped-threshold")
                return False
            ctx.check(int(o) == (0 if p[0] >= 1e-3 else 1), "a projected node has the wrong outcome", v=v, plane=plane, p=p, o=o)
            if o:
                ctx.event("forced-1")
        else:
            ctx.event(f"z-outcome-{int(o)}")
        if pat.node[v][0] == "c":
            ctx.event("controlled-true" if pat.node[v][1][0](outcomes) else "controlled-false")
        prev *= p[int(o)]
    outs = spec.quantum_outputs()
    exp = ref.project(spec.nodes, spec.edges, spec.inputs, psi, kets, outs)
    if not outs:
        ctx.check(np.asarray(out).size == 1, "no output qubits expected")
        return True
    ctx.close(out, ref.density(ref.normalised(exp)), "state of the recorded outcome history", 1e-6, outcomes=outcomes)
    return True


def reorder_dm(rho, order, target):
    n = len(order)
    p = [list(order).index(v) for v in target]
    return rho.reshape([2] * 2 * n).transpose(p + [n + i for i in p]).reshape(2 ** n, 2 ** n)


def finish(ctx, rng, spec, pat, circ, sched=None, **kw):
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    tr = list(circ.trainable_nodes)
    given = {}
    for v in tr:
        a = pat.node[v]
        planes = {a[1]} if a[0] == "m" else {x[0] for x in a[2:] if x[1] is None and x[0] not in ("X", "Y", "Z")} or {a[2][0]}
        given[v] = rand_angle(rng, "XYZ" if "XYZ" in planes else "XY")
    order = [v for v in (sched or circ.measurement_order) if v in pat.node]
    ctx.describe(spec=spec.desc(), pattern={v: [a for a in pat.node[v] if not isinstance(a, tuple) or not callable(a[0])] for v in pat.node},
                 given=given, psi=psi, sched=sched)
    if sched is not None:
        kw["schedule"] = list(sched)
        kw["window_size"] = max(2, spec.n)
    sim = mp.PatternSimulator(circ, psi_arg, backend="numpy-dm", **kw)
    if order and rng.random() < 0.25:     # the same step by step
        for v in order:
            fixed = v not in tr and isinstance(circ[v], mp.ControlMent)
            out, o = sim.measure(given[v] if v in tr else None if fixed else circ[v].angle)
            ctx.check(int(sim.outcomes[v]) == int(o), "outcome of a step", v=v, got=sim.outcomes)
        ctx.event("stepwise")
        live = list(sim.current_simulated_nodes())
        outs = spec.quantum_outputs()
        ctx.check(sorted(live) == sorted(outs), "nodes left after measuring", live=live)
        if outs:
            out = reorder_dm(np.asarray(out), live, outs)
    else:
        out = sim.run([given[v] for v in tr])
    ctx.event("runs")
    if judge(ctx, pat, order, psi, given, out, dict(sim.outcomes)):
        ctx.nontrivial(spec.key(), sorted((v, str(pat.node[v][-2:])) for v in pat.node), sorted((k, int(o)) for k, o in sim.outcomes.items()))
    return sim


@workload(120, 4000)
def any_plane_flow(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=6)
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = rand_meas(rng)
    circ = spec.make(mp, rng)
    if rng.random() < 0.2 and spec.outputc:     # some inner nodes are left unmeasured
        for v in gen.shuffled(rng, spec.outputc)[:int(rng.integers(1, len(spec.outputc) + 1))]:
            del circ[v]
            del spec.meas[v]
        ctx.event("unmeasured-inner")
    finish(ctx, rng, spec, Pattern(spec), circ)


@workload(80, 3000)
def any_graph_schedule(ctx, rng):
    """no flow needed: explicit schedule"""
    n = int(rng.integers(2, 7))
    edges = gen.random_graph(rng, n)
    inputs, outputs = gen.random_io(rng, n, 3)
    spec = gen.Spec(n, edges, inputs, outputs, None, gen.labels_for(rng, n))
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = rand_meas(rng)
    for v in spec.outputs:
        if rng.random() < 0.2:
            spec.meas[v] = rand_meas(rng)
    if len(spec.meas) == 0 or n == len(spec.meas):
        return
    circ = spec.make(mp, rng)
    rest = gen.shuffled(rng, [v for v in range(n) if v not in inputs])
    finish(ctx, rng, spec, Pattern(spec), circ, gen.shuffled(rng, inputs) + rest)


def rand_condition(rng, circ, cands):
    """(library outcome, python function, nodes)"""
    k = int(rng.integers(1, min(3, len(cands)) + 1))
    nodes = [int(v) for v in rng.choice(cands, size=k, replace=False)]
    lib, fn = circ[nodes[0]].outcome, (lambda x, v=nodes[0]: int(x[v]))
    if rng.random() < 0.4:
        lib, fn = ~lib, (lambda x, f=fn: 1 - f(x))
    for v in nodes[1:]:
        op = rng.integers(3)
        if op == 0:
            lib, fn = lib ^ circ[v].outcome, (lambda x, f=fn, v=v: f(x) ^ int(x[v]))
        elif op == 1:
            lib, fn = lib & circ[v].outcome, (lambda x, f=fn, v=v: f(x) & int(x[v]))
        else:
            lib, fn = lib | circ[v].outcome, (lambda x, f=fn, v=v: f(x) | int(x[v]))
    return lib, fn, nodes


def controlled_pattern(ctx, rng, spec, most):
    if len(spec.outputc) < 2:
        return
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = rand_meas(rng) if rng.random() < 0.5 else ("Z", 0)
    circ = spec.make(mp, rng)
    if gen.window(circ) > 6:
        return
    pat = Pattern(spec)
    n_c = 0
    for _ in range(int(rng.integers(1, most + 1))):
        v = gen.choice(rng, spec.outputc)
        cands = [w for w in spec.outputc if w != v and not circ.partial_order(v, w)]
        if not cands and rng.random() < 0.8:
            continue
        if rng.random() < 0.85 and cands:
            lib, fn, nodes = rand_condition(rng, circ, cands)
        else:
            val = bool(rng.integers(2))
            lib, fn, nodes = val, (lambda x, val=val: val), []
        t, f = rand_meas(rng), rand_meas(rng, trainable=rng.random() < 0.5)
        if "XYZ" in (t[0], f[0]) and None in (t[1], f[1]):
            continue
        cm = mp.ControlMent(lib, t[1] if t[0] not in ("X", "Y", "Z") else None, t[0], f[1] if f[0] not in ("X", "Y", "Z") else None, f[0])
        try:
            circ[v] = cm
        except ValueError:
            ctx.event("contradictory-condition")
            continue
        pat.node[v] = ("c", (fn, nodes), t, f)
        n_c += 1
    if n_c:
        finish(ctx, rng, spec, pat, circ)
        return n_c


@workload(160, 5000)
def controlled(ctx, rng):
    controlled_pattern(ctx, rng, gen.flow_spec(rng, wires=(1, 3), nmax=6, nmin=3), 3)


@workload(100, 3000)
def long_patterns(ctx, rng):
    """more nodes than the simulator holds at once: conditions look back at qubits that are gone"""
    if controlled_pattern(ctx, rng, gen.flow_spec(rng, wires=(1, 2), nmax=13, nmin=8, p_cz=0.3), 6):
        ctx.event("long-patterns")


@workload(110, 2500)
def expectation(ctx, rng):
    """expectation mode: Z measurements report P(1) and dephase, everything else is projected"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=6, nmin=2) if rng.random() < .7 else gen.flow_spec(rng, wires=(1, 2), nmax=11, nmin=7, p_cz=.3)
    for v in gen.shuffled(rng, spec.outputc):
        spec.meas[v] = rand_meas(rng) if rng.random() < 0.5 else ("Z", 0)
    if spec.n > 6:      # the sum over the outcomes of Z grows with their number
        for v in [v for v in spec.outputc if spec.meas[v][0] == "Z"][4:]:
            spec.meas[v] = ("XY", gen.angle(rng))
    if rng.random() < 0.5 and len(spec.outputs) > 1:
        spec.meas[spec.outputs[0]] = ("Z", 0)
    if not spec.meas:
        return
    circ = spec.make(mp, rng)
    if spec.n > 6 and gen.window(circ) > 6:
        return
    ctx.event("long-expectation", int(spec.n > 6))
    pat = Pattern(spec)
    # controlled measurements on outcomes that are bits, of nodes that are not measured in Z
    sources, controlled = set(), set()
    for v in gen.shuffled(rng, spec.outputc)[:2]:
        cands = [w for w in spec.outputc if w != v and w not in controlled and spec.meas[w][0] != "Z" and not circ.partial_order(v, w)]
        if not cands or v in sources or rng.random() < 0.4:
            continue
        lib, fn, nodes = rand_condition(rng, circ, cands)
        t, f = rand_meas(rng, False), rand_meas(rng, False)
        if rng.random() < 0.5:
            t, f = gen.choice(rng, [(("Z", 0), f), (t, ("Z", 0))])
        try:
            circ[v] = mp.ControlMent(lib, *[x for b in (t, f) for x in (b[1] if b[0] not in ("X", "Y", "Z") else None, b[0])])
        except ValueError:
            continue
        pat.node[v] = ("c", (fn, nodes), t, f)
        sources |= set(nodes)
        controlled.add(v)
    if len([v for v in spec.outputc if spec.meas[v][0] == "Z" or v in controlled]) > 5 or (spec.n > 6 and gen.window(circ) > 6):
        return
    ctx.event("controlled-expectation", len(controlled))
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    tr = list(circ.trainable_nodes)
    given = {v: rand_angle(rng, spec.meas[v][0]) for v in tr}
    order = [v for v in circ.measurement_order if v in spec.meas]
    ctx.describe(spec=spec.desc(), given=given, psi=psi, pattern={v: [str(a) for a in pat.node[v][-2:]] for v in controlled})
    sim = mp.PatternSimulator(circ, psi_arg, backend="numpy-dm")
    mode = gen.choice(rng, ["expectation", "exp"])
    out = sim.run([given[v] for v in tr], mode=mode)
    ctx.event("expectation-runs")
    outcomes = dict(sim.outcomes)
    ctx.check(set(outcomes) == set(order), "outcomes does not list the measured nodes", outcomes=outcomes)
    zs = [v for v in order if spec.meas[v][0] == "Z" or v in controlled]
    # mixture over the Z outcomes, as unnormalised vectors over the unmeasured nodes
    branches = [({}, 1.0)]
    kets = {}
    done = []

    def vecs(ks, upto):
        rest = [v for v in spec.nodes if v not in upto]
        return ref.project(spec.nodes, spec.edges, spec.inputs, psi, ks, rest)

    br = [dict()]
    for v in order:
        plane, ang = pat.effective(v, outcomes, given)
        if v in controlled and plane == "Z":
            ctx.event("controlled-expectation-z")
        done.append(v)
        w = []
        for b in (0, 1):
            w.append(sum(np.linalg.norm(vecs({**k, v: ref.ket(plane, ang, b)}, done)) ** 2 for k in br))
        p0 = w[0] / (w[0] + w[1])
        if plane == "Z":
            ctx.close(outcomes[v], 1 - p0, "reported expectation of a Z measurement", 1e-6, v=v)
            br = [{**k, v: ref.ket("Z", 0, b)} for k in br for b in (0, 1)]
        else:
            if 1e-7 < p0 < 1e-3:
                return
            b = 0 if p0 >= 1e-3 else 1
            ctx.check(outcomes[v] == b, "a projected node has the wrong outcome", v=v, p0=p0, o=outcomes[v])
            br = [{**k, v: ref.ket(plane, ang, b)} for k in br]
    outs = spec.quantum_outputs()
    if not outs:
        return
    rho = sum(ref.density(ref.project(spec.nodes, spec.edges, spec.inputs, psi, k, outs)) for k in br)
    ctx.close(out, rho / np.trace(rho), "state after expectation mode", 1e-6)
    if zs:
        ctx.nontrivial(spec.key(), sorted(spec.meas.items(), key=str), mode)


@workload(16, 120)
def born_frequencies(ctx, rng):
    """Z measurements on several nodes follow the joint Born distribution"""
    spec = gen.flow_spec(rng, wires=(1, 2), nmax=4, nmin=2)
    for v in spec.outputc:
        spec.meas[v] = rand_meas(rng, trainable=False) if rng.random() < 0.3 else ("Z", 0)
    for v in spec.outputs:
        if rng.random() < 0.5:
            spec.meas[v] = ("Z", 0)
    zs = [v for v in spec.meas if spec.meas[v][0] == "Z"]
    if not zs:
        return
    circ = spec.make(mp, rng)
    psi_arg, psi = gen.input_state(rng, len(spec.inputs))
    ctx.describe(spec=spec.desc(), psi=psi)
    sim = mp.PatternSimulator(circ, psi_arg, backend="numpy-dm")
    N = 400
    counts = {}
    for _ in range(N):
        sim.reset()
        sim.run([])
        key = tuple(int(sim.outcomes[v]) for v in zs)
        counts[key] = counts.get(key, 0) + 1
    import itertools
    # conditional structure: forced nodes contribute their conditional norm; with forced nodes
    # measured in between, the probability is the product of the conditional Z probabilities
    order = [v for v in circ.measurement_order if v in spec.meas]
    for bits in itertools.product((0, 1), repeat=len(zs)):
        kets, prev, prob = {}, 1.0, 1.0
        val = dict(zip(zs, bits))
        for i, v in enumerate(order):
            plane, ang = spec.meas[v]
            p = []
            for b in (0, 1):
                kets[v] = ref.ket(plane, ang, b)
                p.append(conditional_norm(spec, psi, order, i + 1, kets) / prev)
            b = val[v] if plane == "Z" else (0 if p[0] >= 1e-4 else 1)
            kets[v] = ref.ket(plane, ang, b)
            if plane == "Z":
                prob *= p[b]
            prev *= p[b]
            if prob < 1e-12:
                break
        c = counts.get(bits, 0)
        sigma = np.sqrt(N * prob * (1 - prob)) if 0 < prob < 1 else 0
        ctx.check(abs(c - N * prob) <= 6 * sigma + 3, "Z outcomes do not follow the Born rule", bits=bits, count=c,
                  expected=N * prob)
    ctx.event("born-samples", N)
    ctx.nontrivial(spec.key(), sorted(spec.meas.items(), key=str))


@workload(4, 40)
def rare_outcomes(ctx, rng):
    """a Z outcome of a few per cent occurs as often as it should"""
    n = int(rng.integers(2, 4))
    spec = gen.Spec(n, [(i, i + 1) for i in range(n - 1)], [0], [n - 1], {i: i + 1 for i in range(n - 1)})
    spec.meas = {v: ("Z", 0) if v == 0 else ("X", 0) for v in range(n - 1)}
    circ = spec.make(mp, rng)
    prob = float(rng.uniform(0.015, 0.06))
    rare = int(rng.integers(2))
    amp = np.sqrt([prob, 1 - prob])[:: 1 if rare == 0 else -1]
    psi = amp * np.exp(1j * rng.uniform(0, 6, size=2))
    N = 1500
    ctx.describe(n=n, psi=psi, N=N)
    sim = mp.PatternSimulator(circ, psi, backend="numpy-dm")
    count = 0
    for _ in range(N):
        sim.reset()
        sim.run([])
        count += int(sim.outcomes[circ.input_nodes[0]]) == rare
    ctx.check(abs(count - N * prob) <= 5.5 * np.sqrt(N * prob * (1 - prob)) + 3 and count > 0, "a rare Z outcome does not follow the Born rule", prob=prob, count=count)
    ctx.event("rare-samples", N)
    ctx.nontrivial(n, prob)


@workload(60, 1500)
def measured_outputs(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=6)
    for v in gen.shuffled(rng, spec.nodes):
        if v in spec.outputc or rng.random() < 0.5:
            spec.meas[v] = rand_meas(rng)
    if len(spec.meas) == spec.n or not spec.meas:
        return
    circ = spec.make(mp, rng)
    ctx.check(list(circ.classical_output_nodes) == [v for v in spec.outputs if v in spec.meas], "classical outputs")
    sim = finish(ctx, rng, spec, Pattern(spec), circ)


def near(rng):
    """0, or so little that an outcome has a probability between 0.001 and 0.01"""
    return 0.0 if rng.random() < 0.5 else float(gen.choice(rng, [-1, 1]) * rng.uniform(0.07, 0.19))


@workload(220, 4000)
def impossible_outcomes(ctx, rng):
    """sparse graphs and Pauli inputs, so that outcome 0 is often impossible or certain"""
    n = int(rng.integers(2, 6))
    edges = gen.random_graph(rng, n, 0.25)
    k = int(rng.integers(1, n))
    inputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    outputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    spec = gen.Spec(n, edges, inputs, outputs, None, gen.labels_for(rng, n))
    for v in gen.shuffled(rng, spec.outputc):
        plane = gen.choice(rng, PLANES)
        spec.meas[v] = (plane, 0) if plane in ("X", "Y", "Z") else (
            plane, (gen.choice(rng, gen.SPECIAL[:4]), near(rng)) if plane == "XYZ" else gen.choice(rng, gen.SPECIAL[:4]) + near(rng))
    if not spec.meas:
        return
    one = [np.array([1, 0]), np.array([0, 1]), ref.PLUS, np.array([1, -1]) / np.sqrt(2),
           np.array([1, 1j]) / np.sqrt(2), np.array([1, -1j]) / np.sqrt(2)]
    psi = np.array([1.0 + 0j])
    for _ in range(k):
        psi = np.kron(psi, one[rng.integers(6)])
    circ = spec.make(mp, rng)
    sched = gen.shuffled(rng, inputs) + gen.shuffled(rng, [v for v in range(n) if v not in inputs])
    order = [v for v in sched if v in spec.meas]
    ctx.describe(spec=spec.desc(), psi=psi, sched=sched)
    sim = mp.PatternSimulator(circ, psi, backend="numpy-dm", schedule=list(sched), window_size=max(2, n))
    out = sim.run([])
    ctx.event("runs")
    pat = Pattern(spec)
    if judge(ctx, pat, order, psi, {}, out, dict(sim.outcomes)):
        ctx.nontrivial(spec.key(), sorted(spec.meas.items(), key=str), [int(sim.outcomes[v]) for v in order])


@workload(100, 2000)
def certain_z(ctx, rng):
    """the input is chosen so that the output is a basis state up to rounding: the Z outcomes are certain"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 2), nmax=7, nmin=2))
    k = len(spec.inputs)
    tr = sorted(spec.trainables())
    angles = [gen.angle(rng) for _ in tr]
    M = np.array([spec.expected(e, angles, tr) for e in np.eye(2 ** k)]).T
    M = M / np.linalg.norm(M[:, 0])
    bits = int(rng.integers(2 ** k))
    psi = np.conj(M[bits])
    if np.abs(M @ np.conj(M).T - np.eye(2 ** k)).max() > 1e-7:
        return
    zs = [v for v in spec.outputs if rng.random() < 0.8]
    for v in zs:
        spec.meas[v] = ("Z", 0)
    circ = spec.make(mp, rng)
    given = dict(zip(tr, angles))
    ctx.describe(spec=spec.desc(), given=given, psi=psi)
    sim = mp.PatternSimulator(circ, psi, backend="numpy-dm")
    out = sim.run([given[v] for v in circ.trainable_nodes])
    want = {v: bits >> (k - 1 - i) & 1 for i, v in enumerate(spec.outputs)}
    for v in zs:
        ctx.check(int(sim.outcomes[v]) == want[v], "an impossible Z outcome was recorded", v=v, got=sim.outcomes, want=want)
        ctx.event("certain-z")
    left = [v for v in spec.outputs if v not in zs]
    if left:
        e = np.zeros(2 ** len(left))
        e[int("".join(str(want[v]) for v in left), 2)] = 1
        ctx.close(out, np.diag(e), "output of a circuit that computes a basis state", 1e-7)
    ctx.nontrivial(spec.key(), bits, [round(a, 6) for a in angles])
