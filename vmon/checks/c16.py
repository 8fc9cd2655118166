"""C16: Lie-algebra generators against the rotations the angles produce."""
import numpy as np
import mentpy as mp
from mentpy.utils.lie_algebra import calculate_complete_gens_lie_algebra, calculate_gens_lie_algebra
from vmon import gen, ref
from vmon.core import workload

RULE = ("random circuits with causal flow (plus templates), all nodes measured in the XY plane; the isometry from inputs to "
        "outputs is computed by contraction of the graph state at angle 0 and at angle t of one node, and compared with the "
        "rotation about the operator the library returns; circuits of up to 40 nodes and seven outputs by an elimination in the stabilizer group; non-trivial: at least two measured nodes.")
ASSUMPTIONS = ["the isometry is computed on at most 3 inputs and 4 outputs; larger circuits are judged by the stabilizer formalism alone, "
               "which is compared with the isometry on every small one", "measured nodes are projected on outcome 0"]
QUICK_SCALE = 2
MIN_EVENTS = {"generators": 400, "circuits": 100, "large": 40, "generators-by-stabilizers": 250, "edits": 30}


def isometry(n, edges, inputs, outputs, angles):
    kets = {v: ref.ket("XY", a) for v, a in angles.items()}
    cols = []
    for b in range(2 ** len(inputs)):
        psi = np.zeros(2 ** len(inputs), dtype=complex)
        psi[b] = 1
        cols.append(ref.project(list(range(n)), edges, inputs, psi, kets, outputs))
    V = np.array(cols).T
    return V / np.linalg.norm(V, 2)


def judge(ctx, rng, circ, n, edges, inputs, outputs, name=lambda v: v):
    """circ's node name(v) is v; checks all generators"""
    outputc = [v for v in range(n) if v not in outputs]
    before = (list(circ.nodes()), list(circ.edges()))
    ops = calculate_complete_gens_lie_algebra(circ)
    ctx.check(before == (list(circ.nodes()), list(circ.edges())), "the circuit was changed")
    ctx.check(len(ops) == len(outputc), "number of operators", got=len(ops), want=len(outputc))
    zero = {v: 0.0 for v in outputc}
    V0 = isometry(n, edges, inputs, outputs, zero)
    sub = ops.get_subset([list(circ.nodes()).index(v) for v in circ.output_nodes])
    order = [v for v in circ.outputc]
    seen = []
    for i, lab in enumerate(order):
        v = next(u for u in range(n) if name(u) == lab)
        s = sub[i].txt
        seen.append(s)
        t = float(rng.uniform(0.3, 2.8))
        V = isometry(n, edges, inputs, outputs, {**zero, v: t})
        good = [sg for sg in (1, -1) if ref.same_up_to_phase(V, ref.expm_pauli(s, sg * t / 2) @ V0, 1e-7)]
        ctx.check(good, "the operator of a node is not the rotation its angle produces", node=lab, op=s, t=t)
        ctx.event("generators")
        ctx.check(operator_of(n, edges, inputs, outputs, v) == s, "the operator of a node differs from the one by elimination", node=lab, op=s)
    gens = calculate_gens_lie_algebra(circ)
    got = [g.txt for g in gens]
    ctx.check(len(got) == len(set(got)), "repeated operators", got=got)
    ctx.check(set(got) == set(seen), "generators are not the distinct operators of the nodes", got=got, want=seen)
    ctx.event("circuits")
    if len(outputc) > 1:
        ctx.nontrivial(n, tuple(sorted(map(tuple, edges))), tuple(inputs), tuple(outputs))


@workload(150, 3000)
def circuits(ctx, rng):
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=int(gen.choice(rng, [5, 7, 9])), nmin=2, tail=13)
    if not spec.outputc:
        return
    gen.measure_xy(rng, spec, p_train=0.8)
    ctx.describe(**spec.desc())
    judge(ctx, rng, spec.make(mp, rng), spec.n, spec.edges, spec.inputs, spec.outputs)


@workload(30, 300)
def own_labels(ctx, rng):
    """nodes keep their labels"""
    spec = gen.flow_spec(rng, wires=(1, 3), nmax=7, nmin=2, relabel=False, tail=12)
    if not spec.outputc:
        return
    gen.measure_xy(rng, spec)
    spec.labels = [int(x) for x in rng.choice(40, size=spec.n, replace=False)]
    ctx.describe(**spec.desc())
    c = spec.make(mp, rng, relabel_indices=False)
    judge(ctx, rng, c, spec.n, spec.edges, spec.inputs, spec.outputs, lambda v: spec.labels[v])


@workload(24, 60)
def templates(ctx, rng):
    r = ctx.idx % 4
    if r == 0:
        c = mp.templates.linear_cluster(int(rng.integers(2, 12)))
    elif r == 1:
        c = mp.templates.many_wires([int(v) for v in rng.integers(2, 5, size=int(rng.integers(1, 4)))])
    elif r == 2:
        c = mp.templates.grid_cluster(int(rng.integers(2, 4)), int(rng.integers(2, 5)))
    else:
        c = mp.templates.muta(int(rng.integers(1, 3)), 1)
    nodes = list(c.nodes())
    ix = {v: i for i, v in enumerate(nodes)}
    m = lambda vs: [ix[v] for v in vs]
    ctx.describe(template=r, nodes=len(nodes))
    judge(ctx, rng, c, len(nodes), [m(e) for e in c.edges()], m(c.input_nodes), m(c.output_nodes), lambda i: nodes[i])


def operator_of(n, edges, inputs, outputs, v):
    """the output operator equivalent to Z on v when every measured node is projected on X: a product of the stabilizers
    of nodes that are no inputs which, times Z_v, acts on the measured nodes as I or X only (elimination on bit vectors)"""
    adj = ref.adjacency(list(range(n)), edges)
    gens = [w for w in range(n) if w not in inputs]
    measured = [u for u in range(n) if u not in outputs]
    row = {u: i for i, u in enumerate(measured)}
    basis = {}                      # pivot -> (bits on measured nodes, set of generators)
    for w in gens:
        z, s = sum(1 << row[u] for u in adj[w] if u in row), {w}
        while z:
            p = z.bit_length() - 1
            if p not in basis:
                basis[p] = (z, s)
                break
            z, s = z ^ basis[p][0], s ^ basis[p][1]
    z, s = 1 << row[v], set()
    while z:
        p = z.bit_length() - 1
        if p not in basis:
            return None
        z, s = z ^ basis[p][0], s ^ basis[p][1]
    return "".join("IXZY"[(o in s) + 2 * (len(adj[o] & s) % 2)] for o in outputs)


def judge_large(ctx, circ, n, edges, inputs, outputs, name=lambda v: v):
    ops = calculate_complete_gens_lie_algebra(circ)
    sub = ops.get_subset([list(circ.nodes()).index(v) for v in circ.output_nodes])
    back = {name(v): v for v in range(n)}
    want = [operator_of(n, edges, inputs, outputs, back[lab]) for lab in circ.outputc]
    got = [o.txt for o in sub]
    ctx.check(got == want, "the operators of the nodes are not those of their angles", got=got, want=want)
    g = [o.txt for o in calculate_gens_lie_algebra(circ)]
    ctx.check(sorted(g) == sorted(set(want)), "generators are not the distinct operators of the nodes", got=g, want=want)
    ctx.event("more-than-40-operators", int(len(set(want)) > 40))
    ctx.event("generators-by-stabilizers", len(want))
    return want


@workload(60, 1200)
def large(ctx, rng):
    """more nodes and outputs than a state vector allows: the operators by elimination in the stabilizer group"""
    spec = gen.flow_spec(rng, wires=(1, 7), nmax=int(gen.choice(rng, [8, 14, 20])), nmin=4, tail=30)
    if not spec.outputc:
        return
    gen.measure_xy(rng, spec, p_train=0.8)
    ctx.describe(**spec.desc())
    judge_large(ctx, spec.make(mp, rng), spec.n, spec.edges, spec.inputs, spec.outputs)
    ctx.event("large")
    ctx.nontrivial(spec.n, tuple(sorted(map(tuple, spec.edges))), tuple(spec.inputs), tuple(spec.outputs))


@workload(24, 200)
def large_templates(ctx, rng):
    r = ctx.idx % 3
    if r == 0:
        c = mp.templates.linear_cluster(int(rng.integers(12, 30)))
    elif r == 1:
        c = mp.templates.many_wires([int(v) for v in rng.integers(2, 7, size=int(rng.integers(3, 6)))])
    else:
        c = mp.templates.grid_cluster(int(rng.integers(3, 6)), int(rng.integers(3, 6)))
    nodes = list(c.nodes())
    ix = {v: i for i, v in enumerate(nodes)}
    m = lambda vs: [ix[v] for v in vs]
    ctx.describe(template=r, nodes=len(nodes))
    judge_large(ctx, c, len(nodes), [m(e) for e in c.edges()], m(c.input_nodes), m(c.output_nodes), lambda i: nodes[i])
    ctx.event("large")
    ctx.nontrivial(r, sorted(map(sorted, c.edges())))


@workload(40, 600)
def edited(ctx, rng):
    """asked again after an edge between two outputs was added or a measurement replaced"""
    spec = gen.flow_spec(rng, wires=(2, 4), nmax=9, nmin=4, tail=16)
    if not spec.outputc:
        return
    gen.measure_xy(rng, spec, p_train=0.8)
    c = spec.make(mp, rng)
    judge_large(ctx, c, spec.n, spec.edges, spec.inputs, spec.outputs)
    for _ in range(3):
        if rng.random() < 0.7:
            done = spec.join_outputs(rng, c)
        else:
            v = gen.choice(rng, spec.outputc)
            spec.meas[v] = gen.choice(rng, [("XY", gen.angle(rng)), ("XY", None)])
            c[v], done = spec.ment(mp, v), True
        ctx.describe(**spec.desc())
        before = (list(c.nodes()), list(c.edges()))
        ops = calculate_complete_gens_lie_algebra(c)
        judge_large(ctx, c, spec.n, spec.edges, spec.inputs, spec.outputs)
        ctx.check(before == (list(c.nodes()), list(c.edges())), "the circuit was changed")
        # the result is the caller's own
        ops.append(mp.PauliOp("X" * spec.n))
        np.asarray(ops.matrix)[...] = 1
        judge_large(ctx, c, spec.n, spec.edges, spec.inputs, spec.outputs)
        ctx.event("edits", int(done))
