"""C06: generalised flow."""
import itertools
import warnings
import numpy as np
import mentpy as mp
from mentpy.mbqc import flow as mflow
from vmon import gen, ref
from vmon.core import workload
from vmon.checks.c05 import WEIGHTS, edited_history, io_pairs, graph_of, small_cases, relabel

RULE = ("every labelled graph with at most 4 (thorough: 5) nodes with every choice of equally many inputs and outputs, "
        "and random graphs up to 11 nodes with and without causal flow, against an independent GF(2) span "
        "computation (cross-checked by brute force over correction sets on small graphs); conditions of every "
        "correction set are evaluated literally; non-trivial: a gflow that is no causal flow, or no gflow.")
ASSUMPTIONS = []
QUICK_SCALE = 3
MIN_EVENTS = {"gflows": 200, "no-gflow": 200, "gflow-only": 10, "brute-force": 200, "circuits": 50, "edits": 120, "wide-gflow": 5, "wide-none": 3}


def brute_layers(nodes, edges, inputs, outputs):
    """maximally delayed layers by trying every correction set"""
    adj = ref.adjacency(nodes, edges)
    done, layer, k = set(outputs), {v: 0 for v in outputs}, 0
    while len(done) < len(nodes):
        k += 1
        cand = [v for v in nodes if v in done and v not in inputs]
        rest = [v for v in nodes if v not in done]
        new = set()
        for r in range(1, len(cand) + 1):
            for S in itertools.combinations(cand, r):
                odd = [v for v in rest if len(adj[v] & set(S)) % 2]
                if len(odd) == 1:
                    new.add(odd[0])
        if not new:
            return None
        for v in new:
            layer[v] = k
        done |= new
    return layer


def judge(ctx, nodes, edges, inputs, outputs, brute, g=None):
    g = graph_of(nodes, edges, WEIGHTS[ctx.idx % len(WEIGHTS)]) if g is None else g
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, po, depth, layers = mflow.find_gflow(g, inputs, outputs)
    want = ref.gflow_layers(nodes, edges, inputs, outputs)
    if brute:
        ctx.check(want == brute_layers(nodes, edges, inputs, outputs), "HARNESS: the two references disagree")
        ctx.event("brute-force")
    data = dict(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    ctx.check((f is not None) == (want is not None), "existence of a gflow", found=f is not None, **data)
    if f is None:
        ctx.event("no-gflow")
        return None
    ctx.event("gflows")
    adj = ref.adjacency(nodes, edges)
    sets = {}
    for v in nodes:
        if v in outputs:
            continue
        S = set(f(v))
        sets[v] = S
        ctx.check(S <= set(nodes) and not S & set(inputs), "correction set contains an input or no node", v=v, S=S, **data)
        ctx.check(all(po(v, w) for w in S), "correction set is not later", v=v, S=S, **data)
        odd = {u for u in nodes if len(adj[u] & S) % 2}
        ctx.check(v in odd, "the node is not in the odd neighbourhood", v=v, S=S, **data)
        ctx.check(all(po(v, u) for u in odd - {v}), "odd neighbourhood is not later", v=v, S=S, **data)
        ctx.check(v not in S, "XY node in its own correction set", v=v, S=S, **data)
    ctx.check(dict(layers) == want, "layers are not maximally delayed", layers=layers, want=want, **data)
    ctx.check(depth == max(want.values(), default=0), "depth", depth=depth, **data)
    rel = {(a, b) for a in nodes for b in nodes if po(a, b)}
    ctx.check(rel == {(a, b) for a in nodes for b in nodes if want[a] > want[b]}, "order does not follow the layers", **data)
    return want


@workload(64 + 8 + 2, 1024 + 64 + 8 + 2)
def all_small_graphs(ctx, rng):
    idx = ctx.idx
    for n in (2, 3, 4, 5):
        m = 2 ** (n * (n - 1) // 2)
        if idx < m:
            break
        idx -= m
    edges = list(small_cases(n))[idx]
    for inputs, outputs in io_pairs(n):
        ctx.describe(n=n, edges=edges, inputs=inputs, outputs=outputs)
        w = judge(ctx, list(range(n)), edges, inputs, outputs, True)
        c = ref.causal_layers(list(range(n)), edges, inputs, outputs)
        if w is not None and c is None:
            ctx.event("gflow-only")
        if len(outputs) < n and (c is None):
            ctx.nontrivial(n, edges, inputs, outputs, w is not None)


def random_case(rng):
    r = rng.random()
    if r < 0.3:
        spec = gen.flow_spec(rng, wires=(1, 4), nmax=11, nmin=3, tail=24)
        es = set(map(tuple, spec.edges))
        for _ in range(int(rng.integers(0, 4))):
            e = tuple(sorted(int(x) for x in rng.choice(spec.n, size=2, replace=False)))
            es ^= {e}
        return spec.n, sorted(es), spec.inputs, spec.outputs
    if r < 0.7:
        # planted gflow: random invertible bipartite layers, as in (inputs | outputs) with extra edges
        k = int(rng.integers(2, 5))
        layers = int(rng.integers(1, 3))
        n = k * (layers + 1)
        edges = set()
        for l in range(layers):
            while True:
                M = rng.integers(0, 2, size=(k, k))
                if ref.gf2_rank([int("".join(map(str, row)), 2) for row in M]) == k:
                    break
            for i in range(k):
                for j in range(k):
                    if M[i, j]:
                        edges.add((l * k + i, (l + 1) * k + j))
        return n, sorted(edges), list(range(k)), list(range(n - k, n))
    n = int(rng.integers(3, 9))
    edges = gen.random_graph(rng, n)
    i, o = gen.random_io(rng, n, kmax=4)
    return n, edges, i, o


@workload(500, 15000)
def random_graphs(ctx, rng):
    n, edges, inputs, outputs = random_case(rng)
    nodes, edges, inputs, outputs = relabel(rng, list(range(n)), edges, inputs, outputs)
    ctx.describe(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    w = judge(ctx, nodes, edges, inputs, outputs, n <= 8)
    c = ref.causal_layers(nodes, edges, inputs, outputs)
    if w is not None and c is None:
        ctx.event("gflow-only")
    if c is None:
        ctx.nontrivial(nodes, edges, inputs, outputs, w is not None)


@workload(16, 400)
def wide(ctx, rng):
    """planted layers of up to 20 wires (corrections need many nodes together), one in three with a dependent row"""
    k = int(rng.integers(8, 21))
    layers = int(rng.integers(1, 3)) if k < 14 else 1
    edges = set()
    for l in range(layers):
        # a random walk of row operations from a permutation keeps the matrix invertible
        M = np.eye(k, dtype=int)[rng.permutation(k)]
        for _ in range(int(rng.integers(k, 4 * k))):
            a, b = (int(x) for x in rng.choice(k, size=2, replace=False))
            M[a] ^= M[b]
        if rng.random() < 0.3:
            rows = rng.choice(k, size=int(rng.integers(3, k)), replace=False)
            M[rows[0]] = M[rows[1:]].sum(axis=0) % 2
        edges |= {(l * k + i, (l + 1) * k + j) for i in range(k) for j in range(k) if M[i, j]}
    n = k * (layers + 1)
    inputs, outputs = list(range(k)), list(range(n - k, n))
    nodes, edges, inputs, outputs = relabel(rng, list(range(n)), sorted(edges), inputs, outputs)
    ctx.describe(n=n, k=k, layers=layers)
    w = judge(ctx, nodes, edges, inputs, outputs, False)
    ctx.event("wide-gflow" if w is not None else "wide-none")
    ctx.nontrivial(n, edges)


@workload(1, 12, cpu=300)
def deep(ctx, rng):
    """long narrow graphs: gflows of 45-70 layers"""
    wires, length = (1, int(rng.integers(45, 70))) if rng.random() < 0.6 else (2, int(rng.integers(42, 48)))
    n = wires * length
    edges = {(i, i + wires) for i in range(n - wires)}
    if wires == 2:
        edges |= {(2 * l, 2 * l + 1) for l in range(length) if rng.random() < 0.3}
    nodes, edges, inputs, outputs = relabel(rng, list(range(n)), sorted(edges), list(range(wires)), list(range(n - wires, n)))
    ctx.describe(n=n, wires=wires)
    judge(ctx, nodes, edges, inputs, outputs, False)
    ctx.event("deep")
    ctx.nontrivial(n, edges)


@workload(150, 4000)
def circuits(ctx, rng):
    """a circuit reports its causal flow, or else its gflow, or neither"""
    n, edges, inputs, outputs = random_case(rng)
    perm = gen.shuffled(rng, range(n))
    edges = [(perm[a], perm[b]) for a, b in edges]
    inputs, outputs = [perm[v] for v in inputs], [perm[v] for v in outputs]
    ctx.describe(n=n, edges=edges, inputs=inputs, outputs=outputs)
    nodes = list(range(n))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        circ = mp.MBQCircuit(graph_of(nodes, edges), input_nodes=inputs, output_nodes=outputs)
    c = ref.causal_layers(nodes, edges, inputs, outputs)
    g = ref.gflow_layers(nodes, edges, inputs, outputs)
    want = c[1] if c else g
    ctx.check((circ.flow is None) == (c is None), "circuit.flow", has=circ.flow is not None)
    ctx.check((circ.gflow.func is None) == (want is None), "circuit.gflow")
    ctx.event("circuits")
    if want is None:
        ctx.check(circ.gflow.layers is None and circ.ordered_layers() is None and circ.depth is None, "data without gflow")
    else:
        ctx.check(circ.depth == max(want.values(), default=0), "depth", depth=circ.depth, want=want)
        d = max(want.values(), default=0)
        ctx.check([sorted(l) for l in circ.ordered_layers()] == [sorted(v for v in nodes if want[v] == k) for k in range(d, -1, -1)],
                  "ordered_layers", got=circ.ordered_layers(), want=want)
        mo = circ.gflow.measurement_order
        ctx.check(sorted(mo) == nodes and all(want[a] >= want[b] for a, b in zip(mo, mo[1:])), "gflow.measurement_order", got=mo)
        if c is None:
            ctx.event("gflow-only")
            ctx.nontrivial(n, edges, inputs, outputs)
            for v in nodes:
                if v not in outputs:
                    S, adj = set(circ.gflow(v)), ref.adjacency(nodes, edges)
                    odd = {u for u in nodes if len(adj[u] & S) % 2}
                    ctx.check(v in odd and not S & set(inputs) and all(want[u] < want[v] for u in (odd | S) - {v}),
                              "gflow of the circuit", v=v, S=S)
            circ2 = circ
            ctx.check(circ2.measurement_order is None, "measurement order without causal flow")


@workload(60, 2000)
def edited(ctx, rng):
    """the answer is about the graph as it is now"""
    edited_history(ctx, rng, judge)
