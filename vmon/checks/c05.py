"""C05: causal flow: existence, conditions, layers, and the checker of user flows."""
import itertools
import warnings
import networkx as nx
import numpy as np
import mentpy as mp
from mentpy.mbqc import flow as mflow
from vmon import gen, ref
from vmon.core import workload

RULE = ("every labelled graph with at most 4 (thorough: 5) nodes with every choice of equally many inputs and "
        "outputs, against brute force over all successor functions; random graphs and planted-flow graphs up to 14 "
        "nodes (non-integer and permuted labels) against an independent fixpoint; random (flow, order) pairs against "
        "the literal conditions; non-trivial: at least one edge and one non-output node.")
ASSUMPTIONS = []
MIN_EVENTS = {"flows": 200, "no-flow": 200, "brute-force": 500, "checker-accepts": 30, "checker-rejects": 100, "older-algorithm": 20, "very-deep": 3, "wide": 6, "edits": 120}


WEIGHTS = [None, None, 2, None, None, 0.5, None, None, 0, None, None]      # edge attributes mean nothing to a flow


def io_pairs(n):
    for k in range(1, n + 1):
        for i in itertools.combinations(range(n), k):
            for o in itertools.combinations(range(n), k):
                yield list(i), list(o)


def graph_of(nodes, edges, weight=None):
    g = mp.GraphState()
    g.add_nodes_from(nodes)
    g.add_edges_from(edges, **({} if weight is None else {"weight": weight}))
    return g


def judge(ctx, nodes, edges, inputs, outputs, brute, g=None):
    g = graph_of(nodes, edges, WEIGHTS[ctx.idx % len(WEIGHTS)]) if g is None else g
    before = (list(g.nodes), sorted(map(sorted, g.edges)), list(inputs), list(outputs))
    f, po, depth, layers = mflow.find_cflow(g, inputs, outputs)
    ctx.check((list(g.nodes), sorted(map(sorted, g.edges)), list(inputs), list(outputs)) == before, "arguments modified")
    want = ref.causal_layers(nodes, edges, inputs, outputs)
    if brute:
        ctx.check((want is not None) == ref.has_causal_flow_bruteforce(nodes, edges, inputs, outputs),
                  "HARNESS: the two references disagree")
        ctx.event("brute-force")
    ctx.check((f is not None) == (want is not None), "existence of a causal flow", found=f is not None,
              exists=want is not None, nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    if f is None:
        ctx.check(po is None and depth is None and layers is None, "partial results without a flow")
        ctx.event("no-flow")
        return False
    ctx.event("flows")
    adj = ref.adjacency(nodes, edges)
    rest = [v for v in nodes if v not in outputs]
    img = [f(v) for v in rest]
    data = dict(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs, f=dict(zip(rest, img)), layers=layers)
    ctx.check(len(set(img)) == len(img), "flow is not injective", **data)
    for v in rest:
        w = f(v)
        ctx.check(w in adj[v], "successor is not a neighbour", v=v, **data)
        ctx.check(w not in inputs, "successor is an input", v=v, **data)
        ctx.check(bool(po(v, w)), "successor is not later", v=v, **data)
        for u in adj[w] - {v}:
            ctx.check(bool(po(v, u)), "neighbour of the successor is not later", v=v, u=u, **data)
    rel = {(a, b) for a in nodes for b in nodes if po(a, b)}
    ctx.check(not any((a, a) in rel for a in nodes), "order is not irreflexive", **data)
    ctx.check(all((a, d) in rel for a, b in rel for c, d in rel if b == c), "order is not transitive", **data)
    ctx.check(dict(layers) == want[1], "layers are not the maximally delayed ones", want=want[1], **data)
    ctx.check(rel == {(a, b) for a in nodes for b in nodes if want[1][a] > want[1][b]}, "order does not follow the layers", **data)
    ctx.check(depth == max(want[1].values(), default=0), "depth", depth=depth, **data)
    return True


def small_cases(n):
    pairs = list(itertools.combinations(range(n), 2))
    for bits in range(2 ** len(pairs)):
        yield [p for i, p in enumerate(pairs) if bits >> i & 1]


@workload(64 + 8 + 2, 1024 + 64 + 8 + 2)
def all_small_graphs(ctx, rng):
    """one graph per case, all inputs/outputs"""
    idx = ctx.idx
    for n in (2, 3, 4, 5):
        m = 2 ** (n * (n - 1) // 2)
        if idx < m:
            break
        idx -= m
    edges = list(small_cases(n))[idx]
    for inputs, outputs in io_pairs(n):
        ctx.describe(n=n, edges=edges, inputs=inputs, outputs=outputs)
        found = judge(ctx, list(range(n)), edges, inputs, outputs, True)
        if edges and len(outputs) < n:
            ctx.nontrivial(n, edges, inputs, outputs, found)


def relabel(rng, nodes, edges, inputs, outputs):
    r = rng.random()
    n = len(nodes)
    if r < 0.4:
        lab = [int(x) for x in rng.choice(100, size=n, replace=False) - 30]
    elif r < 0.6:
        lab = [f"q{i}" for i in gen.shuffled(rng, range(n))]
    elif r < 0.7:
        lab = [(int(i), 0) for i in gen.shuffled(rng, range(n))]
    else:
        lab = gen.shuffled(rng, range(n))
    m = lambda v: lab[v]
    return ([m(v) for v in gen.shuffled(rng, nodes)],
            [(m(a), m(b)) if rng.random() < .5 else (m(b), m(a)) for a, b in gen.shuffled(rng, edges)],
            [m(v) for v in inputs], [m(v) for v in outputs])


@workload(600, 20000)
def random_graphs(ctx, rng):
    if rng.random() < 0.6:
        spec = gen.flow_spec(rng, wires=(1, 5), nmax=14, nmin=2)
        n, edges, inputs, outputs = spec.n, [tuple(e) for e in spec.edges], spec.inputs, spec.outputs
        if rng.random() < 0.5:   # perturb: one or two edges toggled
            es = set(edges)
            for _ in range(int(rng.integers(1, 3))):
                if n > 1:
                    e = tuple(sorted(int(x) for x in rng.choice(n, size=2, replace=False)))
                    es ^= {e}
            edges = sorted(es)
    else:
        n = int(rng.integers(2, 9))
        edges = gen.random_graph(rng, n, rng.random() * 0.6)
        inputs, outputs = gen.random_io(rng, n)
    nodes, edges, inputs, outputs = relabel(rng, list(range(n)), edges, inputs, outputs)
    ctx.describe(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    found = judge(ctx, nodes, edges, inputs, outputs, n <= 7)
    if edges and len(outputs) < n:
        ctx.nontrivial(nodes, edges, inputs, outputs, found)


@workload(8, 60)
def long_wires(ctx, rng):
    """deep circuits"""
    k = int(rng.integers(1, 4))
    spec = gen.flow_spec(rng, wires=(k, k), nmax=int(rng.integers(40, 150)), nmin=40)
    ctx.describe(**spec.desc())
    f, po, depth, layers = mflow.find_cflow(graph_of(spec.nodes, spec.edges), spec.inputs, spec.outputs)
    want = ref.causal_layers(spec.nodes, spec.edges, spec.inputs, spec.outputs)
    ctx.check(f is not None, "a planted flow was not found")
    ctx.check(dict(layers) == want[1] and depth == max(want[1].values()), "layers", got=layers, want=want[1])
    ctx.check({v: f(v) for v in spec.outputc} == want[0], "flow", want=want[0])
    ctx.event("flows")
    ctx.nontrivial(spec.key())


@workload(30, 600)
def wide(ctx, rng):
    """many wires side by side, some perturbed"""
    k = int(rng.integers(7, 15))
    spec = gen.flow_spec(rng, wires=(k, k), nmax=int(rng.integers(k, 3 * k + 4)), nmin=k, p_cz=float(rng.uniform(.2, .8)))
    nodes, edges, inputs, outputs = spec.nodes, set(tuple(e) for e in spec.edges), spec.inputs, spec.outputs
    if rng.random() < .4:
        edges ^= {tuple(sorted(int(x) for x in rng.choice(spec.n, size=2, replace=False)))}
    nodes, edges, inputs, outputs = relabel(rng, list(nodes), sorted(edges), inputs, outputs)
    ctx.describe(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    if judge(ctx, nodes, edges, inputs, outputs, False) and len(outputs) < len(nodes):
        ctx.event("wide")
        ctx.nontrivial(nodes, edges, inputs, outputs)


@workload(6, 40)
def very_deep(ctx, rng):
    """more than a thousand layers: wires with rungs, some with an edge that closes a cycle of dependencies"""
    k = int(rng.integers(1, 4))
    n = int(rng.integers(1050, 2400 if k == 1 else 1300))
    edges = [(w * n + j, w * n + j + 1) for w in range(k) for j in range(n - 1)]
    for w in range(k - 1):
        edges += [(w * n + int(j), (w + 1) * n + int(j)) for j in rng.choice(n, size=20, replace=False)]
    inputs, outputs = [w * n for w in range(k)], [w * n + n - 1 for w in range(k)]
    bad = ctx.idx % 3 == 2
    if bad:                                   # a long edge back along one wire: no flow
        a = int(rng.integers(0, n - 10))
        edges.append((a, int(rng.integers(a + 5, n - 1))))
    ctx.describe(k=k, n=n, bad=bad)
    f, po, depth, ln = mflow.find_cflow(graph_of(range(k * n), edges), inputs, outputs)
    if bad and k == 1:
        ctx.check(f is None, "a flow was found where none exists")
        ctx.event("no-flow")
        return
    ctx.check(bad or f is not None, "a planted flow was not found")
    if f is None:
        return
    adj = ref.adjacency(range(k * n), edges)
    rest = [v for v in range(k * n) if v not in set(outputs)]
    layer = {v: 0 for v in outputs}
    deps = {v: {f(v)} | adj[f(v)] - {v} for v in rest}
    for v in sorted(rest, key=lambda v: ln[v]):
        ctx.check(f(v) in adj[v] and f(v) not in inputs and all(w in layer for w in deps[v]), "the flow conditions fail", v=v)
        layer[v] = 1 + max(layer[w] for w in deps[v])
    ctx.check(len({f(v) for v in rest}) == len(rest), "flow is not injective")
    ctx.check(layer == dict(ln) and depth == max(layer.values()), "layers", depth=depth)
    ctx.event("flows")
    ctx.event("very-deep")
    ctx.nontrivial(k, n, edges)


@workload(400, 10000)
def checker(ctx, rng):
    """check_if_flow vs the conditions, for correct, perturbed and random flows"""
    if rng.random() < 0.7:
        spec = gen.flow_spec(rng, wires=(1, 3), nmax=8, nmin=2) if rng.random() < .8 else gen.flow_spec(rng, wires=(4, 9), nmax=20, nmin=6, p_cz=.7)
        n, edges, inputs, outputs, f = spec.n, spec.edges, spec.inputs, spec.outputs, dict(spec.f)
        base = ref.causal_layers(spec.nodes, edges, inputs, outputs)[1]
    elif rng.random() < 0.4:       # a corrector with many neighbours
        n = int(rng.integers(7, 14))
        edges = gen.random_graph(rng, n, float(rng.uniform(.5, 1)))
        perm = gen.shuffled(rng, range(n))
        v, c = perm[:2]
        edges = sorted({tuple(sorted(e)) for e in edges} | {tuple(sorted((v, c)))})
        inputs, outputs = [v] + perm[2:2 + int(rng.integers(0, 4))], perm[1:]
        f, base = {v: c}, {u: int(u == v) for u in range(n)}
    else:
        n = int(rng.integers(2, 7))
        edges = gen.random_graph(rng, n)
        inputs, outputs = gen.random_io(rng, n)
        f = {v: int(rng.integers(n)) for v in range(n) if v not in outputs}
        base = {v: int(rng.integers(n)) for v in range(n)}
    layer = dict(base)
    r = rng.random()
    if r < 0.25 and f:
        v = gen.choice(rng, sorted(f))
        f[v] = int(rng.integers(n))
    elif r < 0.5:
        layer[int(rng.integers(n))] += int(rng.integers(-2, 3))
    elif r < 0.6:
        layer = {v: -x for v, x in layer.items()}
    elif r < 0.75:
        layer = {v: 3 * x + 5 for v, x in layer.items()}
    elif r < 0.85 and len(f) > 1:
        a, b = rng.choice(sorted(f), size=2, replace=False)
        f[int(a)], f[int(b)] = f[int(b)], f[int(a)]
    if rng.random() < 0.2:
        # an arbitrary strict order (not from layers)
        order = gen.shuffled(rng, range(n))
        rel = {(a, b) for i, a in enumerate(order) for b in order[i + 1:]} if rng.random() < .5 else None
    else:
        rel = None
    if rel is None:
        rel = {(a, b) for a in range(n) for b in range(n) if layer[a] > layer[b]}
    adj = ref.adjacency(range(n), edges)
    if rng.random() < 0.25 and f:       # all but one of the relations that are needed
        v = gen.choice(rng, sorted(f)) if rng.random() < .5 else max(sorted(f), key=lambda v: len(adj[f[v]]))
        ctx.event("checker-degree-over-5", int(len(adj[f[v]]) > 5))
        rel.discard((v, gen.choice(rng, sorted(adj[f[v]] - {v}) + [f[v]])))
    ok = all(f[v] in adj[v] and f[v] not in inputs and (v, f[v]) in rel
             and all((v, u) in rel for u in adj[f[v]] - {v}) for v in f)
    nodes, es, inp, outp = list(range(n)), edges, inputs, outputs
    ctx.describe(n=n, edges=edges, inputs=inputs, outputs=outputs, f=f, rel=sorted(rel))
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        got = mflow.check_if_flow(graph_of(nodes, es), inp, outp, lambda v: f[v], lambda a, b: (a, b) in rel)
    ctx.check(bool(got) == ok, "check_if_flow", got=bool(got), want=ok)
    ctx.event("checker-accepts" if ok else "checker-rejects")
    if f:
        ctx.nontrivial(n, edges, inputs, outputs, sorted(f.items()), ok)


@workload(40, 200)
def different_sizes(ctx, rng):
    n = int(rng.integers(2, 7))
    edges = gen.random_graph(rng, n)
    a, b = rng.choice(range(0, n + 1), size=2, replace=False)
    inputs = [int(x) for x in rng.choice(n, size=int(a), replace=False)]
    outputs = [int(x) for x in rng.choice(n, size=int(b), replace=False)]
    ctx.raises(ValueError, lambda: mflow.find_cflow(graph_of(range(n), edges), inputs, outputs), "different numbers of inputs and outputs")
    ctx.event("refused")


@workload(250, 6000)
def older_algorithm(ctx, rng):
    """the deprecated find_flow may miss flows, but whatever it returns is one"""
    if rng.random() < 0.75:
        spec = gen.flow_spec(rng, wires=(1, 3), nmax=9, nmin=2, relabel=False)
        n, edges, inputs, outputs = spec.n, spec.edges, spec.inputs, spec.outputs
        if rng.random() < 0.4 and n > 2:
            edges = sorted(set(edges) ^ {tuple(sorted(int(x) for x in rng.choice(n, size=2, replace=False)))})
    else:
        n = int(rng.integers(2, 7))
        edges = gen.random_graph(rng, n)
        inputs, outputs = gen.random_io(rng, n)
    nodes, edges, inputs, outputs = relabel(rng, list(range(n)), edges, inputs, outputs)
    ctx.describe(nodes=nodes, edges=edges, inputs=inputs, outputs=outputs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, po = mflow.find_flow(graph_of(nodes, edges), inputs, outputs)
    if f is None:
        return
    ctx.check(ref.causal_layers(nodes, edges, inputs, outputs) is not None, "find_flow found a flow where none exists")
    adj = ref.adjacency(nodes, edges)
    for v in nodes:
        if v not in outputs:
            ctx.check(f(v) in adj[v] and f(v) not in inputs and bool(po(v, f(v))) and all(po(v, u) for u in adj[f(v)] - {v}),
                      "find_flow: not a flow", v=v, f=f(v))
    ctx.event("older-algorithm")


def toggles(rng, g, nodes, k):
    for _ in range(k):
        if len(nodes) > 1:
            u, v = [nodes[int(i)] for i in rng.choice(len(nodes), size=2, replace=False)]
            if g.has_edge(u, v):
                g.remove_edge(u, v)
            else:
                g.add_edge(u, v)


def edited_history(ctx, rng, judge):
    """one graph object edited between the calls; the inputs and outputs change too"""
    spec = gen.flow_spec(rng, wires=(1, 4), nmax=9, nmin=3)
    nodes, edges, inputs, outputs = relabel(rng, list(range(spec.n)), [tuple(e) for e in spec.edges], spec.inputs, spec.outputs)
    g = graph_of(nodes, edges)
    log = []
    for _ in range(int(rng.integers(3, 7))):
        r = rng.random()
        if r < 0.4 and log:
            toggles(rng, g, nodes, int(rng.integers(1, 3)))
        elif r < 0.6 and log:
            inputs, outputs = outputs, inputs
        elif r < 0.8 and log:                  # back to a graph that has a flow
            g.remove_edges_from(list(g.edges()))
            g.add_edges_from(edges)
        elif log and len(nodes) > 3:           # another node is an output / input
            outputs = [nodes[int(i)] for i in rng.choice(len(nodes), size=len(outputs), replace=False)]
        log.append(round(r, 2))
        now = [tuple(e) for e in g.edges()]
        ctx.describe(nodes=nodes, edges=now, inputs=inputs, outputs=outputs, log=log)
        judge(ctx, nodes, now, list(inputs), list(outputs), False, g=g)
        ctx.event("edits")
    ctx.nontrivial(nodes, now, log)


@workload(60, 2000)
def edited(ctx, rng):
    """the answer is about the graph as it is now"""
    edited_history(ctx, rng, judge)
