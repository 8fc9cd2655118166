"""C25: the space of all graphs of a circuit and its part with flow."""
import itertools
import networkx as nx
import mentpy as mp
from mentpy.utils import FlowSpace
from vmon import gen, ref
from vmon.core import workload
from vmon.checks.c05 import io_pairs

RULE = ("all choices of inputs and outputs (equally many) on up to four nodes, random ones on five; every graph of the space is looked up in a plain "
        "enumeration, adjacency is recomputed, and flow is decided by the plain fixpoint and by exhaustive search; non-trivial: the "
        "space has graphs of both kinds.")
ASSUMPTIONS = ["the nodes of the circuit are 0..n-1", "spaces of six and seven nodes are not built: the library compares all pairs of graphs"]
QUICK_SCALE = 2
MIN_EVENTS = {"spaces": 60, "graphs": 2500, "with_flow": 200, "pairs": 50000}


def judge(ctx, rng, n, inputs, outputs, circ):
    sp = FlowSpace(circ) if rng.random() < 0.7 else FlowSpace(circ, allow_any_size_graphs=bool(rng.integers(2)))
    ctx.check(sp.number_nodes == n and list(sp.input_nodes) == list(inputs) and list(sp.output_nodes) == list(outputs), "description of the space")
    tot, yes, no = sp.total_graph_space, sp.flow_graph_space, sp.no_flow_graph_space
    edges = {}
    for k in tot.nodes():
        c = tot.nodes[k]["mbqc_circuit"]
        ctx.check(sorted(c.graph.nodes()) == list(range(n)), "nodes of a graph of the space")
        ctx.check(list(c.input_nodes) == list(inputs) and list(c.output_nodes) == list(outputs), "inputs and outputs of a circuit of the space")
        edges[k] = frozenset(frozenset(e) for e in c.graph.edges())
    pairs = [frozenset(p) for p in itertools.combinations(range(n), 2)]
    ctx.check(len(edges) == 2 ** len(pairs), "number of graphs", got=len(edges))
    ctx.check(len(set(edges.values())) == len(edges), "a graph is listed twice")
    flows = 0
    for k, e in edges.items():
        el = [tuple(sorted(p)) for p in e]
        want = ref.causal_layers(list(range(n)), el, inputs, outputs) is not None
        if n <= 4 and rng.random() < 0.3:
            assert want == ref.has_causal_flow_bruteforce(list(range(n)), el, inputs, outputs)
        flows += want
        ctx.check((k in yes) == want and (k in no) == (not want), "flow part", edges=el, inputs=inputs, outputs=outputs, want=want)
        ctx.check(bool(tot.nodes[k]["flow"]) == want, "flow attribute", edges=el)
        ctx.check((tot.nodes[k]["mbqc_circuit"].flow is not None) == want, "flow of a circuit of the space")
        ctx.event("graphs")
    ctx.event("with_flow", flows)
    ctx.check(set(yes) | set(no) == set(tot) and not set(yes) & set(no), "the two parts do not partition the space")
    by = {e: k for k, e in edges.items()}
    want = {frozenset((k, by[e ^ {p}])) for k, e in edges.items() for p in pairs}
    got = {frozenset(e) for e in tot.edges()}
    ctx.check(got == want, "neighbours are not the graphs that differ in one edge", missing=len(want - got), extra=len(got - want))
    ctx.event("pairs", len(edges) * (len(edges) - 1) // 2)
    for part in (yes, no):
        ctx.check({frozenset(e) for e in part.edges()} == {e for e in want if all(v in part for v in e)}, "edges of a part")
    if 0 < flows < len(edges):
        ctx.nontrivial(n, tuple(inputs), tuple(outputs))
    ctx.event("spaces")


SMALL = [(n, list(i), list(o)) for n in (2, 3, 4) for k in range(1, n + 1) for i in itertools.combinations(range(n), k) for o in itertools.combinations(range(n), k)]


def circuit(rng, n, inputs, outputs):
    """any circuit with these inputs and outputs; its own edges and measurements do not matter"""
    g = mp.GraphState()
    g.add_nodes_from(range(n))
    g.add_edges_from(gen.random_graph(rng, n))
    kw = {}
    if rng.random() < 0.4:
        ment = lambda: gen.choice(rng, [None, mp.Ment("X"), mp.Ment("XY"), mp.Ment(0.3, "YZ"), mp.Ment("Z"), mp.ControlMent(True, 0.2)])
        kw = dict(measurements={v: ment() for v in gen.shuffled(rng, range(n)) if rng.random() < 0.5})
    return mp.MBQCircuit(g, input_nodes=list(inputs), output_nodes=list(outputs), **kw)


@workload(len(SMALL), len(SMALL))
def enumerated(ctx, rng):
    n, i, o = SMALL[ctx.idx]
    i, o = gen.shuffled(rng, i), gen.shuffled(rng, o)
    ctx.describe(n=n, inputs=i, outputs=o)
    judge(ctx, rng, n, i, o, circuit(rng, n, i, o))


@workload(6, 60)
def five(ctx, rng):
    i, o = gen.random_io(rng, 5, kmax=3)
    if not i:
        i, o = [0], [4]
    ctx.describe(n=5, inputs=i, outputs=o)
    judge(ctx, rng, 5, i, o, circuit(rng, 5, i, o))


@workload(4, 12)
def refused(ctx, rng):
    n = int(rng.integers(8, 12))
    ctx.raises(UserWarning, lambda: FlowSpace(mp.templates.linear_cluster(n)), "a circuit with more than seven nodes")
    if ctx.idx < 2:
        judge(ctx, rng, 3, [0], [2], mp.templates.linear_cluster(3))
    ctx.event("refusals")
