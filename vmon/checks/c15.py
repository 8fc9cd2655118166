"""C15: stabilizers and entanglement entropy of graph states against state vectors."""
import numpy as np
import mentpy as mp
from mentpy.mbqc.states.graphstate import entanglement_entropy
from vmon import gen, ref
from vmon.core import workload

RULE = ("random graphs of up to 9 nodes (and, by the rank of the cut, of up to 160) with random node names and insertion orders (every graph of up to 4 nodes is enumerated); the "
        "tableau rows are applied to the state vector of the graph state, and the entropy is compared with the eigenvalues of the "
        "reduced state; relabelled copies must be equal, and graphs told apart by exact walk counts, also regular ones, different; non-trivial: at least two edges.")
ASSUMPTIONS = ["with two given subregions, the entropy is that of the first one after the remaining nodes are removed (measured in Z)"]
MIN_EVENTS = {"stabilizers": 800, "entropies": 500, "two_regions": 100, "large": 20, "edits": 150, "equal-pairs": 60, "different-pairs": 30}


def build(rng, n, edges):
    labels = gen.labels_for(rng, n) if rng.random() < 0.7 else [f"q{i}" for i in range(n)]
    g = mp.GraphState()
    names = gen.shuffled(rng, range(n))
    if rng.random() < 0.7:
        g.add_nodes_from([labels[i] for i in names])
    g.add_edges_from([(labels[u], labels[v]) if rng.random() < .5 else (labels[v], labels[u]) for u, v in gen.shuffled(rng, edges)])
    g.add_nodes_from([labels[i] for i in names])
    return gen.decorated(rng, g), labels


def judge_stab(ctx, g):
    nodes = list(g.nodes())
    n = len(nodes)
    edges = list(g.edges())
    psi = ref.graph_state(nodes, edges)
    S = g.stabilizers()
    ctx.check(len(S) == n and S.matrix.shape == (n, 2 * n), "number of stabilizers", shape=S.matrix.shape)
    xs = np.asarray(S.matrix)[:, :n].astype(int)
    zs = np.asarray(S.matrix)[:, n:].astype(int)
    for i, v in enumerate(nodes):
        txt = S[i].txt
        want = "".join("X" if u == v else "Z" if g.has_edge(u, v) else "I" for u in nodes)
        ctx.check(txt == want, "stabilizer of a node", node=v, got=txt, want=want)
        # apply the operator to the state
        w = psi.reshape((2,) * n)
        for q, ch in enumerate(txt):
            if ch != "I":
                w = np.moveaxis(np.tensordot(ref.PAULI[ch], w, axes=([1], [q])), 0, q)
        ctx.close(w.reshape(-1), psi, "the operator does not stabilise the graph state", node=str(v))
        ctx.event("stabilizers")
    ctx.check(not ((xs @ zs.T + zs @ xs.T) % 2).any(), "stabilizers do not commute")
    ctx.check(ref.gf2_rank([int("".join(map(str, r)), 2) for r in np.hstack([xs, zs])]) == n, "stabilizers are dependent")
    return psi


def entropy(psi, n, keep):
    m = psi.reshape((2,) * n).transpose(list(keep) + [q for q in range(n) if q not in keep]).reshape(2 ** len(keep), -1)
    p = np.linalg.svd(m, compute_uv=False) ** 2
    p = p[p > 1e-12]
    return float(-(p * np.log2(p)).sum())


def small_graphs():
    for n in range(1, 5):
        pairs = [(i, j) for i in range(n) for j in range(i)]
        for m in range(2 ** len(pairs)):
            yield n, [e for i, e in enumerate(pairs) if m >> i & 1]


SMALL = list(small_graphs())


@workload(len(SMALL), len(SMALL))
def enumerated(ctx, rng):
    n, edges = SMALL[ctx.idx]
    g, labels = build(rng, n, edges)
    psi = judge_stab(ctx, g)
    nodes = list(g.nodes())
    for mask in range(2 ** n):
        A = [q for q in range(n) if mask >> q & 1]
        ctx.close(entanglement_entropy(g, [nodes[q] for q in A]), entropy(psi, n, A), "entropy", subset=A, edges=edges)
        ctx.event("entropies")
    if len(edges) > 1:
        ctx.nontrivial(n, edges)


@workload(120, 3000)
def random_graphs(ctx, rng):
    n = int(rng.integers(2, 10))
    edges = gen.random_graph(rng, n)
    g, labels = build(rng, n, edges)
    nodes = list(g.nodes())
    ctx.describe(nodes=nodes, edges=list(g.edges()))
    psi = judge_stab(ctx, g)
    state = (list(g.nodes()), list(g.edges()))
    for _ in range(4):
        A = [int(q) for q in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
        arg = [nodes[q] for q in A]
        cont = gen.choice(rng, [list, set, tuple])
        a = cont(arg)
        want = entropy(psi, n, A)
        ctx.close(entanglement_entropy(g, a), want, "entropy", subset=arg)
        rest = [nodes[q] for q in range(n) if q not in A]
        ctx.close(entanglement_entropy(g, a, gen.shuffled(rng, rest)), want, "entropy with the complement given", subset=arg)
        ctx.close(entanglement_entropy(g, rest), want, "entropy of the complement", subset=arg)
        ctx.check(a == cont(arg), "the subregion was changed")
        ctx.event("entropies", 3)
    # two subregions that do not cover the graph
    for _ in range(2):
        lab = rng.integers(3, size=n)
        A = [q for q in range(n) if lab[q] == 0]
        B = [q for q in range(n) if lab[q] == 1]
        K = A + B
        sub = ref.graph_state(K, [(nodes.index(u), nodes.index(v)) for u, v in g.edges()
                                  if nodes.index(u) in K and nodes.index(v) in K]) if K else np.ones(1)
        a, b = [nodes[q] for q in A], [nodes[q] for q in B]
        ctx.close(entanglement_entropy(g, a, b), entropy(sub, len(K), list(range(len(A)))) if K else 0.0, "entropy of two subregions", A=a, B=b)
        ctx.event("two_regions")
    ctx.check(state == (list(g.nodes()), list(g.edges())), "the graph was changed")
    if len(edges) > 1:
        ctx.nontrivial(n, edges)


@workload(15, 250)
def large_graphs(ctx, rng):
    """up to 160 nodes: the tableau by its structure, the entropy as the GF(2) rank of the cut (an independent elimination)"""
    n = int(rng.integers(14, 71)) if rng.random() < .75 else int(rng.integers(130, 161))  # ranks beyond a machine word
    q = rng.random()
    if q < 0.3:
        edges = [(i, i + 1) for i in range(n - 1)]
    elif q < 0.5:
        w = int(rng.integers(2, 8))
        edges = [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)]
    else:
        p = gen.choice(rng, [1.5 / n, 4 / n, 0.3, 0.7])
        edges = [(i, j) for i in range(n) for j in range(i) if rng.random() < p]
    g, labels = build(rng, n, edges)
    nodes = list(g.nodes())
    ctx.describe(n=n, m=len(edges))
    ctx.check(g.index_mapping() == {v: i for i, v in enumerate(nodes)}, "index_mapping of a large graph")
    S = g.stabilizers()
    want = np.array([[int(u == v) for u in nodes] + [int(g.has_edge(u, v)) for u in nodes] for v in nodes])
    ctx.check(np.array_equal(np.asarray(S.matrix), want), "stabilizers of a large graph", n=n)
    k = int(rng.integers(n))
    ctx.check(S[k].txt == "".join("X" if u == nodes[k] else "Z" if g.has_edge(u, nodes[k]) else "I" for u in nodes), "stabilizer of a node")
    ctx.event("stabilizers", n)
    for _ in range(3):
        A = [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n)) if rng.random() < .6 else n // 2]]
        B = [v for v in range(n) if v not in set(A)]
        rows = [int("0" + "".join("1" if g.has_edge(nodes[a], nodes[b]) else "0" for b in B), 2) for a in A]
        ctx.close(entanglement_entropy(g, [nodes[a] for a in A]), float(ref.gf2_rank(rows)), "entropy of a large subset", n=n, size=len(A))
        C = B[:int(rng.integers(0, len(B) + 1))]
        rows = [int("0" + "".join("1" if g.has_edge(nodes[a], nodes[b]) else "0" for b in C), 2) for a in A]
        ctx.close(entanglement_entropy(g, [nodes[a] for a in A], [nodes[b] for b in C]), float(ref.gf2_rank(rows)),
                  "entropy of two large subregions", n=n, sizes=(len(A), len(C)))
        ctx.event("large")
    ctx.nontrivial(n, len(edges))


@workload(80, 1500)
def equality(ctx, rng):
    """== is graph isomorphism: relabelled copies are equal; graphs told apart by an invariant are not"""
    n = int(rng.integers(2, 10))
    edges = gen.random_graph(rng, n)
    r = int(rng.integers(4))
    if r == 0:                 # pairs with equal degrees (regular graphs) that are not isomorphic
        n, ea, eb = gen.choice(rng, REGULAR)
        edges, other = list(ea), list(eb)
    elif r == 1:               # a degree-preserving switch
        other = None
        for _ in range(20):
            if len(edges) < 2:
                break
            (a, b), (c, d) = [edges[int(i)] for i in rng.choice(len(edges), size=2, replace=False)]
            have = {frozenset(e) for e in edges}
            if len({a, b, c, d}) == 4 and frozenset((a, d)) not in have and frozenset((c, b)) not in have:
                other = [e for e in edges if set(e) not in ({a, b}, {c, d})] + [(a, d), (c, b)]
                break
    elif r == 2:               # one edge more or less
        e = tuple(int(x) for x in rng.choice(n, size=2, replace=False))
        other = [x for x in edges if set(x) != set(e)]
        other = other + [e] if len(other) == len(edges) else other
    else:                      # one node more
        other = list(edges)
    m = n + (r == 3)
    g, _ = build(rng, n, edges)
    p = gen.shuffled(rng, range(n))
    twin, _ = build(rng, n, [(p[u], p[v]) for u, v in edges])
    ctx.describe(n=n, edges=edges, other=other)
    ctx.check((g == twin) is True and (twin == g) is True and not (g != twin), "a relabelled copy is not equal")
    ctx.check(g.index_mapping() == {v: i for i, v in enumerate(list(g.nodes()))}, "index_mapping")
    ctx.check(len(g) == n, "len")
    ctx.event("equal-pairs")
    if other is None:
        return
    h, _ = build(rng, m, other)
    if invariant(n, edges) != invariant(m, other):
        ctx.check((g == h) is False and (h == g) is False and g != h, "different graphs are equal")
        ctx.event("different-pairs")
        ctx.nontrivial(n, edges, other)


def invariant(n, edges):
    """characteristic polynomials of the graph and of its complement, and the sizes of its components (exact integers)"""
    import networkx as nx
    g = nx.empty_graph(n)
    g.add_edges_from(edges)
    key = tuple(sorted(len(c) for c in nx.connected_components(g)))
    for h in (g, nx.complement(g)):
        A = np.asarray(nx.to_numpy_array(h), dtype=int).astype(object)
        P, tr = np.eye(n, dtype=int).astype(object), []
        for _ in range(n):
            P = P.dot(A)
            tr.append(int(sum(P[i, i] for i in range(n))))
        key += tuple(tr)
    return n, key


def cycle(*vs):
    return [(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))]


REGULAR = [
    (6, cycle(*range(6)), cycle(0, 1, 2) + cycle(3, 4, 5)),
    (8, cycle(*range(8)), cycle(0, 1, 2, 3) + cycle(4, 5, 6, 7)),
    (7, cycle(*range(7)), cycle(0, 1, 2) + cycle(3, 4, 5, 6)),
    (6, [(i, j) for i in range(3) for j in range(3, 6)], cycle(0, 1, 2) + cycle(3, 4, 5) + [(0, 3), (1, 4), (2, 5)]),
    (8, cycle(0, 1, 2, 3) + cycle(4, 5, 6, 7) + [(i, i + 4) for i in range(4)], cycle(*range(8)) + [(i, i + 4) for i in range(4)]),
    (10, cycle(0, 1, 2, 3, 4) + cycle(5, 7, 9, 6, 8) + [(i, i + 5) for i in range(5)], cycle(0, 1, 2, 3, 4) + cycle(5, 6, 7, 8, 9) + [(i, i + 5) for i in range(5)]),
]


@workload(15, 200)
def circuits(ctx, rng):
    """the same through the graph of a circuit"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, nmax=8))
    c = spec.make(mp, rng)
    judge_stab(ctx, c.graph)
    S, T = c.stabilizers(), c.graph.stabilizers()
    ctx.check(np.array_equal(np.asarray(S.matrix), np.asarray(T.matrix)), "stabilizers of a circuit are those of its graph")


@workload(60, 1500)
def edited(ctx, rng):
    """one graph edited over and over (the number of nodes and of edges often stays the same): every answer is about the
    graph as it is now, and what was returned earlier is the caller's own"""
    n = int(rng.integers(3, 8))
    g, labels = build(rng, n, gen.random_graph(rng, n))
    spare = [f"s{i}" for i in range(9)]
    log = []
    for step in range(int(rng.integers(4, 10))):
        nodes = list(g.nodes())
        op = gen.choice(rng, ["toggle", "move", "swap-node", "add-node", "own", "relabel"])
        if op in ("toggle", "move") and len(nodes) > 1:
            u, v = [nodes[int(i)] for i in rng.choice(len(nodes), size=2, replace=False)]
            if op == "move" and g.number_of_edges() and not g.has_edge(u, v):
                g.remove_edge(*list(g.edges())[int(rng.integers(g.number_of_edges()))])
                g.add_edge(u, v)
            elif g.has_edge(u, v):
                g.remove_edge(u, v)
            else:
                g.add_edge(u, v)
        elif op == "swap-node" and spare and len(nodes) > 2:
            v = nodes[int(rng.integers(len(nodes)))]
            nb = list(g.neighbors(v))
            g.remove_node(v)
            w = spare.pop()
            g.add_node(w)
            g.add_edges_from([(w, x) for x in nb])
        elif op == "add-node" and spare and len(nodes) < 9:
            g.add_node(spare.pop())
        elif op == "own":
            m = g.index_mapping()
            m[nodes[0]] = 99
            m["new"] = 3
            S = g.stabilizers()
            S.append(mp.PauliOp(gen.choice(rng, ["X", "Z", "Y"]) * len(nodes)))
            T = g.stabilizers()
            ctx.check(len(T) == len(nodes), "appending to the returned stabilizers changed later ones")
        elif op == "relabel":
            old = g.copy()
            ctx.check(type(old) is type(g) and list(old.nodes()) == nodes, "copy of a graph state")
            g, old = (old, g) if rng.random() < 0.5 else (g, old)
            if nodes:
                old.add_edge(nodes[0], "other")
        log.append(op)
        nodes = list(g.nodes())
        ctx.describe(log=log, nodes=nodes, edges=list(g.edges()))
        psi = judge_stab(ctx, g)
        ctx.check(g.index_mapping() == {v: i for i, v in enumerate(nodes)}, "index_mapping after an edit")
        ctx.check(len(g) == len(nodes), "len after an edit")
        A = [int(q) for q in rng.permutation(len(nodes))[:int(rng.integers(0, len(nodes) + 1))]]
        ctx.close(entanglement_entropy(g, [nodes[q] for q in A]), entropy(psi, len(nodes), A), "entropy after an edit", A=A)
        p = gen.shuffled(rng, range(len(nodes)))
        ix = {v: i for i, v in enumerate(nodes)}
        twin, _ = build(rng, len(nodes), [(p[ix[u]], p[ix[v]]) for u, v in g.edges()])
        ctx.check(g == twin, "an edited graph differs from a fresh one like it")
        twin.add_node("one more")
        ctx.check(g != twin, "an edited graph is equal to a larger one")
        ctx.event("edits")
    ctx.nontrivial(log, sorted(map(str, g.edges())))
