"""C18: local-Clifford equivalence against orbits of local complementation."""
import functools
import networkx as nx
import numpy as np
import mentpy as mp
from mentpy.utils import are_lc_equivalent, lc_cluster_flowspace
from vmon import gen, ref
from vmon.core import workload

RULE = ("all pairs of graphs of up to four nodes; random pairs of up to 12 nodes: related by random local complementations, "
        "one edge apart, or unrelated, decided by the whole orbit (up to 8 nodes) or by cut ranks; returned Cliffords are applied "
        "to the stabilizer space; non-trivial: both graphs have an edge.")
ASSUMPTIONS = ["the local Clifford acts on columns (z part, x part), as in the paper the code cites",
               "from 9 nodes on, pairs are only judged when they are related by construction or differ in a cut rank"]
MIN_EVENTS = {"pairs": 4000, "equivalent": 400, "different": 1500, "cliffords": 400, "clusterings": 10, "edits": 100}


def masks(n, edges):
    a = [0] * n
    for u, v in edges:
        a[u] |= 1 << v
        a[v] |= 1 << u
    return tuple(a)


def edges_of(adj):
    return [(u, v) for u in range(len(adj)) for v in range(u) if adj[u] >> v & 1]


@functools.lru_cache(maxsize=64)
def orbit(adj):
    return frozenset(ref.lc_orbit(adj))


def build(rng, adj, labels, kind):
    g = (mp.GraphState if kind == "state" else nx.Graph)()
    g.add_nodes_from([labels[i] for i in gen.shuffled(rng, range(len(adj)))])
    g.add_edges_from([(labels[u], labels[v]) for u, v in gen.shuffled(rng, edges_of(adj))])
    return gen.decorated(rng, g)


def matrix(adj):
    n = len(adj)
    return np.array([[adj[i] >> j & 1 for j in range(n)] for i in range(n)], dtype=int)


def check_clifford(ctx, A, B, tensors, glob):
    n = len(A)
    if tensors is not None:
        ctx.check(len(tensors) == n, "number of local Cliffords", got=len(tensors))
        Q = np.zeros((2 * n, 2 * n), dtype=int)
        for k, t in enumerate(tensors):
            t = np.asarray(t)
            ctx.check(t.shape == (2, 2) and set(np.unique(t)) <= {0, 1}, "a local Clifford is not a binary 2x2 matrix", t=t)
            ctx.check((t[0, 0] * t[1, 1] + t[0, 1] * t[1, 0]) % 2 == 1, "a local Clifford is not invertible", qubit=k, t=t)
            for i in range(2):
                for j in range(2):
                    Q[k + i * n, k + j * n] = t[i, j]
    else:
        Q = np.asarray(glob)
        ctx.check(Q.shape == (2 * n, 2 * n), "shape of the global Clifford", got=Q.shape)
        for i in range(2 * n):
            for j in range(2 * n):
                ctx.check(Q[i, j] in (0, 1) and (Q[i, j] == 0 or i % n == j % n), "the global Clifford is not local", Q=Q)
        for k in range(n):
            ctx.check((Q[k, k] * Q[k + n, k + n] + Q[k, k + n] * Q[k + n, k]) % 2 == 1, "the global Clifford is not invertible", qubit=k)
    S = Q @ np.vstack([matrix(A), np.eye(n, dtype=int)]) % 2        # columns: images of the generators
    T = np.vstack([matrix(B), np.eye(n, dtype=int)])
    both = [int("".join(map(str, c)), 2) for c in np.hstack([S, T]).T]
    ctx.check(ref.gf2_rank(both[:n]) == n and ref.gf2_rank(both) == n,
              "the Clifford does not map the stabilizers of the first graph to those of the second", A=edges_of(A), B=edges_of(B))
    ctx.event("cliffords")


def judge(ctx, rng, A, B, want, kind=None, pair=None):
    n = len(A)
    kind = kind or gen.choice(rng, ["state", "nx"])
    labels = list(range(n)) if rng.random() < 0.6 else gen.labels_for(rng, n)
    g, h = pair or (build(rng, A, labels, kind), build(rng, B, labels, kind))
    form = gen.choice(rng, ["tensor", "global", None])
    got, cl = are_lc_equivalent(g, h) if form is None else are_lc_equivalent(g, h, form)
    ctx.check(bool(got) == want, "wrong answer", A=edges_of(A), B=edges_of(B), got=got, want=want)
    ctx.event("pairs")
    ctx.event("equivalent" if want else "different")
    if want:
        check_clifford(ctx, A, B, cl if form != "global" else None, cl if form == "global" else None)
    else:
        ctx.check(cl is None, "a Clifford was returned for graphs that are not equivalent")
    if any(A) and any(B):
        ctx.nontrivial(A, B)
    return cl


def all_graphs(n):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    return [masks(n, [e for i, e in enumerate(pairs) if m >> i & 1]) for m in range(2 ** len(pairs))]


@workload(75, 75)
def enumerated(ctx, rng):
    """one graph against all others with as many nodes"""
    todo = [(n, i) for n in (1, 2, 3, 4) for i in range(2 ** (n * (n - 1) // 2))]
    n, i = todo[ctx.idx]
    gs = all_graphs(n)
    for B in gs:
        judge(ctx, rng, gs[i], B, B in orbit(gs[i]))


def random_adj(rng, n):
    r = rng.random()
    if r < 0.2:
        return masks(n, [(i, i + 1) for i in range(n - 1)])
    if r < 0.3:
        return masks(n, [(i, (i + 1) % n) for i in range(n)])
    if r < 0.4:
        return masks(n, [(0, i) for i in range(1, n)])
    return masks(n, gen.random_graph(rng, n, p=float(rng.uniform(0.2, 0.8))))


def scrambled(rng, A, steps):
    for _ in range(steps):
        A = ref.local_complement(A, int(rng.integers(len(A))))
    return A


def permuted(rng, A):
    p = [int(v) for v in rng.permutation(len(A))]
    return masks(len(A), [(p[u], p[v]) for u, v in edges_of(A)])


def cut_rank(A, S):
    n = len(A)
    out = sum(1 << v for v in range(n) if v not in S)
    return ref.gf2_rank([A[v] & out for v in S])


@workload(220, 2500)
def random_pairs(ctx, rng):
    n = int(gen.choice(rng, [5, 6, 6, 7, 7, 8]))
    A = random_adj(rng, n)
    r = rng.random()
    if r < 0.35:
        B = scrambled(rng, A, int(rng.integers(1, 15)))
    elif r < 0.6:
        B = scrambled(rng, A, int(rng.integers(0, 15)))
        u, v = (int(x) for x in rng.choice(n, 2, replace=False))
        B = tuple(b ^ (1 << v if i == u else 0) ^ (1 << u if i == v else 0) for i, b in enumerate(B))
    elif r < 0.85:
        B = scrambled(rng, permuted(rng, A), int(rng.integers(0, 5)))
    else:
        B = random_adj(rng, n)
    ctx.describe(A=edges_of(A), B=edges_of(B))
    judge(ctx, rng, A, B, B in orbit(A))
    judge(ctx, rng, B, A, B in orbit(A))


@workload(30, 600)
def larger(ctx, rng):
    n = int(rng.integers(9, 13))
    A = random_adj(rng, n)
    judge(ctx, rng, A, scrambled(rng, A, int(rng.integers(1, 30))), True)
    B = permuted(rng, scrambled(rng, A, 5))
    for m in range(1, 2 ** n):
        S = [v for v in range(n) if m >> v & 1]
        if len(S) <= 3 and cut_rank(A, S) != cut_rank(B, S):
            judge(ctx, rng, A, B, False)
            break


@workload(10, 100)
def shapes(ctx, rng):
    g, h = nx.path_graph(int(rng.integers(1, 6))), nx.path_graph(6)
    ctx.check(are_lc_equivalent(g, h) == (False, None), "graphs of different sizes")
    empty = nx.Graph()
    ctx.check(not are_lc_equivalent(empty, g)[0] and not are_lc_equivalent(g, empty)[0], "the empty graph and another one")
    # circuits are accepted as well
    n = int(rng.integers(2, 6))
    c, d = mp.templates.linear_cluster(n), mp.templates.linear_cluster(n)
    ctx.check(are_lc_equivalent(c, d)[0] is True or bool(are_lc_equivalent(c, d)[0]), "a circuit and itself")


@workload(12, 200)
def clusters(ctx, rng):
    n = int(rng.integers(2, 7))
    deg = nx.Graph()
    pool = [random_adj(rng, n) for _ in range(int(gen.choice(rng, [4, 12])))]
    adjs = {}
    for i in range(int(rng.integers(1, 25))):
        A = scrambled(rng, gen.choice(rng, pool), int(rng.integers(0, 6)))
        g = build(rng, A, list(range(n)), "state")
        c = mp.MBQCircuit(g, input_nodes=[], output_nodes=[])
        key = f"c{i}" if rng.random() < .5 else i
        deg.add_node(key, mbqc_circuit=c)
        adjs[key] = A
    sc = bool(rng.integers(2))
    ind, groups = lc_cluster_flowspace(deg, sanity_check=sc) if rng.random() < .7 else lc_cluster_flowspace(deg)
    ctx.check(sorted(map(str, sum(ind.values(), []))) == sorted(map(str, adjs)), "the clusters do not partition the circuits", got=ind)
    ctx.check(set(ind) == set(groups), "keys of clusters")
    for k in ind:
        ctx.check(len(ind[k]) == len(groups[k]), "cluster sizes")
        for key, g in zip(ind[k], groups[k]):
            ctx.check(set(map(frozenset, g.edges())) == set(map(frozenset, edges_of(adjs[key]))), "graph of a clustered circuit")
    where = {key: k for k, v in ind.items() for key in v}
    for a in adjs:
        for b in adjs:
            ctx.check((where[a] == where[b]) == (adjs[b] in orbit(adjs[a])), "clusters are not the equivalence classes",
                      a=edges_of(adjs[a]), b=edges_of(adjs[b]))
    ctx.event("clusterings")


@workload(40, 800)
def edited(ctx, rng):
    """the same two graph objects, edited between the questions; the returned Cliffords are the caller's own"""
    n = int(rng.integers(3, 7))
    kind = gen.choice(rng, ["state", "nx"])
    labels = list(range(n)) if rng.random() < 0.6 else gen.labels_for(rng, n)
    A = random_adj(rng, n)
    B = scrambled(rng, A, int(rng.integers(0, 6)))
    g, h = build(rng, A, labels, kind), build(rng, B, labels, kind)
    for _ in range(int(rng.integers(3, 8))):
        ctx.describe(A=edges_of(A), B=edges_of(B), labels=labels)
        cl = judge(ctx, rng, A, B, B in orbit(A), kind, (g, h))
        for t in ([] if cl is None else cl):
            np.asarray(t)[...] = 1
        ctx.event("edits")
        u, v = (int(x) for x in rng.choice(n, 2, replace=False))
        r = rng.random()
        if r < 0.5:             # a local complementation of the second graph
            new = ref.local_complement(B, u)
            toggle = [e for e in edges_of([a ^ b for a, b in zip(B, new)])]
            B, x = new, h
        elif r < 0.75:
            toggle, x = [(u, v)], h
            B = masks(n, edges_of([b ^ c for b, c in zip(B, masks(n, toggle))]))
        else:
            toggle, x = [(u, v)], g
            A = masks(n, edges_of([b ^ c for b, c in zip(A, masks(n, toggle))]))
        for a, b in toggle:
            if x.has_edge(labels[a], labels[b]):
                x.remove_edge(labels[a], labels[b])
            else:
                x.add_edge(labels[a], labels[b])
