"""C11: templates."""
import hashlib
import functools
import itertools
import numpy as np
import networkx as nx
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("every template over a sweep of sizes and options: exact graph (in wire coordinates), inputs, outputs, flow, "
        "measurements and trainable nodes; J-gate products of linear_cluster and many_wires through every backend; every "
        "Pauli string up to 3 qubits (4 in the thorough tier) for from_pauli, as the linear map of the returned circuit (random ones up to 7 qubits on a random state) and through "
        "the density-matrix simulator; non-trivial: more than one wire, layer or non-identity factor.")
ASSUMPTIONS = ["the sign of the rotation of from_pauli depends on the number of Y factors modulo 4 (as in the property)"]
QUICK_SCALE = 1
MIN_EVENTS = {"structures": 60, "j-products": 30, "paulis": 80, "pauli-runs": 12, "long-paulis": 12, "refused": 20, "very-long": 2, "built-again": 20}

T = mp.templates


def J(a):
    return ref.H @ np.diag([1, np.exp(-1j * a)])


def kind(m):
    return None if m is None else (m.plane, m.angle)


def colours(g):
    """colour refinement (hashable colours that two isomorphic graphs share)"""
    col = {v: ref_hash((g.nodes[v]["tag"], g.nodes[v]["kind"])) for v in g}
    k = len(set(col.values()))
    while True:
        col = {v: ref_hash((col[v], sorted(col[w] for w in g[v]))) for v in g}
        k2 = len(set(col.values()))
        if k2 == k:
            return col
        k = k2


def ref_hash(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def check_wires(ctx, circ, lengths, extra, meas, gadgets=(), trainable=True):
    """The circuit consists of wires with the given lengths, edges `extra` between
    coordinates, and gadgets: (list of coordinates, kinds of the two gadget nodes)."""
    g = nx.Graph(circ.graph.edges)
    g.add_nodes_from(circ.graph.nodes)
    n = sum(lengths) + 2 * len(gadgets)
    ctx.check(len(g) == n, "number of nodes", got=len(g), want=n)
    ctx.check(len(circ.input_nodes) == len(lengths) and len(circ.output_nodes) == len(lengths), "number of inputs or outputs")
    want = nx.Graph()
    for w, l in enumerate(lengths):
        for p in range(l):
            want.add_node((w, p), tag=("in", w) if p == 0 else ("out", w) if p == l - 1 else None, kind=meas.get((w, p)))
        want.add_edges_from(((w, p), (w, p + 1)) for p in range(l - 1))
    want.add_edges_from(extra)
    for i, (att, k1, k2) in enumerate(gadgets):
        want.add_node(("hub", i), tag=None, kind=k1)
        want.add_node(("leaf", i), tag=None, kind=k2)
        want.add_edge(("hub", i), ("leaf", i))
        want.add_edges_from((("hub", i), a) for a in att)
    tags = {v: ("in", i) for i, v in enumerate(circ.input_nodes)}
    for i, v in enumerate(circ.output_nodes):
        ctx.check(v not in tags, "an input is an output")
        tags[v] = ("out", i)
    for v in g:
        g.nodes[v]["tag"] = tags.get(v)
        g.nodes[v]["kind"] = kind(circ[v])
    cg, cw = colours(g), colours(want)
    ctx.check(sorted(cg.values()) == sorted(cw.values()), "not the documented graph", got=sorted(map(sorted, g.edges)))
    nx.set_node_attributes(g, cg, "col")
    nx.set_node_attributes(want, cw, "col")
    gm = nx.isomorphism.GraphMatcher(g, want, node_match=lambda a, b: a["col"] == b["col"])
    ctx.check(g.number_of_edges() == want.number_of_edges(), "number of edges", got=g.number_of_edges(), want=want.number_of_edges())
    ctx.check(gm.is_isomorphic(), "not the documented graph", got=sorted(map(sorted, g.edges)))
    if not trainable:
        return dict(gm.mapping)
    tr = {v for v in g if circ[v] is not None and circ[v].is_trainable()}
    ctx.check(set(circ.trainable_nodes) == tr and len(circ.trainable_nodes) == len(tr), "trainable nodes")
    ctx.event("structures")
    return {v: k for v, k in gm.mapping.items()}


def exact(ctx, circ, n, edges, inputs, outputs, meas=None):
    """labels are documented as well"""
    ctx.check(sorted(circ.graph.nodes) == list(range(n)), "nodes", got=list(circ.graph.nodes))
    ctx.check({frozenset(e) for e in circ.graph.edges} == {frozenset(e) for e in edges}, "edges", got=sorted(circ.graph.edges))
    ctx.check(list(circ.input_nodes) == inputs and list(circ.output_nodes) == outputs, "inputs or outputs")
    for v in range(n):
        want = (meas or {}).get(v, None if v in outputs else ("XY", None))
        ctx.check(kind(circ[v]) == want, "measurement", v=v, got=str(circ[v]))
    ctx.check(set(circ.trainable_nodes) == {v for v in range(n) if kind(circ[v]) == ("XY", None)}, "trainable nodes")
    ctx.event("structures")


@workload(60, 1500)
def wires(ctx, rng):
    long = rng.random() < 0.15
    if rng.random() < 0.4:
        n = int(rng.integers(10, 26)) if long else int(rng.integers(2, 10))
        lens = [n]
        mk = lambda **kw: T.linear_cluster(n, **kw)
    else:
        lens = [int(x) for x in rng.integers(2, 8 if long else 5, size=int(rng.integers(1, 4) if rng.random() < .8 else rng.integers(4, 9)))]
        mk = lambda **kw: T.many_wires(lens if rng.random() < .7 else tuple(lens), **kw)
    off = [sum(lens[:i]) for i in range(len(lens))]
    N = sum(lens)
    edges = [(o + j, o + j + 1) for o, l in zip(off, lens) for j in range(l - 1)]
    outs = [o + l - 1 for o, l in zip(off, lens)]
    kw, meas = {}, {}
    if rng.random() < 0.4:
        for v in range(N):
            if v not in outs and rng.random() < 0.5:
                meas[v] = ("XY", gen.angle(rng)) if rng.random() < .5 else (gen.choice(rng, ["X", "Y"]), 0)
        kw = dict(measurements={v: mp.Ment(a, p) if p == "XY" else mp.Ment(p) for v, (p, a) in meas.items()})
    ctx.describe(lens=lens, meas=meas)
    circ = mk(**kw)
    exact(ctx, circ, N, edges, off, outs, meas)
    ctx.check({v: circ.flow(v) for v in range(N) if v not in outs} == {v: v + 1 for v in range(N) if v not in outs}, "flow")
    ctx.check(circ.depth == max(lens) - 1, "depth", got=circ.depth)
    angs = {v: gen.angle(rng) for v in circ.trainable_nodes}
    eff = {v: angs.get(v, meas.get(v, (None, 0))[1]) if meas.get(v, ("XY",))[0] == "XY" else {"X": 0, "Y": np.pi / 2}[meas[v][0]]
           for v in range(N) if v not in outs}
    U = ref.kron(*[np.linalg.multi_dot([J(eff[v]) for v in reversed(range(o, o + l - 1))] + [ref.I2]) for o, l in zip(off, lens)])
    if gen.window(circ) > 8:
        return
    psi_arg, psi = gen.input_state(rng, len(lens))
    b = gen.choice(rng, ["numpy-sv", "numpy-dm"] + (["pennylane"] if N <= 6 else []))
    out = mp.PatternSimulator(circ, psi_arg, backend=b).run([angs[v] for v in circ.trainable_nodes])
    ctx.close(out, ref.density(U @ psi), f"{b}: not the product of J gates", 1e-6)
    ctx.event("j-products")
    ctx.nontrivial(lens, meas, sorted(angs.items()))


@workload(30, 300)
def built_again(ctx, rng):
    """a template is a circuit of the caller's own: editing it leaves the next one with the same arguments as documented"""
    r = ctx.idx % 6
    a, b = int(rng.integers(2, 4)), int(rng.integers(3, 5))
    per = bool(rng.integers(2))
    lens = [int(x) for x in rng.integers(2, 5, size=a)]
    P = "".join(gen.choice(rng, "IXYZ") for _ in range(a - 1)) + gen.choice(rng, "XYZ")
    mk = [lambda: T.linear_cluster(b), lambda: T.many_wires(list(lens)), lambda: T.grid_cluster(a, b, periodic=per), lambda: T.muta(min(a, 2), 1),
          lambda: T.spturb(4, 1), lambda: T.from_pauli(mp.PauliOp(P))][r]
    ctx.describe(template=r, a=a, b=b, periodic=per, lens=lens, P=P)
    look = lambda c: (list(c.graph.nodes), {frozenset(e) for e in c.graph.edges}, list(c.input_nodes), list(c.output_nodes),
                      {v: kind(c[v]) for v in c.graph.nodes}, set(c.trainable_nodes), list(c.quantum_output_nodes), c.measurement_order)
    c = mk()
    first = look(c)
    for _ in range(3):
        v = gen.choice(rng, list(c.graph.nodes))
        w = gen.choice(rng, list(c.graph.nodes))
        k = rng.integers(3)
        if k == 0:
            c[v] = mp.Ment(0.25, "XY")
        elif k == 1:
            del c[v]
        elif v != w:
            try:
                c.add_edge(v, w)
            except ValueError:
                pass
    c[c.outputc[0]] = mp.Ment(0.125, "YZ")
    ctx.check(look(mk()) == first, "editing a template changed the next one with the same arguments")
    ctx.event("built-again")
    ctx.nontrivial("again", r, a, b, tuple(lens), P)


@workload(5, 30)
def very_long(ctx, rng):
    """wires of hundreds or thousands of nodes"""
    k = 1 + ctx.idx % 2
    lens = [int(rng.integers(150, 1800 if k == 1 else 500)) for _ in range(k)]
    off = [sum(lens[:i]) for i in range(k)]
    edges = [(o + j, o + j + 1) for o, l in zip(off, lens) for j in range(l - 1)]
    outs = [o + l - 1 for o, l in zip(off, lens)]
    ctx.describe(lens=lens)
    circ = T.linear_cluster(lens[0]) if k == 1 else T.many_wires(lens)
    exact(ctx, circ, sum(lens), edges, off, outs)
    ctx.check(circ.depth == max(lens) - 1 and all(circ.flow(v) == v + 1 for v in circ.outputc), "flow or depth")
    angs = {v: gen.angle(rng) for v in circ.trainable_nodes}
    psi = [gen.haar(rng, 1) for _ in lens]
    want = []
    for o, l, x in zip(off, lens, psi):
        for v in range(o, o + l - 1):
            x = J(angs[v]) @ x
        want.append(x)
    if gen.window(circ) > 8:
        return
    out = mp.PatternSimulator(circ, functools.reduce(np.kron, psi), backend="numpy-sv").run([angs[v] for v in circ.trainable_nodes])
    ctx.close(out, ref.density(functools.reduce(np.kron, want)), "not the product of J gates", 1e-6)
    ctx.event("very-long")
    ctx.nontrivial(lens, k)


@workload(40, 300)
def grids(ctx, rng):
    n, m = (int(rng.integers(1, 6)), int(rng.integers(2, 7))) if rng.random() < .85 else (int(rng.integers(1, 10)), int(rng.integers(7, 15)))
    per = bool(rng.integers(2))
    ctx.describe(n=n, m=m, periodic=per)
    kw = {}
    if rng.random() < 0.3:
        kw = dict(default_measurement=mp.Ment("X")) if rng.random() < 0.5 else dict(measurements={v: mp.Ment("X") for v in range(n * m) if v % m != m - 1})
    circ = T.grid_cluster(n, m, periodic=per, **kw) if per or rng.random() < .5 else T.grid_cluster(n, m, **kw)
    edges = {frozenset((i * m + j, i * m + j + 1)) for i in range(n) for j in range(m - 1)}
    edges |= {frozenset((i * m + j, (i + 1) * m + j)) for i in range(n - 1) for j in range(m)}
    if per and n > 1:
        edges |= {frozenset((j, (n - 1) * m + j)) for j in range(m)}
    exact(ctx, circ, n * m, [tuple(e) for e in edges], [i * m for i in range(n)], [i * m + m - 1 for i in range(n)],
          {v: ("X", 0) for v in range(n * m) if v % m != m - 1} if kw else None)
    ctx.check(circ.flow is not None and all(circ.flow(v) == v + 1 for v in range(n * m) if v % m != m - 1), "flow of a grid")
    ctx.nontrivial(n, m, per)


@workload(34, 70)
def muta(ctx, rng):
    opts = [(n, l, oc) for n in (1, 2, 3, 4) for l in (1, 2, 3) for oc in (False, True)] + [(1, 6, False), (2, 4, False), (2, 6, True), (3, 4, True), (1, 9, True), (5, 1, False)]
    n, l, oc = opts[ctx.idx % len(opts)]
    if n == 4 and l == 3 and not oc and ctx.idx < 34:
        return
    ctx.describe(n=n, layers=l, one_column=oc)
    circ = T.muta(n, l, one_column=oc) if oc else T.muta(n, l)
    per = 1 if oc else n
    blocks = [(b, (0 if oc else b % n)) for b in range(per * l)]
    L = 4 * per * l + 1
    extra = set()
    for b, w in blocks:
        for o in range(n):
            if o != w:
                extra |= {((w, 4 * b + 1), (o, 4 * b)), ((w, 4 * b + 1), (o, 4 * b + 2))}
    meas = {(w, p): ("XY", None) for w in range(n) for p in range(L - 1)}
    single = n == 1 and l == 1   # muta(1, 1) keeps the last node out of the trainable ones (see DESIGN)
    m = check_wires(ctx, circ, [L] * n, extra, meas, trainable=not single)
    ctx.check(circ.flow is not None, "no flow")
    ctx.check(all(m[circ.flow(v)] == (m[v][0], m[v][1] + 1) for v in m if v not in circ.output_nodes) or
              ref.causal_layers(list(circ.graph.nodes), list(circ.graph.edges), circ.input_nodes, circ.output_nodes)[0]
              == {v: circ.flow(v) for v in m if v not in circ.output_nodes}, "flow does not follow the wires")
    ctx.check(single or len(circ.trainable_nodes) == n * (L - 1), "number of trainable nodes")
    ctx.nontrivial(n, l, oc)


@workload(10, 16, cpu=600)
def spturb(ctx, rng):
    # building these circuits is slow: the library searches a generalised flow after every block
    opts = [(4, 2, False), (4, 1, True), (5, 1, False), (4, 1, False), (5, 0, True), (5, 1, True), (4, 3, False), (4, 0, False), (6, 1, False), (9, 0, False),
            (6, 2, False), (5, 2, True), (7, 1, False), (4, 2, True), (12, 0, True), (8, 1, True)]
    n, l, per = opts[ctx.idx % len(opts)]
    ctx.describe(n=n, layers=l, periodic=per)
    circ = T.spturb(n, l, periodic=per)
    pos = [2] * n
    meas = {(w, p): ("X", 0) if p == 0 else ("XY", None) for w in range(n) for p in (0, 1)}
    gad = []
    nb = n if per else n - 2
    for layer in range(l):
        if layer:
            for w in range(n):
                meas[(w, pos[w])], meas[(w, pos[w] + 1)] = ("X", 0), ("XY", None)
                pos[w] += 2
        for k in (0, 1):
            for i in range(nb):
                a, b = i, (i + 2) % n
                for w in (a, b):
                    for o in range(4):
                        meas[(w, pos[w] + o)] = ("Y", 0) if k and o % 2 else ("X", 0)
                gad.append(([(a, pos[a] + 2), (b, pos[b] + 2)], ("X", 0), ("XY", None)))
                pos[a] += 4
                pos[b] += 4
    check_wires(ctx, circ, [p + 1 for p in pos], [], meas, gad)
    ctx.check(len(circ.trainable_nodes) == n * max(l, 1) + 2 * nb * l, "number of trainable nodes", got=len(circ.trainable_nodes))
    ctx.nontrivial(n, l, per)


def strings():
    return ["".join(s) for k in (1, 2, 3) for s in itertools.product("IXYZ", repeat=k)] + ["".join(s) for s in itertools.product("IXYZ", repeat=4)]


@workload(84 + 16, 84 + 256)
def from_pauli(ctx, rng):
    i = ctx.idx if ctx.idx < 84 else (84 + (int(rng.integers(256)) if ctx.idx < 100 else ctx.idx - 84))
    s = strings()[min(i, 339)]
    k = len(s)
    circ = T.from_pauli(mp.PauliOp(s))
    ctx.describe(pauli=s)
    n = 3 * k + 2
    hub = 3 * k
    edges = [(3 * q + j, 3 * q + j + 1) for q in range(k) for j in (0, 1)] + [(hub, hub + 1)]
    edges += [(3 * q + 1, hub) for q in range(k) if s[q] in ("X", "Y")] + [(3 * q, hub) for q in range(k) if s[q] in ("Z", "Y")]
    del edges      # the graph is an implementation choice: only the map counts
    ctx.check(len(circ.input_nodes) == k and len(circ.output_nodes) == k, "number of inputs or outputs")
    ctx.check(len(circ.trainable_nodes) == 1, "one angle")
    t = gen.angle(rng)
    nodes, edges = list(circ.graph.nodes), list(circ.graph.edges)
    kets = {v: ref.ket(circ[v].plane, t if circ[v].angle is None else circ[v].angle) for v in nodes if circ[v] is not None}
    M = np.array([ref.project(nodes, edges, circ.input_nodes, np.eye(2 ** k)[c], kets, circ.quantum_output_nodes) for c in range(2 ** k)]).T
    sign = 1 if s.count("Y") % 4 in (0, 3) else -1
    U = ref.expm_pauli(s, sign * t / 2)
    ctx.check(ref.same_ray(M, U, 1e-7), "from_pauli does not compute the rotation", pauli=s, t=t)
    ctx.event("paulis")
    if k <= 2 and set(s) != {"I"}:
        psi_arg, psi = gen.input_state(rng, k)
        sched = list(circ.input_nodes) + [v for v in nodes if v not in circ.input_nodes]
        b = gen.choice(rng, ["numpy-sv", "numpy-dm"]) if k == 1 else "numpy-sv"
        out = mp.PatternSimulator(circ, psi_arg, backend=b, schedule=sched, window_size=len(nodes)).run([t])
        ctx.close(out, ref.density(U @ psi), "simulated from_pauli", 1e-6)
        ctx.event("pauli-runs")
    if set(s) != {"I"}:
        ctx.nontrivial(s, t)


@workload(24, 300)
def from_pauli_long(ctx, rng):
    """four to seven qubits, on a random state"""
    k = 4 + ctx.idx % 4
    s = "".join(gen.choice(rng, "XYZ") if rng.random() < 0.7 else "I" for _ in range(k))
    s = gen.choice(rng, [s, s, "Y" * k, s[:-1] + "Y", s[:-2] + "YY"])
    circ = T.from_pauli(mp.PauliOp(s))
    t = gen.angle(rng)
    ctx.describe(pauli=s, t=t)
    nodes, edges = list(circ.graph.nodes), list(circ.graph.edges)
    ctx.check(len(circ.input_nodes) == k and len(circ.output_nodes) == k and len(circ.trainable_nodes) == 1, "inputs, outputs or angles")
    kets = {v: ref.ket(circ[v].plane, t if circ[v].angle is None else circ[v].angle) for v in nodes if circ[v] is not None}
    psi = gen.haar(rng, k)
    out = ref.project(nodes, edges, circ.input_nodes, psi, kets, circ.quantum_output_nodes)
    sign = 1 if s.count("Y") % 4 in (0, 3) else -1
    ctx.check(ref.same_ray(out, ref.expm_pauli(s, sign * t / 2) @ psi, 1e-7), "from_pauli does not compute the rotation")
    ctx.event("long-paulis")
    ctx.nontrivial(s, t)


@workload(30, 100)
def refusals(ctx, rng):
    r = ctx.idx % 3
    if r == 0:
        w = [int(x) for x in rng.integers(2, 5, size=3)]
        w[int(rng.integers(3))] = gen.choice(rng, [1, 0, -2, 2.5, "3", None])
        ctx.raises(ValueError, lambda: T.many_wires(w), f"many_wires({w})")
    elif r == 1:
        ctx.raises(ValueError, lambda: T.spturb(int(rng.integers(0, 4)), 1), "spturb with fewer than four qubits")
    else:
        k = int(rng.integers(1, 4))
        p = mp.PauliOp([ "".join(rng.choice(list("IXYZ"), size=k)) for _ in range(int(rng.integers(2, 4)))])
        ctx.raises(ValueError, lambda: T.from_pauli(p), "several Pauli operators")
    ctx.event("refused")
