"""C08: hstack, vstack and merge compose the maps of their parts."""
import numpy as np
import networkx as nx
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload
from vmon.checks import c03

RULE = ("pairs and lists of 2-7 random flow circuits (permuted labels, shared input/output nodes, with and without "
        "relabelling), joined by hstack, vstack or merge along random pairs; the joined circuit is simulated and "
        "compared with the contraction of the parts' linear maps computed by the reference; controlled and measured "
        "parts are judged along their recorded outcome history; non-trivial: every part measures something or has an edge.")
ASSUMPTIONS = ["when both joined sides carry an edge between the same two wires the joined graph keeps it once "
               "(documented in the property); such pairs are checked structurally only"]
MIN_EVENTS = {"hstack": 60, "vstack": 60, "merge": 60, "lists": 60, "five-or-more": 15, "controlled-parts": 15, "refused": 40, "structure": 20}


def tensor(spec, angles=None, tr=None):
    """linear map as a tensor: output legs, then input legs"""
    k = len(spec.inputs)
    cols = [spec.expected(np.eye(2 ** k)[i], angles, tr) for i in range(2 ** k)]
    o = len(spec.quantum_outputs())
    return np.array(cols).T.reshape((2,) * (o + k))


class Part:
    """a circuit as a tensor with named legs"""

    def __init__(self, T, outs, ins):
        self.T, self.outs, self.ins = T, outs, ins


def part(spec, tag, angles, tr):
    return Part(tensor(spec, angles, tr), [(tag, "o", v) for v in spec.outputs], [(tag, "i", v) for v in spec.inputs])


def join(a, b, pairs):
    """pairs: list of (position in a.outs, position in b.ins)"""
    na, nb = len(a.outs), len(b.outs)
    T = np.tensordot(a.T, b.T, axes=([i for i, _ in pairs], [nb + j for _, j in pairs]))
    legs = [("o", x) for i, x in enumerate(a.outs) if i not in [p for p, _ in pairs]] + [("i", x) for x in a.ins]
    legs += [("o", x) for x in b.outs] + [("i", x) for j, x in enumerate(b.ins) if j not in [q for _, q in pairs]]
    ins = list(a.ins) + [x for j, x in enumerate(b.ins) if j not in [q for _, q in pairs]]
    outs = []
    used = set()
    d = dict(pairs)
    for i, x in enumerate(a.outs):
        if i in d:
            outs.append(b.outs[d[i]])
            used.add(d[i])
        else:
            outs.append(x)
    outs += [x for j, x in enumerate(b.outs) if j not in used]
    T = np.transpose(T, [legs.index(("o", x)) for x in outs] + [legs.index(("i", x)) for x in ins])
    return Part(T, outs, ins)


def snapshot(c):
    return (list(c.graph.nodes), sorted(map(sorted, c.graph.edges)), list(c.input_nodes), list(c.output_nodes),
            {v: (c[v], str(c[v]), gen.truth(c[v]) if isinstance(c[v], mp.ControlMent) else None) for v in c.graph.nodes},
            list(c.trainable_nodes), c.measurement_order)


def unchanged(ctx, parts, before):
    for c, b in zip(parts, before):
        a = snapshot(c)
        ctx.check(all(x == y for x, y in zip(a[:4] + a[5:], b[:4] + b[5:])) and all(a[4][v][0] is b[4][v][0] and a[4][v][1:] == b[4][v][1:] for v in b[4]),
                  "stacking modified an argument")


def evaluate(ctx, rng, circ, want, angles, msg):
    n = len(circ.graph)
    ctx.check(len(circ.input_nodes) == len(want.ins) and len(circ.output_nodes) == len(want.outs), msg + ": number of inputs or outputs",
              ins=circ.input_nodes, outs=circ.output_nodes)
    ctx.check(len(circ.trainable_nodes) == len(angles), msg + ": number of trainable nodes", got=circ.trainable_nodes)
    ctx.check(sorted(circ.graph.nodes) == list(range(n)), msg + ": node names")
    k, o = len(want.ins), len(want.outs)
    psi_arg, psi = gen.input_state(rng, k)
    exp = want.T.reshape(2 ** o, 2 ** k) @ psi
    if np.linalg.norm(exp) < 1e-6:
        return
    kw = {}
    if circ.flow is None:
        first = list(circ.input_nodes)
        kw = dict(schedule=first + [v for v in circ.graph.nodes if v not in first], window_size=max(2, n))
        if n == 1 or n > 9:
            return
    elif gen.window(circ) > 8:
        return
    b = "numpy-sv" if rng.random() < 0.7 else "numpy-dm"
    if kw and b == "numpy-dm" and n > 7:
        b = "numpy-sv"
    out = mp.PatternSimulator(circ, psi_arg, backend=b, **kw).run(list(angles))
    ctx.close(out, ref.density(ref.normalised(exp)), msg + ": not the composition of the parts", 1e-6)


def parts_of(rng, count, k=None, nmax=5):
    out = []
    for _ in range(count):
        kk = k or int(rng.integers(1, 4))
        s = gen.measure_xy(rng, gen.flow_spec(rng, wires=(kk, kk), nmax=max(nmax, kk), nmin=1, tail=nmax + 5))
        out.append(s)
    return out


def build(rng, spec):
    """the circuit, and whether its nodes keep the names of the graph"""
    if rng.random() < 0.25:
        return spec.make(mp, rng, relabel_indices=False), True
    return spec.make(mp, rng), False


def angles_for(rng, spec, circ, own):
    """angles in the order of circ.trainable_nodes, and the canonical order"""
    back = {l: v for v, l in enumerate(spec.labels)} if own else {v: v for v in spec.nodes}
    tr = [back[v] for v in circ.trainable_nodes]
    return [gen.angle(rng) for _ in tr], tr


def clash(sa, sb, pairs):
    """both joined sides have an edge between the same wires"""
    for x in range(len(pairs)):
        for y in range(x):
            (i, j), (i2, j2) = pairs[x], pairs[y]
            if sa.outputs[i2] in sa.adj[sa.outputs[i]] and sb.inputs[j2] in sb.adj[sb.inputs[j]]:
                return True
    return False


def trivial(spec):
    return not spec.meas and not spec.edges


@workload(500, 8000)
def pairs(ctx, rng):
    kind = gen.choice(rng, ["hstack", "vstack", "merge"])
    k = int(rng.integers(1, 4))
    sa, sb = (parts_of(rng, 2, k) if kind == "hstack" else parts_of(rng, 2, None, 4))
    (ca, oa), (cb, ob) = build(rng, sa), build(rng, sb)
    la = sa.labels if oa else sa.nodes
    lb = sb.labels if ob else sb.nodes
    aa, ta = angles_for(rng, sa, ca, oa)
    ab, tb = angles_for(rng, sb, cb, ob)
    pa, pb = part(sa, 0, aa, ta), part(sb, 1, ab, tb)
    before = [snapshot(ca), snapshot(cb)]
    if kind == "hstack":
        jp = [(i, i) for i in range(k)]
    elif kind == "vstack":
        jp = []
    else:
        m = int(rng.integers(0, min(len(sa.outputs), len(sb.inputs)) + 1))
        jp = list(zip([int(x) for x in rng.choice(len(sa.outputs), size=m, replace=False)],
                      [int(x) for x in rng.choice(len(sb.inputs), size=m, replace=False)]))
    ctx.describe(kind=kind, a=sa.desc(), b=sb.desc(), pairs=jp, own_names=[oa, ob], angles=[aa, ab])
    if kind == "hstack":
        circ = mp.hstack([ca, cb]) if rng.random() < .5 else mp.hstack((ca, cb))
    elif kind == "vstack":
        circ = mp.vstack([ca, cb])
    else:
        circ = mp.merge(ca, cb, along=[(la[sa.outputs[i]], lb[sb.inputs[j]]) for i, j in jp])
    unchanged(ctx, [ca, cb], before)
    # structure: the union of the graphs with the joined nodes identified
    g = nx.Graph()
    # nodes are counted in the order in which each graph lists them
    xa = {v: list(ca.graph.nodes).index(la[v]) for v in sa.nodes}
    xb = {v: list(cb.graph.nodes).index(lb[v]) for v in sb.nodes}
    nb = lambda v: ("b", xb[v])
    d = {sa.outputs[i]: nb(sb.inputs[j]) for i, j in jp}
    na = lambda v: d.get(v, ("a", xa[v]))
    g.add_nodes_from([na(v) for v in sa.nodes] + [nb(v) for v in sb.nodes])
    g.add_edges_from([(na(u), na(v)) for u, v in sa.edges] + [(nb(u), nb(v)) for u, v in sb.edges])
    canon = sorted(g.nodes)   # nodes of the first part, then those of the second
    m = {v: i for i, v in enumerate(canon)}
    ctx.check(sorted(map(tuple, map(sorted, circ.graph.edges))) == sorted(tuple(sorted((m[u], m[v]))) for u, v in g.edges)
              and len(circ.graph) == len(canon), f"{kind}: graph", got=sorted(circ.graph.edges), want=sorted((m[u], m[v]) for u, v in g.edges))
    ctx.event("structure")
    for part_, spec, c, lab, name in ((0, sa, ca, la, na), (1, sb, cb, lb, nb)):
        for v in spec.nodes:
            if part_ == 0 and v in d:
                continue
            ctx.check(str(circ[m[name(v)]]) == str(c[lab[v]]), f"{kind}: measurement of a part", got=str(circ[m[name(v)]]), want=str(c[lab[v]]))
    ctx.event(kind)
    if clash(sa, sb, jp):
        return
    if kind != "merge" or not jp:
        ctx.check(circ.flow is not None, f"{kind}: flow lost")
    evaluate(ctx, rng, circ, join(pa, pb, jp), aa + ab, kind)
    if not trivial(sa) and not trivial(sb):
        ctx.nontrivial(kind, sa.key(), sb.key(), jp)


@workload(160, 2500)
def lists(ctx, rng):
    """three to seven circuits, and nested use"""
    kind = gen.choice(rng, ["hstack", "vstack", "nested"])
    cnt = int(gen.choice(rng, [3, 3, 4, 4, 5, 6, 7]))
    ctx.event("five-or-more", int(cnt >= 5 and kind != "nested"))
    ctx.event("lists")
    if kind == "hstack":
        k = int(rng.integers(1, 3))
        specs = parts_of(rng, cnt, k, 4 if cnt < 5 else 3)
    else:
        specs = parts_of(rng, min(cnt, 6) if kind == "vstack" else 4, 1, 3 if cnt < 5 else 2)
    built = [build(rng, s) for s in specs]
    circs = [c for c, _ in built]
    angs = [angles_for(rng, s, c, own) for s, (c, own) in zip(specs, built)]
    tens = [part(s, i, a, t) for i, (s, (a, t)) in enumerate(zip(specs, angs))]
    ctx.describe(kind=kind, specs=[s.desc() for s in specs])
    before = [snapshot(c) for c in circs]
    if kind == "hstack":
        # an edge on both sides of a junction (possibly through wires that never grow) is kept once
        for i, s in enumerate(specs):
            for t in specs[i + 1:]:
                if clash(s, t, [(x, x) for x in range(k)]):
                    return
        circ = mp.hstack(circs)
        want = tens[0]
        for t in tens[1:]:
            want = join(want, t, [(x, x) for x in range(k)])
        order = range(len(specs))
    elif kind == "vstack":
        circ = mp.vstack(circs)
        want = tens[0]
        for t in tens[1:]:
            want = join(want, t, [])
        order = range(len(specs))
    else:
        # (a over b) then (c over d)
        circ = mp.hstack([mp.vstack(circs[:2]), mp.vstack(circs[2:])])
        want = join(join(tens[0], tens[1], []), join(tens[2], tens[3], []), [(0, 0), (1, 1)])
        order = range(4)
    unchanged(ctx, circs, before)
    evaluate(ctx, rng, circ, want, [x for i in order for x in angs[i][0]], kind + " of a list")
    ctx.event(kind if kind != "nested" else "hstack")
    ctx.nontrivial(kind, [s.key() for s in specs])


@workload(150, 3000)
def controlled_parts(ctx, rng):
    """conditions are carried over: the joined circuit is judged along its outcome history"""
    kind = gen.choice(rng, ["hstack", "vstack", "merge"])
    k = int(rng.integers(1, 3))
    specs, circs, pats = [], [], []
    for _ in range(2):
        spec = gen.flow_spec(rng, wires=(k, k), nmax=4, nmin=3, p_cz=0.2)
        for v in spec.outputc:
            spec.meas[v] = c03.rand_meas(rng, trainable=False, planes=["XY", "X", "YZ"]) if rng.random() < 0.4 else ("Z", 0)
        c = spec.make(mp, rng)
        pat = c03.Pattern(spec)
        for _ in range(2):
            if not spec.outputc:
                break
            v = gen.choice(rng, spec.outputc)
            cands = [w for w in spec.outputc if w != v and not c.partial_order(v, w)]
            if not cands:
                continue
            lib, fn, nodes = c03.rand_condition(rng, c, cands)
            t, f = (c03.rand_meas(rng, trainable=False, planes=["XY", "X", "Y", "YZ"]) for _ in range(2))
            try:
                c[v] = mp.ControlMent(lib, t[1] if len(t[0]) > 1 else None, t[0], f[1] if len(f[0]) > 1 else None, f[0])
            except ValueError:
                continue
            pat.node[v] = ("c", (fn, nodes), t, f)
        specs.append(spec); circs.append(c); pats.append(pat)
    (sa, sb), (ca, cb), (pa, pb) = specs, circs, pats
    if not any(x[0] == "c" for p in pats for x in p.node.values()):
        return
    if kind == "vstack":
        jp = []
    elif kind == "hstack":
        jp = [(i, i) for i in range(k)]
    else:
        i, j = int(rng.integers(k)), int(rng.integers(k))
        jp = [(i, j)]
    if clash(sa, sb, jp):
        return
    before = [snapshot(ca), snapshot(cb)]
    stack = {"hstack": lambda: mp.hstack([ca, cb]), "vstack": lambda: mp.vstack([ca, cb]),
             "merge": lambda: mp.merge(ca, cb, along=[(sa.outputs[i], sb.inputs[j]) for i, j in jp])}[kind]
    if rng.random() < 0.3:
        stack()                       # stacking the same parts again gives the same
    circ = stack()
    unchanged(ctx, [ca, cb], before)
    if circ.flow is None:
        return
    d = {sa.outputs[i]: ("b", sb.inputs[j]) for i, j in jp}
    na = lambda v: d.get(v, ("a", v))
    nb = lambda v: ("b", v)
    names = sorted({na(v) for v in sa.nodes} | {nb(v) for v in sb.nodes})
    m = {v: i for i, v in enumerate(names)}
    edges = [(m[na(u)], m[na(v)]) for u, v in sa.edges] + [(m[nb(u)], m[nb(v)]) for u, v in sb.edges]
    whole = gen.Spec(len(names), set(tuple(sorted(e)) for e in edges), list(circ.input_nodes), list(circ.output_nodes))
    for spec, name in ((sa, na), (sb, nb)):
        for v in spec.meas:
            whole.meas[m[name(v)]] = spec.meas[v]
    pat = c03.Pattern(whole)
    for p, name in ((pa, na), (pb, nb)):
        for v, a in p.node.items():
            if a[0] == "c":
                inv = {m[name(w)]: w for w in p.spec.nodes}
                fn = lambda x, f=a[1][0], inv=inv: f({inv[k]: b for k, b in x.items() if k in inv})
                pat.node[m[name(v)]] = ("c", (fn, []), a[2], a[3])
    want_in = [m[na(v)] for v in sa.inputs] + [m[nb(v)] for v in sb.inputs if v not in [sb.inputs[j] for _, j in jp]]
    ctx.check(list(circ.input_nodes) == want_in, f"{kind}: inputs", got=circ.input_nodes, want=want_in)
    dj = dict(jp)
    want_out = [m[nb(sb.outputs[dj[i]])] if i in dj else m[na(v)] for i, v in enumerate(sa.outputs)]
    want_out += [m[nb(v)] for j, v in enumerate(sb.outputs) if j not in dj.values()]
    ctx.check(list(circ.output_nodes) == want_out, f"{kind}: outputs", got=circ.output_nodes, want=want_out)
    for v, a in sorted(pat.node.items()):
        if a[0] == "c":
            for _ in range(4):
                x = {int(u): int(rng.integers(2)) for u in gen.shuffled(rng, whole.nodes)}
                ctx.check(bool(circ[v].condition(x)) == bool(a[1][0](x)), f"{kind}: a condition read off given outcomes", node=v, outcomes=x)
                ctx.event("conditions-read")
    ctx.event("controlled-parts")
    c03.finish(ctx, rng, whole, pat, circ)


@workload(60, 1000)
def refusals(ctx, rng):
    k, l = (int(x) for x in rng.choice([1, 2, 3], size=2, replace=False))
    (sa,), (sb,) = parts_of(rng, 1, k, 4), parts_of(rng, 1, l, 4)
    ca, cb = sa.make(mp, rng), sb.make(mp, rng)
    before = [snapshot(ca), snapshot(cb)]
    r = rng.integers(4)
    ctx.describe(r=int(r), a=sa.desc(), b=sb.desc())
    if r == 0:
        ctx.raises(ValueError, lambda: mp.hstack([ca, cb]), "hstack of different sizes")
    elif r == 1:
        ctx.raises(ValueError, lambda: gen.choice(rng, [mp.hstack, mp.vstack])([]), "empty list")
    elif r == 2:
        bad = [v for v in list(sa.nodes) + [sa.n + 5] if v not in sa.outputs]
        ctx.raises(ValueError, lambda: mp.merge(ca, cb, along=[(gen.choice(rng, bad), sb.inputs[0])]), "merge along a node that is no output")
    else:
        bad = [v for v in list(sb.nodes) + [sb.n + 5] if v not in sb.inputs]
        ctx.raises(ValueError, lambda: mp.merge(ca, cb, along=[(sa.outputs[0], gen.choice(rng, bad))]), "merge along a node that is no input")
    unchanged(ctx, [ca, cb], before)
    ctx.event("refused")
    one = gen.choice(rng, [mp.hstack, mp.vstack])([ca])
    ctx.check(snapshot(one)[:4] == before[0][:4], "stacking a single circuit")
