"""C28: expressivity."""
import math, warnings
import networkx as nx
import numpy as np
import mentpy as mp
from mentpy.utils import FlowSpace
from mentpy.utils import expressivity as ex
from vmon import gen, ref
from vmon.core import workload

RULE = ("random circuits with 1-3 outputs: every sampled fidelity is recomputed from the state the simulator returned and the random state it was "
        "compared with (both observed while the library runs), the angles the simulator got and the fidelities are tested for their "
        "distribution; divergences are recomputed in plain arithmetic for sampled and for prescribed fidelities, all methods and bin "
        "numbers; digraphs of flow spaces; clusters vs the local-complementation orbits; non-trivial: distinct fidelities.")
ASSUMPTIONS = ["distributions are tested by Kolmogorov-Smirnov at a level of 1e-9", "divergences are compared to 1e-9"]
QUICK_SCALE = 4
MIN_EVENTS = {"sampled": 500, "angles": 120, "divergences": 100, "digraphs": 4, "clusters": 20, "density": 40, "rejected": 10, "many-classes": 3}


class Spy:
    """records what the library hands to the simulator and gets from it"""

    def __init__(self):
        self.runs, self.states, self.calls = [], [], []

    def __enter__(self):
        self.old_run = mp.PatternSimulator.run
        self.old_haar = getattr(ex, "generate_haar_random_states", None)
        spy = self

        def run(sim, angles, **kw):
            out = spy.old_run(sim, angles, **kw)
            spy.runs.append((sim, np.array(angles, dtype=float), np.array(out)))
            return out

        def haar(*a, **kw):
            st = spy.old_haar(*a, **kw)
            spy.states.append(np.array(st))
            return st
        mp.PatternSimulator.run = run
        if self.old_haar:
            ex.generate_haar_random_states = haar
        return self

    def __exit__(self, *a):
        mp.PatternSimulator.run = self.old_run
        if self.old_haar:
            ex.generate_haar_random_states = self.old_haar


class Fixed:
    """gives the histogram prescribed fidelities instead of sampled ones"""

    def __init__(self, make):
        self.make, self.used = make, []

    def __enter__(self):
        self.old = ex.sample_probability_density_of_fidelities

        def sample(circ, *a, **kw):
            n = kw.get("n_samples", a[0] if a else 1000)
            data = self.make(circ, n)
            self.used.append((circ, n, list(data)))
            return data
        ex.sample_probability_density_of_fidelities = sample
        return self

    def __exit__(self, *a):
        ex.sample_probability_density_of_fidelities = self.old


def ks_p(sample, cdf):
    """p-value (upper bound, Dvoretzky-Kiefer-Wolfowitz-Massart)"""
    x = np.sort(np.asarray(sample, float))
    n = len(x)
    F = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))
    return 2 * math.exp(-2 * n * d * d), d


def circuit(rng, kmax=2, nmax=5):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, kmax), nmax=nmax, nmin=2), p_train=.8)
    return spec, spec.make(mp, rng)


@workload(32, 600)
def samples(ctx, rng):
    warnings.simplefilter("ignore")
    backend = gen.choice(rng, ["pennylane", "numpy-sv", "numpy-dm", None])
    spec, circ = circuit(rng, 3 if backend and backend[0] == "n" else 2)
    n = int(gen.choice(rng, [0, 1, 2, 20])) if backend in ("pennylane", None) else int(gen.choice(rng, [0, 1, 50, 100]))
    tr = list(circ.trainable_nodes)
    ctx.describe(spec=spec.desc(), n=n, backend=backend)
    kw = {} if backend is None else {"backend": backend}
    with Spy() as spy:
        fids = ex.sample_probability_density_of_fidelities(circ, n_samples=n, **kw)
    ctx.check(len(fids) == n, "number of fidelities", got=len(fids), want=n)
    k = len(spec.outputs)
    plus = np.ones(2 ** len(spec.inputs)) / 2 ** (len(spec.inputs) / 2)
    for f in fids:
        ctx.check(np.ndim(f) == 0 and -1e-9 <= f <= 1 + 1e-9, "a fidelity is not between 0 and 1", got=f)
        ctx.event("sampled")
    if len(spy.runs) == n:
        for i, (sim, angles, out) in enumerate(spy.runs):
            ctx.check(angles.shape == (len(tr),) and np.all(angles >= 0) and np.all(angles <= 2 * np.pi), "random angles", got=angles)
            want = ref.density(ref.normalised(spec.expected(plus, angles, tr)))
            out = ref.density(out) if out.ndim == 1 else out
            ctx.close(out, want, "state of the simulator", 1e-6)
            ctx.event("angles")
            if len(spy.states) == n:
                st = spy.states[i].reshape(-1)
                ctx.close(np.linalg.norm(st), 1.0, "random state")
                ctx.close(fids[i], float(np.real(st.conj() @ want @ st)), "a fidelity is not that of the random state and the state of the circuit", 1e-5)
                ctx.event("recomputed")
        if tr and n > 1:
            ctx.check(len({tuple(np.round(a, 9)) for _, a, _ in spy.runs}) == n, "angles are repeated")
    if n > 1 and k:
        ctx.check(len({round(float(f), 9) for f in fids}) > 1, "all fidelities are the same")
        ctx.nontrivial(spec.key(), backend, tuple(np.round(np.array(fids, float), 6)))


@workload(8, 60)
def distribution(ctx, rng):
    """fidelities with Haar-random states follow the Haar density, angles are uniform in [0, 2 pi)"""
    warnings.simplefilter("ignore")
    spec, circ = circuit(rng, 3, 5)
    k, n = len(spec.outputs), 400
    ctx.describe(spec=spec.desc())
    with Spy() as spy:
        f = ex.sample_probability_density_of_fidelities(circ, n_samples=n, backend="numpy-sv")
    N = 2 ** k
    p, d = ks_p(f, lambda x: 1 - (1 - np.clip(x, 0, 1)) ** (N - 1))
    ctx.check(p > 1e-9, "the fidelities do not follow the Haar density", qubits=k, distance=d)
    ang = np.concatenate([a for _, a, _ in spy.runs]) if spy.runs else np.zeros(0)
    if len(ang) >= n:
        p, d = ks_p(ang, lambda x: np.clip(x / (2 * np.pi), 0, 1))
        ctx.check(p > 1e-9, "the angles are not uniform", distance=d)
    ctx.event("sampled", n)
    ctx.nontrivial(spec.key(), tuple(np.round(f[:5], 6)))


def divergence(method, data, n_bins, n_qubits):
    N = 2 ** n_qubits
    cnt = [0] * n_bins
    for f in data:
        cnt[min(int(f * n_bins), n_bins - 1)] += 1
    # bin borders are compared exactly as they are: i/n_bins
    cnt = list(np.histogram(data, bins=np.linspace(0, 1, n_bins + 1))[0])
    p = [c / len(data) for c in cnt]
    q = [(N - 1) * (1 - (i + .5) / n_bins) ** (N - 2) / n_bins for i in range(n_bins)]
    if method == "RE":
        return sum(a * math.log(a / b) for a, b in zip(p, q) if a)
    if method == "KL":
        return sum((a * math.log(a / b) if a else 0) - a + b for a, b in zip(p, q))
    P, Q = sum(p), sum(q)
    p, q = [a / P for a in p], [b / Q for b in q]
    m = [(a + b) / 2 for a, b in zip(p, q)]
    kl = lambda u: sum(a * math.log(a / c) for a, c in zip(u, m) if a)
    return math.sqrt(max((kl(p) + kl(q)) / 2, 0))


@workload(120, 3000)
def histogram(ctx, rng):
    """prescribed fidelities"""
    warnings.simplefilter("ignore")
    k = int(rng.integers(1, 5))
    circ = mp.templates.linear_cluster(3) if k == 1 else mp.templates.many_wires([2] * k)
    k = len(circ.output_nodes)
    bins = int(gen.choice(rng, [1, 2, 3, 10, 37, 100, 1000, int(rng.integers(4, 1500))]))
    n = int(gen.choice(rng, [1, 2, 10, 100, 500]))
    kind = rng.integers(4)
    if kind == 0:
        data = rng.random(n)
    elif kind == 1:
        data = 1 - rng.random(n) ** (1 / (2 ** k - 1))
    elif kind == 2:
        data = np.full(n, gen.choice(rng, [0.0, 1.0, 0.5, rng.random()]))
    else:
        data = rng.choice([0.0, 1.0, 0.25, 0.9999999], size=n)
    method = gen.choice(rng, ["KL", "RE", "JS"])
    ctx.describe(qubits=k, bins=bins, n=n, method=method, kind=int(kind), first=data[:5])
    kw = {} if method == "KL" and rng.random() < .5 else {"method": method}
    with Fixed(lambda c, m: list(data)) as fx:
        if rng.random() < .3 and kw:
            got = ex.expressivity_with_histogram(circ, n, bins, method)
        else:
            if bins != 1000 or rng.random() < .3:
                kw["n_bins"] = bins
            if rng.random() < .9:
                kw["n_samples"] = n
            else:
                n = 10000
            got = ex.expressivity_with_histogram(circ, **kw)
    if not fx.used:
        ctx.event("not-intercepted")
        return
    ctx.check(all(c is circ and m == n for c, m, _ in fx.used), "samples of another circuit or another number of samples")
    want = divergence(method, data, bins, k)
    ctx.check(abs(got - want) <= 1e-9 * max(1, abs(want)) + (1e-7 if method == "JS" else 0), "divergence", got=got, want=want, method=method)
    ctx.event("divergences")
    ctx.nontrivial(k, bins, n, method, tuple(np.round(data[:5], 9)))


@workload(10, 200)
def sampled_histogram(ctx, rng):
    """the whole computation, with the random numbers of a separate sampling"""
    warnings.simplefilter("ignore")
    spec, circ = circuit(rng, 2, 4)
    n, bins = int(rng.integers(5, 40)), int(gen.choice(rng, [1, 5, 20]))
    method = gen.choice(rng, ["KL", "RE", "JS"])
    seed = int(rng.integers(2 ** 31))
    ctx.describe(spec=spec.desc(), n=n, bins=bins, method=method)
    np.random.seed(seed)
    data = ex.sample_probability_density_of_fidelities(circ, n_samples=n)
    np.random.seed(seed)
    got = ex.expressivity_with_histogram(circ, n_samples=n, n_bins=bins, method=method)
    want = divergence(method, np.array(data, float), bins, len(spec.outputs))
    ctx.check(abs(got - want) <= 1e-7 * max(1, abs(want)), "divergence", got=got, want=want)
    ctx.event("divergences")


@workload(12, 60)
def rejected(ctx, rng):
    ctx.raises(UserWarning, lambda: ex.expressivity_with_histogram(mp.templates.linear_cluster(3), n_samples=2,
               method=gen.choice(rng, ["", "kl", "js", "Haar", None, "KLD", 0])), "an unsupported method")
    ctx.event("rejected")


@workload(60, 600)
def density(ctx, rng):
    k = int(rng.integers(1, 8))
    N = 2 ** k
    F = rng.random(20)
    F[:2] = 0, 1
    got = [ex.haar_probability_density_of_fidelities(float(f), k) for f in F]
    ctx.close(got, [(N - 1) * (1 - f) ** (N - 2) for f in F], "Haar density", 1e-9 * N)
    ctx.close(ex.haar_probability_density_of_fidelities(F, k), got, "Haar density of an array", 1e-9 * N)
    x, w = np.polynomial.legendre.leggauss(100)
    ctx.close(np.sum(w * ex.haar_probability_density_of_fidelities((x + 1) / 2, k)) / 2, 1.0, "the Haar density does not integrate to one", 1e-9)
    ctx.event("density")
    ctx.nontrivial(k, tuple(np.round(F, 6)))


SPACES = [(n, i, o) for n in (2, 3) for i in range(n) for o in range(n)] + [(3, (0, 1), (1, 2)), (3, (0, 1), (0, 2)), (4, 0, 3), (4, (0, 1), (2, 3))]


@workload(8, 60)
def digraph(ctx, rng):
    warnings.simplefilter("ignore")
    n, i, o = SPACES[int(rng.integers(len(SPACES)))]
    i, o = ([x] if isinstance(x, int) else list(x) for x in (i, o))
    g = mp.GraphState()
    g.add_nodes_from(range(n))
    sp = FlowSpace(mp.MBQCircuit(g, input_nodes=i, output_nodes=o))
    bins, m = int(gen.choice(rng, [2, 5, 20])), int(gen.choice(rng, [3, 10]))
    method = gen.choice(rng, ["KL", "RE", "JS"])
    ctx.describe(n=n, inputs=i, outputs=o, bins=bins, samples=m, method=method)
    kw = dict(n_samples=m, n_bins=bins)
    if method != "KL" or rng.random() < .5:
        kw["method"] = method
    with Fixed(lambda c, k: rng.choice([0.1, 0.5, 0.9, rng.random()], size=k)) as fx:
        d = ex.digraph_expressivity_of_flow_space(sp, **kw)
    fl = sp.flow_graph_space
    ctx.check(isinstance(d, nx.DiGraph) and set(d.nodes) == set(fl.nodes), "nodes of the digraph")
    if fx.used:
        used = {id(c): data for c, _, data in fx.used}
        for v in d.nodes:
            c = d.nodes[v]["mbqc_circuit"]
            ctx.check(c is fl.nodes[v]["mbqc_circuit"] or set(c.graph.edges) == set(fl.nodes[v]["mbqc_circuit"].graph.edges), "circuit of a node")
            if id(c) in used:
                want = divergence(method, used[id(c)], bins, len(o))
                ctx.check(abs(d.nodes[v]["expr"] - want) < 1e-7 * max(1, abs(want)) + 1e-7, "expressivity of a node", got=d.nodes[v]["expr"], want=want)
    ctx.check({frozenset(e) for e in d.edges} == {frozenset(e) for e in fl.edges} and d.number_of_edges() == fl.number_of_edges(), "edges of the digraph")
    for a, b in d.edges:
        ctx.check(d.nodes[a]["expr"] >= d.nodes[b]["expr"], "an edge goes to a larger value")
    ctx.event("digraphs")
    if d.number_of_edges():
        ctx.nontrivial(n, tuple(i), tuple(o), method, bins, m)


@workload(40, 400)
def clusters(ctx, rng):
    n = int(rng.integers(2, 7))
    d = nx.Graph()
    adj = {}
    size = int(rng.integers(1, 12) if rng.random() < .7 else rng.integers(12, 31))
    if rng.random() < .1:
        n, size = 3, int(rng.integers(45, 60))      # classes of more than 20 graphs
    for v in gen.shuffled(rng, range(size)):
        E = gen.random_graph(rng, n)
        g = mp.GraphState()
        g.add_nodes_from(range(n))
        g.add_edges_from(E)
        d.add_node(v, mbqc_circuit=mp.MBQCircuit(g, input_nodes=[0], output_nodes=[n - 1]))
        adj[v] = frozenset(frozenset(e) for e in E)
    ctx.describe(n=n, graphs={v: sorted(map(sorted, e)) for v, e in adj.items()})
    kw = {} if rng.random() < .5 else {"sanity_check": bool(rng.integers(2))}
    ind, groups = ex.lc_cluster_flowspace(d, **kw)
    got = {frozenset(x) for x in ind.values()}
    orb = {}
    for v, e in adj.items():
        key = min(tuple(sorted(tuple(sorted(p)) for p in e2)) for e2 in orbit(e, n))
        orb.setdefault(key, set()).add(v)
    ctx.check(got == {frozenset(x) for x in orb.values()} and sum(map(len, ind.values())) == len(adj), "clusters are not the local-Clifford classes",
              got=[sorted(x) for x in got], want=[sorted(x) for x in orb.values()])
    ctx.check(set(ind) == set(groups) and all([frozenset(frozenset(e) for e in g.edges) for g in groups[k]] == [adj[v] for v in ind[k]] for k in ind),
              "graphs of the clusters")
    ctx.event("clusters")
    if len(got) > 6:
        ctx.event("many-classes")
    if len(got) > 1:
        ctx.nontrivial(n, str(sorted(map(sorted, got))), len(adj))


def orbit(edges, n):
    """graphs reachable by local complementations"""
    seen, todo = {edges}, [edges]
    while todo:
        e = todo.pop()
        for v in range(n):
            nb = [u for u in range(n) if frozenset((u, v)) in e]
            new = e ^ frozenset(frozenset((a, b)) for i, a in enumerate(nb) for b in nb[:i])
            if new not in seen:
                seen.add(new)
                todo.append(new)
    return seen
