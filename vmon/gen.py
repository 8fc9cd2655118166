"""Workload generators."""
import copy
import math
import numpy as np

from . import ref

SPECIAL = [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, -math.pi, 2 * math.pi, 3 * math.pi / 4]


def angle(rng):
    r = rng.random()
    if r < 0.4:
        return float(SPECIAL[rng.integers(len(SPECIAL))])
    if r < 0.5:
        return float(rng.uniform(-20, 20))
    return float(rng.uniform(-math.pi, math.pi))


def haar(rng, k):
    v = rng.normal(size=2**k) + 1j * rng.normal(size=2**k)
    return v / np.linalg.norm(v)


def input_state(rng, k):
    """(array or None for the default |+...+>, full vector)"""
    r = rng.random()
    plus = np.ones(2**k, dtype=complex) / np.sqrt(2**k)
    if r < 0.1:
        return None, plus
    if r < 0.2:
        v = np.zeros(2**k)
        v[rng.integers(2**k)] = 1.0
        return v.astype(choice(rng, [float, float, int, np.float32, complex])), v.astype(complex)
    if r < 0.35:
        one = [np.array([1, 0]), np.array([0, 1]), ref.PLUS, np.array([1, -1]) / np.sqrt(2),
               np.array([1, 1j]) / np.sqrt(2), np.array([1, -1j]) / np.sqrt(2)]
        v = np.array([1.0 + 0j])
        for _ in range(k):
            v = np.kron(v, one[rng.integers(len(one))])
        return v, v
    v = haar(rng, k)
    if r < 0.45:                # a view with gaps, or an array that cannot be written to
        w = np.repeat(v, 2)[::2] if r < 0.4 else v.copy()
        w.flags.writeable = False
        return w, v
    if r < 0.5:                 # real amplitudes in an array of reals
        v = v.real / np.linalg.norm(v.real)
        return v, v.astype(complex)
    return v, v


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def shuffled(rng, seq):
    seq = list(seq)
    return [seq[i] for i in rng.permutation(len(seq))]


def decorated(rng, g, p=0.06):
    """some graphs carry attributes (weights, colours), which mean nothing to a graph state"""
    if rng.random() < p:
        for u, v in g.edges():
            g.edges[u, v]["weight"] = choice(rng, [0, 2, 0.5, -1, 3.25])
        for v in g.nodes():
            g.nodes[v]["weight"] = int(rng.integers(9))
    return g


class Spec:
    """A circuit in canonical labels 0..n-1 (the ones MBQCircuit gives the nodes) together
    with the labels and insertion orders used to hand it to the library."""

    def __init__(self, n, edges, inputs, outputs, f=None, labels=None):
        self.n, self.inputs, self.outputs, self.f = n, list(inputs), list(outputs), f
        self.edges = sorted(tuple(sorted(e)) for e in edges)
        self.labels = list(labels) if labels is not None else list(range(n))
        self.meas = {}           # node -> (plane, angle or None); absent = unmeasured
        self.nodes = list(range(n))
        self.adj = ref.adjacency(self.nodes, self.edges)

    @property
    def outputc(self):
        return [v for v in self.nodes if v not in self.outputs]

    def desc(self):
        return dict(n=self.n, edges=self.edges, inputs=self.inputs, outputs=self.outputs,
                    labels=self.labels, meas=self.meas)

    def key(self):
        return (self.n, tuple(self.edges), tuple(self.inputs), tuple(self.outputs))

    def join_outputs(self, rng, circ):
        """a new edge between two output nodes, in the specification and in the circuit: the flow stays"""
        pairs = [(u, v) for u in self.outputs for v in self.outputs if u < v and v not in self.adj[u]]
        if not pairs:
            return False
        u, v = choice(rng, pairs)
        self.edges = sorted(self.edges + [(u, v)])
        self.adj = ref.adjacency(self.nodes, self.edges)
        u, v = shuffled(rng, [u, v])
        circ.add_edge(u, v) if rng.random() < 0.5 else circ.add_edges_from([(u, v)])
        return True

    def graph(self, mp, rng=None):
        g = self._graph(mp, rng)
        return g if rng is None else decorated(rng, g)

    def _graph(self, mp, rng=None):
        g = mp.GraphState()
        L = self.labels
        nodes = [L[v] for v in self.nodes]
        edges = [(L[u], L[v]) for u, v in self.edges]
        if rng is not None:
            nodes = shuffled(rng, nodes)
            edges = [e if rng.random() < 0.5 else e[::-1] for e in shuffled(rng, edges)]
            if rng.random() < 0.5:
                g.add_edges_from(edges)
                g.add_nodes_from(nodes)
                return g
        g.add_nodes_from(nodes)
        g.add_edges_from(edges)
        return g

    def ment(self, mp, v):
        plane, ang = self.meas[v]
        if plane in ("X", "Y", "Z"):
            return mp.Ment(plane)
        return mp.Ment(plane) if ang is None else mp.Ment(ang, plane)

    def measurements(self, mp, rng=None, full=False):
        """the measurement dictionary in user labels; unmeasured nodes are left out or None"""
        items = [(self.labels[v], self.ment(mp, v)) for v in self.meas]
        items += [(self.labels[v], None) for v in self.nodes if v not in self.meas
                  and (full or v not in self.outputs or (rng is not None and rng.random() < 0.5))]
        if rng is not None:
            items = shuffled(rng, items)
        return dict(items)

    def make(self, mp, rng=None, **kw):
        L = self.labels
        return mp.MBQCircuit(self.graph(mp, rng), input_nodes=[L[v] for v in self.inputs],
                             output_nodes=[L[v] for v in self.outputs],
                             measurements=self.measurements(mp, rng), **kw)

    def make_with(self, mp, rng, measurements, **kw):
        """a circuit with the given measurements, whatever those of the specification"""
        L = self.labels
        return mp.MBQCircuit(self.graph(mp, rng), input_nodes=[L[v] for v in self.inputs], output_nodes=[L[v] for v in self.outputs],
                             measurements={k: measurements[k] for k in shuffled(rng, list(measurements))}, **kw)

    def quantum_outputs(self):
        return [v for v in self.outputs if v not in self.meas] + [
            v for v in self.outputc if v not in self.meas]

    def kets(self, angles, trainable, outcomes=None):
        """projection vectors for the angles given in the order of `trainable`"""
        out = {}
        for v, (plane, ang) in self.meas.items():
            if ang is None and plane not in ("X", "Y", "Z"):
                ang = angles[list(trainable).index(v)]
            out[v] = ref.ket(plane, ang, 0 if outcomes is None else outcomes[v])
        return out

    def expected(self, psi, angles, trainable, outcomes=None):
        """unnormalised state of the quantum outputs"""
        return ref.project(self.nodes, self.edges, self.inputs, psi,
                           self.kets(angles, trainable, outcomes), self.quantum_outputs())

    def trainables(self):
        return {v for v, (p, a) in self.meas.items() if a is None and p not in ("X", "Y", "Z")}


def labels_for(rng, n):
    r = rng.random()
    if r < 0.4:
        return list(range(n))
    if r < 0.7:
        s = int(rng.integers(1, 50))
        return list(range(s, s + n))
    return sorted(int(x) for x in rng.choice(200, size=n, replace=False) - 50)


def flow_spec(rng, wires=(1, 3), nmax=9, nmin=2, p_cz=0.5, permute=True, relabel=True, sort_io=False, tail=None):
    """random circuit with causal flow: wires that grow (J gates) and CZs between heads;
    one in seven has up to `tail` nodes"""
    if tail is not None and rng.random() < 0.15:
        nmax, nmin = tail, max(nmin, nmax)
    k = int(rng.integers(wires[0], wires[1] + 1))
    k = min(k, nmax)
    n = k
    target = int(rng.integers(max(nmin, k), max(nmin, k, nmax) + 1))
    heads = list(range(k))
    inputs = list(range(k))
    edges = set()
    f = {}
    # sometimes one wire never grows (a shared input/output node)
    frozen = {int(rng.integers(k))} if k > 1 and rng.random() < 0.25 else set()
    pc = min(0.85, p_cz * rng.random() * 1.5)
    while True:
        if k > 1 and rng.random() < pc:
            a, b = rng.choice(k, size=2, replace=False)
            e = tuple(sorted((heads[a], heads[b])))
            edges ^= {e}
            continue
        if n >= target:
            break
        grow = [w for w in range(k) if w not in frozen]
        w = choice(rng, grow)
        edges.add((heads[w], n))
        f[heads[w]] = n
        heads[w] = n
        n += 1
    outputs = list(heads)
    perm = list(range(n))
    if permute:
        r = rng.random()
        if r < 0.75:
            perm = [int(x) for x in rng.permutation(n)]
    if not sort_io and rng.random() < 0.5:
        o = rng.permutation(k)
        outputs = [outputs[i] for i in o]
    if not sort_io and rng.random() < 0.3:
        o = rng.permutation(k)
        inputs = [inputs[i] for i in o]
    m = lambda v: perm[v]
    spec = Spec(n, [(m(u), m(v)) for u, v in edges], [m(v) for v in inputs], [m(v) for v in outputs],
                {m(u): m(v) for u, v in f.items()}, labels_for(rng, n) if relabel else None)
    return spec


def measure_xy(rng, spec, p_train=0.5):
    """every non-output node measured in X, Y or XY"""
    mode = rng.random()
    for v in shuffled(rng, spec.outputc):
        if mode < 0.2:
            spec.meas[v] = ("XY", None)
            continue
        r = rng.random()
        if r < p_train:
            spec.meas[v] = ("XY", None)
        elif r < p_train + 0.25:
            spec.meas[v] = ("XY", angle(rng))
        else:
            spec.meas[v] = (choice(rng, ["X", "Y"]), 0)
    return spec


def random_graph(rng, n, p=None):
    p = rng.random() if p is None else p
    return [(i, j) for i in range(n) for j in range(i) if rng.random() < p]


def random_io(rng, n, kmax=3, overlap=True):
    k = int(rng.integers(0 if rng.random() < 0.1 else 1, min(kmax, n) + 1))
    inputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    if overlap:
        outputs = [int(v) for v in rng.choice(n, size=k, replace=False)]
    else:
        pool = [v for v in range(n) if v not in inputs]
        outputs = [int(v) for v in rng.choice(pool, size=min(k, len(pool)), replace=False)]
        inputs = inputs[: len(outputs)]
    return inputs, outputs


def schedule(rng, spec):
    """inputs first (in any order), the rest in a random order that follows the flow"""
    succ = {v: {spec.f[v]} | (spec.adj[spec.f[v]] - {v}) for v in spec.f}
    after = ref.descendants({v: succ.get(v, set()) for v in spec.nodes})
    first = shuffled(rng, spec.inputs)
    rest = [v for v in spec.nodes if v not in first]
    out = list(first)
    while rest:
        ready = [v for v in rest if not any(v in after[u] for u in rest if u != v)]
        v = choice(rng, ready)
        out.append(v)
        rest.remove(v)
    return out


def branches(ment):
    """planes and angles of the false and the true branch of a controlled measurement"""
    probe = copy.deepcopy(ment)
    out = []
    for value in (False, True):
        probe.condition = value
        out.append((probe.plane(), probe.angle()))
    return out


def cond_nodes(ment):
    """nodes the condition of a controlled measurement depends on (None if it is a constant)"""
    nodes = getattr(ment.condition, "cond_nodes", None)
    return None if nodes is None else frozenset(nodes)


def truth(ment, limit=5):
    """what a controlled measurement does on every assignment of the outcomes of the nodes it depends on"""
    nodes = sorted(cond_nodes(ment) or (), key=str)[:12]
    out = []
    for bits in range(2 ** min(len(nodes), limit)):
        val = {v: bits >> i & 1 for i, v in enumerate(nodes)}
        out.append(bool(ment.condition(val)))
    return (tuple(map(str, nodes)), tuple(out), str(branches(ment)))


def window(circ):
    """about how many qubits the numpy simulators hold at once for a circuit"""
    first = list(circ.input_nodes)
    pos = {v: i for i, v in enumerate(first + [v for v in circ.measurement_order if v not in first])}
    return max([len(first) + 1] + [abs(pos[u] - pos[v]) + 1 for u, v in circ.graph.edges])
