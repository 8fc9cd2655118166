"""Reference models, written from the theory and independent of the code under test."""
import itertools
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
PLUS = np.array([1, 1], dtype=complex) / np.sqrt(2)


def kron(*ms):
    out = np.ones((1, 1), dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def observable(plane, angle):
    c, s = np.cos, np.sin
    if plane == "X":
        return X
    if plane == "Y":
        return Y
    if plane == "Z":
        return Z
    if plane == "XY":
        return c(angle) * X + s(angle) * Y
    if plane == "XZ":
        return c(angle) * X + s(angle) * Z
    if plane == "YZ":
        return c(angle) * Y + s(angle) * Z
    if plane == "XYZ":
        a, b = angle
        return c(a) * c(b) * X + s(a) * c(b) * Y + s(b) * Z
    raise KeyError(plane)


def ket(plane, angle, outcome=0):
    """eigenvector of the observable for the given outcome (+1 for outcome 0)"""
    w, v = np.linalg.eigh(observable(plane, angle))
    return v[:, int(np.argmin(np.abs(w - (1 - 2 * outcome))))]


def adjacency(nodes, edges):
    adj = {v: set() for v in nodes}
    for u, v in edges:
        adj[u].add(v)
        adj[v].add(u)
    return adj


def project(nodes, edges, inputs, psi, kets, outputs):
    """Unnormalised state of `outputs` (all nodes that are not in kets) after the graph
    state with input `psi` on `inputs` is projected on kets[v] for every other v.
    Nodes are loaded lazily, so that long circuits fit in memory."""
    adj = adjacency(nodes, edges)
    inputs = list(inputs)
    live = list(inputs)
    psi = np.asarray(psi, dtype=complex)
    T = psi.reshape((2,) * len(live)) if live else np.array(1.0 + 0j)

    def cz(i, j):
        sl = [slice(None)] * len(live)
        sl[i] = sl[j] = 1
        T[tuple(sl)] *= -1

    T = T.copy()
    for i in range(len(live)):
        for j in range(i):
            if live[j] in adj[live[i]]:
                cz(i, j)

    def load(v):
        nonlocal T
        T = np.multiply.outer(T, PLUS)
        live.append(v)
        for i, w in enumerate(live[:-1]):
            if w in adj[v]:
                cz(i, len(live) - 1)

    todo = set(kets)
    while todo:
        loaded = set(live)
        v = min(todo, key=lambda u: (len((adj[u] | {u}) - loaded), u))
        gone = set(nodes) - todo - set(outputs)   # already projected
        for w in sorted((adj[v] | {v}) - loaded - gone):
            load(w)
        T = np.tensordot(T, np.conj(kets[v]), axes=([live.index(v)], [0]))
        live.remove(v)
        todo.discard(v)
    for v in nodes:
        if v in outputs and v not in live:
            load(v)
    return np.transpose(T, [live.index(v) for v in outputs]).reshape(-1)


def density(v):
    return np.outer(v, np.conj(v))


def normalised(v):
    return v / np.linalg.norm(v)


def min_window(n_inputs, schedule, measured, adj, order=None):
    """schedule: order in which nodes enter the window; order: in which they are measured"""
    pos = {v: i for i, v in enumerate(schedule)}
    sm = [v for v in (order or schedule) if v in measured]
    w = max(n_inputs, len(schedule) - len(sm), 1)
    for m, v in enumerate(sm):
        w = max(w, max(pos[u] for u in adj[v] | {v}) + 1 - m)
    return w


def graph_state(nodes, edges):
    """full state vector, qubits in the order of nodes"""
    return project(nodes, edges, [], np.array([1.0]), {}, list(nodes))


def reorder(vec, order, target):
    k = len(order)
    return np.asarray(vec).reshape((2,) * k).transpose([order.index(t) for t in target]).reshape(-1)


def ptrace(rho, keep, n):
    """reduced density matrix of the qubits in `keep` (in that order)"""
    t = np.asarray(rho).reshape((2,) * (2 * n))
    drop = [q for q in range(n) if q not in keep]
    idx = list(range(2 * n))
    for q in drop:
        idx[n + q] = idx[q]
    out = [idx[q] for q in keep] + [idx[n + q] for q in keep]
    return np.einsum(t, idx, out).reshape(2 ** len(keep), 2 ** len(keep))


def same_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[k]) < 1e-12:
        return False
    ph = a[k] / b[k]
    return abs(abs(ph) - 1) < tol and np.max(np.abs(a - ph * b)) < tol


def same_ray(a, b, tol=1e-7):
    """equal up to a non-zero complex factor"""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-12 or nb < 1e-12:
        return False
    return same_up_to_phase(a / na, b / nb, tol)


# ---------------------------------------------------------------- flow oracles

def causal_layers(nodes, edges, inputs, outputs):
    """maximally delayed causal flow (Mhalla-Perdrix) written as a plain fixpoint:
    returns (flow dict, layer dict) or None"""
    adj = adjacency(nodes, edges)
    done = set(outputs)
    avail = set(outputs) - set(inputs)
    layer = {v: 0 for v in outputs}
    f = {}
    k = 0
    while True:
        k += 1
        new = []
        for v in sorted(avail, key=repr):
            rest = adj[v] - done
            if len(rest) == 1:
                u = next(iter(rest))
                if u not in f:
                    f[u] = v
                    new.append((u, v))
        if not new:
            break
        for u, v in new:
            layer[u] = k
            done.add(u)
            avail.discard(v)
            if u not in inputs:
                avail.add(u)
    if len(done) != len(nodes):
        return None
    return f, layer


def has_causal_flow_bruteforce(nodes, edges, inputs, outputs):
    """exhaustive: any injective successor function whose dependency graph is acyclic"""
    adj = adjacency(nodes, edges)
    todo = [v for v in nodes if v not in outputs]

    def acyclic(f):
        succ = {v: ({f[v]} | (adj[f[v]] - {v})) for v in f}
        state = {}

        def visit(v):
            if state.get(v) == 2 or v not in succ:
                return True
            if state.get(v) == 1:
                return False
            state[v] = 1
            if not all(visit(w) for w in succ[v]):
                return False
            state[v] = 2
            return True

        return all(visit(v) for v in f)

    def rec(i, f, used):
        if i == len(todo):
            return acyclic(f)
        v = todo[i]
        for w in adj[v]:
            if w in inputs or w in used:
                continue
            f[v] = w
            if acyclic(f) and rec(i + 1, f, used | {w}):
                return True
            del f[v]
        return False

    return rec(0, {}, frozenset())


def gflow_layers(nodes, edges, inputs, outputs):
    """maximally delayed gflow layers (XY plane) by exhaustive search over correction
    sets; None when there is no gflow"""
    adj = adjacency(nodes, edges)
    idx = {v: i for i, v in enumerate(nodes)}
    mask = {v: sum(1 << idx[w] for w in adj[v]) for v in nodes}
    done = set(outputs)
    layer = {v: 0 for v in outputs}
    k = 0
    while len(done) < len(nodes):
        k += 1
        cand = [v for v in nodes if v in done and v not in inputs]
        rest = sum(1 << idx[v] for v in nodes if v not in done)
        # span of the neighbourhoods restricted to the unsolved nodes
        basis = {}
        for w in cand:
            x = mask[w] & rest
            while x:
                h = x.bit_length()
                if h in basis:
                    x ^= basis[h]
                else:
                    basis[h] = x
                    break

        def inspan(x):
            while x:
                h = x.bit_length()
                if h not in basis:
                    return False
                x ^= basis[h]
            return True

        new = [v for v in nodes if v not in done and inspan(1 << idx[v])]
        if not new:
            return None
        for v in new:
            layer[v] = k
        done |= set(new)
    return layer


def descendants(succ):
    """transitive closure of {v: set of direct successors}; None when cyclic"""
    out, state = {}, {}

    def visit(v):
        if state.get(v) == 1:
            raise ValueError
        if v in out:
            return out[v]
        state[v] = 1
        acc = set()
        for w in succ.get(v, ()):
            acc |= {w} | visit(w)
        state[v] = 2
        out[v] = acc
        return acc

    try:
        for v in list(succ):
            visit(v)
    except ValueError:
        return None
    return out


def pauli_matrix(s):
    return kron(*[PAULI[c] for c in s])


def expm_pauli(s, t):
    """exp(i t P)"""
    P = pauli_matrix(s)
    return np.cos(t) * np.eye(len(P)) + 1j * np.sin(t) * P


def gf2_rank(rows):
    rows = [r for r in rows if r]
    rank = 0
    while rows:
        p = rows.pop()
        if p:
            rank += 1
            low = p & -p
            rows = [r ^ p if r & low else r for r in rows]
    return rank


def local_complement(adj, v):
    """adj: tuple of bit masks"""
    a = list(adj)
    nb = [w for w in range(len(a)) if a[v] >> w & 1]
    for i, u in enumerate(nb):
        for w in nb[i + 1:]:
            a[u] ^= 1 << w
            a[w] ^= 1 << u
    return tuple(a)


def lc_orbit(adj):
    seen = {adj}
    todo = [adj]
    while todo:
        g = todo.pop()
        for v in range(len(g)):
            h = local_complement(g, v)
            if h not in seen:
                seen.add(h)
                todo.append(h)
    return seen
