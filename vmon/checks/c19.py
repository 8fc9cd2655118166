"""C19: gate constructors."""
import itertools
import numpy as np
import mentpy as mp
from mentpy.operators import gates
from vmon import gen, ref
from vmon.core import workload

RULE = ("every pair of positions for up to 6 qubits (random pairs up to 9): the operators are compared entry by entry with their action on basis states, and "
        "on random state vectors; random single-qubit operators; non-trivial: at least three qubits.")
ASSUMPTIONS = ["cnot_ij counts qubits from 1, the other constructors from 0"]
MIN_EVENTS = {"two_qubit_gates": 180, "one_qubit_gates": 60, "random_su": 40, "constants": 9, "states": 60, "many_qubits": 6, "refused": 20, "repeated": 150}

CASES = [(n, i, j) for n in range(2, 7) for i in range(n) for j in range(n) if i != j]


def permutation(n, fn):
    """operator that maps |bits> to |fn(bits)> with bit 0 the most significant"""
    U = np.zeros((2 ** n, 2 ** n))
    for bits in itertools.product((0, 1), repeat=n):
        out = fn(list(bits))
        U[int("".join(map(str, out)), 2), int("".join(map(str, bits)), 2)] = 1
    return U


def swapped(i, j):
    def fn(b):
        b[i], b[j] = b[j], b[i]
        return b
    return fn


def cnot(i, j):
    def fn(b):
        b[j] ^= b[i]
        return b
    return fn


@workload(len(CASES), len(CASES))
def pairs(ctx, rng):
    n, i, j = CASES[ctx.idx]
    ctx.close(gates.swap_ij(i, j, n), permutation(n, swapped(i, j)), "swap_ij", n=n, i=i, j=j)
    ctx.close(gates.cnot_ij(i + 1, j + 1, n), permutation(n, cnot(i, j)), "cnot_ij", n=n, i=i, j=j)
    d = np.array([-1.0 if (k >> (n - 1 - i)) & (k >> (n - 1 - j)) & 1 else 1.0 for k in range(2 ** n)])
    ctx.close(gates.controlled_z(i, j, n), np.diag(d), "controlled_z", n=n, i=i, j=j)
    psi = gen.haar(rng, n)
    ctx.event("two_qubit_gates", 3)
    keep = psi.copy()
    want = np.swapaxes(psi.reshape((2,) * n), i, j).reshape(-1)
    ctx.close(gates.swap_qubits(psi, i, j), want, "swap_qubits", n=n, i=i, j=j)
    ctx.close(psi, keep, "swap_qubits changed its argument", tol=0)
    ctx.event("states")
    if n > 2:
        ctx.nontrivial(n, i, j)
    ctx.close(gates.swap_ij(i, i, n), np.eye(2 ** n), "swap_ij of a qubit with itself")
    ctx.close(gates.swap_qubits(psi, j, j), psi, "swap_qubits of a qubit with itself")


@workload(12, 80)
def many_qubits(ctx, rng):
    n = int(rng.integers(7, 10))
    i, j = (int(q) for q in rng.permutation(n)[:2])
    ctx.describe(n=n, i=i, j=j)
    psi = gen.haar(rng, n)
    t = psi.reshape((2,) * n)
    want = np.swapaxes(t, i, j).reshape(-1)
    ctx.close(gates.swap_qubits(psi, i, j), want, "swap_qubits")
    ctx.close(gates.swap_ij(i, j, n) @ psi, want, "swap_ij")
    b = [(np.arange(2 ** n) >> (n - 1 - q)) & 1 for q in (i, j)]
    ctx.close(gates.controlled_z(i, j, n) @ psi, psi * (1 - 2 * b[0] * b[1]), "controlled_z")
    ctx.close(gates.cnot_ij(i + 1, j + 1, n) @ psi, psi[np.arange(2 ** n) ^ (b[0] << (n - 1 - j))], "cnot_ij")
    ctx.event("two_qubit_gates", 3)
    ctx.event("states")
    ctx.event("many_qubits")
    ctx.nontrivial(n, i, j)


@workload(80, 800)
def single(ctx, rng):
    n = int(rng.integers(1, 9))
    i = int(rng.integers(n))
    u = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
    u = gen.choice(rng, [u, u.real, ref.H, gates.TGate, gates.PauliY])
    keep = np.array(u)
    psi = gen.haar(rng, n)
    want = np.moveaxis(np.tensordot(u, psi.reshape((2,) * n), axes=([1], [i])), 0, i).reshape(-1)
    op = gates.arbitrary_qubit_gate(u, i, n)
    ctx.check(op.shape == (2 ** n, 2 ** n), "shape of arbitrary_qubit_gate", got=op.shape)
    ctx.close(op @ psi, want, "arbitrary_qubit_gate", n=n, i=i, tol=1e-9)
    ctx.close(u, keep, "arbitrary_qubit_gate changed its argument", tol=0)
    ctx.event("one_qubit_gates")
    # a product of local operators has rank one blocks: compare the whole matrix
    ctx.close(op, ref.kron(*[u if k == i else ref.I2 for k in range(n)]), "arbitrary_qubit_gate", n=n, i=i, tol=1e-9)


@workload(60, 600)
def repeated(ctx, rng):
    """the same constructor again: results are arrays of the caller's own, and close operators are told apart"""
    n = int(rng.integers(2, 6))
    i, j = (int(q) for q in rng.permutation(n)[:2])
    u = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
    psi = gen.haar(rng, n)
    calls = [lambda: gates.swap_ij(i, j, n), lambda: gates.controlled_z(i, j, n), lambda: gates.cnot_ij(i + 1, j + 1, n),
             lambda: gates.arbitrary_qubit_gate(u, i, n), lambda: gates.swap_ij(i, i, n), lambda: gates.swap_qubits(psi, i, j)]
    ctx.describe(n=n, i=i, j=j)
    for c in calls:
        a = c()
        first = np.array(a)
        try:
            a *= 0
        except ValueError:          # an array that cannot be written to is the caller's problem
            pass
        ctx.close(c(), first, "the same call again", tol=0)
        ctx.event("repeated")
    for eps in (1e-3, 1e-6, 1e-9):
        v = u.copy()
        v[int(rng.integers(2)), int(rng.integers(2))] += eps
        ctx.close(gates.arbitrary_qubit_gate(v, i, n), ref.kron(*[v if k == i else ref.I2 for k in range(n)]), "a slightly different operator", tol=1e-12)
    u *= 2                          # the operator is changed in place
    ctx.close(gates.arbitrary_qubit_gate(u, i, n), ref.kron(*[u if k == i else ref.I2 for k in range(n)]), "an operator that was changed", tol=1e-12)
    ctx.nontrivial("again", n, i, j)


@workload(9, 9)
def constants(ctx, rng):
    w = np.exp(1j * np.pi / 4)
    want = {
        "CNOT": permutation(2, cnot(0, 1)), "SWAP": permutation(2, swapped(0, 1)), "CSGate": np.diag([1, 1, 1, 1j]),
        "HGate": ref.H, "PauliX": ref.X, "PauliY": ref.Y, "PauliZ": ref.Z, "TGate": np.diag([1, w]), "SGate": np.diag([1, 1j]),
    }
    name = sorted(want)[ctx.idx]
    ctx.close(getattr(gates, name), want[name], f"constant {name}", tol=1e-12)
    ctx.event("constants")


@workload(50, 800)
def unitaries(ctx, rng):
    n = int(rng.integers(1, 8))
    U = gates.random_su(n)
    ctx.check(U.shape == (2 ** n, 2 ** n), "shape of random_su")
    ctx.close(U @ np.conj(U.T), np.eye(2 ** n), "random_su is not unitary", tol=1e-9)
    ctx.close(np.linalg.det(U), 1.0, "determinant of random_su", tol=1e-8)
    if n > 3:                       # complex: |sum of squares of a column| is about 2^(-n/2), for a real matrix it is 1
        ctx.check(abs(np.sum(U[:, 0] ** 2)) < 0.98 and abs(np.sum(U[0] ** 2)) < 0.98, "random_su is real up to a phase")
    V = gates.random_su(n)
    ctx.check(np.max(np.abs(U - V)) > 1e-6, "random_su returned the same matrix twice")
    ctx.event("random_su")


@workload(1, 4)
def moments(ctx, rng):
    """Haar moments: E |tr U|^2 = 1 and E |U_00|^2 = 1/d (wide margins: over 8 standard errors)"""
    n, N = 1 + ctx.idx % 2, 4000
    Us = [gates.random_su(n) for _ in range(N)]
    t = np.array([abs(np.trace(U)) ** 2 for U in Us])
    ctx.check(abs(t.mean() - 1) < 0.2, "random_su is not Haar distributed", mean=t.mean())
    p = np.array([abs(U[0, 0]) ** 2 for U in Us])
    ctx.check(abs(p.mean() - 1 / 2 ** n) < 0.05, "random_su is not Haar distributed", mean=p.mean())
    f = np.array([abs(U[0, 0]) ** 4 for U in Us])
    d = 2 ** n
    ctx.check(abs(f.mean() - 2 / (d * (d + 1))) < 0.05, "random_su is not Haar distributed", mean=f.mean())


@workload(30, 300)
def refusals(ctx, rng):
    """positions beyond the last qubit are refused"""
    n = int(rng.integers(1, 6))
    i, j = int(rng.integers(n)), n + int(rng.integers(0, 3))
    i, j = (i, j) if rng.random() < 0.5 else (j, i)
    ctx.describe(n=n, i=i, j=j)
    fn = gen.choice(rng, [gates.swap_ij, gates.controlled_z])
    ctx.raises((AssertionError, ValueError, IndexError), lambda: fn(i, j, n), "a position beyond the last qubit")
    ctx.raises((AssertionError, ValueError, IndexError), lambda: gates.swap_qubits(gen.haar(rng, n), i, j), "a position beyond the last qubit")
    ctx.event("refused")
    ctx.nontrivial("refused", n, i, j)
