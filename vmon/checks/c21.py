"""C21: GF(2) linear algebra."""
import itertools
import galois
import numpy as np
from mentpy.calculator import solve
from mentpy.mbqc.flow import binary_gaussian_elimination
from mentpy.utils.lc_equivalence import nullspace_basis, reduce_RREform_mod2
from vmon import gen, ref
from vmon.core import workload

RULE = ("every binary matrix of up to 3x3 (3x4 in the thorough run) with every solvable right-hand side, and random matrices of "
        "up to 74x74 (mostly 14x18) of controlled rank, as integer and as GF(2) arrays; solutions are multiplied back, and row reduction is "
        "compared with the unique reduced echelon form; non-trivial: rank between 1 and the smaller dimension minus 1.")
ASSUMPTIONS = ["integer results of the solvers are read modulo 2"]
MIN_EVENTS = {"solved": 6000, "reduced": 800, "nullspaces": 800, "rank_deficient": 200, "large": 8}

GF = galois.GF(2)
SHAPES = [(r, c) for r in (1, 2, 3) for c in (1, 2, 3)]


def rref(M):
    """independent: reduced echelon form and pivot columns"""
    R = [list(map(int, row)) for row in M]
    piv, p = [], 0
    cols = len(R[0])
    for j in range(cols):
        k = next((i for i in range(p, len(R)) if R[i][j]), None)
        if k is None:
            continue
        R[p], R[k] = R[k], R[p]
        for i in range(len(R)):
            if i != p and R[i][j]:
                R[i] = [a ^ b for a, b in zip(R[i], R[p])]
        piv.append(j)
        p += 1
        if p == len(R):
            break
    return np.array(R), piv


def judge_solve(ctx, rng, A, x):
    b = A @ x % 2
    for fn in (solve, binary_gaussian_elimination):
        kind = rng.integers(4)
        a, r = A.copy(), b.copy()
        if kind & 1:
            a, r = GF(a), GF(r)
        if kind & 2:
            r = r.reshape(-1, 1)
        a0, r0 = np.array(a), np.array(r)
        sol = np.asarray(fn(a, r)).astype(int).reshape(-1) % 2
        ctx.check(sol.shape == (A.shape[1],), "size of a solution", got=sol.shape)
        ctx.check(((A @ sol - b) % 2 == 0).all(), f"{fn.__name__}: not a solution", A=A, b=b, x=sol)
        ctx.check(np.array_equal(np.asarray(a), a0) and np.array_equal(np.asarray(r), r0), "the system was modified", fn=fn.__name__)
        ctx.event("solved")


def judge_reduce(ctx, rng, A):
    R0, piv = rref(A)
    a = A.copy()
    R, p = reduce_RREform_mod2(a)
    ctx.check(p == len(piv), "rank of row reduction", A=A, got=p, want=len(piv))
    ctx.check(np.array_equal(R % 2, R0), "not the reduced echelon form", A=A, got=R, want=R0)
    ctx.check(np.array_equal(a, A), "the matrix was modified")
    ctx.event("reduced")
    if A.shape[1] > 1:
        # reduction of the first columns only: those are reduced and rows still span the same space
        k = int(rng.integers(1, A.shape[1]))
        R, p = reduce_RREform_mod2(a, max_cols=k)
        W, w = rref(A[:, :k])
        ctx.check(p == len(w) and np.array_equal(R[:, :k] % 2, W), "reduction of the first columns", A=A, k=k)
        ctx.check(np.array_equal(rref(R % 2)[0], R0), "reduction of the first columns changed the row space", A=A, k=k)
    N = nullspace_basis(a)
    ctx.check(np.array_equal(a, A), "the matrix was modified")
    ctx.check(N.shape == (A.shape[1] - len(piv), A.shape[1]), "dimension of the null space", A=A, got=N.shape)
    N = np.asarray(N) % 2
    ctx.check(not (A @ N.T % 2).any(), "a basis vector is not in the null space", A=A, N=N)
    if len(N):
        ctx.check(len(rref(N)[1]) == len(N), "the basis of the null space is dependent", A=A, N=N)
    ctx.event("nullspaces")
    if 0 < len(piv) < min(A.shape):
        ctx.event("rank_deficient")
        ctx.nontrivial(A.tolist())


def all_of(shape):
    r, c = shape
    for m in range(2 ** (r * c)):
        yield np.array([(m >> i) & 1 for i in range(r * c)]).reshape(r, c)


@workload(16, 16)
def enumerated(ctx, rng):
    for shape in SHAPES:
        for m, A in enumerate(all_of(shape)):
            if m % 16 != ctx.idx:
                continue
            done = set()
            for x in itertools.product((0, 1), repeat=shape[1]):
                x = np.array(x)
                k = tuple(A @ x % 2)
                if k not in done:
                    done.add(k)
                    judge_solve(ctx, rng, A, x)
            judge_reduce(ctx, rng, A)


@workload(0, 64)
def enumerated_3x4(ctx, rng):
    for m, A in enumerate(all_of(((3, 4), (4, 3))[ctx.idx % 2])):
        if m % 32 == ctx.idx // 2:
            for x in itertools.product((0, 1), repeat=A.shape[1]):
                judge_solve(ctx, rng, A, np.array(x))
            judge_reduce(ctx, rng, A)


@workload(250, 5000)
def random_systems(ctx, rng):
    r, c = int(rng.integers(1, 15)), int(rng.integers(1, 19))
    if rng.random() < 0.1:
        r, c = int(rng.integers(15, 75)), int(rng.integers(15, 75))
        ctx.event("large")
    q = rng.random()
    if q < 0.4:
        k = int(rng.integers(0, min(r, c) + 1))
        A = rng.integers(2, size=(r, k)) @ rng.integers(2, size=(k, c)) % 2
    elif q < 0.7:
        A = (rng.random((r, c)) < rng.random()).astype(int)
    else:
        A = (rng.random((r, c)) < 0.15).astype(int)
    if rng.random() < .3:
        A[:, rng.integers(c)] = 0
    if rng.random() < .3:
        A[rng.integers(r)] = A[rng.integers(r)]
    ctx.describe(A=A)
    for _ in range(4):
        judge_solve(ctx, rng, A, rng.integers(2, size=c))
    judge_reduce(ctx, rng, A)
