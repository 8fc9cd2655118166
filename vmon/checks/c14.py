"""C14: Pauli operators vs matrices and plain lists of strings."""
import itertools
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("all pairs of Pauli strings up to 2 qubits and random ones up to 9, against Kronecker products of 2x2 matrices (up to 300 qubits letter by letter); "
        "histories of append / index / slice / subset / product on operators against a plain list of strings (up to 44 qubits and 24 rows), in every accepted "
        "spelling; non-trivial: at least two qubits or rows and a non-identity factor.")
ASSUMPTIONS = []
MIN_EVENTS = {"pairs": 300, "histories": 100, "steps": 500, "refused": 60, "spellings": 100, "long": 30}


def rand_string(rng, n):
    return "".join(gen.choice(rng, "IXYZ") for _ in range(n))


def tableau(rows):
    n = len(rows[0])
    M = np.zeros((len(rows), 2 * n), dtype=int)
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            M[i, j] = c in ("X", "Y")
            M[i, j + n] = c in ("Z", "Y")
    return M


def anticommute(a, b):
    return sum(x != "I" and y != "I" and x != y for x, y in zip(a, b)) % 2


def times(a, b):
    """product of two strings, without its phase"""
    return "".join("I" if x == y else y if x == "I" else x if y == "I" else ({"X", "Y", "Z"} - {x, y}).pop() for x, y in zip(a, b))


def make(rng, rows):
    k = int(rng.integers(6))
    if k == 0:
        return mp.PauliOp(";".join(rows))
    if k == 1:
        return mp.PauliOp(list(rows))
    if k == 2:
        return mp.PauliOp(tableau(rows))
    if k == 3:
        return mp.PauliOp(";".join(rows) + ";")
    if k == 4:
        return mp.PauliOp(" ; ".join(" ".join(r) for r in rows))
    return mp.PauliOp(tableau(rows).astype(gen.choice(rng, [np.uint8, np.int64])))


def judge(ctx, P, rows):
    ctx.check(str(P) == "\n".join(rows) and repr(P) == "\n".join(rows), "text form", got=str(P), want=rows)
    ctx.check(np.array_equal(np.asarray(P.matrix).astype(int), tableau(rows)), "tableau", rows=rows)
    ctx.check(len(P) == len(rows) and P.number_of_qubits == len(rows[0]), "size")
    ctx.check([str(q) for q in P] == list(rows), "iteration", got=[str(q) for q in P], want=rows)
    for i in range(-len(rows), len(rows)):
        ctx.check(str(P[i]) == rows[i] and len(P[i]) == 1, "indexing", i=i, got=str(P[i]))


SMALL = [a for k in (1, 2) for a in itertools.product([ "".join(s) for s in itertools.product("IXYZ", repeat=k)], repeat=2)]


@workload(272 + 200, 272 + 8000)
def pairs(ctx, rng):
    if ctx.idx < len(SMALL):
        a, b = SMALL[ctx.idx]
    else:
        n = int(rng.integers(2, 7)) if rng.random() < .95 else int(rng.integers(7, 10))
        a, b = rand_string(rng, n), rand_string(rng, n)
        if rng.random() < 0.1:
            b = a
    A, B = make(rng, [a]), make(rng, [b])
    ctx.describe(a=a, b=b)
    ma, mb = ref.pauli_matrix(a), ref.pauli_matrix(b)
    anti = not np.allclose(ma @ mb, mb @ ma)
    s = A.symplectic_prod(B)
    ctx.check(np.asarray(s).shape == (1, 1) and int(s[0][0]) == int(anti), "symplectic product", got=str(s))
    prod = A * B
    ctx.check(ref.same_up_to_phase(ref.pauli_matrix(str(prod)), ma @ mb), "product", got=str(prod))
    c = A.commutator(B)
    if anti:
        ctx.check(isinstance(c, mp.PauliOp) and str(c) == str(prod), "commutator", got=str(c))
    else:
        ctx.check(not isinstance(c, mp.PauliOp) and c == 0, "commutator of commuting operators", got=str(c))
    ctx.check((A == B) is (a == b) or (bool(A == B) == (a == b)), "equality")
    ctx.check(bool(A != B) == (a != b), "inequality")
    ctx.check((B in A) == (a == b), "membership")
    if a == b:
        ctx.check(hash(A) == hash(B), "hash")
    ctx.check((len({A, B}) == 1) == (a == b), "set of operators")
    judge(ctx, A, [a])
    judge(ctx, B, [b])
    ctx.event("pairs")
    if len(a) > 1 and set(a + b) != {"I"}:
        ctx.nontrivial(a, b)


@workload(200, 5000)
def histories(ctx, rng):
    n = int(rng.integers(1, 6))
    m, steps = int(rng.integers(1, 5)), int(rng.integers(3, 9))
    if rng.random() < 0.12:
        n, m, steps = int(rng.integers(6, 45)), int(rng.integers(1, 25)), int(rng.integers(6, 25))
    rows = [rand_string(rng, n) for _ in range(m)]
    P = make(rng, rows)
    log = []
    ctx.describe(rows=list(rows), log=log)
    others = []          # (operator, rows) that must not change any more
    ctx.event("histories")
    judge(ctx, P, rows)
    for _ in range(steps):
        op = gen.choice(rng, ["append", "slice", "subset", "mul", "in", "eq", "sym", "roundtrip", "index"])
        log.append(op)
        ctx.event("steps")
        new = [rand_string(rng, n) for _ in range(int(rng.integers(1, 3)) if rng.random() < 0.8 else int(rng.integers(3, 17)))]
        if op == "append":
            Q = make(rng, new)
            P.append(Q)
            rows = rows + new
            others.append((Q, new))
        elif op == "slice":
            end = lambda: None if rng.random() < 0.3 else int(rng.integers(-len(rows) - 2, len(rows) + 3))
            sl = slice(end(), end(), gen.choice(rng, [None, 1, 1, 2, 3, -1, -2, -3]))
            log[-1] = (op, str(sl))
            if rows[sl]:
                S = P[sl]
                judge(ctx, S, rows[sl])
                others.append((S, rows[sl]))
        elif op == "subset":
            inds = [int(x) for x in rng.choice(n, size=int(rng.integers(1, n + 1)), replace=rng.random() < 0.3)]
            keep = list(inds)
            S = P.get_subset(inds)
            ctx.check(inds == keep, "get_subset modified the list of indices")
            judge(ctx, S, ["".join(r[i] for i in inds) for r in rows])
            neg = [i - n if rng.random() < .5 else i for i in inds]
            judge(ctx, P.get_subset(neg), ["".join(r[i] for i in inds) for r in rows])
            ctx.raises(ValueError, lambda: P.get_subset([0, n]), "an index out of range")
            ctx.raises((ValueError, IndexError), lambda: P.get_subset([0, -n - 1]), "an index out of range")
        elif op == "mul":
            o = [rand_string(rng, n) for _ in rows]
            Q = make(rng, o)
            R = P * Q
            ctx.check(np.array_equal(np.asarray(R.matrix).astype(int), (tableau(rows) + tableau(o)) % 2), "product of rows")
            others.append((Q, o))
        elif op == "in":
            k = [rows[int(rng.integers(len(rows)))]] if rng.random() < .5 else new
            if rng.random() < 0.3:      # many rows, of which at most one is missing, at any position
                k = [gen.choice(rng, rows) for _ in range(int(rng.integers(2, 12)))]
                if rng.random() < 0.6:
                    k.insert(int(rng.integers(len(k) + 1)), rand_string(rng, n))
            ctx.check((make(rng, k) in P) == all(r in rows for r in k), "membership", k=k)
        elif op == "eq":
            o = list(rows)
            r = rng.random()
            if r < 0.3:
                o = new
            elif r < 0.5:
                i = int(rng.integers(len(o)))
                o[i] = rand_string(rng, n)
            elif r < 0.6:
                o = o * 2
            elif r < 0.7:
                o = [o[0]]
            elif r < 0.8:
                o = [x + "I" for x in o]
            elif r < 0.9:                 # the same letters arranged in other rows
                t = "".join(rows)
                k = gen.choice(rng, [d for d in range(1, len(t) + 1) if len(t) % d == 0])
                o = [t[i:i + k] for i in range(0, len(t), k)]
            Q = make(rng, o)
            ctx.check(bool(P == Q) == (o == rows) and bool(Q == P) == (o == rows) and bool(P != Q) == (o != rows), "equality", o=o, rows=rows)
            if o == rows:
                ctx.check(hash(P) == hash(Q), "hash")
        elif op == "sym":
            Q = make(rng, new)
            s = np.asarray(P.symplectic_prod(Q)).astype(int)
            want = [[anticommute(a, b) for b in new] for a in rows]
            ctx.check(s.tolist() == want, "symplectic products of rows", got=s, want=want)
            one = gen.choice(rng, rows)
            s = np.asarray(make(rng, [one]).symplectic_prod(P)).astype(int)
            ctx.check(s.tolist() == [[anticommute(one, b) for b in rows]], "symplectic products of one row with many", got=s)
        elif op == "roundtrip":
            P = mp.PauliOp(P.matrix) if rng.random() < .5 else mp.PauliOp(str(P).replace("\n", ";"))
        else:
            ctx.raises(IndexError, lambda: P[len(rows)], "index out of range")
        judge(ctx, P, rows)
        for Q, o in others:
            judge(ctx, Q, o)
    M = tableau(rows)
    keep = M.copy()
    Q = mp.PauliOp(M)
    Q.append(mp.PauliOp(rows[0]))
    ctx.check(np.array_equal(M, keep), "the array of the caller was modified")
    M[:] = 1 - M
    judge(ctx, Q, rows + [rows[0]])
    if n > 1 and len(rows) > 1:
        ctx.nontrivial(rows)


@workload(60, 1500)
def long_strings(ctx, rng):
    """tens and hundreds of qubits: products, commutators and symplectic products letter by letter"""
    n = int(rng.integers(10, 60)) if rng.random() < 0.8 else int(rng.integers(60, 300))
    a, b = rand_string(rng, n), rand_string(rng, n)
    r = int(rng.integers(4))
    if r == 0:                # few letters, far apart
        b = ["I"] * n
        for i in rng.choice(n, size=int(rng.integers(1, 4)), replace=False):
            b[int(i)] = gen.choice(rng, "XYZ")
        b = "".join(b)
    elif r == 1:              # all equal but one letter
        i = int(rng.integers(n))
        b = a[:i] + gen.choice(rng, "IXYZ") + a[i + 1:]
    A, B = make(rng, [a]), make(rng, [b])
    ctx.describe(a=a, b=b)
    anti = anticommute(a, b)
    ctx.check(np.asarray(A.symplectic_prod(B)).tolist() == [[anti]], "symplectic product of long strings")
    ctx.check(str(A * B) == times(a, b), "product of long strings", got=str(A * B))
    c = A.commutator(B)
    ctx.check((isinstance(c, mp.PauliOp) and str(c) == times(a, b)) if anti else (not isinstance(c, mp.PauliOp) and c == 0), "commutator of long strings", got=str(c))
    ctx.check(bool(A == B) == (a == b) and (B in A) == (a == b), "equality of long strings")
    judge(ctx, A, [a])
    ctx.event("long")
    ctx.nontrivial(a, b)


@workload(120, 1000)
def spellings(ctx, rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    rows = [rand_string(rng, n) for _ in range(m)]
    ctx.describe(rows=rows)
    for _ in range(6):
        judge(ctx, make(rng, rows), rows)
    ctx.event("spellings")
    ctx.nontrivial(rows)


@workload(80, 600)
def refusals(ctx, rng):
    n = int(rng.integers(1, 4))
    r = ctx.idx % 8
    a = rand_string(rng, n)
    ctx.describe(r=r, a=a)
    bad = [lambda: mp.PauliOp(a + ";" + a + "X"), lambda: mp.PauliOp([a, a + "I"]), lambda: mp.PauliOp(np.zeros((2, 2 * n + 1), dtype=int)),
           lambda: mp.PauliOp(gen.choice(rng, [3, None, 0.5, {"X": 1}])), lambda: mp.PauliOp(a + gen.choice(rng, list("AWxyz01-\n\t,:") + ["\n" + a])),
           lambda: mp.PauliOp([gen.choice(rng, ["x", "Q", "1"]) + a]), lambda: mp.PauliOp(gen.choice(rng, ["", ";", [], [""]])),
           lambda: mp.PauliOp(np.full((1, 2 * n), gen.choice(rng, [2, 3, -1])))][r]
    ctx.raises(ValueError, bad, "a malformed operator")
    ctx.event("refused")
