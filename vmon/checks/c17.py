"""C17: completion of a set of Pauli generators to a Lie algebra."""
import itertools
import numpy as np
import mentpy as mp
from mentpy.utils.lie_algebra import calculate_gens_lie_algebra, calculate_lie_algebra, lie_algebra_completion, remove_repeated_ops
from vmon import gen, ref
from vmon.core import workload

RULE = ("random sets of Pauli strings on 1 to 4 qubits (every set of up to two strings on one or two qubits is enumerated), and circuits; "
        "the result is compared with the closure computed on bit vectors by a fixpoint; non-trivial: the closure is larger than "
        "the generators and the identity.")
ASSUMPTIONS = ["generators are pairwise different"]
QUICK_SCALE = 2
MIN_EVENTS = {"completions": 250, "grown": 80, "limits": 20, "circuits": 12, "dimensions": 25, "circuit-limits": 2, "chains": 4}

LET = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}
INV = {v: k for k, v in LET.items()}


def anti(a, b):
    return sum((LET[p][0] & LET[q][1]) ^ (LET[p][1] & LET[q][0]) for p, q in zip(a, b)) % 2 == 1


def prod(a, b):
    return "".join(INV[(LET[p][0] ^ LET[q][0], LET[p][1] ^ LET[q][1])] for p, q in zip(a, b))


def closure(gens):
    cur = set(gens)
    while True:
        new = {prod(a, b) for a, b in itertools.combinations(sorted(cur), 2) if anti(a, b)} - cur
        if not new:
            break
        cur |= new
    return cur | {"I" * len(next(iter(cur)))}


def strings(n):
    return ["".join(t) for t in itertools.product("IXYZ", repeat=n)]


def judge(ctx, gens, **kw):
    op = mp.PauliOp(";".join(gens))
    before = op.txt
    out = lie_algebra_completion(op, **kw)
    same = lambda: op.txt == before and len(op) == len(gens) and [o.txt for o in op] == list(gens) and len(op.matrix) == len(gens)
    ctx.check(same(), "the generators were modified")
    got = out.txt.replace("\n", "").split(";") if isinstance(out.txt, str) else out.txt
    got = [o.txt for o in out]
    want = closure(gens)
    ctx.check(len(got) == len(set(got)), "repeated operators", gens=gens, got=got[:40])
    ctx.check(set(got) == want, "the completion is not the closure", gens=gens, missing=sorted(want - set(got))[:10],
              extra=sorted(set(got) - want)[:10])
    ctx.event("completions")
    if len(want) > len(set(gens) | {"I" * len(gens[0])}):
        ctx.event("grown")
        ctx.nontrivial(sorted(gens))
    # the result does not share storage with the generators
    out.append(mp.PauliOp("X" * len(gens[0])))
    ctx.check(same(), "the completion shares its rows with the generators")
    if len(want) < 40:
        again = [o.txt for o in lie_algebra_completion(op, **kw)]
        ctx.check(len(again) == len(want) and set(again) == want, "the completion of the same generators again", gens=gens, got=again[:40])


PAIRS = [(a,) for n in (1, 2) for a in strings(n)] + [p for n in (1, 2) for p in itertools.combinations(strings(n), 2)]


@workload(len(PAIRS), len(PAIRS))
def enumerated(ctx, rng):
    judge(ctx, gen.shuffled(rng, PAIRS[ctx.idx]))


@workload(160, 1500)
def random_sets(ctx, rng):
    n = int(gen.choice(rng, [2, 2, 3, 3, 4]))
    k = int(rng.integers(2, {2: 9, 3: 6, 4: 5}[n]))
    all_ = strings(n)
    if n > 2 and rng.random() < 0.7:    # few different qubits
        all_ = [s for s in all_ if sum(ch != "I" for ch in s) <= 2]
    gens = [all_[i] for i in rng.choice(len(all_), size=k, replace=False)]
    if len(closure(gens)) > 70:
        gens = gens[:2]
    ctx.describe(gens=gens)
    judge(ctx, gens, **({"max_iter": 100000}))


@workload(6, 80)
def chains(ctx, rng):
    """nearest-neighbour generators: many of them, and every later operator commutes with most of the earlier ones"""
    n = int(rng.integers(5, 9))
    kind = ctx.idx % 3
    order = gen.shuffled(rng, range(n))

    def op(**at):
        s = ["I"] * n
        for k, ch in at.items():
            s[order[int(k[1:])]] = ch
        return "".join(s)

    a, b = gen.choice(rng, [("X", "Y"), ("Y", "Z"), ("Z", "X")])
    if kind == 0:
        gens = [op(**{f"q{i}": a, f"q{i + 1}": a}) for i in range(n - 1)] + [op(**{f"q{i}": b}) for i in range(n)]
    elif kind == 1:
        gens = [op(**{f"q{i}": ch, f"q{i + 1}": ch}) for i in range(n - 1) for ch in (a, b)]
    else:
        gens = [op(**{f"q{i}": a, f"q{i + 1}": b}) for i in range(n - 1)] + [op(**{f"q{i}": gen.choice(rng, [a, b])}) for i in range(2)]
    gens = gen.shuffled(rng, dict.fromkeys(gens))
    ctx.describe(gens=gens)
    if len(closure(gens)) > 130:
        return
    judge(ctx, gens, max_iter=100000)
    ctx.event("chains")


@workload(40, 300)
def limits(ctx, rng):
    """a result is only returned when it is complete"""
    n = int(rng.integers(1, 4))
    all_ = strings(n)
    gens = [all_[i] for i in rng.choice(len(all_), size=int(rng.integers(2, 5)), replace=False)]
    want = closure(gens)
    if len(want) > 40:
        return
    for lim in sorted({0, 1, 2, 3, 5, int(rng.integers(1, 60)), 400}):
        try:
            out = lie_algebra_completion(mp.PauliOp(";".join(gens)), lim)
        except ValueError:
            ctx.event("refused")
            continue
        ctx.check({o.txt for o in out} == want, "an incomplete algebra was returned at the iteration limit", limit=lim, gens=gens)
        ctx.event("limits")


@workload(16, 300)
def circuits(ctx, rng):
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 2), nmax=7))
    if not spec.outputc:
        return
    c = spec.make(mp, rng)
    ctx.describe(**spec.desc())
    gens = [g.txt for g in calculate_gens_lie_algebra(c)]
    got = [o.txt for o in calculate_lie_algebra(c, 100000)]
    ctx.check(len(got) == len(set(got)) and set(got) == closure(gens), "the Lie algebra of a circuit is not the completion of its generators",
              gens=gens, got=got)
    ctx.event("circuits")


@workload(3, 12)
def circuit_limits(ctx, rng):
    """three outputs: more commutators than the default of lie_algebra_completion; a limit is honoured"""
    w, n = gen.choice(rng, [(3, 3), (3, 4), (2, 5), (2, 4)])
    kind = gen.choice(rng, [mp.templates.grid_cluster, mp.templates.many_wires])
    c = kind(w, n) if kind is mp.templates.grid_cluster else kind([n] * w)
    ctx.describe(template=kind.__name__, shape=(w, n))
    gens = [g.txt for g in calculate_gens_lie_algebra(c)]
    want = closure(gens)
    pairs = len(want) * (len(want) + 1) // 2
    for lim in (None, pairs + 1000, int(rng.integers(1, 40)), 0):
        try:
            got = {o.txt for o in (calculate_lie_algebra(c) if lim is None else calculate_lie_algebra(c, max_iter=lim))}
        except ValueError:
            ctx.check(lim is not None and lim <= pairs or pairs > 9000, "refused although the limit suffices", limit=lim, size=len(want))
            ctx.event("refused")
            continue
        ctx.check(got == want, "a circuit's Lie algebra is not complete", limit=lim, want=len(want), got=len(got))
        ctx.check(lim != 0 or got == set(gens) | {"I" * len(gens[0])},
                  "the limit of iterations was ignored", limit=lim, size=len(got))
    ctx.event("circuit-limits")
    ctx.nontrivial(kind.__name__, w, n)


@workload(60, 600)
def repeated(ctx, rng):
    n = int(rng.integers(1, 4))
    rows = [gen.choice(rng, strings(n)) for _ in range(int(rng.integers(1, 12)))]
    if ctx.idx % 6 == 5:
        n = int(rng.integers(3, 9))
        rows = ["".join(gen.choice(rng, "IXYZ") for _ in range(n)) for _ in range(int(rng.integers(40, 160)))]
        rows += [gen.choice(rng, rows) for _ in range(20)]
        rows = gen.shuffled(rng, rows)
    op = mp.PauliOp(";".join(rows))
    out = [o.txt for o in remove_repeated_ops(op)]
    want = list(dict.fromkeys(rows))
    ctx.check(sorted(out) == sorted(want), "operators without repetition", rows=rows, got=out)
    ctx.check([o.txt for o in op] == rows, "the operators given were modified")


@workload(24, 40)
def dimensions(ctx, rng):
    """dim_su, dim_so and dim_sp against the dimension of the space of matrices that satisfy the defining equations"""
    n = int(rng.integers(1, 9))
    ctx.describe(n=n)
    E = np.eye(n * n).reshape(n * n, n, n)
    rank = lambda rows: np.linalg.matrix_rank(np.array(rows, dtype=float)) if len(rows) else 0
    so = n * n - rank([(e + e.T).ravel() for e in E])
    ctx.check(mp.utils.dim_so(n) == so, "dimension of so", got=mp.utils.dim_so(n), want=so)
    # anti-Hermitian with trace 0, as real parameters (re, im)
    big = [np.concatenate([(e + e.T).ravel(), np.zeros(n * n), [0]]) for e in E] + \
          [np.concatenate([np.zeros(n * n), (e - e.T).ravel(), [np.trace(e)]]) for e in E]
    su = 2 * n * n - rank(big)
    ctx.check(mp.utils.dim_su(n) == su, "dimension of su", got=mp.utils.dim_su(n), want=su)
    if n % 2 == 0:
        J = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(n // 2))
        sp = n * n - rank([(e.T @ J + J @ e).ravel() for e in E])
        ctx.check(mp.utils.dim_sp(n) == sp, "dimension of sp", got=mp.utils.dim_sp(n), want=sp)
    else:
        ctx.raises((AssertionError, ValueError), lambda: mp.utils.dim_sp(n), "dim_sp of an odd number")
    ctx.event("dimensions")
    ctx.nontrivial("dim", n)


@workload(20, 60)
def large_dimensions(ctx, rng):
    """the dimensions as counts of free parameters"""
    n = int(rng.integers(9, 60)) if ctx.idx % 2 else int(rng.integers(60, 3000))
    ctx.describe(n=n)
    ctx.check(mp.utils.dim_so(n) == sum(range(n)), "dimension of so", got=mp.utils.dim_so(n))
    ctx.check(mp.utils.dim_su(n) == 2 * sum(range(n)) + n - 1, "dimension of su", got=mp.utils.dim_su(n))
    n += n % 2
    m = n // 2     # blocks [[A, B], [C, -A^T]] with symmetric B and C
    ctx.check(mp.utils.dim_sp(n) == m * m + 2 * sum(range(m + 1)), "dimension of sp", got=mp.utils.dim_sp(n))
    ctx.event("dimensions")
    ctx.nontrivial("dim", n)


@workload(6, 60)
def edited(ctx, rng):
    """the Lie algebra of a circuit again after an edge between two outputs was added"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(2, 2), nmax=7, nmin=4))
    c = spec.make(mp, rng)
    for _ in range(2):
        ctx.describe(**spec.desc())
        if spec.outputc:
            gens = [g.txt for g in calculate_gens_lie_algebra(c)]
            got = [o.txt for o in calculate_lie_algebra(c, 100000)]
            ctx.check(len(got) == len(set(got)) and set(got) == closure(gens), "the Lie algebra of an edited circuit is not the completion of its generators",
                      gens=gens, got=got)
        spec.join_outputs(rng, c)
