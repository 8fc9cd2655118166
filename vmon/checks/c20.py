"""C20: partial trace against linear algebra."""
import itertools
import numpy as np
from mentpy.calculator import partial_trace, pure2density
from mentpy.calculator.state_ops import partial_trace_mixed_state, partial_trace_pure_state
from vmon import gen, ref
from vmon.core import workload

RULE = ("random density matrices (and arbitrary operators) of up to 6 qubits traced over every subset (up to 4 qubits) or random lists of "
        "qubits in any order, against tensor contraction; product states with arbitrary factors over the traced qubits, "
        "including factors whose amplitudes cancel or vanish; basis states of up to 10 qubits in integer, real and complex arrays; non-trivial: both parts have qubits.")
ASSUMPTIONS = ["the list of qubits has no repetitions"]
MIN_EVENTS = {"mixed": 500, "pure": 600, "pure2density": 80, "rejected": 10, "basis": 40}

FACTORS = [np.array([1, 0]), np.array([0, 1]), np.array([1, 1]) / np.sqrt(2), np.array([1, -1]) / np.sqrt(2),
           np.array([1, 1j]) / np.sqrt(2), np.array([1, -1j]) / np.sqrt(2)]


def rand_density(rng, n):
    r = rng.random()
    k = int(rng.integers(1, 2 ** n + 1))
    m = rng.normal(size=(2 ** n, k)) + 1j * rng.normal(size=(2 ** n, k))
    rho = m @ np.conj(m.T)
    rho = rho / np.trace(rho)
    if r < 0.1:
        d = np.zeros(2 ** n)
        d[rng.integers(2 ** n)] = 1
        return np.diag(d).astype(gen.choice(rng, [float, int, complex, np.float32]))          # real, even integer valued
    if r < 0.13:
        return np.real_if_close(ref.density(ref.kron(*[gen.choice(rng, FACTORS)[:, None] for _ in range(n)])[:, 0]))
    if r < 0.2:
        return rho.real
    return rho


def judge_mixed(ctx, rng, rho, n, idx):
    keep = [q for q in range(n) if q not in idx]
    want = ref.ptrace(rho, keep, n)
    before, ib = rho.copy(), list(idx)
    fn = gen.choice(rng, [partial_trace, partial_trace_mixed_state])
    got = fn(rho, idx)
    ctx.check(got.shape == (2 ** len(keep),) * 2, "shape of a partial trace", got=got.shape)
    ctx.close(got, want, "partial trace", n=n, traced=idx, tol=1e-10)
    ctx.close(rho, before, "the state was changed", tol=0)
    ctx.check(list(idx) == ib, "the list of qubits was changed")
    ctx.close(np.trace(got), np.trace(rho), "trace")
    ctx.event("mixed")
    if keep and idx:
        ctx.nontrivial(n, tuple(idx))
    return got


SUBSETS = [(n, list(s)) for n in range(1, 5) for r in range(n + 1) for s in itertools.permutations(range(n), r)]


@workload(len(SUBSETS), len(SUBSETS) * 4)
def enumerated(ctx, rng):
    n, idx = SUBSETS[ctx.idx % len(SUBSETS)]
    for _ in range(6):
        got = judge_mixed(ctx, rng, rand_density(rng, n), n, list(idx))
        ctx.close(got, np.conj(got.T), "a reduced state is not Hermitian")
        ctx.check(np.linalg.eigvalsh(got).min() > -1e-9, "a reduced state is not positive")
    if n > 1:
        # any operator, not only states
        m = rng.normal(size=(2 ** n,) * 2) + 1j * rng.normal(size=(2 ** n,) * 2)
        if rng.random() < 0.3:
            m = rng.integers(-9, 10, size=(2 ** n,) * 2)
        judge_mixed(ctx, rng, m, n, list(idx))


@workload(60, 1000)
def larger(ctx, rng):
    n = int(rng.integers(5, 7))
    idx = [int(q) for q in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
    ctx.describe(n=n, traced=idx)
    rho = rand_density(rng, n)
    judge_mixed(ctx, rng, rho, n, idx)
    # tracing in two steps
    if len(idx) > 1:
        a = partial_trace(rho, [idx[0]])
        rest = [q - (q > idx[0]) for q in idx[1:]]
        ctx.close(partial_trace(a, rest), partial_trace(rho, idx), "tracing in two steps", tol=1e-10)


@workload(700, 8000)
def pure(ctx, rng):
    n = int(rng.integers(1, 8))
    k = int(rng.integers(0, n))
    traced = sorted(int(q) for q in rng.permutation(n)[:k])
    keep = [q for q in range(n) if q not in traced]
    a = gen.haar(rng, len(keep)) if rng.random() < .8 else ref.kron(*[gen.choice(rng, FACTORS)[:, None] for _ in keep])[:, 0]
    if not k:
        b = np.ones(1)
    elif rng.random() < .5:
        b = gen.haar(rng, k)
    else:
        b = ref.kron(*[gen.choice(rng, FACTORS)[:, None] for _ in range(k)])[:, 0]
    if rng.random() < .3:
        b = b * gen.choice(rng, [-1, 1j, np.exp(0.3j)])
    psi = ref.reorder(np.kron(a, b), keep + traced, list(range(n)))
    if rng.random() < .3:
        # the rounding noise a computed state carries, also where the amplitude is zero
        psi = psi + 10.0 ** rng.uniform(-17, -15.5) * (rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n))
    idx = gen.shuffled(rng, traced)
    ctx.describe(n=n, traced=idx)
    before = psi.copy()
    fn = gen.choice(rng, [partial_trace, partial_trace_pure_state])
    got = fn(psi, idx)
    ctx.check(np.shape(got) == (2 ** len(keep),), "shape of the state of the remaining qubits", got=np.shape(got))
    ctx.check(ref.same_up_to_phase(got, a / np.linalg.norm(a), 1e-7), "state of the remaining qubits", n=n, traced=idx)
    ctx.close(psi, before, "the state was changed", tol=0)
    ctx.event("pure")
    if k:
        ctx.nontrivial(n, tuple(idx), "pure")
    # the two forms agree
    if n <= 5 and abs(np.linalg.norm(psi) - 1) < 1e-9:
        ctx.close(pure2density(got), partial_trace(pure2density(psi), idx), "pure and mixed partial traces", tol=1e-7)


@workload(120, 1200)
def basis_states(ctx, rng):
    """basis states of up to fifteen qubits, also as integers"""
    n = int(rng.integers(1, 11)) if rng.random() < .6 else int(rng.integers(9, 16))
    bits = [int(b) for b in rng.integers(0, 2, size=n)]
    idx = [int(q) for q in rng.permutation(n)[:int(rng.integers(0, n)) if rng.random() < .6 else int(rng.integers(n // 2, n))]]
    keep = [q for q in range(n) if q not in idx]
    psi = np.zeros(2 ** n, dtype=gen.choice(rng, [int, float, complex]))
    psi[int("".join(map(str, bits)), 2)] = 1
    want = np.zeros(2 ** len(keep))
    want[int("".join(str(bits[q]) for q in keep), 2)] = 1
    ctx.describe(n=n, bits=bits, traced=idx, dtype=str(psi.dtype))
    ctx.close(partial_trace(psi, idx), want, "reduced basis state", tol=1e-9)
    if n <= 6:
        ctx.close(partial_trace(np.outer(psi, psi), idx), np.outer(want, want), "reduced basis state as a matrix", tol=1e-9)
    ctx.event("basis")
    ctx.nontrivial("basis", bits, idx)


@workload(100, 1000)
def outer(ctx, rng):
    n = int(rng.integers(0, 6))
    psi = gen.haar(rng, n)
    if rng.random() < .2:
        psi = psi.real
    keep = psi.copy()
    got = pure2density(psi)
    ctx.close(got, np.array([[x * np.conj(y) for y in psi] for x in psi]), "outer product", tol=1e-12)
    ctx.close(psi, keep, "pure2density changed its argument", tol=0)
    ctx.event("pure2density")


@workload(12, 30)
def wrong_shapes(ctx, rng):
    shape = gen.choice(rng, [(2, 2, 2), (1, 4, 4), ()])
    ctx.raises(ValueError, lambda: partial_trace(np.ones(shape), [0]), "data that is neither a vector nor a matrix")
    ctx.event("rejected")
