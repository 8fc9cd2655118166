"""C24: generated datasets."""
import itertools
import numpy as np
import mentpy as mp
from mentpy.utils import (brownian_circuit, generate_haar_random_states, generate_random_dataset, generate_random_dataset_noisy,
                          randomUnitary_closetoid, train_test_split)
from vmon import gen, ref
from vmon.core import workload

RULE = ("random unitaries on 1 to 7 qubits, sizes, proportions, noise types and levels; every sample of every dataset is checked "
        "against the unitary, and splits against the multiset of (input, target) pairs; non-trivial: both parts are non-empty.")
ASSUMPTIONS = ["the test part has int(n_samples * test_size) samples", "statistical margins are more than six standard errors"]
MIN_EVENTS = {"datasets": 100, "noisy": 100, "splits": 80, "samples": 1500, "states": 120, "unitaries": 60, "rejected": 20, "moments": 6, "conjugated": 15}


def unitary(rng, n):
    d = 2 ** n
    r = rng.random()
    if r < 0.15:
        return np.eye(d)
    if r < 0.3:
        return np.eye(d)[rng.permutation(d)]
    q, _ = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return q


def sizes(rng):
    n = int(gen.choice(rng, [0, 1, 2, 3, 5, 10, 17]))
    kw = {} if rng.random() < .3 else {"test_size": float(gen.choice(rng, [0.0, 0.1, 0.25, 0.5, 0.9, 1.0, rng.random()]))}
    if rng.random() < .08:
        n = int(rng.integers(18, 90))
    return n, kw, int(n * kw.get("test_size", 0.3))


def is_state(ctx, v, d):
    v = np.asarray(v)
    ctx.check(v.shape == (d,), "shape of a state", got=v.shape)
    ctx.close(np.linalg.norm(v), 1.0, "a state is not normalised")
    ctx.event("samples")


def parts(ctx, data, n, n_test, d):
    (a, b), (c, e) = data
    ctx.check(len(a) == len(b) == n - n_test, "size of the training part", got=(len(a), len(b)), want=n - n_test)
    ctx.check(len(c) == len(e) == n_test, "size of the test part", got=(len(c), len(e)), want=n_test)
    for v in list(a) + list(b) + list(c) + list(e):
        is_state(ctx, v, d)
    x = [np.asarray(v) for v in list(a) + list(c)]
    ctx.check(all(np.max(np.abs(x[i] - x[j])) > 1e-9 for i in range(len(x)) for j in range(i)), "two inputs are the same")
    return a, b, c, e


@workload(120, 2500)
def plain(ctx, rng):
    q = int(rng.integers(1, 5)) if rng.random() < .85 else int(rng.integers(5, 8))
    U = unitary(rng, q)
    n, kw, n_test = sizes(rng)
    ctx.describe(qubits=q, n=n, **kw)
    keep = U.copy()
    a, b, c, e = parts(ctx, generate_random_dataset(U, n, **kw), n, n_test, 2 ** q)
    for x, y in list(zip(a, b)) + list(zip(c, e)):
        ctx.close(y, U @ x, "a target is not the unitary applied to its input")
    ctx.close(U, keep, "the unitary was changed", tol=0)
    ctx.event("datasets")
    if 0 < n_test < n:
        ctx.nontrivial(q, n, n_test, tuple(np.round(U.ravel(), 4)))


@workload(150, 2500)
def noisy(ctx, rng):
    q = int(rng.integers(1, 4)) if rng.random() < .9 else int(rng.integers(4, 6))
    U = unitary(rng, q)
    n, kw, n_test = sizes(rng)
    level = float(gen.choice(rng, [0, 0, 1, 0.5, 0.1, rng.random()]))
    kind = gen.choice(rng, ["brownian", "bitflip", None])
    kw2 = dict(kw)
    if kind:
        kw2["noise_type"] = kind
    if level or rng.random() < .5:
        kw2["noise_level"] = level
    ctx.describe(qubits=q, n=n, **kw2)
    a, b, c, e = parts(ctx, generate_random_dataset_noisy(U, n, **kw2), n, n_test, 2 ** q)
    for x, y in zip(c, e):
        ctx.close(y, U @ x, "a test target is not the unitary applied to its input")
    for x, y in zip(a, b):
        if level == 0:
            ctx.close(y, U @ x, "noise level 0 changes a target")
        elif kind == "bitflip":
            flips = [s for s in itertools.product("IX", repeat=q) if np.max(np.abs(ref.pauli_matrix("".join(s)) @ U @ x - y)) < 1e-7]
            ctx.check(flips, "a target does not differ by bit flips")
            if level == 1:
                ctx.check(("X",) * q in flips, "noise level 1 does not flip every bit")
            ctx.event("flips")
        elif q > 0 and level > 0 and not (np.allclose(U, np.eye(len(U))) or level == int(level)):
            # the noise conjugates the unitary by a random one: it leaves no sample as it is
            ctx.check(np.max(np.abs(U @ x - y)) > 1e-9, "a training target without noise", level=level)
    ctx.event("noisy")
    if 0 < n_test < n:
        ctx.nontrivial("noisy", q, n, n_test, kind, level)


@workload(40, 100)
def bad_noise(ctx, rng):
    U = unitary(rng, 1)
    if ctx.idx % 3:
        level = float(gen.choice(rng, [-1e-9, -1, 1.0001, 2, 100, -0.3]))
        ctx.raises(ValueError, lambda: generate_random_dataset_noisy(U, 3, noise_level=level, noise_type=gen.choice(rng, ["brownian", "bitflip"])),
                   "a noise level outside [0, 1]")
    else:
        ctx.raises(ValueError, lambda: generate_random_dataset_noisy(U, 3, noise_level=0.1, noise_type=gen.choice(rng, ["", "flip", "Brownian", None])),
                   "an unknown type of noise")
    ctx.event("rejected")


@workload(3, 24)
def flip_rate(ctx, rng):
    """each bit flips independently with the noise level"""
    level, q, n = float(gen.choice(rng, [0.03, 0.2, 0.5, 0.8, 0.97])), 2 + ctx.idx % 3, 1800
    U = np.eye(2 ** q)
    (a, b), _ = generate_random_dataset_noisy(U, n, noise_level=level, noise_type="bitflip", test_size=0.0)
    cnt = np.zeros((2,) * q)
    each = list(itertools.product((0, 1), repeat=q))
    flip = {s: ref.pauli_matrix("".join("IX"[v] for v in s)) for s in each}
    for x, y in zip(a, b):
        for s in each:
            if np.max(np.abs(flip[s] @ x - y)) < 1e-7:
                cnt[s] += 1
    p = cnt / n
    for s in each:
        want = np.prod([level if v else 1 - level for v in s])
        ctx.check(abs(p[s] - want) < 6 * np.sqrt(want * (1 - want) / n) + 5 / n, "rate of bit flips", level=level, flips=s, got=p[s], want=want)
    for k in range(q):
        got = p.sum(axis=tuple(j for j in range(q) if j != k))[1]
        ctx.check(abs(got - level) < 6 * np.sqrt(level * (1 - level) / n) + (1 / n if 0.1 < level < 0.9 else 0), "rate of flips of a bit", bit=k, level=level, got=got)


@workload(100, 2500)
def splits(ctx, rng):
    n, kw, n_test = sizes(rng)
    arr = rng.random() < .5
    inputs = [np.array([i, 0.5]) for i in range(n)]
    targets = [np.array([i, 7.0]) for i in range(n)]
    if arr and n:
        inputs, targets = np.array(inputs), np.array(targets)
    rand = gen.choice(rng, [None, True, False])
    if rand is not None:
        kw["randomize"] = rand
    before = (np.array(inputs).copy(), np.array(targets).copy())
    (a, b), (c, e) = train_test_split(inputs, targets, **kw)
    ctx.check(len(a) == len(b) == n - n_test and len(c) == len(e) == n_test, "sizes of a split", got=[len(a), len(b), len(c), len(e)], n=n, **kw)
    ids = [int(v[0]) for v in list(a) + list(c)]
    tids = [int(v[0]) for v in list(b) + list(e)]
    ctx.check(ids == tids, "inputs and targets are not paired", got=ids, targets=tids)
    ctx.check(sorted(ids) == list(range(n)), "the parts do not partition the samples", got=ids)
    if not rand:
        ctx.check(ids == list(range(n)), "the order changed without randomize")
    elif n == 17:
        ctx.check(ids != list(range(n)), "randomize did not shuffle")
    ctx.check(np.array_equal(np.array(inputs), before[0]) and np.array_equal(np.array(targets), before[1]), "the data given were changed")
    ctx.event("splits")
    if 0 < n_test < n:
        ctx.nontrivial("split", n, n_test, rand, arr)


@workload(60, 1000)
def states(ctx, rng):
    q = int(rng.integers(1, 6))
    n = int(gen.choice(rng, [1, 2, 7]))
    out = generate_haar_random_states(q, n) if rng.random() < .7 or n > 1 else generate_haar_random_states(q)
    if n == 1:
        is_state(ctx, out, 2 ** q)
        ctx.event("states")
    else:
        ctx.check(len(out) == n, "number of states", got=len(out))
        for v in out:
            is_state(ctx, v, 2 ** q)
            ctx.event("states")
        ctx.check(np.max(np.abs(np.asarray(out[0]) - np.asarray(out[1]))) > 1e-9, "two random states are the same")
    if q > 3:       # complex amplitudes: |sum of squares| is about 2^(-q/2), for a real vector it is 1
        ctx.check(all(abs(np.sum(np.asarray(v) ** 2)) < 0.98 for v in ([out] if n == 1 else out)), "a random state is real up to a phase")
    ctx.nontrivial("states", q, n)
    d = int(rng.integers(1, 9))
    t = float(gen.choice(rng, [0.0, 0.1, 1.0, 3.0]))
    for U in (brownian_circuit(d, int(rng.integers(1, 6)), t), randomUnitary_closetoid(d, t, int(rng.integers(1, 6)))):
        ctx.check(U.shape == (d, d), "shape of a random unitary")
        ctx.close(np.conj(U.T) @ U, np.eye(d), "a random unitary is not unitary", tol=1e-8)
        if t == 0:
            ctx.close(U, np.eye(d), "a random unitary at time 0 is not the identity")
        ctx.event("unitaries")


@workload(12, 200)
def brownian(ctx, rng):
    """the generators are standard complex Gaussian Hermitian matrices: moments of (U - 1)/(i dt) for a small step,
    and the noise of a dataset is the conjugation of the unitary by such a matrix"""
    d, N, dt = int(rng.integers(1, 5)), 1500, 1e-4
    n = int(rng.integers(1, 4))
    tot = np.zeros((d, d))
    mean = np.zeros((d, d), complex)
    for _ in range(N):
        H = (brownian_circuit(d, n, dt) - np.eye(d)) / (1j * dt)
        tot += np.abs(H) ** 2
        mean += H
    # c = re + i im with unit normals, h = (c + c^dagger)/4: every entry has variance 1/4
    ctx.check(np.max(np.abs(tot / N / n - 0.25)) < 0.25 * np.sqrt(2 / N) * 8, "variance of the generators", got=tot / N / n, n=n)
    ctx.check(np.max(np.abs(mean / N)) < 7 * np.sqrt(0.25 * n / N), "mean of the generators", got=mean / N)
    t = float(rng.uniform(1e-5, 1e-4))
    steps = int(rng.integers(1, 8))
    tot = np.zeros((d, d))
    for _ in range(N):
        tot += np.abs((randomUnitary_closetoid(d, t, steps) - np.eye(d)) / (2 * np.pi * t)) ** 2
    ctx.check(np.max(np.abs(tot / N * d - 0.25)) < 0.25 * np.sqrt(2 / N) * 8, "distance of a unitary close to the identity", got=tot / N * d, steps=steps)
    ctx.event("moments")
    ctx.nontrivial("brownian", d, n, steps, t)


@workload(30, 400)
def conjugated(ctx, rng):
    """brownian noise V U V^dagger leaves identities and has the scale of the level"""
    q = int(rng.integers(1, 3))
    d = 2 ** q
    ph = np.exp(1j * rng.uniform(0, 6))
    level = float(gen.choice(rng, [1.0, 0.3, rng.random()]))
    (a, b), _ = generate_random_dataset_noisy(ph * np.eye(d), 6, noise_level=level, noise_type="brownian", test_size=0.0)
    for x, y in zip(a, b):
        ctx.close(y, ph * x, "noise that conjugates changes a multiple of the identity", tol=1e-9)
    small = 1e-3
    U = unitary(rng, q)
    (a, b), _ = generate_random_dataset_noisy(U, 40, noise_level=small, noise_type="brownian", test_size=0.0)
    dist = np.array([np.linalg.norm(y - U @ x) for x, y in zip(a, b)])
    ctx.check(np.max(dist) < 2 * 2 * np.pi * small * 8, "noise is far larger than its level", got=dist.max())
    if np.max(np.abs(U - U[0, 0] * np.eye(d))) > 0.2:
        ctx.check(np.mean(dist) > 2 * np.pi * small * 0.01, "noise is far smaller than its level", got=dist.mean())
    ctx.event("conjugated")
    ctx.nontrivial("conj", q, level)


@workload(2, 6)
def haar(ctx, rng):
    """second and fourth moments of the amplitudes"""
    q, N = 1 + ctx.idx % 2, 3000
    d = 2 ** q
    S = np.array(generate_haar_random_states(q, N))
    p = np.abs(S) ** 2
    ctx.check(np.max(np.abs(p.mean(0) - 1 / d)) < 0.05, "the states are not uniform", got=p.mean(0))
    ctx.check(np.max(np.abs((p ** 2).mean(0) - 2 / (d * (d + 1)))) < 0.05, "the states are not uniform", got=(p ** 2).mean(0))
    r = S.T @ S.conj() / N
    ctx.check(np.max(np.abs(r - np.eye(d) / d)) < 0.08, "the states are not uniform", got=r)
