"""C23: optimizers against their update rules, over recorded histories of iterates."""
import contextlib
import io
import numpy as np
import mentpy as mp
from vmon import gen
from vmon.core import workload
from vmon.checks.c22 import Trig, smooth

RULE = ("random cost functions with closed-form gradients, starts, hyper-parameters and numbers of iterations; the history of "
        "(iterate, index) seen by the callback is replayed by an independent implementation of the update rule, one step at a time from the "
        "observed iterate; non-trivial: at least three iterations and two coordinates.")
ASSUMPTIONS = ["Adam and SGD keep their moments between calls of step until reset; the index i of a step is the one given",
               "the adaptive step of random coordinate descent is step_size/sqrt(i+1) in step and optimize, and uses the count of the coordinate in optimize_and_gradient_norm"]
MIN_EVENTS = {"steps": 2500, "histories": 250, "norms": 100, "resets": 60, "convergence": 40, "coordinates": 400, "defaults": 6, "all-coordinates": 6}


def cost_of(rng, n):
    """(function, gradient, keyword arguments for the optimizer)"""
    if rng.random() < 0.5:
        F = Trig(rng, n)
        kw = gen.choice(rng, [{}, {"method": "psr", "shift": 0.7}, {"shift": -2.0}])
        return F, F.grad, kw, 1e-9
    f, g, _ = smooth(rng, n)
    return f, g, {"method": gen.choice(rng, ["fd", "finite-differences"]), "h": 1e-4}, 1e-6


def new_adam(rng):
    kw = {}
    if rng.random() < 0.8:
        kw = dict(step_size=float(rng.uniform(0.001, 0.3)), b1=float(rng.uniform(0, 0.99)), b2=float(rng.uniform(0.5, 0.9999)),
                  eps=float(gen.choice(rng, [1e-8, 1e-3, 0.5])))
    p = dict(step_size=0.1, b1=0.9, b2=0.999, eps=1e-8)
    p.update(kw)
    return mp.optimizers.AdamOptimizer(**kw), p


def new_sgd(rng):
    kw = {}
    if rng.random() < 0.85:
        kw = dict(step_size=float(rng.uniform(0.001, 0.2)), momentum=float(gen.choice(rng, [0.0, 0.5, 0.9])), nesterov=bool(rng.integers(2)))
    p = dict(step_size=0.1, momentum=0.0, nesterov=False)
    p.update(kw)
    return mp.optimizers.SGDOptimizer(**kw), p


class Adam:
    def __init__(self, p, n):
        self.p, self.m, self.v = p, np.zeros(n), np.zeros(n)

    def step(self, x, g, i):
        p = self.p
        self.m = p["b1"] * self.m + (1 - p["b1"]) * g
        self.v = p["b2"] * self.v + (1 - p["b2"]) * g * g
        mh, vh = self.m / (1 - p["b1"] ** (i + 1)), self.v / (1 - p["b2"] ** (i + 1))
        return x - p["step_size"] * mh / (np.sqrt(vh) + p["eps"])


class SGD:
    def __init__(self, p, n):
        self.p, self.v = p, np.zeros(n)

    def step(self, x, g, i):
        p = self.p
        self.v = p["momentum"] * self.v - p["step_size"] * g
        return x + p["momentum"] * self.v - p["step_size"] * g if p["nesterov"] else x + self.v


def start(rng, n):
    r = rng.random()
    if r < 0.2:
        return rng.integers(-2, 3, size=n)
    if r < 0.3:
        return np.zeros(n)
    return rng.uniform(-2, 2, size=n)


class Recorder:
    def __init__(self):
        self.seen = []

    def __call__(self, x, i):
        self.seen.append((i, x, np.array(x)))


def quiet(fn, verbose):
    if not verbose:
        return fn()
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def history(ctx, rng, opt, fn, x0, N, **kw):
    """runs fn (optimize or optimize_and_gradient_norm) and returns result and iterates"""
    keep = np.array(x0)
    rec = Recorder()
    verbose = rng.random() < 0.2
    use_cb = rng.random() < 0.9
    res = quiet(lambda: fn(num_iters=N, callback=rec, verbose=verbose, **kw), verbose)
    ctx.check(np.array_equal(np.asarray(x0), keep) and np.asarray(x0).dtype == keep.dtype, "the starting point was modified")
    ctx.check([i for i, *_ in rec.seen] == list(range(N)), "indices seen by the callback", got=[i for i, *_ in rec.seen], want=N)
    ctx.check(all(np.array_equal(ref_, val) for _, ref_, val in rec.seen), "an iterate given to the callback was modified later")
    ctx.event("histories")
    return res, [v for *_, v in rec.seen]


def gradient_methods(ctx, rng, make, model):
    big = rng.random()
    n = int(rng.integers(1, 5)) if big > .08 else int(rng.integers(5, 11))
    opt, p = make(rng)
    f, g, kw, tol = cost_of(rng, n)
    x0 = start(rng, n)
    N = int(gen.choice(rng, [0, 1, 2, 3, 5, 12, 25])) if big < .92 else int(rng.integers(26, 130))
    ctx.describe(n=n, params=p, x0=x0, iters=N, kw=kw)
    # near a vanishing gradient the normalised step of Adam amplifies rounding
    for rep in range(2):
        ref_ = model(p, n)
        norm = rng.random() < 0.5
        call = opt.optimize_and_gradient_norm if norm else opt.optimize
        res, xs = history(ctx, rng, opt, lambda **k: call(f, x0, **k), x0, N, **kw)
        last, norms = res if norm else (res, None)
        x = np.asarray(x0, dtype=float)
        grads = []
        for i, y in enumerate(xs):
            gr = g(x)
            if not np.max(np.abs(x)) < 100:      # diverges: rounding of the differences takes over
                grads = None
                x = xs[-1]
                break
            grads.append(np.linalg.norm(gr))
            want = ref_.step(x, gr, i)
            # compare one step at a time; errors of the gradient are amplified by the normalisation of Adam
            slack = tol * 50 * (1 if model is SGD else 1 / (p["eps"] + max(1e-6, np.sqrt(np.min(ref_.v) / (1 - p["b2"] ** (i + 1))))))
            if slack < 1e-2:
                ctx.close(y, want, "an iterate is not the one of the update rule", tol=slack + 1e-9, i=i)
                ctx.event("steps")
            x = y
        ctx.close(last, x, "the result is not the last iterate", tol=0)
        if norm and grads is not None:
            ctx.close(np.asarray(norms, dtype=float), np.asarray(grads), "gradient norms along the path", tol=tol * 20 + 1e-9)
            ctx.event("norms")
        opt.reset()
        ctx.event("resets")
        if N > 2 and n > 1:
            ctx.nontrivial(model.__name__, n, N, tuple(np.round(np.asarray(x0, float), 5)))


@workload(90, 2000)
def adam(ctx, rng):
    gradient_methods(ctx, rng, new_adam, Adam)


@workload(90, 2000)
def sgd(ctx, rng):
    gradient_methods(ctx, rng, new_sgd, SGD)


@workload(60, 1500)
def steps(ctx, rng):
    """step called directly, interleaved with resets and changes of the step size"""
    n = int(rng.integers(1, 5)) if rng.random() < .9 else int(rng.integers(5, 11))
    cls = ctx.idx % 2
    opt, p = (new_adam, new_sgd)[cls](rng)
    model = (Adam, SGD)[cls]
    F = Trig(rng, n)
    ref_ = model(p, n)
    x = rng.uniform(-2, 2, size=n)
    i = 0
    for _ in range(int(rng.integers(3, 20)) if rng.random() < .85 else int(rng.integers(20, 80))):
        r = rng.random()
        if r < 0.1:
            opt.reset()
            ref_ = model(p, n)
            i = 0
            ctx.event("resets")
            continue
        if 0.2 <= r < 0.22:         # many changes in a row: the steps become small
            for _ in range(int(rng.integers(10, 60))):
                opt.update_step_size(x, i, factor=0.75)
                p["step_size"] *= 0.75
            y = opt.step(F, x, i)
            want = ref_.step(x, F.grad(x), i)
            if cls == 0 and np.min(ref_.v) < 1e-4:      # the normalisation of Adam amplifies rounding
                x = np.array(y)
                i += 1
                continue
            ctx.close(y, want, "a small step is not the one of the update rule", tol=1e-14 + 1e-6 * float(np.max(np.abs(want - x))), i=i)
            ctx.event("small-steps")
            x = np.array(y)
            i += 1
            continue
        if 0.22 <= r < 0.3:         # a whole run on another problem in between starts afresh and leaves the moments alone
            G = Trig(rng, int(rng.integers(1, 5)))
            z = z0 = rng.uniform(-2, 2, size=G.n)
            other, rec, N = model(p, G.n), Recorder(), int(rng.integers(1, 6))
            opt.optimize_and_gradient_norm(G, z0, num_iters=N, callback=rec)
            for j, (_, _, y) in enumerate(rec.seen):
                want = other.step(z, G.grad(z), j)
                slack = 1e-8 if cls else 1e-8 / (p["eps"] + max(1e-5, np.sqrt(np.min(other.v) / (1 - p["b2"] ** (j + 1)))))
                if slack < 1e-2:
                    ctx.close(y, want, "a run after single steps is not the update rule from its start", tol=slack + 1e-9, j=j)
                z = y
            ctx.event("runs-between-steps")
            continue
        if 0.3 <= r < 0.36:         # the index is the caller's
            i = int(gen.choice(rng, [0, 0, 1, int(rng.integers(0, 200))]))
        if 0.36 <= r < 0.44:        # optimize goes on from the moments the steps left
            rec = Recorder()
            last = opt.optimize(F, x, num_iters=int(rng.integers(1, 4)), callback=rec)
            for j, (_, _, y) in enumerate(rec.seen):
                want = ref_.step(x, F.grad(x), j)
                slack = 1e-8 if cls else 1e-8 / (p["eps"] + max(1e-5, np.sqrt(np.min(ref_.v) / (1 - p["b2"] ** (j + 1)))))
                if slack < 1e-2:
                    ctx.close(y, want, "optimize after single steps", tol=slack + 1e-9, j=j)
                x = y
            ctx.event("runs-between-steps")
            i = len(rec.seen)
            continue
        if r < 0.2:
            k = float(rng.uniform(0.5, 1.2))
            if rng.random() < .5:
                opt.update_step_size(x, i)
                k = 0.99
            else:
                opt.update_step_size(x, i, factor=k)
            p["step_size"] *= k
            continue
        keep = x.copy()
        y = opt.step(F, x, i)
        ctx.close(x, keep, "step modified the point", tol=0)
        g = F.grad(x)
        want = ref_.step(x, g, i)
        slack = 1e-8 if cls else 1e-8 / (p["eps"] + max(1e-5, np.sqrt(np.min(ref_.v) / (1 - p["b2"] ** (i + 1)))))
        if slack < 1e-2:
            ctx.close(y, want, "a step is not the one of the update rule", tol=slack + 1e-9, i=i)
            ctx.event("steps")
        x = np.array(y)
        i += 1


@workload(80, 2000)
def coordinate_descent(ctx, rng):
    n = int(rng.integers(1, 4)) if rng.random() < .9 else int(rng.integers(4, 9))
    kw = dict(step_size=float(rng.uniform(0.01, 0.4)), adaptive=bool(rng.integers(2))) if rng.random() < .8 else {}
    p = dict(step_size=0.1, adaptive=False)
    p.update(kw)
    opt = mp.optimizers.RCDOptimizer(**kw)
    F = Trig(rng, n)
    x0 = start(rng, n)
    if rng.random() < .3:                     # the step size was changed before, also many times
        for _ in range(int(rng.integers(1, 45))):
            k = float(gen.choice(rng, [0.6, 0.8, 0.99, 1.05]))
            opt.update_step_size(x0, 0, factor=k)
            p["step_size"] *= k
        ctx.event("small-steps")
    N = int(gen.choice(rng, [0, 1, 5, 20, 80]))
    ctx.describe(n=n, params=p, x0=x0, iters=N)
    norm = rng.random() < 0.5
    call = opt.optimize_and_gradient_norm if norm else opt.optimize
    res, xs = history(ctx, rng, opt, lambda **k: call(F, x0, **k), x0, N)
    last, norms = res if norm else (res, None)
    x = np.asarray(x0, dtype=float)
    counts = np.zeros(n)
    moved = set()
    clear = True     # are the counts of coordinates known?
    for i, y in enumerate(xs):
        g = F.grad(x)
        ch = [k for k in range(n) if y[k] != x[k]]
        ctx.check(len(ch) <= 1, "more than one coordinate was changed", i=i, changed=ch)
        if norm:
            cands = [k for k in range(n) if abs(abs(g[k]) - norms[i]) < 1e-5]
            ctx.check(cands and (not ch or ch[0] in cands), "the reported norm is not the partial derivative of the coordinate", i=i, norm=norms[i], grad=g)
        if not ch:
            clear = False if n > 1 else clear
            ctx.check(np.min(np.abs(g)) * min(1, p["step_size"] / np.sqrt(i + 1)) < 1e-8, "an iteration left every coordinate as it was", i=i, grad=g)
            if n == 1:
                counts[0] += 1
            continue
        k = ch[0]
        moved.add(k)
        counts[k] += 1
        s = p["step_size"]
        if p["adaptive"]:
            if norm and not clear:
                x = y
                continue
            s /= np.sqrt(counts[k] if norm else i + 1)
        ctx.close(y[k], x[k] - s * g[k], "a step is not the one of the update rule", tol=1e-7 * s + 1e-13, i=i, coordinate=k)
        ctx.event("coordinates")
        x = y
    ctx.close(np.asarray(last, float), x, "the result is not the last iterate", tol=0)
    if norm:
        ctx.check(len(norms) == N, "number of norms")
        ctx.event("norms")
    if N == 80:
        for k in range(n):
            if all(abs(F.grad(y)[k]) > 1e-4 for y in [np.asarray(x0, float)] + xs):
                ctx.check(k in moved, "a coordinate is never chosen", coordinate=k)
    if N > 2 and n > 1:
        ctx.nontrivial("rcd", n, N, tuple(np.round(np.asarray(x0, float), 5)))


@workload(6, 60)
def every_coordinate(ctx, rng):
    """in a long run every coordinate of a large problem is changed (missing one has a probability below 1e-12)"""
    n = int(rng.integers(8, 16))
    c = rng.uniform(1, 2, size=n) * rng.choice([-1, 1], size=n)
    f = lambda x: float(np.sum(np.sin(np.asarray(x) - c)))
    opt = mp.optimizers.RCDOptimizer(step_size=0.001)
    x0 = np.array(c)
    seen = np.zeros(n, dtype=int)
    xs = [x0.copy()]

    def cb(x, i):
        seen[np.flatnonzero(np.asarray(x) != xs[-1])] += 1
        xs.append(np.array(x))

    N = 32 * n
    ctx.describe(n=n, c=c)
    (opt.optimize if rng.random() < .5 else opt.optimize_and_gradient_norm)(f, x0, num_iters=N, callback=cb)
    ctx.check(seen.min() > 0 and seen.sum() == N, "a coordinate is never chosen", counts=seen)
    ctx.check(seen.max() < 32 + 7 * np.sqrt(32 * (1 - 1 / n)) + 8, "coordinates are not chosen uniformly", counts=seen)
    ctx.event("all-coordinates")
    ctx.nontrivial("rcd", n, tuple(np.round(c, 5)))


@workload(16, 64)
def defaults(ctx, rng):
    """the defaults of the signatures: 100 iterations, silent, no momentum, no Nesterov term"""
    n = int(rng.integers(1, 3))
    kind = ctx.idx % 4
    F = Trig(rng, n)
    x0 = start(rng, n)
    m = float(rng.uniform(0.2, 0.9))
    opt, model = [(mp.optimizers.AdamOptimizer(), Adam(dict(step_size=0.1, b1=0.9, b2=0.999, eps=1e-8), n)),
                  (mp.optimizers.SGDOptimizer(), SGD(dict(step_size=0.1, momentum=0.0, nesterov=False), n)),
                  (mp.optimizers.SGDOptimizer(0.1, m) if rng.random() < .5 else mp.optimizers.SGDOptimizer(momentum=m),
                   SGD(dict(step_size=0.1, momentum=m, nesterov=False), n)),
                  (mp.optimizers.RCDOptimizer(), None)][kind]
    norm = bool(ctx.idx // 4 % 2)
    out = io.StringIO()
    rec = Recorder()
    with contextlib.redirect_stdout(out):
        res = (opt.optimize_and_gradient_norm if norm else opt.optimize)(F, x0, callback=rec)
    ctx.describe(kind=kind, norm=norm, x0=x0)
    ctx.check(out.getvalue() == "", "an optimizer printed without verbose", got=out.getvalue()[:80])
    ctx.check([i for i, *_ in rec.seen] == list(range(100)), "default number of iterations", got=len(rec.seen))
    if norm:
        ctx.check(len(res[1]) == 100, "default number of norms")
    if model and kind:
        x = np.asarray(x0, dtype=float)
        for i, (_, _, y) in enumerate(rec.seen):
            ctx.close(y, model.step(x, F.grad(x), i), "an iterate is not the one of the default update rule", tol=1e-8, i=i)
            x = y
    elif kind == 0:
        ctx.close(rec.seen[0][2], model.step(np.asarray(x0, float), F.grad(x0), 0), "first default step of Adam", tol=1e-3)
    ctx.event("defaults")


@workload(48, 600)
def convergence(ctx, rng):
    """strongly convex quadratics with suitable steps"""
    n = int(rng.integers(1, 4))
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    lam = rng.uniform(0.5, 2.0, size=n)
    A = Q @ np.diag(lam) @ Q.T
    c = rng.normal(size=n)
    f = lambda x: float(0.5 * (x - c) @ A @ (x - c))
    x0 = rng.uniform(-2, 2, size=n)
    kind = ctx.idx % 4
    vals = [f(x0)]
    cb = lambda x, i: vals.append(f(np.asarray(x)))
    fd = dict(method="fd", h=1e-4)
    if kind == 0:
        mp.optimizers.SGDOptimizer(step_size=0.4).optimize(f, x0, num_iters=60, callback=cb, **fd)
    elif kind == 1:
        mp.optimizers.RCDOptimizer(step_size=0.4).optimize(f, x0, num_iters=150, callback=cb)
    elif kind == 2:
        mp.optimizers.SGDOptimizer(step_size=0.1, momentum=0.5, nesterov=bool(rng.integers(2))).optimize(f, x0, num_iters=200, callback=cb, **fd)
    else:
        mp.optimizers.AdamOptimizer(step_size=0.1).optimize(f, x0, num_iters=400, callback=cb, **fd)
    if kind < 2:
        ctx.check(all(b <= a + 1e-7 for a, b in zip(vals, vals[1:])), "the cost increased on a convex function with a small step", kind=kind)
    ctx.check(vals[-1] < 1e-2 * max(vals[0], 0.1), "no convergence on a convex function", kind=kind, first=vals[0], last=vals[-1])
    ctx.event("convergence")
