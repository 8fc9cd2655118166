"""C22: gradients and Hessians."""
import itertools
import numpy as np
import mentpy as mp
from mentpy.gradients import get_gradient, get_hessian
from vmon import gen, ref
from vmon.core import workload

RULE = ("random trigonometric polynomials of degree one in each of up to 12 coordinates (mostly at most 5) with closed-form derivatives, evaluated "
        "through functions that record the points asked for; random smooth functions for finite differences; expectation values and "
        "fidelities of simulated circuits; non-trivial: at least two coordinates.")
ASSUMPTIONS = ["shifts stay 0.15 away from multiples of pi, tolerances scale with rounding divided by sin(shift)"]
MIN_EVENTS = {"psr_gradients": 250, "psr_hessians": 120, "fd_gradients": 200, "fd_hessians": 100, "rejected": 20, "circuits": 12}

PSR = ["parameter-shift", "psr", "parametershift"]
FD = ["finite-differences", "fd", "finitedifferences"]


class Trig:
    """sum over functions in {1, cos, sin}^n"""

    def __init__(self, rng, n):
        if n > 5:
            self.t = [(tuple(int(v) for v in rng.integers(3, size=n)), float(rng.normal())) for _ in range(10)]
            # every coordinate matters on its own
            self.t += [(tuple(int(i == j) * int(rng.integers(1, 3)) for j in range(n)), float(rng.normal())) for i in range(n)]
            self.n = n
            return
        terms = list(itertools.product(range(3), repeat=n))
        k = min(len(terms), int(rng.integers(2, 14)))
        self.t = [(terms[i], float(rng.normal())) for i in rng.choice(len(terms), size=k, replace=False)]
        self.n = n

    @staticmethod
    def f(kind, x, d):
        if kind == 0:
            return 1.0 if d == 0 else 0.0
        if kind == 2:
            x = x - np.pi / 2
        return np.cos(x + d * np.pi / 2)

    def __call__(self, x, d=None):
        d = d or [0] * self.n
        return sum(c * np.prod([self.f(k, float(x[i]), d[i]) for i, k in enumerate(t)]) for t, c in self.t)

    def grad(self, x):
        return np.array([self(x, [int(i == j) for j in range(self.n)]) for i in range(self.n)])

    def hess(self, x):
        return np.array([[self(x, [int(i == k) + int(j == k) for k in range(self.n)]) for j in range(self.n)] for i in range(self.n)])


def dimension(rng):
    return int(rng.integers(1, 6)) if rng.random() < 0.92 else int(rng.integers(6, 13))


def shift_of(rng):
    while True:
        s = gen.choice(rng, [1.5, np.pi / 2, -1.0, float(rng.uniform(-7, 7)), 0.3, np.pi / 4, 3 * np.pi / 2])
        if abs(np.sin(s)) > 0.15:
            return s


def point(rng, n):
    r = rng.random()
    if r < 0.15:
        return rng.integers(-3, 4, size=n)
    if r < 0.3:
        return np.zeros(n)
    if r < 0.4:
        return [float(v) for v in rng.normal(size=n)]
    return rng.uniform(-7, 7, size=n)


def unchanged(ctx, x, keep):
    ctx.check(np.array_equal(np.asarray(x), keep) and np.asarray(x).dtype == keep.dtype, "the point was modified")


@workload(300, 6000)
def shift_rule(ctx, rng):
    n = dimension(rng) if ctx.idx % 20 else int(rng.integers(15, 60))
    F = Trig(rng, n)
    x = point(rng, n)
    keep = np.array(x)
    ctx.describe(n=n, x=list(x), terms=F.t)
    if rng.random() < 0.3:
        args, kw = (), {}
    elif rng.random() < 0.5:
        args, kw = (shift_of(rng),), {}
    else:
        args, kw = (), {"shift": shift_of(rng)}
    s = args[0] if args else kw.get("shift", 1.5)
    m = gen.choice(rng, PSR + [None])
    head = () if m is None and not args else ((m or "psr"),)
    g = get_gradient(F, x, *head, *args, **kw)
    ctx.close(g, F.grad(x), "parameter-shift gradient", tol=1e-10 / np.sin(s) ** 2, shift=s)
    unchanged(ctx, x, keep)
    ctx.event("psr_gradients")
    if rng.random() < 0.5 and n < 15:
        h = get_hessian(F, x, *head, *args, **kw)
        ctx.close(h, F.hess(x), "parameter-shift Hessian", tol=1e-9 / np.sin(s) ** 4, shift=s)
        unchanged(ctx, x, keep)
        ctx.event("psr_hessians")
    if n > 1:
        ctx.nontrivial(n, tuple(np.round(keep, 6)))


def smooth(rng, n):
    A = rng.normal(size=(n, n))
    A = A + A.T
    b = rng.normal(size=n)
    c = rng.normal(size=n)
    f = lambda x: float(0.5 * x @ A @ x + b @ x + np.sin(c @ x))
    g = lambda x: A @ x + b + c * np.cos(c @ x)
    h = lambda x: A - np.outer(c, c) * np.sin(c @ x)
    return f, g, h


@workload(220, 4000)
def differences(ctx, rng):
    n = dimension(rng) if ctx.idx % 20 else int(rng.integers(15, 40))
    F = Trig(rng, n)
    x = point(rng, n)
    keep = np.array(x)
    h = float(gen.choice(rng, [1e-5, 1e-3, 0.1, 0.5, 1.0, rng.uniform(0.01, 2)]))
    typ = gen.choice(rng, ["central", "forward", "backward"])
    ctx.describe(n=n, h=h, type=typ)
    kw = dict(h=h, type=typ)
    p = np.asarray(x, dtype=float)
    e = np.eye(n) * h
    d = {"central": lambda i: (F(p + e[i]) - F(p - e[i])) / (2 * h), "forward": lambda i: (F(p + e[i]) - F(p)) / h,
         "backward": lambda i: (F(p) - F(p - e[i])) / h}[typ]
    m = gen.choice(rng, FD)
    args = gen.choice(rng, [None, 1])
    g = get_gradient(F, x, m, **kw) if args is None else get_gradient(F, x, m, h, typ)
    ctx.close(g, [d(i) for i in range(n)], "finite-difference gradient", tol=1e-12 / h + 1e-12, **kw)
    unchanged(ctx, x, keep)
    ctx.event("fd_gradients")
    if h >= 1e-3 and n < 15:
        a, b = {"central": (1, -1), "forward": (1, 0), "backward": (0, -1)}[typ]
        w = (a - b) * h
        q = lambda i, j: (F(p + a * e[i] + a * e[j]) - F(p + a * e[i] + b * e[j]) - F(p + b * e[i] + a * e[j]) + F(p + b * e[i] + b * e[j])) / w ** 2
        H = get_hessian(F, x, m, **kw) if args is None else get_hessian(F, x, m, h, typ)
        ctx.close(H, [[q(i, j) for j in range(n)] for i in range(n)], "finite-difference Hessian", tol=1e-12 / h ** 2 + 1e-12, **kw)
        unchanged(ctx, x, keep)
        ctx.event("fd_hessians")
    # convergence to the derivative, with defaults as well
    if n >= 15:
        return
    f, df, ddf = smooth(rng, n)
    y = rng.uniform(-2, 2, size=n)
    ctx.close(get_gradient(f, y, m), df(y), "default finite-difference gradient", tol=1e-4)
    ctx.close(get_gradient(f, y, m, h=1e-6, type=typ), df(y), "finite-difference gradient at a small step", tol=1e-3)
    ctx.close(get_hessian(f, y, m), ddf(y), "default finite-difference Hessian", tol=3e-3)
    ctx.close(get_hessian(f, y, m, h=1e-3, type=typ), ddf(y), "finite-difference Hessian at a small step", tol=0.25)
    if n > 1:
        ctx.nontrivial("fd", n, h, typ)


@workload(24, 40)
def rejected(ctx, rng):
    F = Trig(rng, 2)
    x = np.ones(2)
    fn = gen.choice(rng, [get_gradient, get_hessian])
    if ctx.idx % 2:
        m = gen.choice(rng, ["", "PSR", "parameter", "finite", "spsa", None, 3])
        ctx.raises((UserWarning, ValueError), lambda: fn(F, x, m), "unknown method")
    else:
        t = gen.choice(rng, ["", "Central", "centre", "both", None])
        ctx.raises((UserWarning, ValueError), lambda: fn(F, x, gen.choice(rng, FD), type=t), "unknown type of difference")
    ctx.event("rejected")


@workload(32, 400)
def circuits(ctx, rng):
    """fidelities and expectation values of circuits are trigonometric polynomials of the angles"""
    spec = gen.measure_xy(rng, gen.flow_spec(rng, wires=(1, 2), nmax=5), p_train=0.9)
    c = spec.make(mp, rng)
    n = len(c.trainable_nodes)
    if not n:
        return
    ctx.describe(**spec.desc())
    sim = mp.PatternSimulator(c, backend=gen.choice(rng, ["numpy-sv", "numpy-dm"]))
    k = len(c.output_nodes)
    phi = gen.haar(rng, k)

    def fid(rho):
        rho = np.asarray(rho)
        return float(abs(np.vdot(phi, rho)) ** 2 if rho.ndim == 1 else np.real(np.conj(phi) @ rho @ phi))

    def cost(a):
        sim.reset()
        return fid(sim.run(list(a)))

    def exact(a):
        v = spec.expected(np.ones(2 ** len(spec.inputs)) / np.sqrt(2 ** len(spec.inputs)), list(a), c.trainable_nodes)
        return fid(v / np.linalg.norm(v))

    x = rng.uniform(-3, 3, size=n)
    h = 1e-5
    want = [(exact(x + h * e) - exact(x - h * e)) / (2 * h) for e in np.eye(n)]
    ctx.close(get_gradient(cost, x, shift=shift_of(rng)), want, "gradient of the fidelity of a circuit", tol=1e-6)
    ctx.event("circuits")


@workload(40, 400)
def variance(ctx, rng):
    """variance of repeated gradient estimates"""
    n, N = int(rng.integers(1, 5)), int(rng.integers(1, 12)) if rng.random() < .9 else int(rng.integers(12, 80))
    seen = []

    kw = {} if rng.random() < .5 else {"scale": 3.0}

    def estimate(f, x, scale=1.0):
        ctx.check(f == "cost" and x == "point" and scale == kw.get("scale", 1.0), "arguments of the estimator")
        g = rng.normal(size=n) * scale
        seen.append(g)
        return g

    num = {} if rng.random() < .3 else {"num_samples": N}
    v = mp.optimizers.compute_gradient_variance("cost", "point", estimate, **num, **kw)
    ctx.check(len(seen) == num.get("num_samples", 10), "number of estimates", got=len(seen))
    m = sum(seen) / len(seen)
    ctx.close(v, sum((g - m) ** 2 for g in seen) / len(seen), "variance of the gradient", tol=1e-9)
    ctx.event("variances")
