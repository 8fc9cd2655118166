"""C12: measurement operators."""
import copy
import pickle
import numpy as np
import mentpy as mp
from vmon import gen, ref
from vmon.core import workload

RULE = ("all planes x special and random angles x every accepted spelling of the constructor, matrices and POVMs against "
        "the cos/sin definition; fixed/trainable angle rules; copies under later edits; controlled measurements with "
        "random Boolean conditions on every assignment of their outcomes; non-trivial: an angle that is no multiple of pi, or a "
        "condition.")
ASSUMPTIONS = ["tolerance 1e-12 x scale"]
MIN_EVENTS = {"operators": 300, "spellings": 300, "refused": 200, "controlled": 200, "copies": 100, "constant-condition": 60, "histories": 250}

PLANES = ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"]


def rand_angle(rng, plane):
    if plane == "XYZ":
        return (gen.angle(rng), gen.angle(rng))
    a = gen.angle(rng)
    if rng.random() < 0.08:
        a = float(10 ** rng.uniform(1, 4) * gen.choice(rng, [-1, 1]))      # many turns
    if rng.random() < 0.2:
        a = int(rng.integers(-5, 6))
    return a


def spellings(rng, plane, angle):
    p = plane if rng.random() < 0.6 else gen.choice(rng, [plane.lower(), plane.capitalize()])
    if plane in ("X", "Y", "Z"):
        return [lambda: mp.Ment(p), lambda: mp.Ment(plane=p), lambda: mp.Ment(0, p), lambda: mp.Ment(p, 0),
                lambda: mp.Ment(None, p), lambda: mp.Ment(angle=0, plane=p), lambda: mp.Ment(p, plane=None), lambda: mp.Ment(angle=p)]
    if angle is None:
        out = [lambda: mp.Ment(p), lambda: mp.Ment(plane=p), lambda: mp.Ment(None, p), lambda: mp.Ment(angle=p), lambda: mp.Ment(p, None)]
        return out + ([lambda: mp.Ment(), lambda: mp.Ment(None), lambda: mp.Ment(None, None)] if plane == "XY" else [])
    out = [lambda: mp.Ment(angle, p), lambda: mp.Ment(p, angle), lambda: mp.Ment(angle=angle, plane=p),
           lambda: mp.Ment(plane=p, angle=angle), lambda: mp.Ment(angle=p, plane=angle), lambda: mp.Measurement(angle, p)]
    return out + ([lambda: mp.Ment(angle), lambda: mp.Ment(angle, None)] if plane == "XY" else [])


def judge_operator(ctx, m, plane, angle, given, msg):
    M = np.asarray(m.matrix(given) if given is not None else m.matrix())
    want = ref.observable(plane, angle)
    ctx.close(M, want, msg + ": observable", 1e-9, plane=plane, angle=angle)
    ctx.close(M @ M, np.eye(2), msg + ": not unitary and Hermitian", 1e-9)
    p0, p1 = m.get_povm(given) if given is not None else m.get_povm()
    for b, p in enumerate((p0, p1)):
        ctx.close(p, ref.density(ref.ket(plane, angle, b)), msg + f": projector of outcome {b}", 1e-9, plane=plane, angle=angle)
    ctx.close(np.asarray(p0) + np.asarray(p1), np.eye(2), msg + ": projectors are not complementary", 1e-12)
    ctx.event("operators")


@workload(400, 10000)
def operators(ctx, rng):
    plane = gen.choice(rng, PLANES)
    angle = 0 if len(plane) == 1 else (None if rng.random() < 0.4 else rand_angle(rng, plane))
    ctx.describe(plane=plane, angle=angle)
    for mk in spellings(rng, plane, angle):
        m = mk()
        ctx.check(m.plane == plane and m.angle == angle and m.is_trainable() == (angle is None), "constructor", plane=m.plane, angle=m.angle)
        ctx.event("spellings")
    if angle is None:
        for _ in range(2):
            a = rand_angle(rng, plane)
            judge_operator(ctx, m, plane, a, a, "trainable")
        ctx.check(m.angle is None and m.is_trainable(), "asking for the matrix fixed the angle")
        ctx.raises(ValueError, m.matrix, "a trainable measurement without an angle")
        ctx.raises(ValueError, m.get_povm, "a trainable measurement without an angle")
        ctx.event("refused")
    else:
        judge_operator(ctx, m, plane, angle, None, "fixed")
        judge_operator(ctx, m, plane, angle, angle, "fixed, same angle given")
        other = rand_angle(rng, "XYZ" if plane == "XYZ" else "XY")
        if plane != "XYZ" and rng.random() < 0.3:       # near the fixed angle, a full or half turn away
            other = float(angle) + float(gen.choice(rng, [5e-4, -1e-3, 1e-5, np.pi, 2 * np.pi, -2 * np.pi]))
        if other != angle:
            ctx.raises((ValueError, TypeError), lambda: m.matrix(other), "overriding a fixed angle")
            ctx.raises((ValueError, TypeError), lambda: m.get_povm(other), "overriding a fixed angle")
            ctx.check(m.angle == angle, "a refused angle was kept")
            ctx.event("refused")
    if angle not in (None, 0):
        ctx.nontrivial(plane, angle)
    repr(m), str(m)


@workload(100, 1000)
def refusals(ctx, rng):
    r = ctx.idx % 4
    if r == 0:
        p = gen.choice(rng, ["XX", "W", "", "YX", "ZX", "ZY", "ZYX", "I", "xw"])
        ctx.raises(ValueError, lambda: gen.choice(rng, [lambda: mp.Ment(p), lambda: mp.Ment(plane=p), lambda: mp.Ment(0.3, p)])(), f"plane {p!r}")
    elif r == 1:
        p, a = gen.choice(rng, "X Y Z".split()), gen.choice(rng, [0.1, -1, np.pi, 2 * np.pi])
        ctx.raises(ValueError, lambda: gen.choice(rng, [lambda: mp.Ment(a, p), lambda: mp.Ment(p, a)])(), "angle for a Pauli plane")
    elif r == 2:
        ctx.raises(TypeError, lambda: mp.Ment(gen.choice(rng, [[0.1], {"a": 1}, object()])), "angle of a wrong type")
    else:
        m = gen.choice(rng, [mp.Ment("XYZ"), mp.Ment("xyz")])
        ctx.raises(TypeError, lambda: m.matrix(0.3), "a single angle for XYZ")
    ctx.event("refused")


@workload(150, 3000)
def copies(ctx, rng):
    plane = gen.choice(rng, PLANES[:4])
    angle = None if rng.random() < 0.5 else rand_angle(rng, plane)
    if rng.random() < 0.5:
        a = mp.Ment(angle, plane)
    else:
        a = mp.ControlMent(bool(rng.integers(2)), 0.25, "YZ", angle, plane)
    ctx.describe(plane=plane, angle=angle, kind=type(a).__name__)
    data = lambda m: ((gen.branches(m), m.condition()) if isinstance(m, mp.ControlMent) else (m.plane, m.angle), type(m), m.is_trainable())
    b = gen.choice(rng, [lambda: a.copy(), lambda: copy.deepcopy(a)])()
    ctx.check(data(a) == data(b) and a is not b, "copies differ", a=str(a), b=str(b))
    old = data(a)
    new = rand_angle(rng, plane)
    r = b.set_angle(new)
    ctx.check(r is b and gen.branches(b)[0] == (plane, new) and not b.is_trainable() if isinstance(b, mp.ControlMent) else r is b and b.angle == new and not b.is_trainable(), "set_angle")
    b.node_id = 17
    ctx.check(data(a) == old and a.node_id == -1, "editing a copy changed the original")
    a.node_id = 4
    ctx.check(b.node_id == 17 and b.outcome({17: 1}) == 1 and a.outcome({4: 0, 17: 1}) == 0, "outcomes of copies are mixed up")
    ctx.check(set(a.outcome.cond_nodes) == {4} and set(b.outcome.cond_nodes) == {17}, "nodes of the outcomes of copies")
    if isinstance(b, mp.ControlMent):
        ctx.check(gen.branches(b)[1] == ("YZ", 0.25) and b.condition() == a.condition(), "branches of a copy")
    ctx.event("copies")
    ctx.nontrivial(plane, angle, type(a).__name__, new)


def branch(rng):
    plane = gen.choice(rng, PLANES)
    if len(plane) == 1:
        return plane, 0, [gen.choice(rng, [0, None]), plane]
    a = None if rng.random() < 0.4 else rand_angle(rng, plane)
    return plane, a, [a, plane]


@workload(400, 8000)
def controlled(ctx, rng):
    nodes = [int(v) for v in rng.choice(20, size=int(rng.integers(1, 4) if rng.random() < .95 else rng.integers(4, 7)), replace=False)]
    outs = []
    for v in nodes:
        m = mp.Ment("Z")
        m.node_id = v
        outs.append(m.outcome)
    fn = lambda x: bool(x[nodes[0]])
    lib = outs[0]
    for v, o in zip(nodes[1:], outs[1:]):
        k = rng.integers(3)
        lib = [lib ^ o, lib & o, lib | o][k]
        fn = [lambda x, f=fn, v=v: f(x) ^ bool(x[v]), lambda x, f=fn, v=v: f(x) and bool(x[v]), lambda x, f=fn, v=v: f(x) or bool(x[v])][k]
    if rng.random() < 0.3:
        lib, fn = ~lib, (lambda x, f=fn: not f(x))
    if rng.random() < 0.2:
        val = bool(rng.integers(2))
        lib, fn = val, (lambda x: val)
    (tp, ta, targs), (fp, fa, fargs) = branch(rng), branch(rng)
    ctx.describe(nodes=nodes, true=(tp, ta), false=(fp, fa))
    if rng.random() < 0.5:
        m = mp.ControlMent(lib, *targs, *fargs)
    else:
        m = mp.ControlMent(condition=lib, true_angle=targs[0], true_plane=targs[1], false_angle=fargs[0], false_plane=fargs[1])
    if rng.random() < 0.3:
        m = m.copy()
    elif rng.random() < 0.2:
        m2 = mp.ControlMent(True, *targs, *fargs)
        m2.condition = lib
        m = m2
    trainable = (ta is None and len(tp) > 1) or (fa is None and len(fp) > 1)
    ctx.check(m.is_trainable() == trainable, "is_trainable of a controlled measurement")
    for bits in range(2 ** len(nodes)):
        x = {v: bits >> i & 1 for i, v in enumerate(nodes)}
        t = bool(fn(x))
        plane, ang = (tp, ta) if t else (fp, fa)
        ctx.check(bool(m.condition(x)) == t, "condition")
        ctx.check(m.plane(x) == plane and m.angle(x) == ang, "branch", x=x, plane=m.plane(x), angle=m.angle(x), want=(plane, ang))
        if ang is None:
            a = rand_angle(rng, plane)
            M, want = m.matrix(a, x), ref.observable(plane, a)
            P = m.get_povm(a, x)
            ctx.raises(ValueError, lambda: m.matrix(None, x), "a trainable branch without an angle")
        else:
            a = ang
            given = rand_angle(rng, "XY") if trainable else None
            M, want = m.matrix(given, x), ref.observable(plane, a)
            P = m.get_povm(given, x)
            if not trainable:
                ctx.raises(ValueError, lambda: m.matrix(0.3, x), "an angle for a controlled measurement that is not trainable")
        ctx.close(M, want, "observable of the branch", 1e-9, x=x)
        for b in (0, 1):
            ctx.close(P[b], ref.density(ref.ket(plane, a, b)), f"projector {b} of the branch", 1e-9, x=x)
        ctx.event("controlled")
    if not isinstance(lib, bool) and None not in (ta, fa):
        # without outcomes, the branch that a false condition selects
        ctx.check(m.plane() == fp and m.angle() == fa, "plane and angle without outcomes", plane=m.plane(), angle=m.angle(), want=(fp, fa))
    ctx.raises(TypeError, lambda: setattr(m, "condition", gen.choice(rng, [1, "x", None, 0.5])), "a condition of a wrong type")
    ctx.event("refused")
    ctx.nontrivial(nodes, tp, ta, fp, fa)


@workload(200, 3000)
def constant_condition(ctx, rng):
    """a condition that is True or False needs no outcomes"""
    tp, ta, targs = branch(rng)
    fp, fa, fargs = branch(rng)
    t = bool(rng.integers(2))
    m = mp.ControlMent(t, *targs, *fargs)
    if rng.random() < 0.3:
        m = m.copy()
    elif rng.random() < 0.3:
        m2 = mp.ControlMent(not t, *targs, *fargs)
        m2.condition = t
        m = m2
    plane, ang = (tp, ta) if t else (fp, fa)
    ctx.describe(condition=t, true=(tp, ta), false=(fp, fa))
    x = {0: int(rng.integers(2))}
    for args in ((), (x,)):
        ctx.check(bool(m.condition(*args)) == t, "constant condition", args=args)
        ctx.check(m.plane(*args) == plane and m.angle(*args) == ang, "branch of a constant condition", args=args,
                  plane=m.plane(*args), angle=m.angle(*args))
        a = ang
        given = None
        if ang is None:
            given = a = rand_angle(rng, plane)
            ctx.raises(ValueError, lambda: m.matrix(None, *args), "a trainable branch without an angle")
        ctx.close(m.matrix(given, *args), ref.observable(plane, a), "observable of a constant condition", 1e-9, args=args)
        for b, P in enumerate(m.get_povm(given, *args)):
            ctx.close(P, ref.density(ref.ket(plane, a, b)), f"projector {b} of a constant condition", 1e-9, args=args)
    ctx.event("constant-condition")
    ctx.nontrivial(t, tp, ta, fp, fa)


def scribble(rng, *arrays):
    """the caller overwrites what was returned"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = int(rng.integers(2, 9))


@workload(150, 3000)
def edited(ctx, rng):
    """one measurement over a history of new angles, new conditions and new node ids: every answer is the present one, and what
    was returned earlier is the caller's own"""
    log = []
    if rng.random() < 0.5:
        plane = gen.choice(rng, PLANES)
        angle = 0 if len(plane) == 1 else (None if rng.random() < 0.3 else rand_angle(rng, plane))
        m = mp.Ment(plane) if len(plane) == 1 else mp.Ment(angle, plane)
        for _ in range(int(rng.integers(3, 7))):
            if len(plane) > 1 and rng.random() < 0.6:
                angle = None if rng.random() < 0.15 else rand_angle(rng, plane)
                ctx.check(m.set_angle(angle) is m, "set_angle returns the measurement")
            log.append(angle)
            ctx.describe(plane=plane, log=log)
            ctx.check(m.angle == angle and m.plane == plane and m.is_trainable() == (angle is None), "attributes after an edit")
            a = angle if angle is not None else rand_angle(rng, plane)
            judge_operator(ctx, m, plane, a, a if angle is None else None, "edited")
            if angle is None:
                ctx.raises(ValueError, m.matrix, "a trainable measurement without an angle")
                ctx.event("refused")
            given = a if angle is None else None
            scribble(rng, m.matrix(given), *m.get_povm(given))
            judge_operator(ctx, m, plane, a, given, "after the returned arrays were overwritten")
            ctx.event("histories")
    else:
        t = bool(rng.integers(2))
        (tp, ta, targs), (fp, fa, fargs) = branch(rng), branch(rng)
        m = mp.ControlMent(t, *targs, *fargs)
        src = []
        for v in (3, 8):
            z = mp.Ment("Z")
            z.node_id = v
            src.append(z.outcome)
        fn = lambda x, t=t: t
        const = True
        for _ in range(int(rng.integers(3, 8))):
            r = gen.choice(rng, ["cond", "cond", "const", "angle", "none"])
            if r == "cond":
                i, inv = int(rng.integers(2)), bool(rng.integers(2))
                m.condition = ~src[i] if inv else src[i]
                fn, const = (lambda x, v=(3, 8)[i], inv=inv: bool(x[v]) ^ inv), False
            elif r == "const":
                t = bool(rng.integers(2))
                m.condition, fn, const = t, (lambda x, t=t: t), True
            elif r == "angle" and len(fp) > 1:
                fa = None if rng.random() < 0.2 else rand_angle(rng, fp)
                m.set_angle(fa)
            log.append((r, fa))
            ctx.describe(true=(tp, ta), false=(fp, fa), log=log)
            trainable = (ta is None and len(tp) > 1) or (fa is None and len(fp) > 1)
            ctx.check(m.is_trainable() == trainable, "is_trainable after an edit")
            for args in [({3: a, 8: b},) for a in (0, 1) for b in (0, 1)] + ([()] if const else []):
                c = bool(fn(*args)) if args else bool(fn(None))
                plane, ang = (tp, ta) if c else (fp, fa)
                ctx.check(bool(m.condition(*args)) == c, "condition after an edit", args=args)
                ctx.check(m.plane(*args) == plane and m.angle(*args) == ang, "branch after an edit", args=args, got=(m.plane(*args), m.angle(*args)), want=(plane, ang))
                given = None if ang is not None else rand_angle(rng, plane)
                for round_ in range(2):
                    M, P = m.matrix(given, *args), m.get_povm(given, *args)
                    ctx.close(M, ref.observable(plane, ang if given is None else given), "observable after an edit", 1e-9, args=args)
                    for b in (0, 1):
                        ctx.close(P[b], ref.density(ref.ket(plane, ang if given is None else given, b)), f"projector {b} after an edit", 1e-9, args=args)
                    scribble(rng, M, *P)
            ctx.event("histories")
    ctx.nontrivial(log)
