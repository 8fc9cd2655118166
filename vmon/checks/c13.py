"""C13: outcome expressions as Boolean functions."""
import itertools
import numpy as np
import mentpy as mp
from vmon import gen
from vmon.core import workload

RULE = ("random expression trees (up to 25 operators, sharing sub-expressions) over up to 8 outcomes (mostly at most 5), constants and callables; "
        "each is evaluated on all assignments (as int, bool and numpy bits) against the same tree evaluated on bits, and all "
        "sub-expressions are re-evaluated after the whole tree was built; renaming; non-trivial: at least two different nodes.")
ASSUMPTIONS = ["an integer constant in a comparison, power, quotient or remainder keeps its value (m < 2 always holds), elsewhere it counts modulo 2", "true division is not used"]
MIN_EVENTS = {"trees": 200, "evaluations": 5000, "operators": 1500, "relabelled": 50, "sources": 100, "integer-constants": 150}

MOD2 = ["+", "-", "*", "^"]


def apply_py(op, a, b):
    a, b = int(a), int(b)
    return {"+": a + b, "-": a - b, "*": a * b, "^": a ^ b, "&": a & b, "|": a | b, "==": a == b, "!=": a != b, "<": a < b,
            "<=": a <= b, ">": a > b, ">=": a >= b, "**": a ** b if b >= 0 else 1, "%": a % b if b else 0, "//": a // b if b else 0, "/": a // b if b == 1 else 0}[op] % 2


def apply_lib(op, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "^": lambda: a ^ b, "&": lambda: a & b, "|": lambda: a | b,
            "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
            ">=": lambda: a >= b, "**": lambda: a ** b, "%": lambda: a % b, "//": lambda: a // b, "/": lambda: a / b}[op]()


OPS = ["+", "-", "*", "^", "^", "&", "|", "==", "!=", "<", "<=", ">", ">=", "**", "&", "|"]


def bits_of(rng, nodes):
    kind = rng.integers(3)
    for vals in itertools.product((0, 1), repeat=len(nodes)):
        if kind == 1:
            vals = [bool(v) for v in vals]
        elif kind == 2:
            vals = [np.int64(v) for v in vals]
        yield dict(zip(nodes, vals))


def outcome_of(rng, circ, v):
    if rng.random() < 0.5:
        return circ[v].outcome
    m = gen.choice(rng, [mp.Ment("XY"), mp.Ment("Z"), mp.ControlMent(True, None, "XY", 0, "X")])
    m.node_id = v
    return m.outcome


@workload(400, 10000)
def trees(ctx, rng):
    n = int(rng.integers(1, 6)) if rng.random() < .95 else int(rng.integers(6, 9))
    circ = mp.templates.linear_cluster(n + 1)
    nodes = list(range(n))
    pool = [(outcome_of(rng, circ, v), (lambda x, v=v: int(x[v])), {v}, f"m{v}") for v in nodes]
    for _ in range(int(rng.integers(1, 26))):
        a = pool[int(rng.integers(len(pool)))]
        r = rng.random()
        ctx.event("operators")
        if r < 0.15:
            new = (~a[0], lambda x, f=a[1]: 1 - f(x), set(a[2]), f"~({a[3]})")
        else:
            op = gen.choice(rng, OPS)
            if r < 0.65:
                b = pool[int(rng.integers(len(pool)))]
                new = (apply_lib(op, a[0], b[0]), lambda x, f=a[1], g=b[1], op=op: apply_py(op, f(x), g(x)), a[2] | b[2], f"({a[3]}{op}{b[3]})")
            elif r < 0.72:                        # other integers, as on plain numbers
                op = gen.choice(rng, ["==", "!=", "<", "<=", ">", ">=", "**", "%", "//", "/"])
                c = 1 if op == "/" else int(rng.integers(-3, 5)) if op not in ("**", "%", "//") else int(rng.integers(0 if op == "**" else 1, 5))
                new = (apply_lib(op, a[0], c), lambda x, f=a[1], c=c, op=op: apply_py(op, f(x), c), set(a[2]), f"({a[3]}{op}{c})")
                ctx.event("integer-constants")
            elif r < 0.85:
                c = int(rng.integers(-2, 5)) if op in ("+", "-", "*", "&", "|", "^") and rng.random() < 0.3 else int(rng.integers(2))
                lib = bool(c) if c in (0, 1) and rng.random() < .5 else c
                new = (apply_lib(op, a[0], lib), lambda x, f=a[1], c=c % 2, op=op: apply_py(op, f(x), c), set(a[2]), f"({a[3]}{op}{lib})")
            else:
                v = gen.choice(rng, nodes)
                fn = gen.choice(rng, [lambda x, v=v: int(x[v]), lambda x, v=v: bool(x[v] == 1), lambda x: True, lambda x, v=v: 1 - int(x[v])])
                if op in ("+", "-", "*", "&", "|", "^") and rng.random() < 0.3:      # any integer, which counts modulo 2
                    fn = gen.choice(rng, [lambda x, v=v: int(x[v]) + 2, lambda x, v=v: 2 * int(x[v]), lambda x, v=v: 3 - int(x[v])])
                new = (apply_lib(op, a[0], fn), lambda x, f=a[1], g=fn, op=op: apply_py(op, f(x), g(x) % 2 if op in ("+", "-", "*", "&", "|", "^") else g(x)), set(a[2]), f"({a[3]}{op}f{v})")
        pool.append(new)
        ctx.check(isinstance(new[0], mp.MentOutcome), "an operator does not give an outcome")
    ctx.describe(nodes=n, tree=pool[-1][3][:2000])
    for lib, fn, cond, txt in pool:
        ctx.check(set(lib.cond_nodes) == cond, "conditioning nodes", expr=txt[:300], got=sorted(lib.cond_nodes), want=sorted(cond))
    for x in bits_of(rng, nodes):
        for lib, fn, cond, txt in pool:
            got = lib(dict(x))
            ctx.check(got in (0, 1) and int(got) == fn(x), "value of an expression", expr=txt[:300], x=str(x), got=str(got))
            ctx.event("evaluations")
    ctx.event("trees")
    # renaming
    names = [int(v) for v in rng.choice(50, size=n, replace=False)] if rng.random() < 0.8 else gen.shuffled(rng, nodes)
    mapping = dict(zip(nodes, names))
    lib, fn, cond, txt = pool[-1]
    ren = lib.relabel(mapping) if hasattr(lib, "relabel") else None
    if ren is not None:
        ctx.check(set(ren.cond_nodes) == {mapping[v] for v in cond}, "nodes of a renamed expression")
        for x in bits_of(rng, nodes):
            ctx.check(int(ren({mapping[v]: b for v, b in x.items()})) == fn(x), "value of a renamed expression", expr=txt[:300])
            wide = {mapping[v]: b for v, b in x.items()}
            wide.update({v: int(rng.integers(2)) for v in nodes + list(range(50, 54)) if v not in wide})    # outcomes of other nodes
            wide = {v: wide[v] for v in gen.shuffled(rng, sorted(wide))}
            ctx.check(int(ren(wide)) == fn(x), "value of a renamed expression among other outcomes", expr=txt[:300])
            ctx.check(int(lib(x)) == fn(x), "renaming changed the original")
        ctx.event("relabelled")
    if len(cond) > 1:
        ctx.nontrivial(txt)


@workload(120, 1000)
def sources(ctx, rng):
    r = ctx.idx % 5
    if r == 0:
        c = gen.choice(rng, [True, False, 0, 1, 2, 3, -1, 7])
        o = mp.MentOutcome(c)
        ctx.check(bool(o({0: 1})) == bool(c % 2) and bool(o()) == bool(c % 2) and not o.cond_nodes, "constant outcome", c=c)
    elif r == 1:
        ns = {int(v) for v in rng.choice(9, size=3, replace=False)}
        o = mp.MentOutcome(lambda x: sum(x[v] for v in ns) > 1, cond_nodes=set(ns))
        p = mp.MentOutcome(o)
        for x in bits_of(rng, sorted(ns)):
            ctx.check(bool(o(x)) == (sum(int(v) for v in x.values()) > 1) == bool(p(x)), "outcome of a callable")
        ctx.check(set(o.cond_nodes) == ns == set(p.cond_nodes), "nodes of an outcome made from a callable")
    elif r == 2:
        v = int(rng.integers(9))
        o = mp.MentOutcome(lambda x: x[v], node_id=v)
        ctx.check(set(o.cond_nodes) == {v} and o.node_id == v and o({v: 1}) == 1 and o({v: 0}) == 0, "outcome of a node")
        ctx.raises(UserWarning, lambda: o({v + 1: 1}), "an outcome that is not known yet")
        ctx.raises(UserWarning, lambda: (o ^ 1)({v + 1: 1}), "an expression that is not known yet")
    elif r == 3:
        o = mp.templates.linear_cluster(3)[0].outcome
        bad = gen.choice(rng, ["x", None, [1], 0.5])
        op = gen.choice(rng, ["+", "^", "&", "|", "*"])
        ctx.raises(TypeError, lambda: apply_lib(op, o, bad), "an operand of a wrong type")
    else:
        # the outcome of a measured node of a circuit follows later edits of that node
        c = mp.templates.linear_cluster(4)
        o = c[1].outcome
        e = o ^ c[0].outcome
        c[1] = mp.Ment("Z")
        del c[0]
        for x in bits_of(rng, [0, 1]):
            ctx.check(int(e(x)) == int(x[0]) ^ int(x[1]), "an expression changed when the circuit was edited")
    ctx.event("sources")
