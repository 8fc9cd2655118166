"""Case runner: executes workloads of a check against the real code in /repo, in forked
workers, with every random choice derived from VERIF_SEED, and lets oracles (monitors)
decide.  Verdict: held / violated / inconclusive (the oracle was not reached often
enough, or the harness itself could not run)."""
import hashlib, json, os, random, signal, sys, time, traceback, multiprocessing as mp_, warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_CPU_S = 60          # a case takes milliseconds; this is a non-termination bound
MAX_VIOLATIONS = 3       # per worker


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class KnownFinding(Exception):
    """raised by a probe that observed a listed finding"""


def stable_hash(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


def seed_of(*parts):
    return int.from_bytes(
        hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=8).digest(), "big"
    )


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Ctx:
    """Handed to every case.  Counts what the oracles observed."""

    def __init__(self):
        self.events = {}
        self.verdicts = 0
        self.distinct = set()
        self.samples = []
        self.desc = None

    # what the case is (kept for replay files and evidence samples)
    def describe(self, **kw):
        self.desc = jsonable(kw)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, *key):
        """registers one distinct, non-trivial observation"""
        self.distinct.add(stable_hash(key))

    def check(self, cond, msg, **data):
        self.verdicts += 1
        if not cond:
            raise Violation(msg + (" " + json.dumps(jsonable(data))[:1500] if data else ""))

    def close(self, a, b, msg, tol=1e-7, **data):
        a, b = np.asarray(a), np.asarray(b)
        self.verdicts += 1
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
        d = float(np.max(np.abs(a - b))) if a.size else 0.0
        if not d <= tol:
            raise Violation(f"{msg}: differs by {d:.3g} " + json.dumps(jsonable(data))[:1000])

    def raises(self, exc, fn, msg):
        """fn must raise one of exc"""
        self.verdicts += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}: {e} instead of {exc}")
        raise Violation(f"{msg}: nothing was raised (returned {str(r)[:200]})")


class Workload:
    def __init__(self, name, fn, quick, thorough, cpu=None):
        self.name, self.fn, self.quick, self.thorough, self.cpu = name, fn, quick, thorough, cpu

    def count(self, tier, scale=1):
        """cases of a tier; scale multiplies the quick tier, up to the thorough one"""
        return max(self.quick, min(self.thorough, int(self.quick * scale))) if tier == "quick" else self.thorough


def workload(quick, thorough, cpu=None):
    def deco(fn):
        fn._workload = Workload(fn.__name__, fn, quick, thorough, cpu)
        return fn
    return deco


def collect(module):
    return [f._workload for f in vars(module).values() if hasattr(f, "_workload")]


def _alarm(*_):
    raise Hang()


def run_case(pid, wl, seed, idx):
    """returns (ctx, violation message or None, kind)"""
    ctx = Ctx()
    s = seed_of(pid, wl.name, seed, idx)
    rng = np.random.default_rng(s)
    np.random.seed(s % 2**32)
    random.seed(s)
    ctx.idx = idx
    ctx.seed = seed
    signal.signal(signal.SIGPROF, _alarm)
    limit = wl.cpu or CASE_CPU_S
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        wl.fn(ctx, rng)
        return ctx, None, None
    except Violation as e:
        return ctx, str(e), "violation"
    except Hang:
        return ctx, f"no answer after {limit} s of CPU time", "hang"
    except MemoryError:
        return ctx, "out of memory", "inconclusive"
    except AssertionError as e:
        return ctx, "unexpected " + traceback.format_exc(limit=-6), "violation"
    except Exception as e:
        return ctx, "unexpected " + traceback.format_exc(limit=-6), "violation"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def watch_lines(hit):
    """records the lines of the library that run, each once (sys.monitoring, which costs nothing after the first hit)"""
    mon = sys.monitoring
    prefix = os.path.join(REPO, "mentpy") + os.sep

    def line(code, no):
        if code.co_filename.startswith(prefix):
            hit.add((code.co_filename[len(REPO) + 1:], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vmon")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def body_lines(path):
    """the lines of the bodies of the functions of a file"""
    out = set()

    def walk(code, inside):
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, inside or bool(c.co_flags & 0x2))       # CO_NEWLOCALS: a function, not a class
        if inside:
            out.update(no for _, _, no in code.co_lines() if no and no != code.co_firstlineno)

    with open(path) as f:
        walk(compile(f.read(), path, "exec"), False)
    return out


def reach(hit, files):
    """for every file: how many of the lines of its functions ran, and the line numbers that did not"""
    res = {}
    for name in sorted(files):
        path = os.path.join(REPO, name)
        if not os.path.exists(path):
            continue
        want = body_lines(path)
        ran = {no for f, no in hit if f == name} & want
        res[name] = dict(lines=len(want), ran=len(ran), not_run=sorted(want - ran)[:60])
    return res


def _worker(pid, jobs, seed, conn, wls, stop):
    hit = set()
    try:
        watch_lines(hit)
    except Exception:
        pass
    res = dict(cases=0, verdicts=0, events={}, distinct=set(), samples=[], viol=[], incon=[], per={})
    hangs = 0
    try:
        for name, idx in jobs:
            if stop.value >= 8:
                break
            ctx, msg, kind = run_case(pid, wls[name], seed, idx)
            res["cases"] += 1
            res["per"][name] = res["per"].get(name, 0) + 1
            res["verdicts"] += ctx.verdicts
            for k, v in ctx.events.items():
                res["events"][k] = res["events"].get(k, 0) + v
            res["distinct"] |= ctx.distinct
            if len(res["samples"]) < 2 and ctx.desc is not None and idx > 0:
                res["samples"].append(dict(workload=name, idx=idx, case=ctx.desc))
            if kind == "inconclusive":
                res["incon"].append((name, idx, msg))
            elif kind is not None:
                res["viol"].append((name, idx, msg, kind, ctx.desc))
                hangs += kind == "hang"
                with stop.get_lock():
                    stop.value += 1
                if hangs or len(res["viol"]) >= MAX_VIOLATIONS:
                    break
    except BaseException:
        res["incon"].append(("worker", -1, traceback.format_exc()))
    res["hit"] = hit
    conn.send(res)
    conn.close()
    os._exit(0)


def run_check(pid, module, tier, seed, workers=8, wall_limit=None):
    wls = {w.name: w for w in collect(module)}
    scale = float(os.environ.get("VMON_SCALE") or getattr(module, "QUICK_SCALE", 8))
    jobs = [(w.name, i) for w in wls.values() for i in range(w.count(tier, scale))]
    only = os.environ.get("VMON_ONLY")
    if only:
        jobs = [j for j in jobs if j[0] in only.split(",")]
    random.Random(12345).shuffle(jobs)
    if hasattr(module, "prepare"):
        module.prepare()
    stop = mp_.Value("i", 0)
    procs = []
    shards = [jobs[i::workers] for i in range(workers)]
    sys.stdout.flush()
    for sh in shards:
        if not sh:
            continue
        a, b = mp_.Pipe(duplex=False)
        p = mp_.get_context("fork").Process(target=_worker, args=(pid, sh, seed, b, wls, stop))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(cases=0, verdicts=0, events={}, distinct=set(), samples=[], viol=[], incon=[], per={}, hit=set())
    deadline = time.time() + (wall_limit or 1e9)
    for p, a in procs:
        try:
            if not a.poll(max(0.1, deadline - time.time())):
                p.terminate()
                tot["incon"].append(("worker", -1, "wall limit"))
                continue
            r = a.recv()
        except EOFError:
            tot["incon"].append(("worker", -1, "worker died"))
            continue
        for k in ("cases", "verdicts"):
            tot[k] += r[k]
        for k in ("events", "per"):
            for n, v in r[k].items():
                tot[k][n] = tot[k].get(n, 0) + v
        tot["distinct"] |= r["distinct"]
        tot["hit"] |= r.get("hit", set())
        for k in ("samples", "viol", "incon"):
            tot[k] += r[k]
        p.join()
    tot["planned"] = len(jobs)
    return tot
