"""Applies every planted change of seeded/ to a scratch copy of /repo, bind-mounted over /repo in a private mount
namespace, and reports: demo on the clean and the changed tree, the stable tests, and which checks raise an alarm.
Usage: python3 tools/seeded.py [--tests] [--checks own|all] [--jobs N] [ids...]; updates tools/caught.json."""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--tests", action="store_true")
ap.add_argument("--checks", default="own")
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--seed", default="1")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(V + "/seeded"))
STABLE = json.load(open("/opt/vp/BASELINE.json"))
ALL = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def inside(scratch, cmd, timeout):
    """run cmd with scratch/repo at /repo and scratch/verif at /verif"""
    sh = (f"mount --bind {scratch}/repo /repo && mount --bind {scratch}/verif /verif && mkdir -p {scratch}/work /opt/vp/work && "
          f"mount --bind {scratch}/work /opt/vp/work && cd /repo && {cmd}")
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def one(i):
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    res = dict(id=i)
    d = tempfile.mkdtemp(prefix="seeded-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        for f in os.listdir(V):
            if f not in ("seeded", ".git", "evidence", "replays"):
                subprocess.run(["cp", "-a", f"{V}/{f}", f"{d}/verif/"], check=True)
        shutil.copytree(f"{V}/seeded/{i}", d + "/demo")
        res["clean"] = inside(d, f"bash {d}/demo/demo.sh", 300)[0]
        r = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode:
            res["apply"] = r.stderr[:300]
            return res
        rc, out = inside(d, f"bash {d}/demo/demo.sh", 300)
        res["patched"], res["why"] = rc, out.strip().splitlines()[-1:] if out.strip() else []
        if a.tests:
            rc, out = inside(d, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/t.json", 1500)
            try:
                t = json.load(open(d + "/t.json"))
                failed = set(t.get("failed", []))
                stable = STABLE["stable"]
                res["tests"] = sorted(failed & set(stable)) if stable else sorted(failed)
            except Exception as e:
                res["tests"] = [repr(e), out[-400:]]
        hit = []
        for c in ([prop] if a.checks == "own" else [prop] + [x for x in ALL if x != prop] if a.checks == "all" else []):
            rc, out = inside(d, f"cd /verif && VERIF_SEED={a.seed} VERIF_TIER=quick ./check.sh {c}", 900)
            if rc == 1 and f"VIOLATION property={c}" in out:
                hit.append(c)
            elif rc != 0:
                hit.append(f"{c}?{rc}")
        res["caught"] = hit
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


path = V + "/tools/caught.json"
caught = json.load(open(path)) if os.path.exists(path) else {}
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(one, ids):
        print(json.dumps(r), flush=True)
        if r.get("caught") is not None and a.checks != "none":
            caught[r["id"]] = sorted(set(caught.get(r["id"], [])) | set(r["caught"])) if a.checks == "own" else sorted(r["caught"])
caught = {k: v for k, v in caught.items() if os.path.isdir(f"{V}/seeded/{k}")}
json.dump(dict(sorted(caught.items())), open(path, "w"), indent=1)
