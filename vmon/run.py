"""python -m vmon.run <property> [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys, time, traceback, warnings

sys.path.insert(0, "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def anchors(pid):
    """the files of the property, as listed in properties.jsonl"""
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        return next((p["anchors"]["files"] for p in map(json.loads, f) if p["id"] == pid), [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    warnings.simplefilter("ignore")
    from vmon import core

    replay_dir = os.path.join(ROOT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    def violation(name, idx, msg, kind, desc, n=0):
        path = os.path.join(replay_dir, f"{pid}-{name}-{idx}-s{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, workload=name, idx=idx, seed=seed, tier=a.tier, kind=kind,
                           message=msg, case=desc,
                           replay=f"cd /verif && ./check.sh {pid} --replay {path}"), f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print("  " + (msg or "").strip().replace("\n", "\n  ")[:3000])
        return path

    try:
        import mentpy
        if not os.path.realpath(mentpy.__file__).startswith("/repo/"):
            print("INCONCLUSIVE: mentpy is not imported from /repo:", mentpy.__file__)
            sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        # the library cannot even be imported: nothing it promises holds
        violation("import", 0, traceback.format_exc(), "import", None)
        sys.exit(1)
    module = importlib.import_module(f"vmon.checks.{pid.lower()}")

    if a.replay:
        r = json.load(open(a.replay))
        wl = {w.name: w for w in core.collect(module)}[r["workload"]]
        if hasattr(module, "prepare"):
            module.prepare()
        ctx, msg, kind = core.run_case(pid, wl, r["seed"], r["idx"])
        print(json.dumps(ctx.desc, indent=1)[:4000])
        if msg:
            print(f"VIOLATION property={pid} replay={a.replay}\n{msg}")
            sys.exit(1)
        print("held on this case")
        sys.exit(0)

    tot = core.run_check(pid, module, a.tier, seed, wall_limit=840 if a.tier == "quick" else 3600 * 6)

    # probes of listed findings: each says whether it still fails as described
    for e in known_findings(pid):
        if e.get("status") == "fixed":
            continue
        probe = getattr(module, "FINDINGS", {}).get(e["key"])
        try:
            still = bool(probe())
        except Exception as ex:
            still = False
            tot["viol"].append(("finding:" + e["key"], 0, "the probe of a listed finding fails in another way: "
                                + traceback.format_exc(), "violation", None))
        if still:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")

    if os.environ.get("VMON_HITS"):
        with open(os.environ["VMON_HITS"], "w") as f:
            json.dump(sorted(tot["hit"]), f)
    nviol = len(tot["viol"])
    floor = getattr(module, "MIN_EVENTS", {})
    missing = {k: (tot["events"].get(k, 0), v) for k, v in floor.items() if tot["events"].get(k, 0) < v}
    evidence = dict(
        property=pid, tier=a.tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["cases"], distinct_nontrivial=len(tot["distinct"]),
            rule=module.RULE, samples=tot["samples"][:8] or [dict(note="no sample recorded")],
            oracle_verdicts=tot["verdicts"], monitor_events=dict(sorted(tot["events"].items())),
            reach=core.reach(tot["hit"], anchors(pid)),
            cases_per_workload=dict(sorted(tot["per"].items())), inconclusive_cases=len(tot["incon"]),
            **(module.coverage_note() if hasattr(module, "coverage_note") else {}),
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if nviol:
        for v in tot["viol"][:3]:
            violation(*v)
        sys.exit(1)
    if tot["incon"] or missing or tot["cases"] < tot["planned"]:
        print(f"INCONCLUSIVE property={pid}: {tot['incon'][:3]} missing={missing} "
              f"cases={tot['cases']}/{tot['planned']}")
        sys.exit(2)
    print(f"HELD property={pid} tier={a.tier} seed={seed} cases={tot['cases']} verdicts={tot['verdicts']} "
          f"distinct={len(tot['distinct'])} events={tot['events']} wall={time.time()-t0:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
