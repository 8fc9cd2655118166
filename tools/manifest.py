"""Regenerates MANIFEST.json from properties.jsonl, the checks present and NOT_APPLICABLE."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}
TECH = {
    "default": "runtime monitoring: the real code under seeded generated workloads, judged online by an independent reference model",
}
LEVEL = ("Held on every execution of the run and nothing beyond: {n}. Trusts numpy and the reference models in vmon/ref.py and "
         "in the check; counts of what the monitors saw are in the evidence file, and a run whose monitors saw too little "
         "is inconclusive (exit 2).")
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{R}/vmon/checks/{i.lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "no check has been built yet")))
        continue
    rule = None
    for line in open(f):
        pass
    ns = {}
    src = open(f).read()
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "TECHNIQUE"):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} --tier quick", thorough_cmd=f"./check.sh {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=ns.get("TECHNIQUE", TECH["default"]), level="exploration",
                       level_note=LEVEL.format(n=ns["RULE"].rstrip(".; "))))
m = dict(version=1, setup_cmd="./check.sh --setup", checks=checks, not_applicable=na,
         notes="No hooks: the monitors observe through the public interface, and wrap objects of the running process. "
               "mentpy is pure Python, so checks import it from /repo's working tree; nothing has to be built.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
