"""Writes DESIGN.md from tools/design_head.md, the properties, the literals of the checks, tools/notes.json and seeded/."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
notes = json.load(open(R + "/tools/notes.json"))
out = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    t = ast.parse(open(f"{R}/vmon/checks/{i.lower()}.py").read())
    lit = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            lit[n.targets[0].id] = ast.literal_eval(n.value)
    wl = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "workload":
                    wl.append(f"`{n.name}` ({ast.unparse(d.args[0])} / {ast.unparse(d.args[1])})")
    out += [f"### {i} {p['title']}", "", p["statement"], "",
            f"*Workloads and what is judged:* {lit['RULE']}", "",
            f"*Oracle:* {notes[i]['oracle']}", "",
            f"*Why beyond tests:* {notes[i]['why']}", "",
            f"*Workloads (cases quick / thorough):* {', '.join(wl)}."]
    if lit.get("ASSUMPTIONS"):
        out += ["", "*Bounds and assumptions:* " + "; ".join(lit["ASSUMPTIONS"]) + "."]
    out += [""]
out += ["## Defects found and repaired in /repo", ""]
for f in json.load(open(R + "/known_findings.json"))["findings"]:
    out.append(f"- {f['what']}" if f["status"] == "fixed" else f"- OPEN ({f['property']}): {f['what']}")
out += ["", "## Planted changes and the checks that catch them", "",
        "Written from the property texts and the code; each passes the stable tests and is only visible under the conditions in `needs`.",
        "", "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    k = os.path.basename(os.path.dirname(d))
    out.append(f"| {k} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(k, [])) or 'not run'} |")
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
