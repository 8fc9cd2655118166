"""Regenerates known_findings.json: the repaired defects and the ones left in place (OPEN)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, start of the commit's subject
  ("C05", "find_cflow exceeded"),
 ("C10", "keep graph nodes sorted when"), ("C10", "user-supplied flow and partial order"), ("C05", "check_if_flow accepted"),
 ("C27", "copying, deep-copying"), ("C05", "find_cflow reported"), ("C06", "find_gflow returned"), ("C07", "the measurement order check"),
 ("C07", "measurement orders moved inputs"), ("C03", "dependencies of controlled"), ("C09", "quantum outputs followed"),
 ("C09", "the measurements setter"), ("C09", "adding edges to a circuit lost"), ("C02", "PennyLane backend used angles"),
 ("C20", "partial trace of pure states"), ("C19", "swap_qubits flipped"), ("C01", "numpy simulators gave wrong results when the window"),
 ("C02", "PennyLane backend silently"), ("C02", "PennyLane backend failed when run"), ("C02", "damping noise of the"),
 ("C22", "parameter-shift gradients and"), ("C23", "RCDOptimizer overwrote"), ("C13", "negated measurement outcomes"),
 ("C03", "simulating controlled measurements"), ("C18", "are_lc_equivalent always"), ("C24", "datasets with one sample"),
 ("C28", "sampling the fidelities"), ("C16", "Lie algebras of circuits with a single"), ("C11", "from_pauli was wrong"),
 ("C15", "entanglement_entropy failed"), ("C26", "drawing failed for graph"), ("C08", "stacking circuits lost"),
 ("C09", "adding edges renamed"), ("C26", "drawing a circuit without flow"), ("C03", "numpy simulators measured inputs"),
 ("C04", "numpy simulators forgot"), ("C08", "stacking failed when an output"), ("C14", "Pauli operators of different shapes"),
 ("C14", "PauliOp took unknown letters"), ("C16", "Lie-algebra generators used stabilizers of input nodes"),
 ("C16", "Lie algebras of circuits that keep their node labels"), ("C15", "stabilizers failed for graph states without edges"),
 ("C25", "the flow space of every circuit"), ("C24", "noisy datasets of unknown noise types"), ("C27", "outcomes of copied measurements"),
 ("C14", "PauliOp.get_subset swapped"), ("C07", "ordered_layers(train_indices=True) failed"),
    ("C09", "constructing a circuit with unknown nodes"), ("C05", "find_flow checked flows of graphs"),
    ("C03", "numpy-dm raised on Z measurements with a certain outcome"), ("C01", "state vector simulator returned NaN"), ("C12", "controlled measurements with a constant condition"), ("C03", "measuring step by step"), ("C27", "deep copies of PennyLane simulators"),
    ("C12", "the matrix of a Pauli measurement is no longer the shared"), ("C15", "stabilizers and gflows do not depend on edge weights"),
]
try:
    from findings_open import OPEN, MORE
except ImportError:
    OPEN, MORE = [], []
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
out, used = [], set()
for p, s in FIXED + MORE:
    hits = [(h, t) for h, t in log if t.startswith("fix: " + s)]
    assert len(hits) == 1, (s, hits)
    h, t = hits[0]
    used.add(h)
    out.append(dict(property=p, key=f"fixed-{h}", status="fixed", what=f"fixed: property={p} {h} {t[5:]}"))
rest = [t for h, t in log if t.startswith("fix:") and h not in used]
assert not rest, rest
json.dump(dict(findings=out + OPEN), open(R + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed,", len(OPEN), "open")
