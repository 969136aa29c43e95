#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.map and the table below (run after editing either)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
have = dict(l.split() for l in open(f"{R}/checks.map") if l.strip())
TECH = {
 "C01": "runtime monitoring: concurrent-access event monitor on the real par-iterators under forced splits/stress, Miri (Tree Borrows) and ThreadSanitizer",
 "C02": "runtime monitoring: coloring oracle over real colorings (proper, complete, conflict-free) on random and adversarial families",
 "D01": "runtime monitoring: reference-model monitor (Vec<Vec<_>>) over operation histories, plus Miri",
 "C03": "runtime monitoring: ownership/visit monitors and serial-reference oracle under stress, ThreadSanitizer and Miri",
 "P01": "runtime monitoring: manufactured-solution oracle over complete solves on the real code (assembly, boundary conditions, solvers, error norms)",
 "P02": "runtime monitoring: metamorphic oracle comparing executions on nested, relabelled and moved meshes",
 "P03": "runtime monitoring: differential oracle comparing executions in single and in double precision",
 "H02": "runtime monitoring: defining-equation oracles (orthogonality, products, spectra) and plain-data comparison on the real code, plus Miri for slice reinterpretation",
}
DEFAULT = "runtime monitoring: online oracle judging executions of the real code on generated and hostile workloads"
NOTE = "Oracle observes executions of the real code; no exhaustive claim. Workload size and what the monitors saw are in the evidence file."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"bash /verif/run.sh {i}", thorough_cmd=f"bash /verif/run.sh {i} --thorough",
            technique=TECH.get(i, DEFAULT), level="exploration", level_note=NOTE, evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na,
  notes="All checks run through run.sh, which rebuilds the check binary from /repo's working tree. No hooks in /repo are needed.")
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
