#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without a workload yet are listed as not applicable until they have one."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = {}
exec(open(V + "/check").read().split("PROPS = {")[0].split("# property ->")[1].split("\n", 1)[1], src)
PROPS = eval("{" + open(V + "/check").read().split("PROPS = {")[1].split("}")[0] + "}", src)
ns = {"__file__": V + "/sim/build.py"}
exec(open(V + "/sim/build.py").read().split("def run(")[0], ns)
NA = {
    "N01": "pure arithmetic on its arguments: no schedule, clock, I/O, allocation failure or second party for a simulation to decide",
}
NOTES = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i.startswith("N"):
        na.append({"property": i, "reason": p.get("na_reason") or "a pure function of its arguments: it involves no concurrency, time, I/O, allocation or other party, so there is no schedule or fault for a simulation to inject; deciding it would need a different technique (generation, proof)"})
        continue
    w = PROPS[i][0]
    if not os.path.exists("%s/wl/%s.cpp" % (V, ns["WORKLOADS"][w][0])):
        na.append({"property": i, "reason": "the simulated workload for this property is not built yet"})
        continue
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search)", "level": "exploration",
        "level_note": NOTES.get(i, NOTES["*"])})
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "MUU_SIM_SPIN_ITERATIONS",
               "enable": "the checks compile /repo/src and /repo/include from the working tree with -DMUU_SIM_SPIN_ITERATIONS=3 in the '_fast' workload variants (without it in the others, which run the shipped constants)",
               "source_commits": subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], text=True).split()},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
