"""Writes MANIFEST.json from properties.jsonl and vlib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import registry
def technique(spec):
    t = []
    for p in spec["parts"]:
        if p["kind"] == "cxx":
            s = "property-based testing in process (choice-sequence generator, shrinking, ASan+UBSan)"
            if p.get("fuzz"): s += ", libFuzzer on the same generators in the thorough tier"
        elif p["kind"] == "sched": s = "generated schedules of the real threads under a controlled scheduler, checked against an event-log model"
        elif p["kind"] == "py": s = "Hypothesis-generated cases run through the real programs, compared with a reference model"
        else: s = "fast-check model-based testing of the page script with a controlled network"
        if s not in t: t.append(s)
    return "; ".join(t)
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid not in registry.CHECKS: continue
    spec = registry.CHECKS[pid]
    note = "Held on every generated case of the run (numbers, classes and samples in the evidence file); exploration cannot show absence of violations. "
    note += " ".join(a[0].upper() + a[1:] + "." for a in spec.get("assumptions", [])) or "Trusts the compiler, the libraries and the oracle written for this property."
    checks.append({"property": pid, "quick_cmd": "python3-vt run.py %s --tier quick" % pid, "thorough_cmd": "python3-vt run.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": technique(spec), "level": "exploration", "level_note": note.strip()})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis' && mkdir -p evidence replays", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile its sources with build files of their own. Every check rebuilds what it needs from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
