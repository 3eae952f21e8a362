#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness registry in ./check."""
import importlib.machinery, importlib.util, json, os
here = os.path.dirname(os.path.abspath(__file__))
ld = importlib.machinery.SourceFileLoader("check", os.path.join(here, "check"))
spec = importlib.util.spec_from_loader("check", ld); chk = importlib.util.module_from_spec(spec); ld.exec_module(chk)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "property-based testing with generated %s against %s, with shrinking; coverage-guided fuzzing of the same check in the thorough tier"
NOTES = json.load(open(os.path.join(here, "notes.json"))) if os.path.exists(os.path.join(here, "notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if i in chk.HARNESS:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": n.get("technique", "property-based testing: generated cases against an independent oracle, with shrinking"),
                       "level": "fault_enumeration" if i in ("C25", "C34", "C35") else "exploration",
                       "level_note": n.get("note", "Holds on every generated case of the run; no claim beyond the explored inputs. Trusts the oracle described in DESIGN.md, the sanitizers and the installed mbedTLS/liblzma.")})
    else:
        na.append({"property": i, "reason": n.get("reason", "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "./check all", "checks": checks, "not_applicable": na,
     "notes": "Checks build the library, CLI and Python module from /repo's working tree with sanitizers; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
