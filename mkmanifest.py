#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenarios in harness/mon (run by hand after adding one)."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
have = set()
for f in glob.glob(os.path.join(V, "harness/mon/*.go")):
    have |= set(re.findall(r'Prop:\s*"(C\d+)"', open(f).read()))
NOTES = json.load(open(os.path.join(V, "notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": n.get("technique", "runtime monitoring: generated executions in virtual time judged by an oracle, with the race detector"),
                       "level": "exploration",
                       "level_note": n.get("note", "Holds on every execution that the seeded workloads produced; other inputs and schedules are not covered.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "build overlay", "enable": "no hook is committed in /repo: check.py derives an instrumented overlay from /repo's working tree (harness/instr), which adds schedule noise calls, and builds with go test -overlay", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "check.py builds the monitors in harness/ against /repo's working tree for every run. Findings: known-findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
