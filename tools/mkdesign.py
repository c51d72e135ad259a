#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_text.py, design_tail.md, properties.jsonl, the scenarios, known-findings.txt and seeded/ (run by hand)."""
import collections, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from design_text import T
rd = lambda p: open(os.path.join(V, p)).read()
sc = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(V, "harness/mon/*.go"))):
    s = open(f).read()
    for m in re.finditer(r'reg\(Scenario\{(.*?)\}\)\n', s, re.S):
        t = m.group(1)
        g = lambda k: (re.search(r'\b' + k + r':\s*"?([\w\-]+)', t) or [None, ""])[1]
        rule = re.search(r'\bRule:\s*((?:"(?:[^"\\]|\\.)*"[\s+]*)+)', t)
        rule = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', rule[1])).replace('\\"', '"')
        sc[g("Prop")].append((g("Name"), "real" if g("Mode") == "Real" else "virtual", g("Quick"), g("Thorough"), rule, os.path.basename(f)))
fixed = collections.defaultdict(list)
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m:
        fixed[m[1]].append((m[2], m[3]))
seeds = collections.defaultdict(list)
for d in sorted(glob.glob(os.path.join(V, "seeded/s*"))):
    m = json.load(open(d + "/meta.json"))
    seeds[m["property"]].append((os.path.basename(d), m))
caught = dict((l.split()[0], l.split()[2]) for l in rd("tools/caught.txt").splitlines())
out = [rd("tools/design_head.md").rstrip(), "\n\n## The properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in sc:
        continue
    how, why = T[i]
    out.append("\n### %s %s\n" % (i, p["title"]))
    out.append("\n*Oracle.* %s\n\n*Beyond the tests.* The tests cannot settle it: %s.\n\n" % (how, why))
    for n, mode, q, t, rule, f in sc[i]:
        out.append("* `%s` (%s, %s time; %s cases quick, %s thorough): %s\n" % (n, f, mode, q, t, rule))
    for h, w in fixed[i]:
        out.append("* fixed in %s: %s\n" % (h, w))
    for n, m in seeds[i]:
        c = caught.get(n)
        out.append("* planted %s (%s): needs %s%s\n" % (n, m["what_it_breaks"], m["needs"], "; " + c if c else ""))
out.append("\n" + rd("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
