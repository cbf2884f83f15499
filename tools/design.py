"""Regenerates DESIGN.md."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: os.path.join(HERE, *p)
out = [open(R("tools/design_head.md")).read().rstrip(), "", "## 3. Property by property", ""]
man = json.load(open(R("MANIFEST.json")))
checks = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for d in sorted(os.listdir(R("seeded"))):
    m = json.load(open(R("seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m["needs"], m["what_it_breaks"]))
for line in open(R("properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    out.append("")
    if i in na:
        out += [f"Not applicable: {na[i]}", ""]
        continue
    c = checks[i]
    out.append(f"Quantifies over {p['quantifier']['text']}. Tests cannot settle it: {p['why_tests_cant']}")
    out.append("")
    out.append(f"Method: {c['technique'].replace('static analysis: ', '')}. {c['level_note']}")
    ev = R("evidence", i + ".json")
    if os.path.exists(ev):
        cov = json.load(open(ev))["coverage"]
        out.append(f"On the current tree: {cov['obligations']} obligations, {cov['undecided']} undecided, over {cov['functions_analysed']} functions and {cov['abstract_paths']} abstract paths.")
        out += ["", "Rules:", ""]
        for k, v in cov["rules"].items():
            out.append(f"* `{k}` {v}")
    if seeds.get(i):
        out += ["", "Planted bugs (all caught by this check):", ""]
        for s, needs, brk in seeds[i]:
            out.append(f"* `{s}` – {brk} Needs: {needs}")
    out.append("")
out.append(open(R("tools/design_tail.md")).read().rstrip())
out += ["", "## 6. Defects repaired in /repo", "", "One `fix:` commit each; listed in `known_findings.txt` as `fixed:`.", ""]
for line in open(R("known_findings.txt")):
    if line.startswith("fixed:"):
        out.append("* " + line[6:].strip())
kf = [l.strip() for l in open(R("known_findings.txt")) if l.strip() and not l.startswith(("fixed:", "#"))]
out += ["", "Recorded, not repaired:" if kf else "No finding is recorded as unrepaired.", ""]
out += ["* " + l for l in kf]
open(R("DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
