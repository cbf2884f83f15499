"""Obligations, findings, known-findings matching, evidence."""
from __future__ import annotations

import json
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, prog, tier="quick"):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.obl = {}            # (rule, construct) -> status
        self.findings = {}       # key -> dict
        self.undecided = []
        self.rules = {}          # rule -> text
        self.minima = {}         # rule -> minimum obligation count
        self.funcs = set()
        self.paths = 0
        self.events = 0
        self.branches = 0
        self.assumptions = []
        self.t0 = time.time()

    # analysis bookkeeping
    def saw(self, interp, paths):
        self.funcs |= interp.visited_funcs
        self.paths += len(paths)
        self.events += sum(len(p.events) for p in paths)
        self.branches += interp.branches

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minima[rid] = max(minimum, self.minima.get(rid, 0))

    def ok(self, rule, construct):
        self.obl.setdefault((rule, construct), "ok")

    def bad(self, rule, construct, slot, msg, file=None, line=0):
        self.obl[(rule, construct)] = "violated"
        key = f"{rule}|{construct}|{slot}"
        if key not in self.findings:
            if not file:
                c = construct.split("->")[0].split(".")[0].split(":")[0]
                try:
                    file = self.prog.cls(c).module.path
                except Exception:
                    file = None
            f = os.path.relpath(file, self.prog.root) if file and file.startswith(self.prog.root) else (file or "")
            self.findings[key] = {"key": key, "rule": rule, "construct": construct, "msg": msg, "file": f, "line": line}

    def unk(self, rule, construct, why):
        self.obl.setdefault((rule, construct), "undecided")
        self.undecided.append(f"{rule}|{construct}: {why}")

    def check(self, rule, construct, cond, slot, msg, file=None, line=0):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, slot, msg, file, line)
        return cond


def load_known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", ln.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(rep, meta):
    """Print the verdict, write evidence; return the exit code."""
    known = load_known(rep.prop)
    counts = {}
    for (rule, c), s in rep.obl.items():
        counts.setdefault(rule, {}).setdefault(s, 0)
        counts[rule][s] += 1
    short = []
    for rule, m in rep.minima.items():
        n = sum(counts.get(rule, {}).values())
        if n < m:
            short.append(f"rule {rule} matched {n} instances, {m} were confirmed by hand")
    viol = []
    for key, f in sorted(rep.findings.items()):
        if key in known:
            print(f"KNOWN-FINDING: property={rep.prop} {known[key]}")
        else:
            viol.append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rpath = os.path.join(HERE, "evidence", f"{rep.prop}.violations.json")
    total = len(rep.obl)
    ok = sum(1 for s in rep.obl.values() if s == "ok")
    und = sum(1 for s in rep.obl.values() if s == "undecided")
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": meta.get("explanation", "Static analysis of the source; nothing is executed."),
            "rules": rep.rules,
            "obligations": total,
            "discharged": ok,
            "undecided": und,
            "violated": sum(1 for s in rep.obl.values() if s == "violated"),
            "functions_analysed": len(rep.funcs),
            "abstract_paths": rep.paths,
            "effects_on_paths": rep.events,
            "branch_points": rep.branches,
            "modules_parsed": len(rep.prog.modules),
            "source_digest": rep.prog.digest,
            "per_rule": counts,
            "samples": [f"{r} :: {c} :: {s}" for (r, c), s in sorted(rep.obl.items())][:400],
            "undecided_items": rep.undecided[:100],
            "functions": sorted(rep.funcs)[:300],
        },
        "assumptions": meta.get("assumptions", []) + rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", f"{rep.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{rep.prop}: {total} obligations, {ok} discharged, {und} undecided, {len(rep.findings)} findings ({len(viol)} new); "
          f"{len(rep.funcs)} functions, {rep.paths} abstract paths, {round(time.time() - rep.t0, 2)} s")
    if viol:
        with open(rpath, "w") as fh:
            json.dump(viol, fh, indent=1)
        for f in viol:
            print(f"  {f['file']}:{f['line']}: [{f['rule']}] {f['construct']}: {f['msg']}  (key {f['key']})")
        print(f"VIOLATION property={rep.prop} replay={rpath}")
        return 1
    if os.path.exists(rpath):
        os.unlink(rpath)
    if short:
        for s in short:
            print("ANALYSIS BROKEN:", s)
        return 2
    return 0
