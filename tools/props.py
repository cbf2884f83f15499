"""Source of truth for properties.jsonl and MANIFEST.json:  python3 tools/props.py  regenerates both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/valori/"
PROPS = []
CLAIMED = {}
NA = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]},
    })
    assert len(title) <= 80, pid
    if na:
        NA[pid] = na
    else:
        CLAIMED[pid] = (technique, note)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for pid, (tech, note) in CLAIMED.items():
        checks.append({
            "property": pid, "quick_cmd": f"python3 -m sa.run {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 -m sa.run {pid}",
            "technique": "static analysis: " + tech, "level": "other", "level_note": note,
        })
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "All checks parse /repo/src/valori on every run and decide from the syntax tree by path-partitioned abstract "
                    "interpretation (sa/interp.py); no code of the repository is executed. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
