"""Developer tool: build and confirm planted bugs from tools/seeds_data.py.
   python3 tools/mkseed.py [ID ...]     (works in a scratch copy of /repo under /tmp; nothing is applied to /repo)"""
import json
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = (prop, edits, textwrap.dedent(demo), needs, breaks)


def main():
    exec(open(os.path.join(HERE, "tools", "seeds_data.py")).read(), {"seed": seed})
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or [s for s in SEEDS if "--all" in sys.argv or not os.path.exists(os.path.join(HERE, "seeded", s, "patch.diff"))]
    notest = "--notest" in sys.argv
    res = []
    for sid in ids:
        prop, edits, demo, needs, breaks = SEEDS[sid]
        wt = f"/tmp/seedwt_{os.getpid()}"
        if os.path.exists(wt):
            shutil.rmtree(wt)
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        ok = True
        out = os.path.join(HERE, "seeded", sid)
        try:
            for path, old, new in edits:
                p = os.path.join(wt, "src/valori", path)
                s = open(p, newline="").read()
                o, n = old, new
                if "\r\n" in s:
                    o, n = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(o) != 1:
                    print(sid, "EDIT matches", s.count(o), "times:", path, old[:80])
                    ok = False
                    break
                open(p, "w", newline="").write(s.replace(o, n))
            if not ok:
                continue
            diff = subprocess.check_output(["git", "-C", wt, "diff"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "demo.py"), "w").write(demo)
            open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
            r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True)
            t = 0
            if not notest:
                tr = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-n", "8", "--no-cov", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd=wt, env=env, capture_output=True, text=True)
                t = tr.returncode
                if t:
                    print(tr.stdout[-1500:])
            open(os.path.join(out, "patch.diff"), "wb").write(diff)
            good = r0.returncode == 0 and r1.returncode != 0 and t == 0
            c = subprocess.run([sys.executable, "-m", "sa.run", prop], cwd=HERE, env=dict(os.environ, SA_REPO=wt), capture_output=True, text=True)
            caught = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
            print(sid, prop, "VALID" if good else f"INVALID demo clean={r0.returncode} patched={r1.returncode} tests={t}", "CAUGHT" if caught else f"MISSED rc={c.returncode}")
            if r0.returncode:
                print(r0.stderr[-800:])
            if not caught:
                print(c.stdout[-600:], c.stderr[-600:])
            else:
                print("   ", [ln for ln in c.stdout.splitlines() if ln.startswith("  ")][:2])
            if not good:
                os.unlink(os.path.join(out, "patch.diff"))
        finally:
            shutil.rmtree(wt)


main()
