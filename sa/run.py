"""python3 -m sa.run C01 [...]: decide properties of /repo's current source."""
import importlib
import os
import pkgutil
import sys
import traceback

sys.setrecursionlimit(20000)

from .prog import AnalysisError, Program
from .report import Report, finish
from . import rules as _rules

REG = {}


def load():
    for m in pkgutil.iter_modules(_rules.__path__):
        mod = importlib.import_module("sa.rules." + m.name)
        for pid, spec in getattr(mod, "CHECKS", {}).items():
            REG.setdefault(pid, []).append(spec)


def run_one(pid, prog, tier):
    rep = Report(pid, prog, tier)
    meta = {"explanation": "", "assumptions": []}
    for fn in REG[pid]:
        fn(prog, rep)
        meta["explanation"] += (fn.__doc__ or "").strip() + " "
    meta["explanation"] = "Static analysis (path-partitioned abstract interpretation of the parsed source; nothing executed). " + " ".join(meta["explanation"].split())
    meta["assumptions"] = [
        "Calls into third-party libraries are modelled by name (pure / effectful); a call that is neither known nor resolved is an opaque effect.",
        "A loop is abstracted by one arbitrary witness element with loop-carried variables havocked.",
    ]
    return finish(rep, meta)


def main():
    load()
    ids = sys.argv[1:] or sorted(REG)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    root = os.environ.get("SA_REPO", "/repo")
    rc = 0
    try:
        prog = Program(root)
        for pid in ids:
            if pid not in REG:
                print("unknown property", pid)
                return 2
            r = run_one(pid, prog, tier)
            rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    except AnalysisError as e:
        print("ANALYSIS ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
