"""Developer aid: print the abstract paths of one method.  python3 -m sa.dump Class.method"""
import sys
from .prog import Program
from .interp import Interp, Policy
from .terms import show
sys.setrecursionlimit(10000)
def main():
    import os
    P = Program(os.environ.get("SA_REPO", "/repo"))
    n = sys.argv[1]
    pol = Policy()
    for a in sys.argv[2:]:
        if a.startswith("-no="):
            pol.no_inline = tuple(a[4:].split(","))
        if a.startswith("-new="):
            pol.construct = tuple(a[5:].split(","))
    I = Interp(P, pol)
    I.policy.implicit = "-x" in sys.argv
    if "." in n:
        c, m = n.split(".")
        c = P.cls(c)
        ps = I.run_method(c, c.find(m))
    else:
        ps = I.run_func(P.func(n))
    for i, p in enumerate(ps):
        print("==", i, p.kind, show(p.val) if p.val is not None else "", getattr(p.node, "lineno", ""))
        for k, v in p.facts.items():
            print("   ", "+" if v else "-", show(k))
        for e in p.events:
            print("     ev", e)
        if p.val is not None and p.val.op == "alloc":
            print("     val", p.st.heap.get(p.val), p.st.heap[p.val].order if p.val in p.st.heap else None, p.st.heap[p.val].limit if p.val in p.st.heap else None)
if __name__ == "__main__":
    main()
