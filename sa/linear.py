"""A relational numeric domain: conjunctions of linear integer inequalities over provenance terms.

Entailment is decided by projecting all variables out (Fourier-Motzkin); min, max, find and floor division contribute
their defining inequalities.  Nothing is enumerated or solved for; an over-large system gives no answer.
"""
from __future__ import annotations

from itertools import product

from .terms import T, cval, is_const, norm

LIMIT = 600


def lin(t):
    """t as {term: coefficient, 1: constant}."""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or not isinstance(v, int):
            return {t: 1}
        return {1: v} if v else {}
    if t.op == "bin" and t.a[0] in "+-":
        a, b = lin(t.a[1]), lin(t.a[2])
        return add(a, b, 1 if t.a[0] == "+" else -1)
    if t.op == "bin" and t.a[0] == "*":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_const(x) and isinstance(cval(x), int):
                return {k: v * cval(x) for k, v in lin(y).items() if cval(x)}
    if t.op == "un" and t.a[0] == "-":
        return {k: -v for k, v in lin(t.a[1]).items()}
    if t.op == "un" and t.a[0] == "+":
        return lin(t.a[1])
    return {t: 1}


def add(a, b, f=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
        if out[k] == 0:
            del out[k]
    return out


def ge(a, b, slack=0):
    """a >= b + slack as an expression that is >= 0."""
    return add(add(lin(a), lin(b), -1), {1: slack} if slack else {}, -1)


def defs(t):
    """Alternatives (lists of expressions >= 0) defining the atom t, or None."""
    if t.op == "call":
        n, args, kw = t.a[0], t.a[1], t.a[2]
        if n in ("min", "max") and len(args) > 1 and not kw:
            alts = []
            for i, x in enumerate(args):
                alt = [ge(t, x), ge(x, t)]
                for j, y in enumerate(args):
                    if j != i:
                        alt.append(ge(y, t) if n == "min" else ge(t, y))
                alts.append(alt)
            return alts
        if n in (".rfind", ".find", ".rindex", ".index") and len(args) >= 2 and not kw:
            s, sep = args[0], args[1]
            hit = [{t: 1}]
            ln = {1: len(cval(sep))} if is_const(sep) and isinstance(cval(sep), str) else lin(norm_len(sep))
            size = lin(norm_len(s))
            hit.append(add(add(size, {t: 1}, -1), ln, -1))
            if len(args) > 2 and not (is_const(args[2]) and cval(args[2]) is None):
                hit.append(ge(t, args[2]))
            if len(args) > 3 and not (is_const(args[3]) and cval(args[3]) is None):
                hit.append(add(add(lin(args[3]), {t: 1}, -1), ln, -1))
            miss = [{t: 1, 1: 1}, {t: -1, 1: -1}]
            return [hit] if n.endswith("index") else [hit, miss]
        if n == "len" and len(args) == 1:
            x = args[0]
            base = [{t: 1}]
            if x.op == "call" and x.a[0] in (".strip", ".lstrip", ".rstrip") and x.a[1]:
                return [base + [ge(norm_len(x.a[1][0]), t)]]
            if x.op == "slice" and len(x.a) >= 3:
                s, a, b = x.a[0], x.a[1], x.a[2]
                lo = {} if is_const(a) and cval(a) is None else lin(a)
                hi = lin(norm_len(s)) if is_const(b) and cval(b) is None else lin(b)
                base.append(ge(norm_len(s), t))
                d = add(hi, lo, -1)
                return [base + [d, add(d, {t: 1}, -1)], base + [add({k: -v for k, v in d.items()}, {1: 1}, -1), {t: -1}]]
            return [base]
        if n == "abs" and len(args) == 1:
            return [[ge(t, args[0]), ge(args[0], t), lin(args[0])], [add({t: 1}, lin(args[0])), {k: -v for k, v in add({t: 1}, lin(args[0])).items()}, {t: 1}]]
    if t.op == "bin" and t.a[0] == "//" and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) and cval(t.a[2]) > 0:
        c = cval(t.a[2])
        return [[add(lin(t.a[1]), {t: c}, -1), add({t: c, 1: c - 1}, lin(t.a[1]), -1)]]
    if t.op == "bin" and t.a[0] == "%" and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) and cval(t.a[2]) > 0:
        return [[{t: 1}, {t: -1, 1: cval(t.a[2]) - 1}]]
    return None


def norm_len(x):
    from .terms import call
    return norm(call("len", x))


def infeasible(cs):
    """True when the conjunction of expressions >= 0 has no solution over the rationals (with integer tightening)."""
    from math import gcd
    cur = []
    for c in cs:
        cur.append(c)
    while True:
        clean, seen = [], set()
        for c in cur:
            vs = [v for k, v in c.items() if k != 1]
            if not vs:
                if c.get(1, 0) < 0:
                    return True
                continue
            g = 0
            for v in vs:
                g = gcd(g, abs(v))
            c = {k: (v // g) for k, v in c.items()} if g > 1 else c
            key = frozenset((k if k == 1 else k.uid, v) for k, v in c.items())
            if key not in seen:
                seen.add(key)
                clean.append(c)
        cur = clean
        if not cur:
            return False
        if len(cur) > LIMIT:
            return None
        vars_ = {}
        for c in cur:
            for k, v in c.items():
                if k != 1:
                    p = vars_.setdefault(k, [0, 0])
                    p[0 if v > 0 else 1] += 1
        x = min(vars_, key=lambda k: (vars_[k][0] * vars_[k][1], k.uid))
        pos = [c for c in cur if c.get(x, 0) > 0]
        neg = [c for c in cur if c.get(x, 0) < 0]
        nxt = [c for c in cur if x not in c]
        for p in pos:
            for n in neg:
                r = add({k: v * -n[x] for k, v in p.items()}, {k: v * p[x] for k, v in n.items()})
                r.pop(x, None)
                nxt.append(r)
        cur = nxt


def unsat(cs):
    """Infeasibility of expressions >= 0 including the definitions of every atom reachable from them."""
    alts, seen = [], set()
    work = list(cs)
    while work:
        c = work.pop()
        for k in c:
            if isinstance(k, T) and k not in seen:
                seen.add(k)
                d = defs(k)
                if d:
                    alts.append(d)
                    for a in d:
                        work.extend(a)
    if len(alts) > 14:
        return None
    n = 1
    for a in alts:
        n *= len(a)
    if n > 512:
        return None
    for choice in product(*alts):
        r = infeasible(list(cs) + [e for a in choice for e in a])
        if r is not True:
            return r
    return True


def fact_exprs(facts):
    """Numeric content of path facts."""
    out = []
    for at, pol in facts.items():
        at = norm(at)
        if at.op == "lt":
            out.append(ge(at.a[1], at.a[0], 1) if pol else ge(at.a[0], at.a[1]))
        elif at.op == "le":
            out.append(ge(at.a[1], at.a[0]) if pol else ge(at.a[0], at.a[1], 1))
        elif at.op == "eq" and pol:
            out += [ge(at.a[0], at.a[1]), ge(at.a[1], at.a[0])]
        elif at.op == "truthy":
            x = norm_len(at.a[0])
            out.append(add(lin(x), {1: -1}) if pol else {k: -v for k, v in lin(x).items()})
    return [e for e in out if e]


def proves(facts, goal):
    """facts (expressions >= 0) entail goal >= 0: True / False / None (too large)."""
    neg = add({k: -v for k, v in goal.items()}, {1: -1})
    return unsat(relevant(facts, [neg]) + [neg])


def relevant(facts, goals):
    """The facts connected to the goals by shared atoms (weakening the premises is always allowed)."""
    def reach(cs):
        atoms, work = set(), list(cs)
        while work:
            for k in work.pop():
                if k != 1 and k not in atoms:
                    atoms.add(k)
                    for alt in defs(k) or ():
                        work.extend(alt)
        return atoms
    atoms = reach(goals)
    rest, out = list(facts), []
    own = {}
    for f in rest:                          # a fact also speaks about what its atoms are defined by
        own[id(f)] = reach([f])
    while True:
        hit = [f for f in rest if set(f) == {1} or any(k in atoms for k in own[id(f)])]
        if not hit:
            return out
        rest = [f for f in rest if not any(f is h for h in hit)]
        for f in hit:
            out.append(f)
            atoms |= own[id(f)]
