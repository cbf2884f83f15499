"""C32: the validators accept exactly what they document."""
from ..common import *
from ..terms import contains
from .making import runf
from .search import bare, same_id, unknown

CELLS = frozenset(("neg", "zero", "pos", "pinf", "ninf", "nan"))
NONZERO = CELLS - {"zero"}
NONFINITE = frozenset(("pinf", "ninf", "nan"))
FINITE = CELLS - NONFINITE
CMP = {"<": frozenset(("neg", "ninf")), ">": frozenset(("pos", "pinf")), "<=": frozenset(("neg", "ninf", "zero")), ">=": frozenset(("pos", "pinf", "zero")), "==": frozenset(("zero",)), "!=": NONZERO}
METRICS = {"cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"}


def tail(t):
    return t.a[0].rsplit(".", 1)[-1] if t.op == "call" else None


def kwargs(t):
    return dict((k, strip_ver(v)) for k, v in (t.a[2] if len(t.a) > 2 and isinstance(t.a[2], tuple) else ()))


class Reader:
    """Reads facts of a path about the argument v as literals (atom, truth)."""

    def __init__(self, name, table=False, heap=None):
        self.name, self.table, self.heap = name, table, heap or {}

    def par(self, t, name=None):
        t = strip_ver(t)
        return t.op == "param" and t.a[0] == (name or self.name)

    # elementwise predicates of the array
    def cells(self, t, d=0):
        t = strip_ver(t)
        if d > 12:
            return None
        if self.par(t):
            return NONZERO
        if t.op == "cmp":
            o, a, b = t.a
            a, b = strip_ver(a), strip_ver(b)
            if is_const(a) and not is_const(b):
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if self.par(a) and self.par(b):
                return {"==": CELLS - {"nan"}, "!=": frozenset(("nan",))}.get(o)
            if not is_const(b) or cval(b) != 0 or isinstance(cval(b), bool):
                return None
            if self.par(a):
                return CMP.get(o)
            if tail(a) in ("abs", "absolute", "fabs", "square") and a.a[1] and self.par(a.a[1][0]):
                return {">": NONZERO - {"nan"}, "==": frozenset(("zero",)), "!=": NONZERO, "<=": frozenset(("zero",)), ">=": CELLS - {"nan"}, "<": frozenset()}.get(o)
            return None
        if t.op == "un" and t.a[0] in ("~", "not"):
            x = self.cells(t.a[1], d + 1)
            return None if x is None else CELLS - x
        if t.op == "bin" and t.a[0] in "&|^":
            x, y = self.cells(t.a[1], d + 1), self.cells(t.a[2], d + 1)
            return None if x is None or y is None else {"&": x & y, "|": x | y, "^": x ^ y}[t.a[0]]
        if t.op == "call" and t.a[1]:
            n, args = tail(t), t.a[1]
            if n in ("isnan", "isinf", "isfinite", "isposinf", "isneginf") and self.par(args[0]):
                return {"isnan": frozenset(("nan",)), "isinf": frozenset(("pinf", "ninf")), "isfinite": FINITE, "isposinf": frozenset(("pinf",)), "isneginf": frozenset(("ninf",))}[n]
            if n in ("logical_not", "invert"):
                x = self.cells(args[0], d + 1)
                return None if x is None else CELLS - x
            if n in ("logical_or", "bitwise_or", "logical_and", "bitwise_and") and len(args) == 2:
                x, y = self.cells(args[0], d + 1), self.cells(args[1], d + 1)
                return None if x is None or y is None else (x | y if n.endswith("or") else x & y)
            if n in ("equal", "not_equal", "greater", "less") and len(args) == 2:
                return self.cells(mk("cmp", {"equal": "==", "not_equal": "!=", "greater": ">", "less": "<"}[n], args[0], args[1]), d + 1)
            if n in ("astype", "asarray", "array", "ravel", "flatten") and not self.par(args[0]):
                return self.cells(args[0], d + 1)
            if n in ("abs", "absolute", "fabs", "square") and self.par(args[0]):
                return NONZERO
        return None

    def rows(self, t, d=0):
        """Row by row: ('any'|'all', cells, negated) of a boolean column over the rows of a table."""
        t = strip_ver(t)
        if d > 8 or not self.table:
            return None
        if t.op == "un" and t.a[0] in ("~", "not"):
            x = self.rows(t.a[1], d + 1)
            return None if x is None else (x[0], x[1], not x[2])
        if t.op == "cmp" and is_const(strip_ver(t.a[2])) and cval(strip_ver(t.a[2])) == 0:
            x = strip_ver(t.a[1])
            if tail(x) in ("count_nonzero", "norm", "sum", "max", "amax") and self.axis(x):
                s = self.magnitude(x)
                if s is not None and t.a[0] in ("==", "!=", ">", "<="):
                    return ("any", s, t.a[0] in ("==", "<="))
            return None
        if t.op == "call" and t.a[1]:
            n = tail(t)
            if n in ("logical_not", "invert"):
                x = self.rows(t.a[1][0], d + 1)
                return None if x is None else (x[0], x[1], not x[2])
            if n in ("any", "all") and self.axis(t):
                s = self.cells(t.a[1][0])
                return None if s is None else (n, s, False)
        return None

    def axis(self, t):
        a = kwargs(t).get("axis", strip_ver(t.a[1][1]) if len(t.a[1]) > 1 else None)
        return a is not None and is_const(a) and cval(a) in (1, -1)

    def magnitude(self, x):
        """Cells of which a total that is zero exactly when there are none of them is made."""
        n, a = tail(x), strip_ver(x.a[1][0])
        if n == "count_nonzero":
            return self.cells(a)
        if n == "norm":
            return NONZERO if self.par(a) else None
        if n in ("sum", "max", "amax"):
            if tail(a) in ("abs", "absolute", "fabs", "square") and a.a[1] and self.par(a.a[1][0]):
                return NONZERO
            if a.op == "bin" and a.a[0] == "**" and self.par(a.a[1]) and is_const(a.a[2]) and cval(a.a[2]) == 2:
                return NONZERO
            if not self.par(a):
                return self.cells(a)
        return None

    def quantified(self, t, v, d=0):
        """Literals of the truth of a term over the elements of the array; None when it is not understood."""
        t = strip_ver(t)
        if d > 8:
            return None
        if t.op == "un" and t.a[0] == "not":
            return self.quantified(t.a[1], not v, d + 1)
        if t.op == "cmp" and is_const(strip_ver(t.a[2])) and cval(strip_ver(t.a[2])) == 0 and t.a[0] in ("==", "!=", ">"):
            return self.zero(t.a[1], v if t.a[0] == "==" else not v)
        if t.op == "call" and t.a[1]:
            n, a = tail(t), strip_ver(t.a[1][0])
            if n in ("any", "all", "bool") and (n == "bool" or not self.axis(t)):
                if n == "bool":
                    return self.quantified(a, v, d + 1)
                s = self.cells(a)
                if s is not None:
                    return {("any", s, v)} if n == "any" else {("any", CELLS - s, not v)}
                r = self.rows(a)
                if r is not None:
                    how, s, neg = r
                    if n == "any":
                        return {("row", how, s, neg, v)}
                    return {("row", how, s, not neg, not v)}
            return self.zero(t, not v)
        return None

    def zero(self, t, v):
        """The total t is zero (v) or not."""
        t = strip_ver(t)
        if t.op != "call" or not t.a[1] or self.axis(t):
            return None
        a = strip_ver(t.a[1][0])
        if tail(t) in ("sum", "count_nonzero") and not self.par(a):
            r = self.rows(a)
            if r is not None:
                return {("row", r[0], r[1], r[2], not v)}
        s = self.magnitude(t) if tail(t) in ("sum", "count_nonzero", "norm", "max", "amax") else None
        return None if s is None else {("any", s, not v)}

    # integers
    def count(self, t):
        """A size of the argument, or a number given by the caller."""
        t = strip_ver(t)
        if t.op == "call" and t.a[0] == "len" and self.par(t.a[1][0]):
            return "LEN"
        if t.op == "attr" and t.a[-1] == "size" and self.par(t.a[0]):
            return "SIZE"
        if t.op == "attr" and t.a[-1] == "ndim" and self.par(t.a[0]):
            return "NDIM"
        if t.op == "call" and t.a[0] == "len" and t.a[1][0].op == "attr" and t.a[1][0].a[-1] == "shape" and self.par(t.a[1][0].a[0]):
            return "NDIM"
        if t.op == "item" and strip_ver(t.a[0]).op == "attr" and strip_ver(t.a[0]).a[-1] == "shape" and self.par(strip_ver(t.a[0]).a[0]) and is_const(t.a[1]):
            i = cval(t.a[1])
            return {0: "LEN", 1: "DIM", -1: "DIM" if self.table else "LEN"}.get(i)
        if t.op == "param":
            return "p:" + t.a[0]
        if t.op == "init":
            return None
        return None


def numbers(rd, f, v):
    """Facts between two counts, or a count and a constant, as ('le', x, y, c): x <= y + c."""
    if f.op == "truthy":
        t = strip_ver(f.a[0])
        if rd.par(t):
            return [("le", "0", "LEN", -1)] if v else [("le", "LEN", "0", 0)]
        n = rd.count(t)
        if n is None:
            return None
        if n.startswith("p:"):
            return [("nz", n, v)]
        return [("le", "0", n, -1)] if v else [("le", n, "0", 0)]
    if f.op not in ("lt", "le", "eq"):
        return None
    a, b = strip_ver(f.a[0]), strip_ver(f.a[1])
    if not hasattr(a, "op") or not hasattr(b, "op"):
        return None
    ca, cb = (cval(x) if is_const(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool) else None for x in (a, b))
    x, y = ("0", ca) if ca is not None else (rd.count(a), 0), ("0", cb) if cb is not None else (rd.count(b), 0)
    if x[0] is None or y[0] is None or x[0] == y[0]:
        return None
    k = y[1] - x[1]                       # x + x1 <= y + y1
    if f.op == "eq":
        if v:
            return [("le", x[0], y[0], k), ("le", y[0], x[0], -k)]
        return [("ne", x[0], y[0], k), ("ne", y[0], x[0], -k)]
    if f.op == "lt":
        return [("le", x[0], y[0], k - 1)] if v else [("le", y[0], x[0], -k)]
    return [("le", x[0], y[0], k)] if v else [("le", y[0], x[0], -k - 1)]


# ---------------------------------------------------------------------------------------------- conditions of the definition
class Cond:
    """holds(lits) / fails(lits): what the facts of a path say about a condition."""

    def holds(self, L):
        return False

    def fails(self, L):
        return False


class Le(Cond):
    """x <= y + c; sizes are not negative."""

    def __init__(self, x, y, c=0, nat=()):
        self.x, self.y, self.c, self.nat = x, y, c, nat

    def holds(self, L):
        for x, y in alias(self.x, self.y):
            if any(l[0] == "le" and l[1] == x and l[2] == y and l[3] <= self.c for l in L):
                return True
            if y == "0" and x in NAT and ("ne", x, "0", 0) not in L and any(l[0] == "ne" and l[1] == x and l[2] == "0" for l in L) and False:
                return True
        return False

    def fails(self, L):                   # y + c + 1 <= x
        for x, y in alias(self.x, self.y):
            if any(l[0] == "le" and l[1] == y and l[2] == x and l[3] <= -self.c - 1 for l in L):
                return True
            if self.c == 0 and y == "0" and x in NAT and ("ne", x, "0", 0) in L:
                return True
        return False


NAT = ("LEN", "DIM", "SIZE", "NDIM")


def alias(x, y):
    """For one vector its size is its length; a table is empty when its size is zero."""
    out = [(x, y)]
    if "LEN" in (x, y):
        out.append(tuple("SIZE" if z == "LEN" else z for z in (x, y)))
    if "DIM1" in (x, y):
        out = [tuple("DIM" if z == "DIM1" else z for z in (x, y))]
    return out


class Ne(Cond):
    def __init__(self, x, c):
        self.x, self.c = x, c

    def holds(self, L):
        return ("ne", self.x, "0", self.c) in L or any(l[0] == "le" and (l[1], l[2]) == (self.x, "0") and l[3] < self.c or l[0] == "le" and (l[1], l[2]) == ("0", self.x) and -l[3] > self.c for l in L)

    def fails(self, L):
        return ("le", self.x, "0", self.c) in L and ("le", "0", self.x, -self.c) in L


class Lit(Cond):
    def __init__(self, *l):
        self.l = l

    def holds(self, L):
        return self.l in L

    def fails(self, L):
        return self.l[:-1] + (not self.l[-1],) in L


class Any_(Cond):
    """Some element (v) is in one of the cells, or none is."""

    def __init__(self, s, v):
        self.s, self.v = s, v

    def some(self, L):
        out = frozenset().union(*[l[1] for l in L if l[0] == "any" and not l[2]])
        return any(l[0] == "any" and l[2] and l[1] - out <= self.s for l in L)

    def none(self, L):
        return self.s <= frozenset().union(*[l[1] for l in L if l[0] == "any" and not l[2]])

    def holds(self, L):
        return self.some(L) if self.v else self.none(L)

    def fails(self, L):
        return self.none(L) if self.v else self.some(L)


class ZeroRow(Cond):
    """Some row of the table has only zeros."""

    def reads(self, l):
        how, s, neg = l[1], l[2], l[3]
        # the row has no nonzero element
        return how == "any" and neg and s == NONZERO or how == "all" and not neg and s == {"zero"}

    def holds(self, L):
        return any(l[0] == "row" and self.reads(l) and l[4] for l in L)

    def fails(self, L):
        return any(l[0] == "row" and self.reads(l) and not l[4] for l in L)


class Type(Cond):
    """Not an instance of one of the types."""

    def __init__(self, what, types):
        self.what, self.types = what, frozenset(types)

    def holds(self, L):
        return any(l[0] == "isinst" and l[1] == self.what and not l[3] and self.types <= l[2] for l in L)

    def fails(self, L):
        return any(l[0] == "isinst" and l[1] == self.what and l[3] and l[2] <= self.types for l in L)


def types_of(t):
    t = strip_ver(t)
    if t.op == "tuple":
        r = set()
        for x in t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a:
            q = types_of(x)
            if q is None:
                return None
            r |= q
        return frozenset(r)
    n = show(t)
    return frozenset((n.rsplit(".", 1)[-1],)) if n and all(c.isalnum() or c in "._" for c in n) else None


# ---------------------------------------------------------------------------------------------- the check
def weak(t, v, accept):
    """Conditions this lattice has no literal for, but which are known to establish no documented defect (refusing) or
    to exclude none (accepting)."""
    ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
    par = lambda x: strip_ver(x).op == "param"
    if accept:
        if t.op == "in" and v and ops[0].op == "call" and tail(ops[0]) in ("lower", "upper", "strip", "casefold") and ops[0].a[1] and par(ops[0].a[1][0]):
            return True                       # another spelling of it is known
        if t.op == "truthy" and v and ops[0].op == "key" and par(ops[0].a[0]):
            return True                       # the key is not empty: of any type
        if t.op == "truthy" and not v and tail(ops[0]) == "any" and ops[0].a[1]:
            # neighbours only: every comparison is of an element with one of a part of the same list
            c = strip_ver(ops[0].a[1][0])
            sl = [x for x in walk(c) if x.op == "slice"]
            return c.op == "comp" and par(c.a[1]) and len({show(x) for x in sl}) == 1 and par(sl[0].a[0]) and all(not hasattr(y, "op") or is_const(strip_ver(y)) for y in sl[0].a[1:]) and not [x for x in walk(c) if x.op == "call"]
        if t.op == "eq" and not v and all(x.op == "item" for x in ops):
            sl = [strip_ver(x.a[0]) for x in ops if strip_ver(x.a[0]).op == "slice"]
            return len(sl) == 1 and par(sl[0].a[0]) and any(par(x.a[0]) for x in ops) and all(not hasattr(y, "op") or is_const(strip_ver(y)) for y in sl[0].a[1:])
        if t.op == "eq" and not v and len(ops) == 2 and all(tail(x) == "len" for x in ops):
            # as many as were asked for are not all missing, or some are
            a = [strip_ver(x.a[1][0]) if x.op == "call" else strip_ver(x.a[0]) for x in ops]
            return any(par(x) for x in a) and any(x.op == "comp" for x in a)
        return False
    if t.op == "eq" and v and any(is_const(x) and cval(x) == 0 for x in ops) and any(x.op == "item" and par(x.a[0]) and is_const(strip_ver(x.a[1])) for x in ops):
        return True                           # one component is zero
    if t.op == "truthy" and not v and ops[0].op == "item" and par(ops[0].a[0]) and is_const(strip_ver(ops[0].a[1])):
        return True
    if t.op == "eq" and not v and any(tail(x) == "type" for x in ops):
        return True                           # a subclass is an instance too
    if t.op == "lt" and v and par(ops[0]) and is_const(ops[1]) and cval(ops[1]) == 0 and ops[0].a[0] in ("id", "id_"):
        return True                           # a negative integer is an integer
    return False


def judge(rep, prog, n, ps, fi, lits, defects, names, elements=()):
    """Every refusal is for a documented defect; every acceptance has excluded each of them."""
    file = fi.module.path
    seen = {d: 0 for d, _ in defects}
    for p in ps:
        ln = getattr(p.node, "lineno", fi.node.lineno)
        if p.kind not in ("return", "raise"):
            continue
        L, strange = lits(p)
        for t in p.facts:
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            own = [y for x in ops for y in walk(x) if y.op == "alloc"]
            if t.op in ("eq", "lt", "le") and own and n == "validate_ids":
                continue
            if any(p.st.heap.get(y) is None or any(e.tag != "one" for e in p.st.heap[y].entries) for y in own) and t.op != "isnone":
                strange.append(t)             # a collection filled on the way
        strange = [t for t in strange if t not in p.facts or not weak(t, p.facts[t], p.kind == "return")]
        if p.kind == "return":
            if not (is_const(p.val) and cval(p.val) is True):
                if is_const(p.val):
                    rep.bad("R32.accept", n, "answer", f"answers {show(p.val)} instead of True or refusing", file, ln)
                else:
                    rep.unk("R32.accept", n, "answer not understood")
                continue
            for d, conds in defects:
                if any(c.fails(L) for c in conds):
                    rep.ok("R32.accept", f"{n}: {d}")
                    seen[d] += 1
                elif strange:
                    rep.unk("R32.accept", f"{n}: {d}", "condition not understood: " + show(strange[0])[:80])
                else:
                    rep.bad("R32.accept", n, d, f"accepted without excluding: {d}", file, ln)
            continue
        c = exc_class(prog, p.val)
        q = c if isinstance(c, str) else getattr(c, "qual", None)
        if q is None:
            rep.unk("R32.refuse", n, "error not understood")
            continue
        if q.rsplit(".", 1)[-1] != "ValidationError":
            rep.bad("R32.refuse", n, "error", f"refuses with {q.rsplit('.', 1)[-1]} instead of ValidationError", file, ln)
            continue
        for d, conds in defects:
            if all(c.holds(L) for c in conds):
                rep.ok("R32.refuse", f"{n}: {d}")
                break
        else:
            if strange:
                rep.unk("R32.refuse", n, "condition not understood: " + show(strange[0])[:80])
            else:
                rep.bad("R32.refuse", n, "refused", "refused although none of the documented reasons is established (" + "; ".join(sorted(names(l) for l in L))[:160] + ")", file, ln)


DERIVED = ("isnone",)


def array_lits(name, table, dtype_par="dtype", zero_par="allow_zero", bounds=("min_dim", "max_dim")):
    def f(p):
        rd = Reader(name, table, p.st.heap)
        L, strange = set(), []
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst" and rd.par(ops[0]):
                s = types_of(ops[1])
                if s is not None:
                    L.add(("isinst", name, s, v))
                    continue
            if t.op == "isnone" and ops[0].op == "param":
                L.add(("none", ops[0].a[0], v))
                continue
            if t.op == "truthy" and ops[0].op == "param" and ops[0].a[0] == zero_par:
                L.add(("on", zero_par, v))
                continue
            if t.op == "eq" and any(rd.par(x, dtype_par) for x in ops) and any(x.op == "attr" and x.a[-1] == "dtype" and rd.par(x.a[0]) for x in ops):
                L.add(("dtype", v))
                continue
            if t.op == "in" and ops[0].op == "attr" and ops[0].a[-1] == "kind" and strip_ver(ops[0].a[0]).op == "attr":
                ks = kinds(ops[1], p.st.heap)
                if ks is not None:
                    if v and ks <= set("biufc"):
                        L.add(("numeric", True))
                    if not v and set("biufc") <= ks:
                        L.add(("numeric", False))
                    continue
            if t.op == "truthy" and tail(ops[0]) == "issubdtype":
                L.add(("numeric", v))
                continue
            ns = numbers(rd, t, v)
            if ns is not None:
                L.update(ns)
                continue
            q = rd.quantified(ops[0], v) if t.op == "truthy" else None
            if q is None and t.op == "eq" and any(is_const(x) and cval(x) == 0 for x in ops):
                q = rd.zero(next(x for x in ops if not (is_const(x) and cval(x) == 0)), v)
            if q is None and t.op == "lt" and is_const(ops[0]) and cval(ops[0]) == 0:
                q = rd.zero(ops[1], not v)
            if q is not None:
                L.update(q)
                continue
            if t.op == "isnone" or t.op == "truthy" and tail(ops[0]) in ("len",) or not contains(t, lambda x: x.op == "param"):
                continue
            if t.op == "eq" and all(x.op == "attr" and x.a[-1] == "kind" for x in ops):
                continue                      # the kind of a dtype leaves its size open
            if t.op == "truthy":
                w = whole(rd, ops[0])
                q = rd.quantified(w, v) if w is not ops[0] else None
                if q is not None:             # part of the array: what is found there is found in the array
                    L.update(l for l in q if l[0] == "any" and l[2])
                    continue
            if plain_total(rd, t):
                continue                      # says nothing about the single elements
            strange.append(t)
        # a number that is zero as a condition: a lower bound of zero excludes nothing
        if ("nz", "p:" + bounds[0], False) in L:
            L.add(("none", bounds[0], True))
        return L, strange
    return f


def whole(rd, t, d=0):
    """The term with parts of the array replaced by the array."""
    if d > 8 or not hasattr(t, "op"):
        return t
    t = strip_ver(t)
    if t.op in ("item", "slice") and rd.par(t.a[0]):
        return t.a[0]
    if t.op == "call" and t.a[1]:
        xs = tuple(whole(rd, x, d + 1) for x in t.a[1])
        return t if all(x is y for x, y in zip(xs, t.a[1])) else mk("call", t.a[0], xs, *t.a[2:])
    if t.op in ("cmp", "bin", "un"):
        xs = tuple(whole(rd, x, d + 1) for x in t.a[1:])
        return t if all(x is y for x, y in zip(xs, t.a[1:])) else mk(t.op, t.a[0], *xs)
    return t


def plain_total(rd, f):
    """A condition on the sum, mean or an extreme element (signs kept) of the array."""
    for x in f.a:
        x = strip_ver(x) if hasattr(x, "op") else None
        if x is not None and x.op == "call" and x.a[1] and tail(x) in ("sum", "mean", "max", "min", "prod", "amax", "amin", "any", "all"):
            a = strip_ver(x.a[1][0])
            if a.op == "call" and tail(a) in ("any", "all") and a.a[1] and (rd.par(a.a[1][0]) or rd.cells(a.a[1][0]) is not None):
                return True                   # column by column
            if a.op == "cmp" and plain_total(rd, mk("truthy", a.a[1])):
                return True                   # the totals of the rows
            return rd.par(a) or rd.cells(a) is not None
    return False


def kinds(t, heap):
    t = strip_ver(t)
    if is_const(t) and isinstance(cval(t), str):
        return set(cval(t))
    if is_const(t) and isinstance(cval(t), (tuple, frozenset)):
        return set(cval(t))
    c = heap.get(t)
    if c is not None and all(e.tag == "one" and (e.val if e.val is not None else e.key) is not None and is_const(strip_ver(e.val if e.val is not None else e.key)) for e in c.entries):
        return {cval(strip_ver(e.val if e.val is not None else e.key)) for e in c.entries}
    if t.op == "tuple":
        xs = t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a
        if all(is_const(strip_ver(x)) for x in xs):
            return {cval(strip_ver(x)) for x in xs}
    return None


def lit_name(l):
    return " ".join(str(sorted(x) if isinstance(x, frozenset) else x) for x in l)


def c32(prog, rep):
    rep.explain = "On every accepting path of a validator the facts exclude each documented defect; every refusing path establishes one of them and raises ValidationError."
    rep.rule("R32.accept", "nothing is accepted with a documented defect", 20)
    rep.rule("R32.refuse", "nothing is refused without a documented defect, and always with ValidationError", 20)
    for n, table in (("validate_vector", False), ("validate_vectors", True)):
        I, ps, fi = runf(prog, rep, n)
        v = fi.node.args.args[0].arg
        dim = "DIM" if table else "LEN"
        defects = [("not an array", [Type(v, ["ndarray"])]), ("wrong number of axes", [Ne("NDIM", 2 if table else 1)]), ("empty", [Le("LEN", "0")]),
                   ("fewer dimensions than the minimum", [Lit("none", "min_dim", False), Le(dim, "p:min_dim", -1)]),
                   ("more dimensions than the maximum", [Lit("none", "max_dim", False), Le("p:max_dim", dim, -1)]),
                   ("another dtype", [Lit("none", "dtype", False), Lit("dtype", False)]),
                   ("not numeric", [Lit("numeric", False)]),
                   ("zero vector", [Lit("on", "allow_zero", False), ZeroRow() if table else Any_(NONZERO, False)]),
                   ("NaN or infinity", [Any_(NONFINITE, True)])]
        if table:
            defects.insert(3, ("no dimensions", [Le("DIM", "0")]))
        judge(rep, prog, n, ps, fi, array_lits(v, table), defects, lit_name)
    others(prog, rep)


# ---------------------------------------------------------------------------------------------- the other validators
def same_elem(t, base, how):
    """key(base, 0) / base[key(base, 0)] / an element of base."""
    t = strip_ver(t)
    if how == "key":
        return t.op == "key" and base(strip_ver(t.a[0]))
    if how == "elem":
        return t.op == "item" and base(strip_ver(t.a[0])) and strip_ver(t.a[1]).op in ("idx", "key", "#") or t.op in ("elem",) and base(strip_ver(t.a[0]))
    if how == "value":
        return t.op in ("item", "get") and base(strip_ver(t.a[0])) and strip_ver(t.a[1]).op == "key" and base(strip_ver(strip_ver(t.a[1]).a[0]))
    return False


def param(name):
    return lambda t: strip_ver(t).op == "param" and strip_ver(t).a[0] == name


def comp_of(t):
    """(base, conditions, result) of a comprehension, or None."""
    t = strip_ver(t)
    if t.op == "call" and t.a[0] in ("list", "sorted", "set", "tuple", "any", "all") and t.a[1]:
        t = strip_ver(t.a[1][0])
    return t if t.op == "comp" else None


def loops(p):
    """Containers iterated on the path; those whose iteration was left early."""
    done, begun = set(), set()
    for e in p.st.events:
        if e.kind == "iter" and e.a and hasattr(e.a[0], "op"):
            begun.add(strip_ver(e.a[0]))
        if e.kind == "iterend" and e.a and hasattr(e.a[0], "op"):
            done.add(strip_ver(e.a[0]))
    return begun, done


def others(prog, rep):
    config(prog, rep)
    simple(prog, rep)
    lists(prog, rep)
    metadata(prog, rep)


def simple(prog, rep):
    # metric
    I, ps, fi = runf(prog, rep, "validate_metric")
    m = fi.node.args.args[0].arg

    def lits(p):
        L, strange = set(), []
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst" and param(m)(ops[0]) and types_of(ops[1]) is not None:
                L.add(("isinst", m, types_of(ops[1]), v))
            elif t.op == "in" and param(m)(ops[0]) and kinds(ops[1], p.st.heap) is not None:
                ks = kinds(ops[1], p.st.heap)
                if v and ks <= METRICS:
                    L.add(("known", True))
                if not v and METRICS <= ks:
                    L.add(("known", False))
            elif contains(t, lambda x: x.op == "param") and not (t.op in ("isnone", "truthy") and param(m)(ops[0])):
                strange.append(t)
        return L, strange
    judge(rep, prog, "validate_metric", ps, fi, lits, [("not a string", [Type(m, ["str"])]), ("not a known metric", [Lit("known", False)])], lit_name)
    # k
    I, ps, fi = runf(prog, rep, "validate_k")
    k, mx = (a.arg for a in fi.node.args.args[:2])

    def lits(p):
        rd = Reader(k)
        L, strange = set(), []
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst" and param(k)(ops[0]) and types_of(ops[1]) is not None:
                L.add(("isinst", k, types_of(ops[1]), v))
            elif t.op == "isnone" and ops[0].op == "param":
                L.add(("none", ops[0].a[0], v))
            elif t.op == "truthy" and ops[0].op == "param":
                if ops[0].a[0] == k:
                    L.update([("ne", "p:" + k, "0", 0)] if v else [("le", "p:" + k, "0", 0), ("le", "0", "p:" + k, 0)])
            elif numbers(rd, t, v) is not None:
                L.update(numbers(rd, t, v))
            elif contains(t, lambda x: x.op == "param"):
                strange.append(t)
        return L, strange
    judge(rep, prog, "validate_k", ps, fi, lits, [("not an integer", [Type(k, ["int"])]), ("not positive", [Le("p:" + k, "0")]), ("above the maximum", [Lit("none", mx, False), Le("p:" + mx, "p:" + k, -1)])], lit_name)
    # id
    I, ps, fi = runf(prog, rep, "validate_id")
    i = fi.node.args.args[0].arg
    judge(rep, prog, "validate_id", ps, fi, lambda p: id_lits(p, param(i)), [("neither string nor integer", [Type("id", ["str", "int"])]), ("blank string", [StrBlank()])], lit_name)


class StrBlank(Cond):
    """A string of blanks only."""

    def holds(self, L):
        return ("blank", True) in L

    def fails(self, L):
        return ("blank", False) in L or any(l[0] == "isinst" and l[1] == "id" and ("str" in l[2]) and not l[3] or l[0] == "isinst" and l[1] == "id" and l[3] and "str" not in l[2] for l in L)


def id_lits(p, is_id):
    L, strange = set(), []
    for t, v in p.facts.items():
        ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
        if not ops or not any(contains(x, lambda y: is_id(y)) for x in ops):
            continue
        if t.op == "isinst" and is_id(ops[0]) and types_of(ops[1]) is not None:
            L.add(("isinst", "id", types_of(ops[1]), v))
        elif t.op == "isnone" or t.op == "truthy" and is_id(ops[0]) and v:
            continue
        elif t.op == "truthy" and is_id(ops[0]):
            # empty, or the integer 0
            if any(l for l in p.facts.items() if l[0].op == "isinst" and is_id(strip_ver(l[0].a[0])) and l[1] and types_of(l[0].a[1]) == {"str"}):
                L.add(("blank", True))
        elif t.op == "truthy" and ops[0].op == "call" and ops[0].a[0] == ".strip" and len(ops[0].a[1]) == 1 and is_id(strip_ver(ops[0].a[1][0])):
            L.add(("blank", not v))
        elif t.op == "eq" and any(is_const(x) and cval(x) == "" for x in ops) and any(x.op == "call" and x.a[0] == ".strip" and is_id(strip_ver(x.a[1][0])) for x in ops):
            L.add(("blank", v))
        elif t.op == "truthy" and ops[0].op == "call" and ops[0].a[0] == ".isspace":
            if v:
                L.add(("blank", True))
        elif t.op == "in" or t.op == "eq" and any(x.op == "call" and x.a[0] == "len" for x in ops) and contains(t, lambda x: x.op == "call" and x.a[0] == "set"):
            continue
        else:
            strange.append(t)
    return L, strange


def lists(prog, rep):
    I, ps, fi = runf(prog, rep, "validate_ids")
    n = fi.node.args.args[0].arg
    rd = Reader(n)

    def is_id(t):
        t = strip_ver(t)
        return t.op in ("item", "elem") and param(n)(t.a[0])

    def lits(p):
        L, strange = id_lits(p, is_id)
        begun, done = loops(p)
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst" and param(n)(ops[0]) and types_of(ops[1]) is not None:
                L.add(("isinst", n, types_of(ops[1]), v))
            elif t.op in ("eq", "lt", "le") and any(unique(x, n, p.st.heap) for x in ops):
                o = [x for x in ops if not unique(x, n, p.st.heap)]
                if o and rd.count(o[0]) == "LEN":
                    if t.op == "eq":
                        L.add(("dup", not v))
                    elif t.op == "lt":
                        if unique(ops[0], n, p.st.heap):
                            L.add(("dup", v))
                    elif not unique(ops[0], n, p.st.heap):
                        L.add(("dup", not v))
                else:
                    strange.append(t)
            elif t.op == "eq" and any(rd.count(x) == "LEN" for x in ops) and any(mapped(x, n, p.st.heap) for x in ops):
                if v:
                    L.add(("dup", False))         # different ids may still look alike
            elif t.op in ("eq", "lt", "le") and all(is_const(x) or show(x).startswith("#(") for x in ops):
                continue
            elif t.op == "truthy" and show(ops[0]).startswith("#("):
                continue
            elif any(x.op in ("item", "elem", "call", "slice") and contains(x, lambda y: y.op == "slice" and param(n)(y.a[0])) for x in ops):
                continue                          # some of the ids only
            elif t.op == "truthy" and param(n)(ops[0]):
                L.update(numbers(rd, t, v))
            elif numbers(rd, t, v) is not None:
                L.update(numbers(rd, t, v))
            elif t.op not in ("isnone",) and contains(t, param(n)) and not contains(t, is_id):
                strange.append(t)
        whole = any(param(n)(c) or contains(c, param(n)) and not contains(c, lambda x: x.op == "slice") for c in done)
        if p.kind == "return" and not whole:
            # the elements were not all looked at
            L = {l for l in L if not (l[0] == "isinst" and l[1] == "id") and l[0] != "blank"}
            if not begun and any(contains(t, lambda x: x.op == "comp") for t in p.facts):
                strange.append(next(t for t in p.facts if contains(t, lambda x: x.op == "comp")))
        return L, strange
    judge(rep, prog, "validate_ids", ps, fi, lits, [("not a list", [Type(n, ["list"])]), ("empty", [Le("LEN", "0")]), ("an id that is neither string nor integer", [Type("id", ["str", "int"])]), ("a blank id", [StrBlank()]), ("duplicates", [Lit("dup", True)])], lit_name)


def unique(t, n, heap=None):
    t = strip_ver(t)
    if t.op == "call" and t.a[0] == "len" and heap is not None and strip_ver(t.a[1][0]) in heap:
        c = heap[strip_ver(t.a[1][0])]
        vs = [e.val if e.val is not None else e.key for e in c.entries if e.tag != "prev"]
        return c.kind in ("set", "dict") and bool(vs) and all(x is not None and strip_ver(x).op in ("item", "elem") and param(n)(strip_ver(x).a[0]) for x in vs)
    if t.op == "call" and t.a[0] == "len" and strip_ver(t.a[1][0]).op == "comp":
        x = strip_ver(t.a[1][0])
        return x.a[0] == "set" and param(n)(x.a[1]) and len(x.a[2]) == 1 and not x.a[2][0][0] and hasattr(x.a[2][0][1], "op") and strip_ver(x.a[2][0][1]).op in ("item", "elem") and param(n)(strip_ver(x.a[2][0][1]).a[0])
    return t.op == "call" and t.a[0] == "len" and strip_ver(t.a[1][0]).op == "call" and strip_ver(t.a[1][0]).a[0] in ("set", "frozenset", "dict.fromkeys") and param(n)(strip_ver(t.a[1][0]).a[1][0])


def mapped(t, n, heap=None):
    """The number of different images of the ids."""
    t = strip_ver(t)
    if t.op == "call" and t.a[0] == "len" and heap is not None and strip_ver(t.a[1][0]) in heap:
        c = heap[strip_ver(t.a[1][0])]
        vs = [e.val if e.val is not None else e.key for e in c.entries]
        return c.kind == "set" and bool(vs) and all(x is not None and contains(x, param(n)) for x in vs)
    return t.op == "call" and t.a[0] == "len" and (strip_ver(t.a[1][0]).op == "call" and strip_ver(t.a[1][0]).a[0] in ("set", "frozenset") or strip_ver(t.a[1][0]).op == "comp" and strip_ver(t.a[1][0]).a[0] == "set") and contains(t, param(n))


def metadata(prog, rep):
    fi = prog.func("validate_metadata")
    I = Interp(prog, P(throws={"json.dumps": ("TypeError", "ValueError")}))
    ps = I.run_func(fi)
    rep.saw(I, ps)
    n = fi.node.args.args[0].arg
    key = lambda t: strip_ver(t).op == "key" and param(n)(strip_ver(t).a[0])
    val = lambda t: strip_ver(t).op in ("item", "get") and param(n)(strip_ver(t).a[0]) and key(strip_ver(t).a[1])

    def lits(p):
        L, strange = set(), []
        begun, done = loops(p)
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst" and types_of(ops[1]) is not None and (param(n)(ops[0]) or key(ops[0])):
                L.add(("isinst", "key" if key(ops[0]) else n, types_of(ops[1]), v))
            elif t.op == "isnone" and param(n)(ops[0]):
                L.add(("given", not v))
            elif t.op == "truthy" and param(n)(ops[0]):
                if not v:
                    L.add(("empty", True))
            elif contains(t, param(n)) and t.op != "isnone":
                strange.append(t)
        for e in p.st.events:
            if e.kind in ("call", "callx") and e.a and hasattr(e.a[0], "op") and e.a[0].a and str(e.a[0].a[0]) in ("json.dumps",) and e.a[2] and val(e.a[2][0]):
                kw = e.a[3] if len(e.a) > 3 else ()
                if kw and any(k == "default" for k, _ in (kw.items() if isinstance(kw, dict) else kw)):
                    continue
                L.add(("unserializable", e.kind == "callx"))
        whole = any(param(n)(c) for c in done)
        if p.kind == "return" and not whole and ("empty", True) not in L:
            L = {l for l in L if not (l[0] == "isinst" and l[1] == "key") and l[0] != "unserializable"}
        return L, strange

    class Each(Cond):
        def __init__(self, c):
            self.c = c

        def holds(self, L):
            return self.c.holds(L)

        def fails(self, L):
            return self.c.fails(L) or ("given", False) in L or ("empty", True) in L
    judge(rep, prog, "validate_metadata", ps, fi, lits, [("not a dictionary", [NotDict(n)]), ("a key that is not a string", [Each(Type("key", ["str"]))]), ("a value that cannot be written as JSON", [Each(Lit("unserializable", True))])], lit_name)


class NotDict(Cond):
    def __init__(self, n):
        self.t = Type(n, ["dict"])

    def holds(self, L):
        return self.t.holds(L)

    def fails(self, L):
        return self.t.fails(L) or ("given", False) in L


def config(prog, rep):
    I, ps, fi = runf(prog, rep, "validate_config")
    c, req, allow, types, ranges = (a.arg for a in fi.node.args.args[:5])

    def key(base):
        return lambda t: strip_ver(t).op == "key" and param(base)(strip_ver(t).a[0]) or strip_ver(t).op in ("item", "elem") and param(base)(strip_ver(t).a[0]) and strip_ver(t).op != "get"

    def conf(base):
        return lambda t: strip_ver(t).op in ("item", "get") and param(c)(strip_ver(t).a[0]) and strip_ver(strip_ver(t).a[1]).op == "key" and param(base)(strip_ver(strip_ver(t).a[1]).a[0])

    def spec(base, i=None):
        def f(t):
            t = strip_ver(t)
            if i is not None:
                return t.op == "item" and is_const(t.a[1]) and cval(t.a[1]) == i and spec(base)(t.a[0])
            return t.op in ("item", "get") and param(base)(t.a[0]) and strip_ver(t.a[1]).op == "key"
        return f

    def missing(t, flip):
        """The collection of the keys (of one container) that are not in another: which."""
        t = strip_ver(t)
        x = comp_of(t)
        s = show(x) if x is not None else None
        if x is not None:
            base = next((b for b in (req, c) if contains(x, param(b)) and param(b)(x.a[1] if len(x.a) > 1 and hasattr(x.a[1], "op") else x)), None)
            if base is None:
                return None
            ins = [y for y in walk(x) if y.op == "in"]
            if len(ins) != 1 or not same_shape(ins[0], base):
                return None
            if not negated(x, ins[0]):
                return "kept"
            return {req: "missing", c: "extra"}[base]
        if t.op == "bin" and t.a[0] == "-" or t.op == "call" and t.a[0] == ".difference":
            a, b = (t.a[1], t.a[2]) if t.op == "bin" else (t.a[1][0], t.a[1][1])
            a, b = keys_of(a), keys_of(b)
            if (a, b) == (req, c):
                return "missing"
            if (a, b) == (c, allow):
                return "extra"
        return None

    def falsy(x):
        """The required keys whose value is missing or false."""
        if not param(req)(x.a[1]):
            return False
        cs = [cc for br in x.a[2] if isinstance(br, tuple) for cc in (br[0] if isinstance(br[0], tuple) else ()) if isinstance(cc, tuple) and len(cc) == 2]
        return len(cs) == 1 and cs[0][1] is False and cs[0][0].op == "truthy" and strip_ver(cs[0][0].a[0]).op in ("get", "item", "call") and contains(cs[0][0], param(c))

    def keys_of(t):
        t = strip_ver(t)
        while t.op == "call" and (t.a[0] in ("set", "frozenset", "list", "tuple", ".keys")) and t.a[1]:
            t = strip_ver(t.a[1][0])
        return t.a[0] if t.op == "param" else None

    def same_shape(i, base):
        x, y = strip_ver(i.a[0]), strip_ver(i.a[1])
        return key(base)(x) and (param(c)(y) if base == req else param(allow)(y) or keys_of(y) == allow)

    def negated(x, i):
        """The comprehension keeps the elements for which the membership fails."""
        for br in x.a[2]:
            conds = br[0] if isinstance(br, tuple) else ()
            for cc in conds:
                if isinstance(cc, tuple) and len(cc) == 2 and cc[0] is i:
                    return cc[1] is False
        return True

    def lits(p):
        L, strange = set(), []
        begun, done = loops(p)
        for t, v in p.facts.items():
            ops = [strip_ver(x) for x in t.a if hasattr(x, "op")]
            if t.op == "isinst":
                ty = types_of(ops[1]) if not contains(ops[1], lambda y: y.op == "param") else None
                if param(c)(ops[0]) and ty is not None:
                    L.add(("isinst", c, ty, v))
                    continue
                if conf(types)(ops[0]) and show(ops[1]) in ("tuple(%s)" % show(strip_ver(mk("item", mk("param", types), strip_ver(ops[0]).a[1]))), "%s[key(%s, 0)]" % (types, types)):
                    L.add(("typed", v))
                    continue
                if conf(ranges)(ops[0]) and ty is not None:
                    L.add(("isinst", "number", ty, v))
                    continue
            if t.op == "isnone" and ops[0].op == "param":
                L.add(("none", ops[0].a[0], v))
                continue
            if t.op == "truthy" and ops[0].op == "param":
                if not v:
                    L.add(("empty", ops[0].a[0], True))
                continue
            if t.op == "in" and param(c)(ops[1]):
                for b in (types, ranges):
                    if key(b)(ops[0]):
                        L.add(("present", b, v))
                if key(req)(ops[0]):
                    L.add(("missing", not v))
                continue
            if t.op == "in" and key(c)(ops[0]) and keys_of(ops[1]) == allow:
                L.add(("extra", not v))
                continue
            if t.op == "truthy" and comp_of(ops[0]) is not None and falsy(comp_of(ops[0])):
                if not v:
                    L.add(("missing", False))
                continue
            if t.op == "truthy" and missing(ops[0], v) is not None:
                m = missing(ops[0], v)
                if m != "kept":
                    L.add((m, v))
                continue
            if t.op == "truthy" and ops[0].op == "call" and ops[0].a[0] in ("any", "all"):
                strange.append(t)
                continue
            if t.op in ("lt", "le"):
                a, b = ops
                for lo, hi, nm, flipd in ((conf(ranges), spec(ranges, 0), "below", False), (spec(ranges, 1), conf(ranges), "above", False), (spec(ranges, 0), conf(ranges), "below", True), (conf(ranges), spec(ranges, 1), "above", True)):
                    if lo(a) and hi(b):
                        # strict comparison in the direction of the defect, or its complement
                        if not flipd and t.op == "lt":
                            L.add((nm, v))
                        elif flipd and t.op == "le":
                            L.add((nm, not v))
                        elif not flipd and t.op == "le" and not v:
                            L.add((nm, False))
                        elif flipd and t.op == "lt" and v:
                            L.add((nm, False))
                        break
                else:
                    strange.append(t)
                continue
            if t.op != "isnone" and contains(t, lambda x: x.op == "param") and not (t.op == "truthy" and (conf(types)(ops[0]) or conf(ranges)(ops[0]))):
                strange.append(t)
        if p.kind == "return":
            for b, keep in ((types, ("typed",)), (ranges, ("below", "above"))):
                if any(param(b)(x) for x in done):
                    continue
                L = {l for l in L if l[0] not in keep and l[:2] != ("present", b) and not (b == ranges and l[:2] == ("isinst", "number"))}
            for b, nm in ((req, "missing"), (c, "extra")):
                if any(param(b)(x) for x in begun - done):
                    L.discard((nm, False))
        return L, strange

    class Given(Cond):
        """The requirement was stated; an empty one requires nothing."""

        def __init__(self, b, empty=True):
            self.b, self.empty = b, empty

        def holds(self, L):
            return True

        def fails(self, L):
            return ("none", self.b, True) in L or self.empty and ("empty", self.b, True) in L

    class EmptyConf(Cond):
        def holds(self, L):
            return True

        def fails(self, L):
            return ("empty", c, True) in L
    judge(rep, prog, "validate_config", ps, fi, lits, [
        ("not a dictionary", [Type(c, ["dict"])]), ("a required key is missing", [Given(req), Lit("missing", True)]), ("a key that is not allowed", [Given(allow, False), EmptyConf(), Lit("extra", True)]),
        ("a value of another type", [Given(types), EmptyConf(), Lit("present", types, True), Lit("typed", False)]),
        ("a number below its range", [Given(ranges), EmptyConf(), Lit("present", ranges, True), Type_("number", ["int", "float"]), Lit("below", True)]),
        ("a number above its range", [Given(ranges), EmptyConf(), Lit("present", ranges, True), Type_("number", ["int", "float"]), Lit("above", True)])], lit_name)


class Type_(Cond):
    """An instance of one of the types."""

    def __init__(self, what, types):
        self.t = Type(what, types)

    def holds(self, L):
        return self.t.fails(L)

    def fails(self, L):
        return self.t.holds(L)


CHECKS = {"C32": c32}
