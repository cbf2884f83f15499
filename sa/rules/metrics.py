"""C30: a metric computes what its name says."""
from fractions import Fraction

from ..common import *
from ..terms import contains
from .index import QUERY, filled_by_search, indices, slot_lists, vec_copies
from .making import runf
from .search import bare, records, same_id, unknown, vector_ids_of
from .storage import rets


# ---------------------------------------------------------------------------------------------- rational functions
class Rat:
    """Quotient of polynomials over named atoms (DOT, NQ, NX, L2, L1, LINF, counts of cells...), with a shape for arrays of results."""
    __slots__ = ("n", "d", "shape")

    def __init__(self, n, d=None, shape=()):
        self.n, self.d, self.shape = n, d or {(): Fraction(1)}, shape


def num(x):
    return Rat({(): Fraction(x).limit_denominator(10 ** 15)})


def atom(a, shape=()):
    return Rat({((a, 1),): Fraction(1)}, None, shape)


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = dict(k)
            for x, e in l:
                m[x] = m.get(x, 0) + e
            for x in reduced(m):
                kk, c = x
                r[kk] = r.get(kk, 0) + c * v * w
    return {k: v for k, v in r.items() if v}


def reduced(m):
    """L2 squared is NQ^2 + NX^2 - 2 DOT."""
    e = m.get("L2", 0)
    if e < 2:
        return [(tuple(sorted((k, v) for k, v in m.items() if v)), Fraction(1))]
    out = []
    for extra, c in (({"NQ": 2}, 1), ({"NX": 2}, 1), ({"DOT": 1}, -2)):
        q = dict(m)
        q["L2"] = e - 2
        for k, v in extra.items():
            q[k] = q.get(k, 0) + v
        out += [(k, c * d) for k, d in reduced(q)]
    return out


class Shape(Exception):
    pass


def shapes(a, b):
    """Broadcasting of result shapes made of 'a', 'b' (numbers of vectors) and 1."""
    n = max(len(a), len(b))
    x, y = (1,) * (n - len(a)) + a, (1,) * (n - len(b)) + b
    r = []
    for i, j in zip(x, y):
        if i != j and i != 1 and j != 1:
            raise Shape()
        r.append(j if i == 1 else i)
    return tuple(r)


def add(a, b, s=1):
    if a is None or b is None:
        return None
    return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d), shapes(a.shape, b.shape))


def mul(a, b):
    if a is None or b is None:
        return None
    return Rat(pmul(a.n, b.n), pmul(a.d, b.d), shapes(a.shape, b.shape))


def inv(a):
    return None if a is None or not a.n else Rat(a.d, a.n, a.shape)


def same(a, b):
    return pmul(a.n, b.d) == pmul(b.n, a.d)


def root(a):
    """Square root of a rational function whose parts are squares."""
    if a is None:
        return None
    if same(a, Rat({(("NQ", 2),): Fraction(1), (("NX", 2),): Fraction(1), (("DOT", 1),): Fraction(-2)})):
        return Rat(atom("L2").n, None, a.shape)

    def r(p):
        if len(p) != 1:
            return None
        (k, v), = p.items()
        if any(e % 2 for _, e in k) or v <= 0:
            return None
        c = Fraction(v)
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return {tuple((x, e // 2) for x, e in k): Fraction(n, d)}
    n, d = r(a.n), r(a.d)
    if n is None and a.d == {(): Fraction(1)} and len(a.n) == 1 and list(a.n.values()) == [1] and len(list(a.n)[0]) == 1:
        return atom("sqrt(%s)" % shown(a), a.shape)          # the root of one length
    return Rat(n, d, a.shape) if n is not None and d is not None else None


COS = Rat(atom("DOT").n, {(("NQ", 1), ("NX", 1)): Fraction(1)})
ONE = num(1)
COSD = add(ONE, COS, -1)
L2, L1, LINF, DOT = atom("L2"), atom("L1"), atom("LINF"), atom("DOT")
SQ = mul(L2, L2)
CELLS = frozenset("n" + i + j for i in "pzm" for j in "pzm")
SIGNS = {">": "p", "<": "m", ">=": "pz", "<=": "mz", "==": "z", "!=": "pm"}
UFUNC = {"greater": ">", "less": "<", "greater_equal": ">=", "less_equal": "<=", "not_equal": "!=", "equal": "=="}
POSITIVE = {"NQ", "NX", "L2", "L1", "LINF", "L1Q", "LINFQ", "L1X", "LINFX", "D"} | CELLS


def counted(cs):
    r = num(0)
    for c in sorted(cs):
        r = add(r, atom(c))
    return r


ON_Q, ON_X = frozenset(c for c in CELLS if c[1] == "p"), frozenset(c for c in CELLS if c[2] == "p")


def bounds(r):
    """(lower, upper) of the mathematical value, None where unknown."""
    if same(r, COS):
        return -1, 1
    if same(r, COSD):
        return 0, 2
    if same(r, add(ONE, mul(atom("D"), num(Fraction(1, 2))), -1)):
        return 0, 1
    pos = all(v > 0 and all(a in POSITIVE for a, _ in k) for p in (r.n, r.d) for k, v in p.items())
    return (0 if pos else None), None


# ---------------------------------------------------------------------------------------------- terms to formulas
SAME = ("numpy.asarray", "numpy.array", "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d", ".astype", ".ravel", ".flatten", ".squeeze", ".copy", ".reshape", "numpy.float32", "numpy.float64",
        "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy", ".view", "float", "numpy.nan_to_num")


class Form:
    """Reads a term as a formula in the two vectors of a metric. q/x decide which terms are the vectors; mat: they are tables of vectors."""

    def __init__(self, q, x, heap=None, mat=False):
        self.q, self.x, self.heap, self.mat = q, x, heap, mat
        self.bad = None
        self.memo = {}

    def tail(self, t):
        return t.a[0].rsplit(".", 1)[-1]

    def kw(self, t):
        return dict((k, strip_ver(v)) for k, v in (t.a[2] if len(t.a) > 2 and isinstance(t.a[2], tuple) else ()))

    # vectors: {'Q': Rat, 'X': Rat}
    def vector(self, t, depth=0):
        t = strip_ver(t)
        if depth > 24:
            return None
        if self.q(t):
            return {"Q": ONE}
        if self.x is not None and self.x(t):
            return {"X": ONE}
        if t.op == "call":
            n = self.tail(t)
            if (t.a[0] in SAME) and t.a[1]:
                return self.vector(t.a[1][0], depth + 1)
            if n in ("subtract", "add") and len(t.a[1]) == 2:
                return self.vsum(t.a[1][0], t.a[1][1], -1 if n == "subtract" else 1, depth)
            if n in ("divide", "true_divide") and len(t.a[1]) == 2:
                return self.scale(self.vector(t.a[1][0], depth + 1), inv(self.scalar(t.a[1][1], depth + 1)))
        if t.op == "bin":
            o, a, b = t.a
            if o in "+-":
                return self.vsum(a, b, 1 if o == "+" else -1, depth)
            if o == "/":
                return self.scale(self.vector(a, depth + 1), inv(self.scalar(b, depth + 1)))
            if o == "*":
                v = self.vector(a, depth + 1)
                if v is not None:
                    return self.scale(v, self.scalar(b, depth + 1))
                return self.scale(self.vector(b, depth + 1), self.scalar(a, depth + 1))
        if t.op == "un" and t.a[0] == "-":
            return self.scale(self.vector(t.a[1], depth + 1), num(-1))
        return None

    def vsum(self, a, b, s, depth):
        v, w = self.vector(a, depth + 1), self.vector(b, depth + 1)
        if v is None or w is None:
            return None
        r = dict(v)
        for k, c in w.items():
            r[k] = add(r[k], c, s) if k in r else mul(c, num(s))
        return r

    def scale(self, v, c):
        if v is None or c is None:
            return None
        return {k: mul(x, c) for k, x in v.items()}

    def inner(self, v, w):
        if v is None or w is None:
            return None
        out = num(0)
        base = {("Q", "Q"): mul(atom("NQ"), atom("NQ")), ("X", "X"): mul(atom("NX"), atom("NX")), ("Q", "X"): DOT, ("X", "Q"): DOT}
        for i, c in v.items():
            for j, d in w.items():
                out = add(out, mul(mul(c, d), base[(i, j)]))
        return out

    def length(self, v, ord_, depth=0):
        """Norm of a combination of the vectors."""
        if v is None:
            return None
        if set(v) == {"Q"} or set(v) == {"X"}:
            (k, c), = v.items()
            names = {"l2": "N" + k, "l1": "L1" + k, "max": "LINF" + k}
            c = self.magnitude(c)
            return None if c is None else mul(c, atom(names[ord_]))
        cs = [v["Q"], v["X"]]
        if same(add(cs[0], cs[1]), num(0)):
            c = self.magnitude(cs[0])
            return None if c is None else mul(c, {"l2": L2, "l1": L1, "max": LINF}[ord_])
        if ord_ == "l2":
            return root(self.inner(v, v))
        return None

    def magnitude(self, c):
        if all(a in POSITIVE for p in (c.n, c.d) for k in p for a, _ in k) and len(c.n) == 1 and len(c.d) == 1:
            return Rat({k: abs(v) for k, v in c.n.items()}, {k: abs(v) for k, v in c.d.items()}, c.shape)
        return None

    def cells(self, t, depth=0):
        """Subset of the nine cells (sign of the element of q, sign of the element of x) where a boolean vector is true; None when it is not such a vector."""
        t = strip_ver(t)
        if depth > 12:
            return None
        allc = CELLS
        if t.op == "cmp":
            o, a, b = t.a
            a, b = strip_ver(a), strip_ver(b)
            if is_const(a) and cval(a) == 0 and not is_const(b):
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if is_const(b) and cval(b) == 0 and o in SIGNS:
                v = self.vector(a)
                if v is not None and len(v) == 1 and same(list(v.values())[0], ONE):
                    return frozenset(c for c in allc if c[1 if "Q" in v else 2] in SIGNS[o])
            x, y = self.cells(a, depth + 1), self.cells(b, depth + 1)
            if x is not None and y is not None:
                if o in ("!=",):
                    return x ^ y
                if o in ("==",):
                    return allc - (x ^ y)
            return None
        if t.op == "bin" and t.a[0] in "&|^":
            x, y = self.cells(t.a[1], depth + 1), self.cells(t.a[2], depth + 1)
            return None if x is None or y is None else {"&": x & y, "|": x | y, "^": x ^ y}[t.a[0]]
        if t.op == "bin" and t.a[0] == "*":
            x, y = self.cells(t.a[1], depth + 1), self.cells(t.a[2], depth + 1)
            return None if x is None or y is None else x & y
        if t.op == "un" and t.a[0] in ("~", "not"):
            x = self.cells(t.a[1], depth + 1)
            return None if x is None else allc - x
        if t.op == "call" and t.a[1]:
            n = self.tail(t)
            if t.a[0] in SAME:
                return self.cells(t.a[1][0], depth + 1)
            if n in ("logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "not_equal", "equal", "minimum", "maximum", "multiply") and len(t.a[1]) == 2:
                x, y = self.cells(t.a[1][0], depth + 1), self.cells(t.a[1][1], depth + 1)
                if x is None or y is None:
                    return None
                if n.endswith("and") or n in ("minimum", "multiply"):
                    return x & y
                if n.endswith("xor") or n == "not_equal":
                    return x ^ y
                return allc - (x ^ y) if n == "equal" else x | y
            if n in UFUNC and len(t.a[1]) == 2 and (is_const(t.a[1][1]) or is_const(t.a[1][0])):
                return self.cells(mk("cmp", UFUNC[n], t.a[1][0], t.a[1][1]), depth + 1)
            if n in ("abs", "absolute") and len(t.a[1]) == 1:
                d = strip_ver(t.a[1][0])
                if d.op == "bin" and d.a[0] == "-":
                    x, y = self.cells(d.a[1], depth + 1), self.cells(d.a[2], depth + 1)
                    return None if x is None or y is None else x ^ y
        return None

    def absvec(self, t):
        """The vector of which t is the elementwise magnitude."""
        t = strip_ver(t)
        if t.op == "call" and self.tail(t) in ("abs", "absolute", "fabs") and t.a[1]:
            return self.vector(t.a[1][0])
        return None

    def total(self, t, depth):
        """Sum of the elements of an elementwise expression."""
        t = strip_ver(t)
        v = self.absvec(t)
        if v is not None:
            return self.length(v, "l1")
        if t.op == "call" and self.tail(t) == "square" and t.a[1]:
            w = self.vector(t.a[1][0])
            w = self.absvec(t.a[1][0]) if w is None else w
            return self.inner(w, w)
        if t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]) and cval(t.a[2]) == 2:
            w = self.vector(t.a[1])
            w = self.absvec(t.a[1]) if w is None else w
            return self.inner(w, w)
        v = self.vector(t)
        if v is not None:                     # the plain sum of the elements is linear
            r = num(0)
            for k, c in sorted(v.items()):
                r = add(r, mul(c, atom("SUM" + k)))
            return r
        if t.op == "bin" and t.a[0] in "+-" and depth < 24 and not self.mat and self.cells(t) is None:
            x, y = self.total(t.a[1], depth + 1), self.total(t.a[2], depth + 1)
            if x is not None and y is not None:
                return add(x, y, 1 if t.a[0] == "+" else -1)
        if t.op == "bin" and t.a[0] == "*":
            r = self.inner(self.vector(t.a[1]), self.vector(t.a[2]))
            if r is not None:
                return r
        if t.op == "call" and self.tail(t) == "multiply" and len(t.a[1]) == 2:
            return self.inner(self.vector(t.a[1][0]), self.vector(t.a[1][1]))
        c = self.cells(t)
        return None if c is None else counted(c)

    def rows(self, r, keep, v):
        """Result of a reduction over the elements of each vector of a table."""
        if r is None or not self.mat:
            return r
        ks = set(v or {})
        n = "a" if ks == {"Q"} else "b" if ks == {"X"} else None
        if n is None:
            return None
        return Rat(r.n, r.d, (n, 1) if keep else (n,))

    def scalar(self, t, depth=0):
        k = t
        if k in self.memo:
            return self.memo[k]
        r = self._scalar(strip_ver(t), depth)
        self.memo[k] = r
        return r

    def _scalar(self, t, depth):
        if depth > 30:
            return None
        d = depth + 1
        if is_const(t):
            v = cval(t)
            return num(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf") else None
        if t.op == "phi" and is_const(t.a[-1]) and cval(t.a[-1]) == 0:
            return num(0)                     # sum over parts of the vectors: the parts before this one
        if t.op == "bin":
            o, a, b = t.a
            if o in "+-":
                return add(self.scalar(a, d), self.scalar(b, d), 1 if o == "+" else -1)
            if o == "*":
                return mul(self.scalar(a, d), self.scalar(b, d))
            if o == "/":
                return mul(self.scalar(a, d), inv(self.scalar(b, d)))
            if o == "@":
                return self.product(a, b)
            if o == "**" and is_const(b):
                x = self.scalar(a, d)
                if cval(b) == 2:
                    return mul(x, x)
                if cval(b) == 0.5:
                    return root(x)
                if cval(b) == -1:
                    return inv(x)
            return None
        if t.op == "un" and t.a[0] == "-":
            return mul(num(-1), self.scalar(t.a[1], d))
        if t.op == "cmp" and t.a[0] in ("==", "!=", "<", ">", "<=", ">="):
            x, y = self.scalar(t.a[1], d), self.scalar(t.a[2], d)
            if x is None or y is None or is_number(x) or is_number(y) or same(x, y):
                return None
            return atom("[%s%s%s]" % (shown(x), t.a[0], shown(y)))
        if t.op == "attr" and t.a[-1] == "T":
            r = self.scalar(t.a[0], d)
            return None if r is None else Rat(r.n, r.d, tuple(reversed(r.shape)))
        if t.op == "item" or t.op == "slice":
            return self.picked(t, d)
        if t.op != "call" or not t.a[1]:
            return None
        n, args, kw = self.tail(t), t.a[1], self.kw(t)
        base = t.a[0]
        if n in ("dot", "inner", "vdot") and len(args) == 2:
            return self.product(args[0], args[1])
        if n in ("matmul",) and len(args) == 2:
            return self.product(args[0], args[1])
        if n == "outer" and len(args) == 2:
            x, y = self.scalar(args[0], d), self.scalar(args[1], d)
            if x is None or y is None:
                return None
            m = mul(Rat(x.n, x.d), Rat(y.n, y.d))
            return Rat(m.n, m.d, tuple([s for s in x.shape if s != 1] + [s for s in y.shape if s != 1]))
        if n == "norm":
            v = self.vector(args[0])
            o = kw.get("ord", args[1] if len(args) > 1 else None)
            o = None if o is None or o is NONE else o
            kind = "l2"
            if o is not None:
                if is_const(o) and cval(o) in (1, 2):
                    kind = {1: "l1", 2: "l2"}[cval(o)]
                elif is_const(o) and cval(o) == float("inf") or show(o).rsplit(".", 1)[-1] == "inf":
                    kind = "max"
                else:
                    return None
            if self.mat and kw.get("axis") is None and len(args) < 3 and v is not None and len(v) == 1:
                return Rat(atom("ALL" + kind).n)          # one length for the whole table
            if self.mat and not self.axis(kw, v):
                return None
            return self.rows(self.length(v, kind), self.truth(kw.get("keepdims")), v)
        if n == "sum" or n == "count_nonzero":
            v = self.absvec(args[0])
            if v is None and self.mat:
                v = self.vector(args[0])
            if self.mat and not self.axis(kw, v):
                return None
            return self.rows(self.total(args[0], d), self.truth(kw.get("keepdims")), v)
        if n in ("max", "amax"):
            if len(args) == 1:
                v = self.absvec(args[0])
                if v is not None:
                    if self.mat and not self.axis(kw, v):
                        return None
                    return self.rows(self.length(v, "max"), self.truth(kw.get("keepdims")), v)
                v = self.vector(args[0])
                if v is not None and all(is_number(c) for c in v.values()):     # the largest element, signs kept
                    if self.mat and not self.axis(kw, v):
                        return None
                    return self.rows(atom("MAX(%s)" % ",".join(k + shown(c) for k, c in sorted(v.items()))), self.truth(kw.get("keepdims")), v)
                return None
            return self.limited(args, d, "max")
        if n in ("min", "minimum", "maximum") and len(args) == 2:
            return self.limited(args, d, "min" if n.startswith("min") else "max")
        if n == "clip" and len(args) == 3:
            x = self.limited((args[0], args[1]), d, "max")
            return None if x is None else self.limited_r(x, self.scalar(args[2], d), "min")
        if n == "float" and len(args) == 1:
            return self.scalar(args[0], d)
        if n in ("round", "around", "rint", "round_", "trunc", "floor", "ceil"):
            dig = kw.get("decimals", kw.get("ndigits", args[1] if len(args) > 1 else None))
            x = self.scalar(args[0], d)
            if x is not None and not is_number(x) and (dig is None or is_const(dig) and (cval(dig) is None or isinstance(cval(dig), int) and cval(dig) <= 6)):
                self.bad = "rounded"
            return None
        if n == "sqrt":
            return root(self.scalar(args[0], d))
        if n == "square":
            x = self.scalar(args[0], d)
            return mul(x, x)
        if n in ("hypot",):
            return None
        if n in ("abs", "absolute", "fabs"):
            x = self.scalar(args[0], d)
            if x is None or bounds(x)[0] == 0:
                return x
            if len(x.n) == 1 and len(x.d) == 1 and any(a == "DOT" and e % 2 for k in x.n for a, e in k):
                return mul(x, Rat(atom("|DOT|").n, DOT.n))          # the magnitude of an inner product
            if x.d == {(): Fraction(1)} and all(len(k) == 1 and k[0][0] in ("SUMQ", "SUMX") and k[0][1] == 1 for k in x.n):
                return atom("|%s|" % shown(x), x.shape)              # the magnitude of a plain sum
            return None
        if n in ("subtract", "add") and len(args) == 2:
            return add(self.scalar(args[0], d), self.scalar(args[1], d), -1 if n == "subtract" else 1)
        if n == "multiply" and len(args) == 2:
            return mul(self.scalar(args[0], d), self.scalar(args[1], d))
        if n in ("divide", "true_divide") and len(args) == 2:
            return mul(self.scalar(args[0], d), inv(self.scalar(args[1], d)))
        if n == "where" and len(args) == 3:
            c, a, b = strip_ver(args[0]), strip_ver(args[1]), strip_ver(args[2])
            if c.op == "cmp" and c.a[0] in ("==", "<=") and is_const(c.a[2]) and cval(c.a[2]) == 0 and is_const(a) and same_id(c.a[1], b):
                return self.scalar(b, d)      # a zero length replaced by another number
            if c.op == "cmp" and c.a[0] in (">", "!=") and is_const(c.a[2]) and cval(c.a[2]) == 0 and is_const(b) and same_id(c.a[1], a):
                return self.scalar(a, d)
            return None
        if base in SAME and not (base == ".reshape" and self.mat):
            return self.scalar(args[0], d)
        if n == "item" and len(args) == 1:
            return self.scalar(args[0], d)
        if base == "numpy.transpose" and len(args) == 1:
            r = self.scalar(args[0], d)
            return None if r is None else Rat(r.n, r.d, tuple(reversed(r.shape)))
        return None

    def truth(self, t):
        return t is not None and is_const(t) and bool(cval(t))

    def axis(self, kw, v):
        a = kw.get("axis")
        return a is not None and is_const(a) and cval(a) in (1, -1)

    def product(self, a, b):
        a, b = strip_ver(a), strip_ver(b)
        if self.mat:
            def turned(t):
                t = strip_ver(t)
                if t.op == "attr" and t.a[-1] == "T":
                    return strip_ver(t.a[0])
                if t.op == "call" and t.a[0] in ("numpy.transpose", ".transpose") and len(t.a[1]) == 1:
                    return strip_ver(t.a[1][0])
                return None
            bt = turned(b)
            if bt is None:
                return None
            v, w = self.vector(a), self.vector(bt)
            if v is None or w is None or len(v) != 1 or len(w) != 1:
                return None
            r = Rat(self.inner({k: Rat(c.n, c.d) for k, c in v.items()}, {k: Rat(c.n, c.d) for k, c in w.items()}).n, None)
            cv, cw = list(v.values())[0], list(w.values())[0]
            r = self.inner({k: Rat(c.n, c.d) for k, c in v.items()}, {k: Rat(c.n, c.d) for k, c in w.items()})
            return Rat(r.n, r.d, ("a" if "Q" in v else "b", "a" if "Q" in w else "b"))
        return self.inner(self.vector(a), self.vector(b))

    def limited(self, args, d, how):
        xs = [self.scalar(a, d) for a in args]
        if any(x is None for x in xs) or len(xs) != 2:
            return None
        c = [x for x in xs if not any(k for k in x.n) and not any(k for k in x.d)]
        if len(c) != 1:
            return None
        other = xs[0] if xs[1] is c[0] else xs[1]
        return self.limited_r(other, c[0], how)

    def limited_r(self, r, c, how):
        if r is None or c is None or any(k for k in c.n) or any(k for k in c.d):
            return None
        v = (c.n.get((), 0)) / c.d[()]
        lo, hi = bounds(r)
        if how == "max" and lo is not None and v <= lo or how == "min" and hi is not None and v >= hi:
            return r
        if how == "max" and v == 0 and r.n.get(()) == 0:
            return r
        self.bad = f"cut off at {float(v):g}"
        return None

    def picked(self, t, d):
        """An element of what a library function answers for [query] and the list of stored vectors."""
        b, chain = t, []
        while b.op in ("item", "slice"):
            chain.append(b)
            b = strip_ver(b.a[0])
        if b.op == "call" and b.a[0].startswith(".get_nns_by"):
            first = chain[-1]
            if len(chain) == 2 and first.op == "item" and is_const(first.a[1]) and cval(first.a[1]) == 1:
                return atom("D")
            return None
        if b.op == "call" and self.tail(b) in ("cosine_similarity", "cosine_distances", "euclidean_distances", "manhattan_distances", "linear_kernel") and "sklearn" in b.a[0] and len(b.a[1]) >= 2 and self.pair is not None and self.pair(b):
            n = self.tail(b)
            r = {"cosine_similarity": COS, "cosine_distances": COSD, "euclidean_distances": L2, "manhattan_distances": L1, "linear_kernel": DOT}[n]
            if self.kw(b).get("squared") is not None and self.truth(self.kw(b)["squared"]):
                r = SQ
            self.library = True
            return r
        if b.op in ("bin", "un") or b.op == "call":
            # elementwise expressions are indexed element by element
            if b.op == "bin":
                def at(z):
                    z = strip_ver(z)
                    if is_const(z):
                        return z
                    for c in reversed(chain):
                        z = mk(c.op, z, *c.a[1:])
                    return z
                return self.scalar(mk("bin", b.a[0], at(b.a[1]), at(b.a[2])), d)
            if b.op == "call" and (self.tail(b) in ("abs", "absolute", "fabs", "square", "sqrt", "clip", "maximum", "minimum") or b.a[0] in SAME) and b.a[1] and not (len(b.a) > 2 and b.a[2]):
                def inside(z):
                    z = strip_ver(z)
                    if is_const(z):
                        return z
                    for c in reversed(chain):
                        z = mk(c.op, z, *c.a[1:])
                    return z
                if b.a[0] not in (".reshape", ".ravel", ".flatten", "numpy.ravel", "numpy.squeeze", ".squeeze", "numpy.atleast_1d"):
                    return self.scalar(mk("call", b.a[0], tuple(inside(z) for z in b.a[1]), *b.a[2:]), d)
        return None

    pair = None
    other = None
    library = False


# ---------------------------------------------------------------------------------------------- the check
def zero_facts(p, form, more=None):
    """(atoms of which one is known to be zero, atoms known not to be zero, whether other conditions on lengths were met)"""
    zero, non, odd = None, set(), False
    facts = dict(p.facts)
    facts.update(more or {})
    for f, v in facts.items():
        if f.op not in ("eq", "lt", "le", "truthy"):
            continue
        ops = [strip_ver(x) for x in f.a if hasattr(x, "op")]
        if not any(reduction(x) for x in ops) or not all(reduction(x) or is_const(x) for x in ops):
            continue
        xs = [form.scalar(x) for x in f.a if hasattr(x, "op")]
        if any(x is None for x in xs):
            if form.x is not None and form.other is not None and contains(f, form.other):
                continue                  # a condition on another vector
            odd = odd or not any(contains(x, lambda y: y.op == "call" and y.a[0] in ("len",)) for x in f.a if hasattr(x, "op"))
            continue
        def single(r):
            return {a for k in r.n for a, _ in k} if len(r.n) == 1 else None
        def counts(r):
            s = {a for k in r.n for a, _ in k}
            return s if s and s <= CELLS and all(v > 0 for v in r.n.values()) else None
        def isc(r, c=None):
            return not any(k for k in r.n) and (c is None or r.n.get((), 0) == c)
        if f.op == "truthy":
            r = xs[0]
            s, pol = single(r) or counts(r), not v
        elif f.op == "eq" and len(xs) == 2 and any(isc(x, 0) for x in xs):
            r = xs[0] if isc(xs[1], 0) else xs[1]
            s, pol = single(r) or counts(r), v
        elif f.op in ("lt", "le") and len(xs) == 2 and isc(xs[0], 0):        # 0 < r
            s, pol = single(xs[1]) or counts(xs[1]), not v
            if f.op == "le" and v:
                continue
        elif f.op in ("lt", "le") and len(xs) == 2 and isc(xs[1], 0):        # r < 0, r <= 0
            if f.op == "lt":
                continue
            s, pol = single(xs[0]) or counts(xs[0]), v
        elif f.op in ("lt", "le") and len(xs) == 2 and isc(xs[1]) and 0 < xs[1].n.get((), 0) < Fraction(1, 10 ** 6):
            s, pol = single(xs[0]), v          # shorter than a tiny threshold
        elif f.op in ("lt", "le") and len(xs) == 2 and isc(xs[0]) and 0 < xs[0].n.get((), 0) < Fraction(1, 10 ** 6):
            s, pol = single(xs[1]), not v
        else:
            odd = True
            continue
        if s is None:
            odd = True
            continue
        if s == {"NQ", "NX"} and pol is False:
            non |= s
        elif pol:
            zero = (zero or set()) | s
        else:
            non |= s if len(s) == 1 or not counts_like(s) else {"+".join(sorted(s))}
    return zero, non, odd


REDUCTIONS = ("norm", "sum", "max", "amax", "sqrt", "dot", "abs", "count_nonzero", "any", "all", "vdot", "inner", "allclose", "array_equal", "isclose")


def reduction(t, depth=0):
    """A number computed from whole vectors."""
    t = strip_ver(t)
    if t.op == "bin":
        return depth < 8 and (reduction(t.a[1], depth + 1) or reduction(t.a[2], depth + 1))
    if t.op == "un":
        return depth < 8 and reduction(t.a[1], depth + 1)
    if t.op != "call" or not t.a[1]:
        return False
    if t.a[0].rsplit(".", 1)[-1] in REDUCTIONS:
        x = strip_ver(t.a[1][0])
        return not (x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("isnan", "isinf", "isfinite"))
    return t.a[0] in SAME and reduction(t.a[1][0], depth + 1)


def counts_like(s):
    return s <= CELLS


def needs(r):
    """Atoms a value is divided by."""
    return {a for k in r.d for a, _ in k} if len(r.d) == 1 else ({"+".join(sorted({a for k in r.d for a, _ in k}))} if all(v > 0 for v in r.d.values()) and () not in r.d else set())


def judge(rep, con, what, p, val, form, want, zero_val, file, line, more=None, guarded=False):
    """Compare the value answered on a path with the formula. True when it was decided."""
    try:
        got = form.scalar(val)
        zero, non, odd = zero_facts(p, form, more)
    except Shape:
        rep.bad("R30.formula", con, "shape", f"the lengths of the two sets of vectors are combined along the wrong axis", file, line)
        return True
    if zero and zero & non:
        return False                      # no such vectors
    if zero:
        if zero_val is None or zero & {"L2", "L1", "LINF", "DOT"} and not zero & {"NQ", "NX"}:
            # equal vectors: the formula itself
            if got is None:
                return False
        else:
            if got is None or odd:
                return False
            rep.check("R30.zero", con, same(got, num(zero_val)), "value", f"a vector of length zero gives {shown(got)}, not {zero_val}", file, line)
            return True
    if got is None:
        if form.bad:
            rep.bad("R30.formula", con, "cut", f"{what}: the value is {form.bad}", file, line)
            return True
        return False
    if odd and not same(got, want):
        return False
    if is_number(got) and not is_number(want) and not zero:
        rep.bad("R30.formula", con, "constant", f"{what}: always {shown(got)}", file, line)
        return True
    rep.check("R30.formula", con, same(got, want), "formula", f"{what}: computes {shown(got)} instead of {shown(want)}", file, line)
    if same(got, want) and needs(got) and not guarded and not form.library:
        rep.check("R30.zero", con, needs(got) <= non, "division", f"divides by {', '.join(sorted(needs(got) - non))}, which may be zero", file, line)
    return True


def is_number(r):
    return not any(k for k in r.n) and not any(k for k in r.d)


NAMES = {"DOT": "<q,x>", "NQ": "|q|", "NX": "|x|", "L2": "|q-x|", "L1": "|q-x|_1", "LINF": "|q-x|_max", "D": "d"}


def shown(r):
    def poly(p):
        return " + ".join((f"{float(v):g}" if not k or v != 1 else "") + ("*" if k and v != 1 else "") + "*".join(NAMES.get(a, a) + (f"^{e}" if e > 1 else "") for a, e in k) for k, v in sorted(p.items(), key=str)) or "0"
    return poly(r.n) + ("" if r.d == {(): Fraction(1)} else f" / ({poly(r.d)})")


def params_of(fi):
    return [a.arg for a in fi.node.args.args if a.arg != "self"]


def is_param(name):
    def f(t):
        return t.op == "param" and t.a[0] == name
    return f


JAC = None


def jaccard():
    return mul(counted(ON_Q & ON_X), inv(counted(ON_Q | ON_X)))


FUNCS = {
    "cosine_similarity": (lambda: COS, 0), "cosine_distance": (lambda: COSD, 1), "euclidean_distance": (lambda: L2, None),
    "euclidean_distance_squared": (lambda: SQ, None), "dot_product": (lambda: DOT, None), "manhattan_distance": (lambda: L1, None),
    "chebyshev_distance": (lambda: LINF, None), "hamming_distance": (lambda: counted(ON_Q ^ ON_X), None),
    "jaccard_similarity": (jaccard, 1), "jaccard_distance": (lambda: add(ONE, jaccard(), -1), 0),
}


def c30(prog, rep):
    rep.explain = "Every value a metric can answer is read as a formula in the two vectors (inner product, lengths, differences, counts) and compared with the definition as a rational function."
    rep.rule("R30.formula", "a metric computes the formula its name stands for", 25)
    rep.rule("R30.zero", "vectors of length zero are handled, not divided by", 8)
    rep.rule("R30.match", "vectors that cannot be compared are refused", 10)
    for n, (want, z) in FUNCS.items():
        pair_function(prog, rep, n, want(), z)
    batch(prog, rep)
    normalise(prog, rep)
    tables(prog, rep)
    searches(prog, rep)
    coded(prog, rep)
    unit(prog, rep)


def pair_function(prog, rep, n, want, z):
    I, ps, fi = runf(prog, rep, n)
    a, b = params_of(fi)[:2]
    file = fi.module.path
    dec = 0
    for p in ps:
        ln = getattr(p.node, "lineno", fi.node.lineno)
        if p.kind == "raise":
            refusal(prog, rep, n, p, (a, b), file, ln)
            continue
        if p.kind != "return":
            continue
        form = Form(is_param(a), is_param(b), p.st.heap)
        dec += judge(rep, n, n, p, p.val, form, want, z, file, ln)
        compared(rep, n, p, (a, b), file, ln)
    if not dec:
        rep.unk("R30.formula", n, "formula not understood")


def about(f, *ps):
    return all(contains(f, lambda x: x.op == "param" and x.a[0] == q) for q in ps)


def compared(rep, n, p, ps, file, ln):
    """On every answered path the two vectors are known to have the same shape."""
    a, b = ps
    eqs = [f for f, v in p.facts.items() if f.op == "eq" and v]
    both = [f for f in eqs if about(f, a, b) and not contains(f, lambda x: x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("norm", "sum", "dot"))]
    one = {q for q in ps for f in eqs if about(f, q) and contains(f, lambda x: x.op == "attr" and x.a[-1] == "ndim") or f.op == "eq" and about(f, q) and contains(f, lambda x: x.op == "call" and x.a[0] == "len" and x.a[1][0].op == "attr" and x.a[1][0].a[-1] == "shape")}
    if both and len(one) == 2:
        rep.ok("R30.match", n)
        return
    if any(f.op not in ("eq", "truthy", "isnone", "lt") for f in p.facts if about(f, a) or about(f, b)) or any(unknown(f) for f in p.facts):
        rep.unk("R30.match", n, "conditions not understood")
        return
    others = [f for f, v in p.facts.items() if about(f, a, b) and contains(f, lambda x: x.op in ("attr",) or x.op == "call" and x.a[0] == "len")]
    if not both:
        if others:
            rep.unk("R30.match", n, "comparison of the lengths not understood")
        else:
            rep.bad("R30.match", n, "length", "vectors of different lengths are not refused", file, ln)
    elif any(contains(f, lambda x: x.op == "attr" and x.a[-1] == "shape") for f in both):
        rep.ok("R30.match", n)
    else:
        rep.bad("R30.match", n, "dimensions", "an argument that is not a vector is not refused", file, ln)


def refusal(prog, rep, n, p, ps, file, ln):
    c = exc_class(prog, p.val)
    nm = c if isinstance(c, str) else getattr(c, "qual", None)
    if nm is None:
        return
    if not (nm.rsplit(".", 1)[-1] in ("ValueError",) or in_family(prog, nm, "ValoriError")):
        return
    # refused only because of shapes
    a = [f for f, v in p.facts.items() if not any(about(f, q) for q in ps)]
    shapey = [f for f, v in p.facts.items() if f.op == "eq" and not v and contains(f, lambda x: x.op == "attr" and x.a[-1] in ("ndim", "shape") or x.op == "call" and x.a[0] == "len")]
    if not shapey and not any(unknown(f) for f in p.facts) and p.facts:
        vals = [f for f in p.facts if contains(f, lambda x: x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("norm", "sum", "dot", "max"))]
        if vals:
            rep.bad("R30.match", n, "refused", "vectors are refused for their values", file, ln)


def batch(prog, rep):
    n = "batch_cosine_similarity"
    I, ps, fi = runf(prog, rep, n)
    a, b = params_of(fi)[:2]
    dec = 0
    for p in rets(ps):
        form = Form(is_param(a), is_param(b), p.st.heap, mat=True)
        ln = getattr(p.node, "lineno", fi.node.lineno)
        try:
            got = form.scalar(p.val)
        except Shape:
            rep.bad("R30.formula", n, "shape", "the lengths of the two sets of vectors are combined along the wrong axis", fi.module.path, ln)
            dec += 1
            continue
        if got is None:
            if form.bad:
                rep.bad("R30.formula", n, "cut", f"the value is {form.bad}", fi.module.path, ln)
                dec += 1
            continue
        dec += 1
        rep.check("R30.formula", n, same(got, COS), "formula", f"computes {shown(got)} instead of {shown(COS)}", fi.module.path, ln)
        if got.shape:
            rep.check("R30.formula", n, got.shape == ("a", "b"), "shape", f"the matrix has the vectors in the wrong order ({got.shape})", fi.module.path, ln)
        if same(got, COS):
            for w in [x for x in walk(norm(p.val)) if x.op == "bin" and x.a[0] == "/" or x.op == "call" and x.a[0] in ("numpy.divide", "numpy.true_divide")]:
                den = w.a[2] if w.op == "bin" else w.a[1][1]
                k = len({x for x in walk(den) if x.op == "call" and x.a[0] == "numpy.where" or x.op == "call" and x.a[0] == "numpy.maximum"})
                m = len({x for x in walk(den) if x.op == "call" and x.a[0].endswith("norm")})
                rep.check("R30.zero", n, k >= m or k == 1 and m == 2 and strip_ver(den).op == "call", "division", "divides by the length of a vector, which may be zero", fi.module.path, ln)
        for q in (a, b):
            if not any(f.op == "eq" and v and about(f, q) and contains(f, lambda x: x.op == "attr" and x.a[-1] in ("ndim", "shape")) for f, v in p.facts.items()):
                if not any(about(f, q) for f in p.facts):
                    rep.bad("R30.match", n, "dimensions", "an argument that is not a table of vectors is not refused", fi.module.path, ln)
    if not dec:
        rep.unk("R30.formula", n, "formula not understood")


def eps(r):
    """The formula without tiny constants added to a divisor."""
    if r is None:
        return None
    d = {k: v for k, v in r.d.items()}
    c = d.get((), 0)
    big = [v for k, v in d.items() if k]
    if c and big and 0 < c <= Fraction(1, 10 ** 6) * min(abs(v) for v in big):
        d.pop(())
        return Rat(r.n, d, r.shape)
    return r


def normalise(prog, rep):
    """normalize_vector, normalize_vectors: the vector divided by its length; a zero vector stays."""
    for n, par, mat in (("normalize_vector", "norm", False), ("normalize_vectors", "method", True)):
        fi = prog.func(n)
        v, k = params_of(fi)[:2]
        for name, at in (("l2", "NQ"), ("l1", "L1Q"), ("max", "LINFQ")):
            I, ps, fi = runf(prog, rep, n, **{k: name})
            con = f"{n}({name})"
            dec = 0
            for p in ps:
                ln = getattr(p.node, "lineno", fi.node.lineno)
                if p.kind == "raise":
                    c = [f for f, b in p.facts.items() if contains(f, lambda x: x.op == "attr" and x.a[-1] in ("ndim", "shape"))]
                    if not c and not p.facts:
                        rep.bad("R30.match", con, "refused", "a documented norm is refused", fi.module.path, ln)
                    continue
                if p.kind != "return":
                    continue
                form = Form(is_param(v), None, p.st.heap, mat)
                try:
                    got = form.vector(p.val)
                except Shape:
                    got = None
                    rep.bad("R30.formula", con, "shape", "each vector must be divided by its own length", fi.module.path, ln)
                    continue
                if got is None or set(got) != {"Q"}:
                    continue
                c = got["Q"]
                zero, non, odd = zero_facts(p, form)
                dec += 1
                if zero and at in zero:
                    rep.check("R30.zero", con, same(c, ONE), "value", "a zero vector does not stay as it is", fi.module.path, ln)
                    continue
                want = inv(atom(at))
                e = eps(c)
                tiny = e is not c
                if mat and c.shape and c.shape != ("a", 1):
                    rep.bad("R30.formula", con, "shape", "each vector must be divided by its own length", fi.module.path, ln)
                    continue
                rep.check("R30.formula", con, same(e, want), "formula", f"divides by {shown(inv(c)) if inv(c) else '?'} instead of {at}", fi.module.path, ln)
                if same(e, want) and not tiny:
                    g = at in non or contains(norm(p.val), lambda x: x.op == "call" and x.a[0] in ("numpy.where", "numpy.maximum"))
                    rep.check("R30.zero", con, g, "division", "a zero vector is divided by its length", fi.module.path, ln)
            if not dec:
                rep.unk("R30.formula", con, "formula not understood")
        I, ps, fi = runf(prog, rep, n, **{k: "no such norm"})
        for p in ps:
            if p.kind == "return":
                rep.bad("R30.match", n, "unknown", "an unknown norm is not refused", fi.module.path, getattr(p.node, "lineno", fi.node.lineno))
        if ps and all(p.kind == "raise" for p in ps):
            rep.ok("R30.match", n)


def tables(prog, rep):
    """compute_similarity_matrix for each documented metric."""
    n = "compute_similarity_matrix"
    fi = prog.func(n)
    v, k = params_of(fi)[:2]
    for name, want in (("cosine", COS), ("dot", DOT)):
        I, ps, fi = runf(prog, rep, n, **{k: name})
        con = f"{n}({name})"
        dec = 0
        for p in rets(ps):
            ln = getattr(p.node, "lineno", fi.node.lineno)
            form = Form(is_param(v), None, p.st.heap, True)
            t = strip_ver(p.val)
            try:
                got = form.scalar(t)
            except Shape:
                rep.bad("R30.formula", con, "shape", "lengths are combined along the wrong axis", fi.module.path, ln)
                dec += 1
                continue
            if got is None:
                continue
            # both vectors come from one table: NX = NQ and <q,x> = |q|^2 along the diagonal
            g = fold(got)
            dec += 1
            rep.check("R30.formula", con, same(g, fold(want)) if g is not None else True, "formula", f"computes {shown(got)} instead of {shown(want)}", fi.module.path, ln)
        if not dec:
            rep.unk("R30.formula", con, "formula not understood")


def fold(r):
    """Names of a table paired with itself; tiny constants in the divisors dropped."""
    def p(q):
        out = {}
        for k, v in q.items():
            m = {}
            for a, e in k:
                if a == "DOT":
                    m["NQ"] = m.get("NQ", 0) + 2 * e
                elif a == "NX":
                    m["NQ"] = m.get("NQ", 0) + e
                else:
                    m[a] = m.get(a, 0) + e
            kk = tuple(sorted(m.items()))
            out[kk] = out.get(kk, 0) + v
        top = max((abs(v) for v in out.values()), default=0)
        return {k: v for k, v in out.items() if abs(v) > top * Fraction(1, 10 ** 6)}
    return Rat(p(r.n), p(r.d))


WANT = {"HNSWIndex": {"cosine": (COSD, 1), "euclidean": (L2, None)}, "IVFIndex": {"cosine": (COSD, 1), "euclidean": (L2, None)}, "FlatIndex": {"cosine": (COSD, 1), "euclidean": (L2, None)},
        "LSHIndex": {"cosine": (COS, 0), "euclidean": (inv(add(ONE, L2)), None), "manhattan": (inv(add(ONE, L1)), None)},
        "AnnoyIndex": {"angular": (add(ONE, mul(atom("D"), num(Fraction(1, 2))), -1), None), "euclidean": (inv(add(ONE, atom("D"))), None), "manhattan": (inv(add(ONE, atom("D"))), None), "hamming": (add(ONE, atom("D"), -1), None)}}


def metric_of(facts, me):
    for f, v in facts.items():
        if f.op == "eq" and v:
            c = [x for x in f.a if hasattr(x, "op") and is_const(x) and isinstance(cval(x), str)]
            o = [norm(x) for x in f.a if hasattr(x, "op") and not is_const(x)]
            if c and o and o[0].op in ("attr", "init") and o[0].a[-1] == "metric":
                return cval(c[0])
    return None


def exact(t):
    """Drop conversions that keep the value (rounding does not)."""
    t = strip_ver(t)
    while t.op == "call" and t.a[0] in ("float", "numpy.float64", "numpy.float32", ".item") and t.a[1]:
        t = strip_ver(t.a[1][0])
    return t if t.op == "call" and t.a[0] in ("round", "int", "numpy.round", "numpy.around") else bare(t)


def searches(prog, rep):
    for cls, b in indices(prog, rep):
        n = cname(cls)
        me = self_of(cls)
        V = vec_copies(prog, rep, cls) | filled_by_search(prog, rep, cls) if b else set(slot_lists(prog, rep, cls)[0])
        done = {m: 0 for m in WANT.get(n, {})}

        def stored(t):
            t = strip_ver(t)
            if t.op in ("item", "get") and len(t.a) > 1:
                s = strip_ver(t.a[0])
                if s.op == "init" and s.a[0] is me and s.a[1] in V:
                    return True
                if s.op == "call" and s.a[0] == ".retrieve_vector" and is_const(t.a[1]) and cval(t.a[1]) == 0:
                    return True
            return False
        for p in rets(paths(prog, rep, cls, "search")):
            f, ln = loc(p)
            for r, e in records(p) or []:
                d = r.get("distance")
                if d is None:
                    continue
                facts = dict(p.facts)
                facts.update(e.facts or {})
                m = metric_of(facts, me)
                if m not in done:
                    continue
                mine = [i for i in vector_ids_of(bare(d), me, V) if same_id(bare(i), bare(strip_ver(r["id"])))] if "id" in r else []

                def own(t, mine=mine):
                    return stored(t) and (not mine or any(same_id(bare(i), bare(mine[0])) for i in vector_ids_of(strip_ver(t), me, V)[:1]))
                form = Form(lambda t: t is QUERY or norm(t) is norm(QUERY), own, p.st.heap)

                form.other = lambda t, own=own: stored(t) and not own(t)

                def pair(lib, p=p, form=form):
                    args = [strip_ver(x) for x in lib.a[1][:2]]
                    c = p.st.heap.get(args[0])
                    first = c is not None and c.kind == "list" and len(c.entries) == 1 and form.vector(c.entries[0].val) is not None and "Q" in form.vector(c.entries[0].val)
                    if not first:
                        first = args[0].op == "call" and args[0].a[0] in (".reshape", "numpy.atleast_2d", "numpy.array", "numpy.asarray", "numpy.expand_dims") and contains(args[0], lambda x: x is QUERY)
                    c2 = [p.st.heap[x] for x in walk(args[1]) if x.op == "alloc" and x in p.st.heap]
                    second = any(form.vector(y.val) is not None and "X" in form.vector(y.val) for c3 in c2 for y in c3.entries if y.val is not None)
                    return first and second
                form.pair = pair
                want, z = WANT[n][m]
                con = f"{n}.search({m})"
                if judge(rep, con, m, p, exact(d), form, want, z, f, getattr(e.node, "lineno", ln), more=e.facts):
                    done[m] += 1
        for m, k in done.items():
            if not k:
                rep.unk("R30.formula", f"{n}.search({m})", "formula not understood")


def coded(prog, rep):
    """compute_distance of the quantizers: the distance from the query to the decoded vector."""
    for n, want, z in (("ScalarQuantizer", COSD, 1), ("SAQQuantizer", COSD, 1), ("ProductQuantizer", L2, None)):
        cls = prog.cls(n)
        fi = cls.find("compute_distance")
        q = params_of(fi)[0]
        I = Interp(prog, P(no_inline=("dequantize",)))
        ps = I.run_method(cls, fi)
        rep.saw(I, ps)
        con = f"{n}.compute_distance"
        dec = 0

        def query(t):
            t = strip_ver(t)
            if t.op == "param" and t.a[0] == q:
                return True
            if t.op == "slice":
                return query(t.a[0]) or t.a[0].op == "call" and t.a[0].a[0] in SAME + ("numpy.pad",) and query_like(t.a[0])
            return t.op == "call" and t.a[0] == "numpy.pad" and query_like(t)

        def query_like(t):
            t = strip_ver(t)
            while t.op in ("call", "slice") and (t.op == "slice" or t.a[0] in SAME + ("numpy.pad",)):
                t = strip_ver(t.a[1][0] if t.op == "call" else t.a[0])
            return t.op == "param" and t.a[0] == q

        def decoded(t):
            t = strip_ver(t)
            if t.op == "item" and strip_ver(t.a[0]).op == "call" and strip_ver(t.a[0]).a[0] == ".dequantize":
                return is_const(t.a[1]) and cval(t.a[1]) == 0
            if t.op == "item" and n == "ProductQuantizer":
                return contains(t, lambda x: x.op in ("attr", "init") and x.a[-1] == "centroids")
            return False
        for p in rets(ps):
            f, ln = loc(p)
            if n == "ProductQuantizer" and is_number(Form(query, decoded, p.st.heap).scalar(p.val) or L2):
                continue                     # no parts
            if judge(rep, con, "distance to the decoded vector", p, p.val, Form(query, decoded, p.st.heap), want, z, f, ln):
                dec += 1
        if not dec:
            rep.unk("R30.formula", con, "formula not understood")


def unit(prog, rep):
    """Embeddings and analysed vectors divided by their own length: never by zero."""
    for cn, m in (("EmbeddingProcessor", "process"), ("EmbeddingProcessor", "batch_process"), ("VectorAnalyzer", "analyze_vectors")):
        cls = prog.cls(cn)
        con = f"{cn}.{m}"
        n = 0
        for p in paths(prog, rep, cls, m):
            if p.kind != "return":
                continue
            ln = getattr(p.node, "lineno", cls.find(m).node.lineno)
            for t in divisions(p):
                n += 1
                x, den = t
                x, den = bare(x), norm(den)
                ns = [y for y in walk(den) if y.op == "call" and y.a[0].rsplit(".", 1)[-1] == "norm" and y.a[1]]
                if not ns:
                    continue
                if not any(same_id(bare(y.a[1][0]), x) for y in ns):
                    rep.unk("R30.zero", con, "division not understood")
                    continue
                g = guarded(p, den, ns)
                if g is None:
                    rep.unk("R30.zero", con, "division not understood")
                    continue
                rep.check("R30.zero", con, g, "division", "a zero vector is divided by its length", cls.find(m).module.path, ln)
        if not n:
            rep.unk("R30.zero", con, "no vector divided by its length")


def divisions(p):
    seen, out = set(), []
    for r in [p.val] + [v for c in p.st.heap.values() for e in c.entries for v in (e.key, e.val)] + [x for e in p.st.events for x in (e.a if isinstance(e.a, tuple) else ())]:
        if r is None or not hasattr(r, "op"):
            continue
        for t in walk(r):
            if t in seen:
                continue
            seen.add(t)
            if t.op == "bin" and t.a[0] == "/" and contains(t.a[2], lambda y: y.op == "call" and y.a[0].rsplit(".", 1)[-1] == "norm"):
                out.append((t.a[1], t.a[2]))
            if t.op == "call" and t.a[0] in ("numpy.divide", "numpy.true_divide") and len(t.a[1]) == 2 and contains(t.a[1][1], lambda y: y.op == "call" and y.a[0].rsplit(".", 1)[-1] == "norm"):
                out.append((t.a[1][0], t.a[1][1]))
    return out


def guarded(p, den, ns):
    """A divisor made of the length n is known not to be zero; None when this cannot be told."""
    n = ns[0]
    if den.op == "call" and den.a[0] in ("numpy.where", "numpy.maximum", "max", "numpy.clip"):
        return True
    if den.op == "bin" and den.a[0] == "+" and any(is_const(strip_ver(y)) and isinstance(cval(strip_ver(y)), float) and cval(strip_ver(y)) > 0 for y in den.a[1:]):
        return True
    if not same_id(den, n):
        return None
    for f, v in p.facts.items():
        ops = [norm(y) for y in f.a if hasattr(y, "op")]
        if not any(same_id(y, n) for y in ops):
            continue
        c = [strip_ver(y) for y in f.a if hasattr(y, "op") and is_const(strip_ver(y))]
        if f.op == "truthy" and v:
            return True
        if f.op == "eq" and c and cval(c[0]) == 0 and not v:
            return True
        if f.op in ("lt", "le") and c and isinstance(cval(c[0]), (int, float)):
            first = is_const(strip_ver(f.a[0]))
            if f.op == "lt" and first and v and cval(c[0]) >= 0 or f.op == "le" and not first and not v and cval(c[0]) >= 0:
                return True
            if f.op == "le" and first and v and cval(c[0]) > 0 or f.op == "lt" and not first and not v and cval(c[0]) > 0:
                return True
    for e in p.st.events:
        if e.kind == "setitem" and same_id(norm(e.a[0]), n):
            k, val = norm(e.a[1]), strip_ver(e.a[2])
            if contains(k, lambda y: y.op == "cmp" and any(hasattr(w, "op") and same_id(norm(w), n) for w in y.a)):
                return is_const(val) and cval(val) != 0
            return None
        if e.kind == "mut" and e.a and hasattr(e.a[0], "op") and same_id(norm(e.a[0]), n):
            return None
    return False


CHECKS = {"C30": c30}
