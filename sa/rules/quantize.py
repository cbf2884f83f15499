"""C34: what a quantizer codes is what it decodes."""
from fractions import Fraction

from ..common import *
from ..prog import ClassInfo
from ..terms import const, contains
from .batches import added, outer_list
from .making import runf, fog
from .metrics import ONE, Rat, add, atom, inv, mul, num, same, counted as _counted
from .storage import rets
from .text import Iters, loops_of

CAST = ("numpy.asarray", "numpy.array", ".astype", ".copy", "numpy.float32", "numpy.float64", "numpy.ascontiguousarray", "numpy.atleast_2d", "int", "float",
        "numpy.int64", "numpy.int32", ".item", ".reshape", ".ravel", ".flatten", "numpy.squeeze", ".squeeze")
NEAREST = ("numpy.rint", "numpy.round", "numpy.around", ".round", "round", "numpy.round_")
OTHERWISE = {"numpy.floor": "downwards", "numpy.ceil": "upwards", "numpy.trunc": "towards zero", "numpy.fix": "towards zero", "math.floor": "downwards"}
SIZES = {"int8": 2 ** 7 - 1, "uint8": 2 ** 8 - 1, "int16": 2 ** 15 - 1, "uint16": 2 ** 16 - 1, "int32": 2 ** 31 - 1, "uint32": 2 ** 32 - 1, "int64": 2 ** 63 - 1, "uint64": 2 ** 64 - 1,
         "int": 2 ** 63 - 1, "intp": 2 ** 63 - 1}


def tail(n):
    return n.rsplit(".", 1)[-1]


def bare(t):
    t = strip_ver(t)
    while t.op == "call" and t.a[1] and t.a[0] in CAST:
        t = strip_ver(t.a[1][0])
    return t


def dtype_name(t):
    t = strip_ver(t)
    if t.op == "glob":
        return tail(t.a[0])
    if is_const(t) and isinstance(cval(t), str):
        return cval(t)
    return None


def fixed(t):
    """Value of a term that is a number known in advance (limits of integer types included)."""
    t = strip_ver(t)
    if is_const(t):
        return cval(t) if isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool) else None
    if t.op == "attr" and t.a[1] == "max":
        c = strip_ver(t.a[0])
        if c.op == "call" and tail(c.a[0]) == "iinfo" and c.a[1]:
            return SIZES.get(dtype_name(c.a[1][0]))
    if t.op == "call" and t.a[0] in ("int", "float") and t.a[1]:
        return fixed(t.a[1][0])
    if t.op == "bin":
        x, y = fixed(t.a[1]), fixed(t.a[2])
        if x is None or y is None:
            return None
        if t.a[0] in "+-*":
            return {"+": x + y, "-": x - y, "*": x * y}[t.a[0]]
        if t.a[0] == "**" and 0 <= y < 200:
            return x ** y
        if t.a[0] == "<<" and 0 <= y < 200:
            return x << y
    return None


class Alg:
    """Terms as rational functions over named terms; repl maps terms to what they stand for."""

    def __init__(self, repl=None):
        self.repl = {norm(k): v for k, v in (repl or {}).items()}

    def __call__(self, t):
        t = bare(t)
        if norm(t) in self.repl:
            return self.repl[norm(t)]
        n = fixed(t)
        if n is not None:
            return num(n)
        if t.op == "bin" and t.a[0] in "+-*/":
            x, y = self(t.a[1]), self(t.a[2])
            if t.a[0] == "/":
                y = inv(y)
            if x is None or y is None:
                return None
            return add(x, y, -1 if t.a[0] == "-" else 1) if t.a[0] in "+-" else mul(x, y)
        if t.op == "call" and len(t.a[1]) == 2 and tail(t.a[0]) in ("add", "subtract", "multiply", "divide", "true_divide"):
            o = {"add": "+", "subtract": "-", "multiply": "*"}.get(tail(t.a[0]), "/")
            return self(mk("bin", o, t.a[1][0], t.a[1][1]))
        if t.op == "un" and t.a[0] in ("-", "neg"):
            x = self(t.a[1])
            return None if x is None else mul(num(-1), x)
        if t.op in ("unk", "phi", "alloc", "ite", "or", "and"):
            return None
        return atom(f"t{norm(t).uid}")


def only(r, ts):
    """The formula speaks of nothing but these terms."""
    names = {f"t{norm(t).uid}" for t in ts}
    return all(x in names for q in (r.n, r.d) for m in q for x, _ in m)


def levels(t, cls):
    """2**bits - 1 in any of its spellings (a field set so by __init__ included)"""
    t = bare(t)
    if t.op == "call" and tail(t.a[0]) in ("min", "minimum") or t.op == "min":
        xs = [x for x in (t.a if t.op == "min" else t.a[1]) if hasattr(x, "op")]
        rest = [x for x in xs if fixed(x) is None]
        return len(rest) == 1 and all((fixed(x) or 2 ** 40) >= 2 ** 40 for x in xs if x is not rest[0]) and levels(rest[0], cls)
    if t.op in ("init", "attr") and t.a[0] is self_of(cls):
        v = cls.field0.get(t.a[1]) if hasattr(cls, "field0") else None
        return v is not None and v is not t and levels(v, cls)
    if t.op == "bin" and t.a[0] in "+-":
        x, c = strip_ver(t.a[1]), fixed(t.a[2])
        if c == (-1 if t.a[0] == "+" else 1):
            x = bare(x)
            return x.op == "bin" and (x.a[0] == "<<" and fixed(x.a[1]) == 1 or x.a[0] == "**" and fixed(x.a[1]) == 2) and bits(x.a[2], cls)
    return False


def bits(t, cls):
    t = bare(t)
    if t.op in ("get", "item") and is_const(t.a[1]):
        return cval(t.a[1]) == "bits"
    if t.op in ("init", "attr") and t.a[0] is self_of(cls):
        v = cls.field0.get(t.a[1])
        return t.a[1] == "bits" if v is None else v is not t and bits(v, cls)
    return False


def start_fields(prog, cls):
    me, out = self_of(cls), {}
    for p in Interp(prog).init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            if o is me:
                out[f] = strip_ver(v)
    cls.field0 = out
    return out


def params(cls, m):
    return [mk("param", a.arg) for a in cls.find(m).node.args.args[1:]]


# ------------------------------------------------------------------------------------------------ scalar
def coded_value(p):
    """The array of codes answered: (value, dtype of the array it is put into)."""
    r = strip_ver(p.val)
    if r.op == "call" and tail(r.a[0]) in ("zeros", "empty", "zeros_like", "empty_like", "full"):
        dt = dict(r.a[2]).get("dtype")
        sets = [e for e in p.events if e.kind == "setitem" and strip_ver(e.a[0]) is r]
        if len(sets) == 1 and everything(sets[0].a[1]) and not sets[0].loops:
            return strip_ver(sets[0].a[2]), dt, sets[0]
        return None
    return r, None, None


def everything(k):
    k = strip_ver(k)
    if k.op == "tuple":
        return all(everything(x) for x in k.a)
    return k.op == "slicev" and all(is_const(x) and cval(x) is None for x in k.a) or is_const(k) and cval(k) is Ellipsis


def peel(t):
    """Code term -> (inner expression, [steps])   steps: ('round',name) ('lo',term) ('hi',term) ('cast',dtype) ('nan',)"""
    steps = []
    t = strip_ver(t)
    while t.op == "call" and t.a[1]:
        n, a, kw = t.a[0], t.a[1], dict(t.a[2])
        b = tail(n)
        if n in NEAREST:
            d = kw.get("decimals") or (a[1] if len(a) > 1 else None)
            steps.append(("round", "nearest" if d is None or fixed(d) == 0 else "decimals"))
        elif n in OTHERWISE:
            x = strip_ver(a[0])
            if b == "floor" and x.op == "bin" and x.a[0] == "+" and 0.5 in (fixed(x.a[1]), fixed(x.a[2])):
                steps.append(("round", "nearest"))
                t = strip_ver(x.a[2] if fixed(x.a[1]) == 0.5 else x.a[1])
                continue
            steps.append(("round", OTHERWISE[n]))
        elif b == "clip":
            lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
            hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
            if lo is not None and not (is_const(lo) and cval(lo) is None):
                steps.append(("lo", lo))
            if hi is not None and not (is_const(hi) and cval(hi) is None):
                steps.append(("hi", hi))
        elif b in ("minimum", "maximum") and len(a) == 2:
            x, y = strip_ver(a[0]), strip_ver(a[1])
            if bare(x).op in ("init", "attr", "const", "bin") and not contains(x, lambda z: z.op == "param"):
                x, y = y, x
            steps.append(("hi" if b == "minimum" else "lo", y))
            t = x
            continue
        elif b == "nan_to_num":
            steps.append(("nan", kw.get("nan")))
        elif n == ".astype":
            steps.append(("cast", a[1] if len(a) > 1 else kw.get("dtype")))
        elif n not in CAST:
            break
        t = strip_ver(a[0])
    return t, steps


def scalar(prog, rep):
    cls = prog.cls("ScalarQuantizer")
    me = self_of(cls)
    start_fields(prog, cls)
    con = "ScalarQuantizer"
    q = params(cls, "quantize")[0]
    d = params(cls, "dequantize")[0]
    learned = {}
    tv = params(cls, "train")[0]
    for p in rets(paths(prog, rep, cls, "train")):
        for (o, f), v in p.st.fields.items():
            if o is me and contains(v, lambda x: x is tv):
                learned.setdefault(f, []).append((v, p))
    inner = []
    for p in rets(paths(prog, rep, cls, "quantize")):
        f, ln = loc(p)
        cv = coded_value(p)
        if cv is None or fog(cv[0]):
            rep.unk("R34.round", con, "codes not understood")
            rep.unk("R34.range", con, "codes not understood")
            continue
        v, dt, ev = cv
        x, steps = peel(v)
        rounds = [s[1] for s in steps if s[0] == "round"]
        casts = [s[1] for s in steps if s[0] == "cast"] + ([dt] if dt is not None else [])
        if not contains(x, lambda y: y is q):
            rep.unk("R34.round", con, "codes not understood")
            continue
        if rounds and all(r == "nearest" for r in rounds):
            rep.ok("R34.round", con)
        elif rounds:
            rep.bad("R34.round", con, "direction", f"a component is rounded {[r for r in rounds if r != 'nearest'][0]}, not to the nearest level", f, ln)
        elif x.op == "bin":
            rep.bad("R34.round", con, "cut", "a component is cut to an integer, not rounded to the nearest level", f, ln)
        else:
            rep.unk("R34.round", con, "rounding not understood")
        los, his = [s[1] for s in steps if s[0] == "lo"], [s[1] for s in steps if s[0] == "hi"]
        if x.op != "bin":
            rep.unk("R34.range", con, "codes not understood")
        else:
            limits(rep, con, cls, p, los, his, casts, f, ln)
        inner.append((x, p, f, ln))
    for p in rets(paths(prog, rep, cls, "dequantize")):
        f, ln = loc(p)
        y, steps = peel(p.val)
        y0 = coded_value(p)
        if y0 is not None and y0[2] is not None:
            y, steps = peel(y0[0])
        if any(s[0] in ("lo", "hi", "round") for s in steps):
            rep.bad("R34.inverse", con, "changed", f"what was decoded is changed afterwards ({show(strip_ver(p.val))[:60]})", f, ln)
            continue
        if not contains(y, lambda z: z is d):
            rep.unk("R34.inverse", con, "decoding not understood")
            continue
        small_ = [n for z in walk(p.val) if z.op == "call" and (z.a[0] == ".astype" or tail(z.a[0]) in ("asarray", "array")) and bare(z) is d
                  for n in [dtype_name(z.a[1][1] if len(z.a[1]) > 1 else dict(z.a[2]).get("dtype", NONE))] if n and (SIZES.get(n, 2 ** 40) < 2 ** 31 - 1 or n == "float16")]
        if small_:
            rep.bad("R34.inverse", con, "narrow", f"codes are read as {small_[0]}, which does not hold all of them", f, ln)
            continue
        for x, p2, f2, l2 in inner:
            e = Alg()(x)
            if e is None:
                rep.unk("R34.inverse", con, "coding not understood")
                continue
            back = Alg({d: e})(y)
            v = Alg()(q)
            if back is None:
                rep.unk("R34.inverse", con, "decoding not understood")
            elif same(back, v):
                rep.ok("R34.inverse", con)
            elif any(z.op == "call" and not (z.a[0] in CAST) for t in (x, y) for z in walk(t)):
                rep.unk("R34.inverse", con, "formula with other functions")
            else:
                rep.bad("R34.inverse", con, "formula", f"a vector coded as {show(x)[:80]} is decoded as {show(y)[:80]}, which is not the vector", f, ln)
    ends(rep, con, cls, learned, inner, q, tv, prog)


def limits(rep, con, cls, p, los, his, casts, f, ln):
    for lo in los:
        v = fixed(lo)
        rep.check("R34.range", con, v is None or v == 0, "lower", f"codes start at {show(lo)[:30]}, not at 0", f, ln)
    if not los or not his:
        rep.bad("R34.range", con, "unlimited", "a component outside the range of the training vectors is not brought into it, so its code overflows or is not one of the levels", f, ln)
        return
    caps = []
    for t in casts:
        n = dtype_name(t)
        if n and n.startswith("float"):
            continue
        if n not in SIZES:
            rep.unk("R34.range", con, "type of the codes not understood")
            return
        caps.append(SIZES[n])
    cap = min(caps) if caps else None
    parts = []
    for hi in his:
        b = bare(hi)
        if b.op == "min" or b.op == "call" and tail(b.a[0]) in ("min", "minimum"):
            parts += [x for x in (b.a if b.op == "min" else b.a[1]) if hasattr(x, "op")]
        else:
            parts.append(hi)
    syms, nums = [x for x in parts if fixed(x) is None], [fixed(x) for x in parts if fixed(x) is not None]
    if any(levels(x, cls) for x in syms):
        if not all(levels(x, cls) or above_levels(x, cls) for x in syms):
            rep.unk("R34.range", con, "upper limit not understood")
            return
    elif syms:
        if any(beside_levels(x, cls) for x in syms):
            rep.bad("R34.range", con, "upper", f"codes go up to {show(syms[0])[:40]}, not to 2**bits - 1", f, ln)
        else:
            rep.unk("R34.range", con, "upper limit not understood")
        return
    # numbers below 2**40 would take levels away; the limit must fit the type, also after the conversion to a 64-bit float
    about = [(a, pol) for a, pol in p.facts.items() if a.op in ("lt", "le") and any(levels(x, cls) for x in a.a)]
    below = [fixed(a.a[0]) - (0 if a.op == "lt" else 1) for a, pol in about if not pol and fixed(a.a[0]) is not None] + \
            [fixed(a.a[1]) - (1 if a.op == "lt" else 0) for a, pol in about if pol and fixed(a.a[1]) is not None]
    above = [fixed(a.a[0]) for a, pol in about if pol and fixed(a.a[0]) is not None]
    for a, pol in p.facts.items():
        if a.op in ("lt", "le"):
            i = [j for j in (0, 1) if bits(a.a[j], cls) and isinstance(fixed(a.a[1 - j]), int) and 0 <= fixed(a.a[1 - j]) < 200]
            if i:
                n, strict = fixed(a.a[1 - i[0]]), (a.op == "lt") == pol
                if (i[0] == 0) == pol:
                    below.append(2 ** (n - 1 if strict else n) - 1)
                else:
                    above.append(2 ** (n + 1 if strict else n) - 2)
    if above and below and max(above) >= min(below):
        return                       # no such path
    top = min(nums + (below if syms else [])) if nums or below and syms else None
    if nums and min(nums) < 2 ** 40 and not any(b >= min(nums) for b in above) and not any(b <= min(nums) for b in below):
        rep.bad("R34.range", con, "few", f"codes go up to {min(nums)} only", f, ln)
        return
    if cap is None:
        rep.unk("R34.range", con, "type of the codes not understood")
    elif top is None:
        rep.bad("R34.range", con, "type", f"codes up to 2**bits - 1 are put into integers up to {cap} without a test that they fit", f, ln)
    elif top > cap or cap >= 2 ** 62 and top > 2 ** 63 - 1024:
        rep.bad("R34.range", con, "type", f"codes up to {top} are put into integers up to {cap}" + ("; the limit becomes 2**63 as a float" if top <= cap else ""), f, ln)
    else:
        rep.ok("R34.range", con)


def above_levels(t, cls):
    t = bare(t)
    return t.op == "bin" and t.a[0] == "+" and any(levels(x, cls) for x in t.a[1:]) or levels(mk("bin", "-", t, const(1)), cls)


def beside_levels(t, cls):
    t = bare(t)
    return t.op == "bin" and t.a[0] in "+-" and any(levels(x, cls) for x in t.a[1:]) or levels(mk("bin", "-", t, const(1)), cls)


def ends(rep, con, cls, learned, inner, q, tv, prog):
    """The smallest training value is coded as 0, the largest as 2**bits - 1."""
    me = self_of(cls)
    if not inner or not learned:
        rep.unk("R34.levels", con, "what is learned is not understood")
        return
    for x, p, f, ln in inner:
        used = sorted({t.a[1] for t in walk(x) if t.op in ("init", "attr") and t.a[0] is me})
        if not all(u in learned for u in used) or not used:
            rep.unk("R34.levels", con, "what is learned is not understood")
            continue
        combos = {}
        for u in used:
            for v, tp in learned[u]:
                combos.setdefault(id(tp), (tp, {}))[1][u] = v
        for tp, vals in combos.values():
            tf, tl = loc(tp)
            MIN, MAX, LV = atom("MIN"), atom("MAX"), atom("LEVELS")
            alg = Alg()
            base = alg.__call__

            def val(t, depth=0):
                t = bare(t)
                if t.op == "call" and tail(t.a[0]) == "where" and len(t.a[1]) == 3:
                    c, a, b = [strip_ver(z) for z in t.a[1]]
                    r = fixed(a)
                    zero = c.op in ("eq", "cmp") and any(fixed(z) == 0 for z in c.a if hasattr(z, "op"))
                    if c.op == "cmp" and c.a[0] not in ("==", "eq"):
                        if c.a[0] in ("!=", "ne"):
                            a, b, r = b, a, fixed(b)
                        else:
                            k = [fixed(z) for z in c.a[1:] if hasattr(z, "op") and fixed(z) is not None]
                            if k and k[0] > 0:
                                return "eps"
                            return None
                    elif c.op in ("lt", "le"):
                        k = [fixed(z) for z in c.a if hasattr(z, "op") and fixed(z) is not None]
                        return "eps" if k and k[0] > 0 else None
                    elif not zero:
                        return None
                    if r == 0:
                        return "zero"
                    return val(b, depth + 1) if r is not None else None
                if (t.op == "call" and tail(t.a[0]) in ("min", "minimum") or t.op == "min") and not levels(t, cls):
                    xs = [z for z in (t.a if t.op == "min" else t.a[1]) if hasattr(z, "op")]
                    if any(fixed(z) is not None and fixed(z) < 2 ** 40 for z in xs) and any(levels(z, cls) for z in xs):
                        return "few"
                if t.op == "call" and tail(t.a[0]) == "min" and len(t.a[1]) == 2 and not levels(t, cls):
                    xs = [z for z in t.a[1] if fixed(z) is None]
                    return val(xs[0], depth + 1) if len(xs) == 1 else None
                if levels(t, cls):
                    return LV
                if t.op == "bin" and levels(mk("bin", "-", t, const(1)), cls):
                    return add(LV, ONE)
                if t.op == "call" and t.a[1] and tail(t.a[0]) in ("min", "max", "amin", "amax", "ptp") and bare(t.a[1][0]).op == "slice" and bare(bare(t.a[1][0]).a[0]) is tv:
                    return "some"
                if t.op == "call" and t.a[1] and tail(t.a[0]) in ("percentile", "quantile", "nanpercentile", "nanquantile", "median", "mean", "average", "std") and bare(t.a[1][0]) is tv:
                    w = fixed(t.a[1][1]) if len(t.a[1]) > 1 else None
                    return "other" if w not in (0, 100) else None
                if t.op == "call" and t.a[1] and contains(t.a[1][0], lambda z: z is tv) and bare(t.a[1][0]) is tv:
                    ax = dict(t.a[2]).get("axis") or (t.a[1][1] if len(t.a[1]) > 1 else None)
                    n = tail(t.a[0])
                    if n in ("min", "amin", "nanmin", "max", "amax", "nanmax"):
                        if ax is None:
                            return "all"
                        if fixed(ax) != 0:
                            return "axis"
                        return MIN if "min" in n else MAX
                    if n == "ptp":
                        return add(MAX, MIN, -1) if ax is not None and fixed(ax) == 0 else None
                    return None
                if t.op == "bin" and t.a[0] in "+-*/":
                    a, b = val(t.a[1], depth + 1), val(t.a[2], depth + 1)
                    if isinstance(a, str) or isinstance(b, str):
                        return a if isinstance(a, str) else b
                    if a is None or b is None:
                        return None
                    if t.a[0] == "/":
                        b = inv(b)
                        return None if b is None else mul(a, b)
                    return mul(a, b) if t.a[0] == "*" else add(a, b, -1 if t.a[0] == "-" else 1)
                n = fixed(t)
                if n is not None:
                    return num(n)
                if t.op == "call" and tail(t.a[0]) in ("zeros_like", "zeros"):
                    return num(0)
                return None
            got = {u: val(v) for u, v in vals.items()}
            if any(isinstance(g, str) for g in got.values()):
                g = [g for g in got.values() if isinstance(g, str)][0]
                rep.bad("R34.levels", con, g, {"eps": "dimensions whose values lie close together are coded with another step", "zero": "a step of zero stays",
                                               "few": "fewer levels than 2**bits are used", "some": "the range is that of some of the training vectors",
                                               "other": "the range does not reach from the smallest to the largest training value",
                                               "all": "the range is that of all dimensions together", "axis": "the range is taken over the wrong axis"}[g], tf, tl)
                continue
            if any(g is None for g in got.values()):
                rep.unk("R34.levels", con, "what is learned is not understood")
                continue
            repl = {}
            for t in walk(x):
                if t.op in ("init", "attr") and t.a[0] is me and t.a[1] in got:
                    repl[t] = got[t.a[1]]
            lo, hi = Alg({**repl, q: MIN})(x), Alg({**repl, q: MAX})(x)
            if lo is None or hi is None:
                rep.unk("R34.levels", con, "coding not understood")
                continue
            ok = not lo.n and same(hi, LV)
            rep.check("R34.levels", con, ok, "ends", "the smallest and the largest training value are not coded as 0 and 2**bits - 1", f, ln)


# ------------------------------------------------------------------------------------------------ distance to centroids
def dist2(t, X, C, depth=0):
    """Squared distance as {'XX','CC','XC'} coefficients; 'other' for a different distance; None if not understood."""
    t = strip_ver(t)
    if depth > 12:
        return None
    if t.op == "attr" and t.a[1] == "T":
        return dist2(t.a[0], X, C, depth + 1)
    if t.op == "item":
        return dist2(t.a[0], X, C, depth + 1)
    n = fixed(t)
    if n is not None:
        return {"1": Fraction(n).limit_denominator(10 ** 9)}
    if t.op == "bin":
        if t.a[0] == "@":
            return product(t.a[1], t.a[2], X, C)
        if t.a[0] in "+-*":
            if t.a[0] != "*" and any(strip_ver(z).op == "call" and tail(strip_ver(z).a[0]) in ("sqrt", "norm") and isinstance(dist2(z, X, C, depth + 1), dict) for z in t.a[1:]):
                return "other"           # a sum with lengths that are not squared
            a, b = dist2(t.a[1], X, C, depth + 1), dist2(t.a[2], X, C, depth + 1)
            if not isinstance(a, dict) or not isinstance(b, dict):
                return a if isinstance(a, str) else b if isinstance(b, str) else None
            if t.a[0] == "*":
                if set(a) <= {"1"}:
                    a, b = b, a
                return {k: v * b.get("1", 0) for k, v in a.items()} if set(b) <= {"1"} else None
            s = 1 if t.a[0] == "+" else -1
            return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
        if t.a[0] == "**" and fixed(t.a[2]) == 2:
            x = strip_ver(t.a[1])
            return dist2(x, X, C, depth + 1) if x.op == "call" and tail(x.a[0]) in ("sqrt", "norm") else None
        return None
    if t.op == "call":
        f, a, kw = tail(t.a[0]), t.a[1], dict(t.a[2])
        if t.a[0] in CAST and a:
            return dist2(a[0], X, C, depth + 1)
        if f in ("dot", "matmul", "inner") and len(a) == 2:
            return product(a[0], a[1], X, C)
        if f in ("sum", "mean") and a:
            return summed(a[0], X, C)
        if f == "sqrt" and a:
            return dist2(a[0], X, C, depth + 1)
        if f == "norm" and a:
            o = kw.get("ord") or (a[1] if len(a) > 1 else None)
            if o is not None and not (is_const(o) and cval(o) in (None, 2)):
                return "other"
            d = side(a[0], X, C)
            return square(d)
        if f == "cdist" and len(a) >= 2:
            m = kw.get("metric") or (a[2] if len(a) > 2 else None)
            if m is None or is_const(m) and cval(m) in ("euclidean", "sqeuclidean"):
                return {"XX": 1, "CC": 1, "XC": -2}
            return "other" if is_const(m) else None
        if f in ("euclidean_distances",):
            return {"XX": 1, "CC": 1, "XC": -2}
    return None


def side(t, X, C):
    """A linear combination of the vectors (X) and the centroids (C)."""
    t = strip_ver(t)
    if t.op == "bin" and t.a[0] in "+-":
        a, b = side(t.a[1], X, C), side(t.a[2], X, C)
        if a is None or b is None:
            return None
        s = 1 if t.a[0] == "+" else -1
        return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
    if t.op == "call" and tail(t.a[0]) == "subtract" and len(t.a[1]) == 2:
        return side(mk("bin", "-", t.a[1][0], t.a[1][1]), X, C)
    x, c = X(t), C(t)
    if x == c:
        return None
    if contains(t, lambda z: z.op == "bin" and z.a[0] in "+-*/" and (X(z.a[1]) or C(z.a[1]))):
        return None
    return {"X": 1} if x else {"C": 1}


def square(d):
    if d is None:
        return None
    x, c = d.get("X", 0), d.get("C", 0)
    return {"XX": x * x, "CC": c * c, "XC": 2 * x * c}


def product(a, b, X, C):
    x, y = side(a, X, C), side(b, X, C)
    if x is None or y is None or len(x) != 1 or len(y) != 1:
        return None
    k = "".join(sorted([*x, *y]))
    return {{"XX": "XX", "CC": "CC", "CX": "XC"}[k]: 1}


def summed(t, X, C):
    t = strip_ver(t)
    if t.op == "bin" and t.a[0] == "**" and fixed(t.a[2]) is not None:
        return square(side(t.a[1], X, C)) if fixed(t.a[2]) == 2 else "other"
    if t.op == "bin" and t.a[0] == "*":
        if norm(t.a[1]) is norm(t.a[2]):
            return square(side(t.a[1], X, C))
        return product(t.a[1], t.a[2], X, C)
    if t.op == "call" and tail(t.a[0]) == "square" and t.a[1]:
        return square(side(t.a[1][0], X, C))
    if t.op == "call" and tail(t.a[0]) in ("abs", "absolute", "fabs"):
        return "other"
    return None


def nearest(rep, con, t, X, C, f, ln, what="the nearest centroid"):
    """t is the number of the nearest centroid of every vector"""
    t = bare(t)
    if t.op != "call" or tail(t.a[0]) not in ("argmin", "argmax"):
        if t.op == "call" and tail(t.a[0]) in ("pairwise_distances_argmin",) and len(t.a[1]) == 2 and X(t.a[1][0]) and C(t.a[1][1]):
            rep.ok("R34.nearest", con)
        else:
            rep.unk("R34.nearest", con, "choice of the centroid not understood")
        return
    d = dist2(t.a[1][0], X, C)
    ax = dict(t.a[2]).get("axis") or (t.a[1][1] if len(t.a[1]) > 1 else None)
    if d is None:
        rep.unk("R34.nearest", con, "distance not understood")
        return
    if d == "other":
        rep.bad("R34.nearest", con, "distance", f"the centroid is chosen by another distance than the Euclidean one ({show(t.a[1][0])[:80]})", f, ln)
        return
    s = -1 if tail(t.a[0]) == "argmax" else 1
    d = {k: s * v for k, v in d.items() if k in ("CC", "XC")}
    cc, xc = d.get("CC", 0), d.get("XC", 0)
    if cc > 0 and xc == -2 * cc:
        if ax is not None and fixed(ax) is not None and fixed(ax) not in (1, -1):
            rep.bad("R34.nearest", con, "axis", "the choice is made among the vectors, not among the centroids", f, ln)
        else:
            rep.ok("R34.nearest", con)
    else:
        rep.bad("R34.nearest", con, "distance", f"the code is not the number of {what} ({tail(t.a[0])} of {show(t.a[1][0])[:80]})", f, ln)


# ------------------------------------------------------------------------------------------------ product
def column(t):
    """X[:, K] -> (X, K)"""
    t = strip_ver(t)
    if t.op == "item":
        k = strip_ver(t.a[1])
        if k.op == "tuple" and len(k.a) == 2 and everything(k.a[0]):
            return strip_ver(t.a[0]), strip_ver(k.a[1])
    return None


def pieces_of(t, of):
    """All parts X[:, lo:hi] of the table `of` in a term: [(lo, hi)]"""
    out = []
    for x in walk(t):
        c = column(x) if x.op == "item" else None
        if c and c[1].op == "slicev" and (of is None or bare(c[0]) is of):
            out.append((strip_ver(c[1].a[0]), strip_ver(c[1].a[1])))
        elif x.op == "slice" and of is not None and bare(x.a[0]) is of:
            out.append((strip_ver(x.a[1]), strip_ver(x.a[2])))
    return out


def product_q(prog, rep):
    cls = prog.cls("ProductQuantizer")
    me = self_of(cls)
    start_fields(prog, cls)
    con = "ProductQuantizer"
    tv = params(cls, "train")[0]
    seen = {}

    def own(t, name):
        t = bare(t)
        return t.op in ("init", "attr") and t.a[0] is me and t.a[1] == name

    def part(rep, c, lo, hi, i, width, f, ln):
        """[lo, hi) is the i-th of m equal parts"""
        M = atom("M")
        alg = Alg({i: atom("I"), **{mk("init", me, n): x for n, x in (("m", M), ("k", atom("K")), ("dim", mul(M, atom("W"))))}, **{w: atom("W") for w in width}})
        a, b = alg(lo), alg(hi)
        if a is None or b is None or fog(lo) or fog(hi):
            rep.unk("R34.parts", c, "part not understood")
            return
        W, I = atom("W"), atom("I")
        if same(a, mul(I, W)) and same(b, mul(add(I, ONE), W)):
            rep.ok("R34.parts", c)
        elif all(x in ("I", "W", "M", "K") for r in (a, b) for q in (r.n, r.d) for m in q for x, _ in m):
            rep.bad("R34.parts", c, "part", f"sub-vector i is taken from {show(lo)[:40]} to {show(hi)[:40]}, which are not its dimensions", f, ln)
        else:
            rep.unk("R34.parts", c, "part not understood")

    def whole_loop(rep, c, e, i, f, ln):
        """the loop runs over all sub-vectors"""
        r = strip_ver(i.a[0]) if i.op == "idx" else None
        if r is not None and own(r, "centroids"):
            return True
        if r is None or r.op != "call" or r.a[0] != "range":
            rep.unk("R34.parts", c, "loop over the sub-vectors not understood")
            return False
        a = r.a[1]
        m = a[0] if len(a) == 1 else a[1]
        lo = 0 if len(a) == 1 else fixed(a[0])
        if own(m, "m") and lo == 0 and len(a) < 3:
            return True
        x = bare(m)
        if lo not in (0, None) or x.op == "bin" and x.a[0] in "+-" and any(own(y, "m") for y in x.a[1:]) and any(fixed(y) is not None for y in x.a[1:]):
            rep.bad("R34.parts", c, "some", f"only the sub-vectors of {show(r)[:40]} are handled", f, ln)
            return False
        rep.unk("R34.parts", c, "loop over the sub-vectors not understood")
        return False

    # training
    c = con + ".train"
    for p in rets(paths(prog, rep, cls, "train")):
        w = p.st.fields.get((me, "subvector_dim"))
        width = [mk("init", me, "subvector_dim")] + ([strip_ver(w), bare(w)] if w is not None else [])
        cen = strip_ver(p.st.fields.get((me, "centroids"))) if p.st.fields.get((me, "centroids")) is not None else None
        for e in p.events:
            if e.kind != "setitem" or strip_ver(e.a[0]) is not cen:
                continue
            k = strip_ver(e.a[1])
            first = strip_ver(k.a[0]) if k.op == "tuple" else k
            src = list(pieces_of(e.a[2], tv))
            fits = [x for x in p.events if x.kind == "call" and x.a[0].a[0] in (".fit", ".fit_predict") and x.a[2] and contains(e.a[2], lambda y: y is strip_ver(x.a[2][0]))] + \
                   [x for x in p.events if x.kind == "mut" and x.a[1].a[1] in ("fit", "fit_predict") and contains(e.a[2], lambda y: y is strip_ver(x.a[0]))]
            for x in fits:
                src += pieces_of(mk("tuple", *[y for y in (x.a[2][1:] if x.kind == "call" else x.a[2]) if hasattr(y, "op")]), tv)
            if fixed(first) is not None and src and e.loops:
                rep.bad("R34.parts", c, "codebook", f"the codebooks of all sub-vectors are stored as number {fixed(first)}", e.file, e.line)
                continue
            if first.op != "idx" or not src:
                rep.unk("R34.parts", c, "training of a codebook not understood")
                continue
            if whole_loop(rep, c, e, first, e.file, e.line):
                for lo, hi in src:
                    part(rep, c, lo, hi, first, width, e.file, e.line)
    # coding
    c = con + ".quantize"
    q = params(cls, "quantize")[0]
    W = [mk("init", me, "subvector_dim"), mk("attr", me, "subvector_dim")]

    def X(t):
        return contains(t, lambda z: z is q) and not C(t)

    def C(t):
        return contains(t, lambda z: z.op in ("init", "attr") and z.a[0] is me and z.a[1] == "centroids")
    for p in rets(paths(prog, rep, cls, "quantize")):
        f, ln = loc(p)
        r = strip_ver(p.val)
        sets = [e for e in p.events if e.kind == "setitem" and strip_ver(e.a[0]) is r]
        if r.op != "call" or tail(r.a[0]) not in ("zeros", "empty", "full"):
            rep.unk("R34.parts", c, "codes not understood")
            rep.unk("R34.nearest", c, "codes not understood")
            rep.unk("R34.range", con, "codes not understood")
            continue
        small(rep, con, me, p, dict(r.a[2]).get("dtype") or (r.a[1][1] if len(r.a[1]) > 1 else None), f, ln)
        for e in sets:
            k = strip_ver(e.a[1])
            i = strip_ver(k.a[1]) if k.op == "tuple" and len(k.a) == 2 and everything(k.a[0]) else None
            v = strip_ver(e.a[2])
            if i is None or fog(v):
                rep.unk("R34.parts", c, "codes not understood")
                continue
            if i.op != "idx":
                n = Alg()(i)
                rep.unk("R34.parts", c, "column not understood")
                continue
            nearest(rep, c, v, X, C, e.file, e.line, "the nearest centroid")
            if not whole_loop(rep, c, e, i, e.file, e.line):
                continue
            for lo, hi in pieces_of(v, q):
                part(rep, c, lo, hi, i, W, e.file, e.line)
            books(rep, c, v, i, me, e)
    # decoding
    c = con + ".dequantize"
    d = params(cls, "dequantize")[0]
    for p in rets(paths(prog, rep, cls, "dequantize")):
        r = strip_ver(p.val)
        sets = [e for e in p.events if e.kind == "setitem" and strip_ver(e.a[0]) is r]
        if not sets and r.op == "call" and tail(r.a[0]) in ("zeros", "empty"):
            continue
        if not sets:
            rep.unk("R34.parts", c, "decoding not understood")
        for e in sets:
            k = strip_ver(e.a[1])
            sl = strip_ver(k.a[1]) if k.op == "tuple" and len(k.a) == 2 and everything(k.a[0]) else None
            v = bare(e.a[2])
            cols = [column(x)[1] for x in walk(v) if x.op == "item" and column(x) and bare(column(x)[0]) is d]
            if sl is None or sl.op != "slicev" or len(set(cols)) != 1:
                rep.unk("R34.parts", c, "decoding not understood")
                continue
            i = strip_ver(cols[0])
            if i.op != "idx":
                if not fog(i) and Alg()(i) is not None and (contains(i, lambda z: z.op == "idx") or fixed(i) is not None and e.loops):
                    rep.bad("R34.parts", c, "column", f"the code is read from column {show(i)[:30]}, not from that of the sub-vector", e.file, e.line)
                else:
                    rep.unk("R34.parts", c, "column not understood")
                continue
            if v.op == "item":
                kk = strip_ver(v.a[1])
                kk = bare(kk.a[-1]) if kk.op == "tuple" else bare(kk)
                if column(kk) and bare(column(kk)[0]) is d:
                    rep.ok("R34.parts", c)
                elif kk.op == "bin" and kk.a[0] in "+-" and any(fixed(z) for z in kk.a[1:]) or kk.op in ("call", "min", "max") and any(fixed(z) is not None for z in (kk.a[1] if kk.op == "call" else kk.a) if hasattr(z, "op")) \
                        and tail(kk.a[0] if kk.op == "call" else kk.op) in ("min", "max", "minimum", "maximum", "clip") and not (tail(kk.a[0] if kk.op == "call" else kk.op) in ("max", "maximum") and all(fixed(z) in (None, 0) for z in (kk.a[1] if kk.op == "call" else kk.a) if hasattr(z, "op"))):
                    rep.bad("R34.parts", c, "changed code", f"the centroid looked up is number {show(kk)[:50]}, not the code", e.file, e.line)
                else:
                    rep.unk("R34.parts", c, "code not understood")
            if not whole_loop(rep, c, e, i, e.file, e.line):
                continue
            part(rep, c, strip_ver(sl.a[0]), strip_ver(sl.a[1]), i, W, e.file, e.line)
            books(rep, c, v, i, me, e)
    # distance
    c = con + ".compute_distance"
    qq, dd = params(cls, "compute_distance")[:2]
    for p in rets(paths(prog, rep, cls, "compute_distance")):
        f, ln = loc(p)
        for x in {norm(y) for y in [t for e in p.events for a in e.a for t in (walk(a) if hasattr(a, "op") else ())] + list(walk(p.val))}:
            if x.op == "item" and strip_ver(x.a[1]).op == "tuple" and contains(x.a[0], lambda z: z.op in ("init", "attr") and z.a[-1] == "centroids") and bare(x.a[0]).op in ("init", "attr"):
                k = strip_ver(x.a[1])
                i, code = strip_ver(k.a[0]), bare(k.a[1])
                if i.op != "idx" and code.op == "item" and bare(code.a[0]) is dd:
                    if contains(i, lambda z: z.op == "idx") and not fog(i) and Alg()(i) is not None or fixed(i) is not None:
                        rep.bad("R34.parts", c, "codebook", f"the codebook used is number {show(i)[:30]}, not that of the sub-vector", f, ln)
                    else:
                        rep.unk("R34.parts", c, "codebook not understood")
                if i.op == "idx" and code.op == "item" and bare(code.a[0]) is dd:
                    rep.check("R34.parts", c, strip_ver(code.a[1]) is i, "code", "the centroid is that of another sub-vector's code", f, ln)
                    for y in {norm(z) for z in walk(p.val)} | {norm(z) for e in p.events for a in e.a if hasattr(a, "op") for z in walk(a)}:
                        if y.op == "slice" and contains(y.a[0], lambda z: z is qq) and contains(y.a[1], lambda z: z is i):
                            part(rep, c, strip_ver(y.a[1]), strip_ver(y.a[2]), i, W, f, ln)


def books(rep, c, v, i, me, e):
    """Only codebook i is looked into."""
    got = []
    for x in walk(v):
        if x.op == "item" and bare(x.a[0]).op in ("init", "attr") and bare(x.a[0]).a[0] is me and bare(x.a[0]).a[1] == "centroids":
            k = strip_ver(x.a[1])
            got.append(strip_ver(k.a[0]) if k.op == "tuple" else k)
    if not got:
        rep.unk("R34.parts", c, "codebook not understood")
    for g in got:
        if g is i:
            rep.ok("R34.parts", c)
        elif fog(g):
            rep.unk("R34.parts", c, "codebook not understood")
        elif is_const(g) or contains(g, lambda z: z is i):
            rep.bad("R34.parts", c, "codebook", f"the codebook used is number {show(g)[:30]}, not that of the sub-vector", e.file, e.line)
        else:
            rep.unk("R34.parts", c, "codebook not understood")


def small(rep, con, me, p, dt, f, ln):
    """The number of the last centroid fits the type of the codes."""
    n = dtype_name(dt) if dt is not None else "float64"
    if n and n.startswith("float"):
        rep.ok("R34.range", con)
        return
    if n not in SIZES:
        rep.unk("R34.range", con, "type of the codes not understood")
        return
    cap = SIZES[n]
    if cap >= 2 ** 31 - 1:
        rep.ok("R34.range", con)
        return

    def count(t):
        """t = number of centroids + c -> c"""
        t, c = bare(t), 0
        while t.op == "bin" and t.a[0] in "+-" and fixed(t.a[2]) is not None:
            c += fixed(t.a[2]) if t.a[0] == "+" else -fixed(t.a[2])
            t = bare(t.a[1])
        if contains(t, lambda z: z.op in ("init", "attr") and z.a[0] is me and z.a[1] in ("centroids", "effective_k")):
            if t.op == "item" and strip_ver(t.a[0]).op == "attr" and strip_ver(t.a[0]).a[1] == "shape":
                return c if fixed(t.a[1]) == 1 else None
            if t.op == "call" and t.a[0] == "len" and strip_ver(t.a[1][0]).op == "item":
                return c
            return c if t.op in ("init", "attr") and t.a[1] == "effective_k" else None
        if t.op in ("init", "attr") and t.a[0] is me and t.a[1] == "k":
            return c
        return None
    best, vague_ = None, False
    for a, pol in p.facts.items():
        if a.op not in ("lt", "le"):
            continue
        for i in (0, 1):
            x, b = a.a[i], fixed(a.a[1 - i])
            if b is None:
                continue
            c = count(x)
            if c is None:
                vague_ = vague_ or contains(x, lambda z: z.op in ("init", "attr") and z.a[0] is me and z.a[1] not in ("m", "dim", "subvector_dim"))
                continue
            up = (i == 0) == pol                   # an upper bound for x
            if up:
                strict = (a.op == "lt") == pol
                top = b - (1 if strict else 0) - c - 1        # largest code
                best = top if best is None else min(best, top)
    if best is None:
        if vague_:
            rep.unk("R34.range", con, "bound of the codes not understood")
        else:
            rep.bad("R34.range", con, "type", f"codes are stored in {n}, which is too small for more than {cap + 1} centroids", f, ln)
    else:
        rep.check("R34.range", con, best <= cap, "type", f"codes up to {best} are stored in {n}", f, ln)


# ------------------------------------------------------------------------------------------------ segmented
class Seg(Iters):
    no_inline = ("compute_distance",)


def saq(prog, rep):
    cls = prog.cls("SAQQuantizer")
    me = self_of(cls)
    con = "SAQQuantizer"

    def field(t, name):
        t = strip_ver(t)
        return t.op in ("init", "attr") and t.a[0] is me and t.a[1] == name

    def of(t, name):
        """name[J] -> J"""
        t = strip_ver(t)
        return strip_ver(t.a[1]) if t.op == "item" and field(t.a[0], name) else None

    def edge(t):
        """segment_boundaries[J][e] -> (J, e); (J, None) if a number is added to it"""
        t = bare(t)
        if t.op == "bin" and t.a[0] in "+-":
            x, y = (t.a[1], t.a[2]) if fixed(t.a[2]) is not None else (t.a[2], t.a[1])
            a = edge(x)
            return (a[0], None) if a is not None and fixed(y) else None
        if t.op == "item" and fixed(t.a[1]) is not None:
            j = of(t.a[0], "segment_boundaries")
            return (j, fixed(t.a[1])) if j is not None else None
        return None

    def segment(rep, c, lo, hi, j, e):
        a, b = edge(lo), edge(hi)
        if (a is None) != (b is None) and any(is_const(strip_ver(x)) for x in (lo, hi)):
            rep.bad("R34.segments", c, "edges", "a segment does not run from its start to its end", e.file, e.line)
        elif a is None or b is None:
            rep.unk("R34.segments", c, "segment not understood")
        elif (a[1], b[1]) != (0, 1):
            rep.bad("R34.segments", c, "edges", "a segment does not run from its start to its end", e.file, e.line)
        elif paired(a[0], j) and paired(b[0], j):
            rep.ok("R34.segments", c)
        elif fog(a[0]) or fog(b[0]) or fog(j) or not known(a[0], b[0], j):
            rep.unk("R34.segments", c, "segment not understood")
        else:
            rep.bad("R34.segments", c, "other", "the codebook of one segment is used for the dimensions of another", e.file, e.line)

    def paired(a, b):
        return a is b or a.op == b.op == "idx" and a.a[1:] == b.a[1:]

    def known(*ts):
        """numbers of segments that can be compared: one loop's counter, shifted or not"""
        roots = set()
        for t in ts:
            i = [z for z in walk(t) if z.op == "idx"]
            if len(i) > 1 or not i and not is_const(t):
                return False
            roots |= set(i[:1])
        return len({(r.a[1:]) for r in roots}) <= 1

    sc = None
    for m in ("quantize", "dequantize"):
        c = f"{con}.{m}"
        par = params(cls, m)[0]
        for p in rets(paths(prog, rep, cls, m)):
            f, ln = loc(p)
            for e in p.events:
                if e.kind == "call" and e.a[0].a[0] in (".quantize", ".dequantize") and e.a[2]:
                    j = of(e.a[2][0], "segment_quantizers")
                    z = strip_ver(e.a[2][0])
                    while z.op == "item" and strip_ver(z.a[0]).op == "item":
                        z = strip_ver(z.a[0])
                    z0 = strip_ver(z.a[0]) if z.op == "item" else z
                    if j is None and (z0.op == "call" and z0.a[0] == "reversed" and field(z0.a[1][0], "segment_quantizers")) and strip_ver(z.a[1]).op == "idx" and len(e.a[2]) > 1 and \
                            any(edge(lo) and paired(edge(lo)[0], strip_ver(z.a[1])) for lo, _ in pieces_of(strip_ver(e.a[2][1]), None)):
                        rep.bad("R34.segments", c, "other", "the codebook of one segment is used for the dimensions of another", e.file, e.line)
                        continue
                    if j is None or len(e.a[2]) < 2:
                        rep.unk("R34.segments", c, "codebook not understood")
                        continue
                    arg = strip_ver(e.a[2][1])
                    if e.a[0].a[0] == ".quantize":
                        ps = [(lo, hi) for lo, hi in pieces_of(arg, None)]
                        if not ps and bare(arg).op == "call" and tail(bare(arg).a[0]) in ("zeros", "empty"):
                            continue
                        if not ps:
                            rep.unk("R34.segments", c, "segment not understood")
                        for lo, hi in ps:
                            if edge(lo) or edge(hi):
                                segment(rep, c, lo, hi, j, e)
                    else:
                        k = codes_of(arg)
                        if k is None or k.op == "slicev":
                            continue
                        if paired(k, j):
                            rep.ok("R34.segments", c)
                        elif known(k, j) and not fog(k):
                            rep.bad("R34.segments", c, "code", "the code of one segment is looked up in the codebook of another", e.file, e.line)
                        else:
                            rep.unk("R34.segments", c, "code not understood")
                elif e.kind == "setitem":
                    k = strip_ver(e.a[1])
                    v = bare(e.a[2])
                    js = {of(x.a[1][0], "segment_quantizers") for x in walk(v) if x.op == "call" and x.a[0] in (".quantize", ".dequantize") and x.a[1]}
                    if v.op != "call" or v.a[0] not in (".quantize", ".dequantize") or None in js or not js:
                        continue
                    j = of(v.a[1][0], "segment_quantizers")
                    if k.op == "tuple" and len(k.a) == 2 and everything(k.a[0]) and strip_ver(k.a[1]).op == "slicev":
                        s = strip_ver(k.a[1])
                        segment(rep, c, s.a[0], s.a[1], j, e)
                    elif v.a[0] == ".quantize":
                        if k.op == "tuple" and len(k.a) == 2 and everything(k.a[0]):
                            k = strip_ver(k.a[1])
                        if paired(k, j):
                            rep.ok("R34.segments", c)
                        elif known(k, j) and not fog(k):
                            rep.bad("R34.segments", c, "code", "the code found for one segment is stored as that of another", e.file, e.line)
                        better(rep, c, p, e, v)
            if m == "quantize":
                v, t = bare(p.val), False
                while v.op == "attr" and v.a[1] == "T" or v.op == "call" and tail(v.a[0]) == "transpose" and len(v.a[1]) == 1:
                    v, t = bare(v.a[0] if v.op == "attr" else v.a[1][0]), not t
                n = tail(v.a[0]) if v.op == "call" else None
                if n == "stack" and v.a[1]:
                    ax = dict(v.a[2]).get("axis") or (v.a[1][1] if len(v.a[1]) > 1 else const(0))
                    n = {0: "vstack", 1: "column_stack", -1: "column_stack"}.get(fixed(ax))
                if n in ("vstack", "row_stack", "column_stack"):
                    rep.check("R34.segments", c, (n == "column_stack") != t, "layout", "the codes of a vector are not one row", f, ln)
                elif n not in ("zeros", "empty", "full"):
                    rep.unk("R34.segments", c, "codes not understood")
                xs = [x for e in p.events if e.kind == "call" and e.a[0].a[0] == ".quantize" for x in walk(strip_ver(e.a[2][1]))]
                if xs:
                    tr = [x for x in xs if x.op == "call" and x.a[0] in (".transform", ".fit_transform")]
                    if any(x.a[0] == ".fit_transform" for x in tr):
                        rep.bad("R34.scale", c, "refit", "the standardisation is learned anew from the vectors being coded", f, ln)
                    elif tr and all(field(x.a[1][0], "scaler") for x in tr):
                        rep.ok("R34.scale", c)
                    elif not tr and any(x is par for x in xs) and not any(x.op in ("unk", "phi") for x in xs):
                        rep.bad("R34.scale", c, "raw", "vectors are coded without the standardisation the codebooks were learned with", f, ln)
                    else:
                        rep.unk("R34.scale", c, "standardisation not understood")
            else:
                v = bare(p.val)
                if v.op == "call" and v.a[0] == ".inverse_transform" and field(v.a[1][0], "scaler"):
                    rep.ok("R34.scale", c)
                elif fog(v) or v.op not in ("call",) or tail(v.a[0]) not in ("zeros", "empty", "transform"):
                    rep.unk("R34.scale", c, "standardisation not understood")
                else:
                    rep.bad("R34.scale", c, "raw", "the standardisation is not undone", f, ln)
    # training
    c = con + ".train"
    import ast
    pol = Iters()
    # the segments themselves are taken as given
    pol.no_inline = ("quantize", *[n for n, fi in cls.methods.items() if n != "train" and any(isinstance(x, ast.Attribute) and x.attr == "segment_boundaries" and isinstance(x.ctx, ast.Store) for x in ast.walk(fi.node))])
    I = Interp(prog, pol)
    ps = rets(I.run_method(cls, cls.find("train")))
    rep.saw(I, ps)
    tv = params(cls, "train")[0]
    for p in ps:
        f, ln = loc(p)
        v = p.st.fields.get((me, "full_precision_vectors"))
        if v is not None:
            b = bare(v)
            if b is tv:
                rep.ok("R34.rescore", c)
            elif fog(b) or b.op not in ("slice", "param", "const", "call"):
                rep.unk("R34.rescore", c, "vectors kept for rescoring not understood")
            elif b.op == "slice" or contains(b, lambda z: z.op == "call" and z.a[0] in (".fit_transform", ".transform")):
                rep.bad("R34.rescore", c, "kept", f"the vectors kept for rescoring are {show(b)[:60]}, not those of the training", f, ln)
            else:
                rep.unk("R34.rescore", c, "vectors kept for rescoring not understood")
    fits = {}
    for p in ps:
        for e in p.events:
            if e.kind in ("call", "mut") and e.loops:
                name, args = (e.a[0].a[0], e.a[2][1:]) if e.kind == "call" else ("." + str(e.a[1].a[1]), e.a[2])
                if name in (".fit", ".fit_predict") and args:
                    fits.setdefault((e.file, e.line), []).append((strip_ver(args[0]), e))
            if e.kind == "linsert" and strip_ver(p.st.fields.get((me, "segment_quantizers"), NONE)) is strip_ver(e.a[0]):
                k = strip_ver(e.a[1])
                if fixed(k) is not None and fixed(k) >= 0:
                    rep.bad("R34.segments", c, "turned", "codebooks are kept in another order than the segments", e.file, e.line)
                else:
                    rep.unk("R34.segments", c, "order of codebooks not understood")
    for got in fits.values():
        for arg, e in got[:4]:
            for lo, hi in pieces_of(arg, None):
                a, b = edge(lo), edge(hi)
                if a is None or b is None:
                    rep.unk("R34.segments", c, "segment not understood")
                elif (a[1], b[1]) != (0, 1):
                    rep.bad("R34.segments", c, "edges", "a codebook is learned from other dimensions than those of its segment", e.file, e.line)
                else:
                    rep.ok("R34.segments", c)
    n = 0
    for lp in loops_of(I):
        its = [(it, grown(it, me)) for it in lp.its if it.kind in ("normal", "continue")]
        if not any(k for _, k in its):
            continue
        n += 1
        for it, k in its:
            if k is None:
                rep.unk("R34.segments", c, "list of codebooks not understood")
            else:
                rep.check("R34.segments", c, k == 1, "codebooks", f"{k} codebooks are kept for one segment", cls.module.path, it.node.lineno)
    if not n:
        rep.unk("R34.segments", c, "list of codebooks not understood")
    # the codebooks themselves
    k = 0
    for fi in cls.methods.values():
        for node in ast.walk(fi.node):
            if isinstance(node, ast.ClassDef):
                inner = ClassInfo(cls.module, node, prog)
                if inner.find("quantize") and inner.find("dequantize"):
                    k += 1
                    codebook(prog, rep, inner)
    if not k:
        rep.unk("R34.nearest", con, "codebooks not found")
    rescoring(prog, rep, cls, me, con)


def grown(it, me):
    """How many codebooks an iteration adds."""
    v = it.st.fields.get((me, "segment_quantizers"))
    v = strip_ver(v) if v is not None else None
    c = it.st.heap.get(v) if v is not None and v.op == "alloc" else None
    if c is None or c.kind != "list" or not outer_list(it, v):
        return 0 if c is not None else None
    new = added(it, v) or []
    if not any(e.tag == "prev" for e in c.entries):
        new = [e for e in c.entries if e.tag in ("one", "many") and e.loops and len(e.loops) == len(it.st.loops)]
    if any(e.tag not in ("one", "many") or len(e.loops) != len(it.st.loops) for e in new):
        return None
    return len(new)


def codes_of(t):
    """Number of the segment whose codes the term is."""
    t = strip_ver(t)
    while t.op == "call" and t.a[1] and t.a[0] in CAST and not column(t):
        t = strip_ver(t.a[1][0])
    c = column(t)
    if c:
        return c[1]
    return strip_ver(t.a[1]) if t.op == "item" else None


def better(rep, c, p, e, v):
    """A changed code is kept only if it lowers the error: the fact that decides is error(new) < error(old)."""
    def uses(t):
        return contains(t, lambda z: z is norm(v) or z is v)
    facts = [(a, pol) for a, pol in p.facts.items() if a.op in ("lt", "le") and (uses(a.a[0]) != uses(a.a[1])) and not any(fixed(x) is not None for x in a.a)]
    if not facts:
        if any(contains(a, uses) for a in e.facts) or fog(v):
            rep.unk("R34.segments", c, "test before a code is changed not understood")
        else:
            rep.bad("R34.segments", c, "untested", "a code is replaced without a test that this lowers the error", e.file, e.line)
        return
    for a, pol in facts:
        new_less = uses(a.a[0]) == pol
        rep.check("R34.segments", c, new_less, "worse", "a code is replaced by one that does not lower the error", e.file, e.line)


def codebook(prog, rep, inner):
    con = f"SAQQuantizer codebook"
    x = params(inner, "quantize")[0]
    me = self_of(inner)

    def C(t):
        return contains(t, lambda z: z.op in ("init", "attr") and z.a[0] is me)

    def X(t):
        return contains(t, lambda z: z is x) and not C(t)
    for p in rets(paths(prog, rep, inner, "quantize")):
        f, ln = loc(p)
        v = bare(p.val)
        if v.op == "call" and tail(v.a[0]) in ("zeros", "zeros_like"):
            continue
        nearest(rep, con, v, X, C, f, ln)
    y = params(inner, "dequantize")[0]
    for p in rets(paths(prog, rep, inner, "dequantize")):
        f, ln = loc(p)
        v = bare(p.val)
        if v.op == "call" and tail(v.a[0]) in ("zeros", "zeros_like"):
            continue
        if v.op == "item" and C(v.a[0]) and contains(v.a[1], lambda z: z is y):
            if bare(v.a[1]) is y:
                rep.ok("R34.nearest", con)
            else:
                k = Alg()(v.a[1])
                if k is not None and only(k, [y]):
                    rep.bad("R34.nearest", con, "decoded", f"the centroid looked up is number {show(v.a[1])[:40]}, not the code", f, ln)
                else:
                    rep.unk("R34.nearest", con, "decoding not understood")
        elif v.op == "call" and tail(v.a[0]) == "take" and len(v.a[1]) > 1 and bare(v.a[1][1]) is y:
            rep.ok("R34.nearest", con)
        else:
            rep.unk("R34.nearest", con, "decoding not understood")


def portions(rep, c, p, codes, f):
    """The codes are looked at portion by portion, without a gap."""
    from ..linear import add, lin
    from .batches import pure
    found = {norm(x): e.line for e in p.events if e.kind == "iter" for x in walk(e.a[0]) if x.op == "slice"}
    for t in p.st.heap.values():
        for en in t.entries:
            for y in [en.val] if en.val is not None else []:
                found.update({norm(x): getattr(en.node, "lineno", 0) for x in walk(y) if x.op == "slice" and norm(x) not in found})
    for s, line in found.items():
        if s.op != "slice" or norm(s.a[0]) is not norm(codes):
            continue
        lo, hi = norm(s.a[1]), norm(s.a[2])
        r = norm(lo.a[0]) if lo.op == "idx" else None
        if r is None or r.op != "call" or r.a[0] != "range" or len(r.a[1]) != 3:
            continue
        n = r.a[1][2]
        his = [norm(x) for x in hi.a[1]] if hi.op == "call" and hi.a[0] == "min" else [hi]
        if hi.op == "call" and hi.a[0] == "max":
            his = [norm(x) for x in hi.a[1]]
        gaps = [add(add(lin(x), lin(lo), -1), lin(n), -1) for x in his]
        ends = [add(lin(x), lin(norm(mk("call", "len", (codes,), (), 0))), -1) for x in his]
        if any(set(g) == {1} and g[1] < 0 for g in ends):
            rep.bad("R34.rescore", c, "last", "the last codes are never looked at", f, line)
            continue
        if any(not g for g in gaps):
            continue
        short = [g for g in gaps if pure(g) and set(g) == {1} and g[1] != 0]
        short += [1 for x in his if hi.op == "call" and hi.a[0] == "max" and x.op == "bin" and x.a[0] == "-" and is_const(x.a[2])]
        short += [1 for x in his if x.op == "bin" and x.a[0] in "+-" and is_const(norm(x.a[2])) and norm(x.a[1]).op == "call" and norm(x.a[1]).a[0] == "min"]
        if short or hi.op == "lin" and any(z.op == "call" and z.a[0] == "min" for z in walk(hi)):
            rep.bad("R34.rescore", c, "portion", "a portion of the codes does not end where the next one begins", f, line)


def rescoring(prog, rep, cls, me, con):
    """Positions and exact distances of the same candidates, nearest first."""
    c = con + ".search_with_rescoring"
    pol = P(no_inline=("compute_distance", "dequantize"))
    I = Interp(prog, pol)
    ps = rets(I.run_method(cls, cls.find("search_with_rescoring")))
    rep.saw(I, ps)
    q = params(cls, "search_with_rescoring")[0]
    k = mk("param", "top_k")
    full = lambda t: contains(t, lambda z: z.op in ("init", "attr") and z.a[0] is me and z.a[1] == "full_precision_vectors")
    done = set()
    for p in ps:
        f, ln = loc(p)
        v = strip_ver(p.val)
        reach, todo = {}, [v]
        while todo:
            for x in walk(todo.pop()):
                if x in p.st.heap and x not in reach:
                    reach[x] = tuple((en.tag, norm(en.val) if en.val is not None else None) for en in p.st.heap[x].entries)
                    todo += [en.val for en in p.st.heap[x].entries if en.val is not None]
        key = (norm(v), tuple(reach.items()))
        if v.op != "tuple" or len(v.a) != 2:
            rep.unk("R34.rescore", c, "answer not understood")
            continue
        if key in done:
            continue
        done.add(key)
        portions(rep, c, p, params(cls, "search_with_rescoring")[1], f)
        ids, ds = bare(v.a[0]), bare(v.a[1])
        over = [strip_ver(e.a[0]) for e in p.events if e.kind == "iter" and full(e.a[0]) and strip_ver(e.a[0]).op == "item"]
        if over and ds.op == "item" and not fog(mk("tuple", ids, ds, *over)):
            if norm(ids) is norm(bare(ds.a[1])):
                rep.bad("R34.rescore", c, "numbers", "what is answered are numbers among the candidates, not positions of vectors", f, ln)
                continue
            if ids.op == "slice" and norm(strip_ver(ids.a[0])) is norm(strip_ver(over[0].a[1])):
                rep.bad("R34.rescore", c, "order", "positions and distances are not in the same order", f, ln)
                continue
        if ids.op != "item" or ds.op != "item":
            rep.unk("R34.rescore", c, "answer not understood")
            continue
        cand, top = strip_ver(ids.a[0]), strip_ver(ids.a[1])
        dist, top2 = strip_ver(ds.a[0]), strip_ver(ds.a[1])
        if fog(mk("tuple", cand, top, dist, top2)):
            rep.unk("R34.rescore", c, "answer not understood")
            continue
        rep.check("R34.rescore", c, norm(top) is norm(top2), "order", "positions and distances are not in the same order", f, ln)

        def first_of(t):
            """argsort(D)[:n] -> (D, n, reversed)"""
            rev = False
            t = strip_ver(t)
            n = None
            while t.op == "slice":
                lo, hi, st = (strip_ver(x) if x is not None else NONE for x in t.a[1:4])
                if fixed(st) == -1:
                    rev = not rev
                if not (is_const(hi) and cval(hi) is None):
                    n = hi
                if not (is_const(lo) and cval(lo) is None):
                    n = lo
                    rev = None if rev is None else rev
                    return strip_ver(t.a[0]), lo, "last"
                t = strip_ver(t.a[0])
            if t.op == "call" and tail(t.a[0]) == "argsort" and t.a[1]:
                x = strip_ver(t.a[1][0])
                if x.op == "un" and x.a[0] in ("-", "neg"):
                    return strip_ver(x.a[1]), n, not rev
                return x, n, rev
            return None
        a, b = first_of(top), first_of(cand)
        if a is None or b is None:
            rep.unk("R34.rescore", c, "order not understood")
            continue
        for w, x in (("answered", a), ("rescored", b)):
            rep.check("R34.rescore", c, x[2] is False, "farthest " + w, f"the vectors {w} are not the nearest ones", f, ln)
        if a[1] is None:
            rep.bad("R34.rescore", c, "number", "not limited to top_k", f, ln)
        elif bare(a[1]) is not k and contains(a[1], lambda z: z is k) and not (bare(a[1]).op == "bin" and bare(a[1]).a[0] in "+-" and any(fixed(z) for z in bare(a[1]).a[1:])):
            rep.unk("R34.rescore", c, "number of answers not understood")
        elif bare(a[1]) is not k and not fog(a[1]):
            rep.bad("R34.rescore", c, "number", f"{show(a[1])[:30]} vectors are answered, not top_k", f, ln)
        if norm(a[0]) is not norm(dist) and norm(bare(a[0])) is not norm(bare(dist)):
            rep.bad("R34.rescore", c, "other distances", "the distances answered are not those the order was made from", f, ln)
        D = p.st.heap.get(bare(dist))
        if D is not None and D.kind == "list":
            for en in D.entries:
                if en.tag == "many" and en.loops:
                    cosine(rep, c, en.val, p, lambda t: contains(t, lambda z: z is q) and not full(t), full, "exact distance", f, ln)
        B = p.st.heap.get(bare(b[0]))
        if B is not None:
            for t in [en.val for en in B.entries if en.val is not None and en.tag != "prev"]:
                for y in [z for x in walk(t) for cc in [p.st.heap.get(x)] if cc is not None for en in cc.entries if en.val is not None for z in walk(en.val)] + list(walk(t)):
                    if y.op == "call" and y.a[0] == ".compute_distance" and len(y.a[1]) > 2:
                        every(rep, c, strip_ver(y.a[1][2]), f, ln)
        its = [e for e in p.events if e.kind == "iter" and full(e.a[0])]
        for e in its:
            b0 = strip_ver(e.a[0])
            if b0.op == "item" and norm(strip_ver(b0.a[1])) is not norm(cand) and not fog(b0.a[1]):
                rep.bad("R34.rescore", c, "candidates", "the vectors compared are not those whose positions are answered", e.file, e.line)


def every(rep, c, t, f, ln):
    """Codes compared in portions: table[lo:hi][j] with lo = 0, s, 2s, ... and hi = lo + s leaves none out"""
    qv = mk("param", "quantized_vectors")
    if t.op != "item":
        return
    b = strip_ver(t.a[0])
    if bare(b) is qv:
        rep.ok("R34.rescore", c)
        return
    if b.op != "slice" or bare(b.a[0]) is not qv:
        rep.unk("R34.rescore", c, "portions not understood")
        return
    lo, hi = strip_ver(b.a[1]), strip_ver(b.a[2])
    n = mk("len", qv)

    def total(z):
        z = bare(z)
        return z.op == "len" and bare(z.a[0]) is qv or z.op == "call" and z.a[0] == "len" and bare(z.a[1][0]) is qv or z.op == "item" and fixed(z.a[1]) == 0 and bare(z.a[0]).op == "attr" and bare(z.a[0]).a[1] == "shape"
    r = strip_ver(lo.a[0]) if lo.op == "idx" else None
    if r is None or r.op != "call" or r.a[0] != "range" or len(r.a[1]) != 3:
        rep.unk("R34.rescore", c, "portions not understood")
        return
    start, end, step = r.a[1]
    parts = [x for x in (hi.a if hi.op == "min" else hi.a[1]) if hasattr(x, "op")] if hi.op == "min" or hi.op == "call" and tail(hi.a[0]) in ("min", "minimum") else [hi]
    rest = [x for x in parts if not total(x)]
    x, y = Alg({lo: atom("I")})(rest[0]) if len(rest) == 1 else None, Alg()(step)
    if fixed(start) == 0 and total(end) and x is not None and y is not None and same(x, add(atom("I"), y)):
        rep.ok("R34.rescore", c)
    elif fixed(start) not in (0, None) or bare(end).op == "bin" and any(total(z) for z in bare(end).a[1:]) and any(fixed(z) for z in bare(end).a[1:]):
        rep.bad("R34.rescore", c, "left out", "some of the codes are not searched", f, ln)
    elif x is not None and y is not None and fixed(step) is not None and all(a == "I" for g in (x.n, x.d) for m in g for a, _ in m):
        rep.bad("R34.rescore", c, "left out", f"a portion runs to {show(rest[0])[:40]}, the next one starts {fixed(step)} after its start", f, ln)
    elif hi.op == "bin" and hi.a[0] in "+-" and fixed(hi.a[2]) and (strip_ver(hi.a[1]).op == "min" or strip_ver(hi.a[1]).op == "call" and tail(strip_ver(hi.a[1]).a[0]) == "min"):
        rep.bad("R34.rescore", c, "left out", "the last codes of a portion are not searched", f, ln)
    else:
        rep.unk("R34.rescore", c, "portions not understood")


def cosine(rep, con, t, p, X, C, what, f, ln, rule="R34.distance"):
    """t = 1 - x.c/(|x||c|), and 1 where one of the vectors is zero"""
    def swap(t):
        out = {}
        for z in walk(t):
            if z.op == "call" and tail(z.a[0]) in ("dot", "inner", "vdot") and len(z.a[1]) == 2 or z.op == "bin" and z.a[0] == "@":
                a, b = z.a[1:3] if z.op == "bin" else z.a[1]
                if X(a) and C(b) or X(b) and C(a):
                    out[z] = atom("DOT")
            elif z.op == "call" and tail(z.a[0]) == "norm" and z.a[1]:
                o = dict(z.a[2]).get("ord") or (z.a[1][1] if len(z.a[1]) > 1 else None)
                if o is None:
                    if X(z.a[1][0]) or C(z.a[1][0]):
                        out[z] = atom("NX" if X(z.a[1][0]) else "NC")
        return out
    if t is None or fog(t):
        rep.unk(rule, con, "distance not understood")
        return
    t = bare(t)
    zero = [pol for a, pol in p.facts.items() if a.op == "eq" and any(fixed(z) == 0 for z in a.a) and any(strip_ver(z).op == "call" and tail(strip_ver(z).a[0]) in ("norm", "dot") for z in a.a)]
    if fixed(t) is not None:
        if fixed(t) == 1 and any(zero):
            rep.ok(rule, con)
        elif fixed(t) != 1:
            rep.bad(rule, con, "zero", f"the {what} to or from a zero vector is {fixed(t)}, not 1", f, ln)
        else:
            rep.unk(rule, con, "distance not understood")
        return
    got = Alg(swap(t))(t)
    if got is None or not all(a in ("DOT", "NX", "NC") for g in (got.n, got.d) for m in g for a, _ in m):
        rep.unk(rule, con, "distance not understood")
        return
    rep.check(rule, con, same(got, add(ONE, mul(atom("DOT"), inv(mul(atom("NX"), atom("NC")))), -1)), "formula", f"the {what} is {show(t)[:100]}, not one minus the cosine", f, ln)


def distances(prog, rep):
    """The distance of a code is that of the vector it decodes to."""
    for n in ("ScalarQuantizer", "SAQQuantizer"):
        cls = prog.cls(n)
        a, b = params(cls, "compute_distance")[:2]
        con = n + ".compute_distance"
        pol = P(no_inline=("dequantize",))
        I = Interp(prog, pol)
        ps = rets(I.run_method(cls, cls.find("compute_distance")))
        rep.saw(I, ps)
        for p in ps:
            f, ln = loc(p)
            Y = lambda t: contains(t, lambda z: z.op == "call" and z.a[0] == ".dequantize")
            raw = [z for z in walk(p.val) if z is b] and not Y(p.val)
            if raw:
                rep.bad("R34.distance", con, "codes", "the codes themselves are compared with the query", f, ln)
                continue
            for z in walk(p.val):
                if z.op == "call" and z.a[0] == ".dequantize" and not contains(z, lambda y: y is b):
                    rep.unk("R34.distance", con, "what is decoded is not understood")
            cosine(rep, con, p.val, p, lambda t: contains(t, lambda z: z is a) and not Y(t), Y, "distance", f, ln)
    cls = prog.cls("ProductQuantizer")
    a, b = params(cls, "compute_distance")[:2]
    con = "ProductQuantizer.compute_distance"
    C = lambda t: contains(t, lambda z: z.op in ("init", "attr") and z.a[1] == "centroids")
    X = lambda t: contains(t, lambda z: z is a) and not C(t)
    done = set()
    for p in rets(paths(prog, rep, cls, "compute_distance")):
        f, ln = loc(p)
        for e in p.events:
            for t in e.a:
                for z in walk(t) if hasattr(t, "op") else ():
                    if z.op == "call" and tail(z.a[0]) in ("sum", "dot", "norm", "einsum") and z.a[1] and C(z) and contains(z, lambda y: y is a) and norm(z) not in done:
                        done.add(norm(z))
                        d = dist2(z, X, C)
                        if d is None:
                            rep.unk("R34.distance", con, "distance not understood")
                        elif tail(z.a[0]) == "norm":
                            rep.unk("R34.distance", con, "distance not understood")
                        else:
                            rep.check("R34.distance", con, isinstance(d, dict) and d.get("XX") == d.get("CC") == 1 and d.get("XC") == -2, "formula", f"the distance of a sub-vector is {show(z)[:80]}, not the Euclidean one", f, ln)


def width(prog, rep):
    """Vectors of another dimension than the trained one are refused."""
    for n in ("ScalarQuantizer", "ProductQuantizer", "SAQQuantizer"):
        cls = prog.cls(n)
        me = self_of(cls)
        q = params(cls, "quantize")[0]
        con = n + ".quantize"
        for p in rets(paths(prog, rep, cls, "quantize")):
            f, ln = loc(p)
            seen = False
            for a, pol in p.facts.items():
                if a.op in ("eq", "ne") and contains(a, lambda z: z is q) and contains(a, lambda z: z.op in ("init", "attr") and z.a[0] is me and z.a[1] == "dim" or z.op in ("init", "attr") and z.a[0] is me and z.a[1] in ("min_values", "scale", "max_values")):
                    seen = seen or pol == (a.op == "eq")
            if any(e.kind == "call" and e.a[0].a[0] == ".transform" and len(e.a[2]) > 1 and strip_ver(e.a[2][0]).op in ("init", "attr") and contains(e.a[2][1], lambda z: z is q) for e in p.events):
                seen = True              # the scaler refuses another number of features
            if seen:
                rep.ok("R34.width", con)
            elif any(a.op in ("eq", "in") and pol and contains(a, lambda z: z is q) and contains(a, lambda z: z.op == "attr" and z.a[1] == "shape") for a, pol in p.facts.items()) or fog(p.val):
                rep.unk("R34.width", con, "test of the dimension not understood")
            else:
                rep.bad("R34.width", con, "accepted", "vectors of another dimension than the trained one are coded", f, ln)


def c34(prog, rep):
    rep.rule("R34.round", "a component gets the nearest level", 1)
    rep.rule("R34.range", "codes stay between 0 and the last one and fit the integer type they are stored in", 2)
    rep.rule("R34.levels", "the smallest and largest training values are the first and the last level", 1)
    rep.rule("R34.inverse", "decoding is the inverse of coding, with the same learned values", 1)
    rep.rule("R34.parts", "sub-vector i, column i and codebook i belong together in training, coding, decoding and distance", 4)
    rep.rule("R34.nearest", "the code is the number of the nearest centroid, and this centroid is what it decodes to", 2)
    rep.rule("R34.segments", "each segment is coded and decoded with its own codebook at its own dimensions", 3)
    rep.rule("R34.scale", "the standardisation learned in training is applied when coding and undone when decoding", 2)
    rep.rule("R34.rescore", "rescoring answers positions and exact distances of the same vectors, nearest first", 2)
    rep.rule("R34.distance", "the distance of a code is that of the vector it decodes to", 2)
    rep.rule("R34.width", "vectors of another dimension than the trained one are refused", 3)
    scalar(prog, rep)
    product_q(prog, rep)
    saq(prog, rep)
    width(prog, rep)
    distances(prog, rep)


CHECKS = {"C34": c34}
