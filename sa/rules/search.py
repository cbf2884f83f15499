"""C17: what a search answers."""
from ..alias import Aliases
from ..common import *
from ..common import ClassInfo, walk
from ..terms import contains
from ..interp import Entry
from .contract import id_containers
from .index import (K, QUERY, backed, bounds_ok, indices, is_len, owner_field, scalls, slot_live, slot_lists, touches, vec_copies, filled_by_search)
from .storage import fact, has, rets

DESC = ("LSHIndex", "AnnoyIndex")        # larger is better: these answer similarities
EXACT = ("FlatIndex",)
THRESHOLD = ("LSHIndex",)                # leaves out what is less similar than the threshold


def bare(t):
    """Drop conversions that keep the value."""
    t = strip_ver(t)
    while t.op == "call" and t.a[0] in ("float", "round", "numpy.float64", "numpy.float32", ".item", "int", "str") and t.a[1]:
        t = strip_ver(t.a[1][0])
    return t


def unknown(t):
    return contains(t, lambda x: x.op in ("unk", "phi", "next"))


def cont(t, p):
    t = strip_ver(t)
    return p.st.heap.get(t) if t.op == "alloc" else None


def records(p):
    """(record dict container, entry) of every element of the answer; None when the answer is not tracked."""
    c = cont(p.val, p)
    if c is None:
        v = strip_ver(p.val)
        if v.op == "slice":
            c = cont(v.a[0], p)
            v = strip_ver(v.a[0])
        if c is None and v.op == "comp":
            return kept(v, p)
        if c is None:
            return None
    out = []
    for e in c.entries:
        if e.tag == "prev":
            continue
        if e.tag == "rest":
            return None
        d = cont(e.val, p)
        if d is None or d.kind != "dict":
            return None
        r = {}
        for x in d.entries:
            if x.key is not None and is_const(x.key):
                r[cval(x.key)] = x.val
        out.append((r, e))
    return out


def kept(v, p):
    """Records of a list filtered by a comprehension."""
    out = []
    base = cont(v.a[1], p)
    for conds, val in v.a[2]:
        d = cont(val, p)
        if d is None or d.kind != "dict":
            return None
        r = {x.key and cval(x.key): x.val for x in d.entries if x.key is not None and is_const(x.key)}
        src = [e for e in (base.entries if base else ()) if e.val is not None and strip_ver(e.val) is strip_ver(val)]
        facts = dict(src[0].facts or {}) if src else {}
        facts.update(dict(conds))
        out.append((r, Entry("many", None, val, facts, src[0].node if src else None, src[0].loops if src else ())))
    return out


def meta_sources(t, p, depth=0):
    """Where a metadata value comes from: ('rec', id) = second part of a retrieved record, ('slot', F, id) = self.F[id]."""
    t = strip_ver(t)
    if depth > 4:
        return [("?", t)]
    if t is NONE:
        return []
    if t.op == "item" and is_const(t.a[1]) and cval(t.a[1]) in (1, -1) and strip_ver(t.a[0]).op == "call" and strip_ver(t.a[0]).a[0] == ".retrieve_vector":
        a = strip_ver(t.a[0]).a[1]
        return [("rec", a[1])] if len(a) > 1 else [("?", t)]
    if t.op == "item" and is_const(t.a[1]) and cval(t.a[1]) == 0 and strip_ver(t.a[0]).op == "call" and strip_ver(t.a[0]).a[0] == ".retrieve_vector":
        return [("vec", t)]
    if t.op == "call" and t.a[0] in ("dict", ".copy", "copy.copy", "copy.deepcopy") and t.a[1]:
        return meta_sources(t.a[1][0], p, depth + 1)
    if t.op in ("item", "get") and strip_ver(t.a[0]).op == "init":
        return [("slot", strip_ver(t.a[0]).a[1], t.a[1])]
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is None:
            return [("?", t)]
        out = []
        for e in c.entries:
            if e.val is not None and e.tag in ("rest", "many", "one", "prev") and e.key is None:
                out += meta_sources(e.val, p, depth + 1)
        if isinstance(c.src, tuple) and c.src[0] == "copy" and hasattr(c.src[1], "op"):
            out += meta_sources(c.src[1], p, depth + 1)
        return out
    return [("?", t)]


def vector_ids_of(t, me, V):
    """Ids of the stored vectors a term is computed from."""
    out = []
    for x in walk(t):
        if x.op in ("item", "get") and len(x.a) > 1:
            b = strip_ver(x.a[0])
            if b.op == "init" and b.a[0] is me and b.a[1] in V:
                out.append(x.a[1])
            elif b.op == "call" and b.a[0] == ".retrieve_vector" and is_const(x.a[1]) and cval(x.a[1]) == 0 and len(b.a[1]) > 1:
                out.append(b.a[1][1])
    return out


def same_id(a, b):
    return norm(strip_ver(a)) is norm(strip_ver(b))


def zero_norm(e, p):
    """The record was built where a vector has length zero (the distance is a constant by definition)."""
    def z(a, v):
        return a.op == "eq" and v and any(is_const(x) and cval(x) == 0 for x in a.a if hasattr(x, "op")) and contains(a, lambda x: x.op == "call" and x.a[0].endswith("norm")) or \
            (a.op in ("lt", "le") and contains(a, lambda x: x.op == "call" and x.a[0].endswith("norm"))) or \
            (a.op == "truthy" and not v and contains(a, lambda x: x.op == "call" and x.a[0].endswith("norm")))
    return any(z(a, v) for src in (p.facts, e.facts or {}) for a, v in dict(src).items())


def linear(t):
    """(sign, core) of t as an increasing / decreasing function of core; monotone wrappers of a single non-negative argument are peeled."""
    t = bare(t)
    if t.op == "bin":
        o, a, b = t.a[0], t.a[1], t.a[2]
        if o == "-" and is_const(a):
            s, c = linear(b)
            return -s, c
        if o in ("-", "+") and is_const(b):
            return linear(a)
        if o == "+" and is_const(a):
            return linear(b)
        if o in ("*", "/") and is_const(b) and isinstance(cval(b), (int, float)) and cval(b) != 0:
            s, c = linear(a)
            return (s if cval(b) > 0 else -s), c
        if o == "*" and is_const(a) and isinstance(cval(a), (int, float)) and cval(a) != 0:
            s, c = linear(b)
            return (s if cval(a) > 0 else -s), c
    if t.op in ("neg", "unary") or t.op == "un" and t.a[0] == "-":
        s, c = linear(t.a[-1])
        return -s, c
    if t.op == "call" and t.a[0] in ("numpy.sqrt", "math.sqrt", "numpy.asarray", "numpy.array", "numpy.ravel", ".ravel", ".flatten") and t.a[1]:
        return linear(t.a[1][0])
    if t.op == "call" and t.a[0] == "numpy.negative" and t.a[1]:
        s, c = linear(t.a[1][0])
        return -s, c
    if t.op in ("item",):
        s, c = linear(t.a[0])
        return s, (mk("item", c, t.a[1]) if c is not t.a[0] else t)
    return 1, t


def polarity(t, p, depth=0):
    """+1: grows with the distance from the query; -1: grows with the similarity; None: unknown."""
    t = bare(t)
    if depth > 8:
        return None
    sg, t = linear(t)
    t = bare(t)
    r = None
    if t.op == "item":
        r = polarity(t.a[0], p, depth + 1)
    elif t.op == "call":
        n = t.a[0].rsplit(".", 1)[-1]
        if n in ("euclidean_distances", "manhattan_distances", "cosine_distances", "cdist"):
            r = 1
        elif n == "cosine_similarity":
            r = -1
        elif n == "norm" and t.a[1] and strip_ver(t.a[1][0]).op == "bin" and strip_ver(t.a[1][0]).a[0] == "-" and has(t, QUERY):
            r = 1
        elif n == "sum" and t.a[1] and contains(t.a[1][0], lambda x: x.op == "bin" and x.a[0] == "-" and has(x, QUERY)) and contains(t.a[1][0], lambda x: x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("abs", "square", "absolute") or x.op == "bin" and x.a[0] == "**"):
            r = 1
        elif n in ("dot", "inner", "vdot") and has(t, QUERY):
            r = -1
    elif t.op == "bin":
        o, a, b = t.a[0], strip_ver(t.a[1]), strip_ver(t.a[2])
        if o == "/" and is_const(a) and isinstance(cval(a), (int, float)) and cval(a) > 0:
            r = polarity(b, p, depth + 1)
            r = -r if r else None
        elif o == "/":
            r = polarity(a, p, depth + 1)
        elif o == "@" and has(t, QUERY):
            r = -1
    return sg * r if r else None


def arrays(t):
    """The array a per-position distance is read from: (array term, position) or None."""
    t = strip_ver(t)
    for x in walk(t):
        if x.op == "item" and strip_ver(x.a[0]).op not in ("init",) and x.a[1].op in ("item", "idx", "call"):
            return x.a[0], x.a[1]
    return None


# ------------------------------------------------------------------ order and limit of the answer
class Ord:
    def __init__(self):
        self.limits = []
        self.dir = None      # +1 ascending by key, -1 descending, None unknown
        self.key = None      # ('terms', order) | ('array', D) | ('library',)
        self.loops = 1
        self.unk = None
        self.early = None    # cut made before sorting


def sorted_before(t, p):
    c = cont(t, p)
    return c is None or c.order is not None or not c.entries


def turned(root, p):
    """Is the sequence gone through from its end? (None: not tracked)"""
    out = set()
    for e in p.events:
        if e.kind == "iter" and strip_ver(e.a[0]) is strip_ver(root):
            x, r = strip_ver(e.a[1]), False
            while x.op == "call" and x.a[0] in ("enumerate", "list", "tuple", "iter", "reversed", "zip") and x.a[1]:
                r ^= x.a[0] == "reversed"
                x = strip_ver(x.a[1][0])
            if x.op == "call" and x.a[0] in ("set", "frozenset", "sorted"):
                return None
            out.add(r)
    return None if len(out) > 1 else next(iter(out), False)


def trace(t, p, o, depth=0):
    """Follow a sequence back to where it was ordered and cut."""
    t = strip_ver(t)
    if depth > 8:
        o.unk = "too deep"
        return o
    if t.op == "slice":
        lo, hi, step = t.a[1], t.a[2], t.a[3]
        if step is not NONE and is_const(step) and cval(step) == -1 and lo is NONE and hi is NONE:
            trace(t.a[0], p, o, depth + 1)
            if o.dir:
                o.dir = -o.dir
            return o
        if lo is not NONE and not (is_const(lo) and cval(lo) == 0):
            o.limits.append(("from", lo))
        if hi is not NONE:
            o.limits.append(("to", hi))
        return trace(t.a[0], p, o, depth + 1)
    if t.op == "call" and t.a[0] in ("numpy.argsort",) and t.a[1]:
        o.dir, o.key = 1, ("array", t.a[1][0])
        return o
    if t.op == "call" and t.a[0] == ".argsort" and t.a[1]:
        o.dir, o.key = 1, ("array", t.a[1][0])
        return o
    if t.op == "call" and t.a[0] in ("numpy.argpartition", ".argpartition"):
        o.dir, o.key = 0, ("partition",)
        return o
    if t.op == "call" and t.a[0] in ("list", "tuple", "iter", "enumerate", "zip", ".tolist") and t.a[1]:
        return trace(t.a[1][0], p, o, depth + 1)
    if t.op == "call" and t.a[0] == "reversed" and t.a[1]:
        trace(t.a[1][0], p, o, depth + 1)
        if o.dir:
            o.dir = -o.dir
        return o
    if t.op == "item" and contains(t, lambda x: x.op == "call" and x.a[0].startswith(".get_nns_by")):
        c = [x for x in walk(t) if x.op == "call" and x.a[0].startswith(".get_nns_by")][0]
        o.dir, o.key = 1, ("library",)
        if len(c.a[1]) > 2:
            o.limits.append(("to", c.a[1][2]))
        return o
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is None:
            o.unk = "untracked container"
            return o
        for x in c.limit:
            o.limits.append(("to", x))
        if isinstance(c.src, tuple) and c.src[0] == "slice":
            lo = c.src[2] if len(c.src) > 2 else NONE
            if hasattr(lo, "op") and lo is not NONE and not (is_const(lo) and cval(lo) == 0):
                o.limits.append(("from", lo))
        if c.order is not None:
            if isinstance(c.src, tuple) and c.src[0] == "sorted" and len(c.src) > 3 and not c.src[3]:
                b2 = p.st.heap.get(c.src[1]) if hasattr(c.src[1], "op") else None
                cut = c.src[2] if isinstance(c.src[2], tuple) and c.src[2] and c.src[2][0] == "slice" else None
                if cut is not None and not sorted_before(cut[1], p):
                    o.early = cut
            rev = c.order[1] if isinstance(c.order, tuple) and len(c.order) > 1 else False
            o.key = ("terms", c.order[0])
            o.dir = -1 if rev else 1
            if rev not in (True, False):
                o.unk = "sort direction not tracked"
            return o
        loops = {tuple(l[0] if isinstance(l, tuple) else l for l in (e.loops or ())) for e in c.entries if e.tag == "many"}
        if isinstance(c.src, tuple) and c.src[0] in ("slice", "copy") and loops and hasattr(c.src[1], "op") and c.src[1].op == "alloc" and c.src[1] in p.st.heap and c.src[1] is not t:
            trace(c.src[1], p, o, depth + 1)
            if c.src[0] == "slice" and len(c.src) > 4 and hasattr(c.src[4], "op") and is_const(c.src[4]) and cval(c.src[4]) == -1 and o.dir:
                o.dir = -o.dir
            return o
        if isinstance(c.src, tuple) and c.src[0] in ("comp", "slice", "copy", "reversed") and not loops and hasattr(c.src[1], "op"):
            return trace(c.src[1], p, o, depth + 1)
        if any(e.tag == "rest" for e in c.entries):
            rs = [e for e in c.entries if e.tag == "rest"]
            if len(rs) == 1 and len([e for e in c.entries if e.tag != "prev"]) == 1:
                return trace(rs[0].val, p, o, depth + 1)
        if not c.entries:
            o.unk = "empty"
            return o
        if len(loops) == 1:
            ls = next(iter(loops))
            if len(ls) == 1:
                how = turned(ls[0], p)
                rev = sum(1 for e in p.events if e.kind == "lrev" and strip_ver(e.a[0]) is t) % 2 == 1
                front = rev ^ any(e.kind == "linsert" and strip_ver(e.a[0]) is t for e in p.events) or any(e.kind == "mut" and strip_ver(e.a[0]) is t and cval(e.a[1]) in ("insert", "appendleft") for e in p.events)
                if how is None:
                    o.unk = "order of the loop not tracked"
                    return o
                trace(ls[0], p, o, depth + 1)
                if how != front and o.dir:
                    o.dir = -o.dir
                return o
            o.dir, o.key, o.loops = 0, ("nested",), len(ls)
            return o
        o.unk = "several loops"
        return o
    if t.op == "init" or (t.op in ("item", "get") and is_rooted(t)):
        o.dir, o.key = 0, ("stored",)
        return o
    o.unk = "not tracked"
    return o


def is_rooted(t):
    r = base_root(t)
    return r.op in ("init", "self", "param")


def is_k(t, p, me=None, H=()):
    """t is k, or the smaller of k and the number of vectors (H: own containers that hold every vector)."""
    t = bare(t)
    if t is K:
        return True
    if t.op == "call" and t.a[0] in ("min", "numpy.minimum"):
        args = [bare(x) for x in t.a[1]]
        if not any(is_k(x, p, me, H) is True for x in args):
            return None if any(is_k(x, p, me, H) is None for x in args) else False
        for x in args:
            if is_k(x, p, me, H) is True or x.op == "attr":
                continue
            L = strip_ver(x.a[0]) if x.op == "len" else strip_ver(x.a[1][0]) if x.op == "call" and x.a[0] == "len" and x.a[1] else None
            if L is None:
                return None if not is_const(x) else False
            if me is not None and L.op == "init" and L.a[0] is me and L.a[1] not in H:
                return False          # fewer than k although more are held
        return True
    if t.op == "call" and t.a[0] in ("max", "numpy.maximum"):
        args = [bare(x) for x in t.a[1]]
        rest = [x for x in args if is_k(x, p, me, H) is not True]
        if len(rest) < len(args) and any(is_const(x) and isinstance(cval(x), (int, float)) and cval(x) > 1 or x.op == "init" and me is not None and x.a[0] is me for x in rest):
            return False
        return True if all(is_const(x) for x in rest) and len(rest) < len(args) else None
    if t.op == "ite" or t.op == "len" or (t.op == "call" and t.a[0] == "len"):
        return None
    return False


# ------------------------------------------------------------------ distinct ids
def distinct(t, p, prog, rep, cls, depth=0):
    """True: no element occurs twice; False: the same id can be put in twice; None: not tracked."""
    t = strip_ver(t)
    me = self_of(cls)
    if depth > 8:
        return None
    if t.op == "slice":
        return distinct(t.a[0], p, prog, rep, cls, depth + 1)
    if t.op == "call" and t.a[0] in ("numpy.argsort", ".argsort", "range", "set", ".keys", ".items", "frozenset", "numpy.unique", "dict.fromkeys"):
        return True
    if t.op == "call" and t.a[0] in ("list", "tuple", "sorted", "enumerate", "zip", "reversed", "iter") and t.a[1]:
        return distinct(t.a[1][0], p, prog, rep, cls, depth + 1)
    if t.op == "item" and contains(t, lambda x: x.op == "call" and x.a[0].startswith(".get_nns_by")):
        return True
    if t.op == "init":
        return True
    if t.op in ("item", "get") and owner_field(t, me):
        return True           # one bucket / one neighbour list
    if t.op != "alloc":
        return None
    c = p.st.heap.get(t)
    if c is None:
        return None
    if t.a[0] in ("set", "dict") or c.kind in ("set", "dict"):
        return True
    if isinstance(c.src, tuple) and c.src[0] in ("items", "keys"):
        return True
    if isinstance(c.src, tuple) and c.src[0] in ("slice", "sorted", "copy", "reversed") and hasattr(c.src[1], "op") and c.src[1] is not t:
        return distinct(c.src[1], p, prog, rep, cls, depth + 1)
    es = [e for e in c.entries if e.tag not in ("prev",)]
    if not es:
        return None
    if any(a.op == "in" and v is False and hasattr(a.a[1], "op") and contains(a.a[1], lambda x: x.op == "alloc") for e in es for a, v in dict(e.facts or {}).items()):
        return True
    for e in es:
        ls = [l[0] if isinstance(l, tuple) else l for l in (e.loops or ())]
        src = None
        if e.tag == "rest":
            src = e.val if ls else None
        elif len(ls) > 1:
            src = ls[-1]
        if src is None:
            continue
        F = owner_field(src, me)
        if F is None:
            return None
        if not partition(prog, rep, cls, F):
            return False
    if any(unknown(e.val) for e in es if e.val is not None) or any(e.tag == "rest" for e in es):
        return None
    if len(es) > 1:
        # something already in the list, plus elements of a stored container that lists the same id elsewhere
        for e in es:
            ls = [l[0] if isinstance(l, tuple) else l for l in (e.loops or ())]
            F = owner_field(ls[-1], me) if ls else None
            if F and strip_ver(ls[-1]).op != "init" and not partition(prog, rep, cls, F):
                return False
        return None
    if es[0].loops and len(es[0].loops) == 1:
        l = es[0].loops[0]
        l = strip_ver(l[0] if isinstance(l, tuple) else l)
        for ev in p.events:
            # the loop ran over a local container filled from l
            if ev.kind == "iter" and strip_ver(ev.a[0]) is l and len(ev.a) > 1 and ev.a[1].op == "alloc" and ev.a[1] is not l:
                l = ev.a[1]
                break
        return distinct(l, p, prog, rep, cls, depth + 1)
    return True


_part = {}


def partition(prog, rep, cls, F):
    """Insertion puts an id in exactly one part of F (no further loop around the append)."""
    k = (id(prog), cls.qual, F)
    if k not in _part:
        me = self_of(cls)
        ok = True
        V = set() if backed(prog, rep, cls) else set(slot_lists(prog, rep, cls)[0])
        for p in rets(paths(prog, rep, cls, "insert")):
            ss = scalls(p, "store_vector") or [e for e in p.events if e.kind == "mut" and cval(e.a[1]) in ("append", "extend") and strip_ver(e.a[0]).op == "init" and owner_field(e.a[0], me) in V]
            base = min([len(x.loops) for x in ss] or [1])
            for e in p.events:
                if e.kind == "mut" and cval(e.a[1]) in ("append", "add", "insert") and owner_field(e.a[0], me) == F and strip_ver(e.a[0]).op != "init" and len(e.loops) > base:
                    ok = False
        _part[k] = ok
    return _part[k]


# ------------------------------------------------------------------ C17
def c17(prog, rep):
    """On every path through search of each index, for the arbitrary record of the answer: id, distance and metadata belong to the same
    stored vector, the answer is ordered best first and cut at k, ids are distinct and not removed; the exact index considers every id."""
    rep.rule("R17.record", "id, distance and metadata of an answer record belong to the same stored vector", 5)
    rep.rule("R17.order", "the answer is ordered best first", 5)
    rep.rule("R17.limit", "the answer is cut at k (and only there)", 5)
    rep.rule("R17.distinct", "no vector is answered twice", 4)
    rep.rule("R17.live", "a removed vector is not answered", 2)
    rep.rule("R17.filter", "no candidate is left out for its distance, except below the LSH threshold in force", 3)
    rep.rule("R17.probe", "a cut on the way to the answer keeps the nearest candidates", 2)
    rep.rule("R17.all", "the exact index compares the query with every vector it holds", 1)
    for cls, b in indices(prog, rep):
        n = cname(cls)
        me = self_of(cls)
        con = f"{n}.search"
        V = vec_copies(prog, rep, cls) | filled_by_search(prog, rep, cls) if b else set(slot_lists(prog, rep, cls)[0])
        M = set() if b else set(slot_lists(prog, rep, cls)[1])
        H = (id_containers(prog, rep, cls, "index") | {x for x in slot_lists(prog, rep, cls)[0]}) if not b else id_containers(prog, rep, cls, "index")
        ps = rets(paths(prog, rep, cls, "search"))
        decided = {"record": 0, "order": 0, "limit": 0, "distinct": 0}
        for p in ps:
            f, ln = loc(p)
            rs = records(p)
            if rs is None:
                for r in ("R17.record", "R17.filter") + (() if b else ("R17.live",)):
                    rep.unk(r, con, f"answer not tracked ({show(p.val)[:60]})")
                continue
            if not rs:
                continue
            for r, e in rs:
                en = (getattr(e.node, "lineno", ln))
                if set(r) < {"id", "distance", "metadata"}:
                    rep.bad("R17.record", con, "shape", f"an answer record has only {sorted(r)}", f, en)
                    continue
                decided["record"] += record(prog, rep, cls, p, r, e, V, M, b, con, f, en)
                filters(rep, n, con, p, r, e, me, f, en)
                if not b:
                    facts = dict(e.facts or {})
                    rep.check("R17.live", con, slot_live(facts, r["id"], me, V) or unknown(r["id"]), "removed", "a removed vector can be answered", f, en)
            o = trace(p.val, p, Ord())
            decided["order"] += order(rep, n, con, p, rs, o, f, ln)
            decided["limit"] += limit(rep, n, con, p, o, f, ln, me, H)
            d = distinct(p.val, p, prog, rep, cls)
            if d is None:
                pass
            else:
                decided["distinct"] += 1
                rep.check("R17.distinct", con, d, "twice", "the same vector can be answered twice", f, ln)
        for r, k in decided.items():
            if not k and ps:
                rep.unk(f"R17.{r}", con, "not decided on any path")
        for p in ps:
            pools(rep, n, con, p, me, V, p.val)
            breaks(rep, con, p)
        if n in EXACT:
            exhaustive(prog, rep, cls, ps, con)


def record(prog, rep, cls, p, r, e, V, M, b, con, f, ln):
    me = self_of(cls)
    x, d, m = strip_ver(r["id"]), r["distance"], r["metadata"]
    bx = bare(x)
    if unknown(x):
        return 0
    ms = meta_sources(m, p)
    done = 1
    for s in ms:
        if s[0] == "rec":
            rep.check("R17.record", con, same_id(bare(s[1]), bx), "metadata", f"the metadata belongs to {show(s[1])[:60]}, the id is {show(x)[:60]}", f, ln)
        elif s[0] == "slot":
            if s[1] in M:
                rep.check("R17.record", con, same_id(bare(s[2]), bx), "metadata", f"the metadata of slot {show(s[2])[:60]} is answered for id {show(x)[:60]}", f, ln)
            elif s[1] in V:
                rep.bad("R17.record", con, "metadata", "the vector is answered in place of the metadata", f, ln)
        elif s[0] == "vec":
            rep.bad("R17.record", con, "metadata", "the vector is answered in place of the metadata", f, ln)
        else:
            done = 0
    if b and not ms and is_const(m) and m is not NONE or (not ms and strip_ver(m).op == "alloc" and not (cont(m, p) and cont(m, p).src)) or m is NONE:
        rep.bad("R17.record", con, "no-metadata", "the metadata of the vector is not answered", f, ln)
    if unknown(d):
        return 0
    # distance
    bd = bare(d)
    pol = polarity(bd, p)
    if pol and cname(cls) != "AnnoyIndex":
        want = -1 if cname(cls) in DESC else 1
        rep.check("R17.record", con, pol == want, "convention", "a similarity is answered as the distance" if want == 1 else "a distance is answered as the similarity", f, ln)
    if is_const(bd):
        rep.check("R17.record", con, zero_norm(e, p), "constant", f"the distance is always {cval(bd)}", f, ln)
        return done
    if x.op == "item" and is_const(x.a[1]) and bd.op == "item" and strip_ver(bd.a[0]) is strip_ver(x.a[0]) and is_const(bd.a[1]):
        return done            # both taken from one (id, distance) pair; the pair itself is checked where it is built
    ids = vector_ids_of(bd, me, V)
    if ids:
        bad = [i for i in ids if not same_id(bare(i), bx)]
        unkn = [i for i in bad if unknown(i)]
        if unkn:
            return 0
        rep.check("R17.record", con, not bad, "distance", f"the distance is that of {show(bad[0])[:60] if bad else ''}, the id is {show(x)[:60]}", f, ln)
        rep.check("R17.record", con, has(bd, QUERY), "query", "the distance does not involve the query", f, ln)
        return done
    # positional: ids[J] with array[J]
    if x.op == "item":
        J = x.a[1]
        ar = [y for y in walk(bd) if y.op == "item" and norm(strip_ver(y.a[1])) is norm(strip_ver(J)) and y is not x]
        L = strip_ver(x.a[0])
        if J.op == "idx" and not ar:
            # zip of two parallel sequences
            ar = [y for y in walk(bd) if y.op == "item" and y.a[1].op == "idx" and y.a[1] is J]
        others = [y for y in walk(bd) if y.op == "item" and y not in ar and not is_const(y.a[1]) and strip_ver(y.a[0]).op != "slice"
                  and not any(y in set(walk(z)) for z in ar) and y is not x and not unknown(y.a[1])]
        if ar:
            rep.ok("R17.record", con)
            D = ar[0].a[0]
            lib = [y for y in walk(D) if y.op == "call" and y.a[0].startswith(".get_nns_by")]
            if lib:
                part = lambda z, i: strip_ver(z).op == "item" and strip_ver(strip_ver(z).a[0]) in lib and is_const(strip_ver(z).a[1]) and cval(strip_ver(z).a[1]) == i
                rep.check("R17.record", con, part(L, 0) and part(D, 1), "position", "ids and distances of the library's answer are paired after one of them was reordered", f, ln)
            for lst in [y for y in walk(D) if y.op == "alloc" and y in p.st.heap and p.st.heap[y].kind == "list"]:
                lockstep(rep, p, L, lst, me, V, con, f, ln)
            if L.op == "alloc" or L.op == "init":
                rep.check("R17.record", con, has(bd, QUERY) or contains(bd, lambda y: y.op == "alloc" and has_query(y, p)) or contains(bd, lambda y: y.op == "call" and y.a[0].startswith(".get_nns")), "query", "the distance does not involve the query", f, ln)
            return done
        if others and not unknown(bd):
            rep.bad("R17.record", con, "position", f"the distance is read at another position than the id ({show(others[0].a[1])[:60]} / {show(J)[:60]})", f, ln)
            return done
    return 0


def filters(rep, n, con, p, r, e, me, f, ln):
    """Which candidates are left out for their distance: none, and for LSH those below the threshold in force."""
    d = bare(r["distance"])
    if unknown(d):
        return
    _, core = linear(d)
    core = bare(core)
    fs = dict(e.facts or {})
    tests = []
    for a, v in list(fs.items()) + ([(a, v) for a, v in p.facts.items() if n in THRESHOLD] if n in THRESHOLD else []):
        if a.op in ("lt", "le", "eq") and len(a.a) == 2 and (a, v) not in tests:
            x, y = bare(a.a[0]), bare(a.a[1])
            if is_const(x) and is_const(y):
                continue
            if x is d or y is d or (not is_const(core) and (x is core or y is core)):
                tests.append((a, v))
    if n not in THRESHOLD:
        if is_const(d):
            return
        rep.check("R17.filter", con, not tests, "dropped", f"candidates are left out for their distance ({show(tests[0][0])[:80] if tests else ''})", f, ln)
        return
    own = [(a, v) for a, v in tests if any(bare(z).op == "param" or bare(z).op == "init" for z in a.a)]
    if not own:
        if not any(unknown(z) for a, v in tests for z in a.a):
            rep.bad("R17.filter", con, "no-threshold", "a candidate is answered whatever its similarity is", f, ln)
        return
    for a, v in own:
        x, y = bare(a.a[0]), bare(a.a[1])
        first = x is d or x is core
        T = y if first else x
        # what is known: not (d < T), or T <= d
        ok = (first and a.op == "lt" and v is False) or (not first and a.op == "le" and v is True)
        strict = (first and a.op == "le" and v is False) or (not first and a.op == "lt" and v is True)
        if strict:
            rep.bad("R17.filter", con, "strict", "a candidate whose similarity equals the threshold is left out", f, ln)
            continue
        if not ok:
            rep.bad("R17.filter", con, "inverted", "the candidates below the threshold are answered", f, ln)
            continue
        if T.op == "init":
            given = fact(p, "isnone", lambda z: strip_ver(z.a[0]).op == "param" and strip_ver(z.a[0]).a[0] not in ("query_vector", "k"))
            rep.check("R17.filter", con, given is True, "given", "the configured threshold replaces one that was given (such as 0.0)", f, ln)
        elif T.op == "param":
            rep.ok("R17.filter", con)


class View:
    """A path seen at the end of a loop body."""
    def __init__(self, p, heap):
        self.facts, self.events, self.val = p.facts, p.events, p.val
        self.st = type("S", (), {"heap": heap})()


def pools(rep, n, con, p, me, V, answer):
    """The candidate sets a search builds on its way: an id is kept with its own distance, and a cut keeps the nearest."""
    done = set()
    a0 = strip_ver(answer)
    for v in [View(p, p.st.heap)] + [View(p, e.heap) for e in p.events if e.kind == "iterend" and e.heap is not None]:
        for t, c in v.st.heap.items():
            if (t, id(c)) in done:
                continue
            done.add((t, id(c)))
            for e in c.entries:
                if e.tag in ("prev", "rest") or e.val is None:
                    continue
                pairs = []
                if c.kind == "dict" and e.key is not None and not is_const(e.key):
                    pairs = [(e.key, e.val)]
                x = strip_ver(e.val)
                if x.op == "tuple":
                    ts = x.a[0] if x.a and isinstance(x.a[0], tuple) else x.a
                    pairs += [(y, z) for y in ts for z in ts if y is not z and hasattr(y, "op") and hasattr(z, "op") and not has(y, QUERY)]
                for i, d in pairs:
                    if not has(d, QUERY) or is_const(strip_ver(i)) or strip_ver(d).op == "alloc":
                        continue
                    ids = vector_ids_of(d, me, V)
                    if not ids or any(hard_unknown(z) for z in ids) or hard_unknown(i):
                        continue
                    if any(contains(z, lambda q: q.op == "len") for z in (i,)):
                        continue
                    rep.check("R17.record", con, any(same_id(bare(z), bare(i)) for z in ids), "pool", f"the distance of {show(ids[0])[:60]} is kept for {show(i)[:60]}",
                              p.file if hasattr(p, "file") else None, getattr(e.node, "lineno", 0))
            if t is a0 or not (isinstance(c.src, tuple) and c.src[0] == "slice"):
                continue
            vals = [e.val for e in c.entries if e.val is not None and e.tag != "prev"]
            if not any(distances_of(x, v) and not is_const(bare(distances_of(x, v)[0])) for x in vals):
                continue
            o = trace(t, v, Ord())
            node = c.entries[0].node if c.entries else None
            ln = getattr(node, "lineno", 0)
            if any(w == "from" for w, _ in o.limits):
                rep.bad("R17.probe", con, "offset", "the nearest candidates are cut off", None, ln)
                continue
            if o.unk or o.key is None:
                continue
            if o.dir == 0:
                rep.bad("R17.probe", con, "unordered", f"candidates are cut at {show(o.limits[0][1])[:40] if o.limits else '?'} in no order", None, ln)
                continue
            if o.key[0] != "terms":
                continue
            for val, key, neg in o.key[1]:
                if unknown(key) and not has(key, QUERY) or hard_unknown(val):
                    continue
                ds = distances_of(val, v)
                if not ds:
                    continue
                k = strip_ver(key)
                if k.op == "tuple" and k.a:
                    k = strip_ver(k.a[0] if not isinstance(k.a[0], tuple) else k.a[0][0])
                s1, c1 = linear(k)
                hit = None
                for d in ds:
                    if is_const(bare(d)):
                        continue
                    s2, c2 = linear(d)
                    if norm(bare(c1)) is norm(bare(c2)):
                        hit = s1 * (polarity(c1, v) or (-1 if n in DESC else 1))
                        if polarity(c1, v) is None:
                            hit = s1 * s2 * (-1 if n in DESC else 1)
                if hit is None:
                    if any(norm(bare(k)) is norm(bare(i)) for i in ids_of(val, v)):
                        rep.bad("R17.probe", con, "key", "candidates are cut in the order of their position, not of their distance", None, ln)
                    continue
                if neg:
                    hit = -hit
                rep.check("R17.probe", con, hit * o.dir == 1, "direction", "the farthest candidates are kept", None, ln)


def hard_unknown(t):
    return contains(t, lambda x: x.op in ("unk", "next"))


def has_query(y, p):
    c = p.st.heap.get(y)
    return bool(c) and any(e.val is not None and has(e.val, QUERY) for e in c.entries)


def lockstep(rep, p, L, A, me, V, con, f, ln, rule="R17.record"):
    """Position j of the list of ids and of the list of vectors speak of the same vector."""
    a = p.st.heap.get(A)
    ea = [e for e in a.entries if e.tag not in ("prev",)]
    if any(has(e.val, QUERY) for e in ea if e.val is not None):
        return
    if L.op == "alloc":
        c = p.st.heap.get(L)
        if c is None or L is A:
            return
        ec = [e for e in c.entries if e.tag not in ("prev",)]
        if any(e.val is None or unknown(e.val) or e.tag == "rest" for e in ea + ec):
            return
        fronts = [sum(1 for e in p.events if e.kind == "linsert" and strip_ver(e.a[0]) is z) > 0 for z in (L, A)]
        turns = [sum(1 for e in p.events if e.kind == "lrev" and strip_ver(e.a[0]) is z) % 2 == 1 for z in (L, A)]
        if (fronts[0] ^ turns[0]) != (fronts[1] ^ turns[1]):
            rep.bad(rule, con, "lockstep", "the lists of ids and of vectors grow from opposite ends", f, ln)
            return
        if len(ea) != len(ec):
            if ea and ec:
                return
            rep.bad(rule, con, "lockstep", "the lists of ids and of vectors do not grow together", f, ln)
            return
        for x, y in zip(ea, ec):
            ids = vector_ids_of(x.val, me, V)
            if ids:
                rep.check(rule, con, any(same_id(i, y.val) for i in ids), "lockstep", "position j of the id list and of the vector list belong to different vectors", f, ln)
        if c.order or a.order or c.limit != a.limit:
            rep.bad(rule, con, "lockstep", "ids and vectors are reordered or cut separately", f, ln)
    elif L.op == "init":
        # ids come straight from the field: vectors must have been collected for every one of them
        for e in ea:
            if e.val is None or unknown(e.val):
                return
            skipped = any(a.op == "isnone" and v is True and contains(a, lambda x: x.op == "call" and x.a[0] == ".retrieve_vector") for q in [p] for a, v in q.facts.items())
            ids = vector_ids_of(e.val, me, V)
            loops = [l[0] if isinstance(l, tuple) else l for l in (e.loops or ())]
            if ids and loops and strip_ver(loops[-1]) is not L:
                rep.bad(rule, con, "lockstep", "position j of the vectors does not belong to position j of the ids", f, ln)
            guarded = [a for a, v in dict(e.facts or {}).items() if a.op == "isnone" and contains(a, lambda x: x.op == "call" and x.a[0] == ".retrieve_vector")]
            if skipped or guarded:
                rep.bad(rule, con, "lockstep", "vectors that are skipped shift the positions of the ids", f, ln)


def order(rep, n, con, p, rs, o, f, ln):
    want = -1 if n in DESC else 1
    if o.unk or o.key is None:
        return 0
    if o.key[0] == "library":
        for r, e in rs:
            m = mono(r["distance"], p)
            if m == "no" or m == 1 and not dot_metric(p):
                rep.bad("R17.order", con, "monotone", f"the similarity does not fall with the library's distance ({show(r['distance'])[:70]})", f, ln)
        return 1 if rep.check("R17.order", con, o.dir == 1, "direction", "the nearest neighbours are answered in reverse", f, ln) is not None else 1
    if o.dir == 0:
        if o.key[0] == "stored" and all(not e.loops for r, e in rs):
            return 0
        rep.bad("R17.order", con, "unordered", "the answer is not sorted by distance", f, ln)
        return 1
    if o.key[0] == "terms":
        if o.early and has(o.early[3], K):
            rep.bad("R17.order", con, "cut-first", "the candidates are cut at k before they are sorted", f, ln)
        n_ok = 0
        for ent in o.key[1]:
            val, key, neg = ent
            if unknown(key) or unknown(val):
                continue
            k = strip_ver(key)
            if k.op == "tuple" and k.a:
                k = strip_ver(k.a[0] if not isinstance(k.a[0], tuple) else k.a[0][0])
            ds = distances_of(val, p)
            if not ds:
                continue
            s1, c1 = linear(k)
            hit = None
            for d in ds:
                s2, c2 = linear(d)
                if norm(bare(c1)) is norm(bare(c2)):
                    hit = s1 * s2
            if hit is None:
                if is_const(bare(ds[0])):
                    continue
                idlike = ids_of(val, p)
                if any(norm(bare(k)) is norm(bare(i)) for i in idlike):
                    rep.bad("R17.order", con, "key", "the answer is sorted by id, not by distance", f, ln)
                    n_ok += 1
                continue
            if neg:
                hit = -hit
            n_ok += 1
            rep.check("R17.order", con, hit * o.dir == want, "direction", "the answer is sorted worst first", f, ln)
        return n_ok
    if o.key[0] == "array":
        s1, c1 = linear(o.key[1])
        done = 0
        for r, e in rs:
            ar = None
            s2, c2 = linear(r["distance"])
            if c2.op == "item":
                s3, c3 = linear(c2.a[0])
                s2, c2 = s2 * s3, c3
            if norm(bare(c1)) is norm(bare(c2)):
                done = 1
                rep.check("R17.order", con, s1 * s2 * o.dir == want, "direction", "the answer is sorted worst first", f, ln)
        return done
    if o.key[0] == "partition":
        rep.bad("R17.order", con, "unordered", "the answer is partitioned, not sorted", f, ln)
        return 1
    return 0


def mono(t, p, depth=0):
    """How a similarity moves with the library's distance in it: 1 up, -1 down, 0 not at all, "no" up and down, None unknown."""
    t = bare(t)
    if depth > 10:
        return None
    lib = lambda x: contains(x, lambda y: y.op == "call" and y.a[0].startswith(".get_nns"))
    if not lib(t):
        return 0
    if t.op == "item":
        return 1
    if t.op == "bin":
        o, a, b = t.a[0], t.a[1], t.a[2]
        ma, mb = mono(a, p, depth + 1), mono(b, p, depth + 1)
        if "no" in (ma, mb):
            return "no"
        if o == "+":
            return ma if mb == 0 else mb if ma == 0 else None
        if o == "-":
            return ma if mb == 0 else (-mb if mb in (1, -1) else None) if ma == 0 else None
        if o in ("*", "/") and mb == 0 and ma is not None and is_const(bare(b)) and isinstance(cval(bare(b)), (int, float)):
            return ma if cval(bare(b)) > 0 else -ma
        if o == "*" and ma == 0 and mb is not None and is_const(bare(a)) and isinstance(cval(bare(a)), (int, float)):
            return mb if cval(bare(a)) > 0 else -mb
        if o == "/" and ma == 1 and mb == 1:
            x = bare(b)
            if x.op == "bin" and x.a[0] == "+" and any(norm(bare(z)) is norm(bare(a)) for z in x.a[1:]) and any(is_const(bare(z)) and cval(bare(z)) > 0 for z in x.a[1:]):
                return 1
        if o == "/" and ma == 0 and is_const(bare(a)) and isinstance(cval(bare(a)), (int, float)) and mb in (1, -1):
            x = bare(b)
            pos = x.op == "bin" and x.a[0] == "+" and any(is_const(bare(z)) and isinstance(cval(bare(z)), (int, float)) and cval(bare(z)) > 0 for z in x.a[1:]) and mb == 1
            if not pos:
                return None
            return -mb if cval(bare(a)) > 0 else mb
        return None
    if t.op == "call":
        n = t.a[0].rsplit(".", 1)[-1]
        if n in ("max", "min", "maximum", "minimum"):
            ms = [mono(x, p, depth + 1) for x in t.a[1]]
            if "no" in ms:
                return "no"
            mv = {x for x in ms if x != 0}
            return next(iter(mv)) if len(mv) == 1 else None
        if n in ("exp", "sqrt", "log1p", "float") and t.a[1]:
            return mono(t.a[1][0], p, depth + 1)
        if n in ("abs", "absolute", "fabs") and t.a[1]:
            x = bare(t.a[1][0])
            m = mono(x, p, depth + 1)
            if x.op == "item":
                return m
            return "no" if m == -1 else None
        if n == "cos":
            return None
    if t.op in ("neg", "unary", "un"):
        m = mono(t.a[-1], p, depth + 1)
        return -m if m in (1, -1) else m
    return None


def dot_metric(p):
    """The library's own number is a similarity: the dot product, or a metric without a conversion."""
    known = [cval(y) for a, v in p.facts.items() if a.op in ("eq", "in") and v for y in a.a if hasattr(y, "op") and is_const(y) and isinstance(cval(y), str)]
    return not any(k in ("angular", "euclidean", "manhattan", "hamming") for k in known)


def breaks(rep, con, p):
    """A loop that stops collecting once k are found must run over an ordered sequence."""
    for e in p.events:
        if e.kind != "breakout":
            continue
        fs = [a for a, v in dict(e.facts or {}).items() if a.op in ("lt", "le", "eq") and any(bare(x) is K for x in a.a) and contains(a, lambda x: x.op == "len" or x.op == "call" and x.a[0] == "len")]
        if not fs:
            continue
        root = e.a[0]
        o = trace(root, View(p, e.heap if e.heap is not None else p.st.heap), Ord())
        if o.dir == 0 or strip_ver(root).op == "init" or (strip_ver(root).op in ("item", "get") and is_rooted(strip_ver(root))):
            rep.bad("R17.order", con, "cut-first", "candidates are no longer looked at once k are collected, before they are sorted", e.file, e.line)


def unknown_terms(es):
    return any(unknown(x) for e in es for x in e if hasattr(x, "op"))


def distances_of(val, p):
    """Distance terms of a sorted element: record dict or (id, distance) pair."""
    v = strip_ver(val)
    if v.op == "alloc":
        c = p.st.heap.get(v)
        if c and c.kind == "dict":
            return [e.val for e in c.entries if e.key is not None and is_const(e.key) and cval(e.key) == "distance"]
    if v.op == "tuple":
        parts = v.a[0] if v.a and isinstance(v.a[0], tuple) else v.a
        return [x for x in parts if hasattr(x, "op") and (contains(x, lambda y: y is QUERY) or is_const(bare(x)))]
    return []


def ids_of(val, p):
    v = strip_ver(val)
    if v.op == "alloc":
        c = p.st.heap.get(v)
        if c and c.kind == "dict":
            return [e.val for e in c.entries if e.key is not None and is_const(e.key) and cval(e.key) == "id"]
    if v.op == "tuple":
        parts = v.a[0] if v.a and isinstance(v.a[0], tuple) else v.a
        return [x for x in parts if hasattr(x, "op") and not contains(x, lambda y: y is QUERY) and not is_const(x)]
    return []


def limit(rep, n, con, p, o, f, ln, me, H):
    if o.unk == "too deep" or (o.unk and o.unk != "empty" and not o.limits):
        return 0
    lim = [(w, t) for w, t in o.limits]
    if any(w == "from" for w, t in lim):
        rep.bad("R17.limit", con, "offset", "the best results are cut off", f, ln)
        return 1
    if any(unknown(t) for w, t in lim):
        return 0
    ks = [is_k(t, p, me, H) for w, t in lim]
    if True in ks:
        rep.check("R17.limit", con, True, "k", "", f, ln)
        if n in EXACT or n in DESC:
            other = [t for (w, t), k in zip(lim, ks) if k is False and not is_count(t)]
            rep.check("R17.limit", con, not other, "cut", f"the answer is also cut at {show(other[0])[:60] if other else ''}", f, ln)
        return 1
    if None in ks:
        return 0
    if o.key is None:
        return 0
    rep.bad("R17.limit", con, "k", "more than k records can be answered" if not lim else f"the answer is cut at {show(lim[0][1])[:60]}, not at k", f, ln)
    return 1


def is_count(t):
    t = strip_ver(t)
    return t.op == "len" or (t.op == "call" and t.a[0] in ("len", "max"))


def exhaustive(prog, rep, cls, ps, con):
    """Every id the exact index holds is compared, unless its record is gone."""
    me = self_of(cls)
    src = None
    for p in ps:
        its = [e for e in p.events if e.kind == "iter" and strip_ver(e.a[0]).op == "init"]
        rs = records(p)
        if rs is None:
            continue
        f, ln = loc(p)
        full = p.facts
        if not its:
            # the only other way to an empty answer: nothing is held
            if not rs and not any(a.op == "truthy" and v is False and owner_field(a.a[0], me) for a, v in full.items()) and not any(owner_field(y, me) for a, v in full.items() if v is False for y in a.a if hasattr(y, "op")):
                rep.unk("R17.all", con, "empty answer without a look at the ids")
            continue
        L = its[0]
        miss = [a for a, v in full.items() if a.op == "isnone" and v is True and contains(a, lambda x: x.op == "call" and x.a[0] == ".retrieve_vector")]
        collected = [c for t, c in p.st.heap.items() if c.kind == "list" and any(e.tag == "many" and e.val is not None and vector_ids_of(e.val, me, vec_copies(prog, rep, cls) | filled_by_search(prog, rep, cls)) for e in c.entries)]
        if collected or rs:
            rep.ok("R17.all", con)
            continue
        rep.check("R17.all", con, bool(miss), "skipped", "a vector the index holds can be left out of the comparison", f, ln)
    for p in ps:
        for e in p.events:
            if e.kind == "breakout" and strip_ver(e.a[0]).op == "init" and strip_ver(e.a[0]).a[0] is me and not e.loops:
                rep.bad("R17.all", con, "break", "the loop over the ids is left before every vector was compared", e.file, e.line)
            if e.kind == "iter" and strip_ver(e.a[0]).op == "slice" and owner_field(strip_ver(e.a[0]).a[0], me) and not has(e.a[0], K):
                rep.bad("R17.all", con, "part", "only part of the ids is compared", e.file, e.line)


CHECKS = {"C17": c17}
