"""Contracts between caller and component: refusals, loading, counters, delegation."""
from ..common import *
from ..common import ClassInfo, Interp, walk
from ..terms import const, contains, subst
from .index import (VECS, QUERY, backed, indices, is_len, scalls, filled_by_search, slot_lists)
from .storage import ID, VEC, fact, has, rets

NDIM = ("numpy.ndim",)


def ctor(prog, cls):
    """Constructor exits: list of ({field: value}, facts)."""
    me = self_of(cls)
    out = []
    for p in Interp(prog).init_state(cls) or []:
        if p.kind == "return":
            out.append(({f: v for (o, f), v in p.st.fields.items() if o is me}, p.facts, p))
    return out


_written = {}


def written_later(prog, rep, cls):
    """Fields assigned outside the constructor."""
    k = (id(prog), cls.qual)
    if k not in _written:
        import ast
        w = set()
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                continue
            for n, fi in c.methods.items():
                if n == "__init__":
                    continue
                for x in ast.walk(fi.node):
                    ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                    for t in ts:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self":
                                w.add(y.attr)
        _written[k] = w
    return _written[k]


def feasible(prog, rep, cls, p, cts=None):
    """False when the path's facts on fields fixed by the constructor contradict every constructor exit."""
    me = self_of(cls)
    w = written_later(prog, rep, cls)
    cts = ctor(prog, cls) if cts is None else cts
    if not cts:
        return True
    for fields, facts, cp in cts:
        m = {mk("init", me, f): v for f, v in fields.items() if f not in w}
        if not any(contradicts(subst(norm(a), m), v, facts, p, m, cp) for a, v in p.facts.items() if contains(a, lambda x: x.op == "init" and norm(x) in m)):
            return True
    return False


def contradicts(a, v, facts, p, m, cp):
    for b, bv in facts.items():
        b = norm(b)
        if b is a and bv != v:
            return True
    # x not equal to c for every member c of the accepted collection
    if a.op == "eq" and v is False:
        for b, bv in facts.items():
            if b.op != "in" or not bv:
                continue
            x, col = norm(b.a[0]), strip_ver(b.a[1])
            es = col.a if col.op in ("tuple", "set", "list") else [e.val if e.val is not None else e.key for e in cp.st.heap[col].entries] if col.op == "alloc" and col in cp.st.heap else None
            if not es or x not in a.a:
                continue
            no = {y for f, fv in p.facts.items() if f.op == "eq" and fv is False for s in [subst(norm(f), m)] if x in s.a for y in s.a if y is not x}
            if all(e in no for e in es):
                return True
    return False


# ------------------------------------------------------------------ C18
OPS18 = {"storage": ["store_vector", "delete_vector", "update_vector"], "index": ["insert", "add", "delete", "remove", "update", "build", "load"],
         "client": ["insert", "delete", "update"]}


def scratch(e, p):
    """The event only touches a local value made in this call."""
    if e.kind in ("setitem", "delitem", "mut", "aug"):
        r = base_root(e.a[0])
        while r.op == "init":
            r = base_root(r.a[0])
        return r.op not in ("self", "param", "glob")
    return False


def visible(p, cls):
    return [e for e in effects(p) if not scratch(e, p)]


def open_loops(p):
    """Loop heads (iter events) whose body the path leaves by its exit."""
    st = []
    for e in p.events:
        if e.kind == "iter":
            st.append(e)
        elif e.kind in ("iterend", "breakout"):
            for i in range(len(st) - 1, -1, -1):
                if st[i].a[0] is e.a[0]:
                    del st[i:]
                    break
    live = set(p.st.loops)
    return [e for e in st if any(l in live for l in e.loops[-1:])] if live else []


def body_effects(ps, head, cls):
    """Effects inside the loop with this head on other paths."""
    for q in ps:
        inside = None
        for e in q.events:
            if e.kind == "iter" and e.node is head.node and inside is None:
                inside = e
            elif inside is not None and e.kind in ("iterend", "breakout") and e.a[0] is inside.a[0]:
                inside = None
            elif inside is not None:
                if (e.kind in MUTABLE_EV or (e.kind == "call" and is_write_call(e))) and not scratch(e, q) and e in visible(q, cls):
                    return e
    return None


def loop_dependent(p, head):
    i = mk("idx", head.loops[-1][0], head.loops[-1][1]) if head.loops else None
    last = list(p.facts.items())
    if i is None or not last:
        return True
    a, v = last[-1]
    return contains(a, lambda x: x is i or norm(x) is norm(i) or x.op in ("phi", "unk"))


def unassembled(prog, rep, cls, p):
    """The path is taken only when a collaborator handed to initialize() is missing."""
    me = self_of(cls)
    k = ("asm", id(prog), cls.qual)
    if k not in _written:
        fs = set()
        for q in rets(paths(prog, rep, cls, "initialize")) if cls.find("initialize") else []:
            fs |= {f for (o, f), v in q.st.fields.items() if o is me and v.op == "param"}
        _written[k] = fs
    return any(a.op == "isnone" and v is True and strip_ver(a.a[0]).op == "init" and strip_ver(a.a[0]).a[0] is me and strip_ver(a.a[0]).a[1] in _written[k] for a, v in p.facts.items())


def c18(prog, rep):
    """Explicit refusals: on every path that ends in a raise statement of a storage, index or client operation no effect on the object,
    its arguments or its collaborators precedes the raise, and a refusal that depends on the element of a loop is not interleaved with
    effects of the same loop.  Every path of insert/add/update that stores something carries the facts that the input is well formed."""
    rep.rule("R18.effect", "a refusal is raised before anything is changed", 25)
    rep.rule("R18.batch", "a batch is checked completely before its first element is stored", 0)
    rep.rule("R18.shape", "only a two-dimensional array is inserted and only a one-dimensional query is searched", 10)
    rep.rule("R18.dim", "only vectors of the dimension of the vectors held are stored", 8)
    rep.rule("R18.count", "LSH and Annoy refuse a batch whose number of metadata items differs", 2)
    rep.rule("R18.finite", "LSH and Annoy refuse NaN and infinite components", 4)
    for lay, err, ops, cls in components(prog, ("storage", "index", "client")):
        cts = None
        for op in OPS18[lay]:
            if cls.find(op) is None:
                continue
            con = f"{cname(cls)}.{op}"
            ps = paths(prog, rep, cls, op)
            batch = False
            for p in ps:
                if p.kind != "raise":
                    continue
                ef = visible(p, cls)
                heads = open_loops(p)
                if not ef and not heads or unassembled(prog, rep, cls, p):
                    continue
                if cts is None:
                    cts = ctor(prog, cls)
                if not feasible(prog, rep, cls, p, cts):
                    continue
                if ef:
                    rep.bad("R18.effect", con, ev_name(ef[0])[:60], f"{ev_name(ef[0])} happens before the call is refused", ef[0].file, ef[0].line)
                    continue
                for h in heads:
                    batch = True
                    if loop_dependent(p, h):
                        e = body_effects(ps, h, cls)
                        if e is not None:
                            rep.bad("R18.batch", con, ev_name(e)[:60], f"refuses one element of a batch after {ev_name(e)} for earlier elements", e.file, e.line)
            rep.ok("R18.effect", con)
            if batch:
                rep.ok("R18.batch", con)
    for cls, b in indices(prog, rep):
        guards(prog, rep, cls, b)


def ndim_fact(p, x, n):
    """The path knows x.ndim == n."""
    def nd(t):
        t = strip_ver(t)
        if t.op == "attr" and t.a[1] == "ndim" and strip_ver(t.a[0]) is x:
            return True
        if t.op == "call" and t.a[0] in ("numpy.ndim",) and t.a[1] and strip_ver(t.a[1][0]) is x:
            return True
        if t.op == "call" and t.a[0] == "len" and t.a[1]:
            s = strip_ver(t.a[1][0])
            return s.op == "attr" and s.a[1] == "shape" and strip_ver(s.a[0]) is x or (s.op == "call" and s.a[0] == "numpy.shape" and strip_ver(s.a[1][0]) is x)
        return False
    for a, v in p.facts.items():
        if a.op == "eq" and v and any(nd(y) for y in a.a if hasattr(y, "op")) and const(n) in a.a:
            return True
    return False


def stored(p, cls):
    me = self_of(cls)
    return [e for e in visible(p, cls) if e.kind != "setfield" or has(e.a[2], VECS) or has(e.a[2], VEC)]


def dims_of(t, xs):
    """t is the size of one of the given arrays along its last axis (or of an element of it)."""
    def f(x):
        if x.op == "attr" and x.a[1] in ("shape", "size") and any(contains(x.a[0], lambda y: y is q) for q in xs):
            return True
        return x.op == "call" and x.a[0] in ("len", "numpy.shape", "numpy.size") and x.a[1] and any(contains(x.a[1][0], lambda y: y is q) for q in xs)
    return contains(t, f)


def held(t, me, params):
    """t speaks of something the index holds."""
    return contains(t, lambda x: (x.op == "init" and x.a[0] is me) or (x.op == "call" and x.a[0] == ".retrieve_vector"))


EMPTY_OPS = ("truthy", "isnone", "eq", "le", "lt")


def dim_known(p, me, xs):
    """'equal' / 'empty' / None: what the path knows about the dimension of the new vectors."""
    lt = set()
    for a, v in p.facts.items():
        ts = [x for x in a.a if hasattr(x, "op")]
        if a.op == "eq" and v and len(ts) == 2:
            for x, y in (ts, ts[::-1]):
                if dims_of(x, xs) and (held(y, me, xs)):
                    return "equal"
        if a.op == "lt" and not v and len(ts) == 2:
            for x, y in (ts, ts[::-1]):
                if dims_of(x, xs) and held(y, me, xs):
                    lt.add((x is ts[0], norm(y)))
    for s, y in lt:
        if (not s, y) in lt:
            return "equal"
    for a, v in p.facts.items():
        x = a.a[0] if a.a and hasattr(a.a[0], "op") else None
        if x is None:
            continue
        core = strip_ver(x)
        h = (core.op == "init" and core.a[0] is me and core.a[1] not in ("_initialized", "storage_backend", "_trained", "_built")) or \
            (contains(core, lambda y: y.op in ("init", "call") and (y.op == "call" and y.a[0] == ".retrieve_vector" or y.op == "init" and y.a[0] is me)) and core.op in ("item", "get", "call", "next"))
        if not h or any(contains(core, lambda y: y is q) for q in xs):
            continue
        if (a.op == "truthy" and v is False) or (a.op == "isnone" and v is True):
            return "empty"
        if a.op == "eq" and v and const(0) in a.a:
            return "empty"
    return None


def finite_known(p, xs):
    nan = inf = False
    for a, v in p.facts.items():
        if a.op != "truthy":
            continue
        t = strip_ver(a.a[0])
        if not any(contains(t, lambda y: y is q) for q in xs) or contains(t, lambda y: y.op in ("item", "slice") and strip_ver(y.a[0]) in xs and is_const(y.a[1])):
            continue
        names = {y.a[0] for y in walk(t) if y.op == "call"}
        if v and any(n.endswith("isfinite") for n in names) and not any(n in ("numpy.any", ".any", "any") for n in names):
            return True
        if not v and any(n.endswith("isfinite") for n in names) and any(n in ("numpy.any", ".any", "any") for n in names) and contains(t, lambda y: y.op in ("not", "un")):
            return True
        if not v and any(n.endswith("isnan") for n in names) and any(n in ("numpy.any", ".any", "any") for n in names):
            nan = True
        if not v and any(n.endswith("isinf") for n in names) and any(n in ("numpy.any", ".any", "any") for n in names):
            inf = True
    return nan and inf


def guards(prog, rep, cls, b):
    me = self_of(cls)
    n = cname(cls)
    for op in ("insert", "add"):
        if cls.find(op) is None:
            continue
        con = f"{n}.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            sv = stored(p, cls)
            if not sv or fact(p, "truthy", lambda a: strip_ver(a.a[0]) is VECS) is False:
                continue
            f, ln = sv[0].file, sv[0].line
            rep.check("R18.shape", con, ndim_fact(p, VECS, 2), "2d", "stores from an array that was not checked to be two-dimensional", f, ln)
            k = dim_known(p, me, [VECS])
            rep.check("R18.dim", con, k is not None, "dimension", "stores vectors whose dimension was not compared with the vectors held", f, ln)
            if not b:
                c = [a for a, v in p.facts.items() if a.op == "eq" and v and contains(a, lambda x: x is VECS) and contains(a, lambda x: x is mk("param", "metadata"))]
                mn = fact(p, "isnone", lambda a: strip_ver(a.a[0]) is mk("param", "metadata")) is True
                made = any(a.op == "eq" and v and contains(a, lambda x: x is VECS) and contains(a, lambda x: x.op in ("comp", "alloc")) for a, v in p.facts.items())
                rep.check("R18.count", con, bool(c) or mn or made, "count", "stores a batch without comparing the numbers of vectors and metadata items", f, ln)
                rep.check("R18.finite", con, finite_known(p, [VECS]), "finite", "stores vectors that were not checked for NaN and infinity", f, ln)
    con = f"{n}.update"
    for p in rets(paths(prog, rep, cls, "update")):
        if p.val is FALSE:
            continue
        sv = stored(p, cls)
        if not sv:
            continue
        f, ln = sv[0].file, sv[0].line
        k = dim_known(p, me, [VEC])
        rep.check("R18.dim", con, k is not None, "dimension", "replaces a vector without comparing dimensions", f, ln)
        if not b:
            rep.check("R18.finite", con, finite_known(p, [VEC]), "finite", "stores a vector that was not checked for NaN and infinity", f, ln)
    con = f"{n}.search"
    for p in rets(paths(prog, rep, cls, "search")):
        used = any(e.kind == "call" and any(contains(x, lambda y: y is QUERY) for x in e.a[2]) for e in p.events) or contains(p.val, lambda y: y is QUERY) or \
            any(a.op != "eq" and contains(a, lambda y: y is QUERY) for a in p.facts)
        c = p.st.heap.get(strip_ver(p.val))
        if c is not None and not c.entries and not used:
            continue
        rep.check("R18.shape", con, ndim_fact(p, QUERY, 1), "1d", "searches with a query that was not checked to be one-dimensional", *loc(p))


# ------------------------------------------------------------------ C19
def whole(t, p, root, depth=0):
    """True: t holds every element of root; False: some can be missing; None: not tracked.  Elements without a stored record may be skipped."""
    t = strip_ver(t)
    if t is root:
        return True
    if depth > 6:
        return None
    if t.op == "slice":
        return False if whole(t.a[0], p, root, depth + 1) is not None else None
    if t.op == "call" and t.a[0] in ("list", "tuple", "set", "sorted", "reversed", ".copy", "copy.copy", "iter", "dict.fromkeys", "filter") and t.a[1]:
        return whole(t.a[1][-1] if t.a[0] == "filter" else t.a[1][0], p, root, depth + 1) if t.a[0] != "filter" else None
    if t.op == "comp":
        w = whole(t.a[1], p, root, depth + 1)
        if not w:
            return w
        return True if any(all(no_record(c[0] if isinstance(c, tuple) else c) for c in cs) for cs, _ in t.a[2]) else False
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is None:
            return None
        if c.limit:
            return False
        if isinstance(c.src, tuple) and c.src and c.src[0] == "slice":
            return False
        if left_out(t, p) and any(strip_ver(e.val) is root for e in c.entries if e.val is not None):
            return True if skipped_gone(p) else False
        r = [whole(e.val, p, root, depth + 1) for e in c.entries if e.tag == "rest" and e.val is not None]
        if hasattr(c.src, "op"):
            r.append(whole(c.src, p, root, depth + 1))
        elif isinstance(c.src, tuple) and len(c.src) > 1 and hasattr(c.src[1], "op"):
            r.append(whole(c.src[1], p, root, depth + 1))
        if r:
            return True if True in r else r[0]
        i = [e for e in c.entries if any(x is not None and x.op == "item" and strip_ver(x.a[0]) is root for x in (e.key, e.val))]
        return True if i else None
    return None


def no_record(c):
    """The atom tests the answer of retrieve_vector itself."""
    c = strip_ver(c)
    x = strip_ver(c.a[0]) if c.op in ("isnone", "truthy") else c
    if x.op == "item" and is_const(x.a[1]) and cval(x.a[1]) == 0:
        x = strip_ver(x.a[0])
    return x.op == "call" and x.a[0] in (".retrieve_vector",)


def skipped_gone(p):
    """The element is skipped because its record does not exist."""
    return any((a.op == "isnone" and v or a.op == "truthy" and not v) and no_record(a.a[0]) for a, v in p.facts.items())


def left_out(t, p):
    """The arbitrary element of the sequence the list was made from is not in it on this path."""
    c = p.st.heap.get(t)
    if c is None or any(e.tag != "prev" for e in c.entries):
        return False
    return bool(c.entries)


def c19(prog, rep):
    """After initialize() every container search draws candidates from holds every id the storage backend lists: the list is asked for
    without a limit, and an id is skipped only where its record is gone; list_vectors itself lists every id and honours its limit."""
    rep.rule("R19.list", "list_vectors lists every stored id, or the first `limit` of them", 3)
    rep.rule("R19.ask", "initialize() asks the given storage backend for all ids", 3)
    rep.rule("R19.load", "initialize() registers every listed id where search looks for candidates", 3)
    rep.rule("R19.keep", "initialize() on an index that keeps its own vectors leaves them searchable", 2)
    for lay, err, ops, cls in components(prog, ("storage",)):
        listing(prog, rep, cls)
    for cls, b in indices(prog, rep):
        (load_backed if b else keep_own)(prog, rep, cls)


def vector_containers(prog, rep, cls):
    """Containers that get an entry for the id on every successful store."""
    from .storage import memory_fields
    return memory_fields(prog, rep, cls)[0]


def listing(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.list_vectors"
    LIM = mk("param", "limit")
    for p in rets(paths(prog, rep, cls, "list_vectors")):
        f, ln = loc(p)
        v = strip_ver(p.val)
        if v.op == "call" and v.a[0] == ".list_vectors":
            a = [strip_ver(x) for x in v.a[1][1:]] + [strip_ver(x) for _, x in v.a[2]]
            rep.check("R19.list", con, a == [LIM], "limit", "does not hand the caller's limit on", f, ln)
            continue
        none = fact(p, "isnone", lambda a: strip_ver(a.a[0]) is LIM)
        cut = None
        if v.op == "slice":
            lo, hi = v.a[1], strip_ver(v.a[2])
            cut = hi
            rep.check("R19.list", con, lo is NONE or is_const(lo) and cval(lo) == 0, "from", "does not list from the first id on", f, ln)
            v = strip_ver(v.a[0])
        elif v.op == "alloc" and v in p.st.heap and isinstance(p.st.heap[v].src, tuple) and p.st.heap[v].src[0] == "slice":
            cut = strip_ver(p.st.heap[v].src[3])
            v = strip_ver(p.st.heap[v].src[1])
        elif v.op == "call" and v.a[0] in ("list", "tuple") and v.a[1] and strip_ver(v.a[1][0]).op == "call" and strip_ver(v.a[1][0]).a[0] == "itertools.islice":
            x = strip_ver(v.a[1][0])
            cut = strip_ver(x.a[1][-1])
            v = strip_ver(x.a[1][0])
        if cut is not None:
            small = contains(cut, lambda x: x is LIM)
            if cut is NONE:
                cut = None
            elif not small:
                rep.bad("R19.list", con, "cut", f"lists at most {show(cut)} ids whatever limit is asked for", f, ln)
                continue
            elif cut.op == "bin" and LIM in cut.a and any(is_const(x) and x.op == "const" and cval(x) for x in cut.a[1:]):
                rep.bad("R19.list", con, "cut", f"lists {show(cut)} ids", f, ln)
                continue
            elif cut is not LIM:
                rep.unk("R19.list", con, "limit expression not tracked")
                continue
        if cut is None and none is not True:
            if v.op == "comp" and contains(v, lambda x: x is LIM) or v.op == "alloc" and any(e.kind == "breakout" for e in p.events):
                rep.unk("R19.list", con, "limit handled inside the listing")
                continue
            z = fact(p, "truthy", lambda a: strip_ver(a.a[0]) is LIM)
            rep.bad("R19.list", con, "ignored", "lists every id although a limit " + ("of zero " if z is False else "") + "was given", f, ln)
            continue
        src = strip_ver(v)
        while src.op in ("call", "alloc"):
            if src.op == "call" and src.a[0] in ("list", "tuple", "sorted", ".keys") and src.a[1]:
                src = strip_ver(src.a[1][0])
            elif src.op == "alloc" and src in p.st.heap and not p.st.heap[src].entries and hasattr(p.st.heap[src].src, "op"):
                src = strip_ver(p.st.heap[src].src)
            else:
                break
        held = vector_containers(prog, rep, cls)
        if src.op == "init" and strip_ver(src.a[0]) is me and held:
            rep.check("R19.list", con, src in held, "source", f"lists the keys of {src.a[1]}, which holds no record for some stored vectors", f, ln)
        if v.op == "comp" and all(cs for cs, _ in v.a[2]) or v.op == "alloc" and left_out(v, p):
            rep.bad("R19.list", con, "filter", "leaves out some of the stored ids", f, ln)
            continue
        rep.ok("R19.list", con)


def load_backed(prog, rep, cls):
    me = self_of(cls)
    n = cname(cls)
    con = f"{n}.initialize"
    src = {}
    from .index import sources, compat, flag_states, touches, in_facts, rebuilt, cleared
    src = sources(prog, rep, cls)
    ps = [(s, p) for s in fresh(prog, rep, cls) for p in rets(paths(prog, rep, cls, "initialize", start=s))]
    SB = mk("param", prog_param(cls, "initialize", 0))
    for s0, p in ps:
        f, ln = loc(p)
        ls = [e for e in scalls(p, "list_vectors")]
        if not ls:
            rep.bad("R19.ask", con, "missing", "does not ask the storage backend which vectors it holds", f, ln)
            continue
        for e in ls:
            r = strip_ver(e.a[2][0])
            rep.check("R19.ask", con, r is SB, "backend", f"asks {show(r)} instead of the storage backend it was given", e.file, e.line)
            rest = [strip_ver(x) for x in e.a[2][1:]] + [strip_ver(x) for _, x in e.a[3]]
            rep.check("R19.ask", con, all(x is NONE for x in rest), "limit", "asks only for a limited number of ids", e.file, e.line)
        L = strip_ver(ls[-1].a[1])
        if fact(p, "truthy", lambda a: strip_ver(a.a[0]) is L) is False:
            continue
        known = flag_states(p, me)
        known.pop("_initialized", None)
        for g, v in s0.items():
            if v in (TRUE, FALSE):
                known.setdefault(g, v is TRUE)
        its = [e for e in p.events if e.kind == "iter" and (strip_ver(e.a[0]) is L or whole(e.a[0], p, L) is not None)]
        for e in p.events:
            if e.kind == "breakout" and (strip_ver(e.a[0]) is L or whole(e.a[0], p, L) is not None) and p.kind == "return":
                rep.bad("R19.load", con, "stops", "stops loading before the last listed id", e.file, e.line)
        for flags, fs in src.items():
            fl = frozenset((a, b) for a, b in flags if a != "_initialized")
            if not compat(fl, known):
                continue
            for F in fs:
                c2 = f"{con}->{F}"
                w = p.st.fields.get((me, F))
                if w is not None:
                    o = whole(w, p, L)
                    if o is True:
                        rep.ok("R19.load", c2)
                        continue
                    if o is False:
                        rep.bad("R19.load", c2, "cut", f"only part of the listed ids reaches {F}", f, ln)
                        continue
                keys = {mk("item", strip_ver(e.a[0]), mk("idx", e.loops[-1][0], e.loops[-1][1])) for e in its if e.loops}
                keys |= {x for e in p.events for y in e.a if hasattr(y, "op") for x in walk(y) if x.op == "item" and strip_ver(x.a[0]) is L}
                if {cval(e.a[1]) for e in p.events if e.kind == "mut" and strip_ver(e.a[0]) is L} <= {"sort", "reverse"}:
                    keys |= {x for c in p.st.heap.values() for e in c.entries for y in (e.key, e.val) if y is not None for x in walk(y)
                             if x.op == "item" and strip_ver(x.a[0]) is L}
                if any(touches(p, k, me).get(F) is True or F in in_facts(p, k, me) or enters(p, k, me, F) for k in keys):
                    rep.ok("R19.load", c2)
                elif rebuilt(p, F, me) and from_list(p, F, me, L):
                    rep.ok("R19.load", c2)
                elif cleared(p, F, me) and any(rebuilt(q, F, me) and from_list(q, F, me, L) for _, q in ps):
                    rep.ok("R19.load", c2)      # rebuilt from ids whose record exists
                elif not its:
                    rep.bad("R19.load", c2, "unused", f"the listed ids do not reach {F}", f, ln)
                elif skipped_gone(p):
                    rep.ok("R19.load", c2)
                elif any(contains(k, lambda x: x.op in ("unk", "phi")) for k in keys):
                    rep.unk("R19.load", c2, "ids not tracked")
                else:
                    rep.bad("R19.load", c2, "unregistered", f"a listed id whose record exists can be missing from {F}, so search never considers it", f, ln)


def from_list(p, F, me, L):
    """What is written into F comes from the listed ids."""
    for e in p.events:
        if e.kind in ("setitem", "mut") and owner_field(e.a[0], me) == F:
            for y in e.a[1:]:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if hasattr(z, "op"):
                        from .index import expand
                        if any(contains(x, lambda q: q is L) for x in expand(z, p)):
                            return True
    return False


def enters(p, k, me, F):
    """The key is written into the container made on this path for field F (or into a part of it)."""
    w = p.st.fields.get((me, F))
    w = strip_ver(w) if w is not None else None
    if w is None or w.op != "alloc":
        return False
    parts, todo = {w}, [w]
    while todo:
        c = p.st.heap.get(todo.pop())
        for e in c.entries if c else ():
            v = strip_ver(e.val) if e.val is not None else None
            if v is not None and v.op == "alloc" and v not in parts:
                parts.add(v)
                todo.append(v)
    for e in p.events:
        if e.kind in ("setitem", "mut") and strip_ver(base_root(e.a[0])) in parts:
            if e.kind == "setitem" and e.a[1] is k or e.kind == "mut" and cval(e.a[1]) in ("append", "add") and k in e.a[2]:
                return True
    if any(a.op == "in" and v and a.a[0] is k and strip_ver(base_root(a.a[1])) in parts for a, v in p.facts.items()):
        return True
    return any(e.key is k or e.val is k for x in parts for e in (p.st.heap[x].entries if x in p.st.heap else ()))


def prog_param(cls, op, i):
    a = [x.arg for x in cls.find(op).node.args.args][1:]
    return a[i]


def keep_own(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.initialize"
    from .index import sources, touches, cleared, rebuilt
    V, M = slot_lists(prog, rep, cls)
    reg = set()
    for fs in sources(prog, rep, cls).values():
        reg |= fs
    reg |= {owner_field(e.a[0], me) for op in ("insert", "add") if cls.find(op) for p in rets(paths(prog, rep, cls, op)) for e in p.events if e.kind == "mut" and e.loops and owner_field(e.a[0], me)}
    for p in rets(paths(prog, rep, cls, "initialize")):
        f, ln = loc(p)
        for F in V | M:
            if cleared(p, F, me):
                rep.bad("R19.keep", con, F, f"drops {F} although the index may hold vectors", f, ln)
        empty = any(a.op == "truthy" and v is False and owner_field(a.a[0], me) in V for a, v in p.facts.items())
        for F in reg - V - M:
            if not cleared(p, F, me) or empty:
                continue
            dead = any(a.op == "isnone" and v and owner_field(a.a[0], me) in V for a, v in p.facts.items())
            fed = any(e.kind in ("mut", "setitem") and owner_field(e.a[0], me) == F or (e.kind in ("mut", "setitem") and strip_ver(base_root(e.a[0])) is strip_ver(p.st.fields.get((me, F), NONE)))
                      for e in p.events if e.loops)
            over = any(e.kind == "iter" and owner_field(e.a[0], me) in V for e in p.events)
            nothing = any(a.op == "truthy" and v is False and (a.a[0].op in ("call", "alloc", "comp")) for a, v in p.facts.items())
            rep.check("R19.keep", con, over and (fed or dead or nothing), F, f"empties {F} without entering the vectors still held", f, ln)
        rep.ok("R19.keep", con)


# ------------------------------------------------------------------ C33
HELD = ("vector_count", "num_vectors")


def published(prog, rep, cls):
    """get_stats exits with content: list of (path, {key: value})."""
    out = []
    for p in rets(paths(prog, rep, cls, "get_stats")):
        c = p.st.heap.get(strip_ver(p.val))
        if c is None or c.kind != "dict":
            continue
        d = {cval(e.key): e.val for e in c.entries if e.key is not None and is_const(e.key) and e.tag == "one"}
        if set(d) == {"status"} or "error" in d and len(d) < 4:
            continue
        out.append((p, d))
    return out


OPS33 = {"storage": ["initialize", "store_vector", "delete_vector", "update_vector", "close", "clear"],
         "index": ["initialize", "insert", "add", "delete", "remove", "update", "clear", "close"]}


def fields_read(t, me):
    return {x.a[1] for x in walk(t) if x.op == "init" and x.a[0] is me}


def self_assigns(p, me, C):
    return [e for e in p.events if e.kind == "setfield" and e.a[0] is me and e.a[1].a[1] == C]


def dir_of(t):
    """Directory field a file term lives in."""
    for x in walk(t):
        if x.op == "init":
            yield x.a[1]


def change_events(p, me, srcs, sized):
    """Events changing what the counter counts: (event, kind).  sized: only changes of the number of elements matter."""
    out = []
    for e in p.events:
        if e.kind in ("setitem", "delitem", "popmiss", "mut"):
            F = owner_field(e.a[0], me)
            if F not in srcs or not direct(e.a[0]):
                continue
            if e.kind == "popmiss":
                continue
            if e.kind == "setitem" and sized and e.facts and any(a.op == "in" and v and a.a[0] is e.a[1] and owner_field(a.a[1], me) == F for a, v in e.facts.items()):
                continue
            if e.kind == "mut" and cval(e.a[1]) in ("sort", "reverse"):
                continue
            if e.kind == "mut" and cval(e.a[1]) == "clear" and False:
                continue
            out.append(e)
        elif e.kind == "setfield" and e.a[0] is me and e.a[1].a[1] in srcs:
            out.append(e)
        elif e.kind == "call" and is_write_call(e):
            ds = {d for x in e.a[2] for d in dir_of(x)} | {d for _, x in e.a[3] for d in dir_of(x)}
            if ds & srcs and e.a[0].a[0] not in (".mkdir", "os.makedirs", ".close"):
                if sized and any(a.op == "truthy" and v and contains(a, lambda x: x.op == "call" and x.a[0] in (".exists", ".is_file", "os.path.exists", "os.path.isfile")) and any(contains(a, lambda x: x is strip_ver(y)) for y in e.a[2][:1])
                                 for a, v in (e.facts or {}).items()) and e.a[0].a[0] not in (".unlink", "os.remove", "os.unlink"):
                    continue
                out.append(e)
    return out


def direct(t):
    """The container itself, not one of its parts."""
    return strip_ver(t).op == "init"


def c33(prog, rep):
    """Every counter get_stats publishes is either computed from the containers when asked, or re-computed from them after the last event
    that changes them, on every normal exit of every operation; the number of vectors is computed from the container of all held ids."""
    rep.rule("R33.source", "the published number of vectors is the size of a container that holds every vector", 6)
    rep.rule("R33.fresh", "a stored counter is brought up to date after the last change of what it counts", 10)
    rep.rule("R33.tiers", "the hybrid store publishes each tier's own statistics", 1)
    rep.rule("R33.buckets", "bucket statistics are computed from the sizes of the buckets", 1)
    for lay, err, ops, cls in components(prog, ("storage", "index")):
        me = self_of(cls)
        n = cname(cls)
        pub = published(prog, rep, cls)
        con = f"{n}.get_stats"
        if not pub:
            rep.unk("R33.source", con, "statistics not tracked")
            continue
        counters = set()
        for p, d in pub:
            f, ln = loc(p)
            for k in HELD:
                if k not in d:
                    continue
                t = strip_ver(d[k])
                if t.op == "init" and t.a[0] is me:
                    counters.add(t.a[1])
                    continue
                source(prog, rep, cls, lay, con, t, f, ln)
            for k, t in d.items():
                t = strip_ver(t)
                if k not in HELD:
                    counters |= {f2 for f2 in fields_read(t, me) if f2.startswith("_") and f2 not in ("_initialized", "_trained", "_built")}
            if n == "HybridStorage":
                for k, F in (("memory", "memory_storage"), ("disk", "disk_storage")):
                    t = strip_ver(d.get(k, NONE))
                    ok = t.op == "call" and t.a[0] == ".get_stats" and strip_ver(t.a[1][0]) is mk("init", me, F)
                    rep.check("R33.tiers", con, ok, k, f"publishes something else than the {k} tier's statistics under '{k}'", f, ln)
            for k in ("avg_bucket_size", "max_bucket_size"):
                if k in d:
                    buckets(prog, cls, rep, p, con, k, d[k], me)
            for k in ("cluster_stats", "hash_table_sizes"):
                if k in d:
                    part_sizes(rep, p, con, k, d[k], me)
            if "cache_size" in d:
                cache_size(prog, rep, cls, p, con, d["cache_size"], me)
            for k in d:
                if isinstance(k, str) and k.endswith("_mb") and k[:-3] + "_bytes" in d:
                    megabytes(rep, p, con, k, d[k], d[k[:-3] + "_bytes"])
        for C in sorted(counters):
            counter(prog, rep, cls, lay, C, any(k in d and strip_ver(d[k]) is mk("init", me, C) for _, d in pub for k in HELD))


def nested(prog, cls, rep, me, F):
    """insert puts ids two levels below the field: F[table][bucket].append(id)."""
    for p in rets(paths(prog, rep, cls, "insert")):
        for e in p.events:
            if e.kind == "mut" and cval(e.a[1]) in ("append", "add") and owner_field(e.a[0], me) == F:
                y = strip_ver(e.a[0])
                return y.op in ("item", "get") and strip_ver(y.a[0]).op in ("item", "get")
    return False


def buckets(prog, cls, rep, p, con, k, t, me):
    f, ln = loc(p)
    t = strip_ver(t)
    if is_const(t):
        return
    from .storage import elements
    for x in walk(t):
        if x.op in ("alloc", "comp"):
            es = elements(x, p)
            if es is None:
                rep.unk("R33.buckets", con, k)
                continue
            for e in es:
                e = strip_ver(e)
                if e.op == "call" and e.a[0] == "len" and owner_field(e.a[1][0], me):
                    y = strip_ver(e.a[1][0])
                    flat = y.op == "item" and strip_ver(y.a[0]).op == "init" and nested(prog, cls, rep, me, owner_field(y, me))
                    rep.check("R33.buckets", con, not flat, k, f"{k} is computed from the number of buckets, not from their sizes", f, ln)
                elif e.op in ("item", "get", "const", "param") or e.op == "call" and e.a[0] in ("max", "min", "sum", "numpy.max", "numpy.mean"):
                    rep.bad("R33.buckets", con, k, f"{k} is computed from the ids in the buckets, not from their sizes", f, ln)
                else:
                    rep.unk("R33.buckets", con, k)


def part_sizes(rep, p, con, k, t, me):
    """A published table of sizes: one entry per part of the container, each the size of that part."""
    f, ln = loc(p)
    t = strip_ver(t)
    c = p.st.heap.get(t)
    if c is not None:
        es = [e.val for e in c.entries if e.val is not None and e.tag != "prev"]
    elif t.op == "comp":
        es = [v for _, v in t.a[2]]
    else:
        rep.unk("R33.buckets", con, k)
        return
    for e in es:
        e = strip_ver(e)
        if e.op == "call" and e.a[0] == "len" and e.a[1]:
            x = strip_ver(e.a[1][0])
            if x.op == "init" and x.a[0] is me:
                rep.bad("R33.buckets", con, k, f"an entry of {k} is the size of the whole of {x.a[1]}, not of one part", f, ln)
            elif owner_field(x, me):
                rep.ok("R33.buckets", con)
            else:
                rep.unk("R33.buckets", con, k)
        elif is_const(e) or e.op in ("item", "get", "init") or e.op == "bin" and e.a[0] in ("+", "-") and any(is_const(y) and cval(y) not in (0, False) for y in e.a[1:]) and contains(e, lambda y: y.op == "call" and y.a[0] == "len"):
            rep.bad("R33.buckets", con, k, f"an entry of {k} is not the size of a part", f, ln)
        else:
            rep.unk("R33.buckets", con, k)


def cache_size(prog, rep, cls, p, con, t, me):
    f, ln = loc(p)
    t = strip_ver(t)
    fs = filled_by_search(prog, rep, cls)
    if t.op == "init" and t.a[0] is me:
        F = set()
        for op in OPS33["index"]:
            if cls.find(op):
                for q in rets(paths(prog, rep, cls, op)):
                    for e in self_assigns(q, me, t.a[1]):
                        F |= counted(strip_ver(e.a[2]), q, me)
    elif t.op == "call" and t.a[0] == "len" and t.a[1] and owner_field(t.a[1][0], me):
        F = {owner_field(t.a[1][0], me)}
    else:
        F = set()
    if not fs or not F:
        rep.unk("R33.source", con, "cache_size")
    else:
        rep.check("R33.source", con, bool(F & fs), "cache_size", f"cache_size counts {', '.join(sorted(F))}, not what is cached", f, ln)


def megabytes(rep, p, con, k, t, b):
    f, ln = loc(p)
    t, b = strip_ver(t), strip_ver(b)
    div = 1
    while t.op == "bin" and t.a[0] == "/" and isinstance(cval(t.a[2]), (int, float)):
        div *= cval(t.a[2])
        t = strip_ver(t.a[1])
    if t is not b or div == 1:
        rep.unk("R33.source", con, k)
    else:
        rep.check("R33.source", con, div == 1024 * 1024, k, f"{k} is the byte count divided by {div}", f, ln)


def id_containers(prog, rep, cls, lay):
    """Own containers holding every vector of the component."""
    me = self_of(cls)
    from .index import touches
    if lay == "storage":
        op = "store_vector"
        out = None
        for p in rets(paths(prog, rep, cls, op)):
            if p.val is TRUE:
                w = {owner_field(e.a[0], me) for e in p.events if e.kind == "setitem" and e.a[1] is ID and direct(e.a[0])}
                out = w if out is None else out & w
        return out or set()
    out = None
    for p in rets(paths(prog, rep, cls, "insert")):
        if fact(p, "truthy", lambda a: strip_ver(a.a[0]) is VECS) is not True:
            continue
        w = set()
        for e in p.events:
            if e.loops and e.kind in ("setitem", "mut") and direct(e.a[0]) and owner_field(e.a[0], me):
                if e.kind == "setitem" or cval(e.a[1]) in ("append", "add", "extend", "update"):
                    w.add(owner_field(e.a[0], me))
        out = w if out is None else out & w
    return (out or set()) - filled_by_search(prog, rep, cls)


def source(prog, rep, cls, lay, con, t, f, ln):
    """A published number of vectors computed on the spot."""
    me = self_of(cls)
    ids = id_containers(prog, rep, cls, lay)
    if t.op == "call" and t.a[0] == "len" and t.a[1]:
        F = owner_field(t.a[1][0], me)
        if F is None:
            if contains(t, lambda x: x.op == "call" and x.a[0] in (".glob", ".iterdir", "os.listdir", ".list_vectors", "glob.glob")):
                rep.ok("R33.source", con)
            elif strip_ver(t.a[1][0]).op == "comp":
                slots(rep, con, strip_ver(t.a[1][0]), me, prog, cls, f, ln)
            else:
                rep.unk("R33.source", con, "container not tracked")
            return
        if lay == "index" and not backed(prog, rep, cls):
            rep.bad("R33.source", con, "slots", f"counts the slots of {F}, removed vectors included", f, ln)
            return
        rep.check("R33.source", con, F in ids and direct(t.a[1][0]), "container", f"counts {F}, which does not hold every vector", f, ln)
        return
    if t.op == "call" and t.a[0] == "sum" and t.a[1] and strip_ver(t.a[1][0]).op == "comp":
        slots(rep, con, strip_ver(t.a[1][0]), me, prog, cls, f, ln)
        return
    rep.unk("R33.source", con, "expression not tracked")


def slots(rep, con, c, me, prog, cls, f, ln):
    F = owner_field(c.a[1], me)
    V, M = slot_lists(prog, rep, cls)
    if F not in V | M:
        rep.bad("R33.source", con, "container", f"counts the elements of {show(c.a[1])}", f, ln)
        return
    for cs, v in c.a[2]:
        live = any(a.op == "isnone" and pol is False or a.op == "truthy" and pol for a, pol in cs)
        one = is_const(v) and cval(v) in (1, True) or not is_const(v)
        if live and F in M and F not in V and any(a.op == "truthy" and pol and a.a[0].op == "item" for a, pol in cs):
            rep.bad("R33.source", con, "empty", "vectors whose metadata is empty are not counted", f, ln)
            continue
        if is_const(v) and cval(v) in (0, False):
            continue
        rep.check("R33.source", con, live and one, "live", "removed vectors are counted as held", f, ln)


def counter(prog, rep, cls, lay, C, is_count):
    me = self_of(cls)
    n = cname(cls)
    vals = []
    for op in OPS33[lay]:
        if cls.find(op):
            for p in rets(paths(prog, rep, cls, op)):
                vals += [(op, e.a[2], p) for e in self_assigns(p, me, C)]
    srcs, sized, inc = set(), True, False
    for op, v, p in vals:
        v = strip_ver(v)
        fr = counted(v, p, me)
        if C in fr or contains(v, lambda x: x.op == "phi"):
            inc = True
        fr.discard(C)
        srcs |= fr
        if not (is_const(v) or v.op == "call" and v.a[0] in ("len",) or inc):
            sized = False
    if not vals:
        return
    ids = id_containers(prog, rep, cls, lay)
    if inc:
        srcs |= ids
    if not srcs:
        return
    if is_count:
        for op, v, p in vals:
            v = strip_ver(v)
            if v.op == "call" and v.a[0] == "len":
                fr = counted(v, p, me)
                fr.discard(C)
                con = f"{n}.{C}"
                if ids and fr:
                    rep.check("R33.source", con, bool(fr & ids), "container", f"counts {', '.join(sorted(fr))}, which does not hold every vector", *loc(p))
                elif fr:
                    rep.ok("R33.source", con)
    slotted = set() if lay != "index" or backed(prog, rep, cls) else set().union(*slot_lists(prog, rep, cls))
    if is_count and lay == "storage" and any(outside(v) for _, v, _ in vals):
        con = f"{n}.initialize->{C}"
        for p in rets(paths(prog, rep, cls, "initialize")):
            last = self_assigns(p, me, C)[-1:]
            if not last:
                rep.bad("R33.fresh", con, "existing", "the vectors already on disk are not counted", *loc(p))
            elif outside(last[0].a[2]):
                rep.ok("R33.fresh", con)
            elif is_const(strip_ver(last[0].a[2])):
                rep.bad("R33.fresh", con, "existing", f"the counter starts at {show(last[0].a[2])} whatever is on disk", last[0].file, last[0].line)
    for op in OPS33[lay]:
        if cls.find(op) is None:
            continue
        con = f"{n}.{op}->{C}"
        for p in rets(paths(prog, rep, cls, op)):
            if lay == "index" and op in ("insert", "add") and fact(p, "truthy", lambda a: strip_ver(a.a[0]) is VECS) is False:
                continue
            ev = list(p.events)
            ch = change_events(p, me, srcs, sized)
            if not is_count:
                ch = [e for e in ch if not (e.kind == "setitem" and owner(e, me) in slotted)]
            asg = self_assigns(p, me, C)
            if not ch:
                for e in asg:
                    v = strip_ver(e.a[2])
                    if is_count and v.op == "bin" and op != "initialize" and C in fields_read(v, me) | phis(v):
                        rep.bad("R33.fresh", con, "drift", "the counter moves although nothing was added or removed", e.file, e.line)
                    elif is_count and sized and srcs and is_const(v) and not any(srcs & fields_read(a, me) for a in p.facts):
                        rep.bad("R33.fresh", con, "constant", f"the counter is set to {show(v)} while {', '.join(sorted(srcs))} keeps what it holds", e.file, e.line)
                continue
            last = ch[-1]
            after = [e for e in asg if ev.index(e) > ev.index(last)]
            if after:
                v = floored(strip_ver(after[-1].a[2]))
                if v.op == "bin" and C in fields_read(v, me) | phis(v):
                    step(rep, con, p, after[-1], v, ch, me, is_count)
                elif is_const(v):
                    z = cval(v) == 0 and all(empties(x, p) for x in [y for y in ch if owner(y, me) == owner(ch[-1], me)][-1:])
                    rep.check("R33.fresh", con, z, "constant", f"the counter is set to {show(v)} although vectors may remain", after[-1].file, after[-1].line)
                elif is_count and lay == "index" and op in ("insert", "add") and only_new(v, p, me, C):
                    rep.bad("R33.fresh", con, "batch", "the counter counts only the vectors of this call", after[-1].file, after[-1].line)
                else:
                    rep.ok("R33.fresh", con)
                continue
            prior = [e for e in asg if ev.index(e) < ev.index(last)]
            steps = [e for e in prior if strip_ver(e.a[2]).op == "bin" and C in fields_read(strip_ver(e.a[2]), me) | phis(strip_ver(e.a[2]))]
            if steps:
                for e in steps:
                    step(rep, con, p, e, strip_ver(e.a[2]), ch, me, is_count)
                continue
            if prior and is_const(strip_ver(prior[-1].a[2])) and cval(strip_ver(prior[-1].a[2])) == 0 and all(empties(x, p) for x in ch):
                rep.ok("R33.fresh", con)
                continue
            new = [e for e in prior if last.kind == "setfield" and strip_ver(e.a[2]).op == "call" and contains(e.a[2], lambda x: x is strip_ver(last.a[2]))]
            if new:
                rep.ok("R33.fresh", con)
                continue
            if contains(mk("tuple", *[e.a[2] for e in asg]), lambda x: x.op == "unk") if asg else False:
                rep.unk("R33.fresh", con, "value not tracked")
                continue
            rep.bad("R33.fresh", con, "stale", f"{C} is not brought up to date after {ev_name(last)}", last.file, last.line)
        rep.obl.setdefault(("R33.fresh", con), "ok")


def outside(v):
    """The value is computed from files."""
    return contains(v, lambda x: x.op == "call" and x.a[0] in (".glob", ".iterdir", ".rglob", "os.listdir", "glob.glob", "os.scandir"))


def owner(e, me):
    if e.kind in ("setitem", "delitem", "mut"):
        return owner_field(e.a[0], me)
    return e.a[1].a[1] if e.kind == "setfield" else None


def phis(t):
    return {x.a[1][5:] for x in walk(t) if x.op == "phi" and len(x.a) > 1 and isinstance(x.a[1], str) and x.a[1].startswith("self.")} | \
        {y.a[1] for x in walk(t) if x.op == "phi" for z in x.a if hasattr(z, "op") for y in walk(z) if y.op == "init"}


def counted(v, p, me):
    """Own fields the value is computed from (through local copies of containers and field values set on this path)."""
    out = fields_read(v, me)
    rev = {}
    for (o, f), w in p.st.fields.items():
        if o is me and w.op not in ("const", "param"):
            rev.setdefault(strip_ver(w), set()).add(f)
    for x in walk(v):
        if x in rev and x is not v:
            out |= rev[x]
    return out


def empties(e, p):
    if e.kind == "mut" and cval(e.a[1]) == "clear":
        return True
    if e.kind == "setfield":
        c = p.st.heap.get(strip_ver(e.a[2]))
        return c is not None and not [x for x in c.entries if x.tag != "prev"] or e.a[2] is NONE
    return False


def only_new(v, p, me, C):
    """The size of the given batch or of a list made during the call and kept nowhere."""
    if v.op == "item" and v.a[0].op in ("attr", "shape"):
        v = v.a[0]
    elif not (v.op == "call" and v.a[0] == "len" and v.a[1]):
        return False
    x = strip_ver(v.a[1][0] if v.op == "call" else v.a[0])
    if x is VECS:
        return True
    c = p.st.heap.get(x)
    return c is not None and c.kind == "list" and not c.src and not counted(mk("call", "len", (x,), (), None), p, me) - {C} and \
        not any(strip_ver(w) is x for w in p.st.fields.values()) and all(e.tag in ("one", "many", "prev") for e in c.entries) and \
        not any(e.kind == "mut" and strip_ver(e.a[0]) is x and cval(e.a[1]) not in ("append",) for e in p.events)


def floored(v):
    """max(0, counter - n) -> counter - n"""
    if v.op == "call" and v.a[0] == "max" and len(v.a[1]) == 2:
        rest = [x for x in v.a[1] if not (is_const(x) and cval(x) == 0)]
        if len(rest) == 1:
            return rest[0]
    return v


def step(rep, con, p, e, v, ch, me, is_count=True):
    """counter = counter +/- 1"""
    if not is_count:
        own = {owner(x, me): x for x in ch}
        read = fields_read(v, me)
        for F, x in sorted(own.items(), key=lambda kv: str(kv[0])):
            new = [strip_ver(y.a[2]) for y in ch if y.kind == "setitem" and owner(y, me) == F and hasattr(y.a[2], "op")]
            if F and F not in read and not any(contains(v, lambda t: t is w) for w in new) and not empties(x, p):
                rep.bad("R33.fresh", con, "part", f"the step leaves out the change of {F}", e.file, e.line)
                return
    if len(v.a) < 3 or not is_const(v.a[2]) or cval(v.a[2]) != 1 or v.a[0] not in ("+", "-"):
        if is_count and len(v.a) == 3 and v.a[0] == "+" and strip_ver(v.a[2]).op == "item" and is_const(strip_ver(v.a[2]).a[1]) and cval(strip_ver(v.a[2]).a[1]) in (1, -1) and strip_ver(strip_ver(v.a[2]).a[0]) is mk("attr", VECS, "shape"):
            rep.bad("R33.fresh", con, "amount", "the counter moves by the length of the vectors instead of their number", e.file, e.line)
        elif is_count and len(v.a) == 3 and is_const(v.a[2]) and v.a[0] in ("+", "-") and not any(x.loops for x in ch) and not e.loops and len({owner(x, me) for x in ch}) == len(ch):
            rep.bad("R33.fresh", con, "amount", f"the counter moves by {show(v.a[2])} for one vector", e.file, e.line)
        else:
            rep.unk("R33.fresh", con, "step not tracked")
        return
    facts = dict(p.facts)
    facts.update(e.facts or {})
    if v.a[0] == "+":
        adds = [x for x in ch if x.kind == "setitem" or x.kind == "mut" and cval(x.a[1]) in ("append", "add") or x.kind == "call" and x.a[0].a[0] in ("numpy.save",)]
        new = [x for x in adds if x.kind == "mut" or (x.kind == "setitem" and (x.a[1].op == "call" or any(a.op == "in" and not w and a.a[0] is x.a[1] for a, w in (x.facts or {}).items())))
               or (x.kind == "call" and any(a.op == "truthy" and not w and contains(a, lambda y: y.op == "call" and y.a[0] in (".exists", "os.path.exists")) for a, w in facts.items()))]
        if any(norm(strip_ver(x.a[1])).op == "unk" for x in adds if x.kind == "setitem"):
            rep.unk("R33.fresh", con, "key not tracked")
            return
        rep.check("R33.fresh", con, bool(new), "overwrite", "the counter grows although the id may already be stored", e.file, e.line)
    else:
        dels = [x for x in ch if x.kind == "delitem" or x.kind == "mut" and cval(x.a[1]) in ("remove", "pop", "discard") or x.kind == "call" and x.a[0].a[0] in (".unlink", "os.remove", "os.unlink")]
        rep.check("R33.fresh", con, bool(dels), "missing", "the counter shrinks although nothing was removed", e.file, e.line)


CHECKS = {"C18": c18, "C19": c19, "C33": c33}
