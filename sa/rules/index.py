"""Vector indices: registration, deletion, update, search results, rejected input, loading, counters; client delegation."""
import ast

from ..alias import Aliases
from ..common import *
from ..common import ClassInfo, Interp, walk
from ..terms import const, contains
from .storage import ID, META, VEC, args_of, elements, fact, has, rets

VECS = mk("param", "vectors")
IDS = mk("param", "ids")
QUERY = mk("param", "query_vector")
K = mk("param", "k")
FRESH = ("uuid.uuid4", "uuid.uuid1", "secrets.token_hex", "secrets.token_urlsafe")


def scalls(p, name):
    return [e for e in p.events if e.kind == "call" and e.a[0].a[0] == "." + name and e.a[2]]


_backed = {}


def backed(prog, rep, cls):
    """The index keeps its vectors in a storage backend."""
    k = (id(prog), cls.qual)
    if k not in _backed:
        _backed[k] = any(scalls(p, "store_vector") for p in paths(prog, rep, cls, "insert"))
    return _backed[k]


def indices(prog, rep, want=None):
    for lay, err, ops, cls in components(prog, ("index",)):
        b = backed(prog, rep, cls)
        if want is None or b == want:
            yield cls, b


def iterates(p, x):
    """The path iterates over the given parameter (directly or through a container built from it)."""
    return [e for e in p.events if e.kind == "iter" and has(e.a[0], x)]


def idx_of(t, root):
    """Index terms with which `root` is subscripted inside t."""
    return {x.a[1] for x in walk(t) if x.op == "item" and norm(strip_ver(x.a[0])) is root}


def expand(t, p, depth=0):
    """The term and, for elements of local containers, the terms those elements can be."""
    out = [t]
    if depth > 3:
        return out
    t = strip_ver(t)
    if t.op in ("item", "get"):
        b = strip_ver(t.a[0])
        es = elements(b, p) if b.op in ("alloc", "comp") else None
        for e in es or ():
            out += expand(e, p, depth + 1)
    if t.op == "call" and t.a[0] in ("str", "int", ".copy", "copy.copy", "list", "tuple", ".tolist") and t.a[1]:
        out += expand(t.a[1][0], p, depth + 1)
    return out


def touches(p, key, me, upto=None):
    """field -> True when the key is in (a part of) the field's container at the end of the path, False when it was taken out."""
    st = {}
    same = lambda y: y is key or (hasattr(y, "op") and any(t is key for t in expand(y, p)))
    for e in p.events:
        if e is upto:
            break
        F = None
        if e.kind in ("setitem", "delitem", "popmiss", "mut"):
            F = owner_field(e.a[0], me)
        if F is None:
            continue
        if e.kind == "setitem" and same(e.a[1]):
            st[F] = True
        elif e.kind == "setitem" and e.a[2] is not None and list_with(e.a[2], p.st.heap, key):
            st[F] = True
        elif e.kind in ("delitem", "popmiss") and same(e.a[1]):
            st[F] = False
        elif e.kind == "mut":
            n = cval(e.a[1])
            if n in ("append", "add", "insert", "appendleft") and any(same(y) for y in e.a[2]):
                st[F] = True
            elif n in ("extend", "update") and e.a[2] and list_with(e.a[2][0], p.st.heap, key):
                st[F] = True
            elif n in ("remove", "discard") and any(same(y) for y in e.a[2]):
                st[F] = False
            elif n == "clear" and strip_ver(e.a[0]).op == "init":
                st[F] = False
    return st


def list_with(t, heap, key):
    t = strip_ver(t)
    if t.op == "alloc":
        c = heap.get(t)
        return bool(c) and any(x.val is key or x.key is key or (x.val is not None and x.val.op in ("item", "get") and strip_ver(x.val.a[0]).op == "alloc" and list_with(x.val.a[0], heap, key)) for x in c.entries)
    if t.op == "comp":
        return any(v is key for _, v in t.a[2])
    return False


def in_facts(p, key, me):
    """Fields some part of which is known to contain the key (a fact, not a write)."""
    return {owner_field(a.a[1], me) for a, v in p.facts.items() if a.op == "in" and v and a.a[0] is key and owner_field(a.a[1], me)}


def cleared(p, F, me):
    return [e for e in p.events if (e.kind == "mut" and cval(e.a[1]) == "clear" and strip_ver(e.a[0]).op == "init" and owner_field(e.a[0], me) == F) or
            (e.kind == "setfield" and e.a[0] is me and e.a[1].a[1] == F)]


def rebuilt(p, F, me):
    """The container was cleared and refilled on this path by a loop over other registered ids."""
    cl = cleared(p, F, me)
    if not cl:
        return False
    ev = list(p.events)
    c = ev.index(cl[-1])
    return any(owner_field(e.a[0], me) == F for e in ev[c + 1:] if e.kind in ("setitem", "mut"))


def entered_twice(p, k, F, me, fs):
    """Event entering k in list F a second time: after a rebuild from the registered ids, or by the same append again."""
    ev = list(p.events)
    adds = [e for e in ev if e.kind == "mut" and cval(e.a[1]) in ("append", "insert") and owner_field(e.a[0], me) == F and any(y is k for z in e.a[2] for y in expand(z, p))]
    cl = cleared(p, F, me)
    if cl:
        c = ev.index(cl[-1])
        before = any(e.kind == "mut" and cval(e.a[1]) == "append" and k in e.a[2] and owner_field(e.a[0], me) not in (F, None) for e in ev[:c])
        adds = [e for e in adds if ev.index(e) > c]
        # the rebuild itself reads the ids back from a container; adding the id as such comes on top
        if adds and before:
            own = [e for e in adds if not from_field(e.a[2][-1], me)]
            if own:
                return own[0]
    seen = set()
    for e in adds:
        t = strip_ver(e.a[0])
        if t in seen:
            return e
        seen.add(t)
    return None


def from_field(t, me):
    return t.op in ("item", "get") and owner_field(t, me) is not None


def ctor_containers(prog, cls):
    me = self_of(cls)
    out = set()
    for p in Interp(prog).init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            if o is me and v.op == "alloc" and v.a[0] in ("dict", "list", "set") and f != "config":
                out.add(f)
    return out


_src = {}


def sources(prog, rep, cls):
    """Containers search draws candidate ids from: {flag assignment (frozenset of (field, bool)): {fields}}."""
    k = (id(prog), cls.qual)
    if k in _src:
        return _src[k]
    me = self_of(cls)
    C = ctor_containers(prog, cls)
    out = {}
    for p in rets(paths(prog, rep, cls, "search")):
        flags = frozenset((a.a[0].a[1], v) for a, v in p.facts.items() if a.op == "truthy" and a.a[0].op == "init" and a.a[0].a[0] is me
                          and a.a[0].a[1] not in C and a.a[0].a[1].startswith("_"))
        fs = {owner_field(e.a[0], me) for e in p.events if e.kind == "iter"} & C
        out.setdefault(flags, set()).update(fs)
    _src[k] = out
    return out


def flag_states(p, me):
    """Field flags at the end of the path (known ones)."""
    out = {}
    for a, v in p.facts.items():
        if a.op == "truthy" and a.a[0].op == "init" and a.a[0].a[0] is me:
            out[a.a[0].a[1]] = v
    for (o, f), v in p.st.fields.items():
        if o is me and v in (TRUE, FALSE):
            out[f] = v is TRUE
    return out


def compat(flags, known):
    return all(known.get(f, v) == v for f, v in flags)


# ------------------------------------------------------------------ C14
def c14(prog, rep):
    """On every path through insert of each index, for the arbitrary i-th vector: one record is stored under a fresh id with vector i and
    metadata i, the id is registered in every container search draws candidates from, and it is part of the returned list."""
    rep.rule("R14.store", "each vector is stored once, under a fresh id, with its own vector and metadata", 3)
    rep.rule("R14.register", "each inserted id is registered where search looks for candidates", 4)
    rep.rule("R14.place", "an id is filed under the centroid nearest to its vector (the label clustering gave it, when training)", 1)
    rep.rule("R14.return", "insert returns the id of every vector, in order", 3)
    rep.rule("R14.slot", "positional indices: id, vector slot and metadata slot advance together", 2)
    for cls, b in indices(prog, rep):
        if b:
            insert_backed(prog, rep, cls)
        else:
            insert_slots(prog, rep, cls)
            drawn(prog, rep, cls)


def drawn(prog, rep, cls):
    """The place an id is filed under is a function of its vector: no random number is drawn for it."""
    me = self_of(cls)
    for m in sorted(cls.methods):
        for p in paths(prog, rep, cls, m):
            for e in p.events:
                if e.kind != "mut" or strip_ver(e.a[0]).op not in ("item", "get") or not owner_field(e.a[0], me) or cval(e.a[1]) not in ("append", "add", "remove", "discard", "extend"):
                    continue
                keys = keys_of(e.a[0])
                r = [y for x in keys for y in deep(x, p) if y.op == "call" and (y.a[0].startswith(("numpy.random", "random.")) or y.a[0] in (".uniform", ".rand", ".randn", ".standard_normal", ".normal", ".randint", ".integers", ".choice", ".permutation", ".random_sample", ".random"))]
                kept = {y for x in p.events if x.kind == "setfield" for y in walk(x.a[2])}
                r = [y for y in r if y not in kept]          # drawn once and remembered
                if r:
                    rep.bad("R14.register", f"{cname(cls)}.{m}->{owner_field(e.a[0], me)}", "drawn", f"the place an id is filed under depends on a random number ({show(r[0])[:60]})", e.file, e.line)


def keys_of(t):
    out = []
    t = strip_ver(t)
    while t.op in ("item", "get"):
        out.append(t.a[1])
        t = strip_ver(t.a[0])
    return out


def deep(t, p, seen=None):
    """Terms in t, and in the elements of the local containers it is made of."""
    seen = set() if seen is None else seen
    for x in walk(t):
        yield x
        if x.op == "alloc" and x not in seen and x in p.st.heap:
            seen.add(x)
            for e in p.st.heap[x].entries:
                if e.val is not None:
                    yield from deep(e.val, p, seen)


def insert_backed(prog, rep, cls):
    placed(prog, rep, cls)
    insert_backed0(prog, rep, cls)


def insert_backed0(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.insert"
    src = sources(prog, rep, cls)
    wit = 0
    ins = rets(paths(prog, rep, cls, "insert"))
    for p in ins:
        if not iterates(p, VECS):
            continue
        wit += 1
        f, ln = loc(p)
        ss = scalls(p, "store_vector")
        if not ss:
            rep.bad("R14.store", con, "skipped", "a vector of the batch is not stored", f, ln)
            continue
        for e in ss:
            a = args_of(e, ("id", "vector", "metadata"))
            if len(a) < 2:
                rep.unk("R14.store", con, "arguments of store_vector not tracked")
                continue
            x, v = a[0], a[1]
            m = a[2] if len(a) > 2 else NONE
            why = stale_id(x, e, p, me)
            if why:
                rep.bad("R14.store", con, "id", why, e.file, e.line)
            iv = set().union(*[idx_of(t, VECS) for t in expand(v, p)])
            if not iv and not has(v, VECS):
                rep.bad("R14.store", con, "vector", "the stored vector is not a vector of the batch", e.file, e.line)
            elif len(iv) != 1:
                rep.unk("R14.store", con, "position of the stored vector not tracked")
            else:
                i = next(iter(iv))
                if i.op != "idx":
                    rep.bad("R14.store", con, "vector-position", f"stores vectors[{show(i)}] for every position", e.file, e.line)
                im = set().union(*[idx_of(t, META) for t in expand(m, p)])
                if m is NONE:
                    rep.check("R14.store", con, no_meta(p, i), "metadata-dropped", "metadata was given for this vector but is not stored", e.file, e.line)
                elif im and im != {i}:
                    rep.bad("R14.store", con, "metadata-position", f"vector {show(i)} is stored with metadata {show(next(iter(im)))}", e.file, e.line)
                elif not im and has(m, META):
                    rep.unk("R14.store", con, "position of the metadata not tracked")
                else:
                    rep.ok("R14.store", con)
            # registration
            for ev in p.events:
                if ev.kind == "setitem" and strip_ver(ev.a[0]).op == "init" and strip_ver(ev.a[0]).a[0] is me and strip_ver(ev.a[1]) is strip_ver(x):
                    own = set().union(*[idx_of(t, VECS) for t in expand(ev.a[2], p)])
                    if own and iv and not own & iv:
                        rep.bad("R14.register", f"{cname(cls)}.insert->{strip_ver(ev.a[0]).a[1]}", "vector", "the index keeps another vector under the id than the one stored", ev.file, ev.line)
            st = touches(p, x, me)
            inf = in_facts(p, x, me)
            known = flag_states(p, me)
            for flags, fs in src.items():
                if not compat(flags, known):
                    continue
                for F in fs:
                    c2 = f"{cname(cls)}.insert->{F}"
                    dup = entered_twice(p, x, F, me, fs)
                    if dup:
                        rep.bad("R14.register", c2, "twice", f"an inserted vector is entered twice in {F}", dup.file, dup.line)
                    elif st.get(F) is True and cut_loop(p, x, F, me):
                        rep.bad("R14.register", c2, "cut", f"only part of the inserted vectors is entered in {F}", f, ln)
                    elif st.get(F) is True or F in inf and st.get(F) is not False:
                        rep.ok("R14.register", c2)
                    elif rebuilt(p, F, me) or (cleared(p, F, me) and any(rebuilt(q, F, me) for q in ins)):
                        rep.ok("R14.register", c2)
                    elif unless_missing(p, F, me):
                        rep.ok("R14.register", c2)
                    elif x.op in ("item", "unk", "phi"):
                        rep.unk("R14.register", c2, "id not tracked")
                    else:
                        rep.bad("R14.register", c2, "unregistered", f"an inserted vector can be missing from {F}, so search never considers it", f, ln)
            es = elements(p.val, p)
            if es is None:
                rep.unk("R14.return", con, "returned list not tracked")
            else:
                got = any(y is x or has(y, x) for z in es for y in expand(z, p)) or strip_ver(p.val) is strip_ver(x.a[0] if x.op == "item" else x)
                rep.check("R14.return", con, got, "missing", "the id of an inserted vector is not returned", f, ln)
                cut_or_reordered(rep, "R14.return", con, p)
    if not wit:
        rep.unk("R14.store", con, "no path over a non-empty batch")


def placed(prog, rep, cls):
    """The group an id is filed under is that of the centroid nearest to its vector."""
    me = self_of(cls)
    n = cname(cls)
    for m in sorted(cls.methods):
        for p in paths(prog, rep, cls, m):
            for e in p.events:
                if e.kind == "setitem" and strip_ver(e.a[0]).op == "init" and strip_ver(e.a[0]).a[0] is me and e.a[2].op == "alloc" and e.a[2] in p.st.heap:
                    F, c = strip_ver(e.a[0]).a[1], strip_ver(e.a[1])
                    who = [x.val for x in p.st.heap[e.a[2]].entries if x.tag != "prev" and x.val is not None]
                elif e.kind == "mut" and cval(e.a[1]) in ("append", "add", "insert"):
                    t = strip_ver(e.a[0])
                    if t.op not in ("item", "get") or strip_ver(t.a[0]).op != "init" or strip_ver(t.a[0]).a[0] is not me:
                        continue
                    F, c = strip_ver(t.a[0]).a[1], strip_ver(t.a[1])
                    who = list(e.a[2])
                else:
                    continue
                while c.op == "call" and c.a[0] in ("int", "numpy.int64", ".item") and c.a[1]:
                    c = strip_ver(c.a[1][0])
                con = f"{n}.{m}->{F}"
                if c.op == "idx" or c.op == "phi" or is_const(c):
                    if e.kind == "mut":
                        nearest(rep, con, p, e, c, me)
                    continue
                arg = [x for x in walk(c) if x.op == "call" and x.a[0].rsplit(".", 1)[-1] in ("argmin", "argmax")]
                if arg:
                    rep.check("R14.place", con, arg[0].a[0].endswith("argmin"), "farthest", f"an id is filed in {F} under the farthest centroid", e.file, e.line)
                    continue
                lab = [x for x in walk(c) if x.op in ("call", "attr") and (x.a[0] in (".fit_predict", ".predict") or x.op == "attr" and x.a[1] == "labels_")]
                if e.kind == "setitem" and not lab:
                    continue
                if lab and c.op == "item" and who and who[0].op in ("item", "get"):
                    from .search import lockstep
                    j, i = strip_ver(c.a[1]), strip_ver(who[0])
                    if j.op != "idx":
                        if j.op == "bin" and any(strip_ver(x).op == "idx" for x in j.a[1:]):
                            rep.bad("R14.place", con, "label", "an id is filed under the label of another vector", e.file, e.line)
                        else:
                            rep.unk("R14.place", con, f"label position not followed ({show(j)[:60]})")
                        continue
                    L = strip_ver(j.a[0])
                    if L.op == "alloc":
                        vals = [x.val for x in p.st.heap[L].entries if x.val is not None and x.tag != "prev"] if L in p.st.heap else []
                        rep.check("R14.place", con, strip_ver(i.a[0]) is L or any(strip_ver(x) is i for x in vals) or not vals, "label", "an id is filed under the label of another vector", e.file, e.line)
                    else:
                        rep.check("R14.place", con, strip_ver(i.a[0]) is L and strip_ver(i.a[1]) is j, "label", "an id is filed under the label of another vector", e.file, e.line)
                    for call in lab:
                        for A in [x for x in walk(call) if x.op == "alloc" and x in p.st.heap and p.st.heap[x].kind == "list"]:
                            lockstep(rep, p, L, A, me, vec_copies(prog, rep, cls) | filled_by_search(prog, rep, cls), con, e.file, e.line, "R14.place")
                    continue
                if "item" not in (c.op,) or not has(c, VEC):
                    rep.unk("R14.place", con, f"choice of the group not followed ({show(c)[:60]})")


def nearest(rep, con, p, e, c, me):
    if is_const(c):
        seen = [x for x in p.events if x.kind == "iter" and strip_ver(x.a[0]).op == "init" and strip_ver(x.a[0]).a[0] is me and not any(strip_ver(y[0] if isinstance(y, tuple) else y) is strip_ver(x.a[0]) for y in e.loops)
                and any(a.op in ("lt", "le") and contains(a, lambda q: q.op == "item" and strip_ver(q.a[0]) is strip_ver(x.a[0])) for a in e.facts)]
        if seen:
            rep.bad("R14.place", con, "fixed", "every vector is filed in the same group", e.file, e.line)
        return
    if c.op == "phi":
        return
    R = c.a[0]
    R = strip_ver(R) if hasattr(R, "op") else None
    if R is None or R.op != "init" or R.a[0] is not me:
        return
    near = lambda x: contains(x, lambda q: q.op == "item" and strip_ver(q.a[0]) is R)
    ok = None
    for a, v in e.facts.items():
        if a.op not in ("lt", "le"):
            continue
        x, y = a.a[0], a.a[1]
        if y.op == "phi" and (near(x) or is_const(x)):
            good, M, D = v is True, y, x
        elif x.op == "phi" and (near(y) or is_const(y)):
            good, M, D = v is False, x, y
        else:
            continue
        ok = good if ok is None else ok and good
        rep.check("R14.place", con, good, "farthest", "an id is filed under the centroid farthest from its vector", e.file, e.line)
        if len(M.a) > 2 and is_const(M.a[2]) and isinstance(cval(M.a[2]), (int, float)) and cval(M.a[2]) <= 0:
            rep.bad("R14.place", con, "start", f"no centroid can be nearer than the starting value {cval(M.a[2])}", e.file, e.line)
        cur = p.st.env.get(M.a[1])
        if cur is not None and cur is M and good:
            rep.bad("R14.place", con, "forgotten", "the best distance so far is not remembered, so the last centroid near enough wins", e.file, e.line)
        return
    first = any(a.op in ("isnone", "eq") for a in e.facts if contains(a, lambda q: q.op == "phi"))
    if not first:
        rep.bad("R14.place", con, "last", "the group is not chosen by distance", e.file, e.line)


def cut_loop(p, k, F, me):
    """Every entry of k in F happens in a loop over a fixed cut (constant bounds) of a list."""
    stack, adds = [], []
    for e in p.events:
        if e.kind == "iter":
            stack.append(e)
        elif e.kind == "iterend" and stack:
            stack.pop()
        elif e.kind in ("mut", "setitem") and owner_field(e.a[0], me) == F:
            vals = [e.a[1], e.a[2]] if e.kind == "setitem" else list(e.a[2]) if cval(e.a[1]) in ("append", "add", "insert") else []
            if any(hasattr(y, "op") and any(z is k for z in expand(y, p)) for y in vals):
                adds.append(any(const_cut(i.a[0], p) or len(i.a) > 1 and hasattr(i.a[1], "op") and const_cut(i.a[1], p) for i in stack))
    return bool(adds) and all(adds)


def const_cut(t, p):
    t = strip_ver(t)
    while t.op == "call" and t.a[0] in ("list", "tuple", "enumerate", "reversed", "iter") and t.a[1]:
        t = strip_ver(t.a[1][0])
    b = None
    if t.op == "slice":
        b = t.a[1:3]
    elif t.op == "alloc" and t in p.st.heap and isinstance(p.st.heap[t].src, tuple) and p.st.heap[t].src[0] == "slice":
        b = p.st.heap[t].src[2:4]
    if b is None:
        return False
    lo, hi = [strip_ver(x) for x in b]
    return (is_const(hi) and hi is not NONE) or (is_const(lo) and lo is not NONE and cval(lo) not in (0, None))


def unless_missing(p, F, me):
    """The structure does not exist on this path (e.g. no centroids yet)."""
    return any(a.op == "isnone" and v and a.a[0].op == "init" and a.a[0].a[0] is me for a, v in p.facts.items()
               if a.op == "isnone" and a.a[0].op == "init" and a.a[0].a[1] not in ("storage_backend",))


def cut_or_reordered(rep, rule, con, p):
    v = strip_ver(p.val)
    c = p.st.heap.get(v) if v.op == "alloc" else None
    if c is not None and (c.limit or c.order or (isinstance(c.src, tuple) and c.src[0] in ("slice", "sorted", "reversed"))):
        rep.bad(rule, con, "shape", "the returned ids are cut or reordered", *loc(p))
    elif v.op == "slice" or (v.op == "call" and v.a[0] in ("sorted", "reversed", "set")):
        rep.bad(rule, con, "shape", "the returned ids are cut or reordered", *loc(p))


def no_meta(p, i):
    for a, v in p.facts.items():
        x = strip_ver(a.a[0]) if a.a and hasattr(a.a[0], "op") else None
        if x is META and ((a.op == "truthy" and not v) or (a.op == "isnone" and v)):
            return True
        if a.op == "lt" and not v and x is i and a.a[1] is mk("len", META) or a.op == "lt" and not v and x is i and a.a[1].op == "call" and a.a[1].a[0] == "len" and a.a[1].a[1][0] is META:
            return True
        if a.op in ("isnone", "truthy") and x is not None and x.op in ("item", "get") and strip_ver(x.a[0]) is META and x.a[1] is i and v == (a.op == "isnone"):
            return True
    return False


def stale_id(x, e, p, me):
    """Reason why the id can repeat (None when fresh or unknown)."""
    for t in expand(x, p):
        fr = [y for y in walk(t) if y.op == "call" and y.a[0] in FRESH]
        if fr:
            for y in walk(t):
                if y.op == "slice" and has(y.a[0], fr[0]) and not (y.a[2] is NONE):
                    hi = y.a[2]
                    if is_const(hi) and isinstance(cval(hi), int) and 0 < cval(hi) < 12:
                        return f"ids keep only {cval(hi)} characters of the generated identifier and can collide"
            uu = [ev for ev in p.events if ev.kind == "call" and ev.a[1] is fr[0]]
            if uu and e.loops and len(uu[0].loops) < len(e.loops) and not t.op == "item":
                return "all vectors of a batch get the same id"
            return None
    ts = expand(x, p)
    if all(y.op in ("idx", "item", "param", "call", "const", "attr", "glob", "len", "fmt", "alloc") for t in ts for y in walk(t)) and any(y.op == "call" and y.a[0] in ("uuid.uuid5", "uuid.uuid3") for t in ts for y in walk(t)):
        return f"the id {show(x)[:60]} is computed from the given data alone and repeats with it"
    if any(y.op in ("unk", "phi", "next") for t in ts for y in walk(t)):
        return None
    if all(y.op in ("param", "idx", "len", "const", "init", "fmt", "bin", "item", "self", "at", "call", "slice", "attr", "alloc", "glob") for t in ts for y in walk(t)):
        names = {y.a[0] for t in ts for y in walk(t) if y.op == "call"}
        if names <= {"str", "len", "int", "hash", ".tobytes", ".hexdigest", "hashlib.md5", "hashlib.sha1", "hashlib.sha256", ".format", "repr", ".zfill", ".join", "time.time", "random.random", "random.randint"}:
            return f"the id {show(x)[:60]} can repeat an id that is in use"
    return None


def counter_field(p, me):
    """(field, increments) of integer counters advanced on the path."""
    out = {}
    for e in p.events:
        if e.kind == "setfield" and e.a[0] is me:
            f, v = e.a[1].a[1], e.a[2]
            if v.op == "bin" and v.a[0] == "+" and any(is_const(x) and cval(x) == 1 for x in v.a[1:]) and has(v, mk("init", me, f)):
                out.setdefault(f, []).append((v, e))
    return out


def slot_lists(prog, rep, cls):
    """(vector list fields, metadata list fields) appended to by add/insert."""
    me = self_of(cls)
    V, M = set(), set()
    for p in rets(paths(prog, rep, cls, "add" if cls.find("add") else "insert")):
        for e in p.events:
            if e.kind == "mut" and cval(e.a[1]) == "append" and strip_ver(e.a[0]).op == "init" and strip_ver(e.a[0]).a[0] is me and e.a[2]:
                F = strip_ver(e.a[0]).a[1]
                if any(idx_of(t, VECS) for t in expand(e.a[2][0], p)):
                    V.add(F)
                elif any(has(t, META) for t in expand(e.a[2][0], p)):
                    M.add(F)
    return V, M


def insert_slots(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.insert"
    V, M = slot_lists(prog, rep, cls)
    if not V or not M:
        rep.bad("R14.slot", con, "lists", "the given vectors or metadata are not kept", cls.module.path, cls.node.lineno)
        return
    for op in ("insert", "add"):
        con = f"{cname(cls)}.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            if not iterates(p, VECS):
                continue
            f, ln = loc(p)
            app = {F: [e for e in p.events if e.kind == "mut" and cval(e.a[1]) == "append" and strip_ver(e.a[0]) is mk("init", me, F)] for F in V | M}
            for F in sorted(V | M):
                rep.check("R14.slot", con, len(app[F]) == 1, F, f"{F} gets {len(app[F])} entries per inserted vector", f, ln)
            ctr = counter_field(p, me)
            n = [(c, v) for c, v in ctr.items()]
            if len(n) != 1 or len(n[0][1]) != 1:
                bycount = any(has(z, mk("init", me, F)) for F in V for es in [elements(p.val, p) or []] for z in es)
                live = [z for es in [elements(p.val, p) or []] for z0 in es for z in expand(z0, p) for y in walk(z) if y.op == "call" and y.a[0] == "sum" and y.a[1]
                        for c in walk(y.a[1][0]) if c.op == "comp" and strip_ver(c.a[1]).op == "init" and strip_ver(c.a[1]).a[1] in V and any(br[0] for br in c.a[2])]
                if not n and live:
                    rep.bad("R14.slot", con, "live", "the id is the number of vectors still held, not the slot: after a removal it belongs to another vector", f, ln)
                elif not n and bycount:
                    rep.ok("R14.slot", con)
                else:
                    rep.bad("R14.slot", con, "counter", "the id counter does not advance by exactly one per vector", f, ln)
                continue
            at = [e for F in V for e in app[F]]
            if at and len(n[0][1][0][1].loops) < min(len(e.loops) for e in at):
                rep.bad("R14.slot", con, "counter", "the id counter advances once for the whole batch, so its vectors share one id", f, ln)
                continue
            newv = n[0][1][0][0]
            vid = [x for x in newv.a[1:] if not is_const(x)][0]
            iv = set().union(*[idx_of(t, VECS) for F in V for e in app[F] for t in expand(e.a[2][0], p)]) if any(app[F] for F in V) else set()
            if iv and any(i.op != "idx" for i in iv):
                rep.bad("R14.slot", con, "vector-position", "the same vector is kept for every position", f, ln)
            for F in M:
                for e in app[F]:
                    one = [x for c in walk(e.a[2][0]) if c.op == "comp" and has(c.a[1], META) for br in c.a[2] for x in walk(br[1]) if x.op == "item" and strip_ver(x.a[0]) is META and is_const(x.a[1])]
                    if one:
                        rep.bad("R14.slot", con, "metadata-position", "every vector is kept with the metadata of one of them", e.file, e.line)
                    im = positions(e.a[2][0], META)
                    if iv and im and not (im <= iv):
                        if all(i.op == "idx" or is_const(i) for i in im):
                            rep.bad("R14.slot", con, "metadata-position", "a vector is kept with the metadata of another", e.file, e.line)
            es = elements(p.val, p)
            if es is None:
                rep.unk("R14.return", con, "returned list not tracked")
            else:
                rep.check("R14.return", con, any(vid is y for z in es for y in expand(z, p)), "missing", "the id under which a vector was kept is not returned", f, ln)
                cut_or_reordered(rep, "R14.return", con, p)
            for F in spread(prog, rep, cls):
                left = first_only(p, F, me, lambda x: True, ("append", "add"))
                if left:
                    rep.bad("R14.register", f"{cname(cls)}.{op}->{F}", "first", f"an inserted vector is entered only in the first part of {F}", left.file, left.line)
            # the search structure refers to the same id
            for e in p.events:
                if e.kind == "mut" and cval(e.a[1]) == "append" and strip_ver(e.a[0]).op != "init" and is_self_rooted(e.a[0], me) and e.a[2]:
                    rep.check("R14.register", f"{cname(cls)}.{op}->{owner_field(e.a[0], me)}", e.a[2][0] is vid, "id", "the search structure is given another id than the vector's slot", e.file, e.line)
                    rep.check("R14.register", f"{cname(cls)}.{op}->{owner_field(e.a[0], me)}", not any(y.op == "idx" and len(y.a) and hasattr(y.a[0], "op") and const_cut(y.a[0], p) for y in walk(e.a[0])),
                              "cut", "inserted vectors are entered only in some parts of the search structure, or in the parts of another hash", e.file, e.line)
                    fixed = fixed_part(e.a[0])
                    if fixed is not None:
                        rep.bad("R14.register", f"{cname(cls)}.{op}->{owner_field(e.a[0], me)}", "part", f"inserted vectors are entered only in part {show(fixed)} of {owner_field(e.a[0], me)}", e.file, e.line)
                if e.kind == "call" and e.a[0].a[0] == ".add_item" and len(e.a[2]) > 2:
                    c2 = f"{cname(cls)}.{op}->annoy"
                    rep.check("R14.register", c2, e.a[2][1] is vid, "id", "the search structure is given another id than the vector's slot", e.file, e.line)
                    ii = set().union(*[idx_of(t, VECS) for t in expand(e.a[2][2], p)])
                    rep.check("R14.register", c2, not ii or ii == iv, "vector", "the search structure is given another vector than the slot", e.file, e.line)
            slot_reset(prog, rep, cls, V, n[0][0], me)
            if not structure_fed(prog, rep, cls, op):
                rep.bad("R14.register", f"{cname(cls)}.{op}->search", "none", "inserted vectors never reach the search structure", f, ln)


def slot_reset(prog, rep, cls, V, ctr, me):
    """Whatever empties the vector list also restarts the id counter, and the other way round."""
    from .storage import emptied
    con = f"{cname(cls)}.{ctr}"
    if ("R14.slot", con) in rep.obl:
        return
    for nm in sorted(cls.methods):
        if nm.startswith("_"):
            continue
        for p in rets(paths(prog, rep, cls, nm)):
            e = [x for x in (emptied(p, mk("init", me, F), me) for F in V) if x]
            w = [x for x in p.events if x.kind == "setfield" and x.a[0] is me and cval(x.a[1]) == ctr]
            if e and not w:
                rep.bad("R14.slot", con, nm, f"{nm}() empties {', '.join(sorted(V))} but {ctr} goes on counting, so new ids no longer match their slots", e[0].file, e[0].line)
            elif w and not e and is_const(strip_ver(w[-1].a[2])):
                rep.bad("R14.slot", con, nm, f"{nm}() restarts {ctr} although {', '.join(sorted(V))} keeps its vectors", w[-1].file, w[-1].line)
    rep.ok("R14.slot", con)


def fixed_part(t):
    """Constant subscript on the way from a field to a part of it."""
    while t.op in ("item", "get", "at", "slice", "attr"):
        if t.op in ("item", "get") and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            return t.a[1]
        t = t.a[0]
    return None


def positions(t, root):
    """Outermost subscripts applied to a sequence built from root."""
    if isinstance(t, tuple):
        return set().union(*[positions(x, root) for x in t]) if t else set()
    if not hasattr(t, "op"):
        return set()
    if t.op == "item":
        b = strip_ver(t.a[0])
        if b is root or (b.op in ("comp", "call") and has(b, root)):
            return {t.a[1]}
    return set().union(*[positions(x, root) for x in t.a]) if t.a else set()


def structure_fed(prog, rep, cls, op):
    me = self_of(cls)
    V, M = slot_lists(prog, rep, cls)
    for p in rets(paths(prog, rep, cls, op)):
        for e in p.events:
            if e.kind == "call" and e.a[0].a[0] == ".add_item":
                return True
            if e.kind in ("mut", "setitem") and is_self_rooted(e.a[0], me) and owner_field(e.a[0], me) not in V | M:
                return True
    return False


# ------------------------------------------------------------------ C15
def vec_copies(prog, rep, cls):
    """Fields in which insert keeps a copy of the vector under its id."""
    me = self_of(cls)
    out = set()
    for p in rets(paths(prog, rep, cls, "insert")):
        for e in scalls(p, "store_vector"):
            x = (args_of(e, ("id",)) or [None])[0]
            for w in p.events:
                if w.kind == "setitem" and w.a[1] is x and owner_field(w.a[0], me) and any(has(t, VECS) for t in expand(w.a[2], p)):
                    out.add(owner_field(w.a[0], me))
    return out


def c15(prog, rep):
    """On every path through delete, for the arbitrary i-th id: the storage backend is asked to drop it, it is taken out of every container
    insert registers ids in, an unknown id makes the overall answer False, and the remaining ids are still processed."""
    rep.rule("R15.storage", "every listed id is deleted from the storage backend", 3)
    rep.rule("R15.containers", "every listed id leaves every container it was registered in", 5)
    rep.rule("R15.answer", "the answer is True only if every listed id existed", 3)
    rep.rule("R15.all", "an unknown id does not stop the deletion of the others", 3)
    rep.rule("R15.slot", "positional indices: removed slots lose vector and metadata and leave the search structure", 2)
    for cls, b in indices(prog, rep):
        if b:
            delete_backed(prog, rep, cls)
        else:
            remove_slots(prog, rep, cls)


def delete_backed(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.delete"
    want = set().union(*sources(prog, rep, cls).values()) | vec_copies(prog, rep, cls)
    wit = 0
    for p in rets(paths(prog, rep, cls, "delete")):
        if not iterates(p, IDS):
            continue
        wit += 1
        f, ln = loc(p)
        open_loops = [e for e in p.events if e.kind == "iter" and has(e.a[0], IDS)]
        closed = [e for e in p.events if e.kind == "iterend" and has(e.a[0], IDS)]
        if len(closed) < len(open_loops):
            rep.bad("R15.all", con, "stops", "stops at an id before the rest of the list is processed", f, ln)
            continue
        rep.ok("R15.all", con)
        dc = scalls(p, "delete_vector")
        keys = {(args_of(e, ("id",)) or [None])[0] for e in dc}
        if not dc:
            rep.bad("R15.storage", con, "storage", "a listed id is not deleted from the storage backend", f, ln)
            keys = {x for a in p.facts for x in walk(a) if x.op == "item" and strip_ver(x.a[0]) is IDS}
        elif any(k is None or not any(has(t, IDS) for t in expand(k, p)) for k in keys):
            rep.bad("R15.storage", con, "id", "deletes another id from the storage backend", f, ln)
        else:
            rep.ok("R15.storage", con)
        for k in keys:
            if k is None:
                continue
            st = touches(p, k, me)
            for F in want:
                c2 = f"{con}->{F}"
                rep.check("R15.containers", c2, gone(p, k, F, st, me), "survives", f"a deleted id can survive in {F}", f, ln)
            for F in spread(prog, rep, cls):
                left = first_only(p, F, me, lambda a: any(strip_ver(y) is strip_ver(k) for y in a))
                if left:
                    rep.bad("R15.containers", f"{con}->{F}", "first", f"a deleted id leaves only the first part of {F} that holds it", left.file, left.line)
            for F in linked(prog, rep, cls):
                unlink(rep, p, k, F, me, f"{con}->{F}")
        for e in dc:
            c = e.a[1]
            t = fact(p, "truthy", lambda a: a.a[0] is c)
            if t is False:
                if p.val is FALSE or (p.val.op in ("phi", "bin", "and", "un", "cmp", "unk", "quant", "all")):
                    rep.ok("R15.answer", con)
                else:
                    rep.bad("R15.answer", con, "success", "reports success although an id was not found", f, ln)
            elif t is True:
                if p.val is FALSE:
                    rep.bad("R15.answer", con, "failure", "reports failure although every id was found", f, ln)
                elif p.val is TRUE:
                    rep.bad("R15.answer", con, "sticky", "forgets that an earlier id was not found", f, ln)
                else:
                    rep.ok("R15.answer", con)
            elif p.val is c:
                rep.bad("R15.answer", con, "sticky", "answers for the last id only", f, ln)
            elif p.val is TRUE:
                rep.bad("R15.answer", con, "ignored", "reports success whatever the storage backend answered", f, ln)
            else:
                rep.ok("R15.answer", con) if has(p.val, c) or p.val.op in ("phi",) else rep.unk("R15.answer", con, "answer not tracked")
    if not wit:
        rep.unk("R15.storage", con, "no path over a non-empty list")


def depth(t):
    n = 0
    while t.op in ("item", "get", "at"):
        n += t.op != "at"
        t = t.a[0]
    return n


def spread(prog, rep, cls):
    """Fields in several parts of which insert enters one id (every level of a graph, every table)."""
    me = self_of(cls)
    out = set()
    for op in ("insert", "add"):
        for p in rets(paths(prog, rep, cls, op)) if cls.find(op) else []:
            for e in p.events:
                if e.kind in ("setitem", "mut") and depth(e.a[0]) >= 1 and owner_field(e.a[0], me) and (e.kind == "setitem" or cval(e.a[1]) in ("append", "add")):
                    t = strip_ver(e.a[0])
                    keys = keys_of(t)
                    if e.loops and len(e.loops) >= 2 and any(strip_ver(x).op == "idx" and not has(x, VECS) for x in keys):
                        out.add(owner_field(t, me))
    return out


def first_only(p, F, me, about, ops=("remove", "pop", "discard")):
    """A loop over the parts of F is left right after the id was taken out of one of them."""
    stack = []
    for e in p.events:
        if e.kind == "iter":
            stack.append([e, False])
        elif e.kind == "iterend" and stack:
            stack.pop()
        elif e.kind == "breakout" and stack:
            it, hit = stack.pop()
            if hit and it.a[0] is e.a[0]:
                return e
        elif e.kind == "delitem" and owner_field(e.a[0], me) == F and depth(e.a[0]) >= 1 and about([e.a[1]]) or \
                e.kind == "mut" and owner_field(e.a[0], me) == F and depth(e.a[0]) >= 1 and cval(e.a[1]) in ops and about(list(e.a[2])):
            if stack and any(strip_ver(x).op == "idx" for x in keys_of(e.a[0])):
                stack[-1][1] = True
    return None


def linked(prog, rep, cls):
    """Fields in which insert also enters the id into the lists kept under other ids."""
    me = self_of(cls)
    out = set()
    for p in rets(paths(prog, rep, cls, "insert")):
        for e in scalls(p, "store_vector"):
            x = (args_of(e, ("id",)) or [None])[0]
            keys = {w.a[1] for w in p.events if w.kind == "setitem"}
            for w in p.events:
                if w.kind == "mut" and x is not None and x in w.a[2] and owner_field(w.a[0], me) and depth(w.a[0]) >= 2 and x in keys and not has(w.a[0], x):
                    out.add(owner_field(w.a[0], me))
    return out


def unlink(rep, p, k, F, me, con):
    """Where k's own entry is removed from a part of F, k also leaves the lists of the entries it was linked with."""
    for e in p.events:
        if not (e.kind in ("delitem", "popmiss") and owner_field(e.a[0], me) == F and e.a[1] is k):
            continue
        its = [i for i in p.events if i.kind == "iter" and (has(i.a[0], k) or strip_ver(i.a[0]) is strip_ver(e.a[0])) and owner_field(i.a[0], me) in (F, None) and i is not e]
        its = [i for i in its if i.a[0] is not k and not has(i.a[0], IDS) or has(i.a[0], e.a[0])]
        zero = any(a.op == "truthy" and v is False and (owner_field(a.a[0], me) == F or a.a[0] in [i.a[0] for i in its]) for a, v in p.facts.items())
        rem = [i for i in p.events if i.kind == "mut" and cval(i.a[1]) in ("remove", "discard") and k in i.a[2] and owner_field(i.a[0], me) == F and depth(i.a[0]) >= 2]
        reset = [i for i in p.events if i.kind == "setitem" and owner_field(i.a[0], me) == F and i.a[2] is not None and i.a[2].op in ("comp", "alloc")]
        notin = any(a.op == "in" and v is False and owner_field(a.a[1], me) == F and (depth(a.a[1]) >= 2 if a.a[0] is k else True) for a, v in p.facts.items())
        if rem or reset or notin or zero:
            rep.ok("R15.containers", con)
        elif its or not any(i.kind == "iter" and owner_field(i.a[0], me) == F and depth(i.a[0]) >= 1 for i in p.events):
            rep.bad("R15.containers", con, "linked", f"the lists in {F} of the entries linked with a deleted id can still name it", e.file, e.line)


def partial(p, k, F, me):
    """Every removal of k from F on the path reaches a fixed part of F or a cut of it only."""
    def part(t):
        while t.op in ("item", "get", "at", "slice", "attr"):
            if t.op == "slice" and not (t.a[1] is NONE and t.a[2] is NONE):
                return True
            if t.op in ("item", "get") and is_const(t.a[1]):
                return True
            t = t.a[0]
        return False
    rem = [e for e in p.events if owner_field(e.a[0], me) == F and ((e.kind in ("delitem", "popmiss") and e.a[1] is k) or (e.kind == "mut" and cval(e.a[1]) in ("remove", "discard") and k in e.a[2]))]
    return bool(rem) and all(part(e.a[0]) for e in rem)


def gone(p, k, F, st, me):
    if F in st:
        return (st[F] is False and not partial(p, k, F, me)) or None
    ref = mk("init", me, F)
    held = any(a.op == "in" and v is True and a.a[0] is k and owner_field(a.a[1], me) == F for a, v in p.facts.items())
    for a, v in () if held else p.facts.items():
        if a.op == "in" and v is False and a.a[0] is k and owner_field(a.a[1], me) == F:
            return True
        if a.op == "truthy" and v is False and strip_ver(a.a[0]) is ref:
            return True
        if a.op == "truthy" and v is False and owner_field(a.a[0], me) == F:
            return True
    for e in p.events:
        if e.kind == "setfield" and e.a[0] is me and e.a[1].a[1] == F and (contains(e.a[2], lambda x: x.op == "comp") or e.a[2].op in ("alloc", "comp")):
            return True
        if e.kind == "setitem" and owner_field(e.a[0], me) == F and e.a[2] is not None and e.a[2].op in ("comp", "alloc"):
            return True
    return False


def bounds_ok(facts, k, me, V):
    """0 <= k < len(list) and slot in use are known."""
    lo = any(a.op == "lt" and a.a[0] is k and is_const(a.a[1]) and cval(a.a[1]) == 0 and v is False for a, v in facts.items()) or \
        any(a.op == "lt" and is_const(a.a[0]) and cval(a.a[0]) in (-1,) and a.a[1] is k and v is True for a, v in facts.items()) or \
        any(a.op == "in" and v and a.a[0] is k and contains(a.a[1], lambda y: y.op == "call" and y.a[0] == "range") for a, v in facts.items())
    hi = any(a.op == "lt" and a.a[0] is k and v is True and is_len(a.a[1], V, me) for a, v in facts.items()) or \
        any(a.op == "le" and is_len(a.a[0], V, me) and a.a[1] is k and v is False for a, v in facts.items()) or \
        any(a.op == "in" and v and a.a[0] is k and contains(a.a[1], lambda y: y.op == "call" and y.a[0] == "range" and len(y.a[1]) == 1) for a, v in facts.items())
    return lo, hi


def is_len(t, V, me):
    t = strip_ver(t)
    return (t.op == "len" or (t.op == "call" and t.a[0] == "len")) and owner_field(t.a[0] if t.op == "len" else t.a[1][0], me) in V or \
        (t.op == "init" and t.a[0] is me and t.a[1].endswith("next_id"))


def slot_live(facts, k, me, V):
    return any(a.op == "isnone" and v is False and a.a[0].op == "item" and owner_field(a.a[0].a[0], me) in V and a.a[0].a[1] is k for a, v in facts.items()) or \
        any(a.op == "truthy" and v is True and a.a[0].op == "item" and owner_field(a.a[0].a[0], me) in V and a.a[0].a[1] is k for a, v in facts.items())


def remove_slots(prog, rep, cls):
    me = self_of(cls)
    n = cname(cls)
    V, M = slot_lists(prog, rep, cls)
    con = f"{n}.remove"
    hit = False
    struct = {owner_field(e.a[0], me) for p in rets(paths(prog, rep, cls, "insert")) for e in p.events
              if e.kind == "mut" and cval(e.a[1]) == "append" and strip_ver(e.a[0]).op != "init" and is_self_rooted(e.a[0], me)}
    for p in rets(paths(prog, rep, cls, "remove")):
        w = [e for e in p.events if e.kind == "setitem" and strip_ver(e.a[0]).op == "init" and owner_field(e.a[0], me) in V and e.a[2] is NONE]
        if not w:
            if iterates(p, IDS):
                ks = {x for a in p.facts for x in walk(a) if x.op == "item" and strip_ver(x.a[0]) is IDS}
                for k in ks:
                    lo, hi = bounds_ok(p.facts, k, me, V)
                    live = slot_live(p.facts, k, me, V)
                    if lo and hi and live:
                        rep.bad("R15.slot", con, "kept", "a live id is not removed", *loc(p))
            continue
        hit = True
        for e in w:
            k = e.a[1]
            rep.check("R15.slot", con, any(has(t, IDS) for t in expand(k, p)), "id", "clears the slot of another id", e.file, e.line)
            for F in sorted(M):
                okm = any(x.kind == "setitem" and strip_ver(x.a[0]) is mk("init", me, F) and x.a[1] is k and x.a[2] is NONE for x in p.events)
                rep.check("R15.slot", con, okm, F, f"the removed vector's entry in {F} survives", e.file, e.line)
            for F in struct:
                okb = any(x.kind == "mut" and cval(x.a[1]) in ("remove", "discard") and owner_field(x.a[0], me) == F and k in x.a[2] for x in p.events) or \
                    any(x.kind == "delitem" and owner_field(x.a[0], me) == F for x in p.events) or \
                    any(a.op == "in" and v is False and owner_field(a.a[1], me) == F for a, v in p.facts.items()) or \
                    any(a.op == "truthy" and v is False and (owner_field(a.a[0], me) == F or a.a[0].op in ("call", "alloc", "comp")) for a, v in p.facts.items()) or \
                    any(x.kind in ("handled",) for x in p.events)
                rep.check("R15.slot", con, okb, F, f"the removed id can survive in {F}", e.file, e.line)
                left = first_only(p, F, me, lambda x: True)
                if left:
                    rep.bad("R15.slot", con, F + "-first", f"the removed id leaves only the first part of {F} that holds it", left.file, left.line)
    if not hit:
        rep.bad("R15.slot", con, "never", "remove never clears a slot", cls.module.path, cls.find("remove").node.lineno)
    con = f"{n}.delete"
    reach_remove = False
    for p in rets(paths(prog, rep, cls, "delete")):
        if any(e.kind == "setitem" and owner_field(e.a[0], me) in V and e.a[2] is NONE for e in p.events):
            reach_remove = True
        if iterates(p, IDS):
            its = [e for e in p.events if e.kind == "iter" and has(e.a[0], IDS)]
            ends = [e for e in p.events if e.kind == "iterend" and has(e.a[0], IDS)]
            rep.check("R15.all", con, len(ends) >= len(its), "stops", "stops at an id before the rest of the list is processed", *loc(p))
        v = strip_ver(p.val)
        if v.op == "call" and v.a[0] == "any" and v.a[1] and has(v.a[1][0], IDS):
            rep.bad("R15.answer", con, "any", "reports success although an id was not found, as long as another one was", *loc(p))
        elif v.op == "call" and v.a[0] == "all" and v.a[1] and strip_ver(v.a[1][0]).op == "comp":
            for cs, x in strip_ver(v.a[1][0]).a[2]:
                if x is TRUE:
                    rep.check("R15.answer", con, not any(slot_unknown(a, w, me, V) for a, w in cs), "success", "reports success although an id was not found", *loc(p))
                elif x is FALSE:
                    rep.check("R15.answer", con, any(slot_unknown(a, w, me, V) for a, w in cs) or not cs, "failure", "reports failure although an id was found", *loc(p))
        if not iterates(p, IDS) or p.val is not TRUE:
            continue
        # a path that answers True must not have seen an id that is out of range, removed or not a number
        unknown = [a for a, v in p.facts.items() if slot_unknown(a, v, me, V)]
        wl = [a for a in unknown if from_ids(a, p)]
        if wl:
            rep.bad("R15.answer", con, "success", "reports success although an id was not found", *loc(p))
    rep.check("R15.all", con, reach_remove, "never", "delete never removes a vector", cls.module.path, cls.find("delete").node.lineno)
    answers = {p.val for p in rets(paths(prog, rep, cls, "delete")) if iterates(p, IDS)}
    if answers and answers <= {TRUE}:
        rep.bad("R15.answer", con, "always", "always reports success", cls.module.path, cls.find("delete").node.lineno)
    else:
        rep.ok("R15.answer", con)


def slot_unknown(a, v, me, V):
    if a.op == "lt" and v is True and is_const(a.a[1]) and cval(a.a[1]) == 0:
        return True
    if a.op == "lt" and v is False and is_len(a.a[1], V, me):
        return True
    if a.op == "isnone" and v is True and a.a[0].op == "item" and owner_field(a.a[0].a[0], me) in V:
        return True
    return False


def from_ids(a, p):
    return contains(a, lambda x: x.op == "item" and strip_ver(x.a[0]) is IDS)


def told(prog, rep, cls, b):
    """One arbitrary turn of the loop over the ids in delete: after an id that is not in the index the answer is False and stays False;
    it is left as it was only after an id that was found."""
    from .text import Iters, loops_of, site_phis
    me = self_of(cls)
    con = f"{cname(cls)}.delete"
    fi = cls.find("delete")
    I = Interp(prog, Iters())
    ps = rets(I.run_method(cls, fi))
    V = set() if b else slot_lists(prog, rep, cls)[0]
    for lp in loops_of(I):
        if lp.fr.fn.name != fi.node.name:
            continue
        answers = {x.value.id for x in ast.walk(fi.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
        assigned = {x.id for x in ast.walk(lp.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for it in lp.its:
            if it.kind not in ("normal", "continue") or not it.key or not hasattr(it.key[0], "op") or strip_ver(it.key[0]) is not IDS:
                continue
            cand = {S: phi for S, phi in site_phis(it).items() if len(phi.a) > 2 and phi.a[2] is TRUE}
            cand.update({S: None for S in assigned if S not in site_phis(it)})
            for S, phi in cand.items():
                if S not in answers:
                    continue
                out = it.st.env.get(S)
                if out is None:
                    continue
                out = norm(out)
                facts = it.facts
                if out is phi and any(a.op == "truthy" and v is False and norm(a.a[0]) is phi for a, v in facts.items()):
                    out = FALSE
                kept = out is phi or out is TRUE and not any(a.op == "truthy" and v and norm(a.a[0]) is phi for a, v in facts.items())
                line = getattr(lp.node, "lineno", 0)
                if b:
                    gone = any(a.op == "truthy" and v is False and a.a[0].op == "call" and a.a[0].a[0] == ".delete_vector" for a, v in facts.items())
                    known = any(a.op == "truthy" and v and a.a[0].op == "call" and a.a[0].a[0] == ".delete_vector" for a, v in facts.items())
                else:
                    ks = {x for a in facts for x in walk(a) if x.op == "call" and x.a[0] == "int" and x.a[1] and x.a[1][0].op == "item" and strip_ver(x.a[1][0].a[0]) is IDS}
                    gone = any(slot_unknown(a, v, me, V) and any(contains(a, lambda x: x is k) for k in ks) for a, v in facts.items()) or \
                        any(a.op == "truthy" and v is False and a.a[0].op == "call" and a.a[0].a[0] == "parses_int" for a, v in facts.items())
                    known = any(all(bounds_ok(facts, k, me, V)) and slot_live(facts, k, me, V) for k in ks)
                if out.op == "call" and out.a[0] == ".delete_vector" and (phi is None or not any(has(a, phi) for a in facts)):
                    rep.bad("R10.index", con, "forgets", "the answer is that of the last id alone", lp.fr.module.path, line)
                    continue
                if phi is None and out not in (TRUE, FALSE):
                    continue
                if gone:
                    if out is FALSE or out is phi and any(a.op == "truthy" and v is False and norm(a.a[0]) is phi for a, v in facts.items()):
                        rep.ok("R10.index", con)
                    elif kept or not contains(out, lambda x: x.op in ("unk", "phi") or x.op == "call" and x.a[0] in (".delete_vector", "parses_int")):
                        rep.bad("R10.index", con, "answer", "reports success although an id was not found", lp.fr.module.path, line)
                    else:
                        rep.unk("R10.index", con, "answer not tracked")
                elif out is TRUE and kept:
                    rep.bad("R10.index", con, "forgets", "a later id that is found makes the answer True again", lp.fr.module.path, line)
                elif kept and not known and not b:
                    rep.bad("R10.index", con, "unfound", "reports success for an id that may lie outside the index or be removed already", lp.fr.module.path, line)


# ------------------------------------------------------------------ C10 (index part)
def unknown_index(prog, rep):
    for cls, b in indices(prog, rep):
        me = self_of(cls)
        n = cname(cls)
        con = f"{n}.update"
        if b:
            for p in rets(paths(prog, rep, cls, "update")):
                u = scalls(p, "update_vector")
                if not u:
                    gone = [e for e in scalls(p, "retrieve_vector") if len(e.a[2]) > 1 and strip_ver(e.a[2][1]) is mk("param", "id") and
                            (fact(p, "isnone", lambda a: a.a[0] is e.a[1]) is True or fact(p, "truthy", lambda a: a.a[0] is e.a[1]) is False)]
                    if gone:
                        rep.check("R10.index", con, p.val is FALSE, "answer", "reports success for an unknown id", *loc(p))
                        ef = effects(p)
                        rep.check("R10.index", con, not ef, "effect", f"changes the index for an unknown id ({ev_name(ef[0]) if ef else ''})", *loc(p))
                        continue
                    rep.bad("R10.index", con, "storage", "completes without asking the storage backend", *loc(p))
                    continue
                t = fact(p, "truthy", lambda a: a.a[0] in [e.a[1] for e in u])
                if t is False:
                    rep.check("R10.index", con, p.val is FALSE, "answer", "reports success for an unknown id", *loc(p))
                    late = [e for e in effects(p) if list(p.events).index(e) > list(p.events).index(u[0])]
                    early = [e for e in effects(p) if list(p.events).index(e) < list(p.events).index(u[0])]
                    rep.check("R10.index", con, not late and not early, "effect", f"changes the index for an unknown id ({ev_name((late + early)[0]) if late + early else ''})", *loc(p))
                elif t is True:
                    rep.check("R10.index", con, p.val is TRUE or p.val in [e.a[1] for e in u], "answer", "reports failure although the id is stored", *loc(p))
                elif p.val is not FALSE and p.val not in [e.a[1] for e in u]:
                    rep.bad("R10.index", con, "ignored", "reports success whatever the storage backend answered", *loc(p))
            con = f"{n}.delete"
            for p in rets(paths(prog, rep, cls, "delete")):
                for e in scalls(p, "delete_vector"):
                    t = fact(p, "truthy", lambda a: a.a[0] is e.a[1])
                    if t is False:
                        rep.check("R10.index", con, p.val is not TRUE, "answer", "reports success although an id was not found", *loc(p))
                rep.ok("R10.index", con)
            told(prog, rep, cls, b)
            continue
        told(prog, rep, cls, b)
        V, M = slot_lists(prog, rep, cls)
        for op in ("update", "remove", "delete"):
            con = f"{n}.{op}"
            for p in paths(prog, rep, cls, op):
                for e in p.events:
                    if e.kind == "setitem" and strip_ver(e.a[0]).op == "init" and owner_field(e.a[0], me) in V | M:
                        lo, hi = bounds_ok(e.facts, e.a[1], me, V | M)
                        rep.check("R10.index", con, lo, "negative", "a negative id is taken for one counted from the end", e.file, e.line)
                        rep.check("R10.index", con, hi, "bound", "an id beyond the end is not refused", e.file, e.line)
                        if op == "update":
                            rep.check("R10.index", con, slot_live(e.facts, e.a[1], me, V), "removed", "a removed id is brought back by update", e.file, e.line)
                if op == "update" and p.kind == "return" and p.val is TRUE:
                    w = [e for e in p.events if e.kind == "setitem" and owner_field(e.a[0], me) in V]
                    rep.check("R10.index", con, bool(w), "answer", "reports success without replacing the vector", *loc(p))
            rep.ok("R10.index", con)


# ------------------------------------------------------------------ C16
def c16(prog, rep):
    """On every path on which update answers True: the storage backend accepted (id, vector, metadata), every other copy of the vector the
    index keeps is replaced or dropped, and structures keyed by vector content hold the id exactly once, under the new vector."""
    rep.rule("R16.storage", "a successful update replaced the stored record with the caller's vector and metadata", 3)
    rep.rule("R16.copies", "every cached copy of the vector is replaced or dropped", 5)
    rep.rule("R16.content", "content-keyed structures (IVF clusters, LSH buckets, Annoy items) are moved to the new vector", 3)
    for cls, b in indices(prog, rep):
        me = self_of(cls)
        n = cname(cls)
        con = f"{n}.update"
        if b:
            copies = vec_copies(prog, rep, cls) | filled_by_search(prog, rep, cls)
            content = {F for flags, fs in sources(prog, rep, cls).items() for F in fs if flags and any(v for f, v in flags if f not in ("_initialized",))} - \
                {F for flags, fs in sources(prog, rep, cls).items() for F in fs if any(not v for f, v in flags)}
            for p in rets(paths(prog, rep, cls, "update")):
                if p.val is FALSE:
                    continue
                f, ln = loc(p)
                u = scalls(p, "update_vector")
                good = [e for e in u if args_of(e, ("id", "vector", "metadata")) == [ID, VEC, META] or
                        (len(args_of(e, ("id", "vector", "metadata"))) == 3 and args_of(e, ("id", "vector", "metadata"))[0] is ID and has(args_of(e, ("id", "vector", "metadata"))[1], VEC)
                         and has(args_of(e, ("id", "vector", "metadata"))[2], META))]
                rep.check("R16.storage", con, bool(good) and len(good) == len(u), "args", "the storage backend is not given the caller's id, vector and metadata", f, ln)
                for F in copies:
                    w = [e for e in p.events if e.kind == "setitem" and strip_ver(e.a[0]) is mk("init", me, F) and e.a[1] is ID]
                    st = touches(p, ID, me)
                    absent = any(a.op == "in" and v is False and a.a[0] is ID and strip_ver(a.a[1]) is mk("init", me, F) for a, v in p.facts.items())
                    okc = (w and has(w[-1].a[2], VEC) and st.get(F) is True) or st.get(F) is False or absent
                    rep.check("R16.copies", f"{con}->{F}", bool(okc), "stale", f"{F} can keep the old vector", f, ln)
                known = flag_states(p, me)
                if content and not any(known.get(fl) is False for flags in sources(prog, rep, cls) for fl, v in flags if v and fl != "_initialized"):
                    for F in content:
                        moved(prog, rep, cls, p, ID, F, f"{con}->{F}")
        else:
            V, M = slot_lists(prog, rep, cls)
            for p in rets(paths(prog, rep, cls, "update")):
                if p.val is not TRUE:
                    continue
                f, ln = loc(p)
                w = [e for e in p.events if e.kind == "setitem" and owner_field(e.a[0], me) in V and strip_ver(e.a[0]).op == "init"]
                rep.check("R16.copies", f"{con}->{'/'.join(sorted(V))}", bool(w) and has(w[-1].a[2], VEC), "stale", "the kept vector is not replaced", f, ln)
                mn = fact(p, "isnone", lambda a: a.a[0] is META)
                if mn is not True:
                    wm = [e for e in p.events if e.kind == "setitem" and owner_field(e.a[0], me) in M and strip_ver(e.a[0]).op == "init"]
                    mt = fact(p, "truthy", lambda a: a.a[0] is META)
                    rep.check("R16.copies", f"{con}->{'/'.join(sorted(M))}", bool(wm) and has(wm[-1].a[2], META) or mt is False and bool(wm), "stale", "the given metadata is not kept", f, ln)
                for F in spread(prog, rep, cls):
                    for ops, what in ((("append", "add"), "entered in"), (("remove", "pop", "discard"), "taken out of")):
                        left = first_only(p, F, me, lambda x: True, ops)
                        if left:
                            rep.bad("R16.content", f"{con}->{F}", "first", f"the id is {what} only the first part of {F}", left.file, left.line)
                k = w[-1].a[1] if w else None
                items = [e for e in p.events if e.kind == "call" and e.a[0].a[0] == ".add_item"]
                for e in items:
                    okk = len(e.a[2]) > 2 and e.a[2][1] is k and has(e.a[2][2], VEC)
                    rep.check("R16.content", f"{con}->annoy", okk, "item", "the search structure gets the vector under another id", e.file, e.line)
                struct = {owner_field(e.a[0], me) for q in rets(paths(prog, rep, cls, "insert")) for e in q.events
                          if e.kind == "mut" and cval(e.a[1]) == "append" and strip_ver(e.a[0]).op != "init" and is_self_rooted(e.a[0], me)}
                uses_item = any(e.kind == "call" and e.a[0].a[0] == ".add_item" for q in rets(paths(prog, rep, cls, "insert")) for e in q.events)
                if uses_item and not items:
                    rep.bad("R16.content", f"{con}->annoy", "missing", "the search structure keeps the old vector", f, ln)
                for F in struct:
                    hashed_move(rep, p, k, F, me, f"{con}->{F}", V)


def filled_by_search(prog, rep, cls):
    """Fields search fills with retrieved vectors."""
    me = self_of(cls)
    out = set()
    for p in rets(paths(prog, rep, cls, "search")):
        for e in p.events:
            if e.kind == "setitem" and strip_ver(e.a[0]).op == "init" and contains(e.a[2], lambda x: x.op == "call" and x.a[0] == ".retrieve_vector"):
                out.add(owner_field(e.a[0], me))
    return out


def moved(prog, rep, cls, p, k, F, con):
    me = self_of(cls)
    f, ln = loc(p)
    if unless_missing(p, F, me):
        return
    adds = [e for e in p.events if e.kind == "mut" and owner_field(e.a[0], me) == F and cval(e.a[1]) in ("append", "add", "insert") and k in e.a[2]]
    adds += [e for e in p.events if e.kind == "setitem" and owner_field(e.a[0], me) == F and list_with(e.a[2], p.st.heap, k)]
    rep.check("R16.content", con, len(adds) >= 1, "lost", f"the updated id is missing from {F}", f, ln)
    rep.check("R16.content", con, len(adds) <= 1, "twice", f"the updated id is entered twice in {F}", f, ln)
    for a in adds[0].facts if adds else ():
        old = [x for x in walk(a) if a.op in ("lt", "le", "eq") and x.op in ("item", "get") and len(x.a) > 1 and x.a[1] is k and strip_ver(x.a[0]).op == "init" and strip_ver(x.a[0]).a[0] is me]
        if old:
            rep.bad("R16.content", con, "old-vector", f"the place in {F} is chosen by the vector kept before the update", adds[0].file, adds[0].line)
            break
    if adds:
        first = list(p.events).index(adds[0])
        rem = [e for e in list(p.events)[:first] if e.kind in ("mut", "delitem") and owner_field(e.a[0], me) == F and (k in e.a[2] if e.kind == "mut" else e.a[1] is k)]
        absent = any((a.op == "in" and v is False and a.a[0] is k and owner_field(a.a[1], me) == F) or (a.op == "truthy" and v is False and owner_field(a.a[0], me) == F) for a, v in adds[0].facts.items())
        rep.check("R16.content", con, bool(rem) or absent or rebuilt_val(p, F, me, first), "stays", f"the updated id can stay in its old place in {F} as well", f, ln)


def rebuilt_val(p, F, me, first):
    return any(e.kind in ("setitem", "setfield") and contains(e.a[2], lambda x: x.op == "comp") and (owner_field(e.a[0], me) == F or (e.kind == "setfield" and e.a[1].a[1] == F)) for e in list(p.events)[:first])


def hashed_move(rep, p, k, F, me, con, V):
    f, ln = loc(p)
    loops = [e for e in p.events if e.kind == "iter"]
    adds = [e for e in p.events if e.kind == "mut" and owner_field(e.a[0], me) == F and cval(e.a[1]) in ("append", "add") and e.a[2] and e.a[2][0] is k]
    if not adds:
        empty = any(a.op == "truthy" and v is False and a.a[0].op in ("alloc", "comp", "call") for a, v in p.facts.items())
        rep.check("R16.content", con, empty, "lost", f"the updated id is not entered in {F} again", f, ln)
        return
    for e in adds:
        rep.check("R16.content", con, has(e.a[0], VEC), "old-hash", f"the updated id is entered in {F} under the old vector", e.file, e.line)
    rem = [e for e in p.events if e.kind == "mut" and owner_field(e.a[0], me) == F and cval(e.a[1]) in ("remove", "discard")]
    for e in rem:
        old = contains(e.a[0], lambda x: x.op == "item" and owner_field(x.a[0], me) in V)
        rep.check("R16.content", con, old and not has(e.a[0], VEC), "wrong-bucket", f"the id is taken out of the wrong bucket of {F}", e.file, e.line)
    notin = any(a.op == "in" and v is False and owner_field(a.a[1], me) == F for a, v in p.facts.items())
    noloop = any(a.op == "truthy" and v is False and a.a[0].op in ("alloc", "comp", "call") for a, v in p.facts.items())
    rep.check("R16.content", con, bool(rem) or notin or noloop or any(e.kind == "handled" for e in p.events), "stays", f"the updated id can stay in its old bucket of {F}", f, ln)


CHECKS = {"C14": c14, "C15": c15, "C16": c16}
