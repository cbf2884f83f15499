"""The client: hands every operation to the components it was built from."""
from ..common import *
from ..common import ClassInfo, walk
from ..terms import contains
from .contract import ctor
from .storage import rets

COPIES = ("numpy.asarray", "numpy.array", "numpy.atleast_2d", "numpy.atleast_1d", "list", ".copy", ".astype", "copy.copy", "copy.deepcopy", "tuple", "str", "int")
PARTS = {"storage": "storage_backend", "index": "index", "quantization": "quantizer", "persistence": "persistence_manager"}


def client(prog):
    return [c for lay, err, ops, c in components(prog, ("client",))]


def positional(prog, e, base, op, names):
    """Arguments of a call on a component bound to the parameter names of the interface."""
    args = list(e.a[2][1:])
    kws = dict(e.a[3])
    out = {}
    for i, n in enumerate(names):
        if i < len(args):
            out[n] = args[i]
        elif n in kws:
            out[n] = kws[n]
    extra = len(args) > len(names) or [k for k in kws if k not in names]
    return out, extra


def c35(prog, rep):
    """On every ready path insert/search/delete/update of the client make exactly one call: the same operation of the index the client was built
    with, with the caller's arguments at their places; the result of that call is the answer.  Components are initialised storage first, and the
    index receives that storage.  Each part of get_stats comes from the component it is named after."""
    rep.rule("R35.delegate", "each client operation is one call of the same index operation with the caller's arguments, its answer is the caller's answer", 4)
    rep.rule("R35.fields", "the client keeps each component it is given", 1)
    rep.rule("R35.init", "initialize prepares the storage, then the index with that storage, then every optional component that is present", 1)
    rep.rule("R35.stats", "each part of the statistics comes from the component it is named after", 1)
    for cls in client(prog):
        me = self_of(cls)
        n = cname(cls)
        # constructor
        for fields, facts, p in ctor(prog, cls):
            for part, F in PARTS.items():
                v = fields.get(F)
                if v is None:
                    rep.unk("R35.fields", n, F)
                elif v.op == "param" and v.a[0] != F:
                    rep.bad("R35.fields", n, F, f"{F} is set to the argument {v.a[0]}", *loc(p))
                elif v.op == "param":
                    rep.ok("R35.fields", n)
                elif is_const(v) and not contains(mk("tuple", *facts), lambda x: x.op == "param"):
                    rep.bad("R35.fields", n, F, f"{F} is set to {show(v)} whatever was given", *loc(p))
                else:
                    rep.unk("R35.fields", n, F)
        for op, ps in (("insert", ("vectors", "metadata")), ("search", ("query_vector", "k")), ("delete", ("ids",)), ("update", ("id", "vector", "metadata"))):
            delegate(prog, rep, cls, me, n, op, ps)
        start(prog, rep, cls, me, n)
        stats(prog, rep, cls, me, n)


def component_calls(p, me):
    return [e for e in p.events if e.kind == "call" and e.a[2] and strip_ver(e.a[2][0]).op == "init" and strip_ver(e.a[2][0]).a[0] is me
            and strip_ver(e.a[2][0]).a[1] in PARTS.values()]


def names_of(cls, op):
    m = cls.find(op)
    a = m.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:]


def delegate(prog, rep, cls, me, n, op, want):
    con = f"{n}.{op}"
    given = names_of(cls, op)
    for p in rets(paths(prog, rep, cls, op)):
        f, ln = loc(p)
        calls = component_calls(p, me)
        others = [e for e in calls if is_write_call(e) and not (e.a[0].a[0] == "." + op and strip_ver(e.a[2][0]).a[1] == "index")]
        mine = [e for e in calls if e.a[0].a[0] == "." + op and strip_ver(e.a[2][0]).a[1] == "index"]
        if others:
            e = others[0]
            rep.bad("R35.delegate", con, "other", f"also calls {show(e.a[0])[1:]} of {strip_ver(e.a[2][0]).a[1]}", e.file, e.line)
            continue
        if not mine:
            if any(x.op in ("unk", "phi") for x in walk(p.val)) or opaque_call(p, me):
                rep.unk("R35.delegate", con, "call not tracked")
            else:
                rep.bad("R35.delegate", con, "none", f"answers {show(p.val)} without asking the index", f, ln)
            continue
        if len(mine) > 1 or any(e.loops for e in mine):
            if op == "search":
                rep.unk("R35.delegate", con, "several calls")
            else:
                rep.bad("R35.delegate", con, "twice", f"calls the index {op} more than once", mine[-1].file, mine[-1].line)
            continue
        e = mine[0]
        bound, extra = positional(prog, e, cls, op, want)
        if extra or e.a[2][1:] and any(getattr(x, "op", "") == "star" for x in e.a[2][1:]):
            rep.unk("R35.delegate", con, "arguments not tracked")
            continue
        okay = True
        for i, w in enumerate(want):
            own = given[i] if i < len(given) else None
            t = bound.get(w)
            if t is None:
                rep.bad("R35.delegate", con, w, f"does not hand {own or w} to the index", e.file, e.line)
                okay = False
                continue
            t = strip_ver(t)
            if t.op == "param" and t.a[0] == own:
                continue
            okay = False
            c = p.st.heap.get(t)
            if c is not None and not c.entries and not c.src and "unk" not in str(c.src):
                rep.bad("R35.delegate", con, w, f"hands an empty {c.kind} to the index as {w} although the caller gave something else", e.file, e.line)
                continue
            if t.op == "call" and t.a[0] in COPIES and t.a[1] and strip_ver(t.a[1][0]).op == "param" and strip_ver(t.a[1][0]).a[0] == own and retyped(t):
                rep.bad("R35.delegate", con, w, f"hands {show(t)} to the index as {w}", e.file, e.line)
                continue
            if t.op == "call" and t.a[0] in COPIES and any(strip_ver(x).op == "param" and strip_ver(x).a[0] == own for x in t.a[1]) or any(x.op in ("unk", "phi", "comp", "alloc") for x in walk(t)) \
                    or pinned(t, own, p):
                rep.unk("R35.delegate", con, w)
            else:
                rep.bad("R35.delegate", con, w, f"hands {show(t)} to the index as {w}", e.file, e.line)
        if strip_ver(p.val) is not strip_ver(e.a[1]):
            if any(x.op in ("unk", "phi") for x in walk(p.val)) or p.st.heap.get(strip_ver(p.val)) is not None:
                rep.unk("R35.delegate", con, "answer not tracked")
            elif same_as_fact(p, e.a[1]):
                rep.ok("R35.delegate", con)
            else:
                rep.bad("R35.delegate", con, "answer", f"answers {show(p.val)} instead of the index's answer", f, ln)
        elif okay:
            rep.ok("R35.delegate", con)


def retyped(t):
    """An array conversion to a fixed element type (which can lose digits)."""
    ty = dict(t.a[2]).get("dtype", t.a[1][1] if t.a[0] in ("numpy.asarray", "numpy.array", ".astype") and len(t.a[1]) > 1 else None)
    if ty is None:
        return False
    ty = strip_ver(ty)
    return ty.op == "glob" and str(ty.a[0]).startswith("numpy.") or is_const(ty) and isinstance(cval(ty), str) or ty.op == "glob" and ty.a[0] in ("int", "float")


def pinned(t, own, p):
    """The path fixes the parameter to this very value (default filled in)."""
    for a, v in p.facts.items():
        if a.op == "isnone" and v and a.a[0].op == "param" and a.a[0].a[0] == own and t is NONE:
            return True
        if a.op == "eq" and v and t in a.a and any(x.op == "param" and x.a[0] == own for x in a.a):
            return True
    return False


def same_as_fact(p, r):
    """return True/False according to the truth of the index's answer"""
    v = p.facts.get(mk("truthy", r))
    if v is None:
        v = p.facts.get(mk("truthy", strip_ver(r)))
    return v is not None and is_const(p.val) and bool(cval(p.val)) == v


def opaque_call(p, me):
    return any(e.kind == "call" and e.a[0].a[0] in ("getattr", "call") for e in p.events)


def start(prog, rep, cls, me, n):
    con = f"{n}.initialize"
    for p in rets(paths(prog, rep, cls, "initialize")):
        f, ln = loc(p)
        calls = [e for e in component_calls(p, me) if e.a[0].a[0] == ".initialize"]
        order = [strip_ver(e.a[2][0]).a[1] for e in calls]
        for part, F in PARTS.items():
            t = mk("init", me, F)
            absent = p.facts.get(mk("truthy", t)) is False or p.facts.get(mk("isnone", t)) is True
            if F in order:
                if order.count(F) > 1:
                    rep.bad("R35.init", con, F, f"{F} is initialised twice", f, ln)
            elif not absent:
                if any(e.kind == "iter" for e in p.events):
                    rep.unk("R35.init", con, F)
                else:
                    rep.bad("R35.init", con, F, f"answers ready without initialising {F}", f, ln)
        if "index" in order and "storage_backend" in order:
            rep.check("R35.init", con, order.index("storage_backend") < order.index("index"), "order", "the index is initialised before its storage", f, ln)
        for e in calls:
            if strip_ver(e.a[2][0]).a[1] == "index":
                xs = list(e.a[2][1:]) + [v for k, v in e.a[3]]
                t = strip_ver(xs[0]) if xs else None
                if t is None or t.op != "unk" and t is not mk("init", me, "storage_backend"):
                    rep.bad("R35.init", con, "storage", f"the index is initialised with {show(t) if t is not None else 'nothing'} instead of the client's storage", e.file, e.line)
                elif t.op != "unk":
                    rep.ok("R35.init", con)


def stats(prog, rep, cls, me, n):
    con = f"{n}.get_stats"
    for p in rets(paths(prog, rep, cls, "get_stats")):
        f, ln = loc(p)
        c = p.st.heap.get(strip_ver(p.val))
        if c is None or c.kind != "dict":
            rep.unk("R35.stats", con, "answer not tracked")
            continue
        d = {}
        for e in c.entries:
            if e.key is not None and is_const(e.key):
                d[cval(e.key)] = e.val
        loose = any(e.key is None or not is_const(e.key) for e in c.entries)
        for part, F in PARTS.items():
            t = mk("init", me, F)
            absent = p.facts.get(mk("truthy", t)) is False or p.facts.get(mk("isnone", t)) is True
            v = d.get(part)
            if v is None or is_const(v):
                if not absent and not loose:
                    rep.bad("R35.stats", con, part, f"leaves out the statistics of {F}", f, ln)
                continue
            v = strip_ver(v)
            if v.op == "call" and v.a[0] == ".get_stats" and v.a[1] and strip_ver(v.a[1][0]).op == "init":
                rep.check("R35.stats", con, strip_ver(v.a[1][0]) is t, part, f"publishes {show(v)} as '{part}'", f, ln)
            else:
                rep.unk("R35.stats", con, part)


CHECKS = {"C35": c35}
