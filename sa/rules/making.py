"""Factories build the database they are asked for; options reach the component, are used and stay in force."""
import ast

from ..common import *
from ..common import AnalysisError, Interp, State, walk
from ..linear import lin
from ..terms import const, contains
from .documents import since, vague
from .text import Iters

INDEX = {"flat": "FlatIndex", "hnsw": "HNSWIndex", "ivf": "IVFIndex", "lsh": "LSHIndex", "annoy": "AnnoyIndex"}
STORE = {"memory": "MemoryStorage", "disk": "DiskStorage", "hybrid": "HybridStorage"}
MAKE = "create_vector_db"
OPAQUE = ("initialize", "get_recommended_index_config", MAKE, "create_vectors_from_text")


def fog(t):
    """Something in the value is not understood (comprehensions are)."""
    return any(x.op in ("unk", "phi") for x in walk(norm(t)))


def runf(prog, rep, name, no=(), iters=False, **args):
    fi = prog.func(name)
    pol = Iters() if iters else P()
    pol.no_inline = tuple(no)
    I = Interp(prog, pol)
    ps = I.run_func(fi, args={k: const(v) for k, v in args.items()})
    for p in ps:
        p.interp = I
    rep.saw(I, ps)
    return I, ps, fi


def made(p, classes):
    """Objects of the given classes constructed on the path: [(class name, object, args, kw, event)]."""
    out = []
    for e in p.events:
        if e.kind == "new":
            n = e.a[0] if isinstance(e.a[0], str) else getattr(e.a[0], "qual", None) or show(e.a[0])
            n = n.rsplit(".", 1)[-1]
            if n in classes:
                out.append((n, strip_ver(e.a[1]), [strip_ver(x) for x in e.a[2]], {k: strip_ver(v) for k, v in e.a[3]}, e))
    return out


def first(args, kw, name="config", pos=0):
    return args[pos] if len(args) > pos else kw.get(name)


def raised(prog, p, name):
    """The path raises the given exception (or a subclass); None if unknown what it raises."""
    c = exc_class(prog, p.val)
    if c is None:
        return None
    n = c if isinstance(c, str) else c.qual
    return n.rsplit(".", 1)[-1] == name or in_family(prog, n, name)


def fact(p, op, *a):
    want = mk(op, *a)
    for k, v in p.facts.items():
        if norm(k) is norm(want):
            return v
    return None


def kwname(fi):
    return mk("param", fi.node.args.kwarg.arg) if fi.node.args.kwarg else None


def has_key(p, key, t):
    t = norm(t)
    for k, v in p.facts.items():
        k = norm(k)
        if k.op == "in" and is_const(k.a[0]) and cval(k.a[0]) == key and k.a[1] is t:
            return v
        if k.op == "truthy" and k.a[0] is t and not v:
            return False
    return None


def same_as_default(cls, key, val):
    """An option added where the caller gives none: is it what the component uses by itself?  None if that is not a plain constant."""
    import ast
    got = []
    for k in cls.mro():
        for m in getattr(k, "methods", {}).values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and len(x.args) == 2 and isinstance(x.args[0], ast.Constant) and x.args[0].value == key:
                    got.append(x.args[1].value if isinstance(x.args[1], ast.Constant) else Ellipsis)
    val = strip_ver(val)
    if not got or Ellipsis in got or not is_const(val):
        return None
    return all(g == cval(val) and type(g) is type(cval(val)) for g in got)


def caller_option(p, t, rest, key, cls=None):
    """Whether t is the option of that name out of the caller's keyword arguments: True, False or None."""
    t = norm(t)
    if t.op == "param" and t.a[0] == key:
        return True
    if t.op in ("item", "get") and norm(t.a[0]) is rest and is_const(t.a[1]):
        return cval(t.a[1]) == key
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is not None and c.kind == "dict" and not c.entries:
            if has_key(p, key, rest) is False:
                return True
            about = [k for k in p.facts if contains(norm(k), lambda x: x.op in ("item", "get") and norm(x.a[0]) is rest and is_const(x.a[1]) and cval(x.a[1]) == key or x.op == "param" and x.a[0] == key)]
            return None if any(norm(k).op != "in" for k in about) else False
        if c is not None and c.kind == "dict" and len(c.entries) == 1 and c.entries[0].tag == "rest":
            return caller_option(p, strip_ver(c.entries[0].val), rest, key)
        if c is not None and c.kind == "dict" and cls is not None:
            mine = [i for i, e in enumerate(c.entries) if e.tag == "rest" and caller_option(p, strip_ver(e.val), rest, key) is True]
            if len(mine) == 1 and all(e.tag == "one" and e.key is not None and is_const(e.key) for i, e in enumerate(c.entries) if i != mine[0]):
                rs = [False if i > mine[0] else same_as_default(cls, cval(e.key), e.val) for i, e in enumerate(c.entries) if i != mine[0]]
                return False if False in rs else None if None in rs else True
        return None
    if t.op == "call" and t.a[0] in ("copy.copy", "copy.deepcopy", "dict", ".copy") and len(t.a[1]) == 1:
        return caller_option(p, t.a[1][0], rest, key)
    if t.op == "or" or t.op == "ite" or vague(t):
        return None
    return False if t.op in ("const", "param") else None


def c20(prog, rep):
    rep.explain = "Every factory function is interpreted abstractly for each name it documents, for an unknown name and for none; which classes are constructed with which configuration, what is inserted and what is answered is read off every path."
    rep.rule("R20.index", "the index is of the class the caller names, or of the recommended one, with the configuration that goes with it", 6)
    rep.rule("R20.storage", "the storage backend is of the class the caller names, with the caller's configuration", 3)
    rep.rule("R20.unknown", "an unknown name is refused with ValueError", 3)
    rep.rule("R20.client", "the client answered has the storage and the index in their places and is initialised", 8)
    rep.rule("R20.choice", "the recommendation follows the number of vectors, the dimension and the use case", 2)
    rep.rule("R20.options", "what the caller asks for reaches create_vector_db and wins over defaults and templates", 5)
    rep.rule("R20.pipeline", "chunk size, overlap and model reach the pipeline, which is initialised", 1)
    rep.rule("R20.data", "every text or document is inserted once with its own metadata, and can be searched for", 3)
    vector_db(prog, rep)
    choice(prog, rep, "get_recommended_index_config")
    choice(prog, rep, "get_recommended_config")
    document_db(prog, rep)
    search_db(prog, rep, "create_semantic_search_db")
    search_db(prog, rep, "create_image_search_db")
    search_db(prog, rep, "create_hybrid_search_db")
    images(prog, rep)
    template(prog, rep)


def vector_db(prog, rep):
    for n in INDEX:
        one_db(prog, rep, n, "memory", "index")
    for s in STORE:
        one_db(prog, rep, "flat", s, "storage")
    one_db(prog, rep, None, "memory", "index")
    for nv, nd in ((None, None), (10 ** 6, None), (None, 64)):
        unsized(prog, rep, nv, nd)
    for kw, what in (({"index_type": "no such index", "storage_type": "memory"}, "index"), ({"index_type": "flat", "storage_type": "no such storage"}, "storage")):
        I, ps, fi = runf(prog, rep, MAKE, OPAQUE[:2], **kw)
        refuse(prog, rep, ps, fi, f"{MAKE}(unknown {what})")
    for w in sorted(words(prog.func(MAKE).module)):
        if w not in INDEX and w != "":
            I, ps, fi = runf(prog, rep, MAKE, OPAQUE[:2], index_type=w, storage_type="memory")
            refuse(prog, rep, ps, fi, f"{MAKE}(other index)")
        if w not in STORE:
            I, ps, fi = runf(prog, rep, MAKE, OPAQUE[:2], index_type="flat", storage_type=w)
            refuse(prog, rep, ps, fi, f"{MAKE}(other storage)")


def words(module):
    """Every string the module mentions and the documented names in capitals: candidates for a name that is wrongly accepted."""
    import ast
    out = {n.upper() for n in list(INDEX) + list(STORE)}
    for x in ast.walk(module.tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 30 and x.value.replace("_", "").replace("-", "").isalnum():
            out.add(x.value)
    return out


def unsized(prog, rep, nv, nd):
    """A size that is not given does not make the recommendation fail."""
    con = f"{MAKE}(size not given)"
    I, ps, fi = runf(prog, rep, MAKE, OPAQUE[:1], index_type=None, storage_type="memory", num_vectors=nv, dimension=nd)
    for p in ps:
        for k in p.facts:
            k = norm(k)
            if k.op in ("lt", "le") and any(is_const(x) and cval(x) is None for x in k.a):
                rep.bad("R20.index", con, "none", "a size that is not given is compared with a number, which fails", fi.module.path, getattr(p.node, "lineno", fi.node.lineno))
                return
    rep.ok("R20.index", con)


def refuse(prog, rep, ps, fi, con):
    for p in ps:
        if p.kind == "return":
            rep.bad("R20.unknown", con, "accepted", "an unknown name is accepted", fi.module.path, fi.node.lineno)
        elif p.kind == "raise":
            r = raised(prog, p, "ValueError")
            if r:
                rep.ok("R20.unknown", con)
            elif r is None:
                rep.unk("R20.unknown", con, "exception not understood")
            else:
                rep.bad("R20.unknown", con, "exception", f"an unknown name is refused with {show(p.val)[:40]}", fi.module.path, getattr(p.node, "lineno", fi.node.lineno))


def one_db(prog, rep, n, s, what):
    con = f"{MAKE}({n if what == 'index' else s})"
    I, ps, fi = runf(prog, rep, MAKE, OPAQUE[:2], index_type=n, storage_type=s)
    file, line = fi.module.path, fi.node.lineno
    rest = kwname(fi)
    rule = "R20." + what
    for p in ps:
        if p.kind == "raise":
            if n is None:
                continue                      # whether the recommended names are known is a matter of R21.catalogue
            rep.bad(rule, con, "refused", f"a documented name is refused ({show(p.val)[:50]})", file, getattr(p.node, "lineno", line))
            continue
        if p.kind != "return":
            continue
        ix = made(p, INDEX.values())
        st = made(p, STORE.values())
        st = [x for x in st if not any(x is not y and x[4].node is not y[4].node and contains(y[1], lambda t: t is x[1]) for y in st)]
        if len(ix) != 1 or len(st) != 1:
            rep.unk(rule, con, "the components constructed are not understood")
            continue
        ix, st = ix[0], st[0]
        if what == "index":
            if n is not None:
                rep.check(rule, con, ix[0] == INDEX[n], "class", f"{n!r} gives a {ix[0]}", file, ix[4].line)
                index_config(prog, rep, rule, con, p, ix, rest, file)
            else:
                recommended(rep, rule, con, p, ix, file)
        else:
            rep.check(rule, con, st[0] == STORE[s], "class", f"{s!r} gives a {st[0]}", file, st[4].line)
            index_config(prog, rep, rule, con, p, st, rest, file, "storage_config")
        the_client(rep, con, p, ix, st, file, line)


def index_config(prog, rep, rule, con, p, x, rest, file, key="index_config"):
    c = first(x[2], x[3])
    ok = None if c is None else caller_option(p, c, rest, key, prog.cls(x[0]))
    if ok:
        rep.ok(rule, con)
    elif ok is None:
        rep.unk(rule, con, "the configuration handed over is not understood")
    else:
        rep.bad(rule, con, "config", f"the component is not given the caller's {key} but {show(c)[:60]}", file, x[4].line)


def recommended(rep, rule, con, p, ix, file):
    calls = [e for e in p.events if e.kind == "call" and e.a[0].a[0].rsplit(".", 1)[-1] == OPAQUE[1]]
    if len(calls) != 1:
        if not calls:
            rep.unk(rule, con, "no recommendation found")
        return
    e = calls[0]
    r = norm(e.a[1])
    names = {}
    for k, v in p.facts.items():
        k = norm(k)
        if k.op == "eq" and v and any(is_const(x) for x in k.a):
            c = [cval(x) for x in k.a if is_const(x)][0]
            t = [x for x in k.a if not is_const(x)]
            if t and t[0].op in ("item", "get") and norm(t[0].a[0]) is r:
                names[c] = t[0]
    c = first(ix[2], ix[3])
    if len(names) == 1:
        n, t = next(iter(names.items()))
        rep.check(rule, con, INDEX.get(n) == ix[0] and cval(t.a[1]) == "type", "class", f"the recommended {n!r} gives a {ix[0]}", file, ix[4].line)
    else:
        rep.unk(rule, con, "how the recommended index is chosen is not understood")
    c = norm(c) if c is not None else None
    if c is not None and c.op in ("item", "get") and norm(c.a[0]) is r and cval(c.a[1]) == "config":
        rep.ok(rule, con)
    elif c is None or vague(c) or contains(c, lambda x: x is r) or contains(c, lambda x: x.op == "alloc"):
        rep.unk(rule, con, "the configuration of the recommended index is not understood")
    else:
        rep.bad(rule, con, "config", f"the recommended index is not given its configuration but {show(c)[:50]}", file, ix[4].line)
    # what the recommendation is asked about
    for i, par in enumerate(("num_vectors", "dimension", "use_case")):
        a = first(e.a[2], dict(e.a[3]), par, i)
        a = norm(a) if a is not None else None
        if a is None:
            rep.bad(rule, con, "asked " + par, f"the recommendation is not told the {par}", file, e.line)
        elif not contains(a, lambda x: x.op == "param" and x.a[0] == par) and not unknown_size(p, par, a):
            if vague(a):
                rep.unk(rule, con, f"{par} not understood")
            else:
                rep.bad(rule, con, "asked " + par, f"the recommendation is told {show(a)[:30]} as {par}", file, e.line)


def unknown_size(p, par, a):
    """The parameter is None or 0 on this path and a stands for it."""
    x = mk("param", par)
    return is_const(a) and (fact(p, "isnone", x) is True or fact(p, "truthy", x) is False)


def the_client(rep, con, p, ix, st, file, line):
    cl = made(p, ("VectorDBClient",))
    if len(cl) != 1:
        rep.unk("R20.client", con, "no client found")
        return
    _, obj, args, kw, e = cl[0]
    a, b = first(args, kw, "storage_backend", 0), first(args, kw, "index", 1)
    if a is None or b is None or vague(a) or vague(b):
        rep.unk("R20.client", con, "arguments of the client not understood")
    else:
        rep.check("R20.client", con, a is st[1] and b is ix[1], "slots", "storage and index are not in their places", file, e.line)
    if strip_ver(p.val) is not obj:
        if p.val.op in ("alloc", "const", "param"):
            rep.bad("R20.client", con, "answer", "the client made is not the one answered", file, line)
        else:
            rep.unk("R20.client", con, "answer not understood")
    ready = any(x.kind == "call" and x.a[0].a[0].rsplit(".", 1)[-1] == "initialize" and x.a[2] and strip_ver(x.a[2][0]) is obj for x in p.events)
    rep.check("R20.client", con, ready, "initialised", "the client is answered without having been initialised", file, line)


# -------------------------------------------------------------------------------------------- recommendation

def bounds(p, par):
    """Interval of an integer parameter known on the path (inclusive)."""
    lo, hi = float("-inf"), float("inf")
    x = mk("param", par)
    known = True
    for k, v in p.facts.items():
        k = norm(k)
        if not contains(k, lambda t: t is x) or k.op in ("isnone", "truthy"):
            continue
        if k.op not in ("lt", "le", "eq") or not ((k.a[0] is x and is_const(k.a[1])) or (k.a[1] is x and is_const(k.a[0]))):
            known = False
            continue
        try:
            if k.a[0] is x:
                c = cval(k.a[1])
                if k.op == "eq":
                    if v:
                        lo, hi = max(lo, c), min(hi, c)
                    continue
                up = c - 1 if k.op == "lt" else c
                if v:
                    hi = min(hi, up)
                else:
                    lo = max(lo, up + 1)
            else:
                c = cval(k.a[0])
                if k.op == "eq":
                    if v:
                        lo, hi = max(lo, c), min(hi, c)
                    continue
                dn = c + 1 if k.op == "lt" else c
                if v:
                    lo = max(lo, dn)
                else:
                    hi = min(hi, dn - 1)
        except TypeError:
            known = False
    return lo, hi, known


REGIONS = (("flat", (None, 999), None, None), ("hnsw", (1000, 99999), None, ("accuracy",)), ("annoy", (1000, 99999), None, "not accuracy"),
           ("lsh", (100000, None), (1001, None), None), ("ivf", (100000, None), (None, 1000), None))


def choice(prog, rep, con):
    I, ps, fi = runf(prog, rep, con)
    file = fi.module.path
    pn, pd, pu = "num_vectors", "dimension", "use_case"
    if not {pn, pd, pu} <= {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}:
        raise AnalysisError(f"{con} has other parameters")
    seen = False
    for p in ps:
        if p.kind != "return":
            continue
        seen = True
        t = deep(p, p.val, "index", "type") if con == "get_recommended_config" else deep(p, p.val, "type")
        line = getattr(p.node, "lineno", fi.node.lineno)
        if t is None or not is_const(t):
            rep.unk("R20.choice", con, "the recommended type is not understood")
            continue
        reg = [r for r in REGIONS if r[0] == cval(t)]
        if not reg:
            rep.bad("R20.choice", con, f"type {cval(t)}", f"an unknown index type {cval(t)!r} is recommended", file, line)
            continue
        _, nr, dr, use = reg[0]
        for par, r in ((pn, nr), (pd, dr)):
            if r is None:
                continue
            lo, hi, known = bounds(p, par)
            if (r[0] is not None and lo < r[0]) or (r[1] is not None and hi > r[1]):
                if known:
                    rep.bad("R20.choice", con, f"{cval(t)} {par}", f"{cval(t)} is recommended for {par} from {lo} to {hi}", file, line)
                else:
                    rep.unk("R20.choice", con, f"condition on {par} not understood")
            else:
                rep.ok("R20.choice", con)
        if use is not None:
            x = mk("param", pu)
            acc = fact(p, "eq", x, const("accuracy"))
            others = any(norm(k).op == "eq" and v and norm(k).a[0] is x and cval(norm(k).a[1]) != "accuracy" for k, v in p.facts.items() if len(k.a) == 2 and is_const(norm(k).a[1] if not isinstance(k.a[1], str) else const(k.a[1])))
            if use == "not accuracy":
                good = acc is False or others
            else:
                good = acc is True
            odd = any(contains(k, lambda t: t is x) and norm(k).op not in ("eq", "truthy", "isnone") for k in p.facts)
            if good:
                rep.ok("R20.choice", con)
            elif odd:
                rep.unk("R20.choice", con, "condition on the use case not understood")
            else:
                rep.bad("R20.choice", con, f"{cval(t)} use case", f"{cval(t)} is recommended where accuracy is {'asked' if use == 'not accuracy' else 'not asked'} for", file, line)
    if not seen:
        rep.bad("R20.choice", con, "never", "no recommendation is ever answered", file, fi.node.lineno)


def deep(p, t, *keys):
    """The value under the keys, looking through copies and tables of the module."""
    t = strip_ver(t)
    if t.op == "call" and t.a[0] in ("copy.copy", "copy.deepcopy", "dict", ".copy") and len(t.a[1]) == 1:
        return deep(p, t.a[1][0], *keys)
    if t.op == "item" and is_const(t.a[1]):
        v = deep(p, t.a[0], cval(t.a[1]))
        if v is not None:
            return deep(p, v, *keys)
        return None
    if not keys:
        return t
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is None or c.kind != "dict":
            return None
        for e in reversed(c.entries):
            if e.tag != "one" or e.key is None or not is_const(e.key):
                return None
            if cval(e.key) == keys[0]:
                return deep(p, e.val, *keys[1:])
    return None


# ---------------------------------------------------------------------------------------- options of the caller

def layers(e):
    """Keyword arguments of a call in the order in which later ones win: [(key or None, value)]; None if not understood."""
    out = []
    for k, v in e.a[3]:
        if k != "**":
            out.append((k, v, True))
            continue
        v = strip_ver(v)
        c = e.heap.get(v) if v.op == "alloc" else None
        if c is None:
            out.append((None, v, True))
            continue
        for x in c.entries:
            if x.tag == "one" and x.key is not None and is_const(x.key):
                out.append((cval(x.key), x.val, False))
            elif x.tag == "rest":
                out.append((None, strip_ver(x.val), False))
            else:
                return None
    return out


def make_calls(p):
    return [e for e in p.events if e.kind == "call" and e.a[0].a[0].rsplit(".", 1)[-1] == MAKE]


def effective(p, ls, key, rest):
    """(value given to create_vector_db under key, whether the caller's keyword of that name wins before it)"""
    over = False
    for k, v, direct in reversed(ls):
        if k == key:
            return v, over
        if k is None and norm(v) is rest:
            h = has_key(p, key, rest)
            if h:
                return mk("item", rest, const(key)), True
            if h is None:
                over = True
        elif k is None:
            return None, over
    return NONE, over


def caller_wins(rep, con, p, e, fi, named, rest):
    """The caller's keyword options all reach create_vector_db and nothing written here wins over them."""
    ls = layers(e)
    file = fi.module.path
    if ls is None:
        rep.unk("R20.options", con, "the options handed over are not understood")
        return None
    at = []
    for i, (k, v, d) in enumerate(ls):
        if k is not None:
            continue
        v = norm(v)
        if v is rest:
            at.append(i)
        elif v.op == "comp" and v.a[0] == "dict" and len(v.a[2]) == 1 and not fog(v) and (norm(v.a[1]) is rest or contains(norm(v.a[1]), lambda x: x is rest)):
            flt, val = v.a[2][0]
            if flt:
                rep.bad("R20.options", con, "filtered", "some of the caller's further options are not handed on", file, e.line)
                return ls
    if not at and fact(p, "truthy", rest) is False:
        return ls
    if not at:
        if any(k is None for k, v, d in ls) or any(vague(v) for k, v, d in ls):
            rep.unk("R20.options", con, "the options handed over are not understood")
        else:
            rep.bad("R20.options", con, "dropped", "the caller's further options are not handed on", file, e.line)
        return ls
    for i, (k, v, direct) in enumerate(ls):
        if k is None or k in named:
            continue
        if has_key(p, k, rest) is False:
            continue
        if i > at[-1] or direct:
            if contains(v, lambda x: x is rest):
                rep.unk("R20.options", con, f"{k} not understood")
            else:
                rep.bad("R20.options", con, k, f"the caller's {k} is overruled by {show(v)[:50]}", file, e.line)
    rep.ok("R20.options", con)
    return ls


def own_index_type(rep, con, p, ls, rest, fi, e):
    if "index_type" not in {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}:
        return
    v, over = effective(p, ls, "index_type", rest)
    v = norm(v) if v is not None else None
    if v is None or vague(v):
        rep.unk("R20.options", con, "index type not understood")
    else:
        good = v is mk("param", "index_type") or is_const(v) and fact(p, "eq", mk("param", "index_type"), v) is True
        rep.check("R20.options", con, good, "index_type", f"the database is made with index type {show(v)[:30]} instead of the one asked for", fi.module.path, e.line)


def document_db(prog, rep):
    con = "create_document_db"
    I, ps, fi = runf(prog, rep, con, OPAQUE)
    rest, file, line = kwname(fi), fi.module.path, fi.node.lineno
    named = {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}
    pn = ["embedding_model", "chunk_size", "chunk_overlap", "index_type"]
    if not set(pn) <= named or rest is None:
        raise AnalysisError(f"{con} has other parameters")
    for p in ps:
        if p.kind != "return":
            if p.kind == "raise":
                rep.bad("R20.options", con, "refused", f"the call is refused ({show(p.val)[:40]})", file, getattr(p.node, "lineno", line))
            continue
        cs = make_calls(p)
        pl = made(p, ("ProcessingPipeline",))
        if len(cs) != 1 or len(pl) != 1:
            rep.unk("R20.options", con, "the call of create_vector_db is not understood")
            rep.unk("R20.pipeline", con, "the pipeline is not understood")
            continue
        ls = caller_wins(rep, con, p, cs[0], fi, named, rest)
        if ls:
            own_index_type(rep, con, p, ls, rest, fi, cs[0])
        _, obj, args, kw, e = pl[0]
        c = first(args, kw)
        for path, par in ((("processors", "chunking", "chunk_size"), "chunk_size"), (("processors", "chunking", "chunk_overlap"), "chunk_overlap"),
                          (("processors", "embedding", "model_name"), "embedding_model"),
                          (("parsers", "text", "chunk_size"), "chunk_size"), (("parsers", "text", "chunk_overlap"), "chunk_overlap"),
                          (("parsers", "pdf", "chunk_size"), "chunk_size"), (("parsers", "pdf", "chunk_overlap"), "chunk_overlap"),
                          (("parsers", "office", "chunk_size"), "chunk_size"), (("parsers", "office", "chunk_overlap"), "chunk_overlap")):
            v = deep(p, c, *path) if c is not None else None
            if v is None:
                d = deep(p, c, *path[:-1]) if c is not None else None
                cc = p.st.heap.get(d) if d is not None and d.op == "alloc" else None
                if cc is not None and all(x.tag == "one" for x in cc.entries):
                    rep.bad("R20.pipeline", con, ".".join(path), f"{par} does not reach {'.'.join(path)}", file, e.line)
                else:
                    rep.unk("R20.pipeline", con, f"{'.'.join(path)} not understood")
            elif norm(v) is mk("param", par):
                rep.ok("R20.pipeline", con)
            elif vague(v) or not (is_const(v) or v.op == "param" or v.op == "bin"):
                rep.unk("R20.pipeline", con, f"{'.'.join(path)} not understood")
            else:
                rep.bad("R20.pipeline", con, ".".join(path), f"{'.'.join(path)} is {show(v)[:30]} instead of {par}", file, e.line)
        ready = any(x.kind == "call" and x.a[0].a[0].rsplit(".", 1)[-1] == "initialize" and x.a[2] and strip_ver(x.a[2][0]) is obj for x in p.events)
        rep.check("R20.pipeline", con, ready, "initialised", "the pipeline is answered without having been initialised", file, line)
        v = strip_ver(p.val)
        if v.op == "tuple" and len(v.a) == 2:
            rep.check("R20.pipeline", con, norm(v.a[0]) is norm(cs[0].a[1]) and strip_ver(v.a[1]) is obj, "answer", "the answer is not the pair of the database and the pipeline", file, getattr(p.node, "lineno", line))
        else:
            rep.unk("R20.pipeline", con, "answer not understood")


# ------------------------------------------------------------------------------------------------- data inserted

def search_db(prog, rep, con):
    pol_no = OPAQUE + ("_extract_image_features",)
    I, ps, fi = runf(prog, rep, con, pol_no, iters=True)
    rest, file, line = kwname(fi), fi.module.path, fi.node.lineno
    named = {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}
    src = mk("param", fi.node.args.args[0].arg)
    model = mk("param", fi.node.args.args[1].arg)
    if rest is None:
        raise AnalysisError(f"{con} takes no further options")
    seen = False
    for p in ps:
        if p.kind != "return":
            continue
        cs = make_calls(p)
        if len(cs) != 1:
            rep.unk("R20.options", con, "the call of create_vector_db is not understood")
            continue
        ls = caller_wins(rep, con, p, cs[0], fi, named, rest)
        if ls:
            own_index_type(rep, con, p, ls, rest, fi, cs[0])
        db = norm(cs[0].a[1])
        if norm(p.val) is not db:
            rep.check("R20.data", con, fog(p.val) or p.val.op not in ("const", "alloc", "param"), "answer", "the database made is not the one answered", file, line)
        ins = [(e, list(e.a[2])) for e in p.events if e.kind == "mut" and e.a[1].a[1] == "insert" and norm(e.a[0]) is db] + \
              [(e, list(e.a[2][1:])) for e in p.events if e.kind == "call" and e.a[0].a[0] == ".insert" and e.a[2] and norm(e.a[2][0]) is db]
        if not ins:
            odd = any(e.kind == "call" and contains(mk("tuple", *e.a[2]), lambda x: norm(x) is db) for e in p.events)
            if odd:
                rep.unk("R20.data", con, "what is inserted is not understood")
            else:
                rep.bad("R20.data", con, "nothing", "the data are not inserted", file, line)
            continue
        if len(ins) > 1:
            rep.bad("R20.data", con, "twice", "the data are inserted more than once", file, ins[1][0].line)
            continue
        e, args = ins[0]
        kw = dict(e.a[3])
        v, m = first(args, kw, "vectors", 0), first(args, kw, "metadata", 1)
        if v is None or m is None:
            rep.bad("R20.data", con, "metadata", "the vectors are inserted without their metadata", file, e.line)
            continue
        v, m = norm(v), norm(m)
        seen = True
        if v.op != "item" or not is_const(v.a[1]) or v.a[0].op != "call":
            rep.unk("R20.data", con, "the vectors inserted are not understood")
            continue
        c = v.a[0]
        if cval(v.a[1]) != 0:
            rep.bad("R20.data", con, "vectors", "what is inserted are not the vectors made", file, e.line)
        if model not in [norm(x) for x in list(c.a[1]) + [y for _, y in c.a[2]]]:
            rep.bad("R20.data", con, "model", f"the vectors are not made with the caller's {model.a[0]}", file, e.line)
        args0 = [norm(x) for x in list(c.a[1]) + [y for _, y in c.a[2]]]
        if con == "create_hybrid_search_db":
            texts = [x for x in args0 if contains(x, lambda y: y is src)]
            if not texts:
                rep.unk("R20.data", con, "the texts are not understood")
            for t in texts:
                if t.op == "comp" and len(t.a[2]) == 1 and not fog(t) and norm(t.a[1]) is src:
                    flt, val = t.a[2][0]
                    rep.check("R20.data", con, not flt, "left out", "a document may be left out", file, e.line)
                    rep.check("R20.data", con, val.op == "item" and norm(val.a[0]).op == "item" and norm(norm(val.a[0]).a[0]) is src and is_const(val.a[1]) and cval(val.a[1]) == "text", "text", "what is embedded is not the text of the document", file, e.line)
            hybrid_meta(rep, con, p, I, m, c, src, texts, file, e)
        else:
            if src not in args0:
                partial = [x for x in args0 if contains(x, lambda y: y is src)]
                if partial and partial[0].op == "slice":
                    rep.bad("R20.data", con, "part", "only a part of the caller's items is taken", file, e.line)
                else:
                    rep.unk("R20.data", con, "the items taken are not understood")
            if m is mk("item", c, const(1)):
                rep.ok("R20.data", con)
            elif fog(m) or m.op in ("alloc", "comp", "call"):
                rep.unk("R20.data", con, "the metadata inserted are not understood")
            else:
                rep.bad("R20.data", con, "metadata", "the metadata inserted are not those made with the vectors", file, e.line)
        searchable(rep, con, p, db, e, file)
    if not seen:
        rep.unk("R20.data", con, "no insertion found")


def searchable(rep, con, p, db, e, file):
    """After the insertion an index that has to be built is built."""
    ix = norm(mk("attr", db, "index"))
    after = p.events[p.events.index(e) + 1:] if e in p.events else p.events
    for x in after:
        if x.kind == "call" and x.a[0].a[0] == ".build" or x.kind == "mut" and x.a[1].a[1] == "build":
            rep.ok("R20.data", con)
            return
    for k, v in p.facts.items():
        if k.op == "isinst" and not v or v == (k.op == "isnone") and k.op in ("truthy", "isnone") and contains(k, lambda t: is_const(t) and cval(t) == "build" or t.op == "attr" and len(t.a) > 1 and t.a[1] == "build"):
            return
    if any(x.kind == "call" and x.a[0].a[0].startswith("valori.") for x in after):
        rep.unk("R20.data", con, "whether the index is built is not understood")
        return
    rep.bad("R20.data", con, "built", "an index that has to be built after an insertion is not built, so the database answers no search", file, e.line)


def hybrid_meta(rep, con, p, I, m, c, src, texts, file, e):
    if m.op == "comp" or m.op == "call":
        rep.unk("R20.data", con, "the metadata inserted are not understood")
        return
    if m.op != "alloc":
        if m is mk("item", c, const(1)):
            rep.bad("R20.data", con, "fields", "the fields of the documents are not inserted", file, e.line)
        else:
            rep.unk("R20.data", con, "the metadata inserted are not understood")
        return
    cont = p.st.heap.get(m)
    for x in cont.entries if cont else ():
        if x.tag not in ("many", "one") or x.val is None or strip_ver(x.val).op != "alloc":
            continue
        d = p.st.heap.get(strip_ver(x.val))
        if d is None or d.kind != "dict":
            rep.unk("R20.data", con, "the metadata inserted are not understood")
            continue
        idx = {t.uid: t for y in d.entries if y.val is not None for t in walk(norm(y.val)) if t.op == "idx"}
        rests = [norm(y.val) for y in d.entries if y.tag == "rest"]
        mine = [i for i, y in enumerate(d.entries) if y.val is not None and y.tag == "rest" and contains(norm(y.val), lambda t: t is src) and not (norm(y.val).op == "item" and norm(norm(y.val).a[0]) is mk("item", c, const(1)))]
        did = [y for y in d.entries if y.tag == "one" and y.key is not None and is_const(y.key) and cval(y.key) == "doc_id"]
        if not did:
            rep.bad("R20.data", con, "doc_id", "a document is inserted without its doc_id", file, e.line)
        elif norm(did[-1].val).op != "idx":
            if fog(did[-1].val) or not lin(norm(did[-1].val)):
                rep.unk("R20.data", con, "doc_id not understood")
            else:
                t = norm(did[-1].val)
                rep.check("R20.data", con, not (t.op == "bin" or is_const(t)), "doc_id", f"doc_id is {show(t)[:30]}, not the position of the document", file, e.line)
        if not mine:
            if any(not (r.op == "item" and norm(r.a[0]) is mk("item", c, const(1))) for r in rests):
                rep.unk("R20.data", con, "the fields inserted are not understood")
            else:
                rep.bad("R20.data", con, "fields", "the fields of the documents are not inserted", file, e.line)
        else:
            texty = [i for i, y in enumerate(d.entries) if y.tag == "rest" and i not in mine]
            if texty and max(texty) > max(mine):
                rep.bad("R20.data", con, "overruled", "what was recorded about the text overrules the fields of the document", file, e.line)
            elif not lost_fields(rep, con, [norm(d.entries[i].val) for i in mine], file, e):
                rep.ok("R20.data", con)


def lost_fields(rep, con, vals, file, e):
    for v in vals:
        for t in walk(v):
            if t.op == "comp" and t.a[0] == "dict" and len(t.a[2]) == 1:
                flt, val = t.a[2][0]
                for f, pos in flt:
                    f = norm(f)
                    if f.op == "eq" and not pos and any(is_const(x) and cval(x) == "text" for x in f.a):
                        continue
                    rep.bad("R20.data", con, "lost", f"fields of a document are left out ({show(f)[-40:]})", file, e.line)
                    return True
    return False


def images(prog, rep):
    """One vector and one metadata for each image, together or not at all."""
    con = "create_image_search_db"
    I, ps, fi = runf(prog, rep, con, OPAQUE, iters=True)
    src = mk("param", fi.node.args.args[0].arg)
    from .batches import added, outer_list
    from .text import loops_of
    seen = False
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind == "skip" or it.elem is None or not contains(norm(it.key[0]), lambda x: x is src):
                continue
            if it.kind not in ("normal", "continue"):
                continue
            ls = [(t, added(it, t)) for t, c in it.st.heap.items() if c.kind == "list" and outer_list(it, t)]
            if len(ls) < 2 or any(x is None for _, x in ls):
                continue
            seen = True
            ns = {len(x) for _, x in ls}
            rep.check("R20.data", con + " images", len(ns) == 1, "misaligned", "an image adds a vector without its metadata or the other way round", fi.module.path, it.node.lineno)
            if ns == {0} and not any(e.kind == "callx" or e.kind == "handler" for e in it.events):
                rep.bad("R20.data", con + " images", "left out", "an image is passed over although nothing failed", fi.module.path, it.node.lineno)
            for t, new in ls:
                for v in (new if isinstance(new, (list, tuple)) else ()):
                    other(rep, con, it, v, src, fi)
    if not seen:
        rep.unk("R20.data", con + " images", "no loop over the images found")


def other(rep, con, it, v, src, fi):
    """What is recorded for an image is about that image."""
    v = strip_ver(getattr(v, "val", v))
    d = it.st.heap.get(v)
    vals = [y.val for y in d.entries if y.val is not None] if d is not None and d.kind == "dict" else [v]
    for y in vals:
        for t in walk(norm(y)):
            if t.op == "item" and norm(t.a[0]) is src and not fog(t.a[1]) and t.a[1].op != "idx":
                rep.bad("R20.data", con + " images", "another", f"what is recorded for an image is taken from {show(t)[:50]}", fi.module.path, it.node.lineno)
                return


def template(prog, rep):
    con = "create_from_template"
    st = State()
    I = Interp(prog, P())
    t = I.global_value("valori.factory.TEMPLATES", st)
    c = st.heap.get(t) if t.op == "alloc" else None
    if c is None:
        raise AnalysisError("table TEMPLATES not found")
    names = [cval(e.key) for e in c.entries if e.tag == "one" and is_const(e.key)]
    par = prog.func(con).node.args.args[0].arg
    for n in names:
        I, ps, fi = runf(prog, rep, con, OPAQUE, **{par: n})
        rest = kwname(fi)
        if rest is None:
            raise AnalysisError(f"{con} takes no overrides")
        for p in ps:
            if p.kind == "raise":
                rep.bad("R20.options", f"{con}({n})", "refused", f"a template of the package is refused ({show(p.val)[:40]})", fi.module.path, getattr(p.node, "lineno", 0))
                continue
            if p.kind != "return":
                continue
            for x, was in st.heap.items():
                now = p.st.heap.get(x)
                if now is not None and was.kind == "dict" and [(norm(e.key) if e.key is not None else None, norm(e.val)) for e in now.entries] != [(norm(e.key) if e.key is not None else None, norm(e.val)) for e in was.entries]:
                    rep.bad("R20.options", f"{con}({n})", "template changed", "what one caller overrides is written into the template every later caller gets", fi.module.path, fi.node.lineno)
            cs = make_calls(p)
            if len(cs) != 1:
                rep.unk("R20.options", f"{con}({n})", "the call of create_vector_db is not understood")
                continue
            ls = caller_wins(rep, f"{con}({n})", p, cs[0], fi, (), rest)
            for e in c.entries:
                if cval(e.key) != n or ls is None:
                    continue
                d = st.heap.get(strip_ver(e.val))
                for x in d.entries if d else ():
                    v, _ = effective(p, ls, cval(x.key), rest)
                    if v is None or v.op == "item" and norm(v.a[0]) is rest:
                        continue
                    v = strip_ver(v)
                    if is_const(v) and cval(v) is None and not (is_const(x.val) and cval(x.val) is None):
                        rep.bad("R20.options", f"{con}({n})", cval(x.key), f"the {cval(x.key)} of the template is not used", fi.module.path, cs[0].line)
    I, ps, fi = runf(prog, rep, con, OPAQUE, **{par: "no such template"})
    refuse(prog, rep, ps, fi, con + "(unknown)")


# ------------------------------------------------------------------------------------------------------ options

PARSERS = {"text": "TextParser", "pdf": "PDFParser", "office": "OfficeParser", "docling": "DoclingParser"}
STEPS = {"cleaning": "CleaningProcessor", "chunking": "ChunkingProcessor", "embedding": "EmbeddingProcessor"}
OPTIONS = {
    "FlatIndex": "metric", "HNSWIndex": "metric m ef_construction ef_search", "IVFIndex": "metric n_clusters n_probes",
    "LSHIndex": "metric num_hash_tables hash_size num_projections random_seed threshold", "AnnoyIndex": "metric num_trees search_k build_on_disk random_seed",
    "DiskStorage": "data_dir", "HybridStorage": "memory_limit memory disk",
    "ScalarQuantizer": "bits", "ProductQuantizer": "m k", "SAQQuantizer": "total_bits n_segments adjustment_iters rescore_top_k",
    "TensorPersistence": "data_dir compression", "IncrementalPersistence": "data_dir checkpoint_interval",
    "ChunkingProcessor": "strategy chunk_size chunk_overlap min_chunk_size max_chunk_size separators preserve_whitespace",
    "CleaningProcessor": "remove_html normalize_whitespace remove_special_chars special_chars_pattern normalize_unicode remove_extra_spaces lowercase remove_stopwords stopwords_language min_word_length max_word_length",
    "EmbeddingProcessor": "model_name model_type batch_size max_length cache_embeddings normalize_embeddings device",
    "TextParser": "encoding max_file_size chunk_size chunk_overlap", "PDFParser": "extract_images extract_tables chunk_size chunk_overlap max_file_size",
    "OfficeParser": "extract_tables extract_images chunk_size chunk_overlap max_file_size",
    "DoclingParser": "extract_tables extract_figures preserve_layout chunk_size chunk_overlap max_file_size",
}
TEXTUAL = {"description", "type"}
CONFIG = mk("param", "config")


def keys_of(t):
    """Constant keys under which a value is taken from the configuration."""
    return {cval(x.a[1]) for x in walk(norm(t)) if x.op in ("get", "item") and is_const(x.a[1]) and isinstance(cval(x.a[1]), str) and from_config(x.a[0])}


def from_config(t):
    t = norm(t)
    return t is CONFIG or t.op in ("attr", "init") and t.a[-1] == "config" or t.op == "or" and any(from_config(x) for x in t.a if hasattr(x, "op"))


_table = {}


def settings(prog, rep, cls):
    """(field -> keys it is taken from, keys the constructor reads at all, whether everything was understood)"""
    k = (id(prog), cls.qual)
    if k not in _table:
        I = Interp(prog, P(log=True))
        fields, read, sure = {}, set(), True
        me = self_of(cls)
        fi = cls.find("__init__")
        try:
            ps = I.run_method(cls, fi)
        except AnalysisError:
            ps, sure = [], False
        rep.saw(I, ps)
        for p in ps:
            if p.kind != "return":
                continue
            for (o, f), v in p.st.fields.items():
                if o is me:
                    ks = keys_of(v)
                    c = p.st.heap.get(strip_ver(v))
                    for e in c.entries if c else ():
                        if e.val is not None:
                            ks |= keys_of(e.val)
                    fields.setdefault(f, set()).update(ks)
                    read |= ks
                    if contains(v, lambda x: x.op == "unk"):
                        sure = False
        for e in I.log:
            for x in e.a:
                for t in (x if isinstance(x, tuple) else (x,)):
                    if hasattr(t, "op"):
                        read |= keys_of(t)
                    elif isinstance(t, tuple):
                        for y in t:
                            if hasattr(y, "op"):
                                read |= keys_of(y)
        for m, fi2 in all_methods(cls):
            if m == "__init__":
                continue
            for n in ast.walk(fi2.node):            # options looked up when they are needed
                if isinstance(n, ast.Attribute) and n.attr == "config" and isinstance(n.value, ast.Name) and n.value.id == "self":
                    read |= {c.value for c in ast.walk(fi2.node) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        _table[k] = (fields, read, sure)
    return _table[k]


def all_methods(cls):
    out, seen = [], set()
    for c in cls.mro():
        if isinstance(c, ClassInfo):
            for n, fi in c.methods.items():
                if n not in seen:
                    seen.add(n)
                    out.append((n, fi))
    return out


def c21(prog, rep):
    rep.explain = "Constructors are interpreted abstractly to find which option becomes which setting; every shipped configuration, template, recommendation and factory default is read from its literal table and matched with the component it is for."
    rep.rule("R21.catalogue", "a shipped configuration names a known type and sets only options, and only metrics, its component understands", 30)
    rep.rule("R21.names", "every recommendation can be made: the names it refers to exist", 3)
    rep.rule("R21.read", "every documented option is taken from the configuration under its own name", 60)
    rep.rule("R21.value", "a setting has the value given for its option, whatever the value (0, False and empty included)", 60)
    rep.rule("R21.used", "every documented option is consulted by some operation", 50)
    rep.rule("R21.keep", "no operation changes a setting", 60)
    rep.rule("R21.copies", "get_config hands out a copy, not the table", 1)
    rep.rule("R21.parts", "each processor of the pipeline and each parser of the registry is made with the part of the configuration given for it", 4)
    catalogue(prog, rep)
    names(prog, rep)
    copies(prog, rep)
    parts(prog, rep)
    for cn, ks in sorted(OPTIONS.items()):
        component_options(prog, rep, prog.cls(cn), ks.split())


def literal(prog, dotted):
    st = State()
    I = Interp(prog, P())
    t = I.global_value(dotted, st)
    v = plain(st, t)
    if v is None:
        raise AnalysisError(f"table {dotted} is not literal")
    return v


def plain(st, t, depth=0):
    """Literal nested dictionaries as Python values (anything else as the term)."""
    t = strip_ver(t)
    if is_const(t):
        return cval(t)
    if t.op == "alloc" and t in st.heap and st.heap[t].kind == "dict" and depth < 8:
        out = {}
        for e in st.heap[t].entries:
            if e.tag != "one" or e.key is None or not is_const(e.key):
                return None
            out[cval(e.key)] = plain(st, e.val, depth + 1)
        return out
    return t if depth else None


def fits(prog, rep, con, cn, cfg, file, line):
    if not isinstance(cfg, dict):
        rep.unk("R21.catalogue", con, "configuration not literal")
        return
    cls = prog.cls(cn)
    fields, read, sure = settings(prog, rep, cls)
    good = True
    for k, v in cfg.items():
        if k in TEXTUAL:
            continue
        if k not in read:
            good = False
            if sure:
                rep.bad("R21.catalogue", con, k, f"{cn} has no option {k!r}", file, line)
            else:
                rep.unk("R21.catalogue", con, f"options of {cn} not understood")
        elif cn == "HybridStorage" and k in STORE and isinstance(v, dict):
            fits(prog, rep, f"{con}.{k}", STORE[k], v, file, line)
    if good and accepted(prog, rep, cls, cfg) is False:
        good = False
        rep.bad("R21.catalogue", con, "refused", f"{cn} refuses this configuration ({', '.join(f'{k}={v!r}' for k, v in cfg.items() if isinstance(v, str) and k not in TEXTUAL)})", file, line)
    if good:
        rep.ok("R21.catalogue", con)


def accepted(prog, rep, cls, cfg):
    """Whether the constructor takes the configuration; the analysis is specialised to the literal values."""
    from ..interp import Cont, Entry
    fi = cls.find("__init__")
    I = Interp(prog, P())
    al = mk("alloc", "dict", "shipped", 0)

    def prep(interp, st, me):
        st.setheap(al, Cont("dict", tuple(Entry("one", const(k), const(v)) for k, v in cfg.items() if isinstance(v, (str, int, float, bool))), ()))
    par = [a.arg for a in fi.node.args.args][1:2]
    if not par:
        return None
    try:
        ps = I.run_method(cls, fi, args={par[0]: al}, prep=prep)
    except AnalysisError:
        return None
    rep.saw(I, ps)
    kinds = {p.kind for p in ps}
    return False if kinds == {"raise"} else True if kinds == {"return"} else None


def catalogue(prog, rep):
    def where(mod):
        return prog.modules[mod].path
    f, c = where("valori.factory"), where("valori.configs")

    def line_of(mod, name):
        for n in prog.modules[mod].tree.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
            if any(isinstance(t, ast.Name) and t.id == name for t in ts):
                return n.lineno
        return 0
    for n, t in literal(prog, "valori.factory.TEMPLATES").items():
        con = f"TEMPLATES[{n}]"
        ln = line_of("valori.factory", "TEMPLATES")
        it, s = t.get("index_type"), t.get("storage_type", "memory")
        rep.check("R21.catalogue", con, it in INDEX, "index_type", f"unknown index type {it!r}", f, ln)
        rep.check("R21.catalogue", con, s in STORE, "storage_type", f"unknown storage type {s!r}", f, ln)
        if it in INDEX:
            fits(prog, rep, con + ".index_config", INDEX[it], t.get("index_config", {}), f, ln)
        if s in STORE:
            fits(prog, rep, con + ".storage_config", STORE[s], t.get("storage_config", {}), f, ln)
        for k in t:
            if k not in ("index_type", "storage_type", "index_config", "storage_config", "num_vectors", "dimension", "use_case"):
                rep.bad("R21.catalogue", con, k, f"create_vector_db has no option {k!r}", f, ln)
    ln = line_of("valori.configs", "INDEX_CONFIGS")
    for g, cs in literal(prog, "valori.configs.INDEX_CONFIGS").items():
        for n, cfg in cs.items():
            it = n.split("_")[0]
            if it not in INDEX:
                rep.bad("R21.catalogue", f"INDEX_CONFIGS[{g}][{n}]", "type", "the name begins with no index type", c, ln)
            else:
                fits(prog, rep, f"INDEX_CONFIGS[{g}][{n}]", INDEX[it], cfg, c, ln)
    ln = line_of("valori.configs", "STORAGE_CONFIGS")
    for n, s in literal(prog, "valori.configs.STORAGE_CONFIGS").items():
        if s.get("type") not in STORE:
            rep.bad("R21.catalogue", f"STORAGE_CONFIGS[{n}]", "type", f"unknown storage type {s.get('type')!r}", c, ln)
        else:
            fits(prog, rep, f"STORAGE_CONFIGS[{n}]", STORE[s["type"]], s.get("config", {}), c, ln)
    ln = line_of("valori.configs", "DOCUMENT_CONFIGS")
    for n, d in literal(prog, "valori.configs.DOCUMENT_CONFIGS").items():
        pipeline_config(prog, rep, f"DOCUMENT_CONFIGS[{n}]", d, c, ln)
    # configurations written out in functions
    for fn in ("get_recommended_index_config", "get_recommended_config"):
        I, ps, fi = runf(prog, rep, fn)
        for p in ps:
            if p.kind != "return":
                continue
            ks = ("index",) if fn == "get_recommended_config" else ()
            t, cfg = deep(p, p.val, *ks, "type"), deep(p, p.val, *ks, "config")
            con = f"{fn} {show(t)[:20] if t is not None else ''}"
            if t is None or cfg is None or not is_const(t):
                rep.unk("R21.catalogue", con, "recommendation not understood")
            elif cval(t) in INDEX:
                fits(prog, rep, con, INDEX[cval(t)], plain(p.st, cfg), fi.module.path, getattr(p.node, "lineno", 0))
    for fn in ("create_document_db", "create_hybrid_search_db", "create_semantic_search_db"):
        I, ps, fi = runf(prog, rep, fn, OPAQUE)
        rest = kwname(fi)
        for p in ps:
            if p.kind != "return":
                continue
            for e in make_calls(p):
                ls = layers(e) or []
                t, cfg = None, None
                for k, v, d in ls:
                    if k == "index_type":
                        t = v
                    if k == "index_config":
                        cfg = v
                if t is None or cfg is None:
                    continue
                n = cval(t) if is_const(t) else next((x for x in INDEX if fact(p, "eq", norm(t), const(x))), None)
                pc = plain(p.st, cfg)
                if n in INDEX and isinstance(pc, dict):
                    fits(prog, rep, f"{fn}({n})", INDEX[n], pc, fi.module.path, e.line)
            for n, obj, args, kw, e in made(p, ("ProcessingPipeline",)):
                pc = plain(p.st, first(args, kw)) if first(args, kw) is not None else None
                if isinstance(pc, dict):
                    pipeline_config(prog, rep, fn + " pipeline", pc, fi.module.path, e.line)


def pipeline_config(prog, rep, con, d, file, line):
    for sec, names in (("parsers", PARSERS), ("processors", STEPS)):
        for n, cfg in (d.get(sec) or {}).items():
            if n not in names:
                rep.bad("R21.catalogue", f"{con}.{sec}.{n}", "unknown", f"there is no {sec[:-1]} {n!r}", file, line)
            elif isinstance(cfg, dict):
                fits(prog, rep, f"{con}.{sec}.{n}", names[n], cfg, file, line)


def names(prog, rep):
    for s in STORE:
        I, ps, fi = runf(prog, rep, "get_recommended_config", storage_type=s)
        con = f"get_recommended_config({s})"
        for p in ps:
            if p.kind == "raise":
                rep.bad("R21.names", con, "refused", f"a recommendation fails ({show(p.val)[:60]})", fi.module.path, getattr(p.node, "lineno", 0))
            elif p.kind == "return":
                t = deep(p, p.val, "storage", "type")
                if t is None or not is_const(t):
                    rep.unk("R21.names", con, "storage not understood")
                else:
                    rep.check("R21.names", con, cval(t) == s, "storage", f"{cval(t)} storage is recommended when {s} is asked for", fi.module.path, getattr(p.node, "lineno", 0))


def copies(prog, rep):
    I, ps, fi = runf(prog, rep, "get_config")
    for p in ps:
        if p.kind != "return":
            continue
        t = strip_ver(p.val)
        if t.op == "call" and t.a[0] == "copy.deepcopy":
            rep.ok("R21.copies", "get_config")
        elif t.op in ("item", "get", "alloc") and not fog(t):
            rep.bad("R21.copies", "get_config", "table", "the caller is handed the table of the package itself", fi.module.path, getattr(p.node, "lineno", 0))
        else:
            rep.unk("R21.copies", "get_config", "answer not understood")


def component_options(prog, rep, cls, keys):
    fields, read, sure = settings(prog, rep, cls)
    file, line = cls.find("__init__").module.path, cls.find("__init__").node.lineno
    cn = cname(cls)
    for k in keys:
        con = f"{cn}.{k}"
        if k not in read:
            if sure:
                rep.bad("R21.read", con, "ignored", f"the option {k} is not taken from the configuration", file, line)
            else:
                rep.unk("R21.read", con, "constructor not understood")
            continue
        ks = fields.get(k)
        if ks and k not in ks and ks & set(keys):
            rep.bad("R21.read", con, "exchanged", f"the setting {k} is taken from the option {sorted(ks & set(keys))[0]}", file, line)
        else:
            rep.ok("R21.read", con)
        held = {f for f, x in fields.items() if k in x}
        as_given(prog, rep, cls, k, con, held, file, line)
        if cn == "HybridStorage" and k in STORE:
            tiers(prog, rep, cls, k, con, file)
            continue
        used = False
        for m, fi in all_methods(cls):
            if m in ("__init__", "get_stats", "get_info", "get_chunking_stats", "get_supported_extensions"):
                continue
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr in held and isinstance(n.ctx, ast.Load):
                    used = True
                if isinstance(n, ast.Constant) and n.value == k and m != "__init__" and not held:
                    used = True
        rep.check("R21.used", con, used, "unused", f"no operation consults the option {k}", file, line)
        if used:
            consulted(rep, cls, k, con, held)
    # settings stay
    from .effects import events
    me = self_of(cls)
    held = {f: x & set(keys) for f, x in fields.items() if x & set(keys)}
    for m, fi in all_methods(cls):
        if m.startswith("_") or m in ("initialize",) or m.startswith("load"):
            continue
        evs, whole = events(prog, rep, cls, fi)
        con = f"{cn}.{m}"
        if evs is None:
            rep.unk("R21.keep", con, "too many paths")
            continue
        bad = False
        for e in evs:
            f = None
            if e.kind == "setfield" and e.a[0] is me:
                f = e.a[1].a[1]
                v = norm(e.a[2])
                if v.op in ("attr", "init") and v.a[-1] == f:
                    continue
            elif e.kind in ("setitem", "delitem", "mut"):
                t = norm(e.a[0])
                f = t.a[-1] if t.op in ("attr", "init") and norm(t.a[0]) is me else None
            if f in held and field_is_setting(prog, rep, cls, f):
                bad = True
                rep.bad("R21.keep", con, f, f"{m} changes the setting {f}", e.file, e.line)
        if not bad:
            rep.ok("R21.keep", con)


def consulted(rep, cls, k, con, held):
    """How the operations consult a setting: a text compared with one special value only is not used otherwise; a number is not
    replaced by a fixed one; a seed is used whatever it is."""
    special, other, first = set(), False, None

    def is_opt(n):
        return isinstance(n, ast.Attribute) and n.attr in held and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load)

    def num(n):
        return isinstance(n, ast.Constant) and type(n.value) in (int, float)
    for m, fi in all_methods(cls):
        if m in ("__init__", "get_stats", "get_info", "get_chunking_stats", "get_supported_extensions"):
            continue
        up = {c: n for n in ast.walk(fi.node) for c in ast.iter_child_nodes(n)}
        for n in ast.walk(fi.node):
            if not is_opt(n):
                continue
            u, file, line = up.get(n), fi.module.path, n.lineno
            first = first or (file, line)
            c = u.comparators[0] if isinstance(u, ast.Compare) and len(u.ops) == 1 and u.left is n else None
            if isinstance(c, ast.Constant) and isinstance(c.value, str) and isinstance(u.ops[0], (ast.Eq, ast.NotEq)):
                special.add(c.value)
            else:
                other = True
            if isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in ("min", "max") and len(u.args) == 2 and any(num(x) and x.value >= 2 for x in u.args):
                rep.bad("R21.value", con, f"{m} limits", f"{m} limits the setting {k} to a fixed number", file, line)
            elif isinstance(u, ast.BoolOp) and isinstance(u.op, ast.Or) and u.values[0] is n and num(u.values[-1]) and u.values[-1].value:
                rep.bad("R21.value", con, f"{m} replaces", f"{m} replaces the setting {k} by a fixed number when it is 0", file, line)
            elif k.endswith("seed") and isinstance(u, (ast.If, ast.IfExp, ast.While)) and u.test is n:
                rep.bad("R21.value", con, f"{m} leaves out 0", f"{m} does not use the seed 0", file, line)
    if len(special) == 1 and not other:
        rep.bad("R21.used", con, "special", f"the option {k} is only tested for {next(iter(special))!r}; any other value given for it is not used", *first)


def from_section(t):
    t = norm(t)
    return t.op in ("item", "get") and is_const(t.a[1]) and from_config(t.a[0])


def parts(prog, rep):
    cls = prog.cls("ProcessingPipeline")
    fi = cls.find("initialize")
    I = Interp(prog, P())
    ps = I.run_method(cls, fi)
    rep.saw(I, ps)
    own = {c: n for n, c in STEPS.items()}
    for p in ps:
        for n, obj, args, kw, e in made(p, tuple(own)):
            con, step = f"ProcessingPipeline: {own[n]}", own[n]
            c = first(args, kw)
            c = norm(c) if c is not None else None
            if c is None or fog(c):
                rep.unk("R21.parts", con, "configuration not understood")
            elif c.op in ("item", "get") and is_const(c.a[1]) and cval(c.a[1]) == step:
                rep.ok("R21.parts", con)
            elif from_config(c) or c.op in ("item", "get") and is_const(c.a[1]):
                rep.bad("R21.parts", con, "part", f"the {step} step is made with {show(c)[:80]}", e.file, e.line)
            else:
                rep.unk("R21.parts", con, "configuration not understood")
    cls = prog.cls("ParserRegistry")
    fi = cls.find("initialize")
    I = Interp(prog, P())
    ps = I.run_method(cls, fi)
    rep.saw(I, ps)
    con = "ParserRegistry"
    for p in ps:
        if p.kind != "return":
            continue
        put = [e for e in p.events if e.kind == "setitem" and norm(e.a[0]).op in ("attr", "init") and norm(e.a[0]).a[-1] == "parsers"]
        for e in put:
            v, key = norm(e.a[2]), norm(e.a[1])
            a = v.a[1] if v.op == "call" and v.a[0] == "()" else ()
            if len(a) != 2 or any(fog(x) for x in a) or norm(a[0]).op != "item":
                rep.unk("R21.parts", con, "parser not understood")
                continue
            c = norm(a[1])
            if c.op in ("item", "get") and norm(c.a[1]) is norm(norm(a[0]).a[1]):
                rep.ok("R21.parts", con)
            elif from_config(c) or c.op in ("item", "get") and (is_const(c.a[1]) or norm(c.a[1]).op == "key"):
                rep.bad("R21.parts", con, "part", f"a parser is made with {show(c)[:80]} instead of its own configuration", e.file, e.line)
            else:
                rep.unk("R21.parts", con, "configuration not understood")
        if not put and not any(e.kind == "handler" for e in p.events):
            for t, v in p.facts.items():
                x = norm(t.a[0]) if t.op == "truthy" and not v else None
                if x is not None and x.op in ("item", "get") and norm(x.a[1]).op == "key" and from_section(x.a[0]):
                    rep.bad("R21.parts", con, "empty", "a parser configured with an empty configuration is left out", fi.module.path, fi.node.lineno)


KEEPING = ("pathlib.Path", "str", "int", "float", "bool", "list", "tuple", "dict", "copy.copy", "copy.deepcopy", "os.fspath")


def given(t, k, keys=None):
    """The value of the option itself (or a mere conversion of it)."""
    t = norm(t)
    if t.op in ("get", "item") and is_const(t.a[1]) and cval(t.a[1]) == k and from_config(t.a[0]):
        return True
    return t.op == "call" and t.a[0] in KEEPING and len(t.a) > 1 and any(given(x, k) for x in t.a[1][:1])


def as_given(prog, rep, cls, k, con, held, file, line):
    if not held:
        return
    I = Interp(prog, P())
    me = self_of(cls)
    try:
        ps = I.run_method(cls, cls.find("__init__"))
    except AnalysisError:
        rep.unk("R21.value", con, "constructor not understood")
        return
    todo, alt = 0, None
    for p in ps:
        if p.kind != "return":
            continue
        vs = {f: norm(v) for (o, f), v in p.st.fields.items() if o is me and f in held}
        if any(given(v, k) for v in vs.values()):
            continue
        own = [v for f, v in vs.items() if f == k or len(vs) == 1]
        cont = [p.st.heap.get(strip_ver(v)) for (o, f), v in p.st.fields.items() if o is me and f in held]
        if any(c and any(e.val is not None and given(e.val, k) for e in c.entries) for c in cont) or not own:
            continue                        # kept among other settings in a table, or not kept under its name
        v = own[0]
        if is_const(v) or v.op == "alloc":
            if absent(p, k) is None:
                alt = v
            continue
        if v.op in ("or", "and", "bin", "un", "lin") or v.op == "call" and v.a[0] in ("max", "min", "abs", "round"):
            alt = v
        else:
            todo += 1
    if alt is not None:
        rep.bad("R21.value", con, "altered", f"the value given for {k} is not what is used ({show(alt)[:80]})", file, line)
    elif todo:
        rep.unk("R21.value", con, "value not understood")
    else:
        rep.ok("R21.value", con)


def absent(p, k):
    """True when the path is the one of a configuration without the option (or with None for it)."""
    for f, truth in p.facts.items():
        f = norm(f)
        if f.op == "isnone" and truth and given(f.a[0], k):
            return True
        if f.op == "in" and not truth and is_const(f.a[0]) and cval(f.a[0]) == k:
            return True
        if f.op == "truthy" and not truth and from_config(f.a[0]):
            return True
    return None


def field_is_setting(prog, rep, cls, f):
    """The field holds the option itself or a value computed from it, not an object made with it (generators, tiers)."""
    I = Interp(prog)
    me = self_of(cls)
    for p in I.init_state(cls) or []:
        v = p.st.fields.get((me, f))
        if v is not None and (strip_ver(v).op == "alloc" and strip_ver(v).a[0] == "obj" or v.op == "call" and v.a[0].startswith("numpy.random")):
            return False
    return True


def tiers(prog, rep, cls, k, con, file):
    """The tier of the hybrid store gets its own part of the configuration."""
    I = Interp(prog, P())
    for p in I.run_method(cls, cls.find("__init__")):
        if p.kind != "return":
            continue
        for n, obj, args, kw, e in made(p, (STORE[k],)):
            c = first(args, kw)
            ks = keys_of(c) if c is not None else set()
            if k in ks and len(ks) == 1:
                rep.ok("R21.used", con)
            elif c is None or fog(c):
                rep.unk("R21.used", con, "configuration of the tier not understood")
            else:
                rep.bad("R21.used", con, "tier", f"the {k} tier is not made with the configuration given for it", file, e.line)


CHECKS = {"C20": c20, "C21": c21}
