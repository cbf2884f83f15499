"""Which operations change what: arguments are never changed, reading operations change nothing."""
import ast

from ..alias import SHALLOW_CALLS, Aliases, ann_kind
from ..common import *
from ..prog import ClassInfo

# numpy and stdlib functions that change their first argument
INPLACE = {
    "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0,
    "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.random.shuffle": 0, "random.shuffle": 0, "heapq.heapify": 0, "heapq.heappush": 0,
    "heapq.heappop": 0, "heapq.heappushpop": 0, "heapq.heapreplace": 0, "bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0,
    ".sort": 0, ".fill": 0, ".resize": 0, ".partition": 0, ".itemset": 0, ".setflags": 0, ".byteswap": None, "setattr": 0, "delattr": 0, ".shuffle": 1,
    ".setfield": 0,
}
COPY_FALSE = {"numpy.nan_to_num"}


def exported(prog):
    return {n for m in prog.modules.values() if m.is_pkg for n in m.names}


def called_names(prog):
    """Names of functions called somewhere in the package."""
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = n.func
                out.add(f.id if isinstance(f, ast.Name) else getattr(f, "attr", None))
    return out


def public_functions(prog):
    """(class or None, FuncInfo) of every public function and of every public method where it is defined or inherited concretely."""
    out = []
    ex, used = exported(prog), called_names(prog)
    for name, m in sorted(prog.modules.items()):
        for k, v in sorted(m.names.items()):
            if v[0] == "func" and v[1].module is m and not k.startswith("_") and (k in ex or k not in used):
                out.append((None, v[1]))      # others are helpers, followed from their callers
            elif v[0] == "class" and v[1].module is m and not k.startswith("_"):
                c = v[1]
                for n, fi in sorted(c.methods.items()):
                    if not n.startswith("_") or n in ("__init__", "__call__", "__enter__", "__exit__"):
                        out.append((c, fi))
    return out


_events = {}


def events(prog, rep, cls, fi):
    """Every event of the function; on large ones of a run that joins states. (events, whether no state was joined)"""
    key = (id(prog), cls.qual if cls else None, fi.qual)
    if key not in _events:
        got = None
        for whole, pol in ((True, P(log=True, max_steps=500_000)), (False, P(log=True, coarse=True, max_steps=1_500_000))):
            I = Interp(prog, pol)
            try:
                ps = I.run_method(cls, fi) if cls else I.run_func(fi)
            except AnalysisError:
                continue
            got = (I, ps, whole)
            break
        _events[key] = got
    if _events[key] is None:
        return None, False
    I, ps, whole = _events[key]
    rep.saw(I, ps)
    return list({id(e): e for e in I.log}.values()), whole


def altered(e):
    """Values an event changes in place."""
    if e.kind in ("setitem", "delitem", "mut", "aug", "linsert", "tablechange"):
        return [e.a[0]]
    if e.kind == "setfield":
        return [e.a[0]]
    if e.kind in ("call", "callx"):
        n, args, kw = e.a[0].a[0], e.a[2], dict(e.a[3]) if e.a[3] else {}
        out = []
        if n in INPLACE and INPLACE[n] is not None and len(args) > INPLACE[n]:
            out.append(args[INPLACE[n]])
        if n in COPY_FALSE and args and "copy" in kw and is_const(kw["copy"]) and cval(kw["copy"]) is False:
            out.append(args[0])
        if "out" in kw and n.startswith(("numpy.", ".")):
            out += list(kw["out"].a) if kw["out"].op == "tuple" else [kw["out"]]
        return out
    return []


def whose(prog, cls, fi, A, e, t):
    """Name of the parameter the changed value belongs to, or None."""
    t = strip_ver(t)
    rs = A.roots(t, e.heap)
    for r in sorted(rs, key=show):
        b = base_root(r)
        while b.op == "init" and b.a[0].op != "self":
            b = base_root(b.a[0])
        if b.op == "param":
            if fi.node.args.kwarg is not None and fi.node.args.kwarg.arg == b.a[0] and strip_ver(r) is b:
                continue                      # the dictionary of keyword arguments is the function's own
            if e.kind == "aug" and not arrayish(A, r):
                continue
            if e.kind == "mut" and cval(e.a[1]) not in ("append", "extend", "setdefault", "popitem", "sort", "appendleft", "popleft", "delslice") and A.ann(r) is None:
                continue                      # update(), insert() ... of an unknown object need not be a container's
            return b.a[0]
    return None


def table(t):
    """Name of the module-level table the value belongs to, or None."""
    t = strip_ver(t)
    while True:
        if t.op in ("item", "get", "slice", "attr"):
            t = strip_ver(t.a[0])
            while t.op == "call" and t.a[0] in SHALLOW_CALLS and t.a[1]:
                t = strip_ver(t.a[1][0])      # an element of a shallow copy is still the table's
            continue
        break
    if t.op == "alloc" and isinstance(t.a[1], str) and t.a[1].startswith("valori."):
        return t.a[1]
    if t.op == "glob" and t.a[0].startswith("valori."):
        return t.a[0]
    return None


def lent(prog, rep, cls):
    """Fields that hold an argument of the constructor itself (not a copy)."""
    fi = cls.find("__init__")
    if fi is None:
        return {}
    evs, _ = events(prog, rep, cls, fi)
    me, out = self_of(cls), {}
    A = Aliases(prog, cls, fi)
    for e in evs or ():
        if e.kind == "setfield" and e.a[0] is me:
            for r in A.roots(e.a[2], e.heap):
                b = base_root(r)
                if b.op == "param" and A.kind(r) == "mut":
                    out[e.a[1].a[1]] = b.a[0]
    return out


def rebound(prog, rep, cls, f):
    """Another method puts something else into the field."""
    for c in cls.mro():
        if not isinstance(c, ClassInfo):
            continue
        for n, fi in c.methods.items():
            if n == "__init__":
                continue
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and x.attr == f and isinstance(x.ctx, ast.Store):
                    return True
    return False


def arrayish(A, r):
    """x += y changes x itself only for arrays and lists."""
    from ..alias import ann_head
    a = A.ann(r)
    if a is None:
        return False
    n, args = ann_head(a)
    if n in ("Optional", "Union"):
        return any(ann_head(x)[0] in ("ndarray", "List", "list", "Dict", "dict", "Set", "set") for x in args)
    return n in ("ndarray", "List", "list", "Dict", "dict", "Set", "set")


def c06(prog, rep):
    rep.explain = "Interprocedural effect and alias analysis of every public function, method and constructor: every in-place change is traced back to the values it may reach."
    rep.rule("R6.args", "nothing reachable from an argument is changed in place", 150)
    rep.rule("R6.tables", "no function changes a table of the package, so what it does never depends on earlier calls", 0)
    for cls, fi in public_functions(prog):
        con = (cname(cls) + "." if cls else "") + fi.name
        evs, whole = events(prog, rep, cls, fi)
        if evs is None:
            rep.unk("R6.args", con, "too many paths")
            continue
        A = Aliases(prog, cls, fi)
        seen = set()
        held = lent(prog, rep, cls) if cls and fi.name != "__init__" else {}
        for e in evs:
            for t in altered(e):
                f = owner_field(t, self_of(cls)) if held and e.kind not in ("setfield", "aug") else None
                if f in held and (f, e.line) not in seen and not rebound(prog, rep, cls, f):
                    seen.add((f, e.line))
                    rep.bad("R6.args", con, f, f"changes the {held[f]} the constructor was given ({ev_name(e)[:70]})", e.file, e.line)
                w = whose(prog, cls, fi, A, e, t)
                if w and w != "self" and (w, e.line) not in seen:
                    seen.add((w, e.line))
                    rep.bad("R6.args", con, w, f"changes its argument {w} in place ({ev_name(e)[:70]})", e.file, e.line)
                if table(t) and e.kind != "aug" and (t, e.line) not in seen:
                    seen.add((t, e.line))
                    rep.bad("R6.tables", con, table(t).rsplit(".", 1)[1], f"changes the module's table {table(t)}", e.file, e.line)
        if not seen:
            rep.ok("R6.args", con)


# ------------------------------------------------------------------ reading operations
READS = {"retrieve_vector", "list_vectors", "search", "quantize", "dequantize", "compute_distance", "search_with_rescoring", "load_state",
         "load_vectors", "load_index", "can_parse", "inspect_index", "analyze_vectors", "analyze_query_patterns", "validate_document", "supports_format"}
NOT_WRITES = {".quantize", ".parse", ".process", ".load", ".build"}
STATS = ("get_stats", "get_summary", "get_statistics")


def reading(cls, n):
    return n in READS or n.startswith(("get_", "list_", "is_", "has_", "can_", "inspect_", "print_"))


def tallies(cls):
    """Fields whose content nothing but the statistics looks at."""
    loads, fields = set(), set()
    for c in cls.mro():
        if not isinstance(c, ClassInfo):
            continue
        for fi in c.methods.values():
            own = set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.AugAssign):
                    own |= {id(x) for x in ast.walk(n.target)}
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                    f = n.targets[0].attr     # self.n = self.n + 1
                    own |= {id(x) for x in ast.walk(n.value) if isinstance(x, ast.Attribute) and x.attr == f}
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                    own |= {id(x) for x in ast.walk(n.value.func)}
                if isinstance(n, ast.Assign):
                    own |= {id(x) for t in n.targets if isinstance(t, ast.Subscript) for x in ast.walk(t.value)}
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    fields.add(n.attr)
                    if isinstance(n.ctx, ast.Load) and id(n) not in own and fi.name not in STATS and not fi.name.startswith("print_"):
                        loads.add(n.attr)
    return fields - loads


def fetched(v, k=None):
    """The value comes from a record of the backing store (of the key k)."""
    return any(x.op == "call" and x.a[0] == ".retrieve_vector" and (k is None or k in x.a[1]) for x in walk(v))


def c07(prog, rep):
    rep.explain = "Interprocedural effect analysis of every reading operation: each change of the component, of one it was given or of a file must be a cache fill, a remembered value or a tally only the statistics look at."
    rep.rule("R7.state", "a reading operation changes neither the component nor the components it uses", 60)
    rep.rule("R7.files", "a reading operation writes and removes no file", 60)
    for cls, fi in public_functions(prog):
        if cls is None or is_abstract(cls) or not reading(cls, fi.name):
            continue
        one(prog, rep, cls, fi)
    for lay, err, ops, cls in components(prog):
        for n in sorted({n for c in cls.mro() if isinstance(c, ClassInfo) for n in c.methods}):
            fi = cls.find(n)
            if not n.startswith("_") and reading(cls, n) and n not in cls.methods:
                one(prog, rep, cls, fi)


def one(prog, rep, cls, fi):
    con = f"{cname(cls)}.{fi.name}"
    evs, whole = events(prog, rep, cls, fi)
    if evs is None:
        rep.unk("R7.state", con, "too many paths")
        return
    me = self_of(cls)
    free = tallies(cls) if fi.name not in STATS else set()
    _, ps, _ = _events[(id(prog), cls.qual, fi.qual)]
    seen, files = set(), set()
    filled = {}                               # components a path stores a fetched record in
    for e in evs:
        if e.kind in ("call", "callx") and e.a[0].a[0] == ".store_vector" and e.a[2] and fetched(mk("tuple", *[x for x in e.a[2][1:]])):
            src = {norm(x.a[1][0]) for y in e.a[2][1:] for x in walk(y) if x.op == "call" and x.a[0] == ".retrieve_vector" and x.a[1]}
            if norm(e.a[2][0]) not in src:
                filled.setdefault(strip_ver(e.a[2][0]), e)
    for e in evs:
        if e.kind == "setfield" and e.a[0] is me:
            f = e.a[1].a[1]
            if f in free or remembered(e, me, f) or same(e, me, f):
                continue
            if f not in seen:
                seen.add(f)
                rep.bad("R7.state", con, f, f"a reading operation sets {f}", e.file, e.line)
        elif e.kind == "aug" and arrays_of(cls, fi, prog, e, me):
            f = owner_field(e.a[0], me)
            if f not in seen and f not in free:
                seen.add(f)
                rep.bad("R7.state", con, f or "state", f"a reading operation changes {show(e.a[0])[:60]} in place", e.file, e.line)
        elif e.kind in ("setitem", "delitem", "mut") and is_self_rooted(e.a[0], me):
            f = owner_field(e.a[0], me)
            if f in free or f in seen:
                continue
            if e.kind == "setitem" and fetched(e.a[2], norm(e.a[1])):
                continue                      # a cache of the backing store
            seen.add(f)
            rep.bad("R7.state", con, f or "state", f"a reading operation changes {show(e.a[0])[:60]}", e.file, e.line)
        elif e.kind in ("call", "callx") and is_write_call(e) and e.a[0].a[0] not in NOT_WRITES:
            n = e.a[0].a[0]
            recv = strip_ver(e.a[2][0]) if e.a[2] else None
            if n.startswith(".") and n[1:] in ("store_vector", "delete_vector", "update_vector", "insert", "delete", "update", "add", "remove", "train", "initialize", "close", "clear", "fit", "unload"):
                if recv is None or not is_self_rooted(recv, me):
                    continue
                if recv in filled and n in (".store_vector", ".delete_vector"):
                    continue                  # a cache of the backing store
                if n not in seen:
                    seen.add(n)
                    rep.bad("R7.state", con, n, f"a reading operation calls {n[1:]} on {show(recv)[:40]}", e.file, e.line)
            elif n not in files and not (n.startswith(".") and n[1:] not in ("unlink", "mkdir", "touch", "write_bytes", "write_text", "rename", "replace", "rmdir", "truncate")):
                if n in (".replace",) and not (recv is not None and pathish(recv)):
                    continue
                files.add(n)
                rep.bad("R7.files", con, n, f"a reading operation calls {n.lstrip('.')}", e.file, e.line)
    if not seen:
        rep.ok("R7.state", con)
    if not files:
        rep.ok("R7.files", con)


def arrays_of(cls, fi, prog, e, me):
    """x += y where x is an array or list the component holds."""
    t = strip_ver(e.a[0])
    if not is_self_rooted(t, me):
        return False
    A = Aliases(prog, cls, fi)
    return any(is_self_rooted(r, me) and arrayish(A, r) for r in A.roots(t, e.heap))


def pathish(t):
    return any(x.op == "call" and x.a[0] in ("pathlib.Path",) for x in walk(t)) or any(x.op == "bin" and x.a[0] == "/" for x in walk(t))


def remembered(e, me, f):
    """The field is filled because it was still None."""
    at = mk("isnone", mk("init", me, f))
    return any(v and a.op == "isnone" and strip_ver(a.a[0]) is mk("init", me, f) for a, v in e.facts.items())


def same(e, me, f):
    return strip_ver(e.a[2]) is mk("init", me, f)


CHECKS = {"C06": c06, "C07": c07}
