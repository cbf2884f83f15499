"""Shared vocabulary of the rules: component layers, origins, effects, aliasing."""
from __future__ import annotations

import ast

from .interp import Interp, Policy, State
from .prog import AnalysisError, ClassInfo
from .terms import FALSE, NONE, TRUE, cval, is_const, mk, norm, show, strip_ver, walk

EXC = "valori.exceptions."

# base class, error family, guarded operations of the interface (public API names only)
LAYERS = {
    "storage": ("valori.storage.base.StorageBackend", "StorageError",
                ["store_vector", "retrieve_vector", "delete_vector", "update_vector", "list_vectors"]),
    "index": ("valori.indices.base.Index", "ValoriIndexError",
              ["insert", "search", "delete", "update", "add", "remove", "build", "load"]),
    "quantizer": ("valori.quantization.base.Quantizer", "QuantizationError",
                  ["train", "quantize", "dequantize", "compute_distance", "search_with_rescoring"]),
    "persistence": ("valori.persistence.base.PersistenceManager", "PersistenceError",
                    ["save_state", "load_state", "save_vectors", "load_vectors", "save_index", "load_index"]),
    "processor": ("valori.processors.base.DocumentProcessor", "ProcessingError", ["process"]),
    "parser": ("valori.parsers.base.DocumentParser", "ParsingError", ["parse"]),
}
SINGLES = {
    "client": ("VectorDBClient", "ValoriError", ["insert", "search", "delete", "update", "get_stats"]),
    "pipeline": ("ProcessingPipeline", "ProcessingError", ["process_document", "process_text", "batch_process_documents"]),
    "registry": ("ParserRegistry", "ParsingError", ["get_parser", "parse_document"]),
}


def is_abstract(cls):
    for m in {n for c in cls.mro() if isinstance(c, ClassInfo) for n in c.methods}:
        fi = cls.find(m)
        if fi and any((getattr(d, "id", None) or getattr(d, "attr", None)) == "abstractmethod" for d in fi.node.decorator_list):
            return True
    return False


def concrete(prog, base):
    short = base.rsplit(".", 1)[1]
    prog.cls(short)
    return [c for c in sorted(prog.subclasses(short), key=lambda c: c.qual) if not is_abstract(c) and c.qual != base]


def components(prog, names=None):
    """Yield (layer, error class, [ops], ClassInfo)."""
    for lay, (base, err, ops) in LAYERS.items():
        if names and lay not in names:
            continue
        for c in concrete(prog, base):
            yield lay, EXC + err, ops, c
    for lay, (cn, err, ops) in SINGLES.items():
        if names and lay not in names:
            continue
        yield lay, EXC + err, ops, prog.cls(cn)


def cname(cls):
    return cls.qual.rsplit(".", 1)[1]


_cache = {}


class P(Policy):
    def __init__(self, implicit=False, inline_fields=(), **kw):
        self.implicit = implicit
        self.inline_fields = inline_fields
        for k, v in kw.items():
            setattr(self, k, v)


def paths(prog, rep, cls, meth, policy=None, start=None, args=None, tag=None):
    """Abstract paths of cls.meth; start = dict of (field -> const term)."""
    key = (id(prog), cls.qual if cls else None, meth if isinstance(meth, str) else meth.qual, tag,
           tuple(sorted((f, v.uid) for f, v in start.items())) if start else None,
           (policy.implicit, policy.coarse, policy.trace_reads, tuple(policy.inline_fields), tuple(policy.no_inline), tuple(policy.construct)) if policy else None)
    if tag is not False and key in _cache:
        I, ps = _cache[key]
        rep.saw(I, ps)
        return ps
    I = Interp(prog, policy or Policy())
    fi = cls.find(meth) if isinstance(meth, str) else meth
    if fi is None:
        return None

    def prep(interp, st, me):
        for f, v in (start or {}).items():
            st.setfield(me, f, v)
    ps = I.run_method(cls, fi, args=args, prep=prep)
    for p in ps:
        p.interp = I
    rep.saw(I, ps)
    if tag is not False:
        _cache[key] = (I, ps)
    return ps


def fpaths(prog, rep, name, policy=None):
    """Abstract paths of a module-level function (by public name, or a FuncInfo)."""
    fi = prog.func(name) if isinstance(name, str) else name
    key = (id(prog), "func", fi.qual, policy.implicit if policy else None)
    if key not in _cache:
        I = Interp(prog, policy or Policy())
        ps = I.run_func(fi)
        for p in ps:
            p.interp = I
        _cache[key] = (I, ps)
    I, ps = _cache[key]
    rep.saw(I, ps)
    return ps


def self_of(cls):
    return mk("self", cls.qual)


def scalar_fields(cls, p):
    """Fields whose value at this exit is a literal (flags, counters)."""
    me = self_of(cls)
    return {f: v for (o, f), v in p.st.fields.items() if o is me and is_const(v)}


def fresh(prog, rep, cls):
    """Distinct literal-field states after construction."""
    I = Interp(prog)
    outs = {}
    for p in I.init_state(cls) or []:
        s = scalar_fields(cls, p)
        outs[tuple(sorted((f, v.uid) for f, v in s.items()))] = s
    return list(outs.values())


def carry(start, cls, p):
    """Literal fields after running path p from the literal state start."""
    me = self_of(cls)
    out = {f: v for f, v in start.items() if (me, f) not in p.st.fields}
    out.update(scalar_fields(cls, p))
    return out


def exits(cls, ps, kind="return"):
    outs = {}
    for p in ps or []:
        if p.kind == kind:
            s = scalar_fields(cls, p)
            outs.setdefault(tuple(sorted((f, v.uid) for f, v in s.items())), (s, p))
    return list(outs.values())


# ------------------------------------------------------------------ exceptions
def exc_class(prog, t):
    """Qualified class of a raised exception term, or None."""
    t = strip_ver(t)
    if t is None:
        return None
    if t.op == "exc":
        return t.a[0]
    if t.op == "alloc" or t.op == "unk":
        return None
    return None


def in_family(prog, qual, fam):
    if qual == fam:
        return True
    return prog.is_subclass(qual, fam)


# ------------------------------------------------------------------ term roots
def base_root(t):
    """Follow item/get/attr/slice/iteration back to the object the value belongs to."""
    while True:
        t = strip_ver(t)
        if t.op in ("item", "get", "attr", "slice"):
            t = t.a[0]
            continue
        if t.op == "call" and t.a[0] in (".items", ".values", ".keys", "list", "tuple", "sorted", "reversed", "iter", "set", "next", "enumerate") and t.a[1]:
            t = t.a[1][0]
            continue
        return t


def owner_field(t, me):
    """Name of the field of `me` that the reference t lives in (or None)."""
    r = base_root(t)
    while r.op == "init":
        if strip_ver(r.a[0]) is me:
            return r.a[1]
        r = base_root(r.a[0])
    if r.op == "alloc" or r.op == "comp":
        return None
    return None


def is_self_rooted(t, me):
    r = base_root(t)
    while r.op == "init":
        r = base_root(r.a[0])
    return r is me


WRITE_METHODS = {
    "store_vector", "delete_vector", "update_vector", "initialize", "close", "insert", "delete", "update", "add", "remove",
    "train", "save_state", "save_vectors", "save_index", "unlink", "mkdir", "touch", "write", "write_bytes", "write_text",
    "rename", "replace", "rmdir", "add_item", "build", "unload", "load", "fit", "fit_predict", "clear", "process", "parse", "quantize",
    "add_parser", "remove_parser", "writelines", "truncate", "save",
}
IO_WRITE = ("numpy.save", "pickle.dump", "json.dump", "os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir",
            "os.makedirs", "os.mkdir", "shutil.")
MUTABLE_EV = ("setfield", "setitem", "delitem", "mut", "aug")


def is_write_call(ev):
    """A call event that changes a component or the file system."""
    name = ev.a[0].a[0]
    if name.startswith("."):
        return name[1:] in WRITE_METHODS
    if name in ("json.dumps", "pickle.dumps"):
        return False
    if name.startswith(IO_WRITE):
        return True
    if name in ("open", "io.open"):
        return open_mode(ev.a[2], ev.a[3]) not in ("r", "rb", "rt", None)
    return False


def open_mode(args, kw):
    m = dict(kw).get("mode") if kw else None
    if m is None and len(args) > 1:
        m = args[1]
    if m is None:
        return "r"
    return cval(m) if is_const(m) else "?"


def effects(p, me=None):
    """Events on the path that change observable state."""
    out = []
    for e in p.events:
        if e.kind == "aug":
            r = base_root(e.a[0])
            if r.op in ("init", "param", "self"):
                out.append(e)
        elif e.kind in MUTABLE_EV:
            out.append(e)
        elif e.kind == "call" and is_write_call(e):
            out.append(e)
    return out


def ev_name(e):
    if e.kind == "setfield":
        return f"write to .{e.a[1].a[1]}"
    if e.kind in ("setitem", "delitem", "mut", "aug"):
        return f"{e.kind} on {show(e.a[0])[:80]}"
    if e.kind in ("call", "callx"):
        return f"call {e.a[0].a[0]}"
    return e.kind


def loc(p):
    """(file, line) of a path's exit."""
    n = p.node
    f = None
    for e in reversed(p.events):
        f = e.file
        break
    return f, getattr(n, "lineno", 0)


def fact_false(p, pred):
    return any((not v) and pred(a) for a, v in p.facts.items())


def id_empty(p, param="id"):
    """The path is taken only when the id parameter is empty / falsy."""
    pid = mk("param", param)
    for a, v in p.facts.items():
        if a.op == "truthy" and strip_ver(a.a[0]) is pid and v is False:
            return True
        if a.op == "isnone" and strip_ver(a.a[0]) is pid and v is True:
            return True
        if a.op == "eq" and v and pid in [strip_ver(x) for x in a.a if hasattr(x, "op")]:
            return True
    return False
