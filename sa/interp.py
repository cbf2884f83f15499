"""Path-partitioned abstract interpretation over the provenance domain.

A method is interpreted once per abstract path.  Values are provenance terms (where did this
value come from), never concrete data; containers owned by the object under analysis are
references with a mutation version; local containers have abstract contents.  A loop is
abstracted to "no iteration" or "the iteration of one arbitrary witness element" with the
loop-carried variables havocked, so whatever is concluded about the witness holds for every
element.  Branch conditions become canonical facts and a branch is dropped only when it
directly contradicts a fact already on the path.  There is no constraint solver.
"""
from __future__ import annotations

import ast
import builtins as _pybuiltins
import string

from .prog import AnalysisError, ClassInfo, FuncInfo
from .terms import (FALSE, NONE, TRUE, T, call, const, contains, cval, glob, is_const, mk, norm, show, strip_ver, walk)

BUILTINS = set(dir(_pybuiltins))

MUTATORS = {
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "add", "discard",
    "setdefault", "sort", "reverse", "appendleft", "popleft", "extendleft", "fill", "resize", "put", "setflags",
    "itemset", "partition", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end",
    "rotate", "byteswap",
}
PURE_METHODS = {
    "copy", "get", "keys", "items", "values", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "title",
    "astype", "reshape", "mean", "sum", "min", "max", "any", "all", "tobytes", "encode", "decode", "format", "join",
    "startswith", "endswith", "ravel", "flatten", "tolist", "transpose", "std", "var", "argmin", "argmax", "argsort",
    "squeeze", "item", "find", "rfind", "index", "count", "replace", "isalnum", "isalpha", "isdigit", "isspace",
    "dot", "clip", "round", "cumsum", "nonzero", "view", "with_suffix", "total_seconds", "isoformat", "group", "groups",
    "splitlines", "capitalize", "hexdigest", "digest", "zfill", "isnumeric", "isupper", "islower", "is_integer",
    "union", "intersection", "difference", "issubset", "issuperset", "partition_", "repeat", "take", "swapaxes", "most_common",
    "isidentifier", "casefold", "ljust", "rjust", "center", "translate", "relative_to", "joinpath", "with_name", "prod", "conj",
}
# reading methods whose answer may change between calls (file-system state), kept impure
PURE_PREFIX = (
    "numpy.", "math.", "sklearn.metrics.pairwise.", "os.path.join", "os.path.splitext", "os.path.basename",
    "os.path.dirname", "os.path.normpath", "os.path.abspath", "os.path.relpath", "hashlib.", "re.", "json.dumps", "copy.", "pathlib.", "itertools.", "operator.",
    "collections.", "scipy.", "functools.", "string.", "unicodedata.", "textwrap.", "urllib.parse.",
)
IMPURE_EXC = ("numpy.random.", "numpy.save", "numpy.load", "numpy.copyto", "numpy.put", "numpy.fill_diagonal", "numpy.add.at")
PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "min", "max", "sum", "any", "all", "str", "int", "float", "bool", "abs", "round",
    "sorted", "list", "tuple", "set", "dict", "frozenset", "range", "enumerate", "zip", "reversed", "type", "repr", "hash",
    "ord", "chr", "divmod", "pow", "bytes", "hasattr", "callable", "map", "filter", "bin", "hex", "format", "complex", "slice", "iter", "id", "bytearray", "object", "property",
}
EXC_PARENTS = {
    "KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
    "LookupError": ("Exception",), "ValueError": ("Exception",), "TypeError": ("Exception",),
    "AttributeError": ("Exception",), "ImportError": ("Exception",), "ModuleNotFoundError": ("ImportError", "Exception"),
    "OSError": ("Exception",), "IOError": ("OSError", "Exception"), "FileNotFoundError": ("OSError", "IOError", "Exception"),
    "PermissionError": ("OSError", "IOError", "Exception"), "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"),
    "ZeroDivisionError": ("ArithmeticError", "Exception"), "ArithmeticError": ("Exception",), "OverflowError": ("ArithmeticError", "Exception"),
    "UnicodeDecodeError": ("UnicodeError", "ValueError", "Exception"), "UnicodeError": ("ValueError", "Exception"),
    "StopIteration": ("Exception",), "AssertionError": ("Exception",), "MemoryError": ("Exception",), "EOFError": ("Exception",),
    "TimeoutError": ("OSError", "Exception"), "FileExistsError": ("OSError", "IOError", "Exception"), "Exception": (), "BaseException": (),
    "KeyboardInterrupt": (), "SystemExit": (), "Warning": ("Exception",), "UserWarning": ("Warning", "Exception"),
    "RecursionError": ("RuntimeError", "Exception"), "NameError": ("Exception",),
}


class Entry:
    __slots__ = ("tag", "key", "val", "facts", "node", "loops")

    def __init__(self, tag, key, val, facts=None, node=None, loops=()):
        self.tag, self.key, self.val, self.facts, self.node, self.loops = tag, key, val, facts, node, loops

    def __repr__(self):
        return f"{self.tag}:{show(self.key) + '=' if self.key is not None else ''}{show(self.val)}"


class Cont:
    """Abstract contents of a local container."""
    __slots__ = ("kind", "entries", "loops", "order", "limit", "src", "cls")

    def __init__(self, kind, entries=(), loops=(), order=None, limit=(), src=None, cls=None):
        self.kind, self.entries, self.loops = kind, tuple(entries), loops
        self.order, self.limit, self.src, self.cls = order, tuple(limit), src, cls

    def with_(self, **k):
        d = dict(kind=self.kind, entries=self.entries, loops=self.loops, order=self.order, limit=self.limit, src=self.src, cls=self.cls)
        d.update(k)
        return Cont(**d)

    def __repr__(self):
        return f"{self.kind}{list(self.entries)}"


class Ev:
    __slots__ = ("kind", "a", "node", "fn", "facts", "locks", "loops", "fields", "heap", "excs")

    def __init__(self, kind, a, node, fn, st):
        self.kind, self.a, self.node, self.fn = kind, a, node, fn
        self.facts, self.locks, self.loops = st.facts, st.locks, st.loops
        self.fields = st.fields
        self.heap = st.heap
        self.excs = st.exc

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def file(self):
        return self.fn.module.path if self.fn else "?"

    def __repr__(self):
        return f"{self.kind}({', '.join(show(x) for x in self.a)})@{self.line}"


class State:
    __slots__ = ("env", "fields", "heap", "ver", "store", "facts", "events", "locks", "loops", "nalloc", "exc", "tries", "steps", "ncall")

    def __init__(self):
        self.env = {}
        self.fields = {}
        self.heap = {}
        self.ver = {}
        self.store = {}
        self.facts = {}
        self.events = ()
        self.locks = ()
        self.loops = ()
        self.nalloc = {}
        self.exc = ()
        self.tries = ()
        self.ncall = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.fields = self.fields
        s.heap = self.heap
        s.ver = self.ver
        s.store = self.store
        s.facts = self.facts
        s.events = self.events
        s.locks = self.locks
        s.loops = self.loops
        s.nalloc = self.nalloc
        s.exc = self.exc
        s.tries = self.tries
        s.ncall = self.ncall
        return s

    # all dict members except env are replaced, never mutated in place
    def setfield(self, o, f, v):
        d = dict(self.fields)
        d[(o, f)] = v
        self.fields = d

    def setheap(self, t, c):
        d = dict(self.heap)
        d[t] = c
        self.heap = d

    def setstore(self, k, v):
        d = dict(self.store)
        d[k] = v
        self.store = d

    def bump(self, b):
        d = dict(self.ver)
        d[b] = d.get(b, 0) + 1
        self.ver = d

    def setfact(self, atom, pol):
        d = dict(self.facts)
        d[atom] = pol
        self.facts = d


DELETED = mk("deleted")


class Frame:
    __slots__ = ("fn", "module", "cls", "depth", "hook", "gen", "scope")

    def __init__(self, fn, module, cls, depth, hook=None, gen=None):
        self.fn, self.module, self.cls, self.depth, self.hook, self.gen = fn, module, cls, depth, hook, gen


class Policy:
    max_depth = 14
    max_paths = 60000
    max_steps = 3_000_000
    inline_fields = ()        # class names of field-typed components whose methods are inlined
    construct = ()            # class names whose constructors are inlined ('*' = all)
    no_inline = ()            # qualified or simple names kept opaque
    implicit = False
    trace_reads = False       # emit a 'use' event whenever the content of a field of self is consulted
    log = False               # keep every event of the run, also those of joined states
    coarse = False            # join states that agree on the literal-valued fields
    throws = {}               # external function -> exception classes it may raise (each gives a path)
    iterations = False        # record the state at the end of every abstract loop iteration

    def inline(self, fi, interp, st):
        return fi.name not in self.no_inline and fi.qual not in self.no_inline

    def may_raise(self, name, recv, args, st):
        return self.implicit

    def known_call(self, interp, name, args, kw, st):
        """Optional model for external calls: return a term or None."""
        return None


class Path:
    """One abstract path from entry to exit."""
    __slots__ = ("kind", "st", "val", "node", "interp")

    def __init__(self, kind, st, val, node):
        self.kind, self.st, self.val, self.node = kind, st, val, node

    @property
    def events(self):
        return self.st.events

    @property
    def facts(self):
        return self.st.facts


class Iteration:
    """The state at the end of one arbitrary iteration of a loop."""
    __slots__ = ("kind", "st", "node", "fr", "key", "carried", "elem", "val")

    def __init__(self, kind, st, node, fr, key, carried, elem, val=None):
        self.kind, self.st, self.node, self.fr, self.key, self.carried, self.elem, self.val = kind, st, node, fr, key, carried, elem, val

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return self.st.events


class Closure:
    __slots__ = ("node", "env", "frame", "fi")

    def __init__(self, node, env, frame, fi=None):
        self.node, self.env, self.frame, self.fi = node, env, frame, fi


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.policy = policy or Policy()
        self.closures = {}
        self.tasks = []           # what functions handed to an executor do
        self.sinks = []
        self.steps = 0
        self.inlined = set()
        self.field_types_cache = {}
        self.init_cache = {}
        self.selfcls = {}
        self.calls_seen = 0
        self.branches = 0
        self.unknowns = 0
        self.assign_cache = {}
        self.visited_funcs = set()
        self._scandeps = {}
        self.iterations = []
        self.log = []

    # ------------------------------------------------------------------ entry
    def run_method(self, cls, fi, args=None, prep=None, self_term=None):
        st = State()
        me = self_term or mk("self", cls.qual)
        self.selfcls[me] = cls
        params = self.param_names(fi)
        binding = {}
        if fi.kind in ("method", "property"):
            binding[params[0]] = me
            params = params[1:]
        elif fi.kind == "classmethod":
            binding[params[0]] = glob(cls.qual)
            params = params[1:]
        for p in params:
            binding[p] = (args or {}).get(p, mk("param", p))
        if prep:
            prep(self, st, me)
        return self.run(fi, st, binding, cls)

    def run_func(self, fi, args=None, prep=None):
        st = State()
        binding = {p: (args or {}).get(p, mk("param", p)) for p in self.param_names(fi)}
        if prep:
            prep(self, st, None)
        return self.run(fi, st, binding, None)

    def run(self, fi, st, binding, cls):
        self.steps = 0
        self.iterations = []
        self.log = []
        st.env = binding
        self.sinks = [[]]
        self.visited_funcs.add(fi.qual)
        fr = Frame(fi, fi.module, fi.cls or cls, 0)
        if fi.decorators:
            # entry through decorator wrappers: call it as a value would be called
            me = None
            names = self.param_names(fi)
            vals = [binding[n] for n in names]
            st.env = {}
            outs = []
            for s, v in self.call_fi(st, fi, vals, (), fi.node, fr, cls=cls, entry=True):
                outs.append(Path("return", s, v, fi.node))
            for s, e, nd in self.sinks[0]:
                outs.append(Path("raise", s, e, nd))
            return outs
        if fi.is_gen:
            g = self.alloc(st, "list", fi.node)
            fr.gen = g
        outs = []
        for kind, s, v, nd in self.exec_block(fi.node.body, st, fr):
            if kind == "normal":
                outs.append(Path("return", s, fr.gen or NONE, nd or fi.node))
            elif kind in ("return", "raise"):
                if kind == "return" and fr.gen:
                    v = fr.gen
                outs.append(Path(kind, s, v, nd))
        for s, e, nd in self.sinks[0]:
            outs.append(Path("raise", s, e, nd))
        return outs

    @staticmethod
    def param_names(fi):
        a = fi.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    # ------------------------------------------------------------------ class knowledge
    def init_state(self, cls):
        """Exit states of the constructor (field table)."""
        if cls.qual in self.init_cache:
            return self.init_cache[cls.qual]
        self.init_cache[cls.qual] = None
        fi = cls.find("__init__")
        res = []
        if fi is not None:
            sub = Interp(self.prog, InitPolicy())
            sub.init_cache = self.init_cache
            sub.field_types_cache = self.field_types_cache
            try:
                res = [p for p in sub.run_method(cls, fi) if p.kind == "return"]
            except AnalysisError:
                res = []
        self.init_cache[cls.qual] = res
        return res

    def field_info(self, cls, f):
        """('class', ClassInfo) | ('kind', 'dict'|'list'|...) | None for a field set by the constructor."""
        key = (cls.qual, f)
        if key in self.field_types_cache:
            return self.field_types_cache[key]
        self.field_types_cache[key] = None
        r = None
        for p in self.init_state(cls) or ():
            for (o, n), v in p.st.fields.items():
                if n == f and o.op == "self":
                    if v.op == "alloc":
                        c = p.st.heap.get(v)
                        if v.a[0] == "obj" and c and c.cls:
                            r = ("class", c.cls)
                        else:
                            r = ("kind", v.a[0])
        if r is None:
            ann = self.field_annotation(cls, f)
            if ann is not None:
                r = ann
        self.field_types_cache[key] = r
        return r

    def field_annotation(self, cls, f):
        for c in cls.mro():
            if not isinstance(c, ClassInfo):
                continue
            for fi in c.methods.values():
                for n in ast.walk(fi.node):
                    tgt = None
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                        if isinstance(n.target.value, ast.Name) and n.target.value.id == "self" and n.target.attr == f:
                            tgt = n.annotation
                    if tgt is not None:
                        return self.ann_kind(tgt, c.module)
            # self.f = param with annotated class
            fi = c.methods.get("__init__")
            if fi:
                anns = {a.arg: a.annotation for a in fi.node.args.args + fi.node.args.kwonlyargs if a.annotation}
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in anns:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == f:
                                return self.ann_kind(anns[n.value.id], c.module)
        return None

    def ann_kind(self, ann, module):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            h = ann.value
            hn = h.id if isinstance(h, ast.Name) else getattr(h, "attr", "")
            if hn == "Optional":
                return self.ann_kind(ann.slice, module)
            m = {"Dict": "dict", "dict": "dict", "List": "list", "list": "list", "Set": "set", "set": "set", "DefaultDict": "dict", "Deque": "list", "OrderedDict": "dict"}.get(hn)
            return ("kind", m) if m else None
        nm = ann.id if isinstance(ann, ast.Name) else None
        if nm:
            m = {"Dict": "dict", "dict": "dict", "List": "list", "list": "list", "Set": "set", "set": "set"}.get(nm)
            if m:
                return ("kind", m)
            r = self.prog.resolve_in(module, nm)
            if r[0] == "class":
                return ("class", r[1])
        return None

    def type_of(self, t, st=None):
        t = strip_ver(t)
        if t in self.selfcls:
            return self.selfcls[t]
        if t.op == "init":
            c = self.type_of(t.a[0], st)
            if c:
                r = self.field_info(c, t.a[1])
                if r and r[0] == "class":
                    return r[1]
        if t.op == "alloc" and t.a[0] == "obj" and st is not None:
            c = st.heap.get(t)
            return c.cls if c else None
        return None

    def kind_of(self, t, st):
        t = strip_ver(t)
        if t.op == "alloc":
            return t.a[0]
        if t.op == "init":
            c = self.type_of(t.a[0], st)
            if c:
                r = self.field_info(c, t.a[1])
                if r and r[0] == "kind":
                    return r[1]
        if t.op == "tuple":
            return "tuple"
        if t.op == "comp":
            return t.a[0]
        if t.op == "const" and isinstance(t.a[1], str):
            return "str"
        if t.op == "fmt":
            return "str"
        return None

    # ------------------------------------------------------------------ misc
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.policy.max_steps:
            raise AnalysisError("analysis budget exceeded")

    def emit(self, st, kind, node, fr, *a):
        e = Ev(kind, a, node, fr.fn if fr else None, st)
        st.events = st.events + (e,)
        if self.policy.log:
            self.log.append(e)

    def alloc(self, st, kind, node, cls=None):
        site = self.site(node)
        k = (kind, site)
        n = st.nalloc.get(k, 0)
        d = dict(st.nalloc)
        d[k] = n + 1
        st.nalloc = d
        t = mk("alloc", kind, site, n)
        st.setheap(t, Cont(kind, (), st.loops, cls=cls))
        return t

    def site(self, node):
        return f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def unk(self, node=None, what=""):
        self.unknowns += 1
        return mk("unk", what, self.site(node) if node is not None else "")

    def vterm(self, t, st):
        if self.policy.trace_reads and t.op == "init" and t.a[0].op == "self" and self.cur is not None:
            st.events = st.events + (Ev("use", (t,), self.cur[0], self.cur[1].fn, st),)
        v = st.ver.get(t, 0)
        return mk("at", t, v) if v else t

    def throw(self, st, exc, node):
        self.sinks[-1].append((st, exc, node))

    # ------------------------------------------------------------------ truth and facts
    def truth_const(self, t, st):
        o = t.op
        if o == "at" and t.a[0].op == "alloc" and isinstance(t.a[1], int):
            c = st.heap.get(t.a[0])
            return self.truth_const(t.a[0], st) if c is not None and c.kind != "obj" and len(c.entries) == t.a[1] else None
        if o == "const":
            return bool(cval(t))
        if o == "tuple":
            return len(t.a) > 0
        if o in ("closure", "glob", "self", "exc", "bound", "lambda"):
            return True
        if o == "fmt":
            if any(is_const(p) and cval(p) for p in t.a):
                return True
            return None
        if o == "alloc":
            if t.a[0] == "obj":
                return True
            c = st.heap.get(t)
            if c is None:
                return None
            if any(e.tag in ("one", "many") for e in c.entries):
                return True
            if any(e.tag in ("prev", "rest") for e in c.entries):
                return None
            if c.loops == st.loops and c.src is None:
                return False
            if c.src is None and len(c.loops) >= len(st.loops):
                return False
            return None
        return None

    def atom_of(self, t, st):
        """(atom, polarity) canonical form of a condition term, or (bool, None) when constant."""
        pol = True
        while True:
            if t.op == "un" and t.a[0] == "not":
                pol = not pol
                t = t.a[1]
                continue
            if t.op == "call" and t.a[0] == "bool" and len(t.a[1]) == 1:
                t = t.a[1][0]
                continue
            break
        c = self.truth_const(t, st)
        if c is not None:
            return (c == pol), None
        if t.op == "cmp":
            op, a, b = t.a
            if op in ("is", "is not", "==", "!="):
                neg = op in ("is not", "!=")
                p = pol != neg
                if is_const(a) and not is_const(b):
                    a, b = b, a
                if b is NONE:
                    c = self.none_const(a, st)
                    if c is not None:
                        return (c == p), None
                    return mk("isnone", a), p
                if is_const(b) and isinstance(cval(b), bool) and op in ("is", "is not", "==", "!="):
                    at, q = self.atom_of(a, st)
                    if q is None:
                        return ((at == cval(b)) == p), None
                    return at, (q == cval(b)) == p
                ln = self.len_arg(a)
                if ln is not None and is_const(b) and cval(b) == 0:
                    at, q = self.atom_of(ln, st)
                    if q is None:
                        return (at != p), None
                    return at, (not p) == q
                if is_const(a) and is_const(b):
                    return ((cval(a) == cval(b)) == p), None
                if a is b:
                    return p, None
                if a.uid > b.uid and not is_const(b):
                    a, b = b, a
                return mk("eq", a, b), p
            if op in ("in", "not in"):
                p = pol != (op == "not in")
                return mk("in", a, b), p
            if op in ("<", ">", "<=", ">="):
                if op == ">":
                    a, b, p = b, a, pol
                elif op == "<":
                    p = pol
                elif op == ">=":
                    p = not pol
                else:
                    a, b, p = b, a, not pol
                # now a < b with polarity p
                if a is b and a.op == "call" and a.a[0] == "len":
                    return (not p), None
                if is_const(a) and is_const(b):
                    try:
                        return ((cval(a) < cval(b)) == p), None
                    except TypeError:
                        pass
                lb, la = self.len_arg(b), self.len_arg(a)
                if lb is not None and is_const(a) and cval(a) in (0,):       # 0 < len(x)
                    at, q = self.atom_of(lb, st)
                    if q is None:
                        return (at == p), None
                    return at, p == q
                if la is not None and is_const(b) and cval(b) in (1,):       # len(x) < 1
                    at, q = self.atom_of(la, st)
                    if q is None:
                        return (at != p), None
                    return at, p != q
                if la is not None and is_const(b) and cval(b) in (0,):
                    return (not p), None
                return mk("lt", a, b), p
        ln = self.len_arg(t)
        if ln is not None:
            at, q = self.atom_of(ln, st)
            if q is None:
                return (at == pol), None
            return at, q == pol
        if t.op == "call" and t.a[0] == "isinstance":
            return mk("isinst", t.a[1][0], t.a[1][1] if len(t.a[1]) > 1 else NONE), pol
        return mk("truthy", t), pol

    def len_arg(self, t):
        if t.op == "call" and t.a[0] == "len" and len(t.a[1]) == 1:
            return t.a[1][0]
        return None

    def none_const(self, t, st):
        if t is NONE:
            return True
        if t.op in ("const", "alloc", "tuple", "fmt", "closure", "glob", "self", "bin", "cmp", "comp", "exc", "idx", "bound", "key"):
            return False
        if t.op == "call" and t.a[0] in PURE_NOTNONE:
            return False
        if t.op == "call" and t.a[0].startswith("numpy.") and not t.a[0].startswith("numpy.load"):
            return False
        if t.op == "call" and t.a[0] in (".copy", ".astype", ".reshape", ".lower", ".split", ".strip", ".encode"):
            return False
        return None

    def decide(self, atom, st):
        f = st.facts
        if atom in f:
            return f[atom]
        o = atom.op
        if o == "truthy":
            x = atom.a[0]
            if f.get(mk("isnone", x)) is True:
                return False
            if x.op == "call" and x.a[0] in ("any", "all") and len(x.a[1]) == 1:
                r = self.decide_quant(x, st)
                if r is not None:
                    return r
            if x.op == "get" and x.a[2] in (NONE, FALSE):
                r = f.get(mk("in", x.a[1], x.a[0]))
                if r is False:
                    return False
        elif o == "isnone":
            x = atom.a[0]
            if f.get(mk("truthy", x)) is True:
                return False
            if x.op == "get" and x.a[2] is NONE and f.get(mk("in", x.a[1], x.a[0])) is False:
                return True
            for k, v in f.items():
                if v is True and k.op == "isinst" and k.a[0] is x:
                    return False
                if v is True and k.op == "eq" and x in k.a and any(is_const(y) for y in k.a):
                    return False
                if k.op == "isnone" and v is False:
                    pass
        elif o == "lt":
            a, b = atom.a
            if f.get(mk("lt", b, a)) is True:
                return False
            e = mk("eq", a, b) if a.uid <= b.uid or is_const(b) else mk("eq", b, a)
            if f.get(e) is True:
                return False
            # idx(X) < len(X)
            if a.op == "idx" and b.op == "call" and b.a[0] == "len" and norm(b.a[1][0]) is norm(a.a[0]):
                return True
            if is_const(b) and a.op == "idx" and isinstance(cval(b), (int, float)) and cval(b) <= 0:
                return False
            if is_const(b) and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool):
                for k, v in f.items():
                    if k.op == "lt" and k.a[0] is a and is_const(k.a[1]) and isinstance(cval(k.a[1]), (int, float)):
                        c = cval(k.a[1])
                        if v is True and c <= cval(b):
                            return True
                        if v is False and c >= cval(b):
                            return False
                    if k.op == "lt" and k.a[1] is a and is_const(k.a[0]) and v is True and isinstance(cval(k.a[0]), (int, float)):
                        if cval(k.a[0]) >= cval(b):
                            return False
            if is_const(a) and isinstance(cval(a), (int, float)):
                for k, v in f.items():
                    if k.op == "lt" and k.a[0] is b and is_const(k.a[1]) and isinstance(cval(k.a[1]), (int, float)):
                        # b < c
                        if v is True and cval(k.a[1]) <= cval(a):
                            return False
                        if v is False and cval(k.a[1]) > cval(a):
                            return True
        elif o == "eq":
            a, b = atom.a
            if is_const(b):
                for k, v in f.items():
                    if v is True and k.op == "eq" and k.a[0] is a and is_const(k.a[1]):
                        return cval(k.a[1]) == cval(b)
                    if v is True and k.op == "isnone" and k.a[0] is a:
                        return False
                tr = f.get(mk("truthy", a))
                try:
                    if tr is not None and bool(cval(b)) != tr and not isinstance(cval(b), (int, float)):
                        return False
                except Exception:
                    pass
            if f.get(mk("lt", a, b)) is True or f.get(mk("lt", b, a)) is True:
                return False
        elif o == "in":
            k, c = atom.a
            base = strip_ver(c)
            if base.op == "alloc":
                ct = st.heap.get(base)
                if ct is not None:
                    es = ct.entries
                    if any((e.key if ct.kind == "dict" else e.val) is k for e in es if e.tag != "prev"):
                        return True
                    if all(e.tag == "one" and is_const(e.key if ct.kind == "dict" else e.val) for e in es) and is_const(k) and len(ct.loops) >= len(st.loops):
                        return any(cval(e.key if ct.kind == "dict" else e.val) == cval(k) for e in es)
                    if is_const(k) is False and es and all(e.tag == "one" and is_const(e.key if ct.kind == "dict" else e.val) for e in es):
                        neg = 0
                        for e in es:
                            cv = e.key if ct.kind == "dict" else e.val
                            r = self.decide(mk("eq", k, cv), st)
                            if r is True:
                                return True
                            if r is False:
                                neg += 1
                        if neg == len(es):
                            return False
                    if not es and len(ct.loops) >= len(st.loops):
                        return False
            if base.op == "tuple":
                neg = 0
                for cv in base.a:
                    if cv is k:
                        return True
                    if is_const(cv) and is_const(k):
                        if cval(cv) == cval(k):
                            return True
                        neg += 1
                        continue
                    if is_const(cv):
                        r = self.decide(mk("eq", k, cv), st)
                        if r is True:
                            return True
                        if r is False:
                            neg += 1
                if neg == len(base.a):
                    return False
            sv = st.store.get((base, k))
            if sv is DELETED:
                return False
            if sv is not None:
                return True
            if f.get(mk("truthy", c)) is False:
                return False
            if k.op == "key" and norm(k.a[0]) is norm(c) and c is base:
                return True
            if c.op == "call" and c.a[0] in (".keys",):
                return self.decide(mk("in", k, c.a[1][0]), st)
        return None

    def decide_quant(self, x, st):
        """any()/all() over an abstract local list: decided when the witness entry decides it."""
        arg = strip_ver(x.a[1][0])
        vals = None
        if arg.op == "alloc":
            c = st.heap.get(arg)
            if c is None:
                return None
            if not c.entries and len(c.loops) >= len(st.loops):
                return x.a[0] == "all"
            vals = [e.val for e in c.entries if e.tag != "prev"]
        elif arg.op == "comp" and all(not conds for conds, _ in arg.a[2]):
            vals = [v for _, v in arg.a[2]]
            if len(vals) != 1:
                return None
        if vals is None:
            return None
        for v in vals:
            at, p = self.atom_of(v, st)
            r = at if p is None else self.decide(at, st)
            if p is not None and r is not None:
                r = (r == p)
            if x.a[0] == "any" and r is True:
                return True
            if x.a[0] == "all" and r is False:
                return False
        return None

    def assume(self, atom, pol, st):
        """Record a fact; False when it contradicts what is known."""
        if atom.op == "eq" and len(atom.a) == 2 and is_const(atom.a[0]) and is_const(atom.a[1]):
            return (cval(atom.a[0]) == cval(atom.a[1])) == pol
        d = self.decide(atom, st)
        if d is not None:
            if d != pol:
                return False
            if atom in st.facts:
                return True
        st.setfact(atom, pol)
        o = atom.op
        if o == "truthy":
            x = atom.a[0]
            if pol:
                st.setfact(mk("isnone", x), False)
                if x.op == "get" and x.a[2] in (NONE, FALSE):
                    st.setfact(mk("in", x.a[1], x.a[0]), True)
            if x.op == "call" and x.a[0] in ("any", "all") and len(x.a[1]) == 1:
                want = x.a[0] == "all"
                if pol == want:
                    arg = strip_ver(x.a[1][0])
                    if arg.op == "comp" and len([1 for o in arg.a[2]]) == 1 and not arg.a[2][0][0]:
                        at, p = self.atom_of(arg.a[2][0][1], st)
                        if p is not None:
                            if not self.assume(at, p == want, st):
                                return True
                    if arg.op == "alloc":
                        c = st.heap.get(arg)
                        for e in (c.entries if c else ()):
                            if e.tag != "prev":
                                at, p = self.atom_of(e.val, st)
                                if p is None:
                                    if at != want:
                                        return False
                                elif not self.assume(at, p == want, st):
                                    return False
        elif o == "isnone":
            x = atom.a[0]
            if pol:
                st.setfact(mk("truthy", x), False)
            elif x.op == "get" and x.a[2] is NONE:
                st.setfact(mk("in", x.a[1], x.a[0]), True)
        elif o == "eq" and pol and is_const(atom.a[1]):
            st.setfact(mk("truthy", atom.a[0]), bool(cval(atom.a[1])))
            if atom.a[1] is not NONE:
                st.setfact(mk("isnone", atom.a[0]), False)
        elif o == "isinst" and pol:
            st.setfact(mk("isnone", atom.a[0]), False)
        elif o == "in" and pol:
            st.setfact(mk("truthy", atom.a[1]), True)
        return True

    def branch(self, t, st):
        """Yield (state, bool) for the feasible outcomes of a condition term."""
        at, pol = self.atom_of(t, st)
        if pol is None:
            return [(st, at)]
        d = self.decide(at, st)
        if d is not None:
            if at not in st.facts:
                st.setfact(at, d)
            return [(st, d == pol)]
        self.branches += 1
        out = []
        for v in (True, False):
            s = st.copy()
            if self.assume(at, v == pol, s):
                out.append((s, v))
        return out

    def cond(self, node, st, fr):
        """Evaluate an expression as a condition: list of (state, bool)."""
        if isinstance(node, ast.BoolOp):
            cur = [(st, None)]
            isand = isinstance(node.op, ast.And)
            done = []
            states = [st]
            for v in node.values:
                nxt = []
                for s in states:
                    for s2, b in self.cond(v, s, fr):
                        if b != isand:
                            done.append((s2, b))
                        else:
                            nxt.append(s2)
                states = nxt
            return done + [(s, isand) for s in states]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, fr)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            left = node.left
            vals = []
            for i, op in enumerate(node.ops):
                vals.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[node.comparators[i]]), node))
                left = node.comparators[i]
            return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), node), st, fr)
        out = []
        for s, v in self.eval(node, st, fr):
            out.extend(self.branch(v, s))
        return out

    # ------------------------------------------------------------------ expressions
    def evals(self, nodes, st, fr):
        """Evaluate several expressions left to right: list of (state, [values])."""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    cur = None

    def eval(self, node, st, fr):
        self.tick()
        self.cur = (node, fr)
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(st, self.unk(node, type(node).__name__))]
        return m(node, st, fr)

    def e_Constant(self, node, st, fr):
        return [(st, const(node.value))]

    def e_Name(self, node, st, fr):
        return [(st, self.lookup(node.id, st, fr))]

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        m = fr.module
        if name in m.names:
            k = m.names[name]
            if k[0] == "const":
                return self.module_const(m, name, st)
            if k[0] == "import":
                return self.global_value(k[1], st)
            return glob(m.name + "." + name)
        if name in BUILTINS:
            return glob(name)
        return mk("unk", "name:" + name, "")

    def global_value(self, dotted, st):
        r = self.prog.resolve(dotted)
        if r[0] == "const":
            # find module + name
            return self.module_const(r[1], dotted.split(".")[-1], st)
        if r[0] == "class":
            return glob(r[1].qual)
        if r[0] == "func":
            return glob(r[1].qual)
        if r[0] == "mod":
            return glob(r[1].name)
        return glob(r[1])

    def module_const(self, m, name, st):
        k = m.names.get(name)
        if not k or k[0] != "const":
            return glob(m.name + "." + name)
        expr = k[1]
        t = mk("modconst", m.name + "." + name)
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, (ast.Dict, ast.List, ast.Tuple, ast.Set)) and (len(list(ast.walk(expr))) < 4000):
            # a literal table: evaluate it as an immutable structure
            key = ("mc", m.name, name)
            al = mk("alloc", {ast.Dict: "dict", ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[type(expr)], m.name + "." + name, 0)
            if al in st.heap:
                return al
            ev = self.lit_value(expr, st, m, m.name + "." + name)
            return ev if ev is not None else t
        if isinstance(expr, ast.Call):
            fn = None
            try:
                fr = Frame(None, m, None, 1)
                f = expr.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) or isinstance(f, ast.Name):
                    s = State()
                    self.sinks.append([])
                    outs = self.eval(expr, s, fr)
                    self.sinks.pop()
                    if len(outs) == 1 and outs[0][1].op in ("call",):
                        return outs[0][1]
            except AnalysisError:
                pass
        return t

    def lit_value(self, expr, st, m, path):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.Dict):
            es = []
            for i, (k, v) in enumerate(zip(expr.keys, expr.values)):
                if k is None:
                    return None
                kv = self.lit_value(k, st, m, f"{path}.k{i}")
                vv = self.lit_value(v, st, m, f"{path}.{i}")
                if kv is None or vv is None:
                    return None
                es.append(Entry("one", kv, vv, node=v))
            t = mk("alloc", "dict", path, 0)
            st.setheap(t, Cont("dict", es))
            return t
        if isinstance(expr, (ast.List, ast.Set)):
            es = []
            for i, v in enumerate(expr.elts):
                vv = self.lit_value(v, st, m, f"{path}.{i}")
                if vv is None:
                    return None
                es.append(Entry("one", None, vv, node=v))
            kind = "list" if isinstance(expr, ast.List) else "set"
            t = mk("alloc", kind, path, 0)
            st.setheap(t, Cont(kind, es))
            return t
        if isinstance(expr, ast.Tuple):
            vs = [self.lit_value(v, st, m, f"{path}.{i}") for i, v in enumerate(expr.elts)]
            return None if any(v is None for v in vs) else mk("tuple", *vs)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
            return const(-expr.operand.value)
        if isinstance(expr, ast.Name):
            if expr.id in m.names:
                k = m.names[expr.id]
                if k[0] == "const":
                    return self.lit_value(k[1], st, m, m.name + "." + expr.id)
                if k[0] == "import":
                    return self.global_value(k[1], st)
                return glob(m.name + "." + expr.id)
            return glob(expr.id)
        if isinstance(expr, ast.Lambda):
            return mk("unk", "lambda", path)
        return mk("unk", "lit", path)

    def e_Attribute(self, node, st, fr):
        out = []
        for s, v in self.eval(node.value, st, fr):
            out.extend(self.getattr(s, v, node.attr, node, fr))
        return out

    def getattr(self, st, v, name, node, fr):
        if v.op == "glob":
            r = self.prog.resolve(v.a[0])
            if r[0] == "class":
                f = r[1].find(name)
                if f:
                    if f.kind in ("classmethod",):
                        return [(st, mk("bound", v, name))]
                    return [(st, glob(r[1].qual + "." + name))]
                a = r[1].find_attr(name)
                if a:
                    return [(st, self.class_const(a[0], name, a[1], st))]
            return [(st, self.global_value(v.a[0] + "." + name, st))]
        cls = self.type_of(v, st)
        if cls is not None:
            base = strip_ver(v)
            if (base, name) in st.fields:
                return [(st, st.fields[(base, name)])]
            f = cls.find(name)
            if f is not None:
                if f.kind == "property":
                    return self.call_fi(st, f, [base], (), node, fr, cls=cls)
                return [(st, mk("bound", base, name))]
            if name == "__class__":
                return [(st, glob(cls.qual))]
            if base.op == "alloc":
                return [(st, mk("attr", base, name))]
            # instance field, falling back to class attribute only when never assigned
            if not self.assigned_field(cls, name):
                a = cls.find_attr(name)
                if a:
                    return [(st, self.class_const(a[0], name, a[1], st))]
            return [(st, mk("init", base, name))]
        if (v, name) in st.fields:
            return [(st, st.fields[(v, name)])]
        if name == "__name__" and v.op == "attr" and v.a[1] == "__class__":
            return [(st, mk("attr", v, name))]
        return [(st, mk("attr", self.vterm(v, st), name))]

    def class_const(self, cls, name, expr, st):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        r = self.lit_value(expr, st, cls.module, cls.qual + "." + name)
        return r if r is not None else mk("modconst", cls.qual + "." + name)

    def assigned_field(self, cls, name):
        key = ("af", cls.qual)
        if key not in self.assign_cache:
            names = set()
            for c in cls.mro():
                if isinstance(c, ClassInfo):
                    for n in ast.walk(c.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                            names.add(n.attr)
            self.assign_cache[key] = names
        return name in self.assign_cache[key]

    def e_Subscript(self, node, st, fr):
        out = []
        for s, b in self.eval(node.value, st, fr):
            if isinstance(node.slice, ast.Slice):
                parts = [node.slice.lower or ast.Constant(value=None), node.slice.upper or ast.Constant(value=None), node.slice.step or ast.Constant(value=None)]
                for s2, vs in self.evals(parts, s, fr):
                    out.append((s2, self.slice_of(b, vs, s2, node)))
            else:
                for s2, k in self.eval(node.slice, s, fr):
                    out.extend(self.getitem(s2, b, k, node, fr))
        return out

    def e_Slice(self, node, st, fr):
        parts = [node.lower or ast.Constant(value=None), node.upper or ast.Constant(value=None), node.step or ast.Constant(value=None)]
        return [(s, mk("slicev", *vs)) for s, vs in self.evals(parts, st, fr)]

    def slice_of(self, b, vs, st, node):
        lo, hi, step = vs
        if lo is NONE and step in (NONE,) or (is_const(lo) and cval(lo) == 0 and step is NONE):
            lo = NONE
        bb = strip_ver(b)
        if bb.op == "alloc" and bb in st.heap:
            c = st.heap[bb]
            if all(e.tag == "one" for e in c.entries) and c.kind in ("list", "tuple") and all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in vs) and len(c.loops) >= len(st.loops):
                sl = slice(*[cval(x) for x in vs])
                t = self.alloc(st, c.kind, node)
                st.setheap(t, Cont(c.kind, c.entries[sl], st.loops, src=None))
                return t
            t = self.alloc(st, c.kind, node)
            es = tuple(Entry("many" if e.tag == "one" else e.tag, e.key, e.val, e.facts, e.node, e.loops) for e in c.entries)
            lim = c.limit
            order = c.order
            if lo is NONE and hi is not NONE and step is NONE:
                lim = lim + (hi,)
            elif step is not NONE:
                order = None
                if is_const(step) and cval(step) == -1 and c.order is not None and lo is NONE and hi is NONE:
                    order = (c.order[0], not c.order[1]) if isinstance(c.order[1], bool) else None
            st.setheap(t, Cont(c.kind, es, st.loops, order=order, limit=lim, src=("slice", bb, lo, hi, step)))
            return t
        if bb.op == "tuple" and all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in vs):
            return mk("tuple", *bb.a[slice(*[cval(x) for x in vs])])
        if is_const(b) and isinstance(cval(b), str) and all(x is NONE or is_const(x) for x in vs):
            try:
                return const(cval(b)[slice(*[cval(x) for x in vs])])
            except Exception:
                pass
        return mk("slice", self.vterm(b, st) if b.op != "at" else b, lo, hi, step)

    def getitem(self, st, b, k, node, fr):
        bb = strip_ver(b)
        # x.shape[0] is len(x)
        if bb.op == "attr" and bb.a[1] == "shape" and is_const(k) and cval(k) == 0:
            return [(st, self.mk_len(bb.a[0], st))]
        if bb.op == "tuple":
            if is_const(k) and isinstance(cval(k), int) and -len(bb.a) <= cval(k) < len(bb.a):
                return [(st, bb.a[cval(k)])]
        if bb.op == "alloc":
            c = st.heap.get(bb)
            if c is not None:
                if c.kind in ("dict", "defaultdict"):
                    hit, sure = None, True
                    for e in c.entries:
                        if e.tag == "prev" or e.tag == "rest":
                            sure = False
                            hit = None
                            continue
                        if e.key is k:
                            hit = e.val
                            sure = True
                        elif not (is_const(e.key) and is_const(k)):
                            if hit is not None and e.key is not k:
                                pass
                    if hit is not None:
                        return [(st, hit)]
                else:
                    if is_const(k) and isinstance(cval(k), int) and all(e.tag == "one" for e in c.entries) and -len(c.entries) <= cval(k) < len(c.entries) and c.loops == st.loops:
                        return [(st, c.entries[cval(k)].val)]
                    if k.op == "idx":
                        # positional access through the witness index of the list itself or of what it was built from
                        ws = [e for e in c.entries if e.tag == "many"]
                        if len(ws) == 1 and (k.a[0] is bb or (ws[0].loops and k in [mk("idx", l[0], l[1]) for l in ws[0].loops])):
                            return [(st, ws[0].val)]
        if bb.op == "comp" and k.op == "idx" and len(bb.a[2]) == 1 and not bb.a[2][0][0]:
            if norm(bb.a[1]) is norm(k.a[0]) or k.a[0] is bb:
                return [(st, bb.a[2][0][1])]
        if bb.op == "comp" and bb.a[0] == "dict":
            for conds, v in bb.a[2]:
                if v.op == "tuple" and v.a[0] is k and not conds:
                    return [(st, v.a[1])]
        if bb.op == "call" and bb.a[0] == "range" and k.op == "idx":
            return [(st, k)]
        sv = st.store.get((bb, k))
        if sv is not None and sv is not DELETED:
            return [(st, sv)]
        if bb.op == "const" and is_const(k):
            try:
                return [(st, const(cval(bb)[cval(k)]))]
            except Exception:
                pass
        val = mk("item", self.vterm(bb, st), k)
        return self.maybe_missing(st, bb, k, val, node)

    def in_try(self, st, *names):
        return any(n in names or n in ("LookupError",) and "KeyError" in names for ts in st.tries for n in ts)

    def maybe_missing(self, st, b, k, val, node):
        if self.in_try(st, "KeyError", "IndexError"):
            at = mk("in", k, self.vterm(b, st))
            d = self.decide(at, st)
            kind = self.kind_of(b, st)
            if kind in ("list", "tuple") or not self.in_try(st, "KeyError"):
                s2 = st.copy()
                self.throw(s2, mk("exc", "IndexError", ()), node)
                return [(st, val)]
            outs = []
            if d is not True:
                s2 = st.copy()
                if self.assume(at, False, s2):
                    self.throw(s2, mk("exc", "KeyError", ()), node)
            if d is not False:
                if self.assume(at, True, st):
                    outs.append((st, val))
            return outs
        return [(st, val)]

    def mk_len(self, x, st):
        b = strip_ver(x)
        if b.op == "alloc":
            c = st.heap.get(b)
            if c is not None and c.kind != "obj":
                if all(e.tag == "one" for e in c.entries) and len(c.loops) >= len(st.loops) and c.src is None:
                    return const(len(c.entries))
                return call("len", mk("at", b, len(c.entries)))
        if b.op == "tuple":
            return const(len(b.a))
        if b.op == "comp" and len(b.a[2]) == 1 and not b.a[2][0][0] and b.a[0] != "set":
            return self.mk_len(b.a[1], st)
        if b.op == "call" and b.a[0] in ("list", "tuple") and len(b.a[1]) == 1:
            return self.mk_len(b.a[1][0], st)
        if b.op == "call" and b.a[0] == ".keys":
            return self.mk_len(b.a[1][0], st)
        if b.op == "call" and b.a[0] == "range" and len(b.a[1]) == 1:
            return b.a[1][0]
        if b.op == "const" and isinstance(cval(b), (str, bytes)):
            return const(len(cval(b)))
        return call("len", self.vterm(b, st))

    def e_Tuple(self, node, st, fr):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.e_List(node, st, fr)
        return [(s, mk("tuple", *vs)) for s, vs in self.evals(node.elts, st, fr)]

    def e_List(self, node, st, fr, kind="list"):
        out = []
        elts = [e.value if isinstance(e, ast.Starred) else e for e in node.elts]
        for s, vs in self.evals(elts, st, fr):
            t = self.alloc(s, kind, node)
            es = []
            for e, v in zip(node.elts, vs):
                if isinstance(e, ast.Starred):
                    es.extend(self.spread(v, s))
                else:
                    es.append(Entry("one", None, v, s.facts, node))
            s.setheap(t, Cont(kind, es, s.loops))
            out.append((s, t))
        return out

    def spread(self, v, st):
        b = strip_ver(v)
        if b.op == "alloc" and b in st.heap:
            return list(st.heap[b].entries)
        if b.op == "tuple":
            return [Entry("one", None, x) for x in b.a]
        return [Entry("rest", None, v)]

    def e_Set(self, node, st, fr):
        return self.e_List(node, st, fr, "set")

    def e_Dict(self, node, st, fr):
        outs = [(st, [])]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, es in outs:
                if k is None:
                    for s2, vv in self.eval(v, s, fr):
                        b = strip_ver(vv)
                        if b.op == "alloc" and b in s2.heap:
                            nxt.append((s2, es + list(s2.heap[b].entries)))
                        else:
                            nxt.append((s2, es + [Entry("rest", None, vv)]))
                else:
                    for s2, (kk, vv) in self.evals([k, v], s, fr):
                        nxt.append((s2, es + [Entry("one", kk, vv, s2.facts, v)]))
            outs = nxt
        res = []
        for s, es in outs:
            t = self.alloc(s, "dict", node)
            s.setheap(t, Cont("dict", es, s.loops))
            res.append((s, t))
        return res

    def e_JoinedStr(self, node, st, fr):
        outs = [(st, ())]
        for v in node.values:
            nxt = []
            for s, ps in outs:
                if isinstance(v, ast.Constant):
                    nxt.append((s, ps + (const(v.value),)))
                else:
                    for s2, x in self.eval(v.value, s, fr):
                        if v.format_spec is not None:
                            x = mk("call", "format", (x, const(ast.dump(v.format_spec))), (), 0)
                        nxt.append((s2, ps + (x,)))
            outs = nxt
        return [(s, self.fmt(ps)) for s, ps in outs]

    def format_call(self, recv, args, kw):
        """"{}..{}".format(a, b) as the f-string it abbreviates; None when it uses more than plain fields."""
        if not is_const(recv) or not isinstance(cval(recv), str):
            return None
        kws, parts, n = dict(kw), [], 0
        try:
            for text, field, spec, conv in string.Formatter().parse(cval(recv)):
                if text:
                    parts.append(const(text))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == "":
                    field, n = str(n), n + 1
                if field.isdigit() and int(field) < len(args):
                    parts.append(args[int(field)])
                elif field in kws:
                    parts.append(kws[field])
                else:
                    return None
        except ValueError:
            return None
        if any(a.op in ("star", "spread") for a in args):
            return None
        return self.fmt(tuple(parts))

    def fmt(self, parts):
        flat = []
        for p in parts:
            if p.op == "fmt":
                flat.extend(p.a)
            elif p.op == "call" and p.a[0] == "str" and len(p.a[1]) == 1:
                flat.append(p.a[1][0])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if is_const(p):
                s = str(cval(p))
                if not s:
                    continue
                if out and is_const(out[-1]):
                    out[-1] = const(cval(out[-1]) + s)
                else:
                    out.append(const(s))
            else:
                out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return mk("fmt", *out)

    def e_BinOp(self, node, st, fr):
        out = []
        for s, (a, b) in self.evals([node.left, node.right], st, fr):
            out.append((s, self.binop(OPS.get(type(node.op), "?"), a, b, s, node)))
        return out

    def binop(self, op, a, b, st, node=None):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*" and not (isinstance(x, str) and y > 1000):
                    return const(x * y)
                if op == "/":
                    return const(x / y)
                if op == "//":
                    return const(x // y)
                if op == "%" and not isinstance(x, str):
                    return const(x % y)
                if op == "**" and abs(y) < 128:
                    return const(x ** y)
                if op == "<<" and y < 256:
                    return const(x << y)
            except Exception:
                pass
        if op == "+":
            sa, sb = strip_ver(a), strip_ver(b)
            if self.kind_of(sa, st) == "list" and self.kind_of(sb, st) == "list" and (sa.op == "alloc" or sb.op == "alloc"):
                t = self.alloc(st, "list", node)
                st.setheap(t, Cont("list", tuple(self.spread(a, st)) + tuple(self.spread(b, st)), st.loops))
                return t
            if (self.kind_of(sa, st) == "str") or (self.kind_of(sb, st) == "str"):
                return self.fmt((a, b))
            if is_const(a) and isinstance(cval(a), (int, float)):
                a, b = b, a
            if is_const(b) and a.op == "bin" and a.a[0] == "+" and is_const(a.a[2]):
                return self.binop("+", a.a[1], self.binop("+", a.a[2], b, st), st)
            if is_const(b) and cval(b) == 0:
                return a
        if op == "-":
            if is_const(b) and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool):
                return self.binop("+", a, const(-cval(b)), st)
            if a is b and a.op == "call" and a.a[0] == "len":
                return const(0)
        if op == "*" and is_const(a) and not is_const(b) and isinstance(cval(a), (int, float)):
            a, b = b, a
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            vals = b.a if b.op == "tuple" else (b,)
            bits = cval(a).split("%s")
            if len(bits) == len(vals) + 1 and not any("%" in x for x in bits) and not any(v.op in ("star", "spread") for v in vals):
                parts = [const(bits[0])]
                for v, x in zip(vals, bits[1:]):
                    parts += [v, const(x)]
                return self.fmt(tuple(parts))
        return mk("bin", op, a, b)

    def e_UnaryOp(self, node, st, fr):
        if isinstance(node.op, ast.Not):
            out = []
            for s, v in self.eval(node.operand, st, fr):
                at, pol = self.atom_of(v, s)
                if pol is None:
                    out.append((s, const(not at)))
                else:
                    d = self.decide(at, s)
                    if d is not None:
                        out.append((s, const(d != pol)))
                    else:
                        out.append((s, mk("un", "not", v)))
            return out
        out = []
        for s, v in self.eval(node.operand, st, fr):
            op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]
            if is_const(v) and op == "-" and isinstance(cval(v), (int, float)):
                out.append((s, const(-cval(v))))
            else:
                out.append((s, mk("un", op, v)))
        return out

    def e_BoolOp(self, node, st, fr):
        isand = isinstance(node.op, ast.And)
        outs = []
        states = [st]
        for i, v in enumerate(node.values):
            nxt = []
            last = i == len(node.values) - 1
            for s in states:
                for s2, x in self.eval(v, s, fr):
                    if last:
                        outs.append((s2, x))
                        continue
                    for s3, b in self.branch(x, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            # short-circuit: the value itself
                            if x.op in ("cmp", "un") or (x.op == "call" and x.a[0] in BOOL_CALLS):
                                x2 = const(b)
                            else:
                                x2 = x
                            outs.append((s3, x2))
            states = nxt
        return outs

    def e_Compare(self, node, st, fr):
        if len(node.ops) > 1:
            return [(s, const(b)) for s, b in self.cond(node, st, fr)]
        out = []
        for s, (a, b) in self.evals([node.left, node.comparators[0]], st, fr):
            out.append((s, self.mk_cmp(node.ops[0], a, b, s)))
        return out

    def mk_cmp(self, op, a, b, st):
        o = CMPS[type(op)]
        if o in ("in", "not in"):
            bb = strip_ver(b)
            if bb.op == "call" and bb.a[0] in (".keys", "list", "set", "tuple", "sorted") and len(bb.a[1]) == 1:
                bb = strip_ver(bb.a[1][0])
            b = self.vterm(bb, st)
        return mk("cmp", o, a, b)

    def e_IfExp(self, node, st, fr):
        out = []
        for s, b in self.cond(node.test, st, fr):
            out.extend(self.eval(node.body if b else node.orelse, s, fr))
        return out

    def e_Lambda(self, node, st, fr):
        return [(st, self.closure(node, st, fr))]

    def closure(self, node, st, fr, fi=None):
        # closures over equal environments at the same site are the same function value
        t = mk("closure", fr.module.name + ":" + self.site(node), id(node), tuple(sorted((k, v.uid) for k, v in st.env.items())) if not isinstance(node, ast.Lambda) or True else ())
        self.closures[t] = Closure(node, dict(st.env), fr, fi)
        return t

    def e_NamedExpr(self, node, st, fr):
        out = []
        for s, v in self.eval(node.value, st, fr):
            s.env[node.target.id] = v
            out.append((s, v))
        return out

    def e_Starred(self, node, st, fr):
        return self.eval(node.value, st, fr)

    def e_Await(self, node, st, fr):
        return self.eval(node.value, st, fr)

    def e_Yield(self, node, st, fr):
        vals = self.eval(node.value, st, fr) if node.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            if fr.gen is not None:
                self.cont_add(s, fr.gen, None, v, node)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, node, st, fr):
        out = []
        for s, v in self.eval(node.value, st, fr):
            if fr.gen is not None:
                c = s.heap[fr.gen]
                s.setheap(fr.gen, c.with_(entries=c.entries + tuple(self.spread(v, s))))
            out.append((s, NONE))
        return out

    # comprehensions -----------------------------------------------------
    def e_ListComp(self, node, st, fr):
        return self.comp(node, st, fr, "list", node.elt)

    def e_SetComp(self, node, st, fr):
        return self.comp(node, st, fr, "set", node.elt)

    def e_GeneratorExp(self, node, st, fr):
        return self.comp(node, st, fr, "gen", node.elt)

    def e_DictComp(self, node, st, fr):
        return self.comp(node, st, fr, "dict", ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node))

    def comp(self, node, st, fr, kind, elt):
        out = []
        g0 = node.generators[0]
        for s, it in self.eval(g0.iter, st, fr):
            out.extend(self.comp_over(node, s, fr, kind, elt, it))
        return out

    def comp_over(self, node, st, fr, kind, elt, it):
        gens = node.generators
        mode = self.iter_elems(it, st, node, fr)
        saved_env = dict(st.env)
        if mode[0] == "unroll" and len(gens) == 1 and len(mode[1]) <= 24:
            states = [(st, [])]
            for e in mode[1]:
                nxt = []
                for s, acc in states:
                    s = s.copy()
                    self.assign(gens[0].target, e, s, fr, node)
                    conds = [(s, True)]
                    for c in gens[0].ifs:
                        nc = []
                        for s2, ok in conds:
                            if ok:
                                nc.extend(self.cond(c, s2, fr))
                            else:
                                nc.append((s2, False))
                        conds = nc
                    for s2, ok in conds:
                        if not ok:
                            nxt.append((s2, acc))
                        else:
                            for s3, v in self.eval(elt, s2, fr):
                                nxt.append((s3, acc + [v]))
                states = nxt
                if len(states) > 64:
                    break
            res = []
            if len(states) > 64:
                # too many combinations of included elements: a list of unknown content
                s = st.copy()
                t = self.alloc(s, "list" if kind == "gen" else kind, node)
                s.setheap(t, Cont("list" if kind == "gen" else kind, [Entry("prev", None, mk("unk", "comp", fr.module.name + ":" + self.site(node)), None, node)], s.loops))
                return [(s, t)]
            for s, acc in states:
                s.env = dict(saved_env)
                k = "list" if kind == "gen" else kind
                t = self.alloc(s, k, node)
                if kind == "dict":
                    es = [Entry("one", v.a[0], v.a[1]) for v in acc]
                else:
                    es = [Entry("one", None, v) for v in acc]
                s.setheap(t, Cont(k, es, s.loops))
                res.append((s, t))
            return res
        # abstract element
        base = st
        sub = st.copy()
        self.sinks.append([])
        outs = []          # (state, included, value)

        def go(gi, s, itv):
            g = gens[gi]
            m = self.iter_elems(itv, s, node, fr)
            if m[0] == "unroll":
                elems = [((), e) for e in m[1]]
                key = None
            else:
                key = m[1]
                elems = m[2]
            for conds, e in elems:
                s1 = s.copy()
                ok = True
                if key is not None:
                    s1.loops = s1.loops + (key,)
                for at, pol in conds:
                    if not self.assume(at, pol, s1):
                        ok = False
                if not ok:
                    continue
                self.assign(g.target, e, s1, fr, node)
                conds_states = [(s1, True)]
                for c in g.ifs:
                    nc = []
                    for s2, okk in conds_states:
                        if okk:
                            nc.extend(self.cond(c, s2, fr))
                        else:
                            nc.append((s2, False))
                    conds_states = nc
                for s2, okk in conds_states:
                    if not okk:
                        outs.append((s2, False, None))
                    elif gi + 1 < len(gens):
                        for s3, iv in self.eval(gens[gi + 1].iter, s2, fr):
                            go(gi + 1, s3, iv)
                    else:
                        for s3, v in self.eval(elt, s2, fr):
                            outs.append((s3, True, v))

        go(0, sub, it)
        raised = self.sinks.pop()
        effect = bool(raised) or any(
            len(s.events) != len(base.events) or s.fields is not base.fields or s.store is not base.store or s.ver is not base.ver
            for s, _, _ in outs)
        key = self.iter_root(it, st)[0]
        if not effect:
            vals = []
            heap = base.heap
            for s, inc, v in outs:
                if s.heap is not heap:
                    d = dict(base.heap)
                    d.update(s.heap)
                    base.heap = d
                    base.nalloc = {**base.nalloc, **s.nalloc}
                if inc:
                    cs = tuple((k, p) for k, p in s.facts.items() if base.facts.get(k) is not p and k.op not in ()) if any(not i for _, i, _ in outs) or len(outs) > 1 else ()
                    vals.append((cs, v))
            if len(gens) > 1:
                root = mk("nest", key, const(len(gens)), mk("site", self.site(node)))
            else:
                root = key
            base.env = saved_env
            return [(base, mk("comp", "list" if kind == "gen" else kind, root, tuple(vals)))]
        # effectful: fork like a loop
        for s, e, nd in raised:
            s.loops = base.loops
            s.env = dict(saved_env)
            self.throw(s, e, nd)
        res = []
        k = "list" if kind == "gen" else kind
        rt = mk("truthy", key)
        z = base.copy()
        zero_ok = self.assume(*self.nonempty_atom(key, z, False)) if True else True
        if zero_ok:
            z.env = dict(saved_env)
            t = self.alloc(z, k, node)
            res.append((z, t))
        for s, inc, v in outs:
            lp = s.loops
            s.loops = base.loops
            s.env = dict(saved_env)
            t = self.alloc(s, k, node)
            if inc:
                if kind == "dict":
                    en = Entry("many", v.a[0] if v.op == "tuple" else v, v.a[1] if v.op == "tuple" else v, s.facts, node, lp)
                else:
                    en = Entry("many", None, v, s.facts, node, lp)
                s.setheap(t, Cont(k, (en,), s.loops, src=("comp", key)))
            else:
                s.setheap(t, Cont(k, (Entry("prev", None, key),), s.loops, src=("comp", key)))
            res.append((s, t))
        return res

    def nonempty_atom(self, key, st, pol):
        at, p = self.atom_of(key, st)
        if p is None:
            # constant truth: return a trivially consistent or contradictory atom
            at = mk("eq", const(0), const(0 if at == pol else 1))
            return at, (True), st
        return at, (p == pol), st

    # ------------------------------------------------------------------ iteration
    def iter_root(self, it, st):
        """(root iterable term, aligned?)"""
        t = strip_ver(it)
        if t.op == "call":
            n, a = t.a[0], t.a[1]
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.iter_root(a[0], st)
            if n in ("sorted", "reversed", "set", "frozenset") and a:
                return self.iter_root(a[0], st)[0], False
            if n in (".keys", ".items", ".values", ".copy") and len(a) == 1:
                return self.iter_root(a[0], st)
            if n == "enumerate":
                return self.iter_root(a[0], st)
            if n == "range":
                if len(a) == 1 or (len(a) == 2 and is_const(a[0]) and cval(a[0]) == 0):
                    x = a[-1]
                    if x.op == "call" and x.a[0] == "len":
                        return strip_ver(x.a[1][0]), True
                return t, True
            if n == "zip" and a:
                return self.iter_root(a[0], st)
        return t, True

    def iter_elems(self, it, st, node, fr):
        """('unroll',[values]) or ('rep', loopkey, [(conds, value)])"""
        t = strip_ver(it)
        if t.op == "tuple":
            return ("unroll", list(t.a))
        if is_const(t) and isinstance(cval(t), str) and len(cval(t)) <= 8:
            return ("unroll", [const(c) for c in cval(t)])
        if t.op == "alloc" and t in st.heap:
            c = st.heap[t]
            if c.kind in ("list", "tuple", "set", "dict") and all(e.tag == "one" for e in c.entries) and len(c.entries) <= 24 and c.src is None and len(c.loops) >= len(st.loops):
                return ("unroll", [e.key if c.kind == "dict" else e.val for e in c.entries])
        if t.op == "call":
            n, a = t.a[0], t.a[1]
            kwd = dict(t.a[2])
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.iter_elems(a[0], st, node, fr)
            if n in (".items", ".values", ".keys") and len(a) == 1:
                b = strip_ver(a[0])
                if b.op == "alloc" and b in st.heap:
                    c = st.heap[b]
                    sel = {".items": lambda e: mk("tuple", e.key, e.val), ".values": lambda e: e.val, ".keys": lambda e: e.key}[n]
                    if all(e.tag == "one" and e.key is not None for e in c.entries) and c.src is None and len(c.loops) >= len(st.loops) and len(c.entries) <= 24:
                        return ("unroll", [sel(e) for e in c.entries])
                    ws = [e for e in c.entries if e.tag in ("many", "one") and e.key is not None]
                    if ws:
                        return ("rep", self.loopkey(b, st), [((), sel(e)) for e in ws])
                if b.op == "comp" and b.a[0] == "dict":
                    outs = []
                    for conds, v in b.a[2]:
                        if v.op == "tuple":
                            outs.append((conds, {".items": v, ".values": v.a[1], ".keys": v.a[0]}[n]))
                    if outs:
                        return ("rep", self.loopkey(b.a[1], st), outs)
                key = self.loopkey(b, st)
                k = mk("key", b, key[1])
                val = st.store.get((b, k))
                v = val if val is not None and val is not DELETED else mk("item", self.vterm(b, st), k)
                return ("rep", key, [((), {".items": mk("tuple", k, v), ".values": v, ".keys": k}[n])])
            if n == "enumerate" and a:
                inner = self.iter_elems(a[0], st, node, fr)
                start = a[1] if len(a) > 1 else kwd.get("start", const(0))
                if inner[0] == "unroll":
                    if is_const(start):
                        return ("unroll", [mk("tuple", const(cval(start) + i), e) for i, e in enumerate(inner[1])])
                    inner = ("rep", self.loopkey(t, st), [((), e) for e in inner[1]])
                key = inner[1]
                ix = mk("idx", *key)
                if not (is_const(start) and cval(start) == 0):
                    ix = self.binop("+", ix, start, st)
                return ("rep", key, [(c, mk("tuple", ix, e)) for c, e in inner[2]])
            if n == "range":
                root, _ = self.iter_root(t, st)
                if all(is_const(x) for x in a):
                    try:
                        r = range(*[cval(x) for x in a])
                        if len(r) <= 4:
                            return ("unroll", [const(i) for i in r])
                    except Exception:
                        pass
                key = self.loopkey(root, st)
                return ("rep", key, [((), mk("idx", *key))])
            if n == "zip" and a:
                if len(a) == 1 and False:
                    pass
                inners = [self.iter_elems(x, st, node, fr) for x in a]
                if all(i[0] == "unroll" for i in inners):
                    return ("unroll", [mk("tuple", *es) for es in zip(*[i[1] for i in inners])])
                first = next(i for i in inners if i[0] == "rep")
                key = first[1]
                ix = mk("idx", *key)
                elems = []
                for x, i in zip(a, inners):
                    if strip_ver(x).op == "call" and strip_ver(x).a[0] in ("sorted", "reversed", "set") and len(a) > 1:
                        # reordered on its own: no longer parallel to the others
                        elems.append([mk("item", strip_ver(x), ix)] * (len(first[2]) if i is first else 1))
                    elif i is first:
                        elems.append([e for c, e in first[2]])
                    elif i[0] == "rep" and i[1] == key:
                        elems.append([i[2][0][1]])
                    else:
                        # element of x at the same position
                        r = self.getitem(st, strip_ver(x), ix, node, fr)
                        elems.append([r[0][1]] if r else [mk("item", x, ix)])
                res = []
                for j, (c, e0) in enumerate(first[2]):
                    tup = []
                    for el, i in zip(elems, inners):
                        tup.append(el[j] if i is first else el[0])
                    res.append((c, mk("tuple", *tup)))
                return ("rep", key, res)
            if n in ("sorted", "reversed", "set", "frozenset") and a:
                inner = self.iter_elems(a[0], st, node, fr)
                if inner[0] == "unroll":
                    return inner if n in ("set", "frozenset") else ("rep", self.loopkey(t, st), [((), e) for e in inner[1]])
                return inner
            if n == "map" and len(a) == 2:
                pass
        if t.op == "comp":
            key = self.loopkey(t.a[1], st)
            vals = [(c, (v.a[0] if t.a[0] == "dict" and v.op == "tuple" else v)) for c, v in t.a[2]]
            if key[1] == 0 and vals:
                return ("rep", key, vals)
            key = self.loopkey(t, st)
            return ("rep", key, vals or [((), mk("item", t, mk("idx", *key)))])
        if t.op == "alloc" and t in st.heap:
            c = st.heap[t]
            ws = [e for e in c.entries if e.tag in ("many", "one")]
            key = self.loopkey(t, st)
            if ws:
                return ("rep", key, [((), (e.key if c.kind == "dict" else e.val)) for e in ws])
            rest = [e for e in c.entries if e.tag == "rest"]
            if rest:
                return self.iter_elems(rest[0].val, st, node, fr)
            return ("rep", key, [((), mk("item", t, mk("idx", *key)))])
        key = self.loopkey(t, st)
        if self.kind_of(t, st) in ("dict", "defaultdict"):
            return ("rep", key, [((), mk("key", t, key[1]))])
        ix = mk("idx", *key)
        sv = st.store.get((t, ix))
        if sv is not None and sv is not DELETED:
            return ("rep", key, [((), sv)])
        return ("rep", key, [((), mk("item", self.vterm(t, st), ix))])

    def loopkey(self, root, st):
        root = strip_ver(root)
        d = 0
        while (root, d) in st.loops:
            d += 1
        return (root, d)

    # ------------------------------------------------------------------ calls
    def e_Call(self, node, st, fr):
        self.calls_seen += 1
        f = node.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.call_super(node, f.attr, st, fr)
        out = []
        if isinstance(f, ast.Attribute):
            for s, recv in self.eval(f.value, st, fr):
                for s2, args, kw in self.eval_args(node, s, fr):
                    out.extend(self.call_method(s2, recv, f.attr, args, kw, node, fr))
            return out
        for s, fv in self.eval(f, st, fr):
            for s2, args, kw in self.eval_args(node, s, fr):
                out.extend(self.call_value(s2, fv, args, kw, node, fr))
        return out

    def eval_args(self, node, st, fr):
        outs = [(st, [], [])]
        for a in node.args:
            nxt = []
            for s, args, kw in outs:
                if isinstance(a, ast.Starred):
                    for s2, v in self.eval(a.value, s, fr):
                        b = strip_ver(v)
                        if b.op == "tuple":
                            nxt.append((s2, args + list(b.a), kw))
                        elif b.op == "alloc" and b in s2.heap and all(e.tag == "one" for e in s2.heap[b].entries):
                            nxt.append((s2, args + [e.val for e in s2.heap[b].entries], kw))
                        else:
                            nxt.append((s2, args + [mk("star", v)], kw))
                else:
                    for s2, v in self.eval(a, s, fr):
                        nxt.append((s2, args + [v], kw))
            outs = nxt
        for k in node.keywords:
            nxt = []
            for s, args, kw in outs:
                for s2, v in self.eval(k.value, s, fr):
                    if k.arg is None:
                        b = strip_ver(v)
                        if b.op == "alloc" and b in s2.heap and all(e.tag == "one" and e.key is not None and is_const(e.key) for e in s2.heap[b].entries):
                            nxt.append((s2, args, kw + [(cval(e.key), e.val) for e in s2.heap[b].entries]))
                        else:
                            nxt.append((s2, args, kw + [("**", v)]))
                    else:
                        nxt.append((s2, args, kw + [(k.arg, v)]))
            outs = nxt
        return outs

    def call_super(self, node, name, st, fr):
        out = []
        me = None
        for s, args, kw in self.eval_args(node, st, fr):
            selfname = fr.fn.node.args.args[0].arg if fr.fn and fr.fn.node.args.args else "self"
            me = s.env.get(selfname)
            dyn = self.type_of(me, s) if me is not None else None
            target = (dyn or fr.cls).find_after(name, fr.cls) if fr.cls else None
            if target is None and fr.cls:
                target = fr.cls.find_after(name, fr.cls)
            if target is not None and me is not None:
                out.extend(self.call_fi(s, target, [me] + args, kw, node, fr, cls=dyn or fr.cls))
            else:
                out.append((s, NONE if name == "__init__" else self.unk(node, "super")))
        return out

    def call_value(self, st, fv, args, kw, node, fr):
        if fv.op == "glob":
            return self.call_global(st, fv.a[0], args, kw, node, fr)
        if fv.op == "bound":
            return self.call_method(st, fv.a[0], fv.a[1], args, kw, node, fr)
        if fv.op == "closure":
            return self.call_closure(st, fv, args, kw, node, fr)
        if fv.op == "partial":
            return self.call_value(st, fv.a[0], list(fv.a[1]) + args, list(fv.a[2]) + list(kw), node, fr)
        if fv.op == "attr":
            return self.call_method(st, fv.a[0], fv.a[1], args, kw, node, fr)
        cls = self.type_of(fv, st)
        if cls is not None and cls.find("__call__"):
            return self.call_method(st, fv, "__call__", args, kw, node, fr)
        # unknown callable (callback parameter etc.)
        return self.opaque(st, "()", [fv] + args, kw, node, fr, recv=fv)

    def call_closure(self, st, fv, args, kw, node, fr):
        c = self.closures[fv]
        if fr.depth >= self.policy.max_depth:
            return self.opaque(st, "<closure>", args, kw, node, fr)
        if isinstance(c.node, ast.Lambda):
            saved = st.env
            s = st
            env = dict(c.env)
            s.env = env
            self.bind_params(c.node.args, args, kw, env, c.env, s, c.frame)
            nfr = Frame(c.frame.fn, c.frame.module, c.frame.cls, fr.depth + 1)
            out = []
            for s2, v in self.eval(c.node.body, s, nfr):
                s2.env = dict(saved)
                out.append((s2, v))
            return out
        fi = c.fi or FuncInfo(c.frame.module, None, c.node)
        fi.cls = None
        return self.inline_body(st, fi, args, kw, node, fr, closure_env=c.env, cls=c.frame.cls)

    def call_global(self, st, dotted, args, kw, node, fr):
        r = self.prog.resolve(dotted)
        if r[0] == "func":
            fi = r[1]
            return self.call_fi(st, fi, args, kw, node, fr)
        if r[0] == "class":
            return self.construct(st, r[1], args, kw, node, fr)
        return self.call_external(st, r[1] if r[0] == "ext" else dotted, args, kw, node, fr)

    def construct(self, st, cls, args, kw, node, fr):
        anc = cls.ancestors()
        if any(a in EXC_PARENTS for a in anc if isinstance(a, str)):
            return [(st, mk("exc", cls.qual, tuple(args)))]
        t = self.alloc(st, "obj", node, cls=cls)
        kwt = tuple(sorted((k, v) for k, v in kw))
        cons = self.policy.construct
        if cls.name in cons or cons == "*":
            init = cls.find("__init__")
            if init is not None and fr.depth < self.policy.max_depth:
                out = []
                for s, _ in self.call_fi(st, init, [t] + args, kw, node, fr, cls=cls):
                    self.emit(s, "new", node, fr, glob(cls.qual), t, tuple(args), kwt)
                    out.append((s, t))
                return out
        self.emit(st, "new", node, fr, glob(cls.qual), t, tuple(args), kwt)
        if self.policy.may_raise("new:" + cls.qual, None, args, st):
            s2 = st.copy()
            self.throw(s2, mk("exc", "?", (t,)), node)
        return [(st, t)]

    def call_fi(self, st, fi, args, kw, node, fr, cls=None, entry=False):
        if not entry and (not self.policy.inline(fi, self, st) or fr.depth >= self.policy.max_depth or self.recursive(fi, fr)):
            if fi.cls is not None and fi.kind == "method" and args:
                return self.opaque(st, "." + fi.name, args[1:], kw, node, fr, recv=args[0])
            return self.opaque(st, fi.qual, args, kw, node, fr)
        if fi.is_gen and any(isinstance(d, (ast.Name, ast.Attribute)) and "contextmanager" in ast.dump(d) for d in fi.node.decorator_list):
            return [(st, mk("ctxcall", fi.qual, tuple(args), tuple(kw)))]
        decs = [d for d in fi.decorators]
        if decs:
            # apply package-defined decorators from the innermost outwards
            f0 = FuncInfo(fi.module, fi.cls, fi.node)
            f0.decorators = []
            env = {}
            t = mk("closure", fi.qual + ":undecorated", id(fi.node), ())
            self.closures[t] = Closure(fi.node, env, Frame(fi, fi.module, fi.cls, fr.depth), f0)
            vals = [(st, t)]
            for d in reversed(decs):
                nxt = []
                for s, fv in vals:
                    save = s.env
                    s.env = {}
                    mfr = Frame(None, fi.module, fi.cls, fr.depth + 1)
                    for s2, dv in self.eval(d, s, mfr):
                        if dv.op == "glob" and self.prog.resolve(dv.a[0])[0] == "ext" or dv.op in ("call", "unk"):
                            s2.env = dict(save)
                            nxt.append((s2, fv))
                            continue
                        for s3, v in self.call_value(s2, dv, [fv], (), node, mfr):
                            s3.env = dict(save)
                            nxt.append((s3, v))
                vals = nxt
            out = []
            for s, fv in vals:
                out.extend(self.call_value(s, fv, list(args), kw, node, fr))
            return out
        return self.inline_body(st, fi, args, kw, node, fr, cls=cls)

    def recursive(self, fi, fr):
        return any(f is fi.node for f in self._active)

    _active = ()

    def inline_body(self, st, fi, args, kw, node, fr, closure_env=None, cls=None):
        if fi.kind == "classmethod" and (not args or args[0].op != "glob"):
            args = [glob(fi.cls.qual)] + list(args)
        if fr.depth >= self.policy.max_depth or sum(1 for f in self._active if f is fi.node) >= 1:
            return self.opaque(st, fi.qual, args, kw, node, fr)
        self.inlined.add(fi.qual)
        self.visited_funcs.add(fi.qual)
        saved = st.env
        loops = st.loops
        tries_ = st.tries
        env = dict(closure_env) if closure_env else {}
        self.bind_params(fi.node.args, args, kw, env, env, st, Frame(fi, fi.module, fi.cls, fr.depth))
        st.env = env
        nfr = Frame(fi, fi.module, fi.cls or (cls if closure_env is not None else None) or fr.cls if closure_env is not None else fi.cls, fr.depth + 1)
        if fi.is_gen:
            nfr.gen = self.alloc(st, "list", fi.node)
        active = self._active
        self._active = active + (fi.node,)
        try:
            outs = self.exec_block(fi.node.body, st, nfr)
        finally:
            self._active = active
        res = []
        for kind, s, v, nd in outs:
            s.env = dict(saved)
            s.loops = loops
            s.tries = tries_
            if kind == "normal":
                res.append((s, nfr.gen if nfr.gen is not None else NONE))
            elif kind == "return":
                res.append((s, nfr.gen if nfr.gen is not None else v))
            elif kind == "raise":
                self.throw(s, v, nd)
        return self.merge(res)

    def merge(self, res):
        """Join paths that are indistinguishable from here on (same effects, heap, facts, result)."""
        if len(res) < 2:
            return res
        seen = {}
        out = []
        for s, v in res:
            k = (v, id(s.fields), id(s.heap), id(s.store), id(s.facts), len(s.events), s.events[-1] if s.events else None, s.locks)
            if k in seen:
                continue
            seen[k] = 1
            out.append((s, v))
        if len(out) > self.policy.max_paths:
            raise AnalysisError("too many abstract paths")
        return out

    def bind_params(self, a, args, kw, env, cenv, st, fr):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        star = None
        if args and any(x.op == "star" for x in args):
            i = next(i for i, x in enumerate(args) if x.op == "star")
            star = args[i].a[0]
            args = args[:i]
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        if a.vararg:
            if star is not None and not rest:
                env[a.vararg.arg] = star
            else:
                env[a.vararg.arg] = mk("tuple", *rest)
        elif star is not None:
            for i, n in enumerate(names[len(args):]):
                env[n] = mk("item", star, const(i))
        kwd = dict(kw)
        kwnames = names + [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kwd.items():
            if k in kwnames:
                env[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            if len(extra) == 1 and extra[0][0] == "**":
                env[a.kwarg.arg] = extra[0][1]
            else:
                t = self.alloc(st, "dict", fr.fn.node if fr.fn else a)
                st.setheap(t, Cont("dict", tuple(Entry("one", const(k), v) if k != "**" else Entry("rest", None, v) for k, v in extra), st.loops))
                env[a.kwarg.arg] = t
        nd = len(a.defaults)
        given = set(names[: len(args)]) | set(kwd)
        if star is not None:
            given |= set(names)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in given:
                env[n] = self.default_value(d, fr, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in given and d is not None:
                env[x.arg] = self.default_value(d, fr, st)
        for n in kwnames:
            if n not in env or (n not in given and n not in [m for m in names[len(names) - nd:]] and n in cenv and env is cenv and False):
                env.setdefault(n, mk("unk", "arg:" + n, ""))

    def default_value(self, d, fr, st):
        if isinstance(d, ast.Constant):
            return const(d.value)
        s = State()
        self.sinks.append([])
        try:
            outs = self.eval(d, s, Frame(None, fr.module, fr.cls, fr.depth + 1))
        finally:
            self.sinks.pop()
        if outs:
            s2, v = outs[0]
            if v.op == "alloc":
                st.setheap(v, s2.heap[v])
            return v
        return mk("unk", "default", "")

    # opaque calls ---------------------------------------------------------
    def positional(self, name, args, kw):
        """Keyword arguments of an interface method moved to their positions (all implementations agree on the order)."""
        cache = getattr(self.prog, "_params", None)
        if cache is None:
            cache = self.prog._params = {}
        if name not in cache:
            ps = None
            for c in self.prog.all_classes():
                fi = c.methods.get(name)
                if fi is None:
                    continue
                names = [x.arg for x in fi.node.args.args][1:]
                if ps is None:
                    ps = names
                else:
                    n = 0
                    while n < min(len(ps), len(names)) and ps[n] == names[n]:
                        n += 1
                    ps = ps[:n]
            cache[name] = ps or []
        ps = cache[name]
        kw = list(kw)
        args = list(args)
        while len(args) < len(ps):
            hit = next((x for x in kw if x[0] == ps[len(args)]), None)
            if hit is None:
                break
            args.append(hit[1])
            kw.remove(hit)
        return args, tuple(kw)

    def opaque(self, st, name, args, kw, node, fr, recv=None, pure=False):
        if kw and name.startswith(".") and recv is not None:
            args, kw = self.positional(name[1:], args, kw)
        full = ([recv] if recv is not None and name != "()" else []) + list(args)
        kwt = tuple(sorted(((k, v) for k, v in kw), key=lambda x: x[0]))
        if pure:
            t = call(name, *[self.vterm(x, st) if x.op not in ("at",) else x for x in full], kw=kwt)
            return [(st, t)]
        n = st.ncall.get(name, 0) + 1
        d = dict(st.ncall)
        d[name] = n
        st.ncall = d
        t = call(name, *full, kw=kwt, n=n)
        if self.policy.may_raise(name, recv, full, st):
            s2 = st.copy()
            self.emit(s2, "callx", node, fr, mk("glob", name), t, tuple(full), kwt)
            self.throw(s2, mk("exc", "?", (t,)), node)
        self.emit(st, "call", node, fr, mk("glob", name), t, tuple(full), kwt)
        self.escape(st, full, kwt)
        return [(st, t)]

    def escape(self, st, args, kw):
        """Local containers handed to unknown code may gain entries."""
        return

    def call_external(self, st, name, args, kw, node, fr):
        km = self.policy.known_call(self, name, args, kw, st)
        if km is not None:
            return [(st, km)]
        kwd = dict(kw)
        h = getattr(self, "b_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(st, args, kwd, node, fr)
            if r is not None:
                return r
        if name in EXC_PARENTS:
            return [(st, mk("exc", name, tuple(args)))]
        # builtins that may raise into a specific handler
        if name in ("int", "float") and self.in_try(st, "ValueError", "TypeError") and args and not is_const(args[0]):
            s2 = st.copy()
            at = mk("truthy", call("parses_" + name, args[0]))
            if self.assume(at, False, s2):
                self.throw(s2, mk("exc", "ValueError", ()), node)
            self.assume(at, True, st)
        if "out" in kwd:
            self.mutate_ref(st, kwd["out"], "out=", [], node, fr)
        if name == "numpy.nan_to_num" and args and "copy" in kwd and not (is_const(kwd["copy"]) and cval(kwd["copy"])):
            self.mutate_ref(st, args[0], "copy=False", [], node, fr)
        if name in ("random.shuffle", "numpy.random.shuffle", "numpy.copyto", "numpy.put", "numpy.fill_diagonal", "numpy.add.at") and args:
            self.mutate_ref(st, args[0], name, args[1:], node, fr)
        if name in self.policy.throws:
            kwt = tuple(sorted(((k, v) for k, v in kw), key=lambda x: x[0]))
            for exc in self.policy.throws[name]:
                s2 = st.copy()
                self.emit(s2, "callx", node, fr, mk("glob", name), NONE, tuple(args), kwt)
                self.throw(s2, mk("exc", exc, ()), node)
            return self.opaque(st, name, args, kw, node, fr)
        if name in PURE_BUILTINS or (name.startswith(PURE_PREFIX) and not name.startswith(IMPURE_EXC)):
            return self.opaque(st, name, args, kw, node, fr, pure=not self.raises_here(st, name, args, node, fr))
        return self.opaque(st, name, args, kw, node, fr)

    def raises_here(self, st, name, args, node, fr):
        """Fork an exceptional path for a pure call when the policy asks for it."""
        if self.policy.may_raise(name, None, args, st):
            s2 = st.copy()
            self.throw(s2, mk("exc", "?", ()), node)
        return False

    # builtin models ---------------------------------------------------------
    def view(self, t, st):
        """Contents of a sequence-like value built from local containers (list(d.items()), d.values(), ...), or None."""
        t = strip_ver(t)
        if t.op == "alloc" and t in st.heap:
            c = st.heap[t]
            if c.kind == "dict":
                return c.with_(kind="list", entries=tuple(Entry(e.tag, None, e.key if e.key is not None else e.val, e.facts, e.node, e.loops) for e in c.entries), src=("keys", t), order=None)
            return c if c.kind in ("list", "set", "tuple") else None
        if t.op == "call" and len(t.a[1]) == 1 and not t.a[2]:
            n, b = t.a[0], strip_ver(t.a[1][0])
            if n in (".items", ".values", ".keys") and b.op == "alloc" and b in st.heap and st.heap[b].kind == "dict":
                c = st.heap[b]
                sel = {".items": lambda e: mk("tuple", e.key, e.val), ".values": lambda e: e.val, ".keys": lambda e: e.key}[n]
                es = [Entry("many" if e.tag == "one" and len(c.entries) > 1 else e.tag, None, sel(e), e.facts, e.node, e.loops) for e in c.entries if e.key is not None]
                es += [Entry(e.tag, None, e.val if n != ".keys" else mk("item", e.val, const("*")), e.facts, e.node, e.loops) for e in c.entries if e.key is None]
                return Cont("list", es, c.loops, src=(n[1:], b))
            if n in ("list", "tuple", "iter"):
                return self.view(b, st)
        return None

    def b_len(self, st, args, kw, node, fr):
        return [(st, self.mk_len(args[0], st))] if args else None

    def b_bool(self, st, args, kw, node, fr):
        if not args:
            return [(st, FALSE)]
        at, pol = self.atom_of(args[0], st)
        if pol is None:
            return [(st, const(at))]
        d = self.decide(at, st)
        if d is not None:
            return [(st, const(d == pol))]
        return [(st, call("bool", args[0]))]

    def b_dict(self, st, args, kw, node, fr):
        t = self.alloc(st, "dict", node)
        es = []
        if args:
            b = strip_ver(args[0])
            if b.op == "alloc" and b in st.heap and st.heap[b].kind == "dict":
                es = list(st.heap[b].entries)
            else:
                c = self.view(b, st)
                if c is not None and c.entries and all(e.tag in ("one", "many") and e.val.op == "tuple" and len(e.val.a) == 2 for e in c.entries):
                    es = [Entry(e.tag, e.val.a[0], e.val.a[1], e.facts, e.node, e.loops) for e in c.entries]
                elif c is not None and not c.entries:
                    es = []
                elif c is not None and any(e.tag in ("one", "many") and e.val.op == "tuple" and len(e.val.a) == 2 for e in c.entries):
                    es = [Entry(e.tag, e.val.a[0], e.val.a[1], e.facts, e.node, e.loops) if e.val.op == "tuple" and len(e.val.a) == 2 else Entry("rest" if e.tag == "rest" else "prev", None, e.val) for e in c.entries]
                else:
                    es = [Entry("rest", None, args[0])]
        for k, v in kw.items():
            if k == "**":
                es.append(Entry("rest", None, v))
            else:
                es.append(Entry("one", const(k), v))
        st.setheap(t, Cont("dict", es, st.loops))
        return [(st, t)]

    def b_list(self, st, args, kw, node, fr, kind="list"):
        t = self.alloc(st, kind, node)
        if not args:
            return [(st, t)]
        b = strip_ver(args[0])
        if b.op == "alloc" and b in st.heap and st.heap[b].kind in ("list", "set", "tuple"):
            st.setheap(t, st.heap[b].with_(kind=kind, loops=st.loops, src=st.heap[b].src or (("copy", b) if not all(e.tag == "one" for e in st.heap[b].entries) else None), order=st.heap[b].order if kind == "list" else None))
            return [(st, t)]
        if b.op == "tuple":
            st.setheap(t, Cont(kind, [Entry("one", None, x) for x in b.a], st.loops))
            return [(st, t)]
        c = self.view(b, st)
        if c is not None and c.entries:
            st.setheap(t, c.with_(kind=kind, loops=st.loops))
            return [(st, t)]
        d = dict(st.heap)
        d.pop(t, None)
        st.heap = d
        return [(st, call(kind, self.vterm(b, st)))]

    def b_set(self, st, args, kw, node, fr):
        return self.b_list(st, args, kw, node, fr, "set")

    def b_tuple(self, st, args, kw, node, fr):
        if not args:
            return [(st, mk("tuple"))]
        b = strip_ver(args[0])
        if b.op == "tuple":
            return [(st, b)]
        if b.op == "alloc" and b in st.heap and all(e.tag == "one" for e in st.heap[b].entries) and len(st.heap[b].loops) >= len(st.loops):
            return [(st, mk("tuple", *[e.val for e in st.heap[b].entries]))]
        return [(st, call("tuple", self.vterm(b, st)))]

    def b_collections_defaultdict(self, st, args, kw, node, fr):
        t = self.alloc(st, "dict", node)
        return [(st, t)]

    def b_collections_OrderedDict(self, st, args, kw, node, fr):
        return self.b_dict(st, args, kw, node, fr)

    def b_collections_deque(self, st, args, kw, node, fr):
        return self.b_list(st, args, kw, node, fr)

    def b_sorted(self, st, args, kw, node, fr):
        if not args:
            return None
        b = strip_ver(args[0])
        if b.op == "alloc" and b in st.heap:
            t = self.alloc(st, "list", node)
            c = st.heap[b]
            st.setheap(t, Cont("list", [Entry("many" if e.tag == "one" else e.tag, None, e.key if c.kind == "dict" else e.val, e.facts, e.node, e.loops) for e in c.entries], st.loops,
                               order=self.order_of(kw.get("key"), kw.get("reverse", FALSE), c, st, node, fr), limit=c.limit, src=("sorted", b, c.src, c.order is not None)))
            return [(st, t)]
        c = self.view(b, st)
        if c is not None and c.entries:
            t = self.alloc(st, "list", node)
            st.setheap(t, c.with_(kind="list", loops=st.loops, order=self.order_of(kw.get("key"), kw.get("reverse", FALSE), c, st, node, fr), src=("sorted", c.src[1] if c.src else b, c.src, c.order is not None)))
            return [(st, t)]
        if b.op == "comp":
            t = self.alloc(st, "list", node)
            c = Cont("list", [Entry("many", None, v, None, None, ((b.a[1], 0),)) for cs, v in b.a[2]], st.loops)
            st.setheap(t, c.with_(order=self.order_of(kw.get("key"), kw.get("reverse", FALSE), c, st, node, fr), src=("sorted", b, c.src, False)))
            return [(st, t)]
        return None

    def order_of(self, key, reverse, c, st, node, fr):
        """('value term per entry' list, reverse?) describing how a container is sorted."""
        rev = cval(reverse) if is_const(reverse) else None
        out = []
        for e in c.entries:
            if e.tag == "prev":
                continue
            if key is None or key is NONE:
                k = e.val
            else:
                s2 = st.copy()
                self.sinks.append([])
                try:
                    r = self.call_value(s2, key, [e.val], (), node, fr)
                finally:
                    self.sinks.pop()
                k = r[0][1] if len(r) == 1 else self.unk(node, "sortkey")
            if k.op == "tuple" and k.a:
                k = k.a[0]
            if k.op == "un" and k.a[0] == "-":
                k2 = k.a[1]
                out.append((e.val, k2, True))
            else:
                out.append((e.val, k, False))
        return (tuple(out), rev)

    def b_heapq_nsmallest(self, st, args, kw, node, fr, rev=FALSE):
        if len(args) < 2:
            return None
        kw2 = {k: v for k, v in kw.items() if k == "key"}
        if len(args) > 2:
            kw2["key"] = args[2]
        kw2["reverse"] = rev
        r = self.b_sorted(st, [args[1]], kw2, node, fr)
        if r is None:
            return None
        for s, t in r:
            s.setheap(t, s.heap[t].with_(limit=s.heap[t].limit + (args[0],)))
        return r

    def b_heapq_nlargest(self, st, args, kw, node, fr):
        return self.b_heapq_nsmallest(st, args, kw, node, fr, TRUE)

    def b_getattr(self, st, args, kw, node, fr):
        if len(args) >= 2 and is_const(args[1]) and isinstance(cval(args[1]), str):
            return self.getattr(st, args[0], cval(args[1]), node, fr)
        return None

    def b_setattr(self, st, args, kw, node, fr):
        if len(args) == 3 and is_const(args[1]):
            self.set_attr(st, args[0], cval(args[1]), args[2], node, fr)
            return [(st, NONE)]
        return None

    def b_max(self, st, args, kw, node, fr, rev=TRUE):
        """The best by a key is the first element of the sequence ordered by that key."""
        if len(args) != 1 or "key" not in kw:
            return None
        b = strip_ver(args[0])
        s = st.copy()
        r = self.b_sorted(s, args, {"key": kw["key"], "reverse": rev}, node, fr)
        if not r or len(r) != 1:
            return None
        s, t = r[0]
        if "default" not in kw:
            return [(s, mk("item", t, const(0)))]
        outs = []
        e = s.copy()
        if self.assume(*self.nonempty_atom(b, s, True)):
            outs.append((s, mk("item", t, const(0))))
        if self.assume(*self.nonempty_atom(b, e, False)):
            outs.append((e, kw["default"]))
        return outs

    def b_min(self, st, args, kw, node, fr):
        return self.b_max(st, args, kw, node, fr, FALSE)

    def b_next(self, st, args, kw, node, fr):
        if args:
            a = strip_ver(args[0])
            if a.op == "call" and a.a[0] == "iter" and a.a[1]:
                a = strip_ver(a.a[1][0])
            r = self.iter_elems(a, st, node, fr)
            vals = r[1][:1] if r[0] == "unroll" else None
            if vals is None:
                outs = []
                for conds, v in r[2]:
                    s = st.copy()
                    if all(self.assume(c, p, s) for c, p in conds):
                        outs.append((s, v))
                if len(args) > 1 or self.in_try(st, "StopIteration"):
                    s = st.copy()
                    ok = True
                    if r[2] and all(not c for c, _ in r[2]):
                        ok = self.assume(*self.nonempty_atom(self.iter_root(a, st)[0], s, False))
                    if ok:
                        if len(args) > 1:
                            outs.append((s, args[1]))
                        else:
                            self.throw(s, mk("exc", "StopIteration", ()), node)
                return outs
            if vals:
                return [(st, vals[0])]
            if len(args) > 1:
                return [(st, args[1])]
        return None

    def b_map(self, st, args, kw, node, fr):
        if len(args) != 2:
            return None
        return self.map_like(st, args[0], args[1], node, fr)

    def map_like(self, st, fv, it, node, fr):
        r = self.iter_elems(it, st, node, fr)
        if r[0] == "unroll":
            outs = [(st, [])]
            for e in r[1]:
                nxt = []
                for s, acc in outs:
                    for s2, v in self.call_value(s, fv, [e], (), node, fr):
                        nxt.append((s2, acc + [v]))
                outs = nxt
            res = []
            for s, acc in outs:
                t = self.alloc(s, "list", node)
                s.setheap(t, Cont("list", [Entry("one", None, v) for v in acc], s.loops))
                res.append((s, t))
            return res
        key = r[1]
        outs = []
        z = st.copy()
        if self.assume(*self.nonempty_atom(key[0], z, False)):
            t = self.alloc(z, "list", node)
            outs.append((z, t))
        for conds, e in r[2]:
            s = st.copy()
            s.loops = s.loops + (key,)
            if not all(self.assume(c, p, s) for c, p in conds):
                continue
            for s2, v in self.call_value(s, fv, [e], (), node, fr):
                lp = s2.loops
                s2.loops = st.loops
                t = self.alloc(s2, "list", node)
                s2.setheap(t, Cont("list", [Entry("many", None, v, s2.facts, node, lp)], s2.loops, src=("comp", key[0])))
                outs.append((s2, t))
        return outs

    def b_isinstance(self, st, args, kw, node, fr):
        if len(args) == 2:
            x = strip_ver(args[0])
            names = [self.clsname(c) for c in (args[1].a if args[1].op == "tuple" else (args[1],))]
            if x.op == "const":
                tn = type(cval(x)).__name__
                if all(n in ("str", "int", "float", "dict", "list", "tuple", "bool", "bytes", "set") for n in names):
                    return [(st, const(tn in names or (tn == "bool" and "int" in names)))]
            if x.op == "alloc" and x.a[0] in ("list", "dict", "set"):
                if all(n in ("str", "int", "float", "dict", "list", "tuple", "bool", "bytes", "set") for n in names):
                    return [(st, const(x.a[0] in names))]
            if x.op in ("fmt",) and "str" in names:
                return [(st, TRUE)]
            cls = self.type_of(x, st)
            if cls is not None:
                anc = cls.ancestors()
                if any(n in anc for n in names):
                    return [(st, TRUE)]
            return [(st, call("isinstance", args[0], mk("tuple", *[glob(n) for n in names])))]
        return None

    def clsname(self, c):
        return c.a[0] if c.op == "glob" else show(c)

    def b_functools_partial(self, st, args, kw, node, fr):
        return [(st, mk("partial", args[0], tuple(args[1:]), tuple(kw.items())))]

    def b_str(self, st, args, kw, node, fr):
        if args and (self.kind_of(strip_ver(args[0]), st) == "str"):
            return [(st, args[0])]
        if args and is_const(args[0]):
            return [(st, const(str(cval(args[0]))))]
        return None

    def b_builtins_len(self, *a):
        return self.b_len(*a)

    # ------------------------------------------------------------------ method calls
    def call_method(self, st, recv, name, args, kw, node, fr):
        base = strip_ver(recv)
        if base.op == "glob":
            r = self.prog.resolve(base.a[0])
            if r[0] == "class":
                f = r[1].find(name)
                if f is not None:
                    if f.kind == "classmethod":
                        return self.call_fi(st, f, [base] + args, kw, node, fr, cls=r[1])
                    return self.call_fi(st, f, args, kw, node, fr, cls=r[1])
            return self.call_value(st, self.global_value(base.a[0] + "." + name, st), args, kw, node, fr)
        if base.op == "modconst" or (base.op == "call" and base.a[0].startswith("logging.")):
            return self.opaque(st, "." + name, args, kw, node, fr, recv=base)
        if base.op == "ctxcall":
            return self.opaque(st, "." + name, args, kw, node, fr, recv=base)
        cls = self.type_of(base, st)
        if cls is not None:
            if (base, name) in st.fields:
                return self.call_value(st, st.fields[(base, name)], args, kw, node, fr)
            f = cls.find(name)
            if f is not None:
                own = base.op == "self" or base.op == "alloc" or cls.name in self.policy.inline_fields or "*" in self.policy.inline_fields
                if own and not self.is_abstract(f):
                    a = list(args) if f.kind == "staticmethod" else [base] + list(args)
                    return self.call_fi(st, f, a, kw, node, fr, cls=cls)
                return self.opaque(st, "." + name, args, kw, node, fr, recv=base)
        if base.op == "alloc" and base in st.heap and base.a[0] != "obj":
            return self.local_method(st, base, name, args, kw, node, fr)
        if base.op == "closure" and name in ("__call__",):
            return self.call_value(st, base, args, kw, node, fr)
        return self.ref_method(st, base, recv, name, args, kw, node, fr)

    def is_abstract(self, f):
        return any("abstractmethod" in ast.dump(d) for d in f.node.decorator_list)

    def entry_tag(self, c, st):
        return "one" if len(c.loops) >= len(st.loops) else "many"

    def cont_add(self, st, t, key, val, node):
        c = st.heap[t]
        order = None
        if c.order is None and not c.entries:
            order = None
        src = None if isinstance(c.src, tuple) and c.src[0] in ("sorted", "slice", "items", "keys", "values") and c.entries else c.src
        st.setheap(t, c.with_(entries=c.entries + (Entry(self.entry_tag(c, st), key, val, st.facts, node, st.loops),), order=None, limit=() if c.limit else c.limit, src=src))

    def local_method(self, st, t, name, args, kw, node, fr):
        c = st.heap[t]
        kwd = dict(kw)
        if self.policy.log and t.a[1].startswith(self.prog.package + ".") and name in ("append", "add", "appendleft", "insert", "extend", "update", "pop", "popitem", "remove", "discard", "clear", "setdefault", "sort", "reverse"):
            self.emit(st, "tablechange", node, fr, t)
        if name in ("append", "add", "appendleft") and args:
            if name == "add" and any(e.val is args[0] for e in c.entries):
                return [(st, NONE)]
            self.cont_add(st, t, None, args[0], node)
            return [(st, NONE)]
        if name == "insert" and len(args) == 2:
            self.emit(st, "linsert", node, fr, t, args[0])
            self.cont_add(st, t, None, args[1], node)
            return [(st, NONE)]
        if name in ("extend", "update") and args and c.kind in ("list", "set"):
            src = strip_ver(args[0])
            many = len(c.loops) < len(st.loops)
            if src.op == "alloc" and src in st.heap:
                sc = st.heap[src]
                es = tuple(Entry("many" if many and e.tag == "one" else e.tag, None, e.key if sc.kind == "dict" else e.val, e.facts, e.node, st.loops + tuple(l for l in e.loops if l not in st.loops)) for e in sc.entries)
            elif src.op == "tuple":
                es = tuple(Entry("many" if many else "one", None, x, st.facts, node, st.loops) for x in src.a)
            elif src.op == "comp":
                es = tuple(Entry("many", None, v, None, node, st.loops + ((src.a[1], 0),)) for cs, v in src.a[2])
            else:
                es = (Entry("rest", None, args[0], st.facts, node, st.loops),)
            st.setheap(t, c.with_(entries=c.entries + es, order=None, limit=()))
            return [(st, NONE)]
        if name == "update" and c.kind == "dict":
            es = []
            if args:
                src = strip_ver(args[0])
                if src.op == "alloc" and src in st.heap:
                    es = list(st.heap[src].entries)
                else:
                    es = [Entry("rest", None, args[0])]
            for k, v in kw:
                es.append(Entry("one", const(k), v, st.facts, node))
            for e in es:
                if e.key is not None:
                    self.dict_put(st, t, e.key, e.val, node)
                else:
                    cc = st.heap[t]
                    st.setheap(t, cc.with_(entries=cc.entries + (e,)))
            return [(st, NONE)]
        if name == "clear":
            st.setheap(t, c.with_(entries=(), order=None, limit=(), src=None))
            return [(st, NONE)]
        if name == "sort":
            src = ("sorted", c.src[1], c.src, c.order is not None) if isinstance(c.src, tuple) and c.src[0] == "slice" else c.src
            st.setheap(t, c.with_(order=self.order_of(kwd.get("key"), kwd.get("reverse", FALSE), c, st, node, fr), src=src))
            return [(st, NONE)]
        if name == "reverse":
            o = c.order
            st.setheap(t, c.with_(order=(o[0], not o[1]) if o and isinstance(o[1], bool) else None))
            self.emit(st, "lrev", node, fr, t)
            return [(st, NONE)]
        if name == "copy":
            t2 = self.alloc(st, c.kind, node)
            st.setheap(t2, c.with_(loops=st.loops))
            return [(st, t2)]
        if name == "get" and args:
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            r = self.decide(mk("in", k, t), st)
            if r is True:
                return self.getitem(st, t, k, node, fr)
            if r is False:
                return [(st, dflt)]
            rest = [e for e in c.entries if e.tag == "rest"]
            if rest and all(e.tag == "rest" or (e.key is not None and k is not None and is_const(e.key) and is_const(k) and cval(e.key) != cval(k)) for e in c.entries) and len(rest) == 1:
                return [(st, mk("get", self.vterm(strip_ver(rest[0].val), st), k, dflt))]
            return [(st, mk("get", mk("at", t, len(c.entries)), k, dflt))]
        if name == "setdefault" and args:
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            r = self.decide(mk("in", k, t), st)
            if r is True:
                return self.getitem(st, t, k, node, fr)
            if r is False:
                self.dict_put(st, t, k, dflt, node)
                return [(st, dflt)]
            rest = [e for e in c.entries if e.tag == "rest"]
            if len(rest) == 1 and all(e.tag == "rest" or e.tag == "one" and e.key is not None and is_const(e.key) and is_const(k) and cval(e.key) != cval(k) for e in c.entries):
                b = self.vterm(strip_ver(rest[0].val), st)
                at, outs = mk("in", k, b), []
                s = st.copy()
                if self.decide(at, st) is not False and self.assume(at, True, s):
                    outs.append((s, mk("item", b, k)))
                s = st.copy()
                if self.decide(at, st) is not True and self.assume(at, False, s):
                    self.dict_put(s, t, k, dflt, node)
                    outs.append((s, dflt))
                return outs
            return [(st, mk("get", t, k, dflt))]
        if name in ("items", "values", "keys"):
            return [(st, call("." + name, t))]
        if name == "pop":
            if c.kind == "dict" and args:
                k = args[0]
                hit = [e for e in c.entries if e.key is k]
                val = hit[-1].val if hit else (args[1] if len(args) > 1 and not any(e.tag != "one" or not is_const(e.key) for e in c.entries) else mk("item", mk("at", t, len(c.entries)), k))
                st.setheap(t, c.with_(entries=tuple(e for e in c.entries if e.key is not k)))
                return [(st, val)]
            if all(e.tag == "one" for e in c.entries) and c.entries and len(c.loops) >= len(st.loops) and (not args or is_const(args[0])):
                i = cval(args[0]) if args else -1
                es = list(c.entries)
                v = es.pop(i).val
                st.setheap(t, c.with_(entries=tuple(es)))
                return [(st, v)]
            ws = [e for e in c.entries if e.tag in ("one", "many")]
            v = ws[-1].val if len(ws) == 1 else mk("item", mk("at", t, len(c.entries)), args[0] if args else const(-1))
            st.setheap(t, c.with_(entries=tuple(Entry("prev", e.key, e.val) if e in ws else e for e in c.entries)))
            return [(st, v)]
        if name in ("remove", "discard") and args:
            st.setheap(t, c.with_(entries=tuple(e for e in c.entries if e.val is not args[0]) + (Entry("prev", None, args[0]),)))
            return [(st, NONE)]
        if name == "join":
            return self.opaque(st, ".join", args, kw, node, fr, recv=t, pure=True)
        if name in PURE_METHODS:
            return [(st, call("." + name, mk("at", t, len(c.entries)), *args, kw=tuple(kw)))]
        return self.opaque(st, "." + name, args, kw, node, fr, recv=t)

    def dict_put(self, st, t, k, v, node):
        c = st.heap[t]
        es = tuple(e for e in c.entries if e.key is not k)
        st.setheap(t, c.with_(entries=es + (Entry(self.entry_tag(c, st), k, v, st.facts, node, st.loops),)))

    def run_task(self, st, fv, args, kw, node, fr):
        """What a function handed to an executor does, on a copy of the state: [(kind, state, result, arguments)]."""
        self.sinks.append([])
        try:
            res = self.call_value(st.copy(), fv, args, kw, node, fr)
        finally:
            bad = self.sinks.pop()
        n = len(st.events)
        self.tasks += [("return", s, v, args, n, node) for s, v in res] + [("raise", s, v, args, n, node) for s, v, _ in bad]

    def ref_method(self, st, base, recv, name, args, kw, node, fr):
        """Method on an opaque reference (parameter, field content, call result...)."""
        vb = self.vterm(base, st)
        kind = self.kind_of(base, st)
        if name == "submit" and self.policy.iterations and args and args[0].op in ("closure", "bound", "partial"):
            self.run_task(st, args[0], list(args[1:]), kw, node, fr)
        if name == "get" and 1 <= len(args) <= 2 and not kw:
            k = args[0]
            d = args[1] if len(args) == 2 else NONE
            sv = st.store.get((base, k))
            if sv is DELETED:
                return [(st, d)]
            if sv is not None:
                return [(st, sv)]
            if self.decide(mk("in", k, vb), st) is True:
                return [(st, mk("item", vb, k))]
            if self.decide(mk("in", k, vb), st) is False:
                return [(st, d)]
            return [(st, mk("get", vb, k, d))]
        if name == "join" and args:
            return [(st, call(".join", recv, *args))]
        if name == "format" and kind == "str":
            t = self.format_call(recv, args, kw)
            return [(st, t if t is not None else call(".format", recv, *args, kw=tuple(kw)))]
        if name in MUTATORS and kind != "str" and self.is_mutation(base, name, args, st):
            return self.mutate_method(st, base, name, args, kw, node, fr)
        if name in ("acquire",) and not args:
            st.locks = st.locks + (base,)
            self.emit(st, "acq", node, fr, base)
            return [(st, TRUE)]
        if name in ("release",):
            if base in st.locks:
                l = list(st.locks)
                l.reverse()
                l.remove(base)
                l.reverse()
                st.locks = tuple(l)
            self.emit(st, "rel", node, fr, base)
            return [(st, NONE)]
        if name == "replace" and len(args) == 1:
            return self.opaque(st, ".replace", args, kw, node, fr, recv=base)     # Path.replace(target): str.replace takes two
        if name in PURE_METHODS:
            if base.op == "const" and isinstance(cval(base), str) and all(is_const(a) for a in args) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split"):
                try:
                    r = getattr(cval(base), name)(*[cval(a) for a in args])
                    if isinstance(r, (str, bool)):
                        return [(st, const(r))]
                except Exception:
                    pass
            if name == "index" and self.in_try(st, "ValueError"):
                s2 = st.copy()
                self.throw(s2, mk("exc", "ValueError", ()), node)
            if self.policy.may_raise("." + name, base, args, st):
                self.throw(st.copy(), mk("exc", "?", ()), node)
            if name == "copy" and not args:
                return [(st, call(".copy", vb))]
            return [(st, call("." + name, vb, *[self.vterm(a, st) for a in args], kw=tuple(sorted(kw, key=lambda x: x[0]))))]
        return self.opaque(st, "." + name, args, kw, node, fr, recv=base)

    def is_mutation(self, base, name, args, st):
        # sb.update(...) on a component is a call, not a container mutation
        if name in ("update", "add", "remove", "clear", "insert", "partition", "reverse", "put"):
            cls = self.type_of(base, st)
            if cls is not None:
                return False
            if name == "insert" and len(args) != 2:
                return False
            if name == "insert" and base.op == "param" and self.kind_of(base, st) != "list" and not (strip_ver(args[0]).op in ("const", "idx", "bin", "phi") or strip_ver(args[0]).op == "call" and strip_ver(args[0]).a[0] in ("len", "int", "max", "min")):
                return False                  # a client's or database's insert, not a list's
            if base.op == "call" and base.a[0].startswith("hashlib."):
                return False
        return True

    def mutate_method(self, st, base, name, args, kw, node, fr):
        vb = self.vterm(base, st)
        if name in ("pop",) and args and self.kind_of(base, st) != "list":
            k = args[0]
            at = mk("in", k, vb)
            old = st.store.get((base, k))
            val = old if old not in (None, DELETED) else mk("item", vb, k)
            d = self.decide(at, st)
            outs = []
            if len(args) > 1:
                # present / absent
                if d is not False:
                    s = st if d is True else st.copy()
                    if d is True or self.assume(at, True, s):
                        self.del_item(s, base, k, node, fr, "pop")
                        outs.append((s, val))
                if d is not True:
                    s = st if d is False else st.copy()
                    if d is False or self.assume(at, False, s):
                        self.emit(s, "popmiss", node, fr, base, k)
                        outs.append((s, args[1]))
                return outs
            if d is not True and self.in_try(st, "KeyError"):
                s2 = st.copy()
                if self.assume(at, False, s2):
                    self.throw(s2, mk("exc", "KeyError", ()), node)
            if d is None:
                self.assume(at, True, st)
            self.del_item(st, base, k, node, fr, "pop")
            return [(st, val)]
        if name == "setdefault" and args:
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            at = mk("in", k, vb)
            outs = []
            d = self.decide(at, st)
            if d is not False:
                s = st.copy()
                if d is True or self.assume(at, True, s):
                    outs.extend(self.getitem(s, base, k, node, fr))
            if d is not True:
                s = st.copy()
                if d is False or self.assume(at, False, s):
                    self.set_item(s, base, k, dflt, node, fr)
                    outs.append((s, dflt))
            return outs
        if name == "remove" and args:
            at = mk("in", args[0], vb)
            d = self.decide(at, st)
            if d is not True and self.in_try(st, "ValueError", "KeyError"):
                s2 = st.copy()
                if self.assume(at, False, s2):
                    self.emit(s2, "popmiss", node, fr, base, args[0])
                    self.throw(s2, mk("exc", "ValueError", ()), node)
                self.assume(at, True, st)
            self.emit(st, "mut", node, fr, base, const(name), tuple(args), tuple(kw))
            st.bump(base)
            st.setfact(mk("in", args[0], self.vterm(base, st)), False)
            return [(st, NONE)]
        if name == "discard" and args:
            self.emit(st, "mut", node, fr, base, const("remove"), tuple(args), tuple(kw))
            st.bump(base)
            st.setfact(mk("in", args[0], self.vterm(base, st)), False)
            return [(st, NONE)]
        self.emit(st, "mut", node, fr, base, const(name), tuple(args), tuple(kw))
        st.bump(base)
        nv = self.vterm(base, st)
        if name in ("append", "add", "appendleft") and args:
            st.setfact(mk("truthy", nv), True)
            st.setfact(mk("in", args[0], nv), True)
        elif name == "clear":
            st.setfact(mk("truthy", nv), False)
            st.store = {k: v for k, v in st.store.items() if k[0] is not base}
        elif name == "update" and args:
            src = strip_ver(args[0])
            if src.op == "alloc" and src in st.heap and st.heap[src].kind == "dict":
                for e in st.heap[src].entries:
                    if e.key is not None and e.tag == "one":
                        st.setstore((base, e.key), e.val)
        if name in ("pop", "popleft", "popitem"):
            return [(st, mk("item", vb, args[0] if args else const(-1 if name != "popleft" else 0)))]
        return [(st, NONE)]

    def mutate_ref(self, st, base, name, args, node, fr):
        base = strip_ver(base)
        if base.op == "alloc" and base in st.heap:
            return
        self.emit(st, "mut", node, fr, base, const(name), tuple(args), ())
        st.bump(base)

    # ------------------------------------------------------------------ writes
    def set_item(self, st, b, k, v, node, fr):
        base = strip_ver(b)
        if base.op == "alloc" and base in st.heap and base.a[0] != "obj":
            c = st.heap[base]
            if self.policy.log and base.a[1].startswith(self.prog.package + "."):
                self.emit(st, "tablechange", node, fr, base)
            if c.kind == "dict":
                self.dict_put(st, base, k, v, node)
                return
            es = list(c.entries)
            if is_const(k) and isinstance(cval(k), int) and all(e.tag == "one" for e in es) and -len(es) <= cval(k) < len(es):
                es[cval(k)] = Entry("one", None, v, st.facts, node, st.loops)
                st.setheap(base, c.with_(entries=tuple(es), order=None))
                return
            es.append(Entry("many", None, v, st.facts, node, st.loops))
            st.setheap(base, c.with_(entries=tuple(es), order=None))
            return
        self.emit(st, "setitem", node, fr, base, k, v)
        old_in = st.facts.get(mk("in", k, self.vterm(base, st)))
        st.bump(base)
        st.setstore((base, k), v)
        nv = self.vterm(base, st)
        st.setfact(mk("in", k, nv), True)
        st.setfact(mk("truthy", nv), True)

    def del_item(self, st, b, k, node, fr, how="del"):
        base = strip_ver(b)
        if base.op == "alloc" and base in st.heap and base.a[0] != "obj":
            c = st.heap[base]
            st.setheap(base, c.with_(entries=tuple(e for e in c.entries if e.key is not k)))
            return
        self.emit(st, "delitem", node, fr, base, k, const(how))
        st.bump(base)
        st.setstore((base, k), DELETED)
        st.setfact(mk("in", k, self.vterm(base, st)), False)

    def set_attr(self, st, o, name, v, node, fr):
        o = strip_ver(o)
        old = st.fields.get((o, name))
        st.setfield(o, name, v)
        self.emit(st, "setfield", node, fr, o, const(name), v)

    def assign(self, target, v, st, fr, node):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(target.elts), st, target)
            for t, x in zip(target.elts, vs):
                self.assign(t.value if isinstance(t, ast.Starred) else t, x, st, fr, node)
        elif isinstance(target, ast.Attribute):
            outs = self.eval(target.value, st, fr)
            if len(outs) == 1:
                s, o = outs[0]
                self.absorb(st, s)
                self.set_attr(st, o, target.attr, v, node, fr)
            else:
                self.absorb(st, outs[0][0])
        elif isinstance(target, ast.Subscript):
            idx = target.slice if not isinstance(target.slice, ast.Slice) else None
            outs = []
            for s, b in self.eval(target.value, st, fr):
                if idx is None:
                    for s2, k in self.e_Slice(target.slice, s, fr):
                        outs.append((s2, b, k))
                else:
                    for s2, k in self.eval(idx, s, fr):
                        outs.append((s2, b, k))
            if outs:
                s, b, k = outs[0]
                self.absorb(st, s)
                self.set_item(st, b, k, v, node, fr)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, fr, node)

    def absorb(self, st, s):
        if s is st:
            return
        for n in ("env", "fields", "heap", "ver", "store", "facts", "events", "locks", "loops", "nalloc", "exc", "tries", "ncall"):
            setattr(st, n, getattr(s, n))

    def unpack(self, v, n, st, target):
        b = strip_ver(v)
        if b.op == "tuple" and len(b.a) == n:
            return list(b.a)
        if b.op == "alloc" and b in st.heap:
            c = st.heap[b]
            if c.kind in ("list", "tuple") and len(c.entries) == n and all(e.tag == "one" for e in c.entries):
                return [e.val for e in c.entries]
        return [self.getitem(st, b, const(i), target, None)[0][1] if b.op not in ("unk",) else self.unk(target, "unpack") for i in range(n)]

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        outs = []
        states = [st]
        for stmt in stmts:
            nxt = []
            for s in states:
                for kind, s2, v, nd in self.exec(stmt, s, fr):
                    if kind == "normal":
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v, nd))
            states = self.dedupe(nxt)
            if not states:
                break
        outs.extend(("normal", s, None, None) for s in states)
        return outs

    def dedupe(self, states):
        if len(states) < 2:
            return states
        if len(states) > self.policy.max_paths:
            raise AnalysisError("too many abstract paths")
        if self.policy.coarse:
            return self.coarsen(states)
        seen = set()
        out = []
        for s in states:
            k = (id(s.fields), id(s.heap), id(s.store), id(s.ver), frozenset(s.facts.items()), len(s.events), id(s.events[-1]) if s.events else 0, s.locks, s.loops,
                 tuple(sorted((n, v.uid) for n, v in s.env.items())))
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def flag_key(self, s):
        return (frozenset((o, f, v) for (o, f), v in s.fields.items() if is_const(v)), s.locks, s.loops, s.tries)

    def coarsen(self, states):
        """Join states that agree on the typestate (literal-valued fields)."""
        groups = {}
        for s in states:
            groups.setdefault(self.flag_key(s), []).append(s)
        return [g[0] if len(g) == 1 else self.join(g) for g in groups.values()]

    def join(self, g):
        b = g[0].copy()
        for n in list(b.env):
            vs = {s.env.get(n) for s in g}
            if len(vs) > 1:
                b.env[n] = mk("unk", "join", n) if None not in vs else (b.env[n] if len(vs) == 2 and b.env[n] is not None else mk("unk", "join", n))
        for s in g[1:]:
            for n, v in s.env.items():
                b.env.setdefault(n, v)
        fk = {k for s in g for k in s.fields}
        fields = {}
        for k in fk:
            vs = {s.fields.get(k) for s in g}
            fields[k] = next(iter(vs)) if len(vs) == 1 else mk("unk", "joinf", k[1])
        b.fields = fields
        heap = {}
        for k in {k for s in g for k in s.heap}:
            cs = [s.heap[k] for s in g if k in s.heap]
            c0 = cs[0]
            if all(c is c0 for c in cs):
                heap[k] = c0
            else:
                heap[k] = c0.with_(entries=(Entry("prev", None, mk("unk", "join", "heap")),) + tuple({id(e): e for c in cs for e in c.entries if e.tag != "prev"}.values())[:6], order=None, limit=())
                if heap[k].kind == "obj":
                    heap[k] = c0
        b.heap = heap
        b.facts = {a: v for a, v in g[0].facts.items() if all(s.facts.get(a) is v for s in g[1:])}
        b.store = {a: v for a, v in g[0].store.items() if all(s.store.get(a) is v for s in g[1:])}
        b.ver = {k: max(s.ver.get(k, 0) for s in g) + (1 if len({s.ver.get(k, 0) for s in g}) > 1 else 0) for k in {k for s in g for k in s.ver}}
        b.nalloc = {k: max(s.nalloc.get(k, 0) for s in g) for k in {k for s in g for k in s.nalloc}}
        b.ncall = {k: max(s.ncall.get(k, 0) for s in g) for k in {k for s in g for k in s.ncall}}
        return b

    def exec(self, stmt, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(stmt).__name__, None)
        if m is None:
            return [("normal", st, None, None)]
        self.sinks.append([])
        try:
            outs = m(stmt, st, fr)
        finally:
            raised = self.sinks.pop()
        if raised:
            if self.policy.coarse:
                seen = {}
                for s, e, nd in raised:
                    seen.setdefault((self.flag_key(s), e.a[0] if e.op == "exc" else e), []).append((s, e, nd))
                raised = [v[0] if len(v) == 1 else (self.join([x[0] for x in v]), v[0][1], v[0][2]) for v in seen.values()]
            outs = list(outs) + [("raise", s, e, nd) for s, e, nd in raised]
        return outs

    def s_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            return [("normal", st, None, None)]
        if isinstance(node.value, ast.Yield) and fr.hook is not None:
            return self.do_hook(node, st, fr, None)
        return [("normal", s, None, None) for s, _ in self.eval(node.value, st, fr)]

    def do_hook(self, node, st, fr, target):
        vals = self.eval(node.value.value, st, fr) if node.value.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            genv = s.env
            for kind, s2, rv, nd in fr.hook(s, v):
                if kind == "normal":
                    s2.env = dict(genv)
                    out.append(("normal", s2, None, None))
                elif kind == "raise":
                    uenv = s2.env
                    s2.env = dict(genv)
                    out.append(("raise", s2, rv, nd))
                else:
                    # return/break/continue out of the with-body: run generator cleanup, then leave
                    uenv = s2.env
                    s2.env = dict(genv)
                    out.append(("outer", s2, (kind, rv, nd, uenv), nd))
        return out

    def s_Pass(self, node, st, fr):
        return [("normal", st, None, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, node, st, fr):
        for k, v in fr.module.import_bindings(node).items():
            st.env[k] = self.global_value(v, st)
        outs = [("normal", st, None, None)]
        if self.in_try(st, "ImportError", "ModuleNotFoundError"):
            s2 = st.copy()
            outs.append(("raise", s2, mk("exc", "ImportError", ()), node))
        return outs

    s_ImportFrom = s_Import

    def s_Assign(self, node, st, fr):
        out = []
        if isinstance(node.value, ast.Yield) and fr.hook is not None:
            return self.do_hook(node, st, fr, node.targets)
        for s, v in self.eval(node.value, st, fr):
            for t in node.targets:
                self.assign(t, v, s, fr, node)
            out.append(("normal", s, None, None))
        return out

    def s_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [("normal", st, None, None)]
        out = []
        for s, v in self.eval(node.value, st, fr):
            self.assign(node.target, v, s, fr, node)
            out.append(("normal", s, None, None))
        return out

    def s_AugAssign(self, node, st, fr):
        load = ast.copy_location(LOADS[type(node.target)](node.target), node.target)
        out = []
        op = OPS.get(type(node.op), "?")
        for s, (a, b) in self.evals([load, node.value], st, fr):
            base = strip_ver(a)
            if base.op == "alloc" and base in s.heap and op in ("+", "|") and base.a[0] in ("list", "set", "dict"):
                for s2, _ in self.local_method(s, base, "update" if base.a[0] != "list" else "extend", [b], (), node, fr):
                    out.append(("normal", s2, None, None))
                continue
            if op == "+" and self.kind_of(base, s) == "list":
                for s2, _ in self.mutate_method(s, base, "extend", [b], (), node, fr):
                    out.append(("normal", s2, None, None))
                continue
            v = self.binop(op, a, b, s, node)
            self.emit(s, "aug", node, fr, a, const(op), b)
            self.assign(node.target, v, s, fr, node)
            out.append(("normal", s, None, None))
        return out

    def s_Delete(self, node, st, fr):
        states = [st]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        for s2, b in self.eval(t.value, s, fr):
                            bb = strip_ver(b)
                            if bb.op == "alloc" and bb in s2.heap:
                                s2.setheap(bb, s2.heap[bb].with_(entries=tuple(Entry("prev", e.key, e.val) for e in s2.heap[bb].entries)))
                            else:
                                self.emit(s2, "mut", node, fr, bb, const("delslice"), (), ())
                                s2.bump(bb)
                            nxt.append(s2)
                        continue
                    for s2, (b, k) in self.evals([t.value, t.slice], s, fr):
                        bb = strip_ver(b)
                        at = mk("in", k, self.vterm(bb, s2))
                        d = self.decide(at, s2)
                        if d is not True and self.in_try(s2, "KeyError", "IndexError"):
                            s3 = s2.copy()
                            if self.assume(at, False, s3):
                                self.throw(s3, mk("exc", "KeyError", ()), node)
                            if not self.assume(at, True, s2):
                                continue
                        self.del_item(s2, b, k, node, fr)
                        nxt.append(s2)
                elif isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            states = nxt
        return [("normal", s, None, None) for s in states]

    def s_Return(self, node, st, fr):
        if node.value is None:
            return [("return", st, NONE, node)]
        return [("return", s, v, node) for s, v in self.eval(node.value, st, fr)]

    def s_Raise(self, node, st, fr):
        if node.exc is None:
            e = st.exc[-1] if st.exc else mk("exc", "?", ())
            return [("raise", st, e, node)]
        out = []
        for s, v in self.eval(node.exc, st, fr):
            if v.op == "glob":
                v = mk("exc", v.a[0], ())
            out.append(("raise", s, v, node))
        return out

    def s_Break(self, node, st, fr):
        return [("break", st, None, node)]

    def s_Continue(self, node, st, fr):
        return [("continue", st, None, node)]

    def s_Assert(self, node, st, fr):
        return [("normal", s, None, None) for s, b in self.cond(node.test, st, fr) if b]

    def s_If(self, node, st, fr):
        out = []
        for s, b in self.cond(node.test, st, fr):
            out.extend(self.exec_block(node.body if b else node.orelse, s, fr))
        return out

    def s_Match(self, node, st, fr):
        out = []
        for s, v in self.eval(node.subject, st, fr):
            states = [s]
            for case in node.cases:
                nxt = []
                for s1 in states:
                    for s2, b in self.match_pat(case.pattern, v, s1, fr):
                        if not b:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.cond(case.guard, s2, fr):
                                if g:
                                    out.extend(self.exec_block(case.body, s3, fr))
                                else:
                                    nxt.append(s3)
                        else:
                            out.extend(self.exec_block(case.body, s2, fr))
                states = nxt
            out.extend(("normal", s2, None, None) for s2 in states)
        return out

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            r = []
            for s, c in self.eval(p.value, st, fr):
                r.extend(self.branch(mk("cmp", "==", v, c), s))
            return r
        if isinstance(p, ast.MatchSingleton):
            return self.branch(mk("cmp", "is", v, const(p.value)), st)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.env[p.name] = v
            return [(st, True)]
        if isinstance(p, ast.MatchOr):
            outs = []
            states = [st]
            for q in p.patterns:
                nxt = []
                for s in states:
                    for s2, b in self.match_pat(q, v, s, fr):
                        if b:
                            outs.append((s2, True))
                        else:
                            nxt.append(s2)
                states = nxt
            return outs + [(s, False) for s in states]
        return [(st.copy(), True), (st, False)]

    def s_FunctionDef(self, node, st, fr):
        fi = FuncInfo(fr.module, None, node)
        t = self.closure(node, st, fr, fi)
        self.closures[t].env[node.name] = t
        v = t
        for d in reversed(fi.decorators):
            for s, dv in self.eval(d, st, fr):
                if dv.op in ("closure",) or (dv.op == "glob" and self.prog.resolve(dv.a[0])[0] == "func"):
                    r = self.call_value(s, dv, [v], (), node, fr)
                    if len(r) == 1:
                        self.absorb(st, r[0][0])
                        v = r[0][1]
                break
        st.env[node.name] = v
        return [("normal", st, None, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, node, st, fr):
        st.env[node.name] = self.unk(node, "localclass")
        return [("normal", st, None, None)]

    # with -------------------------------------------------------------------
    def s_With(self, node, st, fr):
        return self.with_items(node, list(node.items), st, fr)

    s_AsyncWith = s_With

    def with_items(self, node, items, st, fr):
        if not items:
            return self.exec_block(node.body, st, fr)
        item, rest = items[0], items[1:]
        out = []
        for s, v in self.eval(item.context_expr, st, fr):
            base = strip_ver(v)
            if base.op == "ctxcall":
                out.extend(self.ctx_inline(node, item, rest, base, s, fr))
                continue
            is_lock = self.is_lock(base, s)
            if is_lock:
                s.locks = s.locks + (base,)
                self.emit(s, "acq", node, fr, base)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, base, s, fr, node)
                for kind, s2, rv, nd in self.with_items(node, rest, s, fr):
                    l = list(s2.locks)
                    l.reverse()
                    if base in l:
                        l.remove(base)
                    l.reverse()
                    s2.locks = tuple(l)
                    self.emit(s2, "rel", node, fr, base)
                    out.append((kind, s2, rv, nd))
                continue
            cls = self.type_of(base, s)
            if cls is not None and cls.find("__enter__") and cls.find("__exit__"):
                for s1, ev in self.call_method(s, base, "__enter__", [], (), item.context_expr, fr):
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, ev, s1, fr, node)
                    for kind, s2, rv, nd in self.with_items(node, rest, s1, fr):
                        ea = [NONE, NONE, NONE] if kind != "raise" else [mk("attr", rv, "__class__"), rv, self.unk(node, "tb")]
                        for s3, r in self.call_method(s2, base, "__exit__", ea, (), node, fr):
                            if kind == "raise":
                                for s4, b in self.branch(r, s3):
                                    out.append(("normal", s4, None, None) if b else (kind, s4, rv, nd))
                            else:
                                out.append((kind, s3, rv, nd))
                continue
            if item.optional_vars is not None:
                self.assign(item.optional_vars, mk("entered", base) if base.op != "call" or base.a[0] not in ("open",) else base, s, fr, node)
            supp = base.op == "call" and base.a[0] == "contextlib.suppress"
            if supp:
                s.tries = s.tries + (tuple(self.clsname(x) for x in base.a[1]),)
            for kind, s2, rv, nd in self.with_items(node, rest, s, fr):
                if supp:
                    s2.tries = s2.tries[:-1]
                    if kind == "raise":
                        m = self.exc_match(rv, [self.clsname(x) for x in base.a[1]], s2)
                        if m != "no":
                            self.emit(s2, "swallow", node, fr, rv)
                            out.append(("normal", s2, None, None))
                            continue
                if kind in ("normal", "return", "break", "continue"):
                    self.emit(s2, "exitctx", node, fr, base)
                out.append((kind, s2, rv, nd))
        return out

    def is_lock(self, t, st):
        if t.op == "init":
            c = self.type_of(t.a[0], st)
            if c:
                for p in self.init_state(c) or ():
                    for (o, n), v in p.st.fields.items():
                        if n == t.a[1] and v.op == "call" and v.a[0].split(".")[-1] in ("RLock", "Lock"):
                            return True
        if t.op == "call" and t.a[0].split(".")[-1] in ("RLock", "Lock"):
            return True
        return False

    def ctx_inline(self, node, item, rest, cc, st, fr):
        r = self.prog.resolve(cc.a[0])
        if r[0] != "func" or fr.depth >= self.policy.max_depth:
            return self.with_items(node, rest, st, fr)
        fi = r[1]
        uenv = st.env
        self.inlined.add(fi.qual)

        def hook(s, v):
            s.env = dict(uenv)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, s, fr, node)
            res = []
            for kind, s2, rv, nd in self.with_items(node, rest, s, fr):
                hook.env = s2.env
                res.append((kind, s2, rv, nd) if kind != "normal" else ("normal", self.stash(s2), rv, nd))
            return res

        env = {}
        self.bind_params(fi.node.args, list(cc.a[1]), cc.a[2], env, env, st, Frame(fi, fi.module, fi.cls, fr.depth))
        st.env = env
        nfr = Frame(fi, fi.module, fi.cls, fr.depth + 1, hook=hook)
        out = []
        for kind, s, rv, nd in self.exec_block(fi.node.body, st, nfr):
            if kind in ("normal", "return"):
                s.env = self.unstash(s, uenv)
                out.append(("normal", s, None, None))
            elif kind == "outer":
                k2, v2, n2, env2 = rv
                s.env = dict(env2)
                out.append((k2, s, v2, n2))
            elif kind == "raise":
                s.env = dict(uenv)
                out.append((kind, s, rv, nd))
        return out

    def stash(self, s):
        s.setfield(mk("ctxenv"), "env", mk("unk", "env", ""))
        self._stashed = getattr(self, "_stashed", {})
        key = mk("envkey", len(self._stashed))
        self._stashed[key] = s.env
        s.setfield(mk("ctxenv"), "env", key)
        return s

    def unstash(self, s, dflt):
        k = s.fields.get((mk("ctxenv"), "env"))
        if k is not None and k in getattr(self, "_stashed", {}):
            return dict(self._stashed[k])
        return dict(dflt)

    # try --------------------------------------------------------------------
    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            self.sinks.append([])
            r = self.eval(t, st.copy(), fr)
            self.sinks.pop()
            v = r[0][1] if r else None
            if v is not None and v.op == "glob":
                out.append(v.a[0])
            elif v is not None and v.op == "alloc":
                out.append("Exception")
            else:
                out.append(ast.unparse(t))
        return out

    def exc_match(self, e, names, st):
        if any(n in ("Exception", "BaseException") for n in names):
            return "yes"
        cn = e.a[0] if e.op == "exc" else "?"
        if cn == "?":
            return "maybe"
        r = self.prog.resolve(cn)
        anc = r[1].ancestors() if r[0] == "class" else [cn] + list(EXC_PARENTS.get(cn, ()))
        full = set(anc)
        for a in list(anc):
            full |= set(EXC_PARENTS.get(a, ()))
        for n in names:
            if n in full or n.split(".")[-1] in full:
                return "yes"
        # a handler for a subclass may or may not match (KeyError thrown as LookupError never happens here)
        for n in names:
            rr = self.prog.resolve(n)
            sub = rr[1].ancestors() if rr[0] == "class" else [n] + list(EXC_PARENTS.get(n, ()))
            if cn in sub:
                return "maybe"
        return "no"

    def s_Try(self, node, st, fr):
        hnames = [self.handler_names(h, st, fr) for h in node.handlers]
        tries_ = st.tries
        st.tries = st.tries + (tuple(n.split(".")[-1] for hs in hnames for n in hs),)
        body = self.exec_block(node.body, st, fr)
        mid = []
        for kind, s, v, nd in body:
            s.tries = tries_
            if kind == "normal":
                mid.extend(self.exec_block(node.orelse, s, fr) if node.orelse else [(kind, s, v, nd)])
            elif kind == "raise":
                states = [s]
                for h, names in zip(node.handlers, hnames):
                    nxt = []
                    for s1 in states:
                        m = self.exc_match(v, names, s1)
                        if m == "no":
                            nxt.append(s1)
                            continue
                        s2 = s1.copy() if m == "maybe" else s1
                        if m == "maybe":
                            nxt.append(s1)
                        if h.name:
                            s2.env[h.name] = v
                        s2.exc = s2.exc + (v,)
                        self.emit(s2, "handler", h, fr, v, mk("glob", ",".join(names)))
                        for k3, s3, v3, n3 in self.exec_block(h.body, s2, fr):
                            s3.exc = s3.exc[:-1]
                            if h.name:
                                s3.env.pop(h.name, None)
                            if k3 != "raise":
                                self.emit(s3, "handled", h, fr, v)
                            mid.append((k3, s3, v3, n3))
                    states = nxt
                for s1 in states:
                    mid.append(("raise", s1, v, nd))
            else:
                mid.append((kind, s, v, nd))
        if not node.finalbody:
            return mid
        out = []
        for kind, s, v, nd in mid:
            for k2, s2, v2, n2 in self.exec_block(node.finalbody, s, fr):
                if k2 == "normal":
                    out.append((kind, s2, v, nd))
                else:
                    out.append((k2, s2, v2, n2))
        return out

    s_TryStar = s_Try

    # loops --------------------------------------------------------------------
    def assigned_names(self, body):
        key = ("an", id(body))
        if key in self.assign_cache:
            return self.assign_cache[key][1]
        names = set()
        for stmt in body:
            stack = [stmt]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    if isinstance(n, ast.FunctionDef):
                        names.add(n.name)
                    continue
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                stack.extend(ast.iter_child_nodes(n))
        self.assign_cache[key] = (body, names)
        return names

    def assigned_fields(self, body, fr, seen=None):
        """Fields of self assigned in a loop body, through self-method calls."""
        seen = seen if seen is not None else set()
        out = set()
        for stmt in body:
            for n in ast.walk(stmt):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and fr.cls:
                    f = fr.cls.find(n.func.attr)
                    if f and f.qual not in seen:
                        seen.add(f.qual)
                        out |= self.assigned_fields(f.node.body, Frame(f, f.module, f.cls, 0), seen)
        return out

    def touched_locals(self, body):
        """Names that may be mutated in place in a loop body (receiver of a method, stored into, or passed)."""
        key = ("tl", id(body))
        if key in self.assign_cache:
            return self.assign_cache[key][1]
        names = set()
        for stmt in body:
            for n in ast.walk(stmt):
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
                        names.add(n.func.value.id)
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(a, ast.Name) and not (isinstance(n.func, ast.Name) and n.func.id in PURE_BUILTINS):
                            names.add(a.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        names.add(b.id)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    names.add(n.target.id)
        self.assign_cache[key] = (body, names)
        return names

    def only_augmented(self, body, name):
        """All assignments to name in body are += (or |=) statements."""
        key = ("oa", id(body), name)
        if key not in self.assign_cache:
            stores, aug = 0, 0
            for stmt in body:
                for n in ast.walk(stmt):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                        stores += 1
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name and isinstance(n.op, (ast.Add, ast.BitOr)):
                        aug += 1
            self.assign_cache[key] = (body, stores == aug)
        return self.assign_cache[key][1]

    def counter_step(self, body, name):
        """True when the only assignment to name in body is one unconditional += 1 at top level (last or anywhere, no continue before)."""
        hits = []
        for stmt in body:
            for n in ast.walk(stmt):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    hits.append(n)
        if len(hits) != 1:
            return False
        for stmt in body:
            if isinstance(stmt, ast.AugAssign) and isinstance(stmt.target, ast.Name) and stmt.target.id == name and isinstance(stmt.op, ast.Add) and isinstance(stmt.value, ast.Constant) and stmt.value.value == 1:
                return True
            if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name) and stmt.targets[0].id == name:
                v = stmt.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == name and isinstance(v.right, ast.Constant) and v.right.value == 1:
                    return True
            if any(isinstance(n, ast.Continue) for n in ast.walk(stmt)):
                return False
        return False

    def set_when_leaving(self, node, body, name):
        """True when every assignment to name in the loop is followed by leaving the loop, so it still has its old value at the start of any iteration."""
        key = ("lv", id(body), name)
        if key in self.assign_cache:
            return self.assign_cache[key][1]

        def stores(n):
            return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(n))

        def leaves(stmts):
            return bool(stmts) and isinstance(stmts[-1], (ast.Break, ast.Return, ast.Raise))

        def ok(stmts, inner):
            if leaves(stmts) and not (inner and isinstance(stmts[-1], ast.Break)) and not any(isinstance(x, ast.Continue) for s in stmts for x in ast.walk(s)):
                return True
            for s in stmts:
                if not stores(s):
                    continue
                if isinstance(s, ast.If):
                    if stores(s.test) or not ok(s.body, inner) or not ok(s.orelse, inner):
                        return False
                elif isinstance(s, (ast.For, ast.While)):
                    head = s.target if isinstance(s, ast.For) else s.test
                    if stores(head) or not ok(s.body, True) or not ok(s.orelse, inner):
                        return False
                elif isinstance(s, ast.With):
                    if any(stores(i) for i in s.items) or not ok(s.body, inner):
                        return False
                else:
                    return False
            return True
        r = not (isinstance(node, ast.For) and stores(node.target)) and ok(body, False)
        self.assign_cache[key] = (body, r)
        return r

    def havoc(self, st, node, fr, key, body):
        site = fr.module.name + ":" + self.site(node)
        for n in self.assigned_names(body):
            if n in st.env:
                if self.set_when_leaving(node, body, n):
                    continue
                old = st.env[n]
                if old.op == "alloc" and old in st.heap and old.a[0] in ("list", "set", "dict") and self.only_augmented(body, n):
                    continue                                  # += changes a list in place
                if is_const(old) and isinstance(cval(old), int) and not isinstance(cval(old), bool) and key is not None and self.counter_step(body, n):
                    st.env[n] = mk("idx", *key) if cval(old) == 0 else mk("bin", "+", mk("idx", *key), old)
                else:
                    st.env[n] = mk("phi", site, n, old)
        me = None
        if fr.fn is not None and fr.fn.node.args.args:
            me = st.env.get(fr.fn.node.args.args[0].arg)
        if me is not None and self.type_of(me, st) is not None:
            for f in self.assigned_fields(body, fr):
                old = st.fields.get((me, f), mk("init", me, f))
                if old.op != "phi" or old.a[0] != site:
                    st.setfield(me, f, mk("phi", site, "self." + f, old))
        for n in self.touched_locals(body):
            v = st.env.get(n)
            if v is not None and v.op == "alloc" and v in st.heap and v.a[0] != "obj":
                c = st.heap[v]
                if len(c.loops) <= len(st.loops) and not any(e.tag == "prev" and e.node is node for e in c.entries):
                    st.setheap(v, c.with_(entries=c.entries + (Entry("prev", None, mk("unk", "prev", site), None, node),)))

    def s_For(self, node, st, fr):
        out = []
        for s, it in self.eval(node.iter, st, fr):
            out.extend(self.for_over(node, s, it, fr))
        return out

    s_AsyncFor = s_For

    def for_over(self, node, st, it, fr):
        mode = self.iter_elems(it, st, node, fr)
        out = []
        if mode[0] == "unroll":
            states = [st]
            for e in mode[1]:
                nxt = []
                for s in states:
                    self.assign(node.target, e, s, fr, node)
                    for kind, s2, v, nd in self.exec_block(node.body, s, fr):
                        if kind in ("normal", "continue"):
                            nxt.append(s2)
                        elif kind == "break":
                            out.append(("normal", s2, None, None))
                        else:
                            out.append((kind, s2, v, nd))
                states = nxt
            for s in states:
                out.extend(self.exec_block(node.orelse, s, fr) if node.orelse else [("normal", s, None, None)])
            return out
        key, elems = mode[1], mode[2]
        root = key[0]
        outer_loops = st.loops
        # no iteration
        z = st.copy()
        if self.assume(*self.nonempty_atom(self.vroot(root, z), z, False)):
            out.extend(self.exec_block(node.orelse, z, fr) if node.orelse else [("normal", z, None, None)])
        # the witness iteration
        for conds, e in elems:
            s = st.copy()
            if not self.assume(*self.nonempty_atom(self.vroot(root, s), s, True)):
                continue
            self.havoc(s, node, fr, key, node.body)
            carried = self.carried(s, node, fr)
            s.loops = s.loops + (key,)
            if not all(self.assume(c, p, s) for c, p in conds):
                continue
            self.emit(s, "iter", node, fr, root, strip_ver(it))
            self.assign(node.target, e, s, fr, node)
            for kind, s2, v, nd in self.exec_block(node.body, s, fr):
                self.note_iteration(kind, s2, node, fr, key, carried, e, v)
                if kind in ("normal", "continue"):
                    s2.loops = outer_loops
                    self.emit(s2, "iterend", node, fr, root)
                    out.extend(self.exec_block(node.orelse, s2, fr) if node.orelse else [("normal", s2, None, None)])
                elif kind == "break":
                    s2.loops = outer_loops
                    self.emit(s2, "breakout", node, fr, root)
                    out.append(("normal", s2, None, None))
                else:
                    out.append((kind, s2, v, nd))
        return out

    def carried(self, s, node, fr):
        """Values the names assigned in a loop body have at the start of the arbitrary iteration."""
        if not self.policy.iterations:
            return None
        return {n: s.env[n] for n in self.assigned_names(node.body) if n in s.env}

    def note_iteration(self, kind, s, node, fr, key, carried, elem, val=None):
        if self.policy.iterations:
            self.iterations.append(Iteration(kind, s.copy(), node, fr, key, carried, elem, val))

    def vroot(self, root, st):
        return self.vterm(root, st)

    def s_While(self, node, st, fr):
        out = []
        outer = st.loops
        key = None
        # while i < len(X): canonical witness index
        t = node.test
        root = mk("while", fr.module.name + ":" + self.site(node))
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt,)) and isinstance(t.left, ast.Name):
            s0 = st.copy()
            self.sinks.append([])
            r = self.eval(t.comparators[0], s0, fr)
            self.sinks.pop()
            if len(r) == 1 and r[0][1].op == "call" and r[0][1].a[0] == "len" and is_const(st.env.get(t.left.id, NONE)) and cval(st.env[t.left.id]) == 0 and self.counter_step(node.body, t.left.id):
                root = strip_ver(r[0][1].a[1][0])
        key = self.loopkey(root, st)
        # no iteration
        z = st.copy()
        entered = False
        for s, b in self.cond(node.test, z, fr):
            if not b:
                if root.op != "while" and not self.assume(*self.nonempty_atom(self.vroot(root, s), s, False)):
                    continue
                self.note_iteration("skip", s, node, fr, key, {}, None)
                out.extend(self.exec_block(node.orelse, s, fr) if node.orelse else [("normal", s, None, None)])
            else:
                entered = True
        if not entered:
            return out
        s = st.copy()
        self.havoc(s, node, fr, key, node.body)
        carried = self.carried(s, node, fr)
        s.loops = s.loops + (key,)
        if root.op != "while":
            self.assume(*self.nonempty_atom(self.vroot(root, s), s, True))
        for s1, b in self.cond(node.test, s, fr):
            if not b:
                continue
            self.emit(s1, "iter", node, fr, root)
            for kind, s2, v, nd in self.exec_block(node.body, s1, fr):
                self.note_iteration(kind, s2, node, fr, key, carried, None)
                if kind in ("normal", "continue"):
                    s2.loops = outer
                    self.emit(s2, "iterend", node, fr, root)
                    infinite = isinstance(node.test, ast.Constant) and bool(node.test.value)
                    if infinite:
                        continue
                    done = False
                    for s3, b3 in self.cond(node.test, s2.copy(), fr):
                        if not b3:
                            done = True
                            self.note_iteration("exit", s3, node, fr, key, carried, None)
                            out.extend(self.exec_block(node.orelse, s3, fr) if node.orelse else [("normal", s3, None, None)])
                elif kind == "break":
                    s2.loops = outer
                    self.emit(s2, "breakout", node, fr, root)
                    out.append(("normal", s2, None, None))
                else:
                    out.append((kind, s2, v, nd))
        return out


class InitPolicy(Policy):
    construct = ()
    max_depth = 6


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
        ast.In: "in", ast.NotIn: "not in"}
LOADS = {
    ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
    ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
    ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()),
}
PURE_NOTNONE = {"len", "str", "int", "float", "list", "dict", "set", "tuple", "sorted", "range", "enumerate", "zip", "bool", "abs", "sum",
                "uuid.uuid4", "numpy.array", "isinstance", "any", "all", "open", "hash", "repr", "round"}
BOOL_CALLS = {"isinstance", "any", "all", "bool", "hasattr", "callable", ".startswith", ".endswith", ".exists", ".is_file", "os.path.exists"}
