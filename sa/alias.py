"""Which caller-owned or object-owned mutable values a term may share memory with."""
import ast

from .prog import ClassInfo
from .terms import NONE, cval, is_const, mk, norm, show, strip_ver

# results share memory with the first argument / receiver
VIEW_CALLS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze",
    "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.expand_dims", "numpy.broadcast_to", "numpy.asfarray", "numpy.swapaxes",
    "numpy.require", "numpy.split", "numpy.array_split", "memoryview", "typing.cast",
    ".reshape", ".ravel", ".view", ".squeeze", ".transpose", ".swapaxes", ".setdefault",
}
# results are new containers that share their elements with the first argument / receiver
SHALLOW_CALLS = {".copy", "copy.copy", "dict", "list", "tuple", "set", "sorted", "reversed", "iter", "next", ".values", ".items", "enumerate",
                 "zip", "filter", "collections.OrderedDict", "collections.deque", "frozenset", "collections.ChainMap", "itertools.chain", "itertools.islice"}
VIEW_ATTRS = {"T", "flat", "real", "imag", "base"}

IMM_NAMES = {"str", "int", "float", "bool", "bytes", "complex", "None", "Path", "type", "Callable"}
MUT_NAMES = {"ndarray", "Dict", "dict", "List", "list", "Set", "set", "bytearray", "DefaultDict", "defaultdict", "OrderedDict", "Deque", "deque", "Sequence", "Mapping", "Iterable"}


def ann_head(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None, []
    if isinstance(a, ast.Subscript):
        h = a.value
        n = h.id if isinstance(h, ast.Name) else getattr(h, "attr", None)
        args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return n, list(args)
    if isinstance(a, ast.Constant) and a.value is None:
        return "None", []
    if isinstance(a, ast.Name):
        return a.id, []
    if isinstance(a, ast.Attribute):
        return a.attr, []
    if isinstance(a, ast.BinOp):
        n, args = ann_head(a.left)
        m, args2 = ann_head(a.right)
        return (m, args2) if n == "None" else (n, args)
    return None, []


def ann_elem(a):
    """Annotation of an element of a value annotated a (None when unknown)."""
    n, args = ann_head(a)
    if n == "Optional" and args:
        return ann_elem(args[0])
    if n == "Union" and args:
        return ann_elem([x for x in args if ann_head(x)[0] != "None"][0])
    if n == "ndarray":
        return a
    if n in MUT_NAMES and args:
        return args[-1]
    if n in ("Tuple", "tuple") and args:
        return args[0]
    return None


def ann_kind(a):
    """'imm' | 'mut' | 'any' (may be mutable) | None."""
    n, args = ann_head(a) if a is not None else (None, [])
    if n == "Optional" and args:
        return ann_kind(args[0])
    if n == "Union" and args:
        ks = {ann_kind(x) for x in args}
        return "imm" if ks <= {"imm"} else "mut" if "mut" in ks else None
    if n in IMM_NAMES:
        return "imm"
    if n in MUT_NAMES:
        return "mut"
    if n in ("Any", "object"):
        return "any"
    return None


class Aliases:
    def __init__(self, prog, cls, fi):
        self.prog, self.cls, self.fi = prog, cls, fi
        a = fi.node.args
        self.params = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.fields = {}

    def field_ann(self, f):
        if f in self.fields:
            return self.fields[f]
        r = None
        for c in self.cls.mro() if self.cls else ():
            if not isinstance(c, ClassInfo):
                continue
            for fi in c.methods.values():
                anns = {x.arg: x.annotation for x in fi.node.args.args if x.annotation is not None}
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == f:
                        r = r or n.annotation
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in anns and fi.name == "__init__":
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == f:
                                r = r or anns[n.value.id]
        self.fields[f] = r
        return r

    def ann(self, t):
        """Annotation of the value denoted by a reference term."""
        t = strip_ver(t)
        if t.op == "param":
            return self.params.get(t.a[0])
        if t.op == "init":
            return self.field_ann(t.a[1]) if t.a[0].op == "self" else None
        if t.op in ("item", "get"):
            return ann_elem(self.ann(t.a[0])) if self.ann(t.a[0]) is not None else None
        if t.op == "slice":
            return self.ann(t.a[0])
        if t.op == "attr" and t.a[1] in VIEW_ATTRS:
            return self.ann(t.a[0])
        return None

    def kind(self, t):
        return ann_kind(self.ann(t))

    def roots(self, t, heap, shallow=False, seen=None):
        """Reference terms (rooted in a parameter or a field) the value may share mutable memory with."""
        seen = seen if seen is not None else set()
        t = strip_ver(t)
        if (t, shallow) in seen:
            return set()
        seen.add((t, shallow))
        R = lambda x, s=shallow: self.roots(x, heap, s, seen)
        o = t.op
        if o in ("param", "init"):
            if shallow:
                e = ann_elem(self.ann(t)) if self.ann(t) is not None else None
                n, _ = ann_head(self.ann(t)) if self.ann(t) is not None else (None, [])
                if n == "ndarray" or e is None or ann_kind(e) in ("imm", None, "any"):
                    return set()
                return {mk("item", t, mk("anyelem"))}
            return {t} if self.kind(t) != "imm" else set()
        if o in ("item", "get"):
            if shallow:
                a = self.ann(t)
                e = ann_elem(a) if a is not None else None
                if e is None or ann_head(a)[0] == "ndarray" or ann_kind(e) in ("imm", None, "any"):
                    out = set()
                else:
                    out = {mk("item", t, mk("anyelem"))}
            else:
                b = strip_ver(t.a[0])
                if b.op in ("param", "init", "item", "get", "attr", "slice"):
                    rs = R(b)
                    out = {t} if rs and self.kind(t) != "imm" else set()
                elif b.op == "alloc":
                    out = R(b)
                elif b.op == "comp":
                    out = set()
                    for _, v in b.a[2]:
                        out |= R(v)
                elif b.op == "call" and b.a[0] in SHALLOW_CALLS and b.a[1]:
                    out = self.roots(b.a[1][0], heap, True, seen)
                elif b.op == "call" and b.a[0] in VIEW_CALLS and b.a[1]:
                    out = R(b)
                else:
                    out = set()
            if o == "get" and len(t.a) > 2:
                out |= R(t.a[2])
            return out
        if o == "slice":
            b = strip_ver(t.a[0])
            n = ann_head(self.ann(b))[0] if self.ann(b) is not None else None
            if n == "ndarray":
                return R(b)
            if b.op == "comp" or b.op == "alloc" or b.op == "call":
                return R(b)
            return self.roots(b, heap, True, seen)
        if o == "attr":
            if t.a[1] in VIEW_ATTRS:
                return R(t.a[0])
            return set()
        if o == "tuple":
            return set().union(*[R(x, False) for x in t.a]) if t.a else set()
        if o == "alloc":
            c = heap.get(t)
            out = set()
            if c is not None:
                for e in c.entries:
                    if e.tag == "prev" or e.val is None:
                        continue
                    if e.tag == "rest":
                        out |= self.roots(e.val, heap, True, seen)
                        continue
                    out |= R(e.val, False)
                if c.src is not None and hasattr(c.src, "op"):
                    out |= self.roots(c.src, heap, True, seen)
            return out
        if o == "comp":
            out = set()
            for _, v in t.a[2]:
                out |= R(v, False)
            return out
        if o in ("phi", "ifexp"):
            out = set()
            for x in t.a:
                if hasattr(x, "op"):
                    out |= R(x)
            return out
        if o == "call":
            n, a = t.a[0], t.a[1]
            kw = dict(t.a[2])
            if n in VIEW_CALLS and a:
                return R(a[0])
            if n in ("numpy.array", ".astype") and a and "copy" in kw and not (is_const(kw["copy"]) and cval(kw["copy"]) is True):
                return R(a[0])
            if n in SHALLOW_CALLS and a:
                out = set()
                for x in a:
                    out |= self.roots(x, heap, True, seen)
                return out
            return set()
        return set()
