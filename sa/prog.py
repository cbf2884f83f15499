"""Program model: parse every module of the package under analysis, resolve
imports and re-exports, class tables and method resolution orders.

Nothing from the analysed package is imported or executed; only its source is read.
"""
from __future__ import annotations

import ast
import hashlib
import os


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable file...)."""


class FuncInfo:
    __slots__ = ("module", "cls", "node", "name", "qual", "decorators", "is_gen", "kind")

    def __init__(self, module, cls, node):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name
        self.qual = (cls.qual + "." if cls else module.name + ".") + node.name
        self.kind = "method" if cls else "func"
        self.decorators = []
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                self.kind = d.id
            else:
                name = dotted_expr(d if not isinstance(d, ast.Call) else d.func)
                if name and name.split(".")[-1] in ("abstractmethod", "wraps", "lru_cache", "cache", "override"):
                    continue
                self.decorators.append(d)
        self.is_gen = has_yield(node)

    def __repr__(self):
        return f"<func {self.qual}>"


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def dotted_expr(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None


class ClassInfo:
    def __init__(self, module, node, prog):
        self.module = module
        self.node = node
        self.prog = prog
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.base_exprs = [dotted_expr(b) for b in node.bases]
        self.methods = {}
        self.class_attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(module, self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.class_attrs[st.target.id] = st.value
        self._mro = None

    def mro(self):
        """Package classes in method-resolution order (single inheritance chains here),
        followed by dotted names of external bases as strings."""
        if self._mro is None:
            out = [self]
            for b in self.base_exprs:
                if b is None:
                    continue
                r = self.prog.resolve_in(self.module, b)
                if r[0] == "class":
                    for c in r[1].mro():
                        if c not in out:
                            out.append(c)
                elif r[1] not in out:
                    out.append(r[1])
            self._mro = out
        return self._mro

    def ancestors(self):
        return [c.qual if isinstance(c, ClassInfo) else c for c in self.mro()]

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, name, after):
        seen = False
        for c in self.mro():
            if seen and isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, src, prog, is_pkg):
        self.name = name
        self.path = path
        self.prog = prog
        self.is_pkg = is_pkg
        self.src = src
        self.tree = ast.parse(src, path)
        self.names = {}       # local name -> ('class',ci)|('func',fi)|('import',dotted)|('const',expr)
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", ClassInfo(self, st, self.prog))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", FuncInfo(self, None, st))
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(st).items():
                    self.names.setdefault(k, ("import", v))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("const", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("const", st.value)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    hb = {}
                    self_names = self.names
                    self.names = {}
                    self._scan(h.body)
                    hb, self.names = self.names, self_names
                    for k, v in hb.items():
                        self.names.setdefault(k, v)
                self._scan(st.orelse)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)

    def import_bindings(self, st):
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                if st.level > 1:
                    parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                out[a.asname or a.name] = base + "." + a.name
        return out


class Program:
    def __init__(self, root, package="valori"):
        self.root = root
        self.package = package
        self.modules = {}
        pkgdir = os.path.join(root, "src", package)
        if not os.path.isdir(pkgdir):
            raise AnalysisError(f"package directory {pkgdir} not found")
        h = hashlib.sha256()
        for d, dirs, files in os.walk(pkgdir):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(root, "src"))[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                h.update(src.encode())
                try:
                    self.modules[rel] = Module(rel, p, src, self, is_pkg)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {p}: {e}")
        self.digest = h.hexdigest()

    # ------------------------------------------------------------------
    def resolve(self, dotted, depth=0):
        """dotted global name -> ('class',ci)|('func',fi)|('mod',m)|('const',m,expr)|('ext',dotted)"""
        if depth > 12:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("mod", self.modules[dotted])
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            r = self.resolve(head, depth + 1)
            if r[0] == "mod":
                m = r[1]
                if tail in m.names:
                    k = m.names[tail]
                    if k[0] == "import":
                        return self.resolve(k[1], depth + 1)
                    if k[0] == "const":
                        return ("const", m, k[1])
                    return k
                sub = m.name + "." + tail
                if sub in self.modules:
                    return ("mod", self.modules[sub])
                return ("ext", dotted)
            if r[0] == "class":
                f = r[1].find(tail)
                if f:
                    return ("func", f)
                return ("ext", dotted)
            if r[0] == "ext":
                return ("ext", r[1] + "." + tail)
        return ("ext", dotted)

    def resolve_in(self, module, name):
        head = name.split(".")[0]
        rest = name.split(".")[1:]
        if head in module.names:
            k = module.names[head]
            if k[0] == "import":
                return self.resolve(".".join([k[1]] + rest))
            if not rest:
                return k if k[0] != "const" else ("const", module, k[1])
            if k[0] == "class" and len(rest) == 1:
                f = k[1].find(rest[0])
                if f:
                    return ("func", f)
        return ("ext", name)

    # ------------------------------------------------------------------
    def all_classes(self):
        for m in self.modules.values():
            for k in m.names.values():
                if k[0] == "class" and k[1].module is m:
                    yield k[1]

    def all_funcs(self):
        for m in self.modules.values():
            for k in m.names.values():
                if k[0] == "func" and k[1].module is m:
                    yield k[1]
                elif k[0] == "class" and k[1].module is m:
                    yield from k[1].methods.values()

    def cls(self, name):
        """Anchor lookup of a public class, by public name (wherever it is defined)."""
        hits = [c for c in self.all_classes() if c.name == name]
        if not hits:
            raise AnalysisError(f"anchor class {name} not found in {self.package}")
        if len(hits) > 1:
            pub = [c for c in hits if not c.name.startswith("_")]
            hits = pub or hits
        return hits[0]

    def method(self, cname, mname):
        c = self.cls(cname)
        f = c.find(mname)
        if f is None:
            raise AnalysisError(f"anchor method {cname}.{mname} not found")
        return c, f

    def func(self, name):
        hits = [f for f in self.all_funcs() if f.cls is None and f.name == name]
        if not hits:
            raise AnalysisError(f"anchor function {name} not found in {self.package}")
        return hits[0]

    def subclasses(self, cname):
        base = self.cls(cname)
        return sorted((c for c in self.all_classes() if c is not base and base in c.mro()), key=lambda c: c.qual)

    def is_subclass(self, qual, ancestor):
        r = self.resolve(qual)
        if r[0] == "class":
            return ancestor in r[1].ancestors()
        return qual == ancestor
