"""Developer tool: behaviour-preserving rewrites of /repo's source; every check has to stay quiet on them.
   python3 tools/refactor.py [NAME ...] [--test] [--props C01,C02]     (works in scratch copies under /tmp)"""
import ast
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p="t"):
        Base.n += 1
        return f"_{p}{Base.n}"


class Plain(Base):
    pass


class Rename(Base):
    """Rename local variables of every function (parameters and comprehension variables excluded)."""

    def visit_FunctionDef(self, f):
        params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        bound = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        inner = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f:
                inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                inner |= set(n.names)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in bound - params - inner:
                n.id += "_v"
        return f


class Negate(Base):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(ast.Not(), n.test), body=n.orelse, orelse=n.body)
        return n


class EarlyElse(Base):
    """if c: ...return/raise; rest  ->  if c: ... else: rest"""

    def block(self, b):
        out = []
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for n in ast.walk(f):
            for k in ("body",):
                b = getattr(n, k, None)
                if isinstance(b, list) and isinstance(n, (ast.FunctionDef, ast.Try, ast.With)):
                    setattr(n, k, self.block(b))
        return f


class EnumRange(Base):
    """for i, x in enumerate(xs)  ->  for i in range(len(xs)): x = xs[i]"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.iter.args[0], ast.Name) and isinstance(n.target.elts[0], ast.Name):
            xs = n.iter.args[0]
            i = n.target.elts[0]
            return ast.For(target=i, iter=ast.parse(f"range(len({xs.id}))", mode="eval").body,
                           body=[ast.Assign(targets=[n.target.elts[1]], value=ast.parse(f"{xs.id}[{i.id}]", mode="eval").body)] + n.body, orelse=n.orelse)
        return n


class EnumCounter(Base):
    """for i, x in enumerate(xs): B  ->  i = -1; for x in xs: i += 1; B"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i = n.target.elts[0].id
            return [ast.parse(f"{i} = -1").body[0], ast.For(target=n.target.elts[1], iter=n.iter.args[0], body=[ast.parse(f"{i} += 1").body[0]] + n.body, orelse=n.orelse)]
        return n


class Temps(Base):
    """return e -> r = e; return r    x = f(a, g(b)) -> t = g(b); x = f(a, t) (call arguments that are calls)"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        t = self.fresh("r")
        return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=n.value), ast.Return(ast.Name(t, ast.Load()))]

    def stmt(self, n, call):
        pre = []
        if isinstance(call, ast.Call):
            for i, a in enumerate(call.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.JoinedStr)) and all(isinstance(z, (ast.Name, ast.Constant, ast.Attribute)) for z in call.args[:i]):
                    t = self.fresh()
                    pre.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=a))
                    call.args[i] = ast.Name(t, ast.Load())
        return pre + [n]

    def visit_Assign(self, n):
        return self.stmt(n, n.value)

    def visit_Expr(self, n):
        return self.stmt(n, n.value)

    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            t = self.fresh("e")
            return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=n.exc), ast.Raise(exc=ast.Name(t, ast.Load()), cause=n.cause)]
        return n


class GuardHelper(Base):
    """if not self._initialized: raise ...  ->  self._require_ready_N()"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                for i, s in enumerate(f.body):
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Raise) and len(s.body) == 1:
                        names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
                        params = {a.arg for a in f.args.args}
                        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        if "self" not in params:
                            continue
                        use = sorted((names & (params | loc)) - {"self"})
                        h = self.fresh("require")
                        new.append(ast.parse(f"def {h}(self{''.join(', ' + u for u in use)}):\n    pass").body[0])
                        new[-1].body = [s]
                        f.body[i] = ast.parse(f"self.{h}({', '.join(use)})").body[0]
        c.body += new
        return c


class ExprHelper(Base):
    """x = <expression with a call>  ->  x = self._hN(locals)"""

    def visit_ClassDef(self, c):
        new = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__":
                continue
            params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            loc = params | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            imported = {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            bad = {x.id for n in ast.walk(f) if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    if any(isinstance(x, (ast.Lambda, ast.Yield, ast.Await)) for x in ast.walk(n.value)):
                        continue
                    names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    if names & (imported | bad):
                        continue
                    use = sorted((names & loc) - {"self"})
                    h = self.fresh("h")
                    g = ast.parse(f"def {h}(self{''.join(', ' + u for u in use)}):\n    return 0").body[0]
                    g.body[0].value = n.value
                    new.append(g)
                    n.value = ast.parse(f"self.{h}({', '.join(use)})", mode="eval").body
        c.body += new
        return c


class LoopBodyHelper(Base):
    """Body of a for loop without break/continue/return/assignments used outside  ->  a method"""

    def visit_ClassDef(self, c):
        new = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__":
                continue
            params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            imported = {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            loc = params | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for n in list(ast.walk(f)):
                if not isinstance(n, ast.For):
                    continue
                inside = [x for s in n.body for x in ast.walk(s)]
                if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Try)) for x in inside):
                    continue
                tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                stores = {x.id for x in inside if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                used = {x.id for x in inside if isinstance(x, ast.Name)}
                ids = {id(x) for x in inside}
                outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in ids and isinstance(x.ctx, ast.Load)}
                if stores & outside or used & imported or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in inside):
                    continue
                use = sorted((used & loc) - {"self"} - (stores - tgt))
                h = self.fresh("step")
                g = ast.parse(f"def {h}(self{''.join(', ' + u for u in use)}):\n    pass").body[0]
                g.body = n.body
                new.append(g)
                n.body = [ast.parse(f"self.{h}({', '.join(use)})").body[0]]
        c.body += new
        return c


class CompLoop(Base):
    """x = [e for a in b if c]  ->  loop with append"""

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = v.generators[0]
            t = self.fresh("acc")
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))]
            if g.ifs:
                body = [ast.If(test=g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs), body=body, orelse=[])]
            return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=ast.List([], ast.Load())), ast.For(target=g.target, iter=g.iter, body=body, orelse=[]),
                    ast.Assign(targets=n.targets, value=ast.Name(t, ast.Load()))]
        return n


class LockTry(Base):
    """with self.lock: B  ->  self.lock.acquire(); try: B finally: self.lock.release()"""

    def visit_With(self, n):
        self.generic_visit(n)
        e = n.items[0].context_expr
        if len(n.items) == 1 and n.items[0].optional_vars is None and isinstance(e, ast.Attribute) and e.attr == "lock":
            s = ast.unparse(e)
            return [ast.parse(f"{s}.acquire()").body[0], ast.Try(body=n.body, handlers=[], orelse=[], finalbody=[ast.parse(f"{s}.release()").body[0]])]
        return n


class Aug(Base):
    def visit_AugAssign(self, n):
        t = ast.parse(ast.unparse(n.target), mode="eval").body
        if isinstance(n.target, (ast.Name, ast.Attribute)):
            return ast.Assign(targets=[n.target], value=ast.BinOp(t, n.op, n.value))
        return n


class IfExp(Base):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(test=n.value.test, body=[ast.Assign(targets=n.targets, value=n.value.body)], orelse=[ast.Assign(targets=n.targets, value=n.value.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(test=n.value.test, body=[ast.Return(n.value.body)], orelse=[ast.Return(n.value.orelse)])
        return n


class NoOp(Base):
    """A statement that does nothing at the start and end of every function"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if ast.get_docstring(f) is not None else 0
        f.body[k:k] = ast.parse("_unused = 0").body
        f.body.insert(k, ast.Pass())
        return f


class FStr(Base):
    """f"{a}.npy" -> "{}.npy".format(a)"""

    def visit_JoinedStr(self, n):
        if all(isinstance(v, ast.Constant) or (v.format_spec is None and v.conversion == -1) for v in n.values):
            s = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), [v.value for v in n.values if not isinstance(v, ast.Constant)], [])
        return n


class AndNest(Base):
    """if a and b: S  ->  if a: if b: S"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for t in reversed(n.test.values):
                b = [ast.If(test=t, body=b, orelse=[])]
            return b[0]
        return n


class DeMorgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Compare(Base):
    """a < b -> b > a, a <= b -> b >= a, not a in b -> a not in b, x not in y -> not (x in y)"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n


class SelfAlias(Base):
    """self.F read through a local alias taken at the head of each loop-free statement: x = self.F; use x (fields used as containers)"""

    def visit_FunctionDef(self, f):
        if not f.args.args or f.args.args[0].arg != "self" or f.name in ("__init__", "close", "initialize", "clear"):
            return f
        assigned = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        called = {x.func.attr for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"}
        if called:
            return f
        used = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self"} - assigned - {"lock", "_initialized"}
        for x in ast.walk(f):
            for k, v in ast.iter_fields(x):
                def sub(y):
                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and y.attr in used and isinstance(y.ctx, ast.Load):
                        return ast.Name("al_" + y.attr, ast.Load())
                    return y
                if isinstance(v, ast.AST):
                    setattr(x, k, sub(v))
                elif isinstance(v, list):
                    setattr(x, k, [sub(y) if isinstance(y, ast.AST) else y for y in v])
        k = 1 if ast.get_docstring(f) is not None else 0
        # aliases are taken after the readiness guard so that nothing else changes
        while k < len(f.body) and isinstance(f.body[k], ast.If) and isinstance(f.body[k].body[-1], (ast.Raise, ast.Return)) and not any(isinstance(y, ast.Name) and y.id.startswith("al_") for y in ast.walk(f.body[k])):
            k += 1
        f.body[k:k] = [ast.parse(f"al_{u} = self.{u}").body[0] for u in sorted(used)]
        return f


class LenZero(Base):
    """if not self.F / not local list -> len(...) == 0 for names known to be containers"""
    C = {"vector_ids", "vectors", "levels", "ids", "candidates", "chunks", "texts", "vector_cache"}

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Attribute) and n.operand.attr in ("vector_ids", "vectors", "parsers") and isinstance(n.operand.value, ast.Name):
            return ast.Compare(ast.Call(ast.Name("len", ast.Load()), [n.operand], []), [ast.Eq()], [ast.Constant(0)])
        return n


class TryWrap(Base):
    """body -> try: body except Exception: raise"""

    def visit_FunctionDef(self, f):
        if f.name.startswith("__"):
            return f
        k = 1 if ast.get_docstring(f) is not None else 0
        if f.body[k:]:
            f.body[k:] = [ast.Try(body=f.body[k:], handlers=[ast.ExceptHandler(type=ast.Name("Exception", ast.Load()), name=None, body=[ast.Raise()])], orelse=[], finalbody=[])]
        return f


class Lookup(Base):
    """if k in d: x = d[k] else ... stays; d.get(k) -> d[k] if k in d else None  (plain names only)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and isinstance(n.args[0], (ast.Constant, ast.Name)) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ("metadata", "parsers", "_cache", "vector_cache"):
            d = n.func.value
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [d]), ast.Subscript(d, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
        return n


class KwArgs(Base):
    """positional arguments of storage calls become keywords"""
    SIG = {"store_vector": ["id", "vector", "metadata"], "update_vector": ["id", "vector", "metadata"], "retrieve_vector": ["id"], "delete_vector": ["id"]}

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in self.SIG and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
            n.keywords = [ast.keyword(a, v) for a, v in zip(self.SIG[n.func.attr], n.args)]
            n.args = []
        return n


class Unpack(Base):
    """a, b = e  ->  t = e; a = t[0]; b = t[1]"""

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, (ast.Name, ast.Call)) and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            t = self.fresh("u")
            return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=n.value)] + [
                ast.Assign(targets=[e], value=ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)]
        return n


class WhileLoop(Base):
    """for i, x in enumerate(xs) -> while loop with index (no continue inside)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.iter.args[0], ast.Name) and isinstance(n.target.elts[0], ast.Name) \
                and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)) and not n.orelse:
            xs, i = n.iter.args[0].id, n.target.elts[0].id
            return [ast.parse(f"{i} = 0").body[0], ast.While(test=ast.parse(f"{i} < len({xs})", mode="eval").body,
                    body=[ast.Assign(targets=[n.target.elts[1]], value=ast.parse(f"{xs}[{i}]", mode="eval").body)] + n.body + [ast.parse(f"{i} += 1").body[0]], orelse=[])]
        return n


ALL = {k.__name__: k for k in [Plain, Rename, Negate, EarlyElse, EnumRange, EnumCounter, Temps, GuardHelper, ExprHelper, LoopBodyHelper, CompLoop, LockTry, Aug, IfExp, NoOp,
                               FStr, AndNest, DeMorgan, Compare, SelfAlias, LenZero, TryWrap, Lookup, KwArgs, Unpack, WhileLoop]}


def apply(src, name):
    for d, _, fs in os.walk(os.path.join(src, "src/valori")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                t = ast.fix_missing_locations(ALL[name]().visit(t))
                open(p, "w").write(ast.unparse(t) + "\n")


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-") and a in ALL] or list(ALL)
    test = "--test" in sys.argv
    props = sys.argv[sys.argv.index("--props") + 1].split(",") if "--props" in sys.argv else []
    for n in names:
        wt = f"/tmp/rf_{n}"
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        apply(wt, n)
        msg = ""
        if test:
            env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-n", "8", "--no-cov", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd=wt, env=env, capture_output=True, text=True)
            msg = r.stdout.strip().splitlines()[-1]
        r = subprocess.run([sys.executable, "-m", "sa.run"] + props, cwd=HERE, env=dict(os.environ, SA_REPO=wt, SA_NOEVIDENCE="1"), capture_output=True, text=True)
        print(f"== {n} rc={r.returncode} {msg}")
        for ln in r.stdout.splitlines():
            if ln.startswith("  ") or "ERROR" in ln or ", 0 undecided" not in ln and "undecided" in ln:
                print("    " + ln[:260])
        if r.returncode == 2:
            print(r.stderr[-600:], r.stdout[-300:])
        if "--keep" not in sys.argv:
            shutil.rmtree(wt)


if __name__ == "__main__":
    main()
