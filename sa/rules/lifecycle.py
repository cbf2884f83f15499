"""Typestate of components: not initialised / failed initialise / closed / untrained."""
import ast

from ..common import *
from ..common import AnalysisError, ClassInfo, Interp
from ..terms import const

FAST = P()


def refuses(prog, rep, rule, lay, cls, op, err, start, origin, extra=None):
    """From the given literal-field state every path of cls.op must refuse."""
    con = f"{cname(cls)}.{op}[{origin}]"
    ps = paths(prog, rep, cls, op, start=start)
    if ps is None:
        return
    if not ps:
        rep.unk(rule, con, "no path")
        return
    good = True
    for p in ps:
        f, ln = loc(p)
        if p.kind == "return":
            if lay == "storage" and id_empty(p) and p.val in (FALSE, NONE) and not effects(p):
                continue
            good = False
            rep.bad(rule, con, "returns", f"a path completes normally although the component is {origin}", f or cls.module.path, ln)
            continue
        q = exc_class(prog, p.val)
        ef = effects(p)
        if ef:
            good = False
            rep.bad(rule, con, "effect", f"{ev_name(ef[0])} happens before the refusal although the component is {origin}", ef[0].file, ef[0].line)
        if q is None or q == "?":
            rep.unk(rule, con, "exception class not resolved")
            good = False
        elif not in_family(prog, q, err):
            good = False
            rep.bad(rule, con, "class", f"refuses with {q} instead of {err.rsplit('.', 1)[1]} although the component is {origin}", f or cls.module.path, ln)
    if good:
        rep.ok(rule, con)


def closed_states(prog, rep, cls):
    if cls.find("close") is None:
        raise AnalysisError(f"{cls.qual} has no close()")
    return exits(cls, paths(prog, rep, cls, "close"))


def c01(prog, rep):
    """Typestate: the literal fields left by the constructor and by close() are the not-ready states; each public operation is
    interpreted from each of these states and every path must leave by raising the layer's exception before any effect."""
    rep.rule("R1.fresh", "every operation started in a state left by __init__ raises the layer's error before any effect", 80)
    rep.rule("R1.closed", "every operation started in a state left by close() raises the layer's error before any effect", 75)
    for lay, err, ops, cls in components(prog):
        fr = fresh(prog, rep, cls)
        cl = closed_states(prog, rep, cls)
        if not fr or not cl:
            raise AnalysisError(f"no constructor/close state for {cls.qual}")
        for op in ops:
            if cls.find(op) is None:
                continue
            for s in fr:
                refuses(prog, rep, "R1.fresh", lay, cls, op, err, s, "not initialised")
            for s, _ in cl:
                refuses(prog, rep, "R1.closed", lay, cls, op, err, s, "closed")


IMPL = P(implicit=True)
COARSE = P(implicit=True, coarse=True)


def swallowed_component(p):
    """A component / store call on this path failed and the failure was absorbed."""
    out = []
    for e in p.events:
        if e.kind == "callx" and e.a[0].a[0].startswith("."):
            if e.a[2] and e.a[2][0].op in ("param", "init", "alloc", "item", "attr", "call"):
                out.append(e)
    return out


COMPONENT_METHODS = {"initialize", "list_vectors", "retrieve_vector", "store_vector", "mkdir", "touch"}


def c02(prog, rep):
    """Typestate with exceptional edges: initialize() is interpreted with an exceptional edge at every opaque call; from every
    exceptional exit each operation must still refuse, and no exit that absorbed a failure of a component may return normally ready."""
    rep.rule("R2.failed", "after initialize() raised, every operation still refuses", 30)
    rep.rule("R2.absorb", "initialize() does not return normally after a component call it depends on failed", 15)
    rep.rule("R2.family", "initialize() fails with the layer's own error", 10)
    for lay, err, ops, cls in components(prog, ("storage", "index", "quantizer", "persistence", "processor", "client", "pipeline")):
        con = f"{cname(cls)}.initialize"
        states = fresh(prog, rep, cls)
        anyraise = False
        okabs = True
        for s in states:
            ps = paths(prog, rep, cls, "initialize", policy=IMPL, start=s)
            for p in ps:
                if p.kind == "raise":
                    anyraise = True
                if p.kind == "return":
                    for e in swallowed_component(p):
                        nm = e.a[0].a[0][1:]
                        if nm in COMPONENT_METHODS and not cls_exempt(cls, e):
                            okabs = False
                            rep.bad("R2.absorb", con, nm, f"a failing .{nm}() is absorbed and initialize() returns normally", e.file, e.line)
                if p.kind == "raise":
                    # wrapped failures keep the layer's family; a bare propagation of the component's own error is not judged here
                    q = exc_class(prog, p.val)
                    if q and q != "?":
                        rep.check("R2.family", con, in_family(prog, q, EXC + "ValoriError"), "class", f"initialize() raises {q}", *loc(p))
            for st, p in exits(cls, ps, "raise"):
                for op in ops:
                    if cls.find(op):
                        refuses(prog, rep, "R2.failed", lay, cls, op, err, st, "left by a failed initialize")
        if okabs:
            rep.ok("R2.absorb", con)


def cls_exempt(cls, e):
    # documented: the parser registry skips parsers whose dependencies are missing
    return e.fn is not None and e.fn.cls is not None and e.fn.cls.name == "ParserRegistry"


# ------------------------------------------------------------------ close
def elem_class(prog, cls, field):
    """Class of the elements of a container field, from its annotation."""
    for c in cls.mro():
        if not isinstance(c, ClassInfo):
            continue
        for fi in c.methods.values():
            for n in ast.walk(fi.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == field and isinstance(n.annotation, ast.Subscript):
                    sl = n.annotation.slice
                    last = sl.elts[-1] if isinstance(sl, ast.Tuple) else sl
                    if isinstance(last, ast.Name):
                        r = prog.resolve_in(c.module, last.id)
                        if r[0] == "class":
                            return r[1]
    return None


def field_table(prog, cls):
    """(field -> 'container' | 'flag' | ClassInfo) from the constructor."""
    I = Interp(prog)
    me = self_of(cls)
    out = {}
    for p in I.init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            if o is not me:
                continue
            if v.op == "alloc" and v.a[0] in ("dict", "list", "set"):
                c = p.st.heap.get(v)
                if c is not None and not c.entries:
                    out[f] = "container"
            elif v is FALSE:
                out[f] = "flag"
            info = I.field_info(cls, f)
            if info and info[0] == "class":
                out[f] = info[1]
    return out


def content_cleared(p, me, f):
    """True / False / None: does field f hold no element of its previous content at this exit?"""
    v = p.st.fields.get((me, f))
    ref = mk("init", me, f)
    if v is None:
        v = ref
    v0 = strip_ver(v)
    if v0.op == "unk" or v0.op == "phi":
        return None
    if v0 is not ref:
        return not any(x is ref for x in walk(v0))
    last = None
    for e in p.events:
        if e.kind in ("mut", "setitem", "delitem") and strip_ver(e.a[0]) is ref:
            last = e
    if last is not None and last.kind == "mut" and last.a[1] is const("clear"):
        return True
    if last is not None and last.kind == "delitem":
        k = last.a[1]
        if k.op == "slice" or show(k) in ("slice(None, None, None)",):
            return True
    for a, pol in p.facts.items():
        if a.op == "truthy" and pol is False and strip_ver(a.a[0]) is ref and (last is None or a.a[0].op == "at"):
            return True
    return False


def is_closed(p, me, f):
    """The component in field f is closed on this path (or known absent)."""
    ref = mk("init", me, f)
    for a, pol in p.facts.items():
        if a.op == "truthy" and pol is False and strip_ver(a.a[0]) is ref:
            return True
        if a.op == "isnone" and pol and strip_ver(a.a[0]) is ref:
            return True
    for e in p.events:
        if e.kind == "call" and e.a[0].a[0] == ".close" and e.a[2] and strip_ver(e.a[2][0]) is ref:
            return True
    return False


def elems_closed(p, me, f):
    """Every element of container f is closed (or the path knows it is empty)."""
    ref = mk("init", me, f)
    for a, pol in p.facts.items():
        if a.op == "truthy" and pol is False and norm(a.a[0]) is ref:
            return True
        if a.op == "truthy" and pol is False and base_root(a.a[0]) is ref:
            return True
    for e in p.events:
        if e.kind == "call" and e.a[0].a[0] == ".close" and e.a[2] and base_root(e.a[2][0]) is ref:
            return not any(k.kind == "breakout" and base_root(k.a[0]) is ref for k in p.events)
    return False


def c03(prog, rep):
    """close() interpreted from an arbitrary state: at every normal exit the flags the constructor created as False are False again,
    every container the constructor created is empty, every component held in a field (or in a container field) was closed."""
    rep.rule("R3.flag", "flags created False by the constructor are False after close()", 22)
    rep.rule("R3.content", "containers created by the constructor are empty after close()", 13)
    rep.rule("R3.cascade", "components held by the object are closed by close()", 6)
    rep.rule("R3.temp", "a temporary file created by initialize() is removed by close()", 1)
    for lay, err, ops, cls in components(prog):
        me = self_of(cls)
        tab = field_table(prog, cls)
        ps = paths(prog, rep, cls, "close")
        rets = [p for p in ps if p.kind == "return"]
        if not rets:
            raise AnalysisError(f"{cls.qual}.close never returns")
        for f, kind in sorted(tab.items(), key=lambda x: x[0]):
            if f == "config":
                continue       # the configuration is the caller's and survives close()
            con = f"{cname(cls)}.close:{f}"
            if kind == "flag":
                for p in rets:
                    v = p.st.fields.get((me, f), mk("init", me, f))
                    if v.op in ("unk", "phi"):
                        rep.unk("R3.flag", con, "value not tracked")
                    elif v is FALSE:
                        rep.ok("R3.flag", con)
                    elif strip_ver(v) is mk("init", me, f) and any(a.op == "truthy" and pol is False and strip_ver(a.a[0]) is mk("init", me, f) for a, pol in p.facts.items()):
                        rep.ok("R3.flag", con)
                    elif assigned_true(prog, cls, f):
                        rep.bad("R3.flag", con, "flag", f"after close() {f} can still be set", loc(p)[0] or cls.module.path, loc(p)[1])
            elif kind == "container":
                ec = elem_class(prog, cls, f)
                for p in rets:
                    r = content_cleared(p, me, f)
                    if r is None:
                        rep.unk("R3.content", con, "value not tracked")
                    else:
                        rep.check("R3.content", con, r, "content", f"after close() {f} can still hold its previous content", loc(p)[0] or cls.module.path, loc(p)[1])
                    if ec is not None and ec.find("close"):
                        rep.check("R3.cascade", con, elems_closed(p, me, f), "elements", f"close() does not close every element of {f}", loc(p)[0] or cls.module.path, loc(p)[1])
            elif isinstance(kind, ClassInfo) and kind.find("close") and f not in BORROWED.get(lay, ()):
                for p in rets:
                    rep.check("R3.cascade", con, is_closed(p, me, f), "component", f"close() can leave {f} open", loc(p)[0] or cls.module.path, loc(p)[1])
        # temporary files
        init = cls.find("initialize")
        tmp = set()
        for p in paths(prog, rep, cls, "initialize"):
            for (o, f), v in p.st.fields.items():
                if o is me and any(x.op == "call" and x.a[0].startswith("tempfile.") for x in walk(v)):
                    tmp.add(f)
        for f in sorted(tmp):
            con = f"{cname(cls)}.close:{f}"
            ref = mk("init", me, f)
            for p in rets:
                removed = any(e.kind == "call" and e.a[0].a[0] in ("os.unlink", "os.remove", ".unlink") and e.a[2] and base_root(e.a[2][0]) is ref for e in p.events)
                absent = any(pol is False and ((a.op == "truthy" and any(x is ref for x in walk(a)))) for a, pol in p.facts.items()) or \
                    any(pol and a.op == "isnone" and strip_ver(a.a[0]) is ref for a, pol in p.facts.items())
                rep.check("R3.temp", con, removed or absent, "temp", f"close() can leave the temporary file of {f} behind", loc(p)[0] or cls.module.path, loc(p)[1])


# the storage backend is shared: indices use it but the client owns and closes it
BORROWED = {"index": ("storage_backend",)}


def assigned_true(prog, cls, f):
    """Some method other than the constructor stores something else than False in f."""
    for c in cls.mro():
        if not isinstance(c, ClassInfo):
            continue
        for n, fi in c.methods.items():
            if n == "__init__":
                continue
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute) and t.attr == f and not (isinstance(x.value, ast.Constant) and x.value.value is False):
                            return True
    return False


# ------------------------------------------------------------------ untrained quantizers
def TRAINED_MARK(prog, cls):
    """Flags created False, set True by train() and not by initialize()."""
    me = self_of(cls)
    out = set()
    for s in fresh(prog, Sink, cls):
        init_true = {f for st, p in exits(cls, paths(prog, Sink, cls, "initialize", start=s)) for f, v in st.items() if v is TRUE}
        for p in paths(prog, Sink, cls, "train", policy=P(coarse=True)):
            for f, v in scalar_fields(cls, p).items():
                if v is TRUE and s.get(f) is FALSE and f not in init_true:
                    out.add(f)
    return out


class Sink:
    @staticmethod
    def saw(i, p):
        pass


def c04(prog, rep):
    """Typestate of quantizers: from every state in which training has not completed (after initialize() on a fresh or closed object,
    after train() raised) each coding operation must raise QuantizationError before any effect."""
    rep.rule("R4.untrained", "quantize/dequantize/compute_distance refuse before training completed", 18)
    rep.rule("R4.failed", "quantize/dequantize/compute_distance refuse after training failed on a never-trained quantizer", 9)
    rep.rule("R4.retrain", "a train() that fails on a trained quantizer leaves the old training intact or no training", 3)
    rep.rule("R4.train", "train() completes with the trained mark set", 3)
    for lay, err, ops, cls in components(prog, ("quantizer",)):
        me = self_of(cls)
        starts = []
        for s in fresh(prog, rep, cls):
            for st, p in exits(cls, paths(prog, rep, cls, "initialize", start=s)):
                starts.append((carry(s, cls, p), "never trained"))
        for st, _ in closed_states(prog, rep, cls):
            for st2, p in exits(cls, paths(prog, rep, cls, "initialize", start=st)):
                starts.append((carry(st, cls, p), "closed and initialised again"))
        for st, p in exits(cls, paths(prog, rep, cls, "initialize")):
            starts.append((st, "initialised again"))
        use = [o for o in ops if o != "train" and cls.find(o)]
        seen = set()
        for s, name in starts:
            for op in use:
                refuses(prog, rep, "R4.untrained", lay, cls, op, err, s, name)
            k = tuple(sorted((f, v.uid) for f, v in s.items()))
            if k in seen:
                continue
            seen.add(k)
            tr = paths(prog, rep, cls, "train", policy=COARSE, start=s)
            for st, p in exits(cls, tr, "raise"):
                for op in use:
                    refuses(prog, rep, "R4.failed", lay, cls, op, err, carry(s, cls, p), "left untrained by a failed train")
            # a failed re-training leaves the old training intact or none at all
            for p in paths(prog, rep, cls, "train", policy=COARSE):
                if p.kind != "raise":
                    continue
                flags = {f for f, v in scalar_fields(cls, p).items() if v is FALSE}
                flips = [f for f in flags if f in TRAINED_MARK(prog, cls)]
                changed = sorted(f for (o, f), v in p.st.fields.items() if o is me and f not in TRAINED_MARK(prog, cls) and
                                 strip_ver(v) is not mk("init", me, f))
                rep.check("R4.retrain", f"{cname(cls)}.train", bool(flips) or not changed, "partial",
                          f"a failing train() can leave the old trained mark with replaced parameters ({', '.join(changed)})", *loc(p))
            for p in tr:
                if p.kind == "return":
                    ready = [q for o in use[:1] for q in paths(prog, rep, cls, o, policy=P(coarse=True), start=carry(s, cls, p)) if q.kind == "return"]
                    rep.check("R4.train", f"{cname(cls)}.train", bool(ready), "noop", "train() can return normally leaving the quantizer untrained", *loc(p))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
