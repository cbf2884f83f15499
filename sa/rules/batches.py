"""Batch operations: every item is handed over once, in order, and counted once."""
from ..common import *
from ..common import AnalysisError, Interp, walk
from ..linear import add, lin
from ..terms import const, contains
from .documents import reordered, since, tru, vague
from .storage import rets
from .text import Iters, loops_of

UNORDERED = ("concurrent.futures.as_completed", "as_completed", "set", "frozenset", "concurrent.futures.wait", ".union")
CALLBACKS = (".error_callback", ".progress_callback", "print", "time.time", "()")


def run(prog, rep, name, key):
    pol = Iters()
    pol.implicit = True
    pol.no_inline = ("process_document", "initialize", "close")
    I = Interp(prog, pol)
    if "." in name:
        c, m = name.split(".")
        cls = prog.cls(c)
        fi = cls.find(m)
        if fi is None:
            raise AnalysisError(f"anchor method {name} not found")
        ps = I.run_method(cls, fi)
    else:
        fi = prog.func(name)
        ps = I.run_func(fi)
    for p in ps:
        p.interp = I
    rep.saw(I, ps)
    return I, ps, fi


def pure(d, pars=()):
    """A difference of known quantities: constants, sizes of the arguments, loop positions, fields."""
    for t in d:
        if t == 1:
            continue
        if vague(t):
            return False
        for x in walk(t):
            if x.op == "call" and x.a[0] not in ("len", "range"):
                return False
            if x.op not in ("const", "idx", "call", "param", "init", "attr", "self", "bin", "at", "slice"):
                return False
    return True


def length(par):
    return norm(mk("call", "len", (par,), (), 0))


def piece(rep, rule, con, s, par, what, file, line):
    """s is par[i : i + n] for i in range(0, len(par), n); True if checked."""
    s = norm(s)
    inner = norm(s.a[0]) if s.op == "slice" else None
    if inner is not None and inner.op == "slice" and norm(inner.a[0]) is par and all(pure(lin(norm(x))) for x in s.a[1:3]):
        rep.bad(rule, con, "partial", f"only a part of each batch of {what} is handed over", file, line)
        return False
    if s.op != "slice" or norm(s.a[0]) is not par:
        rep.unk(rule, con, "the part handed over is not understood")
        return False
    lo, hi, step = norm(s.a[1]), norm(s.a[2]), s.a[3] if len(s.a) > 3 else None
    idx = [x for x in walk(lo) if x.op == "idx"]
    if len({x.uid for x in idx}) != 1 or not is_const(NONE if step is None else step) or step is not None and cval(step) not in (None, 1):
        rep.unk(rule, con, "the bounds of a part are not understood")
        return False
    i = idx[0]
    r = norm(i.a[0])
    if r.op != "call" or r.a[0] != "range" or r.a[2]:
        rep.unk(rule, con, "the bounds of a part are not understood")
        return False
    a = r.a[1]
    start, stop, n = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], const(1)) if len(a) == 2 else a
    if any(vague(x) for x in (lo, hi, start, stop, n)):
        rep.unk(rule, con, "the bounds of a part are not understood")
        return False
    good = True

    def judge(d, slot, msg, sure=True):
        nonlocal good
        if not d or not good:
            return
        good = False
        if pure(d) and sure:
            rep.bad(rule, con, slot, msg, file, line)
        else:
            rep.unk(rule, con, "the bounds of a part are not understood")
    off = add(lin(lo), lin(i), -1)
    judge(off, "lower", f"a part of {what} does not begin where the batch begins", not any(t != 1 and contains(t, lambda x: x.op == "idx") for t in off))
    if not good:
        return False
    if is_const(hi) and cval(hi) is None:
        good = False
        rep.bad(rule, con, "upper", f"a batch reaches to the end of {what}, so items are handed over several times", file, line)
    else:
        his = [norm(x) for x in hi.a[1]] if hi.op == "call" and hi.a[0] == "min" and len(hi.a[1]) == 2 else [hi]
        if len(his) == 2:
            his = [x for x in his if x is not length(par)]
        if len(his) != 1:
            rep.unk(rule, con, "the bounds of a part are not understood")
            return False
        judge(add(add(lin(his[0]), lin(lo), -1), lin(n), -1), "upper", f"a part of {what} does not end where the next batch begins")
    judge(lin(start), "start", f"the first batch does not begin at the first of {what}")
    judge(add(lin(stop), lin(length(par)), -1), "stop", f"the batches do not go on to the last of {what}")
    if good:
        rep.ok(rule, con)
    return good


def lockstep(rep, rule, con, a, b, pm, file, line):
    a, b = norm(a), norm(b)
    if b is pm:
        rep.bad(rule, con, "whole", "every batch is given the metadata of all items", file, line)
        return
    if b.op != "slice" or a.op != "slice" or norm(b.a[0]) is not pm:
        rep.unk(rule, con, "metadata of a batch not understood")
        return
    for x, y in zip(a.a[1:3], b.a[1:3]):
        if is_const(x) and cval(x) is None or is_const(y) and cval(y) is None:
            same = x is y
            d = {} if same else {1: 1}
        else:
            d = add(lin(norm(x)), lin(norm(y)), -1)
        if d:
            if pure(d):
                rep.bad(rule, con, "shift", "vectors and metadata of a batch are cut at different places", file, line)
            else:
                rep.unk(rule, con, "metadata of a batch not understood")
            return
    rep.ok(rule, con)


def named(e, name):
    return e.kind in ("call", "callx") and e.a[0].a[0] == name if e.kind in ("call", "callx") and hasattr(e.a[0], "op") else e.kind in ("call", "callx") and e.a[0] == name


def calls(evs, name):
    return [e for e in evs if named(e, name)]


def result(e):
    return norm(e.a[1])


def cargs(e):
    return [norm(x) for x in e.a[2]], {k: norm(v) for k, v in (e.a[3] if len(e.a) > 3 else ())}


def added(it, t):
    """Entries an iteration adds to a local list, or None when its content is not known."""
    c = it.st.heap.get(t)
    if c is None or c.kind not in ("list", "deque", "set"):
        return None
    ents = list(c.entries)
    at = [i for i, e in enumerate(ents) if e.tag == "prev" and e.node is it.node]
    if at:
        return ents[at[-1] + 1:]
    return [] if outer_list(it, t) else ents            # untouched by the loop, or belonging to the iteration


def single(e, it):
    """An entry added once in the iteration itself, not by a loop within it."""
    return e.tag in ("one", "many") and len(e.loops) == len(it.st.loops)


def outer_list(it, t):
    c = it.st.heap.get(t)
    return c is not None and len(c.loops) <= len(it.st.loops) - 1


def counted(evs, key):
    return [e for e in evs if e.kind == "setitem" and len(e.a) > 2 and is_const(e.a[1]) and cval(e.a[1]) == key]


def delta(v, key):
    """(whether the former value is kept, what is added)."""
    old = 0
    out = {}
    for t, c in lin(norm(v)).items():
        x = t
        while x != 1 and x.op == "call" and x.a[0] == "int" and len(x.a[1]) == 1:
            x = norm(x.a[1][0])
        if x != 1 and is_const(x) and isinstance(cval(x), int):
            if x is not t:
                old += c
            if cval(x):
                out[1] = out.get(1, 0) + c * cval(x)
        elif x != 1 and contains(x, lambda y: is_const(y) and cval(y) == key):
            old += c
        elif x != 1 and contains(x, lambda y: is_const(y) and cval(y) in ("processed_items", "failed_items", "total_items")):
            out[const("another counter")] = 1
        else:
            out[x] = out.get(x, 0) + c
    return old, out


def batch_length(d, vecs, results):
    """True / False / None: the number added is that of the items in the batch."""
    if len(d) == 1:
        (t, c), = d.items()
        if t != 1 and c == 1 and t.op == "call" and t.a[0] == "len" and len(t.a[1]) == 1:
            x = norm(t.a[1][0])
            if x in vecs or x in results:
                return True
            if x.op == "param":
                return False
            return None
    if pure(d):
        return False
    return None


def counting(rep, rule, con, evs, key, other, vecs, results, file, line, facts=()):
    """Exactly one of the two counters is moved, by the size of the batch."""
    if counted(evs, other):
        rep.bad(rule, con, "both" if counted(evs, key) else "wrong", f"a batch is counted as {other} although it belongs to {key}", file, counted(evs, other)[0].line)
        return
    cs = counted(evs, key)
    if not cs:
        rep.bad(rule, con, "uncounted", f"a batch is not counted as {key}", file, line)
        return
    if len(cs) > 1:
        rep.unk(rule, con, "several counts")
        return
    old, d = delta(cs[0].a[2], key)
    if old == 0 and not any(contains(norm(cs[0].a[2]), lambda y: y.op in VAGUE_OPS) for _ in (0,)):
        if any(x != 1 and x.op == "call" for x in d) and not pure(d) or asked(facts, key):
            rep.unk(rule, con, "count not understood")
        else:
            rep.bad(rule, con, "reset", f"{key} forgets the batches before", file, cs[0].line)
        return
    ok = batch_length(d, vecs, results)
    if ok:
        rep.ok(rule, con)
    elif ok is False:
        rep.bad(rule, con, "amount", f"{key} does not grow by the number of items in the batch", file, cs[0].line)
    else:
        rep.unk(rule, con, "count not understood")


VAGUE_OPS = ("unk", "phi")


def asked(facts, key):
    """The path depends on the former value of the counter."""
    return any(a.op in ("truthy", "isnone", "eq", "lt") and contains(a, lambda y: y.op in ("get", "at") and len(y.a) > 1 and hasattr(y.a[1], "op") and is_const(y.a[1]) and cval(y.a[1]) == key) for a in facts)


def cb_fact(facts, name):
    return tru(facts, lambda x: contains(x, lambda y: y.op in ("init", "attr") and name in y.a or y.op in ("init", "attr") and y.a[-1] == name))


def reported(rep, rule, con, evs, facts, failed, file, line, exc=True):
    cs = calls(evs, ".error_callback")
    f = cb_fact(facts, "error_callback")
    if not failed:
        if cs:
            rep.bad(rule, con, "spurious", "the error callback is called for items that did not fail", file, cs[0].line)
        else:
            rep.ok(rule, con)
        return
    if cs:
        a = [x for x in cargs(cs[0])[0] if x.op != "self"]
        if exc and a and a[0].op in ("slice", "param", "const"):
            rep.bad(rule, con, "argument", "the error callback is not given the error", file, cs[0].line)
        else:
            rep.ok(rule, con)
    elif f is True:
        rep.bad(rule, con, "silent", "a failure is not reported to the error callback", file, line)
    elif f is False:
        rep.ok(rule, con)
    else:
        rep.unk(rule, con, "error callback not found")


def stops(evs, it, culprit):
    """Whether an outcome other than the normal one is the answer to a failure of the item itself."""
    last = [e for e in evs if e.kind not in ("handled", "iter", "iterend")]
    if it.kind in ("break", "return"):
        return True
    if it.kind != "raise":
        return False
    v = it.val
    if v is None or v.op != "exc":
        return v is not None and contains(v, lambda x: x is culprit)
    return v.a[0] != "?" or any(norm(x) is culprit for x in v.a[1])


def answer_list(ps):
    vs = {norm(p.val) for p in rets(ps)}
    if len(vs) == 1:
        v = vs.pop()
        if v.op == "alloc":
            return v
    return None


def param(fi, i):
    a = fi.node.args.args
    return mk("param", a[i].arg) if len(a) > i else None


# ------------------------------------------------------------------ insertion
def insert(prog, rep):
    con = "BatchManager.batch_insert"
    I, ps, fi = run(prog, rep, con, "ins")
    file = fi.module.path
    pv, pm = param(fi, 2), param(fi, 3)
    ans = answer_list(ps)
    seen = False
    for lp in loops_of(I):
        if not any(calls(since(it), ".insert") for it in lp.its):
            continue
        for it in lp.its:
            evs = since(it)
            ins = calls(evs, ".insert")
            if it.kind == "skip" or not any(contains(norm(x), lambda y: y is pv) for x in (it.key[0],) if it.key):
                continue
            if it.kind == "normal" and not ins:
                rep.bad("R29.pieces", con, "skipped", "a batch may be left out", file, it.node.lineno)
                continue
            if not ins:
                continue
            seen = True
            if len(ins) > 1:
                rep.unk("R29.pieces", con, "several insertions")
                continue
            e = ins[0]
            a, kw = cargs(e)
            a = a + [None] * (3 - len(a))
            vec = a[1] if a[1] is not None else kw.get("vectors")
            met = a[2] if a[2] is not None else kw.get("metadata")
            if vec is None:
                rep.unk("R29.pieces", con, "insertion not understood")
                continue
            piece(rep, "R29.pieces", con, vec, pv, "the vectors", file, e.line)
            if met is None:
                rep.bad("R29.lockstep", con, "none", "a batch is inserted without its metadata", file, e.line)
            else:
                lockstep(rep, "R29.lockstep", con, vec, met, pm, file, e.line)
            i = evs.index(e)
            after = evs[i + 1:]
            failed = e.kind == "callx"
            hand = [x for x in after if x.kind == "handler"]
            if failed and not hand:
                rep.bad("R29.goon", con, "stops", "a failing batch ends the whole insertion", file, e.line)
                continue
            if it.kind != "normal":
                if failed and stops(after, it, result(e)):
                    rep.bad("R29.goon", con, "stops", "a failing batch ends the whole insertion", file, e.line)
                elif it.kind in ("break", "return"):
                    rep.bad("R29.goon", con, "break", "the batches after this one may be left out", file, it.node.lineno)
                elif not failed and counted(after, "failed_items"):
                    rep.bad("R29.count", con, "both", "an inserted batch is counted as failed", file, counted(after, "failed_items")[0].line)
                continue
            rep.ok("R29.goon", con)
            counting(rep, "R29.count", con, after, "failed_items" if failed else "processed_items", "processed_items" if failed else "failed_items", (norm(vec),), (result(e),), file, e.line, it.facts)
            reported(rep, "R29.report", con, after, it.facts, failed, file, e.line)
            if ans is None:
                rebuilt(rep, con, it, ps, result(e), failed, file, e.line)
                continue
            new = added(it, ans)
            if new is None or not outer_list(it, ans):
                rep.unk("R29.order", con, "answer not understood")
            elif failed:
                rep.check("R29.order", con, not new, "failed", "a failed batch adds to the answer", file, e.line)
            elif not new and any(o.key and contains(norm(o.key[0]), lambda z: z is result(e)) for o in I.iterations):
                rep.unk("R29.order", con, "answer not understood")
            elif not new:
                rep.bad("R29.order", con, "lost", "the ids of a batch are not answered", file, e.line)
            elif any(x.kind == "linsert" and norm(x.a[0]) is ans for x in after):
                rep.bad("R29.order", con, "front", "ids are not answered in the order of the input", file, e.line)
            elif len(new) == 1 and new[0].tag == "rest" and norm(new[0].val) is result(e):
                rep.ok("R29.order", con)
            elif len(new) > 1 and all(x.tag == "rest" and norm(x.val) is result(e) for x in new):
                rep.bad("R29.order", con, "twice", "the ids of a batch are answered twice", file, e.line)
            elif len(new) == 1 and single(new[0], it) and norm(new[0].val) is result(e):
                rep.bad("R29.order", con, "nested", "the ids of a batch are answered as one item", file, e.line)
            else:
                rep.unk("R29.order", con, "answer not understood")
            if reordered(it) is True:
                rep.bad("R29.order", con, "reordered", "the batches are not taken in order", file, it.node.lineno)
    if not seen:
        for x in ("pieces", "lockstep", "goon", "count", "report", "order"):
            rep.unk("R29." + x, con, "no insertion loop found")
    for p in rets(ps):
        if ans is not None:
            c = p.st.heap.get(ans)
            if c is not None and c.order is not None:
                rep.bad("R29.order", con, "sorted", "ids are not answered in the order of the input", file, fi.node.lineno)


def rebuilt(rep, con, it, ps, r, failed, file, line):
    """The answer is a variable set anew in every iteration."""
    vals = [p.val for p in rets(ps)]
    for n, ph in (it.carried or {}).items():
        if ph.op != "phi" or not any(contains(v, lambda x: x is ph) for v in vals):
            continue
        end = norm(it.st.env.get(n, NONE))
        if failed:
            rep.check("R29.order", con, end is norm(ph), "failed", "a failed batch changes the answer", file, line) if not vague(end) or end is norm(ph) else rep.unk("R29.order", con, "answer not understood")
        elif end is norm(ph):
            rep.bad("R29.order", con, "lost", "the ids of a batch are not answered", file, line)
        elif end.op == "bin" and end.a[0] == "+":
            a, b = norm(end.a[1]), norm(end.a[2])
            if a is norm(ph) and contains(b, lambda x: x is r):
                rep.ok("R29.order", con)
            elif b is norm(ph) and contains(a, lambda x: x is r):
                rep.bad("R29.order", con, "front", "ids are not answered in the order of the input", file, line)
            else:
                rep.unk("R29.order", con, "answer not understood")
        elif not contains(end, lambda x: x is norm(ph)) and contains(end, lambda x: x is r):
            rep.bad("R29.order", con, "reset", "the ids of the batches before are not answered", file, line)
        else:
            rep.unk("R29.order", con, "answer not understood")
        return
    rep.unk("R29.order", con, "answer not understood")


# ------------------------------------------------------------------ parallel insertion
def parallel(prog, rep):
    con = "BatchManager.parallel_batch_insert"
    I, ps, fi = run(prog, rep, con, "par")
    file = fi.module.path
    pv, pm = param(fi, 2), param(fi, 3)
    ok_val, bad_vals = None, []
    n = 0
    for kind, st, val, args, at, node in I.tasks:
        evs = st.events[at:]
        ins = calls(evs, ".insert")
        if len(ins) != 1:
            rep.unk("R29.pieces", con, "task not understood") if ins else rep.bad("R29.pieces", con, "skipped", "a task may insert nothing", file, node.lineno)
            continue
        n += 1
        e = ins[0]
        a, kw = cargs(e)
        a = a + [None] * (3 - len(a))
        vec = a[1] if a[1] is not None else kw.get("vectors")
        met = a[2] if a[2] is not None else kw.get("metadata")
        if vec is None:
            rep.unk("R29.pieces", con, "insertion not understood")
            continue
        piece(rep, "R29.pieces", con, vec, pv, "the vectors", file, e.line)
        if met is None:
            rep.bad("R29.lockstep", con, "none", "a batch is inserted without its metadata", file, e.line)
        else:
            lockstep(rep, "R29.lockstep", con, vec, met, pm, file, e.line)
        if e.kind == "callx":
            bad_vals.append((kind, norm(val), e))
        elif kind == "return":
            ok_val = (norm(val), e)
    if not n:
        for x in ("pieces", "lockstep", "goon"):
            rep.unk("R29." + x, con, "no task found")
    for kind, v, e in bad_vals:
        if kind == "raise":
            if any(calls(since(it), ".result") and any(x.kind == "handler" for x in since(it)) for it in I.iterations):
                rep.unk("R29.goon", con, "failure not understood")
            else:
                rep.bad("R29.goon", con, "stops", "a failing batch ends the whole insertion", file, e.line)
        elif contains(v, lambda x: x.op == "exc"):
            rep.ok("R29.goon", con)
        elif ok_val and v.op == "tuple" and ok_val[0].op == "tuple" and len(v.a) == len(ok_val[0].a) and not any(is_const(x) and is_const(y) and x is not y for x, y in zip(v.a, ok_val[0].a)):
            rep.bad("R29.goon", con, "swallowed", "a failed batch is answered like an inserted one", file, e.line)
        else:
            rep.unk("R29.goon", con, "failure not understood")
    ans = answer_list(ps)
    collected = False
    for lp in loops_of(I):
        for it in lp.its:
            evs = since(it)
            if it.kind == "skip":
                continue
            root = norm(it.key[0]) if it.key else None
            subs = calls(evs, ".submit")
            if root is not None and root.op == "alloc" and not subs and it.kind == "normal" and any(calls(since(o), ".submit") for o in lp.its):
                rep.bad("R29.pieces", con, "unsubmitted", "a batch may be left out", file, it.node.lineno)
            res = calls(evs, ".result")
            if not res or it.kind != "normal":
                if res and it.kind in ("break", "return") :
                    rep.bad("R29.goon", con, "break", "the batches after this one may be left out", file, it.node.lineno)
                elif res and it.kind == "raise" and res[0].kind == "call" and stops(evs, it, result(res[0])):
                    rep.bad("R29.goon", con, "stops", "a failing batch ends the whole insertion", file, it.node.lineno)
                continue
            collected = True
            r = result(res[0])
            cont = it.st.heap.get(root) if root is not None and root.op == "alloc" else None
            if root is not None and root.op == "slice" and contains(root, lambda x: x.op == "call" and x.a[0] in UNORDERED) or \
                    cont is not None and (cont.limit or isinstance(cont.src, tuple) and cont.src[0] == "slice"):
                rep.bad("R29.goon", con, "cut", "only some of the batches are waited for", file, it.node.lineno)
            f, g = counted(evs, "failed_items"), counted(evs, "processed_items")
            err = tru(it.facts, lambda x: x.op == "item" and norm(x.a[0]) is r)
            if err is None:
                for a, v in it.facts.items():
                    if a.op == "isnone" and norm(a.a[0]).op == "item" and norm(norm(a.a[0]).a[0]) is r:
                        err = not v
            if any(x.kind == "handler" for x in evs):
                rep.unk("R29.count", con, "failure not understood")
                continue
            if f and g:
                rep.bad("R29.count", con, "both", "a batch is counted as processed and as failed", file, f[0].line)
            elif not f and not g:
                rep.bad("R29.count", con, "uncounted", "a batch is not counted", file, it.node.lineno)
            elif err is not None and bool(f) != err:
                rep.bad("R29.count", con, "wrong", "a batch is counted as the opposite of what happened to it", file, (f or g)[0].line)
            else:
                c = (f or g)[0]
                old, d = delta(c.a[2], "failed_items" if f else "processed_items")
                if old == 0 and asked(it.facts, "failed_items" if f else "processed_items"):
                    rep.unk("R29.count", con, "count not understood")
                elif old == 0 and pure(d):
                    rep.bad("R29.count", con, "reset", "the batches before are forgotten", file, c.line)
                elif pure(d):
                    rep.bad("R29.count", con, "amount", "the count does not grow by the number of items in the batch", file, c.line)
                else:
                    t = next(iter(d)) if len(d) == 1 else None
                    if t is not None and t != 1 and any(x.op == "item" and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and norm(x.a[0]).op == "alloc" for x in walk(t)) and not contains(t, lambda x: x is r):
                        rep.bad("R29.count", con, "amount", "every batch is counted as large as one of them", file, c.line)
                    elif t is not None and t != 1 and d[t] == 1 and t.op == "call" and t.a[0] == "len" and not (f and norm(t.a[1][0]).op == "item" and norm(norm(t.a[1][0]).a[0]) is r):
                        rep.ok("R29.count", con)
                    elif t is not None and f and t != 1 and t.op == "call" and t.a[0] == "len":
                        rep.bad("R29.count", con, "amount", "a failed batch is counted by the ids it was given", file, c.line)
                    else:
                        rep.unk("R29.count", con, "count not understood")
            reported(rep, "R29.report", con, evs, it.facts, bool(f), file, it.node.lineno, exc=False)
            loose = root is not None and contains(root, lambda x: x.op == "call" and x.a[0] in UNORDERED)
            if ans is not None and loose and not f:
                new = added(it, ans)
                ok = p_sorted(ps, ans)
                if new and outer_list(it, ans) and ok is False and not any(e.kind == "setitem" and norm(e.a[0]) is ans for e in evs):
                    rep.bad("R29.order", con, "completion", "ids are answered in the order in which batches happen to finish", file, it.node.lineno)
                else:
                    rep.unk("R29.order", con, "order of the answer not understood")
            elif ans is None and loose and not f:
                ks = [e for e in evs if e.kind == "setitem" and contains(norm(e.a[2]), lambda x: x is r)]
                adds = [e for e in evs if e.kind == "mut" and cval(e.a[1]) in ("append", "extend") and any(contains(norm(x), lambda y: y is r) for x in e.a[2] if hasattr(x, "op"))]
                late = [e for e in adds if norm(e.a[0]).op == "comp" or norm(e.a[0]).op == "bin"]
                one = [e for e in adds if norm(e.a[0]).op == "item" and contains(norm(e.a[0]).a[1], lambda y: y is r) and (b := norm(norm(e.a[0]).a[0])).op == "bin" and b.a[0] == "*"]
                if one:
                    rep.bad("R29.order", con, "shared", "all batches are given the same list of ids", file, one[0].line)
                    continue
                if late and not any(contains(norm(e.a[1]), lambda y: y is r) for e in ks) and not any(norm(x).op == "tuple" for x in late[0].a[2]):
                    rep.bad("R29.order", con, "completion", "ids are answered in the order in which batches happen to finish", file, late[0].line)
                    continue
                grown = [t for t, c in it.st.heap.items() if c.kind == "list" and outer_list(it, t) and any(x.tag != "prev" and x.val is not None and contains(norm(x.val), lambda y: y is r) for x in added(it, t) or ())]
                if len(grown) == 1 and not ks and taken(ps, grown[0]):
                    rep.bad("R29.order", con, "completion", "ids are answered in the order in which batches happen to finish", file, it.node.lineno)
                elif ks:
                    rep.ok("R29.order", con)
                else:
                    rep.unk("R29.order", con, "order of the answer not understood")
            elif not f:
                rep.ok("R29.order", con)
    for p in rets(ps):
        v = strip_ver(p.val)
        c = p.st.heap.get(v) if v.op == "alloc" else None
        if v.op == "call" and v.a[0] in ("sorted", "set", "reversed") and len(v.a[1]) == 1 and not (len(v.a) > 2 and v.a[2]) or c is not None and isinstance(c.src, tuple) and c.src[0] == "sorted" and c.order is not None \
                and c.entries and all(strip_ver(x[0]) is strip_ver(x[1]) for x in c.order[0] if isinstance(x, tuple) and len(x) > 1 and hasattr(x[1], "op")) and not any(strip_ver(x[0]).op in ("tuple", "unk", "phi") for x in c.order[0] if isinstance(x, tuple)):
            rep.bad("R29.order", con, "sorted", "the ids are not answered in the order of the input", file, fi.node.lineno)
        for t, c in p.st.heap.items():
            if c.kind != "dict":
                continue
            vals = [x.val for x in c.entries if x.val is not None]
            if any(norm(x).op == "slice" and norm(norm(x).a[0]) is pv for x in vals):
                for x in vals:
                    x = norm(x)
                    if x.op == "bin" and x.a[0] == "%" and contains(x, lambda y: y.op == "idx" or y.op == "item"):
                        rep.bad("R29.order", con, "number", "several batches are given the same number", file, fi.node.lineno)
    if not collected:
        rep.unk("R29.count", con, "no collecting loop found")
        rep.unk("R29.order", con, "no collecting loop found")
        rep.unk("R29.report", con, "no collecting loop found")


def taken(ps, t):
    """Wherever the local list was filled, the answer takes it as it is."""
    full = [p for p in rets(ps) if (c := p.st.heap.get(t)) is not None and len([e for e in c.entries if e.tag != "prev"]) and any(e.loops for e in c.entries)]
    full = full or [p for p in rets(ps) if (c := p.st.heap.get(t)) is not None and c.entries]
    return bool(full) and all(taken_as_is(p, t) for p in full)


def taken_as_is(p, t):
    """The answer goes through the local list t from its first to its last entry."""
    c = p.st.heap.get(t)
    v = norm(p.val)
    if c is None or c.order is not None or c.src is not None and isinstance(c.src, tuple):
        return False
    if v.op != "comp":
        return False
    r = norm(v.a[1])
    while r.op == "nest":
        r = norm(r.a[0])
    return r is t


def p_sorted(ps, ans):
    """Whether the answer is put in order afterwards: False when certainly not."""
    for p in rets(ps):
        c = p.st.heap.get(ans)
        if c is None or c.order is not None:
            return None
    return False


# ------------------------------------------------------------------ searching
def searching(prog, rep, con, me):
    I, ps, fi = run(prog, rep, con, con)
    file = fi.module.path
    o = 1 if me else 0
    pq = param(fi, o + 1)
    pk = param(fi, o + 2)
    ans = answer_list(ps)
    seen = False
    inner_lists = {}
    for lp in loops_of(I):
        for it in lp.its:
            evs = since(it)
            ss = calls(evs, ".search")
            if it.kind == "skip" or it.elem is None:
                continue
            mine = [e for e in ss if any(x is norm(it.elem) for x in cargs(e)[0] + list(cargs(e)[1].values()))]
            if not mine:
                root = norm(it.key[0])
                if it.kind == "normal" and not ss and (root is pq or root.op == "slice" and norm(root.a[0]) is pq):
                    rep.bad("R29.queries", con, "unasked", "a query may not be searched for", file, it.node.lineno)
                continue
            seen = True
            e = mine[0]
            a, kw = cargs(e)
            root = norm(it.key[0])
            if root is pq:
                rep.ok("R29.pieces", con)
            else:
                piece(rep, "R29.pieces", con, root, pq, "the queries", file, e.line)
            if reordered(it) is True:
                rep.bad("R29.queries", con, "reordered", "the queries are not taken in order", file, it.node.lineno)
            k = kw.get("k", a[2] if len(a) > 2 else None)
            if k is None:
                rep.bad("R29.queries", con, "k", "the number of neighbours asked for is not passed on", file, e.line)
            elif k is not pk:
                if pure(lin(k)):
                    rep.bad("R29.queries", con, "k", "the number of neighbours asked for is not passed on", file, e.line)
                else:
                    rep.unk("R29.queries", con, "k not understood")
            after = evs[evs.index(e) + 1:]
            failed = e.kind == "callx"
            hand = any(x.kind == "handler" for x in after)
            if it.kind not in ("normal", "continue"):
                if it.kind in ("break", "return"):
                    rep.bad("R29.queries", con, "break", "the queries after this one may be left out", file, it.node.lineno)
                elif failed and me and (not hand or stops(after, it, result(e))):
                    rep.bad("R29.goon", con, "stops", "a failing query ends the whole search", file, e.line)
                continue
            if me:
                rep.ok("R29.goon", con)
                if failed:
                    cs = counted(after, "failed_items")
                    if len(cs) == 1:
                        old, d = delta(cs[0].a[2], "failed_items")
                        rep.check("R29.count", con, old == 1 and d == {1: 1} or old > 1 or not pure(d) and bool(d), "failed", "a failed query is not counted as one", file, cs[0].line)
                    elif not cs:
                        rep.bad("R29.count", con, "failed", "a failed query is not counted", file, e.line)
                    else:
                        rep.unk("R29.count", con, "count not understood")
                elif counted(after, "failed_items"):
                    rep.bad("R29.count", con, "failed", "a query that succeeded is counted as failed", file, e.line)
                reported(rep, "R29.report", con, after, it.facts, failed, file, e.line)
            lists = [(t, added(it, t)) for t, c in it.st.heap.items() if c.kind == "list" and outer_list(it, t)]
            got = [(t, n) for t, n in lists if n]
            if not got:
                if lists and not any(c.kind not in ("list",) and outer_list(it, t) for t, c in it.st.heap.items()):
                    rep.bad("R29.queries", con, "missing", "a query gets no list of results, so those after it are taken for the answers to others", file, e.line)
                else:
                    rep.unk("R29.queries", con, "results not understood")
                continue
            if len(got) > 1:
                rep.unk("R29.queries", con, "results not understood")
                continue
            t, new = got[0]
            inner_lists[t] = it.node
            if any(x.kind == "linsert" and norm(x.a[0]) is t for x in after):
                rep.bad("R29.queries", con, "front", "results are not in the order of the queries", file, e.line)
            elif len(new) > 1 and all(single(x, it) for x in new):
                rep.bad("R29.queries", con, "several", "a query gets more than one list of results", file, e.line)
            elif len(new) == 1 and single(new[0], it):
                v = norm(new[0].val)
                if not failed and v is result(e):
                    rep.ok("R29.queries", con)
                elif not failed and (is_const(v) or v.op == "alloc" and not it.st.heap[v].entries and it.st.heap[v].src is None):
                    rep.bad("R29.queries", con, "dropped", "the results of a query are not answered", file, e.line)
                elif failed and v.op == "item" and norm(v.a[0]) is t:
                    rep.bad("R29.queries", con, "error", "a failed query is answered with the results of another", file, e.line)
                elif failed:
                    rep.check("R29.queries", con, v.op == "alloc" and not it.st.heap[v].entries or not (is_const(v) or contains(v, lambda x: x.op == "exc")), "error", "a failed query is answered with something that is not a list of results", file, e.line)
                else:
                    rep.unk("R29.queries", con, "results not understood")
            elif len(new) == 1 and new[0].tag == "rest" and norm(new[0].val) is result(e):
                rep.bad("R29.queries", con, "flattened", "the results of all queries are answered in one list", file, e.line)
            else:
                rep.unk("R29.queries", con, "results not understood")
    if not seen:
        for x in ("pieces", "queries") + (("goon", "count", "report") if me else ()):
            rep.unk("R29." + x, con, "no search loop found")
        return
    if ans is None:
        rep.unk("R29.queries", con, "answer not understood")
        return
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind != "normal" or not it.key or not contains(norm(it.key[0]), lambda x: x is pq) or lp.node in inner_lists.values():
                continue
            evs = since(it)
            ran = any(e.kind == "iter" and e.node in inner_lists.values() for e in evs)
            for t in inner_lists:
                if t is ans or not ran or t not in it.st.heap:
                    continue
                new = added(it, ans)
                if outer_list(it, t):
                    if new:
                        rep.bad("R29.queries", con, "accumulated", "results of earlier batches are answered again", file, it.node.lineno)
                    continue
                want = len(it.st.heap[t].entries)
                if new and any(x.val is not None and strip_ver(x.val) is t for x in new):
                    rep.bad("R29.queries", con, "nested", "the results of a batch are answered as one", file, it.node.lineno)
                elif not new:
                    rep.bad("R29.queries", con, "lost", "the results of a batch are not answered", file, it.node.lineno)
                elif len(new) == 2 * want and want:
                    rep.bad("R29.queries", con, "twice", "the results of a batch are answered twice", file, it.node.lineno)
                elif len(new) == want:
                    rep.ok("R29.queries", con)
                else:
                    rep.unk("R29.queries", con, "results not understood")
            if me:
                cs = counted(evs, "processed_items")
                if not cs:
                    if not any(counted(since(o), "processed_items") for l2 in loops_of(I) for o in l2.its):
                        rep.bad("R29.count", con, "uncounted", "searched queries are not counted", file, it.node.lineno)
                    else:
                        rep.unk("R29.count", con, "count not understood")
                elif len(cs) == 1:
                    old, d = delta(cs[0].a[2], "processed_items")
                    vecs = {x for t in d if t != 1 for x in walk(t) if x.op == "slice" and norm(x.a[0]) is pq}
                    ok = batch_length(d, vecs, ())
                    if old == 0 and asked(it.facts, "processed_items"):
                        rep.unk("R29.count", con, "count not understood")
                    elif old == 0 and pure(d):
                        rep.bad("R29.count", con, "reset", "the batches before are forgotten", file, cs[0].line)
                    elif ok:
                        rep.ok("R29.count", con)
                    elif ok is False:
                        rep.bad("R29.count", con, "amount", "the count does not grow by the number of queries", file, cs[0].line)
                    else:
                        rep.unk("R29.count", con, "count not understood")
                else:
                    rep.unk("R29.count", con, "count not understood")


# ------------------------------------------------------------------ files
def from_files(prog, rep):
    con = "create_vectors_from_files"
    I, ps, fi = run(prog, rep, con, con)
    file = fi.module.path
    pf, pn = param(fi, 0), param(fi, 1)
    seen = False
    for p in rets(ps):
        for x in walk(p.val):
            if x.op == "call" and x.a[0] in (".reshape", "numpy.reshape"):
                dims = [d for a in x.a[1][1:] for d in (a.a if a.op == "tuple" else (a,))]
                if len(dims) > 1 and all(is_const(d) for d in dims) and {cval(d) for d in dims} >= {0, -1}:
                    rep.bad("R29.files", con, "reshape", "an array cannot be given the shape (0, -1): with no vectors the call fails", file, fi.node.lineno)
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind == "skip" or it.elem is None or norm(it.key[0]) is not pf:
                continue
            evs = since(it)
            pr = calls(evs, ".process_document")
            if not pr:
                if it.kind == "normal":
                    rep.bad("R29.files", con, "skipped", "a file may be left out", file, it.node.lineno)
                continue
            seen = True
            e = pr[0]
            a, kw = cargs(e)
            if norm(it.elem) not in a + list(kw.values()):
                rep.unk("R29.files", con, "file not understood")
            if pn not in a + list(kw.values()):
                rep.bad("R29.files", con, "parser", "the parser asked for is not used", file, e.line)
            if it.kind in ("break", "return") or it.kind == "raise" and (e.kind == "callx" and not any(x.kind == "handler" for x in evs)):
                rep.bad("R29.goon", con, "stops", "a file that fails ends the whole call", file, e.line)
                continue
            if it.kind != "normal":
                continue
            rep.ok("R29.goon", con)
            if reordered(it) is True:
                rep.bad("R29.files", con, "reordered", "the files are not taken in order", file, it.node.lineno)
            lists = [added(it, t) for t, c in it.st.heap.items() if c.kind == "list" and outer_list(it, t)]
            if any(x is None for x in lists) or len(lists) < 2:
                rep.unk("R29.files", con, "answer not understood")
                continue
            r = result(e)
            vals = [norm(x.val) for n in lists for x in n if x.val is not None]
            emb = [v for v in vals if contains(v, lambda x: is_const(x) and cval(x) == "embedding")]
            met = [v for v in vals if contains(v, lambda x: is_const(x) and cval(x) == "metadata")]
            has = tru_in(it.facts, "embedding", r)
            if len(emb) != len(met):
                rep.bad("R29.files", con, "misaligned", "vectors and metadata are not added together", file, it.node.lineno)
            elif len(emb) > 1:
                rep.bad("R29.files", con, "twice", "a file is answered twice", file, it.node.lineno)
            elif e.kind == "call" and not emb and has is True and not any(x.kind == "handler" for x in evs):
                rep.bad("R29.files", con, "lost", "the vector of a file is not answered", file, it.node.lineno)
            else:
                rep.ok("R29.files", con)
    if not seen:
        rep.unk("R29.files", con, "no loop over the files found")
        rep.unk("R29.goon", con, "no loop over the files found")


def tru_in(facts, key, r):
    for a, v in facts.items():
        if a.op == "in" and is_const(a.a[0]) and cval(a.a[0]) == key and norm(a.a[1]) is r:
            return v
    return None


def c29(prog, rep):
    rep.explain = "Interprocedural path-sensitive abstract interpretation of the batch operations; one arbitrary iteration of each loop, also of the loop body run by executor threads, is examined and the bounds of the slices handed over are compared as linear expressions."
    rep.rule("R29.pieces", "the batches are [i, i+n) for i = 0, n, 2n ... up to the number of items: no item is left out or handed over twice", 3)
    rep.rule("R29.lockstep", "vectors and metadata of a batch are cut at the same places", 2)
    rep.rule("R29.goon", "a failing batch, query or file does not stop the others", 3)
    rep.rule("R29.count", "every batch is counted once, as processed or as failed, with all of its items", 3)
    rep.rule("R29.report", "the error callback is called for every failure and for nothing else", 3)
    rep.rule("R29.order", "ids are answered in the order of the input, whatever the order in which batches finish", 2)
    rep.rule("R29.queries", "every query gets exactly one list of results, in the order of the queries, with the caller's k", 2)
    rep.rule("R29.files", "every file that could be processed gives one vector and one metadata, in order", 1)
    insert(prog, rep)
    parallel(prog, rep)
    searching(prog, rep, "BatchManager.batch_search", True)
    searching(prog, rep, "batch_search", False)
    from_files(prog, rep)


CHECKS = {"C29": c29}
