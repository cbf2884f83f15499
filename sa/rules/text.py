"""Chunking: text is covered without gaps, chunks are the slices they say they are, loops make progress."""
import ast

from .. import linear
from ..common import *
from ..common import AnalysisError, Interp, Policy
from ..terms import NONE, cval, const, contains, is_const, mk, norm, show, strip_ver, subst, walk
from .storage import rets

ROLES = ("chunk_size", "chunk_overlap", "min_chunk_size", "max_chunk_size")


class Iters(Policy):
    iterations = True


def roles(prog, cls):
    """Fields of cls that hold a configuration size: {term: key}."""
    out = {}
    me = self_of(cls)
    for p in Interp(prog).init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            k = v.a[1] if v.op in ("get", "item") and len(v.a) >= 2 else None
            if o is me and isinstance(k, type(NONE)) and is_const(k) and cval(k) in ROLES:
                out[mk("init", me, f)] = cval(k)
    return out


def base_facts(role):
    out = []
    by = {k: t for t, k in role.items()}
    for t, k in role.items():
        out.append({t: 1, 1: -1} if k == "chunk_size" else {t: 1})
    if "min_chunk_size" in by and "chunk_size" in by and "chunk_overlap" in by:     # the chunking processor refuses larger overlaps
        out.append({by["chunk_size"]: 1, by["chunk_overlap"]: -1, 1: -1})
    return out


def unwrap(t):
    """Drop stripping of outer white space."""
    t = norm(t)
    while t.op == "call" and t.a[0] in (".strip", ".lstrip", ".rstrip") and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op == "call" and t.a[0] == "str" and len(t.a[1]) == 1:
        t = unwrap(t.a[1][0])
    return t


def entry_of(c, key):
    v = None
    for e in c.entries:
        if e.tag == "one" and e.key is not None and is_const(e.key) and cval(e.key) == key:
            v = e.val
    return v


def new_chunks(it):
    """Chunk dictionaries added to a list in this iteration: [(list term, dict contents)]."""
    out = []
    for t, c in it.st.heap.items():
        if c.kind not in ("list", "deque"):
            continue
        ents = list(c.entries)
        for i, e in enumerate(ents):
            if e.tag == "prev" and e.node is it.node:
                ents = ents[i + 1:]
                break
        else:
            if len(c.loops) > len(it.st.loops) - 1:
                continue
        for e in ents:
            if e.tag in ("one", "many") and e.val is not None and e.val.op == "alloc":
                d = it.st.heap.get(e.val)
                if d is not None and d.kind == "dict" and entry_of(d, "text") is not None:
                    out.append((t, d))
    return out


def slices_in(x):
    return [y for y in walk(norm(x)) if y.op == "slice" and len(y.a) >= 3]


def about(it, text):
    """The iteration belongs to a call that cuts this text."""
    return any(contains(norm(x), lambda y: y is text) for x in list(it.facts) + list(it.st.env.values()))


class Loop:
    def __init__(self, node, fr):
        self.node, self.fr, self.its = node, fr, []


def loops_of(I):
    g = {}
    for it in I.iterations:
        g.setdefault(id(it.node), Loop(it.node, it.fr)).its.append(it)
    return list(g.values())


def site_phis(it):
    return {n: norm(v) for n, v in (it.carried or {}).items() if v.op == "phi"}


def range_of(it):
    r = norm(it.key[0]) if it.key and isinstance(it.key[0], type(NONE)) else None
    if r is not None and r.op == "call" and r.a[0] == "range" and not r.a[2]:
        a = r.a[1]
        lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], const(1)) if len(a) == 2 else a
        return norm(mk("idx", *it.key)), lo, hi, st
    return None


def position(lp):
    """(text, position atom, initial value, kind) of a loop that cuts a text into slices, or None."""
    found = {}
    for it in lp.its:
        if it.kind == "skip" or it.carried is None:
            continue
        ph = set(site_phis(it).values())
        rng = range_of(it)
        srcs = [v for _, d in new_chunks(it) for v in [entry_of(d, "text")]] + [a for a in it.facts]
        for x in srcs:
            for s in slices_in(x):
                a = s.a[1]
                if a in ph and not contains(s.a[0], lambda y: y in ph):
                    found[(s.a[0], a)] = (s.a[0], a, a.a[2], "phi")
                elif rng and a is rng[0]:
                    found[(s.a[0], a)] = (s.a[0], a, rng[1], "range")
    if len({a.uid for _, a in found}) > 1:
        return []
    return list(found.values())


def exotic(exprs, ok_phis, site):
    """Something in the expressions that is not understood."""
    for e in exprs:
        for k in e:
            if k == 1:
                continue
            for y in walk(k):
                if y.op == "unk":
                    return True
                if y.op == "phi" and y.a[0] == site and y not in ok_phis:
                    return True
    return False


class Queries:
    """Entailment queries with the text replaced by one placeholder, so that equal queries about different texts are answered once."""
    answers = {}

    def __init__(self, text):
        self.map = {text: mk("param", "<text>")}
        self.memo = {}
        self.exprs = {}

    def of(self, e):
        k = frozenset((x if x == 1 else x.uid, v) for x, v in e.items())
        r = self.exprs.get(k)
        if r is None:
            r = self.exprs[k] = {(x if x == 1 else subst(norm(x), self.map, self.memo)): v for x, v in e.items()}
        return r

    def clash(self, facts, goals):
        goals = [self.of(g) for g in goals]
        cs = linear.relevant([self.of(f) for f in facts], goals) + goals
        key = frozenset(frozenset((x if x == 1 else x.uid, v) for x, v in c.items()) for c in cs)
        if key not in self.answers:
            self.answers[key] = linear.unsat(cs)
        return self.answers[key]

    def proves(self, facts, goal):
        return self.clash(facts, [linear.add({k: -v for k, v in goal.items()}, {1: -1})])


def cut_loop(prog, rep, cls, con, lp, pos, role):
    text, p, init, kind = pos
    Q = Queries(text)
    size = [t for t, k in role.items() if k == "chunk_size"]
    n = linear.norm_len(text)
    fn, file = lp.fr.fn, lp.fr.module.path
    line = lp.node.lineno
    base = base_facts(role) + [linear.ge(p, const(0))]
    by = {k: t for t, k in role.items()}
    rep.check("R25.cover", con, linear.unsat(base + [linear.add(linear.lin(init), {1: -1})]) is True, "start",
              f"the first chunk starts at {show(init)}, not at the beginning of the text", file, line)
    # counters: phi names that only ever count
    cnt = {}
    for it in lp.its:
        for nme, ph in site_phis(it).items():
            v = it.st.env.get(nme)
            d = linear.add(linear.lin(norm(v)), linear.lin(ph), -1) if v is not None else None
            if it.kind in ("normal", "continue") and d not in ({}, {1: 1}):
                cnt[ph] = False
            cnt.setdefault(ph, is_const(ph.a[2]))
    okp = {p} | {ph for ph, c in cnt.items() if c}
    site = p.a[0] if kind == "phi" else None
    seen = set()
    verdict = {}
    makes = any(new_chunks(it) for it in lp.its)

    def decide(rule, slot, msg, facts, goal, it):
        r = Q.proves(facts, goal)
        if r is True:
            verdict.setdefault(rule, "ok")
            return
        if r is None or exotic([goal], okp, site) or exotic(facts, okp | {x for e in facts for x in e if x != 1 and x.op == "phi" and x.a[0] != site}, site):
            verdict[rule] = "unk" if verdict.get(rule) != "bad" else "bad"
            rep.unk(rule, con, msg + " cannot be decided")
            return
        verdict[rule] = "bad"
        rep.bad(rule, con, slot, msg, file, line)

    for it in lp.its:
        if it.kind == "raise" or not about(it, text):
            continue
        facts = base + linear.fact_exprs(it.facts)
        if it.kind == "skip":
            if kind == "range":
                facts.append(linear.ge(range_of(it)[1], range_of(it)[2]))
            k = ("skip", tuple(sorted(map(str, facts))))
            if k in seen:
                continue
            seen.add(k)
            sub = [linear.add({}, e) for e in facts]
            decide("R25.cover", "skip", "the loop may be skipped although the text is not empty", sub, {n: -1}, it)
            continue
        sliding = any(at.op == "eq" and pol and any(is_const(x) and cval(x) == "sliding_window" for x in at.a) for at, pol in it.facts.items())
        new = new_chunks(it)
        if kind == "phi":
            nm = [k for k, v in site_phis(it).items() if v is p]
            nxt = norm(it.st.env[nm[0]]) if nm and nm[0] in it.st.env else None
        else:
            _, lo, hi, step = range_of(it)
            facts += [linear.ge(p, lo), linear.ge(hi, p, 1)]
            nxt = norm(mk("bin", "+", p, step))
            if kind == "range":
                decide("R25.progress", "step", "the window step may be zero or negative", base, linear.ge(step, const(0), 1), it)
        # the piece of this iteration
        pieces = []
        for _, d in new:
            pieces.append(entry_of(d, "text"))
        if not pieces:
            for at, pol in it.facts.items():
                for s in slices_in(at):
                    if s.a[0] is text and s.a[1] is p:
                        pieces.append(s)
        cuts = {s for x in pieces for s in slices_in(x) if s.a[0] is text and s.a[1] is p}
        key = (it.kind, tuple(sorted(x.uid for x in cuts)), nxt.uid if nxt is not None else 0, len(new), frozenset((norm(a).uid, b) for a, b in it.facts.items()))
        if key in seen:
            continue
        seen.add(key)
        if len(cuts) > 1:
            rep.unk("R25.slice", con, "more than one slice in an iteration")
            continue
        if not cuts:
            # nothing was cut off in this iteration
            if new:
                decided = [unwrap(x) for x in pieces]
                if all(not contains(x, lambda y: y.op in ("unk", "phi", "call")) for x in decided):
                    rep.bad("R25.slice", con, "text", "a chunk does not consist of the text from the current position", file, line)
                else:
                    rep.unk("R25.slice", con, "chunk text not understood")
                continue
            if it.kind in ("break", "return", "exit"):
                if it.kind != "exit":
                    decide("R25.cover", "leave", "the loop is left before the end of the text is reached", facts, linear.ge(p, n), it)
            elif nxt is not None and nxt is not p:
                if not any(contains(at, lambda y: y is text) and not all(linear.norm_len(text) in walk(at) for _ in [0]) for at in map(norm, it.facts)):
                    decide("R25.cover", "jump", "the position moves on without a piece having been cut off", facts, linear.ge(p, nxt), it)
                else:
                    rep.unk("R25.cover", con, "position moves without a slice")
            continue
        cut = next(iter(cuts))
        B = cut.a[2] if not (is_const(cut.a[2]) and cval(cut.a[2]) is None) else n
        if len(cut.a) > 3 and not (is_const(cut.a[3]) and cval(cut.a[3]) is None):
            rep.bad("R25.slice", con, "stride", "a chunk skips characters of its slice", file, line)
            continue
        # content of the chunk
        for _, d in new:
            tx = unwrap(entry_of(d, "text"))
            if tx is cut:
                rep.ok("R25.slice", con)
            elif contains(tx, lambda y: y.op in ("unk", "phi") and y is not p) or tx.op == "call" and not tx.a[0].startswith("."):
                rep.unk("R25.slice", con, "chunk text not understood")
            else:
                rep.bad("R25.slice", con, "text", f"a chunk's text is {show(tx)[:80]}, not the slice of the text itself", file, line)
            for fld, want in (("start_pos", p), ("end_pos", norm(mk("call", "min", (B, n), (), 0)))):
                v = entry_of(d, fld)
                if v is None:
                    rep.bad("R25.slice", con, fld, f"a chunk has no {fld}", file, line)
                    continue
                v = norm(v)
                if v is want:
                    continue
                eq = Q.proves(facts, linear.ge(v, want)) is True and Q.proves(facts, linear.ge(want, v)) is True
                if eq:
                    continue
                if exotic([linear.lin(v)], okp, site) or contains(v, lambda y: y.op == "call" and y.a[0] not in ("len", "min", "max", ".rfind", ".find", ".strip", ".lstrip", ".rstrip") and not y is text and y not in walk(text)):
                    rep.unk("R25.slice", con, f"{fld} not understood")
                else:
                    rep.bad("R25.slice", con, fld, f"{fld} of a chunk is {show(v)[:80]}, not where its text is cut", file, line)
            if size:
                reach = norm(mk("call", "min", (B, n), (), 0))
                decide("R25.size", "size", "a chunk may be longer than chunk_size", facts, linear.ge(norm(mk("bin", "+", p, size[0])), reach), it)
        if len(new) > 1:
            rep.bad("R25.keep", con, "twice", "a piece of the text is added more than once", file, line)
        elif new:
            rep.ok("R25.keep", con)
        elif not makes:
            rep.unk("R25.keep", con, "chunks are made elsewhere")
        else:
            why = dropped(it, cut, by)
            if why is True:
                rep.ok("R25.keep", con)
            elif why is None:
                rep.unk("R25.keep", con, "a piece is left out for a reason not understood")
            else:
                rep.bad("R25.keep", con, "lost", "a piece of the text that is not blank is left out", file, line)
        # where the loop goes on
        if it.kind in ("normal", "continue"):
            if nxt is None:
                continue
            more = list(facts)
            if kind == "range":
                more.append(linear.ge(range_of(it)[2], nxt, 1))
            decide("R25.progress", "progress", "the next piece may start where this one did: the loop does not end", facts, linear.ge(nxt, p, 1), it)
            decide("R25.cover", "gap", "characters between the end of a piece and the start of the next belong to no chunk", more, linear.ge(B, nxt), it)
            if not sliding and kind == "phi":
                both = facts + [linear.ge(B, n)]
                test = lp.node.test if isinstance(lp.node, ast.While) else None
                if isinstance(test, ast.Constant):
                    decide("R25.once", "tail", "another chunk is cut after one that reached the end of the text", facts, linear.ge(n, B, 1), it)
                else:
                    goals = [linear.ge(B, n), linear.ge(n, nxt, 1)]
                    r = Q.clash(facts, goals)
                    if r is True:
                        verdict.setdefault("R25.once", "ok")
                    elif r is None or exotic(both, okp, site):
                        rep.unk("R25.once", con, "not decided")
                    else:
                        rep.bad("R25.once", con, "tail", "another chunk is cut after one that reached the end of the text", file, line)
        if it.kind in ("break", "return", "exit"):
            if kind == "range" and it.kind == "exit":
                continue
            decide("R25.cover", "leave", "the loop is left before the end of the text is reached", facts, linear.ge(B, n), it)
        if kind == "range" and it.kind in ("normal", "continue"):
            last = facts + [linear.ge(nxt, range_of(it)[2])]
            decide("R25.cover", "leave", "the last window does not reach the end of the text", last, linear.ge(B, n), it)
        numbering(rep, con, it, new, file, line)
    if kind == "range":
        rng = next(range_of(it) for it in lp.its if it.kind != "skip" and range_of(it))
        decide("R25.cover", "skip", "the loop may be skipped although the text is not empty", base + [linear.ge(rng[1], rng[2])], {n: -1}, None)
    steady(rep, con, lp, file, line)
    for rule, v in verdict.items():
        if v == "ok":
            rep.ok(rule, con)


def steady(rep, con, lp, file, line):
    """The counter the ids come from stands still when no chunk is added."""
    names, byiter = set(), False
    for it in lp.its:
        if it.kind != "skip":
            ids = {norm(entry_of(d, "id")) for _, d in new_chunks(it) if entry_of(d, "id") is not None}
            names |= {k for k, v in site_phis(it).items() if v in ids}
            ix = norm(mk("idx", *it.key))
            own = lambda x: all(y is ix or not y.op in ("idx", "elem", "phi", "unk", "call") for y in walk(x) if y is ix or not contains(ix, lambda z: z is y))
            if any(contains(x, lambda y: y is ix) and own(x) for x in ids):
                byiter = True
    for it in lp.its:
        if it.kind in ("normal", "continue") and not new_chunks(it):
            if byiter:
                rep.bad("R25.ids", con, "idle", "the id moves on although no chunk is added", file, line)
            for k in names:
                v = it.st.env.get(k)
                if v is not None and k in site_phis(it):
                    rep.check("R25.ids", con, norm(v) is site_phis(it)[k], "idle", "the id moves on although no chunk is added", file, line)


def dropped(it, cut, by):
    """Why an iteration that cut a piece added no chunk: True = blank or below the minimum size, False = neither, None = unclear."""
    lo = by.get("min_chunk_size")
    hi = by.get("max_chunk_size")
    rel = False
    for at, pol in it.facts.items():
        at = norm(at)
        if at.op == "truthy" and not pol and unwrap(at.a[0]) is cut:
            return True
        if at.op == "lt":
            a, b = at.a
            if pol and a.op == "call" and a.a[0] == "len" and unwrap(a.a[1][0]) is cut and b is lo:
                return True
            if pol and b.op == "call" and b.a[0] == "len" and unwrap(b.a[1][0]) is cut and a is hi:
                return True
        if contains(at, lambda y: y.op == "unk"):
            rel = True
    return None if rel else False


def numbering(rep, con, it, new, file, line):
    """Ids count the chunks: a counter from 0 that moves by one exactly when a chunk is added, or the length of the list."""
    ids = [entry_of(d, "id") for _, d in new]
    if any(v is None for v in ids):
        rep.bad("R25.ids", con, "none", "a chunk has no id", file, line)
        return
    phs = site_phis(it)
    for (lst, d), v in zip(new, ids):
        v = norm(v)
        if v.op == "call" and v.a[0] == "len" and norm(v.a[1][0]) is norm(lst):
            rep.ok("R25.ids", con)
            continue
        nm = [k for k, x in phs.items() if x is v]
        if not nm and v is norm(mk("idx", *it.key)):
            r = norm(it.key[0]) if not isinstance(it.key[0], str) else None
            if r is not None and r.op == "call" and r.a[0] == "range" and len(r.a[1]) > 1:
                lo, st = norm(r.a[1][0]), norm(r.a[1][2]) if len(r.a[1]) > 2 else None
                if is_const(lo) and cval(lo) != 0 or st is not None and not is_const(st) and st.op not in ("unk", "phi") or st is not None and is_const(st) and cval(st) != 1:
                    rep.bad("R25.ids", con, "position", "the id is a position in the text, not a count of the chunks", file, line)
                elif st is not None and not is_const(st):
                    rep.unk("R25.ids", con, "id not understood")
                else:
                    rep.ok("R25.ids", con)
                continue
            rep.ok("R25.ids", con)
            continue
        if not nm:
            if is_const(v):
                rep.bad("R25.ids", con, "const", "every chunk gets the same id", file, line)
            else:
                rep.unk("R25.ids", con, "id not understood")
            continue
        if it.kind in ("normal", "continue"):
            nx = it.st.env.get(nm[0])
            good = nx is not None and linear.add(linear.lin(norm(nx)), linear.lin(v), -1) == {1: 1}
            rep.check("R25.ids", con, good, "step", "the id does not move on by one when a chunk is added", file, line)
        rep.check("R25.ids", con, is_const(v.a[2]) and cval(v.a[2]) == 0, "first", "numbering does not start at 0", file, line)


def cut_source(c):
    """The container was made by slicing a part out of another."""
    return isinstance(c.src, tuple) and c.src and c.src[0] == "slice" and not all(is_const(x) and cval(x) is None for x in c.src[2:4])


def final_chunks(p):
    """(dictionary contents, chunk list term) of what the path answers under 'chunks'."""
    v = p.val
    c = p.st.heap.get(v)
    if c is not None and c.kind == "dict":
        return entry_of(c, "chunks")
    out = None
    for e in p.events:
        if e.kind == "setitem" and len(e.a) == 3 and norm(e.a[0]) is norm(v) and is_const(e.a[1]) and cval(e.a[1]) == "chunks":
            out = e.a[2]
    return out


def limited(facts, n, by):
    """The facts say that a chunk whose text has length n is outside the size limits."""
    for at, pol in facts.items():
        at = norm(at)
        if at.op == "lt" and pol and (at.a[0] is n and at.a[1] is by.get("min_chunk_size") or at.a[1] is n and at.a[0] is by.get("max_chunk_size")):
            return True
    return False


def is_chunk(t, st):
    d = st.heap.get(t) if t is not None and t.op == "alloc" else None
    return d is not None and d.kind == "dict" and entry_of(d, "text") is not None and entry_of(d, "id") is not None


def passed_on(rep, con, lps, role):
    """Loops over the chunks that were made pass every chunk on unless a size limit excludes it."""
    by = {k: t for t, k in role.items()}
    nodes = set()
    for lp in lps:
        for it in lp.its:
            if it.elem is None or it.kind in ("raise", "skip", "exit"):
                continue
            e = it.elem if it.elem.op != "tuple" else next((x for x in it.elem.a if is_chunk(x, it.st)), None)
            if not is_chunk(e, it.st):
                continue
            nodes.add(id(it.node))
            n = linear.norm_len(norm(entry_of(it.st.heap[e], "text")))
            line, file = it.node.lineno, it.fr.module.path
            if it.kind in ("break", "return"):
                rep.bad("R25.result", con, "stop", "not every chunk is gone through", file, line)
                continue
            kept = any(c.kind == "list" and any(x.val is e and it.key in (x.loops or ()) and x.tag in ("one", "many") for x in c.entries) for c in it.st.heap.values())
            if kept or limited(it.facts, n, by):
                rep.ok("R25.result", con)
            else:
                rep.bad("R25.result", con, "dropped", "a chunk within the size limits is left out of the answer", file, line)
    return nodes


def answered(rep, con, ps, role, file, filters=()):
    """Chunks that were made are in the answer unless a size limit excludes them."""
    by = {k: t for t, k in role.items()}
    seen = False
    for p in ps:
        if p.kind != "return":
            continue
        made = {}
        for t, c in p.st.heap.items():
            if c.kind == "list":
                for e in c.entries:
                    if e.tag in ("one", "many") and e.val is not None and e.val.op == "alloc":
                        d = p.st.heap.get(e.val)
                        if d is not None and d.kind == "dict" and entry_of(d, "text") is not None and entry_of(d, "id") is not None:
                            made[e.val] = d
        if not made:
            continue
        seen = True
        fl = final_chunks(p)
        c = p.st.heap.get(fl) if fl is not None else None
        line = getattr(p.node, "lineno", 0)
        if fl is None or c is None:
            if fl is not None and norm(fl).op == "slice" and norm(norm(fl).a[0]).op == "alloc" and not all(is_const(x) and cval(x) is None for x in norm(fl).a[1:]):
                rep.bad("R25.result", con, "cut", "only a part of the chunks is answered", file, line)
            elif fl is None or is_const(fl):
                rep.bad("R25.result", con, "none", "the chunks that were made are not in the answer", file, line)
            else:
                rep.unk("R25.result", con, "answered list not understood")
            continue
        if c.limit or cut_source(c):
            rep.bad("R25.result", con, "cut", "only a part of the chunks is answered", file, line)
            continue
        held = {}
        for e in c.entries:
            if e.val is not None:
                held[e.val] = e
        opaque = any(e.tag not in ("one", "many", "prev") or e.val is None or e.val.op not in ("alloc", "unk") for e in c.entries)
        ordered = c.order is None or c.order is False
        good = True
        for t, d in made.items():
            tx = norm(entry_of(d, "text"))
            n = linear.norm_len(tx)
            ent = held.get(t)
            facts = dict(p.facts)
            if ent is not None and ent.facts:
                facts.update(ent.facts)
            if ent is None:
                if opaque:
                    rep.unk("R25.result", con, "answered list not understood")
                    good = False
                    continue
                if any(e.tag == "prev" and id(e.node) in filters for e in c.entries):
                    continue
                if not limited(p.facts, n, by):
                    good = False
                    rep.bad("R25.result", con, "dropped", "a chunk within the size limits is left out of the answer", file, line)
            elif "min_chunk_size" in by:
                fx = [e for e in linear.fact_exprs(facts) if n in e] + [{t2: 1} for t2 in role]
                for goal, what in ((linear.ge(n, by["min_chunk_size"]), "shorter than min_chunk_size"), (linear.ge(by["max_chunk_size"], n), "longer than max_chunk_size")):
                    if linear.infeasible(fx + [linear.add({k: -v for k, v in goal.items()}, {1: -1})]) is not True:
                        good = False
                        rep.bad("R25.result", con, "limit", f"a chunk {what} may be answered", file, line)
        if good:
            rep.ok("R25.result", con)
    return seen


def parts(t):
    """The pieces a string is put together from."""
    t = norm(t)
    if t.op == "fmt":
        return [q for x in t.a for q in parts(x)] if all(isinstance(x, type(NONE)) for x in t.a) else [q for x in t.a for q in (parts(x) if isinstance(x, type(NONE)) else [])]
    if t.op == "bin" and t.a[0] == "+":
        return parts(t.a[1]) + parts(t.a[2])
    u = unwrap(t)
    if u is not t:
        return parts(u)
    return [t]


def blank(t, facts):
    """A fact on the path says that t is empty or blank."""
    u = unwrap(t)
    for at, pol in facts.items():
        at = norm(at)
        if at.op == "truthy" and not pol and unwrap(at.a[0]) is u:
            return True
    return False


def string_phis(it):
    return {n: v for n, v in site_phis(it).items() if is_const(v.a[2]) and isinstance(cval(v.a[2]), str)}


def collector(prog, rep, con, lp, ps, role):
    """A loop that collects elements in a string and emits chunks of it."""
    accs = set()
    for it in lp.its:
        for n, v in string_phis(it).items():
            accs.add(n)
    for n in sorted(accs):
        emits = any(new_chunks(it) for it in lp.its)
        grows = False
        for it in lp.its:
            ph = string_phis(it).get(n)
            if ph is not None and it.kind in ("normal", "continue"):
                ps_ = parts(it.st.env.get(n, NONE))
                grows = grows or len([q for q in ps_ if not is_const(q)]) > 1 and any(unwrap(q) is ph for q in ps_)
            if ph is not None:
                grows = grows or any(unwrap(q) is ph for _, d in new_chunks(it) for q in parts(entry_of(d, "text")))
        if not emits or not grows:
            continue
        collect(rep, con, lp, n, ps, role)
        return True
    return False


def collect(rep, con, lp, n, ps, role):
    file, line = lp.fr.module.path, lp.node.lineno
    seen = False
    for it in lp.its:
        if it.kind in ("raise", "skip", "exit") or n not in (it.carried or {}):
            continue
        if it.elem is None and norm(it.key[0]).op == "while":
            continue
        seen = True
        phi = norm(it.carried[n])
        if phi.op != "phi":
            continue
        root = norm(it.key[0])
        elem = norm(it.elem) if it.elem is not None else mk("idx", *it.key)
        if elem.op == "tuple":
            es = [x for x in elem.a if isinstance(x, type(NONE)) and x.op != "idx"]
            elem = es[0] if len(es) == 1 else elem
        if elem.op == "idx":
            elem = norm(mk("item", root, elem))
        rc = it.st.heap.get(root)
        if root.op == "slice" or rc is not None and (rc.limit or cut_source(rc)):
            rep.bad("R25.elements", con, "root", "only a part of the elements is gone through", file, line)
        if it.kind in ("break", "return"):
            rep.bad("R25.elements", con, "stop", "the collection stops before the last element", file, line)
            continue
        now = norm(it.st.env.get(n, NONE))
        texts = [norm(entry_of(d, "text")) for _, d in new_chunks(it)]
        pn, pt = parts(now), [parts(x) for x in texts]
        everything = pn + [q for x in pt for q in x]
        vague = [q for q in everything if contains(q, lambda y: y.op == "unk") or q.op in ("call",) and contains(q, lambda y: y is elem or y is phi)]

        els = {unwrap(elem)}
        if rc is not None:
            els |= {unwrap(e.val) for e in rc.entries if e.val is not None and e.tag in ("one", "many")}

        def has(x):
            return any(unwrap(q) is unwrap(x) or x is elem and unwrap(q) in els for q in everything)
        for x, what, slot in ((elem, "an element", "element"), (phi, "what was collected before", "carry")):
            if has(x) or blank(x, it.facts) or x is elem and any(blank(y, it.facts) for y in els):
                rep.ok("R25.elements", con)
            elif vague:
                rep.unk("R25.elements", con, f"{what}: not understood")
            else:
                rep.bad("R25.elements", con, slot, f"{what} is neither kept in the collecting text nor emitted in a chunk", file, line)
        for seq in [pn] + pt:
            pos = {id(phi): [i for i, q in enumerate(seq) if unwrap(q) is phi], id(elem): [i for i, q in enumerate(seq) if unwrap(q) in els]}
            if pos[id(phi)] and pos[id(elem)] and max(pos[id(phi)]) > min(pos[id(elem)]):
                rep.bad("R25.elements", con, "order", "an element is put before what was collected earlier", file, line)
        # emitted and kept at once
        if any(unwrap(q) is phi for x in pt for q in x) and any(unwrap(q) is phi for q in pn):
            rep.bad("R25.elements", con, "double", "what a chunk was made of is collected again in full", file, line)
        if any(unwrap(q) in els for x in pt for q in x) and any(unwrap(q) in els for q in pn):
            rep.bad("R25.elements", con, "double", "an element that was emitted is collected again", file, line)
        for q in pn:                        # x[-k:] is all of x when k is 0
            lo = q.a[1] if q.op == "slice" and q.a[0] is phi else None
            if lo is None or is_const(lo) and cval(lo) is None:
                continue
            if lo.op == "un" and lo.a[0] == "-" and any(unwrap(y) is phi for x in pt for y in x):
                fx = [{t: 1} for t in role] + linear.fact_exprs(it.facts)
                r = linear.infeasible(fx + [linear.add({}, linear.lin(lo.a[1]), -1)])
                if r is True:
                    rep.ok("R25.elements", con)
                elif r is None:
                    rep.unk("R25.elements", con, "overlap not understood")
                else:
                    rep.bad("R25.elements", con, "overlap", "with an overlap of 0 what a chunk was made of is collected again in full", file, line)
        numbering(rep, con, it, new_chunks(it), file, line)
        if not any(unwrap(q) is phi or unwrap(q) in els for q in pn):
            continue
        # after the loop the rest has to be emitted
        k = len(it.events)
        for p in ps:
            if p.kind != "return" or len(p.events) <= k or any(p.events[j] is not it.events[j] for j in range(k)):
                continue
            if any(p.facts.get(a, b) is not b for a, b in it.facts.items()):
                continue
            if blank(now, p.facts):
                continue
            inside = False
            vag = False
            for t, c in p.st.heap.items():
                if c.kind != "dict":
                    continue
                tx = entry_of(c, "text")
                if tx is None or entry_of(c, "id") is None:
                    continue
                q = [unwrap(y) for y in parts(tx)]
                if all(unwrap(y) in q or is_const(y) for y in pn):
                    inside = True
                if contains(norm(tx), lambda y: y.op == "unk"):
                    vag = True
            if inside:
                rep.ok("R25.elements", con)
            elif vag:
                rep.unk("R25.elements", con, "rest not understood")
            else:
                rep.bad("R25.elements", con, "rest", "what is left in the collecting text after the last element is not emitted", file, line)
    return seen


def page_steps(prog, rep, con, I, ps):
    """The running offset that maps a position to its page moves by the page's length and the separator the pages are joined with."""
    joins = set()
    for p in ps:
        c = p.st.heap.get(p.val) if p.val is not None else None
        t = norm(entry_of(c, "text")) if c is not None and c.kind == "dict" and entry_of(c, "text") is not None else None
        if t is not None and t.op == "call" and t.a[0] == ".join" and is_const(t.a[1][0]):
            lst = p.st.heap.get(t.a[1][1])
            for e in lst.entries if lst is not None else ():
                if e.val is not None and e.tag in ("one", "many"):
                    joins.add((len(cval(t.a[1][0])), norm(e.val)))
    by = {}
    for k, v in joins:
        by.setdefault(v, set()).add(k)
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind not in ("normal", "continue"):
                continue
            for n, phi in site_phis(it).items():
                v = it.st.env.get(n)
                if v is None or not (is_const(phi.a[2]) and cval(phi.a[2]) == 0):
                    continue
                d = linear.add(linear.lin(norm(v)), linear.lin(phi), -1)
                ls = [k for k in d if k != 1 and k.op == "call" and k.a[0] == "len" and k.a[1][0] in by]
                if len(ls) == 1 and d[ls[0]] == 1 and set(d) <= {1, ls[0]}:
                    want = by[ls[0].a[1][0]]
                    rep.check("R25.page", con, want == {d.get(1, 0)}, "step", f"page offsets move by the page length + {d.get(1, 0)}, but pages are joined with {sorted(want)} characters", it.fr.module.path, it.node.lineno)


CHANGING = (".strip", ".lstrip", ".rstrip", ".lower", ".upper", ".replace", ".join", ".expandtabs", ".casefold", ".title", ".translate")


def refused(prog, rep, cls, role):
    """The chunking processor becomes ready only with an overlap below the chunk size."""
    con = f"{cls.name}.initialize"
    by = {}
    for t, k in role.items():
        by.setdefault(k, t)
    if "chunk_size" not in by or "chunk_overlap" not in by:
        rep.unk("R25.progress", con, "settings not understood")
        return
    for p in rets(paths(prog, rep, cls, "initialize")):
        got = False
        rel = False
        for a, pol in p.facts.items():
            k = [role.get(norm(x)) for x in a.a if hasattr(x, "op")]
            if contains(a, lambda y: y is by["chunk_overlap"]):
                rel = rel or not (a.op in ("lt", "le") and len(k) == 2 and all(x is not None or is_const(y) for x, y in zip(k, a.a)))
            if a.op == "lt" and pol and k == ["chunk_overlap", "chunk_size"] or a.op == "le" and not pol and k == ["chunk_size", "chunk_overlap"]:
                got = True
        if got:
            rep.ok("R25.progress", con)
        elif rel:
            rep.unk("R25.progress", con, "test of the overlap not understood")
        else:
            rep.bad("R25.progress", con, "overlap", "an overlap that is not below the chunk size is accepted", cls.module.path, getattr(p.node, "lineno", 0) or cls.node.lineno)


def c25(prog, rep):
    """Each loop that cuts a text into pieces is interpreted for one arbitrary iteration; in the numeric domain of linear
    inequalities it must be entailed that pieces start at 0, follow each other without gap, move on, stay within the chunk size and end with
    the text. Loops that collect elements into chunks must put every element into the collecting string or an emitted chunk."""
    rep.rule("R25.slice", "a chunk is a slice of the text and its start_pos and end_pos are the bounds of that slice", 3)
    rep.rule("R25.cover", "pieces start at 0, leave no gap and end with the text", 3)
    rep.rule("R25.progress", "every iteration moves the position on", 3)
    rep.rule("R25.size", "a piece is not longer than chunk_size", 3)
    rep.rule("R25.keep", "a piece becomes exactly one chunk unless it is blank or below the minimum size", 3)
    rep.rule("R25.once", "no chunk follows one that reached the end of the text", 2)
    rep.rule("R25.ids", "chunks are numbered from 0 in steps of one", 3)
    rep.rule("R25.elements", "every element ends up, in order, in the collecting text or in an emitted chunk, and the rest is emitted", 1)
    rep.rule("R25.page", "page offsets account for the separators between the pages", 0)
    rep.rule("R25.result", "every chunk made is answered unless it is outside the size limits", 3)
    for cname_, entry in (("TextParser", "parse"), ("PDFParser", "parse"), ("OfficeParser", "parse"), ("DoclingParser", "parse"), ("ChunkingProcessor", "process")):
        cls = prog.cls(cname_)
        fi = cls.find(entry)
        if fi is None:
            raise AnalysisError(f"{cname_}.{entry} is gone")
        I = Interp(prog, Iters())
        ps = I.run_method(cls, fi)
        rep.saw(I, ps)
        role = roles(prog, cls)
        for lp in loops_of(I):
            con = f"{cname_}.{entry}:{lp.fr.fn.name}"
            found = position(lp)
            for pos in found:
                cut_loop(prog, rep, cls, con, lp, pos, role)
            if not found:
                collector(prog, rep, con, lp, ps, role)
        if cname_ == "PDFParser":
            page_steps(prog, rep, f"{cname_}.{entry}", I, ps)
        texts = {norm(pos[0]) for lp in loops_of(I) for pos in position(lp)}
        for p in ps:
            c = p.st.heap.get(p.val) if p.kind == "return" and p.val is not None else None
            t = entry_of(c, "text") if c is not None and c.kind == "dict" else None
            src = norm(c.src) if c is not None and c.kind == "dict" and c.src is not None else None
            if c is None and p.kind == "return" and p.val is not None:
                v = norm(p.val)
                if v.op == "call" and v.a[0] in (".copy", "dict") and v.a[1] and not any(e.kind in ("setitem", "mut") and norm(e.a[0]) is v and not (e.kind == "setitem" and is_const(e.a[1]) and cval(e.a[1]) != "text") for e in p.events):
                    src = norm(v.a[1][0])
            if t is None and src is not None and src.op == "param":
                own = [y for x in texts for y in walk(x) if y.op in ("item", "get") and norm(y.a[0]) is src and is_const(y.a[1]) and cval(y.a[1]) == "text"]
                for x in texts:
                    if own and x not in own and contains(x, lambda y: y in own) and (x.op == "slice" or x.op == "call" and x.a[0] in CHANGING):
                        rep.bad("R25.slice", f"{cname_}.{entry}", "whole", "the positions of the chunks refer to another text than the one answered", cls.module.path, getattr(p.node, "lineno", 0))
            if t is None or not texts or norm(t) in texts:
                continue
            if any(contains(norm(t), lambda y: y is x) for x in texts):
                rep.bad("R25.slice", f"{cname_}.{entry}", "whole", "the positions of the chunks refer to another text than the one answered", cls.module.path, getattr(p.node, "lineno", 0))
        if cname_ == "ChunkingProcessor":
            refused(prog, rep, cls, role)
        nodes = passed_on(rep, f"{cname_}.{entry}", loops_of(I), role)
        answered(rep, f"{cname_}.{entry}", ps, role, cls.module.path, nodes)


CHECKS = {"C25": c25}
