"""Parsers: what is read, under which conditions, and that all of it is given back."""
from .. import linear
from ..common import *
from ..common import Interp, walk
from ..terms import contains
from .documents import PICKING, is_path_of, reordered, since, tru, vague
from .storage import rets
from .text import Iters, entry_of, loops_of, unwrap

READERS = ("open", "io.open", ".open", "codecs.open", "docx.Document", "openpyxl.load_workbook", "pptx.Presentation", "PyPDF2.PdfReader", ".convert", ".read_text", ".read_bytes")
TABLE = ("tables", "rows", "cells", "columns")


def reads(p):
    return [e for e in p.events if e.kind in ("call", "callx") and e.a[0].a[0] in READERS]


def is_read(t):
    return t.op == "call" and t.a[0] in READERS


def size_of(t, par):
    """t is the size in bytes of the file."""
    if t.op == "attr" and t.a[1] == "st_size" and t.a[0].op == "call" and t.a[0].a[0] in (".stat", "os.stat"):
        return is_path_of(t.a[0].a[1][0], par)
    return t.op == "call" and t.a[0] == "os.path.getsize" and is_path_of(t.a[1][0], par)


def is_limit(t, me):
    return t.op == "init" and t.a[0] is me and t.a[1] == "max_file_size" or t.op in ("get", "item") and is_const(t.a[1]) and cval(t.a[1]) == "max_file_size"


def about_suffix(a, par):
    return contains(norm(a), lambda x: x.op == "attr" and x.a[1] == "suffix" and is_path_of(x.a[0], par) or x.op == "call" and x.a[0] == ".can_parse")


def limits(facts, par, me):
    """(known not to exceed the maximum, known to exceed it, there is a fact about the size, something vague about it)"""
    sizes, maxes, odd, some = set(), set(), False, False
    for a in facts:
        n = norm(a)
        mine = False
        for x in walk(n):
            if size_of(x, par):
                sizes.add(x)
                mine = True
            elif is_limit(x, me):
                maxes.add(x)
        if mine:
            some = True
            odd |= n.op not in ("lt", "le", "eq") or vague(n)
    within = above = False
    for z in sizes:
        for m in maxes:
            fx = linear.fact_exprs(facts) + [{m: 1}, {z: 1}]
            within |= bool(linear.proves(fx, {m: 1, z: -1}))
            above |= bool(linear.proves(fx, {z: 1, m: -1, 1: -1}))
    return within, above, some, odd


def guard(prog, rep, cls):
    con = f"{cname(cls)}.parse"
    me = self_of(cls)
    fi = cls.find("parse")
    par = mk("param", fi.node.args.args[1].arg)
    ps = paths(prog, rep, cls, "parse")
    some = False
    for p in ps:
        for e in reads(p):
            some = True
            fx = e.facts
            src = list(e.a[2]) + [x for _, x in e.a[3]]
            at = (e.file, e.line)
            if not any(is_path_of(x, par) or is_read(norm(x)) for x in src):
                if any(vague(x) for x in src):
                    rep.unk("R26.guard", con, "what is read is not understood")
                else:
                    rep.bad("R26.guard", con, "file", f"{show(norm(e.a[1]))[:70]} reads something else than the caller's file", *at)
                continue
            rep.check("R26.guard", con, tru(fx, lambda x: x is mk("init", me, "_initialized")) is True, "initialized", "the file is read by a parser that was not initialised", *at)
            there = [v for a, v in fx.items() if a.op == "truthy" and norm(a.a[0]).op == "call" and norm(a.a[0]).a[0] in (".exists", "os.path.exists", ".is_file", "os.path.isfile")]
            rep.check("R26.guard", con, True in there, "exists", "the file is read without knowing that it exists", *at)
            kinds = [v for a, v in fx.items() if a.op in ("in", "truthy", "eq") and about_suffix(a, par)]
            rep.check("R26.guard", con, True in kinds, "format", "a file of a format that is not supported is read", *at)
            within, above, some_, odd = limits(fx, par, me)
            if within:
                rep.ok("R26.guard", con)
            elif odd:
                rep.unk("R26.guard", con, "size check not understood")
            else:
                rep.bad("R26.guard", con, "size", "the file is read although it may be larger than max_file_size", *at)
        if p.kind == "raise" and not reads(p) and not any(e.kind == "callx" for e in p.events):
            within, above, some_, odd = limits(p.facts, par, me)
            if above:
                rep.ok("R26.limit", con)
            elif some_ and odd:
                rep.unk("R26.limit", con, "size check not understood")
            elif some_ and not within:
                rep.bad("R26.limit", con, "exact", "a file that is not larger than max_file_size may be refused for its size", *loc(p))
    if not some:
        rep.unk("R26.guard", con, "nothing is read")


def joined(t, st, out, seen):
    """Local lists whose elements, joined, are the text t."""
    t = norm(t)
    for x in walk(t):
        if x.op == "call" and x.a[0] == ".join" and len(x.a[1]) == 2:
            lst = norm(x.a[1][1])
            if lst.op == "alloc" and lst not in seen:
                seen.append(lst)
                if lst not in out:
                    out.append(lst)
                c = st.heap.get(lst)
                for e in c.entries if c is not None else ():
                    if e.val is not None:
                        joined(e.val, st, out, seen)


def answer(prog, rep, cls):
    """The answered dictionary on each returning path; returns the lists the text is joined from."""
    con = f"{cname(cls)}.parse"
    me = self_of(cls)
    fi = cls.find("parse")
    par = mk("param", fi.node.args.args[1].arg)
    lists = []
    for p in rets(paths(prog, rep, cls, "parse")):
        f, ln = loc(p)
        d = p.st.heap.get(strip_ver(p.val))
        if d is None or d.kind != "dict":
            rep.unk("R26.answer", con, "answer not understood")
            continue
        missing = [k for k in ("text", "metadata", "chunks", "structure") if entry_of(d, k) is None]
        if missing and all(e.tag == "one" for e in d.entries):
            rep.bad("R26.answer", con, "keys", f"the answer has no {missing[0]}", f, ln)
            continue
        t = entry_of(d, "text")
        t = norm(t) if t is not None else None
        if t is None or vague(t):
            rep.unk("R26.answer", con, "text not understood")
        elif t.op == "call" and t.a[0] == ".join":
            L = norm(t.a[1][1]) if len(t.a[1]) == 2 else None
            c = p.st.heap.get(L) if L is not None else None
            if L is not None and (L.op == "call" and L.a[0] in PICKING or L.op == "slice"):
                rep.bad("R26.answer", con, "order", "the parts of the text are sorted or cut", f, ln)
            elif c is None:
                rep.unk("R26.answer", con, "text not understood")
            else:
                rep.check("R26.answer", con, c.kind != "set" and c.order is None and not c.limit and not (isinstance(c.src, tuple) and c.src[0] in ("slice", "sorted", "reversed")), "order", "the parts of the text are sorted or cut", f, ln)
                joined(t, p.st, lists, [])
        elif t.op == "call" and t.a[0] in (".read", ".read_text"):
            src = norm(t.a[1][0])
            rest = t.a[1][1:]
            if t.a[0] == ".read" and rest:
                rep.bad("R26.answer", con, "part", "only a part of the file is read", f, ln)
            elif t.a[0] == ".read" and not (is_read(src) and any(is_path_of(x, par) for x in src.a[1])) or t.a[0] == ".read_text" and not is_path_of(src, par):
                rep.bad("R26.answer", con, "other", "the text is not that of the caller's file", f, ln)
            else:
                rep.ok("R26.answer", con)
                encoding(rep, con, p, src if t.a[0] == ".read" else t, f, ln)
        elif contains(t, lambda x: x.op == "slice"):
            rep.bad("R26.answer", con, "cut", "the text is cut", f, ln)
        elif t.op == "call" and t.a[0].startswith(".") and t.a[1] and norm(t.a[1][0]).op == "call" and norm(t.a[1][0]).a[0] in (".read", ".read_text"):
            rep.bad("R26.answer", con, "changed", f"the text is not what was read: {show(t)[:20]}...", f, ln)
            rep.unk("R26.encoding", con, "text changed after reading")
        elif is_const(t) and cval(t):
            rep.bad("R26.answer", con, "const", "the text does not come from the file", f, ln)
        else:
            rep.unk("R26.answer", con, "text not understood")
        m = entry_of(d, "metadata")
        md = p.st.heap.get(norm(m)) if m is not None else None
        if md is None:
            rep.unk("R26.meta", con, "metadata not understood")
            continue
        nm, sz = entry_of(md, "file_name"), entry_of(md, "file_size")
        open_ = any(e.tag != "one" for e in md.entries)
        if nm is None:
            rep.unk("R26.meta", con, "no file name") if open_ else rep.bad("R26.meta", con, "file_name", "the metadata has no file name", f, ln)
        else:
            n = norm(nm)
            good = n.op == "attr" and n.a[1] == "name" and is_path_of(n.a[0], par) or n.op == "call" and n.a[0] == "os.path.basename"
            if good or not vague(n):
                rep.check("R26.meta", con, good, "file_name", f"the file name is {show(n)[:60]}", f, ln)
            else:
                rep.unk("R26.meta", con, "file name not understood")
        if sz is None:
            rep.unk("R26.meta", con, "no file size") if open_ else rep.bad("R26.meta", con, "file_size", "the metadata has no file size", f, ln)
        else:
            n = norm(sz)
            good = size_of(n, par)
            if good or not vague(n):
                rep.check("R26.meta", con, good, "file_size", f"the file size is {show(n)[:60]}", f, ln)
            else:
                rep.unk("R26.meta", con, "file size not understood")
    return lists


def encoding(rep, con, p, call, f, ln):
    """Text is decoded with a known encoding and undecodable bytes do not end the reading."""
    kw = dict(call.a[2]) if not isinstance(call.a[2], dict) else call.a[2]
    e = kw.get("encoding")
    if e is None:
        rep.bad("R26.encoding", con, "none", "the text is decoded in whatever encoding the machine uses", f, ln)
        return
    e = norm(e)
    from_file = contains(e, lambda x: x.op == "call" and x.a[0].startswith("chardet."))
    maybe_none = e.op == "get" and from_file or e.op == "item" and from_file
    if maybe_none:
        sure = any(a.op == "truthy" and v and norm(a.a[0]) is e or a.op == "isnone" and not v and norm(a.a[0]) is e for a, v in p.facts.items())
        rep.check("R26.encoding", con, sure, "undetected", "where no encoding is detected the text is decoded in whatever encoding the machine uses", f, ln)
    elif vague(e):
        rep.unk("R26.encoding", con, "encoding not understood")
    else:
        rep.ok("R26.encoding", con)
    er = kw.get("errors")
    if er is not None and vague(er):
        return
    rep.check("R26.encoding", con, er is not None and is_const(er) and cval(er) not in ("strict", "ignore"), "errors", "bytes that cannot be decoded end the reading or vanish", f, ln)


def grown(it):
    """Lists that grew in this iteration: {list: [new entries]}."""
    out = {}
    for t, c in it.st.heap.items():
        if c.kind != "list":
            continue
        ents = list(c.entries)
        for i, e in enumerate(ents):
            if e.tag == "prev" and e.node is it.node:
                out[t] = ents[i + 1:]
                break
    return out


def empty_reason(it, el, strict, table):
    """A fact of this iteration that says there is nothing to take over (strict: the part is no text itself, so being false is not being empty)."""
    for a, v in it.facts.items():
        if a.op not in ("truthy", "isnone") or v is not (a.op == "isnone"):
            continue
        x = norm(a.a[0])
        if x.op == "init":
            return True
        if table:
            continue
        if x.op == "alloc" or x.op == "call" and x.a[0] == ".join":
            return True
        if contains(x, lambda y: y is el) and not (strict and x is el and a.op == "truthy"):
            return True
    return any(e.kind in ("handler", "handled") for e in since(it))


def parts(prog, rep, cls, lists):
    con = f"{cname(cls)}.parse"
    pol = Iters()
    pol.implicit = True
    I = Interp(prog, pol)
    rep.saw(I, I.run_method(cls, cls.find("parse")))
    seen = set()
    for lp in loops_of(I):
        where = (lp.fr.module.path, lp.node.lineno)
        for it in lp.its:
            r = norm(it.key[0]) if it.key is not None and not isinstance(it.key[0], str) else None
            if r is not None and r.op == "call" and r.a[0] in (".iter_rows", ".iter_cols") and it.kind not in ("skip", "exit", "raise"):
                lim = dict(zip(("min_row", "max_row", "min_col", "max_col"), r.a[1][1:]))
                lim.update(dict(r.a[2]))
                lim = {k: norm(x) for k, x in lim.items() if k in ("min_row", "max_row", "min_col", "max_col")}
                if any(is_const(x) and cval(x) is not None and not (k.startswith("min") and cval(x) in (0, 1)) for k, x in lim.items()):
                    rep.bad("R26.parts", con, "some", "not all rows and columns of the sheet are gone through", *where)
                    break
            if r is not None and it.kind not in ("skip", "exit", "raise") and (r.op == "slice" or r.op == "call" and r.a[0] in PICKING) and contains(r, is_read) and any(es for es in grown(it).values()):
                rep.bad("R26.parts", con, "some", "not all parts of the document are gone through, in their order", *where)
                break
        its = [it for it in lp.its if it.key is not None and not isinstance(it.key[0], str) and contains(norm(it.key[0]), is_read) and norm(it.key[0]).op != "while" and it.kind not in ("skip", "exit", "raise")]
        if not its or not any(norm(it.key[0]).op in ("attr", "call", "item") for it in its):
            continue
        if all(norm(it.key[0]).op == "call" and norm(it.key[0]).a[0] in (".join", "range", ".split") for it in its):
            continue
        per = [(it, grown(it)) for it in its]
        fed = {t for _, g in per for t, es in g.items() if es}
        main = [t for t in fed if t in lists]
        root = norm(its[0].key[0])
        table = root.op == "attr" and root.a[1] in TABLE
        if not main and not table:
            continue
        infos = {t for it, g in per for t, es in g.items() if t not in lists for e in es if text_length(it, e) is not None}
        for it, g in per:
            el = norm(mk("item", it.key[0], mk("idx", *it.key)))
            if reordered(it):
                rep.bad("R26.parts", con, "order", "the parts of the document are not taken over in their order", *where)
                continue
            if it.kind in ("break", "return"):
                rep.bad("R26.parts", con, "stop", "the rest of the document is left out", *where)
                continue
            for t in (main if main else [x for x in fed]):
                seen.add(t)
                es = [e for e in g.get(t, ())]
                if len(es) > 1:
                    rep.bad("R26.parts", con, "twice", "a part of the document is taken over more than once", *where)
                elif not es:
                    if empty_reason(it, el, any(raw(e.val, el) for _, g2 in per for e in g2.get(t, ())), not main):
                        rep.ok("R26.parts", con)
                    elif vague(mk("tuple", *[a for a in it.facts if contains(norm(a), lambda y: y is el)])):
                        rep.unk("R26.parts", con, "condition not understood")
                    else:
                        rep.bad("R26.parts", con, "left-out", "a part of the document that is not empty may be left out", *where)
                elif not main:
                    v = es[0].val
                    d = it.st.heap.get(norm(v))
                    if d is not None and d.kind == "list":
                        mine = [x for x in walk(el) if x.op == "idx"]
                        for q in d.entries:
                            ix = [x for x in walk(norm(q.val)) if x.op == "idx" and x not in mine] if q.val is not None else []
                            if any(contains(norm(a), lambda y: y in ix) for a in (q.facts or {})):
                                rep.bad("R26.parts", con, "left-out", "a cell of a table may be left out", *where)
                    for x in walk(norm(mk("tuple", v, *[q.val for q in d.entries if q.val is not None]) if d is not None else v)):
                        if x.op == "comp" and any(cs for cs, _ in x.a[2]) and contains(x.a[1], lambda y: y is el):
                            rep.bad("R26.parts", con, "left-out", "a cell of a table may be left out", *where)
                            break
                    else:
                        rep.ok("R26.parts", con)
                else:
                    v = norm(es[0].val)
                    if any(x.op == "slice" and contains(x.a[0], lambda y: y is el or y.op == "alloc") for x in walk(v)):
                        rep.bad("R26.parts", con, "cut", "a part of the document is cut", *where)
                    elif holds(v, el, it.st):
                        rep.ok("R26.parts", con)
                    elif vague(v):
                        rep.unk("R26.parts", con, "part not understood")
                    else:
                        rep.bad("R26.parts", con, "foreign", f"{show(v)[:60]} is taken over instead of the part", *where)
            if not main:
                continue
            text = [e for t in main for e in g.get(t, ())]
            info = [(t, e) for t in infos for e in g.get(t, ())]
            if infos and bool(text) != bool(info) and not any(e.kind in ("handler", "handled") for e in since(it)):
                rep.bad("R26.info", con, "pair", "the list of the parts and the text do not have the same parts", *where)
            for t, e in info:
                d = it.st.heap.get(norm(e.val))
                n = norm(text_length(it, e))
                if not (n.op == "call" and n.a[0] == "len"):
                    rep.unk("R26.info", con, "length not understood") if vague(n) else rep.bad("R26.info", con, "length", f"the length of a part is given as {show(n)[:60]}", *where)
                elif text:
                    x = norm(n.a[1][0])
                    raw_ = False
                    for q in text:
                        y = norm(q.val)
                        while y.op == "call" and y.a[0] in (".strip", ".lstrip", ".rstrip") and y.a[1]:
                            y = norm(y.a[1][0])
                        raw_ = raw_ or y is x and norm(q.val) is not x
                    good = not raw_ and not (x.op == "alloc") and any(norm(q.val) is x or contains(norm(q.val), lambda y: y is x) for q in text)
                    rep.check("R26.info", con, good, "length", "the length given for a part is not that of the text taken over", *where)
                for q in d.entries:
                    if q.tag == "one" and q.key is not None and is_const(q.key) and str(cval(q.key)).endswith("_number") and q.val is not None:
                        number(rep, con, it, norm(q.val), where)
    for t in lists:
        if t not in seen:
            rep.unk("R26.parts", con, "text parts not understood")


def holds(v, el, st, depth=4):
    """v is made of the element, perhaps by way of local containers."""
    v = norm(v)
    if contains(v, lambda y: y is el):
        return True
    for y in walk(v):
        c = st.heap.get(y) if y.op == "alloc" and depth else None
        if c is not None and any(e.tag == "prev" or e.val is not None and holds(e.val, el, st, depth - 1) for e in c.entries):
            return True
    return False


def raw(v, el):
    """The element itself is turned into text."""
    v = norm(v)
    return any(x.op == "call" and x.a[0] == "str" and x.a[1] and x.a[1][0] is el or x.op == "fmt" and any(y is el for y in x.a) for x in walk(v))


def number(rep, con, it, v, where):
    idx = norm(mk("idx", *it.key))
    ex = linear.lin(v)
    if ex is None:
        rep.unk("R26.info", con, "number not understood")
        return
    d = dict(ex)
    if d.pop(idx, 0) == 1 and set(d) <= {1}:
        rep.check("R26.info", con, d.get(1, 0) == 1, "number", f"parts are numbered from {d.get(1, 0)}, not from 1", *where)
    elif any(k != 1 and vague(k) for k in ex):
        rep.unk("R26.info", con, "number not understood")
    else:
        rep.bad("R26.info", con, "number", "the number of a part is not its place in the document", *where)


def text_length(it, e):
    if e.val is None or e.tag not in ("one", "many"):
        return None
    d = it.st.heap.get(norm(e.val))
    return entry_of(d, "text_length") if d is not None and d.kind == "dict" else None


def c26(prog, rep):
    """All paths of parse are enumerated: content is read only after the checks; one arbitrary iteration over the parts of a document
    (pages, paragraphs, sheets, rows, cells, slides, shapes, elements) adds that part to the text unless it is empty."""
    rep.rule("R26.guard", "the content of a file is read only by an initialised parser, when the file exists, has a supported format and is not larger than max_file_size", 3)
    rep.rule("R26.limit", "a file is refused for its size only when it is larger than max_file_size", 3)
    rep.rule("R26.answer", "the answer has text, metadata, chunks and structure; the text is all that was read from the caller's file, in order", 3)
    rep.rule("R26.meta", "file name and size in the metadata are those of the caller's file", 3)
    rep.rule("R26.parts", "every part of the document that is not empty is taken over once, whole and in order", 2)
    rep.rule("R26.info", "what is said about a part - its number and length - is about the text taken over", 1)
    rep.rule("R26.encoding", "text is decoded in the configured or detected encoding, never in one that depends on the machine, and undecodable bytes are replaced", 1)
    for lay, err, ops, cls in components(prog, ("parser",)):
        if cls.find("parse") is None:
            continue
        guard(prog, rep, cls)
        lists = answer(prog, rep, cls)
        parts(prog, rep, cls, lists)


CHECKS = {"C26": c26}
