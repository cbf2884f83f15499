"""Documents: selection of parsers, the processing pipeline, what parsers answer."""
from ..common import *
from ..common import AnalysisError, Interp, Policy, walk
from ..terms import contains
from .facade import positional
from .storage import rets
from .text import Iters, entry_of, loops_of

PICKING = ("sorted", "reversed", "set", "frozenset", "dict.fromkeys", ".fromkeys", "numpy.unique")
VAGUE = ("unk", "phi", "comp")


def vague(t):
    return any(x.op in VAGUE for x in walk(norm(t)))


def tru(facts, pred):
    """Polarity of a truth fact about a term satisfying pred."""
    r = None
    for a, v in facts.items():
        if a.op == "truthy" and pred(norm(a.a[0])):
            r = v
    return r


def const_strings(t, st):
    """The literal strings of a list, or None."""
    t = strip_ver(t)
    if t.op == "tuple":
        es = list(t.a)
    else:
        c = st.heap.get(t)
        if c is None or any(e.tag != "one" for e in c.entries):
            return None
        es = [e.key if c.kind == "dict" else e.val for e in c.entries]
    if any(not is_const(x) or not isinstance(cval(x), str) for x in es):
        return None
    return {cval(x) for x in es}


def reordered(it):
    """Whether the iteration goes through something else than its root as it stands: True, False, or None when that cannot be told."""
    ev = [e for e in it.events if e.kind == "iter" and e.node is it.node]
    if not ev or it.key is None or len(ev[-1].a) < 2:
        return None
    t, root = norm(ev[-1].a[1]), norm(it.key[0])
    while t is not root and t.op == "call" and t.a[0] in ("list", "tuple", "iter", "enumerate", ".items", ".values", ".keys") and t.a[1]:
        t = norm(t.a[1][0])
    if t is root:
        if root.op == "alloc":
            c = it.st.heap.get(root)
            return None if c is None or c.src is not None or c.order is not None else False
        return False
    if contains(t, lambda x: x.op == "slice" or x.op == "call" and x.a[0] in PICKING):
        return True
    return None


def since(it):
    """The events of the iteration itself, without those before the loop."""
    at = [i for i, e in enumerate(it.events) if e.kind == "iter" and e.node is it.node]
    return it.events[at[-1] + 1:] if at else ()


def is_path_of(t, par):
    t = norm(t)
    while t.op == "call" and t.a[0] in ("pathlib.Path", "str", "os.fspath", ".resolve", ".absolute") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t is par


# ------------------------------------------------------------------ C27
def formats(prog, rep):
    """can_parse says yes exactly for the suffixes that are published."""
    for lay, err, ops, cls in components(prog, ("parser",)):
        n = cname(cls)
        pub = None
        for p in rets(paths(prog, rep, cls, "get_supported_formats")):
            s = const_strings(p.val, p.st)
            if s is None:
                rep.unk("R27.formats", n, "formats are not a literal list")
                pub = None
                break
            pub = s
        if pub is None:
            continue
        bad = sorted(x for x in pub if not x.startswith(".") or x != x.lower())
        rep.check("R27.formats", n, not bad, "form", f"{bad} can never match a lower-case suffix with its dot", cls.module.path, cls.node.lineno)
        fi = cls.find("can_parse")
        par = mk("param", fi.node.args.args[1].arg)
        suffix = norm(mk("call", ".lower", (mk("attr", mk("call", "pathlib.Path", (par,), (), 0), "suffix"),), (), 0))
        for p in rets(paths(prog, rep, cls, "can_parse")):
            f, ln = loc(p)
            tests = []
            v = strip_ver(p.val)
            if is_const(v):
                want = bool(cval(v))
                tests = [(a, b is want) for a, b in p.facts.items() if a.op == "in"]
                if not tests:
                    if p.facts and not any(contains(a, lambda x: x is par) for a in p.facts):
                        continue
                    rep.unk("R27.formats", n, "can_parse not understood") if p.facts else rep.bad("R27.formats", n, "const", f"can_parse answers {show(v)} whatever the file is", f, ln)
                    continue
                a, good = tests[-1]
                x, lst = a.a[0], a.a[1]
            elif v.op == "cmp" and v.a[0] in ("in", "not in"):
                x, lst, good = v.a[1], v.a[2], v.a[0] == "in"
            else:
                y = strip_ver(v)
                if y.op == "call" and y.a[0] == ".endswith" and len(y.a[1]) == 2 and is_const(y.a[1][1]) and not str(cval(y.a[1][1])).startswith("."):
                    rep.bad("R27.formats", n, "ending", f"can_parse accepts every file whose name ends in {cval(y.a[1][1])!r}, with this suffix or not", f, ln)
                    continue
                rep.unk("R27.formats", n, "can_parse not understood")
                continue
            s = const_strings(lst, p.st)
            if s is None or vague(x):
                rep.unk("R27.formats", n, "can_parse not understood")
                continue
            if not good:
                rep.bad("R27.formats", n, "negated", "can_parse answers the opposite of what is published", f, ln)
            elif s != pub:
                rep.bad("R27.formats", n, "differ", f"can_parse accepts {sorted(s)}, published are {sorted(pub)}", f, ln)
            elif norm(x) is suffix:
                rep.ok("R27.formats", n)
            elif contains(norm(x), lambda y: y.op == "attr" and y.a[1] == "suffix") and not contains(norm(x), lambda y: y.op == "call" and y.a[0] in (".lower", ".casefold")):
                rep.bad("R27.formats", n, "case", "can_parse compares the suffix without regard to the case it is written in", f, ln)
            else:
                rep.unk("R27.formats", n, "suffix not understood")


def chosen(v, p):
    """(container term, index, component) of a returned element of a local list."""
    v = norm(v)
    comp = None
    if v.op == "item" and is_const(v.a[1]) and v.a[0].op == "item":
        comp, v = cval(v.a[1]), v.a[0]
    if v.op == "item" and v.a[0].op == "alloc" and is_const(v.a[1]):
        return v.a[0], cval(v.a[1]), comp
    return None


def select(prog, rep, cls):
    me = self_of(cls)
    con = "ParserRegistry.get_parser"
    F = mk("init", me, "parsers")
    fi = cls.find("get_parser")
    ar = [a.arg for a in fi.node.args.args]
    path, name = mk("param", ar[1]), mk("param", ar[2])

    def can(t):
        return t.op == "call" and t.a[0] == ".can_parse"
    for p in paths(prog, rep, cls, "get_parser"):
        f, ln = loc(p)
        named = tru(p.facts, lambda x: x is name)
        none = next((v for a, v in p.facts.items() if a.op == "isnone" and norm(a.a[0]) is name), None)
        if p.kind == "raise":
            if exc_class(prog, p.val) != EXC + "ParsingError":
                continue
            if named and any(a.op == "in" and norm(a.a[0]) is name and norm(a.a[1]) is F and v for a, v in p.facts.items()):
                rep.bad("R27.pick", con, "refused", "a parser that is registered under the requested name is refused", f, ln)
            elif named is False and tru(p.facts, can):
                if any(vague(a) for a in p.facts):
                    rep.unk("R27.pick", con, "refusal not understood")
                    continue
                rep.bad("R27.pick", con, "none", "a file is refused although a registered parser can read it", f, ln)
            elif named is not None:
                rep.ok("R27.pick", con)
            continue
        if p.kind != "return":
            continue
        v = norm(p.val)
        if named or named is None and none is False:
            if v.op in ("item", "get") and v.a[0] is F and v.a[1] is name:
                rep.ok("R27.pick", con)
            elif vague(v) or chosen(v, p) and False:
                rep.unk("R27.pick", con, "answer not understood")
            else:
                rep.bad("R27.pick", con, "named", f"a requested parser is answered with {show(v)[:60]}", f, ln)
            continue
        c = chosen(v, p)
        if c is None:
            k = v.a[1] if v.op == "item" and v.a[0] is F else None
            if k is not None and k.op == "key" and k.a[0] is F and not vague(v) and not tru(p.facts, lambda x: can(x) and x.a[1][0] is v):
                rep.bad("R27.pick", con, "any", "a parser is answered that was not asked whether it can read the file", f, ln)
            else:
                rep.unk("R27.pick", con, "answer not understood")
                rep.unk("R27.priority", con, "answer not understood")
            continue
        L, i, j = c
        lc = p.st.heap.get(L)
        if lc is None or any(e.tag not in ("many", "one", "prev") for e in lc.entries):
            rep.unk("R27.pick", con, "answer not understood")
            rep.unk("R27.priority", con, "answer not understood")
            continue
        for e in lc.entries:
            if e.tag == "prev":
                continue
            x = norm(e.val)
            if j is not None and x.op == "tuple":
                x = x.a[j] if -len(x.a) <= j < len(x.a) else x
            fx = dict(e.facts or {})
            if x.op == "item" and x.a[0] is F:
                asked = tru(fx, lambda y: can(y) and y.a[1][0] is x)
                args = [y for y in walk(mk("tuple", *[norm(a) for a in fx])) if can(y) and y.a[1][0] is x]
                if asked is not True:
                    rep.bad("R27.pick", con, "unasked", "a parser that cannot read the file may be answered", f, ln)
                elif args and not any(is_path_of(y.a[1][1], path) for y in args if len(y.a[1]) > 1):
                    rep.bad("R27.pick", con, "otherfile", "the parsers are asked about another file", f, ln)
                else:
                    rep.ok("R27.pick", con)
            elif vague(x):
                rep.unk("R27.pick", con, "candidate not understood")
                rep.unk("R27.priority", con, "candidate not understood")
                continue
            else:
                rep.bad("R27.pick", con, "what", f"{show(x)[:60]} is answered, not a registered parser", f, ln)
                continue
            if lc.order is None:
                rep.bad("R27.priority", con, "unordered", "the parsers are not ordered by priority", f, ln)
                continue
            rev = lc.order[1]
            hit = [o for o in lc.order[0] if norm(o[0]) is norm(e.val)]
            if not hit or rev not in (True, False) or i not in (0, -1):
                rep.unk("R27.priority", con, "order not understood")
                continue
            key = norm(hit[0][1])
            if key.op in ("get", "item") and key.a[0].op == "init" and contains(key.a[1], lambda y: y is x.a[1]):
                desc = bool(rev) != bool(hit[0][2])
                rep.check("R27.priority", con, desc == (i == 0), "lowest", "the parser with the lowest priority is answered", f, ln)
            elif vague(key):
                rep.unk("R27.priority", con, "order not understood")
            else:
                rep.bad("R27.priority", con, "key", f"the parsers are ordered by {show(key)[:60]}, not by their priority", f, ln)


def exhaustive(prog, rep, cls):
    """No registered parser is left unasked when the candidates are collected in the order of the registry."""
    con = "ParserRegistry.get_parser"
    F = mk("init", self_of(cls), "parsers")
    I = Interp(prog, Iters())
    rep.saw(I, I.run_method(cls, cls.find("get_parser")))
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind in ("break", "return") and norm(it.key[0]) is F and reordered(it) is False \
                    and any(e.kind == "call" and e.a[0].a[0] == ".can_parse" for e in since(it)):
                rep.bad("R27.priority", con, "stop", "the parsers registered after this one are not asked, whatever their priority", lp.fr.module.path, lp.node.lineno)


def register(prog, rep, cls):
    """Only initialised parsers made from their own class and configuration are registered."""
    me = self_of(cls)
    F, K = mk("init", me, "parsers"), mk("init", me, "parser_classes")
    for op in ("initialize", "add_parser"):
        con = f"ParserRegistry.{op}"
        fi = cls.find(op)
        ar = [a.arg for a in fi.node.args.args][1:]
        some = False
        for p in paths(prog, rep, cls, op, P(implicit=True)):
            f, ln = loc(p)
            sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setitem" and norm(e.a[0]) is F]
            if p.kind == "raise":
                if op == "add_parser" and exc_class(prog, p.val) == EXC + "ParsingError":
                    failed = any(e.kind == "callx" for e in p.events)
                    kinds = [e for e in p.events if e.kind == "setitem" and norm(e.a[0]) is K]
                    if failed and kinds and not sets:
                        if any(e.kind in ("delitem", "mut") and contains(norm(e.a[0]), lambda x: x is K) for e in p.events):
                            rep.unk("R27.register", con, "clean-up not understood")
                        else:
                            rep.bad("R27.register", con, "class left", "the class of a parser that could not be added stays registered", f, ln)
                        continue
                    if failed and sets:
                        rep.bad("R27.register", con, "left", "a parser that could not be added stays registered", f, ln)
                    elif failed:
                        rep.ok("R27.register", con)
                continue
            if op == "add_parser" and not sets:
                if any(contains(norm(e.a[0]), lambda x: x is F) for e in p.events if e.kind in ("mut", "call")):
                    rep.unk("R27.register", con, "not understood")
                else:
                    rep.bad("R27.register", con, "dropped", "success is reported although the parser is not registered", f, ln)
            for i, e in sets:
                some = True
                key, val = norm(e.a[1]), norm(e.a[2])
                if val.op != "call" or val.a[0] not in ((), "()"):
                    if vague(val):
                        rep.unk("R27.register", con, "parser not understood")
                    else:
                        rep.unk("R27.register", con, "parser made elsewhere")
                    continue
                args = list(val.a[1])
                klass, cfg = args[0], args[1] if len(args) > 1 else None
                if op == "add_parser":
                    want = mk("param", ar[1]), mk("param", ar[2])
                    right = klass is want[0] and cfg is want[1] and key is mk("param", ar[0])
                else:
                    right = klass.op in ("item", "get") and klass.a[0] is K and klass.a[1] is key and cfg is not None and cfg.op in ("item", "get") and cfg.a[1] is key
                if not right and (vague(val) or cfg is None):
                    rep.unk("R27.register", con, "parser not understood")
                    continue
                rep.check("R27.register", con, right, "pair", "a parser is registered under another name, class or configuration than its own", e.file, e.line)
                ready = any(x.kind == "call" and x.a[0].a[0] == ".initialize" and norm(x.a[2][0]) is val for x in p.events[:i])
                rep.check("R27.register", con, ready, "unready", "a parser is registered before it was initialised", e.file, e.line)
        if not some:
            rep.unk("R27.register", con, "no registration found")
    con = "ParserRegistry.initialize"
    pol = Iters()
    pol.implicit = True
    I = Interp(prog, pol)
    ps = I.run_method(cls, cls.find("initialize"))
    rep.saw(I, ps)
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind in ("break", "return") and norm(it.key[0]).op not in ("unk", "alloc", "while"):
                rep.bad("R27.register", con, "stop", "the remaining configured parsers are not considered", lp.fr.module.path, lp.node.lineno)
    # removal
    con = "ParserRegistry.remove_parser"
    fi = cls.find("remove_parser")
    name = mk("param", fi.node.args.args[1].arg)
    for p in rets(paths(prog, rep, cls, "remove_parser")):
        f, ln = loc(p)
        held = next((v for a, v in p.facts.items() if a.op == "in" and norm(a.a[0]) is name and strip_ver(a.a[1]) is F and a.a[1].op != "at"), None)
        gone = [i for i, e in enumerate(p.events) if e.kind == "delitem" and norm(e.a[0]) is F and norm(e.a[1]) is name]
        closed = [i for i, e in enumerate(p.events) if e.kind == "call" and e.a[0].a[0] == ".close"]
        if held and not gone:
            if any(e.kind in ("mut", "setfield") for e in p.events):
                rep.unk("R27.remove", con, "not understood")
            else:
                rep.bad("R27.remove", con, "stays", "the removed parser stays registered", f, ln)
        elif gone and not closed and any(a.op == "isnone" and v and norm(a.a[0]).op in ("item", "get", "call") for a, v in p.facts.items()):
            rep.unk("R27.remove", con, "not understood")
        elif gone and not closed:
            rep.bad("R27.remove", con, "open", "a removed parser is not closed", f, ln)
        else:
            rep.ok("R27.remove", con)


def parse_with(prog, rep, cls):
    me = self_of(cls)
    con = "ParserRegistry.parse_document"
    fi = cls.find("parse_document")
    path, name = (mk("param", a.arg) for a in fi.node.args.args[1:3])
    for p in rets(paths(prog, rep, cls, "parse_document")):
        f, ln = loc(p)
        if not any(contains(norm(a), lambda x: x is name) for a in p.facts) and not any(contains(norm(y), lambda x: x is name) for e in p.events if e.kind == "call" for y in list(e.a[2]) + [v for _, v in e.a[3]]):
            rep.bad("R27.parse", con, "ignored", "the parser that is asked for is not looked at", f, ln)
        calls = [e for e in p.events if e.kind == "call" and e.a[0].a[0] == ".parse"]
        v = norm(p.val)
        if len(calls) == 1 and norm(calls[0].a[1]) is v:
            a = list(calls[0].a[2][1:]) + [x for _, x in calls[0].a[3]]
            rep.check("R27.parse", con, bool(a) and is_path_of(a[0], path), "file", "another file is parsed", f, ln)
        elif vague(v):
            rep.unk("R27.parse", con, "answer not understood")
        else:
            rep.bad("R27.parse", con, "answer", "the answer is not what the selected parser made of the file", f, ln)


def union(prog, rep, cls):
    me = self_of(cls)
    con = "ParserRegistry.get_supported_formats"
    F = mk("init", me, "parsers")
    for p in rets(paths(prog, rep, cls, "get_supported_formats")):
        f, ln = loc(p)
        some = tru(p.facts, lambda x: x is F)
        ready = tru(p.facts, lambda x: x is mk("init", me, "_initialized"))
        if not some or ready is False:
            continue
        c = p.st.heap.get(strip_ver(p.val))
        if c is None:
            rep.unk("R27.formats", con, "not understood")
            continue
        src = [norm(e.val) for e in c.entries if e.val is not None and e.tag != "prev"]
        good = any(contains(x, lambda y: y.op == "call" and y.a[0] == ".get_supported_formats" and y.a[1] and y.a[1][0].op == "item" and y.a[1][0].a[0] is F) for x in src)
        if good and not c.limit:
            rep.ok("R27.formats", con)
        elif any(vague(x) for x in src):
            rep.unk("R27.formats", con, "not understood")
        else:
            rep.bad("R27.formats", con, "union", "the formats of a registered parser are not published", f, ln)
    I = Interp(prog, Iters())
    rep.saw(I, I.run_method(cls, cls.find("get_supported_formats")))
    for lp in loops_of(I):
        for it in lp.its:
            if it.kind != "normal" or norm(it.key[0]) is not F:
                continue
            got = [e.a[1] for e in it.events if e.kind == "call" and e.a[0].a[0] == ".get_supported_formats"]
            if not got:
                continue
            grown = False
            for t, c in it.st.heap.items():
                i = next((i for i, e in enumerate(c.entries) if e.tag == "prev"), None)
                grown |= i is not None and any(e.val is not None and contains(norm(e.val), lambda x: x is norm(got[0])) for e in c.entries[i + 1:])
            kept = any(contains(norm(v), lambda x: x.op == "phi" or x.op == "unk") for v in (it.st.env.get(k, NONE) for k in it.carried))
            if not grown and not kept:
                rep.bad("R27.formats", con, "lost", "the formats of the parsers before this one are lost", lp.fr.module.path, lp.node.lineno)


def c27(prog, rep):
    """All paths of the registry are enumerated: a named request answers the parser of that name; otherwise the answer is taken from the list of the
    registered parsers that said they can parse that file, ordered by priority with the highest first. Registration pairs name, class and
    configuration and happens after initialisation; can_parse accepts exactly the published suffixes."""
    rep.rule("R27.pick", "a named parser is answered by name; otherwise only parsers that can read the file are candidates, and one is answered whenever there is one", 1)
    rep.rule("R27.priority", "of several parsers that can read the file the one with the highest priority is answered", 1)
    rep.rule("R27.formats", "can_parse accepts exactly the published suffixes, whatever their case; the registry publishes those of every parser", 4)
    rep.rule("R27.register", "a parser is registered under its name, made from its class and configuration, after it was initialised; a failure leaves the registry as it was", 2)
    rep.rule("R27.remove", "a removed parser is closed and no longer registered", 1)
    rep.rule("R27.parse", "parse_document answers what the selected parser makes of the file", 1)
    for lay, err, ops, cls in components(prog, ("registry",)):
        select(prog, rep, cls)
        exhaustive(prog, rep, cls)
        register(prog, rep, cls)
        parse_with(prog, rep, cls)
        union(prog, rep, cls)
    formats(prog, rep)


# ------------------------------------------------------------------ C28
def drawn(t, root, el):
    """t is the element of root that one iteration is about (el: the element, or its index)."""
    return t is el or t.op == "item" and t.a[0] is root and t.a[1] is el


def chain(prog, rep, cls):
    me = self_of(cls)
    PR = mk("init", me, "processors")
    for op in ("process_document", "process_text"):
        con = f"{cname(cls)}.{op}"
        fi = cls.find(op)
        ar = [mk("param", a.arg) for a in fi.node.args.args[1:]]
        for p in rets(paths(prog, rep, cls, op)):
            f, ln = loc(p)
            parsed = [e for e in p.events if e.kind == "call" and e.a[0].a[0] == ".parse_document"]
            if op == "process_document":
                if len(parsed) != 1:
                    rep.bad("R28.source", con, "parse", f"the document is parsed {len(parsed)} times", f, ln)
                    continue
                doc = norm(parsed[0].a[1])
                got, extra = positional(prog, parsed[0], cls, op, ("file_path", "parser_name"))
                for k, want in zip(("file_path", "parser_name"), ar):
                    v = norm(got[k]) if k in got else None
                    if v is want or k == "file_path" and v is not None and is_path_of(v, want):
                        rep.ok("R28.source", con)
                    elif v is not None and vague(v) or k == "parser_name" and v is not None and is_const(v) and cval(v) is None and tru(p.facts, lambda x: x is want) is False:
                        rep.unk("R28.source", con, "argument not understood")
                    else:
                        rep.bad("R28.source", con, k, f"the registry is not given the caller's {k}", parsed[0].file, parsed[0].line)
            else:
                doc = None
            v = norm(p.val)
            steps = tru(p.facts, lambda x: x is PR)
            last = None
            if v.op == "call" and v.a[0] == ".process" and len(v.a[1]) == 2:
                last, x = v.a[1]
                first = x.a[2] if x.op == "phi" else x
                if x.op != "phi":
                    rep.bad("R28.chain", con, "raw", "every processor is given the document itself, not the result of the processor before it", f, ln)
                    continue
                if not (last.op == "item" and last.a[0] is PR and last.a[1].op == "idx"):
                    rep.unk("R28.chain", con, "processor not understood") if vague(last) else rep.bad("R28.chain", con, "order", f"the processors are taken from {show(last)[:60]}, not in the order they were set up", f, ln)
                    continue
            elif steps is False:
                first = v
            elif vague(v) or (p.st.heap.get(v) and any(e.val is not None and contains(norm(e.val), lambda x: x.op in VAGUE or x.op == "call" and x.a[0] == ".process") for e in p.st.heap[v].entries)):
                rep.unk("R28.chain", con, "answer not understood")
                continue
            elif doc is not None and v is not doc and not (v.op in ("item", "attr", "get") and v.a[0].op == "call" and v.a[0].a[0] == ".process") or doc is None and v.op != "alloc" and not v.op == "item":
                rep.unk("R28.chain", con, "answer not understood")
                continue
            else:
                rep.bad("R28.chain", con, "unprocessed", "the answer is not what the last processor made of the document", f, ln)
                continue
            rep.ok("R28.chain", con)
            if op == "process_document":
                rep.check("R28.source", con, first is doc, "start", "the first processor is not given the parsed document", f, ln)
            else:
                d = p.st.heap.get(first)
                tx = entry_of(d, "text") if d is not None and d.kind == "dict" else None
                if tx is None:
                    rep.unk("R28.source", con, "document not understood")
                else:
                    rep.check("R28.source", con, norm(tx) is ar[0], "text", "the first processor is not given the caller's text", f, ln)
                    m = entry_of(d, "metadata")
                    given = tru(p.facts, lambda x: x is ar[1])
                    none = next((w for a, w in p.facts.items() if a.op == "isnone" and norm(a.a[0]) is ar[1]), False)
                    mc = p.st.heap.get(norm(m)) if m is not None else None
                    if mc is not None and mc.kind == "dict" and given is not False and not none and \
                            (mc.src is not None and norm(mc.src) is ar[1] or any(e.tag == "rest" and e.val is not None and norm(e.val) is ar[1] for e in mc.entries)) and any(e.tag == "one" for e in mc.entries):
                        rep.bad("R28.source", con, "metadata", "the caller's metadata is not handed on as it is", f, ln)
                    if m is not None and given is not False and not none and not contains(norm(m), lambda x: x is ar[1]) and not vague(m) \
                            and not (mc is not None and (mc.entries or mc.src is not None)):
                        rep.bad("R28.source", con, "metadata", "the caller's metadata is not handed on", f, ln)
            marks = [e for e in p.events if e.kind == "setitem" and norm(e.a[0]) is v and is_const(e.a[1]) and cval(e.a[1]) == "pipeline_metadata"]
            d = p.st.heap.get(v)
            if marks or d is not None and entry_of(d, "pipeline_metadata") is not None:
                rep.ok("R28.mark", con)
            elif any(e.kind in ("mut", "setitem") for e in p.events):
                rep.unk("R28.mark", con, "not understood")
            else:
                rep.bad("R28.mark", con, "missing", "a processed document carries no pipeline metadata", f, ln)
        I = Interp(prog, Iters())
        ps = I.run_method(cls, fi)
        rep.saw(I, ps)
        for lp in loops_of(I):
            for it in lp.its:
                if it.elem is None or norm(it.key[0]) is not PR or it.kind in ("skip", "exit", "raise"):
                    continue
                el = norm(it.elem)
                n = [e for e in it.events if e.kind == "call" and e.a[0].a[0] == ".process" and drawn(norm(e.a[2][0]), PR, el)]
                where = (lp.fr.module.path, lp.node.lineno)
                uses = any(e.kind == "call" and e.a[0].a[0] == ".process" for x in lp.its for e in x.events)
                if not uses:
                    continue
                if reordered(it):
                    rep.bad("R28.chain", con, "order", "not every processor is gone through in the order set up", *where)
                elif it.kind in ("break", "return"):
                    rep.bad("R28.chain", con, "stop", "the processors after this one are left out", *where)
                elif not n:
                    rep.bad("R28.chain", con, "skipped", "a processor may be left out", *where)
                elif len(n) > 1:
                    rep.bad("R28.chain", con, "twice", "a processor is run twice", *where)
                elif any(norm(it.st.env.get(k, NONE)) is norm(n[0].a[1]) for k in it.carried):
                    rep.ok("R28.chain", con)
                elif any(contains(norm(v), lambda x: x is norm(n[0].a[1])) or norm(v).op == "alloc" for v in (it.st.env.get(k, NONE) for k in it.carried)):
                    rep.unk("R28.chain", con, "result not understood")
                else:
                    rep.bad("R28.chain", con, "lost", "the result of a processor is not handed on", *where)


def batch(prog, rep, cls, err):
    op = "batch_process_documents"
    con = f"{cname(cls)}.{op}"
    fi = cls.find(op)
    par = mk("param", fi.node.args.args[1].arg)
    pol = Iters()
    pol.implicit = True
    I = Interp(prog, pol)
    ps = I.run_method(cls, fi)
    rep.saw(I, ps)
    seen = False
    answers = {strip_ver(p.val) for p in rets(ps)}
    for p in rets(ps):
        v = strip_ver(p.val)
        c = p.st.heap.get(v)
        if c is not None and (c.limit or c.order is not None or isinstance(c.src, tuple) and c.src[0] in ("slice", "reversed", "sorted")):
            rep.bad("R28.batch", con, "cut", "the results are cut, sorted or reversed", *loc(p))
    for lp in loops_of(I):
        where = (lp.fr.module.path, lp.node.lineno)
        for it in lp.its:
            root = norm(it.key[0]) if it.key else None
            if root is None or it.kind in ("skip", "exit"):
                continue
            if root is not par:
                rc = it.st.heap.get(root)
                if root.op == "slice" and root.a[0] is par or root.op == "call" and root.a[0] in PICKING and root.a[1] and norm(root.a[1][0]) is par or rc is not None and isinstance(rc.src, tuple) and any(x is par for x in rc.src[1:2]) and (rc.kind == "set" or rc.src[0] in ("slice", "sorted", "reversed")):
                    rep.bad("R28.batch", con, "inputs", "not every input is gone through in the order given", *where)
                continue
            if reordered(it):
                rep.bad("R28.batch", con, "inputs", "not every input is gone through in the order given", *where)
                continue
            seen = True
            if it.kind in ("break", "return"):
                rep.bad("R28.batch", con, "stop", "the documents after this one are left out", *where)
                continue
            if it.kind == "raise":
                if it.val is not None and exc_class(prog, it.val) == err:
                    rep.bad("R28.batch", con, "raise", "one failing document ends the whole batch", *where)
                continue
            grown = []
            for t, c in it.st.heap.items():
                if c.kind != "list":
                    continue
                ents = list(c.entries)
                for i, e in enumerate(ents):
                    if e.tag == "prev" and e.node is it.node:
                        ents = ents[i + 1:]
                        break
                else:
                    continue
                if ents or t in answers:
                    grown.append((t, ents))
            res = [x for t, x in grown if t in answers]
            if any(e.kind == "linsert" and strip_ver(e.a[0]) in answers for e in it.events):
                rep.bad("R28.batch", con, "front", "results are inserted instead of appended: they do not follow the order of the documents", *where)
                continue
            if not res:
                rep.unk("R28.batch", con, "results not understood")
                continue
            if any(e.tag not in ("one", "many") for e in res[0]):
                rep.unk("R28.batch", con, "results not understood")
                continue
            if len(res[0]) != 1:
                rep.bad("R28.batch", con, "count", f"{len(res[0])} results are added for one document", *where)
                continue
            el = norm(it.elem) if it.elem is not None else norm(mk("item", par, mk("idx", *it.key)))
            v = norm(res[0][0].val)
            d = it.st.heap.get(v)
            src = [norm(e.val) for e in d.entries if e.val is not None] if d is not None else [v]
            if any(contains(x, lambda y: y is el) for x in src):
                rep.ok("R28.batch", con)
            elif any(vague(x) for x in src):
                rep.unk("R28.batch", con, "result not understood")
            else:
                rep.bad("R28.batch", con, "foreign", "the result added for a document is not about that document", *where)
    if not seen:
        rep.unk("R28.batch", con, "loop over the documents not found")


KINDS = (("cleaning", "CleaningProcessor"), ("chunking", "ChunkingProcessor"), ("embedding", "EmbeddingProcessor"))


def setup(prog, rep, cls):
    me = self_of(cls)
    con = f"{cname(cls)}.initialize"
    CF = mk("init", me, "config")
    for p in rets(paths(prog, rep, cls, "initialize")):
        f, ln = loc(p)
        made = {}
        for e in p.events:
            if e.kind == "new":
                made[strip_ver(e.a[1])] = e
        for o, e in made.items():
            if str(e.a[0]).endswith("ParserRegistry") or show(e.a[0]).endswith("ParserRegistry"):
                if not ready(p, o) and not any(x.kind == "call" and x.a[0].a[0] == ".initialize" and strip_ver(x.a[2][0]) is o for x in p.events):
                    rep.bad("R28.setup", con, "registry-ready", "the parser registry is not initialised", e.file, e.line)
                a = [norm(x) for x in list(e.a[2]) + [v for _, v in e.a[3]]]
                t = a[0] if a else None
                d = p.st.heap.get(t) if t is not None else None
                if t is CF:
                    rep.ok("R28.setup", con)
                elif d is not None and d.kind == "dict":
                    v = entry_of(d, "parsers")
                    v = norm(v) if v is not None else None
                    if v is not None and v.op in ("get", "item") and v.a[0] is CF and is_const(v.a[1]) and cval(v.a[1]) == "parsers":
                        rep.ok("R28.setup", con)
                    elif v is not None and vague(v) or any(x.tag == "rest" for x in d.entries):
                        rep.unk("R28.setup", con, "registry configuration not understood")
                    else:
                        rep.bad("R28.setup", con, "parsers", "the configured parsers do not reach the registry under the key it reads", e.file, e.line)
                elif t is not None and vague(t):
                    rep.unk("R28.setup", con, "registry configuration not understood")
                else:
                    rep.bad("R28.setup", con, "parsers", "the configured parsers do not reach the registry under the key it reads", e.file, e.line)
        v = p.st.fields.get((me, "processors"))
        v = strip_ver(v) if v is not None else None
        c = p.st.heap.get(v) if v is not None else None
        if c is None or any(e.tag not in ("one",) for e in c.entries):
            on = [cval(e.a[1]) for e in p.events if e.kind == "mut" and norm(e.a[0]) is mk("init", me, "processors") and is_const(e.a[1])]
            if on and on[0] != "clear":
                rep.bad("R28.setup", con, "twice", "processors are added to those of an earlier initialisation: they run twice", f, ln)
            else:
                rep.unk("R28.setup", con, "processors not understood")
            continue
        if any(e.kind == "linsert" and strip_ver(e.a[0]) is v for e in p.events):
            at = [e for e in p.events if e.kind == "linsert" and strip_ver(e.a[0]) is v]
            if all(is_const(e.a[1]) for e in at):
                rep.bad("R28.setup", con, "order", "a processor is set up before those that were set up earlier", at[0].file, at[0].line)
            else:
                rep.unk("R28.setup", con, "processors not understood")
            continue
        names = []
        for e in c.entries:
            n = made.get(strip_ver(e.val))
            q = show(n.a[0]).strip("'").rsplit(".", 1)[-1] if n is not None else None
            kind = next((k for k, q2 in KINDS if q2 == q), None)
            if kind is None:
                names = None
                break
            names.append(kind)
            a = [norm(x) for x in list(n.a[2]) + [y for _, y in n.a[3]]]
            if not a or not (a[0].op in ("item", "get") and is_const(a[0].a[1]) and cval(a[0].a[1]) == kind):
                rep.unk("R28.setup", con, "configuration not understood") if a and vague(a[0]) else rep.bad("R28.setup", con, kind + "-config", f"the {kind} processor is not given its own configuration", n.file, n.line)
            if not ready(p, e.val) and not any(x.kind == "call" and x.a[0].a[0] == ".initialize" and strip_ver(x.a[2][0]) is strip_ver(e.val) for x in p.events):
                rep.bad("R28.setup", con, kind + "-ready", f"the {kind} processor is not initialised", f, ln)
        if names is None:
            rep.unk("R28.setup", con, "processors not understood")
            continue
        asked = {}
        for a, b in p.facts.items():
            if a.op == "in" and is_const(a.a[0]) and cval(a.a[0]) in dict(KINDS) and contains(norm(a.a[1]), lambda x: x is CF):
                asked[cval(a.a[0])] = b
        for a, b in p.facts.items():
            t = norm(a.a[0]) if a.op == "truthy" else None
            if t is not None and not b and t.op in ("get", "item") and is_const(t.a[1]) and cval(t.a[1]) in dict(KINDS) and contains(t.a[0], lambda x: x is CF) and not asked.get(cval(t.a[1])) is False and cval(t.a[1]) not in names:
                rep.bad("R28.setup", con, "empty", f"the {cval(t.a[1])} processor is left out when its configuration is empty", f, ln)
        want = [k for k, _ in KINDS if asked.get(k)]
        if len(asked) == len(KINDS):
            rep.check("R28.setup", con, names == want, "order", f"configured are {want}, set up are {names}", f, ln)
        else:
            rep.check("R28.setup", con, names == [k for k, _ in KINDS if k in names], "order", f"the processors are set up in the order {names}", f, ln)


def ready(p, t):
    v = p.st.fields.get((strip_ver(t), "_initialized"))
    return v is not None and is_const(v) and bool(cval(v))


def c28(prog, rep):
    """All paths of the pipeline are enumerated: the document comes from the registry (or the caller's text), one arbitrary iteration over the
    processors hands the result of the previous one on, one arbitrary iteration over a batch adds exactly one result about that document."""
    rep.rule("R28.source", "the document is parsed once, from the caller's file and with the caller's choice of parser; raw text is handed on as it is", 1)
    rep.rule("R28.chain", "every processor runs once, in the order set up, on the result of the one before; the answer is the result of the last", 2)
    rep.rule("R28.mark", "the answer carries pipeline metadata", 1)
    rep.rule("R28.batch", "a batch has one result per document, in order; a failing document does not stop it", 1)
    rep.rule("R28.setup", "initialize sets up a registry with the configured parsers and exactly the configured processors, initialised, in the order cleaning, chunking, embedding", 1)
    for lay, err, ops, cls in components(prog, ("pipeline",)):
        chain(prog, rep, cls)
        batch(prog, rep, cls, err)
        setup(prog, rep, cls)


CHECKS = {"C27": c27, "C28": c28}
