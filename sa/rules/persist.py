"""Persistence: what is saved is what is loaded; the incremental log and its checkpoints only grow."""
import fnmatch

from ..common import *
from ..common import Interp, concrete, walk
from ..terms import const, contains
from .facade import names_of
from .storage import rets

PATH = mk("param", "path")
SAME = ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", ".copy", "copy.copy", "copy.deepcopy", ".tolist", "list", "dict")
LOSSY = (".astype", "numpy.round", "numpy.around", ".round", "numpy.unique", "numpy.sort", "sorted", "set", "reversed", "numpy.float16", "numpy.float32",
         "numpy.zeros_like", "numpy.empty_like", "numpy.flip", ".sort")
DUMPS = {"pickle.dump": "pickle", "json.dump": "json", "joblib.dump": "joblib", "marshal.dump": "marshal"}
LOADS = {"pickle.load": "pickle", "json.load": "json", "joblib.load": "joblib", "marshal.load": "marshal", "numpy.load": "npz"}
PACKS = {"pickle.dumps": "pickle", "json.dumps": "json", "marshal.dumps": "marshal"}
UNPACKS = {"pickle.loads": "pickle", "json.loads": "json", "marshal.loads": "marshal"}
OPENERS = ("open", "io.open", "gzip.open", "bz2.open", "lzma.open", ".open")
FS = (".exists", ".is_file", "os.path.exists", "os.path.isfile", ".stat", "os.stat", ".glob", "os.listdir", ".iterdir")


def fuzzy(t):
    return any(x.op in ("unk", "phi") for x in walk(t))


def pparts(t):
    """A path as a flat tuple of components."""
    t = strip_ver(t)
    if t.op == "call":
        n, a = t.a[0], t.a[1]
        if n in ("pathlib.Path", "str", "os.fspath", ".resolve", ".absolute", ".expanduser", "pathlib.PurePath", "os.path.abspath", ".as_posix", ".__fspath__") and len(a) == 1:
            return pparts(a[0])
        if n in ("os.path.join", ".joinpath", "pathlib.Path") and a:
            return sum((pparts(x) for x in a), ())
        if n == ".with_name" and len(a) == 2 and len(pparts(a[0])) > 1:
            return pparts(a[0])[:-1] + (strip_ver(a[1]),)
    if t.op == "bin" and t.a[0] == "/":
        return pparts(t.a[1]) + pparts(t.a[2])
    if t.op == "attr" and t.a[1] == "parent":
        q = pparts(t.a[0])
        if len(q) > 1:
            return q[:-1]
    return (norm(t),)


def rename(t, pname):
    """The path parameter under one name in both directions."""
    from ..terms import subst
    return subst(t, {mk("param", pname): PATH}) if t is not None else None


def opened(t):
    """(path parts, mode, opener) of a file handle term."""
    t = strip_ver(t)
    if t.op == "entered":
        t = strip_ver(t.a[0])
    if t.op == "call" and t.a[0] in OPENERS and t.a[1]:
        return pparts(t.a[1][0]), open_mode(t.a[1], t.a[2]), t.a[0] if t.a[0] != ".open" else "open"
    return None


class Write:
    def __init__(self, file, codec, payload, e, mode, opener, handle=None, bare=False):
        self.file, self.codec, self.payload, self.e, self.mode, self.opener, self.handle, self.bare = file, codec, payload, e, mode, opener, handle, bare


def keyed(t, p):
    """payload -> {key: value}; the whole object has key None"""
    c = p.st.heap.get(strip_ver(t))
    if c is not None and c.kind == "dict" and c.entries and not c.src and all(e.key is not None and is_const(e.key) for e in c.entries):
        return {cval(e.key): e.val for e in c.entries}
    return {None: t}


def writes(p):
    """Files written on the path, in order."""
    out = []
    for i, e in enumerate(p.events):
        if e.kind != "call":
            continue
        n, a, kw = e.a[0].a[0], e.a[2], dict(e.a[3])
        h = w = None
        if n in DUMPS and len(a) > 1:
            h, codec, pay = a[1], DUMPS[n], keyed(a[0], p)
        elif n in DUMPS and a and len(kw) and ("file" in kw or "fp" in kw):
            h, codec, pay = kw.get("file", kw.get("fp")), DUMPS[n], keyed(a[0], p)
        elif n in ("numpy.savez", "numpy.savez_compressed") and a:
            h, codec = a[0], "npz"
            pay = {k: v for k, v in e.a[3] if k is not None and k != "allow_pickle"}
            for j, x in enumerate(a[1:]):
                pay[f"arr_{j}"] = x
            if any(not isinstance(k, str) for k, v in e.a[3]):
                pay = {"?": mk("unk", "splat")}
        elif n == "numpy.save" and len(a) > 1:
            h, codec, pay = a[0], "npy", {None: a[1]}
        elif n == "print" and "file" in kw:
            h, codec = kw["file"], "raw"
            pay = {None: mk("fmt", *(list(a) + [kw.get("end", const("\n"))]))} if len(a) == 1 else {None: mk("unk", "print")}
        elif n in (".write", ".write_bytes", ".write_text") and len(a) > 1:
            h = a[0]
            x = strip_ver(a[1])
            while x.op == "call" and x.a[0] in (".encode", "str") and x.a[1]:
                x = strip_ver(x.a[1][0])
            codec = PACKS.get(x.a[0]) if x.op == "call" else None
            pay = keyed(x.a[1][0], p) if codec and x.a[1] else {None: x}
            if codec is None:
                codec = "raw"
        if h is None:
            continue
        o = opened(h)
        if o:
            w = Write(o[0], codec, pay, (i, e), o[1], o[2], strip_ver(h))
        elif n in (".write_bytes", ".write_text"):
            w = Write(pparts(h), codec, pay, (i, e), "wb", "open")
        elif codec in ("npz", "npy") and not fuzzy(h):
            w = Write(pparts(h), codec, pay, (i, e), "wb", "open", None, True)
        else:
            w = Write((norm(strip_ver(h)),), codec, pay, (i, e), "?", "?", strip_ver(h))
        out.append(w)
    for i, e in enumerate(p.events):
        if e.kind == "call" and e.a[0].a[0] in ("os.replace", "os.rename", "shutil.move", ".replace", ".rename") and len(e.a[2]) == 2:
            s, d = pparts(e.a[2][0]), pparts(e.a[2][1])
            for w in out:
                if w.file == s and w.e[0] < i:
                    w.file, w.moved = d, e
    return out


def source_of(t):
    """(file parts, codec, opener, mode) of a value that is the whole content of a file."""
    t = strip_ver(t)
    if t.op != "call" or not t.a[1]:
        return None
    n, a = t.a[0], t.a[1]
    if n in LOADS:
        o = opened(a[0])
        if o:
            return o[0], LOADS[n], o[2], o[1]
        if n == "numpy.load":
            return pparts(a[0]), "npz", "open", "rb"
        return None
    if n in UNPACKS:
        x = strip_ver(a[0])
        while x.op == "call" and x.a[0] in (".decode", "str", "bytes") and x.a[1]:
            x = strip_ver(x.a[1][0])
        if x.op == "call" and x.a[0] in (".read", ".read_bytes", ".read_text") and x.a[1]:
            o = opened(x.a[1][0])
            if o:
                return o[0], UNPACKS[n], o[2], o[1]
            if x.a[0] != ".read":
                return pparts(x.a[1][0]), UNPACKS[n], "open", "rb"
    return None


def plain_dtype(kw):
    d = dict(kw).get("dtype")
    return d is None or (d.op == "glob" and d.a[0] in ("object", "builtins.object")) or (is_const(d) and cval(d) is None)


def trail(t):
    """value -> (content source term, key or None, lossy step or None, traced?)"""
    key, lossy = None, None
    while True:
        t = strip_ver(t)
        if source_of(t):
            return t, key, lossy, True
        if t.op in ("item", "get") and key is None and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
            key, t = cval(t.a[1]), t.a[0]
            continue
        if t.op == "call" and t.a[1]:
            if t.a[0] in SAME:
                if not plain_dtype(t.a[2]):
                    lossy = lossy or t
                t = t.a[1][0]
                continue
            if t.a[0] in LOSSY:
                lossy, t = lossy or t, t.a[1][0]
                continue
            if t.a[0] == ".__enter__":
                t = t.a[1][0]
                continue
        if t.op in ("slice",):
            lossy, t = lossy or t, t.a[0]
            continue
        if t.op == "comp" and t.a[0] in ("list", "set", "dict"):
            if not itself(t):
                lossy = lossy or t
            t = strip_ver(t.a[1])
            if t.op == "call" and t.a[0] == ".items" and t.a[1]:
                t = t.a[1][0]
            continue
        return t, key, lossy, False


def itself(t):
    """A comprehension that lists exactly the elements it runs over."""
    alts = t.a[2]
    if t.a[0] == "set" or len(alts) != 1 or len(alts[0][0]):
        return False
    v = alts[0][1]
    if t.a[0] == "dict":
        kv = v.a if hasattr(v, "op") and v.op == "tuple" else v if isinstance(v, tuple) else ()
        base = strip_ver(t.a[1])
        base = strip_ver(base.a[1][0]) if base.op == "call" and base.a[0] == ".items" else base
        return len(kv) == 2 and kv[0].op == "key" and kv[1].op == "item" and strip_ver(kv[1].a[0]) is base and strip_ver(kv[1].a[1]) is kv[0]
    v = strip_ver(v)
    return v.op == "item" and strip_ver(v.a[0]) is strip_ver(t.a[1]) and v.a[1].op == "idx"


def emptied(t, p):
    """A fixed answer: a constant, or a container nothing was put into."""
    if is_const(t):
        return True
    c = p.st.heap.get(t) if t.op == "alloc" else None
    return c is not None and not c.entries and not c.src and not any(e.kind in ("mut", "setitem") and strip_ver(e.a[0]) is t for e in p.events)


def missing_file(l, file, lpath):
    return any(a.op == "truthy" and not v and exists(a) and tuple(norm(rename(y, lpath)) for y in pparts(strip_ver(a.a[0]).a[1][0])) == file for a, v in l.facts.items())


def exists(a):
    x = strip_ver(a.a[0]) if a.a and hasattr(a.a[0], "op") else a
    return x.op == "call" and x.a[0] in (".exists", ".is_file", "os.path.exists", "os.path.isfile") and bool(x.a[1])


def faithful(v, want, p, mapping=False):
    """Is the saved value the caller's object?  True / False (with the step that changes it) / None."""
    t, lossy = strip_ver(v), None
    while t is not want:
        if mapping and t.op == "call" and t.a[0] in ("list", "tuple", "set", "sorted", "numpy.array", "numpy.asarray", ".tolist", ".keys", ".values") and t.a[1] and strip_ver(t.a[1][0]) is want:
            return False, t
        if t.op == "call" and t.a[1] and t.a[0] in SAME + ("str",):
            if not plain_dtype(t.a[2]):
                d = dict(t.a[2])["dtype"]
                if d.op == "glob" or is_const(d):
                    if not (d.op == "glob" and d.a[0] in ("str", "builtins.str")):
                        lossy = t
            t = strip_ver(t.a[1][0])
        elif t.op == "call" and t.a[1] and t.a[0] in LOSSY:
            lossy, t = t, strip_ver(t.a[1][0])
        elif t.op in ("slice", "item"):
            lossy, t = t, strip_ver(t.a[0])
        elif t.op == "param" or is_const(t):
            return False, t
        else:
            return collected(t, want, p), t
    return (False, lossy) if lossy is not None else (True, t)


def collected(t, want, p):
    """A container built from the caller's object: complete copy (True), changed or incomplete (False), not known (None)."""
    if t.op == "comp":
        src = strip_ver(t.a[1])
        while src.op == "call" and src.a[0] in (".items", "list", "iter") and src.a[1]:
            src = strip_ver(src.a[1][0])
        if src is not want:
            return None
        alts = t.a[2]
        if any(len(alt[0]) for alt in alts):
            return False            # filtered
        v = alts[0][1] if len(alts) == 1 else None
        if v is not None and hasattr(v, "op") and (v.op == "tuple" and v.a[0].op == "key" and v.a[1].op == "item" and strip_ver(v.a[1].a[0]) is want or v.op == "item" and strip_ver(v.a[0]) is want):
            return True
        return None
    c = p.st.heap.get(t)
    if c is None:
        return None
    if any(e.kind in ("delitem", "mut") and strip_ver(e.a[0]) is t and (e.kind == "delitem" or cval(e.a[1]) not in ("append", "extend")) for e in p.events):
        return False
    if not c.entries and not c.src:
        return True if p.facts.get(mk("truthy", want)) is False else False
    tags = [e.tag for e in c.entries]
    if all(x == "rest" for x in tags):
        if len(tags) != 1:
            return None
        x, cut = strip_ver(c.entries[0].val if c.entries[0].val is not None else c.entries[0].key), False
        while x is not want:
            if x.op == "slice":
                cut, x = True, strip_ver(x.a[0])
            elif x.op == "call" and x.a[1] and x.a[0] in (".items", "list", "tuple", "iter", "sorted", "reversed"):
                x = strip_ver(x.a[1][0])
            else:
                return None
        return not cut
    if tags[0] == "rest" and all(x == "one" for x in tags[1:]):
        return False                # a copy with keys replaced
    if tags == ["prev"] and any(strip_ver(e.a[0]) is want for e in p.events if e.kind == "iter"):
        return False                # an element is passed over
    return None


def fs_atom(a):
    return contains(a, lambda x: x.op == "call" and x.a[0] in FS)


def clash(fa, fb, na, nb):
    """The two sets of facts (over fields and the path) cannot hold together."""
    A = {}
    for a, v in fa.items():
        if not fs_atom(a):
            A[norm(rename(a, na))] = v
    for b, v in fb.items():
        if fs_atom(b):
            continue
        b = norm(rename(b, nb))
        if A.get(b, v) != v:
            return True
        if b.op == "eq" and v:
            for a, w in A.items():
                if w and a.op == "eq" and a.a[0] is b.a[0] and is_const(a.a[1]) and is_const(b.a[1]) and a.a[1] is not b.a[1]:
                    return True
    return False


def npz_named(parts, facts, pn):
    t = parts[-1]
    if t.op == "fmt" and is_const(t.a[-1]) and str(cval(t.a[-1])).endswith(".npz"):
        return True
    if is_const(t) and str(cval(t)).endswith(".npz"):
        return True
    if t.op == "call" and t.a[0] == ".with_suffix" and len(t.a[1]) > 1 and t.a[1][1] is const(".npz"):
        return True
    for a, v in facts.items():
        if v and contains(a, lambda x: x is const(".npz")) and contains(a, lambda x: x.op == "attr" and x.a[1] == "suffix" or x.op == "call" and x.a[0] == ".endswith"):
            return True
    return False


# ------------------------------------------------------------------ C23
def c23(prog, rep):
    """Files are abstracted to the term of their path.  For every pair save_X/load_X each successful path of save_X is matched with each path of
    load_X it is compatible with: same file, same codec, the caller's own objects under the keys they are read back from, nothing lossy in
    between; True only after the write, None only if the file does not exist."""
    rep.rule("R23.file", "load opens exactly the file save wrote, with the same codec", 5)
    rep.rule("R23.value", "the caller's objects are written unchanged and come back from the keys they were written under", 7)
    rep.rule("R23.done", "success is reported only after the write", 5)
    rep.rule("R23.absent", "nothing is answered only if the file does not exist", 5)
    pm = LAYERS["persistence"][0]
    for cls in concrete(prog, pm):
        for what, n in (("vectors", 2), ("index", 1), ("state", 1)):
            S, L = f"save_{what}", f"load_{what}"
            if what == "state" and not uses_path(prog, rep, cls, S, L):
                continue
            pair(prog, rep, cname(cls), rets(paths(prog, rep, cls, S)), rets(paths(prog, rep, cls, L)), names_of(cls, S), names_of(cls, L), S, L, n)
    helpers(prog, rep)


def uses_path(prog, rep, cls, S, L):
    """Managers that keep one current state under names of their own are judged by C24."""
    pn = names_of(cls, L)[0]
    for p in rets(paths(prog, rep, cls, L)):
        if p.val is not NONE and contains(p.val, lambda x: x is mk("param", pn)):
            return True
    sn = names_of(cls, S)[-1]
    return any(contains(x, lambda y: y is mk("param", sn)) for p in rets(paths(prog, rep, cls, S)) for w in writes(p) if w.mode.startswith("w") for x in w.file)


def pair(prog, rep, n, sps, lps, sn, ln, S, L, nval, done=True):
    spath, lpath = sn[-1], ln[0]
    want = [mk("param", x) for x in sn[:nval]]
    con, lcon = f"{n}.{S}", f"{n}.{L}"
    for s in sps:
        f, line = loc(s)
        if s.val is FALSE:
            continue
        ws = [w for w in writes(s) if hits(w, want, s)]
        if not ws and any(s.facts.get(mk("truthy", x)) is False for x in want) and any(w.mode[:1] != "a" for w in writes(s)):
            continue
        if not ws:
            if any(fuzzy(e.a[0]) for e in s.events if e.kind == "call") or unknown_io(s):
                rep.unk("R23.done", con, "write not tracked")
            else:
                rep.bad("R23.done", con, "write", "reports success without writing what it was given", f, line)
            continue
        own = [w for w in ws if w.mode[:1] != "a"]
        w = (own or ws)[-1]
        if not all(any(hits(w, [x], s) for w in ws) for x in want) and not any("?" in w.payload for w in ws):
            rep.bad("R23.done", con, "part", "reports success without writing " + ", ".join(str(x.a[0]) for x in want if not any(hits(w, [x], s) for w in ws)), f, line)
            continue
        rep.ok("R23.done", con)
        if w.mode[:1] == "a":
            rep.bad("R23.file", con, "append", "appends to the file, so the first saved value is the one that is read back", w.e[1].file, w.e[1].line)
            continue
        values = {}
        for k, v in w.payload.items():
            for x in want:
                if hits1(v, x, s):
                    r, t = faithful(v, x, s, nval == 1)
                    if r is None:
                        rep.unk("R23.value", f"{con}.{x.a[0]}", show(v)[:80])
                    elif not r:
                        rep.bad("R23.value", f"{con}.{x.a[0]}", "lossy", f"writes {show(v)[:100]} instead of {x.a[0]}", w.e[1].file, w.e[1].line)
                    else:
                        rep.ok("R23.value", f"{con}.{x.a[0]}")
                    values[x] = k
        file = tuple(norm(rename(x, spath)) for x in w.file)
        if any(fuzzy(x) for x in file):
            rep.unk("R23.file", con, "file not tracked")
            continue
        found = False
        for l in lps:
            if clash(s.facts, l.facts, spath, lpath):
                continue
            lf, lline = loc(l)
            vals = list(l.val.a) if l.val.op == "tuple" else [l.val]
            if all(v is NONE for v in vals):
                absent(rep, lcon, l, file, lpath, lf, lline)
                continue
            tr = [trail(v) for v in vals]
            if any(emptied(v, l) for v in vals) and not any(e.kind == "callx" for e in l.events):
                if missing_file(l, file, lpath):
                    rep.bad("R23.absent", lcon, "made up", f"answers {show(l.val)[:60]} for a file that does not exist, not None", lf, lline)
                    continue
                if not any(fuzzy(a) or contains(a, lambda x: x.op == "call") for a in l.facts if not exists(a)):
                    rep.bad("R23.value", lcon, "made up", f"answers {show(l.val)[:60]}, not the value that was written", lf, lline)
                    found = True
                    continue
            if not all(t[3] for t in tr) or len(vals) != nval:
                rep.unk("R23.file", lcon, "answer not traced to a file")
                found = True
                continue
            for i, (src, key, lossy, _) in enumerate(tr):
                parts, codec, opener, mode = source_of(src)
                parts = tuple(norm(rename(x, lpath)) for x in parts)
                c2 = f"{lcon}[{want[i].a[0]}]"
                if w.bare and w.codec == "npz" and not npz_named(parts, l.facts, lpath):
                    if contains(mk("tuple", *parts), lambda x: is_const(x) and ".npz" in str(cval(x))):
                        rep.unk("R23.file", c2, "suffix")
                    else:
                        rep.bad("R23.file", c2, "suffix", f"{con} lets numpy append '.npz' to the name, {lcon} opens the name as given", w.e[1].file, w.e[1].line)
                    found = True
                    continue
                if parts != file:
                    if any(fuzzy(x) for x in parts):
                        rep.unk("R23.file", c2, "file not tracked")
                    else:
                        rep.bad("R23.file", c2, "file", f"reads {join(parts)} but {con} writes {join(file)}", lf, lline)
                    found = True
                    continue
                found = True
                if w.opener not in ("?", opener) or w.codec != codec and w.codec != "raw":
                    rep.bad("R23.file", c2, "codec", f"reads {codec} with {opener} but {con} writes {w.codec} with {w.opener}", lf, lline)
                    continue
                rep.ok("R23.file", c2)
                k = values.get(want[i])
                if want[i] in values and key != k and k != "?":
                    if k is None and key is None or "?" in w.payload:
                        continue
                    rep.bad("R23.value", c2, "key", f"comes back from {key!r} but {con} writes it as {k!r}", lf, lline)
                elif lossy is not None:
                    rep.bad("R23.value", c2, "lossy", f"answers {show(vals[i])[:100]}, not the value that was written", lf, lline)
                else:
                    rep.ok("R23.value", c2)
        if not found:
            rep.bad("R23.file", con, "never", f"no path of {L} reads back what this path of {S} writes", f, line)


def join(parts):
    return "/".join(show(x) for x in parts)


def hits1(v, x, p, seen=None):
    """x is part of the value v (looking into the containers it was collected in)"""
    seen = seen or set()
    for y in walk(v):
        if y is x:
            return True
        c = p.st.heap.get(y)
        if c is not None and y not in seen:
            seen.add(y)
            if any(hits1(z, x, p, seen) for e in c.entries for z in (e.key, e.val) if z is not None):
                return True
            if c.src is not None and any(hits1(z, x, p, seen) for z in (c.src if isinstance(c.src, (tuple, list)) else [c.src]) if hasattr(z, "op")):
                return True
    return False


def hits(w, want, p):
    return any(hits1(v, x, p) for v in w.payload.values() for x in want) or any(k == "?" for k in w.payload)


def unknown_io(p):
    """Something on the path may write in a way the file model does not follow."""
    known = {w.e[0] for w in writes(p) if not any(fuzzy(x) for x in w.file) and not any(fuzzy(v) for v in w.payload.values())}
    for i, e in enumerate(p.events):
        if e.kind == "call" and i not in known:
            if e.a[0].a[0] in ("getattr", "call"):
                return True
            if is_write_call(e) and e.a[0].a[0] not in (".mkdir", ".touch", "os.makedirs", ".unlink") + OPENERS:
                return True
    return False


def emptiness(a, v, l, file, lpath):
    """A condition on what the file holds that a saved value may meet."""
    def whole(x):
        s = trail(strip_ver(x))
        return s[3] and tuple(norm(rename(y, lpath)) for y in source_of(s[0])[0]) == file
    if a.op == "truthy" and not v and whole(a.a[0]):
        return "what it holds is empty"
    if a.op in ("eq", "lt", "le"):
        for i in (0, 1):
            x, c = strip_ver(a.a[i]), a.a[1 - i]
            if x.op == "call" and x.a[0] == "len" and x.a[1] and whole(x.a[1][0]):
                return "of how much it holds"
            if x.op == "attr" and x.a[1] == "st_size" and is_const(c) and isinstance(cval(c), (int, float)) and cval(c) > 1:
                if a.op != "eq" and v == (i == 0):
                    return f"it is smaller than {cval(c)} bytes"
    return None


def absent(rep, lcon, l, file, lpath, f, line):
    for a, v in l.facts.items():
        for x in walk(a):
            if x.op == "call" and x.a[0] in (".exists", ".is_file", "os.path.exists", "os.path.isfile") and x.a[1]:
                if a.op == "truthy" and not v:
                    got = tuple(norm(rename(y, lpath)) for y in pparts(x.a[1][0]))
                    if got == file:
                        rep.ok("R23.absent", lcon)
                    elif any(fuzzy(y) for y in got):
                        rep.unk("R23.absent", lcon, "file not tracked")
                    else:
                        rep.bad("R23.absent", lcon, "other", f"answers nothing because {join(got)} does not exist, but the value is in {join(file)}", f, line)
                    return
    if not any(e.kind == "callx" for e in l.events):
        for a, v in l.facts.items():
            x = strip_ver(a.a[0]) if a.a and hasattr(a.a[0], "op") else a
            if a.op == "isnone" and v and trail(x)[3]:
                rep.ok("R23.absent", lcon)      # what was saved is None
                return
            r = emptiness(a, v, l, file, lpath)
            if r:
                rep.bad("R23.absent", lcon, "content", f"answers nothing although the file exists, because {r}", f, line)
                return
    if any(e.kind == "callx" for e in l.events) or any(fuzzy(a) or contains(a, lambda x: x.op == "call") for a in l.facts if not exists(a)):
        rep.unk("R23.absent", lcon, "condition not tracked")
    else:
        rep.bad("R23.absent", lcon, "given", "answers nothing although the file may exist", f, line)


def helpers(prog, rep):
    """save_vectors_to_file / load_vectors_from_file, matched by the suffix that belongs to the format."""
    S, L = prog.func("save_vectors_to_file"), prog.func("load_vectors_from_file")
    sp, lp = rets(fpaths(prog, rep, S)), rets(fpaths(prog, rep, L))
    an = [a.arg for a in S.node.args.args]
    ln = [a.arg for a in L.node.args.args][0]
    want = [mk("param", an[0]), mk("param", an[1])]
    formats = {"npz": "npz", "pickle": "pickle", "json": "json"}
    for s in sp:
        f, line = loc(s)
        ws = [w for w in writes(s) if hits(w, want, s)]
        con = "save_vectors_to_file"
        if not ws:
            if unknown_io(s):
                rep.unk("R23.done", con, "write not tracked")
            else:
                rep.bad("R23.done", con, "write", "returns without writing the vectors", f, line)
            continue
        w = ws[-1]
        con += f"[{w.codec}]"
        for i, x in enumerate(want):
            ks = [k for k, v in w.payload.items() if hits1(v, x, s) and faithful(v, x, s)[0] is not False]
            if not ks:
                lost = [v for v in w.payload.values() if hits1(v, x, s)]
                rep.bad("R23.value", f"{con}.{x.a[0]}", "lossy", f"does not write {x.a[0]} unchanged" + (f" but {show(lost[0])[:80]}" if lost else ""), w.e[1].file, w.e[1].line)
                continue
            for l in lp:
                vals = list(l.val.a) if l.val.op == "tuple" else []
                if len(vals) != 2:
                    rep.unk("R23.value", con, "answer of load_vectors_from_file not tracked")
                    continue
                src, key, lossy, ok = trail(vals[i])
                if not ok:
                    rep.unk("R23.value", con, "not traced")
                    continue
                parts, codec, opener, mode = source_of(src)
                if codec != w.codec:
                    continue
                lf, lline = loc(l)
                if lossy is not None:
                    rep.bad("R23.value", f"{con}.{x.a[0]}", "load", f"answers {show(vals[i])[:80]}", lf, lline)
                elif key not in ks and "?" not in w.payload:
                    rep.bad("R23.value", f"{con}.{x.a[0]}", "key", f"is written as {ks[0]!r} and read back from {key!r}", lf, lline)
                else:
                    rep.ok("R23.value", f"{con}.{x.a[0]}")
            if not any(source_of(trail(v)[0]) and source_of(trail(v)[0])[1] == w.codec for l in lp if l.val.op == "tuple" for v in l.val.a):
                rep.bad("R23.value", f"{con}.{x.a[0]}", "codec", f"no path of load_vectors_from_file reads {w.codec}", w.e[1].file, w.e[1].line)


# ------------------------------------------------------------------ C24
SAVES = ("save_state", "save_vectors", "save_index")


def c24(prog, rep):
    """In every manager that keeps a log opened for appending: each successful save ends with exactly one newline-terminated JSON entry naming the
    operation and carrying the current counter, written after the data; the counter then grows; initialize never puts it below the number of
    logged lines; nothing truncates the log; checkpoints carry the counter in their name and the loader takes the numerically largest."""
    rep.rule("R24.entry", "each successful save writes exactly one log line, after its data, naming the operation", 3)
    rep.rule("R24.count", "the operation id is the counter, which grows with every entry", 3)
    rep.rule("R24.restart", "initialize never sets the counter below the number of logged operations", 1)
    rep.rule("R24.append", "the log is never truncated, removed or rewritten", 5)
    rep.rule("R24.latest", "load_state reads back the checkpoint with the numerically largest counter", 1)
    for cls in concrete(prog, LAYERS["persistence"][0]):
        logs = set()
        for op in SAVES:
            for p in rets(paths(prog, rep, cls, op)):
                for w in writes(p):
                    if w.mode[:1] == "a":
                        logs.add(w.file)
        if len(logs) != 1:
            if logs or cname(cls) == "IncrementalPersistence":
                log = field_path(cls, "log_file")
                if log is None:
                    rep.unk("R24.entry", cname(cls), "log file not identified")
                    continue
            else:
                continue
        else:
            log = next(iter(logs))
        incremental(prog, rep, cls, log)


def field_path(cls, f):
    return (mk("init", self_of(cls), f),) if cls.find_attr(f) or any(True for _ in [0]) else None


def pieces(p, log):
    """Text appended to the log: list of (terms, event index, handle)"""
    out = []
    for w in writes(p):
        if w.file != log:
            continue
        for v in w.payload.values():
            v = strip_ver(v)
            if w.codec == "json":
                i, e = w.e
                t = mk("call", "json.dumps", (strip_ver(e.a[2][0]),), e.a[3], 0) if e.a[0].a[0] == "json.dump" else strip_ver(e.a[2][1])
                out.append(([t], w))
                break
            out.append((list(v.a) if v.op == "fmt" else concat(v), w))
    return out


def concat(t):
    t = strip_ver(t)
    if t.op == "bin" and t.a[0] == "+":
        return concat(t.a[1]) + concat(t.a[2])
    if t.op == "fmt":
        return sum((concat(x) for x in t.a), [])
    return [t]


def grown(t, me):
    """t = self.C + c  ->  (C, c)"""
    c = 0
    t = strip_ver(t)
    while t.op == "bin" and t.a[0] in ("+", "-"):
        x, y = strip_ver(t.a[1]), strip_ver(t.a[2])
        if is_const(y) and isinstance(cval(y), int):
            c += cval(y) if t.a[0] == "+" else -cval(y)
            t = x
        elif is_const(x) and isinstance(cval(x), int) and t.a[0] == "+":
            c += cval(x)
            t = y
        else:
            return None
    if t.op == "init" and t.a[0] is me:
        return t.a[1], c
    return None


def incremental(prog, rep, cls, log):
    me = self_of(cls)
    n = cname(cls)
    counters = set()
    for op in SAVES:
        con = f"{n}.{op}"
        data = [mk("param", x) for x in names_of(cls, op)[:-1]]
        for p in rets(paths(prog, rep, cls, op)):
            if p.val is FALSE:
                continue
            f, line = loc(p)
            ps = pieces(p, log)
            text = [x for ts, w in ps for x in ts]
            entries = [t for t in text if t.op == "call" and t.a[0] == "json.dumps"]
            if any(w.e[1].loops for ts, w in ps):
                rep.unk("R24.entry", con, "written in a loop")
                continue
            if not entries:
                if text or unknown_io(p):
                    rep.unk("R24.entry", con, "log entry not tracked")
                else:
                    rep.bad("R24.entry", con, "missing", "reports success without a log entry", f, line)
                continue
            w = ps[0][1]
            at = (w.e[1].file, w.e[1].line)
            if len(entries) > 1:
                rep.bad("R24.entry", con, "twice", f"writes {len(entries)} log entries for one operation", *at)
                continue
            ent = entries[0]
            i = text.index(ent)
            rest = "".join(str(cval(x)) if is_const(x) else "?" for x in text[i + 1:])
            if "?" in rest:
                rep.unk("R24.entry", con, "line end not tracked")
            elif not rest.startswith("\n") and not "".join(str(cval(x)) if is_const(x) else "?" for x in text[:i]).endswith("\n"):
                rep.bad("R24.entry", con, "newline", "does not end the log entry with a newline", *at)
                continue
            ind = dict(ent.a[2]).get("indent")
            if ind is not None and not (is_const(ind) and cval(ind) is None):
                rep.bad("R24.entry", con, "indent", "spreads one log entry over several lines", *at)
                continue
            dw = [x for x in writes(p) if x.file != log and hits(x, data, p)]
            if dw and max(x.e[0] for x in dw) > w.e[0]:
                rep.bad("R24.entry", con, "order", "logs the operation before its data is written", *at)
                continue
            c = p.st.heap.get(strip_ver(ent.a[1][0]))
            d = {cval(e.key): e.val for e in c.entries if e.key is not None and is_const(e.key)} if c is not None and c.kind == "dict" else None
            if d is None:
                rep.unk("R24.entry", con, "entry not tracked")
                continue
            named = [v for v in d.values() if is_const(v) and cval(v) in SAVES]
            if named and named[0] is not const(op):
                rep.bad("R24.entry", con, "name", f"is logged as {show(named[0])}", *at)
                continue
            rep.ok("R24.entry", con)
            ids = [(k, grown(v, me)) for k, v in d.items() if grown(v, me)]
            if not ids:
                k = "operation_id"
                if k in d and (is_const(d[k]) or not fuzzy(d[k])):
                    rep.bad("R24.count", con, "id", f"the operation id is {show(d[k])}, not the operation counter", *at)
                else:
                    rep.unk("R24.count", con, "no counter in the entry")
                continue
            for k, (C, off) in ids:
                fin = p.st.fields.get((me, C))
                g = grown(fin, me) if fin is not None else (C, 0)
                counters.add(C)
                if g is None:
                    if fuzzy(fin):
                        rep.unk("R24.count", con, C)
                    else:
                        rep.bad("R24.count", con, C, f"sets {C} to {show(fin)[:80]}", *at)
                elif g[0] != C or g[1] < 1:
                    rep.bad("R24.count", con, C, f"{C} does not grow with the entry (it becomes {show(fin) if fin is not None else 'unchanged'})", *at)
                else:
                    rep.ok("R24.count", con)
    swallowed(prog, rep, cls, n, log)
    pruned(prog, rep, cls, n)
    restart(prog, rep, cls, me, n, log, counters)
    for op in ("initialize", "load_state", "load_vectors", "load_index", "get_stats", "close") + SAVES:
        append_only(prog, rep, cls, n, op, log)
    latest(prog, rep, cls, me, n, counters)


def swallowed(prog, rep, cls, n, log):
    """A save that could not append its entry does not report success."""
    for op in SAVES:
        con = f"{n}.{op}"
        for p in rets(paths(prog, rep, cls, op, P(implicit=True))):
            if p.val is FALSE or p.val is NONE:
                continue
            xs = [e for e in p.events if e.kind == "callx"]
            if not xs or any(t.op == "call" and t.a[0] == "json.dumps" for ts, w in pieces(p, log) for t in ts):
                continue
            x = xs[-1]
            h = [y for y in (x.a[2] if len(x.a) > 2 and isinstance(x.a[2], tuple) else ()) if hasattr(y, "op")]
            nm = x.a[0].a[0]
            if nm in OPENERS and h and pparts(h[0]) == log or nm in (".write", ".writelines") and h and opened(h[0]) and opened(h[0])[0] == log or nm == "json.dumps":
                if not any(nm == e.a[0].a[0] for e in p.events if e.kind == "call" and e.kind != "callx" and p.events.index(e) > p.events.index(x)):
                    rep.bad("R24.entry", con, "swallowed", f"reports success although appending the log entry failed ({nm.lstrip('.')} raised)", x.file, x.line)


def pruned(prog, rep, cls, n):
    """No checkpoint is removed that may be the newest: the listing is ordered by name only."""
    for op in SAVES + ("initialize", "close", "load_state"):
        con = f"{n}.{op}"
        for p in paths(prog, rep, cls, op) or []:
            for e in p.events:
                if e.kind != "call" or e.a[0].a[0] not in (".unlink", "os.remove", "os.unlink", "shutil.rmtree") or not e.a[2]:
                    continue
                t = strip_ver(e.a[2][0])
                if not contains(t, lambda x: x.op == "call" and x.a[0] in (".glob", ".iterdir", "glob.glob", "os.listdir", "os.scandir", ".rglob")):
                    continue
                seq = strip_ver(t.a[0]) if t.op == "item" else t
                cut = None
                while seq.op == "slice":
                    cut, seq = seq, strip_ver(seq.a[0])
                key = dict(seq.a[2]).get("key") if seq.op == "call" and seq.a[0] == "sorted" else None
                ordered = seq.op == "call" and seq.a[0] == "sorted"
                if not ordered and not (seq.op == "call" and seq.a[0] in (".glob", ".iterdir", "list", ".rglob")):
                    rep.unk("R24.latest", con, "what is removed is not tracked")
                elif ordered and numeric_key(prog, p, key) is not False:
                    rep.unk("R24.latest", con, "what is removed is not tracked")
                elif any(contains(a, lambda x: x is t) for a in p.facts):
                    rep.unk("R24.latest", con, "what is removed is not tracked")
                elif cut is None or ordered:
                    rep.bad("R24.latest", con, "removed", f"removes checkpoints {'ordered by name' if ordered else 'in no order'}, so the newest may go", e.file, e.line)


def reads_log(t, log):
    return contains(t, lambda x: x.op == "call" and x.a[1] and (x.a[0] in OPENERS + (".read_text", ".read_bytes")) and pparts(x.a[1][0]) == log)


def missing(p, log):
    for a, v in p.facts.items():
        if a.op == "truthy" and not v:
            x = strip_ver(a.a[0])
            if x.op == "call" and x.a[0] in (".exists", ".is_file", "os.path.exists") and x.a[1] and pparts(x.a[1][0]) == log:
                return True
    return False


def restart(prog, rep, cls, me, n, log, counters):
    con = f"{n}.initialize"
    for p in rets(paths(prog, rep, cls, "initialize")):
        f, line = loc(p)
        for C in counters:
            v = p.st.fields.get((me, C))
            if v is None:
                if missing(p, log):
                    continue
                rep.bad("R24.restart", con, C, f"leaves {C} at its start value although the log may hold operations", f, line)
                continue
            v = strip_ver(v)
            if missing(p, log) and not any(contains(v, lambda x: x.op == "init") for _ in [0]):
                rep.ok("R24.restart", con)
            elif not reads_log(v, log):
                if fuzzy(v):
                    rep.unk("R24.restart", con, C)
                elif not passed(p, log):
                    rep.bad("R24.restart", con, C, f"sets {C} to {show(v)[:90]}, which may lie below the number of operations already logged", f, line)
                elif above(p, v, log):
                    rep.ok("R24.restart", con)
                else:
                    rep.unk("R24.restart", con, C)
            elif contains(v, lambda x: x.op == "call" and x.a[0] == "min" or x.op == "min"):
                rep.bad("R24.restart", con, C, f"sets {C} to {show(v)[:90]}", f, line)
            elif unfiltered(v, log):
                rep.ok("R24.restart", con)
            else:
                rep.unk("R24.restart", con, C)


def passed(p, log):
    """something about the log decides this path"""
    return any(reads_log(a, log) for a in p.facts)


def above(p, v, log):
    for a, pol in p.facts.items():
        if a.op in ("lt", "le") and reads_log(a, log):
            x, y = strip_ver(a.a[0]), strip_ver(a.a[1])
            if (x is v and pol is False) or (y is v and pol):
                return True
    return False


def unfiltered(v, log):
    """max(..., count of the log's lines) or the count itself"""
    v = strip_ver(v)
    if v.op == "max" or v.op == "call" and v.a[0] == "max":
        xs = v.a if v.op == "max" else v.a[1]
        return any(unfiltered(x, log) for x in walk(mk("tuple", *[x for x in xs if hasattr(x, "op")])) if reads_log(x, log))
    return v.op in ("call", "len") and (v.op == "len" or v.a[0] in ("sum", "len")) and reads_log(v, log)


def append_only(prog, rep, cls, n, op, log):
    con = f"{n}.{op}"
    ok = True
    for p in paths(prog, rep, cls, op) or []:
        for e in p.events:
            if e.kind != "call" or not e.a[2]:
                continue
            nm = e.a[0].a[0]
            if nm in OPENERS and pparts(e.a[2][0]) == log:
                m = open_mode(e.a[2], e.a[3])
                if m[:1] in ("w", "x") and not missing(p, log):
                    ok = False
                    rep.bad("R24.append", con, "open", f"opens the log with mode {m!r}, which empties it", e.file, e.line)
                elif m == "?" or m[:2] == "r+":
                    rep.unk("R24.append", con, m)
            elif nm in (".unlink", "os.remove", "os.unlink", ".write_text", ".write_bytes", "os.replace", "os.rename", ".rename", ".replace", "shutil.move", "os.truncate") \
                    and any(pparts(x) == log for x in e.a[2]) and not missing(p, log):
                ok = False
                rep.bad("R24.append", con, nm, f"{nm[1:] if nm[0] == '.' else nm} on the log", e.file, e.line)
    if ok:
        rep.ok("R24.append", con)


def closure_body(prog, p, key):
    """(parameter, returned expression) of a lambda / one-line function key."""
    import ast
    I = p.interp
    clo = getattr(I, "closures", {}).get(key) or getattr(I, "closures", {}).get(strip_ver(key))
    node = getattr(clo, "node", None)
    if isinstance(node, ast.Lambda):
        return node.args.args[0].arg, node.body
    if isinstance(node, ast.FunctionDef) and isinstance(node.body[-1], ast.Return):
        return node.args.args[0].arg, node.body[-1].value
    return None


def numeric_key(prog, p, key):
    """Does this key order files by an integer taken from their name?  True/False/None"""
    import ast
    if key is None or key is NONE:
        return False
    b = closure_body(prog, p, key)
    if b is None:
        return None
    e = b[1]
    src = ast.unparse(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "float"):
        return True
    if "int(" in src or "st_mtime" in src or "float(" in src:
        return None
    if isinstance(e, (ast.Attribute, ast.Name, ast.Subscript)) or isinstance(e, ast.Call) and (isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "strip") or isinstance(e.func, ast.Name) and e.func.id == "str"):
        return False
    return None


def latest(prog, rep, cls, me, n, counters):
    con, lcon = f"{n}.save_state", f"{n}.load_state"
    names = []
    data = [mk("param", names_of(cls, "save_state")[0])]
    for p in rets(paths(prog, rep, cls, "save_state")):
        f, line = loc(p)
        ws = [w for w in writes(p) if hits(w, data, p)]
        if not ws:
            if unknown_io(p):
                rep.unk("R24.latest", con, "write not tracked")
            else:
                rep.bad("R24.latest", con, "write", "reports success without writing the state", f, line)
            continue
        w = ws[-1]
        t = w.file[-1]
        for v in w.payload.values():
            if hits1(v, data[0], p) and faithful(v, data[0], p, True)[0] is False:
                rep.bad("R24.latest", con, "lossy", f"writes {show(v)[:80]} instead of the state", w.e[1].file, w.e[1].line)
        if t.op != "fmt":
            if fuzzy(t) or not is_const(t) and t is not PATH:
                rep.unk("R24.latest", con, "name of the checkpoint not tracked")
            continue
        vs = [x for x in t.a if not is_const(x)]
        cs = [grown(x, me) for x in vs]
        if not counters:
            rep.unk("R24.latest", con, "no counter identified")
        elif len(vs) == 1 and cs[0] and cs[0][0] in counters:
            rep.ok("R24.latest", con)
        elif any(c is None for c in cs) and any(fuzzy(x) or x.op not in ("init",) for x in vs):
            rep.unk("R24.latest", con, "name of the checkpoint not tracked")
        elif len(vs) == 1:
            rep.bad("R24.latest", con, "number", f"numbers the checkpoint with {show(vs[0])}, which does not grow with every operation", w.e[1].file, w.e[1].line)
        names.append(("".join(str(cval(x)) if is_const(x) else "7" for x in t.a), w.file[:-1], t))
    for p in rets(paths(prog, rep, cls, "load_state")):
        f, line = loc(p)
        v = strip_ver(p.val)
        if v is NONE:
            if any(a.op == "truthy" and not pol and contains(a, lambda x: x.op == "call" and x.a[0] in (".glob", "glob.glob", ".iterdir", "os.listdir")) for a, pol in p.facts.items()):
                rep.ok("R24.latest", lcon)
            elif any(fuzzy(a) or contains(a, lambda x: x.op in ("call", "len")) for a in p.facts) or any(e.kind == "callx" for e in p.events):
                rep.unk("R24.latest", lcon, "condition not tracked")
            else:
                rep.bad("R24.latest", lcon, "none", "answers nothing although a checkpoint may exist", f, line)
            continue
        src, key, lossy, ok = trail(v)
        if not ok:
            rep.unk("R24.latest", lcon, "answer not traced")
            continue
        if lossy is not None or key is not None:
            rep.bad("R24.latest", lcon, "part", f"answers {show(v)[:80]}, not the whole saved state", f, line)
            continue
        h = strip_ver(src.a[1][0])
        file = strip_ver(h.a[1][0]) if h.op == "call" and h.a[1] else None
        g = [x for x in walk(src) if x.op == "call" and x.a[0] in (".glob", "glob.glob")]
        if file is None or not g:
            rep.unk("R24.latest", lcon, "choice of the checkpoint not tracked")
            continue
        for pat in g[0].a[1][1:]:
            if is_const(pat) and names:
                for nm, d, t in names:
                    rep.check("R24.latest", lcon, fnmatch.fnmatchcase(nm, str(cval(pat))), "pattern", f"looks for {cval(pat)!r}, save_state writes {show(t)}", f, line)
        choose(prog, rep, lcon, p, file, f, line)


def choose(prog, rep, con, p, file, f, line):
    """The element picked from the directory listing is the one with the largest number."""
    key, rev, pick = None, False, None
    t = file
    if t.op == "call" and t.a[0] in ("max", "min"):
        key, pick = dict(t.a[2]).get("key"), -1 if t.a[0] == "max" else 0
        seq = t
    elif t.op == "item" and is_const(t.a[1]):
        pick = cval(t.a[1])
        seq = strip_ver(t.a[0])
        if seq.op == "call" and seq.a[0] == "sorted":
            key, rev = dict(seq.a[2]).get("key"), dict(seq.a[2]).get("reverse", FALSE) is TRUE
        else:
            c = p.st.heap.get(seq)
            srt = [e for e in p.events if e.kind == "mut" and e.a[1] is const("sort") and strip_ver(e.a[0]) is seq]
            if srt:
                kw = dict(srt[-1].a[3]) if len(srt[-1].a) > 3 else {}
                key, rev = kw.get("key"), kw.get("reverse", FALSE) is TRUE
            elif c is not None:
                rep.unk("R24.latest", con, "order not tracked")
                return
            else:
                rep.bad("R24.latest", con, "unordered", "takes an element of the unordered directory listing", f, line)
                return
    else:
        rep.unk("R24.latest", con, "choice not tracked")
        return
    num = numeric_key(prog, p, key)
    if num is None:
        rep.unk("R24.latest", con, "key not tracked")
    elif num is False:
        rep.bad("R24.latest", con, "key", "orders checkpoints by name, so number 9 counts as later than 10", f, line)
    elif pick not in (0, -1):
        rep.bad("R24.latest", con, "pick", f"takes element {pick} of the ordered checkpoints", f, line)
    else:
        rep.check("R24.latest", con, (pick == -1) != rev, "oldest", "takes the checkpoint with the smallest number", f, line)


CHECKS = {"C23": c23, "C24": c24}
