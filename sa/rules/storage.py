"""Storage backends: record integrity, unknown ids, disk naming, hybrid coherence and bound, locking, isolation of copies."""
from ..alias import Aliases, ann_kind
from ..common import *
from ..common import AnalysisError, ClassInfo, Interp, walk
from ..terms import const, contains

ID = mk("param", "id")
VEC = mk("param", "vector")
META = mk("param", "metadata")
LIMIT = mk("param", "limit")


def has(t, x):
    return contains(t, lambda y: y is x)


def rets(ps):
    return [p for p in ps or [] if p.kind == "return"]


def fact(p, op, pred):
    """Polarity of the last fact with this head whose first argument satisfies pred (None when absent)."""
    r = None
    for a, v in p.facts.items():
        if a.op == op and pred(a):
            r = v
    return r


def meta_none(p, x=META):
    v = fact(p, "isnone", lambda a: strip_ver(a.a[0]) is x)
    return v


def removed(p, F, k):
    """Key k is absent from container F (a reference term) at the end of the path."""
    F = strip_ver(F)
    state = None
    for e in p.events:
        if e.kind == "setitem" and strip_ver(e.a[0]) is F and e.a[1] is k:
            state = False
        elif e.kind == "delitem" and strip_ver(e.a[0]) is F and e.a[1] is k:
            state = True
        elif e.kind == "popmiss" and strip_ver(e.a[0]) is F and e.a[1] is k:
            state = True
        elif e.kind == "mut" and strip_ver(e.a[0]) is F and e.a[1] is const("clear"):
            state = True
        elif e.kind == "mut" and strip_ver(e.a[0]) is F and e.a[1] is const("remove") and e.a[2] and e.a[2][0] is k:
            state = True
    if state is not None:
        return state
    return fact(p, "in", lambda a: a.a[0] is k and strip_ver(a.a[1]) is F) is False


def put(p, me, k, pred):
    """(field ref, value) pairs of setitem events self.F[k] = value with pred(value)."""
    return [(strip_ver(e.a[0]), e.a[2], e) for e in p.events if e.kind == "setitem" and e.a[1] is k and is_self_rooted(e.a[0], me) and pred(e.a[2])]


# ------------------------------------------------------------------ C09 / C10 memory
def memory_fields(prog, rep, cls):
    """(vector container, metadata container) of an in-memory store, found from what store_vector writes under the id."""
    me = self_of(cls)
    V, M = set(), set()
    for p in rets(paths(prog, rep, cls, "store_vector")):
        for F, v, e in put(p, me, ID, lambda v: has(v, VEC)):
            V.add(F)
        for F, v, e in put(p, me, ID, lambda v: has(v, META)):
            M.add(F)
    return V, M


# operations that hand on an array / dictionary / list with the same content
SAME_CALLS = {".copy", "copy.copy", "copy.deepcopy", "dict", "numpy.copy", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.asarray", "numpy.array",
              "collections.OrderedDict", "numpy.require", "numpy.asfortranarray"}
CHANGE_CALLS = {".astype", ".round", "numpy.round", "numpy.around", "numpy.rint", "numpy.clip", ".clip", "numpy.abs", "numpy.float32", "numpy.float16", "numpy.float64",
                "numpy.nan_to_num", "numpy.flip", "numpy.sort", "sorted", ".flatten", ".ravel", "numpy.ravel", ".reshape", "numpy.reshape", "numpy.squeeze", ".squeeze",
                "numpy.atleast_2d", "numpy.atleast_1d", "numpy.transpose", ".transpose", "numpy.zeros_like", "numpy.ones_like", "numpy.resize", "numpy.trunc", "numpy.negative",
                ".tolist", "str", "repr", "json.dumps", "list", "set", "numpy.unique", "numpy.expand_dims", "numpy.floor", "numpy.ceil", "numpy.empty_like"}


def exact(t, is_src, p, depth=0):
    """The value's content is the source's content: True, False (provably another), None (not understood)."""
    t = strip_ver(t)
    if depth > 8:
        return None
    if is_src(t):
        return True
    if t.op == "call" and t.a[1]:
        n, a, kw = t.a[0], t.a[1], dict(t.a[2])
        inner = exact(a[0], is_src, p, depth + 1)
        if n in SAME_CALLS:
            if inner is not True or n in ("dict",) and not kw:
                return inner if len(a) == 1 or n.startswith("numpy.") else None
            dt = kw.get("dtype", a[1] if n.startswith("numpy.") and len(a) > 1 else None)
            if dt is not None and strip_ver(dt) is not NONE:
                return same_dtype(dt, a[0])
            return None if n in ("dict", "collections.OrderedDict") and (kw or len(a) > 1) else True
        if inner is True and n == ".astype" and len(a) > 1 and same_dtype(a[1], a[0]):
            return True
        if n in CHANGE_CALLS and inner is not None:
            return False
        return None
    if t.op in ("bin", "un"):
        parts = [exact(x, is_src, p, depth + 1) for x in t.a[1:] if hasattr(x, "op")]
        return False if any(x is not None and x is not False for x in parts) else None
    if t.op == "slice":
        inner = exact(t.a[0], is_src, p, depth + 1)
        full = all(x is NONE or not hasattr(x, "op") for x in t.a[1:])
        return inner if full else False if inner is True else None
    if t.op in ("attr",) and t.a[1] in ("T", "flat", "real", "imag"):
        return False if exact(t.a[0], is_src, p, depth + 1) is True else None
    if t.op == "alloc":
        c = p.st.heap.get(t)
        if c is not None and c.kind == "dict" and c.src is not None and hasattr(c.src, "op") and exact(c.src, is_src, p, depth + 1) is True:
            own = [e for e in c.entries if e.tag not in ("prev", "rest")]
            return False if any(e.tag == "one" for e in own) else True if not own else None
        if c is not None and c.kind == "dict" and c.src is None:
            parts = [(e, exact(e.val, is_src, p, depth + 1) if e.tag == "rest" else None) for e in c.entries if e.tag != "prev"]
            if not any(r is True for _, r in parts):
                return None
            rest = [e for e, r in parts if r is not True and not (e.tag == "rest" and strip_ver(e.val).op == "alloc" and strip_ver(e.val) in p.st.heap and not p.st.heap[strip_ver(e.val)].entries and p.st.heap[strip_ver(e.val)].src is None)]
            if not rest:
                return True
            return False if any(e.tag == "one" or strip_ver(e.val).op in ("item", "get", "init") for e in rest) else None
        return None
    return None


def same_dtype(dt, x):
    dt = strip_ver(dt)
    if dt.op == "attr" and dt.a[1] == "dtype" and strip_ver(dt.a[0]) is strip_ver(x):
        return True
    return False if dt.op == "glob" or is_const(dt) else None


def verdict(rep, rule, con, r, key, text, f, ln):
    if r is None:
        rep.unk(rule, con, f"{key}: content not tracked")
    else:
        rep.check(rule, con, r, key, text, f, ln)


def c09(prog, rep):
    """On every normal exit of store/update/delete of each backend the vector record and its metadata record are both replaced
    (metadata removed when none was given) or both removed; retrieve returns the two records of the same id."""
    rep.rule("R9.store", "a successful store/update writes the given vector and the given metadata (or removes the old metadata) under the id", 4)
    rep.rule("R9.delete", "a successful delete removes the vector and its metadata", 2)
    rep.rule("R9.retrieve", "retrieve returns vector and metadata recorded under the id", 2)
    rep.rule("R9.exact", "the content written and read back is the given content: no conversion, arithmetic, slice or added key", 6)
    rep.rule("R9.clear", "vectors and metadata of a store are emptied together", 1)
    for lay, err, ops, cls in components(prog, ("storage",)):
        if cname(cls) == "MemoryStorage":
            memory_records(prog, rep, cls)
            cleared_together(prog, rep, cls)
        elif cname(cls) == "DiskStorage":
            disk_records(prog, rep, cls)


def memory_records(prog, rep, cls):
    me = self_of(cls)
    V, M = memory_fields(prog, rep, cls)
    n = cname(cls)
    for op in ("store_vector", "update_vector"):
        con = f"{n}.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            if p.val is not TRUE:
                if p.val is not FALSE and p.val.op != "const":
                    rep.unk("R9.store", con, "return value not literal")
                continue
            f, ln = loc(p)
            w = put(p, me, ID, lambda v: has(v, VEC))
            rep.check("R9.store", con, bool(w) and all(F in V for F, _, _ in w), "vector", "reports success without storing the given vector under the id", f, ln)
            for F, v, e in w:
                verdict(rep, "R9.exact", con, exact(v, lambda x: x is VEC, p), "vector", f"keeps {show(v)[:60]} instead of the given vector", e.file, e.line)
                if any(x.kind in ("delitem",) and strip_ver(x.a[0]) is F and x.a[1] is ID for x in p.events[list(p.events).index(e):]):
                    rep.bad("R9.store", con, "vector-dropped", "the stored vector is removed again", f, ln)
            mn = meta_none(p)
            if mn is True:
                for F in M - V:
                    last = [v for G, v, _ in put(p, me, ID, lambda v: True) if G is F]
                    okm = removed(p, F, ID) or (last and last[-1] is NONE)
                    rep.check("R9.store", con, okm, "stale-metadata", "stored without metadata, but metadata of an earlier vector with this id can survive", f, ln)
                for F, v, _ in put(p, me, ID, lambda v: True):
                    if F in M and F not in V and v is not NONE:
                        rep.bad("R9.store", con, "invented-metadata", "stored without metadata, but a metadata record is written", f, ln)
            else:
                wm = [(v, e) for F, v, e in put(p, me, ID, lambda v: has(v, META)) if F in M]
                wm = wm or [(v, e) for F, v, e in put(p, me, ID, lambda v: True) if F in M and F not in V]
                rep.check("R9.store", con, bool(wm) and any(carries(v, p) for v, _ in wm), "metadata", "metadata was given but is not stored", f, ln)
                for v, e in wm:
                    verdict(rep, "R9.exact", con, exact(v, lambda x: x is META, p), "metadata", f"keeps {show(v)[:60]} instead of the given metadata", e.file, e.line)
    con = f"{n}.delete_vector"
    for p in rets(paths(prog, rep, cls, "delete_vector")):
        if p.val is TRUE:
            for F in V | M:
                rep.check("R9.delete", con, removed(p, F, ID), F.a[1], f"reports the vector deleted but {F.a[1]} can still hold its record", *loc(p))
    con = f"{n}.retrieve_vector"
    for p in rets(paths(prog, rep, cls, "retrieve_vector")):
        if p.val is NONE:
            continue
        if p.val.op != "tuple" or len(p.val.a) != 2:
            rep.unk("R9.retrieve", con, "result is not a pair")
            continue
        v, m = p.val.a
        okv = contains(v, lambda x: x.op in ("item", "get") and strip_ver(x.a[0]) in V and x.a[1] is ID)
        okm = contains(m, lambda x: x.op in ("item", "get") and strip_ver(x.a[0]) in M and x.a[1] is ID)
        if m is NONE:
            okm = any(fact(p, "in", lambda a: a.a[0] is ID and strip_ver(a.a[1]) is F) is False for F in M) or \
                fact(p, "isnone", lambda a: contains(a, lambda x: x.op in ("item", "get") and strip_ver(x.a[0]) in M and x.a[1] is ID)) is True
        rep.check("R9.retrieve", con, okv, "vector", "does not return the vector recorded under the id", *loc(p))
        rep.check("R9.retrieve", con, okm, "metadata", "does not return the metadata recorded under the id", *loc(p))
        rec = lambda S: lambda x: x.op in ("item", "get") and strip_ver(x.a[0]) in S and x.a[1] is ID
        if okv:
            verdict(rep, "R9.exact", con, exact(v, rec(V), p), "vector", f"answers {show(v)[:60]} instead of the stored vector", *loc(p))
        if okm and m is not NONE:
            verdict(rep, "R9.exact", con, exact(m, rec(M), p), "metadata", f"answers {show(m)[:60]} instead of the stored metadata", *loc(p))


def carries(v, p):
    """The value is made from the given metadata."""
    if has(v, META):
        return True
    c = p.st.heap.get(strip_ver(v))
    return c is not None and (c.src is not None and hasattr(c.src, "op") and has(c.src, META) or any(e.val is not None and has(e.val, META) for e in c.entries))


def emptied(p, F, me):
    for e in reversed(list(p.events)):
        if e.kind == "mut" and strip_ver(e.a[0]) is F and e.a[1] is const("clear"):
            return e
        if e.kind == "setfield" and e.a[0] is me and cval(e.a[1]) == F.a[1]:
            v = strip_ver(e.a[2])
            c = p.st.heap.get(v)
            return e if v.op == "alloc" and c is not None and not c.entries and c.src is None else None
    return None


def cleared_together(prog, rep, cls):
    """Every method that empties the vector records empties the metadata records as well, and the other way round."""
    me = self_of(cls)
    V, M = memory_fields(prog, rep, cls)
    rep.ok("R9.clear", cname(cls))
    if V == M:
        return
    for nm in sorted(cls.methods):
        if nm.startswith("__"):
            continue
        con = f"{cname(cls)}.{nm}"
        for p in rets(paths(prog, rep, cls, nm)):
            ev = {F: emptied(p, F, me) for F in V | M}
            if any(ev.values()):
                miss = [F.a[1] for F in sorted(ev, key=lambda t: t.uid) if ev[F] is None]
                e = [x for x in ev.values() if x][0]
                rep.check("R9.clear", con, not miss, ",".join(miss), f"empties the store but {', '.join(miss)} keeps its records, which then belong to vectors stored later", e.file, e.line)


# ------------------------------------------------------------------ disk
def path_arg(t):
    """The path term denoted by a path / open file term."""
    t = strip_ver(t)
    while t.op == "call" and t.a[0] in ("open", "io.open", ".open", "str", "os.fspath", "pathlib.Path", ".resolve", ".absolute") and t.a[1]:
        t = strip_ver(t.a[1][0])
    return t


WRITE_TO = {"numpy.save": (0, 1), "pickle.dump": (1, 0), "json.dump": (1, 0), ".write_bytes": (0, 1), ".write_text": (0, 1), ".write": (0, 1)}
READ_FROM = {"numpy.load": 0, "pickle.load": 0, "json.load": 0, ".read_bytes": 0, ".read_text": 0, ".read": 0}
REMOVE = {".unlink": 0, "os.remove": 0, "os.unlink": 0}
MOVE = {"os.replace": (0, 1), "os.rename": (0, 1), ".replace": (0, 1), ".rename": (0, 1), "shutil.move": (0, 1)}
PROBE = {".exists": 0, ".is_file": 0, ".stat": 0, "os.path.exists": 0, "os.path.isfile": 0}


def disk_writes(p):
    """path -> (content term, event) of the last write on the path."""
    out = {}
    for e in p.events:
        if e.kind != "call":
            continue
        n, a = e.a[0].a[0], e.a[2]
        if n in WRITE_TO and len(a) > max(WRITE_TO[n]):
            i, j = WRITE_TO[n]
            out[norm(path_arg(a[i]))] = (a[j], e)
        elif n in MOVE and len(a) > 1:
            s, d = norm(path_arg(a[0])), norm(path_arg(a[1]))
            if s in out:
                out[d] = (out.pop(s)[0], e)
        elif n in REMOVE and a:
            out.pop(norm(path_arg(a[0])), None)
    return out


def disk_removed(p, path):
    """The file is gone at the end of the path: unlinked, or known not to exist."""
    gone = None
    for e in p.events:
        if e.kind == "call" and e.a[0].a[0] in REMOVE and e.a[2] and norm(path_arg(e.a[2][0])) is path:
            gone = True
        if e.kind == "call" and e.a[0].a[0] in WRITE_TO and norm(path_arg(e.a[2][WRITE_TO[e.a[0].a[0]][0]])) is path:
            gone = False
        if e.kind == "handled":
            pass
    if gone is not None:
        return gone
    return any(v is False and a.op == "truthy" and a.a[0].op == "call" and a.a[0].a[0] in PROBE and norm(path_arg(a.a[0].a[1][0])) is path for a, v in p.facts.items())


def open_mode(h):
    """The mode of an opened file, '' when not literal."""
    if h.op == "call" and h.a[0] in ("open", "io.open", ".open"):
        m = dict(h.a[2]).get("mode", h.a[1][1] if len(h.a[1]) > 1 else const("r"))
        return cval(m) if is_const(m) and isinstance(cval(m), str) else ""
    return ""


def disk_paths(prog, rep, cls):
    """(vector path, metadata path) written by store_vector."""
    pv, pm = set(), set()
    for p in rets(paths(prog, rep, cls, "store_vector")):
        for path, (c, e) in disk_writes(p).items():
            if has(c, VEC):
                pv.add(path)
            if has(c, META):
                pm.add(path)
    return pv, pm


def disk_records(prog, rep, cls):
    n = cname(cls)
    pv, pm = disk_paths(prog, rep, cls)
    if len(pv) != 1 or len(pm) != 1:
        rep.unk("R9.store", f"{n}.store_vector", f"{len(pv)} vector paths, {len(pm)} metadata paths")
        if not pv:
            rep.bad("R9.store", f"{n}.store_vector", "vector", "the given vector is never written", cls.module.path, 0)
        if not pm:
            rep.bad("R9.store", f"{n}.store_vector", "metadata", "the given metadata is never written", cls.module.path, 0)
        if not pv or not pm:
            return
    V, M = sorted(pv, key=lambda t: t.uid), sorted(pm, key=lambda t: t.uid)
    for op in ("store_vector", "update_vector"):
        con = f"{n}.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            if p.val is FALSE:
                continue
            if p.val is not TRUE:
                rep.unk("R9.store", con, "return value not literal")
                continue
            w = disk_writes(p)
            f, ln = loc(p)
            rep.check("R9.store", con, any(x in w and has(w[x][0], VEC) for x in V), "vector", "reports success without writing the given vector to the id's file", f, ln)
            for x in V:
                if x in w and has(w[x][0], VEC):
                    verdict(rep, "R9.exact", con, exact(w[x][0], lambda t: t is VEC, p), "vector", f"writes {show(w[x][0])[:60]} instead of the given vector", f, ln)
            for x in M:
                if x in w and has(w[x][0], META):
                    verdict(rep, "R9.exact", con, exact(w[x][0], lambda t: t is META, p), "metadata", f"writes {show(w[x][0])[:60]} instead of the given metadata", f, ln)
            for e in p.events:
                if e.kind == "call" and e.a[0].a[0] in WRITE_TO and len(e.a[2]) > max(WRITE_TO[e.a[0].a[0]]):
                    h = strip_ver(e.a[2][WRITE_TO[e.a[0].a[0]][0]])
                    if norm(path_arg(h)) in pv | pm and open_mode(h).startswith("a") and not any(
                            x.kind == "call" and x.a[0].a[0] in REMOVE for x in p.events[:list(p.events).index(e)]):
                        rep.bad("R9.store", con, "append", "appends to the file, so that reading it finds what was written first", e.file, e.line)
            mn = meta_none(p)
            if mn is True:
                rep.check("R9.store", con, all(disk_removed(p, x) for x in M), "stale-metadata",
                          "stored without metadata, but the metadata file of an earlier vector can survive", f, ln)
            else:
                rep.check("R9.store", con, any(x in w and has(w[x][0], META) for x in M), "metadata", "metadata was given but is not written", f, ln)
    con = f"{n}.delete_vector"
    for p in rets(paths(prog, rep, cls, "delete_vector")):
        if p.val is TRUE or p.val.op != "const":
            for x, what in [(x, "vector") for x in V] + [(x, "metadata") for x in M]:
                rep.check("R9.delete", con, disk_removed(p, x), what, f"reports the vector deleted but its {what} file can survive", *loc(p))
    con = f"{n}.retrieve_vector"
    for p in rets(paths(prog, rep, cls, "retrieve_vector")):
        if p.val is NONE:
            continue
        if p.val.op != "tuple" or len(p.val.a) != 2:
            rep.unk("R9.retrieve", con, "result is not a pair")
            continue
        v, m = p.val.a
        rd = lambda t, P: contains(t, lambda x: x.op == "call" and x.a[0] in READ_FROM and x.a[1] and norm(path_arg(x.a[1][0])) in P)
        rep.check("R9.retrieve", con, rd(v, V), "vector", "does not return what the id's vector file holds", *loc(p))
        okm = rd(m, M) if m is not NONE else all(disk_removed(p, x) for x in M)
        rep.check("R9.retrieve", con, okm, "metadata", "does not return what the id's metadata file holds", *loc(p))
        rdf = lambda P: lambda x: x.op == "call" and x.a[0] in READ_FROM and x.a[1] and norm(path_arg(x.a[1][0])) in P
        if rd(v, V):
            verdict(rep, "R9.exact", con, exact(v, rdf(V), p), "vector", f"answers {show(v)[:60]} instead of the stored vector", *loc(p))
        if m is not NONE and rd(m, M):
            verdict(rep, "R9.exact", con, exact(m, rdf(M), p), "metadata", f"answers {show(m)[:60]} instead of the stored metadata", *loc(p))


LOSSY = {".replace", ".lower", ".upper", ".strip", ".lstrip", ".rstrip", ".casefold", ".title", ".capitalize", "os.path.basename", "re.sub",
         "os.path.normpath", ".split", ".rsplit", ".translate", "hash", "len", ".zfill", ".swapcase", "zlib.crc32", "os.path.normcase",
         "unicodedata.normalize", ".encode", "urllib.parse.unquote", "os.path.splitext", ".partition", ".rpartition"}
SAFE_OK = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.~ @+,=!#()[]{}^&$;'")


def encoder(t):
    """('ok'|'bad', reason, decoder names) when t is a call encoding the id into one file-name component."""
    if t.op != "call" or not t.a[1]:
        return None
    n, a, kw = t.a[0], t.a[1], dict(t.a[2])
    x = strip_ver(a[0])
    if x.op == "call" and x.a[0] == "str" and x.a[1] and x.a[1][0] is ID:
        x = ID
    if n in ("urllib.parse.quote", "urllib.parse.quote_plus") and x is ID:
        safe = kw.get("safe", a[1] if len(a) > 1 else const("/" if n.endswith("quote") else ""))
        if is_const(safe) and isinstance(cval(safe), (str, bytes)):
            s = cval(safe) if isinstance(cval(safe), str) else cval(safe).decode("latin1")
            if not set(s) <= SAFE_OK:
                return ("bad", f"keeps {sorted(set(s) - SAFE_OK)} unencoded", ())
            er = kw.get("errors", a[3] if len(a) > 3 else const("strict"))
            if is_const(er) and cval(er) in ("ignore", "replace"):
                return ("bad", "drops or merges characters that cannot be encoded", ())
            return ("ok", "", ("urllib.parse.unquote",) if n.endswith("quote") else ("urllib.parse.unquote_plus",))
        return None
    enc = lambda y: y.op == "call" and y.a[0] in (".encode", "bytes", "os.fsencode") and y.a[1] and y.a[1][0] is ID and not any(k == "errors" for k, _ in y.a[2]) and len(y.a[1]) < 3
    if n == ".hex" and enc(x):
        return ("ok", "", ("bytes.fromhex", ".fromhex", "binascii.unhexlify"))
    if n in ("base64.urlsafe_b64encode", "base64.b32encode", "base64.b16encode", "binascii.hexlify") and enc(x):
        return ("ok", "", ("base64.urlsafe_b64decode", "base64.b32decode", "base64.b16decode", "binascii.unhexlify"))
    if n in (".hexdigest",) and x.op == "call" and x.a[0] in ("hashlib.sha256", "hashlib.sha1", "hashlib.sha512", "hashlib.md5", "hashlib.blake2b", "hashlib.sha3_256") and x.a[1] and enc(strip_ver(x.a[1][0])):
        return ("ok", "", ())
    return None


def id_uses(t, chain=()):
    """Every occurrence of the id in a path term: (encoder verdict or None, enclosing call names)."""
    t = strip_ver(t)
    if t is ID:
        return [(None, chain)]
    e = encoder(t)
    if e is not None:
        return [(e, chain)]
    out = []
    if t.op == "call":
        for x in t.a[1]:
            out += id_uses(x, chain + (t.a[0],))
        for _, x in t.a[2]:
            out += id_uses(x, chain + (t.a[0],))
        return out
    if t.op == "comp":
        if has(t, ID):
            lossy = any(not (has(v, ID)) for _, v in t.a[2])
            return [(None, chain + (("comp-lossy" if lossy else "comp"),))]
        return []
    for x in t.a:
        if hasattr(x, "op"):
            out += id_uses(x, chain + ((t.op,) if t.op in ("slice", "item", "comp", "phi", "ifexp", "unk") else ()))
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, "op"):
                    out += id_uses(y, chain)
    return out


def c08(prog, rep):
    """Provenance of every file path used by the disk store: the id reaches it only through an encoder that is injective and yields one
    path component; all operations use the same two paths; list_vectors decodes with the matching decoder."""
    rep.rule("R8.path", "the id enters a file path only through an injective single-component encoding", 4)
    rep.rule("R8.agree", "retrieve, update and delete address the files store wrote", 6)
    rep.rule("R8.list", "listing decodes file names with the inverse of the encoding", 1)
    cls = prog.cls("DiskStorage")
    n = cname(cls)
    decs = set()
    known = True
    seen = {}
    for op in ("store_vector", "retrieve_vector", "delete_vector", "update_vector"):
        con = f"{n}.{op}"
        sites = 0
        for p in paths(prog, rep, cls, op):
            for e in p.events:
                if e.kind != "call":
                    continue
                nm, a = e.a[0].a[0], e.a[2]
                idx = WRITE_TO[nm][0] if nm in WRITE_TO else READ_FROM.get(nm, REMOVE.get(nm, PROBE.get(nm, 0 if nm in ("open", ".open") else None)))
                tgts = [a[idx]] if idx is not None and len(a) > idx else []
                if nm in MOVE and len(a) > 1:
                    tgts = [a[0], a[1]]
                for t in tgts:
                    t = norm(path_arg(t))
                    seen.setdefault(op, set()).add((t, "w" if nm in WRITE_TO else "r" if nm in READ_FROM else "d" if nm in REMOVE else "p"))
                    uses = id_uses(t)
                    for enc, chain in uses:
                        sites += 1
                        bad = [c for c in chain if c in LOSSY or c in ("slice", "comp-lossy", "item")]
                        if enc is not None and enc[0] == "bad":
                            rep.bad("R8.path", con, "encoder", f"the id's encoding {enc[1]}", e.file, e.line)
                        elif bad:
                            rep.bad("R8.path", con, "lossy", f"the id passes through {bad[0]} on its way into a file path, so two ids can share a file", e.file, e.line)
                        elif enc is None and not [c for c in chain if c not in (".joinpath", "pathlib.Path", "str", "os.path.join", ".join", "os.fspath", ".with_suffix", ".with_name", ".format")]:
                            rep.bad("R8.path", con, "raw", "the id enters a file path without encoding", e.file, e.line)
                        elif enc is None:
                            known = False
                            rep.unk("R8.path", con, f"unrecognised encoding through {chain}")
                        else:
                            decs |= set(enc[2])
                            rep.ok("R8.path", con)
                    if not uses and nm in WRITE_TO:
                        rep.bad("R8.path", con, "constant", "writes a file whose name does not depend on the id", e.file, e.line)
        if not sites:
            rep.unk("R8.path", con, "no file access found")
    pv, pm = disk_paths(prog, rep, cls)
    for op, want in (("retrieve_vector", "r"), ("update_vector", "w"), ("delete_vector", "d")):
        got = {t for t, k in seen.get(op, ()) if k == want}
        for nm, P in (("vector", pv), ("metadata", pm)):
            con = f"{n}.{op}:{nm}"
            if not P:
                rep.unk("R8.agree", con, "store path unknown")
            else:
                rep.check("R8.agree", con, bool(P & got), "path", f"does not address the {nm} file that store_vector writes", cls.module.path, cls.find(op).node.lineno)
                if got - pv - pm:
                    rep.bad("R8.agree", con, "other", f"addresses a file store_vector never writes: {show(sorted(got - pv - pm, key=lambda t: t.uid)[0])[:120]}", cls.module.path, cls.find(op).node.lineno)
    con = f"{n}.list_vectors"
    for p in rets(paths(prog, rep, cls, "list_vectors")):
        els = elements(p.val, p)
        if els is None:
            rep.unk("R8.list", con, "result not tracked")
            continue
        for v in els:
            stem = contains(v, lambda x: (x.op == "attr" and x.a[1] in ("stem", "name")) or (x.op == "call" and x.a[0] in ("os.path.splitext", "os.path.basename", "os.listdir")))
            dec = contains(v, lambda x: x.op == "call" and x.a[0] in decs)
            for g in [x for x in walk(v) if x.op == "call" and x.a[0] in (".glob", ".rglob") and len(x.a[1]) > 1]:
                pat = cval(g.a[1][1]) if is_const(g.a[1][1]) else None
                if isinstance(pat, str):
                    good = pat.lstrip("*").count("*") == 0 and pat.startswith("*") and not set(pat[1:]) & set("?[") and any(is_const(x) and isinstance(cval(x), str) and cval(x).endswith(pat.lstrip("*")) for P in pv for x in walk(P))
                    rep.check("R8.list", con, good or pat == "*", "pattern", f"lists files matching {pat!r}, not all vector files", *loc(p))
            if dec:
                bad = name_lossy(v, decs)
                if bad is None:
                    rep.unk("R8.list", con, "file name handling not recognised")
                else:
                    rep.check("R8.list", con, not bad, "name", f"{bad} cuts or changes ids on their way from the file name", *loc(p))
            elif decs and stem and not contains(v, lambda x: x.op == "call" and x.a[0] not in ("os.path.splitext", "os.path.basename", "str", ".glob", ".iterdir", "os.listdir", ".rglob", "sorted", "list")):
                rep.bad("R8.list", con, "decode", "returns file names without undoing the encoding of ids", *loc(p))
            else:
                rep.unk("R8.list", con, "decoding not recognised")


def name_lossy(v, decs):
    """'' when the listed id is the decoded file name without its suffix, the offending operation, or None when not understood."""
    t = strip_ver(v)
    while t.op == "call" and t.a[0] in ("str",) and t.a[1]:
        t = strip_ver(t.a[1][0])
    if t.op == "call" and t.a[0] in decs and t.a[1]:
        t = strip_ver(t.a[1][0])
    elif t.op == "call":
        return t.a[0] if t.a[0] in LOSSY else None
    elif t.op == "slice":
        return "a slice"
    else:
        return None
    for _ in range(6):
        t = strip_ver(t)
        if t.op == "call" and t.a[0] == "str" and t.a[1]:
            t = t.a[1][0]
        elif t.op == "attr" and t.a[1] == "stem":
            return ""
        elif t.op == "slice":
            hi = t.a[2]
            if is_const(hi) and hi.op == "const" and cval(hi) == -4 or not is_const(hi):
                t = t.a[0]
            else:
                return "a slice"
        elif t.op == "call" and t.a[0] == ".removesuffix":
            t = t.a[1][0]
        elif t.op == "item" and strip_ver(t.a[0]).op == "call":
            c = strip_ver(t.a[0])
            i = cval(t.a[1]) if is_const(t.a[1]) else None
            if c.a[0] == "os.path.splitext" and i == 0:
                t = c.a[1][0]
            elif c.a[0] in (".rsplit", ".rpartition") and i == 0 and (c.a[0] == ".rpartition" or len(c.a[1]) > 2 and is_const(c.a[1][2]) and cval(c.a[1][2]) == 1):
                t = c.a[1][0]
            elif c.a[0] in (".split", ".partition", ".rsplit"):
                return f"{c.a[0]}(..)[{i}]"
            else:
                return None
        elif t.op == "attr" and t.a[1] == "name" or t.op == "call" and t.a[0] in ("os.path.basename",):
            return ""
        elif t.op == "call":
            return t.a[0] if t.a[0] in LOSSY else None
        elif t.op in ("elem", "iterelem", "anyelem", "item"):
            return ""
        else:
            return None
    return None


def elements(v, p, depth=0):
    """Element terms of a returned sequence (None when unknown)."""
    v = strip_ver(v)
    if depth > 5:
        return None
    if v.op == "slice":
        return elements(v.a[0], p, depth + 1)
    if v.op == "comp":
        return [x for _, x in v.a[2]]
    if v.op == "alloc":
        c = p.st.heap.get(v)
        if c is None:
            return None
        out = []
        for e in c.entries:
            if e.tag == "prev":
                continue
            if e.tag == "rest":
                s = elements(e.val, p, depth + 1)
                if s is None:
                    return None
                out += s
            else:
                out.append(e.val)
        if c.src is not None and hasattr(c.src, "op"):
            s = elements(c.src, p, depth + 1)
            if s is None:
                return None
            out += s
        return out
    if v.op == "call" and v.a[0] in ("list", "sorted", "tuple", "reversed", "set") and v.a[1]:
        return elements(v.a[1][0], p, depth + 1)
    return None


# ------------------------------------------------------------------ C10 unknown ids
def c10(prog, rep):
    """On every path on which the id is known to be absent, retrieve returns None and delete/update return False without any write;
    the hybrid store and the indices report exactly what the tiers / the storage report; positional indices check both bounds."""
    rep.rule("R10.store", "retrieve/delete/update of an id the backend does not hold answer None/False and write nothing", 6)
    rep.rule("R10.index", "index delete/update of an unknown id never report success and change nothing", 8)
    cls = prog.cls("MemoryStorage")
    V, M = memory_fields(prog, rep, cls)
    for op, ans in (("retrieve_vector", NONE), ("delete_vector", FALSE), ("update_vector", FALSE)):
        con = f"MemoryStorage.{op}"
        hit = False
        for p in rets(paths(prog, rep, cls, op)):
            absent = any(a.op == "in" and v is False and a.a[0] is ID and strip_ver(a.a[1]) in V and a.a[1].op != "at" for a, v in p.facts.items()) or \
                any(a.op == "isnone" and v and a.a[0].op == "get" and strip_ver(a.a[0].a[0]) in V and a.a[0].a[1] is ID for a, v in p.facts.items()) or \
                any(e.kind == "popmiss" and strip_ver(e.a[0]) in V and e.a[1] is ID for e in p.events)
            present = any(a.op == "in" and v is True and a.a[0] is ID and strip_ver(a.a[1]) in V and a.a[1].op != "at" for a, v in p.facts.items()) or \
                any(a.op == "isnone" and v is False and a.a[0].op == "get" and strip_ver(a.a[0].a[0]) in V for a, v in p.facts.items()) or \
                any(e.kind == "delitem" and strip_ver(e.a[0]) in V for e in p.events)
            if absent:
                hit = True
                rep.check("R10.store", con, p.val is ans, "answer", f"answers {show(p.val)} for an unknown id", *loc(p))
                ef = [e for e in effects(p) if e.kind != "setfield" or not benign_counter(e)]
                ef = [e for e in ef if not (op == "delete_vector" and e.kind == "delitem")]
                rep.check("R10.store", con, not ef, "effect", f"changes the store for an unknown id ({ev_name(ef[0]) if ef else ''})", *loc(p))
            elif not present and p.val is not ans and not id_empty(p):
                rep.bad("R10.store", con, "unchecked", "succeeds without having checked that the id is stored", *loc(p))
            elif present and op != "retrieve_vector":
                rep.check("R10.store", con, p.val is TRUE, "present", f"answers {show(p.val)} although the id is stored", *loc(p))
            elif present:
                rep.check("R10.store", con, p.val is not NONE, "present", "answers None although the id is stored", *loc(p))
        if not hit:
            rep.unk("R10.store", con, "no path for an unknown id")
    disk_unknown(prog, rep)
    hybrid_unknown(prog, rep)
    index_unknown(prog, rep)


def benign_counter(e):
    """Recomputing a statistic from the unchanged containers."""
    return not any(has(e.a[2], x) for x in (ID, VEC, META))


def disk_unknown(prog, rep):
    cls = prog.cls("DiskStorage")
    pv, pm = disk_paths(prog, rep, cls)
    for op, ans in (("retrieve_vector", NONE), ("delete_vector", FALSE), ("update_vector", FALSE)):
        con = f"DiskStorage.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            ex = [v for a, v in p.facts.items() if a.op == "truthy" and a.a[0].op == "call" and a.a[0].a[0] in PROBE and norm(path_arg(a.a[0].a[1][0])) in pv]
            if ex and ex[0] is False:
                rep.check("R10.store", con, p.val is ans, "answer", f"answers {show(p.val)} for an unknown id", *loc(p))
                w = disk_writes(p)
                rep.check("R10.store", con, not w, "effect", "writes a file for an unknown id", *loc(p))
            elif ex:
                good = p.val is TRUE if op != "retrieve_vector" else p.val is not NONE
                rep.check("R10.store", con, good, "present", f"answers {show(p.val)} although the id is stored", *loc(p))
            elif p.val is not ans:
                if any(e.kind == "handled" for e in p.events):
                    rep.unk("R10.store", con, "existence decided by exception")
                else:
                    rep.bad("R10.store", con, "unchecked", "succeeds without having checked that the id is stored", *loc(p))


TIER = lambda me, f: mk("init", me, f)


def tier_calls(p, tier, name=None):
    return [e for e in p.events if e.kind == "call" and e.a[0].a[0].startswith(".") and e.a[2] and strip_ver(e.a[2][0]) is tier and (name is None or e.a[0].a[0] == "." + name)]


def bool_rel(v, p, terms):
    """Truth of value v on path p as a set of possible values given facts."""
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    r = fact(p, "truthy", lambda a: a.a[0] is v)
    return r


def hybrid_unknown(prog, rep):
    cls = prog.cls("HybridStorage")
    me = self_of(cls)
    D, Mm = TIER(me, "disk_storage"), TIER(me, "memory_storage")
    for op in ("delete_vector", "update_vector"):
        con = f"HybridStorage.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            dc = [e.a[1] for e in tier_calls(p, D, op)]
            mc = [e.a[1] for e in tier_calls(p, Mm, op)]
            if not dc:
                rep.bad("R10.store", con, "disk", "does not ask the disk tier", *loc(p))
                continue
            v = p.val
            dt = fact(p, "truthy", lambda a: a.a[0] in dc)
            mt = fact(p, "truthy", lambda a: a.a[0] in mc)
            if v in dc:
                rep.ok("R10.store", con)
            elif v is TRUE:
                rep.check("R10.store", con, dt is True or (op == "delete_vector" and mt is True), "answer", "reports success although no tier held the id", *loc(p))
            elif v is FALSE:
                rep.check("R10.store", con, dt is False, "answer", "reports failure although the disk tier held the id", *loc(p))
            elif op == "delete_vector" and v in mc:
                rep.check("R10.store", con, mt is True or dt is False, "answer", "reports the memory tier's answer although the disk tier held the id", *loc(p))
            elif v.op in ("or", "phi", "bin", "call") and any(has(v, d) for d in dc):
                rep.unk("R10.store", con, "combined answer")
            else:
                rep.bad("R10.store", con, "answer", f"answers {show(v)[:80]} whatever the tiers answered", *loc(p))
    con = "HybridStorage.retrieve_vector"
    for p in rets(paths(prog, rep, cls, "retrieve_vector")):
        calls = [e.a[1] for t in (Mm, D) for e in tier_calls(p, t, "retrieve_vector")]
        dcalls = [e.a[1] for e in tier_calls(p, D, "retrieve_vector")]
        v = p.val
        if v is NONE:
            rep.check("R10.store", con, bool(dcalls) and fact(p, "isnone", lambda a: a.a[0] in dcalls) is True, "answer",
                      "answers None without the disk tier having answered None", *loc(p))
        else:
            rep.check("R10.store", con, v in calls or any(has(v, c) for c in calls) or (v.op == "tuple"), "answer", "does not answer with a tier's record", *loc(p))


def id_terms(p, op):
    return None


def index_unknown(prog, rep):
    from .index import unknown_index
    unknown_index(prog, rep)


# ------------------------------------------------------------------ C11 hybrid coherence / C12 bound
def c11(prog, rep):
    """Hybrid operations interpreted with both tiers opaque: every change reaches the disk tier first, with the same arguments, and the
    memory tier only after the disk tier succeeded; deletes reach both tiers; promoted records come from the disk record of that id."""
    rep.rule("R11.store", "store: disk first; memory only after the disk accepted, with the same id, vector and metadata", 1)
    rep.rule("R11.update", "update: disk first; a memory copy is updated with the same arguments or dropped", 1)
    rep.rule("R11.delete", "delete: both tiers are asked to drop the id", 1)
    rep.rule("R11.retrieve", "retrieve: memory then disk; what is promoted is the disk record of the id", 1)
    rep.rule("R11.list", "list: the disk tier's list with the caller's limit", 1)
    rep.rule("R11.evict", "only an evicted id read from the memory tier's own list is dropped from memory alone", 2)
    cls = prog.cls("HybridStorage")
    me = self_of(cls)
    D, M = TIER(me, "disk_storage"), TIER(me, "memory_storage")
    same = lambda e, *want: args_of(e, ("id", "vector", "metadata")) == list(want)
    for op, rule in (("store_vector", "R11.store"), ("update_vector", "R11.update")):
        con = f"HybridStorage.{op}"
        for p in rets(paths(prog, rep, cls, op)):
            if id_empty(p) and p.val is FALSE and not effects(p):
                continue
            f, ln = loc(p)
            dc = tier_calls(p, D, op)
            if not dc:
                rep.bad(rule, con, "disk", "completes without writing to the disk tier", f, ln)
                continue
            rep.check(rule, con, all(same(e, ID, VEC, META) for e in dc), "args", "the disk tier is not given the caller's id, vector and metadata", f, ln)
            okd = [e.a[1] for e in dc]
            dt = fact(p, "truthy", lambda a: a.a[0] in okd)
            mw = [e for e in tier_calls(p, M) if e.a[0].a[0] in (".store_vector", ".update_vector")]
            md = [e for e in tier_calls(p, M, "delete_vector") if args_of(e, ("id",)) == [ID]]
            for e in mw:
                rep.check(rule, con, list(p.events).index(e) > list(p.events).index(dc[0]), "order", "the memory tier is written before the disk tier", f, ln)
                rep.check(rule, con, args_of(e, ("id", "vector", "metadata")) == [ID, VEC, META], "memory-args", "the memory tier is not given the caller's id, vector and metadata", f, ln)
                rep.check(rule, con, e.facts.get(mk("truthy", okd[0])) is True or dt is True, "unconfirmed", "the memory tier is written although the disk tier may have refused", f, ln)
            if dt is not False and p.val is not FALSE:
                lim0 = limit_zero(p, me)
                rep.check(rule, con, bool(mw) or bool(md) or lim0 or (op == "store_vector" and False), "memory",
                          "the disk record changes while a memory copy of the id may keep the old content", f, ln)
    con = "HybridStorage.delete_vector"
    for p in rets(paths(prog, rep, cls, "delete_vector")):
        for t, nm in ((M, "memory"), (D, "disk")):
            cs = [e for e in tier_calls(p, t, "delete_vector") if args_of(e, ("id",)) == [ID]]
            rep.check("R11.delete", con, bool(cs), nm, f"completes without asking the {nm} tier to drop the id", *loc(p))
    con = "HybridStorage.retrieve_vector"
    for p in rets(paths(prog, rep, cls, "retrieve_vector")):
        f, ln = loc(p)
        for t in (M, D):
            for e in tier_calls(p, t, "retrieve_vector"):
                rep.check("R11.retrieve", con, args_of(e, ("id",)) == [ID], "args", "asks a tier for another id", e.file, e.line)
        drec = [e.a[1] for e in tier_calls(p, D, "retrieve_vector")]
        for e in [e for e in tier_calls(p, M) if e.a[0].a[0] in (".store_vector", ".update_vector")]:
            a = args_of(e, ("id", "vector", "metadata"))
            good = len(a) == 3 and a[0] is ID and any(a[1] is mk("item", d, const(0)) and a[2] is mk("item", d, const(1)) for d in drec)
            rep.check("R11.retrieve", con, good, "promote", "what is promoted to memory is not the disk record of the requested id", e.file, e.line)
    con = "HybridStorage.list_vectors"
    for p in rets(paths(prog, rep, cls, "list_vectors")):
        cs = tier_calls(p, D, "list_vectors")
        rep.check("R11.list", con, bool(cs), "disk", "does not list the disk tier", *loc(p))
    for op in ("store_vector", "retrieve_vector"):
        con = f"HybridStorage.{op}"
        okk = True
        for p in paths(prog, rep, cls, op):
            for e in tier_calls(p, D, "delete_vector"):
                okk = False
                rep.bad("R11.evict", con, "disk", "drops a record from the disk tier", e.file, e.line)
            for e in tier_calls(p, M, "delete_vector"):
                a = args_of(e, ("id",))
                r = base_root(a[0]) if a else None
                if not (r is not None and r.op == "call" and r.a[0] == ".list_vectors") and a != [ID]:
                    if r is not None and (r.op in ("call", "init", "key", "comp")):
                        rep.unk("R11.evict", con, "evicted id of unknown origin")
                    else:
                        okk = False
                        rep.bad("R11.evict", con, "id", "evicts something other than an id the memory tier lists", e.file, e.line)
        if okk:
            rep.ok("R11.evict", con)


def limit_zero(p, me):
    """The path is taken only when the memory limit admits nothing (limit <= 0)."""
    L = mk("init", me, "memory_limit")
    for a, v in p.facts.items():
        if a.op == "lt" and is_const(a.a[0]) and cval(a.a[0]) == 0 and strip_ver(a.a[1]) is L and v is False:
            return True
        if a.op == "truthy" and strip_ver(a.a[0]) is L and v is False:
            return True
        if a.op == "lt" and strip_ver(a.a[0]) is L and is_const(a.a[1]) and cval(a.a[1]) == 1 and v is True:
            return True
        if a.op == "eq" and v is True and L in [strip_ver(x) for x in a.a] and any(is_const(x) and cval(x) == 0 for x in a.a):
            return True
    return False


def limit_pos(p_facts, me):
    L = mk("init", me, "memory_limit")
    for a, v in p_facts.items():
        if a.op == "lt" and is_const(a.a[0]) and isinstance(cval(a.a[0]), (int, float)) and cval(a.a[0]) >= 0 and strip_ver(a.a[1]) is L and v is True:
            return True
        if a.op == "lt" and strip_ver(a.a[0]) is L and is_const(a.a[1]) and cval(a.a[1]) == 1 and v is False:
            return True
        if a.op == "le" and strip_ver(a.a[0]) is L and is_const(a.a[1]) and cval(a.a[1]) == 0 and v is False:
            return True
        if a.op == "truthy" and strip_ver(a.a[0]) is L and v is True:
            return True
    return False


def args_of(e, names):
    """Arguments of a component call in the order of names (receiver dropped)."""
    pos = list(e.a[2][1:])
    kw = dict(e.a[3]) if e.a[3] else {}
    out = []
    for i, n in enumerate(names):
        if i < len(pos):
            out.append(pos[i])
        elif n in kw:
            out.append(kw[n])
        else:
            break
    return out


def c12(prog, rep):
    """Every call that adds a record to the memory tier is dominated by a comparison of the tier's count with the limit (strict), or by an
    eviction with a positive limit."""
    rep.rule("R12.bound", "each memory-tier store happens with the count below the limit, or after an eviction under a positive limit", 2)
    cls = prog.cls("HybridStorage")
    me = self_of(cls)
    M = TIER(me, "memory_storage")
    L = mk("init", me, "memory_limit")
    for op in ("store_vector", "retrieve_vector", "update_vector"):
        con = f"HybridStorage.{op}"
        n = 0
        for p in paths(prog, rep, cls, op):
            evs = list(p.events)
            stores = [e for e in tier_calls(p, M, "store_vector")]
            for i, e in enumerate(stores):
                n += 1
                f = e.facts
                below = any((a.op == "lt" and v is True and under(prog, rep, a.a[0], a.a[1], M, L)) or (a.op == "le" and v is False and under(prog, rep, a.a[1], a.a[0], M, L)) for a, v in f.items())
                evict = [x for x in tier_calls(p, M, "delete_vector") if evs.index(x) < evs.index(e)]
                empty = any(a.op == "truthy" and v is False and a.a[0].op == "call" and a.a[0].a[0] == ".list_vectors" and strip_ver(a.a[0].a[1][0]) is M for a, v in f.items())
                good = below or ((evict or empty) and limit_pos(f, me))
                if len(stores) > 1 and i > 0:
                    good = False
                rep.check("R12.bound", con, good, "unbounded", "a record is added to the memory tier without the count being below the limit or an eviction making room", e.file, e.line)
        if n == 0 and op != "update_vector":
            rep.unk("R12.bound", con, "never stores in memory")


def offset(t):
    """(base, integer added to it)."""
    t = strip_ver(t)
    n = 0
    while t.op == "bin" and t.a[0] in ("+", "-"):
        l, r = strip_ver(t.a[1]), strip_ver(t.a[2])
        if is_const(r) and isinstance(cval(r), int):
            n += cval(r) if t.a[0] == "+" else -cval(r)
            t = l
        elif t.a[0] == "+" and is_const(l) and isinstance(cval(l), int):
            n += cval(l)
            t = r
        else:
            break
    return t, n


def under(prog, rep, c, l, M, L):
    """c < l implies that the number of records in tier M is below the limit L."""
    (cb, cn), (lb, ln_) = offset(c), offset(l)
    return lb is L and cn - ln_ >= 0 and tier_count(prog, rep, cb, M)


def tier_count(prog, rep, t, M):
    """t is the number of records in the tier."""
    t = strip_ver(t)
    if t.op in ("get", "item"):
        b = strip_ver(t.a[0])
        return b.op == "call" and b.a[0] == ".get_stats" and strip_ver(b.a[1][0]) is M and is_const(t.a[1]) and cval(t.a[1]) in count_keys(prog, rep)
    x = strip_ver(t.a[0] if t.op == "len" else t.a[1][0]) if t.op == "len" or (t.op == "call" and t.a[0] == "len") else None
    if x is None:
        return t.op == "init" and t.a[0] is M and t.a[1] in count_fields(prog, rep)
    if x.op == "call" and x.a[0] == ".list_vectors" and strip_ver(x.a[1][0]) is M:
        return len(x.a[1]) == 1 and not (len(x.a) > 2 and x.a[2])
    return x.op in ("init", "attr") and strip_ver(x.a[0]) is M


def count_fields(prog, rep):
    """Fields of the memory store that store_vector sets to the size of a container."""
    cls = prog.cls("MemoryStorage")
    me = self_of(cls)
    return {f for p in rets(paths(prog, rep, cls, "store_vector")) for (o, f), v in p.st.fields.items() if o is me and (v.op == "len" or (v.op == "call" and v.a[0] == "len"))}


def count_keys(prog, rep):
    """Keys of get_stats() of the memory store holding its number of records."""
    cls = prog.cls("MemoryStorage")
    me = self_of(cls)
    fs = count_fields(prog, rep)
    out = set()
    for p in rets(paths(prog, rep, cls, "get_stats")):
        c = p.st.heap.get(strip_ver(p.val))
        for e in c.entries if c else ():
            v = strip_ver(e.val) if e.val is not None else None
            if e.key is not None and is_const(e.key) and v is not None and ((v.op == "init" and v.a[1] in fs) or v.op == "len" or (v.op == "call" and v.a[0] == "len")):
                out.add(cval(e.key))
    return out


# ------------------------------------------------------------------ C13 locking
LOCKED = {"MemoryStorage": ["store_vector", "retrieve_vector", "delete_vector", "update_vector", "list_vectors", "get_stats", "initialize", "close"],
          "HybridStorage": ["store_vector", "retrieve_vector", "delete_vector", "update_vector", "close"]}


def lock_fields(prog, cls):
    out = {}
    me = self_of(cls)
    for p in Interp(prog).init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            if o is me and v.op == "call" and v.a[0] in ("threading.RLock", "threading.Lock"):
                out[f] = v.a[0]
    return out


def c13(prog, rep):
    """Lockset analysis: each access to a shared container (read or write) and each call on a tier happens while the store's own lock is
    held, in one critical section per operation; locks are released on every exit and nested acquisition is on a re-entrant lock."""
    rep.rule("R13.held", "containers, counters and tiers are accessed only with the lock held", 12)
    rep.rule("R13.one", "check and act of one operation lie in one critical section", 12)
    rep.rule("R13.release", "the lock is released on every exit", 12)
    rep.rule("R13.reentrant", "nested acquisition only of a re-entrant lock", 2)
    rep.rule("R13.same", "the lock object is created once, by the constructor", 2)
    for name, ops in LOCKED.items():
        cls = prog.cls(name)
        me = self_of(cls)
        locks = lock_fields(prog, cls)
        if not locks:
            rep.bad("R13.held", name, "no-lock", "the constructor creates no lock", cls.module.path, cls.node.lineno)
            continue
        L = {mk("init", me, f) for f in locks}
        if name == "MemoryStorage":
            guarded = {f for f, k in guarded_fields(prog, rep, cls).items()}
        else:
            guarded = set()
        tiers = {TIER(me, "memory_storage"), TIER(me, "disk_storage")} if name == "HybridStorage" else set()
        nested = False
        for op in ops:
            con = f"{name}.{op}"
            for p in paths(prog, rep, cls, op, policy=P(implicit=True, trace_reads=True)):
                if op == "initialize" and p.kind == "raise":
                    continue
                acc = []
                for e in p.events:
                    if e.kind == "use" and e.a[0].a[1] in guarded:
                        acc.append(e)
                    elif e.kind in ("setitem", "delitem", "mut", "aug", "popmiss", "iter") and e.kind != "aug" and owner_field(e.a[0], me) in guarded:
                        acc.append(e)
                    elif e.kind == "setfield" and e.a[0] is me and e.a[1].a[1] in guarded:
                        acc.append(e)
                    elif e.kind in ("call", "callx") and e.a[2] and strip_ver(e.a[2][0]) in tiers:
                        acc.append(e)
                for e in acc:
                    held = any(x in L for x in e.locks)
                    rep.check("R13.held", con, held, (e.a[0].a[1] if e.kind == "use" else ev_name(e)), f"{ev_name(e) if e.kind != 'use' else 'read of ' + show(e.a[0])} without holding the lock", e.file, e.line)
                # one critical section
                sections = 0
                depth = 0
                used = []
                for e in p.events:
                    if e.kind == "acq" and strip_ver(e.a[0]) in L:
                        depth += 1
                        if depth == 1:
                            sections += 1
                        else:
                            nested = True
                    elif e.kind == "rel" and strip_ver(e.a[0]) in L:
                        depth -= 1
                    elif e in acc and depth > 0:
                        used.append(sections)
                rep.check("R13.one", con, len(set(used)) <= 1, "split", "the lock is released and taken again between two accesses of one operation", *loc(p))
                if p.kind == "return" and p.val is not None:
                    for t in (p.val.a if p.val.op == "tuple" else (p.val,)):
                        t = strip_ver(t)
                        while t.op == "call" and t.a[0] in ("iter", "enumerate", "zip", "reversed", "filter", "map", "itertools.islice", "itertools.chain", "typing.cast") and t.a[1]:
                            t = strip_ver(t.a[1][-1] if t.a[0] in ("filter", "map") else t.a[1][0])
                        if t.op == "call" and t.a[0] in (".keys", ".values", ".items") and t.a[1] and owner_field(t.a[1][0], me) in guarded:
                            rep.bad("R13.one", con, "view", f"hands out a live view of {owner_field(t.a[1][0], me)}, read after the lock is released", *loc(p))
                rep.check("R13.release", con, not [x for x in p.st.locks if x in L], "leak", "an exit leaves the lock held", *loc(p))
            if not any(o.startswith(con) or o == con for (_, o) in rep.obl):
                rep.ok("R13.held", con)
            rep.ok("R13.held", con)
        for f, kind in locks.items():
            rep.check("R13.reentrant", f"{name}.{f}", kind == "threading.RLock" or not nested, "plain", "the lock is acquired while held but is not re-entrant", cls.module.path, cls.node.lineno)
            other = [fi.name for c in cls.mro() if isinstance(c, ClassInfo) for fi in c.methods.values() if fi.name != "__init__" and assigns(fi, f)]
            rep.check("R13.same", f"{name}.{f}", not other, "replaced", f"the lock object is replaced in {other}", cls.module.path, cls.node.lineno)


def assigns(fi, f):
    import ast
    return any(isinstance(t, ast.Attribute) and t.attr == f and isinstance(t.ctx, ast.Store) for t in ast.walk(fi.node))


def guarded_fields(prog, rep, cls):
    """Containers the constructor creates plus fields some data operation rewrites (the ready flag aside)."""
    me = self_of(cls)
    out = {}
    for p in Interp(prog).init_state(cls) or []:
        for (o, f), v in p.st.fields.items():
            if o is me and v.op == "alloc" and v.a[0] in ("dict", "list", "set", "defaultdict"):
                if f != "config":
                    out[f] = "container"
    for op in ("store_vector", "delete_vector", "update_vector"):
        for p in paths(prog, rep, cls, op):
            for e in p.events:
                if e.kind == "setfield" and e.a[0] is me and not is_const(e.a[2]):
                    out.setdefault(e.a[1].a[1], "counter")
    return out


# ------------------------------------------------------------------ C05 isolation
ISO_OPS = {
    "storage": ["store_vector", "update_vector", "retrieve_vector", "list_vectors"],
    "index": ["insert", "add", "update", "search"],
}


def c05(prog, rep):
    """Alias analysis of every store/insert/update and every retrieve/search/process: values put into a container of the component share no
    mutable memory with an argument, values handed out share none with a container of the component."""
    rep.rule("R5.in", "values stored in the component do not share memory with the caller's arrays or dictionaries", 12)
    rep.rule("R5.out", "values handed out do not share memory with the component's stored arrays or dictionaries", 12)
    todo = [(cls, op) for lay, err, _, cls in components(prog, ("storage", "index")) for op in ISO_OPS[lay] if cls.find(op)]
    emb = prog.cls("EmbeddingProcessor")
    todo.append((emb, "process"))
    for cls, op in todo:
        me = self_of(cls)
        con = f"{cname(cls)}.{op}"
        A = Aliases(prog, cls, cls.find(op))
        for p in paths(prog, rep, cls, op):
            stored = []
            for e in p.events:
                vals = []
                if e.kind == "setitem" and is_self_rooted(e.a[0], me):
                    vals = [e.a[2]]
                elif e.kind == "mut" and is_self_rooted(e.a[0], me) and cval(e.a[1]) in ("append", "add", "appendleft", "insert", "extend", "update", "setdefault"):
                    vals = list(e.a[2])
                    shallow = cval(e.a[1]) in ("extend", "update")
                elif e.kind == "setfield" and e.a[0] is me:
                    vals = [e.a[2]]
                for v in vals:
                    stored.append((v, e))
                    rs = A.roots(v, e.heap, e.kind == "mut" and cval(e.a[1]) in ("extend", "update"))
                    bad = [r for r in rs if base_root(r).op == "param"]
                    if bad:
                        rep.bad("R5.in", con, base_root(bad[0]).a[0], f"stores {show(bad[0])} itself instead of a copy", e.file, e.line)
            rep.ok("R5.in", con)
            if p.kind == "return" and p.val is not None:
                rs = A.roots(p.val, p.st.heap)
                for t in (p.val.a if p.val.op == "tuple" else (p.val,)):
                    t = strip_ver(t)
                    while t.op == "call" and t.a[0] in ("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", ".view", ".reshape") and t.a[1]:
                        t = strip_ver(t.a[1][0])
                    if t.op == "call" and t.a[0] in ("numpy.load", "numpy.memmap", "numpy.lib.format.open_memmap"):
                        mode = dict(t.a[2]).get("mmap_mode", t.a[1][1] if len(t.a[1]) > 1 else NONE)
                        if t.a[0] != "numpy.load" or is_const(mode) and mode is not NONE:
                            rep.bad("R5.out", con, "mmap", "hands out the stored file mapped into memory instead of a copy", *loc(p))
                bad = [r for r in rs if base_root(r).op in ("init", "self") and A.kind(r) != "imm"]
                hand = [r for r in bad if mutable_field(prog, cls, A, r)]
                if hand:
                    rep.bad("R5.out", con, owner_field(hand[0], me) or "field", f"hands out {show(hand[0])} itself instead of a copy", *loc(p))
                elif cls is emb or True:
                    shared = [v for v, e in stored if e.kind == "setitem" and v.op in ("bin", "call", "alloc", "item") and not copied(v) and reach(p.val, v, p)]
                    shared = [v for v in shared if not (v.op == "call" and v.a[0] in ("str", "len", "float", "int", "uuid.uuid4"))]
                    if shared and not any(x.op == "idx" for x in [shared[0]]):
                        rep.bad("R5.out", con, "stored-value", f"hands out the very object it stores ({show(shared[0])[:60]})", *loc(p))
                    else:
                        rep.ok("R5.out", con)
                rep.ok("R5.out", con)


def copied(v):
    return v.op == "call" and v.a[0] in (".copy", "copy.copy", "copy.deepcopy", "dict", "list", "numpy.array", ".astype", "str", "float", "int", "tuple")


def reach(t, v, p, seen=None):
    """Value v is (an element of) the returned structure, not merely an input of a computation."""
    seen = seen if seen is not None else set()
    t = strip_ver(t)
    if t in seen:
        return False
    seen.add(t)
    if t is v:
        return True
    if t.op == "tuple":
        return any(reach(x, v, p, seen) for x in t.a)
    if t.op == "comp":
        return any(reach(x, v, p, seen) for _, x in t.a[2])
    if t.op == "alloc":
        c = p.st.heap.get(t)
        return bool(c) and any(e.val is not None and e.tag != "prev" and reach(e.val, v, p, seen) for e in c.entries)
    return False


def mutable_field(prog, cls, A, r):
    k = A.kind(r)
    if k == "mut":
        return True
    if k is None or k == "any":
        # unannotated field: a container created by the constructor
        b = strip_ver(r)
        if b.op == "init" and b.a[0].op == "self":
            info = Interp(prog).field_info(cls, b.a[1])
            return bool(info and info[0] == "kind" and info[1] in ("dict", "list", "set"))
    return False


CHECKS = {"C05": c05, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13}
