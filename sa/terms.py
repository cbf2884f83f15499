"""Hash-consed provenance terms (the value-number domain) and helpers."""
from __future__ import annotations

_intern = {}


class T:
    __slots__ = ("op", "a", "h", "uid")

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _intern.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(k)
        t.uid = len(_intern)
        _intern[k] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def glob(d):
    return mk("glob", d)


def call(name, *args, kw=(), n=0):
    return mk("call", name, tuple(args), tuple(kw), n)


def is_call(t, *names):
    return t.op == "call" and t.a[0] in names


def strip_ver(t):
    while t.op == "at":
        t = t.a[0]
    return t


def walk(t, seen=None):
    """All subterms."""
    stack = [t]
    if seen is None:
        seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


_norm_cache = {}


def norm(t):
    """Drop version tags everywhere (for structural comparison across time)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(norm(x) for x in t)
        return t
    r = _norm_cache.get(t)
    if r is None:
        if t.op == "at":
            r = norm(t.a[0])
        elif t.op in ("const", "glob", "param", "self"):
            r = t
        else:
            r = mk(t.op, *[norm(x) for x in t.a])
        _norm_cache[t] = r
    return r


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        r = mk(t.op, *[subst(x, m, memo) for x in t.a]) if t.a else t
        memo[t] = r
    return r


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "..."
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o in ("param", "glob"):
        return str(a[0])
    if o == "self":
        return "self"
    if o == "init":
        return f"{show(a[0], d+1)}.{a[1]}"
    if o == "at":
        return show(a[0], d + 1) + f"@{a[1]}"
    if o == "item":
        return f"{show(a[0], d+1)}[{show(a[1], d+1)}]"
    if o == "idx":
        return f"#({show(a[0], d+2)})" + ("'" * a[1])
    if o == "attr":
        return f"{show(a[0], d+1)}.{a[1]}"
    if o == "call":
        return f"{a[0]}({', '.join([show(x, d+1) for x in a[1]] + [k + '=' + show(v, d+1) for k, v in a[2]])})" + (f"${a[3]}" if a[3] else "")
    if o == "bin":
        return f"({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})"
    if o == "cmp":
        return f"({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})"
    if o == "alloc":
        return f"<{a[0]}@{a[1]}#{a[2]}>"
    return f"{o}({', '.join(show(x, d+1) for x in a)})"
