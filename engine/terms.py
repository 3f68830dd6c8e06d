"""Term domain of the abstract interpreter: value numbers with a canonical form.

A term is a nested tuple.  Two occurrences with the same canonical form denote the same
value (congruence); integer terms are kept as linear forms over opaque bases.
Machine integers are treated as mathematical integers (no wrap-around): an assumption
listed in DESIGN.md.
"""
from functools import lru_cache
from math import gcd


# bytes of a tree value: 32, except where the code under analysis is generic over the
# value type and may be given any (the digest constructs)
VALUE_BYTES = [32]


def C(n):
    return ("c", n)


TRUE = C(1)
FALSE = C(0)
UNIT = ("agg", 0, ())


def App(f, *args):
    return ("app", f) + tuple(args)


def parts(t):
    if t[0] == "c":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


@lru_cache(maxsize=200000)
def key(t):
    return repr(t)


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: key(kv[0]))))


def add(a, b, sb=1):
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a[0] == "c":
        return scale(b, a[1])
    if b[0] == "c":
        return scale(a, b[1])
    if b[0] == "pow2":
        a, b = b, a
    if a[0] == "pow2":
        # distribute over a linear form so that 2^d * (2x) stays canonical
        c, d = parts(b)
        if not (c == 0 and len(d) == 1 and list(d.values())[0] == 1):
            out = scale(a, c)
            for k, v in d.items():
                out = add(out, scale(_mulb(a, k), v))
            return out
    return _mulb(a, b)


def _mulb(a, b):
    if a[0] == "pow2" and b[0] == "pow2":
        return pow2(add(a[1], b[1]))
    x, y = sorted((a, b), key=key)
    return ("mul", x, y)


def pow2(n):
    if n[0] == "c":
        return C(1 << n[1]) if 0 <= n[1] < 512 else ("pow2", n)
    c, d = parts(n)
    if c > 0:
        return scale(("pow2", mk_lin(0, d)), 1 << c)
    return ("pow2", n)


def div(a, b):
    if b[0] == "c":
        k = b[1]
        if k == 0:
            return App("div0", a)
        if k == 1:
            return a
        c, d = parts(a)
        if not d:
            return C(c // k)
        if all(v % k == 0 for v in d.values()):
            return mk_lin(c // k, {t: v // k for t, v in d.items()})
        if len(d) == 1 and c == 0 and a[0] == "div" and a[2][0] == "c":
            return div(a[1], C(a[2][1] * k))
        # split off the divisible part
        q = {t: v // k for t, v in d.items() if v // k}
        if q or c // k:
            r = mk_lin(c % k, {t: v % k for t, v in d.items() if v % k})
            return add(mk_lin(c // k, q), ("div", r, b))
    if a == b:
        return C(1)
    return ("div", a, b)


def mod(a, b):
    if b[0] == "c" and b[1] > 0:
        k = b[1]
        return sub(a, scale(div(a, b), k))
    return ("mod", a, b)


def shl(a, n):
    return mul(a, pow2(n))


def shr(a, n):
    if n[0] == "c":
        return div(a, C(1 << n[1]))
    return ("shr", a, n)


def bitand(a, b, bits=0):
    if a[0] == "c" and b[0] == "c":
        return C(a[1] & b[1])
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c":
        n = b[1]
        if n == 0:
            return C(0)
        if n & (n + 1) == 0:
            return mod(a, C(n + 1))
        low = (1 << bits) - 1 - n if bits else 0
        if low > 0 and low & (low + 1) == 0:
            return sub(a, mod(a, C(low + 1)))
    x, y = sorted((a, b), key=key)
    return ("bitand", x, y)


def bitor(a, b):
    if a[0] == "c" and b[0] == "c":
        return C(a[1] | b[1])
    if a[0] == "c":
        a, b = b, a
    if a == b:
        return a
    if b[0] == "c":
        if b[1] == 0:
            return a
        c, d = parts(a)
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if c == 0 or True:
            g = gcd(g, c) if c else g
            low = g & -g
            if 0 <= b[1] < low:
                return add(a, b)
    x, y = sorted((a, b), key=key)
    return ("bitor", x, y)


# ---- booleans -------------------------------------------------------------------

def neg(t):
    if t[0] == "c":
        return C(1 - t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def parity(ds):
    """(s) when the non-constant part is s*(x - 2*div(x,2)), i.e. s times a bit."""
    for b, v in ds.items():
        if b[0] == "div" and b[2] == C(2) and v % 2 == 0:
            s = -v // 2
            c, xs = parts(scale(b[1], s))
            rest = {t: w for t, w in ds.items() if t != b}
            if c == 0 and rest == xs:
                return s
    return None


def ge0(d):
    c, ds = parts(d)
    if not ds:
        return TRUE if c >= 0 else FALSE
    s = parity(ds)
    if s:
        lo, hi = min(c, c + s), max(c, c + s)
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
        z = ("eq0", mk_lin(0, {k: v // s for k, v in ds.items()}))
        return ("not", z) if c < 0 else z
    g = 0
    for v in ds.values():
        g = gcd(g, v)
    if g > 1:
        ds = {k: v // g for k, v in ds.items()}
        c = c // g
    if c >= 0 and all(v > 0 for v in ds.values()):
        return TRUE
    if c < 0 and all(v < 0 for v in ds.values()):
        return FALSE
    p = mk_lin(c, ds)
    n = mk_lin(-c - 1, {k: -v for k, v in ds.items()})
    if _first_positive(p):
        return ("ge0", p)
    return ("not", ("ge0", n))


def _first_positive(p):
    _, d = parts(p)
    k = min(d, key=key)
    return d[k] > 0


def lt(a, b):
    return ge0(add(sub(b, a), C(-1)))


def le(a, b):
    return ge0(sub(b, a))


def eqi(a, b):
    d = sub(a, b)
    c, ds = parts(d)
    if not ds:
        return TRUE if c == 0 else FALSE
    if all(v > 0 for v in ds.values()) and c > 0:
        return FALSE
    if all(v < 0 for v in ds.values()) and c < 0:
        return FALSE
    s = parity(ds)
    if s:
        z = ("eq0", mk_lin(0, {k: v // s for k, v in ds.items()}))
        if c == 0:
            return z
        return ("not", z) if c + s == 0 else FALSE
    if not _first_positive(d):
        d = scale(d, -1)
        c, ds = parts(d)
    if c == 0 and all(v > 0 for v in ds.values()):
        return neg(ge0(add(d, C(-1))))
    return ("eq0", d)


def land(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    if a == neg(b):
        return FALSE
    x, y = sorted((a, b), key=key)
    return ("and", x, y)


def lor(a, b):
    return neg(land(neg(a), neg(b)))


def eqv(a, b):
    """Structural equality of two (reified) values."""
    if a == b:
        return TRUE
    if a[0] == "c" and b[0] == "c":
        return FALSE
    if a[0] in ("lin", "c") or b[0] in ("lin", "c"):
        return eqi(a, b)
    if a[0] == "agg" and b[0] == "agg":
        if a[1] != b[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a[2], b[2]):
            r = land(r, eqv(x, y))
        return r
    x, y = sorted((a, b), key=key)
    return ("eq", x, y)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def subst(t, m):
    """Replace whole subterms by map m, renormalising integer structure."""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not t or not isinstance(t[0], str):
        return tuple(subst(x, m) for x in t)
    h = t[0]
    if h == "c":
        return t
    if h == "lin":
        out = C(t[1])
        for k, v in t[2]:
            out = add(out, scale(subst(k, m), v))
        return out
    if h in REBUILD:
        return REBUILD[h](*[subst(x, m) for x in t[1:]])
    return (h,) + tuple(subst(x, m) if isinstance(x, tuple) else x for x in t[1:])


REBUILD = {
    "mul": mul, "div": div, "mod": mod, "pow2": pow2, "shr": shr,
    "bitand": bitand, "bitor": bitor, "not": neg, "ge0": ge0,
    "eq0": lambda d: eqi(d, C(0)), "and": land,
    "eq": lambda a, b: eqv(a, b),
}


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    h = t[0]
    if not isinstance(h, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if h == "c":
        return str(t[1])
    if h == "sym":
        return str(t[1])
    if h == "lin":
        s = " + ".join((f"{v}*" if v != 1 else "") + show(k) for k, v in t[2])
        return "(" + s + (f" + {t[1]}" if t[1] else "") + ")"
    if h == "agg":
        return (f"#{t[1]}" if t[1] else "") + "{" + ", ".join(show(x) for x in t[2]) + "}"
    if h == "app":
        return t[1] + "(" + ", ".join(show(x) for x in t[2:]) + ")"
    if h == "fld":
        return show(t[1]) + "." + (f"v{t[2]}." if t[2] else "") + str(t[3])
    if h == "ge0":
        return f"[{show(t[1])} >= 0]"
    if h == "eq0":
        return f"[{show(t[1])} == 0]"
    if h == "not":
        return "!" + show(t[1])
    if h == "phi":
        return f"phi{t[1]}<{'.'.join(map(str, t[2]))}>"
    if h == "ret":
        return f"r{t[1]}" + ("" if len(t) < 3 else "." + str(t[2]))
    return h + "(" + ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
