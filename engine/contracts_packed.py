"""Packed vectors: which bytes of which chunks an operation reads and writes."""
import ground
import layers
import terms as T
from contract import contract, OVERFLOW, INVALID
from contracts_core import both, K, E, fld, P, okpart, UNIT, lkind, list_rview, mix, DEF, E0, clog2, mod_of
from spec import ok, some, NONE

CH = 32
WIDTHS = {"packed8": 8, "packed12": 12, "packed48": 48, "packed80": 80, "packed64": 64, "packedlist": 8}
KINDS = ("packed8", "packed12", "packed48", "packed64", "packed80")


def width(a):
    return next(w for n, w in WIDTHS.items() if "root_" + n + "__" in a.root.name)


def host(a):
    """Readers: inner vector of the packed handle; its root, length and maximum"""
    I = a.root.I
    t = layers.handle_parts(I, "PackedVector", "Vector")[0]
    v = layers.handle_parts(I, "Vector", "Raw")
    return (lambda x: fld(x, t[2])), (lambda x: fld(x, v[1][2])), (lambda x: fld(x, v[2][2]))


def hostlen(w, n):
    return T.div(T.add(T.scale(n, w), K(CH - 1)), K(CH))


def gbyte(g, e, k):
    """Byte k of a ground chunk"""
    if e[0] == "app" and e[1] == "frombytes":
        b = e[2]
        if b[0] == "list":
            return b[1][k] if k < len(b[1]) else ("missing",)
        return ("at", b, k)
    return ("at", ("bytes", e), k)


def chunk(g, x, c):
    return g.val.elem(x, c)


ZERO = ("E", 0)


def bytes_of(g, t, w):
    """The w bytes of an argument of the element type"""
    xs = g.val.full(t)
    if len(xs) != w:
        raise ground.Unknown("element size")
    return xs


def same_bytes(g, have, want):
    """have(c, k), want(c, k) over every chunk byte"""
    for (c, k), y in want.items():
        p = g.same(f"byte {k} of chunk {c}", gbyte(g, have(c), k), y)
        if p:
            return p
    return None


def start(S, a):
    """Packed handles hold as many chunks as their length needs"""
    tup, tlen, tmax = host(a)
    w = width(a)
    l = P(a)[1](a.s)
    S.assume(T.eqi(tlen(tup(a.s)), hostlen(w, l)))
    return w, l, tup(a.s)


def finish(g, a, w, n, last, result):
    """The handle after a change: element count n, maximum kept, chunks n needs, bytes as given"""
    tup, tlen, tmax = host(a)
    r, l, m = P(a)
    p = result
    if p:
        return p
    f = g.root.final(g.o, g.root.args["s"])
    p = g.same("length", g.g(l(f)), ("i", n)) or g.same("maximum", g.g(m(f)), g.g(m(a.s)))
    if p:
        return p
    y = g.g(tup(f))
    h = (w * n + CH - 1) // CH
    have = g.val.statelen(y)
    if have != h:
        return f"{have} chunks kept where {h} are required"
    return same_bytes(g, lambda c: chunk(g, y, c), last(h))


def old_bytes(g, x, h0):
    return lambda c, k: gbyte(g, chunk(g, x, c), k) if c < h0 else gbyte(g, ZERO, k)


@contract("packed", *both(*[f"root_{k}__get" for k in KINDS]))
def packed_get(S, a):
    w, l, x = start(S, a)
    if S.test(T.le(l, a.i)):
        return dict(result=E(OVERFLOW), final={"s": a.s})

    def at(g):
        i = g.int(a.i)
        res = g.res()
        if res[0] != "agg" or res[1] != 0:
            return "fails where an element is required"
        want = [old_bytes(g, g.g(x), g.val.statelen(g.g(x)))((w * i + j) // CH, (w * i + j) % CH) for j in range(w)]
        return g.same("element", elemlist(g, res[2][0]), ("list", tuple(want)))
    return dict(at=at, final={"s": a.s})


def elemlist(g, x):
    """An element as the list of its bytes"""
    if x[0] == "bytes":
        return ("list", tuple(("at", x, k) for k in range(CH)))
    return x


@contract("packed", *both(*[f"root_{k}__set" for k in KINDS]))
def packed_set(S, a):
    w, l, x = start(S, a)
    if S.test(T.le(l, a.i)):
        return dict(result=E(OVERFLOW), final={"s": a.s})

    def at(g):
        i, n, v = g.int(a.i), g.int(l), bytes_of(g, a.v, w)
        old = old_bytes(g, g.g(x), g.val.statelen(g.g(x)))

        def last(h):
            return {(c, k): v[CH * c + k - w * i] if 0 <= CH * c + k - w * i < w else old(c, k)
                    for c in span(w, i, h) for k in range(CH)}
        return finish(g, a, w, n, last, g.same("result", g.res(), g.g(ok(UNIT))))
    return dict(at=at)


def span(w, i, h):
    """The chunks of element i, one before and one after"""
    return [c for c in range(w * i // CH - 1, (w * (i + 1) - 1) // CH + 2) if 0 <= c < h]


@contract("packed", *both(*[f"root_{k}__push" for k in KINDS]))
def packed_push(S, a):
    w, l, x = start(S, a)
    m = S.option(P(a)[2](a.s))
    if m is not None and S.test(T.le(m, l)):
        return dict(result=E(OVERFLOW), final={"s": a.s})

    def at(g):
        n, v = g.int(l), bytes_of(g, a.v, w)
        old = old_bytes(g, g.g(x), g.val.statelen(g.g(x)))

        def last(h):
            return {(c, k): v[CH * c + k - w * n] if 0 <= CH * c + k - w * n < w else old(c, k)
                    for c in span(w, n, h) for k in range(CH)}
        return finish(g, a, w, n + 1, last, g.same("result", g.res(), g.g(ok(UNIT))))
    return dict(at=at)


@contract("packed", *both(*[f"root_{k}__pop" for k in KINDS]))
def packed_pop(S, a):
    w, l, x = start(S, a)
    if S.test(T.eqi(l, K(0))):
        return dict(result=ok(NONE), final={"s": a.s})

    def at(g):
        n = g.int(l)
        old = old_bytes(g, g.g(x), g.val.statelen(g.g(x)))
        i = n - 1
        res = g.res()
        if res[0] != "agg" or res[1] != 0 or res[2][0][0] != "agg" or res[2][0][1] != 1:
            return "gives no element where the last one is required"
        want = tuple(old((w * i + j) // CH, (w * i + j) % CH) for j in range(w))
        p = g.same("popped element", elemlist(g, res[2][0][2][0]), ("list", want))

        def last(h):
            return {(c, k): gbyte(g, ZERO, k) if CH * c + k - w * i >= 0 and CH * c + k - w * i < w else old(c, k)
                    for c in span(w, i, h) for k in range(CH)}
        return finish(g, a, w, n - 1, last, p)
    return dict(at=at)


# ---- creation, conversion
def hosts(a, handle, root, n, m, w):
    """The parts of a packed handle built for n elements of at most m"""
    tup, tlen, tmax = host(a)
    return [("chunks", lambda r: tlen(tup(handle(r))), hostlen(w, n))]


def chunkmax(S, m, w):
    """The maximum number of chunks as an option term"""
    p = S.option(m)
    return NONE if p is None else some(hostlen(w, p))


@contract("packed", *both("root_packed8__from_raw"))
def packed_from_raw(S, a):
    w = width(a)
    r, l, m = P(a)
    tup, tlen, tmax = host(a)
    return dict(rview=[("root", r, a.root.views.raw(mod_of(a))(a.r)), ("len", l, a.len), ("max", m, a.m),
                       ("chunks", lambda x: tlen(tup(x)), hostlen(w, a.len)), ("chunk maximum", lambda x: tmax(tup(x)), chunkmax(S, a.m, w))])


@contract("packed", *both("root_packed8__from_leaked"))
def packed_from_leaked(S, a):
    w = 8
    tup, tlen, tmax = host(a)
    r, l, m = P(a)
    return dict(rview=[("root", r, fld(a.m, 0)), ("len", l, fld(a.m, 1)), ("max", m, fld(a.m, 2)),
                       ("chunks", lambda x: tlen(tup(x)), hostlen(w, fld(a.m, 1))), ("chunk maximum", lambda x: tmax(tup(x)), chunkmax(S, fld(a.m, 2), w))])


@contract("packed", "root_packed8__create")
def packed_create(S, a):
    w = 8
    p = S.option(a.m)
    if p is not None:
        if S.test(T.eqi(p, K(0))) or S.test(T.lt(p, a.len)):
            return dict(result=E(INVALID))
    r, l, m = a.root.views.packed("owned")
    tup, tlen, tmax = host(a)
    h = hostlen(w, a.len if p is None else p)
    return dict(rview=[("root", okpart(r), E0(clog2(h))), ("len", okpart(l), a.len), ("max", okpart(m), a.m),
                       ("chunks", okpart(lambda x: tlen(tup(x))), hostlen(w, a.len)),
                       ("chunk maximum", okpart(lambda x: tmax(tup(x))), chunkmax(S, a.m, w))])


@contract("packed", "root_packedlist__create")
def packedlist_create(S, a):
    w = 8
    p = S.option(a.m)
    if p is not None and S.test(T.eqi(p, K(0))):
        return dict(result=E(INVALID))
    d = clog2(hostlen(w, p)) if p is not None else K(0)
    return dict(rview=list_rview(a, "owned", mix(S, DEF, E0(d), K(0)), E0(d), K(0), a.m, okpart))
