"""Contracts of indices, depth helpers, digest constructs and the smaller public functions."""
import terms as T
from terms import C as K
from contract import contract, fld, E, CORRUPTED, OVERFLOW, INVALID, BACKEND
from contracts_core import DEF
from contracts_db import bits, Mem, memstate, bump, mapfield, OKU
from spec import ok, err, some, NONE, Skip
from ground import Unknown, tH

TOP = 1 << 64
BIG = [11, 14, 21, 27, 42, 63, 64, 85, 100, 127, 128, 170, 200, 255, 256, 341, 511, 1000, 1023, 1025, 4095, 4097, 65535, 65537, (1 << 31) - 1, (1 << 32) + 5]
FAR = [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) + 3]


def I_(n):
    return ("agg", 0, (("i", n),))


def small(n):
    if n >= TOP:
        raise Unknown("beyond the machine word")
    return n


def nz(S, *ts):
    for t in ts:
        if S.test(T.eqi(t, K(0))):
            raise Skip()                    # zero is not a position in a tree


def idx(t):
    return fld(t, 0)


@contract("index", "root_index__root")
def index_root(S, a):
    return dict(result=("agg", 0, (K(1),)))


@contract("index", "root_index__left")
def index_left(S, a):
    return dict(at=lambda g: g.same("result", g.res(), I_(small(2 * g.int(idx(a.i))))))


@contract("index", "root_index__right")
def index_right(S, a):
    return dict(at=lambda g: g.same("result", g.res(), I_(small(2 * g.int(idx(a.i)) + 1))), pool=BIG)


@contract("index", "root_index__parent")
def index_parent(S, a):
    nz(S, idx(a.i))

    def at(g):
        n = g.int(idx(a.i))
        return g.same("result", g.res(), ("agg", 0, ()) if n == 1 else ("agg", 1, (I_(n // 2),)))
    return dict(at=at, pool=BIG)


def below(i, o):
    """Is position o strictly below position i?"""
    while o > 1:
        o //= 2
        if o == i:
            return True
    return False


def pos(x):
    if x[0] == "agg" and len(x[2]) == 1:
        x = x[2][0]
    if x[0] != "i":
        raise Unknown("position")
    return x[1]


@contract("index", "root_index__has_descendant")
def index_desc(S, a):
    nz(S, idx(a.i), idx(a.o))

    def at(g):
        i, o = g.int(idx(a.i)), g.int(idx(a.o))
        r = g.res()
        if r[0] == "rec" and r[1].endswith("has_descendant"):
            # the recursive call answers for its own arguments
            ia, oa = pv(g, r[2][0], a.i, i), pv(g, r[2][1], a.o, o)
            have = below(ia, oa)
            if oa >= o and (ia, oa) == (i, o):
                return "calls itself with the same positions"
        elif r[0] == "i":
            have = bool(r[1])
        else:
            raise Unknown("result")
        if have != below(i, o):
            return f"says {have} for position {o} under position {i}"
        return None
    return dict(at=at, pool=BIG)


def pv(g, x, t, n):
    if x == g.g(t):
        return n
    return pos(x)


@contract("index", "root_index__from_one")
def index_one(S, a):
    def at(g):
        n = g.int(a.i)
        return g.same("result", g.res(), ("agg", 0, ()) if n == 0 else ("agg", 1, (I_(n),)))
    return dict(at=at, pool=BIG)


@contract("index", "root_index__from_zero")
def index_zero(S, a):
    return dict(at=lambda g: g.same("result", g.res(), I_(small(g.int(a.i) + 1))), pool=BIG)


@contract("index", "root_index__from_depth")
def index_depth(S, a):
    if S.test(T.ge0(T.sub(a.d, K(64)))):
        raise Skip()

    def at(g):
        i, d = g.int(a.i), g.int(a.d)
        if i >= 1 << d:
            return None                     # there is no such position at that depth
        return g.same("result", g.res(), I_(small((1 << d) + i)))
    return dict(at=at, pool=BIG)


def route(n):
    bs = bits(n)
    if not bs:
        return ("agg", 0, ())
    return ("agg", 1, (("list", tuple(("agg", b, ()) for b in bs)),))


@contract("index", "root_index__route")
def index_route(S, a):
    nz(S, idx(a.i))
    return dict(at=lambda g: g.same("route", g.res(), route(g.int(idx(a.i)))), pool=BIG)


@contract("index", "root_index__sub")
def index_sub(S, a):
    nz(S, idx(a.i), idx(a.s))

    def at(g):
        i, s = g.int(idx(a.i)), g.int(idx(a.s))
        r = i
        for b in bits(s):
            r = 2 * r + b
        r = small(r)
        have = g.res()
        if have == g.g(a.i):
            have = I_(i)
        return g.same("result", have, I_(r))
    return dict(at=at, pool=BIG)


@contract("index", "root_route__at_depth")
def route_at(S, a):
    if S.variant(a.r, 2, (0, 1)) == 0:
        return dict(result=NONE)
    v = fld(a.r, (1, 0))

    def at(g):
        d = g.int(a.d)
        n = g.int(("len", v))
        if d == 0 or d > n:
            return g.same("result", g.res(), ("agg", 0, ()))
        return g.same("result", g.res(), ("agg", 1, (g.g(("at", v, K(d - 1))),)))
    return dict(at=at, pool=BIG)


# ---- status markers
for n, v in (("owned_is_owned", 1), ("owned_is_dangling", 0), ("dangling_is_owned", 0), ("dangling_is_dangling", 1)):
    contract("status", "root_status__" + n)(lambda S, a, v=v: dict(result=K(v)))
contract("status", "root_status__inherited")(lambda S, a: dict(result=("agg", 0, (K(1), K(0)))))
contract("status", "root_status__unit")(lambda S, a: dict(result=("agg", 0, (K(0), K(1)))))


@contract("error", "root_error__from")
def error_from(S, a):
    return dict(result=("agg", BACKEND, (a.e,)))


# ---- depth and chunk arithmetic
def depth(n):
    return 0 if n <= 1 else (n - 1).bit_length()


@contract("shape", "root_utils__required_depth")
def req_depth(S, a):
    return dict(at=lambda g: g.same("depth", g.res(), ("i", depth(g.int(a.l)))), pool=FAR)


def hosts(host, val):
    def f(S, a):
        return dict(at=lambda g: g.same("hosts", g.res(), ("i", -(-g.int(a.l) * val // host))), pool=FAR)
    return f


for h, v in ((32, 8), (32, 12), (32, 24), (32, 48), (32, 64), (32, 80)):
    contract("shape", f"root_utils__host_len_{h}_{v}", f"root_utils__host_max_len_{h}_{v}")(hosts(h, v))


def merkle(vals, d):
    """-> (root, nodes) of the complete tree of depth d over vals, empty subtrees filling up"""
    nodes, cur = [], list(vals)
    for k in range(d):
        nxt = []
        for i in range(0, len(cur), 2):
            l = cur[i]
            r = cur[i + 1] if i + 1 < len(cur) else ("E", k)
            nodes.append((("H", l, r), l, r))
            nxt.append(("H", l, r))
        cur = nxt
    return (cur[0] if cur else ("E", d)), nodes


@contract("shape", "root_utils__vector_tree")
def vtree(S, a):
    m = S.option(a.m)

    def at(g):
        vals = list(g.val.full(g.root.I.reify(g.s.st, a.v)))
        n = len(vals)
        mx = n if m is None else g.int(m)
        if n > mx:
            return None                     # longer than its own limit
        root, nodes = merkle(vals, depth(mx))
        p = g.same("root", g.res(), ("agg", 0, (root,)))
        if p:
            return p
        have = [c for k, c, out, _ in g.calls() if k == "insert"]
        keys = {c[0] for c in have}
        for k, l, r in nodes:
            if not any(c[0] == k for c in have):
                if l == r and l[0] == "E":
                    continue
                return f"node {k} is never inserted"
        seen = set()
        nodekeys = {k for k, _, _ in nodes}
        for c in have:
            for x in (c[1][2] if c[1][0] == "agg" else ()):
                if x in nodekeys and x not in seen:
                    return "a node is inserted before its child"
            seen.add(c[0])
        return None
    return dict(at=at)


# ---- digest constructs
def hashed(l, r):
    def whole(x):
        n = K(T.VALUE_BYTES[0]) if T.VALUE_BYTES[0] else ("len", ("bytes", x))
        return ("sl", ("bytes", x), K(0), n)
    return ("app", "frombytes", ("app", "hash", ("seq", (whole(l), whole(r)))))


@contract("construct", "root_construct__inherited_intermediate", "root_construct__unit_intermediate")
def inter(S, a):
    def at(g):
        return g.same("combination", g.res(), g.g(hashed(a.a, a.b)))
    return dict(at=at)


@contract("construct", "root_construct__unit_empty")
def unit_empty(S, a):
    return dict(result=ok(DEF), events=[])


@contract("construct", "root_construct__inherited_empty")
def inh_empty(S, a):
    def at(g):
        d = g.int(a.d)
        if d > 10:
            return None
        cur, ins = DEF, []
        below = [(c, e) for k, c, out, e in g.calls() if k.startswith("rec:") and out == "Ok"]
        if below:
            # by induction a recursive call answers for the depth it is given
            if d == 0 or len(below) > 1 or not below[0][0] or below[0][0][-1] != ("i", d - 1):
                raise Unknown("recursion")
            cur, d = g.g(below[0][1].res), 1
        for _ in range(d):
            k = hashed(cur, cur)
            ins.append((g.g(k), g.g(cur)))
            cur = k
        p = g.same("result", g.res(), ("agg", 0, (g.g(cur),)))
        if p:
            return p
        have = [c for k, c, out, _ in g.calls() if k == "insert"]
        for k, c in ins:
            if not any(h[0] == k and h[1] == ("agg", 0, (c, c)) for h in have):
                return "an empty subtree is not inserted with its children"
        return None
    return dict(at=at)


# ---- proofs
@contract("compact", "root_compact__from_plain")
def from_plain(S, a):
    nz(S, idx(a.i))

    def at(g):
        bs = bits(g.int(idx(a.i)))[::-1]
        it = g.g(a.p)
        cur = ("agg", 0, (g.g(a.l),))
        for b in bs:
            if not hasitem(g, it):
                return g.same("result", g.res(), ("agg", 0, ()))
            x = ("agg", 0, (("app", "item", it),))
            it = ("app", "after", it)
            cur = ("agg", 1, (("agg", 0, (cur, x) if b == 0 else (x, cur)),))
        w = ("agg", 0, ()) if hasitem(g, it) else ("agg", 1, (cur,))
        return g.same("result", g.res(), w)
    return dict(at=at)


def hasitem(g, it):
    return bool(g.val.leaf(("b", "hasitem", it)) & 1)


# ---- in-memory backend
@contract("memory", "root_memory__clone")
def mem_clone(S, a):
    return dict(result=a.db, final={"db": a.db})


def entry(m, have, k):
    while have[0] == "map":
        for x, e in have[2]:
            if x == k:
                return None if e == ("absent",) else e[2]
        have = have[1]
    return Mem(m.v and GG(m), have).get(k)


def fldpath(g, e, path):
    for i in path:
        e = ("fld", e, 0, i)
        e = g.val.alias.get(e, e)
    return e


class JG:
    """A path read at another valuation"""

    def __init__(self, g, val):
        self.root, self.o, self.s, self.val, self.g = g.root, g.o, g.s, val, val.g


class GG:
    def __init__(self, m):
        self.val = m.v


@contract("memory", "root_memory__populate")
def mem_populate(S, a):
    def loaded(g):
        have, b = memstate(g, a)
        es = g.val.full(("app", "entries", g.root.I.reify(g.s.st, a.p)))
        m = Mem(g, have)
        before = Mem(g, b)
        part = lambda e, *i: fldpath(g, e, i)
        keys = {part(e, 0) for e in es}
        for e in es:
            k, l, r = part(e, 0), part(e, 1, 0), part(e, 1, 1)
            got = entry(m, have, k)
            if got is None:
                return "a proof's node is missing afterwards"
            if got[0] != ("agg", 1, (("agg", 0, (l, r)),)):
                return f"a proof's node has children {got[0]}"
            if got[1] != ("agg", 0, ()) and got[1][0] == "agg":
                return "a proof's node is counted, so releasing it would delete it"
            for x in (l, r):
                if not g.val.has(have, x):
                    return "the child of a proof's node is missing afterwards"
                if x in keys:
                    continue
                was, now = before.get(x), entry(m, have, x)
                if was is None and now[1][0] == "agg" and now[1][1] == 1:
                    return "a leaf of the proof is counted, so releasing it would delete it"
                if was is not None and now[0][0] == "agg" and now[0][1] == 0 and before.known(was[0]) is not None:
                    return "a node already stored loses its children to a leaf of the proof"
        return None

    def at(g):
        p = loaded(g)
        if p is not None:
            return p
        es = g.val.full(("app", "entries", g.root.I.reify(g.s.st, a.p)))
        # proofs of more than one level: one entry's node is a child of another's
        for i, j in ((0, 1), (1, 0), (1, 2), (2, 1), (0, 2)):
            if max(i, j) < len(es):
                for side in (0, 1):
                    k = ("fld", es[i], 0, 0)
                    c = ("fld", ("fld", es[j], 0, 1), 0, side)
                    p = loaded(JG(g, g.val.joined({c: k})))
                    if p is not None:
                        return p
        return None
    return dict(at=at)
