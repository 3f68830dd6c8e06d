"""Contracts of the raw tree, the backends and the proof types."""
import terms as T
from terms import C as K, add, sub
from contract import contract, fld, E, CORRUPTED, OVERFLOW, INVALID, BACKEND
from contracts_core import both, mod_of, rawroot, DEF, UNIT, release
from spec import ok, err, some, NONE, Skip
import ground
from ground import tget, tH, Unknown
import interp as IM

E0 = ("E", 0)
OKU = ("agg", 0, (("agg", 0, ()),))


def bits(i):
    return [int(c) for c in bin(i)[3:]]


# ---- Raw: walking a path of left / right choices
def walk(v, root, i):
    """-> (node or None, nodes looked up)"""
    cur, seen = root, []
    for b in bits(i):
        seen.append(cur)
        if not v.present(cur):
            return None, seen
        cur = tget(cur, 2 + b)
    return cur, seen


def write(v, root, i, val):
    """-> (new root, [(key, (left, right))] from the bottom up)"""
    bs = bits(i)
    if not bs:
        return val, []
    cur, pairs = root, []
    for n, b in enumerate(bs):
        if cur is not None and v.present(cur):
            pairs.append((b, tget(cur, 2), tget(cur, 3)))
            cur = tget(cur, 2 + b)
        else:
            pairs.append((b, E0, E0))
            cur = None
    out = []
    up = val
    for b, l, r in reversed(pairs):
        l, r = (up, r) if b == 0 else (l, up)
        k = ("H", l, r)
        out.append((k, ("agg", 0, (l, r))))
        up = k
    return up, out


def raw_index(S, a):
    i = fld(a.i, 0)
    if S.test(T.eqi(i, K(0))):
        raise Skip()
    return i


@contract("navigate", *both("root_raw__get"))
def raw_get(S, a):
    i, r = raw_index(S, a), rawroot(a, a.s)

    def at(g):
        node, _ = walk(g.val, g.g(r), g.int(i))
        w = ("agg", 0, (("agg", 0, ()) if node is None else ("agg", 1, (node,)),))
        return g.same("result", g.res(), w)
    return dict(final={"s": a.s}, at=at)


@contract("navigate", *both("root_raw__subtree"))
def raw_subtree(S, a):
    i, r = raw_index(S, a), rawroot(a, a.s)
    rd = a.root.views.raw("dangling")

    def at(g):
        node, _ = walk(g.val, g.g(r), g.int(i))
        have = g.res()
        if node is None:
            return g.same("result", have, ("agg", 1, (("agg", CORRUPTED, ()),)))
        if have[0] != "agg" or have[1] != 0:
            return "subtree fails although every node on the way is there"
        return g.same("root of the subtree", g.g(rd(fld(g.rest, 0))), node)
    return dict(final={"s": a.s}, at=at)


def norm_h(t):
    """H applied to both children of a node is that node"""
    if isinstance(t, tuple):
        t = tuple(norm_h(x) for x in t)
        if t and t[0] == "H" and len(t) == 3:
            return tH(t[1], t[2])
    return t


WRITES = ("insert", "rootify", "unrootify")


@contract("navigate", *both("root_raw__set"))
def raw_set(S, a):
    i, r = raw_index(S, a), rawroot(a, a.s)
    rd = a.root.views.raw(mod_of(a))
    n = a.root.I

    def at(g):
        old, val = g.g(r), g.g(a.v)
        new, ins = write(g.val, old, g.int(i), val)
        p = g.same("result", g.res(), OKU)
        if p:
            return p
        p = g.same("root after set", norm_h(g.g(rd(g.root.final(g.o, g.root.args["s"])))), norm_h(new))
        if p:
            return p
        w = [(k, c) for k, c, out, _ in g.calls() if k in WRITES]
        roots = [(k, c) for k, c in w if k != "insert"]
        want = [("rootify", (new,)), ("unrootify", (old,))] if mod_of(a) == "owned" else []
        if norm_h(roots) != norm_h(want):
            return f"root marks {show(roots)} where {show(want)} are required"
        have = {c[0]: c[1] for k, c in w if k == "insert"}
        for k, c in ins:
            if norm_h(k) not in norm_h(tuple(have)) and norm_h(k)[0] == "H":
                return f"node {show(k)} of the new path is never inserted"
        if want and ins:
            last = max((n for n, (k, c) in enumerate(w) if k == "insert"), default=-1)
            if last > w.index(roots[0]):
                return "nodes inserted after the new root was marked"
        # children first: a node may only be inserted once its own children are
        done = set()
        keys = {c[0] for k, c in w if k == "insert"}
        for k, c in w:
            if k == "insert":
                for x in c[1][2] if c[1][0] == "agg" else ():
                    if x in keys and x not in done and x != c[0]:
                        return f"{show(c[0])} inserted before its child {show(x)}"
                done.add(c[0])
        return None
    return dict(at=at)


def show(x):
    import spec
    return spec.show_g(x)[:300]


# ---- in-memory backend
def mapfield(a, n="db"):
    """the node map of the backend value"""
    I = a.root.I
    t = I.F.types
    for ty in t:
        if ty["k"] == "adt" and ty["path"] == "bm::InMemoryBackend" and ty.get("variants"):
            fs = ty["variants"][0]["fields"]
            for i, (_, ti) in enumerate(fs):
                if t[ti]["k"] == "adt" and t[ti]["path"].split("::")[-1] in ("HashMap", "BTreeMap"):
                    return i
    raise KeyError("node map")


def memstate(g, a):
    i = mapfield(a)
    m = g.g(fld(g.root.final(g.o, g.root.args["db"]), i))
    b = g.g(fld(a.db, i))
    return m, b


NEW1 = ("agg", 0, (("agg", 0, ()), ("agg", 1, (("i", 1),))))


class Mem:
    """A node map at a valuation: (children, count) entries over an unknown base."""

    def __init__(self, g, base):
        self.v, self.base, self.d = g.val, base, {}

    def get(self, k):
        if k in self.d:
            return self.d[k]
        if not self.v.has(self.base, k):
            return None
        e = ("mapget", self.base, k)
        return (("fld", e, 0, 0), ("fld", e, 0, 1))

    def known(self, t):
        """variant of an optional part: None, or its payload"""
        if t[0] == "agg":
            return t[2][0] if t[1] == 1 else None
        k = self.vknown(t)
        return ("fld", t, 1, 0) if k else None

    def vknown(self, t):
        for x, n in self.v.known.items():
            if self.v.g(x) == t:
                return n
        return None if ("variant", t) not in self.v.m else self.v.m["variant", t] % 2

    def state(self):
        es = []
        for k, e in self.d.items():
            es.append((k, ("absent",) if e is None else ("agg", 0, e)))
        return ("map", self.base, tuple(sorted(es, key=repr)))


def bump(m, k):
    e = m.get(k)
    if e is None:
        m.d[k] = (("agg", 0, ()), ("agg", 1, (("i", 1),)))
        return
    n = count(m, e)
    if n is not None:
        m.d[k] = (e[0], ("agg", 1, (("i", n + 1),)))


def count(m, e):
    c = e[1]
    if c[0] == "agg":
        return c[2][0][1] if c[1] == 1 else None
    k = m.vknown(c)
    if k is None:
        raise Unknown("count")
    if k == 0:
        return None
    return m.v.leaf(("fld", c, 1, 0))


def children(m, e):
    c = e[0]
    if c[0] == "agg":
        return c[2][0] if c[1] == 1 else None
    k = m.vknown(c)
    if k is None:
        raise Unknown("children")
    return ("fld", c, 1, 0) if k else None


@contract("memory", "root_memory__rootify")
def memory_rootify(S, a):
    def at(g):
        have, b = memstate(g, a)
        m = Mem(g, b)
        bump(m, g.g(a.k))
        return g.same("result", g.res(), OKU) or g.same("node map", have, m.state())
    return dict(at=at)


@contract("memory", "root_memory__insert")
def memory_insert(S, a):
    def at(g):
        have, b = memstate(g, a)
        m = Mem(g, b)
        k, l, r = g.g(a.k), g.g(fld(a.v, 0)), g.g(fld(a.v, 1))
        if k in (l, r):
            return None                     # a node never is its own child
        e = m.get(k)
        if e is None:
            bump(m, l)
            bump(m, r)
            m.d[k] = (("agg", 1, (("agg", 0, (l, r)),)), ("agg", 1, (("i", 0),)))
        else:
            c = e[0]
            if c[0] != "agg" and m.vknown(c) is None:
                # whether the entry already has children is not looked at: it must have been
                return "a node known so far only as a child stays without children when it is inserted"
            if children(m, e) is None:
                bump(m, l)
                bump(m, r)
                m.d[k] = (("agg", 1, (("agg", 0, (l, r)),)), e[1])
        return g.same("result", g.res(), OKU) or g.same("node map", have, m.state())
    return dict(at=at)


@contract("memory", "root_memory__unrootify")
def memory_unrootify(S, a):
    m, k0 = fld(a.db, mapfield(a)), a.k
    if S.test(("has", m, k0)):
        c = fld(("mapget", m, k0), 1)
        if S.variant(c, 2, (0, 1)) == 1 and S.test(T.eqi(fld(c, (1, 0)), K(0))):
            raise Skip()                    # released more often than marked

    def at(g):
        have, b = memstate(g, a)
        m = Mem(g, b)
        k = g.g(a.k)
        e = m.get(k)
        recs = [c for c in g.calls() if c[0].startswith("rec:")]
        p = g.same("result", g.res(), OKU)
        if p:
            return p
        n = None if e is None else count(m, e)
        if n == 0:
            return None                     # releasing more often than marking is outside the contract
        if n is None or n > 1:
            if recs:
                return "children released although the node stays"
            if n is not None:
                m.d[k] = (e[0], ("agg", 1, (("i", n - 1),)))
            return g.same("node map", have, m.state())
        ch = children(m, e)
        kids = [] if ch is None else [("fld", ch, 0, 0), ("fld", ch, 0, 1)]
        if not recs and not kids:
            m.d[k] = None
            return g.same("node map", have, m.state())
        got = [c[1][-1] for c in recs]
        if sorted(got, key=repr) != sorted(kids, key=repr):
            return f"releases {show(tuple(got))} where the children {show(tuple(kids))} are required"
        # only this node changes beside what the recursive releases do
        i = mapfield(a)
        prev = lambda m: m == b
        released = lambda m: m[0] == "fld" and m[3] == i and m[1][0] == "fld" and m[1][2] == 9 and m[1][1][0] == "ret"
        gone = False
        for c in recs:
            st = c[1][0]
            mp = st[2][i] if st[0] == "agg" else ("fld", st, 0, i)
            base, es = (mp[1], dict(mp[2])) if mp[0] == "map" else (mp, {})
            if not prev(base) or set(es) - {k}:
                raise Unknown("state between releases")
            gone |= es.get(k) == ("absent",)
            prev = released
        hb, es = (have[1], dict(have[2])) if have[0] == "map" else (have, {})
        if not prev(hb):
            raise Unknown("state after releases")
        if set(es) - {k}:
            return "another entry of the node map changes"
        if es.get(k) == ("absent",):
            return None
        if es:
            return "a node nobody refers to stays in the map"
        if gone or not g.val.has(hb, k):
            return None
        return "a node nobody refers to stays in the map"
    return dict(at=at)


@contract("memory", "root_memory__get")
def memory_get(S, a):
    def at(g):
        have, b = memstate(g, a)
        m = Mem(g, b)
        e = m.get(g.g(a.k))
        w = ("agg", 0, ()) if e is None else e[0]
        return g.same("result", g.res(), ("agg", 0, (w,))) or g.same("node map", have, m.state())
    return dict(at=at)


@contract("memory", "root_memory__default")
def memory_default(S, a):
    i = None

    def at(g):
        i = mapfield(a)
        b = ("app", "emptymap")
        w = ("map", b, ((E0, ("agg", 0, (("agg", 0, ()), ("agg", 0, ())))),))
        return g.same("node map", g.g(fld(g.rest, i)), w)
    return dict(at=at)


# ---- noop and type-erased backends
@contract("wrap", "root_noop__rootify", "root_noop__unrootify", "root_noop__insert")
def noop_write(S, a):
    return dict(result=ok(UNIT), events=[])


@contract("wrap", "root_noop__get")
def noop_get(S, a):
    def at(g):
        r = g.res()
        return None if r[0] == "agg" and r[1] == 1 else "a backend that stores nothing answers a lookup"
    return dict(at=at)


def found(k):
    return ok(some(("agg", 0, (("app", "L", k), ("app", "R", k)))))


@contract("wrap", "root_dyn__get")
def dyn_get(S, a):
    k = S.test(("present", a.k))
    return dict(result=found(a.k) if k else ok(NONE), events=[], check=once("get", (a.k,)))


def once(kind, args):
    """Exactly one call of `kind`, with these arguments."""
    def f(o, s, res):
        h = [e for e in o.st.events if e.kind == kind]
        if len(h) != 1:
            return f"{len(h)} calls of {kind} on the wrapped backend", ""
        if tuple(s.I.reify(s.st, x) for x in h[0].args) != tuple(s.I.reify(s.st, x) for x in args):
            return ("other arguments are passed to " + kind, "")
        return None
    return f


@contract("wrap", "root_dyn__rootify", "root_dyn__unrootify", "root_proving__rootify", "root_proving__unrootify")
def wrap_mark(S, a):
    kind = a.root.name.split("__")[-1]
    return dict(result=ok(UNIT), events=[(kind, (a.k,))], final={"db": a.db} if "proving" in a.root.name else {})


@contract("wrap", "root_dyn__insert")
def dyn_insert(S, a):
    return dict(result=ok(UNIT), check=once("insert", (a.k, a.v)))


# ---- proof recording
def pfields(a):
    """paths of (proofs, inserts) inside the recording backend, by field name and type"""
    I = a.root.I
    t = I.F.types
    st = pf = inn = None
    for ty in t:
        if ty["k"] == "adt" and ty["path"] == "bm::ProvingBackend" and ty.get("variants"):
            for i, (_, ti) in enumerate(ty["variants"][0]["fields"]):
                if t[ti]["k"] == "adt" and t[ti]["path"] == "bm::ProvingState":
                    st = i
        if ty["k"] == "adt" and ty["path"] == "bm::ProvingState" and ty.get("variants"):
            for i, (n, ti) in enumerate(ty["variants"][0]["fields"]):
                if n == "proofs":
                    pf = i
                if n == "inserts":
                    inn = i
    if None in (st, pf, inn):
        raise KeyError("proving state")
    return (st, pf), (st, inn)


def pstate(g, a):
    p, i = pfields(a)
    f = g.root.final(g.o, g.root.args["db"])
    return g.g(fld(f, *p)), g.g(fld(f, *i)), g.g(fld(a.db, *p)), g.g(fld(a.db, *i))


def mput(m, k, v):
    b, es = (m[1], dict(m[2])) if m[0] == "map" else (m, {})
    es[k] = v
    return ("map", b, tuple(sorted(es.items(), key=repr)))


@contract("proving", "root_proving__get")
def proving_get(S, a):
    def at(g):
        p, i, p0, i0 = pstate(g, a)
        k = g.g(a.k)
        gets = [c for c in g.calls() if c[0] == "get"]
        if not gets or gets[0][1] != (k,):
            return "the wrapped backend is not asked for the node"
        if g.val.present(k):
            v = ("agg", 0, (tget(k, 2), tget(k, 3)))
            want = p0 if g.val.has(i0, k) else mput(p0, k, v)
            r = ("agg", 0, (("agg", 1, (v,)),))
        else:
            want, r = p0, ("agg", 0, (("agg", 0, ()),))
        return g.same("result", g.res(), r) or g.same("recorded proof", p, want) or g.same("recorded inserts", i, i0)
    return dict(at=at, events=[])


@contract("proving", "root_proving__insert")
def proving_insert(S, a):
    def at(g):
        p, i, p0, i0 = pstate(g, a)
        k = g.g(a.k)
        return g.same("result", g.res(), OKU) or g.same("recorded proof", p, p0) or g.same("recorded inserts", i, mput(i0, k, ("agg", 0, ())))
    return dict(at=at, check=once("insert", (a.k, a.v)))


@contract("proving", "root_proving__new")
def proving_new(S, a):
    p, i = pfields(a)
    return dict(rview=[("proofs", lambda r: fld(r, *p), ("app", "emptymap")), ("inserts", lambda r: fld(r, *i), ("app", "emptymap"))])


@contract("proving", "root_proving__from_state")
def proving_from(S, a):
    p, i = pfields(a)
    return dict(rview=[("proofs", lambda r: fld(r, *p), fld(a.s, p[1])), ("inserts", lambda r: fld(r, *i), fld(a.s, i[1]))])


@contract("proving", "root_proving__into_state")
def proving_into(S, a):
    p, i = pfields(a)
    return dict(rview=[("proofs", lambda r: fld(r, p[1]), fld(a.p, *p)), ("inserts", lambda r: fld(r, i[1]), fld(a.p, *i))])


def proofs_map(r):
    return fld(r, 0)


@contract("proving", "root_proving__state_into_proofs")
def state_proofs(S, a):
    p, i = pfields(a)
    return dict(rview=[("proofs", proofs_map, fld(a.s, p[1]))])


@contract("proving", "root_proving__into_proofs")
def into_proofs(S, a):
    p, i = pfields(a)
    return dict(rview=[("proofs", proofs_map, fld(a.p, *p))])


@contract("proving", "root_proofs__into_map")
def proofs_into_map(S, a):
    return dict(result=fld(a.p, 0))


# ---- compact proofs
def kids(c):
    """the two halves of a combined compact value"""
    return fld(c, (1, 0), 0), fld(c, (1, 0), 1)


def rec(g, arg, name=None):
    """result of the recursive call on `arg` (ground), and the function called"""
    for k, c, out, e in g.calls():
        if k.startswith("rec:") and arg in c:
            return g.g(e.res), k
    raise Unknown("no recursive call on a part")


@contract("compact", "root_compact__len")
def compact_len(S, a):
    if S.variant(a.c, 2, (1, 1)) == 0:
        return dict(result=K(1))
    l, r = kids(a.c)

    def at(g):
        x, y = rec(g, g.g(l))[0], rec(g, g.g(r))[0]
        return g.same("length", ("i", g.int(g.rest)), ("i", g.val.leaf(x) + g.val.leaf(y)))
    return dict(at=at)


def hash_of(g, l, r):
    x, y = rec(g, g.g(l)), rec(g, g.g(r))
    if not x[1].endswith("::fold") or x[1] != y[1]:
        raise Unknown("recursion through another function")
    return x[0], y[0], ("H", ("fld", x[0], 0, 1), ("fld", y[0], 0, 1))


@contract("compact", "root_compact__fold")
def compact_fold(S, a):
    if S.variant(a.c, 2, (1, 1)) == 0:
        return dict(result=("agg", 0, (("app", "default:AnyMeta"), fld(a.c, (0, 0)))))
    l, r = kids(a.c)

    def at(g):
        x, y, h = hash_of(g, l, r)
        return g.same("result", g.res(), ("agg", 0, (("app", "fold_fn", h, x, y), h)))
    return dict(at=at)


@contract("compact", "root_compact__root")
def compact_root(S, a):
    if S.variant(a.c, 2, (1, 1)) == 0:
        return dict(result=fld(a.c, (0, 0)))
    l, r = kids(a.c)

    def at(g):
        return g.same("root", g.res(), hash_of(g, l, r)[2])
    return dict(at=at)


@contract("compact", "root_compact__default")
def compact_default(S, a):
    return dict(result=("agg", 0, (DEF,)))


@contract("compact", "root_proofs__into_compact")
def into_compact(S, a):
    m = fld(a.p, 0)

    def at(g):
        b, k = g.g(m), g.g(a.r)
        if not g.val.has(b, k):
            return g.same("result", g.res(), ("agg", 0, (k,)))
        e = ("mapget", m, a.r)
        if g.res() == ("agg", 0, (k,)):
            return "an opened node is left as a single value"
        x, y = rec(g, g.g(fld(e, 0)))[0], rec(g, g.g(fld(e, 1)))[0]
        return g.same("result", g.res(), ("agg", 1, (("agg", 0, (x, y)),)))
    return dict(at=at)


@contract("compact", "root_proofs__from_compact")
def from_compact(S, a):
    def at(g):
        if g.val.variant(a.c) == 0:
            return g.same("result", g.res(), ("agg", 0, (("agg", 0, (("app", "emptymap"),)), g.g(fld(a.c, (0, 0))))))
        l, r = kids(a.c)
        x, y, h = hash_of(g, l, r)
        p = g.same("root", g.g(fld(g.rest, 1)), h)
        if p:
            return p
        m = g.g(fld(g.rest, 0, 0))
        if m[0] != "map":
            raise Unknown("proof map")
        v = ("agg", 0, (("fld", x, 0, 1), ("fld", y, 0, 1)))
        if dict(m[2]) != {h: v}:
            return f"entries {show(m[2])} where {show(((h, v),))} is required"
        parts = {("fld", ("fld", x, 0, 0), 0, 0), ("fld", ("fld", y, 0, 0), 0, 0)}
        if m[1][0] == "app" and m[1][1] == "mext":
            if set(m[1][2:]) != parts:
                return "the proofs of one half are missing"
            return None
        raise Unknown("proof map")
    S.variant(a.c, 2, (1, 1))
    return dict(at=at)
