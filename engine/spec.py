"""Lockstep of a path summary with the contract of its operation.

A contract is a function that says, for given arguments, what an operation must return and
leave behind.  Wherever the contract distinguishes cases it asks S.test(cond); the answer is
taken from the facts of the code path under comparison, and both cases are followed when the
path does not settle it (the code path then covers both, and must be right in both)."""
import random
import terms as T
from terms import C as K
import ground
import interp as interp_mod

NONE = ("agg", 0, ())


def ok(v):
    return ("agg", 0, (v,))


def err(e):
    return ("agg", 1, (e,))


def some(v):
    return ("agg", 1, (v,))


class Infeasible(Exception):
    pass


class Skip(Exception):
    """The contract leaves this case open."""


class S:
    def __init__(self, I, st, plan):
        self.I = I
        self.st = st
        self.plan = plan
        self.pos = 0
        self.conds = []
        self.more = []
        self.writes = []

    def test(self, c):
        d = self.I.decide(self.st, c)
        if d is not None:
            return d == T.TRUE
        if self.pos < len(self.plan):
            v = self.plan[self.pos]
        else:
            v = True
            self.more.append(self.plan[:self.pos] + [False])
            self.plan = self.plan + [True]
        self.pos += 1
        cc = c if v else T.neg(c)
        if not self.I.assume(self.st, cc):
            raise Infeasible()
        self.conds.append(cc)
        return v

    def variant(self, v, n, arities):
        """index of the variant of enum value v (n variants)"""
        if v[0] == "agg":
            return v[1]
        k = self.st.known.get(v)
        if k:
            return k[0]
        for i in range(n - 1):
            if self.test(("isd", v, i, n, tuple(arities))):
                return i
        return n - 1

    def option(self, v):
        """None or the payload of Option value v"""
        k = self.variant(v, 2, (0, 1))
        if k == 0:
            return None
        return v[2][0] if v[0] == "agg" else ("fld", v, 1, 0)

    def assume(self, c):
        if not self.I.assume(self.st, c):
            raise Infeasible()
        self.conds.append(c)

    def get(self, r, i):
        """node at position i of tree r, or None when the backend does not hold it"""
        from layers import get_root
        if i == K(1):
            return r
        if r[0] == "app" and r[1] == "set" and r[3] == i:
            return r[4]
        if not self.test(("present", r, i)):
            return None
        return get_root(self.I, r, i)

    def write(self, kind, *args):
        self.writes.append((kind, args))


def cases(I, st, fn):
    """Run the contract over all its cases compatible with st -> [(S, outcome)]"""
    work = [[]]
    res = []
    while work:
        plan = work.pop()
        s = S(I, st.copy(), plan)
        try:
            r = fn(s)
            res.append((s, r))
        except Infeasible:
            pass
        except Skip:
            res.append((s, None))
        work.extend(s.more)
        if len(res) > 256:
            raise interp_mod.Limit("contract cases")
    return res


def merge_known(st):
    return {v: k[0] for v, k in st.known.items()}


def same_of(st):
    m = {}
    for c, v in st.atoms.items():
        if v and c[0] == "eq":
            a, b = c[1], c[2]
            if a[0] in ("c", "lin") or a[0] == "app" and (a[1].startswith("default:") or a[1] == "E") or a in m:
                a, b = b, a
            if a != b and not T.contains(b, lambda t: t == a):
                m.setdefault(a, b)
    return m


class Verdict:
    def __init__(self, kind, what="", wit=None):
        self.kind = kind            # EQ (proved), SAMP (agrees wherever compared), NE, UNK
        self.what = what
        self.wit = wit


TRIES = 2500


def conditions(st):
    return [c for c in st.path] + [("ge0", f) if f[0] != "c" else T.ge0(f) for f in ()]


def lenidx(I):
    for p, h in (("PackedVector::get", "PackedVector"), ("Vector::get", "Vector")):
        if p in I.prims:
            import layers
            try:
                return layers.field(I, "bm::" + h, lambda t: t.get("s") == "usize")[2]
            except KeyError:
                return None
    return None


def handles(I):
    """Reader of elements through a handle whose parts are known, for code above the handles"""
    if "vector_tree" not in I.prims:
        return None
    import layers
    c = I.F.__dict__.setdefault("_handles", {})
    if "h" not in c:
        try:
            c["h"] = [layers.handle_parts(I, "Vector", "Raw"), layers.handle_parts(I, "PackedVector", "Vector"), layers.raw_field(I)]
        except KeyError:
            c["h"] = None
    H = c["h"]
    if H is None:
        return None
    vec, pak, rawf = H

    def fld(g, s):
        return g[2][s[2]] if g[0] == "agg" and len(g[2]) == s[3] else None

    def read(val, g, k):
        packed = g[0] == "agg" and len(g[2]) == pak[0][3] and fld(fld(g, pak[0]) or ("",), vec[0]) is not None
        v = fld(g, pak[0]) if packed else g
        if v is None or v[0] != "agg" or len(v[2]) != vec[0][3]:
            return None
        raw = fld(v, vec[0])
        root = fld(raw, rawf) if raw is not None else None
        ln, mx = fld(v, vec[1]), fld(v, vec[2])
        if root is None or ln is None or mx is None:
            return None
        num = lambda x: x[1] if x[0] == "i" else val.leaf(x)
        n = num(ln)
        if mx[0] == "agg":
            cap = num(mx[2][0]) if mx[1] == 1 else n
        else:
            cap = num(("fld", mx, 1, 0)) if val.variant(mx) == 1 else n
        d = 0 if cap <= 1 else (cap - 1).bit_length()
        if packed:
            pn = fld(g, pak[1])
            if k >= num(pn):
                return ("app", "oob")
            ws = I.__dict__.get("packed_w", ())
            w = next(iter(ws)) if len(ws) == 1 else None
            if w is None or 32 % w or (w * k) // 32 >= n:
                return ("app", "pelem", root, d, n, ("i", k))
            b = ground.node_bytes(ground.tget(root, (1 << d) + (w * k) // 32))
            return ("list", tuple(b[(w * k) % 32:][:w]))
        if k >= n:
            return ("app", "oob")
        return ground.tget(root, (1 << d) + k)
    return read


def valuations(I, st, conds, limit, terms=(), tries=TRIES, pool=ground.POOL, through=True):
    """Valuations of the leaves of a path at which every condition of the path holds
    (through: and its loops end the way the path says)."""
    rng = random.Random(12345)
    known, same = merge_known(st), same_of(st)
    loops = ground.collect_loops(st.events)
    recs = ground.collect_recs(st.events)
    n = 0
    hs = handles(I)
    left = tries
    while left > 0:
        v = ground.Val(rng, known, same, I.lens, pool, loops, recs, lenidx(I), hs)
        try:
            if all(v.bool(c) for c in conds) and (not through or v.loops_ok(st.events)):
                n += 1
                yield v
                if n >= limit:
                    return
        except ground.Unknown:
            v.bad = True
        if not v.m:             # nothing was chosen: every other try is the same
            return
        left -= 1 if len(v.m) < 100 else 25     # long sequences cost more and vary less


EDGE_TRIES, EDGE_LIMIT = 160, 16


def edges(st, conds, terms):
    """Values next to the constants of a path (limits, word sizes, shift widths): where an
    expression that agrees with the required one on small values may leave it."""
    cs, bits = set(), set()

    def scan(t):
        if not isinstance(t, tuple) or not t:
            return
        stack = [t]
        n = 0
        while stack and n < 20000:
            x = stack.pop()
            n += 1
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == "c" and len(x) == 2 and isinstance(x[1], int):
                cs.add(abs(x[1]))
                continue
            if x[0] == "trunc":
                bits.add(x[1])
            if x[0] == "lin":
                cs.add(abs(x[1]))
            stack.extend(y for y in x if isinstance(y, tuple))
    for t in terms:
        scan(t)
    for c in conds:
        scan(c)
    for e in st.events:
        for a in e.args:
            scan(a)
    out = set()
    for c in cs:
        if 33 < c <= 1 << 40:
            out |= {c - 1, c, c + 1}
    for b in {c for c in cs if 6 <= c <= 31 and c % 8} | {b for b in bits if b <= 40}:
        out |= {(1 << b) - 1, 1 << b, (1 << b) + 1, 2 << b}
    return sorted(out)


def never(I, st, conds):
    """A condition of the path, or the number of iterations of a loop, fails whatever the leaves are"""
    v = ground.Val(random.Random(1), merge_known(st), same_of(st), I.lens, ground.POOL, ground.collect_loops(st.events),
                   ground.collect_recs(st.events), lenidx(I), handles(I))
    try:
        return not (all(v.bool(c) for c in conds) and v.loops_ok(st.events)) and not v.m
    except ground.Unknown:
        return False


def beyond(I, st, conds, terms, through=True):
    """Valuations with some leaves next to the constants of the path"""
    es = edges(st, conds, terms)
    if not es:
        return
    # half of the leaves from the edges
    k = max(1, -(-len(ground.POOL) // len(es)))
    yield from valuations(I, st, conds, EDGE_LIMIT, tries=EDGE_TRIES, pool=ground.POOL + es * k, through=through)


def taken(I, st, conds, through=True):
    """A valuation at which a path is taken: small values first, then those next to its constants"""
    for v in valuations(I, st, conds, 1, through=through):
        return v
    for v in beyond(I, st, conds, [], through):
        return v
    return None


def blocked(I, st, conds):
    """A condition that cannot be read at any valuation"""
    rng = random.Random(1)
    known, same = merge_known(st), same_of(st)
    loops = ground.collect_loops(st.events)
    recs = ground.collect_recs(st.events)
    hs = handles(I)
    read, stuck = set(), set()
    for _ in range(60):
        v = ground.Val(rng, known, same, I.lens, ground.POOL, loops, recs, lenidx(I), hs)
        for n, c in enumerate(conds):
            try:
                t = v.bool(c)
            except ground.NoExit:
                break
            except ground.Unknown:
                stuck.add(n)
                continue
            read.add(n)
            if not t:       # a later condition only has a meaning where this one holds
                break
    for n in sorted(stuck - read):
        return conds[n]
    return None


def written(terms):
    """(width, integer) of the integers written out as bytes"""
    out = {}
    seen = set()
    stack = list(terms)
    while stack and len(seen) < 20000:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(x) == 3 and x[0] in ("le", "be") and isinstance(x[1], int):
            out[x[2]] = min(x[1], out.get(x[2], x[1]))
        stack.extend(y for y in x if isinstance(y, tuple))
    return [(w, x) for x, w in out.items()]


def differ(I, st, conds, pairs, limit=24):
    """Compare [(name, code, spec)] -> Verdict"""
    todo = [(n, a, b) for n, a, b in pairs if a != b]
    if not todo:
        return Verdict("EQ")
    todo = [(n, a, b) for n, a, b in todo if I.decide(st, T.eqv(a, b)) != T.TRUE]
    if not todo:
        return Verdict("EQ")
    b = blocked(I, st, conds)
    if b is not None:
        return Verdict("UNK", "path condition not readable: " + T.show(b)[:160])
    seen = 0
    unk = None
    les = written([x for p in todo for x in p[1:]])
    for v in valuations(I, st, conds, limit):
        seen += 1
        v.widths(les)
        for n, a, b in todo:
            try:
                ga, gb = v.g(a), v.g(b)
                r = ground.compare(ga, gb, v)
            except ground.Unknown as e:
                r = ground.UNK
                unk = f"{n}: {e}"
            if r == ground.NE:
                return Verdict("NE", n, v)
            if r == ground.UNK:
                unk = unk or n
    for v in beyond(I, st, conds, [x for p in todo for x in p[1:]]):
        v.widths(les)
        for n, a, b in todo:
            try:
                if ground.compare(v.g(a), v.g(b), v) == ground.NE:
                    return Verdict("NE", n, v)
            except ground.Unknown:
                pass
    if not seen and never(I, st, conds):
        return Verdict("EQ")
    if not seen:
        return Verdict("UNK", "no valuation satisfies the path")
    if unk:
        return Verdict("UNK", unk)
    return Verdict("SAMP", f"{seen} valuations")


def wit_text(v):
    return ", ".join(f"{show_g(k)}={x}" for k, x in sorted(v.m.items(), key=lambda kv: repr(kv[0])) )[:400]


def show_g(k):
    if isinstance(k, tuple) and k and k[0] == "fld":
        return show_g(k[1]) + "." + (f"v{k[2]}." if k[2] else "") + str(k[3])
    if isinstance(k, tuple) and k and k[0] == "sym":
        return str(k[1])
    if isinstance(k, tuple) and k and k[0] == "i":
        return str(k[1])
    if isinstance(k, tuple):
        return "(" + " ".join(show_g(x) for x in k) + ")"
    return str(k)
