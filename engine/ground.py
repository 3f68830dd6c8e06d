"""Comparison of value numbers.

Two value numbers with the same canonical form are equal for every input.  When the forms
differ, the difference is only believed after both have been read at a common valuation of
their integer leaves that satisfies every condition of the path (opaque operations stay free
constructors): `eq` answers EQ, NE or UNK at such a valuation.  This is a filter on reports --
it can only turn a report into silence, never silence into a proof.
"""
import copy
import random
from fractions import Fraction
import terms as T

EQ, NE, UNK = "EQ", "NE", "UNK"
MAXLEN = 1 << 13


class Unknown(Exception):
    pass


class NoExit(Unknown):
    """The loop is not left at this valuation the way the path says"""


ARITH = {"lin", "mul", "div", "mod", "pow2", "shr", "bitand", "bitor", "clog2", "int_le", "int_be", "len", "least", "trunc", "bitxor", "b2i"}
ARITHAPP = {"isub", "tz", "min", "max", "bits", "ilog2", "satsub", "len", "lenof", "usize", "div0"}
BOOLS = {"ge0", "eq0", "not", "and", "isd", "eq", "present", "is", "isnot", "has", "hasitem", "deq", "iff"}
DEAD = {"unk", "undef", "L", "D", "ptr", "box", "boxraw", "cmp"}
# values the engine does not model: nothing is known of them, not even that they are free
DEADAPP = {"rvalue", "ptreq", "promoted", "meta", "const", "bitnot", "inert", "maplen", "Offset", "repeat?"}

POOL = [0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8, 8, 9, 10, 12, 13, 15, 16, 17, 20, 31, 32, 33]


class Val:
    """One valuation of the free leaves of a path."""

    def __init__(self, rng, known=(), same=(), lens=(), pool=POOL, loops=None, recs=None, lenidx=None, handles=None):
        self.handles = handles  # reads an element of a concrete handle
        self.lens = dict(lens)
        self.loops = loops or {}
        self.recs = recs or {}  # results of self-recursive pure calls
        self.env = {}           # loop cells and counters at the current point
        self.tabs = {}          # elements appended so far, per comprehension
        self.ltrace = {}        # calls made by a finished loop
        self.lenidx = lenidx    # where the handle under the layered operations keeps its length
        self.iters = ()         # iteration indices of the loops being read
        self.rng = rng
        self.m = {}
        # what the path says about a loop's cells holds where the loop is left, not in every
        # iteration: those terms are read, and the path's conditions on them checked
        cell = (lambda t: t[0] == "phi" and t[1] in self.loops) if self.loops else None
        seen = self.loops.setdefault(None, {}) if self.loops else {}
        self.loops = dict(self.loops)       # a loop inside a loop is bound anew in every iteration

        def looped(v):
            r = seen.get(v)
            if r is None:
                r = seen[v] = cell is not None and T.contains(v, cell)
            return r
        self.looped = looped
        self.known = {v: k for v, k in dict(known).items() if not looped(v)}
        self.same = {v: k for v, k in dict(same).items() if not looped(v)}
        self.pool = pool
        self.memo = {}
        self.width = {}
        self.alias = {}         # parts of opaque arguments taken to be the same thing

    def joined(self, alias):
        """The same valuation with some parts of opaque arguments taken to be one."""
        v = copy.copy(self)
        v.alias, v.memo, v.env, v.tabs, v.ltrace, v.m = dict(alias), {}, {}, {}, {}, dict(self.m)
        return v

    # ---- integers
    def leaf(self, k):
        if k not in self.m:
            r = self.rng
            if k[0] == "at" and r.random() < 0.4:
                self.m[k] = r.randrange(256)
            elif k[0] == "int" and r.random() < 0.15:
                top = 1 << (8 * len(k[1]))
                self.m[k] = r.choice((top - 1, top >> 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 3, (1 << 32) + 5, 1 << 200)) % top
            else:
                x = r.choice(self.pool)
                self.m[k] = x % 256 if k[0] == "at" else x % (1 << (8 * len(k[1]))) if k[0] == "int" else x
        return self.m[k]

    def frac(self, t):
        """A factor of a product that is whole altogether: 128 * 2^-k"""
        if t[0] == "pow2":
            n = self.int(t[1])
            if -4096 <= n < 0:
                return Fraction(1, 1 << -n)
        elif t[0] == "mul":
            return self.frac(t[1]) * self.frac(t[2])
        return self.int(t)

    def int(self, t):
        h = t[0]
        if h == "c":
            return t[1]
        if h == "lin":
            r = t[1]
            for k, v in t[2]:
                r += v * (self.frac(k) if k[0] in ("pow2", "mul") else self.int(k))
            if type(r) is not int:
                if r.denominator != 1:
                    raise Unknown("shift")
                r = r.numerator
            return r
        if h == "mul":
            return self.int(t[1]) * self.int(t[2])
        if h in ("div", "mod"):
            b = self.int(t[2])
            if b == 0:
                raise Unknown("division by zero")
            return self.int(t[1]) // b if h == "div" else self.int(t[1]) % b
        if h == "pow2":
            n = self.int(t[1])
            if not 0 <= n <= 4096:
                raise Unknown("shift")
            return 1 << n
        if h == "shr":
            n = self.int(t[2])
            if n < 0:
                raise Unknown("shift")
            return self.int(t[1]) >> min(n, 5000)
        if h in ("bitand", "bitor"):
            a, b = self.int(t[1]), self.int(t[2])
            if a < 0 or b < 0:
                raise Unknown("negative")
            return a & b if h == "bitand" else a | b
        if h == "clog2":
            x = self.int(t[1])
            return 0 if x <= 1 else (x - 1).bit_length()
        if h == "b2i":
            return 1 if self.bool(t[1]) else 0
        if h == "trunc":
            return self.int(t[2]) % (1 << t[1])
        if h == "bitxor":
            a, b = self.int(t[1]), self.int(t[2])
            if a < 0 or b < 0:
                raise Unknown("negative")
            return a ^ b
        if h == "app":
            f = t[1]
            if f == "tz":
                x = self.int(t[2])
                if x <= 0:
                    raise Unknown("tz")
                return (x & -x).bit_length() - 1
            if f == "min":
                return min(self.int(t[2]), self.int(t[3]))
            if f == "max":
                return max(self.int(t[2]), self.int(t[3]))
            if f == "isub":
                a, b = self.int(t[2]), self.int(t[3])
                if a < 1 or b < 1:
                    raise Unknown("index")
                d = b.bit_length() - 1
                return (a << d) + b - (1 << d)
            if f == "satsub":
                return max(0, self.int(t[2]) - self.int(t[3]))
            if f == "bits":
                return self.int(t[2]).bit_length()
            if f == "len":
                if self.lenidx is not None:
                    return self.statelen(self.g(t[2]))
        if h == "least":
            for n in range(700):
                try:
                    if self.bool(T.subst(t[1], {("bv", "n"): T.C(n)})):
                        return n
                except Unknown as e:
                    if str(e) == "index":       # past the end of what it reads
                        return n
                    raise
            raise NoExit("least")
        if h in BOOLS:
            return 1 if self.bool(t) else 0
        if h in ("int_le", "int_be"):
            bs = self.elems(t[1])
            if h == "int_be":
                bs = bs[::-1]
            if all(b[0] == "i" for b in bs):
                return sum(b[1] << (8 * i) for i, b in enumerate(bs))
            # bytes of one integer
            if bs and all(b[0] == "leb" and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
                return self.leaf(bs[0][1])
            if len(bs) == 1:
                return self.leaf(bs[0])
            while len(bs) > 1 and bs[-1] == ("i", 0):
                bs = bs[:-1]
            if all(b[0] == "leb" and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
                return self.leaf(bs[0][1]) % (1 << (8 * len(bs)))
            return self.frombytes(tuple(bs))
        if h == "len":
            g = self.gseq(t[1])
            if g is not None:
                return len(g)
            n = self.lens.get(t[1])
            if n is not None and n != t:
                return self.int(n)
            return self.leaf(("len", self.g(t[1])))
        if h in DEAD:
            raise Unknown(h)
        if h == "n":
            if t not in self.env:
                self.run_loop(t[1])
            return self.env[t]
        if h in ARITH or (h == "app" and t[1] in ARITHAPP):
            return self.leaf((h,) + tuple(self.g(x) if isinstance(x, tuple) else x for x in t[1:]))
        g = self.g(t)
        if g[0] == "i":
            return g[1]
        return self.leaf(g)

    def frombytes(self, bs):
        """The integer of some bytes; bytes nothing has chosen yet get the bytes of a chosen integer"""
        if not all(b[0] in ("i", "at", "leb") for b in bs):
            return self.leaf(("int", bs))
        free = [k for k, b in enumerate(bs) if b[0] == "at" and b not in self.m]
        if free:
            w = self.leaf(("int", bs)) if len(free) > 1 else 0
            for k in free:
                if len(free) > 1:
                    self.m[bs[k]] = w >> (8 * k) & 255
                else:
                    self.leaf(bs[k])
        byte = lambda b: b[1] if b[0] == "i" else self.m[b] if b[0] == "at" else self.leaf(b[1]) >> (8 * b[2])
        return sum((byte(b) & 255) << (8 * k) for k, b in enumerate(bs))

    def statelen(self, g):
        """Length of a (ground) handle after layered element operations."""
        if g[0] == "app" and g[1] == "vset":
            return self.statelen(g[2])
        if g[0] == "app" and g[1] == "push":
            return self.statelen(g[2]) + 1
        if g[0] == "app" and g[1] == "pop":
            return max(0, self.statelen(g[2]) - 1)
        if g[0] == "agg":
            x = g[2][self.lenidx]
            return x[1] if x[0] == "i" else self.leaf(x)
        return self.leaf(("fld", g, 0, self.lenidx))

    def elem(self, g, k):
        """Element k of a (ground) handle."""
        while g[0] == "app" and g[1] in ("vset", "push", "pop"):
            if g[1] == "vset" and g[3] == ("i", k):
                return g[4]
            if g[1] == "push" and self.statelen(g[2]) == k:
                return g[3]
            g = g[2]
        return ("app", "elem", g, ("i", k))

    # ---- booleans
    def bool(self, t):
        h = t[0]
        if h == "c":
            return bool(t[1])
        if h == "not":
            return not self.bool(t[1])
        if h == "ge0":
            return self.int(t[1]) >= 0
        if h == "eq0":
            return self.int(t[1]) == 0
        if h == "and":
            return self.bool(t[1]) and self.bool(t[2])
        if h == "has":
            return self.has(self.g(t[1]), self.g(t[2]))
        if h == "present":
            g = self.g(t[1])
            if len(t) > 2:
                g = tget(g, self.int(t[2]))
            return self.present(g)
        if h == "is" or h == "isnot" or h == "isd":
            k = self.variant(t[1])
            return (k == t[2]) == (h != "isnot")
        if h == "iff":
            return self.bool(t[1]) == self.bool(t[2])
        if h == "deq":
            return self.variant(t[1][1]) == self.variant(t[2][1])
        if h == "eq":
            r = compare(self.g(t[1]), self.g(t[2]))
            if r == EQ:
                return True
            if self.scalar(t[1]) or self.scalar(t[2]):
                return self.int(t[1]) == self.int(t[2])
            return bool(self.leaf(("eqb", self.g(t[1]), self.g(t[2]))) & 1) if r == UNK else False
        if h in DEAD:
            raise Unknown(h)
        return bool(self.leaf(("b", h) + tuple(self.g(x) if isinstance(x, tuple) else x for x in t[1:])) & 1)

    def present(self, g):
        """Does the backend hold the children of node g?"""
        if g[0] == "H":
            return True
        return bool(self.leaf(("b", "present", g)) & 1)

    def has(self, b, k):
        if b[0] == "map":
            for q, v in b[2]:
                if q == k:
                    return v[0] != "absent"
            b = b[1]
        if b[0] == "app" and b[1] == "emptymap":
            return False
        return bool(self.leaf(("b", "has", b, k)) & 1)

    def variant(self, v):
        if v[0] == "agg":
            return v[1]
        k = self.known.get(v)
        if k is None:
            g = self.g(v)
            if g[0] == "agg":
                return g[1]
            k = self.known.get(g)
            if k is not None:
                return k
            if not self.iters and not self.looped(v):
                raise Unknown("variant")
            k = self.leaf(("variant", g)) % 2
        return k

    # ---- loops: the derived transfer function of one iteration, applied from the entry state
    def run_loop(self, uid):
        info = self.loops.get(uid)
        if info is None:
            raise Unknown("loop")
        memo, iters = self.memo, self.iters
        nested = nested_uids(info)
        phis, tabs = [], []
        cur = {}
        self.memo = {}
        for name, (init, v) in info.cells.items():
            phi = ("phi", uid, name)
            if v == phi:
                phis.append((name, phi))
                cur[phi] = self.g(init)
            elif v[0] == "seq":
                for sg in v[1]:
                    if sg[0] == "tab" and sg[1][0] == uid:
                        tabs.append((name, sg[1]))
                        self.tabs[sg[1]] = []
        k = 0
        trace = []
        while True:
            self.memo = {}
            self.iters = iters + ((uid, k),)
            self.env[("n", uid)] = k
            self.env.update(cur)
            hit = []
            for sg in info.segs:        # a loop inside is the one of this way through the body
                if nested:
                    self.inner(nested, sg)
                if all(self.bool(c) for c in sg["conds"]):
                    hit.append(sg)
            if not hit:
                break
            if len(hit) > 1:
                raise Unknown("several iterations possible")
            sg = hit[0]
            if nested and sg is not info.segs[-1]:
                self.inner(nested, sg)
            if any(e.out == "Err" for e in sg["events"]):
                raise Unknown("failed call in a loop")
            trace += self.calls(sg["events"])
            nxt = {phi: self.g(sg["nexts"][name]) for name, phi in phis}
            for name, tid in tabs:
                nx = sg["nexts"][name]
                if nx[0] != "seq" or nx[1][-1][0] != "e":
                    raise Unknown("appended element")
                self.tabs[tid] = self.tabs[tid] + [self.g(nx[1][-1][1])]
            cur = nxt
            k += 1
            if k > 700:
                raise Unknown("long loop")
        self.iters = iters
        self.memo = memo
        self.ltrace[uid] = trace

    def inner(self, nested, sg):
        """Read the loops of one way through a body afresh"""
        self.memo = {}
        for x in [x for x in self.env if x[1] in nested]:
            del self.env[x]
        for x in [x for x in self.tabs if x[0] in nested]:
            del self.tabs[x]
        for x in nested:
            self.ltrace.pop(x, None)
        for e in sg["events"]:
            if e.kind == "loop":
                self.loops[e.extra.uid] = e.extra

    def loops_ok(self, events):
        """Every loop of the path is left after the number of iterations the path says."""
        for e in events:
            if e.kind == "loop" and e.args[1] is not None:
                uid = e.extra.uid
                if ("n", uid) not in self.env:
                    self.run_loop(uid)
                if self.env[("n", uid)] != self.int(e.args[1]):
                    return False
        return True

    def calls(self, events):
        """Outside calls of a trace at this valuation: (kind, arguments, outcome)"""
        out = []
        for e in events:
            if e.kind == "loop":
                if e.extra.uid not in self.ltrace:
                    self.run_loop(e.extra.uid)
                out += self.ltrace[e.extra.uid]
            else:
                out.append((e.kind, tuple(self.arg(a) for a in e.args), e.out, e))
        return out

    def arg(self, a):
        """An argument of a call; one that is not a value (a pointer) stays unread"""
        if not isinstance(a, tuple):
            return ("name", a)
        try:
            return self.g(a)
        except Unknown:
            return ("unread",)

    def scalar(self, t):
        return t[0] in ("c",) or t[0] in ARITH or (t[0] == "app" and t[1] in ARITHAPP)

    # ---- sequences
    def elems(self, t):
        g = self.gseq(t)
        if g is None:
            raise Unknown("sequence")
        return list(g)

    def gseq(self, t):
        """Elements of a sequence value, or None when it is opaque."""
        h = t[0]
        if h in ("le", "be") and isinstance(t[1], int):
            bs = self.lebytes(t[2], t[1])
            return tuple(bs if h == "le" else bs[::-1])
        if h == "cat":
            return self.gseq(("seq", t[1]))
        if h == "upd":
            b = self.full(t[1])
            i = self.int(t[2])
            if not 0 <= i < len(b):
                raise Unknown("index")
            return tuple(b[:i]) + (self.g(t[3]),) + tuple(b[i + 1:])
        if h == "splice":
            b = self.full(t[1])
            i = self.int(t[2])
            x = self.full(t[3])
            if i < 0 or i + len(x) > len(b):
                raise Unknown("index")
            return tuple(b[:i]) + tuple(x) + tuple(b[i + len(x):])
        if h == "repeat":
            return (self.g(t[1]),) * self.int(t[2])
        if h == "app" and t[1] == "rev":
            return tuple(self.full(t[2]))[::-1]
        if h == "tab":
            if t[1] not in self.tabs:
                self.run_loop(t[1][0])
            return tuple(self.tabs[t[1]])
        if h != "seq":
            if h in ("phi", "fld", "at") or h == "app" and t[1] == "elem":
                g = self.g(t)
                if g[0] == "list":
                    return g[1]
            return None
        out = []
        for s in t[1]:
            h = s[0]
            if h == "e":
                out.append(self.g(s[1]))
            elif h == "sl":
                b = s[1]
                lo, n = self.int(s[2]), self.int(s[3])
                if lo < 0 or n < 0 or n > MAXLEN:
                    raise Unknown("slice")
                inner = self.gseq(b)
                if inner is not None:
                    if lo + n > len(inner):
                        raise Unknown("slice out of range")
                    out.extend(inner[lo:lo + n])
                else:
                    gb = self.g(b)
                    out.extend(("at", gb, k) for k in range(lo, lo + n))
            elif h == "rep":
                n = self.int(s[2])
                if n < 0 or n > MAXLEN:
                    raise Unknown("rep")
                out.extend([self.g(s[1])] * n)
            elif h == "tab":
                if s[4] is None:
                    tid, lo, n = s[1], self.int(s[2]), self.int(s[3])
                    if tid not in self.tabs:
                        self.run_loop(tid[0])
                    es = self.tabs[tid]
                    if lo < 0 or n < 0 or lo + n > len(es):
                        raise Unknown("tab")
                    out += es[lo:lo + n]
                    continue
                n = self.int(s[3])
                if n < 0 or n > 600:
                    raise Unknown("tab")
                lo = self.int(s[2])
                for k in range(lo, n + lo):
                    out.append(self.g(T.subst(s[4], {("bv", s[1]): T.C(k)})))
            else:
                raise Unknown("segment " + h)
            if len(out) > MAXLEN:
                raise Unknown("long")
        return tuple(out)

    def full(self, t):
        """All elements of a sequence, an opaque one being expanded to its valuation's length."""
        g = self.gseq(t)
        if g is None:
            gb = self.g(t)
            n = self.lens.get(t)
            n = self.int(n) if n is not None else T.VALUE_BYTES[0] if gb[0] == "bytes" and T.VALUE_BYTES[0] else self.leaf(("len", gb))
            g = tuple(("at", gb, k) for k in range(n))
        return g

    def lebytes(self, x, w):
        if self.scalar(x):
            v = self.int(x)
            return [("i", (v >> (8 * k)) & 255) for k in range(w)]
        g = self.g(x)
        if g[0] == "i":
            return [("i", (g[1] >> (8 * k)) & 255) for k in range(w)]
        n = self.width.get(g, w)
        return [g] if w == 1 else [("leb", g, k) if k < n else ("i", 0) for k in range(w)]

    def widths(self, les):
        """An integer written out in n bytes somewhere has no higher ones"""
        for w, x in les:
            try:
                if not self.scalar(x):
                    g = self.g(x)
                    if g[0] != "i" and w > 1:
                        self.width[g] = min(w, self.width.get(g, w))
            except Unknown:
                pass
        self.memo = {}

    # ---- everything
    def g(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self.g0(t)
            except RecursionError:
                raise Unknown("depth")
            self.memo[t] = r
        return r

    def g0(self, t):
        if t in self.same:
            return self.g(self.same[t])
        h = t[0]
        if h in DEAD:
            raise Unknown(h)
        if h == "phi":
            if t not in self.env:
                self.run_loop(t[1])
                if t not in self.env:
                    raise Unknown("loop cell")
            return self.env[t]
        if h == "n":
            return ("i", self.int(t))
        if h == "iter":
            k = self.int(t[2])
            it, me = self.iters, self.memo
            self.iters, self.memo = it + ((t[1], k),), {}
            r = self.g(t[3])
            self.iters, self.memo = it, me
            return r
        if h == "c":
            return ("i", t[1])
        if h in ARITH or h in BOOLS or (h == "app" and t[1] in ARITHAPP):
            return ("i", self.int(t))
        if h == "agg":
            return ("agg", t[1], tuple(self.g(x) for x in t[2]))
        if h in ("seq", "le", "be", "cat", "upd", "splice", "repeat") or (h == "app" and t[1] == "rev"):
            return self.whole(self.gseq(t))
        if h == "sym":
            return t
        if h == "fld":
            b = self.g(t[1])
            if b[0] == "agg":
                if b[1] != t[2]:
                    raise Unknown("field of another variant")
                return b[2][t[3]]
            if b[0] == "app" and b[1] in ("vset", "push", "pop") and t[3] == self.lenidx:
                return ("i", self.statelen(b))
            if b[0] in ("H", "E") and t[2] == t[3] == 0:
                return digest_of(b)
            r = ("fld", b, t[2], t[3])
            return self.alias.get(r, r)
        if h == "at":
            b = self.gseq(t[1])
            i = self.int(t[2])
            if b is not None:
                if not 0 <= i < len(b):
                    raise Unknown("index")
                return b[i]
            return ("at", self.g(t[1]), i)
        if h == "map":
            b = self.g(t[1])
            es = {}
            if b[0] == "map":
                b, es = b[1], dict(b[2])
            for k, v in t[2]:
                es[self.g(k)] = self.g(v)
            return ("map", b, tuple(sorted(es.items(), key=repr)))
        if h == "mapget":
            b, k = self.g(t[1]), self.g(t[2])
            if b[0] == "map":
                es = dict(b[2])
                if k in es:
                    return es[k]
                b = b[1]
            return ("mapget", b, k)
        if h == "has":
            return ("i", int(self.has(self.g(t[1]), self.g(t[2]))))
        if h == "app":
            f = t[1]
            if f in DEADAPP or f.startswith("refentries:"):
                raise Unknown(f)
            if f == "set":
                return tset(self.g(t[2]), self.int(t[3]), self.g(t[4]))
            if f == "sub":
                return tget(self.g(t[2]), self.int(t[3]))
            if f == "E":
                n = self.int(t[2])
                return ("E", n)
            if f.startswith("default:AnyValue"):
                return ("E", 0)
            if f == "H":
                return tH(self.g(t[2]), self.g(t[3]))
            if f == "vtree":
                mx = self.g(t[3])
                if mx[0] == "agg":
                    mx = mx[2][0] if mx[1] == 1 else None
                elif self.variant(t[3]) == 1:
                    mx = self.g(("fld", t[3], 1, 0))
                else:
                    mx = None
                if mx is not None and mx[0] != "i":
                    mx = ("i", self.leaf(mx))
                return vtree(self.full(t[2]), mx)
            if f == "elem" and self.handles is not None:
                b, k = self.g(t[2]), self.int(t[3])
                r = self.handles(self, b, k)
                if r is not None:
                    return r
            if f == "elem" and self.lenidx is not None:
                return self.elem(self.g(t[2]), self.int(t[3]))
            if f == "popres" and self.lenidx is not None:
                b = self.g(t[2])
                n = self.statelen(b)
                return ("agg", 0, ()) if n == 0 else ("agg", 1, (self.elem(b, n - 1),))
            if f in ("L", "R"):
                return tget(self.g(t[2]), 2 if f == "L" else 3)
            if f == "fromusize":
                return ("app", f, ("i", self.int(t[2])))
            if f == "tousize":
                b = self.g(t[2])
                if b[0] == "app" and b[1] == "fromusize":
                    return b[2]
                return ("app", f, b)
            if f == "hash":
                return ("app", f, digests(self.g(t[2])))
            if f == "frombytes":
                b = self.g(t[2])
                if b[0] == "bytes":
                    return b[1]
                return ("app", f, b)
            return ("app", f) + tuple(self.g(x) if isinstance(x, tuple) else x for x in t[2:])
        if h == "bytes":
            b = self.g(t[1])
            if b[0] == "app" and b[1] == "frombytes":
                return b[2]
            return ("bytes", b)
        if h == "ret":
            e = self.recs.get(t)
            if e is not None:
                gs = tuple(self.g(a) for a in e.args if a[0] not in ("ptr", "fn"))
                return ("rec", e.kind[4:], tuple(x for x in gs if x != ("agg", 0, ())))
            it = tuple(x for x in self.iters if x[0] < t[1])
            return t + (it,) if it else t
        return (h,) + tuple(self.g(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])

    def whole(self, es):
        """A sequence that is all of an opaque one is that one."""
        if es and es[0][0] == "at" and es[0][2] == 0 and all(e[0] == "at" and e[1] == es[0][1] and e[2] == k for k, e in enumerate(es)):
            n = self.m.get(("len", es[0][1]))
            b = es[0][1]
            if n == len(es) or (n is None and b[0] == "bytes" and len(es) == T.VALUE_BYTES[0]):
                return b
        return ("list", es)


def nested_uids(info):
    out = set()
    for sg in info.segs:
        for e in sg["events"]:
            if e.kind == "loop":
                out.add(e.extra.uid)
                out |= nested_uids(e.extra)
    return out


def collect_loops(events, out=None):
    """uid -> summary of every loop of a trace"""
    out = {} if out is None else out
    for e in events:
        if e.kind == "loop":
            out[e.extra.uid] = e.extra
            for sg in e.extra.segs:
                collect_loops(sg["events"], out)
    return out


def collect_recs(events):
    return {e.res: e for e in events if e.kind.startswith("rec:") and e.out == ""}


def rel(i, a):
    """index of i relative to its ancestor a"""
    d = i.bit_length() - a.bit_length()
    return (1 << d) | (i & ((1 << d) - 1))


def is_anc(a, i):
    d = i.bit_length() - a.bit_length()
    return d >= 0 and (i >> d) == a


def vtree(leaves, mx):
    """The complete tree over leaves, sized for mx of them"""
    if mx is not None and mx[0] != "i":
        raise Unknown("maximum")
    n = len(leaves)
    cap = n if mx is None else mx[1]
    if cap < n or cap > 1 << 12:
        return ("app", "vtree", ("list", tuple(leaves)), ("agg", 0, ()) if mx is None else ("agg", 1, (mx,)))

    def go(lo, d):
        if lo >= n:
            return ("E", d)
        if d == 0:
            return leaves[lo]
        return tH(go(lo, d - 1), go(lo + (1 << (d - 1)), d - 1))
    return go(0, 0 if cap <= 1 else (cap - 1).bit_length())


def tH(a, b):
    if a[0] == "sub" and b[0] == "sub" and a[1] == b[1] and a[2] % 2 == 0 and b[2] == a[2] + 1:
        return tget(a[1], a[2] // 2)
    return ("H", a, b)


def tget(r, i):
    if i < 1:
        raise Unknown("index 0")
    if i == 1:
        return r
    if r[0] == "H":
        d = i.bit_length() - 1
        top = 2 | ((i >> (d - 1)) & 1)
        return tget(r[1] if top == 2 else r[2], rel(i, top))
    if r[0] == "E" and r[1] >= i.bit_length() - 1:
        return ("E", r[1] - (i.bit_length() - 1))
    if r[0] == "sub":
        d = i.bit_length() - 1
        return ("sub", r[1], (r[2] << d) | (i & ((1 << d) - 1)))
    if r[0] == "tree":
        m = dict(r[2])
        for a, v in m.items():
            if is_anc(a, i):
                return tget(v, rel(i, a))
        below = {rel(j, i): v for j, v in m.items() if is_anc(i, j)}
        return mktree(tget(r[1], i), below)
    return ("sub", r, i)


def mktree(base, m):
    m = dict(m)
    ch = True
    while ch:
        ch = False
        for i in sorted(m, reverse=True):
            if m[i] == tget(base, i):
                del m[i]
                ch = True
                break
            if i % 2 and i > 1 and (i - 1) in m:
                v = tH(m[i - 1], m[i])
                del m[i], m[i - 1]
                m[i // 2] = v
                ch = True
                break
    if 1 in m:
        return m[1]
    if not m:
        return base
    return ("tree", base, tuple(sorted(m.items())))


def tset(r, i, v):
    if i < 1:
        raise Unknown("index 0")
    if i == 1:
        return v
    if r[0] == "tree":
        base, m = r[1], dict(r[2])
    elif r[0] == "H":
        d = i.bit_length() - 1
        top = 2 | ((i >> (d - 1)) & 1)
        a, b = r[1], r[2]
        if top == 2:
            a = tset(a, rel(i, top), v)
        else:
            b = tset(b, rel(i, top), v)
        return tH(a, b)
    else:
        base, m = r, {}
    for a in m:
        if is_anc(a, i) and a != i:
            m[a] = tset(m[a], rel(i, a), v)
            return mktree(base, m)
    m = {j: w for j, w in m.items() if not is_anc(i, j)}
    m[i] = v
    return mktree(base, m)


def cmp_map(a, b, val):
    ba, ea = (a[1], dict(a[2])) if a[0] == "map" else (a, {})
    bb, eb = (b[1], dict(b[2])) if b[0] == "map" else (b, {})
    if ba != bb:
        if ba[0] in ("ret", "phi", "rec") or bb[0] in ("ret", "phi", "rec"):
            return UNK
        return compare(ba, bb, val) if not ea and not eb else UNK
    rs = []
    for k in set(ea) | set(eb):
        base = ("mapget", ba, k) if val.has(ba, k) else ("absent",)
        rs.append(compare(ea.get(k, base), eb.get(k, base), val))
    return NE if NE in rs else UNK if UNK in rs else EQ


def size_of(o, val):
    """Length of an opaque sequence, where known"""
    if val is None:
        return None
    n = val.lens.get(o)
    if n is not None and n[0] == "c":
        return n[1]
    return T.VALUE_BYTES[0] if o[0] == "bytes" and T.VALUE_BYTES[0] else val.m.get(("len", o))


FREE = {"mapget", "rec", "sym", "fld", "at", "app", "sub", "tree", "H", "E", "bytes", "list", "leb", "agg", "i", "ret"}


def digests(b):
    """The bytes of a digest within hashed bytes, as one element: nested digests stay small"""
    if b[0] != "list":
        return b
    out, es, k = [], b[1], 0
    while k < len(es):
        e = es[k]
        if e[0] == "at" and e[2] == 0 and e[1][0] == "app" and e[1][1] == "hash" and \
                k + 32 <= len(es) and all(es[k + i][0] == "at" and es[k + i][1] == e[1] and es[k + i][2] == i for i in range(32)):
            out.append(("digest", e[1]))
            k += 32
        else:
            out.append(e)
            k += 1
    return ("list", tuple(out))


def digest_of(b):
    """What a node of the hash construct wraps: the digest over the bytes of its children"""
    if b[0] == "E" and b[1] == 0:
        return ("agg", 0, (("list", (("i", 0),) * 32),))
    l, r = (("E", b[1] - 1),) * 2 if b[0] == "E" else b[1:3]
    return ("agg", 0, (("app", "hash", digests(("list", node_bytes(l) + node_bytes(r)))),))


def node_bytes(x):
    if x[0] in ("H", "E"):
        x = ("agg", 0, (digest_of(x),))
    for _ in range(2):
        x = x[2][0] if x[0] == "agg" and x[1] == 0 and len(x[2]) == 1 else ("fld", x, 0, 0)
    return x[1] if x[0] == "list" else tuple(("at", x, k) for k in range(32))


def is_rec(t):
    return t[0] == "rec" or (t[0] == "ret" and len(t) > 2 and str(t[2]).startswith("rec:"))


def from_rec(t):
    """An opaque part of what a recursive call returned"""
    while t[0] in ("fld", "at", "bytes") and isinstance(t[1], tuple):
        t = t[1]
    return is_rec(t)


def mentions_rec(t):
    if not isinstance(t, tuple) or not t:
        return False
    if isinstance(t[0], str) and is_rec(t):
        return True
    return any(mentions_rec(x) for x in t if isinstance(x, tuple))


def compare(a, b, val=None):
    if a == b:
        return EQ
    if a[0] == "i" and b[0] == "i":
        return NE
    if from_rec(a) and not mentions_rec(b) or from_rec(b) and not mentions_rec(a):
        return UNK                          # what a recursive call returns may be anything
    if a[0] == "i" or b[0] == "i":
        if val is not None:
            o = b if a[0] == "i" else a
            i = a if a[0] == "i" else b
            if o in val.m:
                return EQ if val.m[o] == i[1] else NE
            if o[0] in ("fld", "sym", "at", "ret") or (o[0] == "app" and o[1] in ("tousize", "len", "seqlen")):
                # an integer leaf nothing constrains
                return NE
            if o[0] == "leb":
                # byte o[2] of an integer: free unless the path fixed the integer
                if o[1] not in val.m:
                    return NE
                return EQ if val.m[o[1]] >> (8 * o[2]) & 255 == i[1] else NE
            if o[0] in ("agg", "list"):
                return UNK
        return UNK
    if a[0] == "agg" and b[0] == "agg":
        if a[1] != b[1]:
            return NE
        if len(a[2]) != len(b[2]):
            return UNK
        rs = [compare(x, y, val) for x, y in zip(a[2], b[2])]
        return NE if NE in rs else UNK if UNK in rs else EQ
    if (a[0] == "map" or b[0] == "map") and val is not None:
        return cmp_map(a, b, val)
    if a[0] == "absent" or b[0] == "absent":
        return NE
    if val is not None and a in val.m and b in val.m:
        return EQ if val.m[a] == val.m[b] else NE
    if a[0] == "list" and b[0] == "list":
        if len(a[1]) != len(b[1]):
            return NE
        rs = [compare(x, y, val) for x, y in zip(a[1], b[1])]
        return NE if NE in rs else UNK if UNK in rs else EQ
    if (a[0] == "list") != (b[0] == "list") and "agg" not in (a[0], b[0]):
        o, l = (b, a[1]) if a[0] == "list" else (a, b[1])
        n = size_of(o, val)
        if n is None:
            return UNK if all(x == ("at", o, k) for k, x in enumerate(l)) else NE
        if n != len(l):
            return NE
        rs = [compare(x, ("at", o, k), val) for k, x in enumerate(l)]
        return NE if NE in rs else UNK if UNK in rs else EQ
    if a[0] == "agg" or b[0] == "agg":
        o = b if a[0] == "agg" else a
        g = a if a[0] == "agg" else b
        # an opaque value against its own constructor form
        k = val.known.get(o) if val is not None else None
        if k is not None and k != g[1]:
            return NE
        if k is None and not g[2] and val is not None and ("variant", o) in val.m:
            return EQ if val.m[("variant", o)] % 2 == g[1] else NE

        def part(i):
            t = ("fld", o, g[1], i)
            return val.g(t) if val is not None and t in val.same else t
        if all(x == part(i) for i, x in enumerate(g[2])):
            return EQ
        if (g[1] == 0 or k == g[1]) and o[0] in ("sym", "fld", "app", "at", "sub", "mapget", "rec"):
            rs = [compare(x, part(i), val) for i, x in enumerate(g[2])]
            return NE if NE in rs else UNK if UNK in rs else EQ
        return UNK
    if a[0] == "H" and b[0] == "H":
        rs = [compare(x, y, val) for x, y in zip(a[1:], b[1:])]
        return NE if NE in rs else UNK if UNK in rs else EQ
    if a[0] == "digest" and b[0] == "digest":
        return compare(a[1], b[1], val)
    if a[0] in FREE and b[0] in FREE:
        if a[0] == b[0] and a[0] in ("app",) and a[1] == b[1] and len(a) == len(b):
            rs = [compare(x, y, val) if isinstance(x, tuple) and isinstance(y, tuple) else (EQ if x == y else NE) for x, y in zip(a[2:], b[2:])]
            return NE if NE in rs else UNK if UNK in rs else EQ
        return NE
    return UNK
