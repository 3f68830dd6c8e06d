"""Path-sensitive abstract interpretation of fully resolved MIR (the facts of the driver).

Abstract values are value numbers (terms.py); memory is a map from abstract objects to
values; branches whose outcome is not implied by the facts of the path are split; calls into
the unknown world (a backend, a digest, a user-supplied leaf type, a closure of the caller)
become events with one split per outcome.  A loop whose control is not decided by constants
is summarised: every cell it changes is replaced by an unknown (or by its closed form in the
iteration number, when it has one), the body is analysed once from that state, and what one
iteration does is kept as a segment of a 'loop' event.  Recursive calls are events.
No solver: branch feasibility is congruence plus the linear domain of lin.py.
"""
import sys
from collections import namedtuple
from terms import *
from terms import C as K
import terms as T
import lin

sys.setrecursionlimit(20000)

UNDEF = ("undef",)
Ev = namedtuple("Ev", "kind args out res loc uid extra")
Out = namedtuple("Out", "kind st val")


class Limit(Exception):
    pass


class St:
    __slots__ = ("store", "lin", "atoms", "known", "nknown", "events", "path", "nid", "dforks", "unk", "memo")

    def __init__(self):
        self.store = {}
        self.lin = ()
        self.atoms = {}
        self.known = {}
        self.nknown = {}
        self.events = ()
        self.path = ()
        self.nid = 0
        self.dforks = 0
        self.unk = ()
        self.memo = {}

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.lin = self.lin
        s.atoms = dict(self.atoms)
        s.known = dict(self.known)
        s.nknown = dict(self.nknown)
        s.events = self.events
        s.path = self.path
        s.nid = self.nid
        s.dforks = self.dforks
        s.unk = self.unk
        s.memo = dict(self.memo)
        return s

    def new(self):
        self.nid += 1
        return self.nid


class Frame:
    __slots__ = ("id", "inst", "locals", "stack", "loops")

    def __init__(self, fid, inst, stack):
        self.id = fid
        self.inst = inst
        self.locals = inst["locals"]
        self.stack = stack


class LoopInfo:
    """Summary of one abstract loop on one path."""

    def __init__(self, uid, loc):
        self.uid = uid
        self.loc = loc
        self.cells = {}      # cell -> (init, phi-or-closed value)
        self.segs = []       # dicts: events, conds, nexts, panic
        self.n = ("n", uid)

    def __repr__(self):
        return f"<loop {self.uid} {self.loc} cells={len(self.cells)} segs={len(self.segs)}>"


def natural_loops(inst):
    if "_loops" in inst:
        return inst["_loops"]
    blocks = inst["blocks"]
    n = len(blocks)
    succ = [[] for _ in range(n)]
    for i, (sts, t, _l, cl) in enumerate(blocks):
        if cl:
            continue
        k = t[0]
        if k == "goto":
            succ[i] = [t[1]]
        elif k == "switch":
            succ[i] = [b for _, b in t[2]] + [t[3]]
        elif k == "drop":
            succ[i] = [t[2]]
        elif k == "call":
            succ[i] = [t[4]] if t[4] >= 0 else []
        elif k == "assert":
            succ[i] = [t[4]]
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    pred = [[] for _ in range(n)]
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in idx and dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
    inst["_loops"] = loops
    return loops


def head_of(s):
    """Short head of an impl's self type: `std::vec::Vec<T, A>` -> `Vec`."""
    s = s.strip()
    pre = ""
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
            pre += "&mut "
        else:
            pre += "&"
    if s.startswith("["):
        return pre + ("[;]" if ";" in s else "[]")
    if s.startswith("("):
        return pre + "()"
    if s.startswith("*"):
        return pre + "*"
    s = s.split("<")[0]
    return pre + s.split("::")[-1]


def natkey(inst):
    k = inst.get("_key")
    if k:
        return k
    if inst.get("impl_self"):
        k = head_of(inst["impl_self"]) + "::" + inst.get("item", "?")
    elif inst.get("trait_default"):
        k = inst["trait_default"].split("::")[-1] + "::" + inst.get("item", "?")
    else:
        k = inst["path"].split("::")[-1]
        if inst["closure"]:
            k = "closure:" + inst["path"]
    inst["_key"] = k
    return k


USER = ("bm", "bm_le", "bmharness", "bm_le_derive")
INLINE_KRATES = USER + ("digest", "vecarray", "primitive_types")


class Interp:
    MAXPATHS = 6000
    MAXSTEPS = 400000
    PEEL = 10

    def __init__(self, facts, prims=None, natives=None):
        self.F = facts
        self.prims = prims or {}
        import models
        self.nat = dict(models.NATIVE)
        if natives:
            self.nat.update(natives)
        self.lens = {}
        self.steps = 0
        self.unknown_calls = {}
        self.unsw = 0
        self.visited = set()
        self.loop_count = 0

    # ------------------------------------------------------------------ types
    def tinfo(self, ti):
        return self.F.types[ti] if ti is not None and ti >= 0 else {"k": "other", "s": "?"}

    def is_box(self, ti):
        t = self.tinfo(ti)
        return t["k"] == "adt" and t["path"].endswith("::Box")

    def nfields(self, ti, var):
        t = self.tinfo(ti)
        if t["k"] == "adt":
            vs = t["variants"]
            return len(vs[var]["fields"]) if var < len(vs) else 0
        if t["k"] == "tuple":
            return len(t["elems"])
        if t["k"] == "closure":
            return len(t["upvars"])
        return 0

    def const_len(self, ti):
        t = self.tinfo(ti)
        if t["k"] == "array" and t["len"] >= 0:
            return t["len"]
        if t["k"] == "adt" and t["path"].endswith("GenericArray"):
            return self.F.typenum(t["args"][1])
        return None

    # ------------------------------------------------------------------ memory
    def base(self, st, obj):
        v = st.store.get(obj)
        if v is None:
            if obj[0] == "D":
                t = obj[1]
                return t if t[0] == "sym" else ("deref", t)
            return UNDEF
        return v

    def read(self, st, obj, path):
        v = self.base(st, obj)
        for i, s in enumerate(path):
            v = self.step(st, v, s, obj, path[:i])
        return v

    def step(self, st, v, s, obj=None, pre=None):
        k = s[0]
        if k == "f":
            if v[0] == "agg":
                if v[1] != s[1] or s[2] >= len(v[2]):
                    return UNDEF
                return v[2][s[2]]
            if v[0] in ("undef", "c"):
                return UNDEF
            if v[0] == "boxraw":
                return v
            if v[0] == "ptr":
                return ("pfld", v, s[2]) if s[2] else v
            return ("fld", v, s[1], s[2])
        if k == "i":
            return self.seq_at(st, v, s[1])
        if k == "sl":
            return self.seq_slice(st, v, s[1], s[2])
        if k == "box":
            return v if v[0] == "boxraw" else ("boxraw", obj, pre)
        if k == "k":
            return self.map_val(st, v, s[1])
        if k == "b":
            return self.bytes_of(v)
        raise Limit("step " + repr(s))

    def write(self, st, obj, path, val):
        if not path:
            st.store[obj] = val
            return
        st.store[obj] = self.upd(st, self.base(st, obj), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        k = s[0]
        if k == "f":
            _, var, i, n = s
            if v[0] == "agg" and v[1] == var:
                fs = list(v[2])
                while len(fs) < n:
                    fs.append(UNDEF)
            elif v[0] in ("undef", "c", "agg"):
                fs = [UNDEF] * max(n, i + 1)
            else:
                fs = [("fld", v, var, j) for j in range(max(n, i + 1))]
            fs[i] = self.upd(st, fs[i], rest, val)
            return ("agg", var, tuple(fs))
        if k == "i":
            cur = UNDEF if not rest else self.seq_at(st, v, s[1])
            return self.seq_set(st, v, s[1], self.upd(st, cur, rest, val))
        if k == "sl":
            old = self.seq_slice(st, v, s[1], s[2])
            return self.seq_splice(st, v, s[1], self.upd(st, old, rest, val))
        if k == "k":
            cur = UNDEF if not rest else self.map_val(st, v, s[1])
            return self.map_put(v, s[1], self.upd(st, cur, rest, val))
        if k == "b":
            return self.from_bytes(self.upd(st, self.bytes_of(v), rest, val))
        if k == "box":
            return self.upd(st, v, rest, val)
        raise Limit("upd " + repr(s))

    def bytes_of(self, v):
        if v[0] == "app" and v[1] == "frombytes":
            return v[2]
        return ("seq", (("sl", ("bytes", v), K(0), self.lenof(("bytes", v))),))

    def from_bytes(self, s):
        if s[0] == "seq" and len(s[1]) == 1:
            g = s[1][0]
            if g[0] == "sl" and g[1][0] == "bytes" and g[2] == K(0) and g[3] == self.lenof(g[1]):
                return g[1][1]
        return ("app", "frombytes", s)

    # -- sequences
    def lenof(self, base):
        if base in self.lens:
            return self.lens[base]
        if base[0] == "le":
            return K(base[1])
        if base[0] == "bytes" and T.VALUE_BYTES[0]:
            return K(T.VALUE_BYTES[0])
        if base[0] == "upd":
            return self.seq_len(base[1])
        if base[0] == "repeat":
            return base[2]
        return ("len", base)

    def segs(self, v):
        if v[0] == "seq":
            return v[1]
        return (("sl", v, K(0), self.lenof(v)),)

    def seg_len(self, g):
        if g[0] == "e":
            return K(1)
        if g[0] == "rep":
            return g[2]
        return g[3]

    def seq_len(self, v):
        r = K(0)
        for g in self.segs(v):
            r = add(r, self.seg_len(g))
        return r

    def mkseq(self, segs):
        out = []
        for g in segs:
            n = self.seg_len(g)
            if n == K(0):
                continue
            if g[0] == "rep" and n == K(1):
                g = ("e", g[1])
            if out:
                p = out[-1]
                if g[0] == "sl" and p[0] == "sl" and p[1] == g[1] and add(p[2], p[3]) == g[2]:
                    out[-1] = ("sl", p[1], p[2], add(p[3], g[3]))
                    continue
                if g[0] == "tab" and p[0] == "tab" and p[1] == g[1] and add(p[2], p[3]) == g[2]:
                    out[-1] = ("tab", p[1], p[2], add(p[3], g[3]), p[4])
                    continue
                if p[0] in ("rep", "e") and g[0] in ("rep", "e") and p[1] == g[1]:
                    out[-1] = ("rep", p[1], add(self.seg_len(p), n))
                    continue
            out.append(g)
        return ("seq", tuple(out))

    def cat(self, *vs):
        segs = []
        for v in vs:
            segs.extend(self.segs(v))
        return self.mkseq(segs)

    def seg_at(self, g, k):
        if g[0] == "e":
            return g[1]
        if g[0] == "rep":
            return g[1]
        if g[0] == "sl":
            return ("at", g[1], add(g[2], k))
        if g[0] == "tab":
            i = add(g[2], k)
            if g[4] is not None:
                return subst(g[4], {("bv", g[1]): i})
            return ("at", ("tab", g[1]), i)
        raise Limit("seg")

    def seg_sub(self, g, a, n):
        if g[0] == "e":
            return g
        if g[0] == "rep":
            return ("rep", g[1], n)
        if g[0] == "sl":
            return ("sl", g[1], add(g[2], a), n)
        return ("tab", g[1], add(g[2], a), n, g[4])

    def seq_at(self, st, v, idx):
        off = K(0)
        for g in self.segs(v):
            n = self.seg_len(g)
            d = self.decide(st, lt(idx, add(off, n)))
            if d == TRUE:
                return self.seg_at(g, sub(idx, off))
            if d is None:
                # an exactly known uniform tail?
                return ("at", v, idx)
            off = add(off, n)
        return ("at", v, idx)

    def cut(self, st, v, pos):
        """Split v at pos -> (left segs, right segs) or None when undecidable."""
        off = K(0)
        left = []
        gs = list(self.segs(v))
        for i, g in enumerate(gs):
            n = self.seg_len(g)
            if self.decide(st, le(add(off, n), pos)) == TRUE:
                left.append(g)
                off = add(off, n)
                continue
            if pos == off:
                return left, gs[i:]
            if self.decide(st, le(off, pos)) == TRUE and self.decide(st, le(pos, add(off, n))) == TRUE:
                k = sub(pos, off)
                return left + [self.seg_sub(g, K(0), k)], [self.seg_sub(g, k, sub(n, k))] + gs[i + 1:]
            if self.decide(st, le(pos, off)) == TRUE:
                return left, gs[i:]
            return None
        return left, []

    def seq_slice(self, st, v, frm, n):
        if frm == K(0) and n == self.seq_len(v):
            return v
        a = self.cut(st, v, frm)
        if a is not None:
            b = self.cut(st, ("seq", tuple(a[1])), n)
            if b is not None:
                return self.mkseq(b[0])
        t = ("slice", v, frm)
        return ("seq", (("sl", v if v[0] != "seq" else ("cat", v[1]), frm, n),)) if True else t

    def seq_splice(self, st, v, frm, src):
        n = self.seq_len(src)
        a = self.cut(st, v, frm)
        b = self.cut(st, v, add(frm, n))
        if a is not None and b is not None:
            return self.mkseq(list(a[0]) + list(self.segs(src)) + list(b[1]))
        t = ("splice", v, frm, src)
        self.lens[t] = self.seq_len(v)
        return t

    def seq_set(self, st, v, idx, val):
        a = self.cut(st, v, idx)
        b = self.cut(st, v, add(idx, K(1)))
        if a is not None and b is not None:
            return self.mkseq(list(a[0]) + [("e", val)] + list(b[1]))
        t = ("upd", v, idx, val)
        return t

    # -- maps: ('map', base, ((key, val-or-ABSENT), ...)) newest last
    def map_parts(self, v):
        if v[0] == "map":
            return v[1], v[2]
        return v, ()

    def map_val(self, st, v, k):
        b, ov = self.map_parts(v)
        for kk, vv in reversed(ov):
            d = self.decide(st, eqv(kk, k))
            if d == TRUE:
                return vv
            if d is None:
                return ("mapget?", v, k)
        return ("mapget", b, k)

    def map_put(self, v, k, val):
        b, ov = self.map_parts(v)
        ov = tuple((a, c) for a, c in ov if a != k) + ((k, val),)
        return ("map", b, ov)

    def map_lookup(self, st, v, k):
        """-> list of (st, value or None)"""
        out = []
        b, ov = self.map_parts(v)
        cur = [st]
        for kk, vv in reversed(ov):
            nxt = []
            for s in cur:
                for s2, t in self.split(s, eqv(kk, k)):
                    if t:
                        out.append((s2, None if vv == ("absent",) else vv))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if b == ("app", "emptymap"):
                out.append((s, None))
                continue
            for s2, t in self.split(s, ("has", b, k)):
                out.append((s2, ("mapget", b, k) if t else None))
        return out

    # ------------------------------------------------------------------ reification
    def reify(self, st, v, depth=0):
        if depth > 40:
            return ("deep",)
        h = v[0]
        if h == "c" or h == "sym" or h == "undef":
            return v
        if h == "ptr":
            return self.reify(st, self.read(st, v[1], v[2]), depth + 1)
        if h == "boxraw":
            return self.reify(st, self.read(st, v[1], v[2]), depth + 1)
        if h == "agg":
            fs = tuple(self.reify(st, f, depth + 1) for f in v[2])
            return self.eta(v[1], fs)
        if h == "seq":
            gs = []
            for g in v[1]:
                if g[0] in ("e", "rep"):
                    gs.append((g[0], self.reify(st, g[1], depth + 1)) + g[2:])
                else:
                    gs.append(g)
            if len(gs) == 1 and gs[0][0] == "sl" and gs[0][2] == K(0) and gs[0][3] == self.lenof(gs[0][1]):
                return gs[0][1]
            return ("seq", tuple(gs))
        if h == "map":
            if not v[2]:
                return v[1]
            return ("map", v[1], tuple((k, self.reify(st, x, depth + 1)) for k, x in v[2]))
        if v in st.known:
            return self.known_form(st, v)
        return v

    def known_form(self, st, v):
        var, n = st.known[v]
        if n == 0:
            return ("agg", var, ())
        return v

    def eta(self, var, fs):
        if fs and fs[0][0] == "fld" and fs[0][3] == 0 and fs[0][2] == var:
            x = fs[0][1]
            if all(f == ("fld", x, var, i) for i, f in enumerate(fs)):
                # only a whole value if this really is all of it; single wrapper types are fine
                return x
        return ("agg", var, fs)

    # ------------------------------------------------------------------ facts
    def decide(self, st, c):
        h = c[0]
        if h == "c":
            return c
        if h == "not":
            d = self.decide(st, c[1])
            return None if d is None else neg(d)
        if c in st.atoms:
            return TRUE if st.atoms[c] else FALSE
        if h == "and":
            a = self.decide(st, c[1])
            b = self.decide(st, c[2])
            if a == FALSE or b == FALSE:
                return FALSE
            if a == TRUE and b == TRUE:
                return TRUE
            return None
        if h == "ge0":
            if lin.entails(st.lin, c[1]):
                return TRUE
            if lin.entails(st.lin, add(scale(c[1], -1), K(-1))):
                return FALSE
            return None
        if h == "eq0":
            d = c[1]
            m = scale(d, -1)
            a = lin.entails(st.lin, d)
            b = lin.entails(st.lin, m)
            if a and b:
                return TRUE
            if lin.entails(st.lin, add(d, K(-1))) or lin.entails(st.lin, add(m, K(-1))):
                return FALSE
            return None
        if h == "isd":
            k = self.variant(st, c[1])
            if k is not None:
                return TRUE if k == c[2] else FALSE
            return FALSE if c[2] in st.nknown.get(c[1], ()) else None
        if h == "eq":
            a, b = c[1], c[2]
            ka, kb = self.variant(st, a), self.variant(st, b)
            if ka is not None and kb is not None and ka != kb:
                return FALSE
        return None

    def variant(self, st, v):
        if v[0] == "agg":
            return v[1]
        k = st.known.get(v)
        return k[0] if k else None

    def assume(self, st, c):
        """Add c to st (in place). False when contradictory."""
        d = self.decide(st, c)
        if d == TRUE:
            return True
        if d == FALSE:
            return False
        h = c[0]
        if h == "isd":
            st.known[c[1]] = (c[2], c[4][c[2]])
            return True
        if h == "not" and c[1][0] == "isd":
            _, v, i, n, ar = c[1]
            nk = tuple(sorted(set(st.nknown.get(v, ())) | {i}))
            st.nknown[v] = nk
            left = [j for j in range(n) if j not in nk]
            if len(left) == 1:
                st.known[v] = (left[0], ar[left[0]])
            return bool(left)
        if h == "not":
            x = c[1]
            if x[0] == "ge0":
                st.lin = st.lin + (add(scale(x[1], -1), K(-1)),)
            elif x[0] == "and":
                a = self.decide(st, x[1])
                b = self.decide(st, x[2])
                if a == TRUE:
                    return self.assume(st, neg(x[2]))
                if b == TRUE:
                    return self.assume(st, neg(x[1]))
                st.atoms[x] = False
            else:
                st.atoms[x] = False
                if x[0] == "eq0":
                    # x != 0 with x >= 0 known: x >= 1
                    if lin.entails(st.lin, x[1]):
                        st.lin = st.lin + (add(x[1], K(-1)),)
                    elif lin.entails(st.lin, scale(x[1], -1)):
                        st.lin = st.lin + (add(scale(x[1], -1), K(-1)),)
        elif h == "ge0":
            st.lin = st.lin + (c[1],)
        elif h == "and":
            return self.assume(st, c[1]) and self.assume(st, c[2])
        elif h == "eq0":
            st.atoms[c] = True
            st.lin = st.lin + (c[1], scale(c[1], -1))
        else:
            st.atoms[c] = True
        return True

    def split(self, st, c, data=True):
        """-> [(st, bool)] feasible outcomes of boolean term c"""
        d = self.decide(st, c)
        if d == TRUE:
            return [(st, True)]
        if d == FALSE:
            return [(st, False)]
        out = []
        for val in (True, False):
            s = st.copy()
            cc = c if val else neg(c)
            if self.assume(s, cc):
                if c[0] == "isd":
                    k = self.variant(s, c[1])
                    s.path = s.path + ((("is", c[1], k),) if k is not None else (("isnot", c[1], c[2]),))
                    data = data and not self.is_event_result(c[1])
                else:
                    s.path = s.path + (cc,)
                if data:
                    s.dforks += 1
                out.append((s, val))
        return out

    def split_variant(self, st, v, ti):
        """Split on the variant of enum value v of type ti -> [(st, variant index)]"""
        if v[0] == "agg":
            return [(st, v[1])]
        if v in st.known:
            return [(st, st.known[v][0])]
        if v[0] == "undef":
            return []
        vs = self.tinfo(ti).get("variants", [])
        out = []
        for i, va in enumerate(vs):
            if i in st.nknown.get(v, ()):
                continue
            s = st.copy()
            s.known[v] = (i, len(va["fields"]))
            s.path = s.path + (("is", v, i),)
            if not self.is_event_result(v):
                s.dforks += 1
            out.append((s, i))
        return out

    def is_event_result(self, v):
        while v[0] in ("fld", "deref"):
            v = v[1]
        return v[0] == "ret"

    # ------------------------------------------------------------------ places / operands
    def place(self, st, fr, pl):
        local, projs = pl
        obj, path = ("L", fr.id, local), ()
        ty, var = fr.locals[local], 0
        for e in projs:
            k = e[0]
            if k == "d":
                if self.is_box(ty):
                    ty = self.tinfo(ty)["args"][0]
                else:
                    v = self.read(st, obj, path)
                    t = self.tinfo(ty)
                    if v[0] in ("ptr", "boxraw"):
                        obj, path = v[1], v[2]
                    else:
                        obj, path = ("D", v), ()
                    ty = t.get("to", -1)
                var = 0
            elif k == "f":
                if self.is_box(ty):
                    path = path + (("box",),)
                elif path and path[-1] == ("box",):
                    pass
                else:
                    path = path + (("f", var, e[1], self.nfields(ty, var)),)
                ty, var = e[2], 0
            elif k == "v":
                var = e[1]
            elif k == "i":
                idx = self.read(st, ("L", fr.id, e[1]), ())
                path = path + (("i", idx),)
                ty = self.tinfo(ty).get("elem", -1)
            elif k == "ci":
                if e[2]:
                    n = self.seq_len(self.rd(st, obj, path, ty))
                    path = path + (("i", sub(n, K(e[1]))),)
                else:
                    path = path + (("i", K(e[1])),)
                ty = self.tinfo(ty).get("elem", -1)
            elif k == "ss":
                n = self.seq_len(self.rd(st, obj, path, ty))
                to = sub(n, K(e[2])) if e[3] else K(e[2])
                path = path + (("sl", K(e[1]), sub(to, K(e[1]))),)
            else:
                raise Limit("projection")
        return obj, path, ty

    def rd(self, st, obj, path, ty):
        v = self.read(st, obj, path)
        return self.typed(v, ty)

    def typed(self, v, ty):
        """Give symbolic arrays their static length."""
        if v[0] in ("fld", "sym", "at", "deref", "ret", "mapget", "phi", "app"):
            n = self.const_len(ty) if ty is not None and ty >= 0 else None
            if n is not None and v not in self.lens:
                self.lens[v] = K(n)
        return v

    def operand(self, st, fr, o):
        if "p" in o or "m" in o:
            obj, path, ty = self.place(st, fr, o.get("p") or o["m"])
            return self.rd(st, obj, path, ty)
        c = o["c"]
        if c == "rtcheck":
            return FALSE
        return self.const(st, o)

    def const(self, st, o):
        c = o["c"]
        ti = o["ty"]
        t = self.tinfo(ti)
        if c == "int":
            v = int(o["v"])
            if t.get("signed") and v >> (t["bits"] - 1):
                v -= 1 << t["bits"]
            return K(v)
        if c == "str":
            return ("app", "str", o["v"])
        if c == "zst":
            if t["k"] == "adt" and t["kind"] == "struct":
                fs = t["variants"][0]["fields"]
                return ("agg", 0, tuple(self.const(st, {"c": "zst", "ty": f[1]}) for f in fs))
            if t["k"] == "tuple":
                return ("agg", 0, tuple(self.const(st, {"c": "zst", "ty": f}) for f in t["elems"]))
            if t["k"] == "array":
                return ("seq", ())
            return ("agg", 0, ())
        if c == "agg":
            fs = tuple(self.const(st, f) for f in o["fields"])
            if t["k"] == "array":
                return self.mkseq([("e", f) for f in fs])
            return ("agg", o["variant"], fs)
        if c == "fn":
            return ("fn", ti)
        if c == "promoted":
            inst = self.F.insts[o["inst"]]
            obj = ("P", o["inst"])
            if obj not in st.store:
                if inst["blocks"]:
                    outs = self.run_fn(st.copy(), inst, [], ())
                    rets = [x for x in outs if x.kind == "ret"]
                    if len(rets) == 1:
                        v = rets[0].val
                        # the promoted evaluates to a reference to its constant
                        if v[0] == "ptr":
                            val = self.read(rets[0].st, v[1], v[2])
                            st.store[obj] = val
                        else:
                            return v
                if obj not in st.store:
                    st.store[obj] = ("app", "promoted", o["inst"])
            return ("ptr", obj, ())
        return ("app", "const", t["s"])

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        """-> list of (st, value)"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if rv[2] < 0:
                return [(st, ("app", "repeat?", v))]
            return [(st, self.mkseq([("rep", v, K(rv[2]))]))]
        if k in ("ref", "copy"):
            obj, path, ty = self.place(st, fr, rv[2])
            if k == "copy":
                return [(st, self.rd(st, obj, path, ty))]
            v = self.base(st, obj)
            self.typed(self.read(st, obj, path), ty)
            return [(st, ("ptr", obj, path))]
        if k == "cast":
            v, src = self.operand(st, fr, rv[2]), self.opty(fr, st, rv[2])
            if rv[1] == "IntToInt" and (v[1] if v[0] == "not" else v)[0] in ("ge0", "eq0"):
                return [(s, K(1 if t else 0)) for s, t in self.split(st, v)]
            if rv[1] == "IntToInt" and v[0] != "c":
                return self.intcast(st, v, rv[3], src)
            return [(st, self.cast(st, rv[1], v, rv[3], src))]
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.opty(fr, st, rv[2])
            return [(st, self.binop(st, rv[1], a, b, ty))]
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if self.tinfo(self.opty(fr, st, rv[2]))["k"] == "bool":
                    return [(st, neg(a))]
                ti = self.tinfo(self.opty(fr, st, rv[2]))
                if ti.get("bits"):
                    top = -1 if ti.get("signed") else (1 << ti["bits"]) - 1
                    return [(st, add(K(top), scale(a, -1)))]
                return [(st, ("app", "bitnot", a))]
            if rv[1] == "Neg":
                return [(st, scale(a, -1))]
            if rv[1] == "PtrMetadata":
                if a[0] == "ptr":
                    return [(st, self.seq_len(self.read(st, a[1], a[2])))]
                return [(st, ("app", "meta", a))]
            return [(st, ("app", rv[1], a))]
        if k == "discr":
            obj, path, ty = self.place(st, fr, rv[1])
            v = self.read(st, obj, path)
            return [(st, ("discr", v, ty))]
        if k == "agg":
            t = self.tinfo(rv[1])
            fs = tuple(self.operand(st, fr, o) for o in rv[3])
            if t["k"] == "array":
                return [(st, self.mkseq([("e", f) for f in fs]))]
            if t["k"] in ("ptr", "ref"):
                return [(st, fs[0])]
            return [(st, ("agg", rv[2], fs))]
        return [(st, ("app", "rvalue", st.new()))]

    def opty(self, fr, st, o):
        if "p" in o or "m" in o:
            pl = o.get("p") or o["m"]
            ty = fr.locals[pl[0]]
            if pl[1]:
                try:
                    return self.place(st, fr, pl)[2]
                except Limit:
                    return -1
            return ty
        return o.get("ty", -1)

    def cast(self, st, kind, v, ti, src):
        t = self.tinfo(ti)
        if kind.startswith("BoxDeref"):
            return ("ptr", v[1], v[2]) if v[0] == "boxraw" else v
        if "Unsize" in kind and v[0] == "ptr" and src is not None and src >= 0:
            s = self.tinfo(src)
            if s["k"] in ("ref", "ptr") and self.const_len(s["to"]) is not None:
                self.rd(st, v[1], v[2], s["to"])
        if kind == "IntToInt":
            s = self.tinfo(src)
            if v[0] == "discr":
                return v
            if s["k"] == "bool":
                return self.b2i(v)
            if t["k"] == "int":
                if v[0] == "c":
                    n = v[1] % (1 << t["bits"])
                    if t.get("signed") and n >> (t["bits"] - 1):
                        n -= 1 << t["bits"]
                    return K(n)
                if s.get("bits", 128) > t["bits"]:
                    if lin.entails(st.lin, sub(K((1 << t["bits"]) - 1), v)):
                        return v
                    return ("trunc", t["bits"], v)
            return v
        return v

    def intcast(self, st, v, ti, src):
        """Integer conversions; where the sign bit decides the number, one state for each value of it."""
        t, s = self.tinfo(ti), self.tinfo(src)
        plain = lambda c: self.cast(c, "IntToInt", v, ti, src)
        if t["k"] != "int" or s["k"] != "int" or v[0] == "discr":
            return [(st, plain(st))]
        if t.get("signed") and not (s.get("signed") and s["bits"] <= t["bits"]) and (s.get("signed") or s["bits"] >= t["bits"]):
            u = plain(st)
            return [(c, u if y else sub(u, K(1 << t["bits"]))) for c, y in self.split(st, le(u, K((1 << (t["bits"] - 1)) - 1)))]
        if s.get("signed") and not t.get("signed"):
            return [(c, plain(c) if y else T.add(v, K(1 << t["bits"])) if s["bits"] <= t["bits"] else ("trunc", t["bits"], v))
                    for c, y in self.split(st, le(K(0), v))]
        return [(st, plain(st))]

    def b2i(self, v):
        return v if v[0] == "c" else ("b2i", v)

    def binop(self, st, op, a, b, ty):
        t = self.tinfo(ty)
        isbool = t["k"] == "bool"
        w = op.endswith("WithOverflow")
        o = op[:-len("WithOverflow")] if w else op
        if o.endswith("Unchecked"):
            o = o[:-len("Unchecked")]
        r, ov = None, FALSE
        if o not in ("Eq", "Ne"):
            a, b = self.discr_val(st, a, t), self.discr_val(st, b, t)
        if a[0] == "undef" or b[0] == "undef":
            r = UNDEF
        elif o == "Add":
            r = add(a, b)
        elif o == "Sub":
            r = sub(a, b)
            ov = lt(a, b) if not t.get("signed") else FALSE
        elif o == "Mul":
            r = mul(a, b)
        elif o == "Div":
            r = T.div(a, b)
        elif o == "Rem":
            r = T.mod(a, b)
        elif o == "Shl":
            r = shl(a, b)
        elif o == "Shr":
            r = shr(a, b)
        elif o == "BitAnd":
            r = land(a, b) if isbool else bitand(a, b, 0 if t.get("signed") else t.get("bits", 0))
        elif o == "BitOr":
            r = lor(a, b) if isbool else bitor(a, b)
        elif o == "BitXor":
            r = neg(eqv(a, b)) if isbool else ("bitxor",) + tuple(sorted((a, b), key=T.key))
        elif o in ("Eq", "Ne"):
            if a[0] in ("ptr",) or b[0] in ("ptr",):
                r = ("app", "ptreq", a, b)
            elif a[0] == "discr" and b[0] == "discr":
                r = self.discr_eq(st, a, b)
            elif "discr" in (a[0], b[0]) and "c" in (a[0], b[0]):
                d, n = (a, b[1]) if a[0] == "discr" else (b, a[1])
                r = self.discr_is(st, d, n)
            elif isbool:
                r = self.booleq(a, b)
            else:
                r = eqi(a, b) if t["k"] in ("int", "char") else eqv(a, b)
            if o == "Ne":
                r = neg(r)
        elif o == "Lt":
            r = land(neg(a), b) if isbool else lt(a, b)
        elif o == "Le":
            r = le(a, b)
        elif o == "Gt":
            r = lt(b, a)
        elif o == "Ge":
            r = le(b, a)
        elif o == "Cmp":
            r = ("cmp", a, b)
        else:
            r = ("app", o, a, b)
        if w:
            return ("agg", 0, (r, ov))
        return r

    def booleq(self, a, b):
        if a[0] == "c":
            return b if a == TRUE else neg(b)
        if b[0] == "c":
            return a if b == TRUE else neg(a)
        if a == b:
            return TRUE
        x, y = sorted((a, b), key=T.key)
        return ("iff", x, y)

    def discr_is(self, st, d, n):
        vs = self.tinfo(d[2]).get("variants", [])
        for i, va in enumerate(vs):
            if self.same_discr(n, int(va["discr"])):
                k = self.variant(st, d[1])
                if k is not None:
                    return TRUE if k == i else FALSE
                if i in st.nknown.get(d[1], ()):
                    return FALSE
                return ("isd", d[1], i, len(vs), tuple(len(x["fields"]) for x in vs))
        return FALSE

    def discr_val(self, st, a, t):
        """The number of a known variant, as an operand of type t"""
        if a[0] != "discr":
            return a
        k = self.variant(st, a[1])
        vs = self.tinfo(a[2]).get("variants", [])
        if k is None or k >= len(vs):
            return a
        d = int(vs[k]["discr"])
        if t["k"] == "int":
            d %= 1 << t["bits"]
            if t.get("signed") and d >> (t["bits"] - 1):
                d -= 1 << t["bits"]
        return K(d)

    def discr_eq(self, st, a, b):
        va, vb = self.variant(st, a[1]), self.variant(st, b[1])
        if va is not None and vb is not None:
            return TRUE if va == vb else FALSE
        for k, o in ((va, b), (vb, a)):
            vs = self.tinfo(o[2]).get("variants", [])
            if k is not None and k < len(vs):
                return self.discr_is(st, o, int(vs[k]["discr"]))
        x, y = sorted((a, b), key=T.key)
        return TRUE if a == b else ("deq", x, y)

    # ------------------------------------------------------------------ execution
    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit("steps")

    def block(self, st, fr, bb):
        """Execute one block -> (list of (st, bb), list of Out)"""
        self.tick()
        sts, term, line, _cl = fr.inst["blocks"][bb]
        cur = [st]
        for s in sts:
            if s[0] == "=":
                nxt = []
                for c in cur:
                    dty = -1
                    for c2, v in self.rvalue(c, fr, s[2], dty):
                        obj, path, ty = self.place(c2, fr, s[1])
                        self.write(c2, obj, path, self.typed(v, ty))
                        nxt.append(c2)
                cur = nxt
            elif s[0] == "sd":
                for c in cur:
                    obj, path, ty = self.place(c, fr, s[1])
                    n = self.nfields(ty, s[2])
                    self.write(c, obj, path, ("agg", s[2], (UNDEF,) * n))
            elif s[0] == "cno":
                raise Limit("copy_nonoverlapping in " + fr.inst["name"])
        succ, outs = [], []
        for c in cur:
            self.term(c, fr, bb, term, line, succ, outs)
        return succ, outs

    def term(self, st, fr, bb, t, line, succ, outs):
        k = t[0]
        if k == "goto":
            succ.append((st, t[1]))
        elif k == "drop":
            succ.append((st, t[2]))
        elif k == "return":
            outs.append(Out("ret", st, self.read(st, ("L", fr.id, 0), ())))
        elif k in ("unreachable", "unwind"):
            pass
        elif k == "switch":
            self.switch(st, fr, t, succ)
        elif k == "assert":
            cond = self.operand(st, fr, t[1])
            if t[2] is False:
                cond = neg(cond)
            if t[3] == "other" or cond[0] in ("undef", "app", "discr"):
                succ.append((st, t[4]))
                return
            for s, ok in self.split(st, cond, data=False):
                if ok:
                    succ.append((s, t[4]))
                else:
                    outs.append(Out("panic", s, (t[3], fr.inst["name"], self.loc(fr, line))))
        elif k == "call":
            self.callterm(st, fr, t, line, succ, outs)
        else:
            raise Limit("terminator " + k)

    def loc(self, fr, line):
        return (fr.inst["path"], fr.inst["file"].split("/repo/")[-1], line)

    def switch(self, st, fr, t, succ):
        v = self.operand(st, fr, t[1])
        tg = [(int(x), b) for x, b in t[2]]
        if v[0] == "discr":
            ti = v[2]
            vs = self.tinfo(ti).get("variants", [])
            for s, i in self.split_variant(st, v[1], ti):
                d = int(vs[i]["discr"]) if i < len(vs) else i
                for x, b in tg:
                    if self.same_discr(x, d):
                        succ.append((s, b))
                        break
                else:
                    succ.append((s, t[3]))
            return
        if v[0] == "undef":
            return
        ty = self.tinfo(self.opty(fr, st, t[1]))
        if ty["k"] == "bool":
            d = dict(tg)
            for s, tr in self.split(st, v):
                x = 1 if tr else 0
                succ.append((s, d.get(x, t[3])))
            return
        cur = [st]
        for x, b in tg:
            if ty.get("signed") and x >> (ty["bits"] - 1):
                x -= 1 << ty["bits"]
            nxt = []
            for c in cur:
                for s, tr in self.split(c, eqi(v, K(x))):
                    if tr:
                        succ.append((s, b))
                    else:
                        nxt.append(s)
            cur = nxt
        for c in cur:
            succ.append((c, t[3]))

    @staticmethod
    def same_discr(x, d):
        if x == d:
            return True
        for bits in (8, 16, 32, 64, 128):
            if x == d % (1 << bits) and d >= (1 << (bits - 1)):
                return True
        m = 1 << 128
        return x % 256 == d % 256 and (d % m) > (1 << 100) or x % 256 == d % 256 and x == 255

    # -- calls
    def callterm(self, st, fr, t, line, succ, outs):
        _, cal, ops, dest, target, _l = t
        args = [self.operand(st, fr, o) for o in ops]
        loc = self.loc(fr, line)
        dobj, dpath, dty = self.place(st, fr, dest)
        if "inst" in cal:
            inst = self.F.insts[cal["inst"]]
            res = self.invoke(st, inst, args, cal.get("decl", ""), loc, fr.stack, dty)
        elif "fnptr" in cal:
            f = self.operand(st, fr, cal["fnptr"])
            if f[0] == "fn":
                inst = self.F.insts[self.tinfo(f[1])["callee"]["inst"]]
                res = self.invoke(st, inst, args, "", loc, fr.stack, dty)
            else:
                res = self.unknown(st, "fnptr", args, loc, dty)
        else:
            res = self.unknown(st, cal.get("unresolved", "?"), args, loc, dty)
        for o in res:
            if o.kind == "ret":
                if target >= 0:
                    self.write(o.st, dobj, dpath, self.typed(o.val, dty))
                    succ.append((o.st, target))
            else:
                outs.append(o)

    def rets(self, pairs):
        return [Out("ret", s, v) for s, v in pairs]

    def invoke(self, st, inst, args, decl, loc, stack, dty=-1):
        if "ctor" in inst:
            return [Out("ret", st, ("agg", inst["ctor"], tuple(args)))]
        key = natkey(inst)
        if inst["krate"] in USER and inst["file"].startswith("/"):
            self.visited.add(inst["path"])
        p = self.prims.get(key)
        if p is not None and inst["krate"] != "core":
            r = p(self, st, inst, args, loc, dty)
            if r is not None:
                return [o if isinstance(o, Out) else Out("ret", *o) for o in r]
        if inst["stop"]:
            r = self.opaque(st, inst, args, loc, dty)
            return [o if isinstance(o, Out) else Out("ret", *o) for o in r]
        import models
        f = models.lookup(self, inst, key)
        if f is not None:
            r = f(self, st, inst, args, loc, dty)
            if r is not None:
                return [o if isinstance(o, Out) else Out("ret", *o) for o in r]
        if key.endswith("::call_once") or key.endswith("::call_mut") or key.endswith("::call") or inst["closure"] or inst["kind"].startswith("shim_"):
            r = self.callfn(st, inst, args, decl, loc, stack, dty)
            if r is not None:
                return r
        if inst["blocks"] and models.inlinable(inst):
            return self.inline(st, inst, args, loc, stack, dty)
        if models.is_panic(inst):
            return [Out("panic", st, ("panic", inst["name"], loc))]
        return self.unknown(st, inst["name"], args, loc, dty)

    def inline(self, st, inst, args, loc, stack, dty=-1):
        if inst["id"] in stack:
            return self.recursive(st, inst, args, loc, dty)
        if len(stack) > 60:
            raise Limit("depth")
        if inst.get("spread", -1) >= 0 and len(args) != inst["argc"]:
            raise Limit("spread")
        return self.run_fn(st, inst, args, stack)

    def callfn(self, st, inst, args, decl, loc, stack, dty):
        """Calls through Fn* traits and their shims."""
        if inst["kind"] == "shim_drop":
            return [Out("ret", st, UNIT)]
        if inst["kind"] == "shim_clone":
            return [Out("ret", st, self.deref(st, args[0]))]
        if inst["closure"] and inst["kind"] == "item":
            viatrait = decl.split("::")[-1] in ("call_once", "call_mut", "call")
            if viatrait and len(args) == 2:
                args = [args[0]] + self.untuple(args[1], inst["argc"] - 1)
            return self.inline(st, inst, args, loc, stack, dty)
        if inst["kind"] == "shim_once" and inst["closure"]:
            for sts, t, _l, _c in inst["blocks"]:
                if t[0] == "call" and "inst" in t[1]:
                    inner = self.F.insts[t[1]["inst"]]
                    obj = ("H", st.new())
                    st.store[obj] = args[0]
                    rest = self.untuple(args[1], inner["argc"] - 1) if len(args) == 2 and decl else list(args[1:])
                    return self.inline(st, inner, [("ptr", obj, ())] + rest, loc, stack, dty)
        if inst["kind"] in ("shim_fnptr", "shim_reify"):
            for ti in inst["targs"]:
                t = self.tinfo(ti)
                if t["k"] == "fndef" and "inst" in t["callee"]:
                    inner = self.F.insts[t["callee"]["inst"]]
                    return self.invoke(st, inner, self.untuple(args[1], None), t["callee"].get("decl", ""), loc, stack, dty)
        # std's `impl Fn for &F`
        if inst["krate"] == "core" and inst.get("impl_self", "").startswith("&") and inst["blocks"]:
            return self.inline(st, inst, args, loc, stack, dty)
        return None

    def untuple(self, v, n):
        if v[0] == "agg":
            return list(v[2])
        return [("fld", v, 0, i) for i in range(n or 0)]

    def call_value(self, st, fv, fty, args, loc, stack=(), dty=-1):
        """Call a closure / fn item value of static type fty."""
        t = self.tinfo(fty)
        while t["k"] == "ref":
            fv = self.deref(st, fv)
            fty = t["to"]
            t = self.tinfo(fty)
        if t["k"] == "closure":
            inst = self.F.insts[t["inst"]]
            if t["ckind"] == "FnOnce":
                a0 = fv
            else:
                obj = ("H", st.new())
                st.store[obj] = fv
                a0 = ("ptr", obj, ())
            return self.inline(st, inst, [a0] + args, loc, stack, dty)
        if t["k"] == "fndef" and "inst" in t["callee"]:
            return self.invoke(st, self.F.insts[t["callee"]["inst"]], args, t["callee"].get("decl", ""), loc, stack, dty)
        return self.unknown(st, "call_value", args, loc, dty)

    def deref(self, st, p):
        if p[0] in ("ptr", "boxraw"):
            return self.read(st, p[1], p[2])
        o = ("D", p)
        return self.base(st, o)

    def ptrof(self, p):
        if p[0] in ("ptr", "boxraw"):
            return p[1], p[2]
        return ("D", p), ()

    def event(self, st, kind, args, out, res, loc, extra=None):
        uid = len(st.events)
        e = Ev(kind, args, out, res, loc, uid, extra)
        st.events = st.events + (e,)
        return e

    def ret_term(self, st, tag):
        return ("ret", st.new(), tag)

    def result_outs(self, st, kind, args, loc, ok_term, err_term, extra=None, on_ok=None):
        """Split a fallible primitive into its Ok and Err outcome."""
        s1 = st.copy()
        a1 = args
        v = ok_term
        self.event(s1, kind, a1, "Ok", v, loc, extra)
        if on_ok:
            on_ok(s1)
        s2 = st.copy()
        self.event(s2, kind, args, "Err", err_term, loc, extra)
        return [(s1, ("agg", 0, (v,))), (s2, ("agg", 1, (err_term,)))]

    def opaque(self, st, inst, args, loc, dty):
        import models
        return models.opaque(self, st, inst, args, loc, dty)

    def recursive(self, st, inst, args, loc, dty):
        ra = tuple(self.reify(st, a) for a in args)
        st = st.copy()
        return self.havoc_call(st, "rec:" + inst["path"], inst, args, ra, loc, dty)

    def havoc_call(self, st, kind, inst, args, ra, loc, dty):
        n = st.new()
        r = ("ret", n, kind)
        # pointees of &mut arguments become unknown
        if inst and inst["blocks"]:
            for i, a in enumerate(args):
                if i + 1 < len(inst["locals"]):
                    t = self.tinfo(inst["locals"][i + 1])
                    if t["k"] == "ref" and t["mut"] and not self.is_db(t["to"]):
                        obj, path = self.ptrof(a)
                        self.write(st, obj, path, ("fld", r, 9, i))
        t = self.tinfo(dty)
        if t["k"] == "adt" and t["path"].endswith("Result"):
            ok = ("fld", r, 0, 0)
            err = ("fld", r, 1, 0)
            if self.unit_ty(t["variants"][0]["fields"][0][1]):
                ok = UNIT
            return self.rets(self.result_outs(st, kind, ra, loc, ok, err))
        self.event(st, kind, ra, "", r, loc)
        return [Out("ret", st, r)]

    def unit_ty(self, ti):
        t = self.tinfo(ti)
        return t["k"] == "tuple" and not t["elems"]

    def is_db(self, ti):
        t = self.tinfo(ti)
        return t["k"] == "adt" and t["path"].split("::")[-1] in ("AnyDb", "AnyLeDb", "DigDb")

    def unknown(self, st, name, args, loc, dty):
        self.unknown_calls.setdefault(name, loc)
        st = st.copy()
        st.unk = st.unk + (name,)
        for a in args:
            if a[0] == "ptr":
                try:
                    self.write(st, a[1], a[2], ("unk", st.new()))
                except Limit:
                    pass
        self.event(st, "unknown:" + name, tuple(self.reify(st, a) for a in args), "", None, loc)
        return [Out("ret", st, ("unk", st.new()))]

    def run_fn(self, st, inst, args, stack):
        if inst["closure"] and len(args) != inst["argc"]:
            raise Limit("argc " + inst["name"])
        fr = Frame(st.new(), inst, stack + (inst["id"],))
        for i, a in enumerate(args):
            st.store[("L", fr.id, i + 1)] = self.typed(a, fr.locals[i + 1])
        outs = self.run(st, fr, 0)
        res = []
        for o in outs:
            if o.kind in ("ret", "panic"):
                if inst["promoted"]:
                    res.append(o)
                    continue
                s = o.st
                for k in [k for k in s.store if k[0] == "L" and k[1] == fr.id]:
                    del s.store[k]
                res.append(o)
        return res

    def run(self, st, fr, bb, head=None, region=None):
        loops = natural_loops(fr.inst)
        work = [(st, bb)]
        outs = []
        first = head is not None
        while work:
            s, b = work.pop()
            if head is not None and b == head and not first:
                outs.append(Out("back", s, None))
                continue
            if region is not None and b not in region:
                outs.append(Out("exit", s, b))
                continue
            if b in loops and not (first and b == head):
                r = self.loop(s, fr, b, loops[b])
                for o in r:
                    if o.kind == "exit":
                        work.append((o.st, o.val))
                    else:
                        outs.append(o)
                continue
            first = False
            succ, os = self.block(s, fr, b)
            outs.extend(os)
            work.extend(reversed(succ))
            if len(outs) + len(work) > self.MAXPATHS:
                raise Limit("paths in " + fr.inst["name"])
        return outs

    # ------------------------------------------------------------------ loops
    def loop(self, st, fr, head, body):
        r = self.peel(st, fr, head, body)
        if r is not None:
            return r
        return self.widen(st, fr, head, body)

    def peel(self, st, fr, head, body):
        cur = [st.copy()]
        done = []
        for _ in range(self.PEEL + 1):
            nxt = []
            for s in cur:
                d0 = s.dforks
                outs = self.run(s, fr, head, head, body)
                backs = [o for o in outs if o.kind == "back"]
                exits = [o for o in outs if o.kind == "exit"]
                if backs and any(e.st.dforks > d0 for e in exits):
                    return None
                if not backs and not exits and not outs:
                    continue
                done.extend(o for o in outs if o.kind != "back")
                nxt.extend(o.st for o in backs)
            if not nxt:
                return done
            if len(nxt) > 64:
                return None
            cur = nxt
        return None

    def diff(self, a, b, path, out):
        if a == b:
            return
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and len(a[2]) == len(b[2]):
            n = len(a[2])
            for i in range(n):
                self.diff(a[2][i], b[2][i], path + (("f", a[1], i, n),), out)
            return
        if a[0] != "agg" and b[0] == "agg" and b[1] == 0 and a[0] not in ("undef", "c", "ptr", "seq"):
            # symbolic struct expanded
            n = len(b[2])
            for i in range(n):
                self.diff(("fld", a, 0, i), b[2][i], path + (("f", 0, i, n),), out)
            return
        out.add(path)

    def widen(self, st, fr, head, body):
        self.loop_count += 1
        uid = st.new()
        loc = self.loc(fr, fr.inst["blocks"][head][2])
        prefix = st.events
        cells = {}
        for _round in range(8):
            sh = st.copy()
            sh.events = ()
            for (obj, path) in cells:
                self.write(sh, obj, path, ("phi", uid, self.cellname(fr, obj, path)))
            base_store = dict(sh.store)
            outs = self.run(sh.copy(), fr, head, head, body)
            newc = set()
            for o in outs:
                if o.kind != "back":
                    continue
                for obj in set(base_store) | set(o.st.store):
                    if obj[0] == "L" and obj not in base_store:
                        if obj[1] != fr.id:
                            continue
                        continue        # first defined inside: dead at the head
                    if obj[0] in ("H", "P") and obj not in base_store:
                        continue
                    a = self.base(sh, obj)
                    b = self.base(o.st, obj)
                    if a == b:
                        continue
                    d = set()
                    self.diff(a, b, (), d)
                    for p in d:
                        newc.add((obj, p))
            newc = {c for c in newc if c not in cells}
            if not newc:
                break
            allc = set(cells) | newc
            keep = {}
            for (obj, p) in allc:
                if any(o2 == obj and p2 != p and p[:len(p2)] == p2 for (o2, p2) in allc):
                    continue
                keep[(obj, p)] = True
            cells = keep
        else:
            raise Limit("loop does not stabilise in " + fr.inst["name"])
        us = self.unswitch(st, outs, uid, fr, head, body)
        if us is not None:
            return us
        backs = [o for o in outs if o.kind == "back"]
        info = LoopInfo(uid, loc)
        n = ("n", uid)
        closed = {}
        order = sorted(cells, key=repr)
        for c in order:
            obj, path = c
            name = self.cellname(fr, obj, path)
            phi = ("phi", uid, name)
            init = self.read(st, obj, path)
            nexts = [self.read(o.st, obj, path) for o in backs]
            cf = self.closed_form(st, init, phi, nexts, n, uid, name, fr)
            if cf is not None:
                closed[c] = cf
        # comprehension elements may mention other closed cells
        sh = st.copy()
        sh.events = ()
        sh.lin = sh.lin + (n,)
        m = {}
        for c in order:
            phi = ("phi", uid, self.cellname(fr, *c))
            if c in closed:
                m[phi] = closed[c]
        for c in order:
            obj, path = c
            phi = ("phi", uid, self.cellname(fr, obj, path))
            init = self.read(st, obj, path)
            v = self.fix_tab(closed[c], m, uid) if c in closed else phi
            info.cells[self.cellname(fr, obj, path)] = (init, v)
            self.write(sh, obj, path, v)
            if init[0] in ("c", "lin") and c not in closed:
                pass
        plen = len(sh.path)
        outs = self.run(sh, fr, head, head, body)
        res = []
        for o in outs:
            if o.kind == "back":
                nx = {}
                for c in order:
                    nx[self.cellname(fr, *c)] = self.read(o.st, *c)
                info.segs.append({"events": o.st.events, "conds": o.st.path[plen:], "nexts": nx, "st": o.st})
        heads = None
        for sgm in info.segs:
            cs = set(sgm["conds"])
            heads = cs if heads is None else heads & cs
        heads = heads or set()
        for o in outs:
            if o.kind == "back":
                continue
            s = o.st
            le_ = Ev("loop", (uid, None), "", None, loc, len(prefix), info)
            s.events = prefix + (le_,) + s.events
            guards = [c for c in s.path[plen:] if neg_cond(c) in heads]
            val = o.val
            if len(guards) == 1 and o.kind in ("exit", "ret", "panic"):
                at = len(prefix)
                tm = self.resolve_n(s, self.stronger(guards[0], heads, n), n)
                if tm is not None:
                    val = self.subst_state(s, {n: tm}, val, len(prefix) + 1, plen)
                    s.events = s.events[:at] + (s.events[at]._replace(args=(uid, tm)),) + s.events[at + 1:]
            res.append(Out(o.kind, s, val))
        top = max([o.st.nid for o in outs], default=0)
        for o in res:       # what follows the loop shares no name with what its iterations did
            o.st.nid = max(o.st.nid, top)
        return res

    UNSWITCH = 3

    def unswitch(self, st, outs, uid, fr, head, body):
        """A condition tested inside the loop that no iteration can change is decided first,
        and the loop is summarised once per outcome."""
        if self.unsw >= self.UNSWITCH:
            return None
        born = lambda t: t[0] in ("phi", "n", "ret", "unk") and len(t) > 1 and isinstance(t[1], int) and t[1] >= uid
        seen = {}
        for o in outs:
            for c in o.st.path[len(st.path):]:
                b = c[1] if c[0] == "not" else c
                if contains(b, born) or b[0] in ("isnot", "present"):
                    continue
                if b[0] == "is":
                    if self.variant(st, b[1]) is None:
                        seen.setdefault(("is", b[1]), {})[b[2]] = o.st.known.get(b[1], (b[2], 0))
                elif b[0] in ("ge0", "eq0"):
                    if self.decide(st, b) is None and T.contains(b, lambda t: t[0] == "sym"):
                        seen.setdefault(b, {})[c[0] != "not"] = None
        pick = [k for k in seen if len(seen[k]) > 1]
        if not pick:
            return None
        k = min(pick, key=T.key)
        self.unsw += 1
        res = []
        for val, kn in seen[k].items():
            s = st.copy()
            s.nid = uid
            if k[0] == "is":
                s.known[k[1]] = kn
                s.path = s.path + (("is", k[1], val),)
            else:
                cc = k if val else neg(k)
                if not self.assume(s, cc):
                    continue
                s.path = s.path + (cc,)
            s.dforks += 1
            res.extend(self.loop(s, fr, head, body))
        self.unsw -= 1
        return res

    def fix_tab(self, v, m, uid):
        """Make comprehension elements functions of the bound variable."""
        if v[0] != "seq":
            return v
        gs = []
        for g in v[1]:
            if g[0] == "tab" and g[4] is not None and g[1][0] == uid:
                e = subst(g[4], m)
                e = subst(e, {("n", uid): ("bv", g[1])})
                # a cell of this loop, or of one inside it, is no function of the bound variable
                if contains(e, lambda t: t[0] in ("phi", "n") and t[1] >= uid) or contains(e, lambda t: t[0] in ("undef", "ptr", "unk")):
                    e = None
                elif contains(e, lambda t: t[0] == "ret"):
                    # results of this iteration's events
                    e = ("iter", uid, ("bv", g[1]), e)
                gs.append(("tab", g[1], g[2], g[3], e))
            else:
                gs.append(g)
        return ("seq", tuple(gs))

    def closed_form(self, st, init, phi, nexts, n, uid, name, fr):
        if not nexts or init[0] == "undef":
            return None
        h = init[0]
        ds = set()
        ok = True
        for x in nexts:
            if x[0] in ("agg", "ptr", "undef", "boxraw", "map", "unk", "not"):
                ok = False
                break
            if x[0] == "seq" or phi[0] == "seq":
                ok = False
                break
            try:
                ds.add(sub(x, phi))
            except Exception:
                ok = False
                break
        if ok and len(ds) == 1:
            d = ds.pop()
            if d[0] == "c":
                return add(init, scale(n, d[1]))
        if ok:
            if all(x == scale(phi, 2) for x in nexts):
                return mul(init, pow2(n))
            if all(x == T.div(phi, K(2)) for x in nexts):
                return ("shr", init, n)
            if all(x == mul(phi, pow2(K(1))) for x in nexts):
                return mul(init, pow2(n))
        # appended exactly one element on every path
        if h == "seq" or True:
            elems = []
            for x in nexts:
                if x[0] != "seq" or len(x[1]) < 2:
                    elems = None
                    break
                g0 = x[1][0]
                if not (g0[0] == "sl" and g0[1] == phi and g0[2] == K(0) and g0[3] == self.lenof(phi)):
                    elems = None
                    break
                if len(x[1]) != 2 or self.seg_len(x[1][1]) != K(1):
                    elems = None
                    break
                elems.append(self.seg_at(x[1][1], K(0)))
            if elems:
                tid = (uid, name)
                e = None
                if len(set(elems)) == 1 and elems[0][0] not in ("ptr", "undef"):
                    e = elems[0]
                    if contains(e, lambda t: t[0] == "ptr"):
                        e = None
                return self.mkseq(list(self.segs(init)) + [("tab", tid, K(0), n, e)])
        # dropped exactly one element from the end
        if all(x[0] == "seq" and len(x[1]) == 1 and x[1][0][0] == "sl" and x[1][0][1] == phi
               and x[1][0][2] == K(0) and x[1][0][3] == add(self.lenof(phi), K(-1)) for x in nexts):
            tot = self.seq_len(init)
            return ("take", init, sub(tot, n), tot) if False else None
        return None

    def resolve_n(self, st, exitc, n):
        """Value of the iteration count given the exit condition of a loop's only guard."""
        c = exitc
        if not contains(c, lambda t: t == n):
            return None
        # exit: A - n < 0+1  i.e. not ge0(A - n - 1)
        pos = c[0] != "not"
        body = c if pos else c[1]
        if body[0] == "ge0":
            d = body[1] if pos else add(scale(body[1], -1), K(-1))   # d >= 0 holds at exit
            cc, ds = T.parts(d)
            k = ds.get(n)
            others = {b: v for b, v in ds.items() if b != n}
            if k == 1 and not any(contains(b, lambda t: t == n) for b in others):
                a = T.mk_lin(-cc, {b: -v for b, v in others.items()})   # n >= a at exit, n-1 < a before
                if lin.entails(st.lin_without(n) if hasattr(st, "lin_without") else tuple(f for f in st.lin if not contains(f, lambda t: t == n)), a):
                    return a
                return None
            p = ("pow2", n)
            if ds.get(p) == 1 and n not in ds and not any(contains(b, lambda t: t == n) for b in others if b != p):
                x = T.mk_lin(-cc, {b: -v for b, v in others.items() if b != p})
                return clog2(x)
        if body[0] == "eq0" and pos:
            cc, ds = T.parts(body[1])
            k = ds.get(n)
            others = {b: v for b, v in ds.items() if b != n}
            if k in (1, -1) and not any(contains(b, lambda t: t == n) for b in others):
                return T.mk_lin(-cc * k, {b: -v * k for b, v in others.items()})
        return least(subst(c, {n: ("bv", "n")}))

    def stronger(self, c, heads, n):
        """The loop is left by c; if c implies another exit condition b of the same loop then
        b first holds at this very iteration, and b names the iteration."""
        if c[0] != "eq0":
            return c
        cc, ds = T.parts(c[1])
        if len(ds) != 1:
            return c
        (x, k), = ds.items()
        if abs(k) != 1:
            return c
        m = {x: K(-cc * k)}
        best = c
        for h in sorted(heads, key=T.key):
            b = neg(h)
            if b != c and contains(b, lambda t: t == n) and not contains(b, lambda t: t[0] in ("phi", "ret", "unk", "present")) and subst(b, m) == T.TRUE:
                best = b
        return best

    def subst_state(self, st, m, val, evfrom, pathfrom):
        f = lambda t: subst(t, m)
        for k in list(st.store):
            v = st.store[k]
            st.store[k] = self.resub(st, f(v))
        st.lin = tuple(f(x) for x in st.lin)
        st.atoms = {f(k): v for k, v in st.atoms.items()}
        st.known = {f(k): v for k, v in st.known.items()}
        st.path = st.path[:pathfrom] + tuple(c for c in map(f, st.path[pathfrom:]) if not trivial(c))
        ev = []
        for i, e in enumerate(st.events):
            if i >= evfrom:
                e = e._replace(args=f(e.args), res=f(e.res) if e.res is not None else None)
            ev.append(e)
        st.events = tuple(ev)
        return f(val) if isinstance(val, tuple) else val

    def resub(self, st, v):
        return v

    def cellname(self, fr, obj, path):
        if obj[0] == "L":
            o = ("L", obj[2]) if obj[1] == fr.id else ("U", obj[1], obj[2])
        elif obj[0] == "H":
            o = ("H",)
        else:
            o = obj
        return (o, tuple(s[:3] for s in path))

    # ------------------------------------------------------------------ entry
    def analyse(self, inst, args=None, setup=None):
        self.steps = 0
        st = St()
        names = {n: nm for n, nm in inst.get("names", [])}
        vals = []
        for i in range(inst["argc"]):
            ti = inst["locals"][i + 1]
            nm = names.get(i + 1, f"a{i}")
            v = ("sym", nm)
            t = self.tinfo(ti)
            if args and nm in args:
                v = args[nm]
                if t["k"] == "ref":
                    obj = ("D", ("sym", nm))
                    st.store[obj] = v
                    v = ("ptr", obj, ())
            elif t["k"] == "ref":
                self.typed(v, t["to"])
                v = ("ptr", ("D", v), ())
            else:
                self.typed(v, ti)
            vals.append(v)
        if setup:
            setup(self, st)
        outs = self.run_fn(st, inst, vals, ())
        return outs, vals


def least(c):
    """Smallest n satisfying c; the first odd right shift is the number of trailing zeros."""
    bv = ("bv", "n")
    if c[0] == "not" and c[1][0] == "eq0":
        _, ds = T.parts(c[1][1])
        for b in ds:
            if b[0] == "shr" and b[2] == bv and T.parity({k: v for k, v in ds.items()}) and not contains(b[1], lambda t: t == bv):
                return ("app", "tz", b[1])
    return ("least", c)


def trivial(c):
    """A condition that holds for the shape of its terms alone."""
    if c == TRUE:
        return True
    if c[0] == "ge0":
        return lin.entails((), c[1])
    if c[0] == "not" and c[1][0] == "ge0":
        return lin.entails((), add(scale(c[1][1], -1), K(-1)))
    return False


def neg_cond(c):
    if c[0] == "is":
        return ("isnot",) + c[1:]
    return neg(c)


def clog2(x):
    if x[0] == "c":
        n = 0
        while (1 << n) < x[1]:
            n += 1
        return K(n)
    if x[0] == "pow2":
        return x[1]
    c, d = T.parts(x)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if k[0] == "pow2" and v & (v - 1) == 0 and v > 0:
            return add(k[1], K(v.bit_length() - 1))
    return ("clog2", x)


def all_events(events):
    """Every event of a trace, including those inside loop summaries (depth first)."""
    for e in events:
        if e.kind == "loop":
            for s in e.extra.segs:
                yield from all_events(s["events"])
        yield e
