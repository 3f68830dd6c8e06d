"""What the analyser knows about functions it does not walk into: std collections and integer
helpers (documented meaning over value terms) and the opaque stand-ins of the harness."""
import re
import terms as T
from terms import C as K, TRUE, FALSE, UNIT, App, add, sub, scale, lt, le, eqi, eqv, neg, land, lor, mul

UNDEF = ("undef",)
NONE = ("agg", 0, ())


def some(v):
    return ("agg", 1, (v,))


def ok(v):
    return ("agg", 0, (v,))


def err(v):
    return ("agg", 1, (v,))


def clog2(x):
    import interp
    return interp.clog2(x)


NATIVE = {}


def nat(*keys):
    def d(f):
        for k in keys:
            NATIVE[k] = f
        return f
    return d


def panic(I, st, what, loc):
    import interp
    return interp.Out("panic", st, (what, loc[0], loc))


def val(I, st, p):
    return I.deref(st, p)


def rd(I, st, p):
    o, pa = I.ptrof(p)
    return I.read(st, o, pa)


def wr(I, st, p, v):
    o, pa = I.ptrof(p)
    I.write(st, o, pa, v)


def seqval(I, st, p, inst=None):
    return rd(I, st, p)


SEQHEADS = ("Vec", "VecDeque", "[]", "[;]", "GenericArray", "Box", "Slice")


def seqkeys(*ms):
    return [h + "::" + m for h in ("Vec", "VecDeque", "[]", "[;]", "GenericArray") for m in ms]


# ---------------------------------------------------------------- constructors
@nat("Vec::new", "VecDeque::new", "Vec::default", "VecDeque::default", "Vec::with_capacity",
     "VecDeque::with_capacity", "new_in")
def vec_new(I, st, inst, args, loc, dty):
    return [(st, ("seq", ()))]


@nat("HashMap::new", "HashMap::default", "HashSet::new", "HashSet::default", "BTreeMap::new",
     "BTreeMap::default", "BTreeSet::new", "BTreeSet::default", "HashMap::with_capacity", "HashSet::with_capacity")
def map_new(I, st, inst, args, loc, dty):
    return [(st, ("app", "emptymap"))]


@nat("from_elem")
def from_elem(I, st, inst, args, loc, dty):
    return [(st, I.mkseq([("rep", args[0], args[1])]))]


@nat("Box::new", "Box::from", "Rc::new", "Arc::new", "black_box", "identity", "ManuallyDrop::new", "ManuallyDrop::into_inner",
     "Box::into_inner", "convert::identity", "Cell::new", "RefCell::new", "Wrapping::new")
def ident(I, st, inst, args, loc, dty):
    return [(st, args[0])]


@nat("box_new_uninit", "Box::new_uninit")
def box_uninit(I, st, inst, args, loc, dty):
    o = ("H", st.new())
    st.store[o] = UNDEF
    return [(st, ("boxraw", o, ()))]


@nat("box_assume_init_into_vec_unsafe")
def box_into_vec(I, st, inst, args, loc, dty):
    a = args[0]
    v = rd(I, st, a) if a[0] in ("ptr", "boxraw") else a
    while v[0] == "agg" and len(v[2]) >= 1:
        fs = [f for f in v[2] if f[0] != "undef"]
        if len(fs) != 1:
            break
        v = fs[0]
    return [(st, v)]


# ---------------------------------------------------------------- transparent pointers
@nat("Box::as_ref", "Box::as_mut", "Vec::deref", "Vec::deref_mut", "Vec::as_slice", "Vec::as_mut_slice", "Vec::as_ref",
     "Vec::as_mut", "Vec::borrow", "[;]::as_ref", "[;]::as_mut", "[]::as_ref", "[]::as_mut", "[;]::as_slice",
     "[;]::borrow", "Box::deref", "Box::deref_mut", "T::borrow", "T::borrow_mut", "Box::borrow", "ManuallyDrop::deref",
     "ManuallyDrop::deref_mut", "GenericArray::as_slice", "GenericArray::deref", "GenericArray::deref_mut",
     "GenericArray::as_mut_slice", "GenericArray::as_ref", "GenericArray::as_mut", "GenericArray::borrow",
     "VecDeque::as_slices_", "Rc::deref", "Arc::deref", "Rc::as_ref", "[;]::as_mut_slice", "VecDeque::make_contiguous",
     "GenericArray::from_slice", "Vec::into_boxed_slice", "[]::into_vec", "GenericArray::from_mut_slice")
def same(I, st, inst, args, loc, dty):
    return [(st, args[0])]


@nat("H256::as_bytes", "H512::as_bytes", "H160::as_bytes", "H256::as_ref_", "H256::as_fixed_bytes")
def hbytes(I, st, inst, args, loc, dty):
    o, p = I.ptrof(args[0])
    p = p + (("f", 0, 0, 1),)
    v = I.read(st, o, p)
    n = re.search(r"H(\d+)>?::", inst["path"])
    if n and v[0] in ("fld", "sym", "at", "ret", "app") and v not in I.lens:
        I.lens[v] = K(int(n.group(1)) // 8)
    return [(st, ("ptr", o, p))]


@nat("[]::to_vec", "T::to_vec", "Vec::clone", "Vec::to_vec", "[]::to_owned", "VecDeque::clone", "HashMap::clone", "HashSet::clone",
     "Box::clone", "GenericArray::clone", "BTreeMap::clone", "[;]::clone", "Option::clone", "Result::clone", "T::to_owned",
     "Range::clone", "RangeInclusive::clone", "Iter::clone", "IntoIter::clone")
def clone(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    return [(st, v)]


@nat("Vec::from", "VecDeque::from", "Box::from_slice")
def vec_from(I, st, inst, args, loc, dty):
    return [(st, rd(I, st, args[0]) if args[0][0] == "ptr" else args[0])]


# ---------------------------------------------------------------- sequence reads
@nat(*seqkeys("len"))
def s_len(I, st, inst, args, loc, dty):
    return [(st, I.seq_len(seqval(I, st, args[0])))]


@nat(*seqkeys("is_empty"))
def s_empty(I, st, inst, args, loc, dty):
    return [(st, eqi(I.seq_len(seqval(I, st, args[0])), K(0)))]


def elem_ptr(I, p, idx):
    o, pa = I.ptrof(p)
    if pa and pa[-1][0] == "sl":
        return ("ptr", o, pa[:-1] + (("i", add(pa[-1][1], idx)),))
    return ("ptr", o, pa + (("i", idx),))


def sub_ptr(I, p, frm, n):
    o, pa = I.ptrof(p)
    if pa and pa[-1][0] == "sl":
        return ("ptr", o, pa[:-1] + (("sl", add(pa[-1][1], frm), n),))
    return ("ptr", o, pa + (("sl", frm, n),))


def opt_elem(I, st, p, idx, cond):
    out = []
    for s, t in I.split(st, cond):
        out.append((s, some(elem_ptr(I, p, idx)) if t else NONE))
    return out


@nat("[]::last", "[]::last_mut", "VecDeque::back", "VecDeque::back_mut")
def s_last(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    return opt_elem(I, st, args[0], add(n, K(-1)), lt(K(0), n))


@nat("[]::first", "[]::first_mut", "VecDeque::front", "VecDeque::front_mut")
def s_first(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    return opt_elem(I, st, args[0], K(0), lt(K(0), n))


def index_range(I, inst, idx, n):
    """-> (kind, from, to) of an index argument"""
    h = (inst.get("impl_self") or "").split("<")[0].split("::")[-1]
    if h == "VecDeque":
        return "i", idx, None
    if h != "usize" and not h.startswith("Range"):
        # a container's method: the type parameters are the element's, then the index's
        h = None
        for ti in inst["targs"]:
            t = I.tinfo(ti)
            if t["k"] == "adt" and ("ops::" in t["path"] or "range" in t["path"].lower()):
                h = t["path"].split("::")[-1]
            elif t["s"] == "usize":
                h = "usize"
    f = list(idx[2]) if idx[0] == "agg" else [("fld", idx, 0, i) for i in range(3)]
    if h == "RangeFull":
        return "r", K(0), n
    if h == "Range":
        return "r", f[0], f[1]
    if h == "RangeFrom":
        return "r", f[0], n
    if h == "RangeTo":
        return "r", K(0), f[0]
    if h == "RangeInclusive":
        return "r", f[0], add(f[1], K(1))
    if h == "RangeToInclusive":
        return "r", K(0), add(f[0], K(1))
    return "i", idx, None


@nat("[]::get", "[]::get_mut", "VecDeque::get", "VecDeque::get_mut")
def s_get(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    k, a, b = index_range(I, inst, args[1], n)
    if k == "i":
        return opt_elem(I, st, args[0], a, lt(a, n))
    out = []
    for s, t in I.split(st, land(le(a, b), le(b, n))):
        out.append((s, some(sub_ptr(I, args[0], a, sub(b, a))) if t else NONE))
    return out


def do_index(I, st, inst, p, idx, loc):
    n = I.seq_len(seqval(I, st, p))
    k, a, b = index_range(I, inst, idx, n)
    out = []
    cond = lt(a, n) if k == "i" else land(le(a, b), le(b, n))
    for s, t in I.split(st, cond, data=False):
        if not t:
            out.append(panic(I, s, "index", loc))
        else:
            out.append((s, elem_ptr(I, p, a) if k == "i" else sub_ptr(I, p, a, sub(b, a))))
    return out


@nat(*seqkeys("index", "index_mut"))
def s_index(I, st, inst, args, loc, dty):
    return do_index(I, st, inst, args[0], args[1], loc)


@nat("usize::index", "usize::index_mut", "Range::index", "Range::index_mut", "RangeFrom::index", "RangeFrom::index_mut",
     "RangeTo::index", "RangeTo::index_mut", "RangeFull::index", "RangeFull::index_mut")
def si_index(I, st, inst, args, loc, dty):
    return do_index(I, st, inst, args[1], args[0], loc)


@nat("[]::split_at", "[]::split_at_mut")
def split_at(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    out = []
    for s, t in I.split(st, le(args[1], n), data=False):
        if not t:
            out.append(panic(I, s, "split_at", loc))
        else:
            out.append((s, ("agg", 0, (sub_ptr(I, args[0], K(0), args[1]), sub_ptr(I, args[0], args[1], sub(n, args[1]))))))
    return out


@nat("[]::split_first", "[]::split_last")
def split_first(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    out = []
    last = inst["path"].endswith("last")
    for s, t in I.split(st, lt(K(0), n)):
        if not t:
            out.append((s, NONE))
        elif last:
            out.append((s, some(("agg", 0, (elem_ptr(I, args[0], add(n, K(-1))), sub_ptr(I, args[0], K(0), add(n, K(-1))))))))
        else:
            out.append((s, some(("agg", 0, (elem_ptr(I, args[0], K(0)), sub_ptr(I, args[0], K(1), add(n, K(-1))))))))
    return out


@nat("[]::contains", "Vec::contains", "VecDeque::contains")
def s_contains(I, st, inst, args, loc, dty):
    v = I.reify(st, rd(I, st, args[0]))
    x = I.reify(st, args[1])
    segs = I.segs(v)
    if all(g[0] == "e" for g in segs):
        c = FALSE
        for g in segs:
            c = lor(c, eqv(I.reify(st, g[1]), x))
        return [(st, c)]
    return [(st, ("elem", x, v))]


@nat("[]::concat", "[]::join")
def s_concat(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    if v[0] == "seq" and all(g[0] == "e" for g in v[1]):
        return [(st, I.cat(*[rd(I, st, g[1]) if g[1][0] == "ptr" else g[1] for g in v[1]]))]
    return None


# ---------------------------------------------------------------- sequence writes
@nat("Vec::push", "VecDeque::push_back")
def push(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    wr(I, st, args[0], I.mkseq(list(I.segs(v)) + [("e", args[1])]))
    return [(st, UNIT)]


@nat("VecDeque::push_front")
def push_front(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    wr(I, st, args[0], I.mkseq([("e", args[1])] + list(I.segs(v))))
    return [(st, UNIT)]


@nat("Vec::insert", "VecDeque::insert")
def vinsert(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    a = I.cut(st, v, args[1])
    if a is None:
        return None
    wr(I, st, args[0], I.mkseq(list(a[0]) + [("e", args[2])] + list(a[1])))
    return [(st, UNIT)]


@nat("Vec::pop", "VecDeque::pop_back")
def pop(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    out = []
    for s, t in I.split(st, lt(K(0), n)):
        if not t:
            out.append((s, NONE))
            continue
        x = I.seq_at(s, v, add(n, K(-1)))
        wr(I, s, args[0], I.seq_slice(s, v, K(0), add(n, K(-1))))
        out.append((s, some(x)))
    return out


@nat("VecDeque::pop_front")
def pop_front(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    out = []
    for s, t in I.split(st, lt(K(0), n)):
        if not t:
            out.append((s, NONE))
            continue
        x = I.seq_at(s, v, K(0))
        wr(I, s, args[0], I.seq_slice(s, v, K(1), add(n, K(-1))))
        out.append((s, some(x)))
    return out


@nat("Vec::remove", "Vec::swap_remove")
def vremove(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    sw = inst["path"].endswith("swap_remove")
    out = []
    for s, t in I.split(st, lt(args[1], n), data=False):
        if not t:
            out.append(panic(I, s, "remove", loc))
            continue
        x = I.seq_at(s, v, args[1])
        if sw:
            last = I.seq_at(s, v, add(n, K(-1)))
            w = I.seq_slice(s, I.seq_set(s, v, args[1], last), K(0), add(n, K(-1)))
        else:
            a, b = I.cut(s, v, args[1]), I.cut(s, v, add(args[1], K(1)))
            if a is None or b is None:
                return None
            w = I.mkseq(list(a[0]) + list(b[1]))
        wr(I, s, args[0], w)
        out.append((s, x))
    return out


@nat("Vec::clear", "VecDeque::clear")
def vclear(I, st, inst, args, loc, dty):
    wr(I, st, args[0], ("seq", ()))
    return [(st, UNIT)]


@nat("HashMap::clear", "HashSet::clear", "BTreeMap::clear")
def mclear(I, st, inst, args, loc, dty):
    wr(I, st, args[0], ("app", "emptymap"))
    return [(st, UNIT)]


@nat("Vec::append", "VecDeque::append")
def append(I, st, inst, args, loc, dty):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    wr(I, st, args[0], I.cat(a, b))
    wr(I, st, args[1], ("seq", ()))
    return [(st, UNIT)]


@nat("Vec::extend_from_slice")
def extend_from_slice(I, st, inst, args, loc, dty):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    wr(I, st, args[0], I.cat(a, b))
    return [(st, UNIT)]


@nat("Vec::resize", "VecDeque::resize")
def resize(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    out = []
    for s, t in I.split(st, le(n, args[1])):
        if t:
            w = I.mkseq(list(I.segs(v)) + [("rep", args[2], sub(args[1], n))])
        else:
            w = I.seq_slice(s, v, K(0), args[1])
        wr(I, s, args[0], w)
        out.append((s, UNIT))
    return out


@nat("Vec::truncate", "VecDeque::truncate")
def truncate(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    out = []
    for s, t in I.split(st, lt(args[1], n)):
        if t:
            wr(I, s, args[0], I.seq_slice(s, v, K(0), args[1]))
        out.append((s, UNIT))
    return out


@nat("Vec::split_off")
def split_off(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    out = []
    for s, t in I.split(st, le(args[1], n), data=False):
        if not t:
            out.append(panic(I, s, "split_off", loc))
            continue
        w = I.seq_slice(s, v, args[1], sub(n, args[1]))
        wr(I, s, args[0], I.seq_slice(s, v, K(0), args[1]))
        out.append((s, w))
    return out


@nat("Vec::drain")
def drain(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    n = I.seq_len(v)
    k, a, b = index_range(I, inst, args[1], n)
    if k != "r":
        return None
    out = []
    for s, t in I.split(st, land(le(a, b), le(b, n)), data=False):
        if not t:
            out.append(panic(I, s, "drain", loc))
            continue
        x, y = I.cut(s, v, a), I.cut(s, v, b)
        if x is None or y is None:
            return None
        w = I.seq_slice(s, v, a, sub(b, a))
        wr(I, s, args[0], I.mkseq(list(x[0]) + list(y[1])))
        out.append((s, ("agg", 0, (w, K(0), sub(b, a)))))
    return out


def rev_seq(I, v):
    if v[0] == "app" and v[1] == "rev":
        return v[2]
    gs = []
    for g in reversed(I.segs(v)):
        if g[0] in ("e", "rep"):
            gs.append(g)
        else:
            if g[0] == "sl" and g[1][0] == "app" and g[1][1] == "rev" and g[2] == K(0) and g[3] == I.lenof(g[1]):
                gs.extend(I.segs(g[1][2]))
                continue
            t = ("app", "rev", ("seq", (g,)))
            I.lens[t] = I.seg_len(g)
            gs.append(("sl", t, K(0), I.seg_len(g)))
    return I.mkseq(gs)


@nat("[]::reverse")
def reverse(I, st, inst, args, loc, dty):
    wr(I, st, args[0], rev_seq(I, rd(I, st, args[0])))
    return [(st, UNIT)]


@nat("[]::copy_from_slice", "[]::clone_from_slice")
def copy_from_slice(I, st, inst, args, loc, dty):
    d, s_ = rd(I, st, args[0]), rd(I, st, args[1])
    out = []
    for s, t in I.split(st, eqi(I.seq_len(d), I.seq_len(s_)), data=False):
        if not t:
            out.append(panic(I, s, "copy_from_slice", loc))
            continue
        wr(I, s, args[0], s_ if s_[0] == "seq" else ("seq", I.segs(s_)))
        out.append((s, UNIT))
    return out


@nat("[]::fill")
def fill(I, st, inst, args, loc, dty):
    n = I.seq_len(rd(I, st, args[0]))
    wr(I, st, args[0], I.mkseq([("rep", args[1], n)]))
    return [(st, UNIT)]


@nat("[]::swap")
def sswap(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    a, b = I.seq_at(st, v, args[1]), I.seq_at(st, v, args[2])
    v = I.seq_set(st, v, args[1], b)
    v = I.seq_set(st, v, args[2], a)
    wr(I, st, args[0], v)
    return [(st, UNIT)]


# ---------------------------------------------------------------- iteration over sequences
@nat("[]::iter", "[]::iter_mut", "&[]::into_iter", "&mut []::into_iter", "&&mut []::into_iter", "&[;]::into_iter",
     "&mut &[;]::into_iter", "&mut &[]::into_iter", "VecDeque::iter", "VecDeque::iter_mut", "&Vec::into_iter", "&mut &Vec::into_iter",
     "&VecDeque::into_iter", "&GenericArray::into_iter", "GenericArray::iter", "&mut []::into_iter", "&mut [;]::into_iter",
     "&mut Vec::into_iter", "&mut VecDeque::into_iter", "&mut GenericArray::into_iter")
def s_iter(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    return [(st, ("agg", 0, (args[0], K(0), n)))]


@nat("Vec::into_iter", "VecDeque::into_iter", "[;]::into_iter", "GenericArray::into_iter")
def v_into_iter(I, st, inst, args, loc, dty):
    return [(st, ("agg", 0, (args[0], K(0), I.seq_len(args[0]))))]


@nat("HashMap::into_iter", "BTreeMap::into_iter", "HashSet::into_iter", "BTreeSet::into_iter", "HashMap::drain")
def m_into_iter(I, st, inst, args, loc, dty):
    m = args[0]
    if inst["path"].endswith("drain"):
        v = rd(I, st, m)
        wr(I, st, m, ("app", "emptymap"))
        m = v
    b = ("app", "entries", I.reify(st, m))
    return [(st, ("agg", 0, (b, K(0), I.lenof(b))))]


@nat("HashMap::iter", "&HashMap::into_iter", "BTreeMap::iter", "&BTreeMap::into_iter", "HashMap::keys", "HashMap::values",
     "HashSet::iter", "&HashSet::into_iter", "BTreeMap::keys", "BTreeMap::values")
def m_iter(I, st, inst, args, loc, dty):
    m = I.reify(st, args[0])
    b = ("app", "refentries:" + inst["path"].split("::")[-1] + (":set" if "Set" in (inst.get("impl_self") or "") else ""), m)
    return [(st, ("agg", 0, (b, K(0), I.lenof(("app", "entries", m)))))]


def iter_next(back):
    def f(I, st, inst, args, loc, dty):
        o, p = I.ptrof(args[0])
        it = I.read(st, o, p)
        if it[0] != "agg" or len(it[2]) != 3:
            return None
        src, a, b = it[2]
        out = []
        for s, t in I.split(st, lt(a, b)):
            if not t:
                out.append((s, NONE))
                continue
            idx = add(b, K(-1)) if back else a
            if src[0] == "app" and src[1].startswith("refentries"):
                e = ("at", ("app", "entries", src[2]), idx)
                tag = src[1]
                ko, vo = ("H", s.new()), ("H", s.new())
                s.store[ko] = e if tag.endswith(":set") else ("fld", e, 0, 0)
                s.store[vo] = ("fld", e, 0, 1)
                kp, vp = ("ptr", ko, ()), ("ptr", vo, ())
                x = kp if ("keys" in tag or tag.endswith(":set")) else vp if "values" in tag else ("agg", 0, (kp, vp))
            elif by_ref(inst):
                x = elem_ptr(I, src, idx)
            else:
                x = I.seq_at(s, src, idx)
            I.write(s, o, p, ("agg", 0, (src, a if back else add(a, K(1)), add(b, K(-1)) if back else b)))
            out.append((s, some(x)))
        return out
    return f


def by_ref(inst):
    h = (inst.get("impl_self") or "").split("<")[0].split("::")[-1]
    return h in ("Iter", "IterMut")


NATIVE["Iter::next"] = NATIVE["IterMut::next"] = iter_next(False)
NATIVE["Iter::next_back"] = NATIVE["IterMut::next_back"] = iter_next(True)
for _h in ("IntoIter", "Drain", "Keys", "Values", "GenericArrayIter"):
    NATIVE[_h + "::next"] = iter_next(False)
    NATIVE[_h + "::next_back"] = iter_next(True)


@nat("Iter::len", "IterMut::len", "IntoIter::len")
def it_len(I, st, inst, args, loc, dty):
    it = rd(I, st, args[0])
    if it[0] != "agg" or len(it[2]) != 3:
        return None
    return [(st, sub(it[2][2], it[2][1]))]


@nat("[]::chunks", "[]::chunks_exact")
def chunks(I, st, inst, args, loc, dty):
    n = I.seq_len(seqval(I, st, args[0]))
    return [(st, ("agg", 0, (args[0], K(0), n, args[1])))]


@nat("Chunks::next", "ChunksExact::next")
def chunks_next(I, st, inst, args, loc, dty):
    o, p = I.ptrof(args[0])
    it = I.read(st, o, p)
    if it[0] != "agg" or len(it[2]) != 4:
        return None
    src, a, b, c = it[2]
    exact = "Exact" in inst["impl_self"]
    out = []
    if exact:
        for s, t in I.split(st, le(add(a, c), b)):
            if not t:
                out.append((s, NONE))
                continue
            I.write(s, o, p, ("agg", 0, (src, add(a, c), b, c)))
            out.append((s, some(sub_ptr(I, src, a, c))))
        return out
    for s, t in I.split(st, lt(a, b)):
        if not t:
            out.append((s, NONE))
            continue
        for s2, full in I.split(s, le(add(a, c), b), data=False):
            I.write(s2, o, p, ("agg", 0, (src, add(a, c), b, c)))
            out.append((s2, some(sub_ptr(I, src, a, c if full else sub(b, a)))))
    return out


# ranges are plain structs (start, end); RangeInclusive (start, end, exhausted)
def range_step(back):
    def f(I, st, inst, args, loc, dty):
        o, p = I.ptrof(args[0])
        it = I.read(st, o, p)
        if it[0] != "agg":
            it = ("agg", 0, tuple(("fld", it, 0, i) for i in range(2)))
        a, b = it[2][0], it[2][1]
        out = []
        for s, t in I.split(st, lt(a, b)):
            if not t:
                out.append((s, NONE))
                continue
            if back:
                I.write(s, o, p, ("agg", 0, (a, add(b, K(-1)))))
                out.append((s, some(add(b, K(-1)))))
            else:
                I.write(s, o, p, ("agg", 0, (add(a, K(1)), b)))
                out.append((s, some(a)))
        return out
    return f


NATIVE["A::next"] = None


@nat("RangeInclusive::new")
def ri_new(I, st, inst, args, loc, dty):
    return [(st, ("agg", 0, (args[0], args[1], FALSE)))]


def rangeinc_next(back):
    def f(I, st, inst, args, loc, dty):
        o, p = I.ptrof(args[0])
        it = I.read(st, o, p)
        if it[0] != "agg" or len(it[2]) < 3:
            return None
        a, b, ex = it[2]
        # kept as (start, end) with end exclusive shifted: exhausted <=> start > end
        if ex == TRUE:
            return [(st, NONE)]
        out = []
        for s, t in I.split(st, le(a, b)):
            if not t:
                out.append((s, NONE))
            elif back:
                I.write(s, o, p, ("agg", 0, (a, add(b, K(-1)), FALSE)))
                out.append((s, some(b)))
            else:
                I.write(s, o, p, ("agg", 0, (add(a, K(1)), b, FALSE)))
                out.append((s, some(a)))
        return out
    return f


NATIVE["RangeInclusive::next"] = rangeinc_next(False)
NATIVE["RangeInclusive::next_back"] = rangeinc_next(True)
NATIVE["Range::next"] = NATIVE["Range::spec_next"] = range_step(False)
NATIVE["Range::next_back"] = NATIVE["Range::spec_next_back"] = range_step(True)


def range_size(I, st, v):
    it = rd(I, st, v)
    if it[0] != "agg":
        it = ("agg", 0, tuple(("fld", it, 0, i) for i in range(2)))
    a, b = it[2][0], it[2][1]
    return [(s, sub(b, a) if t else K(0)) for s, t in I.split(st, lt(a, b))]


@nat("Range::len")
def r_len(I, st, inst, args, loc, dty):
    return range_size(I, st, args[0])


@nat("Range::size_hint")
def r_hint(I, st, inst, args, loc, dty):
    return [(s, ("agg", 0, (n, some(n)))) for s, n in range_size(I, st, args[0])]


@nat("Range::contains")
def rcontains(I, st, inst, args, loc, dty):
    r = rd(I, st, args[0])
    x = rd(I, st, args[1])
    if r[0] != "agg":
        return None
    return [(st, land(le(r[2][0], x), lt(x, r[2][1])))]


# ---------------------------------------------------------------- maps
def mapval(I, st, p):
    return rd(I, st, p)


def deep(I, st, v):
    return I.reify(st, v)


@nat("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def m_get(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        out.append((s, NONE if v is None else some(("ptr", o, p + (("k", k),)))))
    return out


@nat("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def m_contains(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    return [(s, FALSE if v is None else TRUE) for s, v in I.map_lookup(st, mapval(I, st, args[0]), k)]


@nat("HashMap::index", "BTreeMap::index")
def m_index(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        out.append(panic(I, s, "index", loc) if v is None else (s, ("ptr", o, p + (("k", k),))))
    return out


@nat("HashMap::insert", "BTreeMap::insert")
def m_insert(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    m = I.read(st, o, p)
    for s, v in I.map_lookup(st, m, k):
        I.write(s, o, p, I.map_put(I.read(s, o, p), k, args[2]))
        out.append((s, NONE if v is None else some(v)))
    return merge_unused(I, st, out)


def merge_unused(I, st, out):
    return out


@nat("HashSet::insert", "BTreeSet::insert")
def set_insert(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        if v is None:
            I.write(s, o, p, I.map_put(I.read(s, o, p), k, UNIT))
        out.append((s, TRUE if v is None else FALSE))
    return out


@nat("HashMap::remove", "BTreeMap::remove")
def m_remove(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        if v is not None:
            I.write(s, o, p, I.map_put(I.read(s, o, p), k, ("absent",)))
        out.append((s, NONE if v is None else some(v)))
    return out


@nat("HashSet::remove", "BTreeSet::remove")
def set_remove(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        if v is not None:
            I.write(s, o, p, I.map_put(I.read(s, o, p), k, ("absent",)))
        out.append((s, FALSE if v is None else TRUE))
    return out


@nat("HashMap::is_empty", "HashMap::len", "HashSet::is_empty", "HashSet::len", "BTreeMap::len", "BTreeMap::is_empty")
def m_len(I, st, inst, args, loc, dty):
    m = deep(I, st, args[0])
    n = K(0) if m == ("app", "emptymap") else ("app", "maplen", m)
    return [(st, n if inst["path"].endswith("len") else eqi(n, K(0)))]


def variant_index(I, dty, name):
    t = I.tinfo(dty)
    for i, v in enumerate(t.get("variants", [])):
        if v["name"] == name:
            return i
    return None


@nat("HashMap::entry", "BTreeMap::entry")
def m_entry(I, st, inst, args, loc, dty):
    k = deep(I, st, args[1])
    o, p = I.ptrof(args[0])
    occ, vac = variant_index(I, dty, "Occupied"), variant_index(I, dty, "Vacant")
    if occ is None:
        return None
    out = []
    for s, v in I.map_lookup(st, I.read(st, o, p), k):
        e = ("agg", 0, (("ptr", o, p), k))
        out.append((s, ("agg", vac if v is None else occ, (e,))))
    return out


def entry_parts(I, st, e, inst, ti=None):
    if e[0] != "agg":
        return None
    h = e[2][0]
    mp, k = h[2]
    return mp, k


def is_occ(I, st, mp, k):
    r = I.map_lookup(st, rd(I, st, mp), k)
    return len(r) == 1 and r[0][1] is not None


def slot(mp, k):
    return ("ptr", mp[1], mp[2] + (("k", k),))


@nat("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with", "Entry::and_modify", "Entry::or_insert_with_key")
def or_insert(I, st, inst, args, loc, dty):
    e = args[0]
    pk = entry_parts(I, st, e, inst)
    if pk is None:
        return None
    mp, k = pk
    m = inst["path"].split("::")[-1]
    occ = is_occ(I, st, mp, k)
    if m == "and_modify":
        if not occ:
            return [(st, e)]
        fty = inst["targs"][-1]
        out = []
        for o in I.call_value(st, args[1], fty, [slot(mp, k)], loc):
            out.append(o._replace(val=e) if o.kind == "ret" else o)
        return out
    if occ:
        return [(st, slot(mp, k))]
    if m == "or_insert":
        wr(I, st, mp, I.map_put(rd(I, st, mp), k, args[1]))
        return [(st, slot(mp, k))]
    if m == "or_default":
        t = I.tinfo(dty)
        d = default_of(I, t.get("to", -1))
        if d is None:
            return None
        wr(I, st, mp, I.map_put(rd(I, st, mp), k, d))
        return [(st, slot(mp, k))]
    if m == "or_insert_with":
        out = []
        for o in I.call_value(st, args[1], inst["targs"][-1], [], loc):
            if o.kind == "ret":
                wr(I, o.st, mp, I.map_put(rd(I, o.st, mp), k, o.val))
                out.append((o.st, slot(mp, k)))
            else:
                out.append(o)
        return out
    return None


@nat("OccupiedEntry::get", "OccupiedEntry::get_mut")
def oe_get(I, st, inst, args, loc, dty):
    mp, k = rd(I, st, args[0])[2]
    return [(st, slot(mp, k))]


@nat("OccupiedEntry::into_mut")
def oe_into_mut(I, st, inst, args, loc, dty):
    mp, k = args[0][2]
    return [(st, slot(mp, k))]


@nat("OccupiedEntry::insert")
def oe_insert(I, st, inst, args, loc, dty):
    mp, k = rd(I, st, args[0])[2]
    old = rd(I, st, slot(mp, k))
    wr(I, st, mp, I.map_put(rd(I, st, mp), k, args[1]))
    return [(st, old)]


@nat("OccupiedEntry::remove")
def oe_remove(I, st, inst, args, loc, dty):
    mp, k = args[0][2]
    old = rd(I, st, slot(mp, k))
    wr(I, st, mp, I.map_put(rd(I, st, mp), k, ("absent",)))
    return [(st, old)]


@nat("VacantEntry::insert")
def ve_insert(I, st, inst, args, loc, dty):
    mp, k = args[0][2]
    wr(I, st, mp, I.map_put(rd(I, st, mp), k, args[1]))
    return [(st, slot(mp, k))]


# ---------------------------------------------------------------- defaults
def default_of(I, ti):
    t = I.tinfo(ti)
    k = t["k"]
    if k == "int":
        return K(0)
    if k == "bool":
        return FALSE
    if k == "tuple":
        fs = [default_of(I, x) for x in t["elems"]]
        return None if any(f is None for f in fs) else ("agg", 0, tuple(fs))
    if k == "array":
        d = default_of(I, t["elem"])
        return None if d is None or t["len"] < 0 else I.mkseq([("rep", d, K(t["len"]))])
    if k == "adt":
        h = t["path"].split("::")[-1]
        if h == "GenericArray":
            n = I.F.typenum(t["args"][1])
            d = default_of(I, t["args"][0])
            return None if d is None or n is None else I.mkseq([("rep", d, K(n))])
        if h in ("Vec", "VecDeque"):
            return ("seq", ())
        if h in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            return ("app", "emptymap")
        if h == "Option":
            return NONE
        if h == "U256":
            return K(0)
        if h == "PhantomData":
            return ("agg", 0, ())
        if h.startswith("Any") or h in ("LC",):
            return ("app", "default:" + h)
    return None


def do_default(I, st, inst, args, loc, dty):
    d = default_of(I, dty)
    return None if d is None else [(st, d)]


for _t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "bool", "()", "U256", "PhantomData",
           "GenericArray", "Option", "[;]"):
    NATIVE[_t + "::default"] = do_default


# ---------------------------------------------------------------- mem / ptr
@nat("swap")
def mem_swap(I, st, inst, args, loc, dty):
    if len(args) != 2:
        return None
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    wr(I, st, args[0], b)
    wr(I, st, args[1], a)
    return [(st, UNIT)]


@nat("replace")
def mem_replace(I, st, inst, args, loc, dty):
    if inst["krate"] not in ("core", "std") or len(args) != 2:
        return None
    a = rd(I, st, args[0])
    wr(I, st, args[0], args[1])
    return [(st, a)]


@nat("take")
def mem_take(I, st, inst, args, loc, dty):
    if inst["krate"] not in ("core", "std") or len(args) != 1:
        return None
    d = default_of(I, dty)
    if d is None:
        return None
    a = rd(I, st, args[0])
    wr(I, st, args[0], d)
    return [(st, a)]


@nat("Option::take")
def opt_take(I, st, inst, args, loc, dty):
    a = rd(I, st, args[0])
    wr(I, st, args[0], NONE)
    return [(st, a)]


@nat("Option::replace", "Option::insert_")
def opt_replace(I, st, inst, args, loc, dty):
    a = rd(I, st, args[0])
    wr(I, st, args[0], some(args[1]))
    return [(st, a)]


@nat("read")
def ptr_read(I, st, inst, args, loc, dty):
    if inst["krate"] != "core":
        return None
    return [(st, rd(I, st, args[0]))]


@nat("write")
def ptr_write(I, st, inst, args, loc, dty):
    if inst["krate"] != "core" or len(args) != 2:
        return None
    wr(I, st, args[0], args[1])
    return [(st, UNIT)]


@nat("forget", "drop", "precondition_check", "assert_unchecked", "cold_path", "drop_in_place", "Vec::reserve", "VecDeque::reserve",
     "HashMap::reserve", "Vec::shrink_to_fit")
def noop(I, st, inst, args, loc, dty):
    if inst["krate"] in ("bm", "bm_le"):
        return None
    return [(st, UNIT)]


# ---------------------------------------------------------------- integers
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def ints(*ms):
    return [t + "::" + m for t in INTS for m in ms]


def bits(inst):
    s = inst.get("impl_self") or ""
    t = s.strip().split("::")[-1]
    if t in ("usize", "isize"):
        return 64
    try:
        return int(t[1:])
    except ValueError:
        return 64


@nat(*ints("eq"))
def i_eq(I, st, inst, args, loc, dty):
    return [(st, eqi(rd(I, st, args[0]), rd(I, st, args[1])))]


@nat(*ints("ne"))
def i_ne(I, st, inst, args, loc, dty):
    return [(st, neg(eqi(rd(I, st, args[0]), rd(I, st, args[1]))))]


@nat(*(ints("lt") + ["U256::lt"]))
def i_lt(I, st, inst, args, loc, dty):
    return [(st, lt(rd(I, st, args[0]), rd(I, st, args[1])))]


@nat(*(ints("le") + ["U256::le"]))
def i_le(I, st, inst, args, loc, dty):
    return [(st, le(rd(I, st, args[0]), rd(I, st, args[1])))]


@nat(*(ints("gt") + ["U256::gt"]))
def i_gt(I, st, inst, args, loc, dty):
    return [(st, lt(rd(I, st, args[1]), rd(I, st, args[0])))]


@nat(*(ints("ge") + ["U256::ge"]))
def i_ge(I, st, inst, args, loc, dty):
    return [(st, le(rd(I, st, args[1]), rd(I, st, args[0])))]


@nat(*(ints("cmp") + ["U256::cmp"]))
def i_cmp(I, st, inst, args, loc, dty):
    a, b = rd(I, st, args[0]), rd(I, st, args[1])
    out = []
    for s, t in I.split(st, lt(a, b)):
        if t:
            out.append((s, ("agg", 0, ())))
        else:
            for s2, t2 in I.split(s, eqi(a, b)):
                out.append((s2, ("agg", 1 if t2 else 2, ())))
    return out


@nat(*(ints("partial_cmp") + ["U256::partial_cmp"]))
def i_pcmp(I, st, inst, args, loc, dty):
    return [(s, some(v)) for s, v in i_cmp(I, st, inst, args, loc, dty)]


@nat("min", "Ord::min", *ints("min"))
def i_min(I, st, inst, args, loc, dty):
    if I.tinfo(dty)["k"] != "int" or inst["krate"] != "core":
        return None
    return [(s, args[0] if t else args[1]) for s, t in I.split(st, le(args[0], args[1]))]


@nat("max", "Ord::max", *ints("max"))
def i_max(I, st, inst, args, loc, dty):
    if I.tinfo(dty)["k"] != "int" or inst["krate"] != "core":
        return None
    return [(s, args[1] if t else args[0]) for s, t in I.split(st, le(args[0], args[1]))]


@nat(*ints("max_value"))
def i_maxv(I, st, inst, args, loc, dty):
    return [(st, K((1 << bits(inst)) - 1))]


@nat(*ints("min_value"))
def i_minv(I, st, inst, args, loc, dty):
    return [(st, K(0))]


@nat("saturating_sub", *ints("saturating_sub"))
def i_satsub(I, st, inst, args, loc, dty):
    return [(s, sub(args[0], args[1]) if t else K(0)) for s, t in I.split(st, le(args[1], args[0]))]


@nat(*ints("checked_sub"))
def i_chksub(I, st, inst, args, loc, dty):
    return [(s, some(sub(args[0], args[1])) if t else NONE) for s, t in I.split(st, le(args[1], args[0]))]


@nat(*ints("checked_add"))
def i_chkadd(I, st, inst, args, loc, dty):
    return [(st, some(add(args[0], args[1])))]


@nat(*ints("checked_mul"))
def i_chkmul(I, st, inst, args, loc, dty):
    return [(st, some(mul(args[0], args[1])))]


@nat(*ints("wrapping_add", "saturating_add"))
def i_wadd(I, st, inst, args, loc, dty):
    return [(st, add(args[0], args[1]))]


@nat(*ints("wrapping_mul", "saturating_mul"))
def i_wmul(I, st, inst, args, loc, dty):
    return [(st, mul(args[0], args[1]))]


@nat(*ints("wrapping_sub"))
def i_wsub(I, st, inst, args, loc, dty):
    return [(s, sub(args[0], args[1]) if t else App("wsub", args[0], args[1])) for s, t in I.split(st, le(args[1], args[0]))]


@nat(*ints("pow"))
def i_pow(I, st, inst, args, loc, dty):
    a, b = args
    if a == K(2):
        return [(st, T.pow2(b))]
    if a[0] == "c" and b[0] == "c" and b[1] < 300:
        return [(st, K(a[1] ** b[1]))]
    if b[0] == "c" and b[1] <= 4:
        r = K(1)
        for _ in range(b[1]):
            r = mul(r, a)
        return [(st, r)]
    return [(st, App("pow", a, b))]


@nat(*ints("next_power_of_two"))
def i_npot(I, st, inst, args, loc, dty):
    return [(st, T.pow2(clog2(args[0])))]


@nat(*ints("is_power_of_two"))
def i_ispot(I, st, inst, args, loc, dty):
    x = args[0]
    if x[0] == "c":
        return [(st, K(1 if x[1] > 0 and x[1] & (x[1] - 1) == 0 else 0))]
    return [(st, eqi(T.pow2(clog2(x)), x))]


@nat("cttz", "cttz_nonzero", *ints("trailing_zeros"))
def i_tz(I, st, inst, args, loc, dty):
    x = args[0]
    if x[0] == "pow2":
        return [(st, x[1])]
    if x[0] == "c" and x[1] > 0:
        return [(st, K((x[1] & -x[1]).bit_length() - 1))]
    return [(st, App("tz", x))]


@nat(*ints("leading_zeros"))
def i_lz(I, st, inst, args, loc, dty):
    return [(st, sub(K(bits(inst)), clog2(add(args[0], K(1)))))]


@nat(*ints("ilog2"))
def i_ilog2(I, st, inst, args, loc, dty):
    return [(st, add(clog2(add(args[0], K(1))), K(-1)))]


@nat(*ints("div_ceil"))
def i_divceil(I, st, inst, args, loc, dty):
    return [(st, T.div(add(args[0], add(args[1], K(-1))), args[1]))]


@nat(*ints("abs_diff"))
def i_absdiff(I, st, inst, args, loc, dty):
    return [(s, sub(args[1], args[0]) if t else sub(args[0], args[1])) for s, t in I.split(st, le(args[0], args[1]))]


@nat(*ints("is_multiple_of"))
def i_ismul(I, st, inst, args, loc, dty):
    return [(st, eqi(T.mod(args[0], args[1]), K(0)))]


@nat(*ints("to_le_bytes"))
def to_le(I, st, inst, args, loc, dty):
    return [(st, le_bytes(I, bits(inst) // 8, args[0]))]


def le_bytes(I, n, x):
    return I.mkseq([("sl", ("le", n, x), K(0), K(n))])


def int_of_le(I, st, s, n):
    """integer value of a little-endian byte sequence of n bytes"""
    s = I.reify(st, s)
    g = I.segs(s)
    # drop zero padding
    while len(g) > 1 and g[-1][0] in ("e", "rep") and g[-1][1] == K(0):
        g = g[:-1]
    if len(g) == 1 and g[0][0] == "sl" and g[0][1][0] == "le" and g[0][2] == K(0) and g[0][3] == K(g[0][1][1]):
        return g[0][1][2]
    if all(x[0] in ("e", "rep") and x[1] == K(0) for x in g):
        return K(0)
    if all(x[0] in ("e", "rep") and x[1][0] == "c" for x in g) and I.seq_len(("seq", tuple(g)))[0] == "c":
        r, sh = 0, 0
        for x in g:
            for _ in range(I.seg_len(x)[1]):
                r |= x[1][1] << sh
                sh += 8
        return K(r)
    if len(g) == 1 and g[0][0] == "e":
        return g[0][1]
    # one byte prefix of a byte-sized integer
    return ("int_le", ("seq", tuple(g)))


@nat(*ints("from_le_bytes"))
def from_le(I, st, inst, args, loc, dty):
    return [(st, int_of_le(I, st, args[0], bits(inst) // 8))]


def int_of_be(I, st, s):
    """integer value of a big-endian byte sequence"""
    g = I.segs(I.reify(st, s))
    if len(g) == 1 and g[0][0] == "sl" and g[0][1][0] == "be" and g[0][2] == K(0) and g[0][3] == K(g[0][1][1]):
        return g[0][1][2]
    return ("int_be", ("seq", tuple(g)))


@nat(*ints("from_be_bytes"))
def from_be(I, st, inst, args, loc, dty):
    return [(st, int_of_be(I, st, args[0]))]


@nat(*ints("to_be_bytes"))
def to_be(I, st, inst, args, loc, dty):
    n = bits(inst) // 8
    return [(st, I.mkseq([("sl", ("be", n, args[0]), K(0), K(n))]))]


@nat("LittleEndian::read_u64", "LittleEndian::read_u32", "LittleEndian::read_u16")
def le_read(I, st, inst, args, loc, dty):
    n = {"4": 8, "2": 4, "6": 2}[inst["path"][-1]]
    v = rd(I, st, args[0])
    out = []
    for s, t in I.split(st, le(K(n), I.seq_len(v)), data=False):
        out.append((s, int_of_le(I, s, I.seq_slice(s, v, K(0), K(n)), n)) if t else panic(I, s, "read", loc))
    return out


@nat("size_of")
def size_of(I, st, inst, args, loc, dty):
    t = I.tinfo(inst["targs"][0]) if inst["targs"] else {"k": "?"}
    if t["k"] == "int":
        return [(st, K(t["bits"] // 8))]
    return None


# ---------------------------------------------------------------- U256
@nat("U256::zero", "U256::zero_")
def u_zero(I, st, inst, args, loc, dty):
    return [(st, K(0))]


@nat("U256::one")
def u_one(I, st, inst, args, loc, dty):
    return [(st, K(1))]


@nat("U256::from")
def u_from(I, st, inst, args, loc, dty):
    a = args[0]
    src = I.tinfo(inst["locals"][1])
    if src["k"] == "int":
        return [(st, a)]
    if src["k"] == "ref":
        return [(st, ("int_be", I.reify(st, a)))]
    if src["k"] in ("array",):
        return [(st, ("int_be", I.reify(st, a)))]
    return None


@nat("U256::from_little_endian")
def u_from_le(I, st, inst, args, loc, dty):
    return [(st, int_of_le(I, st, rd(I, st, args[0]), 32))]


@nat("U256::from_big_endian")
def u_from_be(I, st, inst, args, loc, dty):
    return [(st, int_of_be(I, st, rd(I, st, args[0])))]


@nat("U256::to_little_endian", "U256::to_big_endian")
def u_to_le(I, st, inst, args, loc, dty):
    v = rd(I, st, args[0])
    h = "le" if "little" in inst["path"] else "be"
    d = rd(I, st, args[1])
    out = []
    for s, t in I.split(st, eqi(I.seq_len(d), K(32)), data=False):
        if not t:
            out.append(panic(I, s, "to_endian", loc))
            continue
        wr(I, s, args[1], I.mkseq([("sl", (h, 32, v), K(0), K(32))]))
        out.append((s, UNIT))
    return out


@nat("U256::as_usize", "U256::as_u64", "U256::low_u64", "U256::as_u32", "U256::low_u32")
def u_as(I, st, inst, args, loc, dty):
    a = args[0]
    if a[0] == "ptr":
        a = rd(I, st, a)
    b = 32 if inst["path"].endswith("32") else 64
    m = inst["path"].split("::")[-1]
    if m.startswith("as_"):
        out = []
        for s, t in I.split(st, le(a, K((1 << b) - 1)), data=False):
            out.append((s, a) if t else panic(I, s, "integer overflow", loc))
        return out
    import lin
    if lin.entails(st.lin, sub(K((1 << b) - 1), a)):
        return [(st, a)]
    return [(st, ("trunc", b, a))]


@nat("U256::clone", "U256::into_")
def u_clone(I, st, inst, args, loc, dty):
    return [(st, rd(I, st, args[0]))]


@nat("U256::eq")
def u_eq(I, st, inst, args, loc, dty):
    return [(st, eqi(rd(I, st, args[0]), rd(I, st, args[1])))]


# ---------------------------------------------------------------- generic array / typenum
@nat("UInt::to_usize", "UInt::to_u64", "UInt::to_u8", "UInt::to_u32", "UInt::to_u16", "UInt::to_i32")
def tn(I, st, inst, args, loc, dty):
    u = I.F.typenum(inst["targs"][0])
    b = I.tinfo(inst["targs"][1])["path"].split("::")[-1]
    if u is None:
        return None
    return [(st, K(2 * u + (1 if b == "B1" else 0)))]


@nat("UTerm::to_usize", "UTerm::to_u64", "UTerm::to_u8")
def tn0(I, st, inst, args, loc, dty):
    return [(st, K(0))]


@nat("GenericArray::from_exact_iter")
def ga_exact(I, st, inst, args, loc, dty):
    """Option<GenericArray<T, N>> from an iterator: exactly N items."""
    it = args[0]
    fn = None
    n = None
    for ti in inst["targs"]:
        x = I.F.typenum(ti)
        if x is not None:
            n = x
    # unwrap Cloned/Copied(slice::Iter) and vec::IntoIter
    byref = False
    while it[0] == "agg" and len(it[2]) == 1:
        it = it[2][0]
        byref = True
    if n is not None and any(I.F.is_path(ti, "Vec") for ti in inst["targs"]):
        it = ("agg", 0, (it, K(0), I.seq_len(it)))
    if it[0] == "agg" and len(it[2]) == 3 and n is not None:
        src, a, b = it[2]
        v = rd(I, st, src) if src[0] == "ptr" else src
        out = []
        for s, t in I.split(st, eqi(sub(b, a), K(n))):
            out.append((s, some(I.seq_slice(s, v, a, K(n))) if t else NONE))
        return out
    return None


# ---------------------------------------------------------------- equality on aggregates
@nat("[]::eq", "Vec::eq", "[;]::eq", "GenericArray::eq", "Option::eq", "Result::eq", "()::eq", "Box::eq", "H256::eq", "H160::eq",
     "H512::eq", "PhantomData::eq", "VecDeque::eq", "Ordering::eq", "bool::eq", "HashMap::eq")
def g_eq(I, st, inst, args, loc, dty):
    return [(st, eqv(I.reify(st, args[0]), I.reify(st, args[1])))]


@nat("[]::ne", "Vec::ne", "[;]::ne", "Option::ne", "H256::ne", "PartialEq::ne_")
def g_ne(I, st, inst, args, loc, dty):
    return [(st, neg(eqv(I.reify(st, args[0]), I.reify(st, args[1]))))]


@nat("Any::type_id", "size_hint", "fmt", "format", "Arguments::new_const", "Arguments::new_v1", "Arguments::new", "Argument::new_display")
def inert(I, st, inst, args, loc, dty):
    return [(st, ("app", "inert", inst["name"]))]


# ---------------------------------------------------------------- classification
CORE_DENY = ("hash", "fmt", "size_hint")
PANICS = ("panic", "panic_fmt", "panic_nounwind", "panic_nounwind_fmt", "unwrap_failed", "expect_failed", "assert_failed",
          "assert_failed_inner", "begin_panic", "panic_bounds_check", "unreachable_display", "panic_explicit", "slice_index_fail",
          "len_mismatch_fail", "handle_alloc_error", "panic_display", "panic_str_2015", "unimplemented_default_msg", "panic_access_error",
          "unwrap_failed_inner", "panic_const_div_by_zero", "panic_const_add_overflow", "from_exact_iter_fail")
IDENT_HEADS = ("Clone",)


def flat_entries(it):
    """map terms whose (owned) entries an iterator chain yields, in order; None if not such a chain"""
    if it[0] == "agg" and len(it[2]) == 3 and it[2][0][0] == "app" and it[2][0][1] == "entries":
        if it[2][1] == K(0) and it[2][2] == ("app", "len", it[2][0]) or it[2][2][0] == "len":
            return [it[2][0][2]]
        return None
    if it[0] == "agg" and len(it[2]) == 2:      # Chain { a: Option, b: Option }
        out = []
        for x in it[2]:
            if x[0] != "agg":
                return None
            if x[1] == 1 and len(x[2]) == 1:
                r = flat_entries(x[2][0])
                if r is None:
                    return None
                out += r
        return out
    if it[0] == "agg" and len(it[2]) == 1 and it[1] == 0:
        return flat_entries(it[2][0])
    return None


def mext(m, x):
    if m == ("app", "emptymap"):
        return x
    if x == ("app", "emptymap"):
        return m
    return ("app", "mext", m, x)


def map_build(I, st, inst, args, loc, dty):
    r = flat_entries(I.reify(st, args[0]))
    if r is None:
        return None
    m = ("app", "emptymap")
    for x in r:
        m = mext(m, x)
    return [(st, m)]


def map_ext(I, st, inst, args, loc, dty):
    r = flat_entries(I.reify(st, args[1]))
    if r is None:
        return None
    m = I.reify(st, rd(I, st, args[0]))
    for x in r:
        m = mext(m, x)
    wr(I, st, args[0], m)
    return [(st, UNIT)]


def lookup(I, inst, key):
    if inst["krate"] == "bmharness" and "models::Model" in inst["path"]:
        if key in ("HashMap::build", "BTreeMap::build"):
            return map_build
        if key in ("HashMap::ext", "BTreeMap::ext"):
            return map_ext
    f = I.nat.get(key)
    if f is not None and inst["krate"] not in ("bm", "bm_le", "bmharness"):
        return f
    item = inst.get("item")
    if inst["krate"] in ("serde", "serde_core", "parity_codec"):
        if inst.get("trait_default") and inst["targs"]:
            t = I.tinfo(inst["targs"][0])
            if t["k"] == "adt" and t["path"].split("::")[0] in ("bm", "bm_le"):
                return None             # of one of the repository's own types: not a primitive
        return WIRE.get(wire_key(inst))
    tr = (inst.get("impl_trait") or "").split("<")[0].split("::")[-1]
    if tr == "Drop" and item == "drop" and inst["krate"] not in ("bm", "bm_le", "bmharness"):
        return noop
    if tr == "Clone" and item == "clone" and (inst["krate"] not in ("bm", "bm_le", "bmharness") or inst.get("derived")):
        return clone
    if tr == "PartialEq" and item == "eq" and inst.get("derived"):
        return g_eq
    if inst["kind"] == "shim_clone":
        return clone
    return None


def inlinable(inst):
    k = inst["krate"]
    if k in ("bm", "bm_le", "bmharness", "bm_le_derive", "digest", "vecarray", "primitive_types", "fixed_hash", "generic_array", "either"):
        return k != "generic_array" or "closure" in inst["path"]
    if k == "core":
        item = inst.get("item") or inst["path"].split("::")[-1]
        if item in CORE_DENY or "fmt" in (inst.get("impl_trait") or "").split("::"):
            return False
        if is_panic(inst):
            return False
        p = inst["path"]
        if "hash" in p or "ptr::" in p or "simd" in p.lower() or "slice::" in p or "arch::" in p or "alloc" in p:
            return False
        return True
    if k == "parity_codec":
        return wire_key(inst) == "Output::push"
    if k in ("alloc", "std"):
        return inst.get("item") in ("ne", "into", "try_into") and bool(inst["blocks"])
    return False


def is_panic(inst):
    n = inst["path"].split("::")[-1].split("<")[0]
    return n in PANICS or n.startswith("panic_const") or "::panicking::" in inst["path"]


# ---------------------------------------------------------------- the opaque world
def H(a, b):
    return ("app", "H", a, b)


def left(k):
    if k[0] == "app" and k[1] == "H":
        return k[2]
    return ("app", "L", k)


def right(k):
    if k[0] == "app" and k[1] == "H":
        return k[3]
    return ("app", "R", k)


def pure(name, n=None):
    def f(I, st, inst, args, loc, dty):
        return [(st, ("app", name) + tuple(I.reify(st, a) for a in args))]
    return f


def db_get(I, st, inst, args, loc, dty):
    k = I.reify(st, args[1])
    out = []
    s0 = st.copy()
    e = I.ret_term(s0, "err")
    I.event(s0, "get", (k,), "Err", e, loc)
    out.append((s0, err(e)))
    st.nid = s0.nid
    for s, t in I.split(st, ("present", k), data=False):
        s = s if s is not st else s.copy()
        if t:
            I.event(s, "get", (k,), "Some", None, loc)
            out.append((s, ok(some(("agg", 0, (left(k), right(k)))))))
        else:
            I.event(s, "get", (k,), "None", None, loc)
            out.append((s, ok(NONE)))
    return out


def db_write(kind):
    def f(I, st, inst, args, loc, dty):
        ra = tuple(I.reify(st, a) for a in args[1:])
        e = I.ret_term(st, "err")

        def post(s):
            if kind == "unrootify":
                s.atoms = {k: v for k, v in s.atoms.items() if k[0] != "present"}
            elif kind == "insert":
                s.atoms = {k: v for k, v in s.atoms.items() if not (k[0] == "present" and not v)}
                s.atoms[("present", ra[0])] = True
        return I.result_outs(st, kind, ra, loc, UNIT, e, on_ok=post)
    return f


def fallible(kind, okf, types=False):
    """An opaque fallible function; the backend argument (last &mut db) is not part of its arguments."""
    def f(I, st, inst, args, loc, dty):
        name = kind
        h = (inst.get("impl_self") or "").split("<")[0].split("::")[-1]
        ra = []
        for i, a in enumerate(args):
            ti = inst["locals"][i + 1] if i + 1 < len(inst["locals"]) else -1
            t = I.tinfo(ti)
            if t["k"] == "ref" and t["mut"] and is_backend(I, t["to"]):
                continue
            ra.append(I.reify(st, a))
        e = I.ret_term(st, "err")
        return I.result_outs(st, name, (h,) + tuple(ra), loc, okf(I, st, h, ra), e)
    return f


def is_backend(I, ti):
    if I.is_db(ti):
        return True
    t = I.tinfo(ti)
    if t["k"] == "adt":
        return t["path"].split("::")[-1].endswith(("Backend", "Db"))
    return t["k"] in ("param", "dyn", "other")


def value_ref(I, st, inst, args, loc, dty):
    o, p = I.ptrof(args[0])
    return [(st, ("ptr", o, p + (("b",),)))]


def value_cmp(I, st, inst, args, loc, dty):
    a, b = I.reify(st, args[0]), I.reify(st, args[1])
    out = []
    for s, t in I.split(st, eqv(a, b)):
        if t:
            out.append((s, ("agg", 1, ())))
        else:
            x, y = sorted((a, b), key=T.key)
            for s2, t2 in I.split(s, ("vlt", x, y)):
                out.append((s2, ("agg", 0 if t2 == (x == a) else 2, ())))
    return out


def value_from(I, st, inst, args, loc, dty):
    t = I.tinfo(inst["locals"][1])
    if t["k"] == "int":
        a = args[0]
        if a[0] == "app" and a[1] == "tousize":
            return [(st, a[2])] if False else [(st, ("app", "fromusize", a))]
        return [(st, ("app", "fromusize", a))]
    return [(st, I.from_bytes(I.reify(st, args[0])))]


def value_into(I, st, inst, args, loc, dty):
    a = args[0]
    if a[0] == "app" and a[1] == "fromusize":
        return [(st, a[2])]
    return [(st, ("app", "tousize", a))]


def seq_mut(kind):
    def f(I, st, inst, args, loc, dty):
        old = I.reify(st, args[0])
        o, p = I.ptrof(args[0])
        out = []
        e = I.ret_term(st, "err")
        new = ("app", "mutated", old)
        r = I.result_outs(st, kind, (old,), loc, ("app", "fnres", old), e)
        for s, v in r:
            I.write(s, o, p, new if v[1] == 0 else ("app", "halfmutated", old))
        return r
    return f


def iter_any(I, st, inst, args, loc, dty):
    o, p = I.ptrof(args[0])
    s0 = I.read(st, o, p)
    out = []
    for s, t in I.split(st, ("hasitem", s0)):
        if t:
            I.write(s, o, p, ("app", "after", s0))
            out.append((s, some(("app", "item", s0))))
        else:
            out.append((s, NONE))
    return out


def dig_input(I, st, inst, args, loc, dty):
    d = rd(I, st, args[0])
    a = args[1]
    # B: AsRef<[u8]>: a reference to bytes, a value, or bytes themselves
    ti = inst["targs"][0] if inst["targs"] else inst["locals"][2]
    while True:
        t = I.tinfo(ti)
        if t["k"] in ("ref", "ptr"):
            ti = t["to"]
            v = rd(I, st, a)
            t2 = I.tinfo(ti)
            if t2["k"] in ("ref",):
                a = v
                continue
            break
        v = a
        break
    t = I.tinfo(ti)
    if t["k"] == "adt" and t["path"].endswith("AnyValue"):
        v = I.bytes_of(v)
    wr(I, st, args[0], I.cat(d, I.reify(st, v)))
    return [(st, UNIT)]


def dig_default(I, st, inst, args, loc, dty):
    return [(st, ("seq", ()))]


def dig_result(I, st, inst, args, loc, dty):
    t = ("app", "hash", I.reify(st, args[0]))
    I.lens[t] = K(32)
    return [(st, t)]


def dig_reset(I, st, inst, args, loc, dty):
    wr(I, st, args[0], ("seq", ()))
    return [(st, UNIT)]


def item_flush(I, st, inst, args, loc, dty):
    """An unknown partial item: flushing it may move the raw tree."""
    ra = (I.reify(st, args[0]), I.reify(st, args[1]))
    o, p = I.ptrof(args[1])
    e = I.ret_term(st, "err")
    r = I.result_outs(st, "flush", ra, loc, UNIT, e)
    for s, v in r:
        old = I.read(s, o, p)
        I.write(s, o, p, ("app", "flushed", ra[0], ra[1]))
        so, sp = I.ptrof(args[0])
        I.write(s, so, sp, ("app", "cleaned", ra[0]))
    return r


# ---------------------------------------------------------------- serialised forms
WIRED = re.compile(r"^(?:<(.*) as .*>|.*<impl .* for (.*)>)::\w+(?:::<.*>)?$")


def wire_type(inst):
    """Name of the type a (de)serialising implementation is for; all owned lists are alike."""
    m = WIRED.match(inst["path"])
    t = (m.group(1) or m.group(2)) if m else inst["path"]
    t = re.sub(r"\b(?:[a-z_0-9]+::)+", "", t)
    m = re.match(r"^(?:Vec<(.*)>|Box<\[(.*)\]>)$", t)
    return "[" + (m.group(1) or m.group(2)) + "]" if m else t


def wire_ser(I, st, inst, args, loc, dty):
    return [(st, ("app", "ser", I.reify(st, args[0]), I.reify(st, args[1])))]


def wire_named(I, st, inst, args, loc, dty):
    return [(st, ("app", "ser_named", I.reify(st, args[1]), I.reify(st, args[2]), I.reify(st, args[0])))]


def wire_variant(I, st, inst, args, loc, dty):
    return [(st, ("app", "ser_variant") + tuple(I.reify(st, args[i]) for i in (1, 2, 3, 4, 0)))]


def wire_byte(I, st, inst, args, loc, dty):
    old, t = I.reify(st, args[0]), ("sym", "u8")
    wr(I, st, args[0], ("app", "rest", t, old))
    return [(st, ("app", "rd", t, old))]


def wire_de(I, st, inst, args, loc, dty):
    return [(st, ("app", "de", ("sym", wire_type(inst)), I.reify(st, args[0])))]


def wire_put(I, st, inst, args, loc, dty):
    wr(I, st, args[1], ("app", "put", I.reify(st, args[1]), I.reify(st, args[0])))
    return [(st, UNIT)]


def wire_push(I, st, inst, args, loc, dty):
    wr(I, st, args[0], ("app", "put", I.reify(st, args[0]), I.reify(st, args[1])))
    return [(st, UNIT)]


def wire_read(I, st, inst, args, loc, dty):
    old, t = I.reify(st, args[0]), ("sym", wire_type(inst))
    wr(I, st, args[0], ("app", "rest", t, old))
    return [(st, ("app", "rd", t, old))]


WIRE = {
    "Serialize::serialize": wire_ser, "Deserialize::deserialize": wire_de, "Encode::encode_to": wire_put, "Decode::decode": wire_read,
    "Output::push_byte": wire_push, "Input::read_byte": wire_byte,
    "Serializer::serialize_newtype_variant": wire_variant, "Serializer::serialize_newtype_struct": wire_named,
    "Error::custom": lambda I, st, i, a, l, d: [(st, ("app", "custom_error"))],
}


def wire_key(inst):
    tr = inst.get("impl_trait") or inst.get("trait_default") or ""
    return re.sub(r"<.*", "", tr).split("::")[-1] + "::" + (inst.get("item") or "")


OPAQUE = {
    "AnyValue::clone": clone, "AnyValue::default": lambda I, st, i, a, l, d: [(st, ("app", "default:AnyValue"))],
    "AnyValue::eq": g_eq, "AnyValue::ne": g_ne, "AnyValue::cmp": value_cmp,
    "AnyValue::partial_cmp": lambda I, st, i, a, l, d: [(s, some(v)) for s, v in value_cmp(I, st, i, a, l, d)],
    "AnyValue::as_ref": value_ref, "AnyValue::as_mut": value_ref, "AnyValue::from": value_from, "AnyValue::into": value_into,
    "AnyDigest::clone": clone, "AnyDigest::default": dig_default, "AnyDigest::input": dig_input,
    "AnyDigest::fixed_result": dig_result, "AnyDigest::reset": dig_reset,
    "AnyIter::next": iter_any,
    "AnyItem::new": pure("item_new"), "AnyItem::flush": item_flush,
    "AnySeq::root": pure("seqroot"), "AnySeq::len": pure("seqlen"), "AnySeq::into_raw": pure("seqraw"),
    "AnySeq::metadata": pure("seqmeta"), "AnySeq::from_leaked": pure("seqleaked"),
    "AnySeq::drop": fallible("seq.drop", lambda I, st, h, a: UNIT),
    "AnyMeta::default": lambda I, st, i, a, l, d: [(st, ("app", "default:AnyMeta"))],
    "LC::default": lambda I, st, i, a, l, d: [(st, ("app", "default:LC"))],
    "LC::clone": clone,
    "mut_fn": seq_mut("mut_fn"),
    "ref_fn": fallible("ref_fn", lambda I, st, h, a: ("app", "fnres", a[0])),
    "make_fn": fallible("make_fn", lambda I, st, h, a: ("app", "made")),
    "recon_fn": fallible("recon_fn", lambda I, st, h, a: ("app", "reconned", a[0], a[1])),
    "fold_fn": pure("fold_fn"),
}
for _db in ("AnyDb", "AnyLeDb", "DigDb"):
    OPAQUE[_db + "::get"] = db_get
    for _m in ("rootify", "unrootify", "insert"):
        OPAQUE[_db + "::" + _m] = db_write(_m)
for _c in ("AnyConstruct", "AnyLeConstruct"):
    OPAQUE[_c + "::intermediate_of"] = lambda I, st, i, a, l, d: [(st, H(I.reify(st, a[0]), I.reify(st, a[1])))]
    OPAQUE[_c + "::empty_at"] = fallible("empty_at", lambda I, st, h, a: ("app", "E", a[0]))
for _l in ["L%d" % i for i in range(9)] + ["LC", "LP"]:
    OPAQUE[_l + "::into_tree"] = fallible("into_tree", lambda I, st, h, a: ("app", "tree", h, a[0]))
    OPAQUE[_l + "::from_tree"] = fallible("from_tree", lambda I, st, h, a: ("app", "untree", h, a[0]))


def opaque(I, st, inst, args, loc, dty):
    import interp
    key = interp.natkey(inst)
    f = OPAQUE.get(key) or WIRE.get(wire_key(inst))
    if f is None and inst.get("item") in ("ne", "lt", "gt", "le", "ge"):
        f = None
    if f is None:
        return I.unknown(st, "opaque:" + key, args, loc, dty)
    return f(I, st, inst, args, loc, dty)
