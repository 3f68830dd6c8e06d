"""Layered primitives: public operations whose own behaviour is decided by their own
obligations, used as named operations when the code above them is analysed."""
import terms as T
from terms import C as K, UNIT, add
import models
from models import ok, err, some, NONE


def owned_of(I, inst):
    for ti in inst["targs"]:
        t = I.tinfo(ti)
        if t["k"] == "adt":
            h = t["path"].split("::")[-1]
            if h == "Owned":
                return True
            if h == "Dangling":
                return False
    return None


def idx_of(I, st, v):
    v = I.reify(st, v)
    if v[0] == "agg" and len(v[2]) == 1:
        return v[2][0]
    return ("fld", v, 0, 0)


def raw_root(I, st, p):
    """(obj, path) of the root field of a Raw behind pointer p"""
    o, pa = I.ptrof(p)
    return o, pa + (field(I, "bm::Raw", lambda t: t["path"].split("::")[-1] != "PhantomData" if t["k"] == "adt" else True),)


def raw_field(I):
    return field(I, "bm::Raw", lambda t: t["path"].split("::")[-1] != "PhantomData" if t["k"] == "adt" else True)


def field(I, path, pred):
    """The only field of struct `path` whose type satisfies pred, as a projection step."""
    c = I.F.__dict__.setdefault("_fields", {})
    if path in c:
        return c[path]
    r = None
    for t in I.F.types:
        if t["k"] == "adt" and t["path"] == path and t.get("variants"):
            fs = t["variants"][0]["fields"]
            hit = [i for i, (_, ti) in enumerate(fs) if pred(I.F.types[ti])]
            if len(hit) != 1:
                raise KeyError("field of " + path)
            r = ("f", 0, hit[0], len(fs))
            break
    if r is None:
        raise KeyError(path)
    c[path] = r
    return r


def set_root(I, r, i, v):
    if i == K(1):
        return v
    return ("app", "set", r, i, v)


def get_root(I, r, i):
    if i == K(1):
        return r
    while r[0] == "app" and r[1] == "set":
        if r[3] == i:
            return r[4]
        if r[3][0] == "c" and i[0] == "c":
            a, b = r[3][1], i[1]
            x, y = (a, b) if a < b else (b, a)
            while y > x:
                y //= 2
            if x != y:
                r = r[2]
                continue
        break
    return ("app", "sub", r, i)


def raw_get(I, st, inst, args, loc, dty):
    o, p = raw_root(I, st, args[0])
    r = I.reify(st, I.read(st, o, p))
    i = idx_of(I, st, args[2])
    out = []
    s0 = st.copy()
    e = I.ret_term(s0, "err")
    I.event(s0, "raw.get", (r, i), "Err", e, loc)
    out.append((s0, err(e)))
    st.nid = s0.nid
    cond = ("present", r, i) if i != K(1) else T.TRUE
    if r[0] == "app" and r[1] == "set" and r[3] == i:
        cond = T.TRUE
    for s, t in I.split(st, cond, data=False):
        if s is st:
            s = s.copy()
        v = get_root(I, r, i)
        I.event(s, "raw.get", (r, i), "Some" if t else "None", v if t else None, loc)
        out.append((s, ok(some(v) if t else NONE)))
    return out


def raw_set(I, st, inst, args, loc, dty):
    o, p = raw_root(I, st, args[0])
    r = I.reify(st, I.read(st, o, p))
    i = idx_of(I, st, args[2])
    v = I.reify(st, args[3])
    e = I.ret_term(st, "err")
    new = set_root(I, r, i, v)
    return I.result_outs(st, "raw.set", (r, i, v), loc, UNIT, e, extra=owned_of(I, inst),
                         on_ok=lambda s: I.write(s, o, p, new))


def raw_subtree(I, st, inst, args, loc, dty):
    out = []
    for s, v in raw_get(I, st, inst, args, loc, dty):
        if v[1] == 1:
            out.append((s, v))
        elif v[2][0] == NONE:
            out.append((s, err(("agg", CORRUPTED[0], ()))))
        else:
            out.append((s, ok(("agg", 0, (v[2][0][2][0], ("agg", 0, ()))))))
    return out


CORRUPTED = [0]


def vec_parts(I, st, p):
    o, pa = I.ptrof(p)
    return o, pa


VRAW, VMAX, VLEN = 0, 1, 2


def opvalue(I, st, args, k):
    return tuple(I.reify(st, a) for a in args[k:])


def method(kind, writes, okf, newf=None):
    """A layered method: &self / &mut self, db, args.  State after Ok is newf(old, args)."""
    def f(I, st, inst, args, loc, dty):
        o, p = I.ptrof(args[0])
        old = I.reify(st, I.read(st, o, p))
        ra = opvalue(I, st, args, 2)
        e = I.ret_term(st, "err")
        okv = okf(I, old, ra)
        rs = I.result_outs(st, kind, (old,) + ra, loc, okv, e, extra=owned_of(I, inst))
        if writes:
            for s, v in rs:
                new = newf(I, s, old, ra) if v[1] == 0 else ("app", kind + "!", old) + ra
                I.write(s, o, p, new)
        return rs
    return f


def prim_raw():
    return {"Raw::get": raw_get, "Raw::set": raw_set, "Raw::subtree": raw_subtree}


def seq_new(name):
    return lambda I, st, old, ra: ("app", name, old) + ra


def vec_get(prefix):
    return method(prefix + ".get", False, lambda I, old, ra: ("app", "elem", old) + ra)


def vec_set(prefix):
    return method(prefix + ".set", True, lambda I, old, ra: UNIT, seq_new("vset"))


def vec_push(prefix):
    return method(prefix + ".push", True, lambda I, old, ra: UNIT, seq_new("push"))


def vec_pop(prefix):
    return method(prefix + ".pop", True, lambda I, old, ra: ("app", "popres", old) + ra, seq_new("pop"))


def seq_len(h):
    """len of a sequence state, through the layered operations"""
    def f(I, st, inst, args, loc, dty):
        v = I.reify(st, args[0])
        n = 0
        while v[0] == "app" and v[1] in ("vset", "push"):
            if v[1] == "push":
                n += 1
            v = v[2]
        if v[0] == "app" and v[1] == "pop":
            return [(st, add(("app", "len", v), K(n)))]
        return None if n == 0 and not (args[0][0] == "x") else [(st, add(field_len(I, h, v), K(n)))]
    return f


def field_len(I, h, v):
    i = field(I, "bm::" + h, lambda t: t.get("s") == "usize")[2]
    if v[0] == "agg":
        return v[2][i]
    return ("fld", v, 0, i)


def prim_vector():
    d = prim_raw()
    for m, f in (("get", vec_get("vector")), ("set", vec_set("vector")), ("push", vec_push("vector")), ("pop", vec_pop("vector"))):
        d["Vector::" + m] = f
    d["Vector::len"] = seq_len("Vector")
    return d


def prim_packed():
    d = prim_vector()
    for m, f in (("get", vec_get("packed")), ("set", vec_set("packed")), ("push", vec_push("packed")), ("pop", vec_pop("packed"))):
        d["PackedVector::" + m] = f
    return d


def vtree(I, st, inst, args, loc, dty):
    vals = I.reify(st, args[0])
    mx = I.reify(st, args[2])
    e = I.ret_term(st, "err")
    return I.result_outs(st, "vector_tree", (vals, mx), loc, ("app", "vtree", vals, mx), e)


def handle_parts(I, h, inner):
    """Projection steps (inner handle, length, maximum) of bm::<h>"""
    c = I.F.__dict__.setdefault("_parts", {})
    if h not in c:
        last = lambda t: t["path"].split("::")[-1] if t["k"] == "adt" else t.get("s")
        fs = I.F.__dict__.setdefault("_fields", {})
        keep = fs.pop("bm::" + h, None)
        r = []
        for n in (inner, "usize", "Option"):
            fs.pop("bm::" + h, None)
            r.append(field(I, "bm::" + h, lambda t: last(t) == n))
        fs.pop("bm::" + h, None)
        if keep is not None:
            fs["bm::" + h] = keep
        c[h] = r
    return c[h]


def concrete_get(h, inner, kind):
    """Element read through a handle whose length is known where it is used: an index at or
    beyond the length is refused, any other read names the tree position it reads."""
    base = vec_get(kind)

    def f(I, st, inst, args, loc, dty):
        o, p = I.ptrof(args[0])
        old = I.reify(st, I.read(st, o, p))
        i = I.reify(st, args[2])
        parts = handle_parts(I, h, inner)
        if kind == "packed.get":
            I.__dict__.setdefault("packed_w", set()).add(element_width(I, dty))
        if old[0] != "agg" or len(old[2]) != parts[0][3]:
            return base(I, st, inst, args, loc, dty)
        n = old[2][parts[1][2]]
        out = []
        for s, t in I.split(st, T.lt(i, n), data=False):
            s = s.copy() if s is st else s
            if not t:
                out.append((s, err(("agg", OVERFLOW[0], ()))))
                continue
            for s2, v in base(I, s, inst, args, loc, dty):
                if v[0] == "agg" and v[1] == 0 and kind == "vector.get":
                    x = position(I, s2, old, parts, i)
                    if x is not None:
                        v = ok(x)
                        s2.events = s2.events[:-1] + (s2.events[-1]._replace(res=x),)
                out.append((s2, v))
        return out
    return f


OVERFLOW = [1]


def element_width(I, dty):
    """Bytes of the element a packed read answers with"""
    try:
        return I.const_len(I.tinfo(dty)["args"][0])
    except (KeyError, IndexError, TypeError):
        return None


def position(I, st, old, parts, i):
    import interp
    mx, n = old[2][parts[2][2]], old[2][parts[1][2]]
    k = I.variant(st, mx)
    if k is None:
        return None
    cap = n if k == 0 else mx[2][0] if mx[0] == "agg" else ("fld", mx, 1, 0)
    raw = old[2][parts[0][2]]
    f = raw_field(I)
    root = raw[2][f[2]] if raw[0] == "agg" else ("fld", raw, 0, f[2])
    return get_root(I, root, add(T.pow2(interp.clog2(cap)), i))


def prim_le():
    d = prim_packed()
    d["Vector::get"] = concrete_get("Vector", "Raw", "vector.get")
    d["PackedVector::get"] = concrete_get("PackedVector", "Vector", "packed.get")
    d["vector_tree"] = vtree
    return d


# ---- partial values: index composition, index resolution and list handles by name
def index_sub(I, st, inst, args, loc, dty):
    a, b = idx_of(I, st, pointee(I, st, args[0])), idx_of(I, st, args[1])
    return [(st, ("agg", 0, (isub(a, b),)))]


def pointee(I, st, v):
    if v[0] == "ptr":
        o, p = I.ptrof(v)
        return I.read(st, o, p)
    return v


def isub(a, b):
    if a[0] == "c" and b[0] == "c" and a[1] > 0 and b[1] > 0:
        d = b[1].bit_length() - 1
        return K((a[1] << d) + b[1] - (1 << d))
    if b == K(1):
        return a
    if a == K(1):
        return b
    return ("app", "isub", a, b)


def resolve(I, st, inst, args, loc, dty):
    p = I.reify(st, pointee(I, st, args[0]))
    o, q = raw_root(I, st, args[1])
    r = I.reify(st, I.read(st, o, q))
    e = I.ret_term(st, "err")
    return I.result_outs(st, "resolve", (p, r), loc, ("agg", 0, (("app", "resolved", p, r),)), e)


def list_reconstruct(I, st, inst, args, loc, dty):
    r, mx = I.reify(st, args[0]), I.reify(st, args[2])
    e = I.ret_term(st, "err")
    return I.result_outs(st, "list.reconstruct", (r, mx), loc, ("app", "list", r, mx), e)


def list_root(I, st, inst, args, loc, dty):
    return [(st, ("app", "lroot", I.reify(st, pointee(I, st, args[0]))))]


def prim_partial(own):
    """own: PartialIndex::resolve itself is being analysed"""
    d = prim_le()
    d["Index::sub"] = index_sub
    if not own:
        d["PartialIndex::resolve"] = resolve
        d["List::reconstruct"] = list_reconstruct
        d["List::push"] = vec_push("list")
        d["List::root"] = list_root
    return d
