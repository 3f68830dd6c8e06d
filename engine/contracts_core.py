"""Contracts of the tree handles of bm."""
import layers
import terms as T
from terms import C as K, add, sub
from interp import clog2
from layers import set_root, get_root
from contract import contract, fld, E, CORRUPTED, OVERFLOW, INVALID, BACKEND
from spec import ok, err, some, NONE, Skip

UNIT = T.UNIT
DEF = ("app", "default:AnyValue")


def both(*names):
    return [m + "::" + n for m in ("owned", "dangling") for n in names]


def raw(r):
    return ("agg", 0, (r, UNIT))


def mod_of(a):
    return "owned" if "::owned::" in a.root.name else "dangling"


def V(a):
    return a.root.views.vec(mod_of(a))


def vparts(a, v):
    """(root, max, len) of a vector handle"""
    r, l, m = V(a)
    return r(v), m(v), l(v)


def vview(a, n, r, m, l):
    fr, fl, fm = V(a)
    return [(n + ".root", fr, r, n), (n + ".max", fm, m, n), (n + ".len", fl, l, n)]


def capdepth(S, m, l):
    """(capacity, depth, bounded)"""
    p = S.option(m)
    if p is not None:
        return p, clog2(p), True
    d = clog2(l)
    return T.pow2(d), d, False


def leaf(d, i):
    return add(T.pow2(d), i)


@contract("vector", *both("root_vector__get"))
def vector_get(S, a):
    r, m, l = vparts(a, a.s)
    if S.test(T.le(l, a.i)):
        return dict(result=E(OVERFLOW))
    cap, d, b = capdepth(S, m, l)
    S.assume(T.le(l, cap))
    v = S.get(r, leaf(d, a.i))
    if v is None:
        return dict(result=E(CORRUPTED))
    return dict(result=ok(v))


@contract("vector", *both("root_vector__set"))
def vector_set(S, a):
    r, m, l = vparts(a, a.s)
    if S.test(T.le(l, a.i)):
        return dict(result=E(OVERFLOW), final={"s": a.s})
    cap, d, b = capdepth(S, m, l)
    S.assume(T.le(l, cap))
    return dict(result=ok(UNIT), view=vview(a, "s", set_root(S.I, r, leaf(d, a.i), a.v), m, l))


@contract("vector", *both("root_vector__push"))
def vector_push(S, a):
    r, m, l = vparts(a, a.s)
    cap, d, b = capdepth(S, m, l)
    S.assume(T.le(l, cap))
    if S.test(T.eqi(l, cap)):
        if b:
            return dict(result=E(OVERFLOW), final={"s": a.s})
        r = set_root(S.I, set_root(S.I, DEF, K(2), r), K(3), ("app", "E", d))
    if not b:
        d = clog2(add(l, K(1)))             # depth for one element more
    return dict(result=ok(UNIT), view=vview(a, "s", set_root(S.I, r, leaf(d, l), a.v), m, add(l, K(1))))


@contract("vector", *both("root_vector__pop"))
def vector_pop(S, a):
    r, m, l = vparts(a, a.s)
    if not S.test(T.le(K(1), l)):
        return dict(result=ok(NONE), final={"s": a.s})
    cap, d, b = capdepth(S, m, l)
    S.assume(T.le(l, cap))
    i = leaf(d, sub(l, K(1)))
    v = S.get(r, i)
    if v is None:
        return dict(result=E(CORRUPTED), final={"s": a.s})
    z = ("app", "tz", i)
    r = set_root(S.I, r, T.shr(i, z), ("app", "E", z))
    if not b and S.test(T.le(scale2(sub(l, K(1))), cap)):
        x = S.get(r, K(2))
        r = DEF if x is None else x
    return dict(result=ok(some(v)), view=vview(a, "s", r, m, sub(l, K(1))))


def scale2(t):
    return T.scale(t, 2)


@contract("vector", *both("root_vector__current_max_len"))
def vector_cap(S, a):
    r, m, l = vparts(a, a.s)
    cap, d, b = capdepth(S, m, l)
    return dict(result=cap)


@contract("vector", *both("root_vector__depth"))
def vector_depth(S, a):
    r, m, l = vparts(a, a.s)
    cap, d, b = capdepth(S, m, l)
    return dict(result=d)


@contract("vector", *both("root_vector__max_len"))
def vector_max(S, a):
    return dict(result=V(a)[2](a.s))


@contract("vector", *both("root_vector__len", "root_vector__seq_len"))
def vector_len(S, a):
    return dict(result=V(a)[1](a.s))


@contract("vector", *both("root_vector__root"))
def vector_root(S, a):
    return dict(result=V(a)[0](a.s))


@contract("vector", "root_vector__create")
def vector_create(S, a):
    p = S.option(a.m)
    if p is not None:
        if S.test(T.eqi(p, K(0))) or S.test(T.lt(p, a.len)):
            return dict(result=E(INVALID))
    t = a.len if p is None else p
    return dict(rview=okview(a, E0(clog2(t)), a.m, a.len, "owned"))


def E0(d):
    return ("app", "E", d)


def okview(a, r, m, l, mod):
    fr, fl, fm = a.root.views.vec(mod)
    return [("root", okpart(fr), r), ("max", okpart(fm), m), ("len", okpart(fl), l)]


def okpart(f):
    return lambda res: f(fld(res, 0)) if not (res[0] == "agg" and res[1] != 0) else ("agg", 99, ())


@contract("vector", *both("root_vector__from_raw", "root_raw__into_vector"))
def vector_from_raw(S, a):
    r = getattr(a, "r", None) or a.s
    fr, fl, fm = V(a)
    return dict(rview=[("root", fr, a.root.views.raw(mod_of(a))(r)), ("len", fl, a.len), ("max", fm, a.m)])


@contract("leak", *both("root_vector__metadata"))
def vector_metadata(S, a):
    r, m, l = vparts(a, a.s)
    return dict(result=("agg", 0, (r, l, m)))


@contract("leak", *both("root_vector__from_leaked"))
def vector_from_leaked(S, a):
    fr, fl, fm = V(a)
    return dict(rview=[("root", fr, fld(a.m, 0)), ("len", fl, fld(a.m, 1)), ("max", fm, fld(a.m, 2))])


@contract("handle", *both("root_vector__into_raw"))
def vector_into_raw(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), V(a)[0](a.s))])


def release(a, r):
    """an owned handle gives its root back exactly once; a dangling one touches nothing"""
    return [("unrootify", (r,))] if mod_of(a) == "owned" else []


@contract("handle", *both("root_vector__drop"))
def vector_drop(S, a):
    return dict(result=ok(UNIT), events=release(a, V(a)[0](a.s)))


# ---- Raw (accessors)
def rawroot(a, v):
    return a.root.views.raw(mod_of(a))(v)


@contract("handle", *both("root_raw__root", "root_raw__metadata"))
def raw_root_(S, a):
    return dict(result=rawroot(a, a.s))


@contract("handle", *both("root_raw__new", "root_raw__from_leaked"))
def raw_new(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), a.v)])


@contract("handle", *both("root_raw__default"))
def raw_default(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), DEF)])


@contract("handle", *both("root_raw__into_raw"))
def raw_into_raw(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), rawroot(a, a.s))])


@contract("handle", *both("root_raw__as_dangling"))
def raw_as_dangling(S, a):
    return dict(rview=[("root", a.root.views.raw("dangling"), rawroot(a, a.s))])


@contract("handle", *both("root_raw__drop"))
def raw_drop(S, a):
    return dict(result=ok(UNIT), events=release(a, rawroot(a, a.s)))


# ---- LengthMixed over an unknown sequence, and the lists built from it
ITEMS, LEN = K(2), K(3)


def mix(S, r, iroot, ilen):
    return set_root(S.I, set_root(S.I, r, ITEMS, iroot), LEN, ("app", "fromusize", ilen))


@contract("list", *both("root_mixed__reconstruct"))
def mixed_reconstruct(S, a):
    fr, fi = a.root.views.mixed(mod_of(a))
    ln = S.get(a.v, LEN)
    if ln is None:
        return dict(result=E(CORRUPTED))
    it = S.get(a.v, ITEMS)
    if it is None:
        return dict(result=E(CORRUPTED))
    return dict(rview=[("root", okpart(fr), a.v), ("items", okpart(fi), ("app", "reconned", ("agg", 0, (it, UNIT)), ("app", "tousize", ln)))])


@contract("list", *both("root_mixed__deconstruct"))
def mixed_deconstruct(S, a):
    r = a.root.views.mixed(mod_of(a))[0](a.s)
    return dict(result=ok(r), reads=[(r, LEN), (r, ITEMS)])


@contract("list", *both("root_mixed__with"))
def mixed_with(S, a):
    i = a.root.views.mixed(mod_of(a))[1](a.s)
    return dict(result=ok(("app", "fnres", i)), final={"s": a.s})


@contract("list", *both("root_mixed__with_mut"))
def mixed_with_mut(S, a):
    fr, fi = a.root.views.mixed(mod_of(a))
    i = fi(a.s)
    n = ("app", "mutated", i)
    return dict(result=ok(("app", "fnres", i)),
                view=[("items", fi, n, "s"), ("root", fr, mix(S, fr(a.s), ("app", "seqroot", n), ("app", "seqlen", n)), "s")])


@contract("list", "root_mixed__create")
def mixed_create(S, a):
    fr, fi = a.root.views.mixed("owned")
    n = ("app", "made")
    return dict(rview=[("root", okpart(fr), mix(S, DEF, ("app", "seqroot", n), ("app", "seqlen", n))),
                       ("items", okpart(fi), ("app", "seqleaked", ("app", "seqmeta", n)))])


@contract("handle", *both("root_mixed__root"))
def mixed_root(S, a):
    return dict(result=a.root.views.mixed(mod_of(a))[0](a.s))


@contract("handle", *both("root_mixed__len"))
def mixed_len(S, a):
    return dict(result=("app", "seqlen", a.root.views.mixed(mod_of(a))[1](a.s)))


@contract("handle", *both("root_mixed__into_raw"))
def mixed_into_raw(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), a.root.views.mixed(mod_of(a))[0](a.s))])


@contract("leak", *both("root_mixed__metadata"))
def mixed_metadata(S, a):
    fr, fi = a.root.views.mixed(mod_of(a))
    return dict(result=("agg", 0, (fr(a.s), ("app", "seqmeta", fi(a.s)))))


@contract("leak", *both("root_mixed__from_leaked"))
def mixed_from_leaked(S, a):
    fr, fi = a.root.views.mixed(mod_of(a))
    return dict(rview=[("root", fr, fld(a.m, 0)), ("items", fi, ("app", "seqleaked", fld(a.m, 1)))])


@contract("handle", *both("root_mixed__drop"))
def mixed_drop(S, a):
    fr, fi = a.root.views.mixed(mod_of(a))
    return dict(result=ok(UNIT), events=release(a, fr(a.s)), maybe=["seq.drop"])


def lkind(a):
    return "packedlist" if "packedlist" in a.root.name else "list"


def L(a, mod=None):
    return a.root.views.lst(mod or mod_of(a), lkind(a))


def inner_views(a):
    """(root, len, max) readers of the inner handle"""
    return a.root.views.packed("dangling") if lkind(a) == "packedlist" else a.root.views.vec("dangling")


@contract("list", *both("root_list__get", "root_packedlist__get"))
def list_get(S, a):
    return dict(result=ok(("app", "elem", L(a)[1](a.s), a.i)), final={"s": a.s})


def list_after(S, a, inner, ilen):
    fr, fi = L(a)
    ir = inner_views(a)[0](inner)
    return [("items", fi, inner, "s"), ("root", fr, mix(S, fr(a.s), ir, ilen), "s")]


@contract("list", *both("root_list__set", "root_packedlist__set"))
def list_set(S, a):
    i = L(a)[1](a.s)
    return dict(result=ok(UNIT), view=list_after(S, a, ("app", "vset", i, a.i, a.v), inner_views(a)[1](i)))


@contract("list", *both("root_list__push", "root_packedlist__push"))
def list_push(S, a):
    i = L(a)[1](a.s)
    return dict(result=ok(UNIT), view=list_after(S, a, ("app", "push", i, a.v), add(inner_views(a)[1](i), K(1))))


@contract("list", *both("root_list__pop", "root_packedlist__pop"))
def list_pop(S, a):
    i = L(a)[1](a.s)
    n = ("app", "pop", i)
    return dict(result=ok(("app", "popres", i)), view=list_after(S, a, n, ("app", "len", n)))


@contract("list", *both("root_list__deconstruct"))
def list_deconstruct(S, a):
    r = L(a)[0](a.s)
    return dict(result=ok(r), reads=[(r, LEN), (r, ITEMS)])


def list_rview(a, mod, r, ir, il, im, wrap):
    fr, fi = L(a, mod)
    vr, vl, vm = inner_views(a)
    return [("root", wrap(fr), r), ("items.root", wrap(lambda x: vr(fi(x))), ir),
            ("items.len", wrap(lambda x: vl(fi(x))), il), ("items.max", wrap(lambda x: vm(fi(x))), im)]


@contract("list", *both("root_list__reconstruct"))
def list_reconstruct(S, a):
    ln = S.get(a.v, LEN)
    if ln is None:
        return dict(result=E(CORRUPTED))
    it = S.get(a.v, ITEMS)
    if it is None:
        return dict(result=E(CORRUPTED))
    return dict(rview=list_rview(a, mod_of(a), a.v, it, ("app", "tousize", ln), a.m, okpart))


@contract("list", *both("root_list__from_raw", "root_raw__into_list"))
def list_from_raw(S, a):
    """The raw tree is the list's: its items are on the left of the root"""
    r = a.root.views.raw(mod_of(a))(a.r if hasattr(a, "r") else a.s)
    v = list_rview(a, mod_of(a), r, layers.get_root(S.I, r, ITEMS), a.len, a.m, lambda f: f)
    return dict(rview=[v[0], v[2], v[3], v[1]])


@contract("list", "root_list__create")
def list_create(S, a):
    p = S.option(a.m)
    if p is not None and S.test(T.eqi(p, K(0))):
        return dict(result=E(INVALID))
    d = clog2(p) if p is not None else K(0)
    return dict(rview=list_rview(a, "owned", mix(S, DEF, E0(d), K(0)), E0(d), K(0), a.m, okpart))


@contract("handle", *both("root_list__root", "root_packedlist__root"))
def list_root(S, a):
    return dict(result=L(a)[0](a.s))


@contract("handle", *both("root_list__len", "root_packedlist__len"))
def list_len(S, a):
    return dict(result=inner_views(a)[1](L(a)[1](a.s)))


@contract("handle", *both("root_list__into_raw", "root_packedlist__into_raw"))
def list_into_raw(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), L(a)[0](a.s))])


@contract("handle", *both("root_list__drop", "root_packedlist__drop"))
def list_drop(S, a):
    return dict(result=ok(UNIT), events=release(a, L(a)[0](a.s)))


@contract("leak", *both("root_list__metadata", "root_packedlist__metadata"))
def list_metadata(S, a):
    fr, fi = L(a)
    i = fi(a.s)
    return dict(result=("agg", 0, (fr(a.s), ("agg", 0, tuple(f(i) for f in inner_views(a))))))


def ident(f):
    return f


@contract("leak", *both("root_list__from_leaked", "root_packedlist__from_leaked"))
def list_from_leaked(S, a):
    m = fld(a.m, 1)
    return dict(rview=list_rview(a, mod_of(a), fld(a.m, 0), fld(m, 0), fld(m, 1), fld(m, 2), ident))


# ---- packed vector, trivial part
def P(a):
    return a.root.views.packed(mod_of(a))


@contract("handle", *both("root_packed8__root"))
def packed_root(S, a):
    return dict(result=P(a)[0](a.s))


@contract("handle", *both("root_packed8__len"))
def packed_len(S, a):
    return dict(result=P(a)[1](a.s))


@contract("handle", *both("root_packed8__into_raw"))
def packed_into_raw(S, a):
    return dict(rview=[("root", a.root.views.raw(mod_of(a)), P(a)[0](a.s))])


@contract("handle", *both("root_packed8__drop"))
def packed_drop(S, a):
    return dict(result=ok(UNIT), events=release(a, P(a)[0](a.s)))


@contract("leak", *both("root_packed8__metadata"))
def packed_metadata(S, a):
    return dict(result=("agg", 0, tuple(f(a.s) for f in P(a))))
