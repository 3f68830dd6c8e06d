"""Contracts of the derive fixtures: fields in declaration order, variants by position."""
import terms as T
import ground
from terms import C as K
from contract import contract, fld, E, CORRUPTED
import contracts_le as L
from contracts_le import tree, untree, vtree, vec, num, tagged, zero_chunk
from spec import ok, Skip

D = "root_derive__"


def fields(v, leaves, var=0):
    return [tree(l, fld(v, (var, k))) for k, l in enumerate(leaves)]


def unfields(r, leaves):
    at = vec(r, K(len(leaves)))
    return tuple(untree(l, at(k)) for k, l in enumerate(leaves))


def struct(name, *leaves):
    @contract("derive", D + "enc_" + name)
    def enc(S, a):
        return dict(result=ok(vtree(fields(a.v, leaves))))

    @contract("derive", D + "dec_" + name)
    def dec(S, a):
        return dict(result=ok(("agg", 0, unfields(a.r, leaves))))


struct("unit0")
struct("named1", "L0")
struct("named3", "L0", "L1", "L2")
struct("named5", "L0", "L1", "L2", "L3", "L4")
struct("gen", "L0", "L1")
struct("tup2", "L0", "L1")
struct("tup6", "L3", "L1", "L2", "L2", "L0", "L6")
struct("units")
struct("same4", "L0", "L0", "L0", "L0")
struct("named9", *[f"L{i % 7}" for i in range(9)])
struct("named17", *[f"L{i * 3 % 7}" for i in range(17)])


# { a: L0, b: { L0, L1, L2 }, c: { L1, L2 } }
@contract("derive", D + "enc_nest")
def enc_nest(S, a):
    b, c = (vtree([tree(l, fld(a.v, k, j)) for j, l in enumerate(ls)]) for k, ls in ((1, ("L0", "L1", "L2")), (2, ("L1", "L2"))))
    return dict(result=ok(vtree([tree("L0", fld(a.v, 0)), b, c])))


@contract("derive", D + "dec_nest")
def dec_nest(S, a):
    at = vec(a.r, K(3))
    return dict(result=ok(("agg", 0, (untree("L0", at(0)), ("agg", 0, unfields(at(1), ("L0", "L1", "L2"))),
                                      ("agg", 0, unfields(at(2), ("L1", "L2")))))))


def enum(name, *variants):
    ar = tuple(len(v) for v in variants)

    @contract("derive", D + "enc_" + name)
    def enc(S, a):
        k = S.variant(a.v, len(ar), ar)
        return dict(result=ok(vtree([vtree(fields(a.v, variants[k], k)), num(K(k))])))

    @contract("derive", D + "dec_" + name)
    def dec(S, a):
        l, n = tagged(S, a.r)
        if n is None:
            return dict(result=E(CORRUPTED))
        for k, leaves in enumerate(variants):
            if S.test(T.eqi(n, K(k))):
                if not leaves and not S.test(zero_chunk(l)):
                    return dict(result=E(CORRUPTED))
                return dict(result=ok(("agg", k, unfields(l, leaves))))
        return dict(result=E(CORRUPTED))


enum("en", ("L0",), ("L1", "L2"), (), ("L3", "L4", "L5"), ("L6",))
enum("one", ())
enum("many", (), ("L0",), ("L1", "L2"), ("L3", "L4", "L5"), ("L0", "L1", "L2", "L3", "L4"), ("L5",), ("L6",), (), ("L2", "L1"), ("L1", "L0"))

enum("wide", *[(f"L{i % 7}",) if i % 3 == 0 else (f"L{i % 7}", f"L{(i + 2) % 7}") if i % 3 == 1 else () for i in range(20)])
enum("genen", ("L0",), ("L1", "L0"), ())


def gfields(g, S, v, var, kinds):
    """Ground subtrees of the fields: a leaf by name, or a compact [u64; 4]"""
    es = []
    for k, kind in enumerate(kinds):
        x = fld(v, (var, k))
        if kind == "[4]":
            if g.int(("len", x)) != 4:
                raise Skip()
            es.append(L.items(g, x, "u64", None)[0])
        else:
            es.append(g.g(tree(kind, x)))
    return es


def same_fields(g, v, r, kinds, var=0):
    at = vec(r, K(len(kinds)))
    for k, kind in enumerate(kinds):
        x = v[2][k] if v[0] == "agg" else ("fld", v, var, k)
        if kind == "[4]":
            p = L.same_list(g, f"field {k}", x, L.decoded(g, g.g(at(k)), "u64", 4, None))
        else:
            p = g.same(f"field {k}", x, g.g(untree(kind, at(k))))
        if p:
            return p
    return None


def arrays(S, v, var, kinds):
    for k, kind in enumerate(kinds):
        if kind == "[4]" and S.test(T.neg(T.eqi(S.I.lenof(fld(v, (var, k))), K(4)))):
            raise Skip()


# ( compact [u64; 4], L0 )
@contract("derive", D + "enc_comptup")
def enc_comptup(S, a):
    kinds = ("[4]", "L0")
    arrays(S, a.v, 0, kinds)
    return dict(at=lambda g: g.same("result", g.res(), L.gok(ground.vtree(gfields(g, S, a.v, 0, kinds), None))))


@contract("derive", D + "dec_comptup")
def dec_comptup(S, a):
    def at(g):
        res = g.res()
        if res[0] != "agg" or res[1] != 0:
            return "fails where a value is required"
        return same_fields(g, res[2][0], a.r, ("[4]", "L0"))
    return dict(at=at)


# { A(L0, compact [u64; 4]), B { compact a: [u64; 4], b: L1 } }
COMPEN = (("L0", "[4]"), ("[4]", "L1"))


@contract("derive", D + "enc_compen")
def enc_compen(S, a):
    k = S.variant(a.v, 2, (2, 2))
    arrays(S, a.v, k, COMPEN[k])

    def at(g):
        t = ground.vtree([ground.vtree(gfields(g, S, a.v, k, COMPEN[k]), None), g.g(num(K(k)))], None)
        return g.same("result", g.res(), L.gok(t))
    return dict(at=at)


@contract("derive", D + "dec_compen")
def dec_compen(S, a):
    l, n = tagged(S, a.r)
    if n is None:
        return dict(result=E(CORRUPTED))
    for k, kinds in enumerate(COMPEN):
        if S.test(T.eqi(n, K(k))):
            def at(g):
                res = g.res()
                if res[0] != "agg" or res[1] != 0:
                    return "fails where a value is required"
                v = res[2][0]
                if v[0] == "agg" and v[1] != k:
                    return f"variant {v[1]} where {k} is required"
                return same_fields(g, v, l, kinds, k)
            return dict(at=at)
    return dict(result=E(CORRUPTED))


# { a: L0, compact b: [u64; 4], c: L1, compact d: MaxVec<u64, 5> }
@contract("derive", D + "enc_compacted")
def enc_compacted(S, a):
    b, d = fld(a.v, 1), fld(a.v, 3, 0)
    if S.test(T.neg(T.eqi(S.I.lenof(b), K(4)))):
        raise Skip()

    def at(g):
        if g.int(("len", b)) != 4 or g.int(("len", d)) > 5:
            raise Skip()
        eb, _ = L.items(g, b, "u64", None)
        ed, n = L.items(g, d, "u64", 5)
        es = [g.g(tree("L0", fld(a.v, 0))), eb, g.g(tree("L1", fld(a.v, 2))), L.mixin(ed, n)]
        return g.same("result", g.res(), L.gok(ground.vtree(es, None)))
    return dict(at=at)


@contract("derive", D + "dec_compacted")
def dec_compacted(S, a):
    at_ = vec(a.r, K(4))
    l, n = tagged(S, at_(3))
    if n is None:
        return dict(result=E(CORRUPTED))
    if S.test(T.lt(K(5), n)):
        return dict(result=E(CORRUPTED))

    def at(g):
        res = g.res()
        if res[0] != "agg" or res[1] != 0:
            return "fails where a value is required"
        v = res[2][0]
        return (g.same("field a", v[2][0], g.g(untree("L0", at_(0)))) or g.same("field c", v[2][2], g.g(untree("L1", at_(2))))
                or L.same_list(g, "field b", v[2][1], L.decoded(g, g.g(at_(1)), "u64", 4, None))
                or L.same_list(g, "field d", v[2][3][2][0], L.decoded(g, g.g(l), "u64", g.int(n), 5)))
    return dict(at=at)
