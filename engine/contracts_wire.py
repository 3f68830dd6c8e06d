"""Contracts of the serialised forms (serde and parity-codec)."""
from terms import C as K, UNIT
import terms as T
from spec import ok, some, NONE
from contract import contract, fld

LIST = ("sym", "[T]")


def rd(t, i):
    return ("app", "rd", t, i)


def bounded(v):
    return ("agg", 0, (v, UNIT))


@contract("wire", "root_serde__maxvec_ser", "root_serde__compact_ser")
def inner_ser(S, a):
    return dict(result=("app", "ser", fld(a.v, 0), a.s))


@contract("wire", "root_serde__value_ser")
def value_ser(S, a):
    return dict(result=("app", "ser_named", ("app", "str", "Value"), fld(a.v, 0), a.s))


@contract("wire", "root_serde__cv_ser")
def cv_ser(S, a):
    i = S.variant(a.v, 2, (1, 1))
    return dict(result=("app", "ser_variant", ("app", "str", "CompactValue"), K(i), ("app", "str", ("Single", "Combined")[i]), fld(a.v, (i, 0)), a.s))


def serde_list(n):
    def f(S, a):
        r = ("app", "de", LIST, a.d)
        if S.variant(r, 2, (1, 1)) == 1:
            return dict(result=r)
        v = ("fld", r, 0, 0)
        if S.test(T.lt(K(n), S.I.lenof(v))):
            return dict(check=lambda o, s, res: None if res[:2] == ("agg", 1) else (f"a list longer than {n} is accepted", ""))
        return dict(result=ok(bounded(v)))
    return f


def codec_list(n):
    def f(S, a):
        v = S.option(rd(LIST, a.input))
        if v is None:
            return dict(result=NONE)
        if S.test(T.lt(K(n), S.I.lenof(v))):
            return dict(result=NONE)
        return dict(result=some(bounded(v)), final={"input": ("app", "rest", LIST, a.input)})
    return f


for _n, _k in ((7, ""), (1, "1")):
    contract("wire", f"root_serde__maxvec{_k}_de")(serde_list(_n))
    contract("wire", f"root_codec__maxvec{_k}_dec")(codec_list(_n))


@contract("wire", "root_serde__compact_de")
def compact_de(S, a):
    r = ("app", "de", ("sym", "L0"), a.d)
    if S.variant(r, 2, (1, 1)) == 1:
        return dict(result=r)
    return dict(result=ok(("agg", 0, (("fld", r, 0, 0),))))


@contract("wire", "root_codec__maxvec_enc", "root_codec__value_enc")
def inner_enc(S, a):
    return dict(result=UNIT, final={"out": ("app", "put", a.out, fld(a.v, 0))})


@contract("wire", "root_codec__value_dec")
def value_dec(S, a):
    t = ("sym", "[u8; 32]")
    v = S.option(rd(t, a.input))
    if v is None:
        return dict(result=NONE)
    return dict(result=some(("agg", 0, (("agg", 0, (v,)),))), final={"input": ("app", "rest", t, a.input)})


@contract("wire", "root_codec__cv_enc")
def cv_enc(S, a):
    i = S.variant(a.v, 2, (1, 1))
    return dict(result=UNIT, final={"out": ("app", "put", ("app", "put", a.out, K(i)), fld(a.v, (i, 0)))})


@contract("wire", "root_codec__cv_dec")
def cv_dec(S, a):
    b = S.option(rd(("sym", "u8"), a.input))
    if b is None:
        return dict(result=NONE)
    rest = ("app", "rest", ("sym", "u8"), a.input)
    for i, t in enumerate((("sym", "L0"), ("sym", "Box<T>"))):
        if S.test(T.eqi(b, K(i))):
            v = S.option(rd(t, rest))
            if v is None:
                return dict(result=NONE)
            return dict(result=some(("agg", i, (v,))), final={"input": ("app", "rest", t, rest)})
    return dict(result=NONE)
