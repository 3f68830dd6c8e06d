"""Contracts of the little-endian encoding: what each encoder returns and each decoder reads."""
import terms as T
import ground
from terms import C as K
from contract import contract, fld, E, CORRUPTED, OVERFLOW, CONTRACTS
from spec import ok, err, some, NONE, Skip
from layers import raw_field

UNIT = T.UNIT
NOMAX = ("agg", 0, ())
LE = "root_le__"


def value(bs):
    """The chunk holding a byte sequence (term)"""
    return ("agg", 0, (("agg", 0, (bs,)),))


def num(n, w=32):
    """The chunk holding number n in w little-endian bytes"""
    s = [("sl", ("le", w, n), K(0), K(w))]
    if w < 32:
        s.append(("rep", K(0), K(32 - w)))
    return value(("seq", tuple(s)))


ZERO = value(("seq", (("rep", K(0), K(32)),)))


def tree(t, v):
    return ("app", "tree", t, v)


def untree(t, r):
    return ("app", "untree", t, r)


def vtree(parts, mx=NOMAX):
    return ("app", "vtree", ("seq", tuple(("e", p) for p in parts)), mx)


def vec(r, n, mx=NOMAX):
    """Position of element i of a tree of n elements (or mx) under root r"""
    def at(i):
        d = ("clog2", n) if mx == NOMAX else ("clog2", mx[2][0])
        return node(r, T.add(T.pow2(fold(d)), i if isinstance(i, tuple) else K(i)))
    return at


def fold(d):
    x = d[1]
    if x[0] == "c":
        return K(0 if x[1] <= 1 else (x[1] - 1).bit_length())
    return d


def node(r, i):
    return r if i == K(1) else ("app", "sub", r, i)


def int_at(chunk, w, off=0):
    """Number in bytes off.. of a chunk"""
    return ("int_le", ("seq", (("sl", fld(chunk, 0, 0), K(off), K(w)),)))


# ---- scalars
WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "u256": 32}


def scalar(n, w):
    @contract("le", LE + "enc_" + n)
    def enc(S, a):
        return dict(result=ok(num(a.v, w)))

    @contract("le", LE + "dec_" + n)
    def dec(S, a):
        return dict(result=ok(int_at(a.r, w)))


for _n, _w in WIDTH.items():
    scalar(_n, _w)


@contract("le", LE + "enc_bool")
def enc_bool(S, a):
    b = 1 if S.test(a.v) else 0

    def at(g):
        if g.res()[0] == "agg" and g.res()[1] != 0:
            return "fails on a boolean"
        return same_list(g, "", listof(g, g.res(), (0, 0)), [("i", b)] + [("i", 0)] * 31)
    return dict(at=at)


@contract("le", LE + "dec_bool")
def dec_bool(S, a):
    return dict(result=ok(T.neg(T.eqi(int_at(a.r, 1), K(0)))))


@contract("le", LE + "enc_h256")
def enc_h256(S, a):
    def at(g):
        if g.res()[0] == "agg" and g.res()[1] != 0:
            return "fails on a hash"
        have, v = listof(g, g.res(), (0, 0)), fld(g.g(a.v), 0)
        return same_list(g, "", have, [("at", v, k) for k in range(32)])
    return dict(at=at)


@contract("le", LE + "enc_h512")
def enc_h512(S, a):
    b = fld(a.v, 0)
    return dict(result=ok(vtree([value(("seq", (("sl", b, K(0), K(32)),))), value(("seq", (("sl", b, K(32), K(32)),)))])))


@contract("le", LE + "enc_value", LE + "dec_value")
def enc_value(S, a):
    return dict(result=ok(getattr(a, "v", None) or a.r))


@contract("le", LE + "enc_unit")
def enc_unit(S, a):
    return dict(result=ok(ZERO))


@contract("le", LE + "dec_unit")
def dec_unit(S, a):
    if S.test(zero_chunk(a.r)):
        return dict(result=ok(UNIT))
    return dict(result=E(CORRUPTED))


def zero_chunk(r):
    return T.eqv(fld(r, 0), fld(ZERO, 0))


@contract("le", LE + "dec_ignored")
def dec_ignored(S, a):
    return dict(result=ok(("agg", 0, ())))


@contract("le", LE + "enc_box")
def enc_box(S, a):
    return dict(result=ok(tree("L0", a.v)))


@contract("le", LE + "dec_box")
def dec_box(S, a):
    return dict(result=ok(untree("L0", a.r)))


# ---- options and tags
@contract("le", LE + "enc_option")
def enc_option(S, a):
    p = S.option(a.v)
    if p is None:
        return dict(result=ok(vtree([ZERO, num(K(0))])))
    return dict(result=ok(vtree([tree("L0", p), num(K(1))])))


# ---- the root alone: what encoding returns, as a plain hash, whatever the discarding backend answers
def alone(S, root):
    if any(e.out == "Err" for e in S.st.events):
        return None                         # the discarding backend takes every write (its own contract)
    return dict(result=fld(root, 0))


@contract("le", "root_treeroot__leaf")
def root_leaf(S, a):
    return alone(S, tree("L0", a.v))


@contract("le", "root_treeroot__option")
def root_option(S, a):
    p = S.option(a.v)
    return alone(S, vtree([ZERO, num(K(0))]) if p is None else vtree([num(p, 8), num(K(1))]))


@contract("le", LE + "enc_compact_value")
def enc_compact(S, a):
    if S.variant(a.v, 2, (1, 1)) == 0:
        return dict(result=ok(fld(a.v, (0, 0))), events=[])
    l, r = fld(a.v, (1, 0), 0), fld(a.v, (1, 0), 1)

    def at(g):
        sub = {}
        for k, c, out, e in g.calls():
            if not k.startswith("rec:") or out == "Err":
                continue
            if not k.endswith("::into_tree"):
                raise ground.Unknown("recursion through another function")
            for x in (l, r):
                if g.g(x) in c:
                    sub[x] = g.g(e.res)
        if len(sub) < 2 and l != r:
            raise ground.Unknown("no recursive call on a part")
        x, y = sub[l], sub[r]
        h = ("H", x, y)
        p = g.same("result", g.res(), ("agg", 0, (h,)))
        if p:
            return p
        ins = [c for k, c, out, e in g.calls() if k == "insert"]
        if len(ins) != 1 or ins[0][0] != h or ins[0][1] != ("agg", 0, (x, y)):
            return "the combined node is not stored with its two children"
        return None
    return dict(at=at)


MAX = K((1 << 64) - 1)


def tagged(S, r):
    """(left node, number on the right) of a mixed-in tree, or None when the number does not fit"""
    at = vec(r, K(2))
    n = int_at(at(1), 32)
    if S.test(T.lt(MAX, n)):
        return at(0), None
    return at(0), n


@contract("le", LE + "dec_option")
def dec_option(S, a):
    l, n = tagged(S, a.r)
    if n is None:
        return dict(result=E(CORRUPTED))
    if S.test(T.eqi(n, K(0))):
        if S.test(zero_chunk(l)):
            return dict(result=ok(NONE))
        return dict(result=E(CORRUPTED))
    if S.test(T.eqi(n, K(1))):
        return dict(result=ok(some(untree("L0", l))))
    return dict(result=E(CORRUPTED))


@contract("le", "root_leutil__mix_in_type", "root_leutil__mix_in_length")
def mix_in(S, a):
    return dict(result=ok(vtree([tree("L0", a.v), num(a.t)])))


@contract("le", "root_leutil__decode_with_length")
def decode_with_length(S, a):
    l, n = tagged(S, a.r)
    if n is None:
        return dict(result=E(CORRUPTED))
    return dict(result=ok(("agg", 0, (untree("L0", l), n))))


@contract("le", "root_leutil__decode_with_type")
def decode_with_type(S, a):
    l, n = tagged(S, a.r)
    if n is None:
        return dict(result=E(CORRUPTED))
    return dict(result=ok(("agg", 0, (l, n))))


# ---- conversions of the chunk
@contract("le", "root_value__default")
def value_default(S, a):
    return dict(result=ZERO)


@contract("le", "root_value__from_usize")
def value_from_usize(S, a):
    return dict(result=num(a.l, 8))


@contract("le", "root_value__into_usize")
def value_into_usize(S, a):
    n = int_at(a.v, 32)
    if S.test(T.lt(MAX, n)):
        raise Skip()                # a number no length can be
    return dict(result=int_at(a.v, 8))


@contract("le", "root_value__from_garray")
def value_from_garray(S, a):
    return dict(result=value(a.a))


# ---- tuples and arrays
def fixed(name, n, types, part, wrap=lambda x: ("agg", 0, x)):
    @contract("le", LE + "enc_" + name)
    def enc(S, a):
        return dict(result=ok(vtree([tree(t, part(a.v, i)) for i, t in enumerate(types)])))

    @contract("le", LE + "dec_" + name)
    def dec(S, a):
        at = vec(a.r, K(n))
        return dict(result=ok(wrap(tuple(untree(t, at(i)) for i, t in enumerate(types)))))


for _n in range(2, 10):
    fixed(f"tuple{_n}", _n, [f"L{i}" for i in range(_n)], lambda v, i: fld(v, i))
_seq = lambda x: ("seq", tuple(("e", e) for e in x))
for _n in (1, 7, 32):
    fixed(f"array{_n}", _n, ["LC"] * _n, lambda v, i: ("at", v, K(i)), _seq)
fixed("garray", 6, ["L0"] * 6, lambda v, i: ("at", v, K(i)), _seq)


# ---- sequences, read pointwise
def chunk(bs):
    return ("agg", 0, (("agg", 0, (("list", tuple(bs)),)),))


def gnum(n, w=32):
    return [("i", (n >> (8 * i)) & 255) for i in range(w)]


def gopt(g, m):
    """None or the maximum (option term) at this valuation"""
    x = g.g(m)
    if x[0] != "agg":
        k = g.val.variant(m)
        return g.int(("fld", m, 1, 0)) if k else None
    return None if x[1] == 0 else x[2][0][1] if x[2][0][0] == "i" else g.int(("fld", m, 1, 0))


def elements(g, s):
    """Terms of the elements of sequence s"""
    n = g.int(("len", s))
    return [("at", s, K(i)) for i in range(n)]


def pack(g, s, kind):
    """Packed bytes of the elements of s, cut into chunks"""
    es = elements(g, s)
    if kind == "bool":
        bits = [g.val.bool(e) for e in es]
        bs = [("i", sum(1 << j for j, b in enumerate(bits[i:i + 8]) if b)) for i in range(0, len(bits), 8)]
    else:
        w = WIDTH[kind]
        bs = []
        for e in es:
            bs += [g.val.gseq(("le", w, e))[j] for j in range(w)]
    bs += [("i", 0)] * (-len(bs) % 32)
    return [g.val.whole(tuple(bs[i:i + 32])) for i in range(0, len(bs), 32)], len(es)


def asvalue(x):
    return ("agg", 0, (("agg", 0, (x,)),))


def chunks_for(n, kind):
    """Chunks that n packed elements need"""
    if kind == "bool":
        return ((n + 7) // 8 + 31) // 32
    return (n * WIDTH[kind] + 31) // 32


def seqterm(a, own):
    """The elements of an argument that is a slice or a wrapper around one"""
    return a.v if not own else fld(a.v, 0)


def items(g, s, kind, mx):
    """Root of the tree of the elements of s, sized for mx elements"""
    if kind == "comp":
        es = [g.g(tree("L0", e)) for e in elements(g, s)]
        return ground.vtree(es, None if mx is None else ("i", mx)), len(es)
    cs, n = pack(g, s, kind)
    return ground.vtree([asvalue(c) for c in cs], None if mx is None else ("i", chunks_for(mx, kind))), n


def mixin(root, n):
    return ground.vtree([root, chunk(gnum(n))], None)


def gok(x):
    return ("agg", 0, (x,))


def enc_items(kind, own, listed, mx=None):
    given = mx is None
    mx = mx or (lambda g, a: gopt(g, a.m))

    def f(S, a):
        if given:
            S.option(a.m)
        def at(g):
            m = mx(g, a)
            s = own(a)
            if m is not None and g.int(("len", s)) > m:
                raise Skip()        # longer than its maximum: no defined encoding
            root, n = items(g, s, kind, m)
            return g.same("result", g.res(), gok(mixin(root, n) if listed else root))
        return dict(at=at)
    return f


KINDS = ["u8", "u16", "u32", "u64", "u128", "u256", "bool"]
for _k in KINDS:
    contract("le", "root_levec__encv_" + _k)(enc_items(_k, lambda a: a.v, False))
    contract("le", "root_levec__encl_" + _k)(enc_items(_k, lambda a: a.v, True))
for _x, _l in (("v", False), ("l", True)):
    contract("le", f"root_levec__enc{_x}_comp")(enc_items("comp", lambda a: a.v, _l))
    contract("le", f"root_levec__enc{_x}_own")(enc_items("u64", lambda a: fld(a.v, 0), _l))
    contract("le", f"root_levec__enc{_x}_owncomp")(enc_items("comp", lambda a: fld(a.v, 0), _l))
nomax = lambda g, a: None
contract("le", LE + "enc_vec")(enc_items("comp", lambda a: a.v, True, nomax))
contract("le", LE + "enc_slice")(enc_items("comp", lambda a: a.v, True, nomax))
contract("le", LE + "enc_maxvec")(enc_items("comp", lambda a: fld(a.v, 0), True, lambda g, a: 7))


def vecarray(a):
    return fld(a.v, 0)


def enc_fixed(kind, own, n):
    """Fixed length n by type"""
    def f(S, a):
        def at(g):
            s = own(a)
            if g.int(("len", s)) != n:
                raise Skip()        # not a value of the type
            root, _ = items(g, s, kind, None)
            return g.same("result", g.res(), gok(root))
        if S.test(T.neg(T.eqi(S.I.lenof(own(a)), K(n)))):
            raise Skip()
        return dict(at=at, pool=[n] * 12)
    return f


contract("le", LE + "enc_vecarray")(enc_fixed("comp", vecarray, 6))
for _k in KINDS:
    contract("le", LE + "enc_cgarray_" + _k)(enc_fixed(_k, lambda a: fld(a.v, 0), 6))
contract("le", LE + "enc_cvecarray_u64")(enc_fixed("u64", lambda a: fld(a.v, 0, 0), 6))
contract("le", LE + "enc_cref_garray")(enc_fixed("u64", lambda a: a.v, 6))
contract("le", LE + "enc_cref_vecarray")(enc_fixed("u64", lambda a: fld(a.v, 0), 6))
for _k in ("u64", "bool", "u256"):
    contract("le", LE + "enc_cmaxvec_" + _k)(enc_items(_k, lambda a: fld(a.v, 0, 0), True, lambda g, a: 7))
contract("le", LE + "enc_cref_maxvec")(enc_items("u64", lambda a: fld(a.v, 0), True, lambda g, a: 7))


# ---- decoding sequences
def gnode(g, root, d, k):
    return ground.tget(root, (1 << d) + k)


def depth(n):
    return 0 if n <= 1 else (n - 1).bit_length()


def byte(g, root, mx, n, w, k, j):
    """Byte j of packed element k of width w under root"""
    hl = (w * n + 31) // 32
    cap = hl if mx is None else (w * mx + 31) // 32
    i = w * k + j
    return ground.node_bytes(gnode(g, root, depth(cap), i // 32))[i % 32]


def intof(g, bs):
    if len(bs) == 1:
        return bs[0]
    return ("i", g.val.leaf(("int", tuple(bs))))


def decoded(g, root, kind, n, mx):
    """The n elements stored under a ground root"""
    if kind == "comp":
        cap = n if mx is None else mx
        return [("app", "untree", "L0", gnode(g, root, depth(cap), k)) for k in range(n)]
    if kind == "bool":
        nb, mb = (n + 7) // 8, None if mx is None else (mx + 7) // 8
        out = []
        for k in range(n):
            b = byte(g, root, mb, nb, 1, k // 8, 0)
            out.append(("i", ((b[1] if b[0] == "i" else g.val.leaf(b)) >> (k % 8)) & 1))
        return out
    w = WIDTH[kind]
    if w == 32:
        cap = n if mx is None else mx
        out = []
        for k in range(n):
            c = gnode(g, root, depth(cap), k)
            c = ("fld", ("fld", c, 0, 0), 0, 0) if c[0] != "agg" else c[2][0][2][0]
            out.append(intof(g, [("at", c, j) for j in range(32)]))
        return out
    return [intof(g, [byte(g, root, mx, n, w, k, j) for j in range(w)]) for k in range(n)]


def wrapped(depthw):
    def w(xs):
        r = ("list", tuple(xs))
        for _ in range(depthw):
            r = ("agg", 0, (r,))
        return r
    return w


def listof(g, res, path):
    """The sequence inside a decoded value"""
    if res[0] == "agg" and res[1] != 0:
        return None
    v = res
    for i in (0,) + tuple(path):
        v = v[2][i] if v[0] == "agg" else ground.digest_of(v) if v[0] in ("H", "E") else ("fld", v, 0, i)
    return v


def check_list(g, want, path):
    have = listof(g, g.res(), path)
    if have is None:
        return f"fails where {len(want)} elements are required"
    return same_list(g, "", have, want)


def same_list(g, name, have, want):
    if have[0] == "fld" and want and want[0][0] == "at" and want[0][1] == have:
        have = ("list", tuple(("at", have, k) for k in range(len(want))))  # the bytes of a node as they are
    if have[0] != "list":
        raise ground.Unknown("decoded elements")
    if len(have[1]) != len(want):
        return f"{name} {len(have[1])} elements where {len(want)} are required"
    for k, (x, y) in enumerate(zip(have[1], want)):
        if x[0] == "i" and y[0] != "i":
            y = ("i", g.val.leaf(y))
        elif y[0] == "i" and x[0] != "i":
            x = ("i", g.val.leaf(x))
        p = g.same(f"{name} element {k}", x, y)
        if p:
            return p
    return None


def dec_fixed(kind, n, path, mx=None, length=None):
    """n: number of elements by type or argument; path: where the sequence sits in the value"""
    def f(S, a):
        if mx is None and hasattr(a, "m"):
            S.option(a.m)
        def at(g):
            k = n if n is not None else g.int(a.len)
            m = mx if mx is not None else gopt(g, a.m) if hasattr(a, "m") else None
            if m is not None and k > m:
                raise Skip()
            return check_list(g, decoded(g, g.g(a.r), kind, k, m), path)
        return dict(at=at)
    return f


def dec_listed(kind, path, mx=None):
    def f(S, a):
        l, n = tagged(S, a.r)
        if n is None:
            return dict(result=E(CORRUPTED))
        m = mx
        if mx is None and hasattr(a, "m"):
            m = S.option(a.m)
        elif mx is not None:
            m = K(mx)
        if m is not None and S.test(T.lt(m, n)):
            return dict(result=E(CORRUPTED))

        def at(g):
            k = g.int(n)
            if k > 400:
                raise ground.Unknown("long list")
            return check_list(g, decoded(g, g.g(l), kind, k, None if m is None else g.int(m)), path)
        return dict(at=at)
    return f


for _k in KINDS + ["comp"]:
    contract("le", "root_levec__decv_" + _k)(dec_fixed(_k, None, (0,)))
    contract("le", "root_levec__decl_" + _k)(dec_listed(_k, (0,)))
contract("le", LE + "dec_vec")(dec_listed("comp", ()))
contract("le", LE + "dec_maxvec")(dec_listed("comp", (0,), 7))
for _k in KINDS:
    contract("le", LE + "dec_cgarray_" + _k)(dec_fixed(_k, 6, (0,)))
contract("le", LE + "dec_cvecarray_u64")(dec_fixed("u64", 6, (0, 0)))
contract("le", LE + "dec_vecarray")(dec_fixed("comp", 6, (0,)))
for _k in ("u64", "bool", "u256"):
    contract("le", LE + "dec_cmaxvec_" + _k)(dec_listed(_k, (0, 0), 7))


def dec_hash(n):
    def f(S, a):
        def at(g):
            return check_list(g, decoded(g, g.g(a.r), "u8", n, None), (0,))
        return dict(at=at)
    return f


contract("le", LE + "dec_h256")(dec_hash(32))
contract("le", LE + "dec_h512")(dec_hash(64))
contract("le", LE + "enc_cgarray_bits")(enc_fixed("bool", lambda a: fld(a.v, 0), 300))
contract("le", LE + "dec_cgarray_bits")(dec_fixed("bool", 300, (0,)))

# ---- lengths and maxima at the edges of chunks and of powers of two
for _n in (1, 2, 8, 33):
    contract("le", f"{LE}enc_maxvec_n{_n}")(enc_items("comp", lambda a: fld(a.v, 0), True, lambda g, a, n=_n: n))
    contract("le", f"{LE}dec_maxvec_n{_n}")(dec_listed("comp", (0,), _n))
for _n in (1, 2, 8):
    fixed(f"garray_n{_n}", _n, ["L0"] * _n, lambda v, i: ("at", v, K(i)), _seq)
for _n in (1, 3, 8):
    contract("le", f"{LE}enc_vecarray_n{_n}")(enc_fixed("comp", vecarray, _n))
    contract("le", f"{LE}dec_vecarray_n{_n}")(dec_fixed("comp", _n, (0,)))
for _k, _n in (("u64", 1), ("u64", 4), ("u8", 32), ("u8", 33), ("u256", 1), ("u256", 3), ("u128", 5), ("bool", 256), ("bool", 257)):
    contract("le", f"{LE}enc_cgarray_{_k}_n{_n}")(enc_fixed(_k, lambda a: fld(a.v, 0), _n))
    contract("le", f"{LE}dec_cgarray_{_k}_n{_n}")(dec_fixed(_k, _n, (0,)))
for _k, _n in (("u64", 1), ("u64", 4), ("u8", 32), ("u8", 33), ("u256", 1), ("bool", 256), ("bool", 257)):
    contract("le", f"{LE}enc_cmaxvec_{_k}_n{_n}")(enc_items(_k, lambda a: fld(a.v, 0, 0), True, lambda g, a, n=_n: n))
    contract("le", f"{LE}dec_cmaxvec_{_k}_n{_n}")(dec_listed(_k, (0, 0), _n))
for _k, _n in (("bool", 257), ("u256", 3), ("u8", 33)):
    contract("le", f"{LE}enc_cvecarray_{_k}_n{_n}")(enc_fixed(_k, lambda a: fld(a.v, 0, 0), _n))
    contract("le", f"{LE}dec_cvecarray_{_k}_n{_n}")(dec_fixed(_k, _n, (0, 0)))
for _k, _n in (("u256", 1), ("u256", 7), ("bool", 257), ("u8", 33), ("u64", 4)):
    contract("le", f"{LE}enc_cref_maxvec_{_k}_n{_n}")(enc_items(_k, lambda a: fld(a.v, 0), True, lambda g, a, n=_n: n))
for _k, _n in (("bool", 257), ("u256", 3)):
    contract("le", f"{LE}enc_cref_garray_{_k}_n{_n}")(enc_fixed(_k, lambda a: a.v, _n))
    contract("le", f"{LE}enc_cref_vecarray_{_k}_n{_n}")(enc_fixed(_k, lambda a: fld(a.v, 0), _n))
