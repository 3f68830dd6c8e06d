"""Contracts of partial indices and partial values."""
import terms as T
import ground
from terms import C as K
from contract import contract, fld, E, CORRUPTED, OVERFLOW
from contracts_le import tree, untree, node, int_at, MAX
from layers import isub, raw_field
from spec import ok, err, some, NONE, Skip

UNIT = T.UNIT
OKU = ok(UNIT)
P = "root_partial__"


def last(t):
    return t["path"].split("::")[-1] if t["k"] == "adt" else t.get("s")


def steps(a, name, *kinds):
    """field numbers of struct `name` holding types named `kinds`"""
    ts = a.root.I.F.types
    for t in ts:
        if t["k"] == "adt" and t["path"].split("::")[-1] == name and t.get("variants"):
            fs = t["variants"][0]["fields"]
            out = []
            for k in kinds:
                hit = [i for i, (_, ti) in enumerate(fs) if last(ts[ti]) in k]
                if len(hit) != 1:
                    raise KeyError(f"field {k} of {name}")
                out.append(hit[0])
            return out, len(fs)
    raise KeyError(name)


def make(a, name, kinds, vals):
    pos, n = steps(a, name, *kinds)
    r = [None] * n
    for p, v in zip(pos, vals):
        r[p] = v
    return ("agg", 0, tuple(r))


INDEX = (("Option",), ("PartialSubIndex",))
VALUE = (("PartialIndex",), ("Option",))
VEC = (("PartialIndex",), ("HashMap", "BTreeMap"), ("Vec",))
RAW, LIST, VECTOR = 0, 1, 2


def index(a, parent, sub):
    return make(a, "PartialIndex", INDEX, (parent, sub))


def get(a, v, name, kinds):
    pos, _ = steps(a, name, *kinds)
    return [fld(v, p) for p in pos]


@contract("partial", P + "root")
def p_root(S, a):
    return dict(result=index(a, NONE, ("agg", RAW, (("agg", 0, (K(1),)),))))


@contract("partial", P + "raw")
def p_raw(S, a):
    return dict(result=index(a, some(a.p), ("agg", RAW, (a.i,))), final={"p": a.p})


@contract("partial", P + "vector")
def p_vector(S, a):
    return dict(result=index(a, some(a.p), ("agg", VECTOR, (a.i, a.l))))


@contract("partial", P + "list")
def p_list(S, a):
    return dict(result=index(a, some(a.p), ("agg", LIST, (a.i,))))


def rawroot(a, v):
    f = raw_field(a.root.I)
    return fld(v, f[2])


@contract("partial", P + "resolve")
def p_resolve(S, a):
    par, sub = get(a, a.p, "PartialIndex", INDEX)
    q = S.option(par)
    base = K(1)
    if q is not None:
        e = next((e for e in S.st.events if e.kind.startswith("rec:") and q in e.args), None)
        if e is None:
            return dict(check=lambda o, s, res: ("the parent index is not resolved", "no recursive call on the parent"))
        base = fld(e.res, 0)
    r = rawroot(a, a.raw)
    k = S.variant(sub, 3, (1, 1, 2))
    if k == RAW:
        return dict(result=ok(("agg", 0, (isub(base, fld(sub, 0, 0)),))))
    if k == VECTOR:
        i, n = fld(sub, (2, 0)), fld(sub, (2, 1))
    else:
        l = S.get(r, T.add(T.scale(base, 2), K(1)))
        if l is None:
            return dict(result=E(CORRUPTED))
        i, n = fld(sub, (1, 0)), int_at(l, 32)
        if S.test(T.lt(MAX, n)):
            return dict(result=E(CORRUPTED))
        base = T.scale(base, 2)
    if not S.test(T.lt(i, n)):
        return dict(result=E(OVERFLOW))
    if S.test(T.lt(K(1 << 62), n)):
        raise Skip()            # no index of a machine word reaches that far
    return dict(result=ok(("agg", 0, (isub(base, T.add(T.pow2(("clog2", n)), i)),))))


@contract("partial", P + "value_new")
def value_new(S, a):
    return dict(result=make(a, "PartialValue", VALUE, (a.i, NONE)))


@contract("partial", P + "value_set")
def value_set(S, a):
    i, _ = get(a, a.p, "PartialValue", VALUE)
    return dict(result=UNIT, final={"p": make(a, "PartialValue", VALUE, (i, some(a.v)))})


def resolved(a, i, r):
    return ("app", "resolved", i, r)


def fetched(S, a):
    """the value at the index's position, or None when the backend does not hold it"""
    i, _ = get(a, a.p, "PartialValue", VALUE)
    r = rawroot(a, a.raw)
    x = S.get(r, resolved(a, i, r))
    return None if x is None else untree("L0", x)


@contract("partial", P + "value_fetch")
def value_fetch(S, a):
    i, _ = get(a, a.p, "PartialValue", VALUE)
    v = fetched(S, a)
    if v is None:
        return dict(result=E(CORRUPTED))
    return dict(result=OKU, final={"p": make(a, "PartialValue", VALUE, (i, some(v)))})


@contract("partial", P + "value_get")
def value_get(S, a):
    i, have = get(a, a.p, "PartialValue", VALUE)
    v = S.option(have)
    if v is not None:
        return dict(result=ok(v), final={"p": a.p})
    v = fetched(S, a)
    if v is None:
        return dict(result=E(CORRUPTED))
    return dict(result=ok(v), final={"p": make(a, "PartialValue", VALUE, (i, some(v)))})


def setroot(a, raw, r):
    f = raw_field(a.root.I)
    es = [fld(raw, k) for k in range(f[3])]
    es[f[2]] = r
    return ("agg", 0, tuple(es))


def put(r, i, v):
    return v if i == K(1) else ("app", "set", r, i, v)


@contract("partial", P + "value_flush")
def value_flush(S, a):
    i, have = get(a, a.p, "PartialValue", VALUE)
    v = S.option(have)
    if v is None:
        return dict(result=OKU, final={"raw": a.raw}, events=[])
    r = rawroot(a, a.raw)
    at = resolved(a, i, r)
    t = tree("L0", v)
    return dict(result=OKU, final={"raw": setroot(a, a.raw, put(r, at, t)), "p": make(a, "PartialValue", VALUE, (i, NONE))},
                events=[("raw.set", (r, at, t))],
                maybe=("into_tree", "resolve"))


@contract("partial", P + "vec_new")
def vec_new(S, a):
    return dict(result=make(a, "PartialVec", VEC, (a.i, ("app", "emptymap"), ("seq", ()))))


@contract("partial", P + "vec_push")
def vec_push(S, a):
    i, m, ps = get(a, a.p, "PartialVec", VEC)
    n = ("len", ps)
    new = ("seq", (("sl", ps, K(0), n), ("e", a.v)))
    return dict(result=UNIT, final={"p": make(a, "PartialVec", VEC, (i, m, new))})


@contract("partial", P + "vec_at")
def vec_at(S, a):
    i, m, ps = get(a, a.p, "PartialVec", VEC)
    if S.test(("has", m, a.i)):
        return dict(result=("mapget", m, a.i), final={"p": a.p})
    it = ("app", "item_new", index(a, some(i), ("agg", LIST, (a.i,))))
    return dict(result=it, final={"p": make(a, "PartialVec", VEC, (i, ("map", m, ((a.i, it),)), ps))})


def chain(g, calls, raw, want):
    """Every item of `want` is flushed exactly once, each into the tree the one before left; -> (problem, tree)"""
    left = list(want)
    for k, c, out, e in calls:
        x = next((x for x in left if x == c[0]), None)
        if x is None:
            return f"flushes {ground_show(c[0])} more than once or unasked", None
        left.remove(x)
        if c[1] != raw:
            return "an item is flushed into another tree than the one before it left", None
        raw = ("app", "flushed", c[0], raw)
    if left:
        return f"does not flush {ground_show(left[0])}", None
    return None, raw


def ground_show(x):
    import spec
    return spec.show_g(x)[:200]


@contract("partial", P + "vec_flush")
def vec_flush(S, a):
    i, m, ps = get(a, a.p, "PartialVec", VEC)
    es = ("app", "entries", m)

    def at(g):
        n = g.int(("len", es))
        k = g.int(("len", ps))
        if n > 12 or k > 12:
            raise Skip()
        calls = g.calls()
        fl = [c for c in calls if c[0] == "flush"]
        prob, raw = chain(g, fl, g.g(a.raw), [g.g(fld(("at", es, K(j)), 1)) for j in range(n)])
        if prob:
            return prob
        done = make(a, "PartialVec", VEC, (g.g(i), ("app", "emptymap"), g.g(("seq", ()))))
        sets = [c for c in calls if c[0] == "raw.set"]
        if k == 0:
            return g.same("tree after", g.final("raw"), raw) or g.same("result", g.res(), OKU) or g.same("pending changes after", g.final("p"), done)
        f = raw_field(a.root.I)
        r = raw[2][f[2]] if raw[0] == "agg" else ("fld", raw, 0, f[2])
        x = ("app", "resolved", g.g(i), r)
        at_ = next((c[1][1] for c in sets if True), None)
        res = g.res()
        if res[1] == 1:
            # only a missing node is an error of its own
            if any(c[0] == "raw.get" and c[2] == "None" for c in calls):
                return g.same("result", res, E(CORRUPTED))
            return "fails although every call succeeded"
        pos = ("i", g.val.leaf(x))
        st = ("app", "list", ground.tget(r, pos[1]), ("agg", 0, ()))
        for j in range(k):
            st = ("app", "push", st, g.g(tree("LP", ("at", ps, K(j)))))
        want = ground.tset(r, pos[1], ("app", "lroot", st))
        fin = g.final("raw")
        have = fin[2][f[2]] if fin[0] == "agg" else ("fld", fin, 0, f[2])
        return g.same("result", res, OKU) or g.same("tree after", have, want) or g.same("pending changes after", g.final("p"), done)
    return dict(at=at)


def derived(n, suffix=""):
    @contract("partial", "root_derive__partial_new" + suffix)
    def derive_new(S, a):
        return dict(result=("agg", 0, tuple(("app", "item_new", index(a, some(a.i), ("agg", VECTOR, (K(k), K(n))))) for k in range(n))))

    @contract("partial", "root_derive__partial_flush" + suffix)
    def derive_flush(S, a):
        def at(g):
            fl = [c for c in g.calls() if c[0] == "flush"]
            prob, raw = chain(g, fl, g.g(a.raw), [g.g(fld(a.p, k)) for k in range(n)])
            return prob or g.same("tree after", g.final("raw"), raw) or g.same("result", g.res(), OKU)
        return dict(at=at)


derived(3)
derived(1, "1")
derived(9, "9")
