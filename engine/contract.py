"""Registry of contracts, and their comparison with the analysed paths of a root."""
import re
import itertools
import terms as T
from terms import C as K
import interp as IM
import layers
import spec
import ground
from spec import S, ok, err, some, NONE, Verdict

CORRUPTED, OVERFLOW, INVALID, BACKEND = 0, 1, 2, 3


def E(i, *a):
    return err(("agg", i, tuple(a)))


CONTRACTS = {}          # root pattern -> (function, property)


def contract(prop, *names):
    def d(f):
        for n in names:
            CONTRACTS[n] = (f, prop)
        return f
    return d


def fld(v, *path):
    """Project; path elements are field numbers, or (variant, number)."""
    for p in path:
        var, i = p if isinstance(p, tuple) else (0, p)
        if v[0] == "agg":
            v = v[2][i] if v[1] == var else ("app", "bad", v)
        else:
            v = ("fld", v, var, i)
    return v


def key(name):
    for p in ("core_roots::", "le_roots::", "fixtures::", "wire_roots::", "harness::"):
        name = name.split(p)[-1]
    return name


def layer_of(name):
    n = name.split("::")[-1]
    if n.startswith("root_raw"):
        return {}
    if re.match(r"root_(packed\d|list)", n):
        return layers.prim_vector()
    if n.startswith("root_packedlist"):
        return layers.prim_packed()
    if n.startswith(("root_partial__", "root_derive__partial")):
        return layers.prim_partial(n == "root_partial__resolve")
    if "le_roots" in name or "fixtures" in name:
        return layers.prim_le()
    return layers.prim_raw()


class Root:
    """The analysed paths of one harness root."""

    def __init__(self, facts, name, prims=None):
        self.name = name
        self.I = IM.Interp(facts, layer_of(name) if prims is None else prims)
        self.inst = facts.insts[facts.roots[name]]
        self.outs, self.vals = self.I.analyse(self.inst)
        names = {n: nm for n, nm in self.inst.get("names", [])}
        self.args = {}
        for i, v in enumerate(self.vals):
            self.args[names.get(i + 1, f"a{i}")] = v

    def initial(self, v):
        return v[1][1] if v[0] == "ptr" else v

    def final(self, o, v):
        return self.I.reify(o.st, v)


class A:
    """Arguments of a root, by name, at entry."""

    def __init__(self, root):
        for n, v in root.args.items():
            setattr(self, n, root.initial(v))
        self.root = root


FALLIBLE_OUT = "Err"


def err_event(o):
    """The failed outside call that ends this path, if any."""
    for e in reversed(o.st.events):
        if e.kind == "loop":
            continue
        if e.out == FALLIBLE_OUT:
            return e
        return None
    return None


def mentions(t, x):
    return T.contains(t, lambda y: y == x)


class Rec:
    """Outcome of one obligation."""
    __slots__ = ("root", "path", "rule", "kind", "what", "detail")

    def __init__(self, root, path, rule, kind, what="", detail=""):
        self.root, self.path, self.rule, self.kind, self.what, self.detail = root, path, rule, kind, what, detail


STATES = ("vset", "push", "pop")


def state_len(root):
    """-> normaliser replacing 'length field of a handle after element operations' by the
    length those operations leave (their own obligations decide that they do)."""
    lens = []
    for mod in ("owned", "dangling"):
        for f in ((root.views.packed,) if "packedlist" in root.name else (root.views.vec,)):
            try:
                lens.append(f(mod)[1])
            except Exception:
                pass


    def go(t):
        m = {}
        for x in set(T.subterms(t)):
            if isinstance(x, tuple) and len(x) > 2 and x[0] == "app" and x[1] in STATES:
                for f in lens:
                    k, n = x, 0
                    while k[0] == "app" and k[1] in ("vset", "push"):
                        n += k[1] == "push"
                        k = k[2]
                    r = ("app", "len", k) if k[0] == "app" and k[1] == "pop" else f(k)
                    m[f(x)] = T.add(r, K(n))
        return T.subst(t, m) if m else t
    return go


def pathline(o):
    return " & ".join(T.show(c) for c in o.st.path)[:600]


def contract_records(root, fn):
    """-> [Rec] one per (path, case)"""
    I = root.I
    recs = []
    canon = state_len(root) if "list" in root.name else (lambda t: t)

    def norm(I, st, v):
        return canon(I.reify(st, v))
    for pi, o in enumerate(root.outs):
        if o.kind == "ret" and err_event(o) is not None:
            continue                        # the error rule decides these
        if o.st.unk:
            recs.append(Rec(root.name, pi, "contract", "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        res = I.reify(o.st, o.val) if o.kind == "ret" else None
        try:
            cs = spec.cases(I, o.st, lambda s: fn(s, A(root)))
        except IM.Limit as e:
            recs.append(Rec(root.name, pi, "contract", "UNK", "contract case limit", str(e)))
            continue
        for s, want in cs:
            if want is None:
                recs.append(Rec(root.name, pi, "contract", "OPEN"))
                continue
            conds = list(o.st.path) + s.conds
            if o.kind == "panic":
                recs.append(panic_case(root, pi, o, s, conds))
                continue
            pairs = []
            if "result" in want:
                pairs.append(("result", norm(I, s.st, res), norm(I, s.st, want["result"])))
            for n, v in want.get("final", {}).items():
                pairs.append(("final " + n, norm(I, s.st, root.final(o, root.args[n])), norm(I, s.st, v)))
            for n, f, v, arg in want.get("view", []):
                # f reads an observable of the final argument value
                pairs.append(("final " + n, norm(I, s.st, f(root.final(o, root.args[arg]))), norm(I, s.st, v)))
            for n, f, v in want.get("rview", []):
                pairs.append(("result " + n, norm(I, s.st, f(res)), norm(I, s.st, v)))
            prob = None
            if "events" in want:
                prob, more = match_events(I, s.st, o, want["events"], want.get("maybe", ()), norm)
                pairs += more
            if prob is None and "check" in want:
                prob = want["check"](o, s, res)
            if prob is not None:
                recs.append(problem(root, pi, o, s, conds, prob))
                continue
            if "at" in want:
                recs.append(at_values(root, pi, o, s, conds, want["at"], res, pairs, want.get("pool", ())))
                continue
            v = spec.differ(I, s.st, conds, pairs)
            detail = ""
            if v.kind == "NE":
                nm, a, b = next(p for p in pairs if p[0] == v.what)
                detail = f"code: {T.show(a)[:700]}\n  required: {T.show(b)[:700]}\n  path: {pathline(o)}\n  case: {' & '.join(T.show(c) for c in s.conds)[:300]}\n  at: {spec.wit_text(v.wit)}"
            recs.append(Rec(root.name, pi, "contract", v.kind, v.what, detail))
    return recs


# contracts that state what a recursive call must be given and read its result by induction:
# entry point -> the function that may recurse.  A path that recurses through any other
# function is not decided by comparison with a contract that knows nothing of the call.
RECURSIVE = {"compact__fold": "fold", "compact__len": "len", "compact__root": "fold", "index__has_descendant": "has_descendant",
             "memory__unrootify": "remove", "memory__remove": "remove", "proofs__from_compact": "fold",
             "proofs__into_compact": "into_compact", "le__enc_compact_value": "into_tree", "partial__resolve": "resolve",
             "construct__inherited_empty": "*"}


def by_induction(root, o):
    """The function a path recurses through when the contract does not cover it, else None."""
    own = next((f for k, f in RECURSIVE.items() if root.name.endswith("root_" + k)), None)
    if own == "*":
        return None
    for e in IM.all_events(o.st.events):
        if e.kind.startswith("rec:") and (own is None or e.kind.rsplit("::", 1)[-1] != own):
            return e.kind[4:]
    return None


def run_contract(root, fn):
    recs = contract_records(root, fn)
    for r in recs:
        if r.kind == "NE":
            f = by_induction(root, root.outs[r.path])
            if f is not None:
                r.kind, r.what = "UNK", "recursion through " + f
    return recs


READS = {"get", "raw.get", "vector.get", "packed.get", "insert", "empty_at", "loop", "vector_tree"}


def loop_events(e):
    """Events inside a summarised loop."""
    return [x for sg in e.extra.segs for x in IM.all_events(sg["events"]) if x.kind != "loop"]


def match_events(I, st, o, want, maybe, norm):
    """The calls a path makes that change outside state, against the required ones."""
    have = []
    for e in o.st.events:
        if e.kind == "loop":
            if any(x.kind not in READS and x.kind not in maybe for x in loop_events(e)):
                return ("?", "outside calls inside a loop"), []
        elif e.kind not in READS and e.kind not in maybe:
            have.append(e)
    hk, wk = sorted(e.kind for e in have), sorted(k for k, _ in want)
    if hk != wk:
        return (f"calls {hk} where {wk} is required", ""), []
    pairs = []
    for kind in dict.fromkeys(wk):
        hs = [tuple(norm(I, st, x) for x in e.args) for e in have if e.kind == kind]
        ws = [tuple(norm(I, st, x) for x in a) for k, a in want if k == kind]
        if len(ws) <= 4:
            best = max(itertools.permutations(ws), key=lambda q: sum(x == y for x, y in zip(hs, q)))
            ws = list(best)
        for n, (h, w) in enumerate(zip(hs, ws)):
            if len(h) != len(w):
                return ("?", "arity of " + kind), []
            pairs += [(f"argument {j} of {kind} call {n}", x, y) for j, (x, y) in enumerate(zip(h, w))]
    return None, pairs


class G:
    """What a path does at one valuation."""

    def __init__(self, root, o, s, val, res):
        self.root, self.o, self.s, self.val, self.rest = root, o, s, val, res

    def g(self, t):
        return self.val.g(self.root.I.reify(self.s.st, t))

    def int(self, t):
        return self.val.int(self.root.I.reify(self.s.st, t))

    def res(self):
        return self.val.g(self.rest)

    def final(self, n):
        return self.g(self.root.final(self.o, self.root.args[n]))

    def calls(self):
        return self.val.calls(self.o.st.events)

    def same(self, what, have, want):
        """None when equal, else the difference"""
        r = ground.compare(have, want, self.val)
        if r == ground.EQ:
            return None
        if r == ground.UNK:
            raise ground.Unknown(what + " not comparable")
        return f"{what} is {spec.show_g(have)[:400]} where {spec.show_g(want)[:400]} is required"


AT = 40


def at_values(root, pi, o, s, conds, fn, res, pairs, pool=()):
    """Pointwise obligation over the valuations of a path."""
    I = root.I
    b = spec.blocked(I, s.st, conds)
    if b is not None:
        return Rec(root.name, pi, "contract", "UNK", "path condition not readable: " + T.show(b)[:160])
    n = 0
    unk = None
    skipped = False
    for v in spec.valuations(I, s.st, conds, AT * 3 if pool else AT, pool=ground.POOL + list(pool)):
        n += 1
        try:
            for nm, x, y in pairs:
                if ground.compare(v.g(x), v.g(y), v) == ground.NE:
                    return Rec(root.name, pi, "contract", "NE", nm, f"code: {T.show(x)[:500]}\n  required: {T.show(y)[:500]}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
            p = fn(G(root, o, s, v, res))
        except spec.Skip:
            skipped = True
            continue
        except ground.Unknown as e:
            unk = str(e)
            continue
        if p is not None:
            return Rec(root.name, pi, "contract", "NE", p[:300], f"{p}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
    for v in spec.beyond(I, s.st, conds, [o.val] if isinstance(o.val, tuple) else []):
        try:
            for nm, x, y in pairs:
                if ground.compare(v.g(x), v.g(y), v) == ground.NE:
                    return Rec(root.name, pi, "contract", "NE", nm, f"code: {T.show(x)[:500]}\n  required: {T.show(y)[:500]}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
            p = fn(G(root, o, s, v, res))
        except (spec.Skip, ground.Unknown):
            continue
        if p is not None:
            return Rec(root.name, pi, "contract", "NE", p[:300], f"{p}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
    if not n:
        return Rec(root.name, pi, "contract", "RANGE", "no valuation tried satisfies the path")
    if unk:
        return Rec(root.name, pi, "contract", "UNK", unk)
    return Rec(root.name, pi, "contract", "SAMP", f"{n} valuations" + (", some outside the contract" if skipped else ""))


def problem(root, pi, o, s, conds, prob):
    """A structural difference: reported when the path can be taken at small values."""
    I = root.I
    what, det = prob
    if what == "?":
        return Rec(root.name, pi, "contract", "UNK", det)
    b = spec.blocked(I, s.st, conds)
    if b is not None:
        return Rec(root.name, pi, "contract", "UNK", what, "condition not readable: " + T.show(b)[:200])
    for v in itertools.chain(spec.valuations(I, s.st, conds, 1), spec.beyond(I, s.st, conds, [])):
        return Rec(root.name, pi, "contract", "NE", what,
                   f"{det}\n  path: {pathline(o)}\n  case: {' & '.join(T.show(c) for c in s.conds)[:300]}\n  at: {spec.wit_text(v)}")
    return Rec(root.name, pi, "contract", "UNK", what, "no valuation satisfies the path")


def panic_case(root, pi, o, s, conds):
    """The contract promises a result here; is the panic reachable at small values?"""
    I = root.I
    why = str(o.val[0]) if isinstance(o.val, tuple) else str(o.val)
    b = spec.blocked(I, s.st, conds)
    if b is not None:
        return Rec(root.name, pi, "panic", "UNK", why, T.show(b)[:200])
    v = spec.taken(I, s.st, conds)
    if v is not None:
        return Rec(root.name, pi, "panic", "NE", "panics: " + why,
                   f"path: {pathline(o)}\n  case: {' & '.join(T.show(c) for c in s.conds)[:300]}\n  at: {spec.wit_text(v)}\n  site: {o.val[2:] if isinstance(o.val, tuple) else ''}")
    return Rec(root.name, pi, "panic", "RANGE", why)
