"""Rules over the analysed paths of a root: one function per rule, each returning [Rec]."""
import contract
import interp as IM
import spec
import ground
import terms as T
from contract import Rec, pathline, BACKEND


def reach(root, o, extra=()):
    """A valuation at which path o is taken, None if none was found, False if unreadable."""
    I = root.I
    conds = list(o.st.path) + list(extra)
    if spec.blocked(I, o.st, conds) is not None:
        return False
    return spec.taken(I, o.st, conds)


def before(root, o):
    """The conditions of a path without those that speak of what a loop left behind"""
    conds = list(o.st.path)
    while True:
        b = spec.blocked(root.I, o.st, conds)
        if b is None:
            return conds
        conds = [c for c in conds if c is not b]


def found(root, pi, o, rule, what, detail, inloop=False):
    """A difference seen on the shape of the path: reported when the path can be taken.

    Inside a loop the site itself is feasible; what the loop leaves behind does not matter to it."""
    if inloop:
        v = spec.taken(root.I, o.st, before(root, o), False)
    else:
        v = reach(root, o)
        if v is None and any(e.kind == "loop" for e in o.st.events):
            # a loop left by a failing call: the call itself is feasible, the way it was left is not replayed
            cs = [c for c in before(root, o) if not T.contains(c, lambda t: t[0] == "phi")]
            v = spec.taken(root.I, o.st, cs, False)
    if not v and v is not None:
        return Rec(root.name, pi, rule, "UNK", what, "path condition not readable")
    if v is None:
        return Rec(root.name, pi, rule, "UNK", what, "no valuation satisfies the path")
    return Rec(root.name, pi, rule, "NE", what, f"{detail}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")


# ---------------------------------------------------------------- failures propagate
DBCALLS = ("get", "insert", "rootify", "unrootify", "empty_at", "make_fn_db")


def wraps(root, e):
    """How a failed call must show in the result"""
    n = root.name.split("::")[-1]
    if e.kind in ("get", "insert", "rootify", "unrootify", "empty_at"):
        if n.startswith("root_dyn"):
            return "unit"
        if n.startswith(("root_proving", "root_construct")):
            return "same"
        return "backend"
    return "same"


def is_rec(e):
    return e.kind.startswith("rec:")


def errors(root):
    recs = []
    I = root.I
    for pi, o in enumerate(root.outs):
        evs = o.st.events
        bad = [(n, e) for n, e in enumerate(evs) if e.kind != "loop" and e.out == "Err"]
        for e in evs:
            if e.kind != "loop":
                continue
            for sg in e.extra.segs:
                for x in IM.all_events(sg["events"]):
                    if x.kind != "loop" and x.out == "Err":
                        recs.append(found(root, pi, o, "errors", f"failed {x.kind} ignored inside a loop",
                                          f"the loop goes on after {x.kind} failed (call at {x.loc})", True))
        if not bad:
            continue
        if o.st.unk:
            recs.append(Rec(root.name, pi, "errors", "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        n, e = bad[0]
        site = f"call at {e.loc}"
        rest = [x for x in evs[n + 1:] if x.kind != "loop"]
        if o.kind != "ret":
            if root.name.split("::")[-1].startswith("root_treeroot"):
                continue                    # tree_root runs on the no-op backend only
            recs.append(found(root, pi, o, "errors", f"panics when {e.kind} fails", site))
            continue
        r = I.reify(o.st, o.val)
        if is_rec(e):
            good = rec_failed(r, e)
        elif r[0] == "agg" and r[1] == 1 and len(r[2]) == 1:
            w = {"backend": ("agg", BACKEND, (e.res,)), "unit": ("agg", 0, ()), "same": e.res}[wraps(root, e)]
            good = r[2][0] == w
        else:
            good = False
        if not good:
            recs.append(found(root, pi, o, "errors", f"failed {e.kind} not reported",
                              f"{site}; the operation then gives {T.show(r)[:300]}"))
        elif rest:
            w = [x for x in rest if x.kind in ("insert", "rootify", "unrootify") or x.kind.endswith((".set", ".push", ".pop"))]
            if w:
                recs.append(found(root, pi, o, "errors", f"goes on to call {w[0].kind} after {e.kind} failed", site))
            else:
                recs.append(Rec(root.name, pi, "errors", "EQ"))
        else:
            recs.append(Rec(root.name, pi, "errors", "EQ"))
    return recs


def rec_failed(r, e):
    """The result is the failed outcome of the recursive call, or carries its error"""
    if e.res[0] == "fld" and r == e.res[1]:
        return True
    return r[0] == "agg" and r[1] == 1 and T.contains(r, lambda t: t == e.res)


# ---------------------------------------------------------------- content addressing
def content(root):
    """Every node is stored under the combination of the two children stored with it."""
    recs = []
    I = root.I
    if root.name.split("::")[-1].startswith(("root_dyn", "root_proving", "root_memory", "root_noop")):
        return recs                         # there the key is the caller's
    for pi, o in enumerate(root.outs):
        flat, inloop = [], False
        for e in o.st.events:
            if e.kind == "loop":
                inloop |= any(x.kind == "insert" for x in contract.loop_events(e))
            elif e.kind == "insert":
                flat.append(e)
        if not flat and not inloop:
            continue
        if o.st.unk:
            recs.append(Rec(root.name, pi, "content", "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        if not inloop and all(direct(e) for e in flat):
            recs.append(Rec(root.name, pi, "content", "EQ"))
            continue
        syn = all(direct(x) for e in o.st.events for x in ([e] if e.kind == "insert" else contract.loop_events(e) if e.kind == "loop" else []) if x.kind == "insert")
        if syn:
            recs.append(Rec(root.name, pi, "content", "EQ"))
            continue
        conds = list(o.st.path)
        if spec.blocked(I, o.st, conds) is not None:
            recs.append(Rec(root.name, pi, "content", "UNK", "path condition not readable"))
            continue
        n, unk, hit = 0, None, None
        for v in spec.valuations(I, o.st, conds, 20):
            n += 1
            try:
                for k, c, out, ev in v.calls(o.st.events):
                    if k != "insert":
                        continue
                    key, val = c[0], c[1]
                    if val[0] != "agg" or len(val[2]) != 2:
                        raise ground.Unknown("stored children")
                    l, r = val[2]
                    for w in keyforms(l, r):
                        q = ground.compare(key, w, v)
                        if q != ground.NE:
                            break
                    if q == ground.NE:
                        hit = Rec(root.name, pi, "content", "NE", "node stored under a key that is not the combination of its children",
                                  f"key {spec.show_g(key)[:300]}\n  children {spec.show_g(val)[:300]}\n  call at {ev.loc}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
                        break
                    if q == ground.UNK:
                        unk = "key not comparable"
            except ground.Unknown as e:
                unk = str(e)
            if hit:
                break
        recs.append(hit or Rec(root.name, pi, "content", "UNK" if unk or not n else "SAMP", unk or ("" if n else "no valuation"), f"{n} valuations"))
    return recs


def keyforms(l, r):
    yield ("H", l, r)


def direct(e):
    k, v = e.args[0], e.args[1]
    if v[0] != "agg" or len(v[2]) != 2:
        return False
    l, r = v[2]
    return k == ("app", "H", l, r) or k == hashform(l, r)


def hashform(l, r):
    z = lambda x: ("sl", ("bytes", x), ("c", 0), ("c", 32))
    return ("app", "frombytes", ("app", "hash", ("seq", (z(l), z(r)))))



# ---------------------------------------------------------------- effects
WRITES = ("insert", "rootify", "unrootify", "empty_at", "into_tree", "vector_tree", "mut_fn", "make_fn_db", "flush",
          "raw.set", "vector.set", "vector.push", "vector.pop", "packed.set", "packed.push", "packed.pop")
READS = ("get", "raw.get", "vector.get", "packed.get", "from_tree", "ref_fn", "recon_fn")
MARKS = ("rootify", "unrootify")


def is_write(e):
    return e.kind in WRITES or e.kind == "seq.drop"


def sites(o, kinds):
    return [e for e in IM.all_events(o.st.events) if e.kind in kinds]


def effect(rule, bad, text):
    """No path of the entry point, failing ones included, may perform a call of these kinds"""
    def f(root):
        recs = []
        for pi, o in enumerate(root.outs):
            hit = sites(o, bad)
            if hit:
                e = hit[0]
                recs.append(found(root, pi, o, rule, f"{text}: calls {e.kind}", f"call at {e.loc} with {', '.join(T.show(a)[:120] for a in e.args)}"))
            elif o.st.unk:
                recs.append(Rec(root.name, pi, rule, "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            else:
                recs.append(Rec(root.name, pi, rule, "EQ"))
        return recs
    return f


reads_only = effect("reads", WRITES, "a reading operation writes")
writes_only = effect("encodes", READS + MARKS + ("raw.set", "vector.set", "vector.push", "vector.pop", "packed.set", "packed.push", "packed.pop"),
                     "merkleization reads or marks")


def total(root):
    """Merkleization fails only where a call it makes fails"""
    recs = []
    for pi, o in enumerate(root.outs):
        if o.kind != "ret":
            continue
        r = root.I.reify(o.st, o.val)
        if contract.err_event(o) is not None or any(e.kind.startswith("rec:") for e in o.st.events):
            continue
        if r[0] == "agg" and r[1] == 1 and len(r[2]) == 1 and root.name.split("::")[-1] not in ():
            recs.append(found(root, pi, o, "total", "fails although no call failed", T.show(r)[:300]))
        else:
            recs.append(Rec(root.name, pi, "total", "EQ"))
    return recs


# ---------------------------------------------------------------- refused operations
REFUSED = {contract.OVERFLOW: "access-overflow", contract.INVALID: "invalid-parameter"}
CODES = {**REFUSED, contract.CORRUPTED: "corrupted-database"}


def receivers(root):
    return [a for a in root.args.values() if a[0] == "ptr" and root.initial(a) is not None and root.initial(a) != ("sym", "db")]


def unchanged(root, o, a):
    """Is the handle as it was? True, False, or None when it cannot be told"""
    I = root.I
    x, y = root.initial(a), root.final(o, a)
    if x == y:
        return True
    conds = list(o.st.path)
    if spec.blocked(I, o.st, conds) is not None:
        return None
    v = spec.differ(I, o.st, conds, [("handle", y, x)])
    return {"EQ": True, "SAMP": True, "NE": False}.get(v.kind)


def refused(root):
    """A path that refuses the arguments leaves handles as they were and wrote nothing"""
    recs = []
    I = root.I
    single = root.name.split("::")[-1] in ("root_raw__set",)
    for pi, o in enumerate(root.outs):
        if o.kind != "ret":
            continue
        r = I.reify(o.st, o.val)
        failed = contract.err_event(o)
        ref = r[0] == "agg" and r[1] == 1 and len(r[2]) == 1 and r[2][0][0] == "agg" and r[2][0][1] in REFUSED and failed is None
        if not ref and not (single and failed is not None):
            continue
        if o.st.unk:
            recs.append(Rec(root.name, pi, "refused", "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        if ref:
            w = [e for e in IM.all_events(o.st.events) if is_write(e)]
            if w:
                recs.append(found(root, pi, o, "refused", f"calls {w[0].kind} before refusing the arguments", f"call at {w[0].loc}"))
                continue
        bad = unk = None
        for a in receivers(root):
            u = unchanged(root, o, a)
            if u is False:
                bad = a
            elif u is None:
                unk = a
        if bad is not None:
            recs.append(found(root, pi, o, "refused", "the handle changes although the operation " + ("is refused" if ref else "fails"),
                              f"before: {T.show(root.initial(bad))[:300]}\n  after: {T.show(root.final(o, bad))[:300]}"))
        else:
            recs.append(Rec(root.name, pi, "refused", "UNK" if unk is not None else "EQ", "handle not comparable" if unk is not None else ""))
    return recs



# ---------------------------------------------------------------- bounds
def verdict(r, op, codes=REFUSED):
    """What a returned value says: ("refused", code), ("nothing",) or ("accepted",)"""
    if r[0] != "agg":
        return None
    if r[1] == 1 and len(r[2]) == 1 and r[2][0][0] == "agg" and r[2][0][1] in codes:
        return ("refused", codes[r[2][0][1]])
    if r[1] == 1:
        return ("fails",)
    if op == "pop" and len(r[2]) == 1 and r[2][0] == spec.NONE:
        return ("nothing",)
    return ("accepted",)


def rejects(root):
    """The databases a decoder refuses as corrupted, against those its contract refuses"""
    return bounds(root, CODES, "rejects")


def bounds(root, codes=REFUSED, rule="bounds"):
    """The arguments a path accepts or refuses, against those the contract accepts or refuses"""
    recs = []
    I = root.I
    fn = contract.CONTRACTS[contract.key(root.name)][0]
    op = root.name.split("__")[-1]
    for pi, o in enumerate(root.outs):
        if o.kind == "ret" and contract.err_event(o) is not None:
            continue
        if o.st.unk:
            recs.append(Rec(root.name, pi, rule, "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        try:
            cs = spec.cases(I, o.st, lambda s: fn(s, contract.A(root)))
        except IM.Limit as e:
            recs.append(Rec(root.name, pi, rule, "UNK", "contract case limit", str(e)))
            continue
        have = verdict(I.reify(o.st, o.val), op, codes) if o.kind == "ret" else ("panics",)
        calls = [e for e in IM.all_events(o.st.events) if e.kind != "loop"]
        for s, want in cs:
            if want is None:
                recs.append(Rec(root.name, pi, rule, "OPEN"))
                continue
            w = verdict(I.reify(s.st, want["result"]), op, codes) if "result" in want else ("accepted",)
            if have is None or w is None:
                recs.append(Rec(root.name, pi, rule, "UNK", "outcome not readable"))
                continue
            if w[0] == "fails" or have[0] == "fails":
                recs.append(Rec(root.name, pi, rule, "OPEN"))
                continue
            conds = list(o.st.path) + s.conds
            bad = None
            if w != have:
                bad = f"{' as '.join(have)} where {' as '.join(w)} is required"
            elif rule == "bounds" and have[0] == "refused" and calls:
                bad = f"calls {calls[0].kind} although the arguments are refused"
            if bad is None:
                recs.append(Rec(root.name, pi, rule, "EQ"))
                continue
            if spec.blocked(I, s.st, conds) is not None:
                recs.append(Rec(root.name, pi, rule, "UNK", "path condition not readable"))
                continue
            v = next(iter(spec.valuations(I, s.st, conds, 1)), None)
            if v is None:
                recs.append(Rec(root.name, pi, rule, "RANGE", "no valuation tried satisfies the path"))
            else:
                recs.append(Rec(root.name, pi, rule, "NE", bad, f"path: {pathline(o)}\n  case: {' & '.join(T.show(c) for c in s.conds)[:300]}\n  at: {spec.wit_text(v)}"))
    return recs


# ---------------------------------------------------------------- marks
def handle_root(root, group):
    """Reader of the root of a handle of this kind, in the code's own representation"""
    mod = "owned" if "owned::" in root.name else "dangling"
    V = root.views
    if group == "raw":
        return V.raw(mod)
    if group == "vector":
        return V.vec(mod)[0]
    if group.startswith("packed") and group != "packedlist":
        return V.packed(mod)[0]
    if group == "mixed":
        return V.mixed(mod)[0]
    return V.lst(mod, group)[0]


def marks(root):
    """Owned handles: the marks a path adds and removes come to its final root for its initial
    one, added before removed; dangling handles: none at all."""
    recs = []
    I = root.I
    short = root.name.split("::")[-1]
    group, op = short[5:].split("__")
    owned = "owned::" in root.name or op == "create"
    for pi, o in enumerate(root.outs):
        if o.kind != "ret" or contract.err_event(o) is not None:
            continue
        evs = [e for e in IM.all_events(o.st.events) if e.kind != "loop"]
        direct = [e for e in evs if e.kind in MARKS]
        moving = [e for e in evs if e.extra is True and (e.kind == "raw.set" or e.kind.split(".")[-1] in ("set", "push", "pop"))]
        ends = op in ("drop",)
        if not owned:
            if direct or moving:
                e = (direct + moving)[0]
                recs.append(found(root, pi, o, "marks", f"a dangling handle {'marks or unmarks' if direct else 'moves the mark of'} a root: {e.kind}", f"call at {e.loc}"))
            else:
                recs.append(Rec(root.name, pi, "marks", "EQ"))
            continue
        if o.st.unk:
            recs.append(Rec(root.name, pi, "marks", "UNK", "path leaves the analysed fragment", str(o.st.unk)[:200]))
            continue
        kinds = [e.kind for e in evs if e in direct or e in moving]
        if not ends and kinds and kinds[0] == "unrootify":
            recs.append(found(root, pi, o, "marks", "removes a mark before the new root is marked", f"call at {direct[0].loc}"))
            continue
        try:
            rd = handle_root(root, group)
        except Exception as e:
            recs.append(Rec(root.name, pi, "marks", "UNK", "handle root not readable: " + str(e)[:100]))
            continue
        recs.append(balance(root, pi, o, rd, op))
    return recs


MUTATORS = ("set", "push", "pop", "with_mut")


def balance(root, pi, o, rd, op):
    I = root.I
    conds = list(o.st.path)
    s = root.args.get("s")
    init = fin = None
    if s is not None and op in MUTATORS:
        init, fin = rd(root.initial(s)), rd(root.final(o, s))
    elif s is not None and op == "drop":
        init = rd(root.initial(s) if s[0] == "ptr" else s)
    elif op == "create":
        r = I.reify(o.st, o.val)
        if r[0] != "agg" or r[1] != 0:
            return Rec(root.name, pi, "marks", "EQ")
        fin = rd(r[2][0])
    if spec.blocked(I, o.st, conds) is not None:
        return Rec(root.name, pi, "marks", "UNK", "path condition not readable")
    vec = None
    n, unk = 0, None
    for v in spec.valuations(I, o.st, conds, 12):
        n += 1
        try:
            plus, minus = [], []
            for k, c, out, e in v.calls(o.st.events):
                if k == "rootify":
                    plus.append(c[0])
                elif k == "unrootify":
                    minus.append(c[0])
                elif e.extra is True and k == "raw.set":
                    i = c[1][1] if c[1][0] == "i" else v.leaf(c[1])
                    minus.append(c[0])
                    plus.append(ground.tset(c[0], i, c[2]))
                elif e.extra is True and k in ("vector.set", "vector.push", "vector.pop"):
                    vec = vec or root.views.vec("owned")[0]
                    new = {"set": "vset", "push": "push", "pop": "pop"}[k.split(".")[1]]
                    minus.append(vec(c[0]))
                    plus.append(vec(("app", new) + c))
                elif e.extra is True and k == "seq.drop":
                    minus.append(("seqroot", c[0]))
            # what is required, on the other side
            if fin is not None:
                minus.append(v.g(fin))
            if init is not None:
                plus.append(v.g(init))
            zero = v.g(("app", "default:AnyValue"))
            for x in list(plus):
                y = next((y for y in minus if ground.compare(x, y, v) == ground.EQ), None)
                if y is not None:
                    plus.remove(x)
                    minus.remove(y)
            minus = [y for y in minus if op != "create" or ground.compare(y, zero, v) != ground.EQ]
            if plus or minus:
                got = "; ".join(["marks left on " + spec.show_g(x)[:200] for x in plus] + ["marks missing from or removed twice from " + spec.show_g(x)[:200] for x in minus])
                return Rec(root.name, pi, "marks", "NE", "root marks do not follow the handle", f"{got}\n  path: {pathline(o)}\n  at: {spec.wit_text(v)}")
        except ground.Unknown as e:
            unk = str(e)
    if not n:
        return Rec(root.name, pi, "marks", "RANGE", "no valuation tried satisfies the path")
    return Rec(root.name, pi, "marks", "UNK" if unk else "SAMP", unk or f"{n} valuations")


RULES = {"errors": errors, "content": content, "reads": reads_only, "encodes": writes_only, "total": total,
         "refused": refused, "marks": marks, "bounds": bounds, "rejects": rejects}
