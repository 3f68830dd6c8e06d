"""How a handle's observable parts are stored: read off the code's own accessors, so that no
check depends on the order or nesting of private fields."""
import terms as T
import interp as IM


class NoView(Exception):
    pass


def proj(tpl, sym, v, reduce=None):
    """Apply accessor template tpl (a term over sym) to value v."""
    if tpl == sym:
        return v
    if tpl[0] == "fld":
        b = proj(tpl[1], sym, v)
        if b[0] == "agg":
            return b[2][tpl[3]] if b[1] == tpl[2] else ("app", "bad", b)
        return ("fld", b, tpl[2], tpl[3])
    if tpl[0] == "agg":
        return ("agg", tpl[1], tuple(proj(x, sym, v) for x in tpl[2]))
    if not T.contains(tpl, lambda t: t == sym):
        return tpl
    raise NoView("accessor is not a projection: " + T.show(tpl)[:80])


class Views:
    def __init__(self, analyse):
        self.analyse = analyse          # root name -> contract.Root
        self.c = {}

    def single(self, root):
        if root not in self.c:
            r = self.analyse(root)
            outs = [o for o in r.outs if o.kind == "ret"]
            if len(outs) != 1 or outs[0].st.unk:
                raise NoView(root)
            o = outs[0]
            v = r.I.reify(o.st, o.val)
            a = next(iter(r.args.values())) if r.args else None
            self.c[root] = (v, r.initial(a) if a is not None else None)
        return self.c[root]

    def parts(self, root, n):
        v, s = self.single(root)
        if v[0] != "agg" or len(v[2]) != n:
            v = ("agg", 0, tuple(("fld", v, 0, i) for i in range(n)))
        return v[2], s

    def rebuilt(self, root, n):
        """Readers of n parts found in what the rebuild-from-metadata function makes of them"""
        k = (root, "rebuilt")
        if k not in self.c:
            r = self.analyse(root)
            a = r.initial(next(iter(r.args.values())))
            common = None
            for o in r.outs:
                if o.kind != "ret" or o.st.unk:
                    continue
                v = r.I.reify(o.st, o.val)
                want = [("fld", a, 0, i) if a[0] != "agg" else a[2][i] for i in range(n)]
                want = [{w, r.I.reify(o.st, w)} for w in want]
                here = [set() for _ in range(n)]

                def walk(x, path):
                    for i in range(n):
                        if x in want[i]:
                            here[i].add(path)
                    if x[0] == "agg" and len(path) < 6:
                        for j, y in enumerate(x[2]):
                            walk(y, path + ((x[1], j),))
                walk(v, ())
                common = here if common is None else [p & q for p, q in zip(common, here)]
            if common is None or any(len(p) != 1 for p in common):
                raise NoView(root)
            self.c[k] = [next(iter(p)) for p in common]

        def reader(path):
            def f(v):
                for var, j in path:
                    if v[0] == "agg":
                        v = v[2][j] if v[1] == var and j < len(v[2]) else ("app", "bad", v)
                    else:
                        v = ("fld", v, var, j)
                return v
            return f
        return [reader(p) for p in self.c[k]]

    def either(self, handle, n):
        """metadata accessor, or where it is no projection, the rebuilding function"""
        try:
            p, s = self.parts(handle + "__metadata", n)
            for t in p:
                proj(t, s, s)
            return [lambda v, t=t: proj(t, s, v) for t in p]
        except NoView:
            return self.rebuilt(handle + "__from_leaked", n)

    def vec(self, mod):
        """(root, len, max) readers of a Vector"""
        return self.either(mod + "::root_vector", 3)

    def raw(self, mod):
        v, s = self.single(mod + "::root_raw__metadata")
        return lambda x: proj(v, s, x)

    def packed(self, mod):
        return self.either(mod + "::root_packed8", 3)

    def lst(self, mod, kind="list"):
        """(outer root, inner handle) readers of a List / PackedList"""
        p, s = self.parts(mod + f"::root_{kind}__metadata", 2)
        ip, vs = self.parts("dangling::root_vector__metadata" if kind == "list" else "dangling::root_packed8__metadata", 3)
        inner = p[1] if p[1][0] == "agg" else ("agg", 0, tuple(("fld", p[1], 0, i) for i in range(3)))
        h = None
        for x in T.subterms(inner[2][0]):
            if isinstance(x, tuple) and x and x[0] in ("fld", "sym") and all(proj(t, vs, x) == y for t, y in zip(ip, inner[2])):
                h = x
                break
        if h is None:
            raise NoView("inner handle of " + kind)
        return lambda v: proj(p[0], s, v), lambda v: proj(h, s, v)

    def mixed(self, mod):
        """(outer root, inner sequence) readers of LengthMixed<AnySeq>"""
        p, s = self.parts(mod + "::root_mixed__metadata", 2)
        q = p[1]
        if q[0] == "app" and q[1] == "seqmeta":
            return lambda v: proj(p[0], s, v), lambda v: proj(q[2], s, v)
        raise NoView("inner sequence")
