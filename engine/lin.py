"""Linear-inequality abstract domain (integers, all bases non-negative unless stated).

entails(facts, q): do the constraints f >= 0 (f in facts) imply q >= 0 ?
Decided by Fourier-Motzkin elimination with a size cap (over the cap: not entailed).
"""
from functools import lru_cache
from math import gcd
from terms import parts, key, C, add, scale, sub, pow2

CAP = 300


def _norm(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g          # integer tightening (floor)
    return c, d


def _implicit(bases):
    """Facts that hold for the shape of a base alone."""
    out = []
    todo = list(bases)
    seen = set(todo)
    while todo:
        b = todo.pop()
        out.append((0, {b: 1}))
        h = b[0]
        extra = []
        if h == "pow2":
            out.append((-1, {b: 1}))
            # 2^n >= n + 1
            c, d = parts(add(b, add(scale(b[1], -1), C(-1))))
            extra.append((c, d))
        elif h == "div" and b[2][0] == "c":
            k = b[2][1]
            for t in (sub(b[1], scale(b, k)), sub(add(scale(b, k), C(k - 1)), b[1])):
                extra.append(parts(t))
        elif h == "mod" and b[2][0] == "c":
            k = b[2][1]
            extra.append(parts(sub(C(k - 1), b)))
            dv = ("div", b[1], b[2])
            e = sub(b[1], add(scale(dv, k), b))
            extra.append(parts(e))
            extra.append(parts(scale(e, -1)))
        elif h == "div":
            extra.append(parts(sub(b[1], b)))
        elif h == "mod":
            extra.append(parts(sub(add(b[2], C(-1)), b)))
            extra.append(parts(sub(b[1], b)))
        elif h == "bitand":
            extra.append(parts(sub(b[1], b)))
            extra.append(parts(sub(b[2], b)))
        elif h == "bitor":
            extra.append(parts(sub(b, b[1])))
            extra.append(parts(sub(b, b[2])))
            extra.append(parts(sub(add(b[1], b[2]), b)))
        elif h == "b2i":
            extra.append(parts(sub(C(1), b)))
        elif h == "clog2":
            x = b[1]
            extra.append(parts(sub(pow2(b), x)))
            # pow2(clog2 x) <= 2x - 1 when x >= 1, and <= 2x otherwise + 1: use 2^clog2 <= 2x + 1 - [x>=1]
            extra.append(parts(sub(add(scale(x, 2), C(1)), pow2(b))))
        elif h == "app" and b[1] == "min":
            extra.append(parts(sub(b[2], b)))
            extra.append(parts(sub(b[3], b)))
        elif h == "app" and b[1] == "max":
            extra.append(parts(sub(b, b[2])))
            extra.append(parts(sub(b, b[3])))
        for c, d in extra:
            out.append((c, d))
            for k2 in d:
                if k2 not in seen:
                    seen.add(k2)
                    todo.append(k2)
    return out


@lru_cache(maxsize=100000)
def _entails(facts, q):
    qc, qd = parts(q)
    if not qd:
        return qc >= 0
    cons = []
    # relevant facts only
    rel = set(qd)
    pool = [parts(f) for f in facts]
    imp = _implicit(set(qd) | {b for _, d in pool for b in d})
    pool += imp
    changed = True
    used = [False] * len(pool)
    while changed:
        changed = False
        for i, (c, d) in enumerate(pool):
            if not used[i] and any(b in rel for b in d):
                used[i] = True
                for b in d:
                    if b not in rel:
                        rel.add(b)
                        changed = True
    cons = [(c, dict(d)) for i, (c, d) in enumerate(pool) if used[i] and d]
    # negated goal: -q - 1 >= 0
    cons.append((-qc - 1, {k: -v for k, v in qd.items()}))
    seen = set()

    def canon(c, d):
        return (c, tuple(sorted(((key(k), v) for k, v in d.items()))))
    cur = []
    for c, d in cons:
        c, d = _norm(c, d)
        k = canon(c, d)
        if k not in seen:
            seen.add(k)
            cur.append((c, d))
    while True:
        vs = {}
        for c, d in cur:
            for k, v in d.items():
                p, n = vs.get(k, (0, 0))
                vs[k] = (p + 1, n) if v > 0 else (p, n + 1)
        if not vs:
            return any(c < 0 for c, d in cur)
        v = min(vs, key=lambda k: (vs[k][0] * vs[k][1] - vs[k][0] - vs[k][1], key(k)))
        pos = [(c, d) for c, d in cur if d.get(v, 0) > 0]
        ng = [(c, d) for c, d in cur if d.get(v, 0) < 0]
        rest = [(c, d) for c, d in cur if not d.get(v, 0)]
        if len(rest) + len(pos) * len(ng) > CAP:
            return False
        out = {}
        for c, d in rest:
            out[canon(c, d)] = (c, d)
        for pc, pd in pos:
            for nc, nd in ng:
                a, b = -nd[v], pd[v]
                d = {}
                for k, x in pd.items():
                    d[k] = d.get(k, 0) + a * x
                for k, x in nd.items():
                    d[k] = d.get(k, 0) + b * x
                d = {k: x for k, x in d.items() if x}
                c = a * pc + b * nc
                if not d:
                    if c < 0:
                        return True
                    continue
                c, d = _norm(c, d)
                out[canon(c, d)] = (c, d)
        cur = list(out.values())
        if not cur:
            return False


def entails(facts, q):
    c, d = parts(q)
    if not d:
        return c >= 0
    if c >= 0 and all(v > 0 for v in d.values()):
        return True
    return _entails(tuple(facts), q)
