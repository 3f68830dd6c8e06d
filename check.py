#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]

Decides one property of /repo's current source by static analysis (see DESIGN.md)."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)

import build            # noqa: E402

F = None
DB = None


def load(pid):
    global F, DB
    import facts
    import registry
    DB = registry
    F = facts.Facts(build.facts(registry.CRATE.get(pid, "harness")))


class Late(BaseException):
    pass


def late(*_):
    raise Late()


def job(a):
    """(property, root name, [(rule, options)]) -> (root, [Rec as tuple], stats)"""
    pid, name, rules, budget = a
    t = time.time()
    out, stats = [], {}
    signal.signal(signal.SIGALRM, late)
    signal.alarm(budget)
    try:
        out, stats = DB.analyse(F, name, rules)
    except Late:
        out = [(name, -1, "analysis", "UNK", "time limit", "")]
    except Exception:
        out = [(name, -1, "analysis", "UNK", "analysis stopped: " + traceback.format_exc().splitlines()[-1], "")]
    finally:
        signal.alarm(0)
    return name, out, stats, time.time() - t


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid] if os.path.exists(p) else []


def main():
    global DB
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["BM_TIER"] = tier
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        import registry
        clauses = registry.PROPS[pid]
        if clauses:
            load(pid)
        more = registry.extra(pid, tier)
    except build.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    DB = registry
    work, missing = {}, []
    for rule, pats, opt in clauses:
        names = registry.select(rule, pats, sorted(F.roots))
        if len(names) < opt.get("floor", 1):
            missing.append(f"rule {rule} over {pats}: {len(names)} roots, at least {opt.get('floor', 1)} expected")
        for n in names:
            work.setdefault(n, []).append((rule, opt))
    if missing:
        print("anchors missing:\n  " + "\n  ".join(missing), file=sys.stderr)
        return 2
    budget = 100 if tier == "quick" else 600
    jobs = [(pid, n, rs, budget) for n, rs in sorted(work.items())]
    recs, funcs, paths, slow = [], set(), 0, []
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for name, out, stats, dt in pool.imap_unordered(job, jobs, chunksize=1):
            recs += out
            funcs |= set(stats.get("functions", ()))
            paths += stats.get("paths", 0)
            slow.append((round(dt, 1), name))
    recs += more
    recs.sort(key=lambda r: (r[0], r[2], r[1], r[4]))
    kinds = Counter(r[3] for r in recs)
    ne = {}
    for r in recs:
        if r[3] == "NE":
            ne.setdefault((r[0], r[2], r[4]), r)
    supp = known(pid)
    viol, hits = [], {}
    for k, r in ne.items():
        f = next((f for f in supp if f["root"] == k[0] and f["rule"] == k[1] and f["what"] == k[2]), None)
        if f is None:
            viol.append(r)
        else:
            hits[f["id"]] = f
    for f in supp:
        if f["id"] in hits:
            print(f"KNOWN-FINDING: property={pid} {f['text']}")
    decided = kinds["EQ"] + kinds["SAMP"] + kinds["NE"]
    rep = os.path.join(ev, f"{pid}.violation.txt")
    if viol:
        with open(rep, "w") as fh:
            for r in viol:
                fh.write(f"property {pid}, rule {r[2]}, entry point {r[0]}, path {r[1]}: {r[4]}\n{r[5]}\n\n")
    elif os.path.exists(rep):
        os.unlink(rep)
    unk = [r for r in recs if r[3] == "UNK"]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": DB.EXPLAIN.get(pid, "") or "see DESIGN.md",
            "rules": sorted({c[0] for c in clauses} | {r[2] for r in more}),
            "entry_points": len(jobs) or len({r[0] for r in more}),
            "functions_analysed": len(funcs),
            "function_names": sorted(funcs),
            "paths": paths,
            "obligations": len(recs),
            "equal_by_rewriting": kinds["EQ"],
            "agree_pointwise": kinds["SAMP"],
            "different": kinds["NE"],
            "undecided": kinds["UNK"],
            "left_open_by_the_property": kinds["OPEN"],
            "outside_stated_range": kinds["RANGE"],
            "undecided_list": [f"{r[0]} path {r[1]} [{r[2]}]: {r[4][:160]} {r[5][:160]}" for r in unk[:40]],
            "samples": [f"{r[0]} path {r[1]} [{r[2]}]: {r[3]}" for r in recs[:5]],
            "known_findings": sorted(hits),
            "slowest": [list(x) for x in sorted(slow, reverse=True)[:3]],
        },
        "assumptions": DB.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(ev, f"{pid}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for r in viol:
        first = r[5].splitlines()[0][:300] if r[5] else ""
        print(f"  [{r[2]}] {r[0]}: {r[4]}  {first}")
    if viol:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if not decided:
        print("no obligation could be decided", file=sys.stderr)
        return 3
    print(f"{pid} ok: {len(jobs) or len({r[0] for r in more})} {'entry points' if jobs else 'programs and configurations'}, {paths} paths, {len(recs)} obligations: {dict(kinds)}; {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
