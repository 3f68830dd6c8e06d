"""Ties contracts, rules and properties together."""
import re
import terms as T
import contract
import contracts_core
import contracts_db
import contracts_le
import contracts_packed
import contracts_partial
import contracts_derive
import contracts_util
import contracts_wire
import rules
import views
import witness
from props import PROPS

# properties decided on another crate of instantiations than /verif/harness
CRATE = {"C32": "wire"}
EXPLAIN = {}
ASSUME = []


key = contract.key


def select(rule, pats, names):
    rs = [re.compile(p) for p in pats]
    out = [n for n in names if any(r.search(n) for r in rs)]
    if rule in ("contract", "bounds", "rejects"):
        out = [n for n in out if key(n) in contract.CONTRACTS]
    return out


def analyse(F, name, clauses):
    T.VALUE_BYTES[0] = None if re.search(r"root_construct__.*_intermediate", name) else 32
    R = contract.Root(F, name)
    R.views = views.Views(lambda n: contract.Root(F, "core_roots::" + n))
    out = []
    for rule, opt in clauses:
        if rule == "contract":
            rs = contract.run_contract(R, contract.CONTRACTS[key(name)][0])
        else:
            rs = rules.RULES[rule](R)
        w = opt.get("what")
        nw = opt.get("not")
        for r in rs:
            if r.kind == "NE" and (w and not re.search(w, r.what) or nw and re.search(nw, r.what)):
                continue
            out.append((r.root, r.path, r.rule, r.kind, r.what, r.detail))
    return out, {"functions": {str(x) for x in R.I.visited}, "paths": len(R.outs)}


def extra(pid, tier):
    """Obligations that are not about one entry point"""
    if pid == "C24":
        return witness.features(tier)
    if pid == "C25":
        return witness.types(tier)
    return []
