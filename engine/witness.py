"""Properties decided by the type checker itself: what builds in which feature combination (C24) and
which programs the types must refuse (C25). Nothing is run; the compiler only checks types and borrows."""
import itertools
import json
import os
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

import build

FEATS = ("std", "derive", "with-serde", "with-codec")
WIT = os.path.join(build.VERIF, "witness")


def name_of(fs):
    return "+".join(fs) or "none"


# ------------------------------------------------------------------ feature combinations
def check_combo(slot, fs, driver, tag):
    """-> (combo, api lines or None, [error message])"""
    home = os.path.join(build.TARGET, f"feat-{slot}")
    src = os.path.join(home, "crate")
    os.makedirs(src, exist_ok=True)
    shutil.copytree(os.path.join(WIT, "features"), src, dirs_exist_ok=True)
    os.utime(os.path.join(src, "src", "lib.rs"))
    out = os.path.join(home, f"api-{tag}.txt")
    if os.path.exists(out):
        os.unlink(out)
    env = {"RUSTC_WORKSPACE_WRAPPER": driver, "LD_LIBRARY_PATH": build.sysroot() + "/lib", "MIRFACTS_CRATE": "bmfeat",
           "MIRFACTS_API": "bm,bm_le", "MIRFACTS_OUT": out, "CARGO_TARGET_DIR": os.path.join(home, "target")}
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "--message-format=json", "--no-default-features", "--features", ",".join(fs)]
    rc, log = build.run(cmd, src, env)
    errs = errors_of(log)
    lines = open(out).read().splitlines() if os.path.exists(out) else None
    if rc and not errs:
        errs = [("", "", "cargo", log[-1500:])]
    return fs, lines, errs


def errors_of(log):
    """[(target, code, file:line, text)] of the errors in cargo's JSON messages"""
    out = []
    for ln in log.splitlines():
        if not ln.startswith("{"):
            continue
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        sp = [s for s in m["message"].get("spans", []) if s.get("is_primary")]
        if not sp:
            if m["message"].get("code") is None and "aborting" in m["message"]["message"]:
                continue
            if m["message"]["message"].startswith("could not compile"):
                continue
        at = ""
        if sp:
            s = sp[0]
            while s.get("expansion") and not s["file_name"].startswith(("src/", build.REPO)):
                s = s["expansion"]["span"]
            at = f"{s['file_name']}:{s['line_start']}"
        code = (m["message"].get("code") or {}).get("code", "")
        out.append((m["target"]["name"], code, at, m["message"]["message"]))
    return out


MAPS = [(re.compile(a), b) for a, b in (
    (r"std::collections::hash::map::HashMap<", "Map<"), (r"alloc::collections::btree::map::BTreeMap<", "Map<"),
    (r"std::collections::hash::set::HashSet<", "Set<"), (r"alloc::collections::btree::set::BTreeSet<", "Set<"),
    (r", std::hash::random::RandomState", ""), (r", alloc::alloc::Global", ""), (r"/#\d+", ""))]
STDONLY = re.compile(r" as core::(error::Error|fmt::Display)>\t")


def classify(lines):
    """-> {"core": set, "serde": set, "codec": set, "derive": set}"""
    r = {"core": set(), "serde": set(), "codec": set(), "derive": set(), "std": set()}
    for ln in lines:
        if "::_::" in ln or "::__" in ln:
            continue                        # helper items of derived serialisation
        for a, b in MAPS:
            ln = a.sub(b, ln)
        item, kind = ln.split("\t")[:2]
        if kind in ("impl of serde", "impl of serde_core"):
            r["serde"].add(ln)
        elif kind == "impl of parity_codec":
            r["codec"].add(ln)
        elif kind == "derive macro":
            r["derive"].add(ln)
        elif STDONLY.search(ln):
            r["std"].add(ln)
        else:
            r["core"].add(ln)
    return r


def features(tier="quick"):
    """Every combination type-checks, and offers what the richest one offers"""
    driver = build.driver()
    combos = [tuple(f for f, on in zip(FEATS, c) if on) for c in itertools.product((0, 1), repeat=len(FEATS))]
    n = min(8, os.cpu_count() or 1)

    def lane(k):
        return [check_combo(k, fs, driver, i) for i, fs in enumerate(combos) if i % n == k]
    with ThreadPoolExecutor(n) as ex:
        res = [x for xs in ex.map(lane, range(n)) for x in xs]
    recs, apis = [], {}
    for fs, lines, errs in sorted(res, key=lambda r: (len(r[0]), r[0])):
        who = "features " + name_of(fs)
        mine = [e for e in errs if build.REPO + "/" in e[2] or e[2].startswith("src/") or e[0] in ("bm", "bm-le", "bm_le", "bm-le-derive", "bmfeat")]
        if mine:
            t, code, at, msg = mine[0]
            recs.append((who, 0, "builds", "NE", "does not type-check", f"{code} {msg[:300]}\n  at {at}"))
        elif errs or lines is None:
            recs.append((who, 0, "builds", "UNK", "not checked", str(errs)[:300]))
        else:
            recs.append((who, 0, "builds", "EQ", "", ""))
            apis[fs] = classify(lines)
    full = apis.get(FEATS)
    if full is None:
        return recs
    recs.append(("features " + name_of(FEATS), 0, "offers", "EQ" if len(full["core"]) > 300 else "UNK", f"{len(full['core'])} public items", ""))
    for fs, a in apis.items():
        who = "features " + name_of(fs)
        for part in ("core", "serde", "codec", "derive", "std"):
            on = {"core": True, "serde": "with-serde" in fs, "codec": "with-codec" in fs, "derive": "derive" in fs, "std": "std" in fs}[part]
            less, more = sorted(full[part] - a[part]), sorted(a[part] - full[part])
            bad = None
            if on and less:
                # the same item with another signature is named as such
                head = less[0].split("\t")[0]
                other = [m for m in more if m.split("\t")[0] == head]
                bad = (f"{head} differs" if other else f"{head} is missing", f"here: {other[0][:400] if other else 'nothing'}\n  with all features: {less[0][:400]}")
            elif more:
                bad = (f"{more[0].split(chr(9))[0]} is only here", more[0][:400])
            if bad:
                recs.append((who, 0, "offers", "NE", bad[0][:200], bad[1]))
            else:
                recs.append((who, 0, "offers", "EQ", part, f"{len(a[part])} items"))
    return recs


# ------------------------------------------------------------------ programs the types refuse
PRE = """#![allow(unused, dead_code)]
use bm::*;
use bm_le::{IntoTree, FromTree, CompatibleConstruct};
use generic_array::GenericArray;
use typenum::{U8, U32};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val([u8; 32]);
impl AsRef<[u8]> for Val { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for Val { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl From<GenericArray<u8, U32>> for Val { fn from(_: GenericArray<u8, U32>) -> Val { loop {} } }
impl Into<GenericArray<u8, U32>> for Val { fn into(self) -> GenericArray<u8, U32> { loop {} } }
impl From<usize> for Val { fn from(_: usize) -> Val { loop {} } }
impl Into<usize> for Val { fn into(self) -> usize { loop {} } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Elt([u8; 8]);
impl From<GenericArray<u8, U8>> for Elt { fn from(_: GenericArray<u8, U8>) -> Elt { loop {} } }
impl Into<GenericArray<u8, U8>> for Elt { fn into(self) -> GenericArray<u8, U8> { loop {} } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct C;
impl Construct for C {
    type Value = Val;
    fn intermediate_of(_: &Val, _: &Val) -> Val { loop {} }
    fn empty_at<DB: WriteBackend<Construct=Self> + ?Sized>(_: &mut DB, _: usize) -> Result<Val, DB::Error> { loop {} }
}
pub struct RO; // only reads
impl Backend for RO { type Construct = C; type Error = (); }
impl ReadBackend for RO { fn get(&mut self, _: &Val) -> Result<Option<(Val, Val)>, ()> { loop {} } }
pub struct RW; // reads and writes
impl Backend for RW { type Construct = C; type Error = (); }
impl ReadBackend for RW { fn get(&mut self, _: &Val) -> Result<Option<(Val, Val)>, ()> { loop {} } }
impl WriteBackend for RW {
    fn rootify(&mut self, _: &Val) -> Result<(), ()> { loop {} }
    fn unrootify(&mut self, _: &Val) -> Result<(), ()> { loop {} }
    fn insert(&mut self, _: Val, _: (Val, Val)) -> Result<(), ()> { loop {} }
}
pub struct LE; // a read-only backend over bm-le's values
impl Backend for LE { type Construct = bm::UnitDigestConstruct<sha2::Sha256, bm_le::Value>; type Error = (); }
impl ReadBackend for LE { fn get(&mut self, _: &bm_le::Value) -> Result<Option<(bm_le::Value, bm_le::Value)>, ()> { loop {} } }
pub struct LEW;
impl Backend for LEW { type Construct = bm::UnitDigestConstruct<sha2::Sha256, bm_le::Value>; type Error = (); }
impl ReadBackend for LEW { fn get(&mut self, _: &bm_le::Value) -> Result<Option<(bm_le::Value, bm_le::Value)>, ()> { loop {} } }
impl WriteBackend for LEW {
    fn rootify(&mut self, _: &bm_le::Value) -> Result<(), ()> { loop {} }
    fn unrootify(&mut self, _: &bm_le::Value) -> Result<(), ()> { loop {} }
    fn insert(&mut self, _: bm_le::Value, _: (bm_le::Value, bm_le::Value)) -> Result<(), ()> { loop {} }
}
type ORaw = OwnedRaw<C>; type DRaw = DanglingRaw<C>;
type OVec = OwnedVector<C>; type DVec = DanglingVector<C>;
type OList = OwnedList<C>; type DList = DanglingList<C>;
type OPVec = OwnedPackedVector<C, Elt, U32, U8>; type DPVec = DanglingPackedVector<C, Elt, U32, U8>;
type OPList = OwnedPackedList<C, Elt, U32, U8>; type DPList = DanglingPackedList<C, Elt, U32, U8>;
type OMix = LengthMixed<Owned, C, DVec>; type DMix = LengthMixed<Dangling, C, DVec>;
fn index() -> Index { loop {} }
fn copies<T: Clone>() {} fn any<T>() {}
fn writes<T: WriteBackend>() {} fn reads<T: ReadBackend>() {}
fn becomes<A: Into<B>, B>() {}
"""

KINDS = ("Raw", "Vec", "List", "PVec", "PList", "Mix")
MOVED = ("E0382", "E0505", "E0507")
TYPE = ("E0308", "E0277", "E0271", "E0599", "E0624", "E0616", "E0603", "E0282", "E0283")


def programs():
    """[(name, parameters, body with @ where the two differ, refused text, accepted text, codes)]"""
    out = []

    def add(name, params, body, bad, good, codes):
        out.append((name, params, body, bad, good, codes))
    for k in KINDS:
        for s in "OD":
            h = s + k
            add(f"{h}_used_after_drop", f"h: {h}, db: &mut RW", "let r = Tree::root(&h); let _ = Tree::drop(h, db); @", "let _ = Tree::root(&h);", "let _ = r;", MOVED)
            add(f"{h}_dropped_twice", f"h: {h}, g: {h}, db: &mut RW", "let _ = Tree::drop(h, db); @", "let _ = Tree::drop(h, db);", "let _ = Tree::drop(g, db);", MOVED)
            add(f"{h}_used_after_into_raw", f"h: {h}, db: &mut RW", "let w = Tree::into_raw(h); @", "let _ = Tree::root(&h);", "let _ = Tree::root(&w);", MOVED)
            add(f"{h}_dropped_after_into_raw", f"h: {h}, db: &mut RW", "let w = Tree::into_raw(h); @", "let _ = Tree::drop(h, db);", "let _ = Tree::drop(w, db);", MOVED)
            o = ("D" if s == "O" else "O") + k
            add(f"{h}_passed_as_{o}", f"h: {h}", "fn wants(_: {t}) {{}} wants(h);", o, h, TYPE)
            add(f"{h}_ref_passed_as_{o}", f"h: &mut {h}", "fn wants(_: &mut {t}) {{}} wants(h);", o, h, TYPE)
            add(f"{h}_into_raw_as_{o[0]}Raw", f"h: {h}", "let _w: {t} = Tree::into_raw(h);", o[0] + "Raw", s + "Raw", TYPE)
        add(f"O{k}_copied", "", "@", f"copies::<O{k}>();", f"any::<O{k}>();", TYPE)
        add(f"D{k}_becomes_owned", "", "@", f"becomes::<D{k}, O{k}>();", f"becomes::<D{k}, D{k}>();", TYPE)
        add(f"D{k}_raw_becomes_owned", "", "@", f"becomes::<D{k}, ORaw>();", f"becomes::<D{k}, D{k}>();", TYPE)
        # writing through a backend that only reads
        add(f"O{k}_drop_readonly", f"h: O{k}, ro: &mut RO, rw: &mut RW", "let _ = Tree::drop(h, @);", "ro", "rw", TYPE)
    for k in ("Vec", "List", "PVec", "PList"):
        v = "Val::default()" if k in ("Vec", "List") else "Elt::default()"
        for s in "OD":
            h = s + k
            add(f"{h}_set_readonly", f"h: &mut {h}, ro: &mut RO, rw: &mut RW", f"let _ = h.get(ro, 0); let _ = h.set(@, 0, {v});", "ro", "rw", TYPE)
            add(f"{h}_push_readonly", f"h: &mut {h}, ro: &mut RO, rw: &mut RW", f"let _ = h.push(@, {v});", "ro", "rw", TYPE)
            add(f"{h}_pop_readonly", f"h: &mut {h}, ro: &mut RO, rw: &mut RW", "let _ = h.pop(@);", "ro", "rw", TYPE)
    for s in "OD":
        add(f"{s}Raw_set_readonly", f"h: &mut {s}Raw, ro: &mut RO, rw: &mut RW", "let _ = h.get(ro, index()); let _ = h.set(@, index(), Val::default());", "ro", "rw", TYPE)
        # a subtree is never owned, whoever it is taken from
        add(f"{s}Raw_subtree_owned", f"h: &{s}Raw, ro: &mut RO", "let _r: Result<{t}, _> = h.subtree(ro, index());", "ORaw", "DRaw", TYPE)
        add(f"{s}Raw_as_dangling_owned", f"h: &{s}Raw", "let _r: {t} = h.as_dangling();", "ORaw", "DRaw", TYPE)
        d = "D" if s == "O" else "O"
        add(f"{s}Raw_used_after_into_vector", f"h: {s}Raw", "let v = h.into_vector(1, None); @", "let _ = Tree::root(&h);", "let _ = Tree::root(&v);", MOVED)
        add(f"{s}Raw_used_after_into_list", f"h: {s}Raw", "let v = h.into_list(1, None); @", "let _ = Tree::root(&h);", "let _ = Tree::root(&v);", MOVED)
        add(f"{s}Raw_used_after_from_raw", f"h: {s}Raw", f"let v = {s}Vec::from_raw(h, 1, None); @", "let _ = Tree::root(&h);", "let _ = Tree::root(&v);", MOVED)
        add(f"{s}Raw_used_after_packed_from_raw", f"h: {s}Raw", f"let v = {s}PVec::from_raw(h, 1, None); @", "let _ = Tree::root(&h);", "let _ = Tree::root(&v);", MOVED)
        add(f"{s}Raw_into_vector_as_{d}", f"h: {s}Raw", "let _v: {t} = h.into_vector(1, None);", d + "Vec", s + "Vec", TYPE)
        add(f"{s}Raw_into_list_as_{d}", f"h: {s}Raw", "let _v: {t} = h.into_list(1, None);", d + "List", s + "List", TYPE)
        for k in ("Vec", "List", "PVec"):
            add(f"{s}Raw_from_raw_as_{d}{k}", f"h: {s}Raw", f"let _v = {{t}}{k}::from_raw(h, 1, None);", d, s, TYPE)
        add(f"{s}List_used_after_deconstruct", f"h: {s}List, ro: &mut RO", "let r = Tree::root(&h); let _ = h.deconstruct(ro); @", "let _ = Tree::root(&h);", "let _ = r;", MOVED)
        add(f"{s}Mix_used_after_deconstruct", f"h: {s}Mix, ro: &mut RO", "let r = Tree::root(&h); let _ = h.deconstruct(ro); @", "let _ = Tree::root(&h);", "let _ = r;", MOVED)
        add(f"{s}Mix_of_owned", "", "any::<LengthMixed<@, C, {t}>>();".replace("@", "Owned" if s == "O" else "Dangling"), "OVec", "DVec", TYPE)
        add(f"{s}Mix_of_owned_packed", "", "any::<LengthMixed<@, C, {t}>>();".replace("@", "Owned" if s == "O" else "Dangling"), "OPVec", "DPVec", TYPE)
        add(f"{s}Mix_inner_kept", f"h: &{s}Mix, ro: &mut RO", "let _: Result<(), _> = h.with(ro, |v, _db| {{ let _x: &{t} = v; Ok(()) }});", "OVec", "DVec", TYPE)
    # what is created owned
    for k, call in (("Vec", "create(rw, 1, None)"), ("List", "create(rw, None)"), ("PVec", "create(rw, 1, None)"), ("PList", "create(rw, None)")):
        add(f"{k}_created_dangling", "rw: &mut RW", "let _ = {t}" + k + "::" + call + ";", "D", "O", TYPE)
        add(f"{k}_created_readonly", "ro: &mut RO, rw: &mut RW", f"let _ = O{k}::" + call.replace("rw", "@") + ";", "ro", "rw", TYPE)
    # wrappers hand on only what the wrapped backend can do
    add("proving_over_readonly_writes", "", "@", "writes::<ProvingBackend<RO>>();", "reads::<ProvingBackend<RO>>(); writes::<ProvingBackend<RW>>();", TYPE)
    add("dyn_over_readonly_writes", "", "@", "writes::<DynBackend<RO>>();", "reads::<DynBackend<RO>>(); writes::<DynBackend<RW>>();", TYPE)
    # no way of passing a backend on adds what it cannot do
    for n, t in (("ref", "&'static mut {}"), ("box", "Box<{}>"), ("ref_ref", "&'static mut &'static mut {}")):
        add(f"{n}_to_readonly_writes", "", "@", f"writes::<{t.format('RO')}>();", f"any::<{t.format('RW')}>();", TYPE)
        add(f"{n}_to_proving_readonly_writes", "", "@", f"writes::<{t.format('ProvingBackend<RO>')}>();", f"any::<{t.format('RW')}>();", TYPE)
    add("dyn_readonly_writes", "", "fn ws<T: WriteBackend + ?Sized>() {} fn rs<T: ReadBackend + ?Sized>() {} @", "ws::<dyn ReadBackend<Construct=C, Error=()>>();",
        "rs::<dyn ReadBackend<Construct=C, Error=()>>(); ws::<dyn WriteBackend<Construct=C, Error=()>>();", TYPE)
    add("noop_over_readonly", "", "fn ws<T: WriteBackend + ?Sized>() {} @", "ws::<RO>();", "ws::<RW>();", TYPE)
    add("proving_borrow", "rw: &mut RW", "let mut p = ProvingBackend::new(rw); @ let _ = p.get(&Val::default());", "let _ = rw.get(&Val::default());", "", ("E0499",))
    # encoding writes, decoding reads
    add("encode_readonly", "le: &mut LE, lew: &mut LEW", "let _ = 1u64.into_tree(@);", "le", "lew", TYPE)
    add("encode_tuple_readonly", "le: &mut LE, lew: &mut LEW", "let _ = (1u64, vec![true]).into_tree(@);", "le", "lew", TYPE)
    add("partial_flush_readonly", "v: &mut bm_le::PartialValue<u64>, raw: &mut bm::DanglingRaw<<LE as Backend>::Construct>, le: &mut LE, lew: &mut LEW",
        "use bm_le::PartialItem; let _ = v.fetch(raw, le); let _ = v.flush(raw, @);", "le", "lew", TYPE)
    return out


def render(p, which):
    name, params, body, bad, good, codes = p
    t = bad if which == "bad" else good
    b = body.replace("{t}", t).replace("{{", "{").replace("}}", "}") if "{t}" in body else body.replace("@", "\n    " + t + "\n    ")
    return f"pub mod {which}_{name} {{\n    use super::*;\n    pub fn program({params}) {{\n    {b}\n    }}\n}}\n"


def types(tier="quick"):
    ps = programs()
    home = os.path.join(build.TARGET, "types")
    src = os.path.join(home, "crate")
    bins = os.path.join(src, "src", "bin")
    if os.path.isdir(os.path.join(src, "src")):
        shutil.rmtree(os.path.join(src, "src"))
    os.makedirs(bins)
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(WIT, "types", f), src)
    # type errors stop the borrow checker: refused programs are checked one crate each, in a few
    # crates' worth of one error class; accepted ones all together
    env = {"CARGO_TARGET_DIR": os.path.join(home, "target")}
    span, goodspan = {}, {}
    groups = (("good", lambda p: True), ("bad_types", lambda p: p[5] is not MOVED and p[5] != ("E0499",)), ("bad_moves", lambda p: p[5] is MOVED or p[5] == ("E0499",)))
    for group, sel in groups:
        text = PRE + "fn main() {}\n"
        which = "good" if group == "good" else "bad"
        for p in ps:
            if sel(p):
                a = text.count("\n") + 1
                text += render(p, which)
                (goodspan if which == "good" else span)[p[0]] = (f"src/bin/{group}.rs", a, text.count("\n"))
        with open(os.path.join(bins, group + ".rs"), "w") as fh:
            fh.write(text)
    recs = []
    rc2, log2 = build.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--message-format=json", "--bins", "--keep-going"], src, env)
    errs = errors_of(log2)
    if not errs:
        raise build.BuildError("the refused programs were not checked\n" + log2[-3000:])
    if any(build.REPO in e[2] or e[0] in ("bm", "bm-le", "bm_le") for e in errs):
        raise build.BuildError("the crates do not type-check\n" + str(errs)[:3000])
    lib = bins_err = errs

    def hits(errs, sp):
        f, a, b = sp
        return [e for e in errs if e[2].rsplit(":", 1)[0].endswith(f) and e[2] and a <= int(e[2].rsplit(":", 1)[1]) <= b]
    stray = [e for e in bins_err if not any(hits([e], s) for s in list(span.values()) + list(goodspan.values()))]
    if stray:
        raise build.BuildError("errors outside the witness programs: " + str(stray)[:2000])
    # a type error keeps the compiler from checking borrows
    mixed = {f for f in ("src/bin/bad_moves.rs",) if any(e[2].rsplit(":", 1)[0].endswith(f) and e[1] not in MOVED + ("E0499",) for e in bins_err)}
    for p in ps:
        g = hits(lib, goodspan[p[0]])
        who = "program " + p[0]
        if g:
            recs.append((who, 0, "accepted", "NE", "the correct program does not compile", f"{g[0][1]} {g[0][3][:300]}\n  {render(p, 'good')}"))
            continue
        recs.append((who, 0, "accepted", "EQ", "", ""))
        b = hits(bins_err, span[p[0]])
        if not b and span[p[0]][0] in mixed:
            recs.append((who, 0, "refused", "UNK", "borrows not checked", ""))
        elif not b:
            recs.append((who, 0, "refused", "NE", "a program the types must refuse compiles", render(p, "bad")))
        elif all(e[1] in p[5] for e in b):
            recs.append((who, 0, "refused", "EQ", "", f"{b[0][1]} {b[0][3][:120]}"))
        else:
            recs.append((who, 0, "refused", "UNK", "refused for another reason", str(b)[:300]))
    return recs
