//! `mirfacts`: a rustc driver that behaves as rustc, and, for the crate named by
//! MIRFACTS_CRATE, additionally writes the type-checked, fully resolved MIR of every
//! function instance reachable from that crate's `root_*` functions to MIRFACTS_OUT (JSON).
//! Nothing is executed: the driver only asks the compiler for MIR.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join(v: &[String]) -> String {
    v.join(",")
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<(Instance<'tcx>, Option<usize>), usize>,
    inst_out: Vec<String>,
    queue: Vec<(usize, Instance<'tcx>, Option<usize>)>,
    stop: Vec<String>,
    models: HashMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = esc(&format!("{t}"));
        let tcx = self.tcx;
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) | ty::Uint(_) => {
                let bits = match t.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => 0,
                };
                format!("\"k\":\"int\",\"bits\":{},\"signed\":{}", bits, t.is_signed())
            }
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val
                    } else {
                        0
                    };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(self.env, ft);
                        match ft {
                            Ok(ft) => {
                                let fi = self.ty(ft);
                                fs.push(format!("[{},{}]", esc(f.name.as_str()), fi))
                            }
                            Err(_) => fs.push(format!("[{},-1]", esc(f.name.as_str()))),
                        }
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                        esc(v.name.as_str()),
                        discr,
                        join(&fs)
                    ));
                }
                let mut as_ = Vec::new();
                for a in args.iter() {
                    if let Some(t) = a.as_type() {
                        as_.push(format!("{}", self.ty(t)));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"args\":[{}],\"variants\":[{}]",
                    kind,
                    esc(&tcx.def_path_str(def.did())),
                    join(&as_),
                    join(&vs)
                )
            }
            ty::Ref(_, to, m) => {
                let i = self.ty(*to);
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), i)
            }
            ty::RawPtr(to, m) => {
                let i = self.ty(*to);
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), i)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", join(&v))
            }
            ty::Array(e, n) => {
                let ei = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("-1".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", ei, n)
            }
            ty::Slice(e) => {
                let ei = self.ty(*e);
                format!("\"k\":\"slice\",\"elem\":{}", ei)
            }
            ty::FnDef(..) => {
                let c = self.callee(t);
                format!("\"k\":\"fndef\",\"callee\":{c}")
            }
            ty::Closure(def, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let kind = args.as_closure().kind();
                let body = Instance::resolve_closure(tcx, *def, args, kind);
                let id = self.inst(body, None);
                format!(
                    "\"k\":\"closure\",\"path\":{},\"inst\":{},\"ckind\":\"{:?}\",\"upvars\":[{}]",
                    esc(&tcx.def_path_str(*def)),
                    id,
                    kind,
                    join(&ups)
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[id] = format!("{{{},\"s\":{}}}", body, s);
        id
    }

    fn stopped(&self, path: &str) -> bool {
        self.stop.iter().any(|s| path.starts_with(s.as_str()))
    }

    fn inst(&mut self, i: Instance<'tcx>, promoted: Option<usize>) -> usize {
        if let Some(x) = self.insts.get(&(i, promoted)) {
            return *x;
        }
        let id = self.inst_out.len();
        self.insts.insert((i, promoted), id);
        self.inst_out.push(String::new());
        self.queue.push((id, i, promoted));
        id
    }

    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), ti)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        let _ = body;
        format!("[{},[{}]]", p.local.as_usize(), join(&v))
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let ti = self.ty(t);
        let tcx = self.tcx;
        match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => format!("{{\"c\":\"zst\",\"ty\":{ti}}}"),
            (ConstValue::Scalar(mir::interpret::Scalar::Int(s)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                format!("{{\"c\":\"int\",\"ty\":{ti},\"v\":\"{}\"}}", s.to_bits(s.size()))
            }
            (ConstValue::Slice { .. }, ty::Ref(_, inner, _)) if inner.is_str() => {
                let s = v
                    .try_get_slice_bytes_for_diagnostics(tcx)
                    .map(|b| String::from_utf8_lossy(b).into_owned())
                    .unwrap_or_default();
                format!("{{\"c\":\"str\",\"ty\":{ti},\"v\":{}}}", esc(&s))
            }
            (_, ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) if depth < 6 => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> =
                        d.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft, depth + 1)).collect();
                    let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    format!("{{\"c\":\"agg\",\"ty\":{ti},\"variant\":{vi},\"fields\":[{}]}}", join(&fs))
                } else {
                    format!("{{\"c\":\"opaque\",\"ty\":{ti}}}")
                }
            }
            _ => format!("{{\"c\":\"opaque\",\"ty\":{ti}}}"),
        }
    }

    fn operand(&mut self, me: Instance<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                if let ty::FnDef(..) = t.kind() {
                    let callee = self.callee(t);
                    return format!("{{\"c\":\"fn\",\"ty\":{ti},\"callee\":{callee}}}");
                }
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        // The promoted body belongs to `u.def`, in the context of this instance.
                        let src = if u.def == me.def_id() {
                            me
                        } else {
                            Instance::new_raw(u.def, u.args)
                        };
                        let id = self.inst(src, Some(p.as_usize()));
                        return format!("{{\"c\":\"promoted\",\"ty\":{ti},\"inst\":{id}}}");
                    }
                }
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.const_val(v, t, 0),
                    Err(_) => format!("{{\"c\":\"opaque\",\"ty\":{ti}}}"),
                }
            }
            _ => "{\"c\":\"rtcheck\"}".to_string(),
        }
    }

    /// A resolved callee: {"inst":id} or {"virtual"/"unresolved":path}.
    fn callee(&mut self, t: Ty<'tcx>) -> String {
        if let ty::FnDef(def, args) = *t.kind() {
            let def: DefId = def.into();
            let args = args.skip_binder();
            // Reference bodies for std's iterator drivers: `Trait::method` -> `model__Trait__method`.
            if !def.is_local() && !self.models.is_empty() {
                let full = self.tcx.def_path_str(def);
                let mut it = full.rsplit("::");
                let last = it.next().unwrap_or("").to_string();
                let prev = it.next().unwrap_or("").to_string();
                let prev = prev.split('<').next().unwrap_or("").to_string();
                let mut key = format!("model__{prev}__{last}");
                let mut args = args;
                if prev == "Iterator" || prev == "DoubleEndedIterator" {
                    if let ty::Adt(ad, aargs) = args.type_at(0).kind() {
                        let k2 = format!("model__{}__{last}", self.tcx.item_name(ad.did()));
                        if self.models.contains_key(&k2) {
                            key = k2;
                            args = aargs;
                        }
                    }
                }
                if let Some(m) = self.models.get(&key).copied() {
                    let want = self.tcx.generics_of(m).own_params.len();
                    let have: Vec<_> = args.iter().filter(|a| a.as_type().is_some()).collect();
                    if have.len() == want {
                        let margs = self.tcx.mk_args_from_iter(have.into_iter());
                        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, m, margs) {
                            let id = self.inst(i, None);
                            return format!("{{\"inst\":{id},\"decl\":{},\"model\":true}}", esc(&full));
                        }
                    }
                }
            }
            match Instance::try_resolve(self.tcx, self.env, def, args) {
                Ok(Some(i)) => {
                    let decl = esc(&self.tcx.def_path_str(def));
                    let id = self.inst(i, None);
                    return format!("{{\"inst\":{id},\"decl\":{decl}}}");
                }
                _ => {
                    return format!(
                        "{{\"unresolved\":{}}}",
                        esc(&self.tcx.def_path_str_with_args(def, args))
                    )
                }
            }
        }
        "{\"ptr\":true}".to_string()
    }

    fn rvalue(&mut self, me: Instance<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(me, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(me, body, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, *p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"copy\",{},{}]", m.is_mut(), self.place(body, *p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(me, body, o), ti)
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(me, body, &b.0);
                let c = self.operand(me, body, &b.1);
                format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), a, c)
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(me, body, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, *p)),
            Rvalue::Aggregate(k, fs) => {
                let t = r.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                let v = match &**k {
                    AggregateKind::Adt(_, v, _, _, _) => v.as_usize(),
                    _ => 0,
                };
                let mut fo = Vec::new();
                for f in fs.iter() {
                    fo.push(self.operand(me, body, f));
                }
                format!("[\"agg\",{},{},[{}]]", ti, v, join(&fo))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn dump_body(&mut self, me: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let locals: Vec<String> =
            body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = Vec::new();
        for d in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(d.name.as_str())));
                }
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut sts = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (_, line) = self.loc(s.source_info.span);
                        let p = self.place(body, b.0);
                        let r = self.rvalue(me, body, &b.1);
                        sts.push(format!("[\"=\",{},{},{}]", p, r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        sts.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            sts.push("[\"cno\"]".to_string());
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, line) = self.loc(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(me, body, discr);
                    let ds: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                        .collect();
                    format!("[\"switch\",{},[{}],{}]", o, join(&ds), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(body, *place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let c = match ft.kind() {
                        ty::FnDef(..) => self.callee(ft),
                        _ => format!("{{\"fnptr\":{}}}", self.operand(me, body, func)),
                    };
                    let mut av = Vec::new();
                    for a in args.iter() {
                        av.push(self.operand(me, body, &a.node));
                    }
                    let tg = target.map(|b| b.as_usize() as i64).unwrap_or(-1);
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        c,
                        join(&av),
                        self.place(body, *destination),
                        tg,
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[{},{}]", self.operand(me, body, len), self.operand(me, body, index))
                        }
                        _ => "[]".to_string(),
                    };
                    let o = self.operand(me, body, cond);
                    format!("[\"assert\",{},{},\"{}\",{},{},{}]", o, expected, k, target.as_usize(), extra, line)
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"unwind\"]".to_string()
                }
                k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
            };
            blocks.push(format!("[[{}],{},{},{}]", join(&sts), ts, line, bb.is_cleanup));
        }
        let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]",
            body.arg_count,
            spread,
            join(&locals),
            join(&names),
            join(&blocks)
        )
    }

    fn dump_inst(&mut self, id: usize, i: Instance<'tcx>, promoted: Option<usize>) {
        let tcx = self.tcx;
        let def = i.def_id();
        let path = tcx.def_path_str(def);
        let name = tcx.def_path_str_with_args(def, i.args);
        let krate = tcx.crate_name(def.krate).to_string();
        let (file, line) = self.loc(tcx.def_span(def));
        let mut targs = Vec::new();
        for a in i.args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(self.ty(t).to_string());
            }
        }
        let (kind, mut body_ok) = match i.def {
            InstanceKind::Item(_) => ("item", tcx.is_mir_available(def)),
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::LlvmIntrinsic(_) => ("intrinsic", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::ClosureOnce { .. } => ("shim_once", true),
                ty::ShimKind::FnPtr(..) => ("shim_fnptr", true),
                ty::ShimKind::Clone(..) => ("shim_clone", false),
                ty::ShimKind::Reify(..) => ("shim_reify", true),
                ty::ShimKind::DropGlue(..) => ("shim_drop", false),
                _ => ("shim_other", false),
            },
        };
        let is_closure = tcx.def_kind(def) == DefKind::Closure;
        let full = format!("{}::{}", krate, path);
        let stop = self.stopped(&path)
            || self.stopped(&full)
            || (def.is_local() && self.stop.iter().any(|s| file.ends_with(&format!("{s}.rs"))));
        if stop {
            body_ok = false;
        }
        // trait / impl facts for the callee
        let mut extra = String::new();
        if let Some(imp) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(extra, ",\"impl_self\":{}", esc(&format!("{st}")));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_trait\":{}", esc(&tcx.def_path_str(tr.def_id)));
                let derived = tcx.is_builtin_derived(imp);
                let _ = write!(extra, ",\"derived\":{}", derived);
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(extra, ",\"trait_default\":{}", esc(&tcx.def_path_str(tr)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            // a constructor used as a function builds the variant of its arguments
            let p = tcx.parent(def);
            let v = match tcx.def_kind(p) {
                DefKind::Variant => tcx.adt_def(tcx.parent(p)).variant_index_with_id(p).as_usize(),
                _ => 0,
            };
            let _ = write!(extra, ",\"ctor\":{v}");
        }
        if let Some(nm) = tcx.opt_item_name(def) {
            let _ = write!(extra, ",\"item\":{}", esc(nm.as_str()));
        }
        let body = if let Some(p) = promoted {
            if tcx.is_mir_available(def) {
                let b = &tcx.promoted_mir(def)[Promoted::from_usize(p)];
                let b = i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                Some(self.dump_body(i, &b))
            } else {
                None
            }
        } else if body_ok {
            let b = tcx.instance_mir(i.def);
            let b = i.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, b.clone()),
            );
            Some(self.dump_body(i, &b))
        } else {
            None
        };
        let b = match body {
            Some(b) => format!(",{b}"),
            None if stop && tcx.is_mir_available(def) => {
                let b = tcx.instance_mir(i.def);
                let b = i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    ty::EarlyBinder::bind(tcx, b.clone()),
                );
                let ls: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
                format!(",\"blocks\":null,\"argc\":{},\"locals\":[{}]", b.arg_count, join(&ls))
            }
            None => ",\"blocks\":null".to_string(),
        };
        self.inst_out[id] = format!(
            "{{\"id\":{id},\"path\":{},\"name\":{},\"krate\":{},\"kind\":\"{kind}\",\"closure\":{is_closure},\"stop\":{stop},\"promoted\":{},\"file\":{},\"line\":{line},\"targs\":[{}]{extra}{b}}}",
            esc(&path),
            esc(&name),
            esc(&krate),
            promoted.is_some(),
            esc(&file),
            join(&targs)
        );
    }
}

struct Dump {
    out: Option<String>,
    krate: String,
    stop: Vec<String>,
}

/// What a program that depends on a crate can name and call in it: one line per public item,
/// `path \t kind \t signature \t bounds`, and one per implemented trait.
fn api<'tcx>(tcx: TyCtxt<'tcx>, krates: &[String]) -> String {
    let mut out = Vec::new();
    for &cnum in tcx.crates(()) {
        let cn = tcx.crate_name(cnum);
        if !krates.iter().any(|k| k == cn.as_str()) {
            continue;
        }
        let mut todo = vec![(cn.to_string(), cnum.as_def_id())];
        let mut seen = Vec::new();
        while let Some((path, m)) = todo.pop() {
            if seen.contains(&m) {
                continue;
            }
            seen.push(m);
            for ch in tcx.module_children(m) {
                if !ch.vis.is_public() {
                    continue;
                }
                let rustc_hir::def::Res::Def(kind, def) = ch.res else { continue };
                let p = format!("{}::{}", path, ch.ident);
                match kind {
                    DefKind::Mod => {
                        todo.push((p.clone(), def));
                        out.push(format!("{p}\tmod\t\t"));
                    }
                    DefKind::Fn => out.push(format!("{p}\tfn\t{}\t{}", sig(tcx, def), bounds(tcx, def))),
                    DefKind::Trait => {
                        out.push(format!("{p}\ttrait\t\t{}", bounds(tcx, def)));
                        for it in tcx.associated_items(def).in_definition_order() {
                            item(tcx, &p, it, &mut out);
                        }
                    }
                    DefKind::Struct | DefKind::Enum | DefKind::Union => {
                        out.push(format!("{p}\t{}\t\t{}", tcx.def_descr(def), bounds(tcx, def)));
                        for v in tcx.adt_def(def).variants() {
                            for f in &v.fields {
                                if tcx.adt_def(def).is_enum() || f.vis.is_public() {
                                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                    out.push(format!("{p}::{}.{}\tfield\t{t:?}\t", v.name, f.name));
                                }
                            }
                        }
                        for &i in tcx.inherent_impls(def) {
                            for it in tcx.associated_items(i).in_definition_order() {
                                if tcx.visibility(it.def_id).is_public() {
                                    let q = format!("<{}>", tcx.type_of(i).instantiate_identity().skip_norm_wip());
                                    item(tcx, &q, it, &mut out);
                                }
                            }
                        }
                    }
                    DefKind::TyAlias => out.push(format!("{p}\ttype\t{}\t", tcx.type_of(def).instantiate_identity().skip_norm_wip())),
                    _ => out.push(format!("{p}\t{}\t\t", tcx.def_descr(def))),
                }
            }
        }
        for &i in tcx.trait_impls_in_crate(cnum) {
            let t = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            out.push(format!("{t:?}\timpl of {}\t\t{}", tcx.crate_name(tcx.impl_trait_id(i).krate), bounds(tcx, i)));
        }
    }
    out.sort();
    out.dedup();
    out.join("\n") + "\n"
}

fn item<'tcx>(tcx: TyCtxt<'tcx>, p: &str, it: &ty::AssocItem, out: &mut Vec<String>) {
    let n = format!("{p}::{}", it.name());
    match it.kind {
        ty::AssocKind::Fn { .. } => out.push(format!("{n}\tfn\t{}\t{}", sig(tcx, it.def_id), bounds(tcx, it.def_id))),
        _ => out.push(format!("{n}\titem\t\t")),
    }
}

fn sig<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    tcx.fn_sig(d).instantiate_identity().skip_norm_wip().to_string()
}

fn bounds<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let mut v: Vec<String> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.into_iter().map(|p| p.skip_norm_wip().to_string()).collect();
    v.sort();
    v.join(" + ")
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if let (Ok(k), Some(o)) = (std::env::var("MIRFACTS_API"), &self.out) {
            if name.as_str() == self.krate {
                let ks: Vec<String> = k.split(',').map(|s| s.to_string()).collect();
                let s = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(api(tcx, &ks)));
                std::fs::write(o, s).expect("write MIRFACTS_OUT");
            }
            return Compilation::Continue;
        }
        let out = match &self.out {
            Some(o) if name.as_str() == self.krate => o.clone(),
            _ => return Compilation::Continue,
        };
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            inst_out: vec![],
            queue: vec![],
            stop: self.stop.clone(),
            models: HashMap::new(),
        };
        for d in tcx.hir_crate_items(()).definitions() {
            let def = d.to_def_id();
            if tcx.def_kind(def) == DefKind::Fn {
                let nm = tcx.item_name(def);
                if nm.as_str().starts_with("model__") {
                    cx.models.insert(nm.to_string(), def);
                }
            }
        }
        let mut roots = Vec::new();
        for d in tcx.hir_crate_items(()).definitions() {
            let def = d.to_def_id();
            if tcx.def_kind(def) != DefKind::Fn {
                continue;
            }
            let nm = tcx.item_name(def);
            if !nm.as_str().starts_with("root_") || tcx.generics_of(def).requires_monomorphization(tcx) {
                continue;
            }
            let id = cx.inst(Instance::mono(tcx, def), None);
            roots.push(format!("{}:{}", esc(&tcx.def_path_str(def)), id));
        }
        while let Some((id, i, p)) = cx.queue.pop() {
            cx.dump_inst(id, i, p);
        }
        let s = format!(
            "{{\"roots\":{{{}}},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n]}}\n",
            join(&roots),
            cx.ty_out.join(",\n"),
            cx.inst_out.join(",\n")
        );
        std::fs::write(&out, s).expect("write MIRFACTS_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER we are called as `mirfacts rustc <args>`.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let stop = std::env::var("MIRFACTS_STOP")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut d = Dump {
        out: std::env::var("MIRFACTS_OUT").ok(),
        krate: std::env::var("MIRFACTS_CRATE").unwrap_or_default(),
        stop,
    };
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut d);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
