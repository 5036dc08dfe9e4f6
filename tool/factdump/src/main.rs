// Fact extractor: a rustc driver that writes the type-checked, borrow-check-ready MIR of one crate
// (before drop elaboration and before the coroutine transform, so async bodies still carry Yield)
// together with resolved callees, types and ADT layouts, as JSON.  No code of the crate is run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;

struct Js(String);
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    bodies: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        // def_path_str gives user-facing paths (std::..., crate local without crate name)
        let k = self.tcx.crate_name(d.krate).to_string();
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        );
        if d.is_local() {
            format!("crate::{s}")
        } else {
            let _ = k;
            s
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = match t.kind() {
            TyKind::Adt(def, args) => {
                self.adt(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":[{}]}}", esc(&self.path(def.did())), a.join(","))
            }
            TyKind::Ref(_, x, m) => {
                let x = self.ty(*x);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            TyKind::RawPtr(x, m) => {
                let x = self.ty(*x);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            TyKind::Slice(x) => {
                let x = self.ty(*x);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            TyKind::Array(x, n) => {
                let x = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", x, n)
            }
            TyKind::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", a.join(","))
            }
            TyKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"n\":{}}}", esc(&self.path(*d))),
            TyKind::Coroutine(d, _) => format!("{{\"k\":\"coroutine\",\"n\":{}}}", esc(&self.path(*d))),
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let ts: Vec<String> = a.types().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"fndef\",\"n\":{},\"a\":[{}]}}", esc(&self.path(*d)), ts.join(","))
            }
            TyKind::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&p))
            }
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            _ => format!("{{\"k\":\"other\"}}"),
        };
        let disp = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut s2 = s;
        s2.pop();
        let _ = write!(s2, ",\"s\":{}}}", esc(&disp));
        self.ty_out[i] = s2;
        i
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, ());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
            } else {
                "0".into()
            };
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let vis = self.tcx.visibility(f.did).is_public();
                    let ti = if d.is_local() || def.is_enum() { self.ty(t) as i64 } else { -1 };
                    format!("[{},{},{}]", esc(f.name.as_str()), ti, vis)
                })
                .collect();
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let loc = if d.is_local() { self.span(self.tcx.def_span(d)) } else { "null".into() };
        self.adt_out.push(format!(
            "{}:{{\"k\":\"{}\",\"v\":[{}],\"loc\":{},\"local\":{}}}",
            esc(&self.path(d)), kind, vs.join(","), loc, d.is_local()
        ));
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().into_owned())
                .unwrap_or_default(),
            _ => String::new(),
        };
        let f = match f.rfind("src/") {
            Some(i) => f[i..].to_string(),
            None => f,
        };
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut pr = vec![];
        for (base, el) in p.iter_projections() {
            match el {
                ProjectionElem::Deref => pr.push("\"*\"".to_string()),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(&body.local_decls, self.tcx);
                    let name = match bt.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields.get(f).map(|x| x.name.to_string())
                        }
                        _ => None,
                    }
                    .unwrap_or_else(|| f.index().to_string());
                    pr.push(format!("{{\"f\":{},\"n\":{}}}", f.index(), esc(&name)));
                }
                ProjectionElem::Index(l) => pr.push(format!("{{\"i\":{}}}", l.index())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    pr.push(format!("{{\"ci\":{},\"e\":{}}}", offset, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(format!("{{\"ss\":[{},{},{}]}}", from, to, from_end))
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    pr.push(format!("{{\"v\":{},\"n\":{}}}", v.index(), esc(&nm)))
                }
                _ => {}
            }
        }
        format!("[{},[{}]]", p.local.index(), pr.join(","))
    }

    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut s = format!("\"fn\":{},\"ga\":[{}]", esc(&self.path(d)), ts.join(","));
        let tr = self.tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(t)));
        }
        let _ = write!(s, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
        // resolve
        let eargs = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, eargs) {
            let rd = inst.def_id();
            if rd != d {
                let _ = write!(s, ",\"res\":{}", esc(&self.path(rd)));
            }
            let k = match inst.def {
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Item(..) => "item",
                _ => "shim",
            };
            let _ = write!(s, ",\"ik\":\"{}\",\"loc\":{}", k, rd.is_local());
        } else {
            let _ = write!(s, ",\"ik\":\"unres\",\"loc\":{}", d.is_local());
        }
        s
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match t.kind() {
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let f = self.fnref(env, *d, a);
                return format!("{{\"ty\":{},{}}}", ti, f);
            }
            _ => {}
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"ty\":{},\"prom\":[{},{}]}}", ti, esc(&self.path(u.def)), p.index());
            }
            let _ = write!(extra, ",\"name\":{}", esc(&self.path(u.def)));
        }
        let ev = c.eval(self.tcx, env, rustc_span::DUMMY_SP);
        if let Ok(v) = ev {
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => {
                    let bits = si.to_bits(si.size());
                    let signed = matches!(t.kind(), TyKind::Int(_));
                    let s = if signed {
                        format!("{}", si.size().sign_extend(bits))
                    } else {
                        format!("{}", bits)
                    };
                    return format!("{{\"ty\":{},\"v\":{}{}}}", ti, s, extra);
                }
                ConstValue::ZeroSized => return format!("{{\"ty\":{},\"zst\":true{}}}", ti, extra),
                ConstValue::Slice { .. } | ConstValue::Scalar(_) | ConstValue::Indirect { .. } => {
                    let is_slice = match t.kind() { TyKind::Ref(_, x, _) => x.is_str() || matches!(x.kind(), TyKind::Slice(e) if *e == self.tcx.types.u8), _ => false };
                    if let Some(b) = if is_slice { v.try_get_slice_bytes_for_diagnostics(self.tcx) } else { None } {
                        let s = String::from_utf8_lossy(b);
                        return format!("{{\"ty\":{},\"str\":{}{}}}", ti, esc(&s), extra);
                    }
                    // &[u8; N]
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                            self.tcx.global_alloc(prov.alloc_id())
                        {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() {
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    off.bytes_usize()..a.len(),
                                );
                                let l: Vec<String> = bytes.iter().map(|b| b.to_string()).collect();
                                return format!("{{\"ty\":{},\"bytes\":[{}]{}}}", ti, l.join(","), extra);
                            }
                        }
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                            self.tcx.global_alloc(alloc_id)
                        {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() {
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    offset.bytes_usize()..a.len(),
                                );
                                let l: Vec<String> = bytes.iter().map(|b| b.to_string()).collect();
                                return format!("{{\"ty\":{},\"bytes\":[{}]{}}}", ti, l.join(","), extra);
                            }
                        }
                    }
                }
            }
        }
        format!("{{\"ty\":{}{}}}", ti, extra)
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(env, &c.const_)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":{\"ty\":0}}".into(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, env, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(body, *p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ft = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(ft);
                format!("[\"cast\",{},{},{},{}]", self.operand(body, env, o), ti, esc(&format!("{k:?}")), fi)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(body, env, &b.0),
                self.operand(body, env, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, *p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        self.adt(*d);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        format!("{{\"k\":\"adt\",\"n\":{},\"v\":{},\"vn\":{}}}", esc(&self.path(*d)), v.index(), esc(&vn))
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"n\":{}}}", esc(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) => {
                        format!("{{\"k\":\"coroutine\",\"n\":{}}}", esc(&self.path(*d)))
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("{{\"k\":\"closure\",\"n\":{}}}", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, *p)),
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, def: LocalDefId, prom: Option<usize>, body: &Body<'tcx>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def.to_def_id());
        let env = {
            let _ = env;
            TypingEnv::non_body_analysis(tcx, def.to_def_id())
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.index()) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(body, *p);
                        let rv = self.rvalue(body, env, r);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, **place);
                        st.push(format!("[\"setd\",{},{}]", pl, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = data.terminator();
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, env, discr);
                    let tt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(tt);
                    let tg: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", d, tg.join(","), targets.otherwise().index(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(body, *place), target.index(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let d = self.place(body, *destination);
                    let tg = target.map(|x| x.index().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, tg, line)
                }
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    let c = self.operand(body, env, cond);
                    format!("[\"assert\",{},{},{}]", c, expected, target.index())
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    let p = self.place(body, *resume_arg);
                    format!("[\"yield\",{},{}]", resume.index(), p)
                }
                _ => "[\"unreach\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"c\":{},\"l\":{}}}", st.join(","), ts, data.is_cleanup, line));
        }
        let kind = match tcx.def_kind(def) {
            DefKind::Closure => {
                if tcx.is_coroutine(def.to_def_id()) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let mut extra = String::new();
        if matches!(tcx.def_kind(def), DefKind::AssocFn) {
            if let Some(impl_did) = tcx.impl_of_assoc(def.to_def_id()) {
                let st = tcx.type_of(impl_did).instantiate_identity().skip_norm_wip();
                let si = self.ty(st);
                let _ = write!(extra, ",\"self_ty\":{}", si);
                if let Some(tr) = tcx.impl_opt_trait_ref(impl_did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                }
            }
            let _ = write!(extra, ",\"name\":{}", esc(tcx.item_name(def.to_def_id()).as_str()));
        } else if matches!(tcx.def_kind(def), DefKind::Fn) {
            let _ = write!(extra, ",\"name\":{}", esc(tcx.item_name(def.to_def_id()).as_str()));
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(def.to_def_id());
            let _ = write!(extra, ",\"pub\":{},\"async\":{}", vis.is_public(), tcx.asyncness(def).is_async());
        }
        if matches!(tcx.def_kind(def), DefKind::Closure) {
            let up: Vec<String> = tcx
                .closure_captures(def)
                .iter()
                .map(|c| {
                    let by_ref = matches!(c.info.capture_kind, ty::UpvarCapture::ByRef(_));
                    format!("[{},{}]", esc(c.to_symbol().as_str()), by_ref)
                })
                .collect();
            let _ = write!(extra, ",\"upvars\":[{}]", up.join(","));
            let par = tcx.typeck_root_def_id(def.to_def_id());
            let _ = write!(extra, ",\"root\":{}", esc(&self.path(par)));
        }
        let mut p = self.path(def.to_def_id());
        if let Some(i) = prom {
            let _ = write!(p, "::promoted[{i}]");
        }
        let sp = self.span(tcx.def_span(def));
        self.bodies.push(format!(
            "{{\"p\":{},\"k\":\"{}\",\"loc\":{},\"argc\":{},\"locals\":[{}],\"b\":[{}]{}}}",
            esc(&p), kind, sp, body.arg_count, locals.join(","), blocks.join(","), extra
        ));
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![], bodies: vec![] };
        let mut clones = vec![];
        let mut missing = vec![];
        for def in tcx.hir_body_owners() {
            let dk = tcx.def_kind(def);
            if matches!(dk, DefKind::AnonConst | DefKind::Ctor(..)) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            if b.is_stolen() || p.is_stolen() {
                missing.push(def);
                continue;
            }
            clones.push((def, b.borrow().clone(), p.borrow().clone()));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Stop;
        }
        for (def, b, p) in &clones {
            d.body(*def, None, b);
            for (i, pb) in p.iter_enumerated() {
                d.body(*def, Some(i.index()), pb);
            }
        }
        for def in &missing {
            let dk = tcx.def_kind(*def);
            if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let b = tcx.mir_for_ctfe(def.to_def_id()).clone();
                d.body(*def, None, &b);
            } else {
                let b = tcx.optimized_mir(def.to_def_id()).clone();
                d.body(*def, None, &b);
            }
        }
        // trait impls of this crate
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for id in ids {
                let st = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                let si = d.ty(st);
                let items: Vec<String> = tcx
                    .associated_items(id.to_def_id())
                    .in_definition_order()
                    .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                    .map(|i| format!("[{},{}]", esc(i.name().as_str()), esc(&d.path(i.def_id))))
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"fns\":[{}]}}",
                    esc(&d.path(*tr)), si, items.join(",")
                ));
            }
        }
        let mut js = Js(String::new());
        let _ = write!(
            js.0,
            "{{\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\n\"bodies\":[\n{}\n]}}",
            d.ty_out.join(","),
            d.adt_out.join(",\n"),
            impls.join(",\n"),
            d.bodies.join(",\n")
        );
        let tmp = format!("{}.tmp.{}", self.out, std::process::id());
        std::fs::write(&tmp, js.0).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // invoked as: factdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("FACTDUMP_CRATE").unwrap_or("tonbo".into());
    let out = std::env::var("FACTDUMP_OUT").ok();
    if crate_name.as_deref() == Some(want.as_str()) && out.is_some() {
        let mut cb = Cb { out: out.unwrap() };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
