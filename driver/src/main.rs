//! rustc driver that dumps the type-checked MIR of the crate under compilation as JSON.
//! It is used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
#![feature(rustc_private)]
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::OnceLock;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    /// non-local bodies that the dumped ones call and that are worth inlining
    wanted: Vec<DefId>,
    seen: HashMap<DefId, ()>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified and stable: def_path_str hides the local crate's name
        let p = self.tcx.def_path_str(d);
        if d.is_local() && !p.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let a = self.tcx.adt_def(d);
        let mut vs = Vec::new();
        for (i, v) in a.variants().iter_enumerated() {
            let fs: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
            let discr = if a.is_enum() {
                a.discriminant_for_variant(self.tcx, i).val.to_string()
            } else {
                "0".into()
            };
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(v.name.as_str()), js(&discr), fs.join(",")));
        }
        let p = self.path(d);
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        self.adt_out.push(format!("{}:{{\"k\":\"{}\",\"local\":{},\"v\":[{}]}}", js(&p), kind, d.is_local(), vs.join(",")));
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_out.push(String::new());
        self.tys.insert(t, i);
        let s = js(&t.to_string());
        let o = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(x) => format!("\"k\":\"int\",\"w\":{}", x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("\"k\":\"uint\",\"w\":{}", x.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(a, args) => {
                self.adt(a.did());
                let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"adt\",\"d\":{},\"a\":[{}]", js(&self.path(a.did())), ts.join(","))
            }
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(x)),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(x)),
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(x)),
            ty::Array(x, n) => format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(x), js(&n.to_string())),
            ty::Tuple(xs) => {
                let ts: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":[{}]", ts.join(","))
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"d\":{}", js(&self.path(d))),
            ty::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"d\":{}", js(&self.path(d))),
            ty::CoroutineClosure(d, _) => format!("\"k\":\"cclosure\",\"d\":{}", js(&self.path(d))),
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"d\":{}", js(&self.path(d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", s, o);
        i
    }
    fn span(&self, s: Span) -> String {
        // the outermost call site within the crate's own source
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}", lo.line)
    }
    fn from_macro(&self, s: Span) -> Option<String> {
        if !s.from_expansion() {
            return None;
        }
        let mut names = Vec::new();
        for e in s.macro_backtrace() {
            names.push(e.kind.descr().to_string());
        }
        Some(names.join("<"))
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) if !a.is_union() => {
                            let v = match pt.variant_index {
                                Some(i) => a.variant(i),
                                None if a.is_struct() => a.non_enum_variant(),
                                None => a.variant(rustc_abi::FIRST_VARIANT),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            self.tcx.closure_saved_names_of_captured_variables(*d)
                                .get(f).map(|s| s.to_string()).unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.as_usize(), js(&name))
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_usize(), js(&n.map(|s| s.to_string()).unwrap_or_default()))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("[{},[{}],{}]", p.local.as_usize(), out.join(","), t)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            return format!("{{\"k\":\"fn\",\"t\":{},{}}}", ti, self.callee(d, args.skip_binder(), env));
        }
        let mut v = String::new();
        if let Some(d) = match c.const_ {
            Const::Unevaluated(u, _) => Some(u.def),
            Const::Ty(_, k) => match k.kind() { _ => None },
            _ => None,
        } {
            let _ = write!(v, ",\"def\":{}", js(&self.path(d)));
        }
        // Value: scalars and strings
        let may_eval = match c.const_ { Const::Unevaluated(u, _) => !u.args.has_param() , Const::Ty(_, k) => !k.has_param(), Const::Val(..) => true };
        if may_eval {
            if let Ok(val) = c.const_.eval(self.tcx, env, c.span) {
                match val {
                    ConstValue::Scalar(s) => {
                        if let Some(i) = s.try_to_scalar_int().ok() {
                            let n = if let ty::Int(_) = t.kind() {
                                i.to_int(i.size()).to_string()
                            } else {
                                i.to_bits(i.size()).to_string()
                            };
                            let _ = write!(v, ",\"v\":{}", js(&n));
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            let _ = write!(v, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                    ConstValue::ZeroSized => v.push_str(",\"zst\":true"),
                    _ => {}
                }
            }
        }
        let disp = format!("{}", c.const_);
        format!("{{\"k\":\"const\",\"t\":{},\"d\":{}{}}}", ti, js(&disp), v)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"p\":{}", js(&self.path(d)));
        let _ = write!(o, ",\"full\":{}", js(&tcx.def_path_str_with_args(d, args)));
        let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, ",\"ta\":[{}]", ts.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{},\"m\":{}", js(&self.path(tr)), js(tcx.item_name(d).as_str()));
            if args.len() > 0 && args.types().next().is_some() {
                let st = args.type_at(0);
                let si = self.ty(st);
                let _ = write!(o, ",\"self\":{}", si);
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let si = self.ty(st);
            let _ = write!(o, ",\"m\":{},\"self\":{}", js(tcx.item_name(d).as_str()), si);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let _ = write!(o, ",\"itr\":{}", js(&self.path(tr.skip_binder().def_id)));
            }
        }
        if !args.has_escaping_bound_vars() {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let _ = write!(o, ",\"r\":{},\"rk\":\"{}\",\"rl\":{}", js(&self.path(rd)), kind, rd.is_local());
                if kind == "item" && !rd.is_local() && self.want(rd) {
                    self.wanted.push(rd);
                }
            }
        }
        o
    }
    fn want(&self, d: DefId) -> bool {
        let cn = self.tcx.crate_name(d.krate);
        if cn.as_str() != "core" && cn.as_str() != "alloc" {
            return false;
        }
        let p = self.tcx.def_path_str(d);
        ["std::option::", "core::option::", "std::result::", "core::result::", "std::ops::ControlFlow", "core::ops::control_flow", "<std::option::Option", "<std::result::Result",
         "std::task::Poll", "<std::task::Poll", "std::ops::Range", "<std::ops::Range", "core::bool", "std::cmp", "std::ops::Try", "<std::ops::ControlFlow"]
            .iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(c, env),
            _ => "{\"k\":\"other\"}".into(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(body, o, env), js(&n.to_string())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", !matches!(k, BorrowKind::Shared | BorrowKind::Fake(_)), self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(body, o, env), ti)
            }
            Rvalue::BinaryOp(op, ab) => format!("[\"bin\",{},{},{}]", js(&format!("{op:?}")), self.operand(body, &ab.0, env), self.operand(body, &ab.1, env)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(body, a, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, fs) => {
                let ks = match **k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(d);
                        let a = self.tcx.adt_def(d);
                        let names: Vec<String> = a.variant(v).fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!("{{\"k\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"enum\":{},\"f\":[{}]}}", js(&self.path(d)), v.as_usize(), js(a.variant(v).name.as_str()), a.is_enum(), names.join(","))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let names: Vec<String> = self.tcx.closure_saved_names_of_captured_variables(d).iter().map(|s| js(s.as_str())).collect();
                        let kk = if matches!(**k, AggregateKind::Closure(..)) { "closure" } else { "coroutine" };
                        format!("{{\"k\":\"{}\",\"d\":{},\"f\":[{}]}}", kk, js(&self.path(d)), names.join(","))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                let f: Vec<String> = fs.iter().map(|o| self.operand(body, o, env)).collect();
                format!("[\"agg\",{},[{}]]", ks, f.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"copy\",\"p\":{}}}]", self.place(body, p)),
            _ => format!("[\"other\",{}]", js(&format!("{r:?}"))),
        }
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>, out: &mut Vec<String>) {
        let tcx = self.tcx;
        let env = ty::TypingEnv::non_body_analysis(tcx, d);
        let mut o = String::new();
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(body.span.lo());
        let file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let kind = format!("{:?}", tcx.def_kind(d));
        let _ = write!(o, "{{\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"argc\":{}", js(&self.path(d)), js(&kind), js(&file), lo.line, body.arg_count);
        let is_co = tcx.coroutine_kind(d).is_some();
        let _ = write!(o, ",\"coroutine\":{}", is_co);
        let root = tcx.typeck_root_def_id(d);
        if root != d {
            let _ = write!(o, ",\"parent\":{}", js(&self.path(tcx.parent(d))));
        }
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            let _ = write!(o, ",\"name\":{}", js(tcx.item_name(d).as_str()));
        }
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let _ = write!(o, ",\"impl_trait\":{}", js(&self.path(tr.skip_binder().def_id)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(root) {
            let _ = write!(o, ",\"in_trait\":{}", js(&self.path(tr)));
        }
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut ls = Vec::new();
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            ls.push(match names.get(&i.as_usize()) {
                Some(n) => format!("[{},{}]", t, js(n)),
                None => format!("[{}]", t),
            });
        }
        let _ = write!(o, ",\"locals\":[{}],\"blocks\":[", ls.join(","));
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let mut ss = Vec::new();
            for s in &b.statements {
                let line = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, &pr.0);
                        let r = self.rvalue(body, &pr.1, env);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), line));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let line = self.span(t.source_info.span);
            let mac = self.from_macro(t.source_info.span).map(|m| format!(",\"mac\":{}", js(&m))).unwrap_or_default();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(body, discr, env);
                    let ty = discr.ty(body, tcx);
                    let vs: Vec<String> = targets.iter().map(|(v, b)| {
                        let v = if let ty::Int(it) = ty.kind() {
                            let w = it.bit_width().unwrap_or(64) as u32;
                            let sh = 128 - w;
                            (((v << sh) as i128) >> sh).to_string()
                        } else { v.to_string() };
                        format!("[{},{}]", js(&v), b.as_usize())
                    }).collect();
                    format!("{{\"k\":\"switch\",\"o\":{},\"c\":[{}],\"d\":{}", op, vs.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"".into(),
                TerminatorKind::Return => "{\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"k\":\"drop\",\"p\":{},\"t\":{}", self.place(body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    format!("{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"p\":{},\"t\":{}", f, a.join(","), self.place(body, destination),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::TailCall { .. } => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", std::mem::discriminant(&**msg));
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        _ => format!("other:{m}"),
                    };
                    let ex = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(",\"len\":{},\"idx\":{}", self.operand(body, len, env), self.operand(body, index, env)),
                        _ => String::new(),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{}{},\"t\":{}", self.operand(body, cond, env), expected, js(&mk), ex, target.as_usize())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("{{\"k\":\"yield\",\"v\":{},\"t\":{},\"ra\":{}", self.operand(body, value, env), resume.as_usize(), self.place(body, resume_arg))
                }
                TerminatorKind::CoroutineDrop => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"unreachable\"".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"l\":{}{}}},\"cl\":{}}}", ss.join(","), ts, line, mac, b.is_cleanup);
        }
        o.push_str("]}");
        out.push(o);
    }
}

type Built = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIGINAL: OnceLock<Built> = OnceLock::new();
thread_local! {
    // later stages may take the body of a coroutine before it is visited below (to see what it
    // holds across its suspension points), so every body is copied when it is built
    static BUILT: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let r = ORIGINAL.get().unwrap()(tcx, d);
    let copy = r.borrow().clone();
    // only used while the type context is alive
    let copy = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(copy) };
    BUILT.with(|b| b.borrow_mut().insert(d, copy));
    r
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_, providers| {
            let _ = ORIGINAL.set(providers.queries.mir_built);
            providers.queries.mir_built = mir_built;
        });
    }

    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        if !["stream_download", "stream_download_opendal"].contains(&name.as_str()) {
            return Compilation::Continue;
        }
        let mut d = Dump { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_out: vec![], wanted: vec![], seen: HashMap::new() };
        let mut out = Vec::new();
        let mut skipped = Vec::new();
        let mut todo = Vec::new();
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let k = tcx.def_kind(did);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            let _ = tcx.mir_built(ld);
            let Some(body) = BUILT.with(|b| b.borrow_mut().remove(&ld)) else {
                skipped.push(js(&d.path(did)));
                continue;
            };
            todo.push((did, unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(body) }));
        }
        for (did, body) in &todo {
            d.body(*did, body, &mut out);
        }
        let mut ext = Vec::new();
        while let Some(x) = d.wanted.pop() {
            if d.seen.insert(x, ()).is_some() || d.seen.len() > 400 {
                continue;
            }
            let body = tcx.optimized_mir(x);
            d.body(x, body, &mut ext);
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"types\":[{}],\"adts\":{{{}}},\"bodies\":[{}],\"ext\":[{}],\"skipped\":[{}]}}",
            js(&name), d.ty_out.join(","), d.adt_out.join(","), out.join(",\n"), ext.join(",\n"), skipped.join(","));
        std::fs::create_dir_all(&dir).unwrap();
        let f = format!("{dir}/{name}.json");
        std::fs::write(format!("{f}.tmp"), s).unwrap();
        std::fs::rename(format!("{f}.tmp"), f).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
