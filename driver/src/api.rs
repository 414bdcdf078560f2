//! rustc driver that lists the public interface of the crate under compilation, one item per line.
//! It is used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::BTreeSet;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, TyCtxt};

struct Api;

fn bounds(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut v: Vec<String> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.into_iter().map(|p| p.skip_norm_wip().to_string()).collect();
    v.sort();
    v.join(" + ")
}

fn generics(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.generics_of(d).own_params.iter().map(|p| p.name.to_string()).collect::<Vec<_>>().join(",")
}

impl Api {
    fn item(&self, tcx: TyCtxt<'_>, id: LocalDefId, out: &mut BTreeSet<String>) {
        let d = id.to_def_id();
        let vis = tcx.effective_visibilities(());
        let p = tcx.def_path_str(d);
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                // a method of a trait implementation is part of the implementation
                if let Some(i) = tcx.impl_of_assoc(d) {
                    if tcx.impl_opt_trait_ref(i).is_some() || !vis.is_reachable(id) {
                        return;
                    }
                    if let Some(a) = tcx.type_of(i).instantiate_identity().skip_norm_wip().ty_adt_def() {
                        if let Some(l) = a.did().as_local() {
                            if !vis.is_reachable(l) {
                                return;
                            }
                        }
                    }
                } else if !vis.is_reachable(id) {
                    return;
                }
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let provided = tcx.trait_of_assoc(d).is_some() && tcx.defaultness(d).has_value();
                out.insert(format!("fn {p}<{}> {} where {} async={} provided={provided}", generics(tcx, d), sig, bounds(tcx, d), tcx.asyncness(d).is_async()));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if !vis.is_reachable(id) {
                    return;
                }
                let a = tcx.adt_def(d);
                out.insert(format!("{:?} {p}<{}> where {}", tcx.def_kind(d), generics(tcx, d), bounds(tcx, d)));
                let open = a.is_struct() && a.all_fields().all(|f| f.vis.is_public());
                if a.is_enum() && !a.is_variant_list_non_exhaustive() {
                    out.insert(format!("variants {p} = {}", a.variants().iter().map(|v| v.name.to_string()).collect::<Vec<_>>().join(",")));
                }
                if open {
                    out.insert(format!("fields {p} = {}", a.all_fields().map(|f| f.name.to_string()).collect::<Vec<_>>().join(",")));
                }
                for v in a.variants() {
                    for f in &v.fields {
                        if f.vis.is_public() || a.is_enum() {
                            out.insert(format!("field {p}::{}.{}: {}", v.name, f.name, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()));
                        }
                    }
                }
            }
            DefKind::Trait => {
                if !vis.is_reachable(id) {
                    return;
                }
                let req: Vec<String> = tcx.associated_items(d).in_definition_order().filter(|i| !tcx.defaultness(i.def_id).has_value()).filter_map(|i| i.opt_name().map(|n| n.to_string())).collect();
                out.insert(format!("trait {p}<{}> where {} required {}", generics(tcx, d), bounds(tcx, d), req.join(",")));
            }
            DefKind::TyAlias | DefKind::Const { .. } | DefKind::Static { .. } => {
                if vis.is_reachable(id) {
                    out.insert(format!("{:?} {p}: {}", tcx.def_kind(d), tcx.type_of(d).instantiate_identity().skip_norm_wip()));
                }
            }
            DefKind::Impl { of_trait: true } => {
                let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let hidden = |x: DefId| x.as_local().is_some_and(|l| !vis.is_reachable(l));
                if hidden(t.def_id) || t.self_ty().ty_adt_def().is_some_and(|a| hidden(a.did())) {
                    return;
                }
                out.insert(format!("impl {:?} {} for {} where {}", tcx.impl_polarity(d), t, t.self_ty(), bounds(tcx, d)));
                for i in tcx.associated_items(d).in_definition_order() {
                    if matches!(i.kind, ty::AssocKind::Type { .. }) && i.opt_name().is_some() {
                        out.insert(format!("type {}::{} = {}", t, i.name(), tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip()));
                    }
                }
            }
            DefKind::Mod => {
                if vis.is_reachable(id) {
                    for c in tcx.module_children_local(id) {
                        if c.vis.is_public() {
                            if let Some(x) = c.res.opt_def_id() {
                                out.insert(format!("path {p}::{} = {}", c.ident, tcx.def_path_str(x)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

impl Callbacks for Api {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("API_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut out = BTreeSet::new();
        with_no_visible_paths!(with_no_trimmed_paths!({
            for id in tcx.hir_crate_items(()).definitions() {
                self.item(tcx, id, &mut out);
            }
        }));
        let _ = std::fs::write(format!("{dir}/{name}.api"), out.into_iter().collect::<Vec<_>>().join("\n") + "\n");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Api))
}
