//! Effect scan of a crate: where it is unsafe, what its functions can return, and which crates the
//! bodies reach.  Works on the typed program, so it sees what the macro generated, however spelt.
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::TerminatorKind;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::fmt::Write;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, String, String)>,
    asm: Vec<Span>,
}

impl<'tcx> V<'tcx> {
    fn push(&mut self, what: &str, id: hir::HirId, sp: Span) {
        let owner = self.tcx.def_path_str(id.owner.to_def_id());
        self.found.push((what.into(), owner, self.tcx.sess.source_map().span_to_diagnostic_string(sp)));
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.push("unsafe block", b.hir_id, b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind {
            self.asm.push(e.span);
            self.push("inline assembly", e.hir_id, e.span);
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::ForeignMod { .. } => self.push("foreign items", i.hir_id(), i.span),
            hir::ItemKind::GlobalAsm { .. } => self.push("global assembly", i.hir_id(), i.span),
            hir::ItemKind::Static(m, ..) if m.is_mut() => self.push("static mut", i.hir_id(), i.span),
            hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    // the compiler's own derives may mark their impls
                    let builtin = i.span.ctxt().outer_expn_data().macro_def_id.map(|m| self.tcx.crate_name(m.krate).as_str() == "core").unwrap_or(false);
                    if t.safety.is_unsafe() && !builtin {
                        self.push("unsafe impl", i.hir_id(), i.span);
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn mentions<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, o: &mut BTreeSet<String>) {
    for a in t.walk() {
        if let ty::GenericArgKind::Type(x) = a.kind() {
            if let ty::Adt(d, _) = x.kind() {
                o.insert(tcx.def_path_str(d.did()));
            }
        }
    }
}

pub fn run(tcx: TyCtxt<'_>, out: &str) {
    let mut v = V { tcx, found: vec![], asm: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    let mut s = String::from("{\"unsafe\":[");
    let mut fns = String::new();
    let mut n = 0;
    for ld in tcx.iter_local_def_id() {
        let did = ld.to_def_id();
        let k = tcx.def_kind(did);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        if sig.safety().is_unsafe() {
            v.found.push(("unsafe fn".into(), tcx.def_path_str(did), tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(did))));
        }
        let mut rets = BTreeSet::new();
        mentions(tcx, sig.output(), &mut rets);
        let mut reach: BTreeSet<String> = BTreeSet::new();
        if tcx.is_mir_available(did) {
            let body = tcx.optimized_mir(did);
            for bb in body.basic_blocks.iter() {
                if let Some(t) = &bb.terminator {
                    if let TerminatorKind::Call { func, .. } = &t.kind {
                        if let ty::FnDef(f, _) = func.ty(&body.local_decls, tcx).kind() {
                            reach.insert(format!("{}|{}", tcx.crate_name(f.krate), tcx.def_path_str(*f)));
                        }
                    }
                }
            }
            for d in body.local_decls.iter() {
                let mut m = BTreeSet::new();
                mentions(tcx, d.ty, &mut m);
                for a in d.ty.walk() {
                    if let ty::GenericArgKind::Type(x) = a.kind() {
                        if let ty::Adt(d, _) = x.kind() {
                            reach.insert(format!("{}|type {}", tcx.crate_name(d.did().krate), tcx.def_path_str(d.did())));
                        }
                    }
                }
            }
        }
        let public = tcx.visibility(did).is_public();
        let list = |x: &BTreeSet<String>| x.iter().map(|r| format!("\"{}\"", esc(r))).collect::<Vec<_>>().join(",");
        if n > 0 {
            fns.push(',');
        }
        n += 1;
        write!(fns, "\n{{\"path\":\"{}\",\"public\":{},\"expanded\":{},\"returns\":[{}],\"reach\":[{}]}}", esc(&tcx.def_path_str(did)), public, tcx.def_span(did).from_expansion(), list(&rets), list(&reach)).unwrap();
    }
    for (i, (w, o, p)) in v.found.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "\n{{\"what\":\"{}\",\"in\":\"{}\",\"at\":\"{}\"}}", esc(w), esc(o), esc(p)).unwrap();
    }
    write!(s, "],\"items\":[").unwrap();
    let mut first = true;
    for ld in tcx.iter_local_def_id() {
        let did = ld.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::AssocConst { .. } | DefKind::Const { .. }) {
            write!(s, "{}\n{{\"path\":\"{}\",\"public\":{}}}", if first { "" } else { "," }, esc(&tcx.def_path_str(did)), tcx.visibility(did).is_public()).unwrap();
            first = false;
        }
    }
    write!(s, "],\"crates\":[").unwrap();
    for (i, c) in tcx.crates(()).iter().enumerate() {
        write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, tcx.crate_name(*c)).unwrap();
    }
    write!(s, "],\"fns\":[{fns}]}}").unwrap();
    std::fs::write(out, s).expect("scan output");
}
