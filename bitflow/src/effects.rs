//! What the bodies of a crate can depend on besides their arguments: mutable statics, thread locals,
//! the environment, files, clocks, randomness, addresses, source positions, foreign code, and the
//! order in which a hash table is walked.  Works on the typed program (MIR of every function and
//! closure of the crate).
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, CastKind, Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::fmt::Write;

fn adts<'tcx>(t: Ty<'tcx>) -> Vec<DefId> {
    let mut v = vec![];
    for a in t.walk() {
        if let ty::GenericArgKind::Type(x) = a.kind() {
            if let ty::Adt(d, _) = x.kind() {
                v.push(d.did());
            }
        }
    }
    v
}

struct W<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, String, String)>,
    calls: usize,
    bodies: usize,
    walks: usize,
}

const ITERS: [&str; 16] = [
    "Iter", "IterMut", "IntoIter", "Keys", "IntoKeys", "Values", "ValuesMut", "IntoValues", "Drain", "ExtractIf", "Intersection", "Union", "Difference",
    "SymmetricDifference", "OccupiedError", "RawIter",
];

impl<'tcx> W<'tcx> {
    /// the item's path in the crate that defines it
    fn path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn is_table(&self, d: DefId) -> bool {
        let n = self.tcx.item_name(d);
        (n.as_str() == "HashMap" || n.as_str() == "HashSet") && !d.is_local()
    }
    fn is_walk(&self, d: DefId) -> bool {
        let p = self.path(d);
        (p.contains("::hash::map::") || p.contains("::hash::set::") || p.contains("hash_map::") || p.contains("hash_set::") || p.starts_with("hashbrown::"))
            && ITERS.iter().any(|i| p.ends_with(&format!("::{i}")))
    }
    fn has_walk(&self, t: Ty<'tcx>) -> bool {
        adts(t).iter().any(|d| self.is_walk(*d))
    }
    fn table(&self, t: Ty<'tcx>) -> bool {
        let mut t = t;
        while let ty::Ref(_, x, _) = t.kind() {
            t = *x;
        }
        matches!(t.kind(), ty::Adt(d, _) if self.is_table(d.did()))
    }
    /// the value does not show the order its elements came in
    fn unordered(&self, t: Ty<'tcx>) -> bool {
        let mut t = t;
        while let ty::Ref(_, x, _) = t.kind() {
            t = *x;
        }
        match t.kind() {
            ty::Adt(d, args) => {
                let n = self.tcx.item_name(d.did());
                match n.as_str() {
                    "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "BinaryHeap" => true,
                    "Result" | "Option" => args.types().next().map(|x| self.unordered(x)).unwrap_or(false),
                    _ => false,
                }
            }
            ty::Tuple(ts) => ts.iter().all(|x| self.unordered(x)),
            ty::Bool | ty::Uint(_) | ty::Int(_) => false,
            _ => false,
        }
    }
    fn note(&mut self, what: String, d: DefId, sp: rustc_span::Span) {
        let at = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
        let p = self.tcx.def_path_str(d);
        self.out.push((what, p, at));
    }

    fn body(&mut self, d: DefId, b: &'tcx mir::Body<'tcx>) {
        self.bodies += 1;
        let tcx = self.tcx;
        // element types that the body sorts
        let mut sorted: Vec<Ty<'tcx>> = vec![];
        for bb in b.basic_blocks.iter() {
            if let Some(t) = &bb.terminator {
                if let TerminatorKind::Call { func, .. } = &t.kind {
                    if let ty::FnDef(f, a) = func.ty(&b.local_decls, tcx).kind() {
                        if tcx.opt_item_name(*f).map(|n| n.as_str().starts_with("sort")).unwrap_or(false) {
                            sorted.extend(a.skip_binder().types().next());
                        }
                    }
                }
            }
        }
        for bb in b.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    match &x.1 {
                        Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => self.note("turns an address into a number".into(), d, s.source_info.span),
                        Rvalue::ThreadLocalRef(_) => self.note("reads a thread local".into(), d, s.source_info.span),
                        _ => {}
                    }
                }
            }
            let Some(t) = &bb.terminator else { continue };
            let sp = t.source_info.span;
            match &t.kind {
                TerminatorKind::InlineAsm { .. } => self.note("inline assembly".into(), d, sp),
                TerminatorKind::Call { func, args, destination, .. } => {
                    self.calls += 1;
                    if let ty::FnDef(f, ga) = func.ty(&b.local_decls, tcx).kind() {
                        let at: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(&b.local_decls, tcx)).collect();
                        let rt = destination.ty(&b.local_decls, tcx).ty;
                        self.call(d, *f, ga.skip_binder(), &at, rt, sp, &sorted);
                        for a in args.iter() {
                            if let Operand::Constant(c) = &a.node {
                                self.value(d, c.ty(), sp);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // functions named as values
        for c in b.required_consts() {
            self.value(d, c.const_.ty(), c.span);
        }
    }

    fn value(&mut self, d: DefId, t: Ty<'tcx>, sp: rustc_span::Span) {
        if let ty::FnDef(f, _) = t.kind() {
            if let Some(w) = self.denied(*f, &[]) {
                self.note(w, d, sp);
            }
        }
    }

    fn denied(&self, f: DefId, ga: &[Ty<'tcx>]) -> Option<String> {
        if f.is_local() && !self.tcx.is_foreign_item(f) {
            return None;
        }
        if self.tcx.is_foreign_item(f) {
            return Some(format!("calls foreign code: {}", self.path(f)));
        }
        let p = self.path(f);
        let recv = self.tcx.opt_parent(f).filter(|x| matches!(self.tcx.def_kind(*x), DefKind::Impl { .. })).map(|i| self.tcx.type_of(i).instantiate_identity().skip_norm_wip().to_string()).unwrap_or_default();
        let full = format!("{p} {recv}");
        let krate = p.split("::").next().unwrap_or("");
        let module = p.split("::").nth(1).unwrap_or("");
        let name = self.tcx.opt_item_name(f).map(|n| n.to_string()).unwrap_or_default();
        if krate == "std" {
            match module {
                "env" => return Some(format!("reads the environment: {p}")),
                "fs" | "net" | "os" => return Some(format!("reaches outside the compiler: {p}")),
                "process" => return Some(format!("reaches outside the compiler: {p}")),
                "time" => return Some(format!("reads a clock: {p}")),
                "thread" => return Some(format!("uses threads or thread locals: {p}")),
                "random" => return Some(format!("draws random numbers: {p}")),
                "path" if matches!(name.as_str(), "exists" | "try_exists" | "metadata" | "symlink_metadata" | "canonicalize" | "read_link" | "read_dir" | "is_file" | "is_dir" | "is_symlink") => {
                    return Some(format!("reaches outside the compiler: {p}"))
                }
                "hash" if p.contains("::random::") && !recv.contains("DefaultHasher") => return Some(format!("draws random numbers: {p}")),
                "io" if p.contains("stdin") || recv.contains("Stdin") => return Some(format!("reads standard input: {p}")),
                _ => {}
            }
        }
        if full.contains("RandomState") && (name == "new" || name == "hash_one" || name == "build_hasher") {
            return Some(format!("draws random numbers: {p}"));
        }
        if (name == "hash_one" || name == "build_hasher") && ga.iter().any(|t| t.to_string().contains("RandomState")) {
            return Some("draws random numbers: a randomly seeded hash".to_string());
        }
        if full.contains("SystemTime") || full.contains("Instant") {
            return Some(format!("reads a clock: {p}"));
        }
        if (krate == "proc_macro" || krate == "proc_macro2") && (recv.ends_with("Span") || recv.ends_with("SourceFile") || recv.ends_with("LineColumn") || full.contains("tracked")) {
            if matches!(
                name.as_str(),
                "start" | "end" | "line" | "column" | "source_text" | "file" | "local_file" | "byte_range" | "source_file" | "path" | "var" | "save_span" | "recover_proc_macro_span"
            ) {
                return Some(format!("reads where the definition stands: {p}"));
            }
        }
        if name == "new_pointer" && p.contains("::fmt::") {
            return Some("prints an address".into());
        }
        if name == "addr" || name == "expose_provenance" {
            if p.contains("::ptr::") {
                return Some("turns an address into a number".into());
            }
        }
        None
    }

    fn call(&mut self, d: DefId, f: DefId, ga: ty::GenericArgsRef<'tcx>, args: &[Ty<'tcx>], ret: Ty<'tcx>, sp: rustc_span::Span, sorted: &[Ty<'tcx>]) {
        let tys: Vec<Ty<'tcx>> = ga.types().collect();
        if let Some(w) = self.denied(f, &tys) {
            self.note(w, d, sp);
            return;
        }
        let name = self.tcx.opt_item_name(f).map(|n| n.to_string()).unwrap_or_default();
        let p = self.path(f);
        // one-time cells must be filled by something that captures nothing
        if p.contains("::once_lock::") || p.contains("::once::") || p.contains("cell::once") {
            let captures = tys.iter().any(|t| match t.kind() {
                ty::Closure(_, a) => a.as_closure().upvar_tys().len() > 0,
                _ => false,
            });
            if name == "set" || name == "try_insert" || captures {
                self.note(format!("keeps state from one definition to the next: {p}"), d, sp);
            }
        }
        if name == "new_debug" && p.contains("::fmt::") && tys.iter().any(|t| adts(*t).iter().any(|x| self.is_table(*x))) {
            self.note("prints a hash table in the order it is walked".into(), d, sp);
        }
        if name == "new_debug" && p.contains("::fmt::") && tys.iter().any(|t| adts(*t).iter().any(|x| self.tcx.item_name(*x).as_str() == "Span" && self.tcx.crate_name(x.krate).as_str().starts_with("proc_macro"))) {
            self.note("prints where the definition stands".into(), d, sp);
        }
        let walks = args.iter().any(|t| self.has_walk(*t));
        let tables = args.iter().skip(if walks { 1 } else { 0 }).any(|t| self.table(*t));
        if self.has_walk(ret) {
            self.walks += 1;
            return;
        }
        let from_table = tables && matches!(name.as_str(), "extend" | "from_iter" | "zip" | "chain" | "flat_map" | "flatten" | "append_all" | "extend_from_iter" | "into_iter");
        if !walks && !from_table {
            return;
        }
        if f.is_local() {
            return; // judged in that body
        }
        let fine = match name.as_str() {
            "any" | "all" | "count" | "sum" | "product" | "min" | "max" | "len" | "size_hint" | "is_empty" | "drop" | "clone" | "fmt" | "new" => true,
            "extend" => self.unordered(args[0]),
            "collect" | "from_iter" | "partition" | "unzip" => {
                self.unordered(ret) || matches!(ret.kind(), ty::Adt(_, a) if a.types().next().map(|e| sorted.contains(&e)).unwrap_or(false))
            }
            _ => false,
        };
        if !fine {
            self.note(format!("depends on the order a hash table is walked in, through {name}"), d, sp);
        }
    }
}

/// what macros that look at the build read
struct M<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: Vec<(String, Span)>,
    own: bool,
}

impl<'tcx> Visitor<'tcx> for M<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        for x in e.span.macro_backtrace() {
            let Some(m) = x.macro_def_id else { continue };
            if m.is_local() || !matches!(self.tcx.crate_name(m.krate).as_str(), "core" | "std" | "alloc") {
                continue;
            }
            let n = self.tcx.item_name(m);
            let hit = match n.as_str() {
                "env" | "option_env" => !self.tcx.sess.source_map().span_to_snippet(x.call_site).map(|s| s.contains("CARGO_PKG_")).unwrap_or(false),
                "line" | "column" | "file" | "module_path" => !self.own,
                _ => false,
            };
            if hit && !self.seen.iter().any(|s| s.0 == n.as_str() && s.1 == x.call_site) {
                self.seen.push((n.to_string(), x.call_site));
            }
        }
        intravisit::walk_expr(self, e);
    }
}

pub fn run(tcx: TyCtxt<'_>, out: &str) {
    let mut w = W { tcx, out: vec![], calls: 0, bodies: 0, walks: 0 };
    let mut statics = 0;
    // a macro crate's own file and line are the same for every definition it expands
    let mut m = M { tcx, seen: vec![], own: tcx.proc_macro_decls_static(()).is_some() };
    tcx.hir_walk_toplevel_module(&mut m);
    for (n, sp) in &m.seen {
        w.note(format!("depends on the build through {n}!"), rustc_span::def_id::CRATE_DEF_ID.to_def_id(), *sp);
    }
    for ld in tcx.iter_local_def_id() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(did) && !tcx.is_constructor(did) {
                    w.body(did, tcx.optimized_mir(did));
                }
            }
            DefKind::Static { mutability, .. } => {
                statics += 1;
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::fully_monomorphized();
                let mut inner = t;
                if let ty::Adt(d, a) = t.kind() {
                    if matches!(tcx.item_name(d.did()).as_str(), "LazyLock" | "OnceLock") {
                        if let Some(x) = a.types().next() {
                            inner = x;
                        }
                    }
                }
                let name = w.path(did);
                if mutability.is_mut() {
                    w.note(format!("keeps state from one definition to the next: static mut {name}"), did, tcx.def_span(did));
                } else if !inner.is_freeze(tcx, env) {
                    w.note(format!("keeps state from one definition to the next: static {name}: {t}"), did, tcx.def_span(did));
                }
            }
            _ => {}
        }
    }
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    let mut s = format!("{{\"bodies\":{},\"calls\":{},\"walks\":{},\"statics\":{},\"found\":[", w.bodies, w.calls, w.walks, statics);
    for (i, (a, b, c)) in w.out.iter().enumerate() {
        write!(s, "{}\n{{\"what\":\"{}\",\"in\":\"{}\",\"at\":\"{}\"}}", if i > 0 { "," } else { "" }, esc(a), esc(b), esc(c)).unwrap();
    }
    s.push_str("]}");
    std::fs::write(out, s).expect("effects output");
}
