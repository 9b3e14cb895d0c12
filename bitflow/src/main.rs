#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod bdd;
mod effects;
mod interp;
mod intrinsics;
mod judge;
mod scan;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    spec: String,
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.spec == "scan" {
            scan::run(tcx, &self.out);
            return Compilation::Stop;
        }
        if self.spec == "effects" {
            effects::run(tcx, &self.out);
            return Compilation::Stop;
        }
        judge::run(tcx, &self.spec, &self.out);
        Compilation::Stop
    }
}
/// usage: bitflow SPEC OUT -- rustc-arguments, or bitflow scan|effects OUT -- rustc-arguments
fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    let spec = a.remove(1);
    let out = a.remove(1);
    if a.get(1).map(|s| s == "--").unwrap_or(false) {
        a.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&a, &mut Cb { spec, out }));
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 2 });
}
