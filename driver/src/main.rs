//! `sxmir`: a rustc driver which, for every crate named `fx_*`, writes the
//! monomorphised MIR reachable from its `root_*` functions as JSON (into
//! `$SXMIR_OUT/<crate>.json`), with callees, drop glue, vtables and constants
//! resolved by the compiler. Other crates are compiled normally (with their MIR
//! kept in the metadata).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod export;
mod json;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if name.as_str().starts_with("fx_") {
            if let Ok(dir) = std::env::var("SXMIR_OUT") {
                let out = export::export(tcx);
                std::fs::write(format!("{}/{}.json", dir, name), out).expect("write export");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Wrapper mode: argv[1] is the real rustc's path.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
