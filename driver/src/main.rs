//! Facts extractor: a rustc wrapper that type-checks a workspace crate exactly
//! as cargo asked for, then writes the drop-elaborated MIR (callees resolved
//! through the type system), type definitions and impl tables as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod json;

use rustc_driver::{catch_with_exit_code, compiler_entrypoint, Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.debug_assertions = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        facts::dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    catch_with_exit_code(run)
}

fn run() {
    // argv: mirfacts <path to rustc> <rustc args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let name = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone());
    let out_dir = std::env::var("MIRFACTS_OUT").ok();
    match (name, out_dir) {
        (Some(name), Some(dir)) if name != "build_script_build" && name != "___" => {
            let kind = args
                .windows(2)
                .find(|w| w[0] == "--crate-type")
                .map(|w| w[1].clone())
                .unwrap_or_else(|| "bin".into());
            let out = format!("{dir}/{name}.{kind}.json");
            compiler_entrypoint(&args, &mut Dump { out });
        }
        _ => compiler_entrypoint(&args, &mut Plain),
    }
}
