#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver_impl::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<std::path::PathBuf>,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let s = dump::dump_crate(tcx);
            std::fs::write(out, s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked as: vp-driver <rustc> args...
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let dir = std::env::var("VP_DUMP_DIR").unwrap_or_default();
    let mut out = None;
    let mut name = String::new();
    let mut ty = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() { name = args[i + 1].clone(); }
        if args[i] == "--crate-type" && i + 1 < args.len() { ty = args[i + 1].clone(); }
        i += 1;
    }
    let probing = args.iter().any(|a| a.starts_with("--print")) || name.is_empty() || name == "___";
    if !probing && !dir.is_empty() && name != "build_script_build" {
        out = Some(std::path::Path::new(&dir).join(format!("{name}-{ty}.json")));
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver_impl::catch_with_exit_code(move || {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    })
}
