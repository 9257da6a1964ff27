//! Deterministic simulation of programs that use rescan.
#![feature(alloc_error_hook, thread_local)]
mod canon;
mod content;
mod engine;
mod exec;
mod gen;
mod kern;
mod model;
mod plan;
mod props;
mod report;
mod rng;
mod sets;
mod values;
mod sys;

fn main() {
    unsafe {
        // Addresses are part of a run: no randomisation of the layout.
        if sys::personality(0xffff_ffff) & 0x4_0000 == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            sys::personality(0x4_0000);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe")
                .args(std::env::args_os().skip(1))
                .env("SIM_REEXEC", "1")
                .exec();
            eprintln!("simulator: cannot start again: {e}");
            std::process::exit(2);
        }
        sys::setrlimit(4, &[0, 0]); // no core files
        // Not std's handlers: they would set these back from inside of a call,
        // which is not done, and meet the same fault again without end.
        sys::signal(11, 0);
        sys::signal(7, 0);
        kern::init();
    }
    std::alloc::set_alloc_error_hook(kern::on_alloc_error);
    std::panic::set_hook(Box::new(exec::panic_hook));
    std::process::exit(engine::main());
}
