//! Harness over the command-line program: its `main` is run with arguments and a file system chosen here.
pub mod cli;
#[path = "../../../build/src/protox/src/main.rs"]
#[allow(dead_code)]
mod program;
#[path = "../../compile/src/vfs.rs"]
pub mod vfs;

pub static SCENARIOS: &[(&str, fn())] = &[
    ("cli", cli::cli),
];

pub fn entry() {
    SCENARIOS[sym::param(0) as usize].1()
}

#[no_mangle]
pub extern "C-unwind" fn sym_main() {
    entry()
}
