//! Harness over `protox::Compiler` and its resolvers.
pub mod chain;
pub mod custom;
pub mod dset;
pub mod flags;
pub mod errors;
pub mod google;
pub mod graph;
pub mod object;
pub mod open;
pub mod paths;
pub mod semantic;
pub mod vfs;

pub static SCENARIOS: &[(&str, fn())] = &[
    ("graph", graph::graph),
    ("resolve", paths::resolve),
    ("shadow", paths::shadow),
    ("chain", chain::chain),
    ("dsbytes", dset::dsbytes),
    ("dset", dset::dset),
    ("dsoptions", dset::dsoptions),
    ("reading", open::reading),
    ("weirdpath", open::weirdpath),
    ("flags", flags::flags),
    ("extoption", flags::extoption),
    ("importerr", errors::importerr),
    ("google", google::google),
    ("googleimport", google::googleimport),
    ("convenience", flags::convenience),
    ("custom", custom::custom),
    ("object", object::object),
    ("ring", object::ring),
    ("semantic", semantic::semantic),
];

pub fn entry() {
    SCENARIOS[sym::param(0) as usize].1()
}

#[no_mangle]
pub extern "C-unwind" fn sym_main() {
    entry()
}
