//! Harness over `protox_parse::parse`.
pub mod comments;
pub mod common;
pub mod defaults;
pub mod diag;
pub mod gen;
pub mod labels;
pub mod layout;
pub mod names;
pub mod noise;
pub mod numbers;
pub mod options;
pub mod recovery;
pub mod refs;
pub mod strings;
pub mod structure;

pub static SCENARIOS: &[(&str, fn())] = &[
    ("noise", noise::noise),
    ("tokens", noise::tokens),
    ("truncated", noise::truncated),
    ("msgseq", structure::msgseq),
    ("fileseq", structure::fileseq),
    ("enumseq", structure::enumseq),
    ("svcseq", structure::svcseq),
    ("oneofseq", structure::oneofseq),
    ("extseq", structure::extseq),
    ("fieldtypes", structure::fieldtypes),
    ("maptypes", structure::maptypes),
    ("mapnames", structure::mapnames),
    ("groups", structure::groups),
    ("nesting", structure::nesting),
    ("literals", numbers::literals),
    ("adjacent", numbers::adjacent),
    ("number", numbers::number),
    ("ranges", numbers::ranges),
    ("message_set", numbers::message_set),
    ("strdec", strings::strdec),
    ("strcat", strings::strcat),
    ("defaults", defaults::defaults),
    ("nodefault", defaults::nodefault),
    ("optname", options::optname),
    ("optvalue", options::optvalue),
    ("optlist", options::optlist),
    ("jsonname", options::jsonname),
    ("aggregate", options::aggregate),
    ("aggtight", options::aggtight),
    ("textmode", options::textmode),
    ("notext", options::notext),
    ("labels", labels::labels),
    ("emptyoneof", labels::emptyoneof),
    ("oneofs", labels::oneofs),
    ("comments", comments::comments),
    ("commenttext", comments::commenttext),
    ("commenteof", comments::commenteof),
    ("commentflow", comments::commentflow),
    ("imports", names::imports),
    ("idents", names::idents),
    ("keywords", names::keywords),
    ("reserved", names::reserved),
    ("layout", layout::layout),
    ("recovery", recovery::recovery),
    ("intrusion", recovery::intrusion),
    ("purity", diag::purity),
    ("diag", diag::diag),
    ("longtok", diag::longtok),
];

pub fn entry() {
    SCENARIOS[sym::param(0) as usize].1()
}

#[no_mangle]
pub extern "C-unwind" fn sym_main() {
    entry()
}
