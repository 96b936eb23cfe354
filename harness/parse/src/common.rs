use crate::gen::*;
use prost_types::{source_code_info::Location, FileDescriptorProto};
use sym::*;

/// Which guarantee the scenario is run for.
pub const DESC: u64 = 1;
pub const LOCS: u64 = 2;

pub fn strip(f: &mut FileDescriptorProto) -> Vec<Location> {
    f.source_code_info.take().map(|s| s.location).unwrap_or_default()
}

/// Compare an accepted file's locations (paths and spans) with the expected ones.
pub fn check_locations(g: &G, actual: &[Location]) {
    for w in actual.windows(2) {
        check(w[0].path <= w[1].path, "locations are not ordered by path");
    }
    let mut exp: Vec<(Vec<i32>, Vec<i32>)> = g.locs.iter().map(|l| (l.path.clone(), g.span_of(l.sp))).collect();
    exp.sort();
    let mut act: Vec<(Vec<i32>, Vec<i32>)> = actual.iter().map(|l| (l.path.clone(), l.span.clone())).collect();
    act.sort();
    check(exp.len() >= act.len(), "a location for something that is not an element");
    check(exp.len() <= act.len(), "an element without a location");
    for (e, a) in exp.iter().zip(act.iter()) {
        check(e.0 == a.0, "location path differs");
        check(e.1 == a.1, "location span differs");
    }
}

/// Every harness parses through here. Parameter 15: 1 looks at the error only (C02), 2 only at
/// whether there is an outcome (C01).
pub fn run(b: &[u8]) -> Result<FileDescriptorProto, protox_parse::ParseError> {
    let mode = param(15);
    // what errors point at does not depend on blank text around it
    let mut t = vec![];
    let b = if mode == 1 {
        let k = choice(3);
        if k == 1 {
            t.extend_from_slice(b"\n\t \n ");
        }
        t.extend_from_slice(b);
        if k == 2 {
            t.extend_from_slice(b"\n \t\n");
        }
        &t[..]
    } else {
        b
    };
    // well-formed by construction
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    let r = protox_parse::parse("a.proto", s);
    if mode != 0 {
        match r {
            Ok(f) => {
                note(&[f.message_type.len() as u8, 1]);
                check(f.name() == "a.proto", "the descriptor has another name");
                reach(1);
            }
            Err(e) => {
                if mode == 1 {
                    crate::noise::check_error(&e, "a.proto", b);
                }
                let sp = e.span();
                note(&[2, sp.map(|s| s.start as u8).unwrap_or(255)]);
                reach(2);
            }
        }
        done();
    }
    r
}

/// Parse a generated (valid) file and compare with the expectation.
pub fn verify(mut f: F, aspect: u64) {
    f.finish();
    src(&f.g.b);
    match run(&f.g.b) {
        Err(e) => {
            if aspect & DESC != 0 {
                drop(e);
                fail("a valid file was rejected");
            }
        }
        Ok(mut d) => {
            let locs = strip(&mut d);
            if aspect & DESC != 0 {
                check(d == f.f, "descriptor differs from the declarations");
                reach(1);
            }
            if aspect & LOCS != 0 {
                check_locations(&f.g, &locs);
                reach(2);
            }
            note(&[locs.len() as u8]);
        }
    }
}
