//! The files every compiler knows.
use crate::paths::bytes_eq;
use crate::vfs::{self, Content, Found};
use protox::file::{FileResolver, GoogleFileResolver};
use protox::Compiler;
use std::cell::RefCell;
use std::rc::Rc;
use sym::*;

/// The build provides each with a message named after it.
const FILES: &[(&str, &str)] = &[
    ("any", "any"),
    ("api", "api"),
    ("descriptor", "descriptor"),
    ("duration", "duration"),
    ("empty", "empty"),
    ("field_mask", "field_mask"),
    ("source_context", "source_context"),
    ("struct", "struct"),
    ("timestamp", "timestamp"),
    ("type", "type"),
    ("wrappers", "wrappers"),
    ("compiler/plugin", "compiler_plugin"),
];

fn full(k: usize) -> String {
    let mut s = String::from("google/protobuf/");
    s.push_str(FILES[k].0);
    s.push_str(".proto");
    s
}

fn known(name: &[u8]) -> Option<usize> {
    (0..FILES.len()).find(|&k| bytes_eq(full(k).as_bytes(), name))
}

fn message(k: usize) -> String {
    let mut s = String::from("Is_");
    s.push_str(FILES[k].1);
    s
}

/// C30. 1: which file's name is varied, 2: how (0 any character replaced, 1 one added, 2 cut off,
/// 3 several added in one place, 4 several replaced in a row), 3: how many
pub fn google() {
    let mut name = full(param(1) as usize).into_bytes();
    match param(2) {
        0 => {
            let p = choice(name.len());
            name[p] = range(1, 127);
        }
        1 => {
            let p = choice(name.len() + 1);
            name.insert(p, range(1, 127));
        }
        3 => {
            let l = name.len();
            // the ends, and around each separator
            let p = [0, 1, 6, 7, 15, 16, l - 6, l - 5, l][choice(9)];
            for _ in 0..param(3) {
                name.insert(p, range(1, 127));
            }
        }
        4 => {
            let n = param(3) as usize;
            let p = choice(name.len() - n + 1);
            for i in 0..n {
                name[p + i] = range(1, 127);
            }
        }
        _ => {
            let p = choice(name.len());
            if flag() {
                name.truncate(p);
            } else {
                name.drain(..p);
            }
        }
    }
    src(&name);
    let s = unsafe { std::str::from_utf8_unchecked(&name) };
    let r = GoogleFileResolver::new().open_file(s);
    check(GoogleFileResolver::new().resolve_path(s.as_ref()).is_none(), "the well-known files have no paths");
    match (known(&name), r) {
        (Some(k), Ok(f)) => {
            check(f.name() == s, "a well-known file has another name");
            let d = f.file_descriptor_proto();
            check(d.message_type.len() == 1 && d.message_type[0].name() == message(k), "another file is served under a well-known name");
            check(f.path().is_none() && f.source().is_some(), "a well-known file has a path, or no text");
            reach(1);
        }
        (None, Err(e)) => {
            check(e.is_file_not_found() && e.file().is_some_and(|f| f.as_bytes() == &name[..]), "an unknown name is not reported as not found");
            reach(2);
        }
        (Some(_), Err(_)) => fail("a well-known file is missing"),
        (None, Ok(_)) => fail("an unknown name is served"),
    }
}

/// C30: importing them through a compiler with include directories. 1: directories, 2: 1 if opened
/// instead of imported
pub fn googleimport() {
    let (n, direct) = (param(1) as usize, param(2) == 1);
    let k = choice(FILES.len());
    let name = full(k);
    let has: Rc<RefCell<Vec<Option<bool>>>> = Rc::new(RefCell::new(vec![None; n]));
    let (h, nm) = (has.clone(), name.clone());
    vfs::install(Box::new(move |p, _| {
        // d0/..., d1/...
        let i = (p[1] - b'0') as usize;
        if &p[3..] == b"main" {
            if i > 0 {
                return Found::Errno(vfs::ENOENT);
            }
            let mut t = b"import '".to_vec();
            t.extend_from_slice(nm.as_bytes());
            t.extend_from_slice(b"';");
            return Found::File(Content::new(&t));
        }
        check(&p[3..] == nm.as_bytes(), "another file is looked for");
        let mut h = h.borrow_mut();
        if h[i].is_none() {
            h[i] = Some(flag());
        }
        if h[i] == Some(true) {
            Found::File(Content::new(if i == 0 { b"message Own0 {}" } else { b"message Own1 {}" }))
        } else {
            Found::Errno(vfs::ENOENT)
        }
    }));
    let dirs: Vec<&str> = ["d0", "d1", "d2"][..n].to_vec();
    let Ok(mut c) = Compiler::new(&dirs) else { fail("include paths are rejected") };
    let ok = if direct || n == 0 { c.open_file(&name).is_ok() } else { c.open_file("main").is_ok() };
    check(ok, "a well-known file cannot be used");
    // a directory nobody looked into may have the file as well
    let mut first = None;
    for i in 0..n {
        let h = has.borrow()[i];
        if first.is_none() && h.unwrap_or_else(flag) {
            first = Some(i);
        }
    }
    c.include_imports(true);
    let s = c.file_descriptor_set();
    let d = &s.file[0];
    check(d.name() == name, "the well-known file is listed under another name");
    let got = d.message_type[0].name();
    match first {
        None => {
            check(got == message(k), "another file is served under a well-known name");
            reach(1);
        }
        Some(i) => {
            check(got == ["Own0", "Own1", "Own1"][i], "an include directory's file is not preferred");
            reach(2);
        }
    }
    vfs::remove();
}
