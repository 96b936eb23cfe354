//! What errors about imports point at.
use crate::paths::utf8;
use miette::{Diagnostic, SourceSpan};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use sym::*;

struct Main(Vec<u8>);

impl FileResolver for Main {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "main" => File::from_source(name, unsafe { std::str::from_utf8_unchecked(&self.0) }),
            "a" => File::from_source(name, "message A {} // é"),
            "b" => File::from_source(name, ""),
            "via" => File::from_source(name, "import 'main';"),
            _ => Err(Error::file_not_found(name)),
        }
    }
}

/// Something between declarations: 0 a comment of `n` arbitrary bytes, else fixed.
pub fn gap(t: &mut Vec<u8>, n: usize) -> bool {
    match choice(6) {
        0 => {
            t.extend_from_slice(b"/*");
            let c: Vec<u8> = (0..n).map(|_| byte()).collect();
            if !utf8(&c) {
                return false;
            }
            for &b in &c {
                assume(b != b'*');
                assume(b != b'/');
            }
            t.extend_from_slice(&c);
            t.extend_from_slice(b"*/");
        }
        1 => t.push(b'\n'),
        2 => t.push(b'\t'),
        3 => t.extend_from_slice("/* é */\r\n  ".as_bytes()),
        4 => {
            t.extend_from_slice(b"message B");
            t.push(b'a' + (t.len() / 26 % 26) as u8);
            t.push(b'a' + (t.len() % 26) as u8);
            t.extend_from_slice("{}/*\u{10ffff}*/".as_bytes());
        }
        _ => {}
    }
    true
}

/// C31. 1: imports, 2: bytes of arbitrary comment, 3: 1 if through another file, 4: 1 if imports may have been compiled before
pub fn importerr() {
    let (n, len, via) = (param(1) as usize, param(2) as usize, param(3));
    let mut t = vec![];
    let mut seen: Vec<u8> = vec![];
    let mut want: Option<(usize, usize, bool, u8, bool)> = None;
    for _ in 0..n {
        if !gap(&mut t, len) {
            return;
        }
        let start = t.len();
        let name = range(b'a', b'c');
        let mut lines = false;
        match choice(4) {
            0 => t.extend_from_slice(b"import '"),
            1 => t.extend_from_slice(b"import public '"),
            2 => t.extend_from_slice("import/*é*/'".as_bytes()),
            _ => {
                t.extend_from_slice(b"import\n'");
                lines = true;
            }
        }
        t.push(name);
        t.extend_from_slice(b"';");
        if want.is_none() {
            let dup = seen.iter().any(|&s| fork(s == name));
            if dup || fork(name == b'c') {
                want = Some((start, t.len(), lines, name, dup));
            }
        }
        seen.push(name);
    }
    if !gap(&mut t, len) {
        return;
    }
    src(&t);
    let mut c = Compiler::with_file_resolver(Main(t.clone()));
    if param(4) == 1 {
        for f in ["a", "b"] {
            if flag() {
                check(c.open_file(f).is_ok(), "a valid file was rejected");
            }
        }
    }
    let r = c.open_file(if via == 1 { "via" } else { "main" }).map(|_| ());
    let (e, w) = match (r, want) {
        (Ok(_), None) => return reach(1),
        (Err(e), Some(w)) => (e, w),
        _ => fail("imports are accepted or rejected wrongly"),
    };
    let (start, end, lines, name, dup) = w;
    check(e.is_file_not_found() == !dup, "a missing and a duplicate import are confused");
    check(e.file() == Some("main"), "the error is reported against another file");
    let text = e.to_string();
    check(text.len() > 8 && text.as_bytes()[..8] == *b"import '" && text.as_bytes()[8] == name, "the error names another import");
    let Some(s) = e.source_code() else { fail("the error has no source") };
    let whole = SourceSpan::new(0.into(), t.len());
    match s.read_span(&whole, 0, 0) {
        Ok(x) => {
            check(x.data() == &t[..], "the error's source is not the file's text");
            check(x.name() == Some("main"), "the error's source has another name");
        }
        Err(_) => fail("the error's source is not the file's text"),
    }
    let mut label = e.labels().into_iter().flatten();
    match label.next() {
        Some(l) => {
            check(l.offset() == start && l.len() == end - start, "the label is not the import");
            reach(2);
        }
        None => {
            check(lines, "an import error has no label");
            reach(3);
        }
    }
    check(label.next().is_none(), "an import error has several labels");
}
