//! `File` and what it is made from; the chain of imports an error about a cycle shows.
use bytes::Buf;
use prost::Message;
use prost_types::FileDescriptorProto;
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use std::rc::Rc;
use sym::*;

fn text(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            range(1, 0x7f)
        })
        .collect()
}

fn is_file(f: &File, name: &str, source: Option<&[u8]>, d: &FileDescriptorProto) {
    check(f.name().as_bytes() == name.as_bytes(), "a file has another name");
    check(f.path().is_none(), "a file that is not on disk has a path");
    check(f.source().map(|s| s.as_bytes()) == source, "a file's source is not what it was made from");
    check(f.file_descriptor_proto() == d, "a file's descriptor is not that of its source");
    let g = f.clone();
    check(g.name() == f.name() && g.source() == f.source() && g.path() == f.path(), "a copy of a file is another one");
    let o = FileDescriptorProto::from(g);
    check(o == *d, "a file turns into another descriptor");
}

/// C35. 1: 0 source text, 1 descriptor, 2 bytes; 2: length; 3: length of the name
pub fn object() {
    let n = param(2) as usize;
    let name: Vec<u8> = (0..param(3)).map(|_| range(1, 0x7f)).collect();
    let name = unsafe { std::str::from_utf8_unchecked(&name) };
    match param(1) {
        0 => {
            let mut t = [&b""[..], b"message M", b"\xef\xbb\xbf//", b"package p;\r\n"][choice(4)].to_vec();
            t.extend_from_slice(&text(n));
            src(&t);
            let s = unsafe { std::str::from_utf8_unchecked(&t) };
            match (protox_parse::parse(name, s), File::from_source(name, s)) {
                (Ok(d), Ok(f)) => {
                    is_file(&f, name, Some(&t), &d);
                    note(&[1]);
                    reach(1);
                }
                (Err(a), Err(b)) => {
                    check(b.is_parse() && !b.is_io() && !b.is_file_not_found(), "a parse error is taken for another kind of error");
                    check(b.file().is_some_and(|f| f.as_bytes() == name.as_bytes()), "the error is for another file");
                    let (x, y) = (format!("{a}|{a:?}"), format!("{b}|{b:?}"));
                    check(x == y, "the error is not the parser's");
                    note(&[2]);
                    reach(2);
                }
                _ => fail("a file is accepted or rejected unlike its source"),
            }
        }
        1 => {
            let mut d = FileDescriptorProto::default();
            if flag() {
                d.name = Some(name.to_owned());
            }
            if flag() {
                d.package = Some(String::from_utf8(vec![range(b'a', b'z')]).unwrap());
            }
            if flag() {
                d.source_code_info = Some(Default::default());
            }
            let f = if flag() { File::from_file_descriptor_proto(d.clone()) } else { File::from(d.clone()) };
            is_file(&f, if d.name.is_some() { name } else { "" }, None, &d);
            reach(1);
        }
        _ => {
            let mut b = vec![];
            if flag() {
                b.extend_from_slice(&[10, name.len() as u8]);
                b.extend_from_slice(name.as_bytes());
            }
            for _ in 0..n {
                b.push(byte());
            }
            let made = if flag() {
                File::decode_file_descriptor_proto(&b[..])
            } else {
                let (x, y) = b.split_at(choice(b.len() + 1));
                File::decode_file_descriptor_proto(Buf::chain(x, y))
            };
            match (FileDescriptorProto::decode(&b[..]), made) {
                (Ok(d), Ok(f)) => {
                    let name = d.name().to_owned();
                    is_file(&f, &name, None, &d);
                    note(&[1]);
                    reach(1);
                }
                (Err(_), Err(_)) => reach(2),
                _ => fail("bytes are accepted or rejected unlike by decoding them"),
            }
        }
    }
}

struct Ring(Rc<Vec<Vec<u8>>>);

/// Which of the files is meant.
fn which(b: u8, n: usize) -> usize {
    for i in 0..n - 1 {
        if fork(b == b'a' + i as u8) {
            return i;
        }
    }
    n - 1
}

impl FileResolver for Ring {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let b = name.as_bytes();
        check(b.len() == 4 && b[0] == b'd' && b[1] == b'/' && b[3] == b'x', "a file is asked for that nobody imports");
        let mut t = vec![];
        for &j in &self.0[which(b[2], self.0.len())] {
            t.extend_from_slice(b"import '");
            t.extend_from_slice(&label(j));
            t.extend_from_slice(b"';\n");
        }
        src(&t);
        File::from_source(name, unsafe { std::str::from_utf8_unchecked(&t) })
    }
}

fn label(b: u8) -> [u8; 4] {
    [b'd', b'/', b, b'x']
}

/// C33. 1: files, 2: imports per file at most, 3: files opened. Which file an import names is symbolic.
pub fn ring() {
    let (n, max) = (param(1) as usize, param(2) as usize);
    let name = || range(b'a', b'a' + n as u8 - 1);
    let mut g: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let v: Vec<u8> = (0..choice(max + 1)).map(|_| name()).collect();
        for i in 0..v.len() {
            for j in 0..i {
                assume(v[i] != v[j]);
            }
        }
        g.push(v);
    }
    let g = Rc::new(g);
    let mut c = Compiler::with_file_resolver(Ring(g.clone()));
    for _ in 0..param(3) {
        let root = name();
        let Err(e) = c.open_file(unsafe { std::str::from_utf8_unchecked(&label(root)) }) else {
            reach(2);
            continue;
        };
        // everything else is fine, so this is about a cycle
        let m = e.to_string();
        let Some(mut names) = m.as_bytes().strip_prefix(b"import cycle detected: ") else { fail("an import cycle is reported as something else") };
        let mut at = vec![];
        loop {
            check(names.len() >= 4 && names[0] == b'd' && names[1] == b'/' && names[3] == b'x', "a file is shown that does not exist");
            at.push(names[2]);
            names = &names[4..];
            if names.is_empty() {
                break;
            }
            check(names.starts_with(b" -> "), "the imports shown are not a chain");
            names = &names[4..];
        }
        check(at.len() >= 2, "a cycle without an import");
        check(at[0] == root, "the imports shown do not start at the file opened");
        for w in at.windows(2) {
            let mut hit = false;
            for &i in &g[which(w[0], n)] {
                hit |= i == w[1];
            }
            check(hit, "an import is shown that does not exist");
        }
        let last = at[at.len() - 1];
        let mut hit = false;
        for &a in &at[..at.len() - 1] {
            hit |= a == last;
        }
        check(hit, "the imports shown are not a cycle");
        check(e.file().is_some_and(|f| f.as_bytes() == label(last)), "the error is for a file that is not on the cycle");
        check(!e.is_file_not_found() && !e.is_parse() && !e.is_io(), "an import cycle is taken for another kind of error");
        check(format!("{e:?}").as_bytes() == m.as_bytes(), "the debug output is not the message");
        note(&[at.len() as u8]);
        reach(1);
    }
}
