//! What the two settings do to the output.
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use sym::*;

const A: &[u8] = b"/* a */ import 'b'; // x\n/*l*/ enum A { Z = 1; } // z";
const B: &[u8] = b"import public 'c';\nmessage B { /*n*/ extensions 1; } // trail\n";
const C: &[u8] = b"syntax = 'proto3'; // c";
const D: &[u8] = b"import 'c'; service D {}\n";

struct Files;

impl FileResolver for Files {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match text(name) {
            Some(t) => File::from_source(name, t),
            None => Err(Error::file_not_found(name)),
        }
    }
}

fn text(name: &str) -> Option<&'static str> {
    let t = match name {
        "a" => A,
        "b" => B,
        "c" => C,
        "d" => D,
        _ => return None,
    };
    Some(unsafe { std::str::from_utf8_unchecked(t) })
}

/// What the output must be: the files' descriptors, by the parser alone.
fn expected(c: &Compiler, imports: bool, info: bool) -> Vec<FileDescriptorProto> {
    c.files()
        .filter(|f| imports || !f.is_import())
        .map(|f| {
            let Ok(mut d) = protox_parse::parse(f.name(), text(f.name()).unwrap()) else { fail("a compiled file does not parse") };
            check(d.source_code_info.is_some(), "the parser gives no source info");
            if !info {
                d.source_code_info = None;
            }
            d
        })
        .collect()
}

/// C26. 1: steps, 2: 1 if the encoded form is checked too, 3: steps that open a file at most
pub fn flags() {
    let (steps, encode) = (param(1) as usize, param(2) == 1);
    let mut opens = param(3) as usize;
    let mut c = Compiler::with_file_resolver(Files);
    if encode {
        // the first use sets tables up; do that once for all histories
        let _ = c.encode_file_descriptor_set();
    }
    // off until set
    let (mut imports, mut info) = (false, false);
    for _ in 0..steps {
        match choice(if opens > 0 { 5 } else { 4 }) {
            0 => {
                imports = true;
                c.include_imports(true);
            }
            1 => {
                imports = false;
                c.include_imports(false);
            }
            2 => {
                info = true;
                c.include_source_info(true);
            }
            3 => {
                info = false;
                c.include_source_info(false);
            }
            _ => {
                opens -= 1;
                let name = ["a", "b", "c", "d", "nothing"][choice(5)];
                let ok = c.open_file(name).is_ok();
                check(ok == (name != "nothing"), "a file is not opened as it should");
            }
        }
        let w = expected(&c, imports, info);
        let s = c.file_descriptor_set();
        check(s.file.len() == w.len(), "the descriptor set has another number of files than configured");
        for (a, b) in s.file.iter().zip(&w) {
            check(a.source_code_info.is_some() == info, "source info is included although it is off, or missing although it is on");
            check(a == b, "the descriptor set is not as configured");
        }
        if encode {
            let e = c.encode_file_descriptor_set();
            let Ok(d) = FileDescriptorSet::decode(&e[..]) else { fail("the encoded descriptor set does not decode") };
            check(d == s, "the encoded descriptor set is another one");
        }
        reach(if w.is_empty() { 2 } else { 1 });
    }
    note(&c.file_descriptor_set().encode_to_vec());
}

const DESC: &str = "syntax = \"proto2\"; package google.protobuf; message FileOptions { optional string java_package = 1; repeated UninterpretedOption uninterpreted_option = 999; extensions 1000 to max; } message UninterpretedOption { message NamePart { required string name_part = 1; required bool is_extension = 2; } repeated NamePart name = 2; optional string identifier_value = 3; optional uint64 positive_int_value = 4; optional int64 negative_int_value = 5; }";

struct Ext(Vec<u8>, bool);

impl FileResolver for Ext {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "google/protobuf/descriptor.proto" => File::from_source(name, DESC),
            "e" => File::from_source(name, "syntax = 'proto2'; import public 'google/protobuf/descriptor.proto'; extend google.protobuf.FileOptions { optional int32 x = 1000; }"),
            "m" => {
                let f = File::from_source(name, unsafe { std::str::from_utf8_unchecked(&self.0) })?;
                if self.1 {
                    // the same as a decoded file
                    let b = f.file_descriptor_proto().encode_to_vec();
                    match File::decode_file_descriptor_proto(&b[..]) {
                        Ok(f) => return Ok(f),
                        Err(_) => fail("a descriptor does not decode"),
                    }
                }
                Ok(f)
            }
            _ => Err(Error::file_not_found(name)),
        }
    }
}

/// C26: options that are extensions are in the encoded form whatever the settings.
/// 1: digits of the value, 2: 1 if the file comes encoded
pub fn extoption() {
    let mut c = Compiler::with_file_resolver(Ext(vec![], false));
    let _ = c.encode_file_descriptor_set();
    let n = param(1) as usize;
    let mut t = b"syntax = 'proto2'; import 'e'; option (x) = ".to_vec();
    let mut v = 0u64;
    for i in 0..n {
        let d = range(if i == 0 && n > 1 { b'1' } else { b'0' }, b'9');
        v = v * 10 + (d - b'0') as u64;
        t.push(d);
    }
    t.extend_from_slice(b";");
    src(&t);
    let mut c = Compiler::with_file_resolver(Ext(t, param(2) == 1));
    c.include_imports(flag()).include_source_info(flag());
    if let Err(e) = c.open_file("m") {
        let _ = e;
        fail("a file with an extension option is rejected");
    }
    let e = c.encode_file_descriptor_set();
    // option 1000 as a varint
    let mut want = vec![0xc0, 0x3e];
    let mut k = v;
    while fork(k >= 0x80) {
        want.push((k & 0x7f) as u8 | 0x80);
        k >>= 7;
    }
    want.push(k as u8);
    let mut hit = false;
    for w in e.windows(want.len()) {
        if w[0] == 0xc0 && w[1] == 0x3e {
            hit |= fork(w == &want[..]);
        }
    }
    check(hit, "an extension option is missing from the encoded descriptor set");
    reach(1);
}

/// C26: `compile` is a compiler with both settings on; `open_files` opens each in turn. 1: files
pub fn convenience() {
    use crate::vfs::{self, Content, Found};
    use std::cell::RefCell;
    let n = param(1) as usize;
    let known: RefCell<Vec<(Vec<u8>, Option<usize>)>> = RefCell::new(vec![]);
    vfs::install(Box::new(move |p, _| {
        let mut k = known.borrow_mut();
        let i = match k.iter().position(|x| crate::paths::bytes_eq(&x.0, p)) {
            Some(i) => i,
            None => {
                let c = choice(4);
                k.push((p.to_vec(), if c == 0 { None } else { Some(c) }));
                k.len() - 1
            }
        };
        match k[i].1 {
            None => Found::Errno(vfs::ENOENT),
            Some(1) => Found::File(Content::new(b"import 'y'; // c")),
            Some(2) => Found::File(Content::new(b"syntax = 'proto3';")),
            _ => Found::File(Content::new(b"message 1")),
        }
    }));
    let files: Vec<String> = (0..n)
        .map(|_| {
            let mut s = String::from(if flag() { "d/" } else { "" });
            s.push(range(b'x', b'z') as char);
            s
        })
        .collect();
    let dirs = ["d", "e"];
    let got = protox::compile(&files, dirs);
    let Ok(mut c) = Compiler::new(dirs) else { fail("include paths are rejected") };
    let Ok(mut c2) = Compiler::new(dirs) else { fail("include paths are rejected") };
    c.include_source_info(true).include_imports(true);
    c2.include_source_info(true).include_imports(true);
    let mut err = None;
    for f in &files {
        if let Err(e) = c.open_file(f) {
            err = Some(e);
            break;
        }
    }
    let many = c2.open_files(&files).map(|_| ());
    vfs::remove();
    check(c2.file_descriptor_set() == c.file_descriptor_set(), "opening several files is not opening each in turn");
    match (got, many, err) {
        (Ok(s), Ok(_), None) => {
            check(s == c.file_descriptor_set(), "the result is not that of a compiler with both settings on");
            reach(1);
        }
        (Err(a), Err(b), Some(e)) => {
            check(a.file() == e.file() && b.file() == e.file(), "the error is not the first one");
            check(kind(&a) == kind(&e) && kind(&b) == kind(&e), "the error is not the first one");
            reach(2);
        }
        _ => fail("opening several files at once succeeds or fails differently"),
    }
}

fn kind(e: &Error) -> (bool, bool, bool) {
    (e.is_file_not_found(), e.is_parse(), e.is_io())
}
