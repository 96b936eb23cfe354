//! Errors that are only found when the files are put together.
use crate::errors::gap;
use miette::{Diagnostic, SourceSpan};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use std::fmt::Write;
use sym::*;

struct Main(Vec<u8>);

impl FileResolver for Main {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let s: &[u8] = match name {
            "main" => &self.0,
            "other" => b"syntax = 'proto3'; package o.p; message Known { message In {} } enum Kind { K0 = 0; }",
            "via" => b"import 'other';\nimport 'main'; message Via {}",
            _ => return Err(Error::file_not_found(name)),
        };
        File::from_source(name, unsafe { std::str::from_utf8_unchecked(s) })
    }
}

/// `{` and `}` of a label are \x01 and \x02; \x03 is a symbolic character of a name (the same
/// everywhere), \x04 a symbolic digit (the same everywhere); the error is at \x05, else at the
/// last label. Then what the message says.
pub static CASES: &[(&str, &str)] = &[
    ("message M { optional \x01N\x03\x02 f = 1; }", "name 'N\x03' is not defined"),
    ("message M { message I { repeated \x01a.N\x03\x02 f = \x04; } }", "name 'a.N\x03' is not defined"),
    ("service S { rpc R(\x01N\x03\x02) returns (stream o.p.Known); }", "name 'N\x03' is not defined"),
    ("service S { option deprecated = true; rpc Q(o.p.Known) returns (o.p.Known); rpc R(stream .o.p.Known) returns (stream \x01.x.N\x03\x02) { } }", "name '.x.N\x03' is not defined"),
    ("extend \x01N\x03\x02 { optional int32 e = 1; }", "name 'N\x03' is not defined"),
    ("message M { extend \x01.N\x03\x02 { optional int32 e = \x04; } }", "name '.N\x03' is not defined"),
    ("message M { oneof o { int32 a = 2; \x01N\x03.x\x02 f = 1; } }", "name 'N\x03.x' is not defined"),
    ("message M { optional group G = 1 { optional int32 a = 1; optional \x01N\x03\x02 f = 2; } }", "name 'N\x03' is not defined"),
    ("message M { optional group G = 1 { message I { required \x01N\x03\x02 f = 2; } } }", "name 'N\x03' is not defined"),
    ("message M { optional int32 a = \x01\x04\x02; optional int32 b = \x01\x04\x02; }", "field number '\x04' is already used"),
    ("message M { oneof o { int32 a = \x01\x04\x02; } repeated int32 b = \x01\x04\x02; }", "field number '\x04' is already used"),
    ("message M { optional int32 a = 10; reserved \x01\x04\x02; optional int32 b = \x01\x04\x02; }", "field number '\x04' conflicts with reserved range '\x04 to \x04'"),
    ("message M { extensions 20 to 30, \x01\x04 to 10\x02; optional int32 b = \x01\x04\x02; }", "field number '\x04' conflicts with extension range '\x04 to 10'"),
    ("enum E { E0 = \x01\x04\x02; E1 = \x01\x04\x02; }", "enum number '\x04' has already been used"),
    ("message M { repeated int32 \x01n\x03\x02 = 1; optional bool \x01n\x03\x02 = 2; }", "name 'M.n\x03' is defined twice"),
    ("message \x01N\x03\x02 { } enum \x01N\x03\x02 { E0 = 0; }", "name 'N\x03' is defined twice"),
    ("message M { enum F { \x01E\x03\x02 = 0; } enum E { E0 = 0; \x01E\x03\x02 = \x04; } }", "name 'M.E\x03' is defined twice"),
    ("service \x05\x01N\x03\x02 { } service S { } message \x01N\x03\x02 { }", "name 'N\x03' is defined twice"),
    ("service S { rpc \x01N\x03\x02(.o.p.Known) returns (o.p.Known); rpc \x01N\x03\x02(.o.p.Known) returns (o.p.Known) { } }", "name 'S.N\x03' is defined twice"),
    ("message M { oneof \x01n\x03\x02 { int32 a = 1; } message I { } enum \x01n\x03\x02 { E0 = 0; } }", "name 'M.n\x03' is defined twice"),
    ("message M { extensions \x04; } extend M { optional int32 e = \x0110\x04\x02; }", "message 'M' does not define '10\x04' as an extension number"),
    ("message M { optional \x05\x01E\x03\x02 f = 1; } service \x01E\x03\x02 { }", "'E\x03' is not a message or enum type"),
    ("service S { rpc R(\x05\x01E\x03\x02) returns (o.p.Known); } enum \x01E\x03\x02 { E0 = 0; }", "'E\x03' is not a message type"),
    ("message M { optional E f = 1 [default = \x01N\x03\x02]; } enum E { E0 = 0; }", "invalid default value 'N\x03' for type 'E'"),
    ("message M { \x01option n\x03 = 1;\x02 }", "option field 'n\x03' is not defined"),
    ("\x01option (n\x03).x = 1;\x02", "name 'n\x03' is not defined"),
    ("message M { repeated int32 a = 1 [packed = true, \x01n\x03 = '\x04'\x02]; }", "option field 'n\x03' is not defined"),
    ("enum E { E0 = 0 [\x01deprecated = '\x03'\x02]; }", "expected a value of type 'bool' for option 'deprecated', but found '\"\x03\"'"),
    ("enum E { option allow_alias = true; E0 = 0; E1 = 0; \x01option allow_alias = false;\x02 }", "option field 'allow_alias' has already been set"),
    ("message M { oneof o { \x01option n\x03 = { a: 1 };\x02 int32 a = 1; } }", "option field 'n\x03' is not defined"),
    ("service S { \x01option n\x03 = -\x04;\x02 }", "option field 'n\x03' is not defined"),
    ("service S { rpc R(.o.p.Known) returns (.o.p.Known) { \x01option n\x03 = inf;\x02 } }", "option field 'n\x03' is not defined"),
    ("enum E { E0 = 0; \x01option n\x03 = \x04;\x02 }", "option field 'n\x03' is not defined"),
    ("message M { extensions 1 to max [\x01n\x03 = \x04\x02]; }", "option field 'n\x03' is not defined"),
    ("message M { extensions 10 to 20; } extend M { optional bool a = 10 [lazy = true, \x01n\x03 = \x04\x02]; }", "option field 'n\x03' is not defined"),
    ("message M { optional group G = 1 [\x01n\x03 = a\x02] { } }", "option field 'n\x03' is not defined"),
    ("message M { optional int64 f = 1 [\x01jstype = N\x03\x02]; }", "expected a value of type 'google.protobuf.FieldOptions.JSType' for option 'jstype', but found 'N\x03'"),
    ("message M { optional int32 f = 1; extensions 5; message I { extend \x01N\x03\x02 { repeated string s = 5; } } }", "name 'N\x03' is not defined"),
];

fn expand(s: &str, name: u8, digit: u8, out: &mut Vec<u8>, labels: &mut Vec<(usize, usize)>, at: &mut usize) {
    for &c in s.as_bytes() {
        match c {
            5 => *at = out.len(),
            1 => labels.push((out.len(), 0)),
            2 => labels.last_mut().unwrap().1 = out.len(),
            3 => out.push(name),
            4 => out.push(digit),
            c => out.push(c),
        }
    }
}

/// C37. 1: bytes of arbitrary comment, 2: case (or all of them)
pub fn semantic() {
    let k = param(2) as usize;
    let (text, message) = if k < CASES.len() { CASES[k] } else { CASES[choice(CASES.len())] };
    let mut word = [false; 256];
    for &c in b"qrstuvwxyzQRSTUVWXYZ_" {
        word[c as usize] = true;
    }
    let (name, digit) = (of(&word), range(b'1', b'9'));
    let mut t = b"import 'other';".to_vec();
    if !gap(&mut t, param(1) as usize) {
        return;
    }
    t.push(b'\n');
    if flag() {
        t.extend_from_slice(b"message First { } ");
    }
    let mut labels = vec![];
    let mut at = 0;
    expand(text, name, digit, &mut t, &mut labels, &mut at);
    if at == 0 {
        at = labels[labels.len() - 1].0;
    }
    // multi-byte text, but not on the line of the labels
    t.extend_from_slice([&b""[..], "\n/* é */ message Last { }".as_bytes()][choice(2)]);
    let mut want = vec![];
    expand(message, name, digit, &mut want, &mut vec![], &mut 0);
    src(&t);
    let mut c = Compiler::with_file_resolver(Main(t.clone()));
    c.include_source_info(flag());
    let before = flag();
    if before {
        check(c.open_file("other").is_ok(), "a valid file was rejected");
    }
    let via = flag();
    let Err(e) = c.open_file(if via { "via" } else { "main" }).map(|_| ()) else { fail("a file with an error in it was compiled") };
    check(!e.is_parse() && !e.is_io() && !e.is_file_not_found(), "an error in a file's meaning is taken for another kind");
    check(e.file() == Some("main"), "the error is reported against another file");
    let m = e.to_string();
    check(m.as_bytes() == &want[..], "the error says something else");
    let Some(s) = e.source_code() else { fail("the error has no source") };
    let whole = SourceSpan::new(0.into(), t.len());
    match s.read_span(&whole, 0, 0) {
        Ok(x) => {
            check(x.data() == &t[..], "the error's source is not the file's text");
            check(x.name() == Some("main"), "the error's source has another name");
        }
        Err(_) => fail("the error's source is not the file's text"),
    }
    let mut got: Vec<(usize, usize)> = e.labels().into_iter().flatten().map(|l| (l.offset(), l.offset() + l.len())).collect();
    got.sort();
    check(got == labels, "the labels are not what the error is about");
    let (mut line, mut col) = (1, 1);
    for &b in &t[..at] {
        if fork(b == b'\n') {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    let mut d = String::new();
    let _ = write!(d, "main:{line}:{col}: {m}");
    check(format!("{e:?}") == d, "the debug output is not file, line, column and message");
    // nothing but the imports remain
    check(c.files().len() == 1, "a file with an error in it is listed");
    note(&[got.len() as u8]);
    reach(1);
}
