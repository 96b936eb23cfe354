//! Arbitrary text in every grammatical context: totality of `parse` and quality of its errors.
use miette::Diagnostic;
use protox_parse::ParseError;
use sym::*;

/// Text before and after the arbitrary part.
pub static CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("syntax='proto3';", ""),
    ("message M {", "}"),
    ("message M { optional int32 ", " = 1; }"),
    ("message M { optional int32 a = ", "; }"),
    ("message M { optional int32 a = 1 [", "]; }"),
    ("message M { optional bytes a = 1 [default = ", "]; }"),
    ("option a = ", ";"),
    ("option a = { a: ", " };"),
    ("option a = '", "';"),
    ("enum E { A = 0; ", "}"),
    ("enum E { reserved ", "; }"),
    ("service S { ", " }"),
    ("service S { rpc M (", ") returns (stream A); }"),
    ("message M { oneof o { int32 a = 1; ", " } }"),
    ("extend A { ", " }"),
    ("message M { extensions 1 ", "; }"),
    ("message M { reserved ", "; }"),
    ("message M { map<", "> a = 1; }"),
    ("import ", ";"),
    ("package ", ";"),
    ("option (a.b", ") = 1;"),
    ("/* ", " */ message A {}"),
    ("message M {} //", "\nenum E { A = 0; }"),
    ("syntax = ", ";"),
    ("message M { optional group ", " { } }"),
    ("message M { repeated ", ""),
    ("message M { optional double d = 1 [default = 1", "]; }"),
    ("message M { oneof o {", "} optional int32 b = 1; }"),
    ("import 'a'; \n/* b */", "/* c */ package p; // d\n"),
    ("enum E { A = ", " [a = 1]; }"),
    ("message M { optional int32 a = 1; ", "\n\n optional int32 b = 2; }"),
    ("option a = { s: '", "' };"),
    ("service S { rpc A (B) returns (C) {", "} }"),
];

pub static HEAD: [bool; 256] = crate::gen::table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_");

fn is_boundary(s: &[u8], i: usize) -> bool {
    i == s.len() || (i < s.len() && (s[i] & 0xc0) != 0x80)
}

pub struct Buf(pub [u8; 2048], pub usize);
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}

fn labels_inside(d: &dyn Diagnostic, s: &[u8]) {
    if let Some(ls) = d.labels() {
        for l in ls {
            let (a, n) = (l.offset(), l.len());
            check(a <= s.len() && n <= s.len() - a, "a label lies outside the source");
            check(is_boundary(s, a) && is_boundary(s, a + n), "a label is not on character boundaries");
        }
    }
    if let Some(rs) = d.related() {
        for r in rs {
            labels_inside(r, s);
        }
    }
}

/// Everything promised about an error for source `s`.
pub fn check_error(e: &ParseError, name: &str, s: &[u8]) {
    use std::fmt::Write;
    check(e.file() == name, "error reports another file name");
    let mut m = Buf([0; 2048], 0);
    let _ = write!(m, "{e}");
    check(m.1 > 0, "error has an empty message");
    labels_inside(e, s);
    if let Some(sp) = e.span() {
        check(sp.start <= sp.end, "span is reversed");
        check(sp.end <= s.len(), "span ends outside the source");
        check(is_boundary(s, sp.start) && is_boundary(s, sp.end), "span is not on character boundaries");
        let mut d = Buf([0; 2048], 0);
        let _ = write!(d, "{e:?}");
        // line and column, 1-based, in bytes; a carriage return alone is not considered
        let mut line = 1u64;
        let mut col = 1u64;
        let mut lone_cr = false;
        for i in 0..sp.start {
            let b = s[i];
            if fork(b == b'\n') {
                line += 1;
                col = 1;
            } else {
                if fork(b == b'\r') {
                    lone_cr = true;
                }
                col += 1;
            }
        }
        for i in sp.start..s.len() {
            // what follows cannot matter, except that the reader looks at the span itself
            if i < sp.end && fork(s[i] == b'\r') {
                lone_cr = true;
            }
        }
        if !lone_cr {
            let mut x = Buf([0; 2048], 0);
            let _ = write!(x, "{name}:{line}:{col}: ");
            let n = x.1;
            check(d.1 > n, "debug output is too short");
            for i in 0..n {
                check(d.0[i] == x.0[i], "debug output does not begin with file:line:column");
            }
            check(d.1 - n == m.1, "debug output does not end with the message");
            for i in 0..m.1 {
                check(d.0[n + i] == m.0[i], "debug output does not end with the message");
            }
        }
    }
}

/// An arbitrary character, as its UTF-8 bytes. `wide`: 0 ASCII only, 1 also multi-byte ones.
pub fn any_char(out: &mut Vec<u8>, wide: bool) {
    let k = if wide { choice(4) } else { 0 };
    match k {
        0 => out.push(range(0, 0x7f)),
        1 => {
            out.push(range(0xc2, 0xdf));
            out.push(range(0x80, 0xbf));
        }
        2 => {
            out.push(range(0xe1, 0xec));
            out.push(range(0x80, 0xbf));
            out.push(range(0x80, 0xbf));
        }
        _ => {
            out.push(range(0xf1, 0xf3));
            out.push(range(0x80, 0xbf));
            out.push(range(0x80, 0xbf));
            out.push(range(0x80, 0xbf));
        }
    }
}

fn run(b: &[u8], errors: bool) {
    src(b);
    // well-formed by construction
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    match protox_parse::parse("a.proto", s) {
        Ok(f) => {
            reach(1);
            check(f.name() == "a.proto", "the descriptor has another name");
            note(&[f.message_type.len() as u8, 1]);
        }
        Err(e) => {
            reach(2);
            if errors {
                check_error(&e, "a.proto", b);
            }
            let sp = e.span();
            note(&[2, sp.map(|s| s.start as u8).unwrap_or(255)]);
        }
    }
}

/// 1: number of characters, 2: context, 3: multi-byte characters too, 4: check the errors
pub fn noise() {
    let n = param(1) as usize;
    let (pre, post) = CONTEXTS[param(2) as usize];
    let wide = param(3) != 0;
    let mut b: Vec<u8> = Vec::with_capacity(128);
    b.extend_from_slice(pre.as_bytes());
    for _ in 0..n {
        any_char(&mut b, wide);
    }
    b.extend_from_slice(post.as_bytes());
    run(&b, param(4) != 0);
}

/// Vocabulary for token sequences; \x01 stands for any letter or underscore, \x02 for any digit,
/// \x03 for any ASCII character.
pub static VOCAB: &[&str] = &[
    "\x01", "a\x01", "1\x02", "'\x03'", "\"\\\x03\"", "/\x03", "a", "message", "enum", "service", "rpc", "returns", "stream", "extend", "extensions", "reserved", "to", "max", "oneof", "group", "map", "optional",
    "required", "repeated", "option", "import", "public", "weak", "package", "syntax", "int32", "bytes", "default", "json_name", "true", "inf", "0", "1",
    "536870912", "99999999999999999999", "0x1F", "017", "1.5", ".5e3", "1f", "'a'", "\"\\377\"", "'proto3'", ".", "-", "+", "(", ")", "{", "}", "[", "]",
    "<", ">", ",", "=", ":", ";", "/", "//x\n", "/*y*/", "#z\n", "\n", "\n\n", "'", "/*", "$", "\u{e9}",
];

/// 1: number of tokens, 2: context, 3: errors, 4: second context (appended, 0 none)
pub fn tokens() {
    let n = param(1) as usize;
    let (pre, post) = CONTEXTS[param(2) as usize];
    let mut b: Vec<u8> = Vec::with_capacity(128);
    b.extend_from_slice(pre.as_bytes());
    for _ in 0..n {
        for &c in VOCAB[choice(VOCAB.len())].as_bytes() {
            b.push(match c {
                1 => of(&HEAD),
                2 => range(b'0', b'9'),
                3 => range(0, 0x7f),
                c => c,
            });
        }
        b.push(b' ');
    }
    b.extend_from_slice(post.as_bytes());
    run(&b, param(3) != 0);
}

/// Cut a file off anywhere, and continue it with arbitrary characters.
/// 1: which file, 2: characters appended, 3: errors
pub fn truncated() {
    let (items, proto3): (&[usize], bool) = match param(1) {
        0 => (&[8, 5, 0, 1], false),
        1 => (&[12, 3, 11], false),
        2 => (&[10, 6], true),
        _ => (&[2, 4, 7], true),
    };
    let mut f = crate::gen::F::new(2, if proto3 { 2 } else { 1 });
    for &i in items {
        f.item(i);
    }
    f.finish();
    let n = f.g.b.len();
    let mut b = f.g.b;
    // two base-16 digits select the cut
    let hi = choice(n / 16 + 1);
    let lo = choice(16);
    let cut = hi * 16 + lo;
    assume(cut <= n);
    b.truncate(cut);
    for _ in 0..param(2) {
        any_char(&mut b, false);
    }
    run(&b, param(3) != 0);
}
