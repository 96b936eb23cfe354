//! C17 (import paths) and C18 (identifiers).
use crate::gen::WORD;
use crate::noise::any_char;
use crate::numbers::{cat, parse};
use crate::refs::{string_literal, utf8, Lit};
use prost_types::FileDescriptorProto;
use sym::*;

/// Whether a path is a canonical relative path.
fn canonical(p: &[u8]) -> bool {
    if p.is_empty() {
        return false;
    }
    let mut ok = true;
    let mut start = 0;
    for i in 0..=p.len() {
        if i < p.len() && fork(p[i] == b'\\') {
            ok = false;
        }
        if i == p.len() || fork(p[i] == b'/') {
            let c = &p[start..i];
            let bad = c.is_empty() || (c.len() == 1 && fork(c[0] == b'.')) || (c.len() == 2 && fork((c[0] == b'.') & (c[1] == b'.')));
            ok &= !bad;
            start = i + 1;
        }
    }
    ok
}

static SHAPES: &[(&str, &str)] = &[("", ""), ("a/", "/b.proto"), ("../", ""), ("", "/x"), ("a", "a"), ("a/.", "./b"), ("\\x2", "/a"), ("a/\\x2e", ""), ("\u{e9}/", ".")];

/// 1: characters of the path, 2: multi-byte characters too (1), printable ones only (2), 3: shape
pub fn imports() {
    let (x, y) = SHAPES[param(3) as usize];
    let mut t = vec![b'"'];
    t.extend_from_slice(x.as_bytes());
    let cutpos = t.len();
    for _ in 0..param(1) {
        if param(2) == 2 {
            // no escapes but those of a backslash
            if flag() {
                t.extend_from_slice(b"\\\\");
            } else {
                let c = byte();
                assume((c >= b' ') & (c < 0x7f) & (c != b'"') & (c != b'\\'));
                t.push(c);
            }
        } else {
            any_char(&mut t, param(2) != 0);
        }
    }
    // in two pieces, perhaps
    let cut = flag();
    t.extend_from_slice(y.as_bytes());
    t.push(b'"');
    let n = t.len();
    let (text, lit) = match string_literal(&t, 0) {
        Lit::Ok(v, end) => {
            assume(end == n);
            (t, Some(v))
        }
        Lit::Bad => (t, None),
    };
    let text = if cut && cutpos > 1 && param(3) != 6 && param(3) != 7 { cat(&[&text[..cutpos], b"\" '' \"", &text[cutpos..]]) } else { text };
    let kind = choice(3);
    let kw: &[u8] = [&b"import "[..], b"import public ", b"import weak "][kind];
    let (pre, post): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"syntax = 'proto3'; import 'z/y';", b" message M {}"), (b"message M {} ", b" import 'q';")][choice(3)];
    let b = cat(&[pre, kw, &text, b";", post]);
    let at = if pre.starts_with(b"syntax") { 1 } else { 0 };
    let r = parse(&b);
    let ok = match &lit {
        Some(v) => utf8(v) && canonical(v),
        None => false,
    };
    match r {
        None => {
            check(!ok, "an import of a canonical relative path was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "an import of a path that is not canonical was accepted");
            let want = lit.unwrap();
            let got = f.dependency[at].as_bytes();
            check(got.len() == want.len(), "the path recorded has another length");
            check(got == &want[..], "the path recorded is not the one written");
            let (p, w): (&[i32], &[i32]) = match kind {
                0 => (&[], &[]),
                1 => (&[at as i32], &[]),
                _ => (&[], &[at as i32]),
            };
            check(f.public_dependency == p && f.weak_dependency == w, "public or weak is not as written");
            reach(1);
        }
    }
}

/// Places a name stands in: text around it, and whether it is a group's name.
pub static NAME_PLACES: &[(&str, &str)] = &[
    ("message ", " { }"),
    ("enum ", " { A = 0; }"),
    ("enum E { ", " = 0; }"),
    ("service ", " { }"),
    ("service S { rpc ", " (A) returns (B); }"),
    ("message M { optional int32 ", " = 1; }"),
    ("syntax = 'proto3'; message M { .a.B ", " = 1; }"),
    ("message M { map<int32, string> ", " = 1; }"),
    ("message M { oneof ", " { int32 a = 1; } }"),
    ("message M { oneof o { bool ", " = 1; } }"),
    ("extend X { repeated bytes ", " = 1; }"),
    ("package ", ";"),
    ("package a.", ".b;"),
    ("message M { message ", " { } }"),
    ("message M { enum ", " { A = 0; } }"),
    // 15, 16: groups
    ("message M { optional group ", " = 1 { } }"),
    ("extend X { repeated group ", " = 1 { } }"),
    ("enum E { A = 0; ", " = -1 [a = 1]; }"),
    ("message M { repeated A ", " = 1 [a = 1]; }"),
    // 19-: parts of references
    ("message M { optional .a.", " x = 1; }"),
    ("extend a.", " { optional int32 x = 1; }"),
    ("service S { rpc M (.", ") returns (B); }"),
    ("service S { rpc M (A) returns (stream b.", "); }"),
    ("option (a.", ") = 1;"),
    ("option b.", " = 1;"),
    ("message M { map<int32, .", "> m = 1; }"),
];

fn recorded(f: &FileDescriptorProto, place: usize) -> Option<&str> {
    let m = || &f.message_type[0];
    match place {
        0 => m().name.as_deref(),
        1 => f.enum_type[0].name.as_deref(),
        2 => f.enum_type[0].value[0].name.as_deref(),
        3 => f.service[0].name.as_deref(),
        4 => f.service[0].method[0].name.as_deref(),
        5 | 6 | 7 | 9 | 18 => m().field[0].name.as_deref(),
        8 => m().oneof_decl[0].name.as_deref(),
        10 => f.extension[0].name.as_deref(),
        11 => f.package.as_deref(),
        12 => f.package.as_deref().map(|p| &p[2..p.len() - 2]),
        13 | 15 => m().nested_type[0].name.as_deref(),
        14 => m().enum_type[0].name.as_deref(),
        16 => m().name.as_deref(),
        19 => m().field[0].type_name.as_deref().map(|p| &p[3..]),
        20 => f.extension[0].extendee.as_deref().map(|p| &p[2..]),
        21 => f.service[0].method[0].input_type.as_deref().map(|p| &p[1..]),
        22 => f.service[0].method[0].output_type.as_deref().map(|p| &p[2..]),
        23 => f.options.as_ref().map(|o| &o.uninterpreted_option[0].name[0].name_part[2..]),
        24 => f.options.as_ref().map(|o| &o.uninterpreted_option[0].name[1].name_part[..]),
        25 => m().nested_type[0].field[1].type_name.as_deref().map(|p| &p[1..]),
        _ => f.enum_type[0].value[1].name.as_deref(),
    }
}

fn letter(c: u8) -> bool {
    fork(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_'))
}

fn identifier(b: &[u8]) -> bool {
    if b.is_empty() || !letter(b[0]) {
        return false;
    }
    b[1..].iter().all(|&c| letter(c) || fork((c >= b'0') & (c <= b'9')))
}

fn verdict(b: &[u8], place: usize, name: &[u8], ok: bool) {
    match parse(b) {
        None => {
            check(!ok, "a valid name was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "an invalid name was accepted");
            let Some(n) = recorded(&f, place) else { fail("the name is lost") };
            check(n.len() == name.len(), "the name recorded has another length");
            check(n.as_bytes() == name, "the name recorded is not the one written");
            reach(1);
        }
    }
}

/// Arbitrary characters where a name is expected. 1: place, 2: characters, 3: multi-byte, 4: prefix
pub fn idents() {
    let place = param(1) as usize;
    let (pre, post) = NAME_PLACES[place];
    let mut t: Vec<u8> = [&b""[..], b"a", b"Ab", b"_", b"9", b"option", b"M"][param(4) as usize].to_vec();
    for _ in 0..param(2) {
        any_char(&mut t, param(3) != 0);
    }
    for &c in &t {
        // these separate tokens, so that more than a name would stand there
        assume(!((c == b' ') | ((c >= 9) & (c <= 13)) | (c == b'/') | (c == b'.') | (c == b';') | (c == b'#')));
    }
    let mut ok = identifier(&t);
    if ok && (place == 15 || place == 16) {
        ok = fork((t[0] >= b'A') & (t[0] <= b'Z'));
    }
    if ok && (place == 2 || place == 17) {
        // `option` and `reserved` start other statements there
        ok = &t[..] != b"option" && &t[..] != b"reserved";
    }
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    verdict(&b, place, &t, ok);
}

pub static KEYWORDS: &[&str] = &[
    "bool", "bytes", "double", "enum", "extend", "extensions", "fixed32", "fixed64", "float", "group", "import", "inf", "int32", "int64", "map", "max", "message", "nan", "oneof", "option", "optional", "package", "public",
    "repeated", "required", "reserved", "returns", "rpc", "service", "sfixed32", "sfixed64", "sint32", "sint64", "stream", "string", "syntax", "to", "true", "false", "uint32", "uint64", "weak", "default", "json_name", "edition", "export", "local",
];

/// Keywords as names, alone, or extended by a symbolic character. 1: characters appended
pub fn keywords() {
    let k = choice(KEYWORDS.len());
    let place = choice(NAME_PLACES.len());
    let group = place == 15 || place == 16;
    let mut t = KEYWORDS[k].as_bytes().to_vec();
    let alone = param(1) == 0;
    for _ in 0..param(1) {
        t.push(of(&WORD));
    }
    if alone && (place == 2 || place == 17) {
        assume(&t[..] != b"option" && &t[..] != b"reserved");
    }
    if group && flag() {
        t[0] -= 32;
    }
    let ok = !group || (t[0] >= b'A' && t[0] <= b'Z');
    let (pre, post) = NAME_PLACES[place];
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    verdict(&b, place, &t, ok);
}

/// Quoted reserved names. 1: characters, 2: multi-byte, 3: shape
pub fn reserved() {
    let (x, y) = [("", ""), ("a", ""), ("_", "9"), ("", "a"), ("9", ""), ("\\x4", ""), ("\\1", "1"), ("max", ""), ("ab\\", "_")][param(3) as usize];
    let q = [b'"', b'\''][choice(2)];
    let mut t = vec![q];
    t.extend_from_slice(x.as_bytes());
    for _ in 0..param(1) {
        any_char(&mut t, param(2) != 0);
    }
    t.extend_from_slice(y.as_bytes());
    t.push(q);
    let n = t.len();
    let lit = match string_literal(&t, 0) {
        Lit::Ok(v, end) => {
            assume(end == n);
            Some(v)
        }
        Lit::Bad => None,
    };
    let place = choice(3);
    let (pre, post) = [("message M { reserved ", "; }"), ("enum E { A = 0; reserved 'x', ", ", 'y'; }"), ("message M { reserved 'A', ", "; message N { } }")][place];
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    let r = parse(&b);
    let ok = match &lit {
        Some(v) => identifier(v),
        None => false,
    };
    match r {
        None => {
            check(!ok, "a valid reserved name was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "an invalid reserved name was accepted");
            let v: &[String] = if place == 1 { &f.enum_type[0].reserved_name } else { &f.message_type[0].reserved_name };
            check(v.len() == [1, 3, 2][place], "a reserved name is lost or added");
            let got = v[[0, 1, 1][place]].as_bytes();
            let want = lit.unwrap();
            check(got.len() == want.len(), "the reserved name has another length");
            check(got == &want[..], "the reserved name is not the one written");
            reach(1);
        }
    }
}
