//! Field defaults.
use crate::gen::{dec, part, SCALARS, WORD};
use crate::numbers::{cat, literal, parse};
use crate::refs::*;
use prost_types::{FieldDescriptorProto, UninterpretedOption};
use sym::*;

/// A written value and what it is.
pub enum Val {
    Int { neg: bool, v: Option<u64> },
    Float(f64),
    Ident { neg: bool, name: Vec<u8> },
    Str(Vec<u8>),
    /// aggregates, bare punctuation: never a default
    Never,
}

pub static FLOATS: &[&str] = &[
    "1.5", "0.0", ".5", "5.", "1e10", "1E-5", "2.5e+3", "1.7976931348623157e308", "5e-324", "123456789.123456789", "0.1", "100.0", "1e22", "9007199254740993.0", "3.4028235e38", "00.5", "1e0", "1.0e-7",
];
static IDENTS: &[&str] = &["true", "false", "inf", "nan", "infinity", "True", "TRUE", "Inf", "NaN", "t", "f", "message", "max", "default", "_", "A1"];
static STRS: &[(&str, &[u8])] = &[
    ("''", b""),
    ("\"\"", b""),
    ("'a' \"b\"", b"ab"),
    ("'true'", b"true"),
    ("'1'", b"1"),
    ("'\\n\\t\\r\\\\\\'\\\"'", b"\n\t\r\\'\""),
    ("'\\0'", b"\0"),
    ("'\\x7f'", b"\x7f"),
    ("'\\x1f1'", b"\x1f1"),
    ("'\\xff'", b"\xff"),
    ("'\\303\\251'", b"\xc3\xa9"),
    ("'\\303' '\\251'", b"\xc3\xa9"),
    ("'\\xc3('", b"\xc3("),
    ("'\u{20ac}'", b"\xe2\x82\xac"),
    ("'\\xed\\xa0\\x80'", b"\xed\xa0\x80"),
    ("'\\u00e9'", b"\xc3\xa9"),
    ("'inf'", b"inf"),
    ("\"it's\"", b"it's"),
];

/// The written value: class 0 integers, 1 floats, 2 identifiers, 3 strings, 4 others, 5 an
/// identifier with symbolic characters, 6 a string with symbolic characters
fn value(class: usize, k: usize) -> (Vec<u8>, Val) {
    let mut t = vec![];
    match class {
        0 => {
            let neg = flag();
            // families near the bounds of 32 and 64 bits, and the radices
            let l = literal([25, 0, 2, 3, 4, 7, 8, 9, 10, 11, 12, 14, 15, 17, 18, 19, 22, 23][choice(18)], k);
            if neg {
                t.push(b'-');
                if flag() {
                    t.push(b'\n');
                }
            }
            t.extend_from_slice(&l.text);
            (t, Val::Int { neg, v: if l.ok { Some(l.value) } else { None } })
        }
        1 => {
            let neg = flag();
            let f = FLOATS[choice(FLOATS.len())];
            if neg {
                t.extend_from_slice(b"- ");
            }
            t.extend_from_slice(f.as_bytes());
            let v: f64 = f.parse().unwrap();
            (t, Val::Float(if neg { -v } else { v }))
        }
        2 => {
            let neg = flag();
            let n = IDENTS[choice(IDENTS.len())];
            if neg {
                t.extend_from_slice(b"-");
            }
            t.extend_from_slice(n.as_bytes());
            (t, Val::Ident { neg, name: n.as_bytes().to_vec() })
        }
        3 => {
            let (s, v) = STRS[choice(STRS.len())];
            t.extend_from_slice(s.as_bytes());
            (t, Val::Str(v.to_vec()))
        }
        4 => {
            t.extend_from_slice([&b"{ a: 1 }"[..], b"{}", b"- 'a'", b"", b"+1", b"- -1", b"a.b", b".a", b"1 2", b"1.5f", b"2f", b"1_", b"<>"][choice(13)]);
            (t, Val::Never)
        }
        5 => {
            let mut n = vec![of(&HEAD)];
            for _ in 0..k {
                n.push(of(&WORD));
            }
            t.extend_from_slice(&n);
            (t, Val::Ident { neg: false, name: n })
        }
        _ => {
            t.push(b'"');
            for _ in 0..k {
                t.push(byte_in_literal());
            }
            t.push(b'"');
            match string_literal(&t, 0) {
                Lit::Ok(v, e) if e == t.len() => (t, Val::Str(v)),
                _ => {
                    assume(false);
                    (t, Val::Never)
                }
            }
        }
    }
}

static HEAD: [bool; 256] = crate::gen::table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_");

/// An ASCII character, or a backslash starting an escape.
fn byte_in_literal() -> u8 {
    range(0, 0x7f)
}

/// C unescaping of a bytes default: octal of up to three digits, and hexadecimal, where every
/// digit belongs to the escape (readers differ on longer ones, so they must not occur).
fn unescape(t: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        i += 1;
        if !fork(c == b'\\') {
            check((c >= 0x20) & (c < 0x7f), "an unprintable character is not escaped");
            out.push(c);
            continue;
        }
        check(i < t.len(), "escaped text ends in a backslash");
        let e = t[i];
        i += 1;
        let mut found = false;
        for (x, v) in [(b'n', b'\n'), (b'r', b'\r'), (b't', b'\t'), (b'\\', b'\\'), (b'\'', b'\''), (b'"', b'"'), (b'a', 7), (b'b', 8), (b'f', 12), (b'v', 11)] {
            if fork(e == x) {
                out.push(v);
                found = true;
                break;
            }
        }
        if found {
            continue;
        }
        if fork(e == b'x') {
            let mut v = 0u32;
            let mut n = 0;
            while i < t.len() {
                let Some(h) = hexval(t[i]) else { break };
                v = v << 4 | h;
                i += 1;
                n += 1;
            }
            check((n == 1) | (n == 2), "a hexadecimal escape runs into the next digit");
            out.push(v as u8);
            continue;
        }
        check((e >= b'0') & (e <= b'7'), "an escape no reader understands");
        let mut v = (e - b'0') as u32;
        let mut n = 1;
        while n < 3 && i < t.len() && is(t[i], b'0', b'7') {
            v = v * 8 + (t[i] - b'0') as u32;
            i += 1;
            n += 1;
        }
        check(v < 256, "an octal escape out of range");
        out.push(v as u8);
    }
    out
}

/// Is the value acceptable for the type (15: named), and is this its text?
fn accepts(ty: usize, v: &Val) -> Option<bool> {
    Some(match (ty, v) {
        (0 | 1, Val::Int { v, .. }) => v.is_some(),
        (0 | 1, Val::Float(_)) => true,
        (0 | 1, Val::Ident { name, .. }) => fork(eq(name, b"inf") | eq(name, b"nan")),
        (0 | 1, _) => false,
        (2..=11, Val::Int { neg, v }) => {
            let Some(v) = *v else { return Some(false) };
            // int32, int64, uint32, uint64, ...
            let unsigned = [false, false, true, true, false, false, true, true, false, false][ty - 2];
            let bits = [32, 64, 32, 64, 32, 64, 32, 64, 32, 64][ty - 2];
            if unsigned {
                // "-0": the value is in range, the sign is not of the type
                if *neg && fork(v == 0) {
                    return None;
                }
                !*neg && fork(bits == 64 || v <= u32::MAX as u64)
            } else {
                fork(v <= (1u64 << (bits - 1)) - if *neg { 0 } else { 1 })
            }
        }
        (2..=11, _) => false,
        (12, Val::Ident { neg, name }) => !neg && fork(eq(name, b"true") | eq(name, b"false")),
        (12, _) => false,
        (13, Val::Str(s)) => utf8(s),
        (13, _) => false,
        (14, Val::Str(_)) => true,
        (14, _) => false,
        (_, Val::Ident { neg: false, .. }) => true,
        // for a named type only identifiers are settled: whether it names an enum is not known here
        _ => return None,
    })
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..b.len() {
            r &= a[i] == b[i];
        }
    }
    r
}

fn denotes(ty: usize, v: &Val, text: &str) {
    let t = text.as_bytes();
    match (ty, v) {
        (0 | 1, Val::Int { neg, v }) => {
            let mut want = String::from(if *neg { "-" } else { "" });
            want.push_str(&dec(conc(v.unwrap())));
            same_float(t, want.parse().unwrap());
        }
        (0 | 1, Val::Float(f)) => same_float(t, *f),
        (0 | 1, Val::Ident { neg, name }) => {
            if fork(name[0] == b'i') {
                check(t == if *neg { &b"-inf"[..] } else { b"inf" }, "infinity is not preserved");
            } else {
                check(t == b"nan" || *neg && t == b"-nan", "nan is not preserved");
            }
        }
        (2..=11, Val::Int { neg, v }) => {
            let v = conc(v.unwrap());
            let mut want = String::from(if *neg && v != 0 { "-" } else { "" });
            want.push_str(&dec(v));
            check(t == want.as_bytes(), "the integer is not its decimal value");
        }
        (12, Val::Ident { name, .. }) => check(eq(t, name), "the boolean is not preserved"),
        (13, Val::Str(s)) => check(eq(t, s), "the string is not verbatim"),
        (14, Val::Str(s)) => {
            let u = unescape(t);
            check(u.len() == s.len(), "unescaping gives other bytes");
            check(eq(&u, s), "unescaping gives other bytes");
        }
        (_, Val::Ident { name, .. }) => check(eq(t, name), "the enum value name is not verbatim"),
        _ => fail("unreachable"),
    }
}

fn same_float(t: &[u8], want: f64) {
    // a plain number a text reader understands
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match s.parse::<f64>() {
        Ok(x) => {
            check(x == want, "the number does not parse back to the same value");
            check(x.is_sign_negative() == want.is_sign_negative(), "the sign is lost");
        }
        Err(_) => fail("the number does not parse"),
    }
    check(t.iter().all(|c| c.is_ascii_digit() || matches!(c, b'.' | b'-' | b'e' | b'+')) && (t[0] == b'-' || t[0].is_ascii_digit()), "not a plain number");
}

static PLACES: &[(&str, &str, bool)] = &[
    // before the type, after the option list; may a default stand here?
    ("message A { optional ", "; }", true),
    ("message A { required ", "; }", true),
    ("message A { oneof o { ", "; } }", true),
    ("extend A { optional ", "; }", true),
    ("syntax = 'proto2'; message A { message B { optional ", "; } }", true),
    ("message A { optional group G = 1 { optional ", "; } }", true),
    ("message A { repeated ", "; }", false),
    ("extend A { repeated ", "; }", false),
    ("syntax = 'proto3'; message A { ", "; }", false),
    ("syntax = 'proto3'; message A { optional ", "; }", false),
    ("syntax = 'proto3'; message A { oneof o { ", "; } }", false),
    ("syntax = 'proto3'; extend A { optional ", "; }", false),
    ("message A { extend B { optional ", "; } }", true),
];
pub const NPLACES: usize = 13;

fn type_text(ty: usize) -> &'static str {
    if ty < 15 {
        SCALARS[ty].0
    } else {
        ".p.E"
    }
}

fn get(f: &prost_types::FileDescriptorProto, place: usize) -> &FieldDescriptorProto {
    match place {
        0 | 1 | 2 => &f.message_type[0].field[0],
        3 => &f.extension[0],
        4 => &f.message_type[0].nested_type[0].field[0],
        5 => &f.message_type[0].nested_type[0].field[0],
        _ => &f.message_type[0].extension[0],
    }
}

/// Options around the default: they stay, in order.
fn around(k: usize) -> (&'static [u8], &'static [u8], Vec<UninterpretedOption>) {
    let pos = |n: &str, v| UninterpretedOption { name: vec![part(n, false)], positive_int_value: Some(v), ..Default::default() };
    match k {
        0 => (b"", b"", vec![]),
        1 => (b"a = 1, ", b"", vec![pos("a", 1)]),
        2 => (b"", b", (default) = 2", {
            let mut o = pos("default", 2);
            o.name[0].is_extension = true;
            vec![o]
        }),
        3 => (b"default.x = 3, ", b", b = 4", {
            let mut o = pos("default", 3);
            o.name.push(part("x", false));
            vec![o, pos("b", 4)]
        }),
        _ => (b"json_name = 'j', ", b", defaults = 5", vec![pos("defaults", 5)]),
    }
}

/// 1: type (15 named), 2: value class, 3: symbolic characters, 4: place (13: any), 5: surroundings (5: any)
pub fn defaults() {
    let ty = param(1) as usize;
    let place = if param(4) as usize == NPLACES { choice(NPLACES) } else { param(4) as usize };
    let ar = if param(5) == 5 { choice(5) } else { param(5) as usize };
    let (t, v) = value(param(2) as usize, param(3) as usize);
    let (pre, post, allowed) = PLACES[place];
    let (a, z, opts) = around(ar);
    let b = cat(&[pre.as_bytes(), type_text(ty).as_bytes(), b" x = 1 [", a, b"default = ", &t, z, b"]", post.as_bytes()]);
    let r = parse(&b);
    let ok = match v {
        _ if !allowed => Some(false),
        // what an aggregate is to a named type is settled where the type is known
        Val::Never if ty == 15 && t.first() == Some(&b'{') => None,
        Val::Never => Some(false),
        _ => accepts(ty, &v),
    };
    match r {
        None => {
            check(ok != Some(true), "a valid default was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok != Some(false), "an invalid default was accepted");
            if ok.is_none() {
                return;
            }
            let d = get(&f, place);
            let Some(text) = &d.default_value else { fail("the default is lost") };
            denotes(ty, &v, text);
            let left: &[UninterpretedOption] = d.options.as_ref().map(|o| &o.uninterpreted_option[..]).unwrap_or(&[]);
            check(left == &opts[..], "the other options are not as written");
            check(d.json_name.as_deref() == if ar == 4 { Some("j") } else { None }, "json_name is not as written");
            reach(1);
        }
    }
}

/// Defaults on maps and groups, and options that are no defaults. 1: value class
pub fn nodefault() {
    let (t, v) = value(param(1) as usize, 1);
    let places: [(&[u8], &[u8]); 6] = [
        (b"message A { map<int32, string> m = 1 [default = ", b"]; }"),
        (b"message A { map<string, E> m = 1 [a = 1, default = ", b"]; }"),
        (b"message A { optional group G = 1 [default = ", b"] {} }"),
        (b"message A { oneof o { group G = 1 [default = ", b", a = 1] {} } }"),
        (b"extend A { repeated group G = 1 [default = ", b"] { optional int32 a = 1; } }"),
        (b"extend A { required group G = 1 [default = ", b"] {} }"),
    ];
    let (pre, post) = places[choice(6)];
    let b = cat(&[pre, &t, post]);
    drop(v);
    check(parse(&b).is_none(), "a default was accepted on a map or group");
    reach(2);
}
