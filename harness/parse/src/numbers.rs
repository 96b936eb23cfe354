//! Integer literals in every position.
use prost_types::FileDescriptorProto;
use sym::*;

/// How a literal is written: radix and the fixed digits before the symbolic ones.
pub static FAMILIES: &[(u32, &str, &str)] = &[
    (10, "", ""),
    (10, "", "4"),
    (10, "", "2147483"),
    (10, "", "21474836"),
    (10, "", "42949672"),
    (10, "", "5368709"),
    (10, "", "53687091"),
    (10, "", "922337203685477580"),
    (10, "", "18446744073709551"),
    (10, "", "1844674407370955161"),
    (10, "", "99999999999999999999999"),
    (8, "0", ""),
    (8, "0", "0"),
    (8, "0", "17777777"),
    (8, "0", "77777777777"),
    (8, "0", "1777777777777777777"),
    (8, "0", "17777777777777777777"),
    (8, "0", "2777777777777777777777"),
    (16, "0x", ""),
    (16, "0X", "7fffff"),
    (16, "0x", "1FfFfF"),
    (16, "0x", "7FFFFFFFFFFFFF"),
    (16, "0X", "ffffffffffffff"),
    (16, "0x", "0000000ffffffffffffff"),
    (16, "0x", "10000000000000000"),
    (10, "", "0"),
];
pub const NFAM: usize = 26;

pub struct Lit {
    pub text: Vec<u8>,
    /// `None`: not a literal (8 or 9 in octal), or above 2^64-1
    pub ok: bool,
    pub value: u64,
}

/// A literal of the family with `k` symbolic digits.
pub fn literal(fam: usize, k: usize) -> Lit {
    let (radix, lead, pre) = FAMILIES[fam];
    let mut text: Vec<u8> = lead.as_bytes().to_vec();
    text.extend_from_slice(pre.as_bytes());
    let mut base: u128 = 0;
    for c in pre.bytes() {
        base = base * radix as u128 + (c as char).to_digit(16).unwrap() as u128;
    }
    let mut ok = true;
    let mut s: u64 = 0;
    // fam 25 is the literal 0 itself
    let k = if fam == 25 { 0 } else { k };
    for i in 0..k {
        let d = match radix {
            10 | 8 => {
                let first = radix == 10 && i == 0 && pre.is_empty();
                let c = range(if first { b'1' } else { b'0' }, b'9');
                text.push(c);
                if radix == 8 && fork(c > b'7') {
                    ok = false;
                }
                c - b'0'
            }
            _ => {
                let c = byte();
                let dec = (c >= b'0') & (c <= b'9');
                let l = c | 0x20;
                let alpha = (l >= b'a') & (l <= b'f');
                assume(dec | alpha);
                text.push(c);
                if fork(dec) {
                    c - b'0'
                } else {
                    l - b'a' + 10
                }
            }
        };
        base *= radix as u128;
        s = s * radix as u64 + d as u64;
    }
    let max = u64::MAX as u128;
    if base > max {
        return Lit { text, ok: false, value: 0 };
    }
    let room = (max - base) as u64;
    if ok && fork(s > room) {
        ok = false;
    }
    Lit { text, ok, value: if ok { base as u64 + s } else { 0 } }
}

pub fn parse(b: &[u8]) -> Option<FileDescriptorProto> {
    src(b);
    let r = crate::common::run(b).ok();
    note(&[r.is_some() as u8]);
    r
}

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(256);
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

/// C03: the value of an option. 1: symbolic digits
pub fn literals() {
    let neg = choice(2) == 1;
    let lit = literal(choice(NFAM), if neg { 1 } else { param(1) as usize });
    let b = cat(&[b"option a = ", if neg { b"- " } else { b"" }, &lit.text, b";"]);
    let r = parse(&b);
    let fits = lit.ok && !(neg && fork(lit.value > 1 << 63));
    match r {
        None => {
            check(!fits, "an integer literal that fits was rejected");
            reach(2);
        }
        Some(f) => {
            check(fits, "an integer literal that does not fit was accepted");
            let Some(o) = f.options else { fail("option lost") };
            check(o.uninterpreted_option.len() == 1, "one option expected");
            let o = &o.uninterpreted_option[0];
            if neg {
                check(o.positive_int_value.is_none(), "a negative literal has a positive value");
                check(o.negative_int_value == Some((lit.value as i64).wrapping_neg()), "negative literal has another value");
            } else {
                check(o.negative_int_value.is_none(), "a positive literal has a negative value");
                check(o.positive_int_value == Some(lit.value), "literal has another value");
            }
            check(o.double_value.is_none() & o.string_value.is_none() & o.identifier_value.is_none() & o.aggregate_value.is_none(), "more than one value");
            reach(1);
        }
    }
}

/// Where an integer may appear.
pub static INT_PLACES: &[(&str, &str)] = &[
    ("option a = ", ";"),
    ("message A { optional int32 b = ", "; }"),
    ("message A { reserved ", "; }"),
    ("message A { reserved 1 to ", "; }"),
    ("message A { extensions ", "; }"),
    ("message A { extensions 2, ", " to max; }"),
    ("enum A { B = ", "; }"),
    ("enum A { B = 0; reserved -", "; }"),
    ("message A { optional int32 a = 1 [default = ", "]; }"),
    ("message A { optional double a = 1 [default = -", "]; }"),
    ("message A { map<int32, string> a = ", "; }"),
    ("extend A { optional group G = ", " {} }"),
    ("message A { oneof o { A b = ", "; } }"),
    ("message A { reserved 1, ", "\nto 20; }"),
    ("option a = { b: ", " };"),
    ("option a = { b { c: [1, ", "] } };"),
    ("message A { option (a) = { b: ", ", c: 3 }; }"),
];

/// C03: an integer literal directly followed by a letter or underscore is rejected, whatever
/// else follows. 1: place
pub fn adjacent() {
    let (pre, post) = INT_PLACES[param(1) as usize];
    let lit = literal(choice(NFAM), 1);
    let c = byte();
    assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_'));
    // a letter may only extend the literal where digits are hexadecimal or make it a float
    let hexdigit = ((c | 0x20) >= b'a') & ((c | 0x20) <= b'f');
    if lit.text.len() > 1 && (lit.text[1] | 0x20) == b'x' {
        assume(!hexdigit);
    } else if param(1) >= 14 {
        // in the text format `1f` is a float
        assume((c | 0x20) != b'f');
    }
    // a word which could follow the literal where there is a blank between the two
    let mut d = b'o';
    let rest: &[u8] = match choice(7) {
        0 => b"",
        1 => b"z",
        2 => b" ",
        3 => b": 2",
        4 => b" { }",
        5 => {
            d = range(b'a', b'z');
            // `0xa` is a literal
            assume((lit.text.len() != 1) | ((c | 0x20) != b'x') | (d > b'f'));
            b" 536870911"
        }
        _ => b"o max",
    };
    let second: &[u8] = if rest.len() == 10 { &[d] } else { b"" };
    let b = cat(&[pre.as_bytes(), &lit.text, &[c], second, rest, post.as_bytes()]);
    match parse(&b) {
        None => reach(1),
        Some(_) => fail("an integer literal followed by a letter was accepted"),
    }
}

fn in_message(v: i64) -> bool {
    (v >= 1) & (v <= 536870911)
}

fn in_enum(v: i64) -> bool {
    (v >= -2147483648) & (v <= 2147483647)
}

/// A signed literal: text and value, `None` when it is not within 64 bits (hence out of any range).
fn signed(fam: usize, k: usize) -> (Vec<u8>, Option<i64>) {
    let neg = choice(2) == 1;
    let lit = literal(fam, k);
    let mut t = vec![];
    if neg {
        t.extend_from_slice(if choice(2) == 0 { b"-" } else { b"- " });
    }
    t.extend_from_slice(&lit.text);
    if !lit.ok || fork(lit.value > 1 << 62) {
        return (t, None);
    }
    let v = lit.value as i64;
    (t, Some(if neg { -v } else { v }))
}

/// Families around the boundaries that matter for field and enum numbers.
static NEAR: [usize; 13] = [25, 0, 1, 2, 4, 5, 6, 8, 11, 13, 14, 19, 20];

/// C04/C05 single numbers. 1: place, 2: symbolic digits
pub fn number() {
    let place = param(1) as usize;
    let (t, v) = signed(NEAR[choice(NEAR.len())], param(2) as usize);
    let enum_ = place >= 8;
    let (pre, post): (&str, &str) = [
        ("message A { optional int32 b = ", "; }"),
        ("syntax = 'proto3'; message A { b.c d = ", " [a = 1]; }"),
        ("message A { oneof o { bool b = ", "; } }"),
        ("message A { map<int32, string> b = ", "; }"),
        ("message A { optional group B = ", " { } }"),
        ("extend A { repeated int32 b = ", "; }"),
        ("message C { extend A { optional group B = ", " {} } }"),
        ("message A { message B { optional string b = ", "; } }"),
        ("enum A { B = ", "; }"),
        ("message A { enum B { X = 0; C = ", " [a = 1]; } }"),
    ][place];
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    let r = parse(&b);
    let ok = match v {
        None => false,
        Some(v) => fork(if enum_ { in_enum(v) } else { in_message(v) }),
    };
    match r {
        None => {
            check(!ok, "a valid number was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "a number out of range was accepted");
            let n = match place {
                0 | 1 | 2 | 3 | 4 => f.message_type[0].field[0].number,
                5 => f.extension[0].number,
                6 => f.message_type[0].extension[0].number,
                7 => f.message_type[0].nested_type[0].field[0].number,
                8 => f.enum_type[0].value[0].number,
                _ => f.message_type[0].enum_type[0].value[1].number,
            };
            check(n == Some(v.unwrap() as i32), "the number stored is not the one written");
            reach(1);
        }
    }
}

/// C04/C05 ranges. 1: place (0 reserved, 1 extensions, 2 enum reserved, 3 extensions with options),
/// 2: symbolic digits, 3: 1 in a message set (the option before or after the range)
pub fn ranges() {
    let place = param(1) as usize;
    let k = param(2) as usize;
    let enum_ = place == 2;
    let (t1, v1) = signed(NEAR[choice(NEAR.len())], k);
    let second = choice(3);
    // a second range follows or precedes
    let extra = choice(3);
    let (t2, v2) = if second == 1 { signed([1, 4, 6, 20, 25][choice(5)], k) } else { (vec![], None) };
    let (pre, post): (&str, &str) = match place {
        0 => ("message A { reserved ", "; }"),
        1 => ("message A { extensions ", "; }"),
        2 => ("enum A { B = 0; reserved ", "; }"),
        _ => ("message A { extensions ", " [a = 1]; }"),
    };
    let set = param(3) == 1;
    let option = "option message_set_wire_format = true; ";
    let (pre, post) = match (set, set && flag()) {
        (false, _) => (pre.to_string(), post.to_string()),
        (_, true) => (pre.replace("{ ", &format!("{{ {option}")), post.to_string()),
        _ => (pre.to_string(), post.replace("}", &format!(" {option}}}"))),
    };
    let b = cat(&[
        pre.as_bytes(),
        if extra == 1 { b"5 to 6, " } else { b"" },
        &t1,
        match second {
            0 => b"",
            1 => b" to ",
            _ => b" to max",
        },
        &t2,
        if extra == 2 { b", 8" } else { b"" },
        post.as_bytes(),
    ]);
    let r = parse(&b);
    let good = |v: Option<i64>| match v {
        None => false,
        Some(v) => fork(if enum_ { in_enum(v) } else { in_message(v) }),
    };
    let ok = good(v1) && (second != 1 || good(v2));
    match r {
        None => {
            check(!ok, "a valid range was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "a range bound out of range was accepted");
            let inc = if enum_ { 0 } else { 1 };
            let s = v1.unwrap() as i32;
            let e = match second {
                0 => s + inc,
                1 => v2.unwrap() as i32 + inc,
                _ if enum_ || set => i32::MAX,
                _ => 536870912,
            };
            let all: Vec<(Option<i32>, Option<i32>)> = match place {
                0 => f.message_type[0].reserved_range.iter().map(|r| (r.start, r.end)).collect(),
                2 => f.enum_type[0].reserved_range.iter().map(|r| (r.start, r.end)).collect(),
                _ => f.message_type[0].extension_range.iter().map(|r| (r.start, r.end)).collect(),
            };
            check(all.len() == if extra == 0 { 1 } else { 2 }, "a range was lost or added");
            let at = if extra == 1 { 1 } else { 0 };
            check(all[at].0 == Some(s), "the start stored is not the one written");
            check(all[at].1 == Some(e), "the end stored is not the one written");
            if extra == 1 {
                check(all[0] == (Some(5), Some(6 + inc)), "the range before is not the one written");
            }
            if extra == 2 {
                check(all[1] == (Some(8), Some(8 + inc)), "the range after is not the one written");
            }
            reach(1);
        }
    }
}

/// C04: where `max` ends. 1: extensions (0) or reserved (1)
pub fn message_set() {
    let kw: &[u8] = if param(1) == 0 { b"extensions " } else { b"reserved " };
    // the option, its value and where it stands
    let opts: [(&[u8], bool); 10] = [
        (b"", false),
        (b"option message_set_wire_format = true;", true),
        (b"option message_set_wire_format = false;", false),
        (b"option (message_set_wire_format) = true;", false),
        (b"option message_set_wire_format.x = true;", false),
        (b"option x = true;", false),
        (b"option x = false; option message_set_wire_format = true;", true),
        (b"option message_set_wire_format = true; option deprecated = false;", true),
        (b"option message_set_wire_format = { true };", false),
        (b"option message_set_wire_format_ = true;", false),
    ];
    let (o, set) = opts[choice(opts.len())];
    let before = choice(2) == 0;
    // the message itself, or something nested in or around it
    let place = choice(7);
    let d = range(b'1', b'9');
    let range_ = cat(&[kw, &[d], b" to max;"]);
    let body = if before { cat(&[o, &range_]) } else { cat(&[&range_, o]) };
    let b = match place {
        0 => cat(&[b"message A {", &body, b"}"]),
        1 => cat(&[b"message O { message A {", &body, b"} }"]),
        2 => cat(&[b"message O {", o, b"message A {", &range_, b"} }"]),
        3 => cat(&[b"message O { message B {", o, b"} ", &range_, b" }"]),
        4 => cat(&[b"message O { optional group A = 1 {", &body, b"} }"]),
        5 => cat(&[o, b"message A {", &range_, b"}"]),
        _ => cat(&[b"message P {", o, b"} message A {", &range_, b"}"]),
    };
    let Some(f) = parse(&b) else { fail("a valid file was rejected") };
    let (m, set) = match place {
        0 => (&f.message_type[0], set),
        1 | 4 => (&f.message_type[0].nested_type[0], set),
        2 => (&f.message_type[0].nested_type[0], false),
        3 => (&f.message_type[0], false),
        5 => (&f.message_type[0], false),
        _ => (&f.message_type[1], false),
    };
    let (s, e) = if param(1) == 0 {
        check(m.extension_range.len() == 1, "one range expected");
        (m.extension_range[0].start, m.extension_range[0].end)
    } else {
        check(m.reserved_range.len() == 1, "one range expected");
        (m.reserved_range[0].start, m.reserved_range[0].end)
    };
    check(s == Some((d - b'0') as i32), "the start stored is not the one written");
    check(e == Some(if set { 2147483647 } else { 536870912 }), "'max' ends elsewhere");
    reach(if set { 2 } else { 1 });
}
