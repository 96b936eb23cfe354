//! Extension options: what is written in the source is what the encoded descriptor set holds.
//!
//! The parser hands option values on as text and literals; they are interpreted when the file is
//! added to the pool. The values expected here are computed from the written literals.
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use std::cell::RefCell;
use std::rc::Rc;
use sym::*;

static OPTIONS: &[&str] = &["File", "Message", "Field", "Enum", "EnumValue", "Service", "Method", "Oneof", "ExtensionRange"];

/// Where the option is written (`\x01`), and where the options message is in the encoded file.
static PLACES: &[(&str, &[u32])] = &[
    ("option \x01;", &[8]),
    ("message M { optional int32 a = 1; option \x01; }", &[4, 7]),
    ("message M { optional int32 a = 1 [ \x01 ]; }", &[4, 2, 8]),
    ("enum F { option \x01; Z = 0; }", &[5, 3]),
    ("enum F { Z = 0 [\x01]; }", &[5, 2, 3]),
    ("service S { option \x01; }", &[6, 3]),
    ("service S { rpc R(V) returns (V) { option \x01; } }", &[6, 2, 4]),
    ("message M { oneof o { option \x01; int32 a = 1; } }", &[4, 8, 2]),
    ("message M { extensions 5 to 6 [\x01]; }", &[4, 5, 3]),
];

fn descriptor_proto() -> String {
    let mut s = String::from("syntax = \"proto2\"; package google.protobuf;");
    for o in OPTIONS {
        s.push_str("message ");
        s.push_str(o);
        s.push_str("Options { repeated UninterpretedOption uninterpreted_option = 999; extensions 1000 to max; }\n");
    }
    s.push_str("message UninterpretedOption { message NamePart { required string name_part = 1; required bool is_extension = 2; } repeated NamePart name = 2; optional string identifier_value = 3; optional uint64 positive_int_value = 4; optional int64 negative_int_value = 5; optional double double_value = 6; optional bytes string_value = 7; optional string aggregate_value = 8; }");
    s
}

fn extensions(place: usize) -> String {
    let mut s = String::from("syntax = 'proto2'; import public 'google/protobuf/descriptor.proto'; ");
    s.push_str("enum E { E_A = 3; E_B = -1; e_c = 300; } ");
    s.push_str("message V { optional int32 a = 1; optional string s = 2; repeated int32 r = 3; optional V v = 4; optional E e = 5; optional bytes y = 6; optional bool b = 7; repeated V w = 8; optional double d = 9; optional uint64 u = 10; extensions 20; } ");
    s.push_str("extend V { optional int32 x = 20; } extend google.protobuf.");
    s.push_str(OPTIONS[place]);
    s.push_str("Options { optional int32 i = 1000; optional uint64 u = 1001; optional bool b = 1002; optional E e = 1003; optional string s = 1004; optional bytes y = 1005; optional double d = 1006; optional V v = 1007; repeated int32 r = 1008; optional sint32 z = 1009; optional fixed32 f = 1010; optional int64 l = 1011; optional float g = 1012; repeated string t = 1013; }");
    s
}

#[derive(Clone)]
struct Files(usize, Rc<RefCell<Vec<u8>>>);

impl FileResolver for Files {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        match name {
            "google/protobuf/descriptor.proto" => File::from_source(name, &descriptor_proto()),
            "e" => File::from_source(name, &extensions(self.0)),
            "m" => File::from_source(name, unsafe { std::str::from_utf8_unchecked(&self.1.borrow()) }),
            _ => Err(Error::file_not_found(name)),
        }
    }
}

fn varint(o: &mut Vec<u8>, mut v: u64) {
    while fork(v >= 0x80) {
        o.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}

fn tag(o: &mut Vec<u8>, n: u32, wire: u32) {
    let mut v = n << 3 | wire;
    while v >= 0x80 {
        o.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}

fn bytes(o: &mut Vec<u8>, n: u32, b: &[u8]) {
    tag(o, n, 2);
    varint(o, b.len() as u64);
    o.extend_from_slice(b);
}

struct Text {
    t: Vec<u8>,
    /// how to separate things, once it matters
    gap: Option<usize>,
}

impl Text {
    fn s(&mut self, s: &str) {
        self.t.extend_from_slice(s.as_bytes());
    }
    /// An integer literal of up to `n` digits, perhaps in hexadecimal or octal; its value.
    fn int(&mut self, n: usize) -> u64 {
        if n == 0 {
            let d = [0, 1, 8][choice(3)];
            self.t.push(b'0' + d);
            return d as u64;
        }
        let (prefix, radix) = [("", 10), ("0x", 16), ("0", 8)][choice(3)];
        self.s(prefix);
        let n = 1 + choice(n);
        let mut v = 0u64;
        for i in 0..n {
            let d = if radix == 16 && flag() {
                let d = range(b'a', b'f');
                self.t.push(d);
                d - b'a' + 10
            } else {
                let d = range(if i == 0 && radix == 10 && n > 1 { b'1' } else { b'0' }, if radix == 8 { b'7' } else { b'9' });
                self.t.push(d);
                d - b'0'
            };
            v = v * radix + d as u64;
        }
        v
    }
    fn signed(&mut self, n: usize) -> i64 {
        if flag() {
            self.s(if n == 0 || flag() { "-" } else { "- " });
            (self.int(n) as i64).wrapping_neg()
        } else {
            self.int(n) as i64
        }
    }
    /// A string literal of up to `n` elements; the bytes it denotes.
    fn string(&mut self, n: usize, binary: bool) -> Vec<u8> {
        let n = choice(n + 1);
        let mut v = vec![];
        let q = if flag() { b'\'' } else { b'"' };
        self.t.push(q);
        for _ in 0..n {
            match choice(if binary { 5 } else { 4 }) {
                0 => {
                    let c = range(b' ', b'~');
                    assume(c != q && c != b'\\');
                    self.t.push(c);
                    v.push(c);
                }
                1 => {
                    let (c, d) = [(b'n', b'\n'), (b't', b'\t'), (b'\\', b'\\'), (b'\'', b'\''), (b'"', b'"'), (b'a', 7), (b'v', 11), (b'?', b'?')][choice(8)];
                    self.t.extend_from_slice(&[b'\\', c]);
                    v.push(d);
                }
                2 => {
                    self.s("\u{e9}");
                    v.extend_from_slice("\u{e9}".as_bytes());
                }
                3 => {
                    // a control character, or DEL
                    let (h, l) = [(b'0', range(b'0', b'9')), (b'1', range(b'0', b'9')), (b'7', b'f')][choice(3)];
                    self.t.extend_from_slice(&[b'\\', b'x', h, l]);
                    v.push((h - b'0') << 4 | if l == b'f' { 15 } else { l - b'0' });
                }
                _ => {
                    let (a, b, c) = (range(b'2', b'3'), range(b'0', b'7'), range(b'0', b'7'));
                    self.t.extend_from_slice(&[b'\\', a, b, c]);
                    v.push((a - b'0') << 6 | (b - b'0') << 3 | (c - b'0'));
                }
            }
        }
        self.t.push(q);
        v
    }
    /// What may stand between two tokens of an aggregate.
    fn gap(&mut self) {
        let k = *self.gap.get_or_insert_with(|| choice(4));
        self.s([" ", "\n# '{\n", "/*}*/", "// }\n"][k]);
    }
    fn enumv(&mut self) -> u64 {
        let (n, v) = [("E_A", 3u64), ("E_B", -1i64 as u64), ("e_c", 300)][choice(3)];
        self.s(n);
        v
    }
    fn float(&mut self, text: bool) -> f64 {
        let all = [("1.5", 1.5), ("-2", -2.0), ("1e3", 1000.0), (".25", 0.25), ("7", 7.0), ("-0.0", -0.0), ("1e400", f64::INFINITY), ("0x10", 16.0), ("123456789.125", 123456789.125), ("1.f", 1.0), ("-2F", -2.0), ("inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY)];
        let (t, v) = all[choice(if text { 13 } else { 9 })];
        self.s(t);
        v
    }
}

/// One field of V in text form, and its encoding.
/// `only`: which field, from 1; 0 any.
fn field(t: &mut Text, all: &mut Vec<(u32, Vec<u8>)>, depth: usize, digits: usize, chars: usize, only: u64) {
    let k = if only > 0 { only as usize - 1 } else { choice(if depth > 0 { 11 } else { 8 }) };
    let n = [1, 2, 5, 6, 7, 9, 20, 2, 3, 4, 8][k];
    // only lists may be given twice
    assume(n == 3 || n == 8 || all.iter().all(|f| f.0 != n));
    let mut buf = vec![];
    let o = &mut buf;
    match k {
        0 => {
            t.s("a:");
            let v = t.signed(digits);
            tag(o, 1, 0);
            varint(o, v as u64);
        }
        1 => {
            t.s("s : ");
            let v = t.string(chars, false);
            bytes(o, 2, &v);
        }
        2 => {
            t.s("e: ");
            let v = t.enumv();
            tag(o, 5, 0);
            varint(o, v);
        }
        3 => {
            t.s("y:");
            let v = t.string(chars, true);
            bytes(o, 6, &v);
        }
        4 => {
            t.s("b: ");
            let v = flag();
            t.s(if v { "true" } else { "false" });
            tag(o, 7, 0);
            o.push(v as u8);
        }
        5 => {
            t.s("d: ");
            let v = t.float(true);
            tag(o, 9, 1);
            o.extend_from_slice(&v.to_bits().to_le_bytes());
        }
        6 => {
            t.s("[x]: ");
            let v = t.signed(digits.min(1));
            tag(o, 20, 0);
            varint(o, v as u64);
        }
        7 => {
            // adjacent literals, with anything between them
            t.s("s:");
            let mut v = t.string(chars.min(1), false);
            t.gap();
            v.extend(t.string(chars.min(1), false));
            bytes(o, 2, &v);
        }
        8 => {
            t.s("r: [");
            let n = choice(3);
            for i in 0..n {
                if i > 0 {
                    t.s(",");
                }
                let v = t.signed(0);
                tag(o, 3, 0);
                varint(o, v as u64);
            }
            t.s("]");
        }
        k => {
            let (open, close) = [("{", "}"), (": {", "}"), (" <", ">")][choice(3)];
            t.s(if k == 9 { "v" } else { "w" });
            t.s(open);
            let mut i = vec![];
            if flag() {
                field(t, &mut i, depth - 1, 0, 0, 0);
            }
            t.s(close);
            bytes(o, n, &encode(i));
        }
    }
    all.push((n, buf));
}

/// Fields are encoded in the order of their numbers.
fn encode(mut f: Vec<(u32, Vec<u8>)>) -> Vec<u8> {
    f.sort_by_key(|x| x.0);
    f.into_iter().flat_map(|x| x.1).collect()
}

/// 1: place, 2: kind of option, 3: digits, 4: characters, 5: fields of an aggregate, 6: its depth, 7: the first field (see `field`)
pub fn custom() {
    let (place, kind, digits, chars) = (param(1) as usize, param(2), param(3) as usize, param(4) as usize);
    let files = Files(place, Rc::new(RefCell::new(vec![])));
    let mut c = Compiler::with_file_resolver(files.clone());
    if c.open_file("e").is_err() {
        fail("the extensions are rejected");
    }
    // the first use sets tables up
    let _ = c.encode_file_descriptor_set();
    let mut t = Text { t: b"syntax = 'proto2'; import 'e'; ".to_vec(), gap: None };
    let (at, path) = PLACES[place];
    let at = at.as_bytes();
    let Some(k) = at.iter().position(|&b| b == 1) else { return };
    t.t.extend_from_slice(&at[..k]);
    let mut o = vec![];
    match kind {
        0 => {
            t.s("(i) = ");
            let v = t.signed(digits);
            tag(&mut o, 1000, 0);
            varint(&mut o, v as u64);
        }
        1 => {
            t.s("(u) = ");
            let v = t.int(digits);
            tag(&mut o, 1001, 0);
            varint(&mut o, v);
        }
        2 => {
            let v = flag();
            t.s(if v { "(b) = true" } else { "(b) = false" });
            tag(&mut o, 1002, 0);
            o.push(v as u8);
        }
        3 => {
            t.s("(.e) = ");
            let v = t.enumv();
            tag(&mut o, 1003, 0);
            varint(&mut o, v);
        }
        4 => {
            t.s("(s) = ");
            let v = t.string(chars, false);
            bytes(&mut o, 1004, &v);
        }
        5 => {
            t.s("(y) = ");
            let v = t.string(chars, true);
            bytes(&mut o, 1005, &v);
        }
        6 => {
            t.s("(d) = ");
            let v = t.float(false);
            tag(&mut o, 1006, 1);
            o.extend_from_slice(&v.to_bits().to_le_bytes());
        }
        7 => {
            if param(5) > 1 {
                t.gap = Some(0);
            }
            t.s("(v) = {");
            t.gap();
            let mut i = vec![];
            for k in 0..param(5) {
                if k > 0 {
                    t.s([" ", ",", ";"][choice(3)]);
                }
                field(&mut t, &mut i, if k == 0 { param(6) as usize } else { 0 }, digits, chars, if k == 0 { param(7) } else { 0 });
            }
            t.gap();
            t.s("}");
            bytes(&mut o, 1007, &encode(i));
        }
        8 => {
            t.s("(v).a = ");
            let v = t.signed(digits);
            let mut i = vec![];
            tag(&mut i, 1, 0);
            varint(&mut i, v as u64);
            bytes(&mut o, 1007, &i);
        }
        9 => {
            t.s("(v).v.(x) = ");
            let v = t.signed(digits);
            let (mut i, mut j) = (vec![], vec![]);
            tag(&mut j, 20, 0);
            varint(&mut j, v as u64);
            bytes(&mut i, 4, &j);
            bytes(&mut o, 1007, &i);
        }
        10 => {
            t.s("(z) = ");
            let v = t.signed(digits) as i32;
            tag(&mut o, 1009, 0);
            varint(&mut o, ((v << 1) ^ (v >> 31)) as u32 as u64);
        }
        11 => {
            t.s("(f) = ");
            let v = t.int(digits);
            tag(&mut o, 1010, 5);
            o.extend_from_slice(&(v as u32).to_le_bytes());
        }
        12 => {
            t.s("(l) = ");
            let v = t.signed(digits);
            tag(&mut o, 1011, 0);
            varint(&mut o, v as u64);
        }
        14 => {
            // the ends of each type's range
            let (s, n, v) = [
                ("(i) = 2147483647", 1000, 0x7fff_ffff),
                ("(i) = -2147483648", 1000, -0x8000_0000i64 as u64),
                ("(i) = -0x80000000", 1000, -0x8000_0000i64 as u64),
                ("(u) = 18446744073709551615", 1001, u64::MAX),
                ("(u) = 01777777777777777777777", 1001, u64::MAX),
                ("(l) = 9223372036854775807", 1011, i64::MAX as u64),
                ("(l) = -9223372036854775808", 1011, i64::MIN as u64),
                ("(z) = -2147483648", 1009, 0xffff_ffff),
                ("(z) = 0x7FFFFFFF", 1009, 0xffff_fffe),
            ][choice(9)];
            t.s(s);
            tag(&mut o, n, 0);
            varint(&mut o, v);
        }
        15 => {
            // just beyond it
            t.s([
                "(i) = 2147483648",
                "(i) = -2147483649",
                "(u) = -1",
                "(l) = 9223372036854775808",
                "(z) = 0x80000000",
                "(f) = 4294967296",
                "(f) = -1",
                "(e) = E_C",
                "(e) = 3",
                "(b) = 1",
                "(b) = 'true'",
                "(s) = 1",
                "(s) = '\\xff'",
                "(v) = 1",
                "(i) = {a: 1}",
                "(nothing) = 1",
                "(v) = {q: 1}",
                "(v) = {a: 1 a: 2}",
                "(v) = {a: 1 : 2}",
                "(v) = {a: 'x'}",
                "(v) = {[nothing]: 1}",
            ][choice(21)]);
            t.t.extend_from_slice(&at[k + 1..]);
            src(&t.t);
            *files.1.borrow_mut() = t.t;
            let Err(e) = c.open_file("m") else { fail("an option with a value of another type is accepted") };
            check(e.file() == Some("m"), "an invalid option is reported against another file");
            check(!e.is_file_not_found() && !e.is_io(), "an invalid option is reported as another kind of error");
            reach(2);
            return;
        }
        _ => {
            t.s("(g) = ");
            let v = t.float(false);
            tag(&mut o, 1012, 5);
            o.extend_from_slice(&(v as f32).to_bits().to_le_bytes());
        }
    }
    t.t.extend_from_slice(&at[k + 1..]);
    src(&t.t);
    *files.1.borrow_mut() = t.t;
    if kind == 2 || kind == 3 {
        c.include_imports(flag()).include_source_info(flag());
    } else if kind != 7 {
        c.include_imports(flag());
    }
    if c.open_file("m").is_err() {
        fail("a file with an extension option is rejected");
    }
    let e = c.encode_file_descriptor_set();
    let Some(file) = last(&e, 1) else { fail("the encoded descriptor set has no file") };
    let mut cur = file;
    for &n in path {
        match last(cur, n) {
            Some(x) => cur = x,
            None => fail("the encoded descriptor set lacks the options"),
        }
    }
    check(cur == &o[..], "the options in the encoded descriptor set are not those written");
    note(cur);
    reach(1);
}

/// The last length-delimited field `n` of a message.
fn last(mut b: &[u8], n: u32) -> Option<&[u8]> {
    let mut r = None;
    while !b.is_empty() {
        let (k, wire) = {
            let v = read(&mut b);
            ((v >> 3) as u32, v & 7)
        };
        match wire {
            0 => {
                read(&mut b);
            }
            1 => b = &b[8..],
            5 => b = &b[4..],
            _ => {
                let l = read(&mut b) as usize;
                if k == n {
                    r = Some(&b[..l]);
                }
                b = &b[l..];
            }
        }
    }
    r
}

fn read(b: &mut &[u8]) -> u64 {
    let mut v = 0;
    let mut s = 0;
    loop {
        if b.is_empty() || s > 63 {
            fail("the encoded descriptor set does not decode");
        }
        let x = b[0];
        *b = &b[1..];
        v |= ((x & 0x7f) as u64) << s;
        s += 7;
        if !fork(x >= 0x80) {
            return v;
        }
    }
}
