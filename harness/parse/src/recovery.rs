//! C19: no text around an invalid declaration makes the file acceptable.
use crate::noise::{any_char, CONTEXTS, VOCAB};
use sym::*;

/// Self-contained invalid statements of each scope: nothing that follows can complete them.
static BAD: &[&[&str]] = &[
    // file
    &[
        "message 1 { }", "message { }", "enum E { A }", "enum E { A = 0 }", "import '../x';", "import 5;", "import public;", "package 1;", "package .a;", "package a..b;", "package a.;",
        "option a = ;", "option = 1;", "option a 1;", "option a = -b;", "option a = 18446744073709551616;", "option a = '\\q';", "option a = 09;", "option a = 0x;", "option a = 1f;", "option a = 'x\n';",
        "option a = '\\400';", "option (a = 1;", "option a. = 1;", "option a = { b };  option c = # ;\n 1;", "$;", "foo bar;", "}", "service 'S' { }", "service S { rpc }", "service S { foo; }",
        "extend { optional int32 a = 1; }", "extend A { }  extend A { required int32 a = 1; }", "; syntax = 'proto2';", "# c\n", "optional int32 a = 1;", "1;", "option a = 1 2;", "option a = '\0';", "message M;", "import 'a' message M { }",
        "option a = 3000000000x;", "package p; package q;", "package p; package p;", "package p; import 'z'; package p;", "package p.q; message G { } package p.q;", "package p; option a = 1; package .p;", "option a = -9223372036854775809;", "enum 'E' { A = 0; }", "import \"a\\\\b\";", "option a = 1..2;", "option a.5 = 1;", "message M { } ;;; message { }",
        "\u{e9};", "option a = '\\x';", "option a = '\\ud800';", "option a = \u{20ac};",
    ],
    // message
    &[
        "optional int32 a = 0;", "optional int32 a = 536870912;", "optional int32 = 1;", "optional int32 a 1;", "optional int32 a = 1 }", "int32 a = 1;", "optional a = 1;", "required group g = 1 { }", "optional group G { }",
        "map<float, int32> m = 1;", "map<int32> m = 1;", "optional map<int32, int32> m = 1;", "map<int32, int32> m;", "oneof o { }", "oneof { int32 a = 1; }", "oneof o { optional int32 a = 1; }", "oneof o { int32 a = 1 }", "oneof o { map<int32, int32> m = 1; }",
        "reserved 0;", "reserved 1 to;", "reserved 1 to 'a';", "reserved '1a';", "reserved a;", "reserved -1;", "extensions 0 to 5;", "extensions 'a';", "extensions 1 [];", "extensions max;",
        "optional int32 a = 1 [default = 'x'];", "optional int32 a = 1 [default = 1, default];", "repeated int32 a = 1 [default = 1];", "optional string s = 1 [default = '\\377'];", "optional int32 a = 1 [json_name = 5];", "optional bool b = 1 [default = 1];", "optional int32 a = 1 [];", "optional int32 a = 1 [a = 1,];",
        "optional int32 a = 1 [a];", "extend A { map<int32, int32> m = 1; }", "extend A { required int32 a = 1; }", "extend A { reserved 5; }", "rpc M (A) returns (B);", "service S { }", "import 'x';", "package p;", "message 5 { }", "enum E { A = 0x80000000; }", "option a;",
        "optional int32 a = '1';", "optional int32 a = 1.0;", "optional int32 a = -1;", "required int32 a = 01x;", "optional . a = 1;", "optional a..b c = 1;", "message M { message N { int32 a = 1; } }", "repeated int32 a = 1 [b = '\\q'];", "optional float f = 1 [default = true];",
        "optional uint32 u = 1 [default = -1];", "optional bytes b = 1 [default = 5];", "map<int32, int32> m = 1 [default = 1];", "optional group G = 1 [default = 1] { }", "optional group G = 1 { int32 a = 1; }", "reserved 'a' 5;", "optional int32 a = 19 to 20;",
    ],
    // enum
    &[
        "A = 2147483648;", "A = -2147483649;", "A;", "A = ;", "= 1;", "A 1;", "A = 'x';", "A = 1.5;", "A = 1 [];", "A = 1 [a];", "reserved max;", "reserved 1 to 3000000000;", "reserved '';", "reserved;", "reserved 5 'a';", "option a;", "option a = ;", "message M { }", "optional int32 a = 1;", "'A' = 1;", "A = 1f;", "A = 0x;", "A = 1 [a = '\\q'];", "5 = A;", "A = - -1;", "rpc = ; A = 1;", "A = 1 B = 2;", "A = 08;",
    ],
    // service
    &[
        "rpc M (A) returns B;", "rpc (A) returns (B);", "rpc M A returns (B);", "rpc M (A) (B);", "rpc M (A) returns ();", "rpc M () returns (B);", "rpc M (stream) returns (B) { } ; x", "rpc M (A) returns (B) { option a; }", "rpc M (A) returns (B) { message M { } }", "rpc M (A) returns (B) { option a = 1 }", "rpc M (A) returns (stream stream B);", "option a;", "message M { }", "rpc M (A) returns (B) [a = 1];", "foo;", "rpc M (A, B) returns (C);", "rpc 5 (A) returns (B);", "rpc M (A) returns (B) { option a = '\\q'; }", "option a = 07x;", "rpc M (A.) returns (B);", "rpc M (A) returns (.B) { reserved 5; }",
    ],
    // oneof
    &[
        "optional int32 a = 1;", "required int32 a = 1;", "repeated int32 a = 1;", "map<int32, int32> m = 1;", "int32 a = 0;", "int32 a;", "int32 = 1;", "int32 a = 1 [default = 'x'];", "oneof p { int32 b = 1; }", "message M { }", "group g = 1 { }", "group G { }", "option a;", "reserved 5;", "A b = 536870912;", "string s = 1 [json_name = a];", "'x';", "int32 a = 1 b;", "bool b = 1 [default = 'true'];", "group G = 1 { int32 x = 1; }",
    ],
    // extend
    &[
        "required int32 a = 1;", "int32 a = 1;", "map<int32, int32> m = 1;", "optional int32 a = 0;", "optional int32 a = 1 [default = 'x'];", "repeated int32 a = 1 [default = 1];", "oneof o { int32 a = 1; }", "reserved 5;", "message M { }", "extend B { optional int32 a = 1; }", "option a = 1;", "required group G = 1 { }", "optional group g = 1 { }", "optional int32 a = 1 b;", "group G = 1 { }", "foo;", "optional int32 a = 1 [json_name = '\\xff'];",
    ],
    // method
    &["option a;", "option = 1;", "rpc M (A) returns (B);", "option a = '\\q';", "message M { }", "a = 1;", "option a = 5x;", "option a = 1 option b = 2;", "returns (A);", "'x';", "option (a = 1;", "option a = - b;"],
];

/// Scopes: what opens and closes them, and good statements in them.
static SCOPES: &[(usize, &str, &str, &[&str])] = &[
    (0, "", "", &["", "message G { optional int32 z = 1; } ", "import 'z'; option z = { a: 1 }; ", "enum G { Z = 0; } service H { rpc Z (A) returns (B) { } } "]),
    (1, "message W { ", "} ", &["", "optional int32 z = 1; ", "message G { } oneof g { int32 z = 1; } ", "reserved 5; extensions 7 [a = 1]; option z = 'x'; "]),
    (2, "enum W { ", "} ", &["Z = 0; ", "option z = 1; Z = 0 [a = 1]; ", "reserved 'z'; Z = -1; ", ""]),
    (3, "service W { ", "} ", &["", "rpc Z (A) returns (B); ", "option z = 1; ", "rpc Z (A) returns (stream B) { option y = 2; } "]),
    (4, "message W { oneof v { ", "} } ", &["int32 z = 1; ", "option z = 1; A z = 1 [a = 1]; ", "; bool z = 1; ", "group G = 1 { } "]),
    (5, "extend W { ", "} ", &["", "optional int32 z = 1; ", "repeated group G = 1 { } ", "optional A z = 1 [a = 1]; "]),
    (6, "service W { rpc V (A) returns (B) { ", "} } ", &["", "option z = 1; ", "; ; ", "option (a).b = { x: 1 }; "]),
    (1, "message W { message V { ", "} } ", &["", "optional int32 z = 1; ", "enum G { Z = 0; } ", "oneof g { int32 z = 1; } "]),
    (1, "message W { optional group V = 1 { ", "} } ", &["", "optional int32 z = 1; ", "enum G { Z = 0; } ", "oneof g { int32 z = 1; } "]),
    (1, "extend W { optional group V = 1 { ", "} } ", &["", "optional int32 z = 1; ", "enum G { Z = 0; } ", "oneof g { int32 z = 1; } "]),
    (1, "message W { oneof v { group V = 1 { ", "} } } ", &["", "optional int32 z = 1; ", "enum G { Z = 0; } ", "oneof g { int32 z = 1; } "]),
    (2, "message W { enum V { ", "} } ", &["Z = 0; ", "option z = 1; Z = 0 [a = 1]; ", "reserved 'z'; Z = -1; ", ""]),
    (5, "message W { extend V { ", "} } ", &["", "optional int32 z = 1; ", "repeated group G = 1 { } ", "optional A z = 1 [a = 1]; "]),
];

/// 1: scope, 2: kind of text that follows (0 valid, 1 arbitrary characters, 2 tokens, 3 another
/// invalid statement, 4 nothing), 3: how much of it, 4: kind of text before (0 valid, 1 invalid too)
pub fn recovery() {
    let (list, open, close, good) = SCOPES[param(1) as usize];
    let bads = BAD[list];
    let bad = bads[choice(bads.len())];
    let follow = param(2);
    let n = param(3);
    let mut b: Vec<u8> = [&b""[..], b"syntax = \"proto2\"; ", b"package a.b; import public 'y'; "][choice(3)].to_vec();
    if param(1) == 0 {
        // some statements may only come once
        assume(!b.starts_with(b"package") || !bad.starts_with("package p"));
    }
    let first;
    if param(4) == 1 {
        first = b.len();
        let other = BAD[0];
        b.extend_from_slice(other[choice(other.len())].as_bytes());
        b.push(b' ');
        b.extend_from_slice(open.as_bytes());
    } else {
        b.extend_from_slice(open.as_bytes());
        b.extend_from_slice(good[choice(good.len())].as_bytes());
        first = b.len();
    }
    b.extend_from_slice(bad.as_bytes());
    b.push(b' ');
    let last = b.len();
    let mut strict = false;
    match follow {
        0 => {
            strict = param(4) == 0;
            b.extend_from_slice(good[choice(good.len())].as_bytes());
            b.extend_from_slice(close.as_bytes());
            b.extend_from_slice([&b""[..], b"message Y { } ", b"enum Y { X = 0; } service X { } "][choice(3)]);
        }
        1 => {
            for _ in 0..n {
                any_char(&mut b, false);
            }
            if flag() {
                b.extend_from_slice(close.as_bytes());
                b.extend_from_slice(b"message Y { } ");
            }
        }
        2 => {
            for _ in 0..n {
                for &c in VOCAB[6 + choice(VOCAB.len() - 6)].as_bytes() {
                    b.push(c);
                }
                b.push(b' ');
            }
            if flag() {
                b.extend_from_slice(close.as_bytes());
                b.extend_from_slice(b"message Y { } ");
            }
        }
        3 => {
            for _ in 0..n {
                b.extend_from_slice(bads[choice(bads.len())].as_bytes());
                b.push(b' ');
            }
            b.extend_from_slice(close.as_bytes());
        }
        _ => {}
    }
    verdict(&b, first, last, strict);
}

fn verdict(b: &[u8], first: usize, last: usize, strict: bool) {
    src(b);
    match crate::common::run(b) {
        Ok(_) => fail("a file with an invalid declaration was accepted"),
        Err(e) => {
            if let Some(s) = e.span() {
                check(s.start >= first, "the error lies before the first invalid declaration");
                check(!strict || s.start <= last, "the error reported is not the one in the only invalid declaration");
            }
            reach(1);
        }
    }
}

/// An invalid character sequence anywhere in a valid file. 1: context, 2: which
pub fn intrusion() {
    let (pre, post) = CONTEXTS[param(1) as usize];
    let bad: &[u8] = [&b"$"[..], b"\x01", b"09", b"0x", b"1a", b"'\\q'", b"'\n'", "\u{e9}".as_bytes(), b"@", b"`", b"5f", b"#\n", b"/* /* */ */", b"99999999999999999999", b"'\0'", b"0b1", b"1.5e"][choice(17)];
    let mut b = pre.as_bytes().to_vec();
    let gap: &[u8] = [&b" "[..], b"/**/", b"\n"][choice(3)];
    b.extend_from_slice(gap);
    b.extend_from_slice(bad);
    // nothing makes these valid, so more may follow at once
    if [&b"$"[..], b"\x01", "\u{e9}".as_bytes(), b"@", b"`"].contains(&bad) {
        match choice(4) {
            0 => b.push(b' '),
            1 => {}
            2 => b.extend_from_slice(bad),
            _ => {
                b.extend_from_slice(bad);
                b.extend_from_slice(b"$@");
            }
        }
    } else {
        b.push(b' ');
    }
    for _ in 0..param(2) {
        any_char(&mut b, false);
    }
    b.extend_from_slice(post.as_bytes());
    verdict(&b, 0, b.len(), false);
}
