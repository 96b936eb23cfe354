//! C09: comments and the declarations they belong to.
//!
//! The reference is the collector of protoc's tokenizer (`NextWithComments`), written over the
//! pieces a gap is made of.
use crate::noise::any_char;
use crate::numbers::cat;
use sym::*;

/// Text before the gap, text after it, the element whose end precedes the gap (if a comment can
/// trail it there), the element that starts after it, and whether a scope or the file ends there.
type Ctx = (&'static str, &'static str, Option<&'static [i32]>, Option<&'static [i32]>, bool);

pub static CTX: &[Ctx] = &[
    ("", "syntax = 'proto2';", None, Some(&[12]), false),
    ("syntax = 'proto2';", "package a;", Some(&[12]), Some(&[2]), false),
    ("package a;", "import 'b';", Some(&[2]), Some(&[3, 0]), false),
    ("import 'a'; import public 'b';", "option c = 1;", Some(&[3, 1]), Some(&[8, 999, 0]), false),
    ("option a = 1;", "option b = 2;", Some(&[8, 999, 0]), Some(&[8, 999, 1]), false),
    ("option a = 1;", "message A {}", Some(&[8, 999, 0]), Some(&[4, 0]), false),
    ("message A {", "optional int32 a = 1; }", Some(&[4, 0]), Some(&[4, 0, 2, 0]), false),
    ("message A { optional int32 a = 1;", "}", Some(&[4, 0, 2, 0]), None, true),
    ("message A { optional int32 a = 1;", " optional int32 b = 2; }", Some(&[4, 0, 2, 0]), Some(&[4, 0, 2, 1]), false),
    ("message A { }", "message B {}", None, Some(&[4, 1]), false),
    ("message A { }", "", None, None, true),
    ("enum E {", "A = 0; }", Some(&[5, 0]), Some(&[5, 0, 2, 0]), false),
    ("enum E { A = 0;", "B = 1; }", Some(&[5, 0, 2, 0]), Some(&[5, 0, 2, 1]), false),
    ("enum E { A = 0 [a = 1];", "reserved 5; }", Some(&[5, 0, 2, 0]), Some(&[5, 0, 4]), false),
    ("enum E { A = 0; reserved 5;", "reserved 'B'; }", Some(&[5, 0, 4]), Some(&[5, 0, 5]), false),
    ("service S {", "rpc M (A) returns (B); }", Some(&[6, 0]), Some(&[6, 0, 2, 0]), false),
    ("service S { rpc M (A) returns (B);", "rpc N (A) returns (B) {} }", Some(&[6, 0, 2, 0]), Some(&[6, 0, 2, 1]), false),
    ("service S { rpc N (A) returns (B) {", "option a = 1; } }", Some(&[6, 0, 2, 0]), Some(&[6, 0, 2, 0, 4, 999, 0]), false),
    ("service S { rpc N (A) returns (B) { option a = 1;", "} }", Some(&[6, 0, 2, 0, 4, 999, 0]), None, true),
    ("service S { rpc N (A) returns (B) { }", "rpc M (A) returns (B); }", None, Some(&[6, 0, 2, 1]), false),
    ("extend A {", "optional int32 a = 1; }", Some(&[7]), Some(&[7, 0]), false),
    ("extend A { optional int32 a = 1;", "repeated int32 b = 2; }", Some(&[7, 0]), Some(&[7, 1]), false),
    ("message A { oneof o {", "int32 a = 1; } }", Some(&[4, 0, 8, 0]), Some(&[4, 0, 2, 0]), false),
    ("message A { oneof o { int32 a = 1;", "bool b = 2; } }", Some(&[4, 0, 2, 0]), Some(&[4, 0, 2, 1]), false),
    ("message A { oneof o { int32 a = 1; }", "optional int32 c = 3; }", None, Some(&[4, 0, 2, 1]), false),
    ("message A { optional group G = 1 {", "optional int32 c = 3; } }", Some(&[4, 0, 3, 0]), Some(&[4, 0, 3, 0, 2, 0]), false),
    ("message A {", "optional group G = 1 { } }", Some(&[4, 0]), Some(&[4, 0, 3, 0]), false),
    ("message A { extensions 1;", "reserved 5; }", Some(&[4, 0, 5]), Some(&[4, 0, 9]), false),
    ("message A { reserved 'a';", "extensions 7 to 9; }", Some(&[4, 0, 10]), Some(&[4, 0, 5]), false),
    ("message A { message B {", "enum E { A = 0; } } }", Some(&[4, 0, 3, 0]), Some(&[4, 0, 3, 0, 4, 0]), false),
    ("message A { map<int32, bool> m = 1;", "extend B { optional int32 a = 1; } }", Some(&[4, 0, 2, 0]), Some(&[4, 0, 6]), false),
    ("message A { oneof o { option a = 1;", "int32 a = 1; } }", Some(&[4, 0, 8, 0, 2, 999, 0]), Some(&[4, 0, 2, 0]), false),
    ("message A { option a = 1;", "oneof o { int32 a = 1; } }", Some(&[4, 0, 7, 999, 0]), Some(&[4, 0, 8, 0]), false),
    ("enum E { option a = 1;", "A = 0; }", Some(&[5, 0, 3, 999, 0]), Some(&[5, 0, 2, 0]), false),
    ("service S { option a = 1;", "rpc N (A) returns (B) {} }", Some(&[6, 0, 3, 999, 0]), Some(&[6, 0, 2, 0]), false),
    ("import 'a';", "", Some(&[3, 0]), None, true),
    ("enum E { A = 0; }", "service S {}", None, Some(&[6, 0]), false),
    ("message A { }", "extend B { optional int32 a = 1; }", None, Some(&[7]), false),
    ("message A { extend B { optional int32 a = 1; }", "enum E { A = 0; } }", None, Some(&[4, 0, 4, 0]), false),
    ("syntax = 'proto3'; message A { optional int32 a = 1;", "B b = 2; }", Some(&[4, 0, 2, 0]), Some(&[4, 0, 2, 1]), false),
    // inside of declarations
    ("message A { optional", "int32 a = 1; }", None, None, true),
    ("message A { optional int32 a = 1 [a = 1", "]; }", None, None, true),
    ("message", "A {}", None, None, true),
    ("message A { optional int32 a = 1", "; }", None, None, true),
    ("enum E { A = 0", "; }", None, None, true),
    ("service S { rpc N (A", ") returns (B) {} }", None, None, true),
    ("option a", "= 1;", None, None, true),
    ("message A { repeated group", "G = 1 {} }", None, None, true),
    ("message A { reserved 1,", "2 to max; }", None, None, true),
    ("import", "'a';", None, None, true),
];

#[derive(Default)]
struct Collector {
    trailing: Option<Vec<u8>>,
    detached: Vec<Vec<u8>>,
    buffer: Option<Vec<u8>>,
    line: bool,
    attach: bool,
}

impl Collector {
    fn flush(&mut self) {
        if let Some(b) = self.buffer.take() {
            if self.attach {
                self.trailing = Some(b);
                self.attach = false;
            } else {
                self.detached.push(b);
            }
        }
    }
    fn line(&mut self, t: &[u8]) {
        if !self.line {
            self.flush();
        }
        self.line = true;
        self.buffer.get_or_insert_with(Vec::new).extend_from_slice(t);
    }
    fn block(&mut self, t: &[u8]) {
        self.flush();
        self.line = false;
        self.buffer = Some(t.to_vec());
    }
}

#[derive(Clone)]
enum Piece {
    Space,
    Newline,
    Line(Vec<u8>),
    Block(Vec<u8>),
}

fn collect(p: &[Piece], start: bool, end: bool) -> Collector {
    let mut c = Collector { attach: !start, ..Default::default() };
    let mut i = 0;
    let spaces = |i: &mut usize| {
        while matches!(p.get(*i), Some(Piece::Space)) {
            *i += 1;
        }
    };
    if !start {
        spaces(&mut i);
        match p.get(i) {
            Some(Piece::Line(t)) => {
                c.line(t);
                c.flush();
                i += 1;
            }
            Some(Piece::Block(t)) => {
                i += 1;
                spaces(&mut i);
                if !matches!(p.get(i), Some(Piece::Newline)) {
                    // whatever follows on the same line belongs to nothing, unless only
                    // comments follow
                    if p.len() > i || !end {
                        c.buffer = None;
                        return c;
                    }
                    return c;
                }
                c.block(t);
                i += 1;
                c.flush();
            }
            Some(Piece::Newline) => i += 1,
            _ => return c,
        }
    }
    loop {
        spaces(&mut i);
        match p.get(i) {
            Some(Piece::Line(t)) => {
                c.line(t);
                i += 1;
            }
            Some(Piece::Block(t)) => {
                c.block(t);
                i += 1;
                spaces(&mut i);
                if matches!(p.get(i), Some(Piece::Newline)) {
                    i += 1;
                }
            }
            Some(Piece::Newline) => {
                i += 1;
                c.flush();
                c.attach = false;
            }
            _ => {
                if end {
                    c.flush();
                }
                return c;
            }
        }
    }
}

/// A character of a comment's text: any ASCII character but NUL and line breaks; in block
/// comments, none that could end the comment or open another.
fn text_char(block: bool) -> u8 {
    let c = byte();
    assume((c != 0) & (c < 0x80) & (c != b'\n') & (c != b'\r'));
    if block {
        assume((c != b'*') & (c != b'/'));
    }
    c
}

fn piece(b: &mut Vec<u8>, p: &mut Vec<Piece>, uid: &mut u8, k: u64) {
    let kind = choice(7);
    match kind {
        0 => {
            b.extend_from_slice(b" \t");
            p.push(Piece::Space);
        }
        1 => {
            b.push(b'\n');
            p.push(Piece::Newline);
        }
        2 => {
            b.extend_from_slice(b"\r\n");
            p.push(Piece::Newline);
        }
        3 | 4 => {
            let mut t = vec![*uid];
            for _ in 0..k {
                t.push(text_char(false));
            }
            b.extend_from_slice(b"//");
            b.extend_from_slice(&t);
            b.extend_from_slice(if kind == 3 { b"\n" } else { b"\r\n" });
            t.push(b'\n');
            p.push(Piece::Line(t));
            *uid += 1;
        }
        5 => {
            let mut t = vec![];
            for _ in 0..k {
                t.push(text_char(true));
            }
            t.push(*uid);
            b.extend_from_slice(b"/*");
            b.extend_from_slice(&t);
            b.extend_from_slice(b"*/");
            p.push(Piece::Block(t));
            *uid += 1;
        }
        _ => {
            let mut t = vec![*uid];
            for _ in 0..k {
                t.push(text_char(true));
            }
            b.extend_from_slice(b"/*");
            b.extend_from_slice(&t);
            b.extend_from_slice(b"\n * x\n*/");
            t.extend_from_slice(b"\n x\n");
            p.push(Piece::Block(t));
            *uid += 1;
        }
    }
}

/// Gap pieces in sequence. 1: context, 2: pieces, 3: symbolic characters per comment
pub fn comments() {
    let (pre, post, prev, next, end) = CTX[param(1) as usize];
    let start = pre.is_empty();
    let k = param(3);
    let mut b: Vec<u8> = pre.as_bytes().to_vec();
    let mut p: Vec<Piece> = vec![];
    let mut uid = b'a';
    for _ in 0..param(2) {
        piece(&mut b, &mut p, &mut uid, k);
    }
    if !start && !post.is_empty() {
        // keep the tokens apart
        b.push(b' ');
        p.push(Piece::Space);
    }
    b.extend_from_slice(post.as_bytes());
    expect(&b, &collect(&p, start, end), prev, next);
}

fn is(a: Option<&str>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.as_bytes() == b,
        _ => false,
    }
}

fn expect(b: &[u8], c: &Collector, prev: Option<&[i32]>, next: Option<&[i32]>) {
    src(b);
    // well-formed by construction
    let Ok(f) = crate::common::run(b) else { fail("a valid file was rejected") };
    let mut seen = 0u8;
    for l in f.source_code_info.iter().flat_map(|s| s.location.iter()) {
        let mut trailing = None;
        if prev == Some(&l.path[..]) {
            trailing = c.trailing.as_deref();
            seen += 1;
        }
        check(is(l.trailing_comments.as_deref(), trailing), "the trailing comment is not the one written after the declaration");
        if next == Some(&l.path[..]) {
            seen += 1;
            check(is(l.leading_comments.as_deref(), c.buffer.as_deref()), "the leading comment is not the one written before the declaration");
            let d = &l.leading_detached_comments;
            check(d.len() == c.detached.len(), "the detached comments are not the ones written before the declaration");
            for i in 0..d.len() {
                check(d[i].as_bytes() == &c.detached[i][..], "a detached comment differs");
            }
        } else {
            check(l.leading_comments.is_none(), "a leading comment on something else");
            check(l.leading_detached_comments.is_empty(), "a detached comment on something else");
        }
    }
    check(seen == prev.is_some() as u8 + next.is_some() as u8, "a declaration has no location");
    reach(1);
    if c.trailing.is_some() && c.buffer.is_some() {
        reach(2);
    }
}

/// The text of a block comment, read as protoc does; `None` when it is not one comment.
fn block_text(b: &[u8]) -> Option<Vec<u8>> {
    let n = b.len();
    let mut t = vec![];
    let mut i = 0;
    while i < n {
        let c = b[i];
        if fork(c == b'\n') {
            t.push(b'\n');
            i += 1;
            while i < n && fork((b[i] == b' ') | (b[i] == b'\t') | (b[i] == b'\r') | (b[i] == 0x0b) | (b[i] == 0x0c)) {
                i += 1;
            }
            if i < n && fork(b[i] == b'*') {
                i += 1;
                if i < n && fork(b[i] == b'/') {
                    return None;
                }
                // the end directly after the asterisk closes the comment at the one before
                if i == n {
                    break;
                }
            }
            continue;
        }
        if i + 1 < n {
            if fork((c == b'*') & (b[i + 1] == b'/')) || fork((c == b'/') & (b[i + 1] == b'*')) {
                return None;
            }
        } else if fork(c == b'/') {
            // followed by the closing asterisk
            return None;
        }
        t.push(c);
        i += 1;
    }
    Some(t)
}

fn crlf(t: Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    for i in 0..t.len() {
        if i + 1 < t.len() && fork((t[i] == b'\r') & (t[i + 1] == b'\n')) {
            continue;
        }
        o.push(t[i]);
    }
    o
}

static TEXTS: &[(&str, &str)] = &[("", ""), ("a\n", ""), ("a\n ", "b"), ("a\r\n", "\r\nb"), ("\u{e9}", "\u{20ac}"), ("*\n*", "*"), ("a\n\n", "\n\n*c")];

/// Arbitrary text in one comment. 1: line (0), block (1), 2: characters, 3: surroundings, 4: multi-byte
pub fn commenttext() {
    let block = param(1) != 0;
    let (x, y) = TEXTS[param(3) as usize];
    let mut t = x.as_bytes().to_vec();
    for _ in 0..param(2) {
        any_char(&mut t, param(4) != 0);
    }
    t.extend_from_slice(y.as_bytes());
    for &c in &t {
        assume(c != 0);
    }
    let (pre, post, prev, next, _) = CTX[[5, 8][choice(2)]];
    let mut c = Collector::default();
    let gap: Vec<u8>;
    if block {
        let Some(v) = block_text(&t) else {
            assume(false);
            return;
        };
        let v = crlf(v);
        gap = if flag() {
            c.buffer = Some(v);
            cat(&[b"\n/*", &t, b"*/"])
        } else {
            c.trailing = Some(v);
            cat(&[b"/*", &t, b"*/\n"])
        };
    } else {
        for &c in &t {
            assume(c != b'\n');
        }
        t.push(b'\n');
        let v = crlf(t.clone());
        gap = if flag() {
            c.buffer = Some(v);
            cat(&[b"\n//", &t])
        } else {
            c.trailing = Some(v);
            cat(&[b" //", &t])
        };
    }
    let b = cat(&[pre.as_bytes(), &gap, post.as_bytes()]);
    expect(&b, &c, prev, next);
}

/// A line comment that the end of the file cuts off. 1: characters
pub fn commenteof() {
    let mut t = vec![];
    for _ in 0..param(1) {
        any_char(&mut t, true);
    }
    for &c in &t {
        assume((c != b'\n') & (c != 0));
    }
    let mut c = Collector::default();
    c.trailing = Some(t.clone());
    let (pre, _, prev, next, _) = CTX[35];
    let b = cat(&[pre.as_bytes(), b"//", &t]);
    expect(&b, &c, prev, next);
}

/// A gap: the text before it, the element it may trail, the element that follows, end of scope.
type Gap = (&'static str, Option<&'static [i32]>, Option<&'static [i32]>, bool);

static FLOWS: &[(&[Gap], &str)] = &[
    (
        &[
            ("message A {", Some(&[4, 0]), Some(&[4, 0, 2, 0]), false),
            ("optional int32 a = 1;", Some(&[4, 0, 2, 0]), Some(&[4, 0, 3, 0]), false),
            ("message B {", Some(&[4, 0, 3, 0]), Some(&[4, 0, 3, 0, 2, 0]), false),
            ("optional int32 b", None, None, true),
            ("= 1;", Some(&[4, 0, 3, 0, 2, 0]), None, true),
            ("}", None, Some(&[4, 0, 2, 1]), false),
            ("repeated C c = 2 [a = 1];", Some(&[4, 0, 2, 1]), None, true),
        ],
        "} message D {}",
    ),
    (
        &[
            ("syntax = 'proto2';", Some(&[12]), Some(&[2]), false),
            ("package p;", Some(&[2]), Some(&[3, 0]), false),
            ("import 'a';", Some(&[3, 0]), Some(&[8, 999, 0]), false),
            ("option a = {", None, None, true),
            ("a: 1 };", Some(&[8, 999, 0]), Some(&[5, 0]), false),
            ("enum E {", Some(&[5, 0]), Some(&[5, 0, 2, 0]), false),
            ("A = 0;", Some(&[5, 0, 2, 0]), Some(&[5, 0, 2, 1]), false),
            ("B = 1 [a = 1", None, None, true),
        ],
        "]; }",
    ),
    (
        &[
            ("service S {", Some(&[6, 0]), Some(&[6, 0, 3, 999, 0]), false),
            ("option a = 1;", Some(&[6, 0, 3, 999, 0]), Some(&[6, 0, 2, 0]), false),
            ("rpc M (A) returns (B) {", Some(&[6, 0, 2, 0]), Some(&[6, 0, 2, 0, 4, 999, 0]), false),
            ("option b = 1;", Some(&[6, 0, 2, 0, 4, 999, 0]), None, true),
            ("}", None, Some(&[6, 0, 2, 1]), false),
            ("rpc N (A)", None, None, true),
            ("returns (B);", Some(&[6, 0, 2, 1]), None, true),
            ("}", None, Some(&[7]), false),
        ],
        "extend E { optional int32 a = 1; }",
    ),
    (
        &[
            ("extend A {", Some(&[7]), Some(&[4, 0]), false),
            ("optional group G = 1 {", Some(&[4, 0]), Some(&[4, 0, 8, 0]), false),
            ("oneof o {", Some(&[4, 0, 8, 0]), Some(&[4, 0, 2, 0]), false),
            ("int32 a = 1;", Some(&[4, 0, 2, 0]), None, true),
            ("}", None, Some(&[4, 0, 9]), false),
            ("reserved 5, 7;", Some(&[4, 0, 9]), Some(&[4, 0, 5]), false),
            ("extensions 8 to max;", Some(&[4, 0, 5]), None, true),
            ("}", None, Some(&[7, 1]), false),
            ("repeated int32 b = 2;", Some(&[7, 1]), None, true),
        ],
        "}",
    ),
];

/// Comments in two gaps of one file. 1: flow, 2: pieces per gap
pub fn commentflow() {
    let (gaps, tail) = FLOWS[param(1) as usize];
    let n = gaps.len();
    let i = choice(n);
    let j = choice(n);
    assume(i <= j);
    let mut b: Vec<u8> = vec![];
    let mut uid = b'a';
    let mut cs: Vec<Collector> = vec![];
    for (x, g) in gaps.iter().enumerate() {
        b.extend_from_slice(g.0.as_bytes());
        let mut p = vec![];
        if x == i || x == j {
            for _ in 0..param(2) {
                piece(&mut b, &mut p, &mut uid, 0);
            }
        }
        b.push(b' ');
        p.push(Piece::Space);
        cs.push(collect(&p, false, g.3));
    }
    b.extend_from_slice(tail.as_bytes());
    src(&b);
    let Ok(f) = crate::common::run(&b) else { fail("a valid file was rejected") };
    for l in f.source_code_info.iter().flat_map(|s| s.location.iter()) {
        let before = gaps.iter().position(|g| g.1 == Some(&l.path[..])).and_then(|x| cs[x].trailing.as_deref());
        check(is(l.trailing_comments.as_deref(), before), "the trailing comment is not the one written after the declaration");
        let at = gaps.iter().position(|g| g.2 == Some(&l.path[..]));
        check(is(l.leading_comments.as_deref(), at.and_then(|x| cs[x].buffer.as_deref())), "the leading comment is not the one written before the declaration");
        let d: &[Vec<u8>] = at.map(|x| &cs[x].detached[..]).unwrap_or(&[]);
        check(l.leading_detached_comments.len() == d.len(), "the detached comments are not the ones written before the declaration");
        for (x, y) in l.leading_detached_comments.iter().zip(d) {
            check(x.as_bytes() == &y[..], "a detached comment differs");
        }
    }
    reach(1);
}
