//! What the result of `parse` depends on, and whether its errors tell the truth.
use crate::noise::{any_char, Buf, CONTEXTS, HEAD, VOCAB};
use protox_parse::{parse, ParseError};
use std::fmt::Write;
use sym::*;

static SOURCES: &[&str] = &[
    "",
    "message M { optional int32 a = 1; } // c",
    "syntax = 'proto3'; package p; import 'q'; enum E { Z = 0; } option a = {b: 1};",
    "message M { optional int32 a 1; }",
    "enum E { A = 1 } enum",
    "package a; package b;",
    "import 'a//b';\nmessage M { optional int32 \u{e9} = 1; }",
    "message",
    "option a = 1.",
    "syntax = 'proto3';\n// d\n\n// l\nmessage M {\n\tmap<int32, a.B> \t m = 1 [json_name = 'x\\n'];\r\n  oneof o { // t\n  string s = 0x2; } }\n\nservice S {\n rpc R(stream .M) returns (M) { option (a).b = {\nc: [1,\n2] }; } }\n",
    "syntax = \"proto2\";\nimport public 'q';\nextend a.B {\n repeated group G = 5 {\n extensions 4 to max;\n reserved 'f', 'g';\n optional float f = 2 [default = -inf]; } }\n/* x\n * y */ enum E {\n A = -1;\n reserved 3 to 4;\n}\noption b = 'a'\n'b';\n",
    "syntax = 'proto3';\n\nmessage M {\n  int32 a = 1;\n  int32 b = 536870912;\n}\n",
];

fn show(e: &dyn std::fmt::Display) -> Buf {
    let mut m = Buf([0; 2048], 0);
    let _ = write!(m, "{e}");
    m
}

/// C32: the name is recorded as it is and decides nothing else; nor does what was parsed before.
/// 1: characters of the name, 2: multi-byte ones too, 3: source (of SOURCES)
pub fn purity() {
    let n = param(1) as usize;
    let mut name = vec![];
    for _ in 0..n {
        any_char(&mut name, param(2) != 0);
    }
    src(&name);
    let name = unsafe { std::str::from_utf8_unchecked(&name) };
    let text = SOURCES[param(3) as usize];
    let first = parse("x.proto", text);
    if flag() {
        let other = SOURCES[choice(SOURCES.len())];
        let _ = parse(if flag() { name } else { "y" }, other);
    }
    match (first, parse(name, text)) {
        (Ok(mut a), Ok(b)) => {
            check(a.name.as_deref() == Some("x.proto"), "the descriptor has another name");
            check(b.name.as_deref().is_some_and(|x| x.as_bytes() == name.as_bytes()), "the descriptor has another name");
            a.name = b.name.clone();
            check(a == b, "the descriptor depends on the name of the file");
            note(&[1]);
            reach(1);
        }
        (Err(a), Err(b)) => {
            check(a.file() == "x.proto" && b.file().as_bytes() == name.as_bytes(), "the error is for another file");
            check(a.span() == b.span(), "where the error is depends on the name of the file");
            let (x, y) = (show(&a), show(&b));
            check(x.0[..x.1] == y.0[..y.1], "the error depends on the name of the file");
            note(&[2]);
            reach(2);
        }
        _ => fail("whether a file is accepted depends on its name"),
    }
}

/// A way to write each alternative an error offers.
fn sample(what: &[u8], constant: &[u8]) -> Option<Vec<u8>> {
    if what.len() > 2 && what[0] == b'\'' && what[what.len() - 1] == b'\'' {
        return Some(what[1..what.len() - 1].to_vec());
    }
    let s: &[u8] = match what {
        b"a string" | b"a string literal" | b"string" => b"'x'",
        b"a message field" | b"a field type" => b"int32",
        b"oneof" | b"enum" | b"message" | b"option" => what,
        b"reserved range" => b"reserved",
        b"a type name" | b"an identifier" => b"x",
        b"a positive integer" | b"an integer" | b"a numeric literal" => b"1",
        b"a constant" => constant,
        _ => return None,
    };
    Some(s.to_vec())
}

/// The alternatives of "expected A, B or C, but ..."; None if the message has another form. Only
/// what is certain not to depend on the source is looked at.
fn alternatives(m: &[u8]) -> Option<Vec<Vec<u8>>> {
    let m = m.strip_prefix(b"expected ")?;
    let mut o = vec![];
    let mut cur = vec![];
    let mut i = 0;
    let mut quoted = false;
    loop {
        if i >= m.len() {
            return None;
        }
        if m[i] == b'\'' && !(quoted && m.get(i + 1) == Some(&b'\'')) {
            quoted = !quoted;
        }
        if !quoted && m[i..].starts_with(b", but ") {
            o.push(cur);
            return Some(o);
        }
        if !quoted && m[i..].starts_with(b" or ") {
            o.push(std::mem::take(&mut cur));
            i += 4;
        } else if !quoted && m[i..].starts_with(b", ") {
            o.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(m[i]);
            i += 1;
        }
    }
}

fn truthful(e: &ParseError, b: &[u8], constant: &[u8]) {
    let m = show(e);
    let m = &m.0[..m.1];
    if !m.starts_with(b"expected ") {
        return;
    }
    let Some(alt) = alternatives(m) else { fail("the error does not say what it found") };
    let Some(sp) = e.span() else {
        let end = b", but reached end of file";
        check(m.ends_with(end), "the error does not say where the file ends unexpectedly");
        // whatever is offered is possible after the end
        for a in alt {
            let Some(t) = sample(&a, constant) else { continue };
            let mut x = b.to_vec();
            // nothing is added to a comment or a word
            x.extend_from_slice(b"\n ");
            let at = x.len();
            x.extend_from_slice(&t);
            offered(&x, at);
        }
        reach(3);
        return;
    };
    check(sp.start < sp.end, "the error is at no token");
    let tok = &b[sp.start..sp.end];
    let first = tok[0];
    // words and punctuation are shown as they are written
    let word = fork(HEAD[first as usize & 0xff]);
    let one = tok.len() == 1 && fork(b"()[]{}<>=,;:+-".contains(&first));
    let all = |t: &[u8], f: &dyn Fn(u8) -> bool| {
        let mut ok = true;
        for &c in t {
            ok &= f(c);
        }
        fork(ok)
    };
    // so are decimal numbers, and strings of nothing but printable characters but for their quotes
    let digits = !word && fork((first >= b'1') & (first <= b'9')) && all(tok, &|c| (c >= b'0') & (c <= b'9'));
    let string = !word
        && tok.len() >= 2
        && fork((first == b'\'') | (first == b'"'))
        && all(&tok[1..tok.len() - 1], &|c| (c >= b' ') & (c <= b'~') & (c != b'\'') & (c != b'"') & (c != b'\\'));
    if word || one || digits || string {
        let mut w = b", but found '".to_vec();
        if string {
            w.push(b'"');
            w.extend_from_slice(&tok[1..tok.len() - 1]);
            w.push(b'"');
        } else {
            w.extend_from_slice(tok);
        }
        w.push(b'\'');
        check(m.len() > w.len() && m[m.len() - w.len()..] == w[..], "the error shows something other than what is there");
        reach(4);
    }
    for a in alt {
        let Some(t) = sample(&a, constant) else { continue };
        let mut x = b[..sp.start].to_vec();
        x.push(b' ');
        let at = x.len();
        x.extend_from_slice(&t);
        x.push(b' ');
        x.extend_from_slice(&b[sp.end..]);
        offered(&x, at);
    }
    reach(2);
}

/// What is written at `at` was offered by an error, so it cannot be unexpected.
fn offered(x: &[u8], at: usize) {
    src(x);
    if let Err(e) = parse("a.proto", unsafe { std::str::from_utf8_unchecked(x) }) {
        if e.span().is_some_and(|s| s.start == at) {
            let m = show(&e);
            let unexpected = m.0[..m.1].starts_with(b"expected ") && m.0[..m.1].windows(12).any(|w| w == b", but found ");
            check(!unexpected, "the error offers something that is not possible there");
        }
    }
}

/// C36. 1: tokens, 2: context, 3: 1 cuts the file off after the tokens
pub fn diag() {
    let n = param(1) as usize;
    let (pre, post) = CONTEXTS[param(2) as usize];
    let mut b: Vec<u8> = Vec::with_capacity(128);
    b.extend_from_slice(pre.as_bytes());
    for _ in 0..n {
        for &c in VOCAB[choice(VOCAB.len())].as_bytes() {
            b.push(match c {
                1 => of(&HEAD),
                2 => range(b'0', b'9'),
                3 => range(0, 0x7f),
                c => c,
            });
        }
        b.push(b' ');
    }
    if param(3) == 0 {
        b.extend_from_slice(post.as_bytes());
    }
    src(&b);
    match parse("a.proto", unsafe { std::str::from_utf8_unchecked(&b) }) {
        Ok(f) => {
            note(&[1, f.message_type.len() as u8]);
            reach(1);
        }
        Err(e) => {
            note(&[2, e.span().map(|s| s.start as u8).unwrap_or(255)]);
            // a default of type bytes has to be a string
            truthful(&e, &b, if pre.contains("bytes") { b"'x'" } else { b"1" });
        }
    }
}

/// C36: a token of any length that is not possible. 1: context, 2: characters
pub fn longtok() {
    let (pre, post) = CONTEXTS[param(1) as usize];
    let n = param(2) as usize;
    let mut b: Vec<u8> = Vec::with_capacity(512);
    b.extend_from_slice(pre.as_bytes());
    // one possible token before, or none
    b.extend_from_slice([&b""[..], b"a ", b"1 ", b"; ", b"'x' "][choice(5)]);
    let kind = choice(if n > 20 { 2 } else { 3 });
    let kind = if n > 20 && kind == 1 { 2 } else { kind };
    if kind == 2 {
        b.push(if flag() { b'"' } else { b'\'' });
    }
    for i in 0..n {
        let edge = i < 2 || i + 2 >= n;
        b.push(match kind {
            0 if edge => of(&HEAD),
            0 => b'q',
            1 if i + 1 == n => range(b'1', b'9'),
            1 => b'1',
            _ if edge => range(b'#', b'&'),
            _ => b'/',
        });
    }
    if kind == 2 {
        let q = b[b.len() - n - 1];
        b.push(q);
    }
    b.push(b' ');
    b.extend_from_slice(post.as_bytes());
    src(&b);
    match parse("a.proto", unsafe { std::str::from_utf8_unchecked(&b) }) {
        Ok(f) => {
            note(&[1, f.message_type.len() as u8]);
            reach(1);
        }
        Err(e) => {
            note(&[2, e.span().map(|s| s.start as u8).unwrap_or(255)]);
            truthful(&e, &b, if pre.contains("bytes") { b"'x'" } else { b"1" });
        }
    }
}
