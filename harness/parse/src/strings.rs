//! String literals.
use crate::noise::any_char;
use crate::numbers::{cat, parse};
use crate::refs::*;
use sym::*;

/// What stands before the arbitrary characters of the literal.
pub static STARTS: &[&str] = &[
    "", "\\", "\\x", "\\X", "\\x4", "\\u", "\\u0", "\\uD", "\\u00e", "\\U0000", "\\U000", "\\U00010", "\\U0010F", "\\U00110", "\\U8000000", "\\U0000D8", "\\0", "\\1", "\\3", "\\4", "\\37", "\\777", "a\\n",
    "\\x\\", "\u{e9}\\", "\\\\", "\\\"", "\\'", "a'", "a\"", "\\8", "\\q", "\\ ", "\\0000", "\\x411", "//", "/*",
];

/// Where the literal stands: before, after, and how many further literals are adjacent.
fn value(b: &[u8]) -> Option<Vec<u8>> {
    let f = parse(b)?;
    let Some(o) = f.options else { fail("option lost") };
    check(o.uninterpreted_option.len() == 1, "one option expected");
    let v = o.uninterpreted_option.into_iter().next().unwrap().string_value;
    check(v.is_some(), "no string value");
    v
}

/// 1: start, 2: characters, 3: multi-byte characters too (1), hexadecimal digits only (2)
pub fn strdec() {
    let q: u8 = if flag() { b'"' } else { b'\'' };
    let mut t = vec![q];
    t.extend_from_slice(STARTS[param(1) as usize].as_bytes());
    for _ in 0..param(2) {
        if param(3) == 2 {
            let c = byte();
            let l = c | 0x20;
            assume(((c >= b'0') & (c <= b'9')) | ((l >= b'a') & (l <= b'f')));
            t.push(c);
        } else {
            any_char(&mut t, param(3) != 0);
        }
    }
    t.push(q);
    let n = t.len();
    // the statement ends right after the literal
    let b = cat(&[b"option a = ", &t, b";"]);
    let r = value(&b);
    match string_literal(&t, 0) {
        Lit::Ok(v, end) => {
            // what follows an early closing quote is another matter
            assume(end == n);
            match r {
                None => fail("a well-formed string literal was rejected"),
                Some(x) => {
                    check(x.len() == v.len(), "the literal decodes to a different number of bytes");
                    check(x == v, "the literal decodes to other bytes");
                    reach(1);
                }
            }
        }
        Lit::Bad => {
            check(r.is_none(), "a malformed string literal was accepted");
            reach(2);
        }
    }
}

static PIECES: &[(&str, &[u8])] = &[
    ("''", b""),
    ("\"\"", b""),
    ("'\\0'", b"\0"),
    ("\"\\x4\"", b"\x04"),
    ("'\\1'", b"\x01"),
    ("\"8'\"", b"8'"),
    ("'\"\\\"'", b"\"\""),
    ("'\\\\'", b"\\"),
    ("'//'", b"//"),
    ("'/*'", b"/*"),
    ("\"*/\"", b"*/"),
    ("'\u{20ac}'", b"\xe2\x82\xac"),
    ("'\\u20Ac'", b"\xe2\x82\xac"),
    ("'\\U0001f600'", b"\xf0\x9f\x98\x80"),
    ("\"#\"", b"#"),
    ("'\\''", b"'"),
    ("'\\377\\xfF'", b"\xff\xff"),
    ("'\r\t\x0b'", b"\r\t\x0b"),
];
static GAPS: &[&str] = &[" ", "", "\n", "// ' \n", "/* \" */", "\t\r\n"];

/// Adjacent literals. 1: how many
pub fn strcat() {
    let n = param(1) as usize;
    let place = choice(4);
    let mut t = vec![];
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            t.extend_from_slice(GAPS[choice(GAPS.len())].as_bytes());
        }
        let k = choice(PIECES.len() + 1);
        if k == PIECES.len() {
            // a literal with an arbitrary plain character
            let c = byte();
            assume((c >= b' ') & (c < 0x7f) & (c != b'\\') & (c != b'\''));
            t.extend_from_slice(&[b'\'', c, b'\'']);
            v.push(c);
        } else {
            t.extend_from_slice(PIECES[k].0.as_bytes());
            v.extend_from_slice(PIECES[k].1);
        }
    }
    let (pre, post): (&[u8], &[u8]) = [
        (&b"option a = "[..], &b";"[..]),
        (b"enum E { A = 0 [a = ", b"]; }"),
        (b"message M { oneof o { option a = ", b"; A b = 1; } }"),
        (b"message M { optional bytes b = 1 [a = ", b", b = 1]; }"),
    ][place];
    let b = cat(&[pre, &t, post]);
    let Some(f) = parse(&b) else { fail("a valid file was rejected") };
    let o = match place {
        0 => f.options.map(|o| o.uninterpreted_option),
        1 => f.enum_type[0].value[0].options.clone().map(|o| o.uninterpreted_option),
        2 => f.message_type[0].oneof_decl[0].options.clone().map(|o| o.uninterpreted_option),
        _ => f.message_type[0].field[0].options.clone().map(|o| o.uninterpreted_option),
    };
    let Some(o) = o else { fail("option lost") };
    check(o[0].string_value.as_ref() == Some(&v), "adjacent literals are not concatenated");
    reach(1);
}
