//! Options: names, values, aggregates.
use crate::defaults::FLOATS;
use crate::gen::WORD;
use crate::numbers::{cat, literal, parse};
use crate::refs::*;
use prost_types::{uninterpreted_option::NamePart, FileDescriptorProto, UninterpretedOption};
use sym::*;

/// Where an option may stand: text before and after `name = value`, and how many options stand
/// before it. Statement places end in the semicolon.
pub static PLACES: &[(&str, &str)] = &[
    ("option ", ";"),
    ("message A { option ", "; }"),
    ("message A { optional int32 a = 1 [", "]; }"),
    ("message A { map<int32, B> a = 1 [", "]; }"),
    ("message A { repeated group G = 1 [", "] { option z = 1; } }"),
    ("message A { oneof o { option ", "; B b = 1; } }"),
    ("message A { oneof o { B b = 1 [", "]; } }"),
    ("enum A { option ", "; B = 0; }"),
    ("enum A { B = 0 [", "]; }"),
    ("service A { option ", "; }"),
    ("service A { rpc B (C) returns (D) { option ", "; } }"),
    ("message A { extensions 1 to 5 [", "]; }"),
    ("extend A { repeated int32 a = 1 [", "]; }"),
    ("message A { enum E { X = 0 [", "]; } }"),
    ("message A { message B { oneof o { group G = 1 [", "] {} } } }"),
    ("message A { extend B { optional C c = 1 [", "]; } }"),
];
pub const NPLACES: usize = 16;

fn is_list(place: usize) -> bool {
    PLACES[place].1.starts_with(']')
}

pub fn get(f: &FileDescriptorProto, place: usize) -> Option<&[UninterpretedOption]> {
    Some(match place {
        0 => &f.options.as_ref()?.uninterpreted_option,
        1 => &f.message_type[0].options.as_ref()?.uninterpreted_option,
        2 | 3 | 4 => &f.message_type[0].field[0].options.as_ref()?.uninterpreted_option,
        5 => &f.message_type[0].oneof_decl[0].options.as_ref()?.uninterpreted_option,
        6 => &f.message_type[0].field[0].options.as_ref()?.uninterpreted_option,
        7 => &f.enum_type[0].options.as_ref()?.uninterpreted_option,
        8 => &f.enum_type[0].value[0].options.as_ref()?.uninterpreted_option,
        9 => &f.service[0].options.as_ref()?.uninterpreted_option,
        10 => &f.service[0].method[0].options.as_ref()?.uninterpreted_option,
        11 => &f.message_type[0].extension_range[0].options.as_ref()?.uninterpreted_option,
        12 => &f.extension[0].options.as_ref()?.uninterpreted_option,
        13 => &f.message_type[0].enum_type[0].value[0].options.as_ref()?.uninterpreted_option,
        14 => &f.message_type[0].nested_type[0].field[0].options.as_ref()?.uninterpreted_option,
        _ => &f.message_type[0].extension[0].options.as_ref()?.uninterpreted_option,
    })
}

pub static HEAD: [bool; 256] = crate::gen::table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_");

/// An identifier with `k` symbolic characters, or one of a few telling ones.
pub fn ident(k: usize) -> Vec<u8> {
    if k > 0 {
        let mut n = vec![of(&HEAD)];
        for _ in 1..k {
            n.push(of(&WORD));
        }
        return n;
    }
    [&b"a"[..], b"option", b"max", b"inf", b"default_", b"json_name_", b"message_set_wire_format", b"_0"][choice(8)].to_vec()
}

/// Name parts: the text and the expected parts. `k` symbolic characters in each identifier.
pub fn name(parts: usize, k: usize) -> (Vec<u8>, Vec<NamePart>) {
    let mut t = vec![];
    let mut v = vec![];
    for i in 0..parts {
        if i > 0 {
            t.extend_from_slice([&b"."[..], b" . ", b"./*c*/"][i % 3]);
        }
        match choice(4) {
            0 => {
                let n = ident(k);
                t.extend_from_slice(&n);
                v.push(NamePart { name_part: unsafe { String::from_utf8_unchecked(n) }, is_extension: false });
            }
            e => {
                let mut n = ident(k);
                if e == 2 {
                    n.insert(0, b'.');
                }
                if e == 3 {
                    n.extend_from_slice(b".b.C");
                }
                t.push(b'(');
                t.extend_from_slice(&n);
                t.push(b')');
                v.push(NamePart { name_part: unsafe { String::from_utf8_unchecked(n) }, is_extension: true });
            }
        }
    }
    (t, v)
}

/// Is this single-part name one of those that do not stay uninterpreted on a field?
fn special(place: usize, v: &[NamePart]) -> bool {
    let field = matches!(place, 2 | 3 | 4 | 6 | 12 | 14 | 15);
    if !field || v.len() != 1 || v[0].is_extension {
        return false;
    }
    let n = v[0].name_part.as_bytes();
    same(n, b"default") || same(n, b"json_name")
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..b.len() {
        r &= a[i] == b[i];
    }
    fork(r)
}

/// Name parts. 1: place, 2: parts, 3: symbolic characters
pub fn optname() {
    let place = param(1) as usize;
    let (t, v) = name(param(2) as usize, param(3) as usize);
    assume(!special(place, &v));
    let (pre, post) = PLACES[place];
    let b = cat(&[pre.as_bytes(), &t, b" = x", post.as_bytes()]);
    let Some(f) = parse(&b) else { fail("a valid option name was rejected") };
    let Some(o) = get(&f, place) else { fail("option lost") };
    check(o.len() == 1, "one option expected");
    check(o[0].name.len() == v.len(), "name parts are lost or added");
    for i in 0..v.len() {
        check(o[0].name[i].is_extension == v[i].is_extension, "a name part is marked wrongly");
        check(o[0].name[i].name_part == v[i].name_part, "a name part is not as written");
    }
    check(o[0].identifier_value.as_deref() == Some("x"), "the value is not as written");
    reach(1);
}

/// A value of any kind: its text and the expectation; `None` if it must be rejected.
pub fn value(kind: usize, k: usize) -> (Vec<u8>, Option<UninterpretedOption>) {
    let mut o = UninterpretedOption::default();
    let mut t = vec![];
    match kind {
        0 => {
            let n = ident(k);
            t.extend_from_slice(&n);
            o.identifier_value = Some(unsafe { String::from_utf8_unchecked(n) });
        }
        1 => {
            let l = literal([25, 0, 4, 7, 9, 10, 11, 15, 16, 18, 21, 23][choice(12)], k);
            t.extend_from_slice(&l.text);
            if !l.ok {
                return (t, None);
            }
            o.positive_int_value = Some(l.value);
        }
        2 => {
            let l = literal([25, 0, 7, 9, 11, 15, 17, 21, 22][choice(9)], 1);
            t.extend_from_slice([&b"-"[..], b"-\n", b"-/* c */"][choice(3)]);
            t.extend_from_slice(&l.text);
            if !l.ok || fork(l.value > 1 << 63) {
                return (t, None);
            }
            o.negative_int_value = Some((l.value as i64).wrapping_neg());
        }
        3 => {
            let neg = flag();
            let f = FLOATS[choice(FLOATS.len())];
            if neg {
                t.extend_from_slice(b"-");
            }
            t.extend_from_slice(f.as_bytes());
            let v: f64 = f.parse().unwrap();
            o.double_value = Some(if neg { -v } else { v });
        }
        4 => {
            t.push(b'\'');
            for _ in 0..k {
                t.push(range(0, 0x7f));
            }
            t.push(b'\'');
            match string_literal(&t, 0) {
                Lit::Ok(v, e) if e == t.len() => o.string_value = Some(v),
                Lit::Ok(..) => assume(false),
                Lit::Bad => return (t, None),
            }
            if flag() {
                t.extend_from_slice(b"\n\"+\\xfe\"");
                o.string_value.as_mut().unwrap().extend_from_slice(b"+\xfe");
            }
        }
        5 => {
            let n = ident(k);
            t.extend_from_slice(b"{ ");
            t.extend_from_slice(&n);
            t.extend_from_slice(b" }");
            o.aggregate_value = Some(unsafe { String::from_utf8_unchecked(n) });
        }
        6 => {
            // a negated identifier
            let n = ident(k);
            t.extend_from_slice(if flag() { b"-" } else { b"- " });
            t.extend_from_slice(&n);
            return (t, None);
        }
        _ => {
            let bad: [&[u8]; 16] = [
                b"", b"-", b"+1", b"- -1", b"-'a'", b"-{}", b"[1]", b"<a: 1>", b"a.b", b".a", b"(a)", b"1 2", b"a b", b"'a' b", b"{} {}", b"= 1",
            ];
            t.extend_from_slice(bad[choice(16)]);
            return (t, None);
        }
    }
    (t, Some(o))
}

/// Values. 1: place, 2: kind (0-7), 3: symbolic characters
pub fn optvalue() {
    let place = param(1) as usize;
    let (t, v) = value(param(2) as usize, param(3) as usize);
    let (pre, post) = PLACES[place];
    // alone, or between other options
    let (before, after): (&[u8], &[u8]) = if flag() {
        (b"", b"")
    } else if is_list(place) {
        (b"p = 1, ", b", q = 'q'")
    } else {
        (b"p = 1; option ", b"; option q = 'q'")
    };
    let b = cat(&[pre.as_bytes(), before, b"a.(b) = ", &t, after, post.as_bytes()]);
    let r = parse(&b);
    let (Some(f), Some(mut want)) = (&r, v.clone()) else {
        check(r.is_none() == v.is_none(), if v.is_some() { "a valid option was rejected" } else { "an invalid option value was accepted" });
        reach(2);
        return;
    };
    let Some(o) = get(f, place) else { fail("option lost") };
    let at = if before.is_empty() { 0 } else { 1 };
    check(o.len() == 1 + 2 * at, "options are lost or added");
    want.name = vec![NamePart { name_part: "a".into(), is_extension: false }, NamePart { name_part: "b".into(), is_extension: true }];
    if let (Some(a), Some(b)) = (o[at].double_value, want.double_value) {
        check(a.to_bits() == b.to_bits(), "the double is not the one written");
    }
    check(o[at] == want, "the option is not as written");
    if at == 1 {
        check(o[0].positive_int_value == Some(1) && o[0].name[0].name_part == "p", "the option before is not as written");
        check(o[2].string_value.as_deref() == Some(b"q") && o[2].name[0].name_part == "q", "the option after is not as written");
    }
    reach(1);
}

/// Orders of special and ordinary options on a field. 1: place, 2: how many
pub fn optlist() {
    let place = param(1) as usize;
    let n = param(2) as usize;
    let (pre, post) = PLACES[place];
    assume(is_list(place));
    let field = matches!(place, 2 | 3 | 4 | 6 | 12 | 14 | 15);
    let mut t = vec![];
    let mut want: Vec<(String, bool)> = vec![];
    let mut json: Option<&str> = None;
    for i in 0..n {
        if i > 0 {
            t.extend_from_slice(b", ");
        }
        let k = choice(6);
        match k {
            0 | 1 | 2 => {
                let nm = ["a", "json_names", "Default"][k];
                t.extend_from_slice(nm.as_bytes());
                t.extend_from_slice(b" = 1");
                want.push((nm.to_string(), false));
            }
            3 => {
                t.extend_from_slice(b"(json_name) = 1");
                want.push(("json_name".to_string(), true));
            }
            4 => {
                t.extend_from_slice(b"json_name.a = 1");
                want.push(("json_name".to_string(), false));
            }
            _ => {
                if field {
                    assume(json.is_none());
                    t.extend_from_slice(b"json_name = 'jn' 'x'");
                    json = Some("jnx");
                } else {
                    t.extend_from_slice(b"json_name = 1");
                    want.push(("json_name".to_string(), false));
                }
            }
        }
    }
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    let Some(f) = parse(&b) else { fail("valid options were rejected") };
    let o = get(&f, place).unwrap_or(&[]);
    check(o.len() == want.len(), "options are lost or added");
    for i in 0..want.len() {
        check(o[i].name[0].name_part == want[i].0 && o[i].name[0].is_extension == want[i].1, "options are not in order");
        check(o[i].positive_int_value == Some(1), "an option's value is not as written");
    }
    if field {
        let d = match place {
            2 | 3 | 4 | 6 => &f.message_type[0].field[0],
            12 => &f.extension[0],
            14 => &f.message_type[0].nested_type[0].field[0],
            _ => &f.message_type[0].extension[0],
        };
        check(d.json_name.as_deref() == json, "json_name is not as written");
    }
    reach(1);
}

/// json_name: the string, verbatim; anything but a UTF-8 string is rejected. 1: place, 2: symbolic characters
pub fn jsonname() {
    let place = [2, 3, 4, 6, 12, 14, 15][param(1) as usize];
    let (pre, post) = PLACES[place];
    let k = param(2) as usize;
    let mut t = vec![];
    let want: Option<Vec<u8>> = match choice(4) {
        0 => {
            t.push(b'"');
            for _ in 0..k {
                t.push(range(0, 0x7f));
            }
            t.push(b'"');
            match string_literal(&t, 0) {
                Lit::Ok(v, e) => {
                    assume(e == t.len());
                    Some(v)
                }
                Lit::Bad => None,
            }
        }
        1 => {
            // bytes given in octal: anything
            t.extend_from_slice(b"'\\");
            let (a, b, c) = (range(b'2', b'3'), range(b'0', b'7'), range(b'0', b'7'));
            t.extend_from_slice(&[a, b, c]);
            t.extend_from_slice(b"\\2");
            let (d, e) = (range(b'0', b'7'), range(b'0', b'7'));
            t.extend_from_slice(&[d, e]);
            t.push(b'\'');
            let v = vec![(a - b'0') << 6 | (b - b'0') << 3 | (c - b'0'), 0x80 | (d - b'0') << 3 | (e - b'0')];
            if utf8(&v) {
                Some(v)
            } else {
                None
            }
        }
        2 => {
            t.extend_from_slice("'\u{e9}' \"\u{1f600}\"".as_bytes());
            Some("\u{e9}\u{1f600}".as_bytes().to_vec())
        }
        _ => {
            let bad: [&[u8]; 9] = [b"a", b"1", b"-1", b"1.5", b"{}", b"{ 'a' }", b"-a", b"-'a'", b""];
            t.extend_from_slice(bad[choice(9)]);
            None
        }
    };
    let (before, after): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"a = 1, ", b""), (b"", b", a = 1")][choice(3)];
    let b = cat(&[pre.as_bytes(), before, b"json_name = ", &t, after, post.as_bytes()]);
    match parse(&b) {
        None => {
            check(want.is_none(), "a valid json_name was rejected");
            reach(2);
        }
        Some(f) => {
            let Some(want) = want else { fail("an invalid json_name was accepted") };
            let d = match place {
                2 | 3 | 4 | 6 => &f.message_type[0].field[0],
                12 => &f.extension[0],
                14 => &f.message_type[0].nested_type[0].field[0],
                _ => &f.message_type[0].extension[0],
            };
            check(d.json_name.as_ref().map(|s| s.as_bytes()) == Some(&want[..]), "json_name is not the string written");
            let left = d.options.as_ref().map(|o| o.uninterpreted_option.len()).unwrap_or(0);
            check(left == if before.is_empty() && after.is_empty() { 0 } else { 1 }, "json_name stays among the options, or another option is lost");
            reach(1);
        }
    }
}

// ---- aggregates -------------------------------------------------------------------------

enum Tok {
    Word(Vec<u8>),
    Int(u64),
    Float(f64),
    Str(Vec<u8>),
    Punct(u8),
}

/// Reads the text-format tokens of an aggregate's text.
fn retokenise(t: &[u8]) -> Vec<Tok> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if fork((c == b' ') | (c == b'\n') | (c == b'\t') | (c == b'\r')) {
            i += 1;
            continue;
        }
        check(!fork(c == b'#'), "a comment is left in the text");
        if fork((c == b'"') | (c == b'\'')) {
            match string_literal(t, i) {
                Lit::Ok(v, e) => {
                    out.push(Tok::Str(v));
                    i = e;
                }
                Lit::Bad => fail("the text contains a malformed string"),
            }
            continue;
        }
        if fork(WORD[c as usize]) || (c == b'.' && i + 1 < t.len() && fork((t[i + 1] >= b'0') & (t[i + 1] <= b'9'))) {
            let s = i;
            let number = !fork(HEAD[c as usize]);
            while i < t.len() && (fork(WORD[t[i] as usize]) || number && t[i] == b'.') {
                i += 1;
            }
            let w = &t[s..i];
            if !number {
                out.push(Tok::Word(w.to_vec()));
            } else if w.iter().any(|&c| c == b'.') {
                let s: Vec<u8> = w.iter().map(|&c| conc(c as u64) as u8).collect();
                match unsafe { std::str::from_utf8_unchecked(&s) }.parse() {
                    Ok(v) => out.push(Tok::Float(v)),
                    Err(_) => fail("the text contains a malformed number"),
                }
            } else {
                let mut v: u64 = 0;
                for &d in w {
                    check((d >= b'0') & (d <= b'9'), "the text contains a malformed integer");
                    v = v.wrapping_mul(10).wrapping_add((d - b'0') as u64);
                }
                check(w.len() == 1 || w[0] != b'0', "a decimal integer has a leading zero");
                out.push(Tok::Int(v));
            }
            continue;
        }
        out.push(Tok::Punct(c));
        i += 1;
    }
    out
}

/// Tokens that may occur in an aggregate. `wide`: everything
pub const AGG_FORMS: usize = 32;
fn agg_token(t: &mut Vec<u8>, want: &mut Vec<Tok>, k: usize, depth: &mut usize, all: bool) {
    // `}` closes what `{` opened; the sequence is completed by the caller
    match k {
        0 => {
            let c = of(&HEAD);
            t.push(c);
            t.push(b'q');
            want.push(Tok::Word(vec![c, b'q']));
        }
        1 => {
            t.push(b'w');
            let c = of(&WORD);
            t.push(c);
            want.push(Tok::Word(vec![b'w', c]));
        }
        2 => {
            let c = range(b'1', b'9');
            t.push(c);
            want.push(Tok::Int((c - b'0') as u64));
        }
        3 => {
            let c = range(b'0', b'7');
            t.extend_from_slice(b"01");
            t.push(c);
            want.push(Tok::Int(8 + (c - b'0') as u64));
        }
        4 => {
            let c = range(b'a', b'f');
            t.extend_from_slice(b"0X1");
            t.push(c);
            want.push(Tok::Int(26 + (c - b'a') as u64));
        }
        5 => {
            t.extend_from_slice(b"18446744073709551615");
            want.push(Tok::Int(u64::MAX));
        }
        6 | 7 | 8 | 9 | 10 | 11 | 12 => {
            let (s, v) = [("1.5", 1.5), ("2f", 2.0), (".5e1F", 5.0), ("1e20", 1e20), ("0F", 0.0), ("1.25e-7", 1.25e-7), ("7.", 7.0)][k - 6];
            t.extend_from_slice(s.as_bytes());
            want.push(Tok::Float(v));
        }
        13 => {
            let c = range(0x20, 0x7e);
            assume((c != b'\\') & (c != b'\''));
            t.extend_from_slice(&[b'\'', c, b'\'']);
            want.push(Tok::Str(vec![c]));
        }
        14 => {
            // an octal escape: any byte; followed by a digit
            let (a, b, c) = if all { (range(b'0', b'3'), range(b'0', b'7'), range(b'0', b'7')) } else { (b'0', range(b'0', b'7'), b'2') };
            t.extend_from_slice(b"\"\\");
            t.extend_from_slice(&[a, b, c]);
            t.extend_from_slice(b"7\"");
            want.push(Tok::Str(vec![(a - b'0') << 6 | (b - b'0') << 3 | (c - b'0'), b'7']));
        }
        15 => {
            t.extend_from_slice("'\u{e9}}//#'".as_bytes());
            want.push(Tok::Str("\u{e9}}//#".as_bytes().to_vec()));
        }
        16 => {
            t.push(b'{');
            want.push(Tok::Punct(b'{'));
            *depth += 1;
        }
        17 => {
            assume(*depth > 0);
            t.push(b'}');
            want.push(Tok::Punct(b'}'));
            *depth -= 1;
        }
        _ => {
            let c = b"[]<>:;,-./()=+"[k - 18];
            t.push(c);
            want.push(Tok::Punct(c));
        }
    }
}

/// Gaps inside aggregates.
static AGG_GAPS: &[&str] = &[" ", "\n", "# } ' \n", "// { \n", "/* } */", "\t#\n"];

/// 1: place, 2: tokens, 3: gaps (0: spaces only, 1: any)
pub fn aggregate() {
    let place = param(1) as usize;
    let n = param(2) as usize;
    let (pre, post) = PLACES[place];
    let mut t = vec![];
    let mut want = vec![];
    let mut depth = 0;
    for _ in 0..n {
        let k = choice(AGG_FORMS);
        agg_token(&mut t, &mut want, k, &mut depth, n == 1);
        let g = if param(3) == 0 { 0 } else { choice(AGG_GAPS.len()) };
        // a slash directly before a comment would be part of it
        assume(!(k == 27 && AGG_GAPS[g].starts_with('/')));
        t.extend_from_slice(AGG_GAPS[g].as_bytes());
    }
    for _ in 0..depth {
        t.push(b'}');
        want.push(Tok::Punct(b'}'));
    }
    let b = cat(&[pre.as_bytes(), b"a = {", &t, b"}", post.as_bytes()]);
    let Some(f) = parse(&b) else { fail("a valid aggregate was rejected") };
    let Some(o) = get(&f, place) else { fail("option lost") };
    check(o.len() == 1, "one option expected");
    let Some(a) = &o[0].aggregate_value else { fail("not an aggregate") };
    check(
        o[0].identifier_value.is_none() && o[0].positive_int_value.is_none() && o[0].negative_int_value.is_none() && o[0].double_value.is_none() && o[0].string_value.is_none(),
        "more than one value",
    );
    let got = retokenise(a.as_bytes());
    check(got.len() == want.len(), "tokens are lost, added, split or joined");
    for (g, w) in got.iter().zip(&want) {
        match (g, w) {
            (Tok::Word(a), Tok::Word(b)) => check(a == b, "a word is changed"),
            (Tok::Int(a), Tok::Int(b)) => check(a == b, "an integer is changed"),
            (Tok::Float(a), Tok::Float(b)) => check(a == b, "a float is changed"),
            (Tok::Str(a), Tok::Str(b)) => check(a == b, "a string is changed"),
            (Tok::Punct(a), Tok::Punct(b)) => check(a == b, "punctuation is changed"),
            _ => fail("a token becomes one of another kind"),
        }
    }
    reach(1);
}

/// Adjacent tokens without any gap. 1: tokens
pub fn aggtight() {
    let n = param(1) as usize;
    let mut t = vec![];
    let mut want = vec![];
    let mut depth = 0;
    let mut prev = 100;
    for _ in 0..n {
        let k = choice(AGG_FORMS);
        // words and numbers must be separated; a dot or slash must not form another token
        let wordy = k <= 12 || k == 26;
        let was = prev <= 12 || prev == 26;
        assume(!(wordy && was) && !(prev == 27 && k == 27));
        agg_token(&mut t, &mut want, k, &mut depth, false);
        prev = k;
    }
    for _ in 0..depth {
        t.push(b'}');
        want.push(Tok::Punct(b'}'));
    }
    let b = cat(&[b"option a = {", &t, b"};"]);
    let Some(f) = parse(&b) else { fail("a valid aggregate was rejected") };
    let Some(o) = get(&f, 0) else { fail("option lost") };
    let Some(a) = &o[0].aggregate_value else { fail("not an aggregate") };
    let got = retokenise(a.as_bytes());
    check(got.len() == want.len(), "tokens are lost, added, split or joined");
    for (g, w) in got.iter().zip(&want) {
        match (g, w) {
            (Tok::Word(a), Tok::Word(b)) => check(a == b, "a word is changed"),
            (Tok::Int(a), Tok::Int(b)) => check(a == b, "an integer is changed"),
            (Tok::Float(a), Tok::Float(b)) => check(a == b, "a float is changed"),
            (Tok::Str(a), Tok::Str(b)) => check(a == b, "a string is changed"),
            (Tok::Punct(a), Tok::Punct(b)) => check(a == b, "punctuation is changed"),
            _ => fail("a token becomes one of another kind"),
        }
    }
    reach(1);
}

/// `#` comments and `f` suffixes stand only inside aggregates; braces balance. 1: place
pub fn textmode() {
    let place = param(1) as usize;
    let (pre, post) = PLACES[place];
    let hash: &[u8] = [&b"#\n"[..], b"# a }\n", b"##\n"][choice(3)];
    let d = range(b'1', b'9');
    let fl: &[u8] = &match choice(4) {
        0 => vec![d, b'f'],
        1 => vec![b'0', b'F'],
        2 => vec![d, b'.', b'5', b'f'],
        _ => vec![b'.', d, b'e', b'1', b'F'],
    };
    let sep: &[u8] = if is_list(place) { b", b = " } else { b"; option b = " };
    let (t, ok): (Vec<u8>, bool) = match choice(20) {
        0 => (cat(&[b"a = {", hash, b"}"]), true),
        1 => (cat(&[b"a = { b: ", fl, b"}"]), true),
        2 => (cat(&[b"a = { b {", hash, fl, b"}", hash, b"}"]), true),
        3 => (cat(&[hash, b"a = 1"]), false),
        4 => (cat(&[b"a", hash, b" = 1"]), false),
        5 => (cat(&[b"a =", hash, b" 1"]), false),
        6 => (cat(&[b"a = ", hash, b"{}"]), false),
        7 => (cat(&[b"a = 1", hash]), false),
        8 => (cat(&[b"a = {}", hash]), false),
        9 => (cat(&[b"a = {} ", hash]), false),
        10 => (cat(&[b"a = {}", sep, hash, b"1"]), false),
        11 => (cat(&[b"a = ", fl]), false),
        12 => (cat(&[b"a = -", fl]), false),
        13 => (cat(&[b"a = {}", sep, fl]), false),
        14 => (cat(&[b"a = {}", sep, b"{", hash, fl, b"}"]), true),
        15 => (cat(&[b"a = {", hash, b"}", sep, b"1.5"]), true),
        16 => (cat(&[b"a = { { }"]), false),
        17 => (cat(&[b"a = { } }"]), false),
        18 => (cat(&[b"a = { b: '}' "]), false),
        _ => (cat(&[b"a = { {} { {} } }", sep, b"{}"]), true),
    };
    let b = cat(&[pre.as_bytes(), &t, post.as_bytes()]);
    match parse(&b) {
        None => {
            check(!ok, "text-format syntax inside an aggregate was rejected");
            reach(2);
        }
        Some(_) => {
            check(ok, "text-format syntax outside an aggregate, or unbalanced braces, accepted");
            reach(1);
        }
    }
}

/// `#` and `f` outside of any option. 1: which
pub fn notext() {
    let d = range(b'1', b'9');
    let (pre, post): (&[u8], &[u8]) = [
        (&b"message A { optional float a = 1 [default = "[..], &b"]; }"[..]),
        (b"message A { optional int32 a = ", b"; }"),
        (b"option a = {}; message A { optional double a = 1 [default = ", b"]; }"),
        (b"message A { reserved ", b"; }"),
        (b"enum A { B = ", b"; }"),
        (b"enum A { B = 0 [a = {}]; C = ", b"; }"),
    ][choice(6)];
    let t = match choice(5) {
        0 => vec![d, b'f'],
        1 => vec![d, b'F'],
        2 => vec![b'#', b'\n', d],
        3 => vec![d, b'#', b'\n'],
        _ => vec![d, b' ', b'#', d, b'\n'],
    };
    let b = cat(&[pre, &t, post]);
    check(parse(&b).is_none(), "text-format syntax was accepted outside an aggregate");
    reach(2);
}

