//! C10: whitespace and comments between tokens do not matter.
use crate::gen::SPACE;
use sym::*;

/// Token lists; `|` separates tokens.
static FILES: &[&str] = &[
    "syntax|=|'proto3'|;|package|a|.|b|;|import|public|'x/y'|'.proto'|;|option|(|.|a|.|b|)|.|c|=|-|1.5|;|message|M|{|optional|.|p|.|Q|f|=|1|[|json_name|=|\"j\"|]|;|map|<|int32|,|X|>|m|=|2|;|}",
    "message|M|{|oneof|o|{|int32|a|=|1|;|option|b|=|'x'|\"y\"|;|}|optional|group|G|=|0x2|{|}|extensions|5|to|7|,|9|[|a|=|1|]|;|reserved|10|to|max|;|reserved|'a'|,|\"b\"|;|}",
    "enum|E|{|option|a|=|{|b|:|-|1|c|<|d|:|'e'|>|}|;|A|=|-|1|[|(|x|)|=|inf|,|y|=|-|2|]|;|reserved|-|5|to|-|3|;|}|extend|.|A|.|B|{|repeated|bytes|c|=|1|;|}",
    "service|S|{|rpc|M|(|stream|.|A|)|returns|(|B|.|C|)|;|rpc|N|(|A|)|returns|(|stream|B|)|{|option|a|=|true|;|;|}|option|b|=|1|;|}|;|import|weak|\"w\"|;",
    "message|M|{|optional|string|s|=|1|[|default|=|'a'|\"b\"|,|a|.|b|=|1e5|]|;|required|float|d|=|017|[|default|=|-|inf|]|;|extend|M|{|optional|int32|i|=|3|;|}|enum|E|{|Z|=|0|;|}|message|I|{|}|}",
];

fn sym_comment(out: &mut Vec<u8>, k: usize, block: bool) {
    for _ in 0..k {
        let c = byte();
        assume((c != 0) & (c != b'\n') & (c < 0x80));
        if block {
            assume((c != b'*') & (c != b'/'));
        }
        out.push(c);
    }
}

fn gap(out: &mut Vec<u8>, form: usize, k: usize) {
    match form {
        0 => {
            for _ in 0..k {
                out.push(of(&SPACE));
            }
        }
        1 => {
            out.extend_from_slice(b"/*");
            sym_comment(out, k, true);
            out.extend_from_slice(b"*/");
        }
        2 => {
            out.extend_from_slice(b"//");
            sym_comment(out, k, false);
            out.push(b'\n');
        }
        3 => out.extend_from_slice(b"\n\n"),
        4 => {
            out.push(of(&SPACE));
            out.extend_from_slice(b"/*a\n * b\n*/");
            out.push(of(&SPACE));
            out.extend_from_slice("// \u{e9}\r\n".as_bytes());
        }
        5 => {
            out.extend_from_slice(b"\r\n/**//* ");
            sym_comment(out, k, true);
            out.extend_from_slice("\u{20ac}*/\n\n//x\n\n/* y */".as_bytes());
        }
        _ => {
            out.extend_from_slice(b"// '\n\t/* \" */ ");
            sym_comment(&mut vec![], 0, true);
        }
    }
}

fn outcome(b: &[u8]) -> Option<prost_types::FileDescriptorProto> {
    // well-formed by construction
    match crate::common::run(b) {
        Ok(mut f) => {
            f.source_code_info = None;
            Some(f)
        }
        Err(_) => None,
    }
}

/// 1: file, 2: form of the gap, 3: symbolic characters, 4: change of the file (0 none, 1 a token
/// dropped, 2 doubled, 3 two exchanged, 4 replaced), 5: how far from the change the gap may be (0: anywhere)
pub fn layout() {
    let mut t: Vec<&str> = FILES[param(1) as usize].split('|').collect();
    let n = t.len();
    let change = param(4);
    let at = if change > 0 { choice(n) } else { 0 };
    match change {
        0 => {}
        1 => {
            t.remove(at);
        }
        2 => t.insert(at, t[at]),
        3 => {
            assume(at + 1 < n);
            t.swap(at, at + 1);
        }
        _ => t[at] = ["x", "1", ";", "'s'", "}", "optional", "-", "."][choice(8)],
    }
    let g = if param(5) == 0 {
        choice(t.len() + 1)
    } else {
        let d = choice(param(5) as usize + 1);
        assume(at + d <= t.len());
        at + d
    };
    let mut a: Vec<u8> = vec![];
    let mut b: Vec<u8> = vec![];
    for i in 0..=t.len() {
        a.push(b' ');
        if i == g {
            gap(&mut b, param(2) as usize, param(3) as usize);
        } else {
            b.push(b' ');
        }
        if i < t.len() {
            a.extend_from_slice(t[i].as_bytes());
            b.extend_from_slice(t[i].as_bytes());
        }
    }
    src(&b);
    match (outcome(&a), outcome(&b)) {
        (None, None) => reach(2),
        (Some(x), Some(y)) => {
            check(x == y, "the descriptor depends on whitespace or comments");
            reach(1);
        }
        (Some(_), None) => fail("other whitespace or comments make the file invalid"),
        (None, Some(_)) => fail("other whitespace or comments make the file valid"),
    }
}
