//! Labels, kinds and syntax levels; oneofs.
use crate::gen::{Lab, SCALARS, WORD};
use crate::numbers::{cat, parse};
use prost_types::{field_descriptor_proto::Type, DescriptorProto, FieldDescriptorProto, FileDescriptorProto};
use sym::*;

#[derive(Clone, Copy, PartialEq)]
enum At {
    Message,
    Oneof,
    Extend,
}

/// Where a field stands; the second text closes the first.
static PLACES: &[(&str, &str, At)] = &[
    ("message A { ", " }", At::Message),
    ("message A { oneof o { ", " } }", At::Oneof),
    ("extend A { ", " }", At::Extend),
    ("message A { message B { ", " } }", At::Message),
    ("message A { oneof p { int32 q = 9; } oneof o { ", " } }", At::Oneof),
    ("message A { extend A { ", " } }", At::Extend),
    ("message A { message B { oneof o { ", " } } }", At::Oneof),
    ("message A { message B { extend A { ", " } } }", At::Extend),
    // inside a group: proto2 only
    ("message A { optional group B = 9 { ", " } }", At::Message),
    ("message A { oneof p { group B = 9 { ", " } } }", At::Message),
    ("extend A { repeated group B = 9 { oneof o { ", " } } }", At::Oneof),
    ("message A { extend A { optional group B = 9 { ", " } } }", At::Message),
];

fn the_field(f: &FileDescriptorProto, place: usize) -> (&FieldDescriptorProto, &[DescriptorProto]) {
    let m = &f.message_type;
    match place {
        0 | 1 => (&m[0].field[0], &m[0].nested_type),
        2 => (&f.extension[0], m),
        4 => (&m[0].field[1], &m[0].nested_type),
        5 => (&m[0].extension[0], &m[0].nested_type),
        7 => (&m[0].nested_type[0].extension[0], &m[0].nested_type[0].nested_type),
        10 => (&m[0].field[0], &m[0].nested_type),
        _ => (&m[0].nested_type[0].field[0], &m[0].nested_type[0].nested_type),
    }
}

/// 1: place, 2: kinds (0: one of each, 1: all scalar types and keys), 3: symbolic characters
pub fn labels() {
    let place = param(1) as usize;
    let (pre, post, at) = PLACES[place];
    let syntax: &[u8] = [&b""[..], b"syntax = 'proto2'; ", b"syntax = 'proto3'; "][choice(3)];
    let p3 = syntax.len() > 0 && syntax[15] == b'3';
    let lab = [Lab::None, Lab::Optional, Lab::Required, Lab::Repeated][choice(4)];
    let kind = choice(5);
    let mut t = vec![];
    if let Some(k) = lab.kw() {
        t.extend_from_slice(k.as_bytes());
        t.push(b' ');
    }
    let mut nm: Vec<u8> = b"f".to_vec();
    for _ in 0..param(3) {
        nm.push(of(&WORD));
    }
    let all = param(2) != 0;
    let mut key_ok = true;
    match kind {
        0 => {
            let s = if all { choice(15) } else { [3, 14][choice(2)] };
            t.extend_from_slice(SCALARS[s].0.as_bytes());
            t.push(b' ');
            t.extend_from_slice(&nm);
        }
        1 => {
            t.extend_from_slice(&[&b"a.B "[..], b".C ", b"x "][choice(3)]);
            t.extend_from_slice(&nm);
        }
        2 => {
            let n = if all { 19 } else { 4 };
            let k = choice(n);
            let (key, ok): (&str, bool) = if all {
                if k < 15 {
                    (SCALARS[k].0, (2..=13).contains(&k))
                } else {
                    (["x", "a.b", ".c", "max"][k - 15], false)
                }
            } else {
                [("int32", true), ("string", true), ("float", false), ("E", false)][k]
            };
            key_ok = ok;
            t.extend_from_slice(b"map<");
            t.extend_from_slice(key.as_bytes());
            t.extend_from_slice([&b", int32> "[..], b",.x.y> "][choice(2)]);
            t.extend_from_slice(&nm);
        }
        _ => {
            t.extend_from_slice(b"group ");
            nm[0] = b'F';
            t.extend_from_slice(&nm);
        }
    }
    t.extend_from_slice(b" = 1");
    t.extend_from_slice(if flag() { b"" } else { b" [a = 1]" });
    t.extend_from_slice(match kind {
        3 => b" { }",
        4 => {
            if p3 {
                b" { int32 z = 1; } "
            } else {
                b" { optional int32 z = 1; } "
            }
        }
        _ => b";",
    });
    // other valid things around it
    let (before, after): (&[u8], &[u8]) = match (choice(3), at, p3) {
        (0, _, _) => (b"", b""),
        (1, At::Message, _) => (b"message Z { } ", b" enum Y { X = 0; }"),
        (1, At::Oneof, _) => (b"option a = 1; ", b""),
        (1, At::Extend, _) => (b"", b" repeated int32 z = 5;"),
        (_, At::Oneof, false) => (b"", b" group W = 7 { } bool z = 5;"),
        (_, At::Oneof, true) => (b"", b" string w = 7; bool z = 5;"),
        (_, _, false) => (b"", b" required_ .w = 7;"),
        _ => (b"", b" repeated int32 z = 5; int32 w = 6;"),
    };
    let junk = after.starts_with(b" required_");
    let b = cat(&[syntax, pre.as_bytes(), before, &t, if junk { b"" } else { after }, post.as_bytes()]);
    let ok = (place < 8 || !p3)
        && match kind {
            0 | 1 => match at {
                At::Oneof => lab == Lab::None,
                At::Message => (lab != Lab::None || p3) && (lab != Lab::Required || !p3),
                At::Extend => (lab != Lab::None || p3) && lab != Lab::Required,
            },
            2 => at == At::Message && lab == Lab::None && key_ok,
            _ => {
                !p3 && match at {
                    At::Oneof => lab == Lab::None,
                    At::Message => lab != Lab::None,
                    At::Extend => lab == Lab::Optional || lab == Lab::Repeated,
                }
            }
        };
    match parse(&b) {
        None => {
            check(!ok, "an allowed combination of label, kind and syntax was rejected");
            reach(2);
        }
        Some(f) => {
            check(ok, "a combination of label, kind and syntax that is not allowed was accepted");
            let (d, nested) = the_field(&f, place);
            let l = if kind == 2 { Lab::Repeated } else { lab };
            check(d.label == Some(l.val()), "the label is not the one written");
            check(d.proto3_optional == if p3 && lab == Lab::Optional { Some(true) } else { None }, "proto3_optional is not as written");
            if kind == 2 {
                check(d.r#type == Some(Type::Message as i32), "a map field is not a message");
                let i = if at == At::Message && before.len() > 1 { 1 } else { 0 };
                check(nested[i].options.as_ref().map(|o| o.map_entry()) == Some(true), "no map entry");
            }
            reach(1);
        }
    }
}

/// Empty oneofs are rejected; oneofs with a field are not. 1: symbolic characters
pub fn emptyoneof() {
    let syntax: &[u8] = [&b""[..], b"syntax = 'proto3'; "][choice(2)];
    let p3 = syntax.len() > 0;
    let mut nm: Vec<u8> = vec![b'o'];
    for _ in 0..param(1) {
        nm.push(of(&WORD));
    }
    let (body, ok): (&[u8], bool) = [
        (&b""[..], false),
        (b" ", false),
        (b";", false),
        (b"option a = 1;", false),
        (b"option a = 1; ; option b = 2;", false),
        (b"// int32 a = 1;\n", false),
        (b"int32 a = 1;", true),
        (b"; int32 a = 1;", true),
        (b"option a = 1; A b = 1; option c = 1;", true),
        (b"group G = 1 {}", !p3),
    ][choice(10)];
    let (pre, post): (&[u8], &[u8]) = [
        (&b"message A { "[..], &b" }"[..]),
        (b"message A { repeated int32 r = 8; ", b" }"),
        (b"message A { oneof p { int32 q = 9; } ", b" repeated int32 r = 8; }"),
        (b"message A { message B { ", b" } }"),
    ][choice(4)];
    let b = cat(&[syntax, pre, b"oneof ", &nm, b" {", body, b"}", post]);
    match parse(&b) {
        None => {
            check(!ok, "a oneof with a field was rejected");
            reach(2);
        }
        Some(_) => {
            check(ok, "a oneof without a field was accepted");
            reach(1);
        }
    }
}

/// C13. Fields, oneofs and proto3 optional fields whose names may collide with the names of
/// synthetic oneofs. 1: items, 2: symbolic characters per name, 3: 1 in a nested message, 4: 1 if names may repeat
pub fn oneofs() {
    let n = param(1) as usize;
    let k = param(2) as usize;
    let nested = param(3) as usize == 1;
    let mut t: Vec<u8> = b"syntax = 'proto3'; ".to_vec();
    t.extend_from_slice(if nested { b"message O { optional int32 a = 1; message A {" } else { b"message A {" });
    let mut names: Vec<Vec<u8>> = vec![];
    let mut twice = false;
    // expected: per field, None / declared index / own synthetic
    let mut fields: Vec<(Vec<u8>, u8, usize)> = vec![];
    let mut ones: Vec<Vec<u8>> = vec![];
    let mut num = 0;
    for _ in 0..n {
        let kind = choice(5);
        // names over a small alphabet, so that they meet
        let mut nm: Vec<u8> = [&b"a"[..], b"_a", b"X_a", b"XX_a", b"_X_a"][choice(if kind == 1 || kind == 4 { 2 } else { 5 })].to_vec();
        for _ in 0..k {
            nm.push(of(&WORD));
        }
        for o in &names {
            if o.len() == nm.len() && fork(o == &nm) {
                // invalid, but that need not be noticed here
                assume(param(4) == 1);
                twice = true;
            }
        }
        names.push(nm.clone());
        num += 1;
        let d = [b'0' + num];
        match kind {
            0 => {
                t.extend_from_slice(&cat(&[b"int32 ", &nm, b" = ", &d, b"; "]));
                fields.push((nm, 0, 0));
            }
            1 | 4 => {
                t.extend_from_slice(&cat(&[b"optional int32 ", &nm, b" = ", &d, b"; "]));
                fields.push((nm, 2, 0));
            }
            2 => {
                let mut inner = b"in".to_vec();
                inner.push(b'0' + num);
                t.extend_from_slice(&cat(&[b"oneof ", &nm, b" { int32 ", &inner, b" = ", &d, b"; } "]));
                fields.push((inner, 1, ones.len()));
                ones.push(nm);
            }
            _ => {
                // named as a field of a declared oneof
                t.extend_from_slice(&cat(&[b"oneof un", &d, b" { int32 ", &nm, b" = ", &d, b"; } "]));
                let mut o = b"un".to_vec();
                o.push(d[0]);
                fields.push((nm, 1, ones.len()));
                ones.push(o);
            }
        }
    }
    t.extend_from_slice(if nested { b"} optional int32 b = 2; }" } else { b"}" });
    let Some(f) = parse(&t) else {
        check(twice, "a valid file was rejected");
        return;
    };
    let m = if nested { &f.message_type[0].nested_type[0] } else { &f.message_type[0] };
    check(m.field.len() == fields.len(), "a field is lost or added");
    let synth = fields.iter().filter(|f| f.1 == 2).count();
    check(m.oneof_decl.len() == ones.len() + synth, "a oneof is lost or added");
    for (i, o) in ones.iter().enumerate() {
        check(m.oneof_decl[i].name().as_bytes() == &o[..], "declared oneofs are not first, in order");
    }
    let mut next = ones.len();
    for (i, (nm, kind, at)) in fields.iter().enumerate() {
        let f = &m.field[i];
        check(f.name().as_bytes() == &nm[..], "a field's name is not as written");
        let want = match kind {
            0 => None,
            1 => Some(*at as i32),
            _ => {
                next += 1;
                Some(next as i32 - 1)
            }
        };
        check(f.oneof_index == want, "oneof_index is not that of the field's oneof");
        check(f.proto3_optional == if *kind == 2 { Some(true) } else { None }, "proto3_optional is not as written");
    }
    // synthetic names are new
    for i in ones.len()..m.oneof_decl.len() {
        let s = m.oneof_decl[i].name();
        check(s.len() > 0, "a synthetic oneof without a name");
        for j in 0..m.oneof_decl.len() {
            if i != j {
                let o = m.oneof_decl[j].name();
                check(o.len() != s.len() || o != s, "a synthetic oneof's name is that of another oneof");
            }
        }
        for f in &m.field {
            check(f.name().len() != s.len() || f.name() != s, "a synthetic oneof's name is that of a field");
        }
    }
    if nested {
        let o = &f.message_type[0];
        check(o.oneof_decl.len() == 2, "the outer message's oneofs are not its own");
        check(o.field[0].oneof_index == Some(0) && o.field[1].oneof_index == Some(1), "the outer message's oneof indexes are not its own");
    }
    reach(if synth > 0 { 1 } else { 2 });
}
