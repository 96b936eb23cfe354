//! Declarations in every position: descriptor and locations.
use crate::common::*;
use crate::gen::*;
use sym::*;

/// `k` items; with param 6, over and over again, that many times.
fn pick(n: usize, k: usize) -> Vec<usize> {
    let v: Vec<usize> = (0..k).map(|_| choice(n)).collect();
    v.repeat(param(6).max(1) as usize)
}

/// param 1 aspect, 2 layout, 3 number of items, 4 symbolic characters, 5 symbolic separators
pub fn msgseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let syntax = choice(2) * 2;
    let items = pick(ITEMS, k);
    let mut f = F::new(layout, syntax);
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| message(g, 4, 0, "Root", &items, &mut f.message_type));
    verify(f, aspect);
}

pub fn fileseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let syntax = choice(3);
    let items = pick(FILE_ITEMS, k);
    let mut f = F::new(layout, syntax);
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    for i in items {
        f.item(i);
    }
    verify(f, aspect);
}

/// Items of an enum, at file level or nested.
pub fn enumseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let items = pick(ENUM_ITEMS, k);
    let nested = flag();
    let mut f = F::new(layout, choice(2) * 2);
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| {
        if nested {
            in_message(g, f, |g, m| enum_(g, 4, 0, "Num", &items, &mut m.enum_type));
        } else {
            enum_(g, 5, 0, "Num", &items, &mut f.enum_type);
        }
    });
    verify(f, aspect);
}

fn in_message(g: &mut G, f: &mut prost_types::FileDescriptorProto, e: impl FnOnce(&mut G, &mut prost_types::DescriptorProto)) {
    g.push(4, f.message_type.len());
    let a = g.t("message");
    let n = g.t("Out");
    g.loc(&[1], n);
    g.t("{");
    let mut m = prost_types::DescriptorProto { name: Some("Out".into()), ..Default::default() };
    e(g, &mut m);
    let z = g.t("}");
    g.loc(&[], a.to(z));
    g.pop();
    f.message_type.push(m);
}

/// Methods, options and empty statements of a service.
pub fn svcseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let items = pick(18, k);
    let mut f = F::new(layout, choice(2) * 2);
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| {
        service(g, 0, "First", &[0], &mut f.service);
        service(g, 1, "Second", &items, &mut f.service);
    });
    verify(f, aspect);
}

/// Items of a oneof, between other fields and oneofs.
pub fn oneofseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let p3 = flag();
    let items = pick(5, k);
    // at least one field; no groups in proto3
    assume(items.iter().any(|&i| i < 3));
    assume(!p3 || items.iter().all(|&i| i != 2));
    let (before, after) = (choice(3), choice(4));
    let mut f = F::new(layout, if p3 { 2 } else { 0 });
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| {
        in_message(g, f, |g, m| {
            let mut synth = vec![];
            let mut opts = vec![];
            match before {
                0 => {}
                1 => item(g, m, &mut synth, &mut opts, 2),
                _ => oneof(g, m, &[0]),
            }
            oneof(g, m, &items);
            match after {
                0 => {}
                1 => item(g, m, &mut synth, &mut opts, 0),
                2 => item(g, m, &mut synth, &mut opts, 4),
                _ => item(g, m, &mut synth, &mut opts, 2),
            }
            synthetic(m, synth);
        });
    });
    verify(f, aspect);
}

/// Fields of an extend block, at file level or nested.
pub fn extseq() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let p3 = flag();
    let items = pick(5, k);
    assume(!p3 || items.iter().all(|&i| i != 2));
    let nested = flag();
    let twice = flag();
    let ext = [".x.Y", "Z", "a.b.C"][choice(3)];
    let mut f = F::new(layout, if p3 { 2 } else { 1 });
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| {
        if nested {
            in_message(g, f, |g, m| {
                if twice {
                    extend(g, 6, 3, "First", &[0], &mut m.extension, &mut m.nested_type);
                }
                extend(g, 6, 3, ext, &items, &mut m.extension, &mut m.nested_type);
            });
        } else {
            if twice {
                extend(g, 7, 4, "First", &[0], &mut f.extension, &mut f.message_type);
            }
            extend(g, 7, 4, ext, &items, &mut f.extension, &mut f.message_type);
        }
    });
    verify(f, aspect);
}

static NAMES: &[&str] = &["x", "T", "a.B", ".a.B", ".x", "a.b.c.D", ".message.enum", "p.message.oneof", "a.int32", ".int32", ".optional.x", "x.group.max", "_", "_a._9"];

/// Type × position × label × options of one field. 1 aspect, 2 layout, 3 scalar types (0) or named ones (1), 4, 5 as before
pub fn fieldtypes() {
    let (aspect, layout) = (param(1), param(2) as usize);
    let t = if param(3) == 0 { Ty::S(choice(15)) } else { Ty::N(NAMES[choice(NAMES.len())]) };
    let p3 = flag();
    let place = choice(5);
    let rep = flag();
    let opts: &[Spec] = [&[][..], &[Spec::Json], &[Spec::Form(0), Spec::Form(1)], &[Spec::Form(2), Spec::Json, Spec::Form(3)]][choice(4)];
    assume(!(place == 1 && rep));
    let mut f = F::new(layout, if p3 { 2 } else { 0 });
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    f.with(|g, f, _| {
        let lab = if rep {
            Lab::Repeated
        } else if place == 1 {
            Lab::None
        } else if p3 {
            Lab::None
        } else if place == 2 {
            Lab::Optional
        } else {
            Lab::Required
        };
        // a keyword starting a type name would be read as that keyword
        let name = g.name("fld");
        match place {
            0 => in_message(g, f, |g, m| one_field(g, m, lab, Kind::Normal(t), &name, opts, None)),
            1 => in_message(g, f, |g, m| {
                let idx = m.oneof_decl.len();
                let a = g.t("oneof");
                let n = g.t("uni");
                g.push(8, idx);
                g.loc(&[1], n);
                g.pop();
                g.t("{");
                one_field(g, m, lab, Kind::Normal(t), &name, opts, Some(0));
                let e = g.t("}");
                g.push(8, idx);
                g.loc(&[], a.to(e));
                g.pop();
                m.oneof_decl.push(prost_types::OneofDescriptorProto { name: Some("uni".into()), options: None });
            }),
            2 => {
                let a = g.t("extend");
                let x = g.dotted(".q.R");
                g.t("{");
                let mut synth = vec![];
                let mut sc = Scope {
                    field_tag: 7,
                    nested_tag: 4,
                    fields: &mut f.extension,
                    nested: &mut f.message_type,
                    synth: &mut synth,
                    in_oneof: None,
                    extendee: Some((".q.R".into(), x)),
                };
                field(g, &mut sc, lab, Kind::Normal(t), &name, opts);
                let e = g.t("}");
                g.loc(&[7], a.to(e));
            }
            3 => in_message(g, f, |g, m| {
                g.push(3, 0);
                let a = g.t("message");
                let n = g.t("In");
                g.loc(&[1], n);
                g.t("{");
                let mut i = prost_types::DescriptorProto { name: Some("In".into()), ..Default::default() };
                one_field(g, &mut i, lab, Kind::Normal(t), &name, opts, None);
                let e = g.t("}");
                g.loc(&[], a.to(e));
                g.pop();
                m.nested_type.push(i);
            }),
            // after another field
            _ => in_message(g, f, |g, m| {
                one_field(g, m, Lab::Repeated, Kind::Normal(Ty::S(3)), "prev", &[], None);
                one_field(g, m, lab, Kind::Normal(t), &name, opts, None);
            }),
        }
    });
    verify(f, aspect);
}

fn one_field(g: &mut G, m: &mut prost_types::DescriptorProto, lab: Lab, kind: Kind, name: &str, opts: &[Spec], in_oneof: Option<i32>) {
    let mut synth = vec![];
    let mut sc = Scope { field_tag: 2, nested_tag: 3, fields: &mut m.field, nested: &mut m.nested_type, synth: &mut synth, in_oneof, extendee: None };
    field(g, &mut sc, lab, kind, name, opts);
    synthetic(m, synth);
}

/// Key × value types of a map, and its field name with symbolic characters.
/// 1 aspect, 2 layout, 3 characters of the name that are symbolic
pub fn maptypes() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let key = 2 + choice(12);
    let v = choice(18);
    let v = if v < 15 { Ty::S(v) } else { Ty::N([".p.Q", "V", ".string.x"][v - 15]) };
    let mut f = F::new(layout, choice(2) * 2);
    f.with(|g, f, _| {
        in_message(g, f, |g, m| {
            let name = map_name(k);
            one_field(g, m, Lab::None, Kind::Map(key, v), &name, &[], None);
        })
    });
    verify(f, aspect);
}

fn map_name(k: usize) -> String {
    let mut name = String::from(["m", "_", "x_Y", "__a"][choice(4)]);
    for _ in 0..k {
        unsafe { name.as_mut_vec() }.push(of(&WORD));
    }
    name
}

/// The entry message of a map: the field's name is symbolic. 1 aspect, 2 layout, 3 symbolic characters
pub fn mapnames() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let mut f = F::new(layout, choice(2) * 2);
    f.with(|g, f, _| {
        in_message(g, f, |g, m| {
            let name = map_name(k);
            one_field(g, m, Lab::None, Kind::Map(13, Ty::S(2)), &name, &[], None);
            one_field(g, m, Lab::None, Kind::Map(2, Ty::S(13)), "other_map", &[], None);
        })
    });
    verify(f, aspect);
}

/// Groups with symbolic names in every position, nested up to three deep.
/// 1 aspect, 2 layout, 3 symbolic characters
pub fn groups() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let lab = [Lab::Optional, Lab::Required, Lab::Repeated][choice(3)];
    let place = choice(3);
    let inner: &[usize] = [&[][..], &[0], &[4, 0], &[7, 6], &[5, 3, 8]][choice(5)];
    let opts: &[Spec] = [&[][..], &[Spec::Json, Spec::Form(1)]][choice(2)];
    let mut name = String::new();
    let mut head = [false; 256];
    for c in b'A'..=b'Z' {
        head[c as usize] = true;
    }
    unsafe { name.as_mut_vec() }.push(if k > 0 { of(&head) } else { b'G' });
    for _ in 1..k {
        unsafe { name.as_mut_vec() }.push(of(&WORD));
    }
    assume(!(place == 1 && lab != Lab::Optional) && !(place == 2 && lab == Lab::Required));
    let mut f = F::new(layout, choice(2));
    f.with(|g, f, _| match place {
        0 => in_message(g, f, |g, m| {
            item(g, m, &mut vec![], &mut vec![], 5);
            one_field(g, m, lab, Kind::Group(inner), &name, opts, None);
            item(g, m, &mut vec![], &mut vec![], 0);
        }),
        1 => in_message(g, f, |g, m| {
            g.push(8, 0);
            let a = g.t("oneof");
            let n = g.t("uni");
            g.loc(&[1], n);
            g.pop();
            g.t("{");
            one_field(g, m, Lab::None, Kind::Normal(Ty::S(4)), "first", &[], Some(0));
            one_field(g, m, Lab::None, Kind::Group(inner), &name, opts, Some(0));
            let e = g.t("}");
            g.push(8, 0);
            g.loc(&[], a.to(e));
            g.pop();
            m.oneof_decl.push(prost_types::OneofDescriptorProto { name: Some("uni".into()), options: None });
        }),
        _ => {
            let a = g.t("extend");
            let x = g.dotted("Q");
            g.t("{");
            let mut synth = vec![];
            let mut sc = Scope {
                field_tag: 7,
                nested_tag: 4,
                fields: &mut f.extension,
                nested: &mut f.message_type,
                synth: &mut synth,
                in_oneof: None,
                extendee: Some(("Q".into(), x)),
            };
            field(g, &mut sc, Lab::Repeated, Kind::Normal(Ty::S(1)), "first", &[]);
            field(g, &mut sc, lab, Kind::Group(inner), &name, opts);
            let e = g.t("}");
            g.loc(&[7], a.to(e));
        }
    });
    verify(f, aspect);
}

/// Messages nested `k` deep with an item at each level. 1 aspect, 2 layout, 3 depth
pub fn nesting() {
    let (aspect, layout, k) = (param(1), param(2) as usize, param(3) as usize);
    let mut f = F::new(layout, choice(2) * 2);
    f.g.long = param(6) > 0;
    f.g.budget = param(4) as usize;
    f.g.gaps = param(5) as usize;
    fn level(g: &mut G, tag: i32, k: usize, out: &mut Vec<prost_types::DescriptorProto>) {
        static AT: [usize; 7] = [0, 2, 3, 6, 7, 8, 13];
        let before = AT[choice(7)];
        let after = choice(3);
        let name = g.name("Lv");
        g.push(tag, out.len());
        let a = g.t("message");
        let n = g.t(&name);
        g.loc(&[1], n);
        g.t("{");
        let mut m = prost_types::DescriptorProto { name: Some(name), ..Default::default() };
        let (mut synth, mut opts) = (vec![], vec![]);
        item(g, &mut m, &mut synth, &mut opts, before);
        if k > 1 {
            level(g, 3, k - 1, &mut m.nested_type);
        }
        match after {
            0 => {}
            1 => item(g, &mut m, &mut synth, &mut opts, 5),
            _ => item(g, &mut m, &mut synth, &mut opts, 2),
        }
        synthetic(&mut m, synth);
        let e = g.t("}");
        g.loc(&[], a.to(e));
        g.pop();
        out.push(m);
    }
    f.with(|g, f, _| level(g, 4, k, &mut f.message_type));
    verify(f, aspect);
}
