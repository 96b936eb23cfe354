//! Descriptor sets from bytes.
use bytes::Buf;
use prost::Message;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use protox::file::{DescriptorSetFileResolver, File, FileResolver};
use protox::Compiler;
use std::path::Path;
use sym::*;

/// A varint, by the wire format's definition.
fn varint(b: &[u8], pos: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let c = *b.get(*pos)?;
        *pos += 1;
        if i == 9 && fork(c > 1) {
            return None;
        }
        v |= ((c & 0x7f) as u64) << (7 * i);
        if fork(c < 0x80) {
            return Some(v);
        }
    }
    None
}

/// A field's number and wire type.
fn key(b: &[u8], pos: &mut usize) -> Option<(u64, u8)> {
    let k = varint(b, pos)?;
    if fork(k > u32::MAX as u64) {
        return None;
    }
    let w = conc(k & 7) as u8;
    if w > 5 || fork(k >> 3 == 0) {
        return None;
    }
    Some((k >> 3, w))
}

fn skip(b: &[u8], pos: &mut usize, num: u64, wire: u8, depth: usize) -> Option<()> {
    if depth > 50 {
        return None;
    }
    match wire {
        0 => {
            varint(b, pos)?;
        }
        1 => advance(b, pos, 8)?,
        5 => advance(b, pos, 4)?,
        2 => {
            let n = varint(b, pos)?;
            advance(b, pos, n)?;
        }
        3 => loop {
            let (n, w) = key(b, pos)?;
            if w == 4 {
                if !fork(n == num) {
                    return None;
                }
                break;
            }
            skip(b, pos, n, w, depth + 1)?;
        },
        _ => return None,
    }
    Some(())
}

fn advance(b: &[u8], pos: &mut usize, n: u64) -> Option<()> {
    if fork(n > (b.len() - *pos) as u64) {
        return None;
    }
    *pos += conc(n) as usize;
    Some(())
}

/// The files of an encoded descriptor set, by the wire format's definition.
fn files(b: &[u8]) -> Option<Vec<(Vec<u8>, FileDescriptorProto)>> {
    let mut pos = 0;
    let mut r = vec![];
    while pos < b.len() {
        let (num, wire) = key(b, &mut pos)?;
        if fork(num == 1) {
            if wire != 2 {
                return None;
            }
            let n = varint(b, &mut pos)?;
            let s = pos;
            advance(b, &mut pos, n)?;
            let raw = &b[s..pos];
            // a single file is decoded by the same library
            r.push((raw.to_vec(), FileDescriptorProto::decode(raw).ok()?));
        } else {
            skip(b, &mut pos, num, wire, 0)?;
        }
    }
    Some(r)
}

fn verify(b: &[u8], split: usize) {
    src(b);
    let got = if split == 0 || split >= b.len() {
        DescriptorSetFileResolver::decode(b)
    } else {
        DescriptorSetFileResolver::decode((&b[..split]).chain(&b[split..]))
    };
    let want = files(b);
    match (got, want) {
        (Err(_), None) => reach(2),
        (Ok(_), None) => fail("bytes that are no descriptor set are accepted"),
        (Err(_), Some(_)) => fail("a descriptor set is rejected"),
        (Ok(r), Some(w)) => {
            reach(if w.is_empty() { 3 } else { 1 });
            serves(&r, &w);
        }
    }
}

/// Each file is found by its name (the first of that name), nothing else is found.
fn serves(r: &DescriptorSetFileResolver, w: &[(Vec<u8>, FileDescriptorProto)]) {
    for (i, (_, f)) in w.iter().enumerate() {
        // an earlier file of the same name hides this one
        let first = w[..i].iter().find(|(_, g)| eq(g.name(), f.name())).map(|(_, g)| g).unwrap_or(f);
        match r.open_file(f.name()) {
            Ok(g) => same(&g, first),
            Err(_) => fail("an encoded file is not found"),
        }
    }
    let other = "\u{7f}other";
    if !w.iter().any(|(_, f)| eq(f.name(), other)) {
        match r.open_file(other) {
            Ok(_) => fail("a file that was not encoded is served"),
            Err(e) => check(e.is_file_not_found() && e.file() == Some(other), "a file that was not encoded is not reported as not found"),
        }
    }
    check(r.resolve_path(Path::new(other)).is_none(), "a descriptor set resolves a path");
}

fn eq(a: &str, b: &str) -> bool {
    crate::paths::bytes_eq(a.as_bytes(), b.as_bytes())
}

fn same(g: &File, f: &FileDescriptorProto) {
    check(g.file_descriptor_proto() == f, "the served descriptor is not the encoded one");
    check(g.path().is_none() && g.source().is_none(), "a decoded file has a path or source text");
    check(g.name() == f.name(), "the file's name is not the descriptor's");
}

/// Arbitrary bytes. 1: how many, 2: 1 if in two parts, 3: fixed bytes before (0 none, 1 a file "a",
/// 2 an unknown field, 3 the start of a file, 4 nine continuation bytes, 5 a length of nine continuation
/// bytes, 6 the start of a group, 7 a length that needs two bytes)
pub fn dsbytes() {
    let n = param(1) as usize;
    let mut b = vec![];
    match param(3) {
        1 => b.extend_from_slice(&[0x0a, 3, 0x0a, 1, b'a']),
        2 => b.extend_from_slice(&[0x12, 1, 0]),
        3 => b.extend_from_slice(&[0x0a, n as u8, 0x0a]),
        4 => b.extend_from_slice(&[0x80; 9]),
        5 => {
            b.push(0x0a);
            b.extend_from_slice(&[0x83, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80]);
        }
        6 => b.extend_from_slice(&[0x13]),
        7 => b.extend_from_slice(&[0x0a, 0x80]),
        8 => {
            b.push(0x12);
            b.extend_from_slice(&[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        }
        _ => {}
    }
    for _ in 0..n {
        b.push(byte());
    }
    let split = if param(2) == 1 && !b.is_empty() { choice(b.len()) } else { 0 };
    verify(&b, split);
}

/// Whole sets: files with symbolic names among unknown fields. 1: entries, 2: bytes per name,
/// 3: 1 if bytes may be missing at the end, 4: 1 if through `new` instead of `decode`
pub fn dset() {
    let (n, len) = (param(1) as usize, param(2) as usize);
    let mut b = vec![];
    let mut set = FileDescriptorSet::default();
    for i in 0..n {
        match choice(4) {
            0 | 3 if param(4) == 1 => {}
            0 => {
                // an unknown field with any number of one byte
                let t = range(2, 15);
                let v = byte();
                match choice(4) {
                    0 => b.extend_from_slice(&[t << 3, v & 0x7f]),
                    1 => b.extend_from_slice(&[t << 3 | 1, v, v, 0, 0, 0, 0, 0, v]),
                    2 => b.extend_from_slice(&[t << 3 | 2, 2, v, 0]),
                    _ => b.extend_from_slice(&[t << 3 | 3, 0x0a, 1, v, t << 3 | 4]),
                }
            }
            3 => {
                // a file without a name but with an unknown field
                b.extend_from_slice(&[0x0a, 3, 0xa0, 0x06, range(0, 127)]);
            }
            k => {
                let mut f = FileDescriptorProto { package: Some(String::from((b'p' + i as u8) as char)), ..Default::default() };
                let name: String = (0..len).map(|_| range(0, 127) as char).collect();
                f.name = Some(name);
                if k == 2 {
                    f.dependency.push("x".into());
                    f.syntax = Some("proto3".into());
                }
                let e = f.encode_to_vec();
                b.push(0x0a);
                b.push(e.len() as u8);
                b.extend_from_slice(&e);
                set.file.push(f);
            }
        }
    }
    if param(4) == 1 {
        let r = DescriptorSetFileResolver::new(set.clone());
        let w: Vec<_> = set.file.into_iter().map(|f| (vec![], f)).collect();
        reach(1);
        return serves(&r, &w);
    }
    if param(3) == 1 {
        let k = choice(b.len() + 1);
        b.truncate(k);
    }
    verify(&b, 0);
}

/// Options this library does not know survive. 1: bytes of the unknown option's value, 2: how the file
/// gets there (0 a set, 1 a single file), 3: flags
pub fn dsoptions() {
    let len = param(1) as usize;
    let mut opt = vec![];
    // an extension with any number of two bytes from 1000 on
    let num = range(0x40, 0x7f);
    opt.extend_from_slice(&[0xc2 | 0x80, num]);
    opt.push(len as u8);
    let val: Vec<u8> = (0..len).map(|_| byte()).collect();
    opt.extend_from_slice(&val);
    let mut file = vec![0x0a, 1, b'a', 0x42, opt.len() as u8];
    file.extend_from_slice(&opt);
    let mut set = vec![0x0a, file.len() as u8];
    set.extend_from_slice(&file);
    src(&set);
    let mut c = if param(2) == 0 {
        Compiler::with_file_resolver(match DescriptorSetFileResolver::decode(&set[..]) {
            Ok(r) => r,
            Err(_) => fail("a descriptor set is rejected"),
        })
    } else {
        Compiler::with_file_resolver(One(file.clone()))
    };
    if c.open_file("a").is_err() {
        fail("a file with an unknown option is rejected");
    }
    c.include_imports(param(3) & 1 != 0).include_source_info(param(3) & 2 != 0);
    let out = c.encode_file_descriptor_set();
    check(out == set, "an option this library does not know is lost");
    reach(1);
}

struct One(Vec<u8>);

impl FileResolver for One {
    fn open_file(&self, _: &str) -> Result<File, protox::Error> {
        match File::decode_file_descriptor_proto(&self.0[..]) {
            Ok(f) => {
                check(f.name() == "a" && f.path().is_none() && f.source().is_none(), "a decoded file is described wrongly");
                Ok(f)
            }
            Err(_) => fail("a file descriptor is rejected"),
        }
    }
}
