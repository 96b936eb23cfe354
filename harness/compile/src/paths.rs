//! Paths, include directories and names.
use crate::vfs::{self, Content, Found};
use protox::file::{FileResolver, IncludeFileResolver};
use protox::Compiler;
use std::cell::RefCell;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use sym::*;

/// A path's components as the statement sees them.
#[derive(Clone, PartialEq, Debug)]
pub enum Comp {
    Root,
    Parent,
    Normal(Vec<u8>),
}

/// Split a path; '.' components do not count. The second result says whether it starts with '.'.
pub fn comps(p: &[u8]) -> (Vec<Comp>, bool) {
    let mut r = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut dot = false;
    if !p.is_empty() && fork(p[0] == b'/') {
        r.push(Comp::Root);
    }
    for i in 0..=p.len() {
        if i == p.len() || fork(p[i] == b'/') {
            if cur.is_empty() {
            } else if cur.len() == 1 && fork(cur[0] == b'.') {
                dot |= r.is_empty();
            } else if cur.len() == 2 && fork((cur[0] == b'.') & (cur[1] == b'.')) {
                r.push(Comp::Parent);
            } else {
                r.push(Comp::Normal(cur.clone()));
            }
            cur.clear();
        } else {
            cur.push(p[i]);
        }
    }
    (r, dot)
}

pub fn same(a: &Comp, b: &Comp) -> bool {
    match (a, b) {
        (Comp::Normal(x), Comp::Normal(y)) => bytes_eq(x, y),
        (Comp::Root, Comp::Root) | (Comp::Parent, Comp::Parent) => true,
        _ => false,
    }
}

pub fn bytes_eq(x: &[u8], y: &[u8]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut e = true;
    for i in 0..x.len() {
        e &= x[i] == y[i];
    }
    fork(e)
}

pub fn all_same(a: &[Comp], b: &[Comp]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

/// The remainder of `p` below `inc`.
fn below(p: &[Comp], inc: &[Comp]) -> Option<Vec<Comp>> {
    if p.len() < inc.len() || !all_same(&p[..inc.len()], inc) {
        return None;
    }
    Some(p[inc.len()..].to_vec())
}

/// The name made of components, if they are all normal UTF-8.
fn name_of(c: &[Comp]) -> Option<Vec<u8>> {
    let mut n = vec![];
    for x in c {
        let Comp::Normal(b) = x else { return None };
        if !utf8(b) {
            return None;
        }
        if !n.is_empty() {
            n.push(b'/');
        }
        n.extend_from_slice(b);
    }
    if n.is_empty() {
        None
    } else {
        Some(n)
    }
}

/// Well-formed UTF-8, from the definition (RFC 3629).
pub fn utf8(b: &[u8]) -> bool {
    let cont = |i: usize| i < b.len() && fork((b[i] & 0xc0) == 0x80);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if fork(c < 0x80) {
            i += 1;
        } else if fork((c & 0xe0) == 0xc0) {
            if !cont(i + 1) || fork(c < 0xc2) {
                return false;
            }
            i += 2;
        } else if fork((c & 0xf0) == 0xe0) {
            if !cont(i + 1) || !cont(i + 2) {
                return false;
            }
            let v = ((c & 0xf) as u32) << 12 | ((b[i + 1] & 0x3f) as u32) << 6 | (b[i + 2] & 0x3f) as u32;
            if fork((v < 0x800) | ((v >= 0xd800) & (v < 0xe000))) {
                return false;
            }
            i += 3;
        } else if fork((c & 0xf8) == 0xf0) {
            if !cont(i + 1) || !cont(i + 2) || !cont(i + 3) {
                return false;
            }
            let v = ((c & 7) as u32) << 18 | ((b[i + 1] & 0x3f) as u32) << 12 | ((b[i + 2] & 0x3f) as u32) << 6 | (b[i + 3] & 0x3f) as u32;
            if fork((v < 0x10000) | (v > 0x10ffff)) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

fn path(b: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(b.to_vec()))
}

/// `n` bytes: 0 any, 1 those that matter to paths, 2 the same with names only, 3 without '..'
fn symbols(n: usize, class: u64) -> Vec<u8> {
    let mut t = [class == 0; 256];
    if class == 0 {
        t[0] = false;
    } else {
        for &c in if class == 1 { b"/.ab".as_slice() } else { b"/.aijk" } {
            t[c as usize] = true;
        }
    }
    (0..n).map(|_| of(&t)).collect()
}

/// `n` components, among them whatever a component may be.
fn components(n: usize) -> Vec<u8> {
    let mut p = vec![];
    for i in 0..n {
        if i > 0 {
            p.push(b'/');
        }
        match choice(6) {
            0 => p.push(range(b'a', b'b')),
            1 => p.extend_from_slice(b".."),
            2 => p.push(b'.'),
            3 => {}
            4 => p.extend_from_slice(b"a.b"),
            _ => p.extend_from_slice(b"longer_\xc3"),
        }
    }
    p
}

/// C22. 1: bytes of the include directory, 2: bytes of the path, 3: class of characters,
/// (10: components instead of bytes), 4: fixed start of both (0 none, 1 "/", 2 "./", 3 "../")
pub fn resolve() {
    let (ni, np, class) = (param(1) as usize, param(2) as usize, param(3));
    let start: &[u8] = [b"".as_slice(), b"/", b"./", b"../", b"d/e/"][param(4) as usize];
    let text = |n| if class == 10 { components(n) } else { symbols(n, class) };
    let mut inc = start.to_vec();
    inc.extend(text(ni));
    let mut req = start.to_vec();
    req.extend(text(np));
    src(&inc);
    src(&req);
    let r = IncludeFileResolver::new(path(&inc));
    let got = r.resolve_path(&path(&req));
    let (pc, _) = comps(&req);
    let (ic, _) = comps(&inc);
    let want = below(&pc, &ic).and_then(|rest| name_of(&rest));
    match (&got, &want) {
        (None, None) => reach(2),
        (Some(g), Some(w)) => {
            check(g.as_bytes() == &w[..], "the name is not the path below the include directory");
            reach(1);
        }
        (Some(_), None) => fail("a path outside the include directory, or without a name, was resolved"),
        (None, Some(_)) => fail("a path under the include directory was not resolved"),
    }
    // what the name is opened as is the path again
    if let Some(name) = got {
        let asked = Rc::new(RefCell::new(vec![]));
        let a = asked.clone();
        vfs::install(Box::new(move |p, _| {
            a.borrow_mut().push(p.to_vec());
            Found::Errno(vfs::ENOENT)
        }));
        let e = r.open_file(&name).map(|_| ());
        vfs::remove();
        let asked = asked.borrow();
        check(e.is_err_and(|e| e.is_file_not_found()), "a missing file is not reported as not found");
        check(asked.len() == 1, "a name is opened through another number of files");
        let (ac, _) = comps(&asked[0]);
        check(all_same(&ac, &pc), "a name opens another file than the path it stands for");
    }
}

/// The directories searched.
const INCLUDES: &[&[&str]] = &[
    &["i", "j"],
    &["i/k", "i"],
    &["i", "i/k"],
    &[".", "i"],
    &["i", "."],
    &["./i/.", "j"],
    &["/a", "a"],
    &["a", "/a"],
    &["", "i"],
    &["i"],
    &["i", "./i", "j"],
    &["../i", "i"],
    &["i", "j", "k"],
    &["/", "."],
    &["i/../j", "j"],
];

struct Fs {
    /// files somebody asked about: path, and whether it exists
    known: Vec<(Vec<Comp>, bool, Vec<u8>)>,
    /// what the next new file contains
    imports: bool,
}

impl Fs {
    fn find(&mut self, c: &[Comp]) -> usize {
        for i in 0..self.known.len() {
            let k = self.known[i].0.clone();
            if all_same(&k, c) {
                return i;
            }
        }
        let exists = flag();
        let mut text = vec![];
        if exists && self.imports && flag() {
            self.imports = false;
            text.extend_from_slice(b"import '");
            text.push(range(b'i', b'k'));
            text.extend_from_slice(b"';");
        }
        self.known.push((c.to_vec(), exists, text));
        self.known.len() - 1
    }
}

fn join(inc: &str, name: &[u8]) -> Vec<Comp> {
    let mut p = inc.as_bytes().to_vec();
    p.push(b'/');
    if inc.is_empty() {
        p.clear();
    }
    p.extend_from_slice(name);
    comps(&p).0
}

/// C22, C23. 1: include set, 2: bytes of each path, 3: paths opened, 4: what is checked
/// (1 shadowing, 2 which file a path stands for), 5: files may import others, 6: fixed start of the paths
pub fn shadow() {
    let incs = INCLUDES[param(1) as usize];
    let (np, opens, aspect) = (param(2) as usize, param(3) as usize, param(4));
    let start: &[u8] = [b"".as_slice(), b"i/", b"./i/", b"/a/"][param(6) as usize];
    let fs = Rc::new(RefCell::new(Fs { known: vec![], imports: param(5) != 0 }));
    let f = fs.clone();
    vfs::install(Box::new(move |p, _| {
        let (c, _) = comps(p);
        let i = f.borrow_mut().find(&c);
        let f = f.borrow();
        if !f.known[i].1 {
            return Found::Errno(vfs::ENOENT);
        }
        src(&f.known[i].2);
        Found::File(Content::new(&f.known[i].2))
    }));
    let Ok(mut c) = Compiler::new(incs.iter().map(PathBuf::from)) else { fail("include paths are rejected") };
    // names opened explicitly
    let mut explicit: Vec<Vec<u8>> = vec![];
    for _ in 0..opens {
        let mut req = start.to_vec();
        req.extend(symbols(np, 2));
        src(&req);
        let before: Vec<(String, Option<PathBuf>, bool)> = listing(&c);
        let r = c.open_file(path(&req)).map(|_| ());
        // the same by the statement
        let (pc, dot) = comps(&req);
        let mut resolved = None;
        for inc in incs {
            if let Some(n) = below(&pc, &comps(inc.as_bytes()).0).and_then(|rest| name_of(&rest)) {
                resolved = Some(n);
                break;
            }
        }
        let name = match &resolved {
            Some(n) => Some(n.clone()),
            None if dot => None,
            None => name_of(&pc),
        };
        let mut found = None;
        if let Some(n) = &name {
            for inc in incs {
                let j = join(inc, n);
                let k = fs.borrow_mut().find(&j);
                if fs.borrow().known[k].1 {
                    found = Some((k, j));
                    break;
                }
            }
        }
        // an import that does not exist is another property's
        let broken = match &found {
            Some((k, _)) => {
                let t = fs.borrow().known[*k].2.clone();
                if t.is_empty() {
                    false
                } else {
                    let imp = vec![t[8]];
                    let mut cur = false;
                    for inc in incs {
                        let j = join(inc, &imp);
                        let k = fs.borrow_mut().find(&j);
                        if fs.borrow().known[k].1 {
                            // the same file under another name imports itself
                            cur = fs.borrow().known[k].2.is_empty();
                            break;
                        }
                    }
                    !cur || bytes_eq(&imp, name.as_ref().unwrap())
                }
            }
            None => false,
        };
        let want_shadow = match (&resolved, &found) {
            (Some(_), Some((_, at))) => !all_same(at, &pc),
            _ => false,
        };
        match r {
            Ok(()) => {
                if aspect & 1 != 0 {
                    check(!want_shadow, "a shadowed path was accepted");
                }
                let Some(n) = &name else { fail("a path that stands for no name was opened") };
                let Some((_, at)) = &found else { fail("a file that does not exist was opened") };
                if !explicit.iter().any(|x| bytes_eq(x, n)) {
                    explicit.push(n.clone());
                }
                if aspect & 2 != 0 {
                    let mut hit = false;
                    for (m, p, import) in listing(&c) {
                        if bytes_eq(m.as_bytes(), n) {
                            check(!hit && !import, "the opened file is not listed once, as opened");
                            hit = true;
                            let Some(p) = p else { fail("a file read from disk has no path") };
                            check(all_same(&comps(p.as_os_str().as_encoded_bytes()).0, at), "the file is not the first one the include paths have");
                        }
                    }
                    check(hit, "the opened file is not listed under its name");
                }
                reach(1);
            }
            Err(e) => {
                if name.is_none() || found.is_none() {
                    if aspect & 2 != 0 {
                        check(e.is_file_not_found() && !e.is_io() && !e.is_parse(), "a path no include directory has is not reported as not found");
                    }
                    reach(2);
                } else if want_shadow {
                    if aspect & 1 != 0 {
                        check(!e.is_file_not_found() && !e.is_io() && !e.is_parse(), "a shadowed path is reported as something else");
                        check(e.file().is_some_and(|f| bytes_eq(f.as_bytes(), name.as_ref().unwrap())), "a shadowed path is reported against another file");
                    }
                    reach(3);
                } else {
                    check(broken, "a path that is not shadowed was rejected");
                    reach(4);
                }
                if aspect & 1 != 0 {
                    let after = listing(&c);
                    check(after.len() >= before.len() && after[..before.len()] == before[..], "a rejected path changed the files compiled before");
                    check(after[before.len()..].iter().all(|f| f.2), "a rejected path was compiled");
                }
            }
        }
    }
    vfs::remove();
    note(&[c.files().len() as u8]);
}

fn listing(c: &Compiler) -> Vec<(String, Option<PathBuf>, bool)> {
    c.files().map(|f| (f.name().to_owned(), f.path().map(Path::to_owned), f.is_import())).collect()
}
