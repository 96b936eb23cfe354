//! Import graphs: what is compiled, in which order, and what fails.
//!
//! Files have one-letter names; which file an import names is a symbolic character, so every graph
//! over the files is covered by the comparisons the compiler itself makes.
use prost::Message;
use prost_types::{DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use protox::file::{File, FileResolver};
use protox::{Compiler, Error};
use std::cell::RefCell;
use std::rc::Rc;
use crate::vfs::{self, Content, Found};
use sym::*;

/// What is wrong with a file itself.
#[derive(Clone, Copy, PartialEq)]
enum Bad {
    No,
    /// does not parse
    Syntax,
    /// parses, but refers to a type that does not exist
    Type,
    /// the resolver fails to read it
    Read,
}

#[derive(Clone)]
struct Src {
    imports: Vec<u8>,
    public: bool,
    bad: Bad,
}

struct World {
    /// how many files exist: a, b, ...
    n: usize,
    max: usize,
    /// how files are provided: 0 source text, 1 descriptor, 2 encoded descriptor, 3 in an include directory
    form: usize,
    /// may files be invalid themselves?
    bads: bool,
    files: Vec<Option<Src>>,
    opened: Vec<u32>,
}

#[derive(Clone)]
struct W(Rc<RefCell<World>>);

fn name_of(b: u8) -> String {
    let mut s = String::with_capacity(12);
    s.push_str("d/");
    unsafe { s.as_mut_vec() }.push(b);
    s.push_str(".proto");
    s
}

/// Which of the `n` files is meant; `n` if none.
fn index(b: u8, n: usize) -> usize {
    for i in 0..n {
        if fork(b == b'a' + i as u8) {
            return i;
        }
    }
    n
}

impl W {
    fn new(n: usize, max: usize, form: usize, bads: bool) -> W {
        W(Rc::new(RefCell::new(World { n, max, form, bads, files: vec![None; n], opened: vec![0; n] })))
    }

    /// The file's content, chosen when it is first asked for.
    fn src(&self, i: usize) -> Src {
        let mut w = self.0.borrow_mut();
        if w.files[i].is_none() {
            let k = choice(w.max + 1);
            // one letter more than there are files
            let imports = (0..k).map(|_| range(b'a', b'a' + w.n as u8)).collect();
            let bad = if w.bads { [Bad::No, Bad::Syntax, Bad::Type, Bad::Read][choice(4)] } else { Bad::No };
            let bad = if w.form != 0 && w.form != 3 && bad == Bad::Syntax { Bad::Read } else { bad };
            w.files[i] = Some(Src { imports, public: k > 0 && flag(), bad });
        }
        w.files[i].clone().unwrap()
    }

    /// The descriptor the file is expected to have.
    fn descriptor(&self, i: usize) -> FileDescriptorProto {
        let s = self.src(i);
        let letter = (b'A' + i as u8) as char;
        let mut f = FileDescriptorProto { name: Some(name_of(b'a' + i as u8)), ..Default::default() };
        for (k, &b) in s.imports.iter().enumerate() {
            f.dependency.push(name_of(b));
            if k == 0 && s.public {
                f.public_dependency.push(0);
            }
        }
        let mut m = DescriptorProto { name: Some(format!("M{letter}")), ..Default::default() };
        m.field.push(FieldDescriptorProto {
            name: Some("f".into()),
            number: Some(1),
            label: Some(1),
            json_name: Some("f".into()),
            r#type: Some(if s.bad == Bad::Type { 11 } else { 5 }),
            type_name: if s.bad == Bad::Type { Some(".nowhere.T".into()) } else { None },
            ..Default::default()
        });
        f.message_type.push(m);
        f
    }

    fn text(&self, i: usize) -> Vec<u8> {
        let s = self.src(i);
        let mut t = vec![];
        for (k, &b) in s.imports.iter().enumerate() {
            t.extend_from_slice(if k == 0 && s.public { b"import public 'd/" } else { b"import 'd/" });
            t.push(b);
            t.extend_from_slice(b".proto';\n");
        }
        t.extend_from_slice(b"message M");
        t.push(b'A' + i as u8);
        t.extend_from_slice(match s.bad {
            Bad::Type => b"{ optional .nowhere.T f = 1; }".as_slice(),
            Bad::Syntax => b"{ optional int32 f 1; }",
            _ => b"{ optional int32 f = 1; } // x",
        });
        t
    }
}

impl W {
    /// The include directory's file.
    fn read(&self, p: &[u8]) -> Found {
        let n = self.0.borrow().n;
        if p.len() != 13 || p[..4] != *b"inc/" {
            fail("another file is looked for");
        }
        let i = index(p[6], n);
        if i == n {
            return Found::Errno(vfs::ENOENT);
        }
        self.0.borrow_mut().opened[i] += 1;
        if self.src(i).bad == Bad::Read {
            return Found::Errno(13);
        }
        let t = self.text(i);
        src(&t);
        Found::File(Content::new(&t))
    }
}

impl FileResolver for W {
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let n = self.0.borrow().n;
        let b = name.as_bytes();
        if b.len() != 9 {
            fail("a file is asked for by a name nobody used");
        }
        let i = index(b[2], n);
        if i == n {
            return Err(Error::file_not_found(name));
        }
        self.0.borrow_mut().opened[i] += 1;
        let s = self.src(i);
        if s.bad == Bad::Read {
            return Err(Error::new(std::io::Error::from(std::io::ErrorKind::PermissionDenied)));
        }
        let form = self.0.borrow().form;
        match form {
            0 => {}
            1 => return Ok(File::from_file_descriptor_proto(self.descriptor(i))),
            _ => return Ok(File::decode_file_descriptor_proto(&self.descriptor(i).encode_to_vec()[..]).unwrap()),
        }
        let t = self.text(i);
        src(&t);
        File::from_source(name, unsafe { std::str::from_utf8_unchecked(&t) })
    }
}

/// The oracle's view of what has been compiled.
#[derive(Default, Clone)]
struct Model {
    compiled: Vec<bool>,
    explicit: Vec<bool>,
}

/// What the reachable part of the graph contains.
#[derive(Default)]
struct Problems {
    /// files importing one that does not exist
    missing: Vec<usize>,
    duplicate: Vec<usize>,
    /// files on a cycle
    cycle: Vec<usize>,
    invalid: Vec<usize>,
    reach: Vec<usize>,
    unknown: bool,
}

/// Explore what `root` needs beyond what is compiled already. Contents nobody asked for are unknown.
fn analyse(w: &W, m: &Model, root: usize) -> Problems {
    let mut p = Problems::default();
    let n = w.0.borrow().n;
    let mut todo = vec![root];
    let mut edges: Vec<Vec<usize>> = vec![vec![]; n];
    while let Some(i) = todo.pop() {
        if p.reach.contains(&i) || m.compiled[i] {
            continue;
        }
        p.reach.push(i);
        let s = w.0.borrow().files[i].clone();
        let Some(s) = s else {
            p.unknown = true;
            continue;
        };
        if s.bad != Bad::No {
            p.invalid.push(i);
        }
        if matches!(s.bad, Bad::Syntax | Bad::Read) {
            continue;
        }
        for &b in &s.imports {
            let j = index(b, n);
            if j == n {
                p.missing.push(i);
            } else {
                if edges[i].contains(&j) {
                    p.duplicate.push(i);
                }
                edges[i].push(j);
                todo.push(j);
            }
        }
        // a missing file listed twice is a duplicate as well
        let gone: usize = s.imports.iter().filter(|&&b| index(b, n) == n).count();
        if gone > 1 {
            p.duplicate.push(i);
        }
    }
    for i in 0..n {
        let mut seen = vec![false; n];
        let mut t = edges[i].clone();
        while let Some(j) = t.pop() {
            if j == i {
                p.cycle.push(i);
                break;
            }
            if !seen[j] {
                seen[j] = true;
                t.extend_from_slice(&edges[j]);
            }
        }
    }
    p
}

const ORDER: u64 = 1; // C20
const FAIL: u64 = 2; // C21
const KEEP: u64 = 4; // C27

fn letter(name: &str, n: usize) -> usize {
    let b = name.as_bytes();
    check(b.len() == 9 && &b[..2] == b"d/" && &b[3..] == b".proto", "a file has a name nobody gave it");
    index(b[2], n)
}

/// 1: aspects, 2: files, 3: imports per file, 4: files opened, 5: form of the files (see `World`), 6: invalid files too
pub fn graph() {
    let (aspect, n, max, opens, form) = (param(1), param(2) as usize, param(3) as usize, param(4) as usize, param(5) as usize);
    let want = |a: u64| aspect & a != 0;
    let w = W::new(n, max, form, param(6) != 0);
    let mut c = if form == 3 {
        let w = w.clone();
        vfs::install(Box::new(move |p, _| w.read(p)));
        let Ok(c) = Compiler::new(["inc"]) else { fail("an include path is rejected") };
        c
    } else {
        Compiler::with_file_resolver(w.clone())
    };
    c.include_source_info(flag());
    let mut m = Model { compiled: vec![false; n], explicit: vec![false; n] };
    for _ in 0..opens {
        let before: Vec<(String, bool)> = c.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
        let before_set = if want(KEEP) { Some(all(&mut c)) } else { None };
        let root = range(b'a', b'a' + n as u8);
        // by its name, or by where it is
        let mut path = String::new();
        if form == 3 {
            path.push_str(["", "inc/", "./inc/"][choice(3)]);
        }
        path.push_str(&name_of(root));
        let r = c.open_file(&path).map(|_| ());
        let i = index(root, n);
        match r {
            Ok(()) => {
                if i == n {
                    check(!want(FAIL | KEEP), "a file that does not exist was opened");
                    return;
                }
                let p = analyse(&w, &m, i);
                if want(FAIL) {
                    check(!p.unknown, "a needed file was never read");
                    check(p.missing.is_empty(), "a missing import was ignored");
                    check(p.duplicate.is_empty(), "a duplicate import was ignored");
                    check(p.cycle.is_empty(), "an import cycle was ignored");
                }
                check(!want(FAIL | KEEP) || p.invalid.is_empty(), "an invalid file was ignored");
                for j in p.reach {
                    m.compiled[j] = true;
                }
                m.explicit[i] = true;
                reach(1);
            }
            Err(e) => {
                let ok = i < n && m.compiled[i];
                if want(FAIL | KEEP) {
                    check(!ok, "a file compiled before cannot be opened");
                }
                if i == n {
                    if want(FAIL) {
                        check(e.is_file_not_found(), "a missing file is not reported as not found");
                    }
                    reach(2);
                } else if !ok {
                    let p = analyse(&w, &m, i);
                    if want(FAIL) {
                        let any = !p.missing.is_empty() || !p.duplicate.is_empty() || !p.cycle.is_empty() || !p.invalid.is_empty();
                        check(any, "a valid file was rejected");
                        let at = e.file().map(|f| letter(f, n));
                        if e.is_file_not_found() {
                            check(at.is_some_and(|a| p.missing.contains(&a)), "a missing import is not reported against the importing file");
                        } else if e.is_parse() {
                            check(at.is_some_and(|a| p.invalid.contains(&a)), "a parse error is reported against another file");
                        } else if e.is_io() {
                            check(p.invalid.iter().any(|&a| w.src(a).bad == Bad::Read), "an I/O error nobody caused");
                        } else {
                            check(
                                at.is_some_and(|a| p.duplicate.contains(&a) || p.cycle.contains(&a) || p.invalid.iter().any(|&x| x == a && w.src(a).bad == Bad::Type)),
                                "the error is reported against a file that does not have it",
                            );
                        }
                    }
                    // imports that were complete by themselves may stay
                    for f in c.files() {
                        let j = letter(f.name(), n);
                        if j < n && !m.compiled[j] {
                            if want(KEEP) {
                                check(j != i, "a file that failed to open is listed");
                                check(p.reach.contains(&j), "a file nobody needed was compiled");
                                let q = analyse(&w, &m, j);
                                check(!q.unknown && q.missing.is_empty() && q.duplicate.is_empty() && q.cycle.is_empty() && q.invalid.is_empty(), "an invalid file was compiled");
                                check(f.is_import(), "a file left over from a failure is not an import");
                            }
                        }
                    }
                    let now: Vec<usize> = c.files().map(|f| letter(f.name(), n)).collect();
                    for j in now {
                        if j < n {
                            m.compiled[j] = true;
                        }
                    }
                    reach(3);
                }
                if want(KEEP) {
                    // what there was is still there, unchanged
                    let after: Vec<(String, bool)> = c.files().map(|f| (f.name().to_owned(), f.is_import())).collect();
                    check(after.len() >= before.len() && after[..before.len()] == before[..], "a failure changed the files compiled before");
                    let set = all(&mut c);
                    let b = before_set.unwrap();
                    check(set.file.len() == after.len(), "the descriptor set lacks a file");
                    check(set.file[..b.file.len()] == b.file[..], "a failure changed the descriptor set");
                }
            }
        }
        if want(ORDER) {
            listing(&w, &mut c, &m, n);
        }
    }
    note(&[c.files().len() as u8]);
    vfs::remove();
}

fn all(c: &mut Compiler) -> FileDescriptorSet {
    c.include_imports(true);
    c.file_descriptor_set()
}

/// Only files on disk have a path: that in the include directory.
fn path_ok(w: &W, path: &Option<Vec<u8>>, i: usize) -> bool {
    match path {
        None => w.0.borrow().form != 3,
        Some(p) => w.0.borrow().form == 3 && p.len() == 13 && p[..6] == *b"inc/d/" && p[6] == b'a' + i as u8 && p[7..] == *b".proto",
    }
}

/// Exactly the needed files, each once, after its imports; imports flagged; both descriptor sets.
fn listing(w: &W, c: &mut Compiler, m: &Model, n: usize) {
    let files: Vec<(usize, bool, Option<Vec<u8>>)> = c.files().map(|f| (letter(f.name(), n), f.is_import(), f.path().map(|p| p.as_os_str().as_encoded_bytes().to_vec()))).collect();
    let mut seen = vec![false; n];
    for &(i, import, ref path) in &files {
        check(i < n, "a file that does not exist is listed");
        check(!seen[i], "a file is listed twice");
        check(m.compiled[i], "a file nobody needed is listed");
        check(import == !m.explicit[i], "the import flag is wrong");
        check(path_ok(w, path, i), "a file has another path than the one it was read from");
        for &b in &w.src(i).imports {
            let j = index(b, n);
            check(j < n && seen[j], "a file is listed before one it imports");
        }
        seen[i] = true;
    }
    for i in 0..n {
        check(seen[i] == m.compiled[i], "a needed file is not listed");
    }
    for imports in [true, false] {
        c.include_imports(imports);
        let set = c.file_descriptor_set();
        let mut want = files.iter().filter(|f| imports || !f.1);
        for f in &set.file {
            let Some(&(i, ..)) = want.next() else { fail("the descriptor set has a file too many") };
            let mut got = f.clone();
            got.source_code_info = None;
            let d = w.descriptor(i);
            check(got == d, "a file's descriptor is not its content");
        }
        check(want.next().is_none(), "the descriptor set lacks a file");
    }
}
