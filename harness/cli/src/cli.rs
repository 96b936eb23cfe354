//! The program does what its flags say.
#![allow(static_mut_refs)]
use crate::program;
use crate::vfs::{self, Content, Found};
use protox::Compiler;
use std::cell::RefCell;
use std::rc::Rc;
use sym::*;

/// What the arguments mean.
#[derive(Default)]
struct Meaning {
    includes: Vec<String>,
    files: Vec<String>,
    out: Option<String>,
    info: bool,
    imports: bool,
    /// not a valid command line
    usage: bool,
    /// asks for help
    help: bool,
}

struct Disk {
    known: Vec<(Vec<u8>, bool)>,
    /// writing fails
    full: bool,
    /// paths opened for writing
    written: Vec<Vec<u8>>,
}

static mut EXPECT_EXIT: Option<bool> = None;
static mut DISK: Option<Rc<RefCell<Disk>>> = None;

/// The process is ended early: only for a wrong command line or for help, and nothing was written.
#[no_mangle]
unsafe extern "C" fn exit(code: i32) -> ! {
    let f = || unsafe {
        let written = DISK.as_ref().is_some_and(|d| !d.borrow().written.is_empty());
        check(!written, "the program writes and then exits");
        match EXPECT_EXIT {
            Some(true) => check(code != 0, "a wrong command line is reported as success"),
            Some(false) => check(code == 0, "asking for help fails"),
            None => fail("a correct command line is rejected"),
        }
        reach(4);
    };
    #[cfg(feature = "native")]
    {
        let ok = std::panic::catch_unwind(f).is_ok();
        vfs::remove();
        sym::native::end(ok)
    }
    #[cfg(not(feature = "native"))]
    {
        f();
        done()
    }
}

fn letter(lo: u8, n: u8) -> String {
    String::from(range(lo, lo + n - 1) as char)
}

fn cat(a: &str, b: &str) -> String {
    let mut s = String::from(a);
    s.push_str(b);
    s
}

/// 1: arguments, 2: 1 if every spelling, 3: kinds of argument allowed (bits), 4: bytes of content that vary
pub fn cli() {
    let (n, spell, kinds) = (param(1) as usize, param(2) == 1, param(3));
    let mut argv: Vec<String> = vec!["protox".into()];
    let mut m = Meaning::default();
    let all: Vec<usize> = (0..7).filter(|k| kinds & (1 << k) != 0).collect();
    for _ in 0..n {
        match all[choice(all.len())] {
            0 => {
                let f = letter(b'x', 2);
                argv.push(f.clone());
                m.files.push(f);
            }
            1 => {
                let d = letter(b'd', 2);
                match if spell { choice(6) } else { 0 } {
                    0 => argv.extend(["-I".into(), d.clone()]),
                    1 => argv.push(cat("-I", &d)),
                    2 => argv.extend(["--include".into(), d.clone()]),
                    3 => argv.push(cat("--include=", &d)),
                    4 => argv.extend(["--proto_path".into(), d.clone()]),
                    _ => argv.push(cat("--proto_path=", &d)),
                }
                m.includes.push(d);
            }
            2 => {
                let o = letter(b'o', 2);
                match if spell { choice(6) } else { 0 } {
                    0 => argv.extend(["-o".into(), o.clone()]),
                    1 => argv.push(cat("-o", &o)),
                    2 => argv.extend(["--output".into(), o.clone()]),
                    3 => argv.push(cat("--output=", &o)),
                    4 => argv.extend(["--descriptor_set_out".into(), o.clone()]),
                    _ => argv.push(cat("--descriptor_set_out=", &o)),
                }
                m.usage |= m.out.is_some();
                m.out = Some(o);
            }
            3 => {
                argv.push(if spell && flag() { "--include_source_info" } else { "--include-source-info" }.into());
                m.usage |= m.info;
                m.info = true;
            }
            4 => {
                argv.push(if spell && flag() { "--include_imports" } else { "--include-imports" }.into());
                m.usage |= m.imports;
                m.imports = true;
            }
            5 => {
                argv.push(["--frob", "-z"][choice(2)].into());
                m.usage = true;
            }
            _ => {
                argv.push("--help".into());
                m.help = !m.usage;
                break;
            }
        }
    }
    m.usage |= m.files.is_empty();
    for a in &argv {
        src(a.as_bytes());
    }
    if m.includes.is_empty() {
        m.includes.push(".".into());
    }
    let disk = Rc::new(RefCell::new(Disk { known: vec![], full: false, written: vec![] }));
    let d = disk.clone();
    vfs::install(Box::new(move |p, write| {
        let mut d = d.borrow_mut();
        if write {
            d.written.push(p.to_vec());
            if d.full {
                return Found::Errno(28);
            }
            let mut c = Content::new(b"");
            c.short = 1;
            return Found::File(c);
        }
        for (q, yes) in &d.known {
            if q.len() == p.len() && fork(&q[..] == p) {
                return if *yes { Found::File(Content::new(text(p))) } else { Found::Errno(2) };
            }
        }
        let yes = flag();
        d.known.push((p.to_vec(), yes));
        if yes { Found::File(Content::new(text(p))) } else { Found::Errno(2) }
    }));
    unsafe {
        DISK = Some(disk.clone());
        EXPECT_EXIT = if m.help { Some(false) } else if m.usage { Some(true) } else { None };
    }
    // what the library makes of it
    let mut want = None;
    if !m.usage && !m.help {
        want = library(&m);
        disk.borrow_mut().full = m.out.is_some() && flag();
    }
    args(&argv.iter().map(|a| a.as_bytes().to_vec()).collect::<Vec<_>>());
    let r = program::main();
    check(!m.usage && !m.help, "a wrong command line is accepted");
    let opened = disk.borrow().written.clone();
    let full = disk.borrow().full;
    let written = vfs::remove();
    match (r.is_ok(), &want) {
        (true, None) => fail("an error is reported as success"),
        (false, Some(_)) => {
            check(full, "a correct input is reported as an error");
            reach(3);
        }
        (false, None) => {
            check(opened.is_empty(), "output is written although there was an error");
            reach(2);
        }
        (true, Some(e)) => {
            check(!full, "an error while writing is reported as success");
            match &m.out {
                None => check(opened.is_empty(), "output nobody asked for is written"),
                Some(o) => {
                    check(opened.len() == 1 && opened[0] == o.as_bytes(), "another file is written");
                    check(written.len() == 1 && written[0].1 == *e, "the output is not the descriptor set asked for");
                }
            }
            reach(1);
        }
    }
}

fn library(m: &Meaning) -> Option<Vec<u8>> {
    let mut c = Compiler::new(&m.includes).ok()?;
    c.include_imports(m.imports);
    c.include_source_info(m.info);
    for f in &m.files {
        c.open_file(f).ok()?;
    }
    Some(c.encode_file_descriptor_set())
}

/// Files named x import y.
fn text(p: &[u8]) -> &'static [u8] {
    if fork(p[p.len() - 1] == b'x') {
        b"import 'y';"
    } else if fork(p[0] == b'e') {
        b"enum E { Z = 1; } // e"
    } else {
        b"message M {} // y"
    }
}
