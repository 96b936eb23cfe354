//! Reading files.
use crate::paths::utf8;
use crate::vfs::{self, Content, Found, EINTR, ENOENT};
use protox::file::{File, FileResolver, IncludeFileResolver};
use protox::Compiler;
use std::cell::RefCell;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::rc::Rc;
use sym::*;

const TEXT: &[u8] = b"message A{}";

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    No,
    Open,
    Stat,
    Read,
    Size,
}

/// C28. 1: bytes of arbitrary content, 2: fixed text around it (0 none, 1 in a comment, 2 after a
/// declaration), 3: which faults (0 none, 1 system calls fail, 2 reads are short or interrupted, 3 the size is
/// anything), 4: through (0 File::open, 1 an include resolver, 2 a compiler)
pub fn reading() {
    let (n, around, faults, via) = (param(1) as usize, param(2), param(3), param(4));
    let mut data = match around {
        1 => b"message A{}//".to_vec(),
        2 => TEXT.to_vec(),
        _ => vec![],
    };
    for _ in 0..n {
        data.push(byte());
    }
    let mut c = Content::new(&data);
    let mut fault = Fault::No;
    let mut errno = 0;
    match faults {
        1 => {
            fault = [Fault::No, Fault::Open, Fault::Stat, Fault::Read][choice(4)];
            if fault != Fault::No {
                errno = range(1, 133);
                // an interrupted call is repeated
                assume(errno != EINTR);
            }
            match fault {
                Fault::Stat => c.stat_errno = errno,
                Fault::Read => {
                    c.read_errno = Some((choice(2), errno));
                    c.short = 1;
                }
                _ => {}
            }
        }
        2 => {
            c.short = 2;
            c.eintr = 1;
        }
        3 => {
            // the size is a hint, except that too much is refused
            let k = choice(5);
            if k == 0 {
                c.size = byte() as u64;
            } else {
                let d = byte() as u64;
                assume(d < 4);
                // what is claimed is around the limit, or beyond it
                c.size = [0, 0x7fff_fffe, 0xffff_ffff, 1 << 40, 1 << 62][k] + d;
                assume(c.size > 0x7fff_ffff);
                fault = Fault::Size;
            }
        }
        _ => {}
    }
    src(&data);
    let asked = Rc::new(RefCell::new(vec![]));
    let a = asked.clone();
    let opening = fault == Fault::Open;
    vfs::install(Box::new(move |p, w| {
        check(!w, "a source file is opened for writing");
        a.borrow_mut().push(p.to_vec());
        if opening {
            Found::Errno(errno)
        } else {
            Found::File(c.clone())
        }
    }));
    let r = match via {
        0 => File::open("n", "dir/f".as_ref()),
        1 => IncludeFileResolver::new("dir".into()).open_file("f"),
        _ => {
            let Ok(mut c) = Compiler::new(["dir"]) else { fail("an include path is rejected") };
            match c.open_file("dir/f") {
                Ok(_) => {
                    let d = c.file_descriptor_set().file;
                    check(d.len() == 1, "a single file gives another number of files");
                    check(c.files().all(|f| f.path() == Some("dir/f".as_ref()) && f.name() == "f"), "the file's path is lost");
                    reach(5);
                    let (valid, parsed) = oracle(&data, "f");
                    let Some(mut w) = parsed.filter(|_| valid) else { fail("a file that cannot be read was compiled") };
                    w.source_code_info = None;
                    check(d[0] == w, "the descriptor is not that of the whole file");
                    vfs::remove();
                    return;
                }
                Err(e) => Err(e),
            }
        }
    };
    let name = if via == 0 { "n" } else { "f" };
    check(asked.borrow().len() == 1 && asked.borrow()[0] == b"dir/f", "another file is opened");
    check(vfs::open_files() == 0, "a file stays open");
    if fault == Fault::Read && !vfs::read_failed() {
        // everything had been read before
        fault = Fault::No;
    }
    vfs::remove();
    match r {
        Ok(f) => {
            check(fault == Fault::No, "a fault was ignored");
            let (valid, parsed) = oracle(&data, name);
            check(valid, "text that is not UTF-8 is accepted");
            check(f.source().map(str::as_bytes) == Some(&data[..]), "the source is not the file's content");
            check(f.path() == Some("dir/f".as_ref()), "the path is lost");
            check(f.name() == name, "the name is lost");
            match parsed {
                Some(d) => check(f.file_descriptor_proto() == &d, "the descriptor is not that of the whole file"),
                None => fail("a file that does not parse is accepted"),
            }
            reach(1);
        }
        Err(e) => match fault {
            Fault::Open | Fault::Stat | Fault::Read => {
                if fork(errno == ENOENT) {
                    check(e.is_file_not_found() && !e.is_io() && !e.is_parse(), "a missing file is not reported as not found");
                    check(via == 2 || e.file() == Some(name), "a missing file is reported under another name");
                    reach(2);
                } else {
                    check(e.is_io() && !e.is_file_not_found() && !e.is_parse(), "an I/O failure is not reported as one");
                    check(e.file() == Some(name), "an I/O failure is reported for another file");
                    reach(3);
                }
            }
            Fault::Size => {
                check(e.is_parse() && !e.is_io() && !e.is_file_not_found(), "a file that is too long is reported as something else");
                check(e.file() == Some(name), "a file that is too long is reported under another name");
                reach(4);
            }
            Fault::No => {
                let (valid, parsed) = oracle(&data, name);
                check(!valid || parsed.is_none(), "a valid file is rejected");
                check(e.is_parse() && !e.is_io() && !e.is_file_not_found(), "invalid content is reported as something else");
                check(e.file() == Some(name), "invalid content is reported for another file");
                reach(6);
            }
        },
    }
}

/// Is it UTF-8, and what does the parser (another property's) make of it?
fn oracle(data: &[u8], name: &str) -> (bool, Option<prost_types::FileDescriptorProto>) {
    if !utf8(data) {
        return (false, None);
    }
    (true, protox_parse::parse(name, unsafe { std::str::from_utf8_unchecked(data) }).ok())
}

/// Paths the system cannot even be asked about. 1: bytes of the path
pub fn weirdpath() {
    let n = param(1) as usize;
    let p: Vec<u8> = (0..n).map(|_| byte()).collect();
    src(&p);
    let called = Rc::new(RefCell::new(None));
    let c = called.clone();
    vfs::install(Box::new(move |p, _| {
        *c.borrow_mut() = Some(p.to_vec());
        Found::File(Content::new(TEXT))
    }));
    let path = PathBuf::from(OsString::from_vec(p.clone()));
    let r = File::open("n", &path);
    vfs::remove();
    let mut nul = false;
    for &b in &p {
        nul |= b == 0;
    }
    match r {
        Ok(f) => {
            check(!nul, "a path with a NUL byte was opened");
            check(called.borrow().as_ref() == Some(&p), "another path is opened");
            check(f.path() == Some(&path), "the path is lost");
            reach(1);
        }
        Err(e) => {
            check(nul, "a file that exists is not opened");
            check(e.is_io() && e.file() == Some("n"), "a path the system refuses is not an I/O error");
            reach(2);
        }
    }
}
