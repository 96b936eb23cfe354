//! Chains of resolvers.
use protox::file::{ChainFileResolver, File, FileResolver};
use protox::Error;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use sym::*;

#[derive(Default)]
struct Log {
    /// what each resolver was asked to open or resolve, in order
    opened: Vec<(usize, Vec<u8>)>,
    resolved: Vec<(usize, Vec<u8>)>,
    /// how each answered
    answers: Vec<Answer>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    File,
    NotFound,
    Custom,
    Io,
    Parse,
}

struct Mock(usize, Rc<RefCell<Log>>);

fn custom(i: usize) -> String {
    let mut s = String::from("broken ");
    s.push((b'0' + i as u8) as char);
    s
}

impl FileResolver for Mock {
    fn resolve_path(&self, p: &Path) -> Option<String> {
        let mut l = self.1.borrow_mut();
        l.resolved.push((self.0, p.as_os_str().as_encoded_bytes().to_vec()));
        let yes = flag();
        l.answers.push(if yes { Answer::File } else { Answer::NotFound });
        yes.then(|| custom(self.0))
    }
    fn open_file(&self, name: &str) -> Result<File, Error> {
        let mut l = self.1.borrow_mut();
        l.opened.push((self.0, name.as_bytes().to_vec()));
        let a = [Answer::File, Answer::NotFound, Answer::Custom, Answer::Io, Answer::Parse][choice(5)];
        l.answers.push(a);
        match a {
            Answer::File => File::from_source(name, "/* content */").map(|f| {
                let mut d = f.file_descriptor_proto().clone();
                d.package = Some(custom(self.0));
                File::from(d)
            }),
            // another name than asked for makes no difference
            Answer::NotFound => Err(Error::file_not_found(if flag() { name } else { "else" })),
            Answer::Custom => Err(Error::new(custom(self.0))),
            // an I/O error that says "not found" is still not the resolver's "not found"
            Answer::Io => Err(Error::new(std::io::Error::new(
                [std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied][choice(2)],
                custom(self.0),
            ))),
            Answer::Parse => File::from_source("x", "message 1"),
        }
    }
}

/// 1: resolvers, 2: requests, 3: bytes of the name, 4: how the chain is built (0 flat, 1 a chain in a chain, 2 boxed)
pub fn chain() {
    let (n, requests, len, shape) = (param(1) as usize, param(2) as usize, param(3) as usize, param(4));
    let log = Rc::new(RefCell::new(Log::default()));
    let mut c = ChainFileResolver::new();
    match shape {
        1 if n > 1 => {
            // resolvers 0.., with 1..n-1 in a chain of their own
            c.add(Mock(0, log.clone()));
            let mut inner = ChainFileResolver::new();
            for i in 1..n {
                inner.add(Mock(i, log.clone()));
            }
            c.add(inner);
            c.add(ChainFileResolver::new());
        }
        2 => {
            for i in 0..n {
                let b: Box<dyn FileResolver> = Box::new(Mock(i, log.clone()));
                c.add(b);
            }
        }
        _ => {
            for i in 0..n {
                c.add(Mock(i, log.clone()));
            }
        }
    }
    for _ in 0..requests {
        *log.borrow_mut() = Log::default();
        let name: String = (0..len).map(|_| range(1, 0x7e) as char).collect();
        if flag() {
            let r = c.open_file(&name);
            let l = log.borrow();
            let mut stop = None;
            for (k, a) in l.answers.iter().enumerate() {
                check(l.opened[k].0 == k, "resolvers are asked in another order than added, or twice");
                check(l.opened[k].1 == name.as_bytes(), "a resolver is asked for another name");
                if *a != Answer::NotFound {
                    stop = Some(k);
                    break;
                }
            }
            check(l.resolved.is_empty(), "opening a name resolves a path");
            match stop {
                Some(k) => check(l.opened.len() == k + 1, "a resolver is asked although an earlier one has answered"),
                None => check(l.opened.len() == n, "a resolver is not asked although no earlier one has the file"),
            }
            match (r, stop.map(|k| (k, l.answers[k]))) {
                (Ok(f), Some((k, Answer::File))) => {
                    check(f.name() == name, "another file is served");
                    check(f.file_descriptor_proto().package() == custom(k), "the file of another resolver is served");
                    reach(1);
                }
                (Err(e), Some((k, Answer::Custom))) => {
                    check(!e.is_file_not_found() && !e.is_io() && !e.is_parse(), "an error is reported as another kind");
                    check(e.to_string() == custom(k), "an error is replaced by another");
                    reach(2);
                }
                (Err(e), Some((k, Answer::Io))) => {
                    check(!e.is_file_not_found() && e.is_io(), "an I/O error is reported as another kind");
                    check(e.to_string() == custom(k), "an I/O error is replaced by another");
                    reach(2);
                }
                (Err(e), Some((_, Answer::Parse))) => {
                    check(e.is_parse() && e.file() == Some("x"), "a parse error is replaced by another");
                    reach(2);
                }
                (Err(e), None) => {
                    check(e.is_file_not_found(), "a file no resolver has is not reported as not found");
                    check(e.file() == Some(&name[..]), "not found is reported for another file");
                    reach(3);
                }
                (Ok(_), _) => fail("a file no resolver has provided first is served"),
                (Err(_), _) => fail("a file is not served although a resolver has it"),
            }
        } else {
            let p = PathBuf::from(name.clone());
            let r = c.resolve_path(&p);
            let l = log.borrow();
            check(l.opened.is_empty(), "resolving a path opens a file");
            let mut stop = None;
            for (k, a) in l.answers.iter().enumerate() {
                check(l.resolved[k].0 == k, "resolvers are asked in another order than added, or twice");
                check(l.resolved[k].1 == name.as_bytes(), "a resolver is asked for another path");
                if *a == Answer::File {
                    stop = Some(k);
                    break;
                }
            }
            match stop {
                Some(k) => {
                    check(l.resolved.len() == k + 1, "a resolver is asked although an earlier one has answered");
                    check(r == Some(custom(k)), "the path is resolved by another resolver");
                    reach(4);
                }
                None => {
                    check(l.resolved.len() == n, "a resolver is not asked although no earlier one has the path");
                    check(r.is_none(), "a path no resolver knows is resolved");
                    reach(5);
                }
            }
        }
    }
}
