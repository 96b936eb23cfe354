//! Interface between a harness and whatever executes it.
//!
//! Under the symbolic executor the `sym_*` symbols are undefined externals which the executor
//! implements. With the `native` feature they are implemented here over a recorded list of input
//! bytes, so that exactly the same harness replays a counterexample against the real code.

extern "C-unwind" {
    fn sym_byte() -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, msg: *const u8, len: usize);
    fn sym_reach(id: u32);
    fn sym_done() -> !;
    fn sym_note(p: *const u8, len: usize);
    fn sym_src(p: *const u8, len: usize);
    fn sym_param(i: u32) -> u64;
    fn sym_fork(c: bool) -> bool;
    fn sym_conc(v: u64) -> u64;
    fn sym_file(p: *const u8, pl: usize, d: *const u8, dl: usize);
    fn sym_init(argc: i32, argv: *const *const u8, envp: *const *const u8);
}

/// Set the program's arguments (not symbolic in number).
pub fn args(a: &[Vec<u8>]) {
    let mut p: Vec<*const u8> = vec![];
    for x in a {
        let mut x = x.clone();
        x.push(0);
        p.push(x.leak().as_ptr());
    }
    p.push(std::ptr::null());
    let p = p.leak();
    unsafe { sym_init(a.len() as i32, p.as_ptr(), [std::ptr::null()].as_ptr()) }
}

/// An arbitrary byte.
pub fn byte() -> u8 {
    unsafe { sym_byte() }
}
/// An arbitrary value in `0..n` (every value is explored as its own path).
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u32) as usize }
}
/// An arbitrary boolean, explored as two paths.
pub fn flag() -> bool {
    choice(2) == 1
}
/// Restrict to inputs satisfying the condition.
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property: must hold for every value on every path.
pub fn check(c: bool, msg: &str) {
    unsafe { sym_check(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) -> ! {
    check(false, msg);
    unreachable!()
}
/// The run is over.
pub fn done() -> ! {
    unsafe { sym_done() }
}
/// Vacuity witness: the run must reach every declared id on some path.
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
/// Observable output, compared between the executor and the native code.
pub fn note(b: &[u8]) {
    unsafe { sym_note(b.as_ptr(), b.len()) }
}
/// The generated source text (shown in samples and counterexamples).
pub fn src(b: &[u8]) {
    unsafe { sym_src(b.as_ptr(), b.len()) }
}
pub fn param(i: usize) -> u64 {
    unsafe { sym_param(i as u32) }
}
/// Make a condition concrete (explores both outcomes).
pub fn fork(c: bool) -> bool {
    unsafe { sym_fork(c) }
}
/// Make a value concrete (explores every value).
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
/// Provide a file (path inside the scratch directory when native).
pub fn file(path: &str, data: &[u8]) {
    unsafe { sym_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}

/// An arbitrary byte out of an inclusive range.
pub fn range(lo: u8, hi: u8) -> u8 {
    let b = byte();
    assume((b >= lo) & (b <= hi));
    b
}

/// An arbitrary byte out of a 256-entry membership table.
pub fn of(table: &[bool; 256]) -> u8 {
    let b = byte();
    assume(table[b as usize]);
    b
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Run {
        pub inputs: Vec<u8>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub notes: u64,
        pub src: Vec<Vec<u8>>,
        pub outcome: Option<String>,
    }

    thread_local! {
        pub static RUN: RefCell<Run> = RefCell::new(Run::default());
    }

    pub struct Halt;

    fn halt(o: &str) -> ! {
        RUN.with(|r| r.borrow_mut().outcome = Some(o.to_string()));
        std::panic::resume_unwind(Box::new(Halt));
    }

    fn next() -> u8 {
        let b = RUN.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            r.inputs.get(p).copied()
        });
        match b {
            Some(b) => b,
            None => halt("short"),
        }
    }

    fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
        if n == 0 {
            &[]
        } else {
            unsafe { std::slice::from_raw_parts(p, n) }
        }
    }

    #[no_mangle]
    extern "C-unwind" fn sym_byte() -> u8 {
        next()
    }
    #[no_mangle]
    extern "C-unwind" fn sym_choice(n: u32) -> u32 {
        let b = next() as u32;
        if b >= n {
            halt("choice out of range")
        }
        b
    }
    #[no_mangle]
    extern "C-unwind" fn sym_assume(c: bool) {
        if !c {
            halt("assumed away")
        }
    }
    #[no_mangle]
    extern "C-unwind" fn sym_check(c: bool, p: *const u8, n: usize) {
        if !c {
            halt(&format!("check failed: {}", String::from_utf8_lossy(sl(p, n))))
        }
    }
    #[no_mangle]
    extern "C-unwind" fn sym_reach(_: u32) {}
    #[no_mangle]
    extern "C-unwind" fn sym_done() -> ! {
        halt("ok")
    }
    #[no_mangle]
    extern "C-unwind" fn sym_note(p: *const u8, n: usize) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            let mut h = r.notes;
            for b in sl(p, n) {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
            }
            h = (h ^ 0xff).wrapping_mul(0x100000001b3);
            r.notes = h;
        })
    }
    #[no_mangle]
    extern "C-unwind" fn sym_src(p: *const u8, n: usize) {
        RUN.with(|r| r.borrow_mut().src.push(sl(p, n).to_vec()))
    }
    #[no_mangle]
    extern "C-unwind" fn sym_param(i: u32) -> u64 {
        RUN.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    #[no_mangle]
    extern "C-unwind" fn sym_fork(c: bool) -> bool {
        c
    }
    #[no_mangle]
    extern "C-unwind" fn sym_conc(v: u64) -> u64 {
        v
    }
    #[no_mangle]
    extern "C-unwind" fn sym_file(p: *const u8, pl: usize, d: *const u8, dl: usize) {
        // the replay runs inside a scratch directory; harness paths are relative to it
        let path = std::str::from_utf8(sl(p, pl)).unwrap();
        assert!(!path.starts_with('/') && !path.contains(".."));
        let path = std::path::Path::new(path);
        if let Some(dir) = path.parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        std::fs::write(path, sl(d, dl)).unwrap();
    }

    extern "C" {
        static __init_array_start: u8;
        static __init_array_end: u8;
    }
    #[no_mangle]
    extern "C-unwind" fn sym_init(argc: i32, argv: *const *const u8, envp: *const *const u8) {
        unsafe {
            let mut p = std::ptr::addr_of!(__init_array_start) as *const extern "C" fn(i32, *const *const u8, *const *const u8);
            while (p as usize) < std::ptr::addr_of!(__init_array_end) as usize {
                (*p)(argc, argv, envp);
                p = p.add(1);
            }
        }
    }

    fn hexd(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }

    /// `replay`: reads lines `params(comma) hex-inputs` from stdin; prints one line per run.
    pub fn main(entry: fn()) {
        use std::io::{BufRead, Write};
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            RUN.with(|r| {
                if let Ok(mut r) = r.try_borrow_mut() {
                    r.outcome = Some(format!("panic: {m} at {loc}"))
                }
            });
        }));
        let out = std::io::stdout();
        let mut out = out.lock();
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            start(&line);
            let ok = std::panic::catch_unwind(entry).is_ok();
            writeln!(out, "{}", finish(ok)).unwrap();
            out.flush().unwrap();
        }
    }

    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
    }

    /// The same with a process for each run, for code that ends the process.
    pub fn main_forking(entry: fn()) {
        use std::io::BufRead;
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let pid = unsafe { fork() };
            if pid == 0 {
                start(&line);
                let ok = std::panic::catch_unwind(entry).is_ok();
                end(ok);
            }
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                println!("0000000000000000 0 crash {st}");
            }
        }
    }

    /// Report the run's outcome and end the process.
    pub fn end(ok: bool) -> ! {
        println!("{}", finish(ok));
        unsafe { _exit(0) }
    }

    pub fn start(line: &str) {
        let (p, h) = line.split_once(' ').unwrap();
        RUN.with(|r| {
            *r.borrow_mut() = Run {
                inputs: hexd(h),
                params: p.split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect(),
                notes: 0xcbf29ce484222325,
                ..Default::default()
            }
        });
    }

    pub fn finish(ok: bool) -> String {
        RUN.with(|r| {
            let r = r.borrow();
            let o = match (&r.outcome, ok) {
                (Some(o), _) => o.clone(),
                (None, true) => "ok".into(),
                (None, false) => "panic".into(),
            };
            format!("{:016x} {} {}", r.notes, r.pos, o.replace('\n', "\\n"))
        })
    }
}
