mod exec;
mod ll;
mod mem;
mod term;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn signal(s: i32, h: usize) -> usize;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn getrusage(who: i32, u: *mut i64) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
}

#[repr(C)]
struct Shared {
    live: AtomicI64,
    total_paths: AtomicU64,
    abort: AtomicI64,
    violations: AtomicU64,
    pids: [AtomicI64; 4096],
    npids: AtomicU64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jb(b: &[u8]) -> String {
    js(&String::from_utf8_lossy(b))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn rss_mb() -> u64 {
    let mut u = [0i64; 18];
    unsafe { getrusage(0, u.as_mut_ptr()) };
    u[4] as u64 / 1024
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/tmp/symx");
    let mut jobs = 8i64;
    let mut timeout = 600.0f64;
    let mut params: Vec<u64> = vec![];
    let mut seed = 1u64;
    let mut profile = false;
    let mut max_steps = 100_000_000u64;
    let mut samples = 20usize;
    let mut repo_prefix: Vec<String> = vec!["/repo/".into()];
    let mut max_viol = 60u64;
    let mut batch = String::new();
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap();
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--params" => params = v().split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--seed" => seed = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--src-prefix" => repo_prefix = v().split(',').map(|s| s.to_string()).collect(),
            "--profile" => profile = true,
            "--batch" => batch = v(),
            _ => panic!("argument {a}"),
        }
    }
    let mut t0 = Instant::now();
    let text = std::fs::read(&ll).expect("read ll");
    let mut module = ll::Module::parse(&text);
    let hash_sites = module.constant_hashes();
    let m: &'static ll::Module = Box::leak(Box::new(module));
    if profile {
        eprintln!("hash sites {hash_sites}");
    }
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let slots: &'static AtomicI64 = unsafe { &*(mmap(std::ptr::null_mut(), 8, 3, 0x21, -1, 0) as *const AtomicI64) };
    if !batch.is_empty() {
        // one line per job: out timeout max-steps samples params
        let jobs_text = std::fs::read_to_string(&batch).expect("read batch");
        let mut child = false;
        for l in jobs_text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            // as many processes as there are slots, over all jobs
            let mut st = 0;
            while slots.load(Ordering::SeqCst) >= jobs {
                if unsafe { waitpid(-1, &mut st, 1) } < 0 {
                    slots.store(0, Ordering::SeqCst);
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            slots.fetch_add(1, Ordering::SeqCst);
            let pid = unsafe { fork() };
            if pid == 0 {
                out = w[0].into();
                timeout = w[1].parse().unwrap();
                max_steps = w[2].parse().unwrap();
                samples = w[3].parse().unwrap();
                params = w[4].split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect();
                t0 = Instant::now();
                child = true;
                break;
            }
        }
        if !child {
            let mut st = 0;
            while unsafe { waitpid(-1, &mut st, 0) } > 0 {}
            return;
        }
    } else {
        slots.store(1, Ordering::SeqCst);
    }
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *const Shared) };
    sh.live.store(1, Ordering::SeqCst);
    unsafe { signal(17, 1) };
    let root_pid = unsafe { getpid() };
    let mut ex = Ex::new(m, seed);
    ex.params = params;
    ex.profile = profile;
    ex.max_steps = max_steps;
    ex.sample_max = samples;
    let init = ex.initial(&entry);
    ex.work.push(init);
    let mut is_root = true;
    let mut last_split = Instant::now();
    let mut timed_out = false;
    let mut last_paths = 0;
    let mut last_viol = 0;
    loop {
        let Some(st) = ex.work.pop() else { break };
        ex.run(st);
        let p = ex.stats.paths;
        sh.total_paths.fetch_add(p - last_paths, Ordering::Relaxed);
        last_paths = p;
        let v = ex.stats.violations;
        sh.violations.fetch_add(v - last_viol, Ordering::Relaxed);
        last_viol = v;
        if t0.elapsed().as_secs_f64() > timeout || sh.abort.load(Ordering::Relaxed) != 0 || sh.violations.load(Ordering::Relaxed) > max_viol {
            timed_out = true;
            break;
        }
        if !profile && ex.work.len() >= 2 && slots.load(Ordering::Relaxed) < jobs && last_split.elapsed().as_millis() > 60 {
            if slots.fetch_add(1, Ordering::SeqCst) >= jobs {
                slots.fetch_sub(1, Ordering::SeqCst);
            } else {
                sh.live.fetch_add(1, Ordering::SeqCst);
                // hand the older half of the pending states to a new process
                let k = (ex.work.len() / 2).max(1);
                let pid = unsafe { fork() };
                if pid == 0 {
                    is_root = false;
                    let i = sh.npids.fetch_add(1, Ordering::SeqCst) as usize;
                    if i < 4096 {
                        sh.pids[i].store(unsafe { getpid() } as i64, Ordering::SeqCst);
                    }
                    ex.work.truncate(k);
                    ex.stats = Stats::default();
                    ex.viols.clear();
                    ex.errs.clear();
                    ex.samples.clear();
                    ex.reach.clear();
                    ex.z.queries = 0;
                    ex.z.sat = 0;
                    ex.z.unsat = 0;
                    ex.z.unknown = 0;
                    ex.z.time = 0.0;
                    last_paths = 0;
                    last_viol = 0;
                    let _ = ex.rand();
                } else if pid > 0 {
                    ex.work.drain(..k);
                } else {
                    sh.live.fetch_sub(1, Ordering::SeqCst);
                    slots.fetch_sub(1, Ordering::SeqCst);
                }
                last_split = Instant::now();
            }
        }
    }
    let left = ex.work.len();
    // write the partial result
    let mut o = String::new();
    let s = &ex.stats;
    let _ = writeln!(
        o,
        "stat {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {:.3} {} {} {}",
        s.paths,
        s.assumed,
        s.forks,
        s.steps,
        s.checks,
        s.sym_checks,
        s.confirms,
        s.cache_hits,
        s.end_checks,
        s.violations,
        s.errors,
        s.concretised,
        ex.z.queries,
        ex.z.sat,
        ex.z.unsat,
        ex.z.unknown,
        ex.z.time,
        s.max_steps,
        if timed_out { left } else { 0 },
        rss_mb()
    );
    for v in &ex.viols {
        let _ = writeln!(
            o,
            "viol {{\"kind\":{},\"msg\":{},\"inputs\":\"{}\",\"src\":[{}],\"stack\":[{}]}}",
            js(v.kind),
            js(&v.msg),
            hex(&v.inputs),
            v.src.iter().map(|s| jb(s)).collect::<Vec<_>>().join(","),
            v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        );
    }
    for e in &ex.errs {
        let _ = writeln!(o, "err {}", js(e));
    }
    for s in &ex.samples {
        let _ = writeln!(o, "samp {{\"inputs\":\"{}\",\"notes\":\"{:016x}\",\"nvars\":{},\"src\":[{}]}}", hex(&s.inputs), s.notes, s.nvars, s.src.iter().map(|s| jb(s)).collect::<Vec<_>>().join(","));
    }
    for r in &ex.reach {
        let _ = writeln!(o, "reach {r}");
    }
    // coverage: executed source lines of the code under test
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut subs: BTreeSet<String> = BTreeSet::new();
    let mut nfun = 0;
    for (fi, h) in ex.hit.iter().enumerate() {
        if !h.iter().any(|x| *x != 0) {
            continue;
        }
        nfun += 1;
        let f = &m.funcs[fi];
        let mut on = false;
        for pc in 0..f.code.len() {
            if h.get(pc) == Some(&1) {
                on = true;
            }
            if on {
                let mut l = f.dbg[pc];
                while l != 0 {
                    let Some(&(line, scope, at)) = m.dbg.loc.get(&l) else { break };
                    let (name, file) = ex.scope_of(scope);
                    if repo_prefix.iter().any(|p| file.contains(p.as_str())) {
                        lines.entry(file).or_default().insert(line);
                        subs.insert(name);
                    }
                    l = at;
                }
                if matches!(f.code[pc], ll::Inst::Br(_) | ll::Inst::CondBr(_) | ll::Inst::Switch(_) | ll::Inst::Ret { .. } | ll::Inst::Unreachable) {
                    on = false;
                }
            }
        }
    }
    for (f, l) in &lines {
        let _ = writeln!(o, "lines {} {}", f.replace(' ', "_"), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
    for s in &subs {
        let _ = writeln!(o, "sub {s}");
    }
    let _ = writeln!(o, "nfun {nfun}");
    if profile {
        let mut v: Vec<(u64, usize)> = ex.prof.iter().cloned().enumerate().map(|(i, n)| (n, i)).collect();
        v.sort();
        for (n, i) in v.iter().rev().take(30) {
            eprintln!("{n:12} {}", m.funcs[*i].name);
        }
        let mut v: Vec<_> = ex.forkprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.iter().take(30) {
            let fun = &m.funcs[*f as usize];
            let l = fun.dbg[*pc as usize];
            let d = m.dbg.loc.get(&l).map(|&(line, sc, _)| {
                let (nm, fl) = ex.scope_of(sc);
                format!("{nm} {fl}:{line}")
            });
            eprintln!("fork {n:8} {} {}", fun.name, d.unwrap_or_default());
        }
        let mut v: Vec<_> = ex.concprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.iter().take(30) {
            let fun = &m.funcs[*f as usize];
            let l = fun.dbg[*pc as usize];
            let d = m.dbg.loc.get(&l).map(|&(line, sc, _)| {
                let (nm, fl) = ex.scope_of(sc);
                format!("{nm} {fl}:{line}")
            });
            eprintln!("conc {n:8} {} {}", fun.name, d.unwrap_or_default());
        }
        eprintln!("terms {} qcache z3 {:?}", ex.ar.n.len(), ex.z.time);
    }
    let pid = unsafe { getpid() };
    let tmp = format!("{out}.{pid}.part");
    std::fs::File::create(&tmp).unwrap().write_all(o.as_bytes()).unwrap();
    if !is_root {
        for i in 0..(sh.npids.load(Ordering::SeqCst) as usize).min(4096) {
            if sh.pids[i].load(Ordering::SeqCst) == pid as i64 {
                sh.pids[i].store(-(pid as i64), Ordering::SeqCst);
            }
        }
        sh.live.fetch_sub(1, Ordering::SeqCst);
        slots.fetch_sub(1, Ordering::SeqCst);
        unsafe { _exit(0) };
    }
    sh.live.fetch_sub(1, Ordering::SeqCst);
    slots.fetch_sub(1, Ordering::SeqCst);
    // wait for the others
    let mut crashed = false;
    while sh.live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let n = (sh.npids.load(Ordering::SeqCst) as usize).min(4096);
        let mut dead = false;
        for i in 0..n {
            let p = sh.pids[i].load(Ordering::SeqCst);
            if p > 0 && unsafe { kill(p as i32, 0) } != 0 {
                // give it a moment to have published its completion
                std::thread::sleep(std::time::Duration::from_millis(50));
                if sh.pids[i].load(Ordering::SeqCst) > 0 {
                    dead = true;
                }
            }
        }
        if dead {
            crashed = true;
            sh.abort.store(1, Ordering::SeqCst);
            std::thread::sleep(std::time::Duration::from_millis(1500));
            break;
        }
        if t0.elapsed().as_secs_f64() > timeout + 60.0 {
            crashed = true;
            break;
        }
    }
    let _ = root_pid;
    // merge
    let dir = std::path::Path::new(&out).parent().unwrap().to_path_buf();
    let base = std::path::Path::new(&out).file_name().unwrap().to_string_lossy().into_owned();
    let mut st = [0f64; 20];
    let mut procs = 0;
    let (mut viol, mut errs, mut samp): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    let mut reach: BTreeSet<u32> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut subs: BTreeSet<String> = BTreeSet::new();
    let mut nfun = 0u64;
    for e in std::fs::read_dir(&dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().into_owned();
        if !(n.starts_with(&format!("{base}.")) && n.ends_with(".part")) {
            continue;
        }
        procs += 1;
        let t = std::fs::read_to_string(e.path()).unwrap();
        let _ = std::fs::remove_file(e.path());
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "stat" => {
                    for (i, x) in v.split(' ').enumerate() {
                        let x: f64 = x.parse().unwrap();
                        if i == 17 || i == 19 {
                            st[i] = st[i].max(x)
                        } else {
                            st[i] += x
                        }
                    }
                }
                "viol" => viol.push(v.into()),
                "err" => errs.push(v.into()),
                "samp" => samp.push(v.into()),
                "reach" => {
                    reach.insert(v.parse().unwrap());
                }
                "lines" => {
                    let (f, ls) = v.split_once(' ').unwrap();
                    lines.entry(f.into()).or_default().extend(ls.split(',').map(|x| x.parse::<u32>().unwrap()));
                }
                "sub" => {
                    subs.insert(v.into());
                }
                "nfun" => nfun = nfun.max(v.parse().unwrap()),
                _ => {}
            }
        }
    }
    let names = [
        "paths", "assumed_away", "forks", "steps", "checks", "symbolic_checks", "confirmations", "solver_cache_hits", "end_checks", "violations", "errors", "concretisations", "solver_queries", "solver_sat",
        "solver_unsat", "solver_unknown", "solver_s", "max_path_steps", "states_left", "rss_mb",
    ];
    let mut j = String::from("{");
    for (i, n) in names.iter().enumerate() {
        if *n == "solver_s" {
            let _ = write!(j, "\"{n}\":{:.3},", st[i]);
        } else {
            let _ = write!(j, "\"{n}\":{},", st[i] as u64);
        }
    }
    let _ = write!(
        j,
        "\"entry\":{},\"processes\":{procs},\"functions_executed\":{nfun},\"wall_s\":{:.3},\"load_s\":{parse_s:.3},\"crashed\":{crashed},\"solver\":{},\"viol\":[{}],\"errs\":[{}],\"samples\":[{}],\"reach\":[{}],\"subs\":[{}],\"lines\":{{{}}}}}",
        js(&entry),
        t0.elapsed().as_secs_f64(),
        js(&z3::version()),
        viol.join(","),
        errs.join(","),
        samp.join(","),
        reach.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        subs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        lines.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&out, j).unwrap();
}
