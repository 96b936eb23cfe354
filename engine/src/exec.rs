//! The symbolic executor.
use crate::ll::*;
use crate::mem::*;
use crate::term::*;
use crate::z3::{Res, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(Tm),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}
use V::*;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp: u64,
}

/// One input consumed by the harness on a path.
#[derive(Clone, Copy, Debug)]
pub enum In {
    Var(u32),
    Fix(u8),
}

#[derive(Clone)]
pub struct FileEnt {
    pub path: Vec<u8>,
    pub data: u64,
    pub len: u64,
}

#[derive(Clone)]
pub struct St {
    pub cur: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub sp: u64,
    pub dom: Vec<Dom>,
    pub model: Vec<u8>,
    pub pc: Vec<Tm>,
    pub multi: Mask,
    pub subst: Rc<HashMap<Tm, u64>>,
    pub inputs: Vec<In>,
    pub notes: Vec<Rc<Vec<Result<u8, Tm>>>>,
    pub src: Vec<Rc<Vec<Result<u8, Tm>>>>,
    pub steps: u64,
    pub checks: u32,
    pub files: Rc<Vec<FileEnt>>,
    pub fds: Rc<Vec<(u32, u64)>>,
    pub depth_forks: u32,
}

pub enum End {
    Done,
    Assumed,
    Violation,
    Error(String),
}

enum Stop {
    End(End),
    /// the current state was requeued / replaced; nothing to continue
    Kill,
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bi {
    None,
    SymByte,
    SymChoice,
    SymAssume,
    SymCheck,
    SymReach,
    SymDone,
    SymNote,
    SymSrc,
    SymParam,
    SymFork,
    SymConc,
    SymFile,
    SymInit,
    SymSym,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    Memchr,
    Ret0,
    RetNeg1,
    Getrandom,
    Errno,
    Write,
    Open,
    Close,
    Read,
    Fstat,
    Stat,
    Statx,
    Lseek,
    Getcwd,
    Panic,
    Abort,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub confirms: u64,
    pub cache_hits: u64,
    pub end_checks: u64,
    pub violations: u64,
    pub errors: u64,
    pub concretised: u64,
    pub max_steps: u64,
}

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<u8>,
    pub src: Vec<Vec<u8>>,
    pub stack: Vec<String>,
    pub kind: &'static str,
}

pub struct Sample {
    pub inputs: Vec<u8>,
    pub notes: u64,
    pub src: Vec<Vec<u8>>,
    pub nvars: u32,
}

pub struct Ex {
    pub m: &'static Module,
    pub ar: Arena,
    pub z: Z3,
    pool: Vec<V>,
    bi: Vec<Bi>,
    pub work: Vec<St>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub errs: Vec<String>,
    pub samples: Vec<Sample>,
    pub sample_max: usize,
    pub reach: HashSet<u32>,
    qcache: HashMap<Box<[Tm]>, Option<Vec<(u32, u8)>>>,
    confirmed: HashSet<(Tm, Dom)>,
    pub hit: Vec<Vec<u8>>,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub prof: Vec<u64>,
    pub profile: bool,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub concprof: HashMap<(u32, u32), u64>,
    rng: u64,
    environ: u64,
    errno: u64,
    vkinds: HashMap<String, u32>,
    pub z3_endcheck_every: u64,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn to_v(m: &Module, c: &C, t: TyId) -> V {
    match &m.types[t as usize] {
        Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
            let x = match c {
                C::Int(x) => *x,
                _ => 0,
            };
            if m.width(t) > 64 {
                W(Rc::new(x))
            } else {
                I(x as u64)
            }
        }
        Ty::Struct(fs, _) => A(Rc::new(
            fs.iter()
                .enumerate()
                .map(|(i, f)| match c {
                    C::Agg(v) => to_v(m, &v[i], *f),
                    _ => to_v(m, &C::Zero, *f),
                })
                .collect(),
        )),
        Ty::Arr(n, e) | Ty::Vec(n, e) => A(Rc::new(
            (0..*n as usize)
                .map(|i| match c {
                    C::Agg(v) => to_v(m, &v[i], *e),
                    C::Bytes(b) => I(b[i] as u64),
                    _ => to_v(m, &C::Zero, *e),
                })
                .collect(),
        )),
        _ => I(0),
    }
}

fn bop(op: Bop, w: u32, a: u64, b: u64) -> u64 {
    let m = m64(w);
    (match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        Bop::URem => {
            if b == 0 {
                0
            } else {
                a % b
            }
        }
        Bop::SDiv => {
            if b == 0 {
                0
            } else {
                s64(a, w).wrapping_div(s64(b, w)) as u64
            }
        }
        Bop::SRem => {
            if b == 0 {
                0
            } else {
                s64(a, w).wrapping_rem(s64(b, w)) as u64
            }
        }
        Bop::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => (s64(a, w) >> b.min(w as u64 - 1)) as u64,
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::UMin => a.min(b),
        Bop::UMax => a.max(b),
        Bop::SMin => s64(a, w).min(s64(b, w)) as u64,
        Bop::SMax => s64(a, w).max(s64(b, w)) as u64,
        Bop::UAddSat => (a as u128 + b as u128).min(m as u128) as u64,
        Bop::USubSat => a.saturating_sub(b),
        Bop::SAddSat | Bop::SSubSat => {
            let (x, y) = (s64(a, w) as i128, s64(b, w) as i128);
            let r = if op == Bop::SAddSat { x + y } else { x - y };
            let hi = (m >> 1) as i128;
            r.clamp(-hi - 1, hi) as u64
        }
        Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op {
                    Bop::FAdd => x + y,
                    Bop::FSub => x - y,
                    Bop::FMul => x * y,
                    Bop::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u64
            } else {
                let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                (match op {
                    Bop::FAdd => x + y,
                    Bop::FSub => x - y,
                    Bop::FMul => x * y,
                    Bop::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits()
            }
        }
    }) & m
}

fn cmp(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => s64(a, w) > s64(b, w),
        Pred::Sge => s64(a, w) >= s64(b, w),
        Pred::Slt => s64(a, w) < s64(b, w),
        Pred::Sle => s64(a, w) <= s64(b, w),
    }
}

fn bi_of(name: &str, decl: bool) -> Bi {
    if !decl {
        if name.contains("4core9panicking") || (name.contains("3std9panicking") && !name.contains("panic_count")) || name.contains("18handle_alloc_error") || name.contains("17rust_begin_unwind") {
            return Bi::Panic;
        }
        if name == "memcmp" {
            return Bi::Memcmp;
        }
        return Bi::None;
    }
    match name {
        "sym_byte" => Bi::SymByte,
        "sym_choice" => Bi::SymChoice,
        "sym_assume" => Bi::SymAssume,
        "sym_check" => Bi::SymCheck,
        "sym_reach" => Bi::SymReach,
        "sym_done" => Bi::SymDone,
        "sym_note" => Bi::SymNote,
        "sym_src" => Bi::SymSrc,
        "sym_param" => Bi::SymParam,
        "sym_fork" => Bi::SymFork,
        "sym_conc" => Bi::SymConc,
        "sym_file" => Bi::SymFile,
        "sym_init" => Bi::SymInit,
        "sym_symbolic" => Bi::SymSym,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "bcmp" => Bi::Bcmp,
        "memcmp" => Bi::Memcmp,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "strlen" => Bi::Strlen,
        "memchr" => Bi::Memchr,
        "getenv" | "isatty" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" | "pthread_key_delete" | "munmap" | "fcntl64" | "fcntl" => Bi::Ret0,
        "syscall" | "getrandom" => Bi::Getrandom,
        "__errno_location" => Bi::Errno,
        "write" | "writev" => Bi::Write,
        "open64" | "open" => Bi::Open,
        "close" => Bi::Close,
        "read" => Bi::Read,
        "fstat64" | "fstat" => Bi::Fstat,
        "stat64" | "stat" => Bi::Stat,
        "statx" => Bi::Statx,
        "lseek64" | "lseek" => Bi::Lseek,
        "getcwd" => Bi::Getcwd,
        "abort" | "_exit" | "exit" => Bi::Abort,
        _ => Bi::None,
    }
}

impl Ex {
    pub fn new(m: &'static Module, seed: u64) -> Ex {
        let pool = m.pool.iter().map(|(c, t)| to_v(m, c, *t)).collect();
        let bi = m.funcs.iter().map(|f| bi_of(&f.name, f.decl)).collect();
        Ex {
            m,
            ar: Arena::new(),
            z: Z3::new(20_000),
            pool,
            bi,
            work: vec![],
            stats: Stats::default(),
            viols: vec![],
            errs: vec![],
            samples: vec![],
            sample_max: 20,
            reach: HashSet::new(),
            qcache: HashMap::new(),
            confirmed: HashSet::new(),
            hit: m.funcs.iter().map(|f| if f.decl { vec![] } else { vec![0; 1] }).collect(),
            params: vec![],
            max_steps: 200_000_000,
            prof: vec![0; m.funcs.len()],
            profile: false,
            forkprof: HashMap::new(), concprof: Default::default(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            environ: 0,
            errno: 0,
            vkinds: HashMap::new(),
            z3_endcheck_every: 16,
        }
    }

    pub fn rand(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }

    pub fn initial(&mut self, entry: &str) -> St {
        let m = self.m;
        let f = *m.fmap.get(entry).unwrap_or_else(|| panic!("no entry function {entry}"));
        let gend = m.gend + 4096;
        let mut mem = Mem::new(gend);
        for (i, b) in m.image.iter().enumerate() {
            if *b != 0 {
                mem.set(GBASE + i as u64, Ok(*b));
            }
        }
        self.errno = m.gend + 64;
        self.environ = m.gend + 128;
        let mut ro: Vec<(u64, u64)> = m.globals.iter().filter(|g| g.constant && g.size > 0).map(|g| (g.addr, g.addr + g.size)).collect();
        ro.sort();
        mem.ro = Rc::new(ro);
        let fun = &m.funcs[f as usize];
        self.touch(f, 0);
        St {
            cur: Frame { func: f, pc: 0, regs: vec![I(0); fun.nregs as usize], sp: STACK_BASE + 4096 },
            frames: vec![],
            mem,
            sp: STACK_BASE + 4096,
            dom: vec![],
            model: vec![],
            pc: vec![],
            multi: 0,
            subst: Rc::new(HashMap::new()),
            inputs: vec![],
            notes: vec![],
            src: vec![],
            steps: 0,
            checks: 0,
            files: Rc::new(vec![]),
            fds: Rc::new(vec![]),
            depth_forks: 0,
        }
    }

    #[inline]
    fn touch(&mut self, f: u32, pc: u32) {
        let h = &mut self.hit[f as usize];
        if h.len() <= pc as usize {
            h.resize(self.m.funcs[f as usize].code.len().max(pc as usize + 1), 0);
        }
        h[pc as usize] = 1;
    }

    // ---- solver side --------------------------------------------------

    fn effective(&self, st: &St, t: Tm) -> Mask {
        let mut v = self.ar.vars(t);
        let mut r = 0;
        while v != 0 {
            let i = v.trailing_zeros();
            v &= v - 1;
            if dom_count(&st.dom[i as usize]) > 1 {
                r |= 1u128 << i;
            }
        }
        r
    }

    /// Constant value of a term on this path, when known without the solver.
    fn known(&mut self, st: &St, t: Tm) -> Option<u128> {
        if let Some(k) = self.ar.is_const(t) {
            return Some(k);
        }
        if !st.subst.is_empty() {
            if let Some(&k) = st.subst.get(&t) {
                return Some(k as u128);
            }
        }
        let vars = self.ar.vars(t);
        if vars.count_ones() == 1 {
            let v = vars.trailing_zeros() as usize;
            if let Some(tb) = &self.ar.n[t as usize].tab {
                let mut it = dom_iter(st.dom[v]);
                let k = tb[it.next()? as usize];
                for x in it {
                    if tb[x as usize] != k {
                        return None;
                    }
                }
                return Some(k as u128);
            }
        }
        if self.effective(st, t) == 0 {
            return Some(self.ar.eval(t, &st.model));
        }
        None
    }

    fn slice(&self, st: &St, c: Tm) -> Vec<Tm> {
        let mut vars = self.ar.vars(c);
        let mut inc = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if !inc[i] && self.ar.vars(p) & vars != 0 {
                    inc[i] = true;
                    vars |= self.ar.vars(p);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<Tm> = st.pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, &p)| p).collect();
        r.sort();
        r.dedup();
        r
    }

    /// Solver query PC /\ c. Ok(Some(model)), Ok(None) = unsat.
    fn query(&mut self, st: &St, c: Tm) -> R<Option<Vec<u8>>> {
        let mut key = self.slice(st, c);
        key.push(c);
        let kb: Box<[Tm]> = key.clone().into_boxed_slice();
        let res = if let Some(r) = self.qcache.get(&kb) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            let r = match self.z.check(&self.ar, &key) {
                Res::Sat(m) => Some(m),
                Res::Unsat => None,
                Res::Unknown => return Err(Stop::End(End::Error("solver: unknown".into()))),
            };
            self.qcache.insert(kb, r.clone());
            r
        };
        Ok(res.map(|asg| {
            let mut m = st.model.clone();
            for (i, v) in asg {
                m[i as usize] = v;
            }
            m
        }))
    }

    /// Is PC /\ c satisfiable? Returns a model.
    fn feasible(&mut self, st: &St, c: Tm) -> R<Option<Vec<u8>>> {
        if let Some(k) = self.ar.is_const(c) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if self.ar.eval(c, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let eff = self.effective(st, c);
        if eff.count_ones() <= 1 {
            // decide by the byte's remaining values; the verdict "no value" is confirmed by the solver
            let mut cand: Dom = [0; 4];
            let v;
            if eff == 0 {
                v = self.ar.vars(c).trailing_zeros() as usize;
            } else {
                v = eff.trailing_zeros() as usize;
                let tab = self.ar.n[c as usize].tab.clone();
                let mut m = st.model.clone();
                for x in dom_iter(st.dom[v]) {
                    let ok = match &tab {
                        Some(t) => t[x as usize] != 0,
                        None => {
                            m[v] = x;
                            self.ar.eval(c, &m) != 0
                        }
                    };
                    if ok {
                        cand[(x >> 6) as usize] |= 1u64 << (x & 63);
                    }
                }
            }
            if cand == [0; 4] {
                let single = self.ar.vars(c).count_ones() == 1;
                if single && self.confirmed.contains(&(c, st.dom[v])) {
                    return Ok(None);
                }
                self.stats.confirms += 1;
                match self.query(st, c)? {
                    None => {
                        if single {
                            self.confirmed.insert((c, st.dom[v]));
                        }
                        return Ok(None);
                    }
                    Some(_) => {
                        return Err(Stop::End(End::Error("engine/solver disagreement on an infeasible branch".into())));
                    }
                }
            }
            if st.multi >> v & 1 == 0 {
                let mut m = st.model.clone();
                m[v] = dom_first(&cand).unwrap();
                return Ok(Some(m));
            }
            // try the candidates against the multi-variable constraints on v
            let rel: Vec<Tm> = st.pc.iter().cloned().filter(|&p| self.ar.vars(p) >> v & 1 == 1 && self.ar.vars(p).count_ones() > 1).collect();
            let mut m = st.model.clone();
            for x in dom_iter(cand) {
                m[v] = x;
                if rel.iter().all(|&p| self.ar.eval(p, &m) != 0) {
                    return Ok(Some(m));
                }
            }
        }
        if let Some(m) = self.search(st, c, eff) {
            return Ok(Some(m));
        }
        self.query(st, c)
    }

    /// Look for a model by evaluation before asking the solver (only ever answers "satisfiable",
    /// with a model that evaluates to true under every constraint).
    fn search(&mut self, st: &St, c: Tm, eff: Mask) -> Option<Vec<u8>> {
        let k = eff.count_ones();
        if k == 0 || k > 8 {
            return None;
        }
        let mut vs = vec![];
        let mut total: u64 = 1;
        let mut e = eff;
        while e != 0 {
            let v = e.trailing_zeros() as usize;
            e &= e - 1;
            let d: Vec<u8> = dom_iter(st.dom[v]).collect();
            total = total.saturating_mul(d.len() as u64);
            vs.push((v, d));
        }
        let rel: Vec<Tm> = st.pc.iter().cloned().filter(|&p| {
            let pv = self.ar.vars(p);
            pv & eff != 0 && pv.count_ones() > 1
        }).collect();
        let mut m = st.model.clone();
        let exhaustive = total <= 1500;
        let n = if exhaustive { total } else { 100 };
        for i in 0..n {
            let mut r = if exhaustive { i } else { self.rand() };
            for (v, d) in &vs {
                m[*v] = d[(r % d.len() as u64) as usize];
                r /= d.len() as u64;
            }
            if self.ar.eval(c, &m) != 0 && rel.iter().all(|&p| self.ar.eval(p, &m) != 0) {
                return Some(m);
            }
        }
        None
    }

    fn assume(&mut self, st: &mut St, c: Tm, model: Vec<u8>) {
        if self.ar.is_const(c).is_some() {
            return;
        }
        // split conjunctions
        let n = &self.ar.n[c as usize];
        if n.op == Op::And && n.tab.is_none() {
            let (a, b) = (n.a, n.b);
            self.assume(st, a, model.clone());
            self.assume(st, b, model);
            return;
        }
        if n.op == Op::Xor && n.b == T1 && n.tab.is_none() {
            let i = &self.ar.n[n.a as usize];
            if i.op == Op::Or {
                let (a, b) = (i.a, i.b);
                let na = self.ar.not(a);
                let nb = self.ar.not(b);
                self.assume(st, na, model.clone());
                self.assume(st, nb, model);
                return;
            }
        }
        let eff = self.effective(st, c);
        st.model = model;
        if eff == 0 {
            return;
        }
        st.pc.push(c);
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros() as usize;
            let tab = self.ar.n[c as usize].tab.clone();
            let mut nd: Dom = [0; 4];
            let mut m = st.model.clone();
            for x in dom_iter(st.dom[v]) {
                let ok = match &tab {
                    Some(t) => t[x as usize] != 0,
                    None => {
                        m[v] = x;
                        self.ar.eval(c, &m) != 0
                    }
                };
                if ok {
                    nd[(x >> 6) as usize] |= 1u64 << (x & 63);
                }
            }
            debug_assert!(nd != [0; 4]);
            st.dom[v] = nd;
        } else {
            st.multi |= eff;
            // a variable pinned by an equality chain is discovered lazily
        }
    }

    fn fork_state(&mut self, st: &mut St) -> St {
        st.mem.flush();
        let mut o = st.clone();
        o.depth_forks += 1;
        st.depth_forks += 1;
        self.stats.forks += 1;
        if self.profile {
            *self.forkprof.entry((st.cur.func, st.cur.pc)).or_insert(0) += 1;
        }
        o
    }

    /// Decide a symbolic condition, forking when both outcomes are possible.
    /// `other` receives the forked state together with its outcome.
    fn decide(&mut self, st: &mut St, c: Tm, other: &mut Option<St>) -> R<bool> {
        if let Some(k) = self.known(st, c) {
            if self.ar.is_const(c).is_none() {
                // a verdict from the byte domains: have the solver confirm it once
                let neg = if k != 0 { self.ar.not(c) } else { c };
                self.feasible(st, neg)?;
            }
            return Ok(k != 0);
        }
        let nc = self.ar.not(c);
        let mt = self.feasible(st, c)?;
        let mf = self.feasible(st, nc)?;
        match (mt, mf) {
            (Some(a), Some(b)) => {
                let mut o = self.fork_state(st);
                self.assume(st, c, a);
                self.assume(&mut o, nc, b);
                *other = Some(o);
                Ok(true)
            }
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (None, None) => Err(Stop::End(End::Error("path condition became unsatisfiable".into()))),
        }
    }

    /// A concrete value for `t`; other values are explored by re-executing the instruction.
    fn conc(&mut self, st: &mut St, t: Tm) -> R<u64> {
        if let Some(k) = self.known(st, t) {
            return Ok(k as u64);
        }
        let k = self.ar.eval(t, &st.model);
        let c = self.ar.eqk(t, k);
        let nc = self.ar.not(c);
        self.stats.concretised += 1;
        if self.profile {
            *self.concprof.entry((st.cur.func, st.cur.pc)).or_insert(0) += 1;
        }
        if let Some(m) = self.feasible(st, nc)? {
            let mut o = self.fork_state(st);
            self.assume(&mut o, nc, m);
            self.work.push(o);
        }
        let m = st.model.clone();
        self.assume(st, c, m);
        Rc::make_mut(&mut st.subst).insert(t, k as u64);
        Ok(k as u64)
    }

    fn cv(&mut self, st: &mut St, v: &V) -> R<u64> {
        match v {
            I(x) => Ok(*x),
            S(t) => self.conc(st, *t),
            W(x) => Ok(**x as u64),
            A(_) => Err(Stop::End(End::Error("aggregate where scalar expected".into()))),
        }
    }

    // ---- values -------------------------------------------------------

    #[inline]
    fn g<'a>(&'a self, st: &'a St, o: Opd) -> &'a V {
        if o >= 0 {
            &st.cur.regs[o as usize]
        } else {
            &self.pool[!o as usize]
        }
    }

    fn tm(&mut self, v: &V, w: u32) -> Tm {
        match v {
            I(x) => self.ar.cst(w, *x as u128),
            S(t) => *t,
            W(x) => self.ar.cst(w, **x),
            A(_) => panic!("tm of aggregate"),
        }
    }

    fn mkv(&mut self, st: &St, t: Tm) -> V {
        let w = self.ar.w(t);
        if let Some(k) = self.known(st, t) {
            if w > 64 {
                return W(Rc::new(k));
            }
            return I(k as u64);
        }
        S(t)
    }

    fn raw(&mut self, t: Tm) -> V {
        if let Some(k) = self.ar.is_const(t) {
            if self.ar.w(t) > 64 {
                return W(Rc::new(k));
            }
            return I(k as u64);
        }
        S(t)
    }

    fn bin(&mut self, st: &mut St, op: Bop, w: u32, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (I(x), I(y)) if w <= 64 => {
                if *y == 0 && matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) {
                    return Err(Stop::End(End::Error("division by zero in IR".into())));
                }
                Ok(I(bop(op, w, *x, *y)))
            }
            (A(x), A(y)) => {
                let mut r = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    r.push(self.bin(st, op, w, &x[i], &y[i])?);
                }
                Ok(A(Rc::new(r)))
            }
            _ => {
                if matches!(op, Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem) {
                    let x = self.cv(st, a)?;
                    let y = self.cv(st, b)?;
                    return Ok(I(bop(op, w, x, y)));
                }
                let x = self.tm(a, w);
                let y = self.tm(b, w);
                let t = self.tbin(op, w, x, y);
                Ok(self.mkv(st, t))
            }
        }
    }

    fn tbin(&mut self, op: Bop, w: u32, x: Tm, y: Tm) -> Tm {
        let ar = &mut self.ar;
        let o = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::URem => Op::URem,
            Bop::SDiv => Op::SDiv,
            Bop::SRem => Op::SRem,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::UMin | Bop::UMax => {
                let c = ar.bin(Op::Ult, x, y);
                return if op == Bop::UMin { ar.ite(c, x, y) } else { ar.ite(c, y, x) };
            }
            Bop::SMin | Bop::SMax => {
                let c = ar.bin(Op::Slt, x, y);
                return if op == Bop::SMin { ar.ite(c, x, y) } else { ar.ite(c, y, x) };
            }
            Bop::USubSat => {
                let c = ar.bin(Op::Ult, x, y);
                let d = ar.bin(Op::Sub, x, y);
                let z = ar.cst(w, 0);
                return ar.ite(c, z, d);
            }
            Bop::UAddSat => {
                let s = ar.bin(Op::Add, x, y);
                let c = ar.bin(Op::Ult, s, x);
                let f = ar.cst(w, mask(w));
                return ar.ite(c, f, s);
            }
            Bop::SAddSat | Bop::SSubSat => {
                let x1 = ar.sext(x, w + 1);
                let y1 = ar.sext(y, w + 1);
                let s = ar.bin(if op == Bop::SAddSat { Op::Add } else { Op::Sub }, x1, y1);
                let hi = ar.cst(w + 1, mask(w) >> 1);
                let lo = ar.cst(w + 1, mask(w + 1) ^ (mask(w) >> 1));
                let c1 = ar.bin(Op::Slt, hi, s);
                let c2 = ar.bin(Op::Slt, s, lo);
                let r = ar.ite(c1, hi, s);
                let r = ar.ite(c2, lo, r);
                return ar.extract(r, 0, w);
            }
            _ => unreachable!(),
        };
        ar.bin(o, x, y)
    }

    fn tcmp(&mut self, p: Pred, x: Tm, y: Tm) -> Tm {
        let ar = &mut self.ar;
        match p {
            Pred::Eq => ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = ar.bin(Op::Eq, x, y);
                ar.not(e)
            }
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ule => ar.bin(Op::Ule, x, y),
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => ar.bin(Op::Ule, y, x),
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sle => ar.bin(Op::Sle, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => ar.bin(Op::Sle, y, x),
        }
    }

    fn icmp(&mut self, st: &St, p: Pred, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (I(x), I(y)) => I(cmp(p, w, *x, *y) as u64),
            (A(x), A(y)) => A(Rc::new((0..x.len()).map(|i| self.icmp(st, p, w, &x[i], &y[i])).collect())),
            _ => {
                let x = self.tm(a, w);
                let y = self.tm(b, w);
                let t = self.tcmp(p, x, y);
                self.mkv(st, t)
            }
        }
    }

    fn cast(&mut self, st: &mut St, k: Cast, fw: u32, tw: u32, a: &V) -> R<V> {
        if let A(x) = a {
            let mut r = vec![];
            for e in x.iter() {
                r.push(self.cast(st, k, fw, tw, e)?);
            }
            return Ok(A(Rc::new(r)));
        }
        match k {
            Cast::Zext | Cast::Sext | Cast::Trunc => match a {
                I(x) => {
                    if tw <= 64 {
                        return Ok(I(match k {
                            Cast::Sext => s64(*x, fw) as u64 & m64(tw),
                            _ => *x & m64(tw),
                        }));
                    }
                    Ok(W(Rc::new(if k == Cast::Sext { s64(*x, fw) as i128 as u128 & mask(tw) } else { *x as u128 })))
                }
                W(x) => {
                    let v = if k == Cast::Sext { sx(**x, fw) as u128 } else { **x } & mask(tw);
                    Ok(if tw > 64 { W(Rc::new(v)) } else { I(v as u64) })
                }
                S(t) => {
                    let r = match k {
                        Cast::Zext => self.ar.zext(*t, tw),
                        Cast::Sext => self.ar.sext(*t, tw),
                        _ => self.ar.extract(*t, 0, tw),
                    };
                    Ok(self.mkv(st, r))
                }
                A(_) => unreachable!(),
            },
            Cast::Bitcast => Ok(a.clone()),
            _ => {
                let wide = match a {
                    W(x) => Some(**x),
                    _ => None,
                };
                let x = self.cv(st, a)?;
                Ok(I(match k {
                    Cast::UiToFp => {
                        let v = wide.unwrap_or(x as u128);
                        if tw == 32 {
                            (v as f32).to_bits() as u64
                        } else {
                            (v as f64).to_bits()
                        }
                    }
                    Cast::SiToFp => {
                        let v = wide.map(|v| v as i128).unwrap_or(s64(x, fw) as i128);
                        if tw == 32 {
                            (v as f32).to_bits() as u64
                        } else {
                            (v as f64).to_bits()
                        }
                    }
                    Cast::FpToUi => {
                        let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        f as u64 & m64(tw)
                    }
                    Cast::FpToSi => {
                        let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        f as i64 as u64 & m64(tw)
                    }
                    Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    _ => unreachable!(),
                }))
            }
        }
    }

    fn flatten_bits(&mut self, v: &V, t: TyId) -> Tm {
        // little endian: element 0 is least significant
        match (&self.m.types[t as usize], v) {
            (Ty::Vec(_, e), A(x)) => {
                let ew = self.m.width(*e);
                let mut r: Option<Tm> = None;
                for el in x.iter() {
                    let y = self.tm(el, ew);
                    r = Some(match r {
                        None => y,
                        Some(lo) => self.ar.concat(y, lo),
                    });
                }
                r.unwrap()
            }
            _ => {
                let w = self.m.width(t);
                self.tm(v, w)
            }
        }
    }

    fn bitcast(&mut self, st: &St, from: TyId, to: TyId, a: &V) -> V {
        let t = self.flatten_bits(a, from);
        match &self.m.types[to as usize] {
            Ty::Vec(n, e) => {
                let ew = self.m.width(*e);
                let mut r = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(t, i as u32 * ew, ew);
                    r.push(self.mkv(st, x));
                }
                A(Rc::new(r))
            }
            _ => self.mkv(st, t),
        }
    }

    // ---- memory -------------------------------------------------------

    fn fault(&self, st: &St, what: &str, a: u64) -> Stop {
        let _ = st;
        Stop::End(End::Error(format!("invalid {what} at {a:#x}")))
    }

    fn bytes_term(&mut self, b: &[Result<u8, Tm>]) -> Tm {
        let mut r: Option<Tm> = None;
        for x in b {
            let t = match x {
                Ok(k) => self.ar.cst(8, *k as u128),
                Err(t) => *t,
            };
            r = Some(match r {
                None => t,
                Some(lo) => self.ar.concat(t, lo),
            });
        }
        r.unwrap()
    }

    fn load_at(&mut self, st: &mut St, a: u64, n: u32, w: u32) -> R<V> {
        match st.mem.load(a, n as usize) {
            Ld::C(x) => Ok(I(x & m64(w))),
            Ld::S(b) => {
                let t = self.bytes_term(&b[..n as usize]);
                let t = if w < n * 8 { self.ar.extract(t, 0, w) } else { t };
                Ok(self.mkv(st, t))
            }
            Ld::Fault => Err(self.fault(st, "load", a)),
        }
    }

    fn addr_leaves(&self, t: Tm, out: &mut Vec<u64>) -> bool {
        let n = &self.ar.n[t as usize];
        match n.op {
            Op::Const => {
                out.push(n.k as u64);
                out.len() < 64
            }
            Op::Ite => self.addr_leaves(n.b, out) && self.addr_leaves(n.c, out),
            _ => false,
        }
    }

    fn load_sym(&mut self, st: &mut St, t: Tm, n: u32, w: u32) -> R<V> {
        if let Some(k) = self.known(st, t) {
            return self.load_at(st, k as u64, n, w);
        }
        let vars = self.ar.vars(t);
        let mut addrs: Vec<u64> = vec![];
        let mut ok = false;
        if vars.count_ones() == 1 {
            if let Some(tb) = self.ar.n[t as usize].tab.clone() {
                for x in dom_iter(st.dom[vars.trailing_zeros() as usize]) {
                    addrs.push(tb[x as usize]);
                }
                ok = true;
            }
        } else if self.addr_leaves(t, &mut addrs) {
            ok = true;
        }
        if ok {
            addrs.sort();
            addrs.dedup();
            if addrs.iter().any(|&a| !st.mem.valid(a, n as u64)) {
                ok = false;
            }
        }
        if !ok {
            let a = self.conc(st, t)?;
            return self.load_at(st, a, n, w);
        }
        let mut vals: Vec<(u64, V)> = vec![];
        let mut allc = true;
        for &a in &addrs {
            let v = self.load_at(st, a, n, w)?;
            if !matches!(v, I(_)) {
                allc = false;
            }
            vals.push((a, v));
        }
        if allc {
            let tab: Vec<(u64, u64)> = vals.iter().map(|(a, v)| (*a, if let I(x) = v { *x } else { 0 })).collect();
            if tab.iter().all(|e| e.1 == tab[0].1) {
                return Ok(I(tab[0].1));
            }
            let r = self.ar.lookup_term(t, w, tab);
            return Ok(self.mkv(st, r));
        }
        let mut r: Option<Tm> = None;
        for (a, v) in vals.iter().rev() {
            let vt = self.tm(v, w);
            r = Some(match r {
                None => vt,
                Some(e) => {
                    let c = self.ar.eqk(t, *a as u128);
                    self.ar.ite(c, vt, e)
                }
            });
        }
        let r = r.unwrap();
        Ok(self.mkv(st, r))
    }

    fn store_at(&mut self, st: &mut St, a: u64, n: u32, w: u32, v: &V) -> R<()> {
        match v {
            I(x) => {
                if !st.mem.store(a, n as usize, *x) {
                    return Err(self.fault(st, "store", a));
                }
            }
            S(t) => {
                if !st.mem.writable(a, n as u64) {
                    return Err(self.fault(st, "store", a));
                }
                let t = if w < n * 8 { self.ar.zext(*t, n * 8) } else { *t };
                for i in 0..n {
                    let b = self.ar.extract(t, i * 8, 8);
                    let b = match self.ar.is_const(b) {
                        Some(k) => Ok(k as u8),
                        None => Err(b),
                    };
                    st.mem.set(a + i as u64, b);
                }
            }
            W(x) => {
                let b = x.to_le_bytes();
                if !st.mem.writable(a, n as u64) {
                    return Err(self.fault(st, "store", a));
                }
                for i in 0..n as usize {
                    st.mem.set(a + i as u64, Ok(b[i]));
                }
            }
            A(_) => return Err(Stop::End(End::Error("aggregate scalar store".into()))),
        }
        Ok(())
    }

    fn load_ty(&mut self, st: &mut St, a: u64, t: TyId) -> R<V> {
        let m = self.m;
        match &m.types[t as usize] {
            Ty::Int(w) => {
                let n = (*w + 7) / 8;
                if *w <= 64 {
                    self.load_at(st, a, n, *w)
                } else {
                    match st.mem.load(a, n as usize) {
                        Ld::S(b) => {
                            let x = self.bytes_term(&b[..n as usize]);
                            let x = if *w < n * 8 { self.ar.extract(x, 0, *w) } else { x };
                            Ok(self.mkv(st, x))
                        }
                        Ld::C(x) => Ok(W(Rc::new(x as u128))),
                        Ld::Fault => Err(self.fault(st, "load", a)),
                    }
                }
            }
            Ty::Ptr | Ty::F64 => self.load_at(st, a, 8, 64),
            Ty::F32 => self.load_at(st, a, 4, 32),
            Ty::Struct(fs, _) => {
                let mut r = vec![];
                for i in 0..fs.len() {
                    let (o, ft) = m.field_off(t, i as u64);
                    r.push(self.load_ty(st, a + o, ft)?);
                }
                Ok(A(Rc::new(r)))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let ew = m.width(*e);
                if ew % 8 != 0 && matches!(m.types[t as usize], Ty::Vec(..)) {
                    // bit-packed
                    let nb = (ew as u64 * n + 7) / 8;
                    let x = self.load_at(st, a, nb as u32, (nb * 8) as u32)?;
                    let x = self.tm(&x, (nb * 8) as u32);
                    let mut r = vec![];
                    for i in 0..*n as u32 {
                        let y = self.ar.extract(x, i * ew, ew);
                        r.push(self.mkv(st, y));
                    }
                    return Ok(A(Rc::new(r)));
                }
                let sz = m.size_align(*e).0;
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load_ty(st, a + i * sz, *e)?);
                }
                Ok(A(Rc::new(r)))
            }
            t => Err(Stop::End(End::Error(format!("load of {t:?}")))),
        }
    }

    fn store_ty(&mut self, st: &mut St, a: u64, t: TyId, v: &V) -> R<()> {
        let m = self.m;
        match (&m.types[t as usize], v) {
            (Ty::Int(w), _) => self.store_at(st, a, (*w + 7) / 8, *w, v),
            (Ty::Ptr | Ty::F64, _) => self.store_at(st, a, 8, 64, v),
            (Ty::F32, _) => self.store_at(st, a, 4, 32, v),
            (Ty::Struct(fs, _), A(x)) => {
                for i in 0..fs.len() {
                    let (o, ft) = m.field_off(t, i as u64);
                    self.store_ty(st, a + o, ft, &x[i])?;
                }
                Ok(())
            }
            (Ty::Arr(_, e) | Ty::Vec(_, e), A(x)) => {
                let ew = m.width(*e);
                if ew % 8 != 0 && matches!(m.types[t as usize], Ty::Vec(..)) {
                    return Err(Stop::End(End::Error("store of a bit vector".into())));
                }
                let sz = m.size_align(*e).0;
                for i in 0..x.len() {
                    self.store_ty(st, a + i as u64 * sz, *e, &x[i])?;
                }
                Ok(())
            }
            (t, _) => Err(Stop::End(End::Error(format!("store of {t:?}")))),
        }
    }

    fn bytes(&mut self, st: &mut St, a: u64, n: u64) -> R<Vec<Result<u8, Tm>>> {
        if n == 0 {
            return Ok(vec![]);
        }
        if !st.mem.valid(a, n) {
            return Err(self.fault(st, "read", a));
        }
        Ok((0..n).map(|i| st.mem.byte(a + i)).collect())
    }

    fn cbytes(&mut self, st: &mut St, a: u64, n: u64) -> R<Vec<u8>> {
        let b = self.bytes(st, a, n)?;
        let mut r = Vec::with_capacity(b.len());
        for x in b {
            r.push(match x {
                Ok(k) => k,
                Err(t) => self.conc(st, t)? as u8,
            });
        }
        Ok(r)
    }

    fn cstr(&mut self, st: &mut St, a: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        let mut i = 0;
        loop {
            let b = self.cbytes(st, a + i, 1)?[0];
            if b == 0 {
                return Ok(r);
            }
            r.push(b);
            i += 1;
        }
    }

    fn byte_eval(&mut self, b: &[Result<u8, Tm>], model: &[u8]) -> Vec<u8> {
        b.iter()
            .map(|x| match x {
                Ok(k) => *k,
                Err(t) => self.ar.eval(*t, model) as u8,
            })
            .collect()
    }

    pub fn inputs_of(&self, st: &St, model: &[u8]) -> Vec<u8> {
        st.inputs
            .iter()
            .map(|i| match i {
                In::Var(v) => model[*v as usize],
                In::Fix(k) => *k,
            })
            .collect()
    }

    fn stack_of(&self, st: &St) -> Vec<String> {
        let mut r = vec![];
        let mut add = |func: u32, pc: u32| {
            let f = &self.m.funcs[func as usize];
            let mut l = f.dbg.get(pc as usize).copied().unwrap_or(0);
            let mut any = false;
            while l != 0 {
                let Some(&(line, scope, at)) = self.m.dbg.loc.get(&l) else { break };
                let (name, file) = self.scope_of(scope);
                r.push(format!("{name} ({file}:{line})"));
                any = true;
                l = at;
            }
            if !any {
                r.push(f.name.clone());
            }
        };
        add(st.cur.func, st.cur.pc);
        for f in st.frames.iter().rev().take(12) {
            add(f.func, f.pc);
        }
        r.truncate(24);
        r
    }

    pub fn scope_of(&self, mut s: u32) -> (String, String) {
        for _ in 0..64 {
            if let Some((n, l, f, _)) = self.m.dbg.sub.get(&s) {
                let nm = if l.is_empty() { n } else { l };
                return (nm.clone(), self.m.dbg.file.get(f).cloned().unwrap_or_default());
            }
            match self.m.dbg.block.get(&s) {
                Some(&p) => s = p,
                None => break,
            }
        }
        (String::new(), String::new())
    }

    fn violation(&mut self, st: &St, model: &[u8], msg: String, kind: &'static str) {
        self.stats.violations += 1;
        let n = self.vkinds.entry(msg.clone()).or_insert(0);
        *n += 1;
        if *n > 4 {
            return;
        }
        let inputs = self.inputs_of(st, model);
        let src = st.src.clone().iter().map(|s| self.byte_eval(s, model)).collect();
        let stack = self.stack_of(st);
        self.viols.push(Violation { msg, inputs, src, stack, kind });
    }

    fn finish(&mut self, st: &St) -> R<()> {
        self.stats.paths += 1;
        if self.stats.paths % self.z3_endcheck_every == 1 && !st.pc.is_empty() {
            self.stats.end_checks += 1;
            match self.z.check(&self.ar, &st.pc) {
                Res::Sat(_) => {}
                Res::Unsat => return Err(Stop::End(End::Error("completed path is unsatisfiable".into()))),
                Res::Unknown => {}
            }
        }
        // reservoir sampling
        let n = self.stats.paths;
        let slot = if self.samples.len() < self.sample_max {
            self.samples.push(Sample { inputs: vec![], notes: 0, src: vec![], nvars: 0 });
            Some(self.samples.len() - 1)
        } else {
            let r = (self.rand() % n) as usize;
            if r < self.sample_max {
                Some(r)
            } else {
                None
            }
        };
        if let Some(i) = slot {
            let model = st.model.clone();
            let inputs = self.inputs_of(st, &model);
            let mut h = 0xcbf29ce484222325u64;
            for nt in st.notes.clone() {
                for b in self.byte_eval(&nt, &model) {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                h = (h ^ 0xff).wrapping_mul(0x100000001b3);
            }
            let src = st.src.clone().iter().map(|s| self.byte_eval(s, &model)).collect();
            let nvars = st.dom.len() as u32;
            self.samples[i] = Sample { inputs, notes: h, src, nvars };
        }
        Ok(())
    }

    // ---- main loop ----------------------------------------------------

    pub fn run(&mut self, mut st: St) {
        let before = st.steps;
        let r = self.run_inner(&mut st);
        self.stats.steps += st.steps - before;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.checks += st.checks as u64;
        let e = match r {
            Err(Stop::End(e)) => e,
            Err(Stop::Kill) => return,
            Ok(()) => End::Done,
        };
        match e {
            End::Done => {
                if let Err(Stop::End(End::Error(m))) = self.finish(&st) {
                    self.errs.push(m);
                    self.stats.errors += 1;
                }
            }
            End::Assumed => self.stats.assumed += 1,
            End::Violation => {}
            End::Error(m) => {
                self.stats.errors += 1;
                if self.errs.len() < 5 {
                    let inp = self.inputs_of(&st, &st.model);
                    let stk = self.stack_of(&st);
                    let model = st.model.clone();
                    let src: Vec<String> = st.src.clone().iter().map(|s| String::from_utf8_lossy(&self.byte_eval(s, &model)).into_owned()).collect();
                    self.errs.push(format!("{m}; inputs {inp:?}; src {src:?}; at {}", stk.join(" < ")));
                }
            }
        }
    }

    #[inline]
    fn take(&mut self, st: &mut St, e: &Edge) {
        if e.copies.len() == 1 {
            let (d, s) = e.copies[0];
            let v = self.g(st, s).clone();
            st.cur.regs[d as usize] = v;
        } else if !e.copies.is_empty() {
            let mut tmp: Vec<V> = Vec::with_capacity(e.copies.len());
            for (_, s) in e.copies.iter() {
                tmp.push(self.g(st, *s).clone());
            }
            for ((d, _), v) in e.copies.iter().zip(tmp) {
                st.cur.regs[*d as usize] = v;
            }
        }
        st.cur.pc = e.pc;
        let h = &mut self.hit[st.cur.func as usize];
        let p = e.pc as usize;
        if p < h.len() {
            h[p] = 1;
        } else {
            self.touch(st.cur.func, e.pc);
        }
    }

    fn run_inner(&mut self, st: &mut St) -> R<()> {
        loop {
            let m = self.m;
            let code = &m.funcs[st.cur.func as usize].code;
            let inst = &code[st.cur.pc as usize];
            st.steps += 1;
            if self.profile {
                self.prof[st.cur.func as usize] += 1;
            }
            if st.steps & 0xffff == 0 && st.steps > self.max_steps {
                let model = st.model.clone();
                self.violation(st, &model, format!("does not return within {} steps", self.max_steps), "hang");
                return Err(Stop::End(End::Violation));
            }
            match inst {
                Inst::Bin { op, w, dst, a, b } => {
                    let (x, y) = (self.g(st, *a), self.g(st, *b));
                    let r = match (x, y) {
                        (I(x), I(y)) if *w <= 64 && !matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) => I(bop(*op, *w, *x, *y)),
                        _ => {
                            let (x, y) = (x.clone(), y.clone());
                            self.bin(st, *op, *w, &x, &y)?
                        }
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Cmp { pred, w, dst, a, b } => {
                    let (x, y) = (self.g(st, *a), self.g(st, *b));
                    let r = match (x, y) {
                        (I(x), I(y)) => I(cmp(*pred, *w, *x, *y) as u64),
                        _ => {
                            let (x, y) = (x.clone(), y.clone());
                            self.icmp(st, *pred, *w, &x, &y)
                        }
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Gep1 { dst, base, off } => {
                    let r = match self.g(st, *base) {
                        I(x) => I(x.wrapping_add(*off)),
                        S(t) => {
                            let t = *t;
                            let k = self.ar.cst(64, *off as u128);
                            let r = self.ar.bin(Op::Add, t, k);
                            self.mkv(st, r)
                        }
                        _ => return Err(Stop::End(End::Error("gep base".into()))),
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Gep { dst, base, off, idx } => {
                    let mut symb = false;
                    let mut acc = match self.g(st, *base) {
                        I(x) => x.wrapping_add(*off),
                        _ => {
                            symb = true;
                            0
                        }
                    };
                    if !symb {
                        for (o, sc, w) in idx.iter() {
                            match self.g(st, *o) {
                                I(x) => acc = acc.wrapping_add((s64(*x, *w) as u64).wrapping_mul(*sc)),
                                _ => {
                                    symb = true;
                                    break;
                                }
                            }
                        }
                    }
                    let r = if !symb {
                        I(acc)
                    } else {
                        let bv = self.g(st, *base).clone();
                        let mut t = self.tm(&bv, 64);
                        let k = self.ar.cst(64, *off as u128);
                        t = self.ar.bin(Op::Add, t, k);
                        for (o, sc, w) in idx.iter() {
                            let v = self.g(st, *o).clone();
                            let x = self.tm(&v, *w);
                            let x = if *w < 64 { self.ar.sext(x, 64) } else { x };
                            let s = self.ar.cst(64, *sc as u128);
                            let x = self.ar.bin(Op::Mul, x, s);
                            t = self.ar.bin(Op::Add, t, x);
                        }
                        self.mkv(st, t)
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Load { dst, p, n, w } => {
                    let r = match self.g(st, *p) {
                        I(a) => {
                            let a = *a;
                            match st.mem.load(a, *n as usize) {
                                Ld::C(x) => I(if *w == *n * 8 { x } else { x & m64(*w) }),
                                _ => self.load_at(st, a, *n, *w)?,
                            }
                        }
                        S(t) => {
                            let t = *t;
                            self.load_sym(st, t, *n, *w)?
                        }
                        _ => return Err(Stop::End(End::Error("load ptr".into()))),
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::LoadT { dst, p, ty } => {
                    let pv = self.g(st, *p).clone();
                    let a = self.cv(st, &pv)?;
                    let r = self.load_ty(st, a, *ty)?;
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Store { v, p, n, w } => {
                    let a = match self.g(st, *p) {
                        I(a) => *a,
                        pv => {
                            let pv = pv.clone();
                            self.cv(st, &pv)?
                        }
                    };
                    match self.g(st, *v) {
                        I(x) => {
                            let x = *x;
                            if !st.mem.store(a, *n as usize, x) {
                                return Err(self.fault(st, "store", a));
                            }
                        }
                        x => {
                            let x = x.clone();
                            self.store_at(st, a, *n, *w, &x)?;
                        }
                    }
                    st.cur.pc += 1;
                }
                Inst::StoreT { v, p, ty } => {
                    let pv = self.g(st, *p).clone();
                    let a = self.cv(st, &pv)?;
                    let x = self.g(st, *v).clone();
                    self.store_ty(st, a, *ty, &x)?;
                    st.cur.pc += 1;
                }
                Inst::Br(e) => self.take(st, e),
                Inst::CondBr(x) => {
                    let (c, t, f) = &**x;
                    match self.g(st, *c) {
                        I(v) => {
                            let e = if *v & 1 != 0 { t } else { f };
                            self.take(st, e)
                        }
                        S(tm) => {
                            let tm = *tm;
                            let mut other = None;
                            let d = self.decide(st, tm, &mut other)?;
                            if let Some(mut o) = other {
                                self.take(&mut o, f);
                                self.work.push(o);
                            }
                            self.take(st, if d { t } else { f });
                        }
                        _ => return Err(Stop::End(End::Error("br cond".into()))),
                    }
                }
                Inst::Select { dst, c, a, b, w } => {
                    let r = match self.g(st, *c) {
                        I(v) => {
                            if *v & 1 != 0 {
                                self.g(st, *a).clone()
                            } else {
                                self.g(st, *b).clone()
                            }
                        }
                        S(tm) => {
                            let tm = *tm;
                            let (x, y) = (self.g(st, *a).clone(), self.g(st, *b).clone());
                            if *w == 0 || matches!(x, A(_)) {
                                let k = self.conc(st, tm)?;
                                if k != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let x = self.tm(&x, *w);
                                let y = self.tm(&y, *w);
                                let t = self.ar.ite(tm, x, y);
                                self.mkv(st, t)
                            }
                        }
                        A(cs) => {
                            let cs = cs.clone();
                            let (A(x), A(y)) = (self.g(st, *a).clone(), self.g(st, *b).clone()) else {
                                return Err(Stop::End(End::Error("vector select".into())));
                            };
                            let mut r = vec![];
                            for i in 0..cs.len() {
                                r.push(match &cs[i] {
                                    I(k) => {
                                        if *k & 1 != 0 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    S(c) => {
                                        let p = self.tm(&x[i], *w);
                                        let q = self.tm(&y[i], *w);
                                        let t = self.ar.ite(*c, p, q);
                                        self.mkv(st, t)
                                    }
                                    _ => unreachable!(),
                                });
                            }
                            A(Rc::new(r))
                        }
                        W(_) => unreachable!(),
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Cast { kind, fw, tw, dst, a } => {
                    let r = match (self.g(st, *a), kind) {
                        (I(x), Cast::Zext | Cast::Trunc) if *tw <= 64 => I(*x & m64(*tw)),
                        (v, _) => {
                            let v = v.clone();
                            self.cast(st, *kind, *fw, *tw, &v)?
                        }
                    };
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Copy { dst, a } => {
                    let v = self.g(st, *a).clone();
                    st.cur.regs[*dst as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::Switch(s) => match self.g(st, s.v) {
                    I(v) => {
                        let e = s.map.get(v).copied().unwrap_or(0);
                        self.take(st, &s.edges[e as usize]);
                    }
                    S(t) => {
                        let t = *t;
                        self.switch(st, s, t)?;
                    }
                    _ => return Err(Stop::End(End::Error("switch value".into()))),
                },
                Inst::Call(c) => self.call(st, c)?,
                Inst::Ret { v, void } => {
                    let val = if *void { None } else { Some(self.g(st, *v).clone()) };
                    if st.frames.is_empty() {
                        return Ok(());
                    }
                    st.sp = st.cur.sp;
                    let f = st.frames.pop().unwrap();
                    st.cur = match Rc::try_unwrap(f) {
                        Ok(f) => f,
                        Err(f) => (*f).clone(),
                    };
                    let Inst::Call(ci) = &m.funcs[st.cur.func as usize].code[st.cur.pc as usize] else { unreachable!() };
                    if let (Some(d), Some(v)) = (ci.dst, val) {
                        st.cur.regs[d as usize] = v;
                    }
                    match &ci.normal {
                        Some(e) => self.take(st, e),
                        None => st.cur.pc += 1,
                    }
                }
                Inst::Alloca { dst, size, align, n } => {
                    let k = match self.g(st, *n) {
                        I(x) => *x,
                        v => {
                            let v = v.clone();
                            self.cv(st, &v)?
                        }
                    };
                    let al = (*align).max(16);
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + size * k;
                    if st.sp > STACK_BASE + STACK_SIZE {
                        let model = st.model.clone();
                        self.violation(st, &model, "stack overflow".into(), "panic");
                        return Err(Stop::End(End::Violation));
                    }
                    st.cur.regs[*dst as usize] = I(a);
                    st.cur.pc += 1;
                }
                Inst::Unreachable => {
                    return Err(Stop::End(End::Error("reached unreachable".into())));
                }
                Inst::Extract { dst, a, path } => {
                    let mut v = self.g(st, *a).clone();
                    for &i in path.iter() {
                        let A(x) = &v else { return Err(Stop::End(End::Error("extractvalue".into()))) };
                        let n = x[i as usize].clone();
                        v = n;
                    }
                    st.cur.regs[*dst as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::Insert { dst, a, v, path, .. } => {
                    let mut agg = self.g(st, *a).clone();
                    let v = self.g(st, *v).clone();
                    fn ins(a: &mut V, path: &[u32], v: V) {
                        let A(x) = a else { panic!("insertvalue") };
                        let x = Rc::make_mut(x);
                        if path.len() == 1 {
                            x[path[0] as usize] = v;
                        } else {
                            ins(&mut x[path[0] as usize], &path[1..], v)
                        }
                    }
                    ins(&mut agg, path, v);
                    st.cur.regs[*dst as usize] = agg;
                    st.cur.pc += 1;
                }
                Inst::ExtractElt { dst, a, i } => {
                    let iv = self.g(st, *i).clone();
                    let i = self.cv(st, &iv)?;
                    let A(x) = self.g(st, *a) else { return Err(Stop::End(End::Error("extractelement".into()))) };
                    let v = x[i as usize].clone();
                    st.cur.regs[*dst as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::InsertElt { dst, a, v, i, n } => {
                    let iv = self.g(st, *i).clone();
                    let i = self.cv(st, &iv)?;
                    let v = self.g(st, *v).clone();
                    let mut x = match self.g(st, *a) {
                        A(x) => (**x).clone(),
                        _ => vec![I(0); *n as usize],
                    };
                    x[i as usize] = v;
                    st.cur.regs[*dst as usize] = A(Rc::new(x));
                    st.cur.pc += 1;
                }
                Inst::Shuffle { dst, a, b, mask, n } => {
                    let g = |v: &V| match v {
                        A(x) => (**x).clone(),
                        _ => vec![I(0); *n as usize],
                    };
                    let mut x = g(self.g(st, *a));
                    x.extend(g(self.g(st, *b)));
                    let r = mask.iter().map(|&i| if i < 0 { I(0) } else { x[i as usize].clone() }).collect();
                    st.cur.regs[*dst as usize] = A(Rc::new(r));
                    st.cur.pc += 1;
                }
                Inst::BitcastV { from, to, dst, a } => {
                    let v = self.g(st, *a).clone();
                    let r = self.bitcast(st, *from, *to, &v);
                    st.cur.regs[*dst as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::FNeg { w, dst, a } => {
                    let v = self.g(st, *a).clone();
                    let x = self.cv(st, &v)?;
                    st.cur.regs[*dst as usize] = I(x ^ (1u64 << (w - 1)));
                    st.cur.pc += 1;
                }
                Inst::FCmp { pred, f32: is32, dst, a, b } => {
                    let (av, bv) = (self.g(st, *a).clone(), self.g(st, *b).clone());
                    let x = self.cv(st, &av)?;
                    let y = self.cv(st, &bv)?;
                    let (x, y) = if *is32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred {
                        0 => false,
                        1 => x == y,
                        2 => x > y,
                        3 => x >= y,
                        4 => x < y,
                        5 => x <= y,
                        6 => !un && x != y,
                        7 => !un,
                        8 => un || x == y,
                        9 => un || x > y,
                        10 => un || x >= y,
                        11 => un || x < y,
                        12 => un || x <= y,
                        13 => x != y,
                        14 => un,
                        _ => true,
                    };
                    st.cur.regs[*dst as usize] = I(r as u64);
                    st.cur.pc += 1;
                }
                Inst::AtomicRmw { op, dst, p, v, n, w } => {
                    let pv = self.g(st, *p).clone();
                    let a = self.cv(st, &pv)?;
                    let old = self.load_at(st, a, *n, *w)?;
                    let v = self.g(st, *v).clone();
                    let b = |o| -> Bop { o };
                    let new = match op {
                        0 => v,
                        1 => self.bin(st, b(Bop::Add), *w, &old, &v)?,
                        2 => self.bin(st, Bop::Sub, *w, &old, &v)?,
                        3 => self.bin(st, Bop::And, *w, &old, &v)?,
                        4 => self.bin(st, Bop::Or, *w, &old, &v)?,
                        5 => self.bin(st, Bop::Xor, *w, &old, &v)?,
                        6 => self.bin(st, Bop::UMax, *w, &old, &v)?,
                        7 => self.bin(st, Bop::UMin, *w, &old, &v)?,
                        8 => self.bin(st, Bop::SMax, *w, &old, &v)?,
                        9 => self.bin(st, Bop::SMin, *w, &old, &v)?,
                        _ => return Err(Stop::End(End::Error("atomicrmw nand".into()))),
                    };
                    self.store_at(st, a, *n, *w, &new)?;
                    st.cur.regs[*dst as usize] = old;
                    st.cur.pc += 1;
                }
                Inst::CmpXchg { dst, p, c, v, n, w } => {
                    let pv = self.g(st, *p).clone();
                    let a = self.cv(st, &pv)?;
                    let old = self.load_at(st, a, *n, *w)?;
                    let o = self.cv(st, &old)?;
                    let cv = self.g(st, *c).clone();
                    let e = self.cv(st, &cv)?;
                    let v = self.g(st, *v).clone();
                    if o == e {
                        self.store_at(st, a, *n, *w, &v)?;
                    }
                    st.cur.regs[*dst as usize] = A(Rc::new(vec![old, I((o == e) as u64)]));
                    st.cur.pc += 1;
                }
                Inst::Bad(s) => return Err(Stop::End(End::Error(format!("unsupported instruction: {s}")))),
            }
        }
    }

    fn switch(&mut self, st: &mut St, s: &'static SwitchI, t: Tm) -> R<()> {
        if let Some(k) = self.known(st, t) {
            let e = s.map.get(&(k as u64)).copied().unwrap_or(0);
            self.take(st, &s.edges[e as usize]);
            return Ok(());
        }
        // group the cases by edge; feasible groups become states
        let mut groups: Vec<Tm> = vec![T0; s.edges.len()];
        let mut any = T0;
        for (k, e) in &s.cases {
            let c = self.ar.eqk(t, *k as u128);
            if *e != 0 {
                groups[*e as usize] = self.ar.or1(groups[*e as usize], c);
                any = self.ar.or1(any, c);
            }
        }
        groups[0] = self.ar.not(any);
        let mut feas: Vec<(usize, Tm, Vec<u8>)> = vec![];
        for (i, &c) in groups.iter().enumerate() {
            if c == T0 {
                continue;
            }
            if let Some(m) = self.feasible(st, c)? {
                feas.push((i, c, m));
            }
        }
        if feas.is_empty() {
            return Err(Stop::End(End::Error("switch: no feasible case".into())));
        }
        let last = feas.len() - 1;
        for (j, (i, c, m)) in feas.into_iter().enumerate() {
            if j == last {
                self.assume(st, c, m);
                self.take(st, &s.edges[i]);
            } else {
                let mut o = self.fork_state(st);
                self.assume(&mut o, c, m);
                self.take(&mut o, &s.edges[i]);
                self.work.push(o);
            }
        }
        Ok(())
    }

    fn ret(&mut self, st: &mut St, c: &'static CallI, v: V) {
        if let Some(d) = c.dst {
            st.cur.regs[d as usize] = v;
        }
        match &c.normal {
            Some(e) => self.take(st, e),
            None => st.cur.pc += 1,
        }
    }

    fn call(&mut self, st: &mut St, c: &'static CallI) -> R<()> {
        match &c.callee {
            Callee::Func(f) => self.call_fn(st, c, *f),
            Callee::Ind(o) => {
                let v = self.g(st, *o).clone();
                let a = self.cv(st, &v)?;
                let id = a.wrapping_sub(FBASE) / 16;
                if a < FBASE || (a - FBASE) % 16 != 0 || id >= self.m.funcs.len() as u64 {
                    return Err(self.fault(st, "call", a));
                }
                self.call_fn(st, c, id as u32)
            }
            Callee::Bin(op) => {
                let (x, y) = (self.g(st, c.args[0]).clone(), self.g(st, c.args[1]).clone());
                let r = self.bin(st, *op, c.w, &x, &y)?;
                self.ret(st, c, r);
                Ok(())
            }
            Callee::Asm => {
                if c.dst.is_some() {
                    // an ioctl issued directly, asking for the terminal's size: not a terminal
                    let nr = if c.args.len() == 4 { self.g(st, c.args[0]).clone() } else { I(0) };
                    if !matches!(nr, I(16)) {
                        return Err(Stop::End(End::Error("asm with a result".into())));
                    }
                    self.ret(st, c, A(Rc::new(vec![I(-25i64 as u64), I(0), I(0)])));
                    return Ok(());
                }
                self.ret(st, c, I(0));
                Ok(())
            }
            Callee::Intr(i, id) => self.intr(st, c, *i, *id),
        }
    }

    fn call_fn(&mut self, st: &mut St, c: &'static CallI, f: u32) -> R<()> {
        let b = self.bi[f as usize];
        if b != Bi::None {
            return self.builtin(st, c, b, f);
        }
        let m = self.m;
        let fun = &m.funcs[f as usize];
        if fun.decl {
            return Err(Stop::End(End::Error(format!("call of external function {}", fun.name))));
        }
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        for i in 0..fun.nparams as usize {
            regs.push(self.g(st, c.args[i]).clone());
        }
        regs.resize(fun.nregs as usize, I(0));
        let nf = Frame { func: f, pc: 0, regs, sp: st.sp };
        let old = std::mem::replace(&mut st.cur, nf);
        st.frames.push(Rc::new(old));
        if st.frames.len() > 20_000 {
            let model = st.model.clone();
            self.violation(st, &model, "stack overflow".into(), "panic");
            return Err(Stop::End(End::Violation));
        }
        self.touch(f, 0);
        Ok(())
    }

    fn intr(&mut self, st: &mut St, c: &'static CallI, i: Intr, id: u32) -> R<()> {
        let w = c.w;
        let arg = |s: &Ex, st: &St, k: usize| s.g(st, c.args[k]).clone();
        let r: V = match i {
            Intr::Nop => I(0),
            Intr::Memcpy => {
                let (d, s, n) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let d = self.cv(st, &d)?;
                let s = self.cv(st, &s)?;
                let n = self.cv(st, &n)?;
                if !st.mem.copy(d, s, n) {
                    return Err(self.fault(st, "memcpy", d));
                }
                I(0)
            }
            Intr::Memset => {
                let (d, v, n) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let d = self.cv(st, &d)?;
                let n = self.cv(st, &n)?;
                let b = match v {
                    I(x) => Ok(x as u8),
                    S(t) => Err(t),
                    _ => unreachable!(),
                };
                if !st.mem.fill(d, b, n) {
                    return Err(self.fault(st, "memset", d));
                }
                I(0)
            }
            Intr::Ident => arg(self, st, 0),
            Intr::IsConst => I(0),
            Intr::Trap => {
                let model = st.model.clone();
                self.violation(st, &model, "trap".into(), "panic");
                return Err(Stop::End(End::Violation));
            }
            Intr::Unknown => return Err(Stop::End(End::Error(format!("intrinsic {}", self.m.funcs[id as usize].name)))),
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse | Intr::Abs => {
                let a = arg(self, st, 0);
                self.unary(st, i, w, &a)
            }
            Intr::Fshl | Intr::Fshr => {
                let (a, b, s) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let s = self.cv(st, &s)? % w as u64;
                let hi = self.tm(&a, w);
                let lo = self.tm(&b, w);
                let cc = self.ar.concat(hi, lo);
                let t = if i == Intr::Fshl { self.ar.extract(cc, w - s as u32, w) } else { self.ar.extract(cc, s as u32, w) };
                self.mkv(st, t)
            }
            Intr::AddO(sg) | Intr::SubO(sg) | Intr::MulO(sg) => {
                let (a, b) = (arg(self, st, 0), arg(self, st, 1));
                match (&a, &b) {
                    (I(x), I(y)) if w <= 64 => {
                        let (r, o) = if sg {
                            let (x, y) = (s64(*x, w) as i128, s64(*y, w) as i128);
                            let r = match i {
                                Intr::AddO(_) => x + y,
                                Intr::SubO(_) => x - y,
                                _ => x * y,
                            };
                            let t = r as u64 & m64(w);
                            (t, s64(t, w) as i128 != r)
                        } else {
                            let (x, y) = (*x as i128, *y as i128);
                            let r = match i {
                                Intr::AddO(_) => x + y,
                                Intr::SubO(_) => x - y,
                                _ => ((x as u128).wrapping_mul(y as u128)) as i128,
                            };
                            let t = r as u64 & m64(w);
                            (t, if matches!(i, Intr::MulO(_)) { (*&x as u128 * y as u128) > m64(w) as u128 } else { t as i128 != r })
                        };
                        A(Rc::new(vec![I(r), I(o as u64)]))
                    }
                    _ => {
                        let x = self.tm(&a, w);
                        let y = self.tm(&b, w);
                        let ew = match i {
                            Intr::MulO(_) => 2 * w,
                            _ => w + 1,
                        };
                        if ew > 128 {
                            // 128-bit operands: no wider type to compute in
                            let (kx, ky) = (self.known(st, x), self.known(st, y));
                            let zero = self.ar.cst(w, 0);
                            let (r, o) = match (i, sg) {
                                (Intr::AddO(_), false) => {
                                    let r = self.ar.bin(Op::Add, x, y);
                                    (r, self.ar.bin(Op::Ult, r, x))
                                }
                                (Intr::SubO(_), false) => (self.ar.bin(Op::Sub, x, y), self.ar.bin(Op::Ult, x, y)),
                                (Intr::AddO(_), true) => {
                                    let r = self.ar.bin(Op::Add, x, y);
                                    let (p, q) = (self.ar.bin(Op::Xor, x, r), self.ar.bin(Op::Xor, y, r));
                                    let t = self.ar.bin(Op::And, p, q);
                                    (r, self.ar.bin(Op::Slt, t, zero))
                                }
                                (Intr::SubO(_), true) => {
                                    let r = self.ar.bin(Op::Sub, x, y);
                                    let (p, q) = (self.ar.bin(Op::Xor, x, y), self.ar.bin(Op::Xor, x, r));
                                    let t = self.ar.bin(Op::And, p, q);
                                    (r, self.ar.bin(Op::Slt, t, zero))
                                }
                                (_, sg) if w == 128 && kx.is_some() && ky.is_some() => {
                                    let (a, b) = (kx.unwrap(), ky.unwrap());
                                    let (r, o) = if sg {
                                        let (r, o) = (a as i128).overflowing_mul(b as i128);
                                        (r as u128, o)
                                    } else {
                                        a.overflowing_mul(b)
                                    };
                                    (self.ar.cst(w, r), self.ar.cst(1, o as u128))
                                }
                                (_, false) if w == 128 && (kx.is_some() || ky.is_some()) => {
                                    let (k, v) = match kx {
                                        Some(k) => (k, y),
                                        None => (ky.unwrap(), x),
                                    };
                                    let r = self.ar.bin(Op::Mul, x, y);
                                    let o = if k == 0 {
                                        self.ar.cst(1, 0)
                                    } else {
                                        let lim = self.ar.cst(w, u128::MAX / k);
                                        self.ar.bin(Op::Ult, lim, v)
                                    };
                                    (r, o)
                                }
                                _ => return Err(Stop::End(End::Error("wide overflow arithmetic".into()))),
                            };
                            let rv = self.mkv(st, r);
                            let ov = self.mkv(st, o);
                            self.ret(st, c, A(Rc::new(vec![rv, ov])));
                            return Ok(());
                        }
                        let (xe, ye) = if sg { (self.ar.sext(x, ew), self.ar.sext(y, ew)) } else { (self.ar.zext(x, ew), self.ar.zext(y, ew)) };
                        let op = match i {
                            Intr::AddO(_) => Op::Add,
                            Intr::SubO(_) => Op::Sub,
                            _ => Op::Mul,
                        };
                        let re = self.ar.bin(op, xe, ye);
                        let r = self.ar.bin(op, x, y);
                        let back = if sg { self.ar.sext(r, ew) } else { self.ar.zext(r, ew) };
                        let ok = self.ar.bin(Op::Eq, re, back);
                        let o = self.ar.not(ok);
                        let rv = self.mkv(st, r);
                        let ov = self.mkv(st, o);
                        A(Rc::new(vec![rv, ov]))
                    }
                }
            }
            Intr::Ucmp | Intr::Scmp => {
                let (a, b) = (arg(self, st, 0), arg(self, st, 1));
                let rw = c.rw;
                let (lt, gt) = if i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(st, lt, w, &a, &b);
                let g = self.icmp(st, gt, w, &a, &b);
                let l = self.tm(&l, 1);
                let g = self.tm(&g, 1);
                let (m1, z, p1) = (self.ar.cst(rw, u128::MAX), self.ar.cst(rw, 0), self.ar.cst(rw, 1));
                let r = self.ar.ite(g, p1, z);
                let r = self.ar.ite(l, m1, r);
                self.mkv(st, r)
            }
            Intr::FTrunc | Intr::FAbs | Intr::FFloor | Intr::FCeil | Intr::FRint => {
                let a = arg(self, st, 0);
                let x = self.cv(st, &a)?;
                let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match i {
                    Intr::FTrunc => f.trunc(),
                    Intr::FAbs => f.abs(),
                    Intr::FFloor => f.floor(),
                    Intr::FCeil => f.ceil(),
                    _ => f.round_ties_even(),
                };
                I(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
            }
            Intr::FCopysign => {
                let (a, b) = (arg(self, st, 0), arg(self, st, 1));
                let x = self.cv(st, &a)?;
                let y = self.cv(st, &b)?;
                let sb = 1u64 << (w - 1);
                I((x & !sb) | (y & sb))
            }
            Intr::FpToUiSat | Intr::FpToSiSat => {
                let a = arg(self, st, 0);
                let x = self.cv(st, &a)?;
                let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let rw = c.rw;
                if i == Intr::FpToUiSat {
                    I((f as u64).min(m64(rw)))
                } else {
                    let hi = (m64(rw) >> 1) as i64;
                    I((f as i64).clamp(-hi - 1, hi) as u64 & m64(rw))
                }
            }
            Intr::FFma => return Err(Stop::End(End::Error("fma".into()))),
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let A(x) = arg(self, st, 0) else { return Err(Stop::End(End::Error("vector reduce".into()))) };
                let op = match i {
                    Intr::VecReduceOr => Bop::Or,
                    Intr::VecReduceAnd => Bop::And,
                    _ => Bop::Add,
                };
                let mut r = x[0].clone();
                for e in x[1..].iter() {
                    r = self.bin(st, op, w, &r, e)?;
                }
                r
            }
        };
        self.ret(st, c, r);
        Ok(())
    }

    fn unary(&mut self, st: &St, i: Intr, w: u32, a: &V) -> V {
        match a {
            A(x) => A(Rc::new(x.iter().map(|e| self.unary(st, i, w, e)).collect())),
            I(x) => I(match i {
                Intr::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                Intr::Cttz => {
                    if *x == 0 {
                        w as u64
                    } else {
                        x.trailing_zeros() as u64
                    }
                }
                Intr::Ctpop => x.count_ones() as u64,
                Intr::Bswap => x.swap_bytes() >> (64 - w),
                Intr::Bitreverse => x.reverse_bits() >> (64 - w),
                Intr::Abs => s64(*x, w).unsigned_abs() & m64(w),
                _ => unreachable!(),
            }),
            _ => {
                let t = self.tm(a, w);
                let r = match i {
                    Intr::Ctlz => self.ar.un(Op::Ctlz, t),
                    Intr::Cttz => self.ar.un(Op::Cttz, t),
                    Intr::Ctpop => self.ar.un(Op::Ctpop, t),
                    Intr::Bswap => {
                        let mut r = self.ar.extract(t, 0, 8);
                        for k in 1..w / 8 {
                            let e = self.ar.extract(t, k * 8, 8);
                            r = self.ar.concat(r, e);
                        }
                        r
                    }
                    Intr::Bitreverse => {
                        let mut r = self.ar.extract(t, 0, 1);
                        for k in 1..w {
                            let e = self.ar.extract(t, k, 1);
                            r = self.ar.concat(r, e);
                        }
                        r
                    }
                    Intr::Abs => {
                        let z = self.ar.cst(w, 0);
                        let n = self.ar.bin(Op::Sub, z, t);
                        let s = self.ar.extract(t, w - 1, 1);
                        self.ar.ite(s, n, t)
                    }
                    _ => unreachable!(),
                };
                self.mkv(st, r)
            }
        }
    }

    fn byte_t(&mut self, b: Result<u8, Tm>) -> Tm {
        match b {
            Ok(k) => self.ar.cst(8, k as u128),
            Err(t) => t,
        }
    }

    fn getfile(&self, st: &St, path: &[u8]) -> Option<u32> {
        st.files.iter().position(|f| f.path == path).map(|i| i as u32)
    }

    fn set_errno(&mut self, st: &mut St, e: u64) {
        let a = self.errno;
        st.mem.store(a, 4, e);
    }

    fn builtin(&mut self, st: &mut St, c: &'static CallI, b: Bi, f: u32) -> R<()> {
        let arg = |s: &Ex, st: &St, k: usize| s.g(st, c.args[k]).clone();
        macro_rules! ca {
            ($k:expr) => {{
                let v = arg(self, st, $k);
                self.cv(st, &v)?
            }};
        }
        let r = match b {
            Bi::None => unreachable!(),
            Bi::SymByte => {
                let i = st.dom.len() as u32;
                if i >= 128 {
                    return Err(Stop::End(End::Error("too many symbolic bytes".into())));
                }
                st.dom.push(FULL);
                st.model.push(b'a');
                st.inputs.push(In::Var(i));
                S(self.ar.var(i))
            }
            Bi::SymChoice => {
                let n = ca!(0);
                if n == 0 || n > 256 {
                    return Err(Stop::End(End::Error("sym_choice range".into())));
                }
                // fork n ways; the chosen value is concrete
                for k in 1..n {
                    let mut o = self.fork_state(st);
                    o.inputs.push(In::Fix(k as u8));
                    self.ret(&mut o, c, I(k));
                    self.work.push(o);
                }
                st.inputs.push(In::Fix(0));
                I(0)
            }
            Bi::SymAssume => {
                match arg(self, st, 0) {
                    I(v) => {
                        if v & 1 == 0 {
                            return Err(Stop::End(End::Assumed));
                        }
                    }
                    S(t) => match self.feasible(st, t)? {
                        Some(m) => self.assume(st, t, m),
                        None => return Err(Stop::End(End::Assumed)),
                    },
                    _ => unreachable!(),
                }
                I(0)
            }
            Bi::SymCheck => {
                st.checks += 1;
                let v = arg(self, st, 0);
                let (p, n) = (ca!(1), ca!(2));
                match v {
                    I(v) => {
                        if v & 1 == 0 {
                            let msg = self.cbytes(st, p, n)?;
                            let model = st.model.clone();
                            self.violation(st, &model, String::from_utf8_lossy(&msg).into_owned(), "check");
                            return Err(Stop::End(End::Violation));
                        }
                    }
                    S(t) => {
                        self.stats.sym_checks += 1;
                        let nt = self.ar.not(t);
                        // always a solver query: PC /\ not(assertion)
                        if let Some(model) = self.query(st, nt)? {
                            let msg = self.cbytes(st, p, n)?;
                            self.violation(st, &model, String::from_utf8_lossy(&msg).into_owned(), "check");
                            match self.feasible(st, t)? {
                                Some(m) => self.assume(st, t, m),
                                None => return Err(Stop::End(End::Violation)),
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                I(0)
            }
            Bi::SymDone => return Err(Stop::End(End::Done)),
            Bi::SymReach => {
                let id = ca!(0);
                self.reach.insert(id as u32);
                I(0)
            }
            Bi::SymNote | Bi::SymSrc => {
                let (p, n) = (ca!(0), ca!(1));
                let by = Rc::new(self.bytes(st, p, n)?);
                if b == Bi::SymNote {
                    st.notes.push(by);
                } else {
                    st.src.push(by);
                }
                I(0)
            }
            Bi::SymParam => {
                let i = ca!(0);
                I(self.params.get(i as usize).copied().unwrap_or(0))
            }
            Bi::SymFork => {
                let v = arg(self, st, 0);
                let x = self.cv(st, &v)?;
                I(x & 1)
            }
            Bi::SymConc => {
                let v = arg(self, st, 0);
                I(self.cv(st, &v)?)
            }
            Bi::SymSym => {
                // does the value depend on symbolic input (diagnostics only)
                I(0)
            }
            Bi::SymFile => {
                let (p, pn, d, dn) = (ca!(0), ca!(1), ca!(2), ca!(3));
                let path = self.cbytes(st, p, pn)?;
                let data = st.mem.alloc(dn, 16);
                st.mem.copy(data, d, dn);
                Rc::make_mut(&mut st.files).push(FileEnt { path, data, len: dn });
                I(0)
            }
            Bi::Malloc => {
                let n = ca!(0);
                I(st.mem.alloc(n, 16))
            }
            Bi::Calloc => {
                let n = ca!(0).wrapping_mul(ca!(1));
                I(st.mem.alloc(n, 16))
            }
            Bi::PosixMemalign => {
                let (out, al, n) = (ca!(0), ca!(1), ca!(2));
                let a = st.mem.alloc(n, al);
                st.mem.store(out, 8, a);
                I(0)
            }
            Bi::Realloc => {
                let (p, n) = (ca!(0), ca!(1));
                if p == 0 {
                    I(st.mem.alloc(n, 16))
                } else {
                    let Ld::C(old) = st.mem.load(p - 8, 8) else { return Err(self.fault(st, "realloc", p)) };
                    if p + (old.max(1) + 15) / 16 * 16 == st.mem.brk && n > old && st.mem.brk + n - old < HEAP_BASE + HEAP_MAX {
                        // grow in place at the end of the heap
                        st.mem.brk = p + (n + 15) / 16 * 16;
                        st.mem.store(p - 8, 8, n);
                        I(p)
                    } else {
                        let a = st.mem.alloc(n, 16);
                        if a != 0 && !st.mem.copy(a, p, old.min(n)) {
                            return Err(self.fault(st, "realloc copy", p));
                        }
                        I(a)
                    }
                }
            }
            Bi::Free => I(0),
            Bi::Memcpy => {
                let (d, s, n) = (ca!(0), ca!(1), ca!(2));
                if !st.mem.copy(d, s, n) {
                    return Err(self.fault(st, "memcpy", d));
                }
                I(d)
            }
            Bi::Memset => {
                let (d, v, n) = (ca!(0), ca!(1), ca!(2));
                if !st.mem.fill(d, Ok(v as u8), n) {
                    return Err(self.fault(st, "memset", d));
                }
                I(d)
            }
            Bi::Bcmp | Bi::Memcmp => {
                let (p, q, n) = (ca!(0), ca!(1), ca!(2));
                if n > 0 && (!st.mem.valid(p, n) || !st.mem.valid(q, n)) {
                    return Err(self.fault(st, "memcmp", p));
                }
                let mut symb = false;
                let mut res = 0i64;
                for i in 0..n {
                    match (st.mem.byte(p + i), st.mem.byte(q + i)) {
                        (Ok(x), Ok(y)) => {
                            if x != y {
                                res = x as i64 - y as i64;
                                break;
                            }
                        }
                        (x, y) => {
                            if x != y {
                                symb = true;
                                break;
                            }
                        }
                    }
                }
                if !symb {
                    I(res as u64 & 0xffff_ffff)
                } else if b == Bi::Bcmp {
                    let mut all = T1;
                    for i in 0..n {
                        let (x, y) = (st.mem.byte(p + i), st.mem.byte(q + i));
                        let x = self.byte_t(x);
                        let y = self.byte_t(y);
                        let e = self.ar.bin(Op::Eq, x, y);
                        all = self.ar.and1(all, e);
                        if all == T0 {
                            break;
                        }
                    }
                    let ne = self.ar.not(all);
                    let r = self.ar.zext(ne, 32);
                    self.mkv(st, r)
                } else {
                    let mut r = self.ar.cst(32, 0);
                    for i in (0..n).rev() {
                        let (x, y) = (st.mem.byte(p + i), st.mem.byte(q + i));
                        let x = self.byte_t(x);
                        let y = self.byte_t(y);
                        let e = self.ar.bin(Op::Eq, x, y);
                        let l = self.ar.bin(Op::Ult, x, y);
                        let (m1, p1) = (self.ar.cst(32, u128::MAX), self.ar.cst(32, 1));
                        let d = self.ar.ite(l, m1, p1);
                        r = self.ar.ite(e, r, d);
                    }
                    self.mkv(st, r)
                }
            }
            Bi::SymInit => {
                // the standard library's constructor, which receives the program's arguments
                match self.m.funcs.iter().position(|f| !f.decl && f.name.ends_with("ARGV_INIT_ARRAY12init_wrapper")) {
                    Some(id) => return self.call_fn(st, c, id as u32),
                    None => return Err(Stop::End(End::Error("no argument constructor".into()))),
                }
            }
            Bi::Strlen => {
                let p = ca!(0);
                I(self.cstr(st, p)?.len() as u64)
            }
            Bi::Memchr => {
                let (p, ch, n) = (ca!(0), ca!(1) as u8, ca!(2));
                let by = self.cbytes(st, p, n)?;
                I(by.iter().position(|x| *x == ch).map(|i| p + i as u64).unwrap_or(0))
            }
            Bi::Ret0 => I(0),
            Bi::RetNeg1 => I(u64::MAX),
            Bi::Getrandom => {
                // only getrandom is issued by the code under test: fixed bytes
                let name = &self.m.funcs[f as usize].name;
                let (buf, n) = if name == "syscall" {
                    let nr = ca!(0);
                    if nr != 318 {
                        return Err(Stop::End(End::Error(format!("syscall {nr}"))));
                    }
                    (ca!(1), ca!(2))
                } else {
                    (ca!(0), ca!(1))
                };
                for i in 0..n {
                    st.mem.set(buf + i, Ok((i as u8).wrapping_mul(37) ^ 0x5a));
                }
                I(n)
            }
            Bi::Errno => I(self.errno),
            Bi::Write => I(ca!(2)),
            Bi::Open => {
                let p = ca!(0);
                let path = self.cstr(st, p)?;
                match self.getfile(st, &path) {
                    Some(i) => {
                        let fds = Rc::make_mut(&mut st.fds);
                        fds.push((i, 0));
                        I(fds.len() as u64 + 2)
                    }
                    None => {
                        self.set_errno(st, 2);
                        I(0xffff_ffff)
                    }
                }
            }
            Bi::Close => I(0),
            Bi::Read => {
                let (fd, buf, n) = (ca!(0) as usize, ca!(1), ca!(2));
                if fd < 3 || fd - 3 >= st.fds.len() {
                    return Err(Stop::End(End::Error(format!("read fd {fd}"))));
                }
                let (fi, pos) = st.fds[fd - 3];
                let fe = st.files[fi as usize].clone();
                let k = n.min(fe.len - pos);
                if !st.mem.copy(buf, fe.data + pos, k) {
                    return Err(self.fault(st, "read", buf));
                }
                Rc::make_mut(&mut st.fds)[fd - 3].1 += k;
                I(k)
            }
            Bi::Lseek => {
                let (fd, off, wh) = (ca!(0) as usize, ca!(1) as i64, ca!(2));
                if fd < 3 || fd - 3 >= st.fds.len() {
                    return Err(Stop::End(End::Error(format!("lseek fd {fd}"))));
                }
                let (fi, pos) = st.fds[fd - 3];
                let len = st.files[fi as usize].len as i64;
                let np = match wh & 0xff {
                    0 => off,
                    1 => pos as i64 + off,
                    _ => len + off,
                };
                Rc::make_mut(&mut st.fds)[fd - 3].1 = np as u64;
                I(np as u64)
            }
            Bi::Fstat | Bi::Stat => {
                let out = ca!(1);
                let len = if b == Bi::Fstat {
                    let fd = ca!(0) as usize;
                    st.files[st.fds[fd - 3].0 as usize].len
                } else {
                    let p = ca!(0);
                    let path = self.cstr(st, p)?;
                    match self.getfile(st, &path) {
                        Some(i) => st.files[i as usize].len,
                        None => {
                            self.set_errno(st, 2);
                            self.ret(st, c, I(0xffff_ffff));
                            return Ok(());
                        }
                    }
                };
                st.mem.fill(out, Ok(0), 144);
                st.mem.store(out + 24, 4, 0o100644);
                st.mem.store(out + 48, 8, len);
                I(0)
            }
            Bi::Statx => {
                // statx(dirfd, path, flags, mask, buf)
                let (fd, p, out) = (ca!(0), ca!(1), ca!(4));
                let path = if p == 0 { vec![] } else { self.cstr(st, p)? };
                let fi = if path.is_empty() {
                    let k = (fd as usize).wrapping_sub(3);
                    st.fds.get(k).map(|x| x.0)
                } else {
                    self.getfile(st, &path)
                };
                match fi {
                    Some(i) => {
                        let len = st.files[i as usize].len;
                        st.mem.fill(out, Ok(0), 256);
                        st.mem.store(out, 4, 0x7ff);
                        st.mem.store(out + 28, 2, 0o100644);
                        st.mem.store(out + 40, 8, len);
                        I(0)
                    }
                    None => {
                        self.set_errno(st, if p == 0 { 14 } else { 2 });
                        I(0xffff_ffff)
                    }
                }
            }
            Bi::Getcwd => {
                let buf = ca!(0);
                for (i, ch) in b"/cwd\0".iter().enumerate() {
                    st.mem.set(buf + i as u64, Ok(*ch));
                }
                I(buf)
            }
            Bi::Panic | Bi::Abort => {
                let model = st.model.clone();
                let stack = self.stack_of(st);
                let loc = stack.iter().find(|s| !s.contains("/rustc/") && !s.contains("library/")).cloned().unwrap_or_default();
                let loc = loc.rsplit_once('(').map(|x| x.1.trim_end_matches(')').to_string()).unwrap_or(loc);
                let name = self.m.funcs[f as usize].name.clone();
                let short = name.rsplit("panicking").next().unwrap_or(&name).to_string();
                self.violation(st, &model, format!("panic [{short}] at {loc}"), "panic");
                return Err(Stop::End(End::Violation));
            }
        };
        self.ret(st, c, r);
        Ok(())
    }
}
