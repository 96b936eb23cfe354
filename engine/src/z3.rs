//! Minimal libz3 binding and the translation of terms.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn err(_: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<Tm, P>,
    bo: HashMap<Tm, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    since_reset: u64,
    timeout_ms: u32,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, err);
            let mut z = Z3 { c, s: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, since_reset: 0, timeout_ms };
            z.fresh();
            z
        }
    }

    unsafe fn sym(&self, s: &str) -> P {
        let n = CString::new(s).unwrap();
        Z3_mk_string_symbol(self.c, n.as_ptr())
    }

    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let l = self.sym("QF_BV");
            self.s = if std::env::var_os("ZS").is_some() { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, l) };
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = self.sym("timeout");
            Z3_params_set_uint(self.c, p, k, self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
            self.since_reset = 0;
        }
    }

    unsafe fn num(&self, w: u32, k: u128) -> P {
        let s = Z3_mk_bv_sort(self.c, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, k as u64, s)
        } else {
            let n = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, n.as_ptr(), s)
        }
    }

    /// width-1 term as a z3 Bool
    unsafe fn b(&mut self, ar: &Arena, t: Tm) -> P {
        if let Some(&p) = self.bo.get(&t) {
            return p;
        }
        let n = ar.n[t as usize].clone();
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = match n.op {
            Op::And | Op::Or => {
                let a = [self.b(ar, n.a), self.b(ar, n.b)];
                if n.op == Op::And {
                    Z3_mk_and(c, 2, a.as_ptr())
                } else {
                    Z3_mk_or(c, 2, a.as_ptr())
                }
            }
            Op::Xor => {
                if n.b == T1 {
                    let a = self.b(ar, n.a);
                    Z3_mk_not(c, a)
                } else {
                    let (a, b) = (self.b(ar, n.a), self.b(ar, n.b));
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Eq => {
                if ar.w(n.a) == 1 {
                    let (a, b) = (self.b(ar, n.a), self.b(ar, n.b));
                    Z3_mk_eq(c, a, b)
                } else {
                    let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::Ite => {
                let (x, a, b) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                Z3_mk_ite(c, x, a, b)
            }
            _ => {
                let v = self.v(ar, t);
                let one = self.num(1, 1);
                Z3_mk_eq(c, v, one)
            }
        };
        self.bo.insert(t, r);
        r
    }

    unsafe fn v(&mut self, ar: &Arena, t: Tm) -> P {
        if let Some(&p) = self.bv.get(&t) {
            return p;
        }
        let n = ar.n[t as usize].clone();
        let c = self.c;
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(w, n.k),
            Op::Var => {
                let s = self.sym(&format!("b{}", n.k));
                Z3_mk_const(c, s, Z3_mk_bv_sort(c, 8))
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.b(ar, t);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, b, o, z)
            }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let b = self.b(ar, t);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, b, o, z)
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    _ => Z3_mk_bvxor(c, a, b),
                }
            }
            Op::Sext => {
                let a = self.v(ar, n.a);
                Z3_mk_sign_ext(c, w - ar.w(n.a), a)
            }
            Op::Extract => {
                let a = self.v(ar, n.a);
                Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
            }
            Op::Concat => {
                let (a, b) = (self.v(ar, n.a), self.v(ar, n.b));
                Z3_mk_concat(c, a, b)
            }
            Op::Ite => {
                let x = self.b(ar, n.a);
                let (a, b) = (self.v(ar, n.b), self.v(ar, n.c));
                Z3_mk_ite(c, x, a, b)
            }
            Op::Lookup => {
                let a = self.v(ar, n.a);
                let aw = ar.w(n.a);
                let tab = ar.lookups[n.k as usize].clone();
                // group by value, default = 0 (outside the table: never reached)
                let mut by: HashMap<u64, Vec<u64>> = HashMap::new();
                for (k, val) in &tab {
                    by.entry(*val).or_default().push(*k);
                }
                let mut groups: Vec<(u64, Vec<u64>)> = by.into_iter().collect();
                groups.sort();
                let mut r = self.num(w, 0);
                for (val, ks) in groups {
                    if val == 0 {
                        continue;
                    }
                    let mut eqs = vec![];
                    for k in ks {
                        let kk = self.num(aw, k as u128);
                        eqs.push(Z3_mk_eq(c, a, kk));
                    }
                    let o = Z3_mk_or(c, eqs.len() as u32, eqs.as_ptr());
                    let vv = self.num(w, val as u128);
                    r = Z3_mk_ite(c, o, vv, r);
                }
                r
            }
            Op::Ctpop => {
                let a = self.v(ar, n.a);
                let mut r = self.num(w, 0);
                for i in 0..w {
                    let bit = Z3_mk_extract(c, i, i, a);
                    let e = if w > 1 { Z3_mk_concat(c, self.num(w - 1, 0), bit) } else { bit };
                    r = Z3_mk_bvadd(c, r, e);
                }
                r
            }
            Op::Ctlz | Op::Cttz => {
                let a = self.v(ar, n.a);
                let mut r = self.num(w, w as u128);
                for i in 0..w {
                    // ctlz: the last assignment wins = the most significant set bit
                    let (bit, val) = if n.op == Op::Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let e = Z3_mk_extract(c, bit, bit, a);
                    let one = self.num(1, 1);
                    let cnd = Z3_mk_eq(c, e, one);
                    let vv = self.num(w, val as u128);
                    r = Z3_mk_ite(c, cnd, vv, r);
                }
                r
            }
        };
        self.bv.insert(t, r);
        r
    }

    /// Check the conjunction of width-1 terms.
    pub fn check(&mut self, ar: &Arena, conj: &[Tm]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        self.since_reset += 1;
        if self.since_reset > 2000 {
            self.fresh();
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vars: Mask = 0;
            for &t in conj {
                let p = self.b(ar, t);
                Z3_solver_assert(self.c, self.s, p);
                vars |= ar.vars(t);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..128u32 {
                        if vars >> i & 1 == 1 {
                            let s = self.sym(&format!("b{i}"));
                            let x = Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, 8));
                            let mut o: P = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, x, true, &mut o);
                            let mut v = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut v);
                            out.push((i, v as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        r
    }
}
