//! Hash-consed bit-vector terms over byte-sized symbolic variables.
use std::collections::HashMap;
use std::rc::Rc;

pub type Tm = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Sext,
    Extract,
    Concat,
    Ite,
    Lookup,
    Ctlz,
    Cttz,
    Ctpop,
}

pub type Mask = u128;

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Tm,
    pub b: Tm,
    pub c: Tm,
    pub k: u128,
    pub vars: Mask,
    pub tab: Option<Rc<[u64; 256]>>,
}

pub type Dom = [u64; 4];

pub const FULL: Dom = [u64::MAX; 4];

pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn dom_iter(d: Dom) -> impl Iterator<Item = u8> {
    (0..4usize).flat_map(move |i| {
        let mut x = d[i];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let b = x.trailing_zeros();
                x &= x - 1;
                Some((i * 64) as u8 + b as u8)
            }
        })
    })
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            (sx(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ctlz => (a.leading_zeros() - (128 - aw)) as u128,
        Op::Cttz => {
            if a == 0 {
                aw as u128
            } else {
                a.trailing_zeros() as u128
            }
        }
        Op::Ctpop => a.count_ones() as u128,
        Op::Sext => sx(a, aw) as u128,
        _ => unreachable!(),
    }) & m
}

pub struct Arena {
    pub n: Vec<Node>,
    cons: HashMap<(Op, u16, Tm, Tm, Tm, u128), Tm>,
    tabs: HashMap<(u8, u16, Rc<[u64; 256]>), Tm>,
    pub lookups: Vec<Vec<(u64, u64)>>,
    evmemo: HashMap<Tm, u128>,
}

pub const T0: Tm = 0;
pub const T1: Tm = 1;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], cons: HashMap::new(), tabs: HashMap::new(), lookups: vec![], evmemo: HashMap::new() };
        assert_eq!(a.cst(1, 0), T0);
        assert_eq!(a.cst(1, 1), T1);
        a
    }

    pub fn w(&self, t: Tm) -> u32 {
        self.n[t as usize].w as u32
    }
    pub fn vars(&self, t: Tm) -> Mask {
        self.n[t as usize].vars
    }
    pub fn is_const(&self, t: Tm) -> Option<u128> {
        let n = &self.n[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn cst(&mut self, w: u32, k: u128) -> Tm {
        let k = k & mask(w);
        let key = (Op::Const, w as u16, 0, 0, 0, k);
        if let Some(&t) = self.cons.get(&key) {
            return t;
        }
        let t = self.n.len() as Tm;
        self.n.push(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k, vars: 0, tab: None });
        self.cons.insert(key, t);
        t
    }

    pub fn var(&mut self, i: u32) -> Tm {
        let key = (Op::Var, 8, 0, 0, 0, i as u128);
        if let Some(&t) = self.cons.get(&key) {
            return t;
        }
        let mut tab = [0u64; 256];
        for (j, e) in tab.iter_mut().enumerate() {
            *e = j as u64;
        }
        let tab = Rc::new(tab);
        let t = self.n.len() as Tm;
        self.n.push(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128, vars: 1u128 << i, tab: Some(tab.clone()) });
        self.cons.insert(key, t);
        self.tabs.insert((i as u8, 8, tab), t);
        t
    }

    fn raw(&mut self, op: Op, w: u32, a: Tm, b: Tm, c: Tm, k: u128) -> Tm {
        let key = (op, w as u16, a, b, c, k);
        if let Some(&t) = self.cons.get(&key) {
            return t;
        }
        let vars = self.n[a as usize].vars | self.n[b as usize].vars | self.n[c as usize].vars;
        let mut tab = None;
        if vars.count_ones() == 1 && w <= 64 {
            let v = vars.trailing_zeros();
            let mut tb = [0u64; 256];
            let mut konst = true;
            for x in 0..256usize {
                let r = self.eval1(op, w, a, b, c, k, x);
                match r {
                    Some(r) => {
                        tb[x] = r as u64;
                        if tb[x] != tb[0] {
                            konst = false;
                        }
                    }
                    None => {
                        konst = false;
                        tb[0] = u64::MAX;
                        break;
                    }
                }
            }
            // operands wider than 64 bits have no table: evaluate through the tree
            if self.needs_tree(op, a, b, c) {
                let mut model = vec![0u8; v as usize + 1];
                konst = true;
                for x in 0..256usize {
                    model[v as usize] = x as u8;
                    self.evmemo.clear();
                    tb[x] = self.eval_node(op, w, a, b, c, k, &model) as u64;
                    if tb[x] != tb[0] {
                        konst = false;
                    }
                }
            }
            if konst {
                let t = self.cst(w, tb[0] as u128);
                self.cons.insert(key, t);
                return t;
            }
            let tb = Rc::new(tb);
            if let Some(&t) = self.tabs.get(&(v as u8, w as u16, tb.clone())) {
                self.cons.insert(key, t);
                return t;
            }
            let t = self.n.len() as Tm;
            self.tabs.insert((v as u8, w as u16, tb.clone()), t);
            tab = Some(tb);
        }
        let t = self.n.len() as Tm;
        self.n.push(Node { op, w: w as u16, a, b, c, k, vars, tab });
        self.cons.insert(key, t);
        t
    }

    fn needs_tree(&self, op: Op, a: Tm, b: Tm, c: Tm) -> bool {
        let f = |t: Tm| {
            let n = &self.n[t as usize];
            n.vars != 0 && n.tab.is_none()
        };
        let _ = op;
        f(a) || f(b) || f(c)
    }

    fn at(&self, t: Tm, x: usize) -> Option<u128> {
        let n = &self.n[t as usize];
        match (&n.tab, n.op) {
            (Some(tb), _) => Some(tb[x] as u128),
            (None, Op::Const) => Some(n.k),
            _ => None,
        }
    }

    fn eval1(&self, op: Op, w: u32, a: Tm, b: Tm, c: Tm, k: u128, x: usize) -> Option<u128> {
        Some(match op {
            Op::Ite => {
                if self.at(a, x)? != 0 {
                    self.at(b, x)?
                } else {
                    self.at(c, x)?
                }
            }
            Op::Extract => (self.at(a, x)? >> k) & mask(w),
            Op::Concat => (self.at(a, x)? << self.w(b)) | self.at(b, x)?,
            Op::Lookup => self.lookup(k as usize, self.at(a, x)? as u64) as u128,
            _ => fold(op, w, self.w(a), self.at(a, x)?, self.at(b, x)?),
        })
    }

    pub fn lookup(&self, id: usize, addr: u64) -> u64 {
        match self.lookups[id].binary_search_by_key(&addr, |e| e.0) {
            Ok(i) => self.lookups[id][i].1,
            Err(_) => 0,
        }
    }

    fn eval_node(&mut self, op: Op, w: u32, a: Tm, b: Tm, c: Tm, k: u128, m: &[u8]) -> u128 {
        match op {
            Op::Ite => {
                if self.ev(a, m) != 0 {
                    self.ev(b, m)
                } else {
                    self.ev(c, m)
                }
            }
            Op::Extract => (self.ev(a, m) >> k) & mask(w),
            Op::Concat => (self.ev(a, m) << self.w(b)) | self.ev(b, m),
            Op::Lookup => {
                let x = self.ev(a, m) as u64;
                self.lookup(k as usize, x) as u128
            }
            Op::Const => k,
            Op::Var => m[k as usize] as u128,
            _ => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                fold(op, w, self.w(a), x, y)
            }
        }
    }

    fn ev(&mut self, t: Tm, m: &[u8]) -> u128 {
        let n = &self.n[t as usize];
        if n.op == Op::Const {
            return n.k;
        }
        if let Some(tb) = &n.tab {
            return tb[m[n.vars.trailing_zeros() as usize] as usize] as u128;
        }
        if let Some(&v) = self.evmemo.get(&t) {
            return v;
        }
        let (op, w, a, b, c, k) = (n.op, n.w as u32, n.a, n.b, n.c, n.k);
        let r = self.eval_node(op, w, a, b, c, k, m);
        self.evmemo.insert(t, r);
        r
    }

    /// Value of a term under a model (one byte per variable).
    pub fn eval(&mut self, t: Tm, m: &[u8]) -> u128 {
        self.evmemo.clear();
        self.ev(t, m)
    }

    // ---- constructors -------------------------------------------------

    pub fn not(&mut self, a: Tm) -> Tm {
        self.bin(Op::Xor, a, T1)
    }
    pub fn and1(&mut self, a: Tm, b: Tm) -> Tm {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Tm, b: Tm) -> Tm {
        self.bin(Op::Or, a, b)
    }
    pub fn eqk(&mut self, a: Tm, k: u128) -> Tm {
        let w = self.w(a);
        let kk = self.cst(w, k);
        self.bin(Op::Eq, a, kk)
    }

    pub fn zext(&mut self, a: Tm, w: u32) -> Tm {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.cst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Tm, w: u32) -> Tm {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(w, sx(k, aw) as u128);
        }
        // sign bit known to be zero
        let n = &self.n[a as usize];
        if n.op == Op::Concat {
            if let Some(0) = self.is_const(n.a) {
                return self.zext(a, w);
            }
        }
        self.raw(Op::Sext, w, a, a, a, 0)
    }

    fn flat(&self, t: Tm, out: &mut Vec<Tm>) {
        // most significant first
        let n = &self.n[t as usize];
        if n.op == Op::Concat {
            self.flat(n.a, out);
            self.flat(n.b, out);
        } else {
            out.push(t);
        }
    }

    pub fn concat(&mut self, hi: Tm, lo: Tm) -> Tm {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if let (Some(a), Some(b)) = (self.is_const(hi), self.is_const(lo)) {
            return self.cst(hw + lw, (a << lw) | b);
        }
        // merge adjacent extracts of the same term
        let (hn, ln) = (self.n[hi as usize].clone(), self.n[lo as usize].clone());
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + lw as u128 {
            return self.extract(hn.a, ln.k as u32, hw + lw);
        }
        // right-nested normal form: concat(concat(a,b),lo) = concat(a,concat(b,lo))
        if hn.op == Op::Concat {
            let r = self.concat(hn.b, lo);
            return self.concat(hn.a, r);
        }
        if ln.op == Op::Concat {
            let la = &self.n[ln.a as usize];
            if let (Some(a), Some(b)) = (self.is_const(hi), self.is_const(ln.a)) {
                let w2 = la.w as u32;
                let k = self.cst(hw + w2, (a << w2) | b);
                return self.concat(k, ln.b);
            }
            if hn.op == Op::Extract && la.op == Op::Extract && hn.a == la.a && hn.k == la.k + la.w as u128 {
                let e = self.extract(hn.a, la.k as u32, hw + la.w as u32);
                return self.concat(e, ln.b);
            }
        }
        self.raw(Op::Concat, hw + lw, hi, lo, lo, 0)
    }

    pub fn extract(&mut self, a: Tm, lo: u32, w: u32) -> Tm {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(w, k >> lo);
        }
        let n = self.n[a as usize].clone();
        if n.tab.is_some() {
            // keep simple structure but rely on tables for canonicity
        }
        match n.op {
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, a, a, lo as u128)
    }

    pub fn ite(&mut self, c: Tm, a: Tm, b: Tm) -> Tm {
        if a == b {
            return a;
        }
        match self.is_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if self.w(a) == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and1(nc, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or1(nc, a);
                }
                _ => {}
            }
        }
        let w = self.w(a);
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn un(&mut self, op: Op, a: Tm) -> Tm {
        let w = self.w(a);
        if let Some(k) = self.is_const(a) {
            return self.cst(w, fold(op, w, w, k, 0));
        }
        self.raw(op, w, a, a, a, 0)
    }

    pub fn lookup_term(&mut self, a: Tm, w: u32, mut tab: Vec<(u64, u64)>) -> Tm {
        tab.sort();
        tab.dedup();
        let id = match self.lookups.iter().rposition(|t| *t == tab) {
            Some(i) => i,
            None => {
                self.lookups.push(tab);
                self.lookups.len() - 1
            }
        };
        self.raw(Op::Lookup, w, a, a, a, id as u128)
    }

    fn has_zero_piece(&self, t: Tm) -> bool {
        // concat containing a constant piece
        let n = &self.n[t as usize];
        if n.op != Op::Concat {
            return false;
        }
        self.is_const(n.a).is_some() || self.is_const(n.b).is_some() || self.has_zero_piece(n.b) || self.has_zero_piece(n.a)
    }

    pub fn bin(&mut self, op: Op, a: Tm, b: Tm) -> Tm {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{op:?}");
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => aw,
        };
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.cst(w, fold(op, w, aw, x, y));
        }
        let full = mask(aw);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                // constant (or smaller id) to the right
                if ka.is_some() || (kb.is_none() && a < b) {
                    return self.bin_c(op, w, aw, b, a, ka);
                }
                return self.bin_c(op, w, aw, a, b, kb);
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let nk = self.cst(aw, k.wrapping_neg() & full);
                    return self.bin(Op::Add, a, nk);
                }
            }
            Op::Shl => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= aw as u128 {
                        return self.cst(w, 0);
                    }
                    let e = self.extract(a, 0, aw - k as u32);
                    let z = self.cst(k as u32, 0);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k >= aw as u128 {
                        return self.cst(w, 0);
                    }
                    let e = self.extract(a, k as u32, aw - k as u32);
                    return self.zext(e, aw);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k < aw as u128 {
                        let e = self.extract(a, k as u32, aw - k as u32);
                        return self.sext(e, aw);
                    }
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return if op == Op::UDiv { a } else { self.cst(w, 0) };
                    }
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        return if op == Op::UDiv {
                            let e = self.extract(a, s, aw - s);
                            self.zext(e, aw)
                        } else {
                            let e = self.extract(a, 0, s);
                            self.zext(e, aw)
                        };
                    }
                    // narrow when the high bits are zero
                    let n = &self.n[a as usize];
                    if n.op == Op::Concat && self.is_const(n.a) == Some(0) {
                        let lw = self.w(n.b);
                        let nb = n.b;
                        if k <= mask(lw) {
                            let kk = self.cst(lw, k);
                            let r = self.bin(op, nb, kk);
                            return self.zext(r, aw);
                        }
                    }
                }
            }
            Op::Ult => {
                if kb == Some(0) || a == b {
                    return T0;
                }
                if kb == Some(1) {
                    return self.eqk(a, 0);
                }
                if ka == Some(0) {
                    let e = self.eqk(b, 0);
                    return self.not(e);
                }
                if ka == Some(full) {
                    return T0;
                }
                return self.cmp_narrow(op, a, b);
            }
            Op::Ule => {
                if a == b || ka == Some(0) || kb == Some(full) {
                    return T1;
                }
                return self.cmp_narrow(op, a, b);
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Slt { T0 } else { T1 };
                }
                // both non-negative: unsigned
                if self.nonneg(a) && self.nonneg(b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if kb == Some(0) && op == Op::Slt {
                    return self.extract(a, aw - 1, 1);
                }
            }
            _ => {}
        }
        if let Some(t) = self.ite_push(op, a, b) {
            return t;
        }
        self.raw(op, w, a, b, b, 0)
    }

    fn nonneg(&self, t: Tm) -> bool {
        let n = &self.n[t as usize];
        match n.op {
            Op::Const => n.k >> (n.w - 1) == 0,
            Op::Concat => self.nonneg(n.a),
            _ => false,
        }
    }

    /// compare after dropping common zero high bits
    fn cmp_narrow(&mut self, op: Op, a: Tm, b: Tm) -> Tm {
        let aw = self.w(a);
        let hz = |s: &Arena, t: Tm| -> u32 {
            let n = &s.n[t as usize];
            match n.op {
                Op::Const => {
                    if n.k == 0 {
                        aw
                    } else {
                        n.k.leading_zeros() - (128 - aw)
                    }
                }
                Op::Concat if s.is_const(n.a) == Some(0) => s.w(n.a),
                _ => 0,
            }
        };
        let (za, zb) = (hz(self, a), hz(self, b));
        let z = za.min(zb);
        if z > 0 && z < aw {
            let x = self.extract(a, 0, aw - z);
            let y = self.extract(b, 0, aw - z);
            return self.bin(op, x, y);
        }
        // a has zero high bits and b is a constant beyond its range
        if za > 0 && za < aw {
            if let Some(k) = self.is_const(b) {
                if k > mask(aw - za) {
                    return T1;
                }
            }
        }
        if zb > 0 && zb < aw {
            if let Some(k) = self.is_const(a) {
                if k > mask(aw - zb) {
                    return T0;
                }
            }
        }
        if let Some(t) = self.ite_push(op, a, b) {
            return t;
        }
        self.raw(op, 1, a, b, b, 0)
    }

    fn ite_push(&mut self, op: Op, a: Tm, b: Tm) -> Option<Tm> {
        let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
        if na.op == Op::Ite && nb.op == Op::Const && self.is_const(na.b).is_some() && (self.is_const(na.c).is_some() || self.n[na.c as usize].op == Op::Ite) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Op::Ite && na.op == Op::Const && self.is_const(nb.b).is_some() && (self.is_const(nb.c).is_some() || self.n[nb.c as usize].op == Op::Ite) {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }

    /// commutative operators; `k` is b's value when constant
    fn bin_c(&mut self, op: Op, w: u32, aw: u32, a: Tm, b: Tm, k: Option<u128>) -> Tm {
        let full = mask(aw);
        if let Some(k) = k {
            match op {
                Op::Add | Op::Or | Op::Xor if k == 0 => return a,
                Op::Mul if k == 1 => return a,
                Op::Mul | Op::And if k == 0 => return self.cst(w, 0),
                Op::And if k == full => return a,
                Op::Or if k == full => return b,
                Op::Mul if k.is_power_of_two() => {
                    let s = self.cst(aw, k.trailing_zeros() as u128);
                    return self.bin(Op::Shl, a, s);
                }
                _ => {}
            }
            let n = self.n[a as usize].clone();
            match (op, n.op) {
                (Op::Add, Op::Add) | (Op::Xor, Op::Xor) | (Op::And, Op::And) | (Op::Or, Op::Or) => {
                    if let Some(k2) = self.is_const(n.b) {
                        let kk = self.cst(aw, fold(op, aw, aw, k, k2));
                        return self.bin(op, n.a, kk);
                    }
                }
                _ => {}
            }
            if op == Op::Eq {
                if aw == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match n.op {
                    Op::Concat => {
                        let lw = self.w(n.b);
                        let kh = self.cst(aw - lw, k >> lw);
                        let kl = self.cst(lw, k & mask(lw));
                        let x = self.bin(Op::Eq, n.a, kh);
                        if x == T0 {
                            return T0;
                        }
                        let y = self.bin(Op::Eq, n.b, kl);
                        return self.and1(x, y);
                    }
                    Op::Add => {
                        if let Some(k2) = self.is_const(n.b) {
                            let kk = self.cst(aw, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, n.a, kk);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.is_const(n.b) {
                            let kk = self.cst(aw, k ^ k2);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                    }
                    Op::Sext => {
                        let iw = self.w(n.a);
                        let low = k & mask(iw);
                        if sx(low, iw) as u128 & full == k {
                            let kk = self.cst(iw, low);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        return T0;
                    }
                    _ => {}
                }
            }
            if matches!(op, Op::And | Op::Or | Op::Xor) && aw > 1 {
                // split the constant into runs when it has long constant runs (masks)
                if op == Op::And {
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let m2 = k >> tz;
                    if (m2 & (m2 + 1)) == 0 {
                        let len = m2.count_ones();
                        let e = self.extract(a, tz, len);
                        let mut r = e;
                        if tz > 0 {
                            let z = self.cst(tz, 0);
                            r = self.concat(r, z);
                        }
                        if tz + len < aw {
                            let z = self.cst(aw - tz - len, 0);
                            r = self.concat(z, r);
                        }
                        return r;
                    }
                }
                if n.op == Op::Concat {
                    let lw = self.w(n.b);
                    let kh = self.cst(aw - lw, k >> lw);
                    let kl = self.cst(lw, k & mask(lw));
                    let x = self.bin(op, n.a, kh);
                    let y = self.bin(op, n.b, kl);
                    return self.concat(x, y);
                }
            }
            if let Some(t) = self.ite_push(op, a, b) {
                return t;
            }
        } else {
            if a == b {
                match op {
                    Op::And | Op::Or => return a,
                    Op::Xor => return self.cst(w, 0),
                    Op::Eq => return T1,
                    _ => {}
                }
            }
            if aw == 1 && matches!(op, Op::And | Op::Or) {
                let na = self.not(a);
                if na == b {
                    return if op == Op::And { T0 } else { T1 };
                }
            }
            if matches!(op, Op::And | Op::Or | Op::Xor) && aw > 1 && (self.has_zero_piece(a) || self.has_zero_piece(b)) {
                // piecewise over the common refinement
                let mut pa = vec![];
                let mut pb = vec![];
                self.flat(a, &mut pa);
                self.flat(b, &mut pb);
                let mut cuts: Vec<u32> = vec![];
                for p in [&pa, &pb] {
                    let mut hi = aw;
                    for &t in p {
                        hi -= self.w(t);
                        cuts.push(hi);
                    }
                }
                cuts.sort();
                cuts.dedup();
                let mut r: Option<Tm> = None;
                for i in 0..cuts.len() {
                    let lo = cuts[i];
                    let hi = if i + 1 < cuts.len() { cuts[i + 1] } else { aw };
                    let x = self.extract(a, lo, hi - lo);
                    let y = self.extract(b, lo, hi - lo);
                    let z = self.bin(op, x, y);
                    r = Some(match r {
                        None => z,
                        Some(r) => self.concat(z, r),
                    });
                }
                return r.unwrap();
            }
            if op == Op::Eq {
                let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.bin(Op::Eq, na.a, nb.a);
                    if x == T0 {
                        return T0;
                    }
                    let y = self.bin(Op::Eq, na.b, nb.b);
                    return self.and1(x, y);
                }
            }
        }
        self.raw(op, w, a, b, b, 0)
    }
}
