//! Copy-on-write byte memory; a byte is concrete or a term.
use crate::term::Tm;
use std::rc::Rc;

pub const PB: u32 = 9;
pub const PS: usize = 1 << PB;
const L2B: u32 = 8;
const L2S: usize = 1 << L2B;

pub const STACK_BASE: u64 = 0x4000_0000;
pub const STACK_SIZE: u64 = 0x0100_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;
pub const HEAP_MAX: u64 = 0x1000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[Tm; PS]>>,
}

#[derive(Clone)]
struct L2([Option<Rc<Page>>; L2S]);

type Root = Vec<Option<Rc<L2>>>;

const TLB: usize = 64;

pub struct Mem {
    root: [Rc<Root>; 3],
    pub gend: u64,
    pub brk: u64,
    pub ro: Rc<Vec<(u64, u64)>>,
    rt: [(u64, *const Page); TLB],
    wt: [(u64, *mut Page); TLB],
}

pub enum Ld {
    C(u64),
    /// at least one symbolic byte; little endian bytes
    S([Result<u8, Tm>; 16]),
    Fault,
}

static ZERO: Page = Page { d: [0; PS], s: None };

impl Clone for Mem {
    fn clone(&self) -> Mem {
        Mem {
            root: self.root.clone(),
            gend: self.gend,
            brk: self.brk,
            ro: self.ro.clone(),
            rt: [(u64::MAX, std::ptr::null()); TLB],
            wt: [(u64::MAX, std::ptr::null_mut()); TLB],
        }
    }
}

impl Mem {
    pub fn new(gend: u64) -> Mem {
        Mem {
            root: [Rc::new(vec![]), Rc::new(vec![]), Rc::new(vec![])],
            gend,
            brk: HEAP_BASE + 64,
            ro: Rc::new(vec![]),
            rt: [(u64::MAX, std::ptr::null()); TLB],
            wt: [(u64::MAX, std::ptr::null_mut()); TLB],
        }
    }

    /// must be called on the original after it was cloned
    pub fn flush(&mut self) {
        self.rt = [(u64::MAX, std::ptr::null()); TLB];
        self.wt = [(u64::MAX, std::ptr::null_mut()); TLB];
    }

    pub fn valid(&self, a: u64, n: u64) -> bool {
        match a >> 30 {
            0 => a >= crate::ll::GBASE && a + n <= self.gend,
            1 => a + n <= STACK_BASE + STACK_SIZE,
            2 => a >= HEAP_BASE + 64 && a + n <= self.brk,
            _ => false,
        }
    }

    #[inline]
    fn loc(a: u64) -> (usize, usize, usize) {
        let r = (a >> 30) as usize;
        let pn = (a & 0x3fff_ffff) >> PB;
        (r, (pn >> L2B) as usize, pn as usize & (L2S - 1))
    }

    #[inline]
    pub fn rpage(&mut self, a: u64) -> *const Page {
        let pn = a >> PB;
        let e = &self.rt[pn as usize & (TLB - 1)];
        if e.0 == pn {
            return e.1;
        }
        let (r, i, j) = Self::loc(a);
        let p: *const Page = match self.root[r].get(i) {
            Some(Some(l2)) => match &l2.0[j] {
                Some(p) => &**p,
                None => &ZERO,
            },
            _ => &ZERO,
        };
        self.rt[pn as usize & (TLB - 1)] = (pn, p);
        p
    }

    #[inline]
    pub fn wpage(&mut self, a: u64) -> *mut Page {
        let pn = a >> PB;
        let e = &self.wt[pn as usize & (TLB - 1)];
        if e.0 == pn {
            return e.1;
        }
        let (r, i, j) = Self::loc(a);
        let root = Rc::make_mut(&mut self.root[r]);
        if root.len() <= i {
            root.resize(i + 1, None);
        }
        let l2 = root[i].get_or_insert_with(|| Rc::new(L2([const { None }; L2S])));
        let l2 = Rc::make_mut(l2);
        let p = l2.0[j].get_or_insert_with(|| Rc::new(Page { d: [0; PS], s: None }));
        let p: *mut Page = Rc::make_mut(p);
        self.wt[pn as usize & (TLB - 1)] = (pn, p);
        self.rt[pn as usize & (TLB - 1)] = (pn, p);
        p
    }

    #[inline]
    pub fn load(&mut self, a: u64, n: usize) -> Ld {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let pn = a >> PB;
            let e = &self.rt[pn as usize & (TLB - 1)];
            let p = if e.0 == pn {
                e.1
            } else {
                if !self.valid(a, n as u64) {
                    return Ld::Fault;
                }
                self.rpage(a)
            };
            let p = unsafe { &*p };
            if p.s.is_none() && n <= 8 {
                if off + 8 <= PS {
                    let v = u64::from_le_bytes(p.d[off..off + 8].try_into().unwrap());
                    return Ld::C(if n == 8 { v } else { v & ((1u64 << (8 * n)) - 1) });
                }
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&p.d[off..off + n]);
                return Ld::C(u64::from_le_bytes(b));
            }
        }
        self.load_slow(a, n)
    }

    fn load_slow(&mut self, a: u64, n: usize) -> Ld {
        if !self.valid(a, n as u64) {
            return Ld::Fault;
        }
        let mut out = [Ok(0u8); 16];
        let mut sym = n > 8;
        for i in 0..n {
            let x = a + i as u64;
            let p = unsafe { &*self.rpage(x) };
            let o = x as usize & (PS - 1);
            out[i] = match &p.s {
                Some(s) if s[o] != 0 => {
                    sym = true;
                    Err(s[o])
                }
                _ => Ok(p.d[o]),
            };
        }
        if sym {
            Ld::S(out)
        } else {
            let mut v = 0u64;
            for i in 0..n {
                v |= (out[i].unwrap() as u64) << (8 * i);
            }
            Ld::C(v)
        }
    }

    pub fn byte(&mut self, a: u64) -> Result<u8, Tm> {
        let p = unsafe { &*self.rpage(a) };
        let o = a as usize & (PS - 1);
        match &p.s {
            Some(s) if s[o] != 0 => Err(s[o]),
            _ => Ok(p.d[o]),
        }
    }

    pub fn writable(&self, a: u64, n: u64) -> bool {
        if !self.valid(a, n) {
            return false;
        }
        if a < STACK_BASE {
            let i = self.ro.partition_point(|r| r.0 <= a);
            if i > 0 && a < self.ro[i - 1].1 {
                return false;
            }
        }
        true
    }

    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: u64) -> bool {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let pn = a >> PB;
            let e = &self.wt[pn as usize & (TLB - 1)];
            let p = if e.0 == pn && a >= STACK_BASE {
                e.1
            } else {
                if !self.writable(a, n as u64) {
                    return false;
                }
                self.wpage(a)
            };
            let p = unsafe { &mut *p };
            p.d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s {
                s[off..off + n].fill(0);
            }
            return true;
        }
        if !self.writable(a, n as u64) {
            return false;
        }
        for i in 0..n {
            self.set(a + i as u64, Ok((v >> (8 * i)) as u8));
        }
        true
    }

    pub fn set(&mut self, a: u64, b: Result<u8, Tm>) {
        let p = unsafe { &mut *self.wpage(a) };
        let o = a as usize & (PS - 1);
        match b {
            Ok(x) => {
                p.d[o] = x;
                if let Some(s) = &mut p.s {
                    s[o] = 0;
                }
            }
            Err(t) => {
                let s = p.s.get_or_insert_with(|| Box::new([0; PS]));
                s[o] = t;
            }
        }
    }

    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 || dst == src {
            return true;
        }
        if !self.valid(src, n) || !self.writable(dst, n) {
            return false;
        }
        let n = n as usize;
        let mut data = vec![0u8; n];
        let mut sym: Option<Vec<Tm>> = None;
        let mut i = 0;
        while i < n {
            let a = src + i as u64;
            let o = a as usize & (PS - 1);
            let k = (PS - o).min(n - i);
            let p = unsafe { &*self.rpage(a) };
            data[i..i + k].copy_from_slice(&p.d[o..o + k]);
            if let Some(s) = &p.s {
                if s[o..o + k].iter().any(|&t| t != 0) {
                    let v = sym.get_or_insert_with(|| vec![0; n]);
                    v[i..i + k].copy_from_slice(&s[o..o + k]);
                }
            }
            i += k;
        }
        i = 0;
        while i < n {
            let a = dst + i as u64;
            let o = a as usize & (PS - 1);
            let k = (PS - o).min(n - i);
            let p = unsafe { &mut *self.wpage(a) };
            p.d[o..o + k].copy_from_slice(&data[i..i + k]);
            match (&sym, &mut p.s) {
                (None, None) => {}
                (None, Some(s)) => s[o..o + k].fill(0),
                (Some(v), _) => {
                    if v[i..i + k].iter().any(|&t| t != 0) || p.s.is_some() {
                        let s = p.s.get_or_insert_with(|| Box::new([0; PS]));
                        s[o..o + k].copy_from_slice(&v[i..i + k]);
                    }
                }
            }
            i += k;
        }
        true
    }

    pub fn fill(&mut self, dst: u64, v: Result<u8, Tm>, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        if !self.writable(dst, n) {
            return false;
        }
        match v {
            Err(_) => {
                for i in 0..n {
                    self.set(dst + i, v);
                }
            }
            Ok(b) => {
                let n = n as usize;
                let mut i = 0;
                while i < n {
                    let a = dst + i as u64;
                    let o = a as usize & (PS - 1);
                    let k = (PS - o).min(n - i);
                    let p = unsafe { &mut *self.wpage(a) };
                    p.d[o..o + k].fill(b);
                    if let Some(s) = &mut p.s {
                        s[o..o + k].fill(0);
                    }
                    i += k;
                }
            }
        }
        true
    }

    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.brk + 16 + al - 1) / al * al;
        if size > HEAP_MAX || a + size > HEAP_BASE + HEAP_MAX {
            return 0;
        }
        self.brk = a + (size.max(1) + 15) / 16 * 16;
        self.store(a - 8, 8, size);
        a
    }
}
