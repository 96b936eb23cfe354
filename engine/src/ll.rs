//! Parser for textual LLVM IR (LLVM 23 flavour) producing a flat, executable form.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u64, TyId),
    Opaque,
    Meta,
}

/// Operand: `>= 0` register, `< 0` constant `!op` of the module's pool.
pub type Opd = i32;

/// Constant value.
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Int(u128),
    Agg(Vec<C>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, Opd)]>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Bitreverse,
    Bswap,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Abs,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    Ucmp,
    Scmp,
    Ident,
    IsConst,
    Trap,
    FTrunc,
    FAbs,
    FFloor,
    FCeil,
    FRint,
    FCopysign,
    FFma,
    FpToUiSat,
    FpToSiSat,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Intr(Intr, u32),
    Bin(Bop),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bop, w: u32, dst: u32, a: Opd, b: Opd },
    Cmp { pred: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    FCmp { pred: u8, f32: bool, dst: u32, a: Opd, b: Opd },
    FNeg { w: u32, dst: u32, a: Opd },
    Cast { kind: Cast, fw: u32, tw: u32, dst: u32, a: Opd },
    BitcastV { from: TyId, to: TyId, dst: u32, a: Opd },
    Copy { dst: u32, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Load { dst: u32, p: Opd, n: u32, w: u32 },
    LoadT { dst: u32, p: Opd, ty: TyId },
    Store { v: Opd, p: Opd, n: u32, w: u32 },
    StoreT { v: Opd, p: Opd, ty: TyId },
    Gep1 { dst: u32, base: Opd, off: u64 },
    Gep { dst: u32, base: Opd, off: u64, idx: Box<[(Opd, u64, u32)]> },
    Alloca { dst: u32, size: u64, align: u64, n: Opd },
    Call(Box<CallI>),
    Br(Edge),
    CondBr(Box<(Opd, Edge, Edge)>),
    Switch(Box<SwitchI>),
    Ret { v: Opd, void: bool },
    Unreachable,
    Extract { dst: u32, a: Opd, path: Box<[u32]> },
    Insert { dst: u32, a: Opd, v: Opd, path: Box<[u32]>, ty: TyId },
    ExtractElt { dst: u32, a: Opd, i: Opd },
    InsertElt { dst: u32, a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Box<[i32]>, n: u32 },
    AtomicRmw { op: u8, dst: u32, p: Opd, v: Opd, n: u32, w: u32 },
    CmpXchg { dst: u32, p: Opd, c: Opd, v: Opd, n: u32, w: u32 },
    Bad(Box<str>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Box<[Opd]>,
    /// bit width of the first argument (intrinsics)
    pub w: u32,
    pub rw: u32,
    /// continuation of an invoke
    pub normal: Option<Edge>,
}

#[derive(Clone, Debug)]
pub struct SwitchI {
    pub v: Opd,
    pub w: u32,
    pub cases: Vec<(u64, u32)>,
    pub map: HashMap<u64, u32>,
    /// edge 0 is the default
    pub edges: Vec<Edge>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub decl: bool,
    pub start: usize,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub external: bool,
}

#[derive(Default)]
pub struct DebugInfo {
    /// DILocation -> (line, scope, inlinedAt)
    pub loc: HashMap<u32, (u32, u32, u32)>,
    /// scope -> parent scope (lexical blocks)
    pub block: HashMap<u32, u32>,
    /// subprogram -> (name, linkage name, file, line)
    pub sub: HashMap<u32, (String, String, u32, u32)>,
    pub file: HashMap<u32, String>,
}

pub struct Module {
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u64>,
    aliases: HashMap<String, String>,
    pub pool: Vec<(C, TyId)>,
    poolmap: HashMap<(u64, u32), Opd>,
    pub image: Vec<u8>,
    pub gend: u64,
    pub dbg: DebugInfo,
}

pub const GBASE: u64 = 0x0010_0000;
pub const FBASE: u64 = 0x1000;

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn wsnl(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.i + 80).min(self.s.len());
            let b = self.i.saturating_sub(160);
            panic!("expected '{}' at `{}` >>> `{}`", c as char, String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn peek_word(&mut self) -> &'a str {
        let st = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = st;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (the sigil already consumed)
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            let b = self.quoted();
            String::from_utf8_lossy(&b).into_owned()
        } else {
            self.word_now().to_string()
        }
    }
    fn word_now(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn quoted(&mut self) -> Vec<u8> {
        assert_eq!(self.peek(), b'"');
        self.i += 1;
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            if c == b'"' {
                return out;
            }
            if c == b'\\' {
                if self.s[self.i] == b'\\' {
                    out.push(b'\\');
                    self.i += 1;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 2;
                }
            } else {
                out.push(c);
            }
        }
    }
    fn skip_parens(&mut self) {
        assert_eq!(self.peek(), b'(');
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.quoted();
                    continue;
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn line_end(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        if self.i < self.s.len() {
            self.i += 1;
        }
    }
    fn ty_start(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80" | "opaque")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    /// skip attribute words until a type starts
    fn skip_to_ty(&mut self) {
        loop {
            if self.ty_start() {
                return;
            }
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        self.ws();
        if self.peek() == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        if self.peek() == b'"' {
            self.quoted();
            if self.peek() == b'=' {
                self.i += 1;
                self.quoted();
            }
            return;
        }
        let w = self.word();
        if w.is_empty() {
            let e = (self.i + 80).min(self.s.len());
            let b = self.i.saturating_sub(160);
            panic!("attr expected at `{}` >>> `{}`", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
        }
        if self.peek() == b'(' {
            self.skip_parens();
        } else if w == "align" {
            self.word();
        } else if w == "addrspace" {
            self.ws();
            self.skip_parens();
        }
    }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }

    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                let a = n.next_power_of_two().min(16);
                ((n + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => {
                let (s, a) = self.size_align(*e);
                (s * n, a)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.size_align(*f);
                    let a = if *packed { 1 } else { a };
                    al = al.max(a);
                    off = (off + a - 1) / a * a + s;
                }
                ((off + al - 1) / al * al, al)
            }
            Ty::Vec(n, e) => {
                let s = match &self.types[*e as usize] {
                    Ty::Int(w) => (*w as u64 * n + 7) / 8,
                    _ => self.size_align(*e).0 * n,
                };
                (s.next_power_of_two(), s.next_power_of_two())
            }
            Ty::Void | Ty::Opaque | Ty::Meta => (0, 1),
        }
    }

    pub fn field_off(&self, t: TyId, i: u64) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.size_align(*f);
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i {
                        return (off, *f);
                    }
                    off += s;
                }
                panic!("field index")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size_align(*e).0 * i, *e),
            t => panic!("field_off {t:?}"),
        }
    }

    /// width in bits of a scalar type
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, e) => self.width(*e),
            _ => 0,
        }
    }

    fn parse_ty(&mut self, c: &mut Cur) -> TyId {
        c.ws();
        match c.peek() {
            b'{' => {
                c.i += 1;
                let mut fs = vec![];
                if !c.eat(b'}') {
                    loop {
                        fs.push(self.parse_ty(c));
                        if c.eat(b'}') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                self.ty(Ty::Struct(fs, false))
            }
            b'<' => {
                c.i += 1;
                c.ws();
                if c.peek() == b'{' {
                    let t = self.parse_ty(c);
                    c.expect(b'>');
                    let Ty::Struct(fs, _) = self.types[t as usize].clone() else { unreachable!() };
                    return self.ty(Ty::Struct(fs, true));
                }
                let n: u64 = c.word().parse().unwrap();
                assert_eq!(c.word(), "x");
                let e = self.parse_ty(c);
                c.expect(b'>');
                self.ty(Ty::Vec(n, e))
            }
            b'[' => {
                c.i += 1;
                let n: u64 = c.word().parse().unwrap();
                assert_eq!(c.word(), "x");
                let e = self.parse_ty(c);
                c.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("named type {n}"))
            }
            _ => {
                let w = c.word();
                let t = match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" => Ty::Meta,
                    "opaque" | "half" | "bfloat" | "fp128" | "x86_fp80" => Ty::Opaque,
                    _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w:?}"))),
                };
                let r = self.ty(t);
                if w == "ptr" && c.peek_word() == "addrspace" {
                    c.word();
                    c.ws();
                    c.skip_parens();
                }
                r
            }
        }
    }

    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gmap.get(n) {
            return *a;
        }
        if let Some(f) = self.fmap.get(n) {
            if self.funcs[*f as usize].weak {
                return 0;
            }
            return FBASE + 16 * *f as u64;
        }
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        panic!("unknown symbol @{n}")
    }

    /// Parse a constant of the given type; None when it is a local register.
    fn parse_const(&mut self, c: &mut Cur, t: TyId) -> C {
        c.ws();
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                C::Int(self.sym_addr(&n) as u128)
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 1;
                C::Bytes(c.quoted())
            }
            b'{' | b'[' => {
                let close = if c.peek() == b'{' { b'}' } else { b']' };
                c.i += 1;
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let et = self.parse_ty(c);
                        v.push(self.parse_const(c, et));
                        if c.eat(close) {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                C::Agg(v)
            }
            b'<' => {
                c.i += 1;
                c.ws();
                if c.peek() == b'{' {
                    let r = self.parse_const(c, t);
                    c.expect(b'>');
                    return r;
                }
                let mut v = vec![];
                loop {
                    let et = self.parse_ty(c);
                    v.push(self.parse_const(c, et));
                    if c.eat(b'>') {
                        break;
                    }
                    c.expect(b',');
                }
                C::Agg(v)
            }
            _ => {
                if c.peek() == b'+' {
                    c.i += 1;
                }
                let st = c.i;
                let mut w = c.word();
                if w.is_empty() {
                    let e = (c.i + 80).min(c.s.len());
                    panic!("constant at {}", String::from_utf8_lossy(&c.s[c.i..e]));
                }
                // floats like 1.0e+00
                if (w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-') && c.peek() == b'+' {
                    c.i += 1;
                    c.word_now();
                    w = unsafe { std::str::from_utf8_unchecked(&c.s[st..c.i]) };
                }
                let fty = matches!(self.types[t as usize], Ty::F32 | Ty::F64);
                match w {
                    "true" => C::Int(1),
                    "false" => C::Int(0),
                    "null" | "none" => C::Int(0),
                    "undef" | "poison" | "zeroinitializer" => C::Zero,
                    "splat" => {
                        c.expect(b'(');
                        let et = self.parse_ty(c);
                        let v = self.parse_const(c, et);
                        c.expect(b')');
                        let Ty::Vec(n, _) = self.types[t as usize] else { panic!("splat") };
                        C::Agg(vec![v; n as usize])
                    }
                    "getelementptr" => {
                        while !c.eat(b'(') {
                            c.skip_attr_gep();
                        }
                        let bt = self.parse_ty(c);
                        c.expect(b',');
                        let pt = self.parse_ty(c);
                        let C::Int(base) = self.parse_const0(c, pt) else { panic!() };
                        let mut addr = base as u64;
                        let mut cur = bt;
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.parse_ty(c);
                            let C::Int(v) = self.parse_const0(c, it) else { panic!() };
                            let w = self.width(it);
                            let v = if w >= 64 { v as i64 } else { ((v as i64) << (64 - w)) >> (64 - w) };
                            if first {
                                addr = addr.wrapping_add((self.size_align(cur).0 as i64).wrapping_mul(v) as u64);
                                first = false;
                            } else {
                                let (o, nt) = self.field_off(cur, v as u64);
                                addr = addr.wrapping_add(o);
                                cur = nt;
                            }
                        }
                        c.expect(b')');
                        C::Int(addr as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect(b'(');
                        let ft = self.parse_ty(c);
                        let v = self.parse_const0(c, ft);
                        assert_eq!(c.word(), "to");
                        let tt = self.parse_ty(c);
                        c.expect(b')');
                        let C::Int(x) = v else { panic!() };
                        let w = self.width(tt);
                        C::Int(if w < 128 { x & ((1u128 << w) - 1) } else { x })
                    }
                    "add" | "sub" | "xor" => {
                        while !c.eat(b'(') {
                            c.skip_attr_gep();
                        }
                        let ft = self.parse_ty(c);
                        let C::Int(a) = self.parse_const0(c, ft) else { panic!() };
                        c.expect(b',');
                        let ft = self.parse_ty(c);
                        let C::Int(b) = self.parse_const0(c, ft) else { panic!() };
                        c.expect(b')');
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        };
                        let w = self.width(ft);
                        C::Int(if w < 128 { r & ((1u128 << w) - 1) } else { r })
                    }
                    _ if fty => {
                        let bits = if let Some(h) = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x")) {
                            let b = u64::from_str_radix(h, 16).unwrap();
                            if w.starts_with('f') && h.len() <= 8 && matches!(self.types[t as usize], Ty::F32) {
                                (f32::from_bits(b as u32) as f64).to_bits()
                            } else {
                                b
                            }
                        } else {
                            let w2 = w.trim_start_matches('+');
                            match w2 {
                                "inf" => f64::INFINITY,
                                "-inf" => f64::NEG_INFINITY,
                                "qnan" | "nan" => f64::NAN,
                                "-qnan" | "-nan" => -f64::NAN,
                                _ => w2.parse::<f64>().unwrap_or_else(|_| panic!("float {w}")),
                            }
                            .to_bits()
                        };
                        if matches!(self.types[t as usize], Ty::F32) {
                            C::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                        } else {
                            C::Int(bits as u128)
                        }
                    }
                    _ => {
                        let v: i128 = w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| {
                            panic!("constant {w:?} at {}", String::from_utf8_lossy(&c.s[st.saturating_sub(100)..st + 50]))
                        }));
                        let wd = self.width(t);
                        C::Int(if wd < 128 && wd > 0 { (v as u128) & ((1u128 << wd) - 1) } else { v as u128 })
                    }
                }
            }
        }
    }

    fn parse_const0(&mut self, c: &mut Cur, t: TyId) -> C {
        match self.parse_const(c, t) {
            C::Zero => C::Int(0),
            v => v,
        }
    }

    fn pool_const(&mut self, v: C, t: TyId) -> Opd {
        if let C::Int(x) = v {
            let w = self.width(t);
            if w <= 64 {
                if let Some(&o) = self.poolmap.get(&(x as u64, w)) {
                    return o;
                }
                let o = !(self.pool.len() as i32);
                self.pool.push((v, t));
                self.poolmap.insert((x as u64, w), o);
                return o;
            }
        }
        let o = !(self.pool.len() as i32);
        self.pool.push((v, t));
        o
    }

    pub fn write_const(&self, img: &mut [u8], off: usize, v: &C, t: TyId) {
        match v {
            C::Zero => {}
            C::Bytes(b) => img[off..off + b.len()].copy_from_slice(b),
            C::Int(x) => {
                let n = self.size_align(t).0.min(16) as usize;
                img[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            C::Agg(vs) => {
                for (i, e) in vs.iter().enumerate() {
                    let (o, et) = self.field_off(t, i as u64);
                    self.write_const(img, off + o as usize, e, et);
                }
            }
        }
    }

    pub fn parse(text: &[u8]) -> Module {
        let mut m = Module {
            types: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            pool: vec![],
            poolmap: HashMap::new(),
            image: vec![],
            gend: GBASE,
            dbg: DebugInfo::default(),
        };
        // pass 0: named types; pass 1: symbols
        let mut c = Cur { s: text, i: 0 };
        let mut ginit: Vec<(usize, TyId, usize)> = vec![];
        let mut in_func = false;
        while c.i < text.len() {
            match c.peek() {
                b'%' if !in_func => {
                    c.i += 1;
                    let n = c.name();
                    c.expect(b'=');
                    c.word();
                    let t = m.parse_ty(&mut c);
                    m.named.insert(n, t);
                }
                b'@' => {
                    c.i += 1;
                    let n = c.name();
                    c.expect(b'=');
                    let mut external = false;
                    let mut weak = false;
                    let mut constant = false;
                    let mut alias = false;
                    loop {
                        let w = c.word();
                        match w {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" | "ifunc" => {
                                alias = true;
                                break;
                            }
                            "external" => external = true,
                            "extern_weak" => {
                                external = true;
                                weak = true
                            }
                            "" => panic!("global {n}"),
                            _ => {
                                if c.peek() == b'(' {
                                    c.skip_parens()
                                }
                            }
                        }
                    }
                    if alias {
                        m.parse_ty(&mut c);
                        c.expect(b',');
                        m.parse_ty(&mut c);
                        c.expect(b'@');
                        let t = c.name();
                        m.aliases.insert(n, t);
                    } else {
                        let t = m.parse_ty(&mut c);
                        let (sz, al) = m.size_align(t);
                        let al = al.max(16);
                        let addr = (m.gend + al - 1) / al * al;
                        m.gend = addr + sz.max(if external { 64 } else { 1 });
                        if !external {
                            ginit.push((m.globals.len(), t, c.i));
                        }
                        m.gmap.insert(n.clone(), if weak { 0 } else { addr });
                        m.globals.push(Global { name: n, addr, size: sz, constant, external });
                    }
                }
                b'd' if !in_func && (text[c.i..].starts_with(b"define ") || text[c.i..].starts_with(b"declare ")) => {
                    let decl = text[c.i..].starts_with(b"declare ");
                    let st = c.i;
                    let line_end = text[c.i..].iter().position(|&b| b == b'\n').map(|p| p + c.i).unwrap_or(text.len());
                    let weak = String::from_utf8_lossy(&text[c.i..(c.i + 40).min(line_end)]).contains("extern_weak");
                    c.word();
                    c.skip_to_ty();
                    m.parse_ty(&mut c);
                    c.expect(b'@');
                    let n = c.name();
                    let id = m.funcs.len() as u32;
                    m.fmap.insert(n.clone(), id);
                    m.funcs.push(Func { name: n, nregs: 0, nparams: 0, code: vec![], dbg: vec![], decl, start: st, weak });
                    in_func = !decl;
                }
                b'}' => in_func = false,
                b'!' if !in_func => {
                    m.parse_md(&mut c);
                }
                _ => {}
            }
            c.line_end();
        }
        // global initialisers
        let mut img = vec![0u8; (m.gend - GBASE) as usize + 16];
        for (gi, t, pos) in ginit {
            let mut c = Cur { s: text, i: pos };
            let v = m.parse_const(&mut c, t);
            let off = (m.globals[gi].addr - GBASE) as usize;
            m.write_const(&mut img, off, &v, t);
        }
        m.image = img;
        for f in 0..m.funcs.len() {
            if !m.funcs[f].decl {
                m.parse_func(text, f);
            }
        }
        m
    }

    fn parse_md(&mut self, c: &mut Cur) {
        c.i += 1;
        let w = c.word_now();
        let Ok(id) = w.parse::<u32>() else { return };
        if !c.eat(b'=') {
            return;
        }
        c.eat_word("distinct");
        c.ws();
        if c.peek() != b'!' {
            return;
        }
        c.i += 1;
        let kind = c.word_now();
        if !kind.starts_with("DI") {
            return;
        }
        c.expect(b'(');
        let mut line = 0;
        let mut scope = 0;
        let mut at = 0;
        let mut name = String::new();
        let mut lname = String::new();
        let mut file = 0;
        let mut fname = String::new();
        let mut dir = String::new();
        if !matches!(kind, "DILocation" | "DILexicalBlock" | "DILexicalBlockFile" | "DISubprogram" | "DIFile") {
            return;
        }
        loop {
            if c.eat(b')') {
                break;
            }
            let k = c.word();
            c.expect(b':');
            c.ws();
            let val: (u32, String) = match c.peek() {
                b'!' => {
                    c.i += 1;
                    if c.peek() == b'{' {
                        while c.peek() != b'}' {
                            c.i += 1;
                        }
                        c.i += 1;
                        (0, String::new())
                    } else {
                        (c.word_now().parse().unwrap_or(0), String::new())
                    }
                }
                b'"' => (0, String::from_utf8_lossy(&c.quoted()).into_owned()),
                _ => {
                    let mut w = c.word().parse().unwrap_or(0);
                    while c.eat(b'|') {
                        c.word();
                        w = 0;
                    }
                    (w, String::new())
                }
            };
            match k {
                "line" => line = val.0,
                "scope" => scope = val.0,
                "inlinedAt" => at = val.0,
                "name" => name = val.1,
                "linkageName" => lname = val.1,
                "file" => file = val.0,
                "filename" => fname = val.1,
                "directory" => dir = val.1,
                _ => {}
            }
            c.eat(b',');
        }
        match kind {
            "DILocation" => {
                self.dbg.loc.insert(id, (line, scope, at));
            }
            "DILexicalBlock" | "DILexicalBlockFile" => {
                self.dbg.block.insert(id, scope);
            }
            "DISubprogram" => {
                self.dbg.sub.insert(id, (name, lname, file, line));
            }
            _ => {
                let full = if fname.starts_with('/') { fname } else { format!("{dir}/{fname}") };
                self.dbg.file.insert(id, full);
            }
        }
    }

    fn parse_func(&mut self, text: &[u8], fi: usize) {
        let mut p = FParser {
            regs: HashMap::new(),
            nregs: 0,
            labels: HashMap::new(),
            blocks: vec![],
            phis: vec![],
            cur: 0,
            norder: 0,
        };
        let mut c = Cur { s: text, i: self.funcs[fi].start };
        c.word();
        c.skip_to_ty();
        self.parse_ty(&mut c);
        c.expect(b'@');
        c.name();
        c.expect(b'(');
        let mut np = 0;
        if !c.eat(b')') {
            loop {
                c.ws();
                if c.peek() == b'.' {
                    c.i += 3;
                } else {
                    self.parse_ty(&mut c);
                    loop {
                        c.ws();
                        match c.peek() {
                            b'%' | b',' | b')' => break,
                            _ => c.skip_attr(),
                        }
                    }
                    let r;
                    if c.eat(b'%') {
                        let n = c.name();
                        r = p.reg(&n);
                    } else {
                        r = p.nregs;
                        p.nregs += 1;
                    }
                    assert_eq!(r, np);
                    np += 1;
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        self.funcs[fi].nparams = np;
        c.line_end();
        // body
        let mut first = true;
        loop {
            // at line start
            if c.peek() == b'}' {
                break;
            }
            if c.peek() == b'\n' {
                c.i += 1;
                continue;
            }
            if c.peek() == b';' {
                c.line_end();
                continue;
            }
            if c.peek() != b' ' {
                // label
                let n = if c.peek() == b'"' { String::from_utf8_lossy(&c.quoted()).into_owned() } else { c.word_now().to_string() };
                c.expect(b':');
                let b = p.label(&n);
                p.start_block(b);
                first = false;
                c.line_end();
                continue;
            }
            if first {
                // unlabelled entry: numbered after the unnamed params
                let n = format!("{np}");
                let b = p.label(&n);
                p.start_block(b);
                first = false;
            }
            self.parse_inst(&mut c, &mut p);
        }
        // layout
        let nb = p.blocks.len();
        let order: Vec<usize> = {
            let mut o: Vec<usize> = (0..nb).filter(|&b| p.blocks[b].order != u32::MAX).collect();
            o.sort_by_key(|&b| p.blocks[b].order);
            o
        };
        let mut pcs = vec![u32::MAX; nb];
        let mut pc = 0u32;
        for &b in &order {
            pcs[b] = pc;
            pc += p.blocks[b].insts.len() as u32;
        }
        let mut code = Vec::with_capacity(pc as usize);
        let mut dbg = Vec::with_capacity(pc as usize);
        let phis = std::mem::take(&mut p.phis);
        let fix = |e: &mut Edge, from: usize| {
            let tgt = e.pc as usize;
            let mut copies = vec![];
            for (blk, dst, inc) in &phis[tgt] {
                debug_assert!(*blk == tgt);
                let v = inc.iter().find(|(b, _)| *b as usize == from).unwrap_or_else(|| panic!("phi incoming"));
                if v.1 != *dst as i32 {
                    copies.push((*dst, v.1));
                }
            }
            e.copies = copies.into_boxed_slice();
            e.pc = pcs[tgt];
            assert!(e.pc != u32::MAX);
        };
        for &b in &order {
            let blk = std::mem::take(&mut p.blocks[b].insts);
            for (mut i, d) in blk {
                match &mut i {
                    Inst::Br(e) => fix(e, b),
                    Inst::CondBr(x) => {
                        fix(&mut x.1, b);
                        fix(&mut x.2, b);
                    }
                    Inst::Switch(s) => {
                        for e in s.edges.iter_mut() {
                            fix(e, b)
                        }
                    }
                    Inst::Call(ci) => {
                        if let Some(e) = &mut ci.normal {
                            fix(e, b)
                        }
                    }
                    _ => {}
                }
                code.push(i);
                dbg.push(d);
            }
        }
        let f = &mut self.funcs[fi];
        f.code = code;
        f.dbg = dbg;
        f.nregs = p.nregs;
    }

    fn parse_val(&mut self, c: &mut Cur, p: &mut FParser, t: TyId) -> Opd {
        c.ws();
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return p.reg(&n) as i32;
        }
        let v = self.parse_const(c, t);
        let v = match (&v, &self.types[t as usize]) {
            (C::Zero, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) => C::Int(0),
            _ => v,
        };
        self.pool_const(v, t)
    }

    fn parse_tyval(&mut self, c: &mut Cur, p: &mut FParser) -> (TyId, Opd) {
        let t = self.parse_ty(c);
        let v = self.parse_val(c, p, t);
        (t, v)
    }

    fn parse_label(&mut self, c: &mut Cur, p: &mut FParser) -> Edge {
        c.ws();
        assert!(c.eat_word("label"), "label expected");
        c.expect(b'%');
        let n = c.name();
        Edge { pc: p.label(&n) as u32, copies: Box::new([]) }
    }

    fn parse_inst(&mut self, c: &mut Cur, p: &mut FParser) {
        c.ws();
        let line_start = c.i;
        let mut dst: Option<u32> = None;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            dst = Some(p.reg(&n));
            c.expect(b'=');
        }
        if c.peek() == b'#' {
            c.line_end();
            return;
        }
        let d = dst.unwrap_or(0);
        let mut op = c.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let bin = |s: &str| -> Option<Bop> {
            Some(match s {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "urem" => Bop::URem,
                "sdiv" => Bop::SDiv,
                "srem" => Bop::SRem,
                "shl" => Bop::Shl,
                "lshr" => Bop::LShr,
                "ashr" => Bop::AShr,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                "fadd" => Bop::FAdd,
                "fsub" => Bop::FSub,
                "fmul" => Bop::FMul,
                "fdiv" => Bop::FDiv,
                "frem" => Bop::FRem,
                _ => return None,
            })
        };
        let inst: Inst;
        if let Some(b) = bin(op) {
            c.skip_to_ty();
            let t = self.parse_ty(c);
            let a = self.parse_val(c, p, t);
            c.expect(b',');
            let bb = self.parse_val(c, p, t);
            inst = Inst::Bin { op: b, w: self.width(t), dst: d, a, b: bb };
        } else {
            inst = match op {
                "icmp" => {
                    let mut w = c.word();
                    if w == "samesign" {
                        w = c.word();
                    }
                    let pred = match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("icmp {w}"),
                    };
                    let t = self.parse_ty(c);
                    let a = self.parse_val(c, p, t);
                    c.expect(b',');
                    let b = self.parse_val(c, p, t);
                    Inst::Cmp { pred, w: self.width(t), dst: d, a, b }
                }
                "fcmp" => {
                    let names = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                    let mut w = c.word();
                    while !names.contains(&w) {
                        w = c.word();
                    }
                    let pred = names.iter().position(|x| *x == w).unwrap() as u8;
                    let t = self.parse_ty(c);
                    let a = self.parse_val(c, p, t);
                    c.expect(b',');
                    let b = self.parse_val(c, p, t);
                    Inst::FCmp { pred, f32: matches!(self.types[t as usize], Ty::F32), dst: d, a, b }
                }
                "fneg" => {
                    c.skip_to_ty();
                    let t = self.parse_ty(c);
                    let a = self.parse_val(c, p, t);
                    Inst::FNeg { w: self.width(t), dst: d, a }
                }
                "freeze" => {
                    let (_, a) = self.parse_tyval(c, p);
                    Inst::Copy { dst: d, a }
                }
                "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                    c.skip_to_ty();
                    let (ft, a) = self.parse_tyval(c, p);
                    assert_eq!(c.word(), "to");
                    let tt = self.parse_ty(c);
                    let kind = match op {
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        "trunc" => Cast::Trunc,
                        "fptoui" => Cast::FpToUi,
                        "fptosi" => Cast::FpToSi,
                        "uitofp" => Cast::UiToFp,
                        "sitofp" => Cast::SiToFp,
                        "fptrunc" => Cast::FpTrunc,
                        "fpext" => Cast::FpExt,
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                            let (f, t) = (self.width(ft), self.width(tt));
                            if f > t {
                                Cast::Trunc
                            } else if f < t {
                                Cast::Zext
                            } else {
                                Cast::Bitcast
                            }
                        }
                        _ => Cast::Bitcast,
                    };
                    let isv = |t: &Ty| matches!(t, Ty::Vec(..));
                    if kind == Cast::Bitcast {
                        if isv(&self.types[ft as usize]) || isv(&self.types[tt as usize]) {
                            Inst::BitcastV { from: ft, to: tt, dst: d, a }
                        } else {
                            Inst::Copy { dst: d, a }
                        }
                    } else {
                        Inst::Cast { kind, fw: self.width(ft), tw: self.width(tt), dst: d, a }
                    }
                }
                "select" => {
                    c.skip_to_ty();
                    let (_, cc) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (t, a) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, b) = self.parse_tyval(c, p);
                    let w = match self.types[t as usize] {
                        Ty::Struct(..) | Ty::Arr(..) => 0,
                        _ => self.width(t),
                    };
                    Inst::Select { dst: d, c: cc, a, b, w }
                }
                "load" => {
                    c.skip_to_ty();
                    let t = self.parse_ty(c);
                    c.expect(b',');
                    let (_, ptr) = self.parse_tyval(c, p);
                    match self.types[t as usize] {
                        Ty::Int(w) if w <= 64 => Inst::Load { dst: d, p: ptr, n: (w + 7) / 8, w },
                        Ty::Ptr | Ty::F64 => Inst::Load { dst: d, p: ptr, n: 8, w: 64 },
                        Ty::F32 => Inst::Load { dst: d, p: ptr, n: 4, w: 32 },
                        _ => Inst::LoadT { dst: d, p: ptr, ty: t },
                    }
                }
                "store" => {
                    c.skip_to_ty();
                    let (t, v) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, ptr) = self.parse_tyval(c, p);
                    match self.types[t as usize] {
                        Ty::Int(w) if w <= 64 => Inst::Store { v, p: ptr, n: (w + 7) / 8, w },
                        Ty::Ptr | Ty::F64 => Inst::Store { v, p: ptr, n: 8, w: 64 },
                        Ty::F32 => Inst::Store { v, p: ptr, n: 4, w: 32 },
                        _ => Inst::StoreT { v, p: ptr, ty: t },
                    }
                }
                "getelementptr" => {
                    c.skip_to_ty_gep();
                    let bt = self.parse_ty(c);
                    c.expect(b',');
                    let (pt, base) = self.parse_tyval(c, p);
                    if matches!(self.types[pt as usize], Ty::Vec(..)) {
                        panic!("vector gep");
                    }
                    let mut off = 0u64;
                    let mut idx = vec![];
                    let mut cur = bt;
                    let mut first = true;
                    loop {
                        c.ws();
                        // stop at metadata
                        let save = c.i;
                        if !c.eat(b',') {
                            break;
                        }
                        c.ws();
                        if c.peek() == b'!' {
                            c.i = save;
                            break;
                        }
                        let (it, v) = self.parse_tyval(c, p);
                        let w = self.width(it);
                        let scale;
                        let cst = if v < 0 {
                            match &self.pool[!v as usize].0 {
                                C::Int(x) => Some(if w >= 64 { *x as i64 } else { ((*x as i64) << (64 - w)) >> (64 - w) }),
                                _ => panic!("gep idx"),
                            }
                        } else {
                            None
                        };
                        if first {
                            scale = self.size_align(cur).0;
                            first = false;
                        } else if let Ty::Struct(..) = self.types[cur as usize] {
                            let (o, nt) = self.field_off(cur, cst.unwrap() as u64);
                            off = off.wrapping_add(o);
                            cur = nt;
                            continue;
                        } else {
                            let (o, nt) = self.field_off(cur, 1);
                            scale = o;
                            cur = nt;
                        }
                        match cst {
                            Some(k) => off = off.wrapping_add((scale as i64).wrapping_mul(k) as u64),
                            None => idx.push((v, scale, w)),
                        }
                    }
                    if idx.is_empty() {
                        Inst::Gep1 { dst: d, base, off }
                    } else {
                        Inst::Gep { dst: d, base, off, idx: idx.into_boxed_slice() }
                    }
                }
                "alloca" => {
                    c.skip_to_ty();
                    let t = self.parse_ty(c);
                    let (s, a) = self.size_align(t);
                    let one = {
                        let i64t = self.ty(Ty::Int(64));
                        self.pool_const(C::Int(1), i64t)
                    };
                    let mut n = one;
                    let mut al = a.max(1);
                    loop {
                        let save = c.i;
                        if !c.eat(b',') {
                            break;
                        }
                        c.ws();
                        if c.peek() == b'!' {
                            c.i = save;
                            break;
                        }
                        if c.eat_word("align") {
                            al = al.max(c.word().parse().unwrap());
                        } else if c.ty_start() {
                            let (_, v) = self.parse_tyval(c, p);
                            n = v;
                        } else {
                            c.skip_attr();
                        }
                    }
                    Inst::Alloca { dst: d, size: s, align: al, n }
                }
                "call" | "invoke" => self.parse_call(c, p, dst, op == "invoke"),
                "br" => {
                    c.ws();
                    if c.peek_word() == "label" {
                        Inst::Br(self.parse_label(c, p))
                    } else {
                        let (_, v) = self.parse_tyval(c, p);
                        c.expect(b',');
                        let t = self.parse_label(c, p);
                        c.expect(b',');
                        let f = self.parse_label(c, p);
                        Inst::CondBr(Box::new((v, t, f)))
                    }
                }
                "switch" => {
                    let (t, v) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let def = self.parse_label(c, p);
                    c.expect(b'[');
                    let mut edges = vec![def];
                    let mut cases = vec![];
                    loop {
                        c.wsnl();
                        if c.eat(b']') {
                            break;
                        }
                        let et = self.parse_ty(c);
                        let C::Int(k) = self.parse_const0(c, et) else { panic!() };
                        c.expect(b',');
                        let e = self.parse_label(c, p);
                        let ei = match edges.iter().position(|x| x.pc == e.pc) {
                            Some(i) => i,
                            None => {
                                edges.push(e);
                                edges.len() - 1
                            }
                        };
                        cases.push((k as u64, ei as u32));
                    }
                    let map = cases.iter().cloned().collect();
                    Inst::Switch(Box::new(SwitchI { v, w: self.width(t), cases, map, edges }))
                }
                "ret" => {
                    let t = self.parse_ty(c);
                    if self.types[t as usize] == Ty::Void {
                        Inst::Ret { v: 0, void: true }
                    } else {
                        let v = self.parse_val(c, p, t);
                        Inst::Ret { v, void: false }
                    }
                }
                "unreachable" => Inst::Unreachable,
                "resume" => {
                    let _ = self.parse_tyval(c, p);
                    Inst::Unreachable
                }
                "landingpad" => {
                    self.parse_ty(c);
                    c.line_end();
                    // clause lines
                    loop {
                        let save = c.i;
                        c.ws();
                        let w = c.peek_word();
                        if matches!(w, "cleanup" | "catch" | "filter") {
                            c.line_end();
                        } else {
                            c.i = save;
                            break;
                        }
                    }
                    p.push(Inst::Unreachable, 0);
                    return;
                }
                "phi" => {
                    c.skip_to_ty();
                    let t = self.parse_ty(c);
                    let mut inc = vec![];
                    loop {
                        c.expect(b'[');
                        let v = self.parse_val(c, p, t);
                        c.expect(b',');
                        c.expect(b'%');
                        let n = c.name();
                        let b = p.label(&n);
                        c.expect(b']');
                        inc.push((b as u32, v));
                        let save = c.i;
                        if !c.eat(b',') {
                            break;
                        }
                        c.ws();
                        if c.peek() == b'!' {
                            c.i = save;
                            break;
                        }
                    }
                    let cb = p.cur;
                    p.phis[cb].push((cb, d, inc));
                    c.line_end();
                    return;
                }
                "extractvalue" => {
                    let (_, a) = self.parse_tyval(c, p);
                    let path = parse_path(c);
                    Inst::Extract { dst: d, a, path }
                }
                "insertvalue" => {
                    let (ty, a) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, v) = self.parse_tyval(c, p);
                    let path = parse_path(c);
                    Inst::Insert { dst: d, a, v, path, ty }
                }
                "extractelement" => {
                    let (_, a) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, i) = self.parse_tyval(c, p);
                    Inst::ExtractElt { dst: d, a, i }
                }
                "insertelement" => {
                    let (t, a) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, v) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, i) = self.parse_tyval(c, p);
                    let Ty::Vec(n, _) = self.types[t as usize] else { panic!() };
                    Inst::InsertElt { dst: d, a, v, i, n: n as u32 }
                }
                "shufflevector" => {
                    let (t, a) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, b) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let mt = self.parse_ty(c);
                    let mv = self.parse_const(c, mt);
                    let Ty::Vec(n, _) = self.types[t as usize] else { panic!() };
                    let Ty::Vec(mn, _) = self.types[mt as usize] else { panic!() };
                    let mask: Vec<i32> = match mv {
                        C::Zero => vec![0; mn as usize],
                        C::Agg(v) => v.iter().map(|x| if let C::Int(k) = x { *k as u32 as i32 } else { 0 }).collect(),
                        _ => panic!(),
                    };
                    Inst::Shuffle { dst: d, a, b, mask: mask.into_boxed_slice(), n: n as u32 }
                }
                "atomicrmw" => {
                    c.eat_word("volatile");
                    let o = c.word();
                    let o = match o {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        "umax" => 6,
                        "umin" => 7,
                        "max" => 8,
                        "min" => 9,
                        "nand" => 10,
                        _ => panic!("atomicrmw {o}"),
                    };
                    let (_, ptr) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (t, v) = self.parse_tyval(c, p);
                    let w = self.width(t);
                    Inst::AtomicRmw { op: o, dst: d, p: ptr, v, n: (w + 7) / 8, w }
                }
                "cmpxchg" => {
                    c.eat_word("weak");
                    c.eat_word("volatile");
                    let (_, ptr) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (t, cc) = self.parse_tyval(c, p);
                    c.expect(b',');
                    let (_, v) = self.parse_tyval(c, p);
                    let w = self.width(t);
                    Inst::CmpXchg { dst: d, p: ptr, c: cc, v, n: (w + 7) / 8, w }
                }
                "fence" => {
                    c.line_end();
                    return;
                }
                _ => {
                    let e = text_line(c, line_start);
                    Inst::Bad(e.into())
                }
            };
        }
        // debug location
        let mut dbg = 0;
        let st = c.i;
        c.line_end();
        let rest = &c.s[st..c.i];
        if let Some(k) = find(rest, b"!dbg !") {
            let mut j = k + 6;
            while j < rest.len() && rest[j].is_ascii_digit() {
                dbg = dbg * 10 + (rest[j] - b'0') as u32;
                j += 1;
            }
        }
        p.push(inst, dbg);
    }

    fn parse_call(&mut self, c: &mut Cur, p: &mut FParser, dst: Option<u32>, invoke: bool) -> Inst {
        c.skip_to_ty();
        let rt = self.parse_ty(c);
        c.ws();
        if c.peek() == b'(' {
            c.skip_parens();
            c.ws();
        }
        if c.eat_word("asm") {
            while !matches!(c.peek(), b'"') {
                c.i += 1;
            }
            c.quoted();
            c.expect(b',');
            c.ws();
            c.quoted();
        }
        c.ws();
        let mut fname: Option<String> = None;
        let mut ind: Opd = 0;
        let mut asm = false;
        if c.peek() == b'@' {
            c.i += 1;
            fname = Some(c.name());
        } else if c.peek() == b'%' {
            let pt = self.ty(Ty::Ptr);
            ind = self.parse_val(c, p, pt);
        } else if c.peek() == b'(' {
            asm = true;
        } else {
            let pt = self.ty(Ty::Ptr);
            ind = self.parse_val(c, p, pt);
        }
        c.expect(b'(');
        let mut args = vec![];
        let mut w0 = 0;
        if !c.eat(b')') {
            loop {
                let t = self.parse_ty(c);
                if self.types[t as usize] == Ty::Meta {
                    // metadata operand
                    let mut d = 0;
                    loop {
                        match c.peek() {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' if d > 0 => d -= 1,
                            b')' | b',' if d == 0 => break,
                            b'"' => {
                                c.quoted();
                                continue;
                            }
                            _ => {}
                        }
                        c.i += 1;
                    }
                } else {
                    loop {
                        c.ws();
                        let b = c.peek();
                        if b == b'%' || b == b'@' || b == b'{' || b == b'[' || b == b'<' || b == b'-' || b == b'+' || b.is_ascii_digit() {
                            break;
                        }
                        if b == b'c' && c.s.get(c.i + 1) == Some(&b'"') {
                            break;
                        }
                        let w = c.peek_word();
                        if matches!(
                            w,
                            "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "splat" | "add" | "sub" | "xor" | "trunc" | "inf" | "nan" | "qnan"
                        ) {
                            break;
                        }
                        if w.starts_with("f0x") {
                            break;
                        }
                        c.skip_attr();
                    }
                    let v = self.parse_val(c, p, t);
                    if args.is_empty() {
                        w0 = self.width(t);
                    }
                    args.push(v);
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            // ... to label %x unwind label %y (next line)
            loop {
                c.wsnl();
                if c.peek_word() == "to" {
                    c.word();
                    break;
                }
                c.skip_attr();
            }
            normal = Some(self.parse_label(c, p));
            c.wsnl();
            assert_eq!(c.word(), "unwind");
            self.parse_label(c, p);
        }
        let rw = self.width(rt);
        let dst = if self.types[rt as usize] == Ty::Void { None } else { dst };
        let callee = if asm {
            Callee::Asm
        } else if let Some(n) = fname {
            if n.starts_with("llvm.") {
                self.intrinsic(&n)
            } else {
                let mut n = n;
                while let Some(a) = self.aliases.get(&n) {
                    n = a.clone();
                }
                Callee::Func(*self.fmap.get(&n).unwrap_or_else(|| panic!("callee {n}")))
            }
        } else {
            Callee::Ind(ind)
        };
        Inst::Call(Box::new(CallI { dst, callee, args: args.into_boxed_slice(), w: w0, rw, normal }))
    }

    fn intrinsic(&mut self, n: &str) -> Callee {
        let id = *self.fmap.get(n).unwrap_or(&0);
        let b = &n[5..];
        let i = if b.starts_with("memcpy") || b.starts_with("memmove") {
            Intr::Memcpy
        } else if b.starts_with("memset") {
            Intr::Memset
        } else if b.starts_with("assume") || b.starts_with("lifetime") || b.starts_with("experimental.noalias") || b.starts_with("dbg") || b.starts_with("x86.sse2.pause") || b.starts_with("prefetch") || b.starts_with("donothing") || b.starts_with("va_") {
            Intr::Nop
        } else if b.starts_with("bitreverse") {
            Intr::Bitreverse
        } else if b.starts_with("bswap") {
            Intr::Bswap
        } else if b.starts_with("ctlz") {
            Intr::Ctlz
        } else if b.starts_with("cttz") {
            Intr::Cttz
        } else if b.starts_with("ctpop") {
            Intr::Ctpop
        } else if b.starts_with("fshl") {
            Intr::Fshl
        } else if b.starts_with("fshr") {
            Intr::Fshr
        } else if b.starts_with("abs.") {
            Intr::Abs
        } else if b.starts_with("uadd.with") {
            Intr::AddO(false)
        } else if b.starts_with("sadd.with") {
            Intr::AddO(true)
        } else if b.starts_with("usub.with") {
            Intr::SubO(false)
        } else if b.starts_with("ssub.with") {
            Intr::SubO(true)
        } else if b.starts_with("umul.with") {
            Intr::MulO(false)
        } else if b.starts_with("smul.with") {
            Intr::MulO(true)
        } else if b.starts_with("ucmp") {
            Intr::Ucmp
        } else if b.starts_with("scmp") {
            Intr::Scmp
        } else if b.starts_with("threadlocal.address") || b.starts_with("expect") || b.starts_with("launder") || b.starts_with("ssa.copy") {
            Intr::Ident
        } else if b.starts_with("is.constant") {
            Intr::IsConst
        } else if b.starts_with("trap") || b.starts_with("ubsantrap") || b.starts_with("debugtrap") {
            Intr::Trap
        } else if b.starts_with("trunc.f") {
            Intr::FTrunc
        } else if b.starts_with("fabs") {
            Intr::FAbs
        } else if b.starts_with("floor") {
            Intr::FFloor
        } else if b.starts_with("ceil") {
            Intr::FCeil
        } else if b.starts_with("rint") || b.starts_with("nearbyint") || b.starts_with("roundeven") {
            Intr::FRint
        } else if b.starts_with("copysign") {
            Intr::FCopysign
        } else if b.starts_with("fma.") || b.starts_with("fmuladd") {
            Intr::FFma
        } else if b.starts_with("fptoui.sat") {
            Intr::FpToUiSat
        } else if b.starts_with("fptosi.sat") {
            Intr::FpToSiSat
        } else if b.starts_with("vector.reduce.or") {
            Intr::VecReduceOr
        } else if b.starts_with("vector.reduce.and") {
            Intr::VecReduceAnd
        } else if b.starts_with("vector.reduce.add") {
            Intr::VecReduceAdd
        } else if b.starts_with("umin") {
            return Callee::Bin(Bop::UMin);
        } else if b.starts_with("umax") {
            return Callee::Bin(Bop::UMax);
        } else if b.starts_with("smin") {
            return Callee::Bin(Bop::SMin);
        } else if b.starts_with("smax") {
            return Callee::Bin(Bop::SMax);
        } else if b.starts_with("uadd.sat") {
            return Callee::Bin(Bop::UAddSat);
        } else if b.starts_with("usub.sat") {
            return Callee::Bin(Bop::USubSat);
        } else if b.starts_with("sadd.sat") {
            return Callee::Bin(Bop::SAddSat);
        } else if b.starts_with("ssub.sat") {
            return Callee::Bin(Bop::SSubSat);
        } else {
            Intr::Unknown
        };
        Callee::Intr(i, id)
    }
}

impl<'a> Cur<'a> {
    fn skip_attr_gep(&mut self) {
        self.ws();
        let w = self.word();
        if w == "inrange" {
            self.ws();
            self.skip_parens();
        }
        assert!(!w.is_empty());
    }
    fn skip_to_ty_gep(&mut self) {
        loop {
            if self.ty_start() {
                return;
            }
            self.skip_attr_gep();
        }
    }
}

fn text_line(c: &Cur, st: usize) -> String {
    let e = c.s[st..].iter().position(|&b| b == b'\n').map(|p| p + st).unwrap_or(c.s.len());
    String::from_utf8_lossy(&c.s[st..e]).into_owned()
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).rev().find(|&i| &h[i..i + n.len()] == n)
}

fn parse_path(c: &mut Cur) -> Box<[u32]> {
    let mut v = vec![];
    loop {
        let save = c.i;
        if !c.eat(b',') {
            break;
        }
        c.ws();
        if !c.peek().is_ascii_digit() {
            c.i = save;
            break;
        }
        v.push(c.word().parse().unwrap());
    }
    v.into_boxed_slice()
}

struct Blk {
    insts: Vec<(Inst, u32)>,
    order: u32,
}

struct FParser {
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, usize>,
    blocks: Vec<Blk>,
    phis: Vec<Vec<(usize, u32, Vec<(u32, Opd)>)>>,
    cur: usize,
    norder: u32,
}

impl FParser {
    fn start_block(&mut self, b: usize) {
        self.blocks[b].order = self.norder;
        self.norder += 1;
        self.cur = b;
    }
    fn push(&mut self, i: Inst, dbg: u32) {
        self.blocks[self.cur].insts.push((i, dbg));
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> usize {
        if let Some(&b) = self.labels.get(n) {
            return b;
        }
        let b = self.blocks.len();
        self.blocks.push(Blk { insts: vec![], order: u32::MAX });
        self.phis.push(vec![]);
        self.labels.insert(n.to_string(), b);
        b
    }
}

impl Module {
    /// Replace the standard library's SipHash by a constant function: every exclusive-or inside it
    /// yields zero, so every hash is zero. Any function is a legal hash, only the (random) order of
    /// probing and iteration depends on it.
    pub fn constant_hashes(&mut self) -> usize {
        let mut n = 0;
        for f in &mut self.funcs {
            for pc in 0..f.code.len() {
                let Inst::Bin { op: Bop::Xor, w: 64, a, b, .. } = &mut f.code[pc] else { continue };
                let Some(&(_, mut s, _)) = self.dbg.loc.get(&f.dbg[pc]) else { continue };
                for _ in 0..64 {
                    if let Some((_, l, _, _)) = self.dbg.sub.get(&s) {
                        if l.contains("4hash3sip") {
                            *b = *a;
                            n += 1;
                        }
                        break;
                    }
                    match self.dbg.block.get(&s) {
                        Some(&p) => s = p,
                        None => break,
                    }
                }
            }
        }
        n
    }
}
