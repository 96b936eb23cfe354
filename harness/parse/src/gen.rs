//! Independent generator of protobuf source text together with the descriptor and the source
//! locations that the language rules prescribe for it.
//!
//! Nothing here looks at the implementation: tokens are emitted one by one, with their byte
//! offsets, and the expected descriptor/locations are built alongside.
use prost_types::{
    descriptor_proto::{ExtensionRange, ReservedRange},
    enum_descriptor_proto::EnumReservedRange,
    field_descriptor_proto::{Label, Type},
    uninterpreted_option::NamePart,
    DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, EnumValueOptions, ExtensionRangeOptions, FieldDescriptorProto,
    FieldOptions, FileDescriptorProto, FileOptions, MessageOptions, MethodDescriptorProto, MethodOptions, OneofDescriptorProto, OneofOptions,
    ServiceDescriptorProto, ServiceOptions, UninterpretedOption,
};

#[derive(Clone, Copy, Debug)]
pub struct Sp {
    pub s: usize,
    pub e: usize,
}

impl Sp {
    pub fn to(self, o: Sp) -> Sp {
        Sp { s: self.s, e: o.e }
    }
}

pub struct Loc {
    pub path: Vec<i32>,
    pub sp: Sp,
}

/// Separators used between tokens, in turn.
pub static LAYOUTS: &[&[&str]] = &[
    &[" "],
    &["\n"],
    &["\n\t", " ", "\r\n  ", "\x0b", "  ", "\n\n", "\x0c "],
    &["/*c*/", " ", "// d\n", "\t", "/* e\n * f */\n"],
    &["/*\u{e9}*/", " ", "\t", "//\u{20ac}\n", " ", "/*\u{1f600}\n\u{e9}*/"],
];

pub struct G {
    pub b: Vec<u8>,
    pub nl: Vec<usize>,
    pub lay: &'static [&'static str],
    pub li: usize,
    pub locs: Vec<Loc>,
    pub path: Vec<i32>,
    pub proto3: bool,
    /// every token, for layout and truncation scenarios
    pub toks: Vec<Sp>,
    pub num: i32,
    pub uid: usize,
    pub first: bool,
    pub tight: bool,
    /// lists of many elements
    pub long: bool,
    /// how many more characters may be left symbolic
    pub budget: usize,
    /// how many more separators may be left symbolic
    pub gaps: usize,
}

/// Letters, digits and underscore.
pub static WORD: [bool; 256] = table(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_");
pub static SPACE: [bool; 256] = table(b" \t\n\r\x0b\x0c");
pub const fn table(s: &[u8]) -> [bool; 256] {
    let mut t = [false; 256];
    let mut i = 0;
    while i < s.len() {
        t[s[i] as usize] = true;
        i += 1;
    }
    t
}

static DIG: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];

pub fn dec(mut n: u64) -> String {
    let mut v: Vec<u8> = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    String::from_utf8(v).unwrap()
}

fn wordish(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.'
}

impl G {
    pub fn new(layout: usize) -> G {
        G {
            b: vec![],
            nl: vec![],
            lay: LAYOUTS[layout],
            li: 0,
            locs: vec![],
            path: vec![],
            proto3: false,
            toks: vec![],
            num: 0,
            uid: 0,
            first: true,
            tight: false,
            long: false,
            budget: 0,
            gaps: 0,
        }
    }

    /// Emit text whose newlines are known.
    pub fn raw(&mut self, t: &str) {
        for &c in t.as_bytes() {
            if c == b'\n' {
                self.nl.push(self.b.len());
            }
            self.b.push(c);
        }
    }

    pub fn sep(&mut self) {
        if self.first {
            self.first = false;
            return;
        }
        if self.gaps > 0 {
            // any single whitespace character
            self.gaps -= 1;
            let b = sym::of(&SPACE);
            if sym::fork(b == b'\n') {
                self.nl.push(self.b.len());
            }
            self.b.push(b);
            return;
        }
        let s = self.lay[self.li];
        self.li += 1;
        if self.li == self.lay.len() {
            self.li = 0;
        }
        self.raw(s);
    }

    /// A token.
    pub fn t(&mut self, t: &str) -> Sp {
        if self.tight && !self.first {
            let a = self.b[self.b.len() - 1];
            if wordish(a) && wordish(t.as_bytes()[0]) {
                self.sep();
            }
        } else {
            self.sep();
        }
        let s = self.b.len();
        self.b.extend_from_slice(t.as_bytes());
        let sp = Sp { s, e: self.b.len() };
        self.toks.push(sp);
        sp
    }

    /// A token with arbitrary (non-newline) bytes in it.
    pub fn tb(&mut self, t: &[u8]) -> Sp {
        self.sep();
        let s = self.b.len();
        self.b.extend_from_slice(t);
        let sp = Sp { s, e: self.b.len() };
        self.toks.push(sp);
        sp
    }

    /// Several tokens separated by `|`.
    pub fn ts(&mut self, t: &str) -> Sp {
        let mut sp: Option<Sp> = None;
        for p in t.split('|') {
            let x = self.t(p);
            sp = Some(match sp {
                None => x,
                Some(f) => f.to(x),
            });
        }
        sp.unwrap()
    }

    /// A (dotted, possibly absolute) name emitted as separate tokens.
    pub fn dotted(&mut self, name: &str) -> Sp {
        let mut sp: Option<Sp> = None;
        let mut rest = name;
        while !rest.is_empty() {
            let n = if rest.starts_with('.') { 1 } else { rest.find('.').unwrap_or(rest.len()) };
            let x = self.t(&rest[..n]);
            sp = Some(match sp {
                None => x,
                Some(f) => f.to(x),
            });
            rest = &rest[n..];
        }
        sp.unwrap()
    }

    pub fn loc(&mut self, tail: &[i32], sp: Sp) {
        let mut path = self.path.clone();
        path.extend_from_slice(tail);
        self.locs.push(Loc { path, sp });
    }

    pub fn push(&mut self, a: i32, b: usize) {
        self.path.push(a);
        self.path.push(b as i32);
    }
    pub fn pop(&mut self) {
        self.path.pop();
        self.path.pop();
    }

    pub fn lc(&self, off: usize) -> (i32, i32) {
        let line = self.nl.partition_point(|&n| n < off);
        let start = if line == 0 { 0 } else { self.nl[line - 1] + 1 };
        (line as i32, (off - start) as i32)
    }

    pub fn span_of(&self, sp: Sp) -> Vec<i32> {
        let (a, b) = self.lc(sp.s);
        let (c, d) = self.lc(sp.e);
        if a == c {
            vec![a, b, d]
        } else {
            vec![a, b, c, d]
        }
    }

    pub fn source(&self) -> &str {
        // every byte emitted is ASCII or part of a well-formed sequence by construction
        unsafe { std::str::from_utf8_unchecked(&self.b) }
    }

    /// A fresh number: its text and value.
    pub fn number(&mut self) -> (String, i32) {
        self.num += 1;
        let mut t = dec(self.num as u64);
        let mut v = self.num;
        if self.budget >= 2 {
            self.budget -= 2;
            for _ in 0..2 {
                let d = sym::range(b'0', b'9');
                unsafe { t.as_mut_vec() }.push(d);
                v = v * 10 + (d - b'0') as i32;
            }
        }
        (t, v)
    }

    /// A fresh identifier.
    pub fn name(&mut self, prefix: &str) -> String {
        self.uid += 1;
        let mut s = String::from(prefix);
        s.push_str(&dec(self.uid as u64));
        if self.budget > 0 {
            self.budget -= 1;
            let c = sym::of(&WORD);
            // the separator keeps names distinct
            let v = unsafe { s.as_mut_vec() };
            v.push(b'_');
            v.push(c);
        }
        s
    }
}

pub fn part(n: &str, ext: bool) -> NamePart {
    NamePart { name_part: n.to_string(), is_extension: ext }
}

pub fn ident_opt(name: &str, v: &str) -> UninterpretedOption {
    UninterpretedOption { name: vec![part(name, false)], identifier_value: Some(v.to_string()), ..Default::default() }
}

// ---- options ----------------------------------------------------------------------------

/// Emits `name = value`, one of a menu of forms; returns its span and the expected option.
pub const OPTION_FORMS: usize = 11;
pub fn option_body(g: &mut G, form: usize) -> (Sp, UninterpretedOption) {
    let mut o = UninterpretedOption::default();
    let sp = match form {
        0 => {
            let n = g.name("o");
            o.name = vec![part(&n, false)];
            o.identifier_value = Some("true".into());
            let a = g.t(&n);
            g.t("=");
            a.to(g.t("true"))
        }
        1 => {
            o.name = vec![part("a.b", true)];
            o.positive_int_value = Some(42);
            let a = g.t("(");
            g.dotted("a.b");
            g.t(")");
            g.t("=");
            a.to(g.t("42"))
        }
        2 => {
            o.name = vec![part(".x", true), part("y", false), part("z.w", true)];
            o.negative_int_value = Some(-7);
            let a = g.t("(");
            g.dotted(".x");
            g.ts(")|.|y|.|(");
            g.dotted("z.w");
            g.ts(")|=|-");
            a.to(g.t("7"))
        }
        3 => {
            let n = g.name("s");
            o.name = vec![part(&n, false)];
            o.string_value = Some(b"ab\ncd".to_vec());
            let a = g.t(&n);
            g.t("=");
            g.t("\"ab\\n\"");
            a.to(g.t("'cd'"))
        }
        4 => {
            o.name = vec![part("q", false), part("r", false)];
            o.double_value = Some(1.5);
            let a = g.t("q");
            g.ts(".|r|=");
            a.to(g.t("1.5"))
        }
        5 => {
            o.name = vec![part("m", true)];
            o.aggregate_value = Some("a : 1 b { c : - 2 }".into());
            let a = g.t("(");
            g.ts("m|)|=|{|a|:|1|b|{|c|:|-|2|}");
            a.to(g.t("}"))
        }
        6 => {
            o.name = vec![part("e", false)];
            o.aggregate_value = Some("".into());
            let a = g.t("e");
            g.ts("=|{");
            a.to(g.t("}"))
        }
        7 => {
            o.name = vec![part("d", false)];
            o.double_value = Some(-0.25);
            let a = g.t("d");
            g.ts("=|-");
            a.to(g.t(".25"))
        }
        8 => {
            o.name = vec![part("option", false)];
            o.identifier_value = Some("message".into());
            let a = g.t("option");
            g.t("=");
            a.to(g.t("message"))
        }
        9 => {
            o.name = vec![part("default", false), part("x", false)];
            o.positive_int_value = Some(0);
            let a = g.t("default");
            g.ts(".|x|=");
            a.to(g.t("0"))
        }
        _ => {
            o.name = vec![part("json_name", true)];
            o.positive_int_value = Some(18446744073709551615);
            let a = g.t("(");
            g.ts("json_name|)|=");
            a.to(g.t("0xffffffffffffffff"))
        }
    };
    (sp, o)
}

/// `option <body>;` inside a declaration whose options field has number `tag`.
pub fn option_stmt(g: &mut G, tag: i32, form: usize, out: &mut Vec<UninterpretedOption>) -> Sp {
    let a = g.t("option");
    let (_, o) = option_body(g, form);
    let sp = a.to(g.t(";"));
    g.loc(&[tag], sp);
    g.loc(&[tag, 999, out.len() as i32], sp);
    out.push(o);
    sp
}

/// `[ body, body ]`; the current path is that of the owning element.
pub fn option_list(g: &mut G, tag: i32, forms: &[usize], out: &mut Vec<UninterpretedOption>) {
    if forms.is_empty() {
        return;
    }
    let a = g.t("[");
    for (i, &f) in forms.iter().enumerate() {
        if i > 0 {
            g.t(",");
        }
        let (sp, o) = option_body(g, f);
        g.loc(&[tag, 999, out.len() as i32], sp);
        out.push(o);
    }
    let sp = a.to(g.t("]"));
    g.loc(&[tag], sp);
}

// ---- types ------------------------------------------------------------------------------

pub static SCALARS: [(&str, Type); 15] = [
    ("double", Type::Double),
    ("float", Type::Float),
    ("int32", Type::Int32),
    ("int64", Type::Int64),
    ("uint32", Type::Uint32),
    ("uint64", Type::Uint64),
    ("sint32", Type::Sint32),
    ("sint64", Type::Sint64),
    ("fixed32", Type::Fixed32),
    ("fixed64", Type::Fixed64),
    ("sfixed32", Type::Sfixed32),
    ("sfixed64", Type::Sfixed64),
    ("bool", Type::Bool),
    ("string", Type::String),
    ("bytes", Type::Bytes),
];

#[derive(Clone, Copy)]
pub enum Ty {
    S(usize),
    N(&'static str),
}

/// Emits the type; returns span, `type` and `type_name`.
pub fn ty(g: &mut G, t: Ty) -> (Sp, Option<i32>, Option<String>) {
    match t {
        Ty::S(i) => (g.t(SCALARS[i].0), Some(SCALARS[i].1 as i32), None),
        Ty::N(n) => (g.dotted(n), None, Some(n.to_string())),
    }
}

// ---- fields -----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lab {
    None,
    Optional,
    Required,
    Repeated,
}

impl Lab {
    pub fn kw(self) -> Option<&'static str> {
        match self {
            Lab::None => None,
            Lab::Optional => Some("optional"),
            Lab::Required => Some("required"),
            Lab::Repeated => Some("repeated"),
        }
    }
    pub fn val(self) -> i32 {
        (match self {
            Lab::None | Lab::Optional => Label::Optional,
            Lab::Required => Label::Required,
            Lab::Repeated => Label::Repeated,
        }) as i32
    }
}

/// Parts of a field's option list that do not stay uninterpreted options.
#[derive(Clone, Copy, PartialEq)]
pub enum Spec {
    Json,
    Default,
    Form(usize),
}

pub fn field_options(g: &mut G, list: &[Spec], f: &mut FieldDescriptorProto) {
    if list.is_empty() {
        return;
    }
    let mut out = vec![];
    let a = g.t("[");
    for (i, s) in list.iter().enumerate() {
        if i > 0 {
            g.t(",");
        }
        match s {
            Spec::Json => {
                let a = g.t("json_name");
                g.t("=");
                let v = g.t("\"jsN_1\"");
                g.loc(&[10], a.to(v));
                g.loc(&[10], v);
                f.json_name = Some("jsN_1".into());
            }
            Spec::Default => {
                g.t("default");
                g.t("=");
                let (v, s) = if f.type_name.is_some() {
                    (g.t("ENUM_V"), "ENUM_V")
                } else if f.r#type == Some(Type::String as i32) {
                    let a = g.t("'d e'");
                    (a.to(g.t("\"f\"")), "d ef")
                } else if f.r#type == Some(Type::Bool as i32) {
                    (g.t("false"), "false")
                } else {
                    (g.t("23"), "23")
                };
                g.loc(&[7], v);
                f.default_value = Some(s.into());
            }
            Spec::Form(k) => {
                let (sp, o) = option_body(g, *k);
                g.loc(&[8, 999, out.len() as i32], sp);
                out.push(o);
            }
        }
    }
    let sp = a.to(g.t("]"));
    g.loc(&[8], sp);
    if !out.is_empty() {
        f.options = Some(FieldOptions { uninterpreted_option: out, ..Default::default() });
    }
}

pub fn pascal(n: &str) -> String {
    let mut up = true;
    let mut r = String::new();
    for c in n.chars() {
        if c == '_' {
            up = true;
        } else if up {
            r.push(c.to_ascii_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r
}

/// Where fields are declared: their own tag, and the tag and list receiving nested messages.
pub struct Scope<'a> {
    pub field_tag: i32,
    pub nested_tag: i32,
    pub fields: &'a mut Vec<FieldDescriptorProto>,
    pub nested: &'a mut Vec<DescriptorProto>,
    /// fields that need a synthetic oneof
    pub synth: &'a mut Vec<usize>,
    pub in_oneof: Option<i32>,
    pub extendee: Option<(String, Sp)>,
}

#[derive(Clone)]
pub enum Kind<'a> {
    Normal(Ty),
    Map(usize, Ty),
    /// group with the given message items
    Group(&'a [usize]),
}

/// Emits one field of any kind.
pub fn field(g: &mut G, sc: &mut Scope, lab: Lab, kind: Kind, name: &str, opts: &[Spec]) {
    let idx = sc.fields.len();
    g.push(sc.field_tag, idx);
    let mut f = FieldDescriptorProto::default();
    if let Some((n, sp)) = &sc.extendee {
        f.extendee = Some(n.clone());
        let sp = *sp;
        g.loc(&[2], sp);
    }
    f.oneof_index = sc.in_oneof;
    f.label = Some(lab.val());
    let mut start: Option<Sp> = None;
    if let Some(kw) = lab.kw() {
        let sp = g.t(kw);
        start = Some(sp);
        g.loc(&[4], sp);
        if g.proto3 && lab == Lab::Optional {
            f.proto3_optional = Some(true);
            if sc.extendee.is_none() && sc.in_oneof.is_none() {
                sc.synth.push(idx);
            }
        }
    }
    let (numtext, number) = g.number();
    f.number = Some(number);
    match kind {
        Kind::Normal(t) => {
            let (sp, ty_, tn) = ty(g, t);
            g.loc(&[if tn.is_some() { 6 } else { 5 }], sp);
            f.r#type = ty_;
            f.type_name = tn;
            let start = start.unwrap_or(sp);
            f.name = Some(name.to_string());
            let n = g.t(name);
            g.loc(&[1], n);
            g.t("=");
            let n = g.t(&numtext);
            g.loc(&[3], n);
            field_options(g, opts, &mut f);
            let e = g.t(";");
            g.loc(&[], start.to(e));
            g.pop();
        }
        Kind::Map(k, v) => {
            let a = g.t("map");
            g.t("<");
            g.t(SCALARS[k].0);
            g.t(",");
            let (_, vt, vn) = ty(g, v);
            let e = g.t(">");
            g.loc(&[6], a.to(e));
            let start = start.unwrap_or(a);
            f.name = Some(name.to_string());
            f.label = Some(Label::Repeated as i32);
            f.r#type = Some(Type::Message as i32);
            let mut en = pascal(name);
            en.push_str("Entry");
            f.type_name = Some(en.clone());
            let n = g.t(name);
            g.loc(&[1], n);
            g.t("=");
            let n = g.t(&numtext);
            g.loc(&[3], n);
            field_options(g, opts, &mut f);
            let e = g.t(";");
            g.loc(&[], start.to(e));
            g.pop();
            sc.nested.push(DescriptorProto {
                name: Some(en),
                field: vec![
                    FieldDescriptorProto {
                        name: Some("key".into()),
                        json_name: Some("key".into()),
                        number: Some(1),
                        label: Some(Label::Optional as i32),
                        r#type: Some(SCALARS[k].1 as i32),
                        ..Default::default()
                    },
                    FieldDescriptorProto {
                        name: Some("value".into()),
                        json_name: Some("value".into()),
                        number: Some(2),
                        label: Some(Label::Optional as i32),
                        r#type: vt,
                        type_name: vn,
                        ..Default::default()
                    },
                ],
                options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                ..Default::default()
            });
        }
        Kind::Group(items) => {
            let a = g.t("group");
            g.loc(&[5], a);
            let start = start.unwrap_or(a);
            f.r#type = Some(Type::Group as i32);
            f.type_name = Some(name.to_string());
            f.name = Some(name.to_ascii_lowercase());
            let n = g.t(name);
            g.loc(&[1], n);
            g.loc(&[6], n);
            g.t("=");
            let num = g.t(&numtext);
            g.loc(&[3], num);
            field_options(g, opts, &mut f);
            g.t("{");
            g.pop();
            // reserve the slot: messages nested inside belong to the group itself
            let slot = sc.nested.len();
            g.push(sc.nested_tag, slot);
            g.loc(&[1], n);
            let mut m = DescriptorProto { name: Some(name.to_string()), ..Default::default() };
            body(g, &mut m, items);
            let e = g.t("}");
            g.loc(&[], start.to(e));
            g.pop();
            g.push(sc.field_tag, idx);
            g.loc(&[], start.to(e));
            g.pop();
            sc.nested.push(m);
        }
    }
    sc.fields.push(f);
}

// ---- ranges -----------------------------------------------------------------------------

/// `(start text, start, end text or "" or "max", end)`
pub type RangeSpec = (&'static str, i64, &'static str, i64);

fn range(g: &mut G, r: &RangeSpec) {
    let neg = |g: &mut G, t: &str| -> Sp {
        if let Some(d) = t.strip_prefix('-') {
            let a = g.t("-");
            a.to(g.t(d))
        } else {
            g.t(t)
        }
    };
    let a = neg(g, r.0);
    g.loc(&[1], a);
    let e = if r.2.is_empty() {
        a
    } else {
        g.t("to");
        neg(g, r.2)
    };
    g.loc(&[2], e);
    g.loc(&[], a.to(e));
}

pub static MSG_RANGES: [&[RangeSpec]; 4] = [
    &[("100", 100, "", 101)],
    &[("200", 200, "0x100", 257), ("0777", 511, "", 512)],
    &[("1000", 1000, "max", 536870912), ("300", 300, "400", 401), ("536870911", 536870911, "536870911", 536870912)],
    &[
        ("11", 11, "", 12),
        ("0x20", 32, "40", 41),
        ("50", 50, "0x33", 52),
        ("60", 60, "", 61),
        ("70", 70, "", 71),
        ("80", 80, "90", 91),
        ("0144", 100, "", 101),
        ("110", 110, "max", 536870912),
        ("4", 4, "", 5),
        ("5", 5, "6", 7),
        ("3", 3, "", 4),
    ],
];
static MANY: [&str; 11] = ["nm", "N_2", "a", "b", "_c", "D", "e9", "f", "g_", "H", "i"];
pub static ENUM_RANGES: [&[RangeSpec]; 4] = [
    &[("-5", -5, "", -5)],
    &[("-2147483648", -2147483648, "-0x10", -16), ("50", 50, "", 50)],
    &[("60", 60, "max", 2147483647), ("-3", -3, "70", 70)],
    &[
        ("-11", -11, "", -11),
        ("-0x10", -16, "-12", -12),
        ("50", 50, "0x33", 51),
        ("60", 60, "", 60),
        ("-70", -70, "", -70),
        ("80", 80, "90", 90),
        ("0144", 100, "", 100),
        ("-9", -9, "-07", -7),
        ("4", 4, "", 4),
        ("110", 110, "max", 2147483647),
    ],
];

// ---- messages ---------------------------------------------------------------------------

/// What a message item may be; see `item`.
pub const ITEMS: usize = 18;

/// Emits the items of a message body and finishes the descriptor.
pub fn body(g: &mut G, m: &mut DescriptorProto, items: &[usize]) {
    let mut synth = vec![];
    let mut opts = vec![];
    let saved = g.num;
    g.num = 0;
    for &k in items {
        item(g, m, &mut synth, &mut opts, k);
    }
    g.num = saved;
    if !opts.is_empty() {
        m.options = Some(MessageOptions { uninterpreted_option: opts, ..Default::default() });
    }
    synthetic(m, synth);
}

/// Synthetic oneofs come after the declared ones.
pub fn synthetic(m: &mut DescriptorProto, synth: Vec<usize>) {
    for i in synth {
        let f = &mut m.field[i];
        f.oneof_index = Some(m.oneof_decl.len() as i32);
        let mut n = String::from("_");
        n.push_str(f.name.as_ref().unwrap());
        m.oneof_decl.push(OneofDescriptorProto { name: Some(n), options: None });
    }
}

fn singular(g: &G) -> Lab {
    if g.proto3 {
        Lab::None
    } else {
        Lab::Optional
    }
}

pub fn item(g: &mut G, m: &mut DescriptorProto, synth: &mut Vec<usize>, opts: &mut Vec<UninterpretedOption>, k: usize) {
    macro_rules! scope {
        () => {
            Scope { field_tag: 2, nested_tag: 3, fields: &mut m.field, nested: &mut m.nested_type, synth, in_oneof: None, extendee: None }
        };
    }
    let p3 = g.proto3;
    match k {
        0 => {
            let n = g.name("f_");
            let l = singular(g);
            field(g, &mut scope!(), l, Kind::Normal(Ty::S(2)), &n, &[]);
        }
        1 => {
            let n = g.name("r");
            let o = [Spec::Form(2), Spec::Json, Spec::Form(0), Spec::Form(1), Spec::Form(4), Spec::Form(3), Spec::Form(0), Spec::Form(5), Spec::Form(2)];
            field(g, &mut scope!(), Lab::Repeated, Kind::Normal(Ty::N(".p.q.T")), &n, if g.long { &o } else { &o[..3] });
        }
        2 => {
            let n = g.name("u");
            if p3 {
                field(g, &mut scope!(), Lab::Optional, Kind::Normal(Ty::S(13)), &n, &[]);
            } else {
                field(g, &mut scope!(), Lab::Required, Kind::Normal(Ty::S(13)), &n, &[Spec::Form(4), Spec::Default]);
            }
        }
        3 => {
            let n = g.name("map_v");
            field(g, &mut scope!(), Lab::None, Kind::Map(13, Ty::N("a.B")), &n, &[Spec::Form(0)]);
        }
        4 => {
            if p3 {
                let n = g.name("M");
                field(g, &mut scope!(), Lab::None, Kind::Map(2, Ty::S(14)), &n, &[]);
            } else {
                let n = g.name("Grp");
                field(g, &mut scope!(), Lab::Optional, Kind::Group(&[0, 5, 9]), &n, &[Spec::Form(1)]);
            }
        }
        5 => {
            let n = g.name("Msg");
            let t = m.nested_type.len();
            message(g, 3, t, &n, &[0], &mut m.nested_type);
        }
        6 => {
            let n = g.name("Enm");
            let t = m.enum_type.len();
            enum_(g, 4, t, &n, &[0, 1], &mut m.enum_type);
        }
        7 => oneof(g, m, if p3 { &[0, 1] } else { &[0, 2, 1] }),
        8 => {
            let fs: &[usize] = if p3 { &[0, 3] } else { &[0, 2, 1] };
            extend(g, 6, 3, ".a.Ext", fs, &mut m.extension, &mut m.nested_type);
        }
        9 => {
            option_stmt(g, 7, 1, opts);
        }
        10 if g.long => extensions(g, m, 3, &[0, 2, 3, 1, 4, 5, 0, 9]),
        11 if g.long => reserved_ranges(g, m, 3),
        12 if g.long => reserved_names(g, &mut m.reserved_name, 10, &MANY),
        10 => extensions(g, m, 1, &[0, 2]),
        11 => reserved_ranges(g, m, 2),
        12 => reserved_names(g, &mut m.reserved_name, 10, &["nm", "N_2"]),
        13 => {
            g.t(";");
        }
        14 => {
            // keyword-named things, deep type
            let l = singular(g);
            field(g, &mut scope!(), l, Kind::Normal(Ty::N(".message.enum")), "option", &[Spec::Json, Spec::Form(9)]);
        }
        15 => {
            let n = g.name("Outer");
            let t = m.nested_type.len();
            message(g, 3, t, &n, if p3 { &[2, 5, 7, 3] } else { &[4, 5, 6, 8] }, &mut m.nested_type);
        }
        16 => {
            let n = g.name("t");
            let l = if p3 { Lab::Optional } else { Lab::Repeated };
            field(g, &mut scope!(), l, Kind::Normal(Ty::N("p.E")), &n, &[Spec::Form(5), Spec::Form(3)]);
        }
        _ => extensions(g, m, 2, &[]),
    }
}

pub fn message(g: &mut G, tag: i32, idx: usize, name: &str, items: &[usize], out: &mut Vec<DescriptorProto>) {
    g.push(tag, idx);
    let a = g.t("message");
    let n = g.t(name);
    g.loc(&[1], n);
    g.t("{");
    let mut m = DescriptorProto { name: Some(name.to_string()), ..Default::default() };
    body(g, &mut m, items);
    let e = g.t("}");
    g.loc(&[], a.to(e));
    g.pop();
    out.push(m);
}

/// items: 0 plain field, 1 named-type field with options, 2 group, 3 option statement first, 4 `;`
pub fn oneof(g: &mut G, m: &mut DescriptorProto, items: &[usize]) {
    let idx = m.oneof_decl.len();
    g.push(8, idx);
    let a = g.t("oneof");
    let name = g.name("one");
    let n = g.t(&name);
    g.loc(&[1], n);
    g.t("{");
    let mut opts = vec![];
    let path = g.path.clone();
    g.pop();
    let mut synth = vec![];
    for &k in items {
        let mut sc = Scope {
            field_tag: 2,
            nested_tag: 3,
            fields: &mut m.field,
            nested: &mut m.nested_type,
            synth: &mut synth,
            in_oneof: Some(idx as i32),
            extendee: None,
        };
        match k {
            0 => {
                let n = g.name("of");
                field(g, &mut sc, Lab::None, Kind::Normal(Ty::S(12)), &n, &[]);
            }
            1 => {
                let n = g.name("on");
                field(g, &mut sc, Lab::None, Kind::Normal(Ty::N("a.B.C")), &n, &[Spec::Form(0), Spec::Json]);
            }
            2 => {
                let n = g.name("OG");
                field(g, &mut sc, Lab::None, Kind::Group(&[0, 3]), &n, &[]);
            }
            3 => {
                let outer = std::mem::replace(&mut g.path, path.clone());
                option_stmt(g, 2, 0, &mut opts);
                g.path = outer;
            }
            _ => {
                g.t(";");
            }
        }
    }
    let e = g.t("}");
    g.push(8, idx);
    g.loc(&[], a.to(e));
    g.pop();
    m.oneof_decl.push(OneofDescriptorProto {
        name: Some(name),
        options: if opts.is_empty() { None } else { Some(OneofOptions { uninterpreted_option: opts }) },
    });
}

/// items: 0 singular scalar, 1 repeated named, 2 group (proto2), 3 proto3 optional / `optional`, 4 `;`
pub fn extend(g: &mut G, tag: i32, nested_tag: i32, extendee: &'static str, items: &[usize], ext: &mut Vec<FieldDescriptorProto>, nested: &mut Vec<DescriptorProto>) {
    let a = g.t("extend");
    let esp = g.dotted(extendee);
    g.t("{");
    let mut synth = vec![];
    for &k in items {
        let l = singular(g);
        let mut sc = Scope {
            field_tag: tag,
            nested_tag,
            fields: ext,
            nested,
            synth: &mut synth,
            in_oneof: None,
            extendee: Some((extendee.to_string(), esp)),
        };
        match k {
            0 => {
                let n = g.name("e");
                field(g, &mut sc, l, Kind::Normal(Ty::S(5)), &n, &[]);
            }
            1 => {
                let n = g.name("ex");
                field(g, &mut sc, Lab::Repeated, Kind::Normal(Ty::N(".T")), &n, &[Spec::Form(4)]);
            }
            2 => {
                let n = g.name("EG");
                field(g, &mut sc, Lab::Optional, Kind::Group(&[0, 6]), &n, &[]);
            }
            3 => {
                let n = g.name("eo");
                field(g, &mut sc, Lab::Optional, Kind::Normal(Ty::S(0)), &n, &[]);
            }
            _ => {
                g.t(";");
            }
        }
    }
    let e = g.t("}");
    g.loc(&[tag], a.to(e));
}

pub fn extensions(g: &mut G, m: &mut DescriptorProto, set: usize, forms: &[usize]) {
    let a = g.t("extensions");
    let base = m.extension_range.len();
    for (i, r) in MSG_RANGES[set].iter().enumerate() {
        if i > 0 {
            g.t(",");
        }
        g.push(5, base + i);
        range(g, r);
        g.pop();
    }
    let mut opts = vec![];
    if !forms.is_empty() {
        // the option list is shared by every range of the statement
        let mark = g.locs.len();
        g.push(5, base);
        option_list(g, 3, forms, &mut opts);
        g.pop();
        let n = g.locs.len();
        for i in 1..MSG_RANGES[set].len() {
            for j in mark..n {
                let mut path = g.locs[j].path.clone();
                let at = g.path.len() + 1;
                path[at] = (base + i) as i32;
                let sp = g.locs[j].sp;
                g.locs.push(Loc { path, sp });
            }
        }
    }
    let e = g.t(";");
    g.loc(&[5], a.to(e));
    for r in MSG_RANGES[set] {
        m.extension_range.push(ExtensionRange {
            start: Some(r.1 as i32),
            end: Some(r.3 as i32),
            options: if opts.is_empty() { None } else { Some(ExtensionRangeOptions { uninterpreted_option: opts.clone() }) },
        });
    }
}

pub fn reserved_ranges(g: &mut G, m: &mut DescriptorProto, set: usize) {
    let a = g.t("reserved");
    let base = m.reserved_range.len();
    for (i, r) in MSG_RANGES[set].iter().enumerate() {
        if i > 0 {
            g.t(",");
        }
        g.push(9, base + i);
        range(g, r);
        g.pop();
        m.reserved_range.push(ReservedRange { start: Some(r.1 as i32), end: Some(r.3 as i32) });
    }
    let e = g.t(";");
    g.loc(&[9], a.to(e));
}

pub fn reserved_names(g: &mut G, out: &mut Vec<String>, tag: i32, names: &[&str]) {
    let a = g.t("reserved");
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            g.t(",");
        }
        let mut q = String::from("\"");
        q.push_str(n);
        q.push('"');
        let sp = g.t(&q);
        g.loc(&[tag, out.len() as i32], sp);
        out.push(n.to_string());
    }
    let e = g.t(";");
    g.loc(&[tag], a.to(e));
}

// ---- enums ------------------------------------------------------------------------------

/// items: 0 value, 1 negative value with options, 2 option, 3 reserved ranges, 4 reserved names,
/// 5 `;`, 6 hex value, 7 more reserved ranges
pub const ENUM_ITEMS: usize = 8;
pub fn enum_(g: &mut G, tag: i32, idx: usize, name: &str, items: &[usize], out: &mut Vec<EnumDescriptorProto>) {
    g.push(tag, idx);
    let a = g.t("enum");
    let n = g.t(name);
    g.loc(&[1], n);
    g.t("{");
    let mut d = EnumDescriptorProto { name: Some(name.to_string()), ..Default::default() };
    let mut opts = vec![];
    for &k in items {
        match k {
            0 | 1 | 6 => {
                let vname = g.name("VAL_");
                let i = d.value.len();
                g.push(2, i);
                let n = g.t(&vname);
                g.loc(&[1], n);
                g.t("=");
                let (num, v) = match k {
                    0 => (g.t(DIG[i % 10]), (i % 10) as i32),
                    1 => {
                        let m = g.t("-");
                        (m.to(g.t("2147483648")), i32::MIN)
                    }
                    _ => (g.t("0X7fffFFFF"), i32::MAX),
                };
                g.loc(&[2], num);
                let mut vo = vec![];
                if k == 1 {
                    option_list(g, 3, if g.long { &[0, 5, 1, 2, 0, 3, 4] } else { &[0, 5] }, &mut vo);
                }
                let e = g.t(";");
                g.loc(&[], n.to(e));
                g.pop();
                d.value.push(EnumValueDescriptorProto {
                    name: Some(vname),
                    number: Some(v),
                    options: if vo.is_empty() { None } else { Some(EnumValueOptions { uninterpreted_option: vo, ..Default::default() }) },
                });
            }
            2 => {
                option_stmt(g, 3, 0, &mut opts);
            }
            3 | 7 => {
                let a = g.t("reserved");
                let set = ENUM_RANGES[if g.long { 3 } else if k == 3 { 1 } else { 2 }];
                for (i, r) in set.iter().enumerate() {
                    if i > 0 {
                        g.t(",");
                    }
                    g.push(4, d.reserved_range.len());
                    range(g, r);
                    g.pop();
                    d.reserved_range.push(EnumReservedRange { start: Some(r.1 as i32), end: Some(r.3 as i32) });
                }
                let e = g.t(";");
                g.loc(&[4], a.to(e));
            }
            4 => reserved_names(g, &mut d.reserved_name, 5, if g.long { &MANY } else { &["A", "b_c", "D9"] }),
            _ => {
                g.t(";");
            }
        }
    }
    let e = g.t("}");
    g.loc(&[], a.to(e));
    g.pop();
    if !opts.is_empty() {
        d.options = Some(EnumOptions { uninterpreted_option: opts, ..Default::default() });
    }
    out.push(d);
}

// ---- services ---------------------------------------------------------------------------

/// items: bits 0/1 streaming of input/output, bit 2 braces body, bit 3 options inside;
/// 16 option statement, 17 `;`
pub fn service(g: &mut G, idx: usize, name: &str, items: &[usize], out: &mut Vec<ServiceDescriptorProto>) {
    g.push(6, idx);
    let a = g.t("service");
    let n = g.t(name);
    g.loc(&[1], n);
    g.t("{");
    let mut d = ServiceDescriptorProto { name: Some(name.to_string()), ..Default::default() };
    let mut opts = vec![];
    for &k in items {
        if k == 16 {
            option_stmt(g, 3, 2, &mut opts);
            continue;
        }
        if k == 17 {
            g.t(";");
            continue;
        }
        let i = d.method.len();
        g.push(2, i);
        let a = g.t("rpc");
        let mname = g.name("Mth");
        let n = g.t(&mname);
        g.loc(&[1], n);
        let mut md = MethodDescriptorProto { name: Some(mname), ..Default::default() };
        g.t("(");
        if k & 1 != 0 {
            let s = g.t("stream");
            g.loc(&[5], s);
            md.client_streaming = Some(true);
        }
        let s = g.dotted(".in.Req");
        g.loc(&[2], s);
        md.input_type = Some(".in.Req".into());
        g.ts(")|returns|(");
        if k & 2 != 0 {
            let s = g.t("stream");
            g.loc(&[6], s);
            md.server_streaming = Some(true);
        }
        let s = g.dotted("out.Resp");
        g.loc(&[3], s);
        md.output_type = Some("out.Resp".into());
        g.t(")");
        let e = if k & 4 != 0 {
            g.t("{");
            if k & 8 != 0 {
                let mut mo = vec![];
                option_stmt(g, 4, 0, &mut mo);
                g.t(";");
                option_stmt(g, 4, 5, &mut mo);
                for i in 0..if g.long { 5 } else { 0 } {
                    option_stmt(g, 4, i, &mut mo);
                }
                md.options = Some(MethodOptions { uninterpreted_option: mo, ..Default::default() });
            }
            g.t("}")
        } else {
            g.t(";")
        };
        g.loc(&[], a.to(e));
        g.pop();
        d.method.push(md);
    }
    let e = g.t("}");
    g.loc(&[], a.to(e));
    g.pop();
    if !opts.is_empty() {
        d.options = Some(ServiceOptions { uninterpreted_option: opts, ..Default::default() });
    }
    out.push(d);
}

// ---- files ------------------------------------------------------------------------------

pub struct F {
    pub g: G,
    pub f: FileDescriptorProto,
    opts: Vec<UninterpretedOption>,
    start: Option<usize>,
    end: usize,
}

pub const FILE_ITEMS: usize = 13;

impl F {
    /// syntax: 0 none, 1 proto2, 2 proto3
    pub fn new(layout: usize, syntax: usize) -> F {
        let mut f = F { g: G::new(layout), f: FileDescriptorProto { name: Some("a.proto".into()), ..Default::default() }, opts: vec![], start: None, end: 0 };
        f.g.proto3 = syntax == 2;
        if syntax > 0 {
            let a = f.g.t("syntax");
            f.g.t("=");
            f.g.t(if syntax == 1 { "\"proto2\"" } else { "'proto3'" });
            let sp = a.to(f.g.t(";"));
            f.g.loc(&[12], sp);
            f.stmt(sp);
            if syntax == 2 {
                f.f.syntax = Some("proto3".into());
            }
        }
        f
    }

    pub fn stmt(&mut self, sp: Sp) {
        if self.start.is_none() {
            self.start = Some(sp.s);
        }
        self.end = sp.e;
    }

    /// Run an emitter of one file-level statement.
    pub fn with(&mut self, e: impl FnOnce(&mut G, &mut FileDescriptorProto, &mut Vec<UninterpretedOption>)) {
        let k = self.g.toks.len();
        e(&mut self.g, &mut self.f, &mut self.opts);
        if self.g.toks.len() > k {
            let sp = self.g.toks[k].to(*self.g.toks.last().unwrap());
            self.stmt(sp);
        }
    }

    pub fn item(&mut self, k: usize) {
        self.with(|g, f, opts| match k {
            0 => {
                let n = g.name("Top");
                let t = f.message_type.len();
                message(g, 4, t, &n, &[0], &mut f.message_type);
            }
            1 => {
                let n = g.name("TopE");
                let t = f.enum_type.len();
                enum_(g, 5, t, &n, &[0, 1], &mut f.enum_type);
            }
            2 => {
                let n = g.name("Srv");
                let t = f.service.len();
                service(g, t, &n, &[0, 7], &mut f.service);
            }
            3 => {
                let fs: &[usize] = if g.proto3 { &[0, 1] } else { &[0, 2, 1] };
                extend(g, 7, 4, "x.Y", fs, &mut f.extension, &mut f.message_type);
            }
            4 => {
                option_stmt(g, 8, 0, opts);
            }
            5 | 6 | 7 => {
                let a = g.t("import");
                let i = f.dependency.len() as i32;
                if k == 6 {
                    let s = g.t("public");
                    g.loc(&[10, f.public_dependency.len() as i32], s);
                    f.public_dependency.push(i);
                }
                if k == 7 {
                    let s = g.t("weak");
                    g.loc(&[11, f.weak_dependency.len() as i32], s);
                    f.weak_dependency.push(i);
                }
                let n = g.name("d/i");
                let mut q = String::from("'");
                q.push_str(&n);
                q.push('\'');
                g.t(&q);
                let e = g.t(";");
                g.loc(&[3, i], a.to(e));
                f.dependency.push(n);
            }
            8 => {
                if f.package.is_none() {
                    let a = g.t("package");
                    g.dotted("pk.g.z");
                    let e = g.t(";");
                    g.loc(&[2], a.to(e));
                    f.package = Some("pk.g.z".into());
                } else {
                    g.t(";");
                }
            }
            9 => {
                g.t(";");
            }
            10 => {
                let n = g.name("Big");
                let t = f.message_type.len();
                let its: &[usize] = if g.proto3 { &[3, 2, 5, 7] } else { &[4, 8, 5, 3] };
                message(g, 4, t, &n, its, &mut f.message_type);
            }
            11 => {
                option_stmt(g, 8, 5, opts);
            }
            _ => {
                let n = g.name("Srv");
                let t = f.service.len();
                service(g, t, &n, &[16, 15, 17, 2], &mut f.service);
            }
        });
    }

    /// Finish: root location and expected descriptor without source info.
    pub fn finish(&mut self) {
        if let Some(s) = self.start {
            self.g.locs.push(Loc { path: vec![], sp: Sp { s, e: self.end } });
        }
        if !self.opts.is_empty() {
            self.f.options = Some(FileOptions { uninterpreted_option: std::mem::take(&mut self.opts), ..Default::default() });
        }
    }
}
