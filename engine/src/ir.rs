//! Lazy parser for textual LLVM IR (the subset rustc emits after fat LTO).
use crate::expr::{konst, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => {
                let b = *n as u64 * t.bits() as u64;
                if b > 128 {
                    unsupported(&format!("vector type wider than 128 bits: {self:?}"))
                }
                b as u16
            }
            _ => unsupported(&format!("bits of {self:?}")),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size (padded to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_multiple_of(self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => unsupported("field_offset"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
}

pub struct Unsupported(pub String);
pub fn unsupported(s: &str) -> ! {
    std::panic::panic_any(Unsupported(s.to_string()))
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(E),
    Undef(Ty),
    Agg(Rc<Vec<Opd>>),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Ptr(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(&'static str, Ty, Opd, Opd),
    ICmp(&'static str, Ty, Opd, Opd),
    FCmp(&'static str, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Select(Ty, Opd, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, constant byte offset, (index, index type width, scale)
    Gep(Opd, u64, Vec<(Opd, u16, u64)>),
    Alloca(u64, u64),
    Call(Callee, Vec<(Ty, Opd)>, Ty),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    Freeze(Opd),
    AtomicRmw(&'static str, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    ExtractElem(Ty, Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct I {
    pub inst: Inst,
    pub dst: Option<u32>,
    pub dbg: u32,
}

pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Opd>)>,
    pub insts: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub variadic: bool,
    pub covered: std::cell::RefCell<Vec<u32>>,
}

pub struct Module {
    pub text: &'static str,
    pub funcs: HashMap<&'static str, (usize, usize)>,
    pub declares: HashMap<&'static str, usize>,
    pub globals: HashMap<&'static str, usize>,
    pub meta: HashMap<u32, usize>,
    parsed: HashMap<String, Rc<Func>>,
    pub addr_of: HashMap<String, u64>,
    pub name_of: HashMap<u64, String>,
    next_global: u64,
    next_func: u64,
    pub global_info: HashMap<u64, (Ty, bool)>,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x4000_0000;

static mut MODULE: *mut Module = std::ptr::null_mut();
pub fn module() -> &'static mut Module {
    unsafe { &mut *MODULE }
}

fn symbol_name(s: &str) -> (&str, usize) {
    // s starts right after @ or %
    if s.as_bytes()[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], e + 1)
    } else {
        let e = s
            .find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-')))
            .unwrap_or(s.len());
        (&s[..e], e)
    }
}

pub fn load(path: &str) {
    let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap().into_boxed_str());
    let mut m = Module {
        text,
        funcs: HashMap::new(),
        declares: HashMap::new(),
        globals: HashMap::new(),
        meta: HashMap::new(),
        parsed: HashMap::new(),
        addr_of: HashMap::new(),
        name_of: HashMap::new(),
        next_global: GLOB_BASE,
        next_func: FUNC_BASE,
        global_info: HashMap::new(),
    };
    let mut pos = 0;
    let mut open: Option<(&'static str, usize)> = None;
    for line in text.split_inclusive('\n') {
        let start = pos;
        pos += line.len();
        let b = line.as_bytes();
        match b[0] {
            b'@' => {
                let (n, _) = symbol_name(&line[1..]);
                m.globals.insert(n, start);
            }
            b'!' => {
                if b.len() > 1 && b[1].is_ascii_digit() {
                    let e = line[1..].find(' ').unwrap();
                    m.meta.insert(line[1..1 + e].parse().unwrap(), start);
                }
            }
            b'd' => {
                if line.starts_with("define ") {
                    let at = line.find('@').unwrap();
                    let (n, _) = symbol_name(&line[at + 1..]);
                    open = Some((n, start));
                } else if line.starts_with("declare ") {
                    let at = line.find('@').unwrap();
                    let (n, _) = symbol_name(&line[at + 1..]);
                    m.declares.insert(n, start);
                }
            }
            b'}' => {
                if let Some((n, s)) = open.take() {
                    m.funcs.insert(n, (s, pos));
                }
            }
            _ => {}
        }
    }
    unsafe { MODULE = Box::into_raw(Box::new(m)) }
}

// ------------------------------------------------------------------ lexer

pub struct P<'a> {
    pub s: &'a str,
    pub i: usize,
    regs: Option<&'a mut HashMap<String, u32>>,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self {
        P { s, i: 0, regs: None }
    }
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.i < b.len() && matches!(b[self.i], b' ' | b'\n' | b'\t') {
            self.i += 1;
        }
        if self.i < b.len() && b[self.i] == b';' {
            while self.i < b.len() && b[self.i] != b'\n' {
                self.i += 1;
            }
            self.ws()
        }
    }
    pub fn rest(&mut self) -> &'a str {
        self.ws();
        &self.s[self.i..]
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        let r = self.rest();
        if r.starts_with(t) {
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() {
                if let Some(c) = r.as_bytes().get(t.len()) {
                    if c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let r = self.rest();
            unsupported(&format!("IR parse: expected {t:?} at {:?} in {:?}", &r[..r.len().min(80)], &self.s[..self.s.len().min(300)]))
        }
    }
    pub fn word(&mut self) -> &'a str {
        let r = self.rest();
        let e = r
            .find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '-' | '+')))
            .unwrap_or(r.len());
        self.i += e;
        &r[..e]
    }
    fn peek_word(&mut self) -> &'a str {
        let save = self.i;
        let w = self.word();
        self.i = save;
        w
    }
    fn skip_parens(&mut self) {
        // at '('
        let b = self.s.as_bytes();
        let mut d = 0;
        loop {
            match b[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn number(&mut self) -> i128 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| {
            // u128 beyond i128
            w.parse::<u128>()
                .map(|v| v as i128)
                .unwrap_or_else(|_| unsupported(&format!("number {w:?} in {:?}", &self.s[..self.s.len().min(200)])))
        })
    }

    pub fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                while !self.eat("}") {
                    f.push(self.ty());
                    self.eat(",");
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let mut f = vec![];
                    while !self.eat("}") {
                        f.push(self.ty());
                        self.eat(",");
                    }
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.number() as u32;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.number() as u64;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => unsupported(&format!("type {w:?} in {:?}", &self.s[..self.s.len().min(200)])),
                    },
                    _ => {
                        let r = self.rest();
                        unsupported(&format!("type {w:?} at {:?}", &r[..r.len().min(80)]))
                    }
                }
            }
        };
        // function types: `void (i32, ...)` followed by callee; only consumed in call parsing
        if let Ty::Other = t {
            t = Ty::Other
        }
        t
    }

    fn reg(&mut self, name: &str) -> u32 {
        let r = self.regs.as_mut().expect("register outside function");
        let n = r.len() as u32;
        *r.entry(name.to_string()).or_insert(n)
    }

    pub fn value(&mut self, ty: &Ty) -> Opd {
        match self.peek() {
            b'%' => {
                let (n, l) = symbol_name(&self.s[self.i + 1..]);
                self.i += 1 + l;
                Opd::Reg(self.reg(n))
            }
            b'@' => {
                let (n, l) = symbol_name(&self.s[self.i + 1..]);
                self.i += 1 + l;
                Opd::C(konst(64, module().symbol_addr(n) as u128))
            }
            b'{' | b'[' | b'<' => {
                let packed = self.rest().starts_with("<{");
                let vec = self.peek() == b'<' && !packed;
                self.i += if packed { 2 } else { 1 };
                let close = match (packed, self.s.as_bytes()[self.i - 1]) {
                    (true, _) => "}>",
                    (_, b'{') => "}",
                    (_, b'[') => "]",
                    _ => ">",
                };
                let mut v = vec![];
                while !self.eat(close) {
                    let t = self.ty();
                    v.push(self.value(&t));
                    self.eat(",");
                }
                if vec {
                    // pack lanes into one bit-vector constant
                    let Ty::Vec(_, et) = ty else { unsupported("vector constant type") };
                    let w = et.bits();
                    let mut acc = 0u128;
                    for (k, o) in v.iter().enumerate() {
                        let c = match o {
                            Opd::C(e) => crate::expr::cval(*e).unwrap(),
                            Opd::Undef(_) => 0,
                            _ => unsupported("vector constant"),
                        };
                        acc |= c << (k as u32 * w as u32);
                    }
                    return Opd::C(konst(ty.bits(), acc));
                }
                Opd::Agg(Rc::new(v))
            }
            b'c' if self.rest().starts_with("c\"") => {
                self.i += 2;
                let b = self.s.as_bytes();
                let mut v = vec![];
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' {
                        let h = u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap();
                        v.push(Opd::C(konst(8, h as u128)));
                        self.i += 3;
                    } else {
                        v.push(Opd::C(konst(8, b[self.i] as u128)));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Opd::Agg(Rc::new(v))
            }
            b'!' => {
                // metadata operand
                self.i += 1;
                if self.peek() == b'{' {
                    let b = self.s.as_bytes();
                    while b[self.i] != b'}' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                Opd::Meta
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Opd::C(konst(1, 1)),
                    "false" => Opd::C(konst(1, 0)),
                    "null" => Opd::C(konst(64, 0)),
                    "undef" | "poison" => Opd::Undef(ty.clone()),
                    "zeroinitializer" => zero_of(ty),
                    "splat" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.value(&t);
                        self.expect(")");
                        let Opd::C(e) = v else { unsupported("splat") };
                        let c = crate::expr::cval(e).unwrap();
                        let Ty::Vec(n, _) = ty else { unsupported("splat") };
                        let mut acc = 0u128;
                        for k in 0..*n {
                            acc |= c << (k * t.bits() as u32);
                        }
                        Opd::C(konst(ty.bits(), acc))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.value(&t);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        match v {
                            Opd::C(e) => Opd::C(konst(t2.bits(), crate::expr::cval(e).unwrap())),
                            o => o,
                        }
                    }
                    "getelementptr" => {
                        while !self.eat("(") {
                            self.word();
                            if self.rest().starts_with("(") && !self.rest().starts_with("(i")
                                && !self.rest().starts_with("([")
                                && !self.rest().starts_with("({")
                                && !self.rest().starts_with("(<")
                                && !self.rest().starts_with("(ptr")
                            {
                                // inrange(..)
                                self.skip_parens();
                            }
                        }
                        let (b, off, idx) = self.gep_args(")");
                        let Opd::C(e) = b else { unsupported("const gep") };
                        if !idx.is_empty() {
                            unsupported("const gep idx")
                        }
                        Opd::C(konst(64, crate::expr::cval(e).unwrap().wrapping_add(off as u128)))
                    }
                    "add" | "sub" | "xor" | "or" | "and" => {
                        while !self.eat("(") {
                            self.word();
                        }
                        let t = self.ty();
                        let a = self.value(&t);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.value(&t2);
                        self.expect(")");
                        let (Opd::C(a), Opd::C(b)) = (a, b) else { unsupported("const expr") };
                        use crate::expr::{bin, Op};
                        Opd::C(bin(
                            match w {
                                "add" => Op::Add,
                                "sub" => Op::Sub,
                                "xor" => Op::Xor,
                                "or" => Op::Or,
                                _ => Op::And,
                            },
                            a,
                            b,
                        ))
                    }
                    _ => Opd::C(self.number_const(w, ty)),
                }
            }
        }
    }

    fn number_const(&mut self, w: &str, ty: &Ty) -> E {
        match ty {
            Ty::Int(n) => {
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    return konst(*n, u128::from_str_radix(h, 16).unwrap());
                }
                if w == "-" {
                    unsupported("bad int")
                }
                let v: u128 = if w.starts_with('-') {
                    w.parse::<i128>().unwrap_or_else(|_| unsupported(&format!("int {w}"))) as u128
                } else {
                    w.parse::<u128>().unwrap_or_else(|_| {
                        unsupported(&format!("int {w:?} in {:?}", &self.s[..self.s.len().min(300)]))
                    })
                };
                konst(*n, v)
            }
            Ty::F32 | Ty::F64 => {
                let is32 = *ty == Ty::F32;
                if let Some(h) = w.strip_prefix("f0x") {
                    return konst(ty.bits(), u128::from_str_radix(h, 16).unwrap());
                }
                if let Some(h) = w.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap();
                    return if is32 {
                        konst(32, (f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        konst(64, bits as u128)
                    };
                }
                let t = w.trim_start_matches('+');
                let v: f64 = match t {
                    "inf" => f64::INFINITY,
                    "-inf" => f64::NEG_INFINITY,
                    "nan" | "qnan" => f64::NAN,
                    _ => t.parse().unwrap_or_else(|_| unsupported(&format!("float {w:?}"))),
                };
                if is32 {
                    konst(32, (v as f32).to_bits() as u128)
                } else {
                    konst(64, v.to_bits() as u128)
                }
            }
            _ => unsupported(&format!("constant {w:?} of {ty:?} in {:?}", &self.s[..self.s.len().min(300)])),
        }
    }

    /// after `getelementptr flags`: `ty, ptr p, idx...`; `end` = closing token ("" = end of inst)
    fn gep_args(&mut self, end: &str) -> (Opd, u64, Vec<(Opd, u16, u64)>) {
        let mut t = self.ty();
        self.expect(",");
        let pt = self.ty();
        let base = self.value(&pt);
        let mut off = 0u64;
        let mut idx = vec![];
        let mut first = true;
        while self.eat(",") {
            if self.peek() == b'!' {
                break;
            }
            let it = self.ty();
            let v = self.value(&it);
            let scale;
            if first {
                scale = t.size();
                first = false;
            } else {
                match t.clone() {
                    Ty::Arr(_, e) => {
                        scale = e.size();
                        t = *e;
                    }
                    Ty::Struct(f, _) => {
                        let Opd::C(e) = v else { unsupported("gep struct idx") };
                        let k = crate::expr::cval(e).unwrap() as usize;
                        off = off.wrapping_add(t.field_offset(k));
                        t = f[k].clone();
                        continue;
                    }
                    _ => unsupported("gep into scalar"),
                }
            }
            match v {
                Opd::C(e) => {
                    let c = crate::expr::sext_u(crate::expr::cval(e).unwrap(), it.bits()) as i64;
                    off = off.wrapping_add((c as u64).wrapping_mul(scale));
                }
                o => idx.push((o, it.bits(), scale)),
            }
        }
        if !end.is_empty() {
            self.expect(end);
        }
        (base, off, idx)
    }

    fn skip_attrs(&mut self) {
        // parameter / return attributes before a type or value
        loop {
            match self.peek() {
                b'#' => {
                    self.i += 1;
                    self.word();
                }
                b'"' => {
                    // "key"="value"
                    let b = self.s.as_bytes();
                    self.i += 1;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.peek() == b'=' {
                        self.i += 1;
                        self.i += 1;
                        while b[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                c if c.is_ascii_alphabetic() => {
                    let save = self.i;
                    let w = self.word();
                    let is_attr = matches!(
                        w,
                        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone"
                            | "writeonly" | "zeroext" | "signext" | "inreg" | "nofree" | "returned"
                            | "immarg" | "allocptr" | "allocalign" | "swiftself" | "nest" | "noext"
                            | "dead_on_unwind" | "writable" | "captures" | "dereferenceable"
                            | "dereferenceable_or_null" | "range" | "initializes" | "sret" | "byval"
                            | "align" | "nofpclass" | "elementtype" | "dead_on_return" | "byref"
                            | "preallocated" | "inalloca" | "fastcc" | "ccc" | "coldcc" | "tailcc"
                            | "preserve_mostcc" | "preserve_nonecc" | "nnan" | "ninf" | "nsz" | "arcp"
                            | "contract" | "afn" | "reassoc" | "fast" | "internal" | "private"
                            | "hidden" | "protected" | "dso_local" | "linkonce_odr" | "weak" | "weak_odr"
                            | "default" | "unnamed_addr" | "local_unnamed_addr" | "external" | "constant_"
                            | "cc" | "available_externally" | "linkonce"
                    );
                    if !is_attr {
                        self.i = save;
                        return;
                    }
                    if self.s.as_bytes().get(self.i) == Some(&b'(') {
                        self.skip_parens();
                    } else if w == "align" || w == "cc" {
                        self.word();
                    }
                }
                _ => return,
            }
        }
    }
}

pub fn zero_of(ty: &Ty) -> Opd {
    match ty {
        Ty::Arr(n, t) => Opd::Agg(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => Opd::Agg(Rc::new(f.iter().map(zero_of).collect())),
        _ => Opd::C(konst(ty.bits(), 0)),
    }
}

fn leak(s: &str) -> &'static str {
    const K: &[&str] = &[
        "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr",
        "ashr", "fadd", "fsub", "fmul", "fdiv", "frem", "eq", "ne", "ult", "ule", "ugt", "uge",
        "slt", "sle", "sgt", "sge", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "une",
        "uno", "xchg", "max", "min", "umax", "umin", "nand", "true", "false",
    ];
    K.iter().find(|k| **k == s).copied().unwrap_or_else(|| unsupported(&format!("keyword {s:?}")))
}

impl Module {
    pub fn symbol_addr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.addr_of.get(n) {
            return a;
        }
        let addr;
        if self.funcs.contains_key(n) || self.declares.contains_key(n) {
            if let Some(&o) = self.declares.get(n) {
                let l = &self.text[o..self.text[o..].find('\n').map(|x| x + o).unwrap()];
                if l.contains("extern_weak") {
                    self.addr_of.insert(n.to_string(), 0);
                    return 0;
                }
            }
            addr = self.next_func;
            self.next_func += 16;
        } else if let Some(&o) = self.globals.get(n) {
            let end = self.text[o..].find('\n').map(|x| x + o).unwrap();
            let line = &self.text[o..end];
            let mut p = P::new(line);
            p.i += 1;
            let (_, l) = symbol_name(&line[1..]);
            p.i += l;
            p.expect("=");
            // alias?
            let mut constant = false;
            let ty;
            loop {
                let w = p.peek_word();
                match w {
                    "global" => {
                        p.word();
                        ty = p.ty();
                        break;
                    }
                    "constant" => {
                        p.word();
                        constant = true;
                        ty = p.ty();
                        break;
                    }
                    "alias" => {
                        p.word();
                        let t = p.ty();
                        p.expect(",");
                        let pt = p.ty();
                        let _ = t;
                        let Opd::C(e) = p.value(&pt) else { unsupported("alias") };
                        let a = crate::expr::cval(e).unwrap() as u64;
                        self.addr_of.insert(n.to_string(), a);
                        return a;
                    }
                    "extern_weak" => {
                        self.addr_of.insert(n.to_string(), 0);
                        return 0;
                    }
                    "" => unsupported(&format!("global {line}")),
                    _ => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            let al = ty.align().max(16);
            self.next_global = self.next_global.next_multiple_of(al.max(64));
            addr = self.next_global;
            self.next_global += ty.size() + 64;
            self.global_info.insert(addr, (ty, constant));
        } else {
            unsupported(&format!("unknown symbol {n}"))
        }
        self.addr_of.insert(n.to_string(), addr);
        self.name_of.insert(addr, n.to_string());
        addr
    }

    /// initializer of the global at `addr`: (size, constant?, initial value or None for external)
    pub fn global_init(&mut self, addr: u64) -> (Ty, bool, Option<Opd>) {
        let n = self.name_of[&addr].clone();
        let o = self.globals[n.as_str()];
        let end = self.text[o..].find('\n').map(|x| x + o).unwrap();
        let line = &self.text[o..end];
        let external = line.contains("= external ");
        let mut p = P::new(line);
        p.i += 1;
        let (_, l) = symbol_name(&line[1..]);
        p.i += l;
        p.expect("=");
        loop {
            let w = p.peek_word();
            match w {
                "global" | "constant" => {
                    p.word();
                    let ty = p.ty();
                    let v = if external { None } else { Some(p.value(&ty)) };
                    return (ty, w == "constant", v);
                }
                _ => {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                }
            }
        }
    }

    pub fn func(&mut self, n: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.parsed.get(n) {
            return Some(f.clone());
        }
        let &(s, e) = self.funcs.get(n)?;
        let text = &self.text[s..e];
        let f = Rc::new(parse_func(n, text));
        self.parsed.insert(n.to_string(), f.clone());
        Some(f)
    }
    pub fn parsed_funcs(&self) -> Vec<Rc<Func>> {
        self.parsed.values().cloned().collect()
    }
    pub fn meta_line(&self, id: u32) -> &'static str {
        match self.meta.get(&id) {
            Some(&o) => {
                let t = self.text;
                let end = t[o..].find('\n').map(|x| x + o).unwrap_or(t.len());
                &t[o..end]
            }
            None => "",
        }
    }
}

fn parse_func(name: &str, text: &str) -> Func {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let mut labels: HashMap<String, u32> = HashMap::new();
    let nl = text.find('\n').unwrap();
    let header = &text[..nl];
    // split body into blocks of logical instruction strings
    let mut raw: Vec<(String, Vec<String>)> = vec![];
    let mut body = text[nl + 1..].lines().peekable();
    let mut cur: Option<(String, Vec<String>)> = None;
    while let Some(line) = body.next() {
        if line == "}" {
            break;
        }
        if line.is_empty() || line.trim_start().starts_with(';') {
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let (n, _) = symbol_name(line);
            if let Some(c) = cur.take() {
                raw.push(c)
            }
            cur = Some((n.to_string(), vec![]));
            continue;
        }
        let mut l = line.trim().to_string();
        if l.starts_with('#') {
            continue; // debug records
        }
        let opens = |s: &str| s.starts_with("switch ") && s.trim_end().ends_with('[');
        if opens(&l) {
            for x in body.by_ref() {
                l.push(' ');
                l.push_str(x.trim());
                if x.trim().starts_with(']') {
                    break;
                }
            }
        } else if l.contains("invoke ") || (l.contains(" call ") || l.starts_with("call ")) && false {
            // `invoke ...` newline `to label ..`
            if let Some(x) = body.peek() {
                if x.trim().starts_with("to label") {
                    l.push(' ');
                    l.push_str(x.trim());
                    body.next();
                }
            }
        } else if l.contains("= landingpad") {
            while let Some(x) = body.peek() {
                let t = x.trim();
                if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                    body.next();
                } else {
                    break;
                }
            }
        }
        if cur.is_none() {
            cur = Some(("".into(), vec![]));
        }
        cur.as_mut().unwrap().1.push(l);
    }
    if let Some(c) = cur.take() {
        raw.push(c)
    }
    // parameters
    let at = header.find('@').unwrap();
    let (_, l) = symbol_name(&header[at + 1..]);
    let mut params = vec![];
    let mut variadic = false;
    let mut unnamed = 0;
    {
        let mut p = P { s: header, i: at + 1 + l, regs: Some(&mut regs) };
        p.expect("(");
        while !p.eat(")") {
            if p.eat("...") {
                variadic = true;
                continue;
            }
            p.ty();
            p.skip_attrs();
            if p.peek() == b'%' {
                let (n, l) = symbol_name(&header[p.i + 1..]);
                p.i += 1 + l;
                let n = n.to_string();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(p.reg(&n));
            } else {
                // unnamed parameter numbered implicitly
                let n = unnamed.to_string();
                unnamed += 1;
                params.push(p.reg(&n));
            }
            p.eat(",");
        }
    }
    for (k, (n, _)) in raw.iter().enumerate() {
        labels.insert(n.clone(), k as u32);
    }
    if raw[0].0.is_empty() {
        // implicit entry label is the next unnamed number; phis refer to it by number
        labels.insert(unnamed.to_string(), 0);
    }
    let mut blocks = vec![];
    for (_, lines) in raw.iter() {
        let mut b = Block { phis: vec![], insts: vec![] };
        for l in lines {
            parse_inst(l, &mut regs, &labels, &mut b);
        }
        blocks.push(b);
    }
    Func {
        name: name.to_string(),
        params,
        nregs: regs.len(),
        covered: std::cell::RefCell::new(vec![0; blocks.len()]),
        blocks,
        variadic,
    }
}

fn find_dbg(l: &str) -> u32 {
    if let Some(i) = l.rfind(", !dbg !") {
        let r = &l[i + 8..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().unwrap_or(0)
    } else {
        0
    }
}

fn parse_inst(l: &str, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>, b: &mut Block) {
    let dbg = find_dbg(l);
    let mut p = P { s: l, i: 0, regs: Some(regs) };
    let mut dst = None;
    if p.peek() == b'%' {
        let (n, len) = symbol_name(&l[p.i + 1..]);
        p.i += 1 + len;
        dst = Some(p.reg(n));
        p.expect("=");
    }
    let label = |p: &mut P| -> u32 {
        p.expect("label");
        p.ws();
        let (n, len) = symbol_name(&p.s[p.i + 1..]);
        p.i += 1 + len;
        *labels.get(n).unwrap_or_else(|| unsupported(&format!("label {n}")))
    };
    let op = p.word();
    let flags = |p: &mut P| loop {
        let w = p.peek_word();
        if matches!(
            w,
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "inbounds" | "nusw" | "volatile"
                | "atomic" | "inrange"
        ) {
            p.word();
        } else {
            break;
        }
    };
    let inst = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl"
        | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(&mut p);
            let t = p.ty();
            let x = p.value(&t);
            p.expect(",");
            let y = p.value(&t);
            Inst::Bin(leak(op), t, x, y)
        }
        "fneg" => {
            flags(&mut p);
            let t = p.ty();
            let x = p.value(&t);
            Inst::FNeg(t, x)
        }
        "icmp" | "fcmp" => {
            flags(&mut p);
            let pred = leak(p.word());
            let t = p.ty();
            let x = p.value(&t);
            p.expect(",");
            let y = p.value(&t);
            if op == "icmp" {
                Inst::ICmp(pred, t, x, y)
            } else {
                Inst::FCmp(pred, t, x, y)
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "sitofp" | "uitofp"
        | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
            flags(&mut p);
            let t = p.ty();
            let x = p.value(&t);
            p.expect("to");
            let t2 = p.ty();
            let c = match op {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => CastOp::Bit,
                "sitofp" => CastOp::SiToFp,
                "uitofp" => CastOp::UiToFp,
                "fptosi" => CastOp::FpToSi,
                "fptoui" => CastOp::FpToUi,
                "fpext" => CastOp::FpExt,
                _ => CastOp::FpTrunc,
            };
            Inst::Cast(c, t, x, t2)
        }
        "select" => {
            flags(&mut p);
            let t = p.ty();
            let c = p.value(&t);
            p.expect(",");
            let t1 = p.ty();
            let x = p.value(&t1);
            p.expect(",");
            let t2 = p.ty();
            let y = p.value(&t2);
            if matches!(t, Ty::Vec(..)) {
                Inst::Bad("vector select".into())
            } else {
                Inst::Select(t1, c, x, y)
            }
        }
        "phi" => {
            flags(&mut p);
            let t = p.ty();
            let mut m = HashMap::new();
            loop {
                p.expect("[");
                let v = p.value(&t);
                p.expect(",");
                p.ws();
                let (n, len) = symbol_name(&p.s[p.i + 1..]);
                p.i += 1 + len;
                m.insert(*labels.get(n).unwrap_or_else(|| unsupported(&format!("label {n}"))), v);
                p.expect("]");
                if !(p.eat(",") && p.peek() == b'[') {
                    break;
                }
            }
            b.phis.push((dst.unwrap(), m));
            return;
        }
        "load" => {
            flags(&mut p);
            let t = p.ty();
            p.expect(",");
            let pt = p.ty();
            let v = p.value(&pt);
            Inst::Load(t, v)
        }
        "store" => {
            flags(&mut p);
            let t = p.ty();
            let v = p.value(&t);
            p.expect(",");
            let pt = p.ty();
            let a = p.value(&pt);
            Inst::Store(t, v, a)
        }
        "getelementptr" => {
            flags(&mut p);
            let (base, off, idx) = p.gep_args("");
            Inst::Gep(base, off, idx)
        }
        "alloca" => {
            let t = p.ty();
            let mut n = 1u64;
            let mut al = t.align();
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                if p.eat("align") {
                    al = p.number() as u64;
                } else {
                    let it = p.ty();
                    match p.value(&it) {
                        Opd::C(e) => n = crate::expr::cval(e).unwrap() as u64,
                        _ => unsupported("dynamic alloca"),
                    }
                }
            }
            Inst::Alloca(t.size() * n, al)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                p.expect("call");
            }
            p.skip_attrs();
            let ret = p.ty();
            // explicit function type
            if p.peek() == b'(' {
                p.skip_parens();
            }
            p.skip_attrs();
            let callee = if p.eat("asm") {
                Callee::Direct("asm!".into())
            } else if p.peek() == b'@' {
                let (n, len) = symbol_name(&l[p.i + 1..]);
                p.i += 1 + len;
                Callee::Direct(n.into())
            } else {
                Callee::Ptr(p.value(&Ty::Ptr))
            };
            let mut args = vec![];
            if let Callee::Direct(n) = &callee {
                if &**n == "asm!" {
                    b.insts.push(I { inst: Inst::Bad(format!("inline asm: {l}")), dst, dbg });
                    return;
                }
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.assume")
                {
                    return;
                }
            }
            p.expect("(");
            while !p.eat(")") {
                let t = p.ty();
                if t == Ty::Other {
                    // metadata argument
                    p.value(&Ty::Other);
                    args.push((t, Opd::Meta));
                } else {
                    p.skip_attrs();
                    let v = p.value(&t);
                    args.push((t, v));
                }
                p.eat(",");
            }
            let call = Inst::Call(callee, args, ret);
            if op == "invoke" {
                let i = l.find(" to label ").unwrap_or_else(|| unsupported(&format!("invoke: {l}")));
                p.i = i + 4;
                let t = label(&mut p);
                b.insts.push(I { inst: call, dst, dbg });
                b.insts.push(I { inst: Inst::Br(t), dst: None, dbg });
                return;
            }
            call
        }
        "br" => {
            if p.peek_word() == "label" {
                Inst::Br(label(&mut p))
            } else {
                let t = p.ty();
                let c = p.value(&t);
                p.expect(",");
                let a = label(&mut p);
                p.expect(",");
                let d = label(&mut p);
                Inst::CondBr(c, a, d)
            }
        }
        "switch" => {
            let t = p.ty();
            let v = p.value(&t);
            p.expect(",");
            let d = label(&mut p);
            p.expect("[");
            let mut cases = vec![];
            while !p.eat("]") {
                let ct = p.ty();
                let Opd::C(c) = p.value(&ct) else { unsupported("switch case") };
                p.expect(",");
                let t = label(&mut p);
                cases.push((crate::expr::cval(c).unwrap(), t));
            }
            Inst::Switch(v, t.bits(), d, cases)
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Inst::Ret(None)
            } else {
                let v = p.value(&t);
                Inst::Ret(Some((t, v)))
            }
        }
        "unreachable" => Inst::Unreachable,
        "extractvalue" => {
            let t = p.ty();
            let v = p.value(&t);
            let mut idx = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.number() as u32);
            }
            Inst::ExtractValue(v, idx)
        }
        "insertvalue" => {
            let t = p.ty();
            let v = p.value(&t);
            p.expect(",");
            let t2 = p.ty();
            let x = p.value(&t2);
            let mut idx = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                idx.push(p.number() as u32);
            }
            Inst::InsertValue(t, v, x, idx)
        }
        "freeze" => {
            let t = p.ty();
            Inst::Freeze(p.value(&t))
        }
        "fence" => Inst::Nop,
        "atomicrmw" => {
            flags(&mut p);
            let o = p.word();
            let pt = p.ty();
            let a = p.value(&pt);
            p.expect(",");
            let t = p.ty();
            let v = p.value(&t);
            Inst::AtomicRmw(leak(o), t, a, v)
        }
        "cmpxchg" => {
            p.eat("weak");
            flags(&mut p);
            let pt = p.ty();
            let a = p.value(&pt);
            p.expect(",");
            let t = p.ty();
            let c = p.value(&t);
            p.expect(",");
            let t2 = p.ty();
            let n = p.value(&t2);
            Inst::CmpXchg(t, a, c, n)
        }
        "extractelement" => {
            let t = p.ty();
            let v = p.value(&t);
            p.expect(",");
            let it = p.ty();
            let i = p.value(&it);
            Inst::ExtractElem(t, v, i)
        }
        "insertelement" => {
            let t = p.ty();
            let v = p.value(&t);
            p.expect(",");
            let et = p.ty();
            let x = p.value(&et);
            p.expect(",");
            let it = p.ty();
            let i = p.value(&it);
            Inst::InsertElem(t, v, x, i)
        }
        "shufflevector" => {
            let t = p.ty();
            let x = p.value(&t);
            p.expect(",");
            let t2 = p.ty();
            let y = p.value(&t2);
            p.expect(",");
            let mt = p.ty();
            let Ty::Vec(n, _) = mt else { unsupported("shuffle mask") };
            let mut mask = vec![];
            if p.eat("zeroinitializer") {
                mask = vec![Some(0); n as usize];
            } else if p.eat("poison") || p.eat("undef") {
                mask = vec![None; n as usize];
            } else {
                p.expect("<");
                while !p.eat(">") {
                    p.ty();
                    if p.eat("poison") || p.eat("undef") {
                        mask.push(None);
                    } else {
                        mask.push(Some(p.number() as u32));
                    }
                    p.eat(",");
                }
            }
            Inst::Shuffle(t, x, y, mask)
        }
        _ => Inst::Bad(l.chars().take(120).collect()),
    };
    b.insts.push(I { inst, dst, dbg });
}

// ------------------------------------------------------------------ debug info

fn field<'a>(l: &'a str, f: &str) -> Option<&'a str> {
    let pat = format!("{f}: ");
    let mut from = 0;
    while let Some(i) = l[from..].find(&pat) {
        let at = from + i;
        let pre = l.as_bytes()[at - 1];
        if pre == b' ' || pre == b'(' {
            let r = &l[at + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"').unwrap_or(q.len());
                return Some(&q[..e]);
            }
            let e = r.find([',', ')']).unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = at + 1;
    }
    None
}
fn mref(s: Option<&str>) -> u32 {
    s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// (file, line, function) frames, innermost first
pub fn locate(dbg: u32) -> Vec<(String, u32, String)> {
    let m = module();
    let mut out = vec![];
    let mut d = dbg;
    while d != 0 {
        let l = m.meta_line(d);
        if l.is_empty() {
            break;
        }
        let line = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut s = mref(field(l, "scope"));
        let mut file = String::new();
        let mut func = String::new();
        while s != 0 {
            let sl = m.meta_line(s);
            if file.is_empty() {
                let fl = m.meta_line(mref(field(sl, "file")));
                if let Some(f) = field(fl, "filename") {
                    let dir = field(fl, "directory").unwrap_or("");
                    file = if f.starts_with('/') || dir.is_empty() {
                        f.to_string()
                    } else {
                        format!("{dir}/{f}")
                    };
                }
            }
            if sl.contains("DISubprogram(") {
                func = field(sl, "name").unwrap_or("").to_string();
                break;
            }
            s = mref(field(sl, "scope"));
        }
        out.push((file, line, func));
        d = mref(field(l, "inlinedAt"));
    }
    out
}
