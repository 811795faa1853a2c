//! Hash-consed bit-vector / float expression DAG with simplification and concrete evaluation.
//! Every value is a bit-vector of 1..=128 bits (floats are carried as their IEEE bits).
use std::collections::{BTreeMap, HashMap};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[allow(clippy::upper_case_acronyms)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    // floats: width of node = width of result
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FEq,
    FLt,
    FLe,
    FIsNan,
    SToF,
    UToF,
    FToSSat,
    FToUSat,
    FExt,
    FTrunc,
    FRoundAway,
    FRoundEven,
    FFloor,
    FCeil,
    FTruncI,
    FSqrt,
    /// uninterpreted (k = function id): exp, pow, ...
    FUn,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    /// constant value / extract low bit / variable index / function id
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    /// contains float arithmetic
    pub has_fp: Vec<bool>,
    pub table: HashMap<Node, E>,
    pub var_names: Vec<String>,
    pub var_nodes: Vec<E>,
    pub varset: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub avarset: HashMap<E, std::rc::Rc<Vec<E>>>,
    pub frange: HashMap<E, FRange>,
    pub dyadic: HashMap<E, Option<Dyadic>>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

/// the engine is single threaded: one context for the process
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx {
                nodes: Vec::new(),
                range: Vec::new(),
                has_fp: Vec::new(),
                table: HashMap::new(),
                var_names: Vec::new(),
                var_nodes: Vec::new(),
                varset: HashMap::new(),
                avarset: HashMap::new(),
                frange: HashMap::new(),
                dyadic: HashMap::new(),
            }));
        }
        &mut *CTX
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_u(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
pub fn node(e: E) -> Node {
    ctx().nodes[e as usize]
}
pub fn width(e: E) -> u16 {
    ctx().nodes[e as usize].w
}
pub fn cval(e: E) -> Option<u128> {
    let n = &ctx().nodes[e as usize];
    if n.op == Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn range(e: E) -> (u128, u128) {
    ctx().range[e as usize]
}

fn intern(n: Node) -> E {
    let c = ctx();
    if let Some(&e) = c.table.get(&n) {
        return e;
    }
    let r = compute_range(&n);
    let id = c.nodes.len() as E;
    let nargs = arity(n.op);
    let args = [n.a, n.b, n.c];
    let fp = is_fp_op(n.op) || args[..nargs].iter().any(|&x| c.has_fp[x as usize]);
    c.nodes.push(n);
    c.range.push(r);
    c.has_fp.push(fp);
    c.table.insert(n, id);
    if r.0 == r.1 && n.op != Const {
        // forced to a constant by range reasoning
        return konst(n.w, r.0);
    }
    id
}

pub fn is_fp_op(op: Op) -> bool {
    matches!(
        op,
        FAdd | FSub
            | FMul
            | FDiv
            | FRem
            | FEq
            | FLt
            | FLe
            | FIsNan
            | SToF
            | UToF
            | FToSSat
            | FToUSat
            | FExt
            | FTrunc
            | FRoundAway
            | FRoundEven
            | FFloor
            | FCeil
            | FTruncI
            | FSqrt
            | FUn
    )
}

pub fn arity(op: Op) -> usize {
    match op {
        Const | Var => 0,
        Not | Extract | ZExt | SExt | FIsNan | SToF | UToF | FToSSat | FToUSat | FExt | FTrunc
        | FRoundAway | FRoundEven | FFloor | FCeil | FTruncI | FSqrt => 1,
        Ite => 3,
        FUn => 2,
        _ => 2,
    }
}

fn compute_range(n: &Node) -> (u128, u128) {
    range_with(n, &mut |e: E| ctx().range[e as usize])
}

/// unsigned interval of a node from the intervals of its arguments
pub fn range_with(n: &Node, r: &mut dyn FnMut(E) -> (u128, u128)) -> (u128, u128) {
    let full = (0, mask(n.w));
    match n.op {
        Const => (n.k, n.k),
        ZExt => r(n.a),
        Add => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            match ah.checked_add(bh) {
                Some(h) if h <= mask(n.w) => (al + bl, h),
                _ => full,
            }
        }
        Sub => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if al >= bh {
                (al - bh, ah - bl)
            } else {
                full
            }
        }
        Mul => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            match ah.checked_mul(bh) {
                Some(h) if h <= mask(n.w) => (al * bl, h),
                _ => full,
            }
        }
        UDiv => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if bl > 0 {
                (al / bh, ah / bl)
            } else {
                full
            }
        }
        URem => {
            let (_, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if bl > 0 {
                (0, ah.min(bh - 1))
            } else {
                full
            }
        }
        And => (0, r(n.a).1.min(r(n.b).1)),
        Or => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            (al.max(bl), fill(ah | bh))
        }
        Xor => (0, fill(r(n.a).1 | r(n.b).1)),
        LShr => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            let sh = |v: u128, s: u128| if s >= 128 { 0 } else { v >> s };
            (sh(al, bh), sh(ah, bl))
        }
        Shl => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if bh < n.w as u128 && (128 - ah.leading_zeros() as u128) + bh <= n.w as u128 {
                (al << bl, ah << bh)
            } else {
                full
            }
        }
        Extract => {
            let (al, ah) = r(n.a);
            let lo = n.k as u32;
            let (l, h) = (al >> lo, ah >> lo);
            let top = n.w as u32;
            if h <= mask(n.w) {
                (l, h)
            } else if top < 128 && l >> top == h >> top {
                (l & mask(n.w), h & mask(n.w))
            } else {
                full
            }
        }
        Concat => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            let wb = width(n.b) as u32;
            ((al << wb) | bl, (ah << wb) | bh)
        }
        Ite => {
            let (al, mut ah) = r(n.b);
            let (mut bl, mut bh) = r(n.c);
            // minimum and maximum
            let c = node(n.a);
            if c.op == Ult {
                let (xh, yh) = (r(c.a).1, r(c.b).1);
                if n.b == c.a && n.c == c.b {
                    return (al.min(bl), xh.min(yh));
                }
                if n.b == c.b && n.c == c.a {
                    return (al.max(bl), xh.max(yh));
                }
                let low = |e: E| {
                    let n = node(e);
                    if n.op == Extract && n.k == 0 { n.a } else { e }
                };
                if low(n.b) == low(c.a) && yh > 0 && yh - 1 <= mask(n.w) && width(c.a) >= n.w {
                    ah = ah.min(yh - 1);
                }
                if n.c == c.a {
                    bl = bl.max(r(c.b).0.min(bh));
                }
                if n.c == c.b {
                    bh = bh.min(xh);
                }
            }
            (al.min(bl), ah.max(bh))
        }
        Ult => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if ah < bl {
                (1, 1)
            } else if al >= bh {
                (0, 0)
            } else {
                (0, 1)
            }
        }
        Eq => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            if ah < bl || bh < al {
                (0, 0)
            } else if al == ah && bl == bh && al == bl {
                (1, 1)
            } else {
                (0, 1)
            }
        }
        Not => {
            let (al, ah) = r(n.a);
            (mask(n.w) - ah, mask(n.w) - al)
        }
        SExt => {
            let (al, ah) = r(n.a);
            let half = mask(width(n.a)) >> 1;
            if ah <= half {
                (al, ah)
            } else if al > half {
                let hi = mask(n.w) ^ mask(width(n.a));
                (al | hi, ah | hi)
            } else {
                full
            }
        }
        Slt => {
            let (al, ah) = r(n.a);
            let (bl, bh) = r(n.b);
            let half = mask(width(n.a)) >> 1;
            // shift into unsigned order when neither interval straddles the sign
            if (ah <= half || al > half) && (bh <= half || bl > half) {
                let f = |v: u128| v ^ (half + 1);
                if f(ah) < f(bl) {
                    (1, 1)
                } else if f(al) >= f(bh) {
                    (0, 0)
                } else {
                    (0, 1)
                }
            } else {
                (0, 1)
            }
        }
        _ => full,
    }
}
fn fill(v: u128) -> u128 {
    if v == 0 {
        0
    } else {
        (!0u128) >> v.leading_zeros()
    }
}

pub fn konst(w: u16, v: u128) -> E {
    intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}
pub fn boolc(b: bool) -> E {
    konst(1, b as u128)
}
pub fn var(w: u16, name: &str) -> E {
    let c = ctx();
    let k = c.var_names.len() as u128;
    c.var_names.push(name.to_string());
    let e = intern(Node { op: Var, w, a: 0, b: 0, c: 0, k });
    c.var_nodes.push(e);
    e
}
fn mk(op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
    intern(Node { op, w, a, b, c, k })
}

pub fn eval_op(op: Op, w: u16, k: u128, aw: u16, a: u128, b: u128, c: u128, bw: u16) -> u128 {
    let m = mask(w);
    match op {
        Const => k,
        Var => unreachable!(),
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext_u(a, w), sext_u(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        SRem => {
            let (x, y) = (sext_u(a, w), sext_u(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Not => !a & m,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let s = sext_u(a, w);
            let sh = if b >= w as u128 { w as u128 - 1 } else { b };
            (s >> sh) as u128 & m
        }
        Concat => (a << bw) | b,
        Extract => (a >> k) & m,
        ZExt => a,
        SExt => sext_u(a, aw) as u128 & m,
        Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Slt => (sext_u(a, aw) < sext_u(b, aw)) as u128,
        _ => eval_fp(op, w, k, aw, a, b),
    }
}

fn f32b(f: f32) -> u128 {
    if f.is_nan() {
        0x7fc00000
    } else {
        f.to_bits() as u128
    }
}
fn f64b(f: f64) -> u128 {
    if f.is_nan() {
        0x7ff8000000000000
    } else {
        f.to_bits() as u128
    }
}

fn eval_fp(op: Op, w: u16, k: u128, aw: u16, a: u128, b: u128) -> u128 {
    if aw == 32 && !matches!(op, SToF | UToF) {
        let x = f32::from_bits(a as u32);
        let y = f32::from_bits(b as u32);
        match op {
            FAdd => f32b(x + y),
            FSub => f32b(x - y),
            FMul => f32b(x * y),
            FDiv => f32b(x / y),
            FRem => f32b(x % y),
            FEq => (x == y) as u128,
            FLt => (x < y) as u128,
            FLe => (x <= y) as u128,
            FIsNan => x.is_nan() as u128,
            FExt => f64b(x as f64),
            FRoundAway => f32b(x.round()),
            FRoundEven => f32b(x.round_ties_even()),
            FFloor => f32b(x.floor()),
            FCeil => f32b(x.ceil()),
            FTruncI => f32b(x.trunc()),
            FSqrt => f32b(x.sqrt()),
            FToSSat => f_to_s(x as f64, w),
            FToUSat => f_to_u(x as f64, w),
            FUn => f32b(match k {
                0 => x.exp(),
                1 => x.powf(y),
                2 => x.sin(),
                3 => x.cos(),
                4 => x.ln(),
                5 => x.mul_add(y, 0.0),
                6 => x.powi(b as i32),
                _ => panic!("FUn {k}"),
            }),
            _ => panic!("eval_fp {op:?}"),
        }
    } else if aw == 64 && !matches!(op, SToF | UToF) {
        let x = f64::from_bits(a as u64);
        let y = f64::from_bits(b as u64);
        match op {
            FAdd => f64b(x + y),
            FSub => f64b(x - y),
            FMul => f64b(x * y),
            FDiv => f64b(x / y),
            FRem => f64b(x % y),
            FEq => (x == y) as u128,
            FLt => (x < y) as u128,
            FLe => (x <= y) as u128,
            FIsNan => x.is_nan() as u128,
            FTrunc => f32b(x as f32),
            FRoundAway => f64b(x.round()),
            FRoundEven => f64b(x.round_ties_even()),
            FFloor => f64b(x.floor()),
            FCeil => f64b(x.ceil()),
            FTruncI => f64b(x.trunc()),
            FSqrt => f64b(x.sqrt()),
            FToSSat => f_to_s(x, w),
            FToUSat => f_to_u(x, w),
            FUn => f64b(match k {
                0 => x.exp(),
                1 => x.powf(y),
                2 => x.sin(),
                3 => x.cos(),
                4 => x.ln(),
                6 => x.powi(b as i32),
                _ => panic!("FUn {k}"),
            }),
            _ => panic!("eval_fp {op:?}"),
        }
    } else {
        match (op, w) {
            (SToF, 32) => f32b(sext_u(a, aw) as f32),
            (SToF, 64) => f64b(sext_u(a, aw) as f64),
            (UToF, 32) => f32b(a as f32),
            (UToF, 64) => f64b(a as f64),
            _ => panic!("eval_fp {op:?} aw={aw} w={w}"),
        }
    }
}
fn f_to_s(x: f64, w: u16) -> u128 {
    let v = x as i128; // saturating
    let hi = (mask(w) >> 1) as i128;
    let lo = -hi - 1;
    (v.clamp(lo, hi) as u128) & mask(w)
}
fn f_to_u(x: f64, w: u16) -> u128 {
    (x as u128).min(mask(w))
}

// ---------------------------------------------------------------- constructors

pub fn not(a: E) -> E {
    let n = node(a);
    match n.op {
        Const => konst(n.w, !n.k),
        Not => n.a,
        _ => mk(Not, n.w, a, 0, 0, 0),
    }
}

fn is_not_of(a: E, b: E) -> bool {
    let n = node(a);
    n.op == Not && n.a == b
}

/// x, if `e` is -x written as a 64-bit difference
fn negated(e: E) -> Option<E> {
    let n = node(e);
    (n.w >= 64 && n.op == Sub && cval(n.a) == Some(0)).then_some(n.b)
}
/// division by a constant in no more bits than the number has
fn narrow(op: Op, a: E, y: u128) -> Option<E> {
    let w = width(a);
    let k = (128 - range(a).1.leading_zeros() as u16).max(1);
    if w < 64 || k > w / 2 || y == 0 {
        return None;
    }
    if y > mask(k) {
        return Some(if op == UDiv { konst(w, 0) } else { a });
    }
    Some(zext(bin(op, extract(a, 0, k), konst(k, y)), w))
}
pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert!(w == width(b), "{op:?} {w} {}", width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(w, eval_op(op, w, 0, w, x, y, 0, w));
    }
    let m = mask(w);
    match op {
        Add => {
            if w == 1 {
                return bin(Xor, a, b);
            }
            if ca.is_some() {
                return bin(Add, b, a);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                let n = node(a);
                if n.op == Add {
                    if let Some(z) = cval(n.b) {
                        return bin(Add, n.a, konst(w, y.wrapping_add(z)));
                    }
                }
                return mk(Add, w, a, b, 0, 0);
            }
            // (x + c) + y -> (x + y) + c
            let (na, nb) = (node(a), node(b));
            if na.op == Add {
                if let Some(z) = cval(na.b) {
                    return bin(Add, bin(Add, na.a, b), konst(w, z));
                }
            }
            if nb.op == Add {
                if let Some(z) = cval(nb.b) {
                    return bin(Add, bin(Add, a, nb.a), konst(w, z));
                }
            }
            if na.op == Sub && na.b == b {
                return na.a;
            }
            if nb.op == Sub && nb.b == a {
                return nb.a;
            }
            if let (Some(x), Some(y)) = (negated(a), negated(b)) {
                return bin(Sub, konst(w, 0), bin(Add, x, y));
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            mk(Add, w, a, b, 0, 0)
        }
        Sub => {
            if a == b {
                return konst(w, 0);
            }
            if w == 1 {
                return bin(Xor, a, b);
            }
            if let Some(y) = cb {
                return bin(Add, a, konst(w, y.wrapping_neg()));
            }
            let (na, nb) = (node(a), node(b));
            if na.op == Add {
                if na.a == b {
                    return na.b;
                }
                if na.b == b {
                    return na.a;
                }
                if let Some(z) = cval(na.b) {
                    return bin(Add, bin(Sub, na.a, b), konst(w, z));
                }
            }
            if nb.op == Add {
                if let Some(z) = cval(nb.b) {
                    return bin(Add, bin(Sub, a, nb.a), konst(w, z.wrapping_neg()));
                }
            }
            mk(Sub, w, a, b, 0, 0)
        }
        Mul => {
            if w == 1 {
                return bin(And, a, b);
            }
            if ca.is_some() {
                return bin(Mul, b, a);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return b;
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    return bin(Shl, a, konst(w, y.trailing_zeros() as u128));
                }
                if let Some(x) = negated(a) {
                    return bin(Sub, konst(w, 0), bin(Mul, x, b));
                }
                return mk(Mul, w, a, b, 0, 0);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            mk(Mul, w, a, b, 0, 0)
        }
        UDiv => {
            if let Some(y) = cb {
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    return bin(LShr, a, konst(w, y.trailing_zeros() as u128));
                }
                if let Some(r) = narrow(op, a, y) {
                    return r;
                }
            }
            mk(UDiv, w, a, b, 0, 0)
        }
        URem => {
            if let Some(y) = cb {
                if y == 1 {
                    return konst(w, 0);
                }
                if y.is_power_of_two() {
                    return bin(And, a, konst(w, y - 1));
                }
                if y != 0 && range(a).1 < y {
                    return a;
                }
                if let Some(r) = narrow(op, a, y) {
                    return r;
                }
            }
            mk(URem, w, a, b, 0, 0)
        }
        SDiv | SRem => {
            if cb == Some(1) {
                return if op == SDiv { a } else { konst(w, 0) };
            }
            let half = m >> 1;
            if range(a).1 <= half && range(b).1 <= half {
                return bin(if op == SDiv { UDiv } else { URem }, a, b);
            }
            if let (Some(x), Some(y)) = (negated(a), cb) {
                if y > 0 && y <= half && range(x).1 <= half {
                    return bin(Sub, konst(w, 0), bin(if op == SDiv { UDiv } else { URem }, x, b));
                }
            }
            mk(op, w, a, b, 0, 0)
        }
        And => {
            if a == b {
                return a;
            }
            if ca.is_some() {
                return bin(And, b, a);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return b;
                }
                if y == m {
                    return a;
                }
                let n = node(a);
                if n.op == And {
                    if let Some(z) = cval(n.b) {
                        return bin(And, n.a, konst(w, y & z));
                    }
                }
                // low mask -> zext(extract)
                if (y & (y + 1)) == 0 {
                    let k = (128 - y.leading_zeros()) as u16;
                    return zext(extract(a, 0, k), w);
                }
                if n.op == ZExt {
                    let iw = width(n.a);
                    return zext(bin(And, n.a, konst(iw, y)), w);
                }
                if n.op == Concat {
                    return concat_const(And, n, y);
                }
                // trailing zeros of the mask
                let tz = y.trailing_zeros() as u16;
                if tz > 0 {
                    return concat(bin(And, extract(a, tz, w - tz), konst(w - tz, y >> tz)), konst(tz, 0));
                }
                let top = (128 - y.leading_zeros()) as u16;
                if top < w {
                    return zext(bin(And, extract(a, 0, top), konst(top, y)), w);
                }
                return mk(And, w, a, b, 0, 0);
            }
            if w == 1 && (is_not_of(a, b) || is_not_of(b, a)) {
                return konst(1, 0);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            mk(And, w, a, b, 0, 0)
        }
        Or => {
            if a == b {
                return a;
            }
            if ca.is_some() {
                return bin(Or, b, a);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y == m {
                    return b;
                }
                let n = node(a);
                if n.op == Concat {
                    return concat_const(Or, n, y);
                }
            }
            if w == 1 && (is_not_of(a, b) || is_not_of(b, a)) {
                return konst(1, 1);
            }
            // disjoint pieces: zext(x) | concat(y, 0..0)
            if let Some(e) = or_concat(a, b).or_else(|| or_concat(b, a)) {
                return e;
            }
            let (a, b) = if a < b || cb.is_some() { (a, b) } else { (b, a) };
            mk(Or, w, a, b, 0, 0)
        }
        Xor => {
            if a == b {
                return konst(w, 0);
            }
            if ca.is_some() {
                return bin(Xor, b, a);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y == m {
                    return not(a);
                }
                let n = node(a);
                if n.op == Concat {
                    return concat_const(Xor, n, y);
                }
                if n.op == Xor {
                    if let Some(z) = cval(n.b) {
                        return bin(Xor, n.a, konst(w, y ^ z));
                    }
                }
                return mk(Xor, w, a, b, 0, 0);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            mk(Xor, w, a, b, 0, 0)
        }
        Shl => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return konst(w, 0);
                }
                let k = y as u16;
                return concat(extract(a, 0, w - k), konst(k, 0));
            }
            if ca == Some(0) {
                return a;
            }
            mk(Shl, w, a, b, 0, 0)
        }
        LShr => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return konst(w, 0);
                }
                let k = y as u16;
                return zext(extract(a, k, w - k), w);
            }
            if ca == Some(0) {
                return a;
            }
            mk(LShr, w, a, b, 0, 0)
        }
        AShr => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                let k = (y.min(w as u128 - 1)) as u16;
                return sext(extract(a, k, w - k), w);
            }
            if range(a).1 <= m >> 1 {
                return bin(LShr, a, b);
            }
            mk(AShr, w, a, b, 0, 0)
        }
        _ => panic!("bin {op:?}"),
    }
}

fn concat_const(op: Op, n: Node, y: u128) -> E {
    let wb = width(n.b);
    let wa = n.w - wb;
    concat(bin(op, n.a, konst(wa, y >> wb)), bin(op, n.b, konst(wb, y)))
}

/// a = value whose set bits lie below k; b = concat(hi, 0_k)
fn or_concat(a: E, b: E) -> Option<E> {
    let nb = node(b);
    // b == concat(hi, zeros) possibly inside a zext
    let (inner, outer_w) = if nb.op == ZExt { (nb.a, Some(nb.w)) } else { (b, None) };
    let ni = node(inner);
    if ni.op != Concat {
        return None;
    }
    if cval(ni.b) != Some(0) {
        return None;
    }
    let k = width(ni.b);
    if range(a).1 > mask(k) {
        return None;
    }
    let r = concat(ni.a, extract(a, 0, k));
    Some(match outer_w {
        Some(w) => zext(r, w),
        None => r,
    })
}

pub fn extract(a: E, lo: u16, w: u16) -> E {
    let n = node(a);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w {
        return a;
    }
    match n.op {
        Const => konst(w, n.k >> lo),
        Extract => extract(n.a, n.k as u16 + lo, w),
        Concat => {
            let wb = width(n.b);
            if lo >= wb {
                extract(n.a, lo - wb, w)
            } else if lo + w <= wb {
                extract(n.b, lo, w)
            } else {
                let l = extract(n.b, lo, wb - lo);
                let h = extract(n.a, 0, lo + w - wb);
                concat(h, l)
            }
        }
        ZExt => {
            let wa = width(n.a);
            if lo >= wa {
                konst(w, 0)
            } else if lo + w <= wa {
                extract(n.a, lo, w)
            } else {
                zext(extract(n.a, lo, wa - lo), w)
            }
        }
        SExt => {
            let wa = width(n.a);
            if lo + w <= wa {
                extract(n.a, lo, w)
            } else if lo < wa {
                sext(extract(n.a, lo, wa - lo), w)
            } else {
                sext(extract(n.a, wa - 1, 1), w)
            }
        }
        And | Or | Xor => bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Not => not(extract(n.a, lo, w)),
        Add | Sub | Mul if lo == 0 => bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w)),
        Ite if cval(n.b).is_some() || cval(n.c).is_some() => {
            ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w))
        }
        _ => {
            if range(a).1 < (1u128 << lo) {
                return konst(w, 0);
            }
            mk(Extract, w, a, 0, 0, lo as u128)
        }
    }
}

pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return konst(w, (x << nb.w) | y);
    }
    if cval(a) == Some(0) {
        return zext(b, w);
    }
    if na.op == ZExt {
        return zext(concat(na.a, b), w);
    }
    // merge adjacent extracts
    let adj = |x: E, y: E| -> Option<E> {
        let (nx, ny) = (node(x), node(y));
        let (bx, lx) = if nx.op == Extract { (nx.a, nx.k as u16) } else { (x, 0) };
        let (by, ly) = if ny.op == Extract { (ny.a, ny.k as u16) } else { (y, 0) };
        if bx == by && (nx.op == Extract || ny.op == Extract) && lx == ly + ny.w {
            Some(extract(bx, ly, nx.w + ny.w))
        } else if cval(x).is_some() && cval(y).is_some() {
            Some(konst(nx.w + ny.w, (nx.k << ny.w) | ny.k))
        } else {
            None
        }
    };
    if let Some(e) = adj(a, b) {
        return e;
    }
    if nb.op == Concat {
        if let Some(e) = adj(a, nb.a) {
            return concat(e, nb.b);
        }
    }
    if na.op == Concat {
        // right-nest
        return concat(na.a, concat(na.b, b));
    }
    mk(Concat, w, a, b, 0, 0)
}

pub fn zext(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Const => konst(w, n.k),
        ZExt => zext(n.a, w),
        _ => mk(ZExt, w, a, 0, 0, 0),
    }
}
pub fn sext(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    match n.op {
        Const => konst(w, sext_u(n.k, n.w) as u128),
        SExt => sext(n.a, w),
        ZExt => zext(n.a, w),
        _ => {
            if range(a).1 <= mask(n.w) >> 1 {
                return zext(a, w);
            }
            mk(SExt, w, a, 0, 0, 0)
        }
    }
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = cval(c) {
        return if v != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    let nc = node(c);
    if nc.op == Not {
        return ite(nc.a, b, a);
    }
    let w = width(a);
    debug_assert!(w == width(b));
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Or, c, b),
            (Some(0), None) => return bin(And, not(c), b),
            (None, Some(0)) => return bin(And, c, a),
            (None, Some(1)) => return bin(Or, not(c), a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) {
        return zext(ite(c, na.a, nb.a), w);
    }
    mk(Ite, w, c, a, b, 0)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return tru();
    }
    let w = width(a);
    debug_assert!(w == width(b), "eq {} {}", w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return boolc(x == y);
    }
    if ca.is_some() {
        return eq(b, a);
    }
    let n = node(a);
    if let Some(y) = cb {
        if w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        match n.op {
            ZExt => {
                let wa = width(n.a);
                if y > mask(wa) {
                    return fls();
                }
                return eq(n.a, konst(wa, y));
            }
            SExt => {
                let wa = width(n.a);
                let t = y & mask(wa);
                if sext_u(t, wa) as u128 & mask(w) != y {
                    return fls();
                }
                return eq(n.a, konst(wa, t));
            }
            Concat => {
                let wb = width(n.b);
                return bin(
                    And,
                    eq(n.a, konst(w - wb, y >> wb)),
                    eq(n.b, konst(wb, y)),
                );
            }
            Add => {
                if let Some(z) = cval(n.b) {
                    return eq(n.a, konst(w, y.wrapping_sub(z)));
                }
            }
            Xor => {
                if let Some(z) = cval(n.b) {
                    return eq(n.a, konst(w, y ^ z));
                }
                if y == 0 {
                    return eq(n.a, n.b);
                }
            }
            Not => return eq(n.a, konst(w, !y)),
            Sub if y == 0 => return eq(n.a, n.b),
            Ite => {
                let (cx, cy) = (cval(n.b), cval(n.c));
                match (cx, cy) {
                    (Some(p), Some(q)) => {
                        return match (p == y, q == y) {
                            (true, true) => tru(),
                            (true, false) => n.a,
                            (false, true) => not(n.a),
                            (false, false) => fls(),
                        }
                    }
                    (Some(p), None) => {
                        return if p == y {
                            bin(Or, n.a, eq(n.c, b))
                        } else {
                            bin(And, not(n.a), eq(n.c, b))
                        }
                    }
                    (None, Some(q)) => {
                        return if q == y {
                            bin(Or, not(n.a), eq(n.b, b))
                        } else {
                            bin(And, n.a, eq(n.b, b))
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    } else {
        let nb = node(b);
        if w == 1 {
            if is_not_of(a, b) || is_not_of(b, a) {
                return fls();
            }
        }
        if n.op == ZExt && nb.op == ZExt && width(n.a) == width(nb.a) {
            return eq(n.a, nb.a);
        }
        if n.op == SExt && nb.op == SExt && width(n.a) == width(nb.a) {
            return eq(n.a, nb.a);
        }
        if n.op == Add && nb.op == Add {
            // same constant offset
            if let (Some(x), Some(y)) = (cval(n.b), cval(nb.b)) {
                return eq(bin(Add, n.a, konst(w, x.wrapping_sub(y))), nb.a);
            }
            if n.a == nb.a {
                return eq(n.b, nb.b);
            }
        }
        if n.op == Add {
            if n.a == b {
                return eq(n.b, konst(w, 0));
            }
            if n.b == b {
                return eq(n.a, konst(w, 0));
            }
        }
        if nb.op == Add {
            if nb.a == a {
                return eq(nb.b, konst(w, 0));
            }
            if nb.b == a {
                return eq(nb.a, konst(w, 0));
            }
        }
        if n.op == Concat && nb.op == Concat && width(n.b) == width(nb.b) {
            return bin(And, eq(n.a, nb.a), eq(n.b, nb.b));
        }
    }
    let (a, b) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
    mk(Eq, 1, a, b, 0, 0)
}

pub fn ult(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return fls();
    }
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return boolc(x < y);
    }
    let (ra, rb) = (range(a), range(b));
    if ra.1 < rb.0 {
        return tru();
    }
    if ra.0 >= rb.1 {
        return fls();
    }
    if w == 1 {
        return bin(And, not(a), b);
    }
    let (na, nb) = (node(a), node(b));
    if let Some(y) = cb {
        if y == 1 {
            return eq(a, konst(w, 0));
        }
        if y == mask(w) {
            return not(eq(a, b));
        }
        if na.op == ZExt {
            // range check above guarantees y <= mask(inner)
            return ult(na.a, konst(width(na.a), y));
        }
        if na.op == Concat {
            // low bits irrelevant when y is aligned
            let wb = width(na.b);
            if y & mask(wb) == 0 {
                return ult(na.a, konst(w - wb, y >> wb));
            }
        }
    }
    if let Some(x) = ca {
        if x == 0 {
            return not(eq(b, a));
        }
        if nb.op == ZExt {
            return ult(konst(width(nb.a), x), nb.a);
        }
    }
    if na.op == ZExt && nb.op == ZExt {
        let (wa, wb) = (width(na.a), width(nb.a));
        let m = wa.max(wb);
        return ult(zext(na.a, m), zext(nb.a, m));
    }
    mk(Ult, 1, a, b, 0, 0)
}
pub fn slt(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return fls();
    }
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return boolc(sext_u(x, w) < sext_u(y, w));
    }
    let half = mask(w) >> 1;
    let (ra, rb) = (range(a), range(b));
    let (pa, pb) = (ra.1 <= half, rb.1 <= half);
    let (nga, ngb) = (ra.0 > half, rb.0 > half);
    if (pa && pb) || (nga && ngb) {
        return ult(a, b);
    }
    if pa && ngb {
        return fls();
    }
    if nga && pb {
        return tru();
    }
    if cb == Some(0) {
        return extract(a, w - 1, 1);
    }
    if ca == Some(mask(w)) {
        // -1 < b  <=> b >= 0
        return not(extract(b, w - 1, 1));
    }
    let (na, nb) = (node(a), node(b));
    if na.op == SExt {
        let iw = width(na.a);
        if nb.op == SExt && width(nb.a) == iw {
            return slt(na.a, nb.a);
        }
        if let Some(y) = cb {
            let y = sext_u(y, w);
            let hi = (mask(iw) >> 1) as i128;
            if y > hi {
                return tru();
            }
            if y <= -hi - 1 {
                return fls();
            }
            return slt(na.a, konst(iw, y as u128));
        }
    }
    if nb.op == SExt {
        let iw = width(nb.a);
        if let Some(x) = ca {
            let x = sext_u(x, w);
            let hi = (mask(iw) >> 1) as i128;
            if x >= hi {
                return fls();
            }
            if x < -hi - 1 {
                return tru();
            }
            return slt(konst(iw, x as u128), nb.a);
        }
    }
    mk(Slt, 1, a, b, 0, 0)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}
pub fn and(a: E, b: E) -> E {
    bin(And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Or, a, b)
}

pub fn fbin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return konst(w, eval_op(op, w, 0, w, x, y, 0, w));
    }
    // commutative in IEEE (NaN canonicalised)
    let (a, b) = if matches!(op, FAdd | FMul) && a > b { (b, a) } else { (a, b) };
    // identities (whether a NaN comes out quieted is left open by LLVM)
    let one = if w == 32 { f32b(1.0) } else { f64b(1.0) };
    let neg0 = 1u128 << (w - 1);
    for (x, y) in [(a, b), (b, a)] {
        match (op, cval(y)) {
            (FMul, Some(k)) if k == one => return x,
            (FAdd, Some(k)) if k == neg0 => return x,
            _ => {}
        }
    }
    if (op == FDiv && cval(b) == Some(one)) || (op == FSub && cval(b) == Some(0)) {
        return a;
    }
    mk(op, w, a, b, 0, 0)
}
/// an expression that may differ from `e` in the sign of a zero, where that does not matter
fn no_zero_sign(e: E, depth: usize) -> E {
    let n = node(e);
    if depth == 0 || cval(e).is_some() {
        return e;
    }
    let d = depth - 1;
    match n.op {
        FAdd => {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(k) = cval(y) {
                    return if k == 0 { no_zero_sign(x, d) } else { fbin(FAdd, no_zero_sign(x, d), y) };
                }
            }
            e
        }
        FMul => {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(_) = cval(y) {
                    return fbin(FMul, no_zero_sign(x, d), y);
                }
            }
            e
        }
        FRoundAway | FRoundEven | FFloor | FCeil | FTruncI => fun1(n.op, no_zero_sign(n.a, d), n.w),
        Ite if n.w == 32 || n.w == 64 => {
            let x = no_zero_sign(n.b, d);
            let y = no_zero_sign(n.c, d);
            if (x, y) == (n.b, n.c) {
                e
            } else {
                ite(n.a, x, y)
            }
        }
        _ => e,
    }
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    let w = width(a);
    let (a, b) = (no_zero_sign(a, 8), no_zero_sign(b, 8));
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return konst(1, eval_op(op, 1, 0, w, x, y, 0, w));
    }
    let ((al, ah, an), (bl, bh, bn)) = (frange(a), frange(b));
    if al <= ah && bl <= bh {
        let (t, f) = match op {
            FLt => (ah < bl, al >= bh),
            FLe => (ah <= bl, al > bh),
            _ => (false, ah < bl || bh < al),
        };
        if f {
            return fls();
        }
        if t && !an && !bn {
            return tru();
        }
    }
    if let (Some(x), Some(y)) = (dyadic(a), dyadic(b)) {
        let e = x.1.min(y.1);
        if let (Some(x), Some(y)) = (x.at(e), y.at(e)) {
            // below 2^63 apart
            let d = x.plus(&y, -1).term();
            let zero = konst(64, 0);
            return match op {
                FLt => slt(d, zero),
                FLe => sle(d, zero),
                _ => eq(d, zero),
            };
        }
    }
    mk(op, 1, a, b, 0, 0)
}
/// a sum of integer terms, each times a constant
#[derive(Clone, Default)]
struct Lin(BTreeMap<E, i128>, i128);
impl Lin {
    fn plus(mut self, o: &Lin, k: i128) -> Lin {
        for (&t, &c) in &o.0 {
            let v = self.0.entry(t).or_insert(0);
            *v += c * k;
            if *v == 0 {
                self.0.remove(&t);
            }
        }
        self.1 += o.1 * k;
        self
    }
    fn times(&self, k: i128) -> Lin {
        Lin::default().plus(self, k)
    }
    fn term(&self) -> E {
        let c = |k: i128| konst(64, k as u128 & mask(64));
        self.0.iter().fold(c(self.1), |s, (&t, &k)| bin(Add, s, bin(Mul, t, c(k))))
    }
    /// of a signed integer, as 64 bits
    fn of(e: E, depth: usize) -> Lin {
        let n = node(e);
        if let Some(k) = cval(e) {
            return Lin(BTreeMap::new(), sext_u(k, n.w));
        }
        if n.op == SExt {
            return Lin::of(n.a, depth);
        }
        if depth > 0 && matches!(n.op, Add | Sub | Mul) && srange(e, 8).is_some() {
            let (a, b) = (Lin::of(n.a, depth - 1), Lin::of(n.b, depth - 1));
            match n.op {
                Add => return a.plus(&b, 1),
                Sub => return a.plus(&b, -1),
                _ if b.0.is_empty() => return a.times(b.1),
                _ if a.0.is_empty() => return b.times(a.1),
                _ => {}
            }
        }
        Lin([(sext(e, 64), 1)].into_iter().collect(), 0)
    }
}
/// a float that is exactly `int * 2^exp`, |int| <= max; the sign of a zero is lost
#[derive(Clone)]
pub struct Dyadic(Lin, i32, u64);
impl Dyadic {
    /// the integer for exponent `e`, if it stays below 2^62
    fn at(&self, e: i32) -> Option<Lin> {
        if self.2 == 0 {
            return Some(Lin::default());
        }
        let s = self.1 - e;
        if s < 0 || s > 60 || (self.2 as u128) << s >= 1u128 << 62 {
            return None;
        }
        Some(self.0.times(1 << s))
    }
}
/// the exact value of an arithmetic expression over integers, when no rounding can happen
pub fn dyadic(e: E) -> Option<Dyadic> {
    if let Some(r) = ctx().dyadic.get(&e) {
        return r.clone();
    }
    let n = node(e);
    let bits = if n.w == 32 { 24 } else { 53 };
    let r = (|| match n.op {
        _ if n.w != 32 && n.w != 64 => None,
        Const => {
            let x = fconst(n.w, n.k);
            if !x.is_finite() {
                return None;
            }
            if x == 0.0 {
                return Some(Dyadic(Lin::default(), 0, 0));
            }
            let b = x.to_bits();
            let e = (b >> 52 & 0x7ff) as i32;
            if !(1023 - 60..=1023 + 60).contains(&e) {
                return None;
            }
            let m = b & ((1 << 52) - 1) | 1 << 52;
            let t = m.trailing_zeros();
            let m = m >> t;
            let v = if x < 0.0 { -(m as i128) } else { m as i128 };
            Some(Dyadic(Lin(BTreeMap::new(), v), e - 1023 - 52 + t as i32, m))
        }
        SToF | UToF => {
            let (l, h) = int_interval(n.a, n.op == SToF);
            let m = l.abs().max(h.abs());
            let w = width(n.a);
            if m >= 2f64.powi(bits) || w > 64 {
                return None;
            }
            let i = if n.op == SToF {
                Lin::of(n.a, 8)
            } else {
                Lin::of(zext(n.a, 64), 0)
            };
            Some(Dyadic(i, 0, m as u64))
        }
        FAdd | FSub => {
            let (x, y) = (dyadic(n.a)?, dyadic(n.b)?);
            let e = if x.2 == 0 { y.1 } else if y.2 == 0 { x.1 } else { x.1.min(y.1) };
            let (a, b) = (x.at(e)?, y.at(e)?);
            let m = ((x.2 as u128) << if x.2 == 0 { 0 } else { x.1 - e }) + ((y.2 as u128) << if y.2 == 0 { 0 } else { y.1 - e });
            if m >= 1 << bits {
                return None;
            }
            Some(Dyadic(a.plus(&b, if n.op == FAdd { 1 } else { -1 }), e, m as u64))
        }
        FMul => {
            let (x, y) = (dyadic(n.a)?, dyadic(n.b)?);
            let m = x.2 as u128 * y.2 as u128;
            if m >= 1 << bits || x.1 + y.1 < -80 {
                return None;
            }
            let p = if y.0 .0.is_empty() {
                x.0.times(y.0 .1)
            } else if x.0 .0.is_empty() {
                y.0.times(x.0 .1)
            } else {
                Lin([(bin(Mul, x.0.term(), y.0.term()), 1)].into_iter().collect(), 0)
            };
            Some(Dyadic(p, x.1 + y.1, m as u64))
        }
        _ => None,
    })();
    ctx().dyadic.insert(e, r.clone());
    r
}
/// unary float/convert op; `w` is the width of the result
pub fn fun1(op: Op, a: E, w: u16) -> E {
    if let Some(x) = cval(a) {
        return konst(w, eval_op(op, w, 0, width(a), x, 0, 0, 0));
    }
    let a = if matches!(op, FToSSat | FToUSat | FIsNan) { no_zero_sign(a, 8) } else { a };
    let n = node(a);
    if op == FIsNan && matches!(n.op, SToF | UToF) {
        return fls();
    }
    if let Some(x) = cval(a) {
        return konst(w, eval_op(op, w, 0, width(a), x, 0, 0, 0));
    }
    mk(op, w, a, 0, 0, 0)
}
pub fn funk(k: u128, a: E, b: E, w: u16) -> E {
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        return konst(w, eval_op(FUn, w, k, width(a), x, y, 0, 0));
    }
    mk(FUn, w, a, b, 0, k)
}

// ---------------------------------------------------------------- evaluation

/// rebuild a node over new operands (through the simplifying constructors)
pub fn rebuild(n: &Node, a: E, b: E, c: E) -> E {
    match n.op {
        Const => konst(n.w, n.k),
        Var => unreachable!(),
        Not => not(a),
        Concat => concat(a, b),
        Extract => extract(a, n.k as u16, n.w),
        ZExt => zext(a, n.w),
        SExt => sext(a, n.w),
        Ite => ite(a, b, c),
        Eq => eq(a, b),
        Ult => ult(a, b),
        Slt => slt(a, b),
        FAdd | FSub | FMul | FDiv | FRem => fbin(n.op, a, b),
        FEq | FLt | FLe => fcmp(n.op, a, b),
        FUn => funk(n.k, a, b, n.w),
        op if is_fp_op(op) => fun1(op, a, n.w),
        op => bin(op, a, b),
    }
}

pub fn varset(e: E) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = ctx().varset.get(&e) {
        return v.clone();
    }
    let n = node(e);
    let r = match n.op {
        Const => std::rc::Rc::new(vec![]),
        Var => std::rc::Rc::new(vec![n.k as u32]),
        _ => {
            let args = [n.a, n.b, n.c];
            let ar = arity(n.op);
            if ar == 1 {
                varset(n.a)
            } else {
                let mut v: Vec<u32> = Vec::new();
                for &x in &args[..ar] {
                    v.extend(varset(x).iter());
                }
                v.sort_unstable();
                v.dedup();
                std::rc::Rc::new(v)
            }
        }
    };
    ctx().varset.insert(e, r.clone());
    r
}

pub fn show(e: E, depth: usize) -> String {
    let n = node(e);
    match n.op {
        Const => format!("{:#x}:{}", n.k, n.w),
        Var => ctx().var_names[n.k as usize].clone(),
        _ if depth == 0 => format!("n{e}"),
        _ => {
            let args = [n.a, n.b, n.c];
            let s: Vec<String> =
                args[..arity(n.op)].iter().map(|&x| show(x, depth - 1)).collect();
            format!("({:?}:{}[{}] {})", n.op, n.w, n.k, s.join(" "))
        }
    }
}

/// float operations treated as free values by the abstract encoding
pub fn is_atom(op: Op) -> bool {
    op == Var || (is_fp_op(op) && !matches!(op, FEq | FLt | FLe | FIsNan))
}

/// the input variables and opaque float results an expression depends on (abstract view)
pub fn avarset(e: E) -> std::rc::Rc<Vec<E>> {
    if let Some(v) = ctx().avarset.get(&e) {
        return v.clone();
    }
    let n = node(e);
    let mut v: Vec<E> = vec![];
    if is_atom(n.op) {
        v.push(e);
    } else {
        let args = [n.a, n.b, n.c];
        for &x in &args[..arity(n.op)] {
            v.extend(avarset(x).iter());
        }
        v.sort_unstable();
        v.dedup();
    }
    let r = std::rc::Rc::new(v);
    ctx().avarset.insert(e, r.clone());
    r
}

/// interval of a float expression, plus whether it can be NaN
pub type FRange = (f64, f64, bool);

fn fconst(w: u16, k: u128) -> f64 {
    if w == 32 {
        f32::from_bits(k as u32) as f64
    } else {
        f64::from_bits(k as u64)
    }
}
pub fn rnd(w: u16, x: f64) -> f64 {
    if w == 32 {
        x as f32 as f64
    } else {
        x
    }
}

fn int_interval(e: E, signed: bool) -> (f64, f64) {
    let w = width(e);
    let n = node(e);
    let (lo, hi) = range(e);
    if !signed {
        return (lo as f64, hi as f64);
    }
    let half = mask(w) >> 1;
    if n.op == SExt {
        return int_interval(n.a, true);
    }
    if matches!(n.op, FToSSat) {
        let r = frange(n.a);
        return ftoint(r, w);
    }
    if hi <= half {
        return (lo as f64, hi as f64);
    }
    if w <= 64 {
        if let Some((l, h)) = srange(e, 8) {
            return (l as f64, h as f64);
        }
    }
    (-(half as f64) - 1.0, half as f64)
}
/// signed interval of sums and products that cannot overflow
pub fn srange(e: E, depth: usize) -> Option<(i128, i128)> {
    let n = node(e);
    let half = (mask(n.w) >> 1) as i128;
    if let Some(k) = cval(e) {
        let k = sext_u(k, n.w);
        return Some((k, k));
    }
    let (lo, hi) = range(e);
    let r = match n.op {
        _ if hi <= half as u128 => Some((lo as i128, hi as i128)),
        _ if depth == 0 || n.w > 64 => None,
        SExt => srange(n.a, depth - 1).or(Some((-((mask(width(n.a)) >> 1) as i128) - 1, (mask(width(n.a)) >> 1) as i128))),
        Add | Sub | Mul => {
            let (a, b) = (srange(n.a, depth - 1)?, srange(n.b, depth - 1)?);
            let c = match n.op {
                Add => [a.0 + b.0, a.1 + b.1, a.0 + b.0, a.1 + b.1],
                Sub => [a.0 - b.1, a.1 - b.0, a.0 - b.1, a.1 - b.0],
                _ => [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1],
            };
            Some((*c.iter().min().unwrap(), *c.iter().max().unwrap()))
        }
        _ => None,
    }?;
    (r.0 >= -half - 1 && r.1 <= half).then_some(r)
}

/// signed interval of a saturating float to int conversion
fn ftoint(r: FRange, w: u16) -> (f64, f64) {
    let hi = 2f64.powi(w as i32 - 1) - 1.0;
    let lo = -2f64.powi(w as i32 - 1);
    let mut a = r.0.trunc().clamp(lo, hi);
    let mut b = r.1.trunc().clamp(lo, hi);
    if r.2 {
        a = a.min(0.0);
        b = b.max(0.0);
    }
    (a, b)
}

pub fn frange(e: E) -> FRange {
    if let Some(&r) = ctx().frange.get(&e) {
        return r;
    }
    let n = node(e);
    let all = (f64::NEG_INFINITY, f64::INFINITY, true);
    let w = n.w;
    let r = if w != 32 && w != 64 {
        all
    } else {
        match n.op {
            Const => {
                let x = fconst(w, n.k);
                if x.is_nan() {
                    all
                } else {
                    (x, x, false)
                }
            }
            SToF | UToF => {
                let (l, h) = int_interval(n.a, n.op == SToF);
                (rnd(w, l), rnd(w, h), false)
            }
            FAdd | FSub | FMul => {
                let (al, ah, an) = frange(n.a);
                let (bl, bh, bn) = frange(n.b);
                let fin = [al, ah, bl, bh].iter().all(|x| x.is_finite());
                if !fin || w == 64 && n.op != FMul && false {
                    all
                } else {
                    // f64 arithmetic on f32 endpoints is exact or monotone, so rounding the
                    // endpoints bounds the rounded result; f64 itself is rounded the same way
                    let c = match n.op {
                        FAdd => [al + bl, ah + bh, al + bl, ah + bh],
                        FSub => [al - bh, ah - bl, al - bh, ah - bl],
                        _ => [al * bl, al * bh, ah * bl, ah * bh],
                    };
                    let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
                    let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    (rnd(w, lo), rnd(w, hi), an || bn)
                }
            }
            FExt => frange(n.a),
            FRoundAway | FRoundEven | FFloor | FCeil | FTruncI => {
                let (l, h, x) = frange(n.a);
                let f = |v: f64| match n.op {
                    FRoundAway => v.round(),
                    FRoundEven => v.round_ties_even(),
                    FFloor => v.floor(),
                    FCeil => v.ceil(),
                    _ => v.trunc(),
                };
                (f(l), f(h), x)
            }
            FDiv => {
                let (al, ah, an) = frange(n.a);
                let (bl, bh, bn) = frange(n.b);
                let fin = [al, ah, bl, bh].iter().all(|x| x.is_finite());
                if !fin || !(bl > 0.0 || bh < 0.0) {
                    all
                } else {
                    let c = [al / bl, al / bh, ah / bl, ah / bh];
                    let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
                    let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    (rnd(w, lo), rnd(w, hi), an || bn)
                }
            }
            FTrunc => {
                let (l, h, x) = frange(n.a);
                (rnd(32, l), rnd(32, h), x)
            }
            Ite => {
                let t = refine(n.a, true, n.b);
                let f = refine(n.a, false, n.c);
                (t.0.min(f.0), t.1.max(f.1), t.2 || f.2)
            }
            _ => all,
        }
    };
    ctx().frange.insert(e, r);
    r
}

/// interval of `v` where `c` has the given truth value
fn refine(c: E, truth: bool, v: E) -> FRange {
    let mut r = frange(v);
    let n = node(c);
    match n.op {
        Not => return refine(n.a, !truth, v),
        FLt | FLe => {
            // v on one side, bounds of the other
            if n.a == v {
                let o = frange(n.b);
                if truth {
                    r.1 = r.1.min(o.1);
                    r.2 = false;
                } else if !o.2 {
                    r.0 = r.0.max(o.0);
                }
            } else if n.b == v {
                let o = frange(n.a);
                if truth {
                    r.0 = r.0.max(o.0);
                    r.2 = false;
                } else if !o.2 {
                    r.1 = r.1.min(o.1);
                }
            }
        }
        FIsNan if n.a == v && !truth => r.2 = false,
        And if truth => {
            let (x, y) = (refine(n.a, true, v), refine(n.b, true, v));
            return (x.0.max(y.0), x.1.min(y.1), x.2 && y.2);
        }
        Or if !truth => {
            let (x, y) = (refine(n.a, false, v), refine(n.b, false, v));
            return (x.0.max(y.0), x.1.min(y.1), x.2 && y.2);
        }
        _ => {}
    }
    if r.0 > r.1 {
        // dead branch unless NaN
        return if r.2 { (0.0, 0.0, true) } else { (f64::INFINITY, f64::NEG_INFINITY, false) };
    }
    r
}

/// signed bounds of an opaque integer result, when float intervals give any
pub fn atom_bounds(e: E) -> Option<(i128, i128)> {
    let n = node(e);
    if n.op == FToSSat {
        let (l, h) = ftoint(frange(n.a), n.w);
        let full = 2f64.powi(n.w as i32 - 1);
        if l > -full || h < full - 1.0 {
            let half = (mask(n.w) >> 1) as i128;
            return Some(((l as i128).max(-half - 1), (h as i128).min(half)));
        }
    }
    None
}
