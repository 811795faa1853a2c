//! Path-forking symbolic executor over LLVM IR.
use crate::expr::*;
use crate::files::{self, Files};
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    N,
    S(E),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn e(&self) -> E {
        match self {
            Val::S(e) => *e,
            _ => unsupported("scalar expected"),
        }
    }
}

#[derive(Clone, Copy)]
pub enum Byte {
    C(u8),
    S(E, u8),
    U,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub kind: Kind,
    pub bytes: Vec<Byte>,
}

pub struct Model {
    pub asg: Asg,
    memo: RefCell<HashMap<E, u128>>,
}
impl Model {
    pub fn new(asg: Asg) -> Rc<Model> {
        Rc::new(Model { asg, memo: RefCell::new(HashMap::new()) })
    }
    pub fn eval(&self, root: E) -> u128 {
        let mut memo = self.memo.borrow_mut();
        let mut st = vec![root];
        let get = |memo: &HashMap<E, u128>, e: E| -> Option<u128> {
            let n = node(e);
            match n.op {
                Op::Const => Some(n.k),
                _ => memo.get(&e).copied(),
            }
        };
        while let Some(&e) = st.last() {
            if get(&memo, e).is_some() {
                st.pop();
                continue;
            }
            let n = node(e);
            if n.op == Op::Var {
                memo.insert(e, self.asg.get(&e).copied().unwrap_or(0) & mask(n.w));
                st.pop();
                continue;
            }
            if is_fp_op(n.op) {
                if let Some(&v) = self.asg.get(&e) {
                    memo.insert(e, v);
                    st.pop();
                    continue;
                }
            }
            let args = [n.a, n.b, n.c];
            let ar = arity(n.op);
            let mut vals = [0u128; 3];
            let mut ready = true;
            for i in 0..ar {
                match get(&memo, args[i]) {
                    Some(v) => vals[i] = v,
                    None => {
                        ready = false;
                        st.push(args[i]);
                    }
                }
            }
            if ready {
                let bw = if ar > 1 { width(n.b) } else { 0 };
                let v = eval_op(n.op, n.w, n.k, width(n.a), vals[0], vals[1], vals[2], bw);
                memo.insert(e, v);
                st.pop();
            }
        }
        get(&memo, root).unwrap()
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Sym(E),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub freed: Rc<BTreeMap<u64, u64>>,
    pub cons: Vec<E>,
    pub known: HashMap<E, u128>,
    pub model: Rc<Model>,
    pub model_ok: bool,
    pub inputs: Vec<Input>,
    pub observed: Vec<E>,
    pub reached: Vec<u32>,
    pub next_addr: u64,
    pub steps: u64,
    pub nchoices: u32,
    pub sweep: Vec<E>,
    /// terms proved equal to older ones
    pub subst: HashMap<E, E>,
    pub unverified: bool,
    pub heap_live: u64,
    pub memo: Rc<RefCell<HashMap<E, E>>>,
    /// intervals learnt on this path
    pub bounds: HashMap<E, (u128, u128)>,
    pub sbounds: HashMap<E, (i128, i128)>,
    pub rmemo: Rc<RefCell<HashMap<E, (u128, u128)>>>,
    pub files: Rc<Files>,
}

#[derive(Debug, Clone)]
pub struct Candidate {
    pub what: String,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub status: String,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts_proved: u64,
    pub asserts_trivial: u64,
    pub assume_cut: u64,
    pub infeasible: u64,
    pub sweeps: u64,
    pub reached: BTreeMap<u32, u64>,
    pub candidates: Vec<Candidate>,
    pub inconclusive: Vec<String>,
    pub traces: Vec<(Vec<u64>, Vec<u64>)>,
    pub max_path_steps: u64,
}

pub struct Exec {
    pub solver: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub gindex: BTreeMap<u64, u64>,
    pub start: Instant,
    pub time_limit: f64,
    pub step_limit: u64,
    pub enum_limit: usize,
    pub shard: Option<(u64, u64)>,
    pub max_traces: usize,
    pub max_candidates: usize,
    pub prec_timeout: u64,
    pub alloc_limit: u64,
    pub rng: u64,
    pub stop: bool,
    pub seen_sites: HashMap<String, u32>,
    pub profile: bool,
    pub fork_sites: HashMap<String, u64>,
    pub query_sites: HashMap<String, (u64, f64)>,
    pub hang_is_violation: bool,
    /// values found to have many possibilities when only some of their bits were needed
    pub wide: HashMap<E, u32>,
}

enum Flow {
    Next,
    Jump,
    End,
}

pub enum Stop {
    /// path finished (already recorded)
    Done,
}

pub type R<T> = Result<T, Stop>;

pub fn hint_name(n: &str) -> String {
    // crude demangling for messages
    let mut out = String::new();
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let mut s = j;
                if s < b.len() && b[s] == b'_' {
                    s += 1;
                }
                if l > 1 && s + l <= b.len() && b[s].is_ascii_alphabetic() {
                    if !out.is_empty() {
                        out.push_str("::");
                    }
                    out.push_str(&n[s..s + l]);
                    i = s + l;
                    continue;
                }
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out
    }
}

impl Exec {
    pub fn loc(&self, dbg: u32) -> String {
        let fr = locate(dbg);
        let short = |f: &str| f.rsplit("/src/").next().map(|x| x.to_string()).unwrap_or(f.to_string());
        // prefer the innermost frame in the crate under test or harness
        let pick = fr
            .iter()
            .find(|(f, _, _)| !f.contains("/rustlib/") && !f.contains("/rustc/"))
            .or(fr.first());
        match pick {
            Some((f, l, func)) => format!("{}:{} in {}", short(f), l, func),
            None => "?".into(),
        }
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.func.blocks[f.block as usize];
            let i = f.ip.min(b.insts.len().saturating_sub(1));
            if b.insts.is_empty() {
                continue;
            }
            for (file, line, func) in locate(b.insts[i].dbg) {
                if !file.contains("/rustlib/") && !file.contains("/rustc/") {
                    let s = file.rsplit('/').next().unwrap_or("");
                    v.push(format!("{func}({s}:{line})"));
                }
            }
        }
        v.truncate(8);
        v.join(" < ")
    }

    // ------------------------------------------------------------ constraints

    pub fn simp(&self, st: &State, e: E) -> E {
        if cval(e).is_some() {
            return e;
        }
        match st.known.get(&e) {
            Some(&v) => konst(width(e), v),
            None => e,
        }
    }

    /// rewrite an expression with everything known on this path
    pub fn deep(&self, st: &State, root: E) -> E {
        if cval(root).is_some() || (st.known.is_empty() && st.bounds.is_empty() && st.subst.is_empty()) {
            return root;
        }
        let mut memo = st.memo.borrow_mut();
        let look = |memo: &HashMap<E, E>, e: E| -> Option<E> {
            let n = node(e);
            if n.op == Op::Const {
                return Some(e);
            }
            if let Some(&v) = st.known.get(&e) {
                return Some(konst(n.w, v));
            }
            if n.op == Op::Var {
                return Some(e);
            }
            if let Some(&x) = st.subst.get(&e) {
                return Some(x);
            }
            memo.get(&e).copied()
        };
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if look(&memo, e).is_some() {
                stack.pop();
                continue;
            }
            let n = node(e);
            let args = [n.a, n.b, n.c];
            let ar = arity(n.op);
            let mut v = [0; 3];
            let mut ready = true;
            for k in 0..ar {
                match look(&memo, args[k]) {
                    Some(x) => v[k] = x,
                    None => {
                        ready = false;
                        stack.push(args[k]);
                    }
                }
            }
            if ready {
                let mut r = if v[..ar] == args[..ar] { e } else { rebuild(&n, v[0], v[1], v[2]) };
                if r != e {
                    if let Some(&x) = st.known.get(&r) {
                        r = konst(n.w, x);
                    }
                }
                if n.w <= 128 && cval(r).is_none() {
                    let (lo, hi) = self.prange(st, r);
                    if lo == hi {
                        r = konst(n.w, lo);
                    }
                }
                memo.insert(e, r);
                stack.pop();
            }
        }
        look(&memo, root).unwrap()
    }

    fn know(&self, st: &mut State, e: E, v: u128) {
        if st.known.insert(e, v) != Some(v) {
            st.memo = Default::default();
            st.rmemo = Default::default();
        }
    }

    /// interval of an expression given the facts learnt on this path
    pub fn prange(&self, st: &State, e: E) -> (u128, u128) {
        let n = node(e);
        if n.op == Op::Const {
            return (n.k, n.k);
        }
        if let Some(&v) = st.known.get(&e) {
            return (v, v);
        }
        if let Some(&r) = st.rmemo.borrow().get(&e) {
            return r;
        }
        let base = range(e);
        let mut r = if n.op == Op::Var { base } else { range_with(&n, &mut |x| self.prange(st, x)) };
        r = (r.0.max(base.0), r.1.min(base.1));
        if let Some(&(l, h)) = st.bounds.get(&e) {
            r = (r.0.max(l), r.1.min(h));
        }
        if r.0 > r.1 {
            // contradictory facts: the path is infeasible, let the solver say so
            r = base;
        }
        st.rmemo.borrow_mut().insert(e, r);
        r
    }

    fn bound(&self, st: &mut State, e: E, lo: u128, hi: u128) {
        if cval(e).is_some() {
            return;
        }
        let b = st.bounds.entry(e).or_insert((0, mask(width(e))));
        let nb = (b.0.max(lo), b.1.min(hi));
        if nb != *b && nb.0 <= nb.1 {
            *b = nb;
            st.memo = Default::default();
            st.rmemo = Default::default();
            // on to what it is made of
            let n = node(e);
            match n.op {
                Op::Add => {
                    if let Some(c) = cval(n.b) {
                        let m = mask(n.w);
                        let (l, h) = (nb.0.wrapping_sub(c) & m, nb.1.wrapping_sub(c) & m);
                        if l <= h {
                            self.bound(st, n.a, l, h);
                        }
                    }
                }
                Op::ZExt => {
                    let m = mask(width(n.a));
                    if nb.0 <= m {
                        self.bound(st, n.a, nb.0, nb.1.min(m));
                    }
                }
                _ => {}
            }
        }
    }

    fn sbound(&self, st: &mut State, e: E, lo: i128, hi: i128) {
        if cval(e).is_some() {
            return;
        }
        let w = width(e);
        let half = (mask(w) >> 1) as i128;
        let b = st.sbounds.entry(e).or_insert((-half - 1, half));
        *b = (b.0.max(lo), b.1.min(hi));
        let (l, h) = *b;
        if l > h {
            return;
        }
        if l >= 0 {
            self.bound(st, e, l as u128, h as u128);
        } else if h < 0 {
            self.bound(st, e, l as u128 & mask(w), h as u128 & mask(w));
        }
    }

    /// interval facts implied by `c == truth`
    fn learn_bounds(&self, st: &mut State, c: E, truth: bool) {
        let n = node(c);
        match n.op {
            Op::Ult => {
                let m = mask(width(n.a));
                let (ra, rb) = (self.prange(st, n.a), self.prange(st, n.b));
                if truth {
                    if rb.1 > 0 {
                        self.bound(st, n.a, 0, rb.1 - 1);
                    }
                    if ra.0 < m {
                        self.bound(st, n.b, ra.0 + 1, m);
                    }
                } else {
                    self.bound(st, n.a, rb.0, m);
                    self.bound(st, n.b, 0, ra.1);
                }
            }
            Op::Slt => {
                let w = width(n.a);
                let half = (mask(w) >> 1) as i128;
                if let Some(y) = cval(n.b) {
                    let y = sext_u(y, w);
                    if truth {
                        self.sbound(st, n.a, -half - 1, y - 1);
                    } else {
                        self.sbound(st, n.a, y, half);
                    }
                }
                if let Some(x) = cval(n.a) {
                    let x = sext_u(x, w);
                    if truth {
                        self.sbound(st, n.b, x + 1, half);
                    } else {
                        self.sbound(st, n.b, -half - 1, x);
                    }
                }
            }
            Op::Eq if !truth => {
                if let Some(y) = cval(n.b) {
                    let r = self.prange(st, n.a);
                    if r.0 < r.1 {
                        if r.0 == y {
                            self.bound(st, n.a, y + 1, r.1);
                        } else if r.1 == y {
                            self.bound(st, n.a, r.0, y - 1);
                        }
                    }
                }
            }
            Op::Extract if n.w == 1 && n.k as u16 + 1 == width(n.a) => {
                let w = width(n.a);
                let half = (mask(w) >> 1) as i128;
                if truth {
                    self.sbound(st, n.a, -half - 1, -1);
                } else {
                    self.sbound(st, n.a, 0, half);
                }
            }
            _ => {}
        }
    }

    pub fn learn(&self, st: &mut State, c: E) {
        if cval(c).is_some() {
            return;
        }
        let n = node(c);
        if n.op == Op::And && n.w == 1 {
            self.learn(st, n.a);
            self.learn(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = node(n.a);
            if m.op == Op::Or {
                self.learn(st, not(m.a));
                self.learn(st, not(m.b));
                return;
            }
            self.know(st, n.a, 0);
            self.learn_bounds(st, n.a, false);
        } else {
            self.learn_bounds(st, c, true);
        }
        self.know(st, c, 1);
        if n.op == Op::Eq {
            if let Some(v) = cval(n.b) {
                self.know(st, n.a, v);
            }
        }
        st.cons.push(c);
    }

    fn merged(&self, st: &State, seed: &[E], asg: Asg) -> Rc<Model> {
        let mut m: Asg = st.model.asg.clone();
        // opaque float results of the constraints left alone keep their values even when the
        // inputs below them move
        let inq: std::collections::HashSet<E> = seed.iter().copied().collect();
        for &c in &st.cons {
            if inq.contains(&c) {
                continue;
            }
            for &x in avarset(c).iter() {
                if node(x).op != Op::Var && !m.contains_key(&x) {
                    let v = st.model.eval(x);
                    m.insert(x, v);
                }
            }
        }
        m.extend(asg);
        Model::new(m)
    }

    /// is `pc /\ c` satisfiable?  Returns a full model when it is.
    pub fn feasible(&mut self, st: &State, c: E) -> (Res, Option<Rc<Model>>) {
        if cval(c) == Some(0) {
            return (Res::Unsat, None);
        }
        if st.model_ok && st.model.eval(c) != 0 {
            return (Res::Sat(Asg::new()), Some(st.model.clone()));
        }
        let mut q = Solver::slice(&st.cons, &[c], Fp::Abstract);
        let to = self.solver.timeout_ms;
        let t0 = Instant::now();
        q.push(c);
        let r = self.solver.check(&q, Fp::Abstract, to);
        if self.profile {
            let b = format!("{} :: {}", self.backtrace(st).split(" < ").take(2).collect::<Vec<_>>().join(" < "), show(c, 4));
            let x = self.query_sites.entry(b).or_insert((0, 0.0));
            x.0 += 1;
            x.1 += t0.elapsed().as_secs_f64();
        }
        match r {
            Res::Sat(a) => {
                let m = self.merged(st, &q, a.clone());
                (Res::Sat(a), Some(m))
            }
            o => (o, None),
        }
    }

    /// Decide a branch; the returned bool is the direction the current state takes.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        let c0 = self.simp(st, c);
        let c = self.deep(st, c0);
        if let Some(v) = cval(c) {
            if c != c0 {
                self.know(st, c0, v);
            }
            return Ok(v != 0);
        }
        let nc = not(c);
        let (rt, mt) = self.feasible(st, c);
        let (rf, mf) = self.feasible(st, nc);
        let unk = matches!(rt, Res::Unknown) || matches!(rf, Res::Unknown);
        match (&rt, &rf) {
            (Res::Unsat, Res::Unsat) => {
                self.rep.infeasible += 1;
                return Err(Stop::Done);
            }
            (Res::Unsat, _) => {
                self.know(st, c, 0);
                return Ok(false);
            }
            (_, Res::Unsat) => {
                self.know(st, c, 1);
                return Ok(true);
            }
            _ => {}
        }
        if unk {
            st.unverified = true;
        }
        self.note_fork(st);
        // fork: other side goes to the worklist, re-executing this instruction
        let mut other = st.clone();
        self.learn(&mut other, nc);
        match mf {
            Some(m) => {
                other.model = m;
                other.model_ok = true
            }
            None => other.model_ok = false,
        }
        self.work.push(other);
        self.learn(st, c);
        match mt {
            Some(m) => {
                st.model = m;
                st.model_ok = true
            }
            None => st.model_ok = false,
        }
        Ok(true)
    }

    fn note_fork(&mut self, st: &State) {
        self.rep.forks += 1;
        if self.profile {
            let b = self.backtrace(st);
            *self.fork_sites.entry(b).or_insert(0) += 1;
        }
    }

    /// fork over all feasible values of `e`
    pub fn concretize(&mut self, st: &mut State, e: E, why: &str) -> R<u128> {
        let e0 = self.simp(st, e);
        let e = self.deep(st, e0);
        if let Some(v) = cval(e) {
            if e != e0 {
                self.know(st, e0, v);
            }
            return Ok(v);
        }
        // when only some bits are asked for, try to settle the whole value: a cursor is
        // usually looked at again with other bits
        let e = {
            let mut b = e;
            loop {
                let n = node(b);
                b = match n.op {
                    Op::ZExt | Op::Extract => n.a,
                    Op::Add | Op::Sub | Op::And | Op::Mul | Op::Shl | Op::LShr if cval(n.b).is_some() => n.a,
                    _ => break,
                };
            }
            if b != e && self.wide.get(&b).map_or(true, |&n| n < 2) && self.few(st, b, 16) {
                self.concretize_to(st, b, why)?;
                let r = self.deep(st, e);
                if let Some(v) = cval(r) {
                    return Ok(v);
                }
                r
            } else {
                if b != e {
                    *self.wide.entry(b).or_insert(0) += 1;
                }
                e
            }
        };
        self.concretize_to(st, e, why)
    }

    /// How much to allocate for `e` bytes: the size, or when it has many values, a bound on it.
    /// Overruns that stay within the bound then go unnoticed (see DESIGN.md).
    fn allocation(&mut self, st: &mut State, e: E) -> R<u128> {
        let e0 = self.simp(st, e);
        let e = self.deep(st, e0);
        if let Some(v) = cval(e) {
            return Ok(v);
        }
        let (_, hi) = self.prange(st, e);
        if self.few(st, e, 3) {
            return self.concretize(st, e, "allocation size");
        }
        if hi <= 1 << 16 {
            return Ok(hi);
        }
        for limit in [1 << 12, 1 << 16, 1 << 20, 1 << 23] {
            if let (Res::Unsat, _) = self.feasible(st, ult(konst(width(e), limit), e)) {
                return Ok(limit);
            }
        }
        self.concretize(st, e, "allocation size")
    }

    /// does `e` take at most `n` values here?
    fn few(&mut self, st: &State, e: E, n: usize) -> bool {
        let mut probe = st.clone();
        let w = width(e);
        for _ in 0..=n {
            let v = if probe.model_ok {
                probe.model.eval(e)
            } else {
                match self.feasible(&probe, tru()) {
                    (Res::Sat(_), Some(m)) => m.eval(e),
                    _ => return false,
                }
            };
            let ne = not(eq(e, konst(w, v)));
            probe.model_ok = true;
            match self.feasible(&probe, ne) {
                (Res::Unsat, _) => return true,
                (Res::Sat(_), Some(m)) => {
                    self.learn(&mut probe, ne);
                    probe.model = m;
                }
                _ => return false,
            }
        }
        false
    }

    fn concretize_to(&mut self, st: &mut State, e: E, why: &str) -> R<u128> {
        let w = width(e);
        let mut found: Vec<(u128, Option<Rc<Model>>)> = vec![];
        let mut probe = st.clone();
        loop {
            let (v, m) = if probe.model_ok {
                (probe.model.eval(e), Some(probe.model.clone()))
            } else {
                let (r, m) = self.feasible(&probe, tru());
                match (r, m) {
                    (Res::Sat(_), Some(m)) => (m.eval(e), Some(m)),
                    _ => {
                        self.inconclusive(st, &format!("cannot enumerate values ({why})"));
                        return Err(Stop::Done);
                    }
                }
            };
            found.push((v, m));
            if found.len() > self.enum_limit {
                self.inconclusive(st, &format!("more than {} values ({why})", self.enum_limit));
                return Err(Stop::Done);
            }
            let ne = not(eq(e, konst(w, v)));
            probe.model_ok = true; // feasible() tests the model itself first
            let (r, m) = self.feasible(&probe, ne);
            match r {
                Res::Unsat => break,
                Res::Unknown => {
                    self.inconclusive(st, &format!("solver gave up enumerating values ({why})"));
                    return Err(Stop::Done);
                }
                Res::Sat(_) => {
                    self.learn(&mut probe, ne);
                    probe.model = m.unwrap();
                }
            }
        }
        if found.len() > 1 {
            for _ in 1..found.len() {
                self.note_fork(st);
            }
        }
        for (v, m) in found.iter().skip(1) {
            let mut o = st.clone();
            let c = eq(e, konst(w, *v));
            self.learn(&mut o, c);
            self.know(&mut o, e, *v);
            if let Some(m) = m {
                o.model = m.clone();
                o.model_ok = true;
            }
            self.work.push(o);
        }
        let (v, m) = found[0].clone();
        if found.len() > 1 {
            let c = eq(e, konst(w, v));
            self.learn(st, c);
        }
        self.know(st, e, v);
        if let Some(m) = m {
            st.model = m;
            st.model_ok = true;
        }
        Ok(v)
    }

    fn inconclusive(&mut self, st: &State, what: &str) {
        let b = self.backtrace(st);
        let s = format!("{what} at {b}");
        if self.rep.inconclusive.len() < 20 {
            self.rep.inconclusive.push(s);
        } else if self.rep.inconclusive.len() == 20 {
            self.rep.inconclusive.push("...".into());
        }
    }

    // ------------------------------------------------------------ memory

    fn materialize(&mut self, addr: u64) -> Option<u64> {
        // global containing addr
        let m = module();
        let base = *m.addr_of.values().filter(|&&b| b >= GLOB_BASE && b <= addr).max()?;
        if self.globals.contains_key(&base) {
            return Some(base);
        }
        let (ty, constant, init) = m.global_init(base);
        let size = ty.size();
        if addr > base + size {
            return None;
        }
        let mut o = Obj {
            base,
            kind: if constant { Kind::Const } else { Kind::Global },
            bytes: vec![Byte::C(0); size as usize],
        };
        if let Some(v) = init {
            let v = opd_val(&v);
            put_val(&mut o.bytes, 0, &ty, &v);
        }
        self.globals.insert(base, Rc::new(o));
        Some(base)
    }

    /// locate the object for [addr, addr+len); reports a violation when there is none
    fn find(&mut self, st: &mut State, addr: u64, len: u64, write: bool) -> R<u64> {
        if let Some((&b, o)) = st.mem.range(..=addr).next_back() {
            let size = o.bytes.len() as u64;
            if addr.wrapping_sub(b) <= size && len <= size - (addr - b) {
                if write && o.kind == Kind::Const {
                    self.violation(st, "write to constant memory", None);
                    return Err(Stop::Done);
                }
                return Ok(b);
            }
        }
        if (GLOB_BASE..0x2_0000_0000).contains(&addr) {
            if let Some(b) = self.materialize(addr) {
                if !st.mem.contains_key(&b) {
                    let o = self.globals[&b].clone();
                    st.mem.insert(b, o);
                    return self.find(st, addr, len, write);
                }
            }
        }
        let uaf = st.freed.range(..=addr).next_back().is_some_and(|(&b, &s)| addr < b + s.max(1));
        let what = if uaf {
            format!("use after free: {} of {len} bytes at {addr:#x}", if write { "write" } else { "read" })
        } else {
            format!("out-of-bounds {} of {len} bytes at {addr:#x}", if write { "write" } else { "read" })
        };
        self.violation(st, &what, None);
        Err(Stop::Done)
    }

    pub fn read_bytes(&mut self, st: &mut State, addr: u64, len: u64) -> R<Vec<Byte>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let b = self.find(st, addr, len, false)?;
        let o = &st.mem[&b];
        let off = (addr - b) as usize;
        Ok(o.bytes[off..off + len as usize].to_vec())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, data: &[Byte]) -> R<()> {
        if data.is_empty() {
            return Ok(());
        }
        let b = self.find(st, addr, data.len() as u64, true)?;
        let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
        let off = (addr - b) as usize;
        o.bytes[off..off + data.len()].copy_from_slice(data);
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let al = align.max(16);
        let base = st.next_addr.next_multiple_of(al);
        st.next_addr = base + size + 64;
        let bytes = vec![if zero { Byte::C(0) } else { Byte::U }; size as usize];
        st.mem.insert(base, Rc::new(Obj { base, kind, bytes }));
        if kind == Kind::Heap {
            st.heap_live += 1;
        }
        base
    }
    fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        match st.mem.get(&addr) {
            Some(o) if o.kind == Kind::Heap => {
                let s = o.bytes.len() as u64;
                st.mem.remove(&addr);
                Rc::make_mut(&mut st.freed).insert(addr, s);
                st.heap_live -= 1;
                Ok(())
            }
            _ => {
                let dbl = st.freed.contains_key(&addr);
                self.violation(st, if dbl { "double free" } else { "invalid free" }, None);
                Err(Stop::Done)
            }
        }
    }

    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        if ty.is_agg() {
            let n = match ty {
                Ty::Arr(n, _) => *n as usize,
                Ty::Struct(f, _) => f.len(),
                _ => 0,
            };
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let ft = match ty {
                    Ty::Arr(_, t) => (**t).clone(),
                    Ty::Struct(f, _) => f[i].clone(),
                    _ => unreachable!(),
                };
                v.push(self.load(st, addr + ty.field_offset(i), &ft)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let w = ty.bits();
        let n = (w as u64).div_ceil(8);
        let b = self.read_bytes(st, addr, n)?;
        let e = join(&b);
        let e = if width(e) > w { extract(e, 0, w) } else { e };
        Ok(Val::S(self.simp(st, e)))
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_agg() {
            let Val::A(xs) = v else { unsupported("aggregate store") };
            for (i, x) in xs.iter().enumerate() {
                let ft = match ty {
                    Ty::Arr(_, t) => (**t).clone(),
                    Ty::Struct(f, _) => f[i].clone(),
                    _ => unreachable!(),
                };
                self.store(st, addr + ty.field_offset(i), &ft, x)?;
            }
            return Ok(());
        }
        if let Val::N = v {
            let n = ty.size();
            return self.write_bytes(st, addr, &vec![Byte::U; n as usize]);
        }
        let b = split(v.e());
        self.write_bytes(st, addr, &b)
    }

    // ------------------------------------------------------------ path ends

    /// A concrete input vector satisfying the path condition under real float semantics.
    fn concrete_inputs(&mut self, st: &State, extra: &[E]) -> Result<Option<Vec<u64>>, String> {
        let mut all: Vec<E> = st.cons.clone();
        all.extend_from_slice(extra);
        // models restricted to input variables, floats evaluated by the host
        let mut asg: Asg = Asg::new();
        let base = if st.model_ok { st.model.asg.clone() } else { Asg::new() };
        for (k, v) in base {
            if node(k).op == Op::Var {
                asg.insert(k, v);
            }
        }
        let mut unknown = false;
        for round in 0..3 {
            let m = Model::new(asg.clone());
            let bad: Vec<E> = all.iter().copied().filter(|&c| m.eval(c) == 0).collect();
            if bad.is_empty() {
                return Ok(Some(self.vector(st, &m)));
            }
            if round == 2 {
                break;
            }
            let mut done: std::collections::HashSet<E> = Default::default();
            for b in bad {
                if done.contains(&b) {
                    continue;
                }
                let q = {
                    let mut q = Solver::slice(&all, &[b], Fp::Precise);
                    if !q.contains(&b) {
                        q.push(b)
                    }
                    q
                };
                done.extend(q.iter().copied());
                let quick = local_search(&q, &asg, &mut self.rng, 3000);
                if let Some(a) = quick {
                    asg.extend(a);
                    continue;
                }
                let to = self.prec_timeout;
                match self.solver.check(&q, Fp::Precise, to) {
                    Res::Unsat => return Ok(None),
                    Res::Sat(a) => {
                        for (k, v) in a {
                            if node(k).op == Op::Var {
                                asg.insert(k, v);
                            }
                        }
                    }
                    Res::Unknown => {
                        unknown = true;
                        if let Some(a) = local_search(&q, &asg, &mut self.rng, 60000) {
                            asg.extend(a);
                            unknown = false;
                        }
                    }
                }
            }
        }
        Err(if unknown { "solver gave up on float constraints".into() } else { "model not concrete".into() })
    }

    fn vector(&self, st: &State, m: &Model) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Sym(e) => m.eval(*e) as u64,
                Input::Choice(v) => *v,
            })
            .collect()
    }

    pub fn violation(&mut self, st: &mut State, what: &str, extra: Option<E>) {
        let bt = self.backtrace(st);
        let key = format!("{what}@{bt}");
        let n = self.seen_sites.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return; // same site already reported from other paths
        }
        let ex: Vec<E> = extra.into_iter().collect();
        let r = self.concrete_inputs(st, &ex);
        match r {
            Ok(None) => {
                self.rep.infeasible += 1;
                *self.seen_sites.get_mut(&format!("{what}@{bt}")).unwrap() -= 1;
            }
            Ok(Some(v)) => {
                self.rep.candidates.push(Candidate {
                    what: what.to_string(),
                    loc: bt,
                    inputs: v,
                    status: "confirmed-by-evaluation".into(),
                });
                if self.rep.candidates.len() >= self.max_candidates {
                    self.stop = true;
                }
            }
            Err(e) => {
                let b = format!("possible violation not confirmed ({e}): {what} at {bt}");
                if self.rep.inconclusive.len() < 20 {
                    self.rep.inconclusive.push(b);
                }
            }
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn finish(&mut self, st: &mut State) {
        self.rep.paths += 1;
        for r in &st.reached {
            *self.rep.reached.entry(*r).or_insert(0) += 1;
        }
        if st.unverified {
            self.inconclusive(st, "solver gave up on a branch of this path");
        }
        // keep a spread of traces for replay against the native build
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let keep = self.rep.traces.len() < self.max_traces
            || (self.rng >> 33) % self.rep.paths < self.max_traces as u64;
        if keep {
            let asg: Asg = st.model.asg.iter().filter(|(k, _)| node(**k).op == Op::Var).map(|(k, v)| (*k, *v)).collect();
            let mut asg = asg;
            let mut m = Model::new(asg.clone());
            if st.cons.iter().all(|&c| m.eval(c) != 0) {
                // move to a less special point of the same path
                let t0 = std::time::Instant::now();
                let syms: Vec<E> = st.inputs.iter().filter_map(|i| if let Input::Sym(e) = i { Some(*e) } else { None }).collect();
                for k in 0..3 * syms.len().min(40) {
                    if t0.elapsed().as_millis() > 300 {
                        break;
                    }
                    let e = syms[if syms.len() <= 40 { k % syms.len() } else { self.rand() as usize % syms.len() }];
                    let w = width(e);
                    let v = match (w, self.rand() % 3) {
                        (32, 0) => ((self.rand() % 65536) as f32 / 32768.0 - 1.0).to_bits() as u128,
                        (_, 1) => (self.rand() % 64) as u128,
                        _ => (self.rand() as u128) << 64 | self.rand() as u128,
                    } & mask(w);
                    let mut a2 = asg.clone();
                    a2.insert(e, v);
                    let m2 = Model::new(a2.clone());
                    if st.cons.iter().all(|&c| m2.eval(c) != 0) {
                        asg = a2;
                        m = m2;
                    }
                }
                let t = (self.vector(st, &m), st.observed.iter().map(|&e| m.eval(e) as u64).collect());
                if self.rep.traces.len() < self.max_traces {
                    self.rep.traces.push(t);
                } else {
                    let i = (self.rng >> 20) as usize % self.max_traces;
                    self.rep.traces[i] = t;
                }
            }
        }
    }

    // ------------------------------------------------------------ running

    pub fn run(&mut self, entry: &str) {
        let f = module().func(entry).unwrap_or_else(|| unsupported(&format!("no function {entry}")));
        let st = State {
            frames: vec![Frame {
                regs: vec![Val::N; f.nregs],
                func: f,
                block: 0,
                ip: 0,
                allocas: vec![],
                ret_dst: None,
            }],
            mem: BTreeMap::new(),
            freed: Rc::new(BTreeMap::new()),
            cons: vec![],
            known: HashMap::new(),
            model: Model::new(Asg::new()),
            model_ok: true,
            inputs: vec![],
            observed: vec![],
            reached: vec![],
            next_addr: 0x10_0000_0000,
            steps: 0,
            nchoices: 0,
            sweep: vec![],
            subst: HashMap::new(),
            unverified: false,
            heap_live: 0,
            memo: Default::default(),
            bounds: HashMap::new(),
            sbounds: HashMap::new(),
            rmemo: Default::default(),
            files: Default::default(),
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.stop {
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.time_limit {
                let n = self.work.len() + 1;
                self.inconclusive(&st, &format!("time limit with {n} states left"));
                break;
            }
            let s0 = st.steps;
            loop {
                if st.steps & 0xfff == 0 && self.start.elapsed().as_secs_f64() > self.time_limit {
                    let n = self.work.len() + 1;
                    self.inconclusive(&st, &format!("time limit with {n} states left"));
                    self.stop = true;
                    break;
                }
                st.steps += 1;
                if st.steps > self.step_limit {
                    if self.hang_is_violation {
                        self.violation(&mut st, "no termination within the step limit", None);
                    } else {
                        self.inconclusive(&st, "step limit");
                    }
                    break;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.step(&mut st)));
                match r {
                    Ok(Ok(true)) => {}
                    Ok(Ok(false)) | Ok(Err(Stop::Done)) => break,
                    Err(p) => {
                        let m = if let Some(u) = p.downcast_ref::<Unsupported>() {
                            u.0.clone()
                        } else if let Some(s) = p.downcast_ref::<String>() {
                            s.clone()
                        } else if let Some(s) = p.downcast_ref::<&str>() {
                            s.to_string()
                        } else {
                            "engine error".into()
                        };
                        self.inconclusive(&st, &format!("engine: {m}"));
                        break;
                    }
                }
            }
            self.rep.steps += st.steps - s0;
            self.rep.max_path_steps = self.rep.max_path_steps.max(st.steps);
        }
    }

    fn opd(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                match v {
                    Val::S(e) if !st.known.is_empty() => Val::S(self.simp(st, *e)),
                    _ => v.clone(),
                }
            }
            _ => opd_val(o),
        }
    }

    pub fn set(&self, st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let from = f.block;
        let phis = &func.blocks[to as usize].phis;
        let vals: Vec<(u32, Val)> = phis
            .iter()
            .map(|(d, m)| {
                let o = m.get(&from).unwrap_or_else(|| unsupported("phi edge"));
                (*d, self.opd(st, o))
            })
            .collect();
        let f = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.block = to;
        f.ip = 0;
        func.covered.borrow_mut()[to as usize] += 1;
    }

    /// executes one instruction; Ok(false) = path over
    fn step(&mut self, st: &mut State) -> R<bool> {
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let inst = &func.blocks[f.block as usize].insts[f.ip];
        let flow = self.exec(st, inst)?;
        match flow {
            Flow::Next => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(true)
            }
            Flow::Jump => Ok(true),
            Flow::End => Ok(false),
        }
    }

    fn exec(&mut self, st: &mut State, i: &I) -> R<Flow> {
        match &i.inst {
            Inst::Nop => {}
            Inst::Bin(op, ty, a, b) => {
                let (a, b) = (self.opd(st, a).e(), self.opd(st, b).e());
                let v = self.binop(st, op, ty, a, b)?;
                let v = self.simp(st, v);
                self.set(st, i.dst, Val::S(v));
            }
            Inst::ICmp(p, ty, a, b) => {
                let (a, b) = (self.opd(st, a).e(), self.opd(st, b).e());
                let v = match ty {
                    Ty::Vec(n, t) => lanes2(*n, t.bits(), a, b, |x, y| icmp(p, x, y)),
                    _ => icmp(p, a, b),
                };
                let v = self.simp(st, v);
                self.set(st, i.dst, Val::S(v));
            }
            Inst::FCmp(p, ty, a, b) => {
                if let Ty::Vec(..) = ty {
                    unsupported("vector fcmp")
                }
                let (a, b) = (self.opd(st, a).e(), self.opd(st, b).e());
                let v = fcmp_pred(p, a, b);
                let v = self.simp(st, v);
                self.set(st, i.dst, Val::S(v));
            }
            Inst::FNeg(ty, a) => {
                let a = self.opd(st, a).e();
                let w = ty.bits();
                self.set(st, i.dst, Val::S(bin(Op::Xor, a, konst(w, 1u128 << (w - 1)))));
            }
            Inst::Cast(c, from, a, to) => {
                let a = self.opd(st, a).e();
                let v = self.cast(st, *c, from, a, to)?;
                let v = self.simp(st, v);
                self.set(st, i.dst, Val::S(v));
            }
            Inst::Select(ty, c, a, b) => {
                let c = self.opd(st, c).e();
                let (a, b) = (self.opd(st, a), self.opd(st, b));
                let v = self.select(st, ty, c, a, b)?;
                self.set(st, i.dst, v);
            }
            Inst::Load(ty, p) => {
                let p = self.opd(st, p).e();
                let addr = self.addr(st, p, "load address")?;
                let v = self.load(st, addr, ty)?;
                self.set(st, i.dst, v);
            }
            Inst::Store(ty, v, p) => {
                let p = self.opd(st, p).e();
                let addr = self.addr(st, p, "store address")?;
                let v = self.opd(st, v);
                self.store(st, addr, ty, &v)?;
            }
            Inst::Gep(b, off, idx) => {
                let mut a = self.opd(st, b).e();
                for (o, w, scale) in idx {
                    let x = self.opd(st, o).e();
                    let x = if *w < 64 { sext(x, 64) } else { x };
                    a = bin(Op::Add, a, bin(Op::Mul, x, konst(64, *scale as u128)));
                }
                let v = bin(Op::Add, a, konst(64, *off as u128));
                self.set(st, i.dst, Val::S(v));
            }
            Inst::Alloca(size, al) => {
                let a = self.alloc(st, *size, *al, Kind::Stack, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, i.dst, Val::S(konst(64, a as u128)));
            }
            Inst::Br(t) => {
                self.jump(st, *t);
                return Ok(Flow::Jump);
            }
            Inst::CondBr(c, a, b) => {
                let c = self.opd(st, c).e();
                let t = self.branch(st, c)?;
                self.jump(st, if t { *a } else { *b });
                return Ok(Flow::Jump);
            }
            Inst::Switch(v, w, d, cases) => {
                let v = self.opd(st, v).e();
                let v = self.simp(st, v);
                let mut target = *d;
                for (c, t) in cases {
                    let cond = eq(v, konst(*w, *c));
                    if self.branch(st, cond)? {
                        target = *t;
                        break;
                    }
                }
                self.jump(st, target);
                return Ok(Flow::Jump);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => self.opd(st, o),
                    None => Val::N,
                };
                let f = st.frames.pop().unwrap();
                for a in &f.allocas {
                    let o = st.mem.remove(a).unwrap();
                    Rc::make_mut(&mut st.freed).insert(*a, o.bytes.len() as u64);
                }
                if st.frames.is_empty() {
                    self.finish(st);
                    return Ok(Flow::End);
                }
                self.set(st, f.ret_dst, v);
                return Ok(Flow::Next);
            }
            Inst::Unreachable => {
                self.violation(st, "reached code marked unreachable", None);
                return Ok(Flow::End);
            }
            Inst::ExtractValue(a, idx) => {
                let mut v = self.opd(st, a);
                for k in idx {
                    v = match v {
                        Val::A(x) => x[*k as usize].clone(),
                        _ => Val::N,
                    };
                }
                if let Val::S(e) = v {
                    v = Val::S(self.simp(st, e));
                }
                self.set(st, i.dst, v);
            }
            Inst::InsertValue(ty, a, x, idx) => {
                let mut v = self.opd(st, a);
                if let Val::N = v {
                    v = opd_val(&Opd::Undef(ty.clone()));
                }
                let x = self.opd(st, x);
                let v = insert(&v, idx, x);
                self.set(st, i.dst, v);
            }
            Inst::Freeze(a) => {
                let v = self.opd(st, a);
                self.set(st, i.dst, v);
            }
            Inst::AtomicRmw(op, ty, p, v) => {
                let p = self.opd(st, p).e();
                let addr = self.addr(st, p, "atomic address")?;
                let v = self.opd(st, v).e();
                let old = self.load(st, addr, ty)?;
                let o = old.e();
                let n = match *op {
                    "xchg" => v,
                    "add" => bin(Op::Add, o, v),
                    "sub" => bin(Op::Sub, o, v),
                    "and" => bin(Op::And, o, v),
                    "or" => bin(Op::Or, o, v),
                    "xor" => bin(Op::Xor, o, v),
                    _ => unsupported("atomicrmw"),
                };
                self.store(st, addr, ty, &Val::S(n))?;
                self.set(st, i.dst, old);
            }
            Inst::CmpXchg(ty, p, c, n) => {
                let p = self.opd(st, p).e();
                let addr = self.addr(st, p, "atomic address")?;
                let (c, n) = (self.opd(st, c).e(), self.opd(st, n).e());
                let old = self.load(st, addr, ty)?.e();
                let ok = eq(old, c);
                let nv = ite(ok, n, old);
                self.store(st, addr, ty, &Val::S(nv))?;
                self.set(st, i.dst, Val::A(Rc::new(vec![Val::S(old), Val::S(ok)])));
            }
            Inst::ExtractElem(ty, v, k) => {
                let Ty::Vec(_, t) = ty else { unsupported("extractelement") };
                let v = self.opd(st, v).e();
                let k = self.opd(st, k).e();
                let k = self.concretize(st, k, "vector index")? as u16;
                self.set(st, i.dst, Val::S(extract(v, k * t.bits(), t.bits())));
            }
            Inst::InsertElem(ty, v, x, k) => {
                let Ty::Vec(n, t) = ty else { unsupported("insertelement") };
                let v = self.opd(st, v).e();
                let x = self.opd(st, x).e();
                let k = self.opd(st, k).e();
                let k = self.concretize(st, k, "vector index")? as u32;
                let w = t.bits();
                let mut l: Vec<E> = (0..*n).map(|j| extract(v, j as u16 * w, w)).collect();
                l[k as usize] = x;
                self.set(st, i.dst, Val::S(pack(&l)));
            }
            Inst::Shuffle(ty, a, b, mask) => {
                let Ty::Vec(n, t) = ty else { unsupported("shuffle") };
                let (a, b) = (self.opd(st, a).e(), self.opd(st, b).e());
                let w = t.bits();
                let l: Vec<E> = mask
                    .iter()
                    .map(|m| match m {
                        None => konst(w, 0),
                        Some(k) if k < n => extract(a, *k as u16 * w, w),
                        Some(k) => extract(b, (*k - *n) as u16 * w, w),
                    })
                    .collect();
                self.set(st, i.dst, Val::S(pack(&l)));
            }
            Inst::Bad(s) => unsupported(&format!("instruction {s}")),
            Inst::Call(callee, args, ret) => return self.call(st, i, callee, args, ret),
        }
        Ok(Flow::Next)
    }

    fn addr(&mut self, st: &mut State, p: E, why: &str) -> R<u64> {
        Ok(self.concretize(st, p, why)? as u64)
    }

    fn select(&mut self, st: &mut State, ty: &Ty, c: E, a: Val, b: Val) -> R<Val> {
        let c = self.simp(st, c);
        if let Some(v) = cval(c) {
            return Ok(if v != 0 { a } else { b });
        }
        Ok(match (a, b) {
            (Val::S(x), Val::S(y)) => {
                if *ty == Ty::Ptr && cval(x).is_some() && cval(y).is_some() {
                    // keep pointers concrete
                    let t = self.branch(st, c)?;
                    Val::S(if t { x } else { y })
                } else {
                    Val::S(self.simp(st, ite(c, x, y)))
                }
            }
            (a, b) => {
                let t = self.branch(st, c)?;
                if t {
                    a
                } else {
                    b
                }
            }
        })
    }

    fn binop(&mut self, st: &mut State, op: &'static str, ty: &Ty, a: E, b: E) -> R<E> {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let mut l = vec![];
            for k in 0..*n {
                let x = extract(a, k as u16 * w, w);
                let y = extract(b, k as u16 * w, w);
                l.push(self.binop(st, op, t, x, y)?);
            }
            return Ok(pack(&l));
        }
        Ok(match op {
            "add" => bin(Op::Add, a, b),
            "sub" => bin(Op::Sub, a, b),
            "mul" => bin(Op::Mul, a, b),
            "and" => bin(Op::And, a, b),
            "or" => bin(Op::Or, a, b),
            "xor" => bin(Op::Xor, a, b),
            "shl" | "lshr" | "ashr" => {
                let w = width(a);
                let mut s = b;
                if cval(s).is_none() && cval(a) != Some(0) {
                    // case split on the amount: keeps bit positions concrete
                    s = konst(w, self.concretize(st, s, "shift amount")?);
                }
                let o = match op {
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                bin(o, a, s)
            }
            "udiv" | "urem" | "sdiv" | "srem" => {
                let z = eq(b, konst(width(b), 0));
                if cval(z) != Some(0) && self.branch(st, z)? {
                    self.violation(st, "division by zero reached the hardware instruction", None);
                    return Err(Stop::Done);
                }
                let o = match op {
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    _ => Op::SRem,
                };
                bin(o, a, b)
            }
            "fadd" => fbin(Op::FAdd, a, b),
            "fsub" => fbin(Op::FSub, a, b),
            "fmul" => fbin(Op::FMul, a, b),
            "fdiv" => fbin(Op::FDiv, a, b),
            "frem" => fbin(Op::FRem, a, b),
            _ => unsupported(op),
        })
    }

    /// replace `e` by a term already used in this path when the solver proves them equal
    fn sweep(&mut self, st: &mut State, e: E) -> E {
        let e = self.simp(st, e);
        let e = self.deep(st, e);
        if cval(e).is_some() || st.sweep.contains(&e) {
            return e;
        }
        if st.model_ok {
            let v = st.model.eval(e);
            let w = width(e);
            let cands: Vec<E> =
                st.sweep.iter().rev().copied().filter(|&c| width(c) == w && st.model.eval(c) == v).take(6).collect();
            for c in cands {
                let ne = not(eq(e, c));
                if cval(ne) == Some(0) {
                    return c;
                }
                let (r, _) = self.feasible(st, ne);
                if let Res::Unsat = r {
                    self.rep.sweeps += 1;
                    if c < e {
                        return c;
                    }
                    // the older term stands for both from here on
                    for x in st.sweep.iter_mut() {
                        if *x == c {
                            *x = e;
                        }
                    }
                    st.subst.insert(c, e);
                    st.memo = Default::default();
                    return e;
                }
            }
        }
        st.sweep.push(e);
        e
    }

    fn cast(&mut self, st: &mut State, c: CastOp, from: &Ty, a: E, to: &Ty) -> R<E> {
        if let (Ty::Vec(n, ft), Ty::Vec(_, tt)) = (from, to) {
            if c != CastOp::Bit {
                let w = ft.bits();
                let mut l = vec![];
                for k in 0..*n {
                    l.push(self.cast(st, c, ft, extract(a, k as u16 * w, w), tt)?);
                }
                return Ok(pack(&l));
            }
        }
        let w = to.bits();
        Ok(match c {
            CastOp::Trunc => extract(a, 0, w),
            CastOp::ZExt => zext(a, w),
            CastOp::SExt => sext(a, w),
            CastOp::Bit => {
                let aw = width(a);
                if aw > w {
                    extract(a, 0, w)
                } else {
                    zext(a, w)
                }
            }
            CastOp::SiToFp => {
                let x = self.sweep(st, a);
                fun1(Op::SToF, x, w)
            }
            CastOp::UiToFp => {
                let x = self.sweep(st, a);
                fun1(Op::UToF, x, w)
            }
            CastOp::FpToSi => fun1(Op::FToSSat, a, w),
            CastOp::FpToUi => fun1(Op::FToUSat, a, w),
            CastOp::FpExt => fun1(Op::FExt, a, w),
            CastOp::FpTrunc => fun1(Op::FTrunc, a, w),
        })
    }

    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dst: Option<u32>) -> R<Flow> {
        if st.frames.len() > 400 {
            self.violation(st, "recursion deeper than 400 frames", None);
            return Err(Stop::Done);
        }
        let mut regs = vec![Val::N; f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        f.covered.borrow_mut()[0] += 1;
        st.frames.push(Frame { func: f, block: 0, ip: 0, regs, allocas: vec![], ret_dst: dst });
        Ok(Flow::Jump)
    }

    fn call(&mut self, st: &mut State, i: &I, callee: &Callee, args: &[(Ty, Opd)], ret: &Ty) -> R<Flow> {
        let name: Rc<str> = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Ptr(o) => {
                let e = self.opd(st, o).e();
                let a = self.concretize(st, e, "indirect call")? as u64;
                match module().name_of.get(&a) {
                    Some(n) => n.as_str().into(),
                    None => {
                        self.violation(st, &format!("call through invalid pointer {a:#x}"), None);
                        return Err(Stop::Done);
                    }
                }
            }
        };
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.opd(st, o)).collect();
        if let Some(n) = name.strip_prefix("llvm.") {
            let v = self.intrinsic(st, n, args, &vals, ret)?;
            if n == "trap" || n.starts_with("ubsantrap") {
                return Ok(Flow::End);
            }
            self.set(st, i.dst, v);
            return Ok(Flow::Next);
        }
        if let Some(fl) = self.builtin(st, i, &name, &vals)? {
            return Ok(fl);
        }
        match module().func(&name) {
            Some(f) => {
                if f.variadic {
                    unsupported(&format!("variadic {name}"))
                }
                self.push_frame(st, f, vals, i.dst)
            }
            None => unsupported(&format!("external function {name}")),
        }
    }

    fn die(&mut self, st: &mut State, what: &str) -> R<Option<Flow>> {
        self.violation(st, what, None);
        Ok(Some(Flow::End))
    }

    fn builtin(&mut self, st: &mut State, i: &I, name: &str, v: &[Val]) -> R<Option<Flow>> {
        match name {
            "sx_u64" => {
                let bits = self.concretize(st, v[0].e(), "sx_u64 bits")? as u16;
                let e = var(bits, &format!("in{}", st.inputs.len()));
                let z = zext(e, 64);
                st.inputs.push(Input::Sym(z));
                self.set(st, i.dst, Val::S(z));
            }
            "sx_choose" => {
                let n = self.concretize(st, v[0].e(), "sx_choose")? as u64;
                let mut opts: Vec<u64> = (0..n).collect();
                if st.nchoices == 0 {
                    if let Some((k, m)) = self.shard {
                        opts.retain(|x| x % m == k);
                    }
                }
                st.nchoices += 1;
                let dst = i.dst;
                let mut first = None;
                for o in opts {
                    if first.is_none() {
                        first = Some(o);
                        continue;
                    }
                    let mut s = st.clone();
                    s.inputs.push(Input::Choice(o));
                    self.set(&mut s, dst, Val::S(konst(32, o as u128)));
                    s.frames.last_mut().unwrap().ip += 1;
                    self.work.push(s);
                }
                match first {
                    Some(o) => {
                        st.inputs.push(Input::Choice(o));
                        self.set(st, dst, Val::S(konst(32, o as u128)));
                    }
                    None => return Ok(Some(Flow::End)),
                }
            }
            "sx_assume" => {
                let c = self.simp(st, v[0].e());
                let c = self.deep(st, c);
                match cval(c) {
                    Some(0) => {
                        self.rep.assume_cut += 1;
                        return Ok(Some(Flow::End));
                    }
                    Some(_) => {}
                    None => {
                        let (r, m) = self.feasible(st, c);
                        match r {
                            Res::Unsat => {
                                self.rep.assume_cut += 1;
                                return Ok(Some(Flow::End));
                            }
                            Res::Sat(_) => {
                                st.model = m.unwrap();
                                st.model_ok = true;
                            }
                            Res::Unknown => {
                                st.unverified = true;
                                st.model_ok = false;
                            }
                        }
                        self.learn(st, c);
                    }
                }
            }
            "sx_assert" => {
                let c = self.simp(st, v[0].e());
                let c = self.deep(st, c);
                let id = cval(v[1].e()).unwrap_or(0);
                if cval(c) == Some(1) {
                    self.rep.asserts_trivial += 1;
                } else {
                    let (r, m) = self.feasible(st, not(c));
                    match r {
                        Res::Unsat => {
                            self.rep.asserts_proved += 1;
                            self.know(st, c, 1);
                        }
                        Res::Sat(_) => {
                            let mut bad = st.clone();
                            bad.model = m.unwrap();
                            bad.model_ok = true;
                            let nc = not(c);
                            self.learn(&mut bad, nc);
                            self.violation(&mut bad, &format!("assertion {id}"), None);
                            // continue under the assertion
                            if cval(c) == Some(0) {
                                return Ok(Some(Flow::End));
                            }
                            let (r, m) = self.feasible(st, c);
                            match r {
                                Res::Unsat => return Ok(Some(Flow::End)),
                                Res::Sat(_) => {
                                    st.model = m.unwrap();
                                    st.model_ok = true;
                                }
                                Res::Unknown => st.model_ok = false,
                            }
                            self.learn(st, c);
                        }
                        Res::Unknown => {
                            self.inconclusive(st, &format!("solver gave up on assertion {id}"));
                            self.learn(st, c);
                            st.model_ok = false;
                        }
                    }
                }
            }
            "sx_concrete" => {
                let x = self.concretize(st, v[0].e(), "sx_concrete")?;
                self.set(st, i.dst, Val::S(konst(64, x)));
            }
            "sx_observe" => st.observed.push(v[0].e()),
            "sx_reach" => {
                let id = cval(v[0].e()).unwrap_or(0) as u32;
                if !st.reached.contains(&id) {
                    st.reached.push(id)
                }
            }
            "malloc" | "calloc" => {
                let mut n = self.allocation(st, v[0].e())?;
                if name == "calloc" {
                    n *= self.allocation(st, v[1].e())?;
                }
                if n > self.alloc_limit as u128 {
                    return self.die(st, &format!("allocation of {n} bytes"));
                }
                let a = self.alloc(st, n as u64, 16, Kind::Heap, name == "calloc");
                self.set(st, i.dst, Val::S(konst(64, a as u128)));
            }
            "posix_memalign" | "aligned_alloc" => {
                let pm = name == "posix_memalign";
                let (al, n) = if pm { (v[1].e(), v[2].e()) } else { (v[0].e(), v[1].e()) };
                let al = self.concretize(st, al, "alignment")? as u64;
                let n = self.allocation(st, n)?;
                if n > self.alloc_limit as u128 {
                    return self.die(st, &format!("allocation of {n} bytes"));
                }
                let dst_addr = if pm { self.concretize(st, v[0].e(), "address")? as u64 } else { 0 };
                let a = self.alloc(st, n as u64, al, Kind::Heap, false);
                if pm {
                    self.store(st, dst_addr, &Ty::Ptr, &Val::S(konst(64, a as u128)))?;
                    self.set(st, i.dst, Val::S(konst(32, 0)));
                } else {
                    self.set(st, i.dst, Val::S(konst(64, a as u128)));
                }
            }
            "realloc" => {
                let p = self.concretize(st, v[0].e(), "realloc pointer")? as u64;
                let n = self.allocation(st, v[1].e())?;
                if n > self.alloc_limit as u128 {
                    return self.die(st, &format!("allocation of {n} bytes"));
                }
                let old = match st.mem.get(&p) {
                    Some(o) if o.kind == Kind::Heap => o.bytes.clone(),
                    _ if p == 0 => vec![],
                    _ => return self.die(st, "realloc of an invalid pointer"),
                };
                let a = self.alloc(st, n as u64, 16, Kind::Heap, false);
                let k = old.len().min(n as usize);
                self.write_bytes(st, a, &old[..k])?;
                self.free(st, p)?;
                self.set(st, i.dst, Val::S(konst(64, a as u128)));
            }
            "free" => {
                let p = self.concretize(st, v[0].e(), "free pointer")? as u64;
                self.free(st, p)?;
            }
            "memcmp" | "bcmp" => {
                let n = self.concretize(st, v[2].e(), "memcmp length")? as u64;
                let a = self.concretize(st, v[0].e(), "address")? as u64;
                let b = self.concretize(st, v[1].e(), "address")? as u64;
                let x = self.read_bytes(st, a, n)?;
                let y = self.read_bytes(st, b, n)?;
                let mut r = konst(32, 0);
                if name == "bcmp" {
                    let e = if n == 0 { tru() } else { conj_eq(&x, &y) };
                    r = ite(e, konst(32, 0), konst(32, 1));
                } else {
                    for k in (0..n as usize).rev() {
                        let (p, q) = (join(&x[k..k + 1]), join(&y[k..k + 1]));
                        r = ite(eq(p, q), r, ite(ult(p, q), konst(32, 0xffff_ffff), konst(32, 1)));
                    }
                }
                self.set(st, i.dst, Val::S(r));
            }
            "memcpy" | "memmove" => {
                self.copy(st, v[0].e(), v[1].e(), v[2].e())?;
                self.set(st, i.dst, v[0].clone());
            }
            "memset" => {
                self.fill(st, v[0].e(), extract(v[1].e(), 0, 8), v[2].e())?;
                self.set(st, i.dst, v[0].clone());
            }
            "strlen" => {
                let a = self.concretize(st, v[0].e(), "address")? as u64;
                let mut n = 0u64;
                loop {
                    let b = self.read_bytes(st, a + n, 1)?;
                    match b[0] {
                        Byte::C(0) => break,
                        Byte::C(_) => n += 1,
                        _ => unsupported("symbolic strlen"),
                    }
                }
                self.set(st, i.dst, Val::S(konst(64, n as u128)));
            }
            "expf" | "exp" => self.funk(st, i, 0, v),
            "powf" | "pow" => self.funk(st, i, 1, v),
            "sinf" | "sin" => self.funk(st, i, 2, v),
            "cosf" | "cos" => self.funk(st, i, 3, v),
            "logf" | "log" => self.funk(st, i, 4, v),
            "fmaxf" | "fmax" | "fminf" | "fmin" => {
                let r = fminmax(v[0].e(), v[1].e(), name.contains("max"));
                self.set(st, i.dst, Val::S(r));
            }
            "roundf" | "round" => self.set(st, i.dst, Val::S(fun1(Op::FRoundAway, v[0].e(), width(v[0].e())))),
            "floorf" | "floor" => self.set(st, i.dst, Val::S(fun1(Op::FFloor, v[0].e(), width(v[0].e())))),
            "ceilf" | "ceil" => self.set(st, i.dst, Val::S(fun1(Op::FCeil, v[0].e(), width(v[0].e())))),
            "truncf" | "trunc" => self.set(st, i.dst, Val::S(fun1(Op::FTruncI, v[0].e(), width(v[0].e())))),
            "sqrtf" | "sqrt" => self.set(st, i.dst, Val::S(fun1(Op::FSqrt, v[0].e(), width(v[0].e())))),
            "abort" => return self.die(st, "abort"),
            _ if files::NAMES.contains(&name) => self.file_operation(st, i.dst, name, v)?,
            _ => {
                if name.contains("4core9panicking")
                    || name.contains("6option13unwrap_failed")
                    || name.contains("6option13expect_failed")
                    || name.contains("6result13unwrap_failed")
                    || name.contains("rust_begin_unwind")
                    || name.contains("9panicking11begin_panic")
                {
                    let what = hint_name(name);
                    return self.die(st, &format!("panic: {what}"));
                }
                if name.contains("18handle_alloc_error")
                    || name.contains("7raw_vec12handle_error")
                    || name.contains("17capacity_overflow")
                {
                    return self.die(st, "allocation failure");
                }
                if name.contains("hashmap_random_keys") {
                    self.set(
                        st,
                        i.dst,
                        Val::A(Rc::new(vec![
                            Val::S(konst(64, 0x0123_4567_89ab_cdef)),
                            Val::S(konst(64, 0xfedc_ba98_7654_3210)),
                        ])),
                    );
                    return Ok(Some(Flow::Next));
                }
                return Ok(None);
            }
        }
        Ok(Some(Flow::Next))
    }

    fn funk(&mut self, st: &mut State, i: &I, k: u128, v: &[Val]) {
        let a = v[0].e();
        let b = if v.len() > 1 { v[1].e() } else { konst(width(a), 0) };
        self.set(st, i.dst, Val::S(funk(k, a, b, width(a))));
    }

    fn copy(&mut self, st: &mut State, d: E, s: E, n: E) -> R<()> {
        let n = self.concretize(st, n, "copy length")? as u64;
        let d = self.concretize(st, d, "address")? as u64;
        let s = self.concretize(st, s, "address")? as u64;
        let b = self.read_bytes(st, s, n)?;
        self.write_bytes(st, d, &b)
    }
    fn fill(&mut self, st: &mut State, d: E, v: E, n: E) -> R<()> {
        let n = self.concretize(st, n, "fill length")? as u64;
        let d = self.concretize(st, d, "address")? as u64;
        let b = split(v)[0];
        self.write_bytes(st, d, &vec![b; n as usize])
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, _args: &[(Ty, Opd)], v: &[Val], ret: &Ty) -> R<Val> {
        let base = n.split('.').next().unwrap();
        let lanes = matches!(ret, Ty::Vec(..));
        if lanes {
            let Ty::Vec(k, t) = ret else { unreachable!() };
            let w = t.bits();
            let mut out = vec![];
            for j in 0..*k {
                let vs: Vec<Val> = v
                    .iter()
                    .map(|x| {
                        let e = x.e();
                        if width(e) == w * *k as u16 && width(e) != 1 {
                            Val::S(extract(e, j as u16 * w, w))
                        } else {
                            x.clone()
                        }
                    })
                    .collect();
                out.push(self.intrinsic(st, n, _args, &vs, t)?.e());
            }
            return Ok(Val::S(pack(&out)));
        }
        let e = |i: usize| v[i].e();
        Ok(match base {
            "memcpy" | "memmove" => {
                self.copy(st, e(0), e(1), e(2))?;
                Val::N
            }
            "memset" => {
                self.fill(st, e(0), e(1), e(2))?;
                Val::N
            }
            "trap" => {
                self.violation(st, "trap", None);
                Val::N
            }
            "umax" => Val::S(ite(ult(e(0), e(1)), e(1), e(0))),
            "umin" => Val::S(ite(ult(e(0), e(1)), e(0), e(1))),
            "smax" => Val::S(ite(slt(e(0), e(1)), e(1), e(0))),
            "smin" => Val::S(ite(slt(e(0), e(1)), e(0), e(1))),
            "abs" => Val::S(ite(slt(e(0), konst(width(e(0)), 0)), bin(Op::Sub, konst(width(e(0)), 0), e(0)), e(0))),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, b) = (e(0), e(1));
                let w = width(a);
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = base.starts_with('s');
                let r = bin(op, a, b);
                let ov = overflow(op, signed, a, b, r);
                if n.contains(".with.overflow") {
                    let r = self.simp(st, r);
                    Val::A(Rc::new(vec![Val::S(r), Val::S(ov)]))
                } else {
                    // saturating
                    let sat = if signed {
                        let max = konst(w, mask(w) >> 1);
                        let min = konst(w, (mask(w) >> 1) + 1);
                        // overflow direction follows the sign of the first operand for add/sub
                        ite(slt(a, konst(w, 0)), min, max)
                    } else if op == Op::Sub {
                        konst(w, 0)
                    } else {
                        konst(w, mask(w))
                    };
                    Val::S(ite(ov, sat, r))
                }
            }
            "fshl" | "fshr" => {
                let (a, b) = (e(0), e(1));
                let w = width(a);
                let s = self.concretize(st, e(2), "funnel shift")? as u16 % w;
                let cat = (a, b);
                let r = if s == 0 {
                    if base == "fshl" {
                        a
                    } else {
                        b
                    }
                } else if base == "fshl" {
                    concat(extract(cat.0, 0, w - s), extract(cat.1, w - s, s))
                } else {
                    concat(extract(cat.0, 0, s), extract(cat.1, s, w - s))
                };
                Val::S(r)
            }
            "ctpop" => {
                let a = e(0);
                let w = width(a);
                let mut acc = konst(w, 0);
                for k in 0..w {
                    acc = bin(Op::Add, acc, zext1(extract(a, k, 1), w));
                }
                Val::S(acc)
            }
            "ctlz" => {
                let a = e(0);
                let w = width(a);
                let mut r = konst(w, w as u128);
                for k in 0..w {
                    r = ite(eq(extract(a, k, 1), konst(1, 1)), konst(w, (w - 1 - k) as u128), r);
                }
                Val::S(r)
            }
            "cttz" => {
                let a = e(0);
                let w = width(a);
                let mut r = konst(w, w as u128);
                for k in (0..w).rev() {
                    r = ite(eq(extract(a, k, 1), konst(1, 1)), konst(w, k as u128), r);
                }
                Val::S(r)
            }
            "bswap" => {
                let a = e(0);
                let n = width(a) / 8;
                let mut r = extract(a, 0, 8);
                for k in 1..n {
                    r = concat(r, extract(a, k * 8, 8));
                }
                Val::S(r)
            }
            "bitreverse" => {
                let a = e(0);
                let n = width(a);
                let mut r = extract(a, 0, 1);
                for k in 1..n {
                    r = concat(r, extract(a, k, 1));
                }
                Val::S(r)
            }
            "ucmp" | "scmp" => {
                let (a, b) = (e(0), e(1));
                let w = ret.bits();
                let lt = if base == "ucmp" { ult(a, b) } else { slt(a, b) };
                Val::S(ite(eq(a, b), konst(w, 0), ite(lt, konst(w, mask(w)), konst(w, 1))))
            }
            "fptosi" => Val::S(fun1(Op::FToSSat, e(0), ret.bits())),
            "fptoui" => Val::S(fun1(Op::FToUSat, e(0), ret.bits())),
            "fabs" => {
                let w = width(e(0));
                Val::S(bin(Op::And, e(0), konst(w, mask(w) >> 1)))
            }
            "copysign" => {
                let w = width(e(0));
                Val::S(concat(extract(e(1), w - 1, 1), extract(e(0), 0, w - 1)))
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" => Val::S(fminmax(e(0), e(1), base.starts_with("max"))),
            "round" => Val::S(fun1(Op::FRoundAway, e(0), ret.bits())),
            "roundeven" | "rint" | "nearbyint" => Val::S(fun1(Op::FRoundEven, e(0), ret.bits())),
            "floor" => Val::S(fun1(Op::FFloor, e(0), ret.bits())),
            "ceil" => Val::S(fun1(Op::FCeil, e(0), ret.bits())),
            "trunc" => Val::S(fun1(Op::FTruncI, e(0), ret.bits())),
            "sqrt" => Val::S(fun1(Op::FSqrt, e(0), ret.bits())),
            "exp" => Val::S(funk(0, e(0), konst(width(e(0)), 0), ret.bits())),
            "pow" => Val::S(funk(1, e(0), e(1), ret.bits())),
            "sin" => Val::S(funk(2, e(0), konst(width(e(0)), 0), ret.bits())),
            "cos" => Val::S(funk(3, e(0), konst(width(e(0)), 0), ret.bits())),
            "log" => Val::S(funk(4, e(0), konst(width(e(0)), 0), ret.bits())),
            "powi" => Val::S(funk(6, e(0), zext(e(1), width(e(0)).max(32)), ret.bits())),
            "fmuladd" => Val::S(fbin(Op::FAdd, fbin(Op::FMul, e(0), e(1)), e(2))),
            "is" if n.starts_with("is.constant") => Val::S(fls()),
            "is" if n.starts_with("is.fpclass") => unsupported("is.fpclass"),
            "expect" => v[0].clone(),
            "threadlocal" => v[0].clone(),
            "objectsize" => Val::S(konst(ret.bits(), mask(ret.bits()))),
            "ptrmask" => Val::S(bin(Op::And, e(0), e(1))),
            "load" if n.starts_with("load.relative") => {
                let p = self.concretize(st, e(0), "address")? as u64;
                let o = self.concretize(st, e(1), "offset")? as u64;
                let x = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
                let x = self.concretize(st, x.e(), "relative")?;
                Val::S(konst(64, (p as i64).wrapping_add(x as u32 as i32 as i64) as u64 as u128))
            }
            "x86" if n.contains("pause") => Val::N,
            "va_start" | "stacksave" | "stackrestore" | "sideeffect" | "donothing" | "invariant" | "prefetch" => Val::N,
            _ => unsupported(&format!("intrinsic llvm.{n}")),
        })
    }
}

fn zext1(e: E, w: u16) -> E {
    if w == 1 {
        e
    } else {
        zext(e, w)
    }
}

fn overflow(op: Op, signed: bool, a: E, b: E, r: E) -> E {
    let w = width(a);
    if signed && w <= 64 {
        if let (Some((al, ah)), Some((bl, bh))) = (srange(a, 8), srange(b, 8)) {
            let c = match op {
                Op::Add => [al + bl, ah + bh, al + bl, ah + bh],
                Op::Sub => [al - bh, ah - bl, al - bh, ah - bl],
                _ => [al * bl, al * bh, ah * bl, ah * bh],
            };
            let half = (mask(w) >> 1) as i128;
            if c.iter().all(|x| *x <= half && *x >= -half - 1) {
                return fls();
            }
        }
    }
    match (op, signed) {
        (Op::Add, false) => ult(r, a),
        (Op::Sub, false) => ult(a, b),
        (Op::Add, true) => {
            let (ra, rb) = (range(a), range(b));
            let half = mask(w) >> 1;
            if ra.1 <= half && rb.1 <= half && ra.1 + rb.1 <= half {
                return fls();
            }
            // same sign operands, different sign result
            let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
            and(eq(sa, sb), not(eq(sa, sr)))
        }
        (Op::Sub, true) => {
            let (ra, rb) = (range(a), range(b));
            let half = mask(w) >> 1;
            if ra.1 <= half && rb.1 <= half {
                return fls();
            }
            let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
            and(not(eq(sa, sb)), not(eq(sa, sr)))
        }
        (Op::Mul, _) => {
            let ext = |e: E, n: u16| if signed { sext(e, n) } else { zext(e, n) };
            if !signed {
                let (ra, rb) = (range(a), range(b));
                if let Some(h) = ra.1.checked_mul(rb.1) {
                    if h <= mask(w) {
                        return fls();
                    }
                }
                // multiplication by a constant: compare with the largest safe operand
                let (ca, cb) = (cval(a), cval(b));
                if let Some(c) = ca.or(cb) {
                    if c == 0 {
                        return fls();
                    }
                    let x = if ca.is_some() { b } else { a };
                    return ult(konst(w, mask(w) / c), x);
                }
            }
            if w <= 64 {
                let p = bin(Op::Mul, ext(a, w * 2), ext(b, w * 2));
                not(eq(p, ext(r, w * 2)))
            } else {
                // 128-bit: via division
                let z = eq(a, konst(w, 0));
                if signed {
                    let q = bin(Op::SDiv, r, a);
                    let m1 = and(eq(a, konst(w, mask(w))), eq(b, konst(w, 1u128 << (w - 1))));
                    or(m1, and(not(z), not(eq(q, b))))
                } else {
                    and(not(z), not(eq(bin(Op::UDiv, r, a), b)))
                }
            }
        }
        _ => unreachable!(),
    }
}

fn fminmax(a: E, b: E, max: bool) -> E {
    let lt = fcmp(Op::FLt, a, b);
    let pick = if max { ite(lt, b, a) } else { ite(lt, a, b) };
    ite(fun1(Op::FIsNan, a, 1), b, ite(fun1(Op::FIsNan, b, 1), a, pick))
}

fn icmp(p: &str, a: E, b: E) -> E {
    match p {
        "eq" => eq(a, b),
        "ne" => not(eq(a, b)),
        "ult" => ult(a, b),
        "ule" => ule(a, b),
        "ugt" => ult(b, a),
        "uge" => ule(b, a),
        "slt" => slt(a, b),
        "sle" => sle(a, b),
        "sgt" => slt(b, a),
        "sge" => sle(b, a),
        _ => unsupported(p),
    }
}
fn fcmp_pred(p: &str, a: E, b: E) -> E {
    let un = || or(fun1(Op::FIsNan, a, 1), fun1(Op::FIsNan, b, 1));
    match p {
        "oeq" => fcmp(Op::FEq, a, b),
        "une" => not(fcmp(Op::FEq, a, b)),
        "olt" => fcmp(Op::FLt, a, b),
        "ogt" => fcmp(Op::FLt, b, a),
        "ole" => fcmp(Op::FLe, a, b),
        "oge" => fcmp(Op::FLe, b, a),
        "uge" => not(fcmp(Op::FLt, a, b)),
        "ule" => not(fcmp(Op::FLt, b, a)),
        "ugt" => not(fcmp(Op::FLe, a, b)),
        "ult" => not(fcmp(Op::FLe, b, a)),
        "one" => or(fcmp(Op::FLt, a, b), fcmp(Op::FLt, b, a)),
        "ueq" => not(or(fcmp(Op::FLt, a, b), fcmp(Op::FLt, b, a))),
        "ord" => not(un()),
        "uno" => un(),
        "true" => tru(),
        "false" => fls(),
        _ => unsupported(p),
    }
}

pub fn opd_val(o: &Opd) -> Val {
    match o {
        Opd::C(e) => Val::S(*e),
        Opd::Agg(v) => Val::A(Rc::new(v.iter().map(opd_val).collect())),
        Opd::Undef(t) => match t {
            Ty::Arr(n, t) => Val::A(Rc::new(vec![opd_val(&Opd::Undef((**t).clone())); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| opd_val(&Opd::Undef(t.clone()))).collect())),
            Ty::Void | Ty::Other => Val::N,
            _ => Val::S(konst(t.bits(), 0)),
        },
        Opd::Meta => Val::N,
        Opd::Reg(_) => unreachable!(),
    }
}

fn insert(v: &Val, idx: &[u32], x: Val) -> Val {
    if idx.is_empty() {
        return x;
    }
    let Val::A(a) = v else { unsupported("insertvalue") };
    let mut n = (**a).clone();
    n[idx[0] as usize] = insert(&n[idx[0] as usize], &idx[1..], x);
    Val::A(Rc::new(n))
}

fn put_val(b: &mut [Byte], off: u64, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Arr(_, t), Val::A(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                put_val(b, off + i as u64 * t.size(), t, x);
            }
        }
        (Ty::Struct(f, _), Val::A(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                put_val(b, off + ty.field_offset(i), &f[i], x);
            }
        }
        (_, Val::S(e)) => {
            for (k, x) in split(*e).into_iter().enumerate() {
                b[off as usize + k] = x;
            }
        }
        _ => {}
    }
}

pub fn split(e: E) -> Vec<Byte> {
    let w = width(e);
    let n = w.div_ceil(8);
    let e = if w % 8 != 0 { zext(e, n * 8) } else { e };
    let nd = node(e);
    match nd.op {
        Op::Const => (0..n).map(|k| Byte::C((nd.k >> (8 * k)) as u8)).collect(),
        Op::Extract if nd.k % 8 == 0 && width(nd.a) % 8 == 0 => {
            let b = (nd.k / 8) as u8;
            (0..n).map(|k| Byte::S(nd.a, b + k as u8)).collect()
        }
        Op::ZExt if width(nd.a) % 8 == 0 => {
            let mut v = split(nd.a);
            v.resize(n as usize, Byte::C(0));
            v
        }
        Op::Concat if width(nd.a) % 8 == 0 && width(nd.b) % 8 == 0 => {
            let mut v = split(nd.b);
            v.extend(split(nd.a));
            v
        }
        _ => (0..n).map(|k| Byte::S(e, k as u8)).collect(),
    }
}

pub fn join(b: &[Byte]) -> E {
    // all const
    if b.iter().all(|x| matches!(x, Byte::C(_))) {
        let mut v = 0u128;
        for (k, x) in b.iter().enumerate() {
            if let Byte::C(c) = x {
                v |= (*c as u128) << (8 * k);
            }
        }
        return konst(b.len() as u16 * 8, v);
    }
    if b.iter().all(|x| matches!(x, Byte::U)) {
        return var(b.len() as u16 * 8, "undef");
    }
    let mut parts: Vec<E> = vec![]; // low to high
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            Byte::C(_) => {
                let mut j = i;
                let mut v = 0u128;
                while j < b.len() {
                    if let Byte::C(c) = b[j] {
                        v |= (c as u128) << (8 * (j - i));
                        j += 1;
                    } else {
                        break;
                    }
                }
                parts.push(konst((j - i) as u16 * 8, v));
                i = j;
            }
            Byte::U => {
                parts.push(var(8, "undef"));
                i += 1;
            }
            Byte::S(e, k) => {
                let mut j = i + 1;
                while j < b.len() {
                    match b[j] {
                        Byte::S(f, l) if f == e && l as usize == k as usize + (j - i) => j += 1,
                        _ => break,
                    }
                }
                parts.push(extract(e, k as u16 * 8, (j - i) as u16 * 8));
                i = j;
            }
        }
    }
    let mut r = parts[0];
    for p in &parts[1..] {
        r = concat(*p, r);
    }
    r
}

fn conj_eq(x: &[Byte], y: &[Byte]) -> E {
    let mut e = tru();
    let mut i = 0;
    while i < x.len() {
        let n = (x.len() - i).min(16);
        e = and(e, eq(join(&x[i..i + n]), join(&y[i..i + n])));
        i += n;
    }
    e
}

fn pack(l: &[E]) -> E {
    let mut r = l[0];
    for x in &l[1..] {
        r = concat(*x, r);
    }
    r
}
fn lanes2(n: u32, w: u16, a: E, b: E, f: impl Fn(E, E) -> E) -> E {
    let l: Vec<E> = (0..n as u16).map(|k| f(extract(a, k * w, w), extract(b, k * w, w))).collect();
    pack(&l)
}

/// hill-climbing over concrete inputs (used only to turn an abstract counterexample into a real one)
fn local_search(q: &[E], base: &Asg, rng: &mut u64, tries: usize) -> Option<Asg> {
    let mut vars: Vec<u32> = vec![];
    for &c in q {
        vars.extend(varset(c).iter().copied());
    }
    vars.sort_unstable();
    vars.dedup();
    let vn: Vec<E> = vars.iter().map(|&v| ctx().var_nodes[v as usize]).collect();
    let mut next = || {
        *rng ^= *rng << 13;
        *rng ^= *rng >> 7;
        *rng ^= *rng << 17;
        *rng
    };
    let mut cur: Vec<u128> = vn.iter().map(|e| base.get(e).copied().unwrap_or(0)).collect();
    let score = |v: &[u128]| {
        let asg: Asg = vn.iter().copied().zip(v.iter().copied()).collect();
        let m = Model::new(asg);
        q.iter().filter(|&&c| m.eval(c) == 0).count()
    };
    if vn.is_empty() {
        return None;
    }
    let mut best = score(&cur);
    for t in 0..tries {
        if best == 0 {
            return Some(vn.iter().copied().zip(cur).collect());
        }
        let mut c = cur.clone();
        if t % 500 == 499 {
            for (i, e) in vn.iter().enumerate() {
                c[i] = next() as u128 & mask(width(*e));
            }
        } else {
            for _ in 0..1 + next() % 2 {
                let i = next() as usize % vn.len();
                let w = width(vn[i]);
                let r = next();
                c[i] = match r % 6 {
                    0 => next() as u128,
                    1 => c[i] ^ (1u128 << (next() as u16 % w)),
                    2 => c[i].wrapping_add(1 + (next() as u128 % 16)),
                    3 => c[i].wrapping_sub(1 + (next() as u128 % 16)),
                    4 => {
                        const F: [f32; 8] = [0.0, 1.0, -1.0, 0.5, -0.5, 0.99, -0.25, 0.001];
                        F[next() as usize % 8].to_bits() as u128
                    }
                    _ => (((next() % 65536) as f32 - 32768.0) / 32767.0).to_bits() as u128,
                } & mask(w);
            }
        }
        let s = score(&c);
        if s <= best {
            best = s;
            cur = c;
        }
    }
    if best == 0 {
        return Some(vn.iter().copied().zip(cur).collect());
    }
    None
}
