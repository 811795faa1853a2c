//! SMT back end: z3 (primary) and cvc5 (fallback) over pipes.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

/// assignment to Var nodes (and, in abstract mode, to float operation nodes)
pub type Asg = HashMap<E, u128>;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Asg),
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fp {
    /// float arithmetic is an uninterpreted function of its operands (sound for UNSAT)
    Abstract,
    /// IEEE-754 semantics through the SMT FP theory
    Precise,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub precise_fp: u64,
    pub cvc5: u64,
    pub time_ms: f64,
    pub max_ms: f64,
}

pub struct Solver {
    z3: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub stats: Stats,
    cache: HashMap<(Vec<E>, Fp), Res>,
    pub timeout_ms: u64,
    pub dump: Option<String>,
}

fn is_boolop(op: Op) -> bool {
    use Op::*;
    matches!(op, Eq | Ult | Slt | FEq | FLt | FLe | FIsNan)
}

struct Emit {
    out: String,
    done: HashSet<E>,
    fdone: HashSet<E>,
    fp: Fp,
    asked: Vec<E>,
    ufs: HashSet<String>,
    nonbv: bool,
}

impl Emit {
    /// bit-vector view of a node
    fn bv(&self, e: E) -> String {
        let n = node(e);
        match n.op {
            Op::Const => bvc(n.w, n.k),
            _ if n.w == 1 => format!("(ite v{e} #b1 #b0)"),
            _ => format!("v{e}"),
        }
    }
    fn bo(&self, e: E) -> String {
        let n = node(e);
        match n.op {
            Op::Const => (if n.k != 0 { "true" } else { "false" }).into(),
            _ => format!("v{e}"),
        }
    }
    fn fl(&mut self, e: E) -> String {
        // float view of a (32/64 bit) node
        let n = node(e);
        if self.fdone.contains(&e) {
            return format!("f{e}");
        }
        let (eb, sb) = if n.w == 32 { (8, 24) } else { (11, 53) };
        format!("((_ to_fp {eb} {sb}) {})", self.bv(e))
    }

    fn node(&mut self, root: E) {
        // iterative post-order
        let mut st = vec![(root, false)];
        while let Some((e, ready)) = st.pop() {
            if self.done.contains(&e) {
                continue;
            }
            let n = node(e);
            if n.op == Op::Const {
                continue;
            }
            if !ready {
                st.push((e, true));
                let args = [n.a, n.b, n.c];
                // in abstract mode the result of a float operation is a free value
                let ar = if self.fp == Fp::Abstract && is_atom(n.op) { 0 } else { arity(n.op) };
                for &a in &args[..ar] {
                    if !self.done.contains(&a) {
                        st.push((a, false));
                    }
                }
                continue;
            }
            self.emit(e, n);
            self.done.insert(e);
        }
    }

    fn emit(&mut self, e: E, n: Node) {
        use Op::*;
        let sort = if n.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
        let w = n.w;
        match n.op {
            Var => {
                self.out.push_str(&format!("(declare-const v{e} {sort})\n"));
                self.asked.push(e);
                return;
            }
            Const => return,
            _ => {}
        }
        if self.fp == Fp::Abstract && is_fp_op(n.op) {
            if is_atom(n.op) {
                if let Some((l, h)) = atom_bounds(e) {
                    let c = |v: i128| bvc(n.w, v as u128 & mask(n.w));
                    self.out.push_str(&format!(
                        "(declare-const r{e} {sort})\n(define-fun v{e} () {sort} (ite (and (bvsle {} r{e}) (bvsle r{e} {})) r{e} {}))\n",
                        c(l),
                        c(h),
                        c(l)
                    ));
                } else {
                    self.out.push_str(&format!("(declare-const v{e} {sort})\n"));
                }
                self.asked.push(e);
            } else {
                let b = self.fcmp_bv(n);
                self.out.push_str(&format!("(define-fun v{e} () {sort} {b})\n"));
            }
            return;
        }
        let body: String = if is_fp_op(n.op) {
            self.nonbv = true;
            match self.emit_fp(e, n) {
                Some(b) => b,
                None => return,
            }
        } else if w == 1 && !is_boolop(n.op) {
            match n.op {
                And => format!("(and {} {})", self.bo(n.a), self.bo(n.b)),
                Or => format!("(or {} {})", self.bo(n.a), self.bo(n.b)),
                Xor | Add | Sub => format!("(xor {} {})", self.bo(n.a), self.bo(n.b)),
                Not => format!("(not {})", self.bo(n.a)),
                Ite => format!("(ite {} {} {})", self.bo(n.a), self.bo(n.b), self.bo(n.c)),
                Extract => format!("(= ((_ extract {} {}) {}) #b1)", n.k, n.k, self.bv(n.a)),
                _ => {
                    let b = self.bvop(n);
                    format!("(= {b} #b1)")
                }
            }
        } else {
            match n.op {
                Eq => {
                    if width(n.a) == 1 {
                        format!("(= {} {})", self.bo(n.a), self.bo(n.b))
                    } else {
                        format!("(= {} {})", self.bv(n.a), self.bv(n.b))
                    }
                }
                Ult => format!("(bvult {} {})", self.bv(n.a), self.bv(n.b)),
                Slt => format!("(bvslt {} {})", self.bv(n.a), self.bv(n.b)),
                Ite => format!("(ite {} {} {})", self.bo(n.a), self.bv(n.b), self.bv(n.c)),
                _ => self.bvop(n),
            }
        };
        self.out.push_str(&format!("(define-fun v{e} () {sort} {body})\n"));
    }

    fn bvop(&self, n: Node) -> String {
        use Op::*;
        let b2 = |s: &str| format!("({s} {} {})", self.bv(n.a), self.bv(n.b));
        match n.op {
            Add => b2("bvadd"),
            Sub => b2("bvsub"),
            Mul => b2("bvmul"),
            UDiv => b2("bvudiv"),
            SDiv => b2("bvsdiv"),
            URem => b2("bvurem"),
            SRem => b2("bvsrem"),
            And => b2("bvand"),
            Or => b2("bvor"),
            Xor => b2("bvxor"),
            Shl => b2("bvshl"),
            LShr => b2("bvlshr"),
            AShr => b2("bvashr"),
            Concat => b2("concat"),
            Not => format!("(bvnot {})", self.bv(n.a)),
            Extract => format!("((_ extract {} {}) {})", n.k + n.w as u128 - 1, n.k, self.bv(n.a)),
            ZExt => format!("((_ zero_extend {}) {})", n.w - width(n.a), self.bv(n.a)),
            SExt => format!("((_ sign_extend {}) {})", n.w - width(n.a), self.bv(n.a)),
            _ => unreachable!("bvop {:?}", n.op),
        }
    }

    fn uf(&mut self, name: String, args: &[E], w: u16) -> String {
        let ws: Vec<String> = args.iter().map(|&a| format!("(_ BitVec {})", width(a))).collect();
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
        if self.ufs.insert(name.clone()) {
            self.out.push_str(&format!("(declare-fun {name} ({}) {sort})\n", ws.join(" ")));
        }
        let a: Vec<String> = args.iter().map(|&a| self.bv(a)).collect();
        format!("({name} {})", a.join(" "))
    }

    /// IEEE comparison spelt out on the bits
    fn fcmp_bv(&self, n: Node) -> String {
        use Op::*;
        let w = width(n.a);
        let inf = if w == 32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000 };
        let m = mask(w) >> 1;
        let nan = |x: &str| format!("(bvugt (bvand {x} {}) {})", bvc(w, m), bvc(w, inf));
        let a = self.bv(n.a);
        if n.op == FIsNan {
            return nan(&a);
        }
        let b = self.bv(n.b);
        let ok = format!("(not {}) (not {})", nan(&a), nan(&b));
        let zz = format!("(= (bvand (bvor {a} {b}) {}) {})", bvc(w, m), bvc(w, 0));
        // order-preserving key: negative numbers flipped, positive ones above them
        let top = bvc(w, m + 1);
        let key = |x: &str| format!("(ite (= (bvand {x} {top}) {top}) (bvnot {x}) (bvor {x} {top}))");
        match n.op {
            FEq => format!("(and {ok} (or (= {a} {b}) {zz}))"),
            FLt => format!("(and {ok} (not {zz}) (bvult {} {}))", key(&a), key(&b)),
            _ => format!("(and {ok} (or {zz} (bvule {} {})))", key(&a), key(&b)),
        }
    }

    fn emit_fp(&mut self, e: E, n: Node) -> Option<String> {
        use Op::*;
        let aw = width(n.a);
        match n.op {
            FEq | FLt | FLe => {
                let f = match n.op {
                    FEq => "fp.eq",
                    FLt => "fp.lt",
                    _ => "fp.leq",
                };
                return Some(format!("({f} {} {})", self.fl(n.a), self.fl(n.b)));
            }
            FIsNan => return Some(format!("(fp.isNaN {})", self.fl(n.a))),
            _ => {}
        }
        let opaque = self.fp == Fp::Abstract || matches!(n.op, FRem | FUn);
        if opaque {
            self.asked.push(e);
            let ar = arity(n.op);
            let args = [n.a, n.b];
            let name = format!("uf_{:?}_{}_{}_{}", n.op, aw, n.w, n.k);
            return Some(self.uf(name, &args[..ar], n.w));
        }
        let (eb, sb) = match n.w {
            32 => (8, 24),
            64 => (11, 53),
            _ => (0, 0),
        };
        let fbody = match n.op {
            FAdd => format!("(fp.add RNE {} {})", self.fl(n.a), self.fl(n.b)),
            FSub => format!("(fp.sub RNE {} {})", self.fl(n.a), self.fl(n.b)),
            FMul => format!("(fp.mul RNE {} {})", self.fl(n.a), self.fl(n.b)),
            FDiv => format!("(fp.div RNE {} {})", self.fl(n.a), self.fl(n.b)),
            FSqrt => format!("(fp.sqrt RNE {})", self.fl(n.a)),
            SToF => format!("((_ to_fp {eb} {sb}) RNE {})", self.bv(n.a)),
            UToF => format!("((_ to_fp_unsigned {eb} {sb}) RNE {})", self.bv(n.a)),
            FExt | FTrunc => format!("((_ to_fp {eb} {sb}) RNE {})", self.fl(n.a)),
            FRoundAway => format!("(fp.roundToIntegral RNA {})", self.fl(n.a)),
            FRoundEven => format!("(fp.roundToIntegral RNE {})", self.fl(n.a)),
            FFloor => format!("(fp.roundToIntegral RTN {})", self.fl(n.a)),
            FCeil => format!("(fp.roundToIntegral RTP {})", self.fl(n.a)),
            FTruncI => format!("(fp.roundToIntegral RTZ {})", self.fl(n.a)),
            FToSSat | FToUSat => {
                let (ab, asb) = if aw == 32 { (8, 24) } else { (11, 53) };
                let x = self.fl(n.a);
                let signed = n.op == FToSSat;
                let (hi_v, lo_v, hi_bits, lo_bits): (f64, f64, u128, u128) = if signed {
                    let p = 2f64.powi(n.w as i32 - 1);
                    (p, -p, mask(n.w) >> 1, (mask(n.w) >> 1) + 1)
                } else {
                    (2f64.powi(n.w as i32), 0.0, mask(n.w), 0)
                };
                let fc = |v: f64| {
                    if aw == 32 {
                        format!("((_ to_fp {ab} {asb}) #x{:08x})", (v as f32).to_bits())
                    } else {
                        format!("((_ to_fp {ab} {asb}) #x{:016x})", v.to_bits())
                    }
                };
                let conv = if signed { "fp.to_sbv" } else { "fp.to_ubv" };
                return Some(format!(
                    "(ite (fp.isNaN {x}) {} (ite (fp.geq {x} {}) {} (ite (fp.leq {x} {}) {} ((_ {conv} {}) RTZ {x}))))",
                    bvc(n.w, 0),
                    fc(hi_v),
                    bvc(n.w, hi_bits),
                    fc(lo_v),
                    bvc(n.w, lo_bits),
                    n.w
                ));
            }
            _ => unreachable!("{:?}", n.op),
        };
        self.out.push_str(&format!("(define-fun f{e} () (_ FloatingPoint {eb} {sb}) {fbody})\n"));
        self.fdone.insert(e);
        let nan = if n.w == 32 { bvc(32, 0x7fc00000) } else { bvc(64, 0x7ff8000000000000) };
        Some(format!("(ite (fp.isNaN f{e}) {nan} (fp.to_ieee_bv f{e}))"))
    }
}

fn bvc(w: u16, k: u128) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", k, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", k, width = w as usize)
    }
}

fn parse_val(s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("#x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(b) = s.strip_prefix("#b") {
        u128::from_str_radix(b, 2).ok()
    } else if s == "true" {
        Some(1)
    } else if s == "false" {
        Some(0)
    } else {
        None
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            z3: None,
            stats: Stats::default(),
            cache: HashMap::new(),
            timeout_ms: 20000,
            dump: std::env::var("SXE_DUMP").ok(),
        }
    }

    fn spawn(&mut self) {
        let mut c = Command::new("z3-new")
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.z3 = Some((c, i, o));
    }

    fn run_z3(&mut self, script: &str) -> Option<Vec<String>> {
        if self.z3.is_none() {
            self.spawn();
        }
        let (_, i, o) = self.z3.as_mut().unwrap();
        let ok = i.write_all(script.as_bytes()).is_ok() && i.write_all(b"\n(echo \"DONE\")\n").is_ok() && i.flush().is_ok();
        let mut lines = vec![];
        if ok {
            loop {
                let mut l = String::new();
                match o.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    _ => {}
                }
                let t = l.trim();
                if t == "DONE" {
                    return Some(lines);
                }
                lines.push(t.to_string());
            }
        }
        if let Some((mut c, _, _)) = self.z3.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
        None
    }

    /// keep only the constraints connected to `seed` through shared input variables
    pub fn slice(cons: &[E], seed: &[E], fp: Fp) -> Vec<E> {
        let varset = |e: E| if fp == Fp::Abstract { avarset(e) } else { varset(e) };
        let mut vars: HashSet<u32> = HashSet::new();
        for &s in seed {
            vars.extend(varset(s).iter().copied());
        }
        let mut rest: Vec<E> = cons.to_vec();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut keep = Vec::with_capacity(rest.len());
            for e in rest {
                let vs = varset(e);
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    out.push(e);
                    changed = true;
                } else {
                    keep.push(e);
                }
            }
            rest = keep;
            if !changed {
                return out;
            }
        }
    }

    pub fn check(&mut self, cons: &[E], fp: Fp, timeout_ms: u64) -> Res {
        let mut key: Vec<E> = vec![];
        for &c in cons {
            match cval(c) {
                Some(0) => return Res::Unsat,
                Some(_) => {}
                None => key.push(c),
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(Asg::new());
        }
        let fp = if key.iter().any(|&c| ctx().has_fp[c as usize]) { fp } else { Fp::Abstract };
        if let Some(r) = self.cache.get(&(key.clone(), fp)) {
            self.stats.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut em = Emit {
            out: String::new(),
            done: HashSet::new(),
            fdone: HashSet::new(),
            fp,
            asked: vec![],
            ufs: HashSet::new(),
            nonbv: false,
        };
        for &c in &key {
            em.node(c);
        }
        let mut asserts = String::new();
        for &c in &key {
            asserts.push_str(&format!("(assert {})\n", em.bo(c)));
        }
        let gv = if em.asked.is_empty() {
            String::new()
        } else {
            let v: Vec<String> = em.asked.iter().map(|e| format!("v{e}")).collect();
            format!("(get-value ({}))\n", v.join(" "))
        };
        let logic = if em.nonbv {
            ""
        } else {
            "(set-logic QF_BV)\n"
        };
        let script = format!(
            "(reset)\n(set-option :timeout {timeout_ms})\n(set-option :produce-models true)\n{logic}{}{asserts}(check-sat)\n",
            em.out
        );
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{d}/q{}.smt2", self.stats.queries), format!("{script}{gv}"));
        }
        self.stats.queries += 1;
        if fp == Fp::Precise {
            self.stats.precise_fp += 1;
        }
        let mut res = Res::Unknown;
        if let Some(lines) = self.run_z3(&script) {
            match lines.last().map(|s| s.as_str()) {
                _ if lines.iter().any(|l| l.starts_with("(error")) => {
                    eprintln!("solver error: {:?}", lines);
                    if std::env::var("SXE_DEBUG").is_ok() {
                        let _ = std::fs::write("/tmp/sxe_error.smt2", &script);
                    }
                }
                Some("unsat") => res = Res::Unsat,
                Some("sat") => {
                    let mut asg = Asg::new();
                    let mut good = true;
                    if !gv.is_empty() {
                        if let Some(l) = self.run_z3(&gv) {
                            good = parse_model(&l.join(" "), &mut asg) && asg.len() == em.asked.len();
                        } else {
                            good = false;
                        }
                    }
                    if good {
                        res = Res::Sat(asg);
                    }
                }
                _ => {}
            }
        }
        if let Res::Unknown = res {
            self.stats.cvc5 += 1;
            res = cvc5(&script, &gv, &em.asked, timeout_ms);
        }
        let dt = t0.elapsed().as_secs_f64() * 1000.0;
        if dt > 3000.0 && std::env::var("SXE_DEBUG").is_ok() {
            eprintln!("slow query {dt} ms {fp:?} {} constraints", key.len());
            let _ = std::fs::write(format!("/tmp/sxe_slow{}.smt2", self.stats.queries), format!("{script}{gv}"));
        }
        self.stats.time_ms += dt;
        self.stats.max_ms = self.stats.max_ms.max(dt);
        match res {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert((key, fp), res.clone());
        res
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some((mut c, _, _)) = self.z3.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn parse_model(s: &str, asg: &mut Asg) -> bool {
    // ((v12 #x00) (v13 true) ...)
    let cleaned: String = s.chars().map(|c| if c == '(' || c == ')' { ' ' } else { c }).collect();
    let mut it = cleaned.split_whitespace();
    while let Some(n) = it.next() {
        let Some(v) = it.next() else { return false };
        let (Some(id), Some(val)) = (n.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()), parse_val(v)) else {
            return false;
        };
        asg.insert(id, val);
    }
    true
}

fn cvc5(script: &str, gv: &str, asked: &[E], timeout_ms: u64) -> Res {
    // z3-specific fp.to_ieee_bv is not available in cvc5: give up on precise float scripts
    if script.contains("fp.to_ieee_bv") {
        return Res::Unknown;
    }
    let body: String = script
        .lines()
        .filter(|l| !l.starts_with("(reset)") && !l.starts_with("(set-"))
        .collect::<Vec<_>>()
        .join("\n");
    let full = format!("(set-option :produce-models true)\n(set-logic QF_UFBVFP)\n{body}\n{gv}");
    let Ok(mut c) = Command::new("cvc5")
        .args(["--lang", "smt2", &format!("--tlimit={timeout_ms}"), "-"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    else {
        return Res::Unknown;
    };
    let _ = c.stdin.take().unwrap().write_all(full.as_bytes());
    let Ok(o) = c.wait_with_output() else { return Res::Unknown };
    let t = String::from_utf8_lossy(&o.stdout);
    let mut l = t.lines();
    match l.next() {
        Some("unsat") => Res::Unsat,
        Some("sat") => {
            let mut asg = Asg::new();
            let rest: Vec<&str> = l.collect();
            if parse_model(&rest.join(" "), &mut asg) && asg.len() == asked.len() {
                Res::Sat(asg)
            } else {
                Res::Unknown
            }
        }
        _ => Res::Unknown,
    }
}
