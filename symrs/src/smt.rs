//! SMT-LIB encoding of path conditions and the solver processes.
use crate::engine::*;
use num_bigint::BigInt;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, channel};
use std::time::{Duration, Instant};

struct Proc {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}

pub struct Solvers {
    main: Option<Proc>,
    lin: Option<Proc>,
    nlin: u32,
    pub by_solver: std::collections::BTreeMap<String, u64>,
    pub dump: Option<String>,
    ndump: u64,
}

fn spawn(cmd: &str, args: &[&str]) -> Proc {
    let mut child = Command::new(cmd)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("symrs: cannot start {cmd}: {e}"));
    let inp = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, inp, rx }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Proc {
    /// send script + sentinel, collect lines until the sentinel
    fn ask(&mut self, script: &str, ms: u64) -> Option<Vec<String>> {
        if self.inp.write_all(script.as_bytes()).is_err() {
            return None;
        }
        if self.inp.write_all(b"\n(echo \"@@done\")\n").is_err() || self.inp.flush().is_err() {
            return None;
        }
        let dl = Instant::now() + Duration::from_millis(ms);
        let mut v = vec![];
        loop {
            let left = dl.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("@@done") {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}

impl Solvers {
    pub fn new() -> Self {
        Solvers {
            main: None,
            lin: None,
            nlin: 0,
            by_solver: Default::default(),
            dump: std::env::var("SYMRS_DUMP").ok(),
            ndump: 0,
        }
    }
}

/// exact decimal rational of the shortest representation of a float (Real mode)
pub fn real_const(v: f64) -> String {
    assert!(v.is_finite(), "symrs: non-finite constant in real formula");
    let s = format!("{:e}", v.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let digits: BigInt = format!("{ip}{fp}").parse().unwrap();
    let sc = e - fp.len() as i32;
    let t = if sc >= 0 {
        format!("{}.0", digits * BigInt::from(10).pow(sc as u32))
    } else {
        format!("(/ {}.0 {}.0)", digits, BigInt::from(10).pow((-sc) as u32))
    };
    if v < 0.0 { format!("(- {t})") } else { t }
}
fn fp_const(v: f64) -> String {
    if v.is_nan() {
        return "(_ NaN 11 53)".into();
    }
    let b = v.to_bits();
    format!("(fp #b{} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1u64 << 52) - 1))
}

struct Enc<'a> {
    e: &'a Engine,
    out: String,
    order: Vec<u32>,
    mode: Mode,
    /// products, quotients and roots are left free: a relaxation
    lin: bool,
}
impl<'a> Enc<'a> {
    fn r(&self, x: R) -> String {
        match sym_id(x) {
            Some(i) => format!("n{i}"),
            None => match self.mode {
                Mode::Real => real_const(cf(x)),
                Mode::Fp => fp_const(cf(x)),
            },
        }
    }
    fn collect(&mut self, lits: &[Lit]) {
        let mut seen = BTreeSet::new();
        let mut st: Vec<u32> = vec![];
        for l in lits {
            for x in [l.a, l.b] {
                if let Some(i) = sym_id(x) {
                    st.push(i);
                }
            }
        }
        while let Some(i) = st.pop() {
            if !seen.insert(i) {
                continue;
            }
            let n = self.e.nodes[i as usize];
            match n.op {
                Op::Var(_) | Op::Pi => {}
                Op::Add | Op::Sub | Op::Mul | Op::Div => {
                    for x in [n.a, n.b] {
                        if let Some(j) = sym_id(x) {
                            st.push(j);
                        }
                    }
                }
                _ => {
                    if let Some(j) = sym_id(n.a) {
                        st.push(j);
                    }
                }
            }
        }
        self.order = seen.into_iter().collect();
    }
    fn defs(&mut self) {
        let order = self.order.clone();
        let sort = if self.mode == Mode::Real { "Real" } else { "(_ FloatingPoint 11 53)" };
        for &i in &order {
            let n = self.e.nodes[i as usize];
            let (a, b) = (n.a, n.b);
            let def: Option<String> = match (self.mode, n.op) {
                (_, Op::Var(_)) | (_, Op::Pi) => None,
                (Mode::Real, Op::Add) => Some(format!("(+ {} {})", self.r(a), self.r(b))),
                (Mode::Real, Op::Sub) => Some(format!("(- {} {})", self.r(a), self.r(b))),
                (Mode::Real, Op::Mul) if self.lin && sym_id(a).is_some() && sym_id(b).is_some() => None,
                (Mode::Real, Op::Mul) => Some(format!("(* {} {})", self.r(a), self.r(b))),
                (Mode::Real, Op::Div) => {
                    if sym_id(b).is_none() {
                        Some(format!("(/ {} {})", self.r(a), self.r(b)))
                    } else {
                        None
                    }
                }
                (Mode::Real, Op::Neg) => Some(format!("(- {})", self.r(a))),
                (Mode::Real, Op::Floor) => Some(format!("(to_real (to_int {}))", self.r(a))),
                (Mode::Real, _) => None,
                (Mode::Fp, Op::Add) => Some(format!("(fp.add RNE {} {})", self.r(a), self.r(b))),
                (Mode::Fp, Op::Sub) => Some(format!("(fp.sub RNE {} {})", self.r(a), self.r(b))),
                (Mode::Fp, Op::Mul) => Some(format!("(fp.mul RNE {} {})", self.r(a), self.r(b))),
                (Mode::Fp, Op::Div) => Some(format!("(fp.div RNE {} {})", self.r(a), self.r(b))),
                (Mode::Fp, Op::Neg) => Some(format!("(fp.neg {})", self.r(a))),
                (Mode::Fp, Op::Abs) => Some(format!("(fp.abs {})", self.r(a))),
                (Mode::Fp, Op::Sqrt) => Some(format!("(fp.sqrt RNE {})", self.r(a))),
                (Mode::Fp, Op::Floor) => Some(format!("(fp.roundToIntegral RTN {})", self.r(a))),
                (Mode::Fp, Op::Trunc) => Some(format!("(fp.roundToIntegral RTZ {})", self.r(a))),
                (Mode::Fp, Op::RoundNA) => Some(format!("(fp.roundToIntegral RNA {})", self.r(a))),
                (Mode::Fp, _) => None,
            };
            match def {
                Some(d) => {
                    let _ = writeln!(self.out, "(define-fun n{i} () {sort} {d})");
                }
                None => {
                    let _ = writeln!(self.out, "(declare-const n{i} {sort})");
                    if self.mode == Mode::Real {
                        match n.op {
                            Op::Mul => {
                                if a == b {
                                    let _ = writeln!(self.out, "(assert (>= n{i} 0.0))");
                                }
                            }
                            Op::Sqrt if self.lin => {
                                let _ = writeln!(self.out, "(assert (>= n{i} 0.0))");
                            }
                            Op::Div if self.lin => {}
                            Op::Div => {
                                // side condition: divisor non-zero is part of the path condition
                                let _ = writeln!(
                                    self.out,
                                    "(assert (= (* n{i} {b}) {a}))",
                                    a = self.r(a),
                                    b = self.r(b)
                                );
                                let _ = writeln!(self.out, "(assert (not (= {b} 0.0)))", b = self.r(b));
                            }
                            Op::Sqrt => {
                                let _ = writeln!(
                                    self.out,
                                    "(assert (and (>= n{i} 0.0) (= (* n{i} n{i}) {a})))",
                                    a = self.r(a)
                                );
                            }
                            Op::Pi => {
                                let _ = writeln!(
                                    self.out,
                                    "(assert (and (< 3.14159265358979 n{i}) (< n{i} 3.14159265358980)))"
                                );
                            }
                            Op::Exp => {
                                let a = self.r(a);
                                let _ = writeln!(
                                    self.out,
                                    "(assert (and (> n{i} 0.0) (>= n{i} (+ 1.0 {a})) (=> (<= {a} 0.0) (<= n{i} 1.0)) (=> (< {a} 0.0) (< n{i} 1.0))))"
                                );
                            }
                            Op::Ln => {
                                let a = self.r(a);
                                let _ = writeln!(
                                    self.out,
                                    "(assert (and (<= n{i} (- {a} 1.0)) (=> (>= {a} 1.0) (>= n{i} 0.0)) (=> (> {a} 1.0) (> n{i} 0.0)) (=> (<= {a} 1.0) (<= n{i} 0.0))))"
                                );
                            }
                            Op::Erfc => {
                                let a = self.r(a);
                                let _ = writeln!(
                                    self.out,
                                    "(assert (and (> n{i} 0.0) (< n{i} 2.0) (=> (> {a} 0.0) (< n{i} 1.0)) (=> (< {a} 0.0) (> n{i} 1.0)) (=> (= {a} 0.0) (= n{i} 1.0))))"
                                );
                            }
                            Op::Sin | Op::Cos => {
                                let _ = writeln!(self.out, "(assert (and (<= n{i} 1.0) (>= n{i} (- 1.0))))");
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // function values at constants
        let mut fixed = std::collections::HashSet::new();
        if self.mode == Mode::Real {
            let mut memo = HashMap::new();
            for &i in &order {
                let n = self.e.nodes[i as usize];
                if matches!(n.op, Op::Exp | Op::Ln) && self.e.const_ref(n.a) {
                    let v = self.e.eval(ref_of(i), &[], &mut memo);
                    if v.is_finite() {
                        let d = v.abs() * 1e-12 + 1e-14;
                        fixed.insert(i);
                        let _ = writeln!(
                            self.out,
                            "(assert (and (<= {} n{i}) (<= n{i} {})))",
                            real_const(v - d),
                            real_const(v + d)
                        );
                    }
                }
            }
        }
        // functional consistency / monotonicity of the transcendental atoms
        let mut groups: HashMap<Op, Vec<u32>> = HashMap::new();
        for &i in &order {
            if fixed.contains(&i) {
                continue;
            }
            let n = self.e.nodes[i as usize];
            match (self.mode, n.op) {
                (Mode::Real, Op::Exp | Op::Ln | Op::Erfc | Op::Sin | Op::Cos) => {
                    groups.entry(n.op).or_default().push(i)
                }
                (Mode::Fp, Op::Exp | Op::Ln | Op::Erfc | Op::Sin | Op::Cos) => {
                    groups.entry(n.op).or_default().push(i)
                }
                _ => {}
            }
        }
        for (op, ids) in groups {
            if ids.len() > 12 {
                continue;
            }
            for x in 0..ids.len() {
                for y in x + 1..ids.len() {
                    let (i, j) = (ids[x], ids[y]);
                    let (ai, aj) =
                        (self.r(self.e.nodes[i as usize].a), self.r(self.e.nodes[j as usize].a));
                    let s = match (self.mode, op) {
                        (Mode::Real, Op::Exp | Op::Ln) => format!(
                            "(assert (and (=> (= {ai} {aj}) (= n{i} n{j})) (=> (< {ai} {aj}) (< n{i} n{j})) (=> (> {ai} {aj}) (> n{i} n{j}))))"
                        ),
                        (Mode::Real, Op::Erfc) => format!(
                            "(assert (and (=> (= {ai} {aj}) (= n{i} n{j})) (=> (< {ai} {aj}) (> n{i} n{j})) (=> (> {ai} {aj}) (< n{i} n{j}))))"
                        ),
                        _ => format!("(assert (=> (= {ai} {aj}) (= n{i} n{j})))"),
                    };
                    let _ = writeln!(self.out, "{s}");
                }
            }
        }
    }
    fn lit(&self, l: &Lit) -> String {
        let p = match (self.mode, l.rel) {
            (Mode::Real, Rel::Lt) => format!("(< {} {})", self.rb(l.a), self.rb(l.b)),
            (Mode::Real, Rel::Le) => format!("(<= {} {})", self.rb(l.a), self.rb(l.b)),
            (Mode::Real, Rel::Eq) => format!("(= {} {})", self.rb(l.a), self.rb(l.b)),
            (Mode::Real, _) => "false".to_string(),
            (Mode::Fp, Rel::Lt) => format!("(fp.lt {} {})", self.r(l.a), self.r(l.b)),
            (Mode::Fp, Rel::Le) => format!("(fp.leq {} {})", self.r(l.a), self.r(l.b)),
            (Mode::Fp, Rel::Eq) => format!("(fp.eq {} {})", self.r(l.a), self.r(l.b)),
            (Mode::Fp, Rel::IsNan) => format!("(fp.isNaN {})", self.r(l.a)),
            (Mode::Fp, Rel::IsInf) => format!("(fp.isInfinite {})", self.r(l.a)),
            (Mode::Fp, Rel::IsNeg) => format!("(fp.isNegative {})", self.r(l.a)),
        };
        if l.pos { p } else { format!("(not {p})") }
    }
    fn rb(&self, x: R) -> String {
        self.r(x)
    }
}

/// lemma instances gathered by refinement of spurious transcendental values
#[derive(Default)]
struct Lemmas(Vec<String>);

fn hull(v: f64) -> (f64, f64) {
    let d = v.abs() * 1e-12 + 1e-300;
    (v - d, v + d)
}

fn lemmas_at(i: u32, op: Op, a: &str, t0: f64, out: &mut Vec<String>) {
    if !t0.is_finite() {
        return;
    }
    // snap the linearisation point to a short decimal
    let t0: f64 = format!("{:.4e}", t0).parse().unwrap();
    let tc = real_const(t0);
    match op {
        Op::Exp => {
            if t0 > 600.0 || t0 < -600.0 {
                let s = if t0 > 0.0 { 600.0 } else { -600.0 };
                let c = real_const(s);
                if s > 0.0 {
                    out.push(format!("(assert (=> (>= {a} {c}) (>= n{i} {})))", real_const(1e260)));
                } else {
                    out.push(format!("(assert (=> (<= {a} {c}) (<= n{i} {})))", real_const(1e-260)));
                }
                return;
            }
            let (lo, hi) = hull(t0.exp());
            let (lo, hi) = (real_const(lo), real_const(hi));
            out.push(format!("(assert (=> (<= {a} {tc}) (<= n{i} {hi})))"));
            out.push(format!("(assert (=> (>= {a} {tc}) (>= n{i} {lo})))"));
            out.push(format!("(assert (>= n{i} (* {lo} (+ 1.0 (- {a} {tc})))))"));
            for (p, q) in [(t0 - 0.5, t0), (t0, t0 + 0.5)] {
                let (fp, fq) = (hull(p.exp()).1, hull(q.exp()).1);
                let sl = (fq - fp) / (q - p);
                out.push(format!(
                    "(assert (=> (and (>= {a} {}) (<= {a} {})) (<= n{i} (+ {} (* {} (- {a} {}))))))",
                    real_const(p),
                    real_const(q),
                    real_const(fp * (1.0 + 1e-12)),
                    real_const(sl),
                    real_const(p)
                ));
            }
        }
        Op::Ln => {
            if t0 <= 0.0 {
                return;
            }
            let (lo, hi) = {
                let v = t0.ln();
                let d = v.abs() * 1e-12 + 1e-14;
                (v - d, v + d)
            };
            out.push(format!("(assert (=> (<= {a} {tc}) (<= n{i} {})))", real_const(hi)));
            out.push(format!("(assert (=> (>= {a} {tc}) (>= n{i} {})))", real_const(lo)));
            out.push(format!(
                "(assert (<= n{i} (+ {} (/ (- {a} {tc}) {tc}))))",
                real_const(hi)
            ));
        }
        Op::Erfc => {
            let v = libm::erfc(t0);
            let d = v.abs() * 1e-12 + 1e-300;
            out.push(format!("(assert (=> (<= {a} {tc}) (>= n{i} {})))", real_const(v - d)));
            out.push(format!("(assert (=> (>= {a} {tc}) (<= n{i} {})))", real_const(v + d)));
        }
        _ => {}
    }
}

pub fn parse_real(s: &str) -> Option<f64> {
    // s-expression of a model value
    let s = s.trim();
    if let Some(r) = s.strip_prefix('(') {
        let r = r.strip_suffix(')')?;
        let r = r.trim();
        if let Some(x) = r.strip_prefix("- ") {
            return parse_real(x).map(|v| -v);
        }
        if let Some(x) = r.strip_prefix("/ ") {
            let (a, b) = split2(x)?;
            let (sa, sb) = (a.trim(), b.trim());
            return Some(big_div(sa, sb).or_else(|| Some(parse_real(sa)? / parse_real(sb)?))?);
        }
        return None;
    }
    let s = s.trim_end_matches('?');
    s.parse().ok()
}
fn big_div(a: &str, b: &str) -> Option<f64> {
    use num_traits::ToPrimitive;
    let f = |x: &str| -> Option<BigInt> {
        let (neg, y) = match x.strip_prefix("(- ") {
            Some(y) => (true, y.strip_suffix(')')?),
            None => (false, x),
        };
        let y = y.trim().strip_suffix(".0").unwrap_or(y.trim());
        let v: BigInt = y.parse().ok()?;
        Some(if neg { -v } else { v })
    };
    num_rational::BigRational::new(f(a)?, f(b)?).to_f64()
}
fn split2(s: &str) -> Option<(&str, &str)> {
    let s = s.trim();
    let mut depth = 0;
    for (i, ch) in s.char_indices() {
        match ch {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    return Some((&s[..=i], &s[i + 1..]));
                }
            }
            c if c.is_whitespace() && depth == 0 => return Some((&s[..i], &s[i..])),
            _ => {}
        }
    }
    None
}
fn parse_fp(s: &str) -> Option<f64> {
    let s = s.trim();
    if s.contains("NaN") {
        return Some(f64::NAN);
    }
    if s.contains("+oo") {
        return Some(f64::INFINITY);
    }
    if s.contains("-oo") {
        return Some(f64::NEG_INFINITY);
    }
    if s.contains("+zero") {
        return Some(0.0);
    }
    if s.contains("-zero") {
        return Some(-0.0);
    }
    let r = s.strip_prefix("(fp ")?.strip_suffix(')')?;
    let mut bits: u64 = 0;
    for p in r.split_whitespace() {
        if let Some(b) = p.strip_prefix("#b") {
            bits = (bits << b.len()) | u64::from_str_radix(b, 2).ok()?;
        } else if let Some(h) = p.strip_prefix("#x") {
            bits = (bits << (4 * h.len())) | u64::from_str_radix(h, 16).ok()?;
        }
    }
    Some(f64::from_bits(bits))
}

/// parse the `((n1 v1) (n2 v2) ...)` answer of get-value
fn parse_values(txt: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let t = txt.trim();
    let Some(t) = t.strip_prefix('(') else { return m };
    let mut depth = 0;
    let mut start = 0;
    for (i, ch) in t.char_indices() {
        match ch {
            '(' => {
                if depth == 0 {
                    start = i + 1;
                }
                depth += 1;
            }
            ')' => {
                depth -= 1;
                if depth == 0 {
                    let body = &t[start..i];
                    if let Some((k, v)) = split2(body) {
                        m.insert(k.trim().to_string(), v.trim().to_string());
                    }
                }
                if depth < 0 {
                    break;
                }
            }
            _ => {}
        }
    }
    m
}

fn run_one(cmd: &str, args: &[&str], script: &str, ms: u64) -> Option<Vec<String>> {
    let mut p = spawn(cmd, args);
    p.ask(script, ms)
}

fn verdict(lines: &Option<Vec<String>>) -> Sat {
    match lines {
        Some(l) => {
            for x in l {
                match x.trim() {
                    "sat" => return Sat::Sat,
                    "unsat" => return Sat::Unsat,
                    _ => {}
                }
            }
            Sat::Unknown
        }
        None => Sat::Unknown,
    }
}

pub fn solve(e: &mut Engine, lits: &[Lit], want_model: bool, ms: u64) -> (Sat, Option<Vec<f64>>) {
    // literals over infinities fold here (Real mode)
    let mut ls: Vec<Lit> = Vec::with_capacity(lits.len());
    for l in lits {
        if e.mode == Mode::Real {
            let inf = |x: R| sym_id(x).is_none() && !cf(x).is_finite();
            if inf(l.a) || (matches!(l.rel, Rel::Lt | Rel::Le | Rel::Eq) && inf(l.b)) {
                let (a, b) = (inf(l.a), inf(l.b));
                let v = if a && b {
                    let (x, y) = (cf(l.a), cf(l.b));
                    match l.rel {
                        Rel::Lt => x < y,
                        Rel::Le => x <= y,
                        _ => x == y,
                    }
                } else if a {
                    l.rel != Rel::Eq && cf(l.a) < 0.0
                } else {
                    l.rel != Rel::Eq && cf(l.b) > 0.0
                };
                if v != l.pos {
                    return (Sat::Unsat, None);
                }
                continue;
            }
        }
        ls.push(*l);
    }
    let mut lem = Lemmas::default();
    let mut curved: std::collections::HashSet<u32> = Default::default();
    let t_end = Instant::now() + Duration::from_millis(ms);
    if e.linear_first && e.mode == Mode::Real {
        let mut enc = Enc { e, out: String::new(), order: vec![], mode: e.mode, lin: true };
        enc.collect(&ls);
        enc.defs();
        for l in &ls {
            let s = enc.lit(l);
            let _ = writeln!(enc.out, "(assert {s})");
        }
        let order = enc.order.clone();
        let vars: Vec<u32> =
            order.iter().copied().filter(|i| matches!(e.nodes[*i as usize].op, Op::Var(_))).collect();
        let exact = order.iter().all(|i| {
            let n = e.nodes[*i as usize];
            match n.op {
                Op::Var(_) | Op::Add | Op::Sub | Op::Neg => true,
                Op::Mul => sym_id(n.a).is_none() || sym_id(n.b).is_none(),
                Op::Div => sym_id(n.b).is_none(),
                _ => false,
            }
        });
        let script = format!("(push)\n{}(check-sat)\n", enc.out);
        if e.solver.nlin > 5000 {
            e.solver.lin = None;
            e.solver.nlin = 0;
        }
        e.solver.nlin += 1;
        if e.solver.lin.is_none() {
            let mut p = spawn("z3", &["-in", "-smt2"]);
            let _ = p.ask("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :timeout 500)\n", 5000);
            e.solver.lin = Some(p);
        }
        let lines = e.solver.lin.as_mut().unwrap().ask(&script, 2000);
        let v = verdict(&lines);
        let mut txt = None;
        if v == Sat::Sat && !vars.is_empty() {
            let g = format!("(get-value ({}))\n", vars.iter().map(|i| format!("n{i}")).collect::<Vec<_>>().join(" "));
            txt = e.solver.lin.as_mut().unwrap().ask(&g, 2000).map(|l| l.join(" "));
        }
        if lines.is_none() || e.solver.lin.as_mut().unwrap().ask("(pop)\n", 2000).is_none() {
            e.solver.lin = None;
        }
        match v {
            Sat::Unsat => {
                *e.solver.by_solver.entry("z3-4.8.12 (linear)".to_string()).or_insert(0) += 1;
                return (Sat::Unsat, None);
            }
            Sat::Sat => {
                let vals = parse_values(&txt.unwrap_or_default());
                let mut model: Vec<f64> = e.vars.iter().map(default_of).collect();
                let mut ok = true;
                for i in &vars {
                    if let Op::Var(v) = e.nodes[*i as usize].op {
                        match vals.get(&format!("n{i}")).and_then(|s| parse_real(s)) {
                            Some(x) => model[v as usize] = x,
                            None => ok = false,
                        }
                    }
                }
                if ok && (exact || e.lits_hold(&ls, &model)) {
                    *e.solver.by_solver.entry("z3-4.8.12 (linear)".to_string()).or_insert(0) += 1;
                    return (Sat::Sat, Some(model));
                }
            }
            Sat::Unknown => {}
        }
    }
    for round in 0..24 {
        let left = t_end.saturating_duration_since(Instant::now()).as_millis() as u64;
        if left < 20 && round > 0 {
            return (Sat::Unknown, None);
        }
        let mut enc = Enc { e, out: String::new(), order: vec![], mode: e.mode, lin: false };
        enc.collect(&ls);
        enc.defs();
        for l in &ls {
            let s = enc.lit(l);
            let _ = writeln!(enc.out, "(assert {s})");
        }
        let order = enc.order.clone();
        let mut body = enc.out;
        for l in &lem.0 {
            body.push_str(l);
            body.push('\n');
        }
        let trans: Vec<u32> = order
            .iter()
            .copied()
            .filter(|i| {
                matches!(e.nodes[*i as usize].op, Op::Exp | Op::Ln | Op::Erfc) && !e.const_ref(e.nodes[*i as usize].a)
            })
            .collect();
        let need_values = want_model || !trans.is_empty();
        let vars: Vec<u32> =
            order.iter().copied().filter(|i| matches!(e.nodes[*i as usize].op, Op::Var(_))).collect();
        let mut ask: Vec<u32> = vars.clone();
        ask.extend(&trans);
        let getv = if need_values && !ask.is_empty() {
            format!("(get-value ({}))\n", ask.iter().map(|i| format!("n{i}")).collect::<Vec<_>>().join(" "))
        } else {
            String::new()
        };
        let first = left.min(6000);
        let mut lines = None;
        let mut v = Sat::Unknown;
        // a short attempt, a search for an assignment, then a longer attempt
        for (k, t) in [left.min(500), first].into_iter().enumerate() {
            if k == 1 && e.mode == Mode::Real {
                if let Some(m) = guess(e, &ls, 300) {
                    *e.solver.by_solver.entry("assignment search".to_string()).or_insert(0) += 1;
                    return (Sat::Sat, Some(m));
                }
            }
            let script = format!(
                "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :timeout {t})\n{body}(check-sat)\n"
            );
            if let (Some(d), 0) = (e.solver.dump.clone(), k) {
                e.solver.ndump += 1;
                let _ = std::fs::write(format!("{d}/q{:05}.smt2", e.solver.ndump), format!("{script}{getv}"));
            }
            if e.solver.main.is_none() {
                e.solver.main = Some(spawn("z3", &["-in", "-smt2"]));
            }
            lines = e.solver.main.as_mut().unwrap().ask(&script, t + 1500);
            if lines.is_none() {
                e.solver.main = None;
            }
            v = verdict(&lines);
            if v != Sat::Unknown || first <= 500 {
                break;
            }
        }
        if v == Sat::Sat && !getv.is_empty() {
            lines = e.solver.main.as_mut().unwrap().ask(&getv, 5000);
            if lines.is_none() {
                e.solver.main = None;
            }
        }
        let mut who = "z3-4.8.12";
        if v == Sat::Unknown && e.mode == Mode::Real {
            // an assignment satisfying everything is a verdict too
            if let Some(m) = guess(e, &ls, if ms >= 10000 { 2500 } else { 100 }) {
                *e.solver.by_solver.entry("assignment search".to_string()).or_insert(0) += 1;
                return (Sat::Sat, Some(m));
            }
        }
        if v == Sat::Unknown && ms >= 10000 {
            // portfolio fallback
            let l2 = left.max(500);
            let s1 = format!(
                "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :timeout {l2})\n{body}(check-sat)\n{getv}"
            );
            let s2 = format!(
                "(set-option :produce-models true)\n(set-logic ALL)\n{body}(check-sat)\n{getv}"
            );
            let (mut a, mut b) = (None, None);
            std::thread::scope(|sc| {
                let h1 = sc.spawn(|| run_one("z3-new", &["-in", "-smt2"], &s1, l2 + 1500));
                let tl = format!("--tlimit={l2}");
                let h2 = sc.spawn(move || run_one("cvc5", &["--lang", "smt2", &tl], &s2, l2 + 1500));
                a = h1.join().ok().flatten();
                b = h2.join().ok().flatten();
            });
            for (l, w) in [(a, "z3-5.3.2"), (b, "cvc5-1.1.2")] {
                let x = verdict(&l);
                if x != Sat::Unknown {
                    v = x;
                    who = w;
                    lines = l.map(|l| {
                        l.into_iter().skip_while(|x| x.trim() != "sat" && x.trim() != "unsat").skip(1).collect()
                    });
                    break;
                }
            }
        }
        *e.solver.by_solver.entry(who.to_string()).or_insert(0) += 1;
        match v {
            Sat::Unsat => return (Sat::Unsat, None),
            Sat::Unknown => return (Sat::Unknown, None),
            Sat::Sat => {}
        }
        if getv.is_empty() {
            let m = e.vars.iter().map(default_of).collect();
            return (Sat::Sat, if want_model { Some(m) } else { None });
        }
        let txt = lines.map(|l| l.join(" ")).unwrap_or_default();
        let vals = parse_values(&txt);
        let mut model: Vec<f64> = e.vars.iter().map(default_of).collect();
        let mut ok = true;
        for i in &vars {
            if let Op::Var(v) = e.nodes[*i as usize].op {
                let s = vals.get(&format!("n{i}"));
                let x = s.and_then(|s| if e.mode == Mode::Real { parse_real(s) } else { parse_fp(s) });
                match x {
                    Some(x) => model[v as usize] = x,
                    None => ok = false,
                }
            }
        }
        if e.mode == Mode::Fp || trans.is_empty() {
            return (Sat::Sat, if ok { Some(model) } else { None });
        }
        // check the transcendental atoms under the model, refine when spurious
        let mut memo = HashMap::new();
        let mut spurious = false;
        let enc = Enc { e, out: String::new(), order: vec![], mode: e.mode, lin: false };
        let mut newl = vec![];
        for i in &trans {
            let n = e.nodes[*i as usize];
            let t0 = e.eval(n.a, &model, &mut memo);
            let tv = e.eval(ref_of(*i), &model, &mut memo);
            let mv = vals.get(&format!("n{i}")).and_then(|s| parse_real(s)).unwrap_or(f64::NAN);
            if !((mv - tv).abs() <= 1e-7 * (1e-9 + tv.abs())) {
                spurious = true;
                lemmas_at(*i, n.op, &enc.r(n.a), t0, &mut newl);
                if round >= 1 && n.op == Op::Exp && curved.insert(*i) {
                    // exp(a) (1 - a) <= 1 and its second-order versions
                    let a = enc.r(n.a);
                    newl.push(format!("(assert (<= (* n{i} (- 1.0 {a})) 1.0))"));
                    newl.push(format!("(assert (=> (<= {a} 0.0) (<= (* n{i} (+ 1.0 (- {a}) (* 0.5 {a} {a}))) 1.0)))"));
                    newl.push(format!("(assert (=> (>= {a} 0.0) (>= n{i} (+ 1.0 {a} (* 0.5 {a} {a})))))"));
                }
            }
        }
        if !spurious {
            return (Sat::Sat, if ok { Some(model) } else { None });
        }
        // maybe the true values already satisfy everything
        if ok && e.lits_hold(&ls, &model) {
            return (Sat::Sat, Some(model));
        }
        if newl.is_empty() {
            return (Sat::Unknown, None);
        }
        lem.0.extend(newl);
    }
    (Sat::Unknown, None)
}

/// search of a satisfying assignment by local moves on the violation of the literals
fn guess(e: &Engine, ls: &[Lit], ms: u64) -> Option<Vec<f64>> {
    let t_end = Instant::now() + Duration::from_millis(ms);
    // variables that matter
    let mut enc = Enc { e, out: String::new(), order: vec![], mode: e.mode, lin: false };
    enc.collect(ls);
    let vars: Vec<usize> = enc
        .order
        .iter()
        .filter_map(|i| if let Op::Var(v) = e.nodes[*i as usize].op { Some(v as usize) } else { None })
        .collect();
    if vars.is_empty() {
        return None;
    }
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let range = |v: usize| {
        let i = &e.vars[v];
        (if i.lo.is_finite() { i.lo } else { -50.0 }, if i.hi.is_finite() { i.hi } else { 50.0 })
    };
    let cost = |m: &[f64]| -> f64 {
        let mut memo = HashMap::new();
        let mut c = 0.0;
        for l in ls {
            let a = e.eval(l.a, m, &mut memo);
            let b = e.eval(l.b, m, &mut memo);
            if !a.is_finite() || !b.is_finite() {
                return f64::INFINITY;
            }
            let sc = 1.0 + a.abs().max(b.abs());
            let d = (a - b) / sc;
            let v = match (l.rel, l.pos) {
                (Rel::Lt | Rel::Le, true) => d,
                (Rel::Lt | Rel::Le, false) => -d,
                (Rel::Eq, true) => d.abs(),
                (Rel::Eq, false) => if a == b { 1.0 } else { 0.0 },
                _ => return f64::INFINITY,
            };
            let strict = matches!((l.rel, l.pos), (Rel::Lt, true) | (Rel::Le, false));
            if v > 0.0 || (strict && v >= 0.0) {
                c += v + 1e-6 + 0.01 * v.sqrt();
            }
        }
        c
    };
    let mut start = e.model.clone().filter(|m| m.len() == e.vars.len());
    for round in 0.. {
        if Instant::now() > t_end {
            break;
        }
        let mut m: Vec<f64> = match start.take() {
            Some(m) => m,
            None => e.vars.iter().map(default_of).collect(),
        };
        if round > 0 {
            for &v in &vars {
                let (lo, hi) = range(v);
                m[v] = lo + (hi - lo) * rnd();
            }
        }
        let mut c = cost(&m);
        let mut stall = 0;
        while stall < 40 + 12 * vars.len() && Instant::now() < t_end {
            if c < 1e-30 || e.lits_hold(ls, &m) {
                if e.lits_hold(ls, &m) {
                    return Some(m);
                }
                break;
            }
            let v = vars[(rnd() * vars.len() as f64) as usize % vars.len()];
            let (lo, hi) = range(v);
            let old = m[v];
            let step = (hi - lo) * 10f64.powf(-6.0 * rnd());
            m[v] = if rnd() < 0.15 { lo + (hi - lo) * rnd() } else { old + (2.0 * rnd() - 1.0) * step };
            m[v] = m[v].clamp(lo, hi);
            let c2 = cost(&m);
            if c2 < c || (c2.is_infinite() && c.is_infinite()) {
                c = c2;
                stall = if c.is_infinite() { stall + 1 } else { 0 };
            } else {
                m[v] = old;
                stall += 1;
            }
        }
    }
    None
}

fn default_of(v: &VarInfo) -> f64 {
    if v.lo.is_finite() && v.hi.is_finite() {
        v.lo + (v.hi - v.lo) * 0.375
    } else if v.lo.is_finite() {
        v.lo + 1.0
    } else if v.hi.is_finite() {
        v.hi - 1.0
    } else {
        0.25
    }
}

impl Engine {
    /// do the literals clearly hold natively under the model (with margin for strictness)?
    pub fn lits_hold(&self, ls: &[Lit], m: &[f64]) -> bool {
        let mut memo = HashMap::new();
        ls.iter().all(|l| {
            let a = self.eval(l.a, m, &mut memo);
            let b = self.eval(l.b, m, &mut memo);
            if a.is_nan() || b.is_nan() {
                return false;
            }
            let v = match l.rel {
                Rel::Lt => a < b,
                Rel::Le => a <= b,
                Rel::Eq => {
                    if l.pos {
                        (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
                    } else {
                        a == b
                    }
                }
                _ => false,
            };
            v == l.pos
        })
    }
}

/// decide a stand-alone script (declarations and assertions); true only when the solver says unsat
pub fn raw_unsat(e: &mut Engine, body: &str, ms: u64) -> bool {
    let t = Instant::now();
    let script = format!(
        "(reset)\n(set-option :timeout {ms})\n{body}(check-sat-using (then (using-params simplify :som true) smt))\n"
    );
    if e.solver.main.is_none() {
        e.solver.main = Some(spawn("z3", &["-in", "-smt2"]));
    }
    let lines = e.solver.main.as_mut().unwrap().ask(&script, ms + 1500);
    if lines.is_none() {
        e.solver.main = None;
    }
    let v = verdict(&lines);
    e.stats.queries += 1;
    e.stats.solver_ms += t.elapsed().as_secs_f64() * 1e3;
    *e.solver.by_solver.entry("z3-4.8.12".into()).or_insert(0) += 1;
    match v {
        Sat::Unsat => e.stats.unsat += 1,
        Sat::Sat => e.stats.sat += 1,
        Sat::Unknown => e.stats.unknown += 1,
    }
    v == Sat::Unsat
}
