//! Expression DAG, path exploration, solver queries.
use crate::smt;
use crate::{Event, Replay};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub type R = u64;
pub const MAGIC: u64 = 0x7FF8_5A5A;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym {
    pub bits: R,
}

#[inline]
pub const fn lit(x: f64) -> Sym {
    Sym { bits: x.to_bits() }
}

#[inline]
pub fn sym_id(b: R) -> Option<u32> {
    if b >> 32 == MAGIC { Some(b as u32) } else { None }
}
#[inline]
pub fn ref_of(id: u32) -> R {
    (MAGIC << 32) | id as u64
}
#[inline]
pub fn cf(b: R) -> f64 {
    f64::from_bits(b)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var(u32),
    Pi,
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Sqrt,
    Exp,
    Ln,
    Erfc,
    Sin,
    Cos,
    Floor,
    /// FP mode only
    RoundNA,
    Trunc,
    Abs,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub a: R,
    pub b: R,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel {
    Lt,
    Le,
    Eq,
    IsNan,
    IsInf,
    /// sign bit set (FP only)
    IsNeg,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Lit {
    pub rel: Rel,
    pub a: R,
    pub b: R,
    pub pos: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Real,
    Fp,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub lo: f64,
    pub hi: f64,
}

#[derive(Clone, Debug)]
pub enum Dec {
    /// forced = other side infeasible
    Branch { val: bool, alt: bool },
    Choose { val: u64, n: u64 },
    /// concretisation value proposed by the solver (payload only, not a choice)
    Value(u64),
}

#[derive(Default, Clone, Debug, serde::Serialize)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub pruned: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ms: f64,
    pub checks: u64,
    pub checks_proved_by_solver: u64,
    pub checks_by_normal_form: u64,
    pub checks_concrete: u64,
    pub max_nodes: usize,
    pub branches: u64,
}

pub struct Engine {
    pub mode: Mode,
    pub exact: bool,
    /// linear relaxation tried before each query
    pub linear_first: bool,
    /// assumed strict inequalities x < y used to settle proportional comparisons
    pub facts: Vec<(R, R)>,
    pub nodes: Vec<Node>,
    pub hc: HashMap<Node, u32>,
    pub vars: Vec<VarInfo>,
    pub pc: Vec<Lit>,
    pub pcset: HashMap<Lit, ()>,
    pub trail: Vec<Dec>,
    pub pos: usize,
    pub events: Vec<Event>,
    /// event slots holding symbolic values: (index in events, ref)
    pub ev_refs: Vec<(usize, R)>,
    pub observed: Vec<(String, R)>,
    pub witnesses: BTreeSet<String>,
    pub stats: Stats,
    pub funcs: BTreeMap<&'static str, u64>,
    pub model: Option<Vec<f64>>,
    pub solver: smt::Solvers,
    pub feas_ms: u64,
    pub check_ms: u64,
    pub running: bool,
    pub rng_streams: HashMap<(u64, u64, u8), R>,
    pub rng_next_stream: u64,
    pub rng_fanout: u64,
    pub rng_draws: HashMap<(u64, u64, u8), u64>,
    pub failures: Vec<Failure>,
    pub unknown_checks: Vec<String>,
    pub deadline: Option<Instant>,
    pub max_failures: usize,
    pub tags: BTreeMap<String, u64>,
    pub max_branches: u64,
    pub path_branches: u64,
    pub deriv_memo: HashMap<(R, u32), R>,
    pub counters: HashMap<String, u64>,
    /// start of the current path and solver time spent before it
    pub path_start: Option<(Instant, f64)>,
    pub found_witnesses: Vec<Replay>,
    pub concrete_limit: f64,
    /// tags (prefixes) of listed findings: recorded once, do not stop the exploration
    pub known: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub tag: String,
    pub kind: String,
    pub replay: Replay,
}

pub struct PathAbort;
pub struct Timeout;

pub static ENG: std::sync::LazyLock<Mutex<Engine>> =
    std::sync::LazyLock::new(|| Mutex::new(Engine::new()));

pub fn eng() -> MutexGuard<'static, Engine> {
    ENG.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

impl Engine {
    fn new() -> Self {
        Engine {
            mode: Mode::Real,
            exact: false,
            linear_first: false,
            facts: vec![],
            nodes: vec![],
            hc: HashMap::new(),
            vars: vec![],
            pc: vec![],
            pcset: HashMap::new(),
            trail: vec![],
            pos: 0,
            events: vec![],
            ev_refs: vec![],
            observed: vec![],
            witnesses: BTreeSet::new(),
            stats: Stats::default(),
            funcs: BTreeMap::new(),
            model: None,
            solver: smt::Solvers::new(),
            feas_ms: 2500,
            check_ms: 60000,
            running: false,
            rng_streams: HashMap::new(),
            rng_next_stream: 1 << 40,
            rng_fanout: 0,
            rng_draws: HashMap::new(),
            failures: vec![],
            unknown_checks: vec![],
            deadline: None,
            max_failures: 3,
            tags: BTreeMap::new(),
            max_branches: 20000,
            path_branches: 0,
            deriv_memo: HashMap::new(),
            counters: HashMap::new(),
            path_start: None,
            found_witnesses: vec![],
            concrete_limit: 150.0,
            known: vec![],
        }
    }

    pub fn reset_path(&mut self) {
        self.nodes.clear();
        self.hc.clear();
        self.vars.clear();
        self.pc.clear();
        self.pcset.clear();
        self.pos = 0;
        self.path_start = Some((Instant::now(), self.stats.solver_ms));
        self.events.clear();
        self.ev_refs.clear();
        self.observed.clear();
        self.model = None;
        self.rng_streams.clear();
        self.rng_draws.clear();
        self.rng_next_stream = 1 << 40;
        self.path_branches = 0;
        self.exact = false;
        self.linear_first = false;
        self.facts.clear();
        self.deriv_memo.clear();
        self.counters.clear();
    }

    pub fn mk(&mut self, op: Op, a: R, b: R) -> R {
        let (a, b) = if self.exact { (self.special(a), self.special(b)) } else { (a, b) };
        self.mk0(op, a, b)
    }

    pub fn mk0(&mut self, op: Op, a: R, b: R) -> R {
        // commutative normalisation (both real and IEEE add/mul are commutative)
        let (a, b) = match op {
            Op::Add | Op::Mul if a > b => (b, a),
            _ => (a, b),
        };
        let n = Node { op, a, b };
        if let Some(&i) = self.hc.get(&n) {
            return ref_of(i);
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.hc.insert(n, i);
        if self.nodes.len() > self.stats.max_nodes {
            self.stats.max_nodes = self.nodes.len();
        }
        ref_of(i)
    }

    /// exact mode: well-known irrational constants become exact atoms
    pub fn special(&mut self, x: R) -> R {
        if sym_id(x).is_some() {
            return x;
        }
        let v = cf(x);
        if v == 0.0 || !v.is_finite() || v.fract() == 0.0 {
            return x;
        }
        let near = |c: f64| ((v - c) / c).abs() < 4e-16;
        use std::f64::consts as k;
        let c = |f: f64| f.to_bits();
        macro_rules! sq { ($n:expr) => { { let n = c($n); self.mk0(Op::Sqrt, n, 0) } } }
        if near(k::PI) {
            return self.mk0(Op::Pi, 0, 0);
        }
        if near(2.0 * k::PI) {
            let p = self.mk0(Op::Pi, 0, 0);
            return self.mk0(Op::Mul, c(2.0), p);
        }
        if near(k::FRAC_PI_2) {
            let p = self.mk0(Op::Pi, 0, 0);
            return self.mk0(Op::Div, p, c(2.0));
        }
        if near(k::SQRT_2) {
            return sq!(2.0);
        }
        if near(k::FRAC_1_SQRT_2) {
            let s = sq!(2.0);
            return self.mk0(Op::Div, s, c(2.0));
        }
        if near(-k::FRAC_1_SQRT_2) {
            let s = sq!(2.0);
            return self.mk0(Op::Div, s, c(-2.0));
        }
        if near(3f64.sqrt()) {
            return sq!(3.0);
        }
        if near(5f64.sqrt()) {
            return sq!(5.0);
        }
        if near(k::PI.sqrt()) {
            let p = self.mk0(Op::Pi, 0, 0);
            return self.mk0(Op::Sqrt, p, 0);
        }
        if near((2.0 * k::PI).sqrt()) {
            let p = self.mk0(Op::Pi, 0, 0);
            let sp = self.mk0(Op::Sqrt, p, 0);
            let s2 = sq!(2.0);
            return self.mk0(Op::Mul, sp, s2);
        }
        if near(1.0 / (2.0 * k::PI).sqrt()) {
            let p = self.mk0(Op::Pi, 0, 0);
            let sp = self.mk0(Op::Sqrt, p, 0);
            let s2 = sq!(2.0);
            let m = self.mk0(Op::Mul, sp, s2);
            return self.mk0(Op::Div, c(1.0), m);
        }
        if near(k::FRAC_2_SQRT_PI) {
            let p = self.mk0(Op::Pi, 0, 0);
            let sp = self.mk0(Op::Sqrt, p, 0);
            return self.mk0(Op::Div, c(2.0), sp);
        }
        if near((2.0 * k::PI).ln() / 2.0) {
            let p = self.mk0(Op::Pi, 0, 0);
            let m = self.mk0(Op::Mul, c(2.0), p);
            let l = self.mk0(Op::Ln, m, 0);
            return self.mk0(Op::Div, l, c(2.0));
        }
        if near(k::FRAC_PI_2.ln() / 2.0) {
            let p = self.mk0(Op::Pi, 0, 0);
            let m = self.mk0(Op::Div, p, c(2.0));
            let l = self.mk0(Op::Ln, m, 0);
            return self.mk0(Op::Div, l, c(2.0));
        }
        if near(k::LN_2) {
            return self.mk0(Op::Ln, c(2.0), 0);
        }
        if near(k::LN_10) {
            return self.mk0(Op::Ln, c(10.0), 0);
        }
        for q in [3.0, 6.0, 7.0, 9.0] {
            for p in 1..(10 * q as i32) {
                if p % (q as i32) != 0 && near(p as f64 / q) {
                    return self.mk0(Op::Div, c(p as f64), c(q));
                }
            }
        }
        x
    }

    pub fn is_var_free(&self, r: R) -> bool {
        let mut stack = vec![r];
        let mut seen = BTreeSet::new();
        while let Some(x) = stack.pop() {
            if let Some(i) = sym_id(x) {
                if !seen.insert(i) {
                    continue;
                }
                let n = self.nodes[i as usize];
                match n.op {
                    Op::Var(_) => return false,
                    Op::Pi => {}
                    Op::Add | Op::Sub | Op::Mul | Op::Div => {
                        stack.push(n.a);
                        stack.push(n.b);
                    }
                    _ => stack.push(n.a),
                }
            }
        }
        true
    }

    /// native evaluation under an assignment of the variables
    pub fn eval(&self, r: R, model: &[f64], memo: &mut HashMap<u32, f64>) -> f64 {
        let Some(i) = sym_id(r) else { return cf(r) };
        if let Some(v) = memo.get(&i) {
            return *v;
        }
        // iterative over ids to avoid deep recursion
        let mut stack = vec![i];
        while let Some(&t) = stack.last() {
            if memo.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = self.nodes[t as usize];
            let kids: &[R] = match n.op {
                Op::Var(_) | Op::Pi => &[],
                Op::Add | Op::Sub | Op::Mul | Op::Div => &[n.a, n.b],
                _ => &[n.a],
            };
            let mut ready = true;
            for k in kids {
                if let Some(ki) = sym_id(*k) {
                    if !memo.contains_key(&ki) {
                        stack.push(ki);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let g = |k: R| match sym_id(k) {
                Some(i) => memo[&i],
                None => cf(k),
            };
            let v = match n.op {
                Op::Var(v) => model.get(v as usize).copied().unwrap_or(0.0),
                Op::Pi => std::f64::consts::PI,
                Op::Add => g(n.a) + g(n.b),
                Op::Sub => g(n.a) - g(n.b),
                Op::Mul => g(n.a) * g(n.b),
                Op::Div => g(n.a) / g(n.b),
                Op::Neg => -g(n.a),
                Op::Sqrt => g(n.a).sqrt(),
                Op::Exp => g(n.a).exp(),
                Op::Ln => g(n.a).ln(),
                Op::Erfc => libm::erfc(g(n.a)),
                Op::Sin => g(n.a).sin(),
                Op::Cos => g(n.a).cos(),
                Op::Floor => g(n.a).floor(),
                Op::RoundNA => g(n.a).round(),
                Op::Trunc => g(n.a).trunc(),
                Op::Abs => g(n.a).abs(),
            };
            memo.insert(t, v);
            stack.pop();
        }
        memo[&i]
    }

    pub fn new_var(&mut self, name: &str, lo: f64, hi: f64) -> R {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), lo, hi });
        let r = self.mk0(Op::Var(v), 0, 0);
        if let Some(m) = &mut self.model {
            let d = if lo.is_finite() && hi.is_finite() {
                lo + (hi - lo) * 0.375
            } else if lo.is_finite() {
                lo + 1.0
            } else if hi.is_finite() {
                hi - 1.0
            } else {
                0.5 + v as f64
            };
            m.push(d);
        }
        if self.mode == Mode::Fp && lo.is_nan() {
            // unconstrained float: any bit pattern
            return r;
        }
        if lo > f64::NEG_INFINITY || self.mode == Mode::Fp {
            self.add_pc(Lit { rel: Rel::Le, a: lo.to_bits(), b: r, pos: true });
        }
        if hi < f64::INFINITY || self.mode == Mode::Fp {
            self.add_pc(Lit { rel: Rel::Le, a: r, b: hi.to_bits(), pos: true });
        }
        r
    }

    pub fn add_pc(&mut self, l: Lit) {
        if self.pcset.insert(l, ()).is_none() {
            self.pc.push(l);
        }
    }

    fn eval_lit(&self, l: &Lit, model: &[f64], memo: &mut HashMap<u32, f64>) -> Option<bool> {
        let a = self.eval(l.a, model, memo);
        let b = if matches!(l.rel, Rel::Lt | Rel::Le | Rel::Eq) { self.eval(l.b, model, memo) } else { 0.0 };
        if self.mode == Mode::Real {
            if !a.is_finite() || !b.is_finite() {
                return None;
            }
            let m = 1e-9 * (1.0 + a.abs().max(b.abs()));
            if (a - b).abs() <= m && a != b {
                return None;
            }
            if a == b {
                return None;
            }
        }
        let v = match l.rel {
            Rel::Lt => a < b,
            Rel::Le => a <= b,
            Rel::Eq => a == b,
            Rel::IsNan => a.is_nan(),
            Rel::IsInf => a.is_infinite(),
            Rel::IsNeg => a.is_sign_negative(),
        };
        Some(v == l.pos)
    }

    pub fn solve(&mut self, extra: &[Lit], want_model: bool, ms: u64) -> (Sat, Option<Vec<f64>>) {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                std::panic::panic_any(Timeout);
            }
        }
        let t = Instant::now();
        let mut lits = self.pc.clone();
        lits.extend_from_slice(extra);
        let r = smt::solve(self, &lits, want_model, ms);
        self.stats.queries += 1;
        self.stats.solver_ms += t.elapsed().as_secs_f64() * 1e3;
        match r.0 {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        r
    }

    /// is pc /\ l satisfiable? Unknown counts as satisfiable (sound: explores more)
    fn feasible(&mut self, l: Lit) -> bool {
        if let Some(m) = self.model.take() {
            let mut memo = HashMap::new();
            let ok = self.eval_lit(&l, &m, &mut memo) == Some(true);
            self.model = Some(m);
            if ok {
                return true;
            }
        }
        let want = self.mode == Mode::Fp || self.model.is_none();
        let ms = self.feas_ms;
        let (s, m) = self.solve(&[l], want, ms);
        if s == Sat::Sat {
            if let Some(m) = m {
                // keep only if it really satisfies pc natively
                let mut memo = HashMap::new();
                let mut ok = true;
                for q in self.pc.iter().chain(std::iter::once(&l)) {
                    if self.eval_lit(q, &m, &mut memo) == Some(false) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.model = Some(m);
                }
            }
        }
        s != Sat::Unsat
    }

    /// fold comparisons of concrete or trivially related operands
    fn fold(&mut self, l: &Lit) -> Option<bool> {
        let (ca, cb) = (sym_id(l.a).is_none(), sym_id(l.b).is_none());
        let unary = !matches!(l.rel, Rel::Lt | Rel::Le | Rel::Eq);
        if unary {
            if ca {
                let a = cf(l.a);
                return Some(match l.rel {
                    Rel::IsNan => a.is_nan(),
                    Rel::IsInf => a.is_infinite(),
                    _ => a.is_sign_negative(),
                });
            }
            if self.mode == Mode::Real && matches!(l.rel, Rel::IsNan | Rel::IsInf) {
                return Some(false);
            }
            return None;
        }
        if ca && cb {
            let (a, b) = (cf(l.a), cf(l.b));
            return Some(match l.rel {
                Rel::Lt => a < b,
                Rel::Le => a <= b,
                _ => a == b,
            });
        }
        if (ca && cf(l.a).is_nan()) || (cb && cf(l.b).is_nan()) {
            return Some(false);
        }
        if self.mode == Mode::Real {
            if l.a == l.b {
                return Some(l.rel != Rel::Lt);
            }
            if ca && cf(l.a).is_infinite() {
                return Some(l.rel != Rel::Eq && cf(l.a) < 0.0);
            }
            if cb && cf(l.b).is_infinite() {
                return Some(l.rel != Rel::Eq && cf(l.b) > 0.0);
            }
            if self.exact && (ca || self.is_var_free(l.a)) && (cb || self.is_var_free(l.b)) {
                let mut memo = HashMap::new();
                let (a, b) = (self.eval(l.a, &[], &mut memo), self.eval(l.b, &[], &mut memo));
                if (a - b).abs() > 1e-9 * (1.0 + a.abs().max(b.abs())) {
                    return Some(match l.rel {
                        Rel::Lt => a < b,
                        Rel::Le => a <= b,
                        _ => a == b,
                    });
                }
            }
        }
        None
    }

    /// exp is increasing and positive: compare the arguments
    fn unexp(&self, mut a: R, mut b: R) -> (R, R) {
        loop {
            let op = |x: R| sym_id(x).map(|i| self.nodes[i as usize]).filter(|n| n.op == Op::Exp).map(|n| n.a);
            match (op(a), op(b)) {
                (Some(x), Some(y)) => (a, b) = (x, y),
                (Some(x), None) if sym_id(b).is_none() && cf(b) == 1.0 => (a, b) = (x, 0f64.to_bits()),
                (None, Some(y)) if sym_id(a).is_none() && cf(a) == 1.0 => (a, b) = (0f64.to_bits(), y),
                (Some(_), None) if sym_id(b).is_none() && cf(b) <= 0.0 => return (1f64.to_bits(), 0f64.to_bits()),
                (None, Some(_)) if sym_id(a).is_none() && cf(a) <= 0.0 => return (0f64.to_bits(), 1f64.to_bits()),
                _ => return (a, b),
            }
        }
    }
    pub fn branch(&mut self, rel: Rel, a: R, b: R) -> bool {
        let (a, b) = if self.exact && self.mode == Mode::Real && (sym_id(a).is_some() || sym_id(b).is_some()) {
            (self.special(a), self.special(b))
        } else {
            (a, b)
        };
        let (a, b) = if self.mode == Mode::Real && matches!(rel, Rel::Lt | Rel::Le) { self.unexp(a, b) } else { (a, b) };
        let mut l = Lit { rel, a, b, pos: true };
        if let Some(v) = self.fold(&l) {
            return v;
        }
        if rel == Rel::Eq && l.a > l.b {
            std::mem::swap(&mut l.a, &mut l.b);
        }
        let nl = Lit { pos: false, ..l };
        if self.pcset.contains_key(&l) {
            return true;
        }
        if self.pcset.contains_key(&nl) {
            return false;
        }
        if self.mode == Mode::Real && matches!(l.rel, Rel::Lt | Rel::Le) {
            // no input involved: decided by evaluation unless too close to call
            if self.const_ref(l.a) && self.const_ref(l.b) {
                let mut memo = HashMap::new();
                let (x, y) = (self.eval(l.a, &[], &mut memo), self.eval(l.b, &[], &mut memo));
                if (x - y).abs() > 1e-7 * (1.0 + x.abs().max(y.abs())) {
                    return (x < y) == l.pos;
                }
            }
        }
        if self.mode == Mode::Real && !self.facts.is_empty() && matches!(l.rel, Rel::Lt | Rel::Le | Rel::Eq) {
            let facts = self.facts.clone();
            if let Some(s) = crate::poly::sign_by_facts(self, l.a, l.b, &facts) {
                return l.rel != Rel::Eq && s > 0;
            }
        }
        self.stats.branches += 1;
        self.path_branches += 1;
        if self.path_branches > self.max_branches {
            panic!("symrs: too many branches");
        }
        if self.pos < self.trail.len() {
            if let Dec::Branch { val, .. } = self.trail[self.pos] {
                self.pos += 1;
                self.add_pc(if val { l } else { nl });
                self.model = None;
                return val;
            }
            panic!("symrs: trail divergence (non-deterministic harness)");
        }
        let t = self.feasible(l);
        let f = if t { self.feasible(nl) } else { true };
        let val = t;
        self.trail.push(Dec::Branch { val, alt: t && f });
        self.pos += 1;
        let chosen = if val { l } else { nl };
        self.add_pc(chosen);
        if let Some(m) = self.model.take() {
            let mut memo = HashMap::new();
            if self.eval_lit(&chosen, &m, &mut memo) == Some(true) {
                self.model = Some(m);
            }
        }
        val
    }

    pub fn choose(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        if self.pos < self.trail.len() {
            if let Dec::Choose { val, n: nn } = self.trail[self.pos] {
                assert!(nn == n, "symrs: trail divergence in choose");
                self.pos += 1;
                return val;
            }
            panic!("symrs: trail divergence (choose)");
        }
        self.trail.push(Dec::Choose { val: 0, n });
        self.pos += 1;
        0
    }

    /// concrete integer value of an integral symbolic value, forking over all feasible values
    pub fn concretize(&mut self, r: R) -> f64 {
        if sym_id(r).is_none() {
            return cf(r);
        }
        let t = match self.mode {
            Mode::Fp => self.mk(Op::Trunc, r, 0),
            Mode::Real => {
                if self.branch(Rel::Lt, r, 0f64.to_bits()) {
                    let m = crate::num::neg_e(self, r);
                    let f = self.mk(Op::Floor, m, 0);
                    crate::num::neg_e(self, f)
                } else {
                    self.mk(Op::Floor, r, 0)
                }
            }
        };
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 64 {
                self.unknown_checks.push("concretisation over 64 values".into());
                std::panic::panic_any(PathAbort);
            }
            let v = if self.pos < self.trail.len() {
                match self.trail[self.pos] {
                    Dec::Value(b) => {
                        self.pos += 1;
                        cf(b)
                    }
                    _ => panic!("symrs: trail divergence (value)"),
                }
            } else {
                let ms = self.check_ms;
                let (s, m) = self.solve(&[], true, ms);
                let m = match (s, m) {
                    (Sat::Sat, Some(m)) => m,
                    (Sat::Unsat, _) => std::panic::panic_any(PathAbort),
                    _ => {
                        self.unknown_checks.push("concretisation unknown".into());
                        std::panic::panic_any(PathAbort)
                    }
                };
                let mut memo = HashMap::new();
                let mut v = self.eval(t, &m, &mut memo).round();
                if v.is_nan() {
                    v = 0.0;
                }
                self.trail.push(Dec::Value(v.to_bits()));
                self.pos += 1;
                v
            };
            if self.branch(Rel::Eq, t, v.to_bits()) {
                return v;
            }
        }
    }

    /// move to the next unexplored path; false when exhausted
    fn backtrack(&mut self) -> bool {
        while let Some(d) = self.trail.pop() {
            match d {
                Dec::Branch { val: true, alt: true } => {
                    self.trail.push(Dec::Branch { val: false, alt: false });
                    return true;
                }
                Dec::Choose { val, n } if val + 1 < n => {
                    self.trail.push(Dec::Choose { val: val + 1, n });
                    return true;
                }
                _ => {}
            }
        }
        false
    }

    pub fn replay_for(&mut self, tag: &str, kind: &str, model: &[f64]) -> Replay {
        let mut memo = HashMap::new();
        let mut ev = self.events.clone();
        for (i, r) in self.ev_refs.clone() {
            let v = self.eval(r, model, &mut memo).to_bits();
            match &mut ev[i] {
                Event::Input(_, b) | Event::DrawF(b) => *b = v,
                _ => {}
            }
        }
        let obs = self
            .observed
            .clone()
            .into_iter()
            .map(|(n, r)| (n, self.eval(r, model, &mut memo).to_bits()))
            .collect();
        Replay {
            harness: String::new(),
            property: String::new(),
            tag: tag.into(),
            kind: kind.into(),
            events: ev,
            observed: obs,
        }
    }

    /// no input below this node
    pub fn const_ref(&self, r: R) -> bool {
        let mut st = vec![r];
        let mut seen = std::collections::HashSet::new();
        while let Some(x) = st.pop() {
            let Some(i) = sym_id(x) else { continue };
            if !seen.insert(i) {
                continue;
            }
            let n = self.nodes[i as usize];
            match n.op {
                Op::Var(_) => return false,
                Op::Pi => {}
                Op::Add | Op::Sub | Op::Mul | Op::Div => {
                    st.push(n.a);
                    st.push(n.b)
                }
                _ => st.push(n.a),
            }
        }
        true
    }

    pub fn is_known(&self, tag: &str) -> bool {
        self.known.iter().any(|k| tag.starts_with(k.as_str()))
    }

    /// record a failing check: pc (plus extra) is claimed satisfiable
    pub fn record_failure(&mut self, tag: &str, kind: &str, extra: &[Lit]) {
        if self.is_known(tag) && self.failures.iter().any(|f| f.tag == tag) {
            return;
        }
        // up to 3 distinct models so that a native replay can find a reproducing one
        let mut block: Vec<Lit> = extra.to_vec();
        let ms = self.check_ms;
        let mut got = 0;
        for k in 0..3 {
            let (s, m) = self.solve(&block.clone(), true, ms);
            match (s, m) {
                (Sat::Sat, Some(m)) => {
                    got += 1;
                    let r = self.replay_for(tag, kind, &m);
                    self.failures.push(Failure { tag: tag.into(), kind: kind.into(), replay: r });
                    if k < 2 && self.mode == Mode::Real && !self.vars.is_empty() {
                        // move away: shift some variable
                        let vi = k % self.vars.len();
                        let v = ref_of(
                            self.nodes.iter().position(|n| n.op == Op::Var(vi as u32)).unwrap() as u32,
                        );
                        let step = 0.01;
                        let up = (m[vi] + step).to_bits();
                        block.push(Lit { rel: Rel::Lt, a: up, b: v, pos: true });
                    } else {
                        break;
                    }
                }
                (Sat::Unsat, _) => break,
                _ => {
                    if got == 0 {
                        self.unknown_checks.push(format!("{tag}: solver unknown"));
                    }
                    break;
                }
            }
        }
    }
}

/// outcome of exploring one harness
#[derive(Debug, Default)]
pub struct Outcome {
    pub failures: Vec<Failure>,
    pub unknown: Vec<String>,
    pub stats: Stats,
    pub witnesses: Vec<Replay>,
    pub marks: BTreeSet<String>,
    pub timed_out: bool,
    pub funcs: BTreeMap<&'static str, u64>,
    pub tags: BTreeMap<String, u64>,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} @ {loc}");
        if std::env::var("SYMRS_TRACE").is_ok() {
            eprintln!("panic: {msg} @ {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// explore all paths of `f`; a panic in the code under test is a failure of the harness
pub fn explore(f: &dyn Fn(), budget: Duration, n_witness: usize) -> Outcome {
    let mut out = Outcome::default();
    {
        let mut e = eng();
        e.trail.clear();
        e.stats = Stats::default();
        e.failures.clear();
        e.unknown_checks.clear();
        e.funcs.clear();
        e.tags.clear();
        e.witnesses.clear();
        e.deadline = Some(Instant::now() + budget);
        e.running = true;
    }
    loop {
        eng().reset_path();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let mut e = eng();
        e.stats.paths += 1;
        match r {
            Ok(()) => {
                e.stats.completed += 1;
                let p = e.stats.completed;
                // sample of completed paths validated natively (spread geometrically)
                if out.witnesses.len() < n_witness && (p <= 2 || p.is_power_of_two()) {
                    let ms = 20000;
                    let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.solve(&[], true, ms)));
                    if let Ok((Sat::Sat, Some(m))) = rr {
                        let rp = e.replay_for("", "witness", &m);
                        e.found_witnesses.push(rp.clone());
                        out.witnesses.push(rp);
                    }
                }
            }
            Err(p) => {
                if p.is::<PathAbort>() {
                    e.stats.pruned += 1;
                } else if p.is::<Timeout>() {
                    out.timed_out = true;
                } else {
                    let msg = last_panic();
                    if msg.contains("symrs: too many branches") {
                        let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            e.record_failure("does not terminate", "hang", &[])
                        }));
                        if rr.is_err() {
                            out.timed_out = true;
                        }
                    } else if msg.contains("symrs:") {
                        e.unknown_checks.push(msg);
                    } else {
                        let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            e.record_failure(&format!("panic: {msg}"), "panic", &[])
                        }));
                        if rr.is_err() {
                            out.timed_out = true;
                        }
                    }
                }
            }
        }
        let new = e.failures.iter().filter(|f| !e.is_known(&f.tag)).count();
        if out.timed_out || new >= e.max_failures {
            break;
        }
        if Instant::now() > e.deadline.unwrap() {
            out.timed_out = true;
            break;
        }
        if !e.backtrack() {
            break;
        }
    }
    let mut e = eng();
    e.running = false;
    out.failures = std::mem::take(&mut e.failures);
    out.unknown = std::mem::take(&mut e.unknown_checks);
    out.stats = e.stats.clone();
    out.marks = e.witnesses.clone();
    out.funcs = e.funcs.clone();
    out.tags = e.tags.clone();
    out
}

/// coverage marker injected at the entry of every transformed function
#[inline]
pub fn enter(name: &'static str) {
    let mut e = eng();
    if e.running {
        *e.funcs.entry(name).or_insert(0) += 1;
    }
}

/// primitive value of a constant
pub const fn cval(s: Sym) -> f64 {
    f64::from_bits(s.bits)
}
