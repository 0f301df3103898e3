//! Harness interface, identical in the symbolic and the native build.
use crate::{Replay, Sym, lit};
#[cfg(feature = "sym")]
use crate::engine::*;
#[allow(unused)]
use std::time::Duration;

pub struct H {
    pub name: &'static str,
    pub f: fn(),
}

#[cfg(feature = "sym")]
pub use sym::*;
#[cfg(feature = "sym")]
mod sym {
    use super::*;
    use crate::smt;

    pub fn fp_mode() {
        eng().mode = Mode::Fp;
    }
    pub fn exact_mode() {
        eng().exact = true;
    }
    pub fn linear_first() {
        eng().linear_first = true;
    }
    pub fn rng_fanout(n: u64) {
        eng().rng_fanout = n;
    }
    pub fn max_branches(n: u64) {
        eng().max_branches = n;
    }
    pub fn is_sym() -> bool {
        true
    }
    pub fn input(name: &str, lo: Sym, hi: Sym) -> Sym {
        let mut e = eng();
        let r = e.new_var(name, lo.raw(), hi.raw());
        let i = e.events.len();
        e.events.push(crate::Event::Input(name.to_string(), 0));
        e.ev_refs.push((i, r));
        Sym { bits: r }
    }
    /// any real (Real mode) or any float bit pattern including NaN and infinities (Fp mode)
    pub fn any(name: &str) -> Sym {
        let m = eng().mode;
        match m {
            Mode::Real => input(name, lit(f64::NEG_INFINITY), lit(f64::INFINITY)),
            Mode::Fp => input(name, lit(f64::NAN), lit(f64::NAN)),
        }
    }
    pub fn choose(name: &str, n: usize) -> usize {
        let mut e = eng();
        let v = e.choose(n as u64);
        e.events.push(crate::Event::Choose(name.to_string(), v));
        v as usize
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(PathAbort);
        }
    }
    fn tagged(e: &mut Engine, tag: &str) -> bool {
        *e.tags.entry(tag.to_string()).or_insert(0) += 1;
        e.stats.checks += 1;
        e.failures.iter().filter(|f| f.tag == tag).count() < 2
    }
    pub fn check(tag: &str, b: bool) {
        let mut e = eng();
        let go = tagged(&mut e, tag);
        if b {
            e.stats.checks_concrete += 1;
        } else if go {
            e.record_failure(tag, "assert", &[]);
        }
    }
    pub fn fail(tag: &str) {
        check(tag, false)
    }
    pub fn check_eq(tag: &str, a: Sym, b: Sym) {
        check_eq_tol(tag, a, b, 1e-6)
    }
    pub fn check_eq_tol<T: crate::ToSym>(tag: &str, a: Sym, b: Sym, tol: T) {
        let tol = crate::to_sym(tol).raw();
        let mut e = eng();
        if !tagged(&mut e, tag) {
            return;
        }
        let (ra, rb) = (a.bits, b.bits);
        if sym_id(ra).is_none() && sym_id(rb).is_none() {
            let (x, y) = (cf(ra), cf(rb));
            let ok = x == y || (x - y).abs() <= tol * (1.0 + y.abs());
            if ok {
                e.stats.checks_concrete += 1;
            } else {
                e.record_failure(tag, "assert", &[]);
            }
            return;
        }
        if ra == rb && e.mode == Mode::Real {
            e.stats.checks_by_normal_form += 1;
            return;
        }
        if e.mode == Mode::Fp {
            let l = Lit { rel: Rel::Eq, a: ra, b: rb, pos: false };
            decide(&mut e, tag, &[vec![l]]);
            return;
        }
        for x in [ra, rb] {
            if sym_id(x).is_none() && !cf(x).is_finite() {
                // finite on one side only
                e.record_failure(tag, "assert", &[]);
                return;
            }
        }
        if let Some((q, same)) = crate::poly::equality_query(&e, ra, rb, 3000, 8000) {
            if same {
                let ms = e.check_ms;
                if smt::raw_unsat(&mut e, &q, ms) {
                    e.stats.checks_by_normal_form += 1;
                    e.stats.checks_proved_by_solver += 1;
                    return;
                }
            }
        }
        if let Some(q) = crate::poly::near_query(&e, ra, rb, tol, 3000, 8000) {
            let ms = e.check_ms;
            if smt::raw_unsat(&mut e, &q, ms) {
                e.stats.checks_by_normal_form += 1;
                e.stats.checks_proved_by_solver += 1;
                return;
            }
        }
        let d = crate::num::sub_e(&mut e, ra, rb);
        let one = 1f64.to_bits();
        let t = tol.to_bits();
        let p = crate::num::add_e(&mut e, one, rb);
        let m = crate::num::sub_e(&mut e, one, rb);
        let tp = crate::num::mul_e(&mut e, t, p);
        let tm = crate::num::mul_e(&mut e, t, m);
        let nd = crate::num::neg_e(&mut e, d);
        let lt = |a: R, b: R| Lit { rel: Rel::Lt, a, b, pos: true };
        decide(&mut e, tag, &[vec![lt(tp, d), lt(tm, d)], vec![lt(tp, nd), lt(tm, nd)]]);
    }
    /// a <= b, up to a relative rounding margin in Real mode
    pub fn check_le(tag: &str, a: Sym, b: Sym) {
        check_le_tol(tag, a, b, 1e-9)
    }
    pub fn check_le_tol<T: crate::ToSym>(tag: &str, a: Sym, b: Sym, tol: T) {
        let tol = crate::to_sym(tol).raw();
        let mut e = eng();
        if !tagged(&mut e, tag) {
            return;
        }
        let (ra, rb) = (a.bits, b.bits);
        if sym_id(ra).is_none() && sym_id(rb).is_none() {
            let (x, y) = (cf(ra), cf(rb));
            if x <= y + tol * (1.0 + y.abs()) {
                e.stats.checks_concrete += 1;
            } else {
                e.record_failure(tag, "assert", &[]);
            }
            return;
        }
        if e.mode == Mode::Fp {
            let l = Lit { rel: Rel::Le, a: ra, b: rb, pos: false };
            decide(&mut e, tag, &[vec![l]]);
            return;
        }
        for x in [ra, rb] {
            if sym_id(x).is_none() && cf(x).is_nan() {
                e.record_failure(tag, "assert", &[]);
                return;
            }
        }
        if (sym_id(rb).is_none() && cf(rb) == f64::INFINITY) || (sym_id(ra).is_none() && cf(ra) == f64::NEG_INFINITY) {
            e.stats.checks_concrete += 1;
            return;
        }
        if (sym_id(ra).is_none() && cf(ra) == f64::INFINITY) || (sym_id(rb).is_none() && cf(rb) == f64::NEG_INFINITY) {
            e.record_failure(tag, "assert", &[]);
            return;
        }
        let d = crate::num::sub_e(&mut e, ra, rb);
        let one = 1f64.to_bits();
        let t = tol.to_bits();
        let p = crate::num::add_e(&mut e, one, rb);
        let m = crate::num::sub_e(&mut e, one, rb);
        let tp = crate::num::mul_e(&mut e, t, p);
        let tm = crate::num::mul_e(&mut e, t, m);
        let lt = |a: R, b: R| Lit { rel: Rel::Lt, a, b, pos: true };
        decide(&mut e, tag, &[vec![lt(tp, d), lt(tm, d)]]);
    }
    pub fn check_lt(tag: &str, a: Sym, b: Sym) {
        {
            let mut e = eng();
            if !tagged(&mut e, tag) {
                return;
            }
            let (ra, rb) = (a.bits, b.bits);
            if sym_id(ra).is_some() || sym_id(rb).is_some() {
                let l = Lit { rel: Rel::Lt, a: ra, b: rb, pos: false };
                decide(&mut e, tag, &[vec![l]]);
                return;
            }
            if cf(ra) < cf(rb) {
                e.stats.checks_concrete += 1;
            } else {
                e.record_failure(tag, "assert", &[]);
            }
        }
    }
    /// every disjunct must be unsatisfiable together with the path condition
    fn decide(e: &mut Engine, tag: &str, dis: &[Vec<Lit>]) {
        for d in dis {
            let ms = e.check_ms;
            let (s, _) = e.solve(d, false, ms);
            match s {
                Sat::Unsat => {}
                Sat::Sat => {
                    e.record_failure(tag, "assert", d);
                    return;
                }
                Sat::Unknown => {
                    if !e.unknown_checks.iter().any(|t| t.starts_with(tag)) {
                        e.unknown_checks.push(format!("{tag}: solver unknown"));
                    }
                    return;
                }
            }
        }
        e.stats.checks_proved_by_solver += 1;
    }
    /// assume a < b and settle later comparisons proportional to it by their normal form
    pub fn assume_lt(a: Sym, b: Sym) {
        assume(a < b);
        eng().facts.push((a.bits, b.bits));
    }
    pub fn observe(tag: &str, v: Sym) {
        let mut e = eng();
        e.observed.push((tag.to_string(), v.bits));
    }
    pub fn reach(tag: &str) {
        eng().witnesses.insert(tag.to_string());
    }
    /// derivative of f with respect to x[k] at x (x[k] must be an input)
    pub fn deriv(f: &dyn Fn(&[Sym]) -> Sym, x: &[Sym], k: usize) -> Sym {
        let y = f(x);
        let mut e = eng();
        let Some(id) = sym_id(x[k].bits) else { panic!("symrs: derivative with respect to a constant") };
        let Op::Var(v) = e.nodes[id as usize].op else {
            panic!("symrs: derivative with respect to a non-input")
        };
        Sym { bits: crate::num::deriv_e(&mut e, y.bits, v) }
    }
    fn write_result(name: &str, o: &str, out: &Outcome, wall: f64) {
        let rp = |r: &Replay| {
            let mut r = r.clone();
            r.harness = name.to_string();
            r
        };
        let by = eng().solver.by_solver.clone();
        let j = serde_json::json!({
            "harness": name,
            "wall_s": wall,
            "timed_out": out.timed_out,
            "unknown": out.unknown,
            "stats": out.stats,
            "by_solver": by,
            "marks": out.marks,
            "funcs": out.funcs,
            "tags": out.tags,
            "failures": out.failures.iter().map(|f| rp(&f.replay)).collect::<Vec<_>>(),
            "witnesses": out.witnesses.iter().map(rp).collect::<Vec<_>>(),
        });
        let s = serde_json::to_string_pretty(&j).unwrap();
        if o.is_empty() { println!("{s}") } else { std::fs::write(o, s).unwrap() }
    }
    pub fn main(hs: &[H]) {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str, d: &str| {
            args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string())
        };
        let name = get("--run", "");
        let Some(h) = hs.iter().find(|h| h.name == name) else {
            eprintln!("harnesses: {}", hs.iter().map(|h| h.name).collect::<Vec<_>>().join(" "));
            std::process::exit(3)
        };
        let budget: u64 = get("--budget", "600").parse().unwrap();
        let nw: usize = get("--witnesses", "4").parse().unwrap();
        if let Ok(v) = get("--feas-ms", "").parse::<u64>() {
            eng().feas_ms = v;
        }
        if let Ok(v) = get("--check-ms", "").parse::<u64>() {
            eng().check_ms = v;
        }
        for (i, a) in args.iter().enumerate() {
            if a == "--known" {
                eng().known.push(args[i + 1].clone());
            }
        }
        install_hook();
        let f = h.f;
        let t = std::time::Instant::now();
        let stack = 1 << 30;
        let (n2, o2) = (name.clone(), get("--out", ""));
        // a path that computes for long without asking the solver anything does not terminate
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let mut e = eng();
                let Some((st, ms)) = e.path_start else { continue };
                let busy = st.elapsed().as_secs_f64() - (e.stats.solver_ms - ms) / 1e3;
                if e.running && busy > e.concrete_limit {
                    e.deadline = Some(std::time::Instant::now() + Duration::from_secs(60));
                    e.record_failure("does not terminate", "hang", &[]);
                    let out = Outcome {
                        failures: e.failures.clone(),
                        unknown: e.unknown_checks.clone(),
                        stats: e.stats.clone(),
                        witnesses: e.found_witnesses.clone(),
                        marks: e.witnesses.clone(),
                        timed_out: false,
                        funcs: e.funcs.clone(),
                        tags: e.tags.clone(),
                    };
                    drop(e);
                    write_result(&n2, &o2, &out, t.elapsed().as_secs_f64());
                    std::process::exit(0);
                }
            }
        });
        let out = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                explore(
                    &move || {
                        crate::stubs::reset();
                        f()
                    },
                    Duration::from_secs(budget),
                    nw,
                )
            })
            .unwrap()
            .join()
            .expect("explorer thread");
        let o = get("--out", "");
        write_result(&name, &o, &out, t.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}

#[cfg(feature = "nat")]
pub use natv::*;
#[cfg(feature = "nat")]
mod natv {
    use super::*;
    use crate::Event;
    use crate::nat::{PathAbort, with};

    pub fn fp_mode() {}
    pub fn exact_mode() {}
    pub fn linear_first() {}
    pub fn rng_fanout(_n: u64) {}
    pub fn max_branches(_n: u64) {}
    pub fn is_sym() -> bool {
        false
    }
    pub fn input(name: &str, lo: f64, hi: f64) -> f64 {
        with(|n| match n.next() {
            Some(Event::Input(m, b)) if m == name => f64::from_bits(b),
            Some(o) => {
                n.diverge(format!("input {name} requested, recorded {o:?}"));
                0.5
            }
            None => {
                let t = (n.rnd() >> 11) as f64 / (1u64 << 53) as f64;
                if lo.is_finite() && hi.is_finite() { lo + t * (hi - lo) } else { t }
            }
        })
    }
    pub fn any(name: &str) -> f64 {
        input(name, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn choose(name: &str, k: usize) -> usize {
        with(|n| match n.next() {
            Some(Event::Choose(m, v)) if m == name => v as usize,
            Some(o) => {
                n.diverge(format!("choice {name} requested, recorded {o:?}"));
                0
            }
            None => (n.rnd() % k as u64) as usize,
        })
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(PathAbort);
        }
    }
    pub fn check(tag: &str, b: bool) {
        if !b {
            with(|n| n.failed.push(tag.to_string()));
        }
    }
    pub fn fail(tag: &str) {
        check(tag, false)
    }
    pub fn check_eq(tag: &str, a: f64, b: f64) {
        check_eq_tol(tag, a, b, 1e-6)
    }
    pub fn check_eq_tol(tag: &str, a: f64, b: f64, tol: f64) {
        // native rounding: the counterexample margin asked of the solver is tol, accept half of it
        check(tag, a == b || (a - b).abs() <= 0.5 * tol * (1.0 + b.abs()))
    }
    pub fn check_le(tag: &str, a: f64, b: f64) {
        check_le_tol(tag, a, b, 1e-9)
    }
    pub fn check_le_tol(tag: &str, a: f64, b: f64, tol: f64) {
        check(tag, a <= b + 0.5 * tol * (1.0 + b.abs()))
    }
    pub fn check_lt(tag: &str, a: f64, b: f64) {
        check(tag, a < b)
    }
    pub fn assume_lt(a: f64, b: f64) {
        assume(a < b);
    }
    pub fn observe(tag: &str, v: f64) {
        with(|n| n.observed.push((tag.to_string(), v)));
    }
    pub fn reach(_tag: &str) {}
    /// central difference with one Richardson step
    pub fn deriv(f: &dyn Fn(&[f64]) -> f64, x: &[f64], k: usize) -> f64 {
        // same event consumption as the symbolic build, which evaluates f once
        let h = 1e-4 * (1.0 + x[k].abs());
        let g = |d: f64| {
            let mut y = x.to_vec();
            y[k] += d;
            f(&y)
        };
        let d1 = (g(h) - g(-h)) / (2.0 * h);
        let d2 = (g(h / 2.0) - g(-h / 2.0)) / h;
        (4.0 * d2 - d1) / 3.0
    }
    pub fn main(hs: &[H]) {
        let args: Vec<String> = std::env::args().collect();
        let file = &args[1];
        let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
        let Some(h) = hs.iter().find(|h| h.name == r.harness) else {
            eprintln!("unknown harness {}", r.harness);
            std::process::exit(3)
        };
        let f = h.f;
        let out = std::thread::Builder::new()
            .stack_size(1 << 28)
            .spawn(move || {
                crate::nat::replay(
                    &move || {
                        crate::stubs::reset();
                        f()
                    },
                    &r,
                )
            })
            .unwrap()
            .join()
            .expect("replay thread");
        println!("{}", serde_json::to_string(&out).unwrap());
    }
}

#[allow(unused)]
pub fn check_deriv(tag: &str, got: Sym, f: &dyn Fn(&[Sym]) -> Sym, x: &[Sym], k: usize) {
    let d = deriv(f, x, k);
    #[cfg(feature = "sym")]
    check_eq_tol(tag, got, d, lit(1e-3));
    #[cfg(feature = "nat")]
    check_eq_tol(tag, got, d, 1e-3);
}
#[allow(unused)]
pub fn optim_may_fail(b: bool) {
    crate::stubs::CFG.with(|c| c.optim_may_fail.set(b));
}
pub fn optim_keep_guess(b: bool) {
    crate::stubs::CFG.with(|c| c.optim_mode.set(if b { 1 } else { 0 }));
}

/// at every optimizer call the gradients are compared with the derivatives of the values
pub fn optim_check_gradients(b: bool) {
    crate::stubs::CFG.with(|c| c.check_grad.set(b));
}
pub fn rng_concrete_floats(b: bool) {
    crate::stubs::CFG.with(|c| c.concrete_floats.set(b));
}

/// report under this tag when the argument of an exponential may exceed the range of doubles
pub fn exp_guard(tag: Option<&'static str>) {
    crate::stubs::CFG.with(|c| c.exp_guard.set(tag));
}
#[allow(unused)]
pub fn guard_exp(x: Sym) {
    #[cfg(feature = "sym")]
    if let Some(t) = crate::stubs::CFG.with(|c| c.exp_guard.get()) {
        let r = crate::poly::value_range(&crate::engine::eng(), x.bits);
        match r {
            Some((_, h)) if h >= 709.5 => {}
            _ => return,
        }
        check_lt(t, x, lit(709.5));
    }
}

/// the deep tier was asked for
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
