//! Environment stand-ins: random generator, inner optimizers, file output.
//! They over-approximate the real crates: draws are arbitrary, optimizers return an arbitrary point
//! of the box together with the objective evaluated there by the real closure, or fail.
use crate::Sym;
#[cfg(feature = "sym")]
use crate::engine::*;
use std::cell::Cell;

pub struct Cfg {
    pub optim_may_fail: Cell<bool>,
    /// 0: arbitrary point of the box; 1: the initial guess is returned unchanged
    pub optim_mode: Cell<u8>,
    pub calls: Cell<u64>,
    /// tag of the failure recorded when an exponential may overflow
    pub exp_guard: Cell<Option<&'static str>>,
    /// gradients handed to the optimizer are compared with the derivatives of the values
    pub check_grad: Cell<bool>,
    /// uniform float draws are fixed pseudo-random numbers instead of arbitrary ones
    pub concrete_floats: Cell<bool>,
}
/// shared by the worker threads, which run one at a time while the main thread waits
pub struct Global(Cfg);
unsafe impl Sync for Global {}
impl Global {
    pub fn with<R>(&self, f: impl FnOnce(&Cfg) -> R) -> R {
        f(&self.0)
    }
}
pub static CFG: Global = Global(Cfg { optim_may_fail: Cell::new(false), optim_mode: Cell::new(0), calls: Cell::new(0), exp_guard: Cell::new(None), check_grad: Cell::new(false), concrete_floats: Cell::new(false) });
thread_local! {
    #[allow(unused)]
    static FLOAT_REQ: Cell<Option<u8>> = Cell::new(None);
    #[allow(unused)]
    static FLOAT_VAL: Cell<u64> = Cell::new(0);
}
pub fn reset() {
    CFG.with(|c| {
        c.optim_may_fail.set(false);
        c.optim_mode.set(0);
        c.calls.set(0);
        c.exp_guard.set(None);
        c.check_grad.set(false);
        c.concrete_floats.set(false);
    });
}

#[cfg(feature = "sym")]
pub fn rng_float_request(f: impl FnOnce()) -> Sym {
    FLOAT_REQ.with(|r| r.set(Some(1)));
    f();
    let was = FLOAT_REQ.with(|r| r.take());
    if was.is_some() {
        panic!("symrs: float drawn from a generator that is not modelled");
    }
    Sym { bits: FLOAT_VAL.with(|v| v.get()) }
}

pub mod rand_xoshiro {
    use super::*;
    use rand::{RngCore, SeedableRng};
    #[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct Xoshiro256Plus {
        stream: u64,
        counter: u64,
    }
    impl Xoshiro256Plus {
        pub fn stream(&self) -> u64 {
            self.stream
        }
    }
    impl RngCore for Xoshiro256Plus {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            let (s, k) = (self.stream, self.counter);
            self.counter += 1;
            draw(s, k)
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            for b in d.iter_mut() {
                *b = self.next_u64() as u8;
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    impl SeedableRng for Xoshiro256Plus {
        type Seed = [u8; 32];
        fn from_seed(s: [u8; 32]) -> Self {
            let mut x = 0u64;
            for c in s.chunks(8) {
                x = x.rotate_left(7) ^ u64::from_le_bytes(c.try_into().unwrap());
            }
            Xoshiro256Plus { stream: x, counter: 0 }
        }
        fn seed_from_u64(s: u64) -> Self {
            Xoshiro256Plus { stream: s, counter: 0 }
        }
        fn from_rng<R: RngCore>(mut r: R) -> Result<Self, rand::Error> {
            Ok(Xoshiro256Plus { stream: r.next_u64(), counter: 0 })
        }
        fn from_entropy() -> Self {
            Xoshiro256Plus { stream: fresh_stream(), counter: 0 }
        }
    }
    #[cfg(feature = "sym")]
    fn fresh_stream() -> u64 {
        let mut e = eng();
        e.rng_next_stream += 1;
        e.rng_next_stream
    }
    #[cfg(feature = "nat")]
    fn fresh_stream() -> u64 {
        crate::nat::with(|n| {
            n.fresh += 1;
            (1 << 40) + n.fresh
        })
    }
    /// x such that (x * n) >> 64 covers 0..n for every n dividing the fan-out and is not rejected
    pub fn int_draw(k: u64, fan: u64) -> u64 {
        if fan == 3 {
            // covers 0..2 and 0..3 without hitting the rejection zones
            let t = [0.05, 0.52, 0.7][k as usize];
            return (t * 18446744073709551616.0f64) as u64;
        }
        let w = ((1u128 << 64) * (8 * k as u128 + 1)) / (8 * fan as u128);
        w as u64
    }
    fn hash(s: u64, k: u64) -> u64 {
        let mut z = s.wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xBF58476D1CE4E5B9) ^ 0x1234567;
        for _ in 0..3 {
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
        }
        z
    }
    #[cfg(feature = "sym")]
    fn draw(s: u64, k: u64) -> u64 {
        let isf = FLOAT_REQ.with(|r| r.take()).is_some();
        let mut e = eng();
        if isf && CFG.with(|c| c.concrete_floats.get()) {
            let v = (hash(s, k) >> 12) as f64 / (1u64 << 52) as f64;
            e.events.push(crate::Event::DrawF(v.to_bits()));
            FLOAT_VAL.with(|x| x.set(v.to_bits()));
            return 0;
        }
        if isf {
            let r = match e.rng_streams.get(&(s, k, 1)) {
                Some(r) => *r,
                None => {
                    let nm = format!("u{s}_{k}");
                    let r = e.new_var(&nm, 0.0, 1.0);
                    e.add_pc(Lit { rel: Rel::Lt, a: r, b: 1f64.to_bits(), pos: true });
                    e.rng_streams.insert((s, k, 1), r);
                    r
                }
            };
            let i = e.events.len();
            e.events.push(crate::Event::DrawF(0));
            e.ev_refs.push((i, r));
            FLOAT_VAL.with(|v| v.set(r));
            return 0;
        }
        let v = match e.rng_draws.get(&(s, k, 0)) {
            Some(v) => *v,
            None => {
                let fan = e.rng_fanout;
                let v = if fan == 0 {
                    hash(s, k)
                } else {
                    let c = e.choose(fan);
                    int_draw(c, fan)
                };
                e.rng_draws.insert((s, k, 0), v);
                v
            }
        };
        e.events.push(crate::Event::DrawI(v));
        v
    }
    #[cfg(feature = "nat")]
    fn draw(_s: u64, _k: u64) -> u64 {
        crate::nat::with(|n| match n.next() {
            Some(crate::Event::DrawF(b)) => {
                let u = f64::from_bits(b).clamp(0.0, 1.0 - f64::EPSILON);
                (u * 18446744073709551616.0) as u64
            }
            Some(crate::Event::DrawI(v)) => v,
            Some(o) => {
                n.diverge(format!("draw requested, recorded {o:?}"));
                n.rnd()
            }
            None => n.rnd(),
        })
    }
}

/// nondeterministic optimizer result: point of the box
fn opt_point(xinit: &[Sym], bounds: &[(Sym, Sym)]) -> (bool, Vec<Sym>) {
    let (mode, may_fail) = CFG.with(|c| {
        c.calls.set(c.calls.get() + 1);
        (c.optim_mode.get(), c.optim_may_fail.get())
    });
    let k = CFG.with(|c| c.calls.get());
    let ok = !may_fail || crate::h::choose(&format!("opt{k}_ok"), 2) == 0;
    let x = if mode == 1 {
        xinit.to_vec()
    } else if CFG.with(|c| c.check_grad.get()) {
        bounds.iter().enumerate().map(|(i, (lo, hi))| crate::h::input(&format!("opt{k}_x{i}"), *lo, *hi)).collect()
    } else {
        bounds
            .iter()
            .enumerate()
            .map(|(i, (lo, hi))| {
                let t = crate::h::input(&format!("opt{k}_x{i}"), crate::lit(0.0), crate::lit(1.0));
                *lo + t * (*hi - *lo)
            })
            .collect()
    };
    (ok, x)
}

#[derive(Debug, Clone, Copy)]
pub enum FailStatus {
    Failure,
    InvalidArgs,
    OutOfMemory,
    RoundoffLimited,
    ForcedStop,
    UnexpectedError,
}
#[derive(Debug, Clone, Copy)]
pub enum SuccessStatus {
    Success,
    StopValReached,
    FtolReached,
    XtolReached,
    MaxEvalReached,
    MaxTimeReached,
}
#[derive(Debug, Clone)]
pub struct StopTols {
    pub ftol_rel: Sym,
    pub ftol_abs: Sym,
    pub xtol_rel: Sym,
    pub xtol_abs: Vec<Sym>,
}
impl Default for StopTols {
    fn default() -> Self {
        StopTols {
            ftol_rel: crate::lit(0.0),
            ftol_abs: crate::lit(0.0),
            xtol_rel: crate::lit(0.0),
            xtol_abs: vec![],
        }
    }
}
pub type Outcome3 = Result<(SuccessStatus, Vec<Sym>, Sym), (FailStatus, Vec<Sym>, Sym)>;

pub mod cobyla {
    pub use super::{FailStatus, StopTols, SuccessStatus};
    use crate::Sym;
    pub trait Func<U>: Fn(&[Sym], &mut U) -> Sym {}
    impl<T, U> Func<U> for T where T: Fn(&[Sym], &mut U) -> Sym {}
    pub enum RhoBeg {
        All(Sym),
        Set(Vec<Sym>),
    }
    pub fn minimize<F: Func<U>, G: Func<U>, U: Clone>(
        func: F,
        xinit: &[Sym],
        bounds: &[(Sym, Sym)],
        cons: &[G],
        args: U,
        _maxeval: usize,
        _rhobeg: RhoBeg,
        _stop: Option<StopTols>,
    ) -> super::Outcome3 {
        assert!(bounds.len() == xinit.len(), "Minimize Error: Bounds and x should have same size!");
        let (ok, x) = super::opt_point(xinit, bounds);
        let mut u = args;
        for c in cons {
            let _ = c(&x, &mut u);
        }
        let f = func(&x, &mut u);
        if ok { Ok((SuccessStatus::FtolReached, x, f)) } else { Err((FailStatus::RoundoffLimited, x, f)) }
    }
}
pub mod slsqp {
    pub use super::{FailStatus, StopTols, SuccessStatus};
    use crate::Sym;
    pub trait Func<U>: Fn(&[Sym], Option<&mut [Sym]>, &mut U) -> Sym {}
    impl<T, U> Func<U> for T where T: Fn(&[Sym], Option<&mut [Sym]>, &mut U) -> Sym {}
    pub fn minimize<F: Func<U>, G: Func<U>, U: Clone>(
        func: F,
        xinit: &[Sym],
        bounds: &[(Sym, Sym)],
        cons: &[G],
        args: U,
        _maxeval: usize,
        _stop: Option<StopTols>,
    ) -> super::Outcome3 {
        assert!(bounds.len() == xinit.len(), "Minimize Error: Bounds and x should have same size!");
        let (ok, x) = super::opt_point(xinit, bounds);
        if super::CFG.with(|c| c.check_grad.get()) {
            let z = crate::lit(0.0);
            for (i, c) in cons.iter().enumerate() {
                let mut g = vec![z; x.len()];
                let _ = c(&x, Some(&mut g), &mut args.clone());
                for k in 0..x.len() {
                    let f = |y: &[Sym]| c(y, None, &mut args.clone());
                    crate::h::check_deriv(&format!("gradient of constraint {i} given to the optimizer"), g[k], &f, &x, k);
                }
            }
            let mut g = vec![z; x.len()];
            let _ = func(&x, Some(&mut g), &mut args.clone());
            for k in 0..x.len() {
                let f = |y: &[Sym]| func(y, None, &mut args.clone());
                crate::h::check_deriv("gradient of the objective given to the optimizer", g[k], &f, &x, k);
            }
        }
        let mut u = args;
        for c in cons {
            let _ = c(&x, None, &mut u);
        }
        let f = func(&x, None, &mut u);
        if ok { Ok((SuccessStatus::FtolReached, x, f)) } else { Err((FailStatus::RoundoffLimited, x, f)) }
    }
}
pub mod ndarray_npy {
    macro_rules! err {
        ($n:ident) => {
            #[derive(Debug)]
            pub struct $n;
            impl std::fmt::Display for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("npy disabled")
                }
            }
            impl std::error::Error for $n {}
        };
    }
    err!(ReadNpyError);
    err!(WriteNpyError);
    pub fn write_npy<P, T>(_p: P, _a: T) -> Result<(), WriteNpyError> {
        Ok(())
    }
    pub fn read_npy<P, T>(_p: P) -> Result<T, ReadNpyError> {
        Err(ReadNpyError)
    }
}
pub mod statrs {
    pub mod distribution {
        use crate::Sym;
        pub trait ContinuousCDF {
            fn cdf(&self, x: Sym) -> Sym;
            fn inverse_cdf(&self, _p: Sym) -> Sym {
                panic!("symrs: normal quantile is not modelled")
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct Normal {
            m: Sym,
            s: Sym,
        }
        impl Normal {
            pub fn new(m: Sym, s: Sym) -> Result<Self, String> {
                Ok(Normal { m, s })
            }
        }
        impl ContinuousCDF for Normal {
            fn cdf(&self, x: Sym) -> Sym {
                let z = (x - self.m) / self.s;
                crate::lit(0.5) * crate::libm_::erfc(-z / crate::lit(std::f64::consts::SQRT_2))
            }
        }
    }
}
