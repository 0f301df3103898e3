//! Native build: the same harness with plain f64, replaying a recorded input.
use crate::{Event, Replay};
use std::sync::Mutex;

pub type Sym = f64;
pub const fn lit(x: f64) -> f64 {
    x
}
pub fn to_sym<T: ToSym>(t: T) -> f64 {
    t.to_sym()
}
pub trait ToSym {
    fn to_sym(self) -> f64;
}
macro_rules! ts { ($($t:ty),*) => { $(impl ToSym for $t { fn to_sym(self) -> f64 { self as f64 } })* } }
ts!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64);
#[inline]
pub fn enter(_n: &'static str) {}

#[derive(Default)]
pub struct Nat {
    pub events: Vec<Event>,
    pub pos: usize,
    pub exhausted: bool,
    pub diverged: Option<String>,
    pub failed: Vec<String>,
    pub observed: Vec<(String, f64)>,
    pub fallback: u64,
    pub fanout: u64,
    pub fresh: u64,
}
pub struct PathAbort;
pub static NAT: Mutex<Option<Nat>> = Mutex::new(None);

pub fn with<T>(f: impl FnOnce(&mut Nat) -> T) -> T {
    let mut g = NAT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Nat::default))
}
impl Nat {
    pub fn next(&mut self) -> Option<Event> {
        if self.diverged.is_some() {
            return None;
        }
        let r = self.events.get(self.pos).cloned();
        self.pos += 1;
        if r.is_none() {
            self.exhausted = true;
        }
        r
    }
    pub fn diverge(&mut self, m: String) {
        if self.diverged.is_none() {
            self.diverged = Some(m);
        }
    }
    pub fn rnd(&mut self) -> u64 {
        self.fallback = self.fallback.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.fallback ^ (self.fallback >> 29)
    }
}

#[derive(serde::Serialize, Debug, Default)]
pub struct NatOutcome {
    pub failed: Vec<String>,
    pub panic: Option<String>,
    pub aborted: bool,
    pub diverged: Option<String>,
    pub exhausted: bool,
    pub observed: Vec<(String, f64)>,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn replay(f: &dyn Fn(), r: &Replay) -> NatOutcome {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} @ {loc}");
    }));
    *NAT.lock().unwrap_or_else(|e| e.into_inner()) =
        Some(Nat { events: r.events.clone(), fallback: 0x9E3779B97F4A7C15, ..Default::default() });
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    let mut out = NatOutcome::default();
    if let Err(p) = res {
        if p.is::<PathAbort>() {
            out.aborted = true;
        } else {
            out.panic = Some(LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone());
        }
    }
    with(|n| {
        out.failed = n.failed.clone();
        out.diverged = n.diverged.clone();
        out.exhausted = n.exhausted;
        out.observed = n.observed.clone();
    });
    out
}
pub mod libm_ {
    pub use libm::*;
}
pub const fn cval(x: f64) -> f64 {
    x
}
