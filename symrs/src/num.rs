//! Arithmetic and traits of `Sym`.
use crate::engine::*;
use num_traits::{Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::num::FpCategory;
use std::ops::*;

#[inline]
fn c(x: f64) -> R {
    x.to_bits()
}
#[inline]
fn is_c(x: R) -> bool {
    sym_id(x).is_none()
}
fn exact_on(e: &Engine) -> bool {
    e.exact && e.mode == Mode::Real
}

pub fn neg_e(e: &mut Engine, a: R) -> R {
    if is_c(a) {
        return c(-cf(a));
    }
    if let Some(i) = sym_id(a) {
        let n = e.nodes[i as usize];
        if n.op == Op::Neg {
            return n.a;
        }
    }
    e.mk(Op::Neg, a, 0)
}

pub fn add_e(e: &mut Engine, a: R, b: R) -> R {
    if is_c(a) && is_c(b) {
        let (x, y) = (cf(a), cf(b));
        let s = x + y;
        if !exact_on(e) || !s.is_finite() {
            return c(s);
        }
        let bb = s - x;
        if (x - (s - bb)) + (y - bb) == 0.0 && e.special(a) == a && e.special(b) == b {
            return c(s);
        }
        return e.mk(Op::Add, a, b);
    }
    if e.mode == Mode::Real {
        for (p, q) in [(a, b), (b, a)] {
            if is_c(p) {
                let v = cf(p);
                if v == 0.0 {
                    return q;
                }
                if !v.is_finite() {
                    return p;
                }
            }
        }
        // x + (-x)
        if let (Some(i), Some(j)) = (sym_id(a), sym_id(b)) {
            let (n, m) = (e.nodes[i as usize], e.nodes[j as usize]);
            if (n.op == Op::Neg && n.a == b) || (m.op == Op::Neg && m.a == a) {
                return c(0.0);
            }
        }
    }
    e.mk(Op::Add, a, b)
}

pub fn sub_e(e: &mut Engine, a: R, b: R) -> R {
    if is_c(a) && is_c(b) {
        let (x, y) = (cf(a), -cf(b));
        let s = x + y;
        if !exact_on(e) || !s.is_finite() {
            return c(cf(a) - cf(b));
        }
        let bb = s - x;
        if (x - (s - bb)) + (y - bb) == 0.0 && e.special(a) == a && e.special(b) == b {
            return c(s);
        }
        return e.mk(Op::Sub, a, b);
    }
    if e.mode == Mode::Real {
        if a == b {
            return c(0.0);
        }
        if is_c(a) {
            if cf(a) == 0.0 {
                return neg_e(e, b);
            }
            if !cf(a).is_finite() {
                return a;
            }
        }
        if is_c(b) {
            if cf(b) == 0.0 {
                return a;
            }
            if !cf(b).is_finite() {
                return c(-cf(b));
            }
        }
    } else if is_c(b) && b == c(0.0) {
        return a; // x - 0.0 == x exactly
    }
    e.mk(Op::Sub, a, b)
}

pub fn mul_e(e: &mut Engine, a: R, b: R) -> R {
    if is_c(a) && is_c(b) {
        let p = cf(a) * cf(b);
        if !exact_on(e) || !p.is_finite() || cf(a) == 0.0 || cf(b) == 0.0 {
            return c(p);
        }
        if cf(a).mul_add(cf(b), -p) == 0.0 && e.special(a) == a && e.special(b) == b {
            return c(p);
        }
        return e.mk(Op::Mul, a, b);
    }
    for (p, q) in [(a, b), (b, a)] {
        if is_c(p) {
            let v = cf(p);
            if v == 1.0 {
                return q;
            }
            if v == -1.0 {
                return neg_e(e, q);
            }
            if e.mode == Mode::Real {
                if v == 0.0 {
                    return c(0.0);
                }
                if v.is_nan() {
                    return p;
                }
                if v.is_infinite() {
                    if e.branch(Rel::Eq, q, c(0.0)) {
                        return c(f64::NAN);
                    }
                    return if e.branch(Rel::Lt, q, c(0.0)) { c(-v) } else { c(v) };
                }
            }
        }
    }
    e.mk(Op::Mul, a, b)
}

pub fn div_e(e: &mut Engine, a: R, b: R) -> R {
    if is_c(a) && is_c(b) {
        let (x, y) = (cf(a), cf(b));
        let q = x / y;
        if !exact_on(e) || !q.is_finite() || x == 0.0 || !y.is_finite() {
            return c(q);
        }
        if q.mul_add(y, -x) == 0.0 && e.special(a) == a && e.special(b) == b {
            return c(q);
        }
        return e.mk(Op::Div, a, b);
    }
    if is_c(b) {
        let v = cf(b);
        if v == 1.0 {
            return a;
        }
        if e.mode == Mode::Real {
            if v.is_nan() {
                return b;
            }
            if v.is_infinite() {
                return c(0.0);
            }
            if v == 0.0 {
                if e.branch(Rel::Eq, a, c(0.0)) {
                    return c(f64::NAN);
                }
                let inf = if v.is_sign_negative() { f64::NEG_INFINITY } else { f64::INFINITY };
                return if e.branch(Rel::Lt, a, c(0.0)) { c(-inf) } else { c(inf) };
            }
        }
        return e.mk(Op::Div, a, b);
    }
    if e.mode == Mode::Real {
        if is_c(a) && cf(a).is_nan() {
            return a;
        }
        let zero = e.branch(Rel::Eq, b, c(0.0));
        if zero {
            if is_c(a) && cf(a).is_infinite() {
                return a;
            }
            if e.branch(Rel::Eq, a, c(0.0)) {
                return c(f64::NAN);
            }
            return if e.branch(Rel::Lt, a, c(0.0)) { c(f64::NEG_INFINITY) } else { c(f64::INFINITY) };
        }
        if is_c(a) {
            if cf(a) == 0.0 {
                return c(0.0);
            }
            if cf(a).is_infinite() {
                return if e.branch(Rel::Lt, b, c(0.0)) { c(-cf(a)) } else { a };
            }
        }
        if a == b {
            return c(1.0);
        }
    }
    e.mk(Op::Div, a, b)
}

pub fn sqrt_e(e: &mut Engine, a: R) -> R {
    if is_c(a) {
        let s = cf(a).sqrt();
        if !exact_on(e) || !s.is_finite() || s.mul_add(s, -cf(a)) == 0.0 {
            return c(s);
        }
        return e.mk(Op::Sqrt, a, 0);
    }
    if e.mode == Mode::Real && e.branch(Rel::Lt, a, c(0.0)) {
        return c(f64::NAN);
    }
    e.mk(Op::Sqrt, a, 0)
}

pub fn exp_e(e: &mut Engine, a: R) -> R {
    if is_c(a) {
        if !exact_on(e) || cf(a) == 0.0 || !cf(a).is_finite() {
            return c(cf(a).exp());
        }
        return e.mk(Op::Exp, a, 0);
    }
    if e.mode == Mode::Real {
        let n = e.nodes[sym_id(a).unwrap() as usize];
        if n.op == Op::Ln {
            return n.a;
        }
        // exp(k * (ln(x) / k)) and exp((ln x / k) * k): log10/pow10 round trip
        if n.op == Op::Mul {
            for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(j) = sym_id(q) {
                    let m = e.nodes[j as usize];
                    if m.op == Op::Div && m.b == p {
                        if let Some(l) = sym_id(m.a) {
                            let ln = e.nodes[l as usize];
                            if ln.op == Op::Ln {
                                return ln.a;
                            }
                        }
                    }
                }
            }
        }
    }
    e.mk(Op::Exp, a, 0)
}

pub fn ln_e(e: &mut Engine, a: R) -> R {
    if is_c(a) {
        let l = cf(a).ln();
        if !exact_on(e) || !l.is_finite() || cf(a) == 1.0 {
            return c(l);
        }
        return e.mk(Op::Ln, a, 0);
    }
    if e.mode == Mode::Real {
        let n = e.nodes[sym_id(a).unwrap() as usize];
        if n.op == Op::Exp {
            return n.a;
        }
        if e.branch(Rel::Le, a, c(0.0)) {
            if e.branch(Rel::Eq, a, c(0.0)) {
                return c(f64::NEG_INFINITY);
            }
            return c(f64::NAN);
        }
    }
    e.mk(Op::Ln, a, 0)
}

pub fn erfc_e(e: &mut Engine, a: R) -> R {
    if is_c(a) {
        if !exact_on(e) || cf(a) == 0.0 || !cf(a).is_finite() {
            return c(libm::erfc(cf(a)));
        }
    }
    e.mk(Op::Erfc, a, 0)
}

#[inline]
fn un(op: Op, a: Sym, f: fn(f64) -> f64) -> Sym {
    if is_c(a.bits) {
        return lit(f(cf(a.bits)));
    }
    Sym { bits: eng().mk(op, a.bits, 0) }
}

/// symbolic derivative d r / d var
pub fn deriv_e(e: &mut Engine, r: R, var: u32) -> R {
    let Some(id) = sym_id(r) else { return c(0.0) };
    if let Some(v) = e.deriv_memo.get(&(r, var)) {
        return *v;
    }
    let n = e.nodes[id as usize];
    let d = match n.op {
        Op::Var(v) => c(if v == var { 1.0 } else { 0.0 }),
        Op::Pi => c(0.0),
        Op::Add => {
            let (x, y) = (deriv_e(e, n.a, var), deriv_e(e, n.b, var));
            add_e(e, x, y)
        }
        Op::Sub => {
            let (x, y) = (deriv_e(e, n.a, var), deriv_e(e, n.b, var));
            sub_e(e, x, y)
        }
        Op::Mul => {
            let (x, y) = (deriv_e(e, n.a, var), deriv_e(e, n.b, var));
            let p = mul_e(e, x, n.b);
            let q = mul_e(e, n.a, y);
            add_e(e, p, q)
        }
        Op::Div => {
            // (a' - (a/b) b') / b ; denominators were already shown non-zero on this path
            let (x, y) = (deriv_e(e, n.a, var), deriv_e(e, n.b, var));
            let t = mul_e(e, r, y);
            let num = sub_e(e, x, t);
            if num == c(0.0) { num } else { div_e(e, num, n.b) }
        }
        Op::Neg => {
            let x = deriv_e(e, n.a, var);
            neg_e(e, x)
        }
        Op::Sqrt => {
            let x = deriv_e(e, n.a, var);
            if x == c(0.0) {
                x
            } else {
                let t = mul_e(e, c(2.0), r);
                div_e(e, x, t)
            }
        }
        Op::Exp => {
            let x = deriv_e(e, n.a, var);
            mul_e(e, x, r)
        }
        Op::Ln => {
            let x = deriv_e(e, n.a, var);
            if x == c(0.0) { x } else { div_e(e, x, n.a) }
        }
        Op::Erfc => {
            let x = deriv_e(e, n.a, var);
            if x == c(0.0) {
                x
            } else {
                let sq = mul_e(e, n.a, n.a);
                let m = neg_e(e, sq);
                let ex = exp_e(e, m);
                let k = c(-std::f64::consts::FRAC_2_SQRT_PI);
                let k = if e.exact {
                    let p = e.mk0(Op::Pi, 0, 0);
                    let s = e.mk0(Op::Sqrt, p, 0);
                    e.mk0(Op::Div, c(-2.0), s)
                } else {
                    k
                };
                let t = mul_e(e, k, ex);
                mul_e(e, t, x)
            }
        }
        Op::Sin => {
            let x = deriv_e(e, n.a, var);
            let cs = e.mk(Op::Cos, n.a, 0);
            mul_e(e, x, cs)
        }
        Op::Cos => {
            let x = deriv_e(e, n.a, var);
            let s = e.mk(Op::Sin, n.a, 0);
            let m = mul_e(e, x, s);
            neg_e(e, m)
        }
        Op::Floor | Op::RoundNA | Op::Trunc => c(0.0),
        Op::Abs => panic!("symrs: derivative of abs node"),
    };
    e.deriv_memo.insert((r, var), d);
    d
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            #[inline]
            fn $m(self, o: Sym) -> Sym {
                Sym { bits: $f(&mut eng(), self.bits, o.bits) }
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                $tr::$m(self, *o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $tr::$m(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                $tr::$m(*self, *o)
            }
        }
        impl $tra<Sym> for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = $tr::$m(*self, o);
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $ma(&mut self, o: &'a Sym) {
                *self = $tr::$m(*self, *o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add_e);
binop!(Sub, sub, SubAssign, sub_assign, sub_e);
binop!(Mul, mul, MulAssign, mul_assign, mul_e);
binop!(Div, div, DivAssign, div_assign, div_e);
fn rem_e(e: &mut Engine, a: R, b: R) -> R {
    if is_c(a) && is_c(b) {
        return c(cf(a) % cf(b));
    }
    let _ = e;
    panic!("symrs: symbolic remainder unsupported")
}
binop!(Rem, rem, RemAssign, rem_assign, rem_e);

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym { bits: neg_e(&mut eng(), self.bits) }
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        eng().branch(Rel::Eq, self.bits, o.bits)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        let mut e = eng();
        let (a, b) = (self.bits, o.bits);
        if e.branch(Rel::Lt, a, b) {
            return Some(Ordering::Less);
        }
        if e.branch(Rel::Eq, a, b) {
            return Some(Ordering::Equal);
        }
        if e.branch(Rel::Lt, b, a) {
            return Some(Ordering::Greater);
        }
        None
    }
    fn lt(&self, o: &Sym) -> bool {
        eng().branch(Rel::Lt, self.bits, o.bits)
    }
    fn le(&self, o: &Sym) -> bool {
        eng().branch(Rel::Le, self.bits, o.bits)
    }
    fn gt(&self, o: &Sym) -> bool {
        eng().branch(Rel::Lt, o.bits, self.bits)
    }
    fn ge(&self, o: &Sym) -> bool {
        eng().branch(Rel::Le, o.bits, self.bits)
    }
}

impl Default for Sym {
    fn default() -> Self {
        lit(0.0)
    }
}

fn disp(s: &Sym) -> Result<f64, String> {
    match sym_id(s.bits) {
        None => Ok(cf(s.bits)),
        Some(i) => Err(format!("${i}")),
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match disp(self) {
            Ok(v) => fmt::Display::fmt(&v, f),
            Err(s) => f.write_str(&s),
        }
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match disp(self) {
            Ok(v) => fmt::Debug::fmt(&v, f),
            Err(s) => f.write_str(&s),
        }
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match disp(self) {
            Ok(v) => fmt::LowerExp::fmt(&v, f),
            Err(s) => f.write_str(&s),
        }
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match disp(self) {
            Ok(v) => fmt::UpperExp::fmt(&v, f),
            Err(s) => f.write_str(&s),
        }
    }
}

impl serde::Serialize for Sym {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.bits)
    }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() {
            struct V;
            impl serde::de::Visitor<'_> for V {
                type Value = Sym;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str("sym bits (integer) or a float")
                }
                fn visit_u64<E>(self, v: u64) -> Result<Sym, E> {
                    Ok(Sym { bits: v })
                }
                fn visit_i64<E>(self, v: i64) -> Result<Sym, E> {
                    Ok(Sym { bits: v as u64 })
                }
                fn visit_f64<E>(self, v: f64) -> Result<Sym, E> {
                    Ok(lit(v))
                }
            }
            d.deserialize_any(V)
        } else {
            Ok(Sym { bits: <u64 as serde::Deserialize>::deserialize(d)? })
        }
    }
}

impl Zero for Sym {
    fn zero() -> Self {
        lit(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == lit(0.0)
    }
}
impl One for Sym {
    fn one() -> Self {
        lit(1.0)
    }
}
impl Num for Sym {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(lit)
    }
}
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<f64>().map(lit)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        ToPrimitive::to_i64(&self.conc())
    }
    fn to_u64(&self) -> Option<u64> {
        ToPrimitive::to_u64(&self.conc())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(cf(self.bits)) // NaN-boxed when symbolic
    }
    fn to_f32(&self) -> Option<f32> {
        panic!("symrs: to_f32")
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(lit)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Self> {
        Some(lit(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(lit(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(lit(n))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Some(lit(n as f64))
    }
}
impl num_traits::AsPrimitive<usize> for Sym {
    fn as_(self) -> usize {
        self.conc() as usize
    }
}
impl num_traits::AsPrimitive<Sym> for usize {
    fn as_(self) -> Sym {
        lit(self as f64)
    }
}
impl Signed for Sym {
    fn abs(&self) -> Self {
        Sym::abs(*self)
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if *self <= *o { lit(0.0) } else { *self - *o }
    }
    fn signum(&self) -> Self {
        Sym::signum(*self)
    }
    fn is_positive(&self) -> bool {
        self.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        self.is_sign_negative()
    }
}
impl num_traits::MulAdd for Sym {
    type Output = Sym;
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
}
impl num_traits::Bounded for Sym {
    fn min_value() -> Self {
        lit(f64::MIN)
    }
    fn max_value() -> Self {
        lit(f64::MAX)
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        // f64's Sum starts from -0.0
        it.fold(lit(-0.0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(lit(-0.0), |a, b| a + *b)
    }
}
impl Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(lit(1.0), |a, b| a * b)
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(lit(1.0), |a, b| a * *b)
    }
}
macro_rules! from_num { ($($t:ty),*) => { $(impl From<$t> for Sym { fn from(x: $t) -> Sym { lit(x as f64) } })* } }
from_num!(i8, i16, i32, u8, u16, u32, f32, f64);

impl ndarray::ScalarOperand for Sym {}
impl ndarray::NdFloat for Sym {}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        lit(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Self, eps: Sym) -> bool {
        *self == *o || Sym::abs(*self - *o) <= eps
    }
}
#[cfg(feature = "linfa")]
impl linfa::Float for Sym {
    type Lapack = Sym;
}
#[cfg(feature = "argmin")]
impl From<Sym> for argmin::core::KvValue {
    fn from(s: Sym) -> Self {
        argmin::core::KvValue::Float(cf(s.bits))
    }
}

#[allow(non_upper_case_globals)]
impl Sym {
    pub const MAX: Sym = lit(f64::MAX);
    pub const MIN: Sym = lit(f64::MIN);
    pub const INFINITY: Sym = lit(f64::INFINITY);
    pub const NEG_INFINITY: Sym = lit(f64::NEG_INFINITY);
    pub const NAN: Sym = lit(f64::NAN);
    pub const EPSILON: Sym = lit(f64::EPSILON);
    pub const MIN_POSITIVE: Sym = lit(f64::MIN_POSITIVE);
    pub const MIN_10_EXP: i32 = f64::MIN_10_EXP;
    pub const MAX_10_EXP: i32 = f64::MAX_10_EXP;
    pub const DIGITS: u32 = f64::DIGITS;

    /// concrete numeric value; integral part is forked when symbolic
    pub fn conc(self) -> f64 {
        if is_c(self.bits) {
            return cf(self.bits);
        }
        eng().concretize(self.bits)
    }
    /// the f64 carrier (NaN-boxed when symbolic)
    pub fn raw(self) -> f64 {
        cf(self.bits)
    }
    pub fn is_symbolic(self) -> bool {
        !is_c(self.bits)
    }
    pub fn abs(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).abs());
        }
        let mut e = eng();
        if e.mode == Mode::Fp {
            return Sym { bits: e.mk(Op::Abs, self.bits, 0) };
        }
        if e.branch(Rel::Lt, self.bits, c(0.0)) {
            Sym { bits: neg_e(&mut e, self.bits) }
        } else {
            self
        }
    }
    pub fn signum(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).signum());
        }
        if self.is_nan() {
            return lit(f64::NAN);
        }
        if self.is_sign_negative() { lit(-1.0) } else { lit(1.0) }
    }
    pub fn sqrt(self) -> Sym {
        Sym { bits: sqrt_e(&mut eng(), self.bits) }
    }
    pub fn cbrt(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).cbrt());
        }
        panic!("symrs: symbolic cbrt")
    }
    pub fn exp(self) -> Sym {
        crate::h::guard_exp(self);
        Sym { bits: exp_e(&mut eng(), self.bits) }
    }
    pub fn exp_m1(self) -> Sym {
        self.exp() - lit(1.0)
    }
    pub fn ln(self) -> Sym {
        Sym { bits: ln_e(&mut eng(), self.bits) }
    }
    pub fn ln_1p(self) -> Sym {
        (self + lit(1.0)).ln()
    }
    pub fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    pub fn log10(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).log10());
        }
        self.ln() / lit(std::f64::consts::LN_10)
    }
    pub fn log2(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).log2());
        }
        self.ln() / lit(std::f64::consts::LN_2)
    }
    pub fn erfc(self) -> Sym {
        Sym { bits: erfc_e(&mut eng(), self.bits) }
    }
    pub fn sin(self) -> Sym {
        un(Op::Sin, self, f64::sin)
    }
    pub fn cos(self) -> Sym {
        un(Op::Cos, self, f64::cos)
    }
    pub fn tan(self) -> Sym {
        self.sin() / self.cos()
    }
    pub fn tanh(self) -> Sym {
        let e2 = (lit(2.0) * self).exp();
        (e2 - lit(1.0)) / (e2 + lit(1.0))
    }
    pub fn powi(self, n: i32) -> Sym {
        if is_c(self.bits) {
            let x = cf(self.bits);
            if !(exact_on(&eng())) {
                return lit(x.powi(n));
            }
        }
        if n == 0 {
            return lit(1.0);
        }
        let mut r = self;
        for _ in 1..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { lit(1.0) / r } else { r }
    }
    pub fn powf(self, p: Sym) -> Sym {
        if is_c(self.bits) && is_c(p.bits) {
            let (x, y) = (cf(self.bits), cf(p.bits));
            if !exact_on(&eng()) {
                return lit(x.powf(y));
            }
        }
        if is_c(p.bits) {
            let v = cf(p.bits);
            if v.fract() == 0.0 && v.abs() <= 16.0 {
                return self.powi(v as i32);
            }
            if v == 0.5 {
                return self.sqrt();
            }
            if v == -0.5 {
                return lit(1.0) / self.sqrt();
            }
            if v == 1.5 {
                return self * self.sqrt();
            }
        }
        if is_c(self.bits) {
            let base = cf(self.bits);
            // 10^y, 2^y, ...
            let l = if base == 10.0 { lit(std::f64::consts::LN_10) } else { lit(base).ln() };
            return (p * l).exp();
        }
        (p * self.ln()).exp()
    }
    pub fn recip(self) -> Sym {
        lit(1.0) / self
    }
    pub fn floor(self) -> Sym {
        un(Op::Floor, self, f64::floor)
    }
    pub fn ceil(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).ceil());
        }
        -(-self).floor()
    }
    pub fn round(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).round());
        }
        if eng().mode == Mode::Fp {
            return un(Op::RoundNA, self, f64::round);
        }
        if self < lit(0.0) { -((-self + lit(0.5)).floor()) } else { (self + lit(0.5)).floor() }
    }
    pub fn trunc(self) -> Sym {
        if is_c(self.bits) {
            return lit(cf(self.bits).trunc());
        }
        if eng().mode == Mode::Fp {
            return un(Op::Trunc, self, f64::trunc);
        }
        if self < lit(0.0) { -((-self).floor()) } else { self.floor() }
    }
    pub fn fract(self) -> Sym {
        self - self.trunc()
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self < o { o } else { self }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if o < self { o } else { self }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi, "min > max, or either was NaN");
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn is_nan(self) -> bool {
        eng().branch(Rel::IsNan, self.bits, 0)
    }
    pub fn is_infinite(self) -> bool {
        eng().branch(Rel::IsInf, self.bits, 0)
    }
    pub fn is_finite(self) -> bool {
        !self.is_nan() && !self.is_infinite()
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self.abs() >= lit(f64::MIN_POSITIVE)
    }
    pub fn is_sign_negative(self) -> bool {
        let mut e = eng();
        if is_c(self.bits) {
            return cf(self.bits).is_sign_negative();
        }
        if e.mode == Mode::Real {
            e.branch(Rel::Lt, self.bits, c(0.0))
        } else {
            e.branch(Rel::IsNeg, self.bits, 0)
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn copysign(self, s: Sym) -> Sym {
        let a = self.abs();
        if s.is_sign_negative() { -a } else { a }
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        if is_c(self.bits) && is_c(o.bits) {
            return cf(self.bits).total_cmp(&cf(o.bits));
        }
        if let Some(x) = self.partial_cmp(o) {
            if x != Ordering::Equal || eng().mode == Mode::Real {
                return x;
            }
            let (a, b) = (self.is_sign_negative(), o.is_sign_negative());
            return b.cmp(&a);
        }
        match (self.is_nan(), o.is_nan()) {
            (true, true) => Ordering::Equal,
            (true, false) => {
                if self.is_sign_negative() { Ordering::Less } else { Ordering::Greater }
            }
            _ => {
                if o.is_sign_negative() { Ordering::Greater } else { Ordering::Less }
            }
        }
    }
    pub fn to_bits(self) -> u64 {
        if self.is_symbolic() {
            panic!("symrs: to_bits of a symbolic value")
        }
        self.bits
    }
    pub fn from_bits(b: u64) -> Sym {
        Sym { bits: b }
    }
    pub fn to_degrees(self) -> Sym {
        self * lit(180.0 / std::f64::consts::PI)
    }
    pub fn to_radians(self) -> Sym {
        self * lit(std::f64::consts::PI / 180.0)
    }
    pub fn exp2(self) -> Sym {
        lit(2.0).powf(self)
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn powf_(self, p: Sym) -> Sym {
        self.powf(p)
    }
    pub fn div_euclid(self, o: Sym) -> Sym {
        (self / o).floor()
    }
    pub fn abs_sub(self, o: Sym) -> Sym {
        if self <= o { lit(0.0) } else { self - o }
    }
}

macro_rules! fwd0 { ($($n:ident),*) => { $(fn $n() -> Self { lit(<f64 as Float>::$n()) })* } }
macro_rules! fwd1 { ($($n:ident),*) => { $(fn $n(self) -> Self { Sym::$n(self) })* } }
macro_rules! conc1 { ($($n:ident),*) => { $(fn $n(self) -> Self { if self.is_symbolic() { panic!(concat!("symrs: symbolic ", stringify!($n))) } lit(cf(self.bits).$n()) })* } }
impl Float for Sym {
    fwd0!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    fwd1!(
        floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin,
        cos, tan, tanh, exp_m1, ln_1p, to_degrees, to_radians
    );
    conc1!(asin, acos, atan, sinh, cosh, asinh, acosh, atanh);
    fn is_nan(self) -> bool {
        Sym::is_nan(self)
    }
    fn is_infinite(self) -> bool {
        Sym::is_infinite(self)
    }
    fn is_finite(self) -> bool {
        Sym::is_finite(self)
    }
    fn is_normal(self) -> bool {
        Sym::is_normal(self)
    }
    fn classify(self) -> FpCategory {
        self.raw().classify()
    }
    fn is_sign_positive(self) -> bool {
        Sym::is_sign_positive(self)
    }
    fn is_sign_negative(self) -> bool {
        Sym::is_sign_negative(self)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn powi(self, n: i32) -> Self {
        Sym::powi(self, n)
    }
    fn powf(self, n: Self) -> Self {
        Sym::powf(self, n)
    }
    fn log(self, b: Self) -> Self {
        Sym::log(self, b)
    }
    fn max(self, o: Self) -> Self {
        Sym::max(self, o)
    }
    fn min(self, o: Self) -> Self {
        Sym::min(self, o)
    }
    fn clamp(self, lo: Self, hi: Self) -> Self {
        Sym::clamp(self, lo, hi)
    }
    fn abs_sub(self, o: Self) -> Self {
        Sym::abs_sub(self, o)
    }
    fn hypot(self, o: Self) -> Self {
        Sym::hypot(self, o)
    }
    fn atan2(self, o: Self) -> Self {
        if self.is_symbolic() || o.is_symbolic() {
            panic!("symrs: symbolic atan2")
        }
        lit(self.raw().atan2(o.raw()))
    }
    fn sin_cos(self) -> (Self, Self) {
        Sym::sin_cos(self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        if self.is_symbolic() {
            panic!("symrs: integer_decode")
        }
        Float::integer_decode(self.raw())
    }
    fn copysign(self, s: Self) -> Self {
        Sym::copysign(self, s)
    }
}
macro_rules! fconst { ($($n:ident),*) => { impl FloatConst for Sym { $(fn $n() -> Self { lit(std::f64::consts::$n) })* } } }
fconst!(
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8,
    LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);
/// replacement of `std::f64`
pub mod f64m {
    pub mod consts {
        use crate::{Sym, lit};
        macro_rules! k { ($($n:ident),*) => { $(pub const $n: Sym = lit(std::f64::consts::$n);)* } }
        k!(
            E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6,
            FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, LOG10_2, LOG2_10, PI, SQRT_2, TAU
        );
    }
    pub const EPSILON: crate::Sym = crate::Sym::EPSILON;
    pub const MAX: crate::Sym = crate::Sym::MAX;
    pub const MIN: crate::Sym = crate::Sym::MIN;
    pub const INFINITY: crate::Sym = crate::Sym::INFINITY;
    pub const NEG_INFINITY: crate::Sym = crate::Sym::NEG_INFINITY;
    pub const NAN: crate::Sym = crate::Sym::NAN;
}

/// `e as f64`
pub trait ToSym {
    fn to_sym(self) -> Sym;
}
macro_rules! tosym { ($($t:ty),*) => { $(impl ToSym for $t { fn to_sym(self) -> Sym { lit(self as f64) } })* } }
tosym!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
impl ToSym for Sym {
    fn to_sym(self) -> Sym {
        self
    }
}
pub fn to_sym<T: ToSym>(t: T) -> Sym {
    t.to_sym()
}
/// `e as <int>`
pub trait CastTo<T> {
    fn cast_to(self) -> T;
}
macro_rules! castto1 { ($t:ty; $($u:ty),*) => { $(impl CastTo<$u> for $t { fn cast_to(self) -> $u { self as $u } })* } }
macro_rules! castto { ($($t:ty),*) => { $(castto1!($t; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);)* } }
castto!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, bool);
castto1!(char; u32, u64, usize, i32);
macro_rules! castsym { ($($u:ty),*) => { $(impl CastTo<$u> for Sym { fn cast_to(self) -> $u { self.conc() as $u } })* } }
castsym!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
pub fn cast<T, U: CastTo<T>>(u: U) -> T {
    u.cast_to()
}

/// replacement of `libm`
pub mod libm_ {
    use crate::Sym;
    pub fn erfc(x: Sym) -> Sym {
        x.erfc()
    }
    pub fn erf(x: Sym) -> Sym {
        crate::lit(1.0) - x.erfc()
    }
    pub fn exp(x: Sym) -> Sym {
        x.exp()
    }
    pub fn expm1(x: Sym) -> Sym {
        x.exp_m1()
    }
    pub fn log(x: Sym) -> Sym {
        x.ln()
    }
    pub fn log1p(x: Sym) -> Sym {
        x.ln_1p()
    }
    pub fn sqrt(x: Sym) -> Sym {
        x.sqrt()
    }
    pub fn pow(x: Sym, y: Sym) -> Sym {
        x.powf(y)
    }
    pub fn fabs(x: Sym) -> Sym {
        x.abs()
    }
}

// ---- random sampling: float draws are symbolic -------------------------------------------
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::distributions::{Distribution, Standard};
use rand::{Rng, RngCore};
#[derive(Clone, Copy, Debug)]
pub struct UniformSym {
    lo: Sym,
    hi: Sym,
}
impl UniformSampler for UniformSym {
    type X = Sym;
    fn new<B1: SampleBorrow<Sym> + Sized, B2: SampleBorrow<Sym> + Sized>(lo: B1, hi: B2) -> Self {
        let (lo, hi) = (*lo.borrow(), *hi.borrow());
        assert!(lo < hi, "Uniform::new called with `low >= high`");
        UniformSym { lo, hi }
    }
    fn new_inclusive<B1: SampleBorrow<Sym> + Sized, B2: SampleBorrow<Sym> + Sized>(lo: B1, hi: B2) -> Self {
        let (lo, hi) = (*lo.borrow(), *hi.borrow());
        assert!(lo <= hi, "Uniform::new_inclusive called with `low > high`");
        UniformSym { lo, hi }
    }
    fn sample<R2: Rng + ?Sized>(&self, rng: &mut R2) -> Sym {
        let u = draw_unit(rng);
        u * (self.hi - self.lo) + self.lo
    }
}
impl SampleUniform for Sym {
    type Sampler = UniformSym;
}
/// the stubbed generator announces a float draw through `next_u32` protocol: see stubs::rand_xoshiro
pub fn draw_unit<R2: RngCore + ?Sized>(rng: &mut R2) -> Sym {
    crate::stubs::rng_float_request(|| {
        let _ = rng.next_u64();
    })
}
impl Distribution<Sym> for Standard {
    fn sample<R2: Rng + ?Sized>(&self, rng: &mut R2) -> Sym {
        draw_unit(rng)
    }
}
impl Distribution<Sym> for rand_distr::StandardNormal {
    fn sample<R2: Rng + ?Sized>(&self, _rng: &mut R2) -> Sym {
        panic!("symrs: normal draws are not modelled")
    }
}

// ---- scalar (op) array, as ndarray provides for f64 -----------------------------------------
use ndarray::{ArrayBase, Data, DataMut, DataOwned, Dimension, OwnedRepr};
macro_rules! sarr {
    ($tr:ident, $m:ident) => {
        impl<S, D> $tr<ArrayBase<S, D>> for Sym
        where
            S: DataOwned<Elem = Sym> + DataMut,
            D: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $m(self, mut a: ArrayBase<S, D>) -> ArrayBase<S, D> {
                a.map_inplace(|x| *x = $tr::$m(self, *x));
                a
            }
        }
        impl<'a, S, D> $tr<&'a ArrayBase<S, D>> for Sym
        where
            S: Data<Elem = Sym>,
            D: Dimension,
        {
            type Output = ArrayBase<OwnedRepr<Sym>, D>;
            fn $m(self, a: &'a ArrayBase<S, D>) -> ArrayBase<OwnedRepr<Sym>, D> {
                a.map(|x| $tr::$m(self, *x))
            }
        }
    };
}
sarr!(Add, add);
sarr!(Sub, sub);
sarr!(Mul, mul);
sarr!(Div, div);
