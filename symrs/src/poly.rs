//! Rational normal form over canonical atoms. Used as preprocessing of equality assertions:
//! transcendental atoms with provably equal arguments are unified and both sides are rewritten as
//! quotients of polynomials, so that the solver is left with a polynomial query.
use crate::engine::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

pub type Mono = Vec<(u32, u32)>;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Poly(pub BTreeMap<Mono, BigRational>);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rat {
    pub n: Poly,
    pub d: Poly,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Key {
    Node(u32),
    Fun(Op, Rat),
}

pub struct Nf<'a> {
    e: &'a Engine,
    keys: Vec<Key>,
    ids: HashMap<Key, u32>,
    memo: HashMap<u32, Option<Rat>>,
    limit: usize,
    deadline: std::time::Instant,
}

fn konst(q: BigRational) -> Poly {
    let mut m = BTreeMap::new();
    if !q.is_zero() {
        m.insert(vec![], q);
    }
    Poly(m)
}
fn one() -> Poly {
    konst(BigRational::one())
}
impl Poly {
    fn is_const(&self) -> Option<BigRational> {
        if self.0.is_empty() {
            return Some(BigRational::zero());
        }
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.is_empty() {
                return Some(c.clone());
            }
        }
        None
    }
    fn add(&self, o: &Poly) -> Poly {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            let e = r.entry(m.clone()).or_insert_with(BigRational::zero);
            *e += c;
            if e.is_zero() {
                r.remove(m);
            }
        }
        Poly(r)
    }
    fn scale(&self, k: &BigRational) -> Poly {
        if k.is_zero() {
            return konst(BigRational::zero());
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    fn neg(&self) -> Poly {
        self.scale(&-BigRational::one())
    }
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}

/// decimal constant as an exact rational (same reading as the SMT encoding)
pub fn rat_of(v: f64) -> Option<BigRational> {
    if !v.is_finite() {
        return None;
    }
    let s = format!("{:e}", v.abs());
    let (m, e) = s.split_once('e')?;
    let e: i32 = e.parse().ok()?;
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let digits: BigInt = format!("{ip}{fp}").parse().ok()?;
    let sc = e - fp.len() as i32;
    let p = BigInt::from(10).pow(sc.unsigned_abs());
    let r = if sc >= 0 { BigRational::from(digits * p) } else { BigRational::new(digits, p) };
    Some(if v < 0.0 { -r } else { r })
}

impl<'a> Nf<'a> {
    pub fn new(e: &'a Engine, limit: usize, ms: u64) -> Self {
        Nf {
            e,
            keys: vec![],
            ids: HashMap::new(),
            memo: HashMap::new(),
            limit,
            deadline: std::time::Instant::now() + std::time::Duration::from_millis(ms),
        }
    }
    fn atom(&mut self, k: Key) -> u32 {
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.keys.len() as u32;
        self.keys.push(k.clone());
        self.ids.insert(k, i);
        i
    }
    fn pv(&mut self, k: Key) -> Rat {
        let a = self.atom(k);
        let mut m = BTreeMap::new();
        m.insert(vec![(a, 1)], BigRational::one());
        Rat { n: Poly(m), d: one() }
    }
    fn is_exp(&self, a: u32) -> bool {
        matches!(self.keys[a as usize], Key::Fun(Op::Exp, _))
    }
    fn is_sqrt(&self, a: u32) -> bool {
        matches!(self.keys[a as usize], Key::Fun(Op::Sqrt, _))
    }
    fn arg(&self, a: u32) -> Rat {
        match &self.keys[a as usize] {
            Key::Fun(_, r) => r.clone(),
            _ => unreachable!(),
        }
    }
    fn pmul_raw(&self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.0.len() * b.0.len() > self.limit * 40 || std::time::Instant::now() > self.deadline {
            return None;
        }
        let mut r: BTreeMap<Mono, BigRational> = BTreeMap::new();
        for (ma, ca) in &a.0 {
            for (mb, cb) in &b.0 {
                let m = mono_mul(ma, mb);
                let e = r.entry(m).or_insert_with(BigRational::zero);
                *e += ca * cb;
            }
        }
        r.retain(|_, c| !c.is_zero());
        if r.len() > self.limit {
            return None;
        }
        Some(Poly(r))
    }
    /// merge exponentials and reduce squares of square roots
    fn reduce(&mut self, p: Poly) -> Option<Rat> {
        let mut dirty = false;
        for m in p.0.keys() {
            let ne: u32 = m.iter().filter(|(a, _)| self.is_exp(*a)).map(|x| x.1).sum();
            if ne > 1 || m.iter().any(|(a, k)| *k > 1 && self.is_sqrt(*a)) {
                dirty = true;
                break;
            }
        }
        if !dirty {
            return Some(Rat { n: p, d: one() });
        }
        let mut acc = Rat { n: konst(BigRational::zero()), d: one() };
        let mut plain = BTreeMap::new();
        for (m, c) in p.0 {
            let ne: u32 = m.iter().filter(|(a, _)| self.is_exp(*a)).map(|x| x.1).sum();
            let sq = m.iter().any(|(a, k)| *k > 1 && self.is_sqrt(*a));
            if ne <= 1 && !sq {
                plain.insert(m, c);
                continue;
            }
            let mut rest: Mono = vec![];
            let mut earg: Option<Rat> = None;
            let mut fac = Rat { n: konst(c), d: one() };
            for (a, k) in m {
                if self.is_exp(a) && ne > 1 {
                    let t = self.arg(a);
                    let t = Rat { n: t.n.scale(&BigRational::from(BigInt::from(k))), d: t.d };
                    earg = Some(match earg {
                        None => t,
                        Some(x) => self.radd(&x, &t)?,
                    });
                } else if self.is_sqrt(a) && k > 1 {
                    let t = self.arg(a);
                    for _ in 0..k / 2 {
                        fac = self.rmul(&fac, &t)?;
                    }
                    if k % 2 == 1 {
                        rest.push((a, 1));
                    }
                } else {
                    rest.push((a, k));
                }
            }
            if let Some(x) = earg {
                if !x.n.0.is_empty() {
                    let id = self.atom(Key::Fun(Op::Exp, x));
                    rest = mono_mul(&rest, &vec![(id, 1)]);
                }
            }
            let mut b = BTreeMap::new();
            b.insert(rest, BigRational::one());
            let t = Rat { n: Poly(b), d: one() };
            let t = self.rmul(&fac, &t)?;
            acc = self.radd(&acc, &t)?;
        }
        let pl = Rat { n: Poly(plain), d: one() };
        self.radd(&acc, &pl)
    }
    fn pmul(&mut self, a: &Poly, b: &Poly) -> Option<Rat> {
        let r = self.pmul_raw(a, b)?;
        self.reduce(r)
    }
    fn norm(&mut self, r: Rat) -> Option<Rat> {
        if r.n.0.is_empty() {
            return Some(Rat { n: r.n, d: one() });
        }
        if let Some(c) = r.d.is_const() {
            let inv = c.recip();
            return Some(Rat { n: r.n.scale(&inv), d: one() });
        }
        // monomial denominators: cancel common atoms, move exponentials up
        if r.d.0.len() == 1 {
            let (dm, dc) = r.d.0.iter().next().unwrap();
            let (dm, dc) = (dm.clone(), dc.clone());
            let mut n = r.n.scale(&dc.recip());
            let mut dm2: Mono = vec![];
            let mut up: Option<Rat> = None;
            for (a, k) in dm {
                if self.is_exp(a) {
                    let t = self.arg(a);
                    let t = Rat { n: t.n.scale(&-BigRational::from(BigInt::from(k))), d: t.d };
                    up = Some(match up {
                        None => t,
                        Some(x) => self.radd(&x, &t)?,
                    });
                    continue;
                }
                let mn = n
                    .0
                    .keys()
                    .map(|m| m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0))
                    .min()
                    .unwrap_or(0)
                    .min(k);
                if mn > 0 {
                    n = Poly(
                        n.0.into_iter()
                            .map(|(m, c)| {
                                (
                                    m.into_iter()
                                        .filter_map(|(b, j)| {
                                            if b == a {
                                                if j > mn { Some((b, j - mn)) } else { None }
                                            } else {
                                                Some((b, j))
                                            }
                                        })
                                        .collect(),
                                    c,
                                )
                            })
                            .collect(),
                    );
                }
                if k > mn {
                    dm2.push((a, k - mn));
                }
            }
            // no square roots of constants or pi below the fraction bar
            if let Some(i) = dm2.iter().position(|(a, _)| self.is_sqrt(*a) && {
                let t = self.arg(*a);
                t.d == one() && t.n.0.len() == 1 && t.n.0.keys().next().unwrap().iter().all(|x| self.is_positive(x.0))
            }) {
                let (a, k) = dm2.remove(i);
                let t = self.arg(a);
                let top = Poly([(vec![(a, k % 2)], BigRational::one())].into_iter().filter(|_| k % 2 == 1).collect());
                let top = if k % 2 == 1 { top } else { one() };
                let mut bot = Poly([(dm2, BigRational::one())].into_iter().collect());
                for _ in 0..k.div_ceil(2) {
                    bot = self.pmul_raw(&bot, &t.n)?;
                }
                let nn = self.pmul_raw(&n, &top)?;
                let nn = self.reduce(nn)?;
                let r = Rat { n: nn.n, d: self.pmul_raw(&nn.d, &bot)? };
                let r = self.norm(r)?;
                return match up {
                    None => Some(r),
                    Some(x) => {
                        let t = self.pv(Key::Fun(Op::Exp, x));
                        self.rmul(&r, &t)
                    }
                };
            }
            let mut d = BTreeMap::new();
            d.insert(dm2, BigRational::one());
            let r = Rat { n, d: Poly(d) };
            if let Some(x) = up {
                let id = self.atom(Key::Fun(Op::Exp, x));
                let mut b = BTreeMap::new();
                b.insert(vec![(id, 1)], BigRational::one());
                let t = Rat { n: Poly(b), d: one() };
                return self.rmul(&r, &t);
            }
            return Some(r);
        }
        // scale so that the leading denominator coefficient is one
        let lc = r.d.0.iter().next_back().unwrap().1.clone();
        let (n, d) = if lc.is_one() { (r.n, r.d) } else { (r.n.scale(&lc.recip()), r.d.scale(&lc.recip())) };
        if n == d {
            return Some(Rat { n: one(), d: one() });
        }
        Some(Rat { n, d })
    }
    fn rmul(&mut self, a: &Rat, b: &Rat) -> Option<Rat> {
        if a.n == b.d && a.n.0.len() > 1 {
            return self.norm(Rat { n: b.n.clone(), d: a.d.clone() });
        }
        if b.n == a.d && b.n.0.len() > 1 {
            return self.norm(Rat { n: a.n.clone(), d: b.d.clone() });
        }
        let n = self.pmul(&a.n, &b.n)?;
        let d = if a.d == one() && b.d == one() {
            Rat { n: one(), d: one() }
        } else {
            self.pmul(&a.d, &b.d)?
        };
        // (n.n/n.d) / (d.n/d.d)
        self.rdiv_raw(n, d)
    }
    fn rdiv_raw(&mut self, n: Rat, d: Rat) -> Option<Rat> {
        let one_ = one();
        let num = if d.d == one_ { n.n.clone() } else { self.pmul_raw(&n.n, &d.d)? };
        let den = if n.d == one_ { d.n.clone() } else { self.pmul_raw(&n.d, &d.n)? };
        let nn = self.reduce(num)?;
        let dd = self.reduce(den)?;
        if nn.d == one_ && dd.d == one_ {
            return self.norm(Rat { n: nn.n, d: dd.n });
        }
        let num = self.pmul_raw(&nn.n, &dd.d)?;
        let den = self.pmul_raw(&nn.d, &dd.n)?;
        self.norm(Rat { n: num, d: den })
    }
    fn radd(&mut self, a: &Rat, b: &Rat) -> Option<Rat> {
        if a.d == b.d {
            return self.norm(Rat { n: a.n.add(&b.n), d: a.d.clone() });
        }
        let x = self.pmul(&a.n, &b.d)?;
        let y = self.pmul(&b.n, &a.d)?;
        let d = self.pmul(&a.d, &b.d)?;
        let one_ = one();
        if x.d == one_ && y.d == one_ {
            return self.rdiv_raw(Rat { n: x.n.add(&y.n), d: one() }, d);
        }
        let s = self.radd(&x, &y)?;
        self.rdiv_raw(s, d)
    }
    fn of(&mut self, x: R) -> Option<Rat> {
        let Some(id) = sym_id(x) else {
            return Some(Rat { n: konst(rat_of(cf(x))?), d: one() });
        };
        // iterative post-order
        let mut st = vec![id];
        while let Some(&t) = st.last() {
            if self.memo.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = self.e.nodes[t as usize];
            let kids: Vec<R> = match n.op {
                Op::Var(_) | Op::Pi => vec![],
                Op::Add | Op::Sub | Op::Mul | Op::Div => vec![n.a, n.b],
                _ => vec![n.a],
            };
            let miss: Vec<u32> =
                kids.iter().filter_map(|k| sym_id(*k)).filter(|k| !self.memo.contains_key(k)).collect();
            if !miss.is_empty() {
                st.extend(miss);
                continue;
            }
            let r = self.of_node(t, n);
            self.memo.insert(t, r);
            st.pop();
        }
        self.memo[&id].clone()
    }
    fn get(&self, x: R) -> Option<Rat> {
        match sym_id(x) {
            Some(i) => self.memo[&i].clone(),
            None => Some(Rat { n: konst(rat_of(cf(x))?), d: one() }),
        }
    }
    fn of_node(&mut self, t: u32, n: Node) -> Option<Rat> {
        let a = match n.op {
            Op::Var(_) | Op::Pi => return Some(self.pv(Key::Node(t))),
            _ => self.get(n.a)?,
        };
        match n.op {
            Op::Add => {
                let b = self.get(n.b)?;
                self.radd(&a, &b)
            }
            Op::Sub => {
                let b = self.get(n.b)?;
                let b = Rat { n: b.n.neg(), d: b.d };
                self.radd(&a, &b)
            }
            Op::Mul => {
                let b = self.get(n.b)?;
                self.rmul(&a, &b)
            }
            Op::Div => {
                let b = self.get(n.b)?;
                if b.n.0.is_empty() {
                    return None;
                }
                let inv = self.norm(Rat { n: b.d, d: b.n })?;
                self.rmul(&a, &inv)
            }
            Op::Neg => Some(Rat { n: a.n.neg(), d: a.d }),
            Op::Exp => {
                if a.n.0.is_empty() {
                    return Some(Rat { n: one(), d: one() });
                }
                self.exp_of(a)
            }
            Op::Ln => {
                // ln(exp(t)) = t
                if a.d == one() && a.n.0.len() == 1 {
                    let (m, k) = a.n.0.iter().next().unwrap();
                    if k.is_one() && m.len() == 1 && m[0].1 == 1 && self.is_exp(m[0].0) {
                        return Some(self.arg(m[0].0));
                    }
                }
                Some(self.pv(Key::Fun(Op::Ln, a)))
            }
            Op::Sqrt => self.sqrt_of(a),
            op => {
                if op == Op::Erfc && a.n.0.is_empty() {
                    return Some(Rat { n: one(), d: one() });
                }
                // erfc(-x) = 2 - erfc(x): orient by the sign of the leading coefficient
                if op == Op::Erfc {
                    let neg = a.n.0.iter().next_back().map(|x| x.1.is_negative()).unwrap_or(false);
                    if neg {
                        let m = Rat { n: a.n.neg(), d: a.d };
                        let p = self.pv(Key::Fun(Op::Erfc, m));
                        let two = Rat { n: konst(BigRational::from(BigInt::from(2))), d: one() };
                        let p = Rat { n: p.n.neg(), d: p.d };
                        return self.radd(&two, &p);
                    }
                }
                Some(self.pv(Key::Fun(op, a)))
            }
        }
    }
    /// exp(k ln(p) + rest) = p^k exp(rest) for integer and half integer k
    fn exp_of(&mut self, a: Rat) -> Option<Rat> {
        let mut rest = a.n.clone();
        let mut fac = Rat { n: one(), d: one() };
        {
            let two = BigRational::from(BigInt::from(2));
            // logarithms whose coefficient is a multiple of the denominator
            let mut ids: Vec<u32> = a.n.0.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
            ids.sort();
            ids.dedup();
            ids.retain(|i| matches!(self.keys[*i as usize], Key::Fun(Op::Ln, _)));
            let mut lns: Vec<(u32, BigRational)> = vec![];
            for i in ids {
                let mut q = BTreeMap::new();
                let mut ok = true;
                for (m, c) in &a.n.0 {
                    match m.iter().find(|x| x.0 == i).map(|x| x.1) {
                        None => {}
                        Some(1) => {
                            q.insert(m.iter().filter(|x| x.0 != i).cloned().collect::<Mono>(), c.clone());
                        }
                        _ => ok = false,
                    }
                }
                if !ok || q.len() != a.d.0.len() {
                    continue;
                }
                let k = q.iter().next_back().unwrap().1 / a.d.0.iter().next_back().unwrap().1;
                if Poly(q) == a.d.scale(&k) && (&k * &two).is_integer() && k.abs() <= BigRational::from(BigInt::from(8)) {
                    lns.push((i, k));
                }
            }
            for (m, k) in lns {
                rest = Poly(rest.0.into_iter().filter(|(x, _)| x.iter().all(|y| y.0 != m)).collect());
                let p = self.arg(m);
                let base = if k.is_negative() { self.norm(Rat { n: p.d, d: p.n })? } else { p };
                let k2: u32 = (k.abs() * &two).to_integer().try_into().ok()?;
                for _ in 0..k2 / 2 {
                    fac = self.rmul(&fac, &base)?;
                }
                if k2 % 2 == 1 {
                    let r = self.sqrt_of(base)?;
                    fac = self.rmul(&fac, &r)?;
                }
            }
        }
        if rest.0.is_empty() {
            return Some(fac);
        }
        let x = self.pv(Key::Fun(Op::Exp, Rat { n: rest, d: a.d }));
        self.rmul(&fac, &x)
    }
    /// square root with constants and powers of pi pulled out in canonical form
    fn sqrt_of(&mut self, a: Rat) -> Option<Rat> {
        if a.n.0.is_empty() {
            return Some(a);
        }
        // common rational content of numerator and denominator (leading coefficients)
        let (cn, cd) = (a.n.0.iter().next_back().unwrap().1.abs(), a.d.0.iter().next_back().unwrap().1.abs());
        let mut k = &cn / &cd;
        let mut n = a.n.scale(&cn.recip());
        let mut d = a.d.scale(&cd.recip());
        let mut fac = Rat { n: one(), d: one() };
        // powers of pi
        let pis: Vec<u32> = (0..self.keys.len() as u32)
            .filter(|i| matches!(&self.keys[*i as usize], Key::Node(t) if matches!(self.e.nodes[*t as usize].op, Op::Pi)))
            .collect();
        for p in pis {
            for up in [true, false] {
                let q = if up { &mut n } else { &mut d };
                let mn = q.0.keys().map(|m| m.iter().find(|x| x.0 == p).map(|x| x.1).unwrap_or(0)).min().unwrap_or(0);
                if mn == 0 {
                    continue;
                }
                *q = Poly(
                    q.0.iter()
                        .map(|(m, c)| {
                            (m.iter().filter_map(|(b, j)| if *b == p { if *j > mn { Some((*b, j - mn)) } else { None } } else { Some((*b, *j)) }).collect(), c.clone())
                        })
                        .collect(),
                );
                let pi = Rat { n: Poly([(vec![(p, 1)], BigRational::one())].into_iter().collect()), d: one() };
                let mut t = Rat { n: one(), d: one() };
                for _ in 0..mn / 2 {
                    t = self.rmul(&t, &pi)?;
                }
                if mn % 2 == 1 {
                    let s = self.pv(Key::Fun(Op::Sqrt, pi.clone()));
                    t = self.rmul(&t, &s)?;
                }
                if !up {
                    t = self.norm(Rat { n: t.d, d: t.n })?;
                }
                fac = self.rmul(&fac, &t)?;
            }
        }
        // constant: sqrt(p/q) = sqrt(p q)/q, square factors out
        if !k.is_one() {
            let mut m = k.numer() * k.denom();
            let mut out = BigInt::one();
            let big = BigInt::from(1u64 << 40);
            if let Some(s) = sqrt_rat(&k) {
                fac = self.rmul(&fac, &Rat { n: konst(s), d: one() })?;
                k = BigRational::one();
            } else if m < big {
                for f in [2u32, 3, 5, 7, 11, 13] {
                    let f2 = BigInt::from(f * f);
                    while (&m % &f2).is_zero() {
                        m /= &f2;
                        out *= BigInt::from(f);
                    }
                }
                let c = BigRational::new(out, k.denom().clone());
                fac = self.rmul(&fac, &Rat { n: konst(c), d: one() })?;
                let s = self.pv(Key::Fun(Op::Sqrt, Rat { n: konst(BigRational::from(m)), d: one() }));
                fac = self.rmul(&fac, &s)?;
                k = BigRational::one();
            }
        }
        let rest = self.norm(Rat { n: n.scale(&k), d })?;
        if let (Some(c), true) = (rest.n.is_const(), rest.d == one()) {
            if let Some(s) = sqrt_rat(&c) {
                return self.rmul(&fac, &Rat { n: konst(s), d: one() });
            }
        }
        let s = self.pv(Key::Fun(Op::Sqrt, rest));
        self.rmul(&fac, &s)
    }
    fn print_poly(&self, p: &Poly) -> String {
        if p.0.is_empty() {
            return "0.0".into();
        }
        let terms: Vec<String> = p
            .0
            .iter()
            .map(|(m, c)| {
                let mut s = String::new();
                let num = |b: &BigInt| {
                    if b.is_negative() { format!("(- {}.0)", -b) } else { format!("{}.0", b) }
                };
                let cs = if c.denom().is_one() {
                    num(c.numer())
                } else {
                    format!("(/ {} {}.0)", num(c.numer()), c.denom())
                };
                let _ = write!(s, "(* {cs}");
                for (a, k) in m {
                    for _ in 0..*k {
                        let _ = write!(s, " a{a}");
                    }
                }
                s.push(')');
                if m.is_empty() { cs } else { s }
            })
            .collect();
        if terms.len() == 1 { terms[0].clone() } else { format!("(+ {})", terms.join(" ")) }
    }
}
fn sqrt_rat(c: &BigRational) -> Option<BigRational> {
    if c.is_negative() {
        return None;
    }
    let (n, d) = (c.numer().sqrt(), c.denom().sqrt());
    if &(&n * &n) == c.numer() && &(&d * &d) == c.denom() {
        Some(BigRational::new(n, d))
    } else {
        None
    }
}

/// SMT query deciding a == b after unification of atoms (no path condition): unsat means equal
/// wherever all denominators are non-zero. None: normal form too large.
pub fn equality_query(e: &Engine, a: R, b: R, limit: usize, ms: u64) -> Option<(String, bool)> {
    let mut nf = Nf::new(e, limit, ms);
    let ra = nf.of(a)?;
    let rb = nf.of(b)?;
    if std::env::var("SYMRS_NF").is_ok() {
        eprintln!("A {} / {}\nB {} / {}", nf.print_poly(&ra.n), nf.print_poly(&ra.d), nf.print_poly(&rb.n), nf.print_poly(&rb.d));
        for (i, k) in nf.keys.iter().enumerate() {
            match k {
                Key::Node(t) => eprintln!("  a{i} node {:?}", nf.e.nodes[*t as usize].op),
                Key::Fun(o, r) => eprintln!("  a{i} {o:?} {} / {}", nf.print_poly(&r.n), nf.print_poly(&r.d)),
            }
        }
    }
    let one_ = one();
    let side = |x: &Poly, y: &Poly, nf: &Nf| {
        if *y == one_ {
            nf.print_poly(x)
        } else {
            format!("(* {} {})", nf.print_poly(x), nf.print_poly(y))
        }
    };
    let (l, r, same) = if ra.d == rb.d {
        let same = ra.n == rb.n;
        (nf.print_poly(&ra.n), nf.print_poly(&rb.n), same)
    } else {
        let x = nf.pmul(&ra.n, &rb.d)?;
        let y = nf.pmul(&rb.n, &ra.d)?;
        if x.d == y.d {
            let same = x.n == y.n;
            (nf.print_poly(&x.n), nf.print_poly(&y.n), same)
        } else {
            let ny = Rat { n: y.n.neg(), d: y.d.clone() };
            let same = nf.radd(&x, &ny).map(|z| z.n.0.is_empty()).unwrap_or(false);
            (side(&x.n, &y.d, &nf), side(&y.n, &x.d, &nf), same)
        }
    };
    let mut s = String::new();
    for i in 0..nf.keys.len() {
        let _ = writeln!(s, "(declare-const a{i} Real)");
    }
    // defining equations of square roots (polynomial argument)
    for i in 0..nf.keys.len() {
        if nf.is_sqrt(i as u32) {
            let t = nf.arg(i as u32);
            let _ = writeln!(
                s,
                "(assert (= (* a{i} a{i} {}) {}))",
                nf.print_poly(&t.d),
                nf.print_poly(&t.n)
            );
        }
    }
    let _ = writeln!(s, "(assert (not (= {l} {r})))");
    Some((s, same))
}

impl Nf<'_> {
    /// enclosing interval of an atom from the input ranges
    fn atom_range(&self, a: u32, depth: u32) -> Option<(f64, f64)> {
        match &self.keys[a as usize] {
            Key::Node(t) => match self.e.nodes[*t as usize].op {
                Op::Var(v) => {
                    let v = &self.e.vars[v as usize];
                    if v.lo.is_finite() && v.hi.is_finite() { Some((v.lo, v.hi)) } else { None }
                }
                Op::Pi => Some((3.14, 3.15)),
                _ => None,
            },
            Key::Fun(Op::Exp, r) => {
                let (l, h) = self.rat_range(r, depth + 1)?;
                let (l, h) = (l.exp() * (1.0 - 1e-9), h.exp() * (1.0 + 1e-9));
                if h.is_finite() { Some((l, h)) } else { None }
            }
            Key::Fun(Op::Sqrt, r) => {
                let (l, h) = self.rat_range(r, depth + 1)?;
                Some((l.max(0.0).sqrt() * (1.0 - 1e-9), h.max(0.0).sqrt() * (1.0 + 1e-9)))
            }
            Key::Fun(Op::Erfc, _) => Some((0.0, 2.0)),
            Key::Fun(Op::Sin | Op::Cos, _) => Some((-1.0, 1.0)),
            _ => None,
        }
    }
    fn mono_range(&self, m: &Mono, depth: u32) -> Option<(f64, f64)> {
        let (mut l, mut h) = (1.0f64, 1.0f64);
        for (a, k) in m {
            let (al, ah) = self.atom_range(*a, depth)?;
            let (pl, ph) = if k % 2 == 0 {
                let x = al.abs().max(ah.abs()).powi(*k as i32);
                let n = if al <= 0.0 && ah >= 0.0 { 0.0 } else { al.abs().min(ah.abs()).powi(*k as i32) };
                (n, x)
            } else {
                (al.powi(*k as i32), ah.powi(*k as i32))
            };
            let c = [l * pl, l * ph, h * pl, h * ph];
            l = c.iter().cloned().fold(f64::INFINITY, f64::min);
            h = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
        // outward rounding
        let w = 1e-9 * l.abs().max(h.abs());
        if l.is_finite() && h.is_finite() { Some((l - w, h + w)) } else { None }
    }
    fn poly_range(&self, p: &Poly, depth: u32) -> Option<(f64, f64)> {
        use num_traits::ToPrimitive;
        if depth > 6 {
            return None;
        }
        let (mut l, mut h) = (0.0f64, 0.0f64);
        for (m, c) in &p.0 {
            let c = c.to_f64()?;
            let (ml, mh) = if m.is_empty() { (1.0, 1.0) } else { self.mono_range(m, depth)? };
            let (x, y) = if c >= 0.0 { (c * ml, c * mh) } else { (c * mh, c * ml) };
            l += x - 1e-9 * x.abs();
            h += y + 1e-9 * y.abs();
        }
        Some((l, h))
    }
    fn rat_range(&self, r: &Rat, depth: u32) -> Option<(f64, f64)> {
        let (l, h) = self.poly_range(&r.n, depth)?;
        if r.d == one() {
            return Some((l, h));
        }
        let (a, b) = self.poly_range(&r.d, depth)?;
        if a <= 0.0 && b >= 0.0 {
            return None;
        }
        let c = [l / a, l / b, h / a, h / b];
        Some((
            c.iter().cloned().fold(f64::INFINITY, f64::min),
            c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
        ))
    }
}

impl Nf<'_> {
    fn is_positive(&self, a: u32) -> bool {
        match &self.keys[a as usize] {
            Key::Fun(Op::Exp | Op::Sqrt, _) => true,
            Key::Node(t) => matches!(self.e.nodes[*t as usize].op, Op::Pi),
            _ => false,
        }
    }
    /// sign of t / f when the two are proportional by a product of positive atoms
    fn proportional(&mut self, t: &Poly, f: &Poly) -> Option<i32> {
        let group = |p: &Poly, nf: &Self| {
            let mut g: BTreeMap<Mono, Vec<(Mono, BigRational)>> = BTreeMap::new();
            for (m, c) in &p.0 {
                let k: Mono = m.iter().filter(|x| !nf.is_positive(x.0)).cloned().collect();
                g.entry(k).or_default().push((m.iter().filter(|x| nf.is_positive(x.0)).cloned().collect(), c.clone()));
            }
            g
        };
        let (gt, gf) = (group(t, self), group(f, self));
        if gt.len() != gf.len() {
            return None;
        }
        let (k, x) = gt.iter().find(|(k, v)| v.len() == 1 && gf.get(*k).is_some_and(|w| w.len() == 1))?;
        let y = &gf[k][0];
        let x = &x[0];
        let single = |m: &Mono, c: &BigRational| Poly([(m.clone(), c.clone())].into_iter().collect());
        let l = self.pmul(t, &single(&y.0, &y.1))?;
        let r = self.pmul(f, &single(&x.0, &x.1))?;
        let r = Rat { n: r.n.neg(), d: r.d };
        if !self.radd(&l, &r)?.n.0.is_empty() {
            return None;
        }
        Some(if x.1.is_negative() == y.1.is_negative() { 1 } else { -1 })
    }
    fn positive_den(&self, d: &Poly) -> Option<()> {
        if d.0.len() == 1 {
            let (m, c) = d.0.iter().next().unwrap();
            if !c.is_negative() && m.iter().all(|x| self.is_positive(x.0)) {
                return Some(());
            }
        }
        let (l, _) = self.poly_range(d, 0)?;
        if l > 0.0 { Some(()) } else { None }
    }
}
/// sign of b - a if it is a positive multiple, or minus a positive multiple, of a known positive
/// quantity (each fact reads x < y)
pub fn sign_by_facts(e: &Engine, a: R, b: R, facts: &[(R, R)]) -> Option<i32> {
    let mut nf = Nf::new(e, 400, 20000);
    let mut diff = |a: R, b: R| -> Option<Rat> {
        let (x, y) = (nf.of(a)?, nf.of(b)?);
        let x = Rat { n: x.n.neg(), d: x.d };
        nf.radd(&y, &x)
    };
    let t = diff(a, b)?;
    let fs: Vec<Option<Rat>> = facts.iter().map(|(x, y)| diff(*x, *y)).collect();
    nf.positive_den(&t.d)?;
    for f in fs.into_iter().flatten() {
        if nf.positive_den(&f.d).is_none() {
            continue;
        }
        if let Some(s) = nf.proportional(&t.n, &f.n) {
            return Some(s);
        }
    }
    None
}

/// Linear relaxation of |a - b| <= tol: the normal form of the difference has coefficients at the
/// level of rounding; every monomial is replaced by a fresh real within its enclosing interval.
/// The returned script is unsatisfiable when the two sides agree up to tol everywhere.
pub fn near_query(e: &Engine, a: R, b: R, tol: f64, limit: usize, ms: u64) -> Option<String> {
    let mut nf = Nf::new(e, limit, ms);
    let ra = nf.of(a)?;
    let rb = nf.of(b)?;
    let nb = Rat { n: rb.n.neg(), d: rb.d };
    let d = nf.radd(&ra, &nb)?;
    let dmin = if d.d == one() {
        1.0
    } else {
        let (l, h) = nf.poly_range(&d.d, 0)?;
        if l > 0.0 {
            l
        } else if h < 0.0 {
            -h
        } else {
            return None;
        }
    };
    if !(dmin * tol > 1e-300) {
        return None;
    }
    let mut s = String::new();
    let mut terms = vec![];
    for (i, (m, c)) in d.n.0.iter().enumerate() {
        let (l, h) = if m.is_empty() { (1.0, 1.0) } else { nf.mono_range(m, 0)? };
        let _ = writeln!(s, "(declare-const m{i} Real)");
        let _ = writeln!(
            s,
            "(assert (and (<= {} m{i}) (<= m{i} {})))",
            crate::smt::real_const(l),
            crate::smt::real_const(h)
        );
        let mut one_term = BTreeMap::new();
        one_term.insert(vec![], c.clone());
        terms.push(format!("(* {} m{i})", nf.print_poly(&Poly(one_term))));
    }
    if terms.is_empty() {
        terms.push("0.0".into());
    }
    let sum = if terms.len() == 1 { terms[0].clone() } else { format!("(+ {})", terms.join(" ")) };
    let t = crate::smt::real_const(dmin * tol);
    let _ = writeln!(s, "(assert (or (> {sum} {t}) (< {sum} (- {t}))))");
    Some(s)
}

/// enclosing interval of a value from the ranges of the inputs
pub fn value_range(e: &Engine, a: R) -> Option<(f64, f64)> {
    let mut nf = Nf::new(e, 400, 5000);
    let r = nf.of(a)?;
    nf.rat_range(&r, 0)
}
