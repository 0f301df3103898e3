//! Mixed-integer spaces: relaxation, projection, sampling, surrogates
use egobox_doe::{LhsKind, SamplingMethod};
use egobox_ego::gpmix::mixint::*;
use egobox_ego::{SurrogateBuilder, XType};
use egobox_moe::*;
use linfa::ParamGuard;
use ndarray::{Array1, Array2, Array3, array};
use symrs::h;

fn space(k: usize) -> Vec<XType> {
    match k {
        0 => vec![XType::Float(-2.0, 3.0), XType::Int(-3, 4), XType::Enum(3)],
        1 => vec![XType::Ord(vec![0.5, 2.0, -1.0]), XType::Enum(2), XType::Float(-2.0, 3.0)],
        2 => vec![XType::Enum(3), XType::Int(-1, 1), XType::Ord(vec![-1.0, 4.0])],
        3 => vec![XType::Enum(2), XType::Float(0.0, 1.0), XType::Enum(3)],
        _ => vec![XType::Enum(3), XType::Enum(2)],
    }
}
/// the relaxed bounds, component by component
fn limits(xt: &[XType]) -> Vec<(f64, f64)> {
    let mut r: Vec<(f64, f64)> = vec![];
    for t in xt {
        match t {
            XType::Float(a, b) => r.push((*a, *b)),
            XType::Int(a, b) => r.push((*a as f64, *b as f64)),
            XType::Ord(v) => {
                let mut lo = v[0];
                let mut hi = v[0];
                for x in v {
                    if *x < lo {
                        lo = *x;
                    }
                    if *x > hi {
                        hi = *x;
                    }
                }
                r.push((lo, hi));
            }
            XType::Enum(n) => {
                for _ in 0..*n {
                    r.push((0.0, 1.0));
                }
            }
        }
    }
    r
}
fn relaxed(xt: &[XType], name: &str) -> Array2<f64> {
    let l = limits(xt);
    let mut x: Array2<f64> = Array2::zeros((1, l.len()));
    for (i, (a, b)) in l.iter().enumerate() {
        x[[0, i]] = h::input(&format!("{name}{i}"), *a, *b);
    }
    x
}
/// checks one component of the projection; returns the columns used
fn check_cast(t: &XType, x: &[f64], c: &[f64]) -> usize {
    match t {
        XType::Float(..) => {
            h::check("a continuous variable is left unchanged", c[0] == x[0]);
            1
        }
        XType::Int(a, b) => {
            h::check("an integer variable takes an integer of its range", (*a..=*b).any(|k| c[0] == k as f64));
            h::check_le("an integer variable takes a nearest integer", (c[0] - x[0]).abs(), 0.5);
            1
        }
        XType::Ord(v) => {
            h::check("an ordered variable takes one of its values", v.iter().any(|k| c[0] == *k));
            for k in v {
                h::check_le("an ordered variable takes a nearest value", (c[0] - x[0]).abs(), (*k - x[0]).abs());
            }
            1
        }
        XType::Enum(n) => {
            let ones = (0..*n).filter(|i| c[*i] == 1.0).count();
            let zeros = (0..*n).filter(|i| c[*i] == 0.0).count();
            h::check("an enumeration is cast to a mask with a single one", ones == 1 && zeros == *n - 1);
            for i in 0..*n {
                if c[i] == 1.0 {
                    for j in 0..*n {
                        h::check_le("the level chosen has the largest relaxed value", x[j], x[i]);
                    }
                }
            }
            *n
        }
    }
}
pub fn cast() {
    let xt = space(h::choose("space", 5));
    let lim: Array2<f64> = as_continuous_limits(&xt);
    let l = limits(&xt);
    h::check("one relaxed component per variable and per level", lim.nrows() == l.len());
    for (i, (a, b)) in l.iter().enumerate() {
        h::check("relaxed bounds", lim[[i, 0]] == *a && lim[[i, 1]] == *b);
    }
    h::check("relaxed dimension", compute_continuous_dim(&xt) == l.len());
    let x = relaxed(&xt, "x");
    let c = cast_to_discrete_values(&xt, &x);
    let mut j = 0;
    for t in &xt {
        j += check_cast(t, &x.row(0).to_vec()[j..], &c.row(0).to_vec()[j..]);
    }
    let c2 = cast_to_discrete_values(&xt, &c);
    h::check("the projection is idempotent", c2 == c);
}
/// the folded form carries the values and the indices of the levels
fn fold_with(k: usize) {
    let xt = space(k);
    let x = relaxed(&xt, "x");
    let c = cast_to_discrete_values(&xt, &x);
    let d = to_discrete_space(&xt, &x);
    h::check("one column per variable", d.ncols() == xt.len() && d.nrows() == 1);
    let mut j = 0;
    let mut seen = false;
    for (i, t) in xt.iter().enumerate() {
        match t {
            XType::Enum(n) => {
                let tag = if seen { "index of the level of a later enumeration" } else { "index of the level of an enumeration" };
                h::check(tag, (0..*n).any(|k| d[[0, i]] == k as f64 && c[[0, j + k]] == 1.0));
                seen = true;
                j += *n;
            }
            _ => {
                h::check("value of a variable after folding", d[[0, i]] == c[[0, j]]);
                j += 1;
            }
        }
    }
    if k < 3 {
        h::check("unfolding recovers the projected point", to_continuous_space(&xt, &d) == c);
    }
}
pub fn fold() {
    fold_with(h::choose("space", 3));
}
/// several enumerations
pub fn fold_enum2() {
    fold_with(3 + h::choose("space", 2));
}
/// admissible points are kept by unfolding and folding
pub fn unfold() {
    let k = h::choose("space", 5);
    let xt = space(k);
    let mut d: Array2<f64> = Array2::zeros((2, xt.len()));
    for r in 0..2 {
        for (i, t) in xt.iter().enumerate() {
            d[[r, i]] = match t {
                XType::Float(a, b) => h::input(&format!("f{r}{i}"), *a, *b),
                XType::Int(a, b) => (*a + h::choose(&format!("i{r}{i}"), (*b - *a + 1) as usize) as i32) as f64,
                XType::Ord(v) => v[h::choose(&format!("o{r}{i}"), v.len())],
                XType::Enum(n) => h::choose(&format!("e{r}{i}"), *n) as f64,
            };
        }
    }
    let u = to_continuous_space(&xt, &d);
    h::check("relaxed dimension", u.ncols() == limits(&xt).len() && u.nrows() == 2);
    for r in 0..2 {
        let mut j = 0;
        for (i, t) in xt.iter().enumerate() {
            match t {
                XType::Enum(n) => {
                    for k in 0..*n {
                        let e = if d[[r, i]] == k as f64 { 1.0 } else { 0.0 };
                        h::check("mask of a level", u[[r, j + k]] == e);
                    }
                    j += *n;
                }
                _ => {
                    h::check("value of a variable after unfolding", u[[r, j]] == d[[r, i]]);
                    j += 1;
                }
            }
        }
    }
    if k < 3 {
        h::check("folding recovers the admissible point", to_discrete_space(&xt, &u) == d);
    }
}
/// sampled points are admissible
pub fn sampling() {
    let k = h::choose("space", if h::thorough() { 3 } else { 2 });
    let xt = space(k);
    let lhs: MixintSampling<f64, _>;
    let folded = h::choose("folded", 2) == 1;
    let n = 1 + h::choose("n", 2);
    let mut l = MixintContext::new(&xt).create_lhs_sampling::<f64>(LhsKind::Classic, Some(1));
    l.work_in_folded_space(folded);
    lhs = l;
    let s = lhs.sample(n);
    h::check("as many points as asked", s.nrows() == n);
    h::check("dimension of the sampled points", s.ncols() == if folded { xt.len() } else { limits(&xt).len() });
    for r in 0..n {
        let mut j = 0;
        for t in &xt {
            match t {
                XType::Float(a, b) => {
                    h::check_le("lower bound", *a, s[[r, j]]);
                    h::check_le("upper bound", s[[r, j]], *b);
                }
                XType::Int(a, b) => h::check("an integer of the range", (*a..=*b).any(|k| s[[r, j]] == k as f64)),
                XType::Ord(v) => h::check("one of the values", v.iter().any(|k| s[[r, j]] == *k)),
                XType::Enum(n) => {
                    if folded {
                        h::check("index of a level", (0..*n).any(|k| s[[r, j]] == k as f64))
                    } else {
                        let ones = (0..*n).filter(|i| s[[r, j + *i]] == 1.0).count();
                        let zeros = (0..*n).filter(|i| s[[r, j + *i]] == 0.0).count();
                        h::check("mask of a level", ones == 1 && zeros == *n - 1);
                        j += *n - 1;
                    }
                }
            }
            j += 1;
        }
        h::check("dimension of a sampled point", j == s.ncols());
    }
}
/// the surrogate sees projected points
pub fn surrogate() {
    let xt = match h::choose("space", 2) {
        0 => vec![XType::Float(-2.0, 3.0), XType::Int(-1, 1), XType::Enum(3)],
        _ => vec![XType::Ord(vec![0.5, 2.0, -1.0]), XType::Enum(2), XType::Float(-2.0, 3.0)],
    };
    let anyfloat = h::choose("anyfloat", 2) == 1;
    let nc = limits(&xt).len();
    let folded = h::choose("folded", 2) == 1;
    let n = 3;
    let d = Array2::from_shape_fn((n, xt.len()), |(i, j)| match &xt[j] {
        XType::Float(a, b) => *a + (*b - *a) * (i as f64) / 4.0,
        XType::Int(a, _) => (*a + (i as i32 * 2) % 3) as f64,
        XType::Ord(v) => v[i % v.len()],
        XType::Enum(m) => ((i / 2) % *m) as f64,
    });
    let x = if folded { d } else { to_continuous_space(&xt, &d) };
    let y: Array1<f64> = array![0.3, 1.1, -0.4];
    let eye = |k: usize| Array3::from_shape_fn((1, k, k), |(_, a, b)| if a == b { 1.0 } else { 0.0 });
    let base = GpMixture::params()
        .regression_spec(RegressionSpec::CONSTANT)
        .correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL)
        .theta_tunings(&[ThetaTuning::Fixed(Array1::from_elem(nc, 1.0))])
        .n_clusters(NbClusters::fixed(1))
        .recombination(Recombination::Hard)
        .gmx(array![1.0], Array2::zeros((1, nc)), eye(nc));
    let mut p = MixintGpMixtureParams::new(&xt, &base);
    p.work_in_folded_space(folded);
    let m = p.check().unwrap()._train(&x, &y).unwrap();
    let plain = base.check().unwrap().train(&if folded { to_continuous_space(&xt, &x) } else { x.clone() }, &y).unwrap();
    h::exact_mode();
    let mut q = if folded {
        let mut q: Array2<f64> = Array2::zeros((1, xt.len()));
        for (i, t) in xt.iter().enumerate() {
            q[[0, i]] = match t {
                XType::Float(a, b) => h::input("f", *a, *b),
                XType::Int(a, b) => h::input("i", *a as f64, *b as f64),
                XType::Ord(_) => h::input("o", -1.0, 2.0),
                XType::Enum(n) => h::choose("e", *n) as f64,
            };
        }
        q
    } else {
        relaxed(&xt, "q")
    };
    if !anyfloat {
        let j = if matches!(xt[0], XType::Float(..)) { 0 } else { q.ncols() - 1 };
        q[[0, j]] = 0.4;
    }
    let c = if folded { cast_to_discrete_values(&xt, &to_continuous_space(&xt, &q)) } else { cast_to_discrete_values(&xt, &q) };
    let v = m.predict(&q.view()).unwrap();
    h::check_eq("value at the projected point", v[0], plain.predict(&c.view()).unwrap()[0]);
    let g = m.predict_gradients(&q.view()).unwrap();
    let pg = plain.predict_gradients(&c.view()).unwrap();
    h::check("one derivative per relaxed component", g.ncols() == nc);
    for j in 0..nc {
        h::check_eq("gradient at the projected point", g[[0, j]], pg[[0, j]]);
    }
    if anyfloat {
        return;
    }
    let s = m.predict_var(&q.view()).unwrap();
    h::check_eq("variance at the projected point", s[0], plain.predict_var(&c.view()).unwrap()[0]);
    let (v2, s2) = m.predict_valvar(&q.view()).unwrap();
    h::check_eq("value of the joint prediction", v2[0], v[0]);
    h::check_eq("variance of the joint prediction", s2[0], s[0]);
    let gv = m.predict_var_gradients(&q.view()).unwrap();
    let (g2, gv2) = m.predict_valvar_gradients(&q.view()).unwrap();
    let pgv = plain.predict_var_gradients(&c.view()).unwrap();
    h::check("one variance derivative per relaxed component", gv.ncols() == nc);
    for j in 0..nc {
        h::check_eq("variance gradient at the projected point", gv[[0, j]], pgv[[0, j]]);
        h::check_eq("gradient of the joint prediction", g2[[0, j]], g[[0, j]]);
        h::check_eq("variance gradient of the joint prediction", gv2[[0, j]], gv[[0, j]]);
    }
}
