//! Design of experiments.
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use ndarray::{Array1, Array2, array};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use symrs::h::{self, H};

fn limits(nx: usize) -> Array2<f64> {
    let mut x = Array2::zeros((nx, 2));
    for j in 0..nx {
        let l = h::input(&format!("lower{j}"), -1000.0, 1000.0);
        let w = h::input(&format!("width{j}"), 0.001, 1000.0);
        x[[j, 0]] = l;
        x[[j, 1]] = l + w;
    }
    x
}
/// every coordinate inside its interval, and the normalised coordinates
fn in_bounds(x: &Array2<f64>, lim: &Array2<f64>, ns: usize) {
    h::check("shape", x.nrows() == ns && x.ncols() == lim.nrows());
    for i in 0..x.nrows() {
        for j in 0..x.ncols() {
            h::check_le("lower bound", lim[[j, 0]], x[[i, j]]);
            h::check_le("upper bound", x[[i, j]], lim[[j, 1]]);
            h::observe("x", x[[i, j]]);
        }
    }
}
fn sorted(c: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = c.to_vec();
    for i in 1..v.len() {
        let mut k = i;
        while k > 0 && v[k] < v[k - 1] {
            v.swap(k, k - 1);
            k -= 1;
        }
    }
    v
}
/// one point per stratum in every column of a unit-cube plan
fn latin(x: &Array2<f64>) {
    let ns = x.nrows();
    for j in 0..x.ncols() {
        let c: Vec<f64> = x.column(j).to_vec();
        let s = sorted(&c);
        for k in 0..ns {
            let lo = k as f64 / ns as f64;
            let hi = (k + 1) as f64 / ns as f64;
            h::check_le("stratum low", lo, s[k]);
            h::check_le("stratum high", s[k], hi);
        }
    }
}
fn centered(x: &Array2<f64>) {
    let ns = x.nrows();
    for j in 0..x.ncols() {
        let c: Vec<f64> = x.column(j).to_vec();
        let s = sorted(&c);
        for k in 0..ns {
            h::check_eq("stratum centre", s[k], (k as f64 + 0.5) / ns as f64);
        }
    }
}
fn min_dist2(x: &Array2<f64>) -> f64 {
    let mut best = f64::INFINITY;
    for i in 0..x.nrows() {
        for j in i + 1..x.nrows() {
            let mut s = 0.0;
            for k in 0..x.ncols() {
                let d = x[[i, k]] - x[[j, k]];
                s = s + d * d;
            }
            if s < best {
                best = s;
            }
        }
    }
    best
}

// ---- sampling bounds -------------------------------------------------------------------------
fn bounds_lhs() {
    let kinds =
        [LhsKind::Classic, LhsKind::Centered, LhsKind::Maximin, LhsKind::CenteredMaximin, LhsKind::Optimized];
    let k = h::choose("kind", 5);
    let (ns, nx) = [(1, 1), (2, 2), (3, 1), (4, 3)][h::choose("size", 4)];
    // a single point has no pairwise distance: only the plain kinds accept it
    h::assume(ns > 1 || k < 2);
    h::rng_concrete_floats(k >= 2);
    let lim = limits(nx);
    let seed = h::choose("seed", 2) as u64;
    let x = Lhs::new(&lim).with_rng(Xoshiro256Plus::seed_from_u64(seed)).kind(kinds[k]).sample(ns);
    in_bounds(&x, &lim, ns);
}
fn bounds_random() {
    let (ns, nx) = [(1, 1), (2, 2), (3, 1), (4, 3)][h::choose("size", 4)];
    let lim = limits(nx);
    let x = Random::new(&lim).with_rng(Xoshiro256Plus::seed_from_u64(3)).sample(ns);
    in_bounds(&x, &lim, ns);
}
fn bounds_ff() {
    let nx = 1 + h::choose("nx", 3);
    let ns = 1 + h::choose("ns", 12);
    let lim = limits(nx);
    let x = FullFactorial::new(&lim).sample(ns);
    in_bounds(&x, &lim, ns);
}

// ---- Latin property --------------------------------------------------------------------------
fn latin_classic() {
    let (ns, nx, fan) = [(1, 2, 1), (2, 2, 2), (3, 2, 3), (4, 2, 0), (6, 1, 0)][h::choose("size", 5)];
    h::rng_fanout(fan);
    let x = Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(5)).kind(LhsKind::Classic).normalized_sample(ns);
    h::check("shape", x.dim() == (ns, nx));
    latin(&x);
}
fn latin_centered() {
    let (ns, nx, fan) = [(1, 2, 1), (2, 2, 2), (3, 2, 3), (7, 2, 0), (10, 3, 0)][h::choose("size", 5)];
    h::rng_fanout(fan);
    let x = Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(5)).kind(LhsKind::Centered).normalized_sample(ns);
    h::check("shape", x.dim() == (ns, nx));
    centered(&x);
}
fn unit(nx: usize) -> Array2<f64> {
    let mut l = Array2::zeros((nx, 2));
    l.column_mut(1).fill(1.0);
    l
}
fn latin_maximin() {
    // five candidate plans, arbitrary positions inside the strata
    let (ns, nx) = [(2, 1), (2, 2), (3, 1)][h::choose("size", 3)];
    let cen = h::choose("centered", 2) == 1;
    h::assume(cen || (ns == 2 && nx == 1));
    h::rng_fanout(if cen && ns == 2 { 2 } else { 0 });
    let k = if cen { LhsKind::CenteredMaximin } else { LhsKind::Maximin };
    let x = Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(5)).kind(k).normalized_sample(ns);
    h::check("shape", x.dim() == (ns, nx));
    if cen {
        centered(&x);
    } else {
        latin(&x);
    }
    // the retained plan is at least as spread as the first candidate, which is the plain plan
    let k0 = if cen { LhsKind::Centered } else { LhsKind::Classic };
    let first =
        Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(5)).kind(k0).normalized_sample(ns);
    h::check_le("maximin keeps the most spread candidate", min_dist2(&first), min_dist2(&x));
}
fn phi(x: &Array2<f64>) -> f64 {
    // phi_p^p with p = 10
    let mut t = 0.0;
    for i in 0..x.nrows() {
        for j in i + 1..x.nrows() {
            let mut s = 0.0;
            for k in 0..x.ncols() {
                let d = x[[i, k]] - x[[j, k]];
                s = s + d * d;
            }
            t = t + 1.0 / (s * s * s * s * s);
        }
    }
    t
}
fn latin_optimized() {
    // whole stochastic evolutionary search on fixed draws
    h::rng_concrete_floats(true);
    let (ns, nx) = [(2, 2), (3, 2), (5, 2), (4, 3)][h::choose("size", 4)];
    let seed = h::choose("seed", 3) as u64;
    let mk = |k| Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(seed)).kind(k).normalized_sample(ns);
    let x = mk(LhsKind::Optimized);
    let x0 = mk(LhsKind::Classic);
    h::check("shape", x.dim() == (ns, nx));
    latin(&x);
    for j in 0..nx {
        let (a, b) = (sorted(&x.column(j).to_vec()), sorted(&x0.column(j).to_vec()));
        for i in 0..ns {
            h::check_eq("search only permutes columns", a[i], b[i]);
        }
    }
    let (p, p0) = (phi(&x), phi(&x0));
    h::check_le("search never degrades the plan", p / p0, 1.0 + 1e-9);
}
fn latin_ese_accept() {
    // arbitrary acceptance draws, fixed swaps
    h::rng_concrete_floats(true);
    let (ns, nx) = [(3, 2), (4, 2)][h::choose("size", 2)];
    let l = Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(5));
    let x0 = Lhs::new(&unit(nx)).with_rng(Xoshiro256Plus::seed_from_u64(9)).kind(LhsKind::Classic).normalized_sample(ns);
    h::rng_concrete_floats(false);
    let x = l._maximin_ese(&x0, 2, 4);
    latin(&x);
    let (p, p0) = (phi(&x), phi(&x0));
    h::check_le("search never degrades the plan", p / p0, 1.0 + 1e-9);
}

// ---- full factorial structure -----------------------------------------------------------------
fn ff_grid() {
    // with ns = product of the level counts the plan is a complete grid including both bounds;
    // rows are always pairwise distinct grid points
    let lim = limits(2);
    let ns = 1 + h::choose("ns", 12);
    let x = FullFactorial::new(&lim).sample(ns);
    for i in 0..ns {
        for k in 0..i {
            let same = x[[i, 0]] == x[[k, 0]] && x[[i, 1]] == x[[k, 1]];
            h::check("points are pairwise distinct", !same);
        }
    }
    if ns == 4 || ns == 6 || ns == 9 || ns == 12 {
        for j in 0..2 {
            let mut lo = false;
            let mut hi = false;
            for i in 0..ns {
                let z = (x[[i, j]] - lim[[j, 0]]) / (lim[[j, 1]] - lim[[j, 0]]);
                if z < 1e-9 {
                    lo = true;
                }
                if z > 1.0 - 1e-9 {
                    hi = true;
                }
            }
            h::check("grid reaches the bounds", lo && hi);
        }
    }
}

fn main() {
    let _: Array1<f64> = array![0.0];
    h::main(&[
        H { name: "bounds_lhs", f: bounds_lhs },
        H { name: "bounds_random", f: bounds_random },
        H { name: "bounds_ff", f: bounds_ff },
        H { name: "latin_classic", f: latin_classic },
        H { name: "latin_centered", f: latin_centered },
        H { name: "latin_maximin", f: latin_maximin },
        H { name: "latin_optimized", f: latin_optimized },
        H { name: "latin_ese_accept", f: latin_ese_accept },
        H { name: "ff_grid", f: ff_grid },
    ]);
}
