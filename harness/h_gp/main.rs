//! Gaussian process regression.
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::*;
use linfa::prelude::*;
use ndarray::{Array1, Array2, Axis, array};
use symrs::h::{self, H};

fn arr1(name: &str, n: usize, lo: f64, hi: f64) -> Array1<f64> {
    Array1::from_shape_fn(n, |i| h::input(&format!("{name}{i}"), lo, hi))
}
fn arr2(name: &str, n: usize, m: usize, lo: f64, hi: f64) -> Array2<f64> {
    Array2::from_shape_fn((n, m), |(i, j)| h::input(&format!("{name}{i}{j}"), lo, hi))
}
fn abs(x: f64) -> f64 {
    if x < 0.0 { -x } else { x }
}

// ---- kernels -----------------------------------------------------------------------------------
/// r(d) written out from the definition of each model
fn ref_kernel(kind: usize, d: &[f64], theta: &Array1<f64>, w: &Array2<f64>) -> f64 {
    let mut e = 0.0;
    let mut p = 1.0;
    for j in 0..w.nrows() {
        for l in 0..w.ncols() {
            let t = if kind == 0 { theta[l] * w[[j, l]] * d[j] } else { theta[l] * abs(w[[j, l]]) * abs(d[j]) };
            match kind {
                0 => e = e + 0.5 * t * t,
                1 => e = e + t,
                2 => {
                    let s = 3f64.sqrt() * t;
                    e = e + s;
                    p = p * (1.0 + s);
                }
                _ => {
                    let s = 5f64.sqrt() * t;
                    e = e + s;
                    p = p * (1.0 + s + 5.0 * t * t / 3.0);
                }
            }
        }
    }
    p * (-e).exp()
}
fn k_value(kind: usize, d: &Array2<f64>, th: &Array1<f64>, w: &Array2<f64>) -> Array2<f64> {
    match kind {
        0 => SquaredExponentialCorr::default().value(d, th, w),
        1 => AbsoluteExponentialCorr::default().value(d, th, w),
        2 => Matern32Corr::default().value(d, th, w),
        _ => Matern52Corr::default().value(d, th, w),
    }
}
fn k_jac(kind: usize, x: &Array1<f64>, xt: &Array2<f64>, th: &Array1<f64>, w: &Array2<f64>) -> Array2<f64> {
    match kind {
        0 => SquaredExponentialCorr::default().jacobian(x, xt, th, w),
        1 => AbsoluteExponentialCorr::default().jacobian(x, xt, th, w),
        2 => Matern32Corr::default().jacobian(x, xt, th, w),
        _ => Matern52Corr::default().jacobian(x, xt, th, w),
    }
}
fn k_valjac(
    kind: usize,
    x: &Array1<f64>,
    xt: &Array2<f64>,
    th: &Array1<f64>,
    w: &Array2<f64>,
) -> (Array2<f64>, Array2<f64>) {
    match kind {
        0 => SquaredExponentialCorr::default().valjac(x, xt, th, w),
        1 => AbsoluteExponentialCorr::default().valjac(x, xt, th, w),
        2 => Matern32Corr::default().valjac(x, xt, th, w),
        _ => Matern52Corr::default().valjac(x, xt, th, w),
    }
}
/// (rows, nx, h): identity weights when h == nx and the choice says so, arbitrary weights otherwise
fn kernel_case(kind: usize) -> (usize, usize, Array1<f64>, Array2<f64>) {
    let ns = if kind == 0 || h::thorough() { 5 } else { 3 };
    let (n, nx, hh, free) =
        [(2, 1, 1, true), (1, 2, 2, false), (1, 2, 1, true), (1, 2, 2, true), (2, 2, 1, true)][h::choose("size", ns)];
    let th = arr1("theta", hh, 0.01, 20.0);
    let w = if free { arr2("w", nx, hh, -2.0, 2.0) } else { Array2::eye(nx) };
    (n, nx, th, w)
}
fn kernel_value(kind: usize) {
    let (n, nx, th, w) = kernel_case(kind);
    let d = arr2("d", n, nx, -5.0, 5.0);
    let r = k_value(kind, &d, &th, &w);
    h::check("shape", r.dim() == (n, 1));
    for i in 0..n {
        let di: Vec<f64> = d.row(i).to_vec();
        h::check_eq("kernel follows its definition", r[[i, 0]], ref_kernel(kind, &di, &th, &w));
        h::observe("r", r[[i, 0]]);
    }
    let rs = k_value(kind, &d.mapv(|v| -v), &th, &w);
    for i in 0..n {
        h::check_eq("r(x, x') = r(x', x)", rs[[i, 0]], r[[i, 0]]);
    }
}
fn kernel_range(kind: usize) {
    // in (0, 1], one at distance zero
    let (nx, hh) = [(1, 1), (2, 1)][h::choose("size", if kind == 3 { 1 } else { 2 })];
    let th = arr1("theta", hh, 0.01, 20.0);
    let w = arr2("w", nx, hh, -2.0, 2.0);
    let d = arr2("d", 1, nx, -5.0, 5.0);
    let r = k_value(kind, &d, &th, &w)[[0, 0]];
    h::check_lt("positive", 0.0, r);
    h::check_le("at most one", r, 1.0);
    let z = k_value(kind, &Array2::zeros((1, nx)), &th, &w)[[0, 0]];
    h::check_eq("r(x, x) = 1", z, 1.0);
}
fn kernel_jac(kind: usize) {
    let (n, nx, th, w) = kernel_case(kind);
    let xt = arr2("xt", n, nx, -3.0, 3.0);
    let x = arr1("x", nx, -3.0, 3.0);
    let xv = x.to_vec();
    // the absolute value kernels are not differentiable on the axes
    for i in 0..n {
        for j in 0..nx {
            h::assume(abs(x[j] - xt[[i, j]]) > 0.01);
        }
    }
    let jac = k_jac(kind, &x, &xt, &th, &w);
    let (v, jac2) = k_valjac(kind, &x, &xt, &th, &w);
    h::check("shape", jac.dim() == (n, nx) && jac2.dim() == (n, nx) && v.dim() == (n, 1));
    for i in 0..n {
        let f = |y: &[f64]| {
            let d = Array2::from_shape_fn((1, nx), |(_, j)| y[j] - xt[[i, j]]);
            k_value(kind, &d, &th, &w)[[0, 0]]
        };
        let d: Vec<f64> = (0..nx).map(|j| x[j] - xt[[i, j]]).collect();
        h::check_eq("value part of valjac", v[[i, 0]], ref_kernel(kind, &d, &th, &w));
        for j in 0..nx {
            h::check_deriv("jacobian is the derivative", jac[[i, j]], &f, &xv, j);
            h::check_eq("jacobian part of valjac", jac2[[i, j]], jac[[i, j]]);
            h::observe("jac", jac[[i, j]]);
        }
    }
}

// ---- mean models --------------------------------------------------------------------------------
fn mean_models() {
    let nx = 1 + h::choose("nx", 3);
    let n = 2;
    let x = arr2("x", n, nx, -10.0, 10.0);
    let k = h::choose("mean", 3);
    let val = |x: &Array2<f64>| match k {
        0 => ConstantMean::default().value(x),
        1 => LinearMean::default().value(x),
        _ => QuadraticMean::default().value(x),
    };
    let v = val(&x);
    let m = [1, 1 + nx, 1 + nx + nx * (nx + 1) / 2][k];
    h::check("number of basis functions", v.dim() == (n, m));
    for i in 0..n {
        h::check_eq("first basis function is one", v[[i, 0]], 1.0);
        let mut c = 1;
        if k >= 1 {
            for j in 0..nx {
                h::check_eq("linear term", v[[i, c]], x[[i, j]]);
                c += 1;
            }
        }
        if k == 2 {
            for a in 0..nx {
                for b in a..nx {
                    h::check_eq("quadratic term", v[[i, c]], x[[i, a]] * x[[i, b]]);
                    c += 1;
                }
            }
        }
        let row = x.row(i).to_owned();
        let jac = match k {
            0 => ConstantMean::default().jacobian(&row),
            1 => LinearMean::default().jacobian(&row),
            _ => QuadraticMean::default().jacobian(&row),
        };
        h::check("shape of the jacobian", jac.dim() == (m, nx));
        let rv = row.to_vec();
        for c in 0..m {
            for j in 0..nx {
                let f = |y: &[f64]| val(&Array2::from_shape_fn((1, nx), |(_, q)| y[q]))[[0, c]];
                h::check_deriv("jacobian of the mean basis", jac[[c, j]], &f, &rv, j);
            }
        }
    }
}

// ---- data preparation ---------------------------------------------------------------------------
fn normalisation() {
    let (n, nx) = [(2, 1), (3, 1), (2, 2)][h::choose("size", 3)];
    let x = arr2("x", n, nx, -100.0, 100.0);
    let (d, m, s) = egobox_gp::utils::normalize(&x);
    for j in 0..nx {
        h::check_lt("positive scale", 0.0, s[j]);
        let mut mean = 0.0;
        let mut var = 0.0;
        let mut same = true;
        for i in 0..n {
            h::check_eq("data * std + mean gives the data back", d[[i, j]] * s[j] + m[j], x[[i, j]]);
            mean = mean + d[[i, j]];
            var = var + d[[i, j]] * d[[i, j]];
            same = same && x[[i, j]] == x[[0, j]];
        }
        h::check_eq("zero mean", mean, 0.0);
        if same {
            h::check_eq("constant column keeps scale one", s[j], 1.0);
        } else {
            h::check_eq("unit sample variance", var, n as f64 - 1.0);
        }
    }
}
fn differences() {
    let (n, nx) = [(2, 2), (3, 1), (4, 1)][h::choose("size", if h::thorough() { 3 } else { 2 })];
    let x = arr2("x", n, nx, -100.0, 100.0);
    let dm = DiffMatrix::new(&x);
    h::check("number of pairs", dm.d.nrows() == n * (n - 1) / 2 && dm.n_obs == n);
    let mut seen = vec![false; n * n];
    for r in 0..dm.d.nrows() {
        let (a, b) = (dm.d_indices[[r, 0]], dm.d_indices[[r, 1]]);
        h::check("pair of distinct rows, each once", a < b && b < n && !seen[a * n + b]);
        seen[a * n + b] = true;
        for j in 0..nx {
            h::check_eq("absolute difference", dm.d[[r, j]], abs(x[[a, j]] - x[[b, j]]));
        }
    }
    let y = arr2("y", 2, nx, -100.0, 100.0);
    let pd = egobox_gp::utils::pairwise_differences(&x, &y);
    h::check("shape", pd.dim() == (2 * n, nx));
    for i in 0..n {
        for k in 0..2 {
            for j in 0..nx {
                h::check_eq("pairwise difference", pd[[2 * i + k, j]], x[[i, j]] - y[[k, j]]);
            }
        }
    }
}

// ---- fitted models ------------------------------------------------------------------------------
macro_rules! with_kernel {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f(SquaredExponentialCorr::default(), $($a),*),
            1 => $f(AbsoluteExponentialCorr::default(), $($a),*),
            2 => $f(Matern32Corr::default(), $($a),*),
            _ => $f(Matern52Corr::default(), $($a),*),
        }
    };
}
fn fit<M: RegressionModel<f64>, C: CorrelationModel<f64>>(
    m: M,
    c: C,
    xt: &Array2<f64>,
    yt: &Array1<f64>,
    th: &Array1<f64>,
    nugget: f64,
) -> GaussianProcess<f64, M, C> {
    GpParams::new(m, c)
        .theta_tuning(ThetaTuning::Fixed(th.clone()))
        .nugget(nugget)
        .fit(&Dataset::new(xt.clone(), yt.clone()))
        .expect("fit")
}
/// fixed training sites and length scales, arbitrary outputs
fn design(n: usize, nx: usize) -> (Array2<f64>, Array1<f64>, Array1<f64>) {
    let xs = [[0.0, 1.0], [1.0, 0.25], [2.5, 2.0], [3.25, -1.0], [-1.5, 0.5]];
    let xt = Array2::from_shape_fn((n, nx), |(i, j)| xs[i][j]);
    let th = Array1::from_shape_fn(nx, |j| [0.75, 1.25][j]);
    (xt, outputs(n), th)
}
/// training sites a, b (, c) strictly increasing in every coordinate
fn sites(n: usize, nx: usize) -> Array2<f64> {
    let mut x = arr2("x", n, nx, -2.0, 2.0);
    for i in 1..n {
        for j in 0..nx {
            x[[i, j]] = x[[i - 1, j]] + h::input(&format!("step{i}{j}"), 0.2, 1.5);
        }
    }
    x
}
fn outputs(n: usize) -> Array1<f64> {
    let mut y = arr1("y", n, -10.0, 10.0);
    y[n - 1] = y[0] + h::input("rise", 0.1, 5.0);
    y
}
/// no nugget: the mean passes through the data, the variance vanishes there
fn interp_case<M: RegressionModel<f64>, C: CorrelationModel<f64>>(c: C, m: M, n: usize, nx: usize, full: bool) {
    let (xt, yt, th) = if full {
        h::exact_mode();
        (sites(n, nx), outputs(n), arr1("theta", nx, 0.2, 2.0))
    } else {
        design(n, nx)
    };
    let gp = fit(m, c, &xt, &yt, &th, 0.0);
    let p = gp.predict(&xt).unwrap();
    let v = gp.predict_var(&xt).unwrap();
    for i in 0..n {
        h::check_eq("the mean interpolates the training data", p[i], yt[i]);
        h::check_eq("no variance at the training data", v[i], 0.0);
        h::observe("p", p[i]);
    }
}
fn interp(k: usize, n: usize, nx: usize, full: bool) {
    with_kernel!(k, interp_case, ConstantMean::default(), n, nx, full)
}
/// all entry points agree, point by point
fn consistent_case<M: RegressionModel<f64>, C: CorrelationModel<f64>>(c: C, m: M, n: usize, nx: usize) {
    let (xt, mut yt, th) = design(n, nx);
    if h::choose("outputs", 2) == 1 {
        yt = array![0.5, -1.0, 2.0, 0.25, 1.5].slice(ndarray::s![..n]).to_owned();
    } else {
        return consistent_mean(&fit(m, c, &xt, &yt, &th, 0.0), nx);
    }
    let gp = fit(m, c, &xt, &yt, &th, 0.0);
    let xq = arr2("q", if n > 2 { 1 } else { 2 }, nx, -3.0, 3.0);
    let p = gp.predict(&xq).unwrap();
    let v = gp.predict_var(&xq).unwrap();
    let (p2, v2) = gp.predict_valvar(&xq).unwrap();
    for i in 0..xq.nrows() {
        h::check_eq("valvar mean", p2[i], p[i]);
        h::check_eq("valvar variance", v2[i], v[i]);
        h::check_le("variance is not negative", 0.0, v[i]);
        h::assume(v[i] > 1e-9);
        let one = xq.row(i).insert_axis(Axis(0)).to_owned();
        h::check_eq("batch mean is pointwise", p[i], gp.predict(&one).unwrap()[0]);
        h::check_eq("batch variance is pointwise", v[i], gp.predict_var(&one).unwrap()[0]);
        h::observe("p", p[i]);
        h::observe("v", v[i]);
    }
}
fn consistent_mean<M: RegressionModel<f64>, C: CorrelationModel<f64>>(gp: &GaussianProcess<f64, M, C>, nx: usize) {
    let xq = arr2("q", 2, nx, -3.0, 3.0);
    let p = gp.predict(&xq).unwrap();
    let p3 = gp.predict_inplace_(&xq);
    for i in 0..2 {
        let one = xq.row(i).insert_axis(Axis(0)).to_owned();
        h::check_eq("batch mean is pointwise", p[i], gp.predict(&one).unwrap()[0]);
        h::check_eq("linfa prediction trait", p3[i], p[i]);
        h::observe("p", p[i]);
    }
}
trait Inplace {
    fn predict_inplace_(&self, x: &Array2<f64>) -> Array1<f64>;
}
impl<M: RegressionModel<f64>, C: CorrelationModel<f64>> Inplace for GaussianProcess<f64, M, C> {
    fn predict_inplace_(&self, x: &Array2<f64>) -> Array1<f64> {
        let mut y = Array1::zeros(x.nrows());
        linfa::traits::PredictInplace::predict_inplace(self, x, &mut y);
        y
    }
}
fn consistent(k: usize, n: usize, nx: usize) {
    with_kernel!(k, consistent_case, ConstantMean::default(), n, nx)
}
fn grad_case<M: RegressionModel<f64>, C: CorrelationModel<f64>>(c: C, m: M, n: usize, nx: usize, var: bool) {
    let (xt, mut yt, th) = design(n, nx);
    if var {
        // the outputs only scale the variance
        yt = array![0.5, -1.0, 2.0, 0.25, 1.5].slice(ndarray::s![..n]).to_owned();
    }
    let gp = fit(m, c, &xt, &yt, &th, 0.0);
    // in two dimensions the variance is explored along the axes through (0.4, 0.4)
    let along = if var && nx > 1 { Some(h::choose("along", nx)) } else { None };
    let q = match along {
        None => arr2("q", 1, nx, -3.0, 3.0),
        Some(a) => {
            let v = h::input("q", -3.0, 3.0);
            Array2::from_shape_fn((1, nx), |(_, j)| if j == a { v } else { 0.4 })
        }
    };
    for i in 0..n {
        for j in 0..nx {
            h::assume(abs(q[[0, j]] - xt[[i, j]]) > 0.05);
        }
    }
    let qv = q.row(0).to_vec();
    let at = |y: &[f64]| Array2::from_shape_fn((1, nx), |(_, j)| y[j]);
    if var {
        let f = |y: &[f64]| gp.predict_var(&at(y)).unwrap()[0];
        // away from the clipping at zero
        h::assume(f(&qv) > 1e-6);
        let g = gp.predict_var_gradients(&q);
        let (_, g2) = gp.predict_valvar_gradients(&q);
        for j in (0..nx).filter(|j| along.is_none_or(|a| a == *j)) {
            h::check_deriv("variance gradient", g[[0, j]], &f, &qv, j);
            h::check_eq("valvar variance gradient", g2[[0, j]], g[[0, j]]);
        }
    } else {
        let g = gp.predict_gradients(&q);
        let f = |y: &[f64]| gp.predict(&at(y)).unwrap()[0];
        let (g2, _) = gp.predict_valvar_gradients(&q);
        for j in 0..nx {
            h::check_deriv("mean gradient", g[[0, j]], &f, &qv, j);
            h::check_eq("valvar mean gradient", g2[[0, j]], g[[0, j]]);
        }
    }
}
fn grad(k: usize, n: usize, nx: usize, var: bool) {
    with_kernel!(k, grad_case, ConstantMean::default(), n, nx, var)
}
fn grad_lin(k: usize, n: usize, nx: usize, var: bool) {
    with_kernel!(k, grad_case, LinearMean::default(), n, nx, var)
}

fn main() {
    let _ = Axis(0);
    h::main(&[
        H { name: "value_se", f: || kernel_value(0) },
        H { name: "value_ae", f: || kernel_value(1) },
        H { name: "value_m32", f: || kernel_value(2) },
        H { name: "value_m52", f: || kernel_value(3) },
        H { name: "range_se", f: || kernel_range(0) },
        H { name: "range_ae", f: || kernel_range(1) },
        H { name: "range_m32", f: || kernel_range(2) },
        H { name: "range_m52", f: || kernel_range(3) },
        H { name: "jac_se", f: || kernel_jac(0) },
        H { name: "jac_ae", f: || kernel_jac(1) },
        H { name: "jac_m32", f: || kernel_jac(2) },
        H { name: "jac_m52", f: || kernel_jac(3) },
        H { name: "mean_models", f: mean_models },
        H { name: "normalisation", f: normalisation },
        H { name: "differences", f: differences },
        H { name: "interp_se2", f: || interp(0, 2, 1, true) },
        H { name: "interp_se3", f: || interp(0, 3, 1, false) },
        H { name: "interp_ae2", f: || interp(1, 2, 2, true) },
        H { name: "interp_m32", f: || interp(2, 2, 1, h::thorough()) },
        H { name: "consistent_se2", f: || consistent(0, 2, 1) },
        H { name: "consistent_se3", f: || consistent(0, 3, 1) },
        H { name: "grad_se2", f: || grad(0, 2, 1, false) },
        H { name: "grad_se22", f: || grad(0, 2, 2, false) },
        H { name: "grad_m52", f: || grad(3, 2, 1, false) },
        H { name: "grad_se3", f: || grad(0, 3, 1, false) },
        H { name: "grad_lin_se3", f: || grad_lin(0, 3, 1, false) },
        H { name: "vgrad_se2", f: || grad(0, 2, 1, true) },
        H { name: "vgrad_se22", f: || grad(0, 3, 2, true) },
        H { name: "vgrad_lin_se3", f: || grad_lin(0, 3, 1, true) },
        H { name: "vgrad_m52", f: || grad(3, 2, 1, true) },
        H { name: "vgrad_se3", f: || grad(0, 3, 1, true) },
    ]);
}
