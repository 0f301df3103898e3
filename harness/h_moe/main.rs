//! Mixture of experts: responsibilities, recombination and gradients of the recombined prediction.
use egobox_moe::*;
use linfa::ParamGuard;
use linfa::traits::Predict;
use ndarray::{Array1, Array2, Array3, ArrayView2, Axis, array};
use symrs::h::{self, H};

fn abs(x: f64) -> f64 {
    if x < 0.0 { -x } else { x }
}

/// An expert with given mean a0 + a.x and variance v0 + v.x^2
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Stub {
    a0: f64,
    a: Vec<f64>,
    v0: f64,
    v: Vec<f64>,
    theta: Array1<f64>,
}
impl Stub {
    fn draw(name: &str, nx: usize) -> Stub {
        Stub {
            a0: h::input(&format!("{name}a"), -5.0, 5.0),
            a: (0..nx).map(|i| h::input(&format!("{name}a{i}"), -5.0, 5.0)).collect(),
            v0: h::input(&format!("{name}v"), 0.1, 5.0),
            v: (0..nx).map(|i| h::input(&format!("{name}v{i}"), 0.0, 5.0)).collect(),
            theta: array![1.0],
        }
    }
    fn val(&self, x: &[f64]) -> f64 {
        let mut r = self.a0;
        for i in 0..x.len() {
            r = r + self.a[i] * x[i];
        }
        r
    }
    fn var(&self, x: &[f64]) -> f64 {
        let mut r = self.v0;
        for i in 0..x.len() {
            r = r + self.v[i] * x[i] * x[i];
        }
        r
    }
}
impl std::fmt::Display for Stub {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stub")
    }
}
#[typetag::serde]
impl GpParameterized for Stub {
    fn theta(&self) -> &Array1<f64> {
        &self.theta
    }
    fn variance(&self) -> f64 {
        1.0
    }
    fn noise_variance(&self) -> f64 {
        0.0
    }
    fn likelihood(&self) -> f64 {
        0.0
    }
}
#[typetag::serde]
impl GpSurrogate for Stub {
    fn dims(&self) -> (usize, usize) {
        (self.a.len(), 1)
    }
    fn predict(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        Ok(x.rows().into_iter().map(|r| self.val(&r.to_vec())).collect())
    }
    fn predict_var(&self, x: &ArrayView2<f64>) -> Result<Array1<f64>> {
        Ok(x.rows().into_iter().map(|r| self.var(&r.to_vec())).collect())
    }
    fn predict_valvar(&self, x: &ArrayView2<f64>) -> Result<(Array1<f64>, Array1<f64>)> {
        Ok((self.predict(x)?, self.predict_var(x)?))
    }
    fn save(&self, _path: &str, _format: GpFileFormat) -> Result<()> {
        unreachable!()
    }
}
#[typetag::serde]
impl GpSurrogateExt for Stub {
    fn predict_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        Ok(Array2::from_shape_fn(x.dim(), |(_, j)| self.a[j]))
    }
    fn predict_var_gradients(&self, x: &ArrayView2<f64>) -> Result<Array2<f64>> {
        Ok(Array2::from_shape_fn(x.dim(), |(i, j)| 2.0 * self.v[j] * x[[i, j]]))
    }
    fn predict_valvar_gradients(&self, x: &ArrayView2<f64>) -> Result<(Array2<f64>, Array2<f64>)> {
        Ok((self.predict_gradients(x)?, self.predict_var_gradients(x)?))
    }
    fn sample(&self, _x: &ArrayView2<f64>, _n: usize) -> Result<Array2<f64>> {
        unreachable!()
    }
}
#[typetag::serde]
impl FullGpSurrogate for Stub {}

type Gmx = (Array1<f64>, Array2<f64>, Array3<f64>);
/// k clusters in nx dimensions; in one dimension two clusters are arbitrary
fn clusters(k: usize, nx: usize, fixed: bool) -> Gmx {
    if k == 1 {
        return (array![1.0], Array2::from_elem((1, nx), 0.5), Array3::from_shape_fn((1, nx, nx), |(_, i, j)| if i == j { 1.0 } else { 0.0 }));
    }
    if nx == 1 && k == 2 && !fixed {
        let w = h::input("w", 0.05, 0.95);
        let m0 = h::input("m0", -2.0, 2.0);
        let m1 = h::input("m1", -2.0, 2.0);
        let (s0, s1) = match h::choose("sigma", 3) {
            0 => (1.0, 1.0),
            1 => (0.25, 4.0),
            _ => (1.0, 0.5),
        };
        return (array![w, 1.0 - w], array![[m0], [m1]], array![[[s0 * s0]], [[s1 * s1]]]);
    }
    let mut wt = Array1::from_elem(k, 1.0 / k as f64);
    let w = if nx == 1 && k == 2 && !fixed { h::input("w", 0.05, 0.9) } else { [0.5, 0.125][h::choose("w", 2)] };
    for i in 0..k {
        wt[i] = if i == 0 { w } else { (1.0 - w) / (k - 1) as f64 };
    }
    let means = Array2::from_shape_fn((k, nx), |(i, j)| i as f64 - 0.5 * j as f64);
    // covariances with exact Cholesky factors
    let covs = if nx == 1 {
        Array3::from_shape_fn((k, 1, 1), |(i, _, _)| [1.0, 4.0, 0.25][i % 3])
    } else {
        let c = [[1.0, 0.5, 1.25], [4.0, -1.0, 1.25], [1.0, 0.0, 0.25]];
        Array3::from_shape_fn((k, 2, 2), |(i, a, b)| c[i % 3][a + b])
    };
    (wt, means, covs)
}
/// logarithm of the weighted Gaussian density of cluster i at x, covariances multiplied by f (up to a constant)
fn ldens(g: &Gmx, f: f64, i: usize, x: &[f64]) -> f64 {
    let nx = x.len();
    let c = |a: usize, b: usize| g.2[[i, a, b]] * f;
    let d = |a: usize| x[a] - g.1[[i, a]];
    let (det, q) = if nx == 1 {
        (c(0, 0), d(0) * d(0) / c(0, 0))
    } else {
        let det = c(0, 0) * c(1, 1) - c(0, 1) * c(0, 1);
        (det, (c(1, 1) * d(0) * d(0) - 2.0 * c(0, 1) * d(0) * d(1) + c(0, 0) * d(1) * d(1)) / det)
    };
    g.0[i].ln() - 0.5 * q - 0.5 * det.ln()
}
/// responsibilities from Bayes' rule
fn resp(g: &Gmx, f: f64, x: &[f64]) -> Vec<f64> {
    let k = g.0.len();
    let l: Vec<f64> = (0..k).map(|i| ldens(g, f, i, x)).collect();
    if h::is_sym() {
        let e: Vec<f64> = l.iter().map(|v| v.exp()).collect();
        let mut s = 0.0;
        for v in &e {
            s = s + *v;
        }
        return e.iter().map(|v| *v / s).collect();
    }
    // same value without underflow
    (0..k)
        .map(|i| {
            let mut s = 1.0;
            for j in 0..k {
                if j != i {
                    s = s + (l[j] - l[i]).exp();
                }
            }
            1.0 / s
        })
        .collect()
}
fn query(nx: usize, r: f64) -> Vec<f64> {
    (0..nx).map(|i| h::input(&format!("x{i}"), -r, r)).collect()
}
fn row(x: &[f64]) -> Array2<f64> {
    Array2::from_shape_fn((1, x.len()), |(_, j)| x[j])
}
fn factor() -> f64 {
    match h::choose("heaviside", 3) {
        0 => 1.0,
        1 => 0.25,
        _ => 4.0,
    }
}

// ---- responsibilities ---------------------------------------------------------------------------
fn probas(k: usize, nx: usize, r: f64) {
    h::exact_mode();
    let g = clusters(k, nx, false);
    let f = factor();
    let gmx = GaussianMixture::new(g.0.clone(), g.1.clone(), g.2.clone()).unwrap().heaviside_factor(f);
    let x = query(nx, r);
    let p = gmx.predict_probas(&row(&x));
    h::check("one responsibility per cluster", p.dim() == (1, k));
    let mut s = 0.0;
    for i in 0..k {
        h::check_le("responsibility not negative", 0.0, p[[0, i]]);
        h::check_le("responsibility not above one", p[[0, i]], 1.0);
        s = s + p[[0, i]];
    }
    h::check_eq("responsibilities sum to one", s, 1.0);
    let e = resp(&g, f, &x);
    for i in 0..k {
        h::check_eq("responsibility follows Bayes' rule", p[[0, i]], e[i]);
    }
    // the hard assignment is the most responsible cluster
    let c = gmx.predict(&row(&x));
    for i in 0..k {
        h::check_le("hard assignment is the most responsible cluster", ldens(&g, f, i, &x), ldens(&g, f, c[0], &x));
    }
}
fn probas_deriv(k: usize, nx: usize, r: f64) {
    h::exact_mode();
    let g = clusters(k, nx, false);
    let f = factor();
    let gmx = GaussianMixture::new(g.0.clone(), g.1.clone(), g.2.clone()).unwrap().heaviside_factor(f);
    let x = query(nx, r);
    let d = gmx.predict_probas_derivatives(&row(&x));
    h::check("derivative shape", d.dim() == (1, k, nx));
    for i in 0..k {
        for j in 0..nx {
            let fi = |y: &[f64]| resp(&g, f, y)[i];
            h::check_deriv("responsibility derivative", d[[0, i, j]], &fi, &x, j);
        }
    }
}

// ---- recombination ------------------------------------------------------------------------------
fn mixture(g: &Gmx, smooth: Option<f64>, experts: &[Stub]) -> GpMixture {
    let nx = g.1.ncols();
    let k = g.0.len();
    // a trained mixture whose experts are then replaced
    let n = 4 * k;
    let xt = Array2::from_shape_fn((n, nx), |(i, j)| g1(i, j));
    let yt = Array1::from_shape_fn(n, |i| (i * i) as f64 * 0.3);
    let rec = match smooth {
        Some(f) => Recombination::Smooth(Some(f)),
        None => Recombination::Hard,
    };
    let m = GpMixture::params()
        .regression_spec(RegressionSpec::CONSTANT)
        .correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL)
        .theta_tunings(&[ThetaTuning::Fixed(Array1::from_elem(nx, 1.0))])
        .n_clusters(NbClusters::fixed(1))
        .recombination(rec)
        .gmx(array![1.0], Array2::zeros((1, nx)), Array3::from_shape_fn((1, nx, nx), |(_, a, b)| if a == b { 1.0 } else { 0.0 }))
        .check()
        .unwrap()
        .train(&xt, &yt)
        .unwrap();
    h::exact_mode();
    m.set_gmx(g.0.clone(), g.1.clone(), g.2.clone())
        .set_experts(experts.iter().map(|e| Box::new(e.clone()) as Box<dyn FullGpSurrogate>).collect())
}
fn g1(i: usize, j: usize) -> f64 {
    (i as f64) * 0.7 - 1.0 + (if j == 1 { ((i * 3) % 5) as f64 * 0.4 } else { 0.0 })
}
fn experts(k: usize, nx: usize) -> Vec<Stub> {
    (0..k).map(|i| Stub::draw(&format!("e{i}"), nx)).collect()
}
/// the smooth prediction is the responsibility weighted combination of the experts
fn smooth(k: usize, nx: usize) {
    let g = clusters(k, nx, false);
    let es = experts(k, nx);
    let m = mixture(&g, Some(1.0), &es);
    let x = query(nx, 4.0);
    let e = resp(&g, 1.0, &x);
    let (mut val, mut var) = (0.0, 0.0);
    for i in 0..k {
        val = val + e[i] * es[i].val(&x);
        var = var + e[i] * e[i] * es[i].var(&x);
    }
    let xr = row(&x);
    h::check_eq("smooth prediction", m.predict(&xr).unwrap()[0], val);
    h::check_eq("smooth variance", m.predict_var(&xr).unwrap()[0], var);
    let (a, b) = m.predict_valvar(&xr).unwrap();
    h::check_eq("smooth valvar prediction", a[0], val);
    h::check_eq("smooth valvar variance", b[0], var);
    h::check("clusters", m.n_clusters() == k);
}
/// gradients of the smooth prediction
fn smooth_grad(k: usize, nx: usize, var: bool) {
    let g = clusters(k, nx, true);
    let es = experts(k, nx);
    let m = mixture(&g, Some(1.0), &es);
    let x = query(nx, 2.0);
    let xr = row(&x);
    let fv = |y: &[f64]| {
        let e = resp(&g, 1.0, y);
        let (mut val, mut vr) = (0.0, 0.0);
        for i in 0..k {
            val = val + e[i] * es[i].val(y);
            vr = vr + e[i] * e[i] * es[i].var(y);
        }
        if var { vr } else { val }
    };
    if var {
        let d = m.predict_var_gradients(&xr).unwrap();
        let (_, d2) = m.predict_valvar_gradients(&xr).unwrap();
        for j in 0..nx {
            h::check_deriv("smooth variance gradient", d[[0, j]], &fv, &x, j);
            h::check_deriv("smooth valvar variance gradient", d2[[0, j]], &fv, &x, j);
        }
    } else {
        let d = m.predict_gradients(&xr).unwrap();
        let (d2, _) = m.predict_valvar_gradients(&xr).unwrap();
        for j in 0..nx {
            h::check_deriv("smooth prediction gradient", d[[0, j]], &fv, &x, j);
            h::check_deriv("smooth valvar prediction gradient", d2[[0, j]], &fv, &x, j);
        }
    }
}
/// the hard prediction, variance and gradients are those of the most responsible expert
fn hard(k: usize, nx: usize) {
    let g = clusters(k, nx, false);
    let es = experts(k, nx);
    let m = mixture(&g, None, &es);
    // two points in a batch
    let nq = if k == 2 && nx == 1 { 1 + h::choose("nq", 2) } else { 1 };
    let xs: Vec<Vec<f64>> = (0..nq).map(|q| (0..nx).map(|i| h::input(&format!("x{q}{i}"), -4.0, 4.0)).collect()).collect();
    let xr = Array2::from_shape_fn((nq, nx), |(q, j)| xs[q][j]);
    let mut best = vec![];
    for q in 0..nq {
        let x = &xs[q];
        let e: Vec<f64> = (0..k).map(|i| ldens(&g, 1.0, i, x)).collect();
        let mut b = 0;
        for i in 1..k {
            h::assume(abs(e[i] - e[b]) > 1e-9);
            if e[i] > e[b] {
                b = i;
            }
        }
        best.push(b);
    }
    let (p, v) = (m.predict(&xr).unwrap(), m.predict_var(&xr).unwrap());
    let (p2, v2) = m.predict_valvar(&xr).unwrap();
    let (gp, gv) = (m.predict_gradients(&xr).unwrap(), m.predict_var_gradients(&xr).unwrap());
    let (gp2, gv2) = m.predict_valvar_gradients(&xr).unwrap();
    for q in 0..nq {
        let (x, b) = (&xs[q], best[q]);
        h::check_eq("hard prediction", p[q], es[b].val(x));
        h::check_eq("hard variance", v[q], es[b].var(x));
        h::check_eq("hard valvar prediction", p2[q], es[b].val(x));
        h::check_eq("hard valvar variance", v2[q], es[b].var(x));
        for j in 0..nx {
            h::check_eq("hard gradient", gp[[q, j]], es[b].a[j]);
            h::check_eq("hard valvar gradient", gp2[[q, j]], es[b].a[j]);
            h::check_eq("hard variance gradient", gv[[q, j]], 2.0 * es[b].v[j] * x[j]);
            h::check_eq("hard valvar variance gradient", gv2[[q, j]], 2.0 * es[b].v[j] * x[j]);
        }
    }
}

fn main() {
    let _ = Axis(0);
    h::main(&[
        H { name: "probas_1", f: || probas(2, 1, 4.0) },
        H { name: "probas_far", f: || probas(2, 1, 60.0) },
        H { name: "probas_3", f: || probas(3, 1, 4.0) },
        H { name: "probas_22", f: || probas(2, 2, 3.0) },
        H { name: "dprobas_1", f: || probas_deriv(2, 1, 4.0) },
        H { name: "dprobas_far", f: || probas_deriv(2, 1, 60.0) },
        H { name: "dprobas_3", f: || probas_deriv(3, 1, 3.0) },
        H { name: "dprobas_22", f: || probas_deriv(2, 2, 3.0) },
        H { name: "smooth_1", f: || smooth(1, 2) },
        H { name: "smooth_2", f: || smooth(2, 1) },
        H { name: "smooth_22", f: || smooth(2, 2) },
        H { name: "gsmooth_1", f: || smooth_grad(1, 2, false) },
        H { name: "gsmooth_2", f: || smooth_grad(2, 1, false) },
        H { name: "gsmooth_22", f: || smooth_grad(2, 2, false) },
        H { name: "vsmooth_1", f: || smooth_grad(1, 2, true) },
        H { name: "vsmooth_2", f: || smooth_grad(2, 1, true) },
        H { name: "vsmooth_22", f: || smooth_grad(2, 2, true) },
        H { name: "vsmooth_31", f: || smooth_grad(3, 1, true) },
        H { name: "gsmooth_32", f: || smooth_grad(3, 2, false) },
        H { name: "hard_1", f: || hard(1, 2) },
        H { name: "hard_2", f: || hard(2, 1) },
        H { name: "hard_22", f: || hard(2, 2) },
    ]);
}
