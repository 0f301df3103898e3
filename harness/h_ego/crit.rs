//! Infill criteria, probabilities of feasibility, constraint models
use crate::stub::*;
use egobox_ego::criteria::*;
use egobox_ego::utils::*;
use egobox_ego::solver::solver_infill_optim::{InfillOptProblem, MultiStarter};
use egobox_ego::{ConstraintStrategy, EgorConfig, EgorSolver, InfillObjData, InfillOptimizer, InfillStrategy, XType};
use egobox_moe::*;
use ndarray::{Array1, Array2, array};
use symrs::h;

fn phi(u: f64) -> f64 {
    (-0.5 * u * u).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
fn cdf(u: f64) -> f64 {
    0.5 * symrs::libm_::erfc(-u / std::f64::consts::SQRT_2)
}
/// expected improvement with the standard deviation multiplied by k
fn ei(m: &Stub, fmin: f64, k: f64, x: &[f64]) -> f64 {
    let s = k * m.var(x).sqrt();
    let d = fmin - m.val(x);
    d * cdf(d / s) + s * phi(d / s)
}
fn query(nx: usize) -> Vec<f64> {
    (0..nx).map(|i| h::input(&format!("x{i}"), -2.0, 2.0)).collect()
}
fn weight() -> Option<f64> {
    match h::choose("weight", 3) {
        0 => None,
        1 => Some(1.0),
        _ => Some(h::input("k", 0.25, 4.0)),
    }
}
pub fn ei_value() {
    h::exact_mode();
    let m = Stub::draw("m", 2);
    let fmin = h::input("fmin", -5.0, 5.0);
    let k = weight();
    let x = query(2);
    let v = EI.value(&x, &Mix::new(m.clone()), fmin, k, None);
    h::check_eq("EI value", v, ei(&m, fmin, k.unwrap_or(1.0), &x));
}
pub fn ei_grad() {
    h::exact_mode();
    let m = Stub::draw("m", 2);
    let fmin = h::input("fmin", -5.0, 5.0);
    let k = weight();
    let x = query(2);
    let g = EI.grad(&x, &Mix::new(m.clone()), fmin, k, None);
    for j in 0..2 {
        let f = |y: &[f64]| ei(&m, fmin, k.unwrap_or(1.0), y);
        h::check_deriv("EI gradient", g[j], &f, &x, j);
    }
}
pub fn wb2() {
    h::exact_mode();
    let m = Stub::draw("m", 2);
    let fmin = h::input("fmin", -5.0, 5.0);
    let k = weight();
    let x = query(2);
    let sc = h::input("scale", 0.1, 10.0);
    let (c, s, e) = match h::choose("crit", 4) {
        0 => (WB2, None, 1.0),
        1 => (WB2S, Some(sc), sc),
        2 => (WB2Criterion(Some(sc)), None, sc),
        _ => (WB2S, None, 1.0),
    };
    let mix = Mix::new(m.clone());
    let kk = k.unwrap_or(1.0);
    let f = |y: &[f64]| e * ei(&m, fmin, kk, y) - m.val(y);
    h::check_eq("WB2 value", c.value(&x, &mix, fmin, k, s), f(&x));
    let g = c.grad(&x, &mix, fmin, k, s);
    for j in 0..2 {
        h::check_deriv("WB2 gradient", g[j], &f, &x, j);
    }
}
/// the helper of LogEI is the logarithm of phi(u) + u cdf(u)
pub fn logei_helper() {
    h::exact_mode();
    let u = h::input("u", -37.0, 37.0);
    h::check_eq("normal density", norm_pdf(u), phi(u));
    h::check_eq("normal distribution function", norm_cdf(u), cdf(u));
    let e = norm_pdf(u) + u * norm_cdf(u);
    // mathematical fact: phi(u) + u cdf(u) > 0
    h::assume_lt(0.0, e);
    h::exp_guard(Some("LogEI helper is finite"));
    let (v, d) = (log_ei_helper(u), d_log_ei_helper(u));
    h::exp_guard(None);
    h::check("LogEI helper is finite", v.is_finite() && d.is_finite());
    h::check_eq("LogEI helper", v.exp(), e);
    h::check_eq_tol("derivative of the LogEI helper", d * e, norm_cdf(u), 1e-6);
}
/// between the range of the exact formula and the range of the asymptotic one
pub fn logei_gap() {
    h::exact_mode();
    h::exp_guard(Some("LogEI helper is finite in the far tail"));
    let u = h::input("u", -0.99e6, -37.0);
    let v = log_ei_helper(u);
    let d = d_log_ei_helper(u);
    h::exp_guard(None);
    h::check("LogEI helper is finite in the far tail", v.is_finite() && d.is_finite());
}
/// asymptotic formula
pub fn logei_far() {
    h::exact_mode();
    let u = h::input("u", -1e8, -1.01e6);
    let v = log_ei_helper(u);
    let d = d_log_ei_helper(u);
    h::check("LogEI helper is finite", v.is_finite() && d.is_finite());
    let r = -0.5 * u * u - (2.0 * std::f64::consts::PI).ln() / 2.0 - 2.0 * (-u).ln();
    h::check_eq("LogEI helper in the far tail", v, r);
    h::check_eq("derivative of the LogEI helper in the far tail", d, -u - 2.0 / u);
    h::observe("v", v);
    h::observe("d", d);
}
pub fn logei() {
    h::exact_mode();
    let m = Stub::draw("m", 2);
    let fmin = h::input("fmin", -5.0, 5.0);
    let x = query(2);
    let mix = Mix::new(m.clone());
    let s = m.var(&x).sqrt();
    let u = (fmin - m.val(&x)) / s;
    h::assume_lt(0.0, norm_pdf(u) + u * norm_cdf(u));
    let k = weight();
    h::check_eq("LogEI value", LOG_EI.value(&x, &mix, fmin, k, None), log_ei_helper(u) + s.ln());
    let g = LOG_EI.grad(&x, &mix, fmin, k, None);
    let fu = |y: &[f64]| (fmin - m.val(y)) / m.var(y).sqrt();
    let fs = |y: &[f64]| m.var(y).sqrt();
    let dh = d_log_ei_helper(u);
    for j in 0..2 {
        let e = dh * h::deriv(&fu, &x, j) + h::deriv(&fs, &x, j) / s;
        h::check_eq_tol("LogEI gradient", g[j], e, 1e-3);
    }
}
/// at a point with negligible variance no improvement is expected
pub fn ei_novar() {
    let mut m = Stub::draw("m", 1);
    m.v0 = h::input("v", 0.0, 1e-16);
    m.v = vec![0.0];
    let fmin = h::input("fmin", -5.0, 5.0);
    let x = query(1);
    let mix = Mix::new(m);
    h::check("EI is zero without variance", EI.value(&x, &mix, fmin, None, None) == 0.0);
    h::check("EI gradient is zero without variance", EI.grad(&x, &mix, fmin, None, None)[0] == 0.0);
}

// ---- probability of feasibility ------------------------------------------------------------------
fn cstrs(n: usize, nx: usize) -> (Vec<Stub>, Vec<Box<dyn MixtureGpSurrogate>>, Vec<f64>) {
    let s: Vec<Stub> = (0..n).map(|i| Stub::draw(&format!("c{i}"), nx)).collect();
    let b = s.iter().map(|s| Box::new(Mix::new(s.clone())) as Box<dyn MixtureGpSurrogate>).collect();
    let t = (0..n).map(|i| h::input(&format!("tol{i}"), -1.0, 1.0)).collect();
    (s, b, t)
}
fn pof_ref(s: &[Stub], t: &[f64], x: &[f64]) -> f64 {
    let mut r = 1.0;
    for i in 0..s.len() {
        r = r * cdf((t[i] - s[i].val(x)) / s[i].var(x).sqrt());
    }
    r
}
pub fn pof_value() {
    h::exact_mode();
    let n = h::choose("n", 3) as usize;
    let (s, b, t) = cstrs(n, 1);
    let x = query(1);
    h::check_eq("probability of feasibility", pofs(&x, &b, &t), pof_ref(&s, &t, &x));
}
pub fn pof_gradient() {
    h::exact_mode();
    let n = 1 + h::choose("n", 2) as usize;
    let (s, b, t) = cstrs(n, 2);
    let x = query(2);
    let g = pofs_grad(&x, &b, &t);
    for j in 0..2 {
        let f = |y: &[f64]| pof_ref(&s, &t, y);
        h::check_deriv("gradient of the probability of feasibility", g[j], &f, &x, j);
    }
}
pub fn logpof() {
    h::exact_mode();
    let n = h::choose("n", 3) as usize;
    let (s, b, t) = cstrs(n, 1);
    let x = query(1);
    for i in 0..n {
        h::assume(pof_ref(&s[i..i + 1], &t[i..i + 1], &x) > 1e-6);
    }
    h::check_eq("log probability of feasibility", logpofs(&x, &b, &t).exp(), pof_ref(&s, &t, &x));
    let g = logpofs_grad(&x, &b, &t);
    h::check("gradient length", g.len() == 1);
    let p = pof_ref(&s, &t, &x);
    let f = |y: &[f64]| pof_ref(&s, &t, y);
    h::check_deriv("gradient of the log probability of feasibility", g[0] * p, &f, &x, 0);
}

// ---- constraint models given to the internal optimizer -------------------------------------------
pub type Cf = fn(&[f64], Option<&mut [f64]>, &mut egobox_ego::InfillObjData<f64>) -> f64;
pub fn solver(config: EgorConfig) -> EgorSolver<Builder, Cf> {
    EgorSolver::new(config.check().unwrap())
}
pub fn cstr_models(ub: bool) {
    h::exact_mode();
    let m = Stub::draw("m", 3);
    let x = query(3);
    let sc = h::input("scale", 0.1, 10.0);
    let active: Vec<usize> = match h::choose("active", 4) {
        0 => vec![0, 1, 2],
        1 => vec![1],
        2 => vec![0, 2],
        _ => vec![2],
    };
    let mix = Mix::new(m.clone());
    let mut g = vec![0.0; active.len()];
    let mut g0 = vec![0.0; active.len()];
    type S = EgorSolver<Builder, Cf>;
    let v = if ub {
        S::upper_trust_bound_cstr(&mix, &x, Some(&mut g), sc, &active)
    } else {
        S::mean_cstr(&mix, &x, Some(&mut g), sc, &active)
    };
    let w = if ub {
        S::upper_trust_bound_cstr(&mix, &x, None, sc, &active)
    } else {
        S::mean_cstr(&mix, &x, None, sc, &active)
    };
    let f = |y: &[f64]| {
        let r = m.val(y);
        (if ub { r + 3.0 * m.var(y).sqrt() } else { r }) / sc
    };
    h::check_eq("constraint value", v, f(&x));
    h::check_eq("constraint value without gradient", w, f(&x));
    g0[0] = 0.0;
    for (i, j) in active.iter().enumerate() {
        h::check_deriv("constraint gradient", g[i], &f, &x, *j);
    }
}

// ---- infill objective given to the internal optimizer --------------------------------------------
pub fn infill_obj(kind: u64, with_cstr: bool) {
    h::exact_mode();
    let strategy = match kind {
        0 => InfillStrategy::EI,
        1 => InfillStrategy::LogEI,
        _ => InfillStrategy::WB2S,
    };
    let config = EgorConfig::default().xtypes(&[XType::Float(-2.0, 2.0)]).infill_strategy(strategy).n_cstr(if with_cstr { 1 } else { 0 });
    let s = solver(config);
    let m = if with_cstr { Stub::line("m") } else { Stub::draw("m", 1) };
    let mix = Mix::new(m.clone());
    let fmin = h::input("fmin", -5.0, 5.0);
    let x = query(1);
    let u = (fmin - m.val(&x)) / m.var(&x).sqrt();
    h::assume_lt(0.0, norm_pdf(u) + u * norm_cdf(u));
    let scale = h::input("scale", 0.1, 10.0);
    let scale_ic = h::input("scale_ic", 0.1, 10.0);
    let feas = with_cstr && h::choose("feasible", 2) == 1 || !with_cstr;
    let cs = if with_cstr { vec![Stub::line("c")] } else { vec![] };
    let cb: Vec<Box<dyn MixtureGpSurrogate>> = cs.iter().map(|s| Box::new(Mix::new(s.clone())) as Box<dyn MixtureGpSurrogate>).collect();
    let ct: Array1<f64> = cs.iter().map(|_| h::input("tol", -1.0, 1.0)).collect();
    let k = h::input("k", 0.25, 4.0);
    if with_cstr {
        h::assume(pof_ref(&cs, &ct.to_vec(), &x) > 1e-3);
    }
    let got = s.eval_infill_obj_with_cstrs(&x, &mix, &cb, &ct, fmin, scale, scale_ic, feas, k);
    let grad = s.eval_grad_infill_obj_with_cstrs(&x, &mix, &cb, &ct, fmin, scale, scale_ic, feas, k);
    h::check("gradient length", grad.len() == 1);
    let e = |y: &[f64]| ei(&m, fmin, k, y);
    if kind == 1 {
        let l = if feas { LOG_EI.value(&x, &mix, fmin, None, None) / scale } else { 0.0 };
        if with_cstr {
            h::check_eq("log infill objective", -got - l, logpofs(&x, &cb, &ct.to_vec()));
        } else {
            h::check_eq("log infill objective", -got, l);
        }
        let dl = if feas { LOG_EI.grad(&x, &mix, fmin, None, None)[0] / scale } else { 0.0 };
        if with_cstr {
            h::check_eq_tol("log infill objective gradient", -grad[0] - dl, logpofs_grad(&x, &cb, &ct.to_vec())[0], 1e-3);
        } else {
            h::check_eq_tol("log infill objective gradient", -grad[0], dl, 1e-3);
        }
    } else {
        let f = |y: &[f64]| {
            let e = e(y);
            let c = if kind == 0 { e } else { scale_ic * e - m.val(y) };
            let c = if feas { c / scale } else { 1.0 };
            -(c * pof_ref(&cs, &ct.to_vec(), y))
        };
        h::check_eq("infill objective", got, f(&x));
        h::check_deriv("infill objective gradient", grad[0], &f, &x, 0);
    }
}

// ---- gradients reaching the internal optimizer ---------------------------------------------------
pub struct Starts(pub Array2<f64>);
impl MultiStarter for Starts {
    fn multistart(&mut self, n: usize, active: &[usize]) -> Array2<f64> {
        let a: Vec<usize> = active.iter().filter(|i| **i < self.0.ncols()).cloned().collect();
        self.0.select(ndarray::Axis(1), &a).slice(ndarray::s![0..n, ..]).to_owned()
    }
}
pub fn optim(grad: bool, cs: u64) {
    h::exact_mode();
    let nx = 3;
    let kind = h::choose("criterion", 2);
    let mut config = EgorConfig::default()
        .xtypes(&vec![XType::Float(-2.0, 2.0); nx])
        .infill_strategy(if kind == 0 { InfillStrategy::EI } else { InfillStrategy::WB2 })
        .infill_optimizer(if grad { InfillOptimizer::Slsqp } else { InfillOptimizer::Cobyla })
        .n_start(1);
    if cs > 0 {
        config = config.n_cstr(1).cstr_infill(cs == 3);
        config = config.cstr_strategy(if cs == 1 { ConstraintStrategy::MeanConstraint } else { ConstraintStrategy::UpperTrustBound });
    }
    let s = solver(config);
    let mut m = Stub::slopes("m", nx, 1.0);
    let mut c: Vec<Stub> = if cs > 0 { vec![Stub::slopes("c", nx, 1.5)] } else { vec![] };
    if cs == 3 {
        // constant variances
        m.v = vec![0.0; nx];
        c[0].v = vec![0.0; nx];
    }
    let mix = Mix::new(m.clone());
    let cb: Vec<Box<dyn MixtureGpSurrogate>> = c.iter().map(|s| Box::new(Mix::new(s.clone())) as Box<dyn MixtureGpSurrogate>).collect();
    let ct: Array1<f64> = c.iter().map(|_| h::input("tol", -1.0, 1.0)).collect();
    let fmin = h::input("fmin", -5.0, 5.0);
    let xbest: Vec<f64> = (0..nx).map(|i| h::input(&format!("b{i}"), -2.0, 2.0)).collect();
    let data = InfillObjData {
        fmin,
        xbest: xbest.clone(),
        scale_infill_obj: h::input("scale", 0.1, 10.0),
        scale_cstr: Some(Array1::from_elem(if cs > 0 { 1 } else { 0 }, h::input("scale_cstr", 0.1, 10.0))),
        scale_wb2: h::input("scale_wb2", 0.1, 10.0),
        feasibility: true,
        sigma_weight: h::input("k", 0.25, 4.0),
    };
    let act = h::choose("active", 3);
    let actives = match act {
        0 => array![[0usize, 1, 2]],
        1 => array![[2usize, 0], [1, 3]],
        _ => array![[1usize, 2, 0]],
    };
    h::optim_check_gradients(grad);
    let pb = InfillOptProblem {
        obj_model: &mix,
        cstr_models: &cb,
        cstr_funcs: &Vec::<Cf>::new(),
        cstr_tols: &ct,
        infill_data: &data,
        actives: &actives,
    };
    let starts = Starts(array![[0.0, 0.5, 1.0]]);
    let y = Array1::from_elem(1 + c.len(), 1.0);
    let (v, x) = s.optimize_infill_criterion(pb, starts, (Array1::from(xbest), y, Array1::zeros(0)));
    h::check("dimension of the proposed point", x.len() == nx);
    for i in 0..nx {
        h::check("proposed point within the bounds", x[i] >= -2.0 && x[i] <= 2.0);
    }
    h::observe("x0", x[0]);
    h::observe("v", v);
}
