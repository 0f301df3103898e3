//! The optimization loop: initialization, global and local iterations, suggestions
use crate::book::{check_best, violation, NEAR};
use crate::crit::Cf;
use crate::stub::*;
use argmin::core::{Problem, Solver, State, TerminationReason};
use egobox_ego::criteria::InfillCriterion;
use egobox_ego::solver::solver_infill_optim::MultiStarter;
use egobox_ego::solver::trego::LocalLhsMultiStarter;
use egobox_ego::*;
use egobox_moe::*;
use ndarray::{Array1, Array2, ArrayView2, array};
use std::cell::RefCell;
use std::rc::Rc;
use symrs::h;

/// a constant criterion: the point proposed is any point of the box
#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct Flat;
#[typetag::serde]
impl InfillCriterion for Flat {
    fn name(&self) -> &'static str {
        "Flat"
    }
    fn value(&self, _x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _w: Option<f64>, _s: Option<f64>) -> f64 {
        1.0
    }
    fn grad(&self, x: &[f64], _m: &dyn MixtureGpSurrogate, _f: f64, _w: Option<f64>, _s: Option<f64>) -> Array1<f64> {
        Array1::zeros(x.len())
    }
}
fn fc(x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 {
    if let Some(g) = g {
        g[0] = 1.0;
    }
    x[0] - 0.5
}
#[derive(Default)]
struct Log {
    calls: usize,
    x: Vec<Vec<f64>>,
    y: Vec<Vec<f64>>,
}
pub struct Setup {
    pub xt: Vec<XType>,
    pub ny: usize,
    pub fcstr: bool,
    pub q: usize,
    pub iters: usize,
    pub n0: usize,
    pub trego: bool,
    pub coego: usize,
    pub may_fail: bool,
    pub fixed_tol: bool,
    /// the initial points are fixed
    pub fixed_doe: bool,
    /// the iterations start from an arbitrary state instead of the initial one
    pub any_state: bool,
    /// the initial costs are given with the points
    pub with_y: bool,
    pub retries: i32,
    pub histories: usize,
    /// the initial costs are fixed
    pub fixed_y: bool,
}
impl Setup {
    fn new(nx: usize) -> Setup {
        Setup { xt: vec![XType::Float(-2.0, 2.0); nx], ny: 1, fcstr: false, q: 1, iters: 1, n0: 2, trego: false, coego: 0, may_fail: false, fixed_tol: true, fixed_doe: true, any_state: true, with_y: true, retries: 1, histories: 2, fixed_y: false }
    }
}
fn config(s: &Setup) -> EgorConfig {
    let mut c = EgorConfig::default()
        .xtypes(&s.xt)
        .n_cstr(s.ny - 1)
        .q_points(s.q)
        .n_start(if s.trego { 2 } else { 1 })
        .max_iters(50)
        .infill_optimizer(InfillOptimizer::Cobyla)
        .trego(s.trego)
        .seed(1);
    if s.coego > 0 {
        c = c.coego(CoegoStatus::Enabled(s.coego));
    }
    c.0.infill_criterion = Box::new(Flat);
    c
}
fn admissible(xt: &[XType], x: &[f64]) -> bool {
    (0..xt.len()).all(|i| match &xt[i] {
        XType::Float(a, b) => *a <= x[i] && x[i] <= *b,
        XType::Int(a, b) => (*a..=*b).any(|k| x[i] == k as f64),
        XType::Ord(v) => v.iter().any(|k| x[i] == *k),
        XType::Enum(n) => (0..*n).any(|k| x[i] == k as f64),
    })
}
fn l1(a: &[f64], b: &[f64]) -> f64 {
    let mut r = 0.0;
    for i in 0..a.len() {
        r = r + (a[i] - b[i]).abs();
    }
    r
}
struct Snap {
    x: Array2<f64>,
    y: Array2<f64>,
    c: Array2<f64>,
    best: usize,
    last: u64,
    added: usize,
    sigma: f64,
    prev_ego: bool,
    prev_best: usize,
    feas: bool,
    evals: usize,
}
fn snap(s: &EgorState<f64>, log: &Rc<RefCell<Log>>) -> Snap {
    let d = s.data.clone().unwrap();
    Snap {
        x: d.0,
        y: d.1,
        c: d.2,
        best: s.best_index.unwrap(),
        last: s.last_best_iter,
        added: s.added,
        sigma: s.sigma,
        prev_ego: s.prev_step_ego,
        prev_best: s.prev_best_index.unwrap(),
        feas: s.feasibility,
        evals: log.borrow().calls,
    }
}
fn clustering(nx: usize) -> Clustering {
    let c = ndarray::Array3::from_shape_fn((1, nx, nx), |(_, i, j)| if i == j { 1.0 } else { 0.0 });
    Clustering::new(GaussianMixture::new(array![1.0], Array2::zeros((1, nx)), c).unwrap(), Recombination::Hard)
}
/// the state describes its data
fn check_state(st: &Setup, s: &EgorState<f64>, nx: usize, raw_fc: bool) {
    let (x, y, c) = s.data.clone().unwrap();
    let n = x.nrows();
    h::check("data sets are aligned", y.nrows() == n && c.nrows() == n);
    h::check("data dimensions", x.ncols() == nx && y.ncols() == st.ny && c.ncols() == if st.fcstr { 1 } else { 0 });
    h::check("number of points added", s.added == n);
    h::check("one tolerance per constraint", s.cstr_tol.len() == st.ny - 1 + c.ncols());
    let b = s.best_index.unwrap();
    let tol = s.cstr_tol.to_vec();
    let v: Vec<f64> = (0..n).map(|i| violation(&y, &c, &tol, i)).collect();
    check_best("the best point is the best of the data", b, &y, &v);
    h::check("best parameters are those of the best point", s.best_param.clone().unwrap() == x.row(b).to_owned());
    h::check("best costs are those of the best point", s.best_cost.clone().unwrap() == y.row(b).to_owned());
    if raw_fc && st.fcstr {
        let mut u = InfillObjData::default();
        for i in 0..n {
            h::check_eq("values of the constraint functions are recorded", c[[i, 0]], fc(&x.row(i).to_vec(), None, &mut u));
        }
    }
}
pub fn run(st: Setup, raw_fc: bool) {
    h::rng_concrete_floats(true);
    h::linear_first();
    h::optim_may_fail(st.may_fail);
    let log = Rc::new(RefCell::new(Log::default()));
    let (l2, xt, ny) = (log.clone(), st.xt.clone(), st.ny);
    let f = move |x: &ArrayView2<f64>| -> Array2<f64> {
        let mut l = l2.borrow_mut();
        let mut y: Array2<f64> = Array2::zeros((x.nrows(), ny));
        h::check("dimension of the evaluated points", x.ncols() == xt.len());
        for i in 0..x.nrows() {
            h::check("evaluated points belong to the design space", admissible(&xt, &x.row(i).to_vec()));
            let k = l.calls;
            for j in 0..ny {
                y[[i, j]] = h::input(&format!("f{k}_{j}"), -5.0, 5.0);
            }
            l.calls += 1;
            l.x.push(x.row(i).to_vec());
            l.y.push(y.row(i).to_vec());
        }
        y
    };
    let mut fcs: Vec<Cf> = vec![];
    if st.fcstr {
        fcs.push(fc as Cf);
    }
    let mut pb = Problem::new(ObjFunc::<_, Cf>::new(f).subject_to(fcs));
    let mut cfg = config(&st);
    let nx = egobox_ego::gpmix::mixint::compute_continuous_dim(&st.xt);
    let discrete = egobox_ego::utils::discrete(&st.xt);
    let with_y = st.with_y;
    let mut doe: Array2<f64> = Array2::zeros((st.n0, nx));
    for i in 0..st.n0 {
        for j in 0..nx {
            doe[[i, j]] = if st.fixed_doe || discrete { ((i + 2 * j) % 3) as f64 / 2.0 } else { h::input(&format!("d{i}_{j}"), -2.0, 2.0) };
        }
    }
    if !discrete && !st.fixed_doe {
        for i in 0..st.n0 {
            for j in 0..i {
                h::assume(l1(&doe.row(i).to_vec(), &doe.row(j).to_vec()) >= NEAR);
            }
        }
    }
    if with_y {
        let y0 = Array2::from_shape_fn((st.n0, ny), |(i, j)| {
            if st.fixed_y { [0.5, -0.25, 1.0][(i + j) % 3] } else { h::input(&format!("y{i}_{j}"), -5.0, 5.0) }
        });
        cfg = cfg.doe(&ndarray::concatenate(ndarray::Axis(1), &[doe.view(), y0.view()]).unwrap());
    } else {
        cfg = cfg.doe(&doe);
    }
    if !st.fixed_tol && (ny > 1 || st.fcstr) {
        cfg.0.cstr_tol = Some((0..ny - 1 + if st.fcstr { 1 } else { 0 }).map(|i| h::input(&format!("tol{i}"), 0.0, 1.0)).collect());
    }
    if st.trego {
        cfg.0.trego.n_local_steps = 1 + h::choose("local_steps", 2) as u64;
    }
    let (gamma, beta) = (cfg.0.trego.gamma, cfg.0.trego.beta);
    let n_local = cfg.0.trego.n_local_steps;
    let mut solver: EgorSolver<Builder, Cf> = EgorSolver::new(cfg.check().unwrap());
    type St = EgorState<f64>;
    let (mut s, _) = Solver::<_, St>::init(&mut solver, &mut pb, EgorState::new()).unwrap();
    s.update();
    // initial data
    {
        let (x, y, _) = s.data.clone().unwrap();
        h::check("the initial points are the given ones", x == doe);
        h::check("initial evaluations", log.borrow().calls == if with_y { 0 } else { st.n0 });
        h::check("size of the initial data", s.doe_size == st.n0);
        h::check("no improvement yet", s.last_best_iter == 0);
        if !with_y {
            for i in 0..st.n0 {
                h::check("initial costs are those returned", y.row(i).to_vec() == log.borrow().y[i]);
            }
        }
        check_state(&st, &s, nx, raw_fc);
    }
    if st.any_state {
        // any earlier history with the same data: iteration, last improvement, trust region, previous best
        let b = s.best_index.unwrap();
        let (it, last, moved) = match h::choose("history", st.histories) {
            0 => (0, 0, false),
            1 => (1, 1, true),
            2 => (2, 1, false),
            _ => (3, 0, false),
        };
        s.iter = it;
        s.last_best_iter = last;
        if moved {
            // the best point was found by the previous iteration
            let k = if b == 0 { 1 } else { 0 };
            s.prev_best_index = Some(k);
            s.prev_added = s.added - 1;
        }
        if it > 0 {
            s.clusterings = Some(vec![Some(clustering(nx)); ny]);
            s.theta_inits = Some(vec![Some(Array2::zeros((1, nx))); ny]);
        }
        s.feasibility = it % 2 == 0;
        s.sigma = h::input("sigma", 0.01, 3.0);
        s.prev_step_ego = h::choose("prev_ego", if st.trego { 2 } else { 1 }) == 1;
    }
    s.no_point_added_retries = st.retries;
    for _ in 0..st.iters {
        let p = snap(&s, &log);
        let iter = s.get_iter();
        // success of the previous step, for the trust region
        let success = p.y[[p.best, 0]] < p.y[[p.prev_best, 0]] - p.sigma * p.sigma;
        let (t, _) = solver.next_iter(&mut pb, s).unwrap();
        s = t;
        s.update();
        h::check("the problem is given back", pb.problem.is_some());
        let (x, y, c) = s.data.clone().unwrap();
        let n = p.x.nrows();
        let k = x.nrows() - n;
        for i in 0..n {
            h::check("known points are kept", x.row(i) == p.x.row(i));
            h::check("known costs are kept", y.row(i) == p.y.row(i));
            h::check("known constraint values are kept", c.row(i) == p.c.row(i));
        }
        let evals = log.borrow().calls - p.evals;
        let local = st.trego && !s.prev_step_ego;
        h::check("at most the asked number of points is added", k <= if st.trego && local { 1 } else { st.q });
        if local {
            h::check("a local step evaluates one point", evals == 1);
        } else {
            h::check("every added point is evaluated once", evals == k);
        }
        for i in 0..k {
            let r = x.row(n + i).to_vec();
            for j in 0..nx {
                h::check_le("added points satisfy the lower bounds", solver.xlimits[[j, 0]], r[j]);
                h::check_le("added points satisfy the upper bounds", r[j], solver.xlimits[[j, 1]]);
            }
            h::check("costs of added points are those returned", y.row(n + i).to_vec() == log.borrow().y[p.evals + i]);
            if !discrete {
                h::check("added points are the evaluated ones", r == log.borrow().x[p.evals + i]);
            }
            for j in 0..n + i {
                h::check("added points are away from the known points", l1(&x.row(j).to_vec(), &r) >= NEAR);
            }
        }
        let done = s.get_termination_reason().is_some();
        h::check("no point added only at convergence or in a local step", k > 0 || done || local);
        if done {
            h::check("convergence is reported", s.get_termination_reason() == Some(&TerminationReason::SolverConverged));
        }
        check_state(&st, &s, nx, raw_fc);
        let b = s.best_index.unwrap();
        h::check("the best index only moves to a new point", b == p.best || b >= n);
        if b != p.best {
            h::check("iteration of the last improvement", s.last_best_iter == iter + 1);
        } else {
            h::check("iteration of the last improvement is kept", s.last_best_iter == p.last);
        }
        h::check("previous best index", s.prev_best_index == Some(p.best));
        h::check("previous number of points", done || s.prev_added == p.added);
        h::check("feasibility is never lost", s.feasibility || !p.feas);
        h::check("random generator is given back", s.rng.is_some());
        if st.trego {
            let global = (success && p.prev_ego) || iter % (1 + n_local) == 0;
            h::check("alternation of global and local steps", s.prev_step_ego == global);
            let e = if iter == 0 {
                p.sigma
            } else if success {
                p.sigma * gamma
            } else if p.prev_ego {
                p.sigma
            } else {
                p.sigma * beta
            };
            h::check_eq("size of the trust region", s.sigma, e);
        }
        if st.coego > 0 {
            let a = s.activity.clone().unwrap();
            let mut seen: Vec<usize> = a.iter().cloned().filter(|i| *i < nx).collect();
            seen.sort();
            h::check("every component is active in exactly one group", seen == (0..nx).collect::<Vec<_>>());
        }
        s.increment_iter();
        if done {
            break;
        }
    }
}
pub fn plain(q: usize) {
    let mut s = Setup::new(1);
    s.q = q;
    s.histories = if q == 1 { 4 } else { 2 };
    s.n0 = if h::thorough() { 3 } else { 2 };
    run(s, true);
}
pub fn plain2() {
    let mut s = Setup::new(2);
    s.n0 = if h::thorough() { 3 } else { 2 };
    run(s, true);
}
/// the first step after the initialization, whatever the initial points and costs
pub fn first() {
    let mut s = Setup::new(1);
    s.any_state = false;
    s.fixed_doe = false;
    s.with_y = false;
    run(s, true);
}
/// two steps in a row
pub fn second() {
    let mut s = Setup::new(1);
    s.any_state = false;
    s.iters = 2;
    s.fixed_y = true;
    run(s, true);
}
/// points too close to the known ones are proposed again before giving up
pub fn retry() {
    let mut s = Setup::new(1);
    s.any_state = false;
    s.retries = 3;
    run(s, true);
}
pub fn failing() {
    let mut s = Setup::new(1);
    s.histories = 4;
    s.may_fail = true;
    run(s, true);
}
pub fn constrained() {
    let mut s = Setup::new(1);
    s.ny = 2;
    s.fixed_tol = h::choose("tol", 2) == 0;
    run(s, true);
}
pub fn fcstr() {
    let mut s = Setup::new(1);
    s.fcstr = true;
    run(s, false);
}
/// values of the constraint functions recorded for the added points
pub fn fcstr_values() {
    let mut s = Setup::new(1);
    s.fcstr = true;
    s.any_state = false;
    run(s, true);
}
pub fn mixed(k: usize) {
    let mut s = Setup::new(2);
    s.fixed_y = !h::thorough();
    s.xt = match k {
        0 => vec![XType::Float(-2.0, 2.0), XType::Int(0, 2)],
        _ => vec![XType::Enum(2), XType::Float(-2.0, 2.0)],
    };
    run(s, true);
}
pub fn trego() {
    let mut s = Setup::new(1);
    s.trego = true;
    run(s, true);
}
pub fn coego() {
    let mut s = Setup::new(3);
    s.coego = 2;
    s.fixed_y = true;
    run(s, true);
}
