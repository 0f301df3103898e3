//! Whole runs, suggestions, surrogate training schedule, local starting points
use crate::book::NEAR;
use crate::crit::Cf;
use crate::looping::Flat;
use crate::stub::*;
use egobox_ego::gpmix::mixint::*;
use egobox_ego::solver::solver_infill_optim::MultiStarter;
use egobox_ego::solver::trego::LocalLhsMultiStarter;
use egobox_ego::*;
use egobox_moe::*;
use ndarray::{Array1, Array2, ArrayView2, array};
use std::cell::RefCell;
use std::rc::Rc;
use symrs::h;

fn base(xt: &[XType], nc: usize) -> EgorConfig {
    let mut c = EgorConfig::default().xtypes(xt).n_cstr(nc).n_start(1).infill_optimizer(InfillOptimizer::Cobyla).seed(1);
    c.0.infill_criterion = Box::new(Flat);
    c
}
fn known(xt: &[XType], n: usize) -> Array2<f64> {
    Array2::from_shape_fn((n, xt.len()), |(i, j)| match &xt[j] {
        XType::Float(a, b) => *a + (*b - *a) * (1 + i + j) as f64 / 6.0,
        XType::Int(a, b) => (*a + (i as i32) % (*b - *a + 1)) as f64,
        XType::Ord(v) => v[i % v.len()],
        XType::Enum(m) => (i % *m) as f64,
    })
}
fn spaces(k: usize) -> Vec<XType> {
    match k {
        0 => vec![XType::Float(-2.0, 2.0), XType::Float(1.0, 3.0)],
        1 => vec![XType::Float(-2.0, 2.0), XType::Int(-1, 1)],
        2 => vec![XType::Ord(vec![0.5, 2.0, -1.0]), XType::Float(-2.0, 2.0)],
        3 => vec![XType::Enum(3), XType::Float(-2.0, 2.0)],
        4 => vec![XType::Float(-2.0, 2.0)],
        5 => vec![XType::Int(-1, 1)],
        6 => vec![XType::Ord(vec![0.5, 2.0, -1.0])],
        _ => vec![XType::Enum(2)],
    }
}
fn admissible(tag: &str, xt: &[XType], x: &[f64]) {
    for i in 0..xt.len() {
        match &xt[i] {
            XType::Float(a, b) => {
                h::check_le(tag, *a, x[i]);
                h::check_le(tag, x[i], *b);
            }
            XType::Int(a, b) => h::check(tag, (*a..=*b).any(|k| x[i] == k as f64)),
            XType::Ord(v) => h::check(tag, v.iter().any(|k| x[i] == *k)),
            XType::Enum(n) => h::check(tag, (0..*n).any(|k| x[i] == k as f64)),
        }
    }
}
/// ask and tell
pub fn suggest() {
    h::rng_concrete_floats(true);
    h::linear_first();
    let k = h::choose("space", 4);
    let xt = spaces(k);
    let (nc, q) = if h::thorough() { (h::choose("constraints", 2), 1 + h::choose("q", 2)) } else { [(1, 1), (0, 2), (1, 1), (0, 1)][k] };
    let mut cfg = base(&xt, nc).q_points(q);
    if nc > 0 && h::choose("tol", 2) == 1 {
        cfg = cfg.cstr_tol(array![h::input("tol", 0.0, 1.0)]);
    }
    let solver: EgorSolver<Builder, Cf> = EgorSolver::new(cfg.check().unwrap());
    let api = EgorServiceApi { solver };
    let x = known(&xt, 3);
    let y = Array2::from_shape_fn((3, 1 + nc), |(i, j)| if i < 2 { h::input(&format!("y{i}_{j}"), -5.0, 5.0) } else { 0.5 });
    asked();
    let s = api.suggest(&x, &y);
    h::check("as many suggestions as asked", s.nrows() == q);
    h::check("a suggestion has one value per variable", s.ncols() == xt.len());
    for r in s.rows() {
        admissible("a suggestion belongs to the design space", &xt, &r.to_vec());
    }
    let log = asked();
    h::check("one surrogate per output and point", log.len() == q * (1 + nc));
    let u = to_continuous_space(&xt, &x);
    for (k, a) in log.iter().enumerate() {
        let (i, c) = (k / (1 + nc), k % (1 + nc));
        h::check("the surrogates are trained on the told points", a.x.nrows() == 3 + i && (0..3).all(|r| a.x.row(r) == u.row(r)));
        for r in 0..3 {
            h::check("the surrogates are trained on the told values", a.y[r] == y[[r, c]]);
        }
        for r in 3..3 + i {
            let p = cast_to_discrete_values(&xt, &a.x.row(r).to_owned().insert_axis(ndarray::Axis(0)));
            let f = to_discrete_space(&xt, &p);
            h::check("a virtual point is a suggested one", f.row(0) == s.row(r - 3));
        }
    }
}
/// whole optimization through the public entry point
fn run(k: usize, nc: usize, n: usize) {
    h::rng_concrete_floats(true);
    h::linear_first();
    let xt = spaces(k);
    let calls: Rc<RefCell<(Vec<Vec<f64>>, Vec<Vec<f64>>)>> = Default::default();
    let c2 = calls.clone();
    let t2 = xt.clone();
    let f = move |x: &ArrayView2<f64>| -> Array2<f64> {
        let mut l = c2.borrow_mut();
        let mut y: Array2<f64> = Array2::zeros((x.nrows(), 1 + nc));
        for i in 0..x.nrows() {
            admissible("evaluated points belong to the design space", &t2, &x.row(i).to_vec());
            let k = l.0.len();
            for j in 0..1 + nc {
                y[[i, j]] = h::input(&format!("f{k}_{j}"), -5.0, 5.0);
            }
            l.0.push(x.row(i).to_vec());
            l.1.push(y.row(i).to_vec());
        }
        y
    };
    let target = h::input("target", -6.0, 0.0);
    let x0 = known(&xt, 2);
    let y0: Array2<f64> = Array2::from_shape_fn((2, 1 + nc), |(i, j)| [0.5, 1.5, -0.25][(2 * i + j) % 3]);
    let u0 = to_continuous_space(&xt, &x0);
    let cfg = base(&xt, nc)
        .doe(&ndarray::concatenate(ndarray::Axis(1), &[u0.view(), y0.view()]).unwrap())
        .max_iters(n)
        .target(target);
    let egor: Egor<_, Cf, Builder> = Egor {
        fobj: ObjFunc::new(f).subject_to(vec![]),
        solver: EgorSolver::new(cfg.check().unwrap()),
        run_info: None,
    };
    let r = egor.run().unwrap();
    let c = calls.borrow();
    let m = c.0.len();
    h::check("at most one point per iteration", m <= n);
    h::check("one row per known or added point", r.x_doe.nrows() == 2 + m && r.y_doe.nrows() == 2 + m);
    h::check("one column per variable and output", r.x_doe.ncols() == xt.len() && r.y_doe.ncols() == 1 + nc);
    for i in 0..2 {
        h::check("the given points come first", r.x_doe.row(i) == x0.row(i) && r.y_doe.row(i) == y0.row(i));
    }
    for i in 0..m {
        h::check("the points evaluated are returned", r.x_doe.row(2 + i).to_vec() == c.0[i]);
        h::check("the values obtained are returned", r.y_doe.row(2 + i).to_vec() == c.1[i]);
    }
    let hit = (0..2 + m).find(|i| r.x_doe.row(*i) == r.x_opt && r.y_doe.row(*i) == r.y_opt);
    h::check("the optimum returned is one of the points", hit.is_some());
    let tol = vec![DEFAULT_CSTR_TOL; nc];
    let v: Vec<f64> = (0..2 + m).map(|i| crate::book::violation(&r.y_doe, &Array2::zeros((2 + m, 0)), &tol, i)).collect();
    if let Some(b) = hit {
        crate::book::check_best("the optimum returned is the best point", b, &r.y_doe, &v);
    }
    // the target stops the run
    let mut it = 0;
    for i in 0..2 + m {
        let best = r.y_doe.slice(ndarray::s![..=i, ..]).to_owned();
        let vb = &v[..=i];
        let ok = (0..=i).any(|a| best[[a, 0]] <= target && (0..=i).all(|b| best_of(&best, vb, a, b)));
        if i >= 1 && ok {
            it = i;
            break;
        }
    }
    let conv = r.state.get_termination_reason() == Some(&argmin::core::TerminationReason::SolverConverged);
    if it > 0 {
        h::check("the run stops when the target is reached", 2 + m == it + 1);
    } else {
        h::check("the run uses its iterations when the target is not reached", m == n || conv);
    }
}
use argmin::core::State;
fn best_of(y: &Array2<f64>, v: &[f64], a: usize, b: usize) -> bool {
    if v[a] <= 0.0 { v[b] > 0.0 || y[[a, 0]] <= y[[b, 0]] } else { v[b] > 0.0 && v[a] <= v[b] }
}
pub fn run_float() {
    run(4, 0, if h::thorough() { 2 } else { 1 });
}
pub fn run_cstr() {
    run(4, 1, 1);
}
pub fn run_mixed() {
    run(5 + h::choose("space", 3), 0, 1);
}
/// hyperparameters, clustering and settings given to the surrogates along the iterations
pub fn training() {
    h::rng_concrete_floats(true);
    h::linear_first();
    let xt = spaces(0);
    let nc = h::choose("constraints", 2);
    let (q, m) = match h::choose("schedule", 4) {
        0 => (1, 1),
        1 => (1, 2),
        2 => (2, 2),
        _ => (2, 3),
    };
    let auto = h::choose("auto", 2) == 1;
    let kpls = if h::choose("kpls", 2) == 1 { Some(1) } else { None };
    let nk = if auto { NbClusters::Auto { max: None } } else { NbClusters::Fixed { nb: 1 } };
    let cfg = base(&xt, nc).q_points(q).q_optmod(m).configure_gp(|g| {
        g.regression_spec(RegressionSpec::LINEAR)
            .correlation_spec(CorrelationSpec::MATERN52)
            .kpls_dim(kpls)
            .n_clusters(nk.clone())
            .recombination(Recombination::Hard)
            .n_start(7)
            .max_eval(33)
    });
    let solver: EgorSolver<Builder, Cf> = EgorSolver::new(cfg.check().unwrap());
    let n = 3;
    let x = known(&xt, n);
    let y = Array2::from_shape_fn((n, 1 + nc), |(i, j)| if j == 0 { h::input(&format!("y{i}"), -5.0, 5.0) } else { 0.1 * i as f64 });
    let mut clusterings = vec![None; 1 + nc];
    let mut thetas = vec![None; 1 + nc];
    let tol = Array1::from_elem(nc, 0.0);
    let c: Array2<f64> = Array2::zeros((n, 0));
    let mut rng: rand_xoshiro::Xoshiro256Plus = ndarray_rand::rand::SeedableRng::seed_from_u64(3);
    let best = egobox_ego::utils::find_best_result_index(&y, &c, &tol);
    asked();
    let fc: Vec<Cf> = vec![];
    let mut last: Vec<Option<Array1<f64>>> = vec![None; 1 + nc];
    let recluster_at = 1 + h::choose("recluster", 2) as u64;
    for iter in 0..3u64 {
        let recluster = auto && iter == recluster_at;
        solver.select_next_points(iter == 0, iter, recluster, &mut clusterings, &mut thetas, None, &x, &y, &c, &tol, best, &fc, true, &mut rng);
        let log = asked();
        h::check("one surrogate per output and point", log.len() == q * (1 + nc));
        for (k, a) in log.iter().enumerate() {
            let (i, o) = (k / (1 + nc), k % (1 + nc));
            h::check("settings of the surrogates", a.spec == Some((RegressionSpec::LINEAR, CorrelationSpec::MATERN52)) && a.kpls == kpls && a.recombination == Some(Recombination::Hard) && a.optim == (7, 33));
            h::check("number of clusters of the surrogates", a.nclusters == Some(nk.clone()));
            h::check("virtual points are added to the training set", a.x.nrows() == n + i && a.y.len() == n + i);
            for r in 0..n {
                h::check("training values of an output", a.y[r] == y[[r, o]]);
            }
            let cluster = (iter == 0 && i == 0) || recluster;
            h::check("clustering is kept unless initial or asked", a.on_clusters != cluster);
            if !cluster {
                let optimize = (iter as usize * q + i) % m == 0;
                let t = a.tunings.first();
                h::check("one setting of the hyperparameters per cluster", a.tunings.len() == 1);
                match t {
                    Some(ThetaTuning::Fixed(t)) => {
                        h::check("hyperparameters are optimized at the interval asked", !optimize);
                        h::check("hyperparameters are reused from the last optimization", Some(t.clone()) == last[o]);
                    }
                    Some(ThetaTuning::Full { init, .. }) => {
                        h::check("hyperparameters are fixed between optimizations", optimize);
                        h::check("dimension of the hyperparameters", init.len() == kpls.unwrap_or(2));
                    }
                    _ => h::fail("kind of hyperparameter setting"),
                }
            }
            last[o] = Some(a.theta.clone());
        }
    }
}
/// the reclustering schedule
pub fn recluster() {
    let auto = h::choose("auto", 2) == 1;
    let nk = if auto { NbClusters::Auto { max: None } } else { NbClusters::Fixed { nb: 2 } };
    let s: EgorSolver<Builder, Cf> = EgorSolver::new(base(&spaces(0), 0).configure_gp(|g| g.n_clusters(nk)).check().unwrap());
    let prev = h::choose("prev", 25);
    let k = h::choose("added", 4);
    h::check("reclustering happens at each tenth point with automatic clustering", s.have_to_recluster(prev + k, prev) == (auto && k > 0 && (prev + k) % 10 == 0));
}
/// starting points of a local step
pub fn local_starts() {
    h::rng_concrete_floats(!h::thorough() || h::choose("draws", 2) == 0);
    h::linear_first();
    let nx = 2;
    let lim: Array2<f64> = array![[-2.0, 2.0], [1.0, 3.0]];
    let o: Array1<f64> = (0..nx).map(|i| h::input(&format!("o{i}"), lim[[i, 0]], lim[[i, 1]])).collect();
    let d = (h::input("dmin", 0.001, 3.0), h::input("dmax", 0.001, 3.0));
    let rng: rand_xoshiro::Xoshiro256Plus = ndarray_rand::rand::SeedableRng::seed_from_u64(3);
    let active: Vec<usize> = match h::choose("active", 3) {
        0 => vec![0, 1],
        1 => vec![1],
        _ => vec![1, 0],
    };
    let n = 2;
    let p = LocalLhsMultiStarter::new(lim.clone(), o.clone(), d, rng).multistart(n, &active);
    h::check("number of starting points", p.dim() == (n, active.len()));
    for r in p.rows() {
        for (k, i) in active.iter().enumerate() {
            h::check_le("starting point above the lower bound", lim[[*i, 0]], r[k]);
            h::check_le("starting point below the upper bound", r[k], lim[[*i, 1]]);
            h::check_le("starting point inside the local area (below)", o[*i] - d.0, r[k]);
            h::check_le("starting point inside the local area (above)", r[k], o[*i] + d.1);
        }
    }
}
#[allow(unused)]
const N: f64 = NEAR;
