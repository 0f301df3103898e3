//! Bookkeeping: best result, data set, virtual points, evaluations
use crate::crit::{Cf, solver};
use crate::stub::*;
use argmin::core::State;
use egobox_ego::utils::*;
use egobox_ego::*;
use egobox_moe::*;
use ndarray::{Array1, Array2, array, concatenate, Axis};
use symrs::h;

fn matrix(name: &str, n: usize, m: usize, lo: f64, hi: f64) -> Array2<f64> {
    Array2::from_shape_fn((n, m), |(i, j)| h::input(&format!("{name}{i}_{j}"), lo, hi))
}
/// total violation of the constraints of one row
pub fn violation(y: &Array2<f64>, c: &Array2<f64>, tol: &[f64], i: usize) -> f64 {
    let mut r = 0.0;
    let mut k = 0;
    for j in 1..y.ncols() {
        let d = y[[i, j]] - tol[k];
        r = r + if d > 0.0 { d } else { 0.0 };
        k += 1;
    }
    for j in 0..c.ncols() {
        let d = c[[i, j]] - tol[k];
        r = r + if d > 0.0 { d } else { 0.0 };
        k += 1;
    }
    r
}
/// row i is at least as good as row j
fn as_good(y: &Array2<f64>, v: &[f64], i: usize, j: usize) -> bool {
    if v[i] <= 0.0 {
        v[j] > 0.0 || y[[i, 0]] <= y[[j, 0]]
    } else {
        v[j] > 0.0 && v[i] <= v[j]
    }
}
pub fn check_best(tag: &str, b: usize, y: &Array2<f64>, v: &[f64]) {
    h::check(&format!("{tag}: index in range"), b < y.nrows());
    for j in 0..y.nrows() {
        if j != b {
            h::check(tag, as_good(y, v, b, j));
        }
    }
}
fn problem(n: usize) -> (Array2<f64>, Array2<f64>, Array1<f64>, Vec<f64>) {
    let (nc, nf) = match h::choose("constraints", 4) {
        0 => (0, 0),
        1 => (1, 0),
        2 => (0, 1),
        _ => (1, 1),
    };
    let y = matrix("y", n, 1 + nc, -5.0, 5.0);
    let c = matrix("c", n, nf, -5.0, 5.0);
    let tol: Array1<f64> = (0..nc + nf).map(|i| h::input(&format!("tol{i}"), -1.0, 1.0)).collect();
    let v = (0..n).map(|i| violation(&y, &c, &tol.to_vec(), i)).collect();
    (y, c, tol, v)
}
pub fn best_index() {
    let n = 1 + h::choose("n", 3);
    let (y, c, tol, v) = problem(n);
    let b = find_best_result_index(&y, &c, &tol);
    check_best("the best point is feasible with the least objective, or the least infeasible", b, &y, &v);
    for i in 0..n {
        h::check("a point is feasible when no constraint exceeds its tolerance", is_feasible(&y.row(i), &c.row(i), &tol) == (v[i] <= 0.0));
    }
}
pub fn best_index_from() {
    let n = 2 + h::choose("n", 2);
    let k = 1 + h::choose("k", n - 1);
    let (y, c, tol, v) = problem(n);
    let cur = h::choose("current", k);
    // the incumbent is the best of the first k points
    for j in 0..k {
        if j != cur {
            h::assume(as_good(&y, &v, cur, j));
        }
    }
    let b = find_best_result_index_from(cur, k, &y, &c, &tol);
    check_best("the incremental best point is the best of all the points", b, &y, &v);
    h::check("the incumbent is kept unless a new point replaces it", b == cur || b >= k);
    h::check("the incumbent is kept when no new point is better", b == cur || !as_good(&y, &v, cur, b));
}
/// the comparison of two results is antisymmetric
pub fn order() {
    let (y, c, tol, v) = problem(2);
    let a = concatenate(Axis(1), &[y.view(), c.view()]).unwrap();
    let (r, s) = (a.row(0), a.row(1));
    let o = cstr_min((0, &r), (1, &s), &tol);
    let p = cstr_min((1, &s), (0, &r), &tol);
    h::check("the comparison is antisymmetric", o == p.reverse());
    if a.ncols() > 1 || true {
        h::check("the comparison follows feasibility then objective or violation", (o != std::cmp::Ordering::Greater) == as_good(&y, &v, 0, 1));
    }
}
pub fn state_update() {
    let n = 3;
    let y = matrix("y", n, 2, -5.0, 5.0);
    let x = matrix("x", n, 2, -5.0, 5.0);
    let c = Array2::zeros((n, 0));
    let mut s: EgorState<f64> = EgorState::new();
    s = s.data((x.clone(), y.clone(), c));
    s.cstr_tol = array![h::input("tol", -1.0, 1.0)];
    s.doe_size = 1 + h::choose("doe", 3);
    s.iter = 2 * h::choose("iter", 2) as u64;
    s.last_best_iter = if s.iter > 1 { 1 } else { 0 };
    let prev = h::choose("prev", 3);
    s.prev_best_index = Some(prev);
    let known = h::choose("known", 2) == 1;
    let best = if known { h::choose("best", 3) } else { 0 };
    if known {
        s.best_index = Some(best);
    }
    let (op, oc) = (array![h::input("op", -5.0, 5.0), 1.0], array![h::input("oc", -5.0, 5.0), 2.0]);
    s.best_param = Some(op.clone());
    s.best_cost = Some(oc.clone());
    let (iter, last, doe) = (s.iter, s.last_best_iter, s.doe_size);
    s.update();
    let b = if known { best } else { find_best_result_index(&y, &Array2::zeros((n, 0)), &s.cstr_tol) };
    h::check("best parameters are the row of the best index", s.best_param.clone().unwrap() == x.row(b).to_owned());
    h::check("best costs are the row of the best index", s.best_cost.clone().unwrap() == y.row(b).to_owned());
    h::check("cost of the best point", s.get_best_cost() == y[[b, 0]]);
    h::check("previous best parameters", s.prev_best_param.clone().unwrap() == op);
    h::check("previous best costs", s.prev_best_cost.clone().unwrap() == oc);
    let e = if b >= doe && b != prev { iter + 1 } else { last };
    h::check("iteration of the last improvement", s.last_best_iter == e);
    h::check("current iteration is the best one", s.is_best() == (e == iter + 1));
}
// ---- data set -------------------------------------------------------------------------------------
fn l1(a: &[f64], b: &[f64]) -> f64 {
    let mut r = 0.0;
    for i in 0..a.len() {
        r = r + (a[i] - b[i]).abs();
    }
    r
}
pub const NEAR: f64 = 100.0 * 2.220446049250313e-16;
pub fn append() {
    h::exact_mode();
    let nx = 1 + h::choose("nx", 2);
    let (n, m) = match h::choose("sizes", 3) {
        0 => (1, 2),
        1 => (2, 1),
        _ => (1, 3),
    };
    if nx == 2 {
        h::assume(m <= 2);
    }
    let (x, y, c) = (matrix("x", n, nx, -5.0, 5.0), matrix("y", n, 2, -5.0, 5.0), matrix("c", n, 1, -5.0, 5.0));
    let (xn, yn, cn) = (matrix("xn", m, nx, -5.0, 5.0), matrix("yn", m, 2, -5.0, 5.0), matrix("cn", m, 1, -5.0, 5.0));
    let (mut xd, mut yd, mut cd) = (x.clone(), y.clone(), c.clone());
    let ix = update_data(&mut xd, &mut yd, &mut cd, &xn, &yn, &cn);
    let k = ix.len();
    h::check("as many rows added as reported", xd.nrows() == n + k && yd.nrows() == n + k && cd.nrows() == n + k);
    for i in 0..n {
        h::check("known points are kept", xd.row(i) == x.row(i) && yd.row(i) == y.row(i) && cd.row(i) == c.row(i));
    }
    for (p, i) in ix.iter().enumerate() {
        h::check("added rows keep their order", *i < m && (p == 0 || ix[p - 1] < *i));
        h::check("added rows are the reported points", xd.row(n + p) == xn.row(*i) && yd.row(n + p) == yn.row(*i) && cd.row(n + p) == cn.row(*i));
    }
    for i in 0..m {
        let before = match ix.iter().position(|k| *k == i) {
            Some(p) => n + p,
            None => n + ix.iter().filter(|k| **k < i).count(),
        };
        let near = (0..before).any(|r| l1(&xd.row(r).to_vec(), &xn.row(i).to_vec()) < NEAR);
        h::check("a point is added exactly when it is away from the known points", ix.contains(&i) == !near);
    }
}
// ---- virtual points -------------------------------------------------------------------------------
pub fn virtual_point() {
    h::exact_mode();
    let k = h::choose("strategy", 4);
    let q = match k {
        0 => QEiStrategy::KrigingBeliever,
        1 => QEiStrategy::KrigingBelieverLowerBound,
        2 => QEiStrategy::KrigingBelieverUpperBound,
        _ => QEiStrategy::ConstantLiarMinimum,
    };
    let nc = h::choose("constraints", 3);
    let s = solver(EgorConfig::default().xtypes(&vec![XType::Float(-2.0, 2.0); 2]).n_cstr(nc).qei_strategy(q));
    let m = Stub::draw("m", 2);
    let cs: Vec<Stub> = (0..nc).map(|i| Stub::draw(&format!("c{i}"), 2)).collect();
    let cb: Vec<Box<dyn MixtureGpSurrogate>> = cs.iter().map(|s| Box::new(Mix::new(s.clone())) as Box<dyn MixtureGpSurrogate>).collect();
    let y = matrix("y", 2, 1 + nc, -5.0, 5.0);
    let x = [h::input("x0", -2.0, 2.0), h::input("x1", -2.0, 2.0)];
    let v = s.compute_virtual_point(&Array1::from(x.to_vec()), &y, &Mix::new(m.clone()), &cb).unwrap();
    h::check("one virtual value per output", v.len() == 1 + nc);
    if k == 3 {
        let i = if y[[0, 0]] <= y[[1, 0]] { 0 } else { 1 };
        h::check("constant liar: the least objective", v[0] == y[[i, 0]]);
        for j in 0..nc {
            h::check("constant liar: the constraints of that point", v[j + 1] == y[[0, j + 1]] && y[[0, 0]] <= y[[1, 0]] || v[j + 1] == y[[1, j + 1]] && y[[1, 0]] <= y[[0, 0]]);
        }
    } else {
        let f = match k {
            0 => 0.0,
            1 => -3.0,
            _ => 3.0,
        };
        h::check_eq("kriging believer objective", v[0], m.val(&x) + f * m.var(&x).sqrt());
        for j in 0..nc {
            h::check_eq("kriging believer constraint", v[j + 1], cs[j].val(&x));
        }
    }
}
/// the scale of a constraint is its largest predicted magnitude
pub fn cstr_scales() {
    h::exact_mode();
    let nc = 1 + h::choose("constraints", 2);
    let cs: Vec<Stub> = (0..nc).map(|i| Stub::draw(&format!("c{i}"), 1)).collect();
    let cb: Vec<Box<dyn MixtureGpSurrogate>> = cs.iter().map(|s| Box::new(Mix::new(s.clone())) as Box<dyn MixtureGpSurrogate>).collect();
    let n = 1 + h::choose("n", 2);
    let x = matrix("x", n, 1, -2.0, 2.0);
    let s = compute_cstr_scales(&x.view(), &cb);
    h::check("one scale per constraint", s.len() == nc);
    for j in 0..nc {
        let p: Vec<f64> = (0..n).map(|i| cs[j].val(&x.row(i).to_vec()).abs()).collect();
        let mut hit = false;
        for v in &p {
            h::check_le("the scale bounds the predictions", *v, s[j]);
            hit = hit || *v == s[j];
        }
        h::check("the scale is one of the predictions", hit);
    }
}
// ---- starting points ------------------------------------------------------------------------------
pub fn starts() {
    h::exact_mode();
    let (n, nx) = match h::choose("sizes", 3) {
        0 => (2, 2),
        1 => (3, 1),
        _ => (1, 2),
    };
    let x = matrix("x", n, nx, -2.0, 3.0);
    let max = match h::choose("max", 3) {
        0 => None,
        1 => Some(1),
        _ => Some(2),
    };
    let p = start_points(&x, &Array1::from_elem(nx, -2.0), &Array1::from_elem(nx, 3.0), max);
    h::check("dimension of the starting points", p.ncols() == nx);
    h::check("number of starting points", p.nrows() <= max.unwrap_or(n * n));
    h::check("at least one starting point", n < 2 || p.nrows() >= 1);
    for r in p.rows() {
        for j in 0..nx {
            h::check_le("lower bound", -2.0, r[j]);
            h::check_le("upper bound", r[j], 3.0);
        }
        let mid = (0..n).any(|a| (0..a).any(|b| (0..nx).all(|j| r[j] == (x[[a, j]] + x[[b, j]]) / 2.0)));
        h::check("a starting point is the middle of two known points", mid);
    }
}
// ---- evaluations ----------------------------------------------------------------------------------
fn fc0(x: &[f64], _g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 {
    x[0] - 2.0 * x[1] + x[2]
}
fn fc1(x: &[f64], _g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 {
    x[1] * x[1] + 3.0 * x[2]
}
/// functions are evaluated at admissible points
pub fn evaluations() {
    let discrete = h::choose("discrete", 2) == 1;
    let xt = if discrete {
        vec![XType::Float(-2.0, 3.0), XType::Int(-1, 1), XType::Enum(3)]
    } else {
        vec![XType::Float(-2.0, 3.0), XType::Float(-1.0, 1.0), XType::Float(0.0, 2.0)]
    };
    let s = solver(EgorConfig::default().xtypes(&xt));
    let nx = s.xlimits.nrows();
    h::check("relaxed dimension", nx == if discrete { 5 } else { 3 });
    let n = if discrete { 1 } else { 2 };
    let x = Array2::from_shape_fn((n, nx), |(i, j)| h::input(&format!("x{i}_{j}"), s.xlimits[[j, 0]], s.xlimits[[j, 1]]));
    let f = |x: &ndarray::ArrayView2<f64>| -> Array2<f64> {
        h::check("columns given to the objective", x.ncols() == 3);
        x.to_owned()
    };
    let mut pb = argmin::core::Problem::new(ObjFunc::<_, Cf>::new(f).subject_to(vec![fc0 as Cf, fc1 as Cf]));
    let y = s.eval_obj(&mut pb, &x);
    h::check("as many results as points", y.nrows() == n);
    let c = s.eval_problem_fcstrs(&mut pb, &x);
    h::check("the problem is given back", pb.problem.is_some());
    h::check("one value per point and constraint function", c.dim() == (n, 2));
    for i in 0..n {
        h::check("a continuous variable is given unchanged", y[[i, 0]] == x[[i, 0]]);
        if discrete {
            h::check("an integer is given to the objective", (-1..=1).any(|k| y[[i, 1]] == k as f64));
            h::check_le("the nearest integer is given to the objective", (y[[i, 1]] - x[[i, 1]]).abs(), 0.5);
            for k in 0..3 {
                if y[[i, 2]] == k as f64 {
                    for l in 0..3 {
                        h::check_le("the level with the largest relaxed value is given", x[[i, 2 + l]], x[[i, 2 + k]]);
                    }
                }
            }
            h::check("a level is given to the objective", (0..3).any(|k| y[[i, 2]] == k as f64));
        } else {
            h::check("continuous variables are given unchanged", y.row(i) == x.row(i));
        }
        let r = y.row(i).to_vec();
        let mut u = InfillObjData::default();
        h::check_eq("a constraint function sees the point given to the objective", c[[i, 0]], fc0(&r, None, &mut u));
        h::check_eq("every constraint function sees the point given to the objective", c[[i, 1]], fc1(&r, None, &mut u));
    }
}
// ---- cooperative activity -------------------------------------------------------------------------
pub fn activity() {
    let nx = 1 + h::choose("nx", if h::thorough() { 5 } else { 4 });
    let nco = 1 + h::choose("n_coop", 4);
    let mut s = solver(EgorConfig::default().xtypes(&vec![XType::Float(-2.0, 2.0); nx]).coego(CoegoStatus::Enabled(nco)));
    let mut rng: rand_xoshiro::Xoshiro256Plus = ndarray_rand::rand::SeedableRng::seed_from_u64(3);
    let a = s.get_random_activity(&mut rng);
    h::check("number of groups", a.nrows() == if nco < nx { nco } else { nx });
    type S = EgorSolver<Builder, Cf>;
    let mut seen = vec![0usize; nx];
    let mut sizes = vec![];
    for r in a.rows() {
        let act = S::strip(&r.to_vec(), nx);
        sizes.push(act.len());
        for i in act {
            h::check("a component of the space", i < nx);
            seen[i] += 1;
        }
    }
    h::check("every component belongs to exactly one group", seen.iter().all(|k| *k == 1));
    let (lo, hi) = (sizes.iter().min().unwrap(), sizes.iter().max().unwrap());
    h::check("no empty group, sizes differ by one at most", *lo >= 1 && *hi - *lo <= 1);
    let f = s.full_activity();
    h::check("full activity", f.dim() == (1, nx) && (0..nx).all(|i| f[[0, i]] == i));
}
