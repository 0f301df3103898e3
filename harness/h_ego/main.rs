//! Efficient global optimization: criteria, mixed integer spaces, bookkeeping
mod book;
mod crit;
mod looping;
mod mixint;
mod runs;
mod stub;
use symrs::h::{self, H};
fn main() {
    h::main(&[
        H { name: "ei_value", f: crit::ei_value },
        H { name: "ei_grad", f: crit::ei_grad },
        H { name: "ei_novar", f: crit::ei_novar },
        H { name: "wb2", f: crit::wb2 },
        H { name: "logei_helper", f: crit::logei_helper },
        H { name: "logei_gap", f: crit::logei_gap },
        H { name: "logei_far", f: crit::logei_far },
        H { name: "logei", f: crit::logei },
        H { name: "pof_value", f: crit::pof_value },
        H { name: "pof_gradient", f: crit::pof_gradient },
        H { name: "logpof", f: crit::logpof },
        H { name: "cstr_mean", f: || crit::cstr_models(false) },
        H { name: "cstr_ub", f: || crit::cstr_models(true) },
        H { name: "infill_ei", f: || crit::infill_obj(0, false) },
        H { name: "infill_logei", f: || crit::infill_obj(1, false) },
        H { name: "infill_wb2s", f: || crit::infill_obj(2, false) },
        H { name: "infill_ei_cstr", f: || crit::infill_obj(0, true) },
        H { name: "infill_logei_cstr", f: || crit::infill_obj(1, true) },
        H { name: "optim_slsqp_none", f: || crit::optim(true, 0) },
        H { name: "optim_slsqp_mean", f: || crit::optim(true, 1) },
        H { name: "optim_slsqp_utb", f: || crit::optim(true, 2) },
        H { name: "optim_slsqp_pof", f: || crit::optim(true, 3) },
        H { name: "optim_cobyla_none", f: || crit::optim(false, 0) },
        H { name: "optim_cobyla_mean", f: || crit::optim(false, 1) },
        H { name: "optim_cobyla_utb", f: || crit::optim(false, 2) },
        H { name: "optim_cobyla_pof", f: || crit::optim(false, 3) },
        H { name: "mixint_cast", f: mixint::cast },
        H { name: "mixint_fold", f: mixint::fold },
        H { name: "mixint_enum2", f: mixint::fold_enum2 },
        H { name: "mixint_unfold", f: mixint::unfold },
        H { name: "mixint_sampling", f: mixint::sampling },
        H { name: "mixint_surrogate", f: mixint::surrogate },
        H { name: "best_index", f: book::best_index },
        H { name: "best_index_from", f: book::best_index_from },
        H { name: "order", f: book::order },
        H { name: "state_update", f: book::state_update },
        H { name: "append", f: book::append },
        H { name: "virtual_point", f: book::virtual_point },
        H { name: "cstr_scales", f: book::cstr_scales },
        H { name: "starts", f: book::starts },
        H { name: "evaluations", f: book::evaluations },
        H { name: "activity", f: book::activity },
        H { name: "loop_plain", f: || looping::plain(1) },
        H { name: "loop_plain_q2", f: || looping::plain(2) },
        H { name: "loop_plain2", f: looping::plain2 },
        H { name: "loop_first", f: looping::first },
        H { name: "loop_second", f: looping::second },
        H { name: "loop_retry", f: looping::retry },
        H { name: "loop_failing", f: looping::failing },
        H { name: "loop_constrained", f: looping::constrained },
        H { name: "loop_fcstr", f: looping::fcstr },
        H { name: "loop_fcstr_values", f: looping::fcstr_values },
        H { name: "loop_mixed_int", f: || looping::mixed(0) },
        H { name: "loop_mixed_enum", f: || looping::mixed(1) },
        H { name: "loop_trego", f: looping::trego },
        H { name: "loop_coego", f: looping::coego },
        H { name: "suggest", f: runs::suggest },
        H { name: "run_float", f: runs::run_float },
        H { name: "run_cstr", f: runs::run_cstr },
        H { name: "run_mixed", f: runs::run_mixed },
        H { name: "training", f: runs::training },
        H { name: "recluster", f: runs::recluster },
        H { name: "local_starts", f: runs::local_starts },
    ]);
}
