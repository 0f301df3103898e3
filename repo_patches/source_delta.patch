From 8f7384f30343505d5e4fcd42f8a39500cdd976f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 01/11] fix: moe cluster responsibilities and their derivatives
 far from the clusters

Probabilities of points lying far from every cluster underflowed: they did not
sum to one (predictions collapsed to zero) and their derivatives were NaN.
---
 crates/moe/src/gaussian_mixture.rs | 47 ++++++++++++------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/crates/moe/src/gaussian_mixture.rs b/crates/moe/src/gaussian_mixture.rs
index 7468eef..07e01cb 100644
--- a/crates/moe/src/gaussian_mixture.rs
+++ b/crates/moe/src/gaussian_mixture.rs
@@ -128,7 +128,6 @@ impl<F: Float> GaussianMixture<F> {
         &self,
         x: &ArrayBase<D, Ix1>,
     ) -> Array2<F> {
-        let v = self.weights.to_owned().dot(&self.pdfs(x));
         let precs = &self.precisions / self.heaviside_factor;
         let mut deriv = Array2::zeros((self.means.nrows(), self.means.ncols()));
         Zip::from(deriv.rows_mut())
@@ -137,18 +136,15 @@ impl<F: Float> GaussianMixture<F> {
             .for_each(|mut der, mu, prec| {
                 der.assign(&(&x.to_owned() - &mu).dot(&prec));
             });
-        let vprime =
-            deriv.to_owned() * &(-self.weights.to_owned() * self.pdfs(x)).insert_axis(Axis(1));
-        let vprime = vprime.sum_axis(Axis(0));
-
-        let u = (self.weights.to_owned() * self.pdfs(x))
-            .to_owned()
-            .insert_axis(Axis(1));
-        let uprime = -(deriv.to_owned() * &u.to_owned());
-        let v2 = v * v;
-        (uprime.mapv(|up| up * v)
-            - u.to_owned() * vprime.broadcast((u.nrows(), vprime.len())).unwrap())
-        .mapv(|w| w / v2)
+        // r_i' = r_i * (sum_j(r_j * d_j) - d_i) where r_i are the responsibilities
+        // and -d_i the derivative of the ith log density
+        let resp = self
+            .predict_probas(&x.to_owned().insert_axis(Axis(0)))
+            .row(0)
+            .insert_axis(Axis(1))
+            .to_owned();
+        let mean_deriv = (&resp * &deriv).sum_axis(Axis(0)).insert_axis(Axis(0));
+        resp * (mean_deriv - deriv)
     }
 
     /// Compute the derivatives of the probability of a set of x points given as a (m, nx) vector
@@ -232,22 +228,17 @@ impl<F: Float> GaussianMixture<F> {
         x: &ArrayBase<D, Ix2>,
     ) -> (Array1<F>, Array2<F>) {
         let weighted_log_prob = self.compute_log_gaussian_prob(x) + self.weights().mapv(|v| v.ln());
-        let log_prob_norm = weighted_log_prob
-            .mapv(|v| {
-                if v <= F::cast(f64::MIN_10_EXP) {
-                    F::zero()
-                } else {
-                    v.exp()
-                }
-            })
+        // log-sum-exp trick: probabilities are computed relatively to the most probable component
+        // otherwise they all underflow when the point is far from every cluster
+        let max_log_prob = weighted_log_prob.map_axis(Axis(1), |row| {
+            row.iter()
+                .fold(F::neg_infinity(), |acc, &v| if v > acc { v } else { acc })
+        });
+        let log_prob_norm = (&weighted_log_prob - &max_log_prob.to_owned().insert_axis(Axis(1)))
+            .mapv(|v| v.exp())
             .sum_axis(Axis(1))
-            .mapv(|v| {
-                if v.abs() < F::epsilon() {
-                    F::zero()
-                } else {
-                    v.ln()
-                }
-            });
+            .mapv(|v| v.ln())
+            + &max_log_prob;
         let log_resp = weighted_log_prob - log_prob_norm.to_owned().insert_axis(Axis(1));
         (log_prob_norm, log_resp)
     }
-- 
2.43.0


From a9cf10bf8db20defcb49e1886c3e34a69e92cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 02/11] fix: moe smooth variance gradients with a number of
 clusters different from the dimension

Responsibilities were broadcast along the wrong axis: the gradient was wrong
when the number of clusters equals the dimension and panicked otherwise.
---
 crates/moe/src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..e7f0973 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -773,7 +773,7 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let term2 = (pprime.to_owned() * p.insert_axis(Axis(1)) * preds).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -865,7 +865,8 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let var_term2 =
+                    (pprime.to_owned() * p.insert_axis(Axis(1)) * vars).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From ff218c991cde50812e51fce1297d1bf3654ea4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 03/11] fix: gradient of the probability of feasibility ignored
 the tolerance

---
 crates/ego/src/utils/cstr_pof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 159439c..076bd20 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -39,8 +39,8 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
                 let y_prime = y_prime.row(0);
                 let sig_2_prime = var_prime.row(0);
                 let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
-                let arg_prime =
-                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * pred / (sigma * sigma));
+                let arg_prime = y_prime.mapv(|v| v / (-sigma))
+                    + sig_prime.mapv(|v| v * (pred - cstr_tol) / (sigma * sigma));
                 norm_pdf(arg) * arg_prime.to_owned()
             }
         }
-- 
2.43.0


From 2810770b20ef1616dc68fe3b67f26655e328b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 04/11] fix: gradient of the upper trust bound constraint used
 one variance derivative for all components

---
 crates/ego/src/solver/solver_computations.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..f4a469e 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -237,14 +237,11 @@ where
         if let Some(grad) = gradient {
             let (pred_grad, var_grad) = cstr_model.predict_valvar_gradients(&x.view()).unwrap();
             let sigma_prime = if sigma < f64::EPSILON {
-                0.
+                Array1::zeros(var_grad.ncols())
             } else {
-                var_grad[[0, 0]] / (2. * sigma)
+                var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
-            let grd = pred_grad
-                .row(0)
-                .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
-                .to_vec();
+            let grd = ((&pred_grad.row(0) + &(sigma_prime * CSTR_DOUBT)) / scale_cstr).to_vec();
             let grd_coop = grd
                 .iter()
                 .enumerate()
-- 
2.43.0


From c774aac1e9914dfa2be15d5e8ff28c03c27d1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 05/11] fix: order of gradient components with CoEGO random
 activity

---
 crates/ego/src/solver/solver_computations.rs | 18 ++++--------------
 crates/ego/src/solver/solver_infill_optim.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index f4a469e..edc1455 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -208,13 +208,8 @@ where
                 .row(0)
                 .mapv(|v| v / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            let grd_coop = coego::get_active_x(Axis(0), &Array1::from_vec(grd), active);
+            grad[..].copy_from_slice(&grd_coop.to_vec());
         }
         cstr_model.predict(&x.view()).unwrap()[0] / scale_cstr
     }
@@ -242,13 +237,8 @@ where
                 var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
             let grd = ((&pred_grad.row(0) + &(sigma_prime * CSTR_DOUBT)) / scale_cstr).to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            let grd_coop = coego::get_active_x(Axis(0), &Array1::from_vec(grd), active);
+            grad[..].copy_from_slice(&grd_coop.to_vec());
         }
         (cstr_val + CSTR_DOUBT * sigma) / scale_cstr
     }
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..911f52e 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -112,13 +112,12 @@ where
                                 *scale_wb2,
                             )
                         };
-                        let g_infill_obj = g_infill_obj
-                            .iter()
-                            .enumerate()
-                            .filter(|(i, _)| active.contains(i))
-                            .map(|(_, &g)| g)
-                            .collect::<Vec<_>>();
-                        grad[..].copy_from_slice(&g_infill_obj);
+                        let g_infill_obj = coego::get_active_x(
+                            Axis(0),
+                            &Array1::from_vec(g_infill_obj),
+                            &active,
+                        );
+                        grad[..].copy_from_slice(&g_infill_obj.to_vec());
                     }
                     if self.config.cstr_infill {
                         // Use constrained infill criterion
-- 
2.43.0


From 0620dd45bef0c38522e0ff6b2ebf3005c8ed6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 06/11] fix: gradient of the infill criterion ignored the
 variance weight of its value

---
 crates/ego/src/solver/solver_computations.rs | 44 +++++++++++++++-----
 crates/ego/src/solver/solver_infill_optim.rs |  8 ++--
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index edc1455..245314b 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -369,13 +369,16 @@ where
         fmin: f64,
         scale: f64,
         scale_ic: f64,
+        sigma_weight: f64,
     ) -> Vec<f64> {
         let x_f = x.to_vec();
-        let grad =
-            -(self
-                .config
-                .infill_criterion
-                .grad(&x_f, obj_model, fmin, None, Some(scale_ic)));
+        let grad = -(self.config.infill_criterion.grad(
+            &x_f,
+            obj_model,
+            fmin,
+            Some(sigma_weight),
+            Some(scale_ic),
+        ));
         (grad / scale).to_vec()
     }
 
@@ -423,16 +426,30 @@ where
         sigma_weight: f64,
     ) -> Vec<f64> {
         if cstr_models.is_empty() {
-            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic)
+            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-                Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                Array1::from_vec(self.eval_grad_infill_obj(
+                    x,
+                    obj_model,
+                    fmin,
+                    scale,
+                    scale_ic,
+                    sigma_weight,
+                ))
             } else {
                 // when no feasible point is found, make the infill criterion gradient neutral factor
                 if self.config.infill_criterion.name() == "LogEI" {
                     Array1::zeros(x.len())
                 } else {
-                    Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                    Array1::from_vec(self.eval_grad_infill_obj(
+                        x,
+                        obj_model,
+                        fmin,
+                        scale,
+                        scale_ic,
+                        sigma_weight,
+                    ))
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
@@ -442,9 +459,14 @@ where
                 let (infill, infill_grad) = if feasibility {
                     (
                         self.eval_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight),
-                        Array1::from_vec(
-                            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic),
-                        ),
+                        Array1::from_vec(self.eval_grad_infill_obj(
+                            x,
+                            obj_model,
+                            fmin,
+                            scale,
+                            scale_ic,
+                            sigma_weight,
+                        )),
                     )
                 } else {
                     // when no feasible point is found, make the grad infill criterion value neutral factor
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 911f52e..76dda94 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -110,13 +110,11 @@ where
                                 *fmin,
                                 *scale_infill_obj,
                                 *scale_wb2,
+                                *sigma_weight,
                             )
                         };
-                        let g_infill_obj = coego::get_active_x(
-                            Axis(0),
-                            &Array1::from_vec(g_infill_obj),
-                            &active,
-                        );
+                        let g_infill_obj =
+                            coego::get_active_x(Axis(0), &Array1::from_vec(g_infill_obj), &active);
                         grad[..].copy_from_slice(&g_infill_obj.to_vec());
                     }
                     if self.config.cstr_infill {
-- 
2.43.0


From 81a4b01a5580fbe34417dce71171457bc08add65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 07/11] fix: mixed-integer unfolding read the wrong column
 after an enumeration

---
 crates/ego/src/gpmix/mixint.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..9b6b832 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -121,9 +121,7 @@ pub(crate) fn unfold_with_enum_mask(
     let mut unfold_index = 0;
     xtypes.iter().enumerate().for_each(|(i, s)| match s {
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
-            xunfold
-                .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+            xunfold.column_mut(unfold_index).assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From ff55c72eb21122789be53fc6b84d4e2f452ef55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 08/11] fix: constraint functions got relaxed values of
 discrete variables

---
 crates/ego/src/solver/solver_computations.rs | 3 +--
 crates/ego/src/solver/solver_impl.rs         | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 245314b..bf0eb23 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -523,8 +523,7 @@ where
                             // the constraint function expects discrete variable in folded space
                             to_discrete_space(&self.config.xtypes, &xary)
                                 .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
+                                .to_vec()
                         } else {
                             xi.to_vec()
                         };
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..351f3ab 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -728,10 +728,9 @@ where
                                 // We have to cast x to folded space as EgorSolver
                                 // works internally in the continuous space while
                                 // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
+                                &to_discrete_space(&self.config.xtypes, &xary)
                                     .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
+                                    .to_vec()
                             } else {
                                 x
                             };
-- 
2.43.0


From 71cd589ddbc2403610f11b70b2e7fde881371a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 09/11] fix: last best iteration missed an improvement by the
 first added point

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..9fe5a8d 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -458,7 +458,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From 97c5173facf5c8abff2caadcfb3216a4028d094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 10/11] fix: previous best index is kept up to date when no
 point can be added

---
 crates/ego/src/solver/solver_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 351f3ab..5f73ac4 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -507,6 +507,8 @@ where
                 if new_state.no_point_added_retries == 0 {
                     info!("Max number of retries ({}) without adding point", 3);
                     info!("Consider solver has converged");
+                    // no new best point at this iteration
+                    new_state.prev_best_index = state.best_index;
                     return Err(EgoError::NoMorePointToAddError(Box::new(new_state)));
                 }
             } else {
-- 
2.43.0


From e1790f30ec73c4fccff5f165c69099e5d33e54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 11/11] fix: hyperparameters reused between optimizations are
 the last optimized ones

---
 crates/ego/src/solver/solver_impl.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 5f73ac4..ead0bfa 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -243,9 +243,21 @@ where
 
                 builder.set_theta_tunings(&theta_tunings);
 
-                builder
+                let gp = builder
                     .train_on_clusters(xt.view(), yt.view(), clustering)
-                    .expect("GP training failure")
+                    .expect("GP training failure");
+                if optimize_theta && !self.config.coego.activated {
+                    // optimized hyperparameters are the ones to be reused
+                    best_theta_inits = Array2::from_shape_vec(
+                        (gp.experts().len(), gp.experts()[0].theta().len()),
+                        gp.experts()
+                            .iter()
+                            .flat_map(|expert| expert.theta().to_vec())
+                            .collect(),
+                    )
+                    .expect("Theta initialization failure");
+                }
+                gp
             };
 
             // CoEGO only in mono cluster, update theta if better likelihood
-- 
2.43.0

