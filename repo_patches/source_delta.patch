From f3df821cf5bf8ff68ffd8ee19c755856fcf41e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 1/8] fix: a NaN residual is not a converged residual

---
 src/solver_n_dimensional/solver/rootfinder.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..e94f3b2 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,18 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// Largest error, a `NaN` error counting as an infinite one
+    ///
+    /// `amax()` skips the `NaN` values and any comparison with a `NaN` is false:
+    /// without this, invalid residuals would be seen as converged ones.
+    fn max_error(errors: &nalgebra::OVector<f64, D>) -> f64 {
+        if errors.iter().any(|error| error.is_nan()) {
+            f64::INFINITY
+        } else {
+            errors.amax()
+        }
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -307,7 +319,7 @@ where
     ) where
         M: model::Model<D>,
     {
-        let max_error_next = errors_next.amax();
+        let max_error_next = Self::max_error(errors_next);
         if max_error_next > max_error {
             // see documentation of the `SolverParameters` struct
             if self.parameters.get_resolution_method() != ResolutionMethod::NewtonRaphson
@@ -341,7 +353,7 @@ where
         M: model::Model<D>,
     {
         let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = Self::max_error(&errors);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -406,7 +418,7 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
+        let mut max_error = Self::max_error(&errors);
 
         if self.debug {
             self.parameters_to_log();
@@ -437,7 +449,7 @@ where
                 }
             }
 
-            max_error = errors.amax();
+            max_error = Self::max_error(&errors);
         }
 
         if max_error > self.parameters.get_tolerance() {
-- 
2.43.0


From c4e979a55f97653d3ccc547e95da636392a62ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 2/8] fix: an inaccurate initial evaluation cannot be a
 solution

---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index e94f3b2..101dd60 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -408,8 +408,8 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => self.valid_last_model_evaluation = true,
+            Err(ModelError::InaccurateValuesError(_)) => self.valid_last_model_evaluation = false,
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From 873d9f4acf95dc1a992167634af69412f5fcd614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 3/8] fix: a model error during the damping does not panic

---
 src/solver_n_dimensional/solver/rootfinder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 101dd60..8941d22 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -316,7 +316,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = Self::max_error(errors_next);
@@ -334,7 +335,16 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                match model.evaluate() {
+                    Ok(()) => self.valid_last_model_evaluation = true,
+                    Err(ModelError::InaccurateValuesError(_)) => {
+                        self.valid_last_model_evaluation = false
+                    }
+                    Err(e) => {
+                        self.valid_last_model_evaluation = false;
+                        return Err(errors::SolverError::ModelEvaluationError(e));
+                    }
+                }
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -342,6 +352,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -382,7 +394,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From aafbb473064bd4751d13810f4538a418afc7c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 4/8] fix: a jacobian that the model could not provide is an
 error, not a panic

---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 8941d22..c2cb611 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -171,7 +171,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -184,14 +184,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From 9faac44d3d2834f35a19fefdcdfcff5413174af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 5/8] fix: a new resolution starts from a fresh state

---
 src/solver_n_dimensional/solver/rootfinder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index c2cb611..9e2b7ac 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -407,6 +407,13 @@ where
     where
         M: model::Model<D>,
     {
+        // Nothing from a previous resolution must remain
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From 25b4b8a046e95de2ffce80db1e89b30c25138f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 6/8] fix: the iterative parameters cannot be NaN

---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From 4d95943f7983b239ad2fb895671c94a086bbc7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 7/8] fix: the quasi-Newton updates use the residuals, not the
 stopping criteria

---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 9e2b7ac..7879446 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -359,6 +359,9 @@ where
         let errors = self.evaluate_errors(model);
         let max_error = Self::max_error(&errors);
         let current_guess = model.get_iteratives();
+        let residuals = self
+            .residuals_config
+            .evaluate_update_residuals(&model.get_residuals());
 
         model.set_iteratives(proposed_guess);
         match model.evaluate() {
@@ -394,8 +397,11 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                let residuals_next = self
+                    .residuals_config
+                    .evaluate_update_residuals(&model.get_residuals());
+                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_values_current = Some(residuals_next)
             }
         };
 
-- 
2.43.0


From 9af2b2ea89d23835f7e620bffa39f0bf3e20b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 8/8] fix: iterate from the current guess after a
 finite-difference jacobian

The finite differences leave the model at its last perturbed point. The step
limits, the damping (error compared with, middle point) and the quasi-Newton
steps were taken from that point instead of the current iterate.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 55 +++++++++++++------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 7879446..adb9741 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -190,6 +190,7 @@ where
     fn compute_newton_raphson_step<M>(
         &mut self,
         model: &mut M,
+        current_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, crate::errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -200,7 +201,7 @@ where
             self.jac_to_log();
         }
         match successful_jac_computation {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, current_guess)),
             Err(error) => Err(error),
         }
     }
@@ -271,12 +272,13 @@ where
         &mut self,
         model: &mut M,
         resolution_method: QuasiNewtonMethod,
+        current_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, crate::errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
     {
         match self.evaluate_jacobian_quasi_newton_step(model, resolution_method) {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, current_guess)),
             Err(crate::errors::SolverInternalError::InvalidJacobianError(error)) => Err(
                 crate::errors::SolverInternalError::InvalidJacobianError(error),
             ),
@@ -286,7 +288,11 @@ where
         }
     }
 
-    fn compute_next_from_inv_jac<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    fn compute_next_from_inv_jac<M>(
+        &self,
+        model: &M,
+        current_guess: &nalgebra::OVector<f64, D>,
+    ) -> nalgebra::OVector<f64, D>
     where
         M: model::Model<D>,
     {
@@ -294,11 +300,13 @@ where
             .residuals_config
             .evaluate_update_residuals(&model.get_residuals());
 
-        let raw_step = -self.jacobian.get_inverse().as_ref().unwrap() * residuals;
+        // After a finite-difference jacobian, the residuals are the ones of the last
+        // perturbed point: the step is still to be limited from the current guess
+        let model_offset = model.get_iteratives() - current_guess;
 
-        let iter_values = model.get_iteratives();
+        let raw_step = model_offset - self.jacobian.get_inverse().as_ref().unwrap() * residuals;
 
-        self.iters_params.step_limitations(&iter_values, &raw_step)
+        self.iters_params.step_limitations(current_guess, &raw_step)
     }
 
     fn damping<M>(
@@ -351,18 +359,14 @@ where
     fn update_model<M>(
         &mut self,
         model: &mut M,
+        max_error: f64,
+        current_guess: &nalgebra::OVector<f64, D>,
+        current_residuals: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = Self::max_error(&errors);
-        let current_guess = model.get_iteratives();
-        let residuals = self
-            .residuals_config
-            .evaluate_update_residuals(&model.get_residuals());
-
         model.set_iteratives(proposed_guess);
         match model.evaluate() {
             Ok(()) => {
@@ -386,7 +390,7 @@ where
             self.damping(
                 model,
                 max_error,
-                &current_guess,
+                current_guess,
                 proposed_guess,
                 &mut errors_next,
             )?;
@@ -400,7 +404,7 @@ where
                 let residuals_next = self
                     .residuals_config
                     .evaluate_update_residuals(&model.get_residuals());
-                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_step_size = Some(&residuals_next - current_residuals);
                 self.residuals_values_current = Some(residuals_next)
             }
         };
@@ -449,15 +453,30 @@ where
         {
             self.iter += 1;
 
+            // To be read before a finite-difference jacobian, which leaves the model
+            // at its last perturbed point
+            let current_guess = model.get_iteratives();
+            let current_residuals = self
+                .residuals_config
+                .evaluate_update_residuals(&model.get_residuals());
+
             let proposed_guess = match self.parameters.get_resolution_method() {
-                ResolutionMethod::NewtonRaphson => self.compute_newton_raphson_step(model),
+                ResolutionMethod::NewtonRaphson => {
+                    self.compute_newton_raphson_step(model, &current_guess)
+                }
                 ResolutionMethod::QuasiNewton(quasi_newton_method) => {
-                    self.compute_quasi_newton_step(model, quasi_newton_method)
+                    self.compute_quasi_newton_step(model, quasi_newton_method, &current_guess)
                 }
             };
 
             match proposed_guess {
-                Ok(value) => match self.update_model(model, &value) {
+                Ok(value) => match self.update_model(
+                    model,
+                    max_error,
+                    &current_guess,
+                    &current_residuals,
+                    &value,
+                ) {
                     Ok(value) => errors = value,
                     Err(e) => return Err(e),
                 },
-- 
2.43.0

