From 89f0557a769830f1defb3622d92fd8bccaf49e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 01/46] fix: require finalize_structure() again after adding a
 variable or factor

add_variable/add_factor left structure_finalized_ set, so evaluating a graph
that had been extended after finalization used the outdated placements (null
factor dereference in compute_sparse_jacobian_matrix, short residual vector).
---
 src/factorama/factor_graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..32c321b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -13,6 +13,7 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        structure_finalized_ = false;
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -23,6 +24,7 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        structure_finalized_ = false;
     }
 
     Variable *FactorGraph::get_variable(int id) const
-- 
2.43.0


From eda6528b3b55d6a8a0af12f510af3797aadafd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 02/46] fix: finalize_structure() discards results of the
 previous structure

After re-finalizing with another layout the dense Jacobian kept its old size
and old entries, and the sparse one was refilled through a stale pattern. A
finalize that throws no longer leaves the graph marked as finalized.
---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 32c321b..53dacef 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -233,6 +233,12 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Results computed for the previous structure are no longer valid
+        structure_finalized_ = false;
+        jacobian_valid_ = false;
+        residual_valid_ = false;
+        sparse_jacobian_valid_ = false;
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From 1471f20c6ed6acda9e16c9d9fee7fe14ad34e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 03/46] fix: refuse a value vector of the wrong size in
 set_variable_values_from_vector

A short vector was read past its end and a long one silently truncated.
---
 src/factorama/factor_graph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 53dacef..78ba16f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -73,6 +73,17 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        int expected_size = 0;
+        for (const auto& var : variables_vector_) {
+            if (!var->is_constant()) {
+                expected_size += var->size();
+            }
+        }
+        if (x.size() != expected_size) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(expected_size) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From c6c3934033dd2d37de8280106bde15506755ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 04/46] fix: key factor placements by factor id

factor_placement(id) and factor_placement_map() are looked up by id but were
filled by insertion index, so they answered for the wrong factor or none.
---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 78ba16f..f604846 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -302,7 +302,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -320,7 +320,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -351,7 +351,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -401,7 +401,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            const auto& factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From da636667e79f3d78cc876f57d437eb5be4ae03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 05/46] fix: optimize() drops the covariance cache of the
 previous run

Optimizing again with the same optimizer kept the cached Hessian, so
prepare_to_estimate_covariances() returned early and covariances described the
older problem and estimate.
---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..516e9aa 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -148,6 +148,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // Covariances of an earlier solution no longer apply
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
-- 
2.43.0


From a269ffcea2b20ea72d53df23dfdf73458f29b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 06/46] fix: covariances use the Jacobian at the final estimate

The cached Jacobian of the last iteration is the one from before the last step
(and the call threw when no iteration had run).
---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 516e9aa..0103519 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -543,8 +543,8 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Compute the sparse jacobian at the current estimate
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
-- 
2.43.0


From aa52fe69907d552c93c4978d436e45af28ddcf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 07/46] fix: never report a covariance with a non-positive
 variance as valid

Rounding can make a singular information matrix slightly indefinite; only huge
positive variances were rejected.
---
 src/factorama/sparse_optimizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0103519..2a11796 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -658,6 +658,11 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
+        // A singular information matrix can come out slightly indefinite
+        if (P.diagonal().minCoeff() <= 0.0) {
+            return Eigen::MatrixXd();
+        }
+
         // TODO: Check P for nan, inf, and outlandishly large values.
 
         covariance_valid = true;
-- 
2.43.0


From 1c596ef07592b65be0d1c5503ef2a6176b2b0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 08/46] fix: covariance query after a structure change reads
 out of bounds

estimate_covariance() indexed the cached Hessian with placements of a
structure that was re-finalized (or a variable freed) after it was computed.
---
 src/factorama/sparse_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 2a11796..a959546 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -632,6 +632,14 @@ namespace factorama
         // Given the placement, grab the indices into the hessian
         int total_hessian_size = cached_hessian_.rows();
         int variable_size = placement.dim;
+
+        if (variable_size != variable->size() || placement.index + variable_size > total_hessian_size) {
+            if (settings_.verbose) {
+                std::cerr << "graph structure changed since the covariances were prepared" << std::endl;
+            }
+            return Eigen::MatrixXd();
+        }
+
         Eigen::MatrixXd B = Eigen::MatrixXd::Zero(total_hessian_size, variable_size);
 
         for (int i = 0; i < variable_size; i++) {
-- 
2.43.0


From d51e4a434e77b5f6f787194af1691eba8fe6bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 09/46] fix: Levenberg-Marquardt damping stays within
 max_lambda on failed solves

Only the rejected-step branch applied the limit; the factorization,
conditioning and solve failure branches grew lambda past max_lambda.
---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a959546..21e1838 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -361,6 +361,7 @@ namespace factorama
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -377,6 +378,7 @@ namespace factorama
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -389,6 +391,7 @@ namespace factorama
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 12702d3a9119f10645a11b150ce0d861e1b18f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 10/46] fix: a non-finite step or residual is not reported as
 SUCCESS

Comparisons with NaN are false, so Gauss-Newton ran on with NaN estimates until
the iteration limit and then reported a valid SUCCESS.
---
 src/factorama/sparse_optimizer.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 21e1838..d3e0d66 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -83,6 +83,15 @@ namespace factorama
             return;
         }
 
+        if (!dx.allFinite()) {
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+            if (settings_.verbose) {
+                std::cerr << "[SparseOptimizer] Step is not finite.\n";
+            }
+            return;
+        }
+
         dx *= settings_.learning_rate;
 
         // Step 4: Apply increment (todo - push this into the factor graph)
@@ -222,6 +231,11 @@ namespace factorama
                 break;
             }
 
+            // A residual that is not finite would pass all of the comparisons below
+            if (!std::isfinite(current_stats_.chi2)) {
+                break;
+            }
+
             // Check convergence based on step norm
             if (current_stats_.delta_norm < settings_.step_tolerance) {
                 if (settings_.verbose) {
@@ -272,6 +286,13 @@ namespace factorama
         auto end_time = std::chrono::high_resolution_clock::now();
         std::chrono::duration<double> elapsed_sec = end_time - start_time;
 
+        if (!std::isfinite(current_stats_.chi2)) {
+            current_stats_.valid = false;
+            if (current_stats_.status == OptimizerStatus::RUNNING) {
+                current_stats_.status = OptimizerStatus::DIVERGED;
+            }
+        }
+
         // Set final status if still RUNNING (max iterations reached)
         if (current_stats_.status == OptimizerStatus::RUNNING) {
             current_stats_.status = OptimizerStatus::SUCCESS;
-- 
2.43.0


From 01ccd73b3bbe78cfc39211ecee33b71f999162d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 11/46] fix: optimizing a graph without free variables no
 longer reads an empty matrix

vectorD().minCoeff() of a 0x0 factorization was evaluated (crash) when every
variable is constant or the graph is empty.
---
 src/factorama/sparse_optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index d3e0d66..0f58dc5 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -194,10 +194,13 @@ namespace factorama
             std::cout << "=================================\n";
         }
 
+        // Nothing to iterate on without free variables (empty graph, or all of them are constant)
+        const size_t max_iterations = graph_->num_values() > 0 ? settings_.max_num_iterations : 0;
+
         auto start_time = std::chrono::high_resolution_clock::now();
 
         // Main optimization loop (following SPARSE METHOD 2 pattern)
-        for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
+        for (size_t i = 0; i < max_iterations; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
 
             if (verbose_iteration) {
@@ -560,7 +563,7 @@ namespace factorama
             return;
         }
 
-        if (!optimization_complete_) {
+        if (!optimization_complete_ || graph_->num_values() == 0) {
 
             return;
         }
-- 
2.43.0


From 241a25300daa6b9a4c765c58c722ac01332c9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 12/46] fix: printing the Jacobian of a graph without residuals
 or free variables

print_jacobian_and_residual() indexed the singular values of an empty matrix.
---
 src/factorama/factor_graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f604846..f045c5a 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -538,9 +538,11 @@ namespace factorama
             }
         }
 
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
-        std::cout << "Jacobian rank: " << svd.rank() << "\n";
-        std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        if (cached_jacobian_.size() > 0) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
+            std::cout << "Jacobian rank: " << svd.rank() << "\n";
+            std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
+        }
 
         std::cout << "Residual norm: " << cached_residual_.norm() << "\n";
 
-- 
2.43.0


From 165567a9eee4c586981910564ed8dae7c6561a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 13/46] fix: sparse Jacobian without any entry can be computed
 more than once

The second call threw "valuePtr() returned null" when no factor depends on a
free variable.
---
 src/factorama/factor_graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index f045c5a..3b52632 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -695,6 +695,10 @@ namespace factorama
         int running_index = 0;
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
+        if (total_nonzeros == 0) {
+            return; // no factor depends on a free variable
+        }
+
         // Validate preconditions
         if (!values) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
-- 
2.43.0


From a654552f1e8e771f5f5884185d5c8cb285506e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 14/46] fix: Levenberg-Marquardt undoes a trial step whose
 evaluation throws

A factor throwing from compute_residual() at the trial point left the rejected
trial values in the variables.
---
 src/factorama/sparse_optimizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0f58dc5..251cbc0 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -456,7 +456,15 @@ namespace factorama
 
             // Step 5: Evaluate new cost
             residual_stopwatch_.start();
-            graph_->compute_full_residual_vector(residual2_);
+            try {
+                graph_->compute_full_residual_vector(residual2_);
+            } catch (...) {
+                // Do not keep a trial step that could not be evaluated
+                for (size_t i = 0; i < variables.size(); ++i) {
+                    variables[i]->set_value_from_vector(original_values[i]);
+                }
+                throw;
+            }
             residual_stopwatch_.stop();
             new_cost = 0.5 * residual2_.squaredNorm();
 
-- 
2.43.0


From 819c2fee45d9f7290d172df0d759176d967a43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 15/46] fix: Levenberg-Marquardt started at an optimum reports
 SUCCESS

No trial can lower the cost there, which was reported as FAILED or
ILL_CONDITIONED although the first step was already below the step tolerance.
---
 src/factorama/sparse_optimizer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 251cbc0..a6827d4 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -360,6 +360,7 @@ namespace factorama
         }
 
         bool step_accepted = false;
+        bool step_negligible = false;
         Eigen::VectorXd dx;
         double new_cost = current_cost;
         int lm_attempts = 0;
@@ -481,6 +482,11 @@ namespace factorama
                 }
             } else {
                 update_vars_stopwatch_.start();
+                // Already at the optimum (to within the step tolerance) if even the least damped step is negligible
+                if (lm_attempts == 0 && dx.norm() < settings_.step_tolerance) {
+                    step_negligible = true;
+                }
+
                 // Reject step: restore original values and increase damping
                 for (size_t i = 0; i < variables.size(); ++i) {
                     variables[i]->set_value_from_vector(original_values[i]);
@@ -511,8 +517,8 @@ namespace factorama
         if (!step_accepted) {
 
             double initial_cost = initial_stats_.chi2 * 0.5;
-            if (current_cost < initial_cost) {
-                // cost has gone down since the beginning, so we will call this a win
+            if (current_cost < initial_cost || step_negligible) {
+                // cost has gone down since the beginning (or cannot go down), so we will call this a win
                 current_stats_.valid = true;
                 current_stats_.status = OptimizerStatus::SUCCESS;
 
-- 
2.43.0


From ea7cfacddd4e1f54830663f8f14ce325a5053163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 16/46] fix: distance-scaled PlaneFactor uses the plane
 equation n.p + d = 0

PlaneVariable and the unscaled residual define the signed distance as
n.p + d; the scaled residual used n.p - d and so pulled points to the mirrored
plane.
---
 src/factorama/plane_factor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..65108f6 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -193,7 +193,7 @@ namespace factorama
             //
             // => dr/dn_tangent = (1/scale) * (p_tangent)^T
             //
-            // dr/dd = -1/scale
+            // dr/dd = 1/scale
 
             if (plane_var_->is_constant()) {
                 jacobians[1] = Eigen::MatrixXd();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From c3e367e12e2ead5aa31499610bebf1196f7eb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 17/46] fix: CoordinateTransformFactor writes past a Jacobian
 buffer of another size

A non-empty caller buffer without 5 elements was resized to 2 and then indexed
up to 4.
---
 src/factorama/coordinate_transform_factor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..875ca08 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -111,12 +111,12 @@ namespace factorama
             double scale = scale_AB_->value()[0];
             const Eigen::Vector3d& lm_B = lm_B_->value();
 
-            // Ensure jacobians vector has correct size for 2 variables
+            // Ensure jacobians vector has correct size for 5 variables
             if (jacobians_out.size() == 0) {
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From 504b733df1795663d5777b08c635f1a0d1c23bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 18/46] fix: GenericPriorFactor returns one Jacobian block for
 a constant variable

It appended a second block, so detailed_factor_test() failed healthy graphs
with a prior on a constant variable.
---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 7ce713e92233923057d39a0362aa034a02359a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 19/46] fix: variables refuse value vectors and increments of
 the wrong size

Pose, landmark and inverse-range variables took over a value of any size and
RotationVariable read past short vectors; the other variables already threw.
---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From 4b209158b4dde5e466fcf3653f57d97c32a040ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 20/46] fix: HuberKernel Jacobian is the derivative of the
 kernel

The derivative of sqrt(delta/||r||) was replaced by one of delta/||r||, and
empty blocks of constant variables were multiplied with the residual.
---
 src/factorama/kernels.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..48fbbd9 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -54,11 +54,14 @@ namespace factorama
                 return;
             }
 
-            // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
+            // Chain rule: w * J_r + r * (dw/d||r||) * (r^T * J_r) / ||r||, with dw/d||r|| = -0.5 * w / ||r||
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0


From 3524265af93490c03bef3943d4ac39bbe4b4859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 21/46] fix: Python objects keep the variables, factors and
 graphs they use alive

Factors held bare pointers to variables that Python could collect, and
get_variable()/Factor.variables() handed out wrappers that deleted variables
owned elsewhere (double free).
---
 .../python/factorama/_factorama.cpp           | 67 ++++++++++++-------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index fc0c348..67c3f09 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -94,7 +94,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("id", &factorama::Factor::id)
         .def("residual_size", &factorama::Factor::residual_size)
         .def("compute_residual", py::overload_cast<>(&factorama::Factor::compute_residual, py::const_))
-        .def("variables", &factorama::Factor::variables)
+        .def("variables", &factorama::Factor::variables, py::return_value_policy::reference_internal)
         .def("name", &factorama::Factor::name)
         .def("type", &factorama::Factor::type);
 
@@ -163,7 +163,8 @@ PYBIND11_MODULE(_factorama, m) {
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
 
     py::class_<factorama::GenericPriorFactor, 
@@ -171,78 +172,92 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
-             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
-             py::arg("sigma") = 1.0, py::arg("local_frame") = false);
+             py::arg("sigma") = 1.0, py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0);
+             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0);
+             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
-             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6);
+             py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0)
+             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
              py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
-             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"));
+             py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"),
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
              py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
-             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0);
+             py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0,
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
-             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0)
+             py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
 
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
@@ -250,7 +265,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a RangeBearingFactor2D",
              py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
-             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0)
+             py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("range_obs", &factorama::RangeBearingFactor2D::range_obs)
         .def("bearing_angle_obs", &factorama::RangeBearingFactor2D::bearing_angle_obs);
 
@@ -258,13 +274,15 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
              py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
-             py::arg("position_sigma"), py::arg("angle_sigma"));
+             py::arg("position_sigma"), py::arg("angle_sigma"),
+             py::keep_alive<1, 3>());
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
              py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
-             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false);
+             py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::CoordinateTransformFactor, std::shared_ptr<factorama::CoordinateTransformFactor>, factorama::Factor>(m, "CoordinateTransformFactor")
         .def(py::init<int, factorama::RotationVariable*, factorama::GenericVariable*,
@@ -273,7 +291,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a CoordinateTransformFactor",
              py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
              py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
-             py::arg("sigma") = 1.0)
+             py::arg("sigma") = 1.0,
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>())
         .def("weight", &factorama::CoordinateTransformFactor::weight);
 
     // Optimizer enums and settings
@@ -317,8 +336,8 @@ PYBIND11_MODULE(_factorama, m) {
     // Bind main classes
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
-        .def("add_variable", &factorama::FactorGraph::add_variable)
-        .def("add_factor", &factorama::FactorGraph::add_factor)
+        .def("add_variable", &factorama::FactorGraph::add_variable, py::keep_alive<1, 2>())
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -328,7 +347,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
              py::return_value_policy::reference)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
-        .def("get_variable", &factorama::FactorGraph::get_variable)
+        .def("get_variable", &factorama::FactorGraph::get_variable, py::return_value_policy::reference_internal)
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
         .def("get_all_factors", &factorama::FactorGraph::get_all_factors)
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
@@ -352,7 +371,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup)
+        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
-- 
2.43.0


From 7b7507ac6d45d10fe1c80775d8d5158c75b127f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 22/46] fix: arrays returned to Python are copies, not views of
 internal buffers

The views dangled once their owner was collected or the graph re-finalized,
changed with later computations, and some could be written through.
---
 .../python/factorama/_factorama.cpp           | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 67c3f09..8bd1b75 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -81,7 +81,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Variable, std::shared_ptr<factorama::Variable>>(m, "Variable", DOC(factorama, Variable))
         .def("id", &factorama::Variable::id, DOC(factorama, Variable, id))
         .def("size", &factorama::Variable::size)
-        .def("value", &factorama::Variable::value, py::return_value_policy::reference)
+        .def("value", &factorama::Variable::value, py::return_value_policy::copy)
         .def("set_value_from_vector", &factorama::Variable::set_value_from_vector)
         .def("apply_increment", &factorama::Variable::apply_increment)
         .def("type", &factorama::Variable::type)
@@ -125,16 +125,16 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Matrix3d&>(),
              "Create a RotationVariable with DCM",
              py::arg("id"), py::arg("dcm_AB"))
-        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::reference)
-        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::reference);
+        .def("dcm_AB", &factorama::RotationVariable::dcm_AB, py::return_value_policy::copy)
+        .def("rotation", &factorama::RotationVariable::rotation, py::return_value_policy::copy);
 
     py::class_<factorama::InverseRangeVariable, std::shared_ptr<factorama::InverseRangeVariable>, factorama::Variable>(m, "InverseRangeVariable")
         .def(py::init<int, const Eigen::Vector3d&, const Eigen::Vector3d&, double>(),
              "Create an InverseRangeVariable",
              py::arg("id"), py::arg("origin_pos_W"), py::arg("bearing_W"), py::arg("initial_range"))
         .def("pos_W", &factorama::InverseRangeVariable::pos_W)
-        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::reference)
-        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::reference)
+        .def("origin_pos_W", &factorama::InverseRangeVariable::origin_pos_W, py::return_value_policy::copy)
+        .def("bearing_W", &factorama::InverseRangeVariable::bearing_W, py::return_value_policy::copy)
         .def("inverse_range", &factorama::InverseRangeVariable::inverse_range)
         .def_readwrite("minimum_inverse_range", &factorama::InverseRangeVariable::minimum_inverse_range_)
         .def_readwrite("maximum_inverse_range", &factorama::InverseRangeVariable::maximum_inverse_range_);
@@ -143,7 +143,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, const Eigen::Vector3d&, double>(),
              "Create a PlaneVariable with normal vector and distance",
              py::arg("id"), py::arg("normal_vector"), py::arg("distance"))
-        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::reference)
+        .def("unit_vector", &factorama::PlaneVariable::unit_vector, py::return_value_policy::copy)
         .def("distance_from_origin", &factorama::PlaneVariable::distance_from_origin)
         .def("distance_from_point", &factorama::PlaneVariable::distance_from_point);
 
@@ -182,7 +182,7 @@ PYBIND11_MODULE(_factorama, m) {
              py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
-        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::reference);
+        .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::copy);
 
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
@@ -341,11 +341,11 @@ PYBIND11_MODULE(_factorama, m) {
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_matrix", &factorama::FactorGraph::compute_full_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_sparse_jacobian_matrix", &factorama::FactorGraph::compute_sparse_jacobian_matrix,
-             py::return_value_policy::reference)
+             py::return_value_policy::copy)
         .def("compute_full_jacobian_and_residual", &factorama::FactorGraph::compute_full_jacobian_and_residual)
         .def("get_variable", &factorama::FactorGraph::get_variable, py::return_value_policy::reference_internal)
         .def("get_all_variables", &factorama::FactorGraph::get_all_variables)
@@ -353,9 +353,9 @@ PYBIND11_MODULE(_factorama, m) {
         .def("get_variable_vector", &factorama::FactorGraph::get_variable_vector)
         .def("set_variable_values_from_vector", &factorama::FactorGraph::set_variable_values_from_vector)
         .def("apply_increment", &factorama::FactorGraph::apply_increment)
-        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::reference)
-        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::reference)
-        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::reference)
+        .def("jacobian", &factorama::FactorGraph::jacobian, py::return_value_policy::copy)
+        .def("sparse_jacobian", &factorama::FactorGraph::sparse_jacobian, py::return_value_policy::copy)
+        .def("residual", &factorama::FactorGraph::residual, py::return_value_policy::copy)
         .def("jacobian_valid", &factorama::FactorGraph::jacobian_valid)
         .def("residual_valid", &factorama::FactorGraph::residual_valid)
         .def("print_structure", &factorama::FactorGraph::print_structure)
-- 
2.43.0


From 676ef54a934888117f55165e1dd75cb147ebfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 23/46] fix: SparseOptimizer.settings() from Python keeps its
 optimizer alive

The returned settings pointed into an optimizer that could be collected.
---
 python_bindings/python/factorama/_factorama.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 8bd1b75..3bf9213 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -381,7 +381,7 @@ PYBIND11_MODULE(_factorama, m) {
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
            py::arg("variable"))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
-        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference)
+        .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
         .def_readwrite("current_stats", &factorama::SparseOptimizer::current_stats_);
 
-- 
2.43.0


From f654c12d23be013170aec2d3346c7220ce920e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 24/46] fix: plotting a graph with a BearingProjectionFactor2D
 (bearing_C_obs accessor)

---
 python_bindings/python/factorama/_factorama.cpp | 3 ++-
 python_bindings/python/factorama/_factorama.pyi | 2 ++
 src/factorama/bearing_projection_factor_2d.hpp  | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 3bf9213..24185f1 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -232,7 +232,8 @@ PYBIND11_MODULE(_factorama, m) {
              "Create a BearingProjectionFactor2D",
              py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
-             py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
+             py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
+        .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs);
 
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index e278786..1c14fc4 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -26,6 +26,8 @@ class BearingProjectionFactor2D(Factor):
         """
         Create a BearingProjectionFactor2D
         """
+    def bearing_C_obs(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[3, 1]"]:
+        ...
 class CoordinateTransformFactor(Factor):
     def __init__(self, id: typing.SupportsInt, rot_AB: RotationVariable, B_origin_A: GenericVariable, scale_AB: GenericVariable, lm_A: LandmarkVariable, lm_B: LandmarkVariable, sigma: typing.SupportsFloat = 1.0) -> None:
         """
diff --git a/src/factorama/bearing_projection_factor_2d.hpp b/src/factorama/bearing_projection_factor_2d.hpp
index 25c0250..a4caf9b 100644
--- a/src/factorama/bearing_projection_factor_2d.hpp
+++ b/src/factorama/bearing_projection_factor_2d.hpp
@@ -53,6 +53,8 @@ namespace factorama
 
         double weight() const { return weight_; }
 
+        Eigen::Vector3d bearing_C_obs() const { return bearing_C_observed_; }
+
         std::string name() const override
         {
             return "BearingProjection2D_" + std::to_string(id()) + "(" + pose_->name() + "," + landmark_->name() + ")";
-- 
2.43.0


From 3d85e7aabafb38e870e62a27a20b80c975c08d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 25/46] fix: detailed_factor_test fails a Jacobian with entries
 that are not finite

---
 src/factorama/factor_graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 3b52632..02fe85f 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -643,7 +643,8 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                // (an entry that is not a number would compare as smaller than any tolerance)
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From f3e3aff6d11ca4c9b01d6c0b57473e0bcc96d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 26/46] fix: numerical Jacobian restores the variable when the
 factor throws

---
 src/factorama/numerical_jacobian.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/factorama/numerical_jacobian.hpp b/src/factorama/numerical_jacobian.hpp
index 524e913..4bcd4a3 100644
--- a/src/factorama/numerical_jacobian.hpp
+++ b/src/factorama/numerical_jacobian.hpp
@@ -58,16 +58,23 @@ namespace factorama
                     Eigen::VectorXd dx = Eigen::VectorXd::Zero(var_dim);
                     dx[k] = epsilon;
 
-                    // Apply +epsilon
-                    var->apply_increment(dx);
-                    Eigen::VectorXd res_plus = factor.compute_residual();
+                    Eigen::VectorXd res_plus, res_minus;
+                    try {
+                        // Apply +epsilon
+                        var->apply_increment(dx);
+                        res_plus = factor.compute_residual();
 
-                    // Reset
-                    var->set_value_from_vector(x0);
+                        // Reset
+                        var->set_value_from_vector(x0);
 
-                    // Apply -epsilon
-                    var->apply_increment(-dx);
-                    Eigen::VectorXd res_minus = factor.compute_residual();
+                        // Apply -epsilon
+                        var->apply_increment(-dx);
+                        res_minus = factor.compute_residual();
+                    } catch (...) {
+                        // Do not leave the variable perturbed
+                        var->set_value_from_vector(x0);
+                        throw;
+                    }
 
                     // Reset again
                     var->set_value_from_vector(x0);
-- 
2.43.0


From f6717721252357e59398270e13952486d68630d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 27/46] fix: sparse Jacobian stays right after re-finalizing a
 graph that has shrunk

---
 src/factorama/factor_graph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 02fe85f..14c20ca 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -484,8 +484,9 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // later evaluations write the values back to back, so there must be no room between the columns (Eigen
+            // leaves some when it reuses the storage of a larger matrix, i.e. when the graph has shrunk)
+            sparse_jacobian_.makeCompressed();
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
-- 
2.43.0


From 7268e4abb78cf186cfb1c1113207d486a7b69037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 28/46] fix: Levenberg-Marquardt rollback does not write to
 constant variables

---
 src/factorama/sparse_optimizer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a6827d4..ec117e0 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -462,7 +462,9 @@ namespace factorama
             } catch (...) {
                 // Do not keep a trial step that could not be evaluated
                 for (size_t i = 0; i < variables.size(); ++i) {
-                    variables[i]->set_value_from_vector(original_values[i]);
+                    if (!variables[i]->is_constant()) {
+                        variables[i]->set_value_from_vector(original_values[i]);
+                    }
                 }
                 throw;
             }
@@ -489,7 +491,9 @@ namespace factorama
 
                 // Reject step: restore original values and increase damping
                 for (size_t i = 0; i < variables.size(); ++i) {
-                    variables[i]->set_value_from_vector(original_values[i]);
+                    if (!variables[i]->is_constant()) {
+                        variables[i]->set_value_from_vector(original_values[i]);
+                    }
                 }
 
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
-- 
2.43.0


From 75b33fcf7652524ad6ee5b72f1ffd090b36cc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 29/46] fix: Levenberg-Marquardt no longer reports success on a
 non-finite Jacobian

A NaN or infinite residual or Jacobian after the first accepted step made all
trials be rejected, which was then reported as a valid SUCCESS.
---
 src/factorama/sparse_optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index ec117e0..09dcad5 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -380,6 +380,16 @@ namespace factorama
             Eigen::VectorXd b = -J.transpose() * residual1_;
             hessian_stopwatch_.stop();
 
+            if (!b.allFinite()) {
+                // More damping cannot repair a residual or Jacobian that is not finite
+                current_stats_.valid = false;
+                current_stats_.status = OptimizerStatus::FAILED;
+                if (settings_.verbose) {
+                    std::cerr << "[LM] Residual or Jacobian is not finite.\n";
+                }
+                return;
+            }
+
             // Step 3: Solve damped system
             solve_stopwatch_.start();
             sparse_solver_.compute(H);
-- 
2.43.0


From 1cbc639a1ad0fb0bea5967faa0732ed21a1f772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 30/46] fix: covariance symmetrisation no longer reads what it
 has already overwritten

P = 0.5 * (P + P.transpose()) aliases in Eigen, so that the result was not
symmetric.
---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 09dcad5..4f5d9cf 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -730,7 +730,7 @@ namespace factorama
 
         covariance_valid = true;
         // Normalize P to be symmetric
-        P = 0.5 * (P + P.transpose());
+        P = (0.5 * (P + P.transpose())).eval();
         return P;
     }
 
-- 
2.43.0


From d7a99159c772f5a5eb263306b2a94d4c272e1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 31/46] fix: no covariance is reported where the information
 matrix is singular

The solver's answer for a singular matrix is arbitrary and was sometimes small
and positive enough to pass as a covariance. It is now checked against the
equations it is meant to solve.
---
 src/factorama/sparse_optimizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 4f5d9cf..b044d9e 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -709,6 +709,15 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
+        // With a singular information matrix there is no inverse, whatever the solver made up
+        if (!((cached_hessian_ * X - B).norm() < 1e-3)) {
+            if (settings_.verbose) {
+                std::cerr << "get covariance for variable " + variable->name() + ", information matrix is singular"
+                          << std::endl;
+            }
+            return Eigen::MatrixXd();
+        }
+
         Eigen::MatrixXd P = X.block(placement.index, 0, variable_size, variable_size);
 
         if (!P.allFinite()) {
-- 
2.43.0


From 09fd572dbf5e5c79815d64d25125ff69f7076384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 32/46] fix: evaluations after a changed constant flag corrupt
 memory until re-finalized; refuse them

---
 src/factorama/factor_graph.cpp | 30 ++++++++++++++++++++++++++----
 src/factorama/factor_graph.hpp |  1 +
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 14c20ca..ddf596b 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -27,6 +27,21 @@ namespace factorama
         structure_finalized_ = false;
     }
 
+    bool FactorGraph::structure_current() const
+    {
+        if (!structure_finalized_) {
+            return false;
+        }
+        // a variable made constant (or free) since finalize_structure() changes the layout
+        for (const auto& it : variable_placement_) {
+            const Variable *var = it.second.variable;
+            if (it.second.dim != (var->is_constant() ? 0 : var->size())) {
+                return false;
+            }
+        }
+        return true;
+    }
+
     Variable *FactorGraph::get_variable(int id) const
     {
         auto it = variables_map_.find(id);
@@ -65,9 +80,16 @@ namespace factorama
                                          ", Got: " + std::to_string(var->size()));
             }
 
+            if (offset + var->size() > x.size()) {
+                throw std::runtime_error("get_variable_vector: constant flags changed, call finalize_structure() first");
+            }
+
             x.segment(offset, var->size()) = var->value();
             offset += var->size();
         }
+        if (offset != x.size()) {
+            throw std::runtime_error("get_variable_vector: constant flags changed, call finalize_structure() first");
+        }
         return x;
     }
 
@@ -95,7 +117,7 @@ namespace factorama
 
     void FactorGraph::apply_increment(const Eigen::VectorXd& dx)
     {
-        if (!structure_finalized_) {
+        if (!structure_current()) {
             throw std::runtime_error("apply_increment: must call finalize_structure() first");
         }
 
@@ -165,7 +187,7 @@ namespace factorama
 
     Eigen::MatrixXd& FactorGraph::compute_full_jacobian_matrix()
     {
-        if (!structure_finalized_) {
+        if (!structure_current()) {
             throw std::runtime_error("Called 'compute_full_jacobian_matrix' before finalize_structure().");
         }
 
@@ -234,7 +256,7 @@ namespace factorama
 
     void FactorGraph::compute_full_jacobian_and_residual()
     {
-        if (!structure_finalized_) {
+        if (!structure_current()) {
             throw std::runtime_error("Called 'compute_full_jacobian_and_residual' before finalize_structure().");
         }
 
@@ -387,7 +409,7 @@ namespace factorama
 
     Eigen::SparseMatrix<double>& FactorGraph::compute_sparse_jacobian_matrix()
     {
-        if (!structure_finalized_) {
+        if (!structure_current()) {
             throw std::runtime_error("Called 'compute_sparse_jacobian_matrix' before finalize_structure().");
         }
 
diff --git a/src/factorama/factor_graph.hpp b/src/factorama/factor_graph.hpp
index 02b37ef..c410b00 100644
--- a/src/factorama/factor_graph.hpp
+++ b/src/factorama/factor_graph.hpp
@@ -224,6 +224,7 @@ namespace factorama
 
         // Structure bookkeeping
         bool structure_finalized_ = false;
+        bool structure_current() const; // finalized, and no variable has become constant or free since
         std::unordered_map<int, VariablePlacement> variable_placement_;
         std::unordered_map<int, FactorPlacement> factor_placement_;
 
-- 
2.43.0


From c46fef26ece80367a873f1544e765a2d1926bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 33/46] fix: no makeCompressed() on a sparse Jacobian without
 columns (all variables constant)

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index ddf596b..6e57887 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -508,7 +508,9 @@ namespace factorama
             }
             // later evaluations write the values back to back, so there must be no room between the columns (Eigen
             // leaves some when it reuses the storage of a larger matrix, i.e. when the graph has shrunk)
-            sparse_jacobian_.makeCompressed();
+            if (num_values_ > 0) {
+                sparse_jacobian_.makeCompressed(); // (Eigen reads out of bounds on a matrix without columns)
+            }
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
-- 
2.43.0


From 0125823c4cbd0ba08231c268aebb88a6ee2209ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 34/46] fix: print_jacobian_and_residual() crashed on a
 Jacobian with NaN (SVD rank of unusable factorisation)

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 6e57887..8798bbd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -563,7 +563,9 @@ namespace factorama
             }
         }
 
-        if (cached_jacobian_.size() > 0) {
+        if (!cached_jacobian_.allFinite()) {
+            std::cout << "  ⚠️  Jacobian has entries that are not finite\n";
+        } else if (cached_jacobian_.size() > 0) {
             Eigen::JacobiSVD<Eigen::MatrixXd> svd(cached_jacobian_);
             std::cout << "Jacobian rank: " << svd.rank() << "\n";
             std::cout << "Condition estimate: " << svd.singularValues()(0) / svd.singularValues().tail(1)(0) << "\n";
-- 
2.43.0


From 96b7e273a7eeba6b0827168129b460c58870ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 35/46] fix: stopwatch measures with a steady clock; setting
 the wall clock changed elapsed()

---
 src/factorama/stopwatch.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/stopwatch.hpp b/src/factorama/stopwatch.hpp
index 814b188..8b5f940 100644
--- a/src/factorama/stopwatch.hpp
+++ b/src/factorama/stopwatch.hpp
@@ -18,7 +18,7 @@ namespace factorama
                 return;
             }
             is_running_ = true;
-            start_time_ = std::chrono::high_resolution_clock::now();
+            start_time_ = std::chrono::steady_clock::now();
         }
 
         void stop()
@@ -26,7 +26,7 @@ namespace factorama
             if (!is_running_) {
                 return;
             }
-            auto end_time = std::chrono::high_resolution_clock::now();
+            auto end_time = std::chrono::steady_clock::now();
             std::chrono::duration<double> duration = end_time - start_time_;
             accumulated_time_ += duration.count();
             is_running_ = false;
@@ -42,7 +42,7 @@ namespace factorama
         {
             double total = accumulated_time_;
             if (is_running_) {
-                auto current_time = std::chrono::high_resolution_clock::now();
+                auto current_time = std::chrono::steady_clock::now();
                 std::chrono::duration<double> duration = current_time - start_time_;
                 total += duration.count();
             }
@@ -52,6 +52,6 @@ namespace factorama
     private:
         bool is_running_;
         double accumulated_time_;
-        std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+        std::chrono::time_point<std::chrono::steady_clock> start_time_;
     };
 } // namespace factorama
-- 
2.43.0


From af025e9fc5c9bc9d63efce1ab502a23f346186d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 36/46] fix: a sparse Jacobian without columns stays
 compressed, so that its Python conversion does not read out of bounds

---
 src/factorama/factor_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 8798bbd..393cb95 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -398,7 +398,9 @@ namespace factorama
 
         // Preallocate the sparse jacobian
         sparse_jacobian_ = Eigen::SparseMatrix<double>(num_residuals_, num_values_);
-        sparse_jacobian_.reserve(num_sparse_rows);
+        if (num_values_ > 0) {
+            sparse_jacobian_.reserve(num_sparse_rows); // (leaves a matrix without columns uncompressed, see below)
+        }
 
         sparse_jacobian_initialized_ = true;
 
-- 
2.43.0


From 1ea8cfc0c3ec4ddfc5f95ff15034f9da14128235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 37/46] fix: the Gauss-Newton log shows the residual norm
 before the step as the initial one

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index b044d9e..5e1a158 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -129,7 +129,7 @@ namespace factorama
             };
 
             std::cout << "\n[SparseGN] Iteration " << current_stats_.current_iteration << " Summary:\n";
-            std::cout << "  Initial residual norm: " << residual2_.norm() << "\n";
+            std::cout << "  Initial residual norm: " << residual1_.norm() << "\n";
             std::cout << "  Final residual norm:   " << current_stats_.residual_norm << "\n";
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
-- 
2.43.0


From 19b2779b400263fda48be97a87ac88a2186dab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 38/46] fix: the Jacobian time in the log of a run does not
 include earlier runs

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 5e1a158..789b45c 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -168,7 +168,7 @@ namespace factorama
         current_stats_.current_iteration = 0;
 
         residual_stopwatch_.reset();
-        residual_stopwatch_.reset();
+        jacobian_stopwatch_.reset();
         hessian_stopwatch_.reset();
         solve_stopwatch_.reset();
         update_vars_stopwatch_.reset();
-- 
2.43.0


From 41c8c0f1d8f04ba055231344352f709c9604534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 39/46] fix: the Levenberg-Marquardt log counts one attempt too
 many when no step is accepted

---
 src/factorama/sparse_optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 789b45c..8e34c2f 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -574,7 +574,7 @@ namespace factorama
             std::cout << "  Step norm (||dx||):    " << current_stats_.delta_norm << "\n";
             std::cout << "  chi²:                  " << current_stats_.chi2 << "\n";
             std::cout << "  Damping (λ):           " << current_stats_.damping_parameter << "\n";
-            std::cout << "  LM attempts:           " << lm_attempts + 1 << "\n";
+            std::cout << "  LM attempts:           " << lm_attempts + (step_accepted ? 1 : 0) << "\n";
             std::cout << "  Step accepted:         " << (step_accepted ? "YES" : "NO") << "\n";
             std::cout << "  J: " << J.rows() << " x " << J.cols() << " | nnz = " << J.nonZeros()
                       << " | density = " << 100.0 * J.nonZeros() / double(J.rows() * J.cols()) << " %\n";
-- 
2.43.0


From d4a8d7d92f620b912437af280c5fc43cf3a0b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 40/46] fix: refuse None for variables, factors and graphs in
 the Python module

---
 .../python/factorama/_factorama.cpp           | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/python_bindings/python/factorama/_factorama.cpp b/python_bindings/python/factorama/_factorama.cpp
index 24185f1..c6b2d7c 100644
--- a/python_bindings/python/factorama/_factorama.cpp
+++ b/python_bindings/python/factorama/_factorama.cpp
@@ -162,7 +162,7 @@ PYBIND11_MODULE(_factorama, m) {
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*,
                       const Eigen::Vector3d&, double>(),
              "Create a BearingObservationFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingObservationFactor::bearing_C_obs);
@@ -172,14 +172,14 @@ PYBIND11_MODULE(_factorama, m) {
                factorama::Factor>(m, "GenericPriorFactor")
         .def(py::init<int, factorama::Variable*, const Eigen::VectorXd&, double>(),
              "Create a GenericPriorFactor",
-             py::arg("id"), py::arg("variable"), py::arg("prior_value"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("variable").none(false), py::arg("prior_value"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::InverseRangeBearingFactor, std::shared_ptr<factorama::InverseRangeBearingFactor>, factorama::Factor>(m, "InverseRangeBearingFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::InverseRangeVariable*, 
                       const Eigen::Vector3d&, double>(),
              "Create an InverseRangeBearingFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("inverse_range_var"), 
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("inverse_range_var").none(false), 
              py::arg("bearing_C_observed"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::InverseRangeBearingFactor::bearing_C_obs, py::return_value_policy::copy);
@@ -187,50 +187,50 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::GenericBetweenFactor, std::shared_ptr<factorama::GenericBetweenFactor>, factorama::Factor>(m, "GenericBetweenFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double>(),
              "Create a GenericBetweenFactor",
-             py::arg("id"), py::arg("var_a"), py::arg("var_b"), py::arg("measured_diff"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("var_a").none(false), py::arg("var_b").none(false), py::arg("measured_diff").none(false), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::LinearVelocityFactor, std::shared_ptr<factorama::LinearVelocityFactor>, factorama::Factor>(m, "LinearVelocityFactor")
         .def(py::init<int, factorama::Variable*, factorama::Variable*, factorama::Variable*, double, double>(),
              "Create a LinearVelocityFactor",
-             py::arg("id"), py::arg("var_1"), py::arg("var_2"), py::arg("velocity_variable"), py::arg("dt"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("var_1").none(false), py::arg("var_2").none(false), py::arg("velocity_variable").none(false), py::arg("dt"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PosePositionPriorFactor, std::shared_ptr<factorama::PosePositionPriorFactor>, factorama::Factor>(m, "PosePositionPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Vector3d&, double>(),
              "Create a PosePositionPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("pos_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("pose").none(false), py::arg("pos_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::PoseOrientationPriorFactor, std::shared_ptr<factorama::PoseOrientationPriorFactor>, factorama::Factor>(m, "PoseOrientationPriorFactor")
         .def(py::init<int, factorama::PoseVariable*, const Eigen::Matrix3d&, double>(),
              "Create a PoseOrientationPriorFactor",
-             py::arg("id"), py::arg("pose"), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("pose").none(false), py::arg("rotvec_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::PosePositionBetweenFactor, std::shared_ptr<factorama::PosePositionBetweenFactor>, factorama::Factor>(m, "PosePositionBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::Variable*, double, bool>(),
              "Create a PosePositionBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_diff"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_diff").none(false),
              py::arg("sigma") = 1.0, py::arg("local_frame") = false,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::PoseOrientationBetweenFactor, std::shared_ptr<factorama::PoseOrientationBetweenFactor>, factorama::Factor>(m, "PoseOrientationBetweenFactor")
         .def(py::init<int, factorama::PoseVariable*, factorama::PoseVariable*, factorama::RotationVariable*, double>(),
              "Create a PoseOrientationBetweenFactor",
-             py::arg("id"), py::arg("pose1"), py::arg("pose2"), py::arg("calibration_rotation_12"), py::arg("angle_sigma") = 1.0,
+             py::arg("id"), py::arg("pose1").none(false), py::arg("pose2").none(false), py::arg("calibration_rotation_12").none(false), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
     py::class_<factorama::RotationPriorFactor, std::shared_ptr<factorama::RotationPriorFactor>, factorama::Factor>(m, "RotationPriorFactor")
         .def(py::init<int, factorama::RotationVariable*, const Eigen::Matrix3d&, double>(),
              "Create a RotationPriorFactor",
-             py::arg("id"), py::arg("rotation"), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("rotation").none(false), py::arg("dcm_AB_prior"), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingProjectionFactor2D, std::shared_ptr<factorama::BearingProjectionFactor2D>, factorama::Factor>(m, "BearingProjectionFactor2D")
         .def(py::init<int, factorama::PoseVariable*, factorama::LandmarkVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a BearingProjectionFactor2D",
-             py::arg("id"), py::arg("pose"), py::arg("landmark"), py::arg("bearing_C_observed"),
+             py::arg("id"), py::arg("pose").none(false), py::arg("landmark").none(false), py::arg("bearing_C_observed"),
              py::arg("sigma") = 1.0, py::arg("along_tolerance_epsilon") = 1e-6,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_C_obs", &factorama::BearingProjectionFactor2D::bearing_C_obs);
@@ -238,25 +238,25 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::PlaneFactor, std::shared_ptr<factorama::PlaneFactor>, factorama::Factor>(m, "PlaneFactor")
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double>(),
              "Create a PlaneFactor",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma") = 1.0,
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def(py::init<int, factorama::Variable*, factorama::PlaneVariable*, double, bool, double, const Eigen::Vector3d&>(),
              "Create a PlaneFactor with distance scaling",
-             py::arg("id"), py::arg("point_var"), py::arg("plane_var"), py::arg("sigma"),
+             py::arg("id"), py::arg("point_var").none(false), py::arg("plane_var").none(false), py::arg("sigma"),
              py::arg("do_distance_scaling"), py::arg("dist_scaling_r0"), py::arg("dist_scaling_p0"),
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
     py::class_<factorama::PlanePriorFactor, std::shared_ptr<factorama::PlanePriorFactor>, factorama::Factor>(m, "PlanePriorFactor")
         .def(py::init<int, factorama::PlaneVariable*, const Eigen::Vector3d&, double, double, double>(),
              "Create a PlanePriorFactor",
-             py::arg("id"), py::arg("plane"), py::arg("normal_prior"), py::arg("distance_prior"),
+             py::arg("id"), py::arg("plane").none(false), py::arg("normal_prior"), py::arg("distance_prior"),
              py::arg("normal_sigma") = 1.0, py::arg("distance_sigma") = 1.0,
              py::keep_alive<1, 3>());
 
     py::class_<factorama::BearingObservationFactor2D, std::shared_ptr<factorama::BearingObservationFactor2D>, factorama::Factor>(m, "BearingObservationFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double>(),
              "Create a BearingObservationFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("bearing_angle_obs"), py::arg("angle_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
         .def("bearing_angle_obs", &factorama::BearingObservationFactor2D::bearing_angle_obs);
@@ -264,7 +264,7 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::RangeBearingFactor2D, std::shared_ptr<factorama::RangeBearingFactor2D>, factorama::Factor>(m, "RangeBearingFactor2D")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Variable*, double, double, double, double>(),
              "Create a RangeBearingFactor2D",
-             py::arg("id"), py::arg("pose_var"), py::arg("landmark_var"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("landmark_var").none(false),
              py::arg("range_obs"), py::arg("bearing_angle_obs"),
              py::arg("range_sigma") = 1.0, py::arg("bearing_sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>())
@@ -274,14 +274,14 @@ PYBIND11_MODULE(_factorama, m) {
     py::class_<factorama::Pose2DPriorFactor, std::shared_ptr<factorama::Pose2DPriorFactor>, factorama::Factor>(m, "Pose2DPriorFactor")
         .def(py::init<int, factorama::Pose2DVariable*, const Eigen::Vector3d&, double, double>(),
              "Create a Pose2DPriorFactor",
-             py::arg("id"), py::arg("pose_var"), py::arg("pose_prior"),
+             py::arg("id"), py::arg("pose_var").none(false), py::arg("pose_prior"),
              py::arg("position_sigma"), py::arg("angle_sigma"),
              py::keep_alive<1, 3>());
 
     py::class_<factorama::Pose2DBetweenFactor, std::shared_ptr<factorama::Pose2DBetweenFactor>, factorama::Factor>(m, "Pose2DBetweenFactor")
         .def(py::init<int, factorama::Pose2DVariable*, factorama::Pose2DVariable*, factorama::Variable*, double, double, bool>(),
              "Create a Pose2DBetweenFactor",
-             py::arg("id"), py::arg("pose_a"), py::arg("pose_b"), py::arg("measured_between_variable"),
+             py::arg("id"), py::arg("pose_a").none(false), py::arg("pose_b").none(false), py::arg("measured_between_variable").none(false),
              py::arg("position_sigma"), py::arg("angle_sigma"), py::arg("local_frame") = false,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>());
 
@@ -290,8 +290,8 @@ PYBIND11_MODULE(_factorama, m) {
                       factorama::GenericVariable*, factorama::LandmarkVariable*,
                       factorama::LandmarkVariable*, double>(),
              "Create a CoordinateTransformFactor",
-             py::arg("id"), py::arg("rot_AB"), py::arg("B_origin_A"),
-             py::arg("scale_AB"), py::arg("lm_A"), py::arg("lm_B"),
+             py::arg("id"), py::arg("rot_AB").none(false), py::arg("B_origin_A").none(false),
+             py::arg("scale_AB").none(false), py::arg("lm_A").none(false), py::arg("lm_B").none(false),
              py::arg("sigma") = 1.0,
              py::keep_alive<1, 3>(), py::keep_alive<1, 4>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>(), py::keep_alive<1, 7>())
         .def("weight", &factorama::CoordinateTransformFactor::weight);
@@ -337,8 +337,8 @@ PYBIND11_MODULE(_factorama, m) {
     // Bind main classes
     py::class_<factorama::FactorGraph, std::shared_ptr<factorama::FactorGraph>>(m, "FactorGraph")
         .def(py::init<>())
-        .def("add_variable", &factorama::FactorGraph::add_variable, py::keep_alive<1, 2>())
-        .def("add_factor", &factorama::FactorGraph::add_factor, py::keep_alive<1, 2>())
+        .def("add_variable", &factorama::FactorGraph::add_variable, py::arg().none(false), py::keep_alive<1, 2>())
+        .def("add_factor", &factorama::FactorGraph::add_factor, py::arg().none(false), py::keep_alive<1, 2>())
         .def("finalize_structure", &factorama::FactorGraph::finalize_structure)
         .def("compute_full_residual_vector",
              py::overload_cast<>(&factorama::FactorGraph::compute_full_residual_vector),
@@ -372,7 +372,7 @@ PYBIND11_MODULE(_factorama, m) {
 
     py::class_<factorama::SparseOptimizer>(m, "SparseOptimizer")
         .def(py::init<>())
-        .def("setup", &factorama::SparseOptimizer::setup, py::keep_alive<1, 2>())
+        .def("setup", &factorama::SparseOptimizer::setup, py::arg().none(false), py::arg(), py::keep_alive<1, 2>())
         .def("optimize", &factorama::SparseOptimizer::optimize)
         .def("prepare_to_estimate_covariances", &factorama::SparseOptimizer::prepare_to_estimate_covariances)
         .def("estimate_covariance", [](factorama::SparseOptimizer& self, const factorama::Variable* variable) {
@@ -380,7 +380,7 @@ PYBIND11_MODULE(_factorama, m) {
             auto result = self.estimate_covariance(variable, valid);
             return std::make_tuple(result, valid);
         }, "Estimate covariance matrix for a specific variable, returns (matrix, valid)",
-           py::arg("variable"))
+           py::arg("variable").none(false))
         .def("print_all_covariances", &factorama::SparseOptimizer::print_all_covariances)
         .def("settings", &factorama::SparseOptimizer::settings, py::return_value_policy::reference_internal)
         .def_readwrite("initial_stats", &factorama::SparseOptimizer::initial_stats_)
-- 
2.43.0


From ae85f0e1f66646f4823d4868045c534ed12b3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 41/46] fix: type stubs of FactorGraph.get_variable and
 PlotFactorGraph match the module

---
 python_bindings/python/factorama/__init__.pyi   | 4 +++-
 python_bindings/python/factorama/_factorama.pyi | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_bindings/python/factorama/__init__.pyi b/python_bindings/python/factorama/__init__.pyi
index c1d1b18..cb9180c 100644
--- a/python_bindings/python/factorama/__init__.pyi
+++ b/python_bindings/python/factorama/__init__.pyi
@@ -50,7 +50,9 @@ def PlotFactorGraph(
     axis_handle: Optional[Any] = None,
     plot_covariance: bool = False,
     optimizer: Optional[SparseOptimizer] = None,
-    plot_3d: bool = True
+    plot_3d: bool = True,
+    plot_measurements: bool = True,
+    plot_between_factors: bool = True
 ) -> Any: ...
 
 __all__: list[str] = ['BearingObservationFactor', 'BearingObservationFactor2D', 'BearingProjectionFactor2D', 'CoordinateTransformFactor', 'ExpMapSO3', 'Factor', 'FactorGraph', 'FactorType', 'GenericBetweenFactor', 'GenericPriorFactor', 'GenericVariable', 'InverseRangeBearingFactor', 'InverseRangeVariable', 'LandmarkVariable', 'LinearVelocityFactor', 'LogMapSO3', 'OptimizerMethod', 'OptimizerSettings', 'OptimizerStats', 'OptimizerStatus', 'PlaneFactor', 'PlanePriorFactor', 'PlaneVariable', 'PlotFactorGraph', 'Pose2DBetweenFactor', 'Pose2DPriorFactor', 'Pose2DVariable', 'PoseOrientationBetweenFactor', 'PoseOrientationPriorFactor', 'PosePositionBetweenFactor', 'PosePositionPriorFactor', 'PoseVariable', 'RangeBearingFactor2D', 'RotationPriorFactor', 'RotationVariable', 'SparseOptimizer', 'Variable', 'VariableType']
diff --git a/python_bindings/python/factorama/_factorama.pyi b/python_bindings/python/factorama/_factorama.pyi
index 1c14fc4..d6fabc1 100644
--- a/python_bindings/python/factorama/_factorama.pyi
+++ b/python_bindings/python/factorama/_factorama.pyi
@@ -73,7 +73,7 @@ class FactorGraph:
         ...
     def get_all_variables(self) -> list[Variable]:
         ...
-    def get_variable(self, arg0: typing.SupportsInt) -> Variable:
+    def get_variable(self, arg0: typing.SupportsInt) -> typing.Optional[Variable]:
         ...
     def get_variable_vector(self) -> typing.Annotated[numpy.typing.NDArray[numpy.float64], "[m, 1]"]:
         ...
-- 
2.43.0


From ce34a520368a1b0ba0ab0bb23a91aa39172990c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 42/46] fix: refuse covariances that rest on rounding alone,
 whatever the scale of the problem

---
 src/factorama/sparse_optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 8e34c2f..d2f186d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -730,6 +730,13 @@ namespace factorama
             return Eigen::MatrixXd();
         }
 
+        // Neither is there one when all that a component is known by cancels but for rounding
+        for (int i = 0; i < variable_size; i++) {
+            if (P(i, i) * cached_hessian_.coeff(placement.index + i, placement.index + i) > 1e12) {
+                return Eigen::MatrixXd();
+            }
+        }
+
         // A singular information matrix can come out slightly indefinite
         if (P.diagonal().minCoeff() <= 0.0) {
             return Eigen::MatrixXd();
-- 
2.43.0


From ef376482db20a945fbf2645a3fd3b3c4308645b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 43/46] fix: print_all_covariances() without a graph is refused
 instead of crashing

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index d2f186d..404341e 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -752,6 +752,10 @@ namespace factorama
 
     void SparseOptimizer::print_all_covariances()
     {
+        if (!graph_) {
+            throw std::runtime_error("[SparseOptimizer] No factor graph set.");
+        }
+
         if (!cached_hessian_valid_for_covariance_est_) {
             prepare_to_estimate_covariances();
         }
-- 
2.43.0


From 67addbd0240ec75740385c535432e905cbf979a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 44/46] fix: BearingProjectionFactor2D's Jacobian of a landmark
 at the camera is zero as its residual says, not NaN

---
 src/factorama/bearing_projection_factor_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/bearing_projection_factor_2d.cpp b/src/factorama/bearing_projection_factor_2d.cpp
index 7b8cc3e..02012af 100644
--- a/src/factorama/bearing_projection_factor_2d.cpp
+++ b/src/factorama/bearing_projection_factor_2d.cpp
@@ -111,7 +111,7 @@ namespace factorama
         // (unit vector)
         Eigen::Vector3d pos_C = dcm_CW * (pos_W - pos_W_cam);
         double pos_C_norm = pos_C.norm();
-        Eigen::Vector3d bearing_C = pos_C / pos_C_norm;
+        Eigen::Vector3d bearing_C = pos_C.normalized();
 
         // Compute along-ray depth
         double depth = bearing_C_observed_.dot(bearing_C);
-- 
2.43.0


From 7ba83fbd955497c7b5fb0d4b846b666ad35f2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:57 +0000
Subject: [PATCH 45/46] fix: a factor's variable is in the graph only if it is
 the object the graph holds, not another with its id

---
 src/factorama/factor_graph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 393cb95..ee4ed9e 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -221,7 +221,7 @@ namespace factorama
 
                 bool var_valid = false;
                 auto var_placement = variable_placement(var->id(), var_valid);
-                if (!var_valid) {
+                if (!var_valid || var_placement.variable != var) {
                     std::cerr << "var id: " << var->id() << "not found" << std::endl;
                     continue;
                 }
@@ -314,7 +314,7 @@ namespace factorama
 
                 bool var_placement_valid;
                 auto var_placement = variable_placement(var->id(), var_placement_valid);
-                if (!var_placement_valid) {
+                if (!var_placement_valid || var_placement.variable != var) {
                     throw std::runtime_error("Variable placement not found for variable: " + var->name() +
                                              ". Variable may not have been added to the factor graph.");
                 }
@@ -441,7 +441,7 @@ namespace factorama
 
                 bool var_valid = false;
                 auto var_placement = variable_placement(var->id(), var_valid);
-                if (!var_valid) {
+                if (!var_valid || var_placement.variable != var) {
                     std::cerr << "var id: " << var->id() << " not found" << std::endl;
                     continue;
                 }
-- 
2.43.0


From 210e4822fcdb699c85d6b990c8bcb9f80285bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:27 +0000
Subject: [PATCH 46/46] fix: finalize_structure() refuses a factor that names a
 free variable twice instead of misplacing its Jacobian

---
 src/factorama/factor_graph.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index ee4ed9e..87fadcd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -1,5 +1,6 @@
 #include "factorama/factor_graph.hpp"
 #include "factorama/numerical_jacobian.hpp"
+#include <algorithm>
 #include <stdexcept>
 #include <iostream>
 
@@ -303,7 +304,8 @@ namespace factorama
             placement.residual_index = row_offset;
             placement.residual_dim = factor->residual_size();
 
-            for (const auto& var : factor->variables()) {
+            const std::vector<Variable *> factor_variables = factor->variables();
+            for (const auto& var : factor_variables) {
                 if (var == nullptr) {
                     throw std::runtime_error("Factor: " + factor->name() + "variable was null");
                 }
@@ -312,6 +314,12 @@ namespace factorama
                     continue;
                 }
 
+                // (its Jacobian blocks would be written over each other)
+                if (std::count(factor_variables.begin(), factor_variables.end(), var) > 1) {
+                    throw std::runtime_error("Factor: " + factor->name() + " names the variable " + var->name() +
+                                             " more than once");
+                }
+
                 bool var_placement_valid;
                 auto var_placement = variable_placement(var->id(), var_placement_valid);
                 if (!var_placement_valid || var_placement.variable != var) {
-- 
2.43.0

