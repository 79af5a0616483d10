From c99265e329f86afd443126d99fee3ccf8661966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 01/37] fix: give OffsetParameter an initial internal state

---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From 0c43ccc3414d7535d2794d1fa7361c941ba7fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 02/37] fix: return errors from parallel and batched steps
 instead of panicking

---
 pywr-core/src/network.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..e1188ba 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -830,7 +830,7 @@ impl Network {
         S: Solver,
     {
         // Collect all the timings from each parallel solve
-        let step_times: Vec<_> = scenario_indices
+        let step_times: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -841,14 +841,13 @@ impl Network {
                     // TODO clear the current parameter values state (i.e. set them all to zero).
 
                     let start_p_calc = Instant::now();
-                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)
-                        .unwrap();
+                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)?;
 
                     // State now contains updated parameter values BUT original network state
                     let mut parameter_calculation = start_p_calc.elapsed();
 
                     // Solve determines the new network state
-                    let solve_timings = solver.solve(self, timestep, current_state).unwrap();
+                    let solve_timings = solver.solve(self, timestep, current_state)?;
                     // State now contains updated parameter values AND updated network state
 
                     // Now run the "after" method on all components
@@ -860,18 +859,18 @@ impl Network {
                         p_internal_state,
                         ms_internal_state,
                         None,
-                    )
-                    .unwrap();
+                    )?;
 
                     parameter_calculation += start_p_after.elapsed();
 
-                    (parameter_calculation, solve_timings)
+                    Ok((parameter_calculation, solve_timings))
                 },
             )
             .collect();
 
-        // Add them all together
-        for (parameter_calculation, solve_timings) in step_times.into_iter() {
+        // Add them all together; the first error (in scenario order) is returned.
+        for step_time in step_times.into_iter() {
+            let (parameter_calculation, solve_timings) = step_time?;
             timings.component_timings.total += parameter_calculation;
             timings.solve += solve_timings;
         }
@@ -893,7 +892,7 @@ impl Network {
     {
         // First compute all the updated state
 
-        let p_calc_timings: Vec<_> = scenario_indices
+        let p_calc_timings: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -901,26 +900,25 @@ impl Network {
                 // TODO clear the current parameter values state (i.e. set them all to zero).
 
                 let start_p_calc = Instant::now();
-                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)
-                    .unwrap();
+                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)?;
 
                 // State now contains updated parameter values BUT original network state
-                start_p_calc.elapsed()
+                Ok(start_p_calc.elapsed())
             })
             .collect();
 
         for t in p_calc_timings.into_iter() {
-            timings.component_timings.total += t;
+            timings.component_timings.total += t?;
         }
 
         // Now solve all the LPs simultaneously
 
-        let solve_timings = solver.solve(self, timestep, &mut state.states).unwrap();
+        let solve_timings = solver.solve(self, timestep, &mut state.states)?;
         // State now contains updated parameter values AND updated network state
         timings.solve += solve_timings;
 
         // Now run the "after" method on all components
-        let p_after_timings: Vec<_> = scenario_indices
+        let p_after_timings: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -935,15 +933,14 @@ impl Network {
                         p_internal_states,
                         ms_internal_states,
                         None,
-                    )
-                    .unwrap();
-                    start_p_after.elapsed()
+                    )?;
+                    Ok(start_p_after.elapsed())
                 },
             )
             .collect();
 
         for t in p_after_timings.into_iter() {
-            timings.component_timings.total += t;
+            timings.component_timings.total += t?;
         }
 
         Ok(())
-- 
2.43.0


From 29d54629006eb0551c88c1e2fc46d9e708790487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 03/37] fix: create binary columns for mutual exclusivity in a
 reproducible order

---
 pywr-core/src/solvers/builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..5ba47f0 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -725,11 +725,17 @@ where
         // We only want to create one binary variable for each unique set of nodes. For the
         // majority of cases the nodes will only be in one set. However, if a node is in different
         // sets then we need to create separate binary variables and associated them with that node.
-        let mut node_sets_in_a_mutual_exclusivity = HashSet::new();
+        //
+        // The sets are kept in the order they are first encountered to ensure that the order of
+        // the columns (and therefore the solution found) is reproducible.
+        let mut unique_node_sets = HashSet::new();
+        let mut node_sets_in_a_mutual_exclusivity = Vec::new();
         for agg_node in network.aggregated_nodes() {
             if agg_node.has_exclusivity() {
                 for node_set in agg_node.iter_nodes() {
-                    node_sets_in_a_mutual_exclusivity.insert(node_set);
+                    if unique_node_sets.insert(node_set) {
+                        node_sets_in_a_mutual_exclusivity.push(node_set);
+                    }
                 }
             }
         }
-- 
2.43.0


From 93a305102439daad44aed88909651857ead9422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 04/37] fix: enforce mutual exclusivity of nodes with
 non-constant flow bounds

---
 pywr-core/src/solvers/builder.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 5ba47f0..2f9d0f3 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -501,13 +501,19 @@ where
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    // The bounds of this (variable) row have been reset, so they must be applied again
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    // The bounds of this (variable) row have been reset, so they must be applied again
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
             }
         }
-- 
2.43.0


From 1432be593d10a97d37bdc44d33c61dae8a17911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 05/37] fix: report contradictory row bounds as infeasible in
 the MicroLP solver

---
 pywr-core/src/solvers/microlp/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index 85acf22..cba8368 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -121,6 +121,17 @@ impl Solver for MicroLpSolver {
 
         self.builder.apply_updated_coefficients();
 
+        // Contradictory row bounds can not be satisfied; this is an error rather than a broken invariant
+        let rows_are_bounded = self
+            .builder
+            .row_lower()
+            .iter()
+            .zip(self.builder.row_upper())
+            .all(|(lb, ub)| lb <= ub);
+        if !rows_are_bounded {
+            return Err(MicroLpError::SolveError(microlp::Error::Infeasible))?;
+        }
+
         let now = Instant::now();
         let problem = self.make_problem();
         timings.update_constraints += now.elapsed();
-- 
2.43.0


From c12b923ee0f35601b5546eefed74ac15cdcf1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 06/37] fix: recover the volume that was used from rolling
 virtual storage

---
 pywr-core/src/state/mod.rs       | 39 ++++++++++++++++----------------
 pywr-core/src/virtual_storage.rs |  4 ++--
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..47cf415 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -83,38 +83,38 @@ impl NodeState {
     }
 }
 
-/// Stores the history of virtual storage flows.
+/// Stores the history of the volumes used from a virtual storage.
 #[derive(Clone, Debug)]
 struct VirtualStorageHistory {
-    /// The flows are stored in a queue. The oldest flow is popped from the front of the queue
-    flows: VecDeque<f64>,
+    /// The volumes are stored in a queue. The oldest volume is popped from the front of the queue
+    volumes: VecDeque<f64>,
     /// The maximum size of the history.
     size: NonZeroUsize,
 }
 
 impl VirtualStorageHistory {
-    fn new(size: NonZeroUsize, initial_flow: f64) -> Self {
+    fn new(size: NonZeroUsize, initial_volume: f64) -> Self {
         Self {
-            flows: vec![initial_flow; size.get()].into(),
+            volumes: vec![initial_volume; size.get()].into(),
             size,
         }
     }
 
-    /// Reset the history to the initial flow.
-    fn reset(&mut self, initial_flow: f64) {
-        self.flows = vec![initial_flow; self.size.get()].into();
+    /// Reset the history to the initial volume.
+    fn reset(&mut self, initial_volume: f64) {
+        self.volumes = vec![initial_volume; self.size.get()].into();
     }
 
-    /// Add new flow to the history.
-    fn add_flow(&mut self, flow: f64) {
-        self.flows.push_back(flow);
+    /// Add new volume to the history.
+    fn add_volume(&mut self, volume: f64) {
+        self.volumes.push_back(volume);
     }
 
-    /// Pop the oldest flow from the history as long as the history is at least as long as the
+    /// Pop the oldest volume from the history as long as the history is at least as long as the
     /// maximum size. If the history is shorter than the maximum size then return zero.
-    fn pop_flow(&mut self) -> f64 {
-        if self.flows.len() >= self.size.get() {
-            self.flows
+    fn pop_volume(&mut self) -> f64 {
+        if self.volumes.len() >= self.size.get() {
+            self.volumes
                 .pop_front()
                 .expect("Size is non-zero therefore pop_front should succeed.")
         } else {
@@ -150,22 +150,23 @@ impl VirtualStorageState {
         self.last_reset = Some(*timestep);
     }
 
-    fn reset_history(&mut self, initial_flow: f64) {
+    fn reset_history(&mut self, initial_volume: f64) {
         if let Some(history) = self.history.as_mut() {
-            history.reset(initial_flow);
+            history.reset(initial_volume);
         }
     }
 
     fn recover_last_historical_flow(&mut self, timestep: &Timestep) {
         if let Some(history) = self.history.as_mut() {
-            self.storage.add_in_flow(history.pop_flow(), timestep);
+            // Time-steps can have different lengths, so it is the volume used that is recovered.
+            self.storage.add_in_flow(history.pop_volume() / timestep.days(), timestep);
         }
     }
 
     fn add_out_flow(&mut self, flow: f64, timestep: &Timestep) {
         self.storage.add_out_flow(flow, timestep);
         if let Some(history) = self.history.as_mut() {
-            history.add_flow(flow);
+            history.add_volume(flow * timestep.days());
         }
     }
 
diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index a14c674..45bc810 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -448,8 +448,8 @@ impl VirtualStorageNode {
             // Reset the rolling history if defined
             if let Some(window) = self.rolling_window {
                 // Initially the missing volume is distributed evenly across the window
-                let initial_flow = (max_volume - initial_volume) / window.get() as f64;
-                state.reset_virtual_storage_history(self.meta.index(), initial_flow)?;
+                let missing_volume = (max_volume - reset_volume) / window.get() as f64;
+                state.reset_virtual_storage_history(self.meta.index(), missing_volume)?;
             }
         }
         // Recover any historical flows from a rolling window
-- 
2.43.0


From 9964c309afc837f52af3318e820e4e098f259f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 07/37] fix: start virtual storage at its initial volume
 whatever its reset volume

---
 pywr-core/src/virtual_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 45bc810..9d39268 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -439,8 +439,9 @@ impl VirtualStorageNode {
             let initial_volume = self.initial_volume.get_absolute_initial_volume(max_volume, state)?;
 
             let reset_volume = match &self.reset_volume {
-                VirtualStorageResetVolume::Max => max_volume,
-                VirtualStorageResetVolume::Initial => initial_volume,
+                // The first time-step always starts with the initial volume.
+                VirtualStorageResetVolume::Max if !timestep.is_first() => max_volume,
+                VirtualStorageResetVolume::Max | VirtualStorageResetVolume::Initial => initial_volume,
             };
 
             state.reset_virtual_storage_node_volume(self.meta.index(), reset_volume, timestep, max_volume)?;
-- 
2.43.0


From b9a25a676e4104d420f6df0dda22d8ad38d90263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 08/37] fix: apply the bypass cost of river gauges to the
 bypass

---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 017edf2a83b993eddd7bf0d3476c5e04962a373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 09/37] fix: let flow above the soft maximum pass a link with
 both soft limits

The soft maximum bounds the flow of the link and its soft minimum node
together. It was set as the hard maximum of the whole link instead,
replacing max_flow, and nothing kept the flow off the unpenalised node.
---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From b3e6fb3209ff9e9be04d70a87fa2589b10b1f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 10/37] fix: make reservoir evaporation an output and report it
 and rainfall

The evaporation node was built as an input, which the network rejects
because it has an incoming edge, and its attribute depended on rainfall.
The rainfall attribute read the inflow of an input node, which is zero.
---
 pywr-schema/src/nodes/reservoir.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
@@ -606,13 +606,13 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From 53ec5dd2288886bf0b582f2f7c9b86fbe713218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 11/37] fix: do not count a 29th February that did not exist in
 uniform drawdown profiles

---
 .../parameters/profiles/uniform_drawdown.rs   | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/uniform_drawdown.rs b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
index 6948a9a..de1bf77 100644
--- a/pywr-core/src/parameters/profiles/uniform_drawdown.rs
+++ b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
@@ -48,13 +48,21 @@ impl SimpleParameter<f64> for UniformDrawdownProfileParameter {
         let total_days_in_period = if is_leap_year(year) { 366 } else { 365 };
 
         // Now determine number of days we're into the period if it has wrapped around to a new year
-        if days_into_period < 0 {
+        let wrapped = days_into_period < 0;
+        if wrapped {
             days_into_period += 366;
-            // Need to adjust for post 29th Feb in non-leap years.
-            // Recall `current_doy` was incremented by 1 if it is a non-leap already (hence comparison to 60)
-            if !is_leap_year(ctx.timestep.date.year()) && current_doy > 60 {
-                days_into_period -= 1;
-            }
+        }
+
+        // Both days of the year are those of a leap year; a 29th Feb that was passed since the reset, but
+        // which did not exist must not be counted.
+        let passed_29th_feb_in = match (wrapped, self.reset_doy > 60) {
+            (false, false) if current_doy > 60 => Some(ctx.timestep.date.year()),
+            (true, true) if current_doy > 60 => Some(ctx.timestep.date.year()),
+            (true, false) => Some(ctx.timestep.date.year() - 1),
+            _ => None,
+        };
+        if passed_29th_feb_in.is_some_and(|y| !is_leap_year(y)) {
+            days_into_period -= 1;
         }
 
         let residual_proportion = self.residual_days as f64 / total_days_in_period as f64;
-- 
2.43.0


From 8fe32263878bb5efd883f452a1c9e94c4101ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 12/37] fix: let the tolerance of the volume balance grow with
 the time-step

---
 pywr-core/src/state/mod.rs     | 19 +++++++++++--------
 pywr-core/src/state/storage.rs | 16 +++++++++-------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 47cf415..30bd154 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -76,9 +76,9 @@ impl NodeState {
         };
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
         if let Self::Storage(s) = self {
-            s.finalise(min_volume, max_volume)
+            s.finalise(min_volume, max_volume, timestep)
         }
     }
 }
@@ -170,8 +170,8 @@ impl VirtualStorageState {
         }
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64) {
-        self.storage.finalise(min_volume, max_volume)
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
+        self.storage.finalise(min_volume, max_volume, timestep)
     }
 }
 
@@ -573,10 +573,11 @@ impl NetworkState {
         node_index: &NodeIndex,
         min_volume: f64,
         max_volume: f64,
+        timestep: &Timestep,
     ) -> Result<(), NetworkStateError> {
         match self.node_states.get_mut(*node_index.deref()) {
             Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
+                s.finalise_volume(min_volume, max_volume, timestep);
                 Ok(())
             }
             None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
@@ -589,10 +590,11 @@ impl NetworkState {
         node_index: &VirtualStorageIndex,
         min_volume: f64,
         max_volume: f64,
+        timestep: &Timestep,
     ) -> Result<(), NetworkStateError> {
         match self.virtual_storage_states.get_mut(*node_index.deref()) {
             Some(s) => {
-                s.finalise_volume(min_volume, max_volume);
+                s.finalise_volume(min_volume, max_volume, timestep);
                 Ok(())
             }
             None => Err(NetworkStateError::VirtualStorageIndexNotFound(*node_index)),
@@ -1151,7 +1153,8 @@ impl State {
                 let min_volume = storage.get_min_volume(self)?;
                 let max_volume = storage.get_max_volume(self)?;
 
-                self.network.finalise_node_volume(&node_index, min_volume, max_volume)?;
+                self.network
+                    .finalise_node_volume(&node_index, min_volume, max_volume, timestep)?;
             }
         }
 
@@ -1162,7 +1165,7 @@ impl State {
             let min_volume = node.get_min_volume(self)?;
             let max_volume = node.get_max_volume(self)?;
             self.network
-                .finalise_virtual_storage_node_volume(&node_index, min_volume, max_volume)?;
+                .finalise_virtual_storage_node_volume(&node_index, min_volume, max_volume, timestep)?;
         }
 
         Ok(())
diff --git a/pywr-core/src/state/storage.rs b/pywr-core/src/state/storage.rs
index 91ff129..3b42001 100644
--- a/pywr-core/src/state/storage.rs
+++ b/pywr-core/src/state/storage.rs
@@ -76,22 +76,24 @@ impl StorageState {
     /// Finalise the storage state at the end of the time-step.
     ///
     /// This will clamp the volume to the min and max volume range and update the proportional volume.
-    pub fn finalise(&mut self, min_volume: f64, max_volume: f64) {
-        self.clamp(min_volume, max_volume);
+    pub fn finalise(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
+        self.clamp(min_volume, max_volume, timestep);
         self.max_volume = max_volume;
     }
 
     /// Ensure the volume is within the min and max volume range (inclusive). If the volume
-    /// is more than 1E6 outside the min or max volume then this function will panic,
-    /// reporting a mass-balance message.
-    fn clamp(&mut self, min_volume: f64, max_volume: f64) {
-        if (self.volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE {
+    /// is more than the tolerance outside the min or max volume then this function will panic,
+    /// reporting a mass-balance message. Solvers find flows to a tolerance, so that the tolerance
+    /// of the volume grows with the length of the time-step.
+    fn clamp(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
+        let tolerance = STORAGE_MASS_BALANCE_TOLERANCE * timestep.days().max(1.0);
+        if (self.volume - min_volume) < -tolerance {
             panic!(
                 "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
                 self.volume, min_volume
             );
         }
-        if (self.volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE {
+        if (self.volume - max_volume) > tolerance {
             panic!(
                 "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
                 self.volume, max_volume,
-- 
2.43.0


From e31d5927fbe5fb08002d66092270cd024ca10a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 13/37] fix: add up changing factors of aggregated nodes that
 share an edge

---
 pywr-core/src/solvers/builder.rs | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 2f9d0f3..296ea25 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -87,34 +87,51 @@ where
         self.row_upper[row] = self.row_upper[row].min(ub);
     }
 
+    /// Add to the updated coefficient of a row and column.
+    ///
+    /// Nodes in the same row can share a column, in which case the coefficient is the sum of their factors.
+    fn add_coefficient_to_update(&mut self, row: I, column: I, factor: f64) {
+        let existing = self
+            .coefficients_to_update
+            .iter_mut()
+            .rev()
+            .take_while(|(r, _, _)| *r == row)
+            .find(|(_, c, _)| *c == column);
+
+        match existing {
+            Some((_, _, value)) => *value += factor,
+            None => self.coefficients_to_update.push((row, column, factor)),
+        }
+    }
+
     fn update_row_coefficients(&mut self, row: I, node: &Node, factor: f64, col_edge_map: &ColumnEdgeMap<I>) {
         match node.node_type() {
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, -factor);
                 }
             }
         }
@@ -184,13 +201,20 @@ where
             Some(row_id) => I::from(row_id).unwrap(),
             None => {
                 // No row found, add a new one
-                let row_id = self.num_variable_rows();
-                self.rows.push(row);
-                row_id
+                self.add_unique_variable_row(row)
             }
         }
     }
 
+    /// Add a row to the LP even if the same row already exists.
+    ///
+    /// This is for rows that have their coefficients updated.
+    fn add_unique_variable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(row);
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -994,7 +1018,7 @@ where
                         row_indices_for_agg_node.push(None)
                     } else {
                         // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        let row_idx = self.builder.add_unique_variable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From e3673a0805a04f1753f29b358312e62be1f0f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 14/37] fix: update the right-hand side of aggregated nodes
 with constant coefficients

---
 pywr-core/src/aggregated_node.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..af17fa2 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -1070,14 +1070,21 @@ fn get_const_coefficient_factor_pairs<'a>(
 
     // Try to convert the factor into a constant
 
-    let f0 = factors[0].try_get_constant_value(values)?;
-    let f1 = factors[1].try_get_constant_value(values)?;
+    let mut f0 = factors[0].try_get_constant_value(values)?;
+    let mut f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
     };
 
+    if rhs.is_none() {
+        // The right-hand side has to be updated, which means the pair can not be treated as constant.
+        f0 = None;
+        f1 = None;
+    }
+    let rhs = rhs.unwrap_or_default();
+
     Ok(vec![NodeConstFactorPair::new(
         NodeConstFactor::new(nodes[0].as_slice(), f0),
         NodeConstFactor::new(nodes[1].as_slice(), f1),
-- 
2.43.0


From 8c1304e548610272219eddc217cc61eb3710ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 15/37] fix: report invalid factors of aggregated nodes instead
 of ignoring them

---
 pywr-core/src/solvers/builder.rs | 20 +++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 296ea25..66041f0 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -557,7 +557,12 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -691,7 +696,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -976,12 +981,17 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1030,7 +1040,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..c8f0893 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From a04198e16a9b38b98483a023257881a3f46bd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 16/37] fix: give MicroLP no constraint for an infinite lower
 row bound

---
 pywr-core/src/solvers/microlp/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index cba8368..6b97d03 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -67,8 +67,10 @@ impl MicroLpSolver {
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
             } else {
                 assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
-                // Otherwise add two rows for each constraint (>= and <=)
-                problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                // Otherwise add two rows for each constraint (>= and <=); infinite bounds need no row
+                if row_lower.is_finite() {
+                    problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                }
 
                 if row_upper.is_finite() {
                     problem.add_constraint(expr, ComparisonOp::Le, row_upper);
-- 
2.43.0


From 08060663e2dde107394f46f29ca44b5af7f4c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 17/37] fix: give memory outputs their time and scenario
 aggregation functions in the right order

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From fb1b318b09405709f620b17acbf84e29e7c9384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 18/37] fix: count aggregation periods of days from the start
 of the period, not of each value

---
 pywr-core/src/recorders/aggregator/mod.rs | 31 +++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index a0030ea..69140e9 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -25,7 +25,10 @@ impl AggregationFrequency {
         }
     }
 
-    fn start_of_next_period(&self, current_date: &DateTime) -> DateTime {
+    /// The start of the period that follows the one containing `current_date`.
+    ///
+    /// Periods of a number of days are counted from `period_start`, the start of the current period.
+    fn start_of_next_period(&self, period_start: &DateTime, current_date: &DateTime) -> DateTime {
         match self {
             Self::Monthly => {
                 let next_month = current_date
@@ -39,22 +42,28 @@ impl AggregationFrequency {
                     .expect("Date overflowed when calculating next year.");
                 next_year.first_of_year().start_of_day()
             }
-            Self::Days(days) => current_date
-                .checked_add(days.get().days())
-                .expect("Date overflowed when calculating next period."),
+            Self::Days(days) => {
+                let mut next_period = *period_start;
+                while next_period <= *current_date {
+                    next_period = next_period
+                        .checked_add(days.get().days())
+                        .expect("Date overflowed when calculating next period.");
+                }
+                next_period
+            }
         }
     }
 
     /// Split the value representing a period into multiple ['PeriodValue'] that do not cross the
-    /// boundary of the given period.
-    fn split_value_into_periods(&self, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
+    /// boundary of the given period. The current period starts at `period_start`.
+    fn split_value_into_periods(&self, period_start: DateTime, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
         let mut sub_values = Vec::new();
 
         let mut current_date = value.start;
         let end_date = value.duration + value.start;
 
         while current_date < end_date {
-            let start_of_next_period = self.start_of_next_period(&current_date);
+            let start_of_next_period = self.start_of_next_period(&period_start, &current_date);
 
             let current_duration = if start_of_next_period <= end_date {
                 start_of_next_period.duration_since(current_date)
@@ -81,6 +90,11 @@ struct PeriodicAggregatorState {
 }
 
 impl PeriodicAggregatorState {
+    /// The start of the current period, if it contains any values.
+    fn period_start(&self) -> Option<DateTime> {
+        self.current_values.as_ref()?.first().map(|v| v.start)
+    }
+
     fn process_value(
         &mut self,
         value: PeriodValue<f64>,
@@ -238,7 +252,8 @@ impl PeriodicAggregator {
         let mut agg_value = None;
 
         if let Some(period) = &self.frequency {
-            for v in period.split_value_into_periods(value) {
+            let period_start = current_state.period_start().unwrap_or(value.start);
+            for v in period.split_value_into_periods(period_start, value) {
                 let av = current_state.process_value(v, period, &self.function);
                 if av.is_some() {
                     if agg_value.is_some() {
-- 
2.43.0


From 2fba9942be0e398833b108aeb961c9fd7b8220f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 19/37] fix: keep the periods completed when nested aggregators
 are finalised

---
 pywr-core/src/recorders/aggregator/mod.rs | 31 +++++++++----
 pywr-core/src/recorders/csv.rs            | 56 +++++++++++++----------
 pywr-core/src/recorders/memory.rs         |  8 +---
 pywr-core/src/recorders/metric_set.rs     | 32 +++++++------
 4 files changed, 75 insertions(+), 52 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index 69140e9..9dac3a7 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -324,22 +324,35 @@ impl Aggregator {
     /// Compute the final aggregation value from the current state.
     ///
     /// This will also compute the final aggregation value from the child aggregators if any exists.
-    /// This includes aggregation calculations over partial or unfinished periods.
+    /// This includes aggregation calculations over partial or unfinished periods. If other periods
+    /// are completed by the final values of the child aggregators their values are not returned,
+    /// see [`Aggregator::finalise_all`].
     pub fn finalise(&self, state: &mut AggregatorState) -> Option<PeriodValue<f64>> {
-        let final_child_value = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.finalise(child_state),
-            (None, None) => None,
+        self.finalise_all(state).pop()
+    }
+
+    /// Compute all the remaining aggregation values from the current state.
+    ///
+    /// The last of these is the aggregation over the final, possibly partial, period. It is preceded
+    /// by any periods that are completed by the final values of the child aggregators.
+    pub fn finalise_all(&self, state: &mut AggregatorState) -> Vec<PeriodValue<f64>> {
+        let final_child_values = match (&self.child, state.child.as_mut()) {
+            (Some(child), Some(child_state)) => child.finalise_all(child_state),
+            (None, None) => Vec::new(),
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
         };
 
-        // If there is a final value from the child aggregator then process it
-        if let Some(final_child_value) = final_child_value {
-            let _ = self.agg.process_value(&mut state.state, final_child_value);
-        }
+        // If there are final values from the child aggregator then process them
+        let mut values: Vec<_> = final_child_values
+            .into_iter()
+            .filter_map(|value| self.agg.process_value(&mut state.state, value))
+            .collect();
 
         // Finally, compute the aggregation of the current state
-        self.agg.calc_aggregation(&state.state)
+        values.extend(self.agg.calc_aggregation(&state.state));
+
+        values
     }
 
     /// Create the initial default state for the aggregator.
diff --git a/pywr-core/src/recorders/csv.rs b/pywr-core/src/recorders/csv.rs
index 69fa4a1..8d570b8 100644
--- a/pywr-core/src/recorders/csv.rs
+++ b/pywr-core/src/recorders/csv.rs
@@ -42,38 +42,46 @@ struct Internal {
 
 impl CsvWideFmtOutput {
     fn write_values(&self, metric_set_states: &[Vec<MetricSetState>], internal: &mut Internal) -> Result<(), CsvError> {
-        let mut row = Vec::new();
-
-        // Iterate through all scenario's state
-        for ms_scenario_states in metric_set_states.iter() {
-            let metric_set_state =
+        let states = metric_set_states
+            .iter()
+            .map(|ms_scenario_states| {
                 ms_scenario_states
                     .get(*self.metric_set_idx.deref())
                     .ok_or(CsvError::MetricSetIndexNotFound {
                         index: self.metric_set_idx,
-                    })?;
+                    })
+            })
+            .collect::<Result<Vec<_>, _>>()?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                let values = current_values
-                    .iter()
-                    .map(|v| format!("{:.2}", v.value))
-                    .collect::<Vec<_>>();
+        let num_rows = states.iter().map(|s| s.current_values().len()).max().unwrap_or(0);
 
-                // If the row is empty, add the start time
-                if row.is_empty() {
-                    row.push(current_values.first().unwrap().start.to_string())
-                }
+        for row_idx in 0..num_rows {
+            let mut row = Vec::new();
+
+            // Iterate through all scenario's state
+            for metric_set_state in states.iter() {
+                if let Some(current_values) = metric_set_state.current_values().nth(row_idx) {
+                    let values = current_values
+                        .iter()
+                        .map(|v| format!("{:.2}", v.value))
+                        .collect::<Vec<_>>();
+
+                    // If the row is empty, add the start time
+                    if row.is_empty() {
+                        row.push(current_values.first().unwrap().start.to_string())
+                    }
 
-                row.extend(values);
+                    row.extend(values);
+                }
             }
-        }
 
-        // Only write
-        if row.len() > 1 {
-            internal.writer.write_record(row).map_err(|source| CsvError::CSVError {
-                path: self.filename.clone(),
-                source,
-            })?;
+            // Only write
+            if row.len() > 1 {
+                internal.writer.write_record(row).map_err(|source| CsvError::CSVError {
+                    path: self.filename.clone(),
+                    source,
+                })?;
+            }
         }
 
         Ok(())
@@ -263,7 +271,7 @@ impl CsvLongFmtOutput {
                     .get(*metric_set_idx.deref())
                     .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
 
-                if let Some(current_values) = metric_set_state.current_values() {
+                for current_values in metric_set_state.current_values() {
                     let metric_set = network
                         .get_metric_set(*metric_set_idx)
                         .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 86ad39a..ca5f29e 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -338,9 +338,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                scenario_data.push(current_values.into());
-            }
+            scenario_data.extend(metric_set_state.current_values().map(|values| values.into()));
         }
 
         Ok(())
@@ -370,9 +368,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                scenario_data.push(current_values.into());
-            }
+            scenario_data.extend(metric_set_state.current_values().map(|values| values.into()));
         }
 
         let result = MemoryRecorderResult {
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index 360d13c..58e1797 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -78,15 +78,17 @@ impl UnresolvedOutputMetric {
 
 #[derive(Debug, Clone)]
 pub struct MetricSetState {
-    // Populated with any yielded values from the last processing.
-    current_values: Option<Vec<PeriodValue<f64>>>,
+    // Populated with any yielded values from the last processing. There is at most one value for each
+    // metric, except that nested aggregators may yield several when they are finalised.
+    current_values: Vec<Vec<PeriodValue<f64>>>,
     // If the metric set aggregates then this state tracks the aggregation of each metric
     aggregation_states: Option<Vec<AggregatorState>>,
 }
 
 impl MetricSetState {
-    pub fn current_values(&self) -> Option<&[PeriodValue<f64>]> {
-        self.current_values.as_deref()
+    /// The values of all metrics, for each of the periods yielded by the last processing.
+    pub fn current_values(&self) -> impl ExactSizeIterator<Item = &[PeriodValue<f64>]> {
+        self.current_values.iter().map(|values| values.as_slice())
     }
 }
 
@@ -116,7 +118,7 @@ impl MetricSet {
     /// Setup a new [`MetricSetState`] for this [`MetricSet`].
     pub fn setup(&self) -> MetricSetState {
         MetricSetState {
-            current_values: None,
+            current_values: Vec::new(),
             aggregation_states: self
                 .aggregator
                 .as_ref()
@@ -164,9 +166,9 @@ impl MetricSet {
             }
 
             let agg_values = if agg_values.is_empty() {
-                None
+                Vec::new()
             } else if agg_values.len() == values.len() {
-                Some(agg_values)
+                vec![agg_values]
             } else {
                 // This should never happen because the aggregator should either yield no values
                 // or the same number of values as the input metrics.
@@ -175,7 +177,7 @@ impl MetricSet {
 
             internal_state.current_values = agg_values;
         } else {
-            internal_state.current_values = Some(values);
+            internal_state.current_values = vec![values];
         }
 
         Ok(())
@@ -190,12 +192,16 @@ impl MetricSet {
 
             let final_values = aggregation_states
                 .iter_mut()
-                .map(|current_state| aggregator.finalise(current_state))
-                .collect::<Option<Vec<_>>>();
-
-            internal_state.current_values = final_values;
+                .map(|current_state| aggregator.finalise_all(current_state))
+                .collect::<Vec<_>>();
+
+            // All metrics yield values for the same periods.
+            let num_values = final_values.iter().map(|values| values.len()).min().unwrap_or(0);
+            internal_state.current_values = (0..num_values)
+                .map(|idx| final_values.iter().map(|values| values[idx]).collect())
+                .collect();
         } else {
-            internal_state.current_values = None;
+            internal_state.current_values = Vec::new();
         }
     }
 }
-- 
2.43.0


From c468a9268ae3cb18149a0f9aeb7189649e48f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 20/37] fix: report an error instead of panicking when there is
 nothing to aggregate in memory

---
 pywr-core/src/recorders/memory.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index ca5f29e..7ff06e2 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -203,7 +203,10 @@ impl MemoryRecorderResult {
             .iter()
             .map(|time_data| {
                 // We expect the same number of metrics in all the entries
-                let num_metrics = time_data.first().expect("No metrics found in time data").len();
+                let num_metrics = time_data
+                    .first()
+                    .ok_or(AggregationError::AggregationFunctionFailed)?
+                    .len();
 
                 // Aggregate each metric over time first. This requires transposing the saved data.
                 let metric_ts: Vec<f64> = (0..num_metrics)
-- 
2.43.0


From fabfbfa8824b512e1051b90bc799b80506fef4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 21/37] fix: report errors of writing the last lines of CSV
 outputs

---
 pywr-core/src/recorders/csv.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/recorders/csv.rs b/pywr-core/src/recorders/csv.rs
index 8d570b8..d897df9 100644
--- a/pywr-core/src/recorders/csv.rs
+++ b/pywr-core/src/recorders/csv.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::num::NonZeroU32;
 use std::ops::Deref;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 /// Errors returned by recorder saving.
@@ -40,6 +40,18 @@ struct Internal {
     writer: csv::Writer<File>,
 }
 
+impl Internal {
+    /// Write any buffered data to the file.
+    ///
+    /// Errors are ignored if the writer is dropped without being flushed first.
+    fn flush(&mut self, path: &Path) -> Result<(), CsvError> {
+        self.writer.flush().map_err(|source| CsvError::CSVError {
+            path: path.to_path_buf(),
+            source: source.into(),
+        })
+    }
+}
+
 impl CsvWideFmtOutput {
     fn write_values(&self, metric_set_states: &[Vec<MetricSetState>], internal: &mut Internal) -> Result<(), CsvError> {
         let states = metric_set_states
@@ -187,6 +199,7 @@ impl Recorder for CsvWideFmtOutput {
     ) -> Result<Option<Box<dyn RecorderFinalResult>>, RecorderFinaliseError> {
         let mut internal = downcast_internal_state::<Internal>(internal_state);
         self.write_values(metric_set_states, &mut internal)?;
+        internal.flush(&self.filename)?;
         Ok(None)
     }
 }
@@ -355,6 +368,7 @@ impl Recorder for CsvLongFmtOutput {
     ) -> Result<Option<Box<dyn RecorderFinalResult>>, RecorderFinaliseError> {
         let mut internal = downcast_internal_state::<Internal>(internal_state);
         self.write_values(network, scenario_indices, metric_set_states, &mut internal)?;
+        internal.flush(&self.filename)?;
         Ok(None)
     }
 }
-- 
2.43.0


From e9b631cf0507b82c6de9857dfc80140e3da544e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 22/37] fix: report errors of writing HDF5 outputs

---
 pywr-core/src/recorders/hdf.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/recorders/hdf.rs b/pywr-core/src/recorders/hdf.rs
index 61dc5fb..a4c9358 100644
--- a/pywr-core/src/recorders/hdf.rs
+++ b/pywr-core/src/recorders/hdf.rs
@@ -105,7 +105,8 @@ impl Recorder for HDF5Recorder {
 
         // Create the time table
         let dates: Array1<_> = domain.time().timesteps().iter().map(DateTime::from_timestamp).collect();
-        file.deref()
+        let time_ds = file
+            .deref()
             .new_dataset_builder()
             .with_data(&dates)
             .create("time")
@@ -113,6 +114,8 @@ impl Recorder for HDF5Recorder {
                 path: file.filename().into(),
                 source,
             })?;
+        flush_file(&file)?;
+        drop(time_ds);
 
         let shape = (domain.time().len(), domain.scenarios().len());
 
@@ -179,8 +182,11 @@ impl Recorder for HDF5Recorder {
         _metric_set_states: &[Vec<MetricSetState>],
         internal_state: Option<Box<dyn RecorderInternalState>>,
     ) -> Result<Option<Box<dyn RecorderFinalResult>>, RecorderFinaliseError> {
-        let internal = downcast_internal_state::<Internal>(internal_state);
-        internal.file.close().map_err(|source| Hdf5Error::HDF5Error {
+        let Internal { datasets, file } = *downcast_internal_state::<Internal>(internal_state);
+        flush_file(&file)?;
+        // The file is only closed once none of its datasets is open.
+        drop(datasets);
+        file.close().map_err(|source| Hdf5Error::HDF5Error {
             path: self.filename.clone(),
             source,
         })?;
@@ -189,6 +195,16 @@ impl Recorder for HDF5Recorder {
     }
 }
 
+/// Flush `file`, including the buffered data of its open datasets.
+///
+/// Errors of writing buffered data are not reported when a dataset or file is dropped.
+fn flush_file(file: &hdf5_metno::File) -> Result<(), Hdf5Error> {
+    file.flush().map_err(|source| Hdf5Error::HDF5Error {
+        path: file.filename().into(),
+        source,
+    })
+}
+
 fn require_dataset<S: Into<Extents>>(parent: &Group, shape: S, name: &str) -> Result<hdf5_metno::Dataset, Hdf5Error> {
     parent
         .new_dataset::<f64>()
@@ -337,13 +353,16 @@ fn write_scenarios_metadata(file: &hdf5_metno::File, domain: &ScenarioDomain) ->
         })
         .collect::<Result<_, Hdf5Error>>()?;
 
-    grp.new_dataset_builder()
+    let groups_ds = grp
+        .new_dataset_builder()
         .with_data(&scenario_groups)
         .create("groups")
         .map_err(|source| Hdf5Error::HDF5Error {
             path: file.filename().into(),
             source,
         })?;
+    flush_file(file)?;
+    drop(groups_ds);
 
     let scenarios: Array1<H5ScenarioIndex> = domain
         .indices()
@@ -365,13 +384,16 @@ fn write_scenarios_metadata(file: &hdf5_metno::File, domain: &ScenarioDomain) ->
         })
         .collect::<Result<_, Hdf5Error>>()?;
 
-    grp.new_dataset_builder()
+    let indices_ds = grp
+        .new_dataset_builder()
         .with_data(&scenarios)
         .create("indices")
         .map_err(|source| Hdf5Error::HDF5Error {
             path: file.filename().into(),
             source,
         })?;
+    flush_file(file)?;
+    drop(indices_ds);
 
     Ok(())
 }
-- 
2.43.0


From 25334d5a29ab6e6e9e08b2add662e6abd38193a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 23/37] fix: confirm infeasibility found by HiGHS without
 presolve

HiGHS's presolve can report a feasible integer problem with large big-M
coefficients as infeasible, ending the run.  Solve again with presolve off
before giving up.
---
 pywr-core/src/solvers/highs/mod.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/solvers/highs/mod.rs b/pywr-core/src/solvers/highs/mod.rs
index 358749a..18abaf0 100644
--- a/pywr-core/src/solvers/highs/mod.rs
+++ b/pywr-core/src/solvers/highs/mod.rs
@@ -400,13 +400,23 @@ impl Solver for HighsSolver {
         let now = Instant::now();
 
         if let Err(e) = self.highs.run() {
-            let result = if let HighsModelError::Unknown = e {
-                // An unknown error occurred, try a resolve after clearing solve information
-                // See https://github.com/ERGO-Code/HiGHS/issues/1607
-                self.highs.clear_solver()?;
-                self.highs.run()
-            } else {
-                Err(e)
+            let result = match e {
+                HighsModelError::Unknown => {
+                    // An unknown error occurred, try a resolve after clearing solve information
+                    // See https://github.com/ERGO-Code/HiGHS/issues/1607
+                    self.highs.clear_solver()?;
+                    self.highs.run()
+                }
+                HighsModelError::Infeasible | HighsModelError::UnboundedOrInfeasible => {
+                    // Presolve can wrongly find an integer problem to be infeasible; confirm the
+                    // result without it.
+                    self.highs.clear_solver()?;
+                    self.highs.presolve("off");
+                    let result = self.highs.run();
+                    self.highs.presolve("on");
+                    result
+                }
+                e => Err(e),
             };
 
             if let Err(e) = result {
-- 
2.43.0


From c5f77bff29855be30d23533a4d6342b5530dcca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 24/37] fix: report a scenario series with too few columns for
 the scenario subset instead of panicking

---
 pywr-core/src/parameters/array.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/array.rs b/pywr-core/src/parameters/array.rs
index 0c3339c..d701767 100644
--- a/pywr-core/src/parameters/array.rs
+++ b/pywr-core/src/parameters/array.rs
@@ -5,7 +5,7 @@ use crate::parameters::{
     ParameterName, ParameterState, SimpleParameter, SimpleParameterContext,
 };
 use crate::timestep::{Timestep, TimestepIndex};
-use ndarray::{Array1, Array2, Axis, s};
+use ndarray::{Array1, Array2, Axis, ErrorKind, ShapeError, s};
 use std::fmt::Debug;
 
 #[derive(Debug)]
@@ -353,6 +353,15 @@ fn subset_array2<T>(array: &Array2<T>, subset: &[usize]) -> Result<Array2<T>, Pa
 where
     T: Copy,
 {
+    // The array must have a column for every scenario that is used.
+    if subset.iter().any(|c| *c >= array.ncols()) {
+        return Err(ParameterBuildError::ArraySubSetError {
+            array_shape: array.shape().to_vec(),
+            subset: subset.to_vec(),
+            source: ShapeError::from_kind(ErrorKind::OutOfBounds),
+        });
+    }
+
     // Slice the array to only include the columns that are used in the scenario
     let slices = subset.iter().map(|c| array.slice(s![.., *c])).collect::<Vec<_>>();
     // Stack the slices to create a new array; this should be infallible because
-- 
2.43.0


From ed257d405b334f8ac6d0e038c4ac6fbeda164b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 25/37] fix: load scalar tables with three and four keys, and
 report tables without values instead of panicking

---
 pywr-schema/src/data_tables/scalar.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..d782f94 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -262,7 +262,11 @@ fn load_csv_rows_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
                 });
             }
 
-            Ok((key, values[0]))
+            let value = values
+                .first()
+                .ok_or_else(|| TableError::Csv("No value column".to_string()))?;
+
+            Ok((key, *value))
         })
         .collect::<Result<_, TableError>>()?;
 
@@ -330,10 +334,14 @@ fn load_csv_cols_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
         });
     }
 
+    let row = rows
+        .first()
+        .ok_or_else(|| TableError::Csv("No row of values".to_string()))?;
+
     // Turn this into a look-up table with key (row, column)
     let mut values: HashMap<[String; N], TableScalarValue> = HashMap::new();
 
-    for (col, value) in col_headers.iter().zip(&rows[0]) {
+    for (col, value) in col_headers.iter().zip(row) {
         if let Some(v) = value {
             // SAFETY: We have already checked ensured that the number of header rows is N
             let key: [String; N] = col.to_vec().try_into().unwrap();
-- 
2.43.0


From f99e0b242a0810d27f80015059be78b7302423f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 26/37] fix: give the parameters of timeseries data names that
 cannot clash

---
 pywr-schema/src/timeseries/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2220a9d..373865f 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -155,6 +155,16 @@ impl TryFrom<LoadTimeseriesError> for PyErr {
     }
 }
 
+/// The name of the parameter that holds some data of a timeseries.
+///
+/// The same column or scenario can be used both as f64 and u64, and a column can be named the same as
+/// a scenario group. In addition, this name must not clash with the name of a parameter that is local to
+/// a node with the same name as the timeseries.
+#[cfg(feature = "core")]
+fn parameter_name(timeseries: &str, kind: &str, name: &str) -> ParameterName {
+    ParameterName::new(name, Some(&format!("__timeseries__:{kind}:{timeseries}")))
+}
+
 #[derive(Default)]
 #[cfg(feature = "core")]
 pub struct LoadedTimeseriesCollection {
@@ -199,7 +209,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = parameter_name(name, "f64-column", col);
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -222,7 +232,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = parameter_name(name, "u64-column", col);
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -256,7 +266,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = parameter_name(name, "f64-column", col);
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -290,7 +300,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = parameter_name(name, "u64-column", col);
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -315,7 +325,7 @@ impl LoadedTimeseriesCollection {
         // Original array as loaded from the timeseries
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = parameter_name(name, "f64-scenario", scenario);
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
             network.parameters().f64(Box::new(p));
@@ -339,7 +349,7 @@ impl LoadedTimeseriesCollection {
 
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = parameter_name(name, "u64-scenario", scenario);
 
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
-- 
2.43.0


From 8aa7da53de809af76141080ad4d270c550d1bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 27/37] fix: report missing and non-integer timeseries values
 instead of using NaN or truncating them

---
 pywr-schema/src/timeseries/mod.rs | 45 +++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 373865f..2569b32 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -16,7 +16,7 @@ pub use pandas::PandasTimeseries;
 use polars::error::PolarsError;
 #[cfg(feature = "core")]
 use polars::prelude::{
-    DataFrame,
+    Column, DataFrame,
     DataType::{Float64, UInt64},
     Float64Type, IndexOrder, UInt64Type,
 };
@@ -43,6 +43,10 @@ pub enum TimeseriesError {
     TimeseriesNotFound(String),
     #[error("The duration of timeseries '{0}' could not be determined.")]
     TimeseriesDurationNotFound(String),
+    #[error("Column '{col}' of timeseries '{name}' contains missing or non-numeric values.")]
+    MissingValues { col: String, name: String },
+    #[error("Column '{col}' of timeseries '{name}' contains values that are not non-negative integers.")]
+    NonIndexValues { col: String, name: String },
     #[error("Column '{col}' not found in timeseries input '{name}'")]
     ColumnNotFound { col: String, name: String },
     #[error("Timeseries provider '{provider}' does not support '{fmt}' file types")]
@@ -165,6 +169,33 @@ fn parameter_name(timeseries: &str, kind: &str, name: &str) -> ParameterName {
     ParameterName::new(name, Some(&format!("__timeseries__:{kind}:{timeseries}")))
 }
 
+/// Cast a column to f64. There must not be any missing values.
+#[cfg(feature = "core")]
+fn to_f64(name: &str, column: &Column) -> Result<Column, TimeseriesError> {
+    let values = column.cast(&Float64)?.rechunk();
+    if values.null_count() > 0 {
+        return Err(TimeseriesError::MissingValues {
+            col: column.name().to_string(),
+            name: name.to_string(),
+        });
+    }
+    Ok(values)
+}
+
+/// Cast a column to u64. There must not be any missing values, or values which are changed by the cast.
+#[cfg(feature = "core")]
+fn to_u64(name: &str, column: &Column) -> Result<Column, TimeseriesError> {
+    let original = to_f64(name, column)?;
+    let values = column.cast(&UInt64)?.rechunk();
+    if !values.cast(&Float64)?.equals(&original) {
+        return Err(TimeseriesError::NonIndexValues {
+            col: column.name().to_string(),
+            name: name.to_string(),
+        });
+    }
+    Ok(values)
+}
+
 #[derive(Default)]
 #[cfg(feature = "core")]
 pub struct LoadedTimeseriesCollection {
@@ -208,7 +239,7 @@ impl LoadedTimeseriesCollection {
             .ok_or(TimeseriesError::TimeseriesNotFound(name.to_string()))?;
         let series = df.column(col)?.rechunk();
 
-        let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
+        let array = to_f64(name, &series)?.f64()?.to_ndarray()?.to_owned();
         let name = parameter_name(name, "f64-column", col);
 
         if !network.parameters().contains_name(&name) {
@@ -231,7 +262,7 @@ impl LoadedTimeseriesCollection {
             .ok_or(TimeseriesError::TimeseriesNotFound(name.to_string()))?;
         let series = df.column(col)?.rechunk();
 
-        let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
+        let array = to_u64(name, &series)?.u64()?.to_ndarray()?.to_owned();
         let name = parameter_name(name, "u64-column", col);
 
         if !network.parameters().contains_name(&name) {
@@ -265,7 +296,7 @@ impl LoadedTimeseriesCollection {
 
         let series = df.column(col)?.rechunk();
 
-        let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
+        let array = to_f64(name, &series)?.f64()?.to_ndarray()?.to_owned();
         let name = parameter_name(name, "f64-column", col);
 
         if !network.parameters().contains_name(&name) {
@@ -299,7 +330,7 @@ impl LoadedTimeseriesCollection {
 
         let series = df.column(col)?.rechunk();
 
-        let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
+        let array = to_u64(name, &series)?.u64()?.to_ndarray()?.to_owned();
         let name = parameter_name(name, "u64-column", col);
 
         if !network.parameters().contains_name(&name) {
@@ -323,6 +354,8 @@ impl LoadedTimeseriesCollection {
             .ok_or(TimeseriesError::TimeseriesNotFound(name.to_string()))?;
 
         // Original array as loaded from the timeseries
+        let columns = df.columns().iter().map(|c| to_f64(name, c)).collect::<Result<Vec<_>, _>>()?;
+        let df = DataFrame::new(df.height(), columns)?;
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
         let name = parameter_name(name, "f64-scenario", scenario);
@@ -347,6 +380,8 @@ impl LoadedTimeseriesCollection {
             .get(name)
             .ok_or(TimeseriesError::TimeseriesNotFound(name.to_string()))?;
 
+        let columns = df.columns().iter().map(|c| to_u64(name, c)).collect::<Result<Vec<_>, _>>()?;
+        let df = DataFrame::new(df.height(), columns)?;
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
         let name = parameter_name(name, "u64-scenario", scenario);
-- 
2.43.0


From 09ce867d51b40f4e1fb0e728675f859edf4214c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 28/37] fix: align timeseries with each model time-step when
 resampling, and report non-uniform series instead of panicking

---
 .../src/timeseries/align_and_resample.rs      | 122 ++++++++++++------
 pywr-schema/src/timeseries/mod.rs             |   2 +
 2 files changed, 82 insertions(+), 42 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index d50e575..227d42a 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -1,8 +1,8 @@
 use crate::timeseries::TimeseriesError;
 use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use jiff::civil::DateTime;
 use polars::{prelude::*, series::ops::NullBehavior};
 use pywr_core::timestep::TimeDomain;
-use std::cmp::Ordering;
 
 pub fn align_and_resample(
     name: &str,
@@ -26,6 +26,11 @@ pub fn align_and_resample(
     // Ensure that df start aligns with models start for any resampling
     let df = slice_start(df, time_col, domain)?;
 
+    // At least two rows are needed to determine a duration.
+    if df.height() < 2 {
+        return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string()));
+    }
+
     // Get the durations of the time column
     let durations = df
         .clone()
@@ -38,7 +43,7 @@ pub fn align_and_resample(
     let durations = durations.column("duration")?.duration()?;
 
     if durations.len() > 1 {
-        todo!("Non-uniform timestep are not yet supported");
+        return Err(TimeseriesError::TimeseriesNonUniform(name.to_string()));
     }
 
     let timeseries_duration = match durations.physical().get(0) {
@@ -46,38 +51,58 @@ pub fn align_and_resample(
         None => return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string())),
     };
 
-    // Use the first timestep of the domain to determine if the timeseries needs to be upsampled or downsampled.
-    let model_duration = domain.first_timestep().duration;
-    let model_duration_string = model_duration.duration_string();
-
-    let df = match model_duration.milliseconds().cmp(&timeseries_duration) {
-        Ordering::Greater => {
-            // Downsample
-            df.clone()
-                .lazy()
-                .group_by_dynamic(
-                    col(time_col),
-                    [],
-                    DynamicGroupOptions {
-                        every: Duration::parse(model_duration_string.as_str()),
-                        period: Duration::parse(model_duration_string.as_str()),
-                        offset: Duration::parse("0d"),
-                        start_by: StartBy::DataPoint,
-                        ..Default::default()
-                    },
-                )
-                .agg([all().exclude_cols([time_col]).as_expr().mean()])
-                .collect()?
-        }
-        Ordering::Less => {
-            // Upsample
-            // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
-            // The df could be extend by the length of the duration it is being resampled to.
-            df.clone()
-                .upsample::<[String; 0]>([], time_col, Duration::parse(model_duration_string.as_str()))?
-                .fill_null(FillNullStrategy::Forward(None))?
+    // The start of each of the model's timesteps, and the range of their durations.
+    let starts: Vec<i64> = domain
+        .timesteps()
+        .iter()
+        .map(|t| to_chrono(&t.date).and_utc().timestamp_millis())
+        .collect();
+    let durations = || domain.timesteps().iter().map(|t| t.duration.milliseconds());
+    let shortest = durations().min().unwrap_or(0);
+    let longest = durations().max().unwrap_or(0);
+
+    let df = if timeseries_duration == shortest && timeseries_duration == longest {
+        df
+    } else if timeseries_duration <= shortest {
+        // Downsample: take the mean of the rows within each of the model's timesteps.
+        let last = domain.last_timestep();
+        let end = starts[starts.len() - 1] + last.duration.milliseconds();
+        let times: Vec<i64> = row_times(&df, time_col)?.into_iter().filter(|t| *t < end).collect();
+
+        // There must not be rows missing from the first timestep.
+        if times.first().is_none_or(|t| t - starts[0] >= timeseries_duration) {
+            return Err(TimeseriesError::DataFrameTimestepMismatch(name.to_string()));
         }
-        Ordering::Equal => df,
+
+        // `slice_start` has removed any rows before the first timestep.
+        let timesteps = times
+            .iter()
+            .map(|t| starts[starts.partition_point(|s| s <= t) - 1])
+            .collect();
+
+        let mut df = df.head(Some(times.len()));
+        df.with_column(time_column(time_col, timesteps)?)?;
+        df.lazy()
+            .group_by_stable([col(time_col)])
+            .agg([all().exclude_cols([time_col]).as_expr().mean()])
+            .collect()?
+    } else if timeseries_duration >= longest {
+        // Upsample: use the most recent row at the start of each of the model's timesteps.
+        // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
+        // The df could be extend by the length of the duration it is being resampled to.
+        let times = row_times(&df, time_col)?;
+        let (timesteps, rows): (Vec<i64>, Vec<IdxSize>) = starts
+            .iter()
+            .filter(|s| times.first().is_some_and(|t| t <= *s) && times.last().is_some_and(|t| *s <= t))
+            .map(|s| (*s, (times.partition_point(|t| t <= s) - 1) as IdxSize))
+            .unzip();
+
+        let mut df = df.take(&IdxCa::from_vec("rows".into(), rows))?;
+        df.with_column(time_column(time_col, timesteps)?)?;
+        df
+    } else {
+        // Some of the model's timesteps are longer, and some shorter, than those of the timeseries.
+        return Err(TimeseriesError::TimeseriesNonUniform(name.to_string()));
     };
 
     let mut df = slice_end(df, time_col, domain)?;
@@ -93,14 +118,29 @@ pub fn align_and_resample(
     Ok(df)
 }
 
+fn to_chrono(date: &DateTime) -> NaiveDateTime {
+    NaiveDateTime::new(
+        NaiveDate::from_ymd_opt(date.year() as i32, date.month() as u32, date.day() as u32).expect("Invalid date"),
+        NaiveTime::from_hms_opt(date.hour() as u32, date.minute() as u32, date.second() as u32).expect("Invalid time"),
+    )
+}
+
+/// The times of the rows in milliseconds.
+fn row_times(df: &DataFrame, time_col: &str) -> Result<Vec<i64>, TimeseriesError> {
+    let times = df.column(time_col)?.datetime()?.physical();
+    Ok(times.into_no_null_iter().collect())
+}
+
+/// Create a new time column from times in milliseconds.
+fn time_column(time_col: &str, times: Vec<i64>) -> Result<Column, TimeseriesError> {
+    let column = Column::new(time_col.into(), times);
+    Ok(column.cast(&DataType::Datetime(TimeUnit::Milliseconds, None))?)
+}
+
 fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let start = domain.first_timestep().date;
 
-    let chrono_start = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(start.year() as i32, start.month() as u32, start.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(start.hour() as u32, start.minute() as u32, start.second() as u32)
-            .expect("Invalid time"),
-    );
+    let chrono_start = to_chrono(&start);
 
     let df = df
         .clone()
@@ -113,10 +153,8 @@ fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<Dat
 fn slice_end(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let end = domain.last_timestep().date;
 
-    let chrono_end = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(end.year() as i32, end.month() as u32, end.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(end.hour() as u32, end.minute() as u32, end.second() as u32).expect("Invalid time"),
-    );
+    let chrono_end = to_chrono(&end);
+
     let df = df
         .clone()
         .lazy()
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2569b32..24990e6 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -43,6 +43,8 @@ pub enum TimeseriesError {
     TimeseriesNotFound(String),
     #[error("The duration of timeseries '{0}' could not be determined.")]
     TimeseriesDurationNotFound(String),
+    #[error("The time-steps of timeseries '{0}' are not uniform, which is not yet supported.")]
+    TimeseriesNonUniform(String),
     #[error("Column '{col}' of timeseries '{name}' contains missing or non-numeric values.")]
     MissingValues { col: String, name: String },
     #[error("Column '{col}' of timeseries '{name}' contains values that are not non-negative integers.")]
-- 
2.43.0


From 74598e74d2770311f18ae12276c8067a821e2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 29/37] fix: keep finished scenarios of the SIMD IPM solver as
 they are

A scenario that has converged waits for the other scenarios of its batch. The
steps computed for it meanwhile were multiplied by zero, which is not a number
if the step is not finite, and the whole run failed.
---
 ipm-simd/src/path_following_direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 1347df9..9531a6a 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -252,6 +252,12 @@ pub fn normal_eqn_step(
     // Set theta to zero for lanes that have completed (status == True)
     theta = status.blend(f64x4::splat(0.0), theta);
 
+    // Lanes that have completed keep their solution, whatever the step that was computed for them
+    // (it might not even be a number).
+    for d in dx.iter_mut().chain(dz.iter_mut()).chain(dy.iter_mut()).chain(dw.iter_mut()) {
+        *d = status.blend(f64x4::splat(0.0), *d);
+    }
+
     vector_update(x, dx, f64x4::splat(1.0), theta);
     vector_update(z, dz, f64x4::splat(1.0), theta);
     vector_update(y, dy, f64x4::splat(1.0), theta);
-- 
2.43.0


From 7831d53f259ffd474865f5bf17df334d649d54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 30/37] fix: respect minimum flows in the SIMD IPM solver

Lower bounds were ignored, so that the flow of catchments, delays and other
nodes with a minimum flow could be anything below it.
---
 pywr-core/src/node.rs                 | 27 ++++++++++++
 pywr-core/src/solvers/ipm_simd/mod.rs | 59 +++++++++++++++++++--------
 2 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/pywr-core/src/node.rs b/pywr-core/src/node.rs
index 55a72b9..6b297b1 100644
--- a/pywr-core/src/node.rs
+++ b/pywr-core/src/node.rs
@@ -628,6 +628,24 @@ impl Node {
         }
     }
 
+    pub fn is_flow_fixed(&self) -> Result<bool, NodeError> {
+        match self {
+            Self::Input(n) => Ok(n.flow_constraints.is_flow_fixed()),
+            Self::Link(n) => Ok(n.flow_constraints.is_flow_fixed()),
+            Self::Output(n) => Ok(n.flow_constraints.is_flow_fixed()),
+            Self::Storage(_) => Err(NodeError::FlowConstraintsUndefined),
+        }
+    }
+
+    pub fn is_min_flow_unconstrained(&self) -> Result<bool, NodeError> {
+        match self {
+            Self::Input(n) => Ok(n.flow_constraints.is_min_flow_unconstrained()),
+            Self::Link(n) => Ok(n.flow_constraints.is_min_flow_unconstrained()),
+            Self::Output(n) => Ok(n.flow_constraints.is_min_flow_unconstrained()),
+            Self::Storage(_) => Err(NodeError::FlowConstraintsUndefined),
+        }
+    }
+
     pub fn get_min_volume(&self, state: &State) -> Result<f64, NodeError> {
         match self {
             Self::Input(_) => Err(NodeError::StorageConstraintsUndefined),
@@ -862,6 +880,15 @@ impl FlowConstraints {
     pub fn is_max_flow_unconstrained(&self) -> bool {
         self.max_flow.is_none()
     }
+
+    pub fn is_min_flow_unconstrained(&self) -> bool {
+        self.min_flow.is_none()
+    }
+
+    /// Is the flow fixed, i.e. are its minimum and maximum the same metric.
+    pub fn is_flow_fixed(&self) -> bool {
+        self.min_flow.is_some() && self.min_flow == self.max_flow
+    }
 }
 
 #[derive(Debug, PartialEq)]
diff --git a/pywr-core/src/solvers/ipm_simd/mod.rs b/pywr-core/src/solvers/ipm_simd/mod.rs
index a2e28ad..34d5c2e 100644
--- a/pywr-core/src/solvers/ipm_simd/mod.rs
+++ b/pywr-core/src/solvers/ipm_simd/mod.rs
@@ -107,6 +107,14 @@ impl Lp {
         self.row_upper[row] = self.row_upper[row].min(value);
     }
 
+    /// Set the right-hand side of an equality row.
+    pub fn apply_fixed_bounds(&mut self, row: usize, b: &[f64]) {
+        // The equality rows follow the inequality rows.
+        let row = self.inequality.nrows() + row;
+        self.row_upper[row] = f64x4::splat(B_MAX);
+        self.apply_row_bounds(row, b);
+    }
+
     fn get_full_matrix(&self) -> Matrix {
         // Start with the inequality matrix
         // Remove last entry from the row starts, this will be the offset added to the second matrix
@@ -363,21 +371,28 @@ impl BuiltSolver {
         for node in network.nodes() {
             match node.node_type() {
                 NodeType::Input | NodeType::Output | NodeType::Link => {
+                    // The upper bound of the flow, and of its negative, i.e. the lower bound.
+                    let (ub, neg_lb): (Vec<_>, Vec<_>) = states
+                        .iter()
+                        .map(
+                            |state| match node.get_bounds(network, state).expect("Failed to get node bounds.") {
+                                NodeBounds::Flow(bounds) => (bounds.max_flow.min(B_MAX), -bounds.min_flow),
+                                _ => panic!("Flow bounds expected for Input, Output and Link nodes."),
+                            },
+                        )
+                        .unzip();
+
+                    // Apply the bounds to LP
+                    if node.is_flow_fixed().unwrap() {
+                        self.lp.apply_fixed_bounds(*row_ids.next().unwrap(), ub.as_slice());
+                        continue;
+                    }
                     if !node.is_max_flow_unconstrained().unwrap() {
-                        // Flow nodes will only respect the upper bounds
-                        let ub: Vec<f64> = states
-                            .iter()
-                            .map(|state| {
-                                // TODO check for non-zero lower bounds and error?
-                                match node.get_bounds(network, state).expect("Failed to get node bounds.") {
-                                    NodeBounds::Flow(bounds) => bounds.max_flow.min(B_MAX),
-                                    _ => panic!("Flow bounds expected for Input, Output and Link nodes."),
-                                }
-                            })
-                            .collect();
-                        // Apply the bounds to LP
                         self.lp.apply_row_bounds(*row_ids.next().unwrap(), ub.as_slice());
                     }
+                    if !node.is_min_flow_unconstrained().unwrap() {
+                        self.lp.apply_row_bounds(*row_ids.next().unwrap(), neg_lb.as_slice());
+                    }
                 }
                 NodeType::Storage => {
                     // Storage nodes instead have two constraints for available and missing volume.
@@ -568,15 +583,27 @@ impl SolverBuilder {
         for node in network.nodes() {
             match node.node_type() {
                 NodeType::Input | NodeType::Output | NodeType::Link => {
+                    let mut row = RowBuilder::upper();
+                    self.add_node(node, 1.0, &mut row);
+
+                    // A fixed flow is an equality constraint; an upper and a lower bound would
+                    // leave nothing in between for an interior point.
+                    if node.is_flow_fixed().unwrap() {
+                        row.upper = Bounds::Fixed;
+                        row_ids.push(self.builder.equality.len());
+                        self.builder.add_row(row);
+                        continue;
+                    }
+
                     // Only create node constraints for nodes that could become constrained
                     if !node.is_max_flow_unconstrained().unwrap() {
-                        // Create empty arrays to store the matrix data
-                        let mut row = RowBuilder::upper();
-                        self.add_node(node, 1.0, &mut row);
-
                         let row_id = self.builder.add_row(row.clone()).unwrap();
                         row_ids.push(row_id);
                     }
+                    if !node.is_min_flow_unconstrained().unwrap() {
+                        let row_id = self.builder.add_row(row.clone_negative()).unwrap();
+                        row_ids.push(row_id);
+                    }
                 }
                 NodeType::Storage => {
                     // Storage nodes have a different type of constraint
-- 
2.43.0


From bb8affbf1eec0f1436b28d64932ac51742bab249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 31/37] fix: complete the states after SIMD IPM solves

The volumes were not kept within their bounds and the proportional volumes were
never updated (a reservoir stayed at its initial proportion for ever), nor were
derived states. This is likely why the piecewise storage tests fail with this
solver (#293).
---
 pywr-core/src/solvers/ipm_simd/mod.rs | 12 +++++++++
 pywr-core/src/state/mod.rs            | 37 +++++++++++++++++++--------
 pywr-core/src/state/storage.rs        | 11 +++-----
 3 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/pywr-core/src/solvers/ipm_simd/mod.rs b/pywr-core/src/solvers/ipm_simd/mod.rs
index 34d5c2e..13905ea 100644
--- a/pywr-core/src/solvers/ipm_simd/mod.rs
+++ b/pywr-core/src/solvers/ipm_simd/mod.rs
@@ -1,5 +1,6 @@
 mod settings;
 
+use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::network::{EdgeIndex, Network};
 use crate::node::{Node, NodeBounds, NodeType};
 use crate::solvers::col_edge_map::{ColumnEdgeMap, ColumnEdgeMapBuilder};
@@ -687,6 +688,8 @@ impl MultiStateSolver for SimdIpmF64Solver {
         // TODO complete the timings
         let timings = SolverTimings::default();
 
+        let primal_feasibility = self.tolerances.primal_feasibility;
+
         // TODO this will miss off anything that doesn't divide in to 4
         states
             .par_chunks_mut(4)
@@ -727,6 +730,15 @@ impl MultiStateSolver for SimdIpmF64Solver {
                     }
                 }
 
+                // The feasibility of the solution is relative to its size
+                let norm = solution.iter().map(|&x| x * x).sum::<f64x4>().sqrt();
+                let tolerance = primal_feasibility * (1.0 + norm);
+                for (state, tolerance) in chunk_states.iter_mut().zip(tolerance.as_array()) {
+                    state
+                        .complete_with_tolerance(network, timestep, tolerance.max(STORAGE_MASS_BALANCE_TOLERANCE))
+                        .unwrap();
+                }
+
                 timings.save_solution += start_save_solution.elapsed();
             });
 
diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 30bd154..582b451 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -1,6 +1,7 @@
 mod flow;
 mod storage;
 
+use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::edge::Edge;
 use crate::metric::SimpleMetricF64Error;
 use crate::models::MultiNetworkTransferIndex;
@@ -76,9 +77,9 @@ impl NodeState {
         };
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, tolerance: f64) {
         if let Self::Storage(s) = self {
-            s.finalise(min_volume, max_volume, timestep)
+            s.finalise(min_volume, max_volume, tolerance)
         }
     }
 }
@@ -170,8 +171,8 @@ impl VirtualStorageState {
         }
     }
 
-    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
-        self.storage.finalise(min_volume, max_volume, timestep)
+    fn finalise_volume(&mut self, min_volume: f64, max_volume: f64, tolerance: f64) {
+        self.storage.finalise(min_volume, max_volume, tolerance)
     }
 }
 
@@ -573,11 +574,11 @@ impl NetworkState {
         node_index: &NodeIndex,
         min_volume: f64,
         max_volume: f64,
-        timestep: &Timestep,
+        tolerance: f64,
     ) -> Result<(), NetworkStateError> {
         match self.node_states.get_mut(*node_index.deref()) {
             Some(s) => {
-                s.finalise_volume(min_volume, max_volume, timestep);
+                s.finalise_volume(min_volume, max_volume, tolerance);
                 Ok(())
             }
             None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
@@ -590,11 +591,11 @@ impl NetworkState {
         node_index: &VirtualStorageIndex,
         min_volume: f64,
         max_volume: f64,
-        timestep: &Timestep,
+        tolerance: f64,
     ) -> Result<(), NetworkStateError> {
         match self.virtual_storage_states.get_mut(*node_index.deref()) {
             Some(s) => {
-                s.finalise_volume(min_volume, max_volume, timestep);
+                s.finalise_volume(min_volume, max_volume, tolerance);
                 Ok(())
             }
             None => Err(NetworkStateError::VirtualStorageIndexNotFound(*node_index)),
@@ -1147,6 +1148,22 @@ impl State {
     ///   - Derived states (e.g. virtual storage volume) are updated
     ///   - Volumes are within bounds
     pub fn complete(&mut self, model: &Network, timestep: &Timestep) -> Result<(), StateError> {
+        self.complete_with_tolerance(model, timestep, STORAGE_MASS_BALANCE_TOLERANCE)
+    }
+
+    /// Complete a timestep with flows that meet their constraints up to `flow_tolerance`.
+    ///
+    /// See [`State::complete`].
+    pub fn complete_with_tolerance(
+        &mut self,
+        model: &Network,
+        timestep: &Timestep,
+        flow_tolerance: f64,
+    ) -> Result<(), StateError> {
+        // Solvers find flows to a tolerance, so that the tolerance of the volume grows with the
+        // length of the time-step.
+        let tolerance = flow_tolerance * timestep.days().max(1.0);
+
         for node in model.nodes().iter() {
             if let Node::Storage(storage) = node {
                 let node_index = node.index();
@@ -1154,7 +1171,7 @@ impl State {
                 let max_volume = storage.get_max_volume(self)?;
 
                 self.network
-                    .finalise_node_volume(&node_index, min_volume, max_volume, timestep)?;
+                    .finalise_node_volume(&node_index, min_volume, max_volume, tolerance)?;
             }
         }
 
@@ -1165,7 +1182,7 @@ impl State {
             let min_volume = node.get_min_volume(self)?;
             let max_volume = node.get_max_volume(self)?;
             self.network
-                .finalise_virtual_storage_node_volume(&node_index, min_volume, max_volume, timestep)?;
+                .finalise_virtual_storage_node_volume(&node_index, min_volume, max_volume, tolerance)?;
         }
 
         Ok(())
diff --git a/pywr-core/src/state/storage.rs b/pywr-core/src/state/storage.rs
index 3b42001..66fd3f1 100644
--- a/pywr-core/src/state/storage.rs
+++ b/pywr-core/src/state/storage.rs
@@ -1,4 +1,3 @@
-use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::state::FlowState;
 use crate::timestep::Timestep;
 use num::Zero;
@@ -76,17 +75,15 @@ impl StorageState {
     /// Finalise the storage state at the end of the time-step.
     ///
     /// This will clamp the volume to the min and max volume range and update the proportional volume.
-    pub fn finalise(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
-        self.clamp(min_volume, max_volume, timestep);
+    pub fn finalise(&mut self, min_volume: f64, max_volume: f64, tolerance: f64) {
+        self.clamp(min_volume, max_volume, tolerance);
         self.max_volume = max_volume;
     }
 
     /// Ensure the volume is within the min and max volume range (inclusive). If the volume
     /// is more than the tolerance outside the min or max volume then this function will panic,
-    /// reporting a mass-balance message. Solvers find flows to a tolerance, so that the tolerance
-    /// of the volume grows with the length of the time-step.
-    fn clamp(&mut self, min_volume: f64, max_volume: f64, timestep: &Timestep) {
-        let tolerance = STORAGE_MASS_BALANCE_TOLERANCE * timestep.days().max(1.0);
+    /// reporting a mass-balance message.
+    fn clamp(&mut self, min_volume: f64, max_volume: f64, tolerance: f64) {
         if (self.volume - min_volume) < -tolerance {
             panic!(
                 "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
-- 
2.43.0


From 30cb91385ad5bc6fecfd932cfd8043c55af7e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 32/37] fix: report failures of the SIMD IPM solver as errors

A problem that the solver cannot solve aborted the process (or the thread), and
did not say at which time-step.
---
 ipm-simd/src/lib.rs                   | 31 +++++++++++---
 ipm-simd/src/path_following_direct.rs | 10 ++---
 pywr-core/src/solvers/ipm_simd/mod.rs | 58 ++++++++++++++++-----------
 pywr-core/src/solvers/mod.rs          |  6 +++
 4 files changed, 71 insertions(+), 34 deletions(-)

diff --git a/ipm-simd/src/lib.rs b/ipm-simd/src/lib.rs
index acc65ad..34d740c 100644
--- a/ipm-simd/src/lib.rs
+++ b/ipm-simd/src/lib.rs
@@ -8,8 +8,9 @@ use nalgebra_sparse::CsrMatrix;
 use path_following_direct::ANormIndices;
 use path_following_direct::LDecompositionIndices;
 use path_following_direct::{LIndices, LTIndices};
+use std::error::Error;
 use std::f64;
-use std::fmt::Debug;
+use std::fmt::{Debug, Display, Formatter};
 use std::num::NonZeroUsize;
 use wide::f64x4;
 
@@ -120,6 +121,26 @@ impl Default for Tolerances {
     }
 }
 
+/// The reason why no solution was found.
+#[derive(Copy, Clone, PartialEq, Eq, Debug)]
+pub enum SolveError {
+    /// The iterates are no longer numbers.
+    NotANumber,
+    /// Some of the lanes have not converged within the maximum number of iterations.
+    NotConverged,
+}
+
+impl Display for SolveError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::NotANumber => write!(f, "NaN encountered during interior point method solve"),
+            Self::NotConverged => write!(f, "interior point method failed to converge for all SIMD lanes"),
+        }
+    }
+}
+
+impl Error for SolveError {}
+
 pub struct PathFollowingDirectSimdSolver {
     buffers: PathFollowingDirectSimdData,
 }
@@ -147,7 +168,7 @@ impl PathFollowingDirectSimdSolver {
         c: &[f64x4],
         tolerances: &Tolerances,
         max_iterations: NonZeroUsize,
-    ) -> &[f64x4] {
+    ) -> Result<&[f64x4], SolveError> {
         normal_eqn_init(
             &mut self.buffers.path_buffers.x,
             &mut self.buffers.path_buffers.z,
@@ -184,7 +205,7 @@ impl PathFollowingDirectSimdSolver {
                 &mut self.buffers.tmp,
                 &mut self.buffers.rhs,
                 tolerances,
-            );
+            )?;
 
             if status.all() {
                 break Some(iter);
@@ -194,11 +215,11 @@ impl PathFollowingDirectSimdSolver {
         };
 
         if last_iteration.is_none() {
-            panic!("Interior point method failed to converged all SIMD lanes.")
+            return Err(SolveError::NotConverged);
         }
 
         // println!("Finished after iterations: {}", last_iteration);
         // println!("x: {:#?}", self.buffers.path_buffers.x);
-        self.buffers.path_buffers.x.as_slice()
+        Ok(self.buffers.path_buffers.x.as_slice())
     }
 }
diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 9531a6a..4a4c62e 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -1,5 +1,5 @@
 use super::{Matrix, dual_feasibility, primal_feasibility};
-use crate::Tolerances;
+use crate::{SolveError, Tolerances};
 use crate::common::{compute_dx_dz_dw, dot_product, normal_eqn_rhs, vector_norm, vector_set, vector_update};
 use ipm_common::SparseNormalCholeskyIndices;
 use wide::f64x4;
@@ -189,7 +189,7 @@ pub fn normal_eqn_step(
     tmp: &mut [f64x4],
     tmp2: &mut [f64x4],
     tolerances: &Tolerances,
-) -> f64x4 {
+) -> Result<f64x4, SolveError> {
     // printf("%d %d", gid, wsize);
 
     // Compute feasibilities
@@ -205,7 +205,7 @@ pub fn normal_eqn_step(
 
     let is_nan = gamma.is_nan();
     if is_nan.any() {
-        panic!("NaN encountered during IPM solve!")
+        return Err(SolveError::NotANumber);
     }
 
     // #ifdef DEBUG_GID
@@ -220,7 +220,7 @@ pub fn normal_eqn_step(
 
     if status.all() {
         // Feasible and optimal; no further work!
-        return status;
+        return Ok(status);
     }
 
     // Solve normal equations
@@ -263,7 +263,7 @@ pub fn normal_eqn_step(
     vector_update(y, dy, f64x4::splat(1.0), theta);
     vector_update(w, dw, f64x4::splat(1.0), theta);
 
-    status
+    Ok(status)
 }
 
 pub fn normal_eqn_init(x: &mut [f64x4], z: &mut [f64x4], y: &mut [f64x4], w: &mut [f64x4]) {
diff --git a/pywr-core/src/solvers/ipm_simd/mod.rs b/pywr-core/src/solvers/ipm_simd/mod.rs
index 13905ea..415b50d 100644
--- a/pywr-core/src/solvers/ipm_simd/mod.rs
+++ b/pywr-core/src/solvers/ipm_simd/mod.rs
@@ -370,17 +370,25 @@ impl BuiltSolver {
         let dt = timestep.days();
 
         for node in network.nodes() {
+            let bounds = states
+                .iter()
+                .map(|state| node.get_bounds(network, state))
+                .collect::<Result<Vec<_>, _>>()
+                .map_err(|source| SolverSolveError::NodeError {
+                    name: node.name().to_string(),
+                    sub_name: node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
             match node.node_type() {
                 NodeType::Input | NodeType::Output | NodeType::Link => {
                     // The upper bound of the flow, and of its negative, i.e. the lower bound.
-                    let (ub, neg_lb): (Vec<_>, Vec<_>) = states
+                    let (ub, neg_lb): (Vec<_>, Vec<_>) = bounds
                         .iter()
-                        .map(
-                            |state| match node.get_bounds(network, state).expect("Failed to get node bounds.") {
-                                NodeBounds::Flow(bounds) => (bounds.max_flow.min(B_MAX), -bounds.min_flow),
-                                _ => panic!("Flow bounds expected for Input, Output and Link nodes."),
-                            },
-                        )
+                        .map(|bounds| match bounds {
+                            NodeBounds::Flow(bounds) => (bounds.max_flow.min(B_MAX), -bounds.min_flow),
+                            _ => panic!("Flow bounds expected for Input, Output and Link nodes."),
+                        })
                         .unzip();
 
                     // Apply the bounds to LP
@@ -397,14 +405,12 @@ impl BuiltSolver {
                 }
                 NodeType::Storage => {
                     // Storage nodes instead have two constraints for available and missing volume.
-                    let (avail, missing): (Vec<_>, Vec<_>) = states
+                    let (avail, missing): (Vec<_>, Vec<_>) = bounds
                         .iter()
-                        .map(
-                            |state| match node.get_bounds(network, state).expect("Failed to get node bounds.") {
-                                NodeBounds::Volume(bounds) => (bounds.available / dt, bounds.missing / dt),
-                                _ => panic!("Volume bounds expected for Storage nodes."),
-                            },
-                        )
+                        .map(|bounds| match bounds {
+                            NodeBounds::Volume(bounds) => (bounds.available / dt, bounds.missing / dt),
+                            _ => panic!("Volume bounds expected for Storage nodes."),
+                        })
                         .unzip();
                     // Storage nodes add two rows the LP. First is the bounds on increase
                     // in volume. The second is the bounds on decrease in volume.
@@ -691,14 +697,14 @@ impl MultiStateSolver for SimdIpmF64Solver {
         let primal_feasibility = self.tolerances.primal_feasibility;
 
         // TODO this will miss off anything that doesn't divide in to 4
-        states
+        let results: Vec<Result<(), SolverSolveError>> = states
             .par_chunks_mut(4)
             .zip(&mut self.built)
             .zip(&mut self.ipm)
-            .for_each(|((chunk_states, built), ipm)| {
+            .map(|((chunk_states, built), ipm)| {
                 let mut timings = SolverTimings::default();
 
-                built.update(network, timestep, chunk_states, &mut timings).unwrap();
+                built.update(network, timestep, chunk_states, &mut timings)?;
 
                 let now = Instant::now();
 
@@ -707,7 +713,7 @@ impl MultiStateSolver for SimdIpmF64Solver {
                     built.col_obj_coef(),
                     &self.tolerances,
                     self.max_iterations,
-                );
+                )?;
 
                 timings.solve = now.elapsed();
 
@@ -724,9 +730,9 @@ impl MultiStateSolver for SimdIpmF64Solver {
 
                     for (state, flow) in chunk_states.iter_mut().zip(flows.as_array()) {
                         if !flow.is_finite() {
-                            panic!("Non-finite flow encountered from solver. Edge: {edge:#?}, value: {flow}")
+                            return Err(SolverSolveError::SimdIpmNonFiniteFlow);
                         }
-                        state.get_mut_network_state().add_flow(edge, timestep, *flow).unwrap();
+                        state.get_mut_network_state().add_flow(edge, timestep, *flow)?;
                     }
                 }
 
@@ -734,13 +740,17 @@ impl MultiStateSolver for SimdIpmF64Solver {
                 let norm = solution.iter().map(|&x| x * x).sum::<f64x4>().sqrt();
                 let tolerance = primal_feasibility * (1.0 + norm);
                 for (state, tolerance) in chunk_states.iter_mut().zip(tolerance.as_array()) {
-                    state
-                        .complete_with_tolerance(network, timestep, tolerance.max(STORAGE_MASS_BALANCE_TOLERANCE))
-                        .unwrap();
+                    state.complete_with_tolerance(network, timestep, tolerance.max(STORAGE_MASS_BALANCE_TOLERANCE))?;
                 }
 
                 timings.save_solution += start_save_solution.elapsed();
-            });
+
+                Ok(())
+            })
+            .collect();
+
+        // The first error (in scenario order) is returned.
+        results.into_iter().collect::<Result<(), _>>()?;
 
         Ok(timings)
     }
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index c8f0893..a361254 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -188,6 +188,12 @@ pub enum SolverSolveError {
     #[cfg(feature = "microlp")]
     #[error("MicroLP error: {0}")]
     MicroLpError(#[from] MicroLpError),
+    #[cfg(feature = "ipm-simd")]
+    #[error("SIMD IPM error: {0}")]
+    SimdIpmError(#[from] ::ipm_simd::SolveError),
+    #[cfg(feature = "ipm-simd")]
+    #[error("Non-finite flow from SIMD IPM")]
+    SimdIpmNonFiniteFlow,
 }
 
 pub trait Solver: Send {
-- 
2.43.0


From 2a0df0961a4644523900629bec0d9da7a5530751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 33/37] fix: measure the optimality of the SIMD IPM solver
 relative to the objective

---
 ipm-simd/src/common.rs                | 5 -----
 ipm-simd/src/path_following_direct.rs | 7 ++++---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ipm-simd/src/common.rs b/ipm-simd/src/common.rs
index 335dd19..aefccf6 100644
--- a/ipm-simd/src/common.rs
+++ b/ipm-simd/src/common.rs
@@ -57,11 +57,6 @@ pub fn vector_set(x: &mut [f64x4], scalar: f64x4) {
     x.iter_mut().for_each(|a| *a = scalar)
 }
 
-/// return max(x)
-pub fn vector_norm(x: &[f64x4]) -> f64x4 {
-    x.iter().map(|&a| a * a).sum::<f64x4>().sqrt()
-}
-
 /// Compute the right-hand side of the system of primal normal equations
 ///
 /// `rhs = -(b - A.dot(x) - mu/y - A.dot(x * (c - At.dot(y) + mu/x)/z))`
diff --git a/ipm-simd/src/path_following_direct.rs b/ipm-simd/src/path_following_direct.rs
index 4a4c62e..962c17e 100644
--- a/ipm-simd/src/path_following_direct.rs
+++ b/ipm-simd/src/path_following_direct.rs
@@ -1,6 +1,6 @@
 use super::{Matrix, dual_feasibility, primal_feasibility};
 use crate::{SolveError, Tolerances};
-use crate::common::{compute_dx_dz_dw, dot_product, normal_eqn_rhs, vector_norm, vector_set, vector_update};
+use crate::common::{compute_dx_dz_dw, dot_product, normal_eqn_rhs, vector_set, vector_update};
 use ipm_common::SparseNormalCholeskyIndices;
 use wide::f64x4;
 
@@ -200,8 +200,9 @@ pub fn normal_eqn_step(
     let mut gamma = dot_product(z, x) + dot_product(w, y);
 
     let mu = delta * gamma / (at.size + w.len()) as f64;
-    // update relative tolerance
-    gamma /= 1.0 + vector_norm(x) + vector_norm(y);
+    // The tolerance is relative to the objective. (It is not to the size of x and y: y grows without bound where
+    // the problem has no interior, e.g. where a node's maximum flow is zero.)
+    gamma /= 1.0 + dot_product(c, x).abs();
 
     let is_nan = gamma.is_nan();
     if is_nan.any() {
-- 
2.43.0


From 44f906ed78e76a80080c785b76e3c23d72ec4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 34/37] fix: outflow of a routed river reach with losses is the
 flow that leaves it

The Outflow attribute and component of a River with both a routing method and
a loss factor was the flow before the loss, unlike that of every other node
with losses (and of a River without routing): what was reported, or limited by
virtual nodes, was more than what went down the outgoing edges.
---
 pywr-schema/src/nodes/river.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/nodes/river.rs b/pywr-schema/src/nodes/river.rs
index 3b514b0..971ad40 100644
--- a/pywr-schema/src/nodes/river.rs
+++ b/pywr-schema/src/nodes/river.rs
@@ -221,15 +221,15 @@ impl RiverNode {
                 }
             }
             RiverNodeComponent::Outflow => {
-                match self.routing_method.is_some() {
-                    false => {
-                        // Simple link node
-                        vec![self.net_sub_name()]
-                    }
-                    true => {
-                        // Routing
+                match (self.loss_factor.is_some(), self.routing_method.is_some()) {
+                    (false, true) => {
+                        // Routing, but no loss
                         vec![self.input_sub_name()]
                     }
+                    _ => {
+                        // Simple link node, or the flow net of any loss
+                        vec![self.net_sub_name()]
+                    }
                 }
             }
             RiverNodeComponent::Loss => {
-- 
2.43.0


From 348111f190ce247e6aea8722f4ca1e711a88abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 35/37] fix: virtual storage applies each factor to all nodes
 of its member

A member made of several nodes (e.g. a river gauge, a piecewise link or a link
with soft limits) used up the factors of the members after it: the flows of
the last members were counted with the wrong factor or not counted at all.
---
 .../nodes/virtual_nodes/virtual_storage.rs    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index aafc2b7..212d3b4 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -216,9 +216,11 @@ impl VirtualStorageNode {
 impl VirtualStorageNode {
     /// This returns the node indices for flow constraints based on the nodes referenced in this virtual storage node.
     ///
+    /// The nodes are grouped by the reference they come from, as one reference can have several nodes.
+    ///
     /// Note that this is a private function, as it is not supported using this node itself
     /// inside a flow constraint.
-    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<UnresolvedNode>, SchemaError> {
+    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<Vec<UnresolvedNode>>, SchemaError> {
         let nodes = self
             .nodes
             .iter()
@@ -230,10 +232,7 @@ impl VirtualStorageNode {
                     })?
                     .nodes_for_flow_constraints(node_ref.component)
             })
-            .collect::<Result<Vec<_>, _>>()?
-            .into_iter()
-            .flatten()
-            .collect();
+            .collect::<Result<Vec<_>, _>>()?;
         Ok(nodes)
     }
     pub fn add_to_network(
@@ -241,7 +240,16 @@ impl VirtualStorageNode {
         network: &mut pywr_core::network::NetworkBuilder,
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
-        let nodes = self.nodes_for_flow_constraints(args)?;
+        let node_groups = self.nodes_for_flow_constraints(args)?;
+        // A reference's factor applies to every one of its nodes.
+        let factors = self.factors.as_ref().map(|factors| {
+            node_groups
+                .iter()
+                .zip(factors)
+                .flat_map(|(group, factor)| std::iter::repeat_n(*factor, group.len()))
+                .collect::<Vec<_>>()
+        });
+        let nodes: Vec<_> = node_groups.into_iter().flatten().collect();
 
         let mut builder = VirtualStorageNodeBuilder::new(self.meta.name.as_str(), &nodes);
 
@@ -292,7 +300,7 @@ impl VirtualStorageNode {
             builder.rolling_window(rolling_window);
         }
 
-        if let Some(factors) = &self.factors {
+        if let Some(factors) = &factors {
             builder.factors(factors);
         }
 
-- 
2.43.0


From 6f13fcec248ae8e9c0c1a7b94ca10573613abd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 36/37] fix: virtual storage resets on a day of the year with
 steps of any length

The reset was made in every time-step that starts on the day: never if no
time-step starts on it (time-steps longer than a day), and repeatedly with
time-steps shorter than a day.
---
 pywr-core/src/virtual_storage.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 9d39268..f91d330 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -7,7 +7,7 @@ use crate::network::{Network, ResolutionMaps, VirtualStorageIndex};
 use crate::node::{NodeMeta, StorageConstraints, StorageInitialVolume, UnresolvedNode, UnresolvedStorageInitialVolume};
 use crate::state::{NetworkStateError, State, StateError, VirtualStorageState};
 use crate::timestep::Timestep;
-use jiff::civil::{Date, DateTime};
+use jiff::civil::{Date, DateTime, Time};
 use std::num::NonZeroUsize;
 use thiserror::Error;
 
@@ -418,7 +418,17 @@ impl VirtualStorageNode {
             match self.reset {
                 VirtualStorageReset::Never => false,
                 VirtualStorageReset::DayOfYear { day, month } => {
-                    (timestep.date.day() == day) && (timestep.date.month() == month)
+                    // Get the date when the virtual storage was last reset
+                    match state
+                        .get_network_state()
+                        .get_virtual_storage_last_reset(&self.index())?
+                    {
+                        // Reset if the day has been reached since the last reset; time-steps may be
+                        // longer or shorter than a day.
+                        Some(last_reset) => latest_day_of_year(&timestep.date.date(), day, month)
+                            .is_some_and(|reset_date| last_reset.date < reset_date.to_datetime(Time::midnight())),
+                        None => true,
+                    }
                 }
                 VirtualStorageReset::NumberOfMonths { months } => {
                     // Get the date when the virtual storage was last reset
@@ -497,6 +507,14 @@ impl VirtualStorageNode {
     }
 }
 
+/// The latest date on or before `current` that is the given day of the year.
+fn latest_day_of_year(current: &Date, day: i8, month: i8) -> Option<Date> {
+    [current.year(), current.year() - 1]
+        .into_iter()
+        .filter_map(|year| Date::new(year, month, day).ok())
+        .find(|date| date <= current)
+}
+
 /// Calculate the number of months between `current` [Timestep] and the `last_reset` [Timestep].
 fn months_since_last_reset(current: &DateTime, last_reset: &DateTime) -> i32 {
     (current.year() - last_reset.year()) as i32 * 12 + current.month() as i32 - last_reset.month() as i32
-- 
2.43.0


From dedbd670b8a93faba33e62abd0b2603fb07713ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 37/37] fix: monthly profile interpolated to last days within
 the last day of a month

After midnight of a month's last day the interpolation went on past the month's
value instead of towards the next month's.
---
 pywr-core/src/parameters/profiles/monthly.rs | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/monthly.rs b/pywr-core/src/parameters/profiles/monthly.rs
index 594c552..295bc15 100644
--- a/pywr-core/src/parameters/profiles/monthly.rs
+++ b/pywr-core/src/parameters/profiles/monthly.rs
@@ -40,12 +40,14 @@ fn interpolate_first(date: &DateTime, first_value: f64, last_value: f64) -> f64
 /// Interpolate between `first_value` and `last_value` based on the day of the month. The first
 /// value is assumed to correspond to the last day of the previous month.
 fn interpolate_last(date: &DateTime, first_value: f64, last_value: f64) -> f64 {
-    let end_of_last_month = date
-        .checked_add(-1.months())
-        .expect("Datetime overflowed!")
-        .last_of_month()
-        .start_of_day();
-    let end_of_month = date.last_of_month().start_of_day();
+    // On the last day of a month the interpolation towards the end of the next one begins.
+    let (end_of_last_month, end_of_month) = if date.day() == date.days_in_month() {
+        (*date, date.checked_add(1.months()).expect("Datetime overflowed!"))
+    } else {
+        (date.checked_add(-1.months()).expect("Datetime overflowed!"), *date)
+    };
+    let end_of_last_month = end_of_last_month.last_of_month().start_of_day();
+    let end_of_month = end_of_month.last_of_month().start_of_day();
 
     let duration_of_month = end_of_month.duration_since(end_of_last_month);
     let since_end_of_last_month = date.duration_since(end_of_last_month);
@@ -75,10 +77,14 @@ impl SimpleParameter<f64> for MonthlyProfileParameter {
                     interpolate_first(&ctx.timestep.date, first_value, last_value)
                 }
                 MonthlyInterpDay::Last => {
-                    let current_month = ctx.timestep.date.month();
+                    let mut current_month = ctx.timestep.date.month();
+                    // After the last day has begun the next value is that of the next month.
+                    if ctx.timestep.date.day() == ctx.timestep.date.days_in_month() {
+                        current_month = current_month % 12 + 1;
+                    }
                     let last_month = if current_month == 1 { 12 } else { current_month - 1 };
                     let first_value = self.values[last_month as usize - 1];
-                    let last_value = self.values[ctx.timestep.date.month() as usize - 1];
+                    let last_value = self.values[current_month as usize - 1];
 
                     interpolate_last(&ctx.timestep.date, first_value, last_value)
                 }
-- 
2.43.0

