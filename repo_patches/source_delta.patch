From 4bd301cb0a2ab7e55b7f1e7c120748acedd6959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 01/43] fix: keep invariant constraints on the same inputs when
 time advances

The i-th block of input columns stands for the i-th most recent input, so invariant
constraints added at an earlier step referred to different inputs one step later and
trimmed reachable sets (and counter-examples) were wrong in modes with inputs.
---
 hylaa/aggdag.py   |  4 ++++
 hylaa/core.py     |  4 ++++
 hylaa/lputil.py   | 16 ++++++++++++++++
 hylaa/stateset.py | 16 ++++++++++++----
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..7318bb5 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -512,6 +512,7 @@ class AggDagNode(Freezable):
                 row = lputil.add_init_constraint(state.lpi, vec, rhs, state.basis_matrix,
                                                  state.input_effects_list)
                 state.invariant_constraint_rows[invariant_index] = row
+                state.invariant_row_list.append(row)
                 is_stronger = False
             else:
                 # strengthen existing constraint possibly
@@ -519,6 +520,9 @@ class AggDagNode(Freezable):
                     state.basis_matrix, state.input_effects_list)
                 state.invariant_constraint_rows[invariant_index] = row
 
+                if not is_stronger: # the old constraint was added back as the last row
+                    state.invariant_row_list.append(state.lpi.get_num_rows() - 1)
+
             # ad the op to the aggdag
             op = OpInvIntersect(step, self, invariant_index, is_stronger)
             self.op_list.append(op)
diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..c76f409 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -178,6 +178,7 @@ class Core(Freezable):
                     row = lputil.add_init_constraint(state.lpi, vec, rhs, state.basis_matrix,
                                                      state.input_effects_list)
                     state.invariant_constraint_rows[invariant_index] = row
+                    state.invariant_row_list.append(row)
                     is_stronger = False
                 else:
                     # strengthen existing constraint possibly
@@ -185,6 +186,9 @@ class Core(Freezable):
                         state.basis_matrix, state.input_effects_list)
                     state.invariant_constraint_rows[invariant_index] = row
 
+                    if not is_stronger: # the old constraint was added back as the last row
+                        state.invariant_row_list.append(state.lpi.get_num_rows() - 1)
+
                 if add_ops_to_aggdag:
                     self.aggdag.add_invariant_op(state.cur_step_in_mode, invariant_index, is_stronger)
 
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..ceacc35 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,22 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+def shift_input_columns(lpi, row_indices, num_cols):
+    '''
+    shift the coefficients on the per-step input columns num_cols to the right, in each of the passed-in rows
+
+    The i-th block of input columns always stands for the i-th most recent input. When time advances, constraints
+    added at earlier steps must be shifted by one block in order to keep referring to the same inputs.
+    '''
+
+    first_col = lpi.input_effects_offsets[1] + lpi.dims
+
+    for row_index in row_indices:
+        row = lpi.get_row(row_index)
+        row.indices[row.indices >= first_col] += num_cols
+
+        lpi.set_constraints_csr(row, offset=(row_index, 0))
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..a6be63e 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -51,6 +51,9 @@ class StateSet(Freezable):
         # this is used to eliminate redundant constraints as the lpi is intersected with the invariant at each step
         self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
 
+        # all the LP rows of invariant constraints (including ones which weren't replaced by stronger constraints)
+        self.invariant_row_list = []
+
         # mode might be an error mode, in which case a_csr is None
         self.basis_matrix = None if mode.a_csr is None else np.identity(mode.a_csr.shape[0])
 
@@ -131,12 +134,10 @@ class StateSet(Freezable):
                 # if we're doing multiple steps here we need to get each step's input effects matrix
                 for step in range(self.cur_step_in_mode + 1, step_in_mode):
                     _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)
-                    self.input_effects_list.append(ie_mat)
-                    lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
+                    self._add_input_effects(ie_mat)
 
                 # add the input effects matrix for the final step (computed before with basis matrix)
-                self.input_effects_list.append(input_effects_matrix)
-                lputil.add_input_effects_matrix(self.lpi, input_effects_matrix, self.mode, self.lgg_beta)
+                self._add_input_effects(input_effects_matrix)
                 Timers.toc('input effects matrix')
 
                 #print(f".ss lp columns = {self.lpi.get_num_cols()}")
@@ -148,6 +149,13 @@ class StateSet(Freezable):
 
         Timers.toc("step")
 
+    def _add_input_effects(self, ie_mat):
+        'add the input effects of a single step, existing invariant constraints keep referring to the same inputs'
+
+        self.input_effects_list.append(ie_mat)
+        lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
+        lputil.shift_input_columns(self.lpi, self.invariant_row_list, ie_mat.shape[1])
+
     def verts(self, plotman, subplot=0):
         'get the vertices for plotting this state set, wraps around so rv[0] == rv[-1]'
 
-- 
2.43.0


From 343cb01b6efd6ee2c399d87d53853989bc18afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 02/43] fix: do not skip the remaining steps of zero dynamics
 modes which have inputs

With A = 0 and inputs the state still evolves, stopping after a single step missed
reachable states.
---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index c76f409..c8a25d1 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -241,7 +241,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                                                                    self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 53a59b253ff50166abfe5f74c3081bf9e547ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 03/43] fix: forget a taken time-triggered transition when the
 next state is popped

If the transition was taken at the time bound, the flag stayed set and the next state
from the waiting list was dropped without being explored.
---
 hylaa/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index c8a25d1..a6410e8 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -257,6 +257,9 @@ class Core(Freezable):
 
         Timers.tic('do_step_pop')
 
+        # the flag may still be set, if the previous state reached the time bound as it took its transition
+        self.took_tt_transition = False
+
         self.plotman.state_popped() # reset certain per-mode plot variables
         self.aggdag.print_waiting_list()
 
-- 
2.43.0


From 07174b551fb79cb11e6fa924e18f5a0470acf8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/43] fix: compute_radius_inf looked at the wrong LP column

The current variables start at cur_vars_offset, column n is an initial state variable,
so the LGG bloating factors were too small after resets or scaling.
---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index ceacc35..ca63146 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1088,7 +1088,7 @@ def compute_radius_inf(lpi):
 
             lp_result = lpi.minimize(dir_vec)
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[lpi.cur_vars_offset + n]))
 
     return max_val
 
-- 
2.43.0


From 26c237e1369285cd7bdda20e190dc4997d73a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/43] fix: reorthogonalize_matrix overwrote its own result
 and its argument

When the rows of the input were used up, the last direction was projected onto itself and
became zero, and the projections were done in place in the passed-in matrix.
---
 hylaa/lputil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index ca63146..80107f5 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -974,6 +974,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
@@ -991,7 +993,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = mat[next_index].copy()
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From e104286b2203a451f3653dd1c5a44dab2ba88b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 06/43] fix: comparing linear constraints with different
 numbers of nonzeros

almost_equals compared index arrays of different lengths, which raised an exception (or
broadcast) during guard strengthening.
---
 hylaa/hybrid_automaton.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..bbe19f2 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,18 +37,8 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
+        elif (abs(self.csr - other.csr) > tol).nnz > 0:
             rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
-            rv = False
-        else:
-            for i in range(len(self.csr.data)):
-                a = self.csr.data[i]
-                b = other.csr.data[i]
-
-                if abs(a - b) > tol:
-                    rv = False
-                    break
 
         return rv
 
-- 
2.43.0


From d34d0551778f28a5c0ec02104f834edebd4927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/43] fix: get_rhs returned the upper bound of >= rows

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 953c474e13af08c681e354d140fe875ad0df5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 08/43] fix: counter-examples from zonotope initial sets had
 auxiliary variables in their start state

from_constraints also extended the passed-in list of names in place.
---
 hylaa/lputil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 80107f5..0f06c97 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -123,9 +123,12 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     lpi.add_rows_equal_zero(dims)
 
     if names is None:
-        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(csr.shape[1])]
-        
-    names += ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+        names = ["m{}_i{}".format(mode.mode_id, var_index) for var_index in range(dims)]
+
+        # auxiliary variables (like the ones of zonotopes) aren't part of the initial state
+        names += ["aux{}".format(var_index) for var_index in range(dims, csr.shape[1])]
+
+    names = names + ["m{}_c{}".format(mode.mode_id, var_index) for var_index in range(dims)]
     
     lpi.add_cols(names)
 
-- 
2.43.0


From f9a5413e3a77caecad989bfa8ba4cf03b4b70e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 09/43] fix: replay_counterexample sampled one point too few
 per segment

The points were not at multiples of the step size (so the invariant was checked at the
wrong times) and segments with a single step did not work at all.
---
 hylaa/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..99fc128 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -229,7 +229,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
@@ -257,7 +257,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         for left, right in zip(lhs, t.guard_rhs):
             assert left <= right + epsilon, "guard was not enabled during replay counterexample"
 
-        assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
+        assert t.reset_minkowski_csr is None, "unimplemented: resets with minkowski sums"
 
         if t.reset_csr is not None:
             poststate = t.reset_csr * states[-1]
-- 
2.43.0


From 548114bfd9d844a3226a9c250902f4775740b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 10/43] fix: projecting a point for plotting with y dimension 0
 or a direction vector

ydim = 0 gave the time instead of the first variable, and direction vectors raised an
exception because of their ambiguous truth value.
---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From bc029cddaf45f6e5e9a3ee1f0ca6b2d80865c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 11/43] fix: 2-d plots along direction vectors and plots of
 time against time

Direction vectors were used as an index, and the time/time branch used undefined names.
---
 hylaa/lpplot.py | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..845f257 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -60,13 +60,13 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     #try:
     if xdim is None and ydim is None:
         if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
+            verts = [[cur_time[0], cur_time[0]]]
         else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+            verts = []
+            verts.append([cur_time[0], cur_time[0]])
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
@@ -117,22 +117,28 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             verts.append([xmin, cur_time[1]])
     else:
         # 2-d plot
+        if isinstance(xdim, int):
+            xdim = np.array([1.0 if dim == xdim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
+        if isinstance(ydim, int):
+            ydim = np.array([1.0 if dim == ydim else 0.0 for dim in range(lpi.dims)], dtype=float)
+
         bboxw = bbox_widths(lpi, xdim, ydim)
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
-        dim_list = [xdim, ydim]
+        dir_list = [xdim, ydim]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
 
-            assert len(vec) == len(dim_list)
+            assert len(vec) == len(dir_list)
 
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, direction in enumerate(dir_list):
+                d -= vec[i] * direction
 
             lpi.set_minimize_direction(d)
 
@@ -140,15 +146,15 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for direction in dir_list:
+                rv.append(np.dot(direction, res))
 
             rv = np.array(rv, dtype=float)
 
             return rv
 
         Timers.tic('kamenev.get_verts')
-        verts = kamenev.get_verts(len(dim_list), supp_point_nd, epsilon=epsilon)
+        verts = kamenev.get_verts(len(dir_list), supp_point_nd, epsilon=epsilon)
         Timers.toc('kamenev.get_verts')
 
         if len(verts) > 2:
@@ -167,18 +173,14 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     return verts
 
 def bbox_widths(lpi, xdim, ydim):
-    'find and return the bounding box widths of the lp for the passed-in dimensions'
+    'find and return the bounding box widths of the lp for the passed-in directions'
 
     rv = []
-    dims = lpi.dims
+    cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
 
-    for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+    for direction in [xdim, ydim]:
+        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=cols))
+        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From de8285f7cdfe5ca2211bd14131fbddfcc2d47313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 12/43] fix: approximation models kept row numbers of the
 replaced LP

If the invariant cut the set when it was popped, the next invariant intersection replaced
an unrelated row of the new LP.
---
 hylaa/stateset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index a6be63e..47e7e01 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -349,4 +349,9 @@ class StateSet(Freezable):
         elif approx_model == HylaaSettings.APPROX_LGG:
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
-            assert f"Unknown approx_model from settings: {approx_model}"
+            raise RuntimeError(f"Unknown approx_model from settings: {approx_model}")
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lp was replaced by a new one, so the old rows don't exist anymore
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
+            self.invariant_row_list = []
-- 
2.43.0


From c9c933aeb64f7a653852ce7fbe35f00054d7c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 13/43] fix: errors reached with an approximation model are not
 concrete

The sets are enlarged by the approximation, so their states need not be reachable, and
making a counter-example for them raised an exception.
---
 hylaa/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index a6410e8..53f2c82 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -96,6 +96,11 @@ class Core(Freezable):
             
         return finished
 
+    def is_concrete(self, state):
+        'does the passed-in state contain only reachable states (neither aggregated, nor an approximation model)?'
+
+        return state.is_concrete and self.settings.approx_model == HylaaSettings.APPROX_NONE
+
     def error_reached(self, state, t, t_lpi):
         'an error mode was reached after taking transition t, report and create counterexample'
 
@@ -106,14 +111,14 @@ class Core(Freezable):
             step_num = step_num[0]
             times = times[0]
 
-        if not self.result.has_aggregated_error and not state.is_concrete:
+        if not self.result.has_aggregated_error and not self.is_concrete(state):
             self.result.has_aggregated_error = True
             
             self.print_normal(f"Unsafe Mode (aggregated) Reached at Step: {step_num} / {self.settings.num_steps}, " +
                               f"time {times}")
 
         # if this is a concrete state (not aggregated) and we don't yet have a counter-example
-        if not self.result.has_concrete_error and state.is_concrete:
+        if not self.result.has_concrete_error and self.is_concrete(state):
             self.result.has_concrete_error = True
             self.print_normal(f"Unsafe Mode (concrete) Reached at Step: {step_num} / " + \
                               f"{self.settings.num_steps}, time {times}")
@@ -143,7 +148,7 @@ class Core(Freezable):
                     if self.settings.stop_on_aggregated_error:
                         break
 
-                    if cur_state.is_concrete and self.settings.stop_on_concrete_error:
+                    if self.is_concrete(cur_state) and self.settings.stop_on_concrete_error:
                         break
                 
                 self.aggdag.add_transition_successor(t, t_lpi)
-- 
2.43.0


From 6d9cf2b91b6b4dbd6abfc597973978d24b8b52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 14/43] fix: non-consecutive steps with inputs in the LGG
 approximation model

The sparse matrix exponential cannot be concatenated with the dense input effects.
---
 hylaa/time_elapse_expm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..d438312 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
-- 
2.43.0


From c5d64358218b1c6112944dc26b497050545a6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 15/43] fix: deaggregated states were replayed past the
 computation time bound

---
 hylaa/aggdag.py        | 19 ++++++++++++++++++-
 hylaa/deaggregation.py |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 7318bb5..bc95a7f 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -406,7 +406,9 @@ class AggDagNode(Freezable):
 
         self.aggdag.core.print_verbose(f"replaying {i}: {op}")
 
-        if isinstance(op, OpLeftInvariant):
+        if self.replay_reached_time_bound(op.step):
+            self.aggdag.core.print_verbose("child reached computation time bound")
+        elif isinstance(op, OpLeftInvariant):
             self.op_list.append(op)
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
@@ -447,6 +449,21 @@ class AggDagNode(Freezable):
 
         Timers.toc('replay_op')
 
+    def replay_reached_time_bound(self, step_in_mode):
+        '''
+        during a replay, is the passed-in step in mode past the computation time bound for this node? If so, the node
+        is finished. This can be the case for only some of the nodes, if a node which was aggregated over time is split
+        '''
+
+        state = self.get_cur_state()
+        num_steps = step_in_mode - state.cur_step_in_mode
+        rv = state.cur_steps_since_start[0] + num_steps > self.aggdag.settings.num_steps
+
+        if rv:
+            self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, True))
+
+        return rv
+
     def replay_op_transition(self, state, op):
         '''replay a single operation of type OpTransition
         '''
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..333ddd8 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -147,7 +147,7 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
-            if not child.node_left_invariant():
+            if not child.node_left_invariant() and not child.replay_reached_time_bound(cur_step_in_mode):
                 child.stateset.step(cur_step_in_mode)
 
         if not parent_left_invariant:
-- 
2.43.0


From 729416a94d61971bb6dbd137d610ae0d73d580b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 16/43] fix: apply the approximation model to deaggregated
 states

---
 hylaa/aggdag.py        | 14 ++++++++++++++
 hylaa/deaggregation.py |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index bc95a7f..12bce04 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -389,6 +389,20 @@ class AggDagNode(Freezable):
 
         return rv
 
+    def apply_approx_model(self):
+        '''
+        apply the approximation model to a node about to be replayed, like for states popped off the waiting list
+        '''
+
+        core = self.aggdag.core
+        approx_model = self.aggdag.settings.approx_model
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            if core.intersect_invariant(self.stateset, add_ops_to_aggdag=False):
+                self.stateset.apply_approx_model(approx_model)
+            else:
+                self.op_list.append(OpLeftInvariant(0, self, False))
+
     def replay_op(self, op_list, i):
         '''
         replay a single operation in the current node
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 333ddd8..9c9bf51 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -85,6 +85,9 @@ class DeaggregationManager(Freezable):
         self.replay_step = 0
         self.nodes_to_ops = {}
 
+        for child in self.deagg_children:
+            child.apply_approx_model()
+
         # pause plot
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
-- 
2.43.0


From 165338535fcc50f72182051ecfe0c9e02d5b6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 17/43] fix: a state moving away from a time-triggered guard
 stays in its mode

---
 hylaa/hybrid_automaton.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index bbe19f2..f2c29da 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -793,7 +793,11 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # the state leaves the invariant only if it is moving into the guard, not away from it
+            der = (row * a_csr).toarray()[0]
+            max_der = np.dot(state_lpi.minimize(direction_vec=-1 * der, columns=state_cols), der)
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and max_der < 0:
                 rv = True
                 
     return rv
-- 
2.43.0


From ac82be8e8a26a2c78ac4e3c33c85ac85806aa091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 18/43] fix: relaxing a time-triggered guard changed the user's
 array

---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index f2c29da..12cd41e 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -318,8 +318,8 @@ class Transition(Freezable):
         if not isinstance(guard_csr, csr_matrix):
             guard_csr = csr_matrix(guard_csr, dtype=float)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
+        # make a copy, since the guard of time-triggered transitions gets relaxed in place
+        guard_rhs = np.array(guard_rhs, dtype=float)
         
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
-- 
2.43.0


From 276bf0f0cb64c89d3ae13a83811ada0f0eade50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 19/43] fix: check_trace with Python 3

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..7c21c7d 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = approx_samples // max(1, len(inputs))
     if samples_per_input < 1:
         samples_per_input = 1
 
@@ -233,7 +233,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 0f1c6e414029297049bfcf3cb47e5366bb97c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 20/43] fix: simulations with the base aggregation strategies

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..c5a7c9a 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -71,6 +71,13 @@ class AggregationStrategy(Freezable):
 
         raise NotImplementedError("Unaggregated strategy does not implement get_agg_type")
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list, the default is the mode with minimum time
+        '''
+
+        return min(sim_waiting_list, key=lambda item: item[2])[0]
+
 class Unaggregated(AggregationStrategy):
     'another name for the base implementation of AggregationStrategy'
 
-- 
2.43.0


From 33fe60f5de7a3c0fb40f5dab0ddfc383e6c1067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 21/43] fix: simulations with plot directions which depend on
 the mode

---
 hylaa/core.py     |  1 +
 hylaa/plotutil.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 53f2c82..417583b 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -557,6 +557,7 @@ class Core(Freezable):
 
                             if not post_mode.is_error():
                                 self.sim_waiting_list.append([post_mode, post_pt, steps])
+                                obj[0] = post_mode # for plotting post_pt
                                 
                             self.sim_took_transition[i] = True
                             obj[1] = post_pt
diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..36e4aa5 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -620,14 +620,21 @@ class PlotManager(Freezable):
 
         if self.core.sim_states:
             for subplot in range(self.num_subplots):
-                xdim, ydim = self.settings.xdim_dir[subplot], self.settings.ydim_dir[subplot]
                 plot_pts = []
 
                 for obj in self.core.sim_states:
                     if obj is None:
                         plot_pts.append(None)
                     else:
-                        _, pt, steps = obj
+                        mode, pt, steps = obj
+                        xdim, ydim = self.settings.xdim_dir[subplot], self.settings.ydim_dir[subplot]
+
+                        if isinstance(xdim, dict):
+                            xdim = xdim[mode.name]
+
+                        if isinstance(ydim, dict):
+                            ydim = ydim[mode.name]
+
                         cur_time = steps * self.core.settings.step_size 
                         x, y = lpplot.pt_to_plot_xy(pt, xdim, ydim, cur_time)
 
-- 
2.43.0


From 5270cee1b6b652ca14834280cb7cb2547a78020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 22/43] fix: stored plot results with several plots and
 deaggregation

---
 hylaa/plotutil.py | 20 ++++++++++----------
 hylaa/result.py   | 15 +++------------
 hylaa/stateset.py |  7 ++++++-
 3 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 36e4aa5..cbf15c1 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -703,6 +703,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -710,27 +714,23 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        # add it to the result object
+        if self.core.result.plot_data is not None:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index 99fc128..aa95924 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -55,7 +55,7 @@ class PlotData(Freezable):
     def get_verts_list(self, mode_name, plot_index=0):
         'get a list of lists for the passed-in mode'
 
-        return self.mode_to_obj_list[plot_index][mode_name][0]
+        return [obj[0] for obj in self.mode_to_obj_list[plot_index][mode_name]]
 
     def add_state(self, state, verts, plot_index):
         'add a plotted state'
@@ -67,27 +67,18 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
-
-        found = False
+        'remove a state that was previously added, from all the plots'
 
         for mode_to_obj in self.mode_to_obj_list:
             obj_list = mode_to_obj[state.mode.name]
 
             for index, obj in enumerate(obj_list):
-                _, istate, istep, desc = obj
+                _, istate, istep, _ = obj
 
                 if istate is state and step == istep:
-                    found = True
-
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
-        assert found
-
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index 47e7e01..27f5d1e 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -235,7 +235,12 @@ class StateSet(Freezable):
             verts = [(0, 0), (0, 0)]
 
             # for every subplot
-            for path_list, index in l:
+            for pair in l:
+                if not pair: # drawn as a marker in this subplot
+                    rv.append([])
+                    continue
+
+                path_list, index = pair
                 rv.append(path_list[index].vertices)
 
                 # this is what actually removes it from the plot
-- 
2.43.0


From 308e0813e82d70af7bc9fede0fad96acf26fcca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 23/43] fix: all simulations of a mode check guards from the
 same step

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 417583b..e855705 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -573,7 +573,6 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
                 finished = False
                 
                 # advance time
@@ -582,6 +581,9 @@ class Core(Freezable):
                 obj[1] = pt
                 obj[2] = steps + 1
 
+            # guards are checked in the following steps (for all the simulations)
+            self.sim_should_try_guards = True
+
             if finished:
                 self.plotman.commit_cur_sims()
                 self.sim_states = None
-- 
2.43.0


From bc7cc3ef7545fac3cfb659be59592c68ebfb49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 24/43] fix: singular basis with an empty column aborted the
 process

---
 hylaa/lpinstance.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 69739f7..1b64b8c 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -47,6 +47,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         self.obj_cols = [] # columns in the LP with an assigned objective coefficient
         self.names = [] # column names
         self.bm_indices = None # a list of intArray for each row, assigned on set_reach_vars
+        self.coefs_changed = False # were matrix coefficients assigned since the last solve?
 
         self.freeze_attrs()
 
@@ -65,6 +66,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         rv.set_reach_vars(self.dims, self.basis_mat_pos, self.cur_vars_offset, self.input_effects_offsets)
         rv.obj_cols = self.obj_cols.copy()
+        rv.coefs_changed = self.coefs_changed
 
         return rv
 
@@ -376,6 +378,8 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.tic('set_constraints_csr')
 
+        self.coefs_changed = True
+
         assert isinstance(csr_mat, csr_matrix)
         assert csr_mat.dtype == float
 
@@ -422,6 +426,8 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.tic('set_constraints_swigvec_rows')
 
+        self.coefs_changed = True
+
         for row, (data, indices, count) in enumerate(zip(data_vec_list, indices_vec_list, count_list)):
             glpk.glp_set_mat_row(self.lp, 1 + row_offset + row, count, indices, data)
 
@@ -435,6 +441,8 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.tic('set_constraints_csc')
 
+        self.coefs_changed = True
+
         assert isinstance(csc_mat, csc_matrix)
         assert csc_mat.dtype == float
 
@@ -472,6 +480,18 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
 
         Timers.toc('set_constraints_csc')
 
+    def _reset_basis_with_empty_column(self):
+        '''reset the basis if one of the basic columns has no coefficients (can happen after replacing constraints)
+
+        glpk reports most singular basis matrices as GLP_ESING, but may abort the process for this one
+        '''
+
+        for col in range(1, self.get_num_cols() + 1):
+            if glpk.glp_get_col_stat(self.lp, col) == glpk.GLP_BS and \
+                                glpk.glp_get_mat_col(self.lp, col, None, None) == 0:
+                glpk.glp_std_basis(self.lp)
+                break
+
     def reset_lp(self):
         'reset all the column and row statuses of the LP'
 
@@ -553,6 +573,10 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
         if direction_vec is not None:
             self.set_minimize_direction(direction_vec)
 
+        if self.coefs_changed:
+            self._reset_basis_with_empty_column()
+            self.coefs_changed = False
+
         # setup lp params
         params = glpk.glp_smcp()
         glpk.glp_init_smcp(params)
-- 
2.43.0


From f1a44901786a947c5a61c332ba1b2b5fccc14aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 25/43] fix: scale_with_bm dropped bloating variables and did
 not scale accumulated inputs

---
 hylaa/lputil.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 0f06c97..ecb72f0 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -655,8 +655,19 @@ def scale_with_bm(lpi, amount):
     scale the current set using the basis matrix
     '''
 
-    bm = get_basis_matrix(lpi)
-    set_basis_matrix(lpi, amount * bm)
+    # besides the basis matrix, there may be bloating variables and accumulated inputs, which are scaled as well
+    fixed_cols = [lpi.cur_vars_offset + n for n in range(lpi.dims)]
+    row_indices = [lpi.basis_mat_pos[0] + n for n in range(lpi.dims)]
+
+    if lpi.input_effects_offsets is not None:
+        fixed_cols += [lpi.input_effects_offsets[1] + n for n in range(lpi.dims)]
+        row_indices += [lpi.input_effects_offsets[0] + n for n in range(lpi.dims)]
+
+    for row_index in row_indices:
+        row = lpi.get_row(row_index)
+        row.data[~np.isin(row.indices, fixed_cols)] *= amount
+
+        lpi.set_constraints_csr(row, offset=(row_index, 0))
 
 def bloat(lpi, amount, var_name_prefix='bloat'):
     '''
-- 
2.43.0


From 8a6480424613b3d1a9f775aba8dcf54884203021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 26/43] fix: from_constraints rejected feasible sets with >=
 rows

---
 hylaa/lputil.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index ecb72f0..6d7ae3e 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -111,7 +111,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-    assert is_feasible(csr, rhs), "initial constraints are not feasible"
+    assert is_feasible(csr, rhs, types), "initial constraints are not feasible"
     assert (types is None) == (names is None)
 
     if dims is None:
@@ -1032,8 +1032,11 @@ def reorthogonalize_matrix(mat, dims):
 
     return np.array(rv, dtype=float)
 
-def is_feasible(csr, rhs):
-    'are the passed in constraints feasible?'
+def is_feasible(csr, rhs, types=None):
+    '''are the passed in constraints feasible?
+
+    if types is None, then assume all constraints are '<=' constraints
+    '''
 
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
@@ -1043,7 +1046,11 @@ def is_feasible(csr, rhs):
     lpi = LpInstance()
     names = ["x{}".format(n) for n in range(csr.shape[1])]
     lpi.add_cols(names)
-    lpi.add_rows_less_equal(rhs)
+
+    if types is None:
+        lpi.add_rows_less_equal(rhs)
+    else:
+        lpi.add_rows_with_types(types, rhs)
 
     lpi.set_constraints_csr(csr)
 
-- 
2.43.0


From 7b8c2c85e1794264be1399853b1726078c9a2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 27/43] fix: plots of segments without extent in x could be too
 short

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..6501d4b 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -58,7 +58,8 @@ def _find_two_points(dims, supp_point_func):
         vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
         p2 = supp_point_func(vec)
 
-        if not np.allclose(p1, p2):
+        # if there's no extent in dimension d, p1 and p2 are arbitrary points of the set (not necessarily corners)
+        if not np.allclose(p1[d], p2[d]):
             pts = [p1, p2]
             break
 
-- 
2.43.0


From 2eb58ab93093ec9d617bb4126ec78bf8b43cf5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 28/43] fix: refining a set lost the states of other sets which
 were aggregated with its successors

---
 hylaa/deaggregation.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 9c9bf51..72687b1 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -170,12 +170,33 @@ class DeaggregationManager(Freezable):
                 node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
                 
                 self.waiting_nodes.append((child, [node]))
+
+            self.keep_other_successors()
                 
             self.deagg_parent = self.deagg_children = self.replay_step = self.nodes_to_ops = None
 
             #print(".deaggregation calling aggdag.save_viz()")
             #self.aggdag.save_viz()
 
+    def keep_other_successors(self):
+        '''
+        the successors of the replayed node may be aggregations which also contain states coming from other nodes, which
+        are not being refined. Make nodes for these states, as the aggregated successors are replaced.
+        '''
+
+        child_nodes = []
+
+        for op in self.deagg_parent.op_list:
+            if isinstance(op, OpTransition) and op.child_node is not None and op.child_node not in child_nodes:
+                child_nodes.append(op.child_node)
+
+        for child in child_nodes:
+            ops = [op for op in child.parent_ops if op.child_node is child and not was_refined(op.parent_node)]
+
+            if ops:
+                node = self.aggdag.make_node(ops, child.agg_type_from_parents, child.stateset.aggstring)
+                self.waiting_nodes.append((child, [node]))
+
     def update_transition_successors(self, old_op, new_op):
         '''
         during a replay, update a node's successsors recursively
@@ -206,3 +227,9 @@ class DeaggregationManager(Freezable):
         self.waiting_nodes.append((node, node.split()))
 
         Timers.toc('begin deagg replay')
+
+def was_refined(node):
+    'was the passed-in node (or all the ones it comes from) replaced by other nodes during a replay?'
+
+    return node is not None and \
+        all([op.child_node is not node or was_refined(op.parent_node) for op in node.parent_ops])
-- 
2.43.0


From c30e83ae8b2358416e7b7a694f1c001603e1dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 29/43] fix: with stop_on_aggregated_error a concrete error
 which did not stop the analysis skipped the other transitions

---
 hylaa/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index e855705..9d8b4a1 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -145,10 +145,7 @@ class Core(Freezable):
                 if t.to_mode.is_error():
                     self.error_reached(cur_state, t, t_lpi)
 
-                    if self.settings.stop_on_aggregated_error:
-                        break
-
-                    if self.is_concrete(cur_state) and self.settings.stop_on_concrete_error:
+                    if self.is_finished(): # stopping at this error
                         break
                 
                 self.aggdag.add_transition_successor(t, t_lpi)
-- 
2.43.0


From 9d27f7896ebcbdb07589610c766b3db420f0f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 30/43] fix: set_invariant and set_inputs changed the shape of
 the array passed in

---
 hylaa/hybrid_automaton.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 12cd41e..a4ab99a 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -114,8 +114,8 @@ class Mode(Freezable):
         if not isinstance(constraints_csr, csr_matrix):
             constraints_csr = csr_matrix(constraints_csr, dtype=float)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
+        # make a copy, since the passed-in array may get flattened
+        constraints_rhs = np.array(constraints_rhs, dtype=float)
 
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
@@ -210,8 +210,8 @@ class Mode(Freezable):
         if not isinstance(u_constraints_csr, csr_matrix):
             u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
+        # make a copy, since the passed-in array may get flattened
+        u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
         
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
-- 
2.43.0


From bb2f543bf1630f74650f3f656c8bbb0100cb517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 31/43] fix: integer right-hand side arrays for initial sets
 and resets raised a TypeError

---
 hylaa/hybrid_automaton.py | 2 +-
 hylaa/lputil.py           | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index a4ab99a..a58c614 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -370,7 +370,7 @@ class Transition(Freezable):
         if reset_minkowski_constraints_csr is not None and not isinstance(reset_minkowski_constraints_csr, csr_matrix):
             reset_minkowski_constraints_csr = csr_matrix(reset_minkowski_constraints_csr, dtype=float)
 
-        if reset_minkowski_constraints_rhs is not None and not isinstance(reset_minkowski_constraints_rhs, np.ndarray):
+        if reset_minkowski_constraints_rhs is not None:
             reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 6d7ae3e..9ed31e1 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -106,8 +106,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
 
-    if not isinstance(rhs, np.ndarray):
-        rhs = np.array(rhs, dtype=float)
+    rhs = np.array(rhs, dtype=float)
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-- 
2.43.0


From 90ad29f35322768b769f1ef54676f984d51d44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 32/43] fix: initial state sets were used up by an analysis,
 later ones using them gave wrong results

---
 hylaa/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 9d8b4a1..64a31ff 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -370,6 +370,9 @@ class Core(Freezable):
             if not state.lpi.is_feasible():
                 self.print_normal("Removed an infeasible initial set in mode {}".format(state.mode.name))
                 continue
+
+            # make a copy, since the state set is modified during the computation
+            state = StateSet(state.lpi.clone(), state.mode, state.cur_steps_since_start, is_concrete=state.is_concrete)
             
             still_feasible = self.intersect_invariant(state, add_ops_to_aggdag=False)
 
-- 
2.43.0


From 4fecdb523e7cc989323b2c0e96d7970852a2bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 33/43] fix: guards changed for an analysis stayed changed for
 later ones with other settings

---
 hylaa/core.py             |  2 ++
 hylaa/hybrid_automaton.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 64a31ff..87d4026 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -339,6 +339,8 @@ class Core(Freezable):
         for mode in ha.modes.values():
             mode.init_time_elapse(self.settings.step_size)
 
+        ha.restore_guards()
+
         if self.settings.optimize_tt_transitions:
             ha.detect_tt_transitions(self.settings.step_size, self.settings.num_steps, self.print_debug)
 
diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index a58c614..979898b 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -258,6 +258,7 @@ class Transition(Freezable):
 
         self.guard_csr = None
         self.guard_rhs = None
+        self.user_guard = None # the guard as assigned in set_guard(), a tuple (guard_csr, guard_rhs)
 
         self.reset_csr = None
         self.reset_minkowski_csr = None
@@ -334,6 +335,7 @@ class Transition(Freezable):
 
         self.guard_csr = guard_csr
         self.guard_rhs = guard_rhs
+        self.user_guard = (guard_csr, guard_rhs.copy())
 
     def set_reset(self, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None,
                   reset_minkowski_constraints_rhs=None):
@@ -505,6 +507,18 @@ class HybridAutomaton(Freezable):
                 "Transition {} premode has {} dims and postmode has {} dims, but no reset was assigned".format(
                     t, premode_dims, postmode_dims)
 
+    def restore_guards(self):
+        '''
+        undo the changes of the guards made for an earlier computation (they depend on the settings)
+        '''
+
+        for t in self.transitions:
+            t.time_triggered = False
+
+            if t.user_guard is not None:
+                t.guard_csr = t.user_guard[0]
+                t.guard_rhs = t.user_guard[1].copy()
+
     def do_guard_strengthening(self):
         '''
         Strengthen the guards to include the invariants of target modes
-- 
2.43.0


From 9cbcc9c330c5dcf43580b58aa82712a9fa908d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 34/43] fix: resets with incomplete minkowski terms were
 accepted until the transition was taken

---
 hylaa/hybrid_automaton.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 979898b..97c9336 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -380,7 +380,10 @@ class Transition(Freezable):
         assert reset_csr.shape[0] == to_mode_csr.shape[0], "reset matrix expected {} rows, got {}".format(
             to_mode_csr.shape[0], reset_csr.shape[0])
 
-        if reset_minkowski_constraints_rhs is not None:
+        if reset_minkowski_constraints_rhs is None:
+            assert reset_minkowski_csr is None and reset_minkowski_constraints_csr is None, \
+                "reset minkowski variables need both constraints and constraints_rhs"
+        else:
             assert len(reset_minkowski_constraints_rhs.shape) == 1
             assert reset_minkowski_constraints_csr is not None
             assert reset_minkowski_constraints_csr.shape[0] == len(reset_minkowski_constraints_rhs)
-- 
2.43.0


From a2f33b9ac503b2da14397eb0eb7587de13a365ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 35/43] fix: negative and infinite step sizes and time bounds
 were accepted, with a verdict

---
 hylaa/settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hylaa/settings.py b/hylaa/settings.py
index a029bc3..3aa2fb9 100644
--- a/hylaa/settings.py
+++ b/hylaa/settings.py
@@ -28,6 +28,9 @@ class HylaaSettings(Freezable):  # pylint: disable=too-few-public-methods
     APPROX_NONE, APPROX_CHULL, APPROX_LGG = range(3)
 
     def __init__(self, step_size, max_time):
+        assert 0 < step_size < math.inf, "step size should be positive, got {}".format(step_size)
+        assert 0 <= max_time < math.inf, "time bound should be nonnegative, got {}".format(max_time)
+
         plot_settings = PlotSettings()
 
         self.step_size = step_size # simulation step size
-- 
2.43.0


From dcf4c0c6e380bb93a420b0564a7211c823d27c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 36/43] fix: dynamics assigned after the other parts of a model
 could make dimensions inconsistent

---
 hylaa/hybrid_automaton.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 97c9336..2901a1f 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -493,6 +493,19 @@ class HybridAutomaton(Freezable):
         This also checks that guards were assigned and error modes don't have outgoing transitions
         '''
 
+        # dynamics may have been assigned after the other parts were checked
+        for mode in self.modes.values():
+            if mode.a_csr is not None:
+                dims = mode.a_csr.shape[0]
+
+                assert mode.b_csr is None or mode.b_csr.shape[0] == dims, \
+                    "B-mat shape {} incompatible with number of dims in mode '{}' ({})".format(
+                        mode.b_csr.shape, mode.name, dims)
+
+                for lc in mode.inv_list:
+                    assert lc.csr.shape[1] == dims, "invariant width ({}) must equal num dims in mode '{}' ({})".format(
+                        lc.csr.shape[1], mode.name, dims)
+
         for t in self.transitions:
             assert t.from_mode.a_csr is not None, \
                 "Outgoing transition detected from error mode: {} (not allowed)".format(t)
@@ -500,16 +513,29 @@ class HybridAutomaton(Freezable):
             assert t.guard_csr is not None, ("Transition '{}' guard was NOT assigned. " + \
                 "Use set_guard_true() for always enabled guards, if that's what was intended.").format(t)
             
+            premode_dims = t.from_mode.a_csr.shape[0]
+
+            assert t.guard_csr.shape[0] == 0 or t.guard_csr.shape[1] == premode_dims, \
+                "Transition '{}' guard width ({}) must equal num dims in premode ({})".format(
+                    t, t.guard_csr.shape[1], premode_dims)
+
+            assert t.reset_csr is None or t.reset_csr.shape[1] == premode_dims, \
+                "Transition '{}' reset has {} columns but premode has {} dims".format(
+                    t, t.reset_csr.shape[1], premode_dims)
+
             if t.to_mode.a_csr is None:
                 continue
             
-            premode_dims = t.from_mode.a_csr.shape[0]
             postmode_dims = t.to_mode.a_csr.shape[0]
 
             assert premode_dims == postmode_dims or t.reset_csr is not None, \
                 "Transition {} premode has {} dims and postmode has {} dims, but no reset was assigned".format(
                     t, premode_dims, postmode_dims)
 
+            assert t.reset_csr is None or t.reset_csr.shape[0] == postmode_dims, \
+                "Transition '{}' reset has {} rows but postmode has {} dims".format(
+                    t, t.reset_csr.shape[0], postmode_dims)
+
     def restore_guards(self):
         '''
         undo the changes of the guards made for an earlier computation (they depend on the settings)
-- 
2.43.0


From bb0844b7d2d6e4f0370b725d31c8f88b052255bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 37/43] fix: axes did not grow with plotted sets while they had
 no extent in one axis

---
 hylaa/plotutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index cbf15c1..12d9c70 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -517,7 +517,7 @@ class PlotManager(Freezable):
                 lim.ymax = y
 
         is_outside = lim.xmin < drawn.xmin or lim.xmax > drawn.xmax or lim.ymin < drawn.ymin or lim.ymax > drawn.ymax
-        if first_draw or (is_outside and lim.xmin != lim.xmax and lim.ymin != lim.ymax):
+        if first_draw or is_outside:
 
             # expand drawn limits to surpass actual
             dx = lim.xmax - lim.xmin
-- 
2.43.0


From e6f129e122c0a48cafb9ec69e29eb0d19eaa8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 38/43] fix: refining a set drawn as a marker stopped live
 plots and videos

---
 hylaa/plotutil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 12d9c70..392a4f4 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -746,6 +746,10 @@ class PlotManager(Freezable):
                 for state in states:
                     if isinstance(state, list):
                         verts = state[subplot] # list of vertices
+
+                        if len(verts) == 0: # was drawn as a marker
+                            continue
+
                         verts_list.append(verts)
                     else:
                         verts = state.verts(self, subplot=subplot)
-- 
2.43.0


From 53b65511ebf22fa12c684d5071778de5883aa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 39/43] fix: clicking next to the plotted sets raised an error

---
 hylaa/plotutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 392a4f4..dd61f2f 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -927,9 +927,11 @@ class PlotManager(Freezable):
 
             if subplot is not None:
                 # check which polygon you're in
-                d = self.core.result.plot_data.get_plot_data(x, y, subplot)
+                plot_data = self.core.result.plot_data
+                d = plot_data.get_plot_data(x, y, subplot) if plot_data is not None else None
 
-                print(d[1:])
+                if d is not None:
+                    print(d[1:])
 
         if self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE:
             # do one frame
-- 
2.43.0


From 57e8e53d72664761888bd4688530fb908461127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 40/43] fix: stored plot data missed the sets between drawn
 frames

---
 hylaa/plotutil.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index dd61f2f..fab230b 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -662,6 +662,17 @@ class PlotManager(Freezable):
 
             self.core.result.sim_lines[i].append(line)
 
+    def store_current_state(self):
+        'add the current StateSet to the plot data of the result, if this is enabled'
+
+        state = self.core.aggdag.get_cur_state()
+
+        if state is not None and self.settings.store_plot_result:
+            for subplot in range(self.num_subplots):
+                verts = state.verts(self, subplot=subplot)
+
+                self.core.result.plot_data.add_state(state, verts, subplot)
+
     def plot_current_state(self):
         '''
         plot the current StateSet according to the plot settings.
@@ -670,11 +681,6 @@ class PlotManager(Freezable):
         state = self.core.aggdag.get_cur_state()
 
         for subplot in range(self.num_subplots):
-            if self.settings.store_plot_result:
-                verts = state.verts(self, subplot=subplot)
-
-                self.core.result.plot_data.add_state(state, verts, subplot)
-
             if self.settings.plot_mode != PlotSettings.PLOT_NONE:
                 verts = state.verts(self, subplot=subplot)
                 verts_list = [verts]
@@ -815,6 +821,7 @@ class PlotManager(Freezable):
 
             for _ in range(self.settings.draw_stride):
                 self.core.do_step()
+                self.store_current_state()
 
                 # if we just wanted a single step (or do_step() caused paused to be set to True)
                 if (self.interactive.step or self.interactive.paused) and \
@@ -986,6 +993,7 @@ class PlotManager(Freezable):
             self.core.do_step()
 
             if compute_plot and self.core.aggdag.get_cur_state():
+                self.store_current_state()
                 self.plot_current_state()
 
             if self.core.sim_states is not None:
-- 
2.43.0


From 242e88e0795967a2f8911c9b4a813c7566081887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:40 +0000
Subject: [PATCH 41/43] fix: with plot windows or videos the analysis went on
 after its end

---
 hylaa/plotutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index fab230b..c1f282a 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -812,7 +812,7 @@ class PlotManager(Freezable):
                 if self.pause_frames <= 0:
                     self.pause_frames = None
                     self.interactive.paused = False
-        else:
+        elif not self.core.is_finished(): # extra frames of videos come after the computation
             Timers.tic("frame")
 
             for ds in self.shapes:
@@ -823,6 +823,9 @@ class PlotManager(Freezable):
                 self.core.do_step()
                 self.store_current_state()
 
+                if self.core.is_finished():
+                    break
+
                 # if we just wanted a single step (or do_step() caused paused to be set to True)
                 if (self.interactive.step or self.interactive.paused) and \
                        (self.settings.plot_mode == PlotSettings.PLOT_INTERACTIVE or
-- 
2.43.0


From fc240f4e147b423c4b2f49425c35bf9cf309ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:42 +0000
Subject: [PATCH 42/43] fix: solve again from another basis when glpk accepts a
 nearly singular one

---
 hylaa/lpinstance.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 1b64b8c..97cea58 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -492,6 +492,20 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
                 glpk.glp_std_basis(self.lp)
                 break
 
+    def _is_solution_accurate(self):
+        'does the solution which glpk calls optimal satisfy the rows of the lp?'
+
+        if glpk.glp_get_status(self.lp) != glpk.GLP_OPT:
+            return True
+
+        error = glpk.doubleArray(1)
+        row = glpk.intArray(1)
+
+        # this gets the largest relative residual
+        glpk.glp_check_kkt(self.lp, glpk.GLP_SOL, glpk.GLP_KKT_PE, None, None, error, row)
+
+        return error[0] < 1e-6
+
     def reset_lp(self):
         'reset all the column and row statuses of the LP'
 
@@ -603,6 +617,15 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
                 params.tm_lim = 30 * 1000 # second try: 30 second time limit
                 simplex_res = glpk.glp_simplex(self.lp, params)
 
+        if simplex_res == 0 and not self._is_solution_accurate():
+            # this can happen when glpk accepts a nearly singular basis
+            LpInstance.print_normal('Note: glp_simplex() solution was inaccurate, resetting and retrying')
+
+            glpk.glp_cpx_basis(self.lp) # resets the initial basis
+            params.meth = glpk.GLP_PRIMAL
+            params.tm_lim = 30 * 1000 # second try: 30 second time limit
+            simplex_res = glpk.glp_simplex(self.lp, params)
+
         # process simplex result
         rv = self._process_simplex_result(simplex_res, columns)
 
-- 
2.43.0


From 57a4d9e3f67ca58625790724c1d3177b3f121e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:54 +0000
Subject: [PATCH 43/43] fix: plots of traces missed the inputs of the last step
 and changed the list of inputs

---
 hylaa/check_trace.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 7c21c7d..ef96295 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -9,7 +9,6 @@ December 2016
 '''
 
 import time
-import math
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -181,7 +180,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     do_2d = xdim is not None and ydim is not None
 
-    total_steps = int(math.ceil(max_time / step))
+    total_steps = int(round(max_time / step))
     end_point = sim_states[-1]
     end_val = np.dot(end_point, normal_vec)
     tol = 1e-6
@@ -227,13 +226,12 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         ax[0].set_title('Counter-Example Trace', fontsize=28)
 
     if inputs is not None and len(inputs) > 0:
-        inputs.append(inputs[-1]) # there is one less input than time instants
-        inputs = np.array(inputs, dtype=float)
+        inputs = np.array(inputs, dtype=float) # there is one less input than time instants
 
         flat_inputs = []
         flat_times = []
 
-        for i in range(total_steps-1):
+        for i in range(min(total_steps, len(inputs))):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
-- 
2.43.0

