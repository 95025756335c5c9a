From 0311d197ff664f5b647948055eb79fc0b4415284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:43 +0000
Subject: [PATCH 01/71] Add a guarded simulation hook that reports the loops
 made available (PLUTO_SIM)

---
 lib/plutolib.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..20be85c 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -26,6 +26,42 @@
 #include "pluto/pluto.h"
 #include "program.h"
 
+#ifdef PLUTO_SIM
+/* Simulation hook: when the observer is set, it is told which loops (0-indexed
+ * depth, statement ids) the final transformation makes available for parallel
+ * execution, vectorization, and unroll-jamming. */
+void (*pluto_sim_loop_observer)(const char *kind, unsigned depth,
+                                unsigned nstmts, const int *stmt_ids) = NULL;
+
+static void pluto_sim_observe_loops(const char *kind, Ploop **loops,
+                                    unsigned nloops) {
+  for (unsigned i = 0; i < nloops; i++) {
+    int ids[loops[i]->nstmts + 1];
+    for (unsigned j = 0; j < loops[i]->nstmts; j++)
+      ids[j] = loops[i]->stmts[j]->id;
+    pluto_sim_loop_observer(kind, loops[i]->depth, loops[i]->nstmts, ids);
+  }
+}
+
+static void pluto_sim_observe(PlutoProg *prog) {
+  if (!pluto_sim_loop_observer)
+    return;
+  unsigned n = 0;
+  Ploop **loops = pluto_get_parallel_loops(prog, &n);
+  pluto_sim_observe_loops("parallel", loops, n);
+  for (unsigned i = 0; i < n; i++)
+    if (pluto_loop_is_innermost(loops[i], prog))
+      pluto_sim_observe_loops("vector", &loops[i], 1);
+  pluto_loops_free(loops, n);
+  loops = pluto_get_dom_parallel_loops(prog, &n);
+  pluto_sim_observe_loops("dom", loops, n);
+  pluto_loops_free(loops, n);
+  loops = pluto_get_unroll_jam_loops(prog, &n);
+  pluto_sim_observe_loops("unrolljam", loops, n);
+  pluto_loops_free(loops, n);
+}
+#endif
+
 /// Run Pluto on the supplied PlutoProg.
 static int pluto_schedule_prog(PlutoProg *prog) {
   // Set global var for rest of Pluto.
@@ -97,6 +133,10 @@ static int pluto_schedule_prog(PlutoProg *prog) {
     printf("\n");
     pluto_loops_free(ploops, nploops);
   }
+
+#ifdef PLUTO_SIM
+  pluto_sim_observe(prog);
+#endif
   return 0;
 }
 
-- 
2.43.0


From 68abf2a808c9e80b542f0aeb5157d65d5f9aa9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:43 +0000
Subject: [PATCH 02/71] fix: no dependence satisfaction update without a
 wavefront (--innerpar)

With innerpar, pluto_create_tile_schedule_band() did not skew the band, but
still moved the satisfaction of the inner dimensions' dependences to the
outermost one, so inner loops carrying dependences were reported parallel.
---
 lib/tile.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..a85efa7 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -389,6 +389,11 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
+  /* No wavefront is created if pure inner parallelism is preferred; dependence
+   * satisfaction stays as it is. */
+  if (options->innerpar)
+    return false;
+
   /* A band can have scalar dimensions; it starts from a loop */
   int loop_depths[band->width];
   loop_depths[0] = band->loop->depth;
@@ -430,14 +435,12 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
    * become parallel */
   int first = band->loop->depth;
 
-  if (!options->innerpar) {
-    /* Create the wavefront */
-    for (unsigned i = 0; i < band->loop->nstmts; i++) {
-      Stmt *stmt = band->loop->stmts[i];
-      for (unsigned k = 1; k <= nip_dims; k++) {
-        for (unsigned j = 0; j < stmt->trans->ncols; j++) {
-          stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
-        }
+  /* Create the wavefront */
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    Stmt *stmt = band->loop->stmts[i];
+    for (unsigned k = 1; k <= nip_dims; k++) {
+      for (unsigned j = 0; j < stmt->trans->ncols; j++) {
+        stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
       }
     }
   }
-- 
2.43.0


From 98c54eeec3129df76eca598bdb959e931b2d64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/71] fix: count dependences satisfied jointly by several
 levels when finding permutable bands

---
 lib/polyloop.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..6273041 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -784,14 +784,12 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
         continue;
       assert(dep->satvec != NULL);
       /* Dependences satisfied outer to the band don't matter */
-      if (dep->satisfaction_level < loop->depth)
-        continue;
-      /* Dependences not satisfied yet don't matter */
-      if (!dep->satisfied)
+      if (dep->satisfied && dep->satisfaction_level < loop->depth)
         continue;
       /* Dependences satisfied in previous scalar dimensions in the band
        * don't count as well (i.e., they can have negative components) */
-      if (pluto_is_depth_scalar(loop, dep->satisfaction_level))
+      if (dep->satisfied && dep->satisfaction_level < depth &&
+          pluto_is_depth_scalar(loop, dep->satisfaction_level))
         continue;
       /* Rest of the dependences need to have non-negative components */
       if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
@@ -808,17 +806,13 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   } while (depth < prog->num_hyperplanes);
 
   /* Peel off scalar dimensions from the end */
-  while (pluto_is_depth_scalar(loop, depth - 1))
+  while (depth > loop->depth && pluto_is_depth_scalar(loop, depth - 1))
     depth--;
 
-  /* depth will always be at least loop->depth + 1 at this stage */
-
   int width = depth - loop->depth;
 
-  assert(width >= 1);
-
-  if (width == 1) {
-    /* Trivial (single loop in band) */
+  if (width <= 1) {
+    /* Trivial (at most a single loop in band) */
     return NULL;
   } else {
     return pluto_band_alloc(loop, width);
-- 
2.43.0


From 892b1b2f917d6456ca5de4f426307dd7ca72219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:14 +0000
Subject: [PATCH 04/71] fix: leave loops with negative dependence components
 out of a wavefront

---
 lib/tile.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index a85efa7..9db3e6e 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -379,6 +379,27 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   pluto_detect_hyperplane_types_stmtwise(prog);
 }
 
+/// Returns true if some dependence that isn't satisfied outer to the band has a
+/// negative component at this depth; the band can have such dependences if they
+/// are satisfied by one of its scalar dimensions.
+static bool band_has_negative_dep_component(const PlutoProg *prog,
+                                            const Band *band, unsigned depth) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfied && dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                band->loop->nstmts) &&
+        pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                band->loop->nstmts) &&
+        (dep->dirvec[depth] == DEP_STAR || dep->dirvec[depth] == DEP_MINUS))
+      return true;
+  }
+  return false;
+}
+
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
@@ -406,7 +427,8 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
+    if (j == band->loop->nstmts &&
+        !band_has_negative_dep_component(prog, band, depth)) {
       /* All of them are loops */
       loop_depths[nloops++] = depth;
     }
-- 
2.43.0


From 10e6e825a9ee143b24dd325b624ac5dc2fdb2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/71] fix: tile a band dimension trivially only if it is
 scalar for all statements

---
 lib/tile.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9db3e6e..fcb72bf 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -119,6 +119,14 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
   }
 
   for (unsigned depth = firstD; depth <= lastD; depth++) {
+    /* A dimension is tiled trivially only if it is scalar for all statements:
+     * tile space values of all statements have to be comparable. */
+    bool is_scalar = true;
+    for (unsigned s = 0; s < band->loop->nstmts; s++) {
+      is_scalar &= band->loop->stmts[s]->hyp_types[depth + depth - firstD] ==
+                   H_SCALAR;
+    }
+
     for (unsigned s = 0; s < band->loop->nstmts; s++) {
       Stmt *stmt = band->loop->stmts[s];
       /* 1. Specify tiles in the original domain.
@@ -128,10 +136,7 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
       char iter[6];
       sprintf(iter, "zT%d", stmt->dim);
 
-      PlutoHypType hyp_type =
-          (stmt->hyp_types[depth + depth - firstD] == H_SCALAR)
-              ? H_SCALAR
-              : H_TILE_SPACE_LOOP;
+      PlutoHypType hyp_type = is_scalar ? H_SCALAR : H_TILE_SPACE_LOOP;
 
       /* 1.2 Specify tile shapes in the original domain */
       if (hyp_type != H_SCALAR) {
-- 
2.43.0


From 24b85dbbd4e9b8e91bec3410cfbac55fc3eed2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/71] fix: satisfy dependences in both the tile and the
 intra-tile order of diamond tiles

---
 lib/pluto.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..5f6c24a 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -155,6 +155,47 @@ void pluto_compute_dep_satisfaction(PlutoProg *prog) {
   }
 }
 
+/*
+ * Dependence satisfaction when diamond tiling was done: tiles are executed in
+ * the order given by the current hyperplanes, but the iterations of a tile in
+ * the order given by the evicted ones (see pluto_diamond_tile_reschedule). A
+ * dependence is satisfied only if it is with both.
+ */
+static void update_dep_satisfaction_diamond(PlutoProg *prog, bool precise) {
+  bool satisfied[prog->ndeps + 1];
+
+  for (int pass = 0; pass < 2; pass++) {
+    /* Swap evicted hyperplanes in (first pass) and out again */
+    for (int i = 0; i < prog->nstmts; i++) {
+      Stmt *stmt = prog->stmts[i];
+      if (!stmt->evicted_hyp)
+        continue;
+      for (unsigned j = 0; j < stmt->evicted_hyp->ncols; j++) {
+        int64_t tmp = stmt->evicted_hyp->val[0][j];
+        stmt->evicted_hyp->val[0][j] =
+            stmt->trans->val[stmt->evicted_hyp_pos][j];
+        stmt->trans->val[stmt->evicted_hyp_pos][j] = tmp;
+      }
+    }
+    if (precise) {
+      pluto_compute_dep_satisfaction_precise(prog);
+    } else {
+      pluto_dep_satisfaction_reset(prog);
+      for (int i = 0; i < prog->num_hyperplanes; i++)
+        dep_satisfaction_update(prog, i);
+    }
+    for (int i = 0; i < prog->ndeps; i++) {
+      Dep *dep = prog->deps[i];
+      if (pass == 0) {
+        satisfied[i] = dep->satisfied;
+      } else if (!satisfied[i]) {
+        dep->satisfied = false;
+        dep->satisfaction_level = -1;
+      }
+    }
+  }
+}
+
 bool dep_is_satisfied(Dep *dep) { return dep->satisfied; }
 
 int num_satisfied_deps(Dep *deps, int ndeps) {
@@ -1740,15 +1781,21 @@ int pluto_auto_transform(PlutoProg *prog) {
 
       if (nsols >= 1) {
         /* Diamond tiling: done for the first band of permutable loops */
+        bool diamond_tiled_now = false;
         if (options->diamondtile && nsols >= 2 && !conc_start_found) {
-          conc_start_found = pluto_diamond_tile(prog);
+          conc_start_found = diamond_tiled_now = pluto_diamond_tile(prog);
           prog->is_diamond_tiled = conc_start_found;
         }
 
-        for (j = 0; j < nsols; j++) {
-          /* Mark dependences satisfied by this solution */
-          dep_satisfaction_update(prog, stmts[0]->trans->nrows - nsols + j);
+        if (diamond_tiled_now) {
+          update_dep_satisfaction_diamond(prog, /*precise=*/false);
           ddg_update(ddg, prog);
+        } else {
+          for (j = 0; j < nsols; j++) {
+            /* Mark dependences satisfied by this solution */
+            dep_satisfaction_update(prog, stmts[0]->trans->nrows - nsols + j);
+            ddg_update(ddg, prog);
+          }
         }
       } else {
         /* Satisfy inter-scc dependences via distribution since we have
@@ -1816,8 +1863,12 @@ int pluto_auto_transform(PlutoProg *prog) {
       }
       /* Under LAZY mode, do a precise dep satisfaction check to take
        * care of partial satisfaction (rarely needed) */
-      if (hyp_search_mode == LAZY)
-        pluto_compute_dep_satisfaction_precise(prog);
+      if (hyp_search_mode == LAZY) {
+        if (conc_start_found)
+          update_dep_satisfaction_diamond(prog, /*precise=*/true);
+        else
+          pluto_compute_dep_satisfaction_precise(prog);
+      }
       depth++;
     } while (!pluto_transformations_full_ranked(prog) ||
              !deps_satisfaction_check(prog));
-- 
2.43.0


From 3de3e5d2653dc88afc060a21cbab59b627988949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:57 +0000
Subject: [PATCH 07/71] fix: accept statements outside of all loops in programs
 with parameters

---
 lib/plutolib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 20be85c..4f8f75a 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -216,9 +216,10 @@ static isl_stat extract_stmt(__isl_take isl_set *set, void *user) {
                                     stmt->dim);
 
   for (int i = 0; i < npar; i++) {
-    char *param = (char *)malloc(13);
+    char param[13];
     sprintf(param, "p%d", i);
-    stmt->domain->names[stmt->dim + i] = param;
+    char *names[] = {param};
+    pluto_constraints_set_names_range(stmt->domain, names, stmt->dim + i, 0, 1);
   }
 
   pluto_matrix_free(trans);
-- 
2.43.0


From 86226238ea239253a9145d24b083474efff7887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:24 +0000
Subject: [PATCH 08/71] fix: do not tile or wavefront loops apart from
 statements interleaved with them

---
 lib/pluto.h    |  2 ++
 lib/polyloop.c | 24 ++++++++++++++++++++++++
 lib/tile.c     |  3 ++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/lib/pluto.h b/lib/pluto.h
index ea37d2d..35ca327 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -685,6 +685,8 @@ Band **pluto_get_innermost_permutable_bands(const PlutoProg *prog,
                                             unsigned num_tiled_levels,
                                             unsigned *ndbands);
 int pluto_loop_is_innermost(const Ploop *loop, const PlutoProg *prog);
+bool pluto_loop_has_interleaved_stmt_dep(const Ploop *loop,
+                                         const PlutoProg *prog);
 
 PlutoConstraints *pluto_get_transformed_dpoly(const Dep *dep, Stmt *src,
                                               Stmt *dest);
diff --git a/lib/polyloop.c b/lib/polyloop.c
index 6273041..1ce5c2a 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -770,11 +770,35 @@ bool pluto_is_depth_scalar(Ploop *loop, int depth) {
   return true;
 }
 
+/* Returns true if there is a dependence, not satisfied outer to this loop,
+ * between a statement in the loop and one that isn't: such a statement is
+ * interleaved with the iterations of the loop (it has a scalar dimension at the
+ * loop's depth), and the loop can't be transformed without it */
+bool pluto_loop_has_interleaved_stmt_dep(const Ploop *loop,
+                                         const PlutoProg *prog) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfied && dep->satisfaction_level < (int)loop->depth)
+      continue;
+    if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
+                                loop->nstmts) !=
+        pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, loop->stmts,
+                                loop->nstmts))
+      return true;
+  }
+  return false;
+}
+
 /* Returns a non-trivial permutable band starting from this loop; NULL
  * if the band is trivial (just the loop itself */
 Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   int i, depth;
 
+  if (pluto_loop_has_interleaved_stmt_dep(loop, prog))
+    return NULL;
+
   depth = loop->depth;
 
   do {
diff --git a/lib/tile.c b/lib/tile.c
index fcb72bf..5cc7771 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -239,7 +239,8 @@ void pluto_tile(PlutoProg *prog) {
    */
   Ploop **loops = pluto_get_parallel_loops(prog, &nloops);
   for (i = 0; i < nloops; i++) {
-    if (pluto_loop_is_innermost(loops[i], prog)) {
+    if (pluto_loop_is_innermost(loops[i], prog) &&
+        !pluto_loop_has_interleaved_stmt_dep(loops[i], prog)) {
       for (j = 0; j < nbands; j++) {
         if (is_loop_dominated(loops[i], bands[j]->loop, prog))
           break;
-- 
2.43.0


From 216e3d121ab73e946684136fd8121c51b570a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:00 +0000
Subject: [PATCH 09/71] fix: free isl objects once and report failure in the
 string interface

---
 lib/plutolib.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 4f8f75a..24e3f2f 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -554,6 +554,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -567,7 +568,6 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -585,9 +585,9 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                         char **schedules_str_buffer_ptr, char **p_loops,
                         Remapping **remapping_ptr, PlutoContext *context) {
   isl_ctx *ctx = isl_ctx_alloc();
-  Ploop **ploop;
+  Ploop **ploop = NULL;
   unsigned nploop = 0, i;
-  Remapping *remapping;
+  Remapping *remapping = NULL;
 
   isl_union_set *domains = isl_union_set_read_from_str(ctx, domains_str);
   isl_union_map *dependences =
@@ -598,6 +598,15 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       domains, dependences, &ploop, &nploop, &remapping, context);
   *remapping_ptr = remapping;
 
+  if (!schedule) {
+    /* Failure */
+    *schedules_str_buffer_ptr = NULL;
+    if (context->options->parallel)
+      p_loops[0] = NULL;
+    isl_ctx_free(ctx);
+    return;
+  }
+
   if (context->options->parallel) {
     if (!context->options->silent) {
       pluto_loops_print(ploop, nploop);
@@ -630,8 +639,6 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
@@ -647,8 +654,13 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    /* Failure: nothing to remap */
+    memset(remapping, 0, sizeof(*remapping));
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From 9ed5970daf0df6395aaa046bee5a0402565052f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:59 +0000
Subject: [PATCH 10/71] fix: do not reorder a loop in a tile apart from
 statements interleaved with it

---
 lib/post_transform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..af9057d 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -428,7 +428,8 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   }
 
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
-  if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
+  if (best_loop && !pluto_loop_is_innermost(best_loop, prog) &&
+      !pluto_loop_has_interleaved_stmt_dep(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
     pluto_loop_print(best_loop);
 
@@ -490,7 +491,8 @@ bool pluto_intra_tile_optimize_band(Band *band, int num_tiled_levels,
                                           depth, prog, &nloops);
     Ploop *best_loop = get_best_vectorizable_loop(loops, nloops, prog);
 
-    if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
+    if (best_loop && !pluto_loop_is_innermost(best_loop, prog) &&
+        !pluto_loop_has_interleaved_stmt_dep(best_loop, prog)) {
       IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
       IF_DEBUG(pluto_loop_print(best_loop););
 
-- 
2.43.0


From e860bdccde449d16fa25dba2cc3e74b9578d28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:08 +0000
Subject: [PATCH 11/71] fix: give up a diamond tiling hyperplane that violates
 a dependence of its band

---
 lib/pluto.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 5f6c24a..7435844 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2199,6 +2199,31 @@ bool pluto_are_stmts_fused(Stmt **stmts, int nstmts, const PlutoProg *prog) {
   return (num == 1);
 }
 
+/*
+ * Is the hyperplane at 'level' of this band weakly satisfied by all dependences
+ * between the band's statements that aren't satisfied outside of the band?
+ */
+static bool band_hyperplane_is_legal(PlutoProg *prog, const Band *band,
+                                     int level) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfaction_level >= 0 &&
+        dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (!pluto_stmt_is_member_of(dep->src, band->loop->stmts,
+                                 band->loop->nstmts) ||
+        !pluto_stmt_is_member_of(dep->dest, band->loop->stmts,
+                                 band->loop->nstmts))
+      continue;
+    DepDir dir = get_dep_direction(dep, prog, level);
+    if (dir == DEP_MINUS || dir == DEP_STAR)
+      return false;
+  }
+  return true;
+}
+
 /// Diamond tiling. Returns true if diamond tiling transformation was applied.
 bool pluto_diamond_tile(PlutoProg *prog) {
   PlutoContext *context = prog->context;
@@ -2325,6 +2350,19 @@ bool pluto_diamond_tile(PlutoProg *prog) {
                         cone_complement_hyps[i]->val[0], stmt->trans->ncols);
         stmt->evicted_hyp_pos = evict_pos;
       }
+      /* The constraints the hyperplane was found with leave out dependences
+       * that hyperplanes of this very band satisfy if these had been found
+       * earlier; give up if it does not respect one of those. */
+      if (!band_hyperplane_is_legal(prog, band, evict_pos)) {
+        for (i = 0; i < band->loop->nstmts; i++) {
+          Stmt *stmt = band->loop->stmts[i];
+          copy_hyperplane(stmt->trans->val[evict_pos],
+                          stmt->evicted_hyp->val[0], stmt->trans->ncols);
+          pluto_matrix_free(stmt->evicted_hyp);
+          stmt->evicted_hyp = NULL;
+        }
+        conc_start_enabled_band = 0;
+      }
     }
 
     conc_start_enabled |= conc_start_enabled_band;
-- 
2.43.0


From 44e042a0eea588cce6e7dde3cae9ccaa69565f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 12/71] fix: coalesce transitive dependences only where they
 are computed

---
 lib/program.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..0708e83 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -689,8 +689,10 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
     if (options->lastwriter) {
-      *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
-      *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
+      if (trans_dep_war)
+        *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
+      if (trans_dep_waw)
+        *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
   }
 }
-- 
2.43.0


From aa1e3d75196b992ef5133db33d89296ad5323ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:53 +0000
Subject: [PATCH 13/71] fix: do not select first level tile sizes again for the
 second level

---
 lib/tile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 5cc7771..67f3c40 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -349,9 +349,12 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   PlutoOptions *options = context->options;
 
   for (unsigned b = 0; b < nbands; b++) {
-    if (options->find_tile_sizes)
-      find_tile_sizes(bands[b], prog, tile_sizes);
-    else
+    if (options->find_tile_sizes) {
+      /* The model selects sizes for the first level only; the dependence
+       * information it uses is out of date once that has been tiled. */
+      if (!tile_second_level)
+        find_tile_sizes(bands[b], prog, tile_sizes);
+    } else
       read_tile_sizes(tile_sizes, second_level_tile_size_ratios,
                       bands[b]->width, bands[b]->loop->stmts,
                       bands[b]->loop->nstmts, bands[b]->loop->depth,
-- 
2.43.0


From 5859c461efe5a0e1e0bfc34b913a6ce0f9014bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:53 +0000
Subject: [PATCH 14/71] fix: handle bands without accesses in the tile size
 selection model

---
 lib/tile_size_selection_model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..72ac490 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -395,6 +395,10 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
     pluto_access_free(acc);
   }
 
+  // No access in the band depends on any of its loops.
+  if (reuse_polynomial.empty())
+    reuse_polynomial.resize(1);
+
   // f(\tau) - Cache_size = 0;
   reuse_polynomial[0] -= num_data_elements_in_cache;
 
-- 
2.43.0


From 8e6565015f8c6336246536d516c4f26e073adfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:04 +0000
Subject: [PATCH 15/71] fix: look for the tile space iterator of a loop among
 the iterators of its hyperplane

---
 lib/program.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 0708e83..6deaf15 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -220,14 +220,19 @@ static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
 
 /// Returns true if the input loop is a tile space loop.
 bool is_tile_space_loop(Ploop *loop, const PlutoProg *prog) {
-  int tile_size;
-  int64_t *tiling_hyp =
-      pluto_check_supernode(loop->stmts[0], loop->depth, &tile_size);
-  if (tiling_hyp == NULL) {
-    return false;
+  const Stmt *stmt = loop->stmts[0];
+  /* The loop's depth is a position in the transformation, not in the domain. */
+  for (unsigned pos = 0; pos < stmt->dim; pos++) {
+    if (stmt->trans->val[loop->depth][pos] == 0)
+      continue;
+    int tile_size;
+    int64_t *tiling_hyp = pluto_check_supernode(stmt, pos, &tile_size);
+    if (tiling_hyp != NULL) {
+      free(tiling_hyp);
+      return true;
+    }
   }
-  free(tiling_hyp);
-  return true;
+  return false;
 }
 
 static int is_skewed(int64_t *func, int len) {
-- 
2.43.0


From bc574cfc18ada32e1f13f3aa5ac1199895baa464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:34 +0000
Subject: [PATCH 16/71] fix: consider only the loops of a band in the tile size
 selection model

---
 lib/tile_size_selection_model.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 72ac490..882e0bd 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -268,6 +268,8 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
       unsigned loop_depth = depth + loops[j]->depth;
       IF_DEBUG2(printf("loop_depth: %d, loop[%d]->depth: %d\n", loop_depth, j,
                        loops[j]->depth););
+      if (loops[j]->depth - depth >= band->width)
+        continue;
       if (newAccMat->val[i][loops[j]->depth] >= 1) {
 
         if ((loops[j]->depth) - depth == vectorDim) {
@@ -459,6 +461,9 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
     // Do not select outermost parallel loop
     if (best_loop->depth - band->loop->depth == 0)
       continue;
+    // Nor a loop under the band, which isn't tiled.
+    if (best_loop->depth - depth >= band->width)
+      continue;
     // Do not assign vector tile sizes to concurrent start dimensions.
     if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
       continue;
@@ -488,6 +493,9 @@ static std::vector<float> get_dimensional_reuse(Band *band, PlutoProg *prog) {
                                         depth, prog, &nloops);
 
   for (unsigned i = 0; i < nloops; i++) {
+    // Loops under the band aren't tiled.
+    if (loops[i]->depth - depth >= band->width)
+      continue;
     dimReuse[loops[i]->depth - depth] = get_dimensional_reuse(loops[i]);
     // TODO: Use the following if we want to only consider distinct accesses.
     // To be experimented if this gives better results.
@@ -571,6 +579,8 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
   unsigned depth = band->loop->depth + num_tiled_levels * band->width;
   unsigned par_loop_depth = vectorizableDims.size();
   for (unsigned i = 0; i < nloops; i++) {
+    if (loops[i]->depth - depth >= band->width)
+      continue;
     bool parallel = true;
     for (unsigned j = 0; j < loops[i]->nstmts; j++) {
       if (!pluto_loop_is_parallel_for_stmt(prog, loops[i],
@@ -589,7 +599,7 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
   pluto_loops_free(loops, nloops);
 
   IF_DEBUG(printf("Parallel dimension %d\n", par_loop_depth););
-  if (vectorizableDims[par_loop_depth])
+  if (par_loop_depth < vectorizableDims.size())
     vectorizableDims[par_loop_depth] = false;
 
   bool is_band_wavefront_parallel =
-- 
2.43.0


From 87c91e5c1f21728b87001d8ec61b4c4eec7825a5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 17/71] fix: free the string of a loop depth in the string
 interface

---
 lib/plutolib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 24e3f2f..52c380b 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -629,6 +629,7 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       sprintf(str, "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
+    free(str);
   }
 
   isl_printer *printer = isl_printer_to_str(ctx);
-- 
2.43.0


From 3b1c260c8308f5b389d5ec0be6e4c89c45a818fe Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 18/71] fix: free the parameter names of a program without
 parameters

---
 lib/program.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 6deaf15..8c113e2 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -811,9 +811,7 @@ void pluto_prog_free(PlutoProg *prog) {
   for (int i = 0; i < prog->npar; i++) {
     free(prog->params[i]);
   }
-  if (prog->npar >= 1) {
-    free(prog->params);
-  }
+  free(prog->params);
 
   /* Statements */
   for (unsigned i = 0; i < prog->nstmts; i++) {
-- 
2.43.0


From f5b0b9674395547768bf738c1754956bd7fbbfc4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 19/71] fix: free the access function of a scalar looked at for
 spatial reuse

---
 lib/post_transform.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index af9057d..28d65ed 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -35,8 +35,11 @@ int has_spatial_reuse(Stmt *stmt, PlutoAccess *acc, int depth) {
   assert(depth <= (int)newacc->ncols - 1);
 
   /* Scalars */
-  if (newacc->nrows == 0)
+  if (newacc->nrows == 0) {
+    pluto_matrix_free(newacc);
+    free(divs);
     return 0;
+  }
 
   for (int i = 0; i < (int)newacc->nrows - 1; i++) {
     /* No spatial reuse when the func is varying at a non-innermost dim */
-- 
2.43.0


From e79ac8c3f924286bb504658af96dcdf9f24cefab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 20/71] fix: free the loops looked at to find the one to make
 innermost

---
 lib/post_transform.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 28d65ed..c304e5f 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -426,11 +426,10 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
       innermost_loop_depth = loops[i]->depth;
     }
   }
-  if (nploops == 0) {
-    return false;
-  }
 
-  Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
+  Ploop *best_loop =
+      nploops ? get_best_vectorizable_loop(par_loops, nploops, prog) : NULL;
+  bool moved = false;
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog) &&
       !pluto_loop_has_interleaved_stmt_dep(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
@@ -439,9 +438,11 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
                               move_across_scalar_hyperplanes, prog);
-    return true;
+    moved = true;
   }
-  return false;
+  free(par_loops);
+  pluto_loops_free(loops, nloops);
+  return moved;
 }
 
 /// Optimize the intra-tile loop order for locality and vectorization.
-- 
2.43.0


From 65f63dd25487dc1e586efd19db0023929a025394 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:58:57 +0000
Subject: [PATCH 21/71] fix: free the transformation found so far when going
 back to the original one

---
 lib/pluto.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7435844..347e8b4 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1852,11 +1852,16 @@ int pluto_auto_transform(PlutoProg *prog) {
                    "transformation (if they exist)\n");
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
+              pluto_matrix_free(stmts[i]->trans);
+              free(stmts[i]->hyp_types);
               stmts[i]->trans = orig_trans[i];
               stmts[i]->hyp_types = orig_hyp_types[i];
-              prog->num_hyperplanes = orig_num_hyperplanes;
-              prog->hProps = orig_hProps;
             }
+            free(prog->hProps);
+            prog->num_hyperplanes = orig_num_hyperplanes;
+            prog->hProps = orig_hProps;
+            free(orig_trans);
+            free(orig_hyp_types);
             return 1;
           }
         }
-- 
2.43.0


From 787245dcfe443bbee7895ac99912dae3b6519d8e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 22:59:08 +0000
Subject: [PATCH 22/71] fix: free the input dependences that pluto_schedule
 does not use

---
 lib/plutolib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 52c380b..0420cef 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -471,7 +471,7 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
                                          __isl_take isl_union_map *reads,
                                          __isl_take isl_union_map *writes,
                                          PlutoContext *context) {
-  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar;
+  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar = NULL;
 
   isl_union_map *empty = isl_union_map_empty(isl_union_map_get_space(reads));
 
@@ -480,6 +480,8 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  /* Input dependences aren't used for scheduling here */
+  isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
-- 
2.43.0


From 66972018c1ce69689876a991c9f5f5af21c14795 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 23/71] fix: free the satisfaction vector of a dependence
 without directions

---
 lib/program.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 8c113e2..330f393 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -338,9 +338,7 @@ void pluto_dep_free(Dep *dep) {
   if (dep->dirvec) {
     free(dep->dirvec);
   }
-  if (dep->dirvec) {
-    free(dep->satvec);
-  }
+  free(dep->satvec);
   pluto_constraints_free(dep->cst);
   pluto_constraints_free(dep->bounding_cst);
   free(dep);
-- 
2.43.0


From 21b1db0e3b1785a5b5a891c3717929c8ddf25020 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 24/71] fix: free the loops looked at for a vector tile size

---
 lib/tile_size_selection_model.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 882e0bd..b5a6a46 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -458,17 +458,19 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
       pluto_loop_print(best_loop);
     }
 
+    int best_depth = best_loop->depth;
+    pluto_loops_free(loops, nloops);
+
     // Do not select outermost parallel loop
-    if (best_loop->depth - band->loop->depth == 0)
+    if (best_depth - band->loop->depth == 0)
       continue;
     // Nor a loop under the band, which isn't tiled.
-    if (best_loop->depth - depth >= band->width)
+    if (best_depth - depth >= band->width)
       continue;
     // Do not assign vector tile sizes to concurrent start dimensions.
-    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
+    if (prog->is_diamond_tiled && best_depth - band->loop->depth <= 1)
       continue;
-    vectorizableDims[best_loop->depth - depth] = true;
-    pluto_loops_free(loops, nloops);
+    vectorizableDims[best_depth - depth] = true;
   }
   pluto_bands_free(ibands, num_fused_bands);
   return vectorizableDims;
-- 
2.43.0


From c1c612e6b0d0d7f6a1450a2c0f02c9a7dad7afa2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 25/71] fix: use only valid sizes from tile.sizes

---
 lib/tile.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 67f3c40..d531e5b 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -48,7 +48,10 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
     }
     int loop = (j < nstmts);
     if (loop) {
-      fscanf(tsfile, "%d", &tile_sizes[i]);
+      int size;
+      if (fscanf(tsfile, "%d", &size) != 1 || size < 1)
+        break;
+      tile_sizes[i] = size;
     } else {
       /* Size set for scalar dimension doesn't matter */
       tile_sizes[i] = 42;
@@ -56,14 +59,17 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
   }
 
   if (i < num_tile_dims) {
-    printf("WARNING: not enough tile sizes provided\n");
+    printf("WARNING: not enough (valid) tile sizes provided\n");
     fclose(tsfile);
     return 0;
   }
 
   i = 0;
   while (i < num_tile_dims && !feof(tsfile)) {
-    fscanf(tsfile, "%d", &second_level_tile_size_ratios[i++]);
+    int ratio;
+    if (fscanf(tsfile, "%d", &ratio) != 1 || ratio < 1)
+      break;
+    second_level_tile_size_ratios[i++] = ratio;
   }
 
   if (i < num_tile_dims) {
-- 
2.43.0


From f8021e28ab2f5e7477742a6b9fac46fe8517b534 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 26/71] fix: skip only dependences that exist and stop at the
 first thing that isn't a number

---
 lib/framework.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 29467df..dbd5575 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -365,8 +365,9 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
   /* For debugging (skip deps listed here) */
   if (skipfp) {
     int num;
-    while (!feof(skipfp)) {
-      fscanf(skipfp, "%d", &num);
+    while (fscanf(skipfp, "%d", &num) == 1) {
+      if (num < 1 || num > ndeps)
+        continue;
       skipdeps[num - 1] = 1;
       printf("\tskipping dep %d\n", num);
     }
-- 
2.43.0


From 0909c2ee3b5e85e4d280e71c89333425e528bb5a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 27/71] fix: ignore an .fst that cannot be read completely, and
 close it

---
 lib/pluto.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 347e8b4..040fcd1 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -932,11 +932,21 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
   FILE *cutFp = fopen(".fst", "r");
 
   if (cutFp) {
-    int tile;
+    int tile[nstmts];
+
+    bool valid = fscanf(cutFp, "%d", &ncomps) == 1 && ncomps <= nstmts;
+    for (i = 0; valid && i < ncomps; i++) {
+      valid = fscanf(cutFp, "%d", &grpCount[i]) == 1 && grpCount[i] <= nstmts;
+      for (j = 0; valid && j < grpCount[i]; j++) {
+        valid = fscanf(cutFp, "%d", &stmtGrp[i][j]) == 1 &&
+                stmtGrp[i][j] >= 0 && stmtGrp[i][j] <= nstmts - 1;
+      }
+      valid = valid && fscanf(cutFp, "%d", &tile[i]) == 1;
+    }
 
-    fscanf(cutFp, "%d", &ncomps);
+    fclose(cutFp);
 
-    if (ncomps > nstmts) {
+    if (!valid) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
       printf("No fusion/distribution forced\n");
@@ -944,20 +954,11 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
     }
 
     for (i = 0; i < ncomps; i++) {
-      fscanf(cutFp, "%d", &grpCount[i]);
-      assert(grpCount[i] <= nstmts);
-      for (j = 0; j < grpCount[i]; j++) {
-        fscanf(cutFp, "%d", &stmtGrp[i][j]);
-        assert(stmtGrp[i][j] <= nstmts - 1);
-      }
-      fscanf(cutFp, "%d", &tile);
       for (j = 0; j < grpCount[i]; j++)
         for (unsigned k = 0; k < stmts[stmtGrp[i][j]]->dim_orig; k++)
-          stmts[stmtGrp[i][j]]->tile = tile;
+          stmts[stmtGrp[i][j]]->tile = tile[i];
     }
 
-    fclose(cutFp);
-
     /* Update transformation matrices */
     for (i = 0; i < nstmts; i++) {
       pluto_stmt_add_hyperplane(stmts[i], H_SCALAR, stmts[i]->trans->nrows);
-- 
2.43.0


From fd88f80405ae09caa2e576e79037de204478307a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 28/71] fix: close .precut

---
 lib/pluto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 040fcd1..d51b847 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1059,6 +1059,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         dep_satisfaction_update(prog, prog->num_hyperplanes - 1);
         ddg_update(ddg, prog);
       }
+      fclose(precut);
       return true;
     }
 
-- 
2.43.0


From e1a2fb724b98c8e2ef932b26f5508e9b55490c0e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 29/71] fix: do not take a failure of isl for the absence of
 solutions

---
 lib/constraints.c     | 6 +++++-
 lib/constraints_isl.c | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..f164a4d 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1902,12 +1902,16 @@ PlutoConstraints *pluto_constraints_empty(int ncols, PlutoContext *context) {
 
 int pluto_constraints_is_empty(const PlutoConstraints *cst) {
   int64_t *sol;
-  bool is_empty;
+  int is_empty;
 
   if (cst->context->options->islsolve) {
     isl_ctx *ctx = isl_ctx_alloc();
     isl_set *iset = isl_set_from_pluto_constraints(cst, ctx);
     is_empty = isl_set_is_empty(iset);
+    if (is_empty < 0) {
+      fprintf(stderr, "[pluto] ERROR: isl failed on an emptiness test\n");
+      exit(1);
+    }
     isl_set_free(iset);
     isl_ctx_free(ctx);
   } else {
diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..b4886f3 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -376,7 +376,13 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
   }
   lexmin = isl_set_lexmin(domain);
 
-  if (isl_set_is_empty(lexmin)) {
+  isl_bool is_empty = isl_set_is_empty(lexmin);
+  if (is_empty < 0) {
+    /* Not knowing is different from there being no solution. */
+    fprintf(stderr, "[pluto] ERROR: isl failed to solve the constraints\n");
+    exit(1);
+  }
+  if (is_empty) {
     isl_set_free(lexmin);
     isl_ctx_free(ctx);
     return NULL;
-- 
2.43.0


From bec27c88fe0dc65a0ec4aedb9099c54856e02fb0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 30/71] fix: do not go on with the part of the dependences or
 domains that isl provided

---
 lib/constraints_isl.c |  6 +++++-
 lib/plutolib.c        | 11 +++++++++--
 lib/program.cpp       |  5 ++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index b4886f3..db14438 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -178,7 +178,11 @@ PlutoConstraints *isl_set_to_pluto_constraints(__isl_keep isl_set *set,
   PlutoConstraints *cst = NULL;
   assert(set && "set is null");
   struct pluto_cst_context_info info = {&cst, context};
-  isl_set_foreach_basic_set(set, &extract_basic_set_constraints, &info);
+  if (isl_set_foreach_basic_set(set, &extract_basic_set_constraints, &info) <
+      0) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the constraints\n");
+    exit(1);
+  }
   if (cst == NULL)
     cst = pluto_constraints_empty(isl_set_dim(set, isl_dim_set) +
                                       isl_set_dim(set, isl_dim_param) + 1,
diff --git a/lib/plutolib.c b/lib/plutolib.c
index 0420cef..e34789e 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -249,7 +249,10 @@ static void extract_stmts(__isl_keep isl_union_set *domains, PlutoProg *prog) {
 
   struct pluto_stmt_context_info info = {prog->stmts, prog->context};
 
-  isl_union_set_foreach_set(domains, &extract_stmt, &info);
+  if (isl_union_set_foreach_set(domains, &extract_stmt, &info) < 0) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the domains\n");
+    exit(1);
+  }
 
   for (int i = 0; i < prog->nstmts; i++)
     assert(prog->stmts[i] && "statement extraction failed; invalid domains?");
@@ -410,7 +413,11 @@ static PlutoProg *pluto_prog_from_isl_domains_dependences(
   }
 
   prog->ndeps = 0;
-  isl_union_map_foreach_map(dependences, &isl_map_count, &prog->ndeps);
+  if (isl_union_map_foreach_map(dependences, &isl_map_count, &prog->ndeps) <
+      0) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the dependences\n");
+    exit(1);
+  }
 
   prog->deps = (Dep **)malloc(prog->ndeps * sizeof(Dep *));
   for (int i = 0; i < prog->ndeps; i++) {
diff --git a/lib/program.cpp b/lib/program.cpp
index 330f393..c34996c 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -604,7 +604,10 @@ int extract_deps_from_isl_union_map(__isl_keep isl_union_map *umap, Dep **deps,
                                     PlutoContext *context) {
   struct pluto_extra_dep_info info = {deps, stmts, type, first, context};
 
-  isl_union_map_foreach_map(umap, &map_extract_dep, &info);
+  if (isl_union_map_foreach_map(umap, &map_extract_dep, &info) < 0) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the dependences\n");
+    exit(1);
+  }
 
   return info.index - first;
 }
-- 
2.43.0


From 861a6408094ac9c3d4c88c95cf9874b064498913 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 31/71] fix: do not take a coefficient isl failed to provide
 for zero

---
 lib/constraints_isl.c | 10 ++++++++++
 lib/isl_support.c     |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index db14438..c4fae37 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -262,6 +262,11 @@ isl_basic_set_to_pluto_constraints(__isl_keep isl_basic_set *bset,
                                            isl_dim_param, isl_dim_cst);
   isl_basic_set_free(bset_c);
 
+  if (!eq || !ineq) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the constraints\n");
+    exit(1);
+  }
+
   eq_row = isl_mat_rows(eq);
   ineq_row = isl_mat_rows(ineq);
   n_col = isl_mat_cols(eq);
@@ -321,6 +326,11 @@ int isl_basic_map_to_pluto_constraints_func_arg(__isl_take isl_basic_map *bmap,
   ineq = isl_basic_map_inequalities_matrix(
       bmap, isl_dim_in, isl_dim_out, isl_dim_div, isl_dim_param, isl_dim_cst);
 
+  if (!eq || !ineq) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide the constraints\n");
+    exit(1);
+  }
+
   eq_row = isl_mat_rows(eq);
   ineq_row = isl_mat_rows(ineq);
   n_col = isl_mat_cols(eq);
diff --git a/lib/isl_support.c b/lib/isl_support.c
index a37e731..0c7402d 100644
--- a/lib/isl_support.c
+++ b/lib/isl_support.c
@@ -130,8 +130,10 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
 
   mpz_init(tmp);
 
-  if (!v)
-    return 0;
+  if (!v) {
+    fprintf(stderr, "[pluto] ERROR: isl failed to provide a value\n");
+    exit(1);
+  }
   if (!isl_val_is_rat(v))
     isl_die(isl_val_get_ctx(v), isl_error_invalid, "expecting rational value",
             return 0);
-- 
2.43.0


From 1dfda2258a74b8f0db682cfac5b9e216c0bf2a16 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:22:34 +0000
Subject: [PATCH 32/71] fix: sum up accesses in an order that does not depend
 on their addresses

---
 lib/tile_size_selection_model.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index b5a6a46..d9c1e49 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -195,18 +195,19 @@ std::vector<unsigned> TileSizeSelectionModel::infer_tile_sizes(unsigned root) {
   return tile_sizes;
 }
 
-/// Returns distinct accesses in the band as a set.
-std::set<PlutoAccess *> get_distinct_accesses_in_band(Band *band,
-                                                      PlutoProg *prog) {
+/// Returns distinct accesses in the band, in an order that doesn't depend on
+/// where they were allocated.
+std::vector<PlutoAccess *> get_distinct_accesses_in_band(Band *band,
+                                                         PlutoProg *prog) {
   unsigned nstmts = band->loop->nstmts;
-  std::set<PlutoAccess *> distinctAccesses;
+  std::vector<PlutoAccess *> distinctAccesses;
   Stmt **stmts = band->loop->stmts;
   unsigned num_unique_accesses;
   PlutoAccess **accesses =
       get_unique_accesses_in_stmts(stmts, nstmts, prog, &num_unique_accesses);
 
   for (unsigned i = 0; i < num_unique_accesses; i++)
-    distinctAccesses.insert(accesses[i]);
+    distinctAccesses.push_back(accesses[i]);
   free(accesses);
 
   return distinctAccesses;
@@ -356,7 +357,7 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
       num_loop_dimensions++;
   }
 
-  std::set<PlutoAccess *> distinctAccesses =
+  std::vector<PlutoAccess *> distinctAccesses =
       get_distinct_accesses_in_band(band, prog);
   unsigned max_degree = 0;
 
-- 
2.43.0


From 799f5cd0d5549b06cdb4d89f77adfebd55fe6c3f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:42:28 +0000
Subject: [PATCH 33/71] fix: go on when a diamond tiling hyperplane is linearly
 dependent

---
 lib/pluto.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index d51b847..b298fe2 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1763,8 +1763,9 @@ int pluto_auto_transform(PlutoProg *prog) {
        * that had fewer than num_ind_sols_found linearly independent
        * hyperplanes,
        * it means it didn't need that many hyperplanes and all of its
-       * linearly independent solutions had been found */
-      assert(hyp_search_mode == LAZY ||
+       * linearly independent solutions had been found; with diamond tiling,
+       * a hyperplane found may have been replaced by a dependent one. */
+      assert(hyp_search_mode == LAZY || conc_start_found ||
              num_sols_left == num_ind_sols_req - num_ind_sols_found);
 
       if (options->per_cc_obj) {
-- 
2.43.0


From b4fc85d4eac8ab873afbe8a2b9fbaf1b0254fece Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:42:28 +0000
Subject: [PATCH 34/71] fix: select tile sizes also if the data does not fit in
 the cache or the footprint has a lower degree

---
 lib/tile_size_selection_model.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index d9c1e49..de5f94c 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -111,11 +111,15 @@ static unsigned approximate_to_nearest_multiple(unsigned num, unsigned factor) {
 /// not see any cases where the degree was larger than 2. Integrate with an
 /// external library to solve higher degee polynomials.
 unsigned TileSizeSelectionModel::solve_reuse_expression() {
+  while (!reuse_polynomial.empty() && reuse_polynomial.back() == 0.0f)
+    reuse_polynomial.pop_back();
 
   // Just a constant. return anything
   if (reuse_polynomial.size() < 2)
     return 0;
-  assert(reuse_polynomial.size() >= 2 and reuse_polynomial[0] < 0.0f);
+  // The footprint exceeds the cache size whatever the tile sizes are.
+  if (reuse_polynomial[0] >= 0.0f)
+    return 0;
 
   // If quadratic, find the exact roots. Else approximate.
   if (reuse_polynomial.size() == 3) {
-- 
2.43.0


From ac67e556b17d3196348f5d3bbf73056a91a40b96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 35/71] fix: do not let the number of constraints overflow in
 Fourier-Motzkin elimination

---
 lib/constraints.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index f164a4d..53e8ee9 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -69,7 +69,7 @@ PlutoConstraints *pluto_constraints_alloc(int max_rows, int max_cols,
 
   int i;
   for (i = 0; i < max_rows; i++) {
-    cst->val[i] = &cst->buf[i * max_cols];
+    cst->val[i] = &cst->buf[(size_t)i * max_cols];
   }
 
   cst->alloc_nrows = max_rows;
@@ -473,6 +473,15 @@ void pluto_constraints_simplify(PlutoConstraints *const cst) {
     pluto_constraints_simplify(cst->next);
 }
 
+/* More rows than can be counted can't be allocated either */
+static void check_num_rows(int64_t nrows) {
+  if (nrows > INT_MAX) {
+    fprintf(stderr,
+            "[pluto] ERROR: Not enough memory to allocate constraints\n");
+    exit(1);
+  }
+}
+
 /*
  * Eliminates the pos^th variable, where pos has to be between 0 and
  * cst->ncols-2;
@@ -531,6 +540,7 @@ void fourier_motzkin_eliminate(PlutoConstraints *cst, unsigned pos) {
         ub++;
       }
     }
+    check_num_rows(lb * ub + nb);
     newcst = pluto_constraints_alloc(lb * ub + nb, cst->ncols, cst->context);
     pluto_constraints_copy_single(newcst, cst);
     pluto_constraints_remove_dim(newcst, pos);
@@ -2517,6 +2527,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
         ub++;
       }
     }
+    check_num_rows(lb * ub + nb);
     newcst =
         pluto_constraints_alloc(lb * ub + nb, cst->ncols - 1, cst->context);
     newcst->nrows = 0;
-- 
2.43.0


From 161bd890d981ae27e3a53c73fd05166ee8bd2dbc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 36/71] fix: give up a diamond tiling hyperplane that is
 linearly dependent on the others

---
 lib/pluto.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index b298fe2..db1ff88 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1763,9 +1763,8 @@ int pluto_auto_transform(PlutoProg *prog) {
        * that had fewer than num_ind_sols_found linearly independent
        * hyperplanes,
        * it means it didn't need that many hyperplanes and all of its
-       * linearly independent solutions had been found; with diamond tiling,
-       * a hyperplane found may have been replaced by a dependent one. */
-      assert(hyp_search_mode == LAZY || conc_start_found ||
+       * linearly independent solutions had been found */
+      assert(hyp_search_mode == LAZY ||
              num_sols_left == num_ind_sols_req - num_ind_sols_found);
 
       if (options->per_cc_obj) {
@@ -2347,8 +2346,10 @@ bool pluto_diamond_tile(PlutoProg *prog) {
           printf("[pluto] Transformations before concurrent start enable\n"));
       IF_DEBUG(pluto_transformations_pretty_print(prog););
       IF_DEBUG(pluto_print_hyperplane_properties(prog););
+      bool lin_ind = true;
       for (i = 0; i < band->loop->nstmts; i++) {
         Stmt *stmt = band->loop->stmts[i];
+        unsigned num_ind = pluto_stmt_get_num_ind_hyps(stmt);
         /* Since we do concurrent start only once */
         assert(stmt->evicted_hyp == NULL);
         stmt->evicted_hyp = pluto_matrix_alloc(1, stmt->trans->ncols, context);
@@ -2357,11 +2358,13 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         copy_hyperplane(stmt->trans->val[evict_pos],
                         cone_complement_hyps[i]->val[0], stmt->trans->ncols);
         stmt->evicted_hyp_pos = evict_pos;
+        lin_ind &= pluto_stmt_get_num_ind_hyps(stmt) >= num_ind;
       }
       /* The constraints the hyperplane was found with leave out dependences
        * that hyperplanes of this very band satisfy if these had been found
-       * earlier; give up if it does not respect one of those. */
-      if (!band_hyperplane_is_legal(prog, band, evict_pos)) {
+       * earlier; give up if it does not respect one of those, or if it is
+       * linearly dependent on the other ones of a statement. */
+      if (!lin_ind || !band_hyperplane_is_legal(prog, band, evict_pos)) {
         for (i = 0; i < band->loop->nstmts; i++) {
           Stmt *stmt = band->loop->stmts[i];
           copy_hyperplane(stmt->trans->val[evict_pos],
-- 
2.43.0


From 7a9d73848ec58e94d067f10277a8895163188591 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:11:40 +0000
Subject: [PATCH 37/71] fix: ignore an .fst that is not a partition of the
 statements or violates a dependence

---
 lib/pluto.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index db1ff88..882f726 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -946,6 +946,24 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
 
     fclose(cutFp);
 
+    /* Components have to be disjoint, have to include all statements, and have
+     * to be in an order that respects all dependences. */
+    int comp[nstmts];
+    for (i = 0; i < nstmts; i++)
+      comp[i] = -1;
+    for (i = 0; valid && i < ncomps; i++) {
+      for (j = 0; valid && j < grpCount[i]; j++) {
+        valid = comp[stmtGrp[i][j]] == -1;
+        comp[stmtGrp[i][j]] = i;
+      }
+    }
+    for (i = 0; valid && i < nstmts; i++)
+      valid = comp[i] != -1;
+    for (i = 0; valid && i < prog->ndeps; i++) {
+      Dep *dep = prog->deps[i];
+      valid = IS_RAR(dep->type) || comp[dep->src] <= comp[dep->dest];
+    }
+
     if (!valid) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
-- 
2.43.0


From d844f472adc34102e5c6e44ede2032fe6a0828ab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:12:11 +0000
Subject: [PATCH 38/71] fix: ignore a .precut that cannot be read completely or
 violates a dependence

---
 lib/pluto.c | 126 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 91 insertions(+), 35 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 882f726..65e5c76 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -911,6 +911,36 @@ int get_loop_type(Stmt *stmt, int level) {
   return H_SCALAR;
 }
 
+/* Does the hyperplane at this level execute a target instance before a source
+ * instance it depends on that the outer levels don't separate? */
+static bool dep_is_violated(const Dep *dep, const PlutoProg *prog,
+                            unsigned level) {
+  const Stmt *src = prog->stmts[dep->src], *dest = prog->stmts[dep->dest];
+  PlutoConstraints *cst = pluto_constraints_dup(dep->dpolytope);
+
+  for (unsigned l = 0; l <= level; l++) {
+    /* phi(src) - phi(dest) = 0 outside, and >= 1 at this level */
+    if (l < level)
+      pluto_constraints_add_equality(cst);
+    else
+      pluto_constraints_add_inequality(cst);
+    int64_t *row = cst->val[cst->nrows - 1];
+    for (unsigned j = 0; j < src->dim; j++)
+      row[j] = src->trans->val[l][j];
+    for (unsigned j = 0; j < dest->dim; j++)
+      row[src->dim + j] = -dest->trans->val[l][j];
+    for (int j = 0; j < prog->npar + 1; j++)
+      row[src->dim + dest->dim + j] = src->trans->val[l][src->dim + j] -
+                                      dest->trans->val[l][dest->dim + j];
+    if (l == level)
+      row[src->dim + dest->dim + prog->npar] -= 1;
+  }
+
+  bool violated = !pluto_constraints_is_empty(cst);
+  pluto_constraints_free(cst);
+  return violated;
+}
+
 /* Cut based on the .fst file; returns 0 if it fails  */
 bool precut(PlutoProg *prog, Graph *ddg, int depth) {
   int ncomps;
@@ -1004,47 +1034,53 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
     unsigned cols;
 
     if (precut) {
-      /* Num of statements */
-      fscanf(precut, "%d", &ignore);
-
-      assert(ignore == prog->nstmts);
-
-      /* Tiling depth */
-      fscanf(precut, "%d", &tiling_depth);
-
-      for (i = 0; i < prog->nstmts; i++) {
-        /* Read scatterings */
-        fscanf(precut, "%d", &rows);
-        fscanf(precut, "%d", &cols);
-
-        for (k = 0; k < rows; k++) {
+      int num_rows = -1;
+      int tiles[nstmts];
+
+      /* Num of statements and tiling depth */
+      bool valid = fscanf(precut, "%d", &ignore) == 1 &&
+                   ignore == prog->nstmts &&
+                   fscanf(precut, "%d", &tiling_depth) == 1;
+
+      for (i = 0; valid && i < prog->nstmts; i++) {
+        /* Read scatterings; the same number for all statements */
+        valid = fscanf(precut, "%d", &rows) == 1 && rows >= 0 &&
+                (num_rows == -1 || rows == num_rows) &&
+                fscanf(precut, "%u", &cols) == 1;
+        num_rows = rows;
+
+        for (k = 0; valid && k < rows; k++) {
           /* Transformation is in polylib format
            * <stmt_orig_dim>+<npar>+1 (first column for equality) */
-          assert(cols == 1 + stmts[i]->dim_orig + npar + 1);
-
           /* For equality - ignore the zero */
-          fscanf(precut, "%d", &ignore);
-          assert(ignore == 0);
+          valid = cols == 1 + stmts[i]->dim_orig + npar + 1 &&
+                  fscanf(precut, "%d", &ignore) == 1 && ignore == 0;
+          if (!valid)
+            break;
 
           pluto_stmt_add_hyperplane(stmts[i], H_UNKNOWN,
                                     stmts[i]->trans->nrows);
 
           for (j = 0; j < nvar; j++) {
             if (stmts[i]->is_orig_loop[j]) {
-              fscanf(precut, "%ld",
-                     &stmts[i]->trans->val[stmts[i]->trans->nrows - 1][j]);
+              valid &=
+                  fscanf(precut, "%ld",
+                         &stmts[i]->trans->val[stmts[i]->trans->nrows - 1][j]) ==
+                  1;
             } else {
               stmts[i]->trans->val[stmts[i]->trans->nrows - 1][j] = 0;
             }
           }
           for (j = 0; j < npar; j++) {
-            fscanf(precut, "%d", &ignore);
+            valid &= fscanf(precut, "%d", &ignore) == 1;
             stmts[i]->trans->val[stmts[i]->trans->nrows - 1][nvar + j] = 0;
           }
           /* Constant part */
-          fscanf(
-              precut, "%ld",
-              &stmts[i]->trans->val[stmts[i]->trans->nrows - 1][nvar + npar]);
+          valid &=
+              fscanf(precut, "%ld",
+                     &stmts[i]
+                          ->trans->val[stmts[i]->trans->nrows - 1][nvar + npar]) ==
+              1;
           if (get_loop_type(stmts[i], stmts[i]->trans->nrows - 1) == H_LOOP) {
             stmts[i]->hyp_types[stmts[i]->trans->nrows - 1] = H_LOOP;
           } else {
@@ -1053,31 +1089,51 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         }
 
         /* Number of tiling levels */
-        fscanf(precut, "%d", &ignore);
+        valid = valid && fscanf(precut, "%d", &ignore) == 1;
 
         /* FIXME: to tile or not is specified depth-wise, why? Just
          * specify once */
-        for (j = 0; j < tiling_depth; j++) {
-          fscanf(precut, "%d", &tile);
+        tile = stmts[i]->tile;
+        for (j = 0; valid && j < tiling_depth; j++) {
+          valid = fscanf(precut, "%d", &tile) == 1;
         }
-        stmts[i]->tile = tile;
+        tiles[i] = tile;
       }
+      fclose(precut);
 
       /* Set hProps correctly and update satisfied dependences */
-      for (k = 0; k < rows; k++) {
-        pluto_prog_add_hyperplane(prog, prog->num_hyperplanes, H_UNKNOWN);
+      for (k = 0; valid && k < num_rows; k++) {
+        for (i = 0; valid && i < prog->ndeps; i++) {
+          Dep *dep = prog->deps[i];
+          valid = IS_RAR(dep->type) || !dep_is_violated(dep, prog, k);
+        }
+        if (!valid)
+          break;
+        pluto_prog_add_hyperplane(prog, prog->num_hyperplanes, H_SCALAR);
         for (i = 0; i < nstmts; i++) {
-          if (get_loop_type(stmts[i], stmts[0]->trans->nrows - rows + k) ==
-              H_LOOP) {
+          if (get_loop_type(stmts[i], k) == H_LOOP) {
             prog->hProps[prog->num_hyperplanes - 1].type = H_LOOP;
-          } else {
-            prog->hProps[prog->num_hyperplanes - 1].type = H_SCALAR;
           }
         }
         dep_satisfaction_update(prog, prog->num_hyperplanes - 1);
         ddg_update(ddg, prog);
       }
-      fclose(precut);
+
+      if (!valid) {
+        printf("You have a .precut in your directory that is invalid for this "
+               "source\n");
+        printf("No fusion/distribution forced\n");
+        for (i = 0; i < nstmts; i++)
+          stmts[i]->trans->nrows = 0;
+        free(prog->hProps);
+        prog->hProps = NULL;
+        prog->num_hyperplanes = 0;
+        pluto_dep_satisfaction_reset(prog);
+        ddg_update(ddg, prog);
+        return false;
+      }
+      for (i = 0; i < nstmts; i++)
+        stmts[i]->tile = tiles[i];
       return true;
     }
 
-- 
2.43.0


From c71f1e0be7ad614ee42562773fb2c8585fba3ec7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:34:58 +0000
Subject: [PATCH 39/71] fix: tell a PIP problem without unknowns that has a
 solution from one without

---
 lib/constraints.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index 53e8ee9..0eb6499 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1042,6 +1042,15 @@ int64_t *pluto_constraints_lexmin_pip(const PlutoConstraints *cst, int negvar) {
                    "constraints)\n",
                    cst->ncols - 1, cst->nrows););
 
+  /* Without unknowns, PIP's (empty) list can't tell a solution from none */
+  if (cst->ncols == 1) {
+    for (i = 0; i < cst->nrows; i++) {
+      if (cst->is_eq[i] ? cst->val[i][0] != 0 : cst->val[i][0] < 0)
+        return NULL;
+    }
+    return (int64_t *)calloc(1, sizeof(int64_t));
+  }
+
   pipmat = pluto_matrix_alloc(cst->nrows, cst->ncols + 1, cst->context);
 
   /* Convert constraints to PIP format */
-- 
2.43.0


From 820c2ef738d1c5fe1e88d6b378080af92c22df9b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:41:50 +0000
Subject: [PATCH 40/71] fix: use the parameter coefficients of a .precut and
 recognize its loops by any coefficient

---
 lib/pluto.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 65e5c76..390e4f7 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -902,8 +902,8 @@ int find_permutable_hyperplanes(PlutoProg *prog, bool hyp_search_mode,
  * dimension (beta row or node splitter)
  */
 int get_loop_type(Stmt *stmt, int level) {
-  for (int j = 0; j < (int)stmt->trans->ncols - 1; j++) {
-    if (stmt->trans->val[level][j] > 0) {
+  for (int j = 0; j < (int)stmt->dim; j++) {
+    if (stmt->trans->val[level][j] != 0) {
       return H_LOOP;
     }
   }
@@ -1072,8 +1072,9 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
             }
           }
           for (j = 0; j < npar; j++) {
-            valid &= fscanf(precut, "%d", &ignore) == 1;
-            stmts[i]->trans->val[stmts[i]->trans->nrows - 1][nvar + j] = 0;
+            valid &= fscanf(precut, "%ld",
+                            &stmts[i]->trans->val[stmts[i]->trans->nrows - 1]
+                                                 [nvar + j]) == 1;
           }
           /* Constant part */
           valid &=
-- 
2.43.0


From c489fa3d46f65e1a8c713a0daa9a6f08e488d336 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:41:50 +0000
Subject: [PATCH 41/71] fix: complete a .precut with different numbers of loops
 for the statements

---
 lib/pluto.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 390e4f7..41f2e5c 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1685,7 +1685,8 @@ int pluto_auto_transform(PlutoProg *prog) {
 
   depth = 0;
 
-  if (precut(prog, ddg, depth)) {
+  bool forced = precut(prog, ddg, depth);
+  if (forced) {
     /* Distributed based on .fst or .precut file (customized user-supplied
      * fusion structure */
     num_ind_sols_found = pluto_get_max_ind_hyps(prog);
@@ -1838,8 +1839,9 @@ int pluto_auto_transform(PlutoProg *prog) {
        * that had fewer than num_ind_sols_found linearly independent
        * hyperplanes,
        * it means it didn't need that many hyperplanes and all of its
-       * linearly independent solutions had been found */
-      assert(hyp_search_mode == LAZY ||
+       * linearly independent solutions had been found). A .precut can provide
+       * different numbers of independent hyperplanes. */
+      assert(forced || hyp_search_mode == LAZY ||
              num_sols_left == num_ind_sols_req - num_ind_sols_found);
 
       if (options->per_cc_obj) {
-- 
2.43.0


From 50a7432d7677e7b542b07cd06d74dda4805c1b7f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 42/71] fix: do not tile components or statements that .fst or
 .precut exclude from tiling

---
 lib/tile.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index d531e5b..21ce1f0 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -259,6 +259,20 @@ void pluto_tile(PlutoProg *prog) {
   }
   pluto_loops_free(loops, nloops);
 
+  /* Bands that aren't to be tiled (.fst or .precut) come last */
+  unsigned num_tiled_bands = 0;
+  for (i = 0; i < nbands; i++) {
+    for (j = 0; j < bands[i]->loop->nstmts; j++) {
+      if (!bands[i]->loop->stmts[j]->tile)
+        break;
+    }
+    if (j == bands[i]->loop->nstmts) {
+      Band *band = bands[i];
+      bands[i] = bands[num_tiled_bands];
+      bands[num_tiled_bands++] = band;
+    }
+  }
+
   /* Now, we are ready to tile */
   if (options->lt >= 0 && options->ft >= 0) {
     /* User option specified tiling */
@@ -268,20 +282,20 @@ void pluto_tile(PlutoProg *prog) {
     assert(options->ft <= options->lt);
 
     // Tiling for the first level.
-    pluto_tile_scattering_dims(prog, bands, nbands, false);
+    pluto_tile_scattering_dims(prog, bands, num_tiled_bands, false);
     num_tiled_levels++;
 
     if (options->second_level_tile) {
-      pluto_tile_scattering_dims(prog, bands, nbands, true);
+      pluto_tile_scattering_dims(prog, bands, num_tiled_bands, true);
       num_tiled_levels++;
     }
   } else {
     // Tiling for the first level.
-    pluto_tile_scattering_dims(prog, bands, nbands, false);
+    pluto_tile_scattering_dims(prog, bands, num_tiled_bands, false);
     num_tiled_levels++;
     if (options->second_level_tile) {
       // Tile for another level.
-      pluto_tile_scattering_dims(prog, bands, nbands, true);
+      pluto_tile_scattering_dims(prog, bands, num_tiled_bands, true);
       num_tiled_levels++;
     }
   }
@@ -312,7 +326,7 @@ void pluto_tile(PlutoProg *prog) {
 
   if (options->intratileopt) {
     bool retval = false;
-    for (i = 0; i < nbands; i++) {
+    for (i = 0; i < num_tiled_bands; i++) {
       retval |=
           pluto_intra_tile_optimize_band(bands[i], num_tiled_levels, prog);
     }
-- 
2.43.0


From 663bbd2f3c91ea01805fbc39e5a905e06efa68bd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 43/71] fix: put the source file back in place whenever polycc
 ends early

---
 polycc.sh.in | 52 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/polycc.sh.in b/polycc.sh.in
index 63aeefc..497f511 100644
--- a/polycc.sh.in
+++ b/polycc.sh.in
@@ -21,6 +21,27 @@ SOURCEFILE=""
 OUTFILE=""
 dirname=""
 PLUTOOUT=""
+TEMPFILE=""
+
+cleanup() {
+  trap '' INT TERM HUP
+  # An attempt to move the original file back in place
+  # in the event of an exception.
+  if [ -f "$TEMPFILE" ]
+  then
+    mv $TEMPFILE $SOURCEFILE
+  fi
+  if [ "$DEBUG" != 1 ];
+  then
+    rm -f .regtile .vectorize .pragmas .params .orcc .linearized .nonlinearized \
+      $CLOOGFILE .srcfilename .outfilename .distmem pi.cloog sigma.cloog \
+      *.sysloog .appendfilename
+  fi
+}
+
+# Clean up whenever and for whatever reason the script ends
+trap cleanup EXIT
+trap 'exit 1' INT TERM HUP
 
 # check for command-line options
 for arg in $*; do
@@ -73,44 +94,33 @@ fi
 
 run "$*"
 WORK=1
-TEMPFILE=""
 while [ $WORK -eq 1 ]
 do
   if grep -q "#pragma scop" "$PLUTOOUT"
   then
     # Move the original file into a temporary location
+    if [ -e "$SOURCEFILE""_temp" ]
+    then
+      # It could be the original file from a run that couldn't clean up
+      echo "polycc: $SOURCEFILE""_temp exists; not overwriting it" >&2
+      exit 1
+    fi
     TEMPFILE="$SOURCEFILE""_temp"
-    mv $SOURCEFILE $TEMPFILE
+    mv $SOURCEFILE $TEMPFILE || exit 1
 
     # Move the file that still has scope in it into
     # place of the original source file, so $* will pick the
     # correct file
-    mv $PLUTOOUT $SOURCEFILE
+    mv $PLUTOOUT $SOURCEFILE || exit 1
 
     # Run pluto again
     run "$*"
 
     # Move the original back in place
-    mv $TEMPFILE $SOURCEFILE
+    mv $TEMPFILE $SOURCEFILE || exit 1
+    TEMPFILE=""
   else
     # No more scops
     WORK=0
   fi
 done
-
-cleanup() {
-  # An attempt to move the original file back in place
-  # in the event of an exception.
-  if [ -f "$TEMPFILE" ]
-  then
-    mv $TEMPFILE $SOURCEFILE
-  fi
-  if [ "$DEBUG" != 1 ];
-  then
-    rm -f .regtile .vectorize .pragmas .params .orcc .linearized .nonlinearized \
-      $CLOOGFILE .srcfilename .outfilename .distmem pi.cloog sigma.cloog \
-      *.sysloog .appendfilename
-  fi
-}
-
-trap cleanup SIGINT exit
-- 
2.43.0


From 17b835cecaa1fa030cc91b0194f904f0b0717f56 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 44/71] fix: let polycc fail if it cannot put the output
 together

---
 inscop       | 16 ++++++++++++----
 polycc.sh.in | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/inscop b/inscop
index da42d06..2e00e56 100755
--- a/inscop
+++ b/inscop
@@ -9,12 +9,20 @@
 #
 CC=gcc
 
+# Fail if any step fails
+set -e -o pipefail
+
+# It isn't a failure of grep if there are no lines to select
+lines() {
+	grep "$@" || [ $? -eq 1 ]
+}
+
 MAXLINES=`wc -l $1 | awk '{print $1}'`
 
 # Get the FIRST scop and return all the lines above it
 # Because we are returning the text preceding the first scop, it's ok to ignore that pragma
 # which is what the grep -v call does
-grep -B $MAXLINES -m 1 "#pragma[[:space:]]\+scop" $1 | grep -v "#pragma[[:space:]]\+scop" > .head
+grep -B $MAXLINES -m 1 "#pragma[[:space:]]\+scop" $1 | lines -v "#pragma[[:space:]]\+scop" > .head
 # Get the FIRST endscop and return all the lines below it
 # We want to get all the text below the first endscop, but do not want that first endscop line to be returned
 # which is accomplished with the awk call at the end.
@@ -28,10 +36,10 @@ cat .head > __tmp
 # from pluto when '--bee' was used - instead we will add it here.
 
 # Put all the include statements in a  file
-cat $2 | grep "^#include" > .includes
+cat $2 | lines "^#include" > .includes
 
 # Put everything that isn't an include into another file
-cat $2 | grep -v "^#include" > .body.c
+cat $2 | lines -v "^#include" > .body.c
 
 # Put those includes we got above into another file
 cat .includes > .head
@@ -48,7 +56,7 @@ if ! grep -q "#define ceild(n,d)" __tmp
 fi
 
 # Run the preprocessor
-$CC -E -P .body.c | grep -v "^# " | sed -e 's/__bee_schedule/#pragma schedule/' |  \
+$CC -E -P .body.c | lines -v "^# " | sed -e 's/__bee_schedule/#pragma schedule/' |  \
 sed -e 's/_NL_DELIMIT_/\n/' >> __tmp
 
 cat .tail >> __tmp
diff --git a/polycc.sh.in b/polycc.sh.in
index 497f511..34bd38c 100644
--- a/polycc.sh.in
+++ b/polycc.sh.in
@@ -74,8 +74,8 @@ run()
 {
 $pluto $* || exit 1
 
-SOURCEFILE=`cat .srcfilename`
-OUTFILE=`cat .outfilename`
+SOURCEFILE=`cat .srcfilename` || exit 1
+OUTFILE=`cat .outfilename` || exit 1
 
 dirname=`dirname  $SOURCEFILE`
 basename=`basename $SOURCEFILE`
@@ -85,10 +85,10 @@ CLOOGFILE=`basename $OUTFILE`.pluto.cloog
 PLUTOOUT=$OUTFILE
 
 # put the original skeleton around the transformed code
-$inscop $SOURCEFILE $OUTFILE $OUTFILE
+$inscop $SOURCEFILE $OUTFILE $OUTFILE || exit 1
 
 if [ "$INDENT" == 1 ] && [ -x /usr/bin/clang-format ]; then
-    clang-format --style=LLVM -i $OUTFILE
+    clang-format --style=LLVM -i $OUTFILE || exit 1
 fi
 }
 
@@ -96,7 +96,12 @@ run "$*"
 WORK=1
 while [ $WORK -eq 1 ]
 do
-  if grep -q "#pragma scop" "$PLUTOOUT"
+  grep -q "#pragma[[:space:]]\+scop" "$PLUTOOUT"
+  STATUS=$?
+  if [ $STATUS -gt 1 ]
+  then
+    exit 1
+  elif [ $STATUS -eq 0 ]
   then
     # Move the original file into a temporary location
     if [ -e "$SOURCEFILE""_temp" ]
-- 
2.43.0


From f693381b25da829f32ed91236352059e8d2dfa9b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 45/71] fix: keep the code after an endscop pragma with more
 than one space

---
 inscop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inscop b/inscop
index 2e00e56..dfe93e5 100755
--- a/inscop
+++ b/inscop
@@ -26,7 +26,7 @@ grep -B $MAXLINES -m 1 "#pragma[[:space:]]\+scop" $1 | lines -v "#pragma[[:space
 # Get the FIRST endscop and return all the lines below it
 # We want to get all the text below the first endscop, but do not want that first endscop line to be returned
 # which is accomplished with the awk call at the end.
-sed -n '/\#pragma[[:space:]]endscop/,$p' $1 | awk '{if(NR>1)print}' > .tail
+sed -n '/\#pragma[[:space:]]\+endscop/,$p' $1 | awk '{if(NR>1)print}' > .tail
 #grep -A $MAXLINES "#pragma[[:space:]]\+endscop" $1 | grep -v "#pragma[[:space:]]\+endscop" > .tail
 
 cat .head > __tmp
-- 
2.43.0


From 4634f0d0fcddb81b9708d54d7fd0b782a8eaf384 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 46/71] fix: do not remove lines other than a repeated include
 of omp.h

---
 inscop | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inscop b/inscop
index dfe93e5..55a87db 100755
--- a/inscop
+++ b/inscop
@@ -61,12 +61,11 @@ sed -e 's/_NL_DELIMIT_/\n/' >> __tmp
 
 cat .tail >> __tmp
 
-# Checks to see if the OpenMP header has already been inserted into the file
-# If not, insert it.
-if grep -q "#include <omp.h>" __tmp
+# Checks to see if the OpenMP header is going to be inserted at the top
+if grep -q "#include <omp.h>" .head
 	then
 	# Remove the existing omp.h include
-	sed -ie '\/\<omp\.h\>/d'  __tmp
+	sed -i -e '/^[[:space:]]*#include <omp\.h>/d'  __tmp
 fi
 
 cat .head __tmp > $3
-- 
2.43.0


From c904a0287fa7285d6834277c0f345c021bccfd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:17 +0000
Subject: [PATCH 47/71] fix: put the source file back even when polycc is
 interrupted while reading its name

---
 polycc.sh.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polycc.sh.in b/polycc.sh.in
index 34bd38c..2b5b5e5 100644
--- a/polycc.sh.in
+++ b/polycc.sh.in
@@ -29,7 +29,8 @@ cleanup() {
   # in the event of an exception.
   if [ -f "$TEMPFILE" ]
   then
-    mv $TEMPFILE $SOURCEFILE
+    # SOURCEFILE may be about to be read again
+    mv $TEMPFILE ${TEMPFILE%_temp}
   fi
   if [ "$DEBUG" != 1 ];
   then
-- 
2.43.0


From 35b76a493694a569611773ed642dceea13a292db Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:08:24 +0000
Subject: [PATCH 48/71] fix: unroll-jam only loops that are permutable with all
 loops inside them

---
 lib/polyloop.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 1ce5c2a..0a6ce9a 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -576,7 +576,10 @@ bool is_unroll_jam_profitable(Ploop *loop, const PlutoProg *prog) {
 Ploop **pluto_get_unroll_jam_loops(const PlutoProg *prog,
                                    unsigned *num_ujloops) {
   unsigned num_ibands;
-  Band **ibands = pluto_get_innermost_permutable_bands(prog, 1, &num_ibands);
+  /* Jamming moves a loop inside all loops it surrounds: its band has to reach
+   * the innermost loop (all levels, tile space ones included, are in the
+   * transformation already). */
+  Band **ibands = pluto_get_innermost_permutable_bands(prog, 0, &num_ibands);
   unsigned num = 0;
   Ploop **ujloops = NULL;
   unsigned nloops = 0;
-- 
2.43.0


From 7d8de9f5d9076c2780a6018becb8ab0ab39489c0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:15:35 +0000
Subject: [PATCH 49/71] fix: keep the state of the DFP framework per thread

---
 lib/framework-dfp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 0a0d528..b909dd8 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -36,8 +36,9 @@ double *pluto_fusion_constraints_feasibility_solve(PlutoConstraints *cst,
 bool colour_scc(int scc_id, int *colour, int c, int stmt_pos, int pv,
                 PlutoProg *prog);
 void pluto_print_colours(int *colour, PlutoProg *prog);
-PlutoMatrix *par_preventing_adj_mat;
-PlutoMatrix *dep_dist_mat;
+/* Per thread: the library may be used by several threads at the same time */
+static _Thread_local PlutoMatrix *par_preventing_adj_mat;
+static _Thread_local PlutoMatrix *dep_dist_mat;
 
 static double rtclock() {
   struct timezone Tzp;
-- 
2.43.0


From 0309283efa5fcf9e57a90108cb8d1d67a09a1dcf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:18:58 +0000
Subject: [PATCH 50/71] fix: do not scale the integer solutions of the DFP
 framework in ILP mode

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 0eb6499..6a5b509 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1384,7 +1384,7 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
     return NULL;
   }
 
-  if (options->lp || options->dfp) {
+  if (options->lp) {
 
     fpsol = get_lp_solution_from_glpk_problem(lp);
     num_sols = glp_get_num_cols(lp);
-- 
2.43.0


From df75b04cf5fa6adb6eb677fe306602adaa062956 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:27:23 +0000
Subject: [PATCH 51/71] fix: remove the edges between different components from
 the conflict graph without fusion

---
 lib/framework-dfp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index b909dd8..c7f49c4 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -856,15 +856,14 @@ void update_scc_cluster_fcg_between_sccs(Graph *fcg, int scc1, int scc2,
   Graph *ddg = prog->ddg;
   Scc *sccs = ddg->sccs;
   int num_sccs = ddg->num_sccs;
-  assert(scc1 != scc2);
 
   if (options->fuse == kNoFuse) {
     for (int i = 0; i < num_sccs; i++) {
       int scc1_fcg_offset = sccs[i].fcg_scc_offset;
-      for (int dim1 = 0; dim1 <= sccs[i].max_dim; dim1++) {
+      for (int dim1 = 0; dim1 < sccs[i].max_dim; dim1++) {
         for (int j = 0; j < num_sccs; j++) {
           int scc2_fcg_offset = sccs[j].fcg_scc_offset;
-          for (int dim2 = 0; dim2 <= sccs[j].max_dim; dim2++) {
+          for (int dim2 = 0; dim2 < sccs[j].max_dim; dim2++) {
             /* No fusion. Hence all sccs are cut. Therefore remove in inter scc
              * edges in FCG */
             if (i != j) {
@@ -875,6 +874,7 @@ void update_scc_cluster_fcg_between_sccs(Graph *fcg, int scc1, int scc2,
       }
     }
   } else {
+    assert(scc1 != scc2);
     /* Update fcg only between scc1 and scc2 */
     IF_DEBUG(printf("Updating FCG between SCCs%d and %d\n", scc1, scc2););
     for (int i = 0; i < scc2; i++) {
@@ -932,7 +932,7 @@ void update_fcg_between_sccs(Graph *fcg, int scc1, int scc2, PlutoProg *prog) {
         if (stmts[i]->trans->val[stmts[i]->trans->nrows - 1][nvar + npar] !=
             stmts[j]->trans->val[stmts[j]->trans->nrows - 1][nvar + npar]) {
           int stmt_offset1 = ddg->vertices[i].fcg_stmt_offset;
-          int stmt_offset2 = ddg->vertices[i].fcg_stmt_offset;
+          int stmt_offset2 = ddg->vertices[j].fcg_stmt_offset;
           for (int k = 0; k < stmts[i]->dim_orig; k++) {
             for (int l = 0; l < stmts[j]->dim_orig; l++) {
               fcg->adj->val[stmt_offset1 + k][stmt_offset2 + l] = 0;
-- 
2.43.0


From e07f099204d08a16d9a958871c80679996d02d45 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 52/71] fix: work with the original transformation if the DFP
 framework does not find one

---
 lib/framework-dfp.c | 45 ++++++++++++++++++++++++++++------------
 lib/pluto.c         | 50 ++++++++++++++++++++++++++++++---------------
 lib/pluto.h         |  2 +-
 3 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index c7f49c4..30040d1 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -910,10 +910,6 @@ void update_fcg_between_sccs(Graph *fcg, int scc1, int scc2, PlutoProg *prog) {
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
-  if (!(options->fuse == kTypedFuse)) {
-    /* This assertion might not hold in case of typed fuse */
-    assert(fcg->to_be_rebuilt == false);
-  }
   if (nstmts == 1) {
     return;
   }
@@ -2490,8 +2486,9 @@ void pluto_add_scalar_hyperplanes_between_sccs(PlutoProg *prog, int scc1,
   }
 }
 
-/// Colours all scc's with a colour c. Returns the current colouring of the FCG.
-int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
+/// Colours all scc's with a colour c. Returns the current colouring of the FCG,
+/// and sets failed if there is an SCC that can't be coloured.
+int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog, bool *failed) {
   Graph *ddg = prog->ddg;
   Graph *fcg = prog->fcg;
   int nsccs = ddg->num_sccs;
@@ -2499,6 +2496,10 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
   int prev_scc = -1;
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
+  /* What there was when the FCG was last rebuilt for the first SCC. */
+  int rebuilt_nsccs = -1, rebuilt_nunsatisfied = -1;
+
+  *failed = false;
 
   for (int i = 0; i < nsccs; i++) {
     double t_start = rtclock();
@@ -2596,6 +2597,17 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
         prog->fcg_colour_time += rtclock() - t_start;
         /* Current colour that is being used to colour the fcg is c. */
         if (options->scc_cluster) {
+          if (i == 0) {
+            int nunsatisfied =
+                get_num_unsatisfied_deps(prog->deps, prog->ndeps);
+            /* Rebuilding the same FCG again would not make a difference. */
+            if (rebuilt_nsccs == nsccs && rebuilt_nunsatisfied == nunsatisfied) {
+              *failed = true;
+              return colour;
+            }
+            rebuilt_nsccs = nsccs;
+            rebuilt_nunsatisfied = nunsatisfied;
+          }
           colour = rebuild_scc_cluster_fcg(prog, colour, c);
           /* Re-buliding the cluster_fcg will update ddg, hence number of sccs
            * can increase. */
@@ -2719,7 +2731,10 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
           is_distributed = colour_scc(i, colour, c, 0, -1, prog);
         }
       }
-      assert(is_distributed == true);
+      if (!is_distributed) {
+        *failed = true;
+        return colour;
+      }
     }
 
     prog->ddg->sccs[i].is_scc_coloured = true;
@@ -2749,12 +2764,13 @@ void reset_scc_colouring(Graph *ddg) {
 
 /// Routine to find permutable hyperplanes in the FCG based approach. Colouring
 /// is done on a per SCC basis. Natural number ordering of the scc ids is used
-/// to ensure convexity.
-void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
+/// to ensure convexity. Returns false if no permutable hyperplanes were found.
+bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   int max_colours = prog->nvar;
   Stmt **stmts = prog->stmts;
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
+  bool failed = false;
 
   /* For typed and hybrid fusion, these are already initialized based on SCCs
    * that have short dependences. */
@@ -2773,7 +2789,9 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
     if (options->lpcolour && !options->scc_cluster) {
       mark_parallel_sccs(colour, prog);
     }
-    colour = colour_fcg_scc_based(i, colour, prog);
+    colour = colour_fcg_scc_based(i, colour, prog, &failed);
+    if (failed)
+      break;
 
     double t_start = rtclock();
 
@@ -2790,7 +2808,8 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
       pluto_compute_dep_directions(prog);
       pluto_compute_dep_satisfaction(prog);
       pluto_print_dep_directions(prog);
-      assert(0);
+      failed = true;
+      break;
     }
     IF_DEBUG(
         printf("[Pluto]: Num hyperplanes found: %d\n", prog->num_hyperplanes););
@@ -2840,7 +2859,7 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
     IF_DEBUG2(pluto_print_dep_directions(prog););
   }
 
-  IF_DEBUG(printf("[Pluto] Colouring Successful\n"););
+  IF_DEBUG(printf("[Pluto] Colouring %s\n", failed ? "failed" : "Successful"););
   IF_DEBUG(pluto_print_colours(colour, prog););
 
   free(colour);
@@ -2853,7 +2872,7 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
   }
-  return;
+  return !failed;
 }
 
 /*************************** Scaling Routines ******************/
diff --git a/lib/pluto.c b/lib/pluto.c
index 41f2e5c..9748c3e 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1601,6 +1601,29 @@ static void copy_hyperplane(int64_t *h1, int64_t *h2, int ncols) {
   }
 }
 
+/* Give up the transformation found so far */
+static void restore_original_transformation(PlutoProg *prog,
+                                            PlutoMatrix **orig_trans,
+                                            PlutoHypType **orig_hyp_types,
+                                            HyperplaneProperties *orig_hProps,
+                                            int orig_num_hyperplanes) {
+  denormalize_domains(prog);
+  printf("[pluto] WARNING: working with original (identity) "
+         "transformation (if they exist)\n");
+  for (int i = 0; i < prog->nstmts; i++) {
+    Stmt *stmt = prog->stmts[i];
+    pluto_matrix_free(stmt->trans);
+    free(stmt->hyp_types);
+    stmt->trans = orig_trans[i];
+    stmt->hyp_types = orig_hyp_types[i];
+  }
+  free(prog->hProps);
+  prog->num_hyperplanes = orig_num_hyperplanes;
+  prog->hProps = orig_hProps;
+  free(orig_trans);
+  free(orig_hyp_types);
+}
+
 /**
  * Top-level automatic transformation algoritm. Returns 0 on success.
  *
@@ -1783,7 +1806,15 @@ int pluto_auto_transform(PlutoProg *prog) {
     }
 
     /* This routine frees colour internally */
-    find_permutable_dimensions_scc_based(colour, prog);
+    bool found = find_permutable_dimensions_scc_based(colour, prog);
+    if (!found) {
+      free(prog->total_coloured_stmts);
+      free(prog->scaled_dims);
+      graph_free(prog->fcg);
+      restore_original_transformation(prog, orig_trans, orig_hyp_types,
+                                      orig_hProps, orig_num_hyperplanes);
+      return 1;
+    }
 
     if (!options->silent && options->debug) {
       printf("[pluto] Transformations before skewing \n");
@@ -1926,21 +1957,8 @@ int pluto_auto_transform(PlutoProg *prog) {
               pluto_compute_dep_satisfaction(prog);
               pluto_print_dep_directions(prog);
             }
-            denormalize_domains(prog);
-            printf("[pluto] WARNING: working with original (identity) "
-                   "transformation (if they exist)\n");
-            /* Restore original ones */
-            for (i = 0; i < nstmts; i++) {
-              pluto_matrix_free(stmts[i]->trans);
-              free(stmts[i]->hyp_types);
-              stmts[i]->trans = orig_trans[i];
-              stmts[i]->hyp_types = orig_hyp_types[i];
-            }
-            free(prog->hProps);
-            prog->num_hyperplanes = orig_num_hyperplanes;
-            prog->hProps = orig_hProps;
-            free(orig_trans);
-            free(orig_hyp_types);
+            restore_original_transformation(prog, orig_trans, orig_hyp_types,
+                                            orig_hProps, orig_num_hyperplanes);
             return 1;
           }
         }
diff --git a/lib/pluto.h b/lib/pluto.h
index 35ca327..1b9d7d5 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -716,7 +716,7 @@ PlutoMatrix *construct_cplex_objective(const PlutoConstraints *cst,
 #ifdef GLPK
 Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
                                    int current_colour);
-void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog);
+bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog);
 bool introduce_skew(PlutoProg *prog);
 #endif
 
-- 
2.43.0


From a3557f637792ecbbceab995de07aa6a06e68c5ac Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 53/71] fix: check the transformation found by the DFP
 framework

---
 lib/pluto.c | 63 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 9748c3e..eb68eed 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -155,6 +155,21 @@ void pluto_compute_dep_satisfaction(PlutoProg *prog) {
   }
 }
 
+/* Swap evicted hyperplanes (diamond tiling) in or out */
+static void swap_evicted_hyperplanes(PlutoProg *prog) {
+  for (int i = 0; i < prog->nstmts; i++) {
+    Stmt *stmt = prog->stmts[i];
+    if (!stmt->evicted_hyp)
+      continue;
+    for (unsigned j = 0; j < stmt->evicted_hyp->ncols; j++) {
+      int64_t tmp = stmt->evicted_hyp->val[0][j];
+      stmt->evicted_hyp->val[0][j] =
+          stmt->trans->val[stmt->evicted_hyp_pos][j];
+      stmt->trans->val[stmt->evicted_hyp_pos][j] = tmp;
+    }
+  }
+}
+
 /*
  * Dependence satisfaction when diamond tiling was done: tiles are executed in
  * the order given by the current hyperplanes, but the iterations of a tile in
@@ -165,18 +180,8 @@ static void update_dep_satisfaction_diamond(PlutoProg *prog, bool precise) {
   bool satisfied[prog->ndeps + 1];
 
   for (int pass = 0; pass < 2; pass++) {
-    /* Swap evicted hyperplanes in (first pass) and out again */
-    for (int i = 0; i < prog->nstmts; i++) {
-      Stmt *stmt = prog->stmts[i];
-      if (!stmt->evicted_hyp)
-        continue;
-      for (unsigned j = 0; j < stmt->evicted_hyp->ncols; j++) {
-        int64_t tmp = stmt->evicted_hyp->val[0][j];
-        stmt->evicted_hyp->val[0][j] =
-            stmt->trans->val[stmt->evicted_hyp_pos][j];
-        stmt->trans->val[stmt->evicted_hyp_pos][j] = tmp;
-      }
-    }
+    /* Evicted hyperplanes are in in the first pass, and out again */
+    swap_evicted_hyperplanes(prog);
     if (precise) {
       pluto_compute_dep_satisfaction_precise(prog);
     } else {
@@ -1601,6 +1606,28 @@ static void copy_hyperplane(int64_t *h1, int64_t *h2, int ncols) {
   }
 }
 
+/* Does the transformation tell the iterations of every statement apart, and
+ * execute all dependence sources before their targets? With diamond tiling,
+ * both the order of the tiles and the one of the iterations of a tile have to
+ * (see update_dep_satisfaction_diamond). */
+static bool transformation_is_valid(PlutoProg *prog) {
+  bool valid = true;
+
+  for (int pass = 0; pass < 2; pass++) {
+    swap_evicted_hyperplanes(prog);
+    pluto_compute_dep_satisfaction_precise(prog);
+    valid = valid && pluto_transformations_full_ranked(prog) &&
+            deps_satisfaction_check(prog);
+    for (int i = 0; valid && i < prog->ndeps; i++) {
+      for (int l = 0; valid && l < prog->num_hyperplanes; l++) {
+        valid = IS_RAR(prog->deps[i]->type) ||
+                !dep_is_violated(prog->deps[i], prog, l);
+      }
+    }
+  }
+  return valid;
+}
+
 /* Give up the transformation found so far */
 static void restore_original_transformation(PlutoProg *prog,
                                             PlutoMatrix **orig_trans,
@@ -1616,7 +1643,10 @@ static void restore_original_transformation(PlutoProg *prog,
     free(stmt->hyp_types);
     stmt->trans = orig_trans[i];
     stmt->hyp_types = orig_hyp_types[i];
+    pluto_matrix_free(stmt->evicted_hyp);
+    stmt->evicted_hyp = NULL;
   }
+  prog->is_diamond_tiled = false;
   free(prog->hProps);
   prog->num_hyperplanes = orig_num_hyperplanes;
   prog->hProps = orig_hProps;
@@ -1834,6 +1864,8 @@ int pluto_auto_transform(PlutoProg *prog) {
       dep_satisfaction_update(prog, i);
     }
     if (!deps_satisfaction_check(prog)) {
+      /* Dependences can be satisfied by several hyperplanes together */
+      pluto_compute_dep_satisfaction_precise(prog);
       ddg_update(prog->ddg, prog);
       ddg_compute_scc(prog);
       cut_all_sccs(prog, prog->ddg);
@@ -1841,6 +1873,13 @@ int pluto_auto_transform(PlutoProg *prog) {
 
     free(prog->total_coloured_stmts);
     free(prog->scaled_dims);
+
+    if (!transformation_is_valid(prog)) {
+      graph_free(prog->fcg);
+      restore_original_transformation(prog, orig_trans, orig_hyp_types,
+                                      orig_hProps, orig_num_hyperplanes);
+      return 1;
+    }
 #endif
   } else {
 
-- 
2.43.0


From d77d176a3da56d09509339369f82e390af665a8a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:32:03 +0000
Subject: [PATCH 54/71] fix: do not look for stencils with bounding constraints
 that do not exist (--nodepbound)

---
 lib/framework.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index dbd5575..80710ae 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -1730,6 +1730,9 @@ get_dep_dist_lower_bound_constraints_for_scc(int scc_id, PlutoProg *prog) {
 bool is_scc_stencil(int scc_id, PlutoProg *prog) {
   std::vector<Stmt *> stmts;
   PlutoContext *context = prog->context;
+  // There are no bounding constraints to look at.
+  if (context->options->nodepbound)
+    return false;
   for (unsigned i = 0; i < prog->nstmts; i++) {
     if (prog->stmts[i]->scc_id == scc_id) {
       stmts.push_back(prog->stmts[i]);
-- 
2.43.0


From 59071aecccf41217ce607ec6f6f97aa58bf01729 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:35:04 +0000
Subject: [PATCH 55/71] fix: colour components for which the LP has no solution

---
 lib/framework-dfp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 30040d1..449cf60 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -1303,9 +1303,9 @@ int get_next_min_vertex(int fcg_stmt_offset, int stmt_id, int *list, int num,
       if (options->lpcolour) {
         int scc_id = stmts[stmt_id]->scc_id;
         double *sol = prog->ddg->sccs[scc_id].sol;
-        assert(sol != NULL);
         int stmt_offset = npar + 1 + (nvar + 1) * stmt_id + i;
-        if (sol[stmt_offset] == 0.0f) {
+        /* There is no solution if the LP is infeasible for the whole SCC */
+        if (sol != NULL && sol[stmt_offset] == 0.0f) {
           continue;
         }
       }
-- 
2.43.0


From 9bc23d2d5976b321481d4326dea2111959fba94c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 56/71] fix: initialize the properties of the components of a
 graph

---
 lib/ddg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..61e84b0 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -44,7 +44,7 @@ Graph *graph_alloc(int nVertices, PlutoContext *context) {
       g->adj->val[i][j] = 0;
   }
 
-  g->sccs = (Scc *)malloc(nVertices * sizeof(Scc));
+  g->sccs = (Scc *)calloc(nVertices, sizeof(Scc));
 
   /* Not computed yet */
   g->num_sccs = -1;
-- 
2.43.0


From c5afaa714d4f9d2ae6ebfb3fc2c1655b3ba20538 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 57/71] fix: do not free the matrices of an earlier run of the
 DFP framework again

---
 lib/framework-dfp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 449cf60..eae9078 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2432,9 +2432,11 @@ int *rebuild_scc_cluster_fcg(PlutoProg *prog, int *colour, int c) {
   }
   if (options->fuse == kTypedFuse) {
     pluto_matrix_free(par_preventing_adj_mat);
+    par_preventing_adj_mat = NULL;
   }
   if (options->lpcolour) {
     pluto_matrix_free(dep_dist_mat);
+    dep_dist_mat = NULL;
   }
   prog->fcg = build_fusion_conflict_graph(prog, scc_colour, nvertices, c);
 
@@ -2865,9 +2867,11 @@ bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   free(colour);
   if (options->fuse == kTypedFuse) {
     pluto_matrix_free(par_preventing_adj_mat);
+    par_preventing_adj_mat = NULL;
   }
   if (options->lpcolour) {
     pluto_matrix_free(dep_dist_mat);
+    dep_dist_mat = NULL;
   }
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
-- 
2.43.0


From f036b42253a83460cece17d359839bd0fd894f92 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:07:59 +0000
Subject: [PATCH 58/71] fix: free the matrices and solutions of the DFP
 framework when the conflict graph is rebuilt

---
 lib/framework-dfp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index eae9078..906d71c 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -1090,12 +1090,14 @@ Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
   Graph *fcg = graph_alloc(num_nodes, context);
 
   if (options->fuse == kTypedFuse) {
+    pluto_matrix_free(par_preventing_adj_mat);
     par_preventing_adj_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
       bzero(par_preventing_adj_mat->val[i], num_nodes * sizeof(int64_t));
     }
   }
   if (options->lpcolour && options->scc_cluster) {
+    pluto_matrix_free(dep_dist_mat);
     dep_dist_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
       bzero(dep_dist_mat->val[i], num_nodes * sizeof(int64_t));
@@ -2875,6 +2877,10 @@ bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   }
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
+    if (options->lpcolour && !options->scc_cluster) {
+      free(prog->ddg->sccs[i].sol);
+      prog->ddg->sccs[i].sol = NULL;
+    }
   }
   return !failed;
 }
-- 
2.43.0


From e3cd392f2e3ef140dcd317411ad1b08fb067122f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:09:18 +0000
Subject: [PATCH 59/71] fix: do not expect a solution of the LP for components
 that can not be coloured

---
 lib/framework-dfp.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 906d71c..758f336 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -157,8 +157,8 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
         ddg_update(prog->ddg, prog);
         ddg_compute_scc(prog);
         assert(num_sccs == prog->ddg->num_sccs);
-        free(permutecst);
-        free(indcst);
+        pluto_constraints_free(permutecst);
+        pluto_constraints_free(indcst);
         permutecst = get_scc_permutability_constraints(i, prog);
         indcst = dfp_get_scc_ortho_constraints(colour, i, prog);
         pluto_constraints_add(indcst, boundcst);
@@ -167,10 +167,9 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
         }
         sol = pluto_fusion_constraints_feasibility_solve(indcst, obj);
       }
-      /* There must exist a hyperplane for a scc that weakly satisfies
-       * all dependences in that SCC*/
-      assert(sol != NULL);
-      if (is_lp_solution_parallel(sol, prog->npar)) {
+      /* If there is still no hyperplane for the scc that weakly satisfies all
+       * dependences in that SCC, colouring it is going to fail. */
+      if (sol != NULL && is_lp_solution_parallel(sol, prog->npar)) {
         prog->ddg->sccs[i].is_parallel = 1;
         IF_DEBUG(printf("SCC %d is parallel \n", i););
       } else {
-- 
2.43.0


From 9daadf46a7c6b51e7ad173e157ec35ba20008a66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 60/71] fix: free the LP solutions of all components

---
 lib/framework-dfp.c | 20 ++++++++++----------
 lib/pluto.c         |  1 +
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 758f336..86b4145 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2765,6 +2765,14 @@ void reset_scc_colouring(Graph *ddg) {
   return;
 }
 
+/// Frees the LP solutions of all SCCs there are or were since they were found.
+static void free_scc_solutions(Graph *ddg) {
+  for (int i = 0; i < ddg->nVertices; i++) {
+    free(ddg->sccs[i].sol);
+    ddg->sccs[i].sol = NULL;
+  }
+}
+
 /// Routine to find permutable hyperplanes in the FCG based approach. Colouring
 /// is done on a per SCC basis. Natural number ordering of the scc ids is used
 /// to ensure convexity. Returns false if no permutable hyperplanes were found.
@@ -2831,12 +2839,7 @@ bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
     Graph *ddg = prog->ddg;
 
     if (options->lpcolour) {
-      for (int j = 0; j < ddg->num_sccs; j++) {
-        if (ddg->sccs[j].sol != NULL) {
-          free(ddg->sccs[j].sol);
-          ddg->sccs[j].sol = NULL;
-        }
-      }
+      free_scc_solutions(ddg);
     }
 
     /* Do not update ddg or sccs if sccs are clustered. It will be updated
@@ -2876,11 +2879,8 @@ bool find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
   }
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
-    if (options->lpcolour && !options->scc_cluster) {
-      free(prog->ddg->sccs[i].sol);
-      prog->ddg->sccs[i].sol = NULL;
-    }
   }
+  free_scc_solutions(prog->ddg);
   return !failed;
 }
 
diff --git a/lib/pluto.c b/lib/pluto.c
index eb68eed..5f315c5 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2235,6 +2235,7 @@ void ddg_compute_scc(PlutoProg *prog) {
     g->sccs[i].max_dim = get_max_orig_dim_in_scc(prog, i);
     g->sccs[i].size = get_scc_size(prog, i);
     g->sccs[i].id = gT->sccs[i].id;
+    free(g->sccs[i].sol);
     g->sccs[i].sol = NULL;
     g->sccs[i].is_parallel = 0;
   }
-- 
2.43.0


From 7e8b6663b315559a3675b86b8ee7cfb5052e7faa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:22:23 +0000
Subject: [PATCH 61/71] fix: report it if there is not enough memory for any
 part of constraints

---
 lib/constraints.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 6a5b509..1a25a70 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -52,8 +52,11 @@ PlutoConstraints *pluto_constraints_alloc(int max_rows, int max_cols,
       ((size_t)PLMAX(1, max_rows)) * PLMAX(1, max_cols) * sizeof(int64_t);
 
   cst->buf = (int64_t *)malloc(size);
+  cst->is_eq = (int *)malloc(max_rows * sizeof(int));
+  cst->val = (int64_t **)malloc(max_rows * sizeof(int64_t *));
 
-  if (cst->buf == NULL) {
+  if (cst->buf == NULL ||
+      (max_rows >= 1 && (cst->is_eq == NULL || cst->val == NULL))) {
     fprintf(stderr,
             "[pluto] ERROR: Not enough memory to allocate constraints\n");
     fprintf(stderr, "[pluto] %zd bytes needed\n", size);
@@ -61,12 +64,8 @@ PlutoConstraints *pluto_constraints_alloc(int max_rows, int max_cols,
   }
 
   bzero(cst->buf, size);
-
-  cst->is_eq = (int *)malloc(max_rows * sizeof(int));
   bzero(cst->is_eq, max_rows * sizeof(int));
 
-  cst->val = (int64_t **)malloc(max_rows * sizeof(int64_t *));
-
   int i;
   for (i = 0; i < max_rows; i++) {
     cst->val[i] = &cst->buf[(size_t)i * max_cols];
-- 
2.43.0


From c058199de5fff1c817046e91b3a4d631d40f3a42 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:22:23 +0000
Subject: [PATCH 62/71] fix: swap a skewed parallel hyperplane with an outer
 one only if there is one

---
 lib/framework-dfp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 86b4145..1793c56 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -3437,7 +3437,8 @@ bool introduce_skew(PlutoProg *prog) {
        * with the one that satisfied dependences at the outer level. */
       if (is_ilp_solution_parallel(sol, npar)) {
         int par_level = get_outermost_sat_level(i, src_dims, prog);
-        swap_trans_for_cc(par_level, level, cc_id, prog);
+        if (par_level >= 0 && par_level < level)
+          swap_trans_for_cc(par_level, level, cc_id, prog);
       }
       free(sol);
       is_skew_introduced = true;
-- 
2.43.0


From 816cbce2c216cec541a2a692ddeaef781fbf1154 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:28:37 +0000
Subject: [PATCH 63/71] fix: keep track of the row of the hyperplane evicted by
 diamond tiling

Tiling adds a row but no dimension for a scalar dimension of a band, and adds
rows to inner bands after the one of the evicted hyperplane; the number of
dimensions added is thus not the number of rows that precede it now, and the
wrong row was replaced.
---
 lib/program.cpp | 5 +++++
 lib/tile.c      | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index c34996c..4126cd8 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1039,6 +1039,9 @@ void pluto_stmt_add_dim(Stmt *stmt, unsigned pos, int time_pos,
       stmt->hyp_types[i + 1] = stmt->hyp_types[i];
     }
     stmt->hyp_types[time_pos] = hyp_type;
+
+    if (stmt->evicted_hyp_pos >= time_pos)
+      stmt->evicted_hyp_pos++;
   }
 
   /* Update is_orig_loop */
@@ -1166,6 +1169,8 @@ void pluto_stmt_add_hyperplane(Stmt *stmt, PlutoHypType type, unsigned pos) {
     stmt->first_tile_dim++;
   if (stmt->last_tile_dim >= (int)pos)
     stmt->last_tile_dim++;
+  if (stmt->evicted_hyp_pos >= (int)pos)
+    stmt->evicted_hyp_pos++;
 }
 
 void pluto_prog_add_hyperplane(PlutoProg *prog, int pos,
diff --git a/lib/tile.c b/lib/tile.c
index 21ce1f0..141c7b6 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -100,8 +100,8 @@ int pluto_diamond_tile_reschedule(PlutoProg *prog) {
       for (unsigned j = 0; j < evicted_hyp->ncols; j++) {
         int64_t tmp = evicted_hyp->val[0][j];
         evicted_hyp->val[0][j] =
-            prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j];
-        prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j] = tmp;
+            prog->stmts[i]->trans->val[evicted_hyp_pos][fl + j];
+        prog->stmts[i]->trans->val[evicted_hyp_pos][fl + j] = tmp;
       }
       retval = 1;
     }
-- 
2.43.0


From 0b8b6a29927ed28a98e745e74dcec1cc38ffb15b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 64/71] fix: treat a failed scaling problem as no solution

When GLPK finds no integral scaling of an LP solution (or gives up),
pluto_mip_scale_solutions_glpk returns NULL after freeing the problem, but
the caller went on reading both. Other failures than GLP_NOFEAS were taken
for a solution of zeros.
---
 lib/constraints.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 1a25a70..2969da9 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1272,7 +1272,7 @@ double *pluto_mip_scale_solutions_glpk(glp_prob *ilp, PlutoContext *context) {
 
   int ilp_status = glp_mip_status(ilp);
 
-  if (ilp_status == GLP_NOFEAS) {
+  if (ilp_status != GLP_OPT && ilp_status != GLP_FEAS) {
     glp_delete_prob(ilp);
     return NULL;
   }
@@ -1393,6 +1393,11 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
                              cst->context);
 
     scale_sols = pluto_mip_scale_solutions_glpk(lp, context);
+    if (!scale_sols) {
+      /* No integral solution; the problem has been freed already. */
+      free(fpsol);
+      return NULL;
+    }
     int64_t *sol = (int64_t *)malloc(sizeof(int64_t) * (num_sols));
 
     /* Ideally u and w have to be set to be computed on a per CC basis. Since it
-- 
2.43.0


From e58be1b690182015c1618ee7ae8467dbc3b60960 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:34:23 +0000
Subject: [PATCH 65/71] fix: --per-cc-obj with diamond tiling and with a
 growing number of components

The constraints for concurrent start are built with one bounding function
for all components, but were combined with ones that have a bounding function
per component (assertion failure). The constraint matrix kept across levels
was allocated for the first number of connected components and overrun when
cutting the dependence graph increased it.
---
 lib/framework.cpp | 5 +++++
 lib/pluto.c       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 80710ae..cb40ba0 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -400,6 +400,11 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
   if (options->per_cc_obj) {
     ncols += (npar + 1) * prog->ddg->num_ccs;
   }
+  /* The number of connected components (and thus columns) can grow */
+  if (prog->globcst && prog->globcst->alloc_ncols < (unsigned)ncols) {
+    pluto_constraints_free(prog->globcst);
+    prog->globcst = NULL;
+  }
   if (!prog->globcst) {
     prog->globcst = pluto_constraints_alloc(total_cst_rows, ncols, context);
   }
diff --git a/lib/pluto.c b/lib/pluto.c
index 5f315c5..f35cdbc 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1932,7 +1932,12 @@ int pluto_auto_transform(PlutoProg *prog) {
         /* Diamond tiling: done for the first band of permutable loops */
         bool diamond_tiled_now = false;
         if (options->diamondtile && nsols >= 2 && !conc_start_found) {
+          /* The constraints for concurrent start are built with a single
+           * bounding function for all connected components */
+          int per_cc_obj = options->per_cc_obj;
+          options->per_cc_obj = 0;
           conc_start_found = diamond_tiled_now = pluto_diamond_tile(prog);
+          options->per_cc_obj = per_cc_obj;
           prog->is_diamond_tiled = conc_start_found;
         }
 
-- 
2.43.0


From a17bd780b4f2e013eb9468d1eeaa650f04551887 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:42:38 +0000
Subject: [PATCH 66/71] fix: do not assume that a precise satisfaction check
 leaves the SCCs alone

mark_parallel_sccs recomputed the SCCs in the middle of its loop over them:
an assertion failed when one was split, and what had been found for the SCCs
before was lost in any case. Start over instead.
---
 lib/framework-dfp.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 1793c56..a4235bf 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -130,12 +130,12 @@ static inline bool is_ilp_solution_parallel(int64_t *sol, int npar) {
 /// identify parallel SCC clustering is disabled.
 void mark_parallel_sccs(int *colour, PlutoProg *prog) {
   PlutoContext *context = prog->context;
-  int num_sccs = prog->ddg->num_sccs;
+  bool precise = false;
 
   PlutoConstraints *boundcst = get_coeff_bounding_constraints(prog);
   PlutoMatrix *obj = construct_cplex_objective(boundcst, prog);
 
-  for (int i = 0; i < num_sccs; i++) {
+  for (int i = 0; i < prog->ddg->num_sccs; i++) {
     IF_DEBUG(printf("[pluto] Checking parallelism for SCC %d\n", i););
     double *sol = NULL;
     PlutoConstraints *permutecst = get_scc_permutability_constraints(i, prog);
@@ -150,22 +150,20 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
       }
       sol = pluto_fusion_constraints_feasibility_solve(indcst, obj);
 
-      /* If sol is null, test again with a precise satisfaction check */
-      if (sol == NULL) {
+      /* If sol is null, test again with a precise satisfaction check. This may
+       * split SCCs, and all of them have to be looked at again. */
+      if (sol == NULL && !precise) {
+        precise = true;
         pluto_compute_dep_satisfaction_precise(prog);
         pluto_transformations_pretty_print(prog);
-        ddg_update(prog->ddg, prog);
-        ddg_compute_scc(prog);
-        assert(num_sccs == prog->ddg->num_sccs);
         pluto_constraints_free(permutecst);
         pluto_constraints_free(indcst);
-        permutecst = get_scc_permutability_constraints(i, prog);
-        indcst = dfp_get_scc_ortho_constraints(colour, i, prog);
-        pluto_constraints_add(indcst, boundcst);
-        if (permutecst != NULL) {
-          pluto_constraints_add(indcst, permutecst);
-        }
-        sol = pluto_fusion_constraints_feasibility_solve(indcst, obj);
+        free_scc_vertices(prog->ddg);
+        ddg_update(prog->ddg, prog);
+        ddg_compute_scc(prog);
+        compute_scc_vertices(prog->ddg);
+        i = -1;
+        continue;
       }
       /* If there is still no hyperplane for the scc that weakly satisfies all
        * dependences in that SCC, colouring it is going to fail. */
-- 
2.43.0


From 7d70b57bb359dec46a42fc164da1052cef5f47c2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 67/71] fix: index of the dimensional reuse in a debug message

---
 lib/tile_size_selection_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index de5f94c..0c83d19 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -302,7 +302,8 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
         IF_DEBUG2(
             printf("loop_depth : %d, loops[%d]->depth: %d, dim_reuse: %0.5f, "
                    "depth: %d, DimReuse size: %ld\n",
-                   loop_depth, j, loops[j]->depth, dimReuse[loops[j]->depth],
+                   loop_depth, j, loops[j]->depth,
+                   dimReuse[loops[j]->depth - depth],
                    depth, dimReuse.size()););
         gamma_i = gamma_i + dimReuse[loops[j]->depth - depth];
       }
-- 
2.43.0


From 6913824b266e832e5b084cf9dd662dc41526d356 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:35:32 +0000
Subject: [PATCH 68/71] fix: constraints of a dependence are used after being
 freed

In get_feautrier_schedule_constraints, once there are 10000 constraints.
---
 lib/framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index cb40ba0..ca63b72 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -651,7 +651,6 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
 
     pluto_constraints_add(fcst, fcst_d);
     assert(fcst->nrows >= fcst_d->nrows);
-    pluto_constraints_free(fcst_d);
 
     if (fcst->nrows >= CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc) &&
         fcst->nrows - fcst_d->nrows <
@@ -664,6 +663,7 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
         inc++;
       }
     }
+    pluto_constraints_free(fcst_d);
   }
   pluto_constraints_simplify(fcst);
 
-- 
2.43.0


From 1b1271cbb3602e203a8792d8111ceb773bd4a91f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:35:32 +0000
Subject: [PATCH 69/71] Simulation hook: threshold for the simplification of
 constraints

---
 lib/framework.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index ca63b72..f46ff68 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -29,7 +29,13 @@
 #include "isl/mat.h"
 #include "isl/set.h"
 
+#ifdef PLUTO_SIM
+/* Simulation hook: programs that are small enough get here, too. */
+extern "C" unsigned pluto_sim_simplify_threshold;
+#define CONSTRAINTS_SIMPLIFY_THRESHOLD pluto_sim_simplify_threshold
+#else
 #define CONSTRAINTS_SIMPLIFY_THRESHOLD 10000U
+#endif
 #define MAX_FARKAS_CST 2000
 
 /// This value represents the threshold on non-parametric dependence
-- 
2.43.0


From 0487a5a98b5849faeed89dfb9cd1c2479d4b0b4c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 06:56:47 +0000
Subject: [PATCH 70/71] fix: an access no instance makes is dereferenced as
 NULL

---
 lib/program.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 4126cd8..c645587 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -524,8 +524,13 @@ isl_basic_map_extract_access_func(__isl_take isl_basic_map *bmap, void *user) {
       /* Best effort: Gets it from the last piece */
       struct pluto_mat_context_info m_info = {&func_onedim, info->context};
       isl_pw_aff_foreach_piece(pw_aff, isl_aff_to_pluto_func, &m_info);
-      pluto_matrix_add(acc_mat, func_onedim);
-      pluto_matrix_free(func_onedim);
+      if (func_onedim) {
+        pluto_matrix_add(acc_mat, func_onedim);
+        pluto_matrix_free(func_onedim);
+      } else {
+        // No piece: no instance makes this access.
+        pluto_matrix_add_row(acc_mat, acc_mat->nrows);
+      }
       isl_pw_aff_free(pw_aff);
     } else {
       // Multi-valued map for access function? Setting this to zero.
-- 
2.43.0


From 9755128838ee98b87c595a12ad184cba5a386f79 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 71/71] fix: hyperplane replaced for concurrent start found
 once more

---
 lib/pluto.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index f35cdbc..bc42e58 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2499,11 +2499,19 @@ bool pluto_diamond_tile(PlutoProg *prog) {
                         cone_complement_hyps[i]->val[0], stmt->trans->ncols);
         stmt->evicted_hyp_pos = evict_pos;
         lin_ind &= pluto_stmt_get_num_ind_hyps(stmt) >= num_ind;
+        PlutoMatrix *hyps = pluto_matrix_dup(stmt->trans);
+        pluto_matrix_add(hyps, stmt->evicted_hyp);
+        while (hyps->ncols > stmt->dim_orig)
+          pluto_matrix_remove_col(hyps, stmt->dim_orig);
+        lin_ind &= pluto_matrix_get_rank(hyps) <= num_ind;
+        pluto_matrix_free(hyps);
       }
       /* The constraints the hyperplane was found with leave out dependences
        * that hyperplanes of this very band satisfy if these had been found
        * earlier; give up if it does not respect one of those, or if it is
-       * linearly dependent on the other ones of a statement. */
+       * linearly dependent on the other ones of a statement. The same if it is
+       * independent of all found so far: one found later could then depend on
+       * the evicted one, which is put back for the intra-tile order. */
       if (!lin_ind || !band_hyperplane_is_legal(prog, band, evict_pos)) {
         for (i = 0; i < band->loop->nstmts; i++) {
           Stmt *stmt = band->loop->stmts[i];
-- 
2.43.0

