From 401b05a93491438d1a653ea02f01e3e112194415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 01/25] fix: do not read past the caller's row pointers when
 copying the matrix

---
 src/core/Matrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..589fd1d 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,15 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (size_t i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From 3e8b4f76e323638aec0826b4704341802fb5ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 02/25] fix: do not read past the end of a row when removing a
 coefficient

---
 src/core/Matrix.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 589fd1d..322d98d 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -513,20 +513,22 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
 
 void remove_coeff(RowView *row, int col)
 {
-    int shift = 0;
+    int i = 0;
     int len = *row->len;
-    for (int i = 0; i < len; ++i)
+    while (i < len && row->cols[i] != col)
     {
-        if (row->cols[i] == col)
-        {
-            shift = 1;
-        }
+        ++i;
+    }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+    assert(i < len);
+
+    // shift the entries after the removed coefficient one step to the left
+    for (; i < len - 1; ++i)
+    {
+        row->vals[i] = row->vals[i + 1];
+        row->cols[i] = row->cols[i + 1];
     }
 
-    assert(shift != 0);
     (*row->range).end -= 1;
     *row->len -= 1;
 }
-- 
2.43.0


From ed37d8b23744b8469fbe58e19516380dcd546d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 03/25] fix: keep the sort keys of concurrently running
 presolvers apart

---
 include/core/pslp_thread.h         | 8 ++++++++
 src/explorers/Parallel_rows.c      | 8 +++++---
 src/explorers/Primal_propagation.c | 6 ++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..e4b9603 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -1,6 +1,14 @@
 #ifndef PSLP_THREAD_H
 #define PSLP_THREAD_H
 
+/* storage class for file-level variables that must not be shared between
+   threads (different threads may use different presolvers concurrently) */
+#if defined(_MSC_VER)
+#define PSLP_THREAD_LOCAL __declspec(thread)
+#else
+#define PSLP_THREAD_LOCAL __thread
+#endif
+
 #if defined(_WIN32) || defined(_WIN64)
 
 #include <stdint.h>
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..61dc0c0 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,16 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
-// global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+// global variables needed for qsort (one instance per thread, since different
+// threads may presolve different problems at the same time)
+static PSLP_THREAD_LOCAL int *global_sparsity_IDs;
+static PSLP_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..283c2ba 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -782,8 +783,9 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
     return UNCHANGED;
 }
 
-// Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+// Static variable to hold col_sizes (for qsort). One instance per thread, since
+// different threads may presolve different problems at the same time.
+static PSLP_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From 6f406e6fa202a2f6088ce495998f07c6b4eb49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 04/25] fix: initialise in the calling thread when the helper
 thread cannot be started

---
 src/core/Presolver.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..511c9c2 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -274,19 +274,29 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread =
+        (ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data) == 0);
+
+    // if the second thread cannot be started we do its work here
+    if (!has_thread)
+    {
+        init_thread_func(&parallel_data);
+    }
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
     // sync threads
-    ps_thread_join(&thread_id, NULL);
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
+
+    if (!AT) goto cleanup;
 
     row_tags = parallel_data.row_tags;
     if (!row_tags) goto cleanup;
-- 
2.43.0


From 91d38f0e7916dd069cba7057a96f404fc65ae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 05/25] fix: release everything exactly once when creating a
 presolver fails

---
 src/core/Presolver.c | 55 +++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 511c9c2..ccb0323 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -118,6 +119,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -190,22 +192,44 @@ typedef struct clean_up_scope
 
 void presolver_clean_up(clean_up_scope scope)
 {
-    free_matrix(scope.A);
-    free_matrix(scope.AT);
-    PS_FREE(scope.lhs_copy);
-    PS_FREE(scope.rhs_copy);
-    PS_FREE(scope.c_copy);
+    // once the problem has been created, the presolver owns everything
+    if (scope.presolver && scope.presolver->prob)
+    {
+        free_presolver(scope.presolver);
+        return;
+    }
+
+    // the constraints and the objective own the data they were created from
+    if (scope.constraints)
+    {
+        free_constraints(scope.constraints);
+    }
+    else
+    {
+        free_matrix(scope.A);
+        free_matrix(scope.AT);
+        PS_FREE(scope.lhs_copy);
+        PS_FREE(scope.rhs_copy);
+        PS_FREE(scope.row_tags);
+        PS_FREE(scope.col_tags);
+        PS_FREE(scope.bounds);
+    }
+
+    if (scope.obj)
+    {
+        free_objective(scope.obj);
+    }
+    else
+    {
+        PS_FREE(scope.c_copy);
+    }
+
     PS_FREE(scope.row_sizes);
     PS_FREE(scope.col_sizes);
-    PS_FREE(scope.row_tags);
-    PS_FREE(scope.col_tags);
-    PS_FREE(scope.bounds);
     free_activities(scope.activities);
     free_locks(scope.locks);
     free_work(scope.work);
     free_state(scope.data);
-    free_constraints(scope.constraints);
-    free_objective(scope.obj);
     free_presolver(scope.presolver);
 }
 
@@ -296,13 +320,10 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
         ps_thread_join(&thread_id, NULL);
     }
 
-    if (!AT) goto cleanup;
-
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
@@ -318,21 +339,23 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
     if (!presolver || !obj) goto cleanup;
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
+    if (!presolver->prob) goto cleanup;
     presolver->stats = init_stats(A->m, A->n, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
     DEBUG(run_debugger(constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
-- 
2.43.0


From d01b68240296d174b35af30bf130da93fe04e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 06/25] fix: survive failing allocations in the workspace and
 in partly created vectors

---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Workspace.c                 | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..a420a48 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -25,7 +25,7 @@
 
 Work *new_work(size_t n_rows, size_t n_cols)
 {
-    Work *work = (Work *) ps_malloc(1, sizeof(Work));
+    Work *work = (Work *) ps_calloc(1, sizeof(Work));
     RETURN_PTR_IF_NULL(work, NULL);
 
     work->iwork_n_cols = (int *) ps_calloc(n_cols, sizeof(int));
@@ -35,9 +35,13 @@ Work *new_work(size_t n_rows, size_t n_cols)
     work->iwork2_max_nrows_ncols =
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
-    work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    work->mappings = (Mapping *) ps_calloc(1, sizeof(Mapping));
+
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +67,13 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
+
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+    }
+
     PS_FREE(work->mappings);
     PS_FREE(work);
 }
-- 
2.43.0


From 5b336156c1454e1d523b40f122b27d95618d4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 07/25] fix: check all allocations when creating the state and
 the postsolve log

---
 src/core/Postsolver.c | 7 ++-----
 src/core/State.c      | 7 ++++---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..ed615e4 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..3ef4339 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -48,7 +48,7 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
                  size_t n_cols, Activity *activities, Work *work,
                  const RowTag *row_tags)
 {
-    State *data = (State *) ps_malloc(1, sizeof(State));
+    State *data = (State *) ps_calloc(1, sizeof(State));
     RETURN_PTR_IF_NULL(data, NULL);
     data->col_locks = col_locks;
     data->row_sizes = row_sizes;
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
-- 
2.43.0


From edde7a20ed7064b4582e67a463d1d533e252de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 08/25] fix: size the initial lists so that creating a
 presolver cannot end the process

---
 src/core/State.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 3ef4339..7804de7 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -73,6 +73,26 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // --------------------------------------------------------------------------
+    // The lists must have room for everything that is recorded below, so that no
+    // list has to grow (and possibly fail to) when the presolver is created.
+    // --------------------------------------------------------------------------
+    size_t n_rows_of_size[3] = {0, 0, 0}, n_cols_of_size[2] = {0, 0};
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        if (row_sizes[i] <= 2) n_rows_of_size[row_sizes[i]]++;
+    }
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        if (col_sizes[i] <= 1) n_cols_of_size[col_sizes[i]]++;
+    }
+    len_empty_rows = MAX(len_empty_rows, n_rows_of_size[0]);
+    len_ston_rows = MAX(len_ston_rows, n_rows_of_size[1]);
+    len_dton_rows = MAX(len_dton_rows, n_rows_of_size[2]);
+    len_empty_cols = MAX(len_empty_cols, n_cols_of_size[0]);
+    len_ston_cols = MAX(len_ston_cols, n_cols_of_size[1]);
+    len_updated_act = MAX(len_updated_act, n_rows);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From a8cf36f855a9e4df16b2013363450d8dc590fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 09/25] fix: never continue with missing memory when handing
 out the reduced problem

---
 include/data_structures/Memory_wrapper.h | 19 +++++++++++++++++++
 src/core/Matrix.c                        |  6 +++---
 src/core/Presolver.c                     |  6 +++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/data_structures/Memory_wrapper.h b/include/data_structures/Memory_wrapper.h
index d6bc0a1..d82b6d4 100644
--- a/include/data_structures/Memory_wrapper.h
+++ b/include/data_structures/Memory_wrapper.h
@@ -44,6 +44,25 @@ static inline void *ps_realloc(void *p, size_t n, size_t size)
     return realloc(p, n * size);
 }
 
+// used where running out of memory cannot be reported to the caller
+static inline void *ps_calloc_or_exit(size_t n, size_t size)
+{
+    void *p = calloc(n, size);
+    if (p == NULL && n > 0)
+    {
+        fprintf(stderr, "Error: malloc failed\n");
+        exit(1);
+    }
+    return p;
+}
+
+// if the block cannot be shrunk we keep it as it is
+static inline void *ps_shrink(void *p, size_t n, size_t size)
+{
+    void *temp = realloc(p, n * size);
+    return (temp == NULL) ? p : temp;
+}
+
 #define RETURN_PTR_IF_NULL(ptr, ret_val)                                            \
     do                                                                              \
     {                                                                               \
diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 322d98d..6d0467d 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -239,9 +239,9 @@ void remove_extra_space(Matrix *A, const int *row_sizes, const int *col_sizes,
     A->p[A->m].end = curr;
 
     // shrink size
-    A->x = (double *) ps_realloc(A->x, (size_t) MAX(curr, 1), sizeof(double));
-    A->i = (int *) ps_realloc(A->i, (size_t) MAX(curr, 1), sizeof(int));
-    A->p = (RowRange *) ps_realloc(A->p, (size_t) (A->m + 1), sizeof(RowRange));
+    A->x = (double *) ps_shrink(A->x, (size_t) MAX(curr, 1), sizeof(double));
+    A->i = (int *) ps_shrink(A->i, (size_t) MAX(curr, 1), sizeof(int));
+    A->p = (RowRange *) ps_shrink(A->p, (size_t) (A->m + 1), sizeof(RowRange));
 
     // -------------------------------------------------------------------------
     //                      compute new column indices
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index ccb0323..b541d31 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -619,8 +619,8 @@ void populate_presolved_problem(Presolver *presolver)
     reduced_prob->obj_offset = presolver->prob->obj->offset;
 
     // create bounds arrays
-    reduced_prob->lbs = (double *) malloc(A->n * sizeof(double));
-    reduced_prob->ubs = (double *) malloc(A->n * sizeof(double));
+    reduced_prob->lbs = (double *) ps_calloc_or_exit(A->n, sizeof(double));
+    reduced_prob->ubs = (double *) ps_calloc_or_exit(A->n, sizeof(double));
     for (int i = 0; i < A->n; i++)
     {
         reduced_prob->lbs[i] = constraints->bounds[i].lb;
@@ -628,7 +628,7 @@ void populate_presolved_problem(Presolver *presolver)
     }
 
     // create row pointers
-    reduced_prob->Ap = (int *) malloc((A->m + 1) * sizeof(int));
+    reduced_prob->Ap = (int *) ps_calloc_or_exit(A->m + 1, sizeof(int));
     for (int i = 0; i < A->m + 1; i++)
     {
         reduced_prob->Ap[i] = A->p[i].start;
-- 
2.43.0


From f4d8a1a508678bd1f0c8e930f150ea42ed0ad03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 10/25] fix: do not count the cost of a fixed empty column
 twice

---
 src/explorers/SimpleReductions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..19174a1 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,6 +691,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
+            // empty columns are fixed by remove_empty_cols (fixing them here as
+            // well would count their objective contribution twice)
+            if (col_sizes[ii] == 0)
+            {
+                continue;
+            }
+
             // no need to check return value since bounds are equal
             fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
         }
-- 
2.43.0


From 31a21042b36382997510932650213a2abc0090a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 11/25] fix: report infeasibility found when transferring
 bounds in doubleton rows

---
 src/core/Presolver.c    |  2 ++
 src/explorers/DtonsEq.c | 36 +++++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index b541d31..3d5dd47 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -514,6 +514,8 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_INFEASIBLE(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..fd4f23d 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,10 +185,12 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the transferred bounds contradict the bounds of the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
@@ -198,18 +200,20 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK));
         }
     }
     else
@@ -217,20 +221,24 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK));
         }
     }
+
+    return UNCHANGED;
 }
 
 #ifndef TESTING
@@ -701,8 +709,9 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        RETURN_IF_INFEASIBLE(modify_bounds(constraints, i, aij, aik, *row.rhs,
+                                           bounds[k].lb, bounds[k].ub, j,
+                                           col_tags[k]));
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +760,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +777,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // the problem might have been reduced, but it does not seem infeasible
     return UNCHANGED;
 }
-- 
2.43.0


From fcdab7840833f329f3468c39a0a6c0cacbc8ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 12/25] fix: recompute both activities when both become finite

---
 src/core/Activity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..5114d10 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,19 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (both activities can become finite)
+    Altered_Activity altered = NO_RECOMPUTE;
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 51c1f3fc46e9e6e570bdda2f8d9074ba16c5e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 13/25] fix: split merged parallel columns with the bounds they
 had before merging

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..fef2fa3 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -52,6 +52,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     int ii, jj, j, k, len_j;
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    ColTag col_tag_j_old;
     const double *aj_vals;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                col_tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            col_tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From 084cac29f18b6e62bbd1fa35933e0e4216b5c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 14/25] fix: respect already fixed columns when retrieving a
 column fixed to infinity

---
 src/core/Postsolver.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index ed615e4..18d79de 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -681,13 +681,16 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, k, row;
+    size_t len_pos;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
     RowTag *row_tags = constraints->row_tags;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
     double side;
 
     int *rows = AT->i + AT->p[col].start;
@@ -703,12 +706,28 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
-        dVec_append(info->vals, side);
-        dVec_append_array(info->vals, A->x + A->p[row].start,
-                          (size_t) row_sizes[row]);
-        iVec_append(info->indices, row_sizes[row]);
-        iVec_append_array(info->indices, A->i + A->p[row].start,
-                          (size_t) row_sizes[row]);
+        len_pos = info->indices->len;
+        iVec_append(info->indices, 0);
+        dVec_append(info->vals, 0.0);
+
+        for (k = A->p[row].start; k < A->p[row].start + row_sizes[row]; ++k)
+        {
+            // columns that have been fixed but not yet been removed from the row
+            // are retrieved after this column, so their values are accounted for
+            // here (this does not apply to other columns fixed to infinity)
+            if (HAS_TAG(col_tags[A->i[k]], C_TAG_FIXED) &&
+                !IS_ABS_INF(bounds[A->i[k]].lb))
+            {
+                side -= A->x[k] * bounds[A->i[k]].lb;
+                continue;
+            }
+
+            iVec_append(info->indices, A->i[k]);
+            dVec_append(info->vals, A->x[k]);
+        }
+
+        info->indices->data[len_pos] = (int) (info->indices->len - len_pos - 1);
+        info->vals->data[len_pos] = side;
 
         assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
                  HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
-- 
2.43.0


From 1510d85bb6624736f4681734204729c00f73e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 15/25] fix: do not let rounding errors in cancelling costs
 decide about boundedness

---
 include/core/Numerics.h |  1 +
 include/core/Problem.h  |  5 +++++
 src/core/Problem.c      | 13 ++++++++++++-
 src/explorers/DtonsEq.c |  2 +-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/core/Numerics.h b/include/core/Numerics.h
index 215fcce..16acf4d 100644
--- a/include/core/Numerics.h
+++ b/include/core/Numerics.h
@@ -24,6 +24,7 @@
 #define FEAS_TOL 1e-6
 #define BOUND_MARGINAL 0.5 * FEAS_TOL
 #define ZERO_TOL 1e-10
+#define ZERO_TOL_COST 1e-13
 #define ZERO_TOL_DUAL_POSTSOLVE 1e-6
 #define HUGE_VAL_PS 1e7
 
diff --git a/include/core/Problem.h b/include/core/Problem.h
index ccc027e..bd9afd1 100644
--- a/include/core/Problem.h
+++ b/include/core/Problem.h
@@ -51,6 +51,11 @@ void free_objective(Objective *obj);
 /* Updates the offset when a variable is fixed */
 void fix_var_in_obj(Objective *obj, int col, double value);
 
+/* Subtracts 'change' from the cost of column 'col'. A cost that cancels up to
+   rounding errors becomes exactly zero, since its sign would otherwise be
+   arbitrary (and decide whether the problem is considered to be bounded). */
+void subtract_from_cost(Objective *obj, int col, double change);
+
 /* Substitutes variable 'k' from the objective using row 'i'
    (assumed to be an equality). Row 'i' is specified by
    (vals, cols, len, rhs) */
diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..4d05d33 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -92,6 +93,16 @@ void problem_clean(Problem *prob, bool remove_all)
     objective_shrink(prob->obj->c, maps->cols, n_cols_old);
 }
 
+void subtract_from_cost(Objective *obj, int col, double change)
+{
+    obj->c[col] -= change;
+
+    if (ABS(obj->c[col]) <= ZERO_TOL_COST * ABS(change))
+    {
+        obj->c[col] = 0.0;
+    }
+}
+
 void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len,
                     int k, double aik, double rhs)
 {
@@ -103,7 +114,7 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     double ratio = obj->c[k] / aik;
     for (int i = 0; i < len; ++i)
     {
-        obj->c[cols[i]] -= ratio * vals[i];
+        subtract_from_cost(obj, cols[i], ratio * vals[i]);
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index fd4f23d..fe9caf9 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -378,7 +378,7 @@ static inline
 static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
-    obj->c[stay] -= (aij / aik) * obj->c[subst];
+    subtract_from_cost(obj, stay, (aij / aik) * obj->c[subst]);
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From 5a8c49d830aa02eff16bb6a4eb99f15f96e90963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 16/25] fix: compare parallel rows up to the feasibility
 tolerance

---
 src/explorers/Parallel_rows.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 61dc0c0..6295d9a 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -443,12 +443,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         {
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 &&
+                  remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL) ||
+                 (ratio < 0 &&
+                  remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 &&
+                  remaining_row_new_rhs <= other_row_lhs_scaled - FEAS_TOL) ||
+                 (ratio < 0 &&
+                  remaining_row_new_rhs >= other_row_lhs_scaled + FEAS_TOL));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From 321ba33de19008f85df679b525efb06ec7791449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 17/25] fix: check an equality row against all parallel rows
 processed before it

---
 src/explorers/Parallel_rows.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 6295d9a..3fa0189 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -405,27 +405,37 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
 
         if (!is_remaining_row_eq && is_other_row_eq)
         {
-            // swap(remaining_row, other_row)
+            // the equality row becomes the remaining row. The other row is the old
+            // remaining row together with the sides it would have inherited from
+            // the rows that have already been processed.
             int temp = remaining_row_idx;
             remaining_row_idx = other_row_idx;
             other_row_idx = temp;
 
+            ratio = A->x[A->p[remaining_row_idx].start] / remaining_row_coeff;
+            other_row_rhs_scaled = remaining_row_new_rhs * ratio;
+            other_row_lhs_scaled = remaining_row_new_lhs * ratio;
+            is_rhs_inf_other_row = is_rhs_inf_remaining_row;
+            is_lhs_inf_other_row = is_lhs_inf_remaining_row;
+
             is_remaining_row_eq = true;
             is_other_row_eq = false;
             remaining_row_new_rhs = rhs[remaining_row_idx];
             remaining_row_new_lhs = lhs[remaining_row_idx];
             remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
         }
+        else
+        {
+            other_row_coeff = A->x[A->p[other_row_idx].start];
+            ratio = remaining_row_coeff / other_row_coeff;
+            other_row_rhs_scaled = rhs[other_row_idx] * ratio;
+            other_row_lhs_scaled = lhs[other_row_idx] * ratio;
+            is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
+            is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
+        }
 
         assert(!(is_other_row_eq && !is_remaining_row_eq));
 
-        other_row_coeff = A->x[A->p[other_row_idx].start];
-        ratio = remaining_row_coeff / other_row_coeff;
-        other_row_rhs_scaled = rhs[other_row_idx] * ratio;
-        other_row_lhs_scaled = lhs[other_row_idx] * ratio;
-        is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
-        is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
-
         // -----------------------------------------------------------------------
         // if both rows are equalities we check that they are consistent
         // -----------------------------------------------------------------------
-- 
2.43.0


From fa0fde835c003efc11205436b57992bc7c9ff29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 18/25] fix: attribute the dual of an implied bound to the row
 when an inequality becomes an equality

---
 src/explorers/StonCols.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..e9cdcb0 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -373,6 +373,25 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
                              &row->i, 1);
 }
 
+/* When an inequality row is turned into an equality because one bound of a column
+   singleton is implied by the row, the bound itself stays in the problem. If it turns
+   out to be active, its dual variable belongs to the row, since the sign of the row's
+   dual variable was deduced without the bound. */
+static void save_implied_bound(const RowView *row, const ColView *col, bool is_lower,
+                               PostsolveInfo *postsolve_info)
+{
+    if (HAS_TAG(*col->tag, is_lower ? C_TAG_LB_INF : C_TAG_UB_INF))
+    {
+        return;
+    }
+
+    save_retrieval_bound_change_no_row(
+        postsolve_info, col->k, is_lower ? *col->lb : *col->ub,
+        is_lower ? *col->ub : *col->lb, is_lower ? 0 : 1);
+    save_retrieval_bound_change_the_row(postsolve_info, row->i, row->cols, row->vals,
+                                        (size_t) *row->len, 1);
+}
+
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
@@ -498,6 +517,8 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_rhs_inf);
+        save_implied_bound(row, col, Aik < 0, postsolve_info);
+
         // update lhs = rhs
         *row->lhs = *row->rhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
@@ -524,6 +545,8 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_lhs_inf);
+        save_implied_bound(row, col, Aik > 0, postsolve_info);
+
         // update rhs = lhs
         *row->rhs = *row->lhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
-- 
2.43.0


From d30056aa192b14e216ed6b9c6942dfff7d703616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 19/25] fix: keep the reduced costs of merged parallel columns
 parallel

---
 src/core/Postsolver.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 18d79de..e066ff8 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -266,22 +266,9 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    // dual postsolve: the columns and their costs are parallel, and so are their
+    // reduced costs (which are zero unless both variables are at a bound)
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
-- 
2.43.0


From ef4e3df132c661eadfc2a23eb67e588b4a6ddc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 20/25] fix: ignore rows without finite sides when retrieving a
 column fixed to infinity

---
 src/core/Postsolver.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index e066ff8..0bec130 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -669,7 +669,7 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
 {
     assert(pos_inf == 1 || pos_inf == -1);
     int i, k, row;
-    size_t len_pos;
+    size_t len_pos, n_rows_pos;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
@@ -688,10 +688,20 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     iVec_append(info->indices, col);
     dVec_append(info->vals, (double) n_rows);
     dVec_append(info->vals, bound);
+    n_rows_pos = info->vals->len - 2;
 
     for (i = 0; i < n_rows; ++i)
     {
         row = rows[i];
+
+        // a row without finite sides does not restrict the column
+        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            info->vals->data[n_rows_pos] -= 1.0;
+            continue;
+        }
+
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
         len_pos = info->indices->len;
         iVec_append(info->indices, 0);
@@ -716,8 +726,6 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         info->indices->data[len_pos] = (int) (info->indices->len - len_pos - 1);
         info->vals->data[len_pos] = side;
 
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
         assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
-- 
2.43.0


From d7d7b519ea4feed5842f21c4278bb8bf53196cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 21/25] fix: do not remove another coefficient when a doubleton
 substitution yields a negligible one

---
 src/core/Matrix.c                |  8 ++------
 src/explorers/DtonsEq.c          | 19 ++++++++++++-------
 src/explorers/SimpleReductions.c | 12 ++++++++++--
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 6d0467d..78dba7f 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -487,13 +487,9 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero and the coefficient exists, we just have to shift
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index fe9caf9..4e025bd 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -324,16 +324,21 @@ static inline
     insertion -= (subst_idx < insertion);
 
     // -------------------------------------------------------------------
-    // if we get unexpected cancellation we should remove the coefficient,
-    // otherwise we insert it
+    // if we get unexpected cancellation we should remove the coefficient (if
+    // the row contains it), otherwise we insert it
     // -------------------------------------------------------------------
     if (ABS(new_val) <= ZERO_TOL)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        old_and_new_coeff.new_coeff_stay = 0.0;
+
+        if (insertion != end && A->i[insertion] == j)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 19174a1..cd8dc91 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -135,8 +135,16 @@ static inline PresolveStatus remove_stonrow(Problem *prob, int row)
     int *row_size = constrs->state->row_sizes + row;
     PostsolveInfo *postsolve_info = constrs->state->postsolve_info;
 
-    assert(!HAS_TAG(*row_tag, R_TAG_INACTIVE) &&
-           !HAS_TAG(col_tag, C_TAG_SUBSTITUTED));
+    assert(!HAS_TAG(*row_tag, R_TAG_INACTIVE));
+
+    // if the only coefficient of the row has vanished, the row is handled as an
+    // empty row
+    if (*row_size == 0)
+    {
+        return UNCHANGED;
+    }
+
+    assert(!HAS_TAG(col_tag, C_TAG_SUBSTITUTED));
 
     // if the same variable appears in two singleton rows and the first one
     // that is processed is an equality row, then the variable has been fixed
-- 
2.43.0


From fe1e9260a3c04b70a4308b4d23582b7cc98a781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 22/25] fix: remove rows without finite sides before presolving

---
 include/explorers/SimpleReductions.h |  7 +++++++
 src/core/Postsolver.c                | 14 +++-----------
 src/core/Presolver.c                 |  4 ++++
 src/explorers/SimpleReductions.c     | 20 ++++++++++++++++++++
 4 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/explorers/SimpleReductions.h b/include/explorers/SimpleReductions.h
index 3d7d8d7..8bab546 100644
--- a/include/explorers/SimpleReductions.h
+++ b/include/explorers/SimpleReductions.h
@@ -58,6 +58,13 @@ PresolveStatus remove_ston_rows(struct Problem *prob);
 */
 PresolveStatus remove_empty_rows(const struct Constraints *constraints);
 
+/* Removes rows without any finite side. Such a row does not restrict anything
+   (its dual value is zero), but several reductions assume that each row has
+   at least one finite side. Empty rows are left to remove_empty_rows. Columns
+   that become empty are appended to the list of empty columns.
+*/
+void remove_free_rows(struct Constraints *constraints);
+
 /* Sets small coefficients of A to zero according to the rules
    in "Presolve Reductions in Mixed Integer Programming Section 3.1".
 
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 0bec130..e066ff8 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -669,7 +669,7 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
 {
     assert(pos_inf == 1 || pos_inf == -1);
     int i, k, row;
-    size_t len_pos, n_rows_pos;
+    size_t len_pos;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
@@ -688,20 +688,10 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     iVec_append(info->indices, col);
     dVec_append(info->vals, (double) n_rows);
     dVec_append(info->vals, bound);
-    n_rows_pos = info->vals->len - 2;
 
     for (i = 0; i < n_rows; ++i)
     {
         row = rows[i];
-
-        // a row without finite sides does not restrict the column
-        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
-        {
-            info->vals->data[n_rows_pos] -= 1.0;
-            continue;
-        }
-
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
         len_pos = info->indices->len;
         iVec_append(info->indices, 0);
@@ -726,6 +716,8 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         info->indices->data[len_pos] = (int) (info->indices->len - len_pos - 1);
         info->vals->data[len_pos] = side;
 
+        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
         assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 3d5dd47..0bf6af0 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -705,6 +705,10 @@ PresolveStatus run_presolver(Presolver *presolver)
         print_start_message(stats);
     }
 
+    // the reductions assume that every row has at least one finite side
+    nnz_before_reduction = A->nnz;
+    remove_free_rows(prob->constraints);
+    stats->nnz_removed_trivial += nnz_before_reduction - A->nnz;
     DEBUG(run_debugger(prob->constraints, false));
 
     // ------------------------------------------------------------------------
diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index cd8dc91..c16f04b 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -512,6 +512,26 @@ PresolveStatus remove_empty_rows(const Constraints *constraints)
     return UNCHANGED;
 }
 
+void remove_free_rows(Constraints *constraints)
+{
+    const RowTag *row_tags = constraints->row_tags;
+    const int *row_sizes = constraints->state->row_sizes;
+
+    for (int row = 0; row < constraints->m; ++row)
+    {
+        // empty rows are removed by remove_empty_rows
+        if (row_sizes[row] >= 1 && HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            set_row_to_inactive(row, constraints->row_tags + row,
+                                constraints->state->rows_to_delete,
+                                constraints->state->postsolve_info, 0.0);
+        }
+    }
+
+    delete_inactive_rows(constraints);
+}
+
 PresolveStatus remove_empty_cols(Problem *prob)
 {
     iVec *empty_cols = prob->constraints->state->empty_cols;
-- 
2.43.0


From 1969fc4972280330163f5c4f2e0282db7b24f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 23/25] fix: declare problems with contradicting row sides
 infeasible

A row with lhs > rhs was handed on to the reductions, which assume lhs <= rhs.
For example an implied free column could absorb such a row, and an infeasible
problem was reduced to a solvable one.
---
 include/explorers/SimpleReductions.h |  5 +++++
 src/core/Presolver.c                 |  4 ++++
 src/explorers/SimpleReductions.c     | 18 ++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/include/explorers/SimpleReductions.h b/include/explorers/SimpleReductions.h
index 8bab546..e3036ce 100644
--- a/include/explorers/SimpleReductions.h
+++ b/include/explorers/SimpleReductions.h
@@ -65,6 +65,11 @@ PresolveStatus remove_empty_rows(const struct Constraints *constraints);
 */
 void remove_free_rows(struct Constraints *constraints);
 
+/* Returns INFEASIBLE if the sides of a row contradict each other. (Contradicting
+   bounds are detected by remove_variables_with_close_bounds.)
+*/
+PresolveStatus check_row_sides(const struct Constraints *constraints);
+
 /* Sets small coefficients of A to zero according to the rules
    in "Presolve Reductions in Mixed Integer Programming Section 3.1".
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 0bf6af0..35280c2 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -705,6 +705,10 @@ PresolveStatus run_presolver(Presolver *presolver)
         print_start_message(stats);
     }
 
+    // the reductions assume that the sides of every row are consistent
+    status = check_row_sides(prob->constraints);
+    terminate = (status != UNCHANGED);
+
     // the reductions assume that every row has at least one finite side
     nnz_before_reduction = A->nnz;
     remove_free_rows(prob->constraints);
diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index c16f04b..344caf6 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -532,6 +532,24 @@ void remove_free_rows(Constraints *constraints)
     delete_inactive_rows(constraints);
 }
 
+PresolveStatus check_row_sides(const Constraints *constraints)
+{
+    const RowTag *row_tags = constraints->row_tags;
+    const double *lhs = constraints->lhs;
+    const double *rhs = constraints->rhs;
+
+    for (int row = 0; row < constraints->m; ++row)
+    {
+        if (!HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)) &&
+            lhs[row] > rhs[row] + FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+    }
+
+    return UNCHANGED;
+}
+
 PresolveStatus remove_empty_cols(Problem *prob)
 {
     iVec *empty_cols = prob->constraints->state->empty_cols;
-- 
2.43.0


From 3eddc9375b33cc0878a4608443778f27180fd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 24/25] fix: compare the costs of parallel columns relative to
 their size

---
 src/explorers/Parallel_cols.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index fef2fa3..77fe00b 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -51,7 +51,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     // column j stays, column k goes
     int ii, jj, j, k, len_j;
     const int *aj_cols;
-    double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    double ratio, cj, ck, ak0, lb_j_old, ub_j_old, cost_tol;
     ColTag col_tag_j_old;
     const double *aj_vals;
 
@@ -84,10 +84,12 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
             ratio = ak0 / aj_vals[0];
             assert(ratio != 0);
 
-            // if column j and column k are parallel, remove column k
-            // if you run into issues with parallel cols activated, try to
-            // change this
-            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0))
+            // if column j and column k are parallel, remove column k (the costs are
+            // compared relative to their size since the columns can have
+            // coefficients of any size). If you run into issues with parallel cols
+            // activated, try to change this
+            cost_tol = ZERO_TOL * MAX(ABS(ck), ABS(ratio * cj));
+            if (ABS(ck - ratio * cj) <= MAX(cost_tol, ZERO_TOL_COST))
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0


From d842bb906c15fe9caba86e03945fd56d6b26df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 25/25] fix: compare small coefficients of parallel rows
 relative to their size

---
 src/explorers/Parallel_rows.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 3fa0189..1572ffd 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -283,6 +283,12 @@ static inline int find_parallel_rows_in_bin(const Matrix *A, const int *bin,
             {
                 break;
             }
+
+            // small coefficients must agree relative to their size
+            if (ABS(diff) > FEAS_TOL * ABS(vals1[j]))
+            {
+                break;
+            }
         }
 
         // if j == len2, we have found a parallel row
-- 
2.43.0

