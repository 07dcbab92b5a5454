From e1375c265fb28cce01065225ec3f8a13d83187fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 01/53] fix: coco_remove_directory must not follow symbolic
 links nor report success for a directory it could not look at

Entries that are symbolic links to directories were recursed into, which
deleted files outside of the tree. A failing stat() made the function return 0
with the directory still there (and leaked the DIR handle).
---
 src/coco_platform.h  |  3 +++
 src/coco_utilities.c | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/coco_platform.h b/src/coco_platform.h
index 3d3d5f6..8b83532 100644
--- a/src/coco_platform.h
+++ b/src/coco_platform.h
@@ -82,6 +82,9 @@ extern "C" {
 int rmdir(const char *pathname);
 int unlink(const char *file_name);
 int mkdir(const char *pathname, mode_t mode);
+#if defined(HAVE_STAT)
+int lstat(const char *pathname, struct stat *buf);
+#endif
 /** @endcond */
 #endif
 
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..d96b5e4 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -326,6 +326,18 @@ static void coco_create_unique_directory(char **path) {
   return; /* Never reached */
 }
 
+/**
+ * @brief Checks if the given path is a directory itself (and not a symbolic link to one).
+ */
+static int coco_is_directory_not_link(const char *path) {
+#if defined(HAVE_STAT)
+  struct stat buf;
+  return (!lstat(path, &buf) && S_ISDIR(buf.st_mode));
+#else
+  return coco_directory_exists(path);
+#endif
+}
+
 /**
  * The method should work across different platforms/compilers.
  *
@@ -389,8 +401,8 @@ int coco_remove_directory(const char *path) {
   char *buf;
 
   /* Nothing to do if the folder does not exist */
-  if (!coco_directory_exists(path))
-    return 0;
+  if (!d)
+    return (errno == ENOENT || errno == ENOTDIR) ? 0 : -1;
 
   if (d) {
     struct dirent *p;
@@ -406,11 +418,11 @@ int coco_remove_directory(const char *path) {
 
       buf = coco_strdupf("%s/%s", path, p->d_name);
       if (buf) {
-        if (coco_directory_exists(buf)) {
+        if (coco_is_directory_not_link(buf)) {
           /* Buf is a directory, recurse on it */
           r2 = coco_remove_directory(buf);
         } else {
-          /* Buf is a file, delete it */
+          /* Buf is a file or a link, delete it */
           r2 = unlink(buf);
         }
       }
-- 
2.43.0


From afe0b569785ef330d529be9783c37d00f2e65068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 02/53] fix: coco_suite_get_instance_from_instance_index must
 return the instance, not the function

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From 0afcd75c681fcc32add815bbc323ede2ce3dd1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 03/53] fix: coco_suite must release the suite when it returns
 NULL

---
 src/coco_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..abfe979 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -806,6 +806,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       while (*ptr != '\0') {
         if ((*ptr != ',') && !isdigit((unsigned char)*ptr)) {
           coco_warning("coco_suite(): 'dimensions' suite option ignored because of disallowed characters");
+          coco_free_memory(option_string);
+          coco_suite_free(suite);
           return NULL;
         } else
           ptr++;
@@ -854,6 +856,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
   if ((number_of_active_dimensions < 1) || (suite->number_of_dimensions < 1) || (suite->number_of_functions < 1) ||
       (suite->number_of_instances < 1)) {
     coco_warning("coco_suite(): the suite does not contain at least one dimension, function and instance");
+    coco_suite_free(suite);
     return NULL;
   }
 
-- 
2.43.0


From d9ac8e1542388a31ffa23cb1045a5d89d1f23fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 04/53] fix: coco_suite_get_problem must not return the first
 problem for an index beyond the suite

---
 src/coco_suite.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index abfe979..7c08672 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -461,6 +461,10 @@ coco_problem_t *coco_suite_get_problem(coco_suite_t *suite,
                                        const size_t problem_index) {
 
   size_t function_idx = 0, instance_idx = 0, dimension_idx = 0;
+  if (problem_index >= coco_suite_get_number_of_problems(suite)) {
+    coco_warning("coco_suite_get_problem(): problem_index too large");
+    return NULL;
+  }
   coco_suite_decode_problem_index(suite, problem_index, &function_idx,
                                   &dimension_idx, &instance_idx);
 
-- 
2.43.0


From 19109641424826eec2943e448ec76cdde0aa2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 05/53] fix: initialise last_logged_eval_dat and
 last_logged_eval_tdat of the bbob logger

When a problem was closed after recommendations only, the uninitialised values
decided whether a line with an uninitialised solution was appended to the files.
---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From 2cf7b64668e57a683ce49446487ac49c8eceecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 06/53] fix: coco_observer must return NULL for observer_name
 NULL as documented

---
 src/coco_observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..883bae6 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -593,7 +593,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
                               "log_discrete_as_int"};
   additional_option_keys = NULL; /* To be set by the chosen observer */
 
-  if (0 == strcmp(observer_name, "no_observer")) {
+  if ((observer_name == NULL) || (0 == strcmp(observer_name, "no_observer"))) {
     return NULL;
   } else if (strlen(observer_name) == 0) {
     coco_warning("coco_observer(): An empty observer_name has no effect. To "
-- 
2.43.0


From ecc44d2cb9c940e99ce7791c6320e7acebf59d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:17 +0000
Subject: [PATCH 07/53] fix: coco_double_to_int must round negative numbers to
 the nearest integer, too

Truncation turned e.g. -3.0 into -2, which then was logged with
log_discrete_as_int.
---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index d96b5e4..d6fcabf 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -990,7 +990,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From a74b482425257033fcffa511bb5a5f0070ef33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:17 +0000
Subject: [PATCH 08/53] fix: coco_problem_duplicate must not allocate
 nadir_value twice

coco_problem_allocate has allocated it already, so that each observed
bi-objective problem leaked the first one.
---
 src/coco_problem.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..bc71aaa 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,6 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From 45325132bc493b99106e94a1d4fb388aa210ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:17 +0000
Subject: [PATCH 09/53] fix: a problem must stay tainted when its observer is
 removed

---
 src/coco_observer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 883bae6..7b767ff 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -852,6 +852,8 @@ coco_problem_t *coco_problem_remove_observer(coco_problem_t *problem, coco_obser
 
   /* Keep the inner problem and remove the logger data */
   problem_unobserved = coco_problem_transformed_get_inner_problem(problem);
+  if (problem->is_tainted)
+    problem_unobserved->is_tainted = 1; /* The best parameter was retrieved while being observed */
   coco_problem_transformed_free_data(problem);
   problem = NULL;
 
-- 
2.43.0


From a02a94cc5ac19b354917b3da75d8c0c9d53b6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:17 +0000
Subject: [PATCH 10/53] fix: the bbob logger must log noise-free values for
 recommendations, too

The noisy value was logged and compared with the optimal value, where the
assertion could fail.
---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..d17ec16 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -490,6 +490,8 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   coco_evaluate_function(inner_problem, x, y);
 
   y_logged = y[0];
+  if (inner_problem->is_noisy == 1 && !coco_is_nan(y_logged) && !coco_is_inf(y_logged))
+    y_logged = inner_problem->last_noise_free_values[0];
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
   else if (coco_is_inf(y_logged))
-- 
2.43.0


From 7e6ed41db685e6845eb95138c9ba583f03f047f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 11/53] fix: a recommendation must not count as an evaluation
 of the observed problem

---
 src/logger_bbob.c  | 6 ++++++
 src/logger_biobj.c | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index d17ec16..3a9d8c8 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -487,7 +487,13 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
 
   /* Fulfill contract of a COCO evaluate function, but do not increase the evaluation counters */
   y = coco_allocate_vector(problem->number_of_objectives);
+  const size_t evaluations = inner_problem->evaluations;
+  const size_t best_observed_evaluation = inner_problem->best_observed_evaluation[0];
+  const double best_observed_fvalue = inner_problem->best_observed_fvalue[0];
   coco_evaluate_function(inner_problem, x, y);
+  inner_problem->evaluations = evaluations;
+  inner_problem->best_observed_evaluation[0] = best_observed_evaluation;
+  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;
 
   y_logged = y[0];
   if (inner_problem->is_noisy == 1 && !coco_is_nan(y_logged) && !coco_is_inf(y_logged))
diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..82ffa7e 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -812,9 +812,15 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
-  /* Evaluate the objectives */
+  /* Evaluate the objectives, but do not increase the evaluation counters */
   y = coco_allocate_vector(problem->number_of_objectives);
+  const size_t evaluations = inner_problem->evaluations;
+  const size_t best_observed_evaluation = inner_problem->best_observed_evaluation[0];
+  const double best_observed_fvalue = inner_problem->best_observed_fvalue[0];
   coco_evaluate_function(inner_problem, x, y);
+  inner_problem->evaluations = evaluations;
+  inner_problem->best_observed_evaluation[0] = best_observed_evaluation;
+  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;
 
   /* Evaluate the constraints */
   if (problem->number_of_constraints > 0) {
-- 
2.43.0


From e90554cc34fa2204c0d70890ee47f2bd6fe910f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 12/53] fix: recommending a solution must not access the
 bi-objective observer after it was freed

---
 src/logger_biobj.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 82ffa7e..11e8054 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -809,7 +809,8 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   double *constraints = NULL;
 
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
-  observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
+  /* The observer might not exist at this point */
+  observer_data = logger->observer != NULL ? (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data) : NULL;
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
   /* Evaluate the objectives, but do not increase the evaluation counters */
@@ -831,7 +832,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
 
   /* If this is the first call to the recommend function (on any problem), warn about the large 
   resulting files */
-  if (observer_data->large_mdat_file_warning == 0) {
+  if (observer_data != NULL && observer_data->large_mdat_file_warning == 0) {
     coco_warning("Using the logger_biobj_recommend function may result in the creation of large "
                  "mdat files since every recommended solution is logged");
     observer_data->large_mdat_file_warning = 1;
-- 
2.43.0


From ac1186caa68f00bab4f2c38d09768dd7e055dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 13/53] fix: the bbob logger must not access the suite after it
 was freed

---
 src/logger_bbob.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 3a9d8c8..edd58b6 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -611,6 +611,11 @@ static void logger_bbob_free(void *stuff) {
     logger->mdat_file = NULL;
   }
 
+  if (logger->suite_name != NULL) {
+    coco_free_memory(logger->suite_name);
+    logger->suite_name = NULL;
+  }
+
   if (logger->best_found_solution != NULL) {
     coco_free_memory(logger->best_found_solution);
     logger->best_found_solution = NULL;
@@ -695,7 +700,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data = (logger_bbob_data_t *)coco_allocate_memory(sizeof(*logger_data));
   logger_data->observer = observer;
-  logger_data->suite_name = coco_problem_get_suite(inner_problem)->suite_name;
+  /* A copy, because the suite may be freed before the files are opened */
+  logger_data->suite_name = coco_strdup(coco_problem_get_suite(inner_problem)->suite_name);
   logger_data->is_initialized = 0;
   logger_data->algorithm_restarted = 0;
 
-- 
2.43.0


From 0b334226d0f6886715c316522822d10a5844a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:03 +0000
Subject: [PATCH 14/53] fix: coco_join_path must take the components joined so
 far into account when checking the length

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index d6fcabf..6b3d5d8 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -101,11 +101,11 @@ static void coco_join_path(char *path, const size_t path_max_length, ...) {
   const size_t path_separator_length = strlen(coco_path_separator);
   va_list args;
   char *path_component;
-  size_t path_length = strlen(path);
 
   va_start(args, path_max_length);
   while (NULL != (path_component = va_arg(args, char *))) {
     size_t component_length = strlen(path_component);
+    size_t path_length = strlen(path);
     if (path_length + path_separator_length + component_length >= path_max_length) {
       coco_error("coco_join_path() failed because the ${path} is too short.");
       return; /* never reached */
-- 
2.43.0


From 2778f27455c7bcd8939f7cc86d61a276349e8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 15/53] fix: the bbob logger must not dereference an observer
 that was freed before the first evaluation

---
 src/logger_bbob.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index edd58b6..a11de6f 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -299,6 +299,9 @@ static void logger_bbob_initialize(logger_bbob_data_t *logger, int is_opt_known)
 
   coco_debug("Started logger_bbob_initialize()");
 
+  if (logger->observer == NULL)
+    coco_error("logger_bbob_initialize(): The observer must not be freed before the first evaluation");
+
   if (is_opt_known == 0)
     str_pointer = "Fref";
   else
-- 
2.43.0


From f91f4b4a5c1f16d384a6956001be21c6e6da56a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:05 +0000
Subject: [PATCH 16/53] fix: bbob logger records the current number of
 constraint evaluations with a recommendation

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index a11de6f..bd086e7 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -519,6 +519,8 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
     inner_problem->evaluate_constraint(inner_problem, x, constraints, 0);
   }
 
+  logger->num_cons_evaluations = problem->evaluations_constraints;
+
   /* Compute the sum of positive constraint values */
   double sum_constraints;
   sum_constraints = 0.0;
-- 
2.43.0


From aefb7dcb20a62e7dea0f70ead79ced7ec4f0d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:22 +0000
Subject: [PATCH 17/53] fix: an option string is not a format string (crash on
 '%', assertion on more than 220 characters)

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 6b3d5d8..b3fa75b 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -667,7 +667,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
-- 
2.43.0


From 43907e2f462d8c1ef66a043f6927a87a5008d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:07 +0000
Subject: [PATCH 18/53] fix: coco_vstrdupf must not overflow a buffer of fixed
 size (e.g. long paths in coco_remove_directory)

---
 src/coco_string.c | 48 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..0af8193 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -29,44 +29,28 @@ static char *coco_strdup(const char *string) {
   return duplicate;
 }
 
-/**
- * @brief The length of the buffer used in the coco_vstrdupf function.
- *
- * @note This should be handled differently!
- */
-#define COCO_VSTRDUPF_BUFLEN 444
-
 /**
  * @brief Formatted string duplication, with va_list arguments.
+ *
+ * The caller is responsible for freeing the allocated memory using coco_free_memory().
  */
 static char *coco_vstrdupf(const char *str, va_list args) {
-  static char buf[COCO_VSTRDUPF_BUFLEN];
-  long written;
-  /* apparently args can only be used once, therefore
-   * len = vsnprintf(NULL, 0, str, args) to find out the
-   * length does not work. Therefore we use a buffer
-   * which limits the max length. Longer strings should
-   * never appear anyway, so this is rather a non-issue. */
-
-#if 0
-  written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
-  if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
-  if (written > COCO_VSTRDUPF_BUFLEN - 3)
-    coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
-  return coco_strdup(buf);
+  char *duplicate;
+  va_list args_copy;
+  int len;
+
+  /* args can only be used once, so the length is determined with a copy */
+  va_copy(args_copy, args);
+  len = vsnprintf(NULL, 0, str, args_copy);
+  va_end(args_copy);
+  if (len < 0)
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+  duplicate = coco_allocate_string((size_t)len + 1);
+  if (vsnprintf(duplicate, (size_t)len + 1, str, args) != len)
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+  return duplicate;
 }
 
-#undef COCO_VSTRDUPF_BUFLEN
-
 /**
  * Optional arguments are used like in sprintf.
  */
-- 
2.43.0


From 344b1026cbf1e3ac566cd551ea52a0e43dfcb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:20 +0000
Subject: [PATCH 19/53] fix: a failed allocation of an archive node must raise
 an error instead of losing the solution

---
 src/mo_avl_tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mo_avl_tree.c b/src/mo_avl_tree.c
index a2188ba..5fa0193 100644
--- a/src/mo_avl_tree.c
+++ b/src/mo_avl_tree.c
@@ -431,10 +431,10 @@ static avl_tree_t *avl_tree_init(avl_tree_t *avltree, avl_compare_t cmp, avl_fre
 
 /* Allocates and initializes a new tree for elements that will be
  * ordered using the supplied strcmp()-like function.
- * Returns NULL if memory could not be allocated.
+ * Raises an error if memory could not be allocated.
  * O(1) */
 static avl_tree_t *avl_tree_construct(avl_compare_t cmp, avl_free_t free_item) {
-  return avl_tree_init((avl_tree_t *)malloc(sizeof(avl_tree_t)), cmp, free_item);
+  return avl_tree_init((avl_tree_t *)coco_allocate_memory(sizeof(avl_tree_t)), cmp, free_item);
 }
 
 /* Reinitializes the tree structure for reuse. Nothing is free()d.
@@ -541,7 +541,7 @@ static avl_node_t *avl_alloc(avl_tree_t *avltree, const void *item) {
       newnode = NULL;
     }
   } else {
-    newnode = (avl_node_t *)malloc(sizeof *newnode);
+    newnode = (avl_node_t *)coco_allocate_memory(sizeof *newnode);
   }
   return avl_node_init(newnode, item);
 }
-- 
2.43.0


From 02ce5c5ad99d2b4d37720595d947dfb4a968288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:20 +0000
Subject: [PATCH 20/53] fix: check the allocation of new bi-objective instances

---
 src/suite_biobj_ext.c       | 2 +-
 src/suite_biobj_utilities.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suite_biobj_ext.c b/src/suite_biobj_ext.c
index ac174e9..c760c7d 100644
--- a/src/suite_biobj_ext.c
+++ b/src/suite_biobj_ext.c
@@ -296,7 +296,7 @@ static coco_problem_t *suite_biobj_ext_get_problem(coco_suite_t *suite, const si
 
       data->new_instances = (size_t **)coco_allocate_memory(data->max_new_instances * sizeof(size_t *));
       for (i = 0; i < data->max_new_instances; i++) {
-        data->new_instances[i] = (size_t *)malloc(3 * sizeof(size_t));
+        data->new_instances[i] = (size_t *)coco_allocate_memory(3 * sizeof(size_t));
         for (j = 0; j < 3; j++) {
           data->new_instances[i][j] = 0;
         }
diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..1b10720 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -428,7 +428,7 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
       (*new_inst_data)->new_instances =
           (size_t **)coco_allocate_memory((*new_inst_data)->max_new_instances * sizeof(size_t *));
       for (i = 0; i < (*new_inst_data)->max_new_instances; i++) {
-        (*new_inst_data)->new_instances[i] = (size_t *)malloc(3 * sizeof(size_t));
+        (*new_inst_data)->new_instances[i] = (size_t *)coco_allocate_memory(3 * sizeof(size_t));
         for (j = 0; j < 3; j++) {
           (*new_inst_data)->new_instances[i][j] = 0;
         }
-- 
2.43.0


From b59f7393d30a0ccdb90821dabeb6958ba719ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:46 +0000
Subject: [PATCH 21/53] fix: ExperimentRepeater.trials must not create an entry
 for an instance without trials

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index cf1fed6..7c6cc55 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -787,7 +787,7 @@ class ExperimentRepeater:
         """
         dd = self.data(problem)  # dictionary of all data related to problem
         if instance is not None:
-            return len(dd[instance])
+            return len(dd.get(instance, ()))  # dd[instance] would create an entry
         return [len(dd[iinst]) for iinst in sorted(dd)]
     def successes(self, problem):
         """return `list` of successes per instance"""
-- 
2.43.0


From cef4b00dd93afd2a1e1c841c30a63aef727004c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:07 +0000
Subject: [PATCH 22/53] fix: evaluating a feasible point close to the optimum
 of a constrained problem must not abort due to rounding errors

---
 src/coco_problem.c               | 4 ++--
 src/logger_bbob.c                | 8 ++++++--
 src/transform_obj_scale.c        | 2 +-
 src/transform_obj_shift.c        | 2 +-
 src/transform_vars_affine.c      | 2 +-
 src/transform_vars_asymmetric.c  | 2 +-
 src/transform_vars_enforce_box.c | 2 +-
 src/transform_vars_oscillate.c   | 2 +-
 src/transform_vars_shift.c       | 2 +-
 9 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index bc71aaa..d19395f 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -900,14 +900,14 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     coco_evaluate_function(data->problem2, x, &y[number_of_objectives_problem1]);
 
   /* Make sure that no feasible point has a function value lower
-   * than the minimum's.
+   * than the minimum's, up to rounding errors.
    */
   if (problem->number_of_constraints > 0) {
     cons_values = coco_allocate_vector(problem->number_of_constraints);
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   }
 }
 
diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index bd086e7..152d71b 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -403,7 +403,9 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-13 >= logger->optimal_value ||
+           (problem->number_of_constraints > 0 &&
+            y_logged + 1e-10 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value));
   }
 
   /* Evaluate the constraints */
@@ -510,7 +512,9 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-13 >= logger->optimal_value ||
+           (problem->number_of_constraints > 0 &&
+            y_logged + 1e-10 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value));
   }
 
   /* Evaluate the constraints */
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index 9b76e76..f61d3f0 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,7 +40,7 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index d2c8e15..38d21fc 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,7 +40,7 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index c9b72c4..a9e9f8c 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,7 +57,7 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..ccf9d6c 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,7 +99,7 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 9768598..d52d473 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,7 +39,7 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
     }
   } else {
     assert(y[0] + 1e-13 >= problem->best_value[0]);
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 39f33ef..6254fce 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,7 +100,7 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..188eb7c 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,7 +45,7 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
-- 
2.43.0


From caf485bb9242ec7a2cf04bfd72df72875dc4a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:02 +0000
Subject: [PATCH 23/53] fix: release the table of new bi-objective instances
 (leak of one table per problem)

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 1b10720..1a72895 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      *new_inst_data = NULL;
     }
   }
 
-- 
2.43.0


From 381b412fba2158409ae22b9a807f5b8f1b0620f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:45 +0000
Subject: [PATCH 24/53] fix: new instances of bbob-biobj-mixint need the
 large-scale functions in dimensions above 50 (buffer overflow)

---
 src/suite_biobj_utilities.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 1a72895..d8af2b4 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -23,6 +23,9 @@ static const size_t suite_biobj_instances[][3] = {{1, 2, 4},    {2, 3, 5},    {3
                                                   {6, 13, 14},  {7, 15, 16},  {8, 17, 18},  {9, 19, 21},  {10, 21, 22},
                                                   {11, 23, 24}, {12, 25, 26}, {13, 27, 28}, {14, 29, 30}, {15, 31, 34}};
 
+static coco_problem_t *coco_get_largescale_problem(const size_t function, const size_t dimension,
+                                                   const size_t instance);
+
 /**
  * @brief A structure containing information about the new instances.
  */
@@ -71,9 +74,15 @@ static int suite_biobj_check_inst_consistency(const size_t dimension, size_t fun
   double norm;
   double *smallest_values_of_interest, *largest_values_of_interest;
   const double apart_enough = 1e-4;
+  const size_t dim_large_scale = 50; /* The bbob problems are not available in larger dimensions */
 
-  problem1 = coco_get_bbob_problem(function1, dimension, instance1);
-  problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  if (dimension < dim_large_scale) {
+    problem1 = coco_get_bbob_problem(function1, dimension, instance1);
+    problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  } else {
+    problem1 = coco_get_largescale_problem(function1, dimension, instance1);
+    problem2 = coco_get_largescale_problem(function2, dimension, instance2);
+  }
 
   /* Set smallest and largest values of interest to some value (not important which, it just needs to be a
    * vector of doubles of the right dimension) */
-- 
2.43.0


From 677d8148c23c8bdd207fba6a8b56eba560efd30a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 25/53] fix: Python: reading the counters or the initial
 solution of a free'd problem must raise an exception, not kill the
 interpreter

---
 build/python/src/cocoex/interface.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index f2adcbc..e0f7d7b 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -723,6 +723,8 @@ cdef class Problem:
     @property
     def initial_solution(self):
         """return feasible initial solution"""
+        if self.problem is NULL:
+            raise InvalidProblemException()
         coco_problem_get_initial_solution(self.problem,
                                           <double *>np.PyArray_DATA(self.x_initial))
         return np.array(self.x_initial, copy=True)
@@ -771,9 +773,13 @@ cdef class Problem:
         return self._upper_bounds
     @property
     def evaluations(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations(self.problem)
     @property
     def evaluations_constraints(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations_constraints(self.problem)
     @property
     def final_target_hit(self):
@@ -799,6 +805,8 @@ cdef class Problem:
         return self._largest_fvalues_of_interest
 
     def _best_parameter(self, what=None):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         if what == 'print':
             if self._number_of_objectives == 2:
                 bbob_biobj_problem_best_parameter_print(self.problem)
-- 
2.43.0


From 96d2e7224eebacf73a9e1ec209b70a87f1de3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 26/53] fix: Python: signalling a restart on a free'd problem
 must raise an exception, not kill the interpreter

---
 build/python/src/cocoex/interface.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index e0f7d7b..65bb22e 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -488,6 +488,8 @@ cdef class Observer:
     def signal_restart(self, problem: Problem):
         """Signal a restart on `problem: Problem` by calling `coco_observer_signal_restart`.
         """
+        if problem.problem is NULL:
+            raise InvalidProblemException()
         coco_observer_signal_restart(self._observer, problem.problem)
 
     @property
-- 
2.43.0


From 0537841365e32e213f9d4f9de31d911fd9c13cec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 27/53] fix: Python: Observer.free() must free the observer
 instead of raising AttributeError

---
 build/python/src/cocoex/interface.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 65bb22e..4a5a6aa 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -509,7 +509,8 @@ cdef class Observer:
         return coco_observer_get_result_folder(self._observer)
 
     def free(self):
-        self.__dealloc__()
+        if self._observer != NULL:  # __dealloc__ cannot be called here
+            coco_observer_free(self._observer)
         self._observer = NULL
         self._state = 'deactivated'
     def __dealloc__(self):
-- 
2.43.0


From 38cba519ece9859491a22c4853d5ce6de521507f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 28/53] fix: Python: BareProblem must raise
 NoSuchProblemException for unknown functions, not end the interpreter

---
 build/python/src/cocoex/bare_problem.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index dfeac09..6a11521 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -98,7 +98,8 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
-            self._problem = coco_get_bbob_problem(function, dimension, instance)
+            if 1 <= function <= 24:  # coco_get_bbob_problem exits otherwise
+                self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
                 raise NoSuchProblemException(suite_name, function)
-- 
2.43.0


From a365675958b3f747f0109d22df96d776a87b6638 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:49:13 +0000
Subject: [PATCH 29/53] fix: Python: BareProblem must not read beyond a
 solution of the wrong size

---
 build/python/src/cocoex/bare_problem.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 6a11521..7f50584 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -148,6 +148,8 @@ cdef class BareProblem:
         if x.ndim == 1:
             # Evaluate a single parameter
             xi = np.array(x, dtype=float)
+            if xi.shape[0] != self.dimension:
+                raise ValueError(f"Dimension {xi.shape[0]} of input does not match the problem dimension {self.dimension}")
             coco_evaluate_function(self._problem, &xi[0], &y)
             return y
         elif x.ndim == 2:
@@ -155,6 +157,8 @@ cdef class BareProblem:
             X = x
             N = X.shape[0]
             D = X.shape[1]
+            if D != self.dimension:
+                raise ValueError(f"Dimension {D} of input does not match the problem dimension {self.dimension}")
             Y = np.zeros(N, dtype=np.float64)
             y_view = Y
             for i in range(N):
-- 
2.43.0


From 454df413ff12baa6a66b37d091977346cf38aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:50:20 +0000
Subject: [PATCH 30/53] fix: Python: BareProblem must keep its suite name, not
 a pointer into a string that can be gone

---
 build/python/src/cocoex/bare_problem.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 7f50584..b06c432 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -58,7 +58,7 @@ cdef class BareProblem:
     """
 
     cdef coco_problem_t *_problem
-    cdef readonly char* suite_name
+    cdef readonly str suite_name
     cdef readonly char* id
     cdef readonly int function
     cdef readonly int dimension
-- 
2.43.0


From 2951f3f0d5c450675fc8dd9dce9ec525a2824d53 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 31/53] fix: Python: a problem that is garbage collected as
 part of a reference cycle must be free'd

---
 build/python/src/cocoex/interface.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 4a5a6aa..4c5cb0c 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -4,6 +4,7 @@
 import sys
 import numpy as np
 cimport numpy as np
+cimport cython
 
 from .exceptions import InvalidProblemException, NoSuchProblemException, NoSuchSuiteException
 
@@ -529,6 +530,7 @@ cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
     return res._initialize(problem, free)
 
 
+@cython.no_gc_clear  # __dealloc__ needs the attributes, and the observers must outlive the problem
 cdef class Problem:
     """see __init__.py"""
     cdef coco_problem_t* problem
-- 
2.43.0


From 246cde1107d4c341c88e5ddcdb45918c556a24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 32/53] fix: Python: observing a problem whose suite was free'd
 or garbage collected must not access freed memory

---
 build/python/src/cocoex/interface.pyx | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 4c5cb0c..9ef949d 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -98,9 +98,20 @@ cdef bytes _bstring(s):
 cdef coco_observer_t* _current_observer
 
 
+cdef class _SuiteHandle:
+    """owner of a C suite. The C problems of a suite refer to it, hence
+    also `Problem` instances keep it alive.
+    """
+    cdef coco_suite_t* suite
+    def __dealloc__(self):
+        if self.suite:
+            coco_suite_free(self.suite)
+
+
 cdef class Suite:
     """see __init__.py"""
     cdef coco_suite_t* suite  # AKA _self
+    cdef _SuiteHandle _suite_handle  # owns suite
     cdef coco_problem_t* _current_problem
     cdef bytes _name  # used in @property name
     cdef bytes _instance
@@ -167,6 +178,8 @@ cdef class Suite:
             self._number_of_objectives.append(coco_problem_get_number_of_objectives(p))
         coco_suite_free(suite)
         self.suite = coco_suite(self._name, self._instance, self._options)
+        self._suite_handle = _SuiteHandle()
+        self._suite_handle.suite = self.suite
         self.initialized = True
         return self
     def reset(self):
@@ -201,7 +214,7 @@ cdef class Suite:
             self._current_problem = coco_suite_get_problem(
                                         self.suite, index)
             self.current_problem_ = Problem_init(self._current_problem,
-                                                True, self._name)
+                                                True, self._name, self._suite_handle)
             self.current_problem_.observe_with(observer)
         return self.current_problem_
     def get_problem(self, id, observer=None):
@@ -244,7 +257,7 @@ cdef class Suite:
             index = self._ids.index(id)
         try:
             return Problem_init(coco_suite_get_problem(self.suite, self._indices[index]),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._suite_handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, str(id))
 
@@ -281,7 +294,7 @@ cdef class Suite:
         try:
             return Problem_init(coco_suite_get_problem_by_function_dimension_instance(self.suite, _function,
                                                                                       _dimension, _instance),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._suite_handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, 'function: {}, dimension: {}, instance: {}'.format(function,
                                                                                                        dimension,
@@ -293,14 +306,10 @@ cdef class Suite:
         return self.get_problem(key)
 
     def free(self):
-        """free underlying C structures"""
-        if self.suite:  # for some reason __dealloc__ cannot be called here
-            coco_suite_free(self.suite)
+        """free underlying C structures, as soon as no problem uses them"""
+        self._suite_handle = None
         self.suite = NULL
         self.initialized = False  # not (yet) visible from outside
-    def __dealloc__(self):
-        if self.suite:
-            coco_suite_free(self.suite)
 
     def find_problem_ids(self, *args, **kwargs):
         """has been renamed to `ids`"""
@@ -519,7 +528,7 @@ cdef class Observer:
             coco_observer_free(self._observer)
 
 
-cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
+cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None, suite_handle=None):
     """`Problem` class instance initialization wrapper passing
     a `problem_t*` C-variable to `__init__`.
 
@@ -527,6 +536,7 @@ cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
     """
     res = Problem()
     res._suite_name = suite_name
+    res._suite_handle = suite_handle
     return res._initialize(problem, free)
 
 
@@ -545,6 +555,7 @@ cdef class Problem:
     cdef size_t _number_of_constraints
     cdef size_t _number_of_integer_variables
     cdef _suite_name  # for the record
+    cdef _suite_handle  # keeps the C suite alive as long as the problem
     cdef _list_of_observers  # for the record
     cdef _problem_index  # for the record, this is not public but used in index property
     cdef _do_free
-- 
2.43.0


From 626dcbd71e18634ba2d81fc3e96a85bda09ca2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 33/53] fix: MATLAB: getters of 32-bit integers must not write
 64 bits (heap overflow)

---
 build/matlab/cocoCall.c | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 4d5fa78..35bccb3 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -204,7 +204,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -215,8 +215,8 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_final_target_hit(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_final_target_hit(problem);
 }
 
 void cocoProblemFree(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -240,7 +240,7 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -251,8 +251,8 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_dimension(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_dimension(problem);
 }
 
 void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -260,7 +260,7 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -271,8 +271,8 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations(problem);
 }
 
 void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -280,7 +280,7 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -291,8 +291,8 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations_constraints(problem);
 }
 
 void cocoProblemGetId(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -415,7 +415,7 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -426,8 +426,8 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_objectives(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_objectives(problem);
 }
 
 void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -435,7 +435,7 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -446,8 +446,8 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_constraints(problem);
 }
 
 void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -455,7 +455,7 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -466,8 +466,8 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_integer_variables(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_integer_variables(problem);
 }
 
 void cocoProblemGetSmallestValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From ef3036a32fc17357b3c02df0f675e7e79d70239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 34/53] fix: MATLAB: cocoProblemGetLargestFValuesOfInterest
 must raise an error for single-objective problems, not crash

---
 build/matlab/cocoCall.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 35bccb3..2464865 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -355,6 +355,9 @@ void cocoProblemGetLargestFValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
 
     nb_obj = coco_problem_get_number_of_objectives(problem);
+    if(nb_obj == 1) {
+        mexErrMsgIdAndTxt("cocoProblemGetLargestFValuesOfInterest:singleObjective","The problem has only one objective.");
+    }
     plhs[0] = mxCreateDoubleMatrix(1, nb_obj, mxREAL);
     v = mxGetPr(plhs[0]);
     /* call coco_problem_get_largest_fvalues_of_interest(...) */
-- 
2.43.0


From 968f4373b5d5556a3a89ac15397a83cc72b79a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 35/53] fix: Java: release the characters of the strings passed
 to native methods (leak)

---
 build/java/CocoJNI.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 37af937..9fb3e73 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -35,6 +35,7 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoSetLogLevel
 
   coco_set_log_level(log_level);
 
+  (*jenv)->ReleaseStringUTFChars(jenv, jlog_level, log_level);
   return;
 }
 
@@ -61,6 +62,8 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetObserver
 
   observer = coco_observer(observer_name, observer_options);
 
+  (*jenv)->ReleaseStringUTFChars(jenv, jobserver_name, observer_name);
+  (*jenv)->ReleaseStringUTFChars(jenv, jobserver_options, observer_options);
   return (jlong) observer;
 }
 
@@ -186,6 +189,9 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetSuite
 
   suite = coco_suite(suite_name, suite_instance, suite_options);
 
+  (*jenv)->ReleaseStringUTFChars(jenv, jsuite_name, suite_name);
+  (*jenv)->ReleaseStringUTFChars(jenv, jsuite_instance, suite_instance);
+  (*jenv)->ReleaseStringUTFChars(jenv, jsuite_options, suite_options);
   return (jlong) suite;
 }
 
-- 
2.43.0


From aa8c4853cc4a0350ab0b56ac857c53543d26d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 36/53] fix: Java: a null or wrong-sized point must raise an
 exception, not be read out of bounds

---
 build/java/CocoJNI.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 9fb3e73..13bb502 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -15,6 +15,23 @@
 #include "coco.c"
 #include "CocoJNI.h"
 
+/*
+ * Returns the elements of jx or, after raising a Java exception, NULL if jx is not a point of the problem's
+ * dimension or if its elements are not available.
+ */
+static double *get_point_elements(JNIEnv *jenv, const coco_problem_t *problem, jdoubleArray jx) {
+
+  jclass Exception;
+
+  if ((jx != NULL) && ((size_t) (*jenv)->GetArrayLength(jenv, jx) == coco_problem_get_dimension(problem)))
+    return (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+
+  Exception = (*jenv)->FindClass(jenv, "java/lang/IllegalArgumentException");
+  if (Exception != NULL)
+    (*jenv)->ThrowNew(jenv, Exception, "The point does not comply with the problem dimension\n");
+  return NULL;
+}
+
 /*
  * Class:     CocoJNI
  * Method:    cocoSetLogLevel
@@ -343,7 +360,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateFunction
   number_of_objectives = (int) coco_problem_get_number_of_objectives(problem);
 
   /* Call coco_evaluate_function */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_point_elements(jenv, problem, jx);
+  if (x == NULL)
+    return NULL;
   y = coco_allocate_vector(number_of_objectives);
   coco_evaluate_function(problem, x, y);
 
@@ -381,7 +400,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateConstraint
   number_of_constraints = (int) coco_problem_get_number_of_constraints(problem);
 
   /* Call coco_evaluate_constraint */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_point_elements(jenv, problem, jx);
+  if (x == NULL)
+    return NULL;
   y = coco_allocate_vector(number_of_constraints);
   coco_evaluate_constraint(problem, x, y);
 
@@ -415,7 +436,9 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoRecommendSolution
   problem = (coco_problem_t *) jproblem_pointer;
 
   /* Call coco_evaluate_constraint */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_point_elements(jenv, problem, jx);
+  if (x == NULL)
+    return;
   coco_recommend_solution(problem, x);
 
   /* Free resources */
-- 
2.43.0


From 37885aa3d43bcc21253df4976eaad21e940bb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:43 +0000
Subject: [PATCH 37/53] fix: Java: native methods must return when the virtual
 machine is out of memory, not use what it could not give

---
 build/java/CocoJNI.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 13bb502..fec8f80 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -50,6 +50,9 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoSetLogLevel
 
   log_level = (*jenv)->GetStringUTFChars(jenv, jlog_level, NULL);
 
+  if (log_level == NULL)
+    return;
+
   coco_set_log_level(log_level);
 
   (*jenv)->ReleaseStringUTFChars(jenv, jlog_level, log_level);
@@ -75,12 +78,16 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetObserver
   }
 
   observer_name = (*jenv)->GetStringUTFChars(jenv, jobserver_name, NULL);
+  if (observer_name == NULL)
+    return 0;
   observer_options = (*jenv)->GetStringUTFChars(jenv, jobserver_options, NULL);
 
-  observer = coco_observer(observer_name, observer_options);
+  if (observer_options != NULL) {
+    observer = coco_observer(observer_name, observer_options);
+    (*jenv)->ReleaseStringUTFChars(jenv, jobserver_options, observer_options);
+  }
 
   (*jenv)->ReleaseStringUTFChars(jenv, jobserver_name, observer_name);
-  (*jenv)->ReleaseStringUTFChars(jenv, jobserver_options, observer_options);
   return (jlong) observer;
 }
 
@@ -201,14 +208,20 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetSuite
   }
 
   suite_name = (*jenv)->GetStringUTFChars(jenv, jsuite_name, NULL);
+  if (suite_name == NULL)
+    return 0;
   suite_instance = (*jenv)->GetStringUTFChars(jenv, jsuite_instance, NULL);
-  suite_options = (*jenv)->GetStringUTFChars(jenv, jsuite_options, NULL);
 
-  suite = coco_suite(suite_name, suite_instance, suite_options);
+  if (suite_instance != NULL) {
+    suite_options = (*jenv)->GetStringUTFChars(jenv, jsuite_options, NULL);
+    if (suite_options != NULL) {
+      suite = coco_suite(suite_name, suite_instance, suite_options);
+      (*jenv)->ReleaseStringUTFChars(jenv, jsuite_options, suite_options);
+    }
+    (*jenv)->ReleaseStringUTFChars(jenv, jsuite_instance, suite_instance);
+  }
 
   (*jenv)->ReleaseStringUTFChars(jenv, jsuite_name, suite_name);
-  (*jenv)->ReleaseStringUTFChars(jenv, jsuite_instance, suite_instance);
-  (*jenv)->ReleaseStringUTFChars(jenv, jsuite_options, suite_options);
   return (jlong) suite;
 }
 
@@ -368,7 +381,8 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateFunction
 
   /* Prepare the return value */
   jy = (*jenv)->NewDoubleArray(jenv, number_of_objectives);
-  (*jenv)->SetDoubleArrayRegion(jenv, jy, 0, number_of_objectives, y);
+  if (jy != NULL)
+    (*jenv)->SetDoubleArrayRegion(jenv, jy, 0, number_of_objectives, y);
 
   /* Free resources */
   coco_free_memory(y);
@@ -408,7 +422,8 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateConstraint
 
   /* Prepare the return value */
   jy = (*jenv)->NewDoubleArray(jenv, number_of_constraints);
-  (*jenv)->SetDoubleArrayRegion(jenv, jy, 0, number_of_constraints, y);
+  if (jy != NULL)
+    (*jenv)->SetDoubleArrayRegion(jenv, jy, 0, number_of_constraints, y);
 
   /* Free resources */
   coco_free_memory(y);
@@ -538,7 +553,8 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoProblemGetSmallestValuesOfIntere
 
   /* Prepare the return value */
   jresult = (*jenv)->NewDoubleArray(jenv, dimension);
-  (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, dimension, result);
+  if (jresult != NULL)
+    (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, dimension, result);
   return jresult;
 }
 
@@ -567,7 +583,8 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoProblemGetLargestValuesOfInteres
 
   /* Prepare the return value */
   jresult = (*jenv)->NewDoubleArray(jenv, dimension);
-  (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, dimension, result);
+  if (jresult != NULL)
+    (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, dimension, result);
   return jresult;
 }
 
@@ -620,7 +637,8 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoProblemGetLargestFValuesOfIntere
 
   /* Prepare the return value */
   jresult = (*jenv)->NewDoubleArray(jenv, num_obj);
-  (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, num_obj, result);
+  if (jresult != NULL)
+    (*jenv)->SetDoubleArrayRegion(jenv, jresult, 0, num_obj, result);
   return jresult;
 }
 
-- 
2.43.0


From 113150393d093a4c6ff381843d19cf0735477d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 38/53] fix: splitting option strings in several threads at the
 same time damages the options

coco_string_split() used strtok(), whose state is shared by all threads of
a process. Suites that are created in different threads (the Rust interface
declares Suite as Send) got each other's options, read freed memory or failed
an assertion.
---
 src/coco_string.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 0af8193..6b9e23c 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -126,7 +126,7 @@ static char **coco_string_split(const char *string, const char delimiter) {
   char **result;
   char *str_copy, *ptr, *token;
   char str_delimiter[2];
-  size_t i;
+  size_t i, length;
   size_t count = 1;
 
   str_copy = coco_strdup(string);
@@ -145,17 +145,20 @@ static char **coco_string_split(const char *string, const char delimiter) {
   result = (char **)coco_allocate_memory(count * sizeof(char *));
 
   /* Iterates through tokens
-   * NOTE: strtok() ignores multiple delimiters, therefore the final number of detected substrings might be
-   * lower than the count. This is OK. */
+   * NOTE: multiple delimiters are ignored, therefore the final number of detected substrings might be
+   * lower than the count. This is OK. strtok() is not used because its state is shared by all threads. */
   i = 0;
-  /* A char* delimiter needs to be used, otherwise strtok() can surprise */
   str_delimiter[0] = delimiter;
   str_delimiter[1] = '\0';
-  token = strtok(str_copy, str_delimiter);
-  while (token) {
+  token = str_copy + strspn(str_copy, str_delimiter);
+  while (*token != '\0') {
     assert(i < count);
+    length = strcspn(token, str_delimiter);
+    ptr = token + length;
+    if (*ptr != '\0')
+      *ptr++ = '\0';
     *(result + i++) = coco_strdup(token);
-    token = strtok(NULL, str_delimiter);
+    token = ptr + strspn(ptr, str_delimiter);
   }
   *(result + i) = NULL;
 
-- 
2.43.0


From 09b57188870abe2b7815e1f26fc988c6beba7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 39/53] fix: creating problems in several threads at the same
 time gives wrong functions

The data by which the peaks of the Gallagher functions (and the variables of the
large-scale functions) are permuted was passed to the comparison function in a
global variable, so that problems created in different threads (the Rust
interface declares Suite as Send) were permuted by each other's data or read
freed memory. The sorting result is unchanged.
---
 src/transform_vars_permutation_helpers.c | 58 +++++++++++++++---------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/transform_vars_permutation_helpers.c b/src/transform_vars_permutation_helpers.c
index 0e86cd7..322015b 100644
--- a/src/transform_vars_permutation_helpers.c
+++ b/src/transform_vars_permutation_helpers.c
@@ -15,19 +15,47 @@
 
 /* TODO: Document this file in doxygen style! */
 
-static double *perm_random_data; /* global variable used to generate the random permutations */
+/**
+ * @brief A value and its position, used to sort positions by their values
+ */
+typedef struct {
+  double value;
+  size_t index;
+} perm_entry_t;
 
 /**
  * @brief Comparison function used for sorting. In our case, it serves as a random permutation generator
  */
-static int f_compare_doubles_for_random_permutation(const void *a, const void *b) {
-  double temp = perm_random_data[*(const size_t *)a] - perm_random_data[*(const size_t *)b];
+static int f_compare_entries_for_random_permutation(const void *a, const void *b) {
+  const perm_entry_t *first = (const perm_entry_t *)a;
+  const perm_entry_t *second = (const perm_entry_t *)b;
+  double temp = first->value - second->value;
   if (temp > 0)
     return 1;
   else if (temp < 0)
     return -1;
   else
-    return 0;
+    return (first->index > second->index) - (first->index < second->index);
+}
+
+/**
+ * @brief puts the positions of the values, sorted by value, in P
+ *
+ * The values go with the positions, because a global variable would be shared by all threads.
+ */
+static void coco_sort_positions_by_value(size_t *P, const double *values, size_t n) {
+  size_t i;
+  perm_entry_t *entries = (perm_entry_t *)coco_allocate_memory(n * sizeof(perm_entry_t));
+
+  for (i = 0; i < n; i++) {
+    entries[i].value = values[i];
+    entries[i].index = i;
+  }
+  qsort(entries, n, sizeof(perm_entry_t), f_compare_entries_for_random_permutation);
+  for (i = 0; i < n; i++) {
+    P[i] = entries[i].index;
+  }
+  coco_free_memory(entries);
 }
 
 /**
@@ -35,14 +63,10 @@ static int f_compare_doubles_for_random_permutation(const void *a, const void *b
  * Wassim: move to coco_utilities?
  */
 static void coco_compute_random_permutation(size_t *P, long seed, size_t n) {
-  size_t i;
+  double *perm_random_data = coco_allocate_vector(n);
 
-  perm_random_data = coco_allocate_vector(n);
   bbob2009_gauss(perm_random_data, n, seed);
-  for (i = 0; i < n; i++) {
-    P[i] = i;
-  }
-  qsort(P, n, sizeof(size_t), f_compare_doubles_for_random_permutation);
+  coco_sort_positions_by_value(P, perm_random_data, n);
   coco_free_memory(perm_random_data);
 }
 
@@ -50,15 +74,7 @@ static void coco_compute_random_permutation(size_t *P, long seed, size_t n) {
  * @brief generates a permutation by sorting a sequence and puts it in P
  */
 static void coco_compute_permutation_from_sequence(size_t *P, double *seq, size_t length) {
-  size_t i;
-
-  perm_random_data = coco_allocate_vector(length);
-  for (i = 0; i < length; i++) {
-    P[i] = i;
-    perm_random_data[i] = seq[i];
-  }
-  qsort(P, length, sizeof(size_t), f_compare_doubles_for_random_permutation);
-  coco_free_memory(perm_random_data);
+  coco_sort_positions_by_value(P, seq, length);
 }
 
 /**
@@ -88,6 +104,7 @@ static void coco_compute_truncated_uniform_swap_permutation(size_t *P, long seed
   size_t i, idx_swap;
   size_t lower_bound, upper_bound, first_swap_var, second_swap_var, tmp;
   size_t *idx_order;
+  double *perm_random_data;
 
   if (n <= 40) {
     /* Do an identity permutation for dimensions <= 40 */
@@ -102,13 +119,12 @@ static void coco_compute_truncated_uniform_swap_permutation(size_t *P, long seed
   idx_order = coco_allocate_vector_size_t(n);
   for (i = 0; i < n; i++) {
     P[i] = i;
-    idx_order[i] = i;
   }
 
   if (swap_range > 0) {
     /*sort the random data in perm_random_data and arrange idx_order accordingly*/
     /*did not use coco_compute_random_permutation to only use the seed once*/
-    qsort(idx_order, n, sizeof(size_t), f_compare_doubles_for_random_permutation);
+    coco_sort_positions_by_value(idx_order, perm_random_data, n);
     for (idx_swap = 0; idx_swap < nb_swaps; idx_swap++) {
       first_swap_var = idx_order[idx_swap];
       if (first_swap_var < swap_range) {
-- 
2.43.0


From c16d2031f4c492d3886956c991342e20f0a66425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:11 +0000
Subject: [PATCH 40/53] fix: the SBOX-COST suite cannot be created in Rust (the
 library calls it "bbob-boxed")

---
 build/rust/src/suite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/suite.rs b/build/rust/src/suite.rs
index f3178ea..9f29ab4 100644
--- a/build/rust/src/suite.rs
+++ b/build/rust/src/suite.rs
@@ -54,7 +54,7 @@ impl Name {
             Name::BbobConstrained => "bbob-constrained",
             Name::BbobMixint => "bbob-mixint",
             Name::BbobBiobjMixint => "bbob-biobj-mixint",
-            Name::SboxCost => "sbox-cost",
+            Name::SboxCost => "bbob-boxed",
             Name::Toy => "toy",
         }
     }
-- 
2.43.0


From 9cfcfdebc5c926539f96d82f228607fab51a42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:37 +0000
Subject: [PATCH 41/53] fix: signalling a restart for a problem that is not
 observed writes into foreign memory

---
 src/coco_observer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 7b767ff..efe7ac8 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -890,12 +890,24 @@ const char *coco_observer_get_result_folder(const coco_observer_t *observer) {
  */
 void coco_observer_signal_restart(coco_observer_t *observer, coco_problem_t *problem) {
 
+  size_t length;
+
   if ((observer == NULL) || (observer->is_active == 0)) {
     coco_warning("coco_observer_signal_restart(): The problem is not being observed. %s",
                  observer == NULL ? "(observer == NULL)" : "(observer not active)");
     return;
   }
 
+  /* As in coco_problem_remove_observer(): the name of an observed problem is
+   * formatted as "observer_name(problem_name)" */
+  length = strlen(observer->observer_name);
+  if ((strncmp(problem->problem_name, observer->observer_name, length) != 0) ||
+      (problem->problem_name[length] != '(')) {
+    coco_warning("coco_observer_signal_restart(): The problem is not being observed by observer %s",
+                 observer->observer_name);
+    return;
+  }
+
   if (observer->restart_function == NULL)
     coco_info("coco_observer_signal_restart(): Restart signaling not supported "
               "for observer %s",
-- 
2.43.0


From af862aa4c6dbd382fe9c83927a368671bdbddeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 42/53] fix: changing the bounds or the observers that a
 Problem returned changes the Problem

---
 build/python/src/cocoex/interface.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 9ef949d..3092fdc 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -747,7 +747,7 @@ cdef class Problem:
     @property
     def observers(self):
         """list of observers wrapped around this problem"""
-        return self._list_of_observers
+        return list(self._list_of_observers)
     @property
     def is_observed(self):
         """problem ``p`` is observed ``p.is_observed`` times.
@@ -781,12 +781,12 @@ cdef class Problem:
     def lower_bounds(self):
         """depending on the test bed, these are not necessarily strict bounds
         """
-        return self._lower_bounds
+        return np.array(self._lower_bounds, copy=True)
     @property
     def upper_bounds(self):
         """depending on the test bed, these are not necessarily strict bounds
         """
-        return self._upper_bounds
+        return np.array(self._upper_bounds, copy=True)
     @property
     def evaluations(self):
         if self.problem is NULL:
-- 
2.43.0


From 075704a5115693a89b69bf93b0881ce74ffcedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 43/53] fix: a bbob problem of more than 44 variables overflows
 the stack

bbob2009_gauss and bbob2009_compute_rotation used fixed arrays guarded only by
assertions (absent from release builds); coco_get_bbob_problem takes any dimension.
---
 src/suite_bbob_legacy_code.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/suite_bbob_legacy_code.c b/src/suite_bbob_legacy_code.c
index a10aeb8..f036749 100644
--- a/src/suite_bbob_legacy_code.c
+++ b/src/suite_bbob_legacy_code.c
@@ -109,8 +109,7 @@ static double **bbob2009_reshape(double **B, double *vector, const size_t m, con
  */
 static void bbob2009_gauss(double *g, const size_t N, const long seed) {
   size_t i;
-  double uniftmp[6000];
-  assert(2 * N < 6000);
+  double *uniftmp = coco_allocate_vector(2 * N);
   bbob2009_unif(uniftmp, 2 * N, seed);
 
   for (i = 0; i < N; i++) {
@@ -118,6 +117,7 @@ static void bbob2009_gauss(double *g, const size_t N, const long seed) {
     if (g[i] == 0.)
       g[i] = 1e-99;
   }
+  coco_free_memory(uniftmp);
   return;
 }
 
@@ -125,15 +125,13 @@ static void bbob2009_gauss(double *g, const size_t N, const long seed) {
  * @brief Computes a DIM by DIM rotation matrix based on seed and stores it in B.
  */
 static void bbob2009_compute_rotation(double **B, const long seed, const size_t DIM) {
-  /* To ensure temporary data fits into gvec */
   double prod;
-  double gvect[2000];
+  double *gvect = coco_allocate_vector(DIM * DIM);
   size_t i, j, k; /* Loop over pairs of column vectors. */
 
-  assert(DIM * DIM < 2000);
-
   bbob2009_gauss(gvect, DIM * DIM, seed);
   bbob2009_reshape(B, gvect, DIM, DIM);
+  coco_free_memory(gvect);
   /*1st coordinate is row, 2nd is column.*/
 
   for (i = 0; i < DIM; i++) {
-- 
2.43.0


From a0b32cebd3b846827686aa14609a3860a8930c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 44/53] fix: BareProblem with dimension 0 ends the interpreter

---
 build/python/src/cocoex/bare_problem.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index b06c432..db6b220 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -98,7 +98,7 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
-            if 1 <= function <= 24:  # coco_get_bbob_problem exits otherwise
+            if 1 <= function <= 24 and dimension > 0:  # coco_get_bbob_problem exits otherwise
                 self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
-- 
2.43.0


From 0225f85fa1e5c003a944feeba9b48ec4b4c78630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 45/53] fix: long option values overflow buffers of fixed size

A list of more than 999 characters in 'instances' (or other values of more than COCO_PATH_MAX
characters) was written beyond the end of the buffer it was read into.
---
 src/coco_observer.c  | 12 ++++++------
 src/coco_suite.c     | 10 +++++-----
 src/coco_utilities.c |  8 ++++++++
 src/observer_bbob.c  |  2 +-
 src/observer_biobj.c |  4 +++-
 src/observer_rw.c    |  4 +++-
 src/observer_toy.c   |  2 +-
 7 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index efe7ac8..d0ce4f0 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -601,10 +601,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     return NULL;
   }
 
-  outer_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  result_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_name = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_info = coco_allocate_string(5 * COCO_PATH_MAX);
+  outer_folder = coco_options_allocate_value(observer_options);
+  result_folder = coco_options_allocate_value(observer_options);
+  algorithm_name = coco_options_allocate_value(observer_options);
+  algorithm_info = coco_options_allocate_value(observer_options);
 
   if (coco_options_read_string(observer_options, "outer_folder", outer_folder) == 0) {
     strcpy(outer_folder, "exdata");
@@ -614,7 +614,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   /* Create the result_folder inside the outer folder */
-  path = coco_allocate_string(COCO_PATH_MAX + 1);
+  path = coco_options_allocate_value(observer_options);
   memcpy(path, outer_folder, strlen(outer_folder) + 1);
   coco_join_path(path, COCO_PATH_MAX, result_folder, NULL);
   coco_create_unique_directory(&path);
@@ -670,7 +670,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     }
   }
 
-  base_evaluation_triggers = coco_allocate_string(COCO_PATH_MAX + 1);
+  base_evaluation_triggers = coco_options_allocate_value(observer_options);
   if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers) == 0) {
     strcpy(base_evaluation_triggers, "1,2,5");
   }
diff --git a/src/coco_suite.c b/src/coco_suite.c
index 7c08672..3008808 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -536,7 +536,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_options_allocate_value(suite_instance);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -750,7 +750,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_options_allocate_value(suite_options);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -762,7 +762,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_options_allocate_value(suite_options);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -788,7 +788,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_options_allocate_value(suite_options);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -802,7 +802,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_options_allocate_value(suite_options);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index b3fa75b..274ea54 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -757,6 +757,14 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
   return string;
 }
 
+/**
+ * @brief Allocates a string that can hold any path and any value that can be read from the given options.
+ */
+static char *coco_options_allocate_value(const char *options) {
+  const size_t length = options ? strlen(options) : 0;
+  return coco_allocate_string((length > COCO_PATH_MAX ? length : COCO_PATH_MAX) + 1);
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 7cbcffd..37ccb8b 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -78,7 +78,7 @@ static void observer_bbob(coco_observer_t *observer, const char *options, coco_o
 
   observer_data = (observer_bbob_data_t *)coco_allocate_memory(sizeof(*observer_data));
   observer_data->observed_problem = NULL;
-  observer_data->prefix = coco_allocate_string(COCO_PATH_MAX + 1);
+  observer_data->prefix = coco_options_allocate_value(options);
 
   observer_data->last_function = 0;
   observer_data->last_dimension = 0;
diff --git a/src/observer_biobj.c b/src/observer_biobj.c
index b0fe9a8..8f53277 100644
--- a/src/observer_biobj.c
+++ b/src/observer_biobj.c
@@ -91,7 +91,7 @@ static void observer_biobj_data_free(void *stuff) {
 static void observer_biobj(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_biobj_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value;
 
   /* Sets the valid keys for bbob-biobj observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -100,6 +100,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
 
   observer_data = (observer_biobj_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
+  string_value = coco_options_allocate_value(options);
   observer_data->log_nondom_mode = LOG_NONDOM_ALL;
   if (coco_options_read_string(options, "log_nondominated", string_value) > 0) {
     if (strcmp(string_value, "none") == 0)
@@ -121,6 +122,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_vars_mode = LOG_VARS_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_int(options, "compute_indicators", &(observer_data->compute_indicators)) == 0)
     observer_data->compute_indicators = 1;
diff --git a/src/observer_rw.c b/src/observer_rw.c
index 537bc1e..6e95d40 100644
--- a/src/observer_rw.c
+++ b/src/observer_rw.c
@@ -57,7 +57,7 @@ static void logger_rw_free(void *logger);
 static void observer_rw(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_rw_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value;
 
   /* Sets the valid keys for rw observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -67,6 +67,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
 
   observer_data = (observer_rw_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
+  string_value = coco_options_allocate_value(options);
   observer_data->log_vars_mode = LOG_ALWAYS;
   if (coco_options_read_string(options, "log_variables", string_value) > 0) {
     if (strcmp(string_value, "none") == 0)
@@ -86,6 +87,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_cons_mode = LOG_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_size_t(options, "low_dim_vars", &(observer_data->low_dim_vars)) == 0)
     observer_data->low_dim_vars = 10;
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 0627455..8d63089 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -52,7 +52,7 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
   observer_data = (observer_toy_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
   /* Read file_name and number_of_targets from the options and use them to initialize the observer */
-  string_value = coco_allocate_string(COCO_PATH_MAX + 1);
+  string_value = coco_options_allocate_value(options);
   if (coco_options_read_string(options, "file_name", string_value) == 0) {
     strcpy(string_value, "first_hitting_times.dat");
   }
-- 
2.43.0


From 71a1e5da870a90a4b1af82419392ed5d51197bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 46/53] fix: an option without a value must be ignored, not
 read from uninitialised memory

For 'result_folder:' at the end of the options sscanf returns EOF, which was taken for success.
---
 src/coco_utilities.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 274ea54..6189ddb 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -777,6 +777,7 @@ static char *coco_options_allocate_value(const char *options) {
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
   long i1, i2;
+  int result;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -794,7 +795,8 @@ static int coco_options_read(const char *options, const char *name, const char *
     return 0;
   }
 
-  return sscanf(&options[i2], format, pointer);
+  result = sscanf(&options[i2], format, pointer);
+  return (result == EOF) ? 0 : result; /* EOF: there is no value */
 }
 
 /**
@@ -849,6 +851,7 @@ static int coco_options_read_double(const char *options, const char *name, doubl
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
   long i1, i2;
+  int result;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -868,9 +871,10 @@ static int coco_options_read_string(const char *options, const char *name, char
 
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
+    result = sscanf(&options[i2], "\"%[^\"]\"", pointer);
   } else
-    return sscanf(&options[i2], "%s", pointer);
+    result = sscanf(&options[i2], "%s", pointer);
+  return (result == EOF) ? 0 : result; /* EOF: there is no value */
 }
 
 /**
-- 
2.43.0


From 182f8c33ca6ac15ca7513bc46b65b74e0e130d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 47/53] fix: the second of two contradicting suite options must
 be ignored also if the first one starts the string

Otherwise 'year: 2009 instances: 3' meant instance 3 (and leaked memory) and ' year: 2009 instances: 3' the
instances of 2009; 'dimensions' and 'dimension_indices' were combined or not in the same way.
---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 3008808..d2bfe8d 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -514,7 +514,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -777,7 +777,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From 971095206bb0f83cfdf0557464ba3872ff8f9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 48/53] fix: the name of an option inside of a value must not
 be taken for that option

'result_folder: log_time_test precision_x: 3' set log_time to 3, and an algorithm_info in quotation
marks that contained 'precision_x: 3' changed the precision.
---
 src/coco_suite.c     |  8 +++---
 src/coco_utilities.c | 62 +++++++++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index d2bfe8d..567da8c 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -508,8 +508,8 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if (suite_instance == NULL)
     return NULL;
 
-  year_found = coco_strfind(suite_instance, "year");
-  instances_found = coco_strfind(suite_instance, "instances");
+  year_found = coco_options_find_value(suite_instance, "year");
+  instances_found = coco_options_find_value(suite_instance, "instances");
 
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
@@ -774,8 +774,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    dim_found = coco_strfind(suite_options, "dimensions");
-    dim_idx_found = coco_strfind(suite_options, "dimension_indices");
+    dim_found = coco_options_find_value(suite_options, "dimensions");
+    dim_idx_found = coco_options_find_value(suite_options, "dimension_indices");
 
     if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 6189ddb..a1c1f9c 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -765,6 +765,35 @@ static char *coco_options_allocate_value(const char *options) {
   return coco_allocate_string((length > COCO_PATH_MAX ? length : COCO_PATH_MAX) + 1);
 }
 
+/**
+ * @brief Returns the position of the value of the option with the given name and -1 if there is no such option.
+ *
+ * The name has to be a word of its own outside of quotation marks that is followed by a colon (so that names of
+ * options can be part of values).
+ */
+static long coco_options_find_value(const char *options, const char *name) {
+  const size_t length = strlen(name);
+  int is_quoted = 0, is_word_start = 1;
+  size_t i, j;
+
+  if (!options)
+    return -1;
+
+  for (i = 0; options[i] != '\0'; i++) {
+    if (options[i] == '\"')
+      is_quoted = !is_quoted;
+    else if (!is_quoted && is_word_start && (strncmp(&options[i], name, length) == 0)) {
+      j = i + length;
+      while (isspace((unsigned char)options[j]))
+        j++;
+      if (options[j] == ':')
+        return (long)(j + 1);
+    }
+    is_word_start = isspace((unsigned char)options[i]) || (options[i] == ',') || (options[i] == '\"');
+  }
+  return -1;
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
@@ -776,25 +805,20 @@ static char *coco_options_allocate_value(const char *options) {
  */
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
-  long i1, i2;
+  long i2;
   int result;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find_value(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
 
   /* Remove trailing whitespaces */
   while (isspace((unsigned char)options[i2]))
     i2++;
 
-  if (i2 <= i1) {
-    return 0;
-  }
-
   result = sscanf(&options[i2], format, pointer);
   return (result == EOF) ? 0 : result; /* EOF: there is no value */
 }
@@ -850,25 +874,20 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  */
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2;
   int result;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find_value(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
 
   /* Remove trailing white spaces */
   while (isspace((unsigned char)options[i2]))
     i2++;
 
-  if (i2 <= i1) {
-    return 0;
-  }
-
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
     result = sscanf(&options[i2], "\"%[^\"]\"", pointer);
@@ -891,20 +910,15 @@ static int coco_options_read_string(const char *options, const char *name, char
  */
 static int coco_options_read_values(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2;
   int i;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
-    return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  if (i2 <= i1) {
+  i2 = coco_options_find_value(options, name);
+  if (i2 < 0)
     return 0;
-  }
 
   i = 0;
   while (!isalpha((unsigned char)options[i2 + i]) && (options[i2 + i] != '\0')) {
-- 
2.43.0


From f5060ea5e188b91e08405b87abca6b88b5ff0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:58 +0000
Subject: [PATCH 49/53] fix: a negative number_target_triggers must be ignored

The condition compared an unsigned number with 0, and negative numbers logged other targets.
---
 src/coco_observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index d0ce4f0..47711d2 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -632,7 +632,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   number_target_triggers = 100;
   if (coco_options_read_size_t(observer_options, "number_target_triggers", &number_target_triggers) != 0) {
-    if (number_target_triggers < 0) {
+    if ((long)number_target_triggers < 0) {
       coco_warning("coco_observer(): Unsuitable observer option value "
                    "(number_target_triggers: %lu) ignored",
                    number_target_triggers);
-- 
2.43.0


From 3ea170e0a19c2f29de5c46ae6c0dafad7df96abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:58 +0000
Subject: [PATCH 50/53] fix: options that consist of quotation marks only must
 not crash

---
 src/coco_utilities.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index a1c1f9c..b9b71f4 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -687,6 +687,9 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   }
   coco_free_memory(keys);
 
+  if (cleaned_option_string == NULL)
+    return NULL; /* There are only quotation marks */
+
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
 
-- 
2.43.0


From f4183e7803950bc2399e5b06f8d0eee593159ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 51/53] fix: printing the optimum of a bi-objective problem
 observed by an rw or toy observer read foreign memory

---
 src/coco_problem.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index d19395f..ca0abee 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -671,7 +671,7 @@ void bbob_problem_best_parameter_print(const coco_problem_t *problem) {
 }
 
 /* We need a forward declaration of this for `bbob_biobj_problem_best_parameter_print` */
-static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, double *y);
+static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, const double *x, double *y);
 
 void bbob_biobj_problem_best_parameter_print(const coco_problem_t *problem) {
   size_t i;
@@ -684,11 +684,12 @@ void bbob_biobj_problem_best_parameter_print(const coco_problem_t *problem) {
    * access the ->data member of the original problem. But we need access in
    * order to access the underlying single objective functions.
    *
-   * There's no easy way to check if a problem is wrapped by a logger, here we
-   * rely on checking if the ->evaluate_function is the logger one.
+   * There's no easy way to check if a problem is wrapped by a logger (of any
+   * kind), here we rely on checking if the ->evaluate_function is the one of
+   * the original problem.
    *
    */
-  if (problem->evaluate_function == &logger_biobj_evaluate) {
+  if (problem->evaluate_function != &coco_problem_stacked_evaluate_function) {
     coco_warning("I'm sorry, Dave. I'm afraid I can't do that.");
     /* In case this function was called previously, overwrite any results. */
     file = fopen("._bbob_biobj_problem_best_parameter.txt", "w");
-- 
2.43.0


From 75d382444c9caf38c975b3d85ebbf0258c0296cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:49 +0000
Subject: [PATCH 52/53] fix: base_evaluation_triggers without any usable number
 crashed

---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 47711d2..cf69d7d 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -328,6 +328,11 @@ static coco_observer_evaluations_t *coco_observer_evaluations(const char *base_e
   /* Second trigger */
   evaluations->base_evaluations =
       coco_string_parse_ranges(base_evaluations, 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  if (evaluations->base_evaluations == NULL) {
+    coco_warning("coco_observer_evaluations(): cannot use base_evaluation_triggers '%s', using '1,2,5' instead",
+                 base_evaluations);
+    evaluations->base_evaluations = coco_string_parse_ranges("1,2,5", 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  }
   evaluations->dimension = dimension;
   evaluations->base_count =
       coco_count_numbers(evaluations->base_evaluations, COCO_MAX_EVALS_TO_LOG, "base_evaluations");
-- 
2.43.0


From e6e9f95c24f4388e505da9cb263eb85a941ea207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 53/53] fix: the keys of options after an empty quoted value
 were mixed up with quoted text

---
 src/coco_utilities.c | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index b9b71f4..f73b87f 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -653,42 +653,29 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   size_t i;
   char **keys;
   coco_option_keys_t *option_keys = NULL;
-  char *string_to_parse, *key, *string_pointer;
+  char *string_to_parse, *key;
   char *cleaned_option_string = NULL;
-  const char *replacement_string = "STR";
+  const char replacement = 'S';
+  int is_quoted = 0;
 
   /* Check for empty string */
   if ((option_string == NULL) || (strlen(option_string) == 0)) {
     return NULL;
   }
 
-  /* Construct the cleaned_option_string by replacing any string between two quotation marks with "STR" */
-  keys = coco_string_split(option_string, '\"');
-  if (keys) {
-    for (i = 0; *(keys + i); i++) {
-      if (i == 0)
-        cleaned_option_string = coco_strdup(*(keys + i));
-      else {
-        string_pointer = cleaned_option_string;
-        if (i % 2 == 0) {
-          /* This is outside of a pair of quotation marks */
-          cleaned_option_string = coco_strconcat(string_pointer, *(keys + i));
-        } else {
-          /* This is inside of a pair of quotation marks */
-          cleaned_option_string = coco_strconcat(string_pointer, replacement_string);
-        }
-        coco_free_memory(string_pointer);
-      }
-    }
-  }
-  /* Free the keys */
-  for (i = 0; *(keys + i); i++) {
-    coco_free_memory(*(keys + i));
+  if (strspn(option_string, "\"") == strlen(option_string)) {
+    return NULL; /* There are only quotation marks */
   }
-  coco_free_memory(keys);
 
-  if (cleaned_option_string == NULL)
-    return NULL; /* There are only quotation marks */
+  /* Construct the cleaned_option_string by overwriting any string between two quotation marks */
+  cleaned_option_string = coco_strdup(option_string);
+  for (i = 0; cleaned_option_string[i] != '\0'; i++) {
+    if (cleaned_option_string[i] == '\"') {
+      is_quoted = !is_quoted;
+      cleaned_option_string[i] = replacement;
+    } else if (is_quoted)
+      cleaned_option_string[i] = replacement;
+  }
 
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
-- 
2.43.0

