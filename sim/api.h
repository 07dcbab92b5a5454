// Function table of one library instance (public API only; resolved by name, optional ones may be null).
#pragma once
#include <cstddef>
#include <cstdint>
struct coco_suite_t; struct coco_problem_t; struct coco_observer_t; struct coco_archive_t; struct coco_random_state_t;
struct CocoApi {
#define API_LIST(X) \
  X(coco_suite_t *, coco_suite, (const char *, const char *, const char *)) \
  X(void, coco_suite_free, (coco_suite_t *)) \
  X(coco_problem_t *, coco_suite_get_next_problem, (coco_suite_t *, coco_observer_t *)) \
  X(coco_problem_t *, coco_suite_get_problem, (coco_suite_t *, size_t)) \
  X(coco_problem_t *, coco_suite_get_problem_by_function_dimension_instance, (coco_suite_t *, size_t, size_t, size_t)) \
  X(size_t, coco_suite_get_number_of_problems, (const coco_suite_t *)) \
  X(size_t, coco_suite_get_function_from_function_index, (const coco_suite_t *, size_t)) \
  X(size_t, coco_suite_get_dimension_from_dimension_index, (const coco_suite_t *, size_t)) \
  X(size_t, coco_suite_get_instance_from_instance_index, (const coco_suite_t *, size_t)) \
  X(size_t, coco_suite_encode_problem_index, (const coco_suite_t *, size_t, size_t, size_t)) \
  X(void, coco_suite_decode_problem_index, (const coco_suite_t *, size_t, size_t *, size_t *, size_t *)) \
  X(coco_observer_t *, coco_observer, (const char *, const char *)) \
  X(void, coco_observer_free, (coco_observer_t *)) \
  X(coco_problem_t *, coco_problem_add_observer, (coco_problem_t *, coco_observer_t *)) \
  X(coco_problem_t *, coco_problem_remove_observer, (coco_problem_t *, coco_observer_t *)) \
  X(const char *, coco_observer_get_result_folder, (const coco_observer_t *)) \
  X(void, coco_observer_signal_restart, (coco_observer_t *, coco_problem_t *)) \
  X(void, coco_evaluate_function, (coco_problem_t *, const double *, double *)) \
  X(void, coco_evaluate_constraint, (coco_problem_t *, const double *, double *)) \
  X(void, coco_recommend_solution, (coco_problem_t *, const double *)) \
  X(void, coco_problem_free, (coco_problem_t *)) \
  X(const char *, coco_problem_get_name, (const coco_problem_t *)) \
  X(const char *, coco_problem_get_id, (const coco_problem_t *)) \
  X(const char *, coco_problem_get_type, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_dimension, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_number_of_objectives, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_number_of_constraints, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_evaluations, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_evaluations_constraints, (const coco_problem_t *)) \
  X(int, coco_problem_final_target_hit, (const coco_problem_t *)) \
  X(double, coco_problem_get_best_observed_fvalue1, (const coco_problem_t *)) \
  X(const double *, coco_problem_get_smallest_values_of_interest, (const coco_problem_t *)) \
  X(const double *, coco_problem_get_largest_values_of_interest, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_number_of_integer_variables, (const coco_problem_t *)) \
  X(const double *, coco_problem_get_largest_fvalues_of_interest, (const coco_problem_t *)) \
  X(size_t, coco_problem_get_suite_dep_index, (const coco_problem_t *)) \
  X(void, coco_problem_get_initial_solution, (const coco_problem_t *, double *)) \
  X(int, coco_problem_get_best_parameter, (coco_problem_t *, double *)) \
  X(int, coco_problem_is_tainted, (const coco_problem_t *)) \
  X(coco_random_state_t *, coco_random_new, (uint32_t)) \
  X(void, coco_random_free, (coco_random_state_t *)) \
  X(double, coco_random_uniform, (coco_random_state_t *)) \
  X(double, coco_random_normal, (coco_random_state_t *)) \
  X(void, coco_reset_seeds, (void)) \
  X(void *, coco_allocate_memory, (size_t)) \
  X(double *, coco_allocate_vector, (size_t)) \
  X(void, coco_free_memory, (void *)) \
  X(const char *, coco_set_log_level, (const char *)) \
  X(coco_archive_t *, coco_archive, (const char *, size_t, size_t, size_t)) \
  X(int, coco_archive_add_solution, (coco_archive_t *, double, double, const char *)) \
  X(size_t, coco_archive_get_number_of_solutions, (coco_archive_t *)) \
  X(double, coco_archive_get_hypervolume, (coco_archive_t *)) \
  X(const char *, coco_archive_get_next_solution_text, (coco_archive_t *)) \
  X(void, coco_archive_free, (coco_archive_t *)) \
  X(int, coco_logger_biobj_feed_solution, (coco_problem_t *, size_t, const double *)) \
  X(int, coco_remove_directory, (const char *)) \
  X(void, bbob_problem_best_parameter_print, (const coco_problem_t *)) \
  X(void, bbob_biobj_problem_best_parameter_print, (const coco_problem_t *))
#define API_DECL(r, n, a) r(*n) a;
  API_LIST(API_DECL)
  double (*coco_problem_get_best_value)(const coco_problem_t *);  // optional (not declared in coco.h)
  double (*shim_best_value)(coco_problem_t *, int);
  double (*shim_noise_free)(coco_problem_t *, int);
};
