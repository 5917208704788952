// Instantiates the header-only entry points (factories and training calls) so that the analysis sees their bodies.
#include "tsetlini.hpp"
#include "tsetlini_state_json.hpp"
#include "tsetlini_params.hpp"
#include <string>
#include <utility>

using namespace Tsetlini;

namespace vtapi
{

#define FACTORY(EST, MAKE, CLAUSES, ...) \
    Either<status_message_t, EST> MAKE##_defaults() { return MAKE(); } \
    Either<status_message_t, EST> MAKE##_all(CLAUSES##_t p_clauses, number_of_states_t p_states, specificity_t p_s, threshold_t p_threshold, \
        weighted_flag_t p_weighted, max_weight_t p_max_weight, boost_tpf_t p_boost, number_of_jobs_t p_jobs, verbosity_t p_verbose, \
        counting_type_t p_ct, clause_output_tile_size_t p_tile, random_seed_t p_seed LOSSP) \
    { return MAKE(p_clauses, p_states, p_s, p_threshold, p_weighted, p_max_weight, p_boost, p_jobs, p_verbose, p_ct, p_tile, p_seed LOSSA); } \
    Either<status_message_t, EST> MAKE##_rev(CLAUSES##_t p_clauses, number_of_states_t p_states, specificity_t p_s, threshold_t p_threshold, \
        weighted_flag_t p_weighted, max_weight_t p_max_weight, boost_tpf_t p_boost, number_of_jobs_t p_jobs, verbosity_t p_verbose, \
        counting_type_t p_ct, clause_output_tile_size_t p_tile, random_seed_t p_seed LOSSP) \
    { return MAKE(LOSSR p_seed, p_tile, p_ct, p_verbose, p_jobs, p_boost, p_max_weight, p_weighted, p_threshold, p_s, p_states, p_clauses); } \
    Either<status_message_t, EST> MAKE##_const(CLAUSES##_t const p_clauses, number_of_states_t const p_states, specificity_t const p_s, threshold_t const p_threshold, \
        weighted_flag_t const p_weighted, max_weight_t const p_max_weight, boost_tpf_t const p_boost, number_of_jobs_t const p_jobs, verbosity_t const p_verbose, \
        counting_type_t const p_ct, clause_output_tile_size_t const p_tile, random_seed_t const p_seed LOSSPC) \
    { return MAKE(p_clauses, p_states, p_s, p_threshold, p_weighted, p_max_weight, p_boost, p_jobs, p_verbose, p_ct, p_tile, p_seed LOSSA); } \
    ONLY(EST, MAKE, CLAUSES##_t, clauses) ONLY(EST, MAKE, number_of_states_t, number_of_states) ONLY(EST, MAKE, specificity_t, s) \
    ONLY(EST, MAKE, threshold_t, threshold) ONLY(EST, MAKE, weighted_flag_t, weighted) ONLY(EST, MAKE, max_weight_t, max_weight) \
    ONLY(EST, MAKE, boost_tpf_t, boost_true_positive_feedback) ONLY(EST, MAKE, number_of_jobs_t, n_jobs) ONLY(EST, MAKE, verbosity_t, verbose) \
    ONLY(EST, MAKE, counting_type_t, counting_type) ONLY(EST, MAKE, clause_output_tile_size_t, clause_output_tile_size) ONLY(EST, MAKE, random_seed_t, random_state) LOSSONLY(EST, MAKE)

#define ONLY(EST, MAKE, T, NAME) Either<status_message_t, EST> MAKE##_only_##NAME(T p) { return MAKE(p); }

#define TRAIN(EST, X, PRE) \
    status_message_t PRE##_fit(EST & e, X const & x, label_vector_type const & y, max_number_of_labels_t nl, number_of_epochs_t ne) { return e.fit(x, y, nl, ne); } \
    status_message_t PRE##_fit_rev(EST & e, X const & x, label_vector_type const & y, max_number_of_labels_t nl, number_of_epochs_t ne) { return e.fit(x, y, ne, nl); } \
    status_message_t PRE##_fit_default(EST & e, X const & x, label_vector_type const & y, max_number_of_labels_t nl) { return e.fit(x, y, nl); } \
    status_message_t PRE##_partial_fit(EST & e, X const & x, label_vector_type const & y, max_number_of_labels_t nl, number_of_epochs_t ne) { return e.partial_fit(x, y, nl, ne); } \
    status_message_t PRE##_partial_fit_default(EST & e, X const & x, label_vector_type const & y, max_number_of_labels_t nl) { return e.partial_fit(x, y, nl); }

#define LOSSP
#define LOSSPC
#define LOSSA
#define LOSSR
#define LOSSONLY(EST, MAKE)
FACTORY(ClassifierClassic, make_classifier_classic, number_of_physical_classifier_clauses_per_label)
FACTORY(ClassifierBitwise, make_classifier_bitwise, number_of_physical_classifier_clauses_per_label)
TRAIN(ClassifierClassic, std::vector<aligned_vector_char>, clc)
TRAIN(ClassifierBitwise, std::vector<bit_vector_uint64>, clb)
#undef LOSSP
#undef LOSSPC
#undef LOSSA
#undef LOSSR
#undef LOSSONLY
#define LOSSP , loss_fn_name_t p_loss, loss_fn_C1_t p_c1, box_muller_flag_t p_bm
#define LOSSPC , loss_fn_name_t const p_loss, loss_fn_C1_t const p_c1, box_muller_flag_t const p_bm
#define LOSSA , p_loss, p_c1, p_bm
#define LOSSR p_bm, p_c1, p_loss,
#define LOSSONLY(EST, MAKE) ONLY(EST, MAKE, loss_fn_name_t, loss_fn) ONLY(EST, MAKE, loss_fn_C1_t, loss_fn_C1) ONLY(EST, MAKE, box_muller_flag_t, box_muller)
FACTORY(RegressorClassic, make_regressor_classic, number_of_physical_regressor_clauses)
FACTORY(RegressorBitwise, make_regressor_bitwise, number_of_physical_regressor_clauses)

}
