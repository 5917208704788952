// Entry points for the abstract interpreter: one monomorphic instance of every kernel.
#include "tsetlini_algo_classic.hpp"
#include "tsetlini_algo_bitwise.hpp"
#include "tsetlini_algo_common.hpp"
#include <cstddef>
using namespace Tsetlini;
using CT = EstimatorStateCacheBase::coin_tosser_type;
template<typename T> using NM = numeric_matrix<T>;

#define CLF(T, SFX) \
extern "C" void vt_clf_bit_##SFX(NM<T>& m, bit_matrix_uint64& pol, w_vector_type& w, int b, int e, signed char const* fb, char const* co, int N, bit_vector_uint64 const& X, int mw, bool boost, IRNG& prng, CT& ct) \
{ train_classifier_automata(m, pol, w, b, e, (feedback_vector_type::value_type const*)fb, co, number_of_states_t{N}, X, max_weight_t{mw}, boost_tpf_t{boost}, prng, ct); } \
extern "C" void vt_clf_cls_##SFX(NM<T>& m, bit_matrix_uint64&, w_vector_type& w, int b, int e, signed char const* fb, char const* co, int N, aligned_vector_char const& X, int mw, bool boost, IRNG& prng, CT& ct) \
{ train_classifier_automata(m, w, b, e, (feedback_vector_type::value_type const*)fb, co, number_of_states_t{N}, X, max_weight_t{mw}, boost_tpf_t{boost}, prng, ct); } \
extern "C" void vt_reg_bit_##SFX(NM<T>& m, bit_matrix_uint64& pol, w_vector_type& w, int b, int e, int err, char const* co, int N, bit_vector_uint64 const& X, int mw, bool boost, IRNG& prng, CT& ct, loss_fn_type const& loss, bool bm, int thr) \
{ train_regressor_automata(m, pol, w, b, e, co, number_of_states_t{N}, response_error_t{err}, X, max_weight_t{mw}, loss, box_muller_flag_t{bm}, boost_tpf_t{boost}, prng, threshold_t{thr}, ct); } \
extern "C" void vt_reg_cls_##SFX(NM<T>& m, bit_matrix_uint64&, w_vector_type& w, int b, int e, int err, char const* co, int N, aligned_vector_char const& X, int mw, bool boost, IRNG& prng, CT& ct, loss_fn_type const& loss, bool bm, int thr) \
{ train_regressor_automata(m, w, b, e, co, number_of_states_t{N}, response_error_t{err}, X, max_weight_t{mw}, loss, box_muller_flag_t{bm}, boost_tpf_t{boost}, prng, threshold_t{thr}, ct); }

CLF(std::int8_t, i8)
CLF(std::int16_t, i16)
CLF(std::int32_t, i32)

// field offsets, read by the analyser instead of hard-coding object layouts
#define OFF(NAME, T, F) extern "C" const unsigned long vo_##NAME = __builtin_offsetof(T, F);
#define NMOFF(T, SFX) OFF(nm_##SFX##_rows, NM<T>, m_nrows) OFF(nm_##SFX##_cols, NM<T>, m_ncols) OFF(nm_##SFX##_v, NM<T>, m_v)
NMOFF(std::int8_t, i8)
NMOFF(std::int16_t, i16)
NMOFF(std::int32_t, i32)
OFF(bm_rows, bit_matrix_uint64, m_nrows)
OFF(bm_cols, bit_matrix_uint64, m_ncols)
OFF(bm_blocks, bit_matrix_uint64, m_row_blocks)
OFF(bm_v, bit_matrix_uint64, m_v)
OFF(bv_len, bit_vector_uint64, m_bit_length)
OFF(bv_v, bit_vector_uint64, m_vector)
OFF(view_p, bit_matrix_uint64::bit_view, m_p)
