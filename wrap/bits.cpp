// Instantiates every member of the bit and numeric containers, for all block types, so that the analysis sees their bodies.
#include "tsetlini_types.hpp"
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_numeric_matrix.hpp"
#include <cstdint>
#include <vector>

template struct basic_bit_vector<std::uint8_t>;
template struct basic_bit_vector<std::uint16_t>;
template struct basic_bit_vector<std::uint32_t>;
template struct basic_bit_vector<std::uint64_t>;
template struct basic_bit_matrix<std::uint8_t>;
template struct basic_bit_matrix<std::uint16_t>;
template struct basic_bit_matrix<std::uint32_t>;
template struct basic_bit_matrix<std::uint64_t>;
template struct basic_numeric_matrix<std::int8_t>;
template struct basic_numeric_matrix<std::int16_t>;
template struct basic_numeric_matrix<std::int32_t>;

basic_bit_vector<std::uint64_t> vt_from_range(std::vector<char>::const_iterator b, std::vector<char>::const_iterator e)
{
    return basic_bit_vectors::from_range<std::uint64_t>(b, e);
}

#define VT_EQUAL(T, B) bool vt_equal_##B(T<std::B> const & a, T<std::B> const & b) { return a == b; }
VT_EQUAL(basic_bit_matrix, uint8_t)
VT_EQUAL(basic_bit_matrix, uint16_t)
VT_EQUAL(basic_bit_matrix, uint32_t)
VT_EQUAL(basic_bit_matrix, uint64_t)
VT_EQUAL(basic_numeric_matrix, int8_t)
VT_EQUAL(basic_numeric_matrix, int16_t)
VT_EQUAL(basic_numeric_matrix, int32_t)
