// The real reference multiplication, which here also takes (virtual) time.
#pragma once
namespace stub { void spend(char what, unsigned long times); }
#define naive_matrix_multiply vp_real_naive_matrix_multiply
#define naive_matrix_multiply_transposed vp_real_naive_matrix_multiply_transposed
#include_next "reference_kernels/naive.hpp"
#undef naive_matrix_multiply
#undef naive_matrix_multiply_transposed
template <typename... X> auto naive_matrix_multiply(X &&... x) -> decltype(vp_real_naive_matrix_multiply(std::forward<X>(x)...)) {
  stub::spend('r', 1);
  return vp_real_naive_matrix_multiply(std::forward<X>(x)...);
}
template <typename... X> auto naive_matrix_multiply_transposed(X &&... x) -> decltype(vp_real_naive_matrix_multiply_transposed(std::forward<X>(x)...)) {
  stub::spend('r', 1);
  return vp_real_naive_matrix_multiply_transposed(std::forward<X>(x)...);
}
