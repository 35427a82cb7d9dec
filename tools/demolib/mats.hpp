#pragma once
#include <cstddef>
#include <cstdio>
#include <vector>
using Mat = std::vector<double>;
inline Mat gen(std::size_t N, unsigned s) { Mat m(N * N); for (auto &x : m) { s = s * 1103515245u + 12345u; x = int((s >> 16) % 17) - 8; } return m; }
inline Mat mul(std::size_t N, const Mat &A, const Mat &B, bool transposed) {
  Mat C(N * N);
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t k = 0; k < N; k++)
      for (std::size_t j = 0; j < N; j++) C[i * N + j] += A[i * N + k] * (transposed ? B[j * N + k] : B[k * N + j]);
  return C;
}
inline int differ(const char *what, const Mat &a, const Mat &b) {
  if (a == b) return 0;
  std::printf("%s: wrong result\n", what);
  return 1;
}
