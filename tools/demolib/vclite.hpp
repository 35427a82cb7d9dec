#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <iostream>
#include <vector>
#include <cstdio>
#include <cstdlib>
namespace Vc {
namespace flags {
struct element_aligned_t {};
struct vector_aligned_t {};
constexpr element_aligned_t element_aligned{};
constexpr vector_aligned_t vector_aligned{};
}
struct double_v {
  double v[4];
  double_v(double x = 0) { for (double &e : v) e = x; }
  double_v(const double *p, flags::element_aligned_t) { for (int i = 0; i < 4; i++) v[i] = p[i]; }
  double_v(const double *p, flags::vector_aligned_t) {
    if (reinterpret_cast<std::uintptr_t>(p) % 32) { std::puts("misaligned vector load"); std::exit(3); }
    for (int i = 0; i < 4; i++) v[i] = p[i];
  }
  void memstore(double *p, flags::element_aligned_t) const { for (int i = 0; i < 4; i++) p[i] = v[i]; }
  void memstore(double *p, flags::vector_aligned_t) const {
    if (reinterpret_cast<std::uintptr_t>(p) % 32) { std::puts("misaligned vector store"); std::exit(3); }
    for (int i = 0; i < 4; i++) p[i] = v[i];
  }
  double_v &operator+=(const double_v &o) { for (int i = 0; i < 4; i++) v[i] += o.v[i]; return *this; }
  friend double_v operator*(double_v a, const double_v &b) { for (int i = 0; i < 4; i++) a.v[i] *= b.v[i]; return a; }
  friend double_v operator+(double_v a, const double_v &b) { a += b; return a; }
};
}
