// Stand-ins for the algorithms of the command-line program: they record how they are used and return the product with
// an injected fault.
#pragma once
#include <hpx/include/components.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <vector>
namespace stub {
void log(const std::string &s);
struct Ops {
  std::vector<std::vector<double>> mats;
  bool flag = false;
  unsigned long runs = 1; // how often the multiplication is repeated by the algorithm itself
  std::vector<unsigned long> ints;
};
// virtual time: 'c' construction, 'm' multiplication, 'o' what a multiplication does besides
void spend(char what, unsigned long times);
double cost(char what);
std::vector<double> result(const std::string &name, const Ops &o);
std::string text(const std::vector<double> &v);
inline void one(std::string &s, Ops &o, const std::vector<double> &v) { s += " " + text(v); o.mats.push_back(v); }
inline void one(std::string &s, Ops &o, bool b) { s += b ? " true" : " false"; o.flag = b; }
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>::type one(std::string &s, Ops &o, T v) {
  o.ints.push_back((unsigned long)v);
  char buf[64];
  snprintf(buf, sizeof(buf), "%.17g", (double)v);
  s += " " + (std::is_floating_point<T>::value ? std::string(buf) : std::to_string((unsigned long long)v));
}
inline void all(std::string &, Ops &) {}
template <typename H, typename... T> void all(std::string &s, Ops &o, H &&h, T &&... t) {
  one(s, o, h);
  all(s, o, std::forward<T>(t)...);
}
template <typename... X> Ops ctor(const char *name, X &&... x) {
  Ops o;
  std::string s = std::string("new ") + name;
  all(s, o, std::forward<X>(x)...);
  log(s);
  std::string c = name;
  // all of these take ..., repetitions, verbose
  if ((c == "static_improved" || c == "single" || c == "combined" || c == "kernel_test" || c == "kernel_tiled" || c == "proposal") && o.ints.size() >= 2) o.runs = o.ints[o.ints.size() - 2];
  spend('c', 1);
  return o;
}
inline void times(double) {}
template <typename... X> void times(double v, double &d, X &&... x) { d = v; times(v, std::forward<X>(x)...); }
} // namespace stub
#define STUB(ns, cls)                                                                                     \
  namespace ns {                                                                                          \
  struct cls {                                                                                            \
    stub::Ops ops;                                                                                        \
    template <typename V, typename M, typename... X> cls(V n, M &&m, X &&... x) : ops(stub::ctor(#cls, n, std::forward<M>(m), std::forward<X>(x)...)) {} \
    template <typename... X> std::vector<double> matrix_multiply(X &&... x) {                             \
      stub::times(ops.runs * stub::cost('m'), std::forward<X>(x)...);                                     \
      stub::spend('m', ops.runs);                                                                         \
      stub::spend('o', 1);                                                                                \
      return stub::result(#cls, ops);                                                                     \
    }                                                                                                     \
  };                                                                                                      \
  }
