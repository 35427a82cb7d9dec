// Stand-ins for HPX and the algorithms: each reports the parameters it was given and returns the exact product,
// with APP_FAULT="index value" added to one entry, or APP_SHORT entries missing at the end.
#pragma once
#include <boost/program_options.hpp>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <random>
#include <string>
#include <vector>
typedef std::vector<double> AppMat;
// with APP_CLOCK=seconds a multiplication takes that long, every printed character 1 ms, and nothing else any time
struct AppClock : std::streambuf {
  std::streambuf *to = nullptr;
  double t = 0, cost = 0;
  bool on = false;
  int overflow(int c) override { t += 1e-3; return to->sputc((char)c); }
  int sync() override { return to->pubsync(); }
  AppClock() {
    if (const char *c = std::getenv("APP_CLOCK")) {
      cost = std::atof(c);
      on = true;
      to = std::cout.rdbuf();
      std::cout.rdbuf(this);
    }
  }
  ~AppClock() { if (to) { std::cout.flush(); std::cout.rdbuf(to); } }
  static AppClock &get() { static AppClock c; return c; }
};
static AppClock &app_clock = AppClock::get();
inline AppMat app_product(const char *who, std::uint64_t n, const AppMat &A, const AppMat &B, bool t, const std::vector<double> &par) {
  app_clock.t += app_clock.cost;
  std::cout << "called " << who;
  for (double p : par) std::cout << " " << p;
  std::cout << std::endl;
  AppMat C(n * n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
      for (std::size_t k = 0; k < n; k++) C[i * n + j] += A[i * n + k] * (t ? B[j * n + k] : B[k * n + j]);
  if (const char *f = std::getenv("APP_FAULT")) {
    unsigned long at;
    double v;
    if (std::sscanf(f, "%lu %lf", &at, &v) == 2 && at < C.size()) C[at] += v;
  }
  if (const char *f = std::getenv("APP_SHORT")) C.resize(C.size() - std::atoi(f));
  return C;
}
int hpx_main(boost::program_options::variables_map &vm);
namespace hpx {
static std::ostream &cout = std::cout;
inline std::ostream &flush(std::ostream &o) { return o.flush(); }
inline int finalize() { return 0; }
inline int init(boost::program_options::options_description &d, int argc, char **argv) {
  boost::program_options::variables_map vm;
  boost::program_options::store(boost::program_options::parse_command_line(argc, argv, d), vm);
  boost::program_options::notify(vm);
  return hpx_main(vm);
}
inline int find_here() { return 0; }
inline int find_root_locality() { return 0; }
namespace util { struct high_resolution_timer { double t0 = app_clock.t; double elapsed() const { return app_clock.on ? app_clock.t - t0 : 0.5; } }; }
namespace naming { inline std::uint32_t get_locality_id_from_id(int) { return 0; } }
namespace components {
template <typename T> struct client {
  int get_id() const { return 0; }
  void register_as(const std::string &, bool) {}
};
}
template <typename T> struct appfuture { T v; T get() { return v; } };
}
namespace multiply_components {
struct App { static AppMat &A() { static AppMat m; return m; } static AppMat &B() { static AppMat m; return m; } static std::vector<double> &p() { static std::vector<double> v; return v; } static bool &t() { static bool b; return b; } static std::uint64_t &n() { static std::uint64_t x; return x; } };
struct multiplier {};
struct recursive { struct distribute_recursively_action {}; };
struct static_improved {
  std::uint64_t n; AppMat A, B; bool t; std::vector<double> p;
  static_improved(std::uint64_t n, AppMat A, AppMat B, bool t, double bi, double br, double mw, double md, double mr, double rep, double verb) : n(n), A(A), B(B), t(t), p{bi, br, mw, md, mr, rep, verb} {}
  AppMat matrix_multiply() { return app_product("pseudodynamic", n, A, B, t, p); }
};
}
namespace hpx {
template <typename C> C new_(int, std::uint64_t n, const AppMat &A, const AppMat &B, bool t, double bi, double verb) {
  using multiply_components::App;
  App::n() = n; App::A() = A; App::B() = B; App::t() = t; App::p() = {bi};
  return C();
}
template <typename C> C new_(int, double br, double verb) { multiply_components::App::p().push_back(br); return C(); }
template <typename Act> appfuture<AppMat> async(int, std::uint64_t, std::uint64_t, std::uint64_t n) {
  using multiply_components::App;
  return {app_product("single", n, App::A(), App::B(), App::t(), App::p())};
}
}
#define APP_T(ns) namespace ns { struct ns { std::uint64_t n; AppMat A, B; double a, b; ns(std::uint64_t n, AppMat A, AppMat B, double a, double b) : n(n), A(A), B(B), a(a), b(b) {} AppMat matrix_multiply() { return app_product(#ns, n, A, B, true, {a, b}); } }; }
APP_T(algorithms) APP_T(looped) APP_T(semi)
namespace combined { struct combined { std::uint64_t n; AppMat A, B; double r; combined(std::uint64_t n, AppMat A, AppMat B, double r, double) : n(n), A(A), B(B), r(r) {} AppMat matrix_multiply(double &d) { d = 0.5; return app_product("combined", n, A, B, false, {r}); } }; }
namespace proposal { struct proposal { std::uint64_t n; AppMat A, B; bool t; proposal(std::uint64_t n, AppMat A, AppMat B, bool t, double, double, double, double) : n(n), A(A), B(B), t(t) {} AppMat matrix_multiply(double &d) { d = 0.5; return app_product("proposal", n, A, B, t, {}); } }; }
namespace kernel_test { struct kernel_test { std::uint64_t n; AppMat A, B; bool t; double r; kernel_test(std::uint64_t n, AppMat A, AppMat B, bool t, double r, double) : n(n), A(A), B(B), t(t), r(r) {} AppMat matrix_multiply() { return app_product("kernel_test", n, A, B, t, {r}); } }; }
namespace kernel_tiled { struct kernel_tiled { std::uint64_t n; AppMat A, B; bool t; double r; kernel_tiled(std::uint64_t n, AppMat A, AppMat B, bool t, double r, double) : n(n), A(A), B(B), t(t), r(r) {} AppMat matrix_multiply(double &d) { d = 0.5; return app_product("kernel_tiled", n, A, B, t, {r}); } }; }
