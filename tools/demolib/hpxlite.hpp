// A tiny sequential stand-in for the parts of HPX these demonstrations need.
// Tasks run when their future is waited for: last started first, or first started first (hpxlite::lifo).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
namespace hpxlite {
inline unsigned &here() { static unsigned h = 0; return h; }
inline unsigned &localities() { static unsigned n = 1; return n; }
inline bool &reversed() { static bool b = false; return b; }
inline bool &lifo() { static bool b = true; return b; }
inline std::vector<std::function<void()>> &tasks() { static std::vector<std::function<void()>> t; return t; }
inline bool step() {
  auto &t = tasks();
  if (t.empty()) return false;
  std::function<void()> f;
  if (lifo()) { f = std::move(t.back()); t.pop_back(); }
  else { f = std::move(t.front()); t.erase(t.begin()); }
  f();
  return true;
}
}
namespace hpx {
inline std::ostream &cout = std::cout;
inline std::ostream &flush(std::ostream &o) { return o.flush(); }
struct id_type {
  unsigned loc = 0;
  std::shared_ptr<void> obj;
  bool operator==(const id_type &o) const { return loc == o.loc && obj == o.obj; }
};
inline std::ostream &operator<<(std::ostream &o, const id_type &i) { return o << i.loc; }
template <typename T> struct state { bool ready = false; T v; std::exception_ptr e; };
template <> struct state<void> { bool ready = false; std::exception_ptr e; };
template <typename T> class future {
public:
  std::shared_ptr<state<T>> s = std::make_shared<state<T>>();
  void wait() { while (!s->ready) if (!hpxlite::step()) std::abort(); }
  bool has_exception() { wait(); return s->e != nullptr; }
  T get() { wait(); if (s->e) std::rethrow_exception(s->e); if constexpr (!std::is_void<T>::value) return std::move(s->v); }
  template <typename F> future<void> then(F f) {
    future<void> r;
    auto st = s;
    hpxlite::tasks().push_back([=]() mutable { future<T> me; me.s = st; try { f(std::move(me)); } catch (...) { r.s->e = std::current_exception(); } r.s->ready = true; });
    return r;
  }
};
inline future<unsigned> get_num_localities() { future<unsigned> f; f.s->ready = true; f.s->v = hpxlite::localities(); return f; }
inline std::vector<id_type> find_all_localities() { std::vector<id_type> v(hpxlite::localities()); for (unsigned i = 0; i < v.size(); i++) v[i].loc = hpxlite::reversed() ? v.size() - 1 - i : i; return v; }
inline id_type find_root_locality() { return id_type(); }
inline id_type find_here() { id_type i; i.loc = hpxlite::here(); return i; }
inline unsigned get_locality_id() { return hpxlite::here(); }
namespace naming { inline unsigned get_locality_id_from_id(const id_type &i) { return i.loc; } }
namespace util {
template <typename F> auto unwrapped(F f) { return [f](auto fut) mutable { f(fut.get()); }; }
class iterator_core_access {
public:
  template <typename I> static void increment(I &i) { i.increment(); }
  template <typename R, typename I> static R dereference(const I &i) { return i.dereference(); }
  template <typename I> static bool equal(const I &a, const I &b) { return a.equal(b); }
};
template <typename D, typename V, typename C, typename R = V &> class iterator_facade {
public:
  using value_type = V;
  using reference = R;
  using difference_type = std::ptrdiff_t;
  using pointer = V *;
  using iterator_category = C;
  R operator*() const { return iterator_core_access::dereference<R>(static_cast<const D &>(*this)); }
  D &operator++() { iterator_core_access::increment(static_cast<D &>(*this)); return static_cast<D &>(*this); }
  friend bool operator==(const D &a, const D &b) { return iterator_core_access::equal(a, b); }
  friend bool operator!=(const D &a, const D &b) { return !(a == b); }
};
}
inline void wait_all(std::vector<future<void>> &g) { for (auto &f : g) f.wait(); }
struct default_distribution_policy { std::vector<id_type> ids; };
inline default_distribution_policy default_layout(std::vector<id_type> ids) { return {ids}; }
namespace components {
template <typename T> struct component_base {};
template <typename T> struct component {};
inline std::map<std::string, id_type> &names() { static std::map<std::string, id_type> m; return m; }
template <typename T> struct client {
  using server = T;
  id_type id;
  id_type get_id() const { return id; }
  void register_as(const std::string &n, bool = true) { names()[n] = id; }
  void connect_to(const std::string &n) { id = names().at(n); }
};
}
template <typename C> struct maker {
  template <typename... A> static C make(id_type where, A... a) { C c; c.id.loc = where.loc; c.id.obj = std::make_shared<typename C::server>(a...); return c; }
};
template <typename C> struct maker<C[]> {
  template <typename... A> static future<std::vector<C>> make(default_distribution_policy p, std::size_t n, A... a) {
    future<std::vector<C>> f;
    for (std::size_t i = 0; i < n; i++) f.s->v.push_back(maker<C>::make(p.ids[i % p.ids.size()], a...));
    f.s->ready = true;
    return f;
  }
};
template <typename C, typename... A> auto new_(A... a) { return maker<C>::make(a...); }
template <typename Act, typename... A> auto async(id_type id, A... a) {
  future<typename Act::result> r;
  hpxlite::tasks().push_back([=] {
    unsigned old = hpxlite::here();
    hpxlite::here() = id.loc;
    try { r.s->v = (static_cast<typename Act::object *>(id.obj.get())->*Act::pointer())(a...); } catch (...) { r.s->e = std::current_exception(); }
    r.s->ready = true;
    hpxlite::here() = old;
  });
  return r;
}
namespace parallel {
struct par_t {};
struct seq_t {};
constexpr par_t par{};
constexpr seq_t seq{};
#ifdef HPXLITE_THREADS
template <typename I, typename F> void for_each_n(par_t, I it, std::size_t n, F f) {
  std::vector<I> its;
  for (std::size_t i = 0; i < n; i++, ++it) its.push_back(it);
  std::vector<std::thread> t;
  for (std::size_t c = 0; c < 8; c++) t.emplace_back([&, c] { for (std::size_t i = c; i < n; i += 8) f(*its[i]); });
  for (auto &x : t) x.join();
}
#endif
template <typename P, typename I, typename F> void for_each_n(P, I it, std::size_t n, F f) {
  for (std::size_t i = 0; i < n; i++, ++it) f(*it);
}
}
}
#define HPX_REGISTER_COMPONENT(...) static_assert(true, "")
#define HPX_REGISTER_ACTION(...) static_assert(true, "")
#define HPX_REGISTER_ACTION_DECLARATION(...) static_assert(true, "")
#define HPX_DEFINE_COMPONENT_ACTION(cls, fn, name)                                                 \
  struct name {                                                                                    \
    using object = cls;                                                                            \
    static auto pointer() { return &cls::fn; }                                                     \
    using result = decltype(std::declval<cls>().fn(0, 0, 0));                                      \
  }
