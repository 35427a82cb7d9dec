// Stand-in for the part of the HPX API (0.9.99 / 1.0 era) a shared-memory or distributed matrix
// multiplication can reasonably use, on top of the controlled scheduler of /verif/rt.
#pragma once
#include "hpxrt.hpp"

#include <algorithm>
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace hpx {

// ------------------------------------------------------------------------------------ errors
enum error { success = 0, no_state, future_already_retrieved, promise_already_satisfied, broken_promise, bad_parameter, invalid_status, network_error };
struct exception : std::runtime_error {
  error e;
  explicit exception(error e_ = success, std::string const &s = "hpx exception") : std::runtime_error(s), e(e_) {}
  error get_error() const { return e; }
};
struct exception_list : hpx::exception {
  std::vector<std::exception_ptr> list;
  explicit exception_list(std::vector<std::exception_ptr> l = {}) : hpx::exception(invalid_status, "exceptions in a parallel algorithm"), list(std::move(l)) {}
  std::size_t size() const { return list.size(); }
};

// ------------------------------------------------------------------------------------ streams
static std::ostream &cout = mc::hpx_cout();
static std::ostream &cerr = mc::hpx_cout();
static std::ostream &consolestream = mc::hpx_cout();
inline std::ostream &flush(std::ostream &o) { return o; }
inline std::ostream &endl(std::ostream &o) { return o << '\n'; }
inline std::ostream &async_flush(std::ostream &o) { return o; }
inline std::ostream &async_endl(std::ostream &o) { return o << '\n'; }
namespace iostreams {
using hpx::flush;
using hpx::endl;
}

// ------------------------------------------------------------------------------------ invoke
namespace detail {
template <typename T> struct rc {
  T *p = nullptr;
  rc() {}
  explicit rc(T *q) : p(q) { if (p) mc::ref(p); }
  rc(rc const &o) : p(o.p) { if (p) mc::ref(p); }
  rc(rc &&o) noexcept : p(o.p) { o.p = nullptr; }
  rc &operator=(rc o) noexcept { std::swap(p, o.p); return *this; }
  ~rc() { reset(); }
  void reset() {
    if (p && mc::unref(p)) delete p;
    p = nullptr;
  }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  static rc adopt(T *q) { rc r; r.p = q; return r; }
};

template <typename F, typename... A>
auto invoke(F &&f, A &&... a) -> decltype(std::forward<F>(f)(std::forward<A>(a)...)) {
  return std::forward<F>(f)(std::forward<A>(a)...);
}
template <typename M, typename C, typename O, typename... A, typename = typename std::enable_if<std::is_member_function_pointer<M C::*>::value>::type>
auto invoke(M C::*m, O &&o, A &&... a) -> decltype((std::forward<O>(o).*m)(std::forward<A>(a)...)) {
  return (std::forward<O>(o).*m)(std::forward<A>(a)...);
}
template <typename M, typename C, typename O, typename... A, typename = typename std::enable_if<std::is_member_function_pointer<M C::*>::value>::type>
auto invoke(M C::*m, O *o, A &&... a) -> decltype((o->*m)(std::forward<A>(a)...)) {
  return (o->*m)(std::forward<A>(a)...);
}

template <std::size_t... I> struct iseq {};
template <std::size_t N, std::size_t... I> struct mk_iseq : mk_iseq<N - 1, N - 1, I...> {};
template <std::size_t... I> struct mk_iseq<0, I...> { typedef iseq<I...> type; };

template <typename F, typename... A> struct deferred_call {
  F f;
  std::tuple<A...> a;
  template <typename F2, typename... A2> explicit deferred_call(int, F2 &&f2, A2 &&... a2) : f(std::forward<F2>(f2)), a(std::forward<A2>(a2)...) {}
  typedef decltype(detail::invoke(std::declval<F>(), std::declval<A>()...)) result;
  template <std::size_t... I> result go(iseq<I...>) { return detail::invoke(std::move(f), std::move(std::get<I>(a))...); }
  result operator()() { return go(typename mk_iseq<sizeof...(A)>::type()); }
};
} // namespace detail

// ------------------------------------------------------------------------------------ futures
template <typename T> class future;
template <typename T> class shared_future;

namespace detail {
struct state_base : mc::Obj {
  mc::Flag flag;
  std::exception_ptr ex;
  std::function<void()> deferred;
  void complete() { flag.set(); }
  void wait() {
    if (deferred) {
      std::function<void()> d = std::move(deferred);
      deferred = nullptr;
      d();
    }
    flag.wait();
  }
};
template <typename T> struct state : state_base {
  typename std::aligned_storage<sizeof(T), alignof(T)>::type mem;
  bool has = false;
  T &ref() { return *reinterpret_cast<T *>(&mem); }
  template <typename... U> void set(U &&... u) { new (&mem) T(std::forward<U>(u)...); has = true; complete(); }
  void set_exception(std::exception_ptr e) { ex = e; complete(); }
  T take() { wait(); if (ex) std::rethrow_exception(ex); return std::move(ref()); }
  T &peek() { wait(); if (ex) std::rethrow_exception(ex); return ref(); }
  ~state() { if (has) ref().~T(); }
};
template <typename T> struct state<T &> : state_base {
  T *ptr = nullptr;
  void set(T &t) { ptr = &t; complete(); }
  void set_exception(std::exception_ptr e) { ex = e; complete(); }
  T &take() { wait(); if (ex) std::rethrow_exception(ex); return *ptr; }
  T &peek() { return take(); }
};
template <> struct state<void> : state_base {
  void set() { complete(); }
  void set_exception(std::exception_ptr e) { ex = e; complete(); }
  void take() { wait(); if (ex) std::rethrow_exception(ex); }
  void peek() { take(); }
};
template <typename T> using state_ptr = rc<state<T>>;

template <typename R> struct fulfil {
  template <typename F> static void go(state<R> *s, F &&f) {
    try { s->set(f()); } catch (...) { s->set_exception(std::current_exception()); }
  }
};
template <> struct fulfil<void> {
  template <typename F> static void go(state<void> *s, F &&f) {
    try { f(); } catch (...) { s->set_exception(std::current_exception()); return; }
    s->set();
  }
};
struct access;
template <typename T> struct is_future : std::false_type {};
template <typename T> struct is_future<future<T>> : std::true_type { typedef T type; };
template <typename T> struct is_future<shared_future<T>> : std::true_type { typedef T type; };

// holds a callable that can only be moved, so that it fits into std::function
template <typename F> struct movable_box : mc::Obj {
  F f;
  explicit movable_box(F &&g) : f(std::move(g)) {}
};
template <typename F> std::function<void()> once(F &&f) {
  typedef movable_box<typename std::decay<F>::type> B;
  rc<B> b(new B(std::move(f)));
  return [b]() mutable {
    b->f();
    b.reset();
  };
}
template <typename R, typename F> void run_task(state_ptr<R> s, F &&f, int locality) {
  auto body = [s, f = std::forward<F>(f)]() mutable {
    auto st = std::move(s);
    fulfil<R>::go(&*st, f);
    { auto drop = std::move(f); (void)drop; }
  };
  mc::spawn(once(std::move(body)), locality);
}
} // namespace detail

enum class launch_kind { async, fork, sync, deferred, task };
struct launch {
  launch_kind k;
  constexpr launch(launch_kind x = launch_kind::async) : k(x) {}
  static const launch async, fork, sync, deferred, task, apply, all, async_policies, sync_policies;
  bool operator==(launch const &o) const { return k == o.k; }
};
__attribute__((weak)) const launch launch::async{launch_kind::async};
__attribute__((weak)) const launch launch::fork{launch_kind::fork};
__attribute__((weak)) const launch launch::sync{launch_kind::sync};
__attribute__((weak)) const launch launch::deferred{launch_kind::deferred};
__attribute__((weak)) const launch launch::task{launch_kind::async};
__attribute__((weak)) const launch launch::apply{launch_kind::async};
__attribute__((weak)) const launch launch::all{launch_kind::async};
__attribute__((weak)) const launch launch::async_policies{launch_kind::async};
__attribute__((weak)) const launch launch::sync_policies{launch_kind::sync};

namespace detail {
template <typename Fut, typename F> struct then_result { typedef decltype(std::declval<F &>()(std::declval<Fut>())) raw; };
template <typename Fut, typename F>
auto do_then(launch pol, Fut fut, F &&f) -> future<typename std::conditional<is_future<typename then_result<Fut, typename std::decay<F>::type>::raw>::value,
                                                    typename then_result<Fut, typename std::decay<F>::type>::raw,
                                                    future<typename then_result<Fut, typename std::decay<F>::type>::raw>>::type::value_type>;
}

template <typename T> class future {
public:
  typedef T value_type;
  detail::state_ptr<T> s;
  future() {}
  explicit future(detail::state_ptr<T> p) : s(std::move(p)) {}
  future(future &&) noexcept = default;
  future &operator=(future &&) noexcept = default;
  future(future const &) = delete;
  future &operator=(future const &) = delete;
  // unwrapping
  future(future<future<T>> &&o);
  bool valid() const { return bool(s); }
  bool is_ready() const { return s && s->flag.ready(); }
  bool has_value() const { return is_ready() && !s->ex; }
  bool has_exception() const { return is_ready() && s->ex; }
  std::exception_ptr get_exception_ptr() const { s->wait(); return s->ex; }
  void check() const { if (!s) throw hpx::exception(no_state, "this future has no valid shared state"); }
  void wait() const { check(); s->wait(); }
  T get() { check(); auto st = std::move(s); return st->take(); }
  shared_future<T> share();
  template <typename F> auto then(F &&f) -> decltype(detail::do_then(launch::async, std::move(*this), std::forward<F>(f))) {
    check();
    return detail::do_then(launch::async, std::move(*this), std::forward<F>(f));
  }
  template <typename F> auto then(launch p, F &&f) -> decltype(detail::do_then(p, std::move(*this), std::forward<F>(f))) {
    check();
    return detail::do_then(p, std::move(*this), std::forward<F>(f));
  }
};
template <typename T> class shared_future {
public:
  typedef T value_type;
  detail::state_ptr<T> s;
  shared_future() {}
  explicit shared_future(detail::state_ptr<T> p) : s(std::move(p)) {}
  shared_future(future<T> &&f) : s(std::move(f.s)) {}
  bool valid() const { return bool(s); }
  bool is_ready() const { return s && s->flag.ready(); }
  bool has_value() const { return is_ready() && !s->ex; }
  bool has_exception() const { return is_ready() && s->ex; }
  std::exception_ptr get_exception_ptr() const { s->wait(); return s->ex; }
  void check() const { if (!s) throw hpx::exception(no_state, "this future has no valid shared state"); }
  void wait() const { check(); s->wait(); }
  auto get() const -> decltype(std::declval<detail::state<T> &>().peek()) { check(); return s->peek(); }
  template <typename F> auto then(F &&f) const -> decltype(detail::do_then(launch::async, std::declval<shared_future>(), std::forward<F>(f))) {
    check();
    return detail::do_then(launch::async, shared_future(*this), std::forward<F>(f));
  }
  template <typename F> auto then(launch p, F &&f) const -> decltype(detail::do_then(p, std::declval<shared_future>(), std::forward<F>(f))) {
    check();
    return detail::do_then(p, shared_future(*this), std::forward<F>(f));
  }
};
template <typename T> shared_future<T> future<T>::share() { check(); return shared_future<T>(std::move(s)); }

namespace detail {
template <typename R> struct chain { // fulfils s with the result of f, flattening futures
  template <typename F> static void go(state<R> *s, F &&f, std::false_type) { fulfil<R>::go(s, f); }
  template <typename F> static void go(state<R> *s, F &&f, std::true_type) { fulfil<R>::go(s, [&] { return f().get(); }); }
};
template <typename Fut, typename F>
auto do_then(launch pol, Fut fut, F &&f) -> future<typename std::conditional<is_future<typename then_result<Fut, typename std::decay<F>::type>::raw>::value,
                                                    typename then_result<Fut, typename std::decay<F>::type>::raw,
                                                    future<typename then_result<Fut, typename std::decay<F>::type>::raw>>::type::value_type> {
  typedef typename then_result<Fut, typename std::decay<F>::type>::raw raw;
  typedef typename std::conditional<is_future<raw>::value, raw, future<raw>>::type::value_type R;
  state_ptr<R> st(new state<R>);
  typename std::decay<F>::type fn(std::forward<F>(f));
  (void)pol;
  auto body = [st, fut = std::move(fut), fn = std::move(fn)]() mutable {
    auto s2 = std::move(st);
    fut.wait();
    chain<R>::go(&*s2, [&] { return fn(std::move(fut)); }, is_future<raw>());
    { auto drop = std::move(fn); (void)drop; }
  };
  mc::spawn(once(std::move(body)));
  return future<R>(st);
}
}
template <typename T> future<T>::future(future<future<T>> &&o) {
  detail::state_ptr<T> st(new detail::state<T>);
  auto body = [st, o = std::move(o)]() mutable { detail::fulfil<T>::go(&*st, [&] { return o.get().get(); }); };
  s = st;
  mc::spawn(detail::once(std::move(body)));
}

template <typename T> future<typename std::decay<T>::type> make_ready_future(T &&t) {
  typedef typename std::decay<T>::type D;
  detail::state_ptr<D> s(new detail::state<D>);
  s->set(std::forward<T>(t));
  return future<D>(s);
}
inline future<void> make_ready_future() {
  detail::state_ptr<void> s(new detail::state<void>);
  s->set();
  return future<void>(s);
}
template <typename T> future<T> make_exceptional_future(std::exception_ptr e) {
  detail::state_ptr<T> s(new detail::state<T>);
  s->set_exception(e);
  return future<T>(s);
}

namespace detail {
template <typename T> class promise_base {
public:
  state_ptr<T> s;
  bool retrieved = false;
  promise_base() : s(new state<T>) {}
  promise_base(promise_base &&o) noexcept : s(std::move(o.s)), retrieved(o.retrieved) {}
  promise_base &operator=(promise_base &&o) noexcept { abandon(); s = std::move(o.s); retrieved = o.retrieved; return *this; }
  promise_base(promise_base const &) = delete;
  void abandon() {
    if (s && !s->flag.ready() && retrieved) s->set_exception(std::make_exception_ptr(hpx::exception(broken_promise, "broken promise")));
    s.reset();
  }
  ~promise_base() { abandon(); }
  future<T> get_future() {
    if (retrieved) throw hpx::exception(future_already_retrieved, "future already retrieved");
    retrieved = true;
    return future<T>(s);
  }
  void set_exception(std::exception_ptr e) { s->set_exception(e); mc::point(); }
  bool valid() const { return bool(s); }
};
}
namespace lcos {
namespace local {
template <typename T> class promise : public detail::promise_base<T> {
public:
  template <typename U> void set_value(U &&u) {
    if (this->s->flag.ready()) throw hpx::exception(promise_already_satisfied, "promise already satisfied");
    this->s->set(std::forward<U>(u));
    mc::point();
  }
};
template <> class promise<void> : public detail::promise_base<void> {
public:
  void set_value() {
    if (this->s->flag.ready()) throw hpx::exception(promise_already_satisfied, "promise already satisfied");
    this->s->set();
    mc::point();
  }
};
class mutex {
  mc::Lock l;
public:
  mutex() {}
  explicit mutex(char const *) {}
  mutex(mutex const &) = delete;
  void lock() { l.lock(); }
  bool try_lock() { return l.try_lock(); }
  void unlock() { l.unlock(); }
};
typedef mutex spinlock;
typedef mutex no_mutex_;
class recursive_mutex {
  mc::Lock l;
  int owner = -1, depth = 0;
public:
  void lock() {
    if (depth && owner == mc::current_task()) { depth++; return; }
    l.lock();
    owner = mc::current_task();
    depth = 1;
  }
  void unlock() { if (--depth == 0) l.unlock(); }
};
class latch {
  mc::Counter c;
public:
  explicit latch(std::ptrdiff_t n) { c.value = n; }
  void count_down(std::ptrdiff_t n) { c.add(-n); mc::point(); }
  void count_down_and_wait() { c.add(-1); c.wait_zero(); }
  void wait() { c.wait_zero(); }
  bool is_ready() const { return c.value == 0; }
};
class event {
  mc::Flag f;
public:
  void set() { f.set(); mc::point(); }
  void wait() { f.wait(); }
};
} // namespace local
using hpx::future;
using hpx::shared_future;
template <typename T> using promise = local::promise<T>;
} // namespace lcos
template <typename T> using promise = lcos::local::promise<T>;
typedef lcos::local::mutex mutex_;

// ------------------------------------------------------------------------------------ waiting
template <typename T> void wait_all(std::vector<future<T>> &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename T> void wait_all(std::vector<future<T>> const &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename T> void wait_all(std::vector<future<T>> &&v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename T> void wait_all(std::vector<shared_future<T>> const &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename T, std::size_t N> void wait_all(std::array<future<T>, N> const &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename It> auto wait_all(It b, It e) -> typename std::enable_if<detail::is_future<typename std::iterator_traits<It>::value_type>::value>::type {
  for (; b != e; ++b) if (b->valid()) b->wait();
}
inline void wait_all() {}
namespace detail {
inline void wait_each() {}
template <typename F, typename... R> void wait_each(F const &f, R const &... r) { if (f.valid()) f.wait(); wait_each(r...); }
}
template <typename T, typename... R> void wait_all(future<T> const &f, R const &... r) { detail::wait_each(f, r...); }
template <typename T, typename... R> void wait_all(shared_future<T> const &f, R const &... r) { detail::wait_each(f, r...); }
template <typename F> void wait_any(std::vector<F> const &v) {
  std::vector<mc::Flag *> fl;
  for (auto &f : v) fl.push_back(&f.s->flag);
  mc::wait_any(fl.data(), fl.size());
}
template <typename F> void wait_each(std::vector<F> &v) { wait_all(v); }
template <typename Fn, typename F> auto wait_each(Fn &&fn, std::vector<F> &v) -> void {
  for (auto &f : v) { f.wait(); fn(std::move(f)); }
}

template <typename T> struct when_any_result { std::size_t index; T futures; };

namespace detail {
template <typename V> future<V> when_all_vec(V v) {
  state_ptr<V> st(new state<V>);
  auto body = [st, v = std::move(v)]() mutable {
    for (auto &f : v) if (f.valid()) f.wait();
    st->set(std::move(v));
  };
  mc::spawn(once(std::move(body)));
  return future<V>(st);
}
}
template <typename T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &v) { return detail::when_all_vec(std::move(v)); }
template <typename T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &&v) { return detail::when_all_vec(std::move(v)); }
template <typename T> future<std::vector<shared_future<T>>> when_all(std::vector<shared_future<T>> const &v) { return detail::when_all_vec(v); }
template <typename It> auto when_all(It b, It e) -> typename std::enable_if<detail::is_future<typename std::iterator_traits<It>::value_type>::value, future<std::vector<typename std::iterator_traits<It>::value_type>>>::type {
  std::vector<typename std::iterator_traits<It>::value_type> v;
  for (; b != e; ++b) v.push_back(std::move(*b));
  return detail::when_all_vec(std::move(v));
}
namespace detail {
template <typename Tup, std::size_t... I> void wait_tuple(Tup &t, iseq<I...>) { wait_each(std::get<I>(t)...); }
}
template <typename F, typename... R>
auto when_all(F &&f, R &&... r) -> typename std::enable_if<detail::is_future<typename std::decay<F>::type>::value, future<std::tuple<typename std::decay<F>::type, typename std::decay<R>::type...>>>::type {
  typedef std::tuple<typename std::decay<F>::type, typename std::decay<R>::type...> Tup;
  detail::state_ptr<Tup> st(new detail::state<Tup>);
  Tup t(std::move(f), std::move(r)...);
  auto body = [st, t = std::move(t)]() mutable {
    detail::wait_tuple(t, typename detail::mk_iseq<sizeof...(R) + 1>::type());
    st->set(std::move(t));
  };
  mc::spawn(detail::once(std::move(body)));
  return future<Tup>(st);
}
template <typename T> future<when_any_result<std::vector<future<T>>>> when_any(std::vector<future<T>> &v) {
  typedef when_any_result<std::vector<future<T>>> R;
  detail::state_ptr<R> st(new detail::state<R>);
  auto body = [st, v = std::move(v)]() mutable {
    wait_any(v);
    std::size_t i = 0;
    while (i < v.size() && !v[i].is_ready()) i++;
    st->set(R{i, std::move(v)});
  };
  mc::spawn(detail::once(std::move(body)));
  return future<R>(st);
}

// ------------------------------------------------------------------------------------ unwrapped
namespace util {
namespace detail_ {
using hpx::detail::is_future;
template <typename T> struct val { static T &&get(T &&t) { return std::forward<T>(t); } typedef std::tuple<T> tup; };
// turns one argument into a tuple of the arguments passed on
template <typename T> auto one(T &&t) -> typename std::enable_if<!is_future<typename std::decay<T>::type>::value, std::tuple<T &&>>::type { return std::tuple<T &&>(std::forward<T>(t)); }
template <typename T> std::tuple<T> one(future<T> &&f) { return std::tuple<T>(f.get()); }
template <typename T> std::tuple<T> one(future<T> &f) { return std::tuple<T>(f.get()); }
inline std::tuple<> one(future<void> &&f) { f.get(); return std::tuple<>(); }
inline std::tuple<> one(future<void> &f) { f.get(); return std::tuple<>(); }
template <typename T> std::tuple<T> one(shared_future<T> const &f) { return std::tuple<T>(f.get()); }
inline std::tuple<> one(shared_future<void> const &f) { f.get(); return std::tuple<>(); }
template <typename T> std::tuple<std::vector<T>> one(std::vector<future<T>> &&v) {
  std::vector<T> r;
  for (auto &f : v) r.push_back(f.get());
  return std::tuple<std::vector<T>>(std::move(r));
}
inline std::tuple<> one(std::vector<future<void>> &&v) {
  for (auto &f : v) f.get();
  return std::tuple<>();
}
template <typename F, typename Tup, std::size_t... I> auto call(F &f, Tup &&t, hpx::detail::iseq<I...>) -> decltype(f(std::get<I>(std::move(t))...)) { return f(std::get<I>(std::move(t))...); }
template <typename F> struct unwrapped_fn {
  F f;
  template <typename... A> auto operator()(A &&... a) -> decltype(call(f, std::tuple_cat(one(std::forward<A>(a))...), typename hpx::detail::mk_iseq<std::tuple_size<decltype(std::tuple_cat(one(std::forward<A>(a))...))>::value>::type())) {
    auto t = std::tuple_cat(one(std::forward<A>(a))...);
    return call(f, std::move(t), typename hpx::detail::mk_iseq<std::tuple_size<decltype(t)>::value>::type());
  }
};
template <typename F, bool = is_future<typename std::decay<F>::type>::value> struct make {
  typedef unwrapped_fn<typename std::decay<F>::type> type;
  static type go(F &&f) { return type{std::forward<F>(f)}; }
};
template <typename F> struct make<F, true> {
  typedef decltype(std::declval<typename std::decay<F>::type &>().get()) type;
  static type go(F &&f) { return f.get(); }
};
}
template <typename F> typename detail_::make<F>::type unwrapped(F &&f) { return detail_::make<F>::go(std::forward<F>(f)); }
template <typename T> std::vector<T> unwrapped(std::vector<future<T>> &&v) {
  std::vector<T> r;
  for (auto &f : v) r.push_back(f.get());
  return r;
}
template <typename T> std::vector<T> unwrapped(std::vector<future<T>> &v) { return unwrapped(std::move(v)); }
inline void unwrapped(std::vector<future<void>> &&v) { for (auto &f : v) f.get(); }
inline void unwrapped(std::vector<future<void>> &v) { for (auto &f : v) f.get(); }
template <typename F> auto unwrapping(F &&f) -> detail_::unwrapped_fn<typename std::decay<F>::type> { return detail_::unwrapped_fn<typename std::decay<F>::type>{std::forward<F>(f)}; }
template <typename F> auto unwrap(F &&f) -> decltype(unwrapped(std::forward<F>(f))) { return unwrapped(std::forward<F>(f)); }
template <typename F> auto unwrapped2(F &&f) -> detail_::unwrapped_fn<typename std::decay<F>::type> { return detail_::unwrapped_fn<typename std::decay<F>::type>{std::forward<F>(f)}; }

// ------------------------------------------------------------------------------------ small utilities
class high_resolution_timer {
  std::chrono::steady_clock::time_point t0;
public:
  high_resolution_timer() : t0(std::chrono::steady_clock::now()) {}
  void restart() { t0 = std::chrono::steady_clock::now(); }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() + 1e-9; }
  std::int64_t elapsed_microseconds() const { return (std::int64_t)(elapsed() * 1e6); }
  std::int64_t elapsed_nanoseconds() const { return (std::int64_t)(elapsed() * 1e9); }
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
};
template <typename F, typename... A> auto bind(F &&f, A &&... a) -> decltype(std::bind(std::forward<F>(f), std::forward<A>(a)...)) { return std::bind(std::forward<F>(f), std::forward<A>(a)...); }
using std::get;
using std::make_tuple;
using std::tuple;
template <typename S> using function = std::function<S>;
template <typename S> using function_nonser = std::function<S>;
template <typename S> using unique_function = std::function<S>;

class iterator_core_access {
public:
  template <typename I> static void increment(I &i) { i.increment(); }
  template <typename I> static void decrement(I &i) { i.decrement(); }
  template <typename I, typename D> static void advance(I &i, D n) { i.advance(n); }
  template <typename I, typename J> static bool equal(I const &a, J const &b) { return a.equal(b); }
  template <typename I> static auto dereference(I const &i) -> decltype(i.dereference()) { return i.dereference(); }
  template <typename I, typename J> static auto distance_to(I const &a, J const &b) -> decltype(a.distance_to(b)) { return a.distance_to(b); }
};
template <typename Derived, typename T, typename Category, typename Reference = T &, typename Distance = std::ptrdiff_t, typename Pointer = void>
class iterator_facade {
public:
  typedef typename std::remove_const<T>::type value_type;
  typedef Reference reference;
  typedef typename std::conditional<std::is_void<Pointer>::value, typename std::add_pointer<T>::type, Pointer>::type pointer;
  typedef Distance difference_type;
  typedef Category iterator_category;
  Derived &derived() { return *static_cast<Derived *>(this); }
  Derived const &derived() const { return *static_cast<Derived const *>(this); }
  Reference operator*() const { return iterator_core_access::dereference(derived()); }
  Derived &operator++() { iterator_core_access::increment(derived()); return derived(); }
  Derived operator++(int) { Derived c(derived()); iterator_core_access::increment(derived()); return c; }
  Derived &operator--() { iterator_core_access::decrement(derived()); return derived(); }
  template <typename D> Derived &operator+=(D n) { iterator_core_access::advance(derived(), n); return derived(); }
  template <typename D> Derived operator+(D n) const { Derived c(derived()); iterator_core_access::advance(c, n); return c; }
  friend bool operator==(Derived const &a, Derived const &b) { return iterator_core_access::equal(a, b); }
  friend bool operator!=(Derived const &a, Derived const &b) { return !iterator_core_access::equal(a, b); }
  template <typename D2> auto operator-(D2 const &o) const -> decltype(iterator_core_access::distance_to(o, std::declval<Derived const &>())) { return iterator_core_access::distance_to(o, derived()); }
};
} // namespace util
using util::unwrapping;

// ------------------------------------------------------------------------------------ ids, components
namespace detail { template <typename T> struct holder; }
struct id_type {
  enum management_type { unmanaged, managed, managed_move_credit };
  int loc = -1; // locality id, or -1
  detail::rc<mc::Instance> inst;
  id_type() {}
  explicit id_type(int l) : loc(l) {}
  explicit id_type(detail::rc<mc::Instance> i) : inst(std::move(i)) {}
  int locality() const { return inst ? inst->locality : loc; }
  explicit operator bool() const { return loc >= 0 || inst; }
  long key() const { return inst ? (1l << 32) + inst->serial : loc; }
  friend bool operator==(id_type const &a, id_type const &b) { return a.key() == b.key(); }
  friend bool operator!=(id_type const &a, id_type const &b) { return a.key() != b.key(); }
  friend bool operator<(id_type const &a, id_type const &b) { return a.key() < b.key(); }
  friend std::ostream &operator<<(std::ostream &o, id_type const &i) { return o << "{id " << i.key() << "}"; }
  void make_unmanaged() {}
};
static const id_type invalid_id;
namespace naming {
typedef hpx::id_type id_type;
typedef hpx::id_type gid_type;
inline std::uint32_t get_locality_id_from_id(id_type const &i) { return (std::uint32_t)i.locality(); }
inline std::uint32_t get_locality_id_from_gid(id_type const &i) { return (std::uint32_t)i.locality(); }
inline id_type get_locality_from_id(id_type const &i) { return id_type(i.locality()); }
static const id_type invalid_id;
}
inline id_type find_here() { return id_type(mc::current_locality()); }
inline id_type find_root_locality() { return id_type(0); }
inline id_type find_locality() { return id_type(0); }
inline std::vector<id_type> find_all_localities() {
  std::vector<id_type> v;
  int n = mc::env().localities;
  for (int i = 0; i < n; i++) v.push_back(id_type((i + mc::env().locality_order) % n));
  return v;
}
inline std::vector<id_type> find_remote_localities() {
  std::vector<id_type> v;
  for (auto &i : find_all_localities()) if (i != find_here()) v.push_back(i);
  return v;
}
inline future<std::uint32_t> get_num_localities() { return make_ready_future<std::uint32_t>((std::uint32_t)mc::env().localities); }
inline std::uint32_t get_num_localities(launch) { return (std::uint32_t)mc::env().localities; }
inline std::uint32_t get_initial_num_localities() { return (std::uint32_t)mc::env().localities; }
inline std::uint32_t get_locality_id() { return (std::uint32_t)mc::current_locality(); }
inline std::size_t get_os_thread_count() { return (std::size_t)mc::env().omp_threads; }
inline std::size_t get_num_worker_threads() { return (std::size_t)mc::env().omp_threads; }
inline std::size_t get_worker_thread_num() { return 0; }
inline future<id_type> get_colocation_id(id_type const &i) { return make_ready_future(id_type(i.locality())); }
inline bool is_running() { return true; }

namespace components {
struct component_tag {};
template <typename T> struct component_base : component_tag {
  mc::Instance *self_ = nullptr;
  id_type get_id() const { return id_type(detail::rc<mc::Instance>(self_)); }
  id_type get_unmanaged_id() const { return get_id(); }
  void finalize() {}
  typedef T wrapped_type;
};
template <typename T> struct managed_component_base : component_base<T> {};
template <typename T> struct simple_component_base : component_base<T> {};
template <typename T> struct locking_hook : T { using T::T; };
template <typename T> struct component { typedef T type; };
template <typename T> struct managed_component { typedef T type; };
template <typename T> struct simple_component { typedef T type; };
}
namespace detail {
template <typename T> struct type_tag { static char tag; };
template <typename T> char type_tag<T>::tag = 0;
template <typename T> struct holder : mc::Instance {
  T object;
  template <typename... A> explicit holder(int loc, A &&... a) : object(std::forward<A>(a)...) {
    locality = loc;
    type = &type_tag<T>::tag;
    object.self_ = this;
    mc::instance_created(this);
  }
  ~holder() { mc::instance_destroyed(this); }
};
template <typename T, std::size_t... I, typename Tup> rc<mc::Instance> construct(int loc, Tup &t, iseq<I...>) {
  return rc<mc::Instance>(new holder<T>(loc, std::move(std::get<I>(t))...));
}
template <typename T, typename... A> future<id_type> create(int loc, A &&... a) {
  mc::check_locality(loc);
  std::tuple<typename std::decay<A>::type...> t(std::forward<A>(a)...);
  state_ptr<id_type> s(new state<id_type>);
  run_task<id_type>(s, [t = std::move(t), loc]() mutable { return id_type(construct<T>(loc, t, typename mk_iseq<sizeof...(A)>::type())); }, loc);
  return future<id_type>(s);
}
template <typename T> T *target(id_type const &id) {
  if (!id.inst) throw hpx::exception(bad_parameter, "action on an invalid id");
  if (id.inst->type != &type_tag<T>::tag) throw hpx::exception(bad_parameter, "action on a component of another type");
  return &static_cast<holder<T> *>(id.inst.p)->object;
}
struct registration : mc::Obj { // binds a name for as long as the client lives
  std::string name;
  rc<mc::Instance> inst;
  bool bound = false;
  ~registration() { if (bound) mc::unregister_name(name, inst.p); }
};
} // namespace detail

namespace components {
template <typename T> class client {
public:
  typedef T server_component_type;
  mutable shared_future<id_type> f;
  detail::rc<detail::registration> reg;
  mutable std::string name;
  client() {}
  client(id_type const &id) : f(make_ready_future(id)) {}
  client(future<id_type> &&fu) : f(std::move(fu)) {}
  client(shared_future<id_type> const &fu) : f(fu) {}
  client(future<client> &&fu) { *this = fu.get(); }
  id_type get_id() const { resolve(); return f.get(); }
  id_type get_gid() const { return get_id(); }
  id_type const get_raw_gid() const { return get_id(); }
  bool valid() const { return f.valid() || !name.empty(); }
  bool is_ready() const { return f.is_ready(); }
  void wait() const { resolve(); f.wait(); }
  explicit operator bool() const { return valid(); }
  id_type get() const { return get_id(); }
  shared_future<id_type> share() const { resolve(); return f; }
  void reset() { *this = client(); }
  void free() { *this = client(); }
  future<bool> register_as(std::string const &n, bool manage_lifetime = true) {
    (void)manage_lifetime;
    detail::rc<detail::registration> r(new detail::registration);
    r->name = n;
    r->inst = get_id().inst;
    r->bound = mc::register_name(n, r->inst.p);
    bool ok = r->bound;
    reg = r;
    return make_ready_future(ok);
  }
  void register_as(launch, std::string const &n, bool manage_lifetime = true) { register_as(n, manage_lifetime); }
  std::string const &registered_name() const { return reg->name; }
  void connect_to(std::string const &n) { name = n; f = shared_future<id_type>(); }
  void resolve() const {
    if (f.valid() || name.empty()) return;
    f = make_ready_future(id_type(detail::rc<mc::Instance>::adopt(mc::resolve_name(name))));
  }
};
template <typename D, typename T> class client_base : public client<T> {
public:
  using client<T>::client;
  typedef client<T> base_type;
  client_base() {}
};
template <typename T> future<T *> get_ptr_dummy();
} // namespace components
template <typename T> future<std::shared_ptr<T>> get_ptr(id_type const &id) {
  id_type keep(id);
  return make_ready_future(std::shared_ptr<T>(detail::target<T>(id), [keep](T *) {}));
}

struct default_distribution_policy {
  std::vector<id_type> locs;
  std::vector<id_type> const &get_locs() const { return locs; }
  std::size_t num_localities() const { return locs.empty() ? 1 : locs.size(); }
  default_distribution_policy operator()(std::vector<id_type> const &l) const { return default_distribution_policy{l}; }
  default_distribution_policy operator()(id_type const &l) const { return default_distribution_policy{{l}}; }
  default_distribution_policy operator()() const { return default_distribution_policy{}; }
};
typedef default_distribution_policy binpacking_distribution_policy;
typedef default_distribution_policy colocating_distribution_policy;
namespace components { using hpx::default_distribution_policy; }
static const default_distribution_policy default_layout{};

namespace detail {
inline int loc_of(id_type const &i) { return i.locality(); }
inline int loc_of(default_distribution_policy const &p) { return p.locs.empty() ? mc::current_locality() : p.locs[0].locality(); }
template <typename C> struct creator { // plain component type -> future<id_type>
  typedef future<id_type> type;
  template <typename W, typename... A> static type go(W const &w, A &&... a) { return create<C>(loc_of(w), std::forward<A>(a)...); }
};
template <typename T> struct creator<components::client<T>> {
  typedef components::client<T> type;
  template <typename W, typename... A> static type go(W const &w, A &&... a) { return type(create<T>(loc_of(w), std::forward<A>(a)...)); }
};
inline std::vector<int> places(default_distribution_policy const &p, std::size_t n) {
  std::vector<id_type> l = p.locs;
  if (l.empty()) l.push_back(find_here());
  std::vector<int> r;
  std::size_t m = l.size(), per = (n + m - 1) / (m ? m : 1);
  for (std::size_t i = 0; i < n; i++) r.push_back(l[per ? std::min(i / per, m - 1) : 0].locality());
  return r;
}
inline std::vector<int> places(id_type const &p, std::size_t n) { return std::vector<int>(n, p.locality()); }
template <typename C> struct creator<C[]> {
  typedef future<std::vector<id_type>> type;
  template <typename W, typename... A> static type go(W const &w, std::size_t n, A const &... a) {
    std::vector<future<id_type>> fs;
    for (int l : places(w, n)) fs.push_back(create<C>(l, a...));
    state_ptr<std::vector<id_type>> s(new state<std::vector<id_type>>);
    run_task<std::vector<id_type>>(s, [fs = std::move(fs)]() mutable {
      std::vector<id_type> r;
      for (auto &f : fs) r.push_back(f.get());
      return r;
    }, -1);
    return type(s);
  }
};
template <typename T> struct creator<components::client<T>[]> {
  typedef future<std::vector<components::client<T>>> type;
  template <typename W, typename... A> static type go(W const &w, std::size_t n, A const &... a) {
    std::vector<future<id_type>> fs;
    for (int l : places(w, n)) fs.push_back(create<T>(l, a...));
    typedef std::vector<components::client<T>> V;
    state_ptr<V> s(new state<V>);
    run_task<V>(s, [fs = std::move(fs)]() mutable {
      V r;
      for (auto &f : fs) {
        f.wait();
        r.push_back(components::client<T>(std::move(f)));
      }
      return r;
    }, -1);
    return type(s);
  }
};
} // namespace detail
template <typename C, typename W, typename... A> typename detail::creator<C>::type new_(W const &w, A &&... a) { return detail::creator<C>::go(w, std::forward<A>(a)...); }
template <typename C, typename... A> id_type local_new_sync(A &&... a) { return new_<C>(find_here(), std::forward<A>(a)...).get(); }
template <typename C, typename... A> auto local_new(A &&... a) -> decltype(new_<C>(find_here(), std::forward<A>(a)...)) { return new_<C>(find_here(), std::forward<A>(a)...); }

// ------------------------------------------------------------------------------------ actions
namespace actions {
struct action_tag {};
template <typename Sig, Sig F, typename Derived> struct component_action;
template <typename R, typename C, typename... P, R (C::*F)(P...), typename D> struct component_action<R (C::*)(P...), F, D> : action_tag {
  typedef R result_type;
  typedef C component_type;
  typedef std::tuple<typename std::decay<P>::type...> args;
  template <std::size_t... I> static R call(id_type const &id, args &a, detail::iseq<I...>) { return (detail::target<C>(id)->*F)(std::move(std::get<I>(a))...); }
  static R run(id_type const &id, args &a) {
    mc::FaultKind bad = mc::action_starts(mc::current_locality());
    if (bad == mc::FAULT_HPX) throw hpx::exception(network_error, "the node failed");
    if (bad == mc::FAULT_MEMORY) throw std::bad_alloc();
    if (bad == mc::FAULT_RESULT_LOST) {
      call(id, a, typename detail::mk_iseq<sizeof...(P)>::type());
      throw hpx::exception(network_error, "the node failed");
    }
    return call(id, a, typename detail::mk_iseq<sizeof...(P)>::type());
  }
  template <typename I, typename... A> R operator()(I const &id, A &&... a) const;
};
template <typename R, typename C, typename... P, R (C::*F)(P...) const, typename D> struct component_action<R (C::*)(P...) const, F, D> : action_tag {
  typedef R result_type;
  typedef C component_type;
  typedef std::tuple<typename std::decay<P>::type...> args;
  template <std::size_t... I> static R call(id_type const &id, args &a, detail::iseq<I...>) { return (detail::target<C>(id)->*F)(std::move(std::get<I>(a))...); }
  static R run(id_type const &id, args &a) {
    mc::FaultKind bad = mc::action_starts(mc::current_locality());
    if (bad == mc::FAULT_HPX) throw hpx::exception(network_error, "the node failed");
    if (bad == mc::FAULT_MEMORY) throw std::bad_alloc();
    if (bad == mc::FAULT_RESULT_LOST) {
      call(id, a, typename detail::mk_iseq<sizeof...(P)>::type());
      throw hpx::exception(network_error, "the node failed");
    }
    return call(id, a, typename detail::mk_iseq<sizeof...(P)>::type());
  }
  template <typename I, typename... A> R operator()(I const &id, A &&... a) const;
};
template <typename Sig, Sig F, typename Derived> struct plain_action;
template <typename R, typename... P, R (*F)(P...), typename D> struct plain_action<R (*)(P...), F, D> : action_tag {
  typedef R result_type;
  typedef std::tuple<typename std::decay<P>::type...> args;
  template <std::size_t... I> static R call(args &a, detail::iseq<I...>) { return F(std::move(std::get<I>(a))...); }
  static R run(id_type const &, args &a) { return call(a, typename detail::mk_iseq<sizeof...(P)>::type()); }
  template <typename I, typename... A> R operator()(I const &id, A &&... a) const;
};
} // namespace actions

namespace detail {
inline id_type as_id(id_type const &i) { return i; }
template <typename T> id_type as_id(components::client<T> const &c) { return c.get_id(); }
inline id_type as_id(shared_future<id_type> const &f) { return f.get(); }
template <typename Action, typename... A> future<typename Action::result_type> async_action(launch pol, id_type id, A &&... a) {
  typedef typename Action::result_type R;
  typename Action::args args(std::forward<A>(a)...);
  state_ptr<R> s(new state<R>);
  int loc = id.locality();
  mc::check_locality(loc);
  auto run = [id, args = std::move(args)]() mutable { return Action::run(id, args); };
  if (pol == launch::sync && loc == mc::current_locality()) {
    fulfil<R>::go(&*s, run);
  } else
    run_task<R>(s, std::move(run), loc);
  return future<R>(s);
}
template <typename T> struct is_launch : std::is_same<typename std::decay<T>::type, launch> {};
template <typename T> struct is_action : std::is_base_of<actions::action_tag, typename std::decay<T>::type> {};

template <typename R> struct flat { typedef R type; };
template <typename F, typename... A> auto async_fn(launch pol, F &&f, A &&... a) -> future<decltype(detail::invoke(std::declval<typename std::decay<F>::type>(), std::declval<typename std::decay<A>::type>()...))> {
  typedef deferred_call<typename std::decay<F>::type, typename std::decay<A>::type...> D;
  typedef typename D::result R;
  D d(0, std::forward<F>(f), std::forward<A>(a)...);
  state_ptr<R> s(new state<R>);
  if (pol == launch::sync) fulfil<R>::go(&*s, d);
  else if (pol == launch::deferred) {
    state<R> *raw = &*s; // the state owns the function, no cycle
    s->deferred = once([raw, d = std::move(d)]() mutable { fulfil<R>::go(raw, d); });
  } else
    run_task<R>(s, std::move(d), -1);
  return future<R>(s);
}
}

// async
template <typename Action, typename I, typename... A>
auto async(I const &id, A &&... a) -> typename std::enable_if<detail::is_action<Action>::value && !detail::is_launch<I>::value, future<typename Action::result_type>>::type {
  return detail::async_action<Action>(launch::async, detail::as_id(id), std::forward<A>(a)...);
}
template <typename Action, typename I, typename... A>
auto async(launch p, I const &id, A &&... a) -> typename std::enable_if<detail::is_action<Action>::value, future<typename Action::result_type>>::type {
  return detail::async_action<Action>(p, detail::as_id(id), std::forward<A>(a)...);
}
template <typename Act, typename I, typename... A>
auto async(Act const &, I const &id, A &&... a) -> typename std::enable_if<detail::is_action<Act>::value, future<typename Act::result_type>>::type {
  return detail::async_action<Act>(launch::async, detail::as_id(id), std::forward<A>(a)...);
}
template <typename F, typename... A>
auto async(F &&f, A &&... a) -> typename std::enable_if<!detail::is_action<F>::value && !detail::is_launch<F>::value, decltype(detail::async_fn(launch::async, std::forward<F>(f), std::forward<A>(a)...))>::type {
  return detail::async_fn(launch::async, std::forward<F>(f), std::forward<A>(a)...);
}
template <typename F, typename... A>
auto async(launch p, F &&f, A &&... a) -> typename std::enable_if<!detail::is_action<F>::value && !detail::is_launch<F>::value, decltype(detail::async_fn(p, std::forward<F>(f), std::forward<A>(a)...))>::type {
  return detail::async_fn(p, std::forward<F>(f), std::forward<A>(a)...);
}
// apply
template <typename Action, typename I, typename... A>
auto apply(I const &id, A &&... a) -> typename std::enable_if<detail::is_action<Action>::value, bool>::type {
  detail::async_action<Action>(launch::async, detail::as_id(id), std::forward<A>(a)...);
  return true;
}
template <typename F, typename... A>
auto apply(F &&f, A &&... a) -> typename std::enable_if<!detail::is_action<F>::value, bool>::type {
  detail::async_fn(launch::async, std::forward<F>(f), std::forward<A>(a)...);
  return true;
}
namespace actions {
template <typename R, typename C, typename... P, R (C::*F)(P...), typename D> template <typename I, typename... A>
R component_action<R (C::*)(P...), F, D>::operator()(I const &id, A &&... a) const { return detail::async_action<D>(launch::async, detail::as_id(id), std::forward<A>(a)...).get(); }
template <typename R, typename C, typename... P, R (C::*F)(P...) const, typename D> template <typename I, typename... A>
R component_action<R (C::*)(P...) const, F, D>::operator()(I const &id, A &&... a) const { return detail::async_action<D>(launch::async, detail::as_id(id), std::forward<A>(a)...).get(); }
template <typename R, typename... P, R (*F)(P...), typename D> template <typename I, typename... A>
R plain_action<R (*)(P...), F, D>::operator()(I const &id, A &&... a) const { return detail::async_action<D>(launch::async, detail::as_id(id), std::forward<A>(a)...).get(); }
}

// dataflow
namespace detail {
template <typename T> auto df_wait(T const &t, int) -> decltype(t.wait(), void()) { if (t.valid()) t.wait(); }
template <typename T> auto df_wait(std::vector<T> const &v, int) -> decltype(v[0].wait(), void()) { for (auto &f : v) if (f.valid()) f.wait(); }
template <typename T> void df_wait(T const &, long) {}
template <typename Tup, std::size_t... I> void df_wait_all(Tup &t, iseq<I...>) { int d[] = {0, (df_wait(std::get<I>(t), 0), 0)...}; (void)d; }
template <typename F, typename Tup, std::size_t... I> auto df_call(F &f, Tup &t, iseq<I...>) -> decltype(f(std::move(std::get<I>(t))...)) { return f(std::move(std::get<I>(t))...); }
template <typename T> struct unfuture { typedef T type; };
template <typename T> struct unfuture<future<T>> { typedef T type; };
template <typename T> struct unfuture<shared_future<T>> { typedef T type; };
template <typename F, typename... A> auto dataflow_(F &&f, A &&... a) -> future<typename unfuture<decltype(std::declval<typename std::decay<F>::type &>()(std::declval<typename std::decay<A>::type>()...))>::type> {
  typedef decltype(std::declval<typename std::decay<F>::type &>()(std::declval<typename std::decay<A>::type>()...)) raw;
  typedef typename unfuture<raw>::type R;
  typedef std::tuple<typename std::decay<A>::type...> Tup;
  state_ptr<R> st(new state<R>);
  auto body = [st, fn = typename std::decay<F>::type(std::forward<F>(f)), t = Tup(std::forward<A>(a)...)]() mutable {
    df_wait_all(t, typename mk_iseq<sizeof...(A)>::type());
    chain<R>::go(&*st, [&] { return df_call(fn, t, typename mk_iseq<sizeof...(A)>::type()); }, is_future<raw>());
  };
  mc::spawn(once(std::move(body)));
  return future<R>(st);
}
}
template <typename F, typename... A> auto dataflow(F &&f, A &&... a) -> typename std::enable_if<!detail::is_launch<F>::value, decltype(detail::dataflow_(std::forward<F>(f), std::forward<A>(a)...))>::type { return detail::dataflow_(std::forward<F>(f), std::forward<A>(a)...); }
template <typename F, typename... A> auto dataflow(launch, F &&f, A &&... a) -> decltype(detail::dataflow_(std::forward<F>(f), std::forward<A>(a)...)) { return detail::dataflow_(std::forward<F>(f), std::forward<A>(a)...); }
namespace lcos { namespace local { using hpx::dataflow; } }

namespace this_thread {
inline void yield() { mc::point(); }
inline void suspend() { mc::point(); }
template <typename D> void sleep_for(D const &) { mc::point(); }
}
class thread {
  future<void> f;
public:
  thread() {}
  template <typename F, typename... A> explicit thread(F &&fn, A &&... a) : f(async(std::forward<F>(fn), std::forward<A>(a)...)) {}
  bool joinable() const { return f.valid(); }
  void join() { f.get(); }
  void detach() { f = future<void>(); }
};

// ------------------------------------------------------------------------------------ parallel algorithms
namespace parallel {
struct task_policy_tag {};
namespace execution {
struct static_chunk_size { long n; explicit static_chunk_size(std::size_t n_ = 0) : n((long)n_) {} };
struct dynamic_chunk_size { long n; explicit dynamic_chunk_size(std::size_t n_ = 1) : n((long)n_) {} };
struct guided_chunk_size { long n; explicit guided_chunk_size(std::size_t n_ = 1) : n((long)n_) {} };
struct auto_chunk_size { long n = 0; };
struct parallel_task_policy { long chunk = 0; bool par = true;
  template <typename C> parallel_task_policy with(C const &c) const { parallel_task_policy p(*this); p.chunk = c.n; return p; }
  template <typename E> parallel_task_policy on(E &&) const { return *this; } };
struct parallel_policy { long chunk = 0; bool par = true;
  parallel_task_policy operator()(task_policy_tag) const { return parallel_task_policy{chunk, true}; }
  template <typename C> parallel_policy with(C const &c) const { parallel_policy p(*this); p.chunk = c.n; return p; }
  template <typename E> parallel_policy on(E &&) const { return *this; } };
struct sequenced_policy { long chunk = 0; bool par = false;
  parallel_task_policy operator()(task_policy_tag) const { return parallel_task_policy{chunk, false}; }
  template <typename C> sequenced_policy with(C const &) const { return *this; }
  template <typename E> sequenced_policy on(E &&) const { return *this; } };
static const parallel_policy par{}, par_unseq{};
static const sequenced_policy seq{};
static const task_policy_tag task{};
typedef sequenced_policy sequential_policy;
} // namespace execution
using execution::static_chunk_size;
using execution::dynamic_chunk_size;
using execution::guided_chunk_size;
using execution::auto_chunk_size;
typedef execution::parallel_policy parallel_execution_policy;
typedef execution::sequenced_policy sequential_execution_policy;
static const execution::parallel_policy par{}, par_vec{}, par_unseq{};
static const execution::sequenced_policy seq{};
static const task_policy_tag task{};

namespace detail_ {
template <typename P> struct is_task : std::is_same<typename std::decay<P>::type, execution::parallel_task_policy> {};
// f(begin position, length) for every chunk
template <typename Body> void chunks(bool par, long chunk, std::size_t n, Body const &body) {
  if (!par) { body(0, n); return; }
  if (n == 0) return;
  long c = mc::env().chunk;
  (void)chunk;
  std::size_t per = c <= 0 ? n : (std::size_t)c;
  std::size_t parts = (n + per - 1) / per;
  std::vector<future<void>> fs;
  for (std::size_t i = 0; i < parts; i++) {
    std::size_t b = i * per, l = std::min(per, n - b);
    fs.push_back(hpx::async([body, b, l]() mutable { body(b, l); }));
  }
  std::vector<std::exception_ptr> ex;
  for (auto &f : fs) {
    try { f.get(); } catch (...) { ex.push_back(std::current_exception()); }
  }
  if (!ex.empty()) throw exception_list(ex);
}
template <typename P, typename R> struct ret { typedef typename std::conditional<is_task<P>::value, future<R>, R>::type type; };
template <typename R, typename W> future<R> wrap(W &&w, std::true_type) { return hpx::async(std::forward<W>(w)); }
template <typename R, typename W> R wrap(W &&w, std::false_type) { return w(); }

template <typename It, typename F> struct each_body {
  It first;
  F f;
  void operator()(std::size_t b, std::size_t l) const {
    F fn(f);
    It it(first);
    for (std::size_t i = 0; i < b; i++) ++it;
    for (std::size_t i = 0; i < l; i++) {
      fn(*it);
      if (i + 1 < l) ++it;
    }
  }
};
} // namespace detail_

template <typename P, typename It, typename Size, typename F> typename detail_::ret<P, It>::type for_each_n(P const &p, It first, Size n, F f) {
  long chunk = p.chunk;
  bool par = p.par;
  return detail_::wrap<It>([=]() -> It {
    detail_::each_body<It, F> body{first, f};
    detail_::chunks(par, chunk, n > Size(0) ? (std::size_t)n : 0, body);
    It last(first);
    for (std::size_t i = 0; i < (std::size_t)n; i++) ++last;
    return last;
  }, detail_::is_task<P>());
}
template <typename P, typename It, typename F> typename detail_::ret<P, It>::type for_each(P const &p, It first, It last, F f) {
  long chunk = p.chunk;
  bool par = p.par;
  return detail_::wrap<It>([=]() -> It {
    std::size_t n = 0;
    for (It it(first); it != last; ++it) n++;
    detail_::each_body<It, F> body{first, f};
    detail_::chunks(par, chunk, n, body);
    return last;
  }, detail_::is_task<P>());
}
namespace detail_ {
template <typename I> auto deref_index(I i, int) -> typename std::enable_if<std::is_integral<I>::value, I>::type { return i; }
template <typename I> auto deref_index(I i, long) -> typename std::enable_if<!std::is_integral<I>::value, I>::type { return i; }
template <typename I, typename S, typename F> struct loop_body {
  I first; S stride; F f;
  void operator()(std::size_t b, std::size_t l) const {
    F fn(f);
    for (std::size_t i = 0; i < l; i++) fn(I(first + (S)(b + i) * stride));
  }
};
}
template <typename P, typename B, typename E, typename F> auto for_loop(P const &p, B first_, E last_, F f) -> typename std::enable_if<!std::is_class<B>::value || true, typename detail_::ret<P, void>::type>::type {
  typedef typename std::conditional<std::is_integral<E>::value, E, B>::type I;
  I first = I(first_), last = I(last_);
  long chunk = p.chunk;
  bool par = p.par;
  return detail_::wrap<void>([=]() {
    std::size_t n = last > first ? (std::size_t)(last - first) : 0;
    detail_::loop_body<I, std::ptrdiff_t, F> body{first, 1, f};
    detail_::chunks(par, chunk, n, body);
  }, detail_::is_task<P>());
}
template <typename B, typename E, typename F, typename = typename std::enable_if<std::is_integral<B>::value>::type> void for_loop(B first, E last, F f) { for_loop(seq, first, last, f); }
template <typename P, typename B, typename S, typename F> typename detail_::ret<P, void>::type for_loop_n(P const &p, B first, S n, F f) { return for_loop(p, first, B(first + n), f); }
template <typename P, typename B, typename E, typename S, typename F> typename detail_::ret<P, void>::type for_loop_strided(P const &p, B first_, E last_, S stride, F f) {
  typedef typename std::conditional<std::is_integral<E>::value, E, B>::type I;
  I first = I(first_), last = I(last_);
  long chunk = p.chunk;
  bool par = p.par;
  return detail_::wrap<void>([=]() {
    std::size_t n = last > first ? (std::size_t)((last - first + stride - 1) / stride) : 0;
    detail_::loop_body<I, std::ptrdiff_t, F> body{first, (std::ptrdiff_t)stride, f};
    detail_::chunks(par, chunk, n, body);
  }, detail_::is_task<P>());
}
template <typename P, typename It, typename T> typename detail_::ret<P, It>::type fill(P const &p, It first, It last, T const &v) {
  return for_each(p, first, last, [v](typename std::iterator_traits<It>::value_type &x) { x = v; });
}
template <typename P, typename It, typename S, typename T> typename detail_::ret<P, It>::type fill_n(P const &p, It first, S n, T const &v) {
  return for_each_n(p, first, n, [v](typename std::iterator_traits<It>::value_type &x) { x = v; });
}
template <typename P, typename It, typename Out, typename F> Out transform(P const &p, It first, It last, Out out, F f) {
  std::ptrdiff_t n = std::distance(first, last);
  for_loop(p, std::ptrdiff_t(0), n, [=](std::ptrdiff_t i) { out[i] = f(first[i]); });
  return out + n;
}
template <typename P, typename It, typename It2, typename Out, typename F> Out transform(P const &p, It first, It last, It2 first2, Out out, F f) {
  std::ptrdiff_t n = std::distance(first, last);
  for_loop(p, std::ptrdiff_t(0), n, [=](std::ptrdiff_t i) { out[i] = f(first[i], first2[i]); });
  return out + n;
}
template <typename P, typename It, typename Out> Out copy(P const &p, It first, It last, Out out) {
  std::ptrdiff_t n = std::distance(first, last);
  for_loop(p, std::ptrdiff_t(0), n, [=](std::ptrdiff_t i) { out[i] = first[i]; });
  return out + n;
}
namespace util = hpx::util;
} // namespace parallel
namespace execution = parallel::execution;

// ------------------------------------------------------------------------------------ serialization stubs
namespace serialization {
struct access {};
template <typename T> T &base_object(T &t) { return t; }
}
} // namespace hpx

// ------------------------------------------------------------------------------------ macros
#define HPX_DETAIL_COMPONENT_ACTION3(C, f, name)                                                                     \
  struct name : ::hpx::actions::component_action<decltype(&C::f), &C::f, name> {}
#define HPX_DETAIL_COMPONENT_ACTION2(C, f) HPX_DETAIL_COMPONENT_ACTION3(C, f, f##_action)
#define HPX_DETAIL_PICK3(a, b, c, d, ...) d
#define HPX_DEFINE_COMPONENT_ACTION(...)                                                                             \
  HPX_DETAIL_PICK3(__VA_ARGS__, HPX_DETAIL_COMPONENT_ACTION3, HPX_DETAIL_COMPONENT_ACTION2, )(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_CONST_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_DETAIL_PLAIN_ACTION2(f, name)                                                                            \
  struct name : ::hpx::actions::plain_action<decltype(&f), &f, name> {}
#define HPX_DETAIL_PLAIN_ACTION1(f) HPX_DETAIL_PLAIN_ACTION2(f, f##_action)
#define HPX_DETAIL_PICK2(a, b, c, ...) c
#define HPX_DEFINE_PLAIN_ACTION(...)                                                                                 \
  HPX_DETAIL_PICK2(__VA_ARGS__, HPX_DETAIL_PLAIN_ACTION2, HPX_DETAIL_PLAIN_ACTION1, )(__VA_ARGS__)
#define HPX_PLAIN_ACTION(...) HPX_DEFINE_PLAIN_ACTION(__VA_ARGS__)
#define HPX_PLAIN_DIRECT_ACTION(...) HPX_DEFINE_PLAIN_ACTION(__VA_ARGS__)
#define HPX_DETAIL_CAT(a, b) HPX_DETAIL_CAT_(a, b)
#define HPX_DETAIL_CAT_(a, b) a##b
#define HPX_DETAIL_NOTHING struct HPX_DETAIL_CAT(hpx_shim_nothing_, __COUNTER__)
#define HPX_REGISTER_ACTION(...) HPX_DETAIL_NOTHING
#define HPX_REGISTER_ACTION_DECLARATION(...) HPX_DETAIL_NOTHING
#define HPX_REGISTER_PLAIN_ACTION(...) HPX_DETAIL_NOTHING
#define HPX_REGISTER_COMPONENT(...) HPX_DETAIL_NOTHING
#define HPX_REGISTER_COMPONENT_MODULE() HPX_DETAIL_NOTHING
#define HPX_REGISTER_MINIMAL_COMPONENT_FACTORY(...) HPX_DETAIL_NOTHING
#define HPX_ACTION_USES_LARGE_STACK(...) HPX_DETAIL_NOTHING
#define HPX_ACTION_USES_MEDIUM_STACK(...) HPX_DETAIL_NOTHING
#define HPX_ACTION_USES_HUGE_STACK(...) HPX_DETAIL_NOTHING
#define HPX_ACTION_HAS_LOW_PRIORITY(...) HPX_DETAIL_NOTHING
#define HPX_COMPONENT_EXPORT
#define HPX_EXPORT
#define HPX_MOVABLE_ONLY(x) HPX_DETAIL_NOTHING
#define HPX_ASSERT(x) ((x) ? (void)0 : ::mc::fail("HPX_ASSERT failed: %s", #x))
#define HPX_APPLICATION_STRING "matrix_multiply"
#define HPX_UNUSED(x) (void)x
#define HPX_THROW_EXCEPTION(e, f, ...) throw ::hpx::exception(e, f)
#define HPX_STD_FUNCTION ::std::function
#define HPX_FORWARD(T, ...) std::forward<T>(__VA_ARGS__)
#define HPX_MOVE(...) std::move(__VA_ARGS__)
