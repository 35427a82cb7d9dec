// C16: exceptions and rejected tilings
#include "util/matrix_multiplication_exception.hpp"
#include "tiling.hpp"
#include <stdexcept>
using namespace vp;

static void disturb(int i) { // other activity between two reads
  std::string s(64 + i % 5 * 100, (char)('a' + i % 26));
  std::vector<std::string> v(10, s);
  scribble();
  try {
    if (i % 2) throw util::matrix_multiplication_exception("something else " + s);
    throw memory_layout::memory_layout_exception("something else " + s);
  } catch (const std::exception &e) {
    if (std::string(e.what()).size() < 10) mc::fail("disturbing exception has no text");
  }
}
template <typename E> static void expect(const char *when, const std::exception &e, const std::string &kind, const std::string &msg) {
  const char *w = e.what();
  if (!w) mc::fail("%s: what() is null", when);
  std::string got = w, prefix = kind + ": ", want = prefix + msg;
  want = want.c_str(); // what() is a C string
  if (got != want) mc::fail("%s: what() is \"%s\" instead of \"%s\"", when, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
  mc::count(0, 1);
}
template <typename E> static void message(const std::string &kind, const std::string &msg) {
  {
    E e(msg);
    for (int i = 0; i < 4; i++) {
      expect<E>("direct", e, kind, msg);
      disturb(i);
    }
    const char *kept = e.what();
    std::string copy_of = kept;
    disturb(7);
    e.what();
    if (copy_of != kept) mc::fail("text read earlier changed while the exception is alive");
    E c(e);
    expect<E>("copy", c, kind, msg);
    E d("other message which is long enough not to be stored in place");
    d = e;
    expect<E>("assigned", d, kind, msg);
    expect<E>("source of the copy", e, kind, msg);
    E *h = new E(msg), *h2 = new E(*h);
    delete h;
    disturb(3);
    expect<E>("copy that outlives the original", *h2, kind, msg);
    delete h2;
    E m(std::move(c));
    expect<E>("moved", m, kind, msg);
  }
  // from a message object that is gone
  {
    std::string *s = new std::string(msg);
    E e(*s);
    s->assign(s->size() + 50, '#');
    delete s;
    disturb(1);
    expect<E>("message object gone", e, kind, msg);
  }
  // thrown, caught in every way
  try {
    throw E(msg);
  } catch (const E &e) {
    disturb(2);
    expect<E>("caught", e, kind, msg);
  }
  try {
    throw E(msg);
  } catch (const std::exception &e) {
    disturb(2);
    expect<E>("caught as std::exception", e, kind, msg);
    expect<E>("caught as std::exception, again", e, kind, msg);
  } catch (...) {
    mc::fail("not caught as std::exception");
  }
  try {
    try {
      throw E(msg);
    } catch (std::exception &e) {
      disturb(5);
      throw;
    }
  } catch (const std::exception &e) {
    expect<E>("rethrown", e, kind, msg);
  }
  std::exception_ptr p;
  try {
    throw E(msg);
  } catch (...) {
    p = std::current_exception();
  }
  disturb(6);
  for (int i = 0; i < 2; i++) try {
      std::rethrow_exception(p);
    } catch (const std::exception &e) {
      expect<E>("stored exception", e, kind, msg);
    }
  // by value (a copy made by the handler)
  try {
    throw E(msg);
  } catch (E e) {
    disturb(4);
    expect<E>("caught by value", e, kind, msg);
  }
  // several alive at once
  {
    std::vector<E> v;
    for (int i = 0; i < 6; i++) v.push_back(E(msg + std::to_string(i)));
    for (int r = 0; r < 2; r++)
      for (int i = 5; i >= 0; i--) {
        // an embedded zero ends the C string before the number
        expect<E>("one of several", v[i], kind, msg + std::to_string(i));
      }
    const char *a = v[0].what(), *b = v[1].what();
    std::string sa = a, sb = b;
    if (sa != std::string((kind + ": " + msg + "0").c_str()) || sb != std::string((kind + ": " + msg + "1").c_str())) mc::fail("texts of two live exceptions are confused");
  }
  mc::count(1, 1);
}
static void both(const std::string &id, const std::string &msg) {
  mc::single("message " + id, [=] {
    message<util::matrix_multiplication_exception>("matrix_multiplication_exception", msg);
    message<memory_layout::memory_layout_exception>("memory_layout_exception", msg);
  });
}
// sequences of operations on two exception objects
static void histories() {
  // 0 read a, 1 read b, 2 a=b, 3 b=copy of a, 4 throw and catch a, 5 disturb
  const int D = mc::tier_thorough() ? 6 : 5;
  int total = 1;
  for (int i = 0; i < D; i++) total *= 6;
  for (int base = 0; base < total; base += 216)
    mc::single(strf("histories %d..", base), [=] {
      for (int h = base; h < std::min(base + 216, total); h++) {
        typedef util::matrix_multiplication_exception E;
        typedef memory_layout::memory_layout_exception F;
        std::string ma = "first message, a rather long one so that it lives on the heap", mb = "b", la = ma, lb = mb;
        E a(ma), b(mb);
        F fa(ma), fb(mb);
        for (int k = 0, x = h; k < D; k++, x /= 6) {
          switch (x % 6) {
          case 0: expect<E>("a", a, "matrix_multiplication_exception", la); expect<F>("a", fa, "memory_layout_exception", la); break;
          case 1: expect<E>("b", b, "matrix_multiplication_exception", lb); expect<F>("b", fb, "memory_layout_exception", lb); break;
          case 2: a = b; fa = fb; la = lb; break;
          case 3: b = E(a); fb = F(fa); lb = la; break;
          case 4:
            try { throw a; } catch (const std::exception &e) { expect<E>("thrown a", e, "matrix_multiplication_exception", la); }
            try { throw fa; } catch (const std::exception &e) { expect<F>("thrown a", e, "memory_layout_exception", la); }
            break;
          case 5: if (k == 0) disturb(h); break;
          }
        }
        expect<E>("a at the end", a, "matrix_multiplication_exception", la);
        expect<E>("b at the end", b, "matrix_multiplication_exception", lb);
        expect<F>("a at the end", fa, "memory_layout_exception", la);
        expect<F>("b at the end", fb, "memory_layout_exception", lb);
        mc::count(D, D);
      }
    });
}
// descriptions of the wrong number of dimensions
template <size_t dim, typename V> static void reject(const std::vector<memory_layout::tiling_info_dim> &info, size_t n) {
  for (int op = 0; op < 2; op++) {
    V arr(n);
    for (size_t i = 0; i < n; i++) arr[i] = Elem<typename V::value_type>::make(i);
    const V arr0 = arr;
    auto inf = info;
    const auto *place = arr.data();
    V res(3, Elem<typename V::value_type>::make(99));
    const V res0 = res;
    bool thrown = false;
    std::string text;
    try {
      if (op == 0) res = memory_layout::make_tiled<dim>(arr, inf);
      else res = memory_layout::undo_tiling<dim>(arr, inf);
    } catch (const memory_layout::memory_layout_exception &e) {
      thrown = true;
      text = e.what();
    } catch (const std::exception &e) {
      mc::fail("%s<%zu> with %zu descriptions is rejected with another exception: %s", op ? "undo_tiling" : "make_tiled", dim, info.size(), e.what());
    }
    if (!thrown) mc::fail("%s<%zu> accepts %zu descriptions", op ? "undo_tiling" : "make_tiled", dim, info.size());
    std::string prefix = "memory_layout_exception: ";
    if (text.compare(0, prefix.size(), prefix) || text.size() <= prefix.size()) mc::fail("%s<%zu> with %zu descriptions: text is \"%s\"", op ? "undo_tiling" : "make_tiled", dim, info.size(), text.c_str());
    if (!(arr == arr0) || arr.data() != place || !(res == res0)) mc::fail("%s<%zu> with %zu descriptions changed its argument or result", op ? "undo_tiling" : "make_tiled", dim, info.size());
    if (inf.size() != info.size()) mc::fail("the description was changed");
    for (size_t i = 0; i < inf.size(); i++)
      if (inf[i].stride != info[i].stride || inf[i].tile_size_dir != info[i].tile_size_dir) mc::fail("the description was changed");
    mc::count(1, 1);
  }
}
template <size_t dim> static void mismatches() {
  for (size_t k = 0; k <= 9; k++) {
    if (k == dim) continue;
    for (size_t e : {0, 1, 2, 4})
      mc::single(strf("dimension %zu, %zu descriptions of extent %zu", dim, k, e), [=] {
        for (size_t t = 1; t <= std::max<size_t>(e, 1); t++) {
          std::vector<memory_layout::tiling_info_dim> info(k);
          for (auto &i : info) i.stride = e, i.tile_size_dir = t;
          size_t full = 1;
          for (size_t d = 0; d < dim; d++) full *= e;
          for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)5, (size_t)16, full}) {
            if (n > 5000) continue;
            reject<dim, std::vector<double>>(info, n);
            reject<dim, std::vector<int>>(info, n);
            reject<dim, std::vector<std::string>>(info, std::min<size_t>(n, 20));
            reject<dim, std::vector<double, boost::alignment::aligned_allocator<double, 64>>>(info, n);
          }
        }
      });
  }
  // a rejection does not spoil later use
  mc::single(strf("dimension %zu: use after rejection", dim), [=] {
    for (size_t k = 0; k <= 9; k++) {
      if (k == dim) continue;
      std::vector<memory_layout::tiling_info_dim> bad(k), ok(dim);
      for (auto &i : bad) i.stride = 2, i.tile_size_dir = 1;
      for (auto &i : ok) i.stride = 2, i.tile_size_dir = 2;
      std::vector<double> a((size_t)1 << dim);
      for (size_t i = 0; i < a.size(); i++) a[i] = (double)i;
      reject<dim, std::vector<double>>(bad, a.size());
      if (memory_layout::make_tiled<dim>(a, ok) != a || memory_layout::undo_tiling<dim>(a, ok) != a) mc::fail("tiling with one tile changes the array after a rejection");
    }
  });
}
template <typename E> static void from_thread(const std::string &kind, int i) {
  std::string msg = strf("message of thread number %d, longer than what fits into a small string", i);
  E e(msg);
  mc::point();
  expect<E>("direct", e, kind, msg);
  E c(e);
  const char *kept = c.what();
  std::string before = kept;
  mc::point();
  if (before != kept) mc::fail("the text changed while another thread worked with an exception of its own");
  expect<E>("copy", c, kind, msg);
  E a("other");
  mc::point();
  a = c;
  mc::point();
  expect<E>("assigned", a, kind, msg);
}
static void concurrent() {
  for (int t : {2, 3}) {
    together(strf("exceptions %d", t), t, [](int i) {
      from_thread<memory_layout::memory_layout_exception>("memory_layout_exception", i);
      from_thread<util::matrix_multiplication_exception>("matrix_multiplication_exception", i);
    });
    together(strf("rejections %d", t), t, [](int i) {
      std::vector<memory_layout::tiling_info_dim> info(i % 2 ? 1 : 3);
      for (auto &d : info) d.stride = 2, d.tile_size_dir = 1;
      reject<2, std::vector<double>>(info, 4);
    });
  }
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  both("empty", "");
  for (int c = 0; c < 256; c++) {
    both(strf("byte %d", c), std::string(1, (char)c));
    both(strf("text with byte %d", c), std::string("before ") + (char)c + " after");
  }
  for (size_t len = 0; len <= 300; len++) {
    std::string m;
    for (size_t i = 0; i < len; i++) m += (char)('!' + (i * 7 + len) % 90);
    both(strf("length %zu", len), m);
  }
  for (size_t len : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 100000, 1000000}) both(strf("length %zu", len), std::string(len / 2, 'x') + std::string(len - len / 2, 'y'));
  for (const char *m : {"%s", "%n%n", "%d: %x", "memory_layout_exception: ", "matrix_multiplication_exception: ", ": ", "\n", "a\nb\n", "\"quoted\"", "\xc3\xa4\xc3\xb6", "tiling_info doesn't match specified dimension", "\\0", "   "}) both(std::string("text ") + m, m);
  // short alphabets, all messages up to length 4
  for (int len = 1; len <= 4; len++)
    for (int x = 0, n = 1 << (2 * len); x < n; x++) {
      std::string m;
      for (int i = 0; i < len; i++) m += "a:% "[(x >> (2 * i)) & 3];
      both(strf("word %d/%d", len, x), m);
    }
  histories();
  mismatches<1>();
  mismatches<2>();
  mismatches<3>();
  mismatches<4>();
  mismatches<5>();
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
