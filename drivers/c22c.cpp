#include "variants/looped.hpp"
#include "aligned_allocator.hpp"
#define IT looped
#define LOOPED
#include "c22.inc"
template <size_t S> struct Cell {
  unsigned char b[S];
};
template <typename T> static void requests(const char *type) {
  if (!mc::mode_is("fast")) return; // the sanitizers end the process instead of refusing huge requests
  const size_t whole = SIZE_MAX / sizeof(T);
  std::vector<size_t> counts;
  for (size_t shift = 0; shift < 12; shift++)
    for (size_t k = 0; k < 70; k++) counts.push_back((whole >> shift) - k);
  for (size_t k = 1; k <= 70; k++) counts.push_back(whole + k); // wraps around for more than one byte
  for (size_t align : {1, 2, 8, 16, 32, 64, 128, 512, 4096})
    mc::single(strf("requests for more than the address space, %s, alignment %zu", type, align), [=] {
      for (size_t n : counts) {
        if (sizeof(T) == 1 && n < 4096) continue; // whole + k is small again
        alignment::aligned_allocator a;
        T *p = nullptr;
        if (!refused("huge request", [&] { p = a.alloc<T>(n, align); })) mc::fail("%zu elements are granted", n);
        p = a.alloc<T>(3, align);
        if (!p || (uintptr_t)p % align) mc::fail("no memory or a wrong address after the refusal of %zu elements", n);
        for (size_t i = 0; i < 3; i++) p[i] = T();
        mc::count(1, 2);
      }
    });
}
template <typename T> static void again(const char *type) {
  for (size_t align : {1, 8, 64, 4096})
    mc::single(strf("second requests, %s, alignment %zu", type, align), [=] {
      for (size_t n : {0, 1, 2, 7})
        for (size_t m : {0, 1, 3, 9}) {
          alignment::aligned_allocator a;
          unsigned char *p = (unsigned char *)a.alloc<T>(n, align), *q = nullptr;
          for (size_t i = 0; i < n * sizeof(T); i++) p[i] = (unsigned char)(i * 7 + 1);
          for (int k = 0; k < 3; k++) {
            refused("second request", [&] { q = (unsigned char *)a.alloc<T>(m, align); });
            if (q && (uintptr_t)q % align) mc::fail("wrong address");
            for (size_t i = 0; q && i < m * sizeof(T); i++) q[i] = 255;
            for (size_t i = 0; i < n * sizeof(T); i++)
              if (p[i] != (unsigned char)(i * 7 + 1)) mc::fail("the second request of %zu elements changes the first %zu", m, n);
          }
          mc::count(1, 4);
        }
    });
}
static void enumerate() {
  driver_main_cases();
  requests<char>("1 byte"), requests<Cell<3>>("3 bytes"), requests<float>("float"), requests<double>("double"), requests<Cell<40>>("40 bytes");
  again<char>("1 byte"), again<double>("double"), again<Cell<40>>("40 bytes");
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
