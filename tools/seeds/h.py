IXV = 'src/variants/index_iterator.hpp'
IXM = 'src/memory_layout/index_iterator.hpp'
LO = 'src/variants/looped.hpp'
RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 3 "$T/out"; exit $r'
HL = ['mats.hpp', 'hpxlite.hpp']
seed('c22_marks_unchecked', 'C22', 'a list of parallel marks that is longer than the policy has dimensions',
     'too many parallel marks are accepted and ignored',
     [(IXV, '    if (block.size() != dim || parallel_dims.size() != dim) {\n', '    if (block.size() != dim || parallel_dims.size() < dim) {\n')],
     RUN, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/index_iterator.hpp"
int main() {
  for (size_t marks : {0, 1, 3, 4}) {
    index_iterator::blocking_pseudo_execution_policy<size_t> p(2);
    bool refused = false;
    try { p.add_blocking({2, 2}, std::vector<bool>(marks, false)); } catch (const std::exception &) { refused = true; }
    if (!refused) { std::printf("%zu marks are accepted for 2 dimensions\n", marks); return 1; }
  }
  return 0;
}
'''})
seed('c22_noexcept', 'C22', 'a function that throws within a parallel level',
     'the body of the parallel loop is declared noexcept, so an exception of the function ends the process',
     [(IXV, '&max, &block, f](const std::vector<size_t> &partial_index) {\n', '&max, &block, f](const std::vector<size_t> &partial_index) noexcept {\n')],
     RUN, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/index_iterator.hpp"
#include <stdexcept>
#include <csignal>
int main() {
  std::set_terminate([] { std::printf("the process is ended\n"); std::fflush(stdout); std::_Exit(1); });
  index_iterator::blocking_pseudo_execution_policy<size_t> p(2);
  p.add_blocking({2, 2}, {true, false});
  bool told = false;
  try {
    index_iterator::iterate_indices<2>(p, std::vector<size_t>{0, 0}, std::vector<size_t>{4, 4}, [](size_t x, size_t y) { if (x == 2 && y == 2) throw std::runtime_error("stop"); });
  } catch (...) { told = true; }
  if (!told) std::printf("no exception\n");
  return told ? 0 : 1;
}
'''})
seed('c22_early_push', 'C22', 'a program that goes on after a blocking of the wrong length was refused',
     'a refused blocking is kept by the policy',
     [(LO, '    if (block.size() != dim) { //  || dim_execution.size() != dim\n', '    blocking_configuration.push_back(block); //  || dim_execution.size() != dim\n    if (block.size() != dim) {\n'),
      (LO, '    blocking_configuration.push_back(\n        block); // std::make_pair(block, dim_execution)\n', '')],
     RUN, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/looped.hpp"
int main() {
  looped::blocking_pseudo_execution_policy<size_t> p(2);
  try { p.add_blocking({2, 2, 2}); } catch (const std::exception &) {}
  size_t n = 0;
  try {
    looped::iterate_indices(p, std::vector<size_t>{0, 0}, std::vector<size_t>{4, 4}, [&n](const std::vector<size_t> &) { n++; });
  } catch (...) {}
  if (n != 16) std::printf("%zu of 16 points are visited\n", n);
  return n != 16;
}
'''})
