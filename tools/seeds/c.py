RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
APP = 'src/matrix_multiply_application/matrix_multiply.cpp'
KT = 'src/reference_kernels/kernel_tiled.cpp'
CB = 'src/variants/combined.cpp'
BM = 'otherExperiments/benchmark.cpp'
AT = ['app.sh', 'appstub.hpp']
# seconds after a label in $T/out
SEC = 'secs() { sed -n "s/.*$1\\([0-9.e+-]*\\).*/\\1/p" "$T/out" | head -1; }\nless() { awk "BEGIN { exit !($1 < $2) }"; }\n'
seed('c19_last_repetition', 'C19', 'more than one repetition',
     'the inner duration is that of the last repetition only, so the inner performance is too high by the number of repetitions',
     [(CB, '    duration += std::chrono::duration<double>(end - start).count();', '    duration = std::chrono::duration<double>(end - start).count();')],
     '$CXX -O2 -mavx2 -mfma -fopenmp -o "$T/demo" "$D/demo.cpp" "$PWD/src/variants/combined.cpp" || exit 0\n"$T/demo"', ['hpxlite.hpp', 'vclite.hpp'], {'demo.cpp': r'''
#include <chrono>
#include <cstdio>
#include <vector>
static long long now_ns = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { now_ns += 1000000000; return time_point(duration(now_ns)); }
steady_clock::time_point steady_clock::now() noexcept { now_ns += 1000000000; return time_point(duration(now_ns)); }
} } }
#include "variants/combined.hpp"
int main() {
  std::vector<double> A(16, 1.0), B(16, 1.0);
  double d1 = 0, d3 = 0;
  combined::combined one(4, A, B, 1, 0), three(4, A, B, 3, 0);
  one.matrix_multiply(d1);
  three.matrix_multiply(d3);
  std::printf("one repetition %gs, three %gs\n", d1, d3);
  return d3 < 2.5 * d1;
}
'''})
seed('c19_printing_timed', 'C19', 'verbose output of the matrices',
     'the timer starts before the operands are printed',
     [(APP, '''  A.resize(N * N);
  std::generate(A.begin(), A.end(), myRand);
''', '''  A.resize(N * N);
  std::generate(A.begin(), A.end(), myRand);

  // Keep track of the time required to execute.
  hpx::util::high_resolution_timer t;
'''), (APP, '''  //    C.resize(n * n);

  // Keep track of the time required to execute.
  hpx::util::high_resolution_timer t;
''', '''  //    C.resize(n * n);
''')],
     SEC + 'APP_CLOCK=1 app --n-value=16 --algorithm=looped --verbose=2\nsays "total time" || exit 0\nless "$(secs "total time: ")" 1.4 || { echo "took 1s, reported $(secs "total time: ")"; exit 1; }\nexit 0', AT)
seed('c19_result_timed', 'C19', 'kernel_test with verbose output of the result',
     'the time of kernel_test is taken after its result has been printed',
     [(APP, '''    C = m.matrix_multiply();

    duration = t.elapsed();
    std::cout << "non-HPX [N = " << N << "] total time: " << duration << "s"
''', '''    C = m.matrix_multiply();
    if (verbose >= 2) {
      std::cout << "non-HPX matrix C:" << std::endl;
      print_matrix_host(N, C);
    }

    duration = t.elapsed();
    std::cout << "non-HPX [N = " << N << "] total time: " << duration << "s"
'''), (APP, '''              << "s (repetitions = " << repetitions << ")" << std::endl;

    if (verbose >= 2) {
      std::cout << "non-HPX matrix C:" << std::endl;
      print_matrix_host(N, C);
    }
  } else if (algorithm.compare("kernel_tiled") == 0) {''', '''              << "s (repetitions = " << repetitions << ")" << std::endl;
  } else if (algorithm.compare("kernel_tiled") == 0) {''')],
     SEC + 'APP_CLOCK=1 app --n-value=16 --algorithm=kernel_test --verbose=2\nsays "total time" || exit 0\nless "$(secs "total time: ")" 1.4 || { echo "took 1s, reported $(secs "total time: ")"; exit 1; }\nexit 0', AT)
seed('c19_whole_seconds', 'C19', 'an implementation that does not take whole seconds',
     'the benchmark truncates the measured time to whole seconds',
     [(BM, 'std::chrono::duration_cast<std::chrono::milliseconds>(duration).count() / 1000.0;', 'std::chrono::duration_cast<std::chrono::seconds>(duration).count();')],
     r'''D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -I"$PWD/otherExperiments" -o "$T/demo" "$D/impl.cpp" "$PWD/otherExperiments/benchmark.cpp" || exit 0
"$T/demo" naive > "$T/out" || exit 0
s=$(sed -n 's/^seconds: //p' "$T/out")
[ -n "$s" ] || exit 0
awk "BEGIN { exit !($s > 1.2) }" || { echo "took 1.4s, reported $s"; exit 1; }
exit 0''', [], {'impl.cpp': r'''
#include <chrono>
#include <cstdint>
#include <thread>
#define IMPL(f) void f(double *, double *, double *, const uint32_t) { std::this_thread::sleep_for(std::chrono::milliseconds(1400)); }
IMPL(multNaive) IMPL(multTransposed) IMPL(multCounter) IMPL(multExchanged) IMPL(multRegister) IMPL(multIntrinLoop)
IMPL(multBlocked2) IMPL(multBlocked4) IMPL(multGPU) IMPL(multGPUASM) IMPL(multASM)
'''})
seed('c19_reference_average', 'C19', 'checking a run with repetitions',
     'the performance of the reference, which runs once, is multiplied by the repetitions',
     [(APP, '"] performance reference: " << (gflop / duration_reference)', '"] performance reference: "\n                << (repetitions * gflop / duration_reference)')],
     SEC + '''app --n-value=500 --algorithm=pseudodynamic --check=1 --repetitions=1
a=$(secs "performance reference: "); ta=$(secs "naive matMult took ")
app --n-value=500 --algorithm=pseudodynamic --check=1 --repetitions=7
b=$(secs "performance reference: "); tb=$(secs "naive matMult took ")
[ -n "$a" ] && [ -n "$b" ] || exit 0
case "$a$b" in *inf*|*nan*) exit 0;; esac
# both are the same number of operations
awk "BEGIN { x = $a * $ta; y = $b * $tb; exit !(y < 2 * x && x < 2 * y) }" || { echo "$a in $ta, but $b in $tb"; exit 1; }
exit 0''', AT)
