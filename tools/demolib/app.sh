# builds the command-line program with stand-ins for HPX and for every algorithm ($T/app); APP_FAULT adds to one entry
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/hpx/include" "$T/inc/variants/components" "$T/inc/reference_kernels"
for h in hpx_init include/actions include/async include/components include/util include/iostreams; do echo "#include \"$D/appstub.hpp\"" > "$T/inc/hpx/$h.hpp"; done
for h in reference_kernels/kernel_test reference_kernels/kernel_tiled variants/algorithms variants/combined variants/components/multiplier variants/components/recursive variants/looped variants/proposal variants/semi variants/static_improved; do echo "#include \"$D/appstub.hpp\"" > "$T/inc/$h.hpp"; done
g++ -std=c++17 -O1 -w -I"$T/inc" -I"$PWD/src" -o "$T/app" "$PWD/src/matrix_multiply_application/matrix_multiply.cpp" -lboost_program_options || exit 0
app() { timeout 60 "$T/app" "$@" > "$T/out" 2>&1; }
says() { grep -q -- "$1" "$T/out"; }
