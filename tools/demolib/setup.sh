# writes forwarding headers for the stand-ins to $T/inc
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
for h in include/iostreams include/lcos include/components include/async include/parallel_for_each parallel/algorithms/for_each parallel/algorithms/for_loop parallel/execution_policy util/iterator_facade hpx_init; do
  mkdir -p "$T/inc/hpx/$(dirname $h)"
  echo "#include \"$D/hpxlite.hpp\"" > "$T/inc/hpx/$h.hpp"
done
mkdir -p "$T/inc/Vc"
[ -f "$D/vclite.hpp" ] && cp "$D/vclite.hpp" "$T/inc/Vc/Vc"
CXX="g++ -std=c++17 -O1 -g -w -I$T/inc -I$PWD/src -I$PWD/src/variants -I$D"
