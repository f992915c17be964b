#!/bin/bash
# Builds the conformance harness from /repo's current working tree into $1 (default /verif/.build). Offline; no file of /repo is written.
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=${VERIF_REPO:-/repo}; OUT=${1:-$HERE/.build}; EXTRA=${VERIF_CXXFLAGS:-}
mkdir -p "$OUT/o"
CXX=${CXX:-g++}
FLAGS="-std=gnu++20 -O1 -w -D_GLIBCXX_ASSERTIONS -DENABLE_BOOST_GRAPH_SEARCH $EXTRA -I$REPO/include -I$HERE/shim -I/usr/include/postgresql"
{
  echo "CXX=$CXX"; echo "FLAGS=$FLAGS"; echo "all: $OUT/vh${VERIF_CLI:+ $OUT/vhcli}"
  OBJS=""
  while IFS= read -r f; do
    rel=${f#$REPO/src/}
    case "$rel" in main/*|*pybind*|*postgres_gate_stream.cpp|pipelines/slicer.cpp|*emscripten*|main.cpp) continue;; esac
    if grep -qE '^ *int +main *\(' "$f"; then continue; fi
    o="$OUT/o/$(echo "$rel" | tr '/' '_').o"; OBJS="$OBJS $o"
    printf '%s: %s\n\t$(CXX) $(FLAGS) -MMD -MP -c -o $@ %s\n' "$o" "$f" "$f"
  done < <(find "$REPO/src" -name '*.cpp' | sort)
  printf '%s: %s %s\n\t$(CXX) $(FLAGS) -MMD -MP -c -o $@ %s\n' "$OUT/o/vh.o" "$HERE/harness/vh.cpp" "$HERE/harness/enc.hpp" "$HERE/harness/vh.cpp"
  printf '%s: %s\n\t$(CXX) $(FLAGS) -o $@ $^ -lboost_graph -lpthread\n' "$OUT/vh" "$OUT/o/vh.o $OBJS"
  # the slicer program itself (only where a check runs it): the front end and the database reader, which the library checks do not need
  printf '%s: %s\n\t$(CXX) $(FLAGS) -MMD -MP -c -o $@ %s\n' "$OUT/o/cli_slicer.o" "$REPO/src/pipelines/slicer.cpp" "$REPO/src/pipelines/slicer.cpp"
  printf '%s: %s\n\t$(CXX) $(FLAGS) -MMD -MP -c -o $@ %s\n' "$OUT/o/cli_pg.o" "$REPO/src/gates/postgres_gate_stream.cpp" "$REPO/src/gates/postgres_gate_stream.cpp"
  printf '%s: %s\n\t$(CXX) $(FLAGS) -DVERIF_CLI -MMD -MP -c -o $@ %s\n' "$OUT/o/vhcli.o" "$HERE/harness/vh.cpp $HERE/harness/enc.hpp" "$HERE/harness/vh.cpp"
  printf '%s: %s\n\t$(CXX) $(FLAGS) -MMD -MP -c -o $@ %s\n' "$OUT/o/fakepq.o" "$HERE/harness/fakepq.cpp $HERE/harness/fakepq.hpp" "$HERE/harness/fakepq.cpp"
  printf '%s: %s\n\t$(CXX) $(FLAGS) -o $@ $^ -lboost_graph -lpq -lpthread\n' "$OUT/vhcli" "$OUT/o/vhcli.o $OUT/o/cli_slicer.o $OUT/o/cli_pg.o $OUT/o/fakepq.o $OBJS"
  echo "-include $OUT/o/*.d"
} > "$OUT/Makefile"
make -s -j"${VERIF_JOBS:-8}" -f "$OUT/Makefile" all > "$OUT/log" 2>&1 || { tail -40 "$OUT/log"; exit 1; }
