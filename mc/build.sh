#!/bin/bash
# build.sh <scenario.cc> <output> [extra flags]: instrumented gul14 + scenario + runtime
set -e
SRC=$1; OUT=$2; shift 2
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${GUL_REPO:-/repo}
D=$OUT.d; mkdir -p "$D/lib"
CXX=${CXX:-g++}
INS="-std=c++14 -g -O1 -fno-omit-frame-pointer -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -D_GLIBCXX_ASSERTIONS -I$REPO/include -I$HERE -w $*"
pids=()
# All sources of the library go into an archive, so that only what the pool and trigger need is linked
for f in "$REPO"/src/*.cc; do
  $CXX $INS -c "$f" -o "$D/lib/$(basename "$f" .cc).o" & pids+=($!)
done
$CXX $INS -c "$SRC" -o "$D/scenario.o" & pids+=($!)
$CXX -std=c++17 -g -O2 -w -I$HERE -c "$HERE/mcrt.cc" -o "$D/mcrt.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
ar rcs "$D/libgul.a" "$D"/lib/*.o
$CXX -no-pie -static-libstdc++ -static-libgcc "$D"/*.o "$D/libgul.a" -o "$OUT" \
  -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strlen
