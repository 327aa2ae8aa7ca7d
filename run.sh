#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE|build]   - build one harness from /repo and run it
P=$1; shift
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${PBT_REPO:-/repo}
export PBT_ROOT=$ROOT LANG=C.UTF-8
B=$ROOT/build; mkdir -p "$B"
SRC=$ROOT/harness/$P.cpp
[ -f "$SRC" ] || { echo "no harness $SRC" >&2; exit 2; }
CXX=${CXX20:-/usr/bin/clang++-20}
"$ROOT/tools/liburing.sh" || exit 2
# first lines of a harness may carry: // flags: ...   and // san: ...
FLAGS=$(sed -n 's#^// flags: ##p' "$SRC"); SAN=$(sed -n 's#^// san: ##p' "$SRC")
OPT=$(sed -n 's#^// opt: ##p' "$SRC")
[ -n "$SAN" ] || SAN="-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all -fsanitize-coverage=inline-8bit-counters,pc-table -DPBT_COVERAGE"
[ -n "$OPT" ] || OPT="-O0"
BIN=$B/$P
# a harness may need generated code: // gen: <script> (run with the seed and the tier; its output is included as "gen/<P>.hpp")
GEN=$(sed -n 's#^// gen: ##p' "$SRC")
if [ -n "$GEN" ]; then
  SEED=${VERIF_SEED:-1}; TIER=${1:-${VERIF_TIER:-quick}}; [ "$TIER" = build ] && TIER=${VERIF_TIER:-quick}
  if [ "$1" = replay ]; then SEED=$(sed -n 's/^seed //p' "$2" | head -1); TIER=$(sed -n 's/^--- tier //p' "$2" | head -1); [ -n "$TIER" ] || TIER=quick; fi
  mkdir -p "$B/gen"; python3 "$ROOT/$GEN" "$SEED" "$TIER" > "$B/gen/$P.hpp" || exit 2
  FLAGS="$FLAGS -I$B -DGEN_KEY=0x$(sha256sum < "$B/gen/$P.hpp" | cut -c1-8)"
fi
ALL="-std=c++20 $OPT -gline-tables-only -DNDEBUG -DHXLIBS_ENABLE_SSL -DHXLIBS_ENABLE_DB_SQLITE3 -w -fno-omit-frame-pointer -I$ROOT/harness -I$REPO/include -I$REPO/lib/liburing/include $SAN $FLAGS"
KEY=$( (echo "$ALL"; find "$REPO/include" -name '*.h*' -type f -print0 | sort -z | xargs -0 cat; cat "$ROOT"/harness/common/*.hpp "$SRC") | sha256sum | cut -c1-32)
if [ ! -x "$BIN" ] || [ "$(cat "$BIN.key" 2>/dev/null)" != "$KEY" ]; then
  rm -f "$BIN" "$BIN.key"
  $CXX $ALL "$SRC" -o "$BIN" "$B/liburing.a" -lssl -lcrypto -lsqlite3 -lpthread $LINK 2> "$B/$P.log" || { cat "$B/$P.log" | head -40 >&2; echo "harness build failed" >&2; exit 2; }
  echo "$KEY" > "$BIN.key"
fi
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1:malloc_context_size=8
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99
export TSAN_OPTIONS=exitcode=66:halt_on_error=1:report_bugs=1
case "$1" in
  build) exit 0;;
  replay) exec "$BIN" --replay "$2";;
  *) exec "$BIN" ${1:-${VERIF_TIER:-quick}};;
esac
