#!/bin/bash
# builds build/liburing.a from /repo/lib/liburing when missing or out of date
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd); REPO=${PBT_REPO:-/repo}
B=$ROOT/build; mkdir -p "$B"
K=$(cat "$REPO"/lib/liburing/liburing.cpp "$REPO"/lib/liburing/include/*.h | sha256sum | cut -c1-32)
[ -f "$B/liburing.a" ] && [ "$(cat "$B/liburing.key" 2>/dev/null)" = "$K" ] && exit 0
/usr/bin/clang++-20 -std=c++20 -O2 -w -I"$REPO/lib/liburing/include" -c "$REPO/lib/liburing/liburing.cpp" -o "$B/liburing.$$.o" || exit 2
rm -f "$B/liburing.a"; ar rcs "$B/liburing.a" "$B/liburing.$$.o" && rm -f "$B/liburing.$$.o" && echo "$K" > "$B/liburing.key"
