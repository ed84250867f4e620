#!/bin/bash
# build.sh OUTDIR : compiles /repo's sources and the driver into OUTDIR/driver (in parallel).
# Tries the build with the learning hooks first; if that does not compile, builds without them.
set -u
OUT=$1
REPO=${VGRAM_REPO:-/repo}
M=$REPO/core/src/main/cpp
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
# VG_FAST: without sanitizers, for cases of very many operations
SAN="-fsanitize=address,undefined"
FLAGS="-w -g1 -O1 -fno-omit-frame-pointer $SAN -fno-sanitize-recover=all -include cstdint -include iostream -include limits -include algorithm -I$M -I$M/algorithm -I$M/interfaces"
if [ -n "${VG_FAST:-}" ]; then
  SAN=
  FLAGS="-w -O2 -include cstdint -include iostream -include limits -include algorithm -I$M -I$M/algorithm -I$M/interfaces"
fi
build() { # build DIR EXTRA
  local d=$1 extra=$2
  mkdir -p "$d"
  { ls "$M"/algorithm/*.cc "$M"/interfaces/*.cc "$M"/interfaces/*/*.cc | grep -v '/vgram_builder\.cc$\|/list_dict\.cc$'; echo "$HERE/driver_io.cc"; } > "$d/files"
  g++ $FLAGS -O0 -fno-sanitize=all $extra -c "$HERE/driver.cc" -o "$d/driver.o" 2>"$d/log0" &
  local pid=$!
  g++ $FLAGS $extra -c "$HERE/draw.cc" -o "$d/draw.o" 2>/dev/null || rm -f "$d/draw.o"
  xargs -a "$d/files" -P 8 -I{} sh -c 'g++ '"$FLAGS $extra"' -c "{}" -o "'"$d"'/$(echo "{}" | tr / _).o" 2>>"'"$d"'/log" || exit 255' || { wait $pid; return 1; }
  wait $pid || { cat "$d/log0" >>"$d/log"; return 1; }
  g++ $SAN "$d"/*.o -o "$OUT/driver" 2>>"$d/log" || return 1
}
# the project is built as C++14, where some code links only when optimized; C++17 is the other chance
for std in gnu++14 gnu++17; do
  if build "$OUT/h" "-std=$std -DVGRAM_TRACE"; then echo hooks; exit 0; fi
  rm -rf "$OUT/h"
done
for std in gnu++14 gnu++17; do
  if build "$OUT/n" "-std=$std"; then echo nohooks; exit 0; fi
  [ $std = gnu++17 ] || rm -rf "$OUT/n"
done
cat "$OUT/n/log" | head -40 >&2
exit 2
