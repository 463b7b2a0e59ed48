#!/bin/bash
# engine/build.sh OUT : builds OUT/explore from /repo's current sources
set -e
V=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; REPO=${REPO:-/repo}
bash "$V/lib/build_sut.sh" "$OUT" &
p1=$!
INC="-iquote $REPO/src -w -fno-pie -D_DEFAULT_SOURCE -DVERSION=\"vtest\" -DSOCKET_PATH=\"/run/keyd.socket\" -DCONFIG_DIR=\"/etc/keyd\" -DDATA_DIR=\"/usr/share/keyd\""
mkdir -p "$OUT"
( bash "$V/lib/mkstubs.sh" "$OUT/stubs.c"; gcc -w -fno-builtin -O1 -c "$OUT/stubs.c" -o "$OUT/stubs.o" ) & p2=$!
( gcc -O2 $INC -c "$V/engine/canon.c" -o "$OUT/canon.o" 2>"$OUT/canon.log" || gcc -O2 $INC -c "$V/engine/canon_stub.c" -o "$OUT/canon.o" ) & p3=$!
( gcc -O1 $INC -c "$V/lib/glue.c" -o "$OUT/glue.o"; gcc -O1 $INC -c "$V/parser/pglue.c" -o "$OUT/pglue.o" ) & p4=$!
# the harness itself does not depend on /repo: kept between runs
C=${HARNESS_CACHE:-$V/build/cache}; mkdir -p "$C"
H=$(cat "$V"/engine/explore.cc "$V"/engine/*.h "$V"/lib/*.h "$V"/lib/env.cc "$V"/lib/fork.S "$V"/engine/build.sh | sha1sum | cut -c1-16)
if [ ! -f "$C/eng-$H.o" ]; then
  T=$(mktemp -d "$C/tmp.XXXXXX")
  g++ -std=c++17 -O2 -g1 -w -fno-pie -c "$V/engine/explore.cc" -o "$T/explore.o" & a=$!
  g++ -std=c++17 -O2 -g1 -w -fno-pie -c "$V/lib/env.cc" -o "$T/env.o" & b=$!
  gcc -c "$V/lib/fork.S" -o "$T/fork.o"
  wait $a; wait $b
  ld -r -o "$T/all.o" "$T/explore.o" "$T/env.o" "$T/fork.o"
  mv "$T/all.o" "$C/eng-$H.o"; rm -rf "$T"
fi
wait $p1; wait $p2; wait $p3; wait $p4
g++ -no-pie -o "$OUT/explore" "$OUT/sut.o" "$OUT/pad.o" "$C/eng-$H.o" "$OUT/glue.o" "$OUT/pglue.o" "$OUT/canon.o" "$OUT/stubs.o" -Wl,--allow-multiple-definition
