#!/bin/bash
# parser/build.sh OUT : builds OUT/pcheck from /repo's current sources with the address and bounds checkers
set -e
V=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; REPO=${REPO:-/repo}; mkdir -p "$OUT/obj"; rm -f "$OUT"/obj/*.o
DEF="-D_DEFAULT_SOURCE -DVERSION=\"vtest\" -DSOCKET_PATH=\"/run/keyd.socket\" -DCONFIG_DIR=\"/etc/keyd\" -DDATA_DIR=\"/usr/share/keyd\" -iquote $REPO/src -w"
SAN="-fsanitize=address,bounds,object-size,signed-integer-overflow,null -fno-sanitize-recover=all"
pids=()
for f in "$REPO"/src/*.c "$REPO"/src/vkbd/uinput.c; do gcc -std=c11 -O1 -g1 -U_FORTIFY_SOURCE $SAN $DEF -c "$f" -o "$OUT/obj/$(basename "${f%.c}").o" & pids+=($!); done
gcc -O2 -g1 $DEF -c "$V/parser/pglue.c" -o "$OUT/pglue.o" & pids+=($!)
( bash "$V/lib/mkstubs.sh" "$OUT/stubs.c"; gcc -w -fno-builtin -O1 -c "$OUT/stubs.c" -o "$OUT/stubs.o" ) & pids+=($!)
C=${HARNESS_CACHE:-$V/build/cache}; mkdir -p "$C"
H=$(cat "$V"/parser/*.cc "$V"/parser/*.h "$V"/engine/conf.h "$V"/parser/build.sh | sha1sum | cut -c1-16)
if [ ! -f "$C/par-$H.o" ]; then
  T=$(mktemp -d "$C/tmp.XXXXXX")
  g++ -std=c++17 -O2 -g1 -w -c "$V/parser/pcheck.cc" -I"$V/engine" -o "$T/pcheck.o" & a=$!
  g++ -std=c++17 -O2 -g1 -w -c "$V/parser/penv.cc" -o "$T/penv.o"
  wait $a; ld -r -o "$T/all.o" "$T/pcheck.o" "$T/penv.o"; mv "$T/all.o" "$C/par-$H.o"; rm -rf "$T"
fi
for p in "${pids[@]}"; do wait $p; done
ld -r -o "$OUT/sut0.o" "$OUT"/obj/*.o
objcopy --redefine-syms="$V/lib/redirect.syms" "$OUT/sut0.o" "$OUT/sut.o"
g++ -fsanitize=address,undefined -o "$OUT/pcheck" "$OUT/sut.o" "$OUT/pglue.o" "$C/par-$H.o" "$OUT/stubs.o" -Wl,--allow-multiple-definition
