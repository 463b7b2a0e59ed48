#!/bin/bash
# daemon/build.sh OUT [threads] : builds OUT/dcheck from /repo's current sources (instrumented for the exploration of threads)
set -e
V=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; VARIANT=$2; REPO=${REPO:-/repo}
mkdir -p "$OUT"
if [ "$VARIANT" = threads ]; then
  export SUT_EXTRA="-fsanitize=thread -fno-builtin" SUT_SYMS="$OUT/syms"; cp "$V/lib/redirect.syms" "$OUT/syms"
  for f in memset memcpy memmove strcpy strncpy snprintf vsnprintf strlen; do echo "$f tsx_$f" >> "$OUT/syms"; done
fi
bash "$V/lib/build_sut.sh" "$OUT" & p1=$!
INC="-iquote $REPO/src -w -fno-pie -D_DEFAULT_SOURCE -DVERSION=\"vtest\" -DSOCKET_PATH=\"/run/keyd.socket\" -DCONFIG_DIR=\"/etc/keyd\" -DDATA_DIR=\"/usr/share/keyd\""
mkdir -p "$OUT"
( bash "$V/lib/mkstubs.sh" "$OUT/stubs.c"; gcc -w -fno-builtin -O1 -c "$OUT/stubs.c" -o "$OUT/stubs.o" ) & p2=$!
( gcc -O2 $INC -c "$V/engine/canon.c" -o "$OUT/canon.o" 2>"$OUT/canon.log" || gcc -O2 $INC -c "$V/engine/canon_stub.c" -o "$OUT/canon.o" ) & p3=$!
( gcc -O1 $INC -c "$V/daemon/glue_d.c" -o "$OUT/glue_d.o" ) & p4=$!
C=${HARNESS_CACHE:-$V/build/cache}; mkdir -p "$C"
H=$(cat "$V"/daemon/*.cc "$V"/daemon/*.h "$V"/daemon/*.S "$V"/engine/{conf,model}.h "$V"/lib/snap.h "$V"/lib/fork.S "$V"/daemon/build.sh | sha1sum | cut -c1-16)
if [ ! -f "$C/dae-$H.o" ]; then
  T=$(mktemp -d "$C/tmp.XXXXXX")
  gcc -c "$V/lib/fork.S" -o "$T/fork.o"; gcc -c "$V/daemon/switch.S" -o "$T/switch.o"
  g++ -std=c++17 -O2 -g1 -w -fno-pie -c "$V/daemon/dcheck.cc" -o "$T/dcheck.o"
  ld -r -o "$T/all.o" "$T/dcheck.o" "$T/fork.o" "$T/switch.o"
  mv "$T/all.o" "$C/dae-$H.o"; rm -rf "$T"
fi
wait $p1; wait $p2; wait $p3; wait $p4
# words that hold nothing across calls: the buffer device_read_event() returns; and the activation counter
nm -S "$OUT/sut.o" | awk '$4 ~ /^devev\.[0-9]+$/ {print "dead", $1, $2, $3} $4 ~ /^time\.[0-9]+$/ {print "counter", $1, $2, $3}' > "$OUT/dead.txt"
g++ -no-pie -o "$OUT/dcheck" "$OUT/sut.o" "$OUT/pad.o" "$C/dae-$H.o" "$OUT/glue_d.o" "$OUT/canon.o" "$OUT/stubs.o" -Wl,--allow-multiple-definition
