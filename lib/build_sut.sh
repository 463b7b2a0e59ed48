#!/bin/bash
# Usage: build_sut.sh OUTDIR  -- compiles /repo's current sources into OUTDIR/sut.o,
# one relocatable image whose libc calls that reach the outside world are redirected to env_*
# functions, and whose .data/.bss live in the page-aligned sections sut_data/sut_bss so that
# the whole mutable state of the program can be snapshotted.
set -e
OUT=$1; REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj"; rm -f "$OUT"/obj/*.o
CF="-O1 -g -fno-pic -fno-pie -fno-common -fno-stack-protector -U_FORTIFY_SOURCE -D_DEFAULT_SOURCE -std=c11 -w
 -fsanitize=bounds,integer-divide-by-zero -fsanitize-undefined-trap-on-error
 -DVERSION=\"vtest\" -DSOCKET_PATH=\"/run/keyd.socket\" -DCONFIG_DIR=\"/etc/keyd\" -DDATA_DIR=\"/usr/share/keyd\" -iquote $REPO/src $SUT_EXTRA"
pids=()
for f in "$REPO"/src/*.c "$REPO"/src/vkbd/uinput.c; do
  gcc $CF -c "$f" -o "$OUT/obj/$(basename "${f%.c}").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
ld -r -o "$OUT/sut0.o" "$OUT"/obj/*.o
objcopy --redefine-syms="${SUT_SYMS:-$HERE/redirect.syms}" "$OUT/sut0.o" "$OUT/sut1.o"
objcopy --rename-section .data=sut_data,alloc,load,data,contents \
        --set-section-flags .bss=alloc,load,data,contents --rename-section .bss=sut_bss,alloc,load,data,contents \
        --set-section-alignment sut_data=4096 --set-section-alignment sut_bss=4096 \
        --set-section-alignment .data=4096 --set-section-alignment .bss=4096 "$OUT/sut1.o" "$OUT/sut.o"
# offset of the activation counter (a function-level static called "time"), if there is exactly one
nm "$OUT/sut.o" | awk '$3 ~ /^time\.[0-9]+$/ {print $1, $2}' > "$OUT/counter.txt"
cat > "$OUT/pad.s" <<'EOS'
 .section sut_data,"aw",@progbits
 .balign 4096
 .zero 4096
 .section sut_bss,"aw",@progbits
 .balign 4096
 .zero 4096
 .section .note.GNU-stack,"",@progbits
EOS
gcc -c "$OUT/pad.s" -o "$OUT/pad.o"
