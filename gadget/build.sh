#!/bin/bash
# gadget/build.sh OUT : builds OUT/gcheck from /repo's current USB gadget back-end
set -e
V=${VERIF_DIR:-$(cd "$(dirname "$0")/.." && pwd)}; OUT=$1; REPO=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
gcc -O1 -g -fno-pic -fno-pie -fno-common -fno-stack-protector -U_FORTIFY_SOURCE -D_DEFAULT_SOURCE -std=c11 -w -fno-builtin -fsanitize=bounds,integer-divide-by-zero -fsanitize-undefined-trap-on-error -iquote "$REPO/src" -c "$REPO/src/vkbd/usb-gadget.c" -o "$OUT/g0.o"
objcopy --redefine-syms="$V/lib/redirect.syms" --rename-section .data=gad_data,alloc,load,data,contents --set-section-flags .bss=alloc,load,data,contents --rename-section .bss=gad_bss,alloc,load,data,contents "$OUT/g0.o" "$OUT/g.o"
gcc -w -O1 -fno-pie -c "$REPO/src/keys.c" -o "$OUT/keys.o"
printf ' .section gad_data,"aw",@progbits\n .zero 16\n .section gad_bss,"aw",@progbits\n .zero 16\n .section .note.GNU-stack,"",@progbits\n' > "$OUT/pad.s"; gcc -c "$OUT/pad.s" -o "$OUT/pad.o"
g++ -std=c++17 -O2 -w -no-pie -o "$OUT/gcheck" "$H/gcheck.cc" "$OUT/g.o" "$OUT/pad.o" "$OUT/keys.o"
