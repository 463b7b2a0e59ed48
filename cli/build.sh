#!/bin/bash
# cli/build.sh OUT : builds OUT/ccheck from /repo's current command line client
set -e
OUT=$1; REPO=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"; rm -f "$OUT"/[as]_*.o
p=(); n=0
for f in "$REPO"/src/*.c "$REPO"/src/vkbd/uinput.c; do
  for k in a s; do s='-fsanitize=bounds,integer-divide-by-zero,shift -fsanitize-undefined-trap-on-error -fstack-protector-all'; [ $k = a ] && s='-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute'; case $f in */unicode.c) s=;; esac
  gcc -O1 -g -w -std=c11 $s -D_DEFAULT_SOURCE -U_FORTIFY_SOURCE -Dmain=sut_main '-DVERSION="verif"' '-DSOCKET_PATH="/nonexistent/keyd.socket"' '-DCONFIG_DIR="/nonexistent/etc"' '-DDATA_DIR="/nonexistent/data"' -iquote "$REPO/src" -c "$f" -o "$OUT/${k}_$n.o" & p+=($!); done; n=$((n+1))
done
gcc -O1 -w -std=c11 -D_DEFAULT_SOURCE -iquote "$REPO/src" -c "$H/cglue.c" -o "$OUT/cglue.o"
for i in "${p[@]}"; do wait $i; done
W=; for f in read write send recv sendto recvfrom sendmsg recvmsg readv writev socket connect poll ppoll select close shutdown isatty; do W="$W -Wl,--wrap=$f"; done
g++ -std=c++17 -O1 -g -w -fsanitize=address,undefined $W -o "$OUT/ccheck_asan" "$H/ccheck.cc" "$OUT/cglue.o" "$OUT"/a_*.o -lpthread &
g++ -std=c++17 -O1 -g -w -static $W -o "$OUT/ccheck" "$H/ccheck.cc" "$OUT/cglue.o" "$OUT"/s_*.o -lpthread; wait $!
