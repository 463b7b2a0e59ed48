#!/bin/bash
# mkstubs.sh OUT.c : a weak stub for every redirected libc call, so that a call no harness models is an
# error of the run ("unexpected call") rather than a link failure or a real system call.
HERE=$(cd "$(dirname "$0")" && pwd)
{ echo 'void env_unexpected(const char *);'
  awk '{print $2}' "$HERE/redirect.syms" | sort -u | while read s; do
    echo "__attribute__((weak)) long $s(void) { env_unexpected(\"$s\"); return -1; }"; done; } > "$1"
