"""U01: every code point, against the shipped compose file."""
import os, subprocess, json, sys, re
from . import V, BUILD, REPO, lock
from . import daemon
from .engine import collect
IDS = ["U01"]
OUT = BUILD + "/uni"
def build(): daemon.build()
def structure(path):
    """The compose file on its own: one character per sequence, one sequence per character, no sequence begins another."""
    seqs = {}; chars = {}; bad = []; n = 0
    for i, l in enumerate(open(path, encoding="utf8", newline="\n").read().split("\n"), 1):
        if not l.strip() or l.startswith("#"): continue
        m = re.match(r'((?:<\w+>\s*)+):\s*"((?:\\.|[^"\\])+|")"', l, re.S); n += 1
        if not m: bad.append("line %d is not a sequence and a character" % i); continue
        s = tuple(re.findall(r"<(\w+)>", m[1])); c = m[2]
        if len(c) != 1: bad.append("line %d maps to %d characters" % (i, len(c))); continue
        if s in seqs: bad.append("line %d: the sequence of line %d again" % (i, seqs[s]))
        if c in chars: bad.append("line %d: U+%04X again (line %d)" % (i, ord(c), chars[c]))
        if s[0] != "Cancel": bad.append("line %d does not begin with the key that keyd emits first" % i)
        seqs[s] = i; chars[c] = i
    for s in seqs:
        for k in range(1, len(s)):
            if s[:k] in seqs: bad.append("line %d begins with all of line %d" % (seqs[s], seqs[s[:k]]))
    return chars, bad, n
PROBE = r"""
#include <stdint.h>
#include <stdio.h>
int unicode_lookup_index(uint32_t); void unicode_get_sequence(int, uint8_t *);
int main() { uint32_t step = 1; for (uint64_t c = 0; c <= 0xffffffffull; c += c < 0x110400 ? 1 : 0x10000 + 1) { int i = unicode_lookup_index(c); if (i >= 0) { uint8_t s[4]; unicode_get_sequence(i, s); printf("%llu %d %d %d %d\n", (unsigned long long)c, s[0], s[1], s[2], s[3]); } } }
"""
KEYS = {str((i + 1) % 10): i + 2 for i in range(10)}
KEYS.update({c: k for s, b in (("qwertyuiop", 16), ("asdfghjkl", 30), ("zxcvbnm", 44)) for k, c in enumerate(s, b)}); KEYS["Cancel"] = 223
def compose_keys(path):
    d = {}
    for l in open(path, encoding="utf8", newline="\n").read().split("\n"):
        m = re.match(r'((?:<\w+>\s*)+):\s*"(.)"', l, re.S)
        if m: d[ord(m[2])] = [KEYS.get(x) for x in re.findall(r"<(\w+)>", m[1])]
    return d
def run(pid, tier, rd):
    import __main__
    from scenarios import daemon as sc
    build(); q = tier == "quick"; path = REPO + "/data/keyd.compose"; r = __main__.Result()
    chars, bad, n = structure(path)
    os.makedirs(OUT, exist_ok=True)
    with lock("uni"):
        open(OUT + "/probe.c", "w").write(PROBE)
        x = subprocess.run(["gcc", "-O2", "-w", "-iquote", REPO + "/src", OUT + "/probe.c", REPO + "/src/unicode.c", "-o", OUT + "/probe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if x.returncode: sys.stderr.write(x.stdout); raise SystemExit(2)
    got = {}
    for l in subprocess.run([OUT + "/probe"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines(): v = [int(t) for t in l.split()]; got[v[0]] = v[1:]
    want = compose_keys(path)
    for c in sorted(set(got) | set(want)):
        if got.get(c) != want.get(c): bad.append("U+%04X: keyd emits %s, the compose file has %s" % (c, got.get(c), want.get(c)))
    rep = rd + "/U01-table.replay"
    if bad: open(rep, "w").write("# the table and the compose file\n" + "".join("# %s\n" % b for b in bad[:200]) + "compose\n")
    for b in bad[:3]: r.violation("table|" + b, b, rep)
    # through the daemon
    cps = sorted(want); texts = []
    def scen(id, kind, reqs, per=12):
        for i in range(0, len(reqs), per):
            part = reqs[i:i + per]; texts.append(sc.D("%s-%d" % (id, i), [sc.KB1], [(0, "a.conf", sc.BASE)], ["con c%d" % j for j in range(len(part))], [("c%d %s 0" % (j, kind), x) for j, x in enumerate(part)], depth=1))
    scen("input", "input", ["".join(map(chr, cps[i:i + 900])) for i in range(0, len(cps), 900)], 4)
    scen("macro", "macro", ["".join(map(chr, cps[i:i + 40])) for i in range(0, len(cps), 40)], 40)
    uns = [c for c in range(128, 0x110000) if c not in want]
    near = set(c + d for c in want for d in (-2, -1, 1, 2)) | {1 << k for k in range(7, 21)} | {(1 << k) - 1 for k in range(8, 21)} | {0xd800, 0xdfff, 0xfffe, 0xffff, 0x10ffff, 0x10fffe}
    pick = [c for c in uns if c in near or c % 97 == 0] if q else uns
    enc = lambda c: chr(c).encode("utf8", "surrogatepass").decode("utf8", "surrogateescape")
    scen("unsupported", "input", ["a" + enc(c) + "b" for c in pick], 240); over = [b"\xf4\x90\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xf0\x80\x80\x80"]
    scen("overlong", "input", [b.decode("utf8", "surrogateescape") for b in over])
    if not q:
        for i in range(0, len(cps), 60):
            part = cps[i:i + 60]; texts.append(sc.D("bound-%d" % i, [sc.KB1], [(0, "a.conf", sc.BASE)], ["con c%d; k kb1 a" % j for j in range(len(part))], [("c%d bind 0" % j, "a = " + chr(c)) for j, c in enumerate(part)], depth=1))
    x = collect(r, daemon.dcheck("keyb,reply,exit", texts, pid, rd), pid); x.assumptions = daemon.ASSUME + ["code points beyond U+110400 are probed every 65537; a quick run sends unsupported ones through the daemon only near supported ones and every 97th"]
    x.extra.update({"compose_lines": n, "code_points_looked_up": 0x110400 + (0xffffffff - 0x110400) // 65537, "unsupported_sent": len(pick), "supported_sent": len(cps)})
    return x
def replay(f):
    for l in open(f):
        if l.startswith("#"): print(l.rstrip())
    return 1
def about(pid):
    return ("exhaustive enumeration of all code points, through the table and through the running daemon",
            "The compose file is checked to be unambiguous (each line a distinct sequence, prefix-free, one character). Every code point is looked up with the unmodified unicode.c and compared with the compose file; then every supported character, and unsupported ones, are sent as input and macro requests (thorough: also as bindings) to the unmodified daemon in the kernel model, in lockstep with the reference daemon, which reads the compose file. Trusted: key numbers of Linux, the reference.")
