"""C01: the command line client."""
import os, subprocess, sys
from . import V, BUILD, lock
IDS = ["C01"]
OUT = BUILD + "/cli"
def build():
    with lock("cli"):
        r = subprocess.run(["bash", V + "/cli/build.sh", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout); raise SystemExit(2)
def run(pid, tier, rd):
    import __main__
    build()
    x = __main__.Result(); seen = set()
    for exe, budget in (("ccheck", None), ("ccheck_asan", "1" if tier == "thorough" else "0")):
        r = subprocess.run([OUT + "/" + exe, "--outdir", rd] + ["--thorough"] * (tier == "thorough") + (["--budget", budget] if budget else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode > 1 or r.returncode < 0: raise RuntimeError("%s failed: %d %s" % (exe, r.returncode, r.stderr[-2000:]))
        for l in r.stdout.splitlines():
            f = l.split("\t")
            if f[0] == "V" and len(f) >= 4 and (f[2], f[3]) not in seen:
                seen.add((f[2], f[3])); x.violation("%s|%s" % (f[2], f[3]), "%s: %s" % (f[2], f[3]), f[1])
            elif f[0] == "T": x.traces += int(f[2]); x.states += int(f[2]); x.transitions += int(f[3]); x.extra.setdefault("runs", []).append("%s: %s command lines, %s executions, %s choice points" % (exe, f[1], f[2], f[3]))
            elif f[0] == "S" and exe == "ccheck": x.samples.append(f[1])
    x.extra["deviations_per_execution"] = 3 if tier == "thorough" else 2
    x.assumptions = ["standard input, standard output and the control socket are models (cli/ccheck.cc): every call may transfer fewer bytes than asked or fail; the daemon answers a complete request only",
                     "signals and descriptors closed at the start are not explored; the memory of the client is watched by AddressSanitizer in executions with few deviations"]
    return x
def replay(f):
    build(); return subprocess.run([OUT + "/ccheck", "--replay", f]).returncode
def about(pid):
    return ("stateless model checking of the command line client over all placements of short and failing calls",
            "Every execution runs the unmodified main() of keyd in a forked child with modelled stdin, stdout and control socket; for each command line, input and daemon answer of the scenarios all placements of up to two (thorough: three) short or failing reads, writes, connects and polls are enumerated. Requests, output and exit status are compared with an independent statement of what the command means. Trusted: that statement, the model of the calls.")
