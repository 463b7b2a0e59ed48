"""D.., U02: lockstep exploration of the whole daemon."""
import os, subprocess, json, sys, concurrent.futures as cf
from . import V, NCPU, BUILD, lock
from .engine import collect
IDS = ["D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11", "D13", "D14", "D15", "D16", "U02", "C02"]
OUT = BUILD + "/dae"
ASSUME = ["bounds: actions per run, devices, clients and time steps as listed in the scenario headers (scenarios/daemon.py)",
          "the kernel (input devices, uinput, inotify, unix sockets, clock, files, fork/exec) is a model (daemon/kernel.h, kenv.h); main(), daemon.c, evloop.c, device.c, monitor code, ipc.c, vkbd/uinput.c and the engine run unmodified"]
def out(pid): return BUILD + "/daet" if pid == "D10" else OUT   # the scan's threads: an instrumented build
def build(pid=None):
    with lock("dae"):
        r = subprocess.run(["bash", V + "/daemon/build.sh", out(pid)] + ["threads"] * (pid == "D10"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout); raise SystemExit(2)
def dcheck(cmps, texts, pid, rd, extra=[]):
    OUT = out(pid)
    b = OUT + "/%s.bundle" % pid; open(b, "w").write("\n====\n".join(texts)); n = max(1, min(len(texts), NCPU * 8))
    env = dict(os.environ, SUT_DIR=OUT)
    def one(i):
        r = subprocess.run([OUT + "/dcheck", "--prop", pid, "--cmp", cmps, "--outdir", rd, "--bundle", b, "--shard", str(i), str(n)] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        if r.returncode > 1: raise RuntimeError("dcheck failed: " + r.stderr[-2000:])
        return [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    with cf.ThreadPoolExecutor(NCPU) as ex: res = [x for l in ex.map(one, range(n)) for x in l]
    if len(res) != len(texts): raise RuntimeError("%d results for %d scenarios" % (len(res), len(texts)))
    return res
def run(pid, tier, rd):
    from scenarios import daemon as sc
    import __main__
    build(pid)
    cmps, texts = sc.bundle(pid, tier)
    r = collect(__main__.Result(), dcheck(cmps, texts, pid, rd), pid); r.assumptions = ASSUME
    return r
def replay(f):
    pid = "D10" if "\nmode scan\n" in open(f, errors="replace").read() else None; build(pid); OUT = out(pid)
    return subprocess.run([OUT + "/dcheck", "--replay", f], env=dict(os.environ, SUT_DIR=OUT)).returncode
def about(pid):
    return ("explicit-state model checking of the real daemon inside a model of the kernel, in lockstep with a reference daemon",
            "Breadth-first search over all sequences of environment actions (key, pointer and LED events, devices arriving and leaving, clients connecting, sending, stalling and disconnecting, files changing, timers, interrupted and early polls) up to the depth of each scenario. "
            "Every transition executes the unmodified main loop, device, socket and virtual device code (compiled from /repo) from poll() to poll() and is compared with an independently written reference daemon (daemon/dmodel.h). States are snapshots of the whole process. Trusted: the reference, the kernel model, the snapshot layer.")
