"""K01-K20 (and F07): lockstep exploration of the key engine."""
import os, subprocess, json, sys, concurrent.futures as cf
from . import V, NCPU, BUILD, lock
IDS = ["K%02d" % i for i in range(1, 21)] + ["F07"]
OUT = BUILD + "/eng"
ASSUME = ["bounds: events per run, key alphabet and time steps as listed in the scenario headers (scenarios/engine.py)",
          "the environment (clock, allocator, files, fork/exec, output callbacks) is replaced by stand-ins; keyboard.c, config.c, macro.c, keys.c, ini.c, string.c, unicode.c run unmodified"]
def build():
    with lock("eng"):
        r = subprocess.run(["bash", V + "/engine/build.sh", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout); raise SystemExit(2)
def explore(cmps, texts, pid, rd, extra=[], jobs=None):
    """Run the scenarios on all cores; returns the parsed result lines."""
    jobs = jobs or NCPU; b = OUT + "/%s.bundle" % pid
    open(b, "w").write("\n====\n".join(texts)); n = max(1, min(len(texts), jobs * 6))
    env = dict(os.environ, SUT_DIR=OUT)
    def one(i):
        r = subprocess.run([OUT + "/explore", "--prop", pid, "--cmp", cmps, "--outdir", rd, "--bundle", b, "--shard", str(i), str(n)] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        if r.returncode > 1: raise RuntimeError("explore failed: " + r.stderr[-2000:])
        return [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    with cf.ThreadPoolExecutor(jobs) as ex: res = [x for l in ex.map(one, range(n)) for x in l]
    if len(res) != len(texts): raise RuntimeError("%d results for %d scenarios" % (len(res), len(texts)))
    return res
def collect(r, res, pid):
    for d in res:
        r.states += d["states"]; r.transitions += d["transitions"]; r.traces += d["leaves"]
        for v in d["violations"]:
            r.violation("%s|%s|%s|%s" % (d["scenario"], v["kind"], v["detail"], v["trace"]), "scenario %s: %s: %s\n%s" % (d["scenario"], v["kind"], v["detail"], v["trace"]), v["replay"])
    res = sorted(res, key=lambda d: -d["states"])
    for d in res[:4]: r.samples += ["%s: %s" % (d["scenario"], s) for s in d["samples"][:2]]
    r.extra = {"scenarios": len(res), "scenarios_hitting_state_cap": sum(d["capped"] for d in res), "deepest_bound_completed": max([d["bound"] for d in res if not d["capped"]] or [0]),
               "distinct_step_outcomes": sum(d["outcomes"] for d in res), "exhaustive": not any(d["capped"] for d in res)}
    if any(d["rest"] for d in res): r.extra["states_from_which_everything_was_released"] = sum(d["rest"] for d in res)
    r.assumptions = ASSUME
    return r
def run(pid, tier, rd):
    from scenarios import engine as sc
    import __main__
    build()
    cmps, texts = sc.bundle(pid, tier)
    return collect(__main__.Result(), explore(cmps, texts, pid, rd), pid)
def replay(f):
    build()
    return subprocess.run([OUT + "/explore", "--replay", f], env=dict(os.environ, SUT_DIR=OUT)).returncode

LOCK = "explicit-state model checking of the real key engine in lockstep with a reference engine"
INV = "explicit-state model checking of the real key engine with an invariant on every state"
def about(pid):
    t = INV if pid in ("K01", "K02", "K18") else LOCK
    return t, ("Breadth-first search over all key press/release/timer sequences up to the depth, key alphabet and time steps of each scenario; every transition executes the unmodified keyboard.c (compiled from /repo) "
               + ("and the invariant is evaluated in every state." if t is INV else "and is compared with an independently written reference engine (engine/model.h).")
               + " States are merged only on equal canonical forms of the whole program state. Trusted: the reference engine and configuration reader, the snapshot layer and the libc stand-ins.")
