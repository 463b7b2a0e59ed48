"""F01-F06, F08: exhaustive enumeration of configurations against an independent reader."""
import os, subprocess, json, sys, concurrent.futures as cf
from . import V, REPO, NCPU, BUILD, lock
IDS = ["F01", "F02", "F03", "F04", "F05", "F06", "F08"]
OUT = BUILD + "/par"
def env(): return dict(os.environ, KEYNAMES=V + "/data/keynames.tsv", COMPOSE=REPO + "/data/keyd.compose", REPO_DIR=REPO)
def build():
    with lock("par"):
        r = subprocess.run(["bash", V + "/parser/build.sh", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout); raise SystemExit(2)
def run(pid, tier, rd):
    import __main__
    build(); r = __main__.Result(); n = NCPU
    def one(i):
        p = subprocess.run([OUT + "/pcheck", pid, tier, "run", str(i), str(n), rd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        if p.returncode: raise RuntimeError("pcheck failed: %s" % p.stderr[-2000:])
        return json.loads(p.stdout)
    with cf.ThreadPoolExecutor(n) as ex: res = list(ex.map(one, range(n)))
    r.extra["inputs_enumerated"] = res[0]["total"]
    for d in res:
        r.states += d["distinct"]; r.transitions += d["items"]; r.traces += d["items"]; r.samples += d["samples"]
        for v in d["violations"]:
            f = "%s/%s-%s-%d.replay" % (rd, pid, v["space"], v["index"])
            open(f, "w").write("# %s\nparser\n%s %s %d\n%s" % (v["detail"].replace("\n", " "), pid, tier, v["index"], "".join("# " + l + "\n" for l in v["item"].splitlines())))
            r.violation("%s|%s|%s" % (v["space"], v["kind"], v["detail"]), "%s: %s\n%s" % (v["space"], v["detail"], v["item"]), f)
    sp = subprocess.run([OUT + "/pcheck", pid, tier, "list"], stdout=subprocess.PIPE, text=True, env=env()).stdout.splitlines()
    r.extra["spaces"] = dict(l.rsplit(" ", 1) for l in sp[:-1]); r.extra["exhaustive"] = all(not d["violations"] for d in res) and sum(d["items"] for d in res) == res[0]["total"]
    r.assumptions = ["bounds: the texts of the listed spaces", "files are served by an in-memory file system with short reads and failures; nothing else of config.c, ini.c, macro.c, keys.c, string.c, unicode.c, log.c is replaced"]
    return r
def replay(f):
    build(); l = [x for x in open(f).read().splitlines() if x and not x.startswith("#")][1].split()
    return subprocess.run([OUT + "/pcheck", l[0], l[1], "one", l[2]], env=env()).returncode
def about(pid):
    return ("bounded exhaustive model checking of the configuration loader against a reference reader",
            "Every text / file system state of the enumerated spaces is loaded by the unmodified loader (compiled from /repo with the address, bounds and overflow checkers) and by an independently written reader (engine/conf.h), and the resulting configurations are compared entry by entry. Trusted: the reference reader, the in-memory file system, the rendering of struct config (parser/pglue.c).")
