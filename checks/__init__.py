"""Registry of the check modules."""
import os, subprocess, fcntl, contextlib
V = os.environ["VERIF_DIR"]; REPO = os.environ.get("REPO", "/repo"); BUILD = os.environ.get("VERIF_BUILD", V + "/build"); NCPU = int(os.environ.get("NCPU", str(os.cpu_count() or 8)))

MODULES = ["engine", "parser", "daemon", "gadget", "compose", "mapper", "cli"]
def mods():
    import importlib
    return [importlib.import_module("checks." + m) for m in MODULES]
def find(pid):
    for m in mods():
        if pid in m.IDS: return m.run
    raise SystemExit("unknown property " + pid)
def all_ids():
    """property -> (technique, level note)"""
    return {i: m.about(i) for m in mods() for i in m.IDS}

def also(r, pid, rd):
    """Properties of the engine and the configuration that the daemon around them can break: the same property on the whole daemon."""
    from scenarios import daemon as sc
    from . import daemon
    cmps, texts = sc.also(pid)
    if not texts: return
    daemon.build(pid); st, tr = r.states, r.transitions; ex = r.extra; asm = r.assumptions
    daemon.collect(r, daemon.dcheck(cmps, texts, pid, rd), pid)
    ex["whole_daemon"] = {"scenarios": r.extra["scenarios"], "states": r.states - st, "transitions": r.transitions - tr, "exhaustive": r.extra["exhaustive"]}
    r.extra = ex; r.assumptions = asm + ["whole daemon scenarios: " + a for a in daemon.ASSUME]

def replay(f):
    kind = None
    for l in open(f):
        if l.strip() and not l.startswith("#"): kind = l.strip(); break
    for m in mods():
        if m.__name__.split(".")[-1] == kind: return m.replay(f)
    raise SystemExit("cannot replay " + f)

def setup():
    for m in mods(): m.build()
    return 0

@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/%s.lock" % name, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX); yield
