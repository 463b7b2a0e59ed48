#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough]   decide one property on /repo's current tree
   run.py replay FILE                         re-execute a reported violation
   run.py setup                               prebuild what does not depend on /repo"""
import sys, os, json, time, subprocess, re, importlib, shutil
V = os.path.dirname(os.path.abspath(__file__)); os.environ["VERIF_DIR"] = V
sys.path.insert(0, V); sys.dont_write_bytecode = True
REPO = os.environ.get("REPO", "/repo")

def known():
    """known_findings: lines  'known: property=ID match=REGEX :: text'  and  'fixed: property=ID commit what'"""
    out = []
    p = V + "/known_findings"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", l.strip())
        if m: out.append((m[1], re.compile(m[2], re.S), m[3]))
    return out

class Result:
    """What a check module returns."""
    def __init__(s): s.states = s.transitions = s.traces = 0; s.samples = []; s.violations = []; s.extra = {}; s.assumptions = []
    def violation(s, key, text, replay): s.violations.append((key, text, replay))

def check(pid, tier):
    t0 = time.time()
    if tier == "quick": os.environ.setdefault("VERIF_DEADLINE", str(int(time.monotonic()) + 600))      # searches stop here, as if at a state cap
    import checks
    fn = checks.find(pid)
    rd = os.environ.get("VERIF_BUILD", V + "/build") + "/replays"; os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + "-"): os.unlink(rd + "/" + f)
    r = fn(pid, tier, rd)
    checks.also(r, pid, rd)
    kn = [k for k in known() if k[0] == pid]; bad = []; seen = {}
    for key, text, replay in r.violations:
        for k in kn:
            if k[1].search(key): seen.setdefault(k[2], 0); seen[k[2]] += 1; break
        else: bad.append((key, text, replay))
    cov = {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces, "samples": r.samples[:12]}
    cov.update(r.extra)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    if r.assumptions: ev["assumptions"] = r.assumptions
    if seen: ev["coverage"]["known_findings_seen"] = seen
    ed = os.environ.get("VERIF_EVIDENCE", V + "/evidence"); os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(ed + "/%s.json" % pid, "w"), indent=1)
    for k in kn: print("KNOWN-FINDING: property=%s %s%s" % (pid, k[2], "" if k[2] in seen else " (not reproduced within this run's bounds)"))
    for key, text, replay in bad[:20]:
        print(text.rstrip()); print("VIOLATION property=%s replay=%s" % (pid, replay))
    print("%s %s: %d states, %d transitions, %d traces, %d violations, %.1f s" % (pid, tier, r.states, r.transitions, r.traces, len(bad), time.time() - t0))
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    import checks
    if a[:1] == ["replay"]: sys.exit(checks.replay(a[1]))
    if a[:1] == ["setup"]: sys.exit(checks.setup())
    print(__doc__); sys.exit(2)
if __name__ == "__main__": main()
