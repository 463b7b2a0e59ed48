"""M01, M02: the application mapper (and the GNOME extension and kwin script that feed it)."""
import os, sys, json, subprocess, itertools, tempfile, re
from . import V, BUILD, REPO, NCPU
IDS = ["M01", "M02"]
def build(): pass
SCRIPT = "/scripts/keyd-application-mapper"

# windows: class, title
WN = [["kitty", "~"], ["Kitty", "a b"], ["st-256color", "vim: foo_bar"], ["chromium", "x|y - find me"], ["", ""], ["Ünï Code", "日本 Ω_x"], ["a.b.C", "…"], ["tab\tclass", "a\tb"], ["org.gnome.Nautilus", "two\nlines\n"],
      ["[x]", "*"], ["-lead-", "--a--b--"], ["x" * 80, "y" * 2100], ["kitty", "~"], ["Foo_Bar", "foo_bar"], ["root", ""], ["🎉", "🎉 1"], ["a\"b'c$(d)", "`e`;f&g\\h"], ["%s", "{0}"], ["gnome", "Find it"], ["gnome2", "xfindx"], ["null", "undefined"], ["st-", "0"], ["st-1x", "é"]]
CF = ["", "[kitty]\n\na = b\n; = c\n;d = e\n", "# c\n\n[kitty]\n# d\na = b\n\n  c = macro(x y)  \n", "[kitty|*]\na = b\n[*]\na = c\n[kit*]\na = d\n", "[*|*find*]\na = b\n[gnome|*find*]\na = c\n[gnome]\nd = e\n", "[st-[0-9]*]\na = 1\n[st-?]\na = 2\n[st-[!0-9]*]\na = 3\n",
      "a = b\n[kitty]\nc = d\n", "[kitty]\na = b\n[kitty]\na = c\n", "[foo-bar|foo-bar]\na = b\n[a-b-c]\nx = y\n[|]\ne = e\n", "[*|日本-ω-x]\na = b\n[*|*é*]\na = c\n", "[Kitty]\na = upper\n[kitty|a-b]\na = t\n[kitty|a]\na = no\n", "[*]\ncontrol.1 = macro(Inside space chrome!)\nalt.] = C-tab\nx = command(echo 'a \"b\")\n",
      "[chromium|x-y*]\n[kitty]\n[lead|a-b]\n[ = ]\nq = r\n\t[tab-class|a-b]\n\tx = 1\n", "[x*x]\na = 1\n[*|y*]\na = 2\n[*y]\na = 3\n[??]\na = 4\n", "[*\n[kitty]]\na=b\n[kitty]\r\nc = d\r\n", "[a-b-c-d|e-f-g-h]\na = 1\n[s|0]\nb = 2\n[root]\nr = 1\n[null]\nn = 1\n[system-modal]\ns = 1\n",
      "".join("[*|*]\nk%d = v%d\n" % (i, i) for i in range(120))]
# histories
HW = [["kitty", "a b"], ["st-256color", "vim: foo_bar"], ["Kitty", "日本 c"], ["kitty", "a b"]]
HC = {"a": "[kitty]\nalt.] = C-tab\n[ki*|*b*]\nx = y\n[*]\nq = z\n", "b": "[kitty]\na = b\n[st*]\nc = d\n", "aold": "[st-*]\na = old\n[kitty]\na = older\n", "none": None, "bad": "[kitty]\nx = \udcff\n", "part": "[ki", "bold": "[*|*b*]\nt = u\n", "lead": "v = w\n[*]\ni = j\n"}
HIST = {"gnome": [["close"], ["open"]], "wlroots": [["title", 0, "zz b"], ["title", 3, "q"], ["close", 0], ["close", 3], ["noise", 0], ["blur"]], "cosmic": [["title", 0, "zz b"], ["title", 3, "q"], ["close", 0], ["close", 3], ["noise", 0], ["blur"]], "kde": [],
        "x": [["event"], ["root"], ["focus_none", 0], ["focus_none", 1], ["title", 0, "zz b"], ["float", "Foo", "f b"], ["float", "Dunst", "n", "_NET_WM_WINDOW_TYPE_NOTIFICATION"], ["float", "Dlg", "d", "_NET_WM_WINDOW_TYPE_DIALOG"]]}
COMMON = [["win", 0], ["win", 1], ["win", 2], ["win", 3], ["wins", 1, 2], ["wins", 0, 1, 0], ["cfg", "b"], ["cfg", "aold"], ["cfg", "bold"], ["cfg", "none"], ["cfg", "bad"], ["cfg", "part"], ["cfg", "lead"], ["usr1"], ["fail"]]
def alphabet(be, pid="M02"):
    """M01 without changes of the file and signals"""
    return [a for a in COMMON if (be != "kde" or a != ["usr1"]) and (pid == "M02" or a[0] not in ("cfg", "fail", "usr1"))] + HIST[be]

def node(args, inp):
    p = subprocess.run(["node", "--no-warnings", "--experimental-vm-modules", V + "/mapper/extension.mjs"] + args, input=json.dumps(inp), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: return None, p.stderr.strip().split("\n")
    return json.loads(p.stdout), None
def harness(jobs, scratch, n=None):
    n = n or NCPU; n = min(n, len(jobs)) or 1; ps = []
    for i in range(n):
        f = tempfile.TemporaryFile("w+"); f.write("\n".join(json.dumps(j) for j in jobs[i::n])); f.seek(0)
        o = tempfile.TemporaryFile("w+"); ps.append((subprocess.Popen([sys.executable, V + "/mapper/harness.py", REPO + SCRIPT, "%s/%d" % (scratch, i)], stdin=f, stdout=o), o))
    out = {}
    for p, o in ps:
        if p.wait(): raise RuntimeError("the mapper harness failed (%d)" % p.returncode)
        o.seek(0)
        for l in o: r = json.loads(l); out[r["id"]] = r
    return out

def jobs(pid, q, ext, kwin):
    out = []
    def add(be, kind, acts, windows, configs, start, **k):
        j = dict(id=len(out), backend=be, kind=kind, actions=acts, windows=windows, configs=configs, start=start, **k)
        if be == "gnome": j["messages"] = [ext[j.get("ext", 0)][json.dumps(w)] for w in windows]
        if be == "kde": j["dbus"] = [kwin[json.dumps(w)] for w in windows]
        out.append(j)
    BE = ["gnome", "wlroots", "cosmic", "kde", "x"]
    ends = {"wlroots": [["title", 0, "t0"], ["title", 3, "t3"]], "cosmic": [["title", 0, "t0"], ["title", 3, "t3"]]}
    if pid == "M01":
        for be in BE:
            # what is selected: every window against every config
            for ci, c in enumerate(CF):
                for perm in (list(range(len(WN))), list(range(len(WN)))[::-1]):
                    for k in ([{"ext": 0}, {"ext": 1}] if be == "gnome" else [{"shape": s} for s in range(5)] if be == "x" else [{}]):
                        add(be, "select", [["win", i] for i in perm], WN, {"c": c}, "c", **k)
                add(be, "options", [["win", 0], ["win", 2]], WN, {"c": c}, "c", argv=["-v"], env={"KEYD_DEBUG": "1"})
            # histories, in several variants of the window system
            A = alphabet(be, pid); tail = ends.get(be, []) + [["win", 1], ["win", 0]]
            for a in A: add(be, "history", [a], HW, HC, "a", tree=A, depth=2 if q else 4, suffix=tail)
            opts = {"gnome": [{"ext": 1}], "kde": [{"kde": "6"}], "x": [{"shape": s} for s in range(1, 5)]}.get(be) or [dict(variant=v, order=o, split=s, open=op) for v in range(4) for o in (0, 1) for s in (0, 7, 13) for op in ([], [0, 3])]
            for k in opts: add(be, "variant", [["win", 0]], HW, HC, "a", tree=A, depth=2 if q else 3, suffix=tail, **k)
            if be in ("wlroots", "cosmic"):
                for s in range(1, 40 if q else 120): add(be, "split", [["win", 0], ["win", 1], ["title", 1, "日本"], ["wins", 2, 3], ["usr1"], ["close", 3], ["win", 2]], HW, HC, "a", split=s)
        for k in range(1, 13):
            for w in ([["win", 1], ["win", 2], ["root"]]):
                add("x", "meanwhile", [["win", 1], ["win", 0], ["win", 1]], HW, HC, "a", before=[["arm", "x", k, w]])
                add("x", "meanwhile", [["win", 0], ["arm", "x", k, w]], HW, HC, "a", tree=alphabet("x", pid), depth=2 if q else 3, suffix=[["win", 1], ["win", 0]])
        for k in range(1, 17):
            for sh in range(5): add("x", "error", [["win", 0], ["err", k]], HW, HC, "a", shape=sh, tree=alphabet("x", pid), depth=1 if q else 2, suffix=[["win", 1], ["win", 2], ["win", 0]])
        return out
    for be in BE:
        add(be, "daemonize", [["win", 0], ["win", 1], ["cfg", "b"], ["win", 0]], HW, HC, "a", argv=["-d"])
        add(be, "locked", [["win", 0]], HW, HC, "a", locked=True, exits=True)
        add(be, "noconfig", [["win", 0]], HW, HC, "none", exits=True)
        A = alphabet(be); tail = ends.get(be, []) + [["win", 1], ["win", 0]]
        for a in A: add(be, "history", [a], HW, HC, "a", tree=A, depth=2 if q else 4, suffix=tail)
        # something happens meanwhile
        A = [a for a in alphabet(be) if a[0] in ("win", "wins", "cfg", "usr1", "root", "title")]
        for kind, n in (("c", 5),) + ((("x", 12),) if be == "x" else ()):
            what = [["cfg", c] for c in ("b", "aold", "none", "bad", "part")] + ([["usr1"]] if be != "kde" else [])
            for k in range(1, n + 1):
                for w in what:
                    if w[0] == "cfg" and w[1] not in ("none", "bad"): add(be, "meanwhile", [["win", 1], ["win", 0], ["win", 1]], HW, HC, "a", before=[["arm", kind, k, w]])
                    add(be, "meanwhile", [["win", 0], ["arm", kind, k, w]], HW, HC, "a", tree=A, depth=1 if q and kind == "x" else 2 if q else 3, suffix=tail)
    return out

def run(pid, tier, rd):
    import __main__
    r = __main__.Result(); q = tier == "quick"; V0 = V
    # the two extensions, in node
    allw = WN + HW; ext = []; bad = []
    for e in ("gnome-extension", "gnome-extension-45"):
        o, err = node([REPO + "/data/%s/extension.js" % e], allw + [None, ["Ask pass"]])
        if o is None: bad.append("%s does not run: %s" % (e, err[-1] if err else "")); o = [["%s\t%s\n" % tuple(w)] for w in allw] + [["root\t\n"], ["system-modal\tAsk pass\n"]]
        for w, m in zip(allw + [["root", ""], ["system-modal", "Ask pass"]], o):
            t = "".join(m)
            if t.count("\n") != 1 or not t.endswith("\n") or t.count("\t") != 1: bad.append("%s writes %r for the window %s" % (e, t, w))
        if o[-2:] != [["root\t\n"], ["system-modal\tAsk pass\n"]]: bad.append("%s writes %r without a window and for a modal dialog" % (e, o[-2:]))
        ext.append({json.dumps(w): m for w, m in zip(allw, o)})
    # the kwin script: taken from a first run of the mapper
    scratch = BUILD + "/mapper-" + pid; os.makedirs(scratch, exist_ok=True); kw = {}
    pre = harness([dict(id=i, backend="kde", configs={"a": ""}, start="a", windows=[], dbus=[], actions=[["script", scratch + "/kwin%d.js" % i]], kde=v) for i, v in enumerate("56")], scratch + "/s", 1)
    for i, v in enumerate("56"):
        p = scratch + "/kwin%d.js" % i
        if not os.path.exists(p): bad.append("KDE %s: no script is handed to kwin: %s" % (v, pre[i]["bad"])); continue
        o, err = node(["--kwin", p], allw)
        if o is None: bad.append("KDE %s: the kwin script does not run: %s" % (v, err[-1])); continue
        for w, x in zip(allw, o):
            if ("windowActivated" if v == "6" else "clientActivated") not in x["signals"]: bad.append("KDE %s: the kwin script listens to %s" % (v, x["signals"])); break
            kw[json.dumps(w)] = x["calls"]
    for w in allw: kw.setdefault(json.dumps(w), [["org.rvaiya.keyd", "/listener", "", "updateWindow", w[1], w[0], w[0]]])
    rep = rd + "/" + pid + "-feed.replay"
    if bad and pid == "M01":
        open(rep, "w").write("".join("# %s\n" % b for b in bad) + "mapper\n{}\n")
        for b in bad[:3]: r.violation("feed|" + b, b, rep)
    js = jobs(pid, q, ext, kw); out = harness(js, scratch + "/s"); kinds = {}; n = nl = 0
    for j in js:
        x = out[j["id"]]; k = "%s/%s" % (j["backend"], j["kind"]); c = kinds.setdefault(k, {"histories": 0, "actions": 0, "keyd_runs": 0, "points": 0})
        c["histories"] += x["leaves"]; c["actions"] += x["steps"]; c["keyd_runs"] += x["calls"]; c["points"] += x["points"]; nl += x["leaves"]
        r.traces += x["leaves"]; r.states += x["leaves"]; r.transitions += x["steps"]
        for bad_, trace, acts in x["bad"]:
            n += 1
            if n > 12: continue
            f = "%s/%s-%d.replay" % (rd, pid, n); text = "%s (%s): %s" % (j["backend"], j["kind"], bad_)
            jj = {k: v for k, v in j.items() if k not in ("tree", "depth", "suffix")}; jj["actions"] = acts
            open(f, "w").write("# %s\n" % text.replace("\n", " ") + "".join("# %s\n" % t.replace("\n", " ") for t in trace) + "mapper\n" + json.dumps(jj) + "\n")
            r.violation("%s|%s|%s" % (j["backend"], j["kind"], bad_), text[:600], f)
    r.samples = [{k: js[i]["actions"], "tree_depth": js[i].get("depth", 0)} for k, i in sorted({"%s/%s" % (j["backend"], j["kind"]): j["id"] for j in js}.items())]
    r.extra = {"histories": nl, "by_kind": kinds, "failing": n}
    r.assumptions = ["the window systems are stand-ins (a FIFO, a Wayland server on a socket pair, Xlib and D-Bus modules); KDE has no reload signal", "rewriting app.conf changes its modification time", "a signal before the script has installed its handler is excluded"]
    return r
def replay(f):
    ls = open(f).read().split("\n"); j = json.loads(next(l for i, l in enumerate(ls) if l and l[0] == "{"))
    for l in ls:
        if l.startswith("#"): print(l)
    if not j: return 1
    x = harness([j], BUILD + "/mapper/r", 1)[j["id"]]
    b = x["bad"]
    print("\n".join(b[0][1]) if b else ""); print(b[0][0] if b else "no violation"); return 1 if b else 0
def about(pid):
    return ("stateless model checking: exhaustive enumeration of bounded histories of the unmodified script against modelled window systems",
            "Every sequence of at most three (thorough: four) actions (focus changes, several at once, title changes, closed windows, rewritten, removed and broken configs, USR1, failing keyd) on each of the five window systems, and every place where the config or the focus changes while the script works, is executed; after each action the invocations of keyd are compared with an independent reference of the config format. What the GNOME extensions and the kwin script send is taken from running them in node. Trusted: the stand-ins for the window systems.")
