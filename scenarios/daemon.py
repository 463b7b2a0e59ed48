"""Scenarios of the daemon checks: devices, configuration files, clients, actions and bounds, per property.
bundle(prop, tier) -> (comparators, [scenario texts]).  Deterministic."""
import itertools, os

def esc(s):
    return "".join("\\n" if c == "\n" else "\\t" if c == "\t" else "\\0" if c == "\0" else "\\x5c" if c == "\\" else c if 32 <= ord(c) < 127 else "".join("\\x%02x" % b for b in (c.encode("utf-8", "surrogateescape"))) for c in s)
def D(id, devs, files, acts, clients=(), pre=(), depth=4, delays="5", **h):
    t = "#! id %s\n#! depth %d\n#! delays %s\n" % (id, depth, delays)
    for k, v in h.items(): t += "#! %s %s\n" % ("devs" if k == "budget" else k, v)
    for d in devs: t += "#! dev %s\n" % d
    n = set()
    for f in files:                                   # (set, path, text)
        t += "#! file %d %s %s\n" % (f[0], f[1], esc(f[2])); n.add(f[0])
    for c in clients: t += "#! client %s\n" % (c if isinstance(c, str) else c[0] + " | " + esc(c[1]))
    for p in pre: t += "#! pre %s\n" % p
    for a in acts: t += "#! act %s\n" % a
    return t
KB1 = "kb1 node=event0 name=kb1 product=1"; KB2 = "kb2 node=event1 name=kb2 product=2"; KB3 = "kb3 node=event3 name=kb3 product=3"
M1 = "m1 node=event2 name=mouse vendor=2 product=9 kind=rm"
BASE = "[ids]\n*\n[main]\na = b\nc = layer(nav)\nd = oneshot(shift)\ne = overload(nav, x)\n[nav]\na = left\n"
TWO1 = "[ids]\n0001:0001\n[main]\na = b\nc = layer(nav)\n[nav]\na = left\n"
TWO2 = "[ids]\n0001:0002\n[main]\na = z\nc = layer(nav)\n[nav]\na = right\n"
G = {}; MASK = {}
def group(prop, mask):
    def d(f): G.setdefault(prop, []).append(f); MASK[prop] = mask; return f
    return d

# ---------------------------------------------------------------- D01 clients
@group("D01", "keyb,exit,block,leak")
def d01(t):
    q = t == "quick"; out = []
    cl = [("silent bind 0 bytes=0", ""), ("closed bind 0 bytes=0 end=close", ""), ("reset bind 0 bytes=0 end=reset", ""), ("part bind 0 bytes=10", "a = z"), ("partclose bind 0 bytes=4100 end=close", "a = z"),
          ("partreset input 0 bytes=40 end=reset", "x"), ("kind99 99 0", "x"), ("kindneg -1 0", "x"), ("big macro 0 sz=4096", "x"), ("huge macro 0 sz=18446744073709551615", "x"), ("huge2 input 0 sz=4294967296", "x"), ("slow macro 4294967295", "x y"),
          ("extra bind 0 bytes=9000", "a = z"), ("unread bind 0 cap=0", "q q q"), ("unread10 macro 0 cap=10", "zz zz"), ("full bind 0 fill=4095", "a"), ("full6 input 0 fill=4095", "\x01"), ("nul bind 0", "\0\0\0"), ("empty bind 0", ""), ("emptyi input 0", ""), ("emptym macro 0", ""),
          ("utf input 0", "\udcc3("), ("utft input 0", "\udce2\udc82"), ("pct bind 0", "%s%n%s%n"), ("lay bind 0", "nosuch.a = b"), ("macfull macro 0 fill=4095", "a "), ("listen listen 0", ""), ("listencl listen 0 end=close", ""), ("listenrst listen 0 end=reset", ""), ("listenfull listen 0 cap=0", ""),
          ("gone reload 0 end=reset", ""), ("goneclose reload 0 end=close", "")]
    raw = [("junk raw", "x" * 4200), ("junk1 raw", "\x01"), ("zeros raw", "\0" * 4200), ("ones raw", "\udcff" * 4200)]
    names = [c[0].split()[0] for c in cl + raw]
    # every client, alone and paired with every other, between and together with key events
    keys = ["k kb1 a", "k kb1 c"]
    for i, a in enumerate(names):
        use = [c for c in cl + raw if c[0].split()[0] == a]
        out.append(D("one-%s" % a, [KB1], [(0, "a.conf", BASE)], keys + ["con %s" % a, "con %s; k kb1 a" % a, "con %s; con %s; con %s" % (a, a, a), "k kb1 e", "con %s; eintr" % a], use, depth=3 if q else 4, cap=30000))
    for a, b in itertools.combinations(names, 2):
        if q and (names.index(a) + names.index(b)) % 3: continue
        use = [c for c in cl + raw if c[0].split()[0] in (a, b)]
        out.append(D("two-%s-%s" % (a, b), [KB1], [(0, "a.conf", BASE)], ["k kb1 a", "con %s" % a, "con %s; con %s" % (b, a), "peerclose %s" % a, "failaccept; con %s" % b], use, depth=3, cap=30000))
    for a in names:                                   # while timers and macros run
        use = [c for c in cl + raw if c[0].split()[0] == a]
        out.append(D("timers-%s" % a, [KB1], [(0, "a.conf", "[ids]\n*\n[main]\na = timeout(x, 20, y)\nb = macro2(20, 10, k)\nc = overloadt(nav, z, 30)\n[nav]\na = 1\n")], ["k kb1 a", "k kb1 c", "con %s" % a, "con %s; tap kb1 b" % a], use, depth=3 if q else 4, cap=30000))
    for a in names:                                   # many of them
        use = [c for c in cl + raw if c[0].split()[0] == a]; out.append(D("churn-%s" % a, [KB1], [(0, "a.conf", BASE)], keys + ["con %s" % a, "con ok"], use + [("ok bind 0", "a = y")], pre=["con %s" % a, "tap kb1 a"] * 38, depth=2))
    # nothing managed at all
    out.append(D("nodev", [], [(0, "a.conf", BASE)], ["con %s" % n for n in names], cl + raw, depth=2)); out.append(D("noconf", [KB1], [], ["con %s" % n for n in names] + ["k kb1 a"], cl + raw, depth=2))
    return out

# ---------------------------------------------------------------- D02 requests
@group("D02", "keyb,ptr,cmd,sleep,reply,exit")
def d02(t):
    q = t == "quick"; out = []; dep = 4 if q else 5
    binds = ["a = z", "nav.a = up", "reset", "main.c = x", "[nope", "a = nosuchaction(", "nope.a = b", "q = command(echo hi)", "d = macro(h i)", "shift.a = 1", "e = overload(nav, y)", "a", "c+a = 2", "", "nav.q = clear()", " a = y ", "a=a", "a = noop", "= = x", "zzz = a", "a = \\", "control = a", "leftcontrol = a", "foo.bar.baz = x"]
    def bc(x): return ("b%d bind 0" % binds.index(x), x)
    two = [(0, "a.conf", TWO1), (0, "b.conf", TWO2)]; one = [(0, "a.conf", BASE)]
    for i, x in enumerate(binds):
        for j, y in enumerate(binds):
            if i > j or (q and (i + j) % 4): continue
            cs = [bc(x)] + ([bc(y)] if i != j else [])
            a = ["k kb1 a", "k kb1 c", "con b%d" % i] + (["con b%d" % j] if i != j else []) + ["con rs", "k kb1 q"]
            out.append(D("bind-%d-%d" % (i, j), [KB1], one, a, cs + [("rs bind 0", "reset")], depth=3 if q else 4, cap=30000))
    for i, x in enumerate(binds):                     # many of them
        out.append(D("churn-%d" % i, [KB1], one, ["k kb1 a", "k kb1 q", "con b%d" % i, "con rs"], [bc(x), ("rs bind 0", "reset")], pre=["con b%d" % i, "tap kb1 a"] * 36, depth=2))
        out.append(D("churn-rs-%d" % i, [KB1], one, ["k kb1 a", "k kb1 q", "con b%d" % i, "con rs"], [bc(x), ("rs bind 0", "reset")], pre=["con b%d" % i, "tap kb1 a", "con rs"] * 18, depth=2))
    # requests which arrive in two parts
    for n in (1, 3, 4, 8, 12, 100, 4107):
        out.append(D("split-%d" % n, [KB1], one, ["k kb1 a", "con b", "con i", "con m", "con rl", "con ls"], [("b bind 0 split=%d:40" % n, "a = z"), ("i input 0 split=%d:40" % n, "hi"), ("m macro 0 split=%d:40" % n, "x y"), "rl reload 0 split=%d:40" % n, "ls listen 0 split=%d:40" % n], depth=3, cap=20000))
    for x in binds:                                   # two keyboards with a configuration each
        i = binds.index(x)
        out.append(D("bindtwo-%d" % i, [KB1, KB2], two, ["k kb1 a", "k kb2 a", "k kb2 c", "con b%d" % i, "con rl", "con rs"], [bc(x), "rl reload 0", ("rs bind 0", "reset")], depth=3 if q else 4, cap=30000))
    T3 = [("0001:0001", "[nav]\na = 1\n"), ("0001:0002", "[nav]\na = 2\n[lay:layout]\na = q\n"), ("0001:0004", "[lay:layout]\na = w\n")]   # three configurations in every order, which know different layers
    for n, pm in enumerate(itertools.permutations(T3)):
        f = [(0, "abc"[i] + ".conf", "[ids]\n%s\n[main]\na = b\n%s" % x) for i, x in enumerate(pm)]
        cs = ["main.c = x", "nav.c = y", "c = layer(nav)", "c = setlayout(lay)", "lay.c = z", "c = overload(none, x)", "nope.c = x"]
        out.append(D("bindthree-%d" % n, [KB1, KB2, "kb4 node=event3 name=kb4 product=4"], f, ["k kb1 c", "k kb2 c", "k kb4 c"] + ["con b%d" % i for i in range(len(cs))] + ["con rs"], [("b%d bind 0" % i, x) for i, x in enumerate(cs)] + [("rs bind 0", "reset")], depth=3 if q else 4, cap=60000))
    ins = [("i0 input 0", "a"), ("i1 input 0", "Hi\n"), ("i2 input 1000", "a b"), ("i3 input 0", "\u00e9\u20ac"), ("i4 input 0", "a\udcffb"), ("i5 input 0", "\t~|"), ("i6 input 1000001", "a"), ("i7 input 1000000", "a")]
    macs = [("m0 macro 0", "a b"), ("m1 macro 0", "C-a hello"), ("m2 macro 1000", "a 5ms b"), ("m3 macro 0", "a+b 3ms"), ("m4 macro 0", "macro(x y)"), ("m5 macro 0", "type(hi)"), ("m6 macro 0", "zzzzz( q"), ("m7 macro 0", "C-S-x \u00e9"), ("m8 macro 0", "a\n"), ("m9 macro 0", "leftshift+b"), ("m10 macro 0", "C-zz"), ("m11 macro 0", "C-a\n"), ("m12 macro 0", "x enter\n\n"), ("m13 macro 0", "\n\n"), ("m14 macro 0", "a+b\n"), ("m15 macro 0", "x 3ms\n")]
    al = ins + macs
    for i, c in enumerate(al):
        n = c[0].split()[0]; o = al[(i + 5) % len(al)]
        out.append(D("type-%s" % n, [KB1], one, ["k kb1 a", "k kb1 c", "k kb1 d", "con %s" % n, "con %s" % o[0].split()[0]], [c, o], depth=dep if q else dep, cap=30000))
    out.append(D("mix", [KB1], one, ["k kb1 a", "k kb1 c", "con i0", "con m1", "con b", "con rs", "con rl", "con bad", "con ls"], [ins[0], macs[1], ("b bind 0", "a = z"), ("rs bind 0", "reset"), "rl reload 0", ("bad bind 0", "q q"), "ls listen 0"], depth=dep, cap=60000))
    out.append(D("kinds", [KB1], one, ["con k%d" % i for i in range(9)] + ["k kb1 a"], [("k%d %s 0" % (i, ["success", "fail", "7", "8", "255", "-1", "2147483647", "reload", "listen"][i]), "a = z") for i in range(9)], depth=3))
    out.append(D("active", [KB1, KB2], two, ["k kb1 a", "k kb2 a", "con m", "con i", "con b; k kb2 a", "k kb1 a; con b", "add kb3"], [("m macro 0", "C-a"), ("i input 0", "q"), ("b bind 0", "a = x")], depth=dep, cap=60000) .replace("#! act add kb3\n", ""))
    out.append(D("macrotime", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\na = macro(x 5ms y)\nb = macro2(20, 10, k)\nc = timeout(p, 20, q)\n")], ["k kb1 a", "k kb1 b", "k kb1 c", "con m", "con b"], [("m macro 2000", "a 3ms b"), ("b bind 0", "a = macro(1 2ms 2)")], depth=dep, cap=60000))
    return out

# ---------------------------------------------------------------- D03 listeners
LCONF = "[ids]\n*\n[main]\na = layer(one)\nb = toggle(two)\nc = oneshot(one)\nd = setlayout(lay)\ne = overload(one, x)\nf = setlayout(main)\n[one]\n[two]\nb = toggle(two)\n[lay:layout]\n1 = 2\n[one+two]\ng = h\n"
@group("D03", "text,keyb,leak,exit,block")
def d03(t):
    q = t == "quick"; out = []; dep = 4 if q else 5; f = [(0, "a.conf", LCONF)]
    base = ["ls listen 0", "l2 listen 0", "lc listen 0 end=close", "lr listen 0 end=reset", "lf listen 0 cap=3", "rl reload 0"]
    ks = ["a", "b", "c", "d", "e", "f", "control"]
    for n, pre in (("reset", ["con lr", "tap kb1 a"] * 38), ("close", ["con ls", "tap kb1 a", "peerclose ls", "tap kb1 a"] * 38), ("mixed", ["con ls", "con lr", "con lc", "tap kb1 a", "peerclose ls"] * 12)):
        out.append(D("churn-" + n, [KB1], f, ["k kb1 a", "k kb1 c", "con ls", "con l2", "peerclose l2"], base, pre=pre, depth=dep, cap=30000))
    for x, y in itertools.combinations(ks, 2):
        if q and x == "f": continue
        kx, ky = ["k kb1 %s" % {"control": "leftcontrol"}.get(k, k) for k in (x, y)]
        out.append(D("lay-%s-%s" % (x, y), [KB1], f, [kx, ky, "con ls", "con l2", "peerclose ls"], base, depth=dep, cap=30000))
    out.append(D("early", [KB1], f, ["con ls", "k kb1 a", "con rl", "con l2", "k kb1 b"], base, depth=dep + 1, cap=40000))
    out.append(D("drop", [KB1], f, ["con ls; max 2", "con lf; max 2", "con lr; max 2", "con lc; max 1", "peerclose lf", "peerfull ls 4", "peerfull ls 0", "k kb1 a", "k kb1 b"], base, depth=dep, cap=60000))
    out.append(D("drop2", [KB1], f, ["con ls; con lf; con l2; max 1", "peerclose l2; k kb1 a", "peerclose ls; peerclose l2; k kb1 b", "peerfull ls 4; k kb1 a", "k kb1 a", "k kb1 b", "con l2; k kb1 a"], base, depth=dep, cap=60000))
    out.append(D("timed", [KB1], [(0, "a.conf", "[ids]\n*\n[global]\noneshot_timeout = 30\n[main]\na = oneshot(one)\nb = overloadt(one, x, 20)\nc = timeout(x, 10, layer(one))\n[one]\n")], ["k kb1 a", "k kb1 b", "k kb1 c", "con ls; max 2"], base, depth=dep + 1, cap=40000))
    out.append(D("composite", [KB1], [(0, "a.conf", "[ids]\n*\n[global]\nlayer_indicator = 1\n[main]\na = layer(nav+sy)\nb = toggle(nav+sy)\nc = oneshot(nav+sy)\nd = layer(nav)\ne = setlayout(lay)\n[nav]\n[sy:C]\n[nav+sy]\nx = y\n[lay:layout]\n")], ["k kb1 a", "k kb1 b", "k kb1 c", "k kb1 d", "k kb1 e", "con ls", "con l2"], base, depth=dep, cap=60000))
    # with devices of two configurations only the layers of the one in use are told at first
    out.append(D("two", [KB1, KB2], [(0, "a.conf", TWO1), (0, "b.conf", TWO2)], ["k kb1 c", "k kb2 c", "k kb1 a", "con ls; max 2", "con rl"], base, depth=dep + 1, cap=40000))
    # the limit
    pre = ["k kb1 a", "k kb1 a"] + ["con ls"] * 30
    out.append(D("limit", [KB1], f, ["con l2; max 3", "k kb1 a", "k kb1 b", "peerclose ls", "con lr; max 2"], base, pre, depth=dep, cap=40000))
    out.append(D("limit2", [KB1], f, ["con l2; max 3", "k kb1 a", "con rl", "peerclose l2; k kb1 b"], base, pre + ["con ls"] * 2, depth=dep, cap=40000))
    longname = "x" * 32
    for n in (62, 63, 64, 65):
        out.append(D("long%d" % n, [KB1], [(0, "a.conf", "[ids]\n*\n[main]\na = layer(%s)\nb = setlayout(%s)\n[%s]\n[%s:layout]\n" % ("x" * n, "y" * n, "x" * n, "y" * n))], ["k kb1 a", "k kb1 b", "con ls"], base, depth=dep, cap=40000))
    out.append(D("long", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\na = layer(%s)\nb = setlayout(%s)\n[%s]\n[%s:layout]\n" % (longname[:31], "y" * 30, longname[:31], "y" * 30))], ["k kb1 a", "k kb1 b", "con ls", "con lf"], base, depth=dep, cap=40000))
    out.append(D("many", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\n" + "".join("%s = toggle(layer_number_%s)\n" % (c, c) for c in "abcdefghijklmnopqrstuvwxy") + "".join("[layer_number_%s]\n" % c for c in "abcdefghijklmnopqrstuvwxy"))], ["con ls; max 3", "tap kb1 a", "tap kb1 y"], base, ["tap kb1 %s" % c for c in "abcdefghijklmnopqrstuvwxy"], depth=dep, cap=40000))
    return out

# ---------------------------------------------------------------- D04 reload
@group("D04", "grab,keyb,exit")
def d04(t):
    q = t == "quick"; out = []; dep = 4 if q else 5
    sets = [
        [("a.conf", BASE)],
        [("a.conf", TWO1)],
        [("a.conf", TWO1), ("b.conf", TWO2)],
        [("a.conf", "[ids]\n*\n[main]\na = \n = \n[[["), ("b.conf", TWO2)],
        [],
        [("a.conf", "no section\n")],
        [("a.conf", "[ids]\n*\n-0001:0002\n[main]\na = y\n")],
        [("a.conf", "[ids]\nk:0001:0001\nm:0002:0009\n[main]\na = y\n")],
        [("a.conf", "[ids]\n*\n[global]\ndefault_layout = dv\noverload_tap_timeout = 10\n[main]\na = y\n[dv:layout]\na = u\n")],
        [("a.conf", "include common\n[ids]\n*\n[main]\na = 1\n"), ("common", "[main]\nc = 2\n")],
        [("a.conf", "[ids]\n*\n[main]\na = nosuch(\nc = 3\n")],
        [("a.conf", "\x01unreadable"), ("b.conf", TWO2)],
        [("a.conf", ""), ("b.conf", TWO1)],
        [("a.conf/", ""), ("b.conf", TWO1), ("c.txt", BASE), (".conf", TWO2)],
        [("a.conf", "[main]\na = 4\n")],
        [("c.txt", BASE), ("b.conf", TWO1)],
        [("b.conf", TWO2), ("x.conf~", BASE), ("conf", BASE), ("x.con", BASE), ("xconf", BASE), ("a.conf.bak", BASE)],
        [("a.conf", "[ids]\n0001:0002\n0002:0009\n[main]\na = command(date)\n"), ("b.conf", BASE)],
        [("a.conf", "[ids]\n*\n[main]\n" + "x" * 300 + "\na = 5\n")],
    ]
    devs = [KB1, KB2, M1]
    for i, j in itertools.permutations(range(len(sets)), 2):
        if q and not (i == 0 or j == 0 or (i * 3 + j) % 5 == 0): continue
        f = [(0, p, x) for p, x in sets[i]] + [(1, p, x) for p, x in sets[j]]
        a = ["k kb1 a", "k kb2 a", "k kb1 c", "fs 1", "fs 0", "con rl", "fs 1; con rl"] + (["e m1 1 272 1; e m1 1 272 0"] if i in (7, 15) or j in (7, 15) else [])
        x = D("sets-%d-%d" % (i, j), devs, f, a, ["rl reload 0"], depth=3 if q else 4, cap=30000)
        if i == 4: x += "#! fileset 0\n"
        if j == 4: x += "#! fileset 1\n"
        out.append(x)
    # valid and broken files in every order
    kinds = {"1": "[ids]\n0001:0001\n[main]\na = %s\n", "2": "[ids]\n0001:0002\n[main]\na = %s\n", "w": "[ids]\n*\n[main]\na = %s\n", "x": "junk\n", "y": "[main]\na = b\n"}
    seqs = [s for s in itertools.product("12wx", repeat=4) if all(s.count(c) < 2 for c in "12w")] + [s for s in itertools.product("12wxy", repeat=3) if all(s.count(c) < 2 for c in "12wxy")]
    for n in range(0, len(seqs), 8):
        part = seqs[n:n + 8]; f = []
        for i, s in enumerate(part): f += [(i, "%s.conf" % "abcd"[j], kinds[c] % "qrst"[j] if "%" in kinds[c] else kinds[c]) for j, c in enumerate(s)]
        out.append(D("order-%d" % n, [KB1, KB2, KB3], f, ["k kb1 a", "k kb2 a", "k kb3 a"] + ["fs %d; con rl" % i for i in range(len(part))], ["rl reload 0"], depth=3 if q else 4, cap=60000))
    # reload in the middle of everything
    mid = "[ids]\n*\n[main]\na = overload(nav, x)\nb = macro2(20, 10, k)\nc = oneshot(nav)\nd = timeout(x, 20, y)\ne = toggle(nav)\nf+g = 1\nh = leftshift\ni = layer(control)\nj = swap(nav)\n[nav]\na = left\nj = up\n"
    for x, y in itertools.combinations("abcdefhij", 2):
        if q and (ord(x) + ord(y)) % 2: continue
        out.append(D("mid-%s-%s" % (x, y), [KB1], [(0, "a.conf", mid), (1, "a.conf", BASE)], ["k kb1 %s" % x, "k kb1 %s" % y, "con rl", "fs 1; con rl", "con rl; k kb1 %s" % x], ["rl reload 0"], depth=dep, cap=30000))
    # many reloads
    out.append(D("churn", [KB1, KB2, KB3], [(0, "a.conf", TWO1), (0, "b.conf", TWO2), (1, "a.conf", BASE), (2, "a.conf", mid)], ["k kb1 a", "k kb2 a", "k kb3 a", "con rl", "fs 2; con rl"], ["rl reload 0"], pre=["con rl", "tap kb1 a", "fs 1; con rl", "tap kb2 c", "fs 2; con rl", "fs 0"] * 13, depth=3))
    out.append(D("churn-dev", [KB1, KB2, KB3], [(0, "a.conf", TWO1), (1, "a.conf", BASE)], ["k kb1 a", "k kb2 a", "rem kb2", "add kb2", "con rl", "fs 1; con rl"], ["rl reload 0"], pre=["con rl", "rem kb2", "tap kb1 a", "fs 1; con rl", "add kb2", "tap kb2 c", "fs 0"] * 20, depth=3))
    # every code that can be down at a reload
    keys = list(range(1, 256)) + list(range(0x110, 0x118)) + list(range(0x160, 0x2c0))
    for i in range(0, len(keys), 24): out.append(D("down-%d" % i, [KB1], [(0, "a.conf", "[ids]\n*\n")], ["con rl"] + ["e kb1 1 %d 1" % c for c in keys[i:i + 24]], ["rl reload 0"], depth=2))
    # a keyboard with a pointer among several configurations
    km = "km node=event6 name=km vendor=3 product=11 kind=kr"
    for n, (x, y) in enumerate([("[ids]\n*\n[main]\na = x\n", "[ids]\n0001:0001\n[main]\na = y\n"), ("[ids]\nk:0003:000b\n[main]\na = x\n", "[ids]\n*\n[main]\na = y\n"), ("[ids]\nm:0003:000b\n[main]\na = x\n", "[ids]\n*\n-0003:000b\n[main]\na = y\n"), ("[ids]\nm:0003:000b\n[main]\na = x\n", "[ids]\n*\n[main]\na = y\n"), ("[ids]\n*\nm:0002:0009\n", "[ids]\n0003:000c\n")]):
        out.append(D("pointerkeys-%d" % n, [KB1, km, M1], [(0, "a.conf", x), (0, "b.conf", y), (1, "a.conf", y), (1, "b.conf", x), (2, "a.conf", y)], ["k kb1 a", "k km a", "e km 2 0 5", "k km #272", "e m1 2 1 3", "k m1 #272", "fs 1; con rl", "fs 2; con rl"], ["rl reload 0"], depth=3, cap=30000))
    # devices coming and going around a reload
    out.append(D("devs", [KB1, KB2 + " present=0", M1], [(0, "a.conf", TWO1), (1, "a.conf", TWO2), (2, "a.conf", BASE)], ["k kb1 a", "k kb2 a", "add kb2", "rem kb2", "rem kb1", "add kb1", "fs 1; con rl", "fs 2; con rl", "rem kb1; con rl", "add kb2; con rl"], ["rl reload 0"], depth=dep, cap=60000))
    out.append(D("busy", [KB1 + " held=2", KB2], [(0, "a.conf", TWO2), (1, "a.conf", BASE)], ["k kb1 a", "k kb2 a", "fs 1; con rl", "fs 0; con rl"], ["rl reload 0"], depth=dep, cap=60000))
    for n, o in (("3", " held=3"), ("btn", " kind=krm held=3 heldkey=272"), ("far", " held=2 heldkey=700"), ("top", " held=4 heldkey=255")):
        out.append(D("busy-%s" % n, [KB1 + o, KB2 + " held=2"], [(0, "a.conf", TWO2), (1, "a.conf", BASE)], ["k kb1 a", "k kb2 a", "fs 1; con rl", "fs 0; con rl"], ["rl reload 0"], depth=dep, cap=60000))
    out.append(D("grabfail", [KB1 + " fail=grab", KB2], [(0, "a.conf", BASE), (1, "a.conf", TWO2)], ["k kb1 a", "k kb2 a", "fs 1; con rl", "fs 0; con rl"], ["rl reload 0"], depth=dep, cap=60000))
    out.append(D("bind", [KB1], [(0, "a.conf", BASE)], ["k kb1 a", "con b", "con rl", "con rs", "k kb1 c"], ["rl reload 0", ("b bind 0", "a = z"), ("rs bind 0", "reset")], depth=dep, cap=60000))
    return out

# ---------------------------------------------------------------- D05 hotplug
@group("D05", "grab,keyb,leak,exit")
def d05(t):
    q = t == "quick"; out = []; dep = 5 if q else 6
    f = [(0, "a.conf", BASE)]; f2 = [(0, "a.conf", TWO1), (0, "b.conf", TWO2)]
    p0 = " present=0"
    for n, files in (("one", f), ("two", f2)):
        out.append(D("plug-%s" % n, [KB1, KB2 + p0, M1], files, ["k kb1 a", "k kb2 a", "k kb1 c", "add kb2", "rem kb2", "rem kb1", "add kb1"], depth=dep, cap=60000))
        out.append(D("plugtogether-%s" % n, [KB1, KB2 + p0, M1], files, ["k kb1 a; rem kb1", "rem kb1; rem m1", "add kb1; add kb2", "add kb2; k kb1 a", "k kb1 a", "k kb2 c; k kb2 a", "rem kb2; add kb1", "rem kb2; k kb1 c", "k kb1 a; k kb2 a"], depth=dep - 1, cap=60000))
        out.append(D("held-%s" % n, [KB1, KB2], files, ["k kb1 c", "k kb1 a", "k kb2 c", "k kb2 a", "rem kb1", "add kb1"], depth=dep, cap=60000))
    for mode in ("kd", "k"):
        out.append(D("timers-%s" % mode, [KB1, KB2 + p0], [(0, "a.conf", "[ids]\n*\n[main]\na = overload(nav, x)\nb = macro2(20, 10, k)\nc = timeout(x, 20, y)\nd = oneshot(nav)\n[nav]\na = left\n")], ["k kb1 a", "k kb1 b", "k kb1 c", "k kb2 d", "add kb2", "rem kb1", "rem kb2", "add kb1"], depth=dep - 1, cap=60000))
    # every code that can be held when the keyboard goes away
    keys = list(range(1, 256)) + list(range(0x110, 0x118)) + list(range(0x160, 0x2c0))
    out.append(D("gone-any", [KB1, KB2], [(0, "a.conf", "[ids]\n*\n")], ["e kb1 1 %d 1; rem kb1" % c for c in keys], depth=1))
    out.append(D("gone-late", [KB1, KB2], [(0, "a.conf", "[ids]\n*\n")], ["e kb1 1 %d 1" % c for c in list(range(120, 256, 3)) + list(range(0x110, 0x118))] + ["rem kb1"], depth=2))
    fails = ["open", "key", "rel", "abs", "name", "id", "grab", "led", "getkey"]
    for x in fails:
        out.append(D("fail-%s" % x, [KB1, KB2 + p0 + " fail=" + x], f, ["k kb1 a", "add kb2", "rem kb2", "k kb2 a", "k kb1 c"], depth=dep, cap=30000))
        out.append(D("failstart-%s" % x, [KB2 + " fail=" + x, KB1, M1], f, ["k kb1 a", "rem kb2", "add kb2", "k kb2 a", "k kb1 c"], depth=dep, cap=30000))
    # long histories: nothing may wear out
    out.append(D("churn", [KB1, KB2 + p0, M1 + p0], f, ["k kb1 a", "k kb2 a", "add kb2", "rem kb2", "add m1", "k kb1 c"], pre=["add kb2", "tap kb2 a", "rem kb2", "add m1", "rem m1", "node mouse5"] * 70, depth=3))
    out.append(D("churn-fail", [KB1, KB2 + p0 + " fail=grab", KB3 + p0], f, ["k kb1 a", "k kb2 a", "add kb2", "add kb3", "k kb3 c", "rem kb3"], pre=["add kb2", "rem kb2", "node event77"] * 70, depth=3))
    out.append(D("churn-quiet", [KB1, KB2 + p0], f, ["k kb1 a", "k kb2 a", "add kb2", "rem kb2"], pre=["node js%d" % i for i in range(600)] + ["add kb2"], depth=3))
    out.append(D("fail-absinfo", [KB1, "t1 node=event5 name=tab kind=ka present=0 fail=absinfo", "t2 node=event6 name=tab kind=ka present=0"], f, ["k kb1 a", "add t1", "add t2", "rem t2", "k t2 a", "k t1 a"], depth=dep, cap=30000))
    out.append(D("virtual", [KB1, "v1 node=event4 name=keyd vendor=4012 product=2782", "v2 node=event5 name=keyd vendor=4012 product=2783 present=0", "v3 node=event6 name=x vendor=4012 product=1 kind=kr present=0"], f, ["k kb1 a", "k v1 a", "k v2 a", "add v2", "rem v1", "add v1", "add v3", "k v3 c"], depth=dep - 1, cap=60000))
    out.append(D("virtualids", [KB1, "v1 node=event4 name=keyd vendor=4012 product=2782"], [(0, "a.conf", "[ids]\n0fac:0ade\n[main]\na = b\n"), (0, "b.conf", BASE)], ["k kb1 a", "k v1 a", "rem v1", "add v1"], depth=dep, cap=30000))
    out.append(D("nodes", [KB1, "x1 node=mouse7 name=x1 product=2 present=0", "x2 node=event9 name=x2 product=2 present=0", "x3 node=event99 name=x3 product=3 present=0", "x4 node=eventdir dir=1 present=0"], f, ["add x1", "add x2", "add x3", "node event77", "node by-id", "k x1 a", "k x2 a", "k x3 a", "rem x2", "k kb1 a"], depth=dep - 1, cap=60000))
    out.append(D("batch", [KB1, KB2 + p0, KB3 + p0], f, ["node mouse9; add kb2", "add kb2; node js0; add kb3", "node by-id; node mouse1; node event77; add kb3", "rem kb2; rem kb3; node js1", "k kb2 a", "k kb3 a", "k kb1 c"], depth=dep, cap=60000))
    out.append(D("reuse", [KB1, "y1 node=event0 name=other product=5 present=0", KB2], f, ["k kb1 c", "rem kb1", "add y1", "rem y1", "add kb1", "k y1 a", "k kb2 a"], depth=dep, cap=60000))
    out.append(D("readd", [KB1, KB2], f, ["rem kb1; node event0", "add kb1", "add kb1; k kb1 a", "k kb1 a", "k kb2 c", "rem kb2; rem kb1"], depth=dep, cap=60000))
    out.append(D("kinds", [KB1, "b1 node=event4 name=b kind=b present=0", "vv node=event5 name=v kind=v present=0", "kr node=event6 name=kr kind=kr present=0", "ab node=event7 name=ab kind=a present=0", "no node=event8 name=no kind=x present=0", "bm node=event9 name=bm kind=rmb present=0", "pt node=event10 name=pt kind=p present=0", "pr node=event11 name=pr kind=prm present=0"], f,
              ["add b1", "add vv", "add kr", "add ab", "add no", "add bm", "add pt", "add pr", "k pr #272", "k pt 1", "k kr a", "k kb1 c", "k b1 brightnessup", "k bm #272"], depth=dep - 1, cap=60000))
    for n, o in (("1", " held=1"), ("3", " held=3"), ("btn", " kind=krm held=3 heldkey=272"), ("far", " held=2 heldkey=700"), ("top", " held=4 heldkey=255")):
        out.append(D("grab-%s" % n, [KB1 + o, KB2 + p0 + o], f, ["k kb1 a", "k kb1 c", "k kb2 a", "add kb2", "rem kb2", "rem kb1"], depth=dep - 1, cap=30000))
    longn = "L" * 300
    out.append(D("names", [KB1, "n1 node=event4 name=%s product=2 present=0" % longn, "n2 node=event5 name=x product=65535 vendor=65535 present=0"], [(0, "a.conf", "[ids]\nffff:ffff\n0001:0002\n[main]\na = b\n")], ["add n1", "add n2", "k n1 a", "k n2 a", "rem n1", "k kb1 a"], depth=dep, cap=30000))
    # the table of devices is full
    many = ["d%d node=event%d name=d product=%d" % (i, 100 + i, i + 100) for i in range(63)]
    out.append(D("full", many + [KB1 + p0, KB2 + p0], f, ["add kb1", "add kb2", "k kb1 a", "k kb2 a", "k d0 a", "rem d0"], depth=4, cap=2000))
    out.append(D("overfull", many + [KB3, KB1, KB2 + p0], f, ["add kb2", "k d62 a", "k d0 a", "rem d0", "rem d62", "k kb2 a"], depth=3, cap=2000) if False else D("full2", many + [KB1], f, ["k kb1 a", "k d0 a", "rem d0; rem d5", "rem kb1", "add kb1", "add d0"], depth=4, cap=2000))
    return out

# ---------------------------------------------------------------- D06 panic
@group("D06", "exit")
def d06(t):
    q = t == "quick"; out = []; dep = 5 if q else 7
    f = [(0, "a.conf", BASE)]; fm = [(0, "a.conf", "[ids]\n0001:0001\n[main]\na = backspace\nb = esc\nc = enter\nesc = a\nenter = layer(nav)\nbackspace = noop\n[nav]\n")]
    P = ["backspace", "esc", "enter"]
    for n, files in (("all", f), ("remap", fm), ("none", [])):
        out.append(D("one-" + n, [KB1], files, ["k kb1 %s" % p for p in P] + ["k kb1 a", "k kb1 b", "k kb1 c"], depth=dep, cap=60000))
        out.append(D("two-" + n, [KB1, KB2], files, ["k kb1 %s" % p for p in P] + ["k kb2 %s" % p for p in P] + ["rem kb1", "rem kb2"], depth=dep if n == "all" else dep - 1, cap=60000))
        out.append(D("plug-" + n, [KB1, KB2 + " present=0"], files, ["k kb1 backspace", "k kb1 esc", "k kb2 enter", "k kb2 esc", "add kb2", "rem kb1", "add kb1", "rem kb2", "con rl"], ["rl reload 0"], depth=dep, cap=60000))
        out.append(D("oneact-" + n, [KB1, KB2, M1], files, ["kd kb1 backspace; kd kb1 esc", "kd kb1 enter", "ku kb1 esc; kd kb1 enter", "ku kb1 enter; kd kb1 esc; ku kb1 backspace", "kd kb2 enter; kd kb1 esc; ku kb2 enter", "rem kb1", "k kb1 a; k kb2 a", "rem kb1; kd kb2 enter", "k m1 #272"], depth=dep, cap=60000))
    out.append(D("timeouts", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\nbackspace = overloadt(nav, x, 20)\nesc = timeout(x, 10, y)\nenter = macro2(20, 10, k)\n[nav]\nesc = z\n")], ["k kb1 %s" % p for p in P] + ["k kb1 a"], depth=dep, delays="5 15", late=7, early=1, budget=1, cap=60000))
    out.append(D("reload", [KB1, KB2], [(0, "a.conf", TWO1), (1, "a.conf", TWO2)], ["k kb1 esc", "k kb1 enter", "k kb2 backspace", "k kb2 enter", "fs 1; con rl", "fs 0; con rl"], ["rl reload 0"], depth=dep, cap=60000))
    out.append(D("macro", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\na = macro(backspace+esc+enter)\nb = backspace\nc = enter\nd = esc\n")], ["k kb1 %s" % c for c in "abcd"] + ["con m", "con i"], [("m macro 0", "backspace+esc+enter"), ("i input 0", "\n")], depth=dep, cap=60000))
    out.append(D("repeat", [KB1], f, ["e kb1 1 14 1", "e kb1 1 14 2", "e kb1 1 1 2", "e kb1 1 28 2", "e kb1 1 1 1", "e kb1 1 28 1", "e kb1 1 28 0", "e kb1 4 4 28"], depth=dep - 1, cap=60000))
    for n, files in (("all", f), ("none", [])):
        out.append(D("three-" + n, [KB1, KB2, KB3], files, ["k kb1 backspace", "k kb1 enter", "k kb2 esc", "k kb3 enter", "k kb3 backspace", "k kb2 enter", "rem kb2", "rem kb3"], depth=dep - 1, cap=60000))
    # nothing but the three keys: every other key together with two of them
    import re
    for two in itertools.combinations(P, 2):
        other = [c for c in range(1, 256) if c not in (1, 14, 28)]
        out.append(D("others-" + "-".join(two), [KB1], f, ["e kb1 1 %d 1; e kb1 1 %d 0" % (c, c) for c in other] + ["e kb1 1 %d 1; e kb1 1 %d 0" % (c, c) for c in list(range(256, 768))], pre=["kd kb1 %s" % k for k in two], depth=1))
    return out

# ---------------------------------------------------------------- D07 time
@group("D07", "time,keyb,exit")
def d07(t):
    q = t == "quick"; out = []; dep = 4 if q else 5
    T1 = "[ids]\n*\n[main]\na = overloadt(nav, x, 20)\nb = timeout(y, 15, z)\nc = macro2(20, 10, k)\nd = oneshot(nav)\ne = overloadt2(nav, x, 12)\nf = overload(nav, w)\n[nav]\na = left\nb = 1\n[global]\noneshot_timeout = 30\noverload_tap_timeout = 18\n"
    T2 = "[ids]\n0001:0002\n[main]\na = overloadt(nav, p, 13)\nb = timeout(q, 25, r)\nc = macro2(15, 10, s)\n[nav]\na = left\n"
    for x, y in itertools.combinations_with_replacement("abcdef", 2):
        a = ["k kb1 %s" % x] + (["k kb1 %s" % y] if x != y else []) + ["k kb1 g"]
        out.append(D("two-%s%s" % (x, y), [KB1], [(0, "a.conf", T1)], a, depth=dep, delays="5 11", late=9, early=1, budget=1 if q else 2, cap=20000 if q else 60000))
    out.append(D("configs", [KB1, KB2], [(0, "a.conf", T1.replace("*", "0001:0001")), (0, "b.conf", T2)], ["k kb1 a", "k kb1 b", "k kb2 a", "k kb2 b", "k kb2 c"], depth=dep, delays="3 8", late=9, early=1, budget=1, cap=40000))
    out.append(D("clients", [KB1], [(0, "a.conf", T1)], ["k kb1 a", "k kb1 b", "k kb1 c", "con s", "con i", "con rl", "con s; k kb1 b"], ["s bind 0 bytes=0", ("i input 3000", "ab"), "rl reload 0"], depth=dep, delays="4", late=7, budget=1, cap=40000))
    out.append(D("plug", [KB1, KB2 + " present=0", M1], [(0, "a.conf", T1)], ["k kb1 a", "k kb1 b", "k kb2 a", "add kb2", "rem kb2", "rem kb1", "k m1 #272", "e m1 2 0 1"], depth=dep, delays="4", late=7, early=1, budget=1, cap=40000))
    out.append(D("eintr", [KB1], [(0, "a.conf", T1)], ["k kb1 a", "k kb1 b", "k kb1 a; eintr", "eintr", "wake", "k kb1 c", "node xyz"], depth=dep, delays="4 9", late=7, budget=1, cap=40000))
    out.append(D("chord", [KB1], [(0, "a.conf", "[ids]\n*\n[global]\nchord_timeout = 12\nchord_hold_timeout = 20\n[main]\na+b = x\nb+c = layer(nav)\nd = overloadt(nav, y, 15)\n[nav]\na = 1\n")], ["k kb1 a", "k kb1 b", "k kb1 c", "k kb1 d"], depth=dep, delays="3 7", late=9, early=1, budget=1, cap=40000))
    out.append(D("macros", [KB1], [(0, "a.conf", "[ids]\n*\n[global]\nmacro_timeout = 25\nmacro_repeat_timeout = 12\n[main]\na = macro(x 8ms y)\nb = macro(k)\nc = overloadt(nav, macro(1 5ms 2), 15)\n[nav]\na = 1\n")], ["k kb1 a", "k kb1 b", "k kb1 c"], depth=dep + 1, delays="3 9", late=40, early=1, budget=2, cap=40000))
    out.append(D("longidle", [KB1], [(0, "a.conf", T1)], ["k kb1 a", "k kb1 f", "k kb1 d"], depth=dep, delays="5 70000 200000000", late=100000, early=1, budget=1, cap=40000))
    return out

# ---------------------------------------------------------------- D08 events
@group("D08", "keyb,ptr,exit")
def d08(t):
    q = t == "quick"; out = []
    ids = "[ids]\n*\n0002:0009\n0003:000a\n"; conf = ids + "[main]\na = b\nleftmouse = x\nf13 = y\nscrollup = p\nf = scroll(4)\ng = scrollt(3)\nc = layer(nav)\nd = oneshot(shift)\n[nav]\nf14 = left\nscrolldown = scrollup\n"
    A1 = "ab node=event5 name=tab vendor=3 product=10 kind=kra absx=-100:1000 absy=0:32767"; A2 = "ab node=event5 name=tab vendor=3 product=10 kind=ra absx=0:0 absy=10:5"
    f = [(0, "a.conf", conf)]
    keys = []
    for c in range(0, 768): keys.append("e kb1 1 %d 1; e kb1 1 %d 0" % (c, c))
    for lo in range(0, 768, 96): out.append(D("key-%d" % lo, [KB1, M1, A1], f, keys[lo:lo + 96], depth=2 if not q else 1))
    for lo in range(0, 768, 96): out.append(D("btn-%d" % lo, [KB1, M1, A1], f, [k.replace("kb1", "m1") for k in keys[lo:lo + 96]] , depth=1))
    for lo in range(256, 768, 64):
        out.append(D("rep-%d" % lo, [KB1, M1, A1], f, ["e m1 1 %d 1; e m1 1 %d 2; e m1 1 %d 0" % (c, c, c) for c in range(lo, lo + 64)], depth=1))
        out.append(D("os-%d" % lo, [KB1, M1, A1], f, ["e m1 1 %d 1; e m1 1 %d 0; tap kb1 x" % (c, c) for c in range(lo, lo + 64)], pre=["tap kb1 d"], depth=1))
    held = ["e kb1 1 %d 1" % c for c in list(range(1, 128)) + list(range(183, 195)) + [0x110, 0x111, 0x112, 0x113, 0x114, 0x115, 0x116, 0x117, 0x100, 0x109, 0x140, 0x1d0, 0x1d1, 0x1d2, 0x1dd]]
    out.append(D("plain", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\n")], keys, depth=1))
    out.append(D("hold", [KB1], [(0, "a.conf", "[ids]\n*\n[main]\n")], held, depth=2, cap=60000))
    vals = [-2147483648, -100, -5, -2, -1, 0, 1, 2, 3, 7, 100, 2147483647]
    rel = ["e m1 2 %d %d" % (c, v) for c in range(0, 16) for v in vals if not (c in (6, 8) and abs(v) > 100)]
    big = ["e m1 2 %d %d" % (c, v) for c in (6, 8) for v in (-300, 300, 255, -255)]
    ab = ["e ab 3 %d %d" % (c, v) for c in list(range(0, 12)) + [24, 47, 53, 63] for v in (-2147483648, -101, -100, -99, -1, 0, 1, 5, 10, 11, 450, 999, 1000, 1001, 32767, 32768, 2147483647)]
    other = ["e %s %d %d %d" % (d, ty, c, v) for d in ("kb1", "m1", "ab") for ty in (0, 4, 5, 6, 17, 18, 20, 21, 22, 23, 31, 99) for c in (0, 1, 3, 16, 255, 768, 65535) for v in (0, 1, 2, -1)]
    for n, pre in (("", []), ("scroll", ["kd kb1 f"]), ("scrollt", ["tap kb1 g"]), ("nav", ["kd kb1 c"]), ("oneshot", ["tap kb1 d"])):
        out.append(D("rel" + n, [KB1, M1, A1], f, rel, pre=pre, depth=1)); out.append(D("abs" + n, [KB1, M1, A1], f, ab, pre=pre, depth=1)); out.append(D("abs2" + n, [KB1, M1, A2], f, ab, pre=pre, depth=1))
    out.append(D("other", [KB1, M1, A1], f, other, depth=1)); out.append(D("big", [KB1, M1, A1], f, [b for b in big if abs(int(b.split()[-1])) <= 200] or ["k kb1 a"], depth=1))
    for n, x, y in (("wacom", "0:44704", "-40000:40000"), ("large", "-3000000:3000000", "0:2000000"), ("max", "-2147483648:2147483647", "0:2147483647"), ("neg", "-5000:-1000", "-1:0")):
        lo, hi = map(int, x.split(":")); pts = sorted(set([lo, lo + 1, hi - 1, hi, (lo + hi) // 2, lo + (hi - lo) // 4, 0, -1, 1, 32767, 32768, 40000, -32769, 70000, 2147483647, -2147483648]))
        out.append(D("range-" + n, [KB1, M1, "ab node=event5 name=tab vendor=3 product=10 kind=kra absx=%s absy=%s" % (x, y)], f, ["e ab 3 %d %d" % (c, v) for c in (0, 1) for v in pts], depth=1))
    sens = [(0, "a.conf", "[ids]\n*\n0002:0009\n[main]\n" + "".join("%s = scroll(%d)\n%s = scrollt(%d)\n" % (k, v, l, v) for k, l, v in (("a", "f", 200), ("b", "g", -5), ("c", "h", 1000), ("d", "i", 128), ("e", "j", 32767), ("k", "l", -300))))]
    out.append(D("sens", [KB1, M1], sens, ["k kb1 %s" % k for k in "abcdek"] + ["tap kb1 %s" % k for k in "fghijl"] + ["e m1 2 %d %d" % (c, v) for c in (0, 1) for v in (-600, -150, 4, 130, 250, 1100, 70000)], depth=2 if q else 3, cap=60000))
    # motion in a row: scroll mode sums it up
    for n, pre in (("s4", ["kd kb1 f"]), ("s3", ["tap kb1 g"]), ("plain", [])):
        out.append(D("moves-" + n, [KB1, M1], f, ["e m1 2 %d %d" % (c, v) for c in (0, 1) for v in (-9, -1, 1, 3, 6)] + ["k kb1 f", "tap kb1 g", "r m1 2 0 1; e m1 2 1 2", "e m1 2 8 1"], pre=pre, depth=3 if q else 4, cap=60000))
    # one kind of event after another: nothing of an event may remain for the next
    mix = ["e m1 2 0 5", "e m1 2 0 -1", "e m1 2 1 7", "e m1 2 1 -2", "e m1 2 8 1", "e m1 2 8 -1", "e m1 2 6 1", "e m1 2 6 -1", "e m1 2 3 4", "e m1 2 11 120", "k m1 #272", "k m1 #277", "k m1 #276", "e ab 3 0 450", "e ab 3 1 999", "e ab 3 24 7", "k ab #330", "e kb1 17 1 1", "e kb1 4 4 30", "k kb1 a", "k kb1 #466", "e kb1 1 30 2", "k kb1 c"]
    for n, ff in (("", f), ("-un", [(0, "a.conf", "[ids]\n*\n-0002:0003\n[main]\na = b\n")]), ("-ptr", [(0, "a.conf", "[ids]\nm:*\n[main]\na = b\nwheelleft = x\n")])):
        out.append(D("mix" + n, [KB1, M1, A1], ff, mix, depth=3 if q else 4, cap=30000 if q else 400000))
    for n, pre in (("scroll", ["kd kb1 f"]), ("scrollt", ["tap kb1 g"])): out.append(D("mix-" + n, [KB1, M1, A1], f, mix, pre=pre, depth=2 if q else 3, cap=100000))
    # several events between synchronisations, and events of unmanaged devices
    out.append(D("batch", [KB1, M1], f, ["r kb1 1 30 1; r kb1 1 48 1; e kb1 1 30 0; ", "r m1 2 0 1; r m1 2 1 1; r m1 1 272 1; e m1 2 8 -1", "r kb1 4 4 30; r kb1 1 48 0; e kb1 1 99 1", "r kb1 99 1 1; r kb1 1 46 1; e kb1 1 46 0", "r m1 1 272 0; e kb1 1 99 0", "r kb1 0 3 0; e kb1 1 50 1", "e kb1 1 50 0"], depth=4, cap=60000))
    out.append(D("unmanaged", [KB1, M1, A1], [(0, "a.conf", "[ids]\n0009:0009\n[main]\na = b\n")], keys[1:60] + rel[:40] + ab[:20], depth=1))
    out.append(D("repeat", [KB1], f, ["e kb1 1 30 1", "e kb1 1 30 2", "e kb1 1 30 0", "e kb1 1 30 3", "e kb1 1 30 -1", "e kb1 1 46 1", "e kb1 1 46 0"], depth=4 if q else 5, cap=60000))
    return out

# ---------------------------------------------------------------- D09 output
def names():
    return [l.rstrip("\n").split("\t")[:2] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data/keynames.tsv")) if not l.startswith("#")]
@group("D09", "keyb,ptr,enabled,exit")
def d09(t):
    q = t == "quick"; out = []; ns = [n for c, n in names() if n != "-NONE-"]
    code = {n: c for c, n in names()}; phys = [n for c, n in names() if n != "-NONE-" and int(c) <= 120 and int(c) not in (14, 1, 28)]
    out.append(D("setup", [KB1], [(0, "a.conf", BASE)], ["k kb1 a"], depth=0, mode="setup"))
    for i in range(0, len(ns), 60):
        part = ns[i:i + 60]; conf = "[ids]\n*\n[main]\n" + "".join("%s = %s\n" % (p, n) for p, n in zip(phys, part))
        out.append(D("key-%d" % i, [KB1], [(0, "a.conf", conf)], ["k kb1 #%s" % code[p] for p in phys[:len(part)]], depth=2, cap=60000))
        out.append(D("tap-%d" % i, [KB1], [(0, "a.conf", conf)], ["tap kb1 #%s" % code[p] for p in phys[:len(part)]], depth=1 if q else 2, cap=60000))
    # every code by way of a macro request and of a macro
    out.append(D("macro", [KB1], [(0, "a.conf", BASE)], ["con c%d" % i for i in range(len(ns))], [("c%d macro 0" % i, n) for i, n in enumerate(ns)], depth=1))
    for m in "CSMAG":
        sub = ns[:120] if q else ns
        out.append(D("mod-%s" % m, [KB1], [(0, "a.conf", BASE)], ["con c%d" % i for i in range(len(sub))], [("c%d macro 0" % i, "%s-%s" % (m, n)) for i, n in enumerate(sub)], depth=1))
    mouse = ["leftmouse", "rightmouse", "middlemouse", "mouse1", "mouse2", "mouseback", "mouseforward", "scrollup", "scrolldown", "scrollleft", "scrollright", "zoom", "voicecommand", "noop"]
    conf = "[ids]\n*\n0002:0009\n[main]\n" + "".join("%s = %s\n" % (k, n) for k, n in zip("abcdefghijklmn", mouse)) + "o = overload(shift, leftmouse)\np = macro(leftmouse rightmouse)\nq = oneshot(control)\nr = C-leftmouse\ns = scroll(2)\n"
    acts = ["k kb1 %s" % k for k in "abcdefghijklmnopqrs"]
    out.append(D("mouse", [KB1, M1], [(0, "a.conf", conf)], acts + ["e m1 2 0 3", "e m1 2 8 1", "k m1 #272", "k m1 #273"], depth=3, cap=30000 if q else 100000))
    out.append(D("reload", [KB1, M1], [(0, "a.conf", conf)], ["k kb1 %s" % k for k in "abhlo"] + ["con rl", "k m1 #272"], ["rl reload 0"], depth=4, cap=30000))
    return out

# ---------------------------------------------------------------- D11 LEDs
@group("D11", "led,exit,enabled")
def d11(t):
    q = t == "quick"; out = []; dep = 4 if q else 5; V1 = "v1 node=event4 name=keyd vendor=4012 product=2782"
    conf = "[ids]\n*\n[global]\nlayer_indicator = 1\n[main]\na = layer(nav)\nb = toggle(two)\nc = oneshot(nav)\nd = setlayout(lay)\ne = overload(two, x)\nf = overloadt(nav, x, 20)\n[nav]\n[two]\n[lay:layout]\n"
    leds = ["e v1 17 %d %d" % (l, v) for l in (0, 1, 2) for v in (0, 1)]
    for n, c in (("plain", BASE), ("ind", conf)):
        out.append(D("mirror-" + n, [KB1, KB2, V1], [(0, "a.conf", c)], leds + ["k kb1 a", "k kb2 b"], depth=3, cap=30000))
        out.append(D("plug-" + n, [KB1, KB2 + " present=0", V1], [(0, "a.conf", c)], leds[1:4] + ["add kb2", "rem kb1", "add kb1", "k kb1 a", "rem v1", "add v1"], depth=dep, cap=30000))
        out.append(D("fail-" + n, [KB1 + " fail=led", KB2, V1], [(0, "a.conf", c)], leds[1:4] + ["k kb1 a", "k kb2 a", "k kb2 b"], depth=dep, cap=30000))
        out.append(D("part-" + n, [KB1, KB2, M1, V1], [(0, "a.conf", c.replace("*", "0001:0001"))], leds[:4] + ["k kb1 a", "k kb2 a", "e kb2 17 1 1", "e kb1 17 1 1", "con rl"], ["rl reload 0"], depth=dep - 1, cap=30000))
    out.append(D("odd", [KB1, V1], [(0, "a.conf", BASE)], ["e v1 17 %d %d" % (l, v) for l in range(0, 16) for v in (0, 1, 2, -1)] + ["e v1 1 30 1", "e kb1 17 0 1", "e v1 20 0 1"], depth=1 if q else 2))
    out.append(D("layers", [KB1], [(0, "a.conf", conf)], ["k kb1 %s" % k for k in "abcdef"], depth=dep + 1, delays="5 30", cap=60000))
    out.append(D("composite", [KB1], [(0, "a.conf", "[ids]\n*\n[global]\nlayer_indicator = 1\n[main]\na = layer(nav+sy)\nb = toggle(nav+sy)\nc = oneshot(nav+sy)\nd = layer(nav)\ne = setlayout(lay)\n[nav]\n[sy:C]\n[nav+sy]\nx = y\n[lay:layout]\n")], ["k kb1 %s" % k for k in "abcdex"], depth=dep + 1, cap=60000))
    out.append(D("mods", [KB1], [(0, "a.conf", conf)], ["k kb1 %s" % k for k in ("leftshift", "leftcontrol", "a", "capslock")], depth=dep, cap=30000))
    out.append(D("two", [KB1, KB2, V1], [(0, "a.conf", conf.replace("*", "0001:0001")), (0, "b.conf", conf.replace("*", "0001:0002"))], ["k kb1 a", "k kb2 b", "k kb1 b", "e v1 17 1 1", "e v1 17 1 0", "con rl"], ["rl reload 0"], depth=dep, cap=30000))
    out.append(D("twoboards", [KB1, KB2], [(0, "a.conf", conf)], ["k kb1 a", "k kb2 b", "rem kb1", "add kb1", "k kb2 a"], depth=dep, cap=30000))
    return out

# ---------------------------------------------------------------- D13 clicks of unmanaged mice
@group("D13", "keyb,text,exit")
def d13(t):
    q = t == "quick"; out = []; dep = 4 if q else 5
    conf = "[ids]\n*\n[main]\na = oneshot(nav)\nb = oneshot(shift)\nc = layer(nav)\nd = overload(nav, x)\ne = toggle(nav)\nf = macro2(20, 10, k)\ng = overloadt(nav, x, 20)\nh = overloadt2(nav, x, 20)\ni = swap(nav)\nj = oneshotm(nav, y)\nk+l = z\nm = timeout(p, 20, q)\nn = leftshift\n[nav]\na = left\no = 1\ni = up\n"
    clicks = ["k m1 #272", "e m1 1 273 1", "e m1 2 0 5"]
    for x, y in itertools.combinations("abcdefghijkmn", 2):
        if q and (ord(x) * 7 + ord(y)) % 3: continue
        out.append(D("click-%s%s" % (x, y), [KB1, M1], [(0, "a.conf", conf)], ["k kb1 %s" % x, "k kb1 %s" % y, "k kb1 o", "k m1 #272", "con ls; max 1"], ["ls listen 0"], depth=dep, cap=30000))
    for x in "abcdefghijkmn":
        out.append(D("kinds-%s" % x, [KB1, M1, "t1 node=event5 name=pad vendor=3 product=10 kind=ra", "t2 node=event6 name=screen vendor=3 product=11 kind=a"], [(0, "a.conf", conf)], ["k kb1 %s" % x, "k m1 #272", "k t2 #330", "e t2 3 1 7", "e m1 1 330 1; e m1 1 330 0", "e m1 2 8 1", "e m1 2 8 -3", "e m1 2 6 1", "e m1 2 0 5", "k t1 #330", "e t1 3 0 50", "e m1 4 4 1", "e m1 1 30 1; e m1 1 30 0"], depth=3, cap=30000))
    out.append(D("two", [KB1, KB2, M1], [(0, "a.conf", conf.replace("*", "0001:0001")), (0, "b.conf", conf.replace("*", "0001:0002"))], ["tap kb1 a", "tap kb2 a", "k kb1 o", "k kb2 o", "k m1 #272", "rem kb1"], depth=dep + 1, cap=30000))
    out.append(D("managed", [KB1, M1], [(0, "a.conf", conf.replace("*", "*\n0002:0009"))], ["tap kb1 a", "tap kb1 b", "k kb1 o", "k m1 #272", "e m1 2 8 1", "e m1 2 0 1"], depth=dep, cap=30000))
    out.append(D("noactive", [KB1, M1], [(0, "a.conf", conf)], ["k m1 #272", "con rl", "tap kb1 a", "k kb1 o", "rem m1"], ["rl reload 0"], depth=dep + 1, cap=30000))
    out.append(D("kbmouse", [KB1, "km node=event6 name=km vendor=3 product=11 kind=kr"], [(0, "a.conf", conf.replace("*", "0001:0001"))], ["tap kb1 a", "k kb1 o", "k km #272", "k km a", "k km leftshift"], depth=dep, cap=30000))
    return out

# ---------------------------------------------------------------- D14 several devices
@group("D14", "keyb,text,exit")
def d14(t):
    q = t == "quick"; out = []; dep = 5 if q else 6
    conf = "[ids]\n*\n[main]\na = layer(nav)\nb = oneshot(shift)\nc = toggle(nav)\nd = overload(nav, x)\ne = leftshift\nf+g = z\nh = overloadt(nav, y, 20)\ni = swap(nav)\nj = C-q\nk = setlayout(lay)\nl = timeout(p, 15, q)\n[nav]\no = left\na = 1\n[lay:layout]\no = 2\n"
    one = [(0, "a.conf", conf)]; two = [(0, "a.conf", conf.replace("*", "0001:0001")), (0, "b.conf", conf.replace("*", "0001:0002").replace("o = left", "o = right"))]
    for n, fs in (("same", one), ("own", two)):
        for x in "abcdefhijkl":
            y = "g" if x == "f" else "o"
            out.append(D("%s-%s" % (n, x), [KB1, KB2], fs, ["k kb1 %s" % x, "k kb2 %s" % x, "k kb1 %s" % y, "k kb2 %s" % y], depth=dep, cap=30000))
        for x, y in itertools.combinations("abcdefhi", 2):
            if q and (ord(x) + ord(y)) % 2: continue
            out.append(D("%s2-%s%s" % (n, x, y), [KB1, KB2], fs, ["k kb1 %s" % x, "k kb2 %s" % y, "k kb1 o", "k kb2 o", "k kb2 o; k kb1 %s" % x], depth=dep - 1 if q else dep, cap=30000))
        out.append(D("%s-three" % n, [KB1, KB2, KB3], fs, ["k kb1 a", "k kb2 a", "k kb3 a", "k kb3 o", "k kb2 o", "rem kb1"], depth=dep, cap=30000))
        out.append(D("%s-mouse" % n, [KB1, KB2, M1], [(s, p, x.replace("[main]\n", "0002:0009\n[main]\nleftmouse = r\n", 1) if p == "a.conf" else x) for s, p, x in fs], ["k kb1 a", "k kb2 b", "k m1 #272", "e m1 2 8 1", "k kb1 o"], depth=dep - 1, cap=30000))
        out.append(D("%s-bind" % n, [KB1, KB2], fs, ["k kb1 a", "k kb2 o", "k kb1 o", "con b", "con ls; max 1"], [("b bind 0", "nav.o = up"), "ls listen 0"], depth=dep, cap=30000))
    return out

# ---------------------------------------------------------------- D10 the start-up scan
@group("D10", "keyb")
def d10(t):
    q = t == "quick"; out = []
    kinds = {"kbd": "", "mouse": "vendor=2 kind=rm", "tablet": "kind=am absx=-5:900 absy=10:20", "kbdabs": "kind=ka", "bright": "kind=b", "nothing": "kind=m", "virt": "vendor=4012", "badopen": "fail=open", "badkey": "fail=key", "badrel": "kind=rm fail=rel",
             "badabs": "kind=am fail=abs", "badname": "fail=name", "badid": "fail=id", "badinfo": "kind=am fail=absinfo", "absent": "present=0", "dir": "dir=1", "same": "product=77 name=twin", "sub": "product=77 name=twin~one", "sub2": "product=77 name=twin~two", "part": "kind=p"}
    def devs(ks): return ["d%d node=event%d %s %s" % (i, i * 3, kinds[n] if "name=" in kinds[n] else "name=%s%d " % (n, i) + kinds[n], "" if "product" in kinds[n] else "product=%d" % (i + 1)) for i, n in enumerate(ks)]
    def scen(id, ks, **h): out.append(D(id, devs(ks), [], [], depth=h.pop("depth", 0), mode="scan", cap=h.pop("cap", 300000), **h))
    scen("none", [])
    for a in kinds: scen("one-" + a, [a], depth=1)
    for a, b in itertools.product(kinds, repeat=2): scen("two-%s-%s" % (a, b), [a, b])
    for a, b in itertools.product(["kbd", "tablet", "badname"], repeat=2): scen("every-%s-%s" % (a, b), [a, b], depth=1)
    for x in itertools.product(["kbd", "mouse", "badopen", "badname", "tablet"] if q else ["kbd", "mouse", "badopen", "badname", "tablet", "nothing", "badid", "same"], repeat=3): scen("three-" + "-".join(x), x)
    if not q:
        for x in itertools.product(["kbd", "mouse", "badopen", "badname"], repeat=4): scen("four-" + "-".join(x), x)
        for x in itertools.product(["kbd", "badname"], repeat=5): scen("five-" + "-".join(x), x, cap=1500000)
    cyc = ["kbd", "mouse", "badopen", "tablet", "nothing", "badname", "virt", "same"]
    for n, pb in [(8, 2), (16, 1)] + ([] if q else [(8, 3), (16, 2), (24, 1)]): scen("many-%d-%d" % (n, pb), [cyc[i % 8] for i in range(n)], preempt=pb)
    for n in (32, 63, 64): scen("many-%d" % n, [cyc[i % 8] for i in range(n)], preempt=0)
    scen("full-64", ["kbd"] * 64, preempt=0)
    for n in (65, 70): scen("over-%d" % n, [cyc[i % 8] if n == 70 else "kbd" for i in range(n)], preempt=0)
    return out

# ---------------------------------------------------------------- C02 keyd monitor
@group("C02", "keyb,ptr,grab,led,exit,leak")
def c02(t):
    q = t == "quick"; out = []; dep = 4 if q else 5; cap = 40000 if q else 300000
    p0 = " present=0"; v1 = "v1 node=event4 name=keyd vendor=4012 product=2782"; ta = "t1 node=event6 name=tab kind=kam absx=0:1000 absy=0:500"
    for mode in ("monitor", "monitor-t", "monitor-file", "monitor-t-file"):
        f = [(0, "a.conf", BASE)]; g = [] if "file" in mode else ["readergone", "k kb1 a; readergone"]
        out.append(D("keys-" + mode, [KB1, KB2, v1], f, ["k kb1 a", "k kb2 a", "k kb1 leftshift", "k v1 x", "k kb2 #113"] + g, depth=dep, delays="3 40", mode=mode, cap=cap))
        out.append(D("devs-" + mode, [KB1, KB2 + p0, M1 + p0], f, ["k kb1 a", "k kb2 a", "k m1 #272", "add kb2", "rem kb2", "add m1", "rem m1", "rem kb1", "add kb1", "add kb2; k kb2 c", "k kb1 a; rem kb1"] + g[:1], depth=dep, delays="3", mode=mode, cap=cap))
        out.append(D("kinds-" + mode, [KB1, M1, ta], f, ["k kb1 a", "k m1 #272", "e m1 2 0 5", "e m1 2 8 1", "e m1 2 6 -1", "e t1 3 0 500", "k t1 b", "e kb1 17 1 1", "e kb1 4 4 30", "e kb1 1 30 2", "k m1 #277"], depth=dep - 1, delays="3 17", mode=mode, cap=cap))
        out.append(D("panic-" + mode, [KB1, KB2], f, ["k kb1 backspace", "k kb1 esc", "k kb2 enter", "k kb1 a", "rem kb2"] + g[:1], depth=dep, mode=mode, cap=cap))
        out.append(D("longidle-" + mode, [KB1, KB2 + p0], f, ["k kb1 a", "k kb2 a", "add kb2"], depth=dep, delays="5 700000000 5000000000", mode=mode, cap=cap))
        out.append(D("burst-" + mode, [KB1, KB2], f, ["tap kb1 a; tap kb1 b; tap kb2 a", "tap kb2 c; tap kb1 c; rem kb1", "k kb1 a", "eintr", "wake; tap kb1 a", "add kb1", "node mouse3; tap kb2 z"], depth=dep, mode=mode, cap=cap))
    for x in ["open", "key", "rel", "abs", "name", "id", "grab", "led", "getkey"]:
        out.append(D("fail-" + x, [KB1, KB2 + p0 + " fail=" + x, KB3 + " fail=" + x], [(0, "a.conf", BASE)], ["k kb1 a", "k kb2 a", "k kb3 a", "add kb2", "rem kb2", "rem kb3"], depth=3, mode="monitor", cap=cap))
    # every key code
    for lo in range(0, 768, 32):
        out.append(D("codes-%d" % lo, [KB1], [], ["tap kb1 #%d" % c for c in range(max(lo, 1), lo + 32) if c and not 195 <= c <= 199 and not 0x140 <= c <= 0x14f], depth=1, mode="monitor"))
    out.append(D("names", [KB1, "n1 node=event4 name=%s product=2 present=0" % ("L" * 300), "n2 node=event5 name=r{x}%s%n product=65535 vendor=65535"], [], ["k kb1 a", "add n1", "k n1 a", "k n2 a", "rem n1", "rem n2", "add n2"], depth=3, mode="monitor-t"))
    for n in (63, 64): out.append(D("full-%d" % n, ["d%d node=event%d name=d%d product=%d" % (i, i, i, i) for i in range(n)] + ["x1 node=event90 name=x1 product=90 present=0", "x2 node=event91 name=x2 product=91 present=0"], [], ["add x1", "add x2", "k d0 a", "k x1 b", "rem d3", "k d62 c"], depth=4, mode="monitor", cap=3000))
    return out

# ---------------------------------------------------------------- D15 what commands and other processes see of the daemon
@group("D15", "inherit,exit")
def d15(t):
    conf = "[ids]\n*\n[main]\na = command(true)\nb = overload(nav, command(date))\nc = macro(command(x) y)\nd = layer(nav)\n[nav]\na = command(false)\n"
    out = [D("inherit", [KB1, KB2 + " present=0", M1], [(0, "a.conf", conf)], ["k kb1 a", "k kb1 b", "k kb1 d", "con ls", "con b", "add kb2", "con rl"], ["ls listen 0", ("b bind 0", "q = command(ls)"), "rl reload 0"], depth=4, cap=30000)]
    out.append(D("inherit-many", [KB1], [(0, "a.conf", conf)], ["k kb1 a", "tap kb1 b", "k kb1 c"], pre=["tap kb1 a"] * 6, depth=3))
    # several daemons: depth = processes started, budget = crashes and stops, late = what an earlier run left behind, early = finer steps
    for stale in range(4):
        for n, f in [(2, 0), (2, 1), (3, 1), (3, 2)] + ([] if t == "quick" else [(4, 2), (4, 3), (5, 4)]):
            out.append(D("procs-%d-%d-%d" % (stale, n, f), [KB1, M1], [(0, "a.conf", BASE)], [], depth=n, mode="procs", budget=f, late=stale, cap=2000000))
        out.append(D("fine-%d" % stale, [KB1], [(0, "a.conf", BASE)], [], depth=2, mode="procs", budget=1, late=stale, early=1, cap=2000000))
    for i, devs in enumerate([[], [KB1, KB2, KB3], [M1], [KB1, KB2 + " fail=grab"]][:3]):
        out.append(D("devs-%d" % i, devs, [(0, "a.conf", BASE)], [], depth=3, mode="procs", budget=1, late=3, cap=2000000))
    return out

# ---------------------------------------------------------------- D16 who may reach the control socket
@group("D16", "exit")
def d16(t):
    # late: 1/2 what an earlier run left behind, 4 the group exists, 32/64 umask 0 / 077 (else 022)
    out = []; runs = [(1, 0), (2, 1), (3, 1)] + ([] if t == "quick" else [(3, 2), (4, 2)])
    for um in (0, 32, 64):
        for left in range(4):
            for grp in (0, 4):
                for n, f in runs: out.append(D("access-%d-%d-%d" % (um + left + grp, n, f), [KB1, M1], [(0, "a.conf", BASE)], [], depth=n, mode="procs", budget=f, late=um + left + grp, cap=2000000))
                if left in (0, 3): out.append(D("access-fine-%d" % (um + left + grp), [KB1], [(0, "a.conf", BASE)], [], depth=1 if t == "quick" else 2, mode="procs", budget=1, late=um + left + grp, early=1, cap=2000000))
    return out

# ---------------------------------------------------------------- U02 text and macro requests
@group("U02", "keyb,ptr,cmd,sleep,reply,exit")
def u02(t):
    q = t == "quick"; out = []; n = [0]
    def texts(id, kind, data, to=0, chunk=240):
        for i in range(0, len(data), chunk):
            part = data[i:i + chunk]
            out.append(D("%s-%d" % (id, i), [KB1], [(0, "a.conf", BASE)], ["con c%d" % j for j in range(len(part))], [("c%d %s %d" % (j, kind, to), x) for j, x in enumerate(part)], depth=1))
    B = lambda *v: bytes(v).decode("utf-8", "surrogateescape")
    texts("byte", "input", [B(i) for i in range(256)]); texts("bytet", "input", [B(i) for i in range(256)], 1500)
    cls = [0x20, 0x41, 0x61, 0x7e, 0x0a, 0x09, 0x01, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xc3, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf8, 0xff, 0x31, 0x00]
    texts("two", "input", [B(a, b) for a in (range(256) if not q else cls) for b in (range(256) if not q else cls)])
    c3 = [0x41, 0x20, 0x82, 0xac, 0xc3, 0xe2, 0xf0, 0xff, 0x9f, 0x00]
    texts("three", "input", [B(*x) for x in itertools.product(c3, repeat=3)]); texts("four", "input", [B(*x) for x in itertools.product([0xf0, 0xe2, 0x9f, 0x82, 0x41, 0x98, 0xac] if q else c3, repeat=4)])
    ch = ["a", "A", "1", "!", "\n", "\u00e9", "\u20ac", "\u0416", "\u0000", "\u2603", "\U0001f600", "\u00df"]
    texts("chars", "input", ["".join(x) for r in (2, 3) for x in itertools.product(ch, repeat=r)])
    texts("charst", "input", ["".join(x) for x in itertools.product(ch, repeat=2)], 700)
    texts("nl", "macro", [x + y for x in ("a", "a b", "C-a", "macro(x y)", "hello", "a+b", "!", "") for y in ("\n", "\n\n", "\n\n\n", " \n", "\n \n", "\t", " ")])
    out.append(D("limits", [KB1], [(0, "a.conf", BASE)], ["con c%d" % i for i in range(8)], [("c0 input 0 fill=4094", "a"), ("c1 input 0 fill=4095", "aB"), ("c2 input 0 sz=4096", "x"), ("c3 input 0 sz=2", "xyz"), ("c4 input 0 sz=0", "xyz"), ("c5 macro 0 sz=3", "a b c"), ("c6 input 1000000", "ab"), ("c7 macro 1000000", "a b")], depth=1))
    tok = ["a", "B", "hello", "C-a", "C-S-b", "a+b", "5ms", "leftshift+x", "macro(x y)", "type(x)", "\u00e9", "enter", "C-", "!", "0ms", "shift+A", "a+", "300ms", "cmd", "S-\u00e9", "1"]
    texts("mac1", "macro", tok); texts("mac2", "macro", [" ".join(x) for x in itertools.product(tok, repeat=2)]); texts("mac2t", "macro", [" ".join(x) for x in itertools.product(tok[:12], repeat=2)], 2000)
    texts("mac3", "macro", [" ".join(x) for x in itertools.product(tok[:9] if q else tok, repeat=3)])
    texts("macb", "macro", [B(i) for i in range(256)] + [B(i, 0x61) for i in range(256)] + [B(0x61, i) for i in range(256)] + [B(0x61, i, 0x62) for i in range(256)])
    # with layers, modifiers and timers active
    out.append(D("state", [KB1], [(0, "a.conf", BASE)], ["k kb1 a", "k kb1 c", "k kb1 d", "k kb1 leftshift", "con i", "con m", "con bad"], [("i input 0", "hI\u00e9"), ("m macro 0", "C-a x"), ("bad input 0", "a\udcffb")], depth=4 if q else 5, cap=40000))
    return out

# ---------------------------------------------------------------- properties of the key engine, seen from outside the daemon
# property -> (comparators, [(whose scenarios, which)])
ALSO = {
    "K01": ("held,exit", [("D05", "plug|held|timers|reuse|readd"), ("D14", "same-[a-f]|same2"), ("D04", "mid|busy"), ("D13", "kinds")]),
    "K02": ("alt,exit", [("D05", "plug|held|timers|reuse|readd"), ("D14", "same-|same2"), ("D04", "mid|busy"), ("D13", "kinds"), ("D07", "two"), ("D09", "tap")]),
    "K10": ("keyb,exit", [("D07", "two|configs|eintr")]),
    "K11": ("keyb,time,exit", [("D07", "two|configs|eintr|plug")]),
    "K12": ("keyb,time,exit", [("D07", "chord"), ("D14", "same-|own-")]),
    "K13": ("keyb,time,exit", [("D07", "two|chord|configs|macros")]),
    "K14": ("keyb,time,exit", [("D07", ".")]),
    "K15": ("keyb,sleep,exit", [("D02", "type-m|macrotime|active")]),
    "K16": ("keyb,time,exit", [("D07", "macros|clients|configs")]),
    "K18": ("exit", [("D05", "timers|plug-two"), ("D08", "key-|btn-|batch|big"), ("D06", "repeat|others")]),
    "K19": ("text,exit", [("D03", "lay|early|two")]),
    "K20": ("cmd,inherit,exit", [("D02", "bind-[0-9]-"), ("D15", "inherit")]),
    "F02": ("grab,keyb,exit", [("D04", "sets")]),
    "F06": ("text,keyb,exit", [("D03", "long")]),
    "F07": ("keyb,reply,exit", [("D02", "bind|mix|active"), ("D04", "bind"), ("D14", "bind")]),
    "F08": ("grab,keyb,exit", [("D04", "sets|devs|pointerkeys"), ("D05", "kinds|nodes|virtual"), ("D08", "unmanaged")]),
}
def also(prop):
    """(comparators, scenarios of the daemon checks that bear on this property)"""
    import re
    if prop not in ALSO: return "", []
    mask, src = ALSO[prop]; out = []
    for g, pat in src:
        for x in bundle(g, "quick")[1]:
            id = re.match(r"#! id (\S+)", x)[1]
            if re.match(pat, id): out.append(x.replace("#! id " + id, "#! id daemon-%s-%s" % (g, id), 1))
    return mask, out

def bundle(prop, tier):
    out = []
    for f in G.get(prop, []): out += f(tier)
    ids = [x.split("\n")[0] for x in out]; assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return MASK[prop], out
