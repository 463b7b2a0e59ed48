#!/usr/bin/env python3
"""harness.py SCRIPT SCRATCH < jobs (JSON lines) > results (JSON lines)

Each job runs the unmodified application mapper in a child process, in a home directory of its own, against stand-ins for
the window system it listens to (a real FIFO, a socket pair that speaks the Wayland wire protocol, Xlib and D-Bus modules) and
for running programs. Whenever the script would wait, the next action of the job happens. After every action, the invocations
of keyd are compared with a reference. A job: {backend, configs, start, windows, actions, ...}; a result: {} or {"bad": text}."""
import sys, os, json, types, struct, socket, _socket, select, signal, subprocess, builtins, traceback, shutil, fcntl, re, argparse, fnmatch, time

# ---------------------------------------------------------------- reference
def norm(s, keep):
    o = ""
    for ch in s: o += ch if keep(ch) else "-"
    return "-".join(x for x in o.split("-") if x).lower()
def norm_class(s): return norm(s, lambda c: c.isascii() and c.isalnum())
def norm_title(s): return norm(s, lambda c: c.isalnum())
def glob(p, s):
    """* ? [set] [!set]; anything else stands for itself"""
    if not p: return not s
    if p[0] == "*": return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    if p[0] == "[":
        e = p.find("]", 3 if p[1:2] == "!" else 2)
        if e > 0:
            if not s: return False
            neg = p[1:2] == "!"; body = p[2 if neg else 1:e]; hit = False; i = 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-": hit |= body[i] <= s[0] <= body[i + 2]; i += 3
                else: hit |= body[i] == s[0]; i += 1
            return hit != neg and glob(p[e + 1:], s[1:])
    return bool(s) and (p[0] == "?" or p[0] == s[0]) and glob(p[1:], s[1:])
def sections(text):
    out = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l[0] == "#": continue
        if l[0] == "[" and l[-1] == "]":
            f = l[1:-1].split("|"); out.append((f[0], f[1] if len(f) > 1 else "*", []))
        elif out: out[-1][2].append(l)
    return out
def bindings(text, win):
    c, t = norm_class(win[0]), norm_title(win[1]); b = []
    for ce, te, x in sections(text):
        if glob(ce, c) and glob(te, t): b += x
    return ["keyd", "bind", "reset"] + b

def key(w): return (norm_class(w[0]), norm_title(w[1]))

# ---------------------------------------------------------------- one run
class Env:
    def __init__(s, job, out, scratch):
        s.job = job; s.out = out; s.dir = scratch; s.calls = []; s.pc = 0; s.be = None; s.trace = []
        s.files = job["configs"]; s.cfg = job["start"]; s.mt = 1000000; s.cur = None; s.arms = []; s.points = 0; s.fail = 0; s.steps = 0
        s.acts = job["actions"]; s.depth = job.get("depth", 0); s.suffix = job.get("suffix", []); s.ncalls = 0; s.loaded = {job["start"]}
    def path(s): return s.dir + "/.config/keyd/app.conf"
    def put(s, k):
        """rewrites the file: k names a text, None removes it"""
        t = s.files[k]; p = s.path(); s.mt += -7 if k.endswith("old") else 10
        if t is None:
            try: os.unlink(p)
            except FileNotFoundError: pass
        else:
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.write(fd, t.encode("utf8", "surrogateescape")); os.close(fd)
            real_utime(p, (s.mt, s.mt))
        s.cfg = k; s.seen.append(k)
    def valid(s, k):
        t = s.files[k]
        if t is None: return False
        try: t.encode("utf8"); return True
        except UnicodeEncodeError: return False
    def report(s, bad=None):
        os.write(s.out, json.dumps({"bad": bad, "trace": s.trace, "actions": s.acts, "steps": s.steps, "calls": s.ncalls, "points": s.points} if bad else {"steps": s.steps, "calls": s.ncalls, "points": s.points}).encode() + b"\n"); os._exit(0)
    def point(s, kind):
        """a place where something else may happen meanwhile"""
        s.points += 1
        for a in s.arms[:]:
            if a[0] == kind:
                a[1] -= 1
                if a[1] <= 0: s.arms.remove(a); s.trace.append("   meanwhile: %s" % (a[2],)); s.do(a[2])
    def keyd(s, argv):
        s.calls.append(list(argv)); s.ncalls += 1; s.trace.append("   runs %s" % (argv,)); s.new += 1
        if s.new > 60: s.report("it keeps running keyd without anything happening")
        if s.fail: s.fail -= 1; return 1
        return 0
    # -- judging
    new = 0; applied = None; gone = False
    def begin(s, wins=[], must=False):
        s.seen = [s.cfg]; s.wins = list(wins); s.must = must; s.new = 0; s.force = False
    any = False
    def judge(s):
        if s.any: s.any = False; s.applied = "?" if s.new else s.applied; s.loaded |= {k for k in s.seen if s.valid(k)}; return None     # the window disappears in this step: not judged
        got = s.calls[len(s.calls) - s.new:] if s.new else []
        # what may be in force: the file as it was at some time during this step; if it was unusable, also what was loaded before
        usable = {k for k in s.seen if s.valid(k)}; texts = set(usable)
        if len(usable) < len(set(s.seen)): texts |= s.loaded
        def names(ws): return [(w, k, bindings(s.files[k] or "", w)) for w in ws for k in texts]
        ok = names(s.wins)
        for g in got:
            if not any(g == b for _, _, b in ok): return "keyd is run with %s, not with %s" % (g, " or ".join(str(b) for _, _, b in ok) or "nothing (nothing happened)")
        if (s.force or s.must and s.applied not in ("?", key(s.cur))) and not got: return "keyd is not run, although the window is now %s" % (s.wins[-1],)
        if got and s.wins:
            fin = [b for _, _, b in names(s.wins[-1:])]
            if got[-1] not in fin: return "the last bindings are %s, not those of the window %s: %s" % (got[-1], s.wins[-1], fin)
        s.loaded = texts if got else s.loaded | usable
        if got: s.applied = key(s.wins[-1]) if s.wins else None
        return None
    def step(s):
        """called where the script would wait"""
        if s.job.get("exits"): s.report("it runs although it may not")
        if s.steps > 0 or s.started:
            b = s.judge()
            if b: s.report(b)
        s.started = True
        if s.pc >= len(s.acts):
            if s.depth > 0: s.branch()
            elif s.suffix: s.acts = s.acts + s.suffix; s.suffix = []
            else: s.report()
        a = s.acts[s.pc]; s.pc += 1; s.steps += 1
        s.trace.append("%s" % (a,))
        s.begin(s.carry(), False)
        s.do(a)
    def branch(s):
        """every action of the alphabet, each in a child of its own; returns in the children"""
        A = s.job["tree"]; s.depth -= 1; signal.alarm(0)
        for a in A:
            p = s.acts[-1] if s.acts else None
            if p and p[0] == "cfg" and a[0] == "cfg" and s.valid(p[1]) and s.valid(a[1]): continue     # nobody has looked in between
            if p and p[0] == "fail" and a[0] == "fail": continue
            pid = real_fork()
            if pid == 0: signal.alarm(20); s.acts = s.acts + [a]; s.steps = s.points = s.ncalls = 0; return
            _, st = os.waitpid(pid, 0)
            if st: os.write(s.out, json.dumps({"bad": "it is killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "it exits (%d)" % os.WEXITSTATUS(st), "trace": s.trace + [str(a)], "actions": s.acts + [a]}).encode() + b"\n")
            s.restore()
        s.report()
    def restore(s):
        t = s.files[s.cfg]; p = s.path()
        if t is None:
            try: os.unlink(p)
            except FileNotFoundError: pass
        else:
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.write(fd, t.encode("utf8", "surrogateescape")); os.close(fd)
            real_utime(p, (s.mt, s.mt))
        s.be.restore()
    def carry(s): return [s.cur] if s.cur else s.be.idle()
    started = False
    def do(s, a):
        k = a[0]
        if k == "cfg": s.put(a[1])
        elif k == "usr1":
            if s.be.usr1: s.force = s.force or bool(s.cur) and not s.gone; os.kill(os.getpid(), signal.SIGUSR1)
        elif k == "fail": s.fail += 1
        elif k == "arm": s.arms.append([a[1], a[2], a[3]])
        elif k in ("win", "wins"):
            for i in a[1:]: s.focus(i)
        elif k == "script":
            if s.be.scripts: real_open(a[1], "w").write(real_open(s.be.scripts[-1]).read())
        else: getattr(s.be, "do_" + k)(*a[1:])
    def shown(s, w):
        """the window system now says that w is in focus"""
        s.must = True; s.gone = False
        s.cur = list(w); s.wins.append(list(w))
    def focus(s, i):
        w = s.job["windows"][i]; s.be.focus(i, w)

real_open, real_select, real_stat, real_utime, real_fork = builtins.open, select.select, os.stat, os.utime, os.fork

class Backend:
    usr1 = True
    def __init__(s, env): s.env = env
    def idle(s): return [["", ""]]
    def restore(s): pass

# ---- GNOME: a FIFO, fed with what the extension wrote
class Gnome(Backend):
    def setup(s):
        os.environ["XDG_CURRENT_DESKTOP"] = "ubuntu:GNOME"; os.environ["XDG_RUNTIME_DIR"] = s.env.dir + "/run"; s.p = s.env.dir + "/run/keyd.fifo"
        os.mkfifo(s.p); s.rw = os.open(s.p, os.O_RDWR); s.w = None
    def focus(s, i, w):
        e = s.env; e.shown(w)
        if s.w is None: s.do_open()
        os.write(s.w, b"".join(x.encode("utf8") for x in e.job["messages"][i]))
    def restore(s):
        fd = os.open(s.p, os.O_RDONLY | os.O_NONBLOCK)
        try:
            while os.read(fd, 65536): pass
        except BlockingIOError: pass
        os.close(fd)
    def do_open(s):
        s.w = os.open(s.p, os.O_WRONLY | os.O_NONBLOCK)
        if s.rw is not None: os.close(s.rw); s.rw = None
    def do_close(s):
        if s.w is None: s.do_open()
        os.close(s.w); s.w = None

# ---- Wayland
class FakeSock(socket.socket):
    def __init__(s, family=-1, type=-1, proto=-1, fileno=None):
        if CUR is None or CUR.be is None or not hasattr(CUR.be, "accept"): super().__init__(family, type, proto, fileno); s.fake = False; return
        a, b = _socket.socketpair(); super().__init__(fileno=a.detach()); s.fake = True; super().setblocking(False); CUR.be.accept(s, b)
    def connect(s, addr):
        if s.fake: CUR.be.connected(addr)
        else: super().connect(addr)
    def sendall(s, d, *a): CUR.be.request(bytes(d))
    def send(s, d, *a): CUR.be.request(bytes(d)); return len(d)
    def recv(s, n, flags=0):
        if n == 0: return b""
        out = b""
        while True:
            CUR.be.need(s)
            out += super().recv(n - len(out), socket.MSG_DONTWAIT)
            if len(out) == n or not flags & socket.MSG_WAITALL: return out
    def recv_into(s, buf, n=0, flags=0):
        n = n or len(buf); d = s.recv(n, flags); buf[:len(d)] = d; return len(d)
CUR = None
class Wl(Backend):
    iface = "zwlr_foreign_toplevel_manager_v1"; T, A, S, D, C = 0, 1, 4, 5, 6
    def idle(s): return [["", ""]]
    def setup(s):
        os.environ["WAYLAND_DISPLAY"] = "wayland-0"; os.environ["XDG_RUNTIME_DIR"] = s.env.dir + "/run"
        s.req = b""; s.chunks = []; s.next = 0xff000000; s.ids = {}; s.act = None; s.shown = {}; s.srv = None; s.bound = False; s.split = s.env.job.get("split"); s.variant = s.env.job.get("variant", 0)
    def accept(s, sock, srv): s.sock = sock; s.srv = srv; s.srv.setblocking(False); s.req = b""; s.chunks = []
    def connected(s, addr): pass
    def restore(s):
        try:
            while os.read(s.sock.fileno(), 65536): pass
        except BlockingIOError: pass
    @staticmethod
    def str(t): b = t.encode("utf8") + b"\0"; return struct.pack("I", len(b)) + b + b"\0" * (-len(b) % 4)
    def msg(s, obj, op, payload=b""): return struct.pack("II", obj, op | (len(payload) + 8) << 16) + payload
    def request(s, d):
        s.req += d
        while len(s.req) >= 8:
            obj, w = struct.unpack("II", s.req[:8]); n = w >> 16
            if n < 8 or len(s.req) < n: break
            p = s.req[8:n]; s.req = s.req[n:]; op = w & 0xffff
            if obj == 1 and op == 1:
                rid = struct.unpack("I", p)[0]; o = b""
                for nm, i, v in ((1, "wl_compositor", 5), (2, "wl_seat", 7), (9, s.iface, 3 if s.iface[1] == "w" else 1), (12, "wl_output", 4)): o += s.msg(rid, 0, struct.pack("I", nm) + s.str(i) + struct.pack("I", v))
                s.push(o)
            elif obj == 1 and op == 0: s.push(s.msg(struct.unpack("I", p)[0], 0, struct.pack("I", 77)))
            elif obj == 2 and op == 0:
                l = struct.unpack("I", p[4:8])[0]
                if p[8:8 + l - 1].decode() == s.iface: s.mgr = struct.unpack("I", p[-4:])[0]; s.bound = True; s.push(b"".join(s.msg(s.mgr, 0, struct.pack("I", s.make(i))) + s.describe(i, False) for i in s.env.job.get("open", [])))
    def push(s, data):
        """one write of the compositor; the stream may hand it over in pieces"""
        k = s.split
        if k and s.bound:
            while data: s.chunks.append(data[:k]); data = data[k:]
        elif data: s.chunks.append(data)
    def need(s, sock):
        while not real_select([sock.fileno()], [], [], 0)[0]:
            if s.chunks: s.srv.send(s.chunks.pop(0))
            else: CUR.step()
    def make(s, i): s.ids[i] = s.next; s.next += 1; s.shown[i] = list(s.env.job["windows"][i]); return s.ids[i]
    def st(s, on):
        v = s.variant; l = ([0] if v == 1 else [0, 2] if v == 2 else []) if not on else [[2], [0, 2], [3, 2], [2, 0]][v]
        if not on: l = [[], [0], [3], [1]][v]
        return struct.pack("I", 4 * len(l)) + b"".join(struct.pack("I", x) for x in l)
    def describe(s, i, on):
        h = s.ids[i]; c, t = s.shown[i]
        return s.msg(h, s.T, s.str(t)) + s.msg(h, s.A, s.str(c)) + s.msg(h, s.S, s.st(on)) + s.msg(h, s.D)
    def flip(s, i, on): return s.msg(s.ids[i], s.S, s.st(on)) + s.msg(s.ids[i], s.D)
    def focus(s, i, w):
        e = s.env; old = s.act; o = b""
        if i not in s.ids: o += s.msg(s.mgr, 0, struct.pack("I", s.make(i))) + s.describe(i, False)
        off = s.flip(old, False) if old is not None and old != i and old in s.ids else b""
        on = s.flip(i, True)
        o += on + off if e.job.get("order") else off + on
        s.act = i; e.shown(s.shown[i]); s.push(o)
    def do_title(s, i, t, c=None):
        """window i gets another title (or class)"""
        if i not in s.ids: return
        s.shown[i] = [c or s.shown[i][0], t]
        if i == s.act: s.env.shown(s.shown[i])
        s.push(s.msg(s.ids[i], s.T, s.str(t)) + (s.msg(s.ids[i], s.A, s.str(c)) if c else b"") + s.msg(s.ids[i], s.D))
    def do_close(s, i):
        if i not in s.ids: return
        h = s.ids.pop(i)
        if s.act == i: s.act = None; s.env.gone = True
        s.push(s.msg(h, s.C)) if s.C != s.D else None
    def do_blur(s):
        """no window is active"""
        if s.act in s.ids: s.push(s.flip(s.act, False))
        s.act = None; s.env.gone = True
    def do_noise(s, i):
        if i in s.ids: s.push(s.msg(s.ids[i], 2 if s.T == 0 else 4, struct.pack("I", 8)) + s.msg(s.ids[i], s.D))
class Cos(Wl):
    iface = "zcosmic_toplevel_info_v1"; T, A, S, D, C = 2, 3, 8, 1, 0

# ---- KDE
class Kde(Backend):
    usr1 = False
    def setup(s):
        os.environ["KDE_SESSION_VERSION"] = s.env.job.get("kde", "5")
        s.objs = {}; s.scripts = []; be = s
        def mod(n, **k):
            m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
        class Remote:
            def loadScript(self, f): be.scripts.append(f); return 3
            def __getattr__(self, n): return lambda *a: None
        class Bus:
            def get_object(self, *a): return Remote()
        class Object:
            def __init__(self, conn=None, object_path=None, bus_name=None): be.objs[object_path] = self
        def method(iface, **k):
            def deco(f): f._iface = iface; return f
            return deco
        class Loop:
            def run(self):
                while True: CUR.step()
        class BusName:
            def __init__(self, name, bus=None, **k): pass
        svc = mod("dbus.service", Object=Object, BusName=BusName, method=method); glib = mod("dbus.mainloop.glib", DBusGMainLoop=lambda **k: None); ml = mod("dbus.mainloop", glib=glib)
        mod("dbus", service=svc, mainloop=ml, SessionBus=Bus)
        G = mod("gi.repository.GLib", MainLoop=Loop); rp = mod("gi.repository", GLib=G); mod("gi", repository=rp)
    def focus(s, i, w):
        e = s.env; e.shown(w)
        for dest, path, iface, m, *args in e.job["dbus"][i]:
            o = s.objs.get(path); f = o and getattr(o, m, None)
            if f and f._iface in (iface, "org.rvaiya.keyd"): f(*args)

# ---- X
class XWin:
    def __init__(s, be, cls=None, net=None, name=None, parent=None, state=None, types=None): s.be = be; s.cls = cls; s.net = net; s.name = name; s.up = parent; s.kids = []; s.state = state; s.types = types; s.gone = False; s.info = None; parent.kids.append(s) if parent else None
    def __bool__(s): return True
    def rt(s):
        s.be.roundtrip()
        if s.gone: raise RuntimeError("BadWindow")
    def get_wm_class(s): s.rt(); return s.cls
    def query_tree(s): s.rt(); return types.SimpleNamespace(parent=s.up if s.up else 0, children=list(s.kids))
    def get_full_property(s, atom, typ, *a):
        s.rt(); n = s.be.names.get(atom)
        if n == "_NET_WM_NAME": v = s.net
        elif n == "WM_NAME": v = s.name
        elif n == "_NET_WM_STATE": v = s.state
        elif n == "_NET_WM_WINDOW_TYPE": v = s.types
        else: v = None
        return None if v is None else types.SimpleNamespace(value=v)
    def get_full_text_property(s, atom, *a): p = s.get_full_property(atom, 0); return p and p.value.decode("utf8", "replace")
    def get_wm_name(s): s.rt(); return s.name and s.name.decode("latin1")
    def change_attributes(s, **k):
        if k.get("event_mask"): s.be.selected.add(id(s))
class X(Backend):
    def idle(s): return [["", ""], ["root", ""]]
    def setup(s):
        os.environ["DISPLAY"] = ":0"; s.names = {}; s.wire = []; s.local = []; s.r, s.w = os.pipe(); s.selected = set(); s.reqs = 0; s.ready = False
        s.root = XWin(s, net=b"", name=b""); s.wins = {}; s.foc = 0; s.err = 0
        be = s
        class Display:
            def __init__(self, *a): pass
            def screen(self): return types.SimpleNamespace(root=be.root)
            def intern_atom(self, n, only=False):
                be.roundtrip(); k = 300 + sum(map(ord, n)); be.names[k] = n; return k
            get_atom = intern_atom
            def fileno(self): return be.r
            def pending_events(self): be.drain(); return len(be.local)
            def next_event(self):
                while not be.local:
                    be.drain()
                    if not be.local: CUR.step()
                return be.local.pop(0)
            def get_input_focus(self): be.roundtrip(); return types.SimpleNamespace(focus=be.foc)
            def sync(self): be.roundtrip()
            def flush(self): pass
            def set_error_handler(self, *a): pass
        def mod(n, **k):
            m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
        d = mod("Xlib.display", Display=Display); xx = mod("Xlib.X", SubstructureNotifyMask=1 << 19, PropertyChangeMask=1 << 22, FocusChangeMask=1 << 21, NONE=0, AnyPropertyType=0); at = mod("Xlib.Xatom", ATOM=4, STRING=31, WM_NAME=39, WM_CLASS=67); er = mod("Xlib.error", BadWindow=RuntimeError, XError=RuntimeError)
        mod("Xlib", display=d, X=xx, Xatom=at, error=er)
    def drain(s):
        if s.wire: os.read(s.r, len(s.wire)); s.local += s.wire; s.wire = []
    def restore(s):
        while real_select([s.r], [], [], 0)[0]: os.read(s.r, 65536)
        if s.wire: os.write(s.w, b"e" * len(s.wire))
    def roundtrip(s):
        s.reqs += 1; s.env.point("x"); s.drain()
        if s.err:
            s.err -= 1
            if not s.err and not isinstance(s.foc, int) and s.foc is not s.root: s.foc.gone = True; s.foc.up.kids.remove(s.foc); s.env.any = True; s.env.trace.append("   the focused window is gone")
    def event(s):
        if id(s.root) in s.selected: s.wire.append("ev"); os.write(s.w, b"e")
    def win(s, i, w):
        if i in s.wins and not s.wins[i].gone: return s.wins[i]
        c, t = w; k = s.env.job.get("shape", 0); r = s.root
        if c == "root": x = None
        enc = t.encode("utf8"); inst = "inst-" + c
        if k == 0: x = XWin(s, (inst, c), enc, None, r)
        elif k == 1: f = XWin(s, (inst, c), enc, b"wrong", r); x = XWin(s, None, b"inner", b"inner", XWin(s, None, None, None, f))     # the focus is on a child
        elif k == 2:                                                                                                         # an old client: WM_NAME only
            try: x = XWin(s, (inst, c), None, t.encode("latin1"), r)
            except UnicodeEncodeError: x = XWin(s, (inst, c), enc, None, r)
        elif k == 4:
            try: x = XWin(s, (inst, c), b"\xff\xfe", t.encode("latin1"), r)
            except UnicodeEncodeError: x = XWin(s, (inst, c), enc, None, r)
        elif k == 3: x = XWin(s, (inst, c), enc, None, r, [341 + 1], None)
        s.wins[i] = x; return x
    fl = None
    def unfloat(s):
        if s.fl: s.root.kids.remove(s.fl); s.fl = None
    def changed(s):
        """the window that is active now, if any; a window kept above the others takes precedence"""
        w = s.fl.info if s.fl and s.fl.info else ["root", ""] if s.foc is s.root else None if isinstance(s.foc, int) or s.foc.gone else s.foc.info
        if w: s.env.shown(w)
        s.event()
    def focus(s, i, w): s.unfloat(); s.foc = s.win(i, w); s.foc.info = s.foc.info or list(w); s.changed()
    def do_focus_none(s, v): s.unfloat(); s.foc = v; s.changed()
    def do_event(s): s.changed()
    def do_root(s): s.unfloat(); s.foc = s.root; s.changed()
    def do_title(s, i, t):
        if i not in s.wins or s.wins[i].gone: return
        x = s.wins[i]; x.info = [x.info[0], t]
        while x.cls is None: x = x.up
        if x.net in (None, b"\xff\xfe"): x.name = t.encode("latin1", "replace")
        else: x.net = t.encode("utf8")
        if s.foc is s.wins[i]: s.changed()
    def do_float(s, c, t, typ=None):
        A = lambda n: 300 + sum(map(ord, n))
        s.unfloat(); s.fl = XWin(s, ("x", c), t.encode("utf8"), None, s.root, [A("_NET_WM_STATE_ABOVE")], [A(typ)] if typ else None)
        if typ != "_NET_WM_WINDOW_TYPE_NOTIFICATION": s.fl.info = [c, t]
        s.changed()
    def do_err(s, k): s.err = k

BACK = {"gnome": Gnome, "wlroots": Wl, "cosmic": Cos, "kde": Kde, "x": X}

class FakePopen:
    def __init__(s, args, *a, **k):
        s.args = args; s.pid = 4242; s.stdin = s.stdout = s.stderr = None
        argv = args if isinstance(args, (list, tuple)) else [args]
        if k.get("shell"): argv = ["sh", "-c"] + list(argv)
        s.returncode = CUR.keyd(list(argv))
    def communicate(s, *a, **k): return (b"", b"")
    def wait(s, *a, **k): return s.returncode
    def poll(s): return s.returncode
    def kill(s): pass
    terminate = kill
    def __enter__(s): return s
    def __exit__(s, *a): return False

def child(job, code, out, scratch):
    global CUR
    env = Env(job, out, scratch); CUR = env; env.begin([["", ""], ["root", ""]])
    os.makedirs(scratch + "/.config/keyd"); os.makedirs(scratch + "/run")
    for v in ("KDE_SESSION_VERSION", "WAYLAND_DISPLAY", "XDG_CURRENT_DESKTOP", "GNOME_SETUP_DISPLAY", "DISPLAY", "XDG_RUNTIME_DIR", "KEYD_DEBUG"): os.environ.pop(v, None)
    os.environ["HOME"] = scratch; os.environ.update(job.get("env", {}))
    env.put(job["start"]) if env.files[job["start"]] is not None else None; env.begin([["", ""], ["root", ""]])
    def under(p):
        try: p = os.fspath(p)
        except TypeError: return None
        return p if isinstance(p, str) else None
    def sel(r, w, x, t=None):
        while True:
            # what is ready?  descriptors first, then the pieces of a message, then the next action
            z = real_select(r, w, x, 0)
            if any(z): return z
            if t == 0: return z
            if hasattr(env.be, "chunks") and env.be.chunks: env.be.srv.send(env.be.chunks.pop(0)); continue
            env.step()
    select.select = sel
    class Poll:
        def __init__(s, *a): s.f = {}
        def register(s, fd, ev=1): s.f[fd if isinstance(fd, int) else fd.fileno()] = ev
        def unregister(s, fd): s.f.pop(fd if isinstance(fd, int) else fd.fileno(), None)
        modify = register
        def poll(s, *a): return [(fd, 1) for fd in sel(list(s.f), [], [])[0]]
        def close(s): pass
    select.poll = Poll; select.epoll = Poll
    def opn(f, *a, **k):
        p = under(f)
        if p and p.startswith("/tmp/") and not p.startswith(scratch): f = scratch + "/" + os.path.basename(p)
        if p == env.path(): env.point("c")
        return real_open(f, *a, **k)
    builtins.open = opn
    def stt(p, *a, **k):
        if under(p) == env.path(): env.point("c")
        return real_stat(p, *a, **k)
    os.stat = stt
    import genericpath; genericpath.os.stat = stt
    socket.socket = FakeSock
    subprocess.Popen = FakePopen; os.system = lambda c: CUR.keyd(["sh", "-c", c])
    os.fork = lambda: 0
    env.be = BACK[job["backend"]](env); env.be.setup()
    # a child must not scribble over the results
    dn = os.open("/dev/null", os.O_RDWR)
    for fd in (1, 2): os.dup2(dn, fd)
    for a in job.get("before", []): env.do(a)
    if job.get("locked"):                                          # another instance is running: let one get as far as it goes
        lr, lw = os.pipe(); first = real_fork()
        if first == 0:
            def stop(): os.write(lw, b"x"); time.sleep(15); os._exit(0)
            env.step = stop
        else:
            os.close(lw); os.read(lr, 1)
            rep = env.report
            def done(bad=None): os.kill(first, signal.SIGKILL); os.waitpid(first, 0); rep(bad)
            env.report = done
    sys.argv = ["keyd-application-mapper"] + job.get("argv", [])
    try: exec(code, {"__name__": "__main__", "__file__": "keyd-application-mapper", "__builtins__": builtins})
    except SystemExit as e:
        if job.get("exits"): env.report("keyd is run although it may not start" if env.calls else None)
        env.report("it exits (%s)" % (e.code,))
    except BaseException as e: env.report("it dies: %s" % "".join(traceback.format_exception_only(type(e), e)).strip() + " at line %d" % ([f.lineno for f in traceback.extract_tb(e.__traceback__) if f.filename == "mapper"] or [0])[-1])
    env.report("it returns")

def run_job(job, code, scratch):
    d = scratch + "/run"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r, w = os.pipe(); pid = real_fork()
    if pid == 0:
        os.close(r); signal.alarm(20); child(job, code, w, d); os._exit(3)
    os.close(w); data = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        data += x
    os.close(r); _, st = os.waitpid(pid, 0)
    tot = {"steps": 0, "calls": 0, "points": 0, "leaves": 0, "bad": []}
    for l in data.splitlines():
        x = json.loads(l); tot["leaves"] += 1
        for k in ("steps", "calls", "points"): tot[k] += x.get(k, 0)
        if x.get("bad") and len(tot["bad"]) < 20: tot["bad"].append([x["bad"], x["trace"], x["actions"]])
    if st: tot["bad"].append(["it is killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "it exits (%d)" % os.WEXITSTATUS(st), [], job["actions"]])
    return tot

def main():
    script, scratch = sys.argv[1:3]; code = compile(real_open(script, encoding="utf8").read(), "mapper", "exec", dont_inherit=True)
    os.makedirs(scratch, exist_ok=True)
    # fill the caches of regular expressions that every child would have to fill again
    import gc, locale; seen = set(); argparse.ArgumentParser(); gc.disable()
    for l in sys.stdin:
        job = json.loads(l)
        for c in job["configs"].values():
            if c is not None and c not in seen:
                seen.add(c)
                for a, b, _ in sections(c): fnmatch.fnmatch("", a); fnmatch.fnmatch("", b)
        for e in ("[^A-Za-z0-9]+", r"[\W_]+"): re.sub(e, "", "")
        r = run_job(job, code, scratch); r["id"] = job["id"]; sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush(); shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": main()
