#!/usr/bin/env python3
"""Helper to plant a bug: seed.plant(id, property, edits, demo={name: text}, needs, breaks) makes the change in a scratch copy,
checks that it builds, passes the stable tests and that the demo tells the difference, and writes /verif/seeded/<id>/."""
import os, subprocess, shutil, json, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=300):
    try: r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout
def scratch(): d = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); subprocess.run(["cp", "-a", "/repo/.", d], check=True); return d
def apply(d, edits):
    for f, old, new in edits:
        p = d + "/" + f; s = open(p).read()
        if s.count(old) != 1: raise SystemExit("%d matches in %s of %r" % (s.count(old), f, old))
        open(p, "w").write(s.replace(old, new))
def tests(d):
    rc, o = sh("rm -f bin/keyd; make all CC=gcc && for f in src/vkbd/*.c; do gcc -fsyntax-only -std=c11 -D_DEFAULT_SOURCE $f || exit 1; done", d)
    if rc: return False, o
    rc, o = sh("rm -f bin/test-io; make test-io CC=gcc", d, 100)
    if rc: return False, o
    rc, o = sh('n=0; for f in t/*.t; do timeout 20 ./bin/test-io t/test.conf $f > /tmp/seed.log.$$ 2>&1 && grep -aq PASSED /tmp/seed.log.$$ || { echo FAIL $f; n=1; }; done; rm -f /tmp/seed.log.$$; exit $n', d, 300)
    return rc == 0, o
def drive(conf, cases):
    """demo files for an engine bug: conf, and cases [(script, expected)]"""
    sh_ = "#!/bin/bash\n# feeds key events to the engine and compares what it types\nset -e\nhere=$(cd \"$(dirname \"$0\")\" && pwd); t=$(mktemp -d); trap 'rm -rf \"$t\"' EXIT\ngcc -w -D_DEFAULT_SOURCE -DDATA_DIR='\"/nonexistent\"' -iquote src -o \"$t/drive\" \"$here/drive.c\" src/keyboard.c src/string.c src/macro.c src/config.c src/log.c src/ini.c src/keys.c src/unicode.c\n"
    sh_ += "cat > \"$t/c.conf\" <<'EOF'\n[ids]\n*\n%s\nEOF\nrc=0\n" % conf.strip()
    sh_ += "run() { got=$(timeout 20 \"$t/drive\" \"$t/c.conf\" \"$1\" 2>&1 | tail -1); if [ \"$got\" != \"$2\" ]; then echo \"script:   $1\"; echo \"expected: $2\"; echo \"got:      $got\"; rc=1; fi; }\n"
    for s, e in cases: sh_ += "run '%s' '%s'\n" % (s, e)
    return {"demo.sh": sh_ + "exit $rc\n", "drive.c": DRIVE}
DRIVE = r'''/* drive CONF SCRIPT: SCRIPT is a list of key+ key- and milliseconds; prints the keys emitted (and L:layer+ / L:layer- with -l) */
#include "keyd.h"
static void put(uint8_t c, uint8_t s) { printf("%s%s ", keycode_table[c].name ? keycode_table[c].name : "?", s ? "+" : "-"); }
static int layers;
static void lay(const struct keyboard *k, const struct layer *l, uint8_t s) { if (layers) printf("L:%s%s ", l->name, s ? "+" : "-"); }
int main(int n, char **a)
{
	static struct config c; struct output o = { .send_key = put, .on_layer_change = lay };
	long now = 1000, due = 0; char *t; struct keyboard *k; int i;
	layers = n > 3;
	if (config_parse(&c, a[1])) return 2;
	k = new_keyboard(&c, &o); printf("\n");
	for (t = strtok(a[2], " "); t; t = strtok(0, " ")) {
		if (t[0] >= '0' && t[0] <= '9' && !strpbrk(t, "+-")) {
			long end = now + atol(t);
			while (due && due <= end) { struct key_event e = { .timestamp = due }; long r; now = due; r = kbd_process_events(k, &e, 1); due = r > 0 ? now + r : 0; }
			now = end;
		} else {
			struct key_event e = { .timestamp = now, .pressed = t[strlen(t) - 1] == '+' }; long r;
			t[strlen(t) - 1] = 0;
			for (i = 0; i < 256; i++) if (keycode_table[i].name && !strcmp(keycode_table[i].name, t)) e.code = i;
			r = kbd_process_events(k, &e, 1); due = r > 0 ? now + r : 0;
		}
	}
	printf("\n"); return 0;
}
'''
def ddemo(confs, body, expected, defs="", srcs="src/keyboard.c src/string.c src/macro.c src/config.c src/log.c src/ini.c src/keys.c src/unicode.c src/util.c"):
    """demo files for a daemon bug: the daemon with the devices and the virtual keyboard replaced; body is C code run as the event loop"""
    t = "#!/bin/bash\n# runs the daemon with stand-ins for the devices, the virtual keyboard and the socket, and compares what it does\nset -e\nhere=$(cd \"$(dirname \"$0\")\" && pwd); t=$(mktemp -d); trap 'rm -rf \"$t\"' EXIT; mkdir \"$t/conf\"\n"
    for f, x in confs.items(): t += "cat > \"$t/conf/%s\" <<'EOF'\n%s\nEOF\n" % (f, x.strip())
    t += "gcc -w -D_DEFAULT_SOURCE -DVERSION='\"demo\"' -DSOCKET_PATH='\"/nonexistent/s\"' -DCONFIG_DIR=\"\\\"$t/conf\\\"\" -DDATA_DIR='\"/nonexistent\"' -iquote src -iquote . -o \"$t/drive\" \"$here/drive.c\" %s -lpthread\n" % srcs
    t += "cd \"$t\"; timeout 60 \"$t/drive\" > \"$t/out\" 2> \"$t/err\" || { echo \"exit status $?\"; tail -3 \"$t/err\"; tail -3 \"$t/out\"; exit 1; }\n"
    t += "grep '^> ' \"$t/out\" > \"$t/got\" || true\ndiff \"$here/expected\" \"$t/got\"\n"
    return {"demo.sh": t, "drive.c": DDRIVE.replace("/*DEFS*/", defs).replace("/*BODY*/", body), "expected": "".join("> " + l + "\n" for l in expected)}
DDRIVE = r"""#include <sys/types.h>
#include <sys/socket.h>
#include <dirent.h>
#include "keyd.h"
static int next_con = -1;
#define accept(a, b, c) next_con
#define nice(x) 0
#include "daemon.c"
#undef accept
#define SAY(...) do { fflush(stdout); dprintf(1, "> " __VA_ARGS__); dprintf(1, "\n"); } while (0)
struct device device_table[MAX_DEVICES]; size_t device_table_sz;
struct vkbd { int x; };
struct vkbd *vkbd_init(const char *n) { return calloc(1, sizeof(struct vkbd)); }
void free_vkbd(struct vkbd *v) {}
void vkbd_mouse_move(const struct vkbd *v, int x, int y) { SAY("move %d %d", x, y); }
void vkbd_mouse_move_abs(const struct vkbd *v, int x, int y) { SAY("abs %d %d", x, y); }
void vkbd_mouse_scroll(const struct vkbd *v, int x, int y) { SAY("scroll %d %d", x, y); }
void vkbd_send_key(const struct vkbd *v, uint8_t c, int s) { SAY("key %s%s", keycode_table[c].name ? keycode_table[c].name : "?", s ? "+" : "-"); }
static int grab_fails;
int device_grab(struct device *d) { if (d->grabbed) return 0; if (grab_fails) return -1; SAY("grab %s", d->name); d->grabbed = 1; return 0; }
int device_ungrab(struct device *d) { if (d->grabbed) SAY("ungrab %s", d->name); d->grabbed = 0; return 0; }
void device_set_led(const struct device *d, int l, int s) { SAY("led %s %d %d", d->name, l, s); }
int ipc_create_server() { return 77; }
int ipc_connect() { return -1; }
void evloop_add_fd(int fd) {}
static int (*H)(struct event *);
static long now = 1000, due;
static void fire(struct event *e) { int r; e->timestamp = now; r = H(e); due = r > 0 ? now + r : 0; }
static void wait_ms(long ms) { long end = now + ms; while (due && due <= end) { struct event e = { .type = EV_TIMEOUT }; now = due; fire(&e); } now = end; }
static struct device *dev(const char *name, const char *id, int caps) { struct device *d = &device_table[device_table_sz++]; struct event e = { .type = EV_DEV_ADD, .dev = d }; memset(d, 0, sizeof *d); d->fd = 100 + device_table_sz; strcpy(d->name, name); strcpy(d->id, id); d->capabilities = caps; d->is_virtual = !strncmp(id, "0fac", 4); fire(&e); return d; }
static void devent(struct device *d, int type, int code, int pressed, int x, int y) { struct device_event de = { .type = type, .code = code, .pressed = pressed, .x = x, .y = y }; struct event e = { .type = EV_DEV_EVENT, .dev = d, .devev = &de }; fire(&e); }
static void key(struct device *d, const char *k, int p) { int i; for (i = 0; i < 256; i++) if (keycode_table[i].name && !strcmp(keycode_table[i].name, k)) { d->keystate[i] = p; devent(d, DEV_KEY, i, p, 0, 0); return; } abort(); }
static void tap(struct device *d, const char *k) { key(d, k, 1); key(d, k, 0); }
static void gone(struct device *d) { struct event e = { .type = EV_DEV_REMOVE, .dev = d }; fire(&e); *d = device_table[--device_table_sz]; }
/* a request; returns the client's end if keep, else prints the reply */
static int request(int type, const char *s, int timeout, int keep) { struct ipc_message m = {0}; int p[2]; struct event e = { .type = EV_FD_ACTIVITY, .fd = 77 }; socketpair(AF_UNIX, SOCK_STREAM, 0, p); m.type = type; m.timeout = timeout; m.sz = strlen(s); memcpy(m.data, s, m.sz); write(p[1], &m, sizeof m); next_con = p[0]; fire(&e);
	if (keep) { fcntl(p[1], F_SETFL, O_NONBLOCK); return p[1]; }
	memset(&m, 0, sizeof m); if (recv(p[1], &m, sizeof m, MSG_DONTWAIT) == sizeof m) SAY("reply %s %.*s", m.type == IPC_SUCCESS ? "ok" : "fail", (int)m.sz, m.data); else SAY("no reply"); close(p[1]); return -1; }
static void drain(const char *who, int fd) { char b[4096]; ssize_t n = read(fd, b, sizeof b - 1), i; if (n <= 0) { SAY("%s: nothing", who); return; } b[n] = 0; for (i = 0; i < n; i++) if (b[i] == '\n') b[i] = ' '; SAY("%s: %s", who, b); }
/*DEFS*/
int evloop(int (*h)(struct event *)) { H = h; /*BODY*/ fflush(stdout); _exit(0); }
int main(int n, char **a) { (void)request; (void)drain; (void)gone; (void)tap; (void)dev; (void)wait_ms; signal(SIGPIPE, SIG_IGN); return run_daemon(1, a); }
"""
def plant(id, prop, edits, demo, needs, breaks, keep=True):
    d = scratch()
    try:
        dd = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
        for f, x in demo.items():
            open(dd + "/" + f, "w").write(x); os.chmod(dd + "/" + f, 0o755)
        rc0, o0 = sh("bash %s/demo.sh" % dd, d)
        apply(d, edits); ok, o = tests(d)
        if not ok: print(id, "REJECTED: fails to build or fails tests\n", o[-600:]); return False
        rc1, o1 = sh("bash %s/demo.sh" % dd, d)
        print(id, "demo unchanged:", rc0, "patched:", rc1, "" if rc0 == 0 and rc1 else "REJECTED\n--- unchanged\n%s--- patched\n%s" % (o0[-1500:], o1[-1500:]))
        if rc0 or not rc1: return False
        t = V + "/seeded/" + id; shutil.rmtree(t, ignore_errors=True); shutil.copytree(dd, t)
        rc, diff = sh("git diff", d); open(t + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(t + "/meta.json", "w"), indent=1)
        print(o1[-400:]); return True
    finally: shutil.rmtree(d); shutil.rmtree(dd, ignore_errors=True)
BASE = "49dc803"
def blame(id):
    """removed lines (or, for pure insertions, the neighbours) must come from the original repository"""
    import re
    bad = []; f = None
    for l in open(V + "/seeded/%s/patch.diff" % id):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m[1]); continue
        if l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split()[0].lstrip("^")
            if subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", b, BASE]).returncode: bad.append((f, ln, l.strip()))
            ln += 1
        elif l.startswith(" "): ln += 1
    return bad
def catch(id, props=None, tier="quick"):
    d = scratch(); b = tempfile.mkdtemp(prefix="vb.", dir="/tmp")
    try:
        p = json.load(open(V + "/seeded/%s/meta.json" % id))["property"]
        rc, o = sh("git apply %s/seeded/%s/patch.diff" % (V, id), d)
        if rc: print(id, "does not apply", o); return
        for q in props or [p]:
            rc, o = sh("REPO=%s VERIF_BUILD=%s/b VERIF_EVIDENCE=%s/e HARNESS_CACHE=%s/build/cache python3 %s/run.py check %s --tier %s" % (d, b, b, V, V, q, tier), V, 900)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + q)]
            print("%-24s %s: %s (rc %d, %s)" % (id, q, "CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "BROKEN " + o[-800:], rc, o.splitlines()[-1] if o else ""), flush=True)
    finally: shutil.rmtree(d); shutil.rmtree(b)
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        if ":" in i: i, ps = i.split(":"); ps = ps.split(",")
        else: ps = None
        b = blame(i)
        if b: print(i, "NOT ORIGINAL LINES", b)
        catch(i, ps)
