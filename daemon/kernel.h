// Stand-in for everything outside the daemon: input devices, uinput, inotify, the control socket and its
// clients, files, the clock.  One value (K) holds all of it, so that a state of the search is a copy of K plus
// the daemon's memory (lib/snap.h) and its stack.
#pragma once
#include "../lib/snap.h"
#include "../engine/conf.h"
#include <cerrno>
#include <cstdarg>
#include <deque>
#include <map>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <linux/input.h>
#include <linux/uinput.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <time.h>
namespace kern {
static const long T0 = 1500000000;                  // ms; recognisable in memory
enum FdKind : uint8_t { FK_FREE, FK_NULL, FK_UINPUT, FK_DEV, FK_INOTIFY, FK_SOCK, FK_CON, FK_LOCK, FK_FILE, FK_DIR, FK_OTHER, FK_OUT };
struct Fd { FdKind kind = FK_FREE; uint8_t cloexec = 0, nonblock = 0; int16_t idx = 0; int off = 0; };
struct Ev { uint16_t type, code; int32_t value; bool operator==(const Ev &o) const { return type == o.type && code == o.code && value == o.value; } };
enum { D_KBD = 1, D_REL = 2, D_ABS = 4, D_BRIGHT = 8, D_VOL = 16, D_BTN = 32, D_PART = 64 };
struct DevSpec {
  std::string node, name = "dev"; int vendor = 1, product = 1, kind = D_KBD, minx = 0, maxx = 1023, miny = 0, maxy = 1023, held = 0, heldkey = 30; bool present = true, nodir = false;
  bool f_open = false, f_key = false, f_rel = false, f_abs = false, f_name = false, f_id = false, f_absinfo = false, f_grab = false, f_led = false, f_getkey = false; int extrakeys = 0;
  bool keybit(int c) const { return ((kind & D_KBD) && c >= 1 && c <= 120) || ((kind & D_BRIGHT) && (c == 224 || c == 225)) || ((kind & D_VOL) && (c == 114 || c == 115)) || ((kind & D_BTN) && c >= BTN_LEFT && c <= BTN_EXTRA) || ((kind & D_PART) && ((c >= 2 && c <= 11) || (c >= 16 && c <= 20))) || (c > 130 && c <= 130 + extrakeys); }
  uint8_t relmask() const { return kind & D_REL ? 3 : 0; }
  uint8_t absmask() const { return kind & D_ABS ? 3 : 0; }
  int nkeys() const { int n = 0; for (int c = 0; c < (BTN_LEFT / 32 + 1) * 32; c++) n += keybit(c); return n; }
  std::string id() const {
    uint32_t h = 5183; unsigned n = nkeys(); for (int s = 24; s >= 0; s -= 8) h = h * 33 + (uint8_t)(n >> s);
    h = h * 33 + absmask(); h = h * 33 + relmask(); for (char c : name.substr(0, 63)) h = h * 33 + c;
    char b[64]; snprintf(b, sizeof b, "%04x:%04x:%08x", vendor, product, h); return b;
  }
  int caps() const { return (kind & (D_REL | D_ABS) ? 1 : 0) | (kind & D_ABS ? 2 : 0) | (kind & (D_KBD | D_BRIGHT | D_VOL) ? 4 : 0); }
};
struct Dev { bool present = false; uint8_t opens = 0, grabs = 0; int held = 0, gproc = -1, gfd = -1; std::deque<Ev> q; int8_t led[16]; uint64_t phys[12] = {0}; Dev() { memset(led, -1, sizeof led); } bool gone = false; };
struct Uin { int proc = 0; uint64_t ev = 0, rel = 0, abs = 0, led = 0, key[12] = {0}; bool created = false, dead = false; int vendor = -1, amin[2] = {-1, -1}, amax[2] = {-1, -1}; uint64_t down[12] = {0}; std::vector<Ev> part; };
struct Con { bool used = false, accepted = false, closed = false, peer_gone = false; std::string in, out; size_t pos = 0; int end = 0; long cap = -1; long rto = 0, sto = 0; int spec = -1; size_t split = 0; long at = 0; };   // bytes after `split` arrive at `at`
struct Item { enum Kind { REPORT, CMD, SLEEP, EXIT } kind; int a = 0; std::vector<Ev> evs; std::string s; bool operator==(const Item &o) const { return kind == o.kind && a == o.a && evs == o.evs && s == o.s; } };
struct Sock { int proc = 0; bool open = true, listening = false; int mode = 0777, gid = 0; };                 // control sockets ever made
struct Lock { int proc = -1, fd = -1, mode = 0; };                                             // inodes of the lock file ever made, and who holds them
struct File { std::string data; bool dir = false; bool fail = false; };
typedef std::map<std::string, File> Files;
struct K {
  long now = T0 * 1000; Fd fds[80]; std::vector<Dev> devs; std::vector<Uin> uin; Con cons[44]; std::vector<int> backlog; std::deque<std::string> ino; int inofd = -1;
  int fileset = 0, zombies = 0; bool sigpipe_ign = false, sigchld_ign = false; std::vector<Sock> socks; std::vector<Lock> locks; int sock_path = 0, lock_path = 0; int egid[2] = {0, 0}, umask[2] = {022, 022};   // what is at the paths: 0 nothing, -1 left over, n: number n-1
  int dir_pos = 0; long blocked = 0; int fail_accept = 0;
  std::vector<Item> out; std::string bad, dup; bool exited = false; int exit_code = 0; int enomem = 0;
  struct pollfd *pfds = nullptr; int npfds = 0, timeout = -1;
  bool reader_gone = false, linebuf = false; std::string obuf, text;      // keyd monitor: its standard output
};
static K k; static std::vector<DevSpec> specs; static std::vector<Files> filesets; static int fail_call = -1, calls = 0; static std::string fail_what;
static int cur_proc = 0; static const char *step_arg = ""; static unsigned long step_req = 0; static void (*exit_handlers[16])(); static int exit_handler_n = 0; static bool run_exit_handlers = false;
static const char *SOCKP = "/run/keyd.socket", *LOCKP = "/run/keyd.socket.lock";
static bool have_group = false; static int yield_uinput = 0;
inline void bad(const std::string &s) { if (k.bad.empty()) k.bad = s; }
enum Why { W_POLL, W_EXIT, W_CHILD, W_STEP, W_THREADS };
static Why why; static void *co_sp, *main_sp; static char *stk_lo, *stk_hi; static const size_t STK = 1 << 20;
extern "C" void co_switch(void **, void *); extern "C" void co_forkret(void **, uint64_t *, long);
inline void yield(Why w) { why = w; co_switch(&co_sp, main_sp); }
static void (*sched_point)(const char *) = nullptr;      // set while thread or process schedules are explored
#define STEP(n) do { if (sched_point) sched_point(n); } while (0)
inline long ms() { return k.now / 1000; }
static int newfd(FdKind kd, int idx, int flags) { for (int i = 0; i < 80; i++) if (k.fds[i].kind == FK_FREE) { k.fds[i] = {kd, (uint8_t)!!(flags & O_CLOEXEC), (uint8_t)!!(flags & O_NONBLOCK), (int16_t)idx, 0}; return i; } errno = EMFILE; return -1; }
inline Fd *fdp(int fd, const char *op) {
  if (fd >= 0 && fd < 80 && k.fds[fd].kind != FK_FREE) return &k.fds[fd];
  if (fd >= 3) bad(std::string(op) + " on file descriptor " + std::to_string(fd) + ", which is not open");
  errno = EBADF; return nullptr;
}
// ---- heap: large blocks are page aligned, followed by a guard page, and inaccessible once freed
struct Blk { uint32_t off, size, state; };           // state: 1 in use, 2 freed in this step, 3 free
struct Heap { size_t used; size_t n; Blk b[120]; };
inline Heap *heap() { return (Heap *)snap::ARENA_BASE; }
static std::map<uintptr_t, size_t> none;             // ranges currently inaccessible
inline size_t pages(size_t n) { return (n + 4095) / 4096 * 4096; }
inline bool denied(uintptr_t a) { auto i = none.upper_bound(a); if (i == none.begin()) return false; --i; return a < i->first + i->second; }
inline void reopen(uintptr_t lo, size_t n) {          // pages written before: writable; others: the first write is noticed
  auto prot = [](uintptr_t a) { auto *r = snap::find(a); bool hot = !snap::armed || !r || snap::hotflag[r->first + (a - (uintptr_t)r->lo) / 4096]; return hot ? PROT_READ | PROT_WRITE : PROT_READ; };
  for (uintptr_t a = lo; a < lo + n;) { int p = prot(a); uintptr_t e = a + 4096; while (e < lo + n && prot(e) == p) e += 4096; mprotect((void *)a, e - a, p); a = e; }
}
inline void heap_sync() {
  std::map<uintptr_t, size_t> want; Heap *h = heap();
  for (size_t i = 0; i < h->n; i++) { auto &b = h->b[i]; uintptr_t p = snap::ARENA_BASE + b.off; if (b.size <= 4096) continue; want[p + pages(b.size)] = 4096; if (b.state != 1) want[p] = pages(b.size); }
  for (auto &x : none) { auto w = want.find(x.first); if (w != want.end() && w->second == x.second) continue;
    reopen(x.first, x.second); }
  for (auto &x : want) { auto w = none.find(x.first); if (w != none.end() && w->second == x.second) continue; mprotect((void *)x.first, x.second, PROT_NONE); }
  none.swap(want);
}
inline void heap_open() {                             // everything that may be saved or restored becomes accessible
  std::map<uintptr_t, size_t> g;
  for (auto &x : none) {
    bool keep = false; if (x.second == 4096 && snap::armed) { auto *r = snap::find(x.first); keep = r && !snap::hotflag[r->first + (x.first - (uintptr_t)r->lo) / 4096]; }   // a guard page nothing was ever written to
    if (keep) g.insert(x); else reopen(x.first, x.second);
  }
  none.swap(g);
}
inline void heap_settle() { Heap *h = heap(); for (size_t i = 0; i < h->n; i++) if (h->b[i].state == 2) h->b[i].state = 3; }
inline void heap_init() { snap::init(); Heap *h = heap(); h->used = 4096 * 4; h->n = 0; none.clear(); }
static void *halloc(size_t n) {
  Heap *h = heap(); if (!n) n = 1; size_t sz = n <= 4096 ? (n + 15) / 16 * 16 : n;
  for (size_t i = 0; i < h->n; i++) if (h->b[i].state == 3 && h->b[i].size == sz) { h->b[i].state = 1; heap_sync(); return (void *)(snap::ARENA_BASE + h->b[i].off); }
  if (h->n >= 120) snap::sut_die("memory is used up without bound");
  size_t o = h->used; if (sz > 4096) o = pages(o);
  if (o + pages(sz) + 8192 > snap::ARENA_SZ) snap::sut_die("memory is used up without bound");
  h->used = sz > 4096 ? o + pages(sz) + 4096 : o + sz; h->b[h->n++] = {(uint32_t)o, (uint32_t)sz, 1}; if (sz > 4096) heap_sync();
  return (void *)(snap::ARENA_BASE + o);
}
static Blk *blk_of(void *p) { Heap *h = heap(); for (size_t i = 0; i < h->n; i++) if (snap::ARENA_BASE + h->b[i].off == (uintptr_t)p) return &h->b[i]; return nullptr; }
} // namespace kern
