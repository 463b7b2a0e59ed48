// Exhaustive exploration of the USB gadget back-end: every reachable state of its memory over an alphabet of keys.
//   gcheck [--thorough] [--replay FILE] [--outdir D]
// The kernel's side (open, write, poll, close of /dev/hidg0) is a model: a report that the host has not fetched yet makes a
// non-blocking write fail with EAGAIN and a blocking one wait; a write may also fail for good.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <setjmp.h>
#include <string>
#include <sys/select.h>
#include <unordered_set>
#include <vector>
typedef std::string S;
extern "C" { struct vkbd; struct vkbd *vkbd_init(const char *); void vkbd_send_key(const struct vkbd *, uint8_t, int); void vkbd_mouse_move(const struct vkbd *, int, int); void vkbd_mouse_move_abs(const struct vkbd *, int, int); void vkbd_mouse_scroll(const struct vkbd *, int, int); void free_vkbd(struct vkbd *);
extern char __start_gad_data[], __stop_gad_data[], __start_gad_bss[], __stop_gad_bss[]; }
// HID usages of the keyboard page as Linux maps them back to key codes (drivers/hid/hid-input.c)
static const int U = 240;
static const unsigned char hk[256] = {
 0,0,0,0,30,48,46,32,18,33,34,35,23,36,37,38,50,49,24,25,16,19,31,20,22,47,17,45,21,44,2,3,
 4,5,6,7,8,9,10,11,28,1,14,15,57,12,13,26,27,43,43,39,40,41,51,52,53,58,59,60,61,62,63,64,
 65,66,67,68,87,88,99,70,119,110,102,104,111,107,109,106,105,108,103,69,98,55,74,78,96,79,80,81,75,76,77,71,
 72,73,82,83,86,127,116,117,183,184,185,186,187,188,189,190,191,192,193,194,134,138,130,132,128,129,131,137,133,135,136,113,
 115,114,U,U,U,121,U,89,93,124,92,94,95,U,U,U,122,123,90,91,85,U,U,U,U,U,U,U,111,U,U,U,
 U,U,U,U,U,U,U,U,U,U,U,U,U,U,U,U, U,U,U,U,U,U,179,180,U,U,U,U,U,U,U,U,
 U,U,U,U,U,U,U,U,U,U,U,U,U,U,U,U, U,U,U,U,U,U,U,118,111,U,U,U,U,U,U,U,
 29,42,56,125,97,54,100,126,164,166,165,163,161,115,114,113,150,158,159,128,136,177,178,176,142,152,173,140};
static const int modcode[8] = {29, 42, 56, 125, 97, 54, 100, 126};      // bits of the first byte, in order
static const std::set<int> optional{95, 128, 130};                       // keys the table leaves out although a usage exists
static int mod_of(int c) { for (int i = 0; i < 8; i++) if (modcode[i] == c) return 1 << i; return 0; }
static bool has_usage(int c) { if (!c || mod_of(c)) return false; for (int u = 4; u < 0xe8; u++) if (hk[u] == c && c != U) return true; return false; }

// ---- the kernel's side
struct Kern { bool open = false, nonblock = false, busy = false; int polls = 0; uint8_t last[8] = {0}; int reports = 0; };
static Kern kn; static int fault = 0; static S badmsg; static jmp_buf jb; static bool guard = false; static char heap_[4096]; static size_t heap_n = 0;
static void bad(const S &s) { if (badmsg.empty()) badmsg = s; }
extern "C" {
int env_open(const char *p, int fl, ...) { if (strcmp(p, "/dev/hidg0")) bad(S("opens ") + p); if (fault == 1) { errno = ENOENT; return -1; } kn.open = true; kn.nonblock = fl & O_NONBLOCK; if ((fl & O_ACCMODE) == O_RDONLY) bad("the gadget is opened for reading only"); return 7; }
ssize_t env_write(int fd, const void *b, size_t n) {
  if (fd != 7) { bad("writes to a wrong descriptor"); errno = EBADF; return -1; }
  if (fault == 2) { errno = ESHUTDOWN; return -1; }
  if (kn.busy) { if (kn.nonblock) { if (++kn.polls > 10000) { kn.busy = false; } errno = EAGAIN; return -1; } kn.busy = false; }
  if (n != 8) bad("a report of " + std::to_string(n) + " bytes"); memcpy(kn.last, b, n < 8 ? n : 8); kn.reports++; return n; }
static int fetched() { kn.busy = false; return 1; }
int env_poll(struct pollfd *p, unsigned long n, int to) { for (unsigned long i = 0; i < n; i++) p[i].revents = p[i].fd == 7 ? p[i].events & POLLOUT : 0; if (kn.busy && to == 0) { for (unsigned long i = 0; i < n; i++) p[i].revents = 0; return 0; } return fetched(); }
int env_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) { return fetched(); }
int env_usleep(unsigned) { fetched(); return 0; } int env_nanosleep(const struct timespec *, struct timespec *) { fetched(); return 0; }
int env_fcntl(int, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); if (cmd == F_GETFL) return kn.nonblock ? O_NONBLOCK : 0; if (cmd == F_SETFL) kn.nonblock = v & O_NONBLOCK; return 0; }
int env_close(int fd) { if (fd != 7 || !kn.open) bad("closes a wrong descriptor"); kn.open = false; return 0; }
void *env_calloc(size_t a, size_t b) { size_t n = (a * b + 15) / 16 * 16; if (heap_n + n + 64 > sizeof heap_) abort(); void *p = heap_ + heap_n; heap_n += n + 64; memset(p, 0, n); memset((char *)p + n, 0xEE, 64); return p; }
void *env_malloc(size_t n) { void *p = env_calloc(1, n); memset(p, 0xA5, n); return p; } void *env_realloc(void *, size_t) { abort(); } void env_free(void *) {}
void env_exit(int c) { if (guard) longjmp(jb, 100 + (c & 0x7f ? 1 : 0)); _Exit(3); } void env__exit(int c) { env_exit(c); }
void env_perror(const char *) {} int env_fprintf(FILE *, const char *, ...) { return 0; } int env_printf(const char *, ...) { return 0; } int env_puts(const char *) { return 0; } size_t env_fwrite(const void *, size_t, size_t n, FILE *) { return n; } int env_fputs(const char *, FILE *) { return 0; } int env_vfprintf(FILE *, const char *, va_list) { return 0; } int env_fputc(int, FILE *) { return 0; } int env_putchar(int) { return 0; }
}
// ---- states
struct St { S mem; Kern k; std::vector<int> down; int parent; int act; int depth; };
static size_t dn() { return __stop_gad_data - __start_gad_data; } static size_t bn() { return __stop_gad_bss - __start_gad_bss; }
static S get() { S s(__start_gad_data, dn()); s.append(__start_gad_bss, bn()); s.append(heap_, heap_n); return s; }
static void put(const S &s) { memcpy(__start_gad_data, s.data(), dn()); memcpy(__start_gad_bss, s.data() + dn(), bn()); heap_n = s.size() - dn() - bn(); memcpy(heap_, s.data() + dn() + bn(), heap_n); }
static struct vkbd *vk; static std::vector<int> down;
static S name(int a) { char b[64]; int c = a & 255; snprintf(b, sizeof b, "%s %d%s", a & 256 ? "press" : "release", c, a & 512 ? " (host has not fetched the last report)" : a & 1024 ? " (write fails)" : ""); return b; }
static S check(bool written) {
  if (badmsg.size()) return badmsg; if (!written) return "";
  int m = 0; std::set<int> must, may, got; for (int c : down) { if (mod_of(c)) m |= mod_of(c); else if (has_usage(c)) (optional.count(c) ? may : must).insert(c); }
  char b[200]; uint8_t *r = kn.last; snprintf(b, sizeof b, "the report %02x %02x %02x %02x %02x %02x %02x %02x", r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]); S rep = b;
  if (r[0] != m) { snprintf(b, sizeof b, " has modifiers %02x, but %02x are down", r[0], m); return rep + b; }
  if (r[1]) return rep + " has a reserved byte which is not 0";
  for (int i = 2; i < 8; i++) if (r[i]) { int c = hk[r[i]]; if (r[i] == 0x31 || r[i] == 0x32) c = 43; if (r[i] < 4) return rep + " has an error code"; if (!must.count(c) && !may.count(c)) return rep + " contains usage " + std::to_string(r[i]) + " (code " + std::to_string(c) + "), which is not down"; if (!got.insert(c).second) return rep + " contains a key twice"; }
  if (must.size() + may.size() <= 6) { for (int c : must) if (!got.count(c)) return rep + " lacks key " + std::to_string(c) + ", which is down"; }
  else if (may.empty() && got.size() < 6) return rep + " has room, but lacks keys that are down";
  return "";
}
static S apply(int a) {
  badmsg.clear(); int c = a & 255; bool pr = a & 256; kn.busy = a & 512; kn.polls = 0; fault = a & 1024 ? 2 : 0; int before = kn.reports;
  // what was on the stack before must not reach a report
  { volatile char poison[2048]; for (size_t i = 0; i < sizeof poison; i++) poison[i] = (char)0xC7; }
  guard = true; int r = setjmp(jb); if (!r) vkbd_send_key(vk, c, pr); guard = false; if (r) return "the daemon ends"; 
  for (size_t i = 0; i < down.size(); i++) if (down[i] == c) { down.erase(down.begin() + i); break; } if (pr) down.push_back(c);
  bool written = kn.reports != before; if (fault) written = false; else if (!written && (mod_of(c) || has_usage(c))) { S m = check(true); return m.empty() ? m : kn.busy ? "the change is never reported: the host had not fetched the previous report yet" : "no report is sent: " + m; }
  S s = check(written); if (s.size()) return s; return "";
}
static S outdir; static long states = 0, trans = 0; static int nv = 0; static S vjson; static S sample;
static void violation(const S &id, const S &what, const std::vector<int> &path) {
  if (nv >= 5) return; S tr, rf = outdir.empty() ? "" : outdir + "/D12-" + id + "-" + std::to_string(nv) + ".replay"; for (int a : path) tr += (tr.size() ? "; " : "") + name(a);
  if (rf.size()) { FILE *f = fopen(rf.c_str(), "w"); if (f) { fprintf(f, "# %s\ngadget\n", what.c_str()); for (int a : path) fprintf(f, "%d # %s\n", a, name(a).c_str()); fclose(f); } }
  vjson += S(nv ? "," : "") + "{\"kind\":\"report\",\"detail\":\"" + what + "\",\"trace\":\"" + tr + "\",\"replay\":\"" + rf + "\"}"; nv++;
}
static S base; static Kern base_k;
static void reset() { put(base); kn = base_k; down.clear(); }
// breadth first over every reachable state
static bool explore(const S &id, const std::vector<int> &keys, int maxdepth, long cap, bool faults, size_t maxdown) {
  std::vector<St> q; std::unordered_set<S> seen; reset(); auto key = [] { S s = get(); s.append((char *)kn.last, 8); for (int c : down) s += (char)c; return s; };
  // the order in which keys went down matters only through the program's memory
  auto canon = [&] { S s = get(); s.append((char *)kn.last, 8); std::set<int> d(down.begin(), down.end()); for (int c : d) s += (char)c; return s; };
  q.push_back({get(), kn, {}, -1, 0, 0}); seen.insert(canon()); bool capped = false; int maxd = 0;
  for (size_t i = 0; i < q.size() && !nv; i++) {
    if ((long)q.size() > cap) { capped = true; break; } if (q[i].depth >= maxdepth) continue;
    for (int c : keys) for (int v = 0; v < (faults ? 6 : 2); v++) {
      int a = c | (v & 1 ? 256 : 0) | (v / 2 == 1 ? 512 : v / 2 == 2 ? 1024 : 0); bool isd = false; for (int d : q[i].down) isd |= d == c; if (v & 1 && !isd && q[i].down.size() >= maxdown) continue;
      put(q[i].mem); kn = q[i].k; down = q[i].down; trans++; S m = apply(a);
      if (m.size()) { std::vector<int> p{a}; for (int n = i; n > 0; n = q[n].parent) p.insert(p.begin(), q[n].act); violation(id, m, p); goto out; }
      kn.busy = false; kn.reports = 0; kn.polls = 0; fault = 0; if (!seen.insert(canon()).second) continue; q.push_back({get(), kn, down, (int)i, a, q[i].depth + 1}); if (q.back().depth > maxd) maxd = q.back().depth;
    }
  }
  out: states += q.size(); if (q.size() > 20) { sample.clear(); std::vector<int> p; for (int n = q.size() - 1; n > 0; n = q[n].parent) p.insert(p.begin(), q[n].act); for (int a : p) sample += (sample.size() ? "; " : "") + name(a); }
  fprintf(stderr, "%s: %zu states, depth %d%s\n", id.c_str(), q.size(), maxd, capped ? " (capped)" : ""); return capped;
}
int main(int argc, char **argv) {
  bool th = false; S rp; for (int i = 1; i < argc; i++) { S a = argv[i]; if (a == "--thorough") th = true; else if (a == "--outdir") outdir = argv[++i]; else if (a == "--replay") rp = argv[++i]; }
  S pre = get(); fault = 1; guard = true; int r = setjmp(jb); if (!r) { vkbd_init("x"); violation("init", "the gadget device cannot be opened, but the daemon goes on", {}); } else if (r == 100) violation("init", "the gadget device cannot be opened, but the daemon ends reporting success", {}); guard = false; fault = 0; heap_n = 0; put(pre); kn = Kern();
  vk = vkbd_init("x"); if (badmsg.size()) violation("init", badmsg, {}); vkbd_mouse_move(vk, 1, 1); vkbd_mouse_move_abs(vk, 1, 1); vkbd_mouse_scroll(vk, 1, 1); if (kn.reports) violation("mouse", "a pointer event is sent as a keyboard report", {}); kn.reports = 0; base = get(); base_k = kn;
  if (rp.size()) { FILE *f = fopen(rp.c_str(), "r"); char l[400]; reset(); while (f && fgets(l, sizeof l, f)) { if (l[0] == '#' || l[0] < '0' || l[0] > '9') continue; int a = atoi(l); S m = apply(a); printf("%-60s report", name(a).c_str()); for (int i = 0; i < 8; i++) printf(" %02x", kn.last[i]); printf("%s%s\n", m.size() ? "   <-- " : "", m.c_str()); kn.busy = false; if (m.size()) return 1; } return 0; }
  bool cap = false;
  std::vector<int> all; for (int c = 0; c < 256; c++) all.push_back(c);
  cap |= explore("all2", all, 2, 1 << 30, true, 99);                                     // every code, every pair
  if (!nv) cap |= explore("mods", {29, 42, 56, 125, 97, 54, 100, 126, 30}, 1 << 20, 1 << 22, false, 99);   // every reachable state
  if (!nv) cap |= explore("faults", th ? std::vector<int>{29, 42, 97, 54, 30, 48, 46, 240} : std::vector<int>{29, 42, 54, 30, 48, 240}, 1 << 20, 1 << 24, true, 99);
  if (!nv) cap |= explore("seven", {30, 48, 46, 32, 18, 33, 34, 97}, 1 << 20, 1 << 22, false, 99);
  if (!nv && th) { cap |= explore("all3", all, 3, 1 << 30, false, 3); cap |= explore("eight", {30, 48, 46, 32, 18, 33, 34, 35}, 1 << 20, 1 << 24, false, 99); cap |= explore("last", {87, 88, 183, 194, 111, 119, 85, 240}, 1 << 20, 1 << 24, false, 99); }
  printf("{\"scenario\":\"gadget\",\"states\":%ld,\"transitions\":%ld,\"depth\":0,\"bound\":0,\"outcomes\":1,\"rest\":0,\"leaves\":%ld,\"capped\":%s,\"canon\":true,\"wall\":0,\"samples\":[\"%s\"],\"violations\":[%s]}\n", states, trans, trans, cap ? "true" : "false", sample.c_str(), vjson.c_str());
  return nv ? 1 : 0;
}
