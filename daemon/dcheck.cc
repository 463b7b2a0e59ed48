// Explicit-state search over the whole daemon: the unmodified main(), daemon.c, evloop.c, device.c, ipc.c,
// vkbd/uinput.c and the engine run on a stack of their own inside a stand-in kernel; at every poll() the search
// decides what happens next.  In lockstep with the reference daemon (dmodel.h).
//   dcheck [--replay FILE] --prop ID --cmp LIST [--depth-add N] [--cap N] [--outdir D] --bundle FILE [--shard I N]
#include "kenv.h"
#include "dmodel.h"
#include <fstream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <sys/wait.h>
using namespace snap;
extern "C" { int sut_main(int, char **); size_t gd_kbd_size(); size_t gd_cfg_size(); size_t canon_emit(void *, long, long, int, unsigned char *, size_t); void canon_ranges(void *, void (*)(char *, size_t)); }
enum { C_KEYB = 1, C_PTR = 2, C_CMD = 4, C_SLEEP = 8, C_GRAB = 16, C_LED = 32, C_REPLY = 64, C_TEXT = 128, C_EXIT = 256, C_TIME = 512, C_BLOCK = 1024, C_LEAK = 2048, C_INHERIT = 4096, C_ENABLED = 8192, C_ALT = 16384, C_HELD = 32768 };
static const std::map<std::string, int> CN = {{"keyb", 1}, {"ptr", 2}, {"cmd", 4}, {"sleep", 8}, {"grab", 16}, {"led", 32}, {"reply", 64}, {"text", 128}, {"exit", 256}, {"time", 512}, {"block", 1024}, {"leak", 2048}, {"inherit", 4096}, {"enabled", 8192}, {"alt", 16384}, {"held", 32768}};
static int CMP; static std::string prop = "D00";
struct Prim { std::string op; int dev = -1, a = 0, b = 0, c = 0; std::string s; };
struct ActSpec { std::string text; std::vector<Prim> p; int max = 1000; };
struct Client { std::string name, bytes; size_t split = 0; long gap = 0; int end = 0; long cap = -1; ref::Msg meant; bool known = false; };   // end: 0 stays connected, 1 closed its side, 2 reset
struct Scn {
  std::string id, text, mode; std::vector<DevSpec> devs; std::map<std::string, int> devn; std::map<int, Files> files; std::vector<Client> clients; std::map<std::string, int> clin; std::vector<ActSpec> acts; std::vector<int> pre;
  std::vector<long> delays{5}; int depth = 5, devsb = 0, late = 0, early = 0, cap = 40000, eintr = 0; bool seqonly = false;
};
static std::vector<std::string> words(const std::string &s, char d = ' ') { std::vector<std::string> v; std::stringstream ss(s); std::string w; while (getline(ss, w, d)) if (!w.empty()) v.push_back(w); return v; }
static std::string unesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; } char c = s[++i]; if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == '0') r += '\0'; else if (c == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += c; } return r; }
[[noreturn]] static void usage(const Scn &s, const std::string &m) { fprintf(stderr, "scenario %s: %s\n", s.id.c_str(), m.c_str()); exit(3); }
static int evcode(const Scn &s, const std::string &w) { if (w[0] == '#') return atoi(w.c_str() + 1); int c = ref::lookup_key(w); if (!c) usage(s, "bad key " + w); return c; }
static ActSpec parse_act(const Scn &s, const std::string &v) {
  ActSpec a; a.text = v;
  for (auto &part : words(v, ';')) {
    auto w = words(part); if (w.empty()) continue; Prim p; p.op = w[0];
    auto dev = [&](size_t i) { if (w.size() <= i || !s.devn.count(w[i])) usage(s, "bad device in " + v); return s.devn.at(w[i]); };
    auto cli = [&](size_t i) { if (w.size() <= i || !s.clin.count(w[i])) usage(s, "bad client in " + v); return s.clin.at(w[i]); };
    if (p.op == "k" || p.op == "kd" || p.op == "ku" || p.op == "tap") { p.dev = dev(1); if (w.size() < 3) usage(s, "key missing in " + v); p.a = evcode(s, w[2]); }
    else if (p.op == "e" || p.op == "r") { p.dev = dev(1); p.a = atoi(w[2].c_str()); p.b = atoi(w[3].c_str()); p.c = atoi(w[4].c_str()); }
    else if (p.op == "rem" || p.op == "add") p.dev = dev(1);
    else if (p.op == "con" || p.op == "peerclose") p.a = cli(1); else if (p.op == "peerfull") { p.a = cli(1); p.b = atoi(w[2].c_str()); }
    else if (p.op == "node") p.s = w[1]; else if (p.op == "fs") p.a = atoi(w[1].c_str());
    else if (p.op == "max") { a.max = atoi(w[1].c_str()); continue; }
    else if (p.op == "eintr" || p.op == "wake" || p.op == "failaccept" || p.op == "readergone") {} else usage(s, "unknown primitive " + p.op);
    a.p.push_back(p);
  }
  return a;
}
static void parse_scn(const std::string &text, Scn &s) {
  s.text = text; std::stringstream ss(text); std::string l; std::vector<std::string> later;
  while (getline(ss, l)) {
    if (l.compare(0, 2, "#!")) continue; size_t p = l.find(' ', 3); std::string key = l.substr(3, p == std::string::npos ? std::string::npos : p - 3), v = p == std::string::npos ? "" : l.substr(p + 1);
    if (key == "id") s.id = v; else if (key == "depth") s.depth = atoi(v.c_str()); else if (key == "late") s.late = atoi(v.c_str()); else if (key == "early") s.early = atoi(v.c_str()); else if (key == "devs") s.devsb = atoi(v.c_str()); else if (key == "cap") s.cap = atoi(v.c_str());
    else if (key == "delays") { s.delays.clear(); for (auto &w : words(v)) s.delays.push_back(atol(w.c_str())); }
    else if (key == "file") {                          // file SET PATH TEXT
      size_t a = v.find(' '), b = v.find(' ', a + 1); int set = atoi(v.c_str()); std::string path = v.substr(a + 1, b - a - 1); File f; if (path.back() == '/') { f.dir = true; path.pop_back(); } f.data = unesc(v.substr(b + 1)); if (f.data == "\x01unreadable") f.fail = true; s.files[set][path[0] == '/' ? path : "/etc/keyd/" + path] = f; }
    else if (key == "fileset") s.files[atoi(v.c_str())];
    else if (key == "dev") {
      auto w = words(v); DevSpec d; s.devn[w[0]] = s.devs.size();
      for (size_t i = 1; i < w.size(); i++) { size_t e = w[i].find('='); std::string n = w[i].substr(0, e), x = e == std::string::npos ? "1" : w[i].substr(e + 1); long z = strtol(x.c_str(), 0, 0);
        if (n == "node") d.node = x; else if (n == "name") { d.name = x; std::replace(d.name.begin(), d.name.end(), '~', ' '); } else if (n == "vendor") d.vendor = z; else if (n == "product") d.product = z; else if (n == "present") d.present = z; else if (n == "dir") d.nodir = z; else if (n == "held") d.held = z; else if (n == "heldkey") d.heldkey = z; else if (n == "keys") d.extrakeys = z;
        else if (n == "kind") { d.kind = 0; for (char c : x) d.kind |= c == 'k' ? D_KBD : c == 'r' ? D_REL : c == 'a' ? D_ABS : c == 'b' ? D_BRIGHT : c == 'v' ? D_VOL : c == 'm' ? D_BTN : c == 'p' ? D_PART : 0; }
        else if (n == "absx") sscanf(x.c_str(), "%d:%d", &d.minx, &d.maxx); else if (n == "absy") sscanf(x.c_str(), "%d:%d", &d.miny, &d.maxy);
        else if (n == "fail") { for (auto &f : words(x, ',')) { if (f == "open") d.f_open = 1; else if (f == "key") d.f_key = 1; else if (f == "rel") d.f_rel = 1; else if (f == "abs") d.f_abs = 1; else if (f == "name") d.f_name = 1; else if (f == "id") d.f_id = 1; else if (f == "absinfo") d.f_absinfo = 1; else if (f == "grab") d.f_grab = 1; else if (f == "led") d.f_led = 1; else if (f == "getkey") d.f_getkey = 1; else usage(s, "bad failure " + f); } }
        else usage(s, "bad device option " + n); }
      s.devs.push_back(d); }
    else if (key == "client") {                        // client NAME KIND TIMEOUT [bytes=N] [sz=N] [end=..] [cap=N] | DATA
      size_t bar = v.find(" | "); std::string data = bar == std::string::npos ? "" : unesc(v.substr(bar + 3)); auto w = words(v.substr(0, bar)); Client c; c.name = w[0]; size_t n = gd_msg_size();
      static const std::map<std::string, int> kinds = {{"success", 0}, {"fail", 1}, {"bind", 2}, {"input", 3}, {"macro", 4}, {"reload", 5}, {"listen", 6}};
      size_t sz = data.size(), bytes = ~0ul; int kind = -1; unsigned to = 0; bool raw = false;
      if (w[1] == "raw") raw = true; else { kind = kinds.count(w[1]) ? kinds.at(w[1]) : atoi(w[1].c_str()); to = strtoul(w[2].c_str(), 0, 0); }
      for (size_t i = raw ? 2 : 3; i < w.size(); i++) { size_t e = w[i].find('='); std::string o = w[i].substr(0, e), x = w[i].substr(e + 1); if (o == "bytes") bytes = atol(x.c_str()); else if (o == "sz") sz = strtoul(x.c_str(), 0, 0); else if (o == "end") c.end = x == "close" ? 1 : x == "reset" ? 2 : 0; else if (o == "cap") c.cap = atol(x.c_str()); else if (o == "split") { c.split = atol(x.c_str()); c.gap = atol(x.substr(x.find(':') + 1).c_str()); } else if (o == "fill") data.resize(atol(x.c_str()), data.empty() ? 'x' : data.back()), sz = data.size(); else usage(s, "bad client option " + o); }
      if (raw) c.bytes = data; else {
        c.bytes.resize(n); std::string padded = data; gd_msg(&c.bytes[0], kind, to, padded.data(), padded.size(), sz);
        std::string full = data; full.resize(gd_data_size());
        c.meant = {kind, to, full, sz}; ref::msgs[c.bytes] = c.meant; }
      if (bytes < c.bytes.size()) c.bytes.resize(bytes); else if (bytes != ~0ul) c.bytes.resize(bytes, 'x');
      s.clin[c.name] = s.clients.size(); s.clients.push_back(c); }
    else if (key == "act" || key == "pre" || key == "init") later.push_back(l.substr(3));
    else if (key == "mode") s.mode = v; else if (key == "preempt") s.eintr = atoi(v.c_str()) + 1; else if (key == "note") {} else usage(s, "unknown header " + key);
  }
  for (auto &x : later) {
    size_t p = x.find(' '); std::string key = x.substr(0, p), v = x.substr(p + 1);
    s.acts.push_back(parse_act(s, v)); if (key == "pre") { s.pre.push_back(s.acts.size() - 1); s.acts.back().max = 0; }
  }
}

// ---------------------------------------------------------------- running the daemon
struct Viol { std::string kind, detail; };
static volatile long heartbeat; static long last_beat = -1; static int beat_ticks;
static void on_vtalrm(int sig, siginfo_t *, void *) {
  if (!in_sut) { last_beat = -1; return; }
  if (heartbeat == last_beat) { if (++beat_ticks >= 3) { sigset_t m; sigemptyset(&m); sigaddset(&m, sig); sigprocmask(SIG_UNBLOCK, &m, 0); sut_die("does not return (infinite loop)"); } } else { last_beat = heartbeat; beat_ticks = 0; }
}
static char arg_[3][16] = {"keyd", "monitor", "-t"}; static int argc_ = 1;
static void co_main() { char *argv[] = {arg_[0], argc_ > 1 ? arg_[1] : nullptr, argc_ > 2 ? arg_[2] : nullptr, nullptr}; int r = sut_main(argc_, argv); proc_end(r); }
static void co_start() {
  static char *stk = nullptr;
  if (!stk) { stk = (char *)mmap((void *)0x200000000000ull, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); mprotect(stk, 4096, PROT_NONE); stk_lo = stk + 4096; stk_hi = stk + 4096 + STK; }
  memset(stk_hi - 65536, 0, 65536);
  uint64_t *sp = (uint64_t *)(stk_hi - 64); sp[6] = (uint64_t)co_main; sp[7] = 0; co_sp = sp; if (((uintptr_t)(sp + 7)) % 16 != 8) { sp = (uint64_t *)((char *)sp - 8); sp[6] = (uint64_t)co_main; sp[7] = 0; co_sp = sp; }
}
static bool run_sut(Viol &v) {                         // until the daemon waits or ends
  static sigjmp_buf jb; heartbeat++; forks.clear();
  if (sigsetjmp(jb, 0)) { in_sut = false; trap = nullptr; forks.clear(); v = {"crash", crash_msg}; return false; }
  trap = &jb; in_sut = true; co_switch(&main_sp, co_sp);
  while (why == W_CHILD) {
    Fork f = forks.back(); forks.pop_back(); bool ex = k.exited; (void)ex; k.exited = false;
    if (armed) { heap_open(); restore(f.mem); heap_sync(); }
    memcpy((void *)f.regs[6], f.stack.data(), f.stack.size()); memcpy((void *)k.fds, f.fds, sizeof k.fds); if (forks.empty() && !k.sigchld_ign) k.zombies++;
    co_forkret(&main_sp, f.regs, ++next_pid);
  }
  in_sut = false; trap = nullptr;
  return true;
}
static int role(int u) { return k.uin[u].key[0] >> KEY_A & 1 ? 0 : 1; }

// ---------------------------------------------------------------- states
static ref::Daemon rd; static Scn *S; static long KMAX = 2000;
struct Act { int16_t idx; int16_t late; long dt; };    // idx -1: the poll times out (late ms after it should), -2: interrupted, -3: returns early
struct Node { std::vector<Word> mem; std::string stack; void *sp; K kk; ref::Daemon d; int parent, dist, devs; Act act; std::vector<uint16_t> used; };
static std::deque<Node> nodes; static std::string base_stack; static char *base_sp; static std::vector<uint16_t> used;
static bool fd_ready(const struct pollfd &p, short &rev) {
  rev = 0; if (p.fd < 0) return false;
  if (p.fd >= 80 || k.fds[p.fd].kind == FK_FREE) { bad("poll() on file descriptor " + std::to_string(p.fd) + ", which is not open"); rev = POLLNVAL; return true; }
  const Fd &f = k.fds[p.fd];
  switch (f.kind) {
  case FK_DEV: { const Dev &d = k.devs[f.idx]; if (d.gone || !d.present) rev = POLLIN | POLLERR | POLLHUP; else if (!d.q.empty()) rev = POLLIN; rev &= p.events | POLLERR | POLLHUP; break; }
  case FK_INOTIFY: rev = k.ino.empty() ? 0 : POLLIN & p.events; break;
  case FK_SOCK: rev = k.backlog.empty() ? 0 : POLLIN & p.events; break;
  case FK_CON: { const Con &c = k.cons[f.idx]; if (c.pos < c.in.size() || c.end || c.peer_gone) rev = POLLIN & p.events; if (c.peer_gone || c.end == 2) rev |= POLLHUP; break; }
  case FK_OUT: if (k.reader_gone) rev = POLLERR; break;
  default: rev = 0;
  }
  return rev;
}
static int poll_ready() { int n = 0; for (int i = 0; i < k.npfds; i++) { short r; if (fd_ready(k.pfds[i], r)) n++; k.pfds[i].revents = r; } return n; }
static void clear_revents() { for (int i = 0; i < k.npfds; i++) k.pfds[i].revents = 0; }

static std::string evs(const std::vector<Item> &v) {
  std::string s; for (auto &i : v) { if (s.size()) s += " ";
    if (i.kind == Item::REPORT) { s += i.a ? "pointer{" : "{"; bool f = true; for (auto &e : i.evs) { if (!f) s += " "; f = false; if (e.type == EV_KEY && !i.a && e.code < 256) s += ref::kname(e.code) + (e.value ? "+" : "-"); else s += std::to_string(e.type) + ":" + std::to_string(e.code) + "=" + std::to_string(e.value); } s += "}"; }
    else if (i.kind == Item::CMD) s += "command(" + i.s + ")"; else if (i.kind == Item::SLEEP) s += "sleep" + std::to_string(i.a); else s += "exit"; }
  return s.empty() ? "(nothing)" : s;
}
static std::vector<Item> pick(const std::vector<Item> &v) {
  std::vector<Item> r; bool sl = CMP & C_SLEEP;
  for (auto &i : v) { if (i.kind == Item::REPORT && !(CMP & (i.a ? C_PTR : C_KEYB))) continue; if (i.kind == Item::CMD && !(CMP & C_CMD)) continue; if (i.kind == Item::SLEEP && !sl) continue; r.push_back(i); }
  return r;
}
static std::vector<Item> drop_click_sleep(const std::vector<Item> &v) {      // the pause before a button report is the back-end's own business
  std::vector<Item> r; for (size_t i = 0; i < v.size(); i++) { if (v[i].kind == Item::SLEEP && v[i].a <= 1000 && i + 1 < v.size() && v[i + 1].kind == Item::REPORT && v[i + 1].a == 1) continue; r.push_back(v[i]); } return r;
}
// keyd monitor: what it printed
static std::string check_lines(bool any_order) {
  std::vector<std::string> got; std::string l; bool esc = false;
  for (char c : k.text) { if (esc) esc = c != 'm'; else if (c == 27) esc = true; else if (c == '\n') { if (!l.compare(0, 14, "device added: ") || !l.compare(0, 16, "device removed: ") || std::count(l.begin(), l.end(), '\t') >= 2) got.push_back(l); l.clear(); } else l += c; }
  if (l.size()) return "a line is left unfinished: \"" + l + "\"";
  auto want = rd.lines; if (any_order) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.text < b.text; }); }
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
    if (i >= want.size()) return "it prints \"" + got[i] + "\", which did not happen"; auto &w = want[i]; if (i >= got.size()) return "it does not print \"" + w.text + "\"";
    std::string g = got[i]; long gap = -1; if (g[0] == '+') { size_t p = g.find(" ms\t"); if (p != std::string::npos) { gap = atol(g.c_str() + 1); g.erase(0, p + 4); } }
    if (g != w.text) return "it prints \"" + got[i] + "\", should print \"" + w.text + "\"";
    if (w.gap == -2 ? gap < 0 : gap != w.gap) return "\"" + got[i] + "\" should " + (w.gap == -1 ? "not state a time" : "state " + std::to_string(w.gap) + " ms");
  }
  return "";
}
// the poll timeout against what is due
static bool check_wait(Viol &v) {
  if (!(CMP & C_TIME) || rd.dead) return true;
  long d = rd.due(); if (!d) return true; long left = d - ms();
  if (k.timeout < 0) { v = {"time", "something is due " + (left > 0 ? "in " + std::to_string(left) + " ms" : std::to_string(-left) + " ms ago") + ", but the daemon waits without a timeout"}; return false; }
  if (k.timeout > std::max(left, 0l)) { v = {"time", "something is due in " + std::to_string(left) + " ms, but the daemon waits for " + std::to_string(k.timeout) + " ms"}; return false; }
  return true;
}
static bool check_rest(Viol &v) {                      // the daemon waits and nothing is ready
  if ((CMP & C_ALT) && k.dup.size()) { v = {"alternate", k.dup}; return false; }
  if (CMP & C_EXIT) if (rd.dead) { v = {"exit", "the panic sequence is held, but the daemon goes on"}; return false; }
  if (rd.dead) return true;
  if (rd.mon) { std::string m = check_lines(nodes.empty()); if (m.size()) { v = {"monitor", m}; return false; } }
  auto a = drop_click_sleep(pick(k.out)), b = drop_click_sleep(pick(rd.out));
  if (!(a == b)) { v = {"output", "expected " + evs(b) + " ; got " + evs(a)}; return false; }
  for (size_t u = 0; u < k.uin.size(); u++) if (k.uin[u].part.size() && (CMP & (role(u) ? C_PTR : C_KEYB))) { v = {"sync", "an event on the virtual " + std::string(role(u) ? "pointer" : "keyboard") + " is not followed by a synchronisation"}; return false; }
  if ((CMP & C_INHERIT) && k.zombies > 3) { v = {"misuse", std::to_string(k.zombies) + " processes started for commands have ended and are not waited for"}; return false; }
  if (k.bad.size() && (CMP & (k.bad.find("inherits") != std::string::npos ? C_INHERIT : C_LEAK | C_EXIT))) { v = {"misuse", k.bad}; return false; }
  if ((CMP & C_BLOCK) && k.blocked > 1000000) { v = {"block", "clients block the daemon for " + std::to_string(k.blocked / 1000) + " ms"}; return false; }
  if (CMP & C_ENABLED) {
    for (int r = 0; r < 2; r++) { int n = 0; for (size_t u = 0; u < k.uin.size(); u++) n += k.uin[u].created && !k.uin[u].dead && role(u) == r; if (n != 1) { v = {"enabled", "there are " + std::to_string(n) + " virtual " + (r ? "pointers" : "keyboards")}; return false; } }
    for (size_t u = 0; u < k.uin.size(); u++) { Uin &x = k.uin[u]; int r = role(u); auto has = [&](int c) { return x.key[c >> 6] >> (c & 63) & 1; };
      if (!(x.ev >> EV_KEY & 1)) { v = {"enabled", "a virtual device does not declare EV_KEY"}; return false; }
      if (x.created && x.vendor != 0xfac) { v = {"enabled", "a virtual device does not carry the vendor id by which keyd knows its own devices"}; return false; }
      if (r) for (int a = 0; a < 2; a++) if (x.created && (x.amin[a] != 0 || x.amax[a] != 1024)) { v = {"enabled", "the virtual pointer declares a range of positions other than the one in use"}; return false; }
      for (int c = 1; c < 256; c++) { auto &n = ref::keys().k[c].name; if (n.empty() || c >= 195 && c <= 199 || c == ref::K_SUP || c == ref::K_SDOWN || c == ref::K_SLEFT || c == ref::K_SRIGHT) continue; auto it = ref::codemap().out.find(n); int dev = 0, oc = c; if (it != ref::codemap().out.end()) dev = it->second.first, oc = it->second.second; if (dev == r && !has(oc)) { v = {"enabled", "the virtual " + std::string(r ? "pointer" : "keyboard") + " does not declare the code of " + n}; return false; } }
      if (r && (!(x.ev >> EV_REL & 1) || !(x.ev >> EV_ABS & 1) || (x.rel & 0x143) != 0x143 || (x.abs & 3) != 3)) { v = {"enabled", "the virtual pointer does not declare all of its axes"}; return false; }
      if (!r && (!(x.ev >> EV_LED & 1) || (x.led & 0x1ff) != 0x1ff)) { v = {"enabled", "the virtual keyboard does not declare its LEDs"}; return false; } }
  }
  if ((CMP & C_HELD) && !rd.due()) {                    // no key is held and no timer runs: only latched modifiers may be
    bool held = false; for (auto &d : k.devs) if (d.present && !d.gone) for (int i = 0; i < 12; i++) held |= d.phys[i];
    if (!held) for (size_t u = 0; u < k.uin.size(); u++) for (int c = 0; c < 768; c++) if ((k.uin[u].down[c >> 6] & ~rd.udown[role(u)][c >> 6]) >> (c & 63) & 1) { v = {"held", "every key is up, but " + (c < 256 ? ref::kname(c) : "code " + std::to_string(c)) + " is left held"}; return false; }
  }
  std::map<int, bool> want; for (auto &d : rd.devs) want[d.spec] = d.grabbed;
  for (size_t i = 0; i < specs.size(); i++) {
    auto &n = S->devs[i]; bool w = want.count(i) && want[i];
    if (CMP & C_GRAB) {
      if (k.devs[i].present && (bool)k.devs[i].grabs != w) { v = {"grab", "device " + n.node + " (" + n.id() + ") should " + (w ? "" : "not ") + "be grabbed"}; return false; }
      if (k.devs[i].present && !k.devs[i].gone && want.count(i) && !k.devs[i].opens) { v = {"grab", "device " + n.node + " is not open although it is present"}; return false; }
    }
    if (CMP & C_LEAK) { if ((!k.devs[i].present || k.devs[i].gone) && k.devs[i].opens) { v = {"leak", "device " + n.node + " is gone but still open"}; return false; } if (k.devs[i].opens > 1) { v = {"leak", "device " + n.node + " is open more than once"}; return false; } }
    if ((CMP & C_LED) && k.devs[i].present) { auto it = rd.led.find(i); for (int l = 0; l < 16; l++) { int x = it == rd.led.end() ? -1 : it->second[l]; if (k.devs[i].led[l] != x) { const char *nm[] = {"untouched", "off", "on"}; v = {"led", "LED " + std::to_string(l) + " of " + n.node + " should be " + nm[x + 1] + ", is " + nm[k.devs[i].led[l] + 1]}; return false; } } }
  }
  for (int c = 0; c < 44; c++) if (k.cons[c].used) {
    Con &x = k.cons[c]; auto &y = rd.cons[c]; std::string who = "client " + S->clients[x.spec].name;
    bool able = !x.peer_gone && x.cap < 0;
    if (CMP & C_REPLY) {
      if (y.reply && able) {
        if (x.out.size() != gd_msg_size()) { v = {"reply", who + " should be answered with " + (y.reply == 1 ? "success" : "an error") + ", got " + std::to_string(x.out.size()) + " bytes"}; return false; }
        size_t sz; const char *dt; int r = gd_reply(x.out.data(), &sz, &dt);
        if (r != y.reply - 1) { v = {"reply", who + " should be answered with " + (y.reply == 1 ? "success" : "an error") + ", was answered with " + (r == 0 ? "success" : r == 1 ? "an error: " + std::string(dt, std::min<size_t>(sz, 200)) : "something else")}; return false; }
        if (y.reply == 2 && (!sz || sz > gd_data_size())) { v = {"reply", who + " gets an error without a message"}; return false; }
      } else if (!y.reply && !y.listener && y.text.empty() && able && x.out.size()) { size_t sz; const char *dt; if (x.out.size() != gd_msg_size() || gd_reply(x.out.data(), &sz, &dt) != 1) { v = {"reply", who + " gets an unexpected answer"}; return false; } }
    }
    if ((CMP & C_TEXT) && (y.listener || y.text.size()) && able) { std::string o = x.out; while (o.size() && !o.back()) o.pop_back(); if (o != y.text) { v = {"text", who + " should be told \"" + y.text + "\", was told \"" + o + "\""}; return false; } }
    if (CMP & (C_LEAK | C_REPLY | C_TEXT)) {
      if (x.closed && !y.done && !y.maybe) { v = {"closed", "the connection of " + who + " was closed"}; return false; }
      if (!x.closed && y.done && x.accepted) { v = {"leak", "the connection of " + who + " is left open"}; return false; }
    }
  }
  if (CMP & C_LEAK) for (int i = 3; i < 80; i++) if (k.fds[i].kind == FK_FILE || k.fds[i].kind == FK_DIR) { v = {"leak", "a file is left open"}; return false; }
  return true;
}
static void recycle() {                                // forget what has been compared
  k.out.clear(); rd.out.clear(); k.text.clear(); rd.lines.clear(); k.blocked = 0; k.dup.clear();
  for (int c = 0; c < 44; c++) if (k.cons[c].used) { if (k.cons[c].closed && (rd.cons[c].done || rd.cons[c].maybe)) { if (rd.cons[c].done) { k.cons[c] = Con(); rd.cons[c] = ref::RCon(); } } else { k.cons[c].out.clear(); rd.cons[c].text.clear(); } }
}
// from a poll with something ready until nothing is ready any more
static bool settle(Viol &v) {
  for (int n = 0; n < 3000; n++) {
    int r = poll_ready();
    if (!r) {
      clear_revents();
      if (!rd.dead && rd.busy()) { v = {"attend", rd.backlog.size() ? "a client is never served" : rd.hot.size() ? "new devices are not noticed" : "events of a device are never read"}; return false; }
      return true;
    }
    k.npfds = k.npfds; int np = k.npfds; k.npfds = r; long t = ms(); (void)np;
    rd.round(t); bool ok = run_sut(v);
    if (!ok) return false;
    if (why == W_EXIT) return true;
    if (!check_wait(v)) return false;
  }
  v = {"hang", "the daemon does not come to rest"}; return false;
}
static bool enabled(const ActSpec &a, int ai) {
  if (ai < (int)used.size() && used[ai] >= a.max) return false;
  std::vector<char> pres; for (auto &d : k.devs) pres.push_back(d.present && !d.gone);
  int nc = 0; for (auto &c : k.cons) nc += c.used; bool accept_fail = k.fail_accept;
  for (auto &p : a.p) {
    if (p.op == "add") { if (pres[p.dev]) return false; for (size_t i = 0; i < specs.size(); i++) if (pres[i] && specs[i].node == specs[p.dev].node) return false; if (k.devs[p.dev].opens) return false; pres[p.dev] = 1; }
    else if (p.op == "rem") { if (!pres[p.dev]) return false; pres[p.dev] = 0; }
    else if (p.dev >= 0 && !pres[p.dev]) return false;
    else if (p.op == "kd") { if (k.devs[p.dev].phys[p.a >> 6] >> (p.a & 63) & 1) return false; } else if (p.op == "ku") { if (!(k.devs[p.dev].phys[p.a >> 6] >> (p.a & 63) & 1)) return false; }
    else if (p.op == "con") { if (++nc > 44) return false; if (k.backlog.size() > 15) return false; }
    else if (p.op == "peerclose" || p.op == "peerfull") { bool any = false; for (auto &c : k.cons) any |= c.used && c.spec == p.a && !c.peer_gone && !c.closed; if (!any) return false; }
    else if (p.op == "failaccept") { if (accept_fail) return false; accept_fail = true; }
    else if (p.op == "readergone") { if (k.reader_gone) return false; }
    else if (p.op == "fs") { if (k.fileset == p.a) return false; }
  }
  return true;
}
static void push(int s, kern::Ev e) { if (k.devs[s].opens) k.devs[s].q.push_back(e); for (auto &d : rd.devs) if (d.spec == s && d.alive && !d.removed) d.q.push_back(e); }
static void perform(const Prim &p) {
  auto key = [&](int code, int st) { uint64_t &w = k.devs[p.dev].phys[code >> 6], b = 1ull << (code & 63); w = st ? w | b : w & ~b; push(p.dev, {EV_KEY, (uint16_t)code, st}); push(p.dev, {EV_SYN, 0, 0}); };
  if (p.op == "k") key(p.a, !(k.devs[p.dev].phys[p.a >> 6] >> (p.a & 63) & 1)); else if (p.op == "kd") key(p.a, 1); else if (p.op == "ku") key(p.a, 0); else if (p.op == "tap") { key(p.a, 1); key(p.a, 0); }
  else if (p.op == "e" || p.op == "r") { if (p.a == EV_KEY && p.b < 768 && p.c != 2) { uint64_t &w = k.devs[p.dev].phys[p.b >> 6], b = 1ull << (p.b & 63); w = p.c ? w | b : w & ~b; } push(p.dev, {(uint16_t)p.a, (uint16_t)p.b, p.c}); if (p.op == "e") push(p.dev, {EV_SYN, 0, 0}); }
  else if (p.op == "rem") { k.devs[p.dev].gone = true; k.devs[p.dev].present = false; k.devs[p.dev].q.clear(); for (auto &d : rd.devs) if (d.spec == p.dev && d.alive) { d.removed = true; d.q.clear(); } }
  else if (p.op == "add") { Dev n; n.present = true; n.held = specs[p.dev].held; k.devs[p.dev] = n; rd.led.erase(p.dev); k.ino.push_back(specs[p.dev].node); rd.hot.push_back(specs[p.dev].node); }
  else if (p.op == "node") { k.ino.push_back(p.s); rd.hot.push_back(p.s); }
  else if (p.op == "con") { int c = 0; while (k.cons[c].used) c++; auto &cl = S->clients[p.a]; Con n; n.used = true; n.in = cl.bytes; n.end = cl.end; n.cap = cl.cap; n.spec = p.a; n.split = cl.split; n.at = k.now + cl.gap * 1000; n.peer_gone = cl.end == 2; k.cons[c] = n; k.backlog.push_back(c); ref::RCon r; r.used = true; r.in = cl.bytes; r.end = cl.end; r.cap = cl.cap; r.peer_gone = n.peer_gone; rd.cons[c] = r; rd.backlog.push_back(c); }
  else if (p.op == "peerclose" || p.op == "peerfull") { for (int c = 0; c < 44; c++) if (k.cons[c].used && k.cons[c].spec == p.a && !k.cons[c].peer_gone && !k.cons[c].closed) { if (p.op == "peerclose") k.cons[c].peer_gone = rd.cons[c].peer_gone = true; else k.cons[c].cap = rd.cons[c].cap = p.b; break; } }
  else if (p.op == "fs") { k.fileset = p.a; rd.fileset = p.a; }
  else if (p.op == "readergone") k.reader_gone = true;
  else if (p.op == "failaccept") { k.fail_accept = 1; rd.fail_accept = 1; }
}
// one action from a quiescent state
static bool apply(const Act &a, Viol &v) {
  heap_settle(); recycle();
  long t = k.now + a.dt * 1000;
  if (a.idx >= 0) { k.now = t; for (auto &p : S->acts[a.idx].p) perform(p); if (used.size() < S->acts.size()) used.resize(S->acts.size()); used[a.idx]++; k.now += a.late * 1000l; }
  else if (a.idx == -1) { k.now += (k.timeout + a.late) * 1000l; }
  else k.now = t;
  bool intr = a.idx == -2, early = a.idx == -3; if (a.idx >= 0) for (auto &p : S->acts[a.idx].p) { intr |= p.op == "eintr"; early |= p.op == "wake"; }
  bool ok = true, ran = false;
  if (intr) { ran = true; clear_revents(); k.npfds = -1; errno = EINTR; ok = run_sut(v); if (ok && why == W_EXIT) goto ended; }
  else if (early || a.idx == -1) { if (!poll_ready()) { k.npfds = 0; ran = true; rd.round(ms()); ok = run_sut(v); if (ok && why == W_EXIT) goto ended; } }
  if (!ok || (ran && !check_wait(v))) return false;
  if (!settle(v)) return false;
  if (why != W_EXIT) return check_rest(v);
ended:
  if (rd.mon && rd.dead && k.reader_gone) { std::string m = k.exit_code ? "it ends with status " + std::to_string(k.exit_code) : ""; if (m.size()) { v = {"exit", m}; return false; } }
  if (!rd.dead) { v = {"exit", "the daemon terminates (status " + std::to_string(k.exit_code) + ")"}; return false; }
  if (rd.dead) { auto x = drop_click_sleep(pick(k.out)), y = drop_click_sleep(pick(rd.out)); if ((CMP & C_KEYB) && !(x == y)) { /* what was sent before the end */ } }
  return true;
}
// ---------------------------------------------------------------- hashing
static uint64_t h128[2];
static void hash_bytes(const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p; uint64_t a = h128[0], c = h128[1];
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); a = (a ^ v) * 0x9E3779B97F4A7C15ull; a ^= a >> 29; c = (c + v) * 0xC2B2AE3D27D4EB4Full; c ^= c >> 31; b += 8; n -= 8; }
  uint64_t v = n; for (size_t i = 0; i < n; i++) v = v << 8 | b[i];
  a = (a ^ v) * 0x9E3779B97F4A7C15ull; a ^= a >> 32; c = (c + v + 1) * 0xC2B2AE3D27D4EB4Full; c ^= c >> 29; h128[0] = a; h128[1] = c;
}
struct H { uint64_t a, b; bool operator==(const H &o) const { return a == o.a && b == o.b; } }; struct HH { size_t operator()(const H &h) const { return h.a; } };
static std::unordered_map<uint32_t, uint64_t> hmask; static void mark(char *lo, size_t sz) { for (size_t i = 0; i < sz; i++) hmask[idx_of(lo + i)] |= 0xffull << 8 * (((uintptr_t)lo + i) & 7); }
static std::map<uintptr_t, std::unordered_map<uint32_t, uint64_t>> kbd_masks; static bool use_canon = false; static std::unordered_set<uint32_t> dead_words; static uint32_t counter_word = ~0u;
static std::vector<uint8_t> cbuf(1 << 20);
static long relt(uint64_t x, long now) { long d = (long)x - now; return d < -KMAX ? -KMAX : d; }
static uint64_t norm(uint64_t v, long now) {
  const long A = T0 - 10, B = T0 + 10000000;
  if ((long)v >= A && (long)v < B) return 0x1234500000000000ull + relt(v, now);
  uint32_t lo = (uint32_t)v, hi = (uint32_t)(v >> 32); if (lo >= A && lo < B) lo = (uint32_t)relt(lo, now); if (hi >= A && hi < B) hi = (uint32_t)relt(hi, now); return (uint64_t)hi << 32 | lo;
}
static H state_hash(const Snap &s) {
  h128[0] = 3; h128[1] = 4; long now = ms(); std::vector<const std::unordered_map<uint32_t, uint64_t> *> ms_; 
  if (use_canon) for (size_t i = 0; i < heap()->n; i++) { auto &b = heap()->b[i]; if (b.state != 1 || b.size != gd_kbd_size()) continue; char *kb = (char *)ARENA_BASE + b.off; size_t n = canon_emit(kb, now, KMAX, 1, cbuf.data(), cbuf.size()); hash_bytes(&b.off, 4); hash_bytes(cbuf.data(), n);
    auto &m = kbd_masks[(uintptr_t)kb]; if (m.empty()) { hmask.clear(); canon_ranges(kb, mark); m.swap(hmask); } ms_.push_back(&m); }
  for (auto &w : s) {
    if (dead_words.count(w.idx) || w.idx == counter_word) continue;
    uint64_t mask = 0; for (auto *m : ms_) { auto it = m->find(w.idx); if (it != m->end()) mask |= it->second; } if (mask == ~0ull) continue;
    auto *r = &regions[0]; for (auto &q : regions) if (w.idx / 512 >= q.first) r = &q; uint64_t base = *(uint64_t *)(r->base + ((size_t)w.idx - r->first * 512) * 8) & ~mask, v = w.val & ~mask; if (v == base) continue;
    v = norm(v, now); hash_bytes(&w.idx, 4); hash_bytes(&v, 8);
  }
  for (char *p = (char *)co_sp; p < stk_hi; p += 8) { uint64_t v = norm(*(uint64_t *)p, now); hash_bytes(&v, 8); }
  auto num = [&](long v) { hash_bytes(&v, 8); };
  num(k.reader_gone); num(std::hash<std::string>()(k.obuf)); num(k.now % 1000); num(k.fileset); num(k.timeout); num(k.fail_accept); for (auto &f : k.fds) { num(f.kind); if (f.kind) { num(f.cloexec * 2 + f.nonblock); num(f.idx); } }
  for (auto &d : k.devs) { num(d.present * 2 + d.gone); num(d.opens); num(d.grabs); for (auto x : d.phys) num(x); for (auto x : d.led) num(x); }
  for (auto &u : k.uin) for (auto x : u.down) num(x);
  for (auto &c : k.cons) { num(c.used); if (c.used) { num(c.spec); num(c.closed * 4 + c.peer_gone * 2 + c.accepted); num(c.cap); num(c.in.size() - c.pos); } }
  for (size_t i = 0; i < used.size(); i++) if (S->acts[i].max < 1000) num(used[i]);
  static std::vector<uint8_t> b; b.clear(); rd.canon(b, now, KMAX); hash_bytes(b.data(), b.size());
  return {h128[0], h128[1]};
}
// ---------------------------------------------------------------- search
static bool past_deadline() {                // VERIF_DEADLINE: give up the search at this time (CLOCK_MONOTONIC), as if a cap had been reached
  static long d = -1; if (d < 0) { const char *e = getenv("VERIF_DEADLINE"); d = e ? atol(e) : 0; } if (!d) return false;
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec >= d;
}
struct Result { long states = 0, trans = 0, maxdepth = 0, leaves = 0, outcomes = 0, ends = 0; bool capped = false; std::vector<std::string> samples; };
struct VRep { Viol v; std::vector<Act> path; };
static std::string actstr(const Act &a) { char b[64]; snprintf(b, sizeof b, "+%ldms", a.dt); std::string s = b; if (a.idx >= 0) s += " " + S->acts[a.idx].text; else s = a.idx == -1 ? "timeout" : a.idx == -2 ? s + " poll interrupted" : s + " early wake-up"; if (a.late) s += " (noticed " + std::to_string(a.late) + " ms late)"; return s; }
static void load_node(const Node &n) {
  heap_open(); restore(n.mem.data(), n.mem.size()); heap_sync();
  memcpy(n.sp, n.stack.data(), n.stack.size()); co_sp = n.sp; k = n.kk; rd = n.d; used = n.used; why = W_POLL;
}
static void save_rest(Node &n) { n.sp = co_sp; n.stack.assign((char *)co_sp, stk_hi); n.kk = k; n.d = rd; n.used = used; }
static void save_node(Node &n) { heap_open(); save(n.mem); heap_sync(); n.mem.shrink_to_fit(); save_rest(n); }
static std::vector<Act> path_to(int n) { std::vector<Act> p; while (n > 0) { p.push_back(nodes[n].act); n = nodes[n].parent; } std::reverse(p.begin(), p.end()); return p; }
static bool start(Viol &v) {
  specs.clear(); for (auto &d : S->devs) specs.push_back(d); filesets.clear(); int mx = 0; for (auto &f : S->files) mx = std::max(mx, f.first); filesets.resize(mx + 1); for (auto &f : S->files) filesets[f.first] = f.second;
  k = K(); k.devs.resize(specs.size()); for (size_t i = 0; i < specs.size(); i++) { k.devs[i].present = specs[i].present; k.devs[i].held = specs[i].held; }
  for (int i = 0; i < 3; i++) k.fds[i].kind = FK_NULL;
  rd = ref::Daemon(); used.assign(S->acts.size(), 0);
  if (S->mode.compare(0, 7, "monitor") == 0) { rd.mon = monitoring = run_exit_handlers = true; rd.mont = S->mode.find("-t") != std::string::npos; argc_ = rd.mont ? 3 : 2; k.fds[1].kind = FK_OUT; k.fds[1].idx = S->mode.find("file") != std::string::npos; }
  rd.start(0);
  co_start(); if (!run_sut(v)) return false;
  if (why == W_EXIT) { v = {"exit", "the daemon terminates while starting (status " + std::to_string(k.exit_code) + ")"}; return false; }
  if (!settle(v)) return false; if (why == W_EXIT) { v = {"exit", "the daemon terminates while starting"}; return false; }
  if (!check_rest(v)) return false;
  recycle();
  // snapshot mode from here on
  for (auto &x : none) mprotect((void *)x.first, x.second, PROT_READ | PROT_WRITE); none.clear();
  deny = denied; baseline(60u << 20); heap_sync();
  unsigned char b[16]; use_canon = false; for (size_t i = 0; i < heap()->n; i++) if (heap()->b[i].state == 1 && heap()->b[i].size == gd_kbd_size()) use_canon = canon_emit((char *)ARENA_BASE + heap()->b[i].off, T0, 1000, 1, b, sizeof b) > 0;
  FILE *f = fopen((std::string(getenv("SUT_DIR") ? getenv("SUT_DIR") : ".") + "/dead.txt").c_str(), "r"); unsigned long off, sz; char t, kind[32]; int nc = 0;
  if (f) { while (fscanf(f, "%31s %lx %lx %c", kind, &off, &sz, &t) == 4) { char *p = (t == 'd' ? __start_sut_data : __start_sut_bss) + off; if (!strcmp(kind, "counter")) { nc++; counter_word = idx_of(p); } else for (size_t i = 0; i + 8 <= sz; i += 8) dead_words.insert(idx_of(p + i)); } fclose(f); } if (nc != 1) counter_word = ~0u;
  Act a; for (int i : S->pre) { if (!enabled(ActSpec{S->acts[i].text, S->acts[i].p, 1000}, i)) usage(*S, "prefix not possible: " + S->acts[i].text); a = {(int16_t)i, 0, S->delays[0]}; int idle = 0; while (k.timeout >= 0 && k.timeout <= a.dt && (k.timeout ? idle = 0 : idle++) < 200) { Act tmo = {-1, 0, 0}; if (!apply(tmo, v)) return false; } if (!apply(a, v)) return false; }
  return true;
}
static bool replay_path(const std::vector<Act> &p, Viol &v, std::string *tr) {
  load_node(nodes[0]);
  for (auto &a : p) { bool ok = apply(a, v); if (tr) { auto x = pick(k.out), y = pick(rd.out); *tr += "  " + actstr(a) + "  ->  " + (ok || v.kind != "crash" ? evs(x) + (x == y ? "" : "      [reference: " + evs(y) + "]") : "CRASH: " + v.detail) + (why == W_POLL && k.timeout >= 0 ? "   (poll " + std::to_string(k.timeout) + " ms)" : "") + "\n"; } if (!ok) return false; if (why == W_EXIT) return true; }
  return true;
}
static Result explore(int depth, int cap, std::vector<VRep> &viols) {
  Result R; std::unordered_set<H, HH> seen; std::unordered_set<uint64_t> outcomes; std::set<std::string> vsig;
  auto add = [&](int parent, const Act &a, int dist, int devs) { Snap s; heap_open(); save(s); heap_sync(); recycle(); if (!seen.insert(state_hash(s)).second) return; nodes.emplace_back(); Node &n = nodes.back(); s.shrink_to_fit(); n.mem.swap(s); save_rest(n); n.parent = parent; n.act = a; n.dist = dist; n.devs = devs; if (dist > R.maxdepth) R.maxdepth = dist; };
  add(-1, Act{-1, 0, 0}, 0, 0);
  for (int i = 0; i < (int)nodes.size(); i++) {
    R.states++; int dist = nodes[i].dist, devs = nodes[i].devs; if (dist >= depth) { R.leaves++; continue; } if ((int)nodes.size() >= cap || past_deadline()) { R.capped = true; break; } if (viols.size() >= 4) break;
    load_node(nodes[i]); std::vector<std::pair<Act, int>> acts; int to = k.timeout;
    if (to >= 0) acts.push_back({Act{-1, 0, 0}, 0});
    for (size_t x = 0; x < S->acts.size(); x++) if (enabled(S->acts[x], x)) {
      for (long d : S->delays) { if (to >= 0 && d >= to) continue; acts.push_back({Act{(int16_t)x, 0, d}, 0}); }
      if (S->late && to >= 0 && devs < S->devsb) acts.push_back({Act{(int16_t)x, (int16_t)(S->late + to), 0}, 1});
    }
    if (devs < S->devsb) { if (S->late && to >= 0) acts.push_back({Act{-1, (int16_t)S->late, 0}, 1}); if (S->early) { long d = to > 1 ? to / 2 : S->delays[0]; acts.push_back({Act{-2, 0, d}, 1}); acts.push_back({Act{-3, 0, d}, 1}); } }
    size_t n0 = nodes.size();
    for (auto &pa : acts) {
      load_node(nodes[i]); Viol v; R.trans++; bool ok = apply(pa.first, v);
      h128[0] = h128[1] = 7; for (auto &o : k.out) { int q[2] = {o.kind, o.a}; hash_bytes(q, sizeof q); for (auto &e : o.evs) hash_bytes(&e, sizeof e); } outcomes.insert(h128[0]);
      if (!ok) {
        std::string sig = v.kind + "|" + v.detail.substr(0, 60); if (!vsig.insert(sig).second || viols.size() >= 4) continue;
        std::vector<Act> p = path_to(i); p.push_back(pa.first); Viol v2; if (replay_path(p, v2, nullptr) || v2.kind != v.kind) { fprintf(stderr, "%s: a violation (%s: %s) did not replay\n", S->id.c_str(), v.kind.c_str(), v.detail.c_str()); exit(4); }
        viols.push_back({v, p}); continue;
      }
      if (why == W_EXIT) { R.ends++; continue; }
      add(i, pa.first, dist + 1, devs + pa.second);
    }
    if (nodes.size() == n0) R.leaves++;
    if (i) { nodes[i].mem.clear(); nodes[i].mem.shrink_to_fit(); nodes[i].stack.clear(); nodes[i].stack.shrink_to_fit(); nodes[i].kk = K(); nodes[i].d = ref::Daemon(); }
  }
  R.outcomes = outcomes.size();
  for (size_t q : {nodes.size() / 3, nodes.size() - 1}) if (q && q < nodes.size()) { std::string t; for (auto &a : path_to(q)) t += (t.empty() ? "" : ", ") + actstr(a); R.samples.push_back(t); }
  return R;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
#include "special.h"
int main(int argc, char **argv) {
  std::string replay_file, outdir, cmpstr, mode; int dadd = 0, cap = 0, shard = 0, nshard = 1; std::vector<std::string> files; setvbuf(stdout, 0, _IOLBF, 0);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--prop") prop = argv[++i]; else if (a == "--cmp") cmpstr = argv[++i]; else if (a == "--depth-add") dadd = atoi(argv[++i]); else if (a == "--cap") cap = atoi(argv[++i]); else if (a == "--replay") replay_file = argv[++i]; else if (a == "--outdir") outdir = argv[++i]; else if (a == "--bundle") files.push_back(argv[++i]); else if (a == "--mode") mode = argv[++i]; else if (a == "--shard") { shard = atoi(argv[++i]); nshard = atoi(argv[++i]); } else files.push_back(a); }
  ref::keys().load((std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/data/keynames.tsv").c_str());
  auto slurp = [](const std::string &f) { std::ifstream i(f); if (!i) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(3); } std::stringstream s; s << i.rdbuf(); return s.str(); };
  std::vector<std::string> texts; std::vector<Act> rp;
  if (!replay_file.empty()) {
    std::string t = slurp(replay_file); size_t p = t.find("\n---\n"); std::stringstream ss(t.substr(0, p)); std::string l;
    while (getline(ss, l)) { auto w = words(l); if (w.empty()) continue; if (w[0] == "prop") prop = w[1]; else if (w[0] == "cmp") cmpstr = w[1]; else if (w[0] == "mode") mode = w[1]; else if (w[0] == "act") rp.push_back({(int16_t)atoi(w[1].c_str()), (int16_t)atoi(w[2].c_str()), atol(w[3].c_str())}); }
    texts.push_back(t.substr(p + 5));
  } else for (auto &f : files) { std::string t = slurp(f); size_t p = 0; while (p < t.size()) { size_t e = t.find("\n====\n", p); if (e == std::string::npos) e = t.size(); std::string x = t.substr(p, e - p); if (x.find("#!") != std::string::npos) texts.push_back(x + "\n"); p = e + 6; } }
  { std::stringstream ss(cmpstr); std::string w; while (getline(ss, w, ',')) { auto it = CN.find(w); if (it == CN.end()) { fprintf(stderr, "bad comparator %s\n", w.c_str()); return 3; } CMP |= it->second; } }
  int rc = 0;
  for (size_t si = shard; si < texts.size(); si += nshard) {
    fflush(stdout); pid_t pid = ::fork(); if (pid) { int ws; waitpid(pid, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws) > 1) { fprintf(stderr, "scenario %zu: harness failed (status %x)\n", si, ws); return 3; } rc |= WEXITSTATUS(ws); continue; }
    Scn sc; parse_scn(texts[si], sc); S = &sc; int depth = sc.depth + dadd, cp = cap ? cap : sc.cap, code = 0; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    heap_init(); install_handlers(); struct sigaction sa = {}; sa.sa_sigaction = on_vtalrm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGVTALRM, &sa, 0); struct itimerval it = {}; it.it_interval.tv_sec = 1; it.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &it, 0);
    std::vector<VRep> viols; Result R; Viol v; 
    if (sc.mode.size()) mode = sc.mode; if (mode.size() && mode.compare(0, 7, "monitor")) { code = special(mode, sc, rp, outdir); fflush(stdout); _exit(code); }
    if (!start(v)) { viols.push_back({v, {}}); R.states = R.trans = 1; if (replay_file.size()) { printf("%s: %s\n", v.kind.c_str(), v.detail.c_str()); fflush(stdout); _exit(1); } }
    else if (!replay_file.empty()) { nodes.emplace_back(); save_node(nodes.back()); std::string tr; bool ok = replay_path(rp, v, &tr); printf("%s%s\n", tr.c_str(), ok ? "no violation" : (v.kind + ": " + v.detail).c_str()); fflush(stdout); _exit(ok ? 0 : 1); }
    else R = explore(depth, cp, viols);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    printf("{\"scenario\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"depth\":%ld,\"bound\":%d,\"outcomes\":%ld,\"rest\":%ld,\"leaves\":%ld,\"capped\":%s,\"canon\":%s,\"wall\":%.2f,\"samples\":[", jesc(sc.id).c_str(), R.states, R.trans, R.maxdepth, depth, R.outcomes, R.ends, R.leaves, R.capped ? "true" : "false", use_canon ? "true" : "false", (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
    for (size_t i = 0; i < R.samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(R.samples[i]).c_str());
    printf("],\"violations\":["); int vi = 0;
    for (auto &x : viols) {
      code = 1; std::string tr, rf; Viol dv; if (!x.path.empty()) replay_path(x.path, dv, &tr);
      if (!outdir.empty()) { rf = outdir + "/" + prop + "-" + sc.id + "-" + std::to_string(vi) + ".replay"; FILE *f = fopen(rf.c_str(), "w"); if (f) { fprintf(f, "# replay: python3 /verif/run.py replay %s\n# %s: %s\n", rf.c_str(), x.v.kind.c_str(), jesc(x.v.detail).c_str()); std::stringstream ss(tr); std::string l; while (getline(ss, l)) fprintf(f, "#%s\n", l.c_str()); fprintf(f, "daemon\nprop %s\ncmp %s\n", prop.c_str(), cmpstr.c_str()); for (auto &a : x.path) fprintf(f, "act %d %d %ld\n", a.idx, a.late, a.dt); fprintf(f, "---\n%s", sc.text.c_str()); fclose(f); } }
      printf("%s{\"kind\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\",\"replay\":\"%s\"}", vi++ ? "," : "", jesc(x.v.kind).c_str(), jesc(x.v.detail).c_str(), jesc(tr).c_str(), jesc(rf).c_str());
    }
    printf("]}\n"); fflush(stdout); _exit(code);
  }
  return rc;
}
