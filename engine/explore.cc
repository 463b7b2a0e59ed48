// Explicit-state search over the real key engine, in lockstep with the reference engine.
//   explore [--replay FILE] --prop ID --cmp LIST [--depth-add N] [--cap N] [--out FILE] SCENARIO...
// One result line (JSON) per scenario.  See DESIGN.md for what the comparators mean.
#include "../lib/env.h"
#include "model.h"
#include "dump.h"
#include <array>
#include <set>
#include <deque>
#include <sys/wait.h>
#include <unordered_map>
#include <unordered_set>
#include <ctime>
using namespace snap;
extern "C" {
void *glue_config(const char *, int *); void *glue_new(void *, void (*)(uint8_t, uint8_t), void (*)(const char *, int, int));
long glue_event(void *, int, int, long); int glue_eval(void *, const char *); void *glue_cfg(void *); const char *pg_dump(void *, size_t *);
size_t canon_emit(void *, long, long, int, unsigned char *, size_t); void canon_ranges(void *, void (*)(char *, size_t));
}
typedef ref::Out Out;
static long T0 = 1500000000;
enum { CMP_KEYS = 1, CMP_PLAIN = 2, CMP_KMODS = 4, CMP_LAYERS = 8, CMP_CMD = 16, CMP_WAKE = 32, CMP_STUCK = 64, CMP_WELL = 128, CMP_LAYINV = 256, CMP_DOWNS = 512, CMP_CFG = 1024 };
static const std::map<std::string, int> CMPN = {{"keys", 1}, {"plain", 2}, {"kmods", 4}, {"layers", 8}, {"cmd", 16}, {"wake", 32}, {"stuck", 64}, {"well", 128}, {"layinv", 256}, {"downs", 512}, {"config", 1024}, {"crash", 0}};

struct Scn {
  long t0 = 1500000000; std::string file, id, text; std::vector<int> keys; std::vector<long> delays{5}; std::vector<std::string> evals; std::map<std::string, std::string> fs;
  int depth = 7, devs = 0, late = 0, early = 0, dup = 0, maxdown = 16, model = 1, cap = 150000, execfail = 0, lateev = 1; std::string prefix; int nkeys = 0; std::vector<std::pair<int, int>> pre;
};
static std::vector<std::string> words(const std::string &s, char d = ' ') { std::vector<std::string> v; std::stringstream ss(s); std::string w; while (getline(ss, w, d)) if (!w.empty()) v.push_back(w); return v; }
static bool parse_scn(const std::string &file, const std::string &text, Scn &s) {
  s.file = file; s.text = text; std::stringstream ss(text); std::string l;
  size_t sl = file.rfind('/'); s.id = sl == std::string::npos ? file : file.substr(sl + 1);
  while (getline(ss, l)) {
    if (l.compare(0, 2, "#!")) continue;
    size_t p = l.find(' ', 3); std::string k = l.substr(3, p == std::string::npos ? std::string::npos : p - 3), v = p == std::string::npos ? "" : l.substr(p + 1);
    if (k == "keys") { for (auto &w : words(v)) { int c = w[0] == '#' ? atoi(w.c_str() + 1) : ref::lookup_key(w); if (!c) { fprintf(stderr, "%s: bad key %s\n", file.c_str(), w.c_str()); exit(3); } s.keys.push_back(c); } }
    else if (k == "delays") { s.delays.clear(); for (auto &w : words(v)) s.delays.push_back(atol(w.c_str())); }
    else if (k == "depth") s.depth = atoi(v.c_str()); else if (k == "devs") s.devs = atoi(v.c_str()); else if (k == "late") s.late = atoi(v.c_str());
    else if (k == "early") s.early = atoi(v.c_str()); else if (k == "dup") s.dup = atoi(v.c_str()); else if (k == "maxdown") s.maxdown = atoi(v.c_str());
    else if (k == "model") s.model = atoi(v.c_str()); else if (k == "cap") s.cap = atoi(v.c_str()); else if (k == "eval") s.evals.push_back(v); else if (k == "id") s.id = v;
    else if (k == "t0") s.t0 = atol(v.c_str());
    else if (k == "lateev") s.lateev = atoi(v.c_str());
    else if (k == "prefix") s.prefix = v;
    else if (k == "execfail") s.execfail = atoi(v.c_str());
    else if (k == "note" || k == "fixed") {} else { fprintf(stderr, "%s: unknown header %s\n", file.c_str(), k.c_str()); exit(3); }
  }
  s.nkeys = s.keys.size();
  std::string p = s.prefix;             // expand (...)xN
  for (size_t o; (o = p.find('(')) != std::string::npos;) { size_t c = p.find(')', o), e = c + 2; while (e < p.size() && isdigit(p[e])) e++; std::string body = p.substr(o + 1, c - o - 1), r; int n = atoi(p.c_str() + c + 2); while (n-- > 0) r += body + " "; p = p.substr(0, o) + r + p.substr(e); }
  for (auto &w : words(p)) {
    int c = ref::lookup_key(w.substr(0, w.size() - 1)); if (!c) { fprintf(stderr, "%s: bad prefix token %s\n", file.c_str(), w.c_str()); exit(3); }
    size_t i = 0; while (i < s.keys.size() && s.keys[i] != c) i++; if (i == s.keys.size()) s.keys.push_back(c);
    s.pre.push_back({c, w.back() == '+'});
  }
  return true;
}

// ---------------------------------------------------------------- running the SUT
static std::vector<Out> *sut_out; static const ref::Config *rcfg; static std::vector<std::string> sut_layer_names;
static void cb_key(uint8_t c, uint8_t s) { if (sut_out->size() < 100000) sut_out->push_back({Out::KEYEV, c, s}); else sut_die("endless output"); }
static void cb_layer(const char *n, int idx, int a) { int i = rcfg->find(n); if (i < 0) { if (idx < 0) idx = 0; i = 1000 + idx; } sut_out->push_back({Out::LAYEREV, i, a}); }
static void cb_sleep(long us) { sut_out->push_back({Out::SLEEP, (int)us, 0}); }
static void cb_exec(const char *c) {
  int id = -1; std::string s = c;
  for (size_t i = 0; i < rcfg->cmds.size(); i++) if (id < 0 && s == "/bin/sh|/bin/sh|-c|" + rcfg->cmds[i]) id = i;
  if (!env::in_child()) id = -2;
  sut_out->push_back({Out::CMD, id, 0});
}
static void *kbd; static volatile long heartbeat; static long last_beat = -1; static int beat_ticks;
static void on_vtalrm(int sig, siginfo_t *, void *) {
  if (!in_sut) { last_beat = -1; return; }
  if (heartbeat == last_beat) { if (++beat_ticks >= 3) { sigset_t m; sigemptyset(&m); sigaddset(&m, sig); sigprocmask(SIG_UNBLOCK, &m, 0); sut_die("does not return (infinite loop)"); } }
  else { last_beat = heartbeat; beat_ticks = 0; }
}
struct Act { uint8_t type, code, pressed, x; long dt; };   // type 0: event, 1: tick, 2: eval x
struct Step { std::vector<Out> o; long wake = 0; bool crash = false; std::string msg; int eval_ret = 0; };
static void sut_step(const Act &a, long now, const Scn &sc, Step &st) {
  st.o.clear(); sut_out = &st.o; st.crash = false; heartbeat++;
  sigjmp_buf jb; static sigjmp_buf *pj; pj = &jb;
  static Step *pst; pst = &st;
  if (sigsetjmp(jb, 0)) { in_sut = false; trap = nullptr; env::reset_forks(); pst->crash = true; pst->msg = crash_msg; return; }
  trap = &jb; char top; env::stack_top = (char *)__builtin_frame_address(0) + 16; (void)top; in_sut = true;
  if (a.type == 0) st.wake = glue_event(kbd, a.code, a.pressed, now);
  else if (a.type == 1) st.wake = glue_event(kbd, 0, 0, now);
  else st.eval_ret = glue_eval(kbd, sc.evals[a.x].c_str());
  in_sut = false; trap = nullptr;
  if (env::in_child()) { env::reset_forks(); st.crash = true; st.msg = "the forked child went on as a second daemon"; }
}

// ---------------------------------------------------------------- states
struct NodeRec { uint32_t snap_off, snap_n, mod_off, mod_n, parent; long now, wake; Act act; uint64_t down; uint8_t dist, devs; uint32_t evals; };
static std::vector<Word> snap_pool; struct MW { uint16_t i; uint64_t v; } __attribute__((packed)); static std::vector<MW> mod_pool;
static std::vector<NodeRec> nodes; static std::vector<std::array<uint64_t, 4>> downset; static std::vector<std::vector<uint32_t>> laycount;
static ref::Model M0; static std::vector<uint8_t> handled; static uint32_t counter_word = ~0u; static std::vector<uint8_t> is_handled_word;
static std::unordered_map<uint32_t, uint64_t> hmask;       // word index -> mask of bytes covered by canon_emit
static void mark(char *lo, size_t sz) { for (size_t i = 0; i < sz; i++) { uint32_t w = idx_of(lo + i); hmask[w] |= 0xffull << 8 * (((uintptr_t)lo + i) & 7); } }
static uint64_t h128[2];
static void hash_bytes(const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p; uint64_t a = h128[0], c = h128[1];
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); a = (a ^ v) * 0x9E3779B97F4A7C15ull; a ^= a >> 29; c = (c + v) * 0xC2B2AE3D27D4EB4Full; c ^= c >> 31; b += 8; n -= 8; }
  uint64_t v = n; for (size_t i = 0; i < n; i++) v = v << 8 | b[i];
  a = (a ^ v) * 0x9E3779B97F4A7C15ull; a ^= a >> 32; c = (c + v + 1) * 0xC2B2AE3D27D4EB4Full; c ^= c >> 29; h128[0] = a; h128[1] = c;
}
static long KMAX;
static std::vector<uint8_t> canon_buf(65536);
struct H { uint64_t a, b; bool operator==(const H &o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H &h) const { return h.a; } };
static bool use_canon = false;
static H state_hash(const Snap &s, const ref::Model &m, long now, long wake, uint64_t down, int devs, int evals, const std::array<uint64_t, 4> &ds, const std::vector<uint32_t> &lc, const Scn &sc) {
  h128[0] = 1; h128[1] = 2;
  if (use_canon) { size_t n = canon_emit(kbd, now, KMAX, rcfg->uses_idle, canon_buf.data(), canon_buf.size()); if (n > canon_buf.size()) { canon_buf.resize(n * 2); n = canon_emit(kbd, now, KMAX, rcfg->uses_idle, canon_buf.data(), canon_buf.size()); } hash_bytes(canon_buf.data(), n); }
  for (auto &w : s) {
    if (w.idx == counter_word) continue;
    uint64_t mask = 0; auto it = hmask.find(w.idx); if (it != hmask.end()) mask = it->second;
    if (mask == ~0ull) continue;
    uint64_t v = w.val & ~mask; uint64_t base; { auto *r = &regions[0]; for (auto &q : regions) if (w.idx / 512 >= q.first) r = &q; base = *(uint64_t *)(r->base + ((size_t)w.idx - r->first * 512) * 8) & ~mask; }
    if (v == base) continue;
    auto rel = [&](uint64_t x) -> long { long d = (long)x - now; return d < -KMAX ? -KMAX : d; };
    if ((long)v >= T0 - 10 && (long)v < T0 + 10000000) v = 0x1234500000000000ull + rel(v);
    else { uint32_t lo = (uint32_t)v, hi = (uint32_t)(v >> 32);
      if (lo >= T0 - 10 && lo < T0 + 10000000) lo = (uint32_t)rel(lo); if (hi >= T0 - 10 && hi < T0 + 10000000) hi = (uint32_t)rel(hi); v = (uint64_t)hi << 32 | lo; }
    hash_bytes(&w.idx, 4); hash_bytes(&v, 8);
  }
  if (sc.model) { static std::vector<uint8_t> b; b.clear(); m.canon(b, now, KMAX); hash_bytes(b.data(), b.size()); }
  long x[4] = {(long)down, devs, wake, evals}; hash_bytes(x, sizeof x);
  hash_bytes(&ds, sizeof ds); if (!lc.empty()) hash_bytes(lc.data(), lc.size() * sizeof lc[0]);
  return {h128[0], h128[1]};
}
static void mod_save(const ref::Model &m) {
  const uint64_t *a = (const uint64_t *)&m, *b = (const uint64_t *)&M0;
  for (size_t i = 0; i < sizeof(ref::Model) / 8; i++) if (a[i] != b[i]) mod_pool.push_back({(uint16_t)i, a[i]});
}
static void mod_load(ref::Model &m, const NodeRec &n) { memcpy((void *)&m, &M0, sizeof m); for (uint32_t i = 0; i < n.mod_n; i++) ((uint64_t *)&m)[mod_pool[n.mod_off + i].i] = mod_pool[n.mod_off + i].v; }

// ---------------------------------------------------------------- comparing
static std::string outs(const std::vector<Out> &v) {
  std::string s; for (auto &o : v) { if (!s.empty()) s += " ";
    if (o.kind == Out::KEYEV) s += ref::kname(o.a) + (o.b ? "+" : "-"); else if (o.kind == Out::SLEEP) s += "sleep" + std::to_string(o.a);
    else if (o.kind == Out::LAYEREV) s += std::string(o.b ? "[+" : "[-") + (o.a < (int)rcfg->layers.size() ? rcfg->layers[o.a].name : "?" + std::to_string(o.a)) + "]"; else s += "cmd" + std::to_string(o.a); }
  return s.empty() ? "(nothing)" : s;
}
typedef std::array<uint64_t, 4> Set;
static bool has(const Set &s, int i) { return s[i >> 6] >> (i & 63) & 1; }
static void put(Set &s, int i, int v) { if (v) s[i >> 6] |= 1ull << (i & 63); else s[i >> 6] &= ~(1ull << (i & 63)); }
static int mods_of(const Set &s) { int m = 0; for (auto &x : ref::MODS) if (has(s, x.key)) m |= x.mask; return m; }
static std::vector<Out> project(const std::vector<Out> &v, int cmp, Set before) {
  std::vector<Out> r; Set s = before;
  for (auto &o : v) {
    if (o.kind == Out::KEYEV) {
      put(s, o.a, o.b);
      if (cmp == CMP_KEYS) r.push_back(o);
      else if (cmp == CMP_PLAIN && !ref::is_mod(o.a)) r.push_back(o);
      else if (cmp == CMP_DOWNS && !ref::is_mod(o.a) && o.b) r.push_back(o);
      else if (cmp == CMP_KMODS && !ref::is_mod(o.a) && o.b) r.push_back({Out::KEYEV, o.a, mods_of(s)});
    } else if (o.kind == Out::SLEEP && cmp == CMP_KEYS) r.push_back(o);
    else if (o.kind == Out::LAYEREV && cmp == CMP_LAYERS) r.push_back(o);
    else if (o.kind == Out::CMD && cmp == CMP_CMD) { int k = o.a; for (int i = 0; i < o.a && k == o.a; i++) if (rcfg->cmds[i] == rcfg->cmds[o.a]) k = i; r.push_back({Out::CMD, k, 0}); }
  }
  if (cmp == CMP_KMODS) r.push_back({Out::KEYEV, -1, mods_of(s)});
  return r;
}
struct Viol { std::string kind, detail; };

static int CMP;
static Set macro_keys;                     // keys that multi-step macros press regardless of their state
static std::vector<int> latch_tg, latch_os, latch_lay;   // layers that may be left active on purpose
static void collect_latch(const ref::Config &c) {
  macro_keys = {0, 0, 0, 0};
  for (auto &m : c.macros) if (m.size() != 1 || m[0].type != ref::T_KEY) for (auto &t : m) {
    if (t.type == ref::T_KEY || t.type == ref::T_HOLD) put(macro_keys, t.code, 1);
    if (t.type == ref::T_KEY) for (auto &x : ref::MODS) if (t.mods & x.mask) put(macro_keys, x.key, 1);
    if (t.type == ref::T_UNI) for (int j = 0; j < 4; j++) put(macro_keys, t.seq[j], 1);
  }
  latch_tg.assign(c.layers.size(), 0); latch_os = latch_lay = latch_tg;
  bool swap_any = false;
  auto see = [&](const ref::Act &a) { if (a.layer < 0) return; if (a.op == ref::TOGGLE || a.op == ref::TOGGLEM) latch_tg[a.layer] = 1; if (a.op == ref::ONESHOT || a.op == ref::ONESHOTM) latch_os[a.layer] = 1; if (a.op == ref::SWAP || a.op == ref::SWAPM) swap_any = true; if (a.op == ref::SETLAYOUT) latch_lay[a.layer] = 1; };
  auto all = [&](auto f) { for (auto &l : c.layers) { for (auto &a : l.map) f(a); for (auto &ch : l.chords) f(ch.act); } for (auto &a : c.subs) f(a); };
  all(see);
  if (swap_any) { bool t = false, o = false; for (int x : latch_tg) t |= x; for (int x : latch_os) o |= x;
    all([&](const ref::Act &a) { if (a.op == ref::SWAP || a.op == ref::SWAPM) { if (t) latch_tg[a.layer] = 1; if (o) latch_os[a.layer] = 1; } }); }
  for (size_t i = 0; i < c.layers.size(); i++) if (c.layers[i].type == ref::LAYOUT) latch_lay[i] = 1;
}
// Apply the invariants to a SUT step.  lc: activations minus deactivations notified per layer.
static bool track(const std::vector<Out> &o, Set &ds, std::vector<uint32_t> &lc, Viol &v) {
  for (auto &e : o) {
    if (e.kind == Out::KEYEV) {
      if (CMP & CMP_WELL) {
        if (e.a == 0 || (e.a >= 195 && e.a <= 199)) { v = {"well", "internal code " + std::to_string(e.a) + " sent to the virtual keyboard"}; return false; }
        if (e.b != 0 && e.b != 1) { v = {"well", "key state " + std::to_string(e.b)}; return false; }
        if (has(ds, e.a) == (bool)e.b && !has(macro_keys, e.a)) { v = {"well", ref::kname(e.a) + (e.b ? " pressed while it is down" : " released while it is up")}; return false; }
      }
      put(ds, e.a, e.b);
    } else if (e.kind == Out::LAYEREV && !lc.empty()) {
      if (e.a >= (int)rcfg->layers.size()) { v = {"layers", "notification for an unknown layer"}; return false; }
      if (rcfg->layers[e.a].type == ref::LAYOUT) {
        for (size_t i = 0; i < lc.size(); i++) if (rcfg->layers[i].type == ref::LAYOUT) lc[i] = 0;
        if (e.b) lc[e.a] = 1;
      } else if (e.b) lc[e.a]++;
      else { if (!lc[e.a]) { if (CMP & (CMP_STUCK | CMP_LAYINV)) { v = {"layers", "layer " + rcfg->layers[e.a].name + " notified as deactivated while inactive"}; return false; } } else lc[e.a]--; }
    }
  }
  return true;
}
static std::string setstr(const Set &s) { std::string r; for (int i = 0; i < 256; i++) if (has(s, i)) r += (r.empty() ? "" : " ") + ref::kname(i); return r.empty() ? "(none)" : r; }
// nothing held, nothing due: what may be left down
static bool check_rest(const Set &ds, const std::vector<uint32_t> &lc, Viol &v) {
  int ok = 0;
  for (size_t i = 0; i < lc.size(); i++) if (lc[i]) {
    bool latched = latch_tg[i] || latch_lay[i] || (latch_os[i] && !rcfg->oneshot_timeout) || i == 0;
    if (!latched) { v = {"stuck", "layer " + rcfg->layers[i].name + " is still active although nothing is held and nothing latched it"}; return false; }
    ok |= rcfg->layers[i].mods;
  }
  for (int i = 0; i < 256; i++) if (has(ds, i)) { int m = ref::is_mod(i); if (!m || !(ok & m)) { v = {"stuck", "still down with nothing held: " + setstr(ds)}; return false; } }
  return true;
}
static bool compare(const Step &st, const std::vector<Out> &mo, long now, const ref::Model &m, const Set &before, Viol &v) {
  static const int ALL[] = {CMP_KEYS, CMP_PLAIN, CMP_DOWNS, CMP_KMODS, CMP_LAYERS, CMP_CMD}; static const char *N[] = {"keys", "plain", "downs", "mods", "layers", "command"};
  for (int i = 0; i < 6; i++) if (CMP & ALL[i]) {
    auto a = project(st.o, ALL[i], before), b = project(mo, ALL[i], before);
    if (!(a == b)) { v = {N[i], "expected " + outs(mo) + " ; got " + outs(st.o)}; return false; }
  }
  if (CMP & CMP_WAKE) { long d = m.deadline_after(now); if (d && (st.wake <= 0 || now + st.wake > d)) { v = {"wake", "something is due in " + std::to_string(d - now) + " ms, but the engine asked to be called " + (st.wake > 0 ? "in " + std::to_string(st.wake) + " ms" : "never")}; return false; }
    d = m.deadline_after(0, true);
    if (d && d <= now && st.wake <= 0) { v = {"wake-lost", "something was due " + (d == now && m.replayed ? std::string("in the very millisecond in which the events held back by another timed decision were replayed") : std::to_string(now - d) + " ms ago") + " and has not happened, and the engine asked never to be called"}; return false; } }
  return true;
}
static std::string actstr(const Act &a, const Scn &sc) {
  char b[600]; if (a.type == 0) snprintf(b, sizeof b, "+%ldms %s %s", a.dt, ref::kname(a.code).c_str(), a.pressed ? "down" : "up");
  else if (a.type == 1) snprintf(b, sizeof b, "+%ldms timer", a.dt); else snprintf(b, sizeof b, "bind \"%s\"", sc.evals[a.x].c_str()); return b;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static ref::Config cfg0;
static std::deque<ref::Config> cfgs;      // configuration after each sequence of runtime bindings reached (index: NodeRec.evals)
static std::map<std::pair<int, int>, std::pair<int, int>> eval_next;   // (config, eval) -> (config', expected return)
static std::pair<int, int> do_eval(int ci, int x, const Scn &sc) {
  auto k = std::make_pair(ci, x); auto it = eval_next.find(k); if (it != eval_next.end()) return it->second;
  ref::Config c = cfgs[ci]; std::string err; int ret = 0;
  c.share = true;
  if (sc.evals[x] == "reset") { c = cfg0; c.share = true; c.subs = cfgs[ci].subs; c.macros = cfgs[ci].macros; c.cmds = cfgs[ci].cmds; } else if (!ref::add_entry(c, sc.evals[x], err)) { c = cfgs[ci]; ret = -1; }
  int ni = -1; for (size_t i = 0; i < cfgs.size() && ni < 0; i++) if (ref::same(cfgs[i], c)) ni = i;
  if (ni < 0) { cfgs.push_back(c); ni = cfgs.size() - 1; }
  return eval_next[k] = {ni, ret};
}
static bool past_deadline(size_t i) {               // VERIF_DEADLINE: give up the search at this time (CLOCK_MONOTONIC), as if a cap had been reached
  static long d = -1; if (d < 0) { const char *e = getenv("VERIF_DEADLINE"); d = e ? atol(e) : 0; } if (!d || i % 64) return false;
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec >= d;
}
struct Result { long states = 0, trans = 0, maxdepth = 0, outcomes = 0, rest = 0, leaves = 0; bool capped = false; std::vector<std::string> samples; };
struct VRep { Viol v; std::vector<Act> path; };

// Setting up: a fresh SUT for the scenario in this process
static Snap S0; static bool setup(const Scn &sc, std::string &err) {
  T0 = sc.t0;
  init(); install_handlers();
  struct sigaction sa = {}; sa.sa_sigaction = on_vtalrm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it = {}; it.it_interval.tv_sec = 1; it.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &it, 0);
  env::fs["/etc/keyd/t.conf"] = sc.text; env::on_usleep = cb_sleep; env::on_exec = cb_exec; env::exec_fails = sc.execfail;
  cfg0 = ref::Config(); if (!ref::load(cfg0, sc.text)) { err = "reference reader rejects the scenario"; return false; }
  for (auto &e : sc.evals) if (e.find("overloadi") != std::string::npos || e.find("lettermod") != std::string::npos) cfg0.uses_idle = true;
  if (!cfg0.errors.empty()) { err = "scenario has errors: " + cfg0.errors[0]; return false; }
  cfgs.clear(); cfgs.push_back(cfg0); rcfg = &cfgs[0]; eval_next.clear();
  std::vector<Out> o; sut_out = &o; static sigjmp_buf jb;
  if (sigsetjmp(jb, 0)) { in_sut = false; trap = nullptr; err = std::string("!loading the configuration: ") + crash_msg; return false; }
  trap = &jb; env::stack_top = (char *)__builtin_frame_address(0) + 16; in_sut = true; heartbeat++;
  int ret; void *c = glue_config("/etc/keyd/t.conf", &ret);
  if (ret) { in_sut = false; trap = nullptr; err = "!the configuration was rejected"; return false; }
  kbd = glue_new(c, cb_key, cb_layer); in_sut = false; trap = nullptr;
  baseline(1 << 20);
  unsigned char b[16]; use_canon = canon_emit(kbd, T0, 1000, 0, b, sizeof b) > 0;
  hmask.clear(); canon_ranges(kbd, mark);
  FILE *f = fopen((std::string(getenv("SUT_DIR") ? getenv("SUT_DIR") : ".") + "/counter.txt").c_str(), "r"); unsigned long off; char t; int n = 0; counter_word = ~0u;
  if (f) { while (fscanf(f, "%lx %c", &off, &t) == 2) { n++; if (n == 1) counter_word = idx_of((t == 'd' ? __start_sut_data : __start_sut_bss) + off); } fclose(f); if (n != 1) counter_word = ~0u; }
  new (&M0) ref::Model(); M0.init(&cfgs[0]);
  KMAX = 2; for (long x : {cfg0.macro_timeout, cfg0.macro_repeat, cfg0.oneshot_timeout, cfg0.chord_interkey, cfg0.chord_hold, cfg0.overload_tap}) KMAX = std::max(KMAX, x + 2);
  auto see = [&](const ref::Act &a) { KMAX = std::max(KMAX, std::max<long>(a.t1, a.t2) + 2); };
  for (auto &l : cfg0.layers) { for (auto &a : l.map) see(a); for (auto &ch : l.chords) see(ch.act); } for (auto &a : cfg0.subs) see(a);
  if (!sc.evals.empty()) KMAX = std::max(KMAX, 1000l);
  collect_latch(cfg0); save(S0);
  return true;
}
static std::vector<Act> path_to(uint32_t n) { std::vector<Act> p; while (n) { p.push_back(nodes[n].act); n = nodes[n].parent; } std::reverse(p.begin(), p.end()); return p; }

// One transition from the loaded state.  Returns false and fills v on a violation.
struct Cur { ref::Model m; long now, wake; uint64_t down; Set ds; std::vector<uint32_t> lc; int ci; };
static bool apply(Cur &c, const Act &a, const Scn &sc, Viol &v, Step &st, std::vector<Out> &mo) {
  c.now += a.dt; rcfg = &cfgs[c.ci]; mo.clear();
  sut_step(a, c.now, sc, st);
  if (st.crash) { v = {"crash", st.msg}; return false; }
  if (a.type == 2) {
    auto r = do_eval(c.ci, a.x, sc); c.ci = r.first; rcfg = &cfgs[c.ci]; st.wake = c.wake > 0 ? c.wake - a.dt : 0;
    if (sc.model && (st.eval_ret < 0) != (r.second < 0)) { v = {"bind", std::string("binding ") + (r.second < 0 ? "should be rejected" : "should be accepted")}; return false; }
    c.m.cfg = rcfg;
    if (sc.model && (CMP & CMP_CFG)) {
      size_t n; const char *d = pg_dump(glue_cfg(kbd), &n); static std::string rd; rdump(rd, *rcfg);
      if (rd.size() != n || memcmp(rd.data(), d, n)) {
        size_t i = 0; while (i < n && i < rd.size() && d[i] == rd[i]) i++;
        size_t s = i ? rd.rfind('\n', i - 1) : std::string::npos; s = s == std::string::npos ? 0 : s + 1; std::string sd(d, n); size_t l = std::min(s, sd.size());
        v = {"config", "the configuration in effect has \"" + sd.substr(l, sd.find('\n', l) - l) + "\", should have \"" + rd.substr(s, rd.find('\n', s) - s) + "\""}; return false;
      }
    }
  } else if (sc.model) {
    c.m.cfg = rcfg; c.m.out = &mo; c.m.replayed = false;
    if (a.type == 0) c.m.event(a.code, a.pressed, c.now); else c.m.event(0, 0, c.now);
    c.m.out = nullptr; c.m.replayed = c.m.replayed && (CMP & CMP_WAKE);
  }
  Set before = c.ds;
  if (!track(st.o, c.ds, c.lc, v)) return false;
  if (sc.model && !compare(st, mo, c.now, c.m, before, v)) return false;
  c.wake = st.wake;
  if (a.type == 0) for (size_t i = 0; i < sc.keys.size(); i++) if (sc.keys[i] == a.code) { if (a.pressed) c.down |= 1ull << i; else c.down &= ~(1ull << i); }
  return true;
}
static bool cur_init(Cur &c, const Scn &sc, Viol &v) {
  restore(S0); c.m = M0; c.now = T0; c.wake = 0; c.down = 0; c.ds = {0, 0, 0, 0}; c.ci = 0; c.lc.clear();
  if (CMP & (CMP_STUCK | CMP_LAYINV)) { c.lc.assign(cfg0.layers.size(), 0); for (size_t i = 0; i < cfg0.layers.size(); i++) if (M0.L[i].active) c.lc[i] = M0.L[i].active; c.lc[0] = 0; }
  Step st; std::vector<Out> mo;
  for (auto &e : sc.pre) {
    if (c.wake == 1 && !apply(c, Act{1, 0, 0, 0, 1}, sc, v, st, mo)) return false;
    if (!apply(c, Act{0, (uint8_t)e.first, (uint8_t)e.second, 0, 1}, sc, v, st, mo)) return false;
  }
  return true;
}
// let go of everything and let all timers run out: nothing may be left
static bool epilogue(Cur &c, const Scn &sc, Viol &v, std::vector<Act> &did, long &trans) {
  Step st; std::vector<Out> mo; int save_cmp = CMP; bool ok = true; int ticks = 0;
  CMP &= CMP_STUCK | CMP_WELL | CMP_LAYINV;
  for (int k = 0; ok && k < 400; k++) {
    Act a; a.x = 0;
    if (c.wake > 0 && (c.down == 0 || (c.wake <= sc.delays[0] && ticks < 2))) { a = {1, 0, 0, 0, c.wake}; ticks++; }
    else if (c.down) { int i = __builtin_ctzll(c.down); a = {0, (uint8_t)sc.keys[i], 0, 0, c.wake > 0 ? std::min(sc.delays[0], c.wake) : sc.delays[0]}; ticks = 0; }
    else break;
    did.push_back(a); trans++; ok = apply(c, a, sc, v, st, mo);
    if (k == 399) { ok = false; v = {"stuck", "timers never run out with nothing held"}; }
  }
  if (ok) ok = check_rest(c.ds, c.lc, v);
  CMP = save_cmp; return ok;
}
static bool replay(const std::vector<Act> &p, const Scn &sc, bool rest, Viol &v, std::string *trace) {
  Cur c; Step st; std::vector<Out> mo; if (!cur_init(c, sc, v)) return false;
  for (auto &a : p) {
    bool ok = apply(c, a, sc, v, st, mo);
    if (trace) { *trace += "  " + actstr(a, sc) + "  ->  " + (st.crash ? "CRASH: " + st.msg : outs(st.o)); if (sc.model && a.type != 2 && !(st.o == mo)) *trace += "      [reference: " + outs(mo) + "]"; if (st.wake > 0) *trace += "   (wake in " + std::to_string(st.wake) + " ms)"; *trace += "\n"; }
    if (!ok) return false;
  }
  return !rest || check_rest(c.ds, c.lc, v);
}

static Result explore(const Scn &sc, int depth, int cap, std::vector<VRep> &viols) {
  Result R; nodes.clear(); snap_pool.clear(); mod_pool.clear(); downset.clear(); laycount.clear();
  std::unordered_set<H, HH> seen; std::unordered_set<uint64_t> outcomes; std::set<std::string> vsig;
  Cur c; Snap s; Viol v0; if (!cur_init(c, sc, v0)) { viols.push_back({v0, {}}); R.states = R.trans = 1; return R; } save(s);
  auto add = [&](uint32_t parent, const Act &a, int dist, int devs) {
    save(s); H h = state_hash(s, c.m, c.now, c.wake, c.down, devs, c.ci, c.ds, c.lc, sc);
    if (!seen.insert(h).second) return;
    NodeRec n; n.snap_off = snap_pool.size(); n.snap_n = s.size(); snap_pool.insert(snap_pool.end(), s.begin(), s.end());
    n.mod_off = mod_pool.size(); c.m.cfg = &cfgs[0]; mod_save(c.m); n.mod_n = mod_pool.size() - n.mod_off;
    n.parent = parent; n.now = c.now; n.wake = c.wake; n.act = a; n.down = c.down; n.dist = dist; n.devs = devs; n.evals = c.ci;
    nodes.push_back(n); downset.push_back(c.ds); laycount.push_back(c.lc);
    if ((int)R.maxdepth < dist) R.maxdepth = dist;
  };
  M0.cfg = &cfgs[0]; add(0, Act{1, 0, 0, 0, 0}, 0, 0);
  Step st; std::vector<Out> mo; Cur base;
  auto load = [&](uint32_t i) {
    const NodeRec &n = nodes[i]; restore(snap_pool.data() + n.snap_off, n.snap_n); mod_load(c.m, n);
    c.now = n.now; c.wake = n.wake; c.down = n.down; c.ds = downset[i]; c.lc = laycount[i]; c.ci = n.evals;
  };
  auto report = [&](uint32_t i, std::vector<Act> extra, const Viol &v, bool rest) {
    std::vector<Act> p = path_to(i); p.insert(p.end(), extra.begin(), extra.end());
    std::string sig = v.kind + "|" + v.detail.substr(0, 60); if (!vsig.insert(sig).second || viols.size() >= 5) return;
    Viol v2; if (replay(p, sc, rest, v2, nullptr) || v2.kind != v.kind) { fprintf(stderr, "%s: a violation (%s: %s) did not replay\n", sc.id.c_str(), v.kind.c_str(), v.detail.c_str()); exit(4); }
    viols.push_back({v, p});
  };
  for (uint32_t i = 0; i < nodes.size(); i++) {
    NodeRec n = nodes[i]; R.states++;
    if (CMP & CMP_STUCK) {
      load(i); Viol v; std::vector<Act> did; long tr = 0;
      if (!epilogue(c, sc, v, did, tr)) report(i, did, v, v.kind == "stuck"); else R.rest++;
      R.trans += tr;
    }
    if (n.dist >= depth) { R.leaves++; continue; }
    if ((int)nodes.size() >= cap || past_deadline(i)) { R.capped = true; break; }
    if (viols.size() >= 5) break;
    std::vector<std::pair<Act, int>> acts;
    auto timed = [&](Act a) {
      for (long d : sc.delays) { a.dt = d; if (n.wake > 0 && d >= n.wake) { continue; } acts.push_back({a, 0}); }
      if (sc.late && sc.lateev && n.wake > 0 && n.devs < sc.devs) { a.dt = n.wake + sc.late; acts.push_back({a, 1}); }
    };
    if (n.wake > 0) acts.push_back({Act{1, 0, 0, 0, n.wake}, 0});
    for (int k = 0; k < sc.nkeys; k++) {
      bool dn = n.down >> k & 1;
      if (!dn && __builtin_popcountll(n.down) >= sc.maxdown) continue;
      timed(Act{0, (uint8_t)sc.keys[k], (uint8_t)!dn, 0, 0});
      if (sc.dup && n.devs < sc.devs) acts.push_back({Act{0, (uint8_t)sc.keys[k], (uint8_t)dn, 0, sc.delays[0] < n.wake || n.wake <= 0 ? sc.delays[0] : 0}, 1});
    }
    if (n.devs < sc.devs) {
      if (sc.late && n.wake > 0) acts.push_back({Act{1, 0, 0, 0, n.wake + sc.late}, 1});
      if (sc.early) { acts.push_back({Act{1, 0, 0, 0, n.wake > 1 ? n.wake / 2 : 3}, 1}); if (n.wake > 1) acts.push_back({Act{1, 0, 0, 0, n.wake - 1}, 1}); }
    }
    for (size_t x = 0; x < sc.evals.size(); x++) acts.push_back({Act{2, 0, 0, (uint8_t)x, 0}, 0});
    size_t size0 = nodes.size();
    for (auto &pa : acts) {
      load(i); Viol v; R.trans++;
      // a duplicate press/orphan release does not change what is physically down
      uint64_t down0 = c.down;
      bool ok = apply(c, pa.first, sc, v, st, mo);
      if (pa.first.type == 0 && sc.dup) { int k = -1; for (size_t q = 0; q < sc.keys.size(); q++) if (sc.keys[q] == pa.first.code) k = q; if (k >= 0 && (down0 >> k & 1) == pa.first.pressed) c.down = down0; }
      h128[0] = h128[1] = 7; for (auto &o : st.o) { int q[3] = {o.kind, o.a, o.b}; hash_bytes(q, sizeof q); } outcomes.insert(h128[0]);
      if (!ok) { report(i, {pa.first}, v, false); continue; }
      if (c.m.overflow) continue;
      add(i, pa.first, n.dist + 1, n.devs + pa.second);
    }
    if (nodes.size() == size0) R.leaves++;
  }
  R.outcomes = outcomes.size();
  for (size_t k : {nodes.size() / 3, nodes.size() - 1}) if (k && k < nodes.size()) { std::string t; for (auto &a : path_to(k)) t += (t.empty() ? "" : ", ") + actstr(a, sc); R.samples.push_back(t); }
  return R;
}

int main(int argc, char **argv) {
  std::string prop = "K00", replay_file, outdir; int dadd = 0, cap = 0; std::vector<std::string> files; CMP = 0; std::string cmpstr; bool bundle = false; int shard = 0, nshard = 1;
  setvbuf(stdout, 0, _IOLBF, 0);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i]; else if (a == "--cmp") cmpstr = argv[++i]; else if (a == "--depth-add") dadd = atoi(argv[++i]); else if (a == "--cap") cap = atoi(argv[++i]);
    else if (a == "--replay") replay_file = argv[++i]; else if (a == "--outdir") outdir = argv[++i]; else if (a == "--bundle") bundle = true;
    else if (a == "--shard") { shard = atoi(argv[++i]); nshard = atoi(argv[++i]); } else files.push_back(a);
  }
  ref::keys().load((std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/data/keynames.tsv").c_str());
  std::vector<Scn> scns;
  auto slurp = [](const std::string &f) { std::ifstream i(f); if (!i) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(3); } std::stringstream s; s << i.rdbuf(); return s.str(); };
  std::vector<Act> rp; bool rrest = false;
  if (!replay_file.empty()) {       // lines: prop/cmp/rest/act..., then "---" and the scenario
    std::string t = slurp(replay_file); size_t p = t.find("\n---\n"); std::stringstream ss(t.substr(0, p)); std::string l;
    while (getline(ss, l)) { auto w = words(l); if (w.empty()) continue; if (w[0] == "prop") prop = w[1]; else if (w[0] == "cmp") cmpstr = w[1]; else if (w[0] == "rest") rrest = true;
      else if (w[0] == "act") rp.push_back({(uint8_t)atoi(w[1].c_str()), (uint8_t)atoi(w[2].c_str()), (uint8_t)atoi(w[3].c_str()), (uint8_t)atoi(w[4].c_str()), atol(w[5].c_str())}); }
    scns.emplace_back(); parse_scn("replay", t.substr(p + 5), scns[0]);
  } else for (auto &f : files) {
    std::string t = slurp(f);
    if (!bundle) { scns.emplace_back(); parse_scn(f, t, scns.back()); continue; }
    size_t p = 0; while (p < t.size()) { size_t e = t.find("\n====\n", p); if (e == std::string::npos) e = t.size(); std::string x = t.substr(p, e - p); if (x.find("#!") != std::string::npos) { scns.emplace_back(); parse_scn(f, x, scns.back()); } p = e + 6; }
  }
  { std::stringstream ss(cmpstr); std::string w; while (getline(ss, w, ',')) { auto it = CMPN.find(w); if (it == CMPN.end()) { fprintf(stderr, "bad comparator %s\n", w.c_str()); return 3; } CMP |= it->second; } }
  int rc = 0; std::string sutdir = getenv("SUT_DIR") ? getenv("SUT_DIR") : ".";
  for (size_t si = shard; si < scns.size(); si += nshard) {
    Scn &sc = scns[si]; int depth = sc.depth + dadd, cp = cap ? cap : sc.cap;
    fflush(stdout);
    pid_t pid = nshard == 1 && scns.size() == 1 ? 0 : ::fork();   // a fresh SUT per scenario
    if (pid) { int ws; waitpid(pid, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws) > 1) { fprintf(stderr, "scenario %s: harness failed (status %x)\n", sc.id.c_str(), ws); return 3; } rc |= WEXITSTATUS(ws); continue; }
    bool child = !(nshard == 1 && scns.size() == 1);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::string err; std::vector<VRep> viols; Result R; int code = 0;
    if (!setup(sc, err)) {
      if (err[0] != '!') { fprintf(stderr, "%s: %s\n", sc.id.c_str(), err.c_str()); exit(3); }
      viols.push_back({{"crash", err.substr(1)}, {}});
    } else if (!replay_file.empty()) {
      Viol v; std::string tr; bool ok = replay(rp, sc, rrest, v, &tr); printf("%s%s\n", tr.c_str(), ok ? "no violation" : (v.kind + ": " + v.detail).c_str()); exit(ok ? 0 : 1);
    } else R = explore(sc, depth, cp, viols);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    printf("{\"scenario\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"depth\":%ld,\"bound\":%d,\"outcomes\":%ld,\"rest\":%ld,\"leaves\":%ld,\"capped\":%s,\"canon\":%s,\"model\":%d,\"wall\":%.2f,\"samples\":[", jesc(sc.id).c_str(), R.states, R.trans, R.maxdepth, depth, R.outcomes, R.rest, R.leaves, R.capped ? "true" : "false", use_canon ? "true" : "false", sc.model,
           (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
    for (size_t i = 0; i < R.samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(R.samples[i]).c_str());
    printf("],\"violations\":[");
    int vi = 0;
    for (auto &v : viols) {
      code = 1; std::string tr, rf; Viol dv; if (!v.path.empty()) { replay(v.path, sc, v.v.kind == "stuck", dv, &tr); }
      if (!outdir.empty()) { char b[64]; snprintf(b, sizeof b, "-%d.replay", vi); rf = outdir + "/" + prop + "-" + sc.id + b; FILE *f = fopen(rf.c_str(), "w"); if (f) {
        fprintf(f, "# replay: python3 /verif/run.py replay %s\n# %s: %s\n", rf.c_str(), v.v.kind.c_str(), v.v.detail.c_str());
        std::stringstream ss(tr); std::string l; while (getline(ss, l)) fprintf(f, "#%s\n", l.c_str());
        fprintf(f, "engine\nprop %s\ncmp %s\n", prop.c_str(), cmpstr.c_str()); if (v.v.kind == "stuck") fprintf(f, "rest\n");
        for (auto &a : v.path) fprintf(f, "act %d %d %d %d %ld\n", a.type, a.code, a.pressed, a.x, a.dt); fprintf(f, "---\n%s", sc.text.c_str()); fclose(f); } }
      printf("%s{\"kind\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\",\"replay\":\"%s\"}", vi++ ? "," : "", jesc(v.v.kind).c_str(), jesc(v.v.detail).c_str(), jesc(tr).c_str(), jesc(rf).c_str());
    }
    printf("]}\n"); fflush(stdout);
    if (child) _exit(code); else return code;
  }
  return rc;
}
