// Reference daemon: what keyd as a whole must do with what its environment presents, built on the reference
// engine (one per configuration).  Written from the documentation; shares no code with daemon.c/evloop.c/device.c.
#pragma once
#include "kernel.h"
#include "../engine/model.h"
#include <array>
#include <set>
namespace ref {
using kern::Item; using kern::specs; using kern::filesets;
// ---- key codes as input devices report them, and as the virtual devices must report them
struct CodeMap { std::map<int, std::string> in; std::map<std::string, std::pair<int, int>> out; };   // out: device (0 keyboard, 1 pointer), code
inline const CodeMap &codemap() {
  static CodeMap m; if (!m.in.empty()) return m;
  struct { const char *n; int c; } out[] = {{"leftmouse", BTN_LEFT}, {"middlemouse", BTN_MIDDLE}, {"rightmouse", BTN_RIGHT}, {"mouse1", BTN_SIDE}, {"mouse2", BTN_EXTRA}, {"mouseback", BTN_BACK}, {"mouseforward", BTN_FORWARD}};
  for (auto &o : out) { m.out[o.n] = {1, o.c}; m.in[o.c] = o.n; }
  m.out["zoom"] = {0, KEY_ZOOM}; m.out["voicecommand"] = {0, 0x246}; m.in[KEY_ZOOM] = "zoom"; m.in[0x246] = "voicecommand"; m.in[KEY_FN] = "fn"; m.in[BTN_TASK] = "f18";
  for (int i = 0; i < 12; i++) m.in[KEY_FN_F1 + i] = "f" + std::to_string(13 + i);
  for (int i = 0; i < 10; i++) m.in[BTN_0 + i] = "f" + std::to_string(13 + i);
  struct { int c; int f; } x[] = {{KEY_PROG1, 21}, {KEY_PROG2, 22}, {KEY_PROG3, 23}, {KEY_PROG4, 24}, {0x1bc, 21}, {0x1bd, 22}, {0x1be, 23}, {0x1e5, 13}, {KEY_KEYBOARD, 14}, {0x232, 15}, {0x27a, 16}, {KEY_TOUCHPAD_OFF, 17}, {KEY_TOUCHPAD_ON, 18}, {KEY_VENDOR, 19},
    {KEY_EDITOR, 13}, {KEY_SPREADSHEET, 14}, {KEY_GRAPHICSEDITOR, 15}, {KEY_PRESENTATION, 16}, {KEY_DATABASE, 17}, {KEY_NEWS, 18}, {KEY_VOICEMAIL, 19}, {KEY_ADDRESSBOOK, 20}, {KEY_MESSENGER, 21}};
  for (auto &e : x) if (e.c >= 256) m.in[e.c] = "f" + std::to_string(e.f);
  return m;
}
inline int in_code(int evcode) {                     // 0: ignored
  if (evcode < 256) return evcode;
  auto &m = codemap().in; auto i = m.find(evcode); if (i != m.end()) return lookup_key(i->second);
  return evcode >= BTN_DIGI && evcode <= BTN_TOOL_QUADTAP ? K_EXTMOUSE : 0;
}
enum { K_SDOWN = 148, K_SUP = 149, K_SLEFT = 202, K_SRIGHT = 203, K_BKSP = 14, K_ESCAPE = 1, K_RETURN = 28 };
struct Parsed { bool ok; Config c; };
inline const Parsed &parsed(const kern::Files &fs, const std::string &path) {
  static std::map<std::string, std::unique_ptr<Parsed>> cache; std::map<std::string, std::string> t; for (auto &f : fs) if (!f.second.dir && !f.second.fail) t[f.first] = f.second.data;
  bool ok; std::string text = expand(t, path, "/usr/share/keyd", ok); auto &p = cache[std::string(ok ? "1" : "0") + text];
  if (!p) { p.reset(new Parsed); p->ok = ok && load(p->c, text); p->c.share = true; p->c.uses_idle = true; }
  return *p;
}
// configurations after runtime bindings, shared so that equal ones have equal addresses
struct Bound { const Config *c; int ret; };
inline Bound rebind(const Config *cur, const Config *orig, const std::string &e) {
  static std::deque<Config> store; static std::map<std::tuple<const Config *, const Config *, std::string>, Bound> memo;
  auto key = std::make_tuple(cur, orig, e); auto it = memo.find(key); if (it != memo.end()) return it->second;
  Config c = *cur; std::string err; int ret = 0; c.share = true;
  if (e == "reset") { c = *orig; c.share = true; c.uses_idle = true; c.subs = cur->subs; c.macros = cur->macros; c.cmds = cur->cmds; } else if (!add_entry(c, e, err)) { c = *cur; ret = -1; }
  const Config *r = nullptr; if (same(c, *cur)) r = cur; else if (same(c, *orig)) r = orig; else for (auto &s : store) if (same(s, c) && s.layers.size() == orig->layers.size() && s.errors == c.errors) { bool eq = true; for (size_t i = 0; i < s.layers.size(); i++) eq &= s.layers[i].name == c.layers[i].name; if (eq) { r = &s; break; } }
  if (!r) { store.push_back(c); r = &store.back(); }
  return memo[key] = {r, ret};
}
struct RDev { int spec = -1; bool alive = true; int cfg = -1; bool grabbed = false; bool virt = false; std::deque<kern::Ev> q; bool removed = false; uint64_t held[4] = {0}, phys[4] = {0}; int scroll_x = 0, scroll_y = 0; };
struct RCfg { const Config *c = nullptr, *orig = nullptr; Model m; int sx = 0, sy = 0; long ticks = 0; };
struct RCon { bool used = false; std::string in; int end = 0; long cap = -1; bool peer_gone = false; bool listener = false, done = false; int reply = 0; std::string text; bool maybe = false; };   // reply: 0 none, 1 success, 2 failure
struct Daemon {
  std::vector<RCfg> cfgs; std::vector<RDev> devs; RCon cons[44]; std::vector<int> listeners, backlog; std::deque<std::string> hot; int active = -1; uint8_t vdown[256] = {0}; bool dead = false; int fileset = 0; int nexits = 0;
  std::map<int, std::array<int8_t, 16>> led; std::vector<Item> out; int fail_accept = 0; uint64_t udown[2][12] = {{0}};
  // ---- keyd monitor: what it must print.  gap: the milliseconds it has to state, -1 none, -2 any
  struct Line { std::string text; long gap; }; bool mon = false, mont = false; std::vector<Line> lines; long mlast = 0;
  static std::string about(int s) { return specs[s].id() + " " + specs[s].name.substr(0, 63) + " (/dev/input/" + specs[s].node + ")"; }
  // ---- output
  void report(int dev, int type, int code, int value) {
    if (type == EV_KEY) { if (((udown[dev][code >> 6] >> (code & 63)) & 1) == (value != 0)) return; udown[dev][code >> 6] ^= 1ull << (code & 63); }
    if (type == EV_REL && !value) return;
    Item i; i.kind = Item::REPORT; i.a = dev; i.evs.push_back({(uint16_t)type, (uint16_t)code, value}); out.push_back(i);
  }
  void report2(int t1, int c1, int v1, int c2, int v2) { Item i; i.kind = Item::REPORT; i.a = 1; if (v1 || t1 == EV_ABS && v1 >= 0) i.evs.push_back({(uint16_t)t1, (uint16_t)c1, v1}); if (v2) i.evs.push_back({(uint16_t)t1, (uint16_t)c2, v2}); if (i.evs.size()) out.push_back(i); }
  void sleep(long us) { Item i; i.kind = Item::SLEEP; i.a = us; out.push_back(i); }
  void emit(int code, int st) {                      // to the virtual devices, no mapping
    auto it = codemap().out.find(kname(code)); int dev = 0, c = code; if (it != codemap().out.end()) { dev = it->second.first; c = it->second.second; }
    if (keys().k[code].name.empty()) return;         // cannot be emitted
    report(dev, EV_KEY, c, st);
  }
  void send(int code, int st) {
    vdown[code] = st;
    switch (code) {
    case K_SDOWN: if (st) report(1, EV_REL, REL_WHEEL, -1); break; case K_SUP: if (st) report(1, EV_REL, REL_WHEEL, 1); break;
    case K_SRIGHT: if (st) report(1, EV_REL, REL_HWHEEL, 1); break; case K_SLEFT: if (st) report(1, EV_REL, REL_HWHEEL, -1); break;
    default: emit(code, st);
    }
  }
  void tell(const std::string &s) {
    std::vector<int> keep;
    for (int l : listeners) { RCon &c = cons[l]; if (c.peer_gone || (c.cap >= 0 && (long)s.size() > c.cap)) { c.done = true; continue; } c.text += s; if (c.cap >= 0) c.cap -= s.size(); keep.push_back(l); }
    listeners = keep;
  }
  void led_set(int spec, int l, int v) { if (specs[spec].f_led || l >= 16) return; auto it = led.find(spec); if (it == led.end()) { std::array<int8_t, 16> a; a.fill(-1); it = led.insert({spec, a}).first; } it->second[l] = !!v; }
  // ---- one call of an engine
  void engine(int ci, int code, int pressed, long t) {
    RCfg &r = cfgs[ci]; std::vector<Out> o; r.m.cfg = r.c; r.m.out = &o; r.m.replayed = false; r.m.event(code, pressed, t); r.m.out = nullptr; r.m.replayed = false;
    for (auto &x : o) switch (x.kind) {
      case Out::KEYEV: send(x.a, x.b); break;
      case Out::SLEEP: sleep(x.a); break;
      case Out::CMD: { Item i; i.kind = Item::CMD; i.s = "/bin/sh|/bin/sh|-c|" + r.c->cmds[x.a]; out.push_back(i); break; }
      case Out::LAYEREV: {
        const Layer &l = r.c->layers[x.a];
        if (r.c->layer_indicator) { int on = 0; for (size_t i = 1; i < r.c->layers.size(); i++) if (r.c->layers[i].type != LAYOUT && r.m.L[i].active) on = 1; for (auto &d : devs) if (d.alive && d.cfg == ci) led_set(d.spec, LED_CAPSL, on); }
        tell(l.type == LAYOUT ? "/" + l.name + "\n" : (x.b ? "+" : "-") + l.name + "\n"); break; }
    }
  }
  void tap(int ci, int code, long t) { engine(ci, code, 1, t); engine(ci, code, 0, t); }
  long due(int ci) const { return cfgs[ci].m.deadline_after(0); }
  long due() const { long d = 0; for (size_t i = 0; i < cfgs.size(); i++) { long x = due(i); if (x && (!d || x < d)) d = x; } return d; }
  // ---- configurations and devices
  void load_files() {
    cfgs.clear(); auto &fs = filesets[fileset]; std::vector<const Config *> v;
    for (auto &f : fs) { auto &p = f.first; if (f.second.dir || p.compare(0, 10, "/etc/keyd/") || p.find('/', 10) != std::string::npos || p.size() < 5 || p.compare(p.size() - 5, 5, ".conf")) continue; auto &x = parsed(fs, p); if (x.ok) v.push_back(&x.c); }
    for (size_t i = v.size(); i-- > 0;) { cfgs.emplace_back(); cfgs.back().c = cfgs.back().orig = v[i]; cfgs.back().m.init(v[i]); }
  }
  static int match(const Config &c, const std::string &id, int flags) {
    for (auto &i : c.ids) if (id.compare(0, i.id.size(), i.id) == 0) { if (i.flags & F_EXCL) return 0; if (i.flags & flags) return 2; }
    return c.wildcard ? 1 : 0;
  }
  void manage(RDev &d) {
    if (d.virt) return; auto &s = specs[d.spec]; int fl = 0, rank = 0, best = -1;
    if (s.caps() & 4) fl |= F_KBD; if (s.caps() & 3) fl |= F_MOUSE;
    for (size_t i = 0; i < cfgs.size(); i++) { int r = match(*cfgs[i].c, s.id(), fl); if (r > rank) { rank = r; best = i; } }
    if (rank == 1 && fl == F_MOUSE) best = -1;
    d.cfg = -1;
    if (best >= 0) { if (!d.grabbed) { if (s.f_grab || s.f_getkey || d.removed) return; d.grabbed = true; d.q.clear(); memset(d.phys, 0, sizeof d.phys); memset(d.held, 0, sizeof d.held); } d.cfg = best; }
    else if (d.grabbed) { if (!d.removed) d.grabbed = false; }
  }
  bool openable(int s) const { auto &x = specs[s]; return !x.f_open && !x.f_name && !x.f_key && !x.f_rel && !x.f_abs && x.caps() && !x.f_id && !((x.caps() & 2) && x.f_absinfo); }
  void attach(int s) { if (!openable(s) || specs[s].nodir) return; if (devs.size() >= 64) return; RDev d; d.spec = s; d.virt = specs[s].vendor == 0x0fac; devs.push_back(d); if (mon) { lines.push_back({"device added: " + about(s), -1}); mlast = std::max(kern::ms(), 1l); return; } manage(devs.back()); }
  void start(int fset) {
    fileset = fset; if (!mon) load_files();
    std::vector<int> v; for (size_t i = 0; i < specs.size(); i++) if (specs[i].present && openable(i) && !specs[i].nodir) v.push_back(i);
    for (int s : v) attach(s);
  }
  void reload() {
    active = -1; load_files();
    for (auto &d : devs) if (d.alive) manage(d);
    for (int i = 0; i < 256; i++) if (vdown[i]) { emit(i, 0); vdown[i] = 0; }
  }
  // ---- events
  bool panic() const {
    int k = 0; for (auto &d : devs) if (d.alive) { k |= (d.phys[0] >> K_BKSP & 1) | (d.phys[0] >> K_ESCAPE & 1) << 1 | (d.phys[0] >> K_RETURN & 1) << 2; } return k == 7;
  }
  static int64_t scale(int64_t v, int64_t lo, int64_t hi) { return v <= lo || hi <= lo ? 0 : (v - lo) * 1024 / (hi - lo); }
  // returns whether the event was one the daemon acts upon (reading goes on after it)
  bool dev_event(RDev &d, const kern::Ev &e, long t) {
    auto &s = specs[d.spec]; enum { KEY_, MOVE, ABS_, WHEEL, LED_ } kind; int code = 0, x = 0, y = 0;
    switch (e.type) {
    case EV_KEY: if (e.value == 2) return false; code = in_code(e.code); if (!code && e.code >= 256) return false; kind = KEY_; break;
    case EV_REL: if (e.code == REL_X) { kind = MOVE; x = e.value; } else if (e.code == REL_Y) { kind = MOVE; y = e.value; } else if (e.code == REL_WHEEL) { kind = WHEEL; y = e.value; } else if (e.code == REL_HWHEEL) { kind = WHEEL; x = e.value; } else return false; break;
    case EV_ABS: x = y = -1; if (e.code == ABS_X) x = scale(e.value, s.minx, s.maxx); else if (e.code == ABS_Y) y = scale(e.value, s.miny, s.maxy); else return false; kind = ABS_; break;
    case EV_LED: kind = LED_; break;
    default: return false;
    }
    if (kind == KEY_) {
      uint64_t &w = d.phys[code >> 6], b = 1ull << (code & 63); w = e.value ? w | b : w & ~b;
      if (panic()) { dead = true; return true; }
    }
    if (mon) {
      if (kind == KEY_) lines.push_back({s.name.substr(0, 63) + "\t" + s.id() + "\t" + keys().k[code].name + " " + (e.value ? "down" : "up"), !mont || !mlast ? -1 : t - mlast});
      mlast = t; return true;
    }
    if (d.cfg >= 0) {
      active = d.cfg; RCfg &r = cfgs[d.cfg];
      switch (kind) {
      case KEY_: { uint64_t &w = d.held[code >> 6], b = 1ull << (code & 63); w = e.value ? w | b : w & ~b; engine(d.cfg, code, !!e.value, t); break; }
      case MOVE:
        if (r.m.scroll_on) {
          if (!r.m.scroll_sens) break;
          r.sy += y; r.sx += x; int yt = r.sy / r.m.scroll_sens, xt = r.sx / r.m.scroll_sens; r.sy %= r.m.scroll_sens; r.sx %= r.m.scroll_sens;
          report(1, EV_REL, REL_WHEEL, -yt); report(1, EV_REL, REL_WHEEL, xt);
        } else report2(EV_REL, REL_X, x, REL_Y, y);
        break;
      case ABS_: { Item i; i.kind = Item::REPORT; i.a = 1; if (x >= 0) i.evs.push_back({EV_ABS, ABS_X, x}); if (y >= 0) i.evs.push_back({EV_ABS, ABS_Y, y}); if (i.evs.size()) out.push_back(i); break; }
      case WHEEL: for (long n = 0; n < labs((long)x) && n < 200; n++) tap(d.cfg, x > 0 ? K_SRIGHT : K_SLEFT, t); for (long n = 0; n < labs((long)y) && n < 200; n++) tap(d.cfg, y > 0 ? K_SUP : K_SDOWN, t); break;
      case LED_: break;
      }
    } else if (!d.virt && (s.caps() & 1)) { if (active >= 0 && (kind == KEY_ || kind == WHEEL)) tap(active, K_EXTMOUSE, t); }
    else if (d.virt && kind == LED_) for (auto &o : devs) if (o.alive && o.cfg >= 0) led_set(o.spec, e.code, e.value);
    return true;
  }
  void removed(RDev &d, long t) {
    if (mon) { lines.push_back({"device removed: " + about(d.spec), -1}); mlast = t; d.alive = false; return; }
    if (d.cfg >= 0) for (int i = 0; i < 256; i++) if (d.held[i >> 6] >> (i & 63) & 1) engine(d.cfg, i, 0, t);
    d.alive = false;
  }
  void reply(RCon &c, int r) { c.reply = r; c.done = true; }
  void client(int ci);
  void type(const std::string &s, long timeout, bool &ok);
  // ---- one round of the main loop at time t: everything that is ready
  void round(long t) {
    size_t nd = devs.size();
    for (size_t i = 0; i < cfgs.size(); i++) { long d = due(i); if (d && d <= t) engine(i, 0, 0, t); }
    std::vector<bool> rdy; for (size_t i = 0; i < nd; i++) rdy.push_back(devs[i].alive && (devs[i].removed || devs[i].q.size()));
    bool con = !backlog.empty();
    for (size_t i = 0; i < nd && !dead; i++) {
      if (!rdy[i]) continue; RDev &d = devs[i];
      if (d.removed) { removed(d, t); continue; }
      while (d.q.size() && !dead) { kern::Ev e = d.q.front(); d.q.pop_front(); if (!dev_event(d, e, t)) break; }
    }
    if (dead) return;
    if (mon && kern::k.reader_gone) { dead = true; return; }
    if (con) { int c = backlog[0]; backlog.erase(backlog.begin()); if (fail_accept) { fail_accept--; cons[c].done = true; } else client(c); }
    while (hot.size()) { std::string n = hot.front(); hot.pop_front(); if (n.compare(0, 5, "event")) continue; for (size_t s = 0; s < specs.size(); s++) if (specs[s].node == n && kern::k.devs[s].present) attach(s); }
    std::vector<RDev> live; for (auto &d : devs) if (d.alive) live.push_back(d); devs.swap(live);
  }
  bool busy() const { if (dead) return false; if (mon && kern::k.reader_gone) return true; for (auto &d : devs) if (d.alive && (d.removed || d.q.size())) return true; return !backlog.empty() || !hot.empty(); }
  void canon(std::vector<uint8_t> &b, long now, long KM) const {
    auto num = [&](long v) { for (int i = 0; i < 8; i++) b.push_back(v >> 8 * i); };
    num(active); num(fileset); num(fail_accept); if (mon) { num(mlast ? now - mlast : -1); }
    for (auto &r : cfgs) { num((long)r.c); r.m.cfg; Model &m = const_cast<Model &>(r.m); m.cfg = r.c; m.canon(b, now, KM); num(r.sx); num(r.sy); }
    for (auto &d : devs) { num(d.spec * 4 + d.grabbed * 2 + d.removed); num(d.cfg); for (int i = 0; i < 4; i++) { num(d.held[i]); num(d.phys[i]); } num(d.q.size()); for (auto &e : d.q) num(e.type << 16 | e.code), num(e.value); }
    for (int l : listeners) { num(l); num(cons[l].cap); num(cons[l].peer_gone); } num(-1); for (int c : backlog) num(c);
    for (int i = 0; i < 256; i++) if (vdown[i]) num(i);
    num(-2); for (auto &l : led) { num(l.first); for (int8_t v : l.second) num(v); }
    for (auto &u : udown) for (auto w : u) num(w);
  }
};
} // namespace ref
extern "C" size_t gd_msg_size(); extern "C" size_t gd_data_size(); extern "C" void gd_msg(void *, int, unsigned, const char *, size_t, size_t); extern "C" int gd_reply(const void *, size_t *, const char **);
namespace ref {
struct Msg { int kind; unsigned timeout; std::string data; size_t sz; };   // kind: 2 bind, 3 input, 4 macro, 5 reload, 6 listen; as the client meant it
static std::map<std::string, Msg> msgs;              // wire bytes -> meaning (filled where the scenario's clients are built)
inline void Daemon::type(const std::string &s, long timeout, bool &ok) {
  size_t i = 0; uint32_t cp; int l; ok = true;
  while ((l = utf8_at(s, i, cp))) {
    if (l < 0) { ok = false; return; }
    std::vector<std::pair<int, int>> ks; auto it = keys().any.end();
    if (l == 1) it = keys().any.find(std::string(1, (char)cp));
    if (l == 1 && it != keys().any.end()) {
      int code = it->second.first, mods = it->second.second;
      if (mods & M_SHIFT) { emit(K_LSHIFT, 1); emit(code, 1); emit(code, 0); emit(K_LSHIFT, 0); } else { emit(code, 1); emit(code, 0); }
    } else if (l == 1 && (cp == ' ' || cp == '\n' || cp == '\t')) { int code = lookup_key(cp == ' ' ? "space" : cp == '\n' ? "enter" : "tab"); emit(code, 1); emit(code, 0); }
    else { auto *q = compose().get(cp); if (!q) { ok = false; return; } for (int j = 0; j < 4 && j < (int)q->size(); j++) { emit((*q)[j], 1); emit((*q)[j], 0); } }
    i += l; if (timeout) sleep(timeout);
  }
}
inline void Daemon::client(int ci) {
  RCon &c = cons[ci]; size_t n = gd_msg_size();
  if (c.in.size() < n) { c.done = true; return; }
  auto it = msgs.find(c.in.substr(0, n)); if (it == msgs.end()) { c.done = true; c.reply = 2; return; }
  const Msg &m = it->second; std::string text = m.data.substr(0, m.data.find('\0'));
  if (m.sz >= gd_data_size() || m.timeout > 1000000) { reply(c, 2); return; }
  text = m.data.substr(0, m.sz); text = text.substr(0, text.find('\0'));
  switch (m.kind) {
  case 2: { bool any = false; for (auto &r : cfgs) { Bound b = rebind(r.c, r.orig, text); r.c = b.c; any |= !b.ret; } reply(c, any ? 1 : 2); break; }
  case 3: { bool ok; type(text, m.timeout, ok); reply(c, ok ? 1 : 2); break; }
  case 4: {
    std::string s = m.data.substr(0, m.sz); while (s.size() && s.back() == '\n') s.pop_back(); s = s.substr(0, s.find('\0')); Macro mac; std::string err;
    if (!parse_macro_tokens(s, mac, &err)) { reply(c, 2); break; }
    Model tmp; std::vector<Out> o; tmp.out = &o; tmp.raw_macro(mac, m.timeout); for (auto &x : o) if (x.kind == Out::KEYEV) send(x.a, x.b); else if (x.kind == Out::SLEEP) sleep(x.a);
    reply(c, 1); break; }
  case 5: reload(); reply(c, 1); break;
  case 6: {
    if (listeners.size() >= 32) { c.text += "Max listeners exceeded\n"; c.done = true; break; }
    std::string s;
    if (active >= 0) {
      RCfg &r = cfgs[active]; std::string lay = r.c->layers[0].name; for (size_t i = 1; i < r.c->layers.size(); i++) if (r.m.L[i].active && r.c->layers[i].type == LAYOUT) { lay = r.c->layers[i].name; break; }
      s = "/" + lay + "\n"; for (size_t i = 1; i < r.c->layers.size(); i++) if (r.m.L[i].active && r.c->layers[i].type != LAYOUT) s += "+" + r.c->layers[i].name + "\n";
    }
    c.listener = true; c.text += s;
    if (s.size() && (c.peer_gone || (c.cap >= 0 && (long)s.size() > c.cap))) { c.done = true; break; }      // it cannot be told even that
    if (c.cap >= 0) c.cap -= s.size(); if (c.peer_gone) c.maybe = true; listeners.push_back(ci); break; }
  default: reply(c, 2);
  }
}
} // namespace ref
