// Reference engine: what keyd must do with a stream of key events under a configuration (conf.h).
// Plain data, no pointers, so a state can be copied and hashed.  Written to be boring: one function per
// documented feature.  Times are absolute milliseconds.
#pragma once
#include "conf.h"
#include <algorithm>

namespace ref {
struct Out { enum { KEYEV, SLEEP, LAYEREV, CMD } kind; int a, b; bool operator==(const Out &o) const { return kind == o.kind && a == o.a && b == o.b; } };
struct Ev { uint8_t code, pressed; long t; };
enum { NSLOT = 16, NQ = 40, QCAP = 32 };
enum PK { INT_ACTION1, UNINT, UNINT_TAP2 };
enum CS { C_IDLE, C_RESOLVING, C_DISAMB, C_HOLD };
struct Held { uint8_t code = 0; int8_t dl = 0, layer = 0; Act act; };
struct LState { long order = 0; int active = 0; int toggled = 0; int oneshot = 0; };
struct ActiveChord { uint8_t on = 0, n = 0; uint8_t keys[8] = {0}; int layer = 0; Act act; };

struct Model {
  // --- persistent state
  Held held[NSLOT]; LState L[32]; uint8_t down[256] = {0};
  uint8_t last_out = 0, last_code = 0, latch = 0;
  long tick = 1, oneshot_at = 0, overload_start = 0, last_simple = 0;
  int macro = -1, macro_dl = 0; long macro_at = 0, macro_int = 0;
  struct { uint8_t code = 0; int dl = 0; long expire = 0; int kind = 0; Act a1, a2; int n = 0; Ev q[NQ]; } P;
  struct { int st = C_IDLE; int n = 0; Ev q[NQ]; int has = 0; uint8_t mkeys[8]; int msz = 0; Act mact; int mlayer = 0; long last = 0, due = 0; } C;
  ActiveChord AC[3];
  int scroll_on = 0, scroll_sens = 0;
  uint8_t lostP = 0, lostC = 0, lostO = 0, lostM = 0;   // the timer elapsed unnoticed (see known_findings, K14): nothing will wake the engine for it
  uint8_t overflow = 0;                      // a queue bound of this model was hit (states beyond are not explored)
  // --- per call
  const Config *cfg = nullptr; std::vector<Out> *out = nullptr; bool inhibit = false, replayed = false;

  // canonical form: what can influence the future, times relative to now and clamped at -K
  void canon(std::vector<uint8_t> &o, long now, long K) const {
    auto num = [&](long v) { if (v >= 0 && v < 250) o.push_back((uint8_t)v); else { o.push_back(255); for (int i = 0; i < 8; i++) o.push_back((uint8_t)((unsigned long)v >> 8 * i)); } };
    auto rel = [&](long t) { long d = t - now; if (d < -K) d = -K; num(d + K); };
    auto act = [&](const Act &a) { const uint8_t *p = (const uint8_t *)&a; if (!a.op) { num(0); return; } o.insert(o.end(), p, p + sizeof a); };
    for (int i = 0; i < NSLOT; i++) if (held[i].code) { num(i + 1); num(held[i].code); num(held[i].dl); num(held[i].layer); act(held[i].act); }
    num(0);
    for (size_t i = 0; i < cfg->layers.size(); i++) {
      num(L[i].active); num(L[i].toggled); num(L[i].oneshot);
      if (!L[i].active) continue;
      long r = L[i].order; if (r > 1) { r = 2; for (size_t j = 0; j < cfg->layers.size(); j++) if (L[j].active && L[j].order > 1 && L[j].order < L[i].order) r++; }
      num(r);
    }
    for (int i = 0; i < 256; i++) if (down[i]) num(i);
    num(0); num(last_out); num(last_code); num(latch); if (oneshot_at) rel(oneshot_at); else num(0);
    if (cfg->overload_tap) rel(overload_start);
    if (cfg->uses_idle) rel(last_simple);
    num(macro + 1); if (macro >= 0) { num(macro_dl); num(macro_int); if (macro_at) rel(macro_at); else num(0); }
    num(P.code); if (P.code) { num(P.dl); rel(P.expire); num(P.kind); act(P.a1); act(P.a2); num(P.n); for (int i = 0; i < P.n; i++) { num(P.q[i].code); num(P.q[i].pressed); rel(P.q[i].t); } }
    num(C.st); if (C.st != C_IDLE) { num(C.n); for (int i = 0; i < C.n; i++) { num(C.q[i].code); num(C.q[i].pressed); rel(C.q[i].t); } num(C.has); if (C.has) { for (int i = 0; i < C.msz; i++) num(C.mkeys[i]); act(C.mact); num(C.mlayer); } rel(C.last); rel(C.due); }
    for (auto &a : AC) { num(a.on); if (a.on) { for (int i = 0; i < a.n; i++) num(a.keys[i]); num(a.layer); act(a.act); } }
    num(scroll_on); num(scroll_sens); num(overflow);
    num(!!(P.code && lostP) | !!((C.st == C_DISAMB || C.st == C_HOLD) && lostC) << 1 | !!(oneshot_at && lostO) << 2 | !!(macro >= 0 && macro_at && lostM) << 3);
  }
  void init(const Config *c) {
    cfg = c; L[0].active = 1; L[0].order = 0;
    if (!c->default_layout.empty()) for (size_t i = 0; i < c->layers.size(); i++)
      if (c->layers[i].type == LAYOUT && c->layers[i].name == c->default_layout.substr(0, 63)) { L[i].active = 1; L[i].order = 1; break; }
  }
  int nl() const { return cfg->layers.size(); }
  void raw(int code, int st) { out->push_back({Out::KEYEV, code, st}); }
  void key(int code, int st) {               // engine-level output: only changes are emitted
    if (code == K_NOOP || code == K_EXTMOUSE) return;
    if (st) last_out = code;
    if (down[code] != st) { down[code] = st; raw(code, st); }
  }
  void set_mods(int mods) {
    for (auto &m : MODS) {
      if (mods & m.mask) { if (!down[m.key]) key(m.key, 1); continue; }
      if (!down[m.key]) continue;
      bool guard = last_out == m.key && (m.key == K_LMETA || m.key == K_LALT || m.key == K_RALT) && !inhibit && !cfg->no_guard;
      if (guard && !down[K_LCTRL]) { key(K_LCTRL, 1); key(m.key, 0); key(K_LCTRL, 0); } else key(m.key, 0);
    }
  }
  // modifiers of all active layers, except those of the layer the binding comes from (or its constituents)
  void mods_for(int excl, int extra) {
    int m = extra;
    for (int i = 0; i < nl(); i++) {
      if (!L[i].active) continue;
      bool ex = i == excl;
      if (excl >= 0 && cfg->layers[excl].type == COMPOSITE) for (int c : cfg->layers[excl].cons) ex |= c == i;
      if (!ex) m |= cfg->layers[i].mods;
    }
    set_mods(m);
  }
  void layer_event(int idx, int on) { out->push_back({Out::LAYEREV, idx, on}); }
  void activate(int code, int idx) {
    L[idx].order = ++tick; L[idx].active++;
    for (auto &h : held) if (code && h.code == code) h.layer = idx;
    layer_event(idx, 1);
  }
  void deactivate(int idx) { if (L[idx].active > 0) L[idx].active--; layer_event(idx, 0); }
  void clear_oneshot() {
    for (int i = 0; i < nl(); i++) while (L[i].oneshot) { deactivate(i); L[i].oneshot--; }
    latch = 0; oneshot_at = 0;
  }
  void clear() {
    clear_oneshot();
    for (int i = 1; i < nl(); i++) if (cfg->layers[i].type != LAYOUT && L[i].toggled) { L[i].toggled = 0; deactivate(i); }
    macro = -1;
    for (int i = 0; i < 256; i++) if (down[i]) { raw(i, 0); down[i] = 0; }
  }
  void sleep(long us) { out->push_back({Out::SLEEP, (int)us, 0}); }
  void run_macro(int dl, int mi) {
    const Macro &m = cfg->macros[mi];
    if (m.size() == 1 && m[0].type == T_KEY) {
      mods_for(dl, m[0].mods); key(m[0].code, 1); key(m[0].code, 0);
      return;
    }
    mods_for(dl, 0);
    raw_macro(m, cfg->macro_seq);
    for (auto &mm : MODS) {                  // the macro let go of everything it pressed: modifiers still due come back
      bool used = false;
      for (auto &t : m) used |= (t.type == T_KEY && (t.mods & mm.mask || t.code == mm.key)) || (t.type == T_HOLD && t.code == mm.key);
      if (used && down[mm.key]) raw(mm.key, 1);
    }
  }
  void raw_macro(const Macro &m, long seq) {
    std::vector<int> holding;
    for (auto &t : m) {
      switch (t.type) {
      case T_HOLD: holding.push_back(t.code); raw(t.code, 1); break;
      case T_RELEASE: for (int c : holding) raw(c, 0); holding.clear(); break;
      case T_UNI: for (int j = 0; j < 4; j++) { raw(t.seq[j], 1); raw(t.seq[j], 0); } break;
      case T_KEY:
        for (auto &mm : MODS) if (t.mods & mm.mask) raw(mm.key, 1);
        if (t.mods && seq) sleep(seq);
        raw(t.code, 1); raw(t.code, 0);
        for (auto &mm : MODS) if (t.mods & mm.mask) raw(mm.key, 0);
        break;
      case T_WAIT: sleep(t.ms * 1000L); break;
      }
      if (seq) sleep(seq);
    }
  }
  void lookup(int code, Act &d, int &dl) {
    d = Act(); dl = 0;
    if (code >= K_CHORD1 && code < K_CHORD1 + 3) { d = AC[code - K_CHORD1].act; dl = AC[code - K_CHORD1].layer; return; }
    long best = -1;
    for (int i = 0; i < nl(); i++)
      if (L[i].active && cfg->layers[i].map[code].op && L[i].order >= best && L[i].order >= 0) { best = L[i].order; d = cfg->layers[i].map[code]; dl = i; }
    size_t max = 0;
    for (int i = 0; i < nl(); i++) {
      auto &l = cfg->layers[i]; if (l.type != COMPOSITE) continue;
      bool all = true; for (int c : l.cons) all &= L[c].active > 0;
      if (all && l.map[code].op && l.cons.size() > max) { d = l.map[code]; dl = i; max = l.cons.size(); }
    }
    if (!d.op) { d.op = KEY; d.key = code; d.mods = 0; dl = 0; }
  }
  Held *find_held(int code) { for (auto &h : held) if (h.code == code) return &h; return nullptr; }
  bool hold(int code, const Act &a, int dl) {
    Held *h = find_held(code);
    if (!h) for (auto &x : held) if (!x.code) h = &x;   // last free slot
    if (!h) return false;
    h->code = code; h->act = a; h->dl = dl; h->layer = 0; return true;
  }
  static bool plain(const Act &a) { return a.op == KEY && (!a.mods || a.mods == M_SHIFT); }
  void perform(int code, const Act d, int dl, int pressed, long t) {
    if (pressed && (d.op == LAYERM || d.op == ONESHOTM || d.op == TOGGLEM)) run_macro(dl, d.macro);
    int idx = d.layer;
    switch (d.op) {
    case KEY:
      if (pressed) {
        if (down[d.key]) key(d.key, 0);
        mods_for(dl, d.mods);
        key(d.key, 1); clear_oneshot();
      } else { key(d.key, 0); mods_for(-1, 0); }
      if (plain(d)) last_simple = t;
      break;
    case SCROLL: scroll_sens = d.t1; scroll_on = pressed; break;
    case SCROLLT: scroll_sens = d.t1; if (pressed) scroll_on = !scroll_on; break;
    case OVERLOADI:
      if (pressed) {
        Act a = cfg->subs[t - last_simple >= d.t1 ? d.sub2 : d.sub1];
        perform(code, a, dl, 1, t);
        if (Held *h = find_held(code)) h->act = a;
      }
      break;
    case OVERLOADT: case OVERLOADT2:
      if (pressed) {
        Act lay; lay.op = LAYER; lay.layer = idx;
        start_pending(code, dl, t + d.t1, d.op == OVERLOADT2 ? UNINT_TAP2 : UNINT, cfg->subs[d.sub1], lay);
      }
      break;
    case TIMEOUT: if (pressed) start_pending(code, dl, t + d.t1, INT_ACTION1, cfg->subs[d.sub1], cfg->subs[d.sub2]); break;
    case SETLAYOUT:
      if (pressed) {
        clear();
        for (int i = 1; i < nl(); i++) if (cfg->layers[i].type == LAYOUT) L[i].active = 0;
        if (idx) { L[idx].order = 1; L[idx].active = 1; }
        layer_event(idx, 1);
      }
      break;
    case LAYER: case LAYERM:
      if (pressed) activate(code, idx); else deactivate(idx);
      inhibit = last_code == code; mods_for(-1, 0); inhibit = false;
      break;
    case CLEAR: if (pressed) clear(); break;
    case CLEARM: if (pressed) { clear(); run_macro(dl, d.macro); mods_for(dl, 0); } break;
    case OVERLOAD:
      if (pressed) { overload_start = t; activate(code, idx); mods_for(-1, 0); }
      else {
        deactivate(idx); mods_for(-1, 0);
        if (last_code == code && (!cfg->overload_tap || t - overload_start < cfg->overload_tap)) {
          const Act &a = cfg->subs[d.sub1];
          if (a.op == MACRO) { run_macro(dl, a.macro); mods_for(dl, 0); }
          else { hold(code, a, dl); perform(code, a, dl, 1, t); event(code, 0, t); }
        }
      }
      break;
    case ONESHOT: case ONESHOTM:
      if (pressed) { activate(code, idx); mods_for(dl, 0); latch = 1; }
      else if (latch) { L[idx].oneshot++; if (cfg->oneshot_timeout) { oneshot_at = t + cfg->oneshot_timeout; lostO = 0; } }
      else { deactivate(idx); mods_for(-1, 0); }
      break;
    case MACRO: case MACRO2:
      if (pressed) {
        long first = d.op == MACRO2 ? d.t1 : cfg->macro_timeout;
        macro_int = d.op == MACRO2 ? d.t2 : cfg->macro_repeat;
        clear_oneshot(); run_macro(dl, d.macro);
        macro = d.macro; macro_dl = dl; macro_at = first > 0 && macro_int > 0 ? t + first : 0; lostM = 0;   // 0: repetition disabled
      }
      break;
    case TOGGLE: case TOGGLEM:
      if (pressed) {
        L[idx].toggled = !L[idx].toggled;
        if (L[idx].toggled) activate(0, idx); else deactivate(idx);
        clear_oneshot(); mods_for(-1, 0);
      }
      break;
    case COMMAND: if (pressed) { out->push_back({Out::CMD, d.cmd, 0}); clear_oneshot(); mods_for(-1, 0); } break;
    case SWAP: case SWAPM:
      if (pressed) {
        if (L[dl].toggled) { deactivate(dl); L[dl].toggled = 0; if (!L[idx].toggled) activate(0, idx); L[idx].toggled = 1; mods_for(-1, 0); }
        else if (L[dl].oneshot) { deactivate(dl); L[dl].oneshot--; activate(0, idx); L[idx].oneshot++; mods_for(-1, 0); }
        else for (auto &h : held)
          if (h.code && h.layer == dl && dl != 0 && cfg->layers[dl].type == NORMAL) {
            h.act = Act(); h.act.op = LAYER; h.act.layer = idx;
            deactivate(dl); activate(h.code, idx); mods_for(-1, 0); break;
          }
        if (d.op == SWAPM) run_macro(dl, d.macro);
      } else if (d.op == SWAPM) {
        const Macro &m = cfg->macros[d.macro];
        if (m.size() == 1 && m[0].type == T_KEY) { key(m[0].code, 0); mods_for(-1, 0); }
      }
      break;
    default: break;
    }
    if (pressed) last_code = code;
  }
  void start_pending(int code, int dl, long expire, int kind, const Act &a1, const Act &a2) {
    lostP = 0; P.code = code; P.dl = dl; P.expire = expire; P.kind = kind; P.a1 = a1; P.a2 = a2;
  }
  // 0 no match, 1 partial, 2 exact
  static int chord_match(const std::vector<uint8_t> &keys, const Ev *q, int n) {
    int pressed = 0; std::vector<uint8_t> seen;
    for (int i = 0; i < n; i++) if (q[i].pressed) {
      bool in = false; for (auto k : keys) in |= k == q[i].code;
      if (!in) return 0;
      pressed++; if (std::find(seen.begin(), seen.end(), q[i].code) == seen.end()) seen.push_back(q[i].code);
    }
    return !pressed ? 0 : seen.size() == keys.size() ? 2 : 1;
  }
  int chord_check() {
    bool full = false, part = false; long best = -1;
    for (int i = 0; i < nl(); i++) {
      if (!L[i].active) continue;
      for (auto &ch : cfg->layers[i].chords) {
        int r = chord_match(ch.keys, C.q, C.n);
        if (r == 2 && best <= L[i].order) {
          full = true; best = L[i].order; C.has = 1; C.msz = ch.keys.size(); memcpy(C.mkeys, ch.keys.data(), ch.keys.size()); C.mact = ch.act; C.mlayer = i;
        } else if (r == 1) part = true;
      }
    }
    return full ? (part ? 3 : 2) : part ? 1 : 0;
  }
  void chord_enqueue(int code, int pressed, long t) { if (!code) return; if (C.n >= NQ) { overflow = 1; return; } C.q[C.n++] = {(uint8_t)code, (uint8_t)pressed, t}; }
  void chord_resolve(long t) {
    std::vector<Ev> q; int off = 0; C.st = C_RESOLVING;
    if (C.has) {
      int slot = -1;
      for (int i = 0; i < 3; i++) if (!AC[i].on) { slot = i; break; }
      if (slot >= 0) {
        AC[slot].on = 1; AC[slot].n = C.msz; memcpy(AC[slot].keys, C.mkeys, sizeof AC[slot].keys); AC[slot].layer = C.mlayer; AC[slot].act = C.mact;
        while (off < C.n && C.q[off].pressed && memchr(C.mkeys, C.q[off].code, C.msz)) off++;   // the chord's own presses
        q.push_back({(uint8_t)(K_CHORD1 + slot), 1, C.last});
      }
    }
    q.insert(q.end(), C.q + off, C.q + C.n);
    feed(q, t);
    C.st = C_IDLE; C.n = 0;
  }
  void chord_next(int r, long t) {
    C.last = t;
    if (r == 2) { if (cfg->chord_hold) { C.st = C_HOLD; lostC = 0; C.due = t + cfg->chord_hold; } else chord_resolve(t); }
    else { C.st = C_DISAMB; lostC = 0; C.due = t + cfg->chord_interkey; }
  }
  bool chord_stage(int code, int pressed, long t) {
    if (code)
      for (int s = 0; s < 3; s++) {
        if (AC[s].on != 1) continue;             // >1: younger than the events being replayed
        bool found = false; int left = 0;
        if (pressed) { if (memchr(AC[s].keys, code, AC[s].n)) return true; continue; }   // already down as part of a chord
        for (int k = 0; k < AC[s].n; k++) { if (AC[s].keys[k] == code) { AC[s].keys[k] = 0; found = true; } if (AC[s].keys[k]) left++; }
        if (found) { if (!left) event(K_CHORD1 + s, 0, t); return true; }
      }
    switch (C.st) {
    case C_RESOLVING: return false;
    case C_IDLE: {
      C.n = 0; C.has = 0; chord_enqueue(code, pressed, t);
      int r = C.n ? chord_check() : 0;
      if (!r) return false;
      chord_next(r, t); return true; }
    case C_DISAMB:
      if (!code) {
        if (t - C.last < cfg->chord_interkey) return false;
        if (!C.has) { chord_resolve(t); return true; }
        if (cfg->chord_hold > cfg->chord_interkey) { C.st = C_HOLD; lostC = 0; C.due = t + cfg->chord_hold - cfg->chord_interkey; } else chord_resolve(t);
        return true;
      }
      chord_enqueue(code, pressed, t);
      if (!pressed || C.n >= QCAP) { C.has = 0; chord_resolve(t); return true; }
      { int r = chord_check(); if (!r) { C.has = 0; chord_resolve(t); } else chord_next(r, t); }
      return true;
    case C_HOLD:
      if (!code) { if (t - C.last < cfg->chord_hold) return false; chord_resolve(t); return true; }
      chord_enqueue(code, pressed, t);
      if (!pressed) for (int k = 0; k < C.msz; k++) if (C.mkeys[k] == code) { C.has = 0; chord_resolve(t); return true; }
      if (C.n >= QCAP) chord_resolve(t);
      return true;
    }
    return false;
  }
  bool pending_stage(int code, int pressed, long t) {
    if (!P.code) return false;
    if (code) {
      if (!pressed) {
        bool found = false; for (int i = 0; i < P.n; i++) found |= P.q[i].code == code;
        if (!found && code != P.code) return false;      // key struck before the pending one: passes through
      }
      if (P.n >= NQ) { overflow = 1; return true; }
      P.q[P.n++] = {(uint8_t)code, (uint8_t)pressed, t};
    }
    Act a;
    if (t >= P.expire) a = P.a2;
    else if (code == P.code) a = P.a1;
    else if (code && pressed && P.kind == INT_ACTION1) a = P.a1;
    else if (P.kind == UNINT_TAP2 && !pressed && code) for (int i = 0; i < P.n; i++) if (P.q[i].code == code) { a = P.a2; break; }
    if (!a.op && P.n >= QCAP) a = P.a2;        // cannot remember more: decide now
    if (a.op) {
      std::vector<Ev> q(P.q, P.q + P.n); int c = P.code, dl = P.dl;
      P.code = 0; P.n = 0;
      hold(c, a, dl); perform(c, a, dl, 1, t);
      // these events are older than those of a chord which is being decided or held
      int cs = C.st; if (cs != C_IDLE) C.st = C_RESOLVING;
      for (auto &x : AC) if (x.on) x.on++;
      feed(q, t);
      for (auto &x : AC) if (x.on > 1) x.on--;
      if (cs != C_IDLE) C.st = cs;
    }
    return true;
  }
  // the earliest moment after `after` at which something is due even if no key is touched (0: nothing)
  long deadline_after(long after, bool lost = false) const {
    long d = 0; auto add = [&](long x, int l) { if (x > after && (lost || !l) && (!d || x < d)) d = x; };
    if (C.st == C_DISAMB || C.st == C_HOLD) add(C.due, lostC);
    if (P.code) add(P.expire, lostP);
    else {
      if (oneshot_at) add(oneshot_at, lostO);
      if (macro >= 0 && macro_at) add(macro_at, lostM);
    }
    return d;
  }
  void event(int code, int pressed, long t) {
    event1(code, pressed, t);
    lostP |= P.expire <= t; lostC |= C.due <= t; lostO |= oneshot_at <= t; lostM |= macro_at <= t;
  }
  void event1(int code, int pressed, long t) {
    if (chord_stage(code, pressed, t)) return;
    if (pending_stage(code, pressed, t)) return;
    if (oneshot_at && t >= oneshot_at) { clear_oneshot(); mods_for(-1, 0); }
    if (macro >= 0) {
      if (code) { macro = -1; mods_for(-1, 0); }
      else if (macro_at && t >= macro_at) { run_macro(macro_dl, macro); macro_at = t + macro_int; lostM = 0; }
    }
    if (!code) return;
    if (pressed) {
      if (find_held(code)) return;
      Act d; int dl; lookup(code, d, dl);
      if (!hold(code, d, dl)) return;
      perform(code, d, dl, 1, t);
    } else {
      if (code >= K_CHORD1 && code < K_CHORD1 + 3) AC[code - K_CHORD1].on = 0;
      Held *h = find_held(code); if (!h) return;
      Act d = h->act; int dl = h->dl; h->code = 0;
      perform(code, d, dl, 0, t);
    }
  }
  void feed(std::vector<Ev> q, long t) {     // replay delayed events with their own times, and what fell due before t
    if (q.empty() || q.back().t < t) q.push_back({0, 0, t - 1});
    long prev = -1; replayed = true;
    for (auto &e : q) {
      for (long d; prev >= 0 && (d = deadline_after(prev)) && d <= e.t; prev = d) event(0, 0, d);
      event(e.code, e.pressed, e.t); prev = e.t;
    }
  }
};
} // namespace ref
