// Independent reader of keyd configurations, written from docs/keyd.scdoc: the reference for what a
// config text means.  Produces plain data which the reference engine (model.h) interprets.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
enum Op : uint8_t { NONE, KEY, LAYER, ONESHOT, TOGGLE, SWAP, LAYERM, ONESHOTM, TOGGLEM, SWAPM, CLEAR, CLEARM, SETLAYOUT,
  OVERLOAD, OVERLOADT, OVERLOADT2, OVERLOADI, TIMEOUT, MACRO, MACRO2, COMMAND, SCROLL, SCROLLT };
enum { M_ALT = 1, M_META = 2, M_SHIFT = 4, M_CTRL = 8, M_ALTGR = 16 };
enum { K_LCTRL = 29, K_LSHIFT = 42, K_LALT = 56, K_LMETA = 125, K_RALT = 100, K_NOOP = 195, K_EXTMOUSE = 196, K_CHORD1 = 197, K_CANCEL = 223 };
static const struct { uint8_t mask, key; } MODS[5] = {{M_ALT, K_LALT}, {M_ALTGR, K_RALT}, {M_SHIFT, K_LSHIFT}, {M_META, K_LMETA}, {M_CTRL, K_LCTRL}};
inline int is_mod(int code) { for (auto &m : MODS) if (m.key == code) return m.mask; return 0; }

struct Act { uint8_t op = 0, key = 0, mods = 0, pad = 0; int16_t layer = -1, macro = -1, sub1 = -1, sub2 = -1, cmd = -1; int32_t t1 = 0, t2 = 0;
  bool operator==(const Act &o) const { return !memcmp(this, &o, sizeof o); } };
enum { T_KEY, T_HOLD, T_RELEASE, T_UNI, T_WAIT };
struct Tok { uint8_t type, code, mods; int32_t ms; uint8_t seq[4]; bool operator==(const Tok &o) const { return type == o.type && code == o.code && mods == o.mods && ms == o.ms && !memcmp(seq, o.seq, 4); } };
typedef std::vector<Tok> Macro;
struct Chord { std::vector<uint8_t> keys; Act act; };
enum { NORMAL, LAYOUT, COMPOSITE };
struct Layer { std::string name; int type = NORMAL; uint8_t mods = 0; Act map[256]; std::vector<Chord> chords; std::vector<int> cons; };

struct KeyName { std::string name, alt, shifted; };
struct Keys {
  KeyName k[256];
  std::map<std::string, std::pair<int, int>> any;   // every spelling, shifted ones included -> (code, mods)
  std::map<std::string, int> plain;                  // name or alternative name
  void load(const char *path) {
    std::ifstream f(path); std::string l;
    if (!f) { fprintf(stderr, "cannot read %s\n", path); exit(3); }
    while (std::getline(f, l)) {
      std::stringstream ss(l); std::string c, n, a, s; getline(ss, c, '\t'); getline(ss, n, '\t'); getline(ss, a, '\t'); getline(ss, s, '\t');
      int code = atoi(c.c_str());
      if (n == "-NONE-") n = ""; if (a == "-NONE-") a = ""; if (s == "-NONE-") s = "";
      k[code] = {n, a, s};
      if (!n.empty() && !plain.count(n)) plain[n] = code;
      if (!a.empty() && !plain.count(a)) plain[a] = code;
      if (!n.empty() && !any.count(n)) any[n] = {code, 0};
      if (!a.empty() && !any.count(a)) any[a] = {code, 0};
      if (!s.empty() && !any.count(s)) any[s] = {code, M_SHIFT};
    }
  }
};
inline Keys &keys() { static Keys k; return k; }
inline std::string kname(int c) { auto &n = keys().k[c & 255].name; return n.empty() ? "#" + std::to_string(c) : n; }
inline int lookup_key(const std::string &s) { auto i = keys().plain.find(s); return i == keys().plain.end() ? 0 : i->second; }

// codepoint -> the keys that the shipped compose file says spell it
struct Compose {
  std::map<uint32_t, std::vector<uint8_t>> m; bool loaded = false; std::string path = "/repo/data/keyd.compose";
  static bool utf8(const std::string &s, uint32_t &cp) {
    size_t n = s.size(); if (!n) return false; unsigned char c = s[0]; size_t l = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (!l || l != n) return false;
    cp = l == 1 ? c : l == 2 ? c & 31 : l == 3 ? c & 15 : c & 7;
    for (size_t i = 1; i < l; i++) cp = cp << 6 | (s[i] & 63);
    return true;
  }
  void load() {
    if (loaded) return; loaded = true;
    std::ifstream f(path); std::string l;
    while (std::getline(f, l)) {     // <Cancel> <x> <y> <z> : "c"
      std::vector<uint8_t> seq; size_t p = 0; bool ok = true;
      size_t colon = l.find(" : \"");
      if (colon == std::string::npos) continue;
      while ((p = l.find('<', p)) != std::string::npos && p < colon) {
        size_t e = l.find('>', p); std::string t = l.substr(p + 1, e - p - 1);
        if (t == "Cancel") seq.push_back(K_CANCEL); else { int c = lookup_key(t); if (!c) ok = false; seq.push_back(c); }
        p = e;
      }
      size_t q = colon + 4, e = l.rfind('"'); uint32_t cp;
      if (!ok || e == std::string::npos || e < q || !utf8(l.substr(q, e - q), cp)) continue;
      m[cp] = seq;
    }
  }
  const std::vector<uint8_t> *get(uint32_t cp) { load(); auto i = m.find(cp); return i == m.end() ? nullptr : &i->second; }
};
inline Compose &compose() { static Compose c; return c; }

struct Id { std::string id; int flags; };
enum { F_EXCL = 1, F_MOUSE = 2, F_KBD = 4 };
struct Config {
  std::vector<Layer> layers; std::vector<Act> subs; std::vector<Macro> macros; std::vector<std::string> cmds;
  std::string alias[256]; std::vector<Id> ids; bool wildcard = false;
  long macro_timeout = 600, macro_repeat = 50, macro_seq = 0, oneshot_timeout = 0, chord_interkey = 50, chord_hold = 0, overload_tap = 0;
  int layer_indicator = 0, no_guard = 0; std::string default_layout; bool uses_idle = false;
  std::vector<std::string> errors;                   // one per rejected binding/section
  // The tables are append-only, so that what a key chose before a runtime rebinding keeps its meaning; n* count what the limits apply to.
  int nsubs = 0, nmacros = 0, ncmds = 0; bool share = false;
  template <class V, class T> static int put(V &v, const T &x, bool share) { if (share) for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i; v.push_back(x); return v.size() - 1; }
  int put_sub(const Act &a) { nsubs++; return put(subs, a, share); }
  int put_macro(const Macro &m) { nmacros++; return put(macros, m, share); }
  int put_cmd(const std::string &x) { ncmds++; return put(cmds, x, share); }
  int find(const std::string &n) const { for (size_t i = 0; i < layers.size(); i++) if (layers[i].name == n) return i; return -1; }
};

inline bool same(const Config &a, const Config &b) {
  if (a.layers.size() != b.layers.size()) return false;
  for (size_t i = 0; i < a.layers.size(); i++) {
    if (memcmp(a.layers[i].map, b.layers[i].map, sizeof a.layers[i].map)) return false;
    if (a.layers[i].chords.size() != b.layers[i].chords.size()) return false;
    for (size_t j = 0; j < a.layers[i].chords.size(); j++) if (a.layers[i].chords[j].keys != b.layers[i].chords[j].keys || !(a.layers[i].chords[j].act == b.layers[i].chords[j].act)) return false;
  }
  return a.nsubs == b.nsubs && a.nmacros == b.nmacros && a.ncmds == b.ncmds && a.subs == b.subs && a.macros == b.macros && a.cmds == b.cmds;
}
struct Limits { int layers = 32, macros = 256, subs = 1024, cmds = 64, chords = 64, macro_entries = 256, line = 256, exp = 512, name = 64, chord_keys = 8, cons = 8, cmdlen = 256, sections = 32, entries = 1024, ids = 64, idlen = 63; };
static const Limits LIM;

inline bool parse_mods(const std::string &s, uint8_t &m) {    // C-M-..., as in a layer heading
  m = 0; size_t i = 0;
  while (i < s.size()) {
    switch (s[i]) { case 'C': m |= M_CTRL; break; case 'M': m |= M_META; break; case 'A': m |= M_ALT; break; case 'S': m |= M_SHIFT; break; case 'G': m |= M_ALTGR; break; default: return false; }
    if (i + 1 == s.size()) return true;
    if (s[i + 1] != '-') return false;
    i += 2;
  }
  return true;
}
inline bool parse_keyseq(const std::string &s, uint8_t &code, uint8_t &mods) {
  mods = 0; size_t i = 0;
  while (s.size() > i + 1 && s[i + 1] == '-') {
    switch (s[i]) { case 'C': mods |= M_CTRL; break; case 'M': mods |= M_META; break; case 'A': mods |= M_ALT; break; case 'S': mods |= M_SHIFT; break; case 'G': mods |= M_ALTGR; break; default: return false; }
    i += 2;
  }
  auto it = keys().any.find(s.substr(i));
  if (it == keys().any.end()) return false;
  code = it->second.first; mods |= it->second.second;
  return true;
}
inline bool is_timeval(const std::string &s) {
  size_t i = 0; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
  return i > 0 && s.compare(i, 2, "ms") == 0 && (s.size() == i + 2 || s[i + 2] == '\n');   // a line break may follow the unit
}
inline int utf8_at(const std::string &s, size_t i, uint32_t &cp) {  // length of the character at i, 0 at end, -1 if malformed
  if (i >= s.size()) return 0;
  unsigned char c = s[i]; int l = c < 0xC0 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
  if (c >= 0xF8) return -1;
  if (l == 1) { cp = c & 0x7f; return c < 0x80 ? 1 : -1; }
  if (i + l > s.size()) return -1;
  cp = l == 2 ? c & 31 : l == 3 ? c & 15 : c & 7;
  for (int k = 1; k < l; k++) { if ((s[i + k] & 0xC0) != 0x80) return -1; cp = cp << 6 | (s[i + k] & 63); }
  return l;
}
inline std::string unescape(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (i + 1 == s.size()) break;
    char c = s[++i];
    if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == '\\' || c == '(' || c == ')') o += c; else { o += '\\'; o += c; }
  }
  return o;
}
inline std::vector<std::string> split(const std::string &s, char d) {   // like strtok: empty pieces vanish
  std::vector<std::string> v; std::string c;
  for (char x : s) if (x == d) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x;
  if (!c.empty()) v.push_back(c);
  return v;
}
inline bool parse_macro_tokens(const std::string &s, Macro &m, std::string *err = nullptr) {
  m.clear();
  for (auto &tok : split(s, ' ')) {
    uint8_t code, mods;
    if (parse_keyseq(tok, code, mods)) m.push_back({T_KEY, code, mods, 0, {}});
    else if (tok.find('+') != std::string::npos) {
      for (auto &p : split(tok, '+')) {
        if (is_timeval(p)) m.push_back({T_WAIT, 0, 0, (int)(uint16_t)atoi(p.c_str()), {}});
        else if (parse_keyseq(p, code, mods)) m.push_back({T_HOLD, code, 0, 0, {}});
        else { if (err) *err = p + " is not a valid key"; return false; }
      }
      m.push_back({T_RELEASE, 0, 0, 0, {}});
    } else if (is_timeval(tok)) m.push_back({T_WAIT, 0, 0, (int)(uint16_t)atoi(tok.c_str()), {}});
    else {
      uint32_t cp; size_t i = 0; int l;
      while ((l = utf8_at(tok, i, cp))) {
        if (l < 0) { i++; continue; }           // malformed bytes cannot be typed
        if (l == 1) {
          auto it = keys().any.find(std::string(1, (char)cp));
          if (it != keys().any.end()) m.push_back({T_KEY, (uint8_t)it->second.first, (uint8_t)it->second.second, 0, {}});
        } else if (auto *q = compose().get(cp)) {
          Tok t{T_UNI, 0, 0, 0, {}}; for (int j = 0; j < 4 && j < (int)q->size(); j++) t.seq[j] = (*q)[j];
          m.push_back(t);
        }
        i += l;
      }
    }
  }
  if ((int)m.size() > LIM.macro_entries) { if (err) *err = "macro too long"; return false; }
  return true;
}
// 1: a macro; 0: not of macro form; -1: of macro form but invalid
inline int parse_macro_expr(const std::string &s, Macro &m, std::string *err = nullptr) {
  if (s.size() >= 1024) return 0;
  if (s.size() >= 7 && s.compare(0, 6, "macro(") == 0 && s.back() == ')') return parse_macro_tokens(unescape(s.substr(6, s.size() - 7)), m, err) ? 1 : -1;
  uint8_t c, mo; uint32_t cp;
  int l = utf8_at(s, 0, cp); if (l < 0) l = 1;
  if (!parse_keyseq(s, c, mo) && !(l > 0 && (size_t)l == s.size())) return 0;
  return parse_macro_tokens(s, m, err) ? 1 : -1;
}
inline bool parse_call(const std::string &s, std::string &fn, std::vector<std::string> &args) {
  size_t p = s.find('('); if (p == std::string::npos) return false;
  fn = s.substr(0, p); args.clear(); p++;
  while (p < s.size() && s[p] == ' ') p++;
  int depth = 0; std::string cur;
  for (; p < s.size(); p++) {
    char c = s[p];
    if (c == '\\' && p + 1 < s.size()) { cur += c; cur += s[++p]; continue; }
    if (c == '(') depth++;
    if (c == ')' && --depth < 0) { if (!cur.empty()) args.push_back(cur); return args.size() <= 5; }
    if (c == ',' && depth == 0) { if (!cur.empty()) args.push_back(cur); cur.clear(); while (p + 1 < s.size() && s[p + 1] == ' ') p++; continue; }
    cur += c;
  }
  return false;
}
enum ArgT { A_END, A_LAYER, A_LAYOUT, A_MACRO, A_ACT, A_TIME, A_SENS };
struct FnDef { const char *name; Op op; ArgT a[3]; };
static const FnDef FNS[] = {
  {"layer", LAYER, {A_LAYER}}, {"oneshot", ONESHOT, {A_LAYER}}, {"toggle", TOGGLE, {A_LAYER}}, {"swap", SWAP, {A_LAYER}},
  {"layerm", LAYERM, {A_LAYER, A_MACRO}}, {"oneshotm", ONESHOTM, {A_LAYER, A_MACRO}}, {"togglem", TOGGLEM, {A_LAYER, A_MACRO}}, {"swapm", SWAPM, {A_LAYER, A_MACRO}},
  {"toggle2", TOGGLEM, {A_LAYER, A_MACRO}}, {"swap2", SWAPM, {A_LAYER, A_MACRO}},
  {"clear", CLEAR, {}}, {"clearm", CLEARM, {A_MACRO}}, {"setlayout", SETLAYOUT, {A_LAYOUT}},
  {"overload", OVERLOAD, {A_LAYER, A_ACT}}, {"overloadt", OVERLOADT, {A_LAYER, A_ACT, A_TIME}}, {"overloadt2", OVERLOADT2, {A_LAYER, A_ACT, A_TIME}},
  {"overload2", OVERLOADT, {A_LAYER, A_ACT, A_TIME}}, {"overload3", OVERLOADT2, {A_LAYER, A_ACT, A_TIME}},
  {"overloadi", OVERLOADI, {A_ACT, A_ACT, A_TIME}}, {"timeout", TIMEOUT, {A_ACT, A_TIME, A_ACT}}, {"macro2", MACRO2, {A_TIME, A_TIME, A_MACRO}},
  {"scroll", SCROLL, {A_SENS}}, {"scrollt", SCROLLT, {A_SENS}},
};
inline bool parse_action(const std::string &s, Act &d, Config &c, std::string &err) {
  d = Act();
  if (s.empty()) return true;                         // explicit "no binding"
  uint8_t code, mods;
  if (parse_keyseq(s, code, mods)) {
    const char *l = code == K_LSHIFT ? "shift" : code == K_LCTRL ? "control" : code == K_LMETA ? "meta" : code == K_LALT ? "alt" : code == K_RALT ? "altgr" : nullptr;
    if (l) { d.op = LAYER; d.layer = c.find(l); return true; }
    d.op = KEY; d.key = code; d.mods = mods; return true;
  }
  if (s.size() >= 9 && s.compare(0, 8, "command(") == 0 && s.back() == ')') {
    if ((int)s.size() > LIM.cmdlen) { err = "max command length"; return false; }
    if (c.ncmds >= LIM.cmds) { err = "max commands"; return false; }
    d.op = COMMAND; d.cmd = c.put_cmd(unescape(s.substr(8, s.size() - 9))); return true;
  }
  Macro m;
  int r = parse_macro_expr(s, m, &err);
  if (r < 0) return false;
  if (r == 1) {
    if (c.nmacros >= LIM.macros) { err = "max macros"; return false; }
    d.op = MACRO; d.macro = c.put_macro(m); return true;
  }
  std::string fn; std::vector<std::string> a;
  if (!parse_call(s, fn, a)) { err = "invalid key or action"; return false; }
  if (fn == "lettermod") {
    if (a.size() != 4) { err = "lettermod requires 4 arguments"; return false; }
    return parse_action("overloadi(" + a[1] + ", overloadt2(" + a[0] + ", " + a[1] + ", " + a[3] + "), " + a[2] + ")", d, c, err);
  }
  for (auto &f : FNS) {
    if (fn != f.name) continue;
    size_t n = 0; while (n < 3 && f.a[n] != A_END) n++;
    if (a.size() != n) { err = fn + " requires a different number of arguments"; return false; }
    d.op = f.op; int nt = 0;
    for (int j = (int)n - 1; j >= 0; j--) {
      switch (f.a[j]) {
      case A_LAYER: {
        int i = c.find(a[j]);
        if (a[j] == "main" || i < 0 || c.layers[i].type == LAYOUT) { err = a[j] + " is not a valid layer"; return false; }
        d.layer = i; break; }
      case A_LAYOUT: {
        int i = c.find(a[j]);
        if (i < 0 || (i != 0 && c.layers[i].type != LAYOUT)) { err = a[j] + " is not a valid layout"; return false; }
        d.layer = i; break; }
      case A_ACT: {
        Act sub; if (!parse_action(a[j], sub, c, err)) return false;
        if (c.nsubs >= LIM.subs) { err = "maximum descriptors exceeded"; return false; }
        (j == 0 && f.op != OVERLOAD ? d.sub1 : f.op == TIMEOUT || f.op == OVERLOADI ? d.sub2 : d.sub1) = c.put_sub(sub); break; }
      case A_MACRO: {
        Macro mm; if (c.nmacros >= LIM.macros) { err = "max macros"; return false; }
        if (parse_macro_expr(a[j], mm, &err) != 1) { err = "invalid macro"; return false; }
        d.macro = c.put_macro(mm); break; }
      case A_TIME: case A_SENS: { int v = atoi(a[j].c_str()); v = f.a[j] == A_TIME ? (uint16_t)v : (int16_t)v; if (f.op == MACRO2 && j == 1) d.t2 = v; else d.t1 = v; nt++; break; }
      default: break;
      }
    }
    return true;
  }
  err = "invalid key or action";
  return false;
}
// "key = value" -> false if there is no '='
inline bool split_kv(const std::string &s, std::string &k, std::string &v) {
  size_t i = s.size() && s[0] == '=' ? 1 : 0; size_t e = s.find('=', i);
  if (e == std::string::npos) { k = s; v = ""; return false; }
  k = s.substr(0, e); while (k.size() && (k.back() == ' ' || k.back() == '\t')) k.pop_back();
  size_t b = e + 1; while (b < s.size() && (s[b] == ' ' || s[b] == '\t')) b++;
  v = s.substr(b); return true;
}
inline bool bind_key(Config &c, int layer, const std::string &key, const Act &d, std::string &err) {
  Layer &l = c.layers[layer];
  if (key.find('+') != std::string::npos) {
    std::vector<uint8_t> ks;
    for (auto &t : split(key, '+')) {
      int code = lookup_key(t); if (!code) { err = t + " is not a valid key"; return false; }
      if ((int)ks.size() >= LIM.chord_keys) { err = "chords cannot contain more keys"; return false; }
      ks.push_back(code);
    }
    if (ks.empty()) { err = key + " is not a valid key or alias"; return false; }
    for (auto &ch : l.chords) {
      bool same = ch.keys.size() == ks.size();
      for (auto k : ks) { bool f = false; for (auto q : ch.keys) f |= q == k; same &= f; }
      if (same) { ch.act = d; return true; }
    }
    if ((int)l.chords.size() >= LIM.chords) { err = "max chords exceeded"; return false; }
    l.chords.push_back({ks, d}); return true;
  }
  if (key.empty()) { err = "empty key"; return false; }
  bool found = false;
  for (int i = 0; i < 256; i++) if (c.alias[i] == key) { l.map[i] = d; found = true; }
  if (found) return true;
  int code = lookup_key(key); if (!code) { err = key + " is not a valid key or alias"; return false; }
  l.map[code] = d; return true;
}
// [<layer>.]<key> = <action>
inline bool add_entry(Config &c, const std::string &exp, std::string &err) {
  if ((int)exp.size() >= LIM.exp) { err = "expression too long"; return false; }
  std::string layer = "main", s = exp, k, v;
  size_t dot = s.find('.'), par = s.find('(');
  if (dot != std::string::npos && dot != 0 && (par == std::string::npos || dot < par)) { layer = s.substr(0, dot); s = s.substr(dot + 1); }
  split_kv(s, k, v);
  int li = c.find(layer);
  if (li < 0) { err = layer + " is not a valid layer"; return false; }
  Act d; size_t nm = c.macros.size(), ns = c.subs.size(), nc = c.cmds.size(); int km = c.nmacros, ks = c.nsubs, kc = c.ncmds;
  if (parse_action(v, d, c, err) && bind_key(c, li, k, d, err)) return true;
  c.macros.resize(nm); c.subs.resize(ns); c.cmds.resize(nc); c.nmacros = km; c.nsubs = ks; c.ncmds = kc;      // a rejected binding uses up nothing
  return false;
}
struct Sect { std::string name; std::vector<std::pair<std::string, std::pair<bool, std::string>>> ents; std::vector<int> lnums; };
inline bool parse_ini(const std::string &text, std::vector<Sect> &out) {
  size_t p = 0; int ln = 0; bool skip = false;
  while (p <= text.size()) {
    size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
    std::string l = text.substr(p, e - p); p = e + 1; ln++;
    size_t b = 0; while (b < l.size() && isspace((unsigned char)l[b])) b++;
    l = l.substr(b); while (l.size() && isspace((unsigned char)l.back())) l.pop_back();
    if (l.empty()) continue;
    if (l[0] == '[' && l.back() == ']') { skip = (int)out.size() >= LIM.sections; if (!skip) out.push_back({l.substr(1, l.size() - 2), {}, {}}); continue; }
    if (l[0] == '#') continue;
    if (out.empty()) return false;
    if (skip || (int)out.back().ents.size() >= LIM.entries) continue;
    std::string k, v; bool has = split_kv(l, k, v);
    out.back().ents.push_back({k, {has, v}}); out.back().lnums.push_back(ln);
  }
  return true;
}
inline bool load_text(Config &c, const std::string &text) {
  std::vector<Sect> ss;
  if (!parse_ini(text, ss)) return false;
  for (auto &s : ss) {
    if (s.name == "ids") {
      for (auto &e : s.ents) {
        std::string n = e.first;
        if (n == "*") c.wildcard = true;
        else if ((int)c.ids.size() >= LIM.ids) continue;
        else if (n.compare(0, 2, "m:") == 0) c.ids.push_back({n.substr(2, LIM.idlen), F_MOUSE});
        else if (n.compare(0, 2, "k:") == 0) c.ids.push_back({n.substr(2, LIM.idlen), F_KBD});
        else if (n.compare(0, 1, "-") == 0) c.ids.push_back({n.substr(1, LIM.idlen), F_EXCL});
        else if ((int)n.size() < LIM.idlen) c.ids.push_back({n, F_KBD | F_MOUSE});
      }
    } else if (s.name == "aliases") {
      for (auto &e : s.ents) {
        int code = lookup_key(e.first); std::string name = e.second.second;
        if (!e.second.first) continue;
        if (!code || name.size() >= 32) continue;
        int ac = lookup_key(name);
        if (ac) { Act &a = c.layers[0].map[code]; a = Act(); a.op = KEY; a.key = ac; }
        c.alias[code] = name;
      }
    } else if (s.name == "global") {
      for (auto &e : s.ents) {
        int v = atoi(e.second.second.c_str()); const std::string &k = e.first;
        if (!e.second.first) { c.errors.push_back("missing value"); continue; }
        if (k == "macro_timeout") c.macro_timeout = v; else if (k == "macro_sequence_timeout") c.macro_seq = v;
        else if (k == "disable_modifier_guard") c.no_guard = v; else if (k == "oneshot_timeout") c.oneshot_timeout = v;
        else if (k == "chord_hold_timeout") c.chord_hold = v; else if (k == "chord_timeout") c.chord_interkey = v;
        else if (k == "default_layout") c.default_layout = e.second.second.substr(0, LIM.name); else if (k == "macro_repeat_timeout") c.macro_repeat = v;
        else if (k == "layer_indicator") c.layer_indicator = v; else if (k == "overload_tap_timeout") c.overload_tap = v;
        else c.errors.push_back(k + " is not a valid global option");
      }
    } else {
      if ((int)s.name.size() > LIM.name) { c.errors.push_back("section name too long"); continue; }
      auto parts = split(s.name, ':');
      if (parts.empty()) { c.errors.push_back("empty section name"); continue; }
      if (c.find(parts[0]) >= 0) continue;
      if ((int)c.layers.size() >= LIM.layers) { c.errors.push_back("max layers exceeded"); continue; }
      Layer l; l.name = parts[0]; bool ok = true;
      if (l.name.find('+') != std::string::npos) {
        l.type = COMPOSITE;
        if (parts.size() > 1) { c.errors.push_back("composite layers cannot have a type"); continue; }
        for (auto &n : split(l.name, '+')) { int i = c.find(n); if (i < 0 || (int)l.cons.size() >= LIM.cons) { c.errors.push_back("bad composite"); ok = false; break; } l.cons.push_back(i); }
        if (!ok) continue;
      } else if (parts.size() > 1 && parts[1] == "layout") l.type = LAYOUT;
      else if (parts.size() > 1 && !parse_mods(parts[1], l.mods)) l.mods = 0;
      c.layers.push_back(l);
    }
  }
  for (auto &s : ss) {
    if (s.name == "ids" || s.name == "aliases" || s.name == "global") continue;
    auto parts = split(s.name, ':'); if (parts.empty()) continue;
    for (size_t i = 0; i < s.ents.size(); i++) {
      auto &e = s.ents[i]; std::string err;
      if (!e.second.first) { c.errors.push_back("invalid binding on line " + std::to_string(s.lnums[i])); continue; }
      std::string x = parts[0] + "." + e.first + " = " + e.second.second;
      if ((int)x.size() >= LIM.exp) x = x.substr(0, LIM.exp - 1);
      if (!add_entry(c, x, err)) c.errors.push_back("line " + std::to_string(s.lnums[i]) + ": " + err);
    }
  }
  return true;
}
inline bool load(Config &c, const std::string &text) {
  static Config base;
  if (base.layers.empty()) load_text(base, "[aliases]\nleftshift = shift\nrightshift = shift\nleftalt = alt\nrightalt = altgr\nleftmeta = meta\nrightmeta = meta\n"
    "leftcontrol = control\nrightcontrol = control\n[main:layout]\nshift = layer(shift)\nalt = layer(alt)\naltgr = layer(altgr)\nmeta = layer(meta)\n"
    "control = layer(control)\n[control:C]\n[shift:S]\n[meta:M]\n[alt:A]\n[altgr:G]\n");
  c = base;
  bool ok = load_text(c, text);
  for (auto &l : c.layers) for (auto &a : l.map) if (a.op == OVERLOADI) c.uses_idle = true;
  for (auto &l : c.layers) for (auto &a : l.chords) if (a.act.op == OVERLOADI) c.uses_idle = true;
  for (auto &a : c.subs) if (a.op == OVERLOADI) c.uses_idle = true;
  return ok;
}
// the text of a file with the included ones in place; ok is false if the file cannot be used at all
inline std::string expand(const std::map<std::string, std::string> &fs, const std::string &path, const std::string &datadir, bool &ok, size_t max = 65536) {
  std::string out; auto it = fs.find(path); ok = it != fs.end(); if (!ok) return "";
  const std::string &t = it->second; size_t p = 0; std::string dir = path.substr(0, path.rfind('/'));
  while (p < t.size()) {
    size_t e = t.find('\n', p); bool nl = e != std::string::npos; std::string l = t.substr(p, nl ? e - p : std::string::npos); p = nl ? e + 1 : t.size();
    if (l.size() > 255) { ok = false; return ""; }
    if (out.size() + l.size() + 1 >= max) { ok = false; return ""; }
    if (l.compare(0, 8, "include ") == 0) {
      std::string n = l.substr(8); size_t b = 0; while (b < n.size() && n[b] == ' ') b++; n = n.substr(b);
      if (n.find('.') != std::string::npos) continue;
      auto f = fs.find(dir + "/" + n); if (f == fs.end()) f = fs.find(datadir + "/" + n);
      if (f == fs.end()) continue;
      out += f->second.substr(0, max - 1 - out.size());
      if (!out.empty() && out.back() != '\n' && out.size() < max - 1) out += '\n';
    } else out += l + "\n";
  }
  return out;
}
} // namespace ref
