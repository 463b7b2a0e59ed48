// Exhaustive enumeration of configuration texts, expressions and file system states: each is loaded by the real
// config.c / ini.c / macro.c / keys.c / string.c (address and bounds checked) and by the independent reader
// engine/conf.h, and the two results are compared entry by entry.
#include <dirent.h>
#include "conf.h"
#include "penv.h"
#include <algorithm>
#include <cstdarg>
#include <functional>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" { const char *pg_dump(void *, size_t *); void *pg_new(); void pg_copy(void *, void *); void pg_poison(void *); int pg_parse(void *, const char *); int pg_add(void *, const char *); int pg_match(void *, const char *, int, int);
int pg_keyseq(const char *, uint8_t *, uint8_t *); const char *pg_err(); const char *pg_name(int);
void __asan_set_error_report_callback(void (*)(const char *)); const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1"; } }
typedef std::string str; typedef std::vector<str> strs;
struct Item { std::map<str, str> fs; strs adds; str key, id, label; int kind = 0, kbd = 0, mouse = 0, open_fails = 0, read_fails = -1, shr = 0; bool crash_only = false, clean = false; };
enum { LOAD, ADD, KEY, MATCH };
struct Space { str name; uint64_t n; std::function<void(uint64_t, Item &)> get; };
static std::vector<Space> spaces; static int tier;
static const char *CONF = "/etc/keyd/t.conf"; static const char *BASE = "[main]\na = b\n[nav]\n[sy:C]\n[lay:layout]\n[nav+sy]\n[aliases]\nz = al\n";

#include "dump.h"
static str esc(const str &s) { str o; char b[8]; for (unsigned char c : s) if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return o; }

// ---------------------------------------------------------------- checking one item
static void *cfg, *basecfg; static ref::Config rbase; static uint64_t hashes; static std::set<uint64_t> seen;
static str diff(const str &a, const str &b) {      // first line that differs
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i ? a.rfind('\n', i - 1) : str::npos; s = s == str::npos ? 0 : s + 1;
  auto line = [&](const str &x) { return s >= x.size() ? str("(end)") : x.substr(s, x.find('\n', s) == str::npos ? str::npos : x.find('\n', s) - s); };
  return "loaded: \"" + esc(line(a)).substr(0, 300) + "\"  documented: \"" + esc(line(b)).substr(0, 300) + "\"";
}
static const char *KEYFILE;
static str check(const Item &it) {
  penv::fs = it.fs; penv::log.clear(); penv::nlog = 0; penv::open_fails = it.open_fails; penv::read_fails_after = it.read_fails; penv::short_read = it.shr; penv::reset_files();
  if (it.kind == KEY) {
    uint8_t c = 0, m = 0, rc = 0, rm = 0; int r = pg_keyseq(it.key.c_str(), &c, &m); bool ok = ref::parse_keyseq(it.key, rc, rm);
    if ((r == 0) != ok) return "\"" + esc(it.key) + "\" is " + (r == 0 ? "accepted" : "rejected") + " as a key sequence";
    if (ok && (c != rc || m != rm)) return "\"" + esc(it.key) + "\" is read as key " + std::to_string(c) + " modifiers " + std::to_string(m) + ", should be key " + std::to_string(rc) + " modifiers " + std::to_string(rm);
    if (seen.size() < 2000000) seen.insert(r == 0 ? c << 8 | m : 1 << 20); return "";
  }
  ref::Config rc; int r; static str rd;
  if (it.kind == LOAD || it.kind == MATCH) {
    pg_poison(cfg);
    r = pg_parse(cfg, CONF); bool ok; 
    std::map<str, str> fs = it.fs; if (it.open_fails) for (auto &f : fs) if (f.first != CONF) { f.second = ""; }
    str t = ref::expand(fs, CONF, "/usr/share/keyd", ok); if (ok && !it.crash_only) ok = ref::load(rc, t.c_str());
    if (int n = penv::open_files()) return std::to_string(n) + " file(s) left open";
    if (it.crash_only) return "";
    if ((r >= 0) != ok) return str("the file is ") + (r >= 0 ? "accepted" : "rejected") + ", it should " + (ok ? "not be" : "be rejected");
    if (!ok) { seen.insert(0); return ""; }
  } else { pg_copy(cfg, basecfg); rc = rbase; r = 0; }
  auto cmp = [&]() -> str {
    size_t n; const char *d = pg_dump(cfg, &n); rdump(rd, rc);
    if (seen.size() < 2000000) seen.insert(std::hash<str>()(rd));
    if (rd.size() != n || memcmp(rd.data(), d, n)) return diff(str(d, n), rd);
    return "";
  };
  if (it.kind == MATCH) {
    for (int k = 0; k < 2; k++) {
      int g = pg_match(cfg, it.id.c_str(), k == 0, k == 1), e = rc.wildcard ? 1 : 0;
      for (auto &i : rc.ids) if (it.id.compare(0, i.id.size(), i.id) == 0) { if (i.flags & ref::F_EXCL) { e = 0; break; } if (i.flags & (k == 0 ? ref::F_KBD : ref::F_MOUSE)) { e = 2; break; } }
      if (g != e) return str(k == 0 ? "keyboard " : "mouse ") + it.id + ": match " + std::to_string(g) + ", should be " + std::to_string(e);
      if (seen.size() < 2000000) seen.insert(std::hash<str>()(it.fs.at(CONF) + "|" + it.id) * 31 + k * 3 + g);
    }
    return "";
  }
  if (it.kind == LOAD) {
    str x = cmp(); if (!x.empty()) return x;
    if (it.clean && (rc.errors.size() || penv::log.find("line ") != str::npos)) return "a file that comes with keyd is not accepted in full: " + it.label + (rc.errors.size() ? rc.errors[0] : penv::log);
    if (penv::nlog < rc.errors.size()) return "only " + std::to_string(penv::nlog) + " messages for " + std::to_string(rc.errors.size()) + " invalid lines (" + rc.errors[0] + ")";
  }
  for (auto &a : it.adds) {
    str err; r = pg_add(cfg, a.c_str()); bool ok = ref::add_entry(rc, a, err);
    if ((r >= 0) != ok) return "\"" + esc(a).substr(0, 300) + "\" is " + (r >= 0 ? "accepted" : str("rejected (") + pg_err() + ")") + ", should be " + (ok ? "accepted" : "rejected: " + err);
    if (!ok && !pg_err()[0]) return "\"" + esc(a) + "\" is rejected without a message";
  }
  if (!it.adds.empty()) return cmp();
  return "";
}

// ---------------------------------------------------------------- spaces
static uint64_t pw(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }
static void load(Item &i, const str &t) { i.kind = LOAD; i.fs[CONF] = t; }
// all strings of length lo..hi over an alphabet, put into each context (the text with \x01 replaced)
static void strings(const str &name, const strs &alpha, int lo, int hi, const strs &ctx, std::function<void(Item &, const str &)> f) {
  uint64_t per = 0; for (int l = lo; l <= hi; l++) per += pw(alpha.size(), l);
  spaces.push_back({name, per * ctx.size(), [=](uint64_t i, Item &it) {
    str c = ctx[i % ctx.size()]; i /= ctx.size(); int l = lo; while (i >= pw(alpha.size(), l)) i -= pw(alpha.size(), l++);
    str s; for (int k = 0; k < l; k++) { s += alpha[i % alpha.size()]; i /= alpha.size(); }
    for (size_t p; (p = c.find('\1')) != str::npos;) c.replace(p, 1, s); f(it, c); }});
}
static strs chars(const str &s) { strs v; for (char c : s) v.push_back(str(1, c)); return v; }
static void product(const str &name, std::vector<strs> parts, std::function<void(Item &, const strs &)> f) {
  uint64_t n = 1; for (auto &p : parts) n *= p.size();
  spaces.push_back({name, n, [=](uint64_t i, Item &it) { strs v; for (auto &p : parts) { v.push_back(p[i % p.size()]); i /= p.size(); } f(it, v); }});
}
static void list(const str &name, std::vector<Item> v) { spaces.push_back({name, v.size(), [=](uint64_t i, Item &it) { it = v[i]; }}); }
static str join(const strs &v, const str &d) { str o; for (size_t i = 0; i < v.size(); i++) o += (i ? d : "") + v[i]; return o; }
static str rep(const str &s, int n) { str o; while (n-- > 0) o += s; return o; }

static const strs HEADERS = {"[main]", "[nav]", "[nav:C]", "[sy:C-S]", "[nav:layout]", "[nav+shift]", "[nav+sy]", "[sy+nav]", "[control]", "[ids]", "[global]", "[aliases]", "[nav:X]", "[:C]", "[]", "[nav+q]", "[nav+shift:C]", "[lay:layout]"};
static const strs BODY = {"a = b", "a = C-b", "a = B", "a = layer(nav)", "a = overload(sy, x)", "a = macro(x y)", "a+b = c", "b+a = d", "shift = x", "k1 = y", "= = minus", "a =", "# a = c", "  \tb =c  ", "a =b # c", "leftshift = z", "nav.a = 1", "[ = ]",
  "a = setlayout(lay)", "a", "b = k1", "a = shift", "a = k1", "a+k1 = x", "macro_timeout = 5", "default_layout = lay", "chord_timeout = 7", "*", "0123:4567", "-0123", "k:01:ab", "m:01", "a+a = e", "nav+shift = x", "a = lettermod(nav, b, 10, 20)", "\\ = x"};
static str slurp(const str &p) { str t; char b[4096]; size_t n; FILE *f = fopen(p.c_str(), "r"); if (!f) return t; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); return t; }
static strs listing(const str &d) { strs v; if (DIR *h = opendir(d.c_str())) { while (auto e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); } std::sort(v.begin(), v.end()); return v; }
// the layouts and examples that come with keyd
static void shipped() {
  const char *repo = getenv("REPO_DIR"); if (!repo) return;
  strs lay, names; for (auto &n : listing(str(repo) + "/layouts")) { lay.push_back(slurp(str(repo) + "/layouts/" + n)); names.push_back(n); }
  strs at; for (size_t i = 0; i < lay.size(); i++) at.push_back(std::to_string(i)); if (at.empty()) return;
  product("layouts", {at, {"[ids]\n*\n[global]\ndefault_layout = \1\n[main]\ncapslock = esc\ninclude layouts/\1\n", "include layouts/\1\n[main]\na = setlayout(\1)\nb = x\n", "[\1:layout]\na = 1\n[\1+shift]\n[main]\ninclude layouts/\1\n[\1]\nb = 2\n", "include layouts/\1\ninclude layouts/\1\n"}, {"/etc/keyd/", "/usr/share/keyd/"}, {"0", "511"}}, [=](Item &i, const strs &v) {
    size_t k = atoi(v[0].c_str()); str t = v[1]; for (size_t p; (p = t.find('\1')) != str::npos;) t.replace(p, 1, names[k]); load(i, t); i.fs[v[2] + "layouts/" + names[k]] = lay[k]; i.shr = atoi(v[3].c_str()); i.clean = v[1].find("include") == v[1].rfind("include"); });
  strs ex, en; for (auto &n : listing(str(repo) + "/examples")) { ex.push_back(std::to_string(en.size())); en.push_back(n); } if (ex.empty()) return;
  strs et; for (auto &n : en) et.push_back(slurp(str(repo) + "/examples/" + n));
  product("examples", {ex, {"", "[main]\nq = w\n"}}, [=](Item &i, const strs &v) { int k = atoi(v[0].c_str()); load(i, et[k] + v[1]); i.clean = true; i.label = "examples/" + en[k] + ": "; });
}
static void f01() {
  shipped();
  strs all = HEADERS; all.insert(all.end(), BODY.begin(), BODY.end());
  auto go = [](Item &i, const strs &v) { load(i, join(v, "\n") + "\n"); };
  product("lines-3", {HEADERS, all, all}, go);
  // two sections with one line each, in every combination
  product("sections-2x1", {HEADERS, BODY, HEADERS, BODY}, go);
  if (tier) { product("lines-4", {HEADERS, all, all, all}, go); }
  // layers, composites and types defined in every order, then used
  strs defs = {"[one]", "[one:C]", "[two:S-A]", "[lay:layout]", "[one+two]", "[two+one]", "[one+control]", "[one+lay]", "[one+two+shift]", "[main:C]", "[shift]", "[one:layout]", "[lay:layout:C]", "[one:C:A]", "[two::S]", "[:one:C]"};
  product("definitions", {defs, defs, defs, tier ? defs : strs{"[three]"}, {"a = layer(one)\nb = layer(two)\nc = layer(lay)\nd = setlayout(lay)\ne = layer(one+two)\nf = setlayout(one)"}},
          [](Item &i, const strs &v) { load(i, v[0] + "\na = 1\n" + v[1] + "\na = 2\n" + v[2] + "\na = 3\n" + v[3] + "\na = 4\n[main]\n" + v[4] + "\n"); });
  // what a composite layer may consist of
  strs cons = {"main", "one", "two", "lay", "shift", "control", "one+two", "nope", "", "+"};
  product("constituents", {cons, cons, cons, {"[\1]", "[main]\n[\1:C]", "[\1:layout]"}}, [](Item &i, const strs &v) { str n = v[0]; for (int k = 1; k < 3; k++) if (v[k] != "+") n += "+" + v[k]; str h = v[3]; h.replace(h.find('\1'), 1, n); load(i, "[one]\n[two:M]\n[lay:layout]\n[one+two]\n" + h + "\na = b\n[main]\nx = y\n"); });
  strs opts = {"macro_timeout", "macro_sequence_timeout", "disable_modifier_guard", "oneshot_timeout", "chord_hold_timeout", "chord_timeout", "default_layout", "macro_repeat_timeout", "layer_indicator", "overload_tap_timeout", "bogus"};
  strs vals = {" = 0", " = 1", "=1", " =", "", " = x", " = 1x", "\t=\t1", " = 01"};
  product("options", {opts, vals, opts, vals, {"[global]", "[global]\n#", "[main]\na = b\n[global]"}}, [](Item &i, const strs &v) { load(i, v[4] + "\n" + v[0] + v[1] + "\n" + v[2] + v[3]); });
  strs big = {" = 65535", " = 70000", " = 2147483647"}, bigopts = {"macro_timeout", "macro_sequence_timeout", "oneshot_timeout", "chord_hold_timeout", "chord_timeout", "macro_repeat_timeout", "overload_tap_timeout"};
  product("big-options", {bigopts, big}, [](Item &i, const strs &v) { load(i, "[global]\n" + v[0] + v[1]); });
  // aliases: what is bound through them, for several keys of the same name and names of keys
  strs al = {"a = x1", "b = x1", "a = b", "a = shift", "leftshift = shift", "leftshift = x1", "b = a", "a = x+y", "C-a = x1", "x1 = a", "a = leftmeta", "capslock = control"};
  strs use = {"x1 = y", "b = y", "a = y", "shift = y", "leftshift = y", "x1+c = y", "a = x1", "control = y"};
  product("aliases", {al, al, use, use, {"[aliases]\n\1[main]\n\2", "[main]\n\2[aliases]\n\1", "[nav]\n\2[aliases]\n\1"}}, [](Item &i, const strs &v) {
    str t = v[4], a = v[0] + "\n" + v[1] + "\n", b = v[2] + "\n" + v[3] + "\n"; t.replace(t.find('\1'), 1, a); t.replace(t.find('\2'), 1, b); load(i, t); });
  // chords: the keys in any order name the same chord, a part of them another
  strs ch = {"a+b", "b+a", "a+b+c", "c+b+a", "b+c", "a+a", "a+b+c+d+e", "e+d+c+b+a", "a+b+c+d+f", "a+b+c+d+e+f+g+h", "h+g+f+e+d+c+b+a", "a+b+c+d+e+f+g+i", "shift+a", "leftshift+a", "a", "A+b", "esc+escape", "mute+wlan+unknown+micmute+leftmouse+fn+kp0+zoom"};
  product("chords", {ch, ch, ch, {"[main]", "[nav]", "[nav]\n[main]\na+b+c = q\n[nav]", "[one+two]"}}, [](Item &i, const strs &v) { load(i, "[one]\n[two]\n" + v[3] + "\n" + v[0] + " = x\n" + v[1] + " = y\n" + v[2] + " = z\n"); });
  // white space, comments and line ends around every part of a line
  strs ws = {"", " ", "\t", "  ", " \t"}, ends = {"", "\n", "\r\n", " \n", "\n\n", "\n#x\n"};
  product("white-space", {ws, {"a", "=", "[", "a+b", "C-a", "shift"}, ws, ws, {"b", "=", "a=b", "macro(a b)", "layer( nav)", "overload(nav,  x)", "", "#", "]"}, ws, ends}, [](Item &i, const strs &v) { load(i, "[nav]\n[main]" + v[0] + v[6] + "\n" + v[0] + v[1] + v[2] + "=" + v[3] + v[4] + v[5] + v[6]); });
  // every key on the left and on the right, by each of its names, in main and in another layer
  strs names; for (int i = 0; i < 256; i++) for (auto &n : {ref::keys().k[i].name, ref::keys().k[i].alt, ref::keys().k[i].shifted}) if (!n.empty()) names.push_back(n);
  product("keys-left", {names, {"[main]\n\1 = x\n", "[nav]\n\1 = C-x\n", "[nav]\n\1+a = x\n", "[nav]\n\1 = x\n\1 = y\n", "[aliases]\n\1 = q1\n[main]\nq1 = x"}}, [](Item &i, const strs &v) { str t = v[1]; for (size_t p; (p = t.find('\1')) != str::npos;) t.replace(p, 1, v[0]); load(i, t); });
  product("keys-right", {names, {"[main]\na = \1\n", "[nav]\na = C-M-\1\n", "[nav]\na+b = \1\n", "[main]\na = macro(\1 C-\1 \1+x)\n", "[main]\na = overload(shift, \1)\n", "[aliases]\na = \1\n"}}, [](Item &i, const strs &v) { str t = v[1]; for (size_t p; (p = t.find('\1')) != str::npos;) t.replace(p, 1, v[0]); load(i, t); });
}
static const char *RICH = "# a comment\n[ids]\n*\n-0123:4567\n[global]\nmacro_timeout = 5\ndefault_layout = lay\n[aliases]\nz = al\n[lay:layout]\na = b\n[nav:C]\nh = left\nal = x\n[nav+shift]\na = macro(C-x 5ms a+b \xc3\xa9 hi)\n[main]\ncapslock = overload(nav, esc)\n"
  "a+b = oneshot(shift)\nc = overloadt(nav, timeout(x, 20, y), 30)\nd = command(echo \\(1\\))\n= = lettermod(nav, d, 10, 20)\n/ = layerm(nav, macro(x))\n. = setlayout(lay)\ne = scroll(3)\n";
static void f02() {
  strs al = chars("aC-+=[]#:.,()\\ \n1"); al.push_back("\xc3");
  auto go = [](Item &i, const str &t) { load(i, t); };
  strs ctx = {"\1", "[main]\na = \1\nc = d\n", "[main]\n\1\nc = d\n", "[main]\nc = d\n\1", "[\1]\na = b\n[main]\nc = d\n"};
  strings("structure", al, 0, tier ? 5 : 4, {ctx.begin(), ctx.begin() + (tier ? 5 : 5)}, go);
  // inside actions
  strs al2 = {"(", ")", ",", "\\", " ", "a", "macro(", "overload(", "nav", "1"};
  strings("actions", al2, 0, tier ? 7 : 5, {"[nav]\n[main]\na = overload(\1\nc = d\n", "[nav]\n[main]\na = \1\nc = d\n", "[nav]\n[main]\na = macro(\1\nc = d\n"}, go);
  // every byte in every position of a few short lines
  strs lines = {"[main]", "a = b", "[nav:C]", "a+b = c", "a = macro(x y)", "a = layer(nav)", "a = C-x"}; strs bytes; for (int b = 1; b < 256; b++) bytes.push_back(str(1, (char)b));
  strs pos; for (int i = 0; i < 16; i++) pos.push_back(std::to_string(i));
  product("bytes", {lines, bytes, pos, {"r", "i"}}, [](Item &i, const strs &v) { str l = v[0]; size_t p = std::min((size_t)atoi(v[2].c_str()), l.size()); if (v[3] == "r") l.replace(p, 1, v[1]); else l.insert(p, v[1]); load(i, "[nav]\n[main]\nq = w\n" + l + "\nc = d\n"); });
  product("byte-pairs", {tier ? lines : strs{"a = b"}, bytes, bytes}, [](Item &i, const strs &v) { load(i, "[nav]\n[main]\nq = w\n" + v[0] + v[1] + v[2] + "\nc = d\n[main]\na = " + v[1] + v[2] + "\nx = y\n" + v[2] + v[1]); });
  // multi-byte characters, whole and cut short, wherever text is read character by character
  strs u = {"\xc3", "\xa9", "\xe2", "\x82", "\xac", "\xf0", "\x9f", "\x98", "\x80", "\xff", "a", " ", "+"};
  strings("utf8", u, 1, tier ? 5 : 4, {"[main]\na = \1\nc = d\n", "[main]\na = macro(\1)\nc = d\n"}, go);
  // single edits of a file that uses everything
  static str rich = RICH; strs ed = chars("aC-+=[]#:.,()\\ \n1mx*~\t"); for (auto s : {"\xc3", "\xff", "\r", "()", "macro(", "\n[", "include "}) ed.push_back(s);
  strs rp; for (size_t i = 0; i <= rich.size(); i++) rp.push_back(std::to_string(i));
  strs kinds = {"d", "D", "t"}; for (auto &e : ed) { kinds.push_back("r" + e); kinds.push_back("i" + e); }
  product("single-edits", {rp, kinds}, [](Item &i, const strs &v) {
    str t = rich; size_t p = atoi(v[0].c_str()); char k = v[1][0];
    if (k == 'd') t.erase(std::min(p, t.size() - 1), 1); else if (k == 'D') t.erase(p); else if (k == 't') { size_t e = t.find('\n', p); t.erase(p, e == str::npos ? str::npos : e - p); }
    else if (k == 'r') { if (p < t.size()) t.replace(p, 1, v[1].substr(1)); } else t.insert(p, v[1].substr(1));
    load(i, t); });
  // pairs of edits within one line
  strs rl; { size_t p = 0; while (p < rich.size()) { size_t e = rich.find('\n', p); rl.push_back(rich.substr(p, e - p)); p = e + 1; } }
  strs pp; for (int i = 0; i < 40; i++) pp.push_back(std::to_string(i)); strs e2 = chars("a()[],=\\+ "); e2.push_back("");
  strs ls; for (auto &l : rl) if (l.size() > 3) ls.push_back(l);
  if (!tier) ls = {"[nav+shift]", "a = macro(C-x 5ms a+b \xc3\xa9 hi)", "a+b = oneshot(shift)"};
  product("double-edits", {ls, pp, pp, e2, e2}, [](Item &i, const strs &v) {
    str l = v[0]; size_t a = atoi(v[1].c_str()), b = atoi(v[2].c_str()); if (a < l.size()) l.replace(a, 1, v[3]); if (b < l.size()) l.replace(b, 1, v[4]);
    load(i, "[nav]\n[lay:layout]\n[main]\nq = w\n" + l + "\nc = d\n"); });
  // lines of the rich file dropped, doubled and swapped: every line means what it means on its own
  strs li; for (size_t i = 0; i < rl.size(); i++) li.push_back(std::to_string(i));
  product("line-moves", {li, li, {"swap", "copy", "move"}}, [=](Item &i, const strs &v) { strs w = rl; size_t a = atoi(v[0].c_str()), b = atoi(v[1].c_str());
    if (v[2] == "swap") std::swap(w[a], w[b]); else { str x = w[a]; if (v[2] == "move") w.erase(w.begin() + a); w.insert(w.begin() + std::min(b, w.size()), x); } load(i, join(w, "\n") + "\n"); });
  // NUL bytes only have to be harmless
  product("nul-bytes", {rp}, [](Item &i, const strs &v) { str t = rich; t.insert(atoi(v[0].c_str()), 1, '\0'); load(i, t); i.crash_only = true; });
}
static void f03() {
  strs fns = {"layer", "oneshot", "toggle", "swap", "layerm", "oneshotm", "togglem", "swapm", "toggle2", "swap2", "clear", "clearm", "setlayout", "overload", "overloadt", "overloadt2", "overload2", "overload3", "overloadi", "timeout", "macro2", "scroll", "scrollt", "lettermod", "command", "macro", "bogus", "Layer", "layer2", ""};
  strs args = {"nav", "lay", "main", "nope", "x", "C-x", "X", "macro(x y)", "overload(nav, x)", "5", "", "a b", "nav+sy", "command(l)", "\xc3\xa9", "layer(nope)", "control"};
  auto go = [](Item &i, const strs &v) { i.kind = ADD; strs a(v.begin() + 1, v.end()); i.adds = {"a = " + v[0] + "(" + join(a, ", ") + ")"}; };
  product("arity-0", {fns}, go); product("arity-1", {fns, args}, go); product("arity-2", {fns, args, args}, go); product("arity-3", {fns, args, args, args}, go);
  strs few = {"nav", "x", "5", "macro(x y)", "nope", ""}; product("arity-4", {fns, few, few, few, few}, go); product("arity-5", {fns, {"nav", "x", "5"}, {"nav", "x", ""}, {"x", "5"}, {"x", "5"}, {"5", "x"}}, go); product("arity-6", {fns, {"nav", "x"}, {"x"}, {"5"}, {"x"}, {"5"}, {"5", ""}}, go);
  // how the call is written
  strs calls = {"layer(nav)", "clear()", "overload(nav, x)", "timeout(x, 5, y)", "macro2(5, 6, x y)", "lettermod(nav, x, 5, 6)", "swapm(nav, macro(a b))", "clearm(x)", "setlayout(lay)", "scroll(5)", "command(ls -l)", "macro(x)", "overloadi(x, overloadt2(nav, x, 5), 6)"};
  strs mut = {"", " ", "(", ")", ",", ",,", " ,", "()", "x", "\\", "\t", "=", "#"}; strs pos; for (int i = 0; i < 46; i++) pos.push_back(std::to_string(i));
  product("spelling", {calls, pos, mut, {"i", "r", "t"}}, [](Item &i, const strs &v) { str c = v[0]; size_t p = std::min((size_t)atoi(v[1].c_str()), c.size()); if (v[3] == "i") c.insert(p, v[2]); else if (v[3] == "r") c.replace(p, 1, v[2]); else { c.erase(p); c += v[2]; } i.kind = ADD; i.adds = {"a = " + c}; });
  // backslashes, brackets and commas of a text inside a call
  strings("escapes", chars("\\(),a "), 0, tier ? 7 : 6, {"a = overload(nav, macro(\1))", "a = timeout(macro(\1), 5, b)", "a = macro(\1)", "a = timeout(command(\1), 5, \1)"}, [](Item &i, const str &t) { i.kind = ADD; i.adds = {t}; });
  // every action as the inner action of every other
  strs inner = {"", "x", "C-x", "layer(nav)", "oneshot(nav)", "toggle(sy)", "swap(nav)", "layerm(nav, x)", "clear()", "clearm(x)", "setlayout(lay)", "overload(sy, x)", "overloadt(sy, x, 5)", "overloadt2(sy, x, 5)", "overloadi(x, y, 5)", "timeout(x, 5, y)", "macro(x y)", "macro2(5, 6, x)", "command(a, b)", "scroll(5)", "scrollt(5)", "noop", "leftshift", "shift", "lettermod(nav, x, 5, 6)", "\xc3\xa9", "layer(main)", "layer(lay)", "overload(nope, x)", "overload(nav)", "macro(", "X"};
  strs outer = {"\1", "overload(nav, \1)", "overloadt(nav, \1, 9)", "overloadt2(nav, \1, 9)", "overloadi(\1, z, 9)", "overloadi(z, \1, 9)", "timeout(\1, 9, z)", "timeout(z, 9, \1)", "lettermod(nav, \1, 8, 9)", "layerm(nav, \1)", "clearm(\1)", "macro2(1, 2, \1)", "overload(\1, x)", "layer(\1)", "setlayout(\1)", "command(\1)", "macro(\1)"};
  auto sub = [](str o, const str &x) { size_t p = o.find('\1'); return o.replace(p, 1, x); };
  product("nested-1", {outer, inner, {"a", "nav.a", "a+b", "sy.shift"}}, [=](Item &i, const strs &v) { i.kind = ADD; i.adds = {v[2] + " = " + sub(v[0], v[1])}; });
  product("nested-2", {outer, outer, inner}, [=](Item &i, const strs &v) { i.kind = ADD; i.adds = {"a = " + sub(v[0], sub(v[1], v[2]))}; });
  if (tier) product("nested-3", {outer, outer, outer, inner}, [=](Item &i, const strs &v) { i.kind = ADD; i.adds = {"a = " + sub(v[0], sub(v[1], sub(v[2], v[3])))}; });
  // numbers
  strs nums = {"0", "1", "65535", "65536", "-1", "32767", "-32768", "x", "1x", " 7", "07", "+7", "99999"};
  product("numbers", {{"overloadt(nav, x, \1)", "overloadt2(nav, x, \1)", "overloadi(x, y, \1)", "timeout(x, \1, y)", "macro2(\1, 3, x)", "macro2(3, \1, x)", "scroll(\1)", "scrollt(\1)", "lettermod(nav, x, \1, 3)", "lettermod(nav, x, 3, \1)"}, nums}, [=](Item &i, const strs &v) { i.kind = ADD; i.adds = {"a = " + sub(v[0], v[1])}; });
  // what can be on the left
  strs keys = {"a", "nav.a", "lay.a", "main.a", "nope.a", ".a", "nav.", "nav+sy.a", "a+b", "nav.a+b", "a+nope", "al", "nav.al", "al+b", "C-a", "A", "=", ".", "nav..", "+", "a+", "+a", "", " a", "shift", "nav.nav.a", "a+b+c+d+e+f+g+h", "a+b+c+d+e+f+g+h+i", "#"};
  product("keys", {keys, {" = ", "=", " =", "  =  ", " == ", " "}, {"x", "layer(nav)", "", "=", "macro(a.b)", "nope", "x.y"}}, [](Item &i, const strs &v) { i.kind = ADD; i.adds = {v[0] + v[1] + v[2]}; });
}
static void f04() {
  str pr; for (int c = 32; c < 127; c++) pr += (char)c;
  auto key = [](Item &i, const str &t) { i.kind = KEY; i.key = t; };
  strings("printable", chars(pr), 0, 3, {"\1"}, key);
  strings("prefixes", {"C", "M", "A", "S", "G", "-", "a", "X", "c-"}, 0, tier ? 8 : 6, {"\1"}, key);
  strs names; for (int i = 0; i < 256; i++) for (auto &n : {ref::keys().k[i].name, ref::keys().k[i].alt, ref::keys().k[i].shifted}) if (!n.empty()) names.push_back(n);
  strs mods = {"", "C-", "M-", "A-", "S-", "G-"}; product("names", {mods, mods, mods, mods, mods, names}, [](Item &i, const strs &v) { i.kind = KEY; i.key = join(v, ""); });
  product("names-bound", {names, {"\1 = x", "nav.\1 = x", "\1+a = x", "a+\1+b = x", "a = \1", "a = macro(\1+a)"}}, [](Item &i, const strs &v) { i.kind = ADD; str t = v[1]; t.replace(t.find('\1'), 1, v[0]); i.adds = {t}; });
  // no other spelling of a name is accepted
  strs muts; for (auto &n : names) { for (size_t p = 0; p <= n.size(); p++) { muts.push_back(n.substr(0, p)); if (p < n.size()) { muts.push_back(n.substr(0, p) + n.substr(p + 1)); str u = n; u[p] = isupper(u[p]) ? tolower(u[p]) : toupper(u[p]); muts.push_back(u); } for (auto c : {" ", "-", "_", "s", "1"}) { str u = n; u.insert(p, c); muts.push_back(u); } } muts.push_back(n + n); }
  std::sort(muts.begin(), muts.end()); muts.erase(std::unique(muts.begin(), muts.end()), muts.end());
  product("misspellings", {mods, muts}, [](Item &i, const strs &v) { i.kind = KEY; i.key = join(v, ""); });
  std::vector<Item> l; for (int c = 0; c < 256; c++) { Item i; i.kind = KEY; i.id = std::to_string(c); l.push_back(i); i.key = "code"; }
  // modifier sets of layers
  strings("modsets", {"C", "M", "A", "S", "G", "-", "X", "c"}, 0, tier ? 6 : 5, {"[q:\1]\n"}, [](Item &i, const str &t) { load(i, t); });
  // macros: token sequences
  strs tok = {"a", "X", "C-a", "A-S-a", "a+b", "5ms", "a+5ms+b", "\xc3\xa9", "hello", "+", "C-", "ms", "5", "99999ms", "leftshift+a", "C-a+b", "\\)", "a+", "control", "space", "\xe2\x98\x83", "a+\xc3\xa9", "A!", "5msx", "()"};
  for (int n = 1; n <= (tier ? 4 : 3); n++) { std::vector<strs> p(n, tok); p.push_back({" ", "  "}); p.push_back({"macro(\1)", "\1", "clearm(macro(\1))", "macro2(1, 2, \1)"}); product("macro-" + std::to_string(n), p, [n](Item &i, const strs &v) { i.kind = ADD; str f = v[n + 1]; size_t q = f.find('\1'); i.adds = {"a = " + f.replace(q, 1, join(strs(v.begin(), v.begin() + n), v[n]))}; }); }
  strings("macro-text", chars("aB+ 5ms\\C-()n"), 0, tier ? 6 : 5, {"a = macro(\1)"}, [](Item &i, const str &t) { i.kind = ADD; i.adds = {t}; });
  strings("timevals", chars("05ms +x"), 0, 6, {"a = macro(\1)"}, [](Item &i, const str &t) { i.kind = ADD; i.adds = {t}; });
}
static void f05() {
  strs inc = {"", "\n", "a = 1", "a = 1\n", "a = 1\n\n", "a = 1\r\n", "[nav]\nb = 2\n", "[nav]\nb = 2", "# x", "a = 1\n#", "include other\n", "[main", "]", "a = ", "c", "a = macro(1\n", "\n\na = 1", "[global]\nchord_timeout = 9\n[main]\n", "[ids]\nk:1\n[main]"};
  strs lines = {"[ids]", "*", "[main]", "c = d", "a = 0", "[nav]", "e = f", ""}; strs at; for (int i = 0; i <= 8; i++) at.push_back(std::to_string(i));
  strs shr = {"0", "1", "2", "3", "7"};
  auto build = [=](const strs &l, int p, const str &x) { strs w = l; w.insert(w.begin() + p, x); return join(w, "\n"); };
  product("placement", {inc, at, {"include inc", "include inc\n"}, {"c", "d", "b", "n"}, shr}, [=](Item &i, const strs &v) {
    load(i, build(lines, atoi(v[1].c_str()), v[2])); if (v[3] == "c" || v[3] == "b") i.fs["/etc/keyd/inc"] = v[0]; if (v[3] == "d" || v[3] == "b") i.fs["/usr/share/keyd/inc"] = v[3] == "b" ? "a = 9\n" : v[0]; i.shr = atoi(v[4].c_str()); });
  product("twice", {inc, inc, at, at, {"0", "1"}}, [=](Item &i, const strs &v) {
    strs w = lines; int a = atoi(v[2].c_str()), b = atoi(v[3].c_str()); w.insert(w.begin() + a, "include inc"); w.insert(w.begin() + b, "include two"); load(i, join(w, "\n")); i.fs["/etc/keyd/inc"] = v[0]; i.fs["/usr/share/keyd/two"] = v[1]; i.shr = atoi(v[4].c_str()); });
  strs forms = {"include inc", "include  inc", "include\tinc", " include inc", "include inc ", "include inc.conf", "include ./inc", "include ../inc", "include sub/inc", "include", "include ", "includeinc", "Include inc", "include /inc", "#include inc", "include inc\r", "include inc inc", "include none", "include = x", "include nodir/inc"};
  product("forms", {forms, at, {"a = 1\n", "[nav]\na = 1"}}, [=](Item &i, const strs &v) { load(i, build(lines, atoi(v[1].c_str()), v[0])); for (auto p : {"/etc/keyd/inc", "/etc/keyd/inc.conf", "/etc/inc", "/etc/keyd/sub/inc", "/usr/share/keyd/x", "/etc/keyd//inc", "/etc/keyd/inc "}) i.fs[p] = v[2]; });
  product("faults", {inc, at, {"o", "r0", "r1", "r2"}}, [=](Item &i, const strs &v) { load(i, build(lines, atoi(v[1].c_str()), "include inc")); i.fs["/etc/keyd/inc"] = v[0]; if (v[2] == "o") { i.open_fails = 1; i.fs["/etc/keyd/inc"] = ""; } else { i.read_fails = v[2][1] - '0'; i.shr = 3; i.crash_only = true; } });
  // contents of every length around the buffer size, whole and in pieces
  strs len; for (int d = -4; d <= 4; d++) for (int b : {0, 65535 - 20, 65536}) if (b + d >= 0) len.push_back(std::to_string(b + d));
  for (int k = 65536 - 60; k < 65540; k++) len.push_back(std::to_string(k));
  product("lengths", {len, {"0", "1000", "60000"}, {"\n", "x"}, {"", "a = b\n", "[nav]\nq = w\n"}, {"0", "4096"}}, [](Item &i, const strs &v) {
    size_t n = atoi(v[0].c_str()), m = atoi(v[1].c_str()); str t = "[main]\n"; while (t.size() + 20 < m) t += "# padding padding \n";
    str c = "b = c\n"; while (c.size() + 17 < n) c += "#..............\n"; if (c.size() < n) c += "#" + str(n - c.size() - 1, '.'); c.resize(n); if (n && v[2] == "\n") c[n - 1] = '\n';
    load(i, t + "include inc\n" + v[3]); i.fs["/etc/keyd/inc"] = c; i.shr = atoi(v[4].c_str()); });
}
static void f06() {
  std::vector<Item> l; auto L = [&](const str &t) { Item i; load(i, t); l.push_back(i); }; auto num = [](int i) { return std::to_string(i); };
  auto key = [](int i) { strs v; for (int c = 0; c < 256; c++) if (!ref::keys().k[c].name.empty()) v.push_back(ref::keys().k[c].name); return v[i % v.size()]; };
  auto around = [](int n) { std::vector<int> v; for (int d = -3; d <= 3; d++) if (n + d > 0) v.push_back(n + d); v.push_back(2 * n); v.push_back(2 * n + 1); v.push_back(n * 4); return v; };
  str tail = "[main]\nq = w\nw = layer(shift)\n[control]\ne = r\n";
  for (int n : around(32)) for (int s : {0, 1, 6, 26}) for (auto &t : {str(""), tail}) { str x; for (int i = 0; i < s; i++) x += "[ids]\n*\n"; for (int i = 0; i < n - s; i++) x += "[l" + num(i) + (i % 3 == 1 ? ":C" : i % 3 == 2 ? ":layout" : "") + "]\na = layer(l" + num((i + 1) % (n - s)) + ")\nb = " + key(i + 30) + "\n"; L(x + t); L("[main]\na = b\n" + x); }
  for (int n : around(26)) { str x; for (int i = 0; i < n; i++) x += "[l" + num(i) + "]\n"; x += "[l0+l1]\na = 1\n[l1+l0]\na = 2\n"; L(x); L("[a]\n[b]\n[a+b]\n[a+c]\n" + x); }
  for (int n : around(1024)) { str x = "[main]\n", k = "[main]\n"; for (int i = 0; i < n && x.size() < 65000; i++) { x += key(i / 4 + 10 * (i % 4)) + "=" + char('a' + i % 26) + "\n"; if (k.size() < 64900) k += str(1, 'a' + i % 26) + "=b\n"; } L(x); L(k + "[nav]\na=z\n"); L("[nav]\na = b\n" + x + tail); L("[ids]\n" + rep("*\n", n) + tail); L("[aliases]\n" + rep("a=q\n", n) + "b=w\n" + tail); L("[global]\n" + rep("zz\n", n) + "chord_timeout=3\n" + tail); }
  for (int n : around(64)) { str x = "[main]\n"; int m = 0; for (int i = 0; i < 30 && m < n; i++) for (int j = i + 1; j < 30 && m < n; j++, m++) x += key(i + 1) + "+" + key(j + 1) + " = " + key(m) + "\n"; L(x); L(x + key(1) + "+" + key(2) + " = z\n" + tail); str y = x; y.replace(0, 6, "[nav]"); L(y + tail); L(x + y); }
  for (int n = 1; n <= 20; n++) { strs k; for (int i = 0; i < n; i++) k.push_back(key(i + 2)); L("[main]\n" + join(k, "+") + " = x\na = b\n"); L("[main]\n" + join(k, "+") + " = x\n" + join(strs(k.rbegin(), k.rend()), "+") + " = y\na = b\n"); L("[main]\n" + rep("a+", n) + "b = x\n"); }
  for (int n = 1; n <= 14; n++) { str x, c; for (int i = 0; i < n; i++) { x += "[l" + num(i) + "]\n"; c += (i ? "+l" : "l") + num(i); } L(x + "[" + c + "]\na = b\n[nav]\na = c\n"); L(x + "[" + c + "]\na = b\n[" + c + "+l0]\nc = d\n"); }
  for (int n : around(256)) { str x; int m = 0; for (int s = 0; s < 8 && m < n; s++) { x += "[s" + num(s) + "]\n"; for (int i = 0; i < 100 && m < n; i++, m++) x += key(i) + "=macro(" + char('a' + m % 26) + " b)\n"; } L(x + tail); L(x + "[zz]\nt = clearm(macro(x y))\nu = macro2(1, 2, a b)\nv = layerm(shift, a)\n" + tail); str r = "[main]\n"; for (int i = 0; i < n; i++) r += "a=macro(x y\n"; if (r.size() < 65000) L(r + x.substr(0, 60000 - r.size()) + "\n" + tail); }
  for (int n : around(256)) { for (int s : {1, 2}) { str t; for (int i = 0; i < n; i++) t += str(s == 1 ? "a" : i % 2 ? "b" : "+"); for (auto p : {"", "a ", "5ms "}) { Item i; i.kind = ADD; i.adds = {str("a = macro(") + p + t + ")", "b = macro(c d)"}; l.push_back(i); L("[main]\na = macro(" + str(p) + t + ")\nb = macro(c d)\n"); i.adds = {str("a = macro2(1, 2, macro(") + p + t + "))", "b = c"}; l.push_back(i); } } }
  for (int n = 120; n <= 260; n++) { strs k; for (int i = 0; i < n; i++) k.push_back("a"); for (auto d : {" ", "+"}) { Item i; i.kind = ADD; i.adds = {"a = macro(" + join(k, d) + ")", "b = macro(c d)"}; l.push_back(i); i.adds[0] = "a = macro(hello " + join(k, d) + " x+y)"; l.push_back(i); } }
  for (int n : around(64)) { str x = "[main]\n"; for (int i = 0; i < n; i++) x += key(i) + " = command(c" + num(i) + ")\n"; L(x + tail); L(x + "a = overload(shift, command(x))\nb = timeout(command(y), 5, command(z))\n" + tail); L("[main]\n" + rep("nokey = command(x)\n", n) + x); }
  for (int n = 230; n <= 300; n++) { Item i; i.kind = ADD; i.adds = {"a = command(" + str(n, 'x') + ")", "b = command(y)"}; l.push_back(i); i.adds[0] = "a = overload(nav, command(" + str(n, '\\') + "))"; l.push_back(i); L("[main]\nb = command(z)\na = command(" + str(std::max(0, n - 40), 'x') + ")\n"); }
  for (int n : around(1024)) { str x; int m = 0; for (int s = 0; s < 24 && m < n && x.size() < 62000; s++) { x += "[s" + num(s) + "]\n"; for (int i = 0; i < 240 && m < n && x.size() < 62000; i++) if (n - m >= 2) { x += key(i) + "=timeout(a,1,b)\n"; m += 2; } else { x += key(i) + "=overload(alt,b)\n"; m++; } } L(x + tail); L(x + "[zz]\nt = overload(shift, c)\nu = timeout(c, 1, d)\nv = overloadi(a, overloadt2(shift, b, 3), 4)\n" + tail); }
  for (int n = 1; n <= 130; n++) { str x = "a"; for (int i = 0; i < n; i++) x = "overload(alt," + x + ")"; Item i; i.kind = ADD; i.adds = {"a = " + x, "b = c"}; l.push_back(i); }
  for (int n : around(64)) { str x = "[ids]\n"; for (int i = 0; i < n; i++) x += (i % 4 == 1 ? "k:" : i % 4 == 2 ? "m:" : i % 4 == 3 ? "-" : "") + num(1000 + i) + "\n"; L(x + tail); L("[ids]\n*\n" + x + "*\n" + tail); L(x + "[ids]\n*\n-zz\n" + tail); }
  for (int n = 50; n <= 80; n++) for (auto p : {"", "k:", "m:", "-"}) L("[ids]\n" + str(p) + str(n, 'x') + "\n1:2\n" + tail);
  for (int n = 25; n <= 40; n++) { L("[aliases]\na = " + str(n, 'x') + "\nb = y1\n[main]\n" + str(n, 'x') + " = 1\ny1 = 2\n"); }
  for (int n = 50; n <= 250; n++) for (auto p : {"", ":C", "+shift", ":layout"}) { L("[" + str(n, 'x') + p + "]\na = b\n" + tail); L("[" + str(n, 'x') + "]\n[" + str(n, 'x') + p + "]\na = layer(" + str(n, 'x') + ")\n" + tail); }
  for (int n = 60; n <= 70; n++) { L("[" + str(n, 'x') + ":layout]\na = b\n[global]\ndefault_layout = " + str(n, 'x') + "\n"); L("[global]\ndefault_layout = " + str(n, 'y') + "\nchord_timeout = 3\n"); }
  for (int n = 240; n <= 270; n++) for (auto p : {"#", "[", "a = ", "", "include ", "a = macro("}) for (int nl : {0, 1, 2}) L("[main]\nq = w\n" + str(p) + str(n - strlen(p) - (strlen(p) > 9), 'x') + (strlen(p) > 9 ? ")" : *p == '[' ? "]" : "") + (nl == 0 ? "" : nl == 1 ? "\n" : "\na = b\n"));
  for (int n = 65400; n <= 65560; n++) { str t = "[main]\na = b\n"; while (t.size() + 64 < n) t += "#" + str(62, '.') + "\n"; t += "#" + str(std::max<int>(0, n - t.size() - 1), '.'); L(t); t.back() = '\n'; L(t); L(t.substr(0, n - 6) + "\nb = c"); }
  for (int n = 490; n <= 530; n++) { Item i; i.kind = ADD; i.adds = {"a = macro(" + str(n - 11, 'a') + ")", "b = c"}; l.push_back(i); i.adds = {str(n - 4, 'a') + " = b", "b = c"}; l.push_back(i); i.adds = {"a = " + str(n - 4, ' '), "b = c"}; l.push_back(i); i.adds = {"a = command(" + str(n, '\\') + ")"}; l.push_back(i); }
  for (int n = 200; n <= 700; n += 1) { Item i; i.kind = ADD; i.adds = {"a = " + rep("overload(", n / 9) + str(n % 9, 'x'), "b = c"}; l.push_back(i); i.adds[0] = "a = layer(" + rep(",", n) + ")"; l.push_back(i); i.adds[0] = "a = lettermod(nav, " + str(n / 2, 'x') + ", 1, 2)"; l.push_back(i); }
  // rejected lines take up nothing
  for (auto r : {"nokey = macro(x y)", "nokey = command(x)", "nokey = overload(nav, macro(x y))", "a = overload(nav, nokey, macro(x y))", "a = overload(nope, macro(x y))", "a = timeout(macro(x y), 5, nokey)", "a = timeout(overload(nav, x), 5, nope)", "a = timeout(command(x), 5, nope)", "nope.a = macro(x y)", "a = overloadi(x, timeout(macro(p q), 5, command(c)), nope())", "a+nokey = timeout(macro(x y), 1, command(x))", "a = lettermod(nope, x, 1, 2)", "a = clearm(overload(x))"})
    for (int n : {1, 63, 64, 65, 255, 256, 257, 1023, 1024, 1030}) {
      Item i; i.kind = ADD; for (int j = 0; j < n; j++) i.adds.push_back(r); for (auto g : {"b = macro(c d)", "c = command(z)", "d = overload(nav, timeout(macro(f g), 7, command(h)))", "e = x"}) i.adds.push_back(g); l.push_back(i);
      if (n < 300) { str x = "[nav]\n"; for (int j = 0; j < n; j++) x += str(r) + "\n"; if (x.size() < 65000) L(x + "[main]\nb = macro(c d)\nc = command(z)\nd = overload(nav, timeout(macro(f g), 7, command(h)))\ne = x\n"); } }
  list("limits", l);
  // several limits at once
  product("combined", {{"31", "32", "33"}, {"63", "64", "65"}, {"63", "64", "65"}, {"255", "256", "257"}}, [=](Item &it, const strs &v) {
    str x = "[ids]\n"; for (int i = 0; i < atoi(v[1].c_str()); i++) x += "k:" + num(i) + "\n"; x += "[main]\n"; for (int i = 0; i < atoi(v[2].c_str()); i++) x += key(i) + "+" + key(i + 1) + " = command(" + num(i) + ")\n";
    for (int i = 0; i < atoi(v[0].c_str()) - 8; i++) x += "[l" + num(i) + "]\n"; int m = 0; for (int s = 0; m < atoi(v[3].c_str()); s++) { x += "[l" + num(s) + "]\n"; for (int i = 0; i < 90 && m < atoi(v[3].c_str()); i++, m++) x += key(i) + "=macro(a b)\n"; }
    load(it, x + tail); });
}
static void f08() {
  strs ids = {"", "*", "0123:4567", "0123:4567:89abcdef", "0123", "-0123:4567", "-0123", "k:0123:4567", "m:0123:4567", "k:0123", "m:0123", "k:-0123", "-k:0123", "0123:45", "k:", "m:", "-", "-*", "0123:4568", "# c", "0123:4567 = x", "-0123:4567:89abcdef", "k:*"};
  strs devs = {"0123:4567:89abcdef", "0123:4567:00000000", "0123:4568:89abcdef", "0124:4567:89abcdef", "89ab:0123:4567cdef"};
  for (int n = 1; n <= (tier ? 4 : 3); n++) { std::vector<strs> p(n, ids); p.push_back(devs); product("ids-" + std::to_string(n), p, [n](Item &i, const strs &v) { i.kind = MATCH; i.fs[CONF] = "[ids]\n" + join(strs(v.begin(), v.begin() + n), "\n") + "\n[main]\na = b\n"; i.id = v[n]; }); }
  product("two-sections", {ids, ids, devs}, [](Item &i, const strs &v) { i.kind = MATCH; i.fs[CONF] = "[ids]\n" + v[0] + "\n[main]\na = b\n[ids]\n" + v[1]; i.id = v[2]; });
}

// ---------------------------------------------------------------- driver
struct Shared { volatile uint64_t cur; volatile long beat; char msg[4096]; }; static Shared *sh;
namespace penv { void die(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(sh->msg, sizeof sh->msg, f, a); va_end(a); _exit(70); } }
static void on_report(const char *r) { const char *p = strstr(r, "ERROR: AddressSanitizer"); str s = p ? p : r; size_t e = s.find("\n\n"); s = s.substr(0, std::min<size_t>(e, 900)); snprintf(sh->msg, sizeof sh->msg, "%s", s.c_str()); }
static long lastbeat = -1; static int stuck;
static void on_timer(int) { if (sh->beat == lastbeat) { if (++stuck >= 5) { snprintf(sh->msg, sizeof sh->msg, "does not return (infinite loop)"); _exit(70); } } else { lastbeat = sh->beat; stuck = 0; } }
static bool get(uint64_t i, Item &it, str &nm) { for (auto &s : spaces) { if (i < s.n) { it = Item(); s.get(i, it); nm = s.name; return true; } i -= s.n; } return false; }
static str show(const Item &it) { str o; for (auto &f : it.fs) o += f.first + ": \"" + esc(f.second).substr(0, 1500) + "\"\n"; for (auto &a : it.adds) o += "entry: \"" + esc(a).substr(0, 700) + "\"\n"; if (!it.key.empty()) o += "key: \"" + esc(it.key) + "\"\n"; if (!it.id.empty()) o += "device: " + it.id + "\n"; if (it.shr) o += "reads return at most " + std::to_string(it.shr) + " bytes\n"; return o; }
static str jesc(const str &s) { str o; char b[8]; for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; return o; }
static void init() {
  cfg = pg_new(); basecfg = pg_new(); penv::fs.clear(); penv::fs[CONF] = BASE; pg_parse(basecfg, CONF); ref::load(rbase, BASE);
  __asan_set_error_report_callback(on_report);
}
int main(int argc, char **argv) {
  str prop = argv[1]; tier = !strcmp(argv[2], "thorough"); KEYFILE = getenv("KEYNAMES"); ref::keys().load(KEYFILE); if (getenv("COMPOSE")) ref::compose().path = getenv("COMPOSE");
  if (prop == "F01") f01(); else if (prop == "F02") f02(); else if (prop == "F03") f03(); else if (prop == "F04") f04(); else if (prop == "F05") f05(); else if (prop == "F06") f06(); else if (prop == "F08") f08(); else return 3;
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t total = 0; for (auto &s : spaces) total += s.n;
  if (!strcmp(argv[3], "list")) { for (auto &s : spaces) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.n); printf("total %llu\n", (unsigned long long)total); return 0; }
  uint64_t shard = atoll(argv[4]), nshard = 1, at; bool one = !strcmp(argv[3], "one"); if (!one) nshard = atoll(argv[5]);
  str outdir = one ? "" : argv[6];
  uint64_t done = 0, next = shard, distinct = 0; int nviol = 0, crashes = 0; std::vector<str> viol; 
  while (next < total && crashes < 8 && nviol < 20) {
    int pfd[2]; pipe(pfd); sh->msg[0] = 0; pid_t pid = fork();
    if (!pid) {
      close(pfd[0]); FILE *o = fdopen(pfd[1], "w"); int dn = open("/dev/null", 1); dup2(dn, 2); if (!one) dup2(dn, 1);
      struct itimerval tv = {{1, 0}, {1, 0}}; signal(SIGVTALRM, on_timer); setitimer(ITIMER_VIRTUAL, &tv, 0); init();
      uint64_t k = 0; int nv = 0; Item it; str nm;
      for (uint64_t i = next; i < total; i += nshard) {
        sh->cur = i; sh->beat++; if (!get(i, it, nm)) break; str r = check(it); k++;
        if (!r.empty()) { fprintf(o, "V %llu %s\n", (unsigned long long)i, r.c_str()); if (++nv + nviol >= 20) break; }
        if (one) break;
      }
      fprintf(o, "D %llu %zu\n", (unsigned long long)k, seen.size()); fclose(o); _exit(0);
    }
    close(pfd[1]); FILE *in = fdopen(pfd[0], "r"); char *line = 0; size_t cap = 0; bool fin = false;
    auto add = [&](uint64_t i, const str &why, const str &kind) { Item it; str nm; get(i, it, nm); nviol++; viol.push_back("{\"index\":" + std::to_string(i) + ",\"space\":\"" + nm + "\",\"kind\":\"" + kind + "\",\"detail\":\"" + jesc(why) + "\",\"item\":\"" + jesc(show(it)) + "\"}"); };
    while (getline(&line, &cap, in) > 0) { str l = line; while (!l.empty() && l.back() == '\n') l.pop_back(); if (l[0] == 'V') { char *e; uint64_t i = strtoull(l.c_str() + 2, &e, 10); add(i, e + 1, "differs"); } else if (l[0] == 'D') { char *e; done += strtoull(l.c_str() + 2, &e, 10); distinct = std::max<uint64_t>(distinct, strtoull(e, 0, 10)); fin = true; } }
    fclose(in); int st; waitpid(pid, &st, 0);
    if (fin) break;
    at = sh->cur; done += (at - next) / nshard + 1; crashes++;
    str m = sh->msg; if (m.empty()) { m = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exits with status " + std::to_string(WEXITSTATUS(st)) + (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 77 ? " (memory or bounds checker)" : ""); }
    add(at, m, "crash"); next = at + nshard; if (one) break;
  }
  if (one) { Item it; str nm; get(shard, it, nm); printf("space %s item %llu\n%s", nm.c_str(), (unsigned long long)shard, show(it).c_str()); for (auto &v : viol) printf("%s\n", v.c_str()); if (viol.empty()) printf("holds\n"); return viol.empty() ? 0 : 1; }
  str samples; for (int k = 0; k < 2 && total; k++) { Item it; str nm; uint64_t i = (total / 2 + (total / 7) * k + shard * 1237) % total; get(i, it, nm); samples += (k ? "," : "") + str("\"") + jesc(nm + ": " + show(it).substr(0, 200)) + "\""; }
  printf("{\"items\":%llu,\"total\":%llu,\"distinct\":%llu,\"violations\":[%s],\"samples\":[%s]}\n", (unsigned long long)done, (unsigned long long)total, (unsigned long long)distinct, join(viol, ",").c_str(), samples.c_str());
  return 0;
}
