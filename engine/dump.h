// The reference's view of a configuration as text, in the format of parser/pglue.c.
#pragma once
#include "conf.h"
namespace dump {
typedef std::string str;
static void rmacro(str &o, const ref::Macro &m) {
  for (auto &t : m) switch (t.type) {
    case ref::T_KEY: o += " K" + std::to_string(t.code) + "/" + std::to_string(t.mods); break;
    case ref::T_HOLD: o += " H" + std::to_string(t.code); break;
    case ref::T_RELEASE: o += " R"; break;
    case ref::T_WAIT: o += " T" + std::to_string(t.ms); break;
    case ref::T_UNI: o += " U" + std::to_string(t.seq[0]) + "." + std::to_string(t.seq[1]) + "." + std::to_string(t.seq[2]) + "." + std::to_string(t.seq[3]); break;
  }
}
static void ract(str &o, const ref::Config &c, const ref::Act &d) {
  using namespace ref; const char *nm = "?"; auto L = [&] { return c.layers[d.layer].name; }; auto T = [](int x) { return std::to_string(x); };
  switch (d.op) {
  case NONE: o += "none"; return;
  case ref::KEY: o += "key " + T(d.key) + "/" + T(d.mods); return;
  case LAYER: o += "layer(" + L() + ")"; return; case ONESHOT: o += "oneshot(" + L() + ")"; return; case TOGGLE: o += "toggle(" + L() + ")"; return;
  case SWAP: o += "swap(" + L() + ")"; return; case SETLAYOUT: o += "setlayout(" + L() + ")"; return;
  case LAYERM: nm = "layerm"; break; case ONESHOTM: nm = "oneshotm"; break; case TOGGLEM: nm = "togglem"; break; case SWAPM: nm = "swapm"; break;
  case CLEAR: o += "clear"; return; case CLEARM: o += "clearm("; rmacro(o, c.macros[d.macro]); o += ")"; return;
  case OVERLOAD: o += "overload(" + L() + ","; ract(o, c, c.subs[d.sub1]); o += ")"; return;
  case OVERLOADT: case OVERLOADT2: o += (d.op == OVERLOADT ? "overloadt(" : "overloadt2(") + L() + ","; ract(o, c, c.subs[d.sub1]); o += "," + T(d.t1) + ")"; return;
  case OVERLOADI: o += "overloadi("; ract(o, c, c.subs[d.sub1]); o += ","; ract(o, c, c.subs[d.sub2]); o += "," + T(d.t1) + ")"; return;
  case TIMEOUT: o += "timeout("; ract(o, c, c.subs[d.sub1]); o += "," + T(d.t1) + ","; ract(o, c, c.subs[d.sub2]); o += ")"; return;
  case MACRO: o += "macro("; rmacro(o, c.macros[d.macro]); o += ")"; return;
  case MACRO2: o += "macro2(" + T(d.t1) + "," + T(d.t2) + ","; rmacro(o, c.macros[d.macro]); o += ")"; return;
  case COMMAND: o += "command(" + c.cmds[d.cmd] + ")"; return;
  case SCROLL: o += "scroll(" + T(d.t1) + ")"; return; case SCROLLT: o += "scrollt(" + T(d.t1) + ")"; return;
  }
  o += str(nm) + "(" + L() + ","; rmacro(o, c.macros[d.macro]); o += ")";
}
static void rdump(str &o, const ref::Config &c) {
  o.clear(); auto T = [](long x) { return std::to_string(x); };
  for (auto &l : c.layers) {
    o += "layer " + l.name + " type " + T(l.type) + " mods " + T(l.type == ref::NORMAL ? l.mods : 0); for (int k : l.cons) o += " " + c.layers[k].name; o += "\n";
    for (int j = 0; j < 256; j++) if (l.map[j].op) { o += l.name + "." + T(j) + " = "; ract(o, c, l.map[j]); o += "\n"; }
    for (auto &h : l.chords) { o += l.name + "."; for (int k : h.keys) o += "+" + T(k); o += " = "; ract(o, c, h.act); o += "\n"; }
  }
  for (int i = 0; i < 256; i++) if (!c.alias[i].empty()) o += "alias " + T(i) + " " + c.alias[i] + "\n";
  for (auto &i : c.ids) o += "id " + i.id + " " + T(i.flags) + "\n";
  o += "wildcard " + T(c.wildcard) + "\nmacro_timeout " + T(c.macro_timeout) + "\nmacro_sequence_timeout " + T(c.macro_seq) + "\nmacro_repeat_timeout " + T(c.macro_repeat) + "\noneshot_timeout " + T(c.oneshot_timeout)
    + "\noverload_tap_timeout " + T(c.overload_tap) + "\nchord_timeout " + T(c.chord_interkey) + "\nchord_hold_timeout " + T(c.chord_hold) + "\nlayer_indicator " + T(c.layer_indicator) + "\nmodifier_guard_off " + T(c.no_guard) + "\ndefault_layout " + c.default_layout + "\n";
}
}
using dump::rdump;
