"""Scenarios of the engine checks: configuration, key alphabet, timing alphabet and bounds, per property.
bundle(prop, tier) -> (comparators, [scenario texts]).  Deterministic."""
import itertools, re

def S(id, body, keys, depth, delays="5", glob="", **h):
    t = "#! id %s\n#! keys %s\n#! depth %d\n#! delays %s\n" % (id, keys, depth, delays)
    for k, v in h.items():
        for x in (v if isinstance(v, list) else [v]): t += "#! %s %s\n" % (k, x)
    t += "[ids]\n*\n"
    if glob: t += "[global]\n" + "\n".join(g.strip() for g in glob.split(";")) + "\n"
    return t + body.strip() + "\n"

LAYERS = """
[nav]
c = left
[sy:C]
c = right
[sh:S]
[lay:layout]
c = z
"""
# every kind of action; the second key of a pair takes the same
COMPOSITE = """
[main]
a = layer(one+two)
b = toggle(one+two)
c = oneshot(one+two)
d = layer(one)
e = overload(two, x)
[one:C]
x = 1
[two:S]
x = 2
[one+two]
x = 3
d = swap(two)
"""
ACTIONS = [
 ("key", "x"), ("ckey", "C-x"), ("skey", "X"), ("layer", "layer(nav)"), ("layerC", "layer(sy)"), ("mod", "layer(alt)"),
 ("os", "oneshot(nav)"), ("osC", "oneshot(sy)"), ("tg", "toggle(nav)"), ("tgC", "toggle(sy)"), ("sw", "swap(nav)"), ("swC", "swap(sy)"),
 ("layerm", "layerm(nav, macro(k l))"), ("osm", "oneshotm(sy, C-k)"), ("tgm", "togglem(nav, k)"), ("swm", "swapm(nav, C-k)"), ("swm2", "swapm(sy, macro(k l))"),
 ("clear", "clear()"), ("clearm", "clearm(C-k)"), ("lay", "setlayout(lay)"), ("lay0", "setlayout(main)"),
 ("ov", "overload(nav, x)"), ("ovC", "overload(sy, x)"), ("ovm", "overload(sy, macro(k l))"), ("ovos", "overload(nav, oneshot(sh))"), ("ovto", "overload(nav, timeout(x, 20, y))"),
 ("ovt", "overloadt(sy, x, 20)"), ("ovt2", "overloadt2(sy, x, 20)"), ("ovi", "overloadi(x, overloadt2(sy, x, 20), 15)"), ("lm", "lettermod(sy, x, 15, 20)"),
 ("to", "timeout(x, 20, layer(sy))"), ("toov", "timeout(overload(sy, x), 20, C-y)"), ("mac", "macro(k l)"), ("mac1", "macro(C-k)"), ("mac2", "macro2(20, 10, k)"),
 ("cmd", "command(true)"), ("scr", "scroll(5)"), ("scrt", "scrollt(5)"), ("noop", "noop"), ("ovalt", "overload(alt, x)"), ("macc", "macro(c d)"),
]
AD = dict(ACTIONS)
def pairs(depth, names=None, names2=None, place=("m", "n"), delays="5", keys="a b c", **h):
    out = []
    for (n1, a1), (n2, a2) in itertools.product(ACTIONS, ACTIONS):
        if names and n1 not in names: continue
        if (names2 or names) and n2 not in (names2 or names): continue
        if "m" in place: out.append(S("pair-%s-%s" % (n1, n2), "[main]\na = %s\nb = %s\n%s" % (a1, a2, LAYERS), keys, depth, delays, **h))
        # the second action is bound in the layers the first one may activate
        if "n" in place and ("nav" in a1 or "sy" in a1 or "lay" in a1):
            out.append(S("pairn-%s-%s" % (n1, n2), "[main]\na = %s\n" % a1 + LAYERS.replace("c = ", "b = %s\nc = " % a2), keys, depth, delays, **h))
    return out

G = {}
def group(*props):
    def d(f):
        for p in props: G.setdefault(p, []).append(f)
        return f
    return d

# ---------------------------------------------------------------- focused scenarios
@group("K03")
def k03(t):
    yield S("composite-active", COMPOSITE, "a b c d e x", 6 + t, cap=200000)
    b = """
[main]
a = layer(one)
b = layer(two)
c = toggle(three)
d = 1
[two]
d = 2
e = 5
[one]
d = 3
[three]
d = 4
e = 6
"""
    yield S("order", b, "a b c d e", 8 + t, cap=400000)
    yield S("order-back", """
[main]
a = layer(one)
b = oneshot(two)
c = swap(three)
[three]
d = 3
[two]
d = 2
c = swap(three)
[one]
d = 1
b = toggle(two)
c = swap(three)
""", "a b c d", 9 + t, cap=400000)
    yield S("comp", """
[main]
a = layer(l1)
b = layer(l2)
c = layer(l3)
[l1]
d = 1
[l2]
d = 2
[l3]
d = 3
[l1+l2]
d = 4
[l1+l2+l3]
d = 5
[l2+l3]
e = 6
[l1:C]
""", "a b c d e", 8 + t, cap=400000)
    yield S("comp2", """
[main]
a = toggle(l1)
b = oneshot(l2)
[l1:C]
d = 1
[l2:S]
d = 2
[l2+l1]
d = 4
[l1+shift]
e = 6
""", "a b leftshift d e", 8 + t, cap=400000)
    yield S("comp3", """
[main]
a = layer(l1)
b = layer(l2)
c = layer(l3)
[l1]
[l2]
[l3]
[l1+l2]
d = 4
[l2+l1+l3]
d = 5
[l1+l3]
d = 6
[l2+l3]
d = 7
""", "a b c d", 9 + t, cap=400000)
    yield S("unbound", """
[main]
a = layer(l1)
e = layer(l1)
[l1:M]
a = x
[shift]
d = y
""", "a d leftshift e f", 7 + t, cap=400000)
    yield S("mods-as-layers", """
[main]
a = oneshot(control)
[control]
d = 1
[shift]
d = 2
[control+shift]
d = 3
[alt+control]
d = 4
""", "a leftcontrol rightshift leftalt d", 7 + t, cap=400000)
    yield S("layoutprec", """
[global]
default_layout = dv
[main]
a = layer(one)
d = 1
f = setlayout(main)
[one]
d = 2
[dv:layout]
d = 3
e = 4
g = layer(two)
[two]
e = 5
""", "a d e f g", 7 + t, cap=400000)
    yield S("many", """
[main]
a = layer(l2)
b = layer(l1)
[l1]
c = layer(l3)
d = 1
[l2]
c = layer(l4)
d = 2
[l3]
d = 3
[l4]
d = 4
""", "a b c d", 10 + t, cap=400000)

@group("K04")
def k04(t):
    yield S("layer-key", """
[main]
a = layer(one)
b = layer(two)
c = x
[one]
b = y
c = layer(two)
[two:C]
c = S-z
a = 1
""", "a b c", 10 + t)
    yield S("toggle-key", """
[main]
a = toggle(one)
b = oneshot(two)
c = overload(two, x)
[one]
c = layer(two)
a = oneshot(two)
[two:A]
c = toggle(one)
""", "a b c d", 8 + t)
    yield S("swap-key", """
[main]
a = layer(one)
d = layer(two)
[one]
b = swap(two)
c = layer(two)
[two:S]
b = swap(one)
c = 1
[three]
""", "a b c d", 9 + t)
    yield S("layout-key", """
[main]
a = setlayout(dv)
b = layer(one)
c = x
[one]
c = y
d = setlayout(main)
[dv:layout]
a = setlayout(main)
c = layer(two)
d = C-z
[two]
""", "a b c d", 8 + t)
    yield S("bind-key", """
[main]
a = layer(one)
b = x
[one:C]
b = toggle(two)
[two]
a = 1
""", "a b c", 7 + t, eval=["b = layer(two)", "a = y", "one.b = oneshot(two)", "reset"], cap=200000)
    yield S("two-layers", """
[main]
a = layer(one)
b = layer(one)
c = overloadt(one, x, 20)
[one:S]
b = layer(two)
a = 1
[two]
a = layer(one)
c = layer(one)
""", "a b c", 9 + t)
    yield S("clear-key", """
[main]
a = layer(one)
b = clear()
c = oneshot(one)
[one:C]
c = toggle(two)
d = clear()
[two]
c = x
a = swap(one)
""", "a b c d", 8 + t)
    yield S("chord-key", """
[main]
a+b = layer(one)
c = layer(two)
[one:A]
a = 1
c = x
[two]
b = y
a+b = z
""", "a b c", 9 + t)

MODCFG = """
[main]
a = layer(sy)
b = layer(mm)
[sy:C]
c = x
d = S-y
[mm:A-S]
c = M-z
e = G-1
[sy+mm]
d = C-w
"""
@group("K05", "K17")
def k05(t):
    yield S("mods", MODCFG, "a b c d e", 8 + t, cap=250000)
    yield S("mods-chord", """
[main]
a = layer(control)
b = layer(sh)
j+k = 1
[control]
j+k = x
c = S-1
[sh:S]
j+k = C-y
[control+sh]
j+k = z
c = A-2
""", "a b j k c", 7 + t, glob="chord_timeout = 20", cap=250000)
    yield S("mods-lr", """
[shift]
c = C-a
[control]
c = b
""", "leftshift rightshift leftcontrol c d", 7 + t, cap=250000)
    yield S("mods-os", """
[main]
a = oneshot(shift)
b = oneshot(meta)
c = overload(alt, x)
[meta]
d = C-1
[shift+meta]
d = A-2
""", "a b c d", 8 + t, cap=250000)
    yield S("mods-tg", """
[main]
a = toggle(alt)
b = oneshotm(control, S-k)
c = layerm(meta, macro(C-k l))
[alt]
d = 1
[meta]
d = G-2
""", "a b c d", 8 + t, cap=250000)
    yield S("mods-sw", """
[main]
a = layer(alt)
b = layer(shift)
[alt]
c = swap(meta)
d = x
[meta]
c = swapm(control, A-k)
d = S-y
[shift]
c = swap(altgr)
""", "a b c d", 8 + t, cap=250000)
    yield S("mods-ovt", """
[main]
a = overloadt(control, x, 20)
b = overloadt2(shift, y, 20)
c = timeout(z, 20, layer(alt))
""", "a b c d", 7 + t, cap=250000)
    yield S("mods-key", """
[main]
a = C-x
b = S-x
c = x
d = layer(cc)
[cc:C]
c = A-x
""", "a b c d", 9 + t, cap=250000)
    yield S("mods-ag", """
[main]
a = layer(altgr)
b = layer(meta)
[altgr]
c = S-1
[altgr+meta]
c = x
d = layer(alt)
""", "a b c d", 8 + t, cap=250000)
    yield S("mods-comp", """
[main]
a = layer(l1)
b = layer(l2)
[l1:C]
[l2:A]
[l3:S]
[l1+l2]
c = x
d = layer(l3)
[l1+l2+l3]
c = M-y
e = z
""", "a b c d e", 8 + t, cap=250000)
@group("K17")
def k17(t):
    for g in ("", "disable_modifier_guard = 1"):
        n = "-off" if g else ""
        yield S("guard" + n, """
[main]
a = layer(alt)
b = layer(meta)
c = overload(altgr, x)
d = layer(control)
""", "a b c d e", 7 + t, glob=g, cap=250000)
        yield S("guard2" + n, """
[main]
a = overloadt(meta, x, 20)
b = oneshot(alt)
c = toggle(altgr)
d = overload(meta, y)
[alt]
d = z
""", "a b c d e", 7 + t, glob=g, cap=250000)
        yield S("guard3" + n, """
[main]
a = layer(nav)
b = toggle(meta)
[nav:A]
c = C-x
d = swap(gr)
[gr:G]
c = layer(alt)
e = clear()
""", "a b c d e", 7 + t, glob=g, cap=250000)
        yield S("guard4" + n, "", "leftalt leftmeta rightalt leftcontrol a", 8 + t, glob=g, cap=250000)

@group("K06")
def k06(t):
    yield S("composite", COMPOSITE, "a b c d e x", 6 + t, cap=200000)
    yield S("layer", """
[main]
a = layer(one)
b = layer(one)
c = toggle(one)
d = layer(two)
[one:C]
e = 1
d = layer(two)
[two]
e = 2
b = toggle(two)
""", "a b c d e", 7 + t, cap=300000)
    yield S("clear", """
[main]
a = toggle(one)
b = clear()
c = oneshot(two)
d = layer(two)
[one:S]
c = toggle(two)
e = 1
[two:A]
e = 2
b = clear()
""", "a b c d e", 7 + t, cap=300000)
    yield S("clear-held", """
[main]
a = layer(one)
b = toggle(two)
c = clear()
d = x
[one:S]
[two:A]
""", "a b c d", 9 + t, cap=300000)
    yield S("clearm", """
[main]
a = toggle(one)
b = clearm(C-k)
c = layer(two)
[one:S]
d = x
[two:C]
b = clearm(macro(k l))
d = toggle(two)
""", "a b c d", 8 + t, cap=300000)
    yield S("layerm", """
[main]
a = layerm(one, macro(C-k))
b = togglem(one, macro(k l))
c = layerm(two, S-x)
[one:C]
c = togglem(two, A-k)
d = 1
[two]
d = 2
""", "a b c d", 8 + t, cap=300000)
    yield S("toggle2", """
[main]
a = toggle(one)
b = toggle2(two, k)
[one]
a = toggle(two)
c = toggle(one)
[two:C]
a = 1
c = layer(one)
""", "a b c d", 9 + t, cap=300000)
    yield S("nest", """
[main]
a = layer(one)
[one]
b = layer(two)
[two]
c = layer(three)
b = 1
[three:A]
a = 2
b = 3
d = layer(one)
""", "a b c d", 10 + t, cap=300000)
    yield S("clear-chord", """
[main]
a+b = toggle(one)
c = clear()
d = macro(k)
[one:C]
a+b = toggle(one)
""", "a b c d", 8 + t, cap=300000)

@group("K07")
def k07(t):
    b = """
[main]
a = oneshot(one)
b = oneshot(two)
[one:S]
c = 1
b = oneshot(two)
[two]
c = 2
d = C-3
"""
    yield S("os", b, "a b c d", 9 + t, cap=300000)
    yield S("os-timeout", b, "a b c", 8 + t, glob="oneshot_timeout = 20", delays="5 15", cap=300000)
    yield S("os-late", b, "a b c", 7 + t, glob="oneshot_timeout = 20", late=7, early=1, devs=2, cap=300000)
    yield S("os-mods", """
[main]
a = oneshot(shift)
b = oneshot(control)
c = layer(alt)
[control]
d = 1
""", "a b c d e", 7 + t, cap=300000)
    yield S("os-actions", """
[main]
a = oneshot(one)
[one:A]
b = toggle(two)
c = command(x)
d = macro(k l)
e = layer(two)
[two:C]
b = toggle(two)
""", "a b c d e", 7 + t, cap=300000)
    yield S("os-actions2", """
[main]
a = oneshot(one)
[one:A]
b = swap(two)
c = overload(two, y)
d = clear()
e = timeout(x, 20, y)
[two:C]
e = z
""", "a b c d e", 7 + t, cap=300000)
    yield S("osm", """
[main]
a = oneshotm(one, macro(C-k))
b = oneshotm(two, macro(k l))
[one:C]
c = 1
a = oneshotm(two, m)
[two]
c = oneshot(one)
""", "a b c d", 8 + t, cap=300000)
    yield S("os-layout", """
[main]
a = oneshot(one)
b = setlayout(dv)
[one]
c = 1
[dv:layout]
c = 2
d = oneshot(one)
b = setlayout(main)
""", "a b c d", 9 + t, cap=300000)
    yield S("os-toggle", """
[main]
a = oneshot(one)
b = toggle(one)
d = layer(one)
[one:S]
c = 1
""", "a b c d", 9 + t, cap=300000)
    yield S("os-ovt", """
[main]
a = oneshot(one)
b = overloadt(two, x, 20)
c = overloadt2(two, y, 20)
[one:S]
[two:A]
""", "a b c d", 7 + t, glob="oneshot_timeout = 50", cap=300000)
    yield S("os-chord", """
[main]
a = oneshot(one)
b+c = x
[one:S]
c+d = y
""", "a b c d", 8 + t, cap=300000)

@group("K08")
def k08(t):
    b = """
[main]
a = %s
b = swap(two)
[one%s]
b = swap(two)
c = 1
d = swapm(three, macro(C-k))
[two%s]
b = swap(one)
c = 2
d = swap(three)
[three]
c = 3
b = swapm(one, macro(k l))
"""
    for n, a in (("layer", "layer(one)"), ("toggle", "toggle(one)"), ("os", "oneshot(one)"), ("ov", "overload(one, x)"), ("ovt", "overloadt(one, x, 20)")):
        yield S("swap-" + n, b % (a, ":C", ""), "a b c d", 8 + t, cap=200000)
        yield S("swapm-" + n, b % (a, "", ":S"), "a b c d", 8 + t, cap=200000)
    # the modifier layers that always exist, held by the modifier keys themselves
    yield S("swap-control", """
[main]
a = swap(two)
esc = layer(meta)
[control]
a = swap(two)
b = swap(shift)
[shift]
b = swapm(control, macro(x))
[meta]
a = swap(alt)
[two]
a = swap(control)
c = 2
""", "a b leftcontrol leftshift", 7 + t, cap=200000)
    yield S("swap-esc", """
[main]
a = oneshot(one)
b = swap(two)
esc = layer(two)
leftcontrol = toggle(one)
[one:S]
b = swap(two)
[two:C]
c = 1
b = swap(one)
""", "a b esc c", 6 + t, cap=200000)
    yield S("swap-two", """
[main]
a = layer(one)
b = layer(one)
c = toggle(one)
[one:C]
d = swap(two)
[two:S]
e = x
d = swap(one)
""", "a b c d e", 7 + t, cap=200000)
    yield S("swap-os2", """
[main]
a = oneshot(one)
b = toggle(two)
c = layer(one)
[one]
d = swap(two)
[two:S]
d = swap(one)
e = swap2(three, S-x)
[three]
""", "a b c d e", 7 + t, cap=200000)
    yield S("swap-layout", """
[main]
a = setlayout(dv)
c = swap(one)
[dv:layout]
a = setlayout(main)
b = layer(one)
c = swap(two)
[one:A]
c = swap(two)
[two]
d = x
""", "a b c d", 8 + t, cap=200000)
    yield S("swap-held", """
[main]
a = layer(one)
b = swap(one)
c = overload(two, y)
[one:C]
b = swap(two)
[two:S]
b = swap(one)
a = z
""", "a b c d", 8 + t, cap=200000)

@group("K09")
def k09(t):
    for n, g in (("", ""), ("-def", "default_layout = dv"), ("-def2", "default_layout = cm")):
        yield S("layouts" + n, """
[main]
a = setlayout(dv)
b = setlayout(cm)
c = layer(one)
d = 1
[one]
d = 2
a = setlayout(main)
[cm:layout]
d = 3
a = setlayout(main)
[dv:layout]
d = 4
b = setlayout(cm)
e = 5
""", "a b c d e", 7 + t, glob=g, cap=300000)
        yield S("latched" + n, """
[main]
a = setlayout(cm)
b = toggle(one)
c = oneshot(two)
[one:S]
d = 2
a = setlayout(dv)
[two]
a = setlayout(main)
d = 1
[cm:layout]
d = 3
[dv:layout]
b = layer(one)
d = 4
""", "a b c d", 8 + t, glob=g, cap=300000)
        yield S("early" + n, """
[main]
a = layer(one)
b = toggle(two)
f = setlayout(cm)
[one]
d = 1
e = 1
[two]
d = 2
[dv:layout]
d = 3
e = 3
[cm:layout]
d = 4
e = 4
[zz]
d = 5
[main]
c = layer(zz)
""", "a b c d e f", 7 + t, glob=g, cap=300000)
    yield S("layout-held", """
[main]
a = setlayout(dv)
b = x
c = layer(one)
[one:C]
a = setlayout(main)
b = y
[dv:layout]
b = layer(alt)
a = setlayout(main)
shift = layer(one)
""", "a b c leftshift", 8 + t, cap=300000)

@group("K10")
def k10(t):
    for n, g in (("", ""), ("-tt", "overload_tap_timeout = 20")):
        d = "5 25" if g else "5"
        yield S("ov" + n, """
[main]
a = overload(one, x)
b = overload(two, y)
[one:C]
c = 1
b = overload(two, z)
[two]
c = 2
a = 3
""", "a b c", 8 + t, d, glob=g, cap=300000)
        yield S("ov-actions" + n, """
[main]
a = overload(one, macro(k l))
b = overload(one, oneshot(two))
c = overload(two, toggle(one))
[one:S]
[two:A]
""", "a b c d", 7 + t, d, glob=g, cap=300000)
        yield S("ov-actions2" + n, """
[main]
a = overload(one, C-x)
b = overload(one, macro(S-k))
c = overload(two, overload(one, y))
[one:S]
[two:A]
""", "a b c d", 7 + t, d, glob=g, cap=300000)
        yield S("ov-nested" + n, """
[main]
a = overload(one, timeout(x, 30, y))
b = overload(one, overloadt(two, z, 30))
c = overload(one, macro2(30, 10, k))
[one:C]
[two:A]
""", "a b c d", 6 + t, d, glob=g, cap=300000)
        yield S("ov-clear" + n, """
[main]
a = overload(one, clear())
b = toggle(two)
c = overload(two, layer(one))
d = overload(one, setlayout(dv))
[one:C]
c = overload(one, swap(two))
[two]
b = overload(two, clearm(k))
[dv:layout]
""", "a b c d", 7 + t, d, glob=g, cap=300000)
    yield S("ov-exact", """
[main]
a = overload(one, x)
[one:C]
""", "a b", 9 + t, "5 19 20 21", glob="overload_tap_timeout = 20", cap=300000)
    yield S("ov-chord", """
[main]
a = overload(one, x)
b = overload(two, y)
a+b = z
[one:C]
[two:S]
""", "a b c", 8 + t, cap=300000)
    yield S("ov-dup", """
[main]
a = overload(one, x)
b = overload(one, y)
[one:C]
a = overload(one, z)
""", "a b c", 8 + t, dup=1, devs=2, cap=300000)

@group("K11")
def k11(t):
    for op in ("overloadt", "overloadt2"):
        yield S(op, """
[main]
a = %s(one, x, 20)
b = %s(two, y, 20)
[one:C]
c = 1
[two:S]
c = 2
""" % (op, op), "a b c", 8 + t, "5 9", cap=300000)
        yield S(op + "-exact", """
[main]
a = %s(one, x, 20)
[one:C]
c = 1
""" % op, "a b c", 7 + t, "1 19 20 21", late=1, devs=2, cap=300000)
        yield S(op + "-late", """
[main]
a = %s(one, x, 20)
b = timeout(y, 15, z)
[one]
b = 1
""" % op, "a b c", 7 + t, "5", late=40, early=1, devs=2, cap=300000)
        yield S(op + "-actions", """
[main]
a = %s(one, oneshot(two), 20)
b = %s(two, macro(k l), 20)
c = %s(one, toggle(two), 20)
[one:C]
[two:S]
""" % (op, op, op), "a b c d", 6 + t, "5", cap=300000)
        yield S(op + "-mix", """
[main]
a = %s(one, x, 30)
b = overload(two, y)
c = layer(two)
[one:C]
b = overloadt2(two, z, 10)
[two:S]
a = overloadt(one, w, 10)
""" % op, "a b c d", 6 + t, "4", cap=300000)
    yield S("timeout", """
[main]
a = timeout(x, 20, layer(one))
b = timeout(overload(one, y), 15, C-z)
[one:S]
c = 1
""", "a b c", 8 + t, "5 9", cap=300000)
    yield S("timeout-nested", """
[main]
a = timeout(timeout(x, 10, y), 20, timeout(z, 10, w))
b = overloadt(one, timeout(1, 10, 2), 20)
[one]
a = timeout(3, 10, layer(one))
""", "a b c", 7 + t, "3 6", cap=300000)
    yield S("timeout-exact", """
[main]
a = timeout(x, 20, y)
b = timeout(layer(one), 10, z)
[one:C]
""", "a b c", 6 + t, "1 10 19 20", late=1, devs=1, cap=300000)
    yield S("overloadi", """
[main]
a = overloadi(x, overloadt2(one, x, 30), 20)
b = overloadi(layer(one), y, 20)
[one:C]
c = S-1
d = C-2
""", "a b c d", 6 + t, "4 25", cap=300000)
    yield S("overloadi-exact", """
[main]
a = overloadi(x, y, 20)
b = C-b
c = S-c
""", "a b c d", 6 + t, "1 19 20", cap=300000)
    yield S("lettermod", """
[main]
a = lettermod(one, a, 20, 30)
b = lettermod(two, b, 20, 30)
[one:C]
[two:S]
""", "a b c", 7 + t, "4 25", cap=300000)
    yield S("ovt-macro", """
[main]
a = overloadt(one, x, 50)
b = macro2(20, 10, k)
c = oneshot(two)
[one:C]
[two:S]
""", "a b c", 7 + t, "5", glob="oneshot_timeout = 30", cap=300000)

def chordcfgs():
    yield "two", """
[main]
j+k = x
l = layer(one)
[one]
j+k = y
k+l = z
""", "j k l m"
    yield "three", """
[main]
j+k = x
j+k+l = y
k+l = z
""", "j k l m"
    yield "actions", """
[main]
j+k = layer(one)
k+l = overload(one, x)
j+l = oneshot(one)
[one:C]
j+k = 1
""", "j k l m"
    yield "bound", """
[main]
j = a
k = overload(one, b)
j+k = C-x
l = overloadt(one, c, 25)
k+l = macro(p q)
[one:S]
j+k = toggle(one)
""", "j k l m"
    yield "shared", """
[main]
j+k = x
j+l = y
j+m = z
[one]
""", "j k l m"
CH = list(chordcfgs())
# the clock is a millisecond count since boot: nothing may depend on it fitting an int
ROLL = """
[main]
a = overloadt(one, x, 20)
b = overloadt2(one, y, 20)
c = timeout(x, 20, y)
d = overloadi(x, C-y, 20)
e = oneshot(one)
f = macro(k l)
g+h = z
[one:S]
a = m
b = n
f = o
"""
@group("K07", "K11", "K12", "K13", "K14", "K16")
def rollover(t):
    for i, k in enumerate(("a b d", "c d e", "e f a", "g h f") if t else ("a d e f", "g h f b")):
        yield S("rollover-%d" % i, ROLL, k, 5 + t, "9 21", glob="chord_timeout = 20; oneshot_timeout = 30; macro_timeout = 20; macro_repeat_timeout = 10", t0=2147483648 - 25, cap=150000)
# long histories: nothing may depend on a counter fitting a byte or a short
LONG = """
[main]
a = layer(one)
b = layer(two)
c = oneshot(one)
d = toggle(two)
e = swap(one)
f = overload(one, h)
j+k = y
[one]
x = 1
j+k = z
e = swap(two)
[two:C]
x = 2
[one+two]
v = w
"""
@group("K03", "K06", "K07", "K08", "K01", "K19")
def long(t):
    for n in (253, 65533):
        yield S("long-acts-%d" % n, LONG, "a b x", 6, "5", prefix="(a+ a-)x%d" % n, cap=60000)
        yield S("long-taps-%d" % n, LONG, "c a x v", 5, "5", prefix="(c+ c-)x%d" % n, cap=60000)
        yield S("long-toggle-%d" % n, LONG, "d c b x", 5, "5", prefix="(d+ d-)x%d" % n, cap=60000)
        yield S("long-swap-%d" % n, LONG, "c e x b", 5, "5", prefix="a+ (e+ e-)x%d a- (c+ c-)x%d" % (n // 2, n), cap=60000)
        yield S("long-mixed-%d" % n, LONG, "f a b x", 5, "5", prefix="(c+ c- f+ f- b+ x+ x- b- d+ d-)x%d d+ d-" % (n // 2), cap=60000)
@group("K09")
def longlayout(t):
    for n in (253, 65533):
        yield S("long-layouts-%d" % n, "[main]\na = setlayout(dv)\nb = setlayout(cm)\nc = layer(one)\nd = setlayout(main)\n[dv:layout]\nx = 1\n[cm:layout]\nx = 2\n[one]\nx = 3\n", "a c x b d", 5, "5", prefix="(a+ a- c+ c- b+ b-)x%d (c+ c-)x%d" % (n // 2, n - n // 2), cap=60000)
@group("K10", "K11", "K13")
def rollover10(t):
    yield S("rollover-ov", "[main]\na = overload(one, x)\nb = overload(two, y)\nc = overloadt(two, y, 20)\n[one]\nb = z\n[two:C]\n", "a b c d", 4 + t, "9 21", glob="overload_tap_timeout = 20", t0=2147483648 - 25, cap=150000)
    yield S("rollover-ov32", "[main]\na = overload(one, x)\nb = overload(two, y)\nc = overloadt(two, y, 20)\n[one]\nb = z\n[two:C]\n", "a b c d", 4 + t, "9 21", glob="overload_tap_timeout = 20", t0=4294967296 - 25, cap=150000)
@group("K07", "K11", "K12", "K13", "K14", "K16")
def rollover32(t):
    for i, k in enumerate(("a d e f", "g h f b")): yield S("rollover32-%d" % i, ROLL, k, 4 + t, "9 21", glob="chord_timeout = 20; oneshot_timeout = 30; macro_timeout = 20; macro_repeat_timeout = 10", t0=4294967296 - 25, cap=150000)
@group("K07", "K10", "K11", "K12", "K14", "K16")
def hugetimes(t):
    b = "[main]\na = macro(k)\nb = macro2(65535, 65535, p)\nc = overloadt(one, x, 65535)\nd = timeout(x, 65535, y)\ne = oneshot(one)\nf = overload(one, z)\ng+h = w\nj = overloadi(x, y, 65535)\n[one]\na = q\n"
    for i, k in enumerate(("a b f", "c d f", "e a f", "g h e", "j a d")):
        yield S("huge-%d" % i, b, k, 5, "5 40000 69999 70001", glob="macro_timeout = 70000; macro_repeat_timeout = 70000; oneshot_timeout = 70000; chord_timeout = 70000; overload_tap_timeout = 70000", cap=60000)
        yield S("huge-h%d" % i, b, k, 4, "5 40000 99999 100001", glob="macro_timeout = 100000; macro_repeat_timeout = 90000; oneshot_timeout = 100000; chord_timeout = 100000; chord_hold_timeout = 100000; overload_tap_timeout = 100000", cap=60000)
@group("K12")
def k12(t):
    for n, b, k in CH:
        yield S("chord-" + n, b, k, 7 + t, "5", glob="chord_timeout = 20", cap=250000)
        yield S("chord-hold-" + n, b, k, 6 + t, "5 12", glob="chord_timeout = 20; chord_hold_timeout = 30", cap=250000)
        yield S("chord-hold2-" + n, b, k, 7 + t, "5", glob="chord_timeout = 20; chord_hold_timeout = 10", cap=250000)
    yield S("chord-exact", CH[0][1], "j k l", 7 + t, "1 19 20 21", late=1, devs=1, glob="chord_timeout = 20", cap=250000)
    yield S("chord-exact-hold", CH[0][1], "j k l", 6 + t, "1 29 30 31", late=1, devs=1, glob="chord_timeout = 20; chord_hold_timeout = 30", cap=250000)
    yield S("chord-dup", CH[1][1], "j k l", 6 + t, "5", glob="chord_timeout = 20", dup=1, devs=2, cap=250000)
    yield S("chord-late", CH[2][1], "j k l m", 5 + t, "5", glob="chord_timeout = 20; chord_hold_timeout = 15", late=25, early=1, devs=2, cap=250000)
    yield S("chord-five", "[main]\nj+k+l+m+n = x\n", "j k l m n o", 8 + t, "5", glob="chord_timeout = 50", cap=250000)
    yield S("chord-five-four", "[main]\nj+k+l+m = y\nj+k+l+m+n = x\n", "j k l m n", 8 + t, "5", glob="chord_timeout = 50; chord_hold_timeout = 20", cap=250000)
    yield S("chord-eight", "[main]\nj+k+l+m+n+o+p+q = x\n", "j n q a", 5 + t, "5", prefix="k+ l+ m+ o+ p+", glob="chord_timeout = 500", maxdown=12, cap=250000)
    yield S("chord-layers", """
[main]
j+k = 1
a = layer(one)
b = layer(two)
[two]
j+k = 2
[one]
k+j = 3
j = x
""", "a b j k", 8 + t, "5", cap=250000)
    yield S("chord-mods", """
[main]
j+k = C-x
l+m = layer(shift)
leftshift+j = y
[shift]
j+k = z
""", "j k l m leftshift", 6 + t, "5", cap=250000)
    yield S("chord-self", """
[main]
j+j = 1
j+k = 2
k+l+l = 3
a = layer(one)
[one]
j+j+k = 4
""", "a j k l", 6 + t, "5", glob="chord_timeout = 20", cap=250000)
    yield S("chord-self-hold", """
[main]
j+j = 1
j+k = 2
l+l = 3
""", "j k l", 6 + t, "5 12", glob="chord_timeout = 20; chord_hold_timeout = 30", cap=250000)
    yield S("chord-many", """
[main]
a+b = 1
c+d = 2
e+f = 3
g+h = 4
""", "a b c d e f g h", 9, "5", maxdown=8, dup=0, cap=120000)

@group("K13")
def k13(t):
    yield S("ovt-chord", """
[main]
a = overloadt(one, x, 40)
j+k = y
[one:C]
j+k = z
b = overloadt(two, w, 20)
[two]
""", "a b j k", 7 + t, "5", glob="chord_timeout = 20", cap=300000)
    yield S("chord-ovt", """
[main]
j+k = overloadt(one, x, 30)
j = timeout(1, 25, 2)
l = overloadt2(one, y, 30)
[one:C]
""", "j k l m", 6 + t, "5", glob="chord_timeout = 20; chord_hold_timeout = 40", cap=300000)
    yield S("nested", """
[main]
a = overloadt(one, x, 30)
b = overloadt2(two, y, 20)
c = timeout(1, 15, 2)
[one:C]
[two:S]
""", "a b c d", 7 + t, "5", cap=300000)
    yield S("nested-macro", """
[main]
a = overloadt(one, x, 60)
b = macro2(10, 10, k)
c = macro(p 1ms q)
d = oneshot(two)
[one]
c = toggle(two)
[two:S]
""", "a b c d", 7 + t, "5", glob="oneshot_timeout = 15", cap=300000)
    yield S("hold-queue", """
[main]
j+k = layer(one)
l = overloadt(two, x, 20)
[one:C]
l = overload(two, y)
[two:S]
""", "j k l m", 7 + t, "5", glob="chord_timeout = 10; chord_hold_timeout = 45", cap=300000)
    yield S("hold-queue-late", """
[main]
j+k = layer(one)
l = timeout(x, 20, y)
[one:C]
l = macro2(5, 5, k)
""", "j k l", 7 + t, "5", glob="chord_timeout = 10; chord_hold_timeout = 45", late=35, early=1, devs=2, cap=300000)
    # bursts: more events than are held back at once
    for n, body in (("ovt", "a = overloadt(one, x, 2000)"), ("to", "a = timeout(layer(one), 2000, layer(one))"), ("ovt2", "a = overloadt2(one, x, 2000)"), ("chord", "a+b = layer(one)\n[global]\nchord_hold_timeout = 2000")):
        pre = "a+ " + ("b+ " if n == "chord" else "")
        # 26..33 alternating presses and releases of other keys first, then every continuation
        for m in (14, 15, 16, 17):
            seq = " ".join("%s+ %s-" % (k, k) for k in (["c", "d"] * 20)[:m])
            if n in ("to", "ovt2"):   # decided by other keys: keep the keys down instead
                seq = " ".join("%s+" % k for k in "c d e f g h i j k l m o p q r".split()[:m])
            yield S("burst-%s-%d" % (n, m), "[main]\n%s\n[one:S]\nd = y\n" % body, "a b c d", 4 + t, "5", prefix=pre + seq, maxdown=20, cap=100000)
            yield S("burst-%s-%db" % (n, m), "[main]\n%s\n[one:S]\nd = y\n" % body, "a b c d", 4 + t, "5", prefix=pre + seq + " c+", maxdown=20, cap=100000)

@group("K14")
def k14(t):
    # the table of wake-ups is full of old ones
    for n in (60, 61, 62, 63):
        yield S("cap-timers-hold-%d" % n, "[main]\na = macro2(60000, 50, k)\nj+k = y\nd = macro2(30, 20, l)\n", "j k d", 6 + t, "5 14", prefix="(a+ a-)x%d" % n, glob="chord_timeout = 20; chord_hold_timeout = 30", cap=100000)
        yield S("cap-timers-%d" % n, "[main]\na = macro2(60000, 50, k)\nb = oneshot(one)\nj+k = y\nc = overloadt(one, x, 40)\nd = macro2(30, 20, l)\n[one:S]\n", "b j k c d", 5 + t, "5", prefix="(a+ a-)x%d" % n, glob="chord_timeout = 20; chord_hold_timeout = 30; oneshot_timeout = 50", cap=100000)
    for f in (k11, k07, k12, k16, k13):
        for s in f(t - 2 if f is not k13 else t - 2):
            yield s
@group("K14")
def k14b(t):
    yield S("mix", """
[main]
a = overloadt(one, x, 30)
b = oneshot(two)
c = macro(k)
j+k = y
[one:C]
[two:S]
""", "a b c j k", 6 + t, "5", glob="oneshot_timeout = 45; macro_timeout = 25; macro_repeat_timeout = 10; chord_timeout = 20; chord_hold_timeout = 15", late=11, early=1, devs=1, cap=300000)
    yield S("same-deadline", """
[main]
a = overloadt(one, x, 20)
b = overloadt(two, y, 20)
[one:C]
[two:S]
""", "a b c", 7 + t, "0 5", cap=300000)

MACS = ["k", "C-k", "A-S-k", "K", "macro(k l)", "macro(C-k l)", "macro(leftcontrol+k)", "macro(a+b c)", "macro(C-a+b)", "macro(k+2ms+l m)", "macro(k 3ms l)", "macro(5ms)",
        "macro(hi)", "macro(Hi !)", "macro(C-S-x M-y)", "macro(\u00e9)", "macro(a\u00dfb)", "macro(leftshift+leftcontrol+k l)", "macro(k k)", "macro(a+5ms b)", "macro(1ms+2ms)",
        "macro(A-x+y+z q)", "macro(space enter)", "macro(\\\\ \\( \\))", "macro(1+2 3+4)", "macro(G-e M-S-A-C-G-f)", "macro(+)", "macro(a+b+c+d+e+f)", "macro(leftalt)", "macro(x leftmeta+y)", "macro(\u03bb\u20ac)", "macro(abc def)"]
@group("K15")
def k15(t):
    for i, m in enumerate(MACS):
        for j, g in enumerate(("", "macro_sequence_timeout = 700")):
            yield S("mac-%d-%d" % (i, j), "[main]\na = %s\nb = layer(one)\n[one:C]\na = %s\nc = overload(two, %s)\n[two:A-S]\n" % (m, m, m if m.startswith("macro") else "macro(%s)" % m), "a b c leftshift", 4 + t, "5", glob=g, cap=50000)
    toks = ["a", "S-b", "c+d", "7ms", "e+1ms+f", "hi", "\u00e9", "leftcontrol+x", "X", "70ms", "c+3000ms", "\U0010fffd\U000118de", "40000ms", "d+65535ms"]
    for n in (1, 2) if t <= 0 else (1, 2, 3):
        for c in itertools.product(toks, repeat=n):
            yield S("tok-" + "_".join(str(toks.index(x)) for x in c), "[main]\nj = macro(%s)\nk = layer(one)\n[one:A]\nl = macro(%s)\n" % (" ".join(c), " ".join(c)), "j k l", 3, "5", glob="macro_sequence_timeout = 300" if toks.index(c[0]) % 2 else "")
    yield S("seq-long", "[main]\na = macro(b c)\nb = macro(d+e f)\n", "a b", 4, "5", glob="macro_sequence_timeout = 70000")
    for m in MACS[:12]:
        mm = m if m.startswith("macro") else "macro(%s)" % m
        yield S("macm-%d" % MACS.index(m), "[main]\na = layerm(one, %s)\nb = oneshotm(two, %s)\nc = togglem(one, %s)\nd = clearm(%s)\n[one:C]\nd = swapm(two, %s)\ne = macro2(0, 0, %s)\n[two:S]\n" % ((mm,) * 6), "a b c d e", 4 + t, "5", cap=60000)

@group("K16")
def k16(t):
    yield S("rep", """
[main]
a = macro(k)
b = macro(p q)
c = layer(one)
[one:C]
a = macro(C-z)
""", "a b c d", 7 + t, "5", glob="macro_timeout = 20; macro_repeat_timeout = 10", cap=250000)
    yield S("rep-default", "[main]\na = macro(k)\nb = x\n", "a b", 8 + t, "5 45", cap=250000)
    yield S("macro2", """
[main]
a = macro2(20, 7, k)
b = macro2(8, 20, macro(p q))
c = macro(z)
""", "a b c d", 7 + t, "3", glob="macro_timeout = 15; macro_repeat_timeout = 5", cap=250000)
    for i, (x, y) in enumerate(((0, 5), (5, 0), (0, 0))):
        yield S("zero-%d" % i, "[main]\na = macro(k)\nb = macro2(%d, %d, l)\nc = overload(one, macro(k))\n[one]\n" % (x, y), "a b c d", 6 + t, "3 9", glob="macro_timeout = %d; macro_repeat_timeout = %d" % (x, y), early=1, devs=1, cap=250000)
    yield S("rep-late", "[main]\na = macro(k)\nb = macro2(20, 7, C-k)\nc = layer(one)\n[one:S]\n", "a b c", 8 + t, "5", glob="macro_timeout = 20; macro_repeat_timeout = 10", late=25, early=1, devs=2, cap=250000)
    yield S("rep-stop", """
[main]
a = macro(k)
b = oneshot(one)
c = clear()
d = setlayout(dv)
[one:C]
[dv:layout]
""", "a b c d", 7 + t, "5", glob="macro_timeout = 20; macro_repeat_timeout = 10; oneshot_timeout = 12", dup=1, devs=1, cap=250000)
    yield S("rep-mods", """
[main]
a = layer(one)
b = macro(C-k)
[one:A]
b = macro(p S-q)
c = macro(M-k)
""", "a b c leftshift", 7 + t, "5", glob="macro_timeout = 20; macro_repeat_timeout = 10; macro_sequence_timeout = 100", cap=250000)
    yield S("rep-ov", """
[main]
a = overload(one, macro(k))
b = overload(one, macro2(20, 10, l))
c = overloadt(one, macro(p q), 15)
d = timeout(macro(r), 15, macro2(10, 10, s))
[one:C]
""", "a b c d", 6 + t, "5", glob="macro_timeout = 20; macro_repeat_timeout = 10", cap=250000)
    yield S("rep-chord", """
[main]
a+b = macro(k)
c = macro(l)
""", "a b c", 7 + t, "5", glob="macro_timeout = 30; macro_repeat_timeout = 10; chord_timeout = 20", cap=250000)

@group("K19")
def k19(t):
    yield S("composite-active", COMPOSITE, "a b c d e x", 6 + t, cap=200000)
    for f in (k06, k07, k08, k09):
        for s in f(t - 1): yield s

@group("K20")
def k20(t):
    yield S("cmd", """
[main]
a = command(echo one)
b = overload(one, command(echo "two \\( three"))
c = oneshot(one)
d = layer(one)
[one:C]
a = command(x; y & z)
""", "a b c d e", 6 + t, cap=200000)
    yield S("cmd-timed", """
[main]
a = overloadt(one, command(p), 20)
b = timeout(command(q), 20, command(r))
c+d = command(s)
[one:S]
c = command(t)
""", "a b c d", 6 + t, cap=200000)
    yield S("cmd-execfail", "[main]\na = command(p)\nb = x\n", "a b", 5, execfail=1, cap=200000)
    yield S("cmd-dup", "[main]\na = command(p)\nb = toggle(one)\n[one]\na = command(q)\n", "a b", 8, dup=1, devs=2, cap=200000)
    many = "\n".join("%s = command(c%d)" % (k, i) for i, k in enumerate("a b c d e f g h".split()))
    yield S("cmd-many", "[main]\n" + many, "a b c d e f g h", 4, cap=200000)

# ---------------------------------------------------------------- broad families (invariants)
CORE = ["key", "skey", "layerC", "osC", "os", "tgC", "sw", "swC", "swm", "clear", "clearm", "lay", "ovC", "ovm", "ovto", "ovt", "ovt2", "lm", "to", "mac1", "mac2", "ovalt"]
CHORDP = """
[main]
a = %s
b = %s
a+b = %s
[sy:C]
c = right
[nav]
a+c = z
[sh:S]
[lay:layout]
"""
def chordpairs(depth, names, **h):
    for n1, n2 in itertools.product(names, names):
        yield S("chordp-%s-%s" % (n1, n2), CHORDP % (AD[n1], "b", AD[n2]), "a b c", depth, "5", glob="chord_timeout = 20", **h)
@group("K01")
def k01(t):
    for s in pairs(6 + t, CORE if t <= 0 else None, cap=60000): yield s
    for s in chordpairs(6 + t, ["key", "layerC", "osC", "tgC", "ovC", "ovt", "to", "mac1", "swC", "ovto"]): yield s
    for f in (k04, k06, k08, k10, k12, k13):
        for s in f(t - 1): yield s
@group("K02")
def k02(t):
    for s in pairs(5 + t, CORE if t <= 0 else None, cap=60000): yield s
    for f in (k05, k07, k12, k17, k11):
        for s in f(t - 1): yield s
    yield S("noop", "[main]\na = noop\nb = layer(one)\nc = overload(one, noop)\nd = macro(x)\n[one:C]\na = C-noop\nd = noop\n", "a b c d", 7 + t)
@group("K18")
def k18(t):
    for s in pairs(5 + t, CORE if t <= 0 else None, place=("n",), dup=1, devs=2, late=30, cap=40000): yield s
    for s in chordpairs(5 + t, ["key", "layerC", "ovC", "ovt", "to", "swC"], dup=1, devs=2): yield s
    # capacities: each prefix drives a fixed table to its limit, then everything is tried
    yield S("cap-oneshot", "[main]\na = oneshot(one)\nb = layer(one)\n[one:S]\n", "a b c", 4, "5", prefix="(a+ a-)x254", model=0)
    yield S("cap-oneshot2", "[main]\na = oneshot(one)\nb = toggle(one)\n[one:S]\nb = toggle(one)\n", "a b c", 4, "5", prefix="(a+ a-)x256", model=0)
    for n in (62, 63, 64, 65):
        yield S("cap-timers-%d" % n, "[main]\na = oneshot(one)\nb = overloadt(one, x, 50)\nc = macro2(60000, 50, k)\n[one:S]\n", "a b c", 4, "5", prefix="(a+ a-)x%d" % n, glob="oneshot_timeout = 60000", model=1 if n < 60 else 0)
        yield S("cap-timers2-%d" % n, "[main]\na = macro2(60000, 50, k)\nj+k = y\n", "a j k", 5, "5", prefix="(a+ a-)x%d" % n, glob="chord_timeout = 20; chord_hold_timeout = 30", model=0)
    allk = "a b c d e f g h i j k l m n o p q r".split()
    for n in (14, 15, 16, 17):
        yield S("cap-keys-%d" % n, "[main]\nz = layer(one)\ny = overload(one, x)\nw = overloadt(one, x, 50)\n[one:C]\nv = swap(one)\n", "z y w v a", 4, "5", prefix=" ".join(k + "+" for k in allk[:n]), maxdown=20)
    yield S("cap-chords", "[main]\na+b = layer(one)\nc+d = 2\ne+f = 3\ng+h = 4\ni+j = 5\n[one:C]\n", "g h i j", 5, "5", prefix="a+ b+ c+ d+ e+ f+", maxdown=12)
    for m in (30, 31, 32, 33):
        yield S("cap-q-ovt-%d" % m, "[main]\na = overloadt(one, x, 5000)\nb = overloadt(one, y, 5000)\n[one:C]\n", "a b c d", 4, "5", prefix="a+ " + ("(c+ c-)x%d" % (m // 2)) + (" c+" if m % 2 else ""), maxdown=20)
        yield S("cap-q-chord-%d" % m, "[main]\nj+k = x\n[one:C]\n", "j k c d", 4, "5", prefix="j+ k+ " + ("(c+ c-)x%d" % ((m - 2) // 2)) + (" c+" if m % 2 else ""), glob="chord_hold_timeout = 5000", maxdown=20)
        yield S("cap-q-chorddup-%d" % m, "[main]\nj+k = x\n", "j k c d", 4, "5", prefix="(j+)x%d" % m, glob="chord_timeout = 50000", maxdown=20, model=0)
    yield S("cap-layers", "[main]\na = layer(l1)\n" + "".join("[l%d:C]\na = layer(l%d)\nb = toggle(l%d)\nc = oneshot(l%d)\n" % (i, i % 25 + 1, i % 25 + 1, i % 25 + 1) for i in range(1, 26)), "a b c d", 6 + t, "5")

# ---------------------------------------------------------------- runtime bindings
BINDS = ["b = x", "b = C-y", "b = layer(one)", "b = overload(one, x)", "b = overload(two, S-y)", "b = macro(k l)", "b = macro(p C-q)", "b = command(one)", "b = command(two)", "b = timeout(x, 20, layer(one))", "b = lettermod(one, q, 15, 20)",
         "one.b = toggle(two)", "one.b = layerm(two, C-k)", "a+b = z", "b+a = overload(one, y)", "one.a+b = macro(m n)", "al = w", "shift = v", "b =", "one.c = noop",
         "b = overload(one, foo)", "b = layer(nolayer)", "nolayer.b = x", "b+ = x", "+ = x", "nokey = x", "b = macro(k+nokey)", "b", "", "one.", "= x", "b = overload(one, macro(k l)", "b = swapm(one, macro(k), 5)", "a+nokey = overload(one, macro(k))", "reset", "reset ", "b = overloadt(dv, x, 5)", "b = setlayout(dv)", "dv.b = setlayout(main)", "one+two.b = 9", "two+one.b = 8", "b = timeout(overload(one, x), 20, macro2(5, 5, k))",
         ". = x", "one.. = y", "b = .", "b = macro(. .5)", "one.b.c = x", "one.b = x.y", "one.= = k", "b=x", "one.b=macro(1.5)", "one.b = macro(two.c)"]
BINDBASE = """
[aliases]
d = al
[main]
a = layer(one)
c = macro(u v)
b+c = overload(two, t)
[one:C]
b = overload(two, macro(r s))
[two:S]
[dv:layout]
[one+two]
"""
@group("F07")
def f07(t):
    # every sequence of bindings: the whole configuration is compared after each
    yield S("binds", BINDBASE, "b", 3 + max(t, 0) // 2, "5", eval=BINDS, fixed=1, cap=4000000)
    few = ["b = x", "b = overload(one, y)", "one.b = macro(p q)", "b = overload(two, macro(k))", "a+b = z", "b = overload(one, foo)", "b = macro(k+nokey)", "reset"]
    yield S("binds-deep", BINDBASE, "b", 6 + max(t, 0) // 2, "5", eval=few, fixed=1, cap=4000000)
    # bindings between the press and the release of keys
    for n, base, ev in (
        ("ov", "[main]\na = layer(one)\nb = overload(one, x)\n[one:C]\n[two:S]\n", ["b = overload(two, y)", "a = overload(two, z)", "b = overload(one, foo)", "reset"]),
        ("mac", "[main]\na = macro(x)\nb = y\n", ["b = macro(k)", "a = macro(l)", "reset"]),
        ("ovt", "[main]\na = overloadt(one, x, 20)\nb = y\n[one:C]\n[two:S]\n", ["b = overloadt2(two, z, 20)", "a = timeout(k, 20, l)", "reset"]),
        ("os", "[main]\na = oneshot(one)\nb = toggle(two)\n[one:C]\n[two:S]\n", ["one.b = overload(one, k)", "two.a = swap(one)", "b = clear()", "reset"]),
        ("layout", "[main]\na = setlayout(dv)\nb = x\n[dv:layout]\nb = y\na = setlayout(main)\n", ["dv.b = overload(shift, z)", "a = oneshot(shift)", "reset"]),
        ("to-mac", "[main]\na = x\nb = y\n[one:C]\n", ["b = timeout(macro(k), 20, macro(l))", "a = macro(m)", "reset"]),
        ("ovt-cmd", "[main]\na = x\nb = y\n[one:C]\n", ["b = overloadt2(one, command(p), 20)", "a = command(q)", "reset"]),
        ("nested", "[main]\na = x\nb = y\n[one:C]\n", ["b = timeout(overload(one, k), 20, overload(one, l))", "a = overload(one, m)", "reset"]),
        ("cmd", "[main]\na = command(p)\nb = x\n", ["b = command(q)", "a = overload(shift, command(r))", "reset"]),
        ("macro2", "[main]\na = macro2(20, 10, x)\nb = y\n", ["b = macro2(10, 20, k)", "a = overload(shift, macro(l))", "reset"]),
        ("lm", "[main]\na = lettermod(one, x, 15, 20)\nb = y\n[one:C]\n", ["b = lettermod(one, z, 20, 15)", "a = overloadi(k, l, 10)", "reset"]),
        ("mods", "[main]\na = layer(one)\nb = C-x\n[one:C]\nb = S-y\n", ["b = S-z", "one.b = A-k", "one.b =", "shift = x", "reset"]),
        ):
        yield S("bind-" + n, base, "a b c", 6 + t, "5", eval=ev, glob="macro_timeout = 20; macro_repeat_timeout = 10", cap=300000)
    for n, base, ev in (
        ("chord", "[main]\na+b = x\nc = layer(one)\n[one:C]\na+b = y\n", ["a+b = z", "b+c = overload(one, k)", "one.a+c = macro(l)", "reset"]),
        ("chord2", "[main]\na+b = layer(one)\n[one:C]\n", ["a+b = overload(one, z)", "a = x", "a+b+c = k", "reset"]),
        ("chord-mac", "[main]\na+c = x\n", ["a+b = macro(k)", "c = macro(l)", "b+c = timeout(macro(m), 20, x)", "reset"]),
        ):
        yield S("bind-" + n, base, "a b c", 5 + t, "5", eval=ev, glob="chord_timeout = 20", cap=300000)
        yield S("bind-hold-" + n, base, "a b c", 5 + t, "5", eval=ev, glob="chord_timeout = 20; chord_hold_timeout = 30", cap=300000)
    # a reset while a chord, a timed key or a key of a runtime binding is not done yet, and another binding after it
    for n, base, ev, ks in (
        ("chord", "[main]\nc = y\n", ["a+b = macro(k l)", "c = macro(m n)", "reset"], "a b c"),
        ("chord-ov", "[main]\nc = y\n[one:C]\n[two:S]\n", ["a+b = overload(one, k)", "c = overload(two, m)", "reset"], "a b c"),
        ("chord-amb", "[main]\na+b+c = y\n", ["a+b = macro(k l)", "c = macro(m n)", "reset"], "a b c"),
        ("swapm", "[main]\na = layer(one)\n[one:C]\nb = x\n[two:S]\n", ["one.b = swapm(two, C-k)", "one.c = swapm(two, l)", "reset"], "a b c"),
        ("to", "[main]\nc = y\n[one:C]\n", ["b = timeout(macro(k l), 20, overload(one, m))", "c = overload(one, macro(o p))", "reset"], "b c"),
        ("cmd", "[main]\nc = y\n", ["a+b = command(p)", "c = command(q)", "reset"], "a b c"),
        ):
        yield S("reset-" + n, base, ks, 7 + t, "5", eval=ev, glob="chord_timeout = 20; chord_hold_timeout = 30", cap=300000)
    # capacities: bindings beyond the limits are rejected and change nothing
    fill = "[main]\na = overload(one, x)\n[one:C]\n"
    for n, v in ((254, "macro(k%d 1ms)"), (255, "macro(k 1ms)"), (256, "macro(k 1ms)")):
        ks = ["f%d" % i for i in range(1, 13)]
        body = "[main]\n" + "".join("c = macro(k 1ms)\n" for _ in range(n)) + "[one:C]\n"
        yield S("limit-macro-%d" % n, body, "b", 4, "5", eval=["b = macro(p q)", "b = overload(one, macro(r))", "b = overload(one, x)", "b = layerm(one, macro(s))", "reset"], fixed=1, maxdown=0)
    for n in (62, 63, 64):
        yield S("limit-cmd-%d" % n, "[main]\n" + "c = command(z)\n" * n, "b", 4, "5", eval=["b = command(p)", "b = overload(shift, command(q))", "b = x", "reset"], fixed=1, maxdown=0)
    for n in (1021, 1022, 1023, 1024):
        secs = "".join("[main]\n" + "c = overload(shift, x)\n" * min(1000, n - k) for k in range(0, n, 1000))
        yield S("limit-desc-%d" % n, secs, "b", 4, "5", eval=["b = overload(shift, y)", "b = timeout(x, 20, y)", "b = timeout(overload(shift, x), 20, macro(k))", "b = x", "reset"], fixed=1, maxdown=0)
    for n in (63, 64):
        names = ["%s+%s" % (x, y) for x in "abcdefghijkl" for y in "mnopqr"][:n]
        yield S("limit-chord-%d" % n, "[main]\n" + "".join("%s = x\n" % c for c in names), "b", 4, "5", eval=["a+b = y", "m+a = z", "b+c = overload(shift, macro(k))", "reset"], fixed=1, maxdown=0)

# every action paired with every action of the property's own kind, in lockstep
FAM = {"K04": ["layer", "layerC", "mod", "os", "tgC", "sw", "swC", "ovC", "clear", "lay"], "K05": ["ckey", "skey", "layerC", "mod", "osC", "tgC", "swC", "ovC", "ovt", "mac1", "macc"], "K06": ["layer", "layerC", "tg", "tgC", "layerm", "tgm", "clear", "clearm"], "K07": ["os", "osC", "osm", "ovos"], "K08": ["sw", "swC", "swm", "swm2"],
       "K09": ["lay", "lay0"], "K10": ["ov", "ovC", "ovm", "ovos", "ovto", "ovalt"], "K11": ["ovt", "ovt2", "ovi", "lm", "to", "toov"], "K13": ["ovt", "ovt2", "lm", "to", "toov"], "K14": ["ovt", "ovt2", "lm", "to", "mac", "mac2", "ovm"],
       "K15": ["mac", "mac1", "mac2", "macc", "layerm", "osm", "tgm", "swm", "swm2", "clearm"], "K16": ["mac", "mac1", "mac2", "ovm", "macc"], "K17": ["mod", "ovalt"], "K19": ["layer", "tg", "os", "sw", "lay", "clear", "ovC", "ovt"], "K20": ["cmd"], "K03": ["layer", "tg", "os", "lay", "sw"]}
def fam(prop, t):
    names = FAM[prop]; g = {"K07": "oneshot_timeout = 40", "K14": "oneshot_timeout = 40", "K10": "overload_tap_timeout = 12"}.get(prop, "")
    for (n1, a1), (n2, a2) in itertools.product(ACTIONS, ACTIONS):
        if n1 not in names and n2 not in names: continue
        yield S("fam-%s-%s" % (n1, n2), "[main]\na = %s\nb = %s\n%s" % (a1, a2, LAYERS), "a b c", 6 + t, "5", glob=g, fixed=1, cap=60000 if t <= 0 else 400000)
        if "nav" in a1 or "sy" in a1 or "lay" in a1: yield S("famn-%s-%s" % (n1, n2), "[main]\na = %s\n" % a1 + LAYERS.replace("c = ", "b = %s\nc = " % a2), "a b c", 6 + t, "5", glob=g, fixed=1, cap=60000 if t <= 0 else 400000)
for _p in FAM: G.setdefault(_p, []).append((lambda p: lambda t: fam(p, t))(_p))

CMPS = {"K01": "stuck", "K02": "well", "K03": "plain,kmods", "K04": "keys,layers", "K05": "kmods", "K06": "keys,layers", "K07": "keys,layers", "K08": "keys,layers",
        "K09": "keys,layers", "K10": "keys,layers", "K11": "keys,layers", "K12": "keys,layers", "K13": "keys,layers", "K14": "wake", "K15": "keys", "K16": "keys",
        "K17": "keys", "K18": "crash", "K19": "layers", "K20": "cmd", "F07": "keys,layers,cmd,config"}
NOMODEL = {"K01", "K02", "K18"}

def bundle(prop, tier):
    t = {"quick": 0, "thorough": 2}[tier]; more = {"quick": 3, "thorough": 4}[tier]
    def deepen(s):
        if "#! prefix" in s or "#! fixed" in s: return s
        k = more - 2 if "#! eval" in s else more
        s = re.sub(r"(#! depth )(\d+)", lambda m: m[1] + str(int(m[2]) + k), s, count=1)
        return re.sub(r"(#! cap )(\d+)", lambda m: m[1] + str(int(m[2]) * (8 if t else 1)), s, count=1) if "#! cap" in s else s.replace("#! keys", "#! cap %d\n#! keys" % (150000 * (8 if t else 1)), 1)
    out, seen = [], {}
    for f in G[prop]:
        for s in f(t):
            if s.startswith("#! id"):
                i = s.split("\n", 1)[0][6:]; n = seen[i] = seen.get(i, 0) + 1
                if n > 1: s = s.replace("#! id " + i, "#! id %s_%d" % (i, n), 1)
            if prop in NOMODEL and "#! model" not in s: s = s.replace("#! keys", "#! model 0\n#! keys", 1)
            if prop == "K01": s = re.sub(r"#! dup.*\n", "", s)      # a key reported down twice is released twice
            if prop == "K14": s = s.replace("#! late", "#! lateev 0\n#! late")      # the daemon delivers an overdue timer before an event (D07)
            out.append(deepen(s))
    return CMPS[prop], out
