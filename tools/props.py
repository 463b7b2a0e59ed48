#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
T87 = "The 87 tests replay one fixed key sequence each under one fixed config; "
def A(files, mech, state=(), obs=("virtual keyboard output",), hook=None):
    return {"files": list(files), "mechanism": [dict(name=n, where=w) for n, w in mech],
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state], "observe_at": list(obs), "hook_needed": hook}
KB = "src/keyboard.c"; CF = "src/config.c"
P = []
def p(id, title, statement, over, text, why, anchors):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

HC = ["histories", "configurations", "schedules"]
p("K01", "No key is left stuck once everything is released",
  "After any sequence of key events in any configuration, once every physical key has been released and all timers have run out, no key is left held down on the virtual keyboard except the modifiers of layers that are latched on purpose (toggled, oneshot, or the current layout). Layers that only a held key can keep active are inactive again.",
  HC, "all press/release/timer interleavings of a small key set up to the bound, for every pair of bindable actions and for multi-feature configurations",
  T87 + "a stuck key needs a particular order of releases, layer changes and timers across two features, and most tests end without checking what is still down.",
  A([KB], [("descriptor cache", KB + ":cache_set/cache_get"), ("layer reference counts", KB + ":activate_layer/deactivate_layer"), ("keystate", KB + ":send_key")],
    [("keystate", "what the virtual keyboard currently holds", "src/keyboard.h")]))
p("K02", "Output is well formed: press and release strictly alternate per key",
  "In everything keyd emits, each key is only pressed when it is up and only released when it is down, and never auto-repeated, as long as no macro presses a key that is already held; internal placeholder codes (noop, the external mouse button, chord codes, code 0) never reach the virtual keyboard.",
  HC, "all event histories up to the bound over all action pairs",
  T87 + "the test harness compares expected text only for the sampled histories.",
  A([KB, "src/macro.c"], [("keystate filter", KB + ":send_key"), ("macro playback", "src/macro.c:macro_execute")]))
p("K03", "A press resolves to the binding the documentation prescribes",
  "A key press is resolved to the binding of the most recently activated active layer that binds the key (ties to the later defined layer); a composite layer all of whose constituents are active takes precedence over these, the one with most constituents first; a key bound nowhere acts as itself.",
  ["configurations", "histories"], "all activation orders and overlaps of layers, toggles, layouts and composites over a shared key",
  T87 + "precedence depends on the relative order of activations, of which tests try a few.",
  A([KB], [("lookup", KB + ":lookup_descriptor"), ("activation stamps", KB + ":get_time/activate_layer")], [("activation_time", "order in which layers were activated", "src/keyboard.h")]))
p("K04", "A release undoes exactly what its press did",
  "Releasing a key completes the action that was chosen when it was pressed, whatever layers were activated, deactivated, toggled, swapped or rebound in between. Each layer is active exactly as long as at least one held key, toggle or oneshot keeps it active.",
  HC, "all interleavings of layer changes and runtime rebinding between a press and its release",
  T87 + "the in-between changes are a history quantifier; tests have one or two.",
  A([KB], [("descriptor cache", KB + ":process_event cache_set/cache_get")]))
p("K05", "Keystrokes carry exactly the modifiers they should",
  "At the moment a key goes down, the modifiers held on the virtual keyboard are exactly those of the active layers plus those the binding names, less those of the layer the binding was found in (or, for a composite, its constituents). When nothing is being pressed, the held modifiers are exactly those of the active layers.",
  HC, "all histories up to the bound over configs mixing modifier layers, composites and modified key bindings",
  T87 + "modifier state is cumulative over history.",
  A([KB], [("modifier update", KB + ":update_mods/set_mods")]))
p("K06", "layer, toggle, layerm, togglem and clear do what they document",
  "layer() holds a layer for as long as the key is held, toggle() flips it, the m-variants additionally play their macro at the press, and clear()/clearm() drop every toggled and oneshot layer and every held output key. A layer requested by several keys stays active until the last of them lets go.",
  HC, "all press/release orders of keys sharing and nesting layers, with toggles and clears in between",
  T87 + "reference counting errors show only on overlapping holds.",
  A([KB], [("OP_LAYER/OP_TOGGLE/OP_CLEAR", KB + ":process_descriptor"), ("clear", KB + ":clear")]))
p("K07", "oneshot applies to exactly the next key, or acts as a hold",
  "A tapped oneshot layer stays active up to and including the next key that produces a keystroke, macro, toggle or command, after which it is gone; tapped oneshots stack; if another key is struck while the oneshot key is held the layer ends with the release. With a oneshot_timeout, an unused oneshot is dropped when the timeout has elapsed since the last tap.",
  HC, "all interleavings of oneshot taps, stacked oneshots, other keys, and the timeout",
  T87 + "the latch/depth logic depends on interleavings and on time.",
  A([KB], [("oneshot latch and depth", KB + ":process_descriptor OP_ONESHOT, clear_oneshot")], [("oneshot_depth", "pending oneshot taps per layer", "src/keyboard.h")]))
p("K08", "swap replaces the layer that is active by the new one",
  "swap() exchanges the layer its binding came from for the named one, preserving why that layer was active: held (until the same key is released), toggled, or oneshot; swapm() also plays its macro. When the binding's layer is not active in any of these ways swap() changes no layer.",
  HC, "all interleavings of layer keys, toggles, oneshots with swap keys and their releases",
  T87 + "swap rewrites the meaning of a key that is already down.",
  A([KB], [("OP_SWAP", KB + ":process_descriptor")]))
p("K09", "Exactly one layout is current and layouts never outrank layers",
  "setlayout() makes the named layout the only active one (main meaning none) and clears latched layers; the default_layout is active from the start. Any later activated layer takes precedence over the layout, and the layout over main.",
  HC, "all interleavings of layout changes with layer holds, toggles and oneshots",
  T87 + "precedence against layers depends on activation history.",
  A([KB], [("setlayout", KB + ":setlayout/new_keyboard"), ("lookup", KB + ":lookup_descriptor")]))
p("K10", "overload: layer while held, action when tapped alone",
  "overload() activates its layer while the key is down and performs its action (as a full tap) on release only if no other key was struck in between and, with overload_tap_timeout set, only if it was released sooner than that.",
  HC, "all interleavings and timings of the overload key with other keys, including nested overloads and every kind of tap action",
  T87 + "the tap/hold decision depends on interleaving and elapsed time.",
  A([KB], [("OP_OVERLOAD", KB + ":process_descriptor")]))
p("K11", "Timed decisions (overloadt, overloadt2, overloadi, timeout) follow the rules",
  "overloadt() and overloadt2() become their tap action if released before the timeout and their layer after it, overloadt2() also as soon as another key is tapped; timeout() becomes its first action when released or interrupted before the timeout and its second action after it; overloadi() picks its first action if the last simple keystroke was less than the timeout ago, otherwise its second. The decision depends only on the events' own times.",
  HC, "all interleavings and timings around the decision thresholds",
  T87 + "decisions are a function of real-valued timing and interleaving.",
  A([KB], [("pending key", KB + ":handle_pending_key"), ("OP_OVERLOAD_IDLE_TIMEOUT", KB + ":process_descriptor")]))
p("K12", "Chords fire if and only if their keys are struck together",
  "A chord of the active layers fires once when exactly its keys are pressed, each within the chord timeout of the one before it (and, with a hold timeout, not released before it), in any order, and is released when the last of its keys is released; while a larger chord is still possible the decision waits. In every other case its keys act individually, in order.",
  HC, "all orders and timings of 2-3 chord keys plus a foreign key, overlapping and nested chords, with and without hold timeout",
  T87 + "chord recognition is a timing and ordering state machine.",
  A([KB], [("chord machine", KB + ":handle_chord/check_chord_match/resolve_chord")]))
p("K13", "Delayed events are neither lost, duplicated nor reordered",
  "Key events that arrive while a chord or a timed decision is unresolved are processed once it is resolved, all of them, once each, in order and as of the time they occurred, however many they are.",
  HC, "all histories up to the bound with pending decisions nested in each other, and long bursts that exceed internal queues",
  T87 + "no test queues more than a few events, none fills a queue.",
  A([KB], [("pending queue", KB + ":handle_pending_key"), ("chord queue", KB + ":enqueue_chord_event/resolve_chord"), ("replay", KB + ":kbd_process_events")]))
p("K14", "Time-driven actions happen without further input, no later than due",
  "Whenever some action is due in the future if no key is touched (a timed decision, a chord decision, a oneshot timeout, a macro repetition), the engine has asked to be called again no later than that time; being called earlier than asked changes nothing.",
  HC, "every reachable state: the requested wake-up against the deadline of the reference, and the effect of an additional early call",
  T87 + "the test driver itself supplies the timeouts; nobody checks they were requested in each state.",
  A([KB], [("timeouts", KB + ":schedule_timeout/calculate_main_loop_timeout")], [("timeouts", "requested wake-ups", "src/keyboard.h")], ("return value of the event entry point",)))
p("K15", "Macros emit exactly what they spell",
  "Playing a macro emits its keys, modified keys, chorded groups, unicode characters and pauses in the written order, each key released after it was pressed, with the configured delay between steps, with no layer modifiers held that do not belong to it, and leaves the modifiers of the active layers in place afterwards.",
  ["inputs", "configurations", "histories"], "all token sequences up to the bound, played from every modifier state",
  T87 + "macro content is an input language.",
  A(["src/macro.c", KB], [("macro_execute", "src/macro.c"), ("execute_macro", KB)]))
p("K16", "A held macro repeats on schedule and stops on any other event",
  "A macro key that is held repeats its macro first after macro_timeout and then every macro_repeat_timeout (for macro2: its own values; 0 disables repetition), and never again once any other key event, including its own release, has been seen.",
  HC, "all interleavings of macro keys with other keys, releases and timer ticks, on time and late",
  T87 + "the driver in the tests covers two schedules.",
  A([KB], [("active macro", KB + ":process_event")]))
p("K17", "The modifier guard prevents stray taps of alt and meta, and only that",
  "When meta, alt or altgr would be released on the virtual keyboard as the last key that had been pressed on it, an intervening control tap is emitted, unless the guard is disabled, control is already down, or the key itself was tapped as a plain layer key. In all other cases no control tap is added.",
  HC, "all histories over modifier layers with the guard on and off",
  T87 + "whether the guard fires depends on history.",
  A([KB], [("clear_mod", KB)]))
p("K18", "No stream of input events can crash or hang the engine",
  "For every configuration that loads and every stream of key events, including duplicated presses, orphan releases, more simultaneous keys than the engine tracks, long bursts and late timers, event processing terminates without crash, abort or memory error.",
  ["histories", "configurations", "inputs"], "all action pairs with duplicate and orphan events, and capacity histories that exceed every fixed-size table by more than one",
  T87 + "none exceeds a capacity.",
  A([KB], [("queue bounds", KB + ":handle_pending_key/enqueue_chord_event"), ("timer table", KB + ":schedule_timeout"), ("layer counters", "src/keyboard.h")]))
p("K19", "Layer change notifications match the layer state",
  "Every activation or deactivation of a layer is notified exactly once, in order, so that counting notifications gives for each layer how many times it is currently active; a change of layout is notified as an activation of that layout.",
  HC, "all histories over all layer-changing actions",
  T87 + "the tests do not look at notifications at all.",
  A([KB, "src/daemon.c"], [("on_layer_change", KB + ":activate_layer/deactivate_layer/setlayout")], (), ("layer change callback", "keyd listen")))
p("K20", "command() runs its command exactly once per press",
  "Pressing a key bound to command() starts exactly that shell command once, detached from the daemon, never on release, and whatever happens to the command, key processing goes on.",
  ["histories", "fault_sequences"], "all histories over a command key; both sides of each fork, and failing system calls",
  T87 + "no test covers commands.",
  A([KB], [("execute_command", KB)], (), ("fork/exec",)))

CI = ["inputs", "configurations"]
p("F01", "A configuration means what the documentation says",
  "Loading a configuration file yields exactly the documented layers, bindings, chords, aliases and options: the behaviour of each key in each layer equals what its line says, later lines override earlier ones for the same key, and defaults apply to what is not mentioned. The layouts and examples that come with keyd are accepted in full.",
  CI, "all small config files over a grammar of section headers, keys, actions and options, each loaded and compared entry by entry with an independent reader",
  "The tests load a single config file.",
  A([CF, "src/ini.c"], [("config_parse", CF), ("ini_parse_string", "src/ini.c")], (), ("loaded configuration",)))
p("F02", "A malformed line is rejected alone and never takes the program down",
  "No configuration text makes loading crash, abort or access memory out of bounds; an invalid line or section is reported and skipped, and has no effect on how any other line of the file is understood.",
  CI, "all texts up to a small length over an alphabet of structural characters, all single-token corruptions of valid lines, with a memory checker",
  "The tests load a single, valid config file.",
  A([CF, "src/ini.c", "src/string.c"], [("per-entry errors", CF + ":config_parse_string")], (), ("daemon log", "exit status of keyd check")))
p("F03", "Every documented action is accepted with valid arguments and only then",
  "Each action expression with the documented number and kind of arguments (layer, layout, action, macro; numbers are read by their leading digits) is accepted and every other number or kind is rejected with an error, including deprecated names, nested actions and lettermod().",
  CI, "every action name with every arity 0..5 and every kind of argument in every position",
  "The tests' config exercises each action at most a few times and no rejection.",
  A([CF], [("actions table", CF + ":parse_descriptor")], (), ("keyd check", "keyd bind")))
p("F04", "Key names, key sequences, modifier sets and macros parse by their grammar",
  "A name denotes a key exactly if it is one of the listed names, and every key's listed name denotes that key; C- M- A- S- G- prefixes may be combined in any order; shifted symbols imply shift; macro text splits into keys, chorded groups, pauses and characters as documented.",
  ["inputs"], "all key names and all short strings over the alphabet of the grammar",
  "Tests use a few dozen names.",
  A(["src/keys.c", "src/macro.c", "src/string.c"], [("keycode_table", "src/keys.c"), ("parse_key_sequence", "src/keys.c"), ("macro_parse", "src/macro.c")], (), ("keyd list-keys", "loaded configuration")))
p("F05", "include inserts the named file in place",
  "A config with an include line behaves exactly as if the text of the included file (found beside the config, else in the data directory) stood in place of that line; a missing or unsuitable include is reported and otherwise ignored; file reads returning less than asked make no difference.",
  ["inputs", "fault_sequences"], "all placements of an include among lines, file endings with and without newline, all splits of short reads, missing files",
  "No test includes a file.",
  A([CF], [("read_file", CF), ("resolve_include_path", CF)], (), ("loaded configuration",)))
p("F06", "Every capacity limit is enforced gracefully",
  "A configuration that exceeds a fixed capacity (layers, sections, entries, chords, chord keys, macros, macro length, commands, nested actions, ids, aliases, line, file, name, expression length) keeps everything within the limit and reports or ignores the rest, without crash, overflow or damage to other entries.",
  CI, "for each limit N, files with N-1, N, N+1 and N+2 elements",
  "The tests' config is far from every limit.",
  A([CF, "src/ini.c", "src/macro.c"], [("limit checks", CF)], (), ("keyd check",)))
p("F07", "bind changes exactly one binding and reset restores the file",
  "A runtime binding has the same effect from then on as the same line in the config file would, changes nothing else, and a rejected one changes nothing; reset restores exactly the configuration as loaded from the file.",
  ["histories", "inputs"], "all sequences of binds (valid, invalid, chords, macros) and resets up to the bound, interleaved with key events",
  "No test covers runtime bindings beyond single use.",
  A([KB, CF], [("kbd_eval", KB), ("config_add_entry", CF)], (), ("keyd bind", "virtual keyboard output")))
p("F08", "A device is managed by the right configuration",
  "A device is assigned to a configuration that lists its id explicitly (by prefix, for its kind) in preference to one with the * wildcard, never to one that excludes it, and to none if none matches; the first matching entry of a configuration decides.",
  CI, "all combinations of id entries (wildcard, id, prefix, k:, m:, exclusion) in up to three configs against keyboards and mice",
  "Tests do not match devices.",
  A([CF, "src/daemon.c"], [("config_check_match", CF), ("lookup_config_ent", "src/daemon.c")], (), ("devices grabbed by the daemon",)))

DM = "src/daemon.c"; EV = "src/evloop.c"; DV = "src/device.c"
DH = ["histories", "fault_sequences", "schedules"]
p("D01", "No client of the control socket can hang or take down the daemon",
  "Whatever a client does on the control socket (connecting and saying nothing, partial, oversized or garbage messages, disconnecting at any point) the daemon keeps running and goes on processing keys.",
  DH, "all message kinds and sizes at the boundaries, EOF or error at every read and write, short reads and writes",
  "No test runs the daemon.",
  A([DM, "src/ipc.c", "src/util.c"], [("handle_client", DM), ("xread/xwrite", "src/util.c")], (), ("control socket", "virtual keyboard output")))
p("D02", "Each control request has exactly its effect and gets its reply",
  "bind, input, macro, reload and listen requests have exactly their documented effect on all keyboards under management and are answered with success or with the error message, a rejected request having no effect.",
  DH, "all request sequences up to the bound interleaved with key events",
  "No test runs the daemon.",
  A([DM], [("handle_client", DM), ("ipc", "src/ipc.c")], (), ("control socket", "virtual keyboard output")))
p("D03", "Listeners see the full layer state and all changes, and cannot do harm",
  "Every listener receives the current layout and all active layers on connection and then every layer change in order; a listener that stops reading or disconnects is dropped without affecting the daemon, its keyboards or other listeners.",
  DH, "all sequences of listen, key and disconnect/blocked-write events up to the bound",
  "No test runs the daemon.",
  A([DM], [("add_listener/on_layer_change", DM)], (), ("keyd listen",)))
p("D04", "reload puts the new configuration into effect for every device",
  "After a reload every connected device is managed according to the configuration files as they are then, newly matching devices are grabbed and no longer matching ones released, and key events go on being processed, including when no configuration is valid; a file that cannot be parsed does not affect the others.",
  DH, "all sequences of file changes, reloads, key events and device arrivals up to the bound",
  "No test runs the daemon.",
  A([DM], [("reload/load_configs", DM)], [("configs", "list of loaded configurations", DM)], ("devices grabbed", "virtual keyboard output")))
p("D05", "Devices come and go without disturbing the rest",
  "Every matching keyboard that appears is grabbed and handled from its first event on, every device that disappears is forgotten, and no arrival, removal or read error of one device affects events of the others; the daemon's own virtual devices are never managed.",
  DH, "all sequences of arrivals, removals, read errors and events of up to three devices",
  "No test runs the daemon.",
  A([DM, EV, DV], [("manage_device", DM), ("device table", EV), ("device_read_event", DV)], (), ("evdev grabs", "virtual keyboard output")))
p("D06", "The panic sequence always terminates keyd, and nothing else does",
  "The daemon terminates when backspace, escape and enter are held at the same time on managed or unmanaged keyboards, in whatever order they were pressed and whatever else happens; no other device event terminates it.",
  DH, "all event sequences of the panic keys, other keys, LED and motion events up to the bound",
  "No test runs the daemon.",
  A([EV], [("panic_check", EV)], (), ("process exit",)))
p("D07", "The main loop delivers timeouts on time, whatever else arrives",
  "A wake-up requested by the key engine is delivered to it no later than due, and key events are stamped with the time they are read, however device, socket and hotplug activity, slow polls and clock jumps of the scheduler interleave.",
  DH, "all interleavings of timer expiry with other activity in one or two polls",
  "No test runs the main loop.",
  A([EV, DM], [("evloop", EV), ("event_handler timeout bookkeeping", DM)], (), ("poll timeouts", "virtual keyboard output")))
p("D08", "Input device events are translated faithfully",
  "Every key, button, relative or absolute motion, scroll and LED event of a grabbed device has its documented effect: keys go to the engine, motion and scroll pass through (or scroll, in scroll mode), and unknown or malformed events have no effect.",
  ["inputs", "histories"], "every event type with every code, and value boundaries",
  "No test reads device events.",
  A([DV, DM], [("device_read_event", DV), ("event_handler", DM)], (), ("virtual keyboard and pointer output",)))
p("D09", "Virtual devices emit exactly what the engine decided",
  "Each key, button, motion and scroll decided by the engine results in exactly one corresponding report on the virtual keyboard or pointer followed by a synchronisation; all codes that can be emitted are enabled on the device that emits them; no key is left out.",
  ["inputs", "histories"], "all key codes and states, motion and scroll values, and device set-up faults",
  "No test uses uinput.",
  A(["src/vkbd/uinput.c"], [("write_key_event", "src/vkbd/uinput.c")], (), ("uinput writes",)))
p("D10", "The startup device scan finds every device exactly once in any schedule",
  "Under every interleaving of the scanner's threads, each eligible input device present at start is found exactly once with its right identity and capabilities, ineligible ones are left alone, and nothing is lost when devices fail to open.",
  ["schedules", "fault_sequences"], "all schedules of the scan threads over up to three devices, with open failures",
  "No test scans devices.",
  A([DV], [("device_scan/device_worker", DV)], (), ("device table",)))
p("D11", "Keyboard LEDs follow the host, and the layer indicator follows the layers",
  "LED changes requested by the host on the virtual keyboard are mirrored to every managed keyboard; with layer_indicator set, caps lock LED shows whether a non-default layer is active; a failing LED write affects nothing else.",
  DH, "all sequences of LED and layer events up to the bound with failing writes",
  "No test runs the daemon.",
  A([DM, DV], [("on_layer_change indicator", DM), ("device_set_led", DV)], (), ("evdev LED writes",)))
p("D12", "USB gadget reports always reflect the keys that are down",
  "With the usb-gadget back-end, after each key event the boot-keyboard report contains exactly the modifiers and the keys that are down (six of them when more than six are down), and releasing a key removes it.",
  ["histories", "inputs"], "all press/release histories over more keys than a report holds and all key codes",
  "No test covers the back-end.",
  A(["src/vkbd/usb-gadget.c"], [("send_hid_report", "src/vkbd/usb-gadget.c")], (), ("HID reports",)))
p("D13", "Clicks of unmanaged mice end oneshots and nothing else",
  "A button press on a pointing device keyd does not manage acts on the active keyboard like any other key struck in between: it ends pending oneshot layers and interrupts macros, chords and undecided or tapped keys. It types nothing of its own and does not touch any other keyboard.",
  DH, "all histories up to the bound mixing clicks with layer, macro and timed keys",
  "No test covers unmanaged devices.",
  A([DM], [("external mouse button", DM + ":event_handler")], (), ("virtual keyboard output",)))
p("D14", "Devices of one configuration act as one keyboard, others are independent",
  "All devices matched by the same configuration share layers, modifiers and chords; devices of different configurations do not influence each other's layers or bindings.",
  DH, "all interleavings of events of two devices under one and under two configurations",
  "No test has two devices.",
  A([DM], [("config_ent.kbd", DM)], (), ("virtual keyboard output",)))
p("D15", "At most one daemon owns the control socket and the devices",
  "A second daemon refuses to start while one is running and leaves the first one's socket and devices alone; after a crash at any point a new daemon can always start.",
  ["schedules", "crash_points"], "all interleavings of the start-up steps of two daemons, and a crash after each step",
  "No test starts a daemon.",
  A(["src/ipc.c", DM], [("lock file and socket", "src/ipc.c:ipc_create_server")], (), ("control socket",)))
p("D16", "Only root and the keyd group can reach the control socket",
  "Bound commands run as root, so at every instant from its creation on, whatever the umask the daemon was started with, the control socket can be connected to only by root and by members of the group keyd; once the daemon runs, members of that group can connect. Nobody else can open the lock file and so keep the daemon from starting.",
  ["schedules", "crash_points", "configurations"], "every step of the start-up of one to three daemons (with crashes and left-over files), every umask class, with and without the group",
  "No test starts a daemon.",
  A(["src/ipc.c"], [("chgid, socket and lock file permissions", "src/ipc.c:ipc_create_server")], (), ("control socket",)))
p("U01", "The compose file spells every supported character as keyd types it",
  "For every supported character, the keys keyd emits for it are exactly the ones the shipped compose file maps to that character, no two characters share a sequence, and no sequence is a prefix of another.",
  ["inputs"], "every entry of the table and every code point",
  "Two tests type two characters.",
  A(["src/unicode.c", "data/keyd.compose"], [("unicode_get_sequence/unicode_lookup_index", "src/unicode.c")], (), ("virtual keyboard output", "data/keyd.compose")))
p("U02", "keyd input and do type the text they are given",
  "UTF-8 text given to the input request is typed character by character in order up to the first character keyd cannot type, if any, which is answered with an error, and a macro request performs the macro exactly as a macro() binding would; invalid text or macros are answered with an error, without harm.",
  ["inputs", "fault_sequences"], "all short texts over an alphabet of one representative per class, all truncations, all splits",
  "No test uses the request.",
  A([DM, "src/macro.c", "src/string.c"], [("IPC_INPUT/IPC_MACRO", DM)], (), ("virtual keyboard output",)))
p("M01", "The application mapper applies exactly the matching window's bindings",
  "On every supported window system (X, wlroots, GNOME with both shipped extensions, KDE, COSMIC) and for every sequence of focus changes, title changes, opened, closed and floating windows: whenever another window (class or title, after normalisation to lower case words joined by '-') comes into focus, keyd-application-mapper runs `keyd bind reset` followed by the bindings of every section of app.conf whose class and title patterns match that window, in file order, and of no other; after a burst of changes the last invocation is for the window that is in focus; nothing is sent while nothing changes. Tabs, newlines, quotes, wildcards, non-ASCII and overlong text in a class or title, messages that arrive in pieces, and windows that vanish while they are examined do not break it.",
  ["histories", "inputs"], "all short sequences of windows over an alphabet of classes and titles against small configs",
  "No test covers the mapper.",
  A(["scripts/keyd-application-mapper", "data/gnome-extension/extension.js", "data/gnome-extension-45/extension.js"], [("normalize/parse_config/lookup_bindings", "scripts/keyd-application-mapper"), ("monitors", "scripts/keyd-application-mapper")], (), ("keyd bind invocations",)))
p("M02", "The application mapper follows changes of app.conf, reloads on USR1, and runs once",
  "Whenever app.conf is rewritten (also with an older time stamp, also while the mapper is starting or at work), the next focus change and every USR1 signal use the new contents; while the file is missing or not valid text the bindings loaded before stay in use and the mapper keeps running; USR1 (X, wlroots, COSMIC, GNOME) sends the bindings of the window in focus again. A second instance, or one without app.conf, runs keyd not at all. A failing keyd does not stop the mapper.",
  ["histories", "schedules"], "all short sequences of focus changes, file changes and signals, and every point of the mapper's work at which the file changes or a signal arrives",
  "No test covers the mapper.",
  A(["scripts/keyd-application-mapper"], [("on_window_change reload", "scripts/keyd-application-mapper"), ("new_interruptible_generator", "scripts/keyd-application-mapper"), ("lock", "scripts/keyd-application-mapper")], (), ("keyd bind invocations",)))

p("C01", "The command line client asks exactly what it was told and reports the answer",
  "keyd bind makes one request per argument and keyd input and do make one request with their arguments joined by spaces (or, without any, with all of standard input) and the given timeout; reload and listen make theirs. The request reaches the daemon byte for byte however the transfers are split; the daemon's answer is printed, and the exit status of bind, input and do is zero exactly if every request succeeded. listen prints what the daemon sends until either side is gone. Text too long for a request (more than 4095 bytes), an unreachable daemon or a broken connection is reported by the exit status, never by a crash, a hang or a shortened request. list-keys lists exactly the valid key names; any other command makes no request.",
  ["inputs", "faults"], "all placements of up to three short or failing transfers for every command line, standard input and answer",
  "The tests never run the client.",
  A(["src/keyd.c", "src/ipc.c", "src/util.c"], [("ipc_exec", "src/keyd.c"), ("read_input", "src/keyd.c"), ("layer_listen", "src/keyd.c"), ("xread", "src/util.c"), ("xwrite", "src/util.c")], (), ("requests on the socket", "standard output", "exit status")))
p("C02", "keyd monitor shows every key event of every device once, and disturbs nothing",
  "keyd monitor lists each input device that is present (keyboards, mice, touch devices, keyd's own virtual ones) and each that comes or goes with its id, name and node, and prints one line for each press and each release of a key or button on any of them, in the order of the events: the device's name and id, the key's name as configurations use it, and down or up; with -t preceded by the milliseconds since the previous event (a movement, or the arrival or removal of a device, is one, too). Each line appears as soon as the event has happened. Autorepeat, movement, scrolling and LEDs print nothing. It grabs no device, emits nothing and changes no LED, leaves no descriptor of a removed device open, and ends with status 0 when the reader of its output goes away, or on the panic sequence, never otherwise.",
  ["histories", "faults"], "all histories of key events, device arrivals, removals and failures, and the disappearance of the reader at every point",
  "The tests never run keyd monitor.",
  A(["src/monitor.c", "src/evloop.c", "src/device.c"], [("event_handler", "src/monitor.c"), ("monitor", "src/monitor.c"), ("evloop", "src/evloop.c")], (), ("standard output", "exit status")))

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
