// node --experimental-vm-modules extension.mjs EXTENSION.js < windows.json
// Runs a GNOME extension with stand-ins for the shell; for every window prints the chunks it writes into the pipe.
// With --kwin SCRIPT: the D-Bus calls of the kwin script instead.
import vm from 'node:vm'; import fs from 'node:fs';
const arg = process.argv.slice(2), input = JSON.parse(fs.readFileSync(0, 'utf8'));
const out = [];
if (arg[0] === '--kwin') {
	const hooks = {};
	const sig = n => ({ connect: f => { hooks[n] = f; } });
	const ctx = vm.createContext({ workspace: { clientActivated: sig('clientActivated'), windowActivated: sig('windowActivated') }, print: () => {}, console, callDBus: (...a) => cur.push(a) });
	let cur = []; vm.runInContext(fs.readFileSync(arg[1], 'utf8'), ctx);
	for (const [cls, title] of input) { cur = []; for (const n in hooks) { hooks[n](null); hooks[n]({ caption: title, resourceClass: cls, resourceName: 'some-' + cls }); } out.push({ signals: Object.keys(hooks), calls: cur }); }
	console.log(JSON.stringify(out)); process.exit(0);
}
let written = [], focus = null, modal = '', onFocus = null, onModal = null;
const pipe = { write: (m) => { written.push(m); return m.length; }, flush: () => {} };
const file = { append_to_async: (a, b, c, cb) => { queueMicrotask(() => cb(file, {})); }, append_to_finish: () => pipe };
const GLib = { getenv: n => n === 'XDG_RUNTIME_DIR' ? '/run/user/1000' : null, spawn_command_line_sync: c => [true, new TextEncoder().encode('1000\n')], spawn_command_line_async: () => true };
const Gio = { File: { new_for_path: p => file } };
const tracker = { connect: (n, f) => { if (n === 'notify::focus-app') onFocus = f; return 1; }, disconnect: () => {} };
const Shell = { WindowTracker: { get_default: () => tracker } };
const Main = { layoutManager: { connectObject: (...a) => { for (let i = 0; i + 1 < a.length; i += 2) if (a[i] === 'system-modal-opened') onModal = a[i + 1]; } } };
const glob = { log: () => {}, TextDecoder, TextEncoder, console, imports: { gi: { Shell, GLib, Gio }, ui: { main: Main } } };
glob.global = { get display() { return { focus_window: focus && { get_wm_class: () => focus[0], get_title: () => focus[1] } }; }, stage: { get_title: () => modal } };
const ctx = vm.createContext(glob), src = fs.readFileSync(arg[0], 'utf8');
let ext;
if (/^\s*import\s/m.test(src)) {
	const m = new vm.SourceTextModule(src, { context: ctx });
	const mods = { 'gi://GLib': { default: GLib }, 'gi://Gio': { default: Gio }, 'gi://Shell': { default: Shell }, 'resource:///org/gnome/shell/ui/main.js': Main, 'resource:///org/gnome/shell/extensions/extension.js': { Extension: class {} } };
	await m.link(async s => { const e = mods[s], k = Object.keys(e); const y = new vm.SyntheticModule(k, function() { for (const n of k) this.setExport(n, e[n]); }, { context: ctx }); return y; });
	await m.evaluate(); ext = new m.namespace.default();
} else { vm.runInContext(src + '\n;globalThis.__init = init;', ctx); ext = ctx.__init(); }
ext.enable();
await new Promise(r => setTimeout(r, 20));
for (const w of input) {
	written = [];
	if (w === null) { focus = null; onFocus(); } else if (w.length === 1) { modal = w[0]; onModal(); } else { focus = w; onFocus(); }
	out.push(written);
}
console.log(JSON.stringify(out));
