/* Compiled against the repository's headers: loads configurations and renders them as text. */
#include "keyd.h"
#include <stdarg.h>
static char *out; static size_t n, cap;
static void put(const char *fmt, ...)
{
	va_list ap; int k;
	if (cap - n < 8192) out = realloc(out, cap = cap * 2 + 65536);
	va_start(ap, fmt); k = vsnprintf(out + n, cap - n, fmt, ap); va_end(ap); n += k;
}
static const struct config *C;
static const char *lname(int i) { return i >= 0 && (size_t)i < C->nr_layers ? C->layers[i].name : "BAD-INDEX"; }
static void macro(int idx)
{
	size_t i;
	if (idx < 0 || (size_t)idx >= C->nr_macros) { put("BAD-INDEX"); return; }
	const struct macro *m = &C->macros[idx];
	for (i = 0; i < m->sz; i++) {
		const struct macro_entry *e = &m->entries[i];
		switch (e->type) {
		case MACRO_KEYSEQUENCE: put(" K%d/%d", e->data & 255, e->data >> 8); break;
		case MACRO_HOLD: put(" H%d", e->data & 255); break;
		case MACRO_RELEASE: put(" R"); break;
		case MACRO_TIMEOUT: put(" T%d", e->data); break;
		case MACRO_UNICODE: { uint8_t c[4]; unicode_get_sequence(e->data, c); put(" U%d.%d.%d.%d", c[0], c[1], c[2], c[3]); break; }
		default: put(" ?");
		}
	}
}
static void act(const struct descriptor *d, int depth)
{
	const char *nm = 0; int kind = 0;
	if (depth > 40) { put("CYCLE"); return; }
#define SUB(i) do { int x = d->args[i].idx; if (x < 0 || (size_t)x >= C->nr_descriptors) put("BAD-INDEX"); else act(&C->descriptors[x], depth + 1); } while (0)
	switch (d->op) {
	case 0: put("none"); return;
	case OP_KEYSEQUENCE: put("key %d/%d", d->args[0].code, d->args[1].mods); return;
	case OP_LAYER: put("layer(%s)", lname(d->args[0].idx)); return;
	case OP_ONESHOT: put("oneshot(%s)", lname(d->args[0].idx)); return;
	case OP_TOGGLE: put("toggle(%s)", lname(d->args[0].idx)); return;
	case OP_SWAP: put("swap(%s)", lname(d->args[0].idx)); return;
	case OP_LAYOUT: put("setlayout(%s)", lname(d->args[0].idx)); return;
	case OP_LAYERM: nm = "layerm"; break;
	case OP_ONESHOTM: nm = "oneshotm"; break;
	case OP_TOGGLEM: nm = "togglem"; break;
	case OP_SWAPM: nm = "swapm"; break;
	case OP_CLEAR: put("clear"); return;
	case OP_CLEARM: put("clearm("); macro(d->args[0].idx); put(")"); return;
	case OP_OVERLOAD: put("overload(%s,", lname(d->args[0].idx)); SUB(1); put(")"); return;
	case OP_OVERLOAD_TIMEOUT: put("overloadt(%s,", lname(d->args[0].idx)); SUB(1); put(",%d)", d->args[2].timeout); return;
	case OP_OVERLOAD_TIMEOUT_TAP: put("overloadt2(%s,", lname(d->args[0].idx)); SUB(1); put(",%d)", d->args[2].timeout); return;
	case OP_OVERLOAD_IDLE_TIMEOUT: put("overloadi("); SUB(0); put(","); SUB(1); put(",%d)", d->args[2].timeout); return;
	case OP_TIMEOUT: put("timeout("); SUB(0); put(",%d,", d->args[1].timeout); SUB(2); put(")"); return;
	case OP_MACRO: put("macro("); macro(d->args[0].idx); put(")"); return;
	case OP_MACRO2: put("macro2(%d,%d,", d->args[0].timeout, d->args[1].timeout); macro(d->args[2].idx); put(")"); return;
	case OP_COMMAND: { int x = d->args[0].idx; put("command(%s)", x < 0 || (size_t)x >= C->nr_commands ? "BAD-INDEX" : C->commands[x].cmd); return; }
	case OP_SCROLL: put("scroll(%d)", d->args[0].sensitivity); return;
	case OP_SCROLL_TOGGLE: put("scrollt(%d)", d->args[0].sensitivity); return;
	default: put("UNKNOWN-ACTION"); return;
	}
	put("%s(%s,", nm, lname(d->args[0].idx)); macro(d->args[1].idx); put(")");
}
const char *pg_dump(void *p, size_t *len)
{
	size_t i, j, k; C = p; n = 0; if (!out) out = malloc(cap = 65536);
	for (i = 0; i < C->nr_layers; i++) {
		const struct layer *l = &C->layers[i];
		put("layer %s type %d mods %d", l->name, (int)l->type, l->mods);
		if (l->type == LT_COMPOSITE) for (j = 0; j < l->nr_constituents; j++) put(" %s", lname(l->constituents[j]));
		put("\n");
		for (j = 0; j < 256; j++) if (l->keymap[j].op) { put("%s.%zu = ", l->name, j); act(&l->keymap[j], 0); put("\n"); }
		for (j = 0; j < l->nr_chords; j++) {
			put("%s.", l->name); for (k = 0; k < l->chords[j].sz; k++) put("+%d", l->chords[j].keys[k]);
			put(" = "); act(&l->chords[j].d, 0); put("\n");
		}
	}
	for (i = 0; i < 256; i++) if (C->aliases[i][0]) put("alias %zu %s\n", i, C->aliases[i]);
	for (i = 0; i < C->nr_ids; i++) put("id %s %d\n", C->ids[i].id, C->ids[i].flags);
	put("wildcard %d\nmacro_timeout %ld\nmacro_sequence_timeout %ld\nmacro_repeat_timeout %ld\noneshot_timeout %ld\noverload_tap_timeout %ld\nchord_timeout %ld\nchord_hold_timeout %ld\nlayer_indicator %d\nmodifier_guard_off %d\ndefault_layout %s\n",
		!!C->wildcard, C->macro_timeout, C->macro_sequence_timeout, C->macro_repeat_timeout, C->oneshot_timeout, C->overload_tap_timeout, C->chord_interkey_timeout, C->chord_hold_timeout, C->layer_indicator, C->disable_modifier_guard, C->default_layout);
	out[n] = 0; *len = n; return out;
}
void *pg_new(void) { return calloc(1, sizeof(struct config)); }
void pg_poison(void *p) { memset(p, 0xA5, sizeof(struct config)); }
void pg_copy(void *d, void *s) { memcpy(d, s, sizeof(struct config)); }
int pg_parse(void *p, const char *path) { return config_parse(p, path); }
int pg_add(void *p, const char *exp) { return config_add_entry(p, exp); }
int pg_match(void *p, const char *id, int kbd, int mouse) { return config_check_match(p, id, (kbd ? ID_KEYBOARD : 0) | (mouse ? ID_MOUSE : 0)); }
int pg_keyseq(const char *s, uint8_t *c, uint8_t *m) { return parse_key_sequence(s, c, m); }
const char *pg_err(void) { return errstr; }
const char *pg_name(int i) { return keycode_table[i].name; }
