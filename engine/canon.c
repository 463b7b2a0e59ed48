/* Canonical form of the engine state: only what can influence the future, times relative to now.
 * Used to merge states during the search.  If this file does not compile against the tree under test,
 * canon_stub.c takes its place (the search then compares raw memory). */
#include "keyd.h"
#include <string.h>
static unsigned char *B; static size_t N, CAP; static long NOW, KM;
static void put(const void *p, size_t n) { if (N + n <= CAP) memcpy(B + N, p, n); N += n; }
static void num(long v) { put(&v, sizeof v); }
static void rel(long t) { long d = t - NOW; if (d < -KM) d = -KM; num(d); }
static void desc(const struct descriptor *d) { num(d->op); for (int i = 0; i < MAX_DESCRIPTOR_ARGS; i++) num(d->args[i].idx); }
static void queue(const struct key_event *q, size_t n) { num(n); for (size_t i = 0; i < n; i++) { num(q[i].code * 2 + q[i].pressed); rel(q[i].timestamp); } }
size_t canon_emit(void *kbd, long now, long kmax, int uses_idle, unsigned char *buf, size_t cap)
{
	struct keyboard *k = kbd; size_t i, j; B = buf; N = 0; CAP = cap; NOW = now; KM = kmax;
	for (i = 0; i < CACHE_SIZE; i++) if (k->cache[i].code) { num(i); num(k->cache[i].code); desc(&k->cache[i].d); num(k->cache[i].dl); num(k->cache[i].layer); }
	num(k->last_pressed_output_code); num(k->last_pressed_code); num(k->oneshot_latch); num(k->inhibit_modifier_guard);
	num(k->active_macro ? (long)((char *)k->active_macro - (char *)k) : 0);
	if (k->active_macro) { num(k->active_macro_layer); if (k->macro_timeout) rel(k->macro_timeout); else num(-999999); num(k->macro_repeat_interval); }
	if (k->oneshot_timeout) rel(k->oneshot_timeout); else num(-999999);
	if (k->config.overload_tap_timeout) rel(k->overload_start_time);
	if (uses_idle) rel(k->last_simple_key_time);
	long tm[ARRAY_SIZE(k->timeouts)]; size_t n = 0;
	for (i = 0; i < k->nr_timeouts && i < ARRAY_SIZE(k->timeouts); i++) if (k->timeouts[i] > now) {
		for (j = n; j > 0 && tm[j-1] > k->timeouts[i]; j--) tm[j] = tm[j-1];
		tm[j] = k->timeouts[i]; n++; }
	num(n); for (i = 0; i < n; i++) rel(tm[i]);
	for (i = 0; i < ARRAY_SIZE(k->active_chords); i++) if (k->active_chords[i].active) {
		num(i); num(k->active_chords[i].active); put(k->active_chords[i].chord.keys, 8); num(k->active_chords[i].chord.sz); desc(&k->active_chords[i].chord.d); num(k->active_chords[i].layer); }
	num(k->chord.state);
	if (k->chord.state != CHORD_INACTIVE) {
		queue(k->chord.queue, k->chord.queue_sz); num(!!k->chord.match); if (k->chord.match) { num(k->chord.match_layer); put(k->chord.match->keys, 8); num(k->chord.match->sz); desc(&k->chord.match->d); }
		num(k->chord.start_code); rel(k->chord.last_code_time); }
	num(k->pending_key.code); num(k->pending_key.queue_sz); num(k->pending_key.tap_expiry);
	if (k->pending_key.code) {
		num(k->pending_key.dl); rel(k->pending_key.expire); num(k->pending_key.behaviour);
		queue(k->pending_key.queue, k->pending_key.queue_sz); desc(&k->pending_key.action1); desc(&k->pending_key.action2); }
	for (i = 0; i < k->config.nr_layers; i++) {
		long a = k->layer_state[i].activation_time, r = a;
		num(k->layer_state[i].active); num(k->layer_state[i].toggled); num(k->layer_state[i].oneshot_depth);
		if (!k->layer_state[i].active) { num(-1); continue; }
		if (a > 1) { r = 2; for (j = 0; j < k->config.nr_layers; j++) if (k->layer_state[j].active && k->layer_state[j].activation_time > 1 && k->layer_state[j].activation_time < a) r++; }
		num(r);
	}
	put(k->keystate, 256);
	num(k->scroll.x); num(k->scroll.y); num(k->scroll.sensitivity); num(k->scroll.active);
	return N;
}
/* A field added to one of these makes this file not compile: then raw memory is compared instead. */
#define KE sizeof(struct key_event)
_Static_assert(sizeof(struct cache_entry) == 24 && KE == 16 && sizeof(struct descriptor) == 12, "");
_Static_assert(sizeof(((struct keyboard *)0)->active_chords[0]) == 48 && sizeof(((struct keyboard *)0)->chord) == 32 * KE + 72 &&
	sizeof(((struct keyboard *)0)->pending_key) == 32 * KE + 64 && sizeof(((struct keyboard *)0)->scroll) == 16 &&
	sizeof(struct keyboard) - sizeof(struct config) == 3336, "");
#define R(f) cb((char *)&k->f, sizeof k->f)
void canon_ranges(void *kbd, void (*cb)(char *lo, size_t sz))
{
	struct keyboard *k = kbd;
	R(cache); R(last_pressed_output_code); R(last_pressed_code); R(oneshot_latch); R(inhibit_modifier_guard); R(active_macro);
	R(active_macro_layer); R(macro_timeout); R(oneshot_timeout); R(macro_repeat_interval); R(overload_start_time); R(last_simple_key_time);
	R(timeouts); R(nr_timeouts); R(active_chords); R(chord); R(pending_key); R(layer_state); R(keystate); R(scroll);
}
