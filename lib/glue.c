/* Compiled against the repository's own headers: the only place where the engine harness touches its types. */
#include "keyd.h"
#undef malloc
void *env_calloc(size_t n, size_t s);
static void (*cb_key)(uint8_t, uint8_t);
static void (*cb_layer)(const char *name, int idx, int active);
static void on_key(uint8_t code, uint8_t st) { cb_key(code, st); }
static void on_layer(const struct keyboard *kbd, const struct layer *l, uint8_t active)
{ cb_layer(l->name, (int)(l - kbd->config.layers), active); }
void *glue_config(const char *path, int *ret)
{ struct config *c = env_calloc(1, sizeof(struct config)); *ret = config_parse(c, path); return c; }
void *glue_new(void *cfg, void (*k)(uint8_t, uint8_t), void (*l)(const char *, int, int))
{ cb_key = k; cb_layer = l; struct output o = { .send_key = on_key, .on_layer_change = on_layer }; return new_keyboard(cfg, &o); }
long glue_event(void *kbd, int code, int pressed, long t)
{ struct key_event e = { .code = code, .pressed = pressed, .timestamp = t }; return kbd_process_events(kbd, &e, 1); }
int glue_eval(void *kbd, const char *s) { return kbd_eval(kbd, s); }
void *glue_cfg(void *kbd) { return &((struct keyboard *)kbd)->config; }
