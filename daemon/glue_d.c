/* Compiled against the repository's headers: sizes and messages. */
#include "keyd.h"
#include <stddef.h>
size_t gd_kbd_size() { return sizeof(struct keyboard); }
size_t gd_cfg_size() { return sizeof(struct config); }
size_t gd_msg_size() { return sizeof(struct ipc_message); }
size_t gd_data_size() { return MAX_IPC_MESSAGE_SIZE; }
static const int types[] = { IPC_SUCCESS, IPC_FAIL, IPC_BIND, IPC_INPUT, IPC_MACRO, IPC_RELOAD, IPC_LAYER_LISTEN };
void gd_msg(void *out, int kind, unsigned timeout, const char *data, size_t n, size_t sz)
{
	struct ipc_message m; memset(&m, 0, sizeof m);
	m.type = kind < 7 ? types[kind] : kind; m.timeout = timeout; memcpy(m.data, data, n < sizeof m.data ? n : sizeof m.data); m.sz = sz;
	memcpy(out, &m, sizeof m);
}
int gd_reply(const void *in, size_t *sz, const char **data)
{
	const struct ipc_message *m = in; *sz = m->sz; *data = m->data;
	return m->type == IPC_SUCCESS ? 0 : m->type == IPC_FAIL ? 1 : 2;
}
int gd_scan(void *out) { return device_scan(out); }
size_t gd_dev_size() { return sizeof(struct device); }
void gd_dev(const void *p, int i, char *out, size_t n)
{
	const struct device *d = (const struct device *)p + i;
	snprintf(out, n, "%s %s \"%s\" caps %d%s fd %d", d->path, d->id, d->name, d->capabilities, d->is_virtual ? " virtual" : "", d->fd);
}
