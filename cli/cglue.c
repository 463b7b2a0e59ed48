/* the layout of the protocol's message, for ccheck.cc */
#include "keyd.h"
#include <stddef.h>
const int g_msg_size = sizeof(struct ipc_message), g_off_type = offsetof(struct ipc_message, type), g_off_timeout = offsetof(struct ipc_message, timeout), g_off_sz = offsetof(struct ipc_message, sz), g_off_data = offsetof(struct ipc_message, data);
const int g_sz_size = sizeof(((struct ipc_message *)0)->sz), g_data_size = sizeof(((struct ipc_message *)0)->data);
const int g_types[7] = { IPC_SUCCESS, IPC_FAIL, IPC_BIND, IPC_INPUT, IPC_MACRO, IPC_RELOAD, IPC_LAYER_LISTEN };
const char *g_name(int code, int which) { return which == 0 ? keycode_table[code].name : which == 1 ? keycode_table[code].alt_name : keycode_table[code].shifted_name; }
int g_parse(const char *s, unsigned char *code, unsigned char *mods) { return parse_key_sequence(s, code, mods); }
