#pragma once
#include "snap.h"
#include <map>
namespace env {
extern std::map<std::string, std::string> fs; extern std::string log; extern bool keep_log;
extern void (*on_usleep)(long); extern void (*on_exec)(const char *); extern char *stack_top; extern bool open_null_ok; extern int short_read, exec_fails;
void reset_forks(); bool in_child();
}
