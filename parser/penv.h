#pragma once
#include <map>
#include <string>
namespace penv {
extern std::map<std::string, std::string> fs; extern std::string log; extern size_t nlog; extern int short_read, open_fails, read_fails_after;
int open_files(); void reset_files();
[[noreturn]] void die(const char *fmt, ...);     // the program under test did something it must not do
}
