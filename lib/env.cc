// Environment of the engine and parser harnesses: heap in the snapshot arena, an in-memory file system for
// configuration files, captured log output, recorded sleeps and commands (fork returns twice, see fork.S).
#include "env.h"
#include <cstdarg>
#include <cerrno>
#include <map>
using namespace snap;
namespace env {
std::map<std::string, std::string> fs;
std::string log; bool keep_log = false;
void (*on_usleep)(long) = nullptr;
void (*on_exec)(const char *) = nullptr;
int malloc_align_check = 0;
bool open_null_ok = true;
int short_read = 0;          // if >0, read() returns at most that many bytes
int exec_fails = 0;
struct File { const std::string *s; size_t off; bool used; };
static File files[64];
static void logs(const char *fmt, va_list ap) { if (!keep_log) return; char b[4096]; vsnprintf(b, sizeof b, fmt, ap); log += b; }
struct Fork { uint64_t regs[8]; std::vector<char> stack; Snap mem; };
static std::vector<Fork> forks;
char *stack_top = nullptr;   // stack above this belongs to the harness
int next_pid = 1000;
}
using namespace env;
extern "C" {
void env_unexpected(const char *n) { sut_die("unexpected call of %s", n); }
void *env_malloc(size_t n) { return alloc(n); }
void *env_calloc(size_t n, size_t s) { void *p = alloc(n * s); if (armed) memset(p, 0, n * s); return p; }
void *env_realloc(void *p, size_t n) { void *q = alloc(n); if (p) memcpy(q, p, alloc_size(p) < n ? alloc_size(p) : n); return q; }
void env_free(void *) {}
char *env_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)alloc(n); memcpy(p, s, n); return p; }
void env___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sut_die("assertion failed: %s (%s)", e, fn); }
void env_abort() { sut_die("abort()"); }
int env_usleep(unsigned us) { if (on_usleep) on_usleep(us); return 0; }
int env_printf(const char *f, ...) { va_list a; va_start(a, f); logs(f, a); va_end(a); return 0; }
int env_fprintf(FILE *, const char *f, ...) { va_list a; va_start(a, f); logs(f, a); va_end(a); return 0; }
int env_vfprintf(FILE *, const char *f, va_list a) { logs(f, a); return 0; }
int env_vprintf(const char *f, va_list a) { logs(f, a); return 0; }
int env_puts(const char *s) { if (keep_log) log += std::string(s) + "\n"; return 0; }
int env_fputs(const char *s, FILE *) { if (keep_log) log += s; return 0; }
int env_putchar(int c) { if (keep_log) log += (char)c; return c; }
int env_fputc(int c, FILE *) { if (keep_log) log += (char)c; return c; }
size_t env_fwrite(const void *p, size_t s, size_t n, FILE *) { if (keep_log) log.append((const char *)p, s * n); return n; }
int env_fflush(FILE *) { return 0; }
void env_perror(const char *s) { if (keep_log) log += std::string(s) + ": error\n"; }
char *env_getenv(const char *) { return nullptr; }
static int fd_open(const char *p) {
  auto i = fs.find(p); if (i == fs.end()) { errno = ENOENT; return -1; }
  for (int k = 0; k < 64; k++) if (!files[k].used) { files[k] = {&i->second, 0, true}; return k + 100; }
  return -1;
}
FILE *env_fopen(const char *p, const char *) { int k = fd_open(p); return k < 0 ? nullptr : (FILE *)(uintptr_t)(0x5000 + k); }
static File &F(FILE *f) { return files[(uintptr_t)f - 0x5000 - 100]; }
int env_fclose(FILE *f) { F(f).used = false; return 0; }
char *env_fgets(char *b, int n, FILE *f) {
  File &x = F(f); int k = 0;
  while (k < n - 1 && x.off < x.s->size()) { char c = (*x.s)[x.off++]; b[k++] = c; if (c == '\n') break; }
  if (!k) return nullptr; b[k] = 0; return b;
}
int env_fgetc(FILE *f) { File &x = F(f); return x.off < x.s->size() ? (unsigned char)(*x.s)[x.off++] : -1; }
size_t env_fread(void *b, size_t s, size_t n, FILE *f) { File &x = F(f); size_t k = std::min(s * n, x.s->size() - x.off); memcpy(b, x.s->data() + x.off, k); x.off += k; return s ? k / s : 0; }
ssize_t env_getline(char **l, size_t *n, FILE *f) {
  File &x = F(f); if (x.off >= x.s->size()) return -1;
  size_t e = x.s->find('\n', x.off); e = e == std::string::npos ? x.s->size() : e + 1; size_t k = e - x.off;
  if (!*l || *n < k + 1) { *l = (char *)env_realloc(*l, k + 128); *n = k + 128; }
  memcpy(*l, x.s->data() + x.off, k); (*l)[k] = 0; x.off = e; return k;
}
int env_feof(FILE *f) { return F(f).off >= F(f).s->size(); }
int env_ferror(FILE *) { return 0; }
int env_open(const char *p, int, ...) { if (!strcmp(p, "/dev/null")) return open_null_ok ? 99 : -1; return fd_open(p); }
int env_close(int fd) { if (fd >= 100 && fd < 164) files[fd - 100].used = false; return 0; }
ssize_t env_read(int fd, void *b, size_t n) {
  if (fd < 100 || fd >= 164 || !files[fd - 100].used) { errno = EBADF; return -1; }
  File &x = files[fd - 100]; size_t k = std::min(n, x.s->size() - x.off); if (short_read > 0) k = std::min(k, (size_t)short_read);
  memcpy(b, x.s->data() + x.off, k); x.off += k; return k;
}
int env_access(const char *p, int) { return fs.count(p) ? 0 : -1; }
int env_dup2(int, int b) { return b; }
int env_setsid() { return 1; }
int env_isatty(int) { return 0; }
int env_clock_gettime(int, struct timespec *ts) { ts->tv_sec = 1500000; ts->tv_nsec = 0; return 0; }
long env_time(long *t) { if (t) *t = 1500000; return 1500000; }
// ---- fork: the child runs first, on the parent's memory; when it ends, memory and stack are put back and
// fork returns a second time, in the parent
void fork_saved(uint64_t *regs) {      // regs: rbx rbp r12 r13 r14 r15 rsp(after return) rip
  forks.emplace_back(); Fork &f = forks.back(); memcpy(f.regs, regs, sizeof f.regs);
  if (armed) save(f.mem);
  char *sp = (char *)regs[6]; f.stack.assign(sp, stack_top);
}
[[noreturn]] void fork_return(uint64_t *regs, long pid);
[[noreturn]] static void child_done() {
  static uint64_t regs[8]; static Fork f; f = std::move(forks.back()); forks.pop_back();
  memcpy(regs, f.regs, sizeof regs);
  if (armed) restore(f.mem);
  memcpy((char *)regs[6], f.stack.data(), f.stack.size());
  fork_return(regs, next_pid++);
}
void env_exit(int c) { if (!forks.empty()) child_done(); sut_die("exit(%s)", c == 0 ? "0" : c == 255 || c == -1 ? "-1" : "nonzero"); }
void env__exit(int c) { env_exit(c); }
static int do_exec(const char *cmd) { if (on_exec) on_exec(cmd); if (exec_fails) { errno = ENOENT; return -1; } if (!forks.empty()) child_done(); sut_die("exec in the daemon process"); return -1; }
int env_execl(const char *p, const char *a0, ...) {
  va_list ap; va_start(ap, a0); std::string s = p; s += "|"; s += a0 ? a0 : ""; const char *x = a0;
  while (x && (x = va_arg(ap, const char *))) { s += "|"; s += x; } va_end(ap); return do_exec(s.c_str());
}
int env_execlp(const char *p, const char *a0, ...) {
  va_list ap; va_start(ap, a0); std::string s = p; s += "|"; s += a0 ? a0 : ""; const char *x = a0;
  while (x && (x = va_arg(ap, const char *))) { s += "|"; s += x; } va_end(ap); return do_exec(s.c_str());
}
int env_execv(const char *p, char *const *v) { std::string s = p; for (; *v; v++) { s += "|"; s += *v; } return do_exec(s.c_str()); }
int env_execvp(const char *p, char *const *v) { return env_execv(p, v); }
int env_system(const char *c) { if (on_exec) on_exec((std::string("system|") + c).c_str()); return 0; }
int env_wait(int *st) { if (st) *st = 0; return 1; }
int env_waitpid(int p, int *st, int) { if (st) *st = 0; return p; }
}
void env::reset_forks() { forks.clear(); }
bool env::in_child() { return !forks.empty(); }
