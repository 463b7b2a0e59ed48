// libc stand-ins of the parser harness: an in-memory file system with faults, captured log output, and no way out.
#include "penv.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
namespace penv {
std::map<std::string, std::string> fs; std::string log; int short_read = 0, open_fails = 0, read_fails_after = -1; size_t nlog = 0;
struct File { const std::string *s; size_t off; bool used; int reads; };
static File files[64];
int open_files() { int n = 0; for (auto &f : files) n += f.used; return n; }
void reset_files() { for (auto &f : files) f.used = false; }
static void logs(const char *fmt, va_list ap) { char b[8192]; vsnprintf(b, sizeof b, fmt, ap); log += b; nlog++; }
}
using namespace penv;
extern "C" {
void env_unexpected(const char *n) { die("unexpected call of %s", n); }
void *env_malloc(size_t n) { return malloc(n); }
void *env_calloc(size_t n, size_t s) { return calloc(n, s); }
void *env_realloc(void *p, size_t n) { return realloc(p, n); }
void env_free(void *p) { free(p); }
char *env_strdup(const char *s) { return strdup(s); }
void env___assert_fail(const char *e, const char *, unsigned, const char *) { die("assertion failed: %s", e); }
void env_abort() { die("abort()"); }
void env_exit(int c) { die("exit(%d)", c); }
void env__exit(int c) { die("_exit(%d)", c); }
int env_printf(const char *f, ...) { va_list a; va_start(a, f); logs(f, a); va_end(a); return 0; }
int env_fprintf(FILE *, const char *f, ...) { va_list a; va_start(a, f); logs(f, a); va_end(a); return 0; }
int env_vfprintf(FILE *, const char *f, va_list a) { logs(f, a); return 0; }
int env_vprintf(const char *f, va_list a) { logs(f, a); return 0; }
int env_puts(const char *s) { log += s; nlog++; return 0; }
int env_fputs(const char *s, FILE *) { log += s; return 0; }
int env_putchar(int c) { log += (char)c; return c; }
int env_fputc(int c, FILE *) { log += (char)c; return c; }
size_t env_fwrite(const void *p, size_t s, size_t n, FILE *) { log.append((const char *)p, s * n); return n; }
ssize_t env_write(int fd, const void *p, size_t n) { if (fd == 1 || fd == 2) log.append((const char *)p, n); return n; }
int env_fflush(FILE *) { return 0; }
void env_perror(const char *s) { log += s; nlog++; }
char *env_getenv(const char *) { return nullptr; }
int env_isatty(int) { return 0; }
static int fd_open(const char *p) {
  auto i = fs.find(p); if (i == fs.end()) { errno = ENOENT; return -1; }
  for (int k = 0; k < 64; k++) if (!files[k].used) { files[k] = {&i->second, 0, true, 0}; return k + 100; }
  errno = EMFILE; return -1;
}
FILE *env_fopen(const char *p, const char *) { int k = fd_open(p); return k < 0 ? nullptr : (FILE *)(uintptr_t)(0x5000 + k); }
static File &F(FILE *f) { size_t i = (uintptr_t)f - 0x5000 - 100; if (i >= 64 || !files[i].used) die("use of a closed file"); return files[i]; }
int env_fclose(FILE *f) { F(f).used = false; return 0; }
char *env_fgets(char *b, int n, FILE *f) {
  File &x = F(f); int k = 0;
  while (k < n - 1 && x.off < x.s->size()) { char c = (*x.s)[x.off++]; b[k++] = c; if (c == '\n') break; }
  if (!k) return nullptr; b[k] = 0; return b;
}
int env_fgetc(FILE *f) { File &x = F(f); return x.off < x.s->size() ? (unsigned char)(*x.s)[x.off++] : -1; }
int env_getc(FILE *f) { return env_fgetc(f); }
size_t env_fread(void *b, size_t s, size_t n, FILE *f) { File &x = F(f); size_t k = std::min(s * n, x.s->size() - x.off); memcpy(b, x.s->data() + x.off, k); x.off += k; return s ? k / s : 0; }
ssize_t env_getline(char **l, size_t *n, FILE *f) {
  File &x = F(f); if (x.off >= x.s->size()) return -1;
  size_t e = x.s->find('\n', x.off); e = e == std::string::npos ? x.s->size() : e + 1; size_t k = e - x.off;
  if (!*l || *n < k + 1) { *l = (char *)realloc(*l, k + 128); *n = k + 128; }
  memcpy(*l, x.s->data() + x.off, k); (*l)[k] = 0; x.off = e; return k;
}
int env_feof(FILE *f) { return F(f).off >= F(f).s->size(); }
int env_ferror(FILE *) { return 0; }
int env_open(const char *p, int, ...) { if (open_fails) { errno = EACCES; return -1; } return fd_open(p); }
int env_close(int fd) { if (fd < 100 || fd >= 164 || !files[fd - 100].used) die("close of a file that is not open"); files[fd - 100].used = false; return 0; }
ssize_t env_read(int fd, void *b, size_t n) {
  if (fd < 100 || fd >= 164 || !files[fd - 100].used) die("read of a file that is not open");
  File &x = files[fd - 100]; size_t k = std::min(n, x.s->size() - x.off);
  if (read_fails_after >= 0 && x.reads++ >= read_fails_after) { errno = EIO; return -1; }
  if (short_read > 0) k = std::min(k, (size_t)short_read);
  memcpy(b, x.s->data() + x.off, k); x.off += k; return k;
}
int env_access(const char *p, int) { if (fs.count(p)) return 0; errno = ENOENT; return -1; }
struct stat;
int env_stat(const char *p, struct stat *) { return fs.count(p) ? 0 : -1; }
}
