// The libc calls of the daemon, answered by the stand-in kernel (kernel.h).
#pragma once
#include "kernel.h"
using namespace kern;
struct Fork { uint64_t regs[8]; std::vector<char> stack; snap::Snap mem; Fd fds[80]; };
static std::vector<Fork> forks; static int next_pid = 1000; static uint64_t child_regs[8];
static void (*thr_create)(void *(*)(void *), void *, unsigned long *) = nullptr; static void *(*thr_join)(unsigned long) = nullptr; static bool keep_log = false; static std::string logtext;
static void logs(const char *f, va_list a) { if (!keep_log) return; char b[8192]; vsnprintf(b, sizeof b, f, a); logtext += b; }
static bool monitoring = false;                      // keyd monitor runs instead of the daemon
static bool injected(const char *n) { if (fail_call < 0) return false; if (fail_call == calls++) { fail_what = n; errno = EIO; return true; } return false; }
static void item(Item::Kind kd, int a, const std::string &s = "") { Item i; i.kind = kd; i.a = a; i.s = s; if (k.out.size() < 20000) k.out.push_back(i); else snap::sut_die("endless output"); }
static void uin_event(int u, const Ev &e) {
  Uin &d = k.uin[u];
  if (!d.created) { bad("event written to a uinput device before it was created"); return; }
  if (e.type == EV_SYN) {
    if (e.code != 0) return;
    if (d.part.size()) { Item i; i.kind = Item::REPORT; i.a = u; i.evs.swap(d.part); if (k.out.size() < 20000) k.out.push_back(i); else snap::sut_die("endless output"); }
    return;
  }
  auto bit = [](const uint64_t *m, int c) { return m[c >> 6] >> (c & 63) & 1; };
  if (!(d.ev >> e.type & 1)) return;                 // the kernel drops what the device did not declare
  if (e.type == EV_KEY) {
    if (e.code >= 768 || !bit(d.key, e.code)) return;
    if (e.value == 2) { d.part.push_back(e); k.dup = "code " + std::to_string(e.code) + " is auto-repeated"; return; }
    if (bit(d.down, e.code) == (e.value != 0)) { k.dup = "code " + std::to_string(e.code) + " is " + (e.value ? "pressed although it is down" : "released although it is up"); return; }
    d.down[e.code >> 6] ^= 1ull << (e.code & 63); d.part.push_back({e.type, e.code, e.value});
  } else if (e.type == EV_REL) { if (e.code < 16 && d.rel >> e.code & 1 && e.value) d.part.push_back(e); }
  else if (e.type == EV_ABS) { if (e.code < 64 && d.abs >> e.code & 1) d.part.push_back(e); }
}
static void con_wait(Con &c, long us, const char *what) {
  if (!us) { snap::sut_die("blocks forever: %s a client that %s, without a timeout", what, what[0] == 'r' ? "stays silent" : "does not read"); }
  k.now += us; k.blocked += us;
}
static ssize_t con_read(int ci, char *b, size_t n, int flags) {
  Con &c = k.cons[ci]; size_t got = 0;
  while (got < n) {
    size_t have = c.split && k.now < c.at ? c.split : c.in.size(), m = std::min(n - got, have - std::min(have, c.pos));
    if (m) { memcpy(b + got, c.in.data() + c.pos, m); c.pos += m; got += m; if (!(flags & MSG_WAITALL) || (flags & MSG_PEEK)) break; continue; }
    if (c.pos < c.in.size()) {
      if (flags & MSG_DONTWAIT) { errno = EAGAIN; return got ? (ssize_t)got : -1; }
      long left = c.at - k.now; if (c.rto && left > c.rto) { con_wait(c, c.rto, "reading from"); errno = EAGAIN; return got ? (ssize_t)got : -1; }
      k.now += left; k.blocked += left; continue;
    }
    if (c.end == 1 || c.peer_gone) { if (c.end == 2) { errno = ECONNRESET; return got ? (ssize_t)got : -1; } return got; }
    if (c.end == 2) { errno = ECONNRESET; return got ? (ssize_t)got : -1; }
    if (flags & MSG_DONTWAIT) { errno = EAGAIN; return got ? (ssize_t)got : -1; }
    con_wait(c, c.rto, "reading from"); errno = EAGAIN; return got ? (ssize_t)got : -1;
  }
  return got;
}
static ssize_t con_write(int ci, const char *b, size_t n, int flags) {
  Con &c = k.cons[ci];
  if (c.peer_gone || c.end >= 1 && c.cap == -2) {
    if (!(flags & MSG_NOSIGNAL) && !k.sigpipe_ign) snap::sut_die("killed by SIGPIPE");
    errno = EPIPE; return -1;
  }
  size_t m = c.cap < 0 ? n : std::min<size_t>(n, c.cap);
  c.out.append(b, m); if (c.cap >= 0) c.cap -= m;
  if (m == n) return n;
  if (flags & MSG_DONTWAIT) { if (m) return m; errno = EAGAIN; return -1; }
  con_wait(c, c.sto, "writing to"); if (m) return m; errno = EAGAIN; return -1;
}
static int file_lookup(const char *p, File **f) { auto &fs = filesets[k.fileset]; auto i = fs.find(p); if (i == fs.end()) return -1; *f = &i->second; return 0; }
static int open_path(const char *p, int flags, int mode = 0) {
  step_arg = p; STEP("open");
  if (!strcmp(p, "/dev/null")) { int fd = newfd(FK_NULL, 1, flags); if (fd >= 0) k.fds[fd].off = flags & O_ACCMODE; return fd; }
  if (!strcmp(p, "/dev/uinput")) { if (injected("open /dev/uinput")) return -1; int fd = newfd(FK_UINPUT, k.uin.size(), flags); if (fd >= 0) { k.uin.push_back(Uin()); k.uin.back().proc = cur_proc; } return fd; }
  if (!strncmp(p, "/dev/input/", 11)) {
    for (size_t i = 0; i < specs.size(); i++) if (k.devs[i].present && specs[i].node == p + 11) {
      if (specs[i].f_open) { errno = EACCES; return -1; }
      int fd = newfd(FK_DEV, i, flags); if (fd >= 0) { k.devs[i].opens++; if (k.devs[i].opens == 1) k.devs[i].q.clear(); } return fd; }
    errno = ENOENT; return -1;
  }
  std::string s = p; if (s == LOCKP) { if (k.lock_path && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } if (!k.lock_path) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } k.locks.push_back(Lock()); k.locks.back().mode = mode & ~k.umask[cur_proc & 1]; k.lock_path = k.locks.size(); } return newfd(FK_LOCK, k.lock_path - 1, flags); }
  File *f; if (file_lookup(p, &f) || f->fail) { errno = ENOENT; return -1; }
  auto &fs = filesets[k.fileset]; return newfd(FK_FILE, std::distance(fs.begin(), fs.find(p)) | k.fileset << 8, flags);
}
static File &file_of(const Fd &f) { auto i = filesets[f.idx >> 8].begin(); std::advance(i, f.idx & 255); return i->second; }
static void dev_gone(int i) { k.devs[i].q.clear(); }
static void close_fd(int n) {
  Fd &f = k.fds[n];
  if (f.kind == FK_DEV) { Dev &d = k.devs[f.idx]; if (d.opens) d.opens--; if (d.gproc == cur_proc && d.gfd == n) { d.grabs = 0; d.gproc = d.gfd = -1; } if (!d.opens) { d.grabs = 0; d.q.clear(); } }
  if (f.kind == FK_CON) { Con &c = k.cons[f.idx]; c.closed = true; }
  if (f.kind == FK_UINPUT) k.uin[f.idx].dead = true;
  if (f.kind == FK_LOCK) { Lock &l = k.locks[f.idx]; if (l.proc == cur_proc && (l.fd == n || l.fd < 0)) l.proc = l.fd = -1; }
  if (f.kind == FK_SOCK) k.socks[f.idx].open = k.socks[f.idx].listening = false;
  f = Fd();
}
extern "C" {
void env_unexpected(const char *n) { fprintf(stderr, "the harness does not model the call %s()\n", n); _exit(3); }
void *env_malloc(size_t n) { return halloc(n); }
void *env_calloc(size_t n, size_t s) { void *p = halloc(n * s); Blk *b = blk_of(p); char *c = (char *)p; size_t z = n * s;   // write only what is not zero already
  if (z < 4096) memset(p, 0, z); else for (size_t o = 0; o < z; o += 8) { size_t m = std::min<size_t>(8, z - o); static const char zz[8] = {0}; if (memcmp(c + o, zz, m)) memset(c + o, 0, m); } (void)b; return p; }
void env_free(void *p) {
  if (!p) return; Blk *b = blk_of(p);
  if (!b || b->state != 1) snap::sut_die("free() of memory that is not allocated");
  if (b->size > 4096 && snap::armed) { snap::Region *r = snap::find((uintptr_t)p); for (size_t o = 0; o < pages(b->size); o += 4096) { size_t g = r->first + ((uintptr_t)p + o - (uintptr_t)r->lo) / 4096; if (snap::hotflag[g]) memcpy((char *)p + o, r->base + ((uintptr_t)p + o - (uintptr_t)r->lo), 4096); } }
  b->state = 2; heap_sync();
}
void *env_realloc(void *p, size_t n) { void *q = halloc(n); if (p) { memcpy(q, p, std::min<size_t>(blk_of(p)->size, n)); env_free(p); } return q; }
char *env_strdup(const char *s) { char *p = (char *)halloc(strlen(s) + 1); strcpy(p, s); return p; }
void env___assert_fail(const char *e, const char *f, unsigned, const char *) { snap::sut_die("assertion failed: %s (%s)", e, f); }
void env_abort() { snap::sut_die("abort()"); }
static void outs(const char *f, va_list a) { if (!monitoring) return logs(f, a); char b[8192]; vsnprintf(b, sizeof b, f, a); k.obuf += b; size_t p = k.obuf.rfind('\n'); if (k.linebuf && p != std::string::npos) { k.text += k.obuf.substr(0, p + 1); k.obuf.erase(0, p + 1); } }
int env_printf(const char *f, ...) { STEP("printf"); va_list a; va_start(a, f); outs(f, a); va_end(a); return 0; }
int env_fprintf(FILE *o, const char *f, ...) { STEP("fprintf"); va_list a; va_start(a, f); o == stdout ? outs(f, a) : logs(f, a); va_end(a); return 0; }
int env_vfprintf(FILE *o, const char *f, va_list a) { STEP("vfprintf"); o == stdout ? outs(f, a) : logs(f, a); return 0; }
int env_vprintf(const char *f, va_list a) { STEP("vprintf"); outs(f, a); return 0; }
int env_puts(const char *s) { if (keep_log) logtext += std::string(s) + "\n"; return 0; }
int env_fputs(const char *s, FILE *) { if (keep_log) logtext += s; return 0; }
int env_putchar(int c) { return c; } int env_fputc(int c, FILE *) { return c; } int env_putc(int c, FILE *) { return c; }
size_t env_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int env_fflush(FILE *f) { if (monitoring && (!f || f == stdout)) { k.text += k.obuf; k.obuf.clear(); } return 0; } int env_setvbuf(FILE *f, char *, int m, size_t) { if (f == stdout) k.linebuf = m != _IOFBF; return 0; } void env_setlinebuf(FILE *f) { if (f == stdout) k.linebuf = true; }
void env_perror(const char *s) { if (keep_log) logtext += std::string(s) + ": " + strerror(errno) + "\n"; }
char *env_getenv(const char *) { return nullptr; } char *env_secure_getenv(const char *) { return nullptr; }
int env_isatty(int) { return 0; } int env_nice(int) { return 0; } int env_atexit(void (*f)()) { if (exit_handler_n < 16) exit_handlers[exit_handler_n++] = f; return 0; } int env_getpid() { return 4242; }
void *env_signal(int s, void *h) { if (s == SIGPIPE) k.sigpipe_ign = h == (void *)SIG_IGN; if (s == SIGCHLD) k.sigchld_ign = h == (void *)SIG_IGN; return 0; }
int env_sigaction(int s, const struct sigaction *a, struct sigaction *) { if (a && s == SIGPIPE) k.sigpipe_ign = a->sa_handler == SIG_IGN; if (a && s == SIGCHLD) k.sigchld_ign = a->sa_handler == SIG_IGN || (a->sa_flags & SA_NOCLDWAIT); return 0; }
struct group *env_getgrnam(const char *n) { static struct group g; bool keyd = !strcmp(n, "keyd"); g.gr_gid = keyd ? 77 : !strcmp(n, "root") ? 0 : 104; return have_group || !keyd ? &g : nullptr; }
int env_setgid(unsigned g) { k.egid[cur_proc & 1] = g; return 0; } int env_setegid(unsigned g) { return env_setgid(g); } int env_setregid(unsigned, unsigned e) { return e == -1u ? 0 : env_setgid(e); } int env_setresgid(unsigned, unsigned e, unsigned) { return e == -1u ? 0 : env_setgid(e); } unsigned env_getgid() { return k.egid[cur_proc & 1]; } unsigned env_getegid() { return k.egid[cur_proc & 1]; } int env_setuid(unsigned) { return 0; } int env_setsid() { return 1; }
// who may use the socket and the lock file; fchmod() of a socket reaches its own inode, which bind() takes the mode from
static int *path_mode(const char *p) { return !strcmp(p, SOCKP) && k.sock_path > 0 ? &k.socks[k.sock_path - 1].mode : !strcmp(p, LOCKP) && k.lock_path > 0 ? &k.locks[k.lock_path - 1].mode : nullptr; }
static bool path_there(const char *p) { return !strcmp(p, SOCKP) ? k.sock_path : !strcmp(p, LOCKP) ? k.lock_path : true; }
int env_chmod(const char *p, unsigned m) { step_arg = "/run"; STEP("chmod"); if (!path_there(p)) { errno = ENOENT; return -1; } if (int *q = path_mode(p)) *q = m; return 0; }
int env_fchmodat(int, const char *p, unsigned m, int) { return env_chmod(p, m); }
int env_fchmod(int fd, unsigned m) { step_arg = "/run"; STEP("fchmod"); Fd *f = fdp(fd, "fchmod()"); if (!f) return -1; if (f->kind == FK_SOCK && k.sock_path != f->idx + 1) k.socks[f->idx].mode = m; if (f->kind == FK_LOCK) k.locks[f->idx].mode = m; return 0; }
int env_chown(const char *p, unsigned, unsigned g) { step_arg = "/run"; STEP("chmod"); if (!path_there(p)) { errno = ENOENT; return -1; } if (!strcmp(p, SOCKP) && k.sock_path > 0 && g != -1u) k.socks[k.sock_path - 1].gid = g; return 0; }
int env_lchown(const char *p, unsigned u, unsigned g) { return env_chown(p, u, g); } int env_fchownat(int, const char *p, unsigned u, unsigned g, int) { return env_chown(p, u, g); } int env_fchown(int, unsigned, unsigned) { return 0; }
unsigned env_umask(unsigned m) { int o = k.umask[cur_proc & 1]; k.umask[cur_proc & 1] = m & 0777; return o; }
 int env_mkdir(const char *, unsigned) { return 0; }
int env_clock_gettime(int, struct timespec *t) { t->tv_sec = k.now / 1000000; t->tv_nsec = k.now % 1000000 * 1000; return 0; }
int env_gettimeofday(struct timeval *t, void *) { t->tv_sec = k.now / 1000000; t->tv_usec = k.now % 1000000; return 0; }
long env_time(long *t) { long v = k.now / 1000000; if (t) *t = v; return v; }
int env_usleep(unsigned us) { STEP("usleep"); k.now += us; item(Item::SLEEP, us); return 0; }
int env_nanosleep(const struct timespec *t, struct timespec *) { return env_usleep(t->tv_sec * 1000000 + t->tv_nsec / 1000); }
int env_clock_nanosleep(int, int, const struct timespec *t, struct timespec *r) { return env_nanosleep(t, r); }
unsigned env_sleep(unsigned s) { env_usleep(s * 1000000); return 0; }
int env_poll(struct pollfd *p, unsigned long n, int to) { k.pfds = p; k.npfds = n; k.timeout = to; yield(W_POLL); return k.npfds; }
int env_ppoll(struct pollfd *p, unsigned long n, const struct timespec *t, const void *) { return env_poll(p, n, t ? t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000 : -1); }
// ---- files
#define OMODE va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap)
int env_open(const char *p, int fl, ...) { OMODE; return open_path(p, fl, mode); } int env_open64(const char *p, int fl, ...) { OMODE; return open_path(p, fl, mode); }
int env_openat(int, const char *p, int fl, ...) { OMODE; return open_path(p, fl, mode); }
int env_close(int fd) { step_req = fd >= 0 && fd < 80 ? k.fds[fd].kind : 0; STEP("close"); Fd *f = fdp(fd, "close()"); if (!f) return -1; close_fd(fd); return 0; }
int env_access(const char *p, int) { if (!strcmp(p, SOCKP) || !strcmp(p, LOCKP)) { step_arg = p; STEP("access"); if (!strcmp(p, SOCKP) ? k.sock_path : k.lock_path) return 0; errno = ENOENT; return -1; } File *f; if (!file_lookup(p, &f)) return 0; errno = ENOENT; return -1; }
int env_stat(const char *p, struct stat *st) { File *f; memset(st, 0, sizeof *st); if (file_lookup(p, &f)) { errno = ENOENT; return -1; } st->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = f->data.size(); return 0; }
int env_fstat(int fd, struct stat *st) { Fd *f = fdp(fd, "fstat()"); if (!f) return -1; memset(st, 0, sizeof *st); if (f->kind == FK_FILE) { st->st_mode = S_IFREG | 0644; st->st_size = file_of(*f).data.size(); } else if (f->kind == FK_OUT) st->st_mode = f->idx ? S_IFREG | 0600 : S_IFIFO | 0600; else st->st_mode = S_IFCHR | 0600; return 0; }
FILE *env_fopen(const char *p, const char *) { int fd = open_path(p, O_CLOEXEC); return fd < 0 ? nullptr : (FILE *)(uintptr_t)(0x5000 + fd); }
int env_fclose(FILE *f) { return env_close((uintptr_t)f - 0x5000); }
char *env_fgets(char *b, int n, FILE *f) {
  Fd &d = k.fds[(uintptr_t)f - 0x5000]; File &x = file_of(d); int m = 0;
  while (m < n - 1 && d.off < (int)x.data.size()) { char c = x.data[d.off++]; b[m++] = c; if (c == '\n') break; }
  if (!m) return nullptr; b[m] = 0; return b;
}
int env_fgetc(FILE *f) { Fd &d = k.fds[(uintptr_t)f - 0x5000]; File &x = file_of(d); return d.off < (int)x.data.size() ? (unsigned char)x.data[d.off++] : -1; }
int env_getc(FILE *f) { return env_fgetc(f); }
size_t env_fread(void *b, size_t s, size_t n, FILE *f) { Fd &d = k.fds[(uintptr_t)f - 0x5000]; File &x = file_of(d); size_t m = std::min(s * n, x.data.size() - d.off); memcpy(b, x.data.data() + d.off, m); d.off += m; return s ? m / s : 0; }
ssize_t env_getline(char **l, size_t *n, FILE *f) {
  Fd &d = k.fds[(uintptr_t)f - 0x5000]; File &x = file_of(d); if (d.off >= (int)x.data.size()) return -1;
  size_t e = x.data.find('\n', d.off); e = e == std::string::npos ? x.data.size() : e + 1; size_t m = e - d.off;
  if (!*l || *n < m + 1) { *l = (char *)env_realloc(*l, m + 128); *n = m + 128; }
  memcpy(*l, x.data.data() + d.off, m); (*l)[m] = 0; d.off = e; return m;
}
int env_feof(FILE *f) { Fd &d = k.fds[(uintptr_t)f - 0x5000]; return d.off >= (int)file_of(d).data.size(); } int env_ferror(FILE *) { return 0; }
struct ODir { int pos, which; }; static ODir odirs[8]; static int odirn = 0;
DIR *env_opendir(const char *p) {
  STEP("opendir");
  std::string s = p; while (s.size() > 1 && s.back() == '/') s.pop_back(); bool input = s == "/dev/input";
  if (!input) { bool any = s == "/etc/keyd"; for (auto &f : filesets[k.fileset]) any |= f.first.compare(0, s.size() + 1, s + "/") == 0; if (!any) { errno = ENOENT; return nullptr; } }
  odirn = (odirn + 1) % 8; odirs[odirn] = {0, input}; return (DIR *)&odirs[odirn];
}
int env_closedir(DIR *) { STEP("closedir"); return 0; } void env_rewinddir(DIR *d) { ((ODir *)d)->pos = 0; }
struct dirent *env_readdir(DIR *dd) {
  STEP("readdir");
  static struct dirent e; ODir *d = (ODir *)dd; std::string n; bool dir = false;
  if (d->which) {                                    // /dev/input: also things that are not event nodes
    static const char *extra[] = {".", "..", "by-path", "mice", "mouse0", "js0"}; int i = d->pos++;
    if (i < 6) { n = extra[i]; dir = i < 3; } else { std::vector<int> v; for (size_t j = 0; j < specs.size(); j++) if (k.devs[j].present) v.push_back(j); if (i - 6 >= (int)v.size()) return nullptr; n = specs[v[i - 6]].node; dir = specs[v[i - 6]].nodir; }
  } else {
    int i = d->pos++; if (i < 2) { n = i ? ".." : "."; dir = true; } else { i -= 2; bool found = false; for (auto &f : filesets[k.fileset]) { if (f.first.compare(0, 10, "/etc/keyd/")) continue; if (f.first.find('/', 10) != std::string::npos) continue; if (i-- == 0) { n = f.first.substr(10); dir = f.second.dir; found = true; break; } } if (!found) return nullptr; }
  }
  memset(&e, 0, sizeof e); e.d_type = dir ? DT_DIR : d->which ? DT_CHR : DT_REG; strncpy(e.d_name, n.c_str(), 255); return &e;
}
struct dirent *env_readdir64(DIR *d) { return env_readdir(d); }
static ssize_t do_read(int fd, char *b, size_t n, int flags) {
  Fd *f = fdp(fd, "read()"); if (!f) return -1;
  switch (f->kind) {
  case FK_FILE: { File &x = file_of(*f); size_t m = std::min(n, x.data.size() - f->off); memcpy(b, x.data.data() + f->off, m); f->off += m; return m; }
  case FK_CON: return con_read(f->idx, b, n, flags);
  case FK_DEV: {
    Dev &d = k.devs[f->idx]; if (!d.present || d.gone) { errno = ENODEV; return -1; }
    if (d.q.empty()) { if (!f->nonblock) snap::sut_die("blocks forever: read() of an input device without O_NONBLOCK"); errno = EAGAIN; return -1; }
    size_t m = 0; while (n - m >= sizeof(struct input_event) && !d.q.empty()) { struct input_event e; memset(&e, 0, sizeof e); e.type = d.q.front().type; e.code = d.q.front().code; e.value = d.q.front().value; d.q.pop_front(); memcpy(b + m, &e, sizeof e); m += sizeof e; }
    if (!m) { errno = EINVAL; return -1; } return m; }
  case FK_INOTIFY: {
    size_t m = 0; while (!k.ino.empty()) { size_t l = (k.ino.front().size() + 16) / 16 * 16; if (m + 16 + l > n) break; struct inotify_event *e = (struct inotify_event *)(b + m); memset(e, 0, 16 + l); e->wd = 1; e->mask = IN_CREATE; e->len = l; memcpy(e->name, k.ino.front().data(), k.ino.front().size()); k.ino.pop_front(); m += 16 + l; }
    if (!m) { if (!f->nonblock) snap::sut_die("blocks forever: read() of the inotify descriptor without IN_NONBLOCK"); errno = EAGAIN; return -1; } return m; }
  case FK_NULL: return 0;
  default: errno = EINVAL; return -1;
  }
}
ssize_t env_read(int fd, void *b, size_t n) { return do_read(fd, (char *)b, n, 0); }
ssize_t env_recv(int fd, void *b, size_t n, int fl) { return do_read(fd, (char *)b, n, fl); }
ssize_t env_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return do_read(fd, (char *)b, n, fl); }
static ssize_t do_write(int fd, const char *b, size_t n, int flags) {
  if (fd == 1 || fd == 2) return n;
  Fd *f = fdp(fd, "write()"); if (!f) return -1;
  switch (f->kind) {
  case FK_CON: return con_write(f->idx, b, n, flags);
  case FK_DEV: {
    Dev &d = k.devs[f->idx]; if (!d.present || d.gone) { errno = ENODEV; return -1; } if (specs[f->idx].f_led) { errno = EIO; return -1; }
    for (size_t o = 0; o + sizeof(struct input_event) <= n; o += sizeof(struct input_event)) { struct input_event e; memcpy(&e, b + o, sizeof e); if (e.type == EV_LED && e.code < 16) d.led[e.code] = e.value != 0; }
    return n; }
  case FK_UINPUT: {
    Uin &u = k.uin[f->idx];
    if (!u.created) { if (injected("write to /dev/uinput")) return -1; if (n < sizeof(struct uinput_user_dev)) { errno = EINVAL; return -1; } struct uinput_user_dev ud; memcpy(&ud, b, sizeof ud); u.vendor = ud.id.vendor; for (int a = 0; a < 2; a++) u.amin[a] = ud.absmin[a], u.amax[a] = ud.absmax[a]; return n; }
    for (size_t o = 0; o + sizeof(struct input_event) <= n; o += sizeof(struct input_event)) { struct input_event e; memcpy(&e, b + o, sizeof e); uin_event(f->idx, {e.type, e.code, e.value}); }
    return n; }
  case FK_NULL: return n;
  default: errno = EINVAL; return -1;
  }
}
ssize_t env_write(int fd, const void *b, size_t n) { return do_write(fd, (const char *)b, n, 0); }
ssize_t env_writev(int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size(), 0); }
ssize_t env_send(int fd, const void *b, size_t n, int fl) { return do_write(fd, (const char *)b, n, fl); }
ssize_t env_sendto(int fd, const void *b, size_t n, int fl, const void *, unsigned) { return do_write(fd, (const char *)b, n, fl); }
int env_vdprintf(int fd, const char *f, va_list a) { char b[8192]; int n = vsnprintf(b, sizeof b, f, a); ssize_t w = do_write(fd, b, n, 0); return w == n ? n : -1; }   // like glibc: what is left after a short write fails
int env_dprintf(int fd, const char *f, ...) { va_list a; va_start(a, f); int r = env_vdprintf(fd, f, a); va_end(a); return r; }
static int do_lock(int, bool, bool, bool);
int env_fcntl(int fd, int cmd, long arg) { if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) return do_lock(fd, ((struct flock *)arg)->l_type == F_UNLCK, cmd == F_SETLKW || cmd == F_OFD_SETLKW, cmd == F_SETLK || cmd == F_SETLKW); Fd *f = fdp(fd, "fcntl()"); if (!f) return -1; if (cmd == F_SETFD) f->cloexec = arg & FD_CLOEXEC; if (cmd == F_GETFD) return f->cloexec; if (cmd == F_SETFL) f->nonblock = !!(arg & O_NONBLOCK); if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK : 0; return 0; }
int env_fcntl64(int fd, int cmd, long arg) { return env_fcntl(fd, cmd, arg); } int env___fcntl_time64(int fd, int cmd, long arg) { return env_fcntl(fd, cmd, arg); }
int env_dup2(int a, int b) { Fd *f = fdp(a, "dup2()"); if (!f) return -1; if (b >= 0 && b < 3 && a != b) { k.fds[b] = *f; k.fds[b].cloexec = 0; } return b; }      // only the standard streams are ever replaced
// ---- ioctl
static void (*kernel_writes)(uintptr_t, size_t) = nullptr;      // start-up scan: what the kernel fills in counts as written by the thread
int env_ioctl(int fd, unsigned long rq, unsigned long arg) {
  Fd *f = fdp(fd, "ioctl()"); if (!f) return -1; unsigned ty = _IOC_TYPE(rq), nr = _IOC_NR(rq), sz = _IOC_SIZE(rq);
  if (f->kind == FK_UINPUT && ty == 'U') {
    if (injected("ioctl of /dev/uinput")) return -1;
    Uin &u = k.uin[f->idx]; int v = (int)arg;
    if (rq == UI_DEV_CREATE) { step_req = 0; STEP("uinput create"); k.uin[k.fds[fd].idx].created = true; }
    else if (u.created && rq != UI_DEV_DESTROY) { errno = EINVAL; return -1; }
    else if (rq == UI_SET_EVBIT) u.ev |= 1ull << (v & 63); else if (rq == UI_SET_KEYBIT) { if (v < 0 || v >= 768) { errno = EINVAL; return -1; } u.key[v >> 6] |= 1ull << (v & 63); } else if (rq == UI_SET_RELBIT) u.rel |= 1ull << (v & 63);
    else if (rq == UI_SET_ABSBIT) u.abs |= 1ull << (v & 63); else if (rq == UI_SET_LEDBIT) u.led |= 1ull << (v & 63); else if (rq == UI_DEV_DESTROY) u.dead = true; else if (rq == UI_DEV_SETUP) u.vendor = ((struct uinput_setup *)arg)->id.vendor; else if (rq == UI_ABS_SETUP) { auto *a = (struct uinput_abs_setup *)arg; if (a->code < 2) u.amin[a->code] = a->absinfo.minimum, u.amax[a->code] = a->absinfo.maximum; }
    return 0;
  }
  if (f->kind == FK_DEV && ty == 'E') {
    step_req = nr; STEP("ioctl"); if (sz && kernel_writes) kernel_writes(arg, sz);
    Dev &d = k.devs[f->idx]; DevSpec &s = specs[f->idx]; char *p = (char *)arg;
    if (!d.present || d.gone) { errno = ENODEV; return -1; }
    if (nr == 0x20 + EV_KEY) { if (s.f_key) { errno = EIO; return -1; } memset(p, 0, sz); for (unsigned c = 0; c < sz * 8; c++) if (s.keybit(c)) p[c / 8] |= 1 << c % 8; return sz; }
    if (nr == 0x20 + EV_REL) { if (s.f_rel) { errno = EIO; return -1; } memset(p, 0, sz); if (sz) p[0] = s.relmask(); return sz; }
    if (nr == 0x20 + EV_ABS) { if (s.f_abs) { errno = EIO; return -1; } memset(p, 0, sz); if (sz) p[0] = s.absmask(); return sz; }
    if (nr >= 0x20 && nr < 0x40) { memset(p, 0, sz); return sz; }
    if (nr == 0x06) { if (s.f_name) { errno = EIO; return -1; } size_t n = std::min<size_t>(sz, s.name.size() + 1); memcpy(p, s.name.c_str(), n); return n; }   // like the kernel: not terminated when cut off
    if (nr == 0x02) { if (s.f_id) { errno = EIO; return -1; } struct input_id id = {3, (uint16_t)s.vendor, (uint16_t)s.product, 1}; memcpy(p, &id, sizeof id); return 0; }
    if (nr == 0x40 + ABS_X || nr == 0x40 + ABS_Y) { if (s.f_absinfo) { errno = EIO; return -1; } struct input_absinfo a; memset(&a, 0, sizeof a); a.minimum = nr == 0x40 ? s.minx : s.miny; a.maximum = nr == 0x40 ? s.maxx : s.maxy; memcpy(p, &a, sizeof a); return 0; }
    if (nr == 0x18) { if (s.f_getkey) { errno = EIO; return -1; } memset(p, 0, sz); if (d.held > 0) { d.held--; k.now += 1000; if (s.heldkey / 8 < (int)sz) p[s.heldkey / 8] |= 1 << s.heldkey % 8; if (!d.held) for (auto &e : {Ev{EV_KEY, 48, 1}, Ev{EV_KEY, 48, 0}, Ev{EV_KEY, (uint16_t)s.heldkey, 0}}) { d.q.push_back(e); d.q.push_back({EV_SYN, 0, 0}); } } else for (int c = 0; c < 768 && c / 8 < (int)sz; c++) if (d.phys[c >> 6] >> (c & 63) & 1) { p[c / 8] |= 1 << c % 8; }
      for (int i = 0; i < 12; i++) d.phys[i] = 0;     // whoever holds a key lets go of it eventually
      return sz; }
    if (nr == 0x90) { if (!arg) { if (!d.grabs || d.gproc != cur_proc || d.gfd != fd) { errno = EINVAL; return -1; } d.grabs = 0; d.gproc = d.gfd = -1; return 0; } for (auto x : d.phys) if (x || d.held > 0) bad("an input device is grabbed while one of its keys is down"); if (s.f_grab || d.grabs) { errno = EBUSY; return -1; } d.grabs = 1; d.gproc = cur_proc; d.gfd = fd; return 0; }
    errno = EINVAL; return -1;
  }
  errno = ENOTTY; return -1;
}
// ---- sockets, inotify
int env_socket(int, int ty, int) { STEP("socket"); k.socks.push_back(Sock()); k.socks.back().proc = cur_proc; return newfd(FK_SOCK, k.socks.size() - 1, ty & SOCK_CLOEXEC ? O_CLOEXEC : 0); }
int env_bind(int fd, const struct sockaddr *a, unsigned) { step_arg = ((const struct sockaddr_un *)a)->sun_path; STEP("bind"); Fd *f = fdp(fd, "bind()"); if (!f) return -1; if (strcmp(step_arg = ((const struct sockaddr_un *)a)->sun_path, SOCKP)) { errno = EACCES; return -1; } if (k.sock_path) { errno = EADDRINUSE; return -1; } k.sock_path = f->idx + 1; Sock &s = k.socks[f->idx]; s.mode &= ~k.umask[cur_proc & 1]; s.gid = k.egid[cur_proc & 1]; return 0; }
int env_listen(int fd, int) { step_arg = SOCKP; STEP("listen"); Fd *f = fdp(fd, "listen()"); if (!f) return -1; k.socks[f->idx].listening = true; return 0; }
int env_connect(int fd, const struct sockaddr *a, unsigned) { step_arg = SOCKP; STEP("connect"); if (!fdp(fd, "connect()")) return -1; if (strcmp(((const struct sockaddr_un *)a)->sun_path, SOCKP) || !k.sock_path) { errno = ENOENT; return -1; } if (k.sock_path < 0 || !k.socks[k.sock_path - 1].listening) { errno = ECONNREFUSED; return -1; } return 0; }
int env_unlink(const char *p) { step_arg = p; STEP("unlink"); int *w = !strcmp(p, SOCKP) ? &k.sock_path : !strcmp(p, LOCKP) ? &k.lock_path : nullptr; if (!w || !*w) { errno = ENOENT; return -1; } *w = 0; return 0; }
int env_remove(const char *p) { return env_unlink(p); }
// whole-file locks: flock() belongs to the open file, fcntl() to the process
static int do_lock(int fd, bool un, bool wait, bool posix) {
  for (;;) {
    step_arg = LOCKP; STEP("flock"); Fd *f = fdp(fd, "flock()"); if (!f) return -1; if (f->kind != FK_LOCK) return 0; Lock &l = k.locks[f->idx]; bool mine = l.proc == cur_proc && (posix || l.fd == fd);
    if (un) { if (mine) l.proc = l.fd = -1; return 0; } if (l.proc < 0 || mine) { l.proc = cur_proc; l.fd = posix ? -1 : fd; return 0; }
    if (!wait) { errno = EWOULDBLOCK; return -1; } if (!sched_point) snap::sut_die("blocks forever: waits for a lock");
  }
}
int env_flock(int fd, int op) { return do_lock(fd, op & LOCK_UN, !(op & LOCK_NB), false); }
int env_lockf(int fd, int cmd, long) { return do_lock(fd, cmd == F_ULOCK, cmd == F_LOCK, true); }
int env_lockf64(int fd, int cmd, long n) { return env_lockf(fd, cmd, n); }
static int do_accept(int fd, int fl) { if (!fdp(fd, "accept()")) return -1; if (k.fail_accept) { k.fail_accept--; if (!k.backlog.empty()) { k.cons[k.backlog[0]].closed = true; k.backlog.erase(k.backlog.begin()); } errno = ECONNABORTED; return -1; } if (k.backlog.empty()) snap::sut_die("blocks forever: accept() with no client waiting"); int ci = k.backlog[0], n = newfd(FK_CON, ci, fl & SOCK_CLOEXEC ? O_CLOEXEC : 0); if (n < 0) return -1; k.backlog.erase(k.backlog.begin()); k.cons[ci].accepted = true; return n; }
int env_accept(int fd, void *, void *) { return do_accept(fd, 0); } int env_accept4(int fd, void *, void *, int fl) { return do_accept(fd, fl); }
int env_setsockopt(int fd, int lv, int opt, const void *v, unsigned) { Fd *f = fdp(fd, "setsockopt()"); if (!f) return -1; if (f->kind == FK_CON && lv == SOL_SOCKET) { const struct timeval *t = (const struct timeval *)v; Con &c = k.cons[f->idx]; long us = t->tv_sec * 1000000 + t->tv_usec; if (opt == SO_RCVTIMEO) c.rto = us; if (opt == SO_SNDTIMEO) c.sto = us; } return 0; }
int env_getsockopt(int, int, int, void *, void *) { return 0; } int env_shutdown(int, int) { return 0; }
int env_inotify_init1(int fl) { STEP("inotify"); k.ino.clear(); return k.inofd = newfd(FK_INOTIFY, 0, (fl & IN_CLOEXEC ? O_CLOEXEC : 0) | (fl & IN_NONBLOCK ? O_NONBLOCK : 0)); }
int env_inotify_init() { return env_inotify_init1(0); }
int env_inotify_add_watch(int fd, const char *, unsigned) { return fdp(fd, "inotify_add_watch()") ? 1 : -1; }
// ---- threads: run to completion where they are created, unless schedules are explored
static void *thr_ret[256]; static unsigned long thr_n = 0;
int env_pthread_create(unsigned long *t, const void *, void *(*fn)(void *), void *arg) { if (thr_create) { thr_create(fn, arg, t); return 0; } *t = thr_n % 256; thr_ret[thr_n++ % 256] = fn(arg); return 0; }
int env_pthread_join(unsigned long t, void **r) { void *v = thr_join ? thr_join(t) : thr_ret[t % 256]; if (r) *r = v; return 0; }
int env_pthread_detach(unsigned long) { return 0; }
int env_pthread_mutex_init(void *, void *) { return 0; } int env_pthread_mutex_destroy(void *) { return 0; }
int env_pthread_mutex_lock(void *); int env_pthread_mutex_unlock(void *);
// ---- processes
[[noreturn]] static void proc_end(int c) { k.text += k.obuf; k.obuf.clear(); if (run_exit_handlers && forks.empty()) while (exit_handler_n > 0) exit_handlers[--exit_handler_n](); k.exited = true; k.exit_code = c; yield(forks.empty() ? W_EXIT : W_CHILD); _exit(9); }
void env_exit(int c) { if (!forks.empty()) { yield(W_CHILD); } proc_end(c); }
void env__exit(int c) { env_exit(c); }
void fork_saved(uint64_t *regs) {
  forks.emplace_back(); Fork &f = forks.back(); memcpy(f.regs, regs, sizeof f.regs); memcpy((void *)f.fds, k.fds, sizeof f.fds);
  if (snap::armed) { heap_open(); snap::save(f.mem); heap_sync(); } f.stack.assign((char *)regs[6], stk_hi);
}
static int do_exec(const std::string &cmd) {
  if (forks.empty()) snap::sut_die("exec in the daemon process");
  std::string s = cmd; for (int i = 3; i < 80; i++) if (k.fds[i].kind > FK_NULL && !k.fds[i].cloexec) { const char *nm[] = {"", "", "the virtual device", "an input device", "the device monitor", "the control socket", "a client connection", "the lock file", "a file", "a directory", "a file"}; bad(std::string("a command inherits ") + nm[k.fds[i].kind]); }
  static const char *sn[] = {"input", "output", "error"};
  for (int i = 0; i < 3; i++) {
    Fd &f = k.fds[i];
    if (f.kind == FK_FREE) bad(std::string("a command inherits no standard ") + sn[i]);
    else if (f.kind == FK_NULL && !f.idx) bad(std::string("a command inherits the standard ") + sn[i] + " of the daemon");
    else if (f.kind == FK_NULL && f.off == (i ? O_RDONLY : O_WRONLY)) bad(std::string("a command inherits a standard ") + sn[i] + (i ? " which it cannot write to" : " which it cannot read from"));
  }
  item(Item::CMD, 0, s); yield(W_CHILD); return -1;
}
int env_execl(const char *p, const char *a0, ...) { va_list ap; va_start(ap, a0); std::string s = p; s += "|"; s += a0 ? a0 : ""; const char *x = a0; while (x && (x = va_arg(ap, const char *))) { s += "|"; s += x; } va_end(ap); return do_exec(s); }
int env_execlp(const char *p, const char *a0, ...) { va_list ap; va_start(ap, a0); std::string s = p; s += "|"; s += a0 ? a0 : ""; const char *x = a0; while (x && (x = va_arg(ap, const char *))) { s += "|"; s += x; } va_end(ap); return do_exec(s); }
int env_execv(const char *p, char *const *v) { std::string s = p; for (; *v; v++) { s += "|"; s += *v; } return do_exec(s); }
int env_execvp(const char *p, char *const *v) { return env_execv(p, v); }
int env_system(const char *c) { item(Item::CMD, 0, std::string("/bin/sh|/bin/sh|-c|") + c); return 0; }
static int do_wait(int p, int *st) { if (st) *st = 0; if (forks.empty()) { if (!k.zombies) { errno = ECHILD; return -1; } k.zombies--; } return p > 0 ? p : 1; }
int env_wait(int *st) { return do_wait(0, st); } int env_waitpid(int p, int *st, int) { return do_wait(p, st); }
}
