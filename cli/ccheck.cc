// Stateless exploration of the command line client (keyd.c, ipc.c, util.c): every execution runs the unmodified main() in a
// forked child whose standard input, standard output and control socket are models that may shorten or fail any call; all
// placements of up to BUDGET such deviations are enumerated for every command line, input and daemon answer of the scenarios.
//   ccheck [--thorough] [--outdir D] [--replay FILE]
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
typedef std::string S;
extern "C" { int sut_main(int, char **); extern const int g_msg_size, g_off_type, g_off_timeout, g_off_sz, g_off_data, g_sz_size, g_data_size, g_types[7]; const char *g_name(int, int); int g_parse(const char *, unsigned char *, unsigned char *);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_poll(struct pollfd *, nfds_t, int); int __real_isatty(int);
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:log_path=/dev/null"; } const char *__ubsan_default_options() { return "abort_on_error=1:log_path=/dev/null"; } }
enum { SUCCESS, FAIL, BIND, INPUT, MACRO, RELOAD, LISTEN };
static const char *TN[] = {"SUCCESS", "FAIL", "BIND", "INPUT", "MACRO", "RELOAD", "LISTEN"};

struct Reply { int type; S data; };
struct Scn { std::vector<S> args; S in; std::vector<Reply> rep; S stream; int budget; };
// what the child leaves behind
enum { MAXC = 600, MAXS = 400000 };
struct Log { int nchoice, arity[MAXC], pick[MAXC]; char what[MAXC][24]; int steps, hang, nconn, failed_conn, failed_sock, failed_in, failed_out, gone; int inread; int replied; int nsent; char sent[MAXS]; int sentlen[64]; int connected[64]; int got[64]; int relayed; };
static Log *lg; static const Scn *sc; static std::vector<int> prefix; static bool in_sut = false;
static int instream = 0; static int left_budget;
static S reply_bytes(const Reply &r) { S s(g_msg_size, '\0'); *(int *)&s[g_off_type] = g_types[r.type]; if (g_sz_size == 8) *(uint64_t *)&s[g_off_sz] = r.data.size(); else *(uint32_t *)&s[g_off_sz] = r.data.size(); memcpy(&s[g_off_data], r.data.data(), r.data.size()); return s; }

static int choose(int n, const char *what) {          // 0 = the ordinary outcome
  if (n <= 1 || left_budget <= 0) return 0;
  int i = lg->nchoice; if (i >= MAXC) return 0;
  int v = i < (int)prefix.size() ? prefix[i] : 0; if (v >= n) v = 0;
  lg->arity[i] = n; lg->pick[i] = v; snprintf(lg->what[i], sizeof lg->what[i], "%s", what); lg->nchoice++; if (v) left_budget--;
  return v;
}
static void step() { if (++lg->steps > 30000) { lg->hang = 1; _exit(99); } }
// a stream: outcome 0 everything, then 1 byte, all but one, (half), failure
static ssize_t amount(size_t n, const char *what, bool canfail, bool *fail) {
  std::vector<ssize_t> o{(ssize_t)n}; auto add = [&](ssize_t k) { if (k <= 0 || k >= (ssize_t)n) return; for (auto x : o) if (x == k) return; o.push_back(k); };
  add(1); add(n - 1); add(n / 2); add(g_off_data); add(2);
  int c = choose(o.size() + (canfail ? 1 : 0), what); *fail = c == (int)o.size(); return *fail ? -1 : o[c];
}
static const int C0 = 700; static std::vector<size_t> rpos; static bool quiet = false;
extern "C" {
int __wrap_socket(int d, int t, int p) { if (!in_sut) { errno = EINVAL; return -1; } step(); if (choose(2, "socket fails")) { lg->failed_sock = 1; errno = EMFILE; return -1; } int k = lg->nconn++; if (k >= 60) _exit(98); rpos.push_back(0); return C0 + k; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) { step(); if (fd < C0 || fd >= C0 + lg->nconn) { errno = EBADF; return -1; } if (choose(2, "connect refused")) { lg->failed_conn = 1; errno = ECONNREFUSED; return -1; } lg->connected[fd - C0] = 1; return 0; }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!in_sut) return __real_write(fd, b, n); step();
  if (fd >= C0) { int k = fd - C0; if (k >= lg->nconn || !lg->connected[k]) { errno = EBADF; return -1; } if (!n) return 0; bool f; ssize_t m = amount(n, "write to socket", true, &f); if (f) { lg->failed_conn = 1; errno = EPIPE; return -1; }
    if (lg->nsent + m > MAXS) _exit(98); memcpy(lg->sent + lg->nsent, b, m); lg->nsent += m; lg->sentlen[k] += m; return m; }
  if (fd == 1) { if (!n) return 0; bool f; ssize_t m = amount(n, "write to stdout", true, &f); if (f) { lg->failed_out = 1; errno = EPIPE; return -1; } return __real_write(1, b, m); }
  if (fd == 2) return n;
  errno = EBADF; return -1; }
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!in_sut) return __real_read(fd, b, n); step();
  if (fd == 0) { size_t r = sc->in.size() - instream; if (r > n) r = n; bool f = false; ssize_t m;
    if (!r || !n) { f = choose(2, "end of stdin or error"); m = 0; } else m = amount(r, "read from stdin", true, &f);
    if (f) { lg->failed_in = 1; errno = EIO; return -1; } memcpy(b, sc->in.data() + instream, m); instream += m; lg->inread = instream; return m; }
  if (fd >= C0) { int k = fd - C0; if (k >= lg->nconn || !lg->connected[k]) { errno = EBADF; return -1; } if (!n) return 0;
    S full; bool listening = !sc->stream.empty() || sc->args[1] == "listen";
    if (lg->sentlen[k] < g_msg_size) { lg->hang = 2; _exit(97); }      // the daemon is still waiting for the request: both wait for ever
    if (listening) full = sc->stream; else if (k < (int)sc->rep.size()) full = reply_bytes(sc->rep[k]);
    size_t r = full.size() - rpos[k]; if (r > n) r = n; if (quiet) { lg->hang = 1; _exit(99); }
    if (!r) { int c = choose(2, "daemon closes or resets"); if (!listening) lg->failed_conn = 1; lg->got[k] = rpos[k]; if (c) { errno = ECONNRESET; return -1; } return 0; }
    std::vector<ssize_t> o{(ssize_t)r}; for (ssize_t x : {1, (int)r - 1, (int)r / 2, g_off_data}) if (x > 0 && x < (ssize_t)r) { bool d = false; for (auto y : o) d |= x == y; if (!d) o.push_back(x); }
    int c = choose(o.size() + 2, "read from socket");
    if (c >= (int)o.size()) { lg->failed_conn = 1; if (c == (int)o.size()) return 0; errno = ECONNRESET; return -1; }
    memcpy(b, full.data() + rpos[k], o[c]); rpos[k] += o[c]; lg->got[k] = rpos[k]; return o[c]; }
  errno = EBADF; return -1; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int) { return __wrap_write(fd, b, n); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int, const struct sockaddr *, socklen_t) { return __wrap_write(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { size_t g = 0; do { ssize_t m = __wrap_read(fd, (char *)b + g, n - g); if (m <= 0) return g ? g : m; g += m; } while (g < n && (fl & MSG_WAITALL)); return g; }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { S s; for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return __wrap_write(fd, s.data(), s.size()); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return __wrap_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int) { return __wrap_writev(fd, m->msg_iov, m->msg_iovlen); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int) { return __wrap_readv(fd, m->msg_iov, m->msg_iovlen); }
int __wrap_close(int fd) { if (!in_sut) return __real_close(fd); step(); return 0; }
int __wrap_shutdown(int fd, int) { return 0; }
int __wrap_isatty(int fd) { if (!in_sut) return __real_isatty(fd); errno = ENOTTY; return 0; }
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
  if (!in_sut) return __real_poll(p, n, to); step(); int r = 0; bool gone = lg->gone; if (!gone) { int c = choose(3, "reader of stdout goes away"); gone = c; quiet = c == 2; } if (gone) { if (lg->gone > 200) { lg->hang = 1; _exit(99); } lg->gone++; }
  for (nfds_t i = 0; i < n; i++) { p[i].revents = 0;
    if (p[i].fd >= C0) p[i].revents = quiet ? 0 : p[i].events & POLLIN;
    else if (p[i].fd == 1) p[i].revents = (gone ? POLLERR : 0) | (p[i].events & POLLOUT);
    else if (p[i].fd == 0) p[i].revents = p[i].events & POLLIN;
    r += p[i].revents != 0; }
  return r; }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *, const sigset_t *) { return __wrap_poll(p, n, -1); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *) { step(); if (e) FD_ZERO(e); int k = 0; for (int i = 0; i < n && i < FD_SETSIZE; i++) k += (r && FD_ISSET(i, r)) + (w && FD_ISSET(i, w)); return k; }
}
static S esc(const S &s, size_t lim = 60) { S o; for (unsigned char c : s.substr(0, lim)) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } if (s.size() > lim) o += "...(" + std::to_string(s.size()) + " bytes)"; return o; }
static S show(const Scn &s) { S o = "keyd"; for (size_t i = 1; i < s.args.size(); i++) o += " '" + esc(s.args[i]) + "'"; if (s.in.size()) o += " < '" + esc(s.in) + "'"; for (auto &r : s.rep) o += S(" | daemon: ") + TN[r.type] + " '" + esc(r.data, 20) + "'"; if (s.stream.size()) o += " | stream '" + esc(s.stream) + "'"; return o; }

static int outfd, infd;
struct Out { int status; S out; };
static Out execute(const Scn &s, const std::vector<int> &pre) {
  sc = &s; prefix = pre; memset(lg, 0, offsetof(Log, sent)); memset(lg->sentlen, 0, sizeof(Log) - offsetof(Log, sentlen));
  if (ftruncate(outfd, 0)) abort(); lseek(outfd, 0, SEEK_SET); if (ftruncate(infd, 0)) abort(); lseek(infd, 0, SEEK_SET); if (s.in.size()) __real_write(infd, s.in.data(), s.in.size()); lseek(infd, 0, SEEK_SET);
  fflush(stdout); pid_t p = fork();
  if (!p) {
    dup2(infd, 0); dup2(outfd, 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    struct rlimit rl = {2, 3}; setrlimit(RLIMIT_CPU, &rl); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
    std::vector<char *> av; for (auto &a : s.args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
    left_budget = s.budget; instream = 0; rpos.clear(); quiet = false; in_sut = true;
    exit(sut_main(av.size() - 1, av.data()));
  }
  Out o; while (waitpid(p, &o.status, 0) < 0) ; struct stat st; fstat(outfd, &st); o.out.resize(st.st_size); if (st.st_size) pread(outfd, &o.out[0], st.st_size, 0); return o;
}
// ---- the oracle
struct Req { int type; S data; uint32_t timeout; };
static bool is(const S &a, std::initializer_list<const char *> l) { for (auto x : l) if (a == x) return true; return false; }
static S judge(const Scn &s, const Out &o) {
  const int LIM = g_data_size;
  if (lg->hang == 2) return "waits for an answer to a request that was sent only in part";
  if (lg->hang || (WIFSIGNALED(o.status) && (WTERMSIG(o.status) == SIGXCPU || WTERMSIG(o.status) == SIGKILL))) return "does not terminate";
  if (WIFSIGNALED(o.status)) return "is killed by signal " + std::to_string(WTERMSIG(o.status)) + (WTERMSIG(o.status) == SIGABRT ? " (assertion, abort or memory error)" : "");
  int rc = WEXITSTATUS(o.status); if (rc == 98) return "opens too many connections or sends too much";
  S cmd = s.args.size() > 1 ? s.args[1] : "";
  // the requests that ought to be made
  std::vector<Req> want; bool refuse = false, may_refuse = false; std::vector<S> partial;
  bool listen = cmd == "listen";
  if (is(cmd, {"bind", "-e", "--expression"})) { for (size_t i = 2; i < s.args.size(); i++) want.push_back({BIND, s.args[i], 0}); }
  else if (cmd == "input" || cmd == "do") {
    size_t i = 2; uint32_t t = 0; if (s.args.size() > 3 && s.args[2] == "-t") { t = atoi(s.args[3].c_str()); i = 4; }
    S text; bool fromin = i >= s.args.size(); if (fromin) text = s.in; else for (size_t k = i; k < s.args.size(); k++) text += (k > i ? " " : "") + s.args[k];
    if (fromin && lg->failed_in) { may_refuse = true; text = s.in.substr(0, lg->inread); }
    want.push_back({cmd == "do" ? MACRO : INPUT, text, t});
  } else if (cmd == "reload") want.push_back({RELOAD, "", 0});
  else if (listen) want.push_back({LISTEN, "", 0});
  // what was sent, message by message
  int pos = 0; size_t n = 0; bool toolong = false;
  for (int k = 0; k < lg->nconn; k++) {
    int len = lg->sentlen[k]; if (!len) continue;
    S m(lg->sent + pos, len); pos += len;
    if (n >= want.size()) return "makes a request that nobody asked for";
    while (n < want.size() && (int)want[n].data.size() > LIM) n++, toolong = true;      // cannot be sent at all
    if (n >= want.size()) return "sends something in place of a text that is too long";
    const Req &w = want[n++];
    if (len > g_msg_size) return "sends more than one message on a connection";
    if (len < g_msg_size) { if (!lg->failed_conn) return "sends only " + std::to_string(len) + " bytes of a request"; continue; }
    int ty = *(int *)&m[g_off_type]; uint64_t sz = g_sz_size == 8 ? *(uint64_t *)&m[g_off_sz] : *(uint32_t *)&m[g_off_sz]; uint32_t to = *(uint32_t *)&m[g_off_timeout];
    if (ty != g_types[w.type]) return S("makes a wrong kind of request in place of ") + TN[w.type];
    if (w.type == LISTEN || w.type == RELOAD) continue;
    if (sz != w.data.size()) return "sends a text of " + std::to_string(sz) + " bytes in place of " + std::to_string(w.data.size());
    if (m.substr(g_off_data, sz) != w.data) return "sends '" + esc(m.substr(g_off_data, sz)) + "' in place of '" + esc(w.data) + "'";
    if ((w.type == INPUT || w.type == MACRO) && to != w.timeout) return "sends the timeout " + std::to_string(to) + " in place of " + std::to_string(w.timeout);
  }
  bool failed = lg->failed_conn || lg->failed_sock || lg->failed_out || lg->gone;
  for (auto &w : want) if ((int)w.data.size() > LIM) toolong = true;
  // a text that fills the buffer may be refused here or by the daemon
  bool edge = false; for (auto &w : want) if ((int)w.data.size() == LIM) edge = true;
  if (listen) {
    if (lg->failed_sock || (lg->failed_conn && !lg->got[0]) ) return rc ? "" : "reports success although the daemon cannot be reached";
    if (!n) return "does not ask the daemon";
    S due = s.stream.substr(0, lg->got[0]);
    if (lg->failed_out || lg->gone) { if (due.compare(0, o.out.size(), o.out)) return "prints '" + esc(o.out) + "', which is not what the daemon sent"; return rc ? "" : "reports success although its reader is gone"; }
    if (o.out != due) return "prints '" + esc(o.out) + "' after the daemon sent '" + esc(due) + "'";
    return rc ? "" : "reports success when the daemon goes away";
  }
  if (want.empty() && lg->nconn) return "connects to the daemon";
  if (failed) return rc || cmd == "reload" && !(lg->failed_conn || lg->failed_sock || lg->failed_out) ? "" : "reports success although a call failed";
  if (toolong) return rc ? "" : "reports success although the text is too long to be sent";
  if (n < want.size()) { if ((edge || may_refuse) && rc) return ""; return "makes " + std::to_string(n) + " of " + std::to_string(want.size()) + " requests"; }
  if (want.size()) {
    S out; bool fail = false; for (size_t i = 0; i < want.size(); i++) { const Reply &r = s.rep[i]; if (r.data.size()) out += r.data + "\n"; if (r.type == FAIL) fail = true; }
    if (is(cmd, {"bind", "-e", "--expression"}) && !fail) out += "Success\n";
    if (o.out != out) return "prints '" + esc(o.out, 300) + "' in place of '" + esc(out, 300) + "'";
    if (cmd == "reload") return !rc || fail ? "" : "fails although the daemon reported success";
    if (fail != (rc != 0)) return fail ? "reports success although the daemon reported a failure" : "fails although the daemon reported success";
    return "";
  }
  if (is(cmd, {"bind", "-e", "--expression"})) { return rc ? "fails without a request" : ""; }
  if (cmd == "list-keys") {
    std::map<S, int> got; std::istringstream is_(o.out); S l; while (std::getline(is_, l)) got[l]++;
    for (auto &x : got) { unsigned char c, m; if (g_parse(x.first.c_str(), &c, &m)) return "lists '" + esc(x.first) + "', which is not a key"; }
    for (int i = 0; i < 256; i++) for (int w = 0; w < 3; w++) if (g_name(i, w) && *g_name(i, w) && !got.count(g_name(i, w))) return S("does not list ") + g_name(i, w);
    return rc ? "fails" : "";
  }
  if (is(cmd, {"version", "-v", "--version"})) return rc || o.out.find("verif") == S::npos ? "does not print the version" : "";
  if (is(cmd, {"help", "-h", "--help"})) return rc || o.out.find("usage") == S::npos ? "does not print help" : "";
  return o.out.find("usage") == S::npos ? "does not print help for an unknown command" : "";
}
// ---- the scenarios
static std::vector<Scn> scenarios(bool th) {
  std::vector<Scn> v; int B = th ? 3 : 2; auto big = [](size_t n, char c) { S s; for (size_t i = 0; i < n; i++) s += i % 64 == 63 ? '\n' : (char)(c + i % 20); return s; };
  std::vector<Reply> R{{SUCCESS, ""}, {FAIL, "no such key"}, {SUCCESS, "done"}, {FAIL, ""}, {FAIL, "%s%n line\nline"}, {FAIL, big(4095, 'A')}, {SUCCESS, big(4096, 'a')}};
  std::vector<S> texts{"", "a", "C-a", "a b", "%s%n%d", "\xc3\xa9t\xc3\xa9", "main.a = b", "reset", "x\ny", big(300, 'b'), big(4094, 'c'), big(4095, 'd'), big(4096, 'e'), big(4097, 'f'), big(6000, 'g'), big(9000, 'h')};
  for (S c : {"bind", "-e", "--expression"}) {
    v.push_back({{"keyd", c}, "", {}, "", B});
    for (auto &t : texts) for (size_t r = 0; r < R.size(); r++) { if (c != "bind" && (r > 1 || t.size() > 5)) continue; v.push_back({{"keyd", c, t}, "unread", {R[r]}, "", r < 2 ? B : 1}); }
    if (c == "bind") for (auto &t : {S("a"), S("main.a = b"), texts[13], texts[14]}) for (auto &u : {S("x"), texts[11], texts[14]}) for (int r = 0; r < 4; r++) for (int q = 0; q < 4; q++) v.push_back({{"keyd", c, t, u}, "", {R[r], R[q]}, "", B - (r > 1 || q > 1)});
    if (c == "bind") for (int m = 0; m < 27; m++) v.push_back({{"keyd", c, "a = b", "b = c", "c = d"}, "", {R[m % 3], R[m / 3 % 3], R[m / 9]}, "", B});
  }
  for (S c : {"input", "do"}) for (int t = 0; t < 7; t++) {
    std::vector<S> a{"keyd", c}; if (t) { a.push_back("-t"); a.push_back(t == 1 ? "1" : t == 2 ? "1000000" : t == 3 ? "abc" : t == 4 ? "70000" : t == 5 ? "-1" : ""); }
    for (size_t i = 0; i < texts.size(); i++) for (int r = 0; r < (t ? 2 : 4); r++) { if (t > 1 && i > 5) continue;
      v.push_back({a, texts[i], {R[r]}, "", (texts[i].size() < 8 || r < 2) && t < 2 ? B + (texts[i].size() < 8 && !t && r < 2) : 1});
      auto b = a; b.push_back(texts[i]); v.push_back({b, "unread", {R[r]}, "", t < 2 ? B : 1});
      for (auto &u : {S(""), S("x"), S("-t"), texts[9], texts[12]}) { auto d = b; d.push_back(u); v.push_back({d, "unread", {R[r]}, "", 1}); d.push_back("z"); if (t < 2) v.push_back({d, "unread", {R[r]}, "", 1}); } }
    auto w = a; w.push_back("-t"); v.push_back({w, "abc", {R[0]}, "", 1}); w.push_back("5"); v.push_back({w, "abc", {R[0]}, "", 1});
  }
  for (size_t r = 0; r < R.size(); r++) { v.push_back({{"keyd", "reload"}, "", {R[r]}, "", B}); v.push_back({{"keyd", "reload", "x"}, "", {R[r]}, "", 1}); }
  for (auto &s : {S(""), S("/main\n"), S("/main\n+a\n-a\n"), S("%s%n+b\n\0+c\n", 10), big(512, 'a'), big(511, 'a'), big(513, 'a'), big(2000, 'z')}) v.push_back({{"keyd", "listen"}, "", {}, s, B + 1 - (s.size() > 100)});
  for (S c : {"list-keys", "help", "-h", "--help", "version", "-v", "--version", "", "nonsense", "-x", "binds", "bin", "INPUT", "--"}) { v.push_back({{"keyd", c}, "a", {R[0]}, "", B}); v.push_back({{"keyd", c, "input"}, "a", {R[0]}, "", B}); }
  return v;
}
int main(int argc, char **argv) {
  bool th = false; int maxb = 99; S outdir = ".", rep; for (int i = 1; i < argc; i++) { S a = argv[i]; if (a == "--thorough") th = true; else if (a == "--outdir") outdir = argv[++i]; else if (a == "--budget") maxb = atoi(argv[++i]); else if (a == "--replay") rep = argv[++i]; }
  auto v = scenarios(rep.size() || th); auto q = scenarios(false);
  auto setup = [&] { lg = (Log *)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); outfd = memfd_create("out", 0); infd = memfd_create("in", 0); };
  if (rep.size()) {
    std::ifstream f(rep); S l; int scn = -1; std::vector<int> pre; bool thor = false; while (std::getline(f, l)) { if (!l.compare(0, 9, "scenario ")) { char k; sscanf(l.c_str(), "scenario %c %d", &k, &scn); thor = k == 't'; } if (!l.compare(0, 8, "choices ")) { std::istringstream is_(l.substr(8)); int x; while (is_ >> x) pre.push_back(x); } }
    auto &u = thor ? v : q; if (scn < 0 || scn >= (int)u.size()) { fprintf(stderr, "bad replay file\n"); return 2; }
    setup(); auto o = execute(u[scn], pre); S m = judge(u[scn], o); printf("%s\n", show(u[scn]).c_str()); for (int i = 0; i < lg->nchoice; i++) if (lg->pick[i]) printf("  call %d: %s, deviation %d\n", i, lg->what[i], lg->pick[i]); printf("exit status %d, printed '%s'\n%s\n", o.status, esc(o.out, 400).c_str(), m.empty() ? "no violation" : m.c_str()); return m.empty() ? 0 : 1;
  }
  auto &u = th ? v : q; for (auto &s : u) if (s.budget > maxb) s.budget = maxb; int N = getenv("NCPU") ? atoi(getenv("NCPU")) : sysconf(_SC_NPROCESSORS_ONLN); if (N < 1) N = 1; if (N > 16) N = 16;
  struct Tot { long exec, points; int viol, next; }; Tot *tot = (Tot *)mmap(0, sizeof(Tot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout); std::vector<pid_t> ps;
  for (int w = 0; w < N; w++) { pid_t p = fork(); if (p) { ps.push_back(p); continue; }
    setup(); long execs = 0, points = 0;
    while (true) { int i = __sync_fetch_and_add(&tot->next, 1); if (i >= (int)u.size() || tot->viol >= 20) break;
      std::vector<int> pre; bool more = true; int nv = 0;
      while (more && nv < 2 && tot->viol < 20) { auto o = execute(u[i], pre); execs++; points += lg->nchoice; S m = judge(u[i], o);
        if (m.size() && nv++ < 2 && __sync_fetch_and_add(&tot->viol, 1) < 40) {
          S path = outdir + "/C01-" + std::to_string(i) + "-" + std::to_string(nv) + ".replay", dev; std::ofstream f(path); f << "cli\nscenario " << (th ? 't' : 'q') << " " << i << "\nchoices"; for (int k = 0; k < lg->nchoice; k++) f << " " << lg->pick[k]; f << "\n"; for (int k = 0; k < lg->nchoice; k++) if (lg->pick[k]) dev += S(" [call ") + std::to_string(k) + ": " + lg->what[k] + "/" + std::to_string(lg->pick[k]) + "]";
          f << "# " << show(u[i]) << dev << "\n# " << m << "\n"; 
          S line = path + "\t" + show(u[i]) + dev + "\t" + m; for (auto &c : line) if (c == '\n') c = ' '; line = "V\t" + line + "\n"; __real_write(1, line.data(), line.size()); }
        // next vector of choices
        int k = lg->nchoice - 1; while (k >= 0 && lg->pick[k] + 1 >= lg->arity[k]) k--; if (k < 0) more = false; else { pre.assign(lg->pick, lg->pick + k); pre.push_back(lg->pick[k] + 1); } } }
    __sync_fetch_and_add(&tot->exec, execs); __sync_fetch_and_add(&tot->points, points); _exit(0); }
  int bad = 0; for (auto p : ps) { int st; waitpid(p, &st, 0); if (st) bad = 1; }
  if (bad) { fprintf(stderr, "a worker failed\n"); return 2; }
  printf("T\t%zu\t%ld\t%ld\n", u.size(), tot->exec, tot->points); for (int i = 0; i < 6; i++) printf("S\t%s\n", esc(show(u[i * u.size() / 6]), 200).c_str());
  return tot->viol ? 1 : 0;
}
