// Explorations other than the main loop's: faults while the virtual devices are set up.
#pragma once
extern "C" { int gd_scan(void *); size_t gd_dev_size(); void gd_dev(const void *, int, char *, size_t); }
static int gd_scan_(void *p) { return gd_scan(p); }
// every single system call of the set-up of the virtual devices fails once: keyd must end with an error rather than take over
// keyboards whose keys it could not emit
static int setup_faults(Scn &sc, int only) {
  long runs = 0, faulted = 0, quit = 0; std::vector<std::string> vs; std::string sample;
  for (int n = only < 0 ? 0 : only; n < 5000; n++) {
    int pp[2]; if (pipe(pp)) exit(3); pid_t pid = ::fork();
    if (!pid) {
      close(pp[0]); fail_call = n; Viol v; S = &sc; bool ok = start(v); std::string m; bool crash = !ok && v.kind == "crash";
      bool kbd = false; for (auto &u : k.uin) kbd |= u.created && !u.dead && role(&u - &k.uin[0]) == 0; bool grabbed = false; for (auto &d : k.devs) grabbed |= d.grabs; bool ended = why == W_EXIT && k.exited;
      if (fail_what.empty()) m = "N";                  // no call was left to fail
      else if (crash) m = "V" + fail_what + ": " + v.detail;
      else if (ended) m = k.exit_code ? "Q" + fail_what : "V" + fail_what + " fails: the daemon ends, but reports success";
      else { bool full = kbd; if (kbd) for (size_t u = 0; u < k.uin.size(); u++) if (role(u) == 0) for (int c = 1; c < 256; c++) { auto &nm = ref::keys().k[c].name; if (nm.size() && !ref::codemap().out.count(nm) && !(c >= 195 && c <= 199) && !(k.uin[u].key[c >> 6] >> (c & 63) & 1)) full = false; }
        m = !full && grabbed ? "V" + fail_what + " fails: keyboards are grabbed although their keys cannot be emitted" : "F" + fail_what; }
      if (write(pp[1], m.data(), m.size())) {} _exit(0);
    }
    close(pp[1]); std::string m; char b[4096]; ssize_t r; while ((r = read(pp[0], b, sizeof b)) > 0) m.append(b, r); close(pp[0]); int ws; waitpid(pid, &ws, 0); if (m.empty()) { fprintf(stderr, "set-up run %d failed (%x)\n", n, ws); return 3; }
    if (m[0] == 'N') break; runs++; faulted += m[0] == 'F'; quit += m[0] == 'Q'; if (m[0] == 'V') vs.push_back("call " + std::to_string(n) + ": " + m.substr(1)); if (sample.empty()) sample = "call " + std::to_string(n) + " (" + m.substr(1) + ") fails: the daemon ends with an error";
    if (only >= 0) break;
  }
  printf("{\"scenario\":\"%s\",\"states\":%ld,\"transitions\":%ld,\"depth\":1,\"bound\":1,\"outcomes\":%d,\"rest\":%ld,\"leaves\":%ld,\"capped\":false,\"canon\":true,\"wall\":0,\"samples\":[\"%s\"],\"violations\":[", jesc(sc.id).c_str(), runs + 1, runs, 2 + (vs.size() > 0), quit, runs, jesc(sample).c_str());
  extern std::string g_outdir; std::string rf; if (vs.size() && g_outdir.size()) { rf = g_outdir + "/" + prop + "-" + sc.id + ".replay"; FILE *f = fopen(rf.c_str(), "w"); if (f) { for (auto &x : vs) fprintf(f, "# %s\n", x.c_str()); fprintf(f, "daemon\nprop %s\nmode setup\nact %d 0 0\n---\n%s", prop.c_str(), atoi(vs[0].c_str() + 5), sc.text.c_str()); fclose(f); } }
  for (size_t i = 0; i < vs.size() && i < 4; i++) printf("%s{\"kind\":\"setup\",\"detail\":\"%s\",\"trace\":\"\",\"replay\":\"%s\"}", i ? "," : "", jesc(vs[i]).c_str(), jesc(rf).c_str());
  printf("]}\n"); return vs.size() ? 1 : 0;
}
std::string g_outdir;
// ---------------------------------------------------------------- the start-up scan: every schedule of its threads
// Threads are coroutines; a switch is possible before every call that leaves the program.  Accesses to memory are
// recorded (the build for this mode is instrumented), two that conflict and are not ordered by creating, joining or
// a lock are a race.  If there is none, these schedules are all there are.
struct Th { void *(*fn)(void *); void *arg, *ret, *sp; bool live, started, done, detached; int join; void *mutex; };
struct TS { Th th[72]; int n, cur; void *locks[8]; int owner[8]; ODir od[8]; int odn; };
static TS ts; static bool scanning = false; static const uintptr_t TSTK = 0x200010000000ull, TSTKSZ = 0x40000;
struct Access { uint64_t live; bool write; int lock; uintptr_t pc; };
static std::map<uintptr_t, std::map<int, std::vector<Access>>> accs; static std::set<std::string> races; static bool in_hook = false;
static uint64_t live_mask() { uint64_t m = 0; for (int i = 0; i < ts.n && i < 64; i++) if (ts.th[i].live) m |= 1ull << i; return m; }   // created and not joined yet
static int lock_held() { for (int i = 0; i < 8; i++) if (ts.locks[i] && ts.owner[i] == ts.cur) return i + 1; return 0; }
static bool own_stack(uintptr_t a) { return ts.cur && a >= TSTK + ts.cur * 2 * TSTKSZ && a < TSTK + (ts.cur * 2 + 1) * TSTKSZ; }
static void access(uintptr_t a, size_t n, bool w) {
  if (!scanning || in_hook || ts.n < 2 || own_stack(a)) return;
  bool shared = (a >= (uintptr_t)stk_lo && a < (uintptr_t)stk_hi) || (a >= (uintptr_t)__start_sut_data && a < (uintptr_t)__stop_sut_data) || (a >= (uintptr_t)__start_sut_bss && a < (uintptr_t)__stop_sut_bss) || (a >= snap::ARENA_BASE && a < snap::ARENA_BASE + snap::ARENA_SZ) || (a >= TSTK && a < TSTK + 144 * TSTKSZ);
  if (!shared || n > 65536) return; in_hook = true; uint64_t lm = live_mask() & ~(1ull << ts.cur); int lk = lock_held();
  if (lm) for (uintptr_t x = a; x < a + n; x++) {
    auto &m = accs[x]; auto &mine = m[ts.cur]; bool known = false; for (auto &y : mine) if (y.live == lm && y.write == w && y.lock == lk) known = true; if (known) continue;
    mine.push_back({lm, w, lk, 0});
    for (auto &o : m) if (o.first != ts.cur && (lm >> o.first & 1)) for (auto &y : o.second) if ((y.live >> ts.cur & 1) && (y.write || w) && !(y.lock && y.lock == lk)) {
      char b[200]; const char *where = x >= (uintptr_t)__start_sut_data && x < (uintptr_t)__stop_sut_data || x >= (uintptr_t)__start_sut_bss && x < (uintptr_t)__stop_sut_bss ? "a static variable" : x >= snap::ARENA_BASE && x < snap::ARENA_BASE + snap::ARENA_SZ ? "allocated memory" : "a variable on the stack";
      snprintf(b, sizeof b, "%s and %s use %s at the same time without synchronisation, and at least one writes", o.first ? "two scanner threads" : "the main thread", o.first ? "they" : "a scanner thread", where);
      races.insert(o.first && ts.cur ? std::string("two scanner threads use ") + where + " at the same time without synchronisation, at least one of them writing" : std::string("the main thread and a scanner thread use ") + where + " at the same time without synchronisation, at least one of them writing"); }
  }
  in_hook = false;
}
extern "C" {
#define TS_(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
TS_(1) TS_(2) TS_(4) TS_(8) TS_(16)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_read_range(void *p, long n) { access((uintptr_t)p, n, false); } void __tsan_write_range(void *p, long n) { access((uintptr_t)p, n, true); } void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
// atomics are taken to be synchronised
#define TA_(n, T) T __tsan_atomic##n##_load(const T *p, int) { return *p; } void __tsan_atomic##n##_store(T *p, T v, int) { *p = v; } T __tsan_atomic##n##_exchange(T *p, T v, int) { T o = *p; *p = v; return o; } T __tsan_atomic##n##_fetch_add(T *p, T v, int) { T o = *p; *p += v; return o; } T __tsan_atomic##n##_fetch_sub(T *p, T v, int) { T o = *p; *p -= v; return o; } T __tsan_atomic##n##_fetch_or(T *p, T v, int) { T o = *p; *p |= v; return o; } T __tsan_atomic##n##_fetch_and(T *p, T v, int) { T o = *p; *p &= v; return o; } int __tsan_atomic##n##_compare_exchange_strong(T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##n##_compare_exchange_weak(T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
TA_(8, uint8_t) TA_(16, uint16_t) TA_(32, uint32_t) TA_(64, uint64_t)
void *tsx_memset(void *p, int c, size_t n) { access((uintptr_t)p, n, true); return memset(p, c, n); } void *tsx_memcpy(void *p, const void *q, size_t n) { access((uintptr_t)q, n, false); access((uintptr_t)p, n, true); return memcpy(p, q, n); } void *tsx_memmove(void *p, const void *q, size_t n) { access((uintptr_t)q, n, false); access((uintptr_t)p, n, true); return memmove(p, q, n); }
char *tsx_strcpy(char *p, const char *q) { size_t n = strlen(q) + 1; access((uintptr_t)q, n, false); access((uintptr_t)p, n, true); return strcpy(p, q); } char *tsx_strncpy(char *p, const char *q, size_t n) { access((uintptr_t)q, strnlen(q, n), false); access((uintptr_t)p, n, true); return strncpy(p, q, n); }
int tsx_snprintf(char *p, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(p, n, f, a); va_end(a); access((uintptr_t)p, std::min<size_t>(n, r + 1), true); return r; }
int tsx_vsnprintf(char *p, size_t n, const char *f, va_list a) { int r = vsnprintf(p, n, f, a); access((uintptr_t)p, std::min<size_t>(n, r + 1), true); return r; }
size_t tsx_strlen(const char *p) { size_t n = strlen(p); access((uintptr_t)p, n + 1, false); return n; }
int env_pthread_mutex_lock(void *m) { if (!scanning) return 0; for (;;) { int f = -1; bool held = false; for (int i = 0; i < 8; i++) { if (ts.locks[i] == m) held = true; else if (!ts.locks[i] && f < 0) f = i; } if (!held) { ts.locks[f] = m; ts.owner[f] = ts.cur; ts.th[ts.cur].mutex = nullptr; return 0; } ts.th[ts.cur].mutex = m; yield(W_STEP); } }
int env_pthread_mutex_unlock(void *m) { for (int i = 0; i < 8; i++) if (ts.locks[i] == m) ts.locks[i] = nullptr; return 0; }
}
static void th_main() { Th &t = ts.th[ts.cur]; void *r = t.fn(t.arg); ts.th[ts.cur].ret = r; ts.th[ts.cur].done = true; for (;;) yield(W_STEP); }
static void th_create(void *(*fn)(void *), void *arg, unsigned long *id) {
  if (ts.n >= 72) snap::sut_die("too many threads"); int i = ts.n++; Th &t = ts.th[i]; t = Th(); t.fn = fn; t.arg = arg; t.live = true; t.join = -1; *id = i + 100;
  char *hi = (char *)TSTK + (i * 2 + 1) * TSTKSZ; uint64_t *sp = (uint64_t *)(hi - 64); sp[6] = (uint64_t)th_main; sp[7] = 0; if (((uintptr_t)(sp + 7)) % 16 != 8) { sp--; sp[6] = (uint64_t)th_main; sp[7] = 0; } t.sp = sp;
  yield(W_STEP);
}
static void *th_join(unsigned long id) { int t = (int)id - 100; if (t < 1 || t >= ts.n || !ts.th[t].live) { bad("pthread_join() of a thread that does not exist or was joined already"); return nullptr; } while (!ts.th[t].done) { ts.th[ts.cur].join = t; yield(W_STEP); } ts.th[ts.cur].join = -1; ts.th[t].live = false; return ts.th[t].ret; }
// only calls that can interact are scheduling points: a device's ioctl()s and the reading of the directory touch what no other
// thread does (that nothing else is shared is what the race detector shows); "depth 1" makes every call one
static bool every_call = false;
static void th_step(const char *w) { if (!every_call && (!strcmp(w, "ioctl") || !strcmp(w, "readdir") || strstr(w, "printf"))) return; int e = errno; yield(W_STEP); errno = e; }
static char *scan_out; static int scan_ret;
static void scan_co() { scan_ret = gd_scan_(scan_out); ts.th[0].done = true; for (;;) yield(W_STEP); }
static char *stk_of(int t, bool hi) { return t ? (char *)TSTK + (t * 2 + hi) * TSTKSZ : hi ? stk_hi : stk_lo; }
struct SNode { std::vector<snap::Word> mem; K kk; TS t; std::vector<std::string> stk; int parent, pre; int8_t who; };
static void s_save(SNode &n) { ts.odn = odirn; memcpy(ts.od, odirs, sizeof odirs); heap_open(); snap::save(n.mem); heap_sync(); n.kk = k; n.t = ts; n.stk.resize(ts.n); for (int i = 0; i < ts.n; i++) if (ts.th[i].live && !(i && ts.th[i].done)) n.stk[i].assign((char *)ts.th[i].sp, stk_of(i, true)); }
static void s_load(const SNode &n) { heap_open(); snap::restore(n.mem.data(), n.mem.size()); heap_sync(); k = n.kk; ts = n.t; odirn = ts.odn; memcpy(odirs, ts.od, sizeof odirs); for (int i = 0; i < ts.n; i++) if (n.stk[i].size()) memcpy(ts.th[i].sp, n.stk[i].data(), n.stk[i].size()); }
static bool s_runnable(int t) { Th &x = ts.th[t]; if (!x.live || x.done) return false; if (x.join >= 0 && !ts.th[x.join].done) return false; if (x.mutex) for (int i = 0; i < 8; i++) if (ts.locks[i] == x.mutex) return false; return true; }
static bool s_run(int t, Viol &v) {
  static sigjmp_buf jb; heartbeat++; ts.cur = t;
  if (sigsetjmp(jb, 0)) { in_sut = false; trap = nullptr; in_hook = false; v = {"crash", crash_msg}; return false; }
  trap = &jb; in_sut = true; co_sp = ts.th[t].sp; co_switch(&main_sp, co_sp); ts.th[t].sp = co_sp; in_sut = false; trap = nullptr; return true;
}
static H s_hash() {
  h128[0] = 5; h128[1] = 6; SNode n; s_save(n); hash_bytes(n.mem.data(), n.mem.size() * sizeof(Word));
  std::vector<Word> w = n.mem; for (int i = 0; i < ts.n; i++) { hash_bytes(n.stk[i].data(), n.stk[i].size()); auto &x = ts.th[i]; long q[] = {x.live, x.done, x.join, (long)x.mutex, (long)x.ret, (long)x.sp}; hash_bytes(q, sizeof q); }
  hash_bytes(ts.locks, sizeof ts.locks); hash_bytes(ts.owner, sizeof ts.owner); hash_bytes(ts.od, sizeof ts.od);
  for (auto &f : k.fds) { long q[] = {f.kind, f.idx, f.off}; hash_bytes(q, sizeof q); } for (auto &d : k.devs) { long q[] = {d.opens, d.grabs}; hash_bytes(q, sizeof q); }
  return {h128[0], h128[1]};
}
static std::string scan_check(const Scn &sc) {         // what the finished scan must have found
  if (k.bad.size()) return k.bad;
  std::multiset<std::string> want, got; std::string r;
  for (auto &s : specs) { bool ok = s.present && !s.nodir && !s.node.compare(0, 5, "event") && !s.f_open && !s.f_name && !s.f_key && !s.f_rel && !s.f_abs && s.caps() && !s.f_id && !((s.caps() & 2) && s.f_absinfo); if (ok) { char b[512]; snprintf(b, sizeof b, "/dev/input/%s %s \"%s\" caps %d%s", s.node.c_str(), s.id().c_str(), s.name.substr(0, 63).c_str(), s.caps(), s.vendor == 0x0fac ? " virtual" : ""); want.insert(b); } }
  std::map<int, int> per;
  for (int i = 0; i < scan_ret; i++) { char b[2048]; gd_dev(scan_out, i, b, sizeof b); std::string x = b; size_t p = x.rfind(" fd "); int fd = atoi(x.c_str() + p + 4); got.insert(x.substr(0, p));
    if (fd < 3 || fd >= 80 || k.fds[fd].kind != FK_DEV || "/dev/input/" + specs[k.fds[fd].idx].node != x.substr(0, x.find(' '))) return "the descriptor of " + x + " does not refer to it"; per[k.fds[fd].idx]++; }
  int nodes = 0; for (auto &d : specs) nodes += d.present && !d.nodir && !d.node.compare(0, 5, "event");
  if (nodes > 64) {                                    // beyond the table's size some are left out
    if (scan_ret > 64) return "more than 64 devices are reported"; if (scan_ret < 64 - (nodes - (int)want.size())) return "eligible devices are left out although there is room";
    for (auto &x : got) if (got.count(x) > 1) return "a device is found more than once: " + x;
  } else
  for (auto &x : want) if (got.count(x) != want.count(x)) return "a device is " + std::string(got.count(x) ? "found more than once: " : "not found, or with wrong particulars: ") + x + (got.size() && !got.count(x) ? " ; found: " + *got.begin() + (got.size() > 1 ? " ; " + *got.rbegin() : "") : "");
  for (auto &x : got) if (!want.count(x)) return "found, but does not exist or is not eligible: " + x;
  for (size_t i = 0; i < specs.size(); i++) if (k.devs[i].opens != per[i]) return "device " + specs[i].node + " is left open " + std::to_string(k.devs[i].opens) + " times, but is used " + std::to_string(per[i]) + " times";
  for (int i = 3; i < 80; i++) if (k.fds[i].kind != FK_FREE && k.fds[i].kind != FK_DEV) return "a file is left open"; (void)sc;
  return "";
}
static int scan_all(Scn &sc, const std::vector<Act> &rp) {
  specs.clear(); for (auto &d : sc.devs) specs.push_back(d); filesets.assign(1, Files()); k = K(); k.devs.resize(specs.size()); for (size_t i = 0; i < specs.size(); i++) k.devs[i].present = specs[i].present; for (int i = 0; i < 3; i++) k.fds[i].kind = FK_NULL;
  mmap((void *)TSTK, 144 * TSTKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  co_start(); memset(stk_hi - 300000, 0, 300000); uint64_t *sp = (uint64_t *)(stk_hi - 64); sp[6] = (uint64_t)scan_co; sp[7] = 0; if (((uintptr_t)(sp + 7)) % 16 != 8) { sp--; sp[6] = (uint64_t)scan_co; sp[7] = 0; }
  ts = TS(); ts.n = 1; ts.th[0].live = true; ts.th[0].join = -1; ts.th[0].sp = sp; scan_out = (char *)halloc(gd_dev_size() * 80); every_call = sc.depth == 1; thr_create = th_create; thr_join = th_join; sched_point = th_step;
  for (auto &x : none) mprotect((void *)x.first, x.second, PROT_READ | PROT_WRITE); none.clear(); deny = denied; kernel_writes = [](uintptr_t a, size_t n) { access(a, n, true); }; baseline(8u << 20); heap_sync(); scanning = true;
  std::deque<SNode> ns; std::unordered_set<H, HH> seen; long trans = 0, ends = 0, maxd = 0; bool capped = false; std::vector<std::pair<std::string, std::vector<int>>> vs; std::set<std::string> outcomes; std::string sample;
  auto path = [&](int n) { std::vector<int> p; while (n > 0) { p.push_back(ns[n].who); n = ns[n].parent; } std::reverse(p.begin(), p.end()); return p; };
  if (!rp.empty()) {                                   // replay a schedule
    Viol v; std::string m; int st = 0; for (auto &a : rp) { if (!s_runnable(a.idx)) { m = "the schedule does not apply"; break; } printf("step %d: %s\n", st++, a.idx ? ("scanner thread " + std::to_string(a.idx)).c_str() : "main thread"); if (!s_run(a.idx, v)) { m = v.kind + ": " + v.detail; break; } if (k.exited) { m = "the daemon ends during the scan"; break; } if (ts.th[0].done) { m = scan_check(sc); break; } }
    while (m.empty() && races.empty() && !ts.th[0].done && !k.exited) { int t = 0; while (t < ts.n && !s_runnable(t)) t++; if (t == ts.n) { m = "the scan does not end: every thread waits"; break; } if (!s_run(t, v)) m = v.kind + ": " + v.detail; else if (ts.th[0].done) m = scan_check(sc); }
    if (m.empty() && races.size()) m = *races.begin(); printf("%s\n", m.empty() ? "no violation" : m.c_str()); return !m.empty();
  }
  ns.emplace_back(); s_save(ns[0]); ns[0].parent = -1; ns[0].pre = 0; ns[0].who = 0; seen.insert(s_hash()); std::set<std::string> vsig; int pb = sc.eintr ? sc.eintr - 1 : 1000;
  for (int i = 0; i < (int)ns.size() && vs.size() < 3; i++) {
    if ((int)ns.size() >= sc.cap) { capped = true; break; } s_load(ns[i]); bool any = false; std::vector<int> run; for (int t = 0; t < ts.n; t++) if (s_runnable(t)) run.push_back(t); bool prev_ok = false; for (int t : run) prev_ok |= t == ns[i].who;
    for (int t : run) {
      int pre = ns[i].pre + (t != (prev_ok ? ns[i].who : run[0]));   // every departure from the default order counts
       if (pre > pb) continue; any = true;
      s_load(ns[i]); Viol v; trans++; std::string m; size_t nr = races.size();
      if (!s_run(t, v)) m = v.kind + ": " + v.detail; else if (k.exited) m = "the daemon ends during the scan"; else if (k.bad.size()) m = k.bad; else if (races.size() > nr) m = *races.rbegin(); else if (ts.th[0].done) { ends++; m = scan_check(sc); outcomes.insert(std::to_string(scan_ret) + m); if (ends == 1 || path(i).size() > (size_t)maxd) { auto p = path(i); p.push_back(t); maxd = p.size(); sample.clear(); for (int x : p) sample += std::to_string(x) + " "; } }
      if (m.size()) { if (vsig.insert(m.substr(0, 50)).second) { auto p = path(i); p.push_back(t); vs.push_back({m, p}); } continue; }
      if (ts.th[0].done) continue;
      H h = s_hash(); if (!seen.insert(h).second) continue; ns.emplace_back(); SNode &n = ns.back(); s_save(n); n.parent = i; n.pre = pre; n.who = t;
    }
    if (!any && run.empty()) { vs.push_back({"the scan does not end: every thread waits", path(i)}); }
    if (i) { ns[i].mem.clear(); ns[i].mem.shrink_to_fit(); ns[i].stk.clear(); ns[i].stk.shrink_to_fit(); ns[i].kk = K(); }
  }
  printf("{\"scenario\":\"%s\",\"states\":%zu,\"transitions\":%ld,\"depth\":%ld,\"bound\":%ld,\"outcomes\":%zu,\"rest\":%ld,\"leaves\":%ld,\"capped\":%s,\"canon\":true,\"wall\":0,\"samples\":[\"schedule (0 main, 1.. scanner threads): %s\"],\"violations\":[", jesc(sc.id).c_str(), ns.size(), trans, maxd, maxd, outcomes.size(), ends, ends, capped ? "true" : "false", sample.c_str());
  int vi = 0; for (auto &x : vs) { std::string rf, tr; for (int t : x.second) tr += std::to_string(t) + " "; if (g_outdir.size()) { rf = g_outdir + "/" + prop + "-" + sc.id + "-" + std::to_string(vi) + ".replay"; FILE *f = fopen(rf.c_str(), "w"); if (f) { fprintf(f, "# %s\ndaemon\nprop %s\nmode scan\n", jesc(x.first).c_str(), prop.c_str()); for (int t : x.second) fprintf(f, "act %d 0 0\n", t); fprintf(f, "---\n%s", sc.text.c_str()); fclose(f); } }
    printf("%s{\"kind\":\"scan\",\"detail\":\"%s\",\"trace\":\"schedule %s\",\"replay\":\"%s\"}", vi++ ? "," : "", jesc(x.first).c_str(), tr.c_str(), jesc(rf).c_str()); }
  printf("]}\n"); return vs.size() ? 1 : 0;
}
#include "procs.h"
static int special(const std::string &mode, Scn &sc, const std::vector<Act> &rp, const std::string &outdir) {
  g_outdir = outdir;
  if (mode == "setup") return setup_faults(sc, rp.empty() ? -1 : rp[0].idx);
  if (mode == "procs") return procs_all(sc, rp);
  if (mode == "scan") return scan_all(sc, rp);
  fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 3;
}
