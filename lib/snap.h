// Whole-state snapshots of the program under test (SUT).
//
// The SUT's mutable memory is: its .data and .bss (sections sut_data/sut_bss), the heap arena that
// env_malloc/env_calloc hand out, and (daemon harness) the stack it runs on, which is carved from the
// same arena.  After snap_baseline() all of it is write-protected; the first write to a page marks the
// page "hot" and unprotects it.  A snapshot is the sparse list of 8-byte words of hot pages which differ
// from the baseline, so saving and restoring costs a few microseconds.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <ucontext.h>

extern "C" { extern char __start_sut_data[], __stop_sut_data[], __start_sut_bss[], __stop_sut_bss[]; }

namespace snap {
static const uintptr_t ARENA_BASE = 0x100000000000ull;
static size_t ARENA_SZ = 96u << 20;
struct Hdr { size_t used; };                         // at ARENA_BASE: allocator state (snapshotted as well)
struct Region { char *lo; size_t sz; char *base; size_t first; };   // base: baseline copy; first: index of first page
static std::vector<Region> regions;
static std::vector<uint8_t> hotflag;                 // per page
static std::vector<uint32_t> hot;                    // page numbers
static std::vector<char*> hotaddr, hotbase;
static bool armed = false;
static bool (*deny)(uintptr_t) = nullptr;            // addresses the SUT must not touch

struct Word { uint32_t idx; uint64_t val; } __attribute__((packed));
typedef std::vector<Word> Snap;

inline Hdr *hdr() { return (Hdr *)ARENA_BASE; }
inline void init() {
  void *p = mmap((void *)ARENA_BASE, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (p != (void *)ARENA_BASE) { perror("mmap arena"); exit(3); }
  hdr()->used = 4096;
}
inline void *alloc(size_t n, bool page = false) {
  Hdr *h = hdr();
  size_t al = page ? 4096 : 16;
  size_t o = (h->used + al - 1) / al * al;
  o += 16;                                           // size header
  if (page) o = (o + 4095) / 4096 * 4096;
  if (o + n + 64 > ARENA_SZ) { fprintf(stderr, "arena exhausted\n"); exit(3); }
  *(size_t *)((char *)ARENA_BASE + o - 16) = n;
  h->used = o + n;
  return (char *)ARENA_BASE + o;
}
inline bool in_arena(const void *p) { return (uintptr_t)p >= ARENA_BASE && (uintptr_t)p < ARENA_BASE + ARENA_SZ; }
inline size_t alloc_size(void *p) { return *(size_t *)((char *)p - 16); }

inline Region *find(uintptr_t a) {
  for (auto &r : regions) if (a >= (uintptr_t)r.lo && a < (uintptr_t)r.lo + r.sz) return &r;
  return nullptr;
}
inline bool fault(uintptr_t a) {                     // called from the SIGSEGV handler; true if it was a first write
  if (!armed || (deny && deny(a))) return false;
  Region *r = find(a);
  if (!r) return false;
  size_t pg = (a - (uintptr_t)r->lo) / 4096, gp = r->first + pg;
  if (hotflag[gp]) return false;
  hotflag[gp] = 1; hot.push_back(gp);
  hotaddr.push_back(r->lo + pg * 4096); hotbase.push_back(r->base + pg * 4096);
  mprotect(r->lo + pg * 4096, 4096, PROT_READ | PROT_WRITE);
  return true;
}
inline void add_region(char *lo, size_t sz) {
  Region r; r.lo = lo; r.sz = (sz + 4095) / 4096 * 4096; r.first = regions.empty() ? 0 : regions.back().first + regions.back().sz / 4096;
  r.base = (char *)mmap(0, r.sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regions.push_back(r);
}
// arena_extra: untouched room in the arena, after what is in use, that stays writable by the SUT (zero in the baseline)
inline void baseline(size_t arena_extra = 0) {
  regions.clear(); hot.clear(); hotaddr.clear(); hotbase.clear();
  add_region(__start_sut_data, __stop_sut_data - __start_sut_data);
  add_region(__start_sut_bss, __stop_sut_bss - __start_sut_bss);
  add_region((char *)ARENA_BASE, hdr()->used + arena_extra);
  size_t np = 0;
  for (auto &r : regions) np += r.sz / 4096;
  hotflag.assign(np, 0);
  hot.reserve(np); hotaddr.reserve(np); hotbase.reserve(np);   // the fault handler must not allocate
  for (size_t i = 0; i < regions.size(); i++) {
    auto &r = regions[i];
    size_t n = i == 2 ? (hdr()->used + 4095) / 4096 * 4096 : r.sz;
    memcpy(r.base, r.lo, n);
    mprotect(r.lo, r.sz, PROT_READ);
  }
  armed = true;
}
inline void unprotect() {                            // leave snapshot mode (state stays as it is)
  for (auto &r : regions) mprotect(r.lo, r.sz, PROT_READ | PROT_WRITE);
  for (auto &r : regions) munmap(r.base, r.sz);
  armed = false; regions.clear();
}
inline void save(Snap &s) {
  s.clear();
  for (size_t i = 0; i < hot.size(); i++) {
    const uint64_t *a = (const uint64_t *)hotaddr[i], *b = (const uint64_t *)hotbase[i];
    if (!memcmp(a, b, 4096)) continue;
    for (int k = 0; k < 512; k++)
      if (a[k] != b[k]) s.push_back({(uint32_t)(hot[i] * 512u + k), a[k]});
  }
}
inline uint64_t *addr_of(uint32_t widx) {
  uint32_t pg = widx / 512;
  for (auto &r : regions) if (pg >= r.first && pg < r.first + r.sz / 4096) return (uint64_t *)(r.lo + (size_t)(pg - r.first) * 4096) + widx % 512;
  return nullptr;
}
inline uint32_t idx_of(const void *p) {
  Region *r = find((uintptr_t)p);
  if (!r) return ~0u;
  return (uint32_t)(r->first * 512 + ((uintptr_t)p - (uintptr_t)r->lo) / 8);
}
inline void restore(const Word *w, size_t n) {
  for (size_t i = 0; i < hot.size(); i++)
    if (memcmp(hotaddr[i], hotbase[i], 4096)) memcpy(hotaddr[i], hotbase[i], 4096);
  for (size_t i = 0; i < n; i++) *addr_of(w[i].idx) = w[i].val;
}
inline void restore(const Snap &s) { restore(s.data(), s.size()); }

// ---- running SUT code with crash containment -------------------------------------------------
static sigjmp_buf *trap = nullptr;                   // where a crash of the SUT jumps to
static char crash_msg[512];
static volatile bool in_sut = false;
[[noreturn]] inline void sut_die(const char *fmt, const char *a = "", const char *b = "", int line = 0) {
  snprintf(crash_msg, sizeof crash_msg, fmt, a, b, line);
  if (!trap) { fprintf(stderr, "SUT died outside a run: %s\n", crash_msg); _exit(3); }
  siglongjmp(*trap, 1);
}
inline void on_signal(int sig, siginfo_t *si, void *) {
  if (sig == SIGSEGV && fault((uintptr_t)si->si_addr)) return;
  const char *n = sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "division by zero / arithmetic fault" :
    sig == SIGILL ? "out-of-bounds index or division by zero (sanitizer trap)" : sig == SIGVTALRM ? "does not return (infinite loop)" :
    sig == SIGBUS ? "bus error" : "abort";
  if (!trap) { fprintf(stderr, "harness fault: signal %d at %p\n", sig, si->si_addr); _exit(3); }
  sigset_t m; sigemptyset(&m); sigaddset(&m, sig); sigprocmask(SIG_UNBLOCK, &m, 0);
  sut_die("%s", n);
}
inline void install_handlers() {
  static char *alt = (char *)malloc(1 << 16);
  stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = 1 << 16; sigaltstack(&ss, 0);
  struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGVTALRM}) sigaction(s, &sa, 0);
}
inline void watchdog(int ms) {
  struct itimerval it = {}; it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000;
  setitimer(ITIMER_VIRTUAL, &it, 0);
}
} // namespace snap
