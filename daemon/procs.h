// ---------------------------------------------------------------- start-up of several daemons: every interleaving, crash and stop
// Two slots for processes, each the whole program with its own memory, stack and descriptors; devices, uinput, the socket and
// the lock file are shared.  A switch, a crash or (in the main loop) a SIGTERM is possible before every call that other
// processes can notice.
#pragma once
enum { P_NONE, P_STARTING, P_RUNNING, P_ENDED };
struct PS { std::vector<snap::Word> mem; std::string stk; void *sp = nullptr; Fd fds[80]; ODir od[8]; int odn = 0; int st = P_NONE; bool other = false; void (*eh[16])(); int ehn = 0; };
struct PNode { std::shared_ptr<const PS> p[2]; K kk; int starts = 0, faults = 0, parent = -1, act = 0; };
static const int PSLOTS = 2; static struct { PS p[2]; int starts = 0, faults = 0; } cur; static PS fresh;
// equal states of a process are stored once
static std::unordered_map<uint64_t, std::vector<std::weak_ptr<const PS>>> pool;
static std::shared_ptr<const PS> intern(const PS &p) {
  h128[0] = 25; h128[1] = 26; hash_bytes(p.mem.data(), p.mem.size() * sizeof(Word)); hash_bytes(p.stk.data(), p.stk.size()); for (auto &f : p.fds) { long v[] = {f.kind, f.idx, f.off, f.cloexec, f.nonblock}; hash_bytes(v, sizeof v); } long v[] = {(long)p.sp, p.odn, p.st, p.other, p.ehn}; hash_bytes(v, sizeof v); hash_bytes(p.od, sizeof p.od); hash_bytes(p.eh, sizeof p.eh[0] * p.ehn);
  auto &b = pool[h128[0] ^ h128[1] * 31]; for (auto i = b.begin(); i != b.end();) { auto q = i->lock(); if (!q) { i = b.erase(i); continue; } if (q->mem.size() == p.mem.size() && !memcmp(q->mem.data(), p.mem.data(), p.mem.size() * sizeof(Word)) && q->stk == p.stk && q->sp == p.sp && q->st == p.st && q->other == p.other && q->ehn == p.ehn && q->odn == p.odn && !memcmp(q->eh, p.eh, sizeof p.eh[0] * p.ehn)) { bool eq = !memcmp(q->od, p.od, sizeof p.od); for (int f = 0; f < 80 && eq; f++) eq = q->fds[f].kind == p.fds[f].kind && q->fds[f].idx == p.fds[f].idx && q->fds[f].off == p.fds[f].off && q->fds[f].cloexec == p.fds[f].cloexec && q->fds[f].nonblock == p.fds[f].nonblock; if (eq) return q; } ++i; }
  auto q = std::make_shared<const PS>(p); b.push_back(q); return q;
}
static void put_cur(PNode &n) { for (int i = 0; i < PSLOTS; i++) n.p[i] = intern(cur.p[i]); n.starts = cur.starts; n.faults = cur.faults; n.kk = k; }
static void get_cur(const PNode &n) { for (int i = 0; i < PSLOTS; i++) cur.p[i] = *n.p[i]; cur.starts = n.starts; cur.faults = n.faults; k = n.kk; }
static bool pr_every = false;
static void pr_step(const char *w) {
  bool seen = !strcmp(w, "flock") || !strcmp(w, "unlink") || !strcmp(w, "bind") || !strcmp(w, "listen") || !strcmp(w, "connect") || !strcmp(w, "access") || !strcmp(w, "chmod") || !strcmp(w, "uinput create")
    || (!strcmp(w, "open") && (!strncmp(step_arg, "/run", 4) || !strcmp(step_arg, "/dev/uinput"))) || (!strcmp(w, "ioctl") && step_req == 0x90) || (!strcmp(w, "close") && step_req >= FK_SOCK && step_req <= FK_LOCK && step_req != FK_CON) || (pr_every && strcmp(w, "ioctl") && !strstr(w, "printf"));
  if (!seen) return; int e = errno; const char *a = step_arg; yield(W_STEP); errno = e; step_arg = a;
}
static void p_save(PS &p) { p.odn = odirn; memcpy(p.od, odirs, sizeof odirs); heap_open(); snap::save(p.mem); heap_sync(); p.sp = co_sp; p.stk.assign((char *)co_sp, stk_hi); memcpy((void *)p.fds, k.fds, sizeof k.fds); memcpy(p.eh, exit_handlers, sizeof p.eh); p.ehn = exit_handler_n; }
static void p_load(const PS &p) { heap_open(); snap::restore(p.mem.data(), p.mem.size()); heap_sync(); odirn = p.odn; memcpy(odirs, p.od, sizeof odirs); co_sp = p.sp; memcpy(co_sp, p.stk.data(), p.stk.size()); memcpy((void *)k.fds, p.fds, sizeof k.fds); memcpy(exit_handlers, p.eh, sizeof p.eh); exit_handler_n = p.ehn; }
static void p_dead(int i) { for (int f = 0; f < 80; f++) if (k.fds[f].kind != FK_FREE) close_fd(f); cur.p[i] = PS(); cur.p[i].st = P_ENDED; }
static void p_kill(int i) { cur_proc = i; memcpy((void *)k.fds, cur.p[i].fds, sizeof k.fds); p_dead(i); }
static void term_main() { env_exit(15); }
static std::string pname(int i) { return std::string(1, 'A' + i); }
static std::string p_run(int i, bool term) {           // until its next visible call
  PS &p = cur.p[i]; cur_proc = i; p_load(p); Viol v;
  if (term) { uint64_t *sp = (uint64_t *)(((uintptr_t)co_sp - 1024) & ~15ull); sp[6] = (uint64_t)term_main; sp[7] = 0; if (((uintptr_t)(sp + 7)) % 16 != 8) { sp--; sp[6] = (uint64_t)term_main; sp[7] = 0; } co_sp = sp; }
  for (;;) {
    if (!run_sut(v)) return "daemon " + pname(i) + ": " + v.detail; if (k.bad.size()) return "daemon " + pname(i) + ": " + k.bad;
    if (term && why == W_STEP) continue;               // an exiting process runs on to its end
    break;
  }
  if (why == W_EXIT) { int code = k.exit_code; k.exited = false; bool other = p.other; p_dead(i); if (!term && !code) return "daemon " + pname(i) + " ends while starting, but reports success"; if (!term && !other) return "daemon " + pname(i) + " does not start (status " + std::to_string(code) + ") although no other one is there"; return ""; }
  if (why == W_POLL) p.st = P_RUNNING;
  k.out.clear(); p_save(p); return "";
}
static bool eligible(const DevSpec &s) { return s.present && (s.caps() & 4) && s.vendor != 0x0fac; }
static std::string p_inv() {
  int r = -1; for (int i = 0; i < PSLOTS; i++) if (cur.p[i].st == P_RUNNING) { if (r >= 0) return "two daemons run at the same time"; r = i; }
  if (r < 0) return "";
  if (!k.sock_path) return "the control socket of running daemon " + pname(r) + " was removed";
  if (k.sock_path < 0 || k.socks[k.sock_path - 1].proc != r || !k.socks[k.sock_path - 1].listening) return "the control socket does not lead to running daemon " + pname(r);
  for (size_t i = 0; i < specs.size(); i++) { if (eligible(specs[i]) && (!k.devs[i].grabs || k.devs[i].gproc != r)) return "keyboard " + specs[i].node + " is not held by running daemon " + pname(r); if (k.devs[i].grabs && k.devs[i].gproc != r) return "device " + specs[i].node + " is held by a daemon which does not run"; }
  for (auto &u : k.uin) if (!u.dead && u.proc != r) return "a second daemon makes virtual devices while daemon " + pname(r) + " runs";
  for (int i = 0; i < PSLOTS; i++) if (i != r) for (auto &f : cur.p[i].fds) if (cur.p[i].st == P_STARTING && (f.kind == FK_DEV || f.kind == FK_UINPUT)) return "a second daemon opens devices while daemon " + pname(r) + " runs";
  return "";
}
// who can reach the daemon, at every step: a bound command runs as root
static std::string p_access() {
  if (prop != "D16") return "";
  if (k.sock_path > 0) { Sock &s = k.socks[k.sock_path - 1]; if (s.listening && s.open) { char b[160];
    if (s.mode & 2) { snprintf(b, sizeof b, "everybody may connect to the listening control socket (mode %o)", s.mode); return b; }
    if ((s.mode & 020) && s.gid && s.gid != 77) { snprintf(b, sizeof b, "group %d may connect to the listening control socket", s.gid); return b; }
    for (int i = 0; i < PSLOTS; i++) if (cur.p[i].st == P_RUNNING && s.proc == i) { if ((s.mode & 0600) != 0600) return "the owner may not use the control socket of a running daemon"; if (have_group && (!(s.mode & 020) || s.gid != 77)) return "members of the keyd group may not connect to a running daemon"; } } }
  for (auto &l : k.locks) if (l.mode & 7) { char b[120]; snprintf(b, sizeof b, "everybody may open (and hold) the lock file (mode %o)", l.mode); return b; }
  return "";
}
static H p_hash() {
  h128[0] = 15; h128[1] = 16; auto num = [](long v) { hash_bytes(&v, sizeof v); };
  for (auto &p : cur.p) { num(p.st); if (p.st != P_STARTING && p.st != P_RUNNING) continue; num(p.other); hash_bytes(p.mem.data(), p.mem.size() * sizeof(Word)); hash_bytes(p.stk.data(), p.stk.size()); for (auto &f : p.fds) { num(f.kind); num(f.idx); num(f.off); } num(p.odn); hash_bytes(p.od, sizeof p.od); num(p.ehn); }
  for (auto &d : k.devs) { num(d.opens); num(d.grabs); num(d.gproc); num(d.gfd); } for (auto &u : k.uin) { num(u.proc); num(u.created); num(u.dead); } for (auto &s : k.socks) { num(s.proc); num(s.open); num(s.listening); num(s.mode); num(s.gid); } for (auto &l : k.locks) { num(l.proc); num(l.fd); num(l.mode); } for (int i = 0; i < 2; i++) { num(k.egid[i]); num(k.umask[i]); } num(k.sock_path); num(k.lock_path); num(cur.starts); num(cur.faults);
  return {h128[0], h128[1]};
}
enum { A_STEP = 0, A_CRASH = 10, A_TERM = 20, A_START = 30 };
static std::string aname(int a) { int p = a % 10; return a >= A_START ? "start " + pname(p) : a >= A_TERM ? "SIGTERM to " + pname(p) : a >= A_CRASH ? "crash of " + pname(p) : pname(p) + " goes on"; }
static std::string p_apply(int a) {
  int i = a % 10; PS &p = cur.p[i];
  if (a >= A_START) { p = fresh; k.egid[i] = 0; k.umask[i] = S->late & 32 ? 0 : S->late & 64 ? 077 : 022; p.st = P_STARTING; cur.starts++; p.other = false; for (int j = 0; j < PSLOTS; j++) if (j != i && (cur.p[j].st == P_STARTING || cur.p[j].st == P_RUNNING)) { p.other = true; cur.p[j].other = true; } }
  else if (a >= A_TERM) { cur.faults++; std::string m = p_run(i, true); if (m.size()) return m; }
  else if (a >= A_CRASH) { cur.faults++; p_kill(i); }
  else { std::string m = p_run(i, false); if (m.size()) return m; }
  { std::string m = p_access(); if (m.size()) return m; }
  return p_inv();
}
static std::string p_final(const Scn &sc) {             // when no process is starting
  int alive = 0; for (auto &p : cur.p) alive += p.st == P_RUNNING; for (auto &p : cur.p) if (p.st == P_STARTING) return "";
  if (alive) return ""; if (cur.starts && !cur.faults) return "every daemon refused to start";
  // a new one must be able to take over
  PNode keep; put_cur(keep); std::string m = p_apply(A_START); for (int n = 0; m.empty() && cur.p[0].st == P_STARTING && n < 1000; n++) m = p_apply(A_STEP); if (m.empty() && cur.p[0].st != P_RUNNING) m = "a new daemon does not reach its main loop"; if (m.size()) m = "after this, " + m; get_cur(keep); (void)sc; return m;
}
static int procs_all(Scn &sc, const std::vector<Act> &rp) {
  specs.clear(); for (auto &d : sc.devs) specs.push_back(d); filesets.assign(1, Files()); for (auto &f : sc.files) if (f.first == 0) filesets[0] = f.second; k = K(); k.devs.resize(specs.size()); for (size_t i = 0; i < specs.size(); i++) k.devs[i].present = specs[i].present; for (int i = 0; i < 3; i++) k.fds[i].kind = FK_NULL;
  have_group = sc.late & 4; if (sc.late & 1) k.sock_path = -1; if (sc.late & 2) { k.locks.push_back(Lock()); k.lock_path = 1; } pr_every = sc.early; S = &sc;
  co_start(); run_exit_handlers = true; sched_point = pr_step; for (auto &x : none) mprotect((void *)x.first, x.second, PROT_READ | PROT_WRITE); none.clear(); deny = denied; baseline(60u << 20); heap_sync(); p_save(fresh);
  int maxstarts = sc.depth, maxfaults = sc.devsb; cur = {};
  if (!rp.empty()) { std::string m; for (auto &a : rp) { m = p_apply(a.idx); printf("%s%s%s\n", aname(a.idx).c_str(), m.empty() ? "" : "   <-- ", m.c_str()); if (m.size()) break; } if (m.empty()) { m = p_final(sc); if (m.size()) printf("%s\n", m.c_str()); } if (m.empty()) printf("no violation\n"); return !m.empty(); }
  std::deque<PNode> ns; std::unordered_set<H, HH> seen; long trans = 0, ends = 0; int maxd = 0; bool capped = false; std::set<std::string> sig; std::vector<std::pair<std::string, std::vector<int>>> vs; std::set<std::string> outcomes; std::string sample;
  auto path = [&](int n) { std::vector<int> p; while (n > 0) { p.push_back(ns[n].act); n = ns[n].parent; } std::reverse(p.begin(), p.end()); return p; };
  ns.emplace_back(); put_cur(ns[0]); seen.insert(p_hash());
  for (int i = 0; i < (int)ns.size() && vs.size() < 1; i++) {
    if ((int)ns.size() >= sc.cap) { capped = true; break; }
    std::vector<int> acts; PNode &n = ns[i]; for (int q = 0; q < PSLOTS; q++) { int st = n.p[q]->st; bool live = st == P_STARTING || st == P_RUNNING; if (st == P_STARTING) acts.push_back(A_STEP + q); if (live && n.faults < maxfaults) { acts.push_back(A_CRASH + q); if (st == P_RUNNING) acts.push_back(A_TERM + q); } if (!live && n.starts < maxstarts && !(q && n.starts == 0)) acts.push_back(A_START + q); }
    get_cur(n); { std::string m = p_final(sc); if (m.size() && sig.insert(m.substr(0, 60)).second) { vs.push_back({m, path(i)}); continue; } if (!m.empty()) continue; }
    bool term = true; for (int a : acts) {
      get_cur(ns[i]); trans++; std::string m = p_apply(a); if (a < A_START) term = false;
      if (m.size()) { if (sig.insert(m.substr(0, 60)).second) { auto p = path(i); p.push_back(a); vs.push_back({m, p}); } continue; }
      H h = p_hash(); if (!seen.insert(h).second) continue; ns.emplace_back(); put_cur(ns.back()); ns.back().parent = i; ns.back().act = a; if (ns.size() % 997 == 1 || ns.size() < 50) { auto p = path(ns.size() - 1); if ((int)p.size() > maxd) { maxd = p.size(); sample.clear(); for (int x : p) sample += (sample.size() ? "; " : "") + aname(x); } }
    }
    ends += term; std::string o; for (auto &p : ns[i].p) o += std::to_string(p->st); if (term) outcomes.insert(o);
    if (i) { ns[i].kk = K(); for (auto &p : ns[i].p) p.reset(); }
  }
  printf("{\"scenario\":\"%s\",\"states\":%zu,\"transitions\":%ld,\"depth\":%d,\"bound\":%d,\"outcomes\":%zu,\"rest\":%ld,\"leaves\":%ld,\"capped\":%s,\"canon\":true,\"wall\":0,\"samples\":[\"%s\"],\"violations\":[", jesc(sc.id).c_str(), ns.size(), trans, maxd, maxd, outcomes.size(), ends, ends, capped ? "true" : "false", sample.c_str());
  int vi = 0; for (auto &x : vs) { std::string rf, tr; for (int a : x.second) tr += (tr.size() ? "; " : "") + aname(a); if (g_outdir.size()) { rf = g_outdir + "/" + prop + "-" + sc.id + "-" + std::to_string(vi) + ".replay"; FILE *f = fopen(rf.c_str(), "w"); if (f) { fprintf(f, "# %s\ndaemon\nprop %s\nmode procs\n", jesc(x.first).c_str(), prop.c_str()); for (int a : x.second) fprintf(f, "act %d 0 0\n", a); fprintf(f, "---\n%s", sc.text.c_str()); fclose(f); } }
    printf("%s{\"kind\":\"procs\",\"detail\":\"%s\",\"trace\":\"%s\",\"replay\":\"%s\"}", vi++ ? "," : "", jesc(x.first).c_str(), jesc(tr).c_str(), jesc(rf).c_str()); }
  printf("]}\n"); return vs.size() ? 1 : 0;
}
