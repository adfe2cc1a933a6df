// Driver: one forked process per simulated run; batch, replay and minimise commands.
#include "sim.h"
#include "model.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <algorithm>
#include <set>
#include <unordered_set>

extern bool g_verbose;
void rt_start();
void rt_signals();
void rt_altstack(int id);
void model_thread(Thr *t);

static Result *R;
static char g_stacks[8][1 << 18] __attribute__((aligned(4096)));
static Thr g_thr[8];
static int g_cpu_limit = 10;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void *thread_main(void *a) {
  Thr *t = (Thr *)a;
  me = t;
  rt_altstack(t->id);
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->go = 0;
  model_thread(t);
  for (;;) pause();
  return 0;
}
static void child(Plan &p) {
  G = Global();
  G.plan = &p;
  G.res = R;
  G.rs = Rng(mix(p.seed, 0x5ced));
  G.rf = Rng(mix(p.seed, 0xfa17));
  vm_reset();
  sink_reset();
  rt_reset();
  model_prepare(p);
  rt_signals();
  rt_altstack(8);
  int n = std::max(1, std::min(p.nthreads, 7));
  for (int i = 0; i < n; ++i) {
    Thr *t = &g_thr[i];
    t->id = i;
    t->ctx = new Ctx;
    t->stk_lo = (addr_t)g_stacks[i];
    t->stk_hi = t->stk_lo + sizeof g_stacks[i];
    G.thr.push_back(t);
  }
  for (int i = 0; i < n; ++i) G.prio.push_back(i);
  for (int i = n - 1; i > 0; --i) std::swap(G.prio[i], G.prio[G.rs.below(i + 1)]);
  if (p.pct) {
    int d = 1 + (int)G.rs.below(12);
    for (int i = 0; i < d; ++i) G.pct_points.push_back(1 + G.rs.below(1ull << (6 + G.rs.below(12))));
    std::sort(G.pct_points.rbegin(), G.pct_points.rend());
  }
  int lim = p.giant ? 400 : g_cpu_limit;
  struct itimerval it = {{lim, 0}, {lim, 0}};
  setitimer(ITIMER_PROF, &it, 0);
  for (int i = 0; i < n; ++i) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, g_stacks[i], sizeof g_stacks[i]);
    if (pthread_create(&g_thr[i].th, &a, thread_main, &g_thr[i])) harness_error("cannot create a thread");
  }
  rt_start();
  G.running = true;
  __atomic_store_n(&g_thr[0].go, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &g_thr[0].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  for (;;) pause();
}
static void reset_result() {
  memset((void *)R, 0, offsetof(Result, sched));
  memset(R->injected, 0, sizeof(Result) - offsetof(Result, injected));
  R->nsched = R->nfault = 0;
}
// returns the verdict
static int run_plan(Plan &p) {
  reset_result();
  fflush(stdout);
  pid_t c = fork();
  if (c < 0) { perror("fork"); exit(4); }
  if (c == 0) child(p);
  int st;
  double t0 = now();
  for (;;) {
    pid_t w = waitpid(c, &st, 0);
    if (w == c) break;
    if (w < 0 && errno == EINTR) {
      if (now() - t0 > 120) { kill(c, SIGKILL); continue; }
      continue;
    }
    if (w < 0) break;
  }
  if (!R->done) {
    R->verdict = 2;
    snprintf(R->cls, sizeof R->cls, "harness");
    snprintf(R->msg, sizeof R->msg, "the simulated process died unexpectedly (status %x)", st);
  }
  return R->verdict;
}
static void on_alarm(int) {}
static Plan as_replay(const Plan &p) {
  Plan q = p;
  q.replay = true;
  q.sched.assign(R->sched, R->sched + std::min<uint32_t>(R->nsched, MAXSCHED));
  q.faults.assign(R->fault, R->fault + std::min<uint32_t>(R->nfault, MAXFAULT));
  q.expect = R->cls;
  return q;
}
static std::string jesc(const std::string &s) {
  std::string r;
  char b[10];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static bool save(const std::string &path, const std::string &txt) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return false;
  fwrite(txt.data(), 1, txt.size(), f);
  fclose(f);
  return true;
}
static std::string load(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) { perror(path); exit(4); }
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}

// ------------------------------------------------------------------ minimisation
static int g_minruns;
static double g_minend;
static bool still(const Plan &q, const std::string &cls) {
  if (now() > g_minend) return false;
  ++g_minruns;
  Plan x = q;
  return run_plan(x) == 1 && cls == R->cls;
}
template <class T> static bool ddmin(Plan &p, std::vector<T> Plan::*mem, const std::string &cls, bool (*keep)(const T &)) {
  bool any = false;
  size_t n = (p.*mem).size();
  for (size_t chunk = std::max<size_t>(1, n / 2);; chunk = chunk / 2) {
    for (size_t i = 0; i < (p.*mem).size();) {
      Plan q = p;
      auto &v = q.*mem;
      std::vector<T> w;
      size_t removed = 0;
      for (size_t k = 0; k < v.size(); ++k)
        if (k >= i && k < i + chunk && !(keep && keep(v[k]))) removed++;
        else w.push_back(v[k]);
      if (removed) {
        v = w;
        if (still(q, cls)) { p = q; any = true; continue; }
      }
      i += chunk;
      if (now() > g_minend) return any;
    }
    if (chunk <= 1) break;
  }
  return any;
}
static bool keep_op(const Op &o) { return o.kind == OP_START; }
static Plan minimise(Plan p, const std::string &cls, double secs) {
  g_minend = now() + secs;
  g_minruns = 0;
  if (p.giant || !still(p, cls)) return p;
  for (int round = 0; round < 3; ++round) {
    bool any = false;
    // an empty schedule and no faults first
    { Plan q = p; q.sched.clear(); if (!p.sched.empty() && still(q, cls)) { p = q; any = true; } }
    { Plan q = p; q.faults.clear(); if (!p.faults.empty() && still(q, cls)) { p = q; any = true; } }
    any |= ddmin<Op>(p, &Plan::ops, cls, keep_op);
    any |= ddmin<FaultRec>(p, &Plan::faults, cls, nullptr);
    any |= ddmin<SchedRec>(p, &Plan::sched, cls, nullptr);
    any |= ddmin<std::string>(p, &Plan::env, cls, nullptr);
    for (int k = 0; k < 6; ++k) {
      Plan q = p;
      if (k == 0) q.place = 1;
      if (k == 1) q.mapcount = 0;
      if (k == 2) q.sigill = 0;
      if (k == 3) q.stdperm = 0;
      if (k == 4) { int m = 0; for (auto &o : q.ops) m = std::max(m, o.tid); q.nthreads = m + 1; if (q.nthreads == p.nthreads) continue; }
      if (k == 5) for (auto &f : q.phases) f.aslim = -1;
      if (plan_text(q) != plan_text(p) && still(q, cls)) { p = q; any = true; }
    }
    // drop what the schedule or fault list still says about removed operations
    {
      std::set<uint32_t> ids;
      for (auto &o : p.ops) ids.insert(o.id);
      Plan q = p;
      q.sched.clear();
      for (auto &s : p.sched) if (ids.count(s.op) || s.op == 0) q.sched.push_back(s);
      q.faults.clear();
      for (auto &f : p.faults) if (ids.count(f.op) || f.op == 0) q.faults.push_back(f);
      if ((q.sched.size() != p.sched.size() || q.faults.size() != p.faults.size()) && still(q, cls)) p = q;
    }
    if (!any || now() > g_minend) break;
  }
  return p;
}

// ------------------------------------------------------------------ batch
// a run counts as non-trivial for a property if one of these happened in it
static uint64_t pm(std::initializer_list<int> l) { uint64_t m = 0; for (int i : l) m |= 1ull << i; return m; }
static uint64_t relevant(int prop) {
  const uint64_t pre = pm({PR_PREEMPT_LOCKED, PR_PREEMPT_UNLOCKED, PR_LOCK_CONTENDED});
  const uint64_t oom = pm({PR_OOM_NULL, PR_OOM_ABORT, PR_BAD_ALLOC, PR_REALLOC_FAILED});
  const uint64_t red = pm({PR_REDUCED, PR_BEGIN_PROT, PR_BUDGET_FULL, PR_MAXALLOC_REDUCE, PR_PF_N_PROTECT});
  switch (prop) {
  case 1: return pm({PR_GUARD_FAULT, PR_BELOW, PR_ALIGN_GT_PAGE, PR_BIG}) | pre | oom;
  case 2: return pre | oom | pm({PR_REALLOC_MOVED, PR_TABLE_GROWN});
  case 3: return pm({PR_FREED_FAULT}) | red | pre;
  case 4: return red;
  case 5: return oom | pm({PR_OVERFLOW_REQ});
  case 6: return pre | pm({PR_CHECK_CONCURRENT, PR_NESTED_DELETE, PR_USABLE});
  case 7: return pm({PR_DOUBLE_FREE_ABORT, PR_MISMATCH_ABORT, PR_WILD_ABORT, PR_RACE_DOUBLE_FREE});
  case 8: return pm({PR_SLACK_ABORT, PR_CHECK_CONCURRENT});
  case 9: return pm({PR_REALLOC_MOVED, PR_USABLE, PR_ALIGN_GT_PAGE, PR_BIG});
  case 10: return pm({PR_LEAK_LINES, PR_EXIT_CONCURRENT, PR_LEAK_MIDRUN});
  case 11: return pre | oom | red;
  case 12: return pm({PR_LOCK_CONTENDED, PR_LOCK_RECURSIVE, PR_PREEMPT_LOCKED});
  case 13: return pm({PR_SLACK_ABORT, PR_DOUBLE_FREE_ABORT, PR_MISMATCH_ABORT, PR_WILD_ABORT, PR_OOM_ABORT, PR_MPROTECT_ABORT, PR_STRATEGY0});
  case 14: return pm({PR_HANDLER_CALLED, PR_BAD_ALLOC});
  case 15: return pm({PR_TRACE_LINES, PR_LEAK_LINES, PR_DOUBLE_FREE_ABORT, PR_MISMATCH_ABORT, PR_WILD_ABORT, PR_SLACK_ABORT});
  case 16: return ~0ull;
  case 17: return pm({PR_ZERO_NULL, PR_ZERO_SHARED, PR_ZERO_UNIQUE, PR_STRATEGY0});
  case 18: return pm({PR_TRACE_LINES});
  case 19: return pm({PR_CHURN});
  default: return pm({PR_FOREIGN_NEIGHBOUR, PR_HOLE_REUSED}) | pre;
  }
}

static int cmd_batch(int argc, char **argv) {
  int prop = 0, tier = 0, stride = 1;
  uint64_t seed = 1, first = 0, count = 100, maxviol = 4;
  double secs = 1e9;
  std::string out, viol, skip, stop;
  std::vector<std::string> known;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    const char *v = argv[i + 1];
    if (k == "--prop") prop = atoi(v);
    else if (k == "--seed") seed = strtoull(v, 0, 10);
    else if (k == "--first") first = strtoull(v, 0, 10);
    else if (k == "--stride") stride = atoi(v);
    else if (k == "--count") count = strtoull(v, 0, 10);
    else if (k == "--secs") secs = atof(v);
    else if (k == "--out") out = v;
    else if (k == "--viol") viol = v;
    else if (k == "--tier") tier = atoi(v);
    else if (k == "--maxviol") maxviol = strtoull(v, 0, 10);
    else if (k == "--known") known.push_back(v);
    else if (k == "--stop") stop = v;
  }
  double t0 = now();
  uint64_t runs = 0, steps = 0, switches = 0, swcall = 0, syscalls = 0, other = 0, harness = 0, gate = 0, gatebad = 0, died = 0, nontriv = 0, ops = 0, otherdev = 0;
  uint64_t inj[NINJ] = {0}, prb[NPROBES] = {0}, prr[NPROBES] = {0}, opd[OP_NKINDS] = {0};
  std::vector<uint64_t> sigs, hashes;
  std::string violj, otherj, samples, harnessj;
  std::set<std::string> seen, oseen;
  int nviol = 0, nsamples = 0, nother = 0;
  uint64_t rel = relevant(prop);
  for (uint64_t k = 0; k < count && now() - t0 < secs; ++k) {
    if (!stop.empty() && !access(stop.c_str(), F_OK)) break;      // some worker found a violation
    uint64_t s = mix(mix(seed, 0xd0a), first + k * stride);
    Plan p;
    if (tier && !first && !k && (prop == 2 || prop == 12) && !strcmp(variant_name, "static")) plan_giant(p, prop, s);
    else plan_generate(p, prop, s, variant_name, tier);
    int v = run_plan(p);
    runs++;
    steps += R->steps; switches += R->switches; swcall += R->switches_in_call; syscalls += R->syscalls;
    died += R->died;
    uint64_t bits = 0;
    for (int i = 0; i < NINJ; ++i) inj[i] += R->injected[i];
    for (int i = 0; i < NPROBES; ++i) { prb[i] += R->probes[i]; if (R->probes[i]) { prr[i]++; bits |= 1ull << i; } }
    for (int i = 0; i < OP_NKINDS; ++i) { opd[i] += R->opsdone[i]; ops += R->opsdone[i]; }
    otherdev += R->probes[NPROBES - 1];
    bool nt = (bits & rel) && v != 2;
    uint64_t h0 = R->hash, sg = R->sig;
    if (sg) sigs.push_back(sg);
    if (nt) {
      nontriv++;
      hashes.push_back(h0);
      if (nsamples < 3 && v == 0) {
        nsamples++;
        uint32_t f = 0;
        for (int i = 0; i < NINJ; ++i) f += R->injected[i];
        samples += strf("%s{\"seed\": %llu, \"variant\": \"%s\", \"threads\": %d, \"operations\": %zu, \"steps\": %llu, \"thread switches\": %llu, \"faults\": %u, \"settings\": \"%s\"}",
                        samples.empty() ? "" : ", ", (unsigned long long)s, variant_name, p.nthreads, p.ops.size(), (unsigned long long)R->steps,
                        (unsigned long long)R->switches, f, [&] { std::string e; for (auto &x : p.env) e += (e.empty() ? "" : " ") + x; return jesc(e); }().c_str());
      }
    }
    if (v == 0 && (k % 64) == 17) {
      Plan q = p;
      run_plan(q);
      gate++;
      if (R->hash != h0 || R->verdict != v) {
        gatebad++;
        harnessj += strf("%s\"seed %llu: two executions of one seed differ\"", harnessj.empty() ? "" : ", ", (unsigned long long)s);
      }
      continue;
    }
    if (v == 2) {
      harness++;
      if (harness < 10) harnessj += strf("%s\"seed %llu: %s\"", harnessj.empty() ? "" : ", ", (unsigned long long)s, jesc(R->msg).c_str());
      if (harness == 1 && !viol.empty()) save(viol + "/harness-" + variant_name + ".plan", plan_text(p));
    } else if (v == 3) {
      other++;
      if (oseen.insert(R->cls).second && nother < 8) {
        nother++;
        otherj += strf("%s{\"seed\": %llu, \"class\": \"%s\", \"message\": \"%s\"}", otherj.empty() ? "" : ", ", (unsigned long long)s, R->cls, jesc(R->msg).c_str());
      }
    } else if (v == 1) {
      if (seen.insert(R->cls).second) {
        nviol++;
        if (!stop.empty()) save(stop, "\n");
        std::string cls = R->cls, msg = R->msg;
        bool sched_over = R->nsched > MAXSCHED || R->nfault > MAXFAULT;
        Plan rp = as_replay(p);
        std::string path = viol + strf("/C%02d-%s-%s-%llu.plan", prop, variant_name, cls.c_str(), (unsigned long long)s);
        if (!viol.empty()) {
          save(path, plan_text(rp));
          Plan q = p;
          q.replay = false;
          save(path + ".seed", plan_text(q));
        }
        violj += strf("%s{\"seed\": %llu, \"class\": \"%s\", \"message\": \"%s\", \"path\": \"%s\", \"overflow\": %d}", violj.empty() ? "" : ", ", (unsigned long long)s, cls.c_str(),
                      jesc(msg).c_str(), path.c_str(), sched_over);
        if ((uint64_t)nviol >= maxviol) break;
      }
    }
  }
  double el = now() - t0;
  std::string j = "{";
  auto N = [&](const char *k, uint64_t v) { j += strf("\"%s\": %llu, ", k, (unsigned long long)v); };
  N("runs", runs); N("steps", steps); N("switches", switches); N("switches_in_call", swcall); N("syscalls", syscalls); N("other", other);
  N("other_deviations", otherdev); N("harness_errors", harness); N("gate", gate); N("gate_failed", gatebad); N("died", died); N("nontrivial", nontriv); N("ops", ops);
  j += strf("\"variant\": \"%s\", \"wall\": %.3f, ", variant_name, el);
  static const char *in[] = {"mmap_fail", "mmap_short", "munmap_fail", "munmap_short", "mprotect_fail", "mprotect_short", "write_error_or_EINTR", "write_short", "open_fail", "open_short",
                             "address_space_limit", "mapping_count_limit", "termination_signal_handled", "mapping_reuses_hole", "foreign_mapping", "call_before_constructors",
                             "exit_while_threads_run", "page_size_mismatch", "descriptor_0_closed", "no_environment", "long_file_names"};
  j += "\"injected\": {";
  bool f = true;
  for (int i = 0; i < NINJ; ++i) if (inj[i]) { j += strf("%s\"%s\": %llu", f ? "" : ", ", in[i], (unsigned long long)inj[i]); f = false; }
  j += "}, \"probes\": {";
  f = true;
  for (int i = 0; i < PR_N; ++i) { j += strf("%s\"%s\": [%llu, %llu]", f ? "" : ", ", probename[i], (unsigned long long)prb[i], (unsigned long long)prr[i]); f = false; }
  j += "}, \"opsdone\": {";
  f = true;
  for (int i = 0; i < OP_NKINDS; ++i) if (opd[i]) { j += strf("%s\"%s\": %llu", f ? "" : ", ", opname[i], (unsigned long long)opd[i]); f = false; }
  j += "}, \"violations\": [" + violj + "], \"others\": [" + otherj + "], \"samples\": [" + samples + "], \"harness\": [" + harnessj + "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout);
  else {
    save(out, j);
    FILE *b = fopen((out + ".sig").c_str(), "w");
    if (b) { fwrite(sigs.data(), 8, sigs.size(), b); fclose(b); }
    b = fopen((out + ".hash").c_str(), "w");
    if (b) { fwrite(hashes.data(), 8, hashes.size(), b); fclose(b); }
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: simbin batch|gen|run|replay|minimise ...\n"); return 4; }
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  const char *core = getenv("SIM_CORE");
  cpu_set_t cs, ns;
  CPU_ZERO(&cs);
  if (!sched_getaffinity(0, sizeof cs, &cs)) {
    int n = CPU_COUNT(&cs), want = core ? atoi(core) : 0, k = 0;
    for (int i = 0; i < CPU_SETSIZE && n; ++i)
      if (CPU_ISSET(i, &cs) && k++ == want % n) { CPU_ZERO(&ns); CPU_SET(i, &ns); sched_setaffinity(0, sizeof ns, &ns); break; }
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, 0);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  vm_init_zygote();
  R = (Result *)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string cmd = argv[1];
  if (getenv("SIM_VERBOSE")) g_verbose = true;
  if (cmd == "batch") return cmd_batch(argc, argv);
  if (cmd == "gen" || cmd == "run") {       // gen PROP SEED
    Plan p;
    plan_generate(p, atoi(argv[2]), strtoull(argv[3], 0, 10), variant_name, 0);
    if (cmd == "gen") { fputs(plan_text(p).c_str(), stdout); return 0; }
    int v = run_plan(p);
    printf("verdict %d class %s props %x\n%s\nhash %llx steps %llu switches %llu\n", v, R->cls, R->props, R->msg, (unsigned long long)R->hash, (unsigned long long)R->steps,
           (unsigned long long)R->switches);
    return v;
  }
  if (cmd == "replay") {
    Plan p;
    if (!plan_parse(load(argv[2]), p)) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 4; }
    int v = run_plan(p);
    printf("{\"verdict\": %d, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%llx\", \"steps\": %llu, \"switches\": %llu}\n", v, R->cls, jesc(R->msg).c_str(),
           (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->switches);
    return v;
  }
  if (cmd == "minimise") {                  // minimise IN OUT SECS
    Plan p;
    if (!plan_parse(load(argv[2]), p)) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 4; }
    p.replay = true;
    std::string cls = p.expect;
    Plan q = minimise(p, cls, argc > 4 ? atof(argv[4]) : 20);
    Plan t = q;
    int v = run_plan(t);
    if (v != 1 || cls != R->cls) { q = p; t = p; v = run_plan(t); }
    save(argv[3], plan_text(q));
    printf("{\"verdict\": %d, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%llx\", \"runs\": %d, \"ops\": %zu, \"switches\": %zu, \"faults\": %zu}\n", v, R->cls,
           jesc(R->msg).c_str(), (unsigned long long)R->hash, g_minruns, q.ops.size(), q.sched.size(), q.faults.size());
    return v;
  }
  return 4;
}
