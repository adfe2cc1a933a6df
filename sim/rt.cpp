// Simulator runtime: one real thread runs at a time; every memory access, lock operation and system
// call of the code under test is a scheduling point decided by the seeded scheduler.
#include "sim.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <map>
#include <unordered_map>

thread_local Thr *me = nullptr;
Global G;
bool g_verbose = false;

static std::unordered_map<uint64_t, std::vector<std::pair<int, int>>> g_replay;  // (op,step) -> (tid,next)
static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

void ev(uint64_t a, uint64_t b, uint64_t c) {
  G.hash = mix(mix(mix(G.hash, a), b), c);
}

void rt_reset() {
  g_replay.clear();
  if (G.plan->replay)
    for (auto &r : G.plan->sched) g_replay[((uint64_t)r.op << 32) | r.step].push_back({r.tid, r.next});
}

static long draw_countdown() {
  double p = G.plan->preempt;
  if (p <= 0) return 1l << 60;
  double u = ((G.rs.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
  double k = __builtin_log(u) / __builtin_log1p(-p);
  if (k > 1e15) k = 1e15;
  return 1 + (long)k;
}
void rt_start() { G.countdown = draw_countdown(); }

static void switch_to(int next) {
  Thr *t = me;
  if (next == t->id) return;
  G.res->switches++;
  if (t->in_call) G.res->switches_in_call++;
  G.since_switch = 0;
  Thr *n = G.thr[next];
  G.cur = next;
  G.sig = mix(G.sig, ((uint64_t)t->id << 40) ^ ((uint64_t)next << 36) ^ (t->lastpc[(t->lpi + 3) & 3] * 2654435761u) ^
                         (n->lastpc[(n->lpi + 3) & 3] * 40503u) ^ ((uint64_t)t->op_id << 48));
  ev(0x51, t->id, next);
  __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
  futex_wake(&n->go);
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex_wait(&t->go, 0);
  t->go = 0;
}
static void record(int next) {
  Thr *t = me;
  if (G.res->nsched < MAXSCHED) {
    SchedRec r = {t->op_id, t->step, (uint8_t)t->id, (uint8_t)next};
    G.res->sched[G.res->nsched++] = r;
  } else
    G.res->nsched = MAXSCHED + 1;
}
static int replay_next(bool *found) {
  *found = false;
  auto it = g_replay.find(((uint64_t)me->op_id << 32) | me->step);
  if (it == g_replay.end()) return -1;
  for (auto &p : it->second)
    if (p.first == me->id) { *found = true; return p.second; }
  return -1;
}
static int pick_runnable(bool exclude_me) {
  int n = 0, sel = -1;
  for (Thr *t : G.thr)
    if (t->state == TS_READY && !(exclude_me && t == me)) n++;
  if (!n) return -1;
  if (G.plan->replay) {
    for (Thr *t : G.thr)
      if (t->state == TS_READY && !(exclude_me && t == me)) return t->id;
  }
  if (G.plan->pct) {
    for (Thr *t : G.thr)
      if (t->state == TS_READY && !(exclude_me && t == me))
        if (sel < 0 || G.prio[t->id] > G.prio[sel]) sel = t->id;
    return sel;
  }
  int k = (int)G.rs.below(n);
  for (Thr *t : G.thr)
    if (t->state == TS_READY && !(exclude_me && t == me) && k-- == 0) return t->id;
  return -1;
}

// the calling thread cannot go on (blocked, at a barrier or finished)
static void forced_switch() {
  Thr *t = me;
  t->step++;
  int next = -1;
  if (G.plan->replay) {
    bool f;
    next = replay_next(&f);
    if (!f || next < 0 || next >= (int)G.thr.size() || G.thr[next]->state != TS_READY) next = -1;
  }
  if (next < 0) next = pick_runnable(true);
  if (next < 0) {
    if (t->state == TS_READY) return;
    std::string who;
    char b[80];
    uint32_t all = 0;
    for (Thr *x : G.thr) {
      all |= stuck_mask(x);
      snprintf(b, sizeof b, " t%d:%s(op %u)", x->id,
               x->state == TS_BLOCKED ? "waits for a lock" : x->state == TS_PHASE ? "outside" : "finished", x->op_id);
      who += b;
    }
    violate("deadlock", all, "no thread can run:%s", who.c_str());
  }
  record(next);
  switch_to(next);
}

extern bool g_interest;      // set by the model: the code runs with no lock held inside a call
void step(int weight_unlocked, addr_t pc) {
  Thr *t = me;
  if (!t || !G.running || t->nosim || G.dead) return;
  G.steps++;
  t->step++;
  t->call_steps++;
  G.since_switch++;
  G.hash = mix(G.hash, pc ^ ((addr_t)t->id << 56));
  if (t->call_steps > 4000000)
    violate("hang", stuck_mask(t), "a call of thread %d (op %u) does not complete within 4000000 steps", t->id, t->op_id);
  if (G.steps > 6000000) {       // long enough: the run ends here, all checks so far were passed
    probe(PR_TRUNCATED);
    finish_run();
  }
  if (G.thr.size() < 2) return;
  if (t->dying) return;
  int next = -1;
  if (G.plan->replay) {
    bool f;
    next = replay_next(&f);
    if (!f) {
      if (G.since_switch > 40000) { next = pick_runnable(true); if (next < 0) return; }
      else return;
    } else if (next < 0 || next >= (int)G.thr.size() || G.thr[next]->state != TS_READY) return;
  } else if (G.plan->pct) {
    bool change = false;
    if (!G.pct_points.empty() && G.steps >= G.pct_points.back()) {
      G.pct_points.pop_back();
      G.prio[t->id] = -(int)G.pct_points.size() - 1 - 1000 + (int)G.pct_points.size() * 2;
      change = true;
    }
    if (G.since_switch > 20000) { G.prio[t->id] = -2000 - (int)(G.steps & 1023); change = true; }
    if (!change) return;
    next = pick_runnable(false);
  } else {
    int w = 1;
    if (weight_unlocked && t->in_call && G.lock_owner != t->id) w = (int)G.plan->unlocked_boost;
    G.countdown -= w;
    if (G.countdown > 0 && G.since_switch <= 20000) return;
    G.countdown = draw_countdown();
    next = pick_runnable(true);
  }
  if (next < 0 || next == t->id) return;
  if (t->in_call) probe(any_lock_held() && G.lock_owner == t->id ? PR_PREEMPT_LOCKED : PR_PREEMPT_UNLOCKED);
  record(next);
  switch_to(next);
}
void sched_yield_point() { step(1, 0x999); }
void sched_force_yield() {
  if (!G.running || G.thr.size() < 2) return;
  forced_switch();
}

void block_on(void *mx) {
  Thr *t = me;
  t->state = TS_BLOCKED;
  t->wait_mx = mx;
  forced_switch();
}
void wake_all(void *mx) {
  for (Thr *t : G.thr)
    if (t->state == TS_BLOCKED && t->wait_mx == mx) {
      t->state = TS_READY;
      t->wait_mx = nullptr;
    }
}
extern void model_barrier(int ph);
void phase_wait(int ph) {
  Thr *t = me;
  t->state = TS_PHASE;
  t->phase = ph;
  bool all = true;
  for (Thr *x : G.thr)
    if (!(x->state == TS_DONE || (x->state == TS_PHASE && x->phase >= ph))) all = false;
  if (all) {
    model_barrier(ph);
    for (Thr *x : G.thr)
      if (x->state == TS_PHASE) x->state = TS_READY;
    G.phase = ph + 1;
    forced_switch();
  } else
    forced_switch();
}
void thread_finish() {
  Thr *t = me;
  t->state = TS_DONE;
  bool any = false, phase_only = true;
  for (Thr *x : G.thr)
    if (x->state != TS_DONE) { any = true; if (x->state != TS_PHASE) phase_only = false; }
  (void)phase_only;
  if (!any) finish_run();
  forced_switch();
  for (;;) pause();
}

// ------------------------------------------------------------------ mutexes
struct Mx { void *p; int owner; int depth; int kind; };
static Mx g_mx[16];
static int g_nmx = 0;
static Mx *mx_of(void *p) {
  for (int i = 0; i < g_nmx; ++i)
    if (g_mx[i].p == p) return &g_mx[i];
  if (g_nmx >= 16) harness_error("too many mutexes");
  Mx *m = &g_mx[g_nmx++];
  m->p = p; m->owner = -1; m->depth = 0;
  m->kind = ((pthread_mutex_t *)p)->__data.__kind & 3;
  return m;
}
static void set_owner() {
  G.lock_owner = -1;
  for (int i = 0; i < g_nmx; ++i)
    if (g_mx[i].owner >= 0) G.lock_owner = g_mx[i].owner;
}
bool any_lock_held() { return G.lock_owner >= 0; }
static int self_id() { return me ? me->id : 0; }
static int mx_try(Mx *m) {
  if (m->owner < 0) {
    m->owner = self_id(); m->depth = 1; set_owner();
    ev(0x61, self_id());
    return 0;
  }
  if (m->owner == self_id() && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->depth++; return 0; }
  return EBUSY;
}
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a) {
  step(1, 0x101);
  Mx *m = mx_of(p);
  m->owner = -1; m->depth = 0;
  m->kind = a ? (*(const int *)a & 3) : 0;
  set_owner();
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *p) { mx_of(p)->owner = -1; set_owner(); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *p) {
  step(1, 0x102);
  int r = mx_try(mx_of(p));
  if (r) probe(mx_of(p)->owner == self_id() ? PR_LOCK_RECURSIVE : PR_LOCK_CONTENDED);
  return r;
}
int sim_pthread_mutex_lock(pthread_mutex_t *p) {
  step(1, 0x103);
  Mx *m = mx_of(p);
  while (mx_try(m)) {
    if (m->owner == self_id() && m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (m->owner == self_id() || G.thr.size() < 2 || !G.running)
      violate("deadlock", stuck_mask(me), "thread %d waits for a lock it holds itself (op %u)", self_id(), me ? me->op_id : 0);
    probe(PR_LOCK_CONTENDED);
    block_on(p);
  }
  return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *p, const struct timespec *) { return sim_pthread_mutex_lock(p); }
int sim_pthread_mutex_unlock(pthread_mutex_t *p) {
  step(1, 0x104);
  Mx *m = mx_of(p);
  if (m->owner != self_id())
    violate("lock-misuse", P(12), "thread %d unlocks a lock held by thread %d (op %u)", self_id(), m->owner, me ? me->op_id : 0);
  if (--m->depth == 0) {
    m->owner = -1; set_owner();
    ev(0x62, self_id());
    wake_all(p);
  }
  step(1, 0x105);
  return 0;
}
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 0; return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = (*(int *)a & ~3) | t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *p, int) { Mx *m = mx_of((void *)p); m->owner = -1; m->kind = 0; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *p) {
  step(1, 0x106);
  Mx *m = mx_of((void *)p);
  while (mx_try(m)) block_on((void *)p);
  return 0;
}
int sim_pthread_spin_trylock(pthread_spinlock_t *p) { step(1, 0x107); return mx_try(mx_of((void *)p)); }
int sim_pthread_spin_unlock(pthread_spinlock_t *p) {
  Mx *m = mx_of((void *)p);
  m->owner = -1; set_owner(); wake_all((void *)p); step(1, 0x108);
  return 0;
}
struct SemRec { void *p; int v; };
static SemRec g_sem[8];
static int g_nsem = 0;
static SemRec *sem_of(void *p) {
  for (int i = 0; i < g_nsem; ++i) if (g_sem[i].p == p) return &g_sem[i];
  if (g_nsem >= 8) harness_error("too many semaphores");
  g_sem[g_nsem].p = p; g_sem[g_nsem].v = 0;
  return &g_sem[g_nsem++];
}
int sim_sem_init(void *p, int, unsigned v) { sem_of(p)->v = (int)v; return 0; }
int sim_sem_wait(void *p) {
  step(1, 0x109);
  SemRec *s = sem_of(p);
  while (s->v <= 0) block_on(p);
  s->v--; G.lock_owner = self_id();
  return 0;
}
int sim_sem_trywait(void *p) {
  step(1, 0x10a);
  SemRec *s = sem_of(p);
  if (s->v <= 0) { errno = EAGAIN; return -1; }
  s->v--; G.lock_owner = self_id();
  return 0;
}
int sim_sem_post(void *p) { SemRec *s = sem_of(p); s->v++; if (G.lock_owner == self_id()) G.lock_owner = -1; wake_all(p); step(1, 0x10b); return 0; }
int sim_pthread_once(int *o, void (*f)(void)) {
  step(1, 0x10c);
  while (*o == 1) block_on(o);
  if (*o == 0) { *o = 1; f(); *o = 2; wake_all(o); }
  return 0;
}
// opaque values as real systems give them: aligned alike, in some plans equal in the low 32 bits
pthread_t sim_pthread_self(void) {
  uint64_t k = self_id() + 1;
  switch (G.plan->seed % 3) {
  case 0: return (pthread_t)(0x7000 + 16 * k);
  case 1: return (pthread_t)(0x7f5a00000000ull - k * 0x801000 + 0x6c0);
  default: return (pthread_t)(0x7f0000000740ull - (k << 32));
  }
}
unsigned sim_sleep(unsigned) { sched_force_yield(); return 0; }
int sim_sched_yield(void) { sched_force_yield(); return 0; }
int sim_usleep(unsigned) { sched_force_yield(); return 0; }
int sim_nanosleep(const struct timespec *, struct timespec *) { sched_force_yield(); return 0; }
}

// ------------------------------------------------------------------ instrumentation callbacks
extern void model_write_hook(addr_t a, size_t n);
static inline void acc(void *p, size_t n, bool w, addr_t pc) {
  Thr *t = me;
  if (!t || !G.running || t->nosim) return;
  G.accs++;
  addr_t a = (addr_t)p;
  if (a >= t->stk_lo && a < t->stk_hi) return;
  if (w && a >= ARENA_LO && a < ARENA_HI) {
    if (t->watch && a <= t->watch && t->watch < a + n) t->watch_hit = true;
    model_write_hook(a, n);
  }
  if (t->lastpc[0] == pc || t->lastpc[1] == pc || t->lastpc[2] == pc || t->lastpc[3] == pc) {
    // inside a tight loop: only a sample of the accesses are scheduling points
    t->loop_steps++;
    if (t->loop_steps > (G.plan->giant ? 9500000000ull : 500000000ull)) violate("hang", stuck_mask(t), "a call of thread %d (op %u) does not complete", t->id, t->op_id);
    if ((++t->bk_seen & (G.plan->giant && t->loop_steps > 100000 ? 0xffffff : 63)) != 0) return;
  }
  t->lastpc[t->lpi] = pc;
  t->lpi = (t->lpi + 1) & 3;
  step(1, pc);
}
extern "C" {
#define RA ((addr_t)__builtin_return_address(0))
#define RW(n)                                                       \
  void __tsan_read##n(void *p) { acc(p, n, false, RA); }            \
  void __tsan_write##n(void *p) { acc(p, n, true, RA); }            \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RA); }  \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RA); }  \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false, RA); }   \
  void __tsan_volatile_write##n(void *p) { acc(p, n, true, RA); }   \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RA); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T)                                                                                              \
  T __tsan_atomic##N##_load(const volatile T *a, int) { step(1, RA); return *a; }                              \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { step(1, RA); *a = v; }                              \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = v; return o; }          \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = o + v; return o; }     \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = o - v; return o; }     \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = o & v; return o; }     \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = o | v; return o; }      \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { step(1, RA); T o = *a; *a = o ^ v; return o; }     \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                         \
    step(1, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                                      \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                           \
    step(1, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                                      \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                               \
    step(1, RA); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)

void *sim_memset(void *p, int c, size_t n) {
  acc(p, n, true, RA);
  if (n > (64ul << 20)) {          // abbreviated: first and last megabyte
    memset(p, c, 1 << 20);
    memset((char *)p + n - (1 << 20), c, 1 << 20);
  } else
    memset(p, c, n);
  step(1, RA + 1);
  return p;
}
static void (*g_handler)(void);
}
void model_new_handler_set(void *h);
extern "C" {
typedef void (*nh)(void);
nh sim_set_new_handler(nh h) {
  step(1, 0x10d);
  nh o = g_handler;
  g_handler = h;
  model_new_handler_set((void *)h);
  step(1, 0x10e);
  return o;
}
nh sim_get_new_handler(void) { step(1, 0x10f); return g_handler; }
}
void *rt_handler() { return (void *)g_handler; }

// ------------------------------------------------------------------ signals
static void on_crash(int sig, siginfo_t *si, void *uc) {
  Thr *t = me;
  addr_t fa = (addr_t)si->si_addr;
  addr_t pc = (addr_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (t && t->probing) {
    t->fault_addr = fa;
    siglongjmp(t->jb, 1);
  }
  if (sig == SIGVTALRM || sig == SIGPROF) {
    if (!G.running || G.dead) return;
    // several seconds of CPU time: a hang only if nothing at all was executed under the simulator's control meanwhile
    static uint64_t last = ~0ull;
    uint64_t n = G.steps + G.accs;
    if (n != last) { last = n; return; }
    violate("hang", stuck_mask(me), "no progress: thread %d (op %u) keeps running without reaching a scheduling point or never ends",
            G.cur, G.cur >= 0 && G.cur < (int)G.thr.size() ? G.thr[G.cur]->op_id : 0);
  }
  model_crash(fa, pc, sig);
}
void rt_signals() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  sigaction(SIGILL, &sa, 0);
  sigaction(SIGFPE, &sa, 0);
  sigaction(SIGABRT, &sa, 0);
  sigaction(SIGTRAP, &sa, 0);
  sigaction(SIGPROF, &sa, 0);
}
void rt_altstack(int id) {
  static char stk[9][65536] __attribute__((aligned(64)));
  stack_t ss;
  ss.ss_sp = stk[id]; ss.ss_size = sizeof stk[id]; ss.ss_flags = 0;
  sigaltstack(&ss, 0);
}
