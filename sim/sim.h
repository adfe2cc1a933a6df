// Deterministic simulator for DUMA: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <pthread.h>
#include <string>
#include <vector>

typedef uintptr_t addr_t;
#define PG 4096ul
static inline addr_t pgdn(addr_t a) { return a & ~(PG - 1); }
static inline addr_t pgup(addr_t a) { return (a + PG - 1) & ~(PG - 1); }

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}

// ---------------------------------------------------------------- properties
enum { NPROP = 20 };                 // C01..C20
#define P(n) (1u << ((n)-1))
static const uint32_t PROP_ALL = (1u << NPROP) - 1;

// ---------------------------------------------------------------- operations
enum OpKind {
  OP_NONE, OP_ALLOC, OP_FREE, OP_REALLOC, OP_USABLE, OP_CHECK, OP_CHECKALL, OP_TOUCH, OP_PROBE_GUARD,
  OP_PROBE_FREED, OP_COPY, OP_LEAKREP, OP_SET, OP_FMAP, OP_FUNMAP, OP_CORRUPT, OP_NESTNEW, OP_NESTDEL,
  OP_HANDLER, OP_FREENULL, OP_CHURN, OP_EXIT, OP_START, OP_M_FREE, OP_M_WILD, OP_M_MISMATCH,
  OP_M_REALLOC, OP_OVERLAP, OP_YIELD, OP_FORGET, OP_PMBAD, OP_NKINDS
};
extern const char *opname[OP_NKINDS];

enum AKind {
  AK_MALLOC, AK_CALLOC, AK_MEMALIGN, AK_PMEMALIGN, AK_VALLOC, AK_STRDUP, AK_REALLOC, AK_NEW, AK_NEW_NT,
  AK_NEWA, AK_NEWA_NT, AK_MEMB, AK_MEMBA, AK_N
};
enum Family { FAM_C, FAM_NEW, FAM_NEWA, FAM_MEMB, FAM_MEMBA };
enum Form { FORM_PLAIN, FORM_DIRECT, FORM_MACRO };

struct Op {
  uint32_t id = 0;   // unique, stable under minimisation
  int phase = 0, tid = 0, kind = 0;
  int h = -1;        // handle
  int form = 0;
  int ak = 0;        // allocation kind / variant selector
  uint64_t a = 0, b = 0;
};

struct SchedRec { uint32_t op; uint32_t step; uint8_t tid, next; };
enum SysKind { SK_MMAP, SK_MUNMAP, SK_MPROTECT, SK_WRITE, SK_OPEN, SK_N };
enum FaultEff { FE_ERR, FE_SHORT };
struct FaultRec { uint32_t op; int sys; uint32_t nth; int eff; int arg; };

struct Phase { int faults = 0; int quiesce = 1; long aslim = -1; int misuse = 0; };

struct Plan {
  int prop = 1;
  uint64_t seed = 0;
  int nthreads = 1;
  std::vector<std::string> env;
  int place = 0;
  int sigill = 0;           // 0: default action kills, 1: handled and returns
  int early = 0;            // first call comes before static constructors
  int mapcount = 0;         // simulated limit on the number of mappings (0 = none)
  int exit_running = 0;     // exit while other threads still run
  long stdperm = 0;         // bit0: fd1 permanently failing, bit1: fd2, bit2: file
  int badpage = 0;          // sysconf reports another page size
  int giant = 0;            // one call copies more than 4 GB
  int longname = 0;         // length of some source file names, 0: ordinary ones
  int fd0 = 0;              // the program has closed its standard input: open() returns descriptor 0
  std::vector<Phase> phases;
  std::vector<Op> ops;
  std::vector<SchedRec> sched;
  std::vector<FaultRec> faults;
  bool replay = false;      // follow sched/faults instead of drawing
  // scheduling policy (only when !replay)
  double preempt = 0.01;
  double unlocked_boost = 1;
  int pct = 0;
  double frate[SK_N] = {0, 0, 0, 0, 0};
  std::string expect;       // violation class expected (replay files)
};
std::string plan_text(const Plan &);
bool plan_parse(const std::string &, Plan &);
void plan_giant(Plan &, int prop, uint64_t seed);
void plan_generate(Plan &, int prop, uint64_t seed, const char *variant, int tier);

// ---------------------------------------------------------------- result of one run
enum { NINJ = SK_N * 2 + 11 };
enum { MAXSCHED = 6000, MAXFAULT = 400, MSGLEN = 1500, NPROBES = 64 };
struct Result {
  volatile int done;
  int verdict;              // 0 ok, 1 violation, 2 harness error
  char cls[64];
  uint32_t props;
  char msg[MSGLEN];
  uint64_t steps, switches, switches_in_call;
  uint64_t hash;            // hash of the whole event log (determinism gate)
  uint64_t sig;             // interleaving signature
  uint32_t nsched, nfault;
  SchedRec sched[MAXSCHED];
  FaultRec fault[MAXFAULT];
  uint32_t injected[NINJ];
  uint32_t probes[NPROBES];
  uint32_t opsdone[OP_NKINDS];
  uint32_t died;            // simulated process ended by DUMA (abort/_exit)
  uint32_t syscalls;
};
// injected[] indexes beyond SK_N*2
enum { INJ_ASLIM = SK_N * 2, INJ_MAPCOUNT, INJ_SIGILL_HANDLED, INJ_HOLE_REUSE, INJ_FOREIGN, INJ_EARLY, INJ_EXITRUN, INJ_BADPAGE, INJ_FD0, INJ_NOENV, INJ_LONGNAME };

enum Probe {
  PR_TABLE_GROWN, PR_CHUNK_NEW, PR_REDUCED, PR_BEGIN_PROT, PR_OOM_NULL, PR_OOM_ABORT, PR_BAD_ALLOC,
  PR_HANDLER_CALLED, PR_LOCK_CONTENDED, PR_LOCK_RECURSIVE, PR_PREEMPT_LOCKED, PR_PREEMPT_UNLOCKED,
  PR_GUARD_FAULT, PR_FREED_FAULT, PR_REALLOC_MOVED, PR_REALLOC_FAILED, PR_SLACK_ABORT, PR_DOUBLE_FREE_ABORT,
  PR_MISMATCH_ABORT, PR_WILD_ABORT, PR_ZERO_NULL, PR_ZERO_SHARED, PR_ZERO_UNIQUE, PR_LEAK_LINES,
  PR_EXIT_CONCURRENT, PR_SHORT_WRITE_RESUMED, PR_HOLE_REUSED, PR_FOREIGN_NEIGHBOUR, PR_ALIGN_GT_PAGE,
  PR_BELOW, PR_OVERFLOW_REQ, PR_MPROTECT_ABORT, PR_INIT_FAIL, PR_CHURN, PR_BUDGET_FULL, PR_MAXALLOC_REDUCE,
  PR_NESTED_DELETE, PR_CHECK_CONCURRENT, PR_RACE_DOUBLE_FREE, PR_BIG, PR_EARLY_ALLOC, PR_RECOVERED,
  PR_FREE_ACCESS_SEEN, PR_SPURIOUS_RETRY, PR_USABLE, PR_STRATEGY0, PR_TRACE_LINES, PR_PF_N_PROTECT, PR_LEAK_MIDRUN, PR_TRUNCATED, PR_PM_INVALID,
  PR_N
};
extern const char *probename[PR_N];

// ---------------------------------------------------------------- kernel VM
enum { OWN_DUMA = 1, OWN_FOREIGN = 2 };
struct Vma { addr_t lo, hi; uint8_t prot; uint8_t own; };  // prot: 0 none, 3 rw
#define ARENA_LO 0x200000000000ul
#define ARENA_SZ (1ul << 37)
#define ARENA_HI (ARENA_LO + ARENA_SZ)
void vm_init_zygote();
void vm_reset();
const Vma *vm_at(addr_t a);
bool vm_range_is(addr_t lo, addr_t hi, int prot, int own);   // whole range mapped with prot/own
bool vm_any_access(addr_t lo, addr_t hi);                    // any accessible page in range
size_t vm_total(int own);
extern std::vector<Vma> g_vma;
addr_t vm_foreign_map(size_t len, uint64_t rnd);
void vm_foreign_unmap(addr_t a, size_t len);

// ---------------------------------------------------------------- threads
enum TState { TS_READY, TS_BLOCKED, TS_PHASE, TS_DONE };
struct Thr {
  int id = 0;
  pthread_t th{};
  int go = 0;
  int state = TS_READY;
  uint32_t op_id = 0;
  uint32_t step = 0;
  int phase = 0;
  bool in_call = false;         // inside a DUMA entry point
  bool dying = false;           // fatal diagnosis issued, waiting for termination
  addr_t stk_lo = 0, stk_hi = 0;
  addr_t lastpc[4] = {0, 0, 0, 0};
  int lpi = 0;
  void *wait_mx = nullptr;
  uint32_t nth[SK_N] = {0, 0, 0, 0, 0};
  int nosim = 0;
  // per-call observations
  bool op_mmap_failed = false, op_opened = false;
  addr_t tab_lo = 0, tab_hi = 0;          // first range opened by this call
  bool op_mprotect_failed = false;
  size_t op_released = 0;       // freed-protected bytes given back in this call
  uint32_t op_mmaps = 0;
  uint32_t op_handler_calls = 0;
  addr_t watch = 0;             // FREE_ACCESS: first byte of the block being released
  bool watch_hit = false;
  size_t op_req = 0;            // footprint of the requested block (alloc ops)
  size_t op_free_fp = 0;        // footprint of the block being released
  void *op_blk = nullptr;       // Blk being released
  bool op_is_alloc = false, op_is_free = false;
  uint32_t call_steps = 0;
  uint64_t loop_steps = 0;
  sigjmp_buf jb;
  volatile int probing = 0;
  volatile addr_t fault_addr = 0;
  // protected-memory verdict at the last failing mmap of the call
  size_t prot_at_fail = 0;
  size_t refused_len = 0, given_since_refused = 0;
  std::vector<std::pair<addr_t, addr_t>> call_maps;
  size_t bk_seen = 0;           // counter for sampling accesses in tight loops
  void *ctx = nullptr;          // model's per-thread context
};
extern thread_local Thr *me;

struct Global {
  Plan *plan = nullptr;
  Result *res = nullptr;
  std::vector<Thr *> thr;
  int cur = 0;
  int phase = 0;
  bool running = false;         // scheduler active
  bool inited = false;          // DUMA start-up finished
  bool dead = false;
  uint64_t steps = 0;
  uint64_t accs = 0;
  Rng rs{1}, rf{1};
  long countdown = 0;
  std::vector<int> prio;
  std::vector<uint64_t> pct_points;
  uint64_t hash = 0, sig = 0;
  int lock_owner = -1;
  uint64_t since_switch = 0;
};
extern Global G;

void step(int weight_unlocked, addr_t pc);      // a scheduling point
void sched_yield_point();
void block_on(void *mx);
void wake_all(void *mx);
void thread_finish();
void phase_wait(int ph);
bool any_lock_held();
void rt_reset();
void ev(uint64_t a, uint64_t b = 0, uint64_t c = 0);
[[noreturn]] void finish_run();
uint32_t stuck_mask(struct Thr *t);
uint32_t model_expmask();
[[noreturn]] void violate(const char *cls, uint32_t props, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void harness_error(const char *fmt, ...);
void probe(int p);
bool want_fault(int sys, int &eff, int &arg);

// model callbacks from the kernel
void model_vm_event(int what, addr_t lo, addr_t hi, int prot);  // 0 map 1 unmap 2 protect 3 unmap attempt that failed
void model_mmap_failed(size_t len);
[[noreturn]] void model_death(int how, int arg);  // how: 0 kill, 1 _exit/exit, 2 abort/raise
bool model_handled_signal(int sig);
void model_op_touch(addr_t a);
void model_chunk(addr_t a, size_t len, bool pre);
void model_prepare(Plan &);
void model_run(Plan &);
void model_crash(addr_t fault, addr_t pc, int sig);
void model_quiesce();
void sink_reset();
std::string sink_text(int which);

// ---------------------------------------------------------------- client (compiled against DUMA's headers)
struct CRes { void *p; int err; int exc; int rc; size_t sz; };
extern "C" {
void cli_alloc(CRes *, int ak, int form, size_t a, size_t b, const char *s, const char *file, int line);
void cli_free(CRes *, int fam, int form, int variant, void *p, const char *file, int line);
void cli_realloc(CRes *, void *p, size_t n, int form, const char *file, int line);
void cli_usable(CRes *, void *p, int form, const char *file, int line);
void cli_check(void *p);
void cli_checkall(void);
void cli_leakrep(void);
void cli_set(int what, int v);
void cli_copy(void *d, const void *s, size_t n);
int cli_overlap(char *buf, int fwd);
void cli_nestdel(void *node, int form);
void cli_sethandler(int kind);
size_t cli_nodesize(void);
int cli_macro_line(int what);       // line used by the macro form
const char *cli_macro_file(int what);
int cli_handler_index(void *h);
int cli_nolead(void);                // configuration without leak detection: no positions, no leak report
}
enum { SET_ALIGNMENT, SET_BELOW, SET_FILL };
enum { ML_MALLOC, ML_CALLOC, ML_MEMALIGN, ML_PMEMALIGN, ML_VALLOC, ML_STRDUP, ML_REALLOC, ML_FREE, ML_NEW, ML_NEWA,
       ML_NEW_NT, ML_NEWA_NT, ML_DEL0, ML_DELA0 = ML_DEL0 + 4, ML_NESTDEL = ML_DELA0 + 4, ML_NESTDTOR, ML_NESTFREE, ML_NESTDTORA, ML_NESTDELA, ML_N };
extern "C" void *sim_handler_called(int kind);
extern "C" const char *variant_name;
