// Reference model of the client-visible guarantees, operation execution and oracles.
#include "model.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <algorithm>

Cfg cfg, cfg0;
std::map<int, Blk *> g_h;
std::vector<Blk *> g_all;
uint64_t g_seq;
extern bool g_verbose;
extern char **sim_environ_ref;
extern "C" char **sim_environ;
extern size_t g_munmap_failed_bytes;
extern "C" long cli_min_align(void);
extern "C" void run_atexit();
void *rt_handler();
void write_flush_check(int tid);
void vm_foreign_check(addr_t a, size_t len);
void vm_foreign_check_all();
addr_t vm_foreign_any(uint64_t r);
bool g_fd_leaked();
typedef void (*vfn)(void);
extern "C" __attribute__((weak)) vfn __start_duma_ctors[], __stop_duma_ctors[];
extern "C" __attribute__((weak)) vfn __start_duma_dtors[], __stop_duma_dtors[];

static std::vector<Blk *> g_live;                 // not shared, not yet closed
struct FRange { addr_t hi; Blk *b; };
static std::map<addr_t, FRange> g_F;              // protected freed memory
static size_t g_sumF;
static size_t g_table_len;
static bool g_had_oom;
static size_t g_limit;                            // absolute limit on mapped bytes, 0 none
static int g_hkind;                               // installed new-handler
static addr_t g_shared_null;
static std::map<int, std::pair<addr_t, size_t>> g_fm;
static size_t g_init_rw_pages;
static size_t g_live_bytes, g_live_peak;
static size_t g_F_peak;
static size_t g_live_n_peak, g_live_n;

std::string strf(const char *fmt, ...) {
  char b[1200];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
void probe(int p) { G.res->probes[p]++; }

// ------------------------------------------------------------------ verdicts
[[noreturn]] void finish_run() {
  G.res->steps = G.steps;
  G.res->hash = G.hash;
  G.res->sig = G.sig;
  G.res->done = 1;
  _exit(0);
}
static void set_verdict(int v, const char *cls, uint32_t props, const char *msg) {
  Result *r = G.res;
  if (r->verdict) return;
  r->verdict = v;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  r->props = props;
  snprintf(r->msg, sizeof r->msg, "%s", msg);
}
static bool concerns(uint32_t props) { return G.plan->prop == 0 || (props & P(G.plan->prop)); }
[[noreturn]] void violate(const char *cls, uint32_t props, const char *fmt, ...) {
  char b[MSGLEN];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_verbose) fprintf(stderr, "VIOLATION %s: %s\n", cls, b);
  set_verdict(concerns(props) ? 1 : 3, cls, props, b);
  finish_run();
}
void soft(const char *cls, uint32_t props, const char *fmt, ...) {
  char b[MSGLEN];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_verbose) fprintf(stderr, "%s %s: %s\n", concerns(props) ? "VIOLATION" : "(other property)", cls, b);
  if (concerns(props)) {
    set_verdict(1, cls, props, b);
    finish_run();
  }
  G.res->probes[NPROBES - 1]++;       // deviations that concern other properties
}
[[noreturn]] void harness_error(const char *fmt, ...) {
  char b[MSGLEN];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_verbose) fprintf(stderr, "HARNESS ERROR: %s\n", b);
  set_verdict(2, "harness", 0, b);
  finish_run();
}

// ------------------------------------------------------------------ configuration
static const char *envget(const std::vector<std::string> &e, const char *n) {
  size_t l = strlen(n);
  for (auto &s : e)
    if (s.size() > l && !s.compare(0, l, n) && s[l] == '=') return s.c_str() + l + 1;
  return nullptr;
}
static void read_cfg(const Plan &p) {
  Cfg c;
  c.align = cli_min_align();
  const char *s;
  auto get = [&](const char *n) { s = envget(p.env, n); if (s) c.set.insert(n); return s; };
  if (get("DUMA_ALIGNMENT")) { c.align = atoi(s); if (!c.align) c.align = 1; }
  if (get("DUMA_PROTECT_BELOW")) c.below = atoi(s) != 0;
  if (get("DUMA_REPORT_ALL_LEAKS")) c.report_all = atoi(s) != 0;
  if (get("DUMA_PROTECT_FREE")) c.pf = atol(s);
  if (get("DUMA_MAX_ALLOC")) c.maxa = atol(s);
  if (get("DUMA_MALLOC_0_STRATEGY") || get("MALLOC_0_STRATEGY")) { int t = atoi(s); if (t >= 0 && t <= 3) c.m0 = t; }
  if (get("DUMA_NEW_0_STRATEGY") || get("NEW_0_STRATEGY")) { int t = atoi(s); if (t >= 2 && t <= 3) c.n0 = t; }
  if (get("DUMA_MALLOC_FAILEXIT")) c.failexit = atoi(s) != 0;
  if (get("DUMA_FREE_ACCESS")) c.freeacc = atoi(s) != 0;
  if (get("DUMA_FILL")) { c.fill = atoi(s); if (c.fill != -1) c.fill &= 255; }
  if (get("DUMA_SLACKFILL")) c.slack = atoi(s) & 255;
  if (get("DUMA_SHOW_ALLOC")) c.show = atoi(s) != 0;
  if (get("DUMA_OUTPUT_STDOUT")) c.out1 = atoi(s) != 0;
  if (get("DUMA_OUTPUT_STDERR")) c.out2 = atoi(s) != 0;
  if (get("DUMA_OUTPUT_FILE")) { c.file = s; c.has_strdup_env = true; }
  if (get("DUMA_OUTPUT_STACKTRACE_MAPFILE")) c.has_strdup_env = true;
  if (get("DUMA_CHECK_FREQ")) { int t = atoi(s); if (t > 0) c.freq = t; }
  if (get("DUMA_DISABLE_BANNER")) c.nobanner = atoi(s) != 0;
  if (get("DUMA_SUPPRESS_ATEXIT")) c.noexit = atoi(s) != 0;
  if (get("DUMA_MEMCPY_OVERLAP")) c.overlap = atoi(s) != 0;
  cfg = cfg0 = c;
  g_outfile = c.file;
}
// mask of oracles that depend on a setting: start-up is responsible for it as well
static uint32_t conf(const char *n) { return cfg0.set.count(n) ? P(16) : 0; }

// ------------------------------------------------------------------ contents
static inline unsigned char patb(uint64_t pat, size_t i) {
  uint64_t z = (pat + i / 8) * 0x9E3779B97F4A7C15ull;
  z ^= z >> 29;
  return (unsigned char)(z >> ((i & 7) * 8));
}
template <class F> static void each_idx(size_t n, F f) {
  if (n <= 16384) { for (size_t i = 0; i < n; ++i) f(i); return; }
  for (size_t i = 0; i < 2048; ++i) f(i);
  size_t st = n > (4ul << 20) ? pgup(n / 61) + 1 : 4093;
  for (size_t i = 2048; i < n - 2048; i += st) f(i);
  for (size_t i = n - 2048; i < n; ++i) f(i);
}
static const size_t FULL_FILL = 4ul << 20;   // larger blocks are filled at sampled offsets only
static void fill_pat(Blk *b) {
  if (b->zero || b->shared) return;
  unsigned char *u = (unsigned char *)b->p;
  if (b->size <= FULL_FILL) {
    size_t i = 0;
    for (; i + 8 <= b->size; i += 8) {
      uint64_t z = (b->pat + i / 8) * 0x9E3779B97F4A7C15ull;
      z ^= z >> 29;
      memcpy(u + i, &z, 8);
    }
    for (; i < b->size; ++i) u[i] = patb(b->pat, i);
  } else
    each_idx(b->size, [&](size_t i) { u[i] = patb(b->pat, i); });
  if (b->node && b->nskip == 32) {
    addr_t *w = (addr_t *)b->p;
    if (b->fam == FAM_NEWA) *w++ = 1;      // the element count in front of the array
    w[0] = b->nchild ? b->nchild + (b->nkind ? 8 : 0) : 0;
    w[1] = b->nextra;
    w[2] = b->nkind;
  }
  b->patset = true;
}
static void check_pat(Blk *b, uint32_t mask, const char *when) {
  if (b->zero || b->shared || !b->patset) return;
  if (!vm_range_is(b->rlo, b->rhi, 3, OWN_DUMA))
    violate("live-inaccessible", mask, "%s: live block %lx (%zu bytes, op %u) is not accessible", when, b->p, b->size, b->aop);
  unsigned char *u = (unsigned char *)b->p;
  each_idx(b->size, [&](size_t i) {
    if (b->node && i < b->nskip) return;
    if (u[i] != patb(b->pat, i))
      violate("live-altered", mask, "%s: live block %lx (%zu bytes, op %u) was altered at offset %zu: %02x instead of %02x", when, b->p, b->size,
              b->aop, i, u[i], patb(b->pat, i));
  });
}
static void check_guard(Blk *b, const char *when) {
  if (b->shared) return;
  if (b->zero) {
    if (!vm_range_is(b->rlo, b->rhi, 0, OWN_DUMA))
      violate("zero-accessible", P(17) | P(1), "%s: address %lx of a zero-size block (op %u) is not an inaccessible page of the tool", when, b->p, b->aop);
    return;
  }
  if (!vm_range_is(b->glo, b->ghi, 0, OWN_DUMA))
    violate("guard-accessible", P(1), "%s: page %lx beside block %lx (%zu bytes, op %u, protect-%s) is not an inaccessible page of the tool", when, b->glo,
            b->p, b->size, b->aop, b->below ? "below" : "above");
}

// ------------------------------------------------------------------ geometry
static long def_align(size_t size) {
  long a = cfg.align;
  if (a < 1) a = 1;
  if (size < (size_t)a && size) { a = 1; while ((size_t)a * 2 <= size) a *= 2; }
  return a;
}
static size_t foot(size_t size, size_t align) {
  if (!size) return PG;
  size_t f = pgup(size) + PG;
  if (align > PG) f += align - PG;
  return f;
}
static void geometry(Blk *b) {
  size_t extra = b->align > PG ? b->align - PG : 0;
  if (b->zero) {
    b->rlo = b->alo = b->flo = b->glo = pgdn(b->p);
    b->rhi = b->ahi = b->fhi = b->ghi = b->rlo + PG;
  } else {
    b->rlo = pgdn(b->p);
    b->rhi = pgup(b->p + b->size);
    if (b->below) { b->glo = b->rlo - PG; b->ghi = b->rlo; b->flo = b->glo; b->fhi = b->rhi; b->alo = b->rlo; b->ahi = b->rhi + extra; }
    else { b->glo = b->rhi; b->ghi = b->rhi + PG; b->flo = b->rlo; b->fhi = b->ghi; b->alo = b->rlo - extra; b->ahi = b->rhi; }
  }
  b->fp = foot(b->zero ? 0 : b->size, b->align);
}
static bool isect(addr_t a, addr_t b, addr_t c, addr_t d) { return a < d && c < b; }

static void live_add(Blk *b) {
  g_live.push_back(b);
  g_live_bytes += b->fp;
  g_live_n++;
  g_live_peak = std::max(g_live_peak, g_live_bytes);
  g_live_n_peak = std::max(g_live_n_peak, g_live_n);
}
static void live_del(Blk *b) {
  for (size_t i = 0; i < g_live.size(); ++i)
    if (g_live[i] == b) {
      g_live[i] = g_live.back();
      g_live.pop_back();
      g_live_bytes -= b->fp;
      g_live_n--;
      return;
    }
}
static void F_add(addr_t lo, addr_t hi, Blk *b) {
  // only what is not in there yet
  while (lo < hi) {
    auto it = g_F.upper_bound(lo);
    if (it != g_F.begin()) {
      auto pr = std::prev(it);
      if (pr->second.hi > lo) { lo = pr->second.hi; continue; }
    }
    addr_t e = it == g_F.end() ? hi : std::min(hi, it->first);
    if (e > lo) { g_F[lo] = {e, b}; g_sumF += e - lo; }
    lo = e;
  }
  g_F_peak = std::max(g_F_peak, g_sumF);
}
static size_t F_del(addr_t lo, addr_t hi) {
  size_t n = 0;
  auto it = g_F.lower_bound(lo);
  if (it != g_F.begin() && std::prev(it)->second.hi > lo) --it;
  while (it != g_F.end() && it->first < hi) {
    addr_t a = it->first, e = it->second.hi;
    Blk *b = it->second.b;
    it = g_F.erase(it);
    addr_t x = std::max(a, lo), y = std::min(e, hi);
    n += y - x;
    g_sumF -= e - a;
    if (a < x) { g_F[a] = {x, b}; g_sumF += x - a; }
    if (y < e) { it = g_F.insert({y, {e, b}}).first; g_sumF += e - y; ++it; }
  }
  return n;
}
static Blk *F_at(addr_t a, addr_t hi) {
  auto it = g_F.lower_bound(a);
  if (it != g_F.begin() && std::prev(it)->second.hi > a) return std::prev(it)->second.b;
  if (it != g_F.end() && it->first < hi) return it->second.b;
  return nullptr;
}
static bool in_F(addr_t lo, addr_t hi) {     // completely
  while (lo < hi) {
    auto it = g_F.upper_bound(lo);
    if (it == g_F.begin()) return false;
    --it;
    if (it->second.hi <= lo) return false;
    lo = it->second.hi;
  }
  return true;
}

// ------------------------------------------------------------------ kernel events
static bool mine(Blk *b) { return b->state == BS_RELEASING && (b->owner == me->id || b->owner == -2); }
static void close_part(Blk *b, addr_t lo, addr_t hi) {
  std::vector<Rg> n;
  for (auto &r : b->open) {
    if (!isect(r.first, r.second, lo, hi)) { n.push_back(r); continue; }
    if (r.first < lo) n.push_back({r.first, lo});
    if (hi < r.second) n.push_back({hi, r.second});
  }
  b->open.swap(n);
  b->saw_close = true;
  if (b->open.empty()) {
    live_del(b);
    if (me) me->op_released = 0;
  }
}
static size_t releasing_fp() {
  size_t m = 0;
  for (Blk *b : cx(me).rels)
    if (b->state == BS_RELEASING && !b->open.empty()) m = std::max(m, b->fp);
  return m;
}
// protected freed memory is given back: is there a reason?
static void given_back(addr_t lo, addr_t hi, bool failed) {
  Thr *t = me;
  Ctx &c = cx(t);
  Blk *fb = F_at(lo, hi);
  if (!fb) return;
  // after a refused mapping: as much as the system was asked for, before it is asked again
  bool ok = (t->op_mmap_failed && t->given_since_refused < std::max<size_t>(1 << 20, t->refused_len)) || c.unrep || !G.inited;
  size_t maxb = cfg0.maxa > 0 ? (size_t)cfg0.maxa * 1024 : 0;
  size_t want = std::max<size_t>(1 << 20, t->op_req);
  if (!ok && maxb && t->op_is_alloc && vm_total(OWN_DUMA) + t->op_released + want > maxb && t->op_released < want) { ok = true; probe(PR_MAXALLOC_REDUCE); }
  size_t N = cfg0.pf > 0 ? (size_t)cfg0.pf * 1024 : 0;
  if (!ok && N) {
    size_t I = releasing_fp();
    if (I && (t->op_released ? t->op_released < I : g_sumF + I > N)) { ok = true; probe(PR_BUDGET_FULL); }
  }
  if (!ok)
    violate("given-back-early", P(4) | P(3),
            "protected freed memory %lx..%lx (of block %lx, op %u) is given back by op %u without need: protected %zu, limit %ld kB, mapped %zu, MAX_ALLOC %ld kB, "
            "given back already %zu", lo, hi, fb->p, fb->aop, t->op_id, g_sumF, cfg0.pf, vm_total(OWN_DUMA), cfg0.maxa, t->op_released);
  size_t gone = F_del(lo, hi);
  t->op_released += gone;
  t->given_since_refused += gone;
  if (gone) probe(F_at(fb->flo, fb->fhi) == fb ? PR_BEGIN_PROT : PR_REDUCED);
  (void)failed;
}

void model_vm_event(int what, addr_t lo, addr_t hi, int prot) {
  Thr *t = me;
  if (!t || !t->ctx) return;
  Ctx &c = cx(t);
  if (what == 0) {
    t->call_maps.push_back({lo, hi});
    t->op_released = 0;
    return;
  }
  // the first range a call opens is the tool's own book-keeping
  if (what == 2 && prot && !t->op_opened && G.inited) {
    t->op_opened = true;
    t->tab_lo = lo; t->tab_hi = hi;
  }
  std::vector<Blk *> hit;
  for (Blk *b : g_live)
    if (isect(std::min(b->rlo, b->glo), std::max(b->rhi, b->ghi), lo, hi)) hit.push_back(b);
  if (what == 2 && prot == 0) {
    for (Blk *b : hit) {
      if (!isect(b->rlo, b->rhi, lo, hi) || b->zero) {
        if (b->zero && mine(b)) { if (cfg0.pf != 0 && !b->unmap_failed) F_add(lo, hi, b); close_part(b, lo, hi); }
        continue;
      }
      if (b->state == BS_LIVE)
        violate("live-denied", P(2) | P(6), "access to live block %lx (%zu bytes, op %u) is denied by thread %d (op %u)", b->p, b->size, b->aop, t->id, t->op_id);
      if (!mine(b)) {
        bool open = false;
        for (auto &r : b->open) open |= isect(r.first, r.second, lo, hi);
        if (open) violate("released-by-other", P(2) | P(3), "block %lx, which thread %d is releasing, is closed by thread %d (op %u)", b->p, b->owner, t->id, t->op_id);
        continue;
      }
      if (cfg0.pf != 0 && !b->unmap_failed) {
        F_add(std::min(lo, b->flo), std::max(hi, b->fhi), b);
        b->prot = true;
        if (cfg0.pf > 0) probe(PR_PF_N_PROTECT);
      }
      close_part(b, lo, hi);
    }
    // the tool's self test at start-up: a block is released before the program runs
    if (!G.inited && hit.empty() && cfg0.pf != 0 && hi - lo >= 2 * PG) {
      const Vma *a = vm_at(lo), *z = vm_at(hi - 1);
      bool above = a && z && a->prot && !z->prot && z->lo == hi - PG, below = a && z && !a->prot && z->prot && a->hi == lo + PG;
      if (above || below) {
        Blk *b = new Blk;
        b->p = lo; b->size = 0; b->state = BS_FREED;
        F_add(lo, hi, b);
      }
    }
    return;
  }
  if (what == 2) {
    for (Blk *b : hit) {
      if (b->state != BS_LIVE) continue;
      if (b->zero) { violate("zero-opened", P(17) | P(11), "the page of zero-size block %lx (op %u) becomes accessible in op %u", b->p, b->aop, t->op_id); }
      if (isect(b->glo, b->ghi, lo, hi))
        violate("guard-opened", P(1) | P(11), "the guard page %lx of live block %lx (%zu bytes, op %u) becomes accessible in op %u", b->glo, b->p, b->size, b->aop, t->op_id);
    }
    Blk *f = F_at(lo, hi);
    if (f) violate("freed-opened", P(3) | P(11), "protected freed memory of block %lx (op %u) becomes accessible again in op %u", f->p, f->aop, t->op_id);
    return;
  }
  // unmapped, or an attempt to unmap that failed
  for (Blk *b : hit) {
    if (b->state == BS_LIVE) {
      if (isect(b->rlo, b->rhi, lo, hi))
        violate("live-unmapped", b->zero ? P(17) | P(3) : P(2) | P(6), "live block %lx (%zu bytes, op %u) is unmapped by thread %d (op %u)", b->p, b->size, b->aop, t->id, t->op_id);
      violate("guard-unmapped", P(1), "the guard page %lx of live block %lx (%zu bytes, op %u) is unmapped in op %u", b->glo, b->p, b->size, b->aop, t->op_id);
    }
    if (!mine(b)) {
      bool open = false;
      for (auto &r : b->open) open |= isect(r.first, r.second, lo, hi);
      if (open) violate("released-by-other", P(2) | P(3), "block %lx, which thread %d is releasing, is unmapped by thread %d (op %u)", b->p, b->owner, t->id, t->op_id);
      continue;
    }
    size_t I = b->fp;
    size_t N = cfg0.pf > 0 ? (size_t)cfg0.pf * 1024 : 0;
    if (what == 1 && isect(b->glo, b->ghi, lo, hi)) b->gclosed = true;
    if (isect(b->rlo, b->rhi, lo, hi)) {
      if (cfg0.pf < 0 && !t->op_mmap_failed)
        violate("not-protected", P(3) | P(4) | conf("DUMA_PROTECT_FREE"), "released block %lx (%zu bytes, op %u) is unmapped by op %u instead of being protected", b->p, b->size, b->aop, t->op_id);
      size_t S = g_sumF;
      if (N && !t->op_mmap_failed && (S + I <= N || (c.simple_free && I < N && S + t->op_released >= I && !(hi - lo > I && S + (hi - lo) > N))))
        violate("not-protected", P(3) | P(4) | conf("DUMA_PROTECT_FREE"),
                "released block %lx (%zu bytes, footprint %zu, op %u) is unmapped by op %u instead of being protected: %zu of %zu bytes are protected, %zu given back", b->p,
                b->size, I, b->aop, t->op_id, S, N, t->op_released);
      if (what == 3) { b->unmap_failed = true; continue; }
      close_part(b, lo, hi);
    }
  }
  given_back(lo, hi, what == 3);
}
void model_chunk(addr_t, size_t len, bool) {
  Thr *t = me;
  if (!t || !t->ctx || !G.inited) return;
  if (vm_total(OWN_DUMA) > 0 && len >= (1 << 20)) probe(PR_CHUNK_NEW);
  if (cfg0.maxa > 0) {
    size_t m = (size_t)cfg0.maxa * 1024;
    if (vm_total(OWN_DUMA) + len > m + (1 << 20) + 16384 + g_munmap_failed_bytes && g_sumF && t->op_released < len)
      violate("max-exceeded", P(4) | conf("DUMA_MAX_ALLOC"),
              "op %u maps %zu bytes more (mapped %zu, MAX_ALLOC %ld kB) while %zu bytes of freed memory stay protected and only %zu were given back", t->op_id, len,
              vm_total(OWN_DUMA), cfg0.maxa, g_sumF, t->op_released);
  }
}
void model_mmap_failed(size_t len) {
  Thr *t = me;
  if (!t || !t->ctx) return;
  t->op_mmap_failed = true;
  t->prot_at_fail = g_sumF;
  t->refused_len = len; t->given_since_refused = 0;
}
size_t model_aslimit() { return g_limit; }
void model_write_hook(addr_t a, size_t n) {
  Thr *t = me;
  if (!t->ctx || !t->in_call) return;
  Ctx &c = cx(t);
  if (a >= c.wlo && a + n <= c.whi) return;
  static addr_t lastlo[2];
  (void)lastlo;
  for (Blk *b : g_live) {
    if (b->zero || !isect(b->rlo, b->rhi, a, a + n)) continue;
    if (b->state == BS_RELEASING && mine(b)) continue;
    if (b->state == BS_RELEASING) continue;
    if (isect(b->p, b->p + b->size, a, a + n)) {
      // deleting a node: the destructor itself writes its fields
      if (b->node && c.op && c.op->kind == OP_NESTDEL) continue;
      violate("live-written", P(2), "thread %d (op %u) writes %zu bytes at %lx inside live block %lx (%zu bytes, op %u)", t->id, t->op_id, n, a, b->p, b->size, b->aop);
    }
    if (b->state == BS_LIVE && !b->corrupted && isect(b->alo, b->ahi, a, a + n) && n <= 16) {
      // padding must keep the fill value; another value would be a false report later
    }
  }
  const Vma *v = vm_at(a);
  if (v && v->own == OWN_FOREIGN) violate("foreign-write", P(20), "thread %d (op %u) writes to memory of the program at %lx", t->id, t->op_id, a);
}

// ------------------------------------------------------------------ calls
static bool anyone_in_call() {
  for (Thr *x : G.thr) if (x->in_call) return true;
  return false;
}
static void call_begin(Op *o) {
  Thr *t = me;
  Ctx &c = cx(t);
  Ctx n;
  n.op = o;
  n.site = op_site(*o);
  n.seq0 = ++g_seq;
  n.S0 = g_sumF;
  n.handlers = 1u << g_hkind;
  c = n;
  t->op_mmap_failed = t->op_mprotect_failed = false;
  t->op_opened = false;
  t->op_released = 0; t->op_mmaps = 0; t->op_handler_calls = 0;
  t->refused_len = t->given_since_refused = 0;
  t->watch = 0; t->watch_hit = false; t->op_req = 0; t->op_is_alloc = t->op_is_free = false;
  t->call_steps = 0; t->loop_steps = 0; t->prot_at_fail = 0; t->call_maps.clear();
  t->in_call = true;
}
static void access_check() {
  std::vector<Rg> al;
  for (Blk *b : g_live)
    if (!b->zero) al.push_back({b->alo, b->ahi});
  std::sort(al.begin(), al.end());
  size_t extra = 0;
  size_t i = 0;
  for (auto &v : g_vma) {
    if (v.own != OWN_DUMA || !v.prot) continue;
    addr_t x = v.lo;
    while (x < v.hi) {
      while (i < al.size() && al[i].second <= x) ++i;
      if (i < al.size() && al[i].first <= x) { x = al[i].second; continue; }
      addr_t e = i < al.size() ? std::min(v.hi, al[i].first) : v.hi;
      extra += (e - x) / PG;
      if (extra > g_init_rw_pages) {
        soft("left-accessible", P(11), "after op %u no call is in progress but %lx..%lx is accessible and belongs to no live block", me->op_id, x, e);
        return;
      }
      x = e;
    }
  }
}
static void quiet_check() {
  if (anyone_in_call()) return;
  if (any_lock_held()) violate("lock-held", P(12) | (me->op_mmap_failed ? P(5) : 0), "a lock is held while no thread is inside a call (after op %u)", me->op_id);
  int k = cli_handler_index(rt_handler());
  if (k != g_hkind) violate("handler-changed", P(14), "the program's new-handler (kind %d) was replaced by %s", g_hkind, k < 0 ? "another function" : strf("kind %d", k).c_str());
  access_check();
  if (cfg0.pf > 0 && G.inited && g_sumF > (size_t)cfg0.pf * 1024)
    violate("budget-exceeded", P(4) | conf("DUMA_PROTECT_FREE"), "%zu bytes of freed memory are protected, the limit is %ld kB", g_sumF, cfg0.pf);
}
static void call_end() {
  Thr *t = me;
  if (t->dying) violate("alive-after-fatal", P(13) | cx(t).expmask, "op %u returned to the program after a fatal diagnosis", t->op_id);
  if (G.lock_owner == t->id) {
    Ctx &c = cx(t);
    t->in_call = false;
    if (concerns(P(11)) && !anyone_in_call()) access_check();
    violate("lock-leaked", P(12) | (c.hcalls ? P(14) : 0) | (t->op_mmap_failed ? P(5) : 0), "op %u returned with the lock held", t->op_id);
  }
  t->in_call = false;
  t->watch = 0;
  if (t->tab_hi) {
    // closed again and no block: the book-keeping
    addr_t lo = t->tab_lo, hi = t->tab_hi;
    t->tab_lo = t->tab_hi = 0;
    bool table = vm_range_is(lo, hi, 0, OWN_DUMA) && !F_at(lo, hi);
    for (Blk *b : g_live) if (isect(b->rlo, b->rhi, lo, hi)) table = false;
    if (table) {
      if (g_table_len && hi - lo > g_table_len) probe(PR_TABLE_GROWN);
      g_table_len = std::max(g_table_len, (size_t)(hi - lo));
    }
  }
  write_flush_check(t->id);
  for (int s = 0; s < 3; ++s)
    if (g_sink_bad[s]) {
      g_sink_bad[s] = false;
      g_sink_lost[s] = true;
      soft("output-torn", P(18) | P(10) | P(13), "output on descriptor kind %d was dropped or torn by an interrupted or partial write (op %u)", s, t->op_id);
    }
  if (G.dead) return;
  if (t->id == G.cur && !g_limit) {}
}
static void expect_death_missing() {
  Ctx &c = cx(me);
  if (!(c.expect & EX_DIE)) return;
  if (c.expmask & P(8))
    violate("overwrite-missed", P(8) | conf("DUMA_SLACKFILL"), "op %u returned although the padding of block %lx (op %u) was overwritten", me->op_id, c.target ? c.target->p : 0, c.target ? c.target->aop : 0);
  if (c.expmask & P(17)) violate("zero-not-stopped", c.expmask, "a zero-size request (op %u) returned although the selected strategy is to stop", me->op_id);
  violate("misuse-missed", c.expmask, "op %u (%s, address %lx) returned without a diagnosis", me->op_id, opname[c.op->kind], c.taddr);
}

// periodic check accounting
static void counted_calls(uint64_t begun, int n) {
  if (!cfg0.freq) return;
  for (Blk *b : g_live)
    if (b->corrupted && b->state == BS_LIVE && b->cseq < begun) {
      b->freq_left -= n;
      if (b->freq_left <= 0)
        violate("overwrite-missed", P(8) | conf("DUMA_CHECK_FREQ"), "the padding of block %lx (op %u) was overwritten, %d counted calls later it is still not detected", b->p, b->aop, cfg0.freq);
    }
}

// a source file name of the length the plan wants
const char *long_name() {
  static std::string s;
  size_t n = (size_t)G.plan->longname;
  if (s.size() != n) {
    s = std::string(n > 12 ? n - 12 : 0, 'q') + "/epsilon.cpp";
    for (size_t i = 40; i + 20 < s.size(); i += 41) s[i] = '/';
  }
  return s.c_str();
}
bool names_cut() { return G.plan->longname > 1750; }
const char *op_file(const Op &o) {
  static const char *f[] = {"alpha.c", "beta.cc", "dir/gamma.c", "delta.cpp"};
  if (G.plan->longname && o.id % 3 == 0) return long_name();
  return f[o.id % 4];
}
static int op_line(const Op &o) { return o.id >= 5 && o.id < 9 ? 1 : o.id >= 13 && o.id < 17 ? 2000000 + (int)o.id : 100 + (int)o.id; }
std::string op_site(const Op &o) { return cli_nolead() ? "?(0)" : strf("%s(%d)", op_file(o), op_line(o)); }
static std::string macro_site(int what) { return cli_nolead() ? "?(0)" : strf("%s(%d)", cli_macro_file(what), cli_macro_line(what)); }

struct AReq {
  int ak; int form; size_t a, b;
  size_t size = 0; size_t align = 1; int fam = 0; const char *tname = ""; std::string site; int fill = 0; bool cpp = false, nothrow = false, unrep = false;
  bool member = false;
  const char *str = nullptr;
};
static const char *tnames[AK_N] = {"malloc()", "calloc()", "memalign()", "posix_memalign()", "valloc()", "strdup()", "realloc()", "scalar new", "scalar new",
                                   "vector new[]", "vector new[]", "member scalar new", "member vector new[]"};
static bool too_big(size_t s) { return s > (1ul << 46); }
static void mkreq(AReq &r, Op &o, int ak, int form, size_t a, size_t b, const std::string &own_site) {
  r.ak = ak; r.form = form; r.a = a; r.b = b;
  r.cpp = ak >= AK_NEW;
  r.member = ak >= AK_MEMB;
  r.nothrow = ak == AK_NEW_NT || ak == AK_NEWA_NT;
  r.fam = ak <= AK_REALLOC ? FAM_C : ak <= AK_NEW_NT ? FAM_NEW : ak <= AK_NEWA_NT ? FAM_NEWA : ak == AK_MEMB ? FAM_MEMB : FAM_MEMBA;
  r.tname = tnames[ak];
  r.size = b;
  r.fill = cfg.fill;
  if (ak == AK_CALLOC) {
    size_t m;
    if (__builtin_mul_overflow(a, b, &m)) { r.unrep = true; r.size = (size_t)a * b; } else r.size = m;
    r.fill = 0;
  }
  if (form == FORM_MACRO && (ak == AK_NEW_NT || ak == AK_NEWA_NT || ak >= AK_MEMB)) form = r.form = FORM_DIRECT;
  if (form == FORM_PLAIN && ak >= AK_MEMB) form = r.form = FORM_DIRECT;
  if (form == FORM_MACRO && ak == AK_NEW) r.size = 48;
  if (ak == AK_STRDUP) { r.size = b + 1; r.fill = -1; }
  if (too_big(r.size)) r.unrep = true;
  long d = def_align(r.size);
  r.align = ak == AK_MEMALIGN || ak == AK_PMEMALIGN ? a : ak == AK_VALLOC ? PG : (size_t)d;
  if (r.align > (1ul << 40) && r.size) r.unrep = true;
  static const int ml[AK_N] = {ML_MALLOC, ML_CALLOC, ML_MEMALIGN, ML_PMEMALIGN, ML_VALLOC, ML_STRDUP, ML_REALLOC, ML_NEW, ML_NEW_NT, ML_NEWA, ML_NEWA_NT, 0, 0};
  r.site = form == FORM_PLAIN ? "?(0)" : form == FORM_MACRO ? macro_site(ml[ak]) : own_site;
  (void)o;
}
// the block returned by an allocation call is registered and checked
static Blk *new_block(int h, const AReq &r, addr_t p, Blk *old, size_t oldn) {
  Thr *t = me;
  Blk *b = new Blk;
  b->h = h; b->p = p; b->size = r.size; b->align = r.align; b->fam = r.fam; b->tname = r.tname;
  b->below = cfg.below; b->site = r.site; b->known = r.site != "?(0)"; b->aop = t->op_id;
  b->born0 = cx(t).seq0;
  b->pat = mix(G.plan->seed ^ 0xb10c, mix(t->op_id, h + g_all.size()));
  b->zero = r.size == 0;
  int strat = r.cpp ? cfg0.n0 : cfg0.m0;
  g_all.push_back(b);
  if (h >= 0) g_h[h] = b;
  if (b->zero && strat == 2) {
    b->shared = true;
    probe(PR_ZERO_SHARED);
    if (!g_shared_null) g_shared_null = p;
    if (p != g_shared_null) violate("zero-not-shared", P(17) | P(16), "zero-size request (op %u) returned %lx, an earlier one %lx: strategy 2 is one shared address", t->op_id, p, g_shared_null);
    if (!vm_range_is(pgdn(p), pgdn(p) + PG, 0, OWN_DUMA)) violate("zero-accessible", P(17), "the shared zero-size address %lx is not an inaccessible page of the tool", p);
    for (Blk *x : g_live)
      if (isect(x->rlo, x->rhi, pgdn(p), pgdn(p) + PG)) violate("zero-inside", P(17), "the shared zero-size address %lx is inside block %lx", p, x->p);
    b->born = ++g_seq;
    return b;
  }
  geometry(b);
  if (b->zero) {
    probe(PR_ZERO_UNIQUE);
    if (p == g_shared_null) violate("zero-not-unique", P(17) | P(16), "zero-size request (op %u) returned the shared address %lx", t->op_id, p);
    if (!vm_range_is(b->rlo, b->rhi, 0, OWN_DUMA))
      violate("zero-accessible", P(17), "zero-size request (op %u) returned %lx, which is not in an inaccessible page of the tool", t->op_id, p);
  } else {
    if (p & (b->align - 1))
      violate("misaligned", P(9) | conf("DUMA_ALIGNMENT"), "op %u (%zu bytes) returned %lx, which is not aligned to %zu", t->op_id, b->size, p, b->align);
    if (!vm_range_is(b->rlo, b->rhi, 3, OWN_DUMA))
      violate("not-accessible", P(2) | P(6), "op %u returned %lx (%zu bytes), which is not completely accessible memory of the tool", t->op_id, p, b->size);
    if (b->below) {
      probe(PR_BELOW);
      if (p & (PG - 1)) violate("guard-distance", P(1) | P(16), "protect-below: op %u returned %lx, which is not at the start of a page", t->op_id, p);
    } else if (b->rhi - (p + b->size) >= b->align)
      violate("guard-distance", P(1) | P(16), "op %u: %lu accessible bytes follow block %lx (%zu bytes, alignment %zu)", t->op_id, b->rhi - (p + b->size), p, b->size, b->align);
    if (!vm_range_is(b->glo, b->ghi, 0, OWN_DUMA))
      violate("no-guard", P(1) | (cfg0.set.count("DUMA_PROTECT_BELOW") ? P(16) : 0), "op %u returned %lx (%zu bytes): the page %lx %s it is not an inaccessible page of the tool", t->op_id, p, b->size, b->glo,
              b->below ? "before" : "after");
    if (b->align > PG) probe(PR_ALIGN_GT_PAGE);
    if (b->size > (1ul << 31)) probe(PR_BIG);
  }
  for (Blk *x : g_live) {
    if (x == b) continue;
    if (isect(b->rlo, b->rhi, x->rlo, x->rhi))
      violate("overlap", P(2) | (b->zero || x->zero ? P(17) : 0), "op %u returned %lx (%zu bytes), which overlaps block %lx (%zu bytes, op %u)", t->op_id, p, b->size, x->p, x->size, x->aop);
    if (!b->zero && !x->zero && (isect(b->rlo, b->rhi, x->glo, x->ghi) || isect(b->glo, b->ghi, x->rlo, x->rhi)))
      violate("guard-overlap", P(1) | P(2), "op %u returned %lx (%zu bytes), which overlaps the guard page of block %lx (%zu bytes) or vice versa", t->op_id, p, b->size, x->p, x->size);
  }
  if (Blk *f = F_at(b->rlo, b->rhi))
    violate("reissued", P(3) | (b->zero ? P(17) : 0), "op %u returned %lx (%zu bytes), which is protected freed memory of block %lx (op %u)", t->op_id, p, b->size, f->p, f->aop);
  if (!b->zero) {
    unsigned char *u = (unsigned char *)p;
    if (old && old->shared) {
      // nothing is promised beyond the old size, which is zero
    } else if (old) {
      size_t k = std::min(oldn, b->size);
      uint64_t pt = old->pat;
      bool node = old->node;
      auto cmp = [&](size_t i) {
        if (i < k ? (u[i] != patb(pt, i) && old->patset && !(node && i < old->nskip)) : u[i] != 0)
          violate("resize-contents", P(9) | P(2), "resize (op %u) from %zu to %zu bytes: byte %zu is %02x instead of %02x", t->op_id, oldn, b->size, i, u[i], i < k ? patb(pt, i) : 0);
      };
      bool full = oldn <= FULL_FILL;
      each_idx(b->size, [&](size_t i) { if (full || i >= k) cmp(i); });
      if (!full) each_idx(oldn, [&](size_t i) { if (i < k) cmp(i); });
      // exactly at the border
      for (size_t i = k > 64 ? k - 64 : 0; i < std::min(b->size, k + 64); ++i)
        if (i < k ? (old->patset && oldn <= FULL_FILL && u[i] != patb(pt, i) && !(node && i < old->nskip)) : u[i] != 0)
          violate("resize-contents", P(9) | P(2), "resize (op %u) from %zu to %zu bytes: byte %zu is %02x", t->op_id, oldn, b->size, i, u[i]);
    } else if (r.ak == AK_STRDUP && r.str) {
      if (memcmp(u, r.str, b->size)) violate("strdup-contents", P(9), "op %u: the duplicated string differs", t->op_id);
    } else if (r.fill >= 0) {
      bool abbr = b->size > (64ul << 20);   // see sim_memset
      each_idx(b->size, [&](size_t i) {
        if (abbr && i >= (1ul << 20) && i < b->size - (1ul << 20)) return;
        if (u[i] != r.fill)
          violate("fill-contents", P(9) | (r.ak == AK_CALLOC ? 0 : P(16)), "op %u (%s, %zu bytes): byte %zu is %02x instead of %02x", t->op_id, r.tname, b->size, i, u[i], r.fill);
      });
    }
    unsigned char sf = (unsigned char)cfg0.slack;
    for (addr_t a = b->rlo; a < b->rhi; ++a) {
      if (a == p) a = p + b->size;
      if (a >= b->rhi) break;
      if (*(unsigned char *)a != sf)
        violate("slack-fill", P(8) | conf("DUMA_SLACKFILL"), "op %u returned %lx (%zu bytes): the padding at %lx holds %02x instead of %02x", t->op_id, p, b->size, a, *(unsigned char *)a, sf);
    }
  }
  b->born = ++g_seq;
  live_add(b);
  fill_pat(b);
  return b;
}
static void begin_release(Blk *b, const std::string &fsite) {
  Thr *t = me;
  if (b->shared) { b->rel = ++g_seq; return; }
  check_pat(b, P(2), "at release");
  check_guard(b, "at release");
  b->state = BS_RELEASING;
  b->owner = t->id;
  b->rel = ++g_seq;
  b->fsite = fsite;
  b->open.clear();
  b->open.push_back({b->rlo, b->rhi});
  cx(t).rels.push_back(b);
}
static void finish_release(Blk *b, bool traced = true) {
  if (b->shared) { b->state = BS_FREED; b->dead = ++g_seq; return; }
  if (b->zero && !b->open.empty()) {
    if (vm_any_access(b->rlo, b->rhi)) violate("zero-accessible", P(17) | P(3), "the page of released zero-size block %lx is accessible", b->p);
    live_del(b);
  } else if (!b->open.empty()) {
    violate("not-closed", P(3) | P(11), "op %u released block %lx (%zu bytes), but %lx..%lx was neither protected nor returned to the system", me->op_id, b->p, b->size,
            b->open[0].first, b->open[0].second);
  }
  // without protection nothing of a released block stays mapped
  if (cfg0.pf == 0 && G.inited && !b->zero && !b->gclosed && !b->unmap_failed && b->glo < b->ghi && vm_range_is(b->glo, b->ghi, 0, OWN_DUMA))
    soft("guard-kept", P(19), "op %u released block %lx (%zu bytes), but its guard page %lx stays mapped", me->op_id, b->p, b->size, b->glo);
  if (traced && cfg0.show) trace_expect(false, b->size, b->fsite, b->site, 1, 1);
  b->state = BS_FREED;
  b->dead = ++g_seq;
  b->owner = -1;
  if (g_h.count(b->h) && g_h[b->h] == b) {}
}
static void undo_release(Blk *b) {     // a failed resize
  if (b->shared) { b->rel = 0; return; }
  if (b->saw_close || b->open.size() != 1 || b->open[0] != Rg(b->rlo, b->rhi))
    violate("resize-damaged", P(5) | P(2), "a failed resize (op %u) closed part of the original block %lx", me->op_id, b->p);
  b->state = BS_LIVE;
  b->owner = -1;
  b->rel = 0;
  check_pat(b, P(2) | P(5), "after a failed resize");
}
static void finish_handler_frees(const std::vector<Blk *> &skip) {
  Ctx &c = cx(me);
  for (Blk *b : c.rels)
    if (b->state == BS_RELEASING && std::find(skip.begin(), skip.end(), b) == skip.end()) {
      finish_release(b);
      counted_calls(c.seq0, 1);
    }
}
static void alloc_setup(const AReq &r) {
  Thr *t = me;
  Ctx &c = cx(t);
  c.req_size = r.size; c.is_c = !r.cpp; c.cpp = r.cpp && !r.member; c.alloc_busy = true; c.unrep = r.unrep;
  c.req_tname = r.tname;
  c.site = r.site;
  c.in_alloc_kind = r.ak;
  t->op_is_alloc = true;
  t->op_req = r.unrep ? ~0ul : foot(r.size, r.align);
  if (!r.cpp && r.size == 0 && !r.unrep && cfg0.m0 == 0) { c.expect |= EX_DIE; c.expmask = P(17) | P(16); }
}
// the call has returned: is the result allowed?
// returns true if there is a block
static bool alloc_result(const AReq &r, const CRes &cr, bool via_posix) {
  Thr *t = me;
  Ctx &c = cx(t);
  c.alloc_busy = false;
  bool zero = r.size == 0 && !r.unrep;
  int strat = r.cpp ? cfg0.n0 : cfg0.m0;
  expect_death_missing();
  if (cr.exc == 2) violate("foreign-exception", P(14) | P(6), "op %u: an exception other than bad_alloc left the allocation", t->op_id);
  bool got = cr.exc == 0 && cr.p != nullptr;
  if (via_posix && cr.exc == 0) {
    if (cr.rc == 0 && !cr.p && !(zero && strat == 1)) violate("posix-null", P(5) | P(9), "posix_memalign (op %u) reports success but gives no block", t->op_id);
    if (cr.rc != 0 && cr.rc != ENOMEM) violate("posix-result", P(5), "posix_memalign (op %u) returns %d", t->op_id, cr.rc);
    if (cr.rc != 0 && cr.p) got = false;
  }
  if (zero && strat == 1 && !r.cpp) {
    if (got) violate("zero-not-null", P(17) | P(16), "a zero-size request (op %u) returned %lx, the selected strategy is null", t->op_id, (addr_t)cr.p);
    probe(PR_ZERO_NULL);
    if (cfg0.show) trace_expect(true, 0, r.site, "", 0, 1);
    return false;
  }
  if (cfg0.show) trace_expect(true, r.size, r.site, "", got ? 1 : 0, 1 + c.hcalls);
  if (got) {
    if (r.unrep) violate("unrepresentable", P(5) | P(9), "op %u: a request of %zu x %zu bytes, which cannot be represented, returned %lx", t->op_id, r.a, r.b, (addr_t)cr.p);
    if (c.hcalls) probe(PR_SPURIOUS_RETRY);
    if (g_had_oom && !t->op_mmap_failed) probe(PR_RECOVERED);
    return true;
  }
  // failure
  bool cppf = r.cpp && !r.member;
  if (r.unrep) probe(PR_OVERFLOW_REQ);
  bool reason = t->op_mmap_failed || r.unrep;
  if (t->op_mmap_failed) g_had_oom = true;
  if (cppf && c.hthrew) reason = true;
  if (!reason)
    violate("spurious-failure", P(5) | (cppf ? P(14) : 0), "op %u (%s, %zu bytes) failed although the system refused nothing", t->op_id, r.tname, r.size);
  if (cr.exc == 1) {
    probe(PR_BAD_ALLOC);
    if ((c.hthrew == 2) != (cr.sz != 0))
      violate("exception-replaced", P(14), "op %u: the exception that left operator new is %s the program's handler threw", t->op_id, cr.sz ? "of the kind" : "not the one");
    if (r.nothrow) violate("nothrow-threw", P(14), "the nothrow form (op %u) threw an exception", t->op_id);
    if (!cppf) violate("c-threw", P(14) | P(5), "op %u (%s) threw an exception", t->op_id, r.tname);
  } else {
    probe(PR_OOM_NULL);
    if (cppf && !r.nothrow) violate("throwing-null", P(14), "operator new (op %u, %zu bytes) returned null instead of throwing", t->op_id, r.size);
  }
  if (cppf && !(c.handlers & 1) && !c.hthrew && !(c.handlers & ~0x3fu))
    violate("handler-not-called", P(14), "op %u (%s, %zu bytes) failed although a new-handler is installed (%d calls)", t->op_id, r.tname, r.size, c.hcalls);
  if (!r.unrep && t->prot_at_fail && !c.hthrew)
    violate("failed-with-protected", P(5), "op %u (%s, %zu bytes) failed while %zu bytes of freed memory were still protected", t->op_id, r.tname, r.size, t->prot_at_fail);
  if (!r.cpp) {
    if (cfg0.failexit) violate("no-failexit", P(5) | P(16), "op %u (%s, %zu bytes) reported failure although exit-on-failure is selected", t->op_id, r.tname, r.size);
    if (via_posix) {
      if (cr.rc != ENOMEM) violate("posix-result", P(5), "posix_memalign (op %u) failed with %d instead of ENOMEM", t->op_id, cr.rc);
    } else if (cr.err != ENOMEM)
      violate("errno", P(5), "op %u (%s, %zu bytes) failed with errno %d instead of ENOMEM", t->op_id, r.tname, r.size, cr.err);
  }
  return false;
}
static Blk *live_h(int h) {
  auto it = g_h.find(h);
  return it == g_h.end() || it->second->state != BS_LIVE ? nullptr : it->second;
}
static Blk *do_alloc(Op &o, const AReq &r0, int h, const char *file, int line) {
  AReq r = r0;
  Ctx &c = cx(me);
  static char strs[9][80008];
  char *s = strs[me->id];
  if (r.ak == AK_STRDUP) {
    for (size_t i = 0; i < r.b; ++i) s[i] = (char)(33 + (mix(o.id, i) % 90));
    s[r.b] = 0;
    r.str = s;
  }
  alloc_setup(r);
  CRes cr;
  memset(&cr, 0, sizeof cr);
  cli_alloc(&cr, r.ak, r.form, r.a, r.b, s, file, line);
  bool got = alloc_result(r, cr, r.ak == AK_PMEMALIGN);
  Blk *b = got ? new_block(h, r, (addr_t)cr.p, nullptr, 0) : nullptr;
  if (got && !b->shared) counted_calls(c.seq0, 1);
  return b;
}
// positions under which a release is reported
static std::string free_site(Op &o, int fam, int form, int variant, bool isrealloc) {
  if (fam >= FAM_MEMB) return op_site(o);
  if (form == FORM_PLAIN) return "?(0)";
  if (form == FORM_DIRECT) return op_site(o);
  if (fam == FAM_C) return macro_site(isrealloc ? ML_REALLOC : ML_FREE);
  return macro_site((fam == FAM_NEW ? ML_DEL0 : ML_DELA0) + (variant & 3));
}
static void corrupt_expect(Blk *b) {
  Ctx &c = cx(me);
  if (b->corrupted && !b->zero) { c.expect |= EX_DIE | EX_CORRUPT; c.expmask = P(8); c.target = b; c.taddr = b->p; }
}
static void op_alloc(Op &o) {
  AReq r;
  call_begin(&o);
  mkreq(r, o, o.ak, o.form, o.a, o.b, op_site(o));
  bool early = !G.inited;
  do_alloc(o, r, o.h, op_file(o), op_line(o));
  finish_handler_frees({});
  call_end();
  if (early) probe(PR_EARLY_ALLOC);
}
static void op_free(Op &o) {
  Blk *b = live_h(o.h);
  if (!b || b->node) return;
  call_begin(&o);
  Ctx &c = cx(me);
  c.simple_free = true;
  int form = o.form;
  bool viarealloc = b->fam == FAM_C && (o.ak & 8);
  if (viarealloc && b->shared) viarealloc = true;
  std::string fs = free_site(o, b->fam, form, o.ak, viarealloc);
  c.site = fs;
  if (form == FORM_MACRO && b->fam != FAM_C) form = FORM_MACRO;
  corrupt_expect(b);
  if (b->state == BS_LIVE) c.target = b;
  begin_release(b, fs);
  if (cfg0.freeacc && b->size) me->watch = b->p;
  me->op_is_free = true;
  CRes cr;
  memset(&cr, 0, sizeof cr);
  cli_free(&cr, b->fam, form, o.ak, (void *)b->p, op_file(o), op_line(o));
  expect_death_missing();
  if (cr.exc) violate("foreign-exception", P(6), "a release (op %u) threw", o.id);
  if (viarealloc && cr.p) violate("resize-zero", P(9) | P(17), "a resize to zero (op %u) returned %lx", o.id, (addr_t)cr.p);
  if (cfg0.freeacc && b->size && !me->watch_hit)
    violate("free-access", P(16), "DUMA_FREE_ACCESS is set but op %u released block %lx without writing to it", o.id, b->p);
  if (cfg0.freeacc && b->size) probe(PR_FREE_ACCESS_SEEN);
  bool sh = b->shared;
  if (sh && cfg0.show) trace_expect(false, 0, fs, b->site, 0, 1);
  finish_release(b, true);
  if (!sh) counted_calls(c.seq0, 1);
  call_end();
}
static void op_realloc(Op &o) {
  Blk *b = live_h(o.h);
  if (!b || b->fam != FAM_C || b->node || o.b == 0) return;
  call_begin(&o);
  Ctx &c = cx(me);
  AReq r;
  int form = o.form;
  mkreq(r, o, AK_REALLOC, form, 0, o.b, op_site(o));
  std::string site = free_site(o, FAM_C, form, 0, true);
  r.site = site;
  size_t oldn = b->size;
  if (b->corrupted && !b->zero) { c.expect |= EX_MAYDIE | EX_CORRUPT; c.expmask = P(8); c.target = b; c.taddr = b->p; }
  bool sh = b->shared;
  begin_release(b, site);
  c.fsite = site;
  if (cfg0.freeacc && b->size) me->watch = b->p;
  alloc_setup(r);
  CRes cr;
  memset(&cr, 0, sizeof cr);
  cli_realloc(&cr, (void *)b->p, o.b, form, op_file(o), op_line(o));
  bool got = alloc_result(r, cr, false);
  if (got) {
    if (b->corrupted && !b->zero) violate("overwrite-missed", P(8), "resize (op %u) returned although the padding of block %lx (op %u) was overwritten", o.id, b->p, b->aop);
    if (cfg0.freeacc && b->size && !me->watch_hit)
      violate("free-access", P(16), "DUMA_FREE_ACCESS is set but op %u released block %lx without writing to it", o.id, b->p);
    if (sh && cfg0.show) trace_expect(false, 0, site, b->site, 0, 1);
    finish_release(b, true);
    int h = b->h;
    new_block(h, r, (addr_t)cr.p, b, oldn);
    counted_calls(c.seq0, sh ? 1 : 2);
    if ((addr_t)cr.p != b->p) probe(PR_REALLOC_MOVED);
  } else {
    undo_release(b);
    probe(PR_REALLOC_FAILED);
  }
  call_end();
}

// ------------------------------------------------------------------ C++ new-handlers
static bool busy_handle(int h) {
  for (auto &q : G.plan->ops) {
    if (q.phase != G.phase) continue;
    if (q.h == h) return true;
    if (q.kind == OP_COPY && (int)q.a == h) return true;
  }
  return false;
}
void model_new_handler_set(void *h) {
  Thr *t = me;
  if (!t || !t->ctx || !t->in_call) return;
  Ctx &c = cx(t);
  if (!(c.op && c.op->kind == OP_HANDLER) && !c.expect_set) return;   // the tool's own doing
  g_hkind = cli_handler_index(h);
  for (Thr *x : G.thr)
    if (x->in_call && x->ctx) cx(x).handlers |= 1u << g_hkind;
}
extern "C" void *sim_handler_called(int kind) {
  Thr *t = me;
  Ctx &c = cx(t);
  step(1, 0x300);
  probe(PR_HANDLER_CALLED);
  t->op_handler_calls++;
  c.hcalls++;
  if (g_verbose) fprintf(stderr, "  t%d op%u new-handler %d called\n", t->id, t->op_id, kind);
  if (!c.cpp) violate("handler-unexpected", P(14), "the new-handler is called from op %u, which is no operator new", t->op_id);
  if (!(c.handlers & (1u << kind))) violate("handler-wrong", P(14), "op %u calls new-handler kind %d, which is not installed", t->op_id, kind);
  if (!t->op_mmap_failed && !c.unrep)
    violate("handler-unneeded", P(14), "op %u calls the new-handler although the system refused nothing since the last attempt", t->op_id);
  if (t->prot_at_fail && !c.unrep)
    violate("failed-with-protected", P(5), "op %u calls the new-handler while %zu bytes of freed memory are still protected", t->op_id, t->prot_at_fail);
  if (G.lock_owner == t->id) violate("handler-locked", P(14) | P(12), "op %u calls the new-handler with the lock held", t->op_id);
  t->op_mmap_failed = false;
  t->prot_at_fail = 0;
  t->op_released = 0;
  bool lift = kind == 1 || c.hcalls > 50;
  void *r = nullptr;
  if (kind == 2) c.hthrew = 1;
  if (kind == 5) c.hthrew = 2;
  if ((c.unrep || c.hcalls > 100) && kind != 2 && kind != 5) {   // nothing helps: the program gives up
    c.expect_set = true;
    cli_sethandler(0);
    c.expect_set = false;
  }
  if (kind == 3) { c.expect_set = true; r = (void *)1; }
  if (kind == 4) {
    Blk *sel = nullptr;
    for (auto &x : g_h) {
      Blk *b = x.second;
      if (b->state == BS_LIVE && b->fam == FAM_C && !b->node && !b->shared && !b->corrupted && !busy_handle(x.first)) { sel = b; break; }
    }
    if (sel) {
      begin_release(sel, "?(0)");
      r = (void *)sel->p;
    } else
      lift = true;
  }
  if (lift) { g_limit = 0; G.plan->mapcount = 0; c.nofault = true; }
  return r;
}

// ------------------------------------------------------------------ nested blocks
static std::string nest_site(Op &o, int i) { return cli_nolead() ? "?(0)" : strf("%s(%d)", op_file(o), 20000 + (int)o.id * 16 + i); }
static void op_nestnew(Op &o) {
  int depth = (int)std::min<uint64_t>(o.a, 7);
  Blk *head = nullptr;
  std::vector<Blk *> made;
  for (int i = 0; i < depth; ++i) {
    call_begin(&o);
    AReq r;
    int line = 20000 + (int)o.id * 16 + 2 * i;
    bool arr = (o.b >> i) & 1;
    mkreq(r, o, arr ? AK_NEWA : AK_NEW, FORM_DIRECT, 0, cli_nodesize() + (arr ? 8 : 0), nest_site(o, 2 * i));
    Blk *n = do_alloc(o, r, -1, op_file(o), line);
    finish_handler_frees({});
    call_end();
    if (!n) break;
    n->node = true;
    n->nskip = 32;
    n->nchild = n->nextra = 0;
    fill_pat(n);
    call_begin(&o);
    AReq x;
    mkreq(x, o, AK_MALLOC, FORM_DIRECT, 0, 20 + i, nest_site(o, 2 * i + 1));
    Blk *e = do_alloc(o, x, -1, op_file(o), line + 1);
    call_end();
    bool ca = head && head->fam == FAM_NEWA;
    n->nchild = head ? head->p : 0;
    n->nextra = e ? e->p : 0;
    n->nkind = ca;
    addr_t *w = (addr_t *)n->p;
    if (arr) *w++ = 1;
    w[0] = n->nchild ? n->nchild + (ca ? 8 : 0) : 0;
    w[1] = n->nextra;
    w[2] = ca;
    if (e) { e->node = true; e->nskip = 0; e->nchild = 0; fill_pat(e); }
    head = n;
    sched_yield_point();
  }
  if (head) { head->h = o.h; g_h[o.h] = head; }
}
static Blk *live_at(addr_t p) {
  for (Blk *b : g_live) if (b->p == p && b->state == BS_LIVE) return b;
  return nullptr;
}
static void op_nestdel(Op &o) {
  Blk *b = live_h(o.h);
  if (!b || !b->node) return;
  call_begin(&o);
  Ctx &c = cx(me);
  auto dsite = [](Blk *x, bool top) { return macro_site(x->fam == FAM_NEWA ? (top ? ML_NESTDELA : ML_NESTDTORA) : top ? ML_NESTDEL : ML_NESTDTOR); };
  c.site = dsite(b, true);
  c.sub_sites = {macro_site(ML_NESTDTOR), macro_site(ML_NESTDTORA), macro_site(ML_NESTFREE)};
  std::vector<Blk *> all;
  int n = 0;
  for (Blk *x = b; x;) {
    addr_t child = x->nchild, ex = x->nextra;
    begin_release(x, dsite(x, !n));
    all.push_back(x);
    if (ex) {
      Blk *e = live_at(ex);
      if (!e) harness_error("nested block lost");
      begin_release(e, macro_site(ML_NESTFREE));
      all.push_back(e);
    }
    x = child ? live_at(child) : nullptr;
    if (child && !x) harness_error("nested node lost");
    n++;
  }
  if (n > 1) probe(PR_NESTED_DELETE);
  cli_nestdel((void *)b->p, b->fam == FAM_NEWA);
  for (Blk *x : all) finish_release(x);
  counted_calls(c.seq0, (int)all.size());
  call_end();
}

// ------------------------------------------------------------------ misuse
static bool others_idle() {
  for (Thr *x : G.thr)
    if (x != me && x->state != TS_PHASE && x->state != TS_DONE) return false;
  return true;
}
static bool address_in_use(addr_t p) {
  if (p == g_shared_null && p) return true;
  for (Blk *b : g_live) if (b->p == p) return true;
  return false;
}
static bool stale_ok(addr_t p) {
  // a stale address may be handed out again by other threads, unless it stays protected
  if (address_in_use(p)) return false;
  if (others_idle()) return true;
  return cfg0.pf < 0 && cfg0.maxa <= 0 && !g_limit && !G.plan->phases[std::min<size_t>(G.phase, G.plan->phases.size() - 1)].faults && !G.plan->mapcount &&
         in_F(pgdn(p), pgdn(p) + PG);
}
static bool startup_protected(addr_t p) {  // start-up test block of the tool: allowed to be known
  for (auto &f : g_F) if (f.second.b->aop == 0 && f.second.b->size == 0 && p >= f.first && p < f.second.hi) return true;
  return false;
}
static void misuse_call(Op &o, addr_t p, int fam, bool viarealloc, size_t n, bool viacheck = false) {
  Ctx &c = cx(me);
  CRes cr;
  memset(&cr, 0, sizeof cr);
  int form = o.form == FORM_MACRO ? FORM_DIRECT : o.form;
  c.site = viarealloc ? (form == FORM_PLAIN ? "?(0)" : op_site(o)) : free_site(o, fam, form, 0, false);
  c.taddr = p;
  if (viacheck) { c.site = "?(0)"; cli_check((void *)p); }
  else if (viarealloc) cli_realloc(&cr, (void *)p, n, form, op_file(o), op_line(o));
  else cli_free(&cr, fam, form, 0, (void *)p, op_file(o), op_line(o));
  if (viarealloc) {
    if (cr.p) violate("misuse-resize", P(7), "a resize of the invalid address %lx (op %u) returned block %lx", p, o.id, (addr_t)cr.p);
    if (me->op_mmap_failed) return;        // refused for lack of memory before the address was looked at
    violate("misuse-missed", P(7), "a resize of the invalid address %lx (op %u) returned without a diagnosis", p, o.id);
  }
  expect_death_missing();
}
static void op_mfree(Op &o) {
  auto it = g_h.find(o.h);
  if (it == g_h.end()) return;
  Blk *b = it->second;
  if (b->shared || b->node) return;
  if (o.ak == 1) {        // two threads release the same block
    if (b->state == BS_FREED && !stale_ok(b->p)) return;
    call_begin(&o);
    Ctx &c = cx(me);
    bool first = b->state == BS_LIVE;
    c.simple_free = false;
    if (first) { begin_release(b, ""); b->owner = -2; } else if (b->state == BS_RELEASING) { cx(me).rels.push_back(b); probe(PR_RACE_DOUBLE_FREE); }
    c.target = b; c.taddr = b->p;
    c.expect = EX_MAYDIE; c.expmask = P(7);
    if (b->state == BS_FREED) c.expect = EX_DIE;
    int form = o.form == FORM_MACRO ? FORM_DIRECT : o.form;
    b->fsite = free_site(o, b->fam, form, 0, false);
    c.site = b->fsite;
    b->rsites.push_back(c.site);
    CRes cr;
    memset(&cr, 0, sizeof cr);
    cli_free(&cr, b->fam, form, 0, (void *)b->p, op_file(o), op_line(o));
    if (b->state == BS_FREED || (c.expect & EX_DIE))
      violate("misuse-missed", P(7), "two threads released block %lx (%zu bytes) and both calls returned (op %u)", b->p, b->size, o.id);
    // two call positions are possible: no trace expectation beyond a range
    if (!b->open.empty() && !b->zero) violate("not-closed", P(3), "op %u released block %lx but it is still accessible", o.id, b->p);
    if (b->zero) live_del(b);
    b->state = BS_FREED; b->dead = ++g_seq;
    if (cfg0.show) trace_expect(false, b->size, c.site, b->site, 0, 1);
    call_end();
    return;
  }
  if (b->state != BS_FREED || !stale_ok(b->p)) return;
  call_begin(&o);
  Ctx &c = cx(me);
  c.expect = EX_DIE; c.expmask = P(7); c.target = b;
  misuse_call(o, b->p, b->fam, false, 0, o.ak == 2);
  call_end();
}
static addr_t wild_addr(Op &o, Blk *b) {
  static char arr[64];
  switch (o.ak) {
  case 0: return b && b->size > 1 ? b->p + 1 + o.a % (b->size - 1) : 0;
  case 1: return b ? b->p - 1 : 0;
  case 2: return b ? b->p + b->size : 0;
  case 3: return b && !b->zero ? b->glo + o.a % PG : 0;
  case 4: return 0x100000000000ul + (o.a % (1ul << 40));
  case 5: return (addr_t)&arr[o.a % 60];
  case 6: { addr_t f = vm_foreign_any(o.b); return f ? f + o.a % 4000 : 0x110000000000ul + (o.a & 0xffff); }
  case 7: return b && b->rlo != b->p ? b->rlo : 0;
  case 9: case 10: {
    // inside a block that was released
    std::vector<Blk *> f;
    for (Blk *x : g_all)
      if (x->state == BS_FREED && !x->shared && !x->zero && x->size > 1 && in_F(pgdn(x->p), pgdn(x->p) + PG)) f.push_back(x);
    if (f.empty()) return 0;
    Blk *x = f[o.b % f.size()];
    return x->p + 1 + o.a % (x->size - 1);
  }
  default: return 1 + o.a % 100000;
  }
}
static void op_mwild(Op &o) {
  Blk *b = live_h(o.h);
  if (b && b->shared) b = nullptr;
  addr_t p = wild_addr(o, b);
  if (!p || address_in_use(p)) return;
  if (!others_idle()) {        // could become the address of another thread's new block
    if (p >= ARENA_LO && p < ARENA_HI && !(b && p >= b->flo && p < b->fhi)) {
      const Vma *v = vm_at(p);
      if (!v || v->own != OWN_FOREIGN) return;
    }
  }
  call_begin(&o);
  Ctx &c = cx(me);
  c.expect = EX_DIE; c.expmask = P(7); c.target = b;
  misuse_call(o, p, (int)((o.a >> 20) % 3), false, 0, o.form == 3);
  call_end();
}
static void op_mmismatch(Op &o) {
  Blk *b = live_h(o.h);
  if (!b || b->shared || b->node) return;
  int fam = (b->fam + 1 + (int)(o.a % 4)) % 5;
  if (o.form == FORM_PLAIN && fam >= FAM_MEMB) fam = b->fam == FAM_C ? FAM_NEW : FAM_C;
  call_begin(&o);
  Ctx &c = cx(me);
  c.expect = EX_DIE; c.expmask = P(7); c.target = b;
  misuse_call(o, b->p, fam, false, 0);
  call_end();
}
static void op_mrealloc(Op &o) {
  auto it = g_h.find(o.h);
  Blk *b = it == g_h.end() ? nullptr : it->second;
  addr_t p = 0;
  bool maycrash = false;
  switch (o.ak) {
  case 0: if (b && b->state == BS_LIVE && b->size > 1 && !b->shared) p = b->p + 1 + o.a % (b->size - 1); break;
  case 1: {
    // a released block
    for (Blk *x : g_all)
      if (x->state == BS_FREED && !x->shared && !x->zero && stale_ok(x->p) && others_idle()) p = x->p, b = x;
    maycrash = true;
    break;
  }
  case 2: p = 0x110000000000ul + (o.a & 0xfffff); break;
  default: if (b && b->state == BS_LIVE && b->fam != FAM_C && !b->shared && !b->node) p = b->p; break;
  }
  if (!p || (o.ak != 3 && address_in_use(p))) return;
  call_begin(&o);
  Ctx &c = cx(me);
  c.expect = EX_DIE | (maycrash ? EX_MAYCRASH : 0); c.expmask = P(7); c.target = b;
  c.is_c = true; c.alloc_busy = true; c.req_size = o.b;
  me->op_is_alloc = true; me->op_req = foot(o.b, 1);
  misuse_call(o, p, FAM_C, true, o.b ? o.b : 1);
  c.alloc_busy = false;
  call_end();
}
static void op_corrupt(Op &o) {
  Blk *b = live_h(o.h);
  if (!b || b->zero || b->shared || b->node) return;
  size_t below = b->p - b->rlo, above = b->rhi - (b->p + b->size);
  if (below + above == 0) return;
  size_t k = o.a % (below + above);
  // the bytes next to the block more often
  if ((o.b & 3) == 0) k = below ? below - 1 : 0;
  else if ((o.b & 3) == 1) k = above ? below : below - 1;
  else if ((o.b & 3) == 2) k = (o.b & 4) ? 0 : below + above - 1;
  addr_t a = k < below ? b->rlo + k : b->p + b->size + (k - below);
  unsigned char *u = (unsigned char *)a;
  if (!vm_range_is(pgdn(a), pgdn(a) + PG, 3, OWN_DUMA)) return;
  *u ^= (unsigned char)(1 + (o.b >> 8) % 255);
  b->corrupted = 1;
  b->cseq = ++g_seq;
  b->freq_left = cfg0.freq;
  if (g_verbose) fprintf(stderr, "  program overwrites padding byte %lx of block %lx (%zu bytes)\n", a, b->p, b->size);
}

// ------------------------------------------------------------------ other operations
static sigjmp_buf &jbuf() { return me->jb; }
static bool faults_at(addr_t a) {
  me->probing = 1;
  volatile bool f = true;
  if (!sigsetjmp(jbuf(), 1)) {
    volatile char c = *(volatile char *)a;
    (void)c;
    f = false;
  }
  me->probing = 0;
  return f;
}
static void simple_call_begin(Op &o) { call_begin(&o); }

static void do_exit(Op &o) {
  call_begin(&o);
  for (Thr *x : G.thr) if (x != me && x->state != TS_DONE && x->state != TS_PHASE) probe(PR_EXIT_CONCURRENT);
  if (G.plan->exit_running) G.res->injected[INJ_EXITRUN]++;
  bool rep = !cli_nolead() && !cfg0.noexit;
  if (rep) leak_begin(me);
  run_atexit();
  for (vfn *f = __stop_duma_dtors; f > __start_duma_dtors;) { --f; if (*f) (*f)(); }
  if (rep) leak_end(me, true);
  else if (cfg0.noexit)
    for (int s = 0; s < 3; ++s) {
      std::string x = thread_text(me->id, me->op_id, s);
      if (x.find("DUMA: ptr=") != std::string::npos || x.find("DUMA: Reported") != std::string::npos)
        soft("exit-report-unwanted", P(16), "DUMA_SUPPRESS_ATEXIT is set but the exit prints a leak report on output %d: \"%s\"", s, x.substr(0, 80).c_str());
    }
  call_end();
}
static bool g_exited;
static void do_start(Op &o) {
  call_begin(&o);
  bool was = G.inited;
  if (G.plan->early) G.res->injected[INJ_EARLY]++;
  size_t before = g_writes.size();
  for (vfn *f = __start_duma_ctors; f < __stop_duma_ctors; ++f) if (*f) (*f)();
  if (was) {
    if (me->op_mmaps) violate("init-twice", P(16), "the static constructor initialises again: %u mappings", me->op_mmaps);
    if (g_writes.size() != before) violate("init-twice", P(16), "the static constructor writes output again");
  }
  call_end();
}
static void run_op(Op &o) {
  Thr *t = me;
  t->op_id = o.id;
  t->step = 0;
  memset(t->nth, 0, sizeof t->nth);
  sched_yield_point();
  Blk *b;
  if (g_verbose) fprintf(stderr, "[%llu] t%d op%u %s h%d form%d ak%d a=%llu b=%llu\n", (unsigned long long)G.steps, t->id, o.id, opname[o.kind], o.h, o.form, o.ak,
                         (unsigned long long)o.a, (unsigned long long)o.b);
  switch (o.kind) {
  case OP_ALLOC: op_alloc(o); break;
  case OP_FREE: op_free(o); break;
  case OP_REALLOC: op_realloc(o); break;
  case OP_USABLE: {
    b = o.ak == 1 ? nullptr : live_h(o.h);
    if (!b && o.ak != 1) return;
    call_begin(&o);
    CRes cr;
    memset(&cr, 0, sizeof cr);
    if (!b) {
      cli_usable(&cr, nullptr, o.form, op_file(o), op_line(o));
      if (cr.sz) violate("usable-size", P(9), "usable size of the null address (op %u) is %zu", o.id, cr.sz);
      call_end();
      break;
    }
    cli_usable(&cr, (void *)b->p, o.form, op_file(o), op_line(o));
    probe(PR_USABLE);
    if (cr.sz != b->size) violate("usable-size", P(9), "usable size of block %lx (op %u) is %zu instead of %zu", b->p, b->aop, cr.sz, b->size);
    call_end();
    break;
  }
  case OP_CHECK:
    b = o.ak == 1 ? nullptr : live_h(o.h);
    if (!b && o.ak != 1) return;
    call_begin(&o);
    if (b) corrupt_expect(b);
    for (Thr *x : G.thr) if (x != t && x->in_call) { probe(PR_CHECK_CONCURRENT); break; }
    cli_check(b ? (void *)b->p : nullptr);
    expect_death_missing();
    call_end();
    break;
  case OP_CHECKALL:
    call_begin(&o);
    for (Blk *x : g_live) if (x->state == BS_LIVE && x->corrupted) corrupt_expect(x);
    for (Thr *x : G.thr) if (x != t && x->in_call) { probe(PR_CHECK_CONCURRENT); break; }
    cli_checkall();
    expect_death_missing();
    call_end();
    break;
  case OP_TOUCH:
    b = live_h(o.h);
    if (!b) return;
    check_pat(b, P(2), "program reads its block");
    check_guard(b, "program uses its block");
    b->pat = mix(b->pat, o.a);
    fill_pat(b);
    break;
  case OP_PROBE_GUARD: {
    b = live_h(o.h);
    if (!b) return;
    if (b->shared || b->zero) {
      if (!faults_at(b->p)) violate("zero-accessible", P(17), "reading the zero-size address %lx does not fault", b->p);
      break;
    }
    addr_t a = b->below ? b->p - 1 : b->rhi;
    if (!faults_at(a)) violate("guard-no-fault", P(1), "an access at %lx beside block %lx (%zu bytes) does not fault", a, b->p, b->size);
    probe(PR_GUARD_FAULT);
    break;
  }
  case OP_PROBE_FREED: {
    auto it = g_h.find(o.h);
    if (it == g_h.end() || it->second->state != BS_FREED || it->second->shared) return;
    b = it->second;
    addr_t a = b->size ? b->p + o.a % b->size : b->p;
    if (!in_F(pgdn(a), pgdn(a) + PG)) return;
    if (!faults_at(a)) violate("freed-no-fault", P(3), "an access at %lx in released block %lx (%zu bytes, op %u) does not fault", a, b->p, b->size, b->aop);
    probe(PR_FREED_FAULT);
    break;
  }
  case OP_COPY: {
    b = live_h(o.h);
    Blk *s = live_h((int)o.a);
    if (!b || !s || b == s || b->shared || s->shared || b->node || s->node) return;
    size_t n = std::min<size_t>(std::min(b->size, s->size), 4096);
    call_begin(&o);
    cx(t).wlo = b->p; cx(t).whi = b->p + n;
    b->patset = false;
    cli_copy((void *)b->p, (void *)s->p, n);
    if (memcmp((void *)b->p, (void *)s->p, n)) violate("copy-contents", P(2), "copy of %zu bytes between blocks differs", n);
    call_end();
    fill_pat(b);
    break;
  }
  case OP_LEAKREP:
    if (cli_nolead()) break;
    call_begin(&o);
    leak_begin(t);
    cli_leakrep();
    leak_end(t, false);
    call_end();
    break;
  case OP_PMBAD: {
    // the alignment is no power of two or too small: refused, whatever the amount of memory
    CRes cr;
    call_begin(&o);
    memset(&cr, 0, sizeof cr);
    cli_alloc(&cr, AK_PMEMALIGN, o.form, o.a, o.b, "", op_file(o), op_line(o));
    if (cr.exc) violate("foreign-exception", P(6) | P(5), "op %u: an exception left posix_memalign", o.id);
    if (cr.rc == 0 && cr.p && o.a && (addr_t)cr.p % o.a)
      violate("misaligned", P(9) | P(5), "op %u: posix_memalign(%lu) returned %lx", o.id, (unsigned long)o.a, (addr_t)cr.p);
    if (cr.rc != EINVAL) violate("posix-result", P(5), "op %u: posix_memalign with the invalid alignment %lu returns %d", o.id, (unsigned long)o.a, cr.rc);
    call_end();
    probe(PR_PM_INVALID);
    break;
  }
  case OP_OVERLAP: {
    b = live_h(o.h);
    if (!b || b->shared || b->node || b->size < 40) return;
    call_begin(&o);
    Ctx &c = cx(t);
    c.wlo = b->p; c.whi = b->p + b->size;
    c.target = b;
    char was[40];
    memcpy(was, (void *)b->p, 40);
    if (!(o.ak && cfg0.overlap)) { c.expect = EX_DIE; c.expmask = P(16); }
    else b->patset = false;
    cli_overlap((char *)b->p, o.ak);
    expect_death_missing();
    // allowed: copied towards lower addresses
    if (memcmp((void *)b->p, was + 4, 16) || memcmp((void *)(b->p + 16), was + 16, 24))
      violate("overlap-copy", P(16), "DUMA_MEMCPY_OVERLAP is set but the copy towards lower addresses (op %u) has the wrong result", o.id);
    fill_pat(b);
    call_end();
    break;
  }
  case OP_SET:
    call_begin(&o);
    cli_set(o.ak, (int)o.a);
    call_end();
    if (o.ak == SET_ALIGNMENT) cfg.align = (long)o.a;
    else if (o.ak == SET_BELOW) cfg.below = o.a != 0;
    else cfg.fill = (int)o.a;
    break;
  case OP_FMAP: {
    addr_t a = vm_foreign_map(o.a, mix(o.b, G.plan->seed));
    if (a) g_fm[o.h] = {a, o.a};
    break;
  }
  case OP_FUNMAP:
    if (g_fm.count(o.h)) { vm_foreign_unmap(g_fm[o.h].first, g_fm[o.h].second); g_fm.erase(o.h); }
    break;
  case OP_CORRUPT: op_corrupt(o); break;
  case OP_NESTNEW: op_nestnew(o); break;
  case OP_NESTDEL: op_nestdel(o); break;
  case OP_HANDLER:
    call_begin(&o);
    cli_sethandler(o.ak);
    call_end();
    break;
  case OP_FREENULL: {
    call_begin(&o);
    CRes cr;
    memset(&cr, 0, sizeof cr);
    int fam = o.ak % 5, form = o.form;
    if (fam >= FAM_MEMB) form = FORM_DIRECT;
    cli_free(&cr, fam, form, 0, nullptr, op_file(o), op_line(o));
    if (cfg0.show) trace_expect(false, 0, free_site(o, fam, form, 0, false), "?(0)", 0, 1);
    call_end();
    break;
  }
  case OP_CHURN:
    probe(PR_CHURN);
    for (uint64_t i = 0; i < o.a; ++i) {
      call_begin(&o);
      AReq r;
      mkreq(r, o, o.ak, o.form, 0, o.b, op_site(o));
      Blk *x = do_alloc(o, r, -1, op_file(o), op_line(o));
      finish_handler_frees({});
      call_end();
      if (!x) break;
      Op fo = o;
      fo.h = -2 - t->id; fo.ak = 0; fo.kind = OP_FREE;
      x->h = fo.h;
      g_h[fo.h] = x;
      op_free(fo);
    }
    break;
  case OP_EXIT:
    do_exit(o);
    g_exited = true;
    break;
  case OP_START: do_start(o); break;
  case OP_M_FREE: op_mfree(o); break;
  case OP_M_WILD: op_mwild(o); break;
  case OP_M_MISMATCH: op_mmismatch(o); break;
  case OP_M_REALLOC: op_mrealloc(o); break;
  default: break;
  }
  G.res->opsdone[o.kind]++;
  // some calls do nothing and need no start-up
  if (!G.inited && (vm_total(OWN_DUMA) || o.kind == OP_START || o.kind == OP_ALLOC)) {
    G.inited = true;
    // memory for settings (names of output files) stays accessible
    if (cfg0.has_strdup_env) {
      std::vector<Rg> al;
      for (Blk *x : g_live) if (!x->zero) al.push_back({x->alo, x->ahi});
      size_t n = 0;
      for (auto &v : g_vma)
        if (v.own == OWN_DUMA && v.prot)
          for (addr_t x = v.lo; x < v.hi; x += PG) {
            bool in = false;
            for (auto &r : al) in |= x >= r.first && x < r.second;
            if (!in) ++n;
          }
      g_init_rw_pages = std::min<size_t>(n, 1);
    }
  }
  quiet_check();
}

// ------------------------------------------------------------------ barriers and the end
static void check_all_live(uint32_t m, const char *when) {
  for (Blk *b : g_live)
    if (b->state == BS_LIVE) { check_pat(b, m, when); check_guard(b, when); }
}
static void memory_bound();
void model_barrier(int ph) {
  check_all_live(P(2), "after a phase");
  vm_foreign_check_all();
  if (g_fd_leaked()) soft("fd-leaked", P(13), "the output file stays open after op %u", me->op_id);
  leak_eval();
  quiet_check();
  memory_bound();
  size_t n = ph + 1;
  if (n < G.plan->phases.size()) g_limit = G.plan->phases[n].aslim >= 0 ? vm_total(OWN_DUMA) + (size_t)G.plan->phases[n].aslim : 0;
  ev(0x80, ph);
  // recovered: allocations in a later phase are checked by the failure contract itself
}
static void memory_bound() {
  if (!concerns(P(19)) || !G.inited) return;
  if (cfg0.pf < 0 && cfg0.maxa <= 0) return;
  // sizes whose footprint divides the chunk size leave no unusable remainder, so nothing but live blocks,
  // protected blocks, the bookkeeping table and partially used chunks may stay mapped
  size_t N = cfg0.pf > 0 ? (size_t)cfg0.pf * 1024 : 0;
  size_t F = cfg0.pf < 0 ? (size_t)std::max(0l, cfg0.maxa) * 1024 + (3 << 20) : N;
  size_t classes = 0;
  std::set<size_t> fs;
  for (Blk *b : g_all) fs.insert(b->fp);
  classes = fs.size();
  size_t slots = 2 * (g_live_n_peak + g_F_peak / (2 * PG) + 2 * classes + 80);
  size_t table = pgup(slots * 80);
  size_t bound = (3ul << 20) + 2 * g_live_peak + F + 4 * table + classes * (1ul << 20) + g_munmap_failed_bytes;
  size_t entries = g_live_n_peak + g_F_peak / PG + 2 * classes + g_munmap_failed_bytes / PG + 40;
  if (g_table_len > pgup(entries * 128) + 2 * PG)
    violate("book-keeping-grows", P(19), "the book-keeping table has %zu bytes, but never more than %zu blocks were live, %zu bytes protected and %zu footprints in use (bound %zu)", g_table_len,
            g_live_n_peak, g_F_peak, classes, pgup(entries * 128) + 2 * PG);
  if (vm_total(OWN_DUMA) > bound)
    violate("memory-grows", P(19), "%zu bytes are mapped; live blocks never needed more than %zu, the protection limit is %zu (bound %zu, %zu footprints)", vm_total(OWN_DUMA), g_live_peak,
            F, bound, classes);
}
void model_end() {
  G.phase = 1 << 20;
  check_all_live(P(2), "at the end");
  vm_foreign_check_all();
  leak_eval();
  check_trace(g_exited && !G.plan->exit_running && !cli_nolead() && !cfg0.noexit);
  if (G.inited) check_banner(false);
  quiet_check();
}

// ------------------------------------------------------------------ termination
static std::string g_dying_text;
// what a position in a diagnosis claims to be, by the words in front of it; 0: nothing we know
static int site_role(const std::string &d, size_t pos) {
  std::string w = d.substr(pos > 40 ? pos - 40 : 0, pos > 40 ? 40 : pos);
  while (!w.empty() && isspace((unsigned char)w.back())) w.pop_back();
  auto ends = [&](const char *e) { size_t n = strlen(e); return w.size() >= n && !w.compare(w.size() - n, n, e); };
  if (ends("already freed at") || ends("deallocated at")) return 2;
  if (ends("allocated from") || ends("alloced from") || ends("used at") || ends("used  at")) return 1;
  if (ends("called at")) return 3;
  return 0;
}
static void check_diag_sites(const std::string &d) {
  Thr *t = me;
  Ctx &c = cx(t);
  if (names_cut()) return;
  std::set<std::string> ok = {"?(0)", "<int>", c.site}, okA = {"?(0)", "<int>"}, okR = {"?(0)", "<int>", c.site};
  for (auto &s : c.sub_sites) { ok.insert(s); okR.insert(s); }
  auto allocs = [&](const std::string &s) { ok.insert(s); okA.insert(s); };
  auto rels = [&](const std::string &s) { ok.insert(s); okR.insert(s); };
  for (addr_t a : find_addrs(d)) {
    // the last block that had this address
    for (size_t i = g_all.size(); i-- > 0;)
      if (g_all[i]->p == a) {
        allocs(g_all[i]->site);
        if (g_all[i]->rel) rels(g_all[i]->fsite);
        for (auto &s : g_all[i]->rsites) rels(s);
        // releases of it that are still under way in other threads
        for (Thr *x : G.thr)
          if (x != t && x->in_call && x->ctx && (cx(x).target == g_all[i] || cx(x).taddr == a)) rels(cx(x).site);
        break;
      }
  }
  if (c.target) { allocs(c.target->site); if (c.target->rel && c.op && c.op->kind != OP_M_MISMATCH) rels(c.target->fsite); }
  // a block another thread is just getting is not known to us yet
  for (Thr *x : G.thr) if (x != t && x->in_call && x->ctx && cx(x).alloc_busy) { allocs(cx(x).site); rels(cx(x).site); }
  for (auto &s : find_sites(d)) {
    int role = site_role(d, s.second);
    auto &set = role == 1 ? okA : role == 2 ? okR : ok;
    if (!set.count(s.first) || (role == 3 && s.first != c.site && s.first != "?(0)" && std::find(c.sub_sites.begin(), c.sub_sites.end(), s.first) == c.sub_sites.end())) {
      std::string l;
      for (auto &o : set) l += " " + o;
      soft("wrong-position", P(15), "the diagnosis of op %u names %s%s; true positions:%s; text: %s", t->op_id, s.first.c_str(),
           role == 1 ? " as place of the allocation" : role >= 2 ? " as place of the release" : "", l.c_str(), d.substr(0, 300).c_str());
    }
  }
  // the block that the diagnosis of an unknown address names instead
  size_t near = d.find("corrupted from ");
  if (near != std::string::npos && !cli_nolead()) {
    std::vector<addr_t> as = find_addrs(d.substr(near, 40));
    Blk *nb = nullptr;
    bool busy = as.empty();
    if (!busy)
      for (size_t i = g_all.size(); i-- > 0 && !nb;) if (g_all[i]->p == as[0]) nb = g_all[i];
    for (Thr *x : G.thr) if (x != t && x->in_call) busy = true;
    if (nb && !busy && !nb->node && !nb->shared && nb->rsites.empty()) {
      const std::string &w = nb->rel && nb->fsite != "?(0)" && nb->fsite != "" ? nb->fsite : nb->site;
      bool known = w == nb->site ? nb->known : true, found = false;
      for (auto &s : find_sites(d)) found |= s.first == w;
      if (known && !found && w != "?(0)" && w != "<int>")
        soft("position-missing", P(15), "the diagnosis of op %u names block %lx without its position %s; text: %s", t->op_id, nb->p, w.c_str(), d.substr(0, 300).c_str());
    }
  }
  // a position the tool was told must not be left out: of the release if the block is one released before, else of the allocation
  Blk *b = c.target;
  if (!b || cli_nolead() || b->node || b->shared || !c.op) return;
  bool again = d.find("already freed") != std::string::npos && d.find("not from DUMA") == std::string::npos;
  bool mism = d.find("ismatch") != std::string::npos, over = (c.expect & EX_CORRUPT) && d.find("verwrit") != std::string::npos;
  if (!again && !mism && !over) return;
  std::vector<addr_t> as = find_addrs(d);
  if (!mism && std::find(as.begin(), as.end(), b->p) == as.end()) return;
  if (again && !in_F(pgdn(b->p), pgdn(b->p) + PG)) return;       // only while the tool keeps the entry
  std::set<std::string> want;
  if (again) {
    for (auto &s : b->rsites) want.insert(s);
    if (b->rel && b->fsite != "") want.insert(b->fsite);
    for (auto &s : c.sub_sites) want.insert(s);
    if (b->rsites.size()) want.insert(c.site);
    if (want.empty() || want.count("?(0)") || want.count("<int>") || want.count("")) { if (b->rsites.empty() && b->known) want = {b->site}; else return; }
  } else if (b->known) want = {b->site};
  else return;
  std::string l;
  for (auto &s : find_sites(d)) if (want.count(s.first)) return;
  for (auto &o : want) l += " " + o;
  soft("position-missing", P(15), "the diagnosis of op %u does not name the position of the %s of block %lx, one of%s; text: %s", t->op_id, again ? "release" : "allocation", b->p, l.c_str(),
       d.substr(0, 300).c_str());
}
static void judge_death(int how, int arg) {
  Thr *t = me;
  Ctx &c = cx(t);
  G.dead = true;
  G.res->died = 1;
  write_flush_check(t->id);
  Op *o = c.op;
  std::string text[3], diag;
  bool any = false;
  for (int s = 0; s < 3; ++s) {
    text[s] = diag_of(thread_text(t->id, t->op_id, s));
    if (!text[s].empty() && !any) { diag = text[s]; any = true; }
  }
  // prefer the text of an output nothing was lost on
  for (int s = 2; s >= 0; --s)
    if (!text[s].empty() && sink_enabled(s) && !g_sink_lost[s]) diag = text[s];
  // nothing readable: outputs switched off or failing
  bool readable = false;
  for (int s = 0; s < 3; ++s) readable |= sink_enabled(s) && !g_sink_lost[s];
  std::string dd = diag.substr(0, 400);
  // was it right to stop?
  bool startup = !G.inited;
  bool ok = false, corrupt = false;
  const char *why = "";
  if (t->op_mprotect_failed) { ok = true; why = "mprotect"; probe(PR_MPROTECT_ABORT); }
  else if (startup && (t->op_mmap_failed || G.plan->badpage)) { ok = true; why = "startup"; probe(PR_INIT_FAIL); }
  else {
    std::vector<addr_t> as = find_addrs(diag);
    for (Blk *b : g_live)
      if (b->corrupted && (!readable || std::find(as.begin(), as.end(), b->p) != as.end())) corrupt = true;
    if (c.expect & EX_CORRUPT) {
      // the diagnosis has to name a block that was really overwritten
      if (corrupt) { ok = true; why = "corrupt"; probe(PR_SLACK_ABORT); }
      else if (any && !(c.alloc_busy && c.is_c && cfg0.failexit && (t->op_mmap_failed || c.unrep)))
        violate("overwrite-names", P(8), "op %u: the diagnosis does not name the overwritten block: %s", t->op_id, dd.c_str());
    } else if (corrupt) { ok = true; why = "corrupt"; probe(PR_SLACK_ABORT); }
    else if (c.expect & (EX_DIE | EX_MAYDIE)) {
      ok = true; why = "misuse";
      if (o) probe(o->kind == OP_M_MISMATCH ? PR_MISMATCH_ABORT : o->kind == OP_M_WILD || o->kind == OP_M_REALLOC ? PR_WILD_ABORT : o->kind == OP_M_FREE ? PR_DOUBLE_FREE_ABORT : PR_STRATEGY0);
    }
    if (!ok && c.alloc_busy && c.is_c && cfg0.failexit && (t->op_mmap_failed || c.unrep)) {
      ok = true; why = "oom";
      probe(PR_OOM_ABORT);
      if (t->prot_at_fail && !c.unrep)
        violate("failed-with-protected", P(5), "op %u stopped for lack of memory while %zu bytes of freed memory were still protected", t->op_id, t->prot_at_fail);
    }
  }
  if (!ok) {
    uint32_t m = P(6);
    if (c.alloc_busy) m |= P(5) | (c.cpp ? P(14) : 0) | (c.req_size == 0 ? P(17) : 0);
    if (o && (o->kind == OP_LEAKREP || o->kind == OP_EXIT)) m |= P(10);
    if (startup || (o && (o->kind == OP_START || o->kind == OP_OVERLAP))) m |= P(16);
    if (o && (o->kind == OP_FREE || o->kind == OP_REALLOC)) {
      auto hi = g_h.find(o->h);
      if (hi != g_h.end() && (hi->second->zero || hi->second->shared)) m |= P(17);
    }
    if (diag.find("overwrite") != std::string::npos) m |= P(8);
    if (diag.find("already freed") != std::string::npos || diag.find("ismatch") != std::string::npos || diag.find("not from DUMA") != std::string::npos) m |= P(7);
    if (diag.find("emaphore") != std::string::npos) m |= P(12);
    violate("false-stop", m, "op %u (%s) of a correct program was stopped: %s", t->op_id, o ? opname[o->kind] : "?", any ? dd.c_str() : how == 0 ? "(no text)" : strf("exit code %d (no text)", arg).c_str());
  }
  // the diagnosis
  bool must_text = true;
  if (startup) {
    if (!any) {
      bool lost = false;
      for (bool l : g_sink_lost) lost |= l;
      if (!lost && (cfg0.out2 || cfg0.out1)) violate("silent-stop", P(16) | P(13), "start-up ends the process without a diagnosis");
    }
  } else {
    for (int s = 0; s < 3; ++s) {
      if (!sink_enabled(s) || g_sink_lost[s]) continue;
      if (text[s].empty())
        violate("diagnosis-missing", P(13) | ((c.expect & EX_DIE) ? c.expmask : 0) | (strcmp(why, "oom") ? 0 : P(5)), "op %u ends the process without a diagnosis on output %d (%s)", t->op_id, s, why);
      if (g_sink_bad[s]) violate("diagnosis-torn", P(13), "op %u: an interrupted or partial write was not completed on output %d: \"%s\"", t->op_id, s, text[s].substr(0, 200).c_str());
      if (text[s].back() != '\n') violate("diagnosis-torn", P(13), "op %u: the diagnosis on output %d is not complete: \"%s\"", t->op_id, s, text[s].substr(0, 200).c_str());
      if (text[s] != diag && any) {
        // compare with a sink that lost nothing
        int ref = -1;
        for (int q = 0; q < 3; ++q) if (sink_enabled(q) && !g_sink_lost[q]) { ref = q; break; }
        if (ref >= 0 && text[ref] != text[s]) violate("diagnosis-differs", P(13), "op %u: outputs %d and %d received different diagnoses", t->op_id, ref, s);
      }
    }
  }
  (void)must_text;
  if (how == 1 && (arg & 255) == 0) violate("exit-code", P(13), "op %u: the process ends with exit status 0 after a fatal diagnosis", t->op_id);
  if (any && !startup && readable) check_diag_sites(diag);
  // nothing else was damaged
  uint32_t pm = strcmp(why, "misuse") ? P(2) : P(2) | P(7);
  for (Blk *b : g_live)
    if (b->state == BS_LIVE) check_pat(b, pm, "when the process was stopped");
  vm_foreign_check_all();
}
uint32_t model_expmask() { return me && me->ctx ? cx(me).expmask : 0; }
// properties that a call which never completes contradicts
uint32_t stuck_mask(Thr *t) {
  uint32_t m = P(12) | P(6);
  if (!t || !t->ctx || !t->in_call) return m;
  Ctx &c = cx(t);
  if (c.expect & EX_DIE) m |= P(13) | c.expmask;
  for (int s = 0; s < 3; ++s) if (!diag_of(thread_text(t->id, t->op_id, s)).empty()) m |= P(13);
  if (t->dying) m |= P(13) | c.expmask;
  if (c.alloc_busy && (t->op_mmap_failed || c.unrep || c.hcalls)) m |= P(5) | (c.cpp ? P(14) : 0);
  if (!G.inited) m |= P(16);
  if (c.op && (c.op->kind == OP_LEAKREP || c.op->kind == OP_EXIT)) m |= P(10);
  if (c.op && (c.op->kind == OP_CHECK || c.op->kind == OP_CHECKALL)) m |= P(8);
  return m;
}
// the tool wrote beyond a buffer on its stack
extern "C" void sim___stack_chk_fail() {
  Thr *t = me;
  if (!t || !t->ctx) harness_error("stack overrun outside a call");
  G.dead = true;
  uint32_t m = (stuck_mask(t) & ~P(12)) | P(6);
  if (G.plan->longname) m |= P(15) | P(13);
  if (cfg0.show) m |= P(18);
  violate("stack-overrun", m, "op %u: the tool writes beyond a buffer on the stack", t->op_id);
}
void model_death(int how, int arg) {
  Thr *t = me;
  if (!t) harness_error("the tool ends the process outside a call");
  if (!t->in_call) harness_error("the tool ends the process outside a call of the program (op %u)", t->op_id);
  if (!t->dying) judge_death(how, arg);
  else if (how == 1 && (arg & 255) == 0) violate("exit-code", P(13), "op %u: the process ends with exit status 0 after a fatal diagnosis", t->op_id);
  if (G.inited) {
    // what the other threads are doing right now may or may not have been traced
    for (Thr *x : G.thr) {
      if (!x->in_call || !x->ctx) continue;
      Ctx &c = cx(x);
      if (c.alloc_busy) trace_expect(true, c.req_size, c.site, "", 0, 1 + c.hcalls);
      for (Blk *b : c.rels) trace_expect(false, b->size, b->owner == -2 ? c.site : b->fsite, b->site, 0, 1);
      if (c.op && (c.op->kind == OP_M_FREE || c.op->kind == OP_M_MISMATCH || c.op->kind == OP_M_REALLOC || c.op->kind == OP_M_WILD)) {
        if (c.target) trace_expect(false, c.target->size, c.site, c.target->site, 0, 1);
        if (c.op->kind == OP_M_REALLOC) trace_expect(true, c.op->b ? c.op->b : 1, c.site, "", 0, 1);
      }
    }
    check_trace(false);
    check_banner(true);
  }
  ev(0x90, how, arg);
  finish_run();
}
bool model_handled_signal(int) {
  Thr *t = me;
  if (!t || !t->in_call) return false;
  judge_death(0, 0);
  G.dead = false;
  G.res->injected[INJ_SIGILL_HANDLED]++;
  t->dying = true;
  // the other threads go on until the process really ends
  return true;
}
void model_crash(addr_t fault, addr_t pc, int sig) {
  Thr *t = me;
  if (!t || !t->ctx || !t->in_call || sig == SIGFPE) harness_error("crash outside the tool: signal %d at pc %lx, address %lx (op %u)", sig, pc, fault, t ? t->op_id : 0);
  Ctx &c = cx(t);
  G.dead = true;
  if (c.expect & EX_MAYCRASH) { probe(PR_WILD_ABORT); finish_run(); }
  uint32_t m = P(6);
  const char *where = "";
  for (Blk *b : g_live)
    if (fault >= b->rlo && fault < b->rhi) { m |= P(2); where = " in a live block"; }
  if (F_at(fault, fault + 1)) { m |= P(3); where = " in protected freed memory"; }
  if (!G.inited) m |= P(16);
  if (t->op_mmap_failed || (c.alloc_busy && (c.hcalls || c.unrep))) m |= P(5) | (c.cpp ? P(14) : 0);
  if (c.expect & EX_DIE) m |= c.expmask;
  if (c.op && (c.op->kind == OP_LEAKREP || c.op->kind == OP_EXIT)) m |= P(10);
  if (c.op && (c.op->kind == OP_CHECK || c.op->kind == OP_CHECKALL)) m |= P(8);
  violate("crash", m, "signal %d inside the tool at pc %lx, address %lx%s (op %u, %s)", sig, pc, fault, where, t->op_id, c.op ? opname[c.op->kind] : "?");
}

// ------------------------------------------------------------------ one run
void model_prepare(Plan &p) {
  g_h.clear(); g_all.clear(); g_live.clear(); g_F.clear();
  g_seq = 0; g_sumF = 0; g_limit = 0; g_table_len = 0; g_had_oom = false; g_hkind = 0; g_shared_null = 0;
  static std::vector<char *> envv;
  envv.clear();
  for (auto &e : p.env) envv.push_back(strdup(e.c_str()));
  envv.push_back(nullptr);
  sim_environ = envv.data();
  if (p.env.empty()) { sim_environ = nullptr; G.res->injected[INJ_NOENV]++; }   // a program may have dropped its environment
  if (p.longname) G.res->injected[INJ_LONGNAME]++;
  read_cfg(p);
  extern size_t g_mmap_max;
  g_mmap_max = cfg0.freeacc ? 3ul << 20 : 24ul << 30;   // every byte is touched on release
  rep_reset();
}
// room on the stack, so that a buffer overrun of the tool does not reach what the simulator needs
static __attribute__((noinline)) void run_padded(Op &o) {
  volatile char room[32768];
  room[0] = room[sizeof room - 1] = 1;
  run_op(o);
  (void)room[0];
}
void model_thread(Thr *t) {
  std::vector<std::vector<Op *>> q(G.plan->phases.size());
  for (auto &o : G.plan->ops)
    if (o.tid == t->id && o.phase < (int)q.size()) q[o.phase].push_back(&o);
  for (size_t ph = 0; ph < q.size(); ++ph) {
    for (Op *o : q[ph]) run_padded(*o);
    if (ph + 1 < q.size()) phase_wait((int)ph);
  }
  bool last = true;
  for (Thr *x : G.thr) if (x != t && x->state != TS_DONE) last = false;
  if (last) model_end();
  thread_finish();
}
