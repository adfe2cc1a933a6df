// Simulated kernel: address space, output descriptors, process control, environment.
#include "sim.h"
#include "model.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <algorithm>

std::vector<Vma> g_vma;
static std::vector<std::pair<addr_t, addr_t>> g_holes;   // recently unmapped ranges, newest last
static size_t g_total[3];
extern bool g_verbose;
size_t g_munmap_failed_bytes;

void vm_init_zygote() {
  void *p = mmap((void *)ARENA_LO, ARENA_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_LO) { fprintf(stderr, "cannot reserve the arena\n"); _exit(3); }
}
void vm_reset() { g_vma.clear(); g_holes.clear(); g_total[1] = g_total[2] = 0; }

static size_t vm_idx(addr_t a) {   // first vma with hi > a
  size_t lo = 0, hi = g_vma.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (g_vma[m].hi > a) hi = m; else lo = m + 1;
  }
  return lo;
}
const Vma *vm_at(addr_t a) {
  size_t i = vm_idx(a);
  return i < g_vma.size() && g_vma[i].lo <= a ? &g_vma[i] : nullptr;
}
bool vm_range_is(addr_t lo, addr_t hi, int prot, int own) {
  while (lo < hi) {
    const Vma *v = vm_at(lo);
    if (!v || (prot >= 0 && v->prot != prot) || (own && v->own != own)) return false;
    lo = v->hi;
  }
  return true;
}
bool vm_any_access(addr_t lo, addr_t hi) {
  for (size_t i = vm_idx(lo); i < g_vma.size() && g_vma[i].lo < hi; ++i)
    if (g_vma[i].prot) return true;
  return false;
}
size_t vm_total(int own) { return g_total[own]; }

static void vm_insert(addr_t lo, addr_t hi, int prot, int own) {
  Vma v = {lo, hi, (uint8_t)prot, (uint8_t)own};
  size_t i = vm_idx(lo);
  g_vma.insert(g_vma.begin() + i, v);
  g_total[own] += hi - lo;
  // merge like a kernel does
  auto same = [](const Vma &a, const Vma &b) { return a.hi == b.lo && a.prot == b.prot && a.own == b.own && a.own == OWN_DUMA; };
  if (i + 1 < g_vma.size() && same(g_vma[i], g_vma[i + 1])) {
    g_vma[i].hi = g_vma[i + 1].hi;
    g_vma.erase(g_vma.begin() + i + 1);
  }
  if (i > 0 && same(g_vma[i - 1], g_vma[i])) {
    g_vma[i - 1].hi = g_vma[i].hi;
    g_vma.erase(g_vma.begin() + i);
  }
}
static void vm_remove(addr_t lo, addr_t hi, std::vector<Vma> *out) {
  size_t i = vm_idx(lo);
  while (i < g_vma.size() && g_vma[i].lo < hi) {
    Vma v = g_vma[i];
    addr_t a = std::max(v.lo, lo), b = std::min(v.hi, hi);
    Vma cut = {a, b, v.prot, v.own};
    if (out) out->push_back(cut);
    g_total[v.own] -= b - a;
    if (v.lo < a && b < v.hi) {
      Vma right = {b, v.hi, v.prot, v.own};
      g_vma[i].hi = a;
      g_vma.insert(g_vma.begin() + i + 1, right);
      return;
    }
    if (v.lo < a) { g_vma[i].hi = a; ++i; }
    else if (b < v.hi) { g_vma[i].lo = b; return; }
    else g_vma.erase(g_vma.begin() + i);
  }
}
static bool vm_free(addr_t lo, addr_t hi) {
  if (lo < ARENA_LO || hi > ARENA_HI || hi <= lo) return false;
  size_t i = vm_idx(lo);
  return i >= g_vma.size() || g_vma[i].lo >= hi;
}
static void real_prot(addr_t lo, addr_t hi, int prot) {
  if (mprotect((void *)lo, hi - lo, prot ? PROT_READ | PROT_WRITE : PROT_NONE))
    harness_error("real mprotect failed: %s", strerror(errno));
}

// gaps of at least len bytes
static addr_t place_bottom_up(size_t len) {
  addr_t at = ARENA_LO + (1ul << 30);
  for (size_t i = vm_idx(at); i < g_vma.size(); ++i) {
    if (g_vma[i].lo >= at + len) return at;
    at = g_vma[i].hi;
  }
  return at + len <= ARENA_HI ? at : 0;
}
static addr_t place_top_down(size_t len) {
  addr_t top = ARENA_HI - (1ul << 30);
  for (size_t i = g_vma.size(); i-- > 0;) {
    if (g_vma[i].lo >= top) continue;
    if (g_vma[i].hi <= top && top - g_vma[i].hi >= len) return top - len;
    top = g_vma[i].lo;
  }
  return top >= ARENA_LO + len ? top - len : 0;
}
static addr_t place_random(size_t len, uint64_t r) {
  // mostly near existing mappings so that neighbours matter
  Rng g(r);
  for (int k = 0; k < 12; ++k) {
    addr_t a;
    if (!g_vma.empty() && g.chance(0.7)) {
      const Vma &v = g_vma[g.below(g_vma.size())];
      size_t gap = PG * g.below(4);
      a = g.chance(0.5) ? v.hi + gap : v.lo - len - gap;
    } else
      a = ARENA_LO + (1ul << 30) + PG * g.below((ARENA_SZ - (4ul << 30)) / PG);
    if (vm_free(a, a + len)) return a;
  }
  return place_bottom_up(len);
}
static addr_t place_hole(size_t len) {
  for (size_t i = g_holes.size(); i-- > 0;) {
    addr_t lo = g_holes[i].first, hi = g_holes[i].second;
    if (hi - lo < len) continue;
    if (vm_free(lo, lo + len)) { probe(PR_HOLE_REUSED); G.res->injected[INJ_HOLE_REUSE]++; return lo; }
    if (vm_free(hi - len, hi)) { probe(PR_HOLE_REUSED); G.res->injected[INJ_HOLE_REUSE]++; return hi - len; }
  }
  return 0;
}
static addr_t place(int pol, addr_t hint, size_t len, uint64_t r) {
  addr_t a = 0;
  hint = pgup(hint);
  switch (pol) {
  case 0:
    if (hint && vm_free(hint, hint + len)) return hint;
    return place_top_down(len);
  case 1: return place_bottom_up(len);
  case 2:
    if (hint && vm_free(hint, hint + len)) return hint;
    return place_random(len, r);
  case 3: return place_random(len, r);
  case 4:
    if ((a = place_hole(len))) return a;
    return place_bottom_up(len);
  default:
    if (!g_vma.empty()) {
      Rng g(r);
      for (int k = 0; k < 8; ++k) {
        const Vma &v = g_vma[g.below(g_vma.size())];
        a = g.chance(0.5) ? v.hi : v.lo - len;
        if (vm_free(a, a + len)) return a;
      }
    }
    return place_bottom_up(len);
  }
}
static addr_t dummy_nth;
static uint64_t opkey(int sys) {
  Thr *t = me;
  return mix(mix(G.plan->seed, t ? t->op_id : 0), (sys << 20) + (t ? t->nth[sys] : ++dummy_nth));
}

// ------------------------------------------------------------------ fault decisions
bool want_fault(int sys, int &eff, int &arg) {
  Thr *t = me;
  if (!t || !G.running) return false;
  uint32_t nth = t->nth[sys]++;
  G.res->syscalls++;
  Plan &p = *G.plan;
  if (p.replay) {
    for (auto &f : p.faults)
      if (f.op == t->op_id && f.sys == sys && f.nth == nth) { eff = f.eff; arg = f.arg; goto hit; }
    return false;
  }
  {
    Phase &ph = p.phases[std::min((size_t)G.phase, p.phases.size() - 1)];
    if (!ph.faults) return false;
    if (ph.faults == 2 && sys != SK_WRITE && sys != SK_OPEN) return false;
    if (sys == SK_MMAP && t->ctx && cx(t).nofault) return false;
    Rng r(mix(mix(p.seed ^ 0xfa17, t->op_id), ((uint64_t)sys << 32) | nth));
    if (!r.chance(p.frate[sys])) return false;
    eff = FE_ERR;
    switch (sys) {
    case SK_WRITE: {
      static const int errs[] = {EINTR, EINTR, EINTR, EIO, ENOSPC};
      eff = r.chance(0.45) ? FE_SHORT : FE_ERR;
      arg = eff == FE_SHORT ? (int)r.below(60) + 1 : errs[r.below(5)];
      break;
    }
    case SK_OPEN: arg = r.chance(0.5) ? EMFILE : EACCES; break;
    default: arg = ENOMEM;
    }
  }
hit:
  if (G.res->nfault < MAXFAULT) {
    FaultRec f = {t->op_id, sys, nth, eff, arg};
    G.res->fault[G.res->nfault++] = f;
  } else
    G.res->nfault = MAXFAULT + 1;
  G.res->injected[sys * 2 + (eff == FE_SHORT)]++;
  return true;
}

extern size_t model_aslimit();   // bytes, 0 = none
size_t g_mmap_max = 8ul << 30;      // the simulated machine refuses larger mappings
static bool over_limits(size_t newbytes, int newvmas) {
  size_t l = model_aslimit();
  if (newbytes && l && g_total[OWN_DUMA] + newbytes > l) { G.res->injected[INJ_ASLIM]++; return true; }
  if (G.plan->mapcount && G.inited && newvmas && (int)g_vma.size() + newvmas > G.plan->mapcount) { G.res->injected[INJ_MAPCOUNT]++; return true; }
  return false;
}
#define VLOG(...) do { if (g_verbose) { fprintf(stderr, "[%llu] t%d op%u ", (unsigned long long)G.steps, me ? me->id : -1, me ? me->op_id : 0); fprintf(stderr, __VA_ARGS__); } } while (0)

static void dead_check(const char *what) {
  if (me && me->dying)
    violate("alive-after-fatal", P(13) | model_expmask(), "after a fatal diagnosis the process went on: %s (op %u)", what, me->op_id);
}

extern "C" {
void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t) {
  step(1, 0x201);
  dead_check("mmap");
  int eff = 0, arg = 0;
  bool f = want_fault(SK_MMAP, eff, arg);
  size_t want = len;
  len = pgup(len);
  if (me) me->op_mmaps++;
  (void)fd;
  if (!(flags & MAP_ANONYMOUS) && fd < 0) { errno = EBADF; return MAP_FAILED; }
  if (want == 0 || len < want) {
    errno = want ? ENOMEM : EINVAL;
    VLOG("mmap(%zu) -> invalid\n", want);
    model_mmap_failed(want);
    return MAP_FAILED;
  }
  addr_t a = 0;
  int err = ENOMEM;
  if (f) err = arg ? arg : ENOMEM;
  else if (len > g_mmap_max || over_limits(len, 1)) err = ENOMEM;
  else if (flags & MAP_FIXED) {
    a = (addr_t)addr;
    if (a < ARENA_LO || a + len > ARENA_HI) { a = 0; }
    else if (!vm_free(a, a + len)) {
      for (addr_t x = a; x < a + len;) {
        const Vma *v = vm_at(x);
        if (v && v->own == OWN_FOREIGN)
          violate("foreign-map", P(20), "a fixed mapping replaces memory of the program at %lx", x);
        if (!v) { x += PG; continue; }
        x = v->hi;
      }
      model_vm_event(1, a, a + len, 0);
      vm_remove(a, a + len, nullptr);
    }
  } else
    a = place(G.plan->place, (addr_t)addr < ARENA_LO || (addr_t)addr >= ARENA_HI ? 0 : (addr_t)addr, len, opkey(SK_MMAP));
  if (!a) {
    errno = err;
    VLOG("mmap(%zu) -> fail errno %d\n", len, err);
    ev(0x71, len);
    model_mmap_failed(len);
    return MAP_FAILED;
  }
  model_chunk(a, len, true);
  int pr = (prot & (PROT_READ | PROT_WRITE)) ? 3 : 0;
  vm_insert(a, a + len, pr, OWN_DUMA);
  real_prot(a, a + len, pr);
  VLOG("mmap(%zu) -> %lx\n", len, a);
  ev(0x72, a, len);
  model_vm_event(0, a, a + len, pr);
  step(1, 0x202);
  return (void *)a;
}
void *sim_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t o) { return sim_mmap(addr, len, prot, flags, fd, o); }
int sim_munmap(void *addr, size_t len) {
  step(1, 0x203);
  dead_check("munmap");
  int eff = 0, arg = 0;
  bool f = want_fault(SK_MUNMAP, eff, arg);
  addr_t a = (addr_t)addr, e = pgup(a + len);
  VLOG("munmap(%lx, %zu)%s\n", a, len, f ? " -> fail" : "");
  ev(0x73, a, len);
  if ((a & (PG - 1)) || len == 0) { errno = EINVAL; return -1; }
  if (a < ARENA_LO || e > ARENA_HI || e < a) {
    violate("foreign-unmap", P(20), "munmap of %lx..%lx, which the tool never mapped", a, e);
  }
  for (addr_t x = a; x < e;) {
    const Vma *v = vm_at(x);
    if (!v) violate("unowned-unmap", P(20), "munmap of %lx..%lx: the part at %lx is not mapped (any more)", a, e, x);
    if (v->own == OWN_FOREIGN) violate("foreign-unmap", P(20), "munmap of %lx..%lx hits a mapping of the program at %lx", a, e, x);
    x = v->hi;
  }
  if (!f && G.plan->mapcount) {
    const Vma *v = vm_at(a);
    if (v && v->lo < a && v->hi > e && over_limits(0, 1)) { f = true; arg = ENOMEM; }
  }
  model_vm_event(f ? 3 : 1, a, e, 0);
  if (f) {
    g_munmap_failed_bytes += e - a;
    errno = arg ? arg : ENOMEM;
    return -1;
  }
  std::vector<Vma> cut;
  vm_remove(a, e, &cut);
  madvise((void *)a, e - a, MADV_DONTNEED);
  real_prot(a, e, 0);
  g_holes.push_back({a, e});
  if (g_holes.size() > 64) g_holes.erase(g_holes.begin());
  step(1, 0x204);
  return 0;
}
int sim_mprotect(void *addr, size_t len, int prot) {
  step(1, 0x205);
  dead_check("mprotect");
  int eff = 0, arg = 0;
  bool f = want_fault(SK_MPROTECT, eff, arg);
  addr_t a = (addr_t)addr, e = pgup(a + len);
  int pr = (prot & (PROT_READ | PROT_WRITE)) ? 3 : 0;
  VLOG("mprotect(%lx, %zu, %d)%s\n", a, len, pr, f ? " -> fail" : "");
  ev(0x74, a, len * 4 + pr);
  if (a & (PG - 1)) { errno = EINVAL; return -1; }
  if (len == 0) return 0;
  if (e < a) { errno = ENOMEM; return -1; }
  for (addr_t x = a; x < e;) {
    const Vma *v = x >= ARENA_LO && x < ARENA_HI ? vm_at(x) : nullptr;
    if (!v) {
      // as the kernel does: ENOMEM; but a tool that does this has lost track of its memory
      violate("unowned-protect", P(20) | P(6), "mprotect of %lx..%lx: %lx is not mapped (any more)", a, e, x);
    }
    if (v->own == OWN_FOREIGN) violate("foreign-protect", P(20), "mprotect of %lx..%lx hits a mapping of the program at %lx", a, e, x);
    x = v->hi;
  }
  if (!f && G.plan->mapcount && G.inited) {
    int add = 0;
    const Vma *v = vm_at(a);
    if (v && v->prot != pr && v->lo < a) add++;
    v = vm_at(e - 1);
    if (v && v->prot != pr && v->hi > e) add++;
    if (add && over_limits(0, add)) { f = true; arg = ENOMEM; }
  }
  if (f) {
    if (me) me->op_mprotect_failed = true;
    errno = arg ? arg : ENOMEM;
    return -1;
  }
  model_vm_event(2, a, e, pr);
  std::vector<Vma> cut;
  vm_remove(a, e, &cut);
  vm_insert(a, e, pr, OWN_DUMA);
  real_prot(a, e, pr);
  step(1, 0x206);
  return 0;
}
}  // extern C

// ------------------------------------------------------------------ the rest of the process' mappings
static unsigned char fpat(addr_t a) { return (unsigned char)(0x5b ^ (a >> 12) ^ (a * 7)); }
static std::vector<std::pair<addr_t, size_t>> g_foreign;
addr_t vm_foreign_map(size_t len, uint64_t rnd) {
  len = pgup(len);
  Rng r(rnd);
  addr_t a = 0;
  int how = (int)r.below(4);
  if (how == 0) a = place_hole(len);
  if (!a && how <= 2 && !g_vma.empty()) {
    for (int k = 0; k < 10 && !a; ++k) {
      const Vma &v = g_vma[r.below(g_vma.size())];
      addr_t x = r.chance(0.6) ? v.hi : v.lo - len;
      if (vm_free(x, x + len)) a = x;
    }
  }
  if (!a) a = place_random(len, r.next());
  if (!a) return 0;
  vm_insert(a, a + len, 3, OWN_FOREIGN);
  real_prot(a, a + len, 3);
  for (size_t i = 0; i < len; i += 64) ((unsigned char *)a)[i] = fpat(a + i);
  const Vma *l = vm_at(a - 1), *h = vm_at(a + len);
  if ((l && l->own == OWN_DUMA) || (h && h->own == OWN_DUMA)) probe(PR_FOREIGN_NEIGHBOUR);
  G.res->injected[INJ_FOREIGN]++;
  g_foreign.push_back({a, len});
  ev(0x75, a, len);
  if (g_verbose) fprintf(stderr, "  program maps %lx..%lx\n", a, a + len);
  return a;
}
void vm_foreign_check(addr_t a, size_t len) {
  if (!vm_range_is(a, a + len, 3, OWN_FOREIGN))
    violate("foreign-gone", P(20), "a mapping of the program at %lx (%zu bytes) lost its protection or existence", a, len);
  for (size_t i = 0; i < len; i += 64)
    if (((unsigned char *)a)[i] != fpat(a + i))
      violate("foreign-changed", P(20), "contents of a mapping of the program changed at %lx", a + i);
}
void vm_foreign_check_all() {
  for (auto &f : g_foreign) vm_foreign_check(f.first, f.second);
}
void vm_foreign_unmap(addr_t a, size_t len) {
  for (size_t i = 0; i < g_foreign.size(); ++i)
    if (g_foreign[i].first == a) {
      len = g_foreign[i].second;
      vm_foreign_check(a, len);
      g_foreign.erase(g_foreign.begin() + i);
      vm_remove(a, a + len, nullptr);
      madvise((void *)a, len, MADV_DONTNEED);
      real_prot(a, a + len, 0);
      g_holes.push_back({a, a + len});
      ev(0x76, a, len);
      if (g_verbose) fprintf(stderr, "  program unmaps %lx..%lx\n", a, a + len);
      return;
    }
}
addr_t vm_foreign_any(uint64_t r) {
  if (g_foreign.empty()) return 0;
  return g_foreign[r % g_foreign.size()].first;
}

// ------------------------------------------------------------------ outputs
struct Sink { std::string text; };
static Sink g_sink[3];                       // 0: fd 1, 1: fd 2, 2: file
static bool g_fdopen[9], g_fd0;              // number 8 stands for descriptor 0
static int g_fdflags[9];
static size_t g_fdoff[9];
std::string g_outfile;                       // configured output file
bool g_sink_bad[3];

std::vector<WRec> g_writes;
bool g_sink_lost[3];                         // something was lost legitimately (hard error)
static std::string g_pend[8][3];
void write_flush_check(int tid) {      // the call is over: nothing may be left over
  for (int s = 0; s < 3; ++s)
    if (!g_pend[tid & 7][s].empty()) { g_sink_bad[s] = true; g_pend[tid & 7][s].clear(); }
}
void sink_reset() {
  g_fd0 = false;
  for (bool &b : g_fdopen) b = false;
  for (auto &a : g_pend)
    for (auto &s : a) s.clear();
  for (bool &b : g_sink_bad) b = false;
  for (bool &l : g_sink_lost) l = false;
  for (auto &s : g_sink) s.text.clear();
  g_writes.clear();
}
std::string sink_text(int w) { return g_sink[w].text; }

// lines of the file at off.. are about to be overwritten or cut off
static void file_lost(size_t off, const char *how) {
  std::string &t = g_sink[2].text;
  if (off >= t.size()) return;
  uint32_t m = P(18) | P(13);
  std::string l = t.substr(off);
  if (l.find("not freed") != l.npos || l.find("eport") != l.npos) m |= P(10);
  violate("output-lost", m, "%zu bytes written to the file before are lost: %s", l.size(), how);
}
static int file_opened(int i, int flags) {
  g_fdopen[i] = true;
  g_fdflags[i] = flags;
  g_fdoff[i] = 0;
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
    file_lost(0, "it is opened with O_TRUNC");
    g_sink[2].text.clear();
  }
  return i == 8 ? 0 : 100 + i;
}
extern "C" {
int sim_open(const char *path, int flags, ...) {
  step(1, 0x207);
  dead_check("open");
  int eff = 0, arg = 0;
  bool f = want_fault(SK_OPEN, eff, arg);
  if (!path || g_outfile.empty() || g_outfile != path) {
    // not a configured output: /dev/zero style backing etc. is not simulated
    VLOG("open(%s) unknown\n", path ? path : "(null)");
    errno = ENOENT;
    return -1;
  }
  if (G.plan->stdperm & 4) { f = true; arg = EACCES; }
  if (f) {
    g_sink_lost[2] = true;
    WRec w = {me ? me->id : -1, me ? me->op_id : 0, 2, (uint32_t)g_sink[2].text.size(), 0, true};
    g_writes.push_back(w);
    errno = arg;
    return -1;
  }
  if (G.plan->fd0 && !g_fd0) { g_fd0 = true; G.res->injected[INJ_FD0]++; return file_opened(8, flags); }
  for (int i = 0; i < 8; ++i)
    if (!g_fdopen[i]) return file_opened(i, flags);
  errno = EMFILE;
  return -1;
}
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_close(int fd) {
  step(1, 0x208);
  if (fd >= 100 && fd < 108) {
    if (!g_fdopen[fd - 100]) { errno = EBADF; return -1; }
    g_fdopen[fd - 100] = false;
    return 0;
  }
  if (fd == 0 && g_fd0) { g_fd0 = g_fdopen[8] = false; return 0; }
  if (fd <= 2 && fd >= (G.plan->fd0 ? 1 : 0)) violate("closes-std", P(20), "the tool closes descriptor %d of the program", fd);
  errno = EBADF;
  return -1;
}
static int fd_index(int fd) {
  if (fd == 0 && g_fd0) return 8;
  return fd >= 100 && fd < 108 && g_fdopen[fd - 100] ? fd - 100 : -1;
}
long sim_lseek(int fd, long off, int wh) {
  int i = fd_index(fd);
  if (i < 0) { errno = fd >= 0 && fd <= 2 ? ESPIPE : EBADF; return -1; }
  g_fdoff[i] = (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? g_fdoff[i] : g_sink[2].text.size()) + off;
  return (long)g_fdoff[i];
}
long sim_lseek64(int fd, long off, int wh) { return sim_lseek(fd, off, wh); }
ssize_t sim_write(int fd, const void *buf, size_t n) {
  step(1, 0x209);
  dead_check("write");
  int s = fd == 1 ? 0 : fd == 2 ? 1 : fd >= 100 && fd < 108 && g_fdopen[fd - 100] ? 2 : fd == 0 && g_fd0 ? 2 : -1;
  int eff = 0, arg = 0;
  int fi = s == 2 ? fd_index(fd) : -1;
  if (s < 0 || (fi >= 0 && (g_fdflags[fi] & O_ACCMODE) == O_RDONLY)) { errno = EBADF; return -1; }
  bool f = want_fault(SK_WRITE, eff, arg);
  WRec w = {me ? me->id : -1, me ? me->op_id : 0, s, (uint32_t)g_sink[s].text.size(), 0, false};
  std::string &pend = g_pend[me ? me->id & 7 : 0][s];
  if (!pend.empty()) {
    // the rest of an interrupted or partial write must follow first
    if (n < pend.size() || memcmp(buf, pend.data(), pend.size())) g_sink_bad[s] = true;
    else probe(PR_SHORT_WRITE_RESUMED);
    pend.clear();
  }
  if (G.plan->stdperm & (1 << s)) {
    g_sink_lost[s] = true;
    w.lost = true;
    g_writes.push_back(w);
    if (G.plan->stdperm & 8) {            // nothing written, no error: errno says nothing
      if (g_writes.size() & 1) errno = EINTR;
      return 0;
    }
    errno = s == 2 ? ENOSPC : EIO;
    return -1;
  }
  ssize_t done = (ssize_t)n;
  if (f && eff == FE_ERR) {
    if (arg == EINTR) {
      VLOG("write(%d) -> EINTR\n", fd);
      pend.assign((const char *)buf, n);
      errno = EINTR;
      step(1, 0x20b);
      return -1;
    }
    w.lost = true;
    g_sink_lost[s] = true;
    g_writes.push_back(w);
    VLOG("write(%d) -> errno %d\n", fd, arg);
    errno = arg;
    return -1;
  }
  if (f && eff == FE_SHORT && n > 1) done = std::min((ssize_t)n - 1, (ssize_t)(arg > 0 ? arg : 1));
  if (done < (ssize_t)n) pend.assign((const char *)buf + done, n - done);
  if (fi >= 0) {
    if (!(g_fdflags[fi] & O_APPEND)) file_lost(g_fdoff[fi], "a write does not append");
    g_fdoff[fi] = g_sink[2].text.size() + done;
  }
  g_sink[s].text.append((const char *)buf, done);
  w.len = (uint32_t)done;
  g_writes.push_back(w);
  VLOG("write(%d): %.*s\n", fd, (int)done, (const char *)buf);
  ev(0x77, (uint64_t)done, s);
  step(1, 0x20a);
  return done;
}
int sim_getpid(void) { return 4242; }
int sim_kill(int pid, int sig) {
  step(1, 0x20c);
  if (pid != 4242 && pid != 0) violate("kill-other", P(20) | P(13), "signal %d sent to process %d", sig, pid);
  if (sig == SIGILL || sig == SIGABRT || sig == SIGTRAP || sig == SIGSEGV) {
    if (G.plan->sigill && model_handled_signal(sig)) return 0;
  } else if (sig != SIGKILL) {
    harness_error("unexpected signal %d", sig);
  }
  model_death(0, sig);
}
int sim_raise(int sig) { return sim_kill(4242, sig); }
void sim__exit(int code) { step(1, 0x20d); model_death(1, code); }
static void exits_through_client(const char *f, int code) {
  if (me && me->in_call)
    violate("runs-exit-handlers", P(13), "op %u: the process is ended by %s(), which first runs the handlers and destructors of the program", me->op_id, f);
  sim__exit(code);
}
void sim_exit(int code) { exits_through_client("exit", code); }
void sim__Exit(int code) { sim__exit(code); }
void sim_quick_exit(int code) { exits_through_client("quick_exit", code); }
void sim_abort(void) {
  if (G.plan->sigill && me && !me->dying) model_handled_signal(SIGABRT);
  model_death(2, 0);
}
long sim_sysconf(int name) {
  if (name == _SC_PAGESIZE) {
    if (G.plan->badpage) { G.res->injected[INJ_BADPAGE]++; return 8192; }
    return 4096;
  }
  return sysconf(name);
}
long sim___sysconf(int name) { return sim_sysconf(name); }
int sim_getpagesize(void) { return (int)sim_sysconf(_SC_PAGESIZE); }
char **sim_environ;
char *sim_getenv(const char *n) {
  size_t l = strlen(n);
  for (char **e = sim_environ; e && *e; ++e)
    if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
typedef void (*vfn)(void);
static std::vector<vfn> g_atexit;
int sim_atexit(vfn f) { g_atexit.push_back(f); return 0; }
void run_atexit() {
  while (!g_atexit.empty()) {
    vfn f = g_atexit.back();
    g_atexit.pop_back();
    f();
  }
}
int sim_cxa_atexit(void (*)(void *), void *, void *) { return 0; }
}
bool g_fd_leaked() {                   // one that is kept for all messages is fine
  int n = 0;
  for (bool b : g_fdopen) n += b;
  return n > 1;
}
