// Plan text format and plan generation.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

const char *opname[OP_NKINDS] = {"none", "alloc", "free", "realloc", "usable", "check", "checkall", "touch", "probe-guard",
  "probe-freed", "copy", "leakrep", "set", "fmap", "funmap", "corrupt", "nestnew", "nestdel",
  "handler", "freenull", "churn", "exit", "start", "m-free", "m-wild", "m-mismatch",
  "m-realloc", "overlap", "yield", "forget", "pm-bad"};
const char *probename[PR_N] = {"table_grown", "chunk_new", "reduced_fully", "reduced_to_first_page", "oom_null", "oom_abort", "bad_alloc",
  "handler_called", "lock_contended", "lock_recursive", "preempt_holding_lock", "preempt_without_lock",
  "guard_fault", "freed_fault", "realloc_moved", "realloc_failed", "slack_abort", "double_free_abort",
  "mismatch_abort", "wild_abort", "zero_null", "zero_shared", "zero_unique", "leak_lines",
  "exit_concurrent", "short_write_resumed", "hole_reused", "foreign_neighbour", "align_gt_page",
  "below", "unrepresentable_request", "mprotect_abort", "init_fail", "churn", "budget_full", "maxalloc_reduce",
  "nested_delete", "check_concurrent", "race_double_free", "big_block", "early_alloc", "recovered",
  "free_access_seen", "handler_retry_ok", "usable", "strategy0_abort", "trace_lines", "limited_protect", "leakrep_midrun", "truncated", "invalid_alignment"};

std::string plan_text(const Plan &p) {
  std::string s;
  char b[400];
  snprintf(b, sizeof b, "duma-sim-plan 1\nvariant %s\nprop %d\nseed %llu\nthreads %d\nplace %d\nsigill %d\nearly %d\nmapcount %d\nexitrun %d\nstdperm %ld\nbadpage %d\nfd0 %d\nlongname %d\ngiant %d\n",
           variant_name, p.prop, (unsigned long long)p.seed, p.nthreads, p.place, p.sigill, p.early, p.mapcount, p.exit_running, p.stdperm, p.badpage, p.fd0, p.longname, p.giant);
  s = b;
  for (auto &e : p.env) s += "env " + e + "\n";
  for (auto &f : p.phases) {
    snprintf(b, sizeof b, "phase %d %d %ld %d\n", f.faults, f.quiesce, f.aslim, f.misuse);
    s += b;
  }
  for (auto &o : p.ops) {
    snprintf(b, sizeof b, "op %u %d %d %s %d %d %d %llu %llu\n", o.id, o.phase, o.tid, opname[o.kind], o.h, o.form, o.ak,
             (unsigned long long)o.a, (unsigned long long)o.b);
    s += b;
  }
  for (auto &r : p.sched) {
    snprintf(b, sizeof b, "switch %u %u %d %d\n", r.op, r.step, r.tid, r.next);
    s += b;
  }
  static const char *sn[] = {"mmap", "munmap", "mprotect", "write", "open"};
  for (auto &f : p.faults) {
    snprintf(b, sizeof b, "fault %u %s %u %s %d\n", f.op, sn[f.sys], f.nth, f.eff == FE_SHORT ? "short" : "fail", f.arg);
    s += b;
  }
  if (!p.replay) {
    snprintf(b, sizeof b, "draw %.9g %.9g %d %.9g %.9g %.9g %.9g %.9g\n", p.preempt, p.unlocked_boost, p.pct, p.frate[0], p.frate[1],
             p.frate[2], p.frate[3], p.frate[4]);
    s += b;
  }
  if (!p.expect.empty()) s += "expect " + p.expect + "\n";
  return s;
}
bool plan_parse(const std::string &txt, Plan &p) {
  p = Plan();
  p.replay = true;
  size_t i = 0;
  while (i < txt.size()) {
    size_t e = txt.find('\n', i);
    if (e == std::string::npos) e = txt.size();
    std::string l = txt.substr(i, e - i);
    i = e + 1;
    char w[40];
    if (sscanf(l.c_str(), "%39s", w) != 1) continue;
    const char *rest = l.c_str() + strlen(w);
    while (*rest == ' ') rest++;
    std::string k = w;
    unsigned long long u, u2;
    if (k == "prop") p.prop = atoi(rest);
    else if (k == "seed") p.seed = strtoull(rest, 0, 10);
    else if (k == "threads") p.nthreads = atoi(rest);
    else if (k == "place") p.place = atoi(rest);
    else if (k == "sigill") p.sigill = atoi(rest);
    else if (k == "early") p.early = atoi(rest);
    else if (k == "mapcount") p.mapcount = atoi(rest);
    else if (k == "exitrun") p.exit_running = atoi(rest);
    else if (k == "stdperm") p.stdperm = atol(rest);
    else if (k == "badpage") p.badpage = atoi(rest);
    else if (k == "fd0") p.fd0 = atoi(rest);
    else if (k == "giant") p.giant = atoi(rest);
    else if (k == "longname") p.longname = atoi(rest);
    else if (k == "env") p.env.push_back(rest);
    else if (k == "phase") {
      Phase f;
      sscanf(rest, "%d %d %ld %d", &f.faults, &f.quiesce, &f.aslim, &f.misuse);
      p.phases.push_back(f);
    } else if (k == "op") {
      Op o;
      char n[40];
      if (sscanf(rest, "%u %d %d %39s %d %d %d %llu %llu", &o.id, &o.phase, &o.tid, n, &o.h, &o.form, &o.ak, &u, &u2) != 9) return false;
      o.a = u; o.b = u2;
      for (int q = 0; q < OP_NKINDS; ++q) if (!strcmp(n, opname[q])) o.kind = q;
      p.ops.push_back(o);
    } else if (k == "switch") {
      SchedRec r;
      int t, n;
      sscanf(rest, "%u %u %d %d", &r.op, &r.step, &t, &n);
      r.tid = t; r.next = n;
      p.sched.push_back(r);
    } else if (k == "fault") {
      FaultRec f;
      char sy[20], ef[20];
      sscanf(rest, "%u %19s %u %19s %d", &f.op, sy, &f.nth, ef, &f.arg);
      f.sys = sy[0] == 'w' ? SK_WRITE : sy[0] == 'o' ? SK_OPEN : sy[1] == 'u' ? SK_MUNMAP : sy[1] == 'p' ? SK_MPROTECT : SK_MMAP;
      f.eff = ef[0] == 's' ? FE_SHORT : FE_ERR;
      p.faults.push_back(f);
    } else if (k == "draw") {
      sscanf(rest, "%lf %lf %d %lf %lf %lf %lf %lf", &p.preempt, &p.unlocked_boost, &p.pct, &p.frate[0], &p.frate[1], &p.frate[2],
             &p.frate[3], &p.frate[4]);
      p.replay = false;
    } else if (k == "expect") p.expect = rest;
  }
  return !p.phases.empty();
}

// ------------------------------------------------------------------ generation
namespace {
struct H { int h; int fam; size_t size; bool node; int depth; };
struct Gen {
  Plan &p;
  Rng r;
  int prop, tier;
  uint32_t nid = 1;
  int nh = 0;
  bool freeacc = false, zero_ok = true, new_zero_ok = true, huge_ok = false, huge_many = false, unrep = false, pow2 = false;
  bool small_only = false, align_big = true, plain_ok = true, members = true, use_cpp = true;
  int m0 = 3;
  long align = 1;
  std::vector<std::vector<H>> own;
  std::vector<H> parked, freed;
  std::vector<std::pair<int, int>> fmaps;
  int nfm = 0;
  bool handlers = false, hot = false;
  int aw[AK_N];
  int ow[OP_NKINDS];
  Gen(Plan &pl, uint64_t s) : p(pl), r(s) { memset(aw, 0, sizeof aw); memset(ow, 0, sizeof ow); }

  Op &add(int ph, int tid, int kind) {
    Op o;
    o.id = nid++; o.phase = ph; o.tid = tid; o.kind = kind;
    p.ops.push_back(o);
    return p.ops.back();
  }
  int form() {
    int x = (int)r.below(10);
    if (!plain_ok) return FORM_DIRECT;
    return x < 6 ? FORM_DIRECT : x < 8 ? FORM_PLAIN : FORM_MACRO;
  }
  size_t size(bool cpp) {
    if (pow2) return (size_t)(PG << (1 + r.below(7))) - PG - (r.chance(0.5) ? 0 : r.below(PG / 2));
    if (hot && !small_only && !freeacc && r.chance(0.35)) return 100000 + r.below(1500000);
    int x = (int)r.below(100);
    bool z = cpp ? new_zero_ok : zero_ok;
    if (x < 7 && z) return 0;
    if (x < 40) return 1 + r.below(64);
    if (x < 58) return 1 + r.below(4096);
    if (x < 74) { long b = 4096 * (1 + (long)r.below(3)); return (size_t)(b - 16 + (long)r.below(33)); }
    if (x < 92 || small_only) return 1 + r.below(small_only ? 20000 : 65536);
    if (freeacc) return 1 + r.below(40000);
    if (x < 99) return 100000 + r.below(900000);
    return (1u << 20) + r.below(1u << 20);
  }
  void mkalloc(int ph, int t, int force_ak = -1, long force_size = -1) {
    int tot = 0, ak = 0;
    for (int i = 0; i < AK_N; ++i) tot += aw[i];
    int x = (int)r.below(tot);
    for (ak = 0; ak < AK_N; ++ak) { if (x < aw[ak]) break; x -= aw[ak]; }
    if (force_ak >= 0) ak = force_ak;
    Op &o = add(ph, t, OP_ALLOC);
    o.ak = ak;
    o.h = nh++;
    o.form = form();
    bool cpp = ak >= AK_NEW;
    size_t n = size(cpp);
    if (force_size >= 0) n = (size_t)force_size;
    o.b = n;
    o.a = 0;
    if (ak == AK_CALLOC) {
      static const int f[] = {1, 2, 3, 4, 8, 16};
      o.a = f[r.below(6)];
      if (n) o.b = std::max<size_t>(1, n / o.a);
    } else if (ak == AK_MEMALIGN || ak == AK_PMEMALIGN) {
      int k = (int)r.below(align_big ? 15 : 13);
      o.a = 1ul << k;
      if (ak == AK_PMEMALIGN && o.a < 8) o.a = 8;
      if (o.a > PG && pow2) o.a = 8;
    } else if (ak == AK_STRDUP)
      o.b = std::min<size_t>(n, 1 + r.below(r.chance(0.1) ? 80000 : 300));
    if (unrep && r.chance(0.12) && !pow2 && ak != AK_STRDUP) {
      // sizes that cannot be represented or obtained
      static const uint64_t big[] = {~0ull, ~0ull - 1, ~0ull - 4095, ~0ull - 4096, ~0ull - 8191, ~0ull - 8192, 1ull << 63, (1ull << 63) - 1,
                                     (1ull << 63) + 5000, ~0ull - (1 << 20), ~0ull - 5000000, 1ull << 50, (1ull << 62) + 1};
      if (ak == AK_CALLOC) {
        static const uint64_t fa[] = {1ull << 32, (1ull << 32) + 1, 1ull << 33, 1ull << 62, 3, 1ull << 63, ~0ull, 0x5555555555555556ull};
        o.a = fa[r.below(8)];
        o.b = fa[r.below(8)];
      } else
        o.b = big[r.below(13)] - (r.chance(0.3) ? r.below(20000) : 0);
      if (o.form == FORM_MACRO) o.form = FORM_DIRECT;
    } else if (huge_ok && r.chance(huge_many ? 0.3 : 0.03) && ak != AK_STRDUP && ak != AK_CALLOC) {
      if (huge_many && r.chance(0.7)) o.b = ((1ull + r.below(3)) << 32) + (r.chance(0.5) ? r.below(30000) : -r.below(30000));
      else o.b = (1ull << 31) + r.below(3ull << 30);
      if (o.form == FORM_MACRO) o.form = FORM_DIRECT;
    } else if (unrep && (ak == AK_MEMALIGN) && r.chance(0.1))
      o.a = 1ull << (35 + r.below(28));
    if (o.form == FORM_MACRO) {
      if (ak == AK_NEW) o.b = 48;
      if (ak >= AK_MEMB || ak == AK_NEW_NT || ak == AK_NEWA_NT) o.form = FORM_DIRECT;
    }
    if (ak >= AK_MEMB && o.form == FORM_PLAIN) o.form = FORM_DIRECT;
    int fam = ak <= AK_REALLOC ? FAM_C : ak <= AK_NEW_NT ? FAM_NEW : ak <= AK_NEWA_NT ? FAM_NEWA : ak == AK_MEMB ? FAM_MEMB : FAM_MEMBA;
    own[t].push_back({o.h, fam, (size_t)o.b, false, 0});
  }
  bool take(int t, H &out, bool node = false, bool remove = true) {
    std::vector<int> c;
    for (int i = 0; i < (int)own[t].size(); ++i) if (own[t][i].node == node) c.push_back(i);
    if (c.empty()) return false;
    int i = c[r.below(c.size())];
    if (r.chance(0.35)) i = c.back();
    out = own[t][i];
    if (remove) own[t].erase(own[t].begin() + i);
    return true;
  }
  void mkfree(int ph, int t) {
    H x;
    if (!take(t, x)) { mkalloc(ph, t); return; }
    Op &o = add(ph, t, OP_FREE);
    o.h = x.h;
    o.form = form();
    o.ak = (int)r.below(4);
    if (x.fam == FAM_C) { if (r.chance(0.12)) o.ak |= 8; }
    else if (o.form != FORM_MACRO && r.chance(0.25)) o.ak |= 4;
    freed.push_back(x);
  }
  void op(int ph, int t) {
    int tot = 0, k = 0;
    for (int i = 0; i < OP_NKINDS; ++i) tot += ow[i];
    int x = (int)r.below(tot);
    for (k = 0; k < OP_NKINDS; ++k) { if (x < ow[k]) break; x -= ow[k]; }
    H h{};
    switch (k) {
    case OP_ALLOC: mkalloc(ph, t); break;
    case OP_FREE: mkfree(ph, t); break;
    case OP_REALLOC: {
      bool found = false;
      for (int tries = 0; tries < 4 && !found; ++tries) {
        if (!take(t, h, false, false)) break;
        found = h.fam == FAM_C;
      }
      if (!found) { mkalloc(ph, t, AK_MALLOC); break; }
      Op &o = add(ph, t, OP_REALLOC);
      o.h = h.h; o.form = form();
      size_t n = size(false);
      if (!n) n = 1;
      if (n > 70000) n = 1 + n % 70000;
      if (r.chance(0.1)) n = std::min<size_t>(h.size ? h.size : 1, 60000);
      if (unrep && r.chance(0.1)) n = ~0ull - r.below(1 << 22);
      o.b = n;
      break;
    }
    case OP_USABLE: case OP_CHECK: case OP_TOUCH: case OP_PROBE_GUARD: {
      if (!take(t, h, false, false)) { mkalloc(ph, t); break; }
      Op &o = add(ph, t, k);
      o.h = h.h; o.form = r.chance(0.5) ? FORM_PLAIN : FORM_DIRECT;
      o.a = r.next();
      if ((k == OP_USABLE || k == OP_CHECK) && o.a % 16 == 0) o.ak = 1;     // of the null address
      break;
    }
    case OP_PROBE_FREED: {
      if (freed.empty()) { mkfree(ph, t); break; }
      Op &o = add(ph, t, k);
      o.h = freed[r.below(freed.size())].h;
      o.a = r.next();
      break;
    }
    case OP_COPY: {
      H h2;
      if (own[t].size() < 2 || !take(t, h, false, false) || !take(t, h2, false, false) || h.h == h2.h) { mkalloc(ph, t); break; }
      Op &o = add(ph, t, k);
      o.h = h.h; o.a = (uint64_t)h2.h;
      break;
    }
    case OP_FMAP: {
      Op &o = add(ph, t, k);
      o.h = nfm++; o.a = PG * (1 + r.below(r.chance(0.2) ? 300 : 6)); o.b = r.next();
      fmaps.push_back({o.h, t});
      break;
    }
    case OP_FUNMAP: {
      if (fmaps.empty()) { Op &o = add(ph, t, OP_FMAP); o.h = nfm++; o.a = PG * (1 + r.below(6)); o.b = r.next(); fmaps.push_back({o.h, t}); break; }
      size_t i = r.below(fmaps.size());
      Op &o = add(ph, t, k);
      o.h = fmaps[i].first;
      fmaps.erase(fmaps.begin() + i);
      break;
    }
    case OP_NESTNEW: {
      Op &o = add(ph, t, k);
      o.h = nh++; o.a = 1 + r.below(r.chance(0.3) ? 6 : 3);
      o.b = r.chance(0.5) ? 0 : r.below(128);
      own[t].push_back({o.h, FAM_NEW, 40, true, (int)o.a});
      break;
    }
    case OP_NESTDEL: {
      if (!take(t, h, true)) { Op &o = add(ph, t, OP_NESTNEW); o.h = nh++; o.a = 1 + r.below(3); own[t].push_back({o.h, FAM_NEW, 40, true, (int)o.a}); break; }
      Op &o = add(ph, t, k);
      o.h = h.h; o.a = (uint64_t)h.depth;
      break;
    }
    case OP_HANDLER: { Op &o = add(ph, t, k); o.ak = (int)r.below(6); if (r.chance(0.3)) o.ak = 1; break; }
    case OP_CHURN: {
      Op &o = add(ph, t, k);
      o.a = 10 + r.below(60);
      o.b = pow2 ? (PG << (1 + r.below(freeacc ? 3 : 8))) - PG : 1 + r.below(30000);
      o.ak = r.chance(0.7) ? AK_MALLOC : AK_NEWA;
      o.form = FORM_DIRECT;
      o.h = -1;
      break;
    }
    case OP_PMBAD: {
      static const long bad[] = {0, 1, 2, 3, 4, 6, 12, 24, 40, 48, 96, 1000, 4095, 4097, 6144, 12288};
      Op &o = add(ph, t, k);
      o.a = (uint64_t)bad[r.below(16)];
      if (r.chance(0.1)) o.a = 0 - (uint64_t)(1 + r.below(9000));
      if (r.chance(0.1)) o.a = (1ull << 63) + 8;
      o.b = r.below(9000);
      o.form = (int)r.below(3);
      break;
    }
    case OP_FREENULL: { Op &o = add(ph, t, k); o.ak = (int)r.below(6); o.form = (int)r.below(2); break; }
    default: add(ph, t, k);
    }
  }
  void shuffle_owner() {       // after a barrier blocks may change hands
    std::vector<H> all = parked;
    parked.clear();
    for (auto &v : own) { all.insert(all.end(), v.begin(), v.end()); v.clear(); }
    for (auto &h : all) {
      if (r.chance(0.3)) parked.push_back(h);
      else own[r.below(own.size())].push_back(h);
    }
  }
};
}  // namespace

static void put(Plan &p, const char *k, long v) {
  char b[100];
  snprintf(b, sizeof b, "%s=%ld", k, v);
  p.env.push_back(b);
}

// one resize of a block beyond 4 GB: counters of the copy must not wrap
void plan_giant(Plan &p, int prop, uint64_t seed) {
  p = Plan();
  p.prop = prop; p.seed = seed; p.giant = 1;
  p.env = {"DUMA_FILL=-1", "DUMA_DISABLE_BANNER=1"};
  p.phases.push_back(Phase());
  static const struct { int kind, ak; uint64_t b; } o[] = {{OP_START, 0, 0}, {OP_ALLOC, AK_MALLOC, (1ull << 32) + 4096}, {OP_REALLOC, 0, (1ull << 32) + 14096}, {OP_EXIT, 0, 0}};
  for (int i = 0; i < 4; ++i) {
    Op x;
    x.id = i + 1; x.kind = o[i].kind; x.ak = o[i].ak; x.b = o[i].b; x.form = FORM_DIRECT;
    x.h = i == 1 || i == 2 ? 0 : -1;
    p.ops.push_back(x);
  }
}
void plan_generate(Plan &p, int prop, uint64_t seed, const char *, int tier) {
  p = Plan();
  p.prop = prop;
  p.seed = seed;
  Gen g(p, mix(seed, 0x9e11 + prop));
  Rng &r = g.r;
  g.prop = prop; g.tier = tier;
  static const int defthr[] = {1, 2, 2, 2, 3, 3, 4};
  p.nthreads = defthr[r.below(7)];
  // allocation mix
  static const int aw0[AK_N] = {20, 8, 10, 8, 5, 5, 4, 10, 6, 8, 5, 3, 3};
  memcpy(g.aw, aw0, sizeof aw0);
  for (int i = 1; i < AK_N; ++i) if (r.chance(0.25)) g.aw[i] = 0;   // swarm
  auto W = [&](int k, int w) { g.ow[k] = w; };
  W(OP_ALLOC, 34); W(OP_FREE, 26); W(OP_REALLOC, 9); W(OP_USABLE, 3); W(OP_CHECK, 3); W(OP_CHECKALL, 2); W(OP_TOUCH, 4);
  W(OP_PROBE_GUARD, 2); W(OP_PROBE_FREED, 1); W(OP_COPY, 1); W(OP_FREENULL, 2); W(OP_PMBAD, prop == 5 || prop == 9 ? 2 : 1); W(OP_NESTNEW, 2); W(OP_NESTDEL, 2); W(OP_LEAKREP, 0);
  int nruns = 1 + (int)r.below(2);        // fault-free phases
  bool faults = r.chance(0.4);
  bool aslim = r.chance(0.35);
  bool recover = true, misuse = false, do_exit = true;
  int opsper = 6 + (int)r.below(14);
  // configuration
  long pf = -1, maxa = -1, align = 1;
  int below = -1, fill = -2, slack = -1, show = -1, repall = -1, freq = 0, failexit = 0, freeacc = -1, m0 = -1, n0 = -1;
  int o1 = -1, o2 = -1, ofile = 0, nobanner = -1;
  int x = (int)r.below(10);
  pf = x < 5 ? -1 : x < 7 ? 0 : (long)(8 * (1 + r.below(60)));
  bool hugelim = r.chance(0.04);       // limits beyond 32 bits
  if (r.chance(0.4)) below = r.chance(0.6);
  if (r.chance(0.4)) { static const long al[] = {1, 2, 4, 8, 16, 32, 64, 4096, 8192, 16384}; align = al[r.below(10)]; }
  if (r.chance(0.3)) fill = (int)r.below(4) ? (int)r.below(256) : -1;
  if (r.chance(0.3)) slack = (int)r.below(256);
  if (r.chance(0.15)) freq = 1 + (int)r.below(8);
  if (r.chance(0.1)) freeacc = 1;
  if (r.chance(0.3)) repall = r.chance(0.7);
  if (r.chance(0.7)) nobanner = 1;
  if (r.chance(0.1)) maxa = 1024 * (1 + (long)r.below(6));
  p.place = (int)r.below(6);
  p.sigill = r.chance(0.3);
  // schedule
  static const double pre[] = {0, 0.0005, 0.002, 0.01, 0.03, 0.1};
  p.preempt = pre[r.below(6)];
  if (p.nthreads > 1 && p.preempt == 0 && r.chance(0.7)) p.preempt = 0.01;
  p.unlocked_boost = r.chance(0.5) ? 1 + r.below(12) : 1;
  p.pct = r.chance(0.2);
  double fr = r.chance(0.3) ? 0.5 : r.chance(0.5) ? 0.15 : 0.03;
  p.frate[SK_MMAP] = fr;
  p.frate[SK_MUNMAP] = r.chance(0.3) ? 0.1 : 0;
  p.frate[SK_MPROTECT] = r.chance(0.1) ? 0.003 : 0;
  bool wfaults = false;
  bool exitcheck = false, soloall = false;
  int mis_kind = 0;
  bool init_faults = false, soak = false;

  switch (prop) {
  case 1:
    g.aw[AK_MEMALIGN] += 6; g.aw[AK_PMEMALIGN] += 4;
    if (below < 0) below = r.chance(0.5);
    W(OP_PROBE_GUARD, 8); W(OP_REALLOC, 14);
    g.huge_ok = r.chance(0.15);
    p.frate[SK_MPROTECT] = r.chance(0.25) ? 0.01 : 0;
    if (r.chance(0.15)) p.mapcount = 30 + (int)r.below(150);
    break;
  case 2:
    W(OP_REALLOC, 22); W(OP_TOUCH, 10); W(OP_COPY, 4); W(OP_USABLE, 5);
    g.aw[AK_MALLOC] = 25;
    g.huge_ok = r.chance(0.15);
    break;
  case 3:
    W(OP_PROBE_FREED, 6); W(OP_FREE, 34); W(OP_REALLOC, 14);
    pf = r.chance(0.6) ? -1 : r.chance(0.3) ? 0 : (long)(8 + r.below(400));
    p.frate[SK_MUNMAP] = r.chance(0.4) ? 0.2 : 0;
    p.frate[SK_MPROTECT] = r.chance(0.3) ? 0.02 : 0;
    opsper += 6;
    break;
  case 4:
    g.align_big = false; align = r.chance(0.5) ? 1 : 8;
    g.small_only = true;
    W(OP_FREE, 32); W(OP_REALLOC, 12); W(OP_CHURN, 3);
    opsper = 14 + (int)r.below(30);
    if (r.chance(0.65)) { pf = r.chance(0.4) ? 8 + (long)r.below(60) : 8 + (long)r.below(600); maxa = -1; }
    else { pf = r.chance(0.5) ? -1 : r.chance(0.6) ? 8 + (long)r.below(120) : 2000 + (long)r.below(4000); maxa = 1024 + (long)r.below(4096); g.small_only = false; }
    faults = r.chance(0.4); aslim = r.chance(0.4);
    p.frate[SK_MUNMAP] = 0;
    p.nthreads = r.chance(0.6) ? 1 : 2 + (int)r.below(2);
    break;
  case 5:
    faults = true; aslim = r.chance(0.6);
    g.unrep = r.chance(0.5);
    g.huge_ok = r.chance(0.1);
    failexit = r.chance(0.3) ? (r.chance(0.5) ? 1 : -1) : 0;
    wfaults = r.chance(0.2);
    W(OP_REALLOC, 14); W(OP_ALLOC, 46);
    p.frate[SK_MPROTECT] = 0;
    if (r.chance(0.2)) { W(OP_HANDLER, 3); }
    break;
  case 6:
    W(OP_USABLE, 10); W(OP_CHECK, 8); W(OP_CHECKALL, 6); W(OP_LEAKREP, 4); W(OP_NESTDEL, 6); W(OP_NESTNEW, 6); W(OP_FREENULL, 4);
    W(OP_FMAP, 1); W(OP_FUNMAP, 1);
    p.nthreads = 1 + (int)r.below(4);
    if (r.chance(0.15)) p.mapcount = 0;
    break;
  case 7:
    misuse = true; mis_kind = 7; faults = r.chance(0.2); aslim = r.chance(0.15);
    if (r.chance(0.5)) pf = -1;
    break;
  case 8:
    misuse = r.chance(0.75); mis_kind = 8; faults = r.chance(0.2);
    align = r.chance(0.3) ? 1 : 1l << r.below(8);
    g.aw[AK_MEMALIGN] += 14;
    freq = r.chance(0.5) ? 1 + (int)r.below(6) : 0;
    W(OP_CHECK, 6); W(OP_CHECKALL, 5);
    if (r.chance(0.5)) slack = (int)r.below(256);
    break;
  case 9:
    W(OP_REALLOC, 20); W(OP_USABLE, 6);
    if (r.chance(0.6)) align = 1l << r.below(9);
    if (fill < -1 && r.chance(0.5)) fill = (int)r.below(256);
    pf = r.chance(0.5) ? 0 : pf;
    g.huge_ok = r.chance(0.15);
    break;
  case 10:
    W(OP_LEAKREP, 6); W(OP_FREE, 20);
    repall = r.chance(0.5) ? 1 : r.chance(0.5) ? 0 : -1;
    exitcheck = true;
    ofile = r.chance(0.3);
    p.exit_running = p.nthreads > 1 && r.chance(0.4);
    break;
  case 11:
    if (r.chance(0.3)) maxa = 1024 * (1 + (long)r.below(4));
    W(OP_USABLE, 6); W(OP_CHECK, 4); W(OP_CHECKALL, 3); W(OP_LEAKREP, 2);
    p.frate[SK_MUNMAP] = r.chance(0.4) ? 0.2 : 0;
    break;
  case 12:
    p.nthreads = 2 + (int)r.below(3);
    W(OP_NESTNEW, 8); W(OP_NESTDEL, 8); W(OP_HANDLER, r.chance(0.5) ? 4 : 0); W(OP_USABLE, 5); W(OP_CHECK, 5); W(OP_CHECKALL, 4); W(OP_LEAKREP, 2);
    p.preempt = pre[2 + r.below(4)];
    wfaults = r.chance(0.2); show = r.chance(0.3);
    if (r.chance(0.15)) { p.stdperm = 1 + (long)r.below(7) + (r.chance(0.2) ? 8 : 0); misuse = r.chance(0.3); mis_kind = r.chance(0.5) ? 7 : 8; }
    break;
  case 13:
    misuse = true; mis_kind = r.chance(0.5) ? 7 : r.chance(0.4) ? 8 : r.chance(0.5) ? 13 : 14;
    wfaults = true; faults = r.chance(0.3);
    o1 = r.chance(0.5); o2 = r.chance(0.5) ? -1 : r.chance(0.7); ofile = r.chance(0.6);
    if (o1 != 1 && o2 == 0 && !ofile) o1 = 1;
    p.sigill = r.chance(0.5);
    if (r.chance(0.3)) p.stdperm = 1 + (long)r.below(7) + (r.chance(0.2) ? 8 : 0);
    failexit = r.chance(0.5) ? 1 : 0;
    opsper = 4 + (int)r.below(8);
    show = r.chance(0.2);
    p.fd0 = ofile && r.chance(0.4);
    if (mis_kind == 14) {
      m0 = 0; p.nthreads = 2 + (int)r.below(3); show = r.chance(0.6);
      p.preempt = pre[3 + r.below(3)];
      if (r.chance(0.7)) { wfaults = false; p.stdperm = 0; }
    }
    break;
  case 14:
    for (int i = 0; i < AK_N; ++i) if (i < AK_NEW) g.aw[i] /= 4;
    g.aw[AK_NEW] = 14; g.aw[AK_NEW_NT] = 10; g.aw[AK_NEWA] = 12; g.aw[AK_NEWA_NT] = 10; g.aw[AK_MALLOC] = 6;
    faults = r.chance(0.8); aslim = r.chance(0.7);
    W(OP_HANDLER, 8); W(OP_ALLOC, 44);
    g.unrep = r.chance(0.15);
    p.frate[SK_MPROTECT] = 0;
    if (r.chance(0.7)) p.frate[SK_MMAP] = 0.5;
    p.nthreads = 1 + (int)r.below(4);
    break;
  case 15:
    show = r.chance(0.7); repall = 1; W(OP_LEAKREP, 3); W(OP_NESTDEL, 6); W(OP_NESTNEW, 6);
    exitcheck = true;
    misuse = r.chance(0.4); mis_kind = r.chance(0.6) ? 7 : 8;
    p.exit_running = 0;
    p.nthreads = 1 + (int)r.below(4);
    if (r.chance(0.3)) wfaults = r.chance(0.3);
    break;
  case 16:
    p.early = r.chance(0.5);
    init_faults = r.chance(0.25);
    p.badpage = r.chance(0.04);
    if (r.chance(0.7)) { fill = (int)r.below(6) ? (int)r.below(256) : -1; }
    if (r.chance(0.6)) slack = r.chance(0.8) ? (int)r.below(256) : (int)r.below(5000);
    if (r.chance(0.4)) freeacc = (int)r.below(2);
    if (r.chance(0.5)) show = (int)r.below(2);
    if (r.chance(0.5)) nobanner = (int)r.below(2);
    if (r.chance(0.4)) m0 = (int)r.below(6) - 1;
    if (r.chance(0.4)) n0 = (int)r.below(5);
    if (r.chance(0.4)) o1 = (int)r.below(2);
    if (r.chance(0.4)) o2 = (int)r.below(2);
    ofile = r.chance(0.3);
    if (r.chance(0.4)) freq = (int)r.below(5);
    failexit = (int)r.below(3) - 1;
    if (r.chance(0.3)) maxa = 1024 + (long)r.below(4096);
    exitcheck = true;
    faults = r.chance(0.4);
    misuse = r.chance(0.4); mis_kind = r.chance(0.7) ? 8 : 15;
    W(OP_CHURN, 1);
    p.nthreads = r.chance(0.7) ? 1 : 2;
    if (init_faults) { p.frate[SK_MMAP] = r.chance(0.4) ? 1 : 0.3; if (r.chance(0.2)) p.frate[SK_MPROTECT] = 0.1; p.stdperm = 0; wfaults = r.chance(0.2); }
    break;
  case 17:
    m0 = r.chance(0.15) ? -1 : (int)r.below(r.chance(0.2) ? 4 : 3) + (r.chance(0.2) ? 0 : 1);
    n0 = r.chance(0.3) ? -1 : 2 + (int)r.below(2);
    W(OP_REALLOC, 12); W(OP_USABLE, 5);
    exitcheck = r.chance(0.3);
    break;
  case 18:
    show = 1; exitcheck = true;
    wfaults = r.chance(0.5);
    p.nthreads = 1 + (int)r.below(4);
    if (r.chance(0.4)) { o1 = (int)r.below(2); ofile = r.chance(0.5); }
    p.preempt = pre[2 + r.below(4)];
    opsper = 5 + (int)r.below(10);
    if (r.chance(0.3)) W(OP_HANDLER, 2);
    break;
  case 19:
    g.pow2 = true; g.align_big = false; align = 1; below = r.chance(0.3);
    pf = r.chance(0.4) ? 0 : (long)(4 + r.below(300));
    maxa = -1;
    if (r.chance(0.15)) { pf = -1; maxa = 2048 + (long)r.below(6000); }
    W(OP_CHURN, 14); W(OP_FREE, 34); W(OP_REALLOC, 0); W(OP_NESTNEW, 0); W(OP_NESTDEL, 0);
    g.zero_ok = g.new_zero_ok = false;
    g.aw[AK_STRDUP] = g.aw[AK_MEMALIGN] = g.aw[AK_PMEMALIGN] = g.aw[AK_VALLOC] = 0; g.aw[AK_CALLOC] = 0;
    p.frate[SK_MUNMAP] = 0;
    p.nthreads = r.chance(0.6) ? 1 : 2;
    opsper = 8 + (int)r.below(12);
    faults = r.chance(0.5); aslim = r.chance(0.5);
    show = 0; freq = r.chance(0.05);
    if (!r.chance(0.1)) freeacc = -1;
    soak = r.chance(0.15);
    if (soak) { p.nthreads = 1; freq = 0; freeacc = -1; pf = r.chance(0.5) ? 0 : (long)(4 + r.below(60)); maxa = -1; }
    break;
  case 20:
    W(OP_FMAP, 9); W(OP_FUNMAP, 5);
    p.place = (int[]){0, 2, 3, 4, 4, 5}[r.below(6)];
    p.frate[SK_MUNMAP] = r.chance(0.4) ? 0.2 : 0;
    if (below < 0) below = r.chance(0.5);
    g.aw[AK_MEMALIGN] += 6;
    if (r.chance(0.3)) maxa = 1024 * (1 + (long)r.below(4));
    break;
  }
  if (prop != 16 && prop != 13 && prop != 19 && r.chance(0.06)) p.early = 1;
  if (freeacc == 1) { g.freeacc = true; g.small_only = true; }
  if (m0 == 1 || m0 == 0) {}
  if (prop != 17 && prop != 16 && g.zero_ok && r.chance(0.12)) { m0 = (int)r.below(3) + 1; n0 = 2 + (int)r.below(2); }
  if (m0 == 0) g.zero_ok = prop == 17 || prop == 16;
  // blocks beyond 4 GB
  if (prop != 4 && prop != 10 && prop != 14 && prop != 16 && prop != 17 && prop != 18 && !g.small_only && !soak && r.chance(g.huge_ok ? 0.3 : 0.04)) {
    g.huge_ok = g.huge_many = true;
    if (p.nthreads > 3) p.nthreads = 1 + (int)r.below(3);
  }
  if (g.huge_ok) { freq = 0; freeacc = -1; g.freeacc = false; }
  bool many = prop != 19 && prop != 4 && !g.huge_ok && r.chance(prop == 10 || prop == 18 ? 0.02 : prop == 8 ? 0.01 : 0.005);
  if (many) freq = 0;
  if (many && r.chance(prop == 8 ? 0.6 : 0.2)) freq = 250 + (int)r.below(250);
  if (wfaults) {
    static const double wr[] = {0.1, 0.25, 0.5};
    p.frate[SK_WRITE] = wr[r.below(3)];
    p.frate[SK_OPEN] = r.chance(0.3) ? 0.2 : 0;
  }
  if (p.nthreads == 1) p.preempt = 0;
  // source file names as generated code has them; beyond the space a line has they may be cut off
  if (r.chance(prop == 13 || prop == 15 || prop == 18 || prop == 10 ? 0.08 : 0.02)) p.longname = r.chance(0.65) ? 200 + (int)r.below(1500) : 1900 + (int)r.below(7000);

  if (hugelim && prop != 19) {
    if (pf > 0) pf = (long)((1ull << (31 + r.below(4))) + r.below(64));
    if (maxa > 0) maxa = (long)((1ull << (31 + r.below(4))) + r.below(64));
  }
  // environment
  bool bare = prop == 16 && r.chance(0.06);
  if (bare) {                       // none at all
    align = 1; below = -1; pf = -1; maxa = -1; fill = -2; slack = show = repall = failexit = freeacc = m0 = n0 = o1 = o2 = nobanner = -1;
    freq = ofile = 0; g.freeacc = false;
  }
  auto &E = p.env;
  if (align != 1) put(p, "DUMA_ALIGNMENT", align);
  if (below >= 0) put(p, "DUMA_PROTECT_BELOW", below);
  if (pf != -1 || (!bare && r.chance(0.2))) put(p, "DUMA_PROTECT_FREE", pf);
  if (maxa != -1) put(p, "DUMA_MAX_ALLOC", maxa);
  if (fill >= -1) put(p, "DUMA_FILL", fill);
  if (slack >= 0) put(p, "DUMA_SLACKFILL", slack);
  if (show >= 0) put(p, "DUMA_SHOW_ALLOC", show);
  if (repall >= 0) put(p, "DUMA_REPORT_ALL_LEAKS", repall);
  if (freq > 0) put(p, "DUMA_CHECK_FREQ", freq);
  if (failexit >= 0) put(p, "DUMA_MALLOC_FAILEXIT", failexit);
  if (freeacc >= 0) put(p, "DUMA_FREE_ACCESS", freeacc);
  if (m0 >= 0) put(p, "DUMA_MALLOC_0_STRATEGY", m0);
  if (n0 >= 0) put(p, "DUMA_NEW_0_STRATEGY", n0);
  if (o1 >= 0) put(p, "DUMA_OUTPUT_STDOUT", o1);
  if (o2 >= 0) put(p, "DUMA_OUTPUT_STDERR", o2);
  if (ofile) E.push_back("DUMA_OUTPUT_FILE=/sim/duma.log");
  if (nobanner >= 0) put(p, "DUMA_DISABLE_BANNER", nobanner);
  if (prop == 16 && r.chance(0.3)) put(p, "DUMA_MEMCPY_OVERLAP", (long)r.below(2));
  if (prop == 16 && r.chance(0.3)) put(p, "DUMA_SUPPRESS_ATEXIT", (long)r.below(2));
  else if ((prop == 18 || prop == 10) && r.chance(0.1)) put(p, "DUMA_SUPPRESS_ATEXIT", 0);
  if (prop == 16 && !bare && r.chance(0.4)) {
    // the same settings in other words
    static const char *flags[] = {"DUMA_PROTECT_BELOW=1", "DUMA_REPORT_ALL_LEAKS=1", "DUMA_MALLOC_FAILEXIT=1", "DUMA_FREE_ACCESS=1", "DUMA_SHOW_ALLOC=1", "DUMA_OUTPUT_STDOUT=1",
                                  "DUMA_OUTPUT_STDERR=1", "DUMA_DISABLE_BANNER=1", "DUMA_MEMCPY_OVERLAP=1", "DUMA_SUPPRESS_ATEXIT=1"};
    static const char *truth[] = {"2", "-1", "256", "65536", "10", "1"};
    for (auto &e : E) {
      for (const char *f : flags) if (e == f && r.chance(0.5)) e = e.substr(0, e.size() - 1) + truth[r.below(6)];
      size_t q = e.find('=');
      if (q == std::string::npos || e.compare(0, 5, "DUMA_") || e.find("_FILE=") != std::string::npos || !r.chance(0.3)) continue;
      std::string v = e.substr(q + 1);
      switch (r.below(5)) {
      case 0: v = " " + v; break;
      case 1: if (v[0] != '-') v = "+" + v; break;
      case 2: v = v[0] == '-' ? "-0" + v.substr(1) : "00" + v; break;
      case 3: v += " kB"; break;
      default: v += "x"; break;
      }
      e = e.substr(0, q + 1) + v;
    }
    for (auto &e : E)
      if ((!e.compare(0, 23, "DUMA_MALLOC_0_STRATEGY=") || !e.compare(0, 20, "DUMA_NEW_0_STRATEGY=")) && r.chance(0.4)) e = e.substr(5);
  }
  // the rest of a real environment, with names that look alike
  static const char *decoy[] = {"PATH=/bin", "DUMA_FILLX=7", "XDUMA_FILL=9", "DUMA=1", "DUMA_ALIGNMENTS=64", "DUMA_PROTECT_BELOWX=1", "HOME=/root",
                                "DUMA_SHOW_ALLOCS=1", "DUMA_PROTECT_FREES=0", "LANG=C", "DUMA_MALLOC_FAILEXITX=0", "=odd", "DUMA_FIL=3"};
  int nd = bare ? 0 : (int)r.below(prop == 16 ? 6 : 2);
  for (int i = 0; i < nd; ++i) E.insert(E.begin() + r.below(E.size() + 1), decoy[r.below(13)]);
  for (size_t i = E.size(); i > 1; --i) std::swap(E[i - 1], E[r.below(i)]);
  // setting order must not matter except that a duplicated name takes the first value
  g.own.resize(p.nthreads);

  // phases
  auto phase = [&](int f, long as, int mis) {
    Phase ph;
    ph.faults = f; ph.aslim = as; ph.misuse = mis;
    p.phases.push_back(ph);
    return (int)p.phases.size() - 1;
  };
  int ph = phase(init_faults, -1, 0);
  if (p.early) {
    // calls that need no memory may come even earlier
    if (r.chance(0.3))
      for (int i = 1 + (int)r.below(2); i > 0; --i) {
        static const int k[] = {OP_USABLE, OP_CHECK, OP_CHECKALL, OP_LEAKREP, OP_FREENULL};
        Op &o = g.add(ph, 0, k[r.below(5)]);
        o.ak = o.kind == OP_FREENULL ? (int)r.below(6) : 1;
        o.form = (int)r.below(2);
      }
    g.mkalloc(ph, 0, r.chance(0.7) ? AK_MALLOC : (int)r.below(AK_NEWA_NT + 1), 1 + (long)r.below(3000));
  }
  g.add(ph, 0, OP_START);
  auto fillphase = [&](int ph, int n) {
    for (int t = 0; t < p.nthreads; ++t)
      for (int i = 0; i < n; ++i) g.op(ph, t);
  };
  // the list of blocks is full and cannot grow, while small pieces of memory are still to be had: blocks that leave a few
  // pages of their chunk, then no more memory from the system, the rest of the first chunk used up
  bool tight = (prop == 1 || prop == 2 || prop == 3 || prop == 5 || prop == 6 || prop == 9 || prop == 11 || prop == 12 || prop == 14 || prop == 18) && !g.freeacc && !p.mapcount && freq == 0 &&
               maxa == -1 && failexit == 0 && !p.early && r.chance(prop == 5 || prop == 11 || prop == 12 ? 0.1 : 0.05);
  if (tight) {
    int slots = !strcmp(variant_name, "preload") ? 85 : 64, L = (m0 == -1 || m0 == 3) && r.chance(0.5) ? 1 : 2, T = 5 + (int)r.below(4);
    int n = slots * L - 3 - 2 * T - 5 - 6 + (int)r.below(9) - 4 - (ofile ? 1 : 0) - (L == 2);
    ph = phase(0, -1, 0);
    for (int i = 0; i < n; ++i) g.mkalloc(ph, 0, AK_MALLOC, 1 + (long)r.below(4000));
    long keep = L == 1 ? 2 : 3;
    for (int i = 0; i < T; ++i) g.mkalloc(ph, 0, AK_MALLOC, (1l << 20) - (long)PG * (keep + 1) - (long)r.below(3000));
    ph = phase(0, 0, 0);
    static const int steps[2][8] = {{128, 64, 32, 16, 8, 4, 3, 0}, {128, 64, 32, 16, 8, 4, 0, 0}};
    for (int i = 0; steps[L - 1][i]; ++i) g.mkalloc(ph, 0, AK_MALLOC, (long)PG * (steps[L - 1][i] - 1) - (long)r.below(3000));
    for (int i = 0; i < 14; ++i) {
      long n = L == 1 && r.chance(0.8) ? 0 : 1 + (long)r.below(4000);
      g.mkalloc(ph, 0, r.chance(0.7) ? AK_MALLOC : n ? AK_NEW_NT : AK_CALLOC, n);
      if (r.chance(0.2)) g.op(ph, p.nthreads > 1 ? 1 : 0);
    }
    ph = phase(0, -1, 0);
    fillphase(ph, 3);
    g.shuffle_owner();
  }
  // occasionally start with a solo burst that fills the bookkeeping table up to its limit
  if (r.chance(prop == 5 || prop == 6 || prop == 2 ? 0.5 : 0.35) && prop != 19 && !tight) {
    ph = phase(0, -1, 0);
    int n = 36 + (int)r.below(24);
    for (int i = 0; i < n; ++i) g.mkalloc(ph, 0, -1, 1 + (long)r.below(100));
    g.shuffle_owner();
  }
  // occasionally several hundred blocks
  if (many) {
    ph = phase(0, -1, 0);
    int n = 260 + (int)r.below(340);
    for (int i = 0; i < n; ++i) g.mkalloc(ph, 0, r.chance(0.6) ? -1 : AK_MALLOC, 1 + (long)r.below(300));
    n = (int)r.below(300);
    for (int i = 0; i < n; ++i) g.op(ph, 0);
    g.shuffle_owner();
  }
  if (prop != 19 && r.chance(0.25) && g.ow[OP_ALLOC]) {   // settings changed at run time by the program
    ph = phase(0, -1, 0);
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      Op &o = g.add(ph, 0, OP_SET);
      o.ak = (int)r.below(3);
      if (o.ak == SET_BELOW) o.a = r.below(2);
      else if (o.ak == SET_FILL) o.a = r.below(256);
      else o.a = prop == 4 ? 1 : 1ull << r.below(7);
    }
  }
  for (int k = 0; k < nruns; ++k) {
    ph = phase(wfaults ? 2 : 0, -1, 0);
    fillphase(ph, opsper);
    g.shuffle_owner();
  }
  if (faults || aslim) {
    long lim = -1;
    if (aslim) { static const long l[] = {0, 0, 4096, 65536, 300000, 1048576, 1100000, 2100000}; lim = l[r.below(8)]; }
    ph = phase(faults ? 1 : (wfaults ? 2 : 0), lim, 0);
    if (prop == 14 || (g.ow[OP_HANDLER] && r.chance(0.6))) { Op &o = g.add(ph, 0, OP_HANDLER); o.ak = (int)r.below(6); }
    g.hot = prop == 14 || prop == 5 ? r.chance(0.8) : r.chance(0.25);
    fillphase(ph, opsper);
    g.hot = false;
    g.shuffle_owner();
    if (recover) {
      ph = phase(0, -1, 0);
      g.unrep = false;
      if (g.ow[OP_HANDLER]) { Op &o = g.add(ph, 0, OP_HANDLER); o.ak = 0; }
      fillphase(ph, 3 + (int)r.below(8));
      g.shuffle_owner();
    }
  }
  if (prop == 19) {
    for (int k = 0; k < 2; ++k) {
      ph = phase(0, -1, 0);
      fillphase(ph, opsper);
      if (soak)
        for (int i = 0; i < 3; ++i) {
          Op &o = g.add(ph, 0, OP_CHURN);
          o.a = 150 + r.below(400); o.b = (PG << (1 + r.below(3))) - PG - r.below(200);
          o.ak = r.chance(0.5) ? AK_MALLOC : AK_NEWA; o.form = FORM_DIRECT; o.h = -1;
        }
    }
  }
  (void)soloall;
  if (misuse) {
    do_exit = false;
    ph = phase(wfaults ? 2 : 0, -1, mis_kind);
    int others = p.nthreads > 1 ? 2 + (int)r.below(6) : 0;
    // the other threads keep running valid code
    bool solo = r.chance(0.5);
    if (!solo)
      for (int t = 1; t < p.nthreads; ++t)
        for (int i = 0; i < others; ++i) g.op(ph, t);
    for (auto &h : g.parked) g.own[0].push_back(h);
    g.parked.clear();
    H h;
    int pre_n = (int)r.below(4);
    g.ow[OP_CHURN] = 0;
    for (int i = 0; i < pre_n; ++i) g.op(ph, 0);
    if (mis_kind == 8) {
      // corrupt, then operations that cover the block
      g.mkalloc(ph, 0, r.chance(0.6) ? AK_MEMALIGN : -1);
      H b;
      if (r.chance(0.5) || !g.take(0, b, false, false)) b = g.own[0].back();
      Op &c = g.add(ph, 0, OP_CORRUPT);
      c.h = b.h; c.a = r.next(); c.b = r.next();
      int how = (int)r.below(5);
      if (how == 4 && freq <= 0) how = 3;
      if (how == 0) { Op &o = g.add(ph, 0, OP_FREE); o.h = b.h; o.form = g.form(); }
      else if (how == 1) { Op &o = g.add(ph, 0, OP_REALLOC); o.h = b.h; o.form = FORM_DIRECT; o.b = 1 + r.below(5000); }
      else if (how == 2) { Op &o = g.add(ph, 0, OP_CHECK); o.h = b.h; }
      else if (how == 3) { g.add(ph, 0, OP_CHECKALL); }
      else {
        for (int i = 0; i < std::max(10, freq + 1); ++i) {
          g.mkalloc(ph, 0, AK_MALLOC, 1 + (long)r.below(3000));
          if (r.chance(0.4)) {               // releases count as well
            H f = g.own[0].back();
            g.own[0].pop_back();
            Op &o = g.add(ph, 0, OP_FREE);
            o.h = f.h; o.form = g.form();
          }
        }
      }
      // if that did not cover it (other family), the release does
      Op &o = g.add(ph, 0, OP_CHECKALL);
      o.a = 1;
    } else if (mis_kind == 15) {
      // overlapping copies, towards lower addresses first: that may be allowed by a setting
      g.mkalloc(ph, 0, AK_MALLOC, 64 + (long)r.below(5000));
      int b = g.own[0].back().h;
      for (int i = 0; i < 2; ++i) { Op &o = g.add(ph, 0, OP_OVERLAP); o.h = b; o.ak = r.chance(0.5) ? 1 : i == 0; }
    } else if (mis_kind == 13) {
      // fatal diagnosis of another kind: allocation failure with exit-on-failure
      p.phases[ph].aslim = 0;
      p.phases[ph].faults = 3;
      for (int i = 0; i < 3; ++i) g.mkalloc(ph, 0, AK_MALLOC, 1500000 + (long)r.below(1000000));
    } else if (mis_kind == 14) {
      // several threads run into a fatal error that is found outside the lock, while others print
      for (int t = 0; t < p.nthreads; ++t) {
        int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; ++i) g.mkalloc(ph, t, AK_MALLOC, 1 + (long)r.below(3000));
        if (t < 2 || r.chance(0.3)) {
          g.mkalloc(ph, t, r.chance(0.5) ? AK_MALLOC : AK_CALLOC, 0);
          if (r.chance(0.5)) p.ops.back().form = FORM_PLAIN;
        }
      }
    } else {
      int kind = (int)r.below(6);
      if (pf == -1 && maxa == -1 && failexit == 0 && !g.small_only && r.chance(0.15)) {
        // misuse of a large released block of which a part was given back
        int n = 1 + (int)r.below(2);
        std::vector<int> hs;
        size_t sz = 0;
        for (int i = 0; i < n; ++i) {
          sz = 1100000 + r.below(2500000);
          if (r.chance(0.3)) sz &= ~(PG - 1);
          g.mkalloc(ph, 0, AK_MALLOC, (long)sz);
          H b = g.own[0].back();
          g.own[0].pop_back();
          hs.push_back(b.h);
          Op &o = g.add(ph, 0, OP_FREE);
          o.h = b.h; o.form = g.form();
        }
        p.phases[ph].misuse = 0;
        ph = phase(0, 0, mis_kind);
        g.mkalloc(ph, 0, AK_MALLOC, (long)(sz / 10 * (1 + r.below(9))));
        for (int i = 0; i < 3; ++i) {
          Op &m = g.add(ph, 0, r.chance(0.85) ? OP_M_FREE : OP_M_WILD);
          m.h = hs[r.below(hs.size())]; m.form = (int)r.below(2); m.a = r.next(); m.b = r.next();
          if (m.kind == OP_M_WILD) { m.ak = 9; if (r.chance(0.3)) m.form = 3; }
          else if (r.chance(0.5)) m.ak = 2;
        }
        kind = -1;
      }
      if (kind == 5 && (p.nthreads < 2 || p.preempt == 0)) kind = 0;
      if (kind < 0) {
      } else if (kind == 0) {
        if (!g.take(0, h)) { g.mkalloc(ph, 0); g.take(0, h); }
        Op &o = g.add(ph, 0, OP_FREE);
        o.h = h.h; o.form = g.form();
        int gap = (int)r.below(3);
        for (int i = 0; i < gap; ++i) g.op(ph, 0);
        Op &m = g.add(ph, 0, OP_M_FREE);
        m.h = h.h; m.form = (int)r.below(2); m.a = r.next();
        if (r.chance(0.2)) m.ak = 2;            // an explicit check instead of a release
      } else if (kind == 1) {
        Op &m = g.add(ph, 0, OP_M_WILD);
        H b;
        if (g.take(0, b, false, false)) m.h = b.h;
        m.ak = (int)r.below(11); m.form = r.chance(0.2) ? 3 : (int)r.below(2); m.a = r.next(); m.b = r.next();
      } else if (kind == 2 || kind == 3) {
        if (!g.take(0, h, false, false)) { g.mkalloc(ph, 0); g.take(0, h, false, false); }
        Op &m = g.add(ph, 0, OP_M_MISMATCH);
        m.h = h.h; m.form = (int)r.below(2); m.a = r.next();
      } else if (kind == 4) {
        Op &m = g.add(ph, 0, OP_M_REALLOC);
        H b;
        if (g.take(0, b, false, false)) m.h = b.h;
        m.ak = (int)r.below(4); m.form = (int)r.below(2); m.a = r.next(); m.b = 1 + r.below(9000);
      } else {
        if (!g.take(0, h)) { g.mkalloc(ph, 0); g.take(0, h); }
        p.phases.pop_back();
        // both threads release the same block in one phase
        std::vector<Op> keep;
        p.phases.push_back(Phase());
        p.phases.back().misuse = 9;
        for (int t = 0; t < 2; ++t) {
          Op &o = g.add(ph, t, OP_M_FREE);
          o.h = h.h; o.form = (int)r.below(2); o.ak = 1; o.a = r.next();
        }
        // drop the other operations of thread 0/1 in this phase: they would use the block table unpredictably
        for (auto &o : p.ops)
          if (o.phase != ph || o.kind == OP_M_FREE || (pf == -1 && maxa <= 0 && (o.tid >= 2 || o.h != h.h))) keep.push_back(o);
        p.ops = keep;
      }
    }
  } else {
    bool running = p.exit_running;
    ph = phase(exitcheck && wfaults ? 2 : 0, -1, 0);
    if (running)
      for (int t = 1; t < p.nthreads; ++t)
        for (int i = 0; i < opsper; ++i) g.op(ph, t);
    if (do_exit) g.add(ph, 0, OP_EXIT);
  }
  if (p.pct) {}
}
