// Reference model of the client-visible behaviour, shared by model.cpp and report.cpp
#pragma once
#include "sim.h"
#include <map>
#include <set>

struct Cfg {
  long align = 1;
  bool below = false, report_all = false, failexit = true, freeacc = false, show = false, out1 = false, out2 = true, nobanner = false, noexit = false, overlap = false;
  long pf = -1, maxa = -1;
  int m0 = 3, n0 = 3, fill = 255, slack = 0xAA, freq = 0;
  std::string file;
  bool has_strdup_env = false;
  std::set<std::string> set;      // names that were set explicitly
};
extern Cfg cfg, cfg0;             // current and initial

enum { BS_LIVE = 1, BS_RELEASING, BS_FREED };
typedef std::pair<addr_t, addr_t> Rg;
struct Blk {
  int h = -1;
  addr_t p = 0;
  size_t size = 0, align = 1;     // effective alignment
  int fam = 0;
  const char *tname = "";
  bool below = false;
  std::string site, fsite;        // "file(line)"; "?(0)" = unknown
  std::vector<std::string> rsites; // positions of releases racing for it
  bool known = false;
  int state = BS_LIVE;
  uint64_t pat = 0;
  bool patset = false;
  bool zero = false, shared = false, node = false;
  addr_t rlo = 0, rhi = 0;        // pages holding user data
  addr_t alo = 0, ahi = 0;        // largest range that may be accessible for this block
  addr_t glo = 0, ghi = 0;        // guard
  addr_t flo = 0, fhi = 0;        // footprint (minimal)
  size_t fp = 0;
  uint32_t aop = 0;
  int owner = -1;                 // thread releasing it (-2: any)
  std::vector<Rg> open;           // part of [rlo,rhi) not yet closed
  bool prot = false;              // closed by protecting it
  bool unmap_failed = false, gclosed = false;
  int corrupted = 0;              // 1: some padding byte was overwritten
  long freq_left = -1;            // counted calls until the periodic check must have seen it
  uint64_t born0 = 0, born = 0, rel = 0, dead = 0;   // event sequence numbers
  uint64_t cseq = 0;              // when it was corrupted
  addr_t nchild = 0, nextra = 0;  // fields of a node
  bool nkind = false;             // its child is an array
  size_t nskip = 0;               // leading bytes the program itself rewrites
  bool saw_close = false;
};
struct Ctx {
  Op *op = nullptr;
  uint32_t expect = 0;            // EX_*
  uint32_t expmask = 0;           // property of the expectation
  Blk *target = nullptr;
  addr_t taddr = 0;
  std::string site;
  uint32_t handlers = 0;          // bit set of handler kinds installed at some time during the call
  uint32_t hthrew = 0;
  int hcalls = 0;
  bool nofault = false;
  size_t req_size = 0;
  bool unrep = false;             // the requested size cannot be represented
  bool is_c = false;
  bool cpp = false;
  bool alloc_busy = false;        // inside an allocation whose result is not known yet
  const char *req_tname = "";
  uint64_t seq0 = 0;
  size_t S0 = 0;                  // protected bytes when the call began
  addr_t wlo = 0, whi = 0;        // live memory this call may write
  long counted0 = 0;
  bool leak_busy = false;
  bool expect_set = false;        // the handler is about to change the handler
  bool simple_free = false;
  std::vector<Blk *> rels;        // blocks being released by this call
  std::string fsite;
  int in_alloc_kind = -1;
  std::vector<std::string> sub_sites; // further positions this call may name
};
enum { EX_DIE = 1, EX_MAYDIE = 2, EX_MAYCRASH = 4, EX_CORRUPT = 8 };

extern std::map<int, Blk *> g_h;
extern std::vector<Blk *> g_all;
extern uint64_t g_seq;
inline Ctx &cx(Thr *t) { return *(Ctx *)t->ctx; }
const char *long_name();
bool names_cut();
const char *op_file(const Op &o);
std::string op_site(const Op &o);

void soft(const char *cls, uint32_t props, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern std::string g_outfile;

// report.cpp
void rep_reset();
void trace_expect(bool alloc, size_t size, const std::string &site, const std::string &asite, long mn, long mx);
void check_trace(bool totals);
void leak_begin(Thr *t);
void leak_end(Thr *t, bool at_exit);
void leak_eval();
void check_banner(bool dead);
std::string thread_text(int tid, uint32_t op, int sink);
std::string diag_of(const std::string &text);
bool sink_enabled(int s);
std::string norm_site(const std::string &file, long line);
std::vector<std::pair<std::string, size_t>> find_sites(const std::string &text);
std::vector<addr_t> find_addrs(const std::string &text);
extern bool g_sink_lost[3];
extern bool g_sink_bad[3];          // output was dropped or torn without a hard error
struct WRec { int tid; uint32_t op; int sink; uint32_t off, len; bool lost; };
extern std::vector<WRec> g_writes;
