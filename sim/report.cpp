// Oracles over the text the tool writes: trace lines, totals, leak report, banner, diagnoses.
#include "model.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <tuple>

bool sink_enabled(int s) { return s == 0 ? cfg0.out1 : s == 1 ? cfg0.out2 : !cfg0.file.empty(); }
static const char *sinkname[] = {"stdout", "stderr", "file"};
static bool sink_usable(int s) { return sink_enabled(s) && !g_sink_lost[s]; }

static bool client_file(const std::string &f) {
  if (G.plan->longname && f == long_name()) return true;
  return f == "alpha.c" || f == "beta.cc" || f == "dir/gamma.c" || f == "delta.cpp" || f == cli_macro_file(0) || f == "sub/client_dtor.cc" || f == "client_free.c" || f == "client_nest.cpp";
}
std::string norm_site(const std::string &file, long line) {
  if (line <= 0) return "?(0)";
  if (client_file(file)) return strf("%s(%ld)", file.c_str(), line);
  return "<int>";
}
std::vector<std::pair<std::string, size_t>> find_sites(const std::string &x) {
  std::vector<std::pair<std::string, size_t>> r;
  for (size_t i = 0; i < x.size(); ++i) {
    if (x[i] != '(') continue;
    size_t j = i + 1;
    if (j < x.size() && x[j] == '-') ++j;
    size_t d = j;
    while (j < x.size() && isdigit((unsigned char)x[j])) ++j;
    if (j == d || j >= x.size() || x[j] != ')') continue;
    size_t b = i;
    while (b > 0 && !isspace((unsigned char)x[b - 1])) --b;
    std::string f = x.substr(b, i - b);
    if (f.find('.') == std::string::npos) continue;
    r.push_back({norm_site(f, atol(x.c_str() + i + 1)), b});
  }
  return r;
}
std::vector<addr_t> find_addrs(const std::string &x) {
  std::vector<addr_t> r;
  for (size_t i = 0; i < x.size();) {
    if (!isxdigit((unsigned char)x[i])) { ++i; continue; }
    size_t j = i;
    while (j < x.size() && isxdigit((unsigned char)x[j])) ++j;
    size_t b = i;
    if (j < x.size() && (x[j] == 'x' || x[j] == 'X') && j == i + 1 && x[i] == '0') {
      b = ++j;
      while (j < x.size() && isxdigit((unsigned char)x[j])) ++j;
    }
    if (j - b >= 11 && j - b <= 16) {
      addr_t a = strtoul(x.substr(b, j - b).c_str(), 0, 16);
      if (a >= ARENA_LO && a <= ARENA_HI) r.push_back(a);
    }
    i = j;
  }
  return r;
}
std::string thread_text(int tid, uint32_t op, int sink) {
  std::string all = sink_text(sink), r;
  for (auto &w : g_writes)
    if (w.tid == tid && w.op == op && w.sink == sink && !w.lost) r += all.substr(w.off, w.len);
  return r;
}
std::string diag_of(const std::string &t) {
  size_t a = t.find("DUMA Aborting:"), b = t.find("DUMA Exiting:");
  size_t x = std::min(a, b);
  return x == std::string::npos ? "" : t.substr(x);
}

// ------------------------------------------------------------------ trace
typedef std::tuple<int, unsigned long, std::string, std::string> TKey;   // 0 alloc, 1 release
struct TCnt { long mn = 0, mx = 0; };
static std::map<TKey, TCnt> g_trace;
struct LeakRec { int tid; uint32_t op; uint64_t s0, s1; bool at_exit; std::vector<std::string> inflight; };
static std::vector<LeakRec> g_leaks;
void rep_reset() {
  g_trace.clear();
  g_leaks.clear();
  // the tool's own self test at start-up
  trace_expect(true, 123, "?(0)", "", 0, 1);
  trace_expect(false, 123, "?(0)", "?(0)", 0, 1);
  if (cli_nolead()) {
    // without positions the tool's own memory cannot be told from the program's: the list of blocks, copies of settings
    for (size_t k = 1; k < 100; ++k) {
      trace_expect(true, k * PG, "?(0)", "", 0, 1000);
      trace_expect(false, k * PG, "?(0)", "?(0)", 0, 1000);
    }
    trace_expect(true, cfg0.file.size() + 1, "?(0)", "", 0, 2);
  }
}
void trace_expect(bool alloc, size_t size, const std::string &site, const std::string &asite, long mn, long mx) {
  TCnt &c = g_trace[TKey(alloc ? 0 : 1, size, site, asite)];
  c.mn += mn;
  c.mx += mx;
}
static bool split_site(const std::string &s, std::string &out) {   // "file(line)"
  size_t o = s.rfind('(');
  if (o == std::string::npos || s.empty() || s.back() != ')') return false;
  std::string n = s.substr(o + 1, s.size() - o - 2);
  if (n.empty() || n.find_first_not_of("-0123456789") != std::string::npos) return false;
  out = norm_site(s.substr(0, o), atol(n.c_str()));
  return true;
}
static long count_lines(const std::string &x, size_t upto, const char *what) {
  long n = 0;
  for (size_t i = x.find(what); i != std::string::npos && i < upto; i = x.find(what, i + 1)) ++n;
  return n;
}
void check_trace(bool totals) {
  for (int s = 0; s < 3; ++s) {
    std::string x = sink_text(s);
    bool usable = sink_usable(s);
    if (!cfg0.show) {
      if (x.find("DUMA: Allocating ") != std::string::npos || x.find("DUMA: Freeing ") != std::string::npos)
        soft("trace-unwanted", P(16) | P(18), "trace lines on %s although tracing is off", sinkname[s]);
      continue;
    }
    if (!usable || names_cut()) continue;
    std::map<TKey, long> seen;
    long lines = 0;
    for (size_t i = 0; (i = x.find("DUMA: ", i)) != std::string::npos; i += 6) {
      bool al = !x.compare(i + 6, 11, "Allocating "), fr = !x.compare(i + 6, 8, "Freeing ");
      if (!al && !fr) continue;
      size_t q = i + 6 + (al ? 11 : 8);
      char *e;
      unsigned long n = strtoul(x.c_str() + q, &e, 10);
      size_t p = e - x.c_str();
      std::string site, asite;
      bool ok = p > q && !x.compare(p, 12, " byte(s) at ");
      if (cli_nolead()) {
        ok = p > q && !x.compare(p, 9, " byte(s).");
        if (ok) {
          lines++;
          probe(PR_TRACE_LINES);
          seen[TKey(al ? 0 : 1, n, "?(0)", al ? "" : "?(0)")]++;
          continue;
        }
      }
      p += 12;
      if (ok && al) {
        size_t z = x.find(").", p);
        ok = z != std::string::npos && split_site(x.substr(p, z + 1 - p), site);
      } else if (ok) {
        size_t z = x.find(" (Allocated from ", p);
        ok = z != std::string::npos && split_site(x.substr(p, z - p), site);
        if (ok) {
          size_t z2 = x.find(")).", z);
          ok = z2 != std::string::npos && split_site(x.substr(z + 17, z2 + 1 - z - 17), asite);
        }
      }
      if (!ok) {
        // cut off by the end of the process?
        if (G.dead && x.size() - i < 300 + 2 * (size_t)G.plan->longname) continue;
        soft("trace-garbled", P(18), "garbled trace line on %s: \"%s\"", sinkname[s], x.substr(i, 90).c_str());
        continue;
      }
      lines++;
      probe(PR_TRACE_LINES);
      if (site == "<int>" || asite == "<int>") continue;     // the tool's own memory
      seen[TKey(al ? 0 : 1, n, site, asite)]++;
    }
    for (auto &k : seen) {
      auto it = g_trace.find(k.first);
      long mx = it == g_trace.end() ? 0 : it->second.mx;
      if (k.second > mx) {
        uint32_t m = P(18);
        // the same line with another position: the position is wrong
        for (auto &e : g_trace)
          if (std::get<0>(e.first) == std::get<0>(k.first) && std::get<1>(e.first) == std::get<1>(k.first) && seen[e.first] < e.second.mn) m |= P(15);
        soft("trace-extra", m, "%ld trace line(s) '%s %lu bytes at %s%s%s' on %s, at most %ld such calls", k.second,
             std::get<0>(k.first) ? "freeing" : "allocating", std::get<1>(k.first), std::get<2>(k.first).c_str(),
             std::get<0>(k.first) ? " allocated at " : "", std::get<3>(k.first).c_str(), sinkname[s], mx);
      }
    }
    for (auto &e : g_trace) {
      long n = seen.count(e.first) ? seen[e.first] : 0;
      if (n < e.second.mn)
        soft("trace-missing", P(18) | P(16), "%ld of %ld trace lines '%s %lu bytes at %s%s%s' on %s", n, e.second.mn,
             std::get<0>(e.first) ? "freeing" : "allocating", std::get<1>(e.first), std::get<2>(e.first).c_str(),
             std::get<0>(e.first) ? " allocated at " : "", std::get<3>(e.first).c_str(), sinkname[s]);
    }
    (void)totals;
    // every totals report must agree with the lines written before it
    long tol = s == 1 ? 0 : 2;
    for (size_t i = 0; (i = x.find("DUMA:   Allocation(s): ", i)) != std::string::npos; ++i) {
      long a = atol(x.c_str() + i + 23);
      size_t d = x.find("DUMA: Deallocation(s): ", i);
      if (d == std::string::npos) { if (!G.dead) soft("totals-garbled", P(18), "totals are incomplete on %s", sinkname[s]); break; }
      long f = atol(x.c_str() + d + 23);
      long la = count_lines(x, i, "DUMA: Allocating "), lf = count_lines(x, i, "DUMA: Freeing ");
      if (a < la || a > la + tol || f < lf || f > lf + tol)
        soft("totals-wrong", P(18), "totals say %ld allocations and %ld deallocations, the trace on %s has %ld and %ld lines before them", a, f,
             sinkname[s], la, lf);
    }
    if (totals && x.find("DUMA:   Allocation(s): ") == std::string::npos) soft("totals-missing", P(18), "no totals on %s at exit", sinkname[s]);
  }
}

// ------------------------------------------------------------------ leak report
void leak_begin(Thr *t) {
  LeakRec l;
  l.tid = t->id; l.op = t->op_id; l.s0 = ++g_seq; l.s1 = 0; l.at_exit = false;
  g_leaks.push_back(l);
}
void leak_end(Thr *t, bool at_exit) {
  for (auto &l : g_leaks)
    if (l.tid == t->id && l.op == t->op_id) { l.s1 = ++g_seq; l.at_exit = at_exit; }
}
struct Line { addr_t p; unsigned long size; std::string type, site; bool used = false; };
static void leak_one(LeakRec &l, int s) {
  std::string x = thread_text(l.tid, l.op, s);
  std::vector<Line> lines;
  long rep = -1, extra = -1;
  bool so = !strcmp(variant_name, "so");
  for (size_t i = 0; (i = x.find("DUMA: ptr=0x", i)) != std::string::npos; i += 5) {
    Line n;
    char *e;
    n.p = strtoul(x.c_str() + i + 12, &e, 16);
    size_t p = e - x.c_str();
    bool ok = !x.compare(p, 6, " size=");
    if (ok) { n.size = strtoul(x.c_str() + p + 6, &e, 10); p = e - x.c_str(); ok = !x.compare(p, 7, " type='"); }
    if (ok) {
      size_t q = x.find('\'', p + 7);
      ok = q != std::string::npos;
      if (ok) {
        n.type = x.substr(p + 7, q - p - 7);
        size_t z = x.find(" not freed\n", q);
        ok = z != std::string::npos;
        if (ok) {
          std::string rest = x.substr(q + 1, z - q - 1);
          if (!rest.compare(0, 14, " alloced from ")) ok = split_site(rest.substr(14), n.site);
          else ok = rest.empty();
        }
      }
    }
    if (!ok) { soft("leak-garbled", P(10), "garbled leak line: \"%s\"", x.substr(i, 100).c_str()); return; }
    lines.push_back(n);
    probe(PR_LEAK_LINES);
  }
  size_t r = x.find("DUMA: Reported ");
  if (r != std::string::npos) {
    rep = atol(x.c_str() + r + 15);
    size_t q = x.find("DUMA: There are ", r);
    if (q != std::string::npos) extra = atol(x.c_str() + q + 16);
    if (x.find("DUMA: Reported ", r + 5) != std::string::npos) soft("leak-totals", P(10), "more than one total in one report");
  }
  long mn_extra = 0, mx_extra = 0;
  for (Blk *b : g_all) {
    if (b->shared || b->born == 0) continue;
    bool must = b->born <= l.s0 && (b->rel == 0 || b->rel > l.s1);
    bool may = b->born0 < l.s1 && (b->dead == 0 || b->dead > l.s0);
    if (!may) continue;
    bool listed = cfg0.report_all || b->known;
    if (!listed) { mn_extra += must; mx_extra++; }
    int hits = 0;
    for (auto &n : lines) {
      if (n.used || n.p != b->p || n.size != b->size || n.type != b->tname) continue;
      if (!so && n.site != b->site) continue;
      if (hits && !must) continue;
      if (!hits) n.used = true;
      hits++;
    }
    if (hits > 1) soft("leak-twice", P(10), "block %lx (%zu bytes, %s) is listed %d times", b->p, b->size, b->site.c_str(), hits);
    if (hits && !listed) soft("leak-listed", P(10) | P(16), "block %lx (%zu bytes) without source position is listed although only a count is selected", b->p, b->size);
    if (!hits && must && listed) {
      // listed with other data?
      for (auto &n : lines)
        if (n.p == b->p) {
          uint32_t m = n.size != b->size || n.type != b->tname ? P(10) : P(10) | P(15);
          soft("leak-data", m, "live block %lx (%zu bytes, type %s, allocated at %s) is listed as %lu bytes, type %s, allocated at %s", b->p,
               b->size, b->tname, b->site.c_str(), n.size, n.type.c_str(), n.site.c_str());
        }
      soft("leak-missing", P(10) | P(16), "live block %lx (%zu bytes, type %s, allocated at %s) is missing in the leak report of op %u", b->p, b->size, b->tname,
           b->site.c_str(), l.op);
    }
  }
  for (auto &n : lines)
    if (!n.used)
      soft("leak-false", P(10), "leak report of op %u lists %lx, %lu bytes, type %s, %s, which is no live block", l.op, n.p, n.size, n.type.c_str(), n.site.c_str());
  if (rep < 0 && (!lines.empty() || mn_extra > 0))
    soft("leak-totals", P(10), "no totals although there are %zu reported and at least %ld extra leaks", lines.size(), mn_extra);
  if (rep >= 0 && rep != (long)lines.size()) soft("leak-totals", P(10), "totals say %ld leaks, %zu lines were printed", rep, lines.size());
  if (rep >= 0 && (extra < mn_extra || extra > mx_extra))
    soft("leak-totals", P(10), "totals say %ld extra leaks, between %ld and %ld blocks are live without position", extra, mn_extra, mx_extra);
  probe(l.at_exit ? PR_LEAK_LINES : PR_LEAK_MIDRUN);
}
void leak_eval() {
  for (auto &l : g_leaks) {
    if (!l.s1 || names_cut()) continue;
    for (int s = 0; s < 3; ++s)
      if (sink_usable(s)) leak_one(l, s);
  }
  g_leaks.clear();
}

void check_banner(bool) {
  for (int s = 0; s < 3; ++s) {
    std::string x = sink_text(s);
    size_t n = 0;
    for (size_t i = 0; (i = x.find("Bruce Perens", i)) != std::string::npos; ++i) ++n;
    if (!sink_enabled(s)) {
      if (!x.empty()) soft("sink-unwanted", P(16), "output on %s, which is not selected: \"%s\"", sinkname[s], x.substr(0, 80).c_str());
    } else if (!g_sink_lost[s]) {
      if (cfg0.nobanner && n) soft("banner-unwanted", P(16), "banner on %s although it is disabled", sinkname[s]);
      if (n > 1) soft("init-twice", P(16), "the banner was printed %zu times", n);
      if (!cfg0.nobanner && !n) soft("banner-missing", P(16), "no banner on %s", sinkname[s]);
    }
  }
}
