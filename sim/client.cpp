// Client program fragments, compiled against the real headers of the tree under test so that the
// real macros (malloc/free/.../new/delete with position, delete with its lock nesting) are used.
#include <stddef.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <new>
#include <exception>
// not a place where the scheduler may switch: used by the checks themselves
#define NOSWITCH __attribute__((no_sanitize_thread))
struct CRes { void *p; int err; int exc; int rc; size_t sz; };
extern "C" void *sim_handler_called(int kind);
enum { AK_MALLOC, AK_CALLOC, AK_MEMALIGN, AK_PMEMALIGN, AK_VALLOC, AK_STRDUP, AK_REALLOC, AK_NEW, AK_NEW_NT,
  AK_NEWA, AK_NEWA_NT, AK_MEMB, AK_MEMBA };
enum { FAM_C, FAM_NEW, FAM_NEWA, FAM_MEMB, FAM_MEMBA };
enum { FORM_PLAIN, FORM_DIRECT, FORM_MACRO };
#include "dumapp.h"
// Plain (exported) and direct (explicit position) forms: defined while the macros are off.
#include "noduma.h"
static void *pl_malloc(size_t n) { return malloc(n); }
static void *pl_calloc(size_t a, size_t b) { return calloc(a, b); }
static void *pl_memalign(size_t a, size_t n) { return memalign(a, n); }
static int pl_posix_memalign(void **p, size_t a, size_t n) { return posix_memalign(p, a, n); }
static void *pl_valloc(size_t n) { return valloc(n); }
static char *pl_strdup(const char *s) { return strdup(s); }
static void *pl_realloc(void *p, size_t n) { return realloc(p, n); }
static void pl_free(void *p) { free(p); }
static size_t pl_usable(void *p) { return malloc_usable_size(p); }
static void *pl_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
static void pl_delete(void *p) { ::operator delete(p); }
static void pl_deletea(void *p) { ::operator delete[](p); }
static void pl_delete_nt(void *p) { ::operator delete(p, std::nothrow); }
static void pl_deletea_nt(void *p) { ::operator delete[](p, std::nothrow); }
static void *pl_new(size_t n) { return ::operator new(n); }
static void *pl_newa(size_t n) { return ::operator new[](n); }
static void *pl_new_nt(size_t n) { return ::operator new(n, std::nothrow); }
static void *pl_newa_nt(size_t n) { return ::operator new[](n, std::nothrow); }
#ifdef DUMA_NO_LEAKDETECTION
// this configuration knows no positions
#define POS(f, l)
static void *d_new(size_t n, const char *, int) { return ::operator new(n); }
static void *d_newa(size_t n, const char *, int) { return ::operator new[](n); }
static void *d_new_nt(size_t n, const char *, int) { return ::operator new(n, std::nothrow); }
static void *d_newa_nt(size_t n, const char *, int) { return ::operator new[](n, std::nothrow); }
static void d_delete(void *p, const char *, int) { ::operator delete(p); }
static void d_deletea(void *p, const char *, int) { ::operator delete[](p); }
static void d_delete_nt(void *p, const char *, int) { ::operator delete(p, std::nothrow); }
static void d_deletea_nt(void *p, const char *, int) { ::operator delete[](p, std::nothrow); }
#else
#define POS(f, l) , f, l
static void *d_new(size_t n, const char *f, int l) { return ::operator new(n, f, l); }
static void *d_newa(size_t n, const char *f, int l) { return ::operator new[](n, f, l); }
static void *d_new_nt(size_t n, const char *f, int l) { return ::operator new(n, std::nothrow, f, l); }
static void *d_newa_nt(size_t n, const char *f, int l) { return ::operator new[](n, std::nothrow, f, l); }
static void d_delete(void *p, const char *f, int l) { ::operator delete(p, f, l); }
static void d_deletea(void *p, const char *f, int l) { ::operator delete[](p, f, l); }
static void d_delete_nt(void *p, const char *f, int l) { ::operator delete(p, std::nothrow, f, l); }
static void d_deletea_nt(void *p, const char *f, int l) { ::operator delete[](p, std::nothrow, f, l); }
#endif

static void *d_memb(size_t n, int arr, const char *f, int l) {
  return _duma_allocate(0, n, GET_DUMA_TLSVARS()->PROTECT_BELOW, GET_DUMA_TLSVARS()->FILL, 1,
                        arr ? EFA_MEMBER_NEW_ARRAY : EFA_MEMBER_NEW_ELEM, DUMA_FAIL_NULL POS(f, l));
}
static void d_membfree(void *p, int arr, const char *f, int l) {
  _duma_deallocate(p, 1, arr ? EFA_MEMBER_DEL_ARRAY : EFA_MEMBER_DEL_ELEM POS(f, l));
}

// from here on the macros are on, as in a user's source file
#include "dumapp.h"

#define SITE_FILE "client_macro.cpp"
struct Node {
  Node *child;
  void *extra;
  long childarr;
  char pad[16];
  ~Node();
};
enum { ML_MALLOC, ML_CALLOC, ML_MEMALIGN, ML_PMEMALIGN, ML_VALLOC, ML_STRDUP, ML_REALLOC, ML_FREE, ML_NEW, ML_NEWA,
       ML_NEW_NT, ML_NEWA_NT, ML_DEL0, ML_DELA0 = ML_DEL0 + 4, ML_NESTDEL = ML_DELA0 + 4, ML_NESTDTOR, ML_NESTFREE, ML_NESTDTORA, ML_NESTDELA, ML_N };
extern "C" NOSWITCH int cli_macro_line(int what) { return 1000 + what; }
#define DTOR_FILE "sub/client_dtor.cc"
#define FREE_FILE "client_free.c"
#define NEST_FILE "client_nest.cpp"
extern "C" NOSWITCH const char *cli_macro_file(int what) {
  switch (what) {
  case ML_NESTDTOR: return DTOR_FILE;
  case ML_NESTDTORA: return NEST_FILE;
  case ML_NESTFREE: return FREE_FILE;
  case ML_NESTDELA: return NEST_FILE;
  }
  return SITE_FILE;
}
extern "C" NOSWITCH size_t cli_nodesize(void) { return sizeof(Node); }
struct Fixed { char c[48]; };

static void *mac_alloc(int ak, size_t a, size_t b, const char *s, int *rc) {
  void *p = (void *)0;
  switch (ak) {
  case AK_MALLOC:
#line 1000 SITE_FILE
    p = malloc(b);
    break;
  case AK_CALLOC:
#line 1001 SITE_FILE
    p = calloc(a, b);
    break;
  case AK_MEMALIGN:
#line 1002 SITE_FILE
    p = memalign(a, b);
    break;
  case AK_PMEMALIGN:
#line 1003 SITE_FILE
    *rc = posix_memalign(&p, a, b);
    break;
  case AK_VALLOC:
#line 1004 SITE_FILE
    p = valloc(b);
    break;
  case AK_STRDUP:
#line 1005 SITE_FILE
    p = strdup(s);
    break;
  case AK_REALLOC:
#line 1006 SITE_FILE
    p = realloc((void *)0, b);
    break;
  case AK_NEW: // fixed size: sizeof(Fixed)
#line 1008 SITE_FILE
    p = new Fixed;
    break;
  case AK_NEWA:
#line 1009 SITE_FILE
    p = new char[b];
    break;
  }
  return p;
}
static void mac_free(int fam, int variant, void *p) {
  switch (fam) {
  case FAM_C:
#line 1007 SITE_FILE
    free(p);
    break;
  case FAM_NEW:
    switch (variant & 3) {
    case 0:
#line 1012 SITE_FILE
      delete (Fixed *)p;
      break;
    case 1:
#line 1013 SITE_FILE
      delete (char *)p;
      break;
    case 2:
#line 1014 SITE_FILE
      delete (int *)p;
      break;
    default:
#line 1015 SITE_FILE
      delete (long *)p;
      break;
    }
    break;
  case FAM_NEWA:
    switch (variant & 3) {
    case 0:
#line 1016 SITE_FILE
      delete[](Fixed *) p;
      break;
    case 1:
#line 1017 SITE_FILE
      delete[](char *) p;
      break;
    case 2:
#line 1018 SITE_FILE
      delete[](int *) p;
      break;
    default:
#line 1019 SITE_FILE
      delete[](long *) p;
      break;
    }
    break;
  }
}
Node::~Node() {
#line 1022 FREE_FILE
  if (extra) free(extra);
  extra = 0;
  if (childarr) {
#line 1023 NEST_FILE
    delete[] child;
  } else {
#line 1021 DTOR_FILE
    delete child;
  }
}
static void mac_nestdel(Node *n, int arr) {
  if (arr) {
#line 1024 NEST_FILE
    delete[] n;
  } else {
#line 1020 SITE_FILE
    delete n;
  }
}
static void *mac_realloc(void *p, size_t n) {
#line 1006 SITE_FILE
  return realloc(p, n);
}
extern "C" void cli_set(int what, int v) {
  if (what == 0) DUMA_SET_ALIGNMENT(v);
  else if (what == 1) DUMA_SET_PROTECT_BELOW(v);
  else DUMA_SET_FILL(v);
}
#line 300 "client.cpp"
#include "noduma.h"

static size_t is_special(std::bad_alloc &e);
extern "C" void cli_alloc(CRes *r, int ak, int form, size_t a, size_t b, const char *s, const char *file, int line) {
  r->p = 0; r->err = 0; r->exc = 0; r->rc = 0; r->sz = 0;
  errno = 0;
  try {
    if (form == FORM_MACRO && ak != AK_NEW_NT && ak != AK_NEWA_NT && ak != AK_MEMB && ak != AK_MEMBA)
      r->p = mac_alloc(ak, a, b, s, &r->rc);
    else if (form == FORM_PLAIN && ak < AK_MEMB)
      switch (ak) {
      case AK_MALLOC: r->p = pl_malloc(b); break;
      case AK_CALLOC: r->p = pl_calloc(a, b); break;
      case AK_MEMALIGN: r->p = pl_memalign(a, b); break;
      case AK_PMEMALIGN: r->rc = pl_posix_memalign(&r->p, a, b); break;
      case AK_VALLOC: r->p = pl_valloc(b); break;
      case AK_STRDUP: r->p = pl_strdup(s); break;
      case AK_REALLOC: r->p = pl_realloc((void *)0, b); break;
      case AK_NEW: r->p = pl_new(b); break;
      case AK_NEWA: r->p = pl_newa(b); break;
      case AK_NEW_NT: r->p = pl_new_nt(b); break;
      case AK_NEWA_NT: r->p = pl_newa_nt(b); break;
      }
    else
      switch (ak) {
      case AK_MALLOC: r->p = _duma_malloc(b POS(file, line)); break;
      case AK_CALLOC: r->p = _duma_calloc(a, b POS(file, line)); break;
      case AK_MEMALIGN: r->p = _duma_memalign(a, b POS(file, line)); break;
      case AK_PMEMALIGN: r->rc = _duma_posix_memalign(&r->p, a, b POS(file, line)); break;
      case AK_VALLOC: r->p = _duma_valloc(b POS(file, line)); break;
      case AK_STRDUP: r->p = _duma_strdup(s POS(file, line)); break;
      case AK_REALLOC: r->p = _duma_realloc((void *)0, b POS(file, line)); break;
      case AK_NEW: r->p = d_new(b, file, line); break;
      case AK_NEWA: r->p = d_newa(b, file, line); break;
      case AK_NEW_NT: r->p = d_new_nt(b, file, line); break;
      case AK_NEWA_NT: r->p = d_newa_nt(b, file, line); break;
      case AK_MEMB: r->p = d_memb(b, 0, file, line); break;
      case AK_MEMBA: r->p = d_memb(b, 1, file, line); break;
      }
  } catch (std::bad_alloc &e) {
    r->exc = 1;
    r->sz = is_special(e);
  } catch (...) {
    r->exc = 2;
  }
  r->err = errno;
}

extern "C" void cli_free(CRes *r, int fam, int form, int variant, void *p, const char *file, int line) {
  r->exc = 0;
  try {
    if (fam >= FAM_MEMB) d_membfree(p, fam == FAM_MEMBA, file, line);
    else if (fam == FAM_C && (variant & 8)) {       // release through a resize to zero
      if (form == FORM_PLAIN) r->p = pl_realloc(p, 0);
      else if (form == FORM_DIRECT) r->p = _duma_realloc(p, 0 POS(file, line));
      else r->p = mac_realloc(p, 0);
    } else if (form == FORM_MACRO) mac_free(fam, variant, p);
    else if (form == FORM_PLAIN)
      switch (fam) {
      case FAM_C: pl_free(p); break;
      case FAM_NEW: if (variant & 4) pl_delete_nt(p); else pl_delete(p); break;
      case FAM_NEWA: if (variant & 4) pl_deletea_nt(p); else pl_deletea(p); break;
      }
    else
      switch (fam) {
      case FAM_C: _duma_free(p POS(file, line)); break;
      case FAM_NEW: if (variant & 4) d_delete_nt(p, file, line); else d_delete(p, file, line); break;
      case FAM_NEWA: if (variant & 4) d_deletea_nt(p, file, line); else d_deletea(p, file, line); break;
      }
  } catch (...) {
    r->exc = 2;
  }
}

extern "C" void cli_realloc(CRes *r, void *p, size_t n, int form, const char *file, int line) {
  r->p = 0; r->exc = 0;
  errno = 0;
  if (form == FORM_PLAIN) r->p = pl_realloc(p, n);
  else if (form == FORM_DIRECT) r->p = _duma_realloc(p, n POS(file, line));
  else r->p = mac_realloc(p, n);
  r->err = errno;
}
extern "C" void cli_usable(CRes *r, void *p, int form, const char *file, int line) {
  r->sz = form == FORM_PLAIN ? pl_usable(p) : _duma_malloc_usable_size(p POS(file, line));
}
#ifdef DUMA_NO_LEAKDETECTION
extern "C" NOSWITCH int cli_nolead(void) { return 1; }
#else
extern "C" NOSWITCH int cli_nolead(void) { return 0; }
#endif
extern "C" NOSWITCH long cli_min_align(void) { return DUMA_MIN_ALIGNMENT; }
extern "C" void cli_check(void *p) { DUMA_CHECK(p); }
extern "C" void cli_checkall(void) { DUMA_CHECKALL(); }
#ifdef DUMA_NO_LEAKDETECTION
extern "C" void cli_leakrep(void) {}
#else
extern "C" void cli_leakrep(void) { DUMA_delFrame(); }
#endif
extern "C" void cli_copy(void *d, const void *s, size_t n) { pl_memcpy(d, s, n); }
extern "C" int cli_overlap(char *buf, int fwd) {
  if (fwd) pl_memcpy(buf, buf + 4, 16);  // dest < src
  else pl_memcpy(buf + 4, buf, 16);
  return 0;
}
extern "C" void cli_nestdel(void *block, int arr) { mac_nestdel((Node *)((char *)block + (arr ? 8 : 0)), arr); }

// new-handlers
static void h_release() { sim_handler_called(1); }
static void h_throw() { sim_handler_called(2); throw std::bad_alloc(); }
struct SpecialBad : std::bad_alloc {};
static void h_throw_special() { sim_handler_called(5); throw SpecialBad(); }
static void h_self_remove() { if (sim_handler_called(3)) std::set_new_handler(0); }
static void h_free() { void *p = sim_handler_called(4); if (p) pl_free(p); }
static size_t is_special(std::bad_alloc &e) { return dynamic_cast<SpecialBad *>(&e) != 0; }
static std::new_handler hs[6] = {0, h_release, h_throw, h_self_remove, h_free, h_throw_special};
extern "C" void cli_sethandler(int kind) { std::set_new_handler(hs[kind]); }
extern "C" NOSWITCH int cli_handler_index(void *h) {
  for (int i = 0; i < 6; ++i) if ((void *)hs[i] == h) return i;
  return -1;
}
