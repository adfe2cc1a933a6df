From d3e1f7f14b7bb4d0aa81cd0ab5ba49070e2cb869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 01/29] fix: keep the opened range of a protect-below block
 inside the block

With an alignment above the page size the length was measured from the
guard page instead of the block's start, so pages behind the block, which
may belong to another block's guard page, were made accessible.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..abf77e0 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1660,7 +1660,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From 2de9c9ca73ddc69fd354f14829b6c8b482ae05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 02/29] fix: take the lock in malloc_usable_size()

It opened and closed the allocation list without the lock, so it pulled the
list away under a concurrent allocation, which then crashed.
---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index abf77e0..66952b6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2197,6 +2197,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2207,6 +2210,11 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
+
+
   return size;
 }
 
-- 
2.43.0


From a2967e5cbab9335f615af01bbf6e8c3c721dae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 03/29] fix: read the allocation list under the lock in
 DUMA_delFrame()

The list's address and length were read before the lock was taken, so a
concurrent allocation that moves the list left the leak report walking
released memory. The totals are now printed under the lock as well.
---
 src/duma.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 66952b6..9503d7c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2538,8 +2538,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2549,6 +2549,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
@@ -2598,14 +2600,14 @@ void DUMA_delFrame(void) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  IF__DUMA_INIT_DONE
-  DUMA_RELEASE_SEMAPHORE(0);
-
   if (_duma_s.SHOW_ALLOC)
     DUMA_Print(
         "\nDUMA:   Allocation(s): %l"
         "\nDUMA: Deallocation(s): %l\n",
         _duma_s.numAllocs, _duma_s.numDeallocs);
+
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
 }
 
 /* Function: _duma_exit
-- 
2.43.0


From 1011e9c1672f084f2ba37f8973020c1cdbbf50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 04/29] fix: map the size asked for in Page_Create()

The size was cut to an int: from 2 GB on the mapping failed or, above 4 GB,
was shorter than the block that was handed out.
---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 58d199a289e91e3393917cc5746902d7078e9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 05/29] fix: honour DUMA_MALLOC_FAILEXIT when DUMA_PROTECT_FREE
 is 0

The last attempt, which reports the failure and exits as configured, was made
only when freed memory is being protected.
---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 9503d7c..3003ba5 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1568,12 +1568,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress = Page_Create(
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From e77790ac7513f5241d3bae2e9b2281514ed7b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 06/29] fix: fail allocations whose size cannot be represented

For sizes near SIZE_MAX the internal size wrapped around to one page, and the
process was stopped by a failing mprotect() or got a block far too small.
Such a request now fails like any other: errno is ENOMEM, and NULL is
returned or the process exits as DUMA_MALLOC_FAILEXIT says.
---
 src/duma.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 3003ba5..bce8d30 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1262,6 +1262,19 @@ static void allocateMoreSlots(void) {
 #endif
 }
 
+/* Function: allocationFailed
+ *
+ * An allocation failed without a system call having reported it: exit when
+ * configured so, else fail the way malloc() does.
+ */
+static void *allocationFailed(size_t userSize, enum _DUMA_FailReturn fail) {
+  if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+    DUMA_Abort("Allocating %d byte(s) failed: out of memory.",
+               (DUMA_SIZE)userSize);
+  errno = ENOMEM;
+  return 0;
+}
+
 /* Function: duma_alloc_return
  *
  * set your conditional breakpoint here to catch a specific allocation
@@ -1431,6 +1444,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
     if (alignment > DUMA_PAGE_SIZE)
       internalSize += alignment - DUMA_PAGE_SIZE;
+
+    /* the sums above wrapped around, or no address space is that large */
+    if (internalSize < userSize || internalSize > ((size_t)-1 >> 1))
+      return allocationFailed(userSize, fail);
   } /* end if ( userSize ) */
 
   /*
@@ -1580,7 +1597,8 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       fullSlot->internalSize = chunkSize * numChunks;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
-    }
+    } else
+      errno = ENOMEM;
   } /* end if ( !fullSlot ) */
 
   if (fullSlot->internalSize) {
-- 
2.43.0


From 75168df4179a0d80500cfbcec3dd901886700924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 07/29] fix: fail calloc() when the product of its arguments
 overflows

A block smaller than nelem * elsize was returned as if the call succeeded.
---
 src/duma.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index bce8d30..73455b6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2043,6 +2043,11 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
  */
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
+  size_t size = nelem * elsize;
+
+  /* product not representable: ask for what no allocation can satisfy */
+  if (elsize && size / elsize != nelem)
+    size = (size_t)-1;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2050,7 +2055,7 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  return _duma_allocate(0, size, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From c2513e996c5c912347447a816e3786fb987261e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 08/29] fix: fail the allocation when no slot is left to
 describe it

While the system gave no memory for more slots, allocations served from
memory already obtained used up the last slots, and the next one stopped the
process with an internal error (or wrote through a null slot).
---
 src/duma.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 73455b6..346c0b6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1482,9 +1482,20 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * I don't have enough slots left to make an allocation.
    */
   if (DUMAAT_INTERNAL != _duma_allocDesc[allocator].type &&
-      _duma_s.unUsedSlots < 7)
+      _duma_s.unUsedSlots < 7) {
     allocateMoreSlots();
 
+    /* no memory for more slots: keep the last ones for the next attempt */
+    if (_duma_s.unUsedSlots < 4) {
+      if (protectAllocList) {
+        Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
+        IF__DUMA_INIT_DONE
+        DUMA_RELEASE_SEMAPHORE(0);
+      }
+      return allocationFailed(userSize, fail);
+    }
+  }
+
   /*
    * Iterate through all of the slot structures. Attempt to find a slot
    * containing free memory of the exact right size. Accept a slot with
-- 
2.43.0


From 285ddd0843b0598f98220eb90b36c57b8d3b3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 09/29] fix: account for all memory given back by
 reduceProtectedMemory()

When less than asked for could be given back, the sums kept counting it, so
DUMA_PROTECT_FREE and DUMA_MAX_ALLOC were applied to memory long gone; and
emptied slots were never counted as unused again.
---
 duma_hlp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..e30d99d 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
@@ -89,6 +90,8 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From 0d414d1dc6930cbd10cf67efb0243c4f613205f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 10/29] fix: report a failing first mmap() instead of crashing

While there is no list yet, reduceProtectedMemory() walked the null list; and
with DUMA_PROTECT_FREE=0 the null list was written to without a check.
---
 duma_hlp.h | 4 ++++
 src/duma.c | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index e30d99d..d7ba1c8 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -33,6 +33,10 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
   size_t count = _duma_s.slotCount;
   size_t alreadyReducekB = 0;
 
+  /* called before there is a list */
+  if (!slot)
+    return 0;
+
 #ifndef WIN32
   /* Windows VirtualFree(,,MEM_RELEASE) can only free whole allocations. not
    * parts */
diff --git a/src/duma.c b/src/duma.c
index 346c0b6..399e329 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1141,12 +1141,12 @@ void
       slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
           size, 0 /*=exitonfail*/, 0 /*= printerror*/);
     } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
   }
 
+  if (0 == _duma_g.allocList)
+    slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
+        size, 1 /*=exitonfail*/, 1 /*= printerror*/);
+
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
   /* enter _duma_g.allocList as slot to allow call to free() when doing
-- 
2.43.0


From 0beed87e073f5adb3fb86fb1be6f5a00ad94fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 11/29] fix: do not exchange the new-handler to find out which
 one is set

Two threads failing at the same time could take each other's stand-in for the
handler: the real one was not called, or was lost for good.
---
 src/dumapp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ba9ea03..bd7eee9 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -147,6 +147,8 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
 #ifdef _MSC_VER
       _PNH h = _set_new_handler(duma_new_handler);
       _set_new_handler(h);
+#elif __cplusplus >= 201103L
+      std::new_handler h = std::get_new_handler();
 #else
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
-- 
2.43.0


From 3bfb856cc068636e38295f1fed5de68cdd97f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 12/29] fix: count and show allocations under the lock

Concurrent allocations lost counts, so the totals did not balance, and their
trace lines could be taken apart by each other.
---
 src/duma.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 399e329..c035422 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1362,6 +1362,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   userAddr = 0;
 
   /* count and show allocation, if requested */
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_GET_SEMAPHORE();
+  }
   _duma_s.numAllocs++;
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
@@ -1374,6 +1378,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       DUMA_Print(
           " This is ANSI compliant but probably a bug. See DUMA_ALLOW_MALLOC_0.");
   }
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_RELEASE_SEMAPHORE(0);
+  }
+
+
 
   /* check userSize */
   if (0 == userSize) {
-- 
2.43.0


From 357bd8eee4ce051970c848a61c1898f3fe571365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 13/29] fix: read the position of a delete under the lock

The delete macro stores it in shared variables while holding the lock; a
delete that does not come from the macro read them without, and reported
another thread's file and line.
---
 src/dumapp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index bd7eee9..fa87a0d 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -210,9 +210,11 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
 void DUMA_CDECL operator delete(void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -226,9 +228,11 @@ void DUMA_CDECL operator delete(void *ptr) throw() {
 void DUMA_CDECL operator delete(void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -266,9 +270,11 @@ void *DUMA_CDECL operator new[](DUMA_SIZE_T size,
 void DUMA_CDECL operator delete[](void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
@@ -282,9 +288,11 @@ void DUMA_CDECL operator delete[](void *ptr) throw() {
 void DUMA_CDECL operator delete[](void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
-- 
2.43.0


From 12ed78a17995ab24b1b46f32c86e1098e9b952ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 14/29] fix: write messages completely

A write() interrupted by a signal or taking only part of the message, as to a
pipe, lost the rest of a diagnosis or report.
---
 src/print.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..a5a38a9 100644
--- a/src/print.c
+++ b/src/print.c
@@ -31,6 +31,7 @@
 #define _POSIX_C_SOURCE 200809L
 #endif
 
+#include <errno.h>
 #include <signal.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -283,6 +284,23 @@ void DUMA_Abort(const char *pattern, ...) {
   _exit(-1);
 }
 
+/* Function: writeAll
+ *
+ * write the whole buffer, even when write() gets interrupted or takes only a
+ * part of it
+ */
+static void writeAll(int fd, const char *buffer, int len) {
+  while (len > 0) {
+    int written = (int)write(fd, buffer, len);
+
+    if (written > 0) {
+      buffer += written;
+      len -= written;
+    } else if (written == 0 || errno != EINTR)
+      break;
+  }
+}
+
 /* Function: DUMA_Print
  *
  * external print function
@@ -304,10 +322,10 @@ void DUMA_Print(const char *pattern, ...) {
 #endif
 
   if (DUMA_OUTPUT_STDOUT)
-    write(1, buffer, len);
+    writeAll(1, buffer, len);
 
   if (DUMA_OUTPUT_STDERR)
-    write(2, buffer, len);
+    writeAll(2, buffer, len);
 
   if (DUMA_OUTPUT_FILE != NULL) {
 #if defined(WIN32) && !defined(__CYGWIN__)
@@ -316,7 +334,7 @@ void DUMA_Print(const char *pattern, ...) {
     fd = open(DUMA_OUTPUT_FILE, O_APPEND | O_CREAT | O_WRONLY, 0600);
 #endif
     if (fd >= 0) {
-      write(fd, buffer, len);
+      writeAll(fd, buffer, len);
 #if defined(WIN32) && !defined(__CYGWIN__)
       _close(fd);
 #else
-- 
2.43.0


From c6bc59c526d961f5f766357acac1f76663351c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 15/29] fix: read DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY

The documented names were not looked up, only the same names without the
prefix, which keep working.
---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index c035422..e7fc210 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +835,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From 93c730800c7a7e2800cb09e585deb21b3ca0a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 16/29] fix: accept a null pointer deleted before the first
 allocation

operator delete does not start DUMA up, so deleting a null pointer in an
early constructor stopped the process.
---
 src/duma.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index e7fc210..1bb7b0e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1779,6 +1779,9 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  if (0 == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1789,7 +1792,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
+  if (_duma_g.null_addr == address)
     return;
 
   if (protectAllocList) {
-- 
2.43.0


From 2331048474f9408373a3b07ef9a94bb31587f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 17/29] fix: accept the zero-size pointer of strategy 2 in
 realloc()

malloc(0) had returned it and free() takes it, but realloc() stopped the
process with 'address not from malloc()'.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 1bb7b0e..2fdd251 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2167,7 +2167,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!oldBuffer) {
+  if (!oldBuffer || _duma_g.null_addr == oldBuffer) {
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, duma_tls->FILL,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 5f0710a503d13f99a5ee8657ccc55bc0f2c7baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 18/29] fix: accept the zero-size pointer of strategy 2 in
 duma_check()

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 2fdd251..f94d760 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1972,7 +1972,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
-- 
2.43.0


From c7247280465feacca8fda6b8e5e6f18228121ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 19/29] fix: give no protected memory back for DUMA's own list

The old slot list is never protected when it is replaced, yet freed blocks
lost their protection to make room for it.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index f94d760..477544e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1910,7 +1910,7 @@ void _duma_deallocate(void *address, int protectAllocList,
   /* protect memory, that nobody can access it */
   /* Free as much protected memory, that we can protect this one */
   /* is there need? and is there a way to free such much? */
-  if (_duma_s.PROTECT_FREE > 0L &&
+  if (EFA_INT_ALLOC != slot->allocator && _duma_s.PROTECT_FREE > 0L &&
       _duma_s.sumProtectedMem + internalSizekB > _duma_s.PROTECT_FREE &&
       internalSizekB < _duma_s.PROTECT_FREE &&
       _duma_s.sumProtectedMem >= internalSizekB) {
-- 
2.43.0


From 00b0c7098a8a79fde275bfd3126d6a26485f7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 20/29] fix: deny access to the surplus of newly created memory

The free rest of a new chunk stayed readable and writable until it was first
used, so accesses to it went undetected.
---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 477544e..b890933 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1644,6 +1644,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* adjust size of fullSlot */
       fullSlot->internalSize = internalSize;
 
+      /* new memory is accessible; what is not handed out must not be */
+      Page_DenyAccess(emptySlots[0]->internalAddress,
+                      emptySlots[0]->internalSize);
+
+
+
       --_duma_s.unUsedSlots;
     }
 #endif
-- 
2.43.0


From 5d36cf7fde1fbbca1954a01bd8f3a517c9b3c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 21/29] fix: do not report DUMA's copies of its settings as
 leaks

With DUMA_OUTPUT_FILE set, every program got a leak of type 'strdup' reported
that it had nothing to do with.
---
 src/duma.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index b890933..a3c2c2d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,26 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* Function: duma_dup_setting
+ *
+ * Copy the text of a setting to memory of DUMA's own: it stays allocated until
+ * the program ends and is no leak of the program.
+ */
+static char *duma_dup_setting(const char *string) {
+  size_t size = strlen(string) + 1;
+  char *dup;
+
+#ifndef DUMA_NO_LEAKDETECTION
+  dup = (char *)_duma_allocate(1, size, 0, -1, 1, EFA_INT_ALLOC, DUMA_FAIL_ENV,
+                               __FILE__, __LINE__);
+#else
+  dup = (char *)_duma_allocate(1, size, 0, -1, 1, EFA_INT_ALLOC, DUMA_FAIL_ENV);
+#endif
+  if (dup)
+    memcpy(dup, string, size);
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -902,11 +922,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_dup_setting(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -938,11 +954,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_dup_setting(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From ad6b3d1dd7f9f3564b3048a4ee544329843fba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 22/29] fix: check all bits of the alignment for a power of 2

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index a3c2c2d..577f5a5 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1445,7 +1445,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From 7d33f8638d203f0c5c509fa1a7d60bb4b4a629b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 23/29] fix: exchange the new-handler under the lock where it
 cannot be read

Before C++11 exchanging is the only way to find out the handler; two threads
failing at the same time took each other's stand-in for it.
---
 src/dumapp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index fa87a0d..8ad88ae 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -150,8 +150,10 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
 #elif __cplusplus >= 201103L
       std::new_handler h = std::get_new_handler();
 #else
+      DUMA_GET_SEMAPHORE();
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
+      DUMA_RELEASE_SEMAPHORE(0);
 #endif
 
       // is there any handler?
-- 
2.43.0


From bfe9ec1214281e3f67464be4ba7635228326e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 24/29] fix: keep realloc(p, 0) a release for the zero-size
 pointer, too

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 577f5a5..d5a9dd0 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2185,7 +2185,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!oldBuffer || _duma_g.null_addr == oldBuffer) {
+  if (!oldBuffer || (_duma_g.null_addr == oldBuffer && newSize > 0)) {
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, duma_tls->FILL,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 2a9ebc7b46a733b67515bc201b156ce60972a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 25/29] fix: cope with a program that has no environment at all

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index d5a9dd0..bd5fa38 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -747,7 +747,7 @@ static const char *duma_getenv(const char *varname) {
   if (varname[0] == '\0')
     return ret;
 
-  while (environ[varno]) {
+  while (environ && environ[varno]) {
     const char *v = environ[varno++];
     int idx = 0;
 
-- 
2.43.0


From 6774569544075e4901a5a3b0f9cddc76861abf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 26/29] fix: diagnose realloc() of a released address that the
 new block gets

---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index bd5fa38..bde59e2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2202,7 +2202,8 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
     if (ptr) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
-      if (slot == 0)
+      /* the new block at the old address: the old one was released before */
+      if (slot == 0 || ptr == oldBuffer)
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
-- 
2.43.0


From e1e1a3c5c1de424756eb533aab2948c222622f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 27/29] fix: honour DUMA_SUPPRESS_ATEXIT when the exit handler
 is a destructor

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index bde59e2..45ed7e8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2689,6 +2689,10 @@ void
     __attribute((destructor))
 #endif
     _duma_exit(void) {
+  /* installed as destructor it cannot be left out: skip its work instead */
+  if (_duma_s.SUPPRESS_ATEXIT)
+    return;
+
 #if defined(WIN32) && !defined(__CYGWIN__) && !defined(__MINGW32__) &&         \
     !defined(__MINGW64__)
   /* Cleanup memory owned by the stack library */
-- 
2.43.0


From 8af027099a9edd7583e2ad4e22e563cd5aca559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 28/29] fix: messages longer than the print buffer no longer
 overrun it

---
 src/print.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/print.c b/src/print.c
index a5a38a9..6b39f44 100644
--- a/src/print.c
+++ b/src/print.c
@@ -91,7 +91,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, long number, long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -154,8 +155,9 @@ static int sprintLong(char *dest, long value, long base) {
 
 /* Function: DUMA_vsprintf
  *
- * internal function to print a formatted string into a buffer
- * int sprintf(char* buffer, const char *pattern, va_list args)
+ * internal function to print a formatted string into a buffer of size bytes;
+ * what does not fit is cut off
+ * int sprintf(char* buffer, int size, const char *pattern, va_list args)
  * allowed format specifier are:
  *
  *   %a = adress of type DUMA_ADDR
@@ -166,7 +168,8 @@ static int sprintLong(char *dest, long value, long base) {
  *   %s = string teminated with '\0'
  *   %c = char
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, int size, const char *pattern,
+                         va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
@@ -175,7 +178,8 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
   DUMA_ADDR n;
 
   c = *s++;
-  while (c) {
+  /* each number needs up to NUMBER_BUFFER_SIZE characters and a sign */
+  while (c && len < size - (int)NUMBER_BUFFER_SIZE - 2) {
     if (c == '%') {
       c = *s++;
       switch (c) {
@@ -223,13 +227,12 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
+        if (!string)
+          string = "NULL";
+        length = strlen(string);
+        if (length > (size_t)(size - len - 1))
+          length = size - len - 1;
+        memcpy(&buffer[len], string, length);
         len += length;
         break;
       }
@@ -264,7 +267,8 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  /* leave room for the newline */
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -313,7 +317,7 @@ void DUMA_Print(const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -358,7 +362,8 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  /* leave room for the newline */
+  DUMA_vsprintf(&buffer[lena], STRING_BUFFER_SIZE - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -380,7 +385,7 @@ void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, STRING_BUFFER_SIZE, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From 6c970b1103386f0e4234a67f6f4043a57852ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 29/29] fix: copy strings and memory beyond 4 GB with an index
 of type size_t

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 45ed7e8..92fe62f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2294,7 +2294,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2329,7 +2329,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2462,7 +2462,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2493,7 +2493,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0

