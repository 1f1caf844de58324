From aecfa9e241bceb7acd06c7e0a8cf9e7e9956fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 01/39] fix: keep the live pages of a strictly aligned block
 inside its slot

With PROTECT_BELOW and an alignment above the page size, the access
rights were set past the end of the slot, opening the guard page of the
neighbouring block.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..abf77e0 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1660,7 +1660,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From 4e1e6753059181640cfb863c1ff4fef077ae259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 02/39] fix: deny access to the unused rest of newly created
 memory pools

Only the initial pool was protected; every pool created later stayed
readable and writable until its pages were handed out.
---
 src/duma.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index abf77e0..fc78c12 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1579,6 +1579,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       fullSlot->internalSize = chunkSize * numChunks;
       fullSlot->state = DUMAST_FREE;
+
+      /* as with the initial pool: unused memory must not be accessible */
+      Page_DenyAccess(fullSlot->internalAddress, fullSlot->internalSize);
       --_duma_s.unUsedSlots;
     }
   } /* end if ( !fullSlot ) */
-- 
2.43.0


From 6a934cb005fcc1f6caf8277584b645286af3f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 03/39] fix: diagnose realloc() of a block that was already
 released

The contents of the protected block were read before anything was
checked, so the program died without any message.
---
 src/duma.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index fc78c12..1f19dca 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2142,6 +2142,25 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
+      /* the contents of released memory are not accessible any more */
+      if (DUMAST_ALL_PROTECTED == slot->state ||
+          DUMAST_BEGIN_PROTECTED == slot->state) {
+#ifndef DUMA_NO_LEAKDETECTION
+        if (DUMAFS_ALLOCATION == slot->fileSource)
+          DUMA_Abort(
+              "realloc(%a, %d): memory already freed; allocated from %s(%i)",
+              (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize, slot->filename,
+              slot->lineno);
+        else if (DUMAFS_DEALLOCATION == slot->fileSource)
+          DUMA_Abort("realloc(%a, %d): memory already freed at %s(%i)",
+                     (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize, slot->filename,
+                     slot->lineno);
+        else
+#endif
+          DUMA_Abort("realloc(%a, %d): memory already freed.",
+                     (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+      }
+
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
         memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
-- 
2.43.0


From 6199f395bca16412fa01894db0bd3e895268643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 04/39] fix: do not truncate the size of a mapping to int

A request of 2 GB or more got a mapping of the wrong size (or a failure
reported for a wrong size).
---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 345e81f4f78b6a6f905427caadb2fdb6ce399202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 05/39] fix: check the whole alignment for being a power of 2

Only the low 32 bits were looked at.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 1f19dca..2cb27fd 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1408,7 +1408,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From f144a71ee06385334945f24f19d63eb2fc6fba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 06/39] fix: read DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY

The documented environment variables had no effect: they were looked up
without their DUMA_ prefix.
---
 src/duma.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 2cb27fd..1556cbd 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -825,7 +825,10 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY");
+  if (!string) /* former name */
+    string = DUMA_GETENV("MALLOC_0_STRATEGY");
+  if (string != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -834,7 +837,10 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  string = DUMA_GETENV("DUMA_NEW_0_STRATEGY");
+  if (!string) /* former name */
+    string = DUMA_GETENV("NEW_0_STRATEGY");
+  if (string != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From db63f29bf8615c687a04a0400f0a30303f1b0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 07/39] fix: accept the shared zero-size address in realloc()
 and duma_check()

With DUMA_MALLOC_0_STRATEGY=2 (or DUMA_NEW_0_STRATEGY=2) the address
handed out could be freed, but resizing or checking it stopped the
program.
---
 src/duma.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1556cbd..07506c3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1937,7 +1937,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
@@ -2141,7 +2141,10 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
-    if (ptr) {
+    if (ptr && _duma_g.null_addr == oldBuffer) {
+      /* shared address of all zero sized buffers: nothing to copy or free */
+      memset(ptr, 0, newSize);
+    } else if (ptr) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
       if (slot == 0)
-- 
2.43.0


From 3cae5f65bb60838ada4ad0e0ed000e7e43e05427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 08/39] fix: fail requests whose size leaves no room for the
 dead page

---
 src/duma.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 07506c3..788b3e9 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1437,6 +1437,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
     if (alignment > DUMA_PAGE_SIZE)
       internalSize += alignment - DUMA_PAGE_SIZE;
+
+    /* does not fit into the address space: let the creation of memory fail */
+    if (internalSize < userSize)
+      internalSize = ~(size_t)(DUMA_PAGE_SIZE - 1);
   } /* end if ( userSize ) */
 
   /*
@@ -1554,7 +1558,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #ifndef SIZE_MAX
 #define SIZE_MAX ((size_t)(-1))
 #endif
-    size_t numChunks = SIZE_MAX;
+    size_t numChunks = 1;
     if (userSize > (SIZE_MAX) - (chunkSize - 1))
       fullSlot->internalAddress = 0;
     else {
-- 
2.43.0


From 526d7101de5938c7e96e54ff1c9430d38cb8f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 09/39] fix: let calloc() fail when the product of its
 arguments overflows

---
 src/duma.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 788b3e9..156f50c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2038,6 +2038,7 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
  */
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
+  size_t size;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2045,7 +2046,12 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  /* a product that cannot be represented must fail, like any too big size */
+  size = nelem * elsize;
+  if (elsize && size / elsize != nelem)
+    size = (size_t)-1;
+
+  return _duma_allocate(0, size, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From 4dc7e2fb6ec890c84aadf5b06b91761639cc21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 10/39] fix: honour DUMA_MALLOC_FAILEXIT when DUMA_PROTECT_FREE
 is 0

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 156f50c..d4be83f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1578,12 +1578,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress = Page_Create(
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From d4ae1ec950b5693874ba92584ef1f5fc3cc8ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 11/39] fix: treat a full allocation table that cannot grow as
 out of memory

---
 src/duma.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index d4be83f..12c2117 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1307,6 +1307,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   struct _DUMA_Slot *emptySlots[2];
   DUMA_ADDR intAddr, userAddr, protAddr, endAddr;
   size_t internalSize;
+  int outOfSlots = 0;
   int allocationStrategy;
 #if defined(WIN32) && !defined(__CYGWIN__) && !defined(__MINGW32__) &&         \
     !defined(__MINGW64__)
@@ -1475,9 +1476,14 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * I don't have enough slots left to make an allocation.
    */
   if (DUMAAT_INTERNAL != _duma_allocDesc[allocator].type &&
-      _duma_s.unUsedSlots < 7)
+      _duma_s.unUsedSlots < 7) {
     allocateMoreSlots();
 
+    /* Without a larger table this allocation has to fail, unless there are
+     * two slots for it and another two, needed to enlarge the table later. */
+    outOfSlots = (_duma_s.unUsedSlots < 4);
+  }
+
   /*
    * Iterate through all of the slot structures. Attempt to find a slot
    * containing free memory of the exact right size. Accept a slot with
@@ -1487,8 +1493,8 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * we have to create new memory and mark it as free.
    *
    */
-  for (slot = _duma_g.allocList, count = _duma_s.slotCount; count > 0;
-       --count, ++slot) {
+  for (slot = _duma_g.allocList, count = outOfSlots ? 0 : _duma_s.slotCount;
+       count > 0; --count, ++slot) {
     /*
      * Windows needs special treatment, cause Page_Delete() needs exactly
      * the same memory region as Page_Create()!
@@ -1515,7 +1521,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
-  if (!fullSlot) {
+  if (outOfSlots) {
+    if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+      DUMA_Abort("Out of memory: allocation table cannot be enlarged.");
+  } else if (!fullSlot) {
     /*
      * I get here if I haven't been able to find a free buffer
      * with all of the memory I need. I'll have to create more
@@ -1596,7 +1605,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   } /* end if ( !fullSlot ) */
 
-  if (fullSlot->internalSize) {
+  if (fullSlot && fullSlot->internalSize) {
 
 #if !defined(WIN32)
     /*
-- 
2.43.0


From bc5561be5f86e1d14234d7b61b8470014ccb123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 12/39] fix: let strncpy() detect a destination at the
 terminator of the source

---
 src/duma.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 12c2117..4f56b3a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2397,11 +2397,14 @@ char *_duma_strcpy(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncpy(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  size_t i, srclen;
+  size_t i, srcsize;
 
-  srclen = _duma_strnlen(src, size);
+  /* the terminator is read, too, unless size bytes were read before it */
+  srcsize = _duma_strnlen(src, size);
+  if (srcsize < size)
+    ++srcsize;
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
+  if (size > 0 && ((src < dest && dest < src + srcsize) ||
                    (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
-- 
2.43.0


From 67496c5f3b9663b45028165ff7488001ba882bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 13/39] fix: let strcpy(), strcat() and strncat() detect a
 source behind the destination

---
 src/duma.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 4f56b3a..4348583 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2370,7 +2370,8 @@ char *_duma_strcpy(char *dest, const char *src DUMA_PARAMLIST_FL) {
   size_t i;
   size_t size = strlen(src) + 1;
 
-  if (src < dest && dest < src + size) {
+  if ((src < dest && dest < src + size) ||
+      (dest < src && src < dest + size)) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strcpy(%a, %a): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, filename, lineno);
@@ -2443,7 +2444,8 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
-  if (src < dest + destlen && dest + destlen < src + srcsize) {
+  if ((src < dest + destlen && dest + destlen < src + srcsize) ||
+      (dest + destlen < src && src < dest + destlen + srcsize)) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strcat(%a, %a): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, filename, lineno);
@@ -2482,7 +2484,8 @@ char *_duma_strncat(char *dest, const char *src,
   srclen = _duma_strnlen(src, size);
 
   /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) {
+  if ((src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) ||
+      ((dest + destlen) < src && src < (dest + destlen + srclen + 1))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 57009ede03582a4fc8b33c92511839bc90d16902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 14/39] fix: do not report strncat() of bytes that end where it
 appends

---
 src/duma.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 4348583..35f684d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2473,7 +2473,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
   unsigned i;
-  size_t destlen, srclen;
+  size_t destlen, srclen, srcsize;
 
   /* do nothing, when size not > 0 */
   if (size <= 0)
@@ -2483,8 +2483,11 @@ char *_duma_strncat(char *dest, const char *src,
   destlen = strlen(dest);
   srclen = _duma_strnlen(src, size);
 
+  /* the terminator is read, too, unless size bytes were read before it */
+  srcsize = (srclen < size) ? srclen + 1 : srclen;
+
   /* CHECK: Verify memory regions do not overlap */
-  if ((src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) ||
+  if ((src < (dest + destlen) && (dest + destlen) < (src + srcsize)) ||
       ((dest + destlen) < src && src < (dest + destlen + srclen + 1))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
-- 
2.43.0


From 0270ff21b32328c958d75a13b408e23011e5169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 15/39] fix: count bytes of memcpy(), strdup(), strcat() and
 strncat() in full width

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 35f684d..74a1ff3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2268,7 +2268,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2303,7 +2303,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2440,7 +2440,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2472,7 +2472,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen, srcsize;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 475489dbfd2b24f2567fc0fec884d18637df0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 16/39] fix: count the table entries of given-back protected
 memory as unused

---
 duma_hlp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..c23347e 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -82,6 +82,8 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->lineno = 0;
 #endif
 
+      ++_duma_s.unUsedSlots;
+
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
         _duma_s.sumAllocatedMem -= alreadyReducekB;
-- 
2.43.0


From 010686e796b8147c628f3204c512fafab068fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 17/39] fix: account for protected memory given back even if it
 was not enough

---
 duma_hlp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index c23347e..83d1f85 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -91,6 +91,10 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* account for what could be reduced, even if it was not enough */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
+
   return 0;
 }
 
-- 
2.43.0


From 3a27c042f8158a5f0bc476fd01ec3c5615590abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 18/39] fix: give back as much protected memory as
 DUMA_MAX_ALLOC is exceeded by

---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 74a1ff3..d39d6f5 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1562,7 +1562,8 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     /* reduce protected memory when we would exceed _duma_s.MAX_ALLOC */
     if (_duma_s.MAX_ALLOC > 0L &&
         _duma_s.sumAllocatedMem + chunkSizekB > _duma_s.MAX_ALLOC)
-      reduceProtectedMemory(chunkSizekB);
+      reduceProtectedMemory(_duma_s.sumAllocatedMem + chunkSizekB -
+                            _duma_s.MAX_ALLOC);
 
 #ifndef SIZE_MAX
 #define SIZE_MAX ((size_t)(-1))
-- 
2.43.0


From 5ae8e4b147b71804e99d6221e60df5ba51bb8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 19/39] fix: do not give back protected memory for internal
 memory, which is never kept

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index d39d6f5..2326e5d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1889,7 +1889,7 @@ void _duma_deallocate(void *address, int protectAllocList,
   /* protect memory, that nobody can access it */
   /* Free as much protected memory, that we can protect this one */
   /* is there need? and is there a way to free such much? */
-  if (_duma_s.PROTECT_FREE > 0L &&
+  if (EFA_INT_ALLOC != slot->allocator && _duma_s.PROTECT_FREE > 0L &&
       _duma_s.sumProtectedMem + internalSizekB > _duma_s.PROTECT_FREE &&
       internalSizekB < _duma_s.PROTECT_FREE &&
       _duma_s.sumProtectedMem >= internalSizekB) {
-- 
2.43.0


From c52da0e20f9f390ce8ca18d3096df61b2a064227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 20/39] fix: do not report the copies of settings as leaks

---
 src/duma.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 2326e5d..da7f2ef 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,37 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* Function: dupSetting
+ *
+ * Keep a copy of an environment setting until the program ends. It is DUMA's
+ * own memory, thus no leak of the program.
+ */
+static char *dupSetting(const char *str) {
+  size_t size = 0;
+  size_t i;
+  char *dup;
+
+  while (str[size])
+    ++size;
+
+#ifndef DUMA_NO_LEAKDETECTION
+  dup = (char *)_duma_allocate(0, size + 1, 0 /*=protectBelow*/,
+                               -1 /*=fillByte*/, 1 /*=protectAllocList*/,
+                               EFA_INT_ALLOC, DUMA_FAIL_ENV, __FILE__,
+                               __LINE__);
+#else
+  dup = (char *)_duma_allocate(0, size + 1, 0 /*=protectBelow*/,
+                               -1 /*=fillByte*/, 1 /*=protectAllocList*/,
+                               EFA_INT_ALLOC, DUMA_FAIL_ENV);
+#endif
+
+  if (dup)
+    for (i = 0; i <= size; ++i)
+      dup[i] = str[i];
+
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -906,11 +937,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = dupSetting(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -942,11 +969,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = dupSetting(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From df94749f87c73cf42efe244e0b11141ab4ed28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 21/39] fix: print the smallest negative number correctly

---
 src/print.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..cc56531 100644
--- a/src/print.c
+++ b/src/print.c
@@ -89,7 +89,7 @@ typedef LPVOID caddr_t;
 /* define prototypes / forward declarations */
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
-static int sprintLong(char *dest, long number, long base);
+static int sprintLong(char *dest, unsigned long number, unsigned long base);
 static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 /*
@@ -130,11 +130,11 @@ static int sprintAddr(char *dest, DUMA_ADDR value, DUMA_ADDR base) {
  *
  * internal function to print a int into a buffer
  */
-static int sprintLong(char *dest, long value, long base) {
+static int sprintLong(char *dest, unsigned long value, unsigned long base) {
   char buffer[NUMBER_BUFFER_SIZE + 1];
   char *s = &buffer[NUMBER_BUFFER_SIZE];
   long size;
-  long digit;
+  unsigned long digit;
 
   do {
     if (--s == buffer)
@@ -199,21 +199,23 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       case 'i': /* int */
       {
         long n = (long)va_arg(args, int);
+        unsigned long u = (unsigned long)n;
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
+          u = 0UL - u; /* defined for LONG_MIN, too */
         }
-        len += sprintLong(&buffer[len], n, 10);
+        len += sprintLong(&buffer[len], u, 10);
         break;
       }
       case 'l': /* long */
       {
         long n = va_arg(args, long);
+        unsigned long u = (unsigned long)n;
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
+          u = 0UL - u; /* defined for LONG_MIN, too */
         }
-        len += sprintLong(&buffer[len], n, 10);
+        len += sprintLong(&buffer[len], u, 10);
         break;
       }
       case 's': /* string */
-- 
2.43.0


From 6ce3bfdb256f30a98f9c828d58d027f7a894b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 22/39] fix: do not overflow the buffer of messages with long
 strings

---
 src/print.c | 150 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 95 insertions(+), 55 deletions(-)

diff --git a/src/print.c b/src/print.c
index cc56531..1b1d593 100644
--- a/src/print.c
+++ b/src/print.c
@@ -90,7 +90,6 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, unsigned long number, unsigned long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -101,6 +100,23 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 #define STRING_BUFFER_SIZE 4096
 
+/*
+ * Formatted output goes through a buffer. With a size of 0 the buffer is the
+ * caller's and large enough; otherwise it is written whenever it is full, so
+ * that messages of any length are complete.
+ */
+struct outBuffer {
+  char *buffer;
+  size_t size;
+  size_t len;
+};
+
+static void DUMA_Write(const char *buffer, size_t len);
+static void outChar(struct outBuffer *out, char c);
+static void outString(struct outBuffer *out, const char *string);
+static void DUMA_vsprintf(struct outBuffer *out, const char *pattern,
+                          va_list args);
+
 /* Function: sprintAddr
  *
  * internal function to print a DUMA_ADDR into a buffer
@@ -151,10 +167,32 @@ static int sprintLong(char *dest, unsigned long value, unsigned long base) {
   return size;
 }
 
+/* Function: outChar
+ *
+ * internal function to append a character to a buffer
+ */
+static void outChar(struct outBuffer *out, char c) {
+  if (out->size && out->len + 1 >= out->size) {
+    out->buffer[out->len] = '\0';
+    DUMA_Write(out->buffer, out->len);
+    out->len = 0;
+  }
+  out->buffer[out->len++] = c;
+}
+
+/* Function: outString
+ *
+ * internal function to append a string to a buffer
+ */
+static void outString(struct outBuffer *out, const char *string) {
+  while (*string)
+    outChar(out, *string++);
+}
+
 /* Function: DUMA_vsprintf
  *
  * internal function to print a formatted string into a buffer
- * int sprintf(char* buffer, const char *pattern, va_list args)
+ * void DUMA_vsprintf(struct outBuffer *out, const char *pattern, va_list args)
  * allowed format specifier are:
  *
  *   %a = adress of type DUMA_ADDR
@@ -165,12 +203,13 @@ static int sprintLong(char *dest, unsigned long value, unsigned long base) {
  *   %s = string teminated with '\0'
  *   %c = char
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static void DUMA_vsprintf(struct outBuffer *out, const char *pattern,
+                          va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
   const char *s = pattern;
-  int len = 0;
+  char number[NUMBER_BUFFER_SIZE + 1];
   DUMA_ADDR n;
 
   c = *s++;
@@ -179,7 +218,7 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       c = *s++;
       switch (c) {
       case '%':
-        buffer[len++] = c;
+        outChar(out, c);
         break;
       case 'a': /* DUMA_ADDR */
       case 'x': /* DUMA_ADDR */
@@ -190,21 +229,24 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
          * bits of a void pointer.
          */
         n = va_arg(args, DUMA_ADDR);
-        len += sprintAddr(&buffer[len], n, 16);
+        sprintAddr(number, n, 16);
+        outString(out, number);
         break;
       case 'd': /* DUMA_SIZE */
         n = va_arg(args, DUMA_SIZE);
-        len += sprintAddr(&buffer[len], n, 10);
+        sprintAddr(number, n, 10);
+        outString(out, number);
         break;
       case 'i': /* int */
       {
         long n = (long)va_arg(args, int);
         unsigned long u = (unsigned long)n;
         if (n < 0) {
-          buffer[len++] = '-';
+          outChar(out, '-');
           u = 0UL - u; /* defined for LONG_MIN, too */
         }
-        len += sprintLong(&buffer[len], u, 10);
+        sprintLong(number, u, 10);
+        outString(out, number);
         break;
       }
       case 'l': /* long */
@@ -212,43 +254,35 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         long n = va_arg(args, long);
         unsigned long u = (unsigned long)n;
         if (n < 0) {
-          buffer[len++] = '-';
+          outChar(out, '-');
           u = 0UL - u; /* defined for LONG_MIN, too */
         }
-        len += sprintLong(&buffer[len], u, 10);
+        sprintLong(number, u, 10);
+        outString(out, number);
         break;
       }
       case 's': /* string */
       {
         const char *string;
-        size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
-        len += length;
+        outString(out, string ? string : "NULL");
         break;
       }
       case 'c': /* char */
         /* characters are passed as int ! */
-        buffer[len++] = (char)va_arg(args, int);
+        outChar(out, (char)va_arg(args, int));
         break;
       default:
         DUMA_Print(bad_pattern, c);
       }
     } else /* if ( c != '%' ) */
-      buffer[len++] = c;
+      outChar(out, c);
 
     c = *s++;
   } /* end while (c) */
 
-  buffer[len] = '\0';
-  return len;
+  out->buffer[out->len] = '\0';
 }
 
 /* Function: DUMA_Abort
@@ -259,15 +293,15 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
  */
 void DUMA_Abort(const char *pattern, ...) {
   char buffer[STRING_BUFFER_SIZE];
-  int lena;
+  struct outBuffer out = {buffer, STRING_BUFFER_SIZE, 0};
   va_list args;
 
   va_start(args, pattern);
-  strcpy(buffer, "\nDUMA Aborting: ");
-  lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
-  strcat(buffer, "\n");
-  DUMA_Print("%s", buffer);
+  outString(&out, "\nDUMA Aborting: ");
+  DUMA_vsprintf(&out, pattern, args);
+  outChar(&out, '\n');
+  buffer[out.len] = '\0';
+  DUMA_Write(buffer, out.len);
   va_end(args);
 
 #ifndef WIN32
@@ -285,20 +319,13 @@ void DUMA_Abort(const char *pattern, ...) {
   _exit(-1);
 }
 
-/* Function: DUMA_Print
+/* Function: DUMA_Write
  *
- * external print function
+ * internal function to write a part of a message to all selected outputs
  * on Visual C++ it additionally prints to Debug Output of the IDE
- * void DUMA_Print(const char * pattern, ...)
  */
-void DUMA_Print(const char *pattern, ...) {
-  char buffer[STRING_BUFFER_SIZE];
-  int len, fd;
-  va_list args;
-
-  va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
-  va_end(args);
+static void DUMA_Write(const char *buffer, size_t len) {
+  int fd;
 
 #ifdef WIN32
   if (DUMA_OUTPUT_DEBUG)
@@ -328,6 +355,24 @@ void DUMA_Print(const char *pattern, ...) {
   }
 }
 
+/* Function: DUMA_Print
+ *
+ * external print function
+ * on Visual C++ it additionally prints to Debug Output of the IDE
+ * void DUMA_Print(const char * pattern, ...)
+ */
+void DUMA_Print(const char *pattern, ...) {
+  char buffer[STRING_BUFFER_SIZE];
+  struct outBuffer out = {buffer, STRING_BUFFER_SIZE, 0};
+  va_list args;
+
+  va_start(args, pattern);
+  DUMA_vsprintf(&out, pattern, args);
+  va_end(args);
+
+  DUMA_Write(buffer, out.len);
+}
+
 /* Function: DUMA_Exit
  *
  * external exit function
@@ -336,19 +381,15 @@ void DUMA_Print(const char *pattern, ...) {
  */
 void DUMA_Exit(const char *pattern, ...) {
   char buffer[STRING_BUFFER_SIZE];
-  int lena;
+  struct outBuffer out = {buffer, STRING_BUFFER_SIZE, 0};
   va_list args;
 
   va_start(args, pattern);
-  strcpy(buffer, "\nDUMA Exiting: ");
-  lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
-  strcat(buffer, "\n");
-  DUMA_Print("%s", buffer);
-#ifdef WIN32
-  if (DUMA_OUTPUT_DEBUG)
-    OutputDebugString(buffer);
-#endif
+  outString(&out, "\nDUMA Exiting: ");
+  DUMA_vsprintf(&out, pattern, args);
+  outChar(&out, '\n');
+  buffer[out.len] = '\0';
+  DUMA_Write(buffer, out.len);
   va_end(args);
 
   /*
@@ -360,14 +401,13 @@ void DUMA_Exit(const char *pattern, ...) {
 
 /* Function: DUMA_sprintf */
 void DUMA_sprintf(char *buffer, const char *pattern, ...) {
-  int len;
+  struct outBuffer out = {0, 0, 0};
   va_list args;
 
+  out.buffer = buffer;
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  DUMA_vsprintf(&out, pattern, args);
   va_end(args);
-  if (len <= 0)
-    buffer[0] = 0;
 }
 
 const char *DUMA_strerror(int duma_errno) {
-- 
2.43.0


From 7ce657f0a10b336e5fe26da43529fbb1ead75d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 23/39] fix: write messages in full when a write is short or
 interrupted

---
 src/print.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 1b1d593..3f1b993 100644
--- a/src/print.c
+++ b/src/print.c
@@ -31,6 +31,7 @@
 #define _POSIX_C_SOURCE 200809L
 #endif
 
+#include <errno.h>
 #include <signal.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -319,6 +320,22 @@ void DUMA_Abort(const char *pattern, ...) {
   _exit(-1);
 }
 
+/* Function: writeAll
+ *
+ * internal function to write everything, even if interrupted or in pieces
+ */
+static void writeAll(int fd, const char *buffer, size_t len) {
+  while (len) {
+    long n = (long)write(fd, buffer, len);
+
+    if (n > 0) {
+      buffer += n;
+      len -= (size_t)n;
+    } else if (n == 0 || errno != EINTR)
+      return;
+  }
+}
+
 /* Function: DUMA_Write
  *
  * internal function to write a part of a message to all selected outputs
@@ -333,10 +350,10 @@ static void DUMA_Write(const char *buffer, size_t len) {
 #endif
 
   if (DUMA_OUTPUT_STDOUT)
-    write(1, buffer, len);
+    writeAll(1, buffer, len);
 
   if (DUMA_OUTPUT_STDERR)
-    write(2, buffer, len);
+    writeAll(2, buffer, len);
 
   if (DUMA_OUTPUT_FILE != NULL) {
 #if defined(WIN32) && !defined(__CYGWIN__)
@@ -345,7 +362,7 @@ static void DUMA_Write(const char *buffer, size_t len) {
     fd = open(DUMA_OUTPUT_FILE, O_APPEND | O_CREAT | O_WRONLY, 0600);
 #endif
     if (fd >= 0) {
-      write(fd, buffer, len);
+      writeAll(fd, buffer, len);
 #if defined(WIN32) && !defined(__CYGWIN__)
       _close(fd);
 #else
-- 
2.43.0


From 27455939322c853e04a6473051b97ba584c589f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 24/39] fix: hold the lock while malloc_usable_size() reads the
 block table

---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index da7f2ef..182f505 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2271,6 +2271,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2281,6 +2284,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From 804a65b2bc8fecd144e351840edb956c44b19ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 25/39] fix: count allocations while holding the lock

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 182f505..6fd8a1e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1379,7 +1379,11 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   userAddr = 0;
 
   /* count and show allocation, if requested */
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
   _duma_s.numAllocs++;
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Print("\nDUMA: Allocating %d byte(s) at %s(%i).", (DUMA_SIZE)userSize,
-- 
2.43.0


From f3457891923b552cc4025d1a64cefd50b2756541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 26/39] fix: let DUMA_delFrame() read the block table while
 holding the lock

---
 src/duma.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 6fd8a1e..d148a3d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2623,8 +2623,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2634,6 +2634,9 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
+
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From b5bad87eb085b637c0ac2be0f93acb47b83bd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 27/39] fix: do not report the position of another thread's
 delete

---
 src/dumapp.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ba9ea03..c5171da 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -36,6 +36,7 @@
 #include <stdlib.h>
 
 #include "dumapp.h"
+#include "duma_sem.h"
 #include "noduma.h"
 
 /* define the global variables */
@@ -208,9 +209,12 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
 void DUMA_CDECL operator delete(void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  /* the delete macro sets the position while holding the semaphore */
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -224,9 +228,12 @@ void DUMA_CDECL operator delete(void *ptr) throw() {
 void DUMA_CDECL operator delete(void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  /* the delete macro sets the position while holding the semaphore */
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -264,9 +271,12 @@ void *DUMA_CDECL operator new[](DUMA_SIZE_T size,
 void DUMA_CDECL operator delete[](void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  /* the delete macro sets the position while holding the semaphore */
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
@@ -280,9 +290,12 @@ void DUMA_CDECL operator delete[](void *ptr) throw() {
 void DUMA_CDECL operator delete[](void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
   DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
+  /* the delete macro sets the position while holding the semaphore */
+  DUMA_GET_SEMAPHORE();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
                    duma_tls.DelFile[duma_tls.DelPtr],
                    duma_tls.DelLine[duma_tls.DelPtr]);
+  DUMA_RELEASE_SEMAPHORE(0);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
-- 
2.43.0


From c75ba0c5094fb3451b25c11e6ac77eccb86c167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 28/39] fix: do not replace the new handler while reading it

---
 src/dumapp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index c5171da..2985875 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -148,9 +148,13 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
 #ifdef _MSC_VER
       _PNH h = _set_new_handler(duma_new_handler);
       _set_new_handler(h);
+#elif __cplusplus >= 201103L
+      std::new_handler h = std::get_new_handler();
 #else
+      DUMA_GET_SEMAPHORE();
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
+      DUMA_RELEASE_SEMAPHORE(0);
 #endif
 
       // is there any handler?
-- 
2.43.0


From 43889ce7b47b98a2880f5cb0df532b08713bbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 29/39] fix: let the configuration disable the C++ operators

---
 src/dumapp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index 2985875..6757235 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -24,6 +24,8 @@
  * replaces various global C++ new/delete/new[]/delete[] operators
  */
 
+#include "duma_config.h"
+
 #ifndef DUMA_NO_CPP_SUPPORT
 
 #ifdef _MSC_VER
-- 
2.43.0


From ede1e10849567995c1ea7489b6561e1b1bda4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 30/39] fix: define the remaining macros, usable as the real
 ones, with DUMA_NO_DUMA

---
 duma.h | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/duma.h b/duma.h
index 6c28ca2..8738eb3 100644
--- a/duma.h
+++ b/duma.h
@@ -54,38 +54,34 @@
 
 #ifdef DUMA_NO_DUMA
 
-/* enable these macros even in release code, but do nothing */
-#define DUMA_newFrame()                                                        \
-  do {                                                                         \
-  } while (0)
-#define DUMA_delFrame()                                                        \
-  do {                                                                         \
-  } while (0)
+/* enable these macros even in release code, but do nothing;
+ * they are usable wherever the real ones are: also in expressions
+ */
+#define DUMA_newFrame() ((void)0)
+#define DUMA_delFrame() ((void)0)
 
-#define DUMA_SET_ALIGNMENT(V)                                                  \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_PROTECT_BELOW(V)                                              \
-  do {                                                                         \
-  } while (0)
-#define DUMA_SET_FILL(V)                                                       \
-  do {                                                                         \
-  } while (0)
+#define DUMA_SET_ALIGNMENT(V) ((void)0)
+#define DUMA_SET_PROTECT_BELOW(V) ((void)0)
+#define DUMA_SET_FILL(V) ((void)0)
 
-#define DUMA_ASSERT(EXPR)                                                      \
-  do {                                                                         \
-  } while (0)
+#define DUMA_ASSERT(EXPR) ((void)0)
+
+#define DUMA_CHECK(BASEADR) ((void)0)
+#define DUMA_CHECKALL() ((void)0)
 
-#define DUMA_CHECK(BASEADR)                                                    \
+#define DUMA_FN_PROT_START {
+#define DUMA_FN_PROT_END }
+#define DUMA_FN_PROT_RET(EXPR)                                                 \
   do {                                                                         \
+    return (EXPR);                                                             \
   } while (0)
-#define DUMA_CHECKALL()                                                        \
+#define DUMA_FN_PROT_RET_VOID()                                                \
   do {                                                                         \
+    return;                                                                    \
   } while (0)
 
-#define CA_DECLARE(NAME, SIZE)                                                 \
-  do {                                                                         \
-  } while (0)
+/* a declaration without effect, as allowed outside of functions, too */
+#define CA_DECLARE(NAME, SIZE) extern const unsigned long NAME##_checkedsize
 #define CA_DEFINE(TYPE, NAME, SIZE) TYPE NAME[SIZE]
 #define CA_REF(NAME, INDEX) NAME[INDEX]
 
-- 
2.43.0


From 21b300237d0ce19880746f65e998f3b13b62ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 31/39] fix: no operators and macros of the library in dumapp.h
 with DUMA_NO_DUMA

---
 dumapp.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index de00918..fcc6cd9 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -43,14 +43,15 @@
 /* remove previous macro definitions */
 #include "noduma.h"
 
-#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION))
+#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||          \
+     defined(DUMA_NO_DUMA))
 /* define macros as wrapper without special functionality */
 #define NEW_ELEM(TYPE) new TYPE
 #define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
 #define DEL_ELEM(PTR) delete PTR
 #define DEL_ARRAY(PTR) delete[] PTR
-#endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) )   \
-        */
+#endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) ||  \
+            defined(DUMA_NO_DUMA) ) */
 
 #ifndef DUMA_CDECL
 #ifdef _MSC_VER
@@ -74,7 +75,7 @@
 #define NEW_THROW_SPEC
 #endif
 
-#ifndef DUMA_NO_CPP_SUPPORT
+#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_DUMA)
 
 #ifndef DUMA_CPP_OPERATORS_DECLARED /* && !defined(DUMA_NO_CPP_SUPPORT) */
 #define DUMA_CPP_OPERATORS_DECLARED
@@ -207,6 +208,6 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 
 #endif /* end ifdef DUMA_NO_LEAKDETECTION */
 
-#endif /* end ifdef DUMA_NO_CPP_SUPPORT */
+#endif /* end if !DUMA_NO_CPP_SUPPORT && !DUMA_NO_DUMA */
 
 #include "duma.h"
-- 
2.43.0


From 02385cf2114d8ba8643c5f9e4646791194471265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 32/39] fix: serve aligned_alloc as every other allocation
 function

---
 duma.h     | 2 ++
 noduma.h   | 4 ++++
 src/duma.c | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/duma.h b/duma.h
index 8738eb3..bc42414 100644
--- a/duma.h
+++ b/duma.h
@@ -312,6 +312,8 @@ DUMA_EXTERN_C char *_duma_strncat(char *dest, const char *src, size_t size);
 #define free(BASEADR) _duma_free(BASEADR, __FILE__, __LINE__)
 #define memalign(ALIGNMENT, SIZE)                                              \
   _duma_memalign(ALIGNMENT, SIZE, __FILE__, __LINE__)
+#define aligned_alloc(ALIGNMENT, SIZE)                                         \
+  _duma_memalign(ALIGNMENT, SIZE, __FILE__, __LINE__)
 #define posix_memalign(MEMPTR, ALIGNMENT, SIZE)                                \
   _duma_posix_memalign(MEMPTR, ALIGNMENT, SIZE, __FILE__, __LINE__)
 #define realloc(BASEADR, NEWSIZE)                                              \
diff --git a/noduma.h b/noduma.h
index 4fd75b5..5f16fe9 100644
--- a/noduma.h
+++ b/noduma.h
@@ -65,6 +65,10 @@
 #undef memalign
 #endif
 
+#ifdef aligned_alloc
+#undef aligned_alloc
+#endif
+
 #ifdef posix_memalign
 #undef posix_memalign
 #endif
diff --git a/src/duma.c b/src/duma.c
index d148a3d..90c8367 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2568,6 +2568,11 @@ void *memalign(size_t alignment, size_t size) {
   return _duma_memalign(alignment, size DUMA_PARAMS_UK);
 }
 
+/* also used by the aligned forms of C++17's operator new */
+void *aligned_alloc(size_t alignment, size_t size) {
+  return _duma_memalign(alignment, size DUMA_PARAMS_UK);
+}
+
 int posix_memalign(void **memptr, size_t alignment, size_t size) {
   return _duma_posix_memalign(memptr, alignment, size DUMA_PARAMS_UK);
 }
-- 
2.43.0


From 565bc1676740658f2780ca943bd212854568c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 33/39] fix: serve pvalloc as every other allocation function

---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 90c8367..38d24b2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2583,6 +2583,14 @@ void *realloc(void *oldBuffer, size_t newSize) {
 
 void *valloc(size_t size) { return _duma_valloc(size DUMA_PARAMS_UK); }
 
+/* as valloc(), of whole pages */
+void *pvalloc(size_t size) {
+  size_t pad = (DUMA_PAGE_SIZE - size % DUMA_PAGE_SIZE) % DUMA_PAGE_SIZE;
+
+  return _duma_valloc(size <= ~(size_t)0 - pad ? size + pad : size
+                      DUMA_PARAMS_UK);
+}
+
 size_t malloc_usable_size(void *ptr) {
   return _duma_malloc_usable_size(ptr DUMA_PARAMS_UK);
 }
-- 
2.43.0


From 972cd8d6c6abdb2335296a2e21c610e3085c2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 34/39] fix: leave errno alone when there is nothing to unmap

---
 duma_hlp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index 83d1f85..62091fb 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -46,7 +46,8 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       newSize = (char *)slot->userAddress - (char *)slot->internalAddress;
       newSize = (newSize + DUMA_PAGE_SIZE) & ~(DUMA_PAGE_SIZE - 1);
       delSize = slot->internalSize - newSize;
-      Page_Delete((char *)slot->internalAddress + newSize, delSize);
+      if (delSize) /* the system refuses size 0, which would change errno */
+        Page_Delete((char *)slot->internalAddress + newSize, delSize);
       alreadyReducekB += (delSize + 1023) >> 10;
       slot->state = DUMAST_BEGIN_PROTECTED;
       /* but keep the slot and userAddr */
-- 
2.43.0


From a2a866c120a798b6f16ca7e1aab46982aadb0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 35/39] fix: checking or releasing unused memory of the pool
 was not recognised as an error

duma_check() of the start of unused pool memory (e.g. a page behind a block's
guard page), or of the allocation table, returned silently, and free() reported
a mismatch with an internal allocator.
---
 duma_hlp.h | 3 ++-
 src/duma.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index 62091fb..08f5033 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -107,8 +107,9 @@ static struct _DUMA_Slot *slotForUserAddress(void *address) {
   struct _DUMA_Slot *slot = _duma_g.allocList;
   size_t count = _duma_s.slotCount;
 
+  /* unused memory of the pool was not handed out to the user */
   for (; count > 0; --count, ++slot)
-    if (slot->userAddress == address)
+    if (slot->userAddress == address && DUMAST_FREE != slot->state)
       return slot;
   return 0;
 }
diff --git a/src/duma.c b/src/duma.c
index 38d24b2..15ac55c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1986,7 +1986,8 @@ void duma_check(void *address) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(address))) {
+  if (!(slot = slotForUserAddress(address)) ||
+      EFA_INT_ALLOC == slot->allocator) {
     if ((slot = nearestSlotForUserAddress(address))) {
 #ifndef DUMA_NO_LEAKDETECTION
       if (DUMAFS_ALLOCATION == slot->fileSource)
-- 
2.43.0


From dc6de1b87b96de2e7bfaca196ef7b95c4c95ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 36/39] fix: realloc() of an address that is not allocated
 could be taken for the new block

The old address was looked up only after the new block was allocated. When the
new block got that very address (of unused or of given back memory), realloc()
copied it onto itself, released it and returned it.
---
 src/duma.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 15ac55c..c8d2e38 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2184,16 +2184,11 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
-    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
-                         0 /*=protectAllocList*/, EFA_REALLOC,
-                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
+    struct _DUMA_Slot *slot;
 
-    DUMA_ASSERT(oldBuffer);
-    if (ptr && _duma_g.null_addr == oldBuffer) {
-      /* shared address of all zero sized buffers: nothing to copy or free */
-      memset(ptr, 0, newSize);
-    } else if (ptr) {
-      struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
+    /* once memory was obtained, the new block may have the old address */
+    if (_duma_g.null_addr != oldBuffer) {
+      slot = slotForUserAddress(oldBuffer);
 
       if (slot == 0)
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
@@ -2217,6 +2212,18 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
           DUMA_Abort("realloc(%a, %d): memory already freed.",
                      (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
       }
+    }
+
+    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
+                         0 /*=protectAllocList*/, EFA_REALLOC,
+                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
+
+    DUMA_ASSERT(oldBuffer);
+    if (ptr && _duma_g.null_addr == oldBuffer) {
+      /* shared address of all zero sized buffers: nothing to copy or free */
+      memset(ptr, 0, newSize);
+    } else if (ptr) {
+      slot = slotForUserAddress(oldBuffer);
 
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
-- 
2.43.0


From c86f80098850822367be728acb2e7d48416e3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 37/39] fix: keep the binding test of malloc() and free() in
 optimized builds

---
 src/duma.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index c8d2e38..6e37664 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1013,7 +1013,12 @@ static
 #endif
     void
     duma_init(void) {
+#ifndef DUMA_NO_GLOBAL_MALLOC_FREE
+  /* volatile, for the calls not to be optimized away */
+  void *(*volatile testMalloc)(size_t) = malloc;
+  void (*volatile testFree)(void *) = free;
   void *testAlloc;
+#endif
   DUMA_TLSVARS_T *duma_tls;
 
   /* avoid double call, when initialization already in progress */
@@ -1074,12 +1079,12 @@ static
   /*
    * Check whether malloc and free is available
    */
-  testAlloc = malloc(123);
+  testAlloc = testMalloc(123);
   if (_duma_s.numAllocs == 0)
     DUMA_Abort("malloc() is not bound to DUMA.\nDUMA Aborting: Preload lib "
                "with 'LD_PRELOAD=libduma.so <prog>'.\n");
 
-  free(testAlloc);
+  testFree(testAlloc);
   if (_duma_s.numDeallocs == 0)
     DUMA_Abort("free() is not bound to DUMA.\nDUMA Aborting: Preload lib with "
                "'LD_PRELOAD=libduma.so <prog>'.\n");
-- 
2.43.0


From e9a0570c8226e01348c85effef9cd02509aa6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 38/39] fix: halt on failed assertions in optimized builds, too

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 6e37664..7ed42a8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -717,7 +717,7 @@ void
  * Print message and halt program execution in crazy way.
  */
 void _duma_assert(const char *exprstr, const char *filename, int lineno) {
-  int *pcAddr = 0;
+  volatile int *pcAddr = 0; /* volatile: these accesses must happen */
   DUMA_Print("\nDUMA: DUMA_ASSERT(%s) failed at\n%s(%i)\n", exprstr, filename,
              lineno);
 
-- 
2.43.0


From 55baa03e88a47b932b8ebb4b22ff7e40a2dff222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 39/39] fix: stop with the diagnostic when the system refuses
 the allocation table

There is no protected memory to reduce at initialisation; searching for it
went through the table itself, which is not there. Without protection of
freed memory the failure was not noticed at all.
---
 src/duma.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 7ed42a8..db38ab3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1166,20 +1166,10 @@ void
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
       size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+  /* there is no protected memory yet, which could be reduced */
+  if (0 == _duma_g.allocList)
+    slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
+        size, 1 /*=exitonfail*/, 1 /*= printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0

