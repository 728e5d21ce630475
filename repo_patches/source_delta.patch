From 01bf212a4080d058d93e6eb4b06ede6fe8841bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 001/112] fix: a recovered MIRIAD error no longer aborts every
 open dataset

bug_c/bugv_c called habort_c() before handing a fatal error to the installed
recovery handler, so one failed call (e.g. opening a missing file) closed and
deleted every other dataset that was open.
---
 aipy/_miriad/mir/bug.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..389ea4f 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,8 +113,10 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(bug_cleanup == NULL){   /* a recovering client keeps its open data-sets */
+      reentrant = !reentrant;
+      if(reentrant)habort_c();
+    }
 #ifdef vms
 # include ssdef
     lib$stop(SS$_ABORT);
@@ -167,8 +169,10 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(bug_cleanup == NULL){   /* a recovering client keeps its open data-sets */
+      reentrant = !reentrant;
+      if(reentrant)habort_c();
+    }
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-- 
2.43.0


From 7cac657d8cf14807ad067acb94f41f594d4c9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 002/112] fix: report I/O errors met when a header item is
 closed

hdaccess() ignored the status of the final flush, so a header item or history
that could not be written was lost silently.
---
 aipy/_miriad/miriad_wrap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..3ca5a3b 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -413,6 +413,7 @@ PyObject * WRAP_hdaccess(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "i", &item_hdl)) return NULL;
     try {
         hdaccess_c(item_hdl, &iostat);
+        CHK_IO(iostat);
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
-- 
2.43.0


From 0b333fce742bd7cb7979baaab29089604f56f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 003/112] fix: a failed block read or write no longer corrupts
 the item's buffer state

After a failed read the buffer was still marked as holding the block, so the
next read returned stale bytes; after a failed write the block was marked
clean, so a retry silently lost it.
---
 aipy/_miriad/mir/hio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..7686e1f 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -980,7 +980,8 @@ void hio_c(int ihandle,int dowrite,int type,char *buf,
 	  {hwrite_fill_c(item,iob1,next,iostat);	if(*iostat) return;}
         WAIT(item,iostat);				if(*iostat) return;
         dwrite_c(item->fd,iob1->buf,iob1->offset,iob1->length,iostat);
-        iob1->state = IO_ACTIVE;			if(*iostat) return;
+							if(*iostat) return;
+        iob1->state = IO_ACTIVE;
       }
       iob1->offset = (offset/BUFALIGN) * BUFALIGN;
       iob1->length = 0;
@@ -990,7 +991,8 @@ void hio_c(int ihandle,int dowrite,int type,char *buf,
 	if(iob2->buf != NULL && iob1->offset < iob2->offset)
 	  iob1->length = min(iob1->length, iob2->offset - iob1->offset);
 	dread_c(item->fd,iob1->buf,iob1->offset,iob1->length,iostat);
-	iob1->state = IO_ACTIVE;			if(*iostat) return;
+	iob1->state = IO_ACTIVE;
+	if(*iostat){ iob1->length = 0; return; }
       }
     }
 
-- 
2.43.0


From 46ea27af4a0029b25bbfe5dbd4d208ff38c17836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 004/112] fix: datasets with more than 127 variables no longer
 crash the reader

The variable index byte was read as a signed char, so indices above 127
pointed before the table; the table itself was not bounds checked on write.
---
 aipy/_miriad/mir/uvio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..34b854b 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1240,6 +1240,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables, adding %s, in UVPUTVR",name));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
@@ -1886,7 +1888,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From 267b2087aa2f7b6f7d9047a678bbc003d617a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 005/112] fix: a write handle keeps the current value of every
 variable

uvputvr stopped updating (and resizing) its copy of a variable once it had
changed on several calls in a row, and never updated it for coord, time and
baseline.  Reading such a variable back from the write handle gave a stale
value or ran past the buffer, and uvwrite left out a preamble value equal to
the stale copy, so piped records whose preamble the callback changed could
come out with the input's uvw, time or baseline.
---
 aipy/_miriad/mir/uvio.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 34b854b..4f5d6cb 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1735,7 +1735,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
+    if( v->buf != data )
       v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
@@ -1763,12 +1763,15 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
-      v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
+    if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
+
+/* Remember the value, even if it will not be checked again: this is what
+   uvgetvr returns, and what uvwrite compares a preamble with. */
+
+    if(v->buf != data){
       length = internal_size[type] * n;
       memcpy(v->buf,data,length);
-    } 
+    }
   } else {
     v->callno = 0;
   }
-- 
2.43.0


From a0ff0dd11517e4ec71a83a58cdc5a563ebae076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 006/112] fix: a variable or record write that fails part way
 can be retried

uvputvr and uvwrite advanced the stream offset, the variable's length and the
flag offset before the bytes were written.  After a failed write the next
records came out with a missing length, a misplaced value or another record's
flags.
---
 aipy/_miriad/mir/uvio.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 4f5d6cb..d80a273 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1711,6 +1711,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
   UV *uv;
   VARIABLE *v;
   int size,iostat,changed,length,i;
+  off64_t offset;
   char *in1,*in2;
 
   if(n <= 0){
@@ -1726,17 +1727,16 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
 /* If the size of this variable has changed, write it out to the file. */
 
   changed = (v->flags & UVF_NOCHECK);
+  offset = uv->offset;
   if(v->length != size*n){
     changed = TRUE;
-    v->length = size * n;
+    length = size * n;
     var_size_hdr[0] = v->index;
-    hwriteb_c(uv->item,var_size_hdr,uv->offset,UV_HDR_SIZE,&iostat);
+    hwriteb_c(uv->item,var_size_hdr,offset,UV_HDR_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length header for %s, in UVPUTVR",var));
-    hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
+    hwritei_c(uv->item,&length,offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
-    uv->offset += UV_ALIGN;
-    if( v->buf != data )
-      v->buf = Realloc(v->buf,n*internal_size[type]);
+    offset += UV_ALIGN;
   }
 
 /* Check if this variable has really changed.  */
@@ -1757,12 +1757,20 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
 
   if( changed ) {
     var_data_hdr[0] = v->index;
-    hwriteb_c(uv->item,var_data_hdr,uv->offset,UV_HDR_SIZE,&iostat);
+    hwriteb_c(uv->item,var_data_hdr,offset,UV_HDR_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-value header for %s, in UVPUTVR",var));
-    uv->offset += mroundup(UV_HDR_SIZE,size);
-    hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
+    offset += mroundup(UV_HDR_SIZE,size);
+    hwrite_c(uv->item,type,data,offset,size*n,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
-    uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
+
+/* It is all written: only now move on, so that a failed call can be retried. */
+
+    uv->offset = mroundup( offset+size*n, UV_ALIGN);
+    if(v->length != size*n){
+      v->length = size * n;
+      if( v->buf != data )
+        v->buf = Realloc(v->buf,n*internal_size[type]);
+    }
     if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
 
 /* Remember the value, even if it will not be checked again: this is what
@@ -2076,7 +2084,6 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     mkwrite_c(flags_info->handle,MK_RUNS,(int *)(flags+1),flags_info->offset,n,*flags);
   else
     mkwrite_c(flags_info->handle,MK_FLAGS,(int *)flags,flags_info->offset,n,n);
-  flags_info->offset += n;
 
 /* Write out the correlation data. */
 
@@ -2136,6 +2143,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 /* Write an end-of-record marker. */
 
   uvnext_c(tno);
+  flags_info->offset += n;
 }
 /************************************************************************/
 void uvwwrite_c(int tno,Const float *data,Const int *flags,int n)
-- 
2.43.0


From 8c0e77cb2cc0d031756203cd104855a66557a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 007/112] fix: the first record of a session always stores its
 uvw, time and baseline

Whether they had been written yet was inferred from placeholder values taken
from the wrong elements of a 5 element preamble, so a first record whose time
equalled w+1000 or whose baseline equalled time+1000 came out without it.
---
 aipy/_miriad/mir/uvio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d80a273..aef3964 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2116,7 +2116,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
   d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( *d != *preamble || *(d+1) != *(preamble+1) || 
+  if( uv->coord->length == 0 || *d != *preamble || *(d+1) != *(preamble+1) || 
       ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
     uvputvrd_c(tno,"coord",preamble,nuvw);
     *d = *preamble;
@@ -2126,13 +2126,13 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   preamble += nuvw;
 
   dtemp = *preamble++;
-  if( dtemp != *(double *)(uv->time->buf) ){
+  if( uv->time->length == 0 || dtemp != *(double *)(uv->time->buf) ){
     uvputvrd_c(tno,"time",&dtemp,1);
     *(double *)(uv->time->buf) = dtemp;
   }
 
   temp = *preamble++;
-  if( temp != *(float *)(uv->bl->buf) ){
+  if( uv->bl->length == 0 || temp != *(float *)(uv->bl->buf) ){
     itemp = temp;
     uvbasant_c(itemp,&i1,&i2);
     uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
-- 
2.43.0


From c6ab0f32bdd7c28674b5845672e40ecfd07bd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 008/112] fix: a failure to read the flags is an error, not
 unflagged data

When the flags item existed but could not be opened (EIO, EMFILE, ...) the
reader carried on as if every channel were good; when reading a block of it
failed, the next read took its flags from the unread buffer.
---
 aipy/_miriad/mir/maskio.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 91342b3..8490c17 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -24,6 +24,7 @@
 #define CHECK(x) if(x) bugno_c('f',x)
 #define private static
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -97,7 +98,9 @@ char *mkopen_c(int tno,char *name,char *status)
 
   if(!strcmp("old",status)) {
     haccess_c(tno,&(mask->item),name,"read",&iostat);
-    if(iostat) { free((char *)mask); return(NULL); }
+    if(iostat) free((char *)mask);
+    if(iostat == ENOENT || iostat == -1) return(NULL);
+    CHECK(iostat);
     mask->size = hsize_c(mask->item);
     if(mask->size <= H_INT_SIZE * (OFFSET/BITS_PER_INT))
       ERROR('f',(message,"Mask file %s appears bad",name));
@@ -178,7 +181,9 @@ int mkread_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
       hreadi_c(mask->item,mask->buf,
 		(mask->offset/BITS_PER_INT)*H_INT_SIZE,
 		(mask->length/BITS_PER_INT)*H_INT_SIZE,
-					&iostat);	CHECK(iostat);
+					&iostat);
+      if(iostat) mask->length = 0;
+      CHECK(iostat);
     }
 
 /* Copy the flags to the output buffer. Use special sections of code
-- 
2.43.0


From a46988175b0059ca26a1d31a1962071999450966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 009/112] fix: failing to reopen the flags for appending leaves
 the handle usable

The mask kept the handle of an item that had been released, so closing the
dataset or retrying the write crashed.
---
 aipy/_miriad/mir/maskio.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 8490c17..fffca1a 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -145,8 +145,9 @@ void mkclose_c(char *handle)
 
   mask = (MASK_INFO *)handle;
   if(mask->modified) mkflush_c(handle);
-  hdaccess_c(mask->item,&iostat);				CHECK(iostat);
-  free((char *)mask);
+  iostat = 0;
+  if(mask->item >= 0) hdaccess_c(mask->item,&iostat);
+  free((char *)mask);						CHECK(iostat);
 }
 /************************************************************************/
 int mkread_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
@@ -258,9 +259,11 @@ void mkwrite_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
 /* If the mask is currently read-only, close it and reopen it as read/write. */
 
   if(mask->rdonly){
-    hdaccess_c(mask->item,&iostat);
+    if(mask->item >= 0) hdaccess_c(mask->item,&iostat);
+    mask->item = -1;
     haccess_c(mask->tno,&(mask->item),mask->name,"append",&iostat);
     if(iostat){
+      mask->item = -1;
       bug_c('w',"Error opening mask/flagging file in read/write mode\n");
       bugno_c('f',iostat);
     }
-- 
2.43.0


From d4b3f2367ef14d0345beb6467c7eee0a09cb0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 010/112] fix: hitting the limit on open datasets or items is
 not permanent

The open count was raised even when the open was refused, so each refused open
lowered the limit for the rest of the process.
---
 aipy/_miriad/mir/hio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 7686e1f..5bd3760 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1449,9 +1449,9 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
 /* Hash the name. */
 
   s = name;
-  hash = nitem++;
-  if(nitem > MAXITEM)
+  if(nitem >= MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
+  hash = nitem++;
   while(*s) hash += *s++;
   hash %= MAXITEM;
 
@@ -1496,9 +1496,9 @@ private TREE *hcreate_tree_c(char *name)
 /* Hash the name. */
 
   s = name;
-  hash = ntree++;
-  if(ntree > MAXOPEN)
+  if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
+  hash = ntree++;
   while(*s) hash += *s++;
   hash %= MAXOPEN;
 
-- 
2.43.0


From e8b0c4d48d148859d3b9d7f0acf6375965a8f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 011/112] fix: failing to open or close a dataset neither kills
 the process nor leaks

An error while a UV object was deallocated escaped the destructor and ended the
interpreter, and a rejected argument to UV() closed dataset 0, which crashed.
A dataset that could not be opened or closed kept its handle and files for the
rest of the process.  Errors on close are now reported through
sys.unraisablehook and everything held is released.
---
 aipy/_miriad/mir/hio.c       | 30 +++++++++++++++++++++++++++++-
 aipy/_miriad/mir/miriad.h    |  2 ++
 aipy/_miriad/mir/uvio.c      | 35 ++++++++++++++++++++++++++++++++---
 aipy/_miriad/miriad_wrap.cpp | 17 +++++++++++++++--
 4 files changed, 78 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 5bd3760..978cac7 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -187,6 +187,7 @@ void hopen_c(int *tno,Const char *name,Const char *status,int *iostat)
   dtrans_c((char *)name,path,iostat);
   if(*iostat)return;
   t = hcreate_tree_c(path);
+  *tno = t->handle;
 
 /* Either open an old cache, or create a new cache. */
 
@@ -203,7 +204,6 @@ void hopen_c(int *tno,Const char *name,Const char *status,int *iostat)
 /* Tidy up before we return. Make sure things are tidy if an error
    occurred during the operation. */
 
-  *tno = t->handle;
   if(*iostat) hclose_c(*tno);
 
 }
@@ -477,6 +477,34 @@ void hclose_c(int tno)
   ntree--;
 }
 /************************************************************************/
+void hdiscard_c(int tno)
+/**hdiscard -- Let go of a Miriad data set without writing anything.	*/
+/*&pjt									*/
+/*:low-level-i/o							*/
+/*+
+  This releases the handle, the items and the files of a data set that could
+  not be opened or closed properly. Nothing is flushed or deleted.
+
+  Input:
+    tno		The handle of the Miriad data set.			*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  TREE *t;
+  int iostat;
+
+  if(first || tno <= 0 || tno >= MAXOPEN) return;
+  if((t = hget_tree(tno)) == NULL) return;
+  while(t->itemlist != NULL){
+    if(t->itemlist->fd != 0) dclose_c(t->itemlist->fd,&iostat);
+    hrelease_item_c(t->itemlist);
+  }
+  tree_addr[tno] = NULL;
+  free(t->name);
+  free((char *)t);
+  ntree--;
+}
+/************************************************************************/
 void hdelete_c(int tno,Const char *keyword,int *iostat)
 /**hdelete -- Delete an item from a data-set.				*/
 /*&pjt									*/
diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..893cb06 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -114,6 +114,7 @@ void hflush_c(int tno, int *iostat);
 void habort_c(void);
 void hrm_c(int tno);
 void hclose_c(int tno);
+void hdiscard_c(int tno);
 void hdelete_c(int tno, Const char *keyword, int *iostat);
 void haccess_c(int tno, int *ihandle, Const char *keyword, Const char *status, int *iostat);
 void hmode_c(int tno, char *mode);
@@ -203,6 +204,7 @@ void dreaddir_c  (char *contxt, char *path, int length);
 
 void uvopen_c   (int *tno, Const char *name, Const char *status);
 void uvclose_c  (int tno);
+void uvdiscard_c(int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index aef3964..d3f4833 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -850,14 +850,18 @@ void uvclose_c(int tno)
 {
   UV *uv;
   int iostat;
+  char *handle;
 
   uv = uvs[tno];
 
 /* Finished with the flagging information. */
 
-  if(uv->corr_flags.handle != NULL) mkclose_c(uv->corr_flags.handle);
-  if(uv->wcorr_flags.handle != NULL) mkclose_c(uv->wcorr_flags.handle);
-  uv->corr_flags.handle = uv->wcorr_flags.handle = NULL;
+  handle = uv->corr_flags.handle;
+  uv->corr_flags.handle = NULL;
+  if(handle != NULL) mkclose_c(handle);
+  handle = uv->wcorr_flags.handle;
+  uv->wcorr_flags.handle = NULL;
+  if(handle != NULL) mkclose_c(handle);
 
 /* Flush out all stuff appropriate for a new or append file. */
 
@@ -873,6 +877,31 @@ void uvclose_c(int tno)
   hclose_c(tno);
 }
 /************************************************************************/
+void uvdiscard_c(int tno)
+/**uvdiscard -- Let go of a uv file without writing anything.		*/
+/*&rjs                                                                  */
+/*:uv-i/o								*/
+/*+
+  This releases everything held for a uv data file that could not be opened
+  or closed properly. Nothing is flushed.
+  Input:
+    tno		Handle of the uv data set.				*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  UV *uv;
+
+  if(tno < 0 || tno >= MAXOPEN) return;
+  uv = uvs[tno];
+  if(uv != NULL){
+    if(uv->corr_flags.handle != NULL) free(uv->corr_flags.handle);
+    if(uv->wcorr_flags.handle != NULL) free(uv->wcorr_flags.handle);
+    uv_freeuv(uv);
+    uvs[tno] = NULL;
+  }
+  hdiscard_c(tno);
+}
+/************************************************************************/
 void uvflush_c(int tno)
 /**uvflush -- Flush buffers of a uv dataset to disk.			*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 3ca5a3b..6bc5eac 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -25,7 +25,19 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        // The error being handled, if any, must survive the clean-up
+        PyObject *etype, *evalue, *etb;
+        PyErr_Fetch(&etype, &evalue, &etb);
+        try {
+            uvclose_c(self->tno);
+        } catch (MiriadError &e) {
+            uvdiscard_c(self->tno);
+            PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+            PyErr_WriteUnraisable((PyObject *)Py_TYPE(self));
+        }
+        PyErr_Restore(etype, evalue, etb);
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -34,6 +46,7 @@ static PyObject *UVObject_new(PyTypeObject *type,
         PyObject *args, PyObject *kwds) {
     UVObject *self;
     self = (UVObject *) type->tp_alloc(type, 0);
+    if (self != NULL) self->tno = -1;
     return (PyObject *) self;
 }
 
@@ -66,6 +79,7 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
         uvset_c(self->tno,"preamble","uvw/time/baseline",0,0.,0.,0.);
         uvset_c(self->tno,"corr",corrmode,0,0.,0.,0.);
     } catch (MiriadError &e) {
+        uvdiscard_c(self->tno);
         self->tno = -1;
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return -1;
@@ -717,7 +731,6 @@ MOD_INIT(_miriad) {
 
     Py_Initialize();
 
-    UVType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&UVType) < 0)
         return MOD_ERROR_VAL;
 
-- 
2.43.0


From f1aa109a0c675fd0417729e8701e672c97d6c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 012/112] fix: closing a dataset with an item still open no
 longer uses freed memory

---
 aipy/_miriad/mir/hio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 978cac7..07568f3 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -452,7 +452,8 @@ void hclose_c(int tno)
 /* Close any open items. */
 
   t = hget_tree(tno);
-  for(item=t->itemlist; item != NULL; item = item->fwd){
+  for(item=t->itemlist; item != NULL; item = it1){
+    it1 = item->fwd;
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
       hdaccess_c(item->handle,&iostat);			check(iostat);
-- 
2.43.0


From 01ba847e7d6afb51806bac66d23170dfd3ad535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 013/112] fix: text items and variables survive non-ASCII
 characters

Strings were taken from a freed buffer, cut to their length in characters
instead of bytes, and read back one undecodable byte at a time; a character
read from an item was not terminated.
---
 aipy/_common/aipy_compat.h   | 21 ++++++---------------
 aipy/_miriad/miriad_wrap.cpp |  3 +++
 aipy/miriad.py               |  8 ++++----
 3 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..03d667b 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,15 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
+# define PyString_AsString(ob) ((char *) PyUnicode_AsUTF8(ob))
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
-static char *
-PyString_AsString(PyObject *ob)
+/* The size in bytes of what PyString_AsString returns. */
+static Py_ssize_t
+PyString_Size(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
-
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+    Py_ssize_t size;
+    return PyUnicode_AsUTF8AndSize(ob, &size) == NULL ? -1 : size;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 6bc5eac..e1bc8e2 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -347,6 +347,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -523,6 +524,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
@@ -596,6 +598,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
+                st[H_BYTE_SIZE] = 0;
 #if PY_MAJOR_VERSION >= 3
                 return Py_BuildValue("yi", st, H_BYTE_SIZE);
 #else
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..9919437 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,12 +119,12 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
+                if itype == 'a': c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                rv = b''.join(rv)
+                if str is not bytes: rv = rv.decode('utf-8')
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-- 
2.43.0


From b00802aed43c958e7d58f15a42016eed458bda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 014/112] fix: string variables are read back as they were
 written

---
 aipy/_miriad/miriad_wrap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index e1bc8e2..621f2a1 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -275,7 +275,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
-    if (length * elem_size > MAXVAR) {
+    // uvgetvr_c adds a NUL of its own to a string
+    if (length * elem_size > MAXVAR - (type[0] == 'a')) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
                      "internal buffers", name);
         return NULL;
@@ -286,6 +287,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         switch (type[0]) {
             case 'a':
                 uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
+                // Strings are stored with the NUL that wrvr puts after them
+                if (length > 0 && value[length-1] == 0) length--;
                 return PyString_FromStringAndSize(value, length);
             case 'j':
                 uvgetvr_c(self->tno,H_INT2,name,value,length);
-- 
2.43.0


From 7a0a5c94b52912605b6b09b80c192672de8624c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 015/112] fix: integer, complex and strided variables are
 stored as they were given

---
 aipy/_miriad/miriad_wrap.cpp | 106 +++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 29 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 621f2a1..f4bf214 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -1,6 +1,8 @@
 #include <Python.h>
 #include "numpy/arrayobject.h"
+#include <climits>
 #include <string>
+#include <vector>
 #include "aipy_compat.h"
 #include "miriad_wrap.h"
 
@@ -255,8 +257,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     case 'a':
         elem_size = 1;
         break;
-    case 'j':
-        elem_size = 2;
+    case 'j': // MIRIAD holds 16-bit integers as ints
+        elem_size = sizeof(int);
         break;
     case 'i':
         elem_size = 4;
@@ -291,14 +293,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 if (length > 0 && value[length-1] == 0) length--;
                 return PyString_FromStringAndSize(value, length);
             case 'j':
-                uvgetvr_c(self->tno,H_INT2,name,value,length);
-                if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
-                rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
-                CHK_NULL(rv);
-                for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
-                return PyArray_Return(rv);
+                RET_IA(H_INT2,PyInt_FromLong,long,int,NPY_INT);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
             case 'r':
@@ -308,12 +303,15 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'c':
                 if (length == 1) {
                     uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 }
+                // MIRIAD holds complex numbers as pairs of floats
+                uvgetvr_c(self->tno,H_CMPLX,name,value,length);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
                 CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
+                for (int i=0; i < 2*length; i++)
+                    ((double *)PyArray_DATA(rv))[i] = ((float *)value)[i];
                 return PyArray_Return(rv);
             default:
                 return NULL; /* can't happen with previous switch */
@@ -324,13 +322,55 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
+// Return a new reference to val as a native, contiguous vector, or NULL
+static PyArrayObject *as_vector(PyObject *val, int npy_type) {
+    return (PyArrayObject *) PyArray_FROMANY(val, npy_type, 1, 1,
+        NPY_ARRAY_CARRAY_RO);
+}
+
+// Check that an integer fits the type it will be stored as
+static int chk_range(long val, long min, long max) {
+    if (val == -1 && PyErr_Occurred()) return -1;
+    if (val < min || val > max) {
+        PyErr_Format(PyExc_ValueError, "%ld does not fit the variable", val);
+        return -1;
+    }
+    return 0;
+}
+
+// MIRIAD takes integers of both sizes as ints
+#define STORE_INT(htype,min,max) \
+    if (PyArray_Check(wr_val)) { \
+        wr_arr = as_vector(wr_val,NPY_LONG); \
+        if (wr_arr == NULL) return NULL; \
+        for (int i=0; i < DIM(wr_arr,0); i++) { \
+            if (chk_range(IND1(wr_arr,i,long),min,max) != 0) { \
+                Py_DECREF(wr_arr); \
+                return NULL; } } \
+        buf.resize(DIM(wr_arr,0) * sizeof(int)); \
+        for (int i=0; i < DIM(wr_arr,0); i++) \
+            ((int *)buf.data())[i] = (int) IND1(wr_arr,i,long); \
+        Py_DECREF(wr_arr); \
+        uvputvr_c(self->tno,htype,name,buf.data(),buf.size()/sizeof(int)); \
+    } else { \
+        CHK_INT(wr_val); \
+        long lval = PyInt_AsLong(wr_val); \
+        if (chk_range(lval,min,max) != 0) return NULL; \
+        ((int *)value)[0] = (int) lval; \
+        uvputvr_c(self->tno,htype,name,value,1); }
+
+#define STORE_FLT(npy_type,htype,type) \
     if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        CHK_ARRAY_TYPE((PyArrayObject *)wr_val,npy_type); \
+        wr_arr = as_vector(wr_val,npy_type); \
+        if (wr_arr == NULL) return NULL; \
+        buf.assign((char *)PyArray_DATA(wr_arr), \
+            (char *)PyArray_DATA(wr_arr) + DIM(wr_arr,0) * sizeof(type)); \
+        Py_DECREF(wr_arr); \
+        uvputvr_c(self->tno,htype,name,buf.data(),buf.size()/sizeof(type)); \
     } else { \
-        chk_type(wr_val); \
-        ((type *)value)[0] = (type) pyconverter(wr_val); \
+        CHK_FLOAT(wr_val); \
+        ((type *)value)[0] = (type) PyFloat_AsDouble(wr_val); \
         uvputvr_c(self->tno,htype,name,value,1); }
 
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
@@ -340,10 +380,10 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *st;
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
+    std::vector<char> buf;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
     if (PyArray_Check(wr_val)) {
-        wr_arr = (PyArrayObject *) wr_val;
-        CHK_ARRAY_RANK(wr_arr,1);
+        CHK_ARRAY_RANK((PyArrayObject *)wr_val,1);
     }
     try {
         switch (type[0]) {
@@ -354,26 +394,34 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_INT(H_INT2,SHRT_MIN,SHRT_MAX);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_INT(H_INT,INT_MIN,INT_MAX);
                 break;
             case 'r':
-                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
+                STORE_FLT(NPY_FLOAT,H_REAL,float);
                 break;
             case 'd':
-                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
+                STORE_FLT(NPY_DOUBLE,H_DBLE,double);
                 break;
             case 'c':
+                // MIRIAD takes complex numbers as pairs of floats
                 if (PyArray_Check(wr_val)) {
-                    CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    CHK_ARRAY_TYPE((PyArrayObject *)wr_val,NPY_CDOUBLE);
+                    wr_arr = as_vector(wr_val,NPY_CDOUBLE);
+                    if (wr_arr == NULL) return NULL;
+                    buf.resize(DIM(wr_arr,0) * 2 * sizeof(float));
+                    for (int i=0; i < 2*DIM(wr_arr,0); i++)
+                        ((float *)buf.data())[i] =
+                            (float) ((double *)PyArray_DATA(wr_arr))[i];
+                    Py_DECREF(wr_arr);
+                    uvputvr_c(self->tno,H_CMPLX,name,buf.data(),
+                        buf.size()/(2*sizeof(float)));
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
-- 
2.43.0


From dbe51d09b74fc239b54d45df436331cd80133c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 016/112] fix: raw_write stores flags and strided arrays as
 they were given

---
 aipy/_miriad/miriad_wrap.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index f4bf214..b256140 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -106,6 +106,12 @@ PyObject * UVObject_rewind(UVObject *self) {
     return Py_None;
 }
 
+// Return a new reference to val as a native, contiguous vector, or NULL
+static PyArrayObject *as_vector(PyObject *val, int npy_type) {
+    return (PyArrayObject *) PyArray_FROMANY(val, npy_type, 1, 1,
+        NPY_ARRAY_CARRAY_RO);
+}
+
 /* Wrapper over uvread_c to deal with numpy arrays, conversion of baseline
  * and polarization codes, and returning a tuple of all results.
  */
@@ -176,10 +182,12 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     }
     CHK_ARRAY_TYPE(uvw, NPY_DOUBLE);
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
-    // Check for both int,long, b/c label of 32b number is platform dependent
-    if (TYPE(flags) != NPY_INT && \
-            (sizeof(int) == sizeof(long) && TYPE(flags) != NPY_LONG)) {
-        PyErr_Format(PyExc_ValueError, "type(flags) != NPY_LONG or NPY_INT");
+    // MIRIAD takes plain C arrays; from here on we own references
+    uvw = as_vector((PyObject *)uvw, NPY_DOUBLE);
+    data = as_vector((PyObject *)data, NPY_CFLOAT);
+    flags = as_vector((PyObject *)flags, NPY_INT);
+    if (uvw == NULL || data == NULL || flags == NULL) {
+        Py_XDECREF(uvw); Py_XDECREF(data); Py_XDECREF(flags);
         return NULL;
     }
     // Fill up the preamble
@@ -194,8 +202,9 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
             (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), DIM(data,0));
     } catch (MiriadError &e) {
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
-        return NULL;
     }
+    Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
+    if (PyErr_Occurred()) return NULL;
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -322,12 +331,6 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-// Return a new reference to val as a native, contiguous vector, or NULL
-static PyArrayObject *as_vector(PyObject *val, int npy_type) {
-    return (PyArrayObject *) PyArray_FROMANY(val, npy_type, 1, 1,
-        NPY_ARRAY_CARRAY_RO);
-}
-
 // Check that an integer fits the type it will be stored as
 static int chk_range(long val, long min, long max) {
     if (val == -1 && PyErr_Occurred()) return -1;
-- 
2.43.0


From 1ba875862d511a68b5e3a1507bc50de3aa7e50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 017/112] fix: a record shorter than the first one is read at
 its own length

---
 aipy/miriad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 9919437..54f868e 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -220,7 +220,8 @@ class UV(_miriad.UV):
         'raw' causes data and flags to be returned seperately."""
         preamble, data, flags, nread = self.raw_read(self.nchan)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        # The buffers are as big as the first record, which may not be this one
+        data, flags = data[:nread], np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
-- 
2.43.0


From e8484af262e2cf6e316a55a223e02d7ee767b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 018/112] fix: data without a mask can be written

---
 aipy/miriad.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 54f868e..f8830e9 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -237,13 +237,10 @@ class UV(_miriad.UV):
         u,v,w, t is the Julian date, and (i,j) is an antenna pair."""
         if data is None: return
         if not flags is None: flags = np.logical_not(flags)
-        elif len(data.mask.shape) == 0:
-            flags = np.ones(data.shape)
-            data = data.unmask()
         else:
-            flags = np.logical_not(data.mask)
+            flags = np.logical_not(np.ma.getmaskarray(data))
             #data = data.filled(0)
-            data = data.data
+            data = np.ma.getdata(data)
         self.raw_write(preamble,data.astype(np.complex64),flags.astype(np.int32))
     def init_from_uv(self, uv, override={}, exclude=[]):
         """Initialize header items and variables from another UV.  Those in
-- 
2.43.0


From a2ddb65c6c34e42c915f7d82ae34dfeb621d5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 019/112] fix: read_files accepts the name of a single file

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index f8830e9..a8d5cbb 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -323,7 +323,7 @@ def read_files(filenames, antstr, polstr, decimate=1, decphs=0, verbose=False, r
     from . import scripting, cal
     info = {'lsts':[], 'times':[]}
     data, flgs = {}, {}
-    if type(filenames) == 'str': filenames = [filenames]
+    if isinstance(filenames, str): filenames = [filenames]
     for filename in filenames:
         if verbose: print('   Reading', filename)
         uv = UV(filename)
-- 
2.43.0


From 75e659ec76e3108b201d23d1a0faefb4c83c417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 020/112] fix: rewriting an item keeps its old value until the
 new one is complete

---
 aipy/_miriad/mir/hio.c | 53 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 07568f3..3ec9ede 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -68,6 +68,7 @@
 #define ACCESS_MODE (ITEM_READ|ITEM_WRITE|ITEM_SCRATCH|ITEM_APPEND)
 #define ITEM_CACHE    0x10
 #define ITEM_NOCACHE  0x20
+#define ITEM_REPLACE  0x40
 
 #define TREE_CACHEMOD 0x1
 #define TREE_NEW      0x2
@@ -141,6 +142,8 @@ static void hcache_create_c(TREE *t, int *iostat);
 static void hcache_read_c(TREE *t, int *iostat);
 static int hname_check(char *name);
 static void hdir_c(ITEM *item);
+static void hopenfile_c(ITEM *item, char *status, int *iostat);
+static void hreplace_c(ITEM *item, int *iostat);
 static void hrelease_item_c(ITEM *item);
 static ITEM *hcreate_item_c(TREE *tree, char *name);
 static TREE *hcreate_tree_c(char *name);
@@ -498,6 +501,8 @@ void hdiscard_c(int tno)
   if((t = hget_tree(tno)) == NULL) return;
   while(t->itemlist != NULL){
     if(t->itemlist->fd != 0) dclose_c(t->itemlist->fd,&iostat);
+    iostat = -1;
+    if(t->itemlist->flags & ITEM_REPLACE) hreplace_c(t->itemlist,&iostat);
     hrelease_item_c(t->itemlist);
   }
   tree_addr[tno] = NULL;
@@ -596,7 +601,6 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
 /*--									*/
 /*----------------------------------------------------------------------*/
 {
-  char path[MAXPATH];
   ITEM *item;
   TREE *t;
   int mode=0;
@@ -656,9 +660,7 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
     hdir_c(item);
   } else if(item->size == 0 && (!(mode & ITEM_WRITE) || (mode & ITEM_NOCACHE))
     			    && !(item->flags & ITEM_CACHE)){
-    Strcpy(path,t->name);
-    Strcat(path,keyword);
-    dopen_c(&(item->fd),path,(char *)status,&(item->size),iostat);
+    hopenfile_c(item,(char *)status,iostat);
 
     item->bsize = BUFSIZE;
     item->io[0].buf = Malloc(BUFSIZE);
@@ -832,6 +834,7 @@ void hdaccess_c(int ihandle,int *iostat)
     if(stat) *iostat = stat;
     dclose_c(item->fd,&stat);
     if(stat) *iostat = stat;
+    if(item->flags & ITEM_REPLACE) hreplace_c(item,iostat);
     hrelease_item_c(item);
 
   } else if(item->flags & ITEM_NOCACHE){
@@ -1163,7 +1166,7 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
   if needed.
 ------------------------------------------------------------------------*/
 {
-  char *s,path[MAXPATH];
+  char *s;
   TREE *t;
 
   *iostat = 0;
@@ -1193,15 +1196,49 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
     t = item->tree;
     if(item->flags & ITEM_CACHE) t->flags |= TREE_CACHEMOD;
     item->flags &= ~ITEM_CACHE;
-    Strcpy(path,t->name);
-    Strcat(path,item->name);
-    dopen_c(&(item->fd),path,"write",&(item->size),iostat);
+    hopenfile_c(item,"write",iostat);
     if(*iostat == 0) t->rdwr = RDWR_RDWR;
     else	     t->rdwr = RDWR_RDONLY;
     t->wriostat = *iostat;
   }
 }
 /************************************************************************/
+private void hopenfile_c(ITEM *item,char *status,int *iostat)
+/*
+  Open the file of an item. The new contents of an item that is already on
+  disk go to a file of their own, which takes over when the item is closed.
+  Until then the old contents stay intact.
+------------------------------------------------------------------------*/
+{
+  char path[MAXPATH];
+
+  Strcpy(path,item->tree->name);
+  Strcat(path,item->name);
+  if(item->tree->handle != 0 && !strcmp(status,"write") && !access(path,F_OK)){
+    Strcat(path,"~");
+    item->flags |= ITEM_REPLACE;
+  }
+  dopen_c(&(item->fd),path,status,&(item->size),iostat);
+  if(*iostat) item->flags &= ~ITEM_REPLACE;
+}
+/************************************************************************/
+private void hreplace_c(ITEM *item,int *iostat)
+/*
+  The new contents of an item are complete, if iostat is 0. Make them take
+  over from the old contents, or otherwise delete them.
+------------------------------------------------------------------------*/
+{
+  char path[MAXPATH],newpath[MAXPATH];
+
+  Strcpy(path,item->tree->name);
+  Strcat(path,item->name);
+  Strcpy(newpath,path);
+  Strcat(newpath,"~");
+  item->flags &= ~ITEM_REPLACE;
+  if(*iostat == 0 && rename(newpath,path) != 0) *iostat = errno;
+  if(*iostat != 0) (void)unlink(newpath);
+}
+/************************************************************************/
 private void hwrite_fill_c(ITEM *item,IOB *iob,int next,int *iostat)
 /*
   A nonaligned nonsequential write operation has been requested. Read in the
-- 
2.43.0


From b080cbddefa389e4d60620e05a54de68a372860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 021/112] fix: a data set opened with descriptor 0 free is not
 damaged

---
 aipy/_miriad/mir/dio.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 4adad9d..b517222 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -177,7 +177,20 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
   flags |= O_LARGEFILE;
 #endif
   if((*fd = open(s,flags,0644)) < 0){*iostat = errno; return;}
-  *size = Lseek(*fd,0,SEEK_END);
+
+/* Descriptor 0 stands for "no file" in the hio routines. */
+
+  if(*fd == 0){
+    *fd = fcntl(0,F_DUPFD,3);
+    if(*fd < 0) *iostat = errno;
+    (void)close(0);
+    if(*iostat) return;
+  }
+  if((*size = Lseek(*fd,0,SEEK_END)) < 0){
+    *iostat = errno;
+    (void)close(*fd);
+    return;
+  }
 
 /* If its a scratch file, unlink it now, so that the file will disappear
    when it is closed (or this program crashes). */
-- 
2.43.0


From a8cec598776d17caf2a1237f833819f8701f5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 022/112] fix: a read that cannot be set up can be attempted
 again

---
 aipy/_miriad/mir/uvio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d3f4833..ac1ea67 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3754,7 +3754,6 @@ private void uvread_init(int tno)
   int n_win,n_or;
 
   uv = uvs[tno];
-  uv->flags |= UVF_INIT;
 
 /* Open the flagging file, if it is needed. */
 
@@ -3979,6 +3978,9 @@ private void uvread_init(int tno)
 
   if(uv->select != NULL) uv->maxvis = uvread_maxvis(uv->select);
 
+/* Everything is there: do not do this again. */
+
+  uv->flags |= UVF_INIT;
 }
 /************************************************************************/
 private int uvread_maxvis(SELECT *sel)
-- 
2.43.0


From 0ce1fbc61239923ec430dc986b5132162d247481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 023/112] fix: a failed first write no longer crashes the next
 one

---
 aipy/_miriad/mir/maskio.c | 16 +++++++++++-----
 aipy/_miriad/mir/uvio.c   |  5 ++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index fffca1a..65020b2 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -88,7 +88,7 @@ char *mkopen_c(int tno,char *name,char *status)
 ------------------------------------------------------------------------*/
 {
   MASK_INFO *mask;
-  int iostat;
+  int iostat,t;
   char s[ITEM_HDR_SIZE];
 
   mask = (MASK_INFO *)malloc((unsigned int)sizeof(MASK_INFO));
@@ -102,11 +102,17 @@ char *mkopen_c(int tno,char *name,char *status)
     if(iostat == ENOENT || iostat == -1) return(NULL);
     CHECK(iostat);
     mask->size = hsize_c(mask->item);
-    if(mask->size <= H_INT_SIZE * (OFFSET/BITS_PER_INT))
+    hreadb_c(mask->item,s,0,ITEM_HDR_SIZE,&iostat);
+
+/* Let go of the item if it is no good, so that it can be tried again. */
+
+    if(iostat || memcmp(s,int_item,ITEM_HDR_SIZE) ||
+       mask->size <= H_INT_SIZE * (OFFSET/BITS_PER_INT)){
+      hdaccess_c(mask->item,&t);
+      free((char *)mask);
+      CHECK(iostat > 0 ? iostat : 0);
       ERROR('f',(message,"Mask file %s appears bad",name));
-    hreadb_c(mask->item,s,0,ITEM_HDR_SIZE,&iostat);		CHECK(iostat);
-    if(memcmp(s,int_item,ITEM_HDR_SIZE)) 
-      ERROR('f',(message,"Mask file %s is not integer valued",name));
+    }
     mask->rdonly   = TRUE;
 
 /* The case of a new masl file. Create it and make it look nice. */
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index ac1ea67..17818d9 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2033,7 +2033,6 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 /* Initialise things if this is the first call to uvwrite. */
 
   if(!(uv->flags & UVF_INIT)){
-    uv->flags |= UVF_INIT;
     if( uv->data_line.linetype == LINE_NONE)
       uv->data_line.linetype = LINE_CHANNEL;
     if( uv->data_line.linetype == LINE_CHANNEL){
@@ -2088,6 +2087,10 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
       }
     }
+
+/* Everything is there: do not do this again. */
+
+    uv->flags |= UVF_INIT;
   }
 
 /* Get info on whether we are dealing with corr or wcorr data. */
-- 
2.43.0


From 4a2a779951824c61c53d3bb3ddac7140fbd1eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 024/112] fix: a failure to read a header item is not taken for
 its end

---
 aipy/_miriad/miriad_wrap.h |  8 +++++++-
 aipy/miriad.py             | 12 +++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index bd2fc1d..fe77d3c 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -1,6 +1,7 @@
 #ifndef _MIRIAD_WRAP_H_
 #define _MIRIAD_WRAP_H_
 
+#include <errno.h>
 #include "miriad.h"
 #include "hio.h"
 #include "io.h"
@@ -14,8 +15,13 @@
 #define GETJ(bl) ( (int) (bl) > 65536 ? (((int) bl-65536)%2048 - 1 ) : (((int) bl & 255) - 1) )
 #define MKBL(i,j) ( i+1 < 256 && j+1 < 256 ? ((float) (((i+1)<<8) | (j+1))) : ((float) (((i+1)*2048) + (j+1+65536))))
 
+// A positive status is an errno; others (mainly -1, the end of an item) are not
 #define CHK_IO(i) \
-    if (i != 0) { \
+    if (i > 0) { \
+        errno = i; \
+        PyErr_SetFromErrno(PyExc_IOError); \
+        return NULL; \
+    } else if (i != 0) { \
         PyErr_Format(PyExc_IOError, "IO failed"); \
         return NULL; }
 
diff --git a/aipy/miriad.py b/aipy/miriad.py
index a8d5cbb..6122d10 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -8,6 +8,7 @@ from __future__ import print_function, division, absolute_import
 
 __version__ = '0.1.2'
 
+import errno
 import numpy as np
 from . import _miriad
 
@@ -103,7 +104,8 @@ class UV(_miriad.UV):
             try:
                 _miriad.hdaccess(self.haccess(i, 'read'))
                 items.append(i)
-            except(IOError): pass
+            except(IOError) as e:
+                if e.errno not in (None, errno.ENOENT): raise
         return items
     def _rdhd(self, name):
         """Provide read access to header items via low-level calls."""
@@ -118,7 +120,9 @@ class UV(_miriad.UV):
                 assert(itype == t)
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
-                except(IOError): break
+                except(IOError) as e:
+                    if e.errno is not None: raise
+                    break # End of the item
                 if itype == 'a': c = c[:o]
                 rv.append(c)
                 offset += o
@@ -163,7 +167,9 @@ class UV(_miriad.UV):
                     rv.append(c); offset += 8
                     c, o = _miriad.hread(h, offset, 'd')
                     rv.append(c); offset += 8
-                except(IOError): break
+                except(IOError) as e:
+                    if e.errno is not None: raise
+                    break # End of the item
             _miriad.hdaccess(h)
             return rv
         else: raise ValueError('Unknown special header: ' + name)
-- 
2.43.0


From c24af81281706bd84fcf1ef5f7ca9187a81225d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 025/112] fix: a header item is closed when reading or writing
 it fails

---
 aipy/miriad.py | 108 +++++++++++++++++++++++++------------------------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 6122d10..666f260 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -113,28 +113,29 @@ class UV(_miriad.UV):
         if itype == '?': return self._rdhd_special(name)
         h = self.haccess(name, 'read')
         rv = []
-        if len(itype) == 1:
-            if itype == 'a': offset = 0
+        try:
+            if len(itype) == 1:
+                if itype == 'a': offset = 0
+                else:
+                    t, offset = _miriad.hread_init(h)
+                    assert(itype == t)
+                while True:
+                    try: c, o = _miriad.hread(h, offset, itype)
+                    except(IOError) as e:
+                        if e.errno is not None: raise
+                        break # End of the item
+                    if itype == 'a': c = c[:o]
+                    rv.append(c)
+                    offset += o
+                if itype == 'a':
+                    rv = b''.join(rv)
+                    if str is not bytes: rv = rv.decode('utf-8')
             else:
-                t, offset = _miriad.hread_init(h)
-                assert(itype == t)
-            while True:
-                try: c, o = _miriad.hread(h, offset, itype)
-                except(IOError) as e:
-                    if e.errno is not None: raise
-                    break # End of the item
-                if itype == 'a': c = c[:o]
-                rv.append(c)
-                offset += o
-            if itype == 'a':
-                rv = b''.join(rv)
-                if str is not bytes: rv = rv.decode('utf-8')
-        else:
-            t, offset = _miriad.hread_init(h); assert(t == 'b')
-            for t in itype:
-                v, o = _miread.hread(h, offset, t)
-                rv.append(v); offset += o
-        _miriad.hdaccess(h)
+                t, offset = _miriad.hread_init(h); assert(t == 'b')
+                for t in itype:
+                    v, o = _miread.hread(h, offset, t)
+                    rv.append(v); offset += o
+        finally: _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
         elif type(rv) == str: return rv
         else: return np.array(rv)
@@ -143,47 +144,50 @@ class UV(_miriad.UV):
         type = itemtable[name]
         if type == '?': return self._wrhd_special(name, val)
         h = self.haccess(name, 'write')
-        if len(type) == 1:
-            try: len(val)
-            except(TypeError): val = [val]
-            if type == 'a': offset = 0
-            else: offset = _miriad.hwrite_init(h, type)
-            for v in val: offset += _miriad.hwrite(h, offset, v, type)
-        else:
-            offset = _miriad.hwrite_init(h, 'b')
-            for v, t in zip(val,type): offset += _miriad.hwrite(h,offset,v,t)
-        _miriad.hdaccess(h)
+        try:
+            if len(type) == 1:
+                try: len(val)
+                except(TypeError): val = [val]
+                if type == 'a': offset = 0
+                else: offset = _miriad.hwrite_init(h, type)
+                for v in val: offset += _miriad.hwrite(h, offset, v, type)
+            else:
+                offset = _miriad.hwrite_init(h, 'b')
+                for v, t in zip(val,type): offset += _miriad.hwrite(h,offset,v,t)
+        finally: _miriad.hdaccess(h)
     def _rdhd_special(self, name):
         """Provide read access to special header items of type '?' to _rdhd"""
         if name == 'freqs':
             h = self.haccess(name, 'read')
-            c, o = _miriad.hread(h, 0, 'i')
-            rv = [c]; offset = 8
-            while True:
-                try:
-                    c, o = _miriad.hread(h, offset, 'i')
-                    rv.append(c); offset += 8
-                    c, o = _miriad.hread(h, offset, 'd')
-                    rv.append(c); offset += 8
-                    c, o = _miriad.hread(h, offset, 'd')
-                    rv.append(c); offset += 8
-                except(IOError) as e:
-                    if e.errno is not None: raise
-                    break # End of the item
-            _miriad.hdaccess(h)
+            try:
+                c, o = _miriad.hread(h, 0, 'i')
+                rv = [c]; offset = 8
+                while True:
+                    try:
+                        c, o = _miriad.hread(h, offset, 'i')
+                        rv.append(c); offset += 8
+                        c, o = _miriad.hread(h, offset, 'd')
+                        rv.append(c); offset += 8
+                        c, o = _miriad.hread(h, offset, 'd')
+                        rv.append(c); offset += 8
+                    except(IOError) as e:
+                        if e.errno is not None: raise
+                        break # End of the item
+            finally: _miriad.hdaccess(h)
             return rv
         else: raise ValueError('Unknown special header: ' + name)
     def _wrhd_special(self, name, val):
         """Provide write access to special header items of type '?' to _rdhd"""
         if name == 'freqs':
             h = self.haccess(name, 'write')
-            o = _miriad.hwrite(h, 0, val[0], 'i')
-            offset = 8
-            for i,v in enumerate(val[1:]):
-                if i % 3 == 0: o = _miriad.hwrite(h, offset, v, 'i')
-                else: o = _miriad.hwrite(h, offset, v, 'd')
-                offset += 8
-            _miriad.hdaccess(h)
+            try:
+                o = _miriad.hwrite(h, 0, val[0], 'i')
+                offset = 8
+                for i,v in enumerate(val[1:]):
+                    if i % 3 == 0: o = _miriad.hwrite(h, offset, v, 'i')
+                    else: o = _miriad.hwrite(h, offset, v, 'd')
+                    offset += 8
+            finally: _miriad.hdaccess(h)
         else: raise ValueError('Unknown special header: ' + name)
     def __getitem__(self, name):
         """Allow access to variables and header items via uv[name]."""
-- 
2.43.0


From b929b289eec49b6ea25ea38cf4eb29ac0c5b1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 026/112] fix: the obstype item is read and written as MIRIAD
 does

---
 aipy/_miriad/miriad_wrap.cpp | 9 +++------
 aipy/miriad.py               | 4 +++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index b256140..03492e3 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -652,12 +652,9 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
-                st[H_BYTE_SIZE] = 0;
-#if PY_MAJOR_VERSION >= 3
-                return Py_BuildValue("yi", st, H_BYTE_SIZE);
-#else
-                return Py_BuildValue("si", st, H_BYTE_SIZE);
-#endif
+                // One byte, which may be a NUL
+                return Py_BuildValue("Ni",
+                    PyBytes_FromStringAndSize(st, H_BYTE_SIZE), H_BYTE_SIZE);
             case 'i':
                 hreadi_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 666f260..d99409c 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -129,6 +129,8 @@ class UV(_miriad.UV):
                     offset += o
                 if itype == 'a':
                     rv = b''.join(rv)
+                    # Miriad tags 'obstype' with its type, and text files not
+                    if rv[:4] == b'\0\0\0\1': rv = rv[4:]
                     if str is not bytes: rv = rv.decode('utf-8')
             else:
                 t, offset = _miriad.hread_init(h); assert(t == 'b')
@@ -148,7 +150,7 @@ class UV(_miriad.UV):
             if len(type) == 1:
                 try: len(val)
                 except(TypeError): val = [val]
-                if type == 'a': offset = 0
+                if type == 'a' and name != 'obstype': offset = 0
                 else: offset = _miriad.hwrite_init(h, type)
                 for v in val: offset += _miriad.hwrite(h, offset, v, type)
             else:
-- 
2.43.0


From fa0c6817a7026779cdaff10dea9ad6ac4b30a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 027/112] fix: failing to open one file does not make a data
 set read-only

---
 aipy/_miriad/mir/hio.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 3ec9ede..6fe5a64 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -668,9 +668,9 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
     if(mode & ITEM_APPEND) item->offset = item->size;
 
 /* If we have opened a file in write mode, remember that this dataset is
-   writeable. */
+   writeable. It stays so, even if some file cannot be opened later on. */
 
-    if(!(mode & ITEM_READ)){
+    if(!(mode & ITEM_READ) && (*iostat == 0 || t->rdwr != RDWR_RDWR)){
       if(*iostat == 0) t->rdwr = RDWR_RDWR;
       else	       t->rdwr = RDWR_RDONLY;
       t->wriostat = *iostat;
@@ -1197,9 +1197,11 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
     if(item->flags & ITEM_CACHE) t->flags |= TREE_CACHEMOD;
     item->flags &= ~ITEM_CACHE;
     hopenfile_c(item,"write",iostat);
-    if(*iostat == 0) t->rdwr = RDWR_RDWR;
-    else	     t->rdwr = RDWR_RDONLY;
-    t->wriostat = *iostat;
+    if(*iostat == 0 || t->rdwr != RDWR_RDWR){
+      if(*iostat == 0) t->rdwr = RDWR_RDWR;
+      else	       t->rdwr = RDWR_RDONLY;
+      t->wriostat = *iostat;
+    }
   }
 }
 /************************************************************************/
-- 
2.43.0


From 8bbe5392e015b179cdce6067bf2b1bac7e632a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 028/112] fix: an item whose file could not be opened can be
 written again

---
 aipy/_miriad/mir/hio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 6fe5a64..e21b942 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1202,6 +1202,13 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
       else	       t->rdwr = RDWR_RDONLY;
       t->wriostat = *iostat;
     }
+
+/* Without a file it still is a small item, and the next write tries again. */
+
+    if(*iostat){
+      item->fd = 0;
+      item->bsize = CACHESIZE;
+    }
   }
 }
 /************************************************************************/
-- 
2.43.0


From 81c4153746ac1ee218cc8f13c2f8e3c7d37e3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 029/112] fix: a data set cut short while being closed never
 loses its flags silently

---
 aipy/_miriad/mir/uvio.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 17818d9..7d77112 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -930,11 +930,6 @@ void uvflush_c(int tno)
   if(uv->corr_flags.handle != NULL) mkflush_c(uv->corr_flags.handle);
   if(uv->wcorr_flags.handle != NULL) mkflush_c(uv->wcorr_flags.handle);
 
-/* Rewrite vartable, if needed. */
-
-  if(uv->saved_nvar < uv->nvar || (uv->nvar == 0 && (uv->flags & UVF_NEW))) uv_vartable_out(uv);
-  uv->saved_nvar = uv->nvar;
-
 /* Rewrite the description indicating the type of the data. */
 
   if( ( uv->flags & (UVF_AUTO|UVF_CROSS) ) == (UVF_AUTO|UVF_CROSS))
@@ -957,6 +952,19 @@ void uvflush_c(int tno)
   wrhdi_c(tno,"vislen",uv->offset);
 #endif
 
+/* A new data set can be opened once it has a vartable. Its flags, if they are
+   few, are with the small items: get those to disk first. */
+
+  if(uv->saved_nvar == 0 && (uv->flags & UVF_NEW)){
+    hflush_c(tno,&iostat);
+    CHECK(iostat,(message,"Error calling hflush, in UVFLSH"));
+  }
+
+/* Rewrite vartable, if needed. */
+
+  if(uv->saved_nvar < uv->nvar || (uv->nvar == 0 && (uv->flags & UVF_NEW))) uv_vartable_out(uv);
+  uv->saved_nvar = uv->nvar;
+
 /* Finally flush out everything to disk. */
 
   hflush_c(tno,&iostat);
-- 
2.43.0


From 12a71d2290522713602557977af13974642f0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 030/112] fix: variables which change in a decimated record are
 copied with the next one

---
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 18 ++++++++++++++++++
 aipy/_miriad/miriad_wrap.cpp |  5 ++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index 893cb06..33cee76 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -208,6 +208,7 @@ void uvdiscard_c(int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
+int  uvmark_c (int tno, int mark);
 void uvcopyvr_c (int tin, int tout);
 int  uvupdate_c (int tno);
 void uvvarini_c (int tno, int *vhan);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 7d77112..edb808f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1406,6 +1406,24 @@ void uvcopyvr_c(int tin,int tout)
   }
 }
 /************************************************************************/
+int uvmark_c(int tno,int mark)
+/*
+  Return the call from which on an updated variable counts as updated by
+  the last uvread, and, if mark is not negative, set it. This lets a caller
+  which drops a record have the variables updated with it count as updated
+  by the next uvread that it keeps.
+------------------------------------------------------------------------*/
+{
+  int old;
+
+  old = uvs[tno]->mark;
+  if(mark >= 0){
+    uvs[tno]->mark = mark;
+    uvs[tno]->flags |= UVF_COPY;	/* uvcopyvr is to check them all. */
+  }
+  return old;
+}
+/************************************************************************/
 int uvupdate_c(int tno)
 /**uvupdate -- Check whether any "important" variables have changed.	*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 03492e3..b520ffe 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -118,7 +118,7 @@ static PyArrayObject *as_vector(PyObject *val, int npy_type) {
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
     PyObject *rv;
-    int nread, n2read, i, j;
+    int nread, n2read, i, j, mark=-1;
     double preamble[PREAMBLE_SIZE];
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     // Make numpy arrays to hold the results
@@ -136,6 +136,9 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
         }
+        // What changed in a record dropped below has changed for the caller
+        if (mark < 0) mark = uvmark_c(self->tno, -1);
+        else uvmark_c(self->tno, mark);
         if (preamble[3] != self->curtime) {
             self->intcnt += 1;
             self->curtime = preamble[3];
-- 
2.43.0


From 9c65cc3d7816a0341cb40427e469ad2a00845972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 031/112] fix: decimating by less than one is an error, not a
 division by zero

---
 aipy/_miriad/miriad_wrap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index b520ffe..2577a17 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -450,6 +450,10 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
     if (strncmp(name,"decimation",5) == 0) {
+        if ((long) n1 < 1) {
+            PyErr_Format(PyExc_ValueError, "cannot decimate by %ld", (long) n1);
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
-- 
2.43.0


From 2028be69cfa633a7e0e1b3f7e62abca96f924ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 032/112] fix: cloning a data set copes with variables set
 after its first record

---
 aipy/_miriad/miriad_wrap.cpp | 5 +++++
 aipy/miriad.py               | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 2577a17..2529518 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -289,6 +289,11 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
+    if (length == 0) {
+        PyErr_Format(PyExc_KeyError, "UV variable \"%s\" has no value yet", name);
+        return NULL;
+    }
+
     // uvgetvr_c adds a NUL of its own to a string
     if (length * elem_size > MAXVAR - (type[0] == 'a')) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
diff --git a/aipy/miriad.py b/aipy/miriad.py
index d99409c..41c4c6b 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -274,7 +274,9 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
+                # A variable set only further on has no value to copy yet
+                try: self._wrvr(k, uv.vartable[k], uv[k])
+                except(KeyError): pass
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
-- 
2.43.0


From e9627a6db4fd02f1c2be1f3d819f3c31782b1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 033/112] fix: a variable overridden or left out of a clone is
 no longer tracked for it

---
 aipy/_miriad/mir/uvio.c      | 4 +++-
 aipy/_miriad/miriad_wrap.cpp | 2 +-
 aipy/miriad.py               | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index edb808f..661437f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1865,7 +1865,8 @@ void uvtrack_c(int tno,Const char *name,Const char *switches)
 		      time it is called.
 		 'c'  Remember if this variable gets updated, and when 
 		      it gets updated, cause it to be copied during the
-		      next call to uvcopyvr.				*/
+		      next call to uvcopyvr.
+		 'n'  Forget about 'u' and 'c' for this variable.	*/
 /*--									*/
 /*----------------------------------------------------------------------*/
 {
@@ -1880,6 +1881,7 @@ void uvtrack_c(int tno,Const char *name,Const char *switches)
 	      uv->flags |= UVF_UPDATED;				break;
     case 'c': v->flags |= UVF_COPY;
 	      uv->flags |= UVF_COPY;				break;
+    case 'n': v->flags &= ~(UVF_UPDATED | UVF_COPY);		break;
     case ' ':							break;
     default:
       ERROR('w',(message,"Unrecognised switch %c, in UVTRACK",*(switches-1)));
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 2529518..9354556 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -722,7 +722,7 @@ static PyMethodDef UVObject_methods[] = {
     {"copyvr", (PyCFunction)UVObject_copyvr, METH_VARARGS,
         "copyvr(uv)\nCopy any variables which changed during the last read into the provided uv interface."},
     {"trackvr", (PyCFunction)UVObject_trackvr, METH_VARARGS,
-        "trackvr(name,code)\nIf code=='c', set variable to be copied by copyvr()."},
+        "trackvr(name,code)\nIf code=='c', set variable to be copied by copyvr().  If code=='n', set it not to be."},
     {"_rdvr", (PyCFunction)UVObject_rdvr, METH_VARARGS,
         "_rdvr(name,type)\nReturn the current value of a variable of the provided Miriad type (a,j,i,r,d,c).  If variable has multiple values, an array (or string if pertinent) will be returned."},
     {"_wrvr", (PyCFunction)UVObject_wrvr, METH_VARARGS,
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 41c4c6b..b045a69 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -265,6 +265,8 @@ class UV(_miriad.UV):
             else: self._wrhd(k, uv[k])
         self.vartable = {}
         for k in uv.vars():
+            # The source may have been tracked for another clone
+            if k in exclude or k in override: uv.trackvr(k, 'n')
             if k in exclude: continue
             # I don't understand why reading 'corr' segfaults miriad,
             # but it does.  This is a cludgy work-around.
-- 
2.43.0


From b065a87cd3f05d10ab49f8621d0fbe1f28a55b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 034/112] fix: antennae selection finds baselines whose
 antennas are not in order

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 661437f..03bd043 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3243,6 +3243,7 @@ private int uvread_select(UV *uv)
     if(sel->selants){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }	/* The table has i1 <= i2. */
       if(i1 < 1 || i2 > MAXANT){
 	ERROR('w',(message,"Discarded data with bad antenna numbers when selecting: (%d,%d) baseline number is %d\n",i1,i2,bl));
 	discard = TRUE;
-- 
2.43.0


From b4089193ac5b1292b4c9b24db33ef8aa2082a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 035/112] fix: appending to a mixed-auto-cross data set keeps
 it mixed

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 03bd043..966cd10 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -815,6 +815,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
     rdhda_c(*tno,"obstype",line,"",MAXLINE);
     if(!strcmp(line,"autocorrelation"))		uv->flags |= UVF_AUTO;
     else if(!strcmp(line,"crosscorrelation"))	uv->flags |= UVF_CROSS;
+    else if(!strcmp(line,"mixed-auto-cross"))	uv->flags |= UVF_AUTO|UVF_CROSS;
     {
         int8 n;
         rdhdl_c(*tno,"ncorr",&n,-1);
-- 
2.43.0


From 29d804420a556b523a766a6f5759f382c0c14932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 036/112] fix: a damaged data stream with an unknown variable
 is an error, not a crash

---
 aipy/_miriad/mir/uvio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 966cd10..220612f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1957,6 +1957,8 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
+      if((unsigned char) *s >= uv->nvar)
+	ERROR('f',(message,"Unknown variable number %d, when scanning",(unsigned char) *s));
       v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
-- 
2.43.0


From f5a795cc1be0be6abf2160911c44415e2f7e5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 037/112] fix: a crash cannot leave part of a new data set's
 vartable

---
 aipy/_miriad/mir/hio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index e21b942..dae0395 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1216,14 +1216,16 @@ private void hopenfile_c(ITEM *item,char *status,int *iostat)
 /*
   Open the file of an item. The new contents of an item that is already on
   disk go to a file of their own, which takes over when the item is closed.
-  Until then the old contents stay intact.
+  Until then the old contents stay intact. So it is with the vartable, which
+  makes a new data set one that can be opened: it is never there in part.
 ------------------------------------------------------------------------*/
 {
   char path[MAXPATH];
 
   Strcpy(path,item->tree->name);
   Strcat(path,item->name);
-  if(item->tree->handle != 0 && !strcmp(status,"write") && !access(path,F_OK)){
+  if(item->tree->handle != 0 && !strcmp(status,"write") &&
+     (!strcmp(item->name,"vartable") || !access(path,F_OK))){
     Strcat(path,"~");
     item->flags |= ITEM_REPLACE;
   }
-- 
2.43.0


From 5be5c9982a1b3231fa0efd67833640388175ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 038/112] fix: an item whose file could not be sized keeps its
 own size

---
 aipy/_miriad/mir/dio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index b517222..055960d 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -156,6 +156,7 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
 ------------------------------------------------------------------------*/
 {
   int is_scratch,pid,flags=0;
+  off64_t length;
   char *s,sname[MAXPATH];
 
   is_scratch = *iostat = 0;
@@ -186,11 +187,12 @@ void dopen_c(int *fd,char *name,char *status,off64_t *size,int *iostat)
     (void)close(0);
     if(*iostat) return;
   }
-  if((*size = Lseek(*fd,0,SEEK_END)) < 0){
+  if((length = Lseek(*fd,0,SEEK_END)) < 0){
     *iostat = errno;
     (void)close(*fd);
     return;
   }
+  *size = length;
 
 /* If its a scratch file, unlink it now, so that the file will disappear
    when it is closed (or this program crashes). */
-- 
2.43.0


From d1e1335b032b2f1b8bdca3e67a8802197ffe9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 039/112] fix: an item that could not be written whole is
 dropped, not kept in part

---
 aipy/_miriad/mir/hio.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index dae0395..3e30986 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -69,6 +69,7 @@
 #define ITEM_CACHE    0x10
 #define ITEM_NOCACHE  0x20
 #define ITEM_REPLACE  0x40
+#define ITEM_NOFILE   0x80
 
 #define TREE_CACHEMOD 0x1
 #define TREE_NEW      0x2
@@ -276,7 +277,7 @@ void hflush_c(int tno,int *iostat)
    any modified buffers. */
 
   for(item = t->itemlist; item != NULL ; item = item->fwd){
-    if(!item->fd && !(item->flags & ITEM_NOCACHE) ){
+    if(!item->fd && !(item->flags & (ITEM_NOCACHE|ITEM_NOFILE)) ){
       if(item->io[0].state == IO_MODIFIED) t->flags |= TREE_CACHEMOD;
     } else if(item->fd && !(item->flags & ITEM_SCRATCH) ){
       for(i=0; i<2; i++){
@@ -302,7 +303,7 @@ void hflush_c(int tno,int *iostat)
 
     offset = 0;
     for(item = t->itemlist; item != NULL; item = item->fwd){
-      if(!item->fd && !(item->flags & ITEM_NOCACHE)){
+      if(!item->fd && !(item->flags & (ITEM_NOCACHE|ITEM_NOFILE))){
         Strcpy(s,item->name);
         s[CACHE_ENT-1] = item->size;
         hwriteb_c(ihandle,s,offset,CACHE_ENT,iostat);		if(*iostat)return;
@@ -837,7 +838,9 @@ void hdaccess_c(int ihandle,int *iostat)
     if(item->flags & ITEM_REPLACE) hreplace_c(item,iostat);
     hrelease_item_c(item);
 
-  } else if(item->flags & ITEM_NOCACHE){
+/* What was written of an item that never got the file it needs is dropped. */
+
+  } else if(item->flags & (ITEM_NOCACHE|ITEM_NOFILE)){
     hrelease_item_c(item);
 
 /* If it has not associated file, it must be small. Do not release it,
@@ -1203,12 +1206,13 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
       t->wriostat = *iostat;
     }
 
-/* Without a file it still is a small item, and the next write tries again. */
+/* Without a file, the next write tries again. */
 
     if(*iostat){
       item->fd = 0;
       item->bsize = CACHESIZE;
-    }
+      item->flags |= ITEM_NOFILE;
+    } else item->flags &= ~ITEM_NOFILE;
   }
 }
 /************************************************************************/
-- 
2.43.0


From 4b85af1d085991fad04c167f543881414283e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 040/112] Revert "fix: an item that could not be written whole
 is dropped, not kept in part"

This reverts commit d1e1335b032b2f1b8bdca3e67a8802197ffe9919.
---
 aipy/_miriad/mir/hio.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 3e30986..dae0395 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -69,7 +69,6 @@
 #define ITEM_CACHE    0x10
 #define ITEM_NOCACHE  0x20
 #define ITEM_REPLACE  0x40
-#define ITEM_NOFILE   0x80
 
 #define TREE_CACHEMOD 0x1
 #define TREE_NEW      0x2
@@ -277,7 +276,7 @@ void hflush_c(int tno,int *iostat)
    any modified buffers. */
 
   for(item = t->itemlist; item != NULL ; item = item->fwd){
-    if(!item->fd && !(item->flags & (ITEM_NOCACHE|ITEM_NOFILE)) ){
+    if(!item->fd && !(item->flags & ITEM_NOCACHE) ){
       if(item->io[0].state == IO_MODIFIED) t->flags |= TREE_CACHEMOD;
     } else if(item->fd && !(item->flags & ITEM_SCRATCH) ){
       for(i=0; i<2; i++){
@@ -303,7 +302,7 @@ void hflush_c(int tno,int *iostat)
 
     offset = 0;
     for(item = t->itemlist; item != NULL; item = item->fwd){
-      if(!item->fd && !(item->flags & (ITEM_NOCACHE|ITEM_NOFILE))){
+      if(!item->fd && !(item->flags & ITEM_NOCACHE)){
         Strcpy(s,item->name);
         s[CACHE_ENT-1] = item->size;
         hwriteb_c(ihandle,s,offset,CACHE_ENT,iostat);		if(*iostat)return;
@@ -838,9 +837,7 @@ void hdaccess_c(int ihandle,int *iostat)
     if(item->flags & ITEM_REPLACE) hreplace_c(item,iostat);
     hrelease_item_c(item);
 
-/* What was written of an item that never got the file it needs is dropped. */
-
-  } else if(item->flags & (ITEM_NOCACHE|ITEM_NOFILE)){
+  } else if(item->flags & ITEM_NOCACHE){
     hrelease_item_c(item);
 
 /* If it has not associated file, it must be small. Do not release it,
@@ -1206,13 +1203,12 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
       t->wriostat = *iostat;
     }
 
-/* Without a file, the next write tries again. */
+/* Without a file it still is a small item, and the next write tries again. */
 
     if(*iostat){
       item->fd = 0;
       item->bsize = CACHESIZE;
-      item->flags |= ITEM_NOFILE;
-    } else item->flags &= ~ITEM_NOFILE;
+    }
   }
 }
 /************************************************************************/
-- 
2.43.0


From c6b192304d36387dd21e2476915317b00e56921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 041/112] fix: an item that cannot be written keeps its old
 value, or is not there at all

---
 aipy/_miriad/mir/hio.c       | 60 ++++++++++++++++++++++++++++++++++++
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/miriad_wrap.cpp | 16 ++++++++++
 aipy/miriad.py               | 10 ++++--
 4 files changed, 85 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index dae0395..09b67b9 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -92,6 +92,8 @@ typedef struct item {
   off64_t offset;
   struct tree *tree;
   IOB io[2];
+  char *old;          /* what a small item held before it was opened to be rewritten */
+  size_t oldsize;
   struct item *fwd;
 } ITEM;
 
@@ -641,6 +643,11 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
 
   if(item == NULL)item = hcreate_item_c(t,(char *)keyword);
   else if((mode & (ITEM_WRITE|ITEM_SCRATCH)) && item->size != 0){
+    if(item->old != NULL) free(item->old);
+    item->old = item->io[0].buf;
+    item->oldsize = item->size;
+    item->io[0].buf = NULL;
+    item->bsize = 0;
     item->size = 0;
     item->io[0].length = item->io[1].length = 0;
     if(item->flags & ITEM_CACHE) t->flags |= TREE_CACHEMOD;
@@ -847,6 +854,56 @@ void hdaccess_c(int ihandle,int *iostat)
     item->flags &= ~ACCESS_MODE;
     if(item->io[0].state == IO_MODIFIED)item->tree->flags |= TREE_CACHEMOD;
     item->io[0].state = IO_VALID;
+    if(item->old != NULL) free(item->old);
+    item->old = NULL;
+  }
+}
+/************************************************************************/
+void hcancel_c(int ihandle)
+/**hcancel -- Give up writing an item.					*/
+/*&pjt									*/
+/*:low-level-i/o							*/
+/*+
+  This releases an item that was opened for writing, and could not be written
+  as it should be. If it replaces an older version, that version stays.
+  Otherwise there will be no such item.
+
+  Input:
+    itno	The handle of the item.					*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  ITEM *item;
+  char path[MAXPATH];
+  int iostat;
+
+  item = hget_item(ihandle);
+  if(item->fd != 0){
+    dclose_c(item->fd,&iostat);
+    item->fd = 0;
+    iostat = -1;
+    if(item->flags & ITEM_REPLACE) hreplace_c(item,&iostat);
+    else if(item->flags & ITEM_WRITE){
+      Strcpy(path,item->tree->name);
+      Strcat(path,item->name);
+      (void)unlink(path);
+    }
+  }
+  if(item->old == NULL){
+    hrelease_item_c(item);
+  } else {
+    if(item->io[0].buf != NULL) free(item->io[0].buf);
+    if(item->io[1].buf != NULL) free(item->io[1].buf);
+    item->io[0].buf = item->old;
+    item->io[0].offset = 0;
+    item->io[0].length = item->bsize = item->size = item->oldsize;
+    item->io[0].state = IO_VALID;
+    item->io[1].buf = NULL;
+    item->io[1].length = 0;
+    item->old = NULL;
+    item->flags &= ~ACCESS_MODE;
+    item->flags |= ITEM_CACHE;
+    item->tree->flags |= TREE_CACHEMOD;
   }
 }
 /************************************************************************/
@@ -1507,6 +1564,7 @@ private void hrelease_item_c(ITEM *item)
 
   if(item->io[0].buf != NULL) free(item->io[0].buf);
   if(item->io[1].buf != NULL) free(item->io[1].buf);
+  if(item->old != NULL) free(item->old);
 
   item_addr[item->handle] = NULL;
   free(item->name);
@@ -1549,6 +1607,8 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
   item->last = 0;
   item->offset = 0;
   item->bsize = 0;
+  item->old = NULL;
+  item->oldsize = 0;
   item->tree = tree;
   for(i=0; i<2; i++){
     item->io[i].offset = 0;
diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index 33cee76..ac8dd61 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -120,6 +120,7 @@ void haccess_c(int tno, int *ihandle, Const char *keyword, Const char *status, i
 void hmode_c(int tno, char *mode);
 int  hexists_c(int tno, Const char *keyword);
 void hdaccess_c(int ihandle, int *iostat);
+void hcancel_c(int ihandle);
 off64_t hsize_c(int ihandle);
 void hio_c(int ihandle, int dowrite, int type, char *buf, off64_t offset, size_t length, int *iostat);
 void hseek_c(int ihandle, off64_t offset);
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 9354556..7377498 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -503,6 +503,20 @@ PyObject * WRAP_hdaccess(UVObject *self, PyObject *args) {
     }
 }
 
+// A thin wrapper over hcancel_c
+PyObject * WRAP_hcancel(UVObject *self, PyObject *args) {
+    int item_hdl;
+    if (!PyArg_ParseTuple(args, "i", &item_hdl)) return NULL;
+    try {
+        hcancel_c(item_hdl);
+        Py_INCREF(Py_None);
+        return Py_None;
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
+}
+
 #define INIT(type_item,size) \
     hwriteb_c(item_hdl,type_item,0,ITEM_HDR_SIZE,&iostat); \
     CHK_IO(iostat); \
@@ -780,6 +794,8 @@ PyTypeObject UVType = {
 static PyMethodDef _miriad_methods[] = {
     {"hdaccess", (PyCFunction)WRAP_hdaccess, METH_VARARGS,
         "hdaccess(handle)\nCloses an open header item."},
+    {"hcancel", (PyCFunction)WRAP_hcancel, METH_VARARGS,
+        "hcancel(handle)\nGives up writing an open header item, which stays as it was."},
     {"hwrite_init", (PyCFunction)WRAP_hwrite_init, METH_VARARGS,
         "hwrite_init(handle,type)\nInitialize an open header item for writing a given Miriad type (a,b,i,j,l,r,d,c).  Return the offset of end of the type tag."},
     {"hread_init", (PyCFunction)WRAP_hread_init, METH_VARARGS,
diff --git a/aipy/miriad.py b/aipy/miriad.py
index b045a69..99ce87f 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -156,7 +156,10 @@ class UV(_miriad.UV):
             else:
                 offset = _miriad.hwrite_init(h, 'b')
                 for v, t in zip(val,type): offset += _miriad.hwrite(h,offset,v,t)
-        finally: _miriad.hdaccess(h)
+        except:
+            _miriad.hcancel(h)
+            raise
+        _miriad.hdaccess(h)
     def _rdhd_special(self, name):
         """Provide read access to special header items of type '?' to _rdhd"""
         if name == 'freqs':
@@ -189,7 +192,10 @@ class UV(_miriad.UV):
                     if i % 3 == 0: o = _miriad.hwrite(h, offset, v, 'i')
                     else: o = _miriad.hwrite(h, offset, v, 'd')
                     offset += 8
-            finally: _miriad.hdaccess(h)
+            except:
+                _miriad.hcancel(h)
+                raise
+            _miriad.hdaccess(h)
         else: raise ValueError('Unknown special header: ' + name)
     def __getitem__(self, name):
         """Allow access to variables and header items via uv[name]."""
-- 
2.43.0


From e5c2d4a8e6ad7a2e02b83f635319344d652cc552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 042/112] fix: a data set is not taken for read-only because
 one file could not be opened

---
 aipy/_miriad/mir/hio.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 09b67b9..b66894f 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -628,7 +628,11 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
   if( !(mode & ITEM_READ) && !(mode & ITEM_NOCACHE) ){
     if(t->rdwr == RDWR_UNKNOWN)hmode_c(tno,string);
     *iostat = t->wriostat;
-    if(*iostat) return;
+    if(*iostat){
+      t->rdwr = RDWR_UNKNOWN;
+      t->wriostat = 0;
+      return;
+    }
   }
 
 /* Check if the item is aleady here abouts. */
@@ -675,9 +679,10 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
     if(mode & ITEM_APPEND) item->offset = item->size;
 
 /* If we have opened a file in write mode, remember that this dataset is
-   writeable. It stays so, even if some file cannot be opened later on. */
+   writeable. It stays so, even if some file cannot be opened later on. Only
+   the header tells that it is not, and not for good. */
 
-    if(!(mode & ITEM_READ) && (*iostat == 0 || t->rdwr != RDWR_RDWR)){
+    if(!(mode & ITEM_READ) && (*iostat == 0 || (header_ok && t->rdwr != RDWR_RDWR))){
       if(*iostat == 0) t->rdwr = RDWR_RDWR;
       else	       t->rdwr = RDWR_RDONLY;
       t->wriostat = *iostat;
-- 
2.43.0


From bf3203c101b389cb7579021ff7db6f0b53b08ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 043/112] fix: the obstype of a clone is that of the records
 written to it

---
 aipy/_miriad/mir/uvio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 220612f..4977ba8 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2195,10 +2195,10 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   }
 
   temp = *preamble++;
+  itemp = temp;
+  uvbasant_c(itemp,&i1,&i2);
+  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
   if( uv->bl->length == 0 || temp != *(float *)(uv->bl->buf) ){
-    itemp = temp;
-    uvbasant_c(itemp,&i1,&i2);
-    uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
     uvputvrr_c(tno,"baseline",&temp,1);
     *(float *)(uv->bl->buf) = temp;
   }
-- 
2.43.0


From 60ce093b97c16ccd7d37807b7aff0197cac1a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 044/112] fix: an item whose last bytes cannot be written keeps
 its old value too

---
 aipy/_miriad/mir/hio.c       | 88 +++++++++++++++++++++++++++++-------
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/miriad_wrap.cpp |  4 +-
 3 files changed, 74 insertions(+), 19 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index b66894f..3ae4db5 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -146,6 +146,8 @@ static int hname_check(char *name);
 static void hdir_c(ITEM *item);
 static void hopenfile_c(ITEM *item, char *status, int *iostat);
 static void hreplace_c(ITEM *item, int *iostat);
+static void hclosefile_c(ITEM *item, int *iostat);
+static void hrestore_c(ITEM *item);
 static void hrelease_item_c(ITEM *item);
 static ITEM *hcreate_item_c(TREE *tree, char *name);
 static TREE *hcreate_tree_c(char *name);
@@ -820,7 +822,6 @@ void hdaccess_c(int ihandle,int *iostat)
 /*----------------------------------------------------------------------*/
 {
   ITEM *item;
-  int i,stat;
 
 /* If it has an associated file, flush anything remaining to the file
    and close it up. */
@@ -831,21 +832,8 @@ void hdaccess_c(int ihandle,int *iostat)
    and close up. */
 
   *iostat = 0;
-  stat = 0;
   if(item->fd != 0){
-    for(i=0; i<2 && !stat; i++){
-      if(item->io[i].state == IO_MODIFIED && !(item->flags & ITEM_SCRATCH)){
-	WAIT(item,&stat);
-	if(!stat)dwrite_c( item->fd, item->io[i].buf, item->io[i].offset,
-				     item->io[i].length, &stat);
-	item->io[i].state = IO_ACTIVE;
-      }
-    }
-    *iostat = stat;
-    WAIT(item,&stat);
-    if(stat) *iostat = stat;
-    dclose_c(item->fd,&stat);
-    if(stat) *iostat = stat;
+    hclosefile_c(item,iostat);
     if(item->flags & ITEM_REPLACE) hreplace_c(item,iostat);
     hrelease_item_c(item);
 
@@ -864,6 +852,61 @@ void hdaccess_c(int ihandle,int *iostat)
   }
 }
 /************************************************************************/
+void hfinish_c(int ihandle,int *iostat)
+/**hfinish -- Finish up access to an item, all of it or nothing.	*/
+/*&pjt									*/
+/*:low-level-i/o							*/
+/*+
+  As hdaccess. When it fails, the writing of the item is given up, as by
+  hcancel.
+
+  Input:
+    itno	The handle of the item to close up.
+  Output:
+    iostat	I/O status indicator. 0 indicates success. Other values
+		are standard system error numbers.			*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  ITEM *item;
+
+  item = hget_item(ihandle);
+  if(item->fd == 0){
+    hdaccess_c(ihandle,iostat);
+    return;
+  }
+  hclosefile_c(item,iostat);
+  if(item->flags & ITEM_REPLACE){
+    hreplace_c(item,iostat);
+    item->fd = 0;
+  }
+  if(*iostat == 0) hrelease_item_c(item);
+  else hrestore_c(item);
+}
+/************************************************************************/
+private void hclosefile_c(ITEM *item,int *iostat)
+/*
+  Flush anything remaining to the file of an item, and close it.
+------------------------------------------------------------------------*/
+{
+  int i,stat;
+
+  stat = 0;
+  for(i=0; i<2 && !stat; i++){
+    if(item->io[i].state == IO_MODIFIED && !(item->flags & ITEM_SCRATCH)){
+      WAIT(item,&stat);
+      if(!stat)dwrite_c( item->fd, item->io[i].buf, item->io[i].offset,
+				   item->io[i].length, &stat);
+      item->io[i].state = IO_ACTIVE;
+    }
+  }
+  *iostat = stat;
+  WAIT(item,&stat);
+  if(stat) *iostat = stat;
+  dclose_c(item->fd,&stat);
+  if(stat) *iostat = stat;
+}
+/************************************************************************/
 void hcancel_c(int ihandle)
 /**hcancel -- Give up writing an item.					*/
 /*&pjt									*/
@@ -879,12 +922,23 @@ void hcancel_c(int ihandle)
 /*----------------------------------------------------------------------*/
 {
   ITEM *item;
-  char path[MAXPATH];
   int iostat;
 
   item = hget_item(ihandle);
+  if(item->fd != 0) dclose_c(item->fd,&iostat);
+  hrestore_c(item);
+}
+/************************************************************************/
+private void hrestore_c(ITEM *item)
+/*
+  Remove what was written of an item, and go back to what it held before, if
+  anything. Its file, if there is one, has been closed.
+------------------------------------------------------------------------*/
+{
+  char path[MAXPATH];
+  int iostat;
+
   if(item->fd != 0){
-    dclose_c(item->fd,&iostat);
     item->fd = 0;
     iostat = -1;
     if(item->flags & ITEM_REPLACE) hreplace_c(item,&iostat);
diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index ac8dd61..b1f6714 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -121,6 +121,7 @@ void hmode_c(int tno, char *mode);
 int  hexists_c(int tno, Const char *keyword);
 void hdaccess_c(int ihandle, int *iostat);
 void hcancel_c(int ihandle);
+void hfinish_c(int ihandle, int *iostat);
 off64_t hsize_c(int ihandle);
 void hio_c(int ihandle, int dowrite, int type, char *buf, off64_t offset, size_t length, int *iostat);
 void hseek_c(int ihandle, off64_t offset);
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 7377498..0e768e8 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -488,12 +488,12 @@ PyObject * UVObject_haccess(UVObject *self, PyObject *args) {
     }
 }
 
-// A thin wrapper over hdaccess_c
+// A thin wrapper over hfinish_c: an item is written in whole, or stays as it was
 PyObject * WRAP_hdaccess(UVObject *self, PyObject *args) {
     int item_hdl, iostat;
     if (!PyArg_ParseTuple(args, "i", &item_hdl)) return NULL;
     try {
-        hdaccess_c(item_hdl, &iostat);
+        hfinish_c(item_hdl, &iostat);
         CHK_IO(iostat);
         Py_INCREF(Py_None);
         return Py_None;
-- 
2.43.0


From e6347b8ad22bad8213736308fb0af86ee50cb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 045/112] fix: no empty item is left by one that could not be
 begun

---
 aipy/_miriad/mir/hio.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 3ae4db5..0392f9a 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1346,7 +1346,10 @@ private void hopenfile_c(ITEM *item,char *status,int *iostat)
     item->flags |= ITEM_REPLACE;
   }
   dopen_c(&(item->fd),path,status,&(item->size),iostat);
-  if(*iostat) item->flags &= ~ITEM_REPLACE;
+  if(*iostat){
+    item->flags &= ~ITEM_REPLACE;
+    if(item->tree->handle != 0 && !strcmp(status,"write")) (void)unlink(path);
+  }
 }
 /************************************************************************/
 private void hreplace_c(ITEM *item,int *iostat)
-- 
2.43.0


From 24e1d0e554277637c9996307c4ec69723f84351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 046/112] fix: each Antenna keeps its own phsoff

The coefficients were kept by reference, and fit.Antenna.set_params({'dly':..})
writes into them: setting the delay of one antenna made with the default phsoff
changed it for every antenna made that way, and for later arrays too.
---
 aipy/phs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..8a1466c 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -195,7 +195,7 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        self._phsoff = copy.deepcopy(phsoff)
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
-- 
2.43.0


From 2bef0060d22bfa46a4acb54d99d121537dda1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 047/112] fix: phsoff from get_params is a copy

get_params handed out the antenna's own list and set_params adopted the
caller's, so setting dly or off afterwards changed parameters that had been
saved, or another antenna set from the same list.
---
 aipy/fit.py | 4 ++--
 aipy/pol.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..ab87c95 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -307,7 +307,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -332,7 +332,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..a0b6d76 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -119,7 +119,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 5622bbdb8e7031bc9f9cdd256fdf1b3785ce64d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 048/112] fix: pol.Antenna.set_params sets bp_i under the name
 get_params gives it

---
 aipy/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index a0b6d76..e7392db 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 121b08c7282e64c570d333b2a6396f46d7eabcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 049/112] fix: a list of one parameter is still a list after
 reconstruct_prms

A one-coefficient bp_r, bp_i or bm_poly came back as a bare number, which
set_params then could not use (TypeError from polyval), so the parameters of a
default antenna did not survive flatten_prms/reconstruct_prms.
---
 aipy/fit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index ab87c95..7017378 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,7 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                key_list[k] = (len(prm_list), None)
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +45,8 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
-- 
2.43.0


From 777b0b20788e28acb6627c75b0419ad522b1d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 050/112] fix: BeamPolynomial.set_params leaves the caller's
 bm_poly alone

It reshaped the array it was given in place and kept it, and refused the list
that reconstruct_prms makes from a list.
---
 aipy/fit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 7017378..f8fe691 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -255,9 +255,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
-            poly_azfreq.shape = self.poly.shape
-            self.poly = poly_azfreq
+            self.poly = np.array(prms['bm_poly']).reshape(self.poly.shape)
             changed = True
         except(KeyError): pass
         if changed: self.update()
-- 
2.43.0


From 5702a7c3c49247dc8f8c344b8dfcffc5cdc7cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 051/112] fix: BeamAlm.get_params names coefficients as
 set_params reads them

set_params({'almN': ..}) sets the term of order N, self.alm[-1-N], but
get_params called self.alm[N] 'almN': putting back what get_params returned
reversed the beam's polynomial.
---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f8fe691..ca3616b 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -269,7 +269,7 @@ class BeamAlm(amp.BeamAlm):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
         for i, a in enumerate(self.alm):
-            k = 'alm%d' % i
+            k = 'alm%d' % (len(self.alm) - 1 - i)
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
         prms = {}
-- 
2.43.0


From 8f683dbac8f5efac71747de85f80bbf921ce0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 052/112] fix: set_params keeps its own passband coefficients

---
 aipy/fit.py | 4 ++--
 aipy/pol.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index ca3616b..fbec1f9 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -332,9 +332,9 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
-        try: self.bp_r, changed = prms['bp_r'], True
+        try: self.bp_r, changed = list(prms['bp_r']), True
         except(KeyError): pass
-        try: self.bp_i, changed = prms['bp_i'], True
+        try: self.bp_i, changed = list(prms['bp_i']), True
         except(KeyError): pass
         try: self.amp, changed = prms['amp'], True
         except(KeyError): pass
diff --git a/aipy/pol.py b/aipy/pol.py
index e7392db..541fccb 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -121,9 +121,9 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
-            try: self.bp_r[p], changed = prms['bp_r_'+p], True
+            try: self.bp_r[p], changed = list(prms['bp_r_'+p]), True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i_'+p], True
+            try: self.bp_i[p], changed = list(prms['bp_i_'+p]), True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 05a30e31c06d901f26a6632fbda13cb84da7580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 053/112] fix: several sources can be simulated in a single
 channel

resolve_src drops the channel axis when there is one channel, and gen_phs then
failed to multiply (nsrc,1) by (nsrc,).
---
 aipy/phs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 8a1466c..9a96e16 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -351,7 +351,7 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None: phs *= np.reshape(self.resolve_src(u, v, srcshape=srcshape), phs.shape)
         return phs.squeeze()
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
-- 
2.43.0


From b03fcc10e3d5a7e13db146741789cd654cf9972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 054/112] fix: amp.AntennaArray.set_ephemtime also moves the
 simulation

Only set_jultime renewed eq2top_m and dropped the cached sources, so after
set_ephemtime sim() went on with the sources of the previous time; and before
any time was set sim() failed on a missing attribute instead of asking for
sim_cache().
---
 aipy/amp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..7a6517b 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -282,15 +282,17 @@ class AntennaArray(phs.AntennaArray):
     def __init__(self, *args, **kwargs):
         phs.AntennaArray.__init__(self, *args, **kwargs)
         self.active_pol = None
+        self._cache = None
     def set_active_pol(self, pol):
         assert(pol in ('xx','yy','xy','yx')) # the only pols supported natively, for now
         self.active_pol = pol
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package.  Recalculates
+        matrix for projecting baselines into current positions."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From 8dcc9bbea5cac01be58fc80b8805d3f095c6e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 055/112] fix: SrcCatalog.get_srcs() returns the sources it
 promises, not None

---
 aipy/phs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 9a96e16..997e097 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -136,7 +136,7 @@ class SrcCatalog(dict):
         for s in srcs: self[s.src_name] = s
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
-        if len(srcs) == 0: srcs = self.keys()
+        if len(srcs) == 0: return [self[s] for s in self.keys()]
         elif len(srcs) == 1 and type(srcs[0]) != str:
             return [self[s] for s in srcs[0]]
         else: return [self[s] for s in srcs]
-- 
2.43.0


From 76a225a402861c683a3f0e9139663c065c4ebc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 056/112] fix: get_aa and get_catalog find what the calibration
 module defines

Under Python 3 a name bound by exec in a function is not seen by that function:
get_aa always failed with NameError and get_catalog with UnboundLocalError (and
with SyntaxError for the default cal_key).
---
 aipy/cal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..f9f5d8c 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -8,6 +8,7 @@ from __future__ import print_function, division, absolute_import
 import numpy as np
 import os
 import sys
+from importlib import import_module
 from . import src
 
 def get_freqs(sdf, sfreq, nchan):
@@ -26,8 +27,7 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
-    return _get_aa(freqs)
+    return import_module(cal_key).get_aa(freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     '''Return the source catalog specified by cal_key, which should be the
@@ -38,6 +38,8 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
+    if cal_key is None: _get_catalog = src.get_catalog
+    else:
+        try: _get_catalog = import_module(cal_key).get_catalog
+        except(ImportError, AttributeError): _get_catalog = src.get_catalog
     return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From a75d5afa2455dd1affbe520f568b3d70692130fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 057/112] fix: phasing to several sources leaves the caller's
 arrays as they were

refract and resolve_src gave the ionref, mfreq and srcshape arrays passed to
gen_phs another axis in place; used again with another set of frequencies or
written out, they no longer had the shape they were made with.
---
 aipy/phs.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 997e097..3a29c15 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -362,7 +362,7 @@ class AntennaArray(ArrayLocation):
         a1,a2,th = srcshape
         try:
             if len(u.shape) > len(a1.shape):
-                a1.shape += (1,); a2.shape += (1,); th.shape += (1,)
+                a1,a2,th = [np.reshape(p, np.shape(p) + (1,)) for p in (a1,a2,th)]
         except(AttributeError): pass
         ru = a1 * (u*np.cos(th) - v*np.sin(th))
         rv = a2 * (u*np.sin(th) + v*np.cos(th))
@@ -382,12 +382,9 @@ class AntennaArray(ArrayLocation):
             freqs (f) along the 2nd."""
         dra,ddec = ionref
         s,f = u_sf.shape
-        try: dra.shape = (s,1)
-        except(AttributeError): pass
-        try: ddec.shape = (s,1)
-        except(AttributeError): pass
-        try: mfreq.shape = (s,1)
-        except(AttributeError): pass
+        if isinstance(dra, np.ndarray): dra = dra.reshape((s,1))
+        if isinstance(ddec, np.ndarray): ddec = ddec.reshape((s,1))
+        if isinstance(mfreq, np.ndarray): mfreq = mfreq.reshape((s,1))
         f2 = self.get_afreqs()**2 ; f2.shape = (1, f)
         return (dra*u_sf + ddec*v_sf) * mfreq**2 / f2
     def phs2src(self, data, src, i, j, mfreq=.150, ionref=None, srcshape=None):
-- 
2.43.0


From 2d0ccb39449f9e520719216808b0247a287b37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 058/112] fix: a source can be printed before it is computed

---
 aipy/amp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 7a6517b..2ba07f7 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -65,7 +65,8 @@ class RadioFixedBody(phs.RadioFixedBody, RadioBody):
         outstr += '\t'+str(self.mfreq)
         try: outstr = outstr +'\t'+ str(self.jys[0])
         except(AttributeError): outstr = outstr + '\t'
-        outstr += '\t'+str(self.afreqs[0])
+        try: outstr += '\t'+str(self.afreqs[0])
+        except(AttributeError): outstr += '\t'
         return outstr
     def compute(self, observer):
         phs.RadioFixedBody.compute(self, observer)
-- 
2.43.0


From fb5c06db063e901b81d1fc89456edaf0714a433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 059/112] fix: HealpixMap.from_alm does not smooth with the
 pixel window

It passed the scheme where to_map takes pixwin, and any non-empty string turned
the pixel window function on: the map was not the one the coefficients describe.
---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..f1f821b 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From 61fae55723ce99ce8efe32cd399eaca68d7e5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 060/112] fix: a RING map filled from a NEST map is still a
 RING map

nest_ring_conv changed the scheme of the map it was asked about, so from_hpm of
a map in the other scheme left pixels in one order labelled as the other.
---
 aipy/healpix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index f1f821b..8e84e0f 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -40,7 +40,6 @@ class HealpixBase(object):
         """Translate an array of pixel numbers to index data in the scheme specified in 'scheme' ('NEST' or 'RING').  Returns px."""
         mode = {'RING':healpy.nest2ring, 'NEST':healpy.ring2nest}
         if scheme != self._scheme: px = mode[scheme](self._nside, px)
-        self._scheme = scheme
         return px
     def set_nside_scheme(self, nside=None, scheme=None):
         """Adjust Nside and Scheme ('RING' or 'NEST')."""
-- 
2.43.0


From f41f6cf69f2f25523b94c5958fea04665ffbab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 061/112] fix: from_hpm gives the map it reads its
 interpolation setting back

---
 aipy/healpix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 8e84e0f..5cf19fb 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -267,6 +267,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From 75034885f0dae6f38a743886ee5d622b74d91ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 062/112] fix: each Antenna keeps its own gain parameters

pol.Antenna.set_params writes into its dicts of bp_r, bp_i and amp, which were
shared by all antennas made with the same dict.
---
 aipy/amp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 2ba07f7..0cc7466 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -5,6 +5,7 @@ Mostly, this means adding gain/amplitude information vs. frequency.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 import numpy as np
 import ephem
 from . import phs
@@ -235,9 +236,9 @@ class Antenna(phs.Antenna):
         pointing = antenna pointing (az,alt).  Default is zenith."""
         phs.Antenna.__init__(self, x,y,z, beam=beam, phsoff=phsoff)
         self.set_pointing(*pointing)
-        self.bp_r = bp_r
-        self.bp_i = bp_i
-        self.amp = amp
+        self.bp_r = copy.copy(bp_r)
+        self.bp_i = copy.copy(bp_i)
+        self.amp = copy.copy(amp)
         self._update_gain()
     def _update_gain(self):
         bp = np.polyval(self.bp_r, self.beam.afreqs) + \
-- 
2.43.0


From 38e151a4201b7cd80cb917ae86878ab24f747256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 063/112] fix: a write states its channel count when the stream
 last said another

---
 aipy/_miriad/mir/uvio.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 4977ba8..d135e2f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2139,6 +2139,16 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 /* Update the size of the variable, if necessary. */
 
   nchan = NUMCHAN(v);
+  if(n == nchan){
+    VARIABLE *c;
+
+/* The stream may have been told another size (by a write that failed after
+   that, or by the caller): state the size of this record again. */
+
+    c = uv_locvar(tno,counter);
+    if(c != NULL && c->type == H_INT && c->buf != NULL && *(int *)(c->buf) != n)
+      nchan = *(int *)(c->buf);
+  }
   if(n != nchan) uvputvri_c(tno,counter,&n,1);
 
 /* Write out the flagging info. */
-- 
2.43.0


From df604e14e09b22c2488f2ef888189036c617dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 064/112] fix: clean with stop_if_div=False returns once the
 score stops improving

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..710c71e 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -136,7 +136,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -231,7 +231,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -350,7 +350,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -463,7 +463,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
-- 
2.43.0


From ef0a5f77482efebed0b587a3e49cb51083d8d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 065/112] fix: clean raises MemoryError when it cannot keep its
 best model

---
 aipy/_deconv/deconv.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 710c71e..00f0cea 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -64,6 +64,11 @@ template<typename T> struct Clean {
         if (!stop_if_div) {
             best_mdl = (T *)malloc(dim1*dim2*sizeof(T));
             best_res = (T *)malloc(dim1*dim2*sizeof(T));
+            if (best_mdl == NULL || best_res == NULL) {
+                free(best_mdl); free(best_res);
+                PyErr_NoMemory();
+                return 0;
+            }
         }
         // Compute gain/phase of kernel
         for (int n1=0; n1 < dim1; n1++) {
@@ -171,6 +176,11 @@ template<typename T> struct Clean {
         if (!stop_if_div) {
             best_mdl = (T *)malloc(dim*sizeof(T));
             best_res = (T *)malloc(dim*sizeof(T));
+            if (best_mdl == NULL || best_res == NULL) {
+                free(best_mdl); free(best_res);
+                PyErr_NoMemory();
+                return 0;
+            }
         }
         // Compute gain/phase of kernel
         for (int n=0; n < dim; n++) {
@@ -266,6 +276,11 @@ template<typename T> struct Clean {
         if (!stop_if_div) {
             best_mdl = (T *)malloc(2*dim1*dim2*sizeof(T));
             best_res = (T *)malloc(2*dim1*dim2*sizeof(T));
+            if (best_mdl == NULL || best_res == NULL) {
+                free(best_mdl); free(best_res);
+                PyErr_NoMemory();
+                return 0;
+            }
         }
         // Compute gain/phase of kernel
         for (int n1=0; n1 < dim1; n1++) {
@@ -388,6 +403,11 @@ template<typename T> struct Clean {
         if (!stop_if_div) {
             best_mdl = (T *)malloc(2*dim*sizeof(T));
             best_res = (T *)malloc(2*dim*sizeof(T));
+            if (best_mdl == NULL || best_res == NULL) {
+                free(best_mdl); free(best_res);
+                PyErr_NoMemory();
+                return 0;
+            }
         }
         // Compute gain/phase of kernel
         for (int n=0; n < dim; n++) {
@@ -561,10 +581,12 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
             rv = Clean<long double>::clean_2d_c(res,ker,mdl,area,gain,maxiter,tol,stop_if_div,verb,pos_def);
         }
     } else {
+        Py_DECREF(res); Py_DECREF(ker); Py_DECREF(mdl);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
     Py_DECREF(res); Py_DECREF(ker); Py_DECREF(mdl);
+    if (PyErr_Occurred()) return NULL;
     return Py_BuildValue("i", rv);
 }
 
-- 
2.43.0


From efbc1d4e4bdfe7b104a84be59642163082814763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 066/112] fix: maxent_findvar estimates its variance, and is
 quiet when asked to be

---
 aipy/deconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..00989ea 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -208,14 +208,14 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=maxiter//4, lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
     else:
         if verbose: print('Using specified var=', var)
     while cl is None:
-        print(cnt)
+        if verbose: print(cnt)
         if cnt == -1: v = var
         else: v = var / (1.5**cnt)
         while cnt < 0 or v < var * (1.5**cnt):
-- 
2.43.0


From 6ce2fdb9c860425cbf20cae5ebc8da840c1eb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 067/112] fix: clean gives back its best model when the last
 one overflowed

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 00f0cea..17ff161 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -148,7 +148,7 @@ template<typename T> struct Clean {
             argmax1 = nargmax1; argmax2 = nargmax2;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n1=0; n1 < dim1; n1++) {
                 for (int n2=0; n2 < dim2; n2++) {
                     IND2(mdl,n1,n2,T) = best_mdl[n1*dim2+n2];
@@ -248,7 +248,7 @@ template<typename T> struct Clean {
             argmax = nargmax;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n=0; n < dim; n++) {
                 IND1(mdl,n,T) = best_mdl[n];
                 IND1(res,n,T) = best_res[n];
@@ -372,7 +372,7 @@ template<typename T> struct Clean {
             argmax1 = nargmax1; argmax2 = nargmax2;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n1=0; n1 < dim1; n1++) {
                 for (int n2=0; n2 < dim2; n2++) {
                     CIND2R(mdl,n1,n2,T) = best_mdl[2*(n1*dim2+n2)+0];
@@ -490,7 +490,7 @@ template<typename T> struct Clean {
             argmax = nargmax;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n=0; n < dim; n++) {
                 CIND1R(mdl,n,T) = best_mdl[2*n+0];
                 CIND1I(mdl,n,T) = best_mdl[2*n+1];
-- 
2.43.0


From 2107bcbba7b1cff15408c19ca47d95524734afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 068/112] fix: a clone cut short while being closed never loses
 its flags silently

---
 aipy/miriad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 99ce87f..55ece1d 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -266,7 +266,8 @@ class UV(_miriad.UV):
         turned off (meaning they will not be updated in pipe()).  Those in
         exclude are omitted completely."""
         for k in uv.items():
-            if k in exclude: continue
+            # A data set that has a vartable can be opened: it gets its own when closed
+            if k in exclude or k == 'vartable': continue
             elif k in override: self._wrhd(k, override[k])
             else: self._wrhd(k, uv[k])
         self.vartable = {}
-- 
2.43.0


From 33347e1133c81c29dc786d8605a6b5429018ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 069/112] fix: uv_selector applies the polarization when all
 antennas are asked for

---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..8b0d24b 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -111,6 +111,8 @@ def uv_selector(uv, ants=-1, pol_str=-1):
     string for polarization ('xx','yy','xy','yx')."""
     if ants != -1:
         if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    else: ants = []
+    if len(ants) > 0:
         for cnt,(bl,include,pol) in enumerate(ants):
             if cnt > 0:
                 if include: uv.select('or',-1,-1)
-- 
2.43.0


From 391393b985e531122d4cf98945071e0006eb8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 070/112] fix: Img.put takes a single datum, and is refused
 before any of it is gridded

---
 aipy/img.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..eb1fd13 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -115,6 +115,13 @@ class Img:
         u = np.where(u < self.shape[0]//2, u, u - self.shape[0])
         v = np.where(v < self.shape[1]//2, v, v - self.shape[1])
         return u*self.res, v*self.res
+    def _wgt_list(self, wgts):
+        """Return wgts (possibly one bare array, if there is only one beam
+        term) as a new list of one array per beam term."""
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
+        assert(len(wgts) == len(self.bm))
+        return list(wgts)
     def put(self, uvw, data, wgts=None, apply=True):
         """Grid uv data (w is ignored) onto a UV plane.  Data should already
         have the phase due to w removed.  Assumes the Hermitian conjugate
@@ -128,8 +135,13 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
-        assert(len(wgts) == len(self.bm))
+        wgts = self._wgt_list(wgts)
+        data = data.astype(self.uv.dtype)
+        wgts = [wgt.astype(bm.dtype) for wgt,bm in zip(wgts, self.bm)]
+        # Refuse bad input before any of it is gridded
+        for d in [data] + wgts:
+            if not d.shape == u.shape == v.shape:
+                raise ValueError('Dimensions of uvw, data and wgts do not match')
         if apply: uv,bm = self.uv,self.bm
         else:
             uv = np.zeros_like(self.uv)
@@ -141,17 +153,17 @@ class Img:
                 np.abs(inds[:,1]) < self.shape[1])
             data = data.compress(ok)
             inds = inds.compress(ok, axis=0)
-            utils.add2array(uv, inds, data.astype(uv.dtype))
+            utils.add2array(uv, inds, data)
         else:
             u,v = self.get_indices(u,v)
-            _dsp.grid2D_c(uv, u, v, data.astype(uv.dtype))
+            _dsp.grid2D_c(uv, u, v, data)
 
         for i,wgt in enumerate(wgts):
             if not USEDSP:
                 wgt = wgt.compress(ok)
-                utils.add2array(bm[i], inds, wgt.astype(bm[0].dtype))
+                utils.add2array(bm[i], inds, wgt)
             else:
-                _dsp.grid2D_c(bm[i], u, v, wgt.astype(bm[0].dtype))
+                _dsp.grid2D_c(bm[i], u, v, wgt)
         if not apply: return uv, bm
     def get(self, uvw, uv=None, bm=None):
         """Generate data as would be observed at the provided (u,v,w) based on
-- 
2.43.0


From bc2df5b623438c0c9515d231add198ad37ff35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 071/112] fix: append_hermitian leaves the weights of its
 caller alone

---
 aipy/img.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index eb1fd13..6348c8f 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -196,9 +196,7 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
-        assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in self._wgt_list(wgts)]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
-- 
2.43.0


From 996255a98e0a24320d76b766103d4b735ad11119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 072/112] fix: ImgW takes and gives a single datum

---
 aipy/img.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 6348c8f..27c7af9 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -250,8 +250,7 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
-        assert(len(wgts) == len(self.bm))
+        wgts = self._wgt_list(wgts)
         # Sort uvw in order of w
         order = np.argsort(w)
         u = u.take(order)
@@ -283,7 +282,7 @@ class ImgW(Img):
     def get(self, uvw):
         u,v,w = uvw
         order = np.argsort(w.flat)
-        u_,v_,w_ = u.take(order).squeeze(), v.take(order).squeeze(), w.take(order).squeeze()
+        u_,v_,w_ = u.take(order), v.take(order), w.take(order)
         sqrt_w = np.sqrt(np.abs(w_)) * np.sign(w_)
         i, d_ = 0, []
         while True:
-- 
2.43.0


From 0f6e5466b63e6aab16da3cb155e16c29e0420c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 073/112] fix: ImgW.get sees what was put since it was last
 called

---
 aipy/img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/img.py b/aipy/img.py
index 27c7af9..5ad6af1 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -259,6 +259,7 @@ class ImgW(Img):
         data = data.take(order)
         wgts = [wgt.take(order) for wgt in wgts]
         sqrt_w = np.sqrt(np.abs(w)) * np.sign(w)
+        self.wcache = {} # planes projected from what was here before
         i = 0
         while True:
             # Grab a chunk of uvw's that grid w to same point.
-- 
2.43.0


From 32e6cfa22b19745b104bb65613545f6312bc7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 074/112] fix: grids which are not square are indexed by their
 own row length

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From a1ebe0bcfd311d90fc19b9ba986de8403c54ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 075/112] fix: gridding refuses arrays whose layout it would
 misread

---
 aipy/_dsp/dsp.c | 11 +++++++++++
 aipy/_dsp/dsp.h |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..c01ada6 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -14,8 +14,11 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_RANK(ind, 1);
     CHK_ARRAY_RANK(dat, 1);
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(buf, NPY_ARRAY_CARRAY);
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
+    CHK_ARRAY_LAYOUT(ind, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(dat, NPY_ARRAY_CARRAY_RO);
     if (PyArray_DIM(ind,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -52,9 +55,13 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_RANK(ind2, 1);
     CHK_ARRAY_RANK(dat, 1);
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(buf, NPY_ARRAY_CARRAY);
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
+    CHK_ARRAY_LAYOUT(ind1, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
+    CHK_ARRAY_LAYOUT(ind2, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(dat, NPY_ARRAY_CARRAY_RO);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -93,9 +100,13 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_RANK(ind2, 1);
     CHK_ARRAY_RANK(dat, 1);
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(buf, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
+    CHK_ARRAY_LAYOUT(ind1, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
+    CHK_ARRAY_LAYOUT(ind2, NPY_ARRAY_CARRAY_RO);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_LAYOUT(dat, NPY_ARRAY_CARRAY);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..ccdec4e 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -11,6 +11,11 @@
         PyErr_Format(PyExc_ValueError, "type(%s) != %s", \
         QUOTE(a), QUOTE(type)); \
         return NULL; }
+#define CHK_ARRAY_LAYOUT(a,flags) \
+    if (!PyArray_CHKFLAGS(a, flags) || !PyArray_ISNOTSWAPPED(a)) { \
+        PyErr_Format(PyExc_ValueError, "layout(%s) != %s", \
+        QUOTE(a), QUOTE(flags)); \
+        return NULL; }
 #define CHK_ARRAY_DIM(a,i,d) \
     if (PyArray_DIM(a,i) != d) { \
         PyErr_Format(PyExc_ValueError, "dim(%s) != %s", \
-- 
2.43.0


From c751f5af43a255df65535f99e439a866c7fbe47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 076/112] fix: images are written to FITS files

---
 aipy/img.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 5ad6af1..d2eaf99 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -401,7 +401,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename,phdu.data,phdu.header,overwrite=clobber)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
@@ -493,9 +493,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
@@ -505,4 +505,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
-- 
2.43.0


From e16ffced03343e0ca3511881586c57e52cbe913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 077/112] fix: sky maps are written to and read from FITS files

---
 aipy/healpix.py | 22 ++++++++++------------
 aipy/map.py     |  4 ++--
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 5cf19fb..3d106a3 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -294,21 +294,19 @@ class HealpixMap(HealpixBase):
         """Read a HealpixMap from the specified location in a fits file."""
         hdu = pyfits.open(filename)[hdunum]
         data = hdu.data.field(colnum)
-        if not data.dtype.isnative:
-            data.dtype = data.dtype.newbyteorder()
-            data.byteswap(True)
+        data = data.astype(data.dtype.newbyteorder('='))
         scheme= hdu.header['ORDERING'][:4]
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -320,7 +318,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename,overwrite=clobber)
diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..62a97f0 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -151,7 +151,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -164,4 +164,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From d57ca77f70b8b149fc7d3e639af63bee8994826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 078/112] fix: a Map read from a file has the spectral indices
 of the file only

---
 aipy/map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 62a97f0..d600cee 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -138,10 +138,12 @@ class Map(object):
             nind += 1
         del(hdu)
         # Make a spectral index HPM for each additional col in fits file
+        inds = []
         for i in range(nind):
             h = healpix.HealpixMap(*self.args, **self.kwargs)
             h.from_fits(filename, hdunum=hdunum, colnum=2+i)
-            self.ind.append(h)
+            inds.append(h)
+        self.ind = inds
     def to_fits(self, filename, format=None, clobber=False,history=''):
         if format is None:
             format = healpix.default_fits_format_codes[self.get_dtype().type]
-- 
2.43.0


From 4e8763cf136fbceeccf303d5a177283285d74a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 079/112] fix: Map.add adds once to what is in a pixel however
 often it is named

---
 aipy/healpix.py | 9 +++++++++
 aipy/map.py     | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 3d106a3..24de392 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -234,6 +234,15 @@ class HealpixMap(HealpixBase):
             else: px = self.crd2px(*crd)
         else: px = mk_arr(crd, dtype=np.int64)
         return self.map[px]
+    def add(self, crd, val):
+        """Add val to the pixels at crd (as in hpm[crd] = val), adding the
+        sum of values where coordinates are repeated."""
+        if type(crd) is tuple:
+            px = self.crd2px(*[mk_arr(c, dtype=np.double) for c in crd])
+        else: px = mk_arr(crd, dtype=np.int64)
+        data = self.map.copy()
+        np.add.at(data, px, np.asarray(val).astype(data.dtype))
+        self.map = data
     def __setitem__(self, crd, val):
         """Assign data to a sphere via hpm[crd] = val.  Functionality slightly
         complicated to make repeat coordinates assign sum of values (i.e.
diff --git a/aipy/map.py b/aipy/map.py
index d600cee..5ea593c 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -99,9 +99,9 @@ class Map(object):
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        self.wgt.add(crds, wgts)
+        self.map.add(crds, fluxes * wgts)
+        for n,i in enumerate(inds): self.ind[n].add(crds, i * wgts)
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From 88c6e93dd35f26ae94535c81b22c20d7084c48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 080/112] fix: Map.reset_wgt keeps the averages whatever the
 weight is reset to

---
 aipy/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 5ea593c..00fec5f 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -108,8 +108,9 @@ class Map(object):
         for n,i in enumerate(inds): self.ind[n][crds] = i * wgts
     def reset_wgt(self, wgt=1):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
-        self.map.map /= w
-        for i in self.ind: i.map /= w
+        w = np.where(self.wgt.map > 0, wgt / w, 1)
+        self.map.map *= w
+        for i in self.ind: i.map *= w
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
     def from_map(self, map):
         """Initialize this Map with data from another."""
-- 
2.43.0


From cb0921155de41db84a2442ed17f65ed9d2828a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 081/112] fix: a Map can be copied and pickled

---
 aipy/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 00fec5f..82059dd 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -119,8 +119,8 @@ class Map(object):
         for i in range(min(len(self.ind), len(map.ind))):
             self.ind[i].from_hpm(map.ind[i])
     def __getattr__(self, attr):
-        try: object.__getatr__(self, attr)
-        except(AttributeError): return self.map.__getattribute__(attr)
+        if attr == 'map': raise AttributeError(attr) # not set (yet)
+        return self.map.__getattribute__(attr)
     def from_fits(self, filename, hdunum=1):
         self.map.from_fits(filename, hdunum=hdunum, colnum=0)
         self.args = ()
-- 
2.43.0


From 0a9a87d59666ff47445e2e8dab5a7f9e41b47679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 082/112] fix: the signal, weights and indices of a Map are
 ordered and interpolated alike

---
 aipy/map.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 82059dd..ad47577 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -84,7 +84,10 @@ class Map(object):
         if nindices is None: return
         self.ind = self.ind[:nindices]
         for i in range(nindices - len(self.ind)):
-            self.ind.append(healpix.HealpixMap(*self.args, **self.kwargs))
+            h = healpix.HealpixMap(*self.args, **self.kwargs)
+            if h.scheme() != self.scheme(): h.change_scheme(self.scheme())
+            h.set_interpol(self.map._use_interpol)
+            self.ind.append(h)
     def get(self, crds):
         fluxes = self.map[crds]
         wgts = self.wgt[crds]
@@ -112,6 +115,9 @@ class Map(object):
         self.map.map *= w
         for i in self.ind: i.map *= w
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+    def change_scheme(self, scheme):
+        """Reorder the pixels of all maps to be "RING" or "NEST" ordering."""
+        for h in [self.map, self.wgt] + self.ind: h.change_scheme(scheme)
     def from_map(self, map):
         """Initialize this Map with data from another."""
         self.map.from_hpm(map.map)
-- 
2.43.0


From c41eeffcb9840bad345d20d369cb77302a8d6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 083/112] fix: facet_centers works for more than one facet

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index ad47577..f733100 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += ((N.astype('int64') >> bit) & 1) << (nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From 72bb4c9ccd5c6d44aaed758b077dc1ad85227d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 084/112] fix: facet_centers does not depend on what else uses
 random numbers

---
 aipy/map.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index f733100..7dbff2f 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -11,9 +11,6 @@ try:
 except ImportError:
     import pyfits
 
-# Set a fixed random seed to make scrambling deterministic
-random.seed(1)
-
 deg2rad = np.pi / 180.
 rad2deg = 180. / np.pi
 
@@ -47,9 +44,11 @@ def _bit_reverse_order(N):
 def _local_shuffle(L, width=2):
     """Shuffle elements of L without moving them too much by choosing chunks
     of the specified width and only scrambling elements within those chunks."""
+    # Set a fixed random seed to make scrambling deterministic
+    rng = random.Random(1)
     for i in range(int(np.ceil(len(L) / float(width)))):
         chunk = L[width*i:width*(i+1)]
-        random.shuffle(chunk)
+        rng.shuffle(chunk)
         L[width*i:width*(i+1)] = chunk
 
 def facet_centers(N, ncrd=2):
-- 
2.43.0


From 6133fddf7c1939955b4e5bdb0ad3e62742c6b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 085/112] fix: Map.reset_wgt does not turn weights into
 integers

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 7dbff2f..b03b82b 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -113,7 +113,7 @@ class Map(object):
         w = np.where(self.wgt.map > 0, wgt / w, 1)
         self.map.map *= w
         for i in self.ind: i.map *= w
-        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0).astype(self.wgt.get_dtype())
     def change_scheme(self, scheme):
         """Reorder the pixels of all maps to be "RING" or "NEST" ordering."""
         for h in [self.map, self.wgt] + self.ind: h.change_scheme(scheme)
-- 
2.43.0


From f294e4e6ab5606d0ed1cf3fd7a5232549ffa7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 086/112] fix: weights made up for a map read from a file are
 ordered like the map

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index b03b82b..6690098 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -134,7 +134,7 @@ class Map(object):
             self.wgt.from_fits(filename, hdunum=hdunum, colnum=1)
         except(IndexError):
             self.wgt = healpix.HealpixMap(*self.args, **self.kwargs)
-            self.wgt.set_map(np.ones_like(self.wgt.map))
+            self.wgt.set_map(np.ones_like(self.wgt.map), scheme=self.scheme())
         # Figure out how many cols there are (is there a better way?)
         hdu = pyfits.open(filename)[hdunum]
         nind = 0
-- 
2.43.0


From edddbf87bed4d637d14af00160e7d39d865bff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 087/112] fix: add2array refuses arrays it would misread and
 indices which only wrap into range

---
 aipy/utils/utils.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..26e01c3 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -93,14 +93,19 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
     CHK_ARRAY_DIM(ind, 1, RANK(a));
     CHK_ARRAY_TYPE(ind, NPY_LONG);
+    if (!PyArray_ISBEHAVED(a) || !PyArray_ISBEHAVED_RO(ind) ||
+            !PyArray_ISBEHAVED_RO(data)) {
+        PyErr_Format(PyExc_ValueError, "Arrays must be aligned, in native byte order, and writable to be added to.");
+        return NULL;
+    }
     if (TYPE(a) != TYPE(data)) {
-        printf("%d %d\n", TYPE(a), TYPE(data));
         PyErr_Format(PyExc_ValueError, "type(%s) != type(%s)",
         QUOTE(a), QUOTE(data));
         return NULL;
-- 
2.43.0


From f5fed47656bc2f9e9cd288da2dfc99c18bae956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 088/112] fix: HealpixMap pixels are set whatever the byte
 order of the map

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 24de392..ad34417 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -259,7 +259,7 @@ class HealpixMap(HealpixBase):
             if type(val) is np.ndarray: val = mk_arr(val, dtype=self.map.dtype)
             self.map[px] = val
         else:
-            m = np.zeros_like(self.map)
+            m = np.zeros(self.map.shape, dtype=self.map.dtype.newbyteorder('='))
             px = px.reshape(px.size,1)
             cnt = np.zeros(self.map.shape, dtype=np.bool_)
             val = mk_arr(val, dtype=m.dtype)
-- 
2.43.0


From 6653851b637f373b6c951a35f8a02d7d0eac836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 089/112] fix: from_hpm which fails gives the map it reads its
 interpolation setting back, too

---
 aipy/healpix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index ad34417..c773728 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -272,11 +272,12 @@ class HealpixMap(HealpixBase):
         scheme if necessary."""
         if hpm.nside() < self.nside():
             interpol = hpm._use_interpol
-            hpm.set_interpol(True)
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
-            self[px] = hpm[th,phi].astype(self.get_dtype())
-            hpm.set_interpol(interpol)
+            try:
+                hpm.set_interpol(True)
+                self[px] = hpm[th,phi].astype(self.get_dtype())
+            finally: hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From 2815c7d083e2d1bf47b97f15c01010bb8162f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 090/112] fix: a source catalogue whose file could not be read
 is read when it is next asked for, not taken to be empty

---
 aipy/_src/culgoora.py | 5 +++--
 aipy/_src/four_c.py   | 5 +++--
 aipy/_src/gbsix.py    | 5 +++--
 aipy/_src/helm.py     | 5 +++--
 aipy/_src/mrt.py      | 5 +++--
 aipy/_src/nvss.py     | 5 +++--
 aipy/_src/paper.py    | 5 +++--
 aipy/_src/parkes.py   | 5 +++--
 aipy/_src/seven_c.py  | 5 +++--
 aipy/_src/six_c.py    | 5 +++--
 aipy/_src/three_c.py  | 5 +++--
 aipy/_src/three_cr.py | 5 +++--
 aipy/_src/txs.py      | 5 +++--
 aipy/_src/vlss.py     | 5 +++--
 aipy/_src/wenss.py    | 5 +++--
 15 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/aipy/_src/culgoora.py b/aipy/_src/culgoora.py
index ce14442..dd55619 100644
--- a/aipy/_src/culgoora.py
+++ b/aipy/_src/culgoora.py
@@ -70,8 +70,9 @@ _culgooracat = None
 def get_srcs(srcs=None, cutoff=None):
     global _culgooracat
     if _culgooracat is None:
-        _culgooracat = CulgooraCatalog()
-        _culgooracat.fromfile(CULGOORAFILE)
+        cat = CulgooraCatalog()
+        cat.fromfile(CULGOORAFILE)
+        _culgooracat = cat
     if srcs is None:
         if cutoff is None: srcs = _culgooracat.keys()
         else:
diff --git a/aipy/_src/four_c.py b/aipy/_src/four_c.py
index d2d94f8..437b879 100644
--- a/aipy/_src/four_c.py
+++ b/aipy/_src/four_c.py
@@ -41,8 +41,9 @@ _fourccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _fourccat
     if _fourccat is None:
-        _fourccat = FourCCatalog()
-        _fourccat.fromfile(FOURCFILE)
+        cat = FourCCatalog()
+        cat.fromfile(FOURCFILE)
+        _fourccat = cat
     if srcs is None:
         if cutoff is None: srcs = _fourccat.keys()
         else:
diff --git a/aipy/_src/gbsix.py b/aipy/_src/gbsix.py
index 08e107b..ff5a1e7 100644
--- a/aipy/_src/gbsix.py
+++ b/aipy/_src/gbsix.py
@@ -40,8 +40,9 @@ _gbsixcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _gbsixcat
     if _gbsixcat is None:
-        _gbsixcat = GBSixCatalog()
-        _gbsixcat.fromfile(GBSIXFILE)
+        cat = GBSixCatalog()
+        cat.fromfile(GBSIXFILE)
+        _gbsixcat = cat
     if srcs is None:
         if cutoff is None: srcs = _gbsixcat.keys()
         else:
diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..3fffd52 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -114,8 +114,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _helmcat
     if _helmcat is None:
-        _helmcat = HelmboldtCatalog()
-        _helmcat.fromfile(POSFILE, FITFILE)
+        cat = HelmboldtCatalog()
+        cat.fromfile(POSFILE, FITFILE)
+        _helmcat = cat
     if srcs is None:
         if cutoff is None: srcs = _helmcat.keys()
         else:
diff --git a/aipy/_src/mrt.py b/aipy/_src/mrt.py
index cf4369f..10ae872 100644
--- a/aipy/_src/mrt.py
+++ b/aipy/_src/mrt.py
@@ -31,8 +31,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _mrtcat
     if _mrtcat is None:
-        _mrtcat = MRTCatalog()
-        _mrtcat.fromfile(MRTFILE)
+        cat = MRTCatalog()
+        cat.fromfile(MRTFILE)
+        _mrtcat = cat
     if srcs is None:
         if cutoff is None: srcs = _mrtcat.keys()
         else:
diff --git a/aipy/_src/nvss.py b/aipy/_src/nvss.py
index 4f5ce97..c8c9685 100644
--- a/aipy/_src/nvss.py
+++ b/aipy/_src/nvss.py
@@ -41,8 +41,9 @@ _nvsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _nvsscat
     if _nvsscat is None:
-        _nvsscat = NVSSCatalog()
-        _nvsscat.fromfile(NVSSFILE)
+        cat = NVSSCatalog()
+        cat.fromfile(NVSSFILE)
+        _nvsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _nvsscat.keys()
         else:
diff --git a/aipy/_src/paper.py b/aipy/_src/paper.py
index 716efc0..7dac393 100644
--- a/aipy/_src/paper.py
+++ b/aipy/_src/paper.py
@@ -34,8 +34,9 @@ _papercat = None
 def get_srcs(srcs=None, cutoff=None):
     global _papercat
     if _papercat is None:
-        _papercat = PAPERCatalog()
-        _papercat.fromfile(PAPERFILE)
+        cat = PAPERCatalog()
+        cat.fromfile(PAPERFILE)
+        _papercat = cat
     if srcs is None:
         if cutoff is None: srcs = _papercat.keys()
         else:
diff --git a/aipy/_src/parkes.py b/aipy/_src/parkes.py
index b6b8e6b..157e6d1 100644
--- a/aipy/_src/parkes.py
+++ b/aipy/_src/parkes.py
@@ -42,8 +42,9 @@ _parkescat = None
 def get_srcs(srcs=None, cutoff=None):
     global _parkescat
     if _parkescat is None:
-        _parkescat = ParkesCatalog()
-        _parkescat.fromfile(PARKESFILE)
+        cat = ParkesCatalog()
+        cat.fromfile(PARKESFILE)
+        _parkescat = cat
     if srcs is None:
         if cutoff is None: srcs = _parkescat.keys()
         else:
diff --git a/aipy/_src/seven_c.py b/aipy/_src/seven_c.py
index 39e5929..39fac83 100644
--- a/aipy/_src/seven_c.py
+++ b/aipy/_src/seven_c.py
@@ -41,8 +41,9 @@ _sevenccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sevenccat
     if _sevenccat is None:
-        _sevenccat = SevenCCatalog()
-        _sevenccat.fromfile(SEVENCFILE)
+        cat = SevenCCatalog()
+        cat.fromfile(SEVENCFILE)
+        _sevenccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sevenccat.keys()
         else:
diff --git a/aipy/_src/six_c.py b/aipy/_src/six_c.py
index da01330..71fe693 100644
--- a/aipy/_src/six_c.py
+++ b/aipy/_src/six_c.py
@@ -43,8 +43,9 @@ _sixccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sixccat
     if _sixccat is None:
-        _sixccat = SixCCatalog()
-        for f in SIXCFILES: _sixccat.fromfile(f)
+        cat = SixCCatalog()
+        for f in SIXCFILES: cat.fromfile(f)
+        _sixccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sixccat.keys()
         else:
diff --git a/aipy/_src/three_c.py b/aipy/_src/three_c.py
index fe66bc4..0d17388 100644
--- a/aipy/_src/three_c.py
+++ b/aipy/_src/three_c.py
@@ -41,8 +41,9 @@ _threeccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threeccat
     if _threeccat is None:
-        _threeccat = ThreeCCatalog()
-        _threeccat.fromfile(THREECFILE)
+        cat = ThreeCCatalog()
+        cat.fromfile(THREECFILE)
+        _threeccat = cat
     if srcs is None:
         if cutoff is None: srcs = _threeccat.keys()
         else:
diff --git a/aipy/_src/three_cr.py b/aipy/_src/three_cr.py
index d8bf1ee..72d414d 100644
--- a/aipy/_src/three_cr.py
+++ b/aipy/_src/three_cr.py
@@ -41,8 +41,9 @@ _threecrcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threecrcat
     if _threecrcat is None:
-        _threecrcat = ThreeCRCatalog()
-        _threecrcat.fromfile(THREECRFILE)
+        cat = ThreeCRCatalog()
+        cat.fromfile(THREECRFILE)
+        _threecrcat = cat
     if srcs is None:
         if cutoff is None: srcs = _threecrcat.keys()
         else:
diff --git a/aipy/_src/txs.py b/aipy/_src/txs.py
index 28c378b..2071671 100644
--- a/aipy/_src/txs.py
+++ b/aipy/_src/txs.py
@@ -43,8 +43,9 @@ _txscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _txscat
     if _txscat is None:
-        _txscat = TXSCatalog()
-        _txscat.fromfile(TXSFILE)
+        cat = TXSCatalog()
+        cat.fromfile(TXSFILE)
+        _txscat = cat
     if srcs is None:
         if cutoff is None: srcs = _txscat.keys()
         else:
diff --git a/aipy/_src/vlss.py b/aipy/_src/vlss.py
index b5bcaba..3034546 100644
--- a/aipy/_src/vlss.py
+++ b/aipy/_src/vlss.py
@@ -41,8 +41,9 @@ _vlsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _vlsscat
     if _vlsscat is None:
-        _vlsscat = VLSSCatalog()
-        _vlsscat.fromfile(VLSSFILE)
+        cat = VLSSCatalog()
+        cat.fromfile(VLSSFILE)
+        _vlsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _vlsscat.keys()
         else:
diff --git a/aipy/_src/wenss.py b/aipy/_src/wenss.py
index df0b763..06ffe06 100644
--- a/aipy/_src/wenss.py
+++ b/aipy/_src/wenss.py
@@ -41,8 +41,9 @@ _wensscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _wensscat
     if _wensscat is None:
-        _wensscat = WenssCatalog()
-        _wensscat.fromfile(WENSSFILE)
+        cat = WenssCatalog()
+        cat.fromfile(WENSSFILE)
+        _wensscat = cat
     if srcs is None:
         if cutoff is None: srcs = _wensscat.keys()
         else:
-- 
2.43.0


From 83422c049767ce33b4d5aff38cf131b850960824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 091/112] fix: a Helmboldt catalogue which is read twice, or
 again after a failure, lists each measurement once

---
 aipy/_src/helm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 3fffd52..daf2bb3 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -65,6 +65,7 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
         return self.ncomp
     def fromfile(self, posfile, fitfile):
         srcs = {}
+        metadata = {}
         rms = {}
         ncomp = {}
         # Read RA/DEC
@@ -72,10 +73,10 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
         for line in srclines:
             srcname = line[:9]
             srcs[srcname] = line[35:57]
-            if srcname not in self.ncomp: self.ncomp[srcname] = int(line[33])
-            if srcname not in self.metadata: self.metadata[srcname] = []
+            if srcname not in ncomp: ncomp[srcname] = int(line[33])
+            if srcname not in metadata: metadata[srcname] = []
             md = (float(line[58:64])/1e3,float(line[65:73]),float(line[74:81]))
-            self.metadata[srcname].append(md)
+            metadata[srcname].append(md)
         for s in srcs:
             ra = srcs[s][:10].strip().replace(' ',':')
             dec = srcs[s][11:].strip().replace(' ',':')
@@ -84,8 +85,8 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
         srclines = [L for L in open(fitfile).readlines() if L.startswith('J')]
         for line in srclines:
             srcs[line[:9]].append(list(map(float, line[13:62].split())))
-            try: self.rms[line[:9]] = float(line[63:70])
-            except(ValueError): self.rms[line[:9]]=-1
+            try: rms[line[:9]] = float(line[63:70])
+            except(ValueError): rms[line[:9]]=-1
 
         addsrcs = []
         for s in srcs:
@@ -104,6 +105,9 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
             addsrcs.append(srctype(ra, dec, name=s,
                 jys=jys, index=index, mfreq=.074))
         self.add_srcs(addsrcs)
+        self.metadata.update(metadata)
+        self.rms.update(rms)
+        self.ncomp.update(ncomp)
 
 FITFILE = os.path.join(os.path.dirname(__file__), 'helm_fit.txt')
 POSFILE = os.path.join(os.path.dirname(__file__), 'helm_pos.txt')
-- 
2.43.0


From b37c0dd23b9f09d612f4e2b73a80a1191c76669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 092/112] fix: HelmboldtFixedBody.get_params() without a list
 returns every parameter, as other sources do

---
 aipy/_src/helm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index daf2bb3..d43610c 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
-- 
2.43.0


From 3326d190b48ef961e8adb0e33b109eb57e7f2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 093/112] fix: a 16-bit record after a failed write of a
 smaller one is not written past its buffer

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d135e2f..f7f6a15 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2165,7 +2165,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   } else if(v->type == H_CMPLX) {
     uvputvrc_c(tno,v->name,data,n);
   } else {
-    if(v->length != 2*n*H_INT2_SIZE)
+    if(2*n*H_INT2_SIZE > v->length)
       v->buf = Realloc(v->buf,2*n*sizeof(int));
     maxval = 0;
     p = (float *)data;
-- 
2.43.0


From f3cda2c8deefb9cef1e37e6af78bfe1561778499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 094/112] fix: a read which fails does not leave its arrays
 behind

---
 aipy/_miriad/miriad_wrap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 0e768e8..89cd83e 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -134,6 +134,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
                      (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), n2read, &nread);
         } catch (MiriadError &e) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+            Py_DECREF(data); Py_DECREF(flags);
             return NULL;
         }
         // What changed in a record dropped below has changed for the caller
-- 
2.43.0


From 81ed9b667d2e82f5c44c66034d842f7895a949ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 095/112] fix: a cleared selection no longer limits the
 visibility numbers which are read

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index f7f6a15..4a73bcf 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -4021,7 +4021,7 @@ private void uvread_init(int tno)
     
 /* Determine the max visibility that the user is interested in. */
 
-  if(uv->select != NULL) uv->maxvis = uvread_maxvis(uv->select);
+  uv->maxvis = uvread_maxvis(uv->select);
 
 /* Everything is there: do not do this again. */
 
-- 
2.43.0


From 3f8417036390c96e0ebd6f674628483d732dd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 096/112] fix: names which are not ASCII do not lead outside
 the tables of data sets, items and variables

---
 aipy/_miriad/mir/hio.c  | 4 ++--
 aipy/_miriad/mir/uvio.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 0392f9a..8679684 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1649,7 +1649,7 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
   if(nitem >= MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
   hash = nitem++;
-  while(*s) hash += *s++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXITEM;
 
 /* Find a slot in the list of addresses, and allocate it. */
@@ -1698,7 +1698,7 @@ private TREE *hcreate_tree_c(char *name)
   if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
   hash = ntree++;
-  while(*s) hash += *s++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXOPEN;
 
 /* Find a slot in the list of addresses, and allocate it. */
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 4a73bcf..bebce96 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1288,7 +1288,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* Add it to the hash table. */
 
   hashval = 0;
-  while(*name)hashval += *name++;
+  while(*name)hashval += (unsigned char)*name++;
   hashval %= HASHSIZE;
   v->fwd = uv->vhash[hashval];
   uv->vhash[hashval] = v;
@@ -1306,7 +1306,7 @@ private VARIABLE *uv_locvar(int tno,char *name)
   char *s;
 
   hashval = 0;
-  for(s=name; *s; s++) hashval += *s;
+  for(s=name; *s; s++) hashval += (unsigned char)*s;
 
   for(v = uvs[tno]->vhash[hashval%HASHSIZE]; v != NULL; v = v->fwd)
 	if(!strcmp(v->name,name))break;
-- 
2.43.0


From 9a837b61ae8e6aea519f2a57f3bae287d0f15f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 097/112] fix: long names of data sets and variables do not
 overflow the buffer of error messages

---
 aipy/_miriad/mir/uvio.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index bebce96..2fd0925 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -262,6 +262,7 @@
 
 #include <Python.h>
 #include <stdio.h>
+#include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -326,8 +327,8 @@
 /*----------------------------------------------------------------------*/
 
 #define BUG(sev,a)   bug_c(sev,a)
-#define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
-#define CHECK(x,a) if(x) {  bug_c('w',((void)sprintf a,message)); \
+#define ERROR(sev,a) bug_c(sev,(format_message a,message))
+#define CHECK(x,a) if(x) {  bug_c('w',(format_message a,message)); \
 			    bugno_c('f',x);			 \
 			 }
 
@@ -360,6 +361,7 @@
 /*----------------------------------------------------------------------*/
 
 static char message[MAXLINE];
+static void format_message(char *buf,Const char *format,...);
 static int internal_size[10];
 static int external_size[10];
 static char type_flag[10];
@@ -1257,6 +1259,19 @@ private void uv_vartable_in(UV *uv)
   uv->saved_nvar = uv->nvar;
 }
 /************************************************************************/
+static void format_message(char *buf,Const char *format,...)
+/*
+  Write an error message into a buffer of MAXLINE characters. What does not
+  fit (names can be of any length) is cut off.
+------------------------------------------------------------------------*/
+{
+  va_list ap;
+
+  va_start(ap,format);
+  (void)vsnprintf(buf,MAXLINE,format,ap);
+  va_end(ap);
+}
+/************************************************************************/
 private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /*
   Add an entry for a new variable.
-- 
2.43.0


From c260cbde51ca25a5bee0fa3b2a9c0138300b305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 098/112] fix: a path too long for the buffers of the miriad
 library is refused

---
 aipy/_miriad/mir/dio.c | 7 ++++++-
 aipy/_miriad/mir/hio.c | 2 +-
 aipy/_miriad/mir/hio.h | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 055960d..657861b 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -49,7 +49,8 @@
 
 #include "miriad.h"
 
-#define MAXPATH 1024
+#define MAXPATH 4096
+#define MAXITEMNAME 258	/* The longest file name, two slashes and the end */
 
 #ifndef NULL
 #  define NULL 0
@@ -87,6 +88,10 @@ void dtrans_c(char *inpath,char *outpath,int *iostat)
 {
   char *s;
 
+/* The names of items, and more, are added to this. */
+
+  if(strlen(inpath) >= MAXPATH-MAXITEMNAME){*iostat = ENAMETOOLONG; return;}
+
   *iostat = 0;
   Strcpy(outpath,inpath);
   s = outpath + strlen(outpath) - 1;
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 8679684..ae597e4 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1545,7 +1545,7 @@ private void hdir_c(ITEM *item)
   ITEM *it;
   TREE *t;
 
-#define MINLENGTH 128
+#define MINLENGTH 512	/* More than the longest file name */
 
 /* Mark this item as not cachable. */
 
diff --git a/aipy/_miriad/mir/hio.h b/aipy/_miriad/mir/hio.h
index dac6d28..50d1fb8 100644
--- a/aipy/_miriad/mir/hio.h
+++ b/aipy/_miriad/mir/hio.h
@@ -31,7 +31,7 @@
 #define H_TXT_SIZE	1
 #define H_CMPLX_SIZE	8
 
-#define MAXPATH		1024
+#define MAXPATH		4096
 #define MAXOPEN		26
 
 
-- 
2.43.0


From 3deb97d6aac4e45d7cbe5f774113cedaffc78233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:58 +0000
Subject: [PATCH 099/112] fix: a damaged header file is refused, whatever the
 lengths and names in it

---
 aipy/_miriad/mir/hio.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index ae597e4..3f37bf6 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -45,6 +45,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 #include "hio.h"
 #include "miriad.h"
@@ -1479,12 +1480,11 @@ private void hcache_create_c(TREE *t,int *iostat)
 /************************************************************************/
 private void hcache_read_c(TREE *t,int *iostat)
 /*
-  Read in all small items, which are stored in the file "header".
-  Errors should never happen when reading the cache. If they do,
-  abort completely.
+  Read in all small items, which are stored in the file "header". If it
+  ends within an item, or cannot be understood, this is an error.
 ------------------------------------------------------------------------*/
 {
-  int offset;
+  int offset,size,jostat;
   ITEM *item;
   char s[CACHE_ENT];
   int ihandle;
@@ -1496,19 +1496,26 @@ private void hcache_read_c(TREE *t,int *iostat)
   offset = 0;
   while(hreadb_c(ihandle,s,offset,CACHE_ENT,iostat),!*iostat){
     offset += CACHE_ENT;
+    size = (unsigned char)s[CACHE_ENT-1];
+    s[CACHE_ENT-1] = 0;
+    if(*s == 0 || !strcmp(s,".") || !strcmp(s,"header")){*iostat = EINVAL; break;}
     item = hcreate_item_c(t,s);
-    item->size = *(s+CACHE_ENT-1);
-    item->bsize = item->size;
     item->flags = ITEM_CACHE;
     item->io[0].offset = 0;
-    item->io[0].length = item->size;
     item->io[0].state = IO_VALID;
-    item->io[0].buf = Malloc(item->size);
-    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);	check(*iostat);
-    offset += mroundup(item->size,CACHE_ENT);
+    item->io[0].buf = Malloc(size + 1);
+    if(item->io[0].buf == NULL){*iostat = ENOMEM; break;}
+    item->io[0].length = item->bsize = item->size = size;
+    if(size > 0) hreadb_c(ihandle,item->io[0].buf,offset,size,iostat);
+    if(*iostat){
+      if(*iostat == -1) *iostat = EINVAL;
+      break;
+    }
+    offset += mroundup(size,CACHE_ENT);
   }
-  if(*iostat != -1) bug_c('f',"hcache_read_c: Something wrong reading cache");
-  hdaccess_c(ihandle,iostat);
+  if(*iostat == -1) *iostat = 0;
+  hdaccess_c(ihandle,&jostat);
+  if(*iostat == 0) *iostat = jostat;
 }
 /************************************************************************/
 private int hname_check(char *name)
-- 
2.43.0


From c918685dc2443d1b017ffb2158713cab9bf2155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 100/112] fix: reading a damaged stream neither runs past the
 buffers of variables nor shows values nobody wrote

---
 aipy/_miriad/mir/uvio.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 2fd0925..3c0a1fd 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1952,8 +1952,9 @@ private int uv_scan(UV *uv, VARIABLE *vt)
     vt		Structure describing variable to terminate scan when found.
 ------------------------------------------------------------------------*/
 {
-  int iostat,intsize,extsize,terminate,found,changed,i;
+  int iostat,intsize,extsize,terminate,found,changed,i,flength;
   off64_t offset;
+  size_t size,oldsize;
   VARIABLE *v;
   char s[UV_HDR_SIZE],*b;
 
@@ -1983,28 +1984,36 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
 /* Process a specification of a variables length. Allocate buffers if needed. */
      case VAR_SIZE:
-      hreadi_c(uv->item,&v->flength,offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
+      hreadi_c(uv->item,&flength,offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
       CHECK(iostat,(message,"Error reading a variable-length for %s, while UV scanning",v->name));
-      if(v->flength <= 0)
+      if(flength <= 0 || flength > uv->max_offset)
 	ERROR('f',(message,"Variable %s has length of %d, when scanning",
-			v->name,v->flength));
-      if(v->flength % extsize)
+			v->name,flength));
+      if(flength % extsize)
         ERROR('f',(message,
 	  "Non-integral no. elements in variable %s, when scanning",v->name));
       if(!(v->flags & UVF_OVERRIDE) || v->type != H_BYTE){
-        v->length = v->flength;
-        v->buf = Realloc( v->buf, (v->flength * intsize)/extsize );
+        size = (size_t)(flength/extsize) * intsize;
+        oldsize = (v->buf == NULL ? 0 : (size_t)(v->length/extsize) * intsize);
+        b = realloc(v->buf,size);
+        if(b == NULL)
+          ERROR('f',(message,"Not enough memory for variable %s, when scanning",v->name));
+        if(size > oldsize) memset(b+oldsize,0,size-oldsize);
+        v->buf = b;
+        v->length = v->flength = flength;
         if(v->flags & UVF_OVERRIDE && v->flength > extsize)
           for(i=1, b = v->buf + intsize; i < v->flength/extsize; i++,b += intsize)
 	    memcpy(b,v->buf,intsize);
         changed = TRUE;
-      }
+      } else v->flength = flength;
       offset += UV_ALIGN;
       break;
 
 /* Process the data of a variable. If we want to keep track of the value
    of this variable, read it. */
      case VAR_DATA:
+      if(v->flength <= 0)
+	ERROR('f',(message,"Variable %s has a value but no length, when scanning",v->name));
       offset += mroundup(UV_HDR_SIZE,extsize);
       if(!(v->flags & UVF_OVERRIDE)){
 	hread_c(uv->item,v->type,v->buf,offset,v->flength,&iostat);
-- 
2.43.0


From 4951338958477c9442dfd74cf05c6619ad426a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 101/112] fix: a damaged vartable is refused, whatever the
 lines in it

---
 aipy/_miriad/mir/uvio.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 3c0a1fd..d625079 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1189,7 +1189,8 @@ private void uv_override(UV *uv)
   tno = uv->tno;
   haccess_c(uv->tno,&item,".","read",&iostat);
   CHECK(iostat,(message,"Error opening directory listing, in UVOPEN(override)"));
-  while(hreada_c(item,varname,MAXLINE,&iostat),iostat==0){
+  varname[MAXLINE-1] = 0;
+  while(hreada_c(item,varname,MAXLINE-1,&iostat),iostat==0){
     v = uv_locvar(tno,varname);
     if(v != NULL){
       hdprobe_c(tno,varname,descr,MAXLINE,vartype,&n);
@@ -1236,14 +1237,16 @@ private void uv_vartable_in(UV *uv)
 ------------------------------------------------------------------------*/
 {
   int item;
-  char line[MAXLINE],name[MAXNAM+1],ctype;
+  char line[MAXLINE],name[MAXLINE],ctype;
   int iostat,type = 0;
 
   haccess_c(uv->tno,&item,"vartable","read",&iostat);
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
-  while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
-    Sscanf(line,"%c %s",&ctype,name);
+  line[MAXLINE-1] = 0;
+  while(hreada_c(item,line,MAXLINE-1,&iostat),!iostat){
+    if(sscanf(line,"%c %s",&ctype,name) != 2)
+      BUG('f',"Bad line in the vartable, in UVOPEN(vartable_in)");
     switch(ctype){
       case 'a': type = H_BYTE;	break;
       case 'j': type = H_INT2;	break;
@@ -1253,6 +1256,8 @@ private void uv_vartable_in(UV *uv)
       case 'c': type = H_CMPLX;	break;
       default: ERROR('f',(message,"Bad type (%c) for variable %s",ctype,name));
     }
+    if(uv_locvar(uv->tno,name) != NULL)
+      ERROR('f',(message,"The variable %s is twice in the vartable, in UVOPEN(vartable_in)",name));
     (void)uv_mkvar(uv->tno,name,type);
   }
   hdaccess_c(item,&iostat);
-- 
2.43.0


From 6245164e6b1625200d744af0d8ec4ccc1dab6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 102/112] fix: bytes skipped in a file are written as zero, not
 as what was in memory

---
 aipy/_miriad/mir/hio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 3f37bf6..e55f857 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1189,6 +1189,11 @@ void hio_c(int ihandle,int dowrite,int type,char *buf,
       if(iob1->offset + iob1->length < offset &&
          iob1->offset + iob1->length < item->size)
 	  {hwrite_fill_c(item,iob1,offset,iostat);	if(*iostat) return;}
+
+/* Bytes which are skipped are zero, not what the buffer happens to hold. */
+
+      if(iob1->offset + iob1->length < offset)
+	memset(iob1->buf + iob1->length, 0, offset - iob1->offset - iob1->length);
       iob1->state = IO_MODIFIED;
       iob1->length = max(iob1->length,
 			 min(length + offset - iob1->offset, item->bsize));
-- 
2.43.0


From 86cef83c82b74004a0a0f100457c7d14a460ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 103/112] fix: flags of channels which were never written are
 not what was in memory

---
 aipy/_miriad/mir/maskio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 65020b2..62b98ae 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -130,6 +130,7 @@ char *mkopen_c(int tno,char *name,char *status)
   mask->size = (mask->size/H_INT_SIZE) * BITS_PER_INT;
   mask->offset = -BUFFERSIZE*BITS_PER_INT;
   mask->length = 0;
+  memset(mask->buf,0,sizeof(mask->buf));
   mask->modified = FALSE;
   mask->tno = tno;
   strcpy(mask->name,name);
@@ -184,7 +185,7 @@ int mkread_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
       mask->offset = (offset/BITS_PER_INT)*BITS_PER_INT;
       mask->length = min(mask->size - mask->offset,BUFFERSIZE*BITS_PER_INT);
       mask->modified = FALSE;
-      if(mask->length == 0) BUG('f',"Read past end of mask file");
+      if(mask->length <= 0) BUG('f',"Read past end of mask file");
       hreadi_c(mask->item,mask->buf,
 		(mask->offset/BITS_PER_INT)*H_INT_SIZE,
 		(mask->length/BITS_PER_INT)*H_INT_SIZE,
@@ -283,6 +284,7 @@ void mkwrite_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
       if(mask->modified)mkflush_c(handle);
       mask->offset = (offset/BITS_PER_INT)*BITS_PER_INT;
       mask->length = 0;
+      memset(mask->buf,0,sizeof(mask->buf));
       mask->modified = FALSE;
     }
 
-- 
2.43.0


From 13239eae71e018a4be77ab0044a81a01f015d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:46 +0000
Subject: [PATCH 104/112] fix: windows, antennas and coordinates of a damaged
 data set are checked before they are used as indices

---
 aipy/_miriad/mir/uvio.c | 53 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d625079..dff381d 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2976,6 +2976,8 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
         uv->wcorr_flags.offset += nchan;
       }
     } while(v->callno < uv->callno);
+    if(VARLEN(uv->coord) < 2)
+      BUG('f',"Variable coord is too short, in UVREAD");
 
 /* Perform uv selection. */
 
@@ -3026,6 +3028,8 @@ private void uvread_preamble(UV *uv, double *preamble)
 	bl = *((float *)(uv->bl->buf)) + 0.5;
         uvbasant_c(bl,&i1,&i2);
         i1--; i2--;
+	if(i1 < 0 || i1 >= uv->uvw->nants || i2 < 0 || i2 >= uv->uvw->nants)
+	  BUG('f',"Bad antenna numbers when computing w, in UVREAD");
 	ww = uv->uvw->ww[i2] - uv->uvw->ww[i1];
       } else if(uv->flags & UVF_DOW) {
 	ww = (VARLEN(uv->coord) >= 3 ? coord[2] : 0.0);
@@ -3153,6 +3157,7 @@ private double uv_getskyfreq(UV *uv,WINDOW *win)
   float vobs;
   double *sdf,*sfreq,restfreq;
   double temp;
+  int nwin,nread;
 
 /* Check the validity of any window specification. */
 
@@ -3172,7 +3177,12 @@ private double uv_getskyfreq(UV *uv,WINDOW *win)
     start = uv->data_line.start;
     if( win->first != 0 && uv->data_line.linetype == LINE_CHANNEL){
       nschan = (int *)uv->nschan->buf;
-      for(i=0; i < win->first; i++)start += *nschan++;
+      nread = NUMCHAN(uv->corr);
+      for(i=0; i < win->first; i++){
+	if(*nschan < 0 || *nschan > nread - start)
+	  BUG('f',"Bad number of channels in a window, in UVREAD(skyfreq)");
+	start += *nschan++;
+      }
     }
   }
   if(! (uv->flags & UVF_UPDATED_SKYFREQ) && start == uv->skyfreq_start)
@@ -3190,15 +3200,20 @@ private double uv_getskyfreq(UV *uv,WINDOW *win)
     sfreq  = (double *)uv->sfreq->buf;
     sdf =    (double *)uv->sdf->buf;
     temp = 0;
-    while(start >= *nschan){
+    nwin = min(VARLEN(uv->nschan), min(VARLEN(uv->sfreq), VARLEN(uv->sdf)));
+    while(nwin > 0 && start >= *nschan){
+      if(*nschan < 0)
+	BUG('f',"Bad number of channels in a window, in UVREAD(skyfreq)");
       start -= *nschan++;
-      sfreq++; sdf++;
+      sfreq++; sdf++; nwin--;
     }
     for(i=0; i<uv->data_line.width; i++){
-      if(start == *nschan){
+      while(nwin > 0 && start == *nschan){
         start = 0;
-        sfreq++; sdf++; nschan++;
+        sfreq++; sdf++; nschan++; nwin--;
       }
+      if(nwin <= 0)
+	BUG('f',"No frequency for a channel, in UVREAD(skyfreq)");
       temp += *sfreq + start * *sdf;
       start++;
     }
@@ -3215,6 +3230,8 @@ private double uv_getskyfreq(UV *uv,WINDOW *win)
 
   } else if(uv->data_line.linetype == LINE_WIDE){
     temp = 0;
+    if(start < 0 || uv->data_line.width > VARLEN(uv->wfreq) - start)
+      BUG('f',"No frequency for a channel, in UVREAD(skyfreq)");
     for(i=0, i0 = start; i<uv->data_line.width; i++, i0++){
       temp += *((float *)uv->wfreq->buf + i0);
     }
@@ -3352,7 +3369,7 @@ private int uvread_select(UV *uv)
       discard = !op->discard;
       point = (float *)(uv->axisrms->buf);
       nants = VARLEN(uv->axisrms)/2;
-      if(i1 < 1 || i2 > nants){
+      if(i1 < 1 || i1 > nants || i2 < 1 || i2 > nants){
 	BUG('f',"Bad antenna numbers when checking pointing, in UVREAD(select)"); }
       pointerr = max( *(point+2*i1-2),*(point+2*i1-1));
       pointerr = max( *(point+2*i2-2), pointerr);
@@ -3720,7 +3737,7 @@ private int uvread_shadowed(UV *uv,double diameter)
   bl = *((float *)(uv->bl->buf)) + 0.5;
   uvbasant_c(bl,&i1,&i2);
   i1--;i2--;
-  if(i1 < 0 || i2 >= nants){
+  if(i1 < 0 || i1 >= nants || i2 < 0 || i2 >= nants){
     BUG('f',"Bad antenna numbers when checking shadowing, in UVREAD(select)");
   }
 
@@ -3751,6 +3768,9 @@ private void uvread_updated_uvw(UV *uv)
 
   if(uv->uvw == NULL)uv->uvw = (UVW *)Malloc(sizeof(UVW));
   uvw = uv->uvw;
+  uvw->nants = 0;
+  if(VARLEN(uv->antpos)/3 > MAXANT)
+    BUG('f',"Too many antenna positions, in UVREAD");
   uvw->nants = VARLEN(uv->antpos)/3;
 
 /* Get trig functions of the hour angle and the declination. */
@@ -4127,7 +4147,7 @@ private int uvread_line(UV *uv,LINE_INFO *line,float *data,
   VARIABLE *v;
   WINDOW *win;
   int *di;
-  int rei,imi,nc,start,width,step,*flagin,nchan,*nschan;
+  int rei,imi,nc,start,width,step,*flagin,nchan,nread,*nschan;
   float scale,ref,imf,*df,*d;
   FLAGS *flag_info;
   int ggflag;
@@ -4143,7 +4163,7 @@ private int uvread_line(UV *uv,LINE_INFO *line,float *data,
     v = uv->corr;
     flag_info = &(uv->corr_flags);
   }
-  nchan = NUMCHAN(v);
+  nchan = nread = NUMCHAN(v);
   if(! flag_info->init ) uvread_flags(uv,v,flag_info,nchan);
 
 /* Handle velocity linetype. */
@@ -4163,9 +4183,12 @@ private int uvread_line(UV *uv,LINE_INFO *line,float *data,
       BUG('f',"Invalid window selection, in UVREAD(channel)");
     nschan = (int *)uv->nschan->buf;
     nchan = 0;
-    for(i=0; i < win->first; i++) nchan += *nschan++;
-    start += nchan;
-    for(i=0; i < win->n; i++)     nchan += *nschan++;
+    for(i=0; i < win->first + win->n; i++){
+      if(*nschan < 0 || *nschan > nread - nchan)
+	BUG('f',"Bad number of channels in a window, in UVREAD(channel)");
+      if(i < win->first) start += *nschan;
+      nchan += *nschan++;
+    }
   }
   width = line->width;
   step  = line->step;
@@ -4467,9 +4490,11 @@ private void uvread_flags(UV *uv,VARIABLE *v,FLAGS *flag_info,int nchan)
 /* Allocate space and read the flags. */
 
   if(flag_info->nflags < nchan){
+    flags = (int *)Realloc((char *)flag_info->flags, sizeof(int) * nchan);
+    if(flags == NULL)
+      BUG('f',"Unable to allocate memory for flags, in UVREAD");
     flag_info->nflags = nchan;
-    flag_info->flags = (int *)Realloc((char *)flag_info->flags,
-		sizeof(int) * flag_info->nflags);
+    flag_info->flags = flags;
   }
   flags = flag_info->flags;
   if(flag_info->exists)
-- 
2.43.0


From 85b020602f09ce1a804e4455c3ca0481cd74884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 105/112] fix: appending to a data set with two coordinates per
 record does not write to memory given back

---
 aipy/_miriad/mir/uvio.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index dff381d..bdd63a6 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2218,12 +2218,9 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
   d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( uv->coord->length == 0 || *d != *preamble || *(d+1) != *(preamble+1) || 
+  if( VARLEN(uv->coord) < nuvw || *d != *preamble || *(d+1) != *(preamble+1) || 
       ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
     uvputvrd_c(tno,"coord",preamble,nuvw);
-    *d = *preamble;
-    *(d+1) = *(preamble+1);
-    if(nuvw == 3) *(d+2) = *(preamble+2);
   }
   preamble += nuvw;
 
-- 
2.43.0


From ae58d90408b4d154dfa4b0cbcf675ecd3a4739e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:45 +0000
Subject: [PATCH 106/112] fix: miriad calls which cannot get memory raise, and
 leave the data set as it was

---
 aipy/_miriad/mir/dio.c    |  1 +
 aipy/_miriad/mir/hio.c    | 79 ++++++++++++++++++++++++++++-----------
 aipy/_miriad/mir/maskio.c | 12 +++++-
 aipy/_miriad/mir/uvio.c   | 40 +++++++++++++-------
 4 files changed, 96 insertions(+), 36 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 657861b..9b927bb 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -294,6 +294,7 @@ void dopendir_c(char **contxt,char *path)
   struct dent *d;
 
   *contxt = Malloc(sizeof(struct dent));
+  if(*contxt == NULL) return;
   d = (struct dent *)*contxt;
   Strcpy(d->path,path);
   d->dir = opendir(path);
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index e55f857..e133a8e 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -144,7 +144,7 @@ static void hwrite_fill_c(ITEM *item, IOB *iob, int next, int *iostat);
 static void hcache_create_c(TREE *t, int *iostat);
 static void hcache_read_c(TREE *t, int *iostat);
 static int hname_check(char *name);
-static void hdir_c(ITEM *item);
+static void hdir_c(ITEM *item, int *iostat);
 static void hopenfile_c(ITEM *item, char *status, int *iostat);
 static void hreplace_c(ITEM *item, int *iostat);
 static void hclosefile_c(ITEM *item, int *iostat);
@@ -195,6 +195,7 @@ void hopen_c(int *tno,Const char *name,Const char *status,int *iostat)
   dtrans_c((char *)name,path,iostat);
   if(*iostat)return;
   t = hcreate_tree_c(path);
+  if(t == NULL){*iostat = ENOMEM; return;}
   *tno = t->handle;
 
 /* Either open an old cache, or create a new cache. */
@@ -648,8 +649,10 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
 /* If the item does not exist, create it. Otherwise the item must
    be cacheable, in which case we truncate its length to zero if needed. */
 
-  if(item == NULL)item = hcreate_item_c(t,(char *)keyword);
-  else if((mode & (ITEM_WRITE|ITEM_SCRATCH)) && item->size != 0){
+  if(item == NULL){
+    item = hcreate_item_c(t,(char *)keyword);
+    if(item == NULL){*iostat = ENOMEM; return;}
+  } else if((mode & (ITEM_WRITE|ITEM_SCRATCH)) && item->size != 0){
     if(item->old != NULL) free(item->old);
     item->old = item->io[0].buf;
     item->oldsize = item->size;
@@ -671,14 +674,18 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
   *iostat = 0;
   item->offset = 0;
   if(!strcmp(keyword,".")){
-    hdir_c(item);
+    hdir_c(item,iostat);
   } else if(item->size == 0 && (!(mode & ITEM_WRITE) || (mode & ITEM_NOCACHE))
     			    && !(item->flags & ITEM_CACHE)){
-    hopenfile_c(item,(char *)status,iostat);
-
-    item->bsize = BUFSIZE;
     item->io[0].buf = Malloc(BUFSIZE);
     if(BUFDBUFF)item->io[1].buf = Malloc(BUFSIZE);
+    if(item->io[0].buf == NULL || (BUFDBUFF && item->io[1].buf == NULL)){
+      *iostat = ENOMEM;
+      hrelease_item_c(item);
+      return;
+    }
+    item->bsize = BUFSIZE;
+    hopenfile_c(item,(char *)status,iostat);
     if(mode & ITEM_APPEND) item->offset = item->size;
 
 /* If we have opened a file in write mode, remember that this dataset is
@@ -1288,7 +1295,7 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
   if needed.
 ------------------------------------------------------------------------*/
 {
-  char *s;
+  char *s,*s1;
   TREE *t;
 
   *iostat = 0;
@@ -1296,6 +1303,7 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
 
   if(item->bsize < next && next <= CACHESIZE){
     s = Malloc(CACHESIZE);
+    if(s == NULL){*iostat = ENOMEM; return;}
     item->bsize = CACHESIZE;
     if(item->io[0].length > 0)Memcpy(s,item->io[0].buf,item->io[0].length);
     if(item->io[0].buf != NULL) free(item->io[0].buf);
@@ -1305,11 +1313,17 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
 
   } else if(item->bsize <= CACHESIZE && next > CACHESIZE){
     s = Malloc(BUFSIZE);
+    s1 = (BUFDBUFF ? Malloc(BUFSIZE) : NULL);
+    if(s == NULL || (BUFDBUFF && s1 == NULL)){
+      free(s); free(s1);
+      *iostat = ENOMEM;
+      return;
+    }
     item->bsize = BUFSIZE;
     if(item->io[0].length > 0)Memcpy(s,item->io[0].buf,item->io[0].length);
     if(item->io[0].buf != NULL) free(item->io[0].buf);
     item->io[0].buf = s;
-    if(BUFDBUFF)item->io[1].buf = Malloc(BUFSIZE);
+    if(BUFDBUFF)item->io[1].buf = s1;
   }
 
 /* Open a file if needed. */
@@ -1505,6 +1519,7 @@ private void hcache_read_c(TREE *t,int *iostat)
     s[CACHE_ENT-1] = 0;
     if(*s == 0 || !strcmp(s,".") || !strcmp(s,"header")){*iostat = EINVAL; break;}
     item = hcreate_item_c(t,s);
+    if(item == NULL){*iostat = ENOMEM; break;}
     item->flags = ITEM_CACHE;
     item->io[0].offset = 0;
     item->io[0].state = IO_VALID;
@@ -1546,14 +1561,14 @@ private int hname_check(char *name)
   return 0 ;
 }
 /************************************************************************/
-private void hdir_c(ITEM *item)
+private void hdir_c(ITEM *item,int *iostat)
 /*
   Read the directory contents into a buffer (make it look like a text
   file.
 ------------------------------------------------------------------------*/
 {
   int length,plength,len;
-  char *context,*s;
+  char *context,*s,*b;
   ITEM *it;
   TREE *t;
 
@@ -1572,6 +1587,7 @@ private void hdir_c(ITEM *item)
     plength += strlen(it->name) + 1;
   plength = max(plength,2*MINLENGTH);
   s = Malloc(plength);
+  if(s == NULL){*iostat = ENOMEM; return;}
 
 /* Copy the names of all the "header" items to this buffer. Exclude the "."
    itself. */
@@ -1590,10 +1606,18 @@ private void hdir_c(ITEM *item)
    gets too small. */
 
   dopendir_c(&context,t->name);
+  if(context == NULL){free(s); *iostat = ENOMEM; return;}
   do{
     if(plength - length < MINLENGTH){
       plength *= 2;
-      s = Realloc(s, plength);
+      b = Realloc(s, plength);
+      if(b == NULL){
+	dclosedir_c(context);
+	free(s);
+	*iostat = ENOMEM;
+	return;
+      }
+      s = b;
     }
     dreaddir_c(context,s+length,plength-length);
     len = strlen(s+length);
@@ -1655,11 +1679,21 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
   int i,hash;
   char *s;
 
-/* Hash the name. */
+/* Get the memory, before anything refers to it. */
 
-  s = name;
   if(nitem >= MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
+  item = (ITEM *)Malloc(sizeof(ITEM));
+  s = Malloc(strlen(name) + 1);
+  if(item == NULL || s == NULL){
+    free(item); free(s);
+    return(NULL);
+  }
+  item->name = s;
+
+/* Hash the name. */
+
+  s = name;
   hash = nitem++;
   while(*s) hash += (unsigned char)*s++;
   hash %= MAXITEM;
@@ -1667,12 +1701,10 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
 /* Find a slot in the list of addresses, and allocate it. */
 
   while(hget_item(hash) != NULL) hash = (hash+1) % MAXITEM;
-  item_addr[hash] = (ITEM *)Malloc(sizeof(ITEM));
+  item_addr[hash] = item;
 
 /* Initialise it now. */
 
-  item = hget_item(hash);
-  item->name = Malloc(strlen(name) + 1);
   Strcpy(item->name,name);
   item->handle = hash;
   item->size = 0;
@@ -1706,9 +1738,16 @@ private TREE *hcreate_tree_c(char *name)
 
 /* Hash the name. */
 
-  s = name;
   if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
+  t = (TREE *)Malloc(sizeof(TREE));
+  s = Malloc(strlen(name) + 1);
+  if(t == NULL || s == NULL){
+    free(t); free(s);
+    return(NULL);
+  }
+  t->name = s;
+  s = name;
   hash = ntree++;
   while(*s) hash += (unsigned char)*s++;
   hash %= MAXOPEN;
@@ -1716,12 +1755,10 @@ private TREE *hcreate_tree_c(char *name)
 /* Find a slot in the list of addresses, and allocate it. */
 
   while(hget_tree(hash) != NULL) hash = (hash+1) % MAXOPEN;
-  tree_addr[hash] = (TREE *)Malloc(sizeof(TREE));
+  tree_addr[hash] = t;
 
 /* Initialise it. */
 
-  t = hget_tree(hash);
-  t->name = Malloc(strlen(name) + 1);
   Strcpy(t->name,name);
   t->handle = hash;
   t->flags = 0;
diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 62b98ae..18375a4 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -92,6 +92,7 @@ char *mkopen_c(int tno,char *name,char *status)
   char s[ITEM_HDR_SIZE];
 
   mask = (MASK_INFO *)malloc((unsigned int)sizeof(MASK_INFO));
+  if(mask == NULL) CHECK(ENOMEM);
 
 /* The case of an old mask file. Perform a number of checks to make sure
    the file looks OK. */
@@ -118,8 +119,15 @@ char *mkopen_c(int tno,char *name,char *status)
 /* The case of a new masl file. Create it and make it look nice. */
 
   } else if(!strcmp("new",status)) {
-    haccess_c(tno,&(mask->item),name,"write",&iostat);		CHECK(iostat);
-    hwriteb_c(mask->item,int_item,0,ITEM_HDR_SIZE,&iostat);	CHECK(iostat);
+    haccess_c(tno,&(mask->item),name,"write",&iostat);
+    if(iostat) free((char *)mask);
+    CHECK(iostat);
+    hwriteb_c(mask->item,int_item,0,ITEM_HDR_SIZE,&iostat);
+    if(iostat){
+      hdaccess_c(mask->item,&t);
+      free((char *)mask);
+    }
+    CHECK(iostat);
     mask->size = OFFSET/BITS_PER_INT * H_INT_SIZE;
     mask->rdonly   = FALSE;
   } else ERROR('f',(message,"Unrecognised status %s in MKOPEN",status));
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index bdd63a6..01c86b9 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -316,8 +316,8 @@
 
 #define Sscanf (void)sscanf
 #define Sprintf (void)sprintf
-#define Malloc(x) malloc((unsigned)(x))
-#define Realloc(a,b) ((a)==NULL?malloc((unsigned)(b)):realloc((a),(unsigned)(b)))
+#define Malloc(x) uv_memory(NULL,(x))
+#define Realloc(a,b) uv_memory((a),(b))
 #define Strcpy (void)strcpy
 
 /*----------------------------------------------------------------------*/
@@ -507,6 +507,7 @@ static int first=TRUE;
 private void uvinfo_chan(UV *uv,double *data,int mode);
 private void uvinfo_variance(UV *uv,double *data);
 private void uvbasant_c(int baseline,int *i1,int *i2);
+private void *uv_memory(void *old,size_t size);
 private void uv_init(void);
 private void uv_freeuv(UV *uv);
 private void uv_free_select(SELECT *sel);
@@ -974,6 +975,18 @@ void uvflush_c(int tno)
   CHECK(iostat,(message,"Error calling hflush, in UVFLSH"));
 }
 /************************************************************************/
+private void *uv_memory(void *old,size_t size)
+/*
+  Get memory, or more of it, or fail without letting go of the old.
+------------------------------------------------------------------------*/
+{
+  void *mem;
+
+  mem = realloc(old,size > 0 ? size : 1);
+  if(mem == NULL) BUG('f',"Not enough memory");
+  return(mem);
+}
+/************************************************************************/
 private void uv_init(void)
 /*
   Initalise everything imaginable.
@@ -1800,6 +1813,12 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     ERROR('f',(message,"Variable %s has changed type, in UVPUTVR",var));
   size = external_size[type];
 
+/* Get the memory for the value first. It never shrinks here, so that the old
+   value stays whole if writing fails. */
+
+  if(v->length < size*n && v->buf != data)
+    v->buf = Realloc(v->buf,n*internal_size[type]);
+
 /* If the size of this variable has changed, write it out to the file. */
 
   changed = (v->flags & UVF_NOCHECK);
@@ -1842,11 +1861,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
 /* It is all written: only now move on, so that a failed call can be retried. */
 
     uv->offset = mroundup( offset+size*n, UV_ALIGN);
-    if(v->length != size*n){
-      v->length = size * n;
-      if( v->buf != data )
-        v->buf = Realloc(v->buf,n*internal_size[type]);
-    }
+    v->length = size * n;
     if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
 
 /* Remember the value, even if it will not be checked again: this is what
@@ -2645,8 +2660,9 @@ private void uv_addopers(SELECT *sel,int type,int discard,double p1,double p2,co
 /* Allocate more space if needed. */
 
   if(sel->noper == sel->maxoper){
-    sel->maxoper = max(2*sel->maxoper,16);
-    sel->opers = (OPERS *)Realloc((char *)(sel->opers),sel->maxoper*sizeof(OPERS));
+    n = max(2*sel->maxoper,16);
+    sel->opers = (OPERS *)Realloc((char *)(sel->opers),n*sizeof(OPERS));
+    sel->maxoper = n;
   }
 
 /* Shift the list down, to make space for the newcomer. */
@@ -4487,11 +4503,9 @@ private void uvread_flags(UV *uv,VARIABLE *v,FLAGS *flag_info,int nchan)
 /* Allocate space and read the flags. */
 
   if(flag_info->nflags < nchan){
-    flags = (int *)Realloc((char *)flag_info->flags, sizeof(int) * nchan);
-    if(flags == NULL)
-      BUG('f',"Unable to allocate memory for flags, in UVREAD");
+    flag_info->flags = (int *)Realloc((char *)flag_info->flags,
+		sizeof(int) * nchan);
     flag_info->nflags = nchan;
-    flag_info->flags = flags;
   }
   flags = flag_info->flags;
   if(flag_info->exists)
-- 
2.43.0


From 3884120393f430618ec903ed4d041d52ae040e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:45 +0000
Subject: [PATCH 107/112] fix: a record which could not be written does not
 count towards obstype

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 01c86b9..a82037e 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2248,7 +2248,6 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   temp = *preamble++;
   itemp = temp;
   uvbasant_c(itemp,&i1,&i2);
-  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
   if( uv->bl->length == 0 || temp != *(float *)(uv->bl->buf) ){
     uvputvrr_c(tno,"baseline",&temp,1);
     *(float *)(uv->bl->buf) = temp;
@@ -2258,6 +2257,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
   uvnext_c(tno);
   flags_info->offset += n;
+  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
 }
 /************************************************************************/
 void uvwwrite_c(int tno,Const float *data,Const int *flags,int n)
-- 
2.43.0


From f2dc229d9ebeb134e343fa52f5b6ea1802461556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 108/112] fix: UV.read and uv[name] give back the memory of a
 call which fails, and get it before reading

---
 aipy/_miriad/miriad_wrap.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 89cd83e..c74be26 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -116,17 +116,22 @@ static PyArrayObject *as_vector(PyObject *val, int npy_type) {
  * and polarization codes, and returning a tuple of all results.
  */
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
-    PyArrayObject *data, *flags, *uvw;
+    PyArrayObject *data=NULL, *flags=NULL, *uvw=NULL;
     PyObject *rv;
     int nread, n2read, i, j, mark=-1;
     double preamble[PREAMBLE_SIZE];
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     // Make numpy arrays to hold the results
-    npy_intp data_dims[1] = {n2read};
+    npy_intp data_dims[1] = {n2read}, uvw_dims[1] = {3};
     data = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_CFLOAT);
-    CHK_NULL(data);
-    flags = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_INT);
-    CHK_NULL(flags);
+    if (data != NULL)
+        flags = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_INT);
+    if (flags != NULL)
+        uvw = (PyArrayObject *) PyArray_SimpleNew(1, uvw_dims, NPY_DOUBLE);
+    if (uvw == NULL) {
+        Py_XDECREF(data); Py_XDECREF(flags);
+        return NULL;
+    }
     while (1) {
         // Here is the MIRIAD call
         try {
@@ -134,7 +139,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
                      (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), n2read, &nread);
         } catch (MiriadError &e) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
-            Py_DECREF(data); Py_DECREF(flags);
+            Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
             return NULL;
         }
         // What changed in a record dropped below has changed for the caller
@@ -149,9 +154,6 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         }
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
-    npy_intp uvw_dims[1] = {3};
-    uvw = (PyArrayObject *) PyArray_SimpleNew(1, uvw_dims, NPY_DOUBLE);
-    CHK_NULL(uvw);
     IND1(uvw,0,double) = preamble[0];
     IND1(uvw,1,double) = preamble[1];
     IND1(uvw,2,double) = preamble[2];
@@ -160,7 +162,6 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     rv = Py_BuildValue("((Od(ii))OOi)",
         (PyObject *)uvw, preamble[3], i, j,
         (PyObject *)data, (PyObject *)flags, nread);
-    CHK_NULL(rv);
     Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
     return rv;
 }
@@ -257,7 +258,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     int length, updated;
     npy_intp dims[1];
-    PyArrayObject *rv;
+    PyArrayObject *rv = NULL;
     int elem_size;
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
@@ -335,6 +336,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 return NULL; /* can't happen with previous switch */
         }
     } catch (MiriadError &e) {
+        Py_XDECREF(rv);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
-- 
2.43.0


From 34049a50dff042874642817c988b2837e8d8ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:25 +0000
Subject: [PATCH 109/112] fix: a header item which cannot be read is an error,
 not a value by default

---
 aipy/_miriad/mir/headio.c | 19 ++++++++++++++-----
 aipy/_miriad/mir/uvio.c   |  3 ++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/headio.c b/aipy/_miriad/mir/headio.c
index 45d89f2..c23ba56 100644
--- a/aipy/_miriad/mir/headio.c
+++ b/aipy/_miriad/mir/headio.c
@@ -32,6 +32,7 @@
 /************************************************************************/
 
 #include <Python.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
@@ -40,6 +41,9 @@
 #include "io.h"
 
 #define check(iostat) if(iostat)bugno_c('f',iostat)
+
+/* An item which could not be opened is not the same as one which is not there. */
+#define missing(iostat) ((iostat) == ENOENT || (iostat) == EINVAL)
 #define MAXSIZE 1024
 #define MAXLINE 80
 
@@ -435,7 +439,8 @@ void rdhdl_c(int thandle,Const char *keyword,int8 *value,int8 defval)
    read it. */
 
   *value = defval;
-  haccess_c(thandle,&item,keyword,"read",&iostat);	if(iostat)return;
+  haccess_c(thandle,&item,keyword,"read",&iostat);	if(missing(iostat))return;
+							check(iostat);
   length = hsize_c(item);
   if(length >= 0){
 
@@ -496,7 +501,8 @@ void rdhdd_c(int thandle,Const char *keyword,double *value,double defval)
    read it. */
 
   *value = defval;
-  haccess_c(thandle,&item,keyword,"read",&iostat);	if(iostat)return;
+  haccess_c(thandle,&item,keyword,"read",&iostat);	if(missing(iostat))return;
+							check(iostat);
   length = hsize_c(item);
   if(length >= 0){
 
@@ -568,7 +574,8 @@ void rdhdc_c(int thandle,Const char *keyword,float *value,Const float *defval)
 
   *value = *defval;
   *(value+1) = *(defval+1);
-  haccess_c(thandle,&item,keyword,"read",&iostat);	if(iostat)return;
+  haccess_c(thandle,&item,keyword,"read",&iostat);	if(missing(iostat))return;
+							check(iostat);
   offset = mroundup(ITEM_HDR_SIZE,H_CMPLX_SIZE);
   length = hsize_c(item) - offset;
   if(length == H_CMPLX_SIZE){
@@ -615,7 +622,8 @@ void rdhda_c(int thandle,Const char *keyword,char *value,Const char *defval,int
 
   dodef = TRUE;
   haccess_c(thandle,&item,keyword,"read",&iostat);
-  if(! iostat) {
+  if(! missing(iostat)) {
+    check(iostat);
     length = min( hsize_c(item) - ITEM_HDR_SIZE, len - 1);
     if(length > 0) {
       hreadb_c(item,s,0,ITEM_HDR_SIZE,&iostat);			check(iostat);
@@ -740,7 +748,8 @@ void hdprobe_c(int tno,Const char *keyword,char *descr,size_t length,char *type,
   haccess_c(tno,&item,keyword,"read",&iostat);
   *n = 0;
   bufit = 0;
-  Strcpy(type,"nonexistent");				if(iostat)return;
+  Strcpy(type,"nonexistent");				if(missing(iostat))return;
+							check(iostat);
   size = hsize_c(item);
   unknown = FALSE;
   if(size <= ITEM_HDR_SIZE){
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index a82037e..c0a2771 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1220,6 +1220,7 @@ private void uv_override(UV *uv)
       } else {
 	b = Malloc(internal_size[v->type]);
       }
+      v->buf = b;
       if(ok)switch(v->type){
           case H_INT:   rdhdi_c(tno,varname,(int *)b,0);                break;
           case H_REAL:  rdhdr_c(tno,varname,(float *)b,0.0);            break;
@@ -1229,11 +1230,11 @@ private void uv_override(UV *uv)
       }
       if(ok){
 	v->flags |= UVF_OVERRIDE;
-	v->buf = b;
 	v->length = n*external_size[v->type];
 	v->callno = 1;
       } else {
 	free(b);
+	v->buf = NULL;
 	ERROR('w',(message,"Cannot override variable %s, in UVOPEN",varname));
       }
     }
-- 
2.43.0


From 328676004eb1ae89b7849e1aa8869d83be4b10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:24 +0000
Subject: [PATCH 110/112] fix: dazim and delev selections apply whatever else
 is selected

The selections of a clause are sorted by their number and tested in that
order; dazim and delev had the last numbers but are tested before dra, so
they were ignored after any other selection except the first four.  Where
the variable is missing the loop over these selections was left without
passing over them, and what was selected after them was ignored as well.
---
 aipy/_miriad/mir/uvio.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index c0a2771..eebcf0e 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -400,23 +400,23 @@ typedef struct varhand{
 #define SEL_TIME  2
 #define SEL_UVN   3
 #define SEL_POINT 4
-#define SEL_DRA	  5
-#define SEL_DDEC  6
-#define SEL_INC	  7
-#define SEL_RA	  8
-#define SEL_DEC	  9
-#define SEL_POL  10
-#define SEL_ON   11
-#define SEL_SRC  12
-#define SEL_UV   13
-#define SEL_FREQ 14
-#define SEL_SHADOW 15
-#define SEL_BIN  16
-#define SEL_HA   17
-#define SEL_LST  18
-#define SEL_ELEV 19
-#define SEL_DAZIM 20
-#define SEL_DELEV 21
+#define SEL_DAZIM  5
+#define SEL_DELEV  6
+#define SEL_DRA    7
+#define SEL_DDEC   8
+#define SEL_INC    9
+#define SEL_RA    10
+#define SEL_DEC   11
+#define SEL_POL   12
+#define SEL_ON    13
+#define SEL_SRC   14
+#define SEL_UV    15
+#define SEL_FREQ  16
+#define SEL_SHADOW 17
+#define SEL_BIN   18
+#define SEL_HA    19
+#define SEL_LST   20
+#define SEL_ELEV  21
 
 typedef struct {
 	int type,discard;
@@ -3409,7 +3409,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_dazim) dazim = 0;
       else dazim = (double *)uv->dazim->buf;
       while(n < sel->noper && op->type == SEL_DAZIM){
-	if (dazim==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
 	    discard = op->discard;
@@ -3430,7 +3429,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_delev) delev = 0;
       else delev = (double *)uv->delev->buf;
       while(n < sel->noper && op->type == SEL_DELEV){
-	if (delev==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= delev[i] && delev[i] <= op->hival)
 	    discard = op->discard;
-- 
2.43.0


From 02b9a775d7c47dead313e8b38ecb1a8551d19e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 111/112] fix: from_fits_to_fits overrides what it is asked to,
 find_axis finds it

telescope, obs_date, cur_date and epoch were written under the names of the
arguments of to_fits, which no reader looks at, and the header items kept
their old values.  find_axis looked for the number of the axis in the value
of the header item instead of its name, and always raised.
---
 aipy/img.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index d2eaf99..008c838 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -403,6 +403,12 @@ def to_fits(filename, data, clobber=False,
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
     pyfits.writeto(filename,phdu.data,phdu.header,overwrite=clobber)
 
+# Names of FITS header items, and of the arguments of to_fits() they hold
+FITS_ITEMS = (('OBJECT','object'), ('TELESCOP','telescope'),
+    ('INSTRUME','instrument'), ('OBSERVER','observer'),
+    ('DATE-OBS','obs_date'), ('BSCALE','bscale'), ('BZERO','bzero'),
+    ('EQUINOX','epoch'), ('ORIGIN','origin'), ('DATE','cur_date'))
+
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
     to deduce each keyword listed in to_fits() from the FITS header, but is
@@ -418,11 +424,7 @@ def from_fits(filename):
         data = phdu.data
 
     kwds = {}
-    hitems = (('OBJECT','object'), ('TELESCOP','telescope'),
-        ('INSTRUME','instrument'), ('OBSERVER','observer'),
-        ('DATE-OBS','obs_date'), ('BSCALE','bscale'), ('BZERO','bzero'),
-        ('EQUINOX','epoch'), ('ORIGIN','origin'), ('DATE','cur_date'))
-    for fitsname,name in hitems:
+    for fitsname,name in FITS_ITEMS:
         try: kwds[name] = phdu.header[fitsname]
         except(KeyError): pass
     axes = []
@@ -446,7 +448,7 @@ def find_axis(phdu,name):
     for k in phdu.header.items():
         if k[0].lower().startswith('ctype'):
             if k[1].lower().startswith(name):
-                return int(k[1][5])
+                return int(k[0][5:])
 
 def from_fits_to_fits(infile,outfile,data,kwds,history=None):
     """
@@ -493,9 +495,11 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
+    fitsnames = dict((name,fitsname) for fitsname,name in FITS_ITEMS)
     for k,v in kwds.items():
         try:
-            phdu.header[k] = v
+            phdu.header[fitsnames.get(k,k)] = v
+            if k == 'epoch': phdu.header['EPOCH'] = v
         except(ValueError):
             continue
     if history is None:
-- 
2.43.0


From 16ae6841e149e3523feee425a18e832b155f5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 112/112] fix: a selection which is refused leaves nothing
 behind

---
 aipy/_miriad/mir/uvio.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index eebcf0e..5189d70 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2434,10 +2434,13 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
     return;
   }
 
-/* Ignore "and" and "or" objects if this is the first call. */
+/* Ignore "and" and "or" objects if nothing has been selected before, i.e. if
+   this is the first call, or if those before were refused or ignored. */
 
   sel = uv->select;
-  if(sel == NULL && (!strcmp(object,"or") || !strcmp(object,"and"))) return;
+  if((sel == NULL || (sel->fwd == NULL && sel->noper == 0 && !sel->selants &&
+			!sel->amp.select && !sel->win.select)) &&
+     (!strcmp(object,"or") || !strcmp(object,"and"))) return;
 
 /* Either move to the last "SELECT" structure, or create the new structure. */
 
@@ -2628,14 +2631,14 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 /* Antennae and baseline selection. */
 
   } else if(!strcmp(object,"antennae")){
-    if(!sel->selants){
-      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
-      sel->selants = TRUE;
-    }
     i1 = max(p1, p2) + 0.5;
     i2 = min(p1, p2) + 0.5;
     if(i1 < 0 || i1 > MAXANT) ERROR('f',(message,"bad antennae %d",i1));
     if(i2 < 0 || i2 > MAXANT) ERROR('f',(message,"bad antennae %d",i2));
+    if(!sel->selants){
+      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
+      sel->selants = TRUE;
+    }
     if(i1 == 0){
       for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = discard;
     } else if(i2 == 0){
-- 
2.43.0

