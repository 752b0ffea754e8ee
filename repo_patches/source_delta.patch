From 77b18ac6a1b380f01b8bb4bd3aa467f3b79c2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 01/20] fix: gs_op_fields: scale the stride by the size of the
 selected datatype

The Fortran datatype code is an index into fgs_dom, not into gs_dom_size:
for code 1 (real*8) and others the stride was scaled by the wrong size.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..9be0351 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1640,7 +1640,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 9927de145d0180a0697b91435501ebcafec01899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/20] fix: gs_unique (Fortran): free the duplicated
 communicator

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 9be0351..97057d9 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1662,5 +1662,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From 24668001b017dea28ee4c2aee4ca5a0884c893b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/20] fix: all-reduce exchange: free the request with its
 owner

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 97057d9..2c96260 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1068,6 +1068,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From aaed91b98dd06b5000974d59cf77f81e6e9faf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 04/20] fix: crystal-router exchange: define the split-phase
 slots

igs*() and gs_wait() called through uninitialised pointers. The router has
no split-phase form, so the exchange is done as a whole when waiting.
---
 src/gs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index 2c96260..61f85a2 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,9 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  r->exec_irecv = NULL;
+  r->exec_isend = NULL;
+  r->exec_wait = (exec_fun*)&cr_exec; /* the whole exchange happens in wait */
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From aaf9302c2ba5e1c653246d139e520eced199ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 05/20] fix: igs_op_many (Fortran): keep the field list until
 the wait

The list of field pointers lived on the stack of igs_op_many, while gs_op_wait
still reads it to scatter the result. Let the outstanding-operation record own it.
---
 src/gs.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 61f85a2..44d5f4b 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1253,6 +1253,7 @@ struct nonblocking_private {
   struct gs_data *gsh;
   buffer *buf;
   unsigned vn;
+  void *own; /* freed with the record */
 };
 
 typedef struct nonblocking_private* nblkng;
@@ -1284,6 +1285,7 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
+  nblkng_dict[nblkng_n]->own = 0;
 
   *handle = nblkng_n++;
   nblkng_count++;
@@ -1303,6 +1305,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    free(nblkng_dict[handle]->own);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1339,6 +1342,7 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->gsh = gsh;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
+  nblkng_dict[nblkng_n]->own = 0;
   nblkng_dict[nblkng_n]->mode = mode_vec;
 
   *handle = nblkng_n++;
@@ -1371,6 +1375,7 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->gsh = gsh;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
+  nblkng_dict[nblkng_n]->own = 0;
   nblkng_dict[nblkng_n]->mode = mode_many;
 
   *handle = nblkng_n++;
@@ -1617,11 +1622,12 @@ void figs_many(const sint *handle, void *u1, void *u2, void *u3,
               const sint *dom, const sint *op, const sint *transpose,
 	      int *wait)
 {
-  void *uu[6];
+  void **uu = tmalloc(void*,6); /* needed until gs_op_wait */
   uu[0]=u1,uu[1]=u2,uu[2]=u3,uu[3]=u4,uu[4]=u5,uu[5]=u6;
   fgs_check_parms(*handle,*dom,*op,"gs_op_many",__LINE__);
   cigs_many((void *const*)uu,*n,fgs_dom[*dom],(gs_op_t)(*op-1),*transpose!=0,
            fgs_info[*handle],0,wait);
+  nblkng_dict[*wait]->own = uu;
 }
 
 void fgs_wait(int *handle)
-- 
2.43.0


From 607b82bf4c0e065d3a9ba7afea71ba2c11af7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 06/20] fix: igs*: do not share the static buffer between
 outstanding operations

With a null buffer (always so from Fortran) two operations in flight packed
their messages into the same static buffer. Give each its own.
---
 src/gs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index 44d5f4b..a0fac42 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1254,6 +1254,7 @@ struct nonblocking_private {
   buffer *buf;
   unsigned vn;
   void *own; /* freed with the record */
+  buffer own_buf; /* used when the caller gives no buffer */
 };
 
 typedef struct nonblocking_private* nblkng;
@@ -1282,6 +1283,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1305,6 +1308,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    buffer_free(&nblkng_dict[handle]->own_buf);
     free(nblkng_dict[handle]->own);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
@@ -1340,6 +1344,8 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->own = 0;
@@ -1373,6 +1379,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->own = 0;
-- 
2.43.0


From 70e2c3acdd78da5a81b954c674a63883e5dd0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 07/20] fix: gs_wait: ignore handles of completed operations

A handle whose operation is already complete (or a negative one) was dereferenced.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index a0fac42..8e66714 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1299,7 +1299,7 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
 
 void gs_wait(int handle)
 {
-  if(handle < nblkng_n) {
+  if(handle >= 0 && handle < nblkng_n && nblkng_dict[handle]) {
     gs_aux_wait(nblkng_dict[handle]->u,
 	        nblkng_dict[handle]->mode,
 	        nblkng_dict[handle]->vn,
-- 
2.43.0


From 205ce8cfdc0f76419c7d7944e53d9e9f0b935945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 08/20] fix: comm_iallreduce: deliver the result when no MPI
 request is started

With no data, or an operation MPI does not provide (gs_bpr), the request was
left unset and waited for, and the result was not in buf, where the waiting
side takes it from.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..db5ac39 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL;
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]);
 #endif
 }
 
-- 
2.43.0


From 902f1346dbec7065dbfe62b21b4a91e368a688c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 09/20] fix: sarray_transfer: records holding nothing but the
 target

The row size was zero: division by zero in num_rows().
---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..f314d72 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1;
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From 92463b2c42e73eb8698d4cdb71170e451cb51397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 10/20] fix: sarray_transfer_many: cut the last message at the
 capacity

The excess was added to its length instead of taken off: unpacking ran past
the end of the fixed-size arrays and of the data.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index f314d72..3dbf5cd 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From 4d74a74b90526cf5f688bc906fe6696f60861465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 11/20] fix: findptsms: do not truncate the global hash index

The process that owns a cell was computed from the low 32 bits of its index;
the other uses take all 64.
---
 src/findpts_imp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..46cc548 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -316,7 +316,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
       *proc = id;
       if ((*code!=CODE_INTERNAL && fd->local.ims==0) ||
            fd->local.ims==1) {
-        const uint hi = hash_index(&fd->hash,x);
+        const ulong hi = hash_index(&fd->hash,x);
         unsigned d;
         for(d=0;d<D;++d) pt->x[d]=x[d];
         pt->index=index;
-- 
2.43.0


From 297bee831719dd27c65e8b718117cd0a41a62b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 12/20] fix: findpts_local: do not leak four allocations per
 call

---
 src/findpts_local_imp.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..e7d85ce 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -433,16 +433,8 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
-
+    uint sess=0, match=0, elsid=0;
+    double disti=0;
     unsigned sess_stride=0;
     unsigned disti_stride=0;
     unsigned elsid_stride=0;
@@ -452,10 +444,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+             &sess, sess_stride,
+            &disti,disti_stride,
+            &elsid,elsid_stride,
+            &match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From 0995a76d36df25dfa64ebab70dbe97d3042420d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 13/20] fix: findpts_local_setup: do not keep addresses of
 locals in the handle

---
 src/findpts_local_imp.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index e7d85ce..8443268 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -407,12 +407,10 @@ void findpts_local_setup(struct findpts_local_data *const fd,
                          const unsigned npt_max, const double newt_tol)
 {
   uint ims=0;
-  unsigned int nsid = 0;
-  double distfint = 0.;
   findptsms_local_setup(fd,
                         elx,
-                       &nsid,
-                       &distfint,
+                        0,
+                        0,
                         n,nel,
                         m,bbox_tol,
                         max_hash_size,
-- 
2.43.0


From e826f6dbaa3a00d92fecab529f60a004bee07f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 14/20] fix: findpts_setup (Fortran): leak in 2-D,
 uninitialised pointers in 3-D

---
 src/findpts.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..13f6f68 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,10 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else if(h->ndim==3) {
@@ -344,8 +342,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else
-- 
2.43.0


From ea0375a7f8917f92c9ee0a9af70c7c2d4661396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 15/20] fix: findpts_local: hash_opt_size is internal

It was exported without the library's prefix.
---
 src/findpts_local_imp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 8443268..69e3a85 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -114,9 +114,9 @@ static uint hash_count(struct hash_data *p,
   return count;
 }
 
-uint hash_opt_size(struct hash_data *p,
-                   const struct obbox *const obb, const uint nel,
-                   const uint max_size)
+static uint hash_opt_size(struct hash_data *p,
+                          const struct obbox *const obb, const uint nel,
+                          const uint max_size)
 {
   uint nl=1, nu=ceil(pow(max_size-nel,1.0/D));
   uint size_low=2+nel;
-- 
2.43.0


From fab9591967a89a4c52fee6fe412e60fafe6dc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 16/20] fix: the placeholder for userExitHandler is internal

It was exported without the library's prefix, clashing with an application's.
---
 src/fail.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fail.c b/src/fail.c
index 6d007a5..b28a516 100644
--- a/src/fail.c
+++ b/src/fail.c
@@ -13,7 +13,7 @@
 extern void userExitHandler(int status);
 #else
 #define USEREXIT 0
-void userExitHandler(int status) {}
+static void userExitHandler(int status) {}
 #endif
 
 void die(int status)
-- 
2.43.0


From 310d7bb2d6133cd30fdc73e295fc322a0e501d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 17/20] fix: crystal_router: compile without MPI (MPI=0)

---
 src/crystal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..34e5262 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,9 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From 4eeffbbc15721d44cb7fce0f04c5bc8243c87b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 18/20] fix: session ids are of type uint in every declaration

findptsms_local_setup declared them unsigned int, so with -DGSLIB_USE_LONG
the ids passed by findptsms_setup were read at the wrong width.
---
 src/findpts_imp.h       | 6 +++---
 src/findpts_local.h     | 8 ++++----
 src/findpts_local_imp.h | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 46cc548..1229693 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -209,7 +209,7 @@ static void hash_build(struct hash_data *const p,
 static void hash_free(struct hash_data *p) { free(p->offset); }
 
 struct findpts_dummy_ms_data {
-    unsigned int *nsid;
+    uint         *nsid;
     double       *distfint;
 };
 
@@ -661,8 +661,8 @@ void findpts(      uint   *const  code_base   , const unsigned  code_stride   ,
        printf("Please use findptsms\n");
        die(1);
     }
-    unsigned int sess_base = 0;
-    unsigned int sess_match = 0;
+    uint sess_base = 0;
+    uint sess_match = 0;
     unsigned sess_stride = 0;
 
     findptsms( code_base, code_stride,
diff --git a/src/findpts_local.h b/src/findpts_local.h
index 30be675..dcbfc17 100644
--- a/src/findpts_local.h
+++ b/src/findpts_local.h
@@ -26,7 +26,7 @@ struct findpts_local_hash_data_2 {
 struct findpts_local_data_2 {
   unsigned ntot;
   const double *elx[2];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_2 *obb;
   struct findpts_local_hash_data_2 hd;
   struct findpts_el_data_2 fed;
@@ -38,7 +38,7 @@ struct findpts_local_data_2 {
 
 void findptsms_local_setup_2(struct findpts_local_data_2 *const fd,
                            const double *const elx[2],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[2], const uint nel,
                            const unsigned m[2], const double bbox_tol,
@@ -105,7 +105,7 @@ struct findpts_local_hash_data_3 {
 struct findpts_local_data_3 {
   unsigned ntot;
   const double *elx[3];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_3 *obb;
   struct findpts_local_hash_data_3 hd;
   struct findpts_el_data_3 fed;
@@ -117,7 +117,7 @@ struct findpts_local_data_3 {
 
 void findptsms_local_setup_3(struct findpts_local_data_3 *const fd,
                            const double *const elx[3],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[3], const uint nel,
                            const unsigned m[3], const double bbox_tol,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 69e3a85..260ae14 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -200,7 +200,7 @@ static void hash_free(struct hash_data *p) { free(p->offset); }
 struct findpts_local_data {
   unsigned ntot;
   const double *elx[D];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox *obb;
   struct hash_data hd;
   struct findpts_el_data fed;
@@ -212,7 +212,7 @@ struct findpts_local_data {
 
 void findptsms_local_setup(struct findpts_local_data *const fd,
                          const double *const elx[D],
-                         const unsigned *const nsid,
+                         const uint *const nsid,
                          const double *const distfint,
                          const unsigned n[D], const uint nel,
                          const unsigned m[D], const double bbox_tol,
-- 
2.43.0


From 32eec09542ca308dc655872ca9c87e973a864547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 19/20] fix: width-independent size check and messages

The crystal router's INT_MAX check was computed in slong, so it could never
fire with 32-bit global integers; messages passed sint/slong to %d and %lld.
---
 src/crystal.c | 9 ++++-----
 src/gs.c      | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/crystal.c b/src/crystal.c
index 34e5262..9210c6a 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -134,12 +134,11 @@ void crystal_router(struct crystal *p)
     send_hi = id<bh;
     send_n = crystal_move(p,bh,send_hi);
 
-    slong send_n_long = send_n;
-    send_n_long *= sizeof(uint);
-    sint overflow = (send_n_long >= INT_MAX);
+    size_t send_bytes = send_n*sizeof(uint);
+    sint overflow = (send_bytes >= INT_MAX);
     if (overflow) {
-      fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
-        "INT_MAX)\n", p->comm.id, send_n_long);
+      fprintf(stderr, "Error in crystal_router: rank = %u send_n = %lu (> "
+        "INT_MAX)\n", (unsigned)p->comm.id, (unsigned long)send_bytes);
       fflush(stderr);
 #ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
diff --git a/src/gs.c b/src/gs.c
index 8e66714..0e17b8a 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1578,9 +1578,9 @@ static void fgs_check_parms(sint handle, sint dom, sint op,
                             const char *func, unsigned line)
 {
   if(dom<1 || dom>3)
-    fail(1,__FILE__,line,"%s: datatype %d not in valid range 1-3",func,dom);
+    fail(1,__FILE__,line,"%s: datatype %d not in valid range 1-3",func,(int)dom);
   if(op <1 || op >4)
-    fail(1,__FILE__,line,"%s: op %d not in valid range 1-4",func,op);
+    fail(1,__FILE__,line,"%s: op %d not in valid range 1-4",func,(int)op);
   fgs_check_handle(handle,func,line);
 }
 
-- 
2.43.0


From 51f0da9d3cf1c00982aa6548bf62678784a1eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 20/20] fix: Fortran findpts set-up passes the element sizes at
 the declared width

With -DGSLIB_USE_LONG the sizes were passed as an array of longs where an
array of unsigned int is read.
---
 src/findpts.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 13f6f68..f331441 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -268,7 +268,7 @@ void ffindptsms_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -281,7 +281,7 @@ void ffindptsms_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
@@ -319,7 +319,7 @@ void ffindpts_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -334,7 +334,7 @@ void ffindpts_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
-- 
2.43.0

