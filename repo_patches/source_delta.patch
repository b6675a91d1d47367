From 8d37f2710d154fdc7f3aa129dc4be1211b1f57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/86] fix: sparse add and mult accept a NULL configuration
 block

---
 src/sparse/add.c  | 6 ++++++
 src/sparse/mult.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..27f4d7e 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -203,6 +203,9 @@ int armassp_addto_w(armas_sparse_t * C,
                       const armas_sparse_t * B,
                       int bits, armas_wbuf_t * wb, armas_conf_t * cf)
 {
+    if (!cf)
+        cf = armas_conf_default();
+
     if (!A || !B)
         return 0;
 
@@ -270,6 +273,9 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
+    if (!cf)
+        cf = armas_conf_default();
+
     if (!A || !B)
         return C;
 
diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..1241491 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -311,6 +311,9 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -418,6 +421,9 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
     armas_sparse_t *C;
     //armas_accum_t spa;
 
+    if (!cf)
+        cf = armas_conf_default();
+
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
         return (armas_sparse_t *) 0;
     }
-- 
2.43.0


From 34a5a9002753c5e30608525f80aa7a1656380f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 02/86] fix: armas_alloc releases the header when element
 allocation fails

---
 src/include/matrix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..418b4bc 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From 97134dd6beeebe85b87afb252569573646519e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 03/86] fix: armas_solve_trm releases its cache buffer

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From c91895cf69e347b90bc923204bd9bd7bb5b0bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 04/86] fix: armas_ext_mult_trm releases its cache buffer in
 the naive path

---
 src/eblas/trmm_ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..32a8d84 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -785,6 +785,7 @@ int armas_ext_mult_trm(
 
     if (cf->optflags & ARMAS_ONAIVE) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
-- 
2.43.0


From 1d799b4e958c506647a17cd146fe352faf439bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 05/86] fix: armas_ext_solve_trm_w releases its cache buffer

---
 src/eblas/trsm_ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..aa110bf 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -806,10 +806,12 @@ int armas_ext_solve_trm_w(
 
     if (wb->bytes == 0) {
         wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
     if (ncol < 4) {
+        armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
@@ -817,6 +819,7 @@ int armas_ext_solve_trm_w(
         ncol = cache.NB;
     armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From bb486f536b56139602015215409f2dcd63729325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 06/86] fix: armassp_new releases the header when element
 allocation fails

---
 src/sparse/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..9da9401 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -118,7 +118,11 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
         (armas_sparse_t *) calloc(1, sizeof(armas_sparse_t));
     if (!A)
         return A;
-    return armassp_init(A, rows, cols, nnz, kind);
+    if (!armassp_init(A, rows, cols, nnz, kind)) {
+        free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
-- 
2.43.0


From bf46814fb4bc810ca1ca4b534603a633bc7f29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 07/86] fix: sparse convert, transpose and copy release the
 result on failure

---
 src/sparse/convert.c | 12 ++++++++++--
 src/sparse/copy.c    |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..46966ab 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -280,7 +280,11 @@ armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    if (!armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -323,7 +327,11 @@ armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
     armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
     // make space reservation as if converted to other storage format
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    if (!armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..d0c510d 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -70,7 +70,11 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
 armas_sparse_t *armassp_mkcopy(const armas_sparse_t * B)
 {
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
-    return armassp_copy_to(A, B);
+    if (!armassp_copy_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code!"
-- 
2.43.0


From e116393f2919c436806f265af3c547b2f49e0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 08/86] fix: armassp_add sizes its workspace from an allocated
 result

---
 src/sparse/add.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 27f4d7e..5bdba19 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -279,22 +279,27 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     if (!A || !B)
         return C;
 
-    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
-        return C;
-
-    if (!armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
-        return C;
-    }
     // allocate target matrix; size estimate 
     int cnz = A->nnz + B->nnz;
     C = armassp_new(A->rows, A->cols, cnz, A->kind);
     if (!C) {
-        armas_wrelease(&work);
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (!armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
 
-    armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
     armas_wrelease(&work);
     return C;
 }
-- 
2.43.0


From 44502556950a48e95c588e66cec531fffbc06f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 09/86] fix: matrix market readers reject a file without a size
 line

---
 src/io/iomm.c   | 4 ++++
 src/sparse/io.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..31a4b75 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -224,6 +224,10 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
         if (iob[0] != '%')
             break;
     }
+    if (nread == -1) {
+        free(iob);
+        return -1;
+    }
     if (isspace(iob[0]) || isdigit(iob[0])) {
         cp = iob;
         *m = strtol(cp, &endptr, 10);
diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..6196ea0 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -159,6 +159,10 @@ int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
         if (iob[0] != '%')
             break;
     }
+    if (nread == -1) {
+        free(iob);
+        return -1;
+    }
     if (isspace(iob[0]) || isdigit(iob[0])) {
         cp = iob;
         *m = strtol(cp, &endptr, 10);
-- 
2.43.0


From f470cff7428d1d8159423dc18838347c3156fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 10/86] fix: armas_json_read reports failed element allocation

---
 src/io/json_base.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..b835134 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -377,7 +377,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From da84c96eb9097b6207795a4116d4b4992e569713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 11/86] fix: armas_mmload reports failed element allocation

---
 src/io/iomm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 31a4b75..a10a5a3 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -288,7 +288,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
-- 
2.43.0


From 99156174af3f3c8d4e24daaf6c8dac947f2ab78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 12/86] fix: armas_mmload releases the matrix when the file
 ends early

---
 src/io/iomm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index a10a5a3..a8b3db2 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -341,8 +341,10 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem) {
+        armas_release(A);
         return -1;
+    }
 
     return typecode;
 }
-- 
2.43.0


From 7f4cfd41b2ae78fa9df48a86b3f64846ed72e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 13/86] fix: matrix market readers do not parse past the end of
 a line

---
 src/io/iomm.c   | 4 ++--
 src/sparse/io.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index a8b3db2..15c7c81 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -231,10 +231,10 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
     if (isspace(iob[0]) || isdigit(iob[0])) {
         cp = iob;
         *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
+        cp = endptr;
         *n = strtol(cp, &endptr, 10);
         if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
+            cp = endptr;
             *nnz =strtol(cp, &endptr, 10);
         } else {
             *nnz = 0;
diff --git a/src/sparse/io.c b/src/sparse/io.c
index 6196ea0..3eefa06 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -166,10 +166,10 @@ int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
     if (isspace(iob[0]) || isdigit(iob[0])) {
         cp = iob;
         *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
+        cp = endptr;
         *n = strtol(cp, &endptr, 10);
         if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
+            cp = endptr;
             *nnz = strtol(cp, &endptr, 10);
         } else {
             *nnz = 0;
@@ -221,9 +221,9 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
         bp = iobuf;
         m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
+        bp = endptr;
         n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
+        bp = endptr;
         v = strtod(bp, &endptr);
         armassp_append(A, m - 1, n - 1, v);
 #if 0
-- 
2.43.0


From 6ff775a7db0243ec7ee5d0e4e606b0ba70d1af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 14/86] fix: json reader discards coordinates one past the
 matrix

---
 src/io/json_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index b835134..569c62d 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -147,7 +147,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
-- 
2.43.0


From 83759d711a2435b25bfac4bbd55a867287401942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 15/86] fix: armas_init computes the element count in size_t

---
 src/base/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..d7e4c3e 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -63,7 +63,7 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         return m;
     }
     // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
+    m->__nbytes = ALIGNSIZE((size_t)r*c, DTYPE);
     m->__data = calloc(m->__nbytes, sizeof(DTYPE));
     if ( !m->__data ) {
         m->__nbytes = 0;
-- 
2.43.0


From d7d7fd813a0df046cc254895e9d81c4c03393a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 16/86] fix: armassp_mmdump writes one-based indexes

---
 src/sparse/io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 3eefa06..9aab4a8 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -270,7 +270,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
         }
         break;
@@ -279,7 +279,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
             }
         }
         break;
@@ -288,7 +288,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
             }
         }
         break;
-- 
2.43.0


From e1542061225c8d9baf602aba1c24f4e0a3d0945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 17/86] fix: armassp_mmload fails on invalid or missing entries

---
 src/sparse/io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 9aab4a8..cfbd507 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -225,7 +225,10 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
         n = strtol(bp, &endptr, 10);
         bp = endptr;
         v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
+        if (m < 1 || m > A->rows || n < 1 || n > A->cols)
+            break;
+        if (armassp_append(A, m - 1, n - 1, v) < 0)
+            break;
 #if 0
         if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
             armassp_append(A, n - 1, m - 1, v);
@@ -237,6 +240,11 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     if (iobuf)
         free(iobuf);
 
+    // all announced entries must have been stored
+    if (k != nnz) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
-- 
2.43.0


From 5c212b43d8b2ac6a76b412cd676ee33cb9604839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 18/86] fix: json writer checks the length before the character
 and reports a failed quote

---
 src/io/json_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..571a2fc 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -35,8 +35,8 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
         break;
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
-        armas_ios_putchar(writer, '"');
-        for (int k = 0; *cp && k < len; k++, cp++) {
+        JSON_ONERROR(armas_ios_putchar(writer, '"'));
+        for (int k = 0; k < len && *cp; k++, cp++) {
             switch (*cp) {
             case '\t':
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
-- 
2.43.0


From 01fa53f55a1f6929b5627fa10afc7f860b8dcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 19/86] fix: string streams do not write to the caller's
 constant string

---
 src/io/ios.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..fa61e06 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -58,6 +58,14 @@ void wb_ungetc(void *ptr, int c)
         wb->buf[--wb->offset] = c;
 }
 
+static
+void str_ungetc(void *ptr, int c)
+{
+    struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
+    if (wb->offset > 0)
+        wb->offset--;
+}
+
 static
 int wb_putc(void *ptr, int c)
 {
@@ -79,7 +87,7 @@ void str_close(void *ptr)
 static
 armas_iostream_vtable_t str_vtable = (armas_iostream_vtable_t){
     .get_char = wb_getc,
-    .unget_char = wb_ungetc,
+    .unget_char = str_ungetc,
     .put_char = 0,
     .close = str_close
 };
-- 
2.43.0


From c7ca9ceb6cf3400675d462fd8eb993095049b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 20/86] fix: buffer streams return characters as unsigned

---
 src/io/ios.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index fa61e06..ce04e74 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
-- 
2.43.0


From 2e27d1e08283579742f327c6fe1deb873981cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 21/86] fix: armas_mvupdate2_sym checks the vectors against the
 matrix

---
 src/blas/syr2.c      | 2 +-
 src/eblas/syr2_ext.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..003e353 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..c4c2c3f 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -148,7 +148,7 @@ int armas_ext_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 0d2e60463ff63197b9166a007b935e26de904a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 22/86] fix: armas_eigen_sym_w rejects matrices that are not
 square

---
 src/lapack/evd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..f341408 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -147,7 +147,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 493ac21d732f7047a2d6c3f2d6552e0531444dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 23/86] fix: armas_lufactor and armas_ldlfactor check the size
 of the pivot vector

---
 src/lapack/ldlpv.c | 3 ++-
 src/lapack/lu.c    | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index 7ec5c31..9b2d0bb 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -562,7 +562,8 @@ int armas_ldlfactor_w(armas_dense_t * A,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols ||
+        (P != ARMAS_NOPIVOT && armas_pivot_size(P) < A->cols)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..6a9f3d2 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -295,6 +295,10 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
     if (!cf)
         cf = armas_conf_default();
 
+    if (P && armas_pivot_size(P) < min(A->rows, A->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
         if (P) {
-- 
2.43.0


From c2ada4c586f184d0b6a2bf59cf85fcf994a55a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 24/86] fix: single precision names of the rank-1 trapezoidal
 update and tridiagonal QR sweeps

Without these names armas_mvupdate_trm and armas_trdeigen were left out of
the single precision library, which then had unresolved references.
---
 src/include/float32/names_blas.h   | 3 +++
 src/include/float32/names_lapack.h | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/include/float32/names_blas.h b/src/include/float32/names_blas.h
index 024f265..09911b9 100644
--- a/src/include/float32/names_blas.h
+++ b/src/include/float32/names_blas.h
@@ -109,6 +109,8 @@
 #define armas_solve_trm_unsafe         armas_s_solve_trm_unsafe
 #define armas_mvupdate_trm_unb         armas_s_mvupdate_trm_unb
 #define armas_mvupdate_trm_rec         armas_s_mvupdate_trm_rec
+#define armas_mvupdate_trm_unsafe      armas_s_mvupdate_trm_unsafe
+#define armas_mvmult_sym_unsafe        armas_s_mvmult_sym_unsafe
 #define armas_mvsolve_trm_unsafe       armas_s_mvsolve_trm_unsafe
 
 // unsafe extended precision
@@ -132,6 +134,7 @@
 #define armas_ext_mvmult_unsafe        armas_s_ext_mvmult_unsafe
 #define armas_ext_mvmult_dx_unsafe     armas_s_ext_mvmult_dx_unsafe
 #define armas_ext_mvmult_sym_unsafe    armas_s_ext_mvmult_sym_unsafe
+#define armas_ext_mult_sym_unsafe      armas_s_ext_mult_sym_unsafe
 #define armas_ext_mvmult_trm_unsafe    armas_s_ext_mvmult_trm_unsafe
 #define armas_ext_mvsolve_trm_unsafe   armas_s_ext_mvsolve_trm_unsafe
 #define armas_ext_mvupdate_unsafe      armas_s_ext_mvupdate_unsafe
diff --git a/src/include/float32/names_lapack.h b/src/include/float32/names_lapack.h
index 02193d0..4a1b2ea 100644
--- a/src/include/float32/names_lapack.h
+++ b/src/include/float32/names_lapack.h
@@ -200,6 +200,12 @@
 #define armas_bdsvd2x2_vec             armas_s_bdsvd2x2_vec
 #define armas_bdsvd_golub		         armas_s_bdsvd_golub
 #define armas_bdsvd_demmel		     armas_s_bdsvd_demmel
+#define armas_bd_qrsweep               armas_s_bd_qrsweep
+#define armas_bd_qlsweep               armas_s_bd_qlsweep
+#define armas_bd_qrzero                armas_s_bd_qrzero
+#define armas_bd_qlzero                armas_s_bd_qlzero
+#define armas_trd_qrsweep              armas_s_trd_qrsweep
+#define armas_trd_qlsweep              armas_s_trd_qlsweep
 
 // SVD
 #define armas_svd		                 armas_s_svd
-- 
2.43.0


From 650acbbfdfdc91123e47417c3fc3c117100f397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 25/86] fix: sparse matrix-vector products check the size of
 the result vector

The conditional operator swallowed the outcome of the first test.
---
 src/sparse/gemv.c | 4 ++--
 src/sparse/symv.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..5080d13 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -97,8 +97,8 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..15e7991 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -194,8 +194,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From b1bbff0821e6eaa7d3c4d556f14b4055368bd79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 26/86] fix: symmetric and triangular sparse products and
 solves reject matrices that are not square

Errors are stored in the configuration block, too.
---
 src/sparse/symv.c | 6 ++----
 src/sparse/trmv.c | 8 +++++---
 src/sparse/trsv.c | 5 +++--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 15e7991..de87a89 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -192,10 +192,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && ((flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
+    int ok = A->rows == A->cols
+        && armas_size(y) == A->rows && armas_size(x) == A->cols;
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..41f7a41 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -209,12 +209,14 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
+    }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..557b288 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -208,12 +208,13 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-- 
2.43.0


From b7876b5d84c34f15759e75f518bca67f54db192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 27/86] fix: armas_lqreflector compares the size of T with the
 number of reflectors

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..240f8be 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -310,7 +310,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From fc38abeb5baae28418b1881b411b427b311b643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 28/86] fix: configuration is parsed from copies of the
 environment strings

The parsers wrote into the strings returned by getenv(3), which truncated
them for child processes and for another instance of the library.
---
 src/base/accel.c | 6 +++++-
 src/base/env.c   | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..30b76b6 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -6,6 +6,7 @@
 // any later version. See the COPYING file included in this archive.
 
 #define _GNU_SOURCE
+#include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 #include <stdio.h>
@@ -215,10 +216,12 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 void armas_ac_read_env(struct armas_ac_env *env)
 {
     int n, val;
-    char *tok, *cstr;
+    char *tok, *cstr, *copy;
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
+    // work on a copy; parsing would truncate the environment of the process
     cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     CPU_ZERO(&env->cpus);
 
     /* parse string:
@@ -244,6 +247,7 @@ void armas_ac_read_env(struct armas_ac_env *env)
             break;
         }
     }
+    free(copy);
 }
 
 static struct armas_ac_env env = {
diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..9d042e7 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -66,13 +66,15 @@ static int has_read_environment = 0;
 static
 void armas_read_environment()
 {
-    char *cstr, *tok;
+    char *cstr, *copy, *tok;
     int n, val;
 
     if (has_read_environment)
         return;
 
+    // work on copies; strsep(3) would truncate the environment of the process
     cstr = getenv(ENV_ARMAS_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         val = atoi(tok);
@@ -107,9 +109,11 @@ void armas_read_environment()
             break;
         }
     }
+    free(copy);
 
     // get cache memory size; L2MEM,L1MEM
     cstr = getenv(ENV_ARMAS_CACHE);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     if (cstr) {
         char *endptr;
         size_t val;
@@ -140,6 +144,7 @@ void armas_read_environment()
             }
         }
     }
+    free(copy);
 
     has_read_environment = 1;
 }
-- 
2.43.0


From 9be8994cb1d15e295e7feaed40ea9d2ed563505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 29/86] fix: CPU ranges with zero step do not loop forever

---
 src/base/accel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/accel.c b/src/base/accel.c
index 30b76b6..242b4ac 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -195,6 +195,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
                 ;
                 *s1 = '\0';
                 step = strtol(s1 + 1, NULL, 10);
+                if (step < 1)
+                    step = 1;
             }
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
-- 
2.43.0


From 0a413b2f6e5af160b3368a03250c3e0d48b75aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 30/86] fix: pivoting passes the caller's configuration to the
 row and column swaps

---
 src/base/pivot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index 342c7e7..dd61ff2 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -143,7 +143,7 @@ void swap_rows(armas_dense_t * A, int src, int dst, armas_conf_t * conf)
 
     armas_submatrix(&r0, A, src, 0, 1, A->cols);
     armas_submatrix(&r1, A, dst, 0, 1, A->cols);
-    armas_swap(&r0, &r1, (armas_conf_t *) 0);
+    armas_swap(&r0, &r1, conf);
 }
 
 /*
@@ -160,7 +160,7 @@ void swap_cols(armas_dense_t * A, int src, int dst, armas_conf_t * conf)
 
     armas_submatrix(&r0, A, 0, src, A->rows, 1);
     armas_submatrix(&r1, A, 0, dst, A->rows, 1);
-    armas_swap(&r0, &r1, (armas_conf_t *) 0);
+    armas_swap(&r0, &r1, conf);
 }
 
 /*
-- 
2.43.0


From f4ee7eebf0e32e277ee5be6f94d58fd1070c7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 31/86] fix: work scheduling draws random numbers from state of
 its own

lrand48(3) shares its unprotected state with the whole process.
---
 src/workers/workers.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..a8ba8b4 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -57,6 +57,7 @@ typedef struct armas_ac_sched_workers {
     unsigned int rrindex;
     unsigned int status;
     unsigned int nsched;
+    unsigned short rstate[3];
 } armas_scheduler_t;
 
 static inline
@@ -219,8 +220,8 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
             j = sched->rrindex;
             sched->rrindex = (sched->rrindex + 1) % sched->nworker;
         } else {
-            k = lrand48() % sched->nworker;
-            for (j = k; j == k; j = lrand48() % sched->nworker);
+            k = nrand48(sched->rstate) % sched->nworker;
+            for (j = k; j == k; j = nrand48(sched->rstate) % sched->nworker);
         }
         taskq_write(&sched->workers[k].inqueue, task);
         taskq_write(&sched->workers[j].inqueue, task);
@@ -232,7 +233,7 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
         k = sched->rrindex;
         sched->rrindex = (sched->rrindex + 1) % sched->nworker;
     } else {
-        k = lrand48() % sched->nworker;
+        k = nrand48(sched->rstate) % sched->nworker;
     }
     taskq_write(&sched->workers[k].inqueue, task);
     return 0;
-- 
2.43.0


From 797c058b01477beab62d1a9eee45d64d2105b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 32/86] fix: single precision accumulators do not carry the
 double precision names

Both libraries defined armas_d_accum_*; in a program linked with both one of
them got the routines of the wrong precision.
---
 src/include/float32/names_sparse.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/include/float32/names_sparse.h b/src/include/float32/names_sparse.h
index f8149b0..a03c33d 100644
--- a/src/include/float32/names_sparse.h
+++ b/src/include/float32/names_sparse.h
@@ -10,9 +10,9 @@
 
 #ifndef CONFIG_NOTYPENAMES
 /* sparse.h */
-#define armas_sparse_t        armas_d_sparse_t
-#define armas_spvec_t         armas_d_spvec_t
-#define armas_accum_t         armas_d_accum_t
+#define armas_sparse_t        armas_s_sparse_t
+#define armas_spvec_t         armas_s_spvec_t
+#define armas_accum_t         armas_s_accum_t
 #define armassp_precond_t     armassp_s_precond_t
 
 #define armassp_bytes_needed  armassp_s_bytes_needed
@@ -35,18 +35,18 @@
 /* sparse matrix core functions defined */
 #define armassp_core            1
 /* accumulator functions */
-#define armas_accum_t         armas_d_accum_t
-#define armas_accum_bytes     armas_d_accum_bytes
-#define armas_accum_dim       armas_d_accum_dim
-#define armas_accum_make      armas_d_accum_make
-#define armas_accum_allocate  armas_d_accum_allocate
-#define armas_accum_release   armas_d_accum_release
-#define armas_accum_addpos    armas_d_accum_addpod
-#define armas_accum_scatter   armas_d_accum_scatter
-#define armas_accum_gather    armas_d_accum_gather
-#define armas_accum_clear     armas_d_accum_clear
-#define armas_accum_dot       armas_d_accum_dot
-#define armas_accum_need      armas_d_accum_need
+#define armas_accum_t         armas_s_accum_t
+#define armas_accum_bytes     armas_s_accum_bytes
+#define armas_accum_dim       armas_s_accum_dim
+#define armas_accum_make      armas_s_accum_make
+#define armas_accum_allocate  armas_s_accum_allocate
+#define armas_accum_release   armas_s_accum_release
+#define armas_accum_addpos    armas_s_accum_addpod
+#define armas_accum_scatter   armas_s_accum_scatter
+#define armas_accum_gather    armas_s_accum_gather
+#define armas_accum_clear     armas_s_accum_clear
+#define armas_accum_dot       armas_s_accum_dot
+#define armas_accum_need      armas_s_accum_need
 #define armas_accumulator     1
 
 /* convert.c */
-- 
2.43.0


From 2f0889a9a15912ef9117f24f25ffaa203512ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 33/86] fix: the symbol of armas_accum_addpos is spelled like
 its name

---
 src/include/float32/names_sparse.h | 2 +-
 src/include/float64/names_sparse.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/float32/names_sparse.h b/src/include/float32/names_sparse.h
index a03c33d..af853a7 100644
--- a/src/include/float32/names_sparse.h
+++ b/src/include/float32/names_sparse.h
@@ -41,7 +41,7 @@
 #define armas_accum_make      armas_s_accum_make
 #define armas_accum_allocate  armas_s_accum_allocate
 #define armas_accum_release   armas_s_accum_release
-#define armas_accum_addpos    armas_s_accum_addpod
+#define armas_accum_addpos    armas_s_accum_addpos
 #define armas_accum_scatter   armas_s_accum_scatter
 #define armas_accum_gather    armas_s_accum_gather
 #define armas_accum_clear     armas_s_accum_clear
diff --git a/src/include/float64/names_sparse.h b/src/include/float64/names_sparse.h
index 662f147..d372845 100644
--- a/src/include/float64/names_sparse.h
+++ b/src/include/float64/names_sparse.h
@@ -41,7 +41,7 @@
 #define armas_accum_make      armas_d_accum_make
 #define armas_accum_allocate  armas_d_accum_allocate
 #define armas_accum_release   armas_d_accum_release
-#define armas_accum_addpos    armas_d_accum_addpod
+#define armas_accum_addpos    armas_d_accum_addpos
 #define armas_accum_scatter   armas_d_accum_scatter
 #define armas_accum_gather    armas_d_accum_gather
 #define armas_accum_clear     armas_d_accum_clear
-- 
2.43.0


From 4291cbf494cc679f9a044ed9fcc7cf6eb3600305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 34/86] fix: mmload stores an unset value for lines that do not
 parse

---
 src/io/iomm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 15c7c81..760e7d0 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -306,7 +306,7 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
             //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
+            if (read_value(iobuf, &v) != 1)
                 goto endloop;
 
             if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
@@ -326,7 +326,7 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             }
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
+            if (read_line(iobuf, &r, &c, &v) != 3)
                 goto endloop;
             // indexing starting from 1
             r--; c--;
-- 
2.43.0


From af16cab13575483a913c89eeb731870747d87386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 35/86] fix: armas_pivot_rows and armas_pivot_cols fail without
 setting the error code

---
 src/base/pivot.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index dd61ff2..d39cea2 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -231,10 +231,12 @@ void apply_col_pivots(armas_dense_t * A, armas_pivot_t * P,
 int armas_pivot_rows(armas_dense_t * A, armas_pivot_t * P, int flags,
                        armas_conf_t * conf)
 {
-    if (A->rows < P->npivots)
-        return -1;
     if (!conf)
         conf = armas_conf_default();
+    if (A->rows < P->npivots) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     apply_row_pivots(A, P, flags, conf);
     return 0;
@@ -248,10 +250,12 @@ int armas_pivot_rows(armas_dense_t * A, armas_pivot_t * P, int flags,
 int armas_pivot_cols(armas_dense_t * A, armas_pivot_t * P, int flags,
                        armas_conf_t * conf)
 {
-    if (A->cols < P->npivots)
-        return -1;
     if (!conf)
         conf = armas_conf_default();
+    if (A->cols < P->npivots) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     apply_col_pivots(A, P, flags, conf);
     return 0;
-- 
2.43.0


From c1662b8d7761e374bb0d818b49c5302c2b193a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 36/86] fix: armas_trdbisect fails without setting the error
 code

---
 src/lapack/trdbis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..b144c50 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -264,7 +264,8 @@ int armas_trdbisect(armas_dense_t * Y,
     for (int k = first; k < last; k++) {
         eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
         if (isnan(eigen)) {
-            return -1;
+            conf->error = ARMAS_ECONVERGE;
+            return -ARMAS_ECONVERGE;
         }
         armas_set_unsafe(Y, k, 0, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
-- 
2.43.0


From 8d8ce65d8a6dd434c99c72d6bf66c61d7af43df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 37/86] fix: conjugate gradient solvers report missing
 convergence with its error code

---
 src/sparse/cgne.c   | 6 +++++-
 src/sparse/cgnr.c   | 6 +++++-
 src/sparse/cgrad.c  | 6 +++++-
 src/sparse/dense.c  | 3 ++-
 src/sparse/pcgrad.c | 4 ++++
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..578d75f 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -212,7 +212,11 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (niter >= maxiter) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..735619f 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -202,7 +202,11 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (niter >= maxiter) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..8a55f3f 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -194,7 +194,11 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (niter >= maxiter) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/dense.c b/src/sparse/dense.c
index 89ce9e3..bd015f4 100644
--- a/src/sparse/dense.c
+++ b/src/sparse/dense.c
@@ -57,7 +57,8 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
         }
         break;
     default:
-        stat = -1;
+        cf->error = ARMAS_EINVAL;
+        stat = -ARMAS_EINVAL;
         break;
     }
     return stat;
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..a62fd19 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -211,6 +211,10 @@ int armassp_pcgrad_w(armas_dense_t * x,
     cf->residual = SQRT(dot_rz1);
 
     armas_wsetpos(W, wpos);
+    if (niter >= maxiter) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From dae7ccbb69d9f7289b14e76285a22168e4589f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 38/86] fix: armas_cbuf_select fails without setting the error
 code

---
 src/base/cache.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..db31150 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -497,7 +497,10 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         }
     }
     if (cf && (cf->optflags & ARMAS_CBUF_LOCAL) != 0) {
-        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : -1;
+        if (armas_cbuf_init(cbuf, env->cmem, env->l1mem))
+            return 0;
+        cf->error = ARMAS_EMEMORY;
+        return -ARMAS_EMEMORY;
     }
 
     cb = armas_cbuf_create_thread_global();
@@ -505,7 +508,9 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         *cbuf = *cb;
         return 0;
     }
-    return -1;
+    if (cf)
+        cf->error = ARMAS_EMEMORY;
+    return -ARMAS_EMEMORY;
 }
 
 //! @}
-- 
2.43.0


From 60e79c75208196d7c49356b8cc8580bb0cd1abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 39/86] fix: armassp_pgmres_w fails without setting the error
 code

---
 src/sparse/pgmres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..aa4a7a5 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -275,7 +275,8 @@ int armassp_pgmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
     if (!A) {
-        return -1;
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
     }
 
     n = A->cols;
-- 
2.43.0


From ba93b0bd96ad27a574a9a72b82cc12ac9e2101af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 40/86] fix: armassp_multto_w returns the codes it records and
 gives the workspace back

---
 src/sparse/mult.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 1241491..da74435 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -352,18 +352,18 @@ int armassp_multto_w(armas_sparse_t * C,
     size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
     if (armassp_nbytes(C) < cbytes) {
         cf->error = ARMAS_ESIZE;
-        return -2;
+        return -ARMAS_ESIZE;
     }
 
     size_t sz = armas_accum_need(C);
     if (armas_wbytes(w) < sz) {
         cf->error = ARMAS_EWORK;
-        return -3;
+        return -ARMAS_EWORK;
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    size_t wpos = armas_wpos(w);
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz), sz);
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -392,6 +392,7 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    armas_wsetpos(w, wpos);
     return stat;
 }
 
-- 
2.43.0


From c637bf12d789e38977c44873bf3250082228127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 41/86] fix: armassp_pgmres_w reserved more than a small
 workspace holds

---
 src/sparse/pgmres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index aa4a7a5..efac6e3 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -296,6 +296,9 @@ int armassp_pgmres_w(armas_dense_t * x,
         cf->error = ARMAS_EWORK;
         return -1;
     }
+    // restart length that fits to the workspace
+    if (me < m)
+        m = me;
     maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From d37af02335c29e1442bd10ce0b73b305db4c75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 42/86] fix: least squares solvers and small SVD report a
 failing orthogonal transformation

---
 src/lapack/lqsolve.c | 6 ++++--
 src/lapack/qrsolve.c | 6 ++++--
 src/lapack/svd.c     | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..5b85c89 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -148,7 +148,8 @@ int armas_lqsolve_w(armas_dense_t * B,
         // solve least square problem min || A.T*X - B ||
 
         // B' = Q.T*B
-        armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
+        if (armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf) < 0)
+            return -conf->error;
 
         // X = L.-1*B'
         armas_solve_trm(&BL, ONE, &L,
@@ -164,7 +165,8 @@ int armas_lqsolve_w(armas_dense_t * B,
         armas_mscale(&BB, ZERO, 0, conf);
 
         // X = Q.T*B'
-        armas_lqmult_w(B, A, tau, ARMAS_LEFT|ARMAS_TRANS, wb, conf);
+        if (armas_lqmult_w(B, A, tau, ARMAS_LEFT|ARMAS_TRANS, wb, conf) < 0)
+            return -conf->error;
     }
     return 0;
 }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..c4a76b1 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -145,12 +145,14 @@ int armas_qrsolve_w(armas_dense_t * B,
         armas_mscale(&BB, 0.0, 0, conf);
 
         // X = Q*B
-        armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
+        if (armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf) < 0)
+            return -conf->error;
     } else {
         // solve least square problem min || A*X - B ||
 
         // B' = Q.T*B
-        armas_qrmult_w (B, A, tau, ARMAS_LEFT | ARMAS_TRANS, wb, conf);
+        if (armas_qrmult_w (B, A, tau, ARMAS_LEFT | ARMAS_TRANS, wb, conf) < 0)
+            return -conf->error;
 
         // X = R.-1*B'
         armas_solve_trm (&BT, ONE, &R, ARMAS_LEFT | ARMAS_UPPER, conf);
diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..8c27701 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -80,7 +80,8 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
             if (N == 1) {
                 if (U->cols == A->cols) {
                     armas_copy(U, A, conf);
-                    armas_qrbuild_w(U, &tau, N, wb, conf);
+                    if (armas_qrbuild_w(U, &tau, N, wb, conf) < 0)
+                        return -ARMAS_ESVD_LEFT;
                 } else {
                     // U is M-by-M
                     armas_set_values(U, zeros, ARMAS_SYMM | ARMAS_UNIT);
@@ -97,7 +98,8 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
             if (M == 1) {
                 if (V->rows == A->rows) {
                     armas_copy(V, A, conf);
-                    armas_lqbuild_w(V, &tau, M, wb, conf);
+                    if (armas_lqbuild_w(V, &tau, M, wb, conf) < 0)
+                        return -ARMAS_ESVD_RIGHT;
                 } else {
                     // V is N-by-N
                     armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
-- 
2.43.0


From 5282fa65218ee888214ae1cad6c1fc9652420700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 43/86] fix: LU factorization forgets a singular pivot that is
 not in the last column

---
 src/lapack/lu.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 6a9f3d2..7fbac5a 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -145,7 +145,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +236,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From 49cde880c9fdf4367f548763cb1f4ae151eacf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 44/86] fix: SVD of slightly tall matrix runs out of workspace

---
 src/lapack/svd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8c27701..0b5164b 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -274,6 +274,7 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
-- 
2.43.0


From 03965784d5462d103e14bbbcb9ca9e7fde7b5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 45/86] fix: SVD without vectors reserves from a workspace that
 is too small

---
 src/lapack/svd.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 0b5164b..12fa9cc 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -220,11 +220,11 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * N * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
+    // space for the reflectors or for the rotations
+    wsz = (flags & (ARMAS_WANTU | ARMAS_WANTV)) ? 4 * N : 2 * N;
+    if (armas_wbytes(wb) < wsz * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
 
     wsz = armas_wpos(wb);
@@ -350,11 +350,11 @@ int armas_svd_wide(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * M * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
+    // space for the reflectors or for the rotations
+    wsz = (flags & (ARMAS_WANTU | ARMAS_WANTV)) ? 4 * M : 2 * M;
+    if (armas_wbytes(wb) < wsz * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
 
     wsz = armas_wpos(wb);
-- 
2.43.0


From 66ab220b19ece59d09a4f8fb3b9f4f19c1cc726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 46/86] fix: failing SVD keeps its workspace reservations

---
 src/lapack/svd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 12fa9cc..4b1e456 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -661,6 +661,7 @@ int armas_svd_w(armas_dense_t * S,
         }
     }
 
+    size_t wpos = armas_wpos(wb);
     int K = armas_wbytes(wb) / sizeof(DTYPE);
     armas_make(&W, K, 1, K, armas_wptr(wb));
 
@@ -677,6 +678,7 @@ int armas_svd_w(armas_dense_t * S,
             err = armas_svd_wide(S, U, V, A, flags, wb, conf);
         }
     }
+    armas_wsetpos(wb, wpos);
     return err;
 }
 #else
-- 
2.43.0


From 291246f59a89131d7efedd71f0026f8defb10686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 47/86] fix: armas_housemult_w does not test that its workspace
 suffices

---
 src/lapack/housem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..8982d6b 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -346,6 +346,10 @@ int armas_housemult_w(armas_dense_t * X,
     wptr = __nil;
     if (!armas_isvector(X)) {
         int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        if (armas_wbytes(wb) < nelem * sizeof(DTYPE)) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
-- 
2.43.0


From 794bea4ab70455766793d55f5a21ba67ebacc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 48/86] fix: armas_eigen_sym_selected_w does not test that its
 workspace suffices

---
 src/lapack/evd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index f341408..00208d4 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -301,7 +301,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
+    if (!wb || (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From 6a46cd6d90aade94ad8b93e222ad66d8afd3d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 49/86] fix: workspace of CGNR solver is too small

---
 src/sparse/cgnr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 735619f..68032f6 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,7 +47,7 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  (2*((n) + (m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
-- 
2.43.0


From 817489d99efd84bfe93c186bc8da8a2027d23ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 50/86] fix: failing armas_eigen_sym_w keeps its workspace
 reservations

---
 src/lapack/evd.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 00208d4..ac26c43 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -185,8 +185,10 @@ int armas_eigen_sym_w(armas_dense_t * D,
     armas_make(&tau, N, 1, N, buf);
 
     // reduce to tridiagonal form
-    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0)
+    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0) {
+        armas_wsetpos(wb, wpos);
         return -2;
+    }
 
     // copy diagonals
     armas_diag(&sD, A, 0);
@@ -196,16 +198,20 @@ int armas_eigen_sym_w(armas_dense_t * D,
 
     // if vectors required, build in A
     if (flags & ARMAS_WANTV) {
-        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0)
+        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0) {
+            armas_wsetpos(wb, wpos);
             return -3;
+        }
         vv = A;
     }
     // reset reservations workspace
     armas_wsetpos(wb, wpt);
 
     // compute eigenvalues/vectors of tridiagonal matrix
-    if (armas_trdeigen_w(D, &E, vv, flags, wb, conf) != 0)
+    if (armas_trdeigen_w(D, &E, vv, flags, wb, conf) != 0) {
+        armas_wsetpos(wb, wpos);
         return -4;
+    }
 
     armas_wsetpos(wb, wpos);
     return 0;
-- 
2.43.0


From 9f6832c1cf0ce05815c33a4f5143a907d0cb3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 51/86] fix: armas_eigen_sym_w reserves a negative count for an
 empty matrix

---
 src/lapack/evd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index ac26c43..f2eb069 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -151,6 +151,8 @@ int armas_eigen_sym_w(armas_dense_t * D,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (N == 0)
+        return 0;
     if (N == 1) {
         armas_set_at_unsafe(D, 0, armas_get_unsafe(A, 0, 0));
         if (flags & ARMAS_WANTV) {
-- 
2.43.0


From 057c292bce1b2d8967c0067567df1c0bb7d62223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 52/86] fix: generating Q of LQ or RQ factorization of a short
 wide matrix writes past the workspace

---
 src/lapack/lqbld.c | 2 +-
 src/lapack/rqbld.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..2c90068 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..3b83b90 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From 7298b4f0adc1fbcec452d666a6bf1d532ad24269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 53/86] fix: armas_qrtfactor_w accepts an empty workspace when
 the block covers all columns

---
 src/lapack/qrt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..82075b3 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -253,7 +253,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 6b7dbcc1ef77b61139605f8cf2b2de8d598868c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 54/86] fix: armas_ext_solve_trm_w ignores the part of the
 workspace that is reserved

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index aa110bf..1ab9f20 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -809,7 +809,7 @@ int armas_ext_solve_trm_w(
         armas_cbuf_release(&cbuf);
         return 0;
     }
-    int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
+    int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
     if (ncol < 4) {
         armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
-- 
2.43.0


From d8c51b631c0925768b2f58a9eefa9c88d06fcdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 55/86] fix: generating Q of RQ factorization computes its
 block size from the wrong dimension

---
 src/lapack/rqbld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3b83b90..280d91f 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -281,7 +281,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     if (lb > 0 && A->rows > lb) {
         wsz /= sizeof(DTYPE);
         if (wsz < A->rows * lb) {
-            lb = (wsz / A->cols) & ~0x3;
+            lb = (wsz / A->rows) & ~0x3;
             if (lb < ARMAS_BLOCKING_MIN)
                 lb = 0;
         }
-- 
2.43.0


From 33e7fd3aff94d8a724839d561d0357e4f7ed43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 56/86] fix: workspace query of armas_housemult_w with a vector
 multiplies the vector

---
 src/lapack/housem.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 8982d6b..59933a7 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -320,10 +320,12 @@ int armas_housemult_w(armas_dense_t * X,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
-        // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
-        wb->bytes = nelem * sizeof(DTYPE);
+    if (wb && wb->bytes == 0) {
+        // compute workspace size; none for vector
+        if (!armas_isvector(X)) {
+            int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+            wb->bytes = nelem * sizeof(DTYPE);
+        }
         return 0;
     }
     // check parameter sizes;
-- 
2.43.0


From c6eefe3daed08dcbc8cb8469f126b730ca090cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 57/86] fix: workspace query of armas_cholfactor_w without
 pivoting factors the matrix

---
 src/lapack/chol.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..e4af3ba 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -354,11 +354,13 @@ int armas_cholfactor_w(armas_dense_t * A, armas_pivot_t * P,
         return -ARMAS_EINVAL;
     }
     env = armas_getenv();
-    if (P != ARMAS_NOPIVOT) {
-        if (wb && wb->bytes == 0) {
+    if (wb && wb->bytes == 0) {
+        // workspace only for pivoting factorization
+        if (P != ARMAS_NOPIVOT)
             wb->bytes = A->cols * sizeof(DTYPE);
-            return 0;
-        }
+        return 0;
+    }
+    if (P != ARMAS_NOPIVOT) {
         // working space is N elements for blocked factorization
         if (env->lb > 0 && A->cols > env->lb) {
             if (!wb || armas_wbytes(wb) < A->cols * sizeof(DTYPE))
-- 
2.43.0


From 92da46d82731c167a81ebb7ffe31c9a362fffc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 58/86] fix: GMRES solvers refuse the workspace they ask for
 when restart length is less than 3

---
 src/sparse/gmres.c  | 3 +++
 src/sparse/pgmres.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..1b7aeda 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -391,6 +391,9 @@ int GMRES_WSIZE_MGS(int n, int m)
 static inline
 int GMRES_WSIZE(int n, int m)
 {
+    // not less than what compute_m() accepts
+    if (m < 3)
+        m = 3;
     //return (n*m + (m+1)*m + n)*sizeof(DTYPE);
     return (n + 3) * (m + 2) * sizeof(DTYPE);
 }
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index efac6e3..787cd83 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -197,6 +197,9 @@ int pgmres_hh_pfused(armas_dense_t * x,
 static inline
 int GMRES_WSIZE(int n, int m)
 {
+    // not less than what compute_m() accepts
+    if (m < 3)
+        m = 3;
     return (n + 3) * (m + 2) * sizeof(DTYPE);
 }
 
-- 
2.43.0


From 0aa4840c90d14015b84d64692ab1cf23d315b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 59/86] fix: block below the diagonal block has the columns of
 the block above it when moving to top left

---
 src/include/partition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/partition.h b/src/include/partition.h
index f419a4f..6a88238 100644
--- a/src/include/partition.h
+++ b/src/include/partition.h
@@ -489,7 +489,7 @@ void mat_continue_3x3to2x2(armas_dense_t *ATL, armas_dense_t *ATR,
         if (ATR)
             armas_submatrix_unsafe(ATR, A, 0, kc, kr, A->cols-kc);
         if (ABL)
-            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, A->cols-kc);
+            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, kc);
         armas_submatrix_unsafe(ABR, A, kr, kc, A->rows-kr, A->cols-kc);
         break;
     }
-- 
2.43.0


From 6d353d47432d222dd6c30912da373b956e52a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 60/86] fix: first pivot block is limited to the size of the
 table also when starting from the bottom

---
 src/include/pivot.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/pivot.h b/src/include/pivot.h
index 106d448..fedf0f0 100644
--- a/src/include/pivot.h
+++ b/src/include/pivot.h
@@ -49,10 +49,11 @@ void subpivot(armas_pivot_t *pA, armas_pivot_t *pB, int K, int N)
 static inline
 void pivot_2x1(armas_pivot_t *pT, armas_pivot_t *pB, armas_pivot_t *P, int nb, int side)
 {
+    if (nb > P->npivots)
+        nb = P->npivots;
+
     switch (side) {
     case ARMAS_PTOP:
-        if (nb > P->npivots)
-            nb = P->npivots;
         subpivot(pT, P, 0, nb);
         subpivot(pB, P, nb, P->npivots-nb);
         break;
-- 
2.43.0


From 1a21314d3e67999bf20dd42c69d7656c82db0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 61/86] fix: fortran gemm gives transposed operands the size of
 the untransposed

---
 src/compat/gemm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..b15bd06 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,18 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
-
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) == 'T') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From 985508c9752698112800b69cc492a0658378ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 62/86] fix: cblas_gemm multiplies wrong operands when matrices
 are in row major order

---
 src/compat/gemm.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index b15bd06..c071566 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -78,22 +78,22 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
-            // error: M > lda
+        // row major matrix is transpose of column major; C^T = op(B)^T * op(A)^T
+        if (transa == CblasTrans) {
+            flags |= ARMAS_TRANSB;
             armas_make(&Aa, M, K, lda, A);
         } else {
-            // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
+        if (transb == CblasTrans) {
+            flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From 94ec8a56feb546237efa86792b325e7dc824e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 63/86] fix: cblas_symm gives the symmetric operand size of the
 other side in column major order

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From 0e7bb0caa8ec60eeac1c7f57128040250fc48874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 64/86] fix: cblas_trmm transposes the triangular operand and
 mixes sizes in row major order

---
 src/compat/trmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..eaa360c 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From edaa08ea04e49cff79bb3fb017a05f190a4da025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 65/86] fix: cblas_trsm transposes the triangular operand and
 mixes sizes in row major order

---
 src/compat/trsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..41cd3f1 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From a0c094b10c3a66a8bbf309513357a39dd57b8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 66/86] fix: fortran syr2k reads second operand with leading
 dimension of the first

---
 src/compat/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..2ff11fa 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From 33e5aa5fa094b356f40b5f974c356894d3fedfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 67/86] fix: fortran scal takes its arguments in wrong order

---
 src/compat/scal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..950a44f 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,7 +24,7 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
-- 
2.43.0


From f9a566dd1bceca38f78e6811822011bb31d7d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 68/86] fix: fortran iamax returns index that starts from zero

---
 src/compat/iamax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..60c3c32 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -34,7 +34,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // index of the first element is one
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
-- 
2.43.0


From 5788e92db1edd15061a22afe80ae70e7366863ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 69/86] fix: fortran rotg does not return the length of the
 vector

---
 src/compat/rot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..10453eb 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -74,6 +74,7 @@ void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
     DTYPE r;
     armas_gvcompute(c, s, &r, *sa, *sb);
+    *sa = r;
 }
 #endif
 
-- 
2.43.0


From 00b5720dccdcaa779333821d83111ba3ed1bffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 70/86] fix: fortran syr2k has wrong name

---
 src/include/float32/names_compat.h | 2 +-
 src/include/float64/names_compat.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/float32/names_compat.h b/src/include/float32/names_compat.h
index 7747fcc..8c800d5 100644
--- a/src/include/float32/names_compat.h
+++ b/src/include/float32/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  sgemm_
 #define blas_symmf  ssymm_
-#define blas_syr2kf ssyrk2_
+#define blas_syr2kf ssyr2k_
 #define blas_syrkf  ssyrk_
 #define blas_trmmf  strmm_
 #define blas_trsmf  strsm_
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From ea56e84cdb41af59a48a031410d1763f1666f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 71/86] fix: fortran gemv, ger, syr2, trmv and trsm are never
 built

---
 src/compat/gemv.c | 4 ++--
 src/compat/ger.c  | 2 +-
 src/compat/syr2.c | 2 +-
 src/compat/trmv.c | 2 +-
 src/compat/trsm.c | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..d3ccdef 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..84c0799 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..4b06f25 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..418c8fc 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 41cd3f1..3190d6e 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
-- 
2.43.0


From aa3b0f4c3c5aa9a76b49a8f092e4f99934407693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 72/86] fix: conjugate transpose of compat functions does not
 transpose

---
 src/compat/gemm.c  | 12 ++++++------
 src/compat/gemv.c  |  4 ++--
 src/compat/syr2k.c |  4 ++--
 src/compat/syrk.c  |  4 ++--
 src/compat/trmm.c  |  6 +++---
 src/compat/trmv.c  |  4 ++--
 src/compat/trsm.c  |  6 +++---
 src/compat/trsv.c  |  4 ++--
 8 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index c071566..6b2d603 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,13 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    if (toupper(*transa) == 'T') {
+    if (toupper(*transa) != 'N') {
         flags |= ARMAS_TRANSA;
         armas_make(&a, *k, *m, *lda, A);
     } else {
         armas_make(&a, *m, *k, *lda, A);
     }
-    if (toupper(*transb) == 'T') {
+    if (toupper(*transb) != 'N') {
         flags |= ARMAS_TRANSB;
         armas_make(&b, *n, *k, *ldb, B);
     } else {
@@ -61,7 +61,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -69,7 +69,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
@@ -79,13 +79,13 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         break;
     case CblasRowMajor:
         // row major matrix is transpose of column major; C^T = op(B)^T * op(A)^T
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Aa, M, K, lda, A);
         } else {
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index d3ccdef..465249c 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
@@ -74,7 +74,7 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     case CblasColMajor:
     default:
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         ylen = flags & ARMAS_TRANS ? N : M;
         xlen = flags & ARMAS_TRANS ? M : N;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 2ff11fa..a7bd5fe 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -71,7 +71,7 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
             armas_make(&Ba, K, N, ldb, B);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..89875ec 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -68,7 +68,7 @@ void cblas_syrk(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
         } else {
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index eaa360c..50861cf 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,7 +86,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 418c8fc..7c2e5bc 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -75,7 +75,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 3190d6e..80fd329 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,7 +86,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..a1b196b 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -75,7 +75,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-- 
2.43.0


From be3f101ac85ed801d2c63a2f9420093ba8386e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 73/86] fix: accelerated gemm slices conjugate transposed
 operands as if they were not transposed

---
 src/threaded/gemm.c | 7 ++++++-
 src/workers/gemm.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..92e5be5 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,20 +47,25 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB | ARMAS_CTRANSA | ARMAS_CTRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
+    case ARMAS_TRANSA | ARMAS_CTRANSB:
+    case ARMAS_CTRANSA | ARMAS_TRANSB:
+    case ARMAS_CTRANSA | ARMAS_CTRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
         armas_submatrix_unsafe(
             &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
         break;
     case ARMAS_TRANSA:
+    case ARMAS_CTRANSA:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
         armas_submatrix_unsafe(
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
         break;
     case ARMAS_TRANSB:
+    case ARMAS_CTRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
         armas_submatrix_unsafe(
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..39e6280 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,20 +50,25 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB | ARMAS_CTRANSA | ARMAS_CTRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
+    case ARMAS_TRANSA | ARMAS_CTRANSB:
+    case ARMAS_CTRANSA | ARMAS_TRANSB:
+    case ARMAS_CTRANSA | ARMAS_CTRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
         armas_submatrix_unsafe(
             &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
         break;
     case ARMAS_TRANSA:
+    case ARMAS_CTRANSA:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
         armas_submatrix_unsafe(
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
         break;
     case ARMAS_TRANSB:
+    case ARMAS_CTRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
         armas_submatrix_unsafe(
-- 
2.43.0


From d49d4746c61bcc812bb4ea19d4acc2b3e5f8df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 74/86] fix: threads of accelerated gemm leak their cache
 buffer

---
 src/threaded/gemm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 92e5be5..e0fa084 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -91,6 +91,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
-- 
2.43.0


From b5574c359a29677a8ded4ad0c5d32f68c204ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 75/86] fix: accelerator ignores failures of its threads and
 skips blocks when a thread is not created

---
 src/threaded/gemm.c | 20 ++++++++++++++------
 src/threaded/symm.c | 20 ++++++++++++++------
 src/threaded/trmm.c | 20 ++++++++++++++------
 src/threaded/trsm.c | 20 ++++++++++++++------
 4 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index e0fa084..d29468f 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -105,7 +105,7 @@ int threaded_mult_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, rc;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -131,20 +131,28 @@ int threaded_mult_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     //printf("create thread %d\n", thread);
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* no more threads; compute block in this thread. */
+        args.is_last = 1;
+        compute_block(&args);
     }
-    err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
+    rc = threaded_mult_recursive(thread+1, nthreads, blas, cf);
 
     //printf("wait thread %d\n", thread);
-    pthread_join(th, NULL);
-    return err;
+    if (!err)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        rc = -args.error;
+    }
+    return rc;
 }
 
 int armas_ac_threaded_mult(
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..480d825 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -94,7 +94,7 @@ int threaded_mult_sym_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, rc;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -119,19 +119,27 @@ int threaded_mult_sym_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* no more threads; compute block in this thread. */
+        args.is_last = 1;
+        compute_block(&args);
     }
 
-    err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
+    rc = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
-    return err;
+    if (!err)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        rc = -args.error;
+    }
+    return rc;
 }
 
 int armas_ac_threaded_mult_sym(
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..bee9125 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -75,7 +75,7 @@ void *compute_block(void *argptr)
 static
 int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3 *blas, armas_conf_t *cf)
 {
-    int err;
+    int err, rc;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -101,18 +101,26 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* no more threads; compute block in this thread. */
+        args.is_last = 1;
+        compute_block(&args);
     }
-    err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
+    rc = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
-    return err;
+    if (!err)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        rc = -args.error;
+    }
+    return rc;
 }
 
 int armas_ac_threaded_mult_trm(struct armas_ac_blas3 *args, armas_conf_t *cf, struct armas_threaded_conf *acf)
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..2ed00a7 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -75,7 +75,7 @@ int threaded_solve_trm_recursive(
     struct armas_ac_blas3 *blas,
     armas_conf_t *cf)
 {
-    int err;
+    int err, rc;
     pthread_t th;
     struct armas_ac_block args;
 
@@ -101,18 +101,26 @@ int threaded_solve_trm_recursive(
     /* last block directly in main thread. */
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* no more threads; compute block in this thread. */
+        args.is_last = 1;
+        compute_block(&args);
     }
-    err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
+    rc = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
 
-    pthread_join(th, NULL);
-    return err;
+    if (!err)
+        pthread_join(th, NULL);
+    if (args.error) {
+        cf->error = args.error;
+        rc = -args.error;
+    }
+    return rc;
 }
 
 int armas_ac_threaded_solve_trm(struct armas_ac_blas3 *args, armas_conf_t *cf, struct armas_threaded_conf *acf)
-- 
2.43.0


From e79fe605edef3923832aebcfc1af3b8b9eb026e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 76/86] fix: waiting for a counter or a barrier returns on
 spurious wakeup

---
 src/workers/counter.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..88db531 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
@@ -47,6 +47,7 @@ struct armas_ac_barrier {
     int count;
     int current;
     int increment;
+    int phase;
     pthread_mutex_t lock;
     pthread_cond_t ready;
 };
@@ -57,6 +58,7 @@ void armas_barrier_init(struct armas_ac_barrier *b, int nthreads)
     b->count = nthreads;
     b->current = 0;
     b->increment = 0;
+    b->phase = 0;
     pthread_mutex_init(&b->lock, NULL);
     pthread_cond_init(&b->ready, NULL);
 }
@@ -74,8 +76,12 @@ void armas_barrier_synchronize(struct armas_ac_barrier *b)
     assert(b->increment == 1 || b->increment == -1);
     b->current += b->increment;
     if (b->current != 0 && b->current != b->count) {
-        pthread_cond_wait(&b->ready, &b->lock);
+        int phase = b->phase;
+        while (phase == b->phase) {
+            pthread_cond_wait(&b->ready, &b->lock);
+        }
     } else {
+        b->phase++;
         pthread_cond_broadcast(&b->ready);
     }
     pthread_mutex_unlock(&b->lock);
-- 
2.43.0


From 833205cca08d7f18f3ef8bacb3f6e2b8b0c593f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 77/86] fix: removing a task from a full queue does not wake up
 threads that wait for free space

---
 src/workers/queue.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..858fe8f 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -188,7 +188,7 @@ static inline
 void taskq_wait_while_empty(struct armas_ac_queue *ch)
 {
     pthread_mutex_lock(&ch->mlock);
-    if (ch->count == 0) {
+    while (ch->count == 0) {
         pthread_cond_wait(&ch->empty, &ch->mlock);
     }
     pthread_mutex_unlock(&ch->mlock);
@@ -213,8 +213,8 @@ static inline
 void taskq_wait_while_full(struct armas_ac_queue *ch)
 {
     pthread_mutex_lock(&ch->mlock);
-    if (ch->count == ch->size) {
-        pthread_cond_wait(&ch->empty, &ch->mlock);
+    while (ch->count == ch->size) {
+        pthread_cond_wait(&ch->full, &ch->mlock);
     }
     pthread_mutex_unlock(&ch->mlock);
 }
-- 
2.43.0


From 69fcd87e9ba9eafd0ef6bcc2c5e30910d716f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 78/86] fix: timed waits of task queue time out immediately

---
 src/workers/queue.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 858fe8f..961749e 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -3,6 +3,7 @@
 #define ARMAS_QUEUE_H 1
 
 #include <stddef.h>
+#include <time.h>
 #include <pthread.h>
 #include "accel.h"
 
@@ -158,11 +159,25 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
 // empty: head == tail && count == 0
 //   before sleeping try to wake up some writer
 
+/* Absolute time usec microseconds from now. */
+static inline
+void taskq_deadline(struct timespec *tm, unsigned int usec)
+{
+    clock_gettime(CLOCK_REALTIME, tm);
+    tm->tv_sec += usec / 1000000;
+    tm->tv_nsec += (usec % 1000000) * 1000L;
+    if (tm->tv_nsec >= 1000000000L) {
+        tm->tv_sec++;
+        tm->tv_nsec -= 1000000000L;
+    }
+}
+
 static inline
 int taskq_wait_until_empty(struct armas_ac_queue *ch, unsigned int usec)
 {
     int rc = 0;
-    struct timespec tm = {0, usec * 1000};
+    struct timespec tm;
+    taskq_deadline(&tm, usec);
     pthread_mutex_lock(&ch->mlock);
     if (ch->count != 0) {
         rc = pthread_cond_timedwait(&ch->empty, &ch->mlock, &tm);
@@ -175,7 +190,8 @@ static inline
 int taskq_wait_onempty(struct armas_ac_queue *ch, unsigned int usec)
 {
     int rc = 0;
-    struct timespec tm = {0, usec * 1000};
+    struct timespec tm;
+    taskq_deadline(&tm, usec);
     pthread_mutex_lock(&ch->mlock);
     if (ch->count == 0) {
         rc = pthread_cond_timedwait(&ch->empty, &ch->mlock, &tm);
@@ -200,7 +216,8 @@ static inline
 int taskq_wait_onfull(struct armas_ac_queue *ch, unsigned int usec)
 {
     int rc = 0;
-    struct timespec tm = {0, usec * 1000};
+    struct timespec tm;
+    taskq_deadline(&tm, usec);
     pthread_mutex_lock(&ch->mlock);
     if (ch->count == ch->size) {
         rc = pthread_cond_timedwait(&ch->full, &ch->mlock, &tm);
-- 
2.43.0


From 2107fdd84e21f3026b1ccb64d099ee709bf9febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 79/86] fix: release of the worker accelerator does not release
 its scheduler

---
 src/workers/entry.c     | 1 +
 src/workers/scheduler.h | 2 +-
 src/workers/workers.c   | 5 +++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
diff --git a/src/workers/workers.c b/src/workers/workers.c
index a8ba8b4..37284c6 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -167,6 +167,8 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    if (!sched->status)
+        return 0;
     for (int i = 0; i < sched->nworker; i++) {
         sched->workers[i].running = 0;
         taskq_write(&sched->workers[i].inqueue, NULL);
@@ -184,6 +186,9 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nworker; i++) {
+        taskq_release(&sched->workers[i].inqueue);
+    }
     free(sched);
     return 0;
 }
-- 
2.43.0


From a7a128e5772ff4f6904e4d4376da97c87cd52fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 80/86] fix: tasks are lost when worker threads can not be
 started, worker started late never stops

---
 src/workers/gemm.c    | 17 +++++++++++++++--
 src/workers/workers.c | 34 +++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 39e6280..9176d04 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -116,6 +116,19 @@ void armas_ac_define_block(
     }
 }
 
+/* Schedule task; compute it here if it cannot be scheduled. */
+static
+void schedule_task(
+    struct armas_ac_worker_task *task,
+    struct armas_ac_counter *ready,
+    struct armas_ac_scheduler *scheduler)
+{
+    if (armas_sched_schedule(scheduler, task) < 0) {
+        compute_block(&task->args);
+        armas_counter_decrement(ready);
+    }
+}
+
 static
 void schedule_blocks(
     struct armas_ac_blas3 *args,
@@ -138,7 +151,7 @@ void schedule_blocks(
         blkargs->is_last = k + 1 == ntask;
 
         armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-        armas_sched_schedule(scheduler, &tasks[k]);
+        schedule_task(&tasks[k], ready, scheduler);
     }
 }
 
@@ -176,7 +189,7 @@ void schedule_tiles(
             blkargs->block_index = k;
             blkargs->is_last = k + 1 == ntask;
             armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-            armas_sched_schedule(scheduler, &tasks[k]);
+            schedule_task(&tasks[k], ready, scheduler);
             k++;
         }
     }
diff --git a/src/workers/workers.c b/src/workers/workers.c
index 37284c6..1114225 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -84,8 +84,7 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
-    while (W->running) {
+    while (__atomic_load_n(&W->running, __ATOMIC_ACQUIRE)) {
         taskq_read(&W->inqueue, (void **)&T);
         if (!T) {
             continue;
@@ -111,10 +110,15 @@ void *worker_thread(void *arg)
 }
 
 static
-void worker_start(struct armas_ac_worker *W)
+int worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
-    pthread_create(&W->tid, NULL, worker_thread, W);
+    // set before thread runs; otherwise thread may miss request to stop
+    W->running = 1;
+    if (pthread_create(&W->tid, NULL, worker_thread, W) != 0) {
+        W->running = 0;
+        return -1;
+    }
     if (W->cpuid != -1) {
         // set cpu affinity
         CPU_ZERO(&cpuset);
@@ -122,7 +126,7 @@ void worker_start(struct armas_ac_worker *W)
         //printf(".. set worker %d affinity to cpu %d\n", W->id, W->cpuid);
         pthread_setaffinity_np(W->tid, sizeof(cpuset), &cpuset);
     }
-    return;
+    return 0;
 }
 
 static inline
@@ -156,9 +160,18 @@ static
 int sched_workers_start(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
-    for (int i = 0; i < sched->nworker; i++) {
-        worker_start(&sched->workers[i]);
+    int n;
+    for (n = 0; n < sched->nworker; n++) {
+        if (worker_start(&sched->workers[n]) < 0)
+            break;
+    }
+    if (n == 0)
+        return -1;
+    // continue with those that could be started
+    for (int i = n; i < sched->nworker; i++) {
+        taskq_release(&sched->workers[i].inqueue);
     }
+    sched->nworker = n;
     sched->status = 1;
     return 0;
 }
@@ -170,7 +183,7 @@ int sched_workers_stop(struct armas_ac_scheduler *sc)
     if (!sched->status)
         return 0;
     for (int i = 0; i < sched->nworker; i++) {
-        sched->workers[i].running = 0;
+        __atomic_store_n(&sched->workers[i].running, 0, __ATOMIC_RELEASE);
         taskq_write(&sched->workers[i].inqueue, NULL);
     }
     for (int i = 0; i < sched->nworker; i++) {
@@ -200,9 +213,8 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
-    if (!sched->status) {
-        armas_sched_start(sc);
-    }
+    if (!sched->status && armas_sched_start(sc) < 0)
+        return -1;
 
     // scheduling ARMAS_SCHED_WORKERS, write directly to worker queues.
     sched->nsched++;
-- 
2.43.0


From c9dbca37f6d1bbeeb245476a6998a7e249ed440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 81/86] fix: worker whose task queue is not allocated writes
 through NULL

---
 src/workers/workers.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 1114225..c72ed60 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -61,12 +61,11 @@ typedef struct armas_ac_sched_workers {
 } armas_scheduler_t;
 
 static inline
-void worker_init(
+int worker_init(
     armas_ac_worker_t *W, unsigned long id, unsigned int sz, struct armas_ac_sched_workers *sched)
 {
     W->id = id;
     W->cpuid = -1;
-    taskq_init(&W->inqueue, sz);
     W->running = 0;
     W->tid = 0;
     W->nsched = 0;
@@ -74,6 +73,7 @@ void worker_init(
     W->sched = (struct armas_ac_scheduler *)sched;
     W->cmem = 0;
     W->l1mem = 0;
+    return taskq_init(&W->inqueue, sz);
 }
 
 static
@@ -283,7 +283,13 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-        worker_init(&sc->workers[i], i+1, qlen, sc);
+        if (worker_init(&sc->workers[i], i+1, qlen, sc) < 0) {
+            while (--i >= 0) {
+                taskq_release(&sc->workers[i].inqueue);
+            }
+            free(sc);
+            return -ARMAS_EMEMORY;
+        }
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
         sc->workers[i].cpuid = last_cpu;
-- 
2.43.0


From 7cef96262327d066d24fb5c6dc90ae2f117030e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 82/86] fix: tasks of worker accelerator are released while a
 worker still has them queued, failures of workers are ignored

---
 src/workers/gemm.c    | 18 +++++++++++++++---
 src/workers/workers.h | 14 +++++---------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 9176d04..c7d28b6 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -83,6 +83,10 @@ void *compute_block(void *argptr)
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
+    if (!cbuf) {
+        args->error = ARMAS_EMEMORY;
+        return (void *)0;
+    }
     armas_env_t *env = armas_getenv();
     armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
@@ -235,11 +239,19 @@ int armas_ac_workers_mult(
 
     // wait for tasks to finish
     armas_counter_wait(&ready);
-    // verify that task worker count is zero on all tasks
-    int refcnt = worker_all_ready(tasks, ntask);
-    assert(refcnt == 0);
+    // wait until task worker count is zero on all tasks
+    worker_all_ready(tasks, ntask);
+    int error = 0;
+    for (size_t k = 0; k < ntask; k++) {
+        if (tasks[k].args.error)
+            error = tasks[k].args.error;
+    }
     // release task memory
     free(tasks);
+    if (error) {
+        cf->error = error;
+        return -error;
+    }
     return 0;
 }
 #else
diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..b563589 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -37,19 +37,15 @@ int worker_tiles(int *nrow, int *ncol, int M, int N, int wb)
     return (*nrow)*(*ncol);
 }
 
+/* Wait until no worker refers to the tasks. */
 static inline
-int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
+void worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
-    int refcount;
-    for (int k = 0; k < 50; k++) {
-        refcount = 0;
-        for (int i = 0; i < ntask; i++) {
-            refcount += tasks[i].task.wcnt;
+    for (int i = 0; i < ntask; i++) {
+        while (__atomic_load_n(&tasks[i].task.wcnt, __ATOMIC_ACQUIRE) != 0) {
+            sched_yield();
         }
-        if (refcount == 0)
-            break;
     }
-    return refcount;
 }
 
 #endif /* ARMAS_WORKERS_H */
-- 
2.43.0


From 871d1f084e765503a1ac9914052bfe522ec2c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 83/86] fix: transient threads lose tasks when they leave while
 a task is scheduled and are never joined

---
 src/workers/transient.c | 56 +++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..71e8c17 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -39,12 +39,14 @@ struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
     int running;
+    int created;
 };
 
 struct armas_ac_sched_transient {
     struct armas_ac_scheduler sched;
     struct armas_ac_queue task_queue;
     struct armas_ac_thread *threads;
+    pthread_mutex_t lock;
     unsigned int options;
     size_t nworker;
     size_t nrunning;
@@ -61,17 +63,21 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
+        // leaving and adding a task exclude each other; otherwise a task may be left without a thread
+        pthread_mutex_lock(&sc->lock);
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+            self->running = 0;
+            sc->nrunning--;
+            pthread_mutex_unlock(&sc->lock);
             break;
+        }
+        pthread_mutex_unlock(&sc->lock);
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -86,6 +92,14 @@ int sched_transient_start(struct armas_ac_scheduler *sc)
 static
 int sched_transient_stop(struct armas_ac_scheduler *sc)
 {
+    struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
+    // threads leave when there are no tasks
+    for (size_t k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].created) {
+            pthread_join(sched->threads[k].tid, NULL);
+            sched->threads[k].created = 0;
+        }
+    }
     return 0;
 }
 
@@ -105,19 +119,38 @@ static
 int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
 {
     unsigned int k;
+    int rc = 0;
     struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
+    struct armas_ac_task *T;
 
-    taskq_enqueue(&sched->task_queue, task, 1);
-    if (sched->nrunning < sched->nworker) {
-        for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
-
+    pthread_mutex_lock(&sched->lock);
+    while (taskq_enqueue_nowait(&sched->task_queue, task, 1) < 0) {
+        pthread_mutex_unlock(&sched->lock);
+        taskq_wait_onfull(&sched->task_queue, 100);
+        pthread_mutex_lock(&sched->lock);
+    }
+    for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
+    if (k < sched->nworker) {
+        if (sched->threads[k].created)
+            pthread_join(sched->threads[k].tid, NULL);
+        sched->threads[k].created = 0;
         sched->threads[k].running = 1;
         sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        if (pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]) == 0) {
+            sched->threads[k].created = 1;
+            sched->nrunning++;
+        } else {
+            sched->threads[k].running = 0;
+            // task stays in the queue if there is a thread to run it
+            if (sched->nrunning == 0) {
+                taskq_dequeue_nowait(&sched->task_queue, (void **)&T, 1);
+                rc = -1;
+            }
+        }
     }
-    return 0;
+    pthread_mutex_unlock(&sched->lock);
+    return rc;
 }
 
 static struct armas_ac_scheduler_ops ops = {
@@ -146,6 +179,7 @@ int armas_ac_sched_transient_init(struct armas_ac_scheduler **scheduler, int qle
     sc->threads = (struct armas_ac_thread *)&buf[sizeof(struct armas_ac_sched_transient)];
     sc->nworker = env->max_cores;
     sc->nrunning = 0;
+    pthread_mutex_init(&sc->lock, NULL);
     sc->options = env->options;
 
     sc->sched.vptr = &ops;
-- 
2.43.0


From 7ad16aeb035da11e0bf6a9b3760d640574a5790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 84/86] fix: armas_qsort_vec ends on vectors with repeated
 elements

After an exchange of two elements equal to the pivot neither scan moved on. The scan
upwards also looked at the element after the last before it tested the index.
---
 src/lapack/qsort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..99f2322 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,14 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +114,14 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 9c4eef23f37eb91526941bffb6c8c0c24ba41a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 85/86] fix: armas_hhouse does not rescale forever when |a11|
 equals the norm of x

---
 src/lapack/hhouse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..5818741 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -114,6 +114,11 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
     }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
+    if (beta == 0.0) {
+        // alpha^2 == normx^2; no reflector exists and no scaling makes beta nonzero
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
         printf("beta : %e\n", beta);
-- 
2.43.0


From b217a88d8559886650dbc04c6e0c4c694aafa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 86/86] fix: armas_trdbisect reports failures and its bisection
 is bounded

The library is built with -ffast-math, where isnan() is always false: an eigenvalue that was not found was
stored as NaN and success returned. With elements that are not numbers the bisection went on forever.
---
 src/lapack/trdbis.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index b144c50..7153fd7 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -68,6 +68,9 @@
  */
 
 
+// An interval of finite numbers is not halved more often than this; exponent range and digits of double.
+#define MAXBISECT 2200
+
 /*
  * Return the number of eigenvalues of a real symmetric tridiagonal matrix (D,E)
  * that are less than x.
@@ -150,34 +153,39 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
  * \param tau
  *      requested precision; must be < max|T_i|*eps
  *
- * \retval eigenvalue or NaN
+ * \param[out] value
+ *      Eigenvalue
+ *
+ * \retval  0 eigenvalue found
+ * \retval -1 eigenvalue is not in the interval, or elements are not finite numbers
  */
 static
-DTYPE trd_bisect_one(armas_dense_t * D,
+int trd_bisect_one(DTYPE * value,
+                       armas_dense_t * D,
                        armas_dense_t * E,
                        DTYPE left,
                        DTYPE right, int nleft, int nright, DTYPE tau)
 {
-    int nl, nr, nmid, working = 1;
-    DTYPE mid, eigen;
+    int nl, nr, nmid;
+    DTYPE mid;
 
     if (nleft >= nright || left > right) {
-        return NAN;
+        return -1;
     }
 
     nl = float_count_ieee(D, E, left);
     nr = float_count_ieee(D, E, right);
     if (nl > nleft || nr < nright) {
-        return NAN;
+        return -1;
     }
 
-    for (int count = 0; working; count++) {
+    for (int count = 0; count < MAXBISECT; count++) {
         // inside(l, r) (see Assumption 3 in (1))
         mid = (right + left) / 2.0;
         if (right - left < tau) {
-            eigen = MIN(MAX(mid, left), right);
-            // printf("  eigen: %e [%d iterations]\n", eigen, count);
-            working = 0;
+            *value = MIN(MAX(mid, left), right);
+            // printf("  eigen: %e [%d iterations]\n", *value, count);
+            return 0;
         } else {
             nmid = float_count_ieee(D, E, mid);
             nmid = IMIN(IMAX(nmid, nleft), nright);
@@ -191,7 +199,7 @@ DTYPE trd_bisect_one(armas_dense_t * D,
             }
         }
     }
-    return eigen;
+    return -1;
 }
 
 
@@ -262,8 +270,7 @@ int armas_trdbisect(armas_dense_t * Y,
     }
 
     for (int k = first; k < last; k++) {
-        eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
-        if (isnan(eigen)) {
+        if (trd_bisect_one(&eigen, D, E, gleft, gright, k, k + 1, tau) < 0) {
             conf->error = ARMAS_ECONVERGE;
             return -ARMAS_ECONVERGE;
         }
-- 
2.43.0

