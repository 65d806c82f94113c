From 81dd2480fc10fc64eb97be80e08645403f19af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 01/36] fix: remove_explicit_zeroes reads each row from its
 original start

Ap[i+1] was overwritten before row i+1 was scanned, so when duplicates
cancelled to zero, leftover entries of the previous row leaked into the next one.
---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..a2aa05e 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,10 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 row_start = Ap[0];
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 row_end = Ap[i + 1];
+		for (i64 it = row_start; it < row_end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
@@ -53,6 +55,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			nz += 1;
 		}
 		Ap[i + 1] = nz;
+		row_start = row_end;
 	}
 	spasm_csr_realloc(A, -1);
 }
-- 
2.43.0


From f418ee41cf0beaf39529f826375c4d5a9a1ee973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 02/36] fix: spasm_submatrix with an empty (reversed) row range
 wrote before the row pointers

---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..758a095 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
-- 
2.43.0


From a5c6687513ed38db29011ffdf3daf45b4d674913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 03/36] fix: spasm_realloc never turns an existing array into
 NULL

Shrinking an empty matrix to its content (realloc to size 0) made A->x NULL, i.e. a
pattern-only matrix, and failures with ptr == NULL went undetected.
---
 src/spasm_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..ecd7c0d 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,10 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	/* realloc(ptr, 0) may free ptr and return NULL: always keep a valid block,
+	   because callers use "pointer == NULL" to denote absent data */
+	void *x = realloc(ptr, size > 0 ? size : 1);
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 1d198a874e973d9a7d516cd6ab16e4594f2646bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 04/36] fix: spasm_kernel_from_rref emits the canonical
 representative of -1

prime - 1 is outside the balanced range and overflows int for p > 2^31.
---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 099236c3f3b26cc8949b9876edce354fe00900e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 05/36] fix: spasm_schur_estimate_density returned NaN when
 every column is pivotal

---
 src/spasm_schur.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..aeee775 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -14,8 +14,8 @@ double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int
 		return 0;
 	int m = A->m;
 	i64 nnz = 0;
-	if (n == 0)
-		return 0;
+	if (m == U->n)
+		return 0;               /* no non-pivotal column: the schur complement is empty */
 
 	#pragma omp parallel
 	{
-- 
2.43.0


From ee17633b91101dd086bbd67bab27bcc1b08a0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 06/36] fix: low-rank echelonization reused one set of
 combinations (infinite loop) and dropped unprocessed rows

---
 src/spasm_echelonize.c | 7 +++----
 src/spasm_schur.c      | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..64967a5 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -351,7 +351,8 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			break;		
 		fprintf(stderr, "[echelonize/dense/low-rank] Round %d. Weight %d. Processing chunk (%d x %d), |U| = %"PRId64"\n", 
 			round, w, Sn, Sm, spasm_nnz(U));
-		spasm_schur_dense_randomized(A, p, n, U, Uqinv, S, datatype, q, Sn, w);
+		/* full linear combinations (w <= 0) : use fresh ones in each round, not those of the completion test */
+		spasm_schur_dense_randomized(A, p, n, U, Uqinv, S, datatype, q, Sn, (w > 0) ? w : -(round + 1));
 		int rr = spasm_ffpack_rref(prime, Sn, Sm, S, Sm, datatype, Sp);
 
 		if (rr == 0) {
@@ -359,14 +360,12 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 				break;
 			fprintf(stderr, "[echelonize/dense/low-rank] Failed termination test; switching to full linear combinations\n");
 			w = 0;
-			Sn = omp_get_max_threads();
 		}
-		if (rr < 0.9 * Sn) {
+		if (w > 0 && rr < 0.9 * Sn) {
 			w *= 2;
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index aeee775..c587c2b 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -338,6 +338,7 @@ void spasm_schur_dense(const struct spasm_csr *A, const int *p, int n, const int
  * Assumes that pivots are first entries of the row
  * if w > 0, take random linear combinations of subsets of w rows, 
  *    otherwise, take random linear combinations of all the rows
+ *    (different values of w <= 0 yield different pseudo-random combinations)
  * S must be preallocated of dimension N * (A->m - U->n)
  * S implicitly has dimension N x (m - npiv), row major, lds == m-npiv.
  * q must be preallocated of size at least (m - U->n).
@@ -366,7 +367,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, k, (w < 0) ? -w : 0, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From 1773f45ba2d5eb64c0f9b0b08785ad89d10f6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 07/36] fix: GPLU stopped too early after Schur rounds (wrong
 rank upper bound)

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 64967a5..81c01d9 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank: known pivots + remaining rows */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From 15e4b5f50090e298692b440d697ab4a5e36ead80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 08/36] fix: dense echelonization dropped rows after Schur
 rounds (wrong rank upper bound)

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 81c01d9..87f5f28 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -406,7 +406,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, Sm);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -435,7 +435,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, Sm);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From a41b0a95453e139a95b198f7ccdb7dc6fc917f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 09/36] fix: heap overflow in dense LU after Schur rounds
 (pivotal rows are original rows)

---
 src/spasm_echelonize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 87f5f28..2194d75 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -395,8 +395,9 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	int n_orig = (fact->Ltmp != NULL) ? fact->Ltmp->n : A->n;            /* #rows of the original matrix */
+	bool *pivotal = spasm_malloc(n_orig * sizeof(*pivotal));
+	for (int i = 0; i < n_orig; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From a9cd178ad4e13397338672c01a3271e8e9af1c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 10/36] fix: spasm_rank_certificate_load read the column
 indices into the row indices

---
 src/spasm_certificate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..366388d 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -262,7 +262,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->i[k]);
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		fscanf(f, "%d", &proof->j[k]);
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->x[k]);
 	for (int k = 0; k < r; k++)
-- 
2.43.0


From 6dd1848167e450cc37a44869c35a1e321ac69a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 11/36] fix: spasm_certificate_rank_verify refuses a negative
 rank

---
 src/spasm_certificate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 366388d..aa67168 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -107,6 +107,8 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	if (spasm_get_prime(A) != proof->prime)
 		return 0;
 
+	if (r < 0)
+		return 0;
 	for (int k = 0; k < r; k++) {
 		if (proof->i[k] < 0 || proof->i[k] >= n)
 			return 0;
-- 
2.43.0


From 5a5565bb2aff181deb43579f677542f39d1e32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 12/36] fix: spasm_certificate_rank_verify let a certificate
 replace its y coordinates by the challenge (sentinel collision)

---
 src/spasm_certificate.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index aa67168..c3f5da8 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -139,17 +139,18 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	}
 
 	/* check Ay */
-	spasm_ZZp BOT = 0x7fffffff;        /* compute y */
+	bool *pivotal = spasm_malloc(n * sizeof(*pivotal));        /* compute y */
 	for (int i = 0; i < n; i++)
-		x[i] = BOT;
+		pivotal[i] = 0;
 	for (int k = 0; k < r; k++) {
 		int i = proof->i[k];
+		pivotal[i] = 1;
 		x[i] = proof->y[k];
 	}
-	//int k = 0;
 	for (int i = 0; i < n; i++)
-		if (x[i] == BOT)
+		if (!pivotal[i])
 			x[i] = spasm_prng_ZZp(&ctx);
+	free(pivotal);
 	for (int j = 0; j < m; j++)
 		y[j] = 0;
 	spasm_xApy(x, A, y);
-- 
2.43.0


From fe3733f12da03e5ecac67b4d122f41ba438dcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 13/36] fix: spasm_rank_certificate_load accepted truncated and
 malformed certificates

---
 src/spasm_certificate.c | 76 ++++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c3f5da8..18e83c4 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -3,6 +3,8 @@
 #include <assert.h>
 #include <math.h>
 #include <err.h>
+#include <string.h>
+#include <ctype.h>
 
 #include "spasm.h"
 
@@ -243,32 +245,68 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	fprintf(f, "\n");
 }
 
+/* read an integer between lo and hi, followed by a white space; return true on success */
+static bool read_integer(FILE *f, i64 lo, i64 hi, i64 *value)
+{
+	char c;
+	if (2 != fscanf(f, "%20" SCNd64 "%c", value, &c))
+		return 0;
+	return isspace((unsigned char) c) && lo <= *value && *value <= hi;
+}
+
+/* read r integers; return NULL on failure */
+static int * read_integers(FILE *f, int r)
+{
+	int *T = NULL;
+	i64 size = 0;
+	for (int k = 0; k < r; k++) {
+		i64 x;
+		if (!read_integer(f, INT32_MIN, INT32_MAX, &x)) {
+			free(T);
+			return NULL;
+		}
+		if (k == size) {             /* r is not trusted: grow with the actual content */
+			size = spasm_min((i64) r, 2 * size + 1024);
+			T = spasm_realloc(T, size * sizeof(*T));
+		}
+		T[k] = x;
+	}
+	return (T == NULL) ? spasm_malloc(sizeof(*T)) : T;
+}
+
+/* return true if a well-formed certificate has been read. Otherwise, proof owns no memory */
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
-	int r;
-	if (1 != fscanf(f, "%d", &r))
+	i64 r;
+	char hash[65], c;
+	proof->i = proof->j = NULL;
+	proof->x = proof->y = NULL;
+	if (!read_integer(f, 0, INT32_MAX, &r))
 		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
-	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
+	if (!read_integer(f, 0, UINT32_MAX, &proof->prime))
 		return 0;
-	char hash[65];
-	if (NULL == fgets(hash, 65, f))
+	if (2 != fscanf(f, " %64[0-9a-fA-F]%c", hash, &c) || strlen(hash) != 64 || !isspace((unsigned char) c))
 		return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->j[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
-	return 1;
-}
\ No newline at end of file
+	bool ok = (proof->i = read_integers(f, r)) != NULL
+		&& (proof->j = read_integers(f, r)) != NULL
+		&& (proof->x = read_integers(f, r)) != NULL
+		&& (proof->y = read_integers(f, r)) != NULL;
+	if (ok && fscanf(f, " %c", &c) == 1)
+		ok = 0;                      /* something after the end */
+	if (ok && ferror(f))
+		ok = 0;
+	if (!ok) {
+		free(proof->i);
+		free(proof->j);
+		free(proof->x);
+		free(proof->y);
+		proof->i = proof->j = NULL;
+		proof->x = proof->y = NULL;
+	}
+	return ok;
+}
-- 
2.43.0


From a4ef67ada911e225a62092fc3a50a566f745ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 14/36] fix: spasm_triplet_load refused MatrixMarket files
 without entries

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..8593b7d 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = mm && (nnz == 0);
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From ca32daf7b28ac7f895bccc2d9f98ce0d0919c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 15/36] fix: spasm_triplet_load accepted malformed lines
 (trailing text, overflowing numbers, indices outside the matrix)

---
 src/spasm_io.c | 65 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 8593b7d..a305e63 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -5,6 +5,8 @@
 #include <err.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "spasm.h"
 
@@ -25,6 +27,46 @@ static bool read_line(const char *fn, i64 line, char *buffer, int size, spasm_sh
  	return 0;
 }
 
+/* read an integer in [0:max]; return a pointer to what follows or NULL on failure */
+static const char * parse_nonnegative(const char *s, i64 max, i64 *value)
+{
+	char *end;
+	errno = 0;
+	*value = strtoll(s, &end, 10);
+	if (end == s || errno != 0 || *value < 0 || *value > max)
+		return NULL;
+	return (*end == '\0' || isspace((unsigned char) *end)) ? end : NULL;
+}
+
+static bool is_blank(const char *s)
+{
+	while (isspace((unsigned char) *s))
+		s++;
+	return *s == '\0';
+}
+
+/* parse a line "i j x", i and j at most n and m. If values are not needed, x may be followed by anything */
+static bool parse_entry(const char *s, int n, int m, bool values, int *i, int *j, i64 *x)
+{
+	char *end;
+	i64 ii, jj;
+	s = parse_nonnegative(s, n, &ii);
+	if (s == NULL)
+		return 0;
+	s = parse_nonnegative(s, m, &jj);
+	if (s == NULL)
+		return 0;
+	errno = 0;
+	*x = strtoll(s, &end, 10);
+	if (end == s)
+		return 0;
+	if (values && (errno != 0 || !is_blank(end)))
+		return 0;
+	*i = ii;
+	*j = jj;
+	return 1;
+}
+
 static void validate_mm_header(const char *buffer)
 {
 	char mtx[1024], crd[1024], data_type[1024], storage_scheme[1024];
@@ -61,6 +103,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	assert(f != NULL);
 	double start = spasm_wtime();
 	int i, j;
+	i64 n, m;
 	i64 nnz = 1;
 	char buffer[1024];
 	char hnnz[16];
@@ -90,25 +133,33 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			if (buffer[0] != '%')
 				break;
 		}
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &nnz) != 3)
+		const char *s = parse_nonnegative(buffer, INT_MAX, &n);
+		if (s != NULL)
+			s = parse_nonnegative(s, INT_MAX, &m);
+		if (s != NULL)
+			s = parse_nonnegative(s, LLONG_MAX, &nnz);
+		if (s == NULL || !is_blank(s))
 			errx(1, "[spasm_triplet_load] bad MatrixMarking dimensions (line %" PRId64 ")\n", line);
 		spasm_human_format(nnz, hnnz);
-		fprintf(stderr, "[IO] loading %d x %d MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
-			i, j, prime, hnnz);
+		fprintf(stderr, "[IO] loading %" PRId64 " x %" PRId64 " MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
+			n, m, prime, hnnz);
 		fflush(stderr);
 	} else {
 		/* SMS header */
 		char type;
-		if (sscanf(buffer, "%d %d %c\n", &i, &j, &type) != 3)
+		const char *s = parse_nonnegative(buffer, INT_MAX, &n);
+		if (s != NULL)
+			s = parse_nonnegative(s, INT_MAX, &m);
+		if (s == NULL || sscanf(s, " %c", &type) != 1)
 			errx(1, "[spasm_triplet_load] bad SMS file (header)\n");
 		if (prime != -1 && type != 'M')
 			errx(1, "[spasm_triplet_load] only ``Modular'' type supported\n");
-		fprintf(stderr, "[IO] loading %d x %d SMS matrix modulo %" PRId64 "... ", i, j, prime);
+		fprintf(stderr, "[IO] loading %" PRId64 " x %" PRId64 " SMS matrix modulo %" PRId64 "... ", n, m, prime);
 		fflush(stderr);
 	}
 
 	/* allocate result */
-	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
+	struct spasm_triplet *T = spasm_triplet_alloc(n, m, nnz, prime, prime != -1);
 
 	i64 x;
 	bool end = mm && (nnz == 0);
@@ -125,7 +176,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (!end && eof)
 			errx(1, "[spasm_triplet_load] premature end of file (line %" PRId64 ", read %" PRId64" nz)", line, entries);
 
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &x) != 3)
+		if (!parse_entry(buffer, n, m, prime != -1, &i, &j, &x))
 			errx(1, "parse error line %" PRId64, line);
 		if (i == 0 && j == 0 && x == 0) {
 			if (mm)
-- 
2.43.0


From f3750a7ba00a13658e41127c1282100e48ae92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 16/36] fix: report memory exhaustion in
 spasm_factorization_verify

The four work vectors came from unchecked malloc() calls: a failing request
led to a write through a null pointer instead of an error report.
---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 18e83c4..054d966 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -177,10 +177,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0


From 21f6b38dfe5e52640e2b631684c0e636694d8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 17/36] fix: grey pictures of matrices without any entry

spasm_save_pnm() computed log(0 / 0) in mode 2 when the matrix has no entry at
all and died on its own assertion.
---
 src/spasm_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index a305e63..d032b1e 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -319,7 +319,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 				fprintf(f, "%d ", (w[i * x + j] > 0) ? 1 : 0);
 				break;
 			case 2: 
-				intensity = 1.0 - exp(0.1 * log(w[i * x + j] / max));
+				/* empty regions are white (in particular when there are no entries at all) */
+				intensity = (w[i * x + j] == 0) ? 1.0 : 1.0 - exp(0.1 * log(w[i * x + j] / max));
 				/* intensity = 1.0 - ((double) w[i * x + j]) / max; */
 				assert(0 <= intensity && intensity <= 1.0);
 				fprintf(f, "%.0f ", 255.0 * intensity);
-- 
2.43.0


From 17b5052909710dcfbd4c6e0acf0e2e15beb83070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 18/36] fix: division by zero when drawing an empty matrix with
 a block decomposition

The limits of the blocks were scaled by y / n and x / m even when n or m is zero.
---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index d032b1e..acf22d0 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -294,7 +294,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int limits_v[2] = {};
 	int *r = NULL, *c = NULL;
 
-	if (DM != NULL) {
+	if (DM != NULL && x > 0 && y > 0) {     /* no pixels, no limits */
 		int *rr = DM->rr;
 		int *cc = DM->cc;
 		limits_h[0] = ((long long int) cc[2]) * ((long long int) x) / ((long long int) m);
-- 
2.43.0


From 8f3bcb7a06bf4974ea32fdde69ff3b22ae2eb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 19/36] fix: check_cert announced the opposite verdict

Correct certificates were reported as INCORRECT, with a failing exit status, and
incorrect ones as CORRECT with a successful one.
---
 tools/check_cert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..977f10a 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -74,9 +74,9 @@ int main(int argc, char **argv)
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From a029d7ad65245b0716677b2ab19aab3e3ccfb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 20/36] fix: check_cert verified an uninitialised certificate
 when the file is malformed

The result of spasm_rank_certificate_load() was ignored.
---
 tools/check_cert.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 977f10a..189e975 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,9 +70,11 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	bool readable = spasm_rank_certificate_load(f, &proof);
+	if (!readable)
+		fprintf(stderr, "The certificate is malformed\n");
 
-	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
+	bool correct = readable && spasm_certificate_rank_verify(A, hash, &proof);
 	
 	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
-- 
2.43.0


From d284b9e8bcde1dfa8a6b26317bf1b4a9a01de06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/36] fix: rank certificates of wide matrices are about the
 input matrix

The rank program transposed matrices with more columns than rows, and then wrote
a certificate for the transpose, which the checking program refuses.
---
 tools/rank.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..95d4548 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,8 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	/* a rank certificate is about the input matrix, not about its transpose */
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From af94e32533401de72d82b5435d1918319ab74ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 22/36] fix: the echelonize program truncated moduli above 2^31

--modulus was read with atoi(), contrary to the other programs.
---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 95bbfeef37f0234c52cacf6b2df3d63624a3a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 23/36] fix: bitmap --width or --height alone did not keep the
 proportions

The missing dimension was computed with an integer quotient, which is zero as
soon as the picture is smaller than the matrix (the picture then has no pixel
and the entries were counted outside of it).
---
 tools/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..f8b9778 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -60,10 +60,10 @@ int main(int argc, char **argv) {
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = ((double) m) * h / spasm_max(n, 1);
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = ((double) n) * w / spasm_max(m, 1);
 
 	w = spasm_min(w, m);
 	h = spasm_min(h, n);
-- 
2.43.0


From 0455b41a6576585ad6d2022b6b15e10789d2e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 24/36] fix: pictures of very flat, very tall or empty matrices

The size deduced from the number of megapixels could be zero (entries were then
counted outside of the picture), or the conversion of an infinite or undefined
floating-point number.
---
 tools/bitmap.c | 7 ++++---
 tools/dm.c     | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index f8b9778..9104c24 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -53,7 +53,7 @@ int main(int argc, char **argv) {
 	if (mpix < 0 && w < 0 && h < 0)
 		mpix = 1;
 	
-	if (mpix > 0 && w < 0 && h < 0) {
+	if (mpix > 0 && w < 0 && h < 0 && n > 0 && m > 0) {
 		double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
 		w = alpha * m;
 		h = alpha * n;
@@ -65,8 +65,9 @@ int main(int argc, char **argv) {
 	if ((mpix < 0) && (w > 0) && (h < 0))
 		h = ((double) n) * w / spasm_max(m, 1);
 
-	w = spasm_min(w, m);
-	h = spasm_min(h, n);
+	/* at least one pixel, unless the matrix is empty */
+	w = spasm_min(spasm_max(w, 1), m);
+	h = spasm_min(spasm_max(h, 1), n);
 
 	/* go */
 	spasm_save_pnm(A, stdout, w, h, mode, NULL);
diff --git a/tools/dm.c b/tools/dm.c
index b6ec6de..4e9d299 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -98,9 +98,12 @@ int main(int argc, char **argv) {
 
     case 'i':
         ;
-        double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
+        double alpha = (n > 0 && m > 0) ? sqrt((mpix * 1e6) / (((double) n) * m)) : 0;
         int w = alpha * m;
         int h = alpha * n;
+        /* at least one pixel, unless the matrix is empty */
+        w = spasm_min(spasm_max(w, 1), m);
+        h = spasm_min(spasm_max(h, 1), n);
         spasm_save_pnm(B, stdout, w, h, 3, DM);
         break;
     }    
-- 
2.43.0


From 490db65f70660f77e59e0976d2a2d7c09d169a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 25/36] fix: the programs crashed or went on with a negative
 modulus

A negative modulus means "do not load the values" inside the library: the
programs either crashed on the missing values or printed a meaningless result.
---
 tools/common.c     | 2 ++
 tools/echelonize.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/common.c b/tools/common.c
index 25b7b21..4d8541f 100644
--- a/tools/common.c
+++ b/tools/common.c
@@ -30,6 +30,8 @@ error_t parse_input_opt(int key, char *arg, struct argp_state *state)
 		break;
 	case 'p':
 		arguments->prime = atoll(arg);
+		if (arguments->prime < 2)
+			errx(1, "invalid modulus ``%s''", arg);
 		break;
 	default:
 		return ARGP_ERR_UNKNOWN;
diff --git a/tools/echelonize.c b/tools/echelonize.c
index 40e007c..9c4d448 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -28,6 +28,8 @@ void parse_command_line_options(int argc, char **argv)
 		switch (ch) {
 		case 'p':
 			prime = atoll(optarg);
+			if (prime < 2)
+				errx(1, "invalid modulus ``%s''", optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From e12620d5e56b4c070f1de3f9172d6007ed85b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 26/36] fix: solve read outside of the right-hand side when it
 has the wrong number of columns

X.A == B makes sense only if A and B have the same number of columns.
---
 tools/solve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/solve.c b/tools/solve.c
index de1701e..2ee23a5 100644
--- a/tools/solve.c
+++ b/tools/solve.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <assert.h>
 #include <argp.h>
+#include <err.h>
 
 #include "spasm.h"
 #include "common.h"
@@ -88,6 +89,9 @@ int main(int argc, char **argv)
 	struct spasm_csr *B = spasm_compress(T);
 	spasm_triplet_free(T);
 
+	if (B->m != m)
+		errx(1, "A has %d columns but the right-hand side has %d", m, B->m);
+
 	/* echelonize A */
 	fprintf(stderr, "Echelonizing A\n");
 	char hnnz[8];
-- 
2.43.0


From dacfd112d79dd04d860a52d359b9f3f4bb30d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 27/36] fix: write errors went unnoticed

When a matrix, a picture or a certificate could not be written completely (full
device, I/O error), the programs left a truncated file behind and still ended
with a successful exit status.
---
 src/spasm_certificate.c |  2 ++
 src/spasm_io.c          | 10 ++++++++++
 tools/dm.c              |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 054d966..c51fe33 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -243,6 +243,8 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	for (int k = 0; k < r; k++)
 		fprintf(f, "%d ", proof->y[k]);
 	fprintf(f, "\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[certificate] write error");
 }
 
 /* read an integer between lo and hi, followed by a white space; return true on success */
diff --git a/src/spasm_io.c b/src/spasm_io.c
index acf22d0..b07684a 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -209,6 +209,13 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	return T;
 }
 
+/* a result that could not be written completely must not go unnoticed */
+static void check_written(FILE *f)
+{
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[IO] write error");
+}
+
 /*
  * save a matrix in SMS format. TODO : change name to spasm_csr_save
  */
@@ -228,6 +235,7 @@ void spasm_csr_save(const struct spasm_csr *A, FILE *f)
 			fprintf(f, "%d %d %" PRId64 "\n", i + 1, Aj[px] + 1, x);
 		}
 	fprintf(f, "0 0 0\n");
+	check_written(f);
 }
 
 /*
@@ -244,6 +252,7 @@ void spasm_triplet_save(const struct spasm_triplet *A, FILE *f)
 	for (i64 px = 0; px < nz; px++)
 		fprintf(f, "%d %d %d\n", Ai[px] + 1, Aj[px] + 1, (Ax != NULL) ? Ax[px] : 1);
 	fprintf(f, "0 0 0\n");
+	check_written(f);
 }
 
 /* Saves a PBM (bitmap) of specified dimensions of A.
@@ -360,5 +369,6 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		}
 	}
 
+	check_written(f);
 	free(w);
 }
diff --git a/tools/dm.c b/tools/dm.c
index 4e9d299..8d50883 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -90,6 +90,8 @@ int main(int argc, char **argv) {
         int v_m = cc[4] - cc[3];
         if (v_n > 0 && v_m > 0)
             printf("*) V (%d x %d)\n", v_n, v_m);
+        if (fflush(stdout) != 0)
+            err(1, "write error");
         break;
         
     case 'p':
-- 
2.43.0


From d2875a7968634e5ec8db879e58fa31e4c06f82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 28/36] fix: spasm_strongly_connected_components leaked a work
 array

---
 src/spasm_scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..9c55a0f 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -111,6 +111,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 
 	free(stack);
 	free(pstack);
+	free(prev);
 	free(marks);
 	free(lowlink);
 	return P;
-- 
2.43.0


From ba502bab457bbe24b89bb1092b305eefaf1c8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 29/36] fix: spasm_dulmage_mendelsohn leaked the matching and a
 permutation

---
 src/spasm_dm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..1048e2f 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,3 +1,4 @@
+#include <stdlib.h>
 #include <assert.h>
 
 #include "spasm.h"
@@ -137,6 +138,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(imatch);
+	free(jmatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +151,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
-- 
2.43.0


From b9e8bdcc74e9a1e4af4625bbad7c84ca2a8bea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 30/36] fix: spasm_triplet_load overflowed the heap on absurd
 MatrixMarket entry counts (and printed an uninitialised string)

---
 src/spasm_io.c   | 2 +-
 src/spasm_util.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index b07684a..c0ed79f 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -137,7 +137,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (s != NULL)
 			s = parse_nonnegative(s, INT_MAX, &m);
 		if (s != NULL)
-			s = parse_nonnegative(s, LLONG_MAX, &nnz);
+			s = parse_nonnegative(s, LLONG_MAX / sizeof(spasm_ZZp), &nnz);   /* in bytes, must fit */
 		if (s == NULL || !is_blank(s))
 			errx(1, "[spasm_triplet_load] bad MatrixMarking dimensions (line %" PRId64 ")\n", line);
 		spasm_human_format(nnz, hnnz);
diff --git a/src/spasm_util.c b/src/spasm_util.c
index ecd7c0d..ded1d03 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.0fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From 4152c54cecd3037d97e628475b18eae4accc7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 31/36] fix: spasm_strongly_connected_components truncated
 entry positions to 32 bits

---
 src/spasm_scc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 9c55a0f..f7499cd 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -58,8 +58,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 			int px2 = spasm_row_weight(A, j);
 			int px;
 			for (px = pstack[j]; px < px2; px++) {
-				int p = Ap[j] + px;
-				int k = Aj[p];
+				int k = Aj[Ap[j] + px];
 				if (marks[k] >= 0) {
 					/* update */
 					lowlink[j] = spasm_min(lowlink[j], lowlink[k]);
-- 
2.43.0


From ba24178de10280152032b5b8296b87e90007263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 32/36] fix: spasm_compress failed on more than 2^31 entries

---
 src/spasm_triplet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index a2aa05e..fa81382 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -124,7 +124,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
@@ -154,7 +154,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 
 	/* success; free w and return C */
 	char mem[16];
-	int size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
+	i64 size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
 	spasm_human_format(size, mem);
 	fprintf(stderr, "%" PRId64 " actual NZ, Mem usage = %sbyte [%.2fs]\n", spasm_nnz(C), mem, spasm_wtime() - start);
 	return C;
-- 
2.43.0


From aea743378c1672ed484068b888214eb30bfb1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 33/36] fix: spasm_rref lost the pivots located after entry
 2^31

---
 src/spasm_rref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..5c19ae7 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -134,7 +134,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
-- 
2.43.0


From 10285c2942b47765306cc1f82610a2391640a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 34/36] fix: spasm_kernel_from_rref lost the pivots located
 after entry 2^31

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 71ba2a9..00c105f 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -146,7 +146,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
-- 
2.43.0


From ccdb37d9e907157e050f064b691639dc1cf200ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 35/36] fix: spasm_submatrix overflowed its result beyond 2^31
 entries

---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 758a095..5f7a2be 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -14,7 +14,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 
 	int Bn = spasm_max(0, r_1 - r_0);
 	int Bm = spasm_max(0, c_1 - c_0);
-	i64 Bnz = spasm_max(0, Ap[r_1] - Ap[r_0]);
+	i64 Bnz = (r_0 < r_1) ? Ap[r_1] - Ap[r_0] : 0;
 	struct spasm_csr *B = spasm_csr_alloc(Bn, Bm, Bnz, prime, (A->x != NULL) && with_values);
 	i64 *Bp = B->p;
 	int *Bj = B->j;
-- 
2.43.0


From 09c6ef9cf4fbffa27b61885b28e473bc4f965de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 36/36] fix: spasm_save_pnm showed regions with more than 2^31
 entries as empty

---
 src/spasm_io.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index c0ed79f..63d1c7e 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -268,11 +268,12 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int m = A->m;
 	x = spasm_min(x, m);
 	y = spasm_min(y, n);
-	int *w = spasm_malloc(x * y * sizeof(int));
+	i64 size = (i64) x * y;
+	i64 *w = spasm_malloc(size * sizeof(*w));
 	assert(f != NULL);
 	assert((mode-1)*(mode-2)*(mode-3) == 0);
 	assert((mode != 3) || (DM != NULL));
-	for (int i = 0; i < x*y; i++)
+	for (i64 i = 0; i < size; i++)
 		w[i] = 0;
 
 	fprintf(f, "P%d\n", mode);
@@ -282,7 +283,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 
 	for (i64 i = 0; i < n; i++) {
 		i64 k = i * y / n;
-		int *ww = w + k * x;
+		i64 *ww = w + k * x;
 		for (i64 px = Ap[i]; px < Ap[i + 1]; px++) {
 			int t = ((i64) Aj[px]) * x / m;
 			ww[t] += 1;
@@ -290,8 +291,9 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	}
 
 	double max = 0;
-	for (int j = 0; j < x * y; j++)
-		max = spasm_max(max, w[j]);
+	for (i64 j = 0; j < size; j++)
+		if (max < w[j])
+			max = w[j];
 
 	int bgcolor[3][3] = {
 		{0xFF0000, 0xCC0000, 0x990000},
@@ -315,14 +317,14 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		c = DM->c;
 	}
 
-	int t = 0;
+	i64 t = 0;
 	double intensity;
 	int scc = 0;
 	int scc_left_edge = 0;
 	int scc_right_edge = 0;
 	int scc_bot_edge = 0;
-	for (int i = 0; i < y; i++) {
-		for (int j = 0; j < x; j++) {
+	for (i64 i = 0; i < y; i++) {
+		for (i64 j = 0; j < x; j++) {
 			switch(mode) {
 			case 1:
 				fprintf(f, "%d ", (w[i * x + j] > 0) ? 1 : 0);
-- 
2.43.0

