From 9cb34795e510b609c17b9a03c8517b86c6168e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 01/23] fix: removing cancelled entries leaked stale entries
 into the following rows

---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..4ef42a4 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,10 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 start = 0;
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 end = Ap[i + 1];
+		for (i64 it = start; it < end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
@@ -52,6 +54,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			Ax[nz] = x;
 			nz += 1;
 		}
+		start = end;       /* Ap[i + 1] is about to be overwritten */
 		Ap[i + 1] = nz;
 	}
 	spasm_csr_realloc(A, -1);
-- 
2.43.0


From 0ed90c8a42ce9bb8fbdc280a2e2144ca2d77315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 02/23] fix: trimming an empty matrix dropped its array of
 values; report every failed realloc

---
 src/spasm_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..b92bb4f 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,9 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	/* realloc(ptr, 0) would return NULL, but x == NULL means "no values" in a matrix */
+	void *x = realloc(ptr, (size == 0) ? 1 : size);
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 19edd66d3d953d20662031c87204d17dcf46015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 03/23] fix: spasm_submatrix wrote out of bounds when r_1 < r_0

---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..758a095 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
-- 
2.43.0


From bbce6ca70b49fd37ac007623242a9ea8699a95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 04/23] fix: a MatrixMarket file without entries was rejected

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..5c19f04 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = (mm && nnz == 0);
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From 9c1757545746488ee9d5aae03551528fe0bf802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 05/23] fix: spasm_save_pnm aborted on gray-level images of
 zero matrices

---
 src/spasm_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 5c19f04..4b02de5 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -232,6 +232,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	double max = 0;
 	for (int j = 0; j < x * y; j++)
 		max = spasm_max(max, w[j]);
+	if (max == 0)
+		max = 1;        /* all-zero matrix: everything is background */
 
 	int bgcolor[3][3] = {
 		{0xFF0000, 0xCC0000, 0x990000},
-- 
2.43.0


From 8647eb84a7d9089fa1300b889694199fd7ef273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 06/23] fix: spasm_rank_certificate_load stored the column
 indices over the row indices

---
 src/spasm_certificate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..366388d 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -262,7 +262,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->i[k]);
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		fscanf(f, "%d", &proof->j[k]);
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->x[k]);
 	for (int k = 0; k < r; k++)
-- 
2.43.0


From 255c2c9998aa7ff276eff26832ae51bd8b896d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 07/23] fix: spasm_rank_certificate_load accepted truncated,
 non-numeric and negative-sized input

---
 src/spasm_certificate.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 366388d..edaa441 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <assert.h>
+#include <ctype.h>
 #include <math.h>
 #include <err.h>
 
@@ -243,29 +244,36 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
 	int r;
-	if (1 != fscanf(f, "%d", &r))
+	if (1 != fscanf(f, "%d", &r) || r < 0)
 		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
+	proof->i = spasm_malloc(r * sizeof(*proof->i));
+	proof->j = spasm_malloc(r * sizeof(*proof->j));
+	proof->x = spasm_malloc(r * sizeof(*proof->x));
+	proof->y = spasm_malloc(r * sizeof(*proof->y));
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
 	if (NULL == fgets(hash, 65, f))
 		return 0;
+	for (int i = 0; i < 64; i++)
+		if (!isxdigit((unsigned char) hash[i]))
+			return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->i[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->j[k]);
+		if (1 != fscanf(f, "%d", &proof->j[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
+		if (1 != fscanf(f, "%d", &proof->x[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+		if (1 != fscanf(f, "%d", &proof->y[k]))
+			return 0;
 	return 1;
 }
\ No newline at end of file
-- 
2.43.0


From 5d0c3d0d3ad725459a05828b8ce824c4a202ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 08/23] fix: spasm_factorization_verify did not check its
 allocations

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index edaa441..b3f7f36 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -173,10 +173,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0


From 419d049d48585617ebd3f3e2d468b7dfb80e5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 09/23] fix: reject invalid dimensions and coordinates in
 matrix files instead of aborting or corrupting memory

---
 src/spasm_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 4b02de5..99ba854 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -107,6 +107,11 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		fflush(stderr);
 	}
 
+	if (i < 0 || j < 0)
+		errx(1, "[spasm_triplet_load] invalid dimensions %d x %d", i, j);
+	if (nnz < 0 || nnz > INT64_MAX / (i64) sizeof(int))
+		errx(1, "[spasm_triplet_load] invalid number of entries %" PRId64, nnz);
+
 	/* allocate result */
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
@@ -133,6 +138,8 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			end = 1;
 		}
 		if (!end) {
+			if (i < 1 || j < 1)
+				errx(1, "invalid coordinates (%d, %d) line %" PRId64, i, j, line);
 			spasm_add_entry(T, i - 1, j - 1, x);
 			entries += 1;
 		}
-- 
2.43.0


From 7bf8dc0ed6dff034fb10e67187056cd0f1596f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 10/23] fix: spasm_human_format left its output uninitialized
 for numbers above 10^15

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index b92bb4f..f27c1ca 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From 8c1cdeb0cfe5bf8d583e51454ec7aa20c107184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 11/23] fix: spasm_schur_estimate_density returned NaN when all
 columns are pivotal

---
 src/spasm_schur.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..d325ff0 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -14,7 +14,7 @@ double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int
 		return 0;
 	int m = A->m;
 	i64 nnz = 0;
-	if (n == 0)
+	if (m == U->n)      /* no columns left: avoid returning 0/0 */
 		return 0;
 
 	#pragma omp parallel
-- 
2.43.0


From 1e75d9ca55710fd56a42d9d5ae96546a7727e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 12/23] fix: spasm_schur_dense_randomized used the same
 coefficients in every invocation

---
 src/spasm_schur.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index d325ff0..b1f9b46 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -357,6 +357,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 	fprintf(stderr, "[schur/dense/random] dimension %d x %d, weight %d...\n", N, Sm, w);
 	double start = spasm_wtime();
 	int verbose_step = spasm_max(1, N / 1000);
+	u32 seq = rand();          /* successive invocations must yield different linear combinations */
 
 	#pragma omp parallel
 	{
@@ -366,7 +367,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, k, seq, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From 43cce92f469ee6139fc3af096464a5d0c58035ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 13/23] fix: low-rank dense mode dropped input rows after each
 round and could return too small a rank

---
 src/spasm_echelonize.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..26f0546 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
-- 
2.43.0


From a5d17cc2aab45b58d02561eef02bac7c1145ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 14/23] fix: GPLU stopped too early when finishing on a Schur
 complement

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 26f0546..89c364a 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank (A may be a Schur complement) */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From 3b23c0eacdc7ee741fd9e2f28964620b0018d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 15/23] fix: heap overflow when the dense method builds L on a
 Schur complement

---
 src/spasm_echelonize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 89c364a..4257ef7 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -395,8 +395,9 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	int Ln = (opts->L) ? fact->Ltmp->n : 0;                              /* #rows of the original matrix (A may be a Schur complement) */
+	bool *pivotal = spasm_malloc(Ln * sizeof(*pivotal));
+	for (int i = 0; i < Ln; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From 0b6acd6d04c569cd3d0619b1f7a501862b79e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 16/23] fix: dense mode on a Schur complement skipped the
 low-rank step and returned too small a rank

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 4257ef7..24c58eb 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -407,7 +407,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, Sm);                                      /* on the rank of what remains */
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -436,7 +436,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, Sm);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From ecfb6ed9b7a81fc4644c8cf78cff4a9e788d4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 17/23] fix: spasm_kernel_from_rref stored p-1 instead of the
 canonical residue -1 (wrong kernel for p > 2^31)

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 9fbbcba230480a6a29d1ea119495a1d03ac5606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 18/23] fix: bitmap computed an empty image (and wrote out of
 bounds) when only one of --width / --height is given

---
 tools/bitmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..f68661c 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -60,13 +60,13 @@ int main(int argc, char **argv) {
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = (i64) m * h / n;
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = (i64) n * w / m;
 
-	w = spasm_min(w, m);
-	h = spasm_min(h, n);
+	w = spasm_max(spasm_min(w, m), 1);
+	h = spasm_max(spasm_min(h, n), 1);
 
 	/* go */
 	spasm_save_pnm(A, stdout, w, h, mode, NULL);
-- 
2.43.0


From 53283bbaf8555f0c19cbc48a81a59f1191610040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 19/23] fix: dm --image wrote out of bounds on matrices much
 longer than wide

---
 tools/dm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dm.c b/tools/dm.c
index b6ec6de..fbfdcf1 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -99,8 +99,8 @@ int main(int argc, char **argv) {
     case 'i':
         ;
         double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
-        int w = alpha * m;
-        int h = alpha * n;
+        int w = spasm_max((int) (alpha * m), 1);
+        int h = spasm_max((int) (alpha * n), 1);
         spasm_save_pnm(B, stdout, w, h, 3, DM);
         break;
     }    
-- 
2.43.0


From 1bc5716871789232a8b4b9af69e068350a998ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 20/23] fix: check_cert announced the opposite of its verdict
 and verified certificates it failed to load

---
 tools/check_cert.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..7a783d2 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,13 +70,11 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
-
-	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
+	bool correct = spasm_rank_certificate_load(f, &proof) && spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From 224eb4f7e990ebf2aa65647798ca5f7178840eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 21/23] fix: rank wrote certificates of the transpose (refused
 by check_cert) for matrices with more columns than rows

---
 tools/rank.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..e7c99d4 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,8 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	/* a certificate must refer to the matrix in the file, not to its transpose */
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From 796a32b7122de55d861b115345d1b67346c4d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 22/23] fix: echelonize --modulus did not accept moduli above
 2^31

---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 450152cceddfb9886164d248c88f094a2fa76fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 23/23] fix: release the workspace of the Dulmage-Mendelsohn
 decomposition and of the strongly connected components

---
 src/spasm_dm.c  | 4 ++++
 src/spasm_scc.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..7486af5 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdlib.h>
 
 #include "spasm.h"
 
@@ -137,6 +138,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(imatch);
+	free(jmatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +151,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..98590fa 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -112,6 +112,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 	free(stack);
 	free(pstack);
 	free(marks);
+	free(prev);
 	free(lowlink);
 	return P;
 }
-- 
2.43.0

