From bf62f3f34f48f5219a6ea997802758283d9161d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 01/53] fix: make deg private in the parallel conversion of
 matrix rows to basis elements

deg was shared between the threads of the parallel loop: with -t > 1 a row
could get the degree of another one (and, if that was 0, declare the ideal
to be the whole ring).
---
 src/neogb/convert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/convert.c b/src/neogb/convert.c
index 7c4bb64..6716252 100644
--- a/src/neogb/convert.c
+++ b/src/neogb/convert.c
@@ -655,7 +655,7 @@ static void convert_sparse_matrix_rows_to_basis_elements(
     deg_t pairs_deg = sht->hd[hcm[0]].deg;
     switch_hcm_data_to_basis_hash_table(hcm, bht, mat, sht);
 #pragma omp parallel for num_threads(st->nthrds) \
-    private(i, j, k)
+    private(i, j, k) lastprivate(deg)
     for (k = 0; k < np; ++k) {
         /* We first insert the highest leading monomial element to the basis
          * for a better Gebauer-Moeller application when updating the pair
-- 
2.43.0


From a5084ee5a4285782b4c112f6fd2245e31f62ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 02/53] fix: a zero generator no longer makes msolve drop
 another generator

validate_input_data() subtracted the number of zero generators from the
number of generators, and check_and_set_meta_data() subtracted it again and
imported only that many of the leading generators.
---
 src/neogb/engine.c | 7 ++++++-
 src/neogb/io.c     | 6 ++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index 4f641e1..bd84410 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -60,7 +60,12 @@ int initialize_gba_input_data(
             &reduce_gb, &truncate_lifting, &info_level);
 
     /* not enough elements available for normal form computations resp. saturation */
-    if (nr_gens <= nr_nf) {
+    int32_t nr_valid_gens = nr_gens;
+    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens; ++i) {
+        nr_valid_gens -= invalid_gens[i];
+    }
+    if (nr_valid_gens <= nr_nf) {
+        free(invalid_gens);
         return 0;
     }
     /* all data is corrupt */
diff --git a/src/neogb/io.c b/src/neogb/io.c
index e20805b..c12bf94 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -752,11 +752,9 @@ int validate_input_data(
         return 1;
     }
 
-    *nr_gensp   -=  ctr;
-
     /* recheck number of generators, if the input was only (0) then
      * no more generators are left over. */
-    if (*nr_gensp < 1) {
+    if (ngens - ctr < 1) {
         return -1;
     }
 
@@ -801,7 +799,7 @@ int32_t check_and_set_meta_data(
     }
 
     long ctr    =   0;
-    for (int i = 0; i < nr_gens; ++i) {
+    for (int i = 0; i < nr_gens-nr_nf; ++i) {
         ctr +=  invalid_gens[i];
     }
 
-- 
2.43.0


From 841f92b26049878c5a0a81fd3e2586496de71c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 03/53] fix: count the generators by the commas that separate
 them, not by lines

README: polynomials may be multiline, with ',' as separator. Several
polynomials on one line or a polynomial over several lines gave a wrong
number of generators (and a trailing comma wrote past the end of lens).
---
 src/msolve/iofiles.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..a8a0f79 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -415,11 +415,16 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* go through the comma separated polynomials (one polynomial may spread
+     * over several lines), not counting empty ones */
     else
-        while(getline(&line, &len, fh) != -1)
+        while(getdelim(&line, &len, ',', fh) != -1) {
+            char *sep = strchr(line, ',');
+            if (sep != NULL)
+                *sep = '\0';
             if (! is_line_empty(line))
                 ngens++;
+        }
 
     free(line);
     fclose(fh);
@@ -555,7 +560,7 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
     char *line  = *linep;
     int32_t i = 0, j = 0, k = 0;
     size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
+    while(i < *nr_gens && getdelim(&line, &len, ',', fh) != -1) {
         for (k = 0, j = 0; j < len; ++j) {
             if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
                 line[k++] = line[j];
-- 
2.43.0


From 6d21208f07f227b778cf02ebe5e5ddbdc9162c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:25 +0000
Subject: [PATCH 04/53] fix: read zero, unreduced and repeated terms of the
 input correctly

A term with coefficient 0 was read as having coefficient 1 in positive
characteristic, made the whole generator be ignored over the rationals, and
a coefficient divisible by the characteristic led to a crash; of terms with
the same monomial only the last one was used.
---
 src/msolve/iofiles.c | 149 +++++++++++++++++++++++++++++++------------
 1 file changed, 109 insertions(+), 40 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index a8a0f79..6870680 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -658,56 +658,33 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
-/*assumes that coeffs in file fit in word size */
+/* coefficient of a term modulo field_char; assumes that coeffs in file fit in
+ * word size */
+static int32_t get_coefficient_ff(const char *term, const int32_t field_char){
+  const char *digits = (term[0] == '+' || term[0] == '-') ? term + 1 : term;
+  int64_t cf;
+  if (isdigit((unsigned char)digits[0])) {
+    cf = (int64_t)strtol(term, NULL, 10);
+  } else {
+    cf = (term[0] == '-') ? -1 : 1;
+  }
+  cf %= field_char;
+  return (int32_t)(cf < 0 ? cf + field_char : cf);
+}
+
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
                                           data_gens_ff_t *gens, int32_t pos){
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
-  get_term(line, &prev_pos, &term, &term_size);
   if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
-    store_exponent(term, gens, pos*gens->nvars);
-    for(int j = 1; j < nterms; j++){
+    for(int j = 0; j < nterms; j++){
       get_term(line, &prev_pos, &term, &term_size);
-      if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
-        store_exponent(term, gens, (pos+j)*gens->nvars);
-      }
-      //      store_exponent(term, basis, ht);
+      gens->cfs[pos+j] = get_coefficient_ff(term, field_char);
+      store_exponent(term, gens, (pos+j)*gens->nvars);
     }
     free(term);
     return 0;
@@ -891,6 +868,97 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
 
 
 
+typedef struct {
+  const int32_t *exp;
+  int32_t nvars;
+  int32_t idx;
+} input_term_t;
+
+static int input_term_cmp(const void *a, const void *b){
+  const input_term_t *s = (const input_term_t *)a;
+  const input_term_t *t = (const input_term_t *)b;
+  for(int32_t k = 0; k < s->nvars; k++){
+    if(s->exp[k] != t->exp[k]){
+      return s->exp[k] < t->exp[k] ? -1 : 1;
+    }
+  }
+  return s->idx < t->idx ? -1 : (s->idx > t->idx);
+}
+
+/* adds the coefficient of term number src to the one of term number dst and
+ * sets the coefficient of src to zero */
+static void add_input_coefficients(data_gens_ff_t *gens, long dst, long src){
+  if(gens->field_char){
+    gens->cfs[dst] = (int32_t)(((int64_t)gens->cfs[dst] + gens->cfs[src])
+                               % gens->field_char);
+    gens->cfs[src] = 0;
+    return;
+  }
+  mpz_t *n1 = gens->mpz_cfs[2*dst], *d1 = gens->mpz_cfs[2*dst+1];
+  mpz_t *n2 = gens->mpz_cfs[2*src], *d2 = gens->mpz_cfs[2*src+1];
+  mpz_mul(*n1, *n1, *d2);
+  mpz_addmul(*n1, *n2, *d1);
+  mpz_mul(*d1, *d1, *d2);
+  mpz_set_ui(*n2, 0);
+}
+
+static int is_input_coefficient_zero(data_gens_ff_t *gens, long pos){
+  return gens->field_char ? gens->cfs[pos] == 0
+                          : mpz_sgn(*(gens->mpz_cfs[2*pos])) == 0;
+}
+
+/* adds up the terms of a generator with the same monomial and removes those
+ * whose coefficient is zero; of a zero polynomial one term is kept */
+static void collect_input_terms(data_gens_ff_t *gens){
+  const int32_t nv = gens->nvars;
+  long rd = 0, wr = 0; /* numbers of terms read resp. written */
+  for(long i = 0; i < gens->ngens; i++){
+    const int32_t len = gens->lens[i];
+    input_term_t *t = (input_term_t *)malloc((unsigned long)len * sizeof(input_term_t));
+    for(int32_t j = 0; j < len; j++){
+      t[j].exp = gens->exps + (rd+j)*nv;
+      t[j].nvars = nv;
+      t[j].idx = j;
+    }
+    qsort(t, len, sizeof(input_term_t), input_term_cmp);
+    for(int32_t j = 1, first = 0; j < len; j++){
+      if(memcmp(t[first].exp, t[j].exp, (unsigned long)nv * sizeof(int32_t)) == 0){
+        add_input_coefficients(gens, rd+t[first].idx, rd+t[j].idx);
+      } else {
+        first = j;
+      }
+    }
+    free(t);
+    const long start = wr;
+    for(int32_t j = 0; j < len; j++){
+      const long pos = rd + j;
+      if(is_input_coefficient_zero(gens, pos) && !(j == len-1 && wr == start)){
+        continue;
+      }
+      if(wr != pos){
+        memmove(gens->exps + wr*nv, gens->exps + pos*nv,
+                (unsigned long)nv * sizeof(int32_t));
+        if(gens->field_char){
+          gens->cfs[wr] = gens->cfs[pos];
+        } else {
+          mpz_swap(*(gens->mpz_cfs[2*wr]), *(gens->mpz_cfs[2*pos]));
+          mpz_swap(*(gens->mpz_cfs[2*wr+1]), *(gens->mpz_cfs[2*pos+1]));
+        }
+      }
+      wr++;
+    }
+    gens->lens[i] = (int32_t)(wr - start);
+    rd += len;
+  }
+  if(gens->field_char == 0){
+    for(long i = 2*wr; i < 2*rd; i++){
+      mpz_clear(*(gens->mpz_cfs[i]));
+      free(gens->mpz_cfs[i]);
+    }
+  }
+  gens->nterms = wr;
+}
+
 static inline void initialize_data_gens(int32_t nvars, int32_t ngens, int32_t field_char, data_gens_ff_t *gens){
   gens->nvars = nvars;
   gens->ngens = ngens;
@@ -958,6 +1026,7 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   else{
     get_coeffs_and_exponents_mpz(fh, &line, all_nterms, nr_gens, gens);
   }
+  collect_input_terms(gens);
 
   free(line);
   fclose(fh);
-- 
2.43.0


From 8cbfe1d1bd71065d8a732c6562dfe7e12daed3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:08 +0000
Subject: [PATCH 05/53] fix: variable names of 50 and more characters
 overflowed a buffer

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 6870680..887c572 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -437,7 +437,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(*prev_pos)+2) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
-- 
2.43.0


From 74bcf22f1b628e4c5407582d0803d006166d220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:53 +0000
Subject: [PATCH 06/53] fix: announce the linear form that was actually added

When a random linear form was replaced by one with coefficients k^i, the
parametrization was still printed together with the random coefficients.
---
 src/msolve/msolve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index f94692e..8eb62a6 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -606,6 +606,8 @@ static int add_linear_form_to_input_system(data_gens_ff_t *gens,
     }
     mpz_set_si(*(gens->mpz_cfs[2 * (len_new - 1)]), 1);
   }
+  /* the form just added may replace a random one */
+  gens->rand_linear = 0;
   return 1;
 }
 
-- 
2.43.0


From 5ed867d3b25c5cd39505c20cd4db4d7f0fb50a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 07/53] fix: do not shift 1 into the sign bit of an int32_t
 (undefined behaviour)

---
 src/neogb/meta_data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/meta_data.c b/src/neogb/meta_data.c
index 6705081..8adb4bf 100644
--- a/src/neogb/meta_data.c
+++ b/src/neogb/meta_data.c
@@ -39,7 +39,7 @@ md_t *copy_meta_data(
         if (md->fc < (int32_t)(1) << 16) {
             md->ff_bits = 16;
         } else {
-            if (md->fc < (int32_t)(1) << 31) {
+            if (md->fc < (uint32_t)(1) << 31) {
                 md->ff_bits = 32;
             }
         }
-- 
2.43.0


From cdb5e93be00a605bc21fb8ccc0621514754c6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 08/53] fix: a prime giving a Groebner basis of another size is
 a bad prime

gb_modular_trace_application() returned without reporting it, and the image
of the previous prime was then used a second time for Chinese remaindering:
FLINT aborted ('Impossible inverse') or the lifted data were corrupted.
---
 src/msolve/lifting-gb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 07ebb22..8b72e84 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -769,6 +769,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
       if (bs != NULL) {
         free_basis_and_only_local_hash_table_data(&bs);
       }
+      bad_primes[0] = 1;
       return;
   }
 
-- 
2.43.0


From 410d1157c8ea0b6dc243ac9b48c4d99acea9ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:56 +0000
Subject: [PATCH 09/53] fix: reset the bad prime flag before each modular step
 of the basis lifting

The flag was cleared for st->nprimes entries, but st->nprimes is zero here, so
that one bad prime made all the following primes count as bad and the
computation never terminated.
---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 8b72e84..c4cddd6 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -742,7 +742,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   /* F4 and FGLM are run using a single thread */
   /* st->nthrds is reset to its original value afterwards */
   /*at the moment multi-threading is not supprted here*/
-  memset(bad_primes, 0, (unsigned long)st->nprimes * sizeof(int));
+  bad_primes[0] = 0;
 
   bs_t *bs = NULL;
   int32_t error = 0;
-- 
2.43.0


From 66392ffebc2e01caa461508f10c31e144dfe67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:21 +0000
Subject: [PATCH 10/53] fix: stop with the error message instead of a
 segmentation fault on too large primes

The callers do not expect a NULL parametrization; the third such place already
exits.
---
 src/fglm/fglm_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index ae04cbe..309263d 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1534,7 +1534,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
   if(prime>=1518500213){
     fprintf(stderr, "Prime %u is too large.\n", prime);
     fprintf(stderr, "One needs to use updated linear algebra fglm functions\n");
-    return NULL;
+    exit(1);
   }
 
   /* to store the terms we need */
@@ -2085,7 +2085,7 @@ param_t *nmod_fglm_guess_colon(sp_matfglmcol_t *matrix,
   if(prime>=1518500213){
     fprintf(stderr, "Prime %u is too large.\n", prime);
     fprintf(stderr, "One needs to use update linear algebra fglm functions\n");
-    return NULL;
+    exit(1);
   }
 
 
-- 
2.43.0


From 036fb1020335d2d9fc0d715a7f2c597cdb7c5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 11/53] fix: reserve room in the hash table for the monomials
 of normal forms

Inserting the rows of a normal form computation could write behind the end of
the basis hash table (seen with a small table in solving mode, -s 3).
---
 src/neogb/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..7eae3b7 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -1069,9 +1069,9 @@ static inline void insert_in_basis_hash_table_pivots(
 {
     len_t l;
 
-    /* while (bht->esz - bht->eld < row[LENGTH]) {
+    while (bht->esz - bht->eld < row[LENGTH]) {
         enlarge_hash_table(bht);
-    } */
+    }
 
     const len_t len = row[LENGTH]+OFFSET;
     const len_t evl = bht->evl;
-- 
2.43.0


From 02967141198be4f843d7faf9ba7bf2c45f551b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 12/53] fix: enlarge the hash table also when it is completely
 full

Other places leave the table with eld == esz, so that testing for esz-1 only
missed that it has to grow.
---
 src/neogb/symbol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index 62d069f..d02c946 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -121,7 +121,7 @@ static void select_all_spairs(
         /* track trace information ? */
         if (tht != NULL) { 
            rrows[nrr][BINDEX]  = prev;
-            if (tht->eld == tht->esz-1) {
+            if (tht->eld >= tht->esz-1) {
                 enlarge_hash_table(tht);
             }
             rrows[nrr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -157,7 +157,7 @@ static void select_all_spairs(
             /* track trace information ? */
             if (tht != NULL) {
                 trows[ntr][BINDEX]  = prev;
-                if (tht->eld == tht->esz-1) {
+                if (tht->eld >= tht->esz-1) {
                     enlarge_hash_table(tht);
                 }
                 trows[ntr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -326,7 +326,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) { 
            rrows[nrr][BINDEX]  = prev;
-            if (bs->ht->eld == bs->ht->esz-1) {
+            if (bs->ht->eld >= bs->ht->esz-1) {
                 enlarge_hash_table(bs->ht);
             }
 #if PARALLEL_HASHING
@@ -361,7 +361,7 @@ static int32_t select_spairs_by_minimal_degree(
             /* track trace information ? */
             if (md->trace_level == LEARN_TRACER) {
                 trows[ntr][BINDEX]  = prev;
-                if (bs->ht->eld == bs->ht->esz-1) {
+                if (bs->ht->eld >= bs->ht->esz-1) {
                     enlarge_hash_table(bs->ht);
                 }
 #if PARALLEL_HASHING
@@ -539,7 +539,7 @@ start:
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) {
             rows[rr][BINDEX]  = lmps[i];
-            if (bht->eld == bht->esz-1) {
+            if (bht->eld >= bht->esz-1) {
                 enlarge_hash_table(bht);
             }
 #if PARALLEL_HASHING
-- 
2.43.0


From 4d684bc3f98b258184377086553631daa67ba35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:05 +0000
Subject: [PATCH 13/53] fix: do not shift 1 into the sign bit of an int in the
 divisor masks (undefined behaviour)

---
 src/neogb/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 7eae3b7..9ec9701 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -397,7 +397,7 @@ static inline sdm_t generate_short_divmask(
     )
 {
   len_t i, j;
-  int32_t res = 0;
+  sdm_t res = 0;
   int32_t ctr = 0;
   const len_t ndv         = ht->ndv;
   const len_t * const dv  = ht->dv;
@@ -406,7 +406,7 @@ static inline sdm_t generate_short_divmask(
   for (i = 0; i < ndv; ++i) {
     for (j = 0; j < bpv; ++j) {
       if ((sdm_t)a[dv[i]] >= ht->dm[ctr]) {
-        res |= 1 << ctr;
+        res |= (sdm_t)1 << ctr;
       }
       ctr++;
     }
-- 
2.43.0


From 8e036e184267e65ee31aff38a4f3add7741c9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 14/53] fix: do not use the tracer with linear algebra option
 1, which writes no trace

The application of the incomplete trace rejected every prime, such that -l 1
over the rationals ended with 'Problem with F4' or a crash.
---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..f051651 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* linear algebra option 1 does not construct traces */
+        if (md->laopt < 40 && md->laopt != 1) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From 337cf4f860c1138ceac9b1bb6df7b2b641802590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 15/53] fix: free the rational reconstruction data once only

---
 src/msolve/msolve.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 8eb62a6..cf39485 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2435,7 +2435,6 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
           free_rrec_data(recdata);
           mpz_clear(prod_crt);
           trace_det_clear(trace_det);
-          free_rrec_data(recdata);
           fprintf(stderr, "Many other data should be cleaned\n");
           return -4;
         }
-- 
2.43.0


From 55ef2015a670b99735d3e9cb28bde4e10fe2b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 16/53] fix: test the basis for NULL before taking an address
 inside of it

---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index c4cddd6..a082cc1 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -748,11 +748,11 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   int32_t error = 0;
   bs = core_gba(bs_qq, st, &error, lp->p[0]);
   *stf4 = realtime()-rt;
-  ht_t **bht = &(bs->ht);
   if (bs == NULL) {
       bad_primes[0] = 1;
       return;
   }
+  ht_t **bht = &(bs->ht);
   int32_t lml = bs->lml;
   if (st->nev > 0) {
       int32_t j = 0;
-- 
2.43.0


From e775f6d44091551d0eb6b1ba2d2236256bd8c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 17/53] fix: shift exponent out of range in the refinement of
 real roots

---
 src/usolve/refine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/usolve/refine.c b/src/usolve/refine.c
index 347f32f..14ec22f 100644
--- a/src/usolve/refine.c
+++ b/src/usolve/refine.c
@@ -287,7 +287,7 @@ static void refine_root_by_N_positive_k(mpz_t *upol, unsigned long int *deg_ptr,
 
   mpz_set(*vala, *tmpvala);
   mpz_set(*valb, *tmpvalb);
-  int64_t maxindex = (1L<<(Nlog));
+  int64_t maxindex = Nlog < 63 ? (int64_t)1 << Nlog : INT64_MAX;
 
   if(index == -2 || index == 0 || (LOG2(index) > Nlog && index > 0) ){
     if(Nlog == 2) index = 2;
-- 
2.43.0


From fc3d1e318423dad62749a8dd6facd9ead8c15b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 18/53] fix: use the length without eliminated variables when
 duplicating leading monomials

---
 src/msolve/duplicate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/duplicate.c b/src/msolve/duplicate.c
index f1db24f..5cf3742 100644
--- a/src/msolve/duplicate.c
+++ b/src/msolve/duplicate.c
@@ -394,7 +394,7 @@ static inline void duplicate_data_mthread_gbtrace(int nthreads,
                                                   trace_t **btrace){
 
 
-  const len_t len = num_gb[0] * (st->nvars);
+  const len_t len = num_gb[0] * (st->nvars - st->nev);
 
   for(int i = 0; i < nthreads; i++){
     leadmons_current[i] = (int32_t *)calloc(len, sizeof(int32_t));
-- 
2.43.0


From d2b1f310db7fdb118fcf27b0646092a13bd69507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 19/53] fix: do not read in front of the leading monomials of
 an empty elimination ideal

---
 src/msolve/hilbert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index 579b7fe..aa3b56c 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -1310,7 +1310,7 @@ static inline void copy_nf_in_matrix_from_bs_32(sp_matfglm_t* matrix,
 static inline int32_t *monomial_basis_enlarged(long length, long nvars,
                                                int32_t *bexp_lm, long *dquot){
 
-  int32_t maxdeg = sum(bexp_lm+(length-1)*(nvars), nvars);
+  int32_t maxdeg = length > 0 ? sum(bexp_lm+(length-1)*(nvars), nvars) : 0;
 
   /* basis will contain the monomial basis */
   int32_t *basis = calloc(nvars, sizeof(int32_t));
-- 
2.43.0


From 055ff0071a51803070649ba2d541a0cc2067bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:14 +0000
Subject: [PATCH 20/53] fix: allocate the two coefficients that are written for
 a zero coordinate

---
 src/fglm/fglm_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 309263d..e74bc28 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1261,7 +1261,7 @@ int compute_parametrizations_non_shape_position_case(param_t *param,
         }
         else{
           nmod_poly_fit_length(param->coords[nvars-2-nc],
-                               param->elim->length-1 );
+                               param->elim->length );
           param->coords[nvars-2-nc]->length = data_bms->BMS->R1->length ;
           param->coords[nvars-2-nc]->coeffs[0] = 0;
           param->coords[nvars-2-nc]->coeffs[1] = 0;
-- 
2.43.0


From 05377eabd0fa7738700b492c0ce13c82a814d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:35 +0000
Subject: [PATCH 21/53] fix: give each copy of a hash table its own divisor map

Resetting the hash table (-u) recomputes the map: with linear algebra options
that do not trace, the computations modulo several primes changed each other's
and the original table's map.
---
 src/neogb/hash.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 9ec9701..e51b416 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -146,9 +146,14 @@ ht_t *copy_hash_table(
 
     ht->ndv = bht->ndv;
     ht->bpv = bht->bpv;
-    ht->dm  = bht->dm;
     ht->rn  = bht->rn;
 
+    /* resetting the table recomputes the divisor map, thus it cannot be shared */
+    ht->dm  = (sdm_t *)calloc(
+            (unsigned long)(ht->ndv * ht->bpv), sizeof(sdm_t));
+    memcpy(ht->dm, bht->dm,
+            (unsigned long)(ht->ndv * ht->bpv) * sizeof(sdm_t));
+
     ht->dv  = (len_t *)calloc((unsigned long)ht->ndv, sizeof(len_t));
     memcpy(ht->dv, bht->dv, (unsigned long)ht->ndv * sizeof(len_t));
 
-- 
2.43.0


From 9bf0de7360e0821a5f3d3c3c86024d0ba0ef4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:01 +0000
Subject: [PATCH 22/53] fix: a zero elimination ideal has no element to lift

---
 src/msolve/lifting-gb.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index a082cc1..5af4659 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -408,7 +408,7 @@ static inline int32_t degree(int32_t *mon, int nv){
 static inline int32_t *array_nbdegrees(int32_t *bexp_lm, int len,
                                      int nv, int * nb){
   *nb = 1;
-  int32_t deg = degree(bexp_lm, nv);
+  int32_t deg = len > 0 ? degree(bexp_lm, nv) : 0;
 
   for(int32_t i = 1; i < len; i++){
     int32_t newdeg = degree(bexp_lm + i * nv, nv);
@@ -419,7 +419,7 @@ static inline int32_t *array_nbdegrees(int32_t *bexp_lm, int len,
     }
   }
   int32_t *ldeg = calloc(sizeof(int32_t), *nb);
-  deg = degree(bexp_lm, nv);
+  deg = len > 0 ? degree(bexp_lm, nv) : 0;
   ldeg[0] = 1;
   int32_t i = 0, j = 1;
   while(j < len){
@@ -1430,7 +1430,8 @@ gb_modpoly_t *core_groebner_qq(
       double ost_rrec = st_rrec;
       double ost_crt = st_crt;
 
-      if(!bad){
+      /* there is nothing to lift if the elimination ideal is zero */
+      if(!bad && (*modgbsp)->ld > 0){
         ratrecon_gb((*modgbsp), dlift, msd->mod_p, msd->prod_p, recdata1, recdata2,
                     nthrds/* st->nthrds */, &st_crt, &st_rrec);
       }
-- 
2.43.0


From 0b1ac5e8001ab4d2873be5fc0b3f3f104933f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:05 +0000
Subject: [PATCH 23/53] fix: print the leading monomial 1 of the unit ideal
 with -g 1

---
 src/msolve/iofiles.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 887c572..875a23e 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -244,6 +244,9 @@ static void print_msolve_polynomials_ff(
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
                     }
                 }
+                if (ctr == 0) {
+                    fprintf(file, "1");
+                }
                 if (i < to-1) {
                     fprintf(file, ",\n");
                 } else {
-- 
2.43.0


From 0affd07454016e311b39e6bf3e830f4041078546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:05 +0000
Subject: [PATCH 24/53] fix: a zero polynomial among the normal forms no longer
 crashes msolve

---
 src/msolve/msolve.c | 7 ++++++-
 src/neogb/engine.c  | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index cf39485..a4bc780 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -3703,6 +3703,11 @@ restart:
                 import_input_data(sat, st, gens->ngens-saturate, gens->ngens, gens->lens, gens->exps, (void *)gens->cfs, NULL);
 
                 sat->ld = sat->lml  =  saturate;
+                /* there is nothing to saturate with */
+                if (sat->cf_32[sat->hm[0][COEFFS]][0] == 0) {
+                    printf("Bad input data, stopped computation.\n");
+                    exit(1);
+                }
                 /* normalize_initial_basis(tbr, st->gfc); */
                 for (int k = 0; k < saturate; ++k) {
                     sat->lmps[k]  = k; /* fix input element in tbr */
@@ -4183,11 +4188,11 @@ restart:
                     update_ht, la_option, use_signatures, 1 /* reduce_gb */, 0,
                     0 /*truncate_lifting */, info_level);
 
-            st->gfc  = gens->field_char;
             if (!success) {
                 printf("Bad input data, stopped computation.\n");
                 exit(1);
             }
+            st->gfc  = gens->field_char;
 
             if (is_gb == 1) {
                 for (len_t k = 0; k < bs->ld; ++k) {
diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index bd84410..9b5f0d6 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -60,11 +60,11 @@ int initialize_gba_input_data(
             &reduce_gb, &truncate_lifting, &info_level);
 
     /* not enough elements available for normal form computations resp. saturation */
-    int32_t nr_valid_gens = nr_gens;
-    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens; ++i) {
+    int32_t nr_valid_gens = nr_gens - nr_nf;
+    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens - nr_nf; ++i) {
         nr_valid_gens -= invalid_gens[i];
     }
-    if (nr_valid_gens <= nr_nf) {
+    if (nr_valid_gens <= 0) {
         free(invalid_gens);
         return 0;
     }
-- 
2.43.0


From c923ec8cea25d8afc8a0bd4ca7aec9627a715201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:52 +0000
Subject: [PATCH 25/53] fix: do not replace the basis arrays by shorter ones
 after the saturation test

---
 src/neogb/f4sat.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index a0216b7..db0ecc2 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -114,6 +114,7 @@ static int is_already_saturated(
     const bl_t blo  = bs->lo;
     const bl_t bsc  = bs->constant;
     const len_t lml = bs->lml;
+    const bl_t bsz  = bs->sz;
     sdm_t *lm       = (sdm_t *)malloc((unsigned long)lml * sizeof(sdm_t));
     memcpy(lm, bs->lm, (unsigned long)lml * sizeof(sdm_t));
     bl_t *lmps      = (bl_t *)malloc((unsigned long)lml * sizeof(bl_t));
@@ -189,13 +190,16 @@ static int is_already_saturated(
     /* reset infolevel */
     st->info_level  = infolevel;
 
-    free(bs->lm);
-    bs->lm    = lm;
-    free(bs->lmps);
-    bs->lmps  = lmps;
+    /* the basis may have been enlarged during the test, so copy the old
+     * data back instead of replacing the arrays by shorter ones */
+    memcpy(bs->lm, lm, (unsigned long)lml * sizeof(sdm_t));
+    free(lm);
+    memcpy(bs->lmps, lmps, (unsigned long)lml * sizeof(bl_t));
+    free(lmps);
     bs->lml   = lml;
-    free(bs->red);
-    bs->red   = red;
+    memset(bs->red, 0, (unsigned long)bs->sz * sizeof(int8_t));
+    memcpy(bs->red, red, (unsigned long)bsz * sizeof(int8_t));
+    free(red);
 
     /* *hcmp = hcm; */
     *bhtp = bht;
-- 
2.43.0


From 34ff095040a53da13b1b92bac02a505b6a4dedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 26/53] fix: normal forms must not change the global function
 pointers, several threads compute them

---
 src/neogb/nf.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..95014f6 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -65,10 +65,6 @@ bs_t *core_nf(
 
     ht_t *bht = bs->ht;
 
-    /* reset to exact linear algebra for normal form computation */
-    md->laopt = 2;
-    set_function_pointers(md);
-
     /* matrix holding sparse information generated
      * during symbolic preprocessing */
     mat_t *mat  = (mat_t *)calloc(1, sizeof(mat_t));
@@ -83,8 +79,10 @@ bs_t *core_nf(
     convert_hashes_to_columns(mat, md, md->ht);
     sort_matrix_rows_decreasing(mat->rr, mat->nru);
 
-    /* linear algebra, depending on choice, see set_function_pointers() */
-    linear_algebra(mat, tbr, bs, md);
+    /* always use exact linear algebra for normal form computations; the
+     * function pointers themselves must not be changed since this function
+     * may be called by several threads in parallel */
+    exact_linear_algebra(mat, tbr, bs, md);
     /* columns indices are mapped back to exponent hashes */
     return_normal_forms_to_basis(
             mat, tbr, bht, md->ht, md->hcm, md);
-- 
2.43.0


From 407b2536a5a4996447def5ef3f3413b5d4b93ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:48 +0000
Subject: [PATCH 27/53] fix: give each thread its own error flag in the modular
 steps

---
 src/msolve/msolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index a4bc780..46ed93d 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1707,7 +1707,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     double rt = realtime();
     /* tracing phase */
     len_t i;
-    int32_t error = 0;
 
     /* F4 and FGLM are run using a single thread */
     /* st->nthrds is reset to its original value afterwards */
@@ -1719,6 +1718,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
 #pragma omp parallel for num_threads(nthrds)  \
     private(i) schedule(static)
     for (i = 0; i < st->nprimes; ++i){
+      /* each thread needs its own error flag */
+      int32_t error = 0;
       if (trace_det->mat_lifted < 2 || trace_det->lin_lifted < 2) {
         bs[i] = core_gba(bs_qq, st, &error, lp->p[i]);
         *stf4 = realtime()-rt;
-- 
2.43.0


From b9e3fb18a69ae6dadceefb84f1ddecd1d61c95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 28/53] fix: do not write shared run statistics from all
 threads at once in the modular steps

---
 src/msolve/msolve.c | 4 +++-
 src/neogb/f4.c      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 46ed93d..63ecafe 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1722,7 +1722,9 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
       int32_t error = 0;
       if (trace_det->mat_lifted < 2 || trace_det->lin_lifted < 2) {
         bs[i] = core_gba(bs_qq, st, &error, lp->p[i]);
-        *stf4 = realtime()-rt;
+        const double t4 = realtime()-rt;
+#pragma omp atomic write
+        *stf4 = t4;
         /* printf("F4 trace timing %13.2f\n", *stf4); */
 
         if (error > 0) {
diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index f051651..899c000 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -660,8 +660,9 @@ static void finalize_f4(
     if ((*lmdp)->trace_level == LEARN_TRACER) {
         gmd->tr = (*lmdp)->tr;
         gmd->trace_level = APPLY_TRACER;
+        /* only when learning: several threads apply the trace at once */
+        gmd->min_deg_in_first_deg_fall = (*lmdp)->min_deg_in_first_deg_fall;
     }
-    gmd->min_deg_in_first_deg_fall = (*lmdp)->min_deg_in_first_deg_fall;
     free_local_data(matp, lmdp);
 }
 
-- 
2.43.0


From 166b349bc70b996f696c1c501b1535888445ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 29/53] fix: set the linear algebra pointers in the first
 modular round only, the second runs in several threads

---
 src/neogb/f4.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 899c000..1bea303 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -358,7 +358,11 @@ static int32_t initialize_f4(
     md->hcm = (hi_t *)malloc(sizeof(hi_t));
 
     if (gmd->fc != fc) {
-        reset_function_pointers(fc, md->laopt);
+        /* In the second modular round several threads run at once, and the
+         * first round has set the pointers for a prime of the same size. */
+        if (gmd->f4_qq_round != 2) {
+            reset_function_pointers(fc, md->laopt);
+        }
         bs = copy_basis_mod_p(gbs, md);
         /* linear algebra option 1 does not construct traces */
         if (md->laopt < 40 && md->laopt != 1) {
-- 
2.43.0


From 8116615fcf7bf0e6592b16d735febcad9f13dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 30/53] fix: an end of an isolating interval that is a root is
 another root, not the isolated one

---
 src/usolve/refine.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/usolve/refine.c b/src/usolve/refine.c
index 14ec22f..f511056 100644
--- a/src/usolve/refine.c
+++ b/src/usolve/refine.c
@@ -622,6 +622,20 @@ static void refine_positive_root_by_N(mpz_t *upol, unsigned long int *deg_ptr,
 void refine_QIR_positive_root(mpz_t *upol, unsigned long int *deg_ptr,
                               interval *rt, mpz_t *tab, int prec, int verbose){
   if(rt->isexact==1) return;
+  /* The interval is open: an end which is a root is another root. */
+  if(mpz_sgn(tab[0]) == 0 || mpz_sgn(tab[1]) == 0){
+    const unsigned long int k = rt->k > 0 ? rt->k : 0;
+    if(mpz_sgn(tab[1]) == 0){
+      mpz_set_ui(tab[3], 1);
+      mpz_mul_2exp(tab[3], tab[3], rt->k > 0 ? 0 : -(rt->k));
+      mpz_add(tab[3], tab[3], rt->numer);
+      USOLVEnumer_quotient(upol, deg_ptr, tab[3], k);
+    }
+    if(mpz_sgn(tab[0]) == 0){
+      USOLVEnumer_quotient(upol, deg_ptr, rt->numer, k);
+    }
+    get_values_at_bounds(upol, *deg_ptr, rt, tab);
+  }
   int64_t Nlog = 2;
   int success = 1;
   while(rt->isexact != 1 && rt->k < prec){
-- 
2.43.0


From 70c9ad35cde26eade718d32d0528af99777a8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:45 +0000
Subject: [PATCH 31/53] fix: interval evaluation of polynomials must enclose
 the values also when an intermediate interval contains zero

---
 src/usolve/evaluate.c | 47 ++++++++++---------------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/src/usolve/evaluate.c b/src/usolve/evaluate.c
index f12acfa..19cee68 100644
--- a/src/usolve/evaluate.c
+++ b/src/usolve/evaluate.c
@@ -184,25 +184,13 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
   /* a and b are non-negative */
   if(mpz_sgn(a) >= 0){
     for(long i = deg - 1; i >= 0; i--){
+      mpz_mul_2exp(tmp, up[i], k*(deg - i));
 
-      if(mpz_sgn(val_do) >= 0){
-        mpz_mul_2exp(tmp, up[i], k*(deg - i));
-
-        mpz_mul(val_do, val_do, a);
-        mpz_add(val_do, val_do, tmp);
-
-        mpz_mul(val_up, val_up, b);
-        mpz_add(val_up, val_up, tmp);
-      }
-      else{
-        mpz_mul_2exp(tmp, up[i], k*(deg - i));
-
-        mpz_mul(val_do, val_do, b);
-        mpz_add(val_do, val_do, tmp);
+      mpz_mul(val_do, val_do, mpz_sgn(val_do) >= 0 ? a : b);
+      mpz_add(val_do, val_do, tmp);
 
-        mpz_mul(val_up, val_up, a);
-        mpz_add(val_up, val_up, tmp);
-      }
+      mpz_mul(val_up, val_up, mpz_sgn(val_up) >= 0 ? b : a);
+      mpz_add(val_up, val_up, tmp);
 
       if(mpz_cmp(val_do, val_up) > 0){
         fprintf(stderr, "BUG ici (den_do > den_up)\n");
@@ -214,27 +202,14 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
   else{
     /* a and b are negative */
     for(long i = deg - 1; i >= 0; i--){
-      if(mpz_sgn(val_do) >= 0){
-        mpz_set(s, val_do);
-        mpz_mul_2exp(tmp, up[i], k*(deg - i));
+      mpz_set(s, val_do);
+      mpz_mul_2exp(tmp, up[i], k*(deg - i));
 
-        mpz_mul(val_do, val_up, a);
-        mpz_add(val_do, val_do, tmp);
-
-        mpz_mul(val_up, s, b);
-        mpz_add(val_up, val_up, tmp);
-
-      }
-      else{
-        mpz_set(s, val_do);
-        mpz_mul_2exp(tmp, up[i], k*(deg - i));
-
-        mpz_mul(val_do, val_up, b);
-        mpz_add(val_do, val_do, tmp);
+      mpz_mul(val_do, val_up, mpz_sgn(val_up) >= 0 ? a : b);
+      mpz_add(val_do, val_do, tmp);
 
-        mpz_mul(val_up, s, a);
-        mpz_add(val_up, val_up, tmp);
-      }
+      mpz_mul(val_up, s, mpz_sgn(s) >= 0 ? b : a);
+      mpz_add(val_up, val_up, tmp);
 
       if(mpz_cmp(val_do, val_up) > 0){
         fprintf(stderr, "BUG ici2 (val_do > val_up)\n");
-- 
2.43.0


From a632b09ad1aba1bf9a6412fc0314fbae927a07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:17 +0000
Subject: [PATCH 32/53] fix: a prime found to be bad in a modular step must not
 free shared data or lose the parametrization arrays

---
 src/msolve/msolve.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 63ecafe..dbaccc5 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1732,7 +1732,7 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
                 free(bs[i]);
                 bs[i] = NULL;
             }
-            nmod_params[i] = NULL;
+            /* the arrays of nmod_params[i] are reused with the next prime */
             bad_primes[i] = 1;
             continue;
         }
@@ -1750,7 +1750,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
         }
         if(lml != num_gb[i]){
             if (bs[i] != NULL) {
-                free_basis(&(bs[i]));
+                /* the hash table data is shared with bs_qq */
+                free_basis_and_only_local_hash_table_data(&(bs[i]));
             }
             /* nmod_params[i] = NULL; */
             bad_primes[i] = 1;
@@ -1789,8 +1790,12 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
 							     lp->p[i],i);
         }
         else{
-            bad_primes[i] = 1;
+            if (bs[i] != NULL) {
+                free_basis_and_only_local_hash_table_data(&(bs[i]));
             }
+            bad_primes[i] = 1;
+            continue;
+        }
      }
         if(nmod_fglm_compute_apply_trace_data(bmatrix[i], lp->p[i],
                                               nmod_params[i],
-- 
2.43.0


From 98c2b5e1ee643d204c4c0b6571ecf02c58f05009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:17 +0000
Subject: [PATCH 33/53] fix: draw another learning prime when the lifting over
 Q restarts

---
 src/msolve/lifting-gb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 5af4659..112c38d 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1178,7 +1178,6 @@ gb_modpoly_t *core_groebner_qq(
   uint32_t prime = 0;
   uint32_t primeinit = 0;
   uint32_t lprime = 1303905299;
-  srand(time(0));
 
   prime = next_prime(rand() % (1303905301 - (1<<30) + 1) + (1<<30));
   while(fc == 0 && is_lucky_prime_ui(prime, msd->bs_qq)){
@@ -1651,6 +1650,8 @@ gb_modpoly_t *groebner_qq(
   int err = 0;
 
   gb_modpoly_t *modgbsp = malloc(sizeof(gb_modpoly_t));
+  /* not in core_groebner_qq: when it restarts it needs other primes */
+  srand(time(0));
   modgbsp = core_groebner_qq(modgbsp, bs, msd, md, &err, field_char, print_gb);
   if (err) {
       printf("Problem with groebner_qq, stopped computation (%d).\n", err);
@@ -1826,6 +1827,8 @@ int64_t export_groebner_qq(
     int err = 0;
 
     gb_modpoly_t *modgbsp = malloc(sizeof(gb_modpoly_t));
+    /* not in core_groebner_qq: when it restarts it needs other primes */
+    srand(time(0));
     modgbsp = core_groebner_qq(modgbsp, bs, msd, md, &err, field_char, 
             2/* if set to 1, only the LM of the Gbs are correct */);
     if (err) {
-- 
2.43.0


From 23eae770c6641f27907a5e1a308ddc1bd90f10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:17 +0000
Subject: [PATCH 34/53] fix: learn a new trace when the lifting over Q restarts

---
 src/msolve/lifting-gb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 112c38d..c5a8f47 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -623,6 +623,8 @@ static int32_t * gb_modular_trace_learning(gb_modpoly_t modgbs,
     bs_t *bs = NULL;
     int32_t err     = 0;
     st->f4_qq_round = 1;
+    /* a trace of an earlier, unlucky learning prime must not be applied */
+    st->trace_level = NO_TRACER;
     bs = core_gba(bs_qq, st, &err, fc);
     if (err) {
       printf("Problem with F4, stopped computation.\n");
-- 
2.43.0


From ddb1f922836176ad94e6c8f338848feb595297b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 35/53] fix: tabs and empty generators in input files were read
 as part of a monomial

---
 src/msolve/iofiles.c | 55 +++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 875a23e..e6e5bdf 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -406,6 +406,26 @@ static inline int is_line_empty(const char *line)
     return 1;
 }
 
+/* reads the next generator, skipping empty ones (cf. get_ngenerators), and
+ * removes whitespaces and the final comma; returns 0 at the end of the file */
+static inline int read_generator(char **linep, size_t *len, FILE *fh)
+{
+    ssize_t nread, j, k;
+    while ((nread = getdelim(linep, len, ',', fh)) != -1) {
+        char *line = *linep;
+        for (k = 0, j = 0; j < nread; ++j) {
+            if (!isspace((unsigned char)line[j]) && line[j] != ',') {
+                line[k++] = line[j];
+            }
+        }
+        line[k] = '\0';
+        if (k > 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
 static int32_t get_ngenerators(char *fn)
 {
     int32_t ngens = 0;
@@ -561,14 +581,9 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
                                       int32_t *nr_gens, nelts_t *nterms, nelts_t *all_nterms){
 
     char *line  = *linep;
-    int32_t i = 0, j = 0, k = 0;
+    int32_t i = 0;
     size_t len = 0;
-    while(i < *nr_gens && getdelim(&line, &len, ',', fh) != -1) {
-        for (k = 0, j = 0; j < len; ++j) {
-            if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                line[k++] = line[j];
-            }
-        }
+    while(i < *nr_gens && read_generator(&line, &len, fh)) {
         *nterms  = get_number_of_terms(line);
         gens->lens[i] = *nterms;
         *all_nterms += *nterms;
@@ -800,18 +815,9 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
 
     gens->cfs = (int32_t *)(malloc(sizeof(int32_t) * all_nterms));
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
+        read_generator(&line, &len, fh);
         if(get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
@@ -845,18 +851,9 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
     }
 
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
+        read_generator(&line, &len, fh);
         if(get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
-- 
2.43.0


From 85038823fe85890038b86500f4f1b58599e22ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:34 +0000
Subject: [PATCH 36/53] fix: crash on polynomials starting with a plus sign

---
 src/msolve/iofiles.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index e6e5bdf..d084fd0 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -510,8 +510,9 @@ static inline nelts_t get_number_of_terms(const char *line)
   int i = 0;
   while (strncmp(&whitespace_splicer, line+i, 1) == 0)
     i++;
-  /** check if first non-whitespace char is "-", set term counter -1 in this case */
-  if (strncmp(&minus_splicer, line+i, 1) == 0)
+  /** check if first non-whitespace char is a sign, set term counter -1 in this case */
+  if (strncmp(&minus_splicer, line+i, 1) == 0
+      || strncmp(&add_splicer, line+i, 1) == 0)
     nterms--;
   /** now count terms */
   tmp = strchr(line, add_splicer);
@@ -607,6 +608,8 @@ static inline void get_term(const char *line, char **prev_pos,
   char *curr_pos_minus  = strchr(*prev_pos, minus_splicer);
   if (curr_pos_minus == line)
     curr_pos_minus  = strchr(*prev_pos+1, minus_splicer);
+  if (curr_pos_add == line)
+    curr_pos_add    = strchr(*prev_pos+1, add_splicer);
 
   if (*prev_pos != line)
     start_pos = *prev_pos - 1;
@@ -717,6 +720,9 @@ static void beginning_strterm_to_mpz(char *str, mpz_t *num, mpz_t *den){
   mpq_init(tmp);
   mpz_set_ui(*num, 1);
   mpz_set_ui(*den, 1);
+  if(str[0]=='+'){
+    str++;
+  }
   size_t m = 0;
   size_t len = strlen(str);
   for(m = 0; m < len; m++){
-- 
2.43.0


From f732badad9e437802935f64b94160ce773b5256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:19 +0000
Subject: [PATCH 37/53] fix: exit with an error when all generators are zero in
 positive characteristic

---
 src/msolve/msolve.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index dbaccc5..4e855aa 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -3389,7 +3389,7 @@ int real_msolve_qq(mpz_param_t *mpz_paramp, param_t **nmod_param, int *dim_ptr,
   }
 
   if (print_gb) {
-    return 0;
+    return b == -3 ? b : 0;
   }
   real_point_t *pts = NULL;
 
@@ -4073,7 +4073,7 @@ restart:
                        la_option, use_signatures, lift_matrix, info_level, print_gb,
                        generate_pbm, precision, files, round, get_param);
           if(print_gb){
-            return 0;
+            return b == -3;
           }
 
           manage_output(b, dim, dquot, files, gens, param, mpz_paramp, get_param,
@@ -4081,7 +4081,9 @@ restart:
                         real_roots_ptr,
                         real_pts_ptr,
                         info_level);
-
+          if (b == -3) {
+            return 1;
+          }
 
           /* if (b == 0 && gens->field_char > 0) { */
           /*   if(dim == 0){ */
-- 
2.43.0


From 18c9546cf7595cedfc9e6e41bbc54a8de9e3e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:11 +0000
Subject: [PATCH 38/53] fix: progress text of the saturation was printed to
 standard output without -v

---
 src/neogb/f4sat.c   | 19 +++++++++++--------
 src/neogb/modular.c | 12 +++++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index db0ecc2..9e96596 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -94,7 +94,9 @@ static int is_already_saturated(
         md_t *st
         )
 {
-    printf("testing if system is already saturated: ");
+    if (st->info_level > 1) {
+        printf("testing if system is already saturated: ");
+    }
     double rrt0, rrt1;
     rrt0  = realtime();
 
@@ -205,14 +207,13 @@ static int is_already_saturated(
     *bhtp = bht;
     *shtp = sht;
 
-    if (is_constant == 1) {
-        printf("yes.");
-    } else {
-        printf("no.");
-    }
-
     rrt1 = realtime();
     if (st->info_level > 1) {
+        if (is_constant == 1) {
+            printf("yes.");
+        } else {
+            printf("no.");
+        }
         printf("%40.2f sec\n", rrt1-rrt0);
     }
 
@@ -600,7 +601,9 @@ end_sat_step:
         update_basis_f4(ps, bs, bht, st, mat->np);
 
         if (bs->constant  == 1) {
-            printf("basis is constant\n");
+            if (st->info_level > 1) {
+                printf("basis is constant\n");
+            }
             ps->ld  = 0;
             break;
         }
diff --git a/src/neogb/modular.c b/src/neogb/modular.c
index d38516a..c6373b5 100644
--- a/src/neogb/modular.c
+++ b/src/neogb/modular.c
@@ -492,7 +492,9 @@ bs_t *f4sat_trace_application_test_phase(
             printf("%13.2f sec\n", rrt1-rrt0);
         }
         if (bs->constant  == 1) {
-            printf("basis is constant\n");
+            if (st->info_level > 1) {
+                printf("basis is constant\n");
+            }
             ps->ld  = 0;
             break;
         }
@@ -1254,7 +1256,9 @@ end_sat_step:
         update_basis_f4(ps, bs, bht, st, mat->np);
 
         if (bs->constant  == 1) {
-            printf("basis is constant\n");
+            if (st->info_level > 1) {
+                printf("basis is constant\n");
+            }
             ps->ld  = 0;
             break;
         }
@@ -1595,7 +1599,9 @@ bs_t *f4sat_trace_learning_phase_2(
 
         /* if we found a constant we are done, so remove all remaining pairs */
         if (bs->constant  == 1) {
-            printf("basis is constant\n");
+            if (st->info_level > 1) {
+                printf("basis is constant\n");
+            }
             ps->ld  = 0;
             break;
         }
-- 
2.43.0


From f20600d790e0d20bebb2c11e5569c20eb91c1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 39/53] fix: importing polynomials changed the coefficient
 array of the caller

---
 src/neogb/io.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index c12bf94..411e0f8 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -268,7 +268,7 @@ void import_input_data(
     cf16_t *cf16    =   NULL;
     cf32_t *cf32    =   NULL;
     mpz_t *cfq      =   NULL;
-    int32_t *cfs_ff =   NULL;
+    const int32_t *cfs_ff = NULL;
     mpz_t **cfs_qq  =   NULL;
 
     ht_t *ht = bs->ht;
@@ -318,7 +318,7 @@ void import_input_data(
     ctr = 0;
     switch (st->ff_bits) {
         case 8:
-            cfs_ff  =   (int32_t *)vcfs;
+            cfs_ff  =   (const int32_t *)vcfs;
             for (i = start; i < stop; ++i) {
                 if (invalid_gens == NULL || invalid_gens[i] == 0) {
                     cf8 = (cf8_t *)malloc((unsigned long)(lens[i]) * sizeof(cf8_t));
@@ -326,8 +326,8 @@ void import_input_data(
 
                     for (j = off; j < off+lens[i]; ++j) {
                         /* make coefficient positive */
-                        cfs_ff[j]   +=  (cfs_ff[j] >> 31) & fc;
-                        cf8[j-off]  =   (cf8_t)(cfs_ff[j] % fc);
+                        const int32_t c = cfs_ff[j] + ((cfs_ff[j] >> 31) & fc);
+                        cf8[j-off]  =   (cf8_t)(c % fc);
                     }
                     sort_terms_ff_8(&(bs->cf_8[ctr]), &(bs->hm[ctr]), ht);
                     ctr++;
@@ -336,7 +336,7 @@ void import_input_data(
             }
             break;
         case 16:
-            cfs_ff  =   (int32_t *)vcfs;
+            cfs_ff  =   (const int32_t *)vcfs;
             for (i = start; i < stop; ++i) {
                 if (invalid_gens == NULL || invalid_gens[i] == 0) {
                     cf16    = (cf16_t *)malloc((unsigned long)(lens[i]) * sizeof(cf16_t));
@@ -344,8 +344,8 @@ void import_input_data(
 
                     for (j = off; j < off+lens[i]; ++j) {
                         /* make coefficient positive */
-                        cfs_ff[j]   +=  (cfs_ff[j] >> 31) & fc;
-                        cf16[j-off] =   (cf16_t)(cfs_ff[j] % fc);
+                        const int32_t c = cfs_ff[j] + ((cfs_ff[j] >> 31) & fc);
+                        cf16[j-off] =   (cf16_t)(c % fc);
                     }
                     sort_terms_ff_16(&(bs->cf_16[ctr]), &(bs->hm[ctr]), ht);
                     ctr++;
@@ -354,7 +354,7 @@ void import_input_data(
             }
             break;
         case 32:
-            cfs_ff  =   (int32_t *)vcfs;
+            cfs_ff  =   (const int32_t *)vcfs;
             for (i = start; i < stop; ++i) {
                 if (invalid_gens == NULL || invalid_gens[i] == 0) {
                     cf32    = (cf32_t *)malloc((unsigned long)(lens[i]) * sizeof(cf32_t));
@@ -362,8 +362,8 @@ void import_input_data(
 
                     for (j = off; j < off+lens[i]; ++j) {
                         /* make coefficient positive */
-                        cfs_ff[j]   +=  (cfs_ff[j] >> 31) & fc;
-                        cf32[j-off] =   (cf32_t)(cfs_ff[j] % fc);
+                        const int32_t c = cfs_ff[j] + ((cfs_ff[j] >> 31) & fc);
+                        cf32[j-off] =   (cf32_t)(c % fc);
                     }
                     sort_terms_ff_32(&(bs->cf_32[ctr]), &(bs->hm[ctr]), ht);
                     ctr++;
-- 
2.43.0


From 4ab82d0f0922a291307b13ec03a981b5e7432771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 40/53] fix: export_groebner_qq did not use the allocator of
 the caller for the coefficients

---
 src/msolve/lifting-gb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index c5a8f47..e7cdc37 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1546,8 +1546,8 @@ uint64_t export_results_from_groebner_qq(
 
     memset(exp, 0, (unsigned long)nterms * nve * sizeof(int32_t));
 
-    mpz_t *cf_qq = (mpz_t *)malloc(
-            nterms *sizeof(mpz_t));
+    mpz_t *cf_qq = (mpz_t *)(*mallocp)(
+            ((uint64_t)nterms) * sizeof(mpz_t));
     for(int64_t i = 0; i < nterms; i++){
         mpz_init(cf_qq[i]);
     }
-- 
2.43.0


From 4110aa2ca156c33036eb0a6f4d9c99e35796d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 41/53] fix: exporting a zero polynomial wrote one exponent too
 many with an elimination order

---
 src/neogb/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index 411e0f8..73bf02d 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -540,7 +540,7 @@ static int64_t export_data(
             } else {
                 ((int32_t *)cf+cc)[0] = (int32_t)0;
             }
-            for (k = 1; k < evl; ++k) {
+            for (k = 0; k < nv; ++k) {
                 exp[ce++] = (int32_t)0;
             }
             cc += 1;
-- 
2.43.0


From 943212426578b56f172a25a0be8f6b40b8d4979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 42/53] fix: msolve_julia copied the variable names without
 their final null byte

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 4e855aa..025aa41 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -5028,7 +5028,7 @@ void msolve_julia(
     /* gens->vnames                = var_names; */
     gens->vnames  = (char **)malloc((unsigned long)nr_vars * sizeof(char *));
     for (i = 0; i < nr_vars; ++i) {
-        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]), sizeof(char));
+        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]) + 1, sizeof(char));
         memcpy(gens->vnames[i], var_names[i], (unsigned long)strlen(var_names[i]) * sizeof(char));
     }
     /* gens->lens                  = lens; */
-- 
2.43.0


From a8f49ab3fcdb82ad9d90f23be6c6344b95eb5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 43/53] fix: export_nf computed the basis with probabilistic
 linear algebra, giving wrong normal forms over small fields

---
 src/neogb/nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index 95014f6..9965366 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -151,7 +151,7 @@ int64_t export_nf(
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, 2 /* exact linear algebra */, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From cf7c98366317b0aea3f8419ef9cc2e95a3b1bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 44/53] fix: reading a term without a variable in front of ^
 read in front of the term

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index d084fd0..9bc9569 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -31,7 +31,7 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             while (j < i && term[j] != '^') {
                 ++j;
             }
-            if (term[j-1] == ',') {
+            if (j > op && term[j-1] == ',') {
                 --j;
             }
             while(term[op] == ' ' || term[op] == '+' || term[op] == '-') {
-- 
2.43.0


From 422416bf9cc9715935d37bf626444eb58d08fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 45/53] fix: a term of exactly the maximal length was
 terminated behind its buffer

---
 src/msolve/iofiles.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 9bc9569..4422153 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -622,7 +622,7 @@ static inline void get_term(const char *line, char **prev_pos,
     /** if "-" is the first char in the line, we have to adjust the
       * if minus is nearer */
     if (term_diff_add > term_diff_minus) {
-      if( term_diff_minus > *term_size){
+      if( term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -632,7 +632,7 @@ static inline void get_term(const char *line, char **prev_pos,
       return;
     /** if plus is nearer */
     } else {
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -644,7 +644,7 @@ static inline void get_term(const char *line, char **prev_pos,
   } else {
     if (curr_pos_add != NULL) {
       size_t term_diff_add   = (size_t)(curr_pos_add - start_pos);
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -655,7 +655,7 @@ static inline void get_term(const char *line, char **prev_pos,
     }
     if (curr_pos_minus != NULL) {
       size_t term_diff_minus = (size_t)(curr_pos_minus - start_pos);
-      if(term_diff_minus > *term_size){
+      if(term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -667,7 +667,7 @@ static inline void get_term(const char *line, char **prev_pos,
     if (curr_pos_add == NULL && curr_pos_minus == NULL) {
       size_t prev_idx  = (size_t)(start_pos - line);
       size_t term_diff = strlen(line) + 1 - prev_idx;
-      if(term_diff > *term_size){
+      if(term_diff >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
-- 
2.43.0


From bbdc51c917f8ff27a727ac96754b7d8d271c4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 46/53] fix: exponents and degrees of more than 16 bits were
 silently reduced modulo 2^16 when reading the input

---
 src/msolve/iofiles.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 4422153..5339ca3 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -51,13 +51,27 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             }
             for (k = 0; k < gens->nvars; ++k) {
                 if (strcmp(gens->vnames[k], var) == 0) {
-                    ((gens->exps) + pos)[k] = strtol(ev, NULL, 10);
+                    const long e = strtol(ev, NULL, 10);
+                    if (e < 0 || e > (exp_t)(-1)) {
+                        fprintf(stderr, "Too large exponent in input, exit...\n");
+                        exit(1);
+                    }
+                    ((gens->exps) + pos)[k] = (int32_t)e;
                     break;
                 }
             }
             op = i+1;
         }
     }
+    /* degrees are stored like exponents */
+    int64_t deg = 0;
+    for (k = 0; k < gens->nvars; ++k) {
+        deg += ((gens->exps) + pos)[k];
+    }
+    if (deg > (exp_t)(-1)) {
+        fprintf(stderr, "Too large degree in input, exit...\n");
+        exit(1);
+    }
     free(var);
     free(ev);
 }
-- 
2.43.0


From 929086c4f7fa8a17d0a17c41ab747e115b4ad70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 47/53] fix: a characteristic that is not prime was accepted
 and aborted in the arithmetic library

---
 src/msolve/iofiles.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 5339ca3..395e82f 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -579,6 +579,17 @@ static void get_characteristic(FILE *fh, char * line, int max_line_size,
         fclose(fh);
         exit(1);
       }
+      int composite = (tmp_mod == 1);
+      for(int64_t d = 2; d * d <= tmp_mod && !composite; d++){
+        composite = (tmp_mod % d == 0);
+      }
+      if(composite){
+        fprintf(stderr, "Warning: characteristic must be 0 or prime\n");
+        free(vnames);
+        free(line);
+        fclose(fh);
+        exit(1);
+      }
     }
     else{
       fprintf(stderr, "Bad file format (characteristic)\n");
-- 
2.43.0


From 0d6c6844fa2dc6c5bfbe8ebce3bc84d951a09115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 48/53] fix: inverting a Hankel matrix read behind the sequence
 when the constant coefficient vanishes

---
 src/fglm/fglm_core.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index e74bc28..796944f 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -250,6 +250,11 @@ static int invert_hankel_matrix(fglm_bms_data_t *data_bms, szmat_t deg){
   }
   else{//V1(0) = 0
     fprintf(stderr, "Warning: this part of the code has not been tested intensively\n");
+    /* the sequence is extended below, make room for the additional terms */
+    nmod_poly_fit_length(data_bms->BMS->points, 2 * dim + 1);
+    for (long i = data_bms->BMS->points->length; i < 2 * dim + 1; i++) {
+      data_bms->BMS->points->coeffs[i] = 0;
+    }
     nmod_poly_one(data_bms->BMS->R0);
     nmod_poly_zero(data_bms->BMS->R1);
     nmod_poly_zero(data_bms->BMS->V0);
-- 
2.43.0


From b164c79fc1e6afde99a600a4f0a9cab8d4a2d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 49/53] fix: reading a generator with very many terms
 overflowed the stack

---
 src/neogb/io.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index 73bf02d..f996771 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -73,7 +73,7 @@ void sort_terms_ff_8(
   cf8_t tmpcf = 0;
 
   /* generate array of pointers to hm entries */
-  hm_t *phm[len];
+  hm_t **phm  = (hm_t **)malloc((unsigned long)len * sizeof(hm_t *));
   for (i = 0; i < len; ++i) {
     phm[i]  = &hmo[i];
   }
@@ -99,6 +99,7 @@ void sort_terms_ff_8(
     }
   }
 
+  free(phm);
   *cfp  = cf;
   *hmp  = hm;
 }
@@ -121,7 +122,7 @@ void sort_terms_ff_16(
   cf16_t tmpcf  = 0;
 
   /* generate array of pointers to hm entries */
-  hm_t *phm[len];
+  hm_t **phm  = (hm_t **)malloc((unsigned long)len * sizeof(hm_t *));
   for (i = 0; i < len; ++i) {
     phm[i]  = &hmo[i];
   }
@@ -147,6 +148,7 @@ void sort_terms_ff_16(
     }
   }
 
+  free(phm);
   *cfp  = cf;
   *hmp  = hm;
 }
@@ -169,7 +171,7 @@ void sort_terms_ff_32(
   cf32_t tmpcf  = 0;
 
   /* generate array of pointers to hm entries */
-  hm_t *phm[len];
+  hm_t **phm  = (hm_t **)malloc((unsigned long)len * sizeof(hm_t *));
   for (i = 0; i < len; ++i) {
     phm[i]  = &hmo[i];
   }
@@ -195,6 +197,7 @@ void sort_terms_ff_32(
     }
   }
 
+  free(phm);
   *cfp  = cf;
   *hmp  = hm;
 }
@@ -218,7 +221,7 @@ void sort_terms_qq(
   mpz_init(tmpcf);
 
   /* generate array of pointers to hm entries */
-  hm_t *phm[len];
+  hm_t **phm  = (hm_t **)malloc((unsigned long)len * sizeof(hm_t *));
   for (i = 0; i < len; ++i) {
     phm[i]  = &hmo[i];
   }
@@ -244,6 +247,7 @@ void sort_terms_qq(
     }
   }
 
+  free(phm);
   *cfp  = cf;
   *hmp  = hm;
 }
-- 
2.43.0


From 14b9631e1fc44410b5ed64fc24c3c6ff1aa45bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:52 +0000
Subject: [PATCH 50/53] fix: sums of vector products in the FGLM kernel
 overflowed a signed type

---
 src/fglm/inner-product.c | 6 +++---
 src/fglm/linalg-fglm.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fglm/inner-product.c b/src/fglm/inner-product.c
index d0d2033..99fa609 100644
--- a/src/fglm/inner-product.c
+++ b/src/fglm/inner-product.c
@@ -731,7 +731,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat+=8;
           vec_cp+=8;
 #if IS_ALIGNED_MATRIX
@@ -746,7 +746,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat+=8;
           vec_cp+=8;
 #if IS_ALIGNED_MATRIX
@@ -761,7 +761,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat+=8;
           vec_cp+=8;
 
diff --git a/src/fglm/linalg-fglm.c b/src/fglm/linalg-fglm.c
index d6832e9..a91b388 100644
--- a/src/fglm/linalg-fglm.c
+++ b/src/fglm/linalg-fglm.c
@@ -708,7 +708,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat_cp+=8;
           vec_cp+=8;
 #if IS_ALIGNED_MATRIX
@@ -723,7 +723,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat_cp+=8;
           vec_cp+=8;
 #if IS_ALIGNED_MATRIX
@@ -738,7 +738,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
           mat_cp+=8;
           vec_cp+=8;
 
-- 
2.43.0


From 0e31a9778f91fab917111420ef7f5138741474b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 51/53] fix: a Hankel matrix that is not invertible must be
 reported as a failure, the caller used the missing parametrization

---
 src/fglm/fglm_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 796944f..90e636a 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1635,6 +1635,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                 nvars) == 0){
 
       fprintf(stderr, "Matrix is not invertible (there should be a bug)\n");
+      *success = 0;
       return NULL;
 
     }
-- 
2.43.0


From d93462bb9294875e9323bf4d21eda4b443b6a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 52/53] fix: division by zero in characteristic 2 when solving

---
 src/fglm/fglm_core.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 90e636a..c6e206c 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -632,8 +632,9 @@ static inline void generate_sequence(sp_matfglm_t *matrix, fglm_data_t * data,
 #endif
 
   uint32_t preinv = 2^(62) / prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  /* both remainders vanish modulo 2 */
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   for(szmat_t i = 1; i < matrix->ncols; i++){
     sparse_mat_fglm_mult_vec(data->vvec, matrix,
@@ -780,8 +781,9 @@ static void generate_sequence_verif(sp_matfglm_t *matrix, fglm_data_t * data,
   RED_64 = (RED_64*2) % prime;
 
   uint32_t preinv = 2^(62) / prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  /* both remainders vanish modulo 2 */
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
   int dec= 0;
   for(szmat_t j = 1; j < block_size; j++){
     while (nvars-1-j-dec > 0 && linvars[nvars-1-j-dec] != 0) {
@@ -1881,8 +1883,9 @@ guess_sequence_colon(sp_matfglmcol_t *matrix, fglm_data_t * data,
 #endif
 
   uint32_t preinv = 2^(62) % prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  /* both remainders vanish modulo 2 */
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   uint64_t * data_backup = (uint64_t *) malloc (2 * matrix->ncols * sizeof(uint64_t));
 
@@ -1983,8 +1986,9 @@ static inline void generate_sequence_colon(sp_matfglmcol_t *matrix,
 #endif
 
   uint32_t preinv = 2^(62) % prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  /* both remainders vanish modulo 2 */
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   uint64_t acc = 0;
   for(szmat_t j = 0; j < matrix->ncols; j++){
-- 
2.43.0


From 4e06ee8c2ef514888399c1c2d520553268f751c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:15 +0000
Subject: [PATCH 53/53] fix: the threads converting a polynomial for a
 multiplication changed its length at the same time

Setting the last coefficient to zero normalises the polynomial, another
thread setting a coefficient beyond the new length then clears what was
set in between: wrong products or a crash (double free) with -t on
univariate polynomials of degree above 512 with vanishing coefficients.
---
 src/usolve/univmultiply.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/usolve/univmultiply.c b/src/usolve/univmultiply.c
index 239f6b7..33c861b 100644
--- a/src/usolve/univmultiply.c
+++ b/src/usolve/univmultiply.c
@@ -43,14 +43,6 @@
 #ifdef USEFLINT
 
 
-void fmpz_poly_set_coeff_mpz2(fmpz_poly_t poly, slong n,
-                             const mpz_t x){
-  fmpz_t t;
-  fmpz_init_set_readonly(t, x);
-  fmpz_poly_set_coeff_fmpz(poly, n, t);
-  fmpz_clear_readonly(t);
-}
-
 /* from mpz_t *poly to fmpz_poly_t  */
 
 static void mpz_2_fmpz_poly(fmpz_poly_t poly_flint, const mpz_t *poly_gmp,
@@ -58,13 +50,14 @@ static void mpz_2_fmpz_poly(fmpz_poly_t poly_flint, const mpz_t *poly_gmp,
                             const unsigned int nthreads){
 
 
-  poly_flint->length = deg + 1;
-  poly_flint->alloc = deg + 1;
   unsigned long int i;
+  /* the threads set one coefficient each and must not touch the length */
 #pragma omp parallel for private(i) num_threads(nthreads)
   for(i = 0; i <= deg; i++){
-    fmpz_poly_set_coeff_mpz2(poly_flint, ((slong)i),poly_gmp[i]);
+    fmpz_set_mpz(poly_flint->coeffs + i, poly_gmp[i]);
   }
+  _fmpz_poly_set_length(poly_flint, deg + 1);
+  _fmpz_poly_normalise(poly_flint);
 }
 
 
-- 
2.43.0

