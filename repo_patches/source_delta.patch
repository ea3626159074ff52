From e99e3778d1be8bea38ea667385df7c79b1571b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:38 +0000
Subject: [PATCH 01/50] fix: get_uint_rand() must start from an empty
 accumulator when the last word was used up exactly

The returned word stayed in bits_rand[1] and the next word's bits were added
on top of it, corrupting the stream of every generator whose width divides
evenly into a 32 bit boundary.
---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..bad8dca 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From 41b799e7467125ed60f87431aa90051b91ddc4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:54 +0000
Subject: [PATCH 02/50] fix: keep KS and Kuiper significances inside [0,1] and
 make them converge for tiny deviations

q_ks() returned values up to 2 and p_ks_new() tiny negative ones, the Kuiper
form returned negative values for small counts and did not end at x = 0.
Also drop a debug line printed into the report at 10400 p-values.
---
 libdieharder/kstest.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index aa02cc3..14e8e70 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -159,6 +159,11 @@ double q_ks(double x)
  if(verbose == D_KSTEST || verbose == D_ALL){
    printf("Q_ks returning %f\n",2.0*qsum);
  }
+ /*
+  * The truncated series overshoots for very small x, where Q -> 1.
+  */
+ if(qsum > 0.5) qsum = 0.5;
+ if(qsum < 0.0) qsum = 0.0;
  return(2.0*qsum);
 
 }
@@ -271,7 +276,6 @@ double p_ks_new(int n,double d)
    */
   s=d*d*n;
   if(ks_test != 2 && ( s>7.24 || ( s>3.76 && n>99 ))) {
-    if(n == 10400) printf("Returning the easy way\n");
     return 2.0*exp(-(2.000071+.331/sqrt(n)+1.409/n)*s);
   }
 
@@ -329,6 +333,9 @@ double p_ks_new(int n,double d)
   /* printf("I'll bet this is it: s = %16.8e  eQ = %d\n",s,eQ); */
   s*=pow(10.,eQ);
   s = 1.0 - s;
+  /* rounding in the above can push s slightly out of range */
+  if(s < 0.0) s = 0.0;
+  if(s > 1.0) s = 1.0;
   free(H);
   free(Q);
   return s;
@@ -433,6 +440,12 @@ double q_ks_kuiper(double x,int count)
   *   Q = Q - P (and leaving off P has consistently biased us HIGH!
   * To get the infinite sum, we simply sum to double precision convergence.
   */
+ /*
+  * Q is one to better than seven digits here, and the sums below fail to
+  * converge as x -> 0.
+  */
+ if(x < 0.4) return(1.0);
+
  m = 0;
  q = 0.0;
  q_last = -1.0;
@@ -462,6 +475,11 @@ double q_ks_kuiper(double x,int count)
  if(verbose == D_KSTEST || verbose == D_ALL){
    printf("Q_ks yields preturn = %f:  q = %f  p = %f\n",preturn,q,p);
  }
+ /*
+  * The asymptotic form can stray out of range for small counts.
+  */
+ if(preturn < 0.0) preturn = 0.0;
+ if(preturn > 1.0) preturn = 1.0;
  return(preturn);
 
 }
-- 
2.43.0


From 45a06126510d79fdb39b7dd32c25ef3ee6722576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:31 +0000
Subject: [PATCH 03/50] fix: do not read past the interval list in the birthday
 tests

---
 libdieharder/diehard_birthdays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 279088d47b1f7a4c83f781a61da2d22edc822506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:31 +0000
Subject: [PATCH 04/50] fix: do not read past the interval list in
 dab_birthdays1

---
 libdieharder/dab_birthdays1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..aa2247d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 33582789c63a5a8be1d366d674fe8849f916f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:31 +0000
Subject: [PATCH 05/50] fix: dab_birthdays1 must count a repeated interval that
 follows another repeated interval

After a group of equal intervals the loop skipped the first member of the next
group, so a second repeated value directly after the first was not counted.
---
 libdieharder/dab_birthdays1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index aa2247d..fccb072 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -185,7 +185,7 @@ int dab_birthdays1(Test **test, int irun)
      /*
       * Skip all the rest that were identical.
       */
-     if(mnext != m+1) m = mnext;
+     if(mnext != m+1) m = mnext-1;
    }
 
    /*
-- 
2.43.0


From 64a3d2efbcb13d405f1c5c5f6fc7b52b80b2add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:46 +0000
Subject: [PATCH 06/50] fix: undefined shifts and division by zero in the DAB
 tests

Rotating by zero or by the full word, setting bit 31 of a signed int, and
sample sizes below four were undefined.
---
 libdieharder/dab_dct.c      | 8 +++++---
 libdieharder/dab_filltree.c | 6 ++++--
 libdieharder/dab_opso2.c    | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libdieharder/dab_dct.c b/libdieharder/dab_dct.c
index 54b5508..532c64e 100644
--- a/libdieharder/dab_dct.c
+++ b/libdieharder/dab_dct.c
@@ -36,7 +36,9 @@
 
 #include <dieharder/libdieharder.h>
 
-#define RotL(x,N)    (rmax_mask & (((x) << (N)) | ((x) >> (rmax_bits-(N)))))
+/* The amount may be zero or a full word, which must not be shifted by */
+#define RotL(x,N)    (((N)%rmax_bits) == 0 ? (rmax_mask & (x)) : \
+  (rmax_mask & (((x) << ((N)%rmax_bits)) | ((x) >> (rmax_bits-((N)%rmax_bits))))))
 
 void fDCT2(const unsigned int input[], double output[], size_t len);
 void iDCT2(const double input[], double output[], size_t len);
@@ -84,7 +86,7 @@ int dab_dct(Test **test,int irun)
  unsigned int i, j;
  unsigned int len = (ntuple == 0) ? 256 : ntuple;
  int rotAmount = 0;
- unsigned int v = 1<<(rmax_bits-1);
+ unsigned int v = 1U<<(rmax_bits-1);
  double mean = (double) len * (v - 0.5);
 
  /* positionCounts is only used by the primary test, and not by the
@@ -132,7 +134,7 @@ int dab_dct(Test **test,int irun)
    /* Change the rotation amount after each quarter of the samples
     * have been used.
     */
-   if (j != 0 && (j % (test[0]->tsamples / 4) == 0)) {
+   if (j != 0 && test[0]->tsamples >= 4 && (j % (test[0]->tsamples / 4) == 0)) {
      rotAmount += rmax_bits/4;
    }
 
diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index a377c3d..7c06538 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -22,7 +22,9 @@
  */
 #include <dieharder/libdieharder.h>
 
-#define RotL(x,N)    (rmax_mask & (((x) << (N)) | ((x) >> (rmax_bits-(N)))))
+/* The amount may be zero or a full word, which must not be shifted by */
+#define RotL(x,N)    (((N)%rmax_bits) == 0 ? (rmax_mask & (x)) : \
+  (rmax_mask & (((x) << ((N)%rmax_bits)) | ((x) >> (rmax_bits-((N)%rmax_bits))))))
 #define CYCLES 4
 
 static double targetData1[] __attribute__((unused)) = {
@@ -87,7 +89,7 @@ int dab_filltree(Test **test,int irun) {
    positionCounts[ret/2]++;
 
    counts[i-1]++;
-   if (j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
+   if (test[0]->tsamples >= CYCLES && j % (test[0]->tsamples/CYCLES) == 0) rotAmount++;
  }
 
  test[0]->pvalues[irun] = chisq_pearson(counts + start, expected + start, end - start);
diff --git a/libdieharder/dab_opso2.c b/libdieharder/dab_opso2.c
index c37ad8f..bfae65d 100644
--- a/libdieharder/dab_opso2.c
+++ b/libdieharder/dab_opso2.c
@@ -52,7 +52,7 @@ int dab_opso2(Test **test, int irun) {
  unsigned int w1[524288], w2[524288];  /* 2^24 positions = 2^5 * 2^19; 2^19 = 524288 */
  unsigned int mask[32];      /* Masks to take the place of a bitset operation */
 
- for (i = 0; i < 32; i++) mask[i] = 1<<i;
+ for (i = 0; i < 32; i++) mask[i] = 1U<<i;
 
  test[0]->ntuple = 0;
  test[1]->ntuple = 1;
-- 
2.43.0


From c8776b72c4b71a4086963dfa3f74e75445c7c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:07 +0000
Subject: [PATCH 07/50] fix: heap overflow, leak and unset p-value in the fill
 tree tests

The count arrays were sized for the default tree only, but the insertion
counter may run to twice the tree size (zeros in the stream, larger -n).
---
 libdieharder/dab_filltree.c  | 13 ++++++++++---
 libdieharder/dab_filltree2.c | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 7c06538..d81556d 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -41,6 +41,7 @@ static inline int insert(double x, double *array, unsigned int startVal);
 int dab_filltree(Test **test,int irun) {
  int size = (ntuple == 0) ? 32 : ntuple;
  unsigned int target = sizeof(targetData)/sizeof(double);
+ unsigned int ncounts;  /* a tree may take up to 2*size+1 words */
  int startVal = (size / 2) - 1;
  double *array = (double *) malloc(sizeof(double) * size);
  double *counts, *expected;
@@ -51,9 +52,10 @@ int dab_filltree(Test **test,int irun) {
  unsigned int rotAmount = 0;
  double *positionCounts;
 
- counts = (double *) malloc(sizeof(double) * target);
- expected = (double *) malloc(sizeof(double) * target);
- memset(counts, 0, sizeof(double) * target);
+ ncounts = (2*size + 1 > target) ? 2*size + 1 : target;
+ counts = (double *) malloc(sizeof(double) * ncounts);
+ expected = (double *) malloc(sizeof(double) * ncounts);
+ memset(counts, 0, sizeof(double) * ncounts);
 
  positionCounts = (double *) malloc(sizeof(double) * size/2);
  memset(positionCounts, 0, sizeof(double) * size/2);
@@ -82,6 +84,11 @@ int dab_filltree(Test **test,int irun) {
      i++;
      if (i > size * 2) {
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      ret = insert(x, array, startVal);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index bcf1df0..2eae018 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -97,6 +97,7 @@ static inline int insertBit(uint x, uchar *array, uint *i, uint *d);
 int dab_filltree2(Test **test, int irun) {
  int size = (ntuple == 0) ? 128 : ntuple;
  uint target = sizeof(targetData)/sizeof(double);
+ uint ncounts;  /* a tree may take up to 2*size+1 words */
  int startVal = (size / 2) - 1;
  uchar *array = (uchar *) malloc(sizeof(*array) * size);
  double *counts, *expected;
@@ -110,10 +111,11 @@ int dab_filltree2(Test **test, int irun) {
  test[0]->ntuple = 0;
  test[1]->ntuple = 1;
 
- counts = (double *) malloc(sizeof(double) * target);
- expected = (double *) malloc(sizeof(double) * target);
+ ncounts = (2*size + 1 > target) ? 2*size + 1 : target;
+ counts = (double *) malloc(sizeof(double) * ncounts);
+ expected = (double *) malloc(sizeof(double) * ncounts);
 
- memset(counts, 0, sizeof(double) * target);
+ memset(counts, 0, sizeof(double) * ncounts);
 
  positionCounts = (uint *) malloc(sizeof(uint) * size/2);
  memset(positionCounts, 0, sizeof(uint) * size/2);
@@ -139,6 +141,11 @@ int dab_filltree2(Test **test, int irun) {
      uint d = (startVal + 1) / 2;
      if (i > size * 2) {
        test[0]->pvalues[irun] = 0;
+       test[1]->pvalues[irun] = 0;
+       nullfree(positionCounts);
+       nullfree(expected);
+       nullfree(counts);
+       nullfree(array);
        return(0);
      }
      do {  /* While this path has not yet found a blank node to mark.... */
-- 
2.43.0


From 597ae4efbaa04ab39800be2d0608cc32572689f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:15 +0000
Subject: [PATCH 08/50] fix: unusable tuple sizes of the DAB tests crashed

-n 1 made the fill tree tests write outside the tree, and a length that is not
a power of two aborted the DCT test inside GSL.
---
 libdieharder/dab_dct.c       | 2 +-
 libdieharder/dab_filltree.c  | 5 +++++
 libdieharder/dab_filltree2.c | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libdieharder/dab_dct.c b/libdieharder/dab_dct.c
index 532c64e..8f1d8d3 100644
--- a/libdieharder/dab_dct.c
+++ b/libdieharder/dab_dct.c
@@ -216,7 +216,7 @@ void fDCT2_fft(const unsigned int input[], double output[], size_t len) {
   * David, please check this -- do you mean to call fDCT2 and then return?
   * ISO C forbids a return with expression in a void function.
   */
- if (len <= 4) {
+ if (len <= 4 || (len & (len-1)) != 0) {  /* the FFT is radix 2 */
    fDCT2(input, output, len);
    return;
  }
diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index d81556d..67c8d46 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -52,6 +52,11 @@ int dab_filltree(Test **test,int irun) {
  unsigned int rotAmount = 0;
  double *positionCounts;
 
+ if (size < 2) {
+   fprintf(stderr,"Error: dab_filltree needs a tree of at least 2 nodes (ntuple %d).\n",size);
+   exit(0);
+ }
+
  ncounts = (2*size + 1 > target) ? 2*size + 1 : target;
  counts = (double *) malloc(sizeof(double) * ncounts);
  expected = (double *) malloc(sizeof(double) * ncounts);
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index 2eae018..f544ca7 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -111,6 +111,11 @@ int dab_filltree2(Test **test, int irun) {
  test[0]->ntuple = 0;
  test[1]->ntuple = 1;
 
+ if (size < 2) {
+   fprintf(stderr,"Error: dab_filltree2 needs a tree of at least 2 nodes (ntuple %d).\n",size);
+   exit(0);
+ }
+
  ncounts = (2*size + 1 > target) ? 2*size + 1 : target;
  counts = (double *) malloc(sizeof(double) * ncounts);
  expected = (double *) malloc(sizeof(double) * ncounts);
-- 
2.43.0


From 3f32c3f415a12afec0016f213fb706c87a2e9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:29 +0000
Subject: [PATCH 09/50] fix: words seen a multiple of 256 times counted as
 missing in bitstream and DNA

---
 libdieharder/diehard_bitstream.c | 4 ++--
 libdieharder/diehard_dna.c       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index 2038366..bce253c 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -169,7 +169,7 @@ int diehard_bitstream(Test **test, int irun)
        dumpuintbits(&w20, 1);
        printf("\n");
      }
-     w[w20]++;
+     w[w20] = 1;  /* only presence counts; a char counter would wrap */
 
    } else {
 
@@ -235,7 +235,7 @@ int diehard_bitstream(Test **test, int irun)
          printf("\n");
        }
      }
-     w[w20]++;
+     w[w20] = 1;  /* only presence counts; a char counter would wrap */
 
    }
  }
diff --git a/libdieharder/diehard_dna.c b/libdieharder/diehard_dna.c
index 98d0db7..3d7ddff 100644
--- a/libdieharder/diehard_dna.c
+++ b/libdieharder/diehard_dna.c
@@ -166,7 +166,7 @@ int diehard_dna(Test **test, int irun)
    q = get_bit_ntuple_from_uint(q0,2,mask,boffset);
    r = get_bit_ntuple_from_uint(r0,2,mask,boffset);
    /* printf("%u:   %u  %u  %u  %u  %u\n",t,i,j,k,l,boffset); */
-   w[i][j][k][l][m][n][o][p][q][r]++;
+   w[i][j][k][l][m][n][o][p][q][r] = 1;  /* only presence counts; a char counter would wrap */
    boffset++;
  }
 
-- 
2.43.0


From b729649bd4d42d23d2a34366b4a3ee569a046330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 10/50] fix: diehard_bitstream read past its buffer for large
 -t

---
 libdieharder/diehard_bitstream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index bce253c..24b8603 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -47,7 +47,7 @@ int diehard_bitstream(Test **test, int irun)
  uint i,j,t,boffset,coffset;
  Xtest ptest;
  char *w;
- uint *bitstream,w20,wscratch,newbyte;
+ uint *bitstream,w20,wscratch,newbyte,nuints;
  unsigned char *cbitstream = 0;
  uint overlap = 1;  /* Leftovers/Cruft */
 
@@ -80,8 +80,11 @@ int diehard_bitstream(Test **test, int irun)
  ptest.y = 141909;
  if(overlap){
    ptest.sigma = 428.0;
-   bitstream = (uint *)malloc(BS_OVERLAP*sizeof(uint));
-   for(i = 0; i < BS_OVERLAP; i++){
+   /* more than the standard 2^21 samples need a longer bitstream */
+   nuints = test[0]->tsamples/32 + 2;
+   if(nuints < BS_OVERLAP) nuints = BS_OVERLAP;
+   bitstream = (uint *)malloc(nuints*sizeof(uint));
+   for(i = 0; i < nuints; i++){
      bitstream[i] = get_rand_bits_uint(32,0xffffffff,rng);
    }
    MYDEBUG(D_DIEHARD_BITSTREAM) {
-- 
2.43.0


From 71dde13837d7ae53a0c3d1a59fe005207948c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 11/50] fix: binary_rank() eliminated the wrong words of
 matrices wider than one word

---
 libdieharder/rank.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..72902ac 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -160,14 +160,14 @@ int binary_rank(uint **mtx,int mrows,int ncols)
           * we use exclusive or to eliminate the
           * rest of the column.
           */
-         n = uint_col_max - col_ind;
+         n = uint_col_max;
          if(verbose == D_BRANK || verbose == D_ALL){
            printf("eliminating against row %2d = ",i);
            dumpbits(&mtx[i][col_ind],32);
            printf("eliminating row %2d, before = ",k);
            dumpbits(&mtx[k][col_ind],32);
          }
-         while (n >= 0){
+         while (n >= col_ind){
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-- 
2.43.0


From 254781f50456389f9da4f00360eb91bcd84134db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:22 +0000
Subject: [PATCH 12/50] fix: the XOR supergenerator drew twice from its first
 component

Its first output was XORed with its own next output, so one component was not
passed through and the combination was not the XOR of its components.
---
 libdieharder/rng_XOR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..a44b4b4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -40,7 +40,7 @@ XOR_get (void *vstate)
   * to have to decorate this code with error checks...
   */
  state->XOR_rnd = gsl_rng_get(state->grngs[1]);
- for(i=1;i<gvcount;i++){
+ for(i=2;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
  return state->XOR_rnd;
-- 
2.43.0


From 92efee357c44ff6261a140ce8458dd3460f8fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:22 +0000
Subject: [PATCH 13/50] fix: reseeding the XOR supergenerator leaked all of its
 components

---
 libdieharder/rng_XOR.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index a44b4b4..2c947c4 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -64,7 +64,7 @@ static void XOR_set (void *vstate, unsigned long int s) {
   * as per usual, and used (ONLY) to see the remaining generators.
   * The remaining generators.
   */
- state->grngs[0] = gsl_rng_alloc(dh_rng_types[14]);
+ if(state->grngs[0] == NULL) state->grngs[0] = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(state->grngs[0],seed_seed);
  for(i=1;i<gvcount;i++){
@@ -74,7 +74,8 @@ static void XOR_set (void *vstate, unsigned long int s) {
     * here or in choose_rng() to be sure that all of the rngs
     * exist.
     */
-   state->grngs[i] = gsl_rng_alloc(dh_rng_types[gnumbs[i]]);
+   /* reseeding reuses the components of an earlier call */
+   if(state->grngs[i] == NULL) state->grngs[i] = gsl_rng_alloc(dh_rng_types[gnumbs[i]]);
    gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0]));
 
  }
-- 
2.43.0


From 229c0aa009a801fedbad73fd32d6013377688e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:46 +0000
Subject: [PATCH 14/50] fix: XOR supergenerator with named, missing or unusable
 components

Component names were never resolved (the slot's number 0 was used instead) and
a combination of nothing, of unknown numbers or of itself crashed.
---
 dieharder/choose_rng.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index f5d4e49..1c29b35 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -96,6 +96,42 @@ void choose_rng()
  * ========================================================================
  */
 
+/*
+ * Turn the names of the generators to be XOR'd (all but the first, which is
+ * the supergenerator itself) into numbers, and make sure they can be used.
+ */
+static int resolve_XOR_components()
+{
+
+ int i,j;
+
+ if(gvcount < 2){
+   fprintf(stderr,"Error: the XOR supergenerator needs at least one more -g generator to combine.\n");
+   return(-1);
+ }
+ for(j = 1;j < gvcount;j++){
+   if(gnames[j][0] != 0){
+     gnumbs[j] = MAXRNGS;
+     for(i=0;i<1000;i++){
+       if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0){
+         gnumbs[j] = i;
+         break;
+       }
+     }
+   }
+   if(gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0 || dh_rng_types[gnumbs[j]] == gsl_rng_XOR){
+     fprintf(stderr,"Error: generator %d of the XOR supergenerator is not usable.\n",j);
+     return(-1);
+   }
+   if(strncmp("file_input",dh_rng_types[gnumbs[j]]->name,10) == 0 && fromfile != 1){
+     fprintf(stderr,"Error: generator %s uses file input but no filename has been specified",dh_rng_types[gnumbs[j]]->name);
+     return(-1);
+   }
+ }
+ return(0);
+
+}
+
 int select_rng(int gennum,char *genname,unsigned int initial_seed)
 {
 
@@ -166,6 +202,10 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    }
  }
 
+ if(dh_rng_types[gennum] == gsl_rng_XOR && resolve_XOR_components() < 0){
+   return(-1);
+ }
+
  /*
   * If we get here, in principle the gennum is valid and the right
   * inputs are defined to run it (in the case of file_input). We therefore
-- 
2.43.0


From 3df332bdabf3d5aea020593d4cdc1d8679b0fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:46 +0000
Subject: [PATCH 15/50] fix: file names of 128 or more characters were cut,
 opening a different file

---
 dieharder/parsecl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f93b946..93fef6b 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -137,7 +137,11 @@ void parsecl(int argc, char **argv)
        show_flags = 1;
        break;
      case 'f':
-       strncpy(filename,optarg,128);
+       if(strlen(optarg) >= K){
+         fprintf(stderr,"Error: file name too long.\n");
+	 exit(1);
+       }
+       strncpy(filename,optarg,K);
        fromfile = 1;
        break;
      /*
-- 
2.43.0


From e2ba8773b8dc447b18cfa9a84804215f08b648ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:46 +0000
Subject: [PATCH 16/50] fix: the output flag name file_rng_stat was listed but
 not accepted

---
 dieharder/parsecl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 93fef6b..886144d 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -80,7 +80,7 @@ void parsecl(int argc, char **argv)
 	  * then try to lookup a string instead and convert to
 	  * the index/number needed.
 	  */
-	 for(i=0;i<TCNT;i++){
+	 for(i=0;i<=TCNT;i++){
 	   if(strncmp(optarg,table_fields[i],TLENGTH) == 0){
              /* printf("Setting table option %s.\n",optarg); */
 	     /*
@@ -95,7 +95,7 @@ void parsecl(int argc, char **argv)
 	     break;
 	   }
 	 }
-	 if(i == TCNT) {
+	 if(i > TCNT) {
 	   fprintf(stderr,"Invalid -T %s option.\n",optarg);
 	   exit(1);
 	 }
-- 
2.43.0


From 4f46098844697a8d730c2bd4e4a63852858f1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:46 +0000
Subject: [PATCH 17/50] fix: repeating an output flag turned it off and other
 flags on

Flags were added instead of combined, so -D default -D pvalues lost the
p-value column.
---
 dieharder/parsecl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 886144d..68754b8 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -113,7 +113,7 @@ void parsecl(int argc, char **argv)
          /*
 	  * We accumulate tflag from zero.
 	  */
-         tflag += tflag_tmp;
+         tflag |= tflag_tmp;
        }
        break;
      case 'd':
-- 
2.43.0


From df815b4053e1c178200363cd6726509920900227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:02 +0000
Subject: [PATCH 18/50] fix: command line overran the generator and seed
 vectors

---
 dieharder/parsecl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 68754b8..6d94b5b 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -155,10 +155,14 @@ void parsecl(int argc, char **argv)
       * by the choose_rng function later.
       */
      case 'g':
+       if(gvcount >= GVECMAX){
+         fprintf(stderr,"Error: more than %d -g generators given.\n",GVECMAX);
+         exit(1);
+       }
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
        if(strncmp(optarg,endptr,1) == 0){
-         strncpy(gnames[gvcount],optarg,128);
+         strncpy(gnames[gvcount],optarg,127);
        } else {
          gnumbs[gvcount] = gen_tmp;
        }
@@ -207,6 +211,10 @@ void parsecl(int argc, char **argv)
        break;
      case 'S':
        Seed = strtol(optarg,(char **) NULL,10);
+       if(gscount >= GVECMAX){
+         fprintf(stderr,"Error: more than %d -S seeds given.\n",GVECMAX);
+         exit(1);
+       }
        gseeds[gscount] = gen_tmp;
        gscount++;
        break;
-- 
2.43.0


From 028a7dd18361188103c9dd07d90dff8a4f619759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:12 +0000
Subject: [PATCH 19/50] fix: get_rand_bits_uint() reordered bits when a full
 word was requested after a partial one

---
 libdieharder/static_get_bits.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index 6771935..bbd3de4 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -101,9 +101,10 @@ and so on.  Very nice.
   * with bitshift operators on x86 architectures, see below.  I left a
   * local patch in below as well just to make double-dog sure that one
   * never does (uintvar << 32) for some uint variable; probably should
-  * do the same for (uintvar >> 32) calls below.
+  * do the same for (uintvar >> 32) calls below.  Bits left over from
+  * an earlier request of another size have to be delivered first, though.
   */
- if(nbits == rmax_bits){
+ if(nbits == rmax_bits && bits_left_in_bit_buffer == 0){
    return gsl_rng_get(rng);
  }
   
-- 
2.43.0


From f2a4b0aa4687398be83f740f2835cb8822917ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:28 +0000
Subject: [PATCH 20/50] fix: undefined shift in get_rand_bits_uint() for 32
 bits without a mask

---
 libdieharder/static_get_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index bbd3de4..1a5ef86 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -37,7 +37,7 @@ inline static uint get_rand_bits_uint (uint nbits, uint mask, gsl_rng *rng)
   * and does the right thing if the mask is supposed to be all 1's
   * (in which case this is a dumb routine to call, in some sense).
   */
- if(mask == 0){
+ if(mask == 0 && nbits < 32){
    mask = ((1u << nbits) - 1);
  }
  if(nbits == 32){
-- 
2.43.0


From ff719b416bc846b26781ab9c02ef6f20843fbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:42 +0000
Subject: [PATCH 21/50] fix: a per-test reseed kept bits buffered from the
 previous stream

With -s 1 and a generator narrower than 32 bits (or a test drawing odd bit
counts) a test's result depended on the tests run before it.
---
 dieharder/run_all_tests.c        | 44 ++++++++++++++++++++------------
 include/dieharder/libdieharder.h |  1 +
 libdieharder/bits.c              |  3 +++
 libdieharder/static_get_bits.c   |  9 +++++++
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/dieharder/run_all_tests.c b/dieharder/run_all_tests.c
index 285a168..fdb38fa 100644
--- a/dieharder/run_all_tests.c
+++ b/dieharder/run_all_tests.c
@@ -16,6 +16,18 @@
 
 #include "dieharder.h"
 
+/*
+ * Run one test of the series.  If execute_test() is going to reseed, the
+ * new stream must not start with bits buffered from the old one.
+ */
+static void run_one_test(int dtest_num)
+{
+
+ if(strategy) reset_bit_buffers();
+ execute_test(dtest_num);
+
+}
+
 void run_all_tests()
 {
 
@@ -35,7 +47,7 @@ void run_all_tests()
   */
  for(dtest_num=0;dtest_num<dh_num_diehard_tests;dtest_num++){
    if(dh_test_types[dtest_num]){
-     execute_test(dtest_num);
+     run_one_test(dtest_num);
    }
  }
 
@@ -44,7 +56,7 @@ void run_all_tests()
   */
  for(dtest_num=100;dtest_num<100+dh_num_sts_tests;dtest_num++){
    if(dh_test_types[dtest_num]){
-     execute_test(dtest_num);
+     run_one_test(dtest_num);
    }
  }
 
@@ -72,7 +84,7 @@ void run_all_tests()
 	    * We might need to check to be sure it is "doable", but probably
 	    * not...
             */
-           execute_test(dtest_num);
+           run_one_test(dtest_num);
          } else {
            /*
             * Default is to test 1 through 8 bits, which takes a while on my
@@ -84,7 +96,7 @@ void run_all_tests()
            /* ntmax = 8; */
            /* printf("Setting ntmin = %d ntmax = %d\n",ntmin,ntmax); */
            for(ntuple = ntmin;ntuple <= ntmax;ntuple++){
-             execute_test(dtest_num);
+             run_one_test(dtest_num);
            }
            /*
             * This RESTORES ntuple = 0, which is the only way we could have
@@ -111,10 +123,10 @@ void run_all_tests()
            if(ntuple < 2 || ntuple > 5){
              ntsave = ntuple;
              ntuple = 5;  /* This is the hardest test anyway */
-             execute_test(dtest_num);
+             run_one_test(dtest_num);
              ntuple = ntsave;
            } else {
-             execute_test(dtest_num);
+             run_one_test(dtest_num);
            }
          } else {
            /*
@@ -125,7 +137,7 @@ void run_all_tests()
            ntmax = 5;
            /* printf("Setting ntmin = %d ntmax = %d\n",ntmin,ntmax); */
            for(ntuple = ntmin;ntuple <= ntmax;ntuple++){
-	     execute_test(dtest_num);
+	     run_one_test(dtest_num);
 	   }
            /*
             * This RESTORES ntuple = 0, which is the only way we could have
@@ -153,10 +165,10 @@ void run_all_tests()
            if(ntuple < 2){
              ntsave = ntuple;
              ntuple = 5;  /* This is the default operm5 value */
-             execute_test(dtest_num);
+             run_one_test(dtest_num);
              ntuple = ntsave;
            } else {
-             execute_test(dtest_num);
+             run_one_test(dtest_num);
            }
          } else {
            /*
@@ -167,7 +179,7 @@ void run_all_tests()
            ntmax = 5;
            /* printf("Setting ntmin = %d ntmax = %d\n",ntmin,ntmax); */
            for(ntuple = ntmin;ntuple <= ntmax;ntuple++){
-	     execute_test(dtest_num);
+	     run_one_test(dtest_num);
 	   }
            /*
             * This RESTORES ntuple = 0, which is the only way we could have
@@ -191,7 +203,7 @@ void run_all_tests()
            /*
             * If ntuple is set to be nonzero, just use that value in "all".
             */
-           execute_test(dtest_num);
+           run_one_test(dtest_num);
          } else {
            /*
             * Do all lags from 0 to 32.
@@ -200,7 +212,7 @@ void run_all_tests()
            ntmax = 32;
            /* printf("Setting ntmin = %d ntmax = %d\n",ntmin,ntmax); */
            for(ntuple = ntmin;ntuple <= ntmax;ntuple++){
-	     execute_test(dtest_num);
+	     run_one_test(dtest_num);
 	   }
            /*
             * This RESTORES ntuple = 0, which is the only way we could have
@@ -219,7 +231,7 @@ void run_all_tests()
      case 204:
 
        if(dh_test_types[dtest_num]){
-         execute_test(dtest_num);
+         run_one_test(dtest_num);
        }
        break;
 
@@ -229,7 +241,7 @@ void run_all_tests()
      case 205:
 
        if(dh_test_types[dtest_num]){
-         execute_test(dtest_num);
+         run_one_test(dtest_num);
        }
        break;
 
@@ -239,14 +251,14 @@ void run_all_tests()
      case 206:
 
        if(dh_test_types[dtest_num]){
-         execute_test(dtest_num);
+         run_one_test(dtest_num);
        }
        break;
 
      default:
        printf("Preparing to run test %d.  ntuple = %d\n",dtest_num,ntuple);
        if(dh_test_types[dtest_num]){   /* This is the fallback to normal tests */
-         execute_test(dtest_num);
+         run_one_test(dtest_num);
        }
        break;
 
diff --git a/include/dieharder/libdieharder.h b/include/dieharder/libdieharder.h
index 3227c23..ccab8d1 100644
--- a/include/dieharder/libdieharder.h
+++ b/include/dieharder/libdieharder.h
@@ -146,6 +146,7 @@
  void mybitadd(char *dst, int doffset, char *src, int soffset, int slen);
  void get_rand_pattern(void *result,unsigned int rsize,int *pattern,gsl_rng *gsl_rng);
  void reset_bit_buffers();
+ extern unsigned int bit_buffer_resets;  /* number of reset_bit_buffers() calls */
 
 /* Cruft
  int get_int_bit(unsigned int i, unsigned int n);
diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index bad8dca..4ae8cf9 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -1423,11 +1423,14 @@ void get_rand_pattern(void *result,unsigned int rsize,int *pattern,gsl_rng *gsl_
  * static buffers that must be cleared in order to achieve consistent
  * results from a rng reseed on, per run.
  */
+unsigned int bit_buffer_resets = 0;
+
 void reset_bit_buffers()
 {
 
   int i;
   
+  bit_buffer_resets++;  /* seen by the static copies in static_get_bits.c */
   bits_rand[0] = bits_rand[1] = 0;
   bleft = -1;
   for(i = 0;i<BRBUF;i++){
diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index 1a5ef86..ce973eb 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -27,8 +27,17 @@ inline static uint get_rand_bits_uint (uint nbits, uint mask, gsl_rng *rng)
 
  static uint bit_buffer;
  static uint bits_left_in_bit_buffer = 0;
+ static uint my_resets = 0;   /* resets seen, see reset_bit_buffers() */
  uint bits,breturn;
 
+ /*
+  * Drop what an earlier stream left behind.
+  */
+ if(my_resets != bit_buffer_resets){
+   bits_left_in_bit_buffer = 0;
+   my_resets = bit_buffer_resets;
+ }
+
  /*
   * If there are enough bits left in the bit buffer, shift them out into
   * bits and return.  I like to watch this happen, so I'm instrumenting
-- 
2.43.0


From 2dfdaf4e91ec1d75789c80039de8395382354d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 22/50] fix: real numbers in a formatted input file were all
 read as zero

The cast applied to the fraction, not to the scaled value.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..32f973e 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From d90f032c60b20f46ed945375f6cfe3fd3d1f15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 23/50] fix: formatted input must refuse lines that hold no
 number of its type

A blank line repeated or invented a value, a real outside [0,1] was converted
with undefined result, and a short line of bits was read past its end.
---
 libdieharder/rng_file_input.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 32f973e..925a69f 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,17 +119,21 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
+       if(!(f >= 0.0 && f <= 1.0)){
+         fprintf(stderr,"Error: %s is not in [0,1].  Exiting.\n", inbuf);
+         exit(0);
+       }
        iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +142,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -155,6 +159,10 @@ static unsigned long int file_input_get (void *vstate)
       *    01110101001010100100111101101110
       */
      case 'b':
+       if(filenumbits < 1 || filenumbits > 32 || (int) strspn(inbuf,"01") < filenumbits){
+         fprintf(stderr,"Error: converting %s to %d bits failed.  Exiting.\n", inbuf,filenumbits);
+         exit(0);
+       }
        iret = bit2uint(inbuf,filenumbits);
        break;
      default:
-- 
2.43.0


From d886e4ab65b15c2173b5e33a0486773fdeb83e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 24/50] fix: every reseed of a formatted input file leaked an
 open file

---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 925a69f..e5c719d 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -235,7 +235,7 @@ static void file_input_set (void *vstate, unsigned long int s)
    if(verbose == D_FILE_INPUT || verbose == D_ALL){
      fprintf(stdout,"# file_input(): Closing/reopening/resetting %s\n",filename);
    }
-   /* fclose(state->fp); */
+   fclose(state->fp);
    state->fp = NULL;
  }
 
-- 
2.43.0


From 26931a8f062edf7d41b3b483a465fd29542746a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 25/50] fix: chop() wrote before an empty string

---
 libdieharder/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/parse.c b/libdieharder/parse.c
index 7bc8781..13a5a0d 100644
--- a/libdieharder/parse.c
+++ b/libdieharder/parse.c
@@ -135,6 +135,7 @@ void chop(char *buf)
 {
 
  /* Advance to end of string */
+ if(*buf == 0) return;
  while(*buf != 0) buf++;
  buf--;
  /* Reterminate one character earlier */
-- 
2.43.0


From 25b4f3f599c3ce19a43d64be90cb926dddb4dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 26/50] fix: a missing raw input file was judged by an
 uninitialised stat buffer

---
 libdieharder/rng_file_input_raw.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdieharder/rng_file_input_raw.c b/libdieharder/rng_file_input_raw.c
index 2e0e87d..039e4b0 100644
--- a/libdieharder/rng_file_input_raw.c
+++ b/libdieharder/rng_file_input_raw.c
@@ -133,6 +133,8 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
        fprintf(stderr,"# file_input_raw(): Error -- file descriptor %s bad.\n",filename);
        exit(0);
      }
+     fprintf(stderr,"# file_input_raw(): Error: Cannot open %s, exiting.\n", filename);
+     exit(0);
    }
    /*
     * Is this a regular file?  If so, turn its byte length into a 32 bit uint
-- 
2.43.0


From 82c369875c3ca265c458a2d1c3c6f222b315dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:52 +0000
Subject: [PATCH 27/50] fix: superkiss returned values beyond its declared
 maximum

The sum was formed in 64 bits and not reduced.
---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..2282779 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int) (( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 30aa1f89f3abdad0dbbf464f9478eee905185e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:52 +0000
Subject: [PATCH 28/50] fix: seeding kiss and superkiss leaked the seeding
 generator

---
 libdieharder/rng_kiss.c      | 1 +
 libdieharder/rng_superkiss.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libdieharder/rng_kiss.c b/libdieharder/rng_kiss.c
index 9e761ad..af6f6e4 100644
--- a/libdieharder/rng_kiss.c
+++ b/libdieharder/rng_kiss.c
@@ -93,6 +93,7 @@ kiss_set (void *vstate, unsigned long int s)
   * Notes: offset c by 1 to avoid z=c=0; should be less than 698769069.
   */
  state->c = gsl_rng_get(seed_rng) % 698769068 + 1;
+ gsl_rng_free(seed_rng);
  /* printf("x = %10u y = %10u z = %10u c = %10u\n",
          state->x,state->y,state->z,state->c); */
  return;
diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 2282779..b00f18f 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -109,6 +109,7 @@ static void superkiss_set (void *vstate, unsigned long int s)
  for(i = 0;i < SUPERKISS_QMAX;i++){
    state->Q[i] = gsl_rng_get(seed_rng);
  }
+ gsl_rng_free(seed_rng);
  state->indx=SUPERKISS_QMAX;
  state->carry=362436;
  state->xcng=1236789;
-- 
2.43.0


From f443aafe963908b9a551c9f2d41f1c181ec178c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:12 +0000
Subject: [PATCH 29/50] fix: the ca generator ignored the seed it was given and
 changed the reported one

ca_set() read and incremented the program's global seed.
---
 libdieharder/rng_ca.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..f0c3791 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -133,14 +133,14 @@ ca_set (void *vstate, unsigned long int s) {
     init_config[i] = 0;
 
   /* set initial cell states using seed */
-  init_config[CA_WIDTH - 1] = (unsigned char)(seed);
-  init_config[CA_WIDTH - 2] = (unsigned char)(seed << 8);
-  init_config[CA_WIDTH - 3] = (unsigned char)(seed << 16);
-  init_config[CA_WIDTH - 4] = (unsigned char)(seed << 24);
-  if (seed != 0xFFFFFFFF)
-     seed++;
+  init_config[CA_WIDTH - 1] = (unsigned char)(s);
+  init_config[CA_WIDTH - 2] = (unsigned char)(s << 8);
+  init_config[CA_WIDTH - 3] = (unsigned char)(s << 16);
+  init_config[CA_WIDTH - 4] = (unsigned char)(s << 24);
+  if (s != 0xFFFFFFFF)
+     s++;
   for (i = 0; i < CA_WIDTH - 4; i++)
-    init_config[i] = (unsigned char) ( seed >> (i % 32) );
+    init_config[i] = (unsigned char) ( s >> (i % 32) );
 
   /* define addresses of first_cell and last_cell */
   first_cell = init_config;
-- 
2.43.0


From a5f23163065592f8af41fd656cf5d55f96ff6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:12 +0000
Subject: [PATCH 30/50] fix: reseeding uvag did not restart its sequence and
 filled the bit buffers of the tests

Its key was drawn through the global bit buffers, so it depended on what was
in them, and left bits of the seeding generator there for the next test.
---
 libdieharder/rng_uvag.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..9348e6a 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -123,7 +123,7 @@ static void uvag_set (void *vstate, unsigned long int s) {
  /* Initialize automaton using specified seed. */
  uvag_state_t *state __attribute__((unused)) = (uvag_state_t *) vstate;
  
- uint i, array_len = 255 + WORD, tot, seed_seed, tmp8;
+ uint i, array_len = 255 + WORD, tot, seed_seed, tmp8 = 0;
  unsigned char key[256], *kp, temp;
  gsl_rng *seed_rng;    /* random number generator used to seed uvag */
 
@@ -146,27 +146,20 @@ static void uvag_set (void *vstate, unsigned long int s) {
  seed_rng = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(seed_rng,seed_seed);
- random_max = gsl_rng_max(seed_rng);
- rmax = random_max;
- rmax_bits = 0;
- rmax_mask = 0;
- while(rmax){
-   rmax >>= 1;
-   rmax_mask = rmax_mask << 1;
-   rmax_mask++;
-   rmax_bits++;
- }
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
-   get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
+   /* not get_rand_bits(), whose buffer belongs to the generator under test */
+   if(i%4 == 0) tmp8 = gsl_rng_get(seed_rng);
+   else tmp8 >>= 8;
    if(i!=255){
-     key[i] = tmp8;
+     key[i] = tmp8 & 0xff;
    } else {
      key[i] = 0;
    }
    /* printf("%02x",key[i]); */
  }
  /* printf("\n"); */
+ gsl_rng_free(seed_rng);
 
  kp = key;
  tot = 0;
-- 
2.43.0


From c45653d1562947696d770622e816d2a42d980d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:21 +0000
Subject: [PATCH 31/50] fix: uvag read and wrote misaligned words

---
 libdieharder/rng_uvag.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 9348e6a..ab4c3ad 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -106,8 +106,13 @@ uvag_get (void *vstate)
   /*
    * Returns a 32-bit unsigned integer produced by the UVAG
    */
-  rp = (TYPE *)(svec + svec[sindex+=1]);
-  rndint += *rp += rndint;
+  TYPE word;
+  sindex++;
+  /* the word lies at any byte of svec, so it must be copied */
+  memcpy(&word,svec + svec[sindex],WORD);
+  word += rndint;
+  rndint += word;
+  memcpy(svec + svec[sindex],&word,WORD);
   return rndint;
 
 }
-- 
2.43.0


From 7f59f4f18a864da31b99775abda10c825ad444ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 32/50] fix: the /dev/random family returned values beyond its
 declared range and leaked a file on reseed

---
 libdieharder/rng_dev_arandom.c | 8 ++++++--
 libdieharder/rng_dev_random.c  | 8 ++++++--
 libdieharder/rng_dev_urandom.c | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..35ce91c 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: Cannot read /dev/arandom, exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/arandom not open.  Exiting.\n");
@@ -44,6 +47,7 @@ dev_arandom_set (void *vstate, unsigned long int s)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/arandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/arandom, exiting.\n");
    fprintf(stderr,"/dev/arandom may only be available on BSD systems.\n");
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..5f2a282 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: Cannot read /dev/random, exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/random not open.  Exiting.\n");
@@ -44,6 +47,7 @@ dev_random_set (void *vstate, unsigned long int s)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/random","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/random, exiting.\n");
    fprintf(stderr,"/dev/random may only be available on Linux systems.\n");
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..e8c2721 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,10 +21,13 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
-    fread(&j,sizeof(j),1,state->fp);
+    if(fread(&j,sizeof(j),1,state->fp) != 1) {
+      fprintf(stderr,"Error: Cannot read /dev/urandom, exiting.\n");
+      exit(0);
+    }
     return j;
   } else {
     fprintf(stderr,"Error: /dev/urandom not open.  Exiting.\n");
@@ -44,6 +47,7 @@ dev_urandom_set (void *vstate, unsigned long int s)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/urandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/urandom, exiting.\n");
    fprintf(stderr,"/dev/urandom may only be available on Linux systems.\n");
-- 
2.43.0


From 336709cba7bc3e410121a859af8e9732d25f0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:17 +0000
Subject: [PATCH 33/50] fix: every histogram leaked its bins

---
 dieharder/output.c       | 1 +
 libdieharder/histogram.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dieharder/output.c b/dieharder/output.c
index 3496f9c..8e7e46b 100644
--- a/dieharder/output.c
+++ b/dieharder/output.c
@@ -645,6 +645,7 @@ int output_histogram(double *input,char *pvlabel,int inum,double min,double max,
  printf("\n");
  printf("#=============================================================================#\n");
  fflush(stdout);
+ free(bin);
 
  return(0);
 
diff --git a/libdieharder/histogram.c b/libdieharder/histogram.c
index 170abc4..b993d00 100644
--- a/libdieharder/histogram.c
+++ b/libdieharder/histogram.c
@@ -95,6 +95,7 @@ void histogram(double *input,char *pvlabel,int inum,double min,double max,int nb
  for(i=0;i<nbins;i++) printf("%4.1f|",(i+1)*binscale);
  printf("\n");
  printf("#==================================================================\n");
+ free(bin);
 
 }
 
-- 
2.43.0


From 460646c954a75ec04c4e607475c99a6ee08c43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 34/50] fix: rgb_minimum_distance wrote past its points for
 more than five dimensions

---
 libdieharder/rgb_minimum_distance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdieharder/rgb_minimum_distance.c b/libdieharder/rgb_minimum_distance.c
index a747e49..85de432 100644
--- a/libdieharder/rgb_minimum_distance.c
+++ b/libdieharder/rgb_minimum_distance.c
@@ -108,6 +108,10 @@ int rgb_minimum_distance(Test **test, int irun)
   */
  test[0]->ntuple = ntuple;
  rgb_md_dim = test[0]->ntuple;
+ if(rgb_md_dim > RGB_MINIMUM_DISTANCE_MAXDIM){
+   fprintf(stderr,"Error: rgb_minimum_distance is limited to %d dimensions.\n",RGB_MINIMUM_DISTANCE_MAXDIM);
+   exit(0);
+ }
 
  if(verbose == D_RGB_MINIMUM_DISTANCE || verbose == D_ALL){
      printf("Generating a list of %u points in %d dimensions\n",test[0]->tsamples,rgb_md_dim);
-- 
2.43.0


From b754ae23fd2cee90f38d9b835db2f198a18d5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 35/50] fix: diehard_sums wrote past its single sum for -t 1

---
 libdieharder/diehard_sums.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_sums.c b/libdieharder/diehard_sums.c
index 7251c3b..26500ae 100644
--- a/libdieharder/diehard_sums.c
+++ b/libdieharder/diehard_sums.c
@@ -222,12 +222,14 @@ int diehard_sums(Test **test, int irun)
    printf("# We convert it to a normal distribution of width 1.0\n");
  }
  x[0] = y[0]/sqrt(1.0*m);
- x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
+ if(m > 1){
+   x[1] = -x[0]*(m-1)/sqrt(2.0*m - 1.0) + y[1]*sqrt(m/(2.0*m - 1.0));
+   x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
+ }
  x[0] =  gsl_cdf_gaussian_P(x[0],1.0);
- x[1] =  gsl_cdf_gaussian_P(x[1],1.0);
  if(verbose == D_DIEHARD_SUMS || verbose == D_ALL){
    printf("x[0] = %f\n",x[0]);
-   printf("x[1] = %f\n",x[1]);
+   if(m > 1) printf("x[1] = %f\n",x[1]);
  }
 
  for(t=2;t<m;t++){
-- 
2.43.0


From 5e465f6910312a4d50571b7c31bd3c71419e8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 36/50] fix: marsaglia_tsang_gcd kept the table size of the
 first run in the process

---
 libdieharder/marsaglia_tsang_gcd.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libdieharder/marsaglia_tsang_gcd.c b/libdieharder/marsaglia_tsang_gcd.c
index c59f001..abc5461 100644
--- a/libdieharder/marsaglia_tsang_gcd.c
+++ b/libdieharder/marsaglia_tsang_gcd.c
@@ -150,9 +150,9 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  unsigned long long int t,ktbl[KTBLSIZE];
  uint i,j,k,u,v,w;
- static uint *gcd = 0;
+ uint *gcd;
  static double gnorm = 6.0/(PI*PI);
- static uint gtblsize = 0;
+ uint gtblsize;
  Vtest vtest_k,vtest_u;
 
  /*
@@ -180,14 +180,12 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  /*
   * Zero both tables, set gtblsize so that the expectation of gcd[] > 10
-  * (arbitrary cutoff).  We don't free this on exit, but then, we only
-  * allocate it once so it should be OK.
+  * (arbitrary cutoff).  Both depend on tsamples, which may differ from
+  * one run to the next.
   */
- if(gtblsize == 0) {
-   gtblsize = sqrt((double)test[0]->tsamples*gnorm/100.0);
-   /* printf("gtblsize = %u\n",gtblsize); */
- }
- if(gcd == 0) gcd = (uint *)malloc(gtblsize*sizeof(uint));
+ gtblsize = sqrt((double)test[0]->tsamples*gnorm/100.0);
+ /* printf("gtblsize = %u\n",gtblsize); */
+ gcd = (uint *)malloc(gtblsize*sizeof(uint));
  memset(gcd,0,gtblsize*sizeof(uint));
  memset(ktbl,0,KTBLSIZE*sizeof(unsigned long long int));
 
@@ -323,6 +321,7 @@ int marsaglia_tsang_gcd(Test **test, int irun)
 
  Vtest_destroy(&vtest_k);
  Vtest_destroy(&vtest_u);
+ free(gcd);
 
  MYDEBUG(D_MARSAGLIA_TSANG_GCD){
    printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",kspi,ks_pvalue[kspi],kspi,ks_pvalue2[kspi]);
-- 
2.43.0


From 009d249375615bca51973729fc267f059ace4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:23 +0000
Subject: [PATCH 37/50] fix: get_ntuple_cyclic() ended the program on tuples
 whose last piece spans two output words

---
 libdieharder/bits.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 4ae8cf9..fa4f90c 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -818,10 +818,11 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
    /*
     * This rule terminates when Rule Right is getting partial lines.
     * In this case we KNOW that we must terminate with a Rule 2
-    * partial line.
+    * partial line.  If that line reaches into the next output word
+    * (bs < be), Rule Left and Rule 1 split it instead.
     * Rule 2c
     */
-   if(bleft == br2 && br2 < bu) {
+   if(bleft == br2 && br2 < bu && bs >= be) {
      MYDEBUG(D_BITS) {
        printf("Rule 2c: From input[%d] to output[%d] = ",i,j);
      }
-- 
2.43.0


From 7cd3b6e8551537e33fd63dd997740c6b1d32b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:23 +0000
Subject: [PATCH 38/50] fix: get_bit() tested the wrong bits, its mask
 overflowed an int

---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa4f90c..d5aeb6f 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -291,7 +291,7 @@ int get_bit(unsigned int *rand_uint, unsigned int n)
   * the first significant/valid bit in the unsigned int.
   */
  offset = (8*sizeof(unsigned int) - rmax_bits) + n%rmax_bits;
- mask = (int)pow(2,8*sizeof(unsigned int) - 1);
+ mask = 1u << (8*sizeof(unsigned int) - 1);
  mask = mask>>offset;
  if(mask & rand_uint[index]){
    return(1);
-- 
2.43.0


From b3137aa01ee98aa8bd0bd957b565af22fe822201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 39/50] fix: more than 100000 requested p-values were silently
 cut to the TTD cutoff in plain runs

---
 dieharder/dieharder.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dieharder/dieharder.c b/dieharder/dieharder.c
index a7eedee..5c4bfa3 100644
--- a/dieharder/dieharder.c
+++ b/dieharder/dieharder.c
@@ -20,6 +20,8 @@
 int main(int argc, char *argv[]) 
 {
 
+ int i;
+
  /*
   * set_globals picks the default values that control the CLI/UI (not the
   * tests, which have internal defaults).  If you are writing your own UI,
@@ -55,6 +57,19 @@ int main(int argc, char *argv[])
   */
  dieharder_test_types();
 
+ /*
+  * Xoff is the cutoff of the TTD and RA strategies only.  It must not cut
+  * the number of p-values asked for in a plain run.
+  */
+ if(Xtrategy == 0){
+   for(i=0;i<MAXTESTS;i++){
+     if(dh_test_types[i] && dh_test_types[i]->psamples_std*multiply_p > Xoff){
+       Xoff = dh_test_types[i]->psamples_std*multiply_p;
+     }
+   }
+   if(psamples > Xoff) Xoff = psamples;
+ }
+
  /*
   * The following contains commands that are likely to be different for
   * different UIs.  At the very least, they can be done more than once in
-- 
2.43.0


From 54038435d5bd0969aaa092835e1ed0dbfb2bcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:49 +0000
Subject: [PATCH 40/50] fix: dumping random numbers from an input file
 overwrote that file

---
 dieharder/choose_rng.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 1c29b35..03d9dfa 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -123,8 +123,8 @@ static int resolve_XOR_components()
      fprintf(stderr,"Error: generator %d of the XOR supergenerator is not usable.\n",j);
      return(-1);
    }
-   if(strncmp("file_input",dh_rng_types[gnumbs[j]]->name,10) == 0 && fromfile != 1){
-     fprintf(stderr,"Error: generator %s uses file input but no filename has been specified",dh_rng_types[gnumbs[j]]->name);
+   if(strncmp("file_input",dh_rng_types[gnumbs[j]]->name,10) == 0 && (fromfile != 1 || output_file)){
+     fprintf(stderr,"Error: generator %s needs a file to read\n",dh_rng_types[gnumbs[j]]->name);
      return(-1);
    }
  }
@@ -200,6 +200,10 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
      fprintf(stderr,"Error: gennum %s uses file input but no filename has been specified",dh_rng_types[gennum]->name);
      return(-1);
    }
+   if(output_file){
+     fprintf(stderr,"Error: generator %s reads the file that -o would write\n",dh_rng_types[gennum]->name);
+     return(-1);
+   }
  }
 
  if(dh_rng_types[gennum] == gsl_rng_XOR && resolve_XOR_components() < 0){
-- 
2.43.0


From 1ba3e3b30b8787f9bfb949c2758982ab6ed03ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:19 +0000
Subject: [PATCH 41/50] fix: rgb_bitdist aborted for ntuples beyond the range
 of the generator

---
 libdieharder/rgb_bitdist.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdieharder/rgb_bitdist.c b/libdieharder/rgb_bitdist.c
index d3427fe..5ddf28f 100644
--- a/libdieharder/rgb_bitdist.c
+++ b/libdieharder/rgb_bitdist.c
@@ -97,6 +97,15 @@ int rgb_bitdist(Test **test,int irun)
    exit(0);
  }
 
+ /*
+  * One of the 2^nb ntuples is picked with the generator itself below, so
+  * its range must hold that many values.
+  */
+ if(nb > 31 || (1UL<<nb) > gsl_rng_max(rng) - gsl_rng_min(rng)){
+   fprintf(stderr,"Error:  rgb_bitdist cannot pick one of 2^%u ntuples with this generator.\n",nb);
+   exit(0);
+ }
+
  /*
   * The largest integer for this ntuple is 2^nb-1 (they range from 0 to
   * 2^nb - 1).  However, this is used to size count and limit loops, so
-- 
2.43.0


From 6687d2c9d913ed48ee9588b804b99a94bca76a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:19 +0000
Subject: [PATCH 42/50] fix: the fill tree tests read outside their tables for
 very few samples

---
 libdieharder/dab_filltree.c  | 4 ++++
 libdieharder/dab_filltree2.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index 67c8d46..9f6ad7b 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -76,6 +76,10 @@ int dab_filltree(Test **test,int irun) {
    } else if (expected[i] > 4) end = i;
  }
  start++;
+ if (end <= start) {
+   fprintf(stderr,"Error: dab_filltree needs more than %u samples.\n",test[0]->tsamples);
+   exit(0);
+ }
 
 
  for (j = 0; j < test[0]->tsamples; j++) {
diff --git a/libdieharder/dab_filltree2.c b/libdieharder/dab_filltree2.c
index f544ca7..6ac9a6f 100644
--- a/libdieharder/dab_filltree2.c
+++ b/libdieharder/dab_filltree2.c
@@ -133,6 +133,10 @@ int dab_filltree2(Test **test, int irun) {
    } else if (expected[i] > 4) end = i;
  }
  start++;
+ if (end <= start) {
+   fprintf(stderr,"Error: dab_filltree2 needs more than %u samples.\n",test[0]->tsamples);
+   exit(0);
+ }
 
 
  x = gsl_rng_get(rng);
-- 
2.43.0


From 7147b821a5c1d3bca2eed4b5f0a6b8943d3e8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:32 +0000
Subject: [PATCH 43/50] fix: test and generator numbers beyond 32 bits wrapped
 around to other tests and generators

---
 dieharder/parsecl.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 6d94b5b..8caf969 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -38,7 +38,8 @@ void parsecl(int argc, char **argv)
 
  int i,c,errflg=0;
  int itmp;
- int tflag_tmp = 0,dtest_tmp,gen_tmp=17;
+ int tflag_tmp = 0;
+ long dtest_tmp,gen_tmp=17;
  extern char *optarg;
  extern int optind, opterr, optopt;
  char *endptr;
@@ -130,7 +131,7 @@ void parsecl(int argc, char **argv)
          strncpy(dtest_name,optarg,128);
          dtest_name[127] = '\0';
        } else {
-         dtest_num = dtest_tmp;
+         dtest_num = (dtest_tmp >= 0 && dtest_tmp < MAXTESTS) ? dtest_tmp : MAXTESTS;
        }
        break;
      case 'F':
@@ -164,7 +165,7 @@ void parsecl(int argc, char **argv)
        if(strncmp(optarg,endptr,1) == 0){
          strncpy(gnames[gvcount],optarg,127);
        } else {
-         gnumbs[gvcount] = gen_tmp;
+         gnumbs[gvcount] = (gen_tmp >= 0 && gen_tmp < MAXRNGS) ? gen_tmp : MAXRNGS;
        }
        gvcount++;
        break;
-- 
2.43.0


From d5950b7e79ab3724c3e8e73d5eb0a3770e318217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:01 +0000
Subject: [PATCH 44/50] fix: an empty generator name silently selected the
 default generator

---
 dieharder/parsecl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 8caf969..f7774d8 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -162,7 +162,9 @@ void parsecl(int argc, char **argv)
        }
        gen_tmp =  strtol(optarg,&endptr,10);
        /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
-       if(strncmp(optarg,endptr,1) == 0){
+       if(optarg[0] == 0){
+         gnumbs[gvcount] = MAXRNGS;   /* no name at all is not the default generator */
+       } else if(strncmp(optarg,endptr,1) == 0){
          strncpy(gnames[gvcount],optarg,127);
        } else {
          gnumbs[gvcount] = (gen_tmp >= 0 && gen_tmp < MAXRNGS) ? gen_tmp : MAXRNGS;
-- 
2.43.0


From 55af322e17e38ca832155725e8c2a7aabd5faa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:25 +0000
Subject: [PATCH 45/50] fix: rgb_permutations overran its tables for ntuples
 whose factorial overflows

---
 libdieharder/rgb_permutations.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdieharder/rgb_permutations.c b/libdieharder/rgb_permutations.c
index 478bbfb..0c3c0c6 100644
--- a/libdieharder/rgb_permutations.c
+++ b/libdieharder/rgb_permutations.c
@@ -42,6 +42,10 @@ int rgb_permutations(Test **test,int irun)
    test[0]->ntuple = ntuple;
  }
  k = test[0]->ntuple;
+ if(k > 12){
+   fprintf(stderr,"Error: rgb_permutations cannot count the permutations of more than 12 numbers (ntuple %u).\n",k);
+   exit(1);
+ }
  nperms = gsl_sf_fact(k);
 
  /*
-- 
2.43.0


From 016903a48f2bd2f66e9d2c8d464c7bb3434034bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:25 +0000
Subject: [PATCH 46/50] fix: a negative ntuple was taken for a huge one

---
 dieharder/parsecl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f7774d8..3341118 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -194,7 +194,12 @@ void parsecl(int argc, char **argv)
         */
        break;
      case 'n':
-       ntuple = strtol(optarg,(char **) NULL,10);
+       itmp = strtol(optarg,(char **) NULL,10);
+       if(itmp < 0){
+         fprintf(stderr,"Error: ntuple cannot be negative = %d\n",itmp);
+         exit(1);
+       }
+       ntuple = itmp;
        break;
      case 'o':
        output_file = 1;
-- 
2.43.0


From 77382e3fda15d16dd6f43d27a333be1cbc1483ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:27 +0000
Subject: [PATCH 47/50] fix: overlong lines of a formatted input file came back
 as several lines

---
 libdieharder/rng_file_input.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e5c719d..2a85cb6 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -74,6 +74,28 @@ file_input_set_rtot(gsl_rng *rng,uint value)
   state->rtot = 0;
 }
 
+/*
+ * Read one whole line.  A line that does not fit must not come back as
+ * several lines: the rest of an overlong comment is skipped, any other
+ * overlong line ends the program.
+ */
+static char *file_input_line(char *inbuf,FILE *fp)
+{
+
+ int c;
+
+ if(fgets(inbuf,K,fp) == 0) return(0);
+ if(strlen(inbuf) == K-1 && inbuf[K-2] != '\n' && (c = fgetc(fp)) != EOF){
+   if(inbuf[0] != '#'){
+     fprintf(stderr,"# file_input(): Error: line too long in %s\n",filename);
+     exit(0);
+   }
+   while(c != '\n' && c != EOF) c = fgetc(fp);
+ }
+ return(inbuf);
+
+}
+
 static unsigned long int file_input_get (void *vstate)
 {
 
@@ -90,7 +112,7 @@ static unsigned long int file_input_get (void *vstate)
    /*
     * Read in the next random number from the file
     */
-   if(fgets(inbuf,K,state->fp) == 0){
+   if(file_input_line(inbuf,state->fp) == 0){
      fprintf(stderr,"# file_input(): Error: EOF on %s\n",filename);
      exit(0);
    }
@@ -300,7 +322,7 @@ static void file_input_set (void *vstate, unsigned long int s)
  cnt = 0;
  while(cnt < 3){
    if(state->fp != NULL) {
-     if(fgets(inbuf,K,state->fp) == 0){
+     if(file_input_line(inbuf,state->fp) == 0){
        fprintf(stderr,"# file_input(): Error: EOF on %s\n",filename);
        exit(0);
      }
-- 
2.43.0


From cf16945e9a583cafc6f751c30dda72cfa1f9bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:52 +0000
Subject: [PATCH 48/50] fix: negative numbers of p-values crashed for want of
 memory

---
 dieharder/parsecl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 3341118..a72374c 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -188,6 +188,10 @@ void parsecl(int argc, char **argv)
        break;
      case 'm':
        multiply_p = strtod(optarg,(char **) NULL);
+       if(!(multiply_p >= 0.0)){
+         fprintf(stderr,"Error: cannot multiply psamples by %s\n",optarg);
+         exit(1);
+       }
        /*
         * Safety checking on multiply_p is done in std_test, where
         * more information (the number of p-samples) is available.
@@ -215,7 +219,12 @@ void parsecl(int argc, char **argv)
        Xoff = strtol(optarg,(char **) NULL,10);
        break;
      case 'p':
-       psamples = strtol(optarg,(char **) NULL,10);
+       itmp = strtol(optarg,(char **) NULL,10);
+       if(itmp < 0){
+         fprintf(stderr,"Error: psamples cannot be negative = %d\n",itmp);
+         exit(1);
+       }
+       psamples = itmp;
        break;
      case 'S':
        Seed = strtol(optarg,(char **) NULL,10);
-- 
2.43.0


From 47ef534c82cf5c81c4ab9ab58e69e60ac4ae25c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:19 +0000
Subject: [PATCH 49/50] fix: debug output of get_rand_bits() read bytes as
 misaligned words

---
 libdieharder/bits.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index d5aeb6f..fe2e217 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -1043,6 +1043,7 @@ void get_rand_bits(void *result,unsigned int rsize,unsigned int nbits,gsl_rng *g
  int i,offset;
  unsigned int bu;
  char *output,*resultp;
+ unsigned int byte;
 
  /*
   * Zero the return.  Note rsize is in characters/bytes.
@@ -1185,9 +1186,11 @@ void get_rand_bits(void *result,unsigned int rsize,unsigned int nbits,gsl_rng *g
    resultp[i] = output[i];
    MYDEBUG(D_BITS) {
      printf(" Returning: result[%d} = ",i);
-     dumpbits((unsigned int *)&resultp[i],8);
+     byte = (unsigned char) resultp[i];
+     dumpbits(&byte,8);
      printf(" output[%d} = ",i);
-     dumpbits((unsigned int *)&output[i],8);
+     byte = (unsigned char) output[i];
+     dumpbits(&byte,8);
      printf("\n");
    }
  }
-- 
2.43.0


From 0ee42788afcc59bda458d8c8397f0cbc03539d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:19 +0000
Subject: [PATCH 50/50] fix: debug output of marsaglia_tsang_gcd read a vector
 that no longer exists

---
 libdieharder/marsaglia_tsang_gcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/marsaglia_tsang_gcd.c b/libdieharder/marsaglia_tsang_gcd.c
index abc5461..096ecdf 100644
--- a/libdieharder/marsaglia_tsang_gcd.c
+++ b/libdieharder/marsaglia_tsang_gcd.c
@@ -324,7 +324,7 @@ int marsaglia_tsang_gcd(Test **test, int irun)
  free(gcd);
 
  MYDEBUG(D_MARSAGLIA_TSANG_GCD){
-   printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",kspi,ks_pvalue[kspi],kspi,ks_pvalue2[kspi]);
+   printf("# marsaglia_tsang_gcd(): ks_pvalue_k[%u] = %10.5f  ks_pvalue_w[%u] = %10.5f\n",irun,test[0]->pvalues[irun],irun,test[1]->pvalues[irun]);
  }
 
  kspi++;
-- 
2.43.0

