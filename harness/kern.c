/* Line-driven probe of the statistical kernels: one command per line, one result line
 * per command, numbers at full precision.  The oracle lives in the caller. */
#include <dieharder/libdieharder.h>
double chisq_geometric(unsigned int *, double, int, unsigned int);
double chisq2d(unsigned int *, unsigned int, unsigned int, unsigned int);
double binomial(unsigned int, unsigned int, double);
static double rd(void) { double v; if (scanf("%lf", &v) != 1) { fprintf(stderr, "kern: bad number\n"); exit(3); } return v; }
static unsigned ru(void) { unsigned v; if (scanf("%u", &v) != 1) { fprintf(stderr, "kern: bad number\n"); exit(3); } return v; }
static void same_u(unsigned *a, unsigned *b, int n, const char *k) { if (memcmp(a, b, n*sizeof *a)) { printf("MODIFIED %s\n", k); exit(0); } }
static void same_d(double *a, double *b, int n, const char *k) { if (memcmp(a, b, n*sizeof *a)) { printf("MODIFIED %s\n", k); exit(0); } }
static unsigned *uv(int n) { unsigned *v = malloc(n*sizeof *v); for (int i = 0; i < n; i++) v[i] = ru(); return v; }
static double *dv(int n) { double *v = malloc(n*sizeof *v); for (int i = 0; i < n; i++) v[i] = rd(); return v; }
static void *dup2_(void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }
static double *KV; static int KN;
static int fake(Test **t, int irun) { t[0]->pvalues[irun] = KV[irun]; t[1]->pvalues[irun] = KV[(irun*7919LL + 13) % KN]; return 0; }
static Dtest faket = { "fake", "fake", "", 100, 100, 2, fake, 0 };
int main(void) {
  char op[16]; verbose = 0; psamples = 100; setvbuf(stdout, 0, _IOFBF, 1 << 20);
  while (scanf("%15s", op) == 1) {
    switch (op[0]) {
    case 'V': { Vtest t; unsigned n = ru(); double cut = rd(); unsigned nd = ru(); Vtest_create(&t, n);
      unsigned bad = t.nvec != n || t.ndof != 0; for (unsigned i = 0; i < n; i++) if (t.x[i] != 0 || t.y[i] != 0) bad = 1; if (bad) { printf("MODIFIED Vtest_create\n"); return 0; }
      for (unsigned i = 0; i < n; i++) t.x[i] = rd(); for (unsigned i = 0; i < n; i++) t.y[i] = rd(); t.cutoff = cut; t.ndof = nd;
      Vtest_eval(&t); printf("%.17g %.17g %u\n", t.pvalue, t.chisq, t.ndof); Vtest_destroy(&t); break; }
    case 'X': { Xtest t; memset(&t, 0, sizeof t); t.x = rd(); t.y = rd(); t.sigma = rd(); double a = t.x, b = t.y, c = t.sigma; Xtest_eval(&t); if (t.x != a || t.y != b || t.sigma != c) { printf("MODIFIED Xtest\n"); return 0; } printf("%.17g\n", t.pvalue); break; }
    case 'P': case 'O': { double l = rd(); int k = ru(); unsigned ns = ru(); unsigned *o = uv(k), *c = dup2_(o, k*sizeof *o); double p = op[0] == 'P' ? chisq_poisson(o, l, k, ns) : chisq_geometric(o, l, k, ns); same_u(o, c, k, op); printf("%.17g\n", p); free(o); free(c); break; }
    case 'E': { int k = ru(); double *o = dv(k), *e = dv(k), *c = dup2_(o, k*sizeof *o), *d = dup2_(e, k*sizeof *e); double p = chisq_pearson(o, e, k); same_d(o, c, k, "pearson"); same_d(e, d, k, "pearson"); printf("%.17g\n", p); free(o); free(e); free(c); free(d); break; }
    case 'B': { double pr = rd(); unsigned k = ru(), ns = ru(); double *o = dv(k+1), *c = dup2_(o, (k+1)*sizeof *o); double p = chisq_binomial(o, pr, k, ns); same_d(o, c, k+1, "binomial"); printf("%.17g\n", p); free(o); free(c); break; }
    case 'G': { long ni = (long)rd(); int k = ru(); unsigned *o = uv(k), *c = dup2_(o, k*sizeof *o); double p = chisq_uint_uniform_gtest(o, ni, k); same_u(o, c, k, "gtest"); printf("%.17g\n", p); free(o); free(c); break; }
    case 'D': { unsigned r = ru(), cc = ru(), N = ru(); unsigned *o = uv(r*cc), *c = dup2_(o, r*cc*sizeof *o); double p = chisq2d(o, r, cc, N); same_u(o, c, r*cc, "chisq2d"); printf("%.17g\n", p); free(o); free(c); break; }
    case 'b': { unsigned n = ru(), k = ru(); double p = rd(); printf("%.17g\n", binomial(n, k, p)); break; }
    case 'R': { int m = ru(), n = ru(); int w = (n + 31)/32; unsigned **mt = malloc(m*sizeof *mt); unsigned **orig = malloc(m*sizeof *orig);
      for (int i = 0; i < m; i++) { mt[i] = uv(w); orig[i] = mt[i]; } int r = binary_rank(mt, m, n); 
      /* rows may be permuted, but every row pointer must survive exactly once */
      for (int i = 0; i < m; i++) { int f = 0; for (int j = 0; j < m; j++) f += mt[j] == orig[i]; if (f != 1) { printf("MODIFIED rank-rows\n"); return 0; } }
      printf("%d\n", r); for (int i = 0; i < m; i++) free(orig[i]); free(mt); free(orig); break; }
    case 'H': { int nb = ru(); psamples = ru(); int n = ru(); double *v = dv(n), *c = dup2_(v, n*sizeof *v); histogram(v, "", n, 0.0, 1.0, nb, "x"); same_d(v, c, n, "histogram"); printf("END\n"); free(v); free(c); break; }
    case 'K': { /* final p-value of a complete run: mode, n, values; the second statistic sees the same values in another order */
      ks_test = ru(); int n = ru(); KV = dv(n); KN = n; all = 0; Xtrategy = 0; Xstep = 100; Xoff = 100000; multiply_p = 1;
      Test **t = create_test(&faket, 100, n); std_test(&faket, t); 
      double *c = dup2_(KV, n*sizeof(double)); double direct = ks_test >= 3 ? kstest_kuiper(c, n) : kstest(c, n);
      /* the collected values must still be there, in whatever order */
      gsl_sort(t[0]->pvalues, 1, n); gsl_sort(KV, 1, n); int lost = memcmp(t[0]->pvalues, KV, n*sizeof(double)) != 0;
      printf("%.17g %.17g %.17g %u %d\n", t[0]->ks_pvalue, t[1]->ks_pvalue, direct, t[0]->psamples, lost); destroy_test(&faket, t); free(KV); free(c); break; }
    case 'M': { /* sample moments helper: minimum of a vector etc. is not part of the library */ break; }
    default: fprintf(stderr, "kern: bad command %s\n", op); return 3;
    }
  }
  return 0;
}
