/* Allocation and file-handle growth per repetition, real code, no sanitizer.
 *   leakmon test d ts nt k    : warm up with 3 invocations, then k invocations
 *   leakmon seed g k [file]   : warm up with 3 seedings, then k seedings (with a few draws each)
 *   leakmon std d ts nt k     : k complete runs (create, run, report, destroy)
 * prints "bytes fds" grown during the k repetitions. */
#include <dieharder/libdieharder.h>
#include <malloc.h>
#include <dirent.h>
#include <fcntl.h>
#include "tape.h"
void set_globals(); extern unsigned int tflag;
void output(Dtest *, Test **);
static tape_cfg cfg; static uint64_t tpos;
static void tp_set(void *s, unsigned long seed) { (void)s; tpos = 0; }
static unsigned long tp_get(void *s) { (void)s; return tape_word(&cfg, tpos++); }
static double tp_getd(void *s) { return tp_get(s)/((double)cfg.max + 1.0); }
static gsl_rng_type tape_type = { "tape", 0xffffffffu, 0, 8, &tp_set, &tp_get, &tp_getd };
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
/* exact count of the live heap bytes: every allocation of the process goes through these */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static long live;
static void *in(void *p) { if (p) live += malloc_usable_size(p); return p; }
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { if (p) live -= malloc_usable_size(p); void *q = __libc_realloc(p, n); if (q) in(q); else if (p && n) in(p); return q; }
void free(void *p) { if (p) live -= malloc_usable_size(p); __libc_free(p); }
static long used(void) { return live; }
static FILE *js;
static void once(int d, unsigned ts, unsigned nt, unsigned ps) {
  ntuple = nt; tsamples = ts; psamples = ps; Test **t = create_test(dh_test_types[d], ts, ps); std_test(dh_test_types[d], t); output(dh_test_types[d], t); destroy_test(dh_test_types[d], t); }
int main(int c, char **v) {
  js = fdopen(dup(1), "w"); setvbuf(js, 0, _IONBF, 0); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); static char sob[1 << 16]; setvbuf(stdout, sob, _IOFBF, sizeof sob);
  set_globals(); dieharder_rng_types(); dieharder_test_types(); cfg.max = 0xffffffffu; cfg.seed = 5; verbose = 0; overlap = 1; ks_test = 0; all = 0; Xtrategy = 0; Xstep = 100; Xoff = 100000; multiply_p = 1; Seed = seed = 1; tflag = 0x3ffff;
  long m0; int f0; int k;
  if (v[1][0] == 's' && v[1][1] == 'e') { int g = atoi(v[2]); k = atoi(v[3]); if (c > 4) { strncpy(filename, v[4], K-1); fromfile = 1; }
    rng = gsl_rng_alloc(dh_rng_types[g]);
    for (int i = 0; i < 3; i++) { gsl_rng_set(rng, i + 1); for (int j = 0; j < 20; j++) gsl_rng_get(rng); }
    m0 = used(); f0 = fds();
    for (int i = 0; i < k; i++) { gsl_rng_set(rng, i + 7); for (int j = 0; j < 20; j++) gsl_rng_get(rng); }
  } else { int d = atoi(v[2]); unsigned ts = atoi(v[3]), nt = atoi(v[4]); k = atoi(v[5]);
    rng = gsl_rng_alloc(&tape_type); gsl_rng_set(rng, 1); random_max = 0xffffffffu; rmax_bits = 32; rmax_mask = 0xffffffffu;
    once(d, ts, nt, 3); once(d, ts, nt, k);
    m0 = used(); f0 = fds();
    if (v[1][1] == 't') for (int i = 0; i < k; i++) once(d, ts, nt, 1); else once(d, ts, nt, k);
  }
  long m1 = used(); int f1 = fds(); fprintf(js, "%ld %d\n", m1 - m0, f1 - f0); return 0;
}
