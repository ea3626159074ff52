/* Drives a registered generator of the real library through a script on stdin:
 *   a G        allocate generator number G (prints name, min, max)
 *   s S        seed it
 *   g N / u N  draw N integers / uniform deviates (printed)
 *   G N / U N  draw N of them, print only a hash of all
 *   d N        draw and discard N integers
 *   f          free it */
#include <dieharder/libdieharder.h>
#include <inttypes.h>
static uint64_t h(uint64_t a, uint64_t b) { a ^= b; a *= 0x9E3779B97F4A7C15ull; return a ^ (a >> 29); }
int main(void) {
  char c; unsigned long long v; gsl_rng *r = 0; dieharder_rng_types();
  while (scanf(" %c", &c) == 1) {
    if (c == 'f') { if (r) gsl_rng_free(r); r = 0; continue; }
    if (scanf("%llu", &v) != 1) return 3;
    if (c == 'a') { if (r) gsl_rng_free(r); r = 0; if (v >= MAXRNGS || !dh_rng_types[v]) { printf("none\n"); fflush(stdout); return 4; } r = gsl_rng_alloc(dh_rng_types[v]);
      printf("%s|%lu|%lu\n", gsl_rng_name(r), gsl_rng_min(r), gsl_rng_max(r)); }
    else if (c == 's') gsl_rng_set(r, v);
    else if (c == 'd') { while (v--) gsl_rng_get(r); }
    else if (c == 'g') { while (v--) printf("%lx\n", gsl_rng_get(r)); }
    else if (c == 'u') { while (v--) printf("%.17g\n", gsl_rng_uniform(r)); }
    else if (c == 'G') { uint64_t a = 1; while (v--) a = h(a, gsl_rng_get(r)); printf("%016" PRIx64 "\n", a); }
    else if (c == 'U') { uint64_t a = 1; while (v--) { double u = gsl_rng_uniform(r); uint64_t b; memcpy(&b, &u, 8); a = h(a, b); } printf("%016" PRIx64 "\n", a); }
    else return 5;
    fflush(stdout);
  }
  if (r) gsl_rng_free(r);
  return 0;
}
