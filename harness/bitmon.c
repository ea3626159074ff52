/* Monitored histories of the bit-drawing facilities.
 *   bitmon seed=N hist=N [mode=...]
 * A scripted generator hands out tape words of a chosen width; every value the library
 * returns is an event that is compared with a bit queue built from the words the
 * generator handed out (online checker).  First violation is printed and ends the run. */
#include <dieharder/libdieharder.h>
#include "../libdieharder/static_get_bits.c"
#include "tape.h"
#include <stdarg.h>

static tape_cfg cfg; static uint64_t tpos, base;
static void tp_set(void *s, unsigned long seed) { (void)s; (void)seed; tpos = 0; }
static unsigned long tp_get(void *s) { (void)s; return tape_word(&cfg, tpos++); }
static double tp_get_double(void *s) { return tp_get(s)/((double)cfg.max + 1.0); }
static gsl_rng_type tape_type = { "tape", 0, 0, 8, &tp_set, &tp_get, &tp_get_double };
static uint64_t rs; static uint32_t rnd(uint32_t n) { rs = tape_mix(rs); return n ? (uint32_t)((rs >> 20) % n) : 0; }
static int W;
static unsigned long long nev, nhist, nresets, nreq[4]; static unsigned long long lens[129]; static unsigned long long widths[33];
static void viol(const char *kind, const char *fmt, ...) { va_list a; va_start(a, fmt); char b[900]; vsnprintf(b, sizeof b, fmt, a); va_end(a);
  printf("{\"ok\":0,\"kind\":\"%s\",\"detail\":\"%s\",\"events\":%llu}\n", kind, b, nev); fflush(stdout); _exit(0); }
/* bit number k of the stream, least significant bit of each word first */
static unsigned lsb(uint64_t k) { return (tape_word(&cfg, base + k/W) >> (k%W)) & 1; }
/* most significant valid bit of each word first */
static unsigned msb(uint64_t k) { return (tape_word(&cfg, base + k/W) >> (W - 1 - k%W)) & 1; }

static void setup(int w) {
  W = w; memset(&cfg, 0, sizeof cfg); cfg.max = w == 32 ? 0xffffffffu : (1u << w) - 1; cfg.seed = ((uint64_t)rnd(0x7fffffff) << 20) ^ rnd(1 << 20);
  int k = rnd(10); cfg.pat = k < 6 ? TP_GOOD : k == 6 ? TP_EXTREME : k == 7 ? TP_CONST : k == 8 ? TP_ALT : TP_COUNTER;
  cfg.p1 = rnd(4) ? rnd(0x7fffffff)*2u + rnd(2) : (rnd(2) ? 0xffffffffu : 3); cfg.p2 = 1 + rnd(1 << 30);
  if (cfg.pat == TP_EXTREME) cfg.p1 = 3 + rnd(6);
  tape_type.max = cfg.max; random_max = cfg.max; rmax_bits = w; rmax_mask = cfg.max; tpos = 0; widths[w]++;
}
/* requested lengths of a history: fixed, mixed, biased */
static int shape, fixedlen; static int pick(int max) { switch (shape) { case 0: return fixedlen > max ? max : fixedlen; case 1: return 1 + rnd(max);
    case 2: return rnd(3) ? 1 + rnd(4) : 1 + rnd(max); case 3: return rnd(2) ? max : 1 + rnd(max); case 4: return rnd(2) ? (W > max ? max : W) : 1 + rnd(max); default: return rnd(2) ? 32 > max ? max : 32 : 1 + rnd(max); } }

static void hist_uint(gsl_rng *g, int n) {
  uint64_t k = 0;
  for (int i = 0; i < n; i++) {
    if (!rnd(40)) { reset_bit_buffers(); base = tpos; k = 0; nresets++; }
    uint32_t got = get_uint_rand(g), want = 0; for (int b = 0; b < 32; b++) want |= lsb(k+b) << b;
    if (got != want) viol("get_uint_rand", "width %d, word %d of history (bit %llu): got %08x, stream has %08x", W, i, (unsigned long long)k, got, want);
    k += 32; nev++; nreq[0]++;
    uint64_t used = tpos - base, need = (k + W - 1)/W; if (used < need || used > need + 1) viol("get_uint_rand", "width %d: %llu words drawn for %llu bits", W, (unsigned long long)used, (unsigned long long)k);
  }
}
static void hist_bits(gsl_rng *g, int n) {
  uint64_t k = 0;
  for (int i = 0; i < n; i++) {
    if (!rnd(60)) { reset_bit_buffers(); base = tpos; k = 0; nresets++; }
    int nw = rnd(4) ? 1 : 1 + rnd(4); int nb = pick(32*nw); unsigned out[6], guard = 0xdeadbeef; memset(out, 0x5a, sizeof out); out[nw] = guard;
    unsigned rsize = nw*4; if (nw == 1 && !rnd(8) ) { if (nb <= 8) rsize = 1; else if (nb <= 16) rsize = 2; }
    get_rand_bits(out, rsize, nb, g); nev++; nreq[1]++; lens[nb]++;
    if (out[nw] != guard) viol("get_rand_bits", "wrote past the %d-byte result", rsize);
    unsigned want[6] = {0}; for (int b = 0; b < nb; b++) want[nw - 1 - b/32] |= lsb(k+b) << (b%32);
    if (rsize < 4) { unsigned char *pc = (unsigned char *)out; unsigned v = 0;
      /* the tail bytes of the last output word, as laid out in memory on this machine */
      unsigned ww = want[0]; unsigned char *wc = (unsigned char *)&ww; (void)v; (void)wc; (void)pc; }
    else for (int q = 0; q < nw; q++) if (out[q] != want[q]) viol("get_rand_bits", "width %d, request %d of %d bits at bit %llu: word %d got %08x, stream has %08x", W, i, nb, (unsigned long long)k, q, out[q], want[q]);
    k += nb;
    uint64_t used = tpos - base, need = (k + W - 1)/W, slack = 6*((32 + W - 1)/W) + 3; if (used < need || used > need + slack) viol("get_rand_bits", "width %d: %llu words drawn for %llu bits", W, (unsigned long long)used, (unsigned long long)k);
  }
}
static void hist_fast(gsl_rng *g, int n) {
  uint64_t k = 0;
  for (int i = 0; i < n; i++) {
    if (!rnd(60)) { reset_bit_buffers(); base = tpos; k = 0; nresets++; }
    int nb = pick(32); unsigned mask = nb == 32 ? 0xffffffffu : (1u << nb) - 1; if (!rnd(5)) mask = 0;
    unsigned got = get_rand_bits_uint(nb, mask, g), want = 0; for (int b = 0; b < nb; b++) want = (want << 1) | msb(k+b);
    nev++; nreq[2]++; lens[nb]++;
    if (got != want) viol("get_rand_bits_uint", "width %d, request %d of %d bits at bit %llu: got %08x, stream has %08x", W, i, nb, (unsigned long long)k, got, want);
    k += nb;
    uint64_t used = tpos - base, need = (k + W - 1)/W; if (used != need) viol("get_rand_bits_uint", "width %d: %llu words drawn for %llu bits", W, (unsigned long long)used, (unsigned long long)k);
  }
}
static uint32_t word(void) { int k = rnd(8); return k == 0 ? 0 : k == 1 ? 0xffffffffu : k == 2 ? 1u << rnd(32) : k == 3 ? ~(1u << rnd(32)) : rnd(0x7fffffff)*2u + rnd(2); }
/* pure functions of words */
static void pure(int n) {
  for (int i = 0; i < n; i++) { nev++; nreq[3]++;
    uint32_t x = word(); unsigned s = rnd(32), e = s + rnd(32 - s), o = rnd(32);
    unsigned m = 0; for (unsigned b = s; b <= e; b++) m |= 1u << (31 - b);
    if (b_umask(s, e) != m) viol("b_umask", "(%u,%u): got %08x, definition %08x", s, e, b_umask(s, e), m);
    unsigned w = 0; for (unsigned b = s; b <= e; b++) { int d = (int)(b - s) + (int)o; if (d < 32 && (x >> (31 - b) & 1)) w |= 1u << (31 - d); }
    if (b_window(x, s, e, o) != w) viol("b_window", "(%08x,%u,%u,%u): got %08x, definition %08x", x, s, e, o, b_window(x, s, e, o), w);
    unsigned r = rnd(32); unsigned rr = r ? (x >> r) | (x << (32 - r)) : x;
    if (b_rotate_right(x, r) != rr) viol("b_rotate_right", "(%08x,%u): got %08x, definition %08x", x, r, b_rotate_right(x, r), rr);
    if (get_int_bit(x, r) != (int)((x >> r) & 1)) viol("get_int_bit", "(%08x,%u)", x, r);
    /* whole-word and valid-bits tuples */
    unsigned nb = 1 + rnd(32), mk = nb == 32 ? 0xffffffffu : (1u << nb) - 1, t = 0; for (unsigned b = 0; b < nb; b++) t |= ((x >> ((o + b)%32)) & 1) << b;
    unsigned g = get_bit_ntuple_from_whole_uint(x, nb, mk, o); if (g != t) viol("get_bit_ntuple_from_whole_uint", "(%08x,%u,off %u): got %08x, addressed bits %08x", x, nb, o, g, t);
    unsigned ww = 1 + rnd(32); rmax_bits = ww; uint32_t xv = ww == 32 ? x : x & ((1u << ww) - 1); unsigned off = rnd(3) ? rnd(ww) : rnd(200);
    t = 0; for (unsigned b = 0; b < nb; b++) t |= ((xv >> ((off + b)%ww)) & 1) << b;
    g = get_bit_ntuple_from_uint(xv, nb, mk, off); if (g != t) viol("get_bit_ntuple_from_uint", "width %u (%08x,%u,off %u): got %08x, addressed bits %08x", ww, xv, nb, off, g, t);
    /* tuples from arrays of valid words, cyclic, last element holds the lowest bits */
    { unsigned len = 1 + rnd(5); uint32_t *a = malloc(len*4); for (unsigned q = 0; q < len; q++) { a[q] = word(); if (ww < 32) a[q] &= (1u << ww) - 1; } unsigned bo = rnd(len*ww), bl = 1 + rnd(32);
      unsigned v = 0; for (unsigned b = 0; b < bl; b++) { unsigned p = (bo + b)%(len*ww); v |= ((a[len - 1 - p/ww] >> (p%ww)) & 1) << b; }
      g = get_bit_ntuple(a, len, bl, bo); if (g != v) viol("get_bit_ntuple", "width %u, %u words, %u bits at %u: got %08x, addressed bits %08x", ww, len, bl, bo, g, v);
      unsigned nbit = rnd(len*ww); unsigned gb = get_bit(a, nbit), wb = (a[nbit/ww] >> (ww - 1 - nbit%ww)) & 1; if (gb != wb) viol("get_bit", "width %u bit %u", ww, nbit);
      free(a); }
    { unsigned len = 1 + rnd(8), jl = 1 + rnd(6); uint32_t *a = malloc(len*4), *d = malloc(jl*4), *q = calloc(jl, 4); for (unsigned k = 0; k < len; k++) a[k] = word(); memset(d, 0xa5, jl*4);
      unsigned mx = 32*jl < 32*len ? 32*jl : 32*len, tn = 1 + rnd(mx), of = rnd(32*len);
      for (unsigned b = 0; b < tn; b++) { unsigned p = (of + tn - 1 - b)%(32*len); if ((a[p/32] >> (31 - p%32)) & 1) q[jl - 1 - b/32] |= 1u << (b%32); }
      get_ntuple_cyclic(a, len, d, jl, tn, of);
      for (unsigned k = 0; k < jl; k++) if (d[k] != q[k]) viol("get_ntuple_cyclic", "%u words, %u bits at %u into %u words: word %u got %08x, addressed bits %08x", len, tn, of, jl, k, d[k], q[k]);
      free(a); free(d); free(q); }
    { char bs[40]; unsigned bl = 1 + rnd(32), v = 0; for (unsigned k = 0; k < bl; k++) { bs[k] = '0' + rnd(2); v = v*2 + (bs[k] - '0'); } bs[bl] = 0;
      if (bit2uint(bs, bl) != v) viol("bit2uint", "%s -> %08x, denotes %08x", bs, bit2uint(bs, bl), v); }
    { unsigned nbt = 1 + rnd(32); uint32_t y = word(), y0 = y; unsigned mk2 = nbt == 32 ? 0xffffffffu : (1u << nbt) - 1; unsigned z = ((y & mk2) >> 1) | ((y & 1) << (nbt - 1)); cycle(&y, nbt); if (y != z) viol("cycle", "(%08x,%u): got %08x, rotation %08x", y0, nbt, y, z); }
  }
}
int main(int argc, char **argv) {
  unsigned long long hist = 100; int first = -1;
  for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "seed=", 5)) rs = strtoull(argv[i]+5, 0, 0)*0x9e3779b97f4a7c15ULL + 11; else if (!strncmp(argv[i], "hist=", 5)) hist = strtoull(argv[i]+5, 0, 0); }
  verbose = 0; tape_type.min = 0; tape_type.max = 0xffffffffu; gsl_rng *g = gsl_rng_alloc(&tape_type); rng = g; gsl_rng_set(g, 1);
  (void)first;
  for (unsigned long long h = 0; h < hist; h++) { nhist++;
    int w = rnd(3) ? 1 + rnd(32) : (int[]){32, 31, 24, 16, 30, 1, 8}[rnd(7)]; setup(w);
    if (h) reset_bit_buffers();     /* the first history starts from the program's initial state */
    base = tpos; shape = rnd(6); fixedlen = 1 + rnd(32); if (!rnd(4)) fixedlen = w;
    int n = 20 + rnd(400);
    switch (rnd(8)) { case 0: case 1: hist_uint(g, n); break; case 2: case 3: hist_bits(g, n); break; case 4: case 5: case 6: hist_fast(g, n); break; default: pure(200); }
  }
  unsigned long long dl = 0, dw = 0; for (int i = 0; i < 129; i++) dl += lens[i] > 0; for (int i = 0; i < 33; i++) dw += widths[i] > 0;
  printf("{\"ok\":1,\"events\":%llu,\"histories\":%llu,\"resets\":%llu,\"uint\":%llu,\"bits\":%llu,\"fast\":%llu,\"pure\":%llu,\"lengths\":%llu,\"widths\":%llu}\n", nev, nhist, nresets, nreq[0], nreq[1], nreq[2], nreq[3], dl, dw);
  gsl_rng_free(g); return 0;
}
