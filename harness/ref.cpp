/* Reference oracle: recomputes, from the tape alone, the p-values and the
 * word consumption every dieharder test must show.  Written from the test
 * descriptions; shares no code and no state with /repo.  Uses GSL only for
 * special functions and (for tie-breaking) gsl_sort_index. */
#include "ref.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_randist.h>
#include <gsl/gsl_sort.h>

typedef unsigned int u32; typedef unsigned long long u64;
struct Undefined {};                      /* outside the statistic's domain   */
static const u64 DRAW_CAP = 1500000000ULL;

/* ---- special functions ------------------------------------------------ */
static double Qgam(double a, double x) {
  if (!(a > 0) || !(x >= 0)) throw Undefined();
  gsl_sf_result r; int st = gsl_sf_gamma_inc_Q_e(a, x, &r);
  if (st == GSL_EUNDRFLW) return 0.0;
  if (st) throw Undefined();
  return r.val;
}
static double Phi(double x, double s) { return gsl_cdf_gaussian_P(x, s); }
static double zP(double x, double mean, double sd) { /* p of "x observed, mean expected" */
  if (!(sd > 0)) throw Undefined();
  return Phi(mean - x, sd);
}
/* Vector chi-square with tail pooling */
struct Cells { double p; double chisq; };
static Cells chi_cells(const std::vector<double>& x, const std::vector<double>& y,
                       double cutoff, int dof = 0) {
  double chisq = 0, tx = 0, ty = 0; int n = 0; bool tail = false;
  for (size_t i = 0; i < x.size(); i++) {
    if (y[i] >= cutoff) { double d = x[i]-y[i]; chisq += d*d/y[i]; n++; }
    else { tail = true; tx += x[i]; ty += y[i]; }
  }
  if (tail && ty >= cutoff) { double d = tx-ty; chisq += d*d/ty; n++; }
  int nd = dof ? dof : n - 1;
  if (nd < 1) throw Undefined();
  return { Qgam(nd/2.0, chisq/2.0), chisq };
}
static double pearson(const double *o, const double *e, int k) {
  double c = 0; for (int i = 0; i < k; i++) c += (o[i]-e[i])*(o[i]-e[i])/e[i];
  if (k < 2 || std::isnan(c) || std::isinf(c)) throw Undefined();
  return Qgam((k-1)/2.0, c/2.0);
}

/* ---- Kolmogorov-Smirnov ------------------------------------------------ */
typedef long double ld;
static void matmul(const std::vector<ld>&A, const std::vector<ld>&B, std::vector<ld>&C, int m) {
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) C[(size_t)i*m+j] = 0;
  for (int i = 0; i < m; i++) for (int k = 0; k < m; k++) { ld a = A[(size_t)i*m+k]; if (a == 0) continue;
    for (int j = 0; j < m; j++) C[(size_t)i*m+j] += a*B[(size_t)k*m+j]; }
}
static double ks_exact_sf(int n, double d) {   /* P(D_n >= d), Marsaglia-Tsang-Wang */
  int k = (int)((ld)n*d) + 1, m = 2*k-1; ld h = k - (ld)n*d;
  std::vector<ld> H((size_t)m*m), Q((size_t)m*m,0), T((size_t)m*m);
  std::vector<ld> fact(m+2,1); for (int i = 1; i <= m+1; i++) fact[i] = fact[i-1]*i;
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
    ld v = (i-j+1 < 0) ? 0 : 1;
    if (j == 0) v -= powl(h, i+1);
    if (i == m-1) v -= powl(h, m-j);
    if (i == m-1 && j == 0 && 2*h-1 > 0) v += powl(2*h-1, m);
    if (i-j+1 > 0) v /= fact[i-j+1];
    H[(size_t)i*m+j] = v;
  }
  for (int i = 0; i < m; i++) Q[(size_t)i*m+i] = 1;
  long eQ = 0, eH = 0;      /* binary exponents */
  std::vector<ld> P = H; int e = n;
  auto norm = [&](std::vector<ld>&X, long &ex) { ld mx = 0; for (ld v : X) mx = std::max(mx, fabsl(v));
    if (mx > 0) { int q; frexpl(mx, &q); for (ld &v : X) v = ldexpl(v, -q); ex += q; } };
  while (e) { if (e & 1) { matmul(Q, P, T, m); std::swap(Q, T); eQ += eH; norm(Q, eQ); }
    e >>= 1; if (e) { matmul(P, P, T, m); std::swap(P, T); eH *= 2; norm(P, eH); } }
  /* n!/n^n * Q */
  ld lg = lgammal((ld)n+1) - (ld)n*logl((ld)n) + (ld)eQ*logl(2.0L);
  ld c = Q[(size_t)(k-1)*m + k-1];
  ld cdf = c > 0 ? expl(lg + logl(c)) : 0;
  ld sf = 1 - cdf; if (sf < 0) sf = 0; if (sf > 1) sf = 1;
  return (double)sf;
}
static double ks_dmax(double *p, int n) {
  std::sort(p, p+n); double d = 0;
  for (int i = 1; i <= n; i++) d = std::max(d, fabs(p[i-1] - (double)i/(n+1.0)));
  return d;
}
extern "C" double ref_ks(double *p, int n, int mode) {
  if (n < 1) return NAN;
  for (int i = 0; i < n; i++) if (!(p[i] >= 0 && p[i] <= 1)) return NAN;
  if (n == 1) return p[0];
  if (mode >= 3) {
    std::sort(p, p+n); double hi = 0, lo = 0;
    for (int i = 0; i < n; i++) { double v = p[i] - (double)i/n; hi = std::max(hi, v); lo = std::min(lo, v); }
    double V = hi - lo, rn = sqrt((double)n), x = (rn + 0.155 + 0.24/rn)*V;
    if (x < 0.2) return NAN;               /* below the series' usable range   */
    ld q = 0, s = 0;
    for (int j = 1; j < 400; j++) { ld t = (ld)j*j*x*x, ex = expl(-2*t); q += (4*t-1)*ex; s += (ld)j*j*(4*t-3)*ex; }
    double r = (double)(2*q - 8*x/(3*sqrt((double)n))*s);
    return r < 0 ? 0 : r > 1 ? 1 : r;
  }
  double d = ks_dmax(p, n);
  if (mode == 0 && n > 4999) {
    double rn = sqrt((double)n), x = (rn + 0.12 + 0.11/rn)*d; ld q = 0;
    if (x < 0.2) return 1.0;
    for (int j = 1; j < 200; j++) q += ((j & 1) ? 1 : -1)*expl(-2.0L*j*j*x*x);
    double r = (double)(2*q); return r < 0 ? 0 : r > 1 ? 1 : r;
  }
  double s = d*d*n;
  if (mode != 2 && (s > 7.24 || (s > 3.76 && n > 99)))
    return std::min(1.0, 2.0*exp(-(2.000071 + 0.331/sqrt((double)n) + 1.409/n)*s));
  if (n*d > 900) return NAN;                /* matrix too large for the oracle   */
  return ks_exact_sf(n, d);
}

/* ---- generator view ---------------------------------------------------- */
struct Src {
  tape_cfg c; u64 pos = 0; int bits; u32 mask; u32 rng_range;
  explicit Src(const tape_cfg &cfg) : c(cfg) {
    bits = 0; u32 m = c.max; while (m) { bits++; m >>= 1; }
    mask = bits == 32 ? 0xffffffffu : (1u << bits) - 1; rng_range = c.max - c.min;
  }
  u32 get() { if (pos >= DRAW_CAP) throw Undefined(); return tape_word(&c, pos++); }
  double uni() { return get()/((double)c.max + 1.0); }
  double unipos() { double x; u64 lim = pos + 5000000; do { x = uni(); if (pos > lim) throw Undefined(); } while (x == 0); return x; }
  u32 uint(u32 n) { if (n > rng_range || n == 0) throw Undefined(); u32 scale = rng_range/n, k; u64 lim = pos + 5000000;
    do { k = (get() - c.min)/scale; if (pos > lim) throw Undefined(); } while (k >= n); return k; }
  /* MSB-first bit stream over successive words */
  u64 acc = 0; int have = 0;
  u32 msb(int n) { u64 out = 0; int need = n;
    while (need) { if (!have) { acc = get() & mask; have = bits; }
      int t = std::min(need, have); out = (out << t) | ((acc >> (have - t)) & ((1ULL << t) - 1)); have -= t; need -= t; }
    return (u32)out; }
  /* LSB-first bit stream over successive words (separate facility) */
  u64 lacc = 0; int lhave = 0; u64 lpos = 0;  /* own word cursor: reads ahead in the code */
  u32 lsb(int n) { u64 out = 0; int got = 0;
    while (got < n) { if (!lhave) { if (lpos >= DRAW_CAP) throw Undefined(); lacc = tape_word(&c, lpos++) & mask; lhave = bits; }
      int t = std::min(n - got, lhave); out |= (lacc & ((1ULL << t) - 1)) << got; lacc >>= t; lhave -= t; got += t; }
    return (u32)out; }
};

struct ref_run {
  int dnum; Src s; u32 ts, nt; int overlap, ks; std::string dir;
  u32 gcd_tbl = 0; int irun = 0; std::vector<double> pinv; bool bday = false;
  ref_run(int d, const tape_cfg *c, u32 t, u32 n, int o, int k, const char *dd)
    : dnum(d), s(*c), ts(t), nt(n), overlap(o), ks(k), dir(dd ? dd : "") {}
};
static int popc(u32 x) { return __builtin_popcount(x); }

/* number of spacings that occur more than once; skip_adjacent is the variant in which
 * the spacing right after a repeated one is never counted (known finding, test 0) */
static u32 bday_count(std::vector<u32> v, bool skip_adjacent = false) {
  std::sort(v.begin(), v.end()); u32 prev = 0; for (auto &e : v) { u32 t = e; e -= prev; prev = t; }
  std::sort(v.begin(), v.end());
  u32 k = 0; size_t n = v.size(), m = 0;
  while (m + 1 < n) {
    size_t e = m + 1; while (e < n && v[e] == v[m]) e++;
    if (e > m + 1) { k++; m = skip_adjacent ? e + 1 : e; } else m++;
  }
  return k;
}
static double bday_p(const std::vector<u32> &js, double lambda, u32 kmax, u32 ts) {
  double c = 0; for (u32 k = 0; k < kmax; k++) { double e = ts*gsl_ran_poisson_pdf(k, lambda); c += (js[k]-e)*(js[k]-e)/e; }
  if (std::isnan(c) || std::isinf(c)) throw Undefined();
  return Qgam((kmax-1)/2.0, c/2.0);
}
static u32 bday_kmax(u32 ts, double lambda) { u32 k = 1; while (ts*gsl_ran_poisson_pdf(k, lambda) > 5) k++; return k + 1; }
static int gf2rank(std::vector<u32> rows, u32 keep) {
  int r = 0; for (auto &x : rows) x &= keep;
  for (size_t i = 0; i < rows.size(); i++) { u32 p = rows[i]; if (!p) continue; r++; u32 low = p & -p;
    for (size_t j = i+1; j < rows.size(); j++) if (rows[j] & low) rows[j] ^= p; }
  return r;
}
static int kperm_ref(const u32 *v) {
  int w[5]; for (int i = 0; i < 5; i++) w[i] = (int)v[i];
  int idx = 0;
  for (int i = 4; i > 0; i--) { int k = 0; for (int j = 1; j <= i; j++) if (w[j] >= w[k]) k = j;
    idx = (i+1)*idx + k; std::swap(w[i], w[k]); }
  return idx;
}
static double c1s_p(const std::vector<double>&n4, const std::vector<double>&n5, u32 ts) {
  static const double pr[5] = { 37/256.0, 56/256.0, 70/256.0, 56/256.0, 37/256.0 };
  auto ev = [&](const std::vector<double>&x, int len) { std::vector<double> y(x.size());
    for (size_t i = 0; i < x.size(); i++) { double e = ts; size_t q = i; for (int k = 0; k < len; k++) { e *= pr[q%5]; q /= 5; } y[i] = e; }
    return chi_cells(x, y, 5.0).chisq; };
  double d = ev(n5, 5) - ev(n4, 4); return zP(d, 2500.0, sqrt(5000.0));
}
static int letter(u32 b) { int p = popc(b & 255); return p <= 2 ? 0 : p >= 6 ? 4 : p - 2; }
static double mindist(const std::vector<std::vector<double>>&pt, int dim, double init) {
  std::vector<int> ix(pt.size()); for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [&](int a, int b) { return pt[a][0] < pt[b][0]; });
  double md = init;
  for (size_t i = 0; i < ix.size(); i++) for (size_t j = i+1; j < ix.size(); j++) {
    if (pt[ix[j]][0] - pt[ix[i]][0] > md) break;
    double q = 0; for (int d = 0; d < dim; d++) { double e = pt[ix[j]][d] - pt[ix[i]][d]; q += e*e; }
    q = sqrt(q); if (q < md) md = q; }
  return md;
}
static u32 rotl(u32 x, u32 n, int bits, u32 mask) { n %= bits; if (!n) return x & mask; return mask & ((x << n) | (x >> (bits - n))); }

#include "ref_tables.h"

static void run_one(ref_run &R, ref_res &o) {
  Src &s = R.s; u32 ts = R.ts; o.np = 1; o.tsamples = ts; o.slack = 0; o.ntuple[0] = 0;
  int W = s.bits;
  switch (R.dnum) {
  case 0: { int nb = std::min(24, W); double lam = 512.0*512*512/pow(2.0, nb+2.0);
    u32 kmax = bday_kmax(ts, lam); std::vector<u32> js(kmax, 0), ja(kmax, 0);
    for (u32 t = 0; t < ts; t++) { std::vector<u32> v(512); for (auto &e : v) e = s.lsb(nb);
      u32 k = bday_count(v); if (k < kmax) js[k]++; k = bday_count(v, true); if (k < kmax) ja[k]++; }
    o.p[0] = bday_p(js, lam, kmax, ts); o.has_alt = 1; o.alt[0] = bday_p(ja, lam, kmax, ts);
    s.pos = s.lpos; o.slack = 6*((32 + W - 1)/W) + 3; break; }
  case 1: { if (R.pinv.empty()) { R.pinv.resize(14400); FILE *f = fopen((R.dir + "/operm5_pinv.bin").c_str(), "rb");
      if (!f || fread(R.pinv.data(), 8, 14400, f) != 14400) { fprintf(stderr, "oracle data missing\n"); exit(3); } fclose(f); }
    std::vector<double> cnt(120, 0); u32 v[5]; for (auto &e : v) e = s.get();
    for (u32 t = 0; t < ts; t++) {
      if (R.overlap) { cnt[kperm_ref(v)]++; memmove(v, v+1, 4*sizeof(u32)); v[4] = s.get(); }
      else { for (auto &e : v) e = s.get(); cnt[kperm_ref(v)]++; } }
    double av = ts/120.0, c = 0;
    if (R.overlap) { for (int i = 0; i < 120; i++) { double a = 0; for (int j = 0; j < 120; j++) a += R.pinv[i*120+j]*(cnt[j]-av); c += (cnt[i]-av)*a; }
      c = fabs(c/ts); o.p[0] = Qgam(48.0, c/2); }
    else { for (int i = 0; i < 120; i++) c += (cnt[i]-av)*(cnt[i]-av); c /= av; o.p[0] = Qgam(119/2.0, c/2); }
    break; }
  case 2: case 3: { int rows = R.dnum == 2 ? 32 : 6; u32 keep = R.dnum == 2 ? 0xffffffffu : 0xffu;
    std::vector<double> x, y; int lo = R.dnum == 2 ? 29 : 2;
    static const double p32[] = { 0.0052854502, 0.1283502644, 0.5775761902, 0.2887880952 };
    static const double p6[] = { 0.149858E-06, 0.808926E-04, 0.936197E-02, 0.217439, 0.773118 };
    int nc = R.dnum == 2 ? 4 : 5; for (int i = 0; i < nc; i++) { x.push_back(0); y.push_back(ts*(R.dnum == 2 ? p32[i] : p6[i])); }
    for (u32 t = 0; t < ts; t++) { std::vector<u32> r(rows); for (auto &e : r) e = s.msb(32); int k = gf2rank(r, keep); x[std::max(k, lo)-lo]++; }
    o.p[0] = chi_cells(x, y, 5).p; break; }
  case 4: { std::vector<u32> b(262146); for (auto &e : b) e = s.msb(32);
    if ((u64)ts + 19 > 262146ULL*32) throw Undefined();
    std::vector<char> seen(1<<20, 0); 
    /* 20-bit windows sliding one bit at a time; the first window starts at bit 8 of the stream */
    auto bit = [&](u64 i) -> u32 { return (b[i>>5] >> (31 - (i & 31))) & 1; };
    if (ts) { u32 w = 0; for (int i = 0; i < 20; i++) w = (w << 1) | bit(8 + i); seen[w] = 1;
      for (u32 t = 1; t < ts; t++) { w = ((w << 1) | bit(8 + 19 + (u64)t)) & 0xfffff; seen[w] = 1; } }
    double miss = 0; for (char c : seen) if (!c) miss++;
    o.p[0] = zP(miss, 141909, 428.0); break; }
  case 5: { std::vector<char> seen(1<<20, 0); u32 a = 0, b = 0;
    for (u32 t = 0; t < ts; t++) { if (!(t & 1)) { a = s.get(); b = s.get(); seen[((a & 1023) << 10) | (b & 1023)] = 1; }
      else seen[(((a >> 10) & 1023) << 10) | ((b >> 10) & 1023)] = 1; }
    double miss = 0; for (char c : seen) if (!c) miss++; o.p[0] = zP(miss, 141909.3299550069, 290.4622634038); break; }
  case 6: { std::vector<char> seen(1<<20, 0); u32 w[4] = {0,0,0,0};
    for (u32 t = 0; t < ts; t++) { if (t % 6 == 0) for (auto &e : w) e = s.get();
      u32 k = 0; for (auto e : w) k = (k << 5) | ((e >> (5*(t % 6))) & 31); seen[k] = 1; }
    double miss = 0; for (char c : seen) if (!c) miss++; o.p[0] = zP(miss, 141909.6005321316, 294.6558723658); break; }
  case 7: { std::vector<char> seen(1<<20, 0); u32 w[10]; for (int i = 0; i < 11; i++) s.get();
    for (u32 t = 0; t < ts; t++) { if (t % 32 == 0) for (auto &e : w) e = s.get();
      u32 off = (t % 32) % W, k = 0;
      for (auto e : w) { u32 lo = (e >> off) & 1, hi = (e >> ((off + 1) % W)) & 1; k = (k << 2) | (hi << 1) | lo; }
      seen[k] = 1; }
    double miss = 0; for (char c : seen) if (!c) miss++; o.p[0] = zP(miss, 141910.4026047629, 337.2901506904); break; }
  case 8: { std::vector<double> n4(625, 0), n5(3125, 0); u32 w = s.msb(32); u32 idx = 0;
    for (int i = 0; i < 4; i++) idx = idx*5 + letter(w >> (8*i));
    for (u32 t = 0; t < ts; t++) { if (t % 4 == 0) w = s.msb(32); idx = (idx*5 + letter(w >> (8*(t % 4)))) % 3125; n5[idx]++; n4[idx % 625]++; }
    o.p[0] = c1s_p(n4, n5, ts); break; }
  case 9: { std::vector<double> n4(625, 0), n5(3125, 0);
    for (u32 t = 0; t < ts; t++) { u32 idx = 0, sh = t % 32;
      for (int k = 0; k < 5; k++) { u32 w = s.msb(32); u32 r = sh ? (w >> sh) | (w << (32 - sh)) : w; idx = idx*5 + letter(r); }
      n5[idx]++; n4[idx % 625]++; }
    o.p[0] = c1s_p(n4, n5, ts); break; }
  case 10: { o.tsamples = 12000; std::vector<std::pair<double,double>> cars;
    /* buckets of unit cells: a new car crashes iff some parked car is within 1 in both coordinates */
    std::vector<std::vector<int>> cell(102*102);
    for (int n = 0; n < 12000; n++) { double x = 100.0*s.uni(), y = 100.0*s.uni(); int cx = (int)x, cy = (int)y; bool hit = false;
      for (int i = std::max(0, cx-2); i <= std::min(101, cx+2) && !hit; i++) for (int j = std::max(0, cy-2); j <= std::min(101, cy+2) && !hit; j++)
        for (int q : cell[i*102+j]) if (fabs(cars[q].first - x) <= 1.0 && fabs(cars[q].second - y) <= 1.0) { hit = true; break; }
      if (!hit) { cell[cx*102+cy].push_back(cars.size()); cars.push_back({x, y}); } }
    o.p[0] = zP((double)cars.size(), 3523.0, 21.9); break; }
  case 11: { std::vector<std::vector<double>> pt(ts, std::vector<double>(2)); for (auto &p : pt) for (auto &c : p) c = s.unipos()*10000;
    double d = mindist(pt, 2, 10000.0); o.p[0] = 1.0 - exp(-d*d/0.995); o.ntuple[0] = 2; break; }
  case 12: { std::vector<std::vector<double>> pt(4000, std::vector<double>(3)); for (auto &p : pt) for (auto &c : p) c = 1000.0*s.unipos();
    double d = mindist(pt, 3, 2000.0); o.p[0] = 1.0 - exp(-d*d*d/30.0); o.ntuple[0] = 3; break; }
  case 13: { std::vector<double> x(43, 0), y(43); for (int i = 0; i < 43; i++) y[i] = ts*squeeze_tab[i];
    for (u32 t = 0; t < ts; t++) { int k = 2147483647, j = 0; while (k != 1 && j < 48) { k = (int)ceil(k*s.uni()); j++; } x[std::max(j, 6)-6]++; }
    o.p[0] = chi_cells(x, y, 5).p; break; }
  case 14: { int m = ts; if (m < 2) throw Undefined(); std::vector<double> u(2*m-1), S(m), x(m);
    for (auto &e : u) e = s.uni();
    double acc = 0; for (int i = 0; i < m; i++) acc += u[i]; S[0] = acc;
    for (int i = 1; i < m; i++) { acc = acc - u[i-1] + u[m+i-1]; S[i] = acc; }
    for (auto &e : S) e = (e - 0.5*m)*sqrt(12.0);
    x[0] = S[0]/sqrt((double)m); x[1] = -x[0]*(m-1)/sqrt(2.0*m-1) + S[1]*sqrt(m/(2.0*m-1));
    for (int t = 2; t < m; t++) { double a = 2.0*m + 1 - t, b = 2*a - 2; x[t] = S[t-2]/sqrt(a*b) - S[t-1]*sqrt((a-1)/(b+2)) + S[t]*sqrt(a/b); }
    for (auto &e : x) e = Phi(e, 1.0);
    o.p[0] = ref_ks(x.data(), m, R.ks >= 3 ? 1 : R.ks); if (std::isnan(o.p[0])) throw Undefined(); break; }
  case 15: { if (ts < 2) throw Undefined(); std::vector<u32> v(ts); for (auto &e : v) e = s.get();
    double up[6] = {0}, dn[6] = {0}; int u = 1, d = 1;
    for (u32 t = 1; t <= ts; t++) { bool rise = t < ts ? v[t] > v[t-1] : v[ts-1] > v[0];
      if (rise) { u = std::min(u+1, 6); dn[d-1]++; d = 1; } else { d = std::min(d+1, 6); up[u-1]++; u = 1; } }
    auto stat = [&](double *r) { double q = 0; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) q += (r[i]-ts*runs_b[i])*(r[j]-ts*runs_b[j])*runs_a[i][j]; return q/ts; };
    o.np = 2; o.p[0] = Qgam(3.0, stat(up)/2); o.p[1] = Qgam(3.0, stat(dn)/2); o.ntuple[1] = 0; break; }
  case 16: { double wins = 0; std::vector<double> x(21, 0), y(21); auto dice = [&]() { u32 a = 1 + s.uint(6); u32 b = 1 + s.uint(6); return a + b; };
    for (u32 t = 0; t < ts; t++) { u32 p = dice(), n = 0; 
      if (p == 7 || p == 11) wins++; else if (p != 2 && p != 3 && p != 12) for (;;) { n++; u32 q = dice(); if (q == 7) break; if (q == p) { wins++; break; } }
      x[std::min(n, 20u)]++; }
    double sum = 1/3.0; y[0] = sum; for (int i = 1; i < 20; i++) { y[i] = (27*pow(.75, i-1) + 40*pow(13/18.0, i-1) + 55*pow(25/36.0, i-1))/648; sum += y[i]; } y[20] = 1 - sum;
    for (auto &e : y) e *= ts;
    double pr = 244/495.0; o.np = 2; o.p[0] = zP(wins, ts*pr, sqrt(ts*pr*(1-pr))); o.p[1] = chi_cells(x, y, 5).p; o.ntuple[1] = 0; break; }
  case 17: { const double g = 6/(M_PI*M_PI); if (!R.gcd_tbl) R.gcd_tbl = (u32)sqrt(ts*g/100.0); u32 T = R.gcd_tbl; if (T < 4) throw Undefined();
    std::vector<double> kx(41, 0), ky(41), gx(T, 0), gy(T, 0);
    for (u32 t = 0; t < ts; t++) { u32 u, v, k = 0; u64 lim = s.pos + 1000000;
      do { u = s.msb(32); if (s.pos > lim) throw Undefined(); } while (!u);
      do { v = s.msb(32); if (s.pos > lim) throw Undefined(); } while (!v);
      while (v) { u32 w = u % v; u = v; v = w; k++; }
      gx[std::min(u, T-1)]++; kx[std::min(k, 40u)]++; }
    for (int i = 0; i < 41; i++) ky[i] = ts*gcd_k[i];
    for (u32 i = 2; i + 1 < T; i++) gy[i] = ts*g/((double)i*i);
    for (u32 j = T-1; j < 100000; j++) gy[T-1] += ts*g/((double)j*j);
    gx[0] = gx[1] = 0;
    o.np = 2; o.p[0] = chi_cells(kx, ky, 5).p; o.p[1] = chi_cells(gx, gy, 5).p; o.ntuple[1] = 0; break; }
  case 100: { if ((u64)W*ts > 0x7fffffffULL) throw Undefined(); double ones = 0; for (u32 t = 0; t < ts; t++) ones += popc(s.get()); double n = (double)W*ts; o.p[0] = zP(2*ones - n, 0, sqrt(n)); o.ntuple[0] = 1; break; }
  case 101: { if ((u64)W*ts > 0x7fffffffULL) throw Undefined(); std::vector<u32> v(ts); for (auto &e : v) e = s.get();
    u64 n = (u64)W*ts; auto bit = [&](u64 i) { i %= n; return (v[ts - 1 - i/W] >> (i % W)) & 1; };
    double ones = 0, ch = 0; for (u64 i = 0; i < n; i++) { u32 a = bit(i), b = bit(i+1); ones += b; ch += a != b; }
    double p = ones/n; o.p[0] = zP(ch, 2.0*n*p*(1-p), 2.0*sqrt((double)n)*p*(1-p)); o.ntuple[0] = 2; break; }
  case 102: { if (32ULL*ts > 0x7fffffffULL || ts < 1) throw Undefined(); std::vector<u32> v(ts); for (auto &e : v) e = s.msb(32); u64 n = 32ULL*ts;
    auto bit = [&](u64 i) { i %= n; return (v[i >> 5] >> (31 - (i & 31))) & 1; };
    double psi[17] = {0}; double zeros = 0;
    for (int m = 1; m <= 16; m++) { std::vector<double> f(1u << m, 0); u32 w = 0; for (int i = 0; i < m-1; i++) w = (w << 1) | bit(i);
      for (u64 t = 0; t < n; t++) { w = ((w << 1) | bit(t + m - 1)) & ((1u << m) - 1); f[w]++; }
      if (m == 1) zeros = f[0]; double q = 0; for (double e : f) q += e*e; psi[m] = ldexp(q, m)/n - (double)n; }
    int j = 0; o.ntuple[j] = 1; o.p[j++] = Phi(2*zeros - (double)n, sqrt((double)n));
    for (int m = 2; m <= 16; m++) { double d1 = psi[m]-psi[m-1], d2 = psi[m]-2*psi[m-1]+psi[m-2]; o.ntuple[j] = m; o.p[j++] = Qgam(ldexp(1, m-2), d1/2);
      if (m > 2) { if (d2 < 0 && d2 > -1e-6) throw Undefined(); o.ntuple[j] = m; o.p[j++] = Qgam(ldexp(1, m-3), d2/2); } }
    o.np = j; break; }
  case 200: { u32 nb = R.nt; if (nb < 1 || nb > 20) throw Undefined(); u32 V = 1u << nb; std::vector<std::vector<u32>> h(V, std::vector<u32>(65, 0)); std::vector<u32> cnt(V, 0), touched;
    for (u32 t = 0; t < ts; t++) { touched.clear(); for (int b = 0; b < 64; b++) { u32 v = s.msb(nb); if (!cnt[v]++) touched.push_back(v); }
      for (u32 v : touched) { h[v][cnt[v]]++; cnt[v] = 0; } }
    u32 ri = s.uint(V); std::vector<double> x(65), y(65); double nz = 0; for (int b = 1; b <= 64; b++) { x[b] = h[ri][b]; nz += x[b]; } x[0] = ts - nz;
    for (int b = 0; b <= 64; b++) y[b] = ts*gsl_ran_binomial_pdf(b, 1.0/V, 64);
    o.p[0] = chi_cells(x, y, 20).p; o.ntuple[0] = nb; break; }
  case 201: { int d = R.nt; if (d < 2 || d > 5) throw Undefined(); std::vector<std::vector<double>> pt(ts, std::vector<double>(d)); for (auto &p : pt) for (auto &c : p) c = s.unipos();
    double m = mindist(pt, d, 1.0); static const double Q[] = {0,0,.4135,.5312,.6202,1.3789};
    double vol = pow(M_PI, d/2.0)/tgamma(d/2.0+1)*pow(m, d);
    double N = ts; o.p[0] = 1 - exp(-N*(N-1)*vol/2)*(1 + (2+Q[d])/6*N*N*N*vol*vol); o.ntuple[0] = d; break; }
  case 202: { u32 k = R.nt < 2 ? 5 : R.nt; if (k > 8) throw Undefined(); u32 nf = 1; for (u32 i = 2; i <= k; i++) nf *= i;
    std::vector<double> x(nf, 0), y(nf, (double)ts/nf), v(k); std::vector<size_t> ix(k);
    for (u32 t = 0; t < ts; t++) { for (auto &e : v) e = s.get(); gsl_sort_index(ix.data(), v.data(), 1, k);
      u32 idx = 0; for (u32 i = 0; i < k; i++) { u32 c = 0; for (u32 j = i+1; j < k; j++) c += ix[j] < ix[i]; idx = idx*(k-i) + c; } x[idx]++; }
    o.p[0] = chi_cells(x, y, 5).p; o.ntuple[0] = k; break; }
  case 203: { double sum = 0; for (u32 t = 0; t < ts; t++) { for (u32 i = 0; i < R.nt; i++) s.get(); sum += s.uni(); } o.p[0] = zP(sum, 0.5*ts, sqrt(ts/12.0)); o.ntuple[0] = R.nt; break; }
  case 204: { std::vector<double> v(ts); for (auto &e : v) e = s.unipos(); o.p[0] = ref_ks(v.data(), ts, R.ks); if (std::isnan(o.p[0])) throw Undefined(); break; }
  case 205: { if (W < 8) throw Undefined(); std::vector<std::vector<double>> c(9, std::vector<double>(256, 0));
    for (u32 t = 0; t < ts; t++) for (int i = 0; i < 3; i++) { u32 w = s.get(); int sh[3] = {0, (W-8)/2, W-8}; for (int j = 0; j < 3; j++) c[3*i+j][(w >> sh[j]) & 255]++; }
    std::vector<double> x, y; for (auto &r : c) for (double e : r) { x.push_back(e); y.push_back(ts/256.0); }
    o.p[0] = chi_cells(x, y, 5, 255*9).p; break; }
  case 206: { u32 len = R.nt ? R.nt : 256; if ((len & (len-1)) || ts < 12) throw Undefined();
    double half = ldexp(1.0, W-1), mean = len*(half-0.5), sd = sqrt(len/6.0)*half; bool fb = ts <= 5*len; u32 rot = 0;
    std::vector<double> cosv(4*len); for (u32 i = 0; i < 4*len; i++) cosv[i] = cos(M_PI*i/(2.0*len));
    std::vector<double> pos(len, 0), pv, in(len), out(len);
    for (u32 t = 0; t < ts; t++) { if (t && t % (ts/4) == 0) rot += W/4;
      for (auto &e : in) e = rotl(s.get(), rot, W, s.mask);
      for (u32 i = 0; i < len; i++) { ld q = 0; for (u32 j = 0; j < len; j++) q += (ld)in[j]*cosv[((u64)(2*j+1)*i) % (4*len)]; out[i] = q; }
      out[0] = (out[0] - mean)/sqrt(2.0);
      if (fb) for (double e : out) pv.push_back(Phi(-e/sd, 1.0));
      else { u32 b = 0; double mx = 0; bool tie = false; for (u32 i = 0; i < len; i++) { double a = fabs(out[i]); if (a > mx) { if (a < mx*(1+1e-9)) tie = true; else tie = false; mx = a; b = i; } else if (mx > 0 && a > mx*(1-1e-9)) tie = true; }
        if (tie || mx < half*1e-6) throw Undefined(); pos[b]++; } }
    if (fb) { o.p[0] = ref_ks(pv.data(), pv.size(), R.ks >= 3 ? 1 : R.ks); if (std::isnan(o.p[0])) throw Undefined(); }
    else { std::vector<double> e(len, (double)ts/len); o.p[0] = pearson(pos.data(), e.data(), len); }
    o.ntuple[0] = len; break; }
  case 207: { int size = R.nt ? R.nt : 32; if (size != 32 && size != 16 && size != 8) throw Undefined(); if (ts < 4) throw Undefined();
    double ex[20]; int start = 0, end = 0; for (int i = 0; i < 20; i++) { ex[i] = filltree_tab[i]*ts; if (ex[i] < 4) { if (!end) start = i; } else if (ex[i] > 4) end = i; } start++;
    if (end - start < 2) throw Undefined();
    std::vector<double> cnt(2*size+2, 0), posc(size/2, 0); u32 rot = 0; bool dead = false;
    for (u32 t = 0; t < ts && !dead; t++) { std::vector<double> tree(size, 0.0); int n = 0; 
      for (;;) { u32 v = s.get(); double x = (double)rotl(v, rot, W, s.mask)/s.mask; n++; if (n > 2*size) { dead = true; break; }
        int i = size/2 - 1, d = size/4, leaf = -1; 
        for (;;) { if (d == 0) { leaf = i; break; } if (tree[i] == 0) { tree[i] = x; break; } i += tree[i] < x ? d : -d; d /= 2; }
        if (leaf >= 0) { if (n > 20) throw Undefined(); posc[leaf/2]++; cnt[n-1]++; break; } }
      if (!dead && t % (ts/4) == 0) rot++; }
    o.np = 2; o.ntuple[0] = o.ntuple[1] = size;
    if (dead) { o.p[0] = 0; o.p[1] = 0; break; }
    o.p[0] = pearson(&cnt[start], ex + start, end - start); std::vector<double> e(size/2, (double)(ts/(size/2))); o.p[1] = pearson(posc.data(), e.data(), size/2); break; }
  case 208: { int size = R.nt ? R.nt : 128; if (size != 128 && size != 64 && size != 32) throw Undefined();
    double ex[128]; int start = 0, end = 0; for (int i = 0; i < 128; i++) { ex[i] = filltree2_tab[i]*ts; if (ex[i] < 4) { if (!end) start = i; } else if (ex[i] > 4) end = i; } start++;
    if (end - start < 2) throw Undefined();
    std::vector<double> cnt(2*size+2, 0); std::vector<u32> posc(size/2, 0); u32 x = s.get(); int left = W;
    for (u32 t = 0; t < ts; t++) { std::vector<char> tree(size, 0); int n = 0, leaf = -1;
      while (leaf < 0) { int i = size/2 - 1, d = size/4;
        for (;;) { u32 b = x & 1; x >>= 1; if (--left == 0) { x = s.get(); left = W; }
          i += b ? d : -d; d /= 2; if (!tree[i]) { tree[i] = 1; break; } if (d == 0) { leaf = i; break; } }
        n++; }
      posc[leaf/2]++; cnt[n-1]++; }
    o.np = 2; o.ntuple[0] = 0; o.ntuple[1] = 1;
    o.p[0] = pearson(&cnt[start], ex + start, end - start);
    { int k = size/2; double e = (double)ts/k, g = 0; for (u32 v : posc) if (v) g += 2.0*v*log(v/e);
      g /= 1 + (k+1)/(6.0*ts) + (double)(k*k)/(6.0*ts*ts); o.p[1] = Qgam((k-1)/2.0, fabs(g)/2); }
    break; }
  case 209: { u32 nt = R.nt; if (nt >= 16) throw Undefined();
    if (!nt) { u32 j = 0; for (; j < 16; j++) { u32 nm = W*(2u << j), ns = ts/(2u << j); if (ns*gsl_ran_binomial_pdf(nm/2, 0.5, nm) < 20) break; } nt = j; }
    if (!nt || nt >= 16) throw Undefined();
    std::vector<std::vector<double>> h(nt); for (u32 j = 0; j < nt; j++) h[j].assign((size_t)W*(2u << j) + 1, 0); std::vector<u32> run(nt, 0);
    for (u32 i = 0; i < ts; i++) { u32 n = popc(s.get()); for (u32 j = 0; j < nt; j++) { run[j] += n; u32 t = 1u << j; 
        if ((i & t) && !((i-1) & t)) { if (run[j] == 0 || run[j] == (u32)W*(2u << j)) throw Undefined(); h[j][run[j]]++; run[j] = 0; } } }
    std::vector<double> pv; for (u32 j = 0; j < nt; j++) { u32 nm = W*(2u << j), ns = ts/(2u << j); double c = 0; int nd = 0;
      for (u32 n = 0; n <= nm; n++) if (h[j][n] > 10) { double e = ns*gsl_ran_binomial_pdf(n, 0.5, nm); if (e == 0) throw Undefined(); c += (h[j][n]-e)*(h[j][n]-e)/e; nd++; }
      if (nd < 2) throw Undefined(); pv.push_back(Qgam((nd-1)/2.0, c/2)); }
    double ext = 1; int sign = 1; for (double p : pv) { int sg = -1; if (p > 0.5) { p = 1-p; sg = 1; } if (p < ext) { ext = p; sign = sg; } }
    ext = pow(1-ext, pv.size()); o.p[0] = sign == 1 ? 1-ext : ext; o.ntuple[0] = nt; break; }
  case 210: { u32 nms = R.nt ? std::min(R.nt, 4096u) : 1700; double lam = (double)nms*nms*nms/pow(2.0, W+2.0); if (nms < 2 || lam > 600) throw Undefined();
    u32 kmax = bday_kmax(ts, lam); std::vector<u32> js(kmax, 0);
    for (u32 t = 0; t < ts; t++) { std::vector<u32> v(nms); for (auto &e : v) e = s.get(); u32 k = bday_count(v); if (k < kmax) js[k]++; }
    o.p[0] = bday_p(js, lam, kmax, ts); o.ntuple[0] = W; break; }
  case 211: { o.np = 2; o.ntuple[1] = 1; if (W < 24) { o.p[0] = o.p[1] = 0.5; break; }
    o.tsamples = 1u << 26; std::vector<char> a(1<<24, 0), b(1<<24, 0);
    for (u32 t = 0; t < (1u << 25); t++) { u32 j = s.get(), k = s.get(); a[j & 0xffffff] = 1; a[k & 0xffffff] = 1;
      b[((j & 4095) << 12) | (k & 4095)] = 1; b[(((j >> 12) & 4095) << 12) | ((k >> 12) & 4095)] = 1; }
    double m1 = 0, m2 = 0; for (char c : a) m1 += !c; for (char c : b) m2 += !c;
    o.p[0] = zP(m1, 307285.393182468, 528.341514924662); o.p[1] = zP(m2, 307285.393182468, 528.341514924662); break; }
  default: throw Undefined();
  }
}

extern "C" ref_run *ref_new(int d, const tape_cfg *c, uint32_t t, uint32_t n, int o, int k, const char *dir) { return new ref_run(d, c, t, n, o, k, dir); }
extern "C" void ref_free(ref_run *r) { delete r; }
extern "C" void ref_sample(ref_run *r, ref_res *o) {
  memset(o, 0, sizeof *o);
  gsl_error_handler_t *h = gsl_set_error_handler_off();
  try { run_one(*r, *o); for (int i = 0; i < o->np; i++) if (std::isnan(o->p[i])) o->status = 1; }
  catch (Undefined &) { o->status = 1; }
  gsl_set_error_handler(h);
  o->pos = r->s.pos; r->irun++;
}
