// Independent implementations of the published algorithms of the package's
// generators; same script language as genmon.c. Uses only GSL's own
// mt19937_1999 (the seeding generator) and nothing of the repository.
#include <gsl/gsl_rng.h>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cinttypes>
#include <vector>
#include <string>
#include <memory>
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
struct Gen { virtual ~Gen() {} virtual void seed(u64) = 0; virtual u64 get() = 0; virtual double uni() { return get()/4294967295.0; } virtual u64 max() { return 0xffffffffu; } virtual const char *name() = 0; };
static std::vector<u32> mt(u64 s, int n) { gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937_1999); gsl_rng_set(r, (u32)s); std::vector<u32> v; for (int i = 0; i < n; i++) v.push_back(gsl_rng_get(r)); gsl_rng_free(r); return v; }

// ---------------------------------------------------------------- AES-128 (FIPS 197)
static u8 gmul(u8 a, u8 b) { u8 p = 0; while (b) { if (b & 1) p ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); b >>= 1; } return p; }
static u8 sbox[256]; static bool sb;
static void mksbox() { if (sb) return; sb = true; for (int x = 0; x < 256; x++) { u8 inv = 0; for (int y = 1; y < 256; y++) if (gmul(x, y) == 1) inv = y; u8 r = 0; for (int i = 0; i < 8; i++) { int b = (inv >> i ^ inv >> ((i + 4) & 7) ^ inv >> ((i + 5) & 7) ^ inv >> ((i + 6) & 7) ^ inv >> ((i + 7) & 7) ^ 0x63 >> i) & 1; r |= b << i; } sbox[x] = r; } }
static u8 m2[256], m3[256];
struct AES { u8 rk[176];
  void key(const u8 *k) { mksbox(); for (int i = 0; i < 256; i++) { m2[i] = gmul(i, 2); m3[i] = gmul(i, 3); } memcpy(rk, k, 16); u8 rc = 1; for (int i = 16; i < 176; i += 4) { u8 t[4]; memcpy(t, rk + i - 4, 4); if (i % 16 == 0) { u8 z = t[0]; t[0] = sbox[t[1]] ^ rc; t[1] = sbox[t[2]]; t[2] = sbox[t[3]]; t[3] = sbox[z]; rc = gmul(rc, 2); } for (int j = 0; j < 4; j++) rk[i + j] = rk[i - 16 + j] ^ t[j]; } }
  void enc(u8 *s) { for (int i = 0; i < 16; i++) s[i] ^= rk[i];
    for (int r = 1; r <= 10; r++) { u8 t[16]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[4*c + w] = sbox[s[4*((c + w) & 3) + w]];
      if (r < 10) for (int c = 0; c < 4; c++) { u8 *x = t + 4*c, y[4]; for (int w = 0; w < 4; w++) y[w] = m2[x[w]] ^ m3[x[(w + 1) & 3]] ^ x[(w + 2) & 3] ^ x[(w + 3) & 3]; memcpy(x, y, 4); }
      for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[16*r + i]; } } };
struct GAES : Gen { AES a; u8 b[16]; int pos; const char *name() { return "AES_OFB"; }
  void seed(u64 s) { u8 k[16]; for (int i = 0; i < 16; i++) k[i] = (u8)(112 + i + (s >> ((5*i) % 26))); a.key(k); memset(b, 0, 16); a.enc(b); pos = 0; }
  u64 get() { if (pos == 16) { a.enc(b); pos = 0; } u32 v = b[pos] | b[pos+1] << 8 | b[pos+2] << 16 | (u32)b[pos+3] << 24; pos += 4; return v; } };
// ---------------------------------------------------------------- Threefish-512 (Skein 1.3)
// rotation constants of Skein 1.3 (for the self-test) and of Skein 1.1 (the version this package cites)
static const int RC13[8][4] = {{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
static const int RC11[8][4] = {{38,30,50,53},{48,20,43,31},{34,14,15,27},{26,12,58,7},{33,49,8,42},{39,27,41,14},{29,26,11,9},{33,51,39,35}};
static const int PERM[8] = {2,1,4,7,6,5,0,3};
static void tf512(const u64 *k8, const u64 *t2, const u64 *in, u64 *out, u64 parity, const int RC[8][4]) { u64 k[9], t[3], v[8]; k[8] = parity; for (int i = 0; i < 8; i++) { k[i] = k8[i]; k[8] ^= k8[i]; v[i] = in[i]; } t[0] = t2[0]; t[1] = t2[1]; t[2] = t2[0] ^ t2[1];
  for (int d = 0; d < 72; d++) { if (d % 4 == 0) { int s = d/4; for (int i = 0; i < 8; i++) v[i] += k[(s + i) % 9]; v[5] += t[s % 3]; v[6] += t[(s + 1) % 3]; v[7] += s; }
    u64 f[8]; for (int j = 0; j < 4; j++) { u64 x = v[2*j], y = v[2*j+1]; x += y; int r = RC[d % 8][j]; y = (y << r | y >> (64 - r)) ^ x; f[2*j] = x; f[2*j+1] = y; } for (int i = 0; i < 8; i++) v[i] = f[PERM[i]]; }
  { int s = 18; for (int i = 0; i < 8; i++) v[i] += k[(s + i) % 9]; v[5] += t[s % 3]; v[6] += t[(s + 1) % 3]; v[7] += s; }
  memcpy(out, v, 64); }
struct GTF : Gen { u64 key[8], tw[2], b[8]; int pos; static const u64 PAR; const char *name() { return "Threefish_OFB"; }
  void seed(u64 s) { u8 *p = (u8 *)key; for (int i = 0; i < 64; i++) p[i] = 64 + i; p = (u8 *)tw; for (int i = 0; i < 16; i++) p[i] = 112 + i; memset(b, 0, 64); b[0] = s; u64 o[8]; tf512(key, tw, b, o, PAR, RC11); memcpy(b, o, 64); tw[0] = 112; pos = 0; }
  u64 get() { if (pos == 16) { u64 o[8]; tf512(key, tw, b, o, PAR, RC11); memcpy(b, o, 64); pos = 0; } u64 w = b[pos >> 1]; u32 v = pos & 1 ? w >> 32 : (u32)w; pos++; return v; } };
const u64 GTF::PAR = 0x5555555555555555ull;
// ---------------------------------------------------------------- KISS (Jones' JKISS), SuperKISS
struct GK : Gen { u32 x, y, z, c; const char *name() { return "kiss"; } void seed(u64 s) { std::vector<u32> v = mt(s, 64); int i = 0; x = v[i++]; do y = v[i++]; while (!y); z = v[i++]; c = v[i++] % 698769068 + 1; }
  u64 get() { x = 314527869u*x + 1234567u; y ^= y << 5; y ^= y >> 7; y ^= y << 22; u64 t = 4294584393ull*z + c; c = t >> 32; z = (u32)t; return (u32)(x + y + z); } };
struct GSK : Gen { std::vector<u32> q; u32 i, c, cng, xs; const char *name() { return "superkiss"; } void seed(u64 s) { q = mt(s, 41790); i = 41790; c = 362436; cng = 1236789; xs = 521288629; }
  u64 get() { if (i == 41790) { for (u32 j = 0; j < 41790; j++) { u64 t = 7010176ull*q[j] + c; c = t >> 32; q[j] = ~(u32)t; } i = 0; } cng = 69069u*cng + 123u; xs ^= xs << 13; xs ^= xs >> 17; xs ^= xs >> 5; return (u32)(q[i++] + cng + xs); } };
// ---------------------------------------------------------------- cellular automaton, UVAG
static const u8 HALF[256] = {
#include "ca_rule.h"
};
struct GCA : Gen { u8 c[2056]; int d; const char *name() { return "ca"; }
  u8 rule(int i) { return HALF[i & 255]; }
  void seed(u64 s) { for (int i = 0; i < 2056; i++) c[i] = 0; c[2055] = (u8)s; u32 t = (u32)s; if (t != 0xffffffffu) t++; for (int i = 0; i < 2052; i++) c[i] = (u8)(t >> (i % 32)); d = 2055; for (long i = 0; i < 2056L*2056/4; i++) get(); }
  u64 get() { for (int k = 0; k < 4; k++) { int i = d - k; c[i] = rule((i ? c[i-1] : 0) + c[i]); } u32 v = c[d-3] | c[d-2] << 8 | c[d-1] << 16 | (u32)c[d] << 24; d = d == 3 ? 2055 : d - 4; return v; } };
struct GUV : Gen { u8 s[259]; u8 ix; u32 r; const char *name() { return "uvag"; }
  void seed(u64 sd) { std::vector<u32> v = mt(sd, 64); u8 key[256]; for (int i = 0; i < 256; i++) key[i] = v[i/4] >> 8*(i % 4); key[255] = 0; for (int i = 0; i < 259; i++) s[i] = (u8)i; unsigned tot = 0, k = 0;
    for (int i = 0; i < 259; i++) { tot = (tot + key[k++]) % 259; std::swap(s[tot], s[i]); if (!key[k]) k = 0; } ix = 0; r = 0; }
  u64 get() { ix++; u8 *p = s + s[ix]; u32 w = p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; w += r; r += w; for (int i = 0; i < 4; i++) p[i] = w >> 8*i; return r; } };
// ---------------------------------------------------------------- the GNU R family
struct GR : Gen { int k; std::vector<u32> i; static constexpr double i2 = 2.328306437080797e-10; GR(int k) : k(k) {}
  const char *name() { static const char *n[] = {"R_wichmann_hill","R_marsaglia_multic.","R_super_duper","R_mersenne_twister","R_knuth_taocp","R_knuth_taocp2"}; return n[k]; }
  u64 max() { return k >= 4 ? 0x3fffffff : 0xffffffffu; }
  int kp; std::vector<u32> x;      // Knuth
  void ranarray(int n) { std::vector<u32> a(n + 100); for (int j = 0; j < 100; j++) a[j] = x[j]; for (int j = 100; j < n + 100; j++) a[j] = (a[j-100] - a[j-37]) & 0x3fffffff; for (int j = 0; j < 100; j++) x[j] = a[n + j]; }
  void kstart(u32 sd) { const u32 MM = 1u << 30; std::vector<u32> b(200, 0); u32 ss = (sd + 2) & (MM - 2); for (int j = 0; j < 100; j++) { b[j] = ss; ss <<= 1; if (ss >= MM) ss -= MM - 2; } b[1]++;
    ss = sd & (MM - 1); int t = 69; while (t) { for (int j = 99; j > 0; j--) { b[2*j] = b[j]; b[2*j-1] = 0; } for (int j = 198; j >= 100; j--) { b[j-63] = (b[j-63] - b[j]) & (MM - 1); b[j-100] = (b[j-100] - b[j]) & (MM - 1); }
      if (ss & 1) { for (int j = 100; j > 0; j--) b[j] = b[j-1]; b[0] = b[100]; b[37] = (b[37] - b[100]) & (MM - 1); } if (ss) ss >>= 1; else t--; }
    x.assign(100, 0); for (int j = 0; j < 37; j++) x[j+63] = b[j]; for (int j = 37; j < 100; j++) x[j-37] = b[j]; for (int j = 0; j < 10; j++) ranarray(199); kp = 100; }
  void seed(u64 s0) { u32 s = (u32)s0; for (int j = 0; j < 50; j++) s = 69069u*s + 1; if (k >= 4) { kstart(s % 1073741821u); return; }
    int n = k == 0 ? 3 : k == 3 ? 625 : 2; i.assign(n, 0); for (int j = 0; j < n; j++) { s = 69069u*s + 1; i[j] = s; }
    if (k == 0) { i[0] %= 30269; i[1] %= 30307; i[2] %= 30323; for (int j = 0; j < 3; j++) if (!i[j]) i[j] = 1; } else if (k == 1) { for (int j = 0; j < 2; j++) if (!i[j]) i[j] = 1; } else if (k == 2) { if (!i[0]) i[0] = 1; i[1] |= 1; } else i[0] = 624; }
  double fix(double v) { if (v <= 0) return 0.5*i2; if (1.0 - v <= 0) return 1.0 - 0.5*i2; return v; }
  double uni() { switch (k) {
    case 0: { i[0] = i[0]*171 % 30269; i[1] = i[1]*172 % 30307; i[2] = i[2]*170 % 30323; double v = i[0]/30269.0 + i[1]/30307.0 + i[2]/30323.0; return fix(v - (int)v); }
    case 1: i[0] = 36969*(i[0] & 65535) + (i[0] >> 16); i[1] = 18000*(i[1] & 65535) + (i[1] >> 16); return fix((u32)((i[0] << 16) ^ (i[1] & 65535))*i2);
    case 2: i[0] ^= i[0] >> 15 & 0x1ffff; i[0] ^= i[0] << 17; i[1] *= 69069u; return fix((u32)(i[0] ^ i[1])*i2);
    case 3: { u32 *m = &i[1]; if (i[0] >= 624) { for (int j = 0; j < 624; j++) { u32 y = (m[j] & 0x80000000u) | (m[(j+1) % 624] & 0x7fffffffu); m[j] = m[(j+397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } i[0] = 0; }
      u32 y = m[i[0]++]; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; y ^= y >> 18; return fix(y*2.3283064365386963e-10); }
    default: if (kp >= 100) { ranarray(1009); kp = 0; } return fix(x[kp++]*9.31322574615479e-10); } }
  u64 get() { return (u64)(uni()*(double)max()); } };

static Gen *mk(u64 n) { switch (n) { case 203: return new GCA; case 204: return new GUV; case 205: return new GAES; case 206: return new GTF; case 208: return new GK; case 209: return new GSK; } if (n >= 400 && n <= 405) return new GR(n - 400); return 0; }
static u64 h(u64 a, u64 b) { a ^= b; a *= 0x9E3779B97F4A7C15ull; return a ^ (a >> 29); }
static int selftest() {
  AES a; u8 k[16], p[16]; for (int i = 0; i < 16; i++) { k[i] = i; p[i] = 17*i; } a.key(k); a.enc(p);
  static const u8 want[16] = {0x69,0xc4,0xe0,0xd8,0x6a,0x7b,0x04,0x30,0xd8,0xcd,0xb7,0x80,0x70,0xb4,0xc5,0x5a};      // FIPS 197, appendix C.1
  if (memcmp(p, want, 16)) return 1;
  u64 z[8] = {0}, o[8]; tf512(z, z, z, o, 0x1BD11BDAA9FC1A22ull, RC13);           // Skein 1.3 zero vector
  static const u8 w2[16] = {0xb1,0xa2,0xbb,0xc6,0xef,0x60,0x25,0xbc,0x40,0xeb,0x38,0x22,0x16,0x1f,0x36,0xe3};
  if (memcmp(o, w2, 16)) return 2;
  return 0; }
int main(int argc, char **argv) {
  if (int e = selftest()) { printf("selftest %d\n", e); return 9; }
  char c; unsigned long long v; std::unique_ptr<Gen> g; 
  while (scanf(" %c", &c) == 1) {
    if (c == 'f') { g.reset(); continue; }
    if (scanf("%llu", &v) != 1) return 3;
    if (c == 'a') { g.reset(mk(v)); if (!g) { printf("none\n"); return 4; } g->seed(0); printf("%s|0|%" PRIu64 "\n", g->name(), g->max()); }
    else if (c == 's') g->seed(v); else if (c == 'd') { while (v--) g->get(); }
    else if (c == 'g') { while (v--) printf("%" PRIx64 "\n", g->get()); } else if (c == 'u') { while (v--) printf("%.17g\n", g->uni()); }
    else if (c == 'G') { u64 a = 1; while (v--) a = h(a, g->get()); printf("%016" PRIx64 "\n", a); }
    else if (c == 'U') { u64 a = 1; while (v--) { double u = g->uni(); u64 b; memcpy(&b, &u, 8); a = h(a, b); } printf("%016" PRIx64 "\n", a); }
    else return 5;
  }
}
