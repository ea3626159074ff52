/* Deterministic, seekable word streams ("tapes") shared by the monitored
 * generator and by the oracle.  tape_word(cfg,i) is a pure function of the
 * configuration and of the index, so the oracle can replay the stream without
 * sharing any state with the code under test. */
#ifndef TAPE_H
#define TAPE_H
#include <stdint.h>
typedef struct {
  uint64_t seed;
  uint32_t min, max;  /* declared range of the generator                   */
  int pat;            /* pattern, see below                                 */
  uint64_t p1, p2;    /* pattern parameters                                 */
} tape_cfg;
enum { TP_GOOD=0, TP_CONST, TP_COUNTER, TP_ALT, TP_ALPHABET, TP_AND, TP_OR,
       TP_EXTREME, TP_SAW, TP_LOW, TP_HIGH, TP_REPEAT, TP_PERIOD, TP_COMPL,
       TP_NEAR, TP_NPAT };

static inline uint64_t tape_mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
/* uniform on [0,range] */
static inline uint32_t tape_u(const tape_cfg *c, uint64_t salt, uint64_t i, uint32_t range) {
  uint64_t r = tape_mix(tape_mix(c->seed*0x2545F4914F6CDD1DULL + salt) ^ (i*0xD6E8FEB86659FD93ULL));
  return (uint32_t)(((r >> 32) * ((uint64_t)range + 1)) >> 32);
}
static inline uint32_t tape_word(const tape_cfg *c, uint64_t i) {
  uint32_t R = c->max - c->min, v = 0;
  uint64_t R1 = (uint64_t)R + 1;
  switch (c->pat) {
    case TP_CONST:    v = (uint32_t)(c->p1 % R1); break;
    case TP_COUNTER:  v = (uint32_t)((c->p1 + i*c->p2) % R1); break;
    case TP_ALT:      v = (i & 1) ? (uint32_t)(c->p1 % R1) : (uint32_t)(c->p2 % R1); break;
    case TP_ALPHABET: v = tape_u(c, 77, tape_u(c, 1, i, (uint32_t)(c->p1 ? c->p1-1 : 0)), R); break;
    case TP_AND:      v = tape_u(c, 1, i, R) & tape_u(c, 2, i, R); break;
    case TP_OR:       v = tape_u(c, 1, i, R) | tape_u(c, 2, i, R); if (v > R) v = R; break;
    case TP_EXTREME:  { uint32_t s = tape_u(c, 3, i, (uint32_t)(c->p1 ? c->p1 : 15));
                        v = s == 0 ? 0 : s == 1 ? R : tape_u(c, 1, i, R); break; }
    case TP_SAW:      { uint64_t p = c->p1 ? c->p1 : 7; v = (uint32_t)((i % p) * (uint64_t)R / p); break; }
    case TP_LOW:      v = tape_u(c, 1, i, R) & (uint32_t)((1ULL << (c->p1 & 31)) - 1); break;
    case TP_HIGH:     v = tape_u(c, 1, i, R) & ~(uint32_t)((1ULL << (c->p1 & 31)) - 1); break;
    case TP_REPEAT:   v = tape_u(c, 1, i / (c->p1 ? c->p1 : 2), R); break;
    case TP_PERIOD:   v = tape_u(c, 1, i % (c->p1 ? c->p1 : 2), R); break;
    case TP_COMPL:    v = tape_u(c, 1, i >> 1, R); if (i & 1) v = R - v; break;
    case TP_NEAR:     /* good, except that a word repeats its predecessor now and then */
                      v = tape_u(c, 1, (i && tape_u(c, 4, i, (uint32_t)(c->p1 ? c->p1 : 99)) == 0) ? i-1 : i, R); break;
    default:          v = tape_u(c, 1, i, R);
  }
  return c->min + v;
}
#endif
