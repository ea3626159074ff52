/* The real program (its own main, renamed at compile time) with an event
 * recorder: the registries are intercepted after they were filled, so that
 *  - every invocation of a test is logged (test number, index, sizes, tuple,
 *    p-values, numbers drawn so far from the tape generator);
 *  - fake tests 900.. whose p-values are scripted in VP_PFILE can be selected;
 *  - a recording generator (number 600, name "tape") and its seedings are logged.
 * Nothing else of the program is replaced.
 *   VP_LOG    event log (JSON lines)
 *   VP_PFILE  doubles for the fake tests
 *   VP_TAPE   "min max seed pat p1 p2"
 *   VP_FAST   1: do not run the real tests, deliver hash-based p-values
 *             instead (used where only the bookkeeping is under observation)
 *   VP_WORDS  every number drawn by a fake or replaced test is appended here
 *             (32-bit words; VP_UNI=1: drawn as uniform deviates and scaled back) */
#include <dieharder/libdieharder.h>
#include <unistd.h>
#include "tape.h"
int dieharder_main(int, char **);
void __real_dieharder_test_types(void);
void __real_dieharder_rng_types(void);
static FILE *lg; static FILE *pf; static tape_cfg cfg; static uint64_t tpos, tseeds; static int fast;
static unsigned long curseed;
static void openlog(void) { if (!lg) { const char *p = getenv("VP_LOG"); lg = fopen(p ? p : "/dev/null", "a"); fast = getenv("VP_FAST") != 0; } }

static void tp_set(void *s, unsigned long seed) { (void)s; openlog(); fprintf(lg, "{\"ev\":\"seed\",\"s\":%lu,\"pos\":%llu}\n", seed, (unsigned long long)tpos); fflush(lg);
  tpos = 0; tseeds++; curseed = seed; }
static unsigned long tp_get(void *s) { (void)s; tape_cfg c = cfg; c.seed ^= (uint64_t)curseed << 20; return tape_word(&c, tpos++); }
static double tp_getd(void *s) { return tp_get(s)/((double)cfg.max + 1.0); }
static gsl_rng_type tape_type = { "tape", 0xffffffffu, 0, 8, &tp_set, &tp_get, &tp_getd };

static FILE *wf; static int uni;
static void drawn(unsigned n) {
  if (!wf && getenv("VP_WORDS")) { wf = fopen(getenv("VP_WORDS"), "ab"); uni = getenv("VP_UNI") != 0; }
  for (unsigned i = 0; i < n; i++) { uint32_t w;
    if (uni && (i & 1)) { double u = gsl_rng_uniform(rng); w = (u >= 0 && u <= 1) ? (uint32_t)(u*4294967295.0 + 0.5) : 0xdeadbeefu; if ((double)w/4294967295.0 != u) w ^= 0x5a5a5a5a; }
    else w = gsl_rng_get(rng);
    if (wf) fwrite(&w, 4, 1, wf); }
  if (wf) fflush(wf);
}
#define NSLOT 64
static int slotd[NSLOT]; static int (*orig[NSLOT])(); static int nslot;
static void logev(int d, Test **t, int irun, uint64_t b) {
  Dtest *D = dh_test_types[d]; openlog();
  fprintf(lg, "{\"ev\":\"test\",\"d\":%d,\"irun\":%d,\"ts\":%u,\"ps\":%u,\"before\":%llu,\"after\":%llu,\"gnt\":%u,\"nt\":[", d, irun, t[0]->tsamples, t[0]->psamples, (unsigned long long)b, (unsigned long long)tpos, ntuple);
  for (unsigned j = 0; j < D->nkps; j++) fprintf(lg, "%s%u", j ? "," : "", t[j]->ntuple);
  fprintf(lg, "],\"p\":[");
  for (unsigned j = 0; j < D->nkps; j++) { double p = t[j]->pvalues[irun]; if (isnan(p)) fprintf(lg, "%s\"nan\"", j ? "," : ""); else fprintf(lg, "%s%.17g", j ? "," : "", p); }
  fprintf(lg, "]}\n"); fflush(lg);
}
static int tramp(int k, Test **t, int irun) { uint64_t b = tpos; int d = slotd[k], r = 0;
  if (fast) { if (getenv("VP_WORDS")) drawn(t[0]->tsamples); for (unsigned j = 0; j < dh_test_types[d]->nkps; j++) { t[j]->ntuple = ntuple; t[j]->pvalues[irun] = (tape_mix(d*1000003ULL + irun*131 + j*17 + ntuple*7919 + curseed) >> 11) * 0x1p-53; } }
  else r = ((int(*)(Test **, int))orig[k])(t, irun);
  logev(d, t, irun, b); return r; }
#define S(n) static int sl##n(Test **t, int i) { return tramp(n, t, i); }
S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11) S(12) S(13) S(14) S(15) S(16) S(17) S(18) S(19) S(20) S(21) S(22) S(23) S(24) S(25) S(26) S(27) S(28) S(29) S(30) S(31) S(32) S(33) S(34) S(35) S(36) S(37) S(38) S(39) S(40) S(41) S(42) S(43) S(44) S(45) S(46) S(47) S(48) S(49) S(50) S(51) S(52) S(53) S(54) S(55) S(56) S(57) S(58) S(59) S(60) S(61) S(62) S(63)
static int (*slots[])(Test **, int) = { sl0, sl1, sl2, sl3, sl4, sl5, sl6, sl7, sl8, sl9, sl10, sl11, sl12, sl13, sl14, sl15, sl16, sl17, sl18, sl19, sl20, sl21, sl22, sl23, sl24, sl25, sl26, sl27, sl28, sl29, sl30, sl31, sl32, sl33, sl34, sl35, sl36, sl37, sl38, sl39, sl40, sl41, sl42, sl43, sl44, sl45, sl46, sl47, sl48, sl49, sl50, sl51, sl52, sl53, sl54, sl55, sl56, sl57, sl58, sl59, sl60, sl61, sl62, sl63 };
static int fake(int d, Test **t, int irun) { uint64_t b = tpos; unsigned n = t[0]->tsamples; if (n > 1000 && !getenv("VP_WORDS")) n = 1000;
  drawn(n);
  if (!pf) pf = fopen(getenv("VP_PFILE") ? getenv("VP_PFILE") : "/dev/null", "r");
  for (unsigned j = 0; j < dh_test_types[d]->nkps; j++) { double v; if (!pf || fscanf(pf, "%lf", &v) != 1) { openlog(); fprintf(lg, "{\"ev\":\"script_end\"}\n"); fflush(lg); _exit(77); }
    t[j]->ntuple = ntuple + j; t[j]->pvalues[irun] = v; }
  logev(d, t, irun, b); return 0; }
static int f900(Test **t, int i) { return fake(900, t, i); }
static int f901(Test **t, int i) { return fake(901, t, i); }
static int f902(Test **t, int i) { return fake(902, t, i); }
static Dtest D900 = { "Fake one", "fake_one", "\n#FAKE ONE DESCRIPTION\n#second line\n#\n", 100, 7, 1, f900, 0 };
static Dtest D901 = { "Fake three", "fake_three_with_a_name_beyond_twenty", "#FAKE THREE DESCRIPTION\n", 40, 0, 3, f901, 0 };
static Dtest D902 = { "Fake two", "fake_two", "#FAKE TWO DESCRIPTION\n", 3, 123456, 2, f902, 0 };

void __wrap_dieharder_test_types(void) { __real_dieharder_test_types(); openlog();
  for (int i = 0; i < 900 && i < MAXTESTS; i++) if (dh_test_types[i] && nslot < NSLOT) {
      slotd[nslot] = i; orig[nslot] = dh_test_types[i]->test; nslot++; }
  for (int k = 0; k < nslot; k++) dh_test_types[slotd[k]]->test = (int (*)())slots[k];
  /* VP_DEF "d:ts:ps,...": smaller defaults; VP_ONLY "d,d,...": only these tests stay registered */
  if (getenv("VP_DEF")) { char *q = getenv("VP_DEF"); int d, n; unsigned a, b; while (sscanf(q, "%d:%u:%u%n", &d, &a, &b, &n) == 3) { if (dh_test_types[d]) { dh_test_types[d]->tsamples_std = a; dh_test_types[d]->psamples_std = b; } q += n; if (*q == ',') q++; } }
  if (getenv("VP_ONLY")) { static char keep[MAXTESTS]; char *q = getenv("VP_ONLY"); while (*q) { int d = strtol(q, &q, 10); if (d >= 0 && d < MAXTESTS) keep[d] = 1; if (*q == ',') q++; else break; }
    for (int i = 0; i < 900; i++) if (!keep[i]) dh_test_types[i] = 0; }
  dh_test_types[900] = &D900; dh_test_types[901] = &D901; dh_test_types[902] = &D902; }
void __wrap_dieharder_rng_types(void) { __real_dieharder_rng_types(); openlog();
  unsigned long long a = 0, b = 0xffffffffu, c = 1, d = 0, e = 0, f = 0; if (getenv("VP_TAPE")) sscanf(getenv("VP_TAPE"), "%llu %llu %llu %llu %llu %llu", &a, &b, &c, &d, &e, &f);
  cfg.min = a; cfg.max = b; cfg.seed = c; cfg.pat = d; cfg.p1 = e; cfg.p2 = f; tape_type.min = a; tape_type.max = b;
  dh_rng_types[600] = &tape_type; }
int main(int argc, char **argv) { return dieharder_main(argc, argv); }
