/* Monitored execution of one real dieharder test on a tape.
 *   mon d=NUM ts=.. ps=.. nt=.. ov=0/1 ks=.. min= max= seed= pat= p1= p2= [oracle=0] [rounds=N xs=STEP]
 *       [pre="d:ts:ps:nt;..."] data=DIR
 * The test's entry in the real registry is wrapped so that each invocation is an
 * event: (index, tape position before/after, p-values right after the call).  The
 * oracle's predictions are computed first, from an independent copy of the tape.
 * Output: one JSON object on the original stdout. */
#include <dieharder/libdieharder.h>
#include <fcntl.h>
#include <ctype.h>
#include <signal.h>
#include "ref.h"
void set_globals();
extern unsigned int tflag;

static tape_cfg cfg; static uint64_t tpos;
static void tp_set(void *s, unsigned long seed) { (void)s; (void)seed; tpos = 0; }
static uint64_t cap = 0; static FILE *js;
static unsigned long tp_get(void *s) { (void)s;
  if (cap && tpos > cap) { fprintf(js, "\"ok\":0,\"kind\":\"consumption\",\"detail\":\"runaway: more than %llu words drawn\",\"ncmp\":0,\"informative\":0,\"events\":0,\"words\":%llu,\"ks\":[],\"p\":[]}\n", (unsigned long long)cap, (unsigned long long)tpos); fflush(js); _exit(0); }
  return tape_word(&cfg, tpos++); }
static double tp_get_double(void *s) { return tp_get(s)/((double)cfg.max + 1.0); }
static gsl_rng_type tape_type = { "tape", 0, 0, 8, &tp_set, &tp_get, &tp_get_double };

#define MAXEV 20000
typedef struct { int irun; uint64_t before, after; double p[REF_MAXP]; } event;
static event *ev; static int nev;
static int (*orig)(); static unsigned cur_nkps;
static int wrapped(Test **t, int irun) {
  uint64_t b = tpos; int r = ((int(*)(Test **, int))orig)(t, irun);
  if (nev < MAXEV) { ev[nev].irun = irun; ev[nev].before = b; ev[nev].after = tpos;
    for (unsigned j = 0; j < cur_nkps && j < REF_MAXP; j++) ev[nev].p[j] = t[j]->pvalues[irun]; nev++; }
  return r;
}
static double tolrel = 1e-6, tolabs = 1e-12;
static int close_to(double a, double b) {
  if (isnan(a) || isnan(b)) return 0;
  double m = fmax(fabs(a), fabs(b));
  if (fabs(a-b) <= tolrel*m + tolabs) return 1;
  return 0;
}
static void numj(double v) { if (isnan(v)) fprintf(js, "\"nan\""); else if (isinf(v)) fprintf(js, "\"inf\""); else fprintf(js, "%.17g", v); }

int main(int argc, char **argv) {
  unsigned long long d = 0, ts = 0, ps = 1, nt = 0, ov = 1, ks = 0, useref = 1, rounds = 1, xs = 100, strat = 0, xoff = 100000; const char *pre = "", *data = ".";
  double mp = 1;
  memset(&cfg, 0, sizeof cfg); cfg.max = 0xffffffffu;
  for (int i = 1; i < argc; i++) { char *e = strchr(argv[i], '='); if (!e) continue; *e = 0; char *k = argv[i], *v = e+1; unsigned long long n = strtoull(v, 0, 0);
    if (!strcmp(k,"d")) d = n; else if (!strcmp(k,"ts")) ts = n; else if (!strcmp(k,"ps")) ps = n; else if (!strcmp(k,"nt")) nt = n;
    else if (!strcmp(k,"ov")) ov = n; else if (!strcmp(k,"ks")) ks = n; else if (!strcmp(k,"min")) cfg.min = n; else if (!strcmp(k,"max")) cfg.max = n;
    else if (!strcmp(k,"seed")) cfg.seed = n; else if (!strcmp(k,"pat")) cfg.pat = n; else if (!strcmp(k,"p1")) cfg.p1 = n; else if (!strcmp(k,"p2")) cfg.p2 = n;
    else if (!strcmp(k,"oracle")) useref = n; else if (!strcmp(k,"rounds")) rounds = n; else if (!strcmp(k,"xs")) xs = n; else if (!strcmp(k,"strat")) strat = n; else if (!strcmp(k,"xoff")) xoff = n;
    else if (!strcmp(k,"pre")) pre = v; else if (!strcmp(k,"data")) data = v; else if (!strcmp(k,"tolrel")) tolrel = atof(v); else if (!strcmp(k,"tolabs")) tolabs = atof(v); else if (!strcmp(k,"mp")) mp = atof(v); else if (!strcmp(k,"cap")) cap = n;
    else { fprintf(stderr, "mon: bad key %s\n", k); return 3; } }
  int fd = dup(1); js = fdopen(fd, "w"); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  set_globals(); dieharder_rng_types(); dieharder_test_types();
  if (d >= MAXTESTS || !dh_test_types[d]) { fprintf(js, "{\"error\":\"no such test\"}\n"); fclose(js); return 3; }
  Dtest dt = *dh_test_types[d]; orig = dt.test; dt.test = wrapped; cur_nkps = dt.nkps;
  uint32_t ets = ts ? ts : dt.tsamples_std;
  /* --- oracle ---------------------------------------------------------- */
  uint64_t total = ps ? ps : (uint64_t)(dt.psamples_std*mp); if (!ps && total < 1) total = 1;
  uint64_t target = total + (rounds-1)*xs; if (strat && target > xoff) target = xoff;
  ref_res *rr = calloc(target ? target : 1, sizeof *rr); int undef = 0;
  if (useref && !*pre) { ref_run *R = ref_new(d, &cfg, ets, nt, ov, ks, data);
    for (uint64_t i = 0; i < target && !undef; i++) { ref_sample(R, &rr[i]); if (rr[i].status) undef = 1; } ref_free(R);
    if (undef) { fprintf(js, "{\"skip\":1}\n"); fclose(js); return 0; } }
  /* --- real code -------------------------------------------------------- */
  ev = calloc(MAXEV, sizeof *ev);
  tape_type.min = cfg.min; tape_type.max = cfg.max;
  rng = gsl_rng_alloc(&tape_type); gsl_rng_set(rng, 1); tpos = 0;
  random_max = gsl_rng_max(rng); rmax = random_max; rmax_bits = 0; rmax_mask = 0;
  while (rmax) { rmax >>= 1; rmax_mask = (rmax_mask << 1) + 1; rmax_bits++; }
  Seed = seed = 1; all = 0; ks_test = ks; overlap = ov; Xtrategy = strat; Xstep = xs; Xoff = xoff; multiply_p = mp; verbose = 0;
  for (const char *q = pre; *q; ) { unsigned pd = 0, pt = 0, pp = 1, pn = 0; int used = 0;
    if (sscanf(q, "%u:%u:%u:%u%n", &pd, &pt, &pp, &pn, &used) < 4) break; q += used; if (*q == ';') q++;
    ntuple = pn; tsamples = pt; psamples = pp; Test **t = create_test(dh_test_types[pd], tsamples, psamples); std_test(dh_test_types[pd], t); destroy_test(dh_test_types[pd], t); }
  if (*pre) { gsl_rng_set(rng, 1); tpos = 0; }
  ntuple = nt; tsamples = ts; psamples = ps;
  Test **t = create_test(&dt, tsamples, psamples);
  if (useref && !*pre && target) cap = rr[target-1].pos + rr[target-1].slack + 2000000;
  fprintf(stderr, "ORACLE-DONE\n"); fflush(stderr);
  const char *bad = 0; char det[512] = ""; int informative = 0, ncmp = 0, nalt = 0; uint64_t have = 0;
  fprintf(js, "{\"d\":%llu,", d);
  double lastks[REF_MAXP] = {0};
  for (uint64_t r = 0; r < rounds && !bad; r++) {
    int first = nev; std_test(&dt, t);
    uint64_t want = r == 0 ? total : have + xs; if (strat && want > xoff) want = xoff;
    if ((uint64_t)t[0]->psamples != want || (uint64_t)(nev - first) != want - have) { bad = "sample-count"; snprintf(det, sizeof det, "round %llu: psamples %u, invocations %d, expected total %llu new %llu", (unsigned long long)r, t[0]->psamples, nev-first, (unsigned long long)want, (unsigned long long)(want-have)); break; }
    for (int e = first; e < nev; e++) if (ev[e].irun != e || (e && ev[e].before != ev[e-1].after) || (!e && ev[e].before != 0)) { bad = "stream-continuity"; snprintf(det, sizeof det, "event %d irun %d before %llu", e, ev[e].irun, (unsigned long long)ev[e].before); }
    have = want;
    if (bad) break;
    if (useref && !*pre) {
      for (int e = first; e < nev && !bad; e++) { ref_res *o = &rr[e];
        if (o->np != (int)dt.nkps) { bad = "statistic-count"; snprintf(det, sizeof det, "nkps %u expected %d", dt.nkps, o->np); break; }
        for (int j = 0; j < o->np; j++) { ncmp++; if (o->p[j] > 1e-9 && o->p[j] < 1-1e-9) informative++;
          if (!close_to(ev[e].p[j], o->p[j])) { if (o->has_alt && close_to(ev[e].p[j], o->alt[j])) { nalt++; continue; } bad = "p-value"; snprintf(det, sizeof det, "sample %d statistic %d: got %.17g, oracle %.17g", e, j, ev[e].p[j], o->p[j]); break; } }
        if (bad) break;
        uint64_t lo = o->pos, hi = o->pos + o->slack;
        if (ev[e].after < lo || ev[e].after > hi) { bad = "consumption"; snprintf(det, sizeof det, "after sample %d: %llu words drawn, oracle %llu..%llu", e, (unsigned long long)ev[e].after, (unsigned long long)lo, (unsigned long long)hi); }
      }
      for (int j = 0; j < (int)dt.nkps && !bad && nev; j++) { ref_res *o = &rr[nev-1];
        if (t[j]->ntuple != o->ntuple[j]) { bad = "ntuple"; snprintf(det, sizeof det, "statistic %d: ntuple %u expected %u", j, t[j]->ntuple, o->ntuple[j]); }
        if (t[0]->tsamples != o->tsamples) { bad = "tsamples"; snprintf(det, sizeof det, "tsamples %u expected %u", t[0]->tsamples, o->tsamples); } }
    }
    /* final p-value: KS oracle over the p-values as observed at each event */
    for (unsigned j = 0; j < dt.nkps && !bad; j++) { double *pv = malloc(nev*sizeof(double)); for (int e = 0; e < nev; e++) pv[e] = ev[e].p[j];
      int out01 = 0; for (int e = 0; e < nev; e++) if (!(pv[e] >= 0 && pv[e] <= 1)) out01 = 1;
      double k = nev <= MAXEV-1 ? ref_ks(pv, nev, ks) : NAN; free(pv);
      if (out01 && useref == 1) { bad = "p-value-range"; snprintf(det, sizeof det, "statistic %u has a sample p-value outside [0,1]", j); break; }
      lastks[j] = t[j]->ks_pvalue;
      if (!isnan(k)) { ncmp++; if (k > 1e-9 && k < 1-1e-9) informative++; double sv = tolabs; tolabs = 1e-9; int ok = close_to(t[j]->ks_pvalue, k); tolabs = sv;
        if (!ok) { bad = "ks-pvalue"; snprintf(det, sizeof det, "round %llu statistic %u: final %.17g, oracle %.17g", (unsigned long long)r, j, t[j]->ks_pvalue, k); } } }
  }
  fprintf(js, "\"alt\":%d,\"ok\":%d,\"kind\":\"%s\",\"detail\":\"%s\",\"ncmp\":%d,\"informative\":%d,\"events\":%d,\"words\":%llu,\"ks\":[", nalt, bad == 0, bad ? bad : "", det, ncmp, informative, nev, (unsigned long long)tpos);
  for (unsigned j = 0; j < dt.nkps; j++) { if (j) fputc(',', js); numj(lastks[j]); }
  fprintf(js, "],\"p\":[");
  for (int e = 0; e < nev && e < 64; e++) { fprintf(js, "%s[", e ? "," : ""); for (unsigned j = 0; j < dt.nkps && j < REF_MAXP; j++) { if (j) fputc(',', js); numj(ev[e].p[j]); } fputc(']', js); }
  fprintf(js, "]}\n"); fclose(js);
  destroy_test(&dt, t); gsl_rng_free(rng); rng = 0; free(ev); free(rr);
  return 0;
}
