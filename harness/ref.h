#ifndef REF_H
#define REF_H
#include "tape.h"
#ifdef __cplusplus
extern "C" {
#endif
/* Oracle result for one sample of one test. */
#define REF_MAXP 32
typedef struct {
  int    status;       /* 0 ok, 1 outside the domain / not terminating      */
  int    np;           /* number of p-values                                */
  double p[REF_MAXP];
  int    has_alt;      /* a recorded known deviation has a second prediction  */
  double alt[REF_MAXP];
  uint64_t pos;        /* words consumed after this sample (cumulative)      */
  uint64_t slack;      /* permitted read-ahead in words (0: exact)           */
  uint32_t tsamples;   /* sample size the report must state                  */
  uint32_t ntuple[REF_MAXP];
} ref_res;
typedef struct ref_run ref_run;
ref_run *ref_new(int dnum, const tape_cfg *cfg, uint32_t tsamples, uint32_t ntuple,
                 int overlap, int ks_test, const char *datadir);
void ref_sample(ref_run *r, ref_res *out);
void ref_free(ref_run *r);
double ref_ks(double *p, int n, int mode);   /* oracle for the final p-value; NaN = outside the domain */
#ifdef __cplusplus
}
#endif
#endif
