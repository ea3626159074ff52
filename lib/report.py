"""Parsing and modelling of the program's report."""
import re
FL = dict(header=1, show_rng=2, line_header=4, test_name=8, ntuple=16, tsamples=32, psamples=64, pvalues=128, assessment=256,
          prefix=512, description=1024, histogram=2048, seed=4096, rate=8192, show_num=16384, no_whitespace=32768,
          psample_values=65536, file_rng_stat=131072)
DEFAULT = sum(FL[k] for k in 'header show_rng line_header test_name ntuple tsamples psamples pvalues assessment seed rate'.split())
ROWFLAGS = FL['test_name'] | FL['show_num'] | FL['ntuple'] | FL['tsamples'] | FL['psamples'] | FL['pvalues'] | FL['assessment'] | FL['no_whitespace']


def rows(out, sep='|', seedcol=False):
    """rows of an output made with ROWFLAGS (+seed)"""
    rs = []
    for l in out.splitlines():
        if l.startswith('#') or l.startswith('Preparing to run'):
            continue
        f = l.split(sep)
        if len(f) != 7 + (1 if seedcol else 0):
            return None, l
        try:
            rs.append(dict(name=f[0], num=int(f[1]), nt=int(f[2]), ts=int(f[3]), ps=int(f[4]), p=float(f[5]), a=f[6], seed=int(f[7]) if seedcol else None))
        except ValueError:
            return None, l
    return rs, None


def assess(p, weak, fail):
    if p < fail or p > 1 - fail:
        return 'FAILED'
    if p < weak or p > 1 - weak:
        return 'WEAK'
    return 'PASSED'
