import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, statcheck
ck = vlib.Check('P01', rule='scenario = (test, sample size, samples, word range, stream pattern, overlap, KS mode), drawn from VERIF_SEED; '
                'non-trivial = the real test ran to the end, every p-value and word count was compared with the oracle, and at least one oracle p-value lay strictly inside (1e-9,1-1e-9)',
                assumptions=['GSL special functions and sorting are trusted', 'streams outside the domain of a statistic (empty bins only, endless redraw) are counted as outside_domain and not judged'])
statcheck.run_family(ck, list(range(18)), {'*': 70, 0: 120, 1: 90, 7: 40, 17: 60, 4: 60, 14: 80}, {'*': 1500, 7: 500, 17: 700, 14: 600})
ck.finish(500, 300)
