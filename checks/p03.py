import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, statcheck
ck = vlib.Check('P03', rule='scenario = (test, sample size, samples, word range, stream pattern, overlap, KS mode), drawn from VERIF_SEED; '
                'non-trivial = the real test ran to the end, every p-value and word count was compared with the oracle, and at least one oracle p-value lay strictly inside (1e-9,1-1e-9)',
                assumptions=['GSL special functions and sorting are trusted', 'streams outside the domain of a statistic (empty bins only, endless redraw) are counted as outside_domain and not judged'])
statcheck.run_family(ck, [205, 206, 207, 208, 209, 210, 211], {'*': 110, 206: 130, 208: 90, 211: 6}, {'*': 1800, 211: 80})
ck.finish(300, 200)
