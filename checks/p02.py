import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, statcheck
ck = vlib.Check('P02', rule='scenario = (test, sample size, samples, word range, stream pattern, overlap, KS mode), drawn from VERIF_SEED; '
                'non-trivial = the real test ran to the end, every p-value and word count was compared with the oracle, and at least one oracle p-value lay strictly inside (1e-9,1-1e-9)',
                assumptions=['GSL special functions and sorting are trusted', 'streams outside the domain of a statistic (empty bins only, endless redraw) are counted as outside_domain and not judged'])
statcheck.run_family(ck, [100, 101, 102, 200, 201, 202, 203, 204], {'*': 110, 200: 130, 202: 90, 203: 140, 204: 120}, {'*': 2000, 204: 1000, 202: 1200})
ck.finish(400, 250)
