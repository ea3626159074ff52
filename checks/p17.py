"""P17: kernels against their definitions (scipy / exact arithmetic)."""
import os, sys, json, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, kerngen
from kerngen import gen, hist_ok
ck = vlib.Check('P17', rule='one evaluation = one kernel call on one generated input, compared with the definition evaluated by scipy / exact integer arithmetic; non-trivial = the '
                'expected result is not exactly 0 or 1 (or, for ranks and histograms, any result)',
                assumptions=['scipy.special.gammaincc, scipy.stats pmfs and ndtr are trusted as independent references'])
R = kerngen.R = ck.rng
kern = {f: vlib.build(f).harness('kern', ['kern.c']) for f in ('plain', 'asan')}


N = 400 if not vlib.THOROUGH else 4000
B = 40 if not vlib.THOROUGH else 150
batches = []
for b in range(B):
    cs = []
    while len(cs) < N // 2:
        g = gen()
        if g:
            cs.append(g)
    batches.append(cs)


def work(a):
    i, cs = a
    fl = 'asan' if i % 4 == 0 else 'plain'
    return fl, vlib.run([kern[fl]], stdin=('\n'.join(c[1] for c in cs) + '\n').encode(), timeout=200)


per = {}
for (fl, r), cs in zip(vlib.pmap(work, enumerate(batches)), batches):
    if r.timeout or r.rc != 0:
        ck.violation('kernel crash', 'kernel probe (%s) ended with %s: %s' % (fl, r.rc, r.err[-800:]), {'commands': [c[1] for c in cs]})
        continue
    lines = r.out.splitlines()
    p = 0
    for t, line, want in cs:
        ck.evals += 1
        per[t] = per.get(t, 0) + 1
        if p >= len(lines) or lines[p].startswith('MODIFIED'):
            ck.violation('kernel %s side effect' % t, 'kernel %s: %s on %s' % (t, lines[p] if p < len(lines) else 'no output', line[:300]), {'command': line})
            break
        if t == 'H':
            q = p
            while q < len(lines) and lines[q] != 'END':
                q += 1
            e = hist_ok(lines[p:q], *want)
            p = q + 1
            if e:
                ck.violation('histogram', 'histogram: ' + e, {'command': line})
            else:
                ck.seen(('H', want[0], len(want[2]), hash(tuple(want[2]))))
            continue
        got = [float(z) for z in lines[p].split()]
        p += 1
        bad = len(got) != len(want)
        for g, w in zip(got, want):
            if not (abs(g - w) <= 1e-8 * abs(w) + 1e-13):
                bad = True
        if bad:
            ck.violation('kernel ' + t, 'kernel %s returned %s, definition gives %s for %s' % (t, got, want, line[:300]), {'command': line})
        elif t == 'R' or 1e-12 < want[0] < 1 - 1e-12:
            ck.seen((t, line[:200], want[0]))
ck.extra['calls_per_kernel'] = per
ck.finish(2000, 1000)
