"""P05: the final p-value is the selected KS / Kuiper significance of the collected p-values."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from ksoracle import oracle
ck = vlib.Check('P05', rule='one evaluation = one complete run of std_test() over a generated set of p-values in one KS mode (two statistics holding the same multiset in different orders, plus a '
                'direct call); compared with the exact Kolmogorov distribution (scipy kstwo) or the documented approximation; non-trivial = expected value strictly inside (1e-12,1-1e-12)',
                assumptions=['scipy.stats.kstwo is the independent reference for the exact distribution; tolerance 2e-7 absolute (the "7 digits" the modes promise)',
                             'exact modes are exercised while n*D <= 220, beyond which one evaluation takes minutes'])
R = ck.rng
kern = {f: vlib.build(f).harness('kern', ['kern.c']) for f in ('plain', 'asan')}


def vec():
    k = R.randrange(12)
    n = R.choice([1, 2, 2, 3, 4, 5, 8, 10, 20, 50, 98, 99, 100, 101, 102, 200, 500, 1000, R.randint(2, 1500)])
    if R.random() < 0.06:
        n = R.choice([2000, 4998, 4999, 5000, 5001, 6000, 10000])
    if R.random() < 0.01:
        n = 100000
    if k < 4:
        p = [R.random() for _ in range(n)]
    elif k == 4:
        a = R.choice([1.05, 1.2, 1.5, 0.9, 0.8, 3, 0.3])
        p = [R.random() ** a for _ in range(n)]
    elif k == 5:     # target discrepancy: shift of the uniform grid
        s = R.choice([0.3, 0.5, 0.8, 1.0, 1.36, 1.6, 1.93, 1.95, 2.2, 2.68, 2.7, 3.0]) / math.sqrt(n) * R.choice([1, -1])
        p = [min(1.0, max(0.0, (i + 1) / (n + 1.0) + s * R.random() ** 0.05)) for i in range(n)]
    elif k == 6:     # ties
        m = R.choice([1, 2, 3, 10])
        vals = [R.random() for _ in range(m)]
        p = [R.choice(vals) for _ in range(n)]
    elif k == 7:
        p = [R.choice([0.0, 1.0, 0.5, R.random()]) for _ in range(n)]
    elif k == 8:
        p = [R.choice([0.0, 1.0])] * n
    elif k == 9:     # nearly perfect
        e = R.choice([0, 1e-3, 1e-6, 0.1]) / (n + 1.0)
        p = [min(1.0, max(0.0, (i + R.choice([0, 0.5, 1])) / (n + 1.0) + e * (R.random() - 0.5))) for i in range(n)]
        off = R.choice([0, 0.5, 1])
        p = [min(1.0, max(0.0, (i + off) / (n + 1.0) + e * (R.random() - 0.5))) for i in range(n)] if R.random() < 0.5 else p
    elif k == 10:
        p = [R.choice([1e-300, 5e-324, 1 - 2 ** -53, 2 ** -53, R.random()]) for _ in range(n)]
    else:
        p = [R.random() * R.choice([1, 0.9, 0.5]) for _ in range(n)]
        for i in range(R.randrange(3)):
            p[R.randrange(n)] = R.choice([0.0, 1.0])
    R.shuffle(p)
    return p


def order2(p):
    return [p[(i * 7919 + 13) % len(p)] for i in range(len(p))]


N = 3000 if not vlib.THOROUGH else 60000
cases = []
while len(cases) < N:
    p = vec()
    if len(p) % 7919 == 0:
        continue
    mode = R.choice([0, 0, 0, 1, 2, 3, 3, 4])
    if mode in (1, 2) and len(p) > 2500:
        mode = 0
    o = oracle(p, mode)
    if o is None:
        continue
    cases.append((mode, p, o))
bs = [cases[i::32] for i in range(32)]


def work(a):
    i, cs = a
    fl = 'asan' if i % 8 == 0 else 'plain'
    inp = '\n'.join('K %d %d %s' % (m, len(p), ' '.join('%.17g' % x for x in p)) for m, p, _ in cs) + '\n'
    return vlib.run([kern[fl]], stdin=inp.encode(), timeout=600)


br, sizes = {}, set()
for r, cs in zip(vlib.pmap(work, enumerate(bs)), bs):
    if r.timeout or r.rc != 0:
        ck.violation('ks crash', 'KS evaluation ended with %s: %s' % (r.rc, r.err[-800:]), {'cases': [(m, p) for m, p, _ in cs][:3]})
        continue
    for line, (mode, p, (want, kind, tol)) in zip(r.out.splitlines(), cs):
        a, b, c, ps, lost = line.split()
        a, b, c = float(a), float(b), float(c)
        ck.evals += 1
        br[kind] = br.get(kind, 0) + 1
        sizes.add(len(p))
        rep = {'mode': mode, 'p': p if len(p) <= 2000 else 'n=%d' % len(p)}
        if not all(0 <= x <= 1 for x in (a, b, c)):
            ck.violation('ks range', 'mode %d, n=%d: final p-value %r/%r/%r outside [0,1]' % (mode, len(p), a, b, c), rep)
            continue
        if int(ps) != len(p) or lost != '0':
            ck.violation('ks set', 'mode %d: %s of %d p-values used, altered=%s' % (mode, ps, len(p), lost), rep)
            continue
        ws = (want, want, want) if kind != 'single' else (want, order2(p)[0], want)
        bad = None
        for x, w in zip((a, b, c), ws):
            if not abs(x - w) <= tol + 1e-8 * abs(w):
                bad = (x, w)
        if bad:
            ck.violation('ks value %s' % kind, 'mode %d, n=%d (%s): got %.12g, oracle %.12g' % (mode, len(p), kind, bad[0], bad[1]), rep)
            continue
        if len(p) > 1 and not (abs(a - b) <= 1e-12 and abs(a - c) <= 1e-12):
            ck.violation('ks order', 'mode %d, n=%d: value depends on the order of the p-values (%.17g %.17g %.17g)' % (mode, len(p), a, b, c), rep)
            continue
        if 1e-12 < want < 1 - 1e-12:
            ck.seen((mode, len(p), round(want, 12)))
ck.extra['branches'] = br
ck.extra['distinct_sizes'] = len(sizes)
ck.finish(1000, 500)
