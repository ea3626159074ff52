"""P06: sample counts and accumulation strategies."""
import os, sys, math, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report, statcheck
from ksoracle import oracle
ck = vlib.Check('P06', rule='one evaluation = one run of the real program (or of the real test loop) with a generated combination of sample counts, multiplier, strategy, cutoff, thresholds and KS mode; '
                'the event log of test invocations and every printed row are compared with a model of the run rules; non-trivial = ended normally with at least one invocation and every decision of the model clear of a threshold',
                assumptions=['runs in which a modelled p-value lies within 1e-6 of a threshold are discarded before execution', 'documented defaults of the tests are tabulated in the check'])
R = ck.rng
ev = vlib.evmain()
STEP = 100
TSD = {0: 100, 1: 1000000, 2: 40000, 3: 100000, 4: 2097152, 5: 2097152, 6: 2097152, 7: 2097152, 8: 256000, 9: 256000, 10: 0, 11: 8000, 12: 4000, 13: 100000, 14: 100,
       15: 100000, 16: 200000, 17: 10000000, 100: 100000, 101: 100000, 102: 100000, 200: 100000, 201: 10000, 202: 100000, 203: 1000000, 204: 10000, 205: 51200000,
       206: 50000, 207: 15000000, 208: 5000000, 209: 65000000, 210: 2000, 211: 67108864, 900: 7, 901: 0, 902: 123456}
PSD = {d: 100 for d in TSD}
PSD.update({201: 1000, 204: 1000, 205: 1, 206: 1, 207: 1, 208: 1, 209: 1, 210: 1, 211: 1, 900: 100, 901: 40, 902: 3})
NK = {900: 1, 901: 3, 902: 2}


def script(n, nk):
    """n invocations' p-values with changing quality"""
    out, mode = [], R.choice(['u', 'u', 'slow', 'flip', 'mid', 'high'])
    a = R.choice([1.1, 1.25, 1.5, 2, 0.85, 0.7])
    for i in range(n):
        row = []
        for j in range(nk):
            u = R.random()
            if mode == 'slow':
                u = u ** a
            elif mode == 'flip':
                u = u ** (a if (i // 150) % 2 == 0 else 1 / a)
            elif mode == 'mid':
                u = 0.5 + (u - 0.5) * (0.9 if j == 0 else 1)
            elif mode == 'high' and j == nk - 1:
                u = 1 - (1 - u) ** a
            row.append(u)
        out.append(row)
    return out


def model(ps, Y, xoff, weak, fail, k, pv, nk):
    """rounds [(n, [p...])] or None when a decision is too close"""
    n = min(ps, xoff) if Y in (1, 2) else ps
    rounds = []
    while True:
        if n > len(pv):
            return None
        fin = []
        for j in range(nk):
            o = oracle([r[j] for r in pv[:n]], k)
            if o is None:
                return None
            fin.append(o[:1] + (o[2],))
        rounds.append((n, fin))
        s = min([0.5] + [0.5 - abs(p - 0.5) for p, t in fin])
        for p, t in fin:
            q = 0.5 - abs(p - 0.5)
            for th in (weak, fail):
                if abs(q - th) < max(2 * t, 1e-6) and Y:
                    return None
        if Y == 0 or Y > 2:
            return rounds
        if s < fail or n >= xoff or (Y == 1 and s >= weak):
            return rounds
        n = min(n + STEP, xoff)


def gen():
    d = R.choice([900, 900, 901, 902])
    nk = NK[d]
    Y = R.choice([0, 0, 1, 1, 1, 2, 2])
    t = R.choice([None, 0, 1, 7, 999, R.randint(1, 100000), 2147483647])
    p = R.choice([None, None, 0, 1, 2, 10, 99, 100, 101, R.randint(1, 400), R.choice([900, 1000, 1500])])
    m = R.choice([None, None, None, 1, 2, 0.5, 3.75, 0.01, 0.001, 10])
    xoff = R.choice([None if Y == 0 else 600, 50, 100, 101, 150, 199, 200, 250, 300, 350, 1000, 777])
    weak = R.choice([None, 0.005, 0.1, 0.3, 0.45, 0.02])
    fail = R.choice([None, None, 1e-6, 1e-3, 0.01, 0.04])
    k = R.choice([None, None, 0, 3, 3])
    s = R.choice([None, 0, 1])
    a = []
    if t is not None: a += ['-t', t]
    if p is not None: a += ['-p', p]
    if m is not None: a += ['-m', m]
    if Y: a += ['-Y', Y]
    if xoff is not None: a += ['-P', xoff]
    if weak is not None: a += ['-W', weak]
    if fail is not None: a += ['-X', fail]
    if k is not None: a += ['-k', k]
    if s is not None: a += ['-s', s]
    nt = R.choice([0, 0, 3])
    if nt: a += ['-n', nt]
    ts = t or TSD[d]
    ps = p or max(1, int(PSD[d] * (m if m is not None else 1)))
    if ps > 4000:
        return None
    xo = 100000 if xoff is None else xoff
    cap = (max(xo, ps) if Y in (1, 2) else ps)
    pv = script(min(cap, 4000), nk)
    rd = model(ps, Y, xo, weak if weak is not None else .005, fail if fail is not None else 1e-6, k or 0, pv, nk)
    if rd is None:
        return None
    pairs = [a[i:i + 2] for i in range(0, len(a), 2)]
    R.shuffle(pairs)
    a = [x for q in pairs for x in q]
    if R.random() < 0.3:
        del pv[rd[-1][0]:]      # the script holds exactly the samples a right run asks for
    return dict(d=d, args=a, ts=ts, rounds=rd, pv=pv, nk=nk, nt=nt, Y=Y, sd=R.randint(1, 10 ** 6), s=s)


def scripted(c):
    args = ['-g', 600, '-d', c['d'], '-S', c['sd'], '-D', report.ROWFLAGS] + c['args']
    r, e = vlib.run_ev(ev, args, pvals=[x for row in c['pv'] for x in row])
    return r, e, args


def check_scripted(c, r, e, args):
    key = 'd=%d %s' % (c['d'], ' '.join(map(str, c['args'])))
    rep = {'args': args, 'env': 'VP_PFILE script', 'pv': c['pv'][:50], 'n': len(c['pv'])}
    want = c['rounds'][-1][0]
    tests = [x for x in e if x['ev'] == 'test']
    if any(x['ev'] == 'script_end' for x in e):
        return 'too many samples', '%s: more than %d samples taken; the model stops at %d after rounds %s' % (key, len(c['pv']), want, [n for n, _ in c['rounds']])
    if r.rc != 0:
        return 'ended', '%s: ended with status %s %s' % (key, r.rc, r.err[-300:])
    rs, bad = report.rows(r.out)
    if rs is None:
        return 'row', '%s: unreadable row %r' % (key, bad)
    if [x['irun'] for x in tests] != list(range(want)):
        return 'sample count', '%s: %d invocations (indices %s...), model says %d' % (key, len(tests), [x['irun'] for x in tests][:5], want)
    if any(x['ts'] != c['ts'] for x in tests):
        return 'tsamples', '%s: test ran with %d samples, requested %d' % (key, tests[0]['ts'], c['ts'])
    for x, y in zip(tests, tests[1:]):
        if y['before'] != x['after']:
            return 'stream', '%s: sample %d does not continue the stream (word %d after %d)' % (key, y['irun'], y['before'], x['after'])
    if tests and tests[0]['before'] != 0:
        return 'stream', '%s: first sample starts at word %d' % (key, tests[0]['before'])
    exp = [(n, j, f) for n, fin in c['rounds'] for j, f in enumerate(fin)]
    if len(rs) != len(exp):
        return 'rounds', '%s: %d rows, model has %d (rounds %s)' % (key, len(rs), len(exp), [n for n, _ in c['rounds']])
    for row, (n, j, (p, t)) in zip(rs, exp):
        if row['ps'] != n or row['ts'] != c['ts'] or row['nt'] != c['nt'] + j or row['num'] != c['d']:
            return 'row fields', '%s: row %s, model psamples=%d tsamples=%d' % (key, row, n, c['ts'])
        if abs(row['p'] - p) > t + 2e-8 + 1e-8:
            return 'row p-value', '%s: row says p=%s after %d samples, the KS value of the collected p-values is %.9f' % (key, row['p'], n, p)


N = 500 if not vlib.THOROUGH else 8000
cases = []
while len(cases) < N:
    c = gen()
    if c: cases.append(c)
nr = {}
for c, (r, e, args) in zip(cases, vlib.pmap(scripted, cases)):
    ck.evals += 1
    if r.timeout:
        ck.violation('hang', 'no end: %s' % args, {'args': args}); continue
    b = check_scripted(c, r, e, args)
    if b:
        ck.violation(b[0], b[1], {'args': args, 'pvalues': c['pv'][:2000]})
        continue
    nr[len(c['rounds'])] = nr.get(len(c['rounds']), 0) + 1
    ck.count('invocations', len(e)); ck.count('rounds', len(c['rounds']))
    ck.seen(dict(args=' '.join(map(str, args)), rounds=[n for n, _ in c['rounds']]))
ck.extra['scripted_runs_by_rounds'] = {str(k): v for k, v in sorted(nr.items())}


# ---- more than the default cutoff in a plain run, whatever -P says
def big(_):
    n = 100150
    r, e = vlib.run_ev(ev, ['-g', 600, '-d', 900, '-t', 1, '-p', n, '-S', 1, '-D', report.ROWFLAGS], pvals=[(i * 0.6180339887) % 1 for i in range(n)])
    return r, sum(1 for x in e if x['ev'] == 'test'), n
for r, cnt, n in [big(0)]:
    ck.evals += 1
    rs, bad = report.rows(r.out)
    if r.rc != 0 or cnt != n or not rs or rs[0]['ps'] != n:
        ck.violation('large count', '-p %d: %d invocations, rows %s' % (n, cnt, rs or bad), {})
    else:
        ck.seen('-p %d' % n)


# ---- a final p-value of exactly zero must not restart the accumulation
r, e = vlib.run_ev(ev, ['-g', 600, '-d', 900, '-t', 1, '-p', 1, '-Y', 2, '-X', 0, '-P', 301, '-S', 1, '-D', report.ROWFLAGS], pvals=[0.0] + [0.5 + (i % 7) / 100 for i in range(400)])
ck.evals += 1
rs, bad = report.rows(r.out)
if [x['irun'] for x in e if x['ev'] == 'test'] != list(range(301)) or not rs or [x['ps'] for x in rs] != [1, 101, 201, 301]:
    runs = [x['irun'] for x in e if x['ev'] == 'test']
    ck.violation('zero-restart' if runs[:2] == [0, 0] else 'zero', '-p 1 -Y 2 -X 0 -P 301, first p-value 0: sample indices %s..., rows %s' % (runs[:4], (rs or [])[:4]), {})


# ---- real tests on a recording generator, through the whole program
REAL = [(100, 0), (101, 0), (203, 3), (15, 0), (2, 0), (202, 3), (0, 0), (14, 0), (204, 0), (16, 0), (206, 16), (102, 0), (13, 0), (3, 0), (201, 2), (200, 2), (205, 0), (1, 0)]


def greal(d, nt):
    t = R.choice([300, 1000, R.randint(200, 4000)])
    if d == 0: t = R.randint(50, 200)
    if d == 14: t = 100
    if d == 201: t = R.randint(100, 500)
    if d in (200, 202): t = R.randint(3000, 6000)
    if d == 205: t = R.randint(2000, 6000)
    if d == 206: t = R.randint(100, 200)
    p = R.choice([1, 2, 7, 20])
    Y = R.choice([0, 0, 1, 2])
    xoff = R.choice([1, 25, 120, 230])
    if d in (0, 2, 201, 200, 202, 206, 102) : xoff = min(xoff, 120)
    a = ['-d', d, '-t', t, '-p', p] + (['-n', nt] if nt else []) + (['-Y', Y, '-P', xoff] if Y else []) + ['-W', R.choice([0.005, 0.2, 0.45])]
    tape = [0, R.choice([0xffffffff, 0xffffffff, 0x7fffffff, 0xffffff]) , R.getrandbits(40), 0, 0, 0]
    if d == 0: tape[1] = 0xffffffff
    return dict(d=d, a=a, t=t, p=p, Y=Y, xoff=xoff, weak=a[-1], tape=tape, nt=nt)


def runreal(c):
    args = ['-g', 600, '-S', 3, '-D', report.ROWFLAGS] + c['a']
    return vlib.run_ev(ev, args, tape=c['tape'], timeout=150), args


def check_real(c, r, e):
    key = ' '.join(map(str, c['a']))
    tests = [x for x in e if x['ev'] == 'test']
    rs, bad = report.rows(r.out)
    if r.rc != 0 or not rs:
        return 'real ended', '%s: status %s, %s %s' % (key, r.rc, bad, r.err[-200:])
    if [x['irun'] for x in tests] != list(range(len(tests))):
        return 'real sequence', '%s: sample indices are not 0..n-1: %s' % (key, [x['irun'] for x in tests][:20])
    for x, y in zip(tests, tests[1:]):
        if y['before'] != x['after']:
            return 'real stream', '%s: sample %d starts at word %d, the previous ended at %d' % (key, y['irun'], y['before'], x['after'])
    nk = len(tests[0]['p'])
    if len(rs) % nk:
        return 'real rows', '%s: %d rows for %d statistics' % (key, len(rs), nk)
    n = min(c['p'], c['xoff']) if c['Y'] else c['p']
    for g in range(0, len(rs), nk):
        ptail = []
        for j in range(nk):
            row = rs[g + j]
            if row['ps'] != n:
                return 'real psamples', '%s: row %d says %d p-values, the run rules give %d' % (key, g + j, row['ps'], n)
            if row['ts'] != tests[-1]['ts']:
                return 'real tsamples', '%s: row says %d samples, the test used %d' % (key, row['ts'], tests[-1]['ts'])
            o = oracle([x['p'][j] for x in tests[:n]], 0)
            if o and abs(row['p'] - o[0]) > o[2] + 2e-8:
                return 'real p-value', '%s: row says p=%s after %d samples, collected p-values give %.9f' % (key, row['p'], n, o[0])
            ptail.append(row['p'])
        s = min([0.5] + [0.5 - abs(x - 0.5) for x in ptail])
        last = g + nk == len(rs)
        near = any(abs(s - th) < 1e-6 for th in (1e-6, c['weak']))
        stop = c['Y'] == 0 or s < 1e-6 or n >= c['xoff'] or (c['Y'] == 1 and s >= c['weak'])
        if stop != last and not near:
            return 'real stop', '%s: after %d samples smallest p %.8f the run %s' % (key, n, s, 'went on' if stop else 'stopped')
        if last:
            if len(tests) != n:
                return 'real count', '%s: %d invocations, report says %d' % (key, len(tests), n)
            return None
        n = min(n + STEP, c['xoff'])
    return None


rc = [greal(d, nt) for d, nt in REAL for _ in range(3 if not vlib.THOROUGH else 40)]
for c, ((r, e), args) in zip(rc, vlib.pmap(runreal, rc)):
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append(str(args)); continue
    b = check_real(c, r, e)
    if b:
        ck.violation(b[0], b[1], {'args': args, 'tape': c['tape']})
    else:
        ck.count('real_invocations', len([x for x in e if x['ev'] == 'test']))
        ck.seen('real ' + ' '.join(map(str, c['a'])))


# ---- defaults and multiplier over the whole battery (tests' bodies replaced, bookkeeping real)
def battery(c):
    args, m, p, t = c
    return vlib.run_ev(ev, ['-g', 600, '-S', 3, '-D', report.ROWFLAGS] + args, fast=True, timeout=300)
bc = []
for d in sorted(TSD):
    if d < 900:
        t, p, m = R.choice([0, R.randint(1, 10 ** 6)]), R.choice([0, R.randint(1, 300)]), R.choice([1, 2, 0.5, 0.02, 0.255])
        bc.append((['-d', d] + (['-t', t] if t else []) + (['-p', p] if p else []) + (['-m', m] if m != 1 else []), m, p, t))
for m in (1, 0.25, R.choice([3, 1.5, 0.001])):
    bc.append((['-a'] + (['-m', m] if m != 1 else []) + R.choice([[], ['-t', 17, '-p', 3]]), m, 0, 0))
for c, (r, e) in zip(bc, vlib.pmap(battery, bc)):
    ck.evals += 1
    args, m, p, t = c
    rs, bad = report.rows(r.out)
    key = ' '.join(map(str, args))
    if r.timeout or r.rc != 0 or not rs:
        ck.violation('defaults run', '%s: status %s %s' % (key, r.rc, bad), {'args': args}); continue
    runs = {}
    for x in e:
        if x['ev'] == 'test':
            runs.setdefault((x['d'], x['gnt']), []).append(x)
    ok = True
    for (d, nt), xs in runs.items():
        wantp = p or max(1, int(PSD.get(d, len(xs)) * m))
        wantt = t or TSD.get(d, xs[0]['ts'])
        mine = [row for row in rs if row['num'] == d and row['nt'] == nt]
        if [x['irun'] for x in xs] != list(range(wantp)) or any(x['ts'] != wantt for x in xs) or not mine or any(row['ps'] != wantp or row['ts'] != wantt for row in mine):
            ck.violation('defaults', '%s: test %d tuple %d ran %d samples of size %d, expected %d of %d; rows %s' % (key, d, nt, len(xs), xs[0]['ts'], wantp, wantt, mine[:2]), {'args': args})
            ok = False
            break
    if ok:
        ck.count('default_units', len(runs)); ck.seen('defaults ' + key)


# ---- the real test loop against the statistic oracle, several rounds
mon = statcheck.build_mon()
mj = []
for i in range(60 if not vlib.THOROUGH else 1200):
    d = R.choice([100, 101, 203, 15, 2, 202, 0, 13])
    sc = statcheck.spec(d, R)
    sc.update(ts=min(sc['ts'] or 1000, 3000 if d != 202 else 6000), ps=R.choice([1, 2, 5, 9]), rounds=R.choice([2, 3, 5]), xs=R.choice([1, 3, 10]), strat=R.choice([1, 2]), xoff=R.choice([5, 12, 1000]))
    if d == 0:
        sc.update(ts=60, pat=0)
    if sc['pat'] not in (0, 14):
        sc.update(pat=0)
    mj.append(sc)
per = {}
for sc, r in zip(mj, vlib.pmap(lambda s: statcheck.run_scenario(mon, s), mj)):
    ck.evals += 1
    if r.get('alt'):
        r = dict(r, alt=0)      # a known finding of P01, not of the sample bookkeeping
    statcheck.judge(ck, sc, r, per)
ck.extra['oracle_rounds'] = {str(k): v for k, v in per.items()}
ck.finish(400, 300)
