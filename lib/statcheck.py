"""Scenario generation and execution for the per-test statistic monitors."""
import json, os
import vlib

PATS = ['good', 'const', 'counter', 'alt', 'alphabet', 'and', 'or', 'extreme', 'saw', 'low', 'high', 'repeat',
        'period', 'compl', 'near']


def build_mon(flavour='plain'):
    b = vlib.build(flavour)
    return b.harness('mon', ['mon.c'], ['ref.cpp'])


def rng_range(r, wide=0.45, widths=range(8, 33)):
    """(min,max) of the generator under test"""
    if r.random() < wide:
        return 0, 0xffffffff
    k = r.random()
    if k < 0.7:
        w = r.choice(list(widths))
        return 0, (1 << w) - 1
    return r.choice([(1, 2147483646), (0, 2147483646), (0, 2147483562), (1, 2147483562), (0, 4294967290), (0, 999999999),
                     (0, 16777212), (0, 714024), (1, 65534), (7, 4294967295), (0, 1 << 31), (0, (1 << 24))])


def pattern(r, good=0.5):
    x = r.random()
    p1 = p2 = 0
    if x < good:
        pat = 'good'
    elif x < good + 0.12:
        pat, p1 = 'near', r.choice([2, 5, 20, 200, 5000])
    else:
        pat = r.choice(PATS)
        p1 = {'const': r.choice([0, 1, 0xffffffff, 0x55555555, 0x80000000, r.getrandbits(32)]),
              'counter': r.getrandbits(32), 'alt': r.choice([0, 0xffffffff, r.getrandbits(32)]),
              'alphabet': r.choice([2, 3, 5, 17, 100, 5000]), 'extreme': r.choice([3, 15, 200, 5000]),
              'saw': r.choice([2, 3, 7, 10, 64, 1000, 12345]), 'low': r.randint(1, 31), 'high': r.randint(1, 31),
              'repeat': r.choice([2, 3, 4, 7]), 'period': r.choice([2, 3, 16, 100, 5000, 65536]),
              'near': r.choice([2, 5, 20, 200])}.get(pat, 0)
        p2 = {'counter': r.choice([1, 2, 3, 0x10001, 0x9E3779B9, 0xffffffff, 1 << 20]),
              'alt': r.choice([0xffffffff, 0xaaaaaaaa, r.getrandbits(32)])}.get(pat, 0)
    return pat, p1, p2


def near(r, base, spread):
    return max(1, base + r.randint(-spread, spread))


# --- per test: sample sizes, tuple sizes, number of samples
def spec(d, r, big=False):
    nt, ov, ks, ps = 0, 1, 0, r.choice([1, 2, 3])
    good = 0.5
    wide = 0.45
    widths = range(8, 33)
    if d == 0:
        ts = r.choice([r.randint(5, 60), r.randint(60, 300), 100, 500])
        widths = list(range(17, 33)) + [22, 23, 24, 24, 31]
    elif d == 1:
        ts = r.choice([r.randint(1, 300), r.randint(1000, 20000), r.randint(50000, 200000)])
        ov = r.choice([0, 1, 1])
    elif d == 2:
        ts = r.choice([r.randint(10, 200), r.randint(1000, 5000)])
    elif d == 3:
        ts = r.choice([r.randint(20, 300), r.randint(1000, 20000)])
    elif d in (4, 5, 6, 7):
        ts = near(r, 2097152, 3000)
        good, wide = 0.72, 0.6
        ps = r.choice([1, 1, 2])
        if d == 5:
            widths = [20, 21, 22, 24, 28, 30, 31, 16]
        if d == 6:
            widths = [30, 31, 32, 29, 25]
        if r.random() < 0.12:
            ts = r.choice([1, 2, 33, r.randint(1, 5000)])
    elif d in (8, 9):
        ts = r.choice([r.randint(200000, 300000), 256000, r.randint(20000, 60000), r.randint(4000, 20000)])
        ps = r.choice([1, 2])
    elif d == 10:
        ts = r.choice([0, 12000, r.randint(1, 20000)])
        good = 0.7
    elif d == 11:
        ts = r.choice([0, 8000, r.randint(2, 50), r.randint(7000, 9000), r.randint(50, 8000)])
    elif d == 12:
        ts = r.choice([0, 4000, r.randint(1, 9000)])
        ps = r.choice([1, 2])
        good = 0.7
    elif d == 13:
        ts = r.choice([r.randint(60, 500), r.randint(1000, 30000), r.randint(60000, 120000)])
    elif d == 14:
        ts = r.choice([100, r.randint(2, 30), r.randint(30, 400), r.randint(400, 2000)])
        ks = r.choice([0, 0, 1, 2])
        if ks == 2:
            ts = min(ts, 250)
        ps = r.choice([1, 3, 8])
        good = 0.7
    elif d == 15:
        ts = r.choice([r.randint(2, 100), r.randint(100, 5000), r.randint(50000, 200000)])
    elif d == 16:
        ts = r.choice([r.randint(50, 1000), r.randint(1000, 60000), 200000])
    elif d == 17:
        ts = r.choice([r.randint(3000, 60000), r.randint(60000, 400000), r.randint(400000, 1000000)])
        good = 0.6
    elif d in (100, 101):
        ts = r.choice([r.randint(1, 50), r.randint(50, 5000), r.randint(5000, 100000)])
    elif d == 102:
        ts = r.choice([r.randint(1, 60), r.randint(100, 3000), r.randint(3000, 30000)])
        ps = r.choice([1, 2])
    elif d == 200:
        nt = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, r.randint(1, 14)])
        ts = r.choice([r.randint(100, 1000), r.randint(1000, 6000), r.randint(6000, 40000)])
        if nt > 9:
            ts = r.choice([r.randint(2000, 20000), r.randint(20000, 60000)])
    elif d == 201:
        nt = r.randint(2, 5)
        ts = r.choice([r.randint(20, 300), r.randint(300, 3000), 10000])
        good = 0.65
    elif d == 202:
        nt = r.choice([0, 1, 2, 3, 4, 5, 6, 7])
        ts = r.choice([r.randint(50, 2000), r.randint(2000, 20000), r.randint(20000, 100000)])
        if nt == 7:
            ts = r.randint(25000, 60000)
    elif d == 203:
        nt = r.choice([r.randint(0, 32), r.randint(0, 32), r.randint(33, 200), 0, 1, 32])
        ts = r.choice([r.randint(1, 100), r.randint(100, 5000), r.randint(5000, 60000)])
    elif d == 204:
        ts = r.choice([r.randint(2, 100), r.randint(100, 1000), r.randint(1000, 4999), r.randint(5000, 20000)])
        ks = r.choice([0, 0, 1, 2, 3])
        if ks in (1, 2):
            ts = min(ts, 1500 if ks == 1 else 300)
        good = 0.75
        ps = r.choice([1, 2, 5])
    elif d == 205:
        ts = r.choice([r.randint(1280, 5000), r.randint(5000, 100000), r.randint(100000, 300000)])
    elif d == 206:
        nt = r.choice([0, 0, 2, 4, 8, 16, 32, 64, 128, 256, 512])
        ln = nt or 256
        ts = r.choice([r.randint(12, 5 * ln if 5 * ln > 12 else 20), r.randint(5 * ln + 1, 20 * ln + 40),
                       r.choice([5 * ln, 5 * ln + 1, 12, 13, 16])])
        while ts * ln * ln > 6e7:
            ts = max(12, ts // 2)
        good = 0.8
        ks = r.choice([0, 0, 0, 1])
        if ks and ts * ln > 2000:
            ks = 0
    elif d == 207:
        nt = r.choice([0, 0, 0, 32, 32, 16])
        ts = r.choice([r.randint(200, 2000), r.randint(2000, 60000), r.randint(100000, 300000)])
        good = 0.7
        widths = range(16, 33)
    elif d == 208:
        nt = r.choice([0, 0, 0, 128, 64])
        ts = r.choice([r.randint(500, 3000), r.randint(3000, 60000), r.randint(60000, 200000)])
        good = 0.7
    elif d == 209:
        nt = r.choice([0, 0, 0, 1, 2, 4, 6, 8])
        ts = r.choice([r.randint(1000, 10000), r.randint(10000, 200000), r.randint(200000, 1000000)])
        good = 0.75
    elif d == 210:
        nt = r.choice([0, 0, 512, 256, 1000, 1700, 4096, 5000, 3])
        ts = r.choice([r.randint(5, 50), r.randint(50, 300), 200])
        widths = range(26, 33)
        wide = 0.6
    elif d == 211:
        ts = r.choice([0, 1000])
        ps = 1
        widths = [24, 24, 25, 28, 30, 31, 32, 20, 23]
        good = 0.9
    lo, hi = rng_range(r, wide, widths)
    pat, p1, p2 = pattern(r, good)
    if d == 7 and pat in ('good', 'near') and ts > 1000000:
        w = hi.bit_length()
        ts = int(ts * 32 / w)
    return dict(d=d, ts=ts, ps=ps, nt=nt, ov=ov, ks=ks, min=lo, max=hi, seed=r.getrandbits(48), pat=PATS.index(pat), p1=p1, p2=p2)


def args(sc):
    return ['%s=%s' % (k, v) for k, v in sc.items()] + ['data=' + vlib.DATA]


def run_scenario(mon, sc, timeout=60):
    res = vlib.run([mon] + args(sc), timeout=timeout)
    if res.timeout:
        return {'timeout': 1, 'oracle_done': 'ORACLE-DONE' in res.err}
    if res.rc != 0:
        return {'crash': res.rc, 'err': res.err[-1500:]}
    try:
        return json.loads(res.out)
    except ValueError:
        return {'crash': res.rc, 'err': 'no result: ' + res.out[-200:] + res.err[-500:]}


def run_family(ck, tests, quick_n, thorough_n):
    """tests: list of test numbers; *_n: scenarios per test (dict or int)"""
    mon = build_mon()
    n = thorough_n if vlib.THOROUGH else quick_n
    jobs = []
    for d in tests:
        k = n[d] if isinstance(n, dict) and d in n else (n['*'] if isinstance(n, dict) else n)
        for i in range(k):
            sc = spec(d, ck.rng)
            if i == 0:      # one plain good 32-bit run of every test
                sc.update(min=0, max=0xffffffff, pat=0)
            jobs.append(sc)
    # long ones first
    order = sorted(range(len(jobs)), key=lambda i: -(jobs[i]['ts'] or 3000000) * jobs[i]['ps'] * (10 if jobs[i]['d'] in (206, 102, 211) else 1))
    res = [None] * len(jobs)

    def work(i):
        res[i] = run_scenario(mon, jobs[i])
    vlib.pmap(work, order)
    per = {}
    for sc, r in zip(jobs, res):
        ck.evals += 1
        judge(ck, sc, r, per)
    ck.extra['per_test'] = {str(k): v for k, v in sorted(per.items())}
    return jobs, res


def judge(ck, sc, r, per):
    d = sc['d']
    st = per.setdefault(d, dict(run=0, outside_domain=0, comparisons=0, informative=0, invocations=0, words=0))
    if r.get('skip'):
        st['outside_domain'] += 1
        return
    if r.get('timeout'):
        # the oracle is part of the run; a clock verdict is only given when the oracle had
        # finished and the real test twice failed to end in a hundred times its usual time
        if r.get('oracle_done'):
            ck.violation('test %d hang' % d, 'test %d does not end on %s' % (d, json.dumps(sc)), sc)
            return
        ck.inconclusive.append('timeout ' + json.dumps(sc))
        return
    if 'crash' in r:
        ck.violation('test %d crash' % d, 'test %d died (status %s) on %s: %s' % (d, r['crash'], json.dumps(sc), r['err'][-400:]), sc)
        return
    st['run'] += 1
    st['comparisons'] += r['ncmp']
    st['informative'] += r['informative']
    st['invocations'] += r['events']
    st['words'] += r['words']
    if not r['ok']:
        ck.violation('test %d %s' % (d, r['kind']), 'test %d: %s: %s on %s' % (d, r['kind'], r['detail'], json.dumps(sc)), sc)
        return
    if r.get('alt'):
        ck.violation('test %d birthdays-adjacent-duplicates' % d,
                     'test %d: %d p-values count only every other one of adjacent repeated spacings, on %s' % (d, r['alt'], json.dumps(sc)), sc)
    if r['informative']:
        ck.seen(sc)
