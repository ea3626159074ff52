"""P07: every printed field equals what was computed, in every output format."""
import os, sys, re, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
from report import FL
from ksoracle import oracle
ck = vlib.Check('P07', rule='one evaluation = one run of the real program with generated output flags (by number, name or sum), separator, thresholds, seeds, strategies and scripted or real p-values; every '
                'line of standard output is parsed and compared with the event log of that run; non-trivial = all output consumed by the parser and at least one row or block compared',
                assumptions=['layout is compared up to blanks around fields', 'thresholds equal to a p-value to within rounding on the upper side are not judged'])
R = ck.rng
ev = vlib.evmain()
NAMES = {0: 'diehard_birthdays', 1: 'diehard_operm5', 2: 'diehard_rank_32x32', 3: 'diehard_rank_6x8', 4: 'diehard_bitstream', 5: 'diehard_opso', 6: 'diehard_oqso', 7: 'diehard_dna',
         8: 'diehard_count_1s_stream', 9: 'diehard_count_1s_byte', 10: 'diehard_parking_lot', 11: 'diehard_2dsphere', 12: 'diehard_3dsphere', 13: 'diehard_squeeze', 14: 'diehard_sums',
         15: 'diehard_runs', 16: 'diehard_craps', 17: 'marsaglia_tsang_gcd', 100: 'sts_monobit', 101: 'sts_runs', 102: 'sts_serial', 200: 'rgb_bitdist', 201: 'rgb_minimum_distance',
         202: 'rgb_permutations', 203: 'rgb_lagged_sum', 204: 'rgb_kstest_test', 205: 'dab_bytedistrib', 206: 'dab_dct', 207: 'dab_filltree', 208: 'dab_filltree2', 209: 'dab_monobit2',
         210: 'dab_birthdays1', 211: 'dab_opso2', 900: 'fake_one', 901: 'fake_three_with_a_name_beyond_twenty', 902: 'fake_two'}
DESC = {900: ['#FAKE ONE DESCRIPTION', '#second line', '#'], 901: ['#FAKE THREE DESCRIPTION'], 902: ['#FAKE TWO DESCRIPTION']}
NK = {900: 1, 901: 3, 902: 2}
TSD = {900: 7, 901: 0, 902: 123456}
PSD = {900: 100, 901: 40, 902: 3}


class Bad(Exception):
    pass


def flags(r):
    """(-D arguments, resulting set)"""
    k = r.random()
    if k < 0.12:
        return [], report.DEFAULT
    names = list(FL)
    if k < 0.3:
        pick = [r.choice(names)]
    elif k < 0.75:
        pick = r.sample(names, r.randint(1, len(names)))
    else:
        pick = [n for n in names if n not in r.sample(names, r.randint(0, 3))]
    args, tot = [], 0
    seq = []
    while pick:
        m = r.choice([1, 1, 1, r.randint(1, len(pick))])
        grp, pick = pick[:m], pick[m:]
        if m == 1 and r.random() < 0.6:
            seq.append((grp[0], FL[grp[0]]))
        else:
            v = sum(FL[g] for g in grp)
            seq.append((str(v), v))
    if r.random() < 0.2:        # repeat one of them
        seq.insert(r.randint(0, len(seq)), r.choice(seq))
    if r.random() < 0.15:
        seq.insert(r.choice([0, len(seq), r.randint(0, len(seq))]), r.choice([('default', 0), ('0', 0)]))
    for a, v in seq:
        args += ['-D', a]
        tot = report.DEFAULT if v == 0 else tot | v
    return args, tot


def plines(out, sep):
    """non-empty lines"""
    return [l for l in out.split('\n') if l.strip(' ') != '' and l != sep and not re.match(r'Preparing to run test \d+\.', l)]


class P:
    def __init__(self, out, sep):
        self.l = plines(out, sep)
        self.i = 0
        self.sep = sep

    def next(self, what):
        if self.i >= len(self.l):
            raise Bad('output ends where %s was expected' % what)
        self.i += 1
        return self.l[self.i - 1]

    def bar(self, what):
        l = self.next(what)
        if not re.match(r'^#=+#$', l):
            raise Bad('%r where the line of %s was expected' % (l, what))

    def fields(self, want, what, trail=False):
        l = self.next(what)
        ws = self.sep in ' \t'
        if ws:
            f = l.split()
        else:
            f = [x.strip() for x in l.split(self.sep)]
            if trail:
                if f[-1] != '':
                    raise Bad('%s line %r does not end in a separator' % (what, l))
                f = f[:-1]
        flat = []
        for w in want:
            if ws and isinstance(w, str):
                flat += w.split()
            else:
                flat.append(w)
        if len(f) != len(flat):
            raise Bad('%s line %r has %d items, expected %s' % (what, l, len(f), [str(x) for x in flat]))
        for g, w in zip(f, flat):
            if isinstance(w, tuple):
                if w[0] == 'rate':
                    # (very short timing runs legitimately print inf)
                    if g != 'inf' and not (re.fullmatch(r'\d\.\d\de[+-]\d\d', g) and 0 < float(g) < 1e12):
                        raise Bad('rate %r' % g)
                elif w[0] == 'p':
                    if not re.fullmatch(r'[01]\.\d{8}', g):
                        raise Bad('p-value printed as %r' % g)
                    if not abs(float(g) - w[1]) <= w[2]:
                        raise Bad('row p-value %s, computed %.10f' % (g, w[1]))
            elif g != w:
                raise Bad('%s line %r: %r where %r was expected' % (what, l, g, w))


def histogram(ps, pv, what):
    ps.bar('histogram')
    if 'Histogram of test p-values' not in ps.next('histogram title'):
        raise Bad('no histogram title')
    ps.bar('histogram')
    if not re.search(r'Bin scale = 0\.1', ps.next('bin scale')):
        raise Bad('bin scale')
    bins = [0] * 10
    for p in pv:
        bins[min(9, max(0, int(p * 10)))] += 1
    scale = None
    got = []
    for i in range(20, 0, -1):
        l = ps.next('histogram line')
        m = re.match(r'^#\s*(\d*)\|((?:(?:\*\*\*\*|    )\|){10})$', l)
        if not m:
            raise Bad('histogram line %r' % l)
        if m.group(1):
            s = int(m.group(1)) / i
            if s != int(s) or (scale and s != scale):
                raise Bad('histogram scale %r' % l)
            scale = int(s)
        got.append([c == '****' for c in m.group(2).rstrip('|').split('|')])
    if not scale or max(bins) > 20 * scale:
        raise Bad('histogram scale %s for bins %s' % (scale, bins))
    for k, i in enumerate(range(20, 0, -1)):
        want = [b >= i * scale for b in bins]
        if got[k] != want:
            raise Bad('histogram of %d p-values: level %d shows %s, counts are %s' % (len(pv), i * scale, got[k], bins))
    ps.next('axis')
    ps.next('axis labels')
    ps.bar('histogram end')


def lhead(ps, fl, strategy, hdr):
    if fl & FL['header']:
        ps.bar('line header')
    w = []
    for k, t in (('prefix', '0'), ('test_name', 'test_name'), ('show_num', 'num'), ('ntuple', 'ntup'), ('tsamples', 'tsamples'), ('psamples', 'psamples'), ('pvalues', 'p-value'), ('assessment', 'Assessment')):
        if fl & FL[k]:
            w.append(t)
    if fl & FL['seed'] and strategy:
        w.append('Seed')
    if w:
        ps.fields(w, 'line header')
    if fl & FL['header']:
        ps.bar('line header')


def verify(c, r, events):
    """c: fl sep strategy fname weak fail k grng(name,num) ; groups from the events"""
    fl, sep, st = c['fl'], c['sep'], c['strategy']
    ps = P(r.out, sep)
    nw = fl & FL['no_whitespace']
    seeds = [e['s'] for e in events if e['ev'] == 'seed']
    if fl & FL['header']:
        ps.bar('header')
        l = ps.next('copyright')
        if not re.match(r'^#\s+dieharder version \S+ Copyright 2003 Robert G\. Brown\s+#$', l):
            raise Bad('copyright line %r' % l)
        ps.bar('header')
    first = next((i for i, e in enumerate(events) if e['ev'] == 'test'), None)
    if fl & FL['show_rng']:
        showseed = fl & FL['seed'] and not st and not c['fname']
        if fl & FL['line_header']:
            ps.fields((['0'] if fl & FL['prefix'] else []) + ['rng_name'] + (['num'] if fl & FL['show_num'] else []) + (['filename'] if c['fname'] else []) +
                      (['rands/second'] if fl & FL['rate'] else []) + (['Seed'] if showseed else []), 'generator header', True)
        base = [e['s'] for e in events[:first] if e['ev'] == 'seed']
        ps.fields((['1'] if fl & FL['prefix'] else []) + [c['grng'][0]] + ([str(c['grng'][1])] if fl & FL['show_num'] else []) + ([c['fname']] if c['fname'] else []) +
                  ([('rate',)] if fl & FL['rate'] else []) + ([str(c['seed'] or base[-1])] if showseed else []), 'generator', True)
    if fl & FL['line_header'] and not fl & FL['histogram']:
        lhead(ps, fl, st, fl & FL['header'])
    nrow = 0
    words = 0
    for g in c['groups'](events):
        d, upto, evs = g['d'], g['n'], g['evs']
        if c.get('filestat'):
            for want in c['filestat'](g):
                l = ps.next('file statistics')
                if l != want:
                    raise Bad('file statistics %r, expected %r' % (l, want))
        if fl & FL['description'] and d in DESC:
            for w in DESC[d]:
                l = ps.next('description')
                if l.strip() != w:
                    raise Bad('description line %r, expected %r' % (l, w))
        for j in range(len(evs[0]['p'])):
            pv = [e['p'][j] for e in evs[:upto]]
            if fl & FL['histogram']:
                histogram(ps, pv, d)
                if fl & FL['line_header']:
                    lhead(ps, fl, st, fl & FL['header'])
            o = oracle(pv, c['k'])
            if o is None:
                raise Bad('SKIP')
            val, tol = o[0], o[2] + 6e-9
            w = []
            if fl & FL['prefix']: w.append('2')
            if fl & FL['test_name']: w.append(NAMES[d] if nw else NAMES[d][:20])
            if fl & FL['show_num']: w.append(str(d))
            if fl & FL['ntuple']: w.append(str(evs[-1]['nt'][j]))
            if fl & FL['tsamples']: w.append(str(evs[-1]['ts']))
            if fl & FL['psamples']: w.append(str(upto))
            if fl & FL['pvalues']: w.append(('p', val, tol))
            if fl & FL['assessment']:
                close = any(abs(val - t) < (tol if upto > 1 else 0) for t in (c['weak'], c['fail'])) or any(abs(val - 1 + t) < (tol if upto > 1 else 1e-15) for t in (c['weak'], c['fail']))
                w.append(('any',) if close else report.assess(val, c['weak'], c['fail']))
            if fl & FL['seed'] and st: w.append(str(g['seed']))
            if w:
                ps.fields(w, 'row of test %d' % d)
                nrow += 1
            if fl & FL['psample_values']:
                ps.bar('p-value block')
                if 'Values of test p-values' not in ps.next('p-value block title'):
                    raise Bad('no p-value block title')
                ps.bar('p-value block')
                got = []
                for _ in pv:
                    l = ps.next('p-value').strip(sep + ' ')
                    got.append(l)
                if sorted(got) != sorted('%.8f' % x for x in pv):
                    raise Bad('p-value block %s..., collected %s...' % (sorted(got)[:5], sorted(pv)[:5]))
                ps.bar('p-value block end')
                nrow += 1
    if ps.i != len(ps.l):
        raise Bad('unexpected output %r' % ps.l[ps.i])
    return nrow


SEPS = ['|', '|', ',', ';', ':', '!', '%', '\t', ' ', '~', '=']


def thresholds(r):
    weak = r.choice([None, None, 0.005, 0.05, 0.2, 0.01, 0.4])
    fail = r.choice([None, None, 1e-6, 0.001, 0.01, 0.0005, 1e-3])
    a = (['-W', repr(weak)] if weak is not None else []) + (['-X', repr(fail)] if fail is not None else [])
    return a, 0.005 if weak is None else weak, 1e-6 if fail is None else fail


def edge(r, weak, fail):
    k = r.random()
    if k < 0.45:
        t = r.choice([weak, fail])
        v = r.choice([t, math.nextafter(t, 0), math.nextafter(t, 1), t * 0.999999, t * 1.000001, 1 - t * 0.999999, 1 - t * 1.000001, 1 - t + 1e-11, 1 - t - 1e-11])
        return min(1.0, max(0.0, v))
    if k < 0.6:
        return r.choice([0.0, 1.0, 1e-9, 4.9e-9, 5.1e-9, 1 - 1e-9, 0.123456785, 0.5, 1e-300, 1 - 2 ** -53])
    return r.random()


def case(r):
    D, fl = flags(r)
    ta, weak, fail = thresholds(r)
    sep = r.choice(SEPS)
    d = r.choice([900, 901, 902])
    nk = NK[d]
    st = r.choice([0, 0, 1, 1, 2])
    seed = r.choice([0, 1, 12345, 4294967295, r.randint(1, 2 ** 32 - 1)])
    k = r.choice([0, 0, 3])
    Y = r.choice([0, 0, 0, 2])
    p = r.choice([1, 1, 1, 2, 3, 10, 55, 100, 230, None])
    t = r.choice([None, 1, 33, 100000])
    nt = r.choice([0, 0, 2, 17])
    xoff = r.choice([5, 130, 260])
    n0 = p if p is not None else PSD[d]
    args = D + ta + (['-c', sep] if sep != '|' or r.random() < 0.2 else []) + ['-d', r.choice([str(d), NAMES[d]])] + (['-s', str(st)] if st or r.random() < 0.2 else [])
    if Y:
        if '-X' not in ta:
            ta2 = ['-X', '0']
            fail = 0.0
            args += ta2
        else:
            args[args.index('-X') + 1] = '0'
            fail = 0.0
        args += ['-Y', '2', '-P', str(xoff)]
        rounds = []
        n = min(n0, xoff)
        while True:
            rounds.append(n)
            if n >= xoff: break
            n = min(n + 100, xoff)
    else:
        rounds = [n0]
    if seed: args += ['-S', str(seed)]
    if k: args += ['-k', str(k)]
    if p is not None: args += ['-p', str(p)]
    if t is not None: args += ['-t', str(t)]
    if nt: args += ['-n', str(nt)]
    fname = None
    if r.random() < 0.15:
        fname = r.choice(['some_file', '/tmp/with space'.replace(' ', '_'), 'x' * 60])
        args += ['-f', fname]
    args += ['-g', r.choice(['600', 'tape'])]
    q = r.choice([1, 1, 1.3, 0.8])
    pv = [[edge(r, weak, fail) if n0 == 1 or r.random() < 0.1 else r.random() ** q for _ in range(nk)] for _ in range(rounds[-1])]

    if Y:       # a final p-value of exactly zero is P06's known finding
        pv = [[x or 1e-9 for x in row] for row in pv]

    def groups(evs):
        tests = [e for e in evs if e['ev'] == 'test']
        i = max((i for i, e in enumerate(evs) if e['ev'] == 'seed'), default=None)
        return [dict(d=d, n=n, evs=tests, seed=evs[i]['s']) for n in rounds]
    num = 600 if args[-1] == '600' else None
    if num is None and fl & FL['show_num'] and fl & FL['show_rng']:
        args[-1] = '600'
    return dict(args=args, fl=fl, sep=sep, strategy=st, fname=fname, weak=weak, fail=fail, k=k, grng=('tape', 0), seed=seed, groups=groups, pv=pv, n=rounds[-1], d=d)


def one(c):
    return vlib.run_ev(ev, c['args'], pvals=[x for row in c['pv'] for x in row] if c['pv'] else None, fast=c.get('fast', False), timeout=200)


def finish(c, r, e, label):
    ck.evals += 1
    if r.timeout or r.rc != 0:
        ck.violation(label + ' ended', '%s: status %s %s' % (c['args'], r.rc, r.err[-300:]), {'args': c['args']})
        return
    tests = [x for x in e if x['ev'] == 'test']
    if c.get('n') is not None and len(tests) != c['n']:
        ck.violation(label + ' count', '%s: %d invocations, expected %d' % (c['args'], len(tests), c['n']), {'args': c['args']})
        return
    try:
        if c['seed'] and any(x['s'] != c['seed'] for x in e[-1:] if x['ev'] == 'seed'):
            raise Bad('seeded with something else than requested')
        n = verify(c, r, e)
    except Bad as b:
        if str(b) == 'SKIP':
            ck.inconclusive.append(str(c['args']))
            return
        what = re.sub(r"[\d.]+|'[^']*'", '#', str(b))[:60]
        ck.violation('%s %s' % (label, what), '%s: %s' % (' '.join(c['args']), b), {'args': c['args'], 'pvalues': c['pv'][:300] if c['pv'] else None, 'out': r.out[:4000]})
        return
    ck.count('rows_checked', n)
    ck.seen(' '.join(c['args']))


# the number shown for the generator: what the tree prints for the same generator selected by number
probe = vlib.run_ev(ev, ['-g', '600', '-d', '900', '-p', '1', '-S', '1', '-D', 'show_rng', '-D', 'show_num'], pvals=[0.5])[0]
gnum = probe.out.split('|')[1].strip() if '|' in probe.out else '?'

N = 900 if not vlib.THOROUGH else 15000
cases = [case(R) for _ in range(N)]
# every single flag by name and by number, every pair by sum
for name, v in FL.items():
    for a in (['-D', name], ['-D', str(v)]):
        c = case(R)
        while c['fl'] is None or '-D' in c['args']:
            c = case(R)
        c['args'] = a + c['args']
        c['fl'] = v
        if '600' not in c['args'] and v in (FL['show_num'], FL['show_rng']):
            c['args'][-1] = '600'
        cases.append(c)
for c in cases:
    c['grng'] = ('tape', gnum)
for c, (r, e) in zip(cases, vlib.pmap(one, cases)):
    finish(c, r, e, 'report')


# real registry: every test's row, bodies replaced
def fastcase(r, d):
    D, fl = flags(r)
    fl &= ~FL['description']
    D = ['-D', str(fl)] if fl else []
    if not fl:
        fl = report.DEFAULT
    ta, weak, fail = thresholds(r)
    sep = r.choice(SEPS)
    seed = r.randint(1, 10 ** 9)
    st = r.choice([0, 1])
    nt = r.choice([0, 4])
    if d == 'a':
        args = D + ta + ['-a', '-c', sep, '-S', str(seed), '-s', str(st), '-g', '600', '-m', '0.1']
    else:
        args = D + ta + ['-d', r.choice([str(d), NAMES[d]]), '-c', sep, '-S', str(seed), '-s', str(st), '-g', '600', '-p', str(r.choice([1, 3, 20]))] + (['-n', str(nt)] if nt else [])

    def groups(evs):
        out, sd = [], None
        for e in evs:
            if e['ev'] == 'seed':
                sd = e['s']
            else:
                if out and e['irun'] != 0 and out[-1]['d'] == e['d']:
                    out[-1]['evs'].append(e)
                else:
                    out.append(dict(d=e['d'], evs=[e], seed=sd))
        for g in out:
            g['n'] = len(g['evs'])
        return out
    return dict(args=args, fl=fl, sep=sep, strategy=st, fname=None, weak=weak, fail=fail, k=0, grng=('tape', gnum), seed=seed, groups=groups, pv=None, n=None, fast=True)


fc = [fastcase(R, d) for d in NAMES if d < 900 for _ in range(2 if not vlib.THOROUGH else 10)] + [fastcase(R, 'a') for _ in range(4 if not vlib.THOROUGH else 40)]
for c, (r, e) in zip(fc, vlib.pmap(one, fc)):
    finish(c, r, e, 'registry')


# file statistics
def fcase(r):
    fn = vlib.tmpname('.bin')
    w = r.randint(16, 3000)
    open(fn, 'wb').write(os.urandom(w * 4))
    D, fl = flags(r)
    fl |= FL['file_rng_stat']
    fl &= ~FL['rate']
    ts, p = r.randint(1, 400), r.choice([1, 3, 10])
    sep = r.choice(['|', ','])
    tot = ts * p
    args = ['-D', str(fl), '-c', sep, '-d', '900', '-t', str(ts), '-p', str(p), '-f', fn, '-g', '201', '-S', '1']

    def groups(evs):
        return [dict(d=900, n=p, evs=[e for e in evs if e['ev'] == 'test'], seed=None)]

    def filestat(g):
        rew = (tot - 1) // w
        o = ['# The %s file_input_raw %d rands (%d bytes) were used' % (fn, tot, tot * 4)]
        if rew == 0:
            o.append('# The file file_input_raw was rewound 0 times')
        return o
    return dict(args=args, fl=fl, sep=sep, strategy=0, fname=fn, weak=.005, fail=1e-6, k=0, grng=('file_input_raw', '201'), seed=0, groups=groups, pv=[[r.random()] for _ in range(p)], n=p,
                filestat=filestat, fn=fn)


gn = vlib.tmpname('.bin')
open(gn, 'wb').write(bytes(4096))
pr2 = vlib.run_ev(ev, ['-g', '201', '-f', gn, '-d', '900', '-t', '1', '-p', '1', '-S', '1', '-D', 'show_rng', '-D', 'show_num'], pvals=[0.5])[0]
g201 = pr2.out.split('|')[1].strip() if '|' in pr2.out else '?'
fcs = [fcase(R) for _ in range(60 if not vlib.THOROUGH else 600)]
for c in fcs:
    c['grng'] = ('file_input_raw', g201)
for c, (r, e) in zip(fcs, vlib.pmap(one, fcs)):
    finish(c, r, e, 'file')
    os.unlink(c['fn'])

# the flag listing names exactly the flags that exist
r = vlib.run([ev, '-F'])
ck.evals += 1
got = {m.group(2): int(m.group(1)) for m in re.finditer(r'^\s*(\d+)\s+(\w+)\s*$', r.out, re.M)}
if got != dict(FL, default=0):
    ck.violation('flag listing', '-F lists %s' % sorted(set(got.items()) ^ set(dict(FL, default=0).items())), {})
else:
    ck.seen('-F listing')
for a in (['-D', 'nosuch'], ['-D', 'pvalue'], ['-D', 'headerx'], ['-D', '8x']):
    r, e = vlib.run_ev(ev, a + ['-g', '600', '-d', '900', '-p', '1'], pvals=[0.5])
    ck.evals += 1
    if r.rc == 0 or any(x['ev'] == 'test' for x in e):
        ck.violation('bad flag accepted', '%s accepted' % a, {'args': a})
ck.finish(700, 500)
