"""P16: selection by number, by name and by battery mode all run the same tests."""
import os, sys, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
ck = vlib.Check('P16', rule='one evaluation = one run of the real program: a listing, a selection of a listed or unlisted test or generator by number or name, a battery run whose sequence of invocations, tuple sizes and printed rows is compared with the documented '
                'sequence, or a single run whose rows are compared with the rows of the battery; distinct = distinct command line whose comparison was made',
                assumptions=['an argument that starts with a digit is a number', 'generator names are compared in their first 20 characters', 'a test is named by the short name it is reported under'])
R = ck.rng
B = vlib.build('plain')
ev = vlib.evmain('plain')
NAMES = {0: 'diehard_birthdays', 1: 'diehard_operm5', 2: 'diehard_rank_32x32', 3: 'diehard_rank_6x8', 4: 'diehard_bitstream', 5: 'diehard_opso', 6: 'diehard_oqso', 7: 'diehard_dna',
         8: 'diehard_count_1s_stream', 9: 'diehard_count_1s_byte', 10: 'diehard_parking_lot', 11: 'diehard_2dsphere', 12: 'diehard_3dsphere', 13: 'diehard_squeeze', 14: 'diehard_sums',
         15: 'diehard_runs', 16: 'diehard_craps', 17: 'marsaglia_tsang_gcd', 100: 'sts_monobit', 101: 'sts_runs', 102: 'sts_serial', 200: 'rgb_bitdist', 201: 'rgb_minimum_distance',
         202: 'rgb_permutations', 203: 'rgb_lagged_sum', 204: 'rgb_kstest_test', 205: 'dab_bytedistrib', 206: 'dab_dct', 207: 'dab_filltree', 208: 'dab_filltree2', 209: 'dab_monobit2',
         210: 'dab_birthdays1', 211: 'dab_opso2'}
RF = str(report.ROWFLAGS)
QUIET = 'rate'
fraw = vlib.tmpname('.raw')
open(fraw, 'wb').write(R.randbytes(400000))
ftxt = vlib.tmpname('.txt')
open(ftxt, 'w').write('type: d\ncount: 2000\nnumbit: 32\n' + ''.join('%d\n' % R.getrandbits(32) for _ in range(2000)))

# ------------------------------------------------ listings
r = vlib.run([B.exe, '-l'])
ck.evals += 1
tests = {}
for l in r.out.splitlines():
    m = re.match(r'\s*-d (\d+)\s+(\S.*?)\s{2,}|\s*-d (\d+)\s+(\S.*?)\t', l)
    if m:
        tests[int(m.group(1) or m.group(3))] = m.group(2) or m.group(4)
if sorted(tests) != sorted(NAMES):
    ck.violation('test listing', 'the listing shows tests %s' % sorted(set(tests) ^ set(NAMES)), {})
ck.seen('-l')
gens = {}
for a in (['-g', '-1'], ['-g', '-1', '-d', '0']):
    r = vlib.run([B.exe] + a)
    ck.evals += 1
    g = {int(n): name.rstrip() for n, name in re.findall(r'\|\s*(\d\d\d) (.{20})', r.out.replace('|', '||'))}
    if r.rc != 0 or not g or (gens and g != gens):
        ck.violation('generator listing', 'generator listing %s: status %s, %d generators' % (a, r.rc, len(g)), {})
    gens = g
    ck.seen(a)
MUST = list(range(0, 60)) + [200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 400, 401, 402, 403, 404, 405]
if [m for m in MUST if m not in gens]:
    ck.violation('generator listing', 'generators missing from the listing: %s' % [m for m in MUST if m not in gens], {})
if len(set(gens.values())) != len(gens):
    ck.violation('generator names', 'two generators share a listed name', {'names': sorted(gens.values())})
ck.extra['listed'] = {'tests': len(tests), 'generators': len(gens)}


def genargs(sel, g):
    a = ['-g', sel]
    if g in (201, 202):
        a += ['-f', fraw if g == 201 else ftxt]
    if g == 207:
        a += ['-g', 205, '-g', 13]
    return a


def gsel(j):
    kind, g, sel = j
    a = genargs(sel, g)
    si = b'\x11\x22\x33\x44\x55\x66\x77\x88' * 1000 if g == 200 else None
    w = vlib.tmpname('.w')
    rr, e = vlib.run_ev(ev, a + ['-S', 12345, '-d', 900, '-p', 1, '-t', 40, '-D', 'show_rng', '-D', 'test_name', '-D', 'no_whitespace'], pvals=[0.5], env={'VP_WORDS': w}, stdin=si)
    words = open(w, 'rb').read() if os.path.exists(w) else b''
    return rr, e, words


# every listed generator, by number and by name
gj = [(k, g, g if k == 'number' else n) for g, n in sorted(gens.items()) for k in ('number', 'name')]
got = {}
for j, (rr, e, w) in zip(gj, vlib.pmap(gsel, gj)):
    ck.evals += 1
    kind, g, sel = j
    if rr.timeout:
        ck.inconclusive.append(str(j)); continue
    shown = [l for l in rr.out.splitlines() if l.startswith('#')]
    m = re.search(r'^#?\s*(.*\S)\s*$', '\n'.join(x for x in rr.out.splitlines() if not x.startswith('#=') and gens[g] in x), re.M)
    if len(e) < 1 or not [x for x in e if x['ev'] == 'test'] or len(w) != 160:
        ck.violation('generator %d by %s' % (g, kind), 'generator %d (%s) selected by %s %r did not run: status %s %s' % (g, gens[g], kind, sel, rr.rc, rr.err[-200:]), {'args': str(genargs(sel, g))}); continue
    lines = [l.strip('#| \t') for l in rr.out.splitlines()]
    if g != 207 and not any(gens[g] == l.split('|')[0].strip() for l in lines):
        ck.violation('generator name %d' % g, 'generator %d selected by %s %r is reported as %s' % (g, kind, sel, lines[:4]), {}); continue
    got[kind, g] = w
    ck.seen(('generator', kind, g)); ck.count('generators_selected')
for g in gens:
    a, b = got.get(('number', g)), got.get(('name', g))
    if a and b and g not in (500, 501) and a != b:
        ck.violation('generator %d two ways' % g, 'generator %d and %r deliver different numbers with the same seed' % (g, gens[g]), {})
seqs = {}
for g in gens:
    if ('number', g) in got and g not in (500, 501):
        seqs.setdefault(got['number', g], []).append(g)
ck.extra['distinct_generator_sequences'] = len(seqs)

# unlisted generators
bad = [g for g in range(0, 1003) if g not in gens and g != 600]
if not vlib.THOROUGH:
    bad = [g for g in bad if g in (62, 63, 64, 99, 100, 199, 210, 211, 299, 300, 399, 406, 407, 499, 502, 503, 504, 599, 601, 999, 1000, 1001)] + R.sample(bad, 40)
bad += [-1, -2, -1000, 2147483647, 2147483648, 4294967295, 4294967296, 4294967296 + 13, 4294967296 + 205, 2 ** 63 - 1, 2 ** 64 + 13, -2 ** 40, -(2 ** 32) + 13, 100000, 13 + 65536, 13 + 256]
for n in list(gens.values()):
    if R.random() < 0.5 or vlib.THOROUGH:
        bad.append(R.choice([n[:-1], n + 'x' if len(n) < 20 else n[:-1] + 'x', n.swapcase() if n.swapcase() not in gens.values() else n[1:] + '~', ' ' + n, n[1:] or 'q', n + ' ' if len(n) < 20 else n[:-2], n[:max(1, len(n) // 2)]]))
bad += ['', 'nosuch', 'mt', 'R_', 'x' * 19, 'x' * 126, 'x' * 127, 'x' * 128, 'x' * 500, '/dev/null', 'file', 'XOR', '#', '%s%n']
bad = [b for b in bad if b not in gens.values() and not (isinstance(b, str) and b[:1].isdigit())]


def refused(j):
    return vlib.run_ev(ev, ['-g', j, '-S', 1, '-d', 900, '-p', 1, '-t', 10], pvals=[0.5] * 4)


for j, (rr, e) in zip(bad, vlib.pmap(refused, bad)):
    ck.evals += 1
    if rr.timeout:
        ck.inconclusive.append(str(j)); continue
    if [x for x in e if x['ev'] == 'test'] or rr.sig or rr.rc not in (0, 1) or not (rr.out + rr.err).strip():
        ck.violation('unlisted generator', 'unlisted generator %r: status %s, %d test invocations' % (j, rr.rc, len(e)), {'generator': j})
    else:
        ck.seen(('no generator', j)); ck.count('unlisted_generators_refused')

# ------------------------------------------------ tests by number and name
tj = [(d, s) for d in sorted(tests) for s in (d, NAMES.get(d), '0%d' % d, '+%d' % d) if s is not None]
for (d, s), (rr, e) in zip(tj, vlib.pmap(lambda j: vlib.run_ev(ev, ['-g', 600, '-S', 3, '-d', j[1], '-p', 2, '-D', RF], fast=True), tj)):
    ck.evals += 1
    t = [x for x in e if x['ev'] == 'test']
    rows, why = report.rows(rr.out)
    if rr.timeout:
        ck.inconclusive.append(str(s)); continue
    if not t or set(x['d'] for x in t) != {d} or rr.rc != 0 or not rows or any(x['name'] != NAMES[d] or x['num'] != d for x in rows):
        ck.violation('test selection %s' % d, '-d %s ran %s and reported %s' % (s, sorted(set(x['d'] for x in t)), [(x['name'], x['num']) for x in rows or []][:2] or rr.err[-200:]), {'arg': s})
    else:
        ck.seen(('test', s)); ck.count('tests_selected')
badt = [d for d in range(0, 1003) if d not in tests and d not in (900, 901, 902)]
if not vlib.THOROUGH:
    badt = [d for d in badt if d in (18, 19, 99, 103, 104, 199, 212, 213, 600, 899, 903, 999, 1000, 1001)] + R.sample(badt, 30)
badt += [-1, -2, -200, 2147483647, 2147483648, 4294967295, 4294967296, 4294967296 + 5, 2 ** 63 - 1, 2 ** 64 + 2, -(2 ** 32) + 2, 65536 + 2, 256 + 2]
for n in NAMES.values():
    badt.append(R.choice([n[:-1], n + 'x', n.upper(), n.title(), ' ' + n, n[1:], n + ' ', n.split('_')[0]]))
badt += ['', 'nosuch', 'x' * 126, 'x' * 127, 'x' * 128, 'x' * 400, '%n%s', 'diehard', 'all'] + [tests[d] for d in tests if tests[d] not in NAMES.values()][:0]
badt = [b for b in badt if b not in NAMES.values() and not (isinstance(b, str) and b[:1].isdigit())]
for j, (rr, e) in zip(badt, vlib.pmap(lambda j: vlib.run_ev(ev, ['-g', 600, '-S', 3, '-d', j, '-p', 2, '-D', RF], fast=True), badt)):
    ck.evals += 1
    if rr.timeout:
        ck.inconclusive.append(str(j)); continue
    rows, _ = report.rows(rr.out)
    if [x for x in e if x['ev'] == 'test'] or rows or rr.sig or rr.rc != 1 or not rr.err.strip():
        ck.violation('unlisted test', '-d %r: status %s, %d test invocations, %r' % (j, rr.rc, len(e), rr.err[-100:]), {'arg': j})
    else:
        ck.seen(('no test', j)); ck.count('unlisted_tests_refused')


# ------------------------------------------------ the battery
def sequence(nt):
    s = [(d, nt) for d in range(0, 18)] + [(d, nt) for d in (100, 101, 102)]
    s += [(200, nt)] if nt else [(200, k) for k in range(1, 13)]
    s += [(201, nt if 2 <= nt <= 5 else 5)] if nt else [(201, k) for k in range(2, 6)]
    s += [(202, nt if nt >= 2 else 5)] if nt else [(202, k) for k in range(2, 6)]
    s += [(203, nt)] if nt else [(203, k) for k in range(0, 33)]
    return s + [(d, nt) for d in range(204, 212)]


def opts():
    a = ['-S', R.getrandbits(31) + 1, '-s', R.choice([0, 1, 1])]
    if R.random() < 0.4:
        a += ['-p', R.choice([1, 2, 3, 10, 101])]
    elif R.random() < 0.4:
        a += ['-m', R.choice([0.5, 1, 2, 0.1, 1.37])]
    if R.random() < 0.3:
        a += ['-t', R.choice([1, 7, 1000, 123456])]
    if R.random() < 0.4:
        a += ['-k', R.choice([0, 1, 2, 3])]
    if R.random() < 0.3:
        a += ['-L', R.choice([0, 1])]
    if R.random() < 0.3:
        a += ['-W', '0.3', '-X', '0.1']
    if R.random() < 0.25:
        a += ['-Y', R.choice([1, 2]), '-P', R.choice([100, 300]), '-x', 20]
    return a


def grouped(e):
    """[(d, tuple)] of consecutive invocations, split where the index restarts at 0"""
    out = []
    for x in e:
        if x['ev'] != 'test':
            continue
        if not out or x['irun'] == 0 or out[-1][0] != x['d'] or out[-1][1] != x['gnt']:
            out.append((x['d'], x['gnt']))
    return out


def rowkey(x):
    return (x['name'], x['num'], x['nt'], x['ts'], x['ps'], x['p'], x['a'])


for i in range(24 if not vlib.THOROUGH else 300):
    nt = 0 if i % 2 == 0 else R.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 32, 33])
    o = opts()
    g = R.choice([600, 600, 13, 205, 'mt19937', 'R_knuth_taocp'])
    base = ['-g', g] + o + (['-n', nt] if nt else [])
    R.random()
    pos = R.randint(0, 1)
    full = (['-a'] + base if pos else base + ['-a']) + ['-D', RF]
    rr, e = vlib.run_ev(ev, full, fast=True, timeout=300)
    ck.evals += 1
    if rr.timeout:
        ck.inconclusive.append(str(full)); continue
    seq = sequence(nt)
    g1 = grouped(e)
    if rr.rc != 0 or g1 != seq:
        k = next((k for k, (x, y) in enumerate(zip(g1, seq)) if x != y), min(len(g1), len(seq)))
        ck.violation('battery sequence', '%s: status %s; step %d of the battery ran %s, expected %s (%d steps, expected %d)' % (' '.join(map(str, full)), rr.rc, k, g1[k:k + 2], seq[k:k + 2], len(g1), len(seq)), {'args': full}); continue
    rows, why = report.rows(rr.out)
    if rows is None:
        ck.violation('battery rows', '%s: unexpected line %r' % (' '.join(map(str, full)), why), {'args': full}); continue
    # rows, in order, one block per step
    blocks = []
    k = 0
    for d, n in seq:
        b = []
        while k < len(rows) and rows[k]['num'] == d and rows[k]['nt'] == n:
            b.append(rows[k]); k += 1
        blocks.append(b)
    if k != len(rows) or any(len(b) == 0 or any(x['num'] != d or x['name'] != NAMES[d] for x in b) for b, (d, n) in zip(blocks, seq)):
        ck.violation('battery rows', '%s: the rows do not follow the sequence of the battery' % ' '.join(map(str, full)), {'args': full}); continue
    ck.seen(full); ck.count('battery_steps', len(seq)); ck.count('battery_rows', len(rows))
    pick = R.sample(range(len(seq)), 10 if not vlib.THOROUGH else 30)

    def single(k):
        d, n = seq[k]
        sel = R.choice([d, NAMES[d]])
        a = [x for x in base]
        if '-n' in a:
            q = a.index('-n'); del a[q:q + 2]
        for w in ('-p', '-t'):      # the battery runs every test at its own sizes
            if w in a:
                q = a.index(w); del a[q:q + 2]
        a = a + (['-n', n] if n else []) + ['-d', sel, '-D', RF]
        return a, vlib.run_ev(ev, a, fast=True, timeout=300)
    for k, (a, (r1, e1)) in zip(pick, vlib.pmap(single, pick)):
        ck.evals += 1
        if r1.timeout:
            ck.inconclusive.append(str(a)); continue
        rs, why = report.rows(r1.out)
        if rs is None or [rowkey(x) for x in rs] != [rowkey(x) for x in blocks[k]]:
            ck.violation('battery row of test %d' % seq[k][0], 'battery row(s) of test %s: %s; alone (%s): %s' % (seq[k], [rowkey(x) for x in blocks[k]][:2], ' '.join(map(str, a)), [rowkey(x) for x in rs or []][:2]), {'args': full, 'single': a})
        else:
            ck.seen(a); ck.count('rows_equal_alone', len(rs))

# ------------------------------------------------ real test bodies, reseeded per test: battery rows against single runs
SZ = {0: 30, 1: 500, 2: 50, 3: 60, 4: 0, 5: 0, 6: 0, 7: 0, 8: 2000, 9: 2000, 10: 0, 11: 0, 12: 0, 13: 300, 14: 30, 15: 300, 16: 100, 17: 3000, 100: 300, 101: 300, 102: 100, 200: 300, 201: 50, 202: 300, 203: 100,
      204: 100, 205: 1500, 206: 30, 207: 1000, 208: 1000, 209: 1500, 210: 50, 211: 0}
RG = [['-g', 13], ['-g', 205], ['-g', 206], ['-g', 403], ['-g', 204], ['-g', 22], ['-g', 41], ['-g', 'Threefish_OFB'], ['-g', 208], ['-g', 404], ['-g', 207, '-g', 205, '-g', 40]]
for i in range(5 if not vlib.THOROUGH else 60):
    heavy = i == 0
    dd = [d for d in sorted(NAMES) if heavy or d not in (4, 5, 6, 7, 211, 17)]
    seed = R.getrandbits(31) + 1
    df = ','.join('%d:%d:%d' % (d, SZ[d] if not SZ[d] else R.randint(SZ[d], SZ[d] * 2), 1 if d in (4, 5, 6, 7, 211) else R.randint(1, 3)) for d in dd if SZ[d] or d in (10, 11, 12))
    df = ','.join(x for x in df.split(',') if int(x.split(':')[0]) not in (10, 11, 12))
    env = {'VP_ONLY': ','.join(map(str, dd)), 'VP_DEF': df}
    nt = 0 if i % 2 == 0 else R.choice([2, 3, 4, 5])
    base = R.choice(RG) + ['-S', seed, '-s', 1, '-L', R.choice([0, 1]), '-k', R.choice([0, 0, 2]), '-D', RF]
    full = ['-a'] + base + (['-n', nt] if nt else [])
    rr, e = vlib.run_ev(ev, full, env=env, timeout=400)
    ck.evals += 1
    if rr.timeout:
        ck.inconclusive.append(str(full)); continue
    seq = [x for x in sequence(nt) if x[0] in dd]
    rows, why = report.rows(rr.out)
    if rr.rc != 0 or rows is None or grouped(e) != seq:
        ck.violation('battery with real tests', '%s: status %s, %s, %d steps of %d; %s' % (' '.join(map(str, full)), rr.rc, why, len(grouped(e)), len(seq), rr.err[-200:]), {'args': full, 'env': env}); continue
    nk = {x['d']: len(x['p']) for x in e if x['ev'] == 'test'}
    sizes = {}
    for x in e:
        if x['ev'] == 'test' and x['irun'] == 0:
            sizes.setdefault((x['d'], x['gnt']), []).append(len(x['p']))
    ck.seen(full)

    def alone(q):
        d, n = q
        a = base + (['-n', n] if n else []) + ['-d', d]
        return a, vlib.run_ev(ev, a, env=env, timeout=300)
    k = 0
    for q, (a, (r1, e1)) in zip(seq, vlib.pmap(alone, seq)):
        ck.evals += 1
        rs, why = report.rows(r1.out)
        if r1.timeout or rs is None:
            ck.inconclusive.append(str(a)); break
        mine = rows[k:k + len(rs)]
        k += len(rs)
        if [rowkey(x) for x in rs] != [rowkey(x) for x in mine] or not rs:
            ck.violation('battery differs from single run, test %d' % q[0], 'battery row(s) of test %s: %s; alone (%s): %s' % (q, [rowkey(x) for x in mine][:2], ' '.join(map(str, a)), [rowkey(x) for x in rs][:2]), {'args': full, 'single': a, 'env': env})
            break
        ck.seen(a); ck.count('real_rows_equal_alone', len(rs))
    else:
        if k != len(rows):
            ck.violation('battery rows', 'the battery printed %d rows, the single runs %d' % (len(rows), k), {'args': full})
ck.finish(700, 600)
