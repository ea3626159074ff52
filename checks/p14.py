"""P14: memory safety, absence of undefined behaviour, no leaks per repetition."""
import os, sys, json, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, statcheck, report, kerngen
ck = vlib.Check('P14', rule='one evaluation = one execution of a real test, generator, kernel or complete run under AddressSanitizer + UndefinedBehaviorSanitizer, under valgrind memcheck, under two builds with different initial memory '
                'contents whose outcomes are compared, or under an allocation/file-handle monitor; distinct = distinct scenario that ran to its end',
                assumptions=['generators of at least 8 bits (the narrowest registered one has 15)', 'GSL and libc are trusted', 'a test that keeps drawing on a degenerate stream is cut off after a fixed number of words (the watchers saw it run)'])
R = ck.rng
asan = vlib.build('asan')
plain = vlib.build('plain')
mona = statcheck.build_mon('asan')
monp = statcheck.build_mon('plain')
mono = statcheck.build_mon('o0')
eva = vlib.evmain('asan')
TESTS = list(range(0, 18)) + [100, 101, 102] + list(range(200, 212))
LEAK = {'ASAN_OPTIONS': vlib.ASAN_ENV['ASAN_OPTIONS']}


def faulty(r):
    """the watcher's report, or None"""
    if r.sig:
        return 'signal %d' % r.sig
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*)', r.err)
    if m:
        fr = re.findall(r'#\d+ 0x\w+ in (\w+) [^\n]*?(\w+\.c:\d+)', r.err)
        return m.group(1) + ' at ' + ' < '.join('%s %s' % x for x in fr[:3])
    if r.rc in (97, 98, 99):
        return 'status %d: %s' % (r.rc, r.err[-400:])
    return None


def site(msg):
    m = re.search(r' at (\w+)', msg)
    return (m.group(1) if m else '') + ' ' + re.sub(r'0x\w+|\d+', 'N', msg.split(' at ')[0])[:80]


# ------------------------------------------------ tests under ASan + UBSan
def small(d):
    """usable but unusual sizes: the smallest, the boundaries, odd tuple sizes"""
    sc = statcheck.spec(d, R)
    k = R.random()
    if k < 0.5:
        sc['ts'] = R.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, R.randint(1, 2000)])
    elif sc['ts'] > 60000:
        sc['ts'] = R.randint(1, 60000)
    if d in (4, 5, 6, 7) and R.random() < 0.25:
        sc['ts'] = R.choice([0, 2097152, 2097152 + R.randint(-5000, 5000), R.randint(1, 3000000)])
    if d in (1, 8, 9, 15, 16, 13, 17, 102, 205, 207, 208) and R.random() < 0.15:
        sc['ts'] = R.randint(60000, 400000)
    if d in (11, 10, 12, 211) and R.random() < 0.4:
        sc['ts'] = 0
    if d == 206:
        ln = sc['nt'] or 256
        sc['ts'] = min(sc['ts'], max(12, int(3e6 // (ln * ln))))
    if d == 200:
        sc['nt'] = R.choice([0, 1, 2, 5, 8, 12, 16, 20, R.randint(1, 20)]); sc['ts'] = min(sc['ts'], 3000)
    if d == 201:
        sc['nt'] = R.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 20]); sc['ts'] = min(sc['ts'], 500)
    if d == 202:
        sc['nt'] = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
    if d == 203:
        sc['nt'] = R.choice([0, 1, 5, 32, 100, R.randint(0, 1000)]); sc['ts'] = min(sc['ts'], 2000)
    if d in (207, 208, 209, 210):
        sc['nt'] = R.choice([0, 0, sc['nt'], 1, 2, 3, 5, 16, 31, 32, 33, 64, 100])
    if d == 204:
        sc['ts'] = min(sc['ts'], 3000)
    if d == 102:
        sc['ts'] = min(sc['ts'], 4000)
    if d == 14:
        sc['ts'] = min(sc['ts'], 400)
    sc['ov'] = R.choice([0, 1, 1])
    sc['ps'] = R.choice([1, 2, 3, 5])
    sc['ks'] = R.choice([0, 0, 0, 1, 2]) if d not in (204, 206) else 0
    if R.random() < 0.35:
        pat = R.choice(['const', 'low', 'high', 'extreme', 'alphabet', 'alt', 'saw', 'repeat'])
        sc['pat'] = statcheck.PATS.index(pat)
        sc['p1'] = R.choice([0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 3, 17]) if pat in ('const', 'alt') else R.choice([1, 2, 3, 5, 17, 31])
        if pat in ('saw', 'repeat', 'alphabet', 'extreme'):
            sc['p1'] = max(2, sc['p1'])
    if R.random() < 0.2:
        sc['min'], sc['max'] = R.choice([(0, 255), (1, 254), (0, 1000), (0, 32766), (0, 65535), (0, 0x7fffffff), (1, 0xffffffff), (0, 0xfffffffe), (0, 0x80000000)])
    sc['oracle'] = 0
    sc['cap'] = 3000000
    return sc


jobs = []
for d in TESTS:
    for i in range(20 if not vlib.THOROUGH else 700):
        sc = small(d)
        if i == 0:
            sc.update(min=0, max=0xffffffff, pat=0)
        jobs.append(sc)
# complete test sequences in one process: what one test leaves behind must not harm the next
for _ in range(60 if not vlib.THOROUGH else 800):
    pre = []
    for _ in range(R.randint(1, 4)):
        s = small(R.choice(TESTS))
        if s['ts'] > 5000 or s['d'] in (4, 5, 6, 7, 211, 17):
            s['ts'] = R.randint(20, 3000)
        pre.append('%d:%d:%d:%d' % (s['d'], s['ts'], 1, s['nt']))
    sc = small(R.choice([d for d in TESTS if d not in (4, 5, 6, 7)]))
    sc.update(min=0, max=0xffffffff, pat=0, pre=';'.join(pre))
    jobs.append(sc)


def mon(exe, sc, env=None, timeout=60):
    return vlib.run([exe] + statcheck.args(sc), timeout=timeout, env=env, retry_timeout=False)


per = {}
for sc, r in zip(jobs, vlib.pmap(lambda s: mon(mona, s), jobs)):
    ck.evals += 1
    bad = faulty(r) if not r.timeout else None
    st = per.setdefault(str(sc['d']), dict(run=0, cut=0, words=0, ended=0))
    if bad:
        ck.violation('test %d %s' % (sc['d'], site(bad)), 'test %d: %s on %s' % (sc['d'], bad, json.dumps(sc)), sc); continue
    if r.timeout:
        ck.inconclusive.append('timeout ' + json.dumps(sc)); continue
    if r.rc != 0:      # an orderly refusal of sizes the test cannot use
        st['ended'] += 1
        if not r.err.replace('ORACLE-DONE', '').strip():
            ck.violation('test %d silent end' % sc['d'], 'test %d ended with status %s and no message on %s' % (sc['d'], r.rc, json.dumps(sc)), sc)
        continue
    if 'runaway' in r.out:
        st['run'] += 1; st['cut'] += 1
        ck.seen(sc); continue
    try:
        j = json.loads(r.out[r.out.index('{'):])
    except ValueError:
        st['ended'] += 1      # exit inside the test, with its message
        if not r.err.replace('ORACLE-DONE', '').strip():
            ck.violation('test %d silent end' % sc['d'], 'test %d ended without a message on %s' % (sc['d'], json.dumps(sc)), sc)
        continue
    st['run'] += 1
    st['words'] += j['words']
    ck.seen(sc)
ck.extra['per_test'] = per

# ------------------------------------------------ uninitialised storage: valgrind, and two builds with different garbage
vj = []
for d in TESTS:
    for i in range(2 if not vlib.THOROUGH else 25):
        sc = small(d)
        sc['ts'] = min(sc['ts'] or 300, {206: 20, 102: 60, 14: 30, 204: 100, 201: 60, 11: 60, 10: 100, 12: 50}.get(d, 700))
        if d in (4, 5, 6, 7):
            sc['ts'] = R.choice([1, 50, 3000])
        if d == 211:
            if i:
                continue
            sc['ts'] = 0
        if d == 200:
            sc['nt'] = min(sc['nt'], 8)
        if d == 206:
            sc['nt'] = R.choice([2, 8, 32])
        sc['ps'] = R.choice([1, 2])
        sc['cap'] = 60000
        if d == 211:
            sc.update(ps=1, cap=0, min=0, max=0xffffffff, pat=0)
        vj.append(sc)


def vg(sc):
    return vlib.run(['valgrind', '-q', '--error-exitcode=97', '--undef-value-errors=yes', '--leak-check=no', '--num-callers=6', '--main-stacksize=16777216', '--max-stackframe=16777216', '--errors-for-leak-kinds=none', monp] + statcheck.args(sc),
                    timeout=150, retry_timeout=False)


vseen = 0
order = sorted(vj, key=lambda s: s['d'] != 211)
for sc, r in zip(order, vlib.pmap(vg, order)):
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append('valgrind timeout ' + json.dumps(sc)); continue
    if r.rc == 97 or r.sig:
        m = re.search(r'==\d+== (Conditional|Use of|Invalid|Syscall|Argument|Source and)[^\n]*', r.err)
        fr = re.findall(r'(?:at|by) 0x\w+: (\w+)', r.err)
        ck.violation('test %d memcheck %s' % (sc['d'], fr[0] if fr else ''), 'test %d: %s in %s on %s' % (sc['d'], m.group(0) if m else r.err[-300:], fr[:3], json.dumps(sc)), sc)
    else:
        vseen += 1
        ck.seen(('valgrind', sc))
ck.extra['memcheck_runs'] = vseen

dj = []
for d in TESTS:
    for i in range(3 if not vlib.THOROUGH else 60):
        sc = small(d)
        sc['cap'] = 1000000
        dj.append(sc)


def diff(sc):
    a = mon(monp, sc, env={'MALLOC_PERTURB_': '165'}, timeout=40)
    b = mon(mono, sc, env={'MALLOC_PERTURB_': '90'}, timeout=90)
    return a, b


def outcome(r):
    t = re.sub(r'"words":\d+', '', r.out)
    return [round(x, 7) if isinstance(x, float) else x for x in nums(t)], r.rc


def nums(t):
    out = []
    for x in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?|nan|inf|[a-z]{3,}', t):
        try:
            out.append(float(x))
        except ValueError:
            out.append(x)
    return out


nd = 0
for sc, (a, b) in zip(dj, vlib.pmap(diff, dj)):
    ck.evals += 1
    if a.timeout or b.timeout:
        ck.inconclusive.append('diff timeout ' + json.dumps(sc)); continue
    oa, ob = outcome(a), outcome(b)
    same = oa[1] == ob[1] and len(oa[0]) == len(ob[0]) and all(x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-6 + 1e-6 * abs(x)) or (x != x and y != y) for x, y in zip(*(oa[0], ob[0])))
    if not same:
        ck.violation('test %d depends on garbage' % sc['d'], 'test %d gives different results in two builds with different initial memory contents: %s / %s on %s' % (sc['d'], a.out[-300:], b.out[-300:], json.dumps(sc)), sc)
    else:
        nd += 1
        ck.seen(('differential', sc))
ck.extra['differential_runs'] = nd

# ------------------------------------------------ generators, bit drawing, kernels
gm = asan.harness('genmon', ['genmon.c'])
gens = [g for g in list(range(0, 62)) + [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405, 500, 501]]
gj = []
for g in gens:
    t = ['a %d' % g]
    for _ in range(R.randint(3, 8)):
        t += ['s %d' % R.choice([0, 1, 0xffffffff, R.getrandbits(32)]), '%s %d' % (R.choice('gu'), R.randint(1, 700)), 'G %d' % R.randint(1, 3000)]
    t += ['f', 'a %d' % g, 's 3', 'g 5']
    gj.append((g, t))
for (g, t), r in zip(gj, vlib.pmap(lambda j: vlib.run([gm], stdin=('\n'.join(j[1]) + '\n').encode()), gj)):
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append('generator %d' % g); continue
    bad = faulty(r)
    if bad or r.rc not in (0, 4):
        ck.violation('generator %d %s' % (g, site(bad or 'status')), 'generator %d: %s on %s' % (g, bad or r.rc, t[:6]), {'script': t})
    elif r.rc == 0:
        ck.seen(('generator', g, t))
bm = asan.harness('bitmon', ['bitmon.c'])
bj = [R.getrandbits(30) for _ in range(8 if not vlib.THOROUGH else 200)]
for s, r in zip(bj, vlib.pmap(lambda s: vlib.run([bm, 'seed=%d' % s, 'hist=60'], timeout=120), bj)):
    ck.evals += 1
    bad = faulty(r)
    if bad:
        ck.violation('bits ' + site(bad), 'bit drawing, seed %d: %s' % (s, bad), {'seed': s})
    elif not r.timeout:
        ck.seen(('bits', s))
kerngen.R = R
kn = asan.harness('kern', ['kern.c'])
kj = []
for _ in range(16 if not vlib.THOROUGH else 200):
    cs = [g for g in (kerngen.gen() for _ in range(150)) if g]
    for q in range(20):
        n = R.choice([1, 2, 3, 10, 100, 300]) if q else R.choice([999, 1000, 1001, 4999, 5000, 5001])
        m = R.choice([0, 0, 1, 2, 3])
        if m in (1, 2):
            n = min(n, 200)
        x = R.choice([None, 0.0, 1.0, 0.5, 1e-300])
        cs.append(('K', 'K %d %d %s' % (m, n, ' '.join('%.17g' % (R.random() if x is None else x) for _ in range(n))), 0))
    kj.append(cs)
for cs, r in zip(kj, vlib.pmap(lambda cs: vlib.run([kn], stdin=('\n'.join(c[1] for c in cs) + '\n').encode(), timeout=200), kj)):
    ck.evals += 1
    bad = faulty(r) if not r.timeout else None
    if bad:
        ck.violation('kernel ' + site(bad), 'statistical kernel: %s' % bad, {'commands': [c[1] for c in cs]})
    elif not r.timeout:
        ck.count('kernel_calls', len(cs)); ck.seen(('kernels', hash(tuple(c[1] for c in cs))))

# ------------------------------------------------ complete runs of the program
FLAGS = [0, 511, 0x3ffff, report.ROWFLAGS]
cj = []
words = struct.pack('<4000I', *[R.getrandbits(32) for _ in range(4000)])
fraw, ftxt = vlib.tmpname('.raw'), vlib.tmpname('.txt')
open(fraw, 'wb').write(words)
open(ftxt, 'w').write('type: u\ncount: 3000\nnumbit: 32\n' + ''.join('%d\n' % R.getrandbits(32) for _ in range(3000)))
SMALL = {0: 30, 1: 500, 2: 50, 3: 60, 4: 2000, 5: 2000, 6: 2000, 7: 2000, 8: 2000, 9: 2000, 10: 0, 11: 0, 12: 0, 13: 300, 14: 30, 15: 300, 16: 100, 17: 3000, 100: 300, 101: 300, 102: 100, 200: 300, 201: 50, 202: 300, 203: 100, 204: 100, 205: 1500, 206: 30, 207: 1000, 208: 1000, 209: 1500, 210: 50, 211: 0}
DEF = ','.join('%d:%d:%d' % (d, t or {10: 12000, 11: 8000, 12: 4000, 211: 0}[d], 2) for d, t in SMALL.items() if d not in (10, 11, 12, 211))
NOT = [10, 11, 12, 211, 206]
ONLY = ','.join(str(d) for d in TESTS if d not in NOT)
for i in range(90 if not vlib.THOROUGH else 1500):
    g = R.choice([['-g', R.choice([13, 14, 203, 204, 205, 206, 208, 209, 400, 403, 404, 405, 501, 2, 3, 5, 20, 40])], ['-g', 201, '-f', fraw], ['-g', 202, '-f', ftxt], ['-g', 207, '-g', 205, '-g', R.choice([13, 206, 400])], ['-g', 200]])
    a = g + ['-D', R.choice(FLAGS), '-k', R.choice([0, 0, 1, 2, 3])]
    if R.random() < 0.8:
        a += ['-S', R.getrandbits(31) + 1]
    a += R.choice([[], ['-s', 1], ['-c', ','], ['-W', '0.01', '-X', '0.001'], ['-L', 0], ['-L', 1]])
    env = {}
    if i % 6 == 0:
        a += ['-a']
        if R.random() < 0.5:
            a += ['-m', R.choice([0.5, 1, 2])]
        env = {'VP_ONLY': ONLY, 'VP_DEF': DEF}
    else:
        d = R.choice(TESTS)
        a += ['-d', d, '-p', R.choice([1, 2, 3, 10]) if d not in (4, 5, 6, 7, 10, 11, 12, 211, 206) else 1]
        t = SMALL[d]
        if t:
            a += ['-t', R.choice([t, t + 1, R.randint(1, 2 * t)])]
        if d in (200, 201, 202, 203):
            a += ['-n', R.choice([1, 2, 3, 5])]
        a += R.choice([[], [], ['-Y', 1, '-P', 500], ['-Y', 2, '-P', 300]] if d in (0, 2, 15, 100, 101, 200, 203) and t and t < 600 else [[]])
    cj.append((a, env, R.randbytes(400000) if '200' in map(str, g) and g[1] == 200 else None))


def whole(j):
    a, env, si = j
    return vlib.run_ev(eva, a, env=env, stdin=si, timeout=200)


for (a, env, si), (r, e) in zip(cj, vlib.pmap(whole, cj)):
    ck.evals += 1
    brief = ' '.join(map(str, a)).replace(fraw, 'RAW').replace(ftxt, 'TXT')
    if r.timeout:
        ck.inconclusive.append(brief); continue
    bad = faulty(r)
    if bad:
        ck.violation('program ' + site(bad), '%s: %s' % (brief, bad), {'args': brief, 'env': env}); continue
    ck.count('program_test_invocations', len(e))
    ck.seen(('program', brief))

# ------------------------------------------------ growth per repetition
lm = plain.harness('leakmon', ['leakmon.c'])
lj = []
for d in TESTS:
    t = SMALL[d]
    k = 4 if d in (4, 5, 6, 7, 211, 10, 11, 12) else 24
    nt = {200: 3, 201: 3, 202: 4, 203: 5}.get(d, 0)
    lj += [['test', d, t, nt, k], ['std', d, t, nt, k]]
    if d in (200, 201, 202, 203):
        lj.append(['test', d, t, nt + 2, k])
for g in gens + [207]:
    if g != 207:
        lj.append(['seed', g, 40])
lj += [['seed', 201, 40, fraw], ['seed', 202, 40, ftxt]]
for j, r in zip(lj, vlib.pmap(lambda j: vlib.run([lm] + [str(x) for x in j], timeout=150), lj)):
    ck.evals += 1
    brief = ' '.join(map(str, j)).replace(fraw, 'RAW').replace(ftxt, 'TXT')
    if r.timeout:
        ck.inconclusive.append('leak ' + brief); continue
    if r.rc != 0 or not r.out.strip():
        if j[0] == 'seed':
            continue
        ck.violation('leak probe ' + ' '.join(map(str, j[:2])), '%s: status %s %s' % (brief, r.rc, r.err[-300:]), {}); continue
    b, fdn = map(int, r.out.split()[-2:])
    k = j[4] if j[0] != 'seed' else j[2]
    if b >= 16 * k or fdn >= max(2, k // 2):
        ck.violation('leak %s %d' % (j[0], j[1]), '%s: %d bytes and %d open files more after %d repetitions' % (brief, b, fdn, k), {'args': brief})
    else:
        ck.count('leak_probes'); ck.seen(('leak', brief))
ck.finish(900, 700)
