"""P11: dumped random numbers are exactly the generator's output and round-trip."""
import os, sys, re, struct, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
ck = vlib.Check('P11', rule='one evaluation = one dump written by the real program and compared number by number (and header field by header field) with the generator driven directly through the library, or one dump read back as input with every '
                'delivered number (or the result rows) compared; non-trivial = at least one number compared',
                assumptions=['sizes that fit in memory', 'the real format is compared at its printed precision', 'equal result rows are demanded for generators whose integers fill 32 bits and whose deviate is the integer over 2^32-1, or for tests that draw integers only'])
R = ck.rng
B = vlib.build('plain')
exe, exea = B.exe, vlib.build('asan').exe
gm = B.harness('genmon', ['genmon.c'])
ev = vlib.evmain('plain')
PRIV = [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405]
GENS = [g for g in range(0, 62)] + PRIV * 3


def direct(g, s, kind, n):
    r = vlib.run([gm], stdin=('a %d\ns %d\n%s %d\n' % (g, s, kind, n)).encode(), timeout=200)
    if r.rc != 0:
        return None
    ls = r.out.split('\n')
    nm, mn, mx = ls[0].split('|')
    body = ls[1:1 + n]
    return nm, int(mn), int(mx), ([int(x, 16) for x in body] if kind == 'g' else [float(x) for x in body])


NAMES = {}
for g, d in zip(sorted(set(GENS)), vlib.pmap(lambda g: direct(g, 1, 'g', 1), sorted(set(GENS)))):
    if d:
        NAMES[g] = d[0]
GENS = [g for g in GENS if g in NAMES]


def case(i):
    g = GENS[i % len(GENS)] if i < len(GENS) else R.choice(GENS)
    return dict(g=g, s=R.choice([0, 1, R.getrandbits(32) or 1, R.getrandbits(31) or 1, 0xffffffff, 0x80000000]), n=R.choice([1, 2, 3, 4, 5, 16, 17, 1023, 1024, 1025, R.randint(1, 500), R.randint(500, 5000), R.choice([40000, 70000])]),
                fmt=R.choice([0, 0, 1, 1, 2, 2, 'B', None]), where=R.choice(['file', 'file', 'out', 'dash', 'old']), byname=R.random() < 0.3, asan=R.random() < 0.1, extra=R.choice([[], [], ['-s', '1'], ['-p', '7'], ['-d', '2'], ['-m', '5'], ['-D', '511']]))


def argv(c, fn):
    a = ['-o', '-t', str(c['n']), '-g', NAMES[c['g']] if c['byname'] else str(c['g'])]
    if c['fmt'] == 'B':
        a += ['-B']
    elif c['fmt'] is not None:
        a += ['-O', str(c['fmt'])]
    if c['s']:
        a += ['-S', str(c['s'])]
    if c['where'] in ('file', 'old'):
        a += ['-f', fn]
    elif c['where'] == 'dash':
        a += ['-f', '-']
    return a + c['extra']


def dump(c):
    fn = vlib.tmpname('.dump')
    if c['where'] == 'old':
        open(fn, 'wb').write(b'old content\n' * 100000)
    a = argv(c, fn)
    r = vlib.run([exea if c['asan'] else exe] + a, binary=True, timeout=100)
    data = r.out
    other = b''
    if c['where'] in ('file', 'old'):
        other = r.out
        data = open(fn, 'rb').read() if os.path.exists(fn) else None
    if os.path.exists(fn):
        os.unlink(fn)
    fmt = {'B': 0, None: -1}.get(c['fmt'], c['fmt'])
    seed, d = c['s'], None
    if data is not None and not r.timeout:
        m = re.search(rb'seed = (\d+)', data[:400])
        if fmt and m and not seed:
            seed = int(m.group(1))
        if seed:
            d = direct(c['g'], seed, 'u' if fmt == 2 or (fmt == -1 and b'type: f' in data[:400]) else 'g', c['n'])
    return r, data, other, fmt, seed, d, a


def parse(data):
    """header dict and body lines of a formatted dump"""
    ls = data.decode('latin-1').split('\n')
    h, i = {}, 0
    for i, l in enumerate(ls):
        if l.startswith('#'):
            m = re.match(r'# generator (.*)  seed = (\d+)$', l)
            if m:
                h['generator'], h['seed'] = m.group(1), int(m.group(2))
            continue
        m = re.match(r'(type|count|numbit): (\S+)$', l)
        if not m:
            break
        h[m.group(1)] = m.group(2)
    return h, ls[i:]


cases = [case(i) for i in range(330 if not vlib.THOROUGH else 6000)]
for c, (r, data, other, fmt, seed, d, a) in zip(cases, vlib.pmap(dump, cases)):
    ck.evals += 1
    brief = ' '.join(a)
    brief = re.sub(r'-f /\S+', '-f FILE', brief)
    rep = dict(c, args=brief)
    if r.timeout:
        ck.inconclusive.append(brief); continue
    if r.rc != 0 or data is None:
        ck.violation('dump ended', '%s: status %s, file %s, %s' % (brief, r.rc, data is not None, r.err[-300:]), rep); continue
    if other:
        ck.violation('dump stdout', '%s: %d bytes on standard output although a file was named' % (brief, len(other)), rep); continue
    if fmt == -1:      # the default format is the text one
        fmt = 2 if b'type: f' in data[:400] else 1
    if fmt == 0:
        if len(data) != 4 * c['n']:
            ck.violation('binary length', '%s: %d bytes for %d numbers' % (brief, len(data), c['n']), rep); continue
        if not seed:
            ck.count('binary_random_seed'); continue
        want = d[3]
        got = list(struct.unpack('<%dI' % c['n'], data))
        if got != [w & 0xffffffff for w in want]:
            i = next(i for i in range(c['n']) if got[i] != want[i])
            ck.violation('binary numbers', '%s: number %d is %d, the generator gives %d' % (brief, i, got[i], want[i]), rep); continue
    else:
        h, body = parse(data)
        if h.get('generator') != NAMES[c['g']] or (c['s'] and h.get('seed') != c['s']) or h.get('count') != str(c['n']) or h.get('numbit') != '32' or h.get('type') != {1: 'd', 2: 'f'}[fmt]:
            ck.violation('header', '%s: header %s' % (brief, h), rep); continue
        if not h.get('seed'):
            ck.violation('header', '%s: header names seed %s' % (brief, h.get('seed')), rep); continue
        if body and body[-1] == '':
            body.pop()
        else:
            ck.violation('text end', '%s: the last line is not terminated' % brief, rep); continue
        if len(body) != c['n']:
            ck.violation('count', '%s: %d numbers written' % (brief, len(body)), rep); continue
        if fmt == 1:
            ok = [re.fullmatch(r' *\d+', b) is not None and int(b) == w for b, w in zip(body, d[3])]
        else:
            ok = [re.fullmatch(r' *[01]\.\d{10}', b) is not None and b.strip() == '%.10f' % w for b, w in zip(body, d[3])]
        if not all(ok):
            i = ok.index(False)
            ck.violation('text numbers', '%s: line %d is %r, the generator gives %r' % (brief, i, body[i], d[3][i]), rep); continue
        if not c['s']:
            ck.count('random_seed_reproduced')
    ck.count('numbers_compared', c['n'])
    ck.seen(brief)

# unlimited binary output: the prefix read from the pipe is the stream
for g in R.sample(PRIV, 3) + [13]:
    s = R.getrandbits(31) + 1
    p = subprocess.Popen([exe, '-o', '-O', '0', '-t', '0', '-g', str(g), '-S', str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    n = 20000
    b = p.stdout.read(4 * n)
    p.kill(); p.wait(); p.stdout.close()
    d = direct(g, s, 'g', n)
    ck.evals += 1
    if len(b) != 4 * n or list(struct.unpack('<%dI' % n, b)) != d[3]:
        ck.violation('endless', 'generator %d seed %d: endless binary output differs from the generator' % (g, s), {'g': g, 's': s})
    else:
        ck.seen(('endless', g, s))


# ---- reading a dump back delivers the same numbers
def back(c):
    fn, wf = vlib.tmpname('.dump'), vlib.tmpname('.w')
    a = ['-o', '-O', str(c['fmt']), '-t', str(c['n']), '-g', str(c['g']), '-S', str(c['s']), '-f', fn]
    r = vlib.run([exe] + a)
    r2, e = vlib.run_ev(ev, ['-g', 202 if c['fmt'] else 201, '-f', fn, '-d', 900, '-t', c['n'] + 3, '-p', 1, '-D', report.ROWFLAGS], pvals=[.5], env={'VP_WORDS': wf})
    w = open(wf, 'rb').read() if os.path.exists(wf) else b''
    for f in (fn, wf):
        if os.path.exists(f):
            os.unlink(f)
    return r, r2, w, direct(c['g'], c['s'], 'u' if c['fmt'] == 2 else 'g', c['n'])


bc = [dict(g=R.choice(GENS), s=R.getrandbits(32) or 1, n=R.choice([16, 17, R.randint(16, 3000)]), fmt=R.choice([0, 1, 2])) for _ in range(80 if not vlib.THOROUGH else 1500)]
for c, (r, r2, w, d) in zip(bc, vlib.pmap(back, bc)):
    ck.evals += 1
    if r.timeout or r2.timeout:
        ck.inconclusive.append(str(c)); continue
    got = list(struct.unpack('<%dI' % (len(w) // 4), w))
    if c['fmt'] == 2:
        want = [int(float('%.10f' % u) * 4294967295) for u in d[3]]
    else:
        want = d[3]
    want = want + want[:3]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
        ck.violation('read back', '%s: %d numbers read back of %d, first difference at %d; %s %s' % (c, len(got), len(want), i, r2.rc, r2.err[-200:]), c)
    else:
        ck.count('numbers_read_back', len(want)); ck.seen(('back', c))


# ---- and the same results as the generator itself
FULL = [203, 204, 205, 206, 208, 209]
ANY = [0, 1, 2, 3, 4, 8, 10, 11, 12, 13, 14, 15, 16, 100, 101, 102, 200, 201, 202, 203, 205, 207, 209]
INT = [100, 101, 102, 200, 4]
SZ = {0: 30, 1: 2000, 2: 60, 3: 60, 4: None, 8: 1000, 10: 300, 11: 300, 12: 300, 13: 300, 14: 40, 15: 1000, 16: 300, 100: 1000, 101: 1000, 102: 500, 200: 500, 201: 300, 202: 500, 203: 300, 205: 1000, 207: 300, 209: 300}
SZ[4] = 4000


def same(c):
    fn = vlib.tmpname('.dump')
    vlib.run([exe, '-o', '-O', str(c['fmt']), '-t', str(c['n']), '-g', str(c['g']), '-S', str(c['s']), '-f', fn], timeout=200)
    a = ['-d', c['d'], '-p', c['p'], '-S', c['s'], '-D', report.ROWFLAGS, '-t', c['t']] + (['-n', c['nt']] if c['nt'] else []) + c['opt']
    r1 = vlib.run([exe, '-g', str(c['g'])] + [str(x) for x in a])
    r2 = vlib.run([exe, '-g', '202' if c['fmt'] else '201', '-f', fn] + [str(x) for x in a])
    os.unlink(fn)
    return r1, r2


sc = []
for _ in range(70 if not vlib.THOROUGH else 1000):
    if R.random() < 0.75:
        g, d = R.choice(FULL), R.choice(ANY)
    else:
        g, d = R.choice([13, 14, 403, 401, 48, 49]), R.choice(INT)
    if g not in NAMES:
        continue
    sc.append(dict(g=g, d=d, s=R.getrandbits(32) or 1, p=R.choice([1, 2, 4]), t=SZ[d], nt=R.choice([2, 3]) if d in (200, 201, 202) else 0, fmt=R.choice([0, 1]), n=150000, opt=R.choice([[], ['-s', 1], ['-L', 2] if d in (0, 1, 2, 4) else []])))
MAX32 = {}
for c, (r1, r2) in zip(sc, vlib.pmap(same, sc)):
    if c['g'] not in FULL:
        if c['g'] not in MAX32:
            MAX32[c['g']] = direct(c['g'], 1, 'g', 1)[1:3] == (0, 0xffffffff)
        if not MAX32[c['g']]:
            continue
    ck.evals += 1
    if r1.timeout or r2.timeout:
        ck.inconclusive.append(str(c)); continue
    if 'rewound' in r2.err:
        ck.count('dump_too_short'); continue
    if r1.out != r2.out or not report.rows(r1.out)[0]:
        ck.violation('same results', '%s: generator gives %r, its dump gives %r %r' % (c, r1.out[-200:], r2.out[-200:], r2.err[-200:]), c)
    else:
        ck.count('result_rows_compared', len(report.rows(r1.out)[0])); ck.seen(('same', c))
ck.finish(350, 300)
