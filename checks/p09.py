"""P09: raw file and stdin input deliver exactly the bytes supplied."""
import os, sys, re, struct, subprocess, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
from report import FL
ck = vlib.Check('P09', rule='one evaluation = one run of the real program reading a generated file or pipe, in which every number a test drew is recorded and compared with the supplied bytes, and every printed total and rewind '
                'count with the recorded draws; non-trivial = at least one word compared (or a truncated input refused)',
                assumptions=['the speed measurement (rate column) also draws from the input and is switched off', 'little-endian words'])
R = ck.rng
ev = vlib.evmain('plain')
eva = vlib.evmain('asan')
COLS = report.ROWFLAGS | FL['file_rng_stat']


def content(n, extra):
    k = R.random()
    if k < 0.7:
        b = R.randbytes(4 * n + extra)
    elif k < 0.8:
        b = struct.pack('<%dI' % n, *range(n)) + bytes(extra)
    elif k < 0.9:
        b = R.choice([b'\xff', b'\0', b'\n', b'\x1a', b'\r\n', b'type: d\n']) * (4 * n + extra)
        b = b[:4 * n + extra]
    else:
        b = bytes(R.choice([0, 10, 13, 26, 255, 4, 35]) for _ in range(4 * n + extra))
    return b


def filecase():
    n = R.choice([16, 17, R.randint(16, 64), R.randint(64, 1000), R.choice([1023, 1024, 1025, 4095, 4096, 4097, 512]), R.randint(1000, 60000)])
    data = content(n, R.choice([0, 0, 1, 2, 3]))
    battery = R.random() < 0.4
    st = R.choice([0, 0, 1])
    seed = R.choice([0, 0, 1, 77])
    if battery:
        ds = sorted(R.sample([0, 2, 3, 8, 15, 17, 100, 101, 204, 207, 209, 211], R.randint(2, 5)))
        defs = {d: (R.choice([1, R.randint(1, 3 * n), n, n - 1, n + 1, 2 * n]), R.choice([1, 1, 2, 3])) for d in ds}
        runs = [(d, t, p) for d, (t, p) in sorted(defs.items())]
    else:
        t = R.choice([1, n, n - 1, n + 1, 2 * n, 3 * n, R.randint(1, 3 * n)])
        runs = [(900, t, R.choice([1, 2, 5]))]
    return dict(n=n, data=data, runs=runs, st=st, seed=seed, battery=battery, uni=R.random() < 0.3, gname=R.choice(['201', 'file_input_raw']), name=R.choice(['plain', 'long', 'odd']), asan=R.random() < 0.15)


def runfile(c):
    d = vlib.tmpname('.d')
    os.mkdir(d)
    fn = os.path.join(d, {'plain': 'f.bin', 'long': 'n' * 200, 'odd': 'a b#c%s.bin'}[c['name']])
    open(fn, 'wb').write(c['data'])
    wf = os.path.join(d, 'words')
    env = {'VP_WORDS': wf}
    if c['uni']:
        env['VP_UNI'] = '1'
    args = ['-g', c['gname'], '-f', fn, '-D', COLS] + (['-s', 1] if c['st'] else []) + (['-S', c['seed']] if c['seed'] else [])
    if c['battery']:
        args += ['-a']
        env['VP_DEF'] = ','.join('%d:%d:%d' % x for x in c['runs'])
        env['VP_ONLY'] = ','.join(str(x[0]) for x in c['runs'])
        r, e = vlib.run_ev(eva if c['asan'] else ev, args, env=env, fast=True)
    else:
        _, t, p = c['runs'][0]
        args += ['-d', 900, '-t', t, '-p', p]
        r, e = vlib.run_ev(eva if c['asan'] else ev, args, env=env, pvals=[(i % 97) / 97 for i in range(p)])
    w = open(wf, 'rb').read() if os.path.exists(wf) else b''
    same = open(fn, 'rb').read() == c['data']
    import shutil
    shutil.rmtree(d)
    return r, e, w, args, fn, same


def expand(c):
    """expected word stream and per-test (rtot, rewinds)"""
    n = c['n']
    body = c['data'][:4 * n]
    out, stats, pos = [], [], 0
    for d, t, p in c['runs']:
        if c['st']:
            pos = 0
        k = t * p
        q, s = divmod(pos, n)
        s = pos % n
        rep = body * ((s + k) // n + 1)
        out.append(rep[4 * s:4 * (s + k)])
        pos += k
        stats.append((pos, (pos - 1) // n))
    return b''.join(out), stats


def firstdiff(a, b):
    m = min(len(a), len(b)) // 4
    for i in range(m):
        if a[4 * i:4 * i + 4] != b[4 * i:4 * i + 4]:
            return i
    return m


cases = [filecase() for _ in range(300 if not vlib.THOROUGH else 6000)]
for c, (r, e, w, args, fn, same) in zip(cases, vlib.pmap(runfile, cases)):
    ck.evals += 1
    brief = 'file of %d words + %d bytes, %s, runs %s, reseed per test %d' % (c['n'], len(c['data']) - 4 * c['n'], ' '.join(map(str, args)).replace(fn, 'FILE'), c['runs'], c['st'])
    rep = {k: v for k, v in c.items() if k != 'data'}
    if r.timeout:
        ck.inconclusive.append(brief); continue
    if r.rc != 0:
        ck.violation('file ended', '%s: status %s %s' % (brief, r.rc, r.err[-500:]), rep); continue
    if not same:
        ck.violation('file altered', '%s: the input file was modified' % brief, rep); continue
    want, stats = expand(c)
    if w != want:
        i = firstdiff(w, want)
        ck.violation('file words', '%s: %d words delivered, expected %d; first difference at word %d: %s instead of %s' % (brief, len(w) // 4, len(want) // 4, i, w[4 * i:4 * i + 4].hex(), want[4 * i:4 * i + 4].hex()), rep)
        continue
    got = [(int(m.group(1)), int(m.group(2))) for m in re.finditer(r'^# The .* file_input_raw (\d+) rands \((\d+) bytes\) were used$', r.out, re.M)]
    if got != [(a, 4 * a) for a, _ in stats]:
        ck.violation('file total', '%s: totals %s reported, %s words were drawn' % (brief, got, [a for a, _ in stats]), rep); continue
    if re.findall(r'^# The (.*) file_input_raw \d+ rands', r.out, re.M) != [fn] * len(stats):
        ck.violation('file name', '%s: wrong file name in the statistics' % brief, rep); continue
    rew = [int(x) for x in re.findall(r'was rewound (\d+) times', r.err)]
    rew0 = len(re.findall(r'was rewound 0 times', r.out))
    if rew != [b for _, b in stats if b] or rew0 != sum(1 for _, b in stats if not b):
        ck.violation('file rewinds', '%s: rewinds reported %s (and %d zero), true %s' % (brief, rew, rew0, [b for _, b in stats]), rep); continue
    ck.count('words_compared', len(w) // 4)
    ck.count('rewinds', max(b for _, b in stats))
    ck.seen(brief)

# files below the minimum, directories, missing files: refused, nothing drawn
for n in list(range(0, 64, 7)) + [63]:
    fn = vlib.tmpname('.s')
    open(fn, 'wb').write(R.randbytes(n))
    r, e = vlib.run_ev(eva, ['-g', 201, '-f', fn, '-d', 900, '-t', 1, '-p', 1, '-D', COLS], pvals=[.5])
    ck.evals += 1
    if r.rc not in (0, 1) or any(x['ev'] == 'test' for x in e):
        ck.violation('short file', 'a raw file of %d bytes: status %s, tests run %d' % (n, r.rc, len(e)), {})
    os.unlink(fn)


# ---- standard input through a pipe, fragmented
def pipecase():
    n = R.choice([1, 5, R.randint(10, 500), R.randint(500, 20000)])
    extra = R.choice([0, 0, 1, 2, 3])
    t = R.randint(1, n)
    p = max(1, n // t) if R.random() < 0.7 else max(1, n // t) + 1      # the latter runs dry
    return dict(n=n, data=content(n, extra), t=t, p=p, frag=R.choice(['one', 'bytes', 'odd', 'odd', 'big', 'page']), st=R.choice([0, 1]), gname=R.choice(['200', 'stdin_input_raw']), uni=R.random() < 0.3)


def runpipe(c):
    wf, lg, pf = vlib.tmpname('.w'), vlib.tmpname('.l'), vlib.tmpname('.p')
    open(pf, 'w').write('\n'.join('%.17g' % ((i % 97) / 97) for i in range(c['p'])) + '\n')
    env = dict(os.environ, VP_WORDS=wf, VP_LOG=lg, VP_PFILE=pf)
    if c['uni']:
        env['VP_UNI'] = '1'
    args = [ev, '-g', c['gname'], '-d', '900', '-t', str(c['t']), '-p', str(c['p']), '-D', str(COLS), '-S', '1', '-s', str(c['st'])]
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)

    def feed():
        d, i = c['data'], 0
        rr = c['n']
        try:
            while i < len(d):
                k = {'one': len(d), 'bytes': 1, 'odd': 1 + (i * 7919 + rr) % 13, 'big': 40000, 'page': 4097}[c['frag']]
                if c['frag'] == 'bytes' and i > 3000:
                    k = 777
                os.write(p.stdin.fileno(), d[i:i + k])
                i += k
                if c['frag'] in ('bytes', 'odd') and i % 5 == 0 and i < 2000:
                    time.sleep(0.0003)
        except OSError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
    th = threading.Thread(target=feed)
    th.start()
    so, se = [], []
    t2 = threading.Thread(target=lambda: se.append(p.stderr.read()))
    t2.start()
    so = p.stdout.read()
    try:
        rc = p.wait(timeout=100)
    except subprocess.TimeoutExpired:
        p.kill(); rc = None
    th.join(); t2.join()
    p.stdout.close(); p.stderr.close()
    w = open(wf, 'rb').read() if os.path.exists(wf) else b''
    for f in (wf, lg, pf):
        if os.path.exists(f):
            os.unlink(f)
    return rc, so.decode('latin-1'), se[0].decode('latin-1'), w, args[1:]


pc = [pipecase() for _ in range(160 if not vlib.THOROUGH else 3000)]
for c, (rc, out, err, w, args) in zip(pc, vlib.pmap(runpipe, pc)):
    ck.evals += 1
    brief = 'pipe of %d words + %d bytes in fragments "%s", %s' % (c['n'], len(c['data']) - 4 * c['n'], c['frag'], ' '.join(args))
    rep = {k: v for k, v in c.items() if k != 'data'}
    if rc is None:
        ck.inconclusive.append(brief); continue
    need = c['t'] * c['p']
    rs, bad = report.rows(out)
    if need <= c['n']:
        if rc != 0 or not rs:
            ck.violation('pipe ended', '%s: status %s, %s' % (brief, rc, err[-300:]), rep); continue
        want = c['data'][:4 * need]
        if w != want:
            i = firstdiff(w, want)
            ck.violation('pipe words', '%s: %d words delivered, expected %d; first difference at word %d: %s instead of %s' % (brief, len(w) // 4, need, i, w[4 * i:4 * i + 4].hex(), want[4 * i:4 * i + 4].hex()), rep); continue
        ck.count('pipe_words', need)
    else:
        # the input ends early: only words that were there, and no result for the unfinished test
        if rs or 'EOF' not in err or rc < 0:
            ck.violation('pipe eof', '%s: input ends after %d of %d words, status %s, rows %s, stderr %r' % (brief, c['n'], need, rc, rs, err[-200:]), rep); continue
        if w != c['data'][:len(w)]:
            ck.violation('pipe words', '%s: words before the end differ' % brief, rep); continue
    ck.seen(brief)

# ---- the same data through file and pipe gives the same results in real tests
rj = []
for _ in range(24 if not vlib.THOROUGH else 300):
    d = R.choice([0, 2, 3, 13, 14, 15, 16, 100, 101, 102, 203, 205, 8])
    t = {0: 60, 2: 100, 14: 100, 8: 4000, 205: 3000}.get(d, 1500)
    rj.append((d, t, R.randbytes(4 * 400000)))


def both(j):
    d, t, data = j
    fn = vlib.tmpname('.b')
    open(fn, 'wb').write(data)
    a = ['-d', d, '-t', t, '-p', 3, '-D', report.ROWFLAGS, '-S', 1]
    r1 = vlib.run([ev] + [str(x) for x in ['-g', 201, '-f', fn] + a])
    r2 = vlib.run([ev] + [str(x) for x in ['-g', 200] + a], stdin=data)
    os.unlink(fn)
    return r1, r2


for j, (r1, r2) in zip(rj, vlib.pmap(both, rj)):
    ck.evals += 1
    if r1.timeout or r2.timeout:
        ck.inconclusive.append('both %s' % (j[:2],)); continue
    if r1.out != r2.out or not report.rows(r1.out)[0]:
        ck.violation('file versus pipe', 'test %d -t %d: file gives %r, pipe gives %r' % (j[0], j[1], r1.out[:300], r2.out[:300]), {'d': j[0]})
    else:
        ck.seen('file=pipe %d %d' % j[:2])

if vlib.THOROUGH:       # a sparse file beyond 2^31 bytes
    fn = vlib.tmpname('.big')
    n = (1 << 29) + 5
    with open(fn, 'wb') as f:
        f.truncate(4 * n)
        f.seek(4 * (n - 3)); f.write(struct.pack('<3I', 1, 2, 3))
        f.seek(0); f.write(struct.pack('<2I', 7, 8))
    wf = vlib.tmpname('.w')
    r, e = vlib.run_ev(ev, ['-g', 201, '-f', fn, '-d', 900, '-t', n + 2, '-p', 1, '-D', COLS], pvals=[.5], env={'VP_WORDS': wf}, timeout=900)
    ck.evals += 1
    with open(wf, 'rb') as f:
        f.seek(-20, 2)
        tail = f.read()
    if tail != struct.pack('<5I', 1, 2, 3, 7, 8) or os.path.getsize(wf) != 4 * (n + 2) or ' %d rands (%d bytes)' % (n + 2, 4 * (n + 2)) not in r.out or 'rewound 1 times' not in r.err:
        ck.violation('large file', 'sparse file of %d words: tail %s, %s %s' % (n, tail.hex(), r.out, r.err), {})
    else:
        ck.seen('large file')
    os.unlink(fn); os.unlink(wf)
ck.finish(300, 200)
