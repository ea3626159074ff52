"""P10: formatted file input delivers exactly the numbers listed in the file."""
import os, sys, re, struct, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
from report import FL
ck = vlib.Check('P10', rule='one evaluation = one run of the real program on a generated formatted file, in which every number a test drew is recorded and compared with the numbers written into the body of the file, and every printed total '
                'and rewind count with the recorded draws; non-trivial = at least one number compared (or a body that runs out refused without a result)',
                assumptions=['lines shorter than 1000 characters', 'comments stand among the header lines, the body holds one number per line', 'numbers fit 32 bits; reals lie in [0,1]'])
R = ck.rng
ev = vlib.evmain('plain')
eva = vlib.evmain('asan')
COLS = report.ROWFLAGS | FL['file_rng_stat']
EDGE = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 10, 255, 65535, 65536, 0x01000000]


def value():
    return R.choice(EDGE) if R.random() < 0.15 else R.getrandbits(R.choice([32, 32, 32, 31, 16, 8, 1]))


def number(ty, nb):
    """(text, value delivered)"""
    if ty in 'diu':
        v = value()
        t = str(v)
        if ty in 'di' and R.random() < 0.3:
            s = v - (1 << 32) if v >> 31 else -v
            v = s & 0xffffffff
            t = str(s)
        k = R.random()
        if k < 0.1:
            t = t.rjust(12)
        elif k < 0.15 and not t.startswith('-'):
            t = t.zfill(R.choice([11, 12, 20]))
        elif k < 0.2 and not t.startswith('-'):
            t = '+' + t
        return t, v
    if ty in 'xX':
        v = value()
        t = (('%X' if ty == 'X' or R.random() < 0.3 else '%x') % v)
        k = R.random()
        if k < 0.3:
            t = R.choice(['0x', '0X']) + t
        elif k < 0.5:
            t = t.zfill(8)
        return t, v
    if ty == 'o':
        v = value()
        t = '%o' % v
        if R.random() < 0.4:
            t = '0' + t
        return t, v
    if ty == 'b':
        v = value() & ((1 << nb) - 1)
        return format(v, 'b').zfill(nb), v
    k = R.random()
    if k < 0.08:
        t = R.choice(['0', '1', '0.0', '1.0', '1e0', '0.5', '.5', '1.', '0e0', '1e-5', '2.5E-1', '5e-324', '0.99999999999999', '+0.25'])
    elif k < 0.5:
        t = '%.10f' % R.random()
    elif k < 0.75:
        t = '%.16e' % (R.random() ** R.choice([1, 3, 10]))
    elif k < 0.9:
        t = repr(R.random())
    else:
        t = '%g' % R.random()
    if float(t) > 1:
        t = '1.0'
    if R.random() < 0.1:
        t = ' ' * R.randint(1, 5) + t
    return t, int(float(t) * 4294967295)


def mkfile(n, ty, extra):
    nb = R.choice([32, 32, R.randint(1, 32)]) if ty == 'b' else R.choice([32, 32, 31, 16, 1])
    eol = '\r\n' if R.random() < 0.15 else '\n'
    sep = lambda: R.choice([': ', ':', ' ', '\t', ' : ', ', ', ':\t', ':  '])
    heads = ['type' + sep() + ty + R.choice(['', '', 'x9'] if ty != 'b' else ['', 'inary']), 'count' + sep() + str(n), 'numbit' + sep() + str(nb)]
    if R.random() < 0.5:
        R.shuffle(heads)
    pre = []
    COM = ['#====', '# generator x  seed = 1', '#type: b', '# count: 3', '#', '# 12345', '#\t0.5', '#' + 'y' * R.randint(1, 900), '#numbit: 1', '#123']
    out = []
    for h in heads:
        for _ in range(R.choice([0, 0, 1, 3])):
            out.append(R.choice(COM))
        if R.random() < 0.1:
            out.append(R.choice(['generator: foo', 'comment xyz', 'seed 17', '12345 678', 'bits: 32']))
        out.append((' ' if R.random() < 0.05 else '') + h)
    nums = [number(ty, nb) for _ in range(n + extra)]
    lines = []
    for t, v in nums:
        k = R.random()
        if k < 0.03:
            t += ' '
        elif k < 0.05:
            t += '\t# note 99'
        lines.append(t)
    txt = eol.join(out + lines)
    if R.random() < 0.85:
        txt += eol
    return txt.encode(), [v for _, v in nums]


def filecase():
    n = R.choice([1, 2, 3, R.randint(1, 64), R.randint(64, 1000), R.choice([99, 100, 101, 255, 256, 257]), R.randint(1000, 6000)])
    ty = R.choice('diuxXobeEfFgdub')
    extra = R.choice([0, 0, 0, 1, 5])
    data, vals = mkfile(n, ty, extra)
    st = R.choice([0, 0, 1])
    seed = R.choice([0, 0, 1, 77])
    battery = R.random() < 0.4
    if battery:
        ds = sorted(R.sample([0, 2, 3, 8, 15, 17, 100, 101, 204, 207, 209, 211], R.randint(2, 5)))
        runs = [(d, max(1, R.choice([1, R.randint(1, 3 * n), n, n - 1, n + 1, 2 * n])), R.choice([1, 1, 2, 3])) for d in ds]
    else:
        runs = [(900, max(1, R.choice([1, n, n - 1, n + 1, 2 * n, 3 * n, R.randint(1, 3 * n)])), R.choice([1, 2, 5]))]
    return dict(n=n, ty=ty, vals=vals[:n], data=data, runs=runs, st=st, seed=seed, battery=battery, uni=R.random() < 0.25, gname=R.choice(['202', 'file_input']), name=R.choice(['plain', 'long', 'odd']), asan=R.random() < 0.15)


def runfile(c):
    d = vlib.tmpname('.d')
    os.mkdir(d)
    fn = os.path.join(d, {'plain': 'f.txt', 'long': 'n' * 200, 'odd': 'a b#c%s.txt'}[c['name']])
    open(fn, 'wb').write(c['data'])
    wf = os.path.join(d, 'words')
    env = {'VP_WORDS': wf}
    if c['uni']:
        env['VP_UNI'] = '1'
    args = ['-g', c['gname'], '-f', fn, '-D', COLS] + (['-s', 1] if c['st'] else []) + (['-S', c['seed']] if c['seed'] else [])
    if c['battery']:
        args += ['-a']
        env['VP_DEF'] = ','.join('%d:%d:%d' % x for x in c['runs'])
        env['VP_ONLY'] = ','.join(str(x[0]) for x in c['runs'])
        r, e = vlib.run_ev(eva if c['asan'] else ev, args, env=env, fast=True)
    else:
        _, t, p = c['runs'][0]
        args += ['-d', 900, '-t', t, '-p', p]
        r, e = vlib.run_ev(eva if c['asan'] else ev, args, env=env, pvals=[(i % 97) / 97 for i in range(p)])
    w = open(wf, 'rb').read() if os.path.exists(wf) else b''
    same = open(fn, 'rb').read() == c['data']
    shutil.rmtree(d)
    return r, e, w, args, fn, same


def expand(c):
    n, out, stats, pos = c['n'], [], [], 0
    for d, t, p in c['runs']:
        if c['st']:
            pos = 0
        out += [c['vals'][(pos + i) % n] for i in range(t * p)]
        pos += t * p
        stats.append((pos, (pos - 1) // n))
    return out, stats


cases = [filecase() for _ in range(420 if not vlib.THOROUGH else 9000)]
for c, (r, e, w, args, fn, same) in zip(cases, vlib.pmap(runfile, cases)):
    ck.evals += 1
    brief = 'type %s, %d numbers (%d bytes), %s, runs %s' % (c['ty'], c['n'], len(c['data']), ' '.join(map(str, args)).replace(fn, 'FILE'), c['runs'])
    rep = {k: v for k, v in c.items() if k not in ('data', 'vals')}
    rep['file'] = c['data'][:3000].decode('latin-1')
    if r.timeout:
        ck.inconclusive.append(brief); continue
    if r.rc != 0:
        ck.violation('file ended', '%s: status %s %s' % (brief, r.rc, r.err[-500:]), rep); continue
    if not same:
        ck.violation('file altered', '%s: the input file was modified' % brief, rep); continue
    want, stats = expand(c)
    got = list(struct.unpack('<%dI' % (len(w) // 4), w))
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        ck.violation('numbers', '%s: %d numbers delivered, expected %d; first difference at number %d: %s instead of %s; stderr %s' % (brief, len(got), len(want), i, got[i:i + 3], want[i:i + 3], r.err[-200:]), rep)
        continue
    tot = [int(m.group(1)) for m in re.finditer(r'^# The file .* file_input (\d+) rands were used$', r.out, re.M)]
    if tot != [a for a, _ in stats]:
        ck.violation('total', '%s: totals %s reported, %s were drawn' % (brief, tot, [a for a, _ in stats]), rep); continue
    if re.findall(r'^# The file (.*) file_input \d+ rands', r.out, re.M) != [fn] * len(stats):
        ck.violation('file name', '%s: wrong file name in the statistics' % brief, rep); continue
    rew = [int(x) for x in re.findall(r'was rewound (\d+) times', r.err)]
    rew0 = len(re.findall(r'was rewound 0 times', r.out))
    if rew != [b for _, b in stats if b] or rew0 != sum(1 for _, b in stats if not b):
        ck.violation('rewinds', '%s: rewinds reported %s (and %d zero), true %s' % (brief, rew, rew0, [b for _, b in stats]), rep); continue
    ck.count('numbers_compared', len(want))
    ck.count('rewinds', max(b for _, b in stats))
    ck.count('type_' + c['ty'])
    ck.seen(brief)


# ---- bodies that run out before the declared count, or hold lines that are no numbers: only true numbers, no result
def badcase(_):
    n = R.randint(5, 300)
    ty = R.choice('diuxXobefg')
    data, vals = mkfile(n, ty, 0)
    lines = data.split(b'\n')
    kind = R.choice(['short', 'comment', 'blank', 'text', 'header'])
    if lines[-1] == b'':
        lines.pop()
    hdr = len(lines) - n
    k = R.randint(1, n - 1)
    if kind == 'short':
        lines = lines[:hdr + k]
    else:
        lines[hdr + k] = {'comment': b'# 12345', 'blank': b'', 'text': b'zzz', 'header': b'type: d'}[kind]
    return dict(n=n, ty=ty, kind=kind, k=k, vals=vals, data=b'\n'.join(lines) + b'\n')


def runbad(c):
    fn, wf = vlib.tmpname('.txt'), vlib.tmpname('.w')
    open(fn, 'wb').write(c['data'])
    r, e = vlib.run_ev(eva, ['-g', 202, '-f', fn, '-d', 900, '-t', c['n'], '-p', 1, '-D', report.ROWFLAGS], pvals=[.5], env={'VP_WORDS': wf})
    os.unlink(fn)
    w = b''
    if os.path.exists(wf):
        w = open(wf, 'rb').read(); os.unlink(wf)
    return r, w


bad = [badcase(i) for i in range(80 if not vlib.THOROUGH else 1500)]
for c, (r, w) in zip(bad, vlib.pmap(runbad, bad)):
    ck.evals += 1
    brief = 'type %s, %d numbers declared, %s at number %d' % (c['ty'], c['n'], c['kind'], c['k'])
    if r.timeout:
        ck.inconclusive.append(brief); continue
    got = list(struct.unpack('<%dI' % (len(w) // 4), w))
    rep = {k: v for k, v in c.items() if k not in ('data', 'vals')}
    rep['file'] = c['data'][:3000].decode('latin-1')
    if report.rows(r.out)[0] or r.rc not in (0, 1) or 'rror' not in r.err:
        ck.violation('bad body', '%s: status %s, rows %s, stderr %r' % (brief, r.rc, report.rows(r.out)[0], r.err[-300:]), rep)
    elif got != c['vals'][:len(got)] or len(got) > c['k']:
        ck.violation('bad body numbers', '%s: delivered %s' % (brief, got[:10]), rep)
    else:
        ck.count('bodies_refused'); ck.seen(brief)

# ---- the same words in formatted and raw files give the same results in real tests
rj = []
for _ in range(30 if not vlib.THOROUGH else 300):
    d = R.choice([0, 2, 3, 13, 14, 15, 16, 100, 101, 102, 203, 205, 8])
    t = {0: 20, 2: 40, 14: 60, 8: 1000, 205: 1000}.get(d, 300)
    n = R.choice([999, 5000, 20000])
    ty = R.choice('ux')
    words = [R.getrandbits(32) for _ in range(n)]
    rj.append((d, t, ty, words))


def both(j):
    d, t, ty, words = j
    fn, fb = vlib.tmpname('.t'), vlib.tmpname('.b')
    open(fn, 'w').write('type: %s\ncount: %d\nnumbit: 32\n' % (ty, len(words)) + ''.join(('%u\n' if ty == 'u' else '%x\n') % w for w in words))
    open(fb, 'wb').write(struct.pack('<%dI' % len(words), *words))
    a = ['-d', d, '-t', t, '-p', 3, '-D', report.ROWFLAGS, '-S', 1]
    r1 = vlib.run([ev] + [str(x) for x in ['-g', 202, '-f', fn] + a])
    r2 = vlib.run([ev] + [str(x) for x in ['-g', 201, '-f', fb] + a])
    os.unlink(fn); os.unlink(fb)
    return r1, r2


for j, (r1, r2) in zip(rj, vlib.pmap(both, rj)):
    ck.evals += 1
    if r1.timeout or r2.timeout:
        ck.inconclusive.append('both %s' % (j[:2],)); continue
    if r1.out != r2.out or not report.rows(r1.out)[0]:
        ck.violation('formatted versus raw', 'test %d -t %d: formatted gives %r, raw gives %r' % (j[0], j[1], r1.out[:300], r2.out[:300]), {'d': j[0]})
    else:
        ck.seen('formatted=raw %d %d %d' % (j[0], j[1], len(j[3])))
ck.finish(400, 300)
