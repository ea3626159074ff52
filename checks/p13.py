"""P13: the XOR supergenerator is the bitwise XOR of its components."""
import os, sys, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
ck = vlib.Check('P13', rule='one evaluation = one run of the real program with a combination of generators, every number dumped or drawn by a test compared with the XOR of the component generators, each driven separately through the library with its own '
                'seed; or a combination that must be refused; distinct = distinct command line', assumptions=['generators that keep their state in global variables (ca, uvag, the R family) occur at most once (the R family at most one member)'])
R = ck.rng
B = vlib.build('plain')
exe, exea = B.exe, vlib.build('asan').exe
gm = B.harness('genmon', ['genmon.c'])
ev = vlib.evmain('plain')
eva = vlib.evmain('asan')
GSL = list(range(0, 62))
OWN = [203, 204, 205, 206, 208, 209]
RF = [400, 401, 402, 403, 404, 405]
EV_XOR = ['207', 'XOR (supergenerator)']


def script(t):
    r = vlib.run([gm], stdin=t.encode(), timeout=200)
    return r.out.split('\n') if r.rc == 0 else None


NAMES = {}
for g, o in zip(GSL + OWN + RF, vlib.pmap(lambda g: script('a %d\n' % g), GSL + OWN + RF)):
    if o:
        NAMES[g] = o[0].split('|')[0]
GSL = [g for g in GSL if g in NAMES]


def comps(k):
    out, own, rf = [], list(OWN), 0
    for _ in range(k):
        x = R.random()
        if x < 0.35 and own:
            g = R.choice(own)
            if g in (203, 204):
                own.remove(g)
            if g == 209 and k > 8:
                g = 205
            out.append(g)
        elif x < 0.45 and not rf:
            rf = 1; out.append(R.choice(RF))
        else:
            out.append(R.choice(GSL))
    return out


def stream(gs, seed, n):
    """the XOR of the components, or None"""
    sd = script('a 14\ns %d\ng %d\n' % (seed & 0xffffffff, len(gs)))
    sd = [int(x, 16) for x in sd[1:1 + len(gs)]]
    acc = [0] * n
    for g, s in zip(gs, sd):
        o = script('a %d\ns %d\ng %d\n' % (g, s, n))
        if o is None:
            return None
        acc = [a ^ int(x, 16) for a, x in zip(acc, o[1:1 + n])]
    return [a & 0xffffffff for a in acc]


def mk(i):
    k = R.choice([1, 1, 2, 2, 3, 4, 5, 8, R.randint(5, 20), R.choice([30, 60, 98])])
    gs = comps(k)
    return dict(gs=gs, seed=R.choice([1, 2, 0xffffffff, R.getrandbits(32) or 5, R.getrandbits(31) or 5]), n=R.choice([1, 16, 17, R.randint(20, 400), R.randint(400, 3000)]) if k < 25 else R.randint(10, 300), mode=R.choice(['bin', 'text', 'words', 'words', 'reseed', 'random', 'real']), xor=R.choice(EV_XOR), asan=R.random() < 0.15,
                names=[R.random() < 0.4 for _ in gs], uni=R.random() < 0.3, order=R.random() < 0.3)


def go(c):
    pre = ['-g', c['xor']]
    for g, nm in zip(c['gs'], c['names']):
        pre += ['-g', NAMES[g] if nm else str(g)]
    s = ['-S', str(c['seed'])] if c['mode'] != 'random' else []
    a = s + pre if c['order'] else pre + s
    m, n = c['mode'], c['n']
    env, wf = {}, vlib.tmpname('.w')
    got = None
    if m in ('bin', 'text', 'random', 'real'):
        a += ['-o', '-O', {'bin': '0', 'real': '2'}.get(m, '1'), '-t', str(n)]
        r = vlib.run([exea if c['asan'] else exe] + a, binary=True)
        seed = c['seed']
        if r.timeout:
            return r, None, None, a
        if m == 'bin':
            got = list(struct.unpack('<%dI' % (len(r.out) // 4), r.out[:len(r.out) // 4 * 4]))
        else:
            h = re.search(rb'seed = (\d+)', r.out)
            seed = int(h.group(1)) if h else seed
            body = [l for l in r.out.decode('latin-1').split('\n') if re.fullmatch(r' *[\d.]+', l)]
            got = [int(l) for l in body] if m != 'real' else [l.strip() for l in body]
        want = stream(c['gs'], seed, n)
        if m == 'real':
            want = ['%.10f' % (w / 4294967295) for w in want]
    else:
        env['VP_WORDS'] = wf
        if c['uni']:
            env['VP_UNI'] = '1'
        a += ['-D', str(report.ROWFLAGS)]
        if m == 'words':
            p = R2.choice([1, 2, 3])
            t = max(1, n // p)
            r, e = vlib.run_ev(eva if c['asan'] else ev, a + ['-d', '900', '-t', t, '-p', p], pvals=[.5] * p, env=env)
            want = stream(c['gs'], c['seed'], t * p)
        else:
            env['VP_ONLY'] = '0,15,100'
            env['VP_DEF'] = '0:%d:1,15:%d:2,100:%d:1' % (n, n, n + 3)
            r, e = vlib.run_ev(eva if c['asan'] else ev, a + ['-a', '-s', '1'], env=env, fast=True)
            w = stream(c['gs'], c['seed'], 2 * n + 3)
            want = w[:n] + w[:2 * n] + w[:n + 3]
        b = open(wf, 'rb').read() if os.path.exists(wf) else b''
        got = list(struct.unpack('<%dI' % (len(b) // 4), b))
        if os.path.exists(wf):
            os.unlink(wf)
    return r, got, want, a


import random
R2 = random.Random(ck.rng.random())
cases = [mk(i) for i in range(200 if not vlib.THOROUGH else 4000)]
for c, (r, got, want, a) in zip(cases, vlib.pmap(go, cases)):
    ck.evals += 1
    brief = '%s: %s' % (c['mode'], ' '.join(a))
    if r.timeout:
        ck.inconclusive.append(brief); continue
    if r.rc != 0:
        ck.violation('ended', '%s: status %s %s' % (brief, r.rc, r.err[-500:]), c); continue
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        ck.violation('xor', '%s: %d numbers of %d; number %d is %s, the XOR of the components is %s' % (brief, len(got), len(want), i, got[i:i + 1], want[i:i + 1]), c); continue
    ck.count('numbers_compared', len(want))
    ck.count('components', len(c['gs']))
    ck.count('single_component' if len(c['gs']) == 1 else 'several_components')
    ck.seen(brief)

# a file as a component
for _ in range(6 if not vlib.THOROUGH else 60):
    n = R.randint(16, 300)
    words = [R.getrandbits(32) for _ in range(n)]
    fn, wf = vlib.tmpname('.bin'), vlib.tmpname('.w')
    fm = R.random() < 0.5
    if fm:
        open(fn, 'w').write('type: u\ncount: %d\nnumbit: 32\n' % n + ''.join('%d\n' % w for w in words))
    else:
        open(fn, 'wb').write(struct.pack('<%dI' % n, *words))
    g, s, t = R.choice([205, 206, 13]), R.getrandbits(31) + 1, R.randint(n, 3 * n)
    r, e = vlib.run_ev(ev, ['-g', 207, '-g', 202 if fm else 201, '-g', g, '-f', fn, '-S', s, '-d', 900, '-t', t, '-p', 1], pvals=[.5], env={'VP_WORDS': wf})
    sd = [int(x, 16) for x in script('a 14\ns %d\ng 2\n' % s)[1:3]]
    o = script('a %d\ns %d\ng %d\n' % (g, sd[1], t))[1:1 + t]
    want = [words[i % n] ^ int(o[i], 16) for i in range(t)]
    b = open(wf, 'rb').read() if os.path.exists(wf) else b''
    got = list(struct.unpack('<%dI' % (len(b) // 4), b))
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append('file component')
    elif got != want:
        ck.violation('file component', 'file of %d words XOR generator %d: %d numbers, status %s %s' % (n, g, len(got), r.rc, r.err[-200:]), {})
    else:
        ck.seen(('file', n, g, s, t))
    for f in (fn, wf):
        if os.path.exists(f):
            os.unlink(f)

# combinations that must be refused
bad = [[], ['207'], ['XOR (supergenerator)'], ['205', '207'], ['999'], ['1000'], ['100000'], ['-7'], ['99'], ['205', '299'], ['no_such_generator'], ['205', 'nothing'], ['mt19937', '206', '150'], ['201'], ['202', '205'], ['206', 'file_input_raw'], ['XOR'], ['4294967295'], ['2147483648']]
bad += [[str(R.choice([62, 99, 150, 210, 300, 399, 406, 450, 502, 599, 700, 999, R.randint(1000, 10 ** 7)]))] for _ in range(10)] + [[str(R.choice(OWN)), 'x' * R.randint(1, 300)] for _ in range(5)]
bad = [b for b in bad if b != ['600']]


def refuse(b):
    a = ['-g', R2.choice(EV_XOR)]
    for x in b:
        a += ['-g', x]
    return vlib.run_ev(eva, a + ['-d', 900, '-t', 5, '-p', 1, '-D', report.ROWFLAGS], pvals=[.5])


for b, (r, e) in zip(bad, vlib.pmap(refuse, bad)):
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append('refuse %s' % b); continue
    if r.rc not in (0, 1) or any(x['ev'] == 'test' for x in e) or report.rows(r.out)[0] or not r.err.strip():
        ck.violation('refuse', 'XOR of %s: status %s, %d tests run, message %r' % (b, r.rc, len(e), r.err[-200:]), {'components': b})
    else:
        ck.count('refused'); ck.seen(('refused', b))
ck.finish(200, 180)
