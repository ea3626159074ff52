"""P12: the package's generators implement their published algorithms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
ck = vlib.Check('P12', rule='one evaluation = one history of seedings and draws (integers and uniform deviates mixed) on one registered generator of the real library, every value compared with an independent implementation of the published algorithm; '
                'distinct = distinct (generator, history)', assumptions=['seeds of 32 bits', 'little-endian', 'reference implementations in harness/refgen.cpp, AES and Threefish self-tested against published vectors'])
R = ck.rng
gm = vlib.build('plain').harness('genmon', ['genmon.c'])
ga = vlib.build('asan').harness('genmon', ['genmon.c'])
ref = os.path.join(vlib.scratch(), 'refgen')
r = vlib._run(['g++', '-O2', '-w', '-I', vlib.HARN, '-o', ref, os.path.join(vlib.HARN, 'refgen.cpp'), '-lgsl', '-lgslcblas'])
if r.returncode:
    vlib.die('reference: ' + r.stdout[-1000:])
GENS = [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405]
EDGE = [0, 1, 2, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 255, 256, 65535, 65536, 1073741821, 4357, 5489]


def seed():
    return R.choice(EDGE) if R.random() < 0.3 else R.getrandbits(R.choice([32, 32, 31, 16]))


def history(g):
    cheap = g not in (203, 209)
    out = ['a %d' % g]
    for _ in range(R.randint(2, 12 if cheap else 6)):
        out.append('s %d' % seed())
        for _ in range(R.randint(1, 5)):
            k = R.choice('gugudGU')
            n = R.choice([1, 2, 3, 4, 5, 15, 16, 17, R.randint(1, 200)]) if k in 'gu' else R.choice([R.randint(1, 3000), 623, 624, 625, 2056 // 4, 100, 101])
            out.append('%s %d' % (k, n))
    return out


scripts = []
for g in GENS:
    for i in range(30 if not vlib.THOROUGH else 600):
        scripts.append((g, history(g), i % 5 == 0))
    # every edge seed, and long runs
    scripts.append((g, ['a %d' % g] + [x for s in EDGE for x in ('s %d' % s, 'g 20', 'u 5')], True))
    for _ in range(2 if not vlib.THOROUGH else 12):
        n = R.randint(200000, 400000) if not vlib.THOROUGH else R.randint(1000000, 20000000)
        scripts.append((g, ['a %d' % g, 's %d' % seed(), 'G %d' % n, 'g 20', 'U %d' % (n // 3), 'u 20', 's %d' % seed(), 'g 30'], False))
    # the same seed after different histories restarts the same sequence
    s = seed()
    scripts.append((g, ['a %d' % g, 's %d' % s, 'g 50', 'd %d' % R.randint(1, 5000), 's %d' % s, 'g 50', 'u %d' % R.randint(1, 99), 's %d' % s, 'g 50', 'f', 'a %d' % g, 's %d' % s, 'g 50'], True))


def one(j):
    g, sc, asan = j
    t = '\n'.join(sc).encode() + b'\n'
    return vlib.run([ga if asan else gm], stdin=t, timeout=300), vlib.run([ref], stdin=t, timeout=300)


for (g, sc, asan), (a, b) in zip(scripts, vlib.pmap(one, scripts)):
    ck.evals += 1
    rep = {'generator': g, 'script': sc}
    if b.rc != 0 or b.timeout:
        vlib.die('reference failed: %s %s' % (b.rc, b.out[:200]))
    if a.timeout:
        ck.inconclusive.append('%d %s' % (g, sc[:4])); continue
    la, lb = a.out.split('\n'), b.out.split('\n')
    if a.rc != 0:
        ck.violation('gen %d ended' % g, 'generator %d: status %s %s after %s' % (g, a.rc, a.err[-600:], sc[:6]), rep); continue
    if la != lb:
        i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), -1)
        ck.violation('gen %d' % g, 'generator %s: output line %d is %s, the published algorithm gives %s (history %s)' % (lb[0], i, la[i], lb[i], ' ; '.join(sc[:8])), rep); continue
    nm, mn, mx = la[0].split('|')
    n = 0
    for x in sc:
        c, v = x.split() if ' ' in x else (x, 0)
        n += int(v) if c in 'guGUd' else 0
    ck.count('values_compared', n)
    ck.count('reseedings', sum(1 for x in sc if x[0] == 's'))
    ck.seen((g, sc))

# all generators, hardware and GSL ones included: values within the declared range, uniform deviates in [0,1],
# and for the deterministic ones a reseed restarts the sequence
lst = vlib.run([gm], stdin=b'')
allg = [g for g in range(0, 600) if g not in (200, 201, 202, 207)]


def rng_range(g):
    s = R2[g]
    t = 'a %d\ns %d\ng 3000\nu 300\ns %d\ng 3000\ns %d\nu 300\n' % (g, s, s, s)
    return vlib.run([gm], stdin=t.encode(), timeout=120)


R2 = {g: max(1, seed()) for g in allg}
ng = 0
for g, a in zip(allg, vlib.pmap(rng_range, allg)):
    if a.rc == 4:
        continue
    if a.timeout:
        ck.inconclusive.append('range %d' % g); continue
    ck.evals += 1
    ng += 1
    ls = a.out.split()
    head = a.out.split('\n')[0]
    nm, mn, mx = head.split('|')
    body = a.out.split('\n')[1:-1]
    if a.rc != 0 or len(body) != 6600:
        ck.violation('range %d ended' % g, '%s: status %s, %d values' % (head, a.rc, len(body)), {'g': g, 'seed': R2[g]}); continue
    g1, u1, g2, u2 = body[:3000], body[3000:3300], body[3300:6300], body[6300:]
    bad = [x for x in g1 + g2 if not int(mn) <= int(x, 16) <= int(mx)] + [u for u in u1 + u2 if not 0 <= float(u) <= 1]
    if bad:
        ck.violation('range %d' % g, '%s seed %d: value %s outside the declared range' % (head, R2[g], bad[0]), {'g': g, 'seed': R2[g]}); continue
    if g < 500 and g1 != g2:
        i = next(i for i in range(3000) if g1[i] != g2[i])
        ck.violation('restart %d' % g, '%s: reseeding with %d does not restart the sequence (value %d)' % (head, R2[g], i), {'g': g, 'seed': R2[g]}); continue
    if g < 500 and g not in range(400, 410) and g >= 200:      # the deviate is the integer scaled
        if any(float(u) != int(x, 16) / int(mx) for x, u in zip(g2, u2)):
            ck.violation('scale %d' % g, '%s: uniform deviates are not the integers scaled' % head, {'g': g, 'seed': R2[g]}); continue
    if g >= 500 and len(set(g1)) < 2900:
        ck.violation('hardware %d' % g, '%s repeats itself' % head, {'g': g}); continue
    ck.seen(('range', head, R2[g]))
ck.extra['generators_ranged'] = ng
ck.finish(300, 300)
