"""P08: a run is a function of generator, seed and options only."""
import os, sys, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
from report import FL
ck = vlib.Check('P08', rule='one evaluation = one group of executions that must agree: the same command under different heap filling, stack filling, environment, directory, clock and process id; a command re-run with the '
                'seed its report showed; one test after different prior tests in the same process; non-trivial = all members ended normally and produced rows with at least one p-value strictly inside (0,1)',
                assumptions=['the rate column is a timing and is not compared', '-O0 and -O2 builds of the same source compute the same doubles on x86-64 without FMA'])
R = ck.rng
b = vlib.build('plain')
ev, ev0 = vlib.evmain('plain'), vlib.evmain('o0')
ft = os.path.join(vlib.scratch(), 'ft.so')
subprocess.check_call(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', ft, os.path.join(vlib.HARN, 'faketime.c')])
# number of samples at which each test is cheap
SMALL = {0: (80, 2), 1: (2000, 2), 2: (300, 2), 3: (2000, 2), 4: (2097152, 1), 5: (2097152, 1), 6: (2097152, 1), 7: (2097152, 1), 8: (20000, 2), 9: (20000, 2), 10: (0, 1), 11: (1000, 2), 12: (500, 2),
         13: (3000, 2), 14: (100, 4), 15: (3000, 3), 16: (3000, 2), 17: (60000, 1), 100: (1000, 3), 101: (1000, 3), 102: (1500, 2), 200: (3000, 2), 201: (300, 2), 202: (4000, 2), 203: (2000, 3),
         204: (300, 2), 205: (6000, 2), 206: (60, 1), 207: (20000, 1), 208: (20000, 1), 209: (100000, 1), 210: (100, 1), 211: (0, 1)}
HEAVY = {4, 5, 6, 7, 211, 10}
gens = list(range(0, 62)) + [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405]
COLS = report.ROWFLAGS | FL['psample_values']
JUNK = {'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'C', 'TZ': 'Asia/Tokyo', 'GSL_RNG_TYPE': 'taus', 'GSL_RNG_SEED': '77', 'HOME': '/nonexistent', 'USER': 'x' * 3000, 'POSIXLY_CORRECT': '1', 'COLUMNS': '7', 'SEED': '9'}


def variants(r):
    return [(ev, {}, None), (ev, {'MALLOC_PERTURB_': str(r.randint(1, 255)), **JUNK}, '/'), (ev, {'LD_PRELOAD': ft, 'FT_SALT': str(r.randint(2, 10 ** 6)), 'MALLOC_PERTURB_': str(r.randint(1, 255))}, None),
            (ev0, {'MALLOC_PERTURB_': str(r.randint(1, 255))}, vlib.scratch())]


def go(exe, args, env=None, cwd=None, timeout=240):
    return vlib.run([exe] + [str(a) for a in args], env=env, cwd=cwd, timeout=timeout)


def body(out):
    return [l for l in out.splitlines() if not l.startswith('# The file')]


def interesting(out):
    return any(0 < float(m) < 1 for m in re.findall(r'\b[01]\.\d{8}\b', out))


# --- (a) identical commands in perturbed surroundings
jobs = []
tests = [d for d in SMALL if d not in HEAVY]
for i, g in enumerate(gens):
    for _ in range(2 if not vlib.THOROUGH else 12):
        d = R.choice(tests)
        ts, ps = SMALL[d]
        nt = {200: R.choice([1, 3, 8]), 201: R.choice([2, 5]), 202: 4, 203: R.choice([0, 7]), 206: 16}.get(d, 0)
        jobs.append(['-g', g, '-S', R.choice([1, 2, R.randint(1, 2 ** 31 - 1), R.randint(1, 2 ** 32 - 1)]), '-d', d, '-t', ts, '-p', R.choice([1, ps, 5]), '-D', COLS] + (['-n', nt] if nt else []) + R.choice([[], ['-s', 1]]))
for d in SMALL:
    ts, ps = SMALL[d]
    jobs.append(['-g', R.choice(gens), '-S', R.randint(1, 10 ** 6), '-d', d, '-p', 1 if d in HEAVY else R.choice([1, 3]), '-D', COLS] + (['-t', ts] if ts else []) + ({200: ['-n', 5], 201: ['-n', 3], 202: ['-n', 3]}.get(d, [])))
for g in gens:      # raw dumps
    jobs.append(['-g', g, '-S', R.randint(1, 2 ** 32 - 1), '-o', '-t', 500, '-O', R.choice([1, 2])])
SLOW = {2, 41, 42}  # low quality generators can make redraw loops long; they are only dumped


def safe(a):
    g, d = a[1], a[a.index('-d') + 1] if '-d' in a else None
    return not (d in (11, 12, 17, 201, 204, 16, 200) and g in SLOW)


jobs = [j for j in jobs if safe(j)]


def perturbed(a):
    return [go(x, a, env, cwd) for x, env, cwd in vs]


vs = variants(R)
for a, rs in zip(jobs, vlib.pmap(perturbed, jobs)):
    ck.evals += 1
    cmd = ' '.join(map(str, a))
    if any(r.timeout for r in rs):
        ck.inconclusive.append(cmd)
        continue
    base = rs[0]
    bad = next((i for i, r in enumerate(rs) if r.rc != base.rc or body(r.out) != body(base.out)), None)
    if bad is not None:
        x, y = body(base.out), body(rs[bad].out)
        df = next(((p, q) for p, q in zip(x + [''], y + ['']) if p != q), (len(x), len(y)))
        ck.violation('perturbed %s' % ('dump' if '-o' in a else 'test %s' % a[a.index('-d') + 1]), '%s: the same command gives %r and, in surroundings %d (%s), %r' % (cmd, df[0], bad, ['plain', 'heap/env/cwd', 'clock/pid/heap', 'stack/heap'][bad], df[1]),
                     {'args': a, 'variant': bad})
        continue
    if base.rc == 0 and ('-o' in a or interesting(base.out)):
        ck.seen(cmd)
    ck.count('executions', len(rs))

# --- (b) the seed shown reproduces the report
sj = []
for _ in range(40 if not vlib.THOROUGH else 500):
    d = R.choice([100, 101, 15, 203, 13, 2, 0, 14, 102, 202, 205])
    ts, ps = SMALL[d]
    sj.append((R.choice(gens), d, ts, R.choice([1, 3]), R.choice([0, 1])))


def reproduce(j):
    g, d, ts, ps, st = j
    f = report.ROWFLAGS | FL['seed'] | FL['show_rng']
    a = ['-g', g, '-d', d, '-t', ts, '-p', ps, '-D', f, '-s', st] + (['-n', 3] if d == 202 else [])
    r1 = go(ev, a)
    l = r1.out.splitlines()
    try:
        sd = int(l[0].split('|')[2]) if not st else int(l[1].split('|')[-1])
    except (IndexError, ValueError):
        return a, r1, None, None
    return a, r1, go(ev, a + ['-S', sd]), sd


for a, r1, r2, sd in vlib.pmap(reproduce, sj):
    ck.evals += 1
    if r1.timeout or (r2 and r2.timeout):
        ck.inconclusive.append(str(a)); continue
    if r2 is None:
        ck.violation('no seed', '%s: no seed in %r' % (a, r1.out[:300]), {'args': a}); continue
    if r1.out != r2.out:
        ck.violation('seed does not reproduce', '%s: report with seed %d:\n%s\nwith -S %d:\n%s' % (' '.join(map(str, a)), sd, r1.out[:500], sd, r2.out[:500]), {'args': a, 'seed': sd})
    elif sd and interesting(r1.out):
        ck.seen('%s seed %d' % (a, sd))

# --- (c) reseeded per test: prior tests do not matter; (d) not reseeded: one continuous stream
DEF = ','.join('%d:%d:%d' % (d, t, p) for d, (t, p) in SMALL.items())
pool = [d for d in SMALL if d not in (211, 4, 5, 6, 7)]


def hist(j):
    sub, env, args = j
    e = dict(env, VP_DEF=DEF, VP_ONLY=','.join(map(str, sub)))
    return vlib.run_ev(ev, args, env=e, timeout=300)


hj, meta = [], []
for k in range(10 if not vlib.THOROUGH else 120):
    w = R.choice([32, 31, 24, 16, R.randint(17, 32), 30])
    gen = R.choice(['600', '600', '600', R.choice(['11', '20', '22', '45', '208', '401', '6', '204', '203', '205', '21'])])
    tape = [0, (1 << w) - 1, R.getrandbits(40), 0, 0, 0]
    seed = R.randint(1, 10 ** 9)
    args = ['-g', gen, '-S', seed, '-s', 1, '-D', report.ROWFLAGS, '-a']
    sub = sorted(set(R.sample(pool, R.randint(3, 9)) + ([R.choice([4, 5, 6, 7])] if R.random() < 0.4 else [])))
    if gen == '21':
        sub = [d for d in sub if d not in (11, 12, 17, 201, 204)]
    singles = [[d] for d in sub]
    pairs = [sorted(R.sample(sub, min(len(sub), R.randint(2, 3)))) for _ in range(2)]
    for s in [sub] + singles + pairs:
        hj.append((s, {'VP_TAPE': ' '.join(map(str, tape))}, args))
        meta.append(k)
res = vlib.pmap(hist, hj)
groups = {}
for k, j, (r, e) in zip(meta, hj, res):
    groups.setdefault(k, []).append((j, r, e))
for k, g in groups.items():
    (sub, env, args), r0, e0 = g[0]
    ck.evals += 1
    if any(r.timeout for _, r, _ in g):
        ck.inconclusive.append(str((sub, args))); continue
    ref = {}
    bad = False
    for (s, _, _), r, e in g[1:] + g[:1]:
        rs, x = report.rows(r.out)
        if r.rc != 0 or rs is None:
            ck.violation('history ended', 'tests %s: status %s %s' % (s, r.rc, x), {'only': s, 'args': args, 'env': env}); bad = True; break
        for d in s:
            mine = [(x['name'], x['nt'], x['ts'], x['ps'], x['p']) for x in rs if x['num'] == d]
            full = [(x['irun'], x['nt'], x['p'], x['after'] - x['before']) for x in e if x['ev'] == 'test' and x['d'] == d]
            if d in ref and ref[d][:2] != (mine, full):
                o = ref[d]
                df = next(((p, q) for p, q in zip(o[1], full) if p != q), (o[0], mine))
                ck.violation('history test %d' % d, 'test %d gives %s after tests %s but %s after tests %s (same seed, reseeded per test, %s %s)' % (d, df[0], o[2], df[1], s, args, env), {'test': d, 'only': s, 'args': args, 'env': env, 'def': DEF})
                bad = True
                break
            ref.setdefault(d, (mine, full, s))
        if bad:
            break
    if not bad:
        ck.count('history_runs', len(g)); ck.seen('history %s %s' % (sub, env))

cj = []
for k in range(8 if not vlib.THOROUGH else 80):
    w = R.choice([32, 32, 31, 24, R.randint(17, 32)])
    sub = sorted(R.sample([d for d in pool if d not in (10, 12)], R.randint(3, 10)))
    cj.append((sub, {'VP_TAPE': '0 %d %d 0 0 0' % ((1 << w) - 1, R.getrandbits(40))}, ['-g', 600, '-S', R.randint(1, 10 ** 6), '-D', report.ROWFLAGS, '-a']))
for (sub, env, args), (r, e) in zip(cj, vlib.pmap(hist, cj)):
    ck.evals += 1
    if r.timeout:
        ck.inconclusive.append(str(sub)); continue
    i = next((i for i, x in enumerate(e) if x['ev'] == 'test'), None)
    if i is None or r.rc != 0:
        ck.violation('continuous ended', '%s: status %s' % (sub, r.rc), {'only': sub, 'args': args}); continue
    if any(x['ev'] == 'seed' for x in e[i:]):
        ck.violation('continuous reseed', 'tests %s without -s: the generator was reseeded during the run' % sub, {'only': sub, 'args': args}); continue
    pos = 0
    for x in e[i:]:
        if x['before'] != pos:
            ck.violation('continuous stream', 'tests %s without -s: test %d starts at word %d, expected %d' % (sub, x['d'], x['before'], pos), {'only': sub, 'args': args}); break
        pos = x['after']
    else:
        ck.seen('continuous %s %s' % (sub, env))
ck.finish(200, 150)
