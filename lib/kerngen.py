"""Generated kernel inputs with the value of their definition (R is set by the caller)."""
import math
import numpy as np
from scipy import special, stats
R = None


def Q(a, x):
    return float(special.gammaincc(a, x))


def counts(n, k, skew):
    w = [R.random() ** skew + 1e-6 for _ in range(k)]
    s = sum(w)
    return list(np.random.default_rng(R.getrandbits(60)).multinomial(n, [x / s for x in w]))


def f(x):
    return '%.17g' % x


def gen():
    t = R.choice('VVVVXPOEBGDbRRRRH')
    if t == 'V':
        n = R.choice([2, 3, 5, 10, 41, 200])
        cut = R.choice([5, 5, 5, 0.5, 20, 1.0])
        tot = R.choice([20, 200, 2000, 100000])
        mode = R.randrange(4)
        y = [R.random() ** R.choice([1, 4]) * tot * 2 / n for _ in range(n)]
        if mode == 1:
            for i in range(n):
                if R.random() < 0.5:
                    y[i] = R.random() * cut
        if mode == 2:
            y[R.randrange(n)] = cut            # exactly at the cutoff
        if mode == 3:
            y = sorted(y, reverse=True)
            for i in range(n // 2, n):
                y[i] = cut / (2.0 * n) * R.random() * R.choice([1, 5])
        x = [max(0, round(R.gauss(v, math.sqrt(v) * R.choice([1, 1, 3])))) for v in y]
        nd = R.choice([0, 0, 0, R.randint(1, n + 3)])
        line = 'V %d %s %d %s %s' % (n, f(cut), nd, ' '.join(map(f, x)), ' '.join(map(f, y)))
        big = [i for i in range(n) if y[i] >= cut]
        small = [i for i in range(n) if not y[i] >= cut]
        c = math.fsum((x[i] - y[i]) ** 2 / y[i] for i in big)
        nc = len(big)
        ty = math.fsum(y[i] for i in small)
        if small and abs(ty - cut) < 1e-9 * cut:
            return None
        if small and ty >= cut:
            c += (sum(x[i] for i in small) - ty) ** 2 / ty
            nc += 1
        dof = nd or nc - 1
        if dof < 1:
            return None
        return t, line, [Q(dof / 2, c / 2), c, dof]
    if t == 'X':
        s = R.choice([1.0, 21.9, 290.46, R.random() + 0.01, R.random() * 1e6 + 1e-3])
        y = R.choice([0.0, R.random() * 1e6 - 5e5])
        x = y + s * R.gauss(0, R.choice([0.5, 2, 4]))
        return t, 'X %s %s %s' % (f(x), f(y), f(s)), [float(special.ndtr((y - x) / s))]
    if t in 'PO':
        k = R.choice([2, 3, 5, 8, 12, 20])
        ns = R.choice([50, 100, 1000, 100000])
        if t == 'P':
            l = R.choice([0.5, 1.0, 2.0, 4.0, 8.0, R.random() * 9 + 0.1])
            pm = [float(stats.poisson.pmf(i, l)) for i in range(k)]
        else:
            l = R.choice([0.5, 0.25, R.random() * 0.8 + 0.1])
            pm = [l * (1 - l) ** i for i in range(k)]
        o = [max(0, round(R.gauss(ns * p, math.sqrt(ns * p) * R.choice([1, 1, 2])))) for p in pm]
        c = math.fsum((a - ns * p) ** 2 / (ns * p) for a, p in zip(o, pm))
        return t, '%s %s %d %d %s' % (t, f(l), k, ns, ' '.join(map(str, o))), [Q((k - 1) / 2, c / 2)]
    if t == 'E':
        k = R.choice([2, 3, 6, 24, 120])
        e = [R.random() * 200 + 1 for _ in range(k)]
        o = [max(0, R.gauss(v, math.sqrt(v))) for v in e]
        c = math.fsum((a - b) ** 2 / b for a, b in zip(o, e))
        return t, 'E %d %s %s' % (k, ' '.join(map(f, o)), ' '.join(map(f, e))), [Q((k - 1) / 2, c / 2)]
    if t == 'B':
        k = R.choice([2, 8, 16, 33, 64, 100])
        pr = R.choice([0.5, 0.5, R.random() * 0.8 + 0.1])
        ns = R.choice([200, 5000, 100000])
        o = list(np.random.default_rng(R.getrandbits(60)).binomial(k, min(0.99, max(0.01, pr + R.choice([0, 0, 0.01]))), ns))
        h = np.bincount(o, minlength=k + 1)
        h = [int(v) for v in h]
        if R.random() < 0.3:
            h[R.randrange(k + 1)] = R.choice([10, 11, 9])
        c, nd = 0.0, 0
        for i, v in enumerate(h):
            if v > 10:
                e = ns * float(stats.binom.pmf(i, k, pr))
                c += (v - e) ** 2 / e
                nd += 1
        if nd < 2 or not math.isfinite(c):
            return None
        return t, 'B %s %d %d %s' % (f(pr), k, ns, ' '.join(map(str, h))), [Q((nd - 1) / 2, c / 2)]
    if t == 'G':
        k = R.choice([2, 9, 27, 256, 2304, 3000])
        ni = R.choice([k, 5 * k, 100 * k, 1000 * k]) + R.randrange(k)
        o = counts(ni, k, R.choice([0, 0, 0.05, 0.3]))
        if R.random() < 0.3:
            j = R.randrange(k)
            o[(j + 1) % k] += o[j]
            o[j] = 0
        e = ni / k
        c = math.fsum(2 * v * math.log(v / e) for v in map(int, o) if v)
        q = 1 + (k + 1) / (6 * ni) + k * k / (6 * ni * ni)
        return t, 'G %d %d %s' % (ni, k, ' '.join(map(str, o))), [Q((k - 1) / 2, abs(c / q) / 2)]
    if t == 'D':
        r, c = R.choice([2, 3, 8, 20]), R.choice([2, 3, 8, 32])
        N = R.choice([50, 1000, 100000]) * 2
        while True:
            o = counts(N, r * c, R.choice([0, 0.1, 1]))
            a = np.array(o).reshape(r, c)
            if (a.sum(0) > 0).all() and (a.sum(1) > 0).all():
                break
            N *= 4
        e = np.outer(a.sum(1), a.sum(0)) / N
        x = float(((a - e) ** 2 / e).sum())
        return t, 'D %d %d %d %s' % (r, c, N, ' '.join(map(str, o))), [Q((r - 1) * (c - 1) / 2, x / 2)]
    if t == 'b':
        n = R.choice([1, 2, 10, 50, 100, 170])
        k = R.randint(0, n)
        p = R.choice([0.5, R.random(), 0.001, 0.999])
        v = float(stats.binom.pmf(k, n, p))
        if v < 1e-250:
            return None
        return t, 'b %d %d %s' % (n, k, f(p)), [v]
    if t == 'R':
        m = R.choice([1, 2, 6, 16, 31, 32, 33, 40, 64])
        n = R.choice([1, 6, 8, 31, 32, 32, 33, 48, 64, 65, 96])
        w = (n + 31) // 32
        kind = R.randrange(5)
        rows = []
        base = [R.getrandbits(n) for _ in range(R.randint(1, 6))]
        for _ in range(m):
            if kind == 0:
                v = R.getrandbits(n)
            elif kind == 1:
                v = 0
                for b in base:
                    if R.random() < 0.5:
                        v ^= b
            elif kind == 2:
                v = 1 << R.randrange(n)
            elif kind == 3:
                v = R.getrandbits(n) & R.getrandbits(n) & R.getrandbits(n)
            else:
                v = R.choice([0, (1 << n) - 1, R.getrandbits(n)])
            rows.append(v)
        piv = {}
        for v in rows:
            while v:
                h = v.bit_length()
                if h in piv:
                    v ^= piv[h]
                else:
                    piv[h] = v
                    break
        words = ' '.join(' '.join(str((v >> (32 * q)) & 0xffffffff) for q in range(w)) for v in rows)
        return t, 'R %d %d %s' % (m, n, words), [len(piv)]
    if t == 'H':
        nb = R.choice([10, 10, 10, 20, 5])
        n = R.choice([1, 10, 100, 1000, 3000])
        ps = R.choice([n, 100, 1])
        v = [R.random() ** R.choice([1, 1, 5]) for _ in range(n)]
        for _ in range(n // 10 + 1):
            v[R.randrange(n)] = R.choice([0.0, 1.0, 0.1, 0.5, 0.999999])
        return t, 'H %d %d %d %s' % (nb, ps, n, ' '.join(map(f, v))), (nb, ps, v)


def hist_ok(out, nb, ps, v):
    """out: lines of one histogram"""
    cutl = [i for i, l in enumerate(out) if '|-----' in l]
    rows = [l for l in out[:cutl[0] if cutl else 0] if l.startswith('#') and l.count('|') == nb + 1 and ('****|' in l or '    |' in l)]
    if len(rows) != 20:
        return 'expected 20 rows of bars, got %d' % len(rows)
    try:
        top = int(rows[0][1:].split('|')[0])
    except ValueError:
        return 'no axis label'
    if top % 20:
        return 'axis label %d' % top
    vs = top // 20
    cnt = [0] * nb
    sc = 1.0 / nb
    for x in v:
        cnt[min(nb - 1, int(x / sc))] += 1
    if max(cnt) >= 20 * vs or vs < 1:
        return 'scale %d does not fit the highest bin %d' % (vs, max(cnt))
    for j in range(nb):
        h = [l.split('|')[1 + j].count('*') > 0 for l in rows]
        want = [cnt[j] >= (20 - i) * vs for i in range(20)]
        if h != want:
            return 'bar %d shows %d steps of %d, bin holds %d values' % (j, sum(h), vs, cnt[j])
    return None
