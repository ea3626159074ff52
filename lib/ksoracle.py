"""Independent oracle for the final (Kolmogorov-Smirnov / Kuiper) p-value."""
import math
import numpy as np
from scipy import stats
import vlib


def durbin_sf(n, d):
    """P(D_n >= d) by Durbin's matrix, powers of two kept apart"""
    t = n * d
    k = int(t) + 1
    m = 2 * k - 1
    h = k - t
    i = np.arange(m)
    df = i[:, None] - i[None, :] + 1
    H = np.where(df >= 0, 1.0, 0.0)
    H[:, 0] -= h ** (i + 1.0)
    H[m - 1, :] -= h ** (m - i * 1.0)
    if 2 * h - 1 > 0:
        H[m - 1, 0] += (2 * h - 1) ** m
    from scipy.special import gammaln
    H *= np.exp(-gammaln(np.maximum(df, 0) + 1.0))
    Q, eQ, P, eP, e = np.eye(m), 0, H, 0, n
    while e:
        if e & 1:
            Q, eQ = Q @ P, eQ + eP
            f = math.frexp(np.abs(Q).max())[1]
            Q, eQ = np.ldexp(Q, -f), eQ + f
        e >>= 1
        if e:
            P, eP = P @ P, 2 * eP
            f = math.frexp(np.abs(P).max())[1]
            P, eP = np.ldexp(P, -f), eP + f
    c = Q[k - 1, k - 1]
    if c <= 0:
        return 1.0
    return min(1.0, max(0.0, 1 - math.exp(math.lgamma(n + 1) - n * math.log(n) + eQ * math.log(2) + math.log(c))))


def oracle(p, mode):
    p = np.sort(np.array(p))
    n = len(p)
    if n == 1:
        return p[0], 'single', 1e-15
    rn = math.sqrt(n)
    if mode >= 3:
        v = p - np.arange(n) / n
        V = max(0, v.max()) - min(0, v.min())
        x = (rn + 0.155 + 0.24 / rn) * V
        if x < 0.2:
            return 1.0, 'kuiper-small', 1e-6
        j = np.arange(1, 500, dtype=float)
        t = j * j * x * x
        e = np.exp(-2 * t)
        r = 2 * math.fsum((4 * t - 1) * e) - 8 * x / (3 * rn) * math.fsum(j * j * (4 * t - 3) * e)
        # below x=0.4 the series is 1 to seven digits for large n only; the code returns 1 there
        if x < 0.42:
            return 1.0, 'kuiper-small', 2e-2 if n < 100 else 1e-2
        return min(1.0, max(0.0, r)), 'kuiper', 1e-9
    d = np.abs(p - np.arange(1, n + 1) / (n + 1.0)).max()
    s = d * d * n
    if mode == 0 and n > 4999:
        x = (rn + 0.12 + 0.11 / rn) * d
        if x < 0.2:
            return 1.0, 'asymptotic', 1e-9
        j = np.arange(1, 400)
        r = 2 * math.fsum(np.where(j % 2 == 1, 1, -1) * np.exp(-2.0 * j * j * x * x))
        return min(1.0, max(0.0, r)), 'asymptotic', 1e-9
    if mode != 2:
        lim = [7.24] + ([3.76] if n > 99 else [])
        if any(abs(s - l) < 1e-9 for l in lim):
            return None
        if s > min(lim):
            return 2 * math.exp(-(2.000071 + .331 / rn + 1.409 / n) * s), 'tail', 1e-12
    if n * d > 220:
        return None
    a = float(stats.kstwo.sf(d, n))
    if n > 120:       # scipy switches to an expansion; use the matrix form, checked against it
        b = durbin_sf(n, d)
        if abs(a - b) > 1e-4:
            raise vlib.HarnessError('oracles disagree: %d %r %r %r' % (n, d, a, b))
        a = b
    return a, 'exact', 2e-7
