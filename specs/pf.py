"""Reference definitions: production functions (C04), written from Michael & Neukum 2010 Eq. 1, Arvidson 1979, Michael 2013."""
import numpy as np


def x(d):
    return np.log(d) / np.log(10)


def poly_C(a, d, a0):
    s = a0
    for i in range(1, len(a)):
        s = s + a[i] * x(d) ** i
    return 10 ** s


def poly_F(a, d, a0):
    # - dC/dd, with C = 10^p(log10 d):  C' = C * p'(log10 d) / d
    s = 0.
    for i in range(1, len(a)):
        s = s + i * a[i] * x(d) ** (i - 1)
    return -poly_C(a, d, a0) * s / d


def poly_R(a, d, a0):
    return poly_F(a, d, a0) * d ** 3


def poly_H(a, d, a0):
    return poly_F(a, d, a0) * d * (2 ** .25 - 2 ** -.25)


def poly_C10(a, x10, a0):
    return np.log10(poly_C(a, 10 ** x10, a0))


def poly_F10(a, x10, a0):
    return np.log10(poly_F(a, 10 ** x10, a0))


def evaluate(a, presentation, d, a0):
    if a0 is None:
        a0 = a[0]
    if presentation == 'cumulative':
        return poly_C(a, d, a0)
    if presentation == 'differential':
        return poly_F(a, d, a0)
    if presentation == 'R-plot':
        return poly_R(a, d, a0)
    return poly_H(a, d, a0)


def bin_bias(beta, k):
    if abs(k) < 1e-5:
        return 1.
    return (beta ** (k / 2) - beta ** (-k / 2)) / ((beta ** .5 - beta ** -.5) * k)


def tab(h, i1):
    """cumulative log10 N(>=d_min) normalised to zero at 1 km, bin edges and means"""
    n = len(h)
    cum = [sum(h[j:]) for j in range(n)]
    lc = [np.log10(c) - np.log10(cum[i1]) for c in cum]
    dmin = [2. ** ((j - i1) / 2) for j in range(n)]
    dmean = [e * 2 ** .25 for e in dmin]
    return lc, dmin, dmean


def tab_C(h, i1, d, a0):
    lc, dmin, dmean = tab(h, i1)
    return 10 ** np.interp(x(d), [np.log10(e) for e in dmin], [e + a0 for e in lc])


def tab_inc(h, i1, a0):
    lc, dmin, dmean = tab(h, i1)
    c = [10 ** (e + a0) for e in lc] + [0.]
    return [c[j] - c[j + 1] for j in range(len(h))]


def tab_H(h, i1, d, a0):
    lc, dmin, dmean = tab(h, i1)
    return 10 ** np.interp(x(d), [np.log10(e) for e in dmean], [np.log10(e) for e in tab_inc(h, i1, a0)])


def tab_f(h, i1, a0):
    lc, dmin, dmean = tab(h, i1)
    inc = tab_inc(h, i1, a0)
    n = len(h)
    k = [(lc[j] - lc[j + 1]) / np.log10(2 ** .5) for j in range(n - 1)]
    k.append(k[n - 2])
    return [inc[j] / (dmean[j] * (2 ** .25 - 2 ** -.25)) / bin_bias(2 ** .5, k[j]) for j in range(n)]


def tab_F(h, i1, d, a0):
    lc, dmin, dmean = tab(h, i1)
    return 10 ** np.interp(x(d), [np.log10(e) for e in dmean], [np.log10(e) for e in tab_f(h, i1, a0)])


def tab_R(h, i1, d, a0):
    lc, dmin, dmean = tab(h, i1)
    f = tab_f(h, i1, a0)
    return 10 ** np.interp(x(d), [np.log10(e) for e in dmean], [np.log10(f[j] * dmean[j] ** 3) for j in range(len(h))])


def clip(v, lo, hi):
    return min(max(v, lo), hi)


def grid(lo, hi, n):
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def plotgrid(lo, hi):
    return 10. ** np.linspace(np.log10(lo), np.log10(hi), 400)


def plotdata(a, presentation, a0, q0, q1, r0, r1):
    lo = r0 if q0 is None else clip(q0, r0, r1)
    hi = r1 if q1 is None else clip(q1, r0, r1)
    d = plotgrid(lo, hi)
    return {'presentation': presentation, 'd': d, 'y': evaluate(a, presentation, d, a0)}


def tab_range(h, i1):
    lc, dmin, dmean = tab(h, i1)
    return [dmean[0], dmean[len(h) - 1]]


def pair(a, b):
    return [a, b]
