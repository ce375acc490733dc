"""Reference definitions: Poisson age distributions (C06, C30)."""
import sys
import numpy as np
import math
from scipy.integrate import simpson
from scipy.stats import poisson


def number(diam, rng):
    """craters in [lower, upper)"""
    return sum([1 for e in diam if rng[0] <= e and e < rng[1]])


def number_binned(b, rng):
    return np.sum(b['n_event'][(b['d_min'] >= rng[0]) & (b['d_max'] <= rng[1])])


def expectation(pf, a0, x, area, rng):
    return area * (pf.evaluate('cumulative', rng[0], a0) - pf.evaluate('cumulative', rng[1], a0)) * 10 ** x


def buffered(pf, a0, x, area, perimeter, rng):
    d = np.linspace(rng[0], rng[1], 500)
    y = (area + perimeter * d / 2 + np.pi * d ** 2 / 4) * pf.evaluate('differential', d, a0)
    return simpson(y, x=d) * 10 ** x


def distribution(pf, cf, k, lam, n, given=False):
    """{ts, dt, k, lam, pdf, cdf}; lam: expectation as a function of the offsets, or its values"""
    x = np.linspace(-10, 5, n)
    a0 = cf.a0(1.)
    ts = cf.t(a0=a0 + x)
    dt = ts - np.roll(ts, 1)
    dt[0] = dt[1]
    if not given:
        lam = lam(a0, x)
    p = poisson.pmf(k, lam) * cf.phi(ts)
    if np.sum(p) < 1e-30:
        p[np.searchsorted(lam, k)] = 1.
    pdf = p / np.sum(p * dt)
    return {'ts': ts, 'dt': dt, 'k': k, 'lam': lam, 'pdf': pdf, 'cdf': np.cumsum(pdf * dt)}


def unbuffered_list(pf, cf, diam, area, rng, n):
    return distribution(pf, cf, number(diam, rng), lambda a0, x: expectation(pf, a0, x, area, rng), n)


def unbuffered_binned(pf, cf, b, area, rng, n):
    return distribution(pf, cf, number_binned(b, rng), lambda a0, x: expectation(pf, a0, x, area, rng), n)


def unbuffered_given(pf, cf, k, area, rng, n):
    return distribution(pf, cf, k, lambda a0, x: expectation(pf, a0, x, area, rng), n)


def buffered_list(pf, cf, diam, area, perimeter, rng, n):
    return distribution(pf, cf, number(diam, rng), lambda a0, x: buffered(pf, a0, x, area, perimeter, rng), n)


def buffered_binned(pf, cf, b, area, perimeter, rng, n):
    return distribution(pf, cf, number_binned(b, rng), lambda a0, x: buffered(pf, a0, x, area, perimeter, rng), n)


def time_at(pdf, fraction):
    return np.interp(fraction, pdf.cdf, pdf.ts)


def fraction_at(pdf, t):
    return np.interp(t, pdf.ts, pdf.cdf)


def density_at(pdf, t):
    return np.interp(t, pdf.ts, pdf.pdf)


def percentiles(n):
    g = [.5]
    for i in range(1, n + 1):
        f = (1 - math.erf(i / np.sqrt(2.))) / 2
        g = [f] + g + [1 - f]
    return g


def best_low_high(pdf):
    f = (1 - math.erf(1 / np.sqrt(2.))) / 2
    return [time_at(pdf, .5), time_at(pdf, f), time_at(pdf, 1 - f)]


def ratio(pdf, t):
    return density_at(pdf, t) / density_at(pdf, time_at(pdf, .5))


def older(a, b):
    """probability that a is older than b, the cumulative fraction of b taken at bin mid-points"""
    return np.sum(a.pdf * a.dt * (b.cdf + np.roll(b.cdf, 1)) / 2)
