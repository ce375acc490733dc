"""Reference definitions: how an age distribution is drawn (C36)."""
import math
import numpy as np

SIGMA = math.erf(1 / math.sqrt(2))


def at(p, fraction):
    """sample before the age at a cumulative fraction"""
    return np.searchsorted(p.ts, np.interp(fraction, p.cdf, p.ts)) - 1


def onesigma(p):
    a, b = at(p, (1 - SIGMA) / 2), at(p, 1 - (1 - SIGMA) / 2)
    return {'t': p.ts[a:b], 'p': p.pdf[a:b]}


def median(p):
    m = at(p, .5)
    return {'t': p.ts[m:m + 1], 'p': p.pdf[m:m + 1]}


def upper(a, b):
    return np.maximum(a, b)


def lower(a, b):
    return np.minimum(a, b)


def largest(a):
    return max(a[0], a[1])


def smallest(a):
    return min(a[0], a[1])


def upper_age(p, t_range=None):
    if t_range is not None:
        return t_range[1]
    return np.max(np.interp([.003, (1 - SIGMA) / 2, .5, 1 - (1 - SIGMA) / 2, .997], p.cdf, p.ts))


def violin(p, y, w0, i):
    if i == 0:
        a, b = at(p, .0001), at(p, .9999)
    elif i == 1:
        a, b = at(p, .16), at(p, .84)
    else:
        a = at(p, .5)
        b = a + 1
    h = .9 * w0 * p.pdf[a:b] / np.max(p.pdf)
    return {'t': p.ts[a:b], 'top': y + h, 'bottom': y - h}


UNITS = {'Ga': 1., 'Ma': 1e-3, 'ka': 1e-6, 'a': 1e-9}


def readings(labels):
    """ages (Ga) the labels stand for: the last carries the unit"""
    last = labels[-1].split()
    u = UNITS[last[1]]
    return [float(s) * u for s in labels[:-1]] + [float(last[0]) * u]


def close(a, b):
    return all([abs(x - y) <= 1e-4 * abs(y) + 1e-15 for x, y in zip(a, b)])


def ticks(t):
    import craterstats.gm as gm
    return gm.ticks([0., t], 3)
