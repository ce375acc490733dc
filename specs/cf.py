"""Reference definitions: chronology functions (C05)."""
import numpy as np


def N1(p, t):
    return p[0] * (np.exp(p[1] * t) - 1.) + p[3] * t


def phi(p, t):
    return p[0] * p[1] * np.exp(p[1] * t) + p[3]


def a0(p, t):
    return np.log10(N1(p, t))


def age(p, n1):
    ts = np.linspace(0., 5., 1000)
    return np.interp(n1, N1(p, ts), ts)


def age_a0(p, v):
    return age(p, 10 ** v)


def times(linear):
    return np.linspace(0., 5., 1000) if linear else 10 ** np.linspace(-9, np.log10(5), 1000)


def plotdata(p, ph, linear):
    t = times(linear)
    return t, phi(p, t) if ph else N1(p, t)
