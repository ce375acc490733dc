import math
import numpy as np


def ratio(lf):
    """share of a unit circle's area cut off by a chord at the linear fraction lf of its diameter"""
    theta = 2 * np.arccos(1 - 2 * lf)
    return (theta - np.sin(theta)) / (2 * np.pi)


def penetration(af):
    lf = np.array([i / 99. for i in range(100)])
    return np.interp(af, ratio(lf), lf)


def penetration_code(af):
    import craterstats as cst
    return cst.fractional_crater_transform().af2lf(af)


def share(x):
    return x / (1 + x)


def diameter(area, radius):
    """of the spherical cap of that area"""
    return 2 * radius * math.acos(1 - area / (2 * math.pi * radius ** 2))


def kept(diam, fraction, lon, lat):
    return [(a, b, c, d) for a, b, c, d in zip(diam, fraction, lon, lat)]


def count(path, area):
    import craterstats as cst
    return cst.Spatialcount(path, area)
