"""reference definitions on the sphere"""
import math
import numpy as np
import spherely as sph
from craterstats import gm
import craterstats as cst


def unit(lonlat):
    """points on the unit sphere"""
    out = []
    for lon, lat in lonlat:
        x, y = math.radians(lon), math.radians(lat)
        out.append((math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y)))
    return out


def sdaa(pp, pts, regions, vertices):
    """standard deviation of the areas of the cells clipped to the mapped area, and the clipped cells"""
    cells = []
    for r in regions:
        shell = []
        for i in r:
            x, y, z = vertices[i]
            shell.append((math.degrees(math.atan2(y, x)), math.degrees(math.asin(z))))
        cells.append(sph.intersection(pp.polygon, sph.create_polygon(shell=shell)))
    areas = []
    for c in cells:
        areas.append(sph.area(c, radius=pp.planetary_radius))
    return np.std(areas), cells


def coordinates(points):
    """longitudes and latitudes of a sequence of points"""
    x = []
    y = []
    for lon, lat in points:
        x.append(lon)
        y.append(lat)
    return x, y


def uniform(x0, x1, y0, y1, u, v):
    """points uniform by area in a range of longitude and latitude, from two independent uniform variables"""
    s0, s1 = np.sin(np.radians(y0)), np.sin(np.radians(y1))
    return x0 + (x1 - x0) * u, np.degrees(np.arcsin(s0 + (s1 - s0) * v))


def latitudes(bounds, coords, north, south):
    """range of latitude reached by an outline whose edges are great circles"""
    lo, hi = bounds[1], bounds[3]
    for (xa, ya), (xb, yb) in zip(coords[:-1], coords[1:]):
        a, b = unit([(xa, ya), (xb, yb)])
        # normal of the great circle; its highest point lies at the colatitude of the normal
        k = 1 - (a[0] * b[0] + a[1] * b[1] + a[2] * b[2])
        t = min(max((b[2] - a[2] + k * a[2]) / (k * (a[2] + b[2])), 0), 1)
        p = [a[i] + t * (b[i] - a[i]) for i in range(3)]
        y = math.degrees(math.atan2(p[2], math.hypot(p[0], p[1])))
        lo, hi = min(lo, y), max(hi, y)
    if north:
        hi = 90
    if south:
        lo = -90
    return lo, hi

def score(real, trials):
    """(n_sigma, percentile, mean, standard deviation) of a measured value among simulated values"""
    m = np.mean(trials)
    s = np.std(trials)
    below = 0
    for t in trials:
        below = below + (1 if t < real else 0)
    return (real - m) / s, below / len(trials) * 100, m, s


def bin_numbers(d, d_min):
    """number (from 1) of the bin that holds each diameter"""
    return [np.sum(d_min <= x) for x in d]


def sigma_axis(v):
    """position of a score on the axis: central zone enlarged"""
    return np.sign(v) * np.abs(v)**.6


def value(s):
    return float(s)


def sigma_line(bins, scores, sign):
    """positions of the scores of bins (log2 of their lower edge): centre of the bin, score on the enlarged axis"""
    y = []
    for s in scores:
        y.append(None if s is None else sign * sigma_axis(s))
    return [np.log10(2**(b + .25)) for b in bins], y


def label(value, percentile):
    return f"{value:0.3g}\n{percentile}%"


def caption(lower, upper, n):
    return gm.diameter_range([lower, upper], 2) + f'\nn = {n}'


def cartesian(lon, lat, r):
    x, y = math.radians(lon), math.radians(lat)
    return r * math.cos(y) * math.cos(x), r * math.cos(y) * math.sin(x), r * math.sin(y)


def circle(x, y, r, ns):
    """closed polygon of ns edges around a point, anticlockwise from the east"""
    a = [2 * math.pi * i / ns for i in range(ns + 1)]
    return [x + r * math.cos(t) for t in a], [y + r * math.sin(t) for t in a]


def margin(values, lo, hi):
    """limits contain all values"""
    return lo <= min(values) and max(values) <= hi


def analysis(source, out=None):
    return cst.Randomnessanalysis(source, out=out)
