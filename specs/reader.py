import numpy as np


def pairs(diam, fraction):
    """the craters as a collection of (diameter, fraction) pairs, without order"""
    return sorted(zip(diam, fraction))


def numbers(s):
    return [float(e) for e in s]


def reciprocals(s):
    return [1. / float(e) for e in s]


def ones(s):
    return [1. for e in s]


def quads(diam, fraction, lon, lat):
    return sorted(zip(diam, fraction, lon, lat))


def stat(diam, n, ncum, ncum_density, n_event):
    """columns of a statistics file"""
    d = numbers(diam)
    n = np.array(numbers(n))
    ev = n if n_event is None else np.array(numbers(n_event))
    nc = np.array(numbers(ncum))
    d = np.array(d)
    upper = np.append(d[1:], d[-1] * d[-1] / d[-2])
    return dict(d_min=d, n=n, n_event=ev, ncum=nc, ncum_event=nc if n_event is None else np.flip(np.cumsum(np.flip(ev))),
                d_max=upper, d_mean=np.sqrt(d * upper), bin_width=upper - d, area=nc[0] / float(ncum_density[0]))


def count(path, second):
    import craterstats as cst
    return cst.Cratercount(path, second)


def spatial(path):
    import craterstats as cst
    return cst.Spatialcount(path)
