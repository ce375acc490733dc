import numpy as np


def data_range(d, y):
    """smallest and largest diameter and density of the plotted points"""
    return np.min(d), np.max(d), np.min(y), np.max(y)


def decades(xr):
    """a labelled tick at every power of ten in range: kilometres from 1 km on, metres below"""
    v, names = [], []
    for e in range(-9, 10):
        if xr[0] <= e <= xr[1]:
            v.append(e)
            if e >= 0:
                names.append(f'{10.**e:0g}' + r'$\,$km')
            else:
                names.append(f'{10.**(e + 3):0g}' + r'$\,$m')
    return v, names


def root2(xr):
    """a tick at every power of two from 1/1024 km to 1024 km in range; the first one below 1 km says m, the one at 1 km says km"""
    names = ('1', '2', '4', '8', '16', '31', '63', '125', '250', '500', '  1km', '2', '4', '8', '16', '32', '64', '128', '256', '512', '1024')
    v, lab = [], []
    for e in range(-10, 11):
        x = e * np.log10(2.)
        if xr[0] <= x <= xr[1]:
            v.append(x)
            lab.append(names[e + 10] + ('m' if e < 0 and len(lab) == 0 else ''))
    return v, lab


def time(xr):
    """ages shown: (oldest, youngest, crossover, split?, start, ticks, labels, share of the linear part)"""
    t_max = min(max(max(xr), 3.), 4.5)
    t_min = min(max(min(xr), 0.), t_max - .1)
    split = 0 < t_min < 1
    if split:
        t_min = 10.**np.floor(np.log10(t_min))
        cross = 3.
        v = [e for e in (3., 3.5, 4.) if e <= t_max]
        lin = (t_max - 3.) / .7
        log = np.log10(3.) - np.log10(t_min)
        share = lin / (lin + log)
    else:
        cross = t_min
        share = 1
        span = t_max - t_min
        step = 1. if span > 2.5 else .5 if span > 1. else .2 if span > .5 else .1 if span > .25 else .05 if span > .1000001 else .02
        v = [e * step for e in range(0, 500) if t_min - 1e-9 <= e * step <= t_max + 1e-9]
    labels = [f'{e:.3g}' for e in v]
    labels[-1] = labels[-1] + ' Ga'
    return t_max, t_min, cross, split, t_max if t_max > cross else cross + .1, v, labels, share
