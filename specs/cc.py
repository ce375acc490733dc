"""Reference definitions: crater counts (C01, C02, C03, C08)."""
import numpy as np
import craterstats as cst

EPS = .001
PL = [1., 1.1, 1.2, 1.3, 1.4, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6., 7., 8., 9.]


def all_bins(binning, lo, hi, offset):
    """boundaries of the named style, from below 10^lo to above 10^hi"""
    if binning == 'pseudo-log':
        return np.array([10 ** e * f for e in range(int(np.floor(lo)), int(np.ceil(hi + .1))) for f in PL])
    k = {'x2': 1 / np.log10(2.), 'root-2': 2 / np.log10(2.), '4th root-2': 4 / np.log10(2.), '10/decade': 10., '20/decade': 20.}[binning]
    first = np.floor(lo * k + offset) - offset
    last = np.ceil(hi * k + offset) - offset
    return 10 ** (np.arange(first, last + 1) / k)


def bins(binning, d, offset, expand):
    if binning == 'none':
        return d
    lo = np.log10(np.min(d))
    hi = np.log10(np.max(d))
    if expand:
        hi = hi + EPS
    else:
        lo = lo + EPS
        hi = hi - EPS
    b = all_bins(binning, lo, hi, offset)
    i = max(np.searchsorted(b, 10 ** lo) - 1, 0)
    j = np.searchsorted(b, 10 ** hi)
    return b[i:j + 1]


def binned(binning, diam, fraction, offset):
    if binning == 'none':
        order = sorted(zip(diam, fraction))
        d = np.array([a for a, f in order])
        h = np.array([f for a, f in order])
        n = np.ones(len(h))
        return {'d_min': d, 'd_max': d, 'bin_width': np.zeros(len(diam)), 'd_mean': d, 'n': h, 'n_event': n,
                'ncum': np.flip(np.cumsum(np.flip(h))), 'ncum_event': np.flip(np.cumsum(np.flip(n)))}
    b = bins(binning, diam, offset, True)
    n, _ = np.histogram(diam, bins=b)
    h, _ = np.histogram(diam, weights=fraction, bins=b)
    lo = b[:-1]
    hi = b[1:]
    return {'d_min': lo, 'd_max': hi, 'bin_width': hi - lo, 'd_mean': np.sqrt(lo * hi), 'n': h, 'n_event': n,
            'ncum': np.flip(np.cumsum(np.flip(h))), 'ncum_event': np.flip(np.cumsum(np.flip(n)))}


def bin_of(binning, diam, offset):
    return np.digitize(diam, bins(binning, diam, offset, True))


def bias(beta, k):
    """ratio of mean density within a bin to the density at its geometric mean, for cumulative slope k (Michael 2013)"""
    return np.where(np.abs(k) < 1e-5, 1., (beta ** (k / 2) - beta ** (-k / 2)) / ((beta ** .5 - beta ** -.5) * k))


def stored(diam, fraction, prebinned, style, binning):
    return prebinned if prebinned else binned(binning, diam, fraction, 0.)


def plotdata(B, area, presentation, binning, rng, showall, slope, adj, only_adj):
    """B: stored bins; slope(d, beta): cumulative slope of the production function over each bin"""
    q = B['n'] > 0
    lo, hi, w, m = B['d_min'][q], B['d_max'][q], B['bin_width'][q], B['d_mean'][q]
    n, ne, c, ce = B['n'][q], B['n_event'][q], B['ncum'][q], B['ncum_event'][q]
    if presentation == 'cumulative':
        d = lo
        y = c / area + adj
        err = y / np.sqrt(ce)
    elif presentation == 'incremental':
        d = m
        y = n / area
        err = y / np.sqrt(ne)
    elif presentation == 'Hartmann':
        d = m
        y = n / w / area * d * (np.sqrt(2.) - 1.)
        err = y / np.sqrt(ne)
    elif presentation == 'R-plot':
        d = m
        y = n / w / area * d ** 3
        err = y / np.sqrt(ne)
    elif presentation == 'differential':
        d = m
        y0 = n / w / area
        err = y0 / np.sqrt(ne)
        beta = (m / lo) ** 2
        y = y0 / bias(beta, slope(d, beta))
    if rng is None:
        br = (lo[0], hi[-1])
    else:
        a = 0 if showall else rng[0]
        sel = (a < m) & (m < rng[1])
        d, y, err, n, ne = d[sel], y[sel], err[sel], n[sel], ne[sel]
        r0 = 0 if only_adj else rng[0]
        r0 = B['d_min'][0] if r0 == 0 else r0
        r1 = B['d_max'][-1] if rng[1] == np.inf else rng[1]
        bb = bins(binning, np.array([r0, r1]), 0., False)
        br = (bb[0], bb[-1])
    return {'presentation': presentation, 'd': d, 'y': y, 'err': err, 'n': np.sum(n), 'n_event': np.sum(ne), 'bin_range': br}


def standard_slope(d, beta):
    return -3.


def pf_slope(pf):
    def f(d, beta):
        g = np.sqrt(beta)
        return np.log10(pf.evaluate('cumulative', d * g) / pf.evaluate('cumulative', d / g)) / np.log10(beta)
    return f


def counted(diam, fraction, area, presentation, binning, rng, showall, pf, adj, only_adj):
    B = binned(binning, diam, fraction, 0.)
    return plotdata(B, area, presentation, binning, rng, showall, pf_slope(pf) if pf is not None else standard_slope, adj, only_adj)


def given(B, area, presentation, rng, showall, pf, adj, only_adj):
    return plotdata(B, area, presentation, 'pseudo-log', rng, showall, pf_slope(pf) if pf is not None else standard_slope, adj, only_adj)


def limit(B, r, snap):
    """(diameter, snaps?) for one limit as given"""
    if isinstance(r, str) and r[0] == 'b':
        m = B['d_mean'][B['n'] > 0]
        v = int(r[1:])
        k = len(m)
        v = min(max(v, -k), k)
        return m[v - 1] if v > 0 else m[v], 1
    return float(r), snap


def snapped(B, binning, lo, hi, snap):
    x, sx = limit(B, lo, snap)
    y, sy = limit(B, hi, snap)
    if y < x:
        y = x
    if binning != 'none':
        if sx and x > 0:
            i = max(np.searchsorted(B['d_min'], x * 1.0000001) - 1, 0)
            x0 = B['d_min'][i]
        else:
            x0 = x
        if sy and y <= B['d_max'][-1] - 1e-7:
            y0 = B['d_max'][np.searchsorted(B['d_max'], y * .999999)]
        else:
            y0 = y
    else:
        x0 = x
        y0 = y
    return [x0, y0]


def decoded(diam, fraction, binning, lo, hi, snap):
    return snapped(binned(binning, diam, fraction, 0.), binning, lo, hi, snap)


def decoded_given(B, binning, lo, hi, snap):
    return snapped(B, binning, lo, hi, snap)


def adjustment(cc, pf, rng):
    """constant added by the resurfacing correction"""
    p = cc.getplotdata('cumulative', cc.binning, range=rng)
    y, d = p['y'], p['d']
    k = len(d)
    adj = 0.
    if k > 1:
        previous = np.inf
        repeats = 0
        while repeats == 0 or (abs(previous - adj) >= .0001 and repeats <= 20):
            previous = adj
            q = {'presentation': p['presentation'], 'd': d, 'y': y + adj, 'err': p['err'], 'n': p['n'], 'n_event': p['n_event'], 'bin_range': p['bin_range']}
            a0 = pf.fit(q)
            adj = pf.evaluate('cumulative', d[k - 1], a0[0]) - y[k - 1]
            repeats = repeats + 1
    return adj


def corrected(cc, B, area, presentation, binning, rng, showall, pf, on):
    adj = cc.resurf_adj(pf, rng) if on else 0.
    return plotdata(B, area, presentation, binning, rng, showall, pf_slope(pf), adj, on)


def data_of(cp, cps, presentation):
    """plot data of an overplot in a presentation"""
    on = 1 if cp.resurf and cp.type == 'c-fit' else 0
    return cp.cratercount.getplotdata(presentation, cp.binning, range=cp.range, resurfacing=on, showall=cp.resurf_showall, pf=cps.pf)


def data_range(cp, cps):
    p = data_of(cp, cps, cps.presentation)
    if len(p['d']) == 0:
        return np.nan, np.nan, np.nan, np.nan
    return np.min(p['d']), np.max(p['d']), np.min(p['y']), np.max(p['y'])


def noop():
    return None
