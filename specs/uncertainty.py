"""Reference definition of the uncertainty maps (C31): every cell from the age of its column and the area of its row."""
import numpy as np
import craterstats as cst


def grid(n_samples, aspect):
    """cells along age and along area"""
    if aspect > 1:
        return n_samples, int(n_samples * aspect)
    return int(n_samples / aspect), n_samples


def ages(nx, t_min, t_crossover, t_max, linear):
    """logarithmic up to the crossover, linear above"""
    nlin = round(nx * linear)
    a = np.linspace(np.log10(t_min), np.log10(t_crossover), nx - nlin)
    b = np.linspace(t_crossover, t_max, nlin + 1)[1:]
    return np.concatenate((10 ** a, b))


def areas(ny, lo, hi):
    return 10 ** np.linspace(lo, hi, ny)


def cell(pf, cf, t, area, d_min):
    a0 = cf.a0(t)
    lam = (pf.evaluate('cumulative', d_min, a0) - pf.evaluate('cumulative', 1000., a0)) * area
    k = np.random.poisson(lam) if lam < 1e5 else int(lam)
    cc = cst.Cratercount()
    cc.area = area
    t3 = cst.Craterpdf(pf, cf, cc, [d_min, 1000.], k=k, n_samples=2000).median1sigma()
    err = np.sqrt(t3[2] / t3[1]) - 1
    ratio = t3[0] / t
    return {'lm': lam, 'kk': k, 'zz': 0 if np.isnan(err) else err, 'ee': 1 if np.isnan(ratio) else ratio}


def maps(pf, cf, n_samples, aspect, t_min, t_crossover, t_max, linear, lo, hi, d_min, what):
    nx, ny = grid(n_samples, aspect)
    out = np.zeros((nx, ny))
    for i, t in enumerate(ages(nx, t_min, t_crossover, t_max, linear)):
        for j, area in enumerate(areas(ny, lo, hi)):
            out[i, j] = cell(pf, cf, t, area, d_min)[what]
    return out


# ------------------------------------------------------------------ what each plot shows (area upwards, age from right to left)
def shown(plt, m):
    """value of the cell with age i, area j in the image of a plot"""
    if plt == 'k':
        return np.clip(m, 0, 8)
    if plt == 'err':
        return m * 100
    return np.log10(m)


def visible(v):
    """age ratios between 1/5 and 5 are coloured"""
    return np.where((v > np.log10(1 / 5)) & (v < np.log10(5)), v, np.nan)


def diameter(d):
    return ' ($d > ' + (f'{d:0.3g}$ km' if d >= 1 else f'{d * 1000:0.3g}$ m)')


def time_axis(xr, dims, pt_size):
    """{t_min, t_max, crossover, t_crossover, xfrac_linear, aspect_ratio}"""
    t_max = min(max(max(xr), 3.), 4.5)
    t_min = min(max(min(xr), 0.), t_max - .1)
    if t_min < 1 and t_min != 0:
        t_min = 10 ** np.floor(np.log10(t_min))
        lin = max(t_max - 3., 0) / .7
        r = {'crossover': True, 't_crossover': 3., 'xfrac_linear': lin / (lin + np.log10(3. / t_min))}
    else:
        r = {'crossover': False, 't_crossover': t_min, 'xfrac_linear': 1.}
    r['t_min'] = t_min
    r['t_max'] = t_max
    r['aspect_ratio'] = dims[1] / dims[0] if len(dims) > 1 else 1
    return r


def lower():
    return np.log10(1 / 5)


def upper():
    return np.log10(5)


def ticks_k():
    return [i + .5 for i in range(8)]


def labels_k():
    return ['0', '1', '2', '3', '4', '5', '6', '7+']


def ticks_age():
    return [np.log10(e) for e in [.1, .2, 1 / 3., .5, 1. / 1.4, 1., 1.4, 2., 3., 5., 10.]]


def labels_age():
    return ['0.1', '.2', '.33', '.5', '.7', '1', '1.4', '2', '3', '5', '10']


def above(lo, hi, area):
    """height at which the areas of the map exceed the whole globe; 1 if they do not"""
    a = np.log10(area)
    return (a - lo) / (hi - lo) if lo < a and a <= hi else 1.


def below(age, tmin, tc, tmax, linear):
    """width of the older part of the map in which the densities exceed equilibrium; 0 outside it"""
    if tmin < age and age <= tc:
        return linear + (1 - linear) * (np.log10(tc) - np.log10(age)) / (np.log10(tc) - np.log10(tmin))
    if tc < age and age <= tmax:
        return linear * (tmax - age) / (tmax - tc)
    return 0.


def saturation(cf, pf, ef, dmin):
    C = pf.evaluate('cumulative', [dmin, 1.])
    return cf.t(n1=ef.evaluate('cumulative', dmin) * C[1] / C[0])


def masked(x, y):
    return 1 - (1 - x) * y
