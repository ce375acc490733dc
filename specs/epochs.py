"""Reference definitions: epoch boundaries, epoch overplots and isochrons (C28)."""
import numpy as np
import craterstats as cst
import craterstats.gm as gm


def boundaries(pf, cf, diameters, densities):
    """boundary times from the present: ages at which the active functions give the defining density (per 10^6 km2) at the defining diameter"""
    t = [0.]
    for i in range(len(diameters)):
        a0 = pf.fit({'presentation': 'cumulative', 'd': diameters[i], 'y': densities[i] / 1e6, 'err': 0})[0]
        t.append(cf.t(a0=np.array([a0]))[0])
    return t


def styles(formatting):
    """slant of names, (shade, time above/below, heavy boundary) of each epoch"""
    slant = int(formatting[0])
    shade = [int(e[0]) for e in formatting[1:]]
    raised = ['r' in e for e in formatting[1:]]
    heavy = ['b' in e for e in formatting[1:]]
    return slant, shade, raised, heavy


def shade_of(cps, ep, i):
    return cps.grey[3 - styles(ep.formatting)[1][i]]


def chronology_bands(ep, cps, phi):
    c = ep.cf.getplotdata(phi=phi, linear=True)
    r = []
    for i in range(1, len(ep.time) - 1):
        t = np.linspace(ep.time[i], ep.time[i + 1], 100)
        y = np.interp(t, c[0], c[1])
        r.append((t, y, y * 1e-11, shade_of(cps, ep, i)))
    return r


def chronology_lines(ep, cps, phi):
    c = ep.cf.getplotdata(phi=phi, linear=True)
    heavy = styles(ep.formatting)[3]
    r = []
    for i in range(1, len(ep.time)):
        t = ep.time[i]
        y = np.interp(t, c[0], c[1])
        r.append(([t, t], [y, y * 1e-11], cps.grey[0], .4 if heavy[i - 1] else .3, 1 if heavy[i - 1] else .3))
    return r


def chronology_names(ep, cps, phi):
    b = list(ep.time) + [cps.xrange[0]]
    r = []
    for i in range(len(ep.epoch)):
        t = (b[i] + b[i + 1]) / 2
        y = ep.cf.phi(t) if phi else ep.cf.N1(t)
        r.append((t - .03, y * 1.5, ep.epoch[i], styles(ep.formatting)[0]))
    return r


def chronology_times(ep, cps, phi):
    raised = styles(ep.formatting)[2]
    y = ep.cf.phi(ep.time[1]) * .7 if phi else ep.cf.N1(ep.time[1]) / 2.5
    r = []
    for i in range(1, len(ep.time)):
        r.append((f' {ep.time[i]:0.3g} ', (ep.time[i], y), 'bottom' if raised[i] else 'top'))
    return r


def sequence_bands(ep, cps):
    r = []
    for j in range(2 if cps.crossover else 1):
        for i in range(1, len(ep.time) - 1):
            r.append((cps.ax2[j], [ep.time[i], ep.time[i + 1]], [0, 0], [1, 1], shade_of(cps, ep, i)))
    return r


def sequence_lines(ep, cps):
    heavy = styles(ep.formatting)[3]
    r = []
    for j in range(2 if cps.crossover else 1):
        for i in range(1, len(ep.time)):
            w = 1 if heavy[i - 1] else .3
            r.append((cps.ax2[j], [ep.time[i], ep.time[i]], [0, 1], gm.mix_colours(cps.grey[0], 'black' if cps.invert else 'white', w), .4 if heavy[i - 1] else .3))
    return r


def short(name):
    w = [a[0] for a in name.replace('-', ' ').split(' ')]
    return w[0].lower() + w[1] if len(w) == 2 else w[0]


def sequence_names(ep, cps):
    """names of the epochs in view, each in the middle of its visible part"""
    r = []
    for j in range(2 if cps.crossover else 1):
        for i in range(len(ep.epoch)):
            lo = max(ep.time[i], cps.t_min)
            hi = min(ep.time[i + 1], cps.t_max) if i + 1 < len(ep.time) else cps.t_max
            if lo < hi:
                t = np.sqrt(lo * hi) if j else (lo + hi) / 2
                r.append((cps.ax2[j], t, short(ep.epoch[i])))
    return r


def count_curves(ep, cps):
    return [ep.pf.getisochron(cps.presentation, ep.cf.a0(t), cps.ef) for t in ep.time[1:]]


def count_bands(ep, cps):
    c = count_curves(ep, cps)
    r = []
    for i in range(len(c) - 1):
        x = np.concatenate((c[i]['d'], c[i + 1]['d'][::-1]))
        y = np.concatenate((c[i]['y'], c[i + 1]['y'][::-1]))
        r.append((np.log10(x), y, shade_of(cps, ep, i + 1)))
    return r


def count_lines(ep, cps):
    c = count_curves(ep, cps)
    heavy = styles(ep.formatting)[3]
    r = []
    for i in range(len(c) - 1):
        if heavy[i]:
            r.append((np.log10(c[i]['d']), c[i]['y'], cps.grey[0]))
    return r


def cut(pf, presentation, a0, ef):
    """isochron without the points exceeding 0.8 of the equilibrium curve (whose first and last values extend beyond its range)"""
    p = pf.getplotdata(presentation, a0)
    if ef is None:
        return p
    e = ef.getplotdata(presentation)
    keep = p['y'] < .8 * e['y'][np.maximum(np.searchsorted(e['d'], p['d']) - 1, 0)]
    return {'presentation': presentation, 'd': p['d'][keep], 'y': p['y'][keep]}


def isochrons(cps, times):
    return [cps.pf.getisochron(cps.presentation, cps.cf.a0(t), cps.ef) for t in times]


def isochron_curves(cps, times):
    return [(np.log10(c['d']), c['y']) for c in isochrons(cps, times)]


def on_curve(cps, t, x):
    return 10 ** (np.log10(cps.pf.evaluate(cps.presentation, 10 ** x, cps.cf.a0(t))) - .05)


def isochron_text(t):
    return cst.str_age(t, simple=True)
