"""Reference definitions: one overplot (C07, C09, C30)."""
import numpy as np
import craterstats as cst
import craterstats.gm as gm

DATED = ('c-fit', 'd-fit', 'poisson', 'b-poisson')


def clipped(r, lim):
    return [min(max(r[0], lim[0]), lim[1]), min(max(r[1], lim[0]), lim[1])]


def age(cp, cps):
    """ages and offsets as [best, lower, upper]"""
    if cp.type == 'poisson' or cp.type == 'b-poisson':
        pdf = cst.Craterpdf(cps.pf, cps.cf, cp.cratercount, clipped(cp.range, cps.pf.range), bcc=cp.type == 'b-poisson')
        t = pdf.median1sigma()
        a0 = cps.cf.a0(t)
        n = pdf.k
        ne = pdf.k
        br = None
    else:
        pdf = None
        if cp.type == 'c-fit':
            p = cp.cratercount.getplotdata('cumulative', cp.binning, range=cp.range, resurfacing=1 if cp.resurf else 0, pf=cps.pf)
        else:
            p = cp.cratercount.getplotdata('differential', cp.binning, range=cp.range, pf=cps.pf)
        a0 = cps.pf.fit(p)
        t = [cps.cf.t(a0=a0[0]), cps.cf.t(a0=a0[1]), cps.cf.t(a0=a0[2])]
        n = p['n']
        ne = p['n_event']
        br = p['bin_range']
    nd = [cps.pf.evaluate('cumulative', cps.ref_diameter, a0[0]), cps.pf.evaluate('cumulative', cps.ref_diameter, a0[1]), cps.pf.evaluate('cumulative', cps.ref_diameter, a0[2])]
    return {'t': t, 'a0': a0, 'n': n, 'n_event': ne, 'bin_range': br, 'n_d': nd, 'pdf': pdf}


def age_text(A, sf, mu):
    t = A['t']
    return cst.str_age(t[0], t[2] - t[0], t[0] - t[1], sf, mu=mu)


def fit_curve(cp, cps, A):
    return cps.pf.getplotdata(cps.presentation, A['a0'][0], range=[cp.range[0] * .99, cp.range[1] * 1.01])


def isochron(cp, cps, A):
    return cps.pf.getisochron(cps.presentation, A['a0'][0], cps.ef)


def shown_range(cp):
    if cp.type in ('poisson', 'b-poisson') and not cp.cratercount.prebinned:
        return cp.range
    b = cp.cratercount.binned
    lo = b['d_min'][0] if cp.range[0] == 0 else cp.range[0]
    hi = b['d_max'][-1] if cp.range[1] == np.inf else cp.range[1]
    v = cp.cratercount.generate_bins(cp.binning, [lo, hi], expand=False)
    return [np.min(v), np.max(v)]


def legend(cp, cps):
    """legend entries from the stored age, counts and range of an overplot"""
    s = []
    L = cps.legend
    if cp.type in DATED:
        if cps.presentation == 'sequence':
            if 'A' in L:
                s.append(cst.str_age(cp.t[0], cp.t[2] - cp.t[0], cp.t[0] - cp.t[1], cps.sig_figs, mu=cps.mu))
            if 'a' in L:
                s.append(gm.scientific_notation(cp.cratercount.area, sf=3, unit='km2'))
        if 'c' in L:
            if cp.cratercount.buffered:
                w = f'{cp.n_event:.1f}'
            elif abs(cp.n_event - cp.n) < .001:
                w = f'{cp.n:0g}'
            else:
                w = f'{cp.n:.1f} (of {cp.n_event:.0f})'
            s.append(w + ' craters' + (' (buffered)' if cp.cratercount.buffered or cp.type == 'b-poisson' else ''))
        if 'r' in L:
            s.append(gm.diameter_range(shown_range(cp)))
        if 'N' in L:
            n = [cps.pf.evaluate('cumulative', cps.ref_diameter, e) for e in cp.a0]
            s.append(f'N({cps.ref_diameter:0g})=' + gm.scientific_notation(n[0], n[2], n[1], unit='km-2'))
    else:
        if 'n' in L:
            s.append(cp.name if cp.name != '' else gm.filename(cp.source, 'n'))
        if 'a' in L:
            s.append(gm.scientific_notation(cp.cratercount.area, sf=3, unit='km2'))
        if 'p' in L:
            if cp.cratercount.perimeter:
                s.append(gm.scientific_notation(cp.cratercount.perimeter, sf=3) + ' km')
    return s


def joined(cp, cps):
    s = legend(cp, cps)
    return ', '.join(s) if s else None


def limits(best, y, d, err):
    """offset triple of a fit: limits shifted by the error bar of the first point"""
    return [best, best - np.log10(y[0]) + np.log10(y[0] - .98 * err[0]), best - np.log10(y[0]) + np.log10(y[0] + .98 * err[0])]
