"""Reference definitions: tables over all overplots (C09, C30)."""
import craterstats as cst
import craterstats.gm as gm
import numpy as np
from .plot import age, clipped, DATED
from .pdf import older, time_at, density_at


def rank(t, i):
    """number of rows that are older, earlier rows first where equal"""
    n = 0
    for j in range(len(t)):
        if t[j] > t[i] or (t[j] == t[i] and j < i):
            n = n + 1
    return n


def quoted(v):
    return '"' + v + '"' if ',' in v else v


def triple(v, f):
    return [format(v[0], f), format(v[1], f), format(v[2], f)]


def summary(cps):
    cp = [e for e in cps.craterplot if e.type in DATED]
    if not cp:
        return None
    A = [age(e, cps) for e in cp]
    ages = [a['t'][0] for a in A]
    nd = f'N({cps.ref_diameter:0g})'
    head = ['Name', 'Area', 'Binning', 'd_min', 'd_max', 'Method', 'Resurf', 'N', 'N_event', 'Sort_order', 'Age', 'Age-', 'Age+', 'a0', 'a0-', 'a0+', nd, nd + '-', nd + '+', 'Source', ' ', 'Range', 'Age', nd, 'Age', nd]
    s = ',,,,,,,,,,,,,,,,,,,,Formatted values [paste MathML into Word using CTRL-SHIFT-V]\n,,,,,,,,,,,,,,,,,,,,,MathML,,Latex,\n' + ','.join(head)
    for i in range(len(cp)):
        e, a = cp[i], A[i]
        r = a['bin_range'] if e.type in ('c-fit', 'd-fit') and e.resurf != 1 else e.range
        t, n = a['t'], a['n_d']
        cells = [quoted(e.name if e.name != '' else gm.filename(e.source, 'n')), format(e.cratercount.area, '.5g'), quoted(e.binning), format(r[0], '.2g'), format(r[1], '.2g'), e.type, f'{e.resurf}', f"{a['n']}", f"{a['n_event']}", f'{rank(ages, i)}']
        cells = cells + triple(t, '.3g') + triple(a['a0'], '.4g') + triple(n, '.2e') + [quoted(e.source), ' ', gm.diameter_range(r)]
        cells = cells + [cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=cps.mu, MathML=True), gm.scientific_notation(n[0], n[2], n[1], unit='km-2', MathML=True)]
        cells = cells + [cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=cps.mu, MathML=False), gm.scientific_notation(n[0], n[2], n[1], unit='km-2', MathML=False)]
        s = s + '\n' + ','.join(cells) + '," "'
    return s


def sequence(cps):
    """text of the sequence table, None with fewer than two distributions"""
    units = [cp for cp in cps.craterplot if cp.type in ('poisson', 'b-poisson') and not cp.hide]
    n = len(units)
    if n < 2:
        return None
    pdf = [cst.Craterpdf(cps.pf, cps.cf, u.cratercount, clipped(u.range, cps.pf.range), bcc=u.type == 'b-poisson') for u in units]
    lines = ['Table of probability that t(x)>t(y)', ',' + ','.join([u.name for u in units])]
    for row in range(n):
        cells = [units[row].name]
        for col in range(n):
            if row == col:
                cells.append('')
            elif row < col:
                cells.append(gm.sigfigs(1 - older(pdf[row], pdf[col]), 2))
            else:
                cells.append(gm.sigfigs(older(pdf[col], pdf[row]), 2))
        lines.append(','.join(cells))
    lines.append(',' * n)
    t = [time_at(p, .5) for p in pdf]
    mean = sum(t) / n
    lines.append('t_median:,' + ','.join([f'{e:.3g}' for e in t]))
    lines.append('mean(t_median):,' + f'{mean:.4g}')
    # all units formed at the mean time: their distributions with the expectation scaled from their own median time
    same = [cst.Craterpdf(cps.pf, cps.cf, u.cratercount, u.range, k=p.k, lam=p.lam * (cps.cf.N1(e) / cps.cf.N1(mean))) for u, p, e in zip(units, pdf, t)]
    joint = 1
    observed = 1
    for p, e in zip(same, t):
        joint = joint * p.pdf
        observed = observed * density_at(p, e)
    dt = same[0].dt
    worse = np.sum(np.where(joint < observed, dt * joint, 0)) / np.sum(dt * joint)
    lines += ['', 'Probability of more distant time configuration than observed if all surfaces formed at t_mean:', ',' + f'{worse:g}']
    return '\n'.join(lines)
