from analyser.harness import *
from analyser import bounds
from checks.c08 import overplot, cpset, PF, TYPES
import fractions

RULE = ('the range of each overplot is decided by value numbering: it is the smallest and largest diameter and density of exactly the data the same overplot draws (same selection, binning, correction and '
        'model, as the parameters of the two calls). For the chosen axis ranges, extracted as terms over symbolic data ranges, the inequalities `axis start <= data start - margin` and `axis end >= data end + margin` '
        'are proved by linear bounds (floor x <= x <= ceil x, |x| >= 0, min/max against every operand, every branch of every gate); an inequality with an interpretation in which it fails is the violation')
TECHNIQUE = 'symbolic linear bounds of value-flow terms (inequality proof), value numbering, random interpretation for refutation'
FNS = ['Craterplotset.autoscale', 'Craterplot.get_data_range', 'gm.maths.range.range', 'gm.maths.mag.mag']
Q = 'craterstats.'
G = Q + 'Craterplot.Craterplot.get_data_range'
F = fractions.Fraction
BINNED = ('cumulative', 'differential', 'R-plot', 'Hartmann')
RANGES = {'cumulative': ((-3, 2), (-4, 1)), 'differential': ((-3, 2), (-5, 5)), 'R-plot': ((-2, 3), (-4, 1)), 'Hartmann': ((-3.15, 2.56), (-8, 5)), 'chronology': ((4.5, 0), (-6, 2)), 'rate': ((4.5, 0), (-6, 3))}


def data(c, i):
    """any positive start, any non-negative number of decades"""
    ten = lambda e: tm.power(num(10), e)
    x, y = c.num(f'lx{i}'), c.num(f'ly{i}')
    return ten(x), ten(tm.add(x, tm.scale(c.num(f'z_dx{i}'), F(3)))), ten(y), ten(tm.add(y, tm.scale(c.num(f'z_dy{i}'), F(3))))


def setup(pres, n, empty=(), none=(), ra=False, given=(None, None)):
    """autoscale over n overplots; `empty`: overplots without data (NaN range), `none`: overplots which raise (no data to plot)"""
    c = Ctx(opaque=[G])
    cps = []
    for i in range(n):
        nsig = c.dict(bin=c.list(c.num(f'p_b{i}0'), c.num(f'p_b{i}1')), **{m: c.any(f'{m}{i}') for m in (('m2cnd',) if ra is True else ra)}) if ra else NONE
        cps.append(c.obj('Craterplot', binning='pseudo-log', type='data', idx=num(i), cratercount=c.obj('Cratercount', n_sigma=nsig), hide=0))
    c.fn(G)
    seen = []

    def model(I, st, args, kw, node):
        a = args[0] if args else kw['self']
        i = int(I.get_attr(st, a, 'idx', None).a[0])
        seen.append(i)
        if i in none:
            I.raise_(st, 'TypeError', string('no data'), node)
            return NONE
        if i in empty:
            return tup(*[tm.NAN] * 4)
        return tup(*data(c, i))
    c.I.models[G] = model

    def isnan(I, st, args, kw, node):
        return TRUE if tm.contains(I.freeze(st, args[0]), lambda x: x.op == 'nan') else FALSE
    c.I.models['numpy.isnan'] = isnan
    s = c.obj('Craterplotset', presentation=string(pres), craterplot=c.list(*cps), ra_show=1 if ra else 0)
    kw = {}
    for k, v in zip(('xrange', 'yrange'), given):
        if v:
            kw[k] = c.list(c.num(f'{k}0'), c.num(f'{k}1'))
    o = c.run((s, 'autoscale'), **kw)
    return c, s, o, seen


def axes(c, s, o):
    out = []
    for k in ('xrange', 'yrange'):
        v = c.I.get_attr(o.st, s, k, None)
        out.append((c.item(o, v, 0), c.item(o, v, 1)))
    return out


def margins(c, pres, idx, ranges, k=(0, 1)):
    my = num(F(6, 10) if pres == 'differential' else F(3, 10))
    out = []
    for i in idx:
        x0, x1, y0, y1 = data(c, i)
        xr, yr = ranges
        if 0 in k:
            out += [(f'start of the x axis is at least 0.3 below data {i}', tm.sub(tm.sub(tm.log10(x0), num(F(3, 10))), xr[0])),
                    (f'end of the x axis is at least 0.8 above data {i}', tm.sub(xr[1], tm.add(tm.log10(x1), num(F(8, 10)))))]
        if 1 in k:
            out += [(f'start of the y axis is at least {tm.show(my)} below data {i}', tm.sub(tm.sub(tm.log10(y0), my), yr[0])),
                    (f'end of the y axis is at least {tm.show(my)} above data {i}', tm.sub(yr[1], tm.add(tm.log10(y1), my)))]
    return out


def decide(goals, where='Craterplotset.autoscale'):
    cases, open_ = 0, []
    for label, t in goals:
        ok, P = bounds.prove(t)
        cases += P.cases
        if not ok:
            open_.append((label, t))
    if open_:
        # an interpretation of the data in which the inequality fails is the violation
        equal(where, [(label, tm.bnot(tm.lt(t, num(F(-1, 10**6)))), TRUE) for label, t in open_], samples=400)
        raise Undecided(f'{where}: not derived from linear bounds, no counterexample: ' + '; '.join(l for l, _ in open_))
    return f'linear bounds ({len(goals)} inequalities, {cases} branches)'


def finished(o, where='Craterplotset.autoscale'):
    if any(a.pc is not FALSE for a in o.aborts):
        raise Violation(where, f'refuses data: {[str(a)[:80] for a in o.aborts][:2]}')


def obligations(tier):
    obs = []

    def inside(pres, n, **kw):
        def f():
            c, s, o, seen = setup(pres, n, **kw)
            finished(o)
            gone = set(kw.get('empty', ())) | set(kw.get('none', ()))
            if set(range(n)) - set(seen):
                raise Violation('Craterplotset.autoscale', f'the data range of overplot {sorted(set(range(n)) - set(seen))} is not asked for')
            m = decide(margins(c, pres, [i for i in range(n) if i not in gone], axes(c, s, o)))
            return dict(methods=[m], functions=FNS)
        return f
    for pres in BINNED:
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            obs.append(Ob(f'axes of a {pres} plot contain {n} data set{"s" if n > 1 else ""} with the margins', inside(pres, n), limit=300))
        obs.append(Ob(f'axes of a {pres} plot contain the data when another overplot has none', inside(pres, 3, empty=(0,), none=(2,)), limit=300))
        obs.append(Ob(f'axes of a {pres} plot of many overplots contain the data of the first and last', inside(pres, 45, empty=range(1, 44)), limit=300))
        obs.append(Ob(f'axes of a {pres} plot with a randomness strip contain the data', inside(pres, 1, ra=True), limit=300))

    def nothing(pres, **kw):
        def f():
            c, s, o, seen = setup(pres, 2, **kw)
            finished(o)
            (x0, x1), (y0, y1) = axes(c, s, o)
            (a, b), (d, e) = RANGES[pres]
            q = lambda v: num(F(str(v)))
            m = equal('Craterplotset.autoscale', [('start of x', x0, q(a)), ('end of x', x1, q(b)), ('start of y', y0, q(d)), ('end of y', y1, q(e))])
            return dict(methods=[m], functions=FNS[:1])
        return f
    for pres in BINNED:
        obs.append(Ob(f'{pres} plot without data: the standard axes', nothing(pres, empty=(0, 1))))
        obs.append(Ob(f'{pres} plot of overplots which cannot be plotted: the standard axes', nothing(pres, empty=(0,), none=(1,))))

    def given(pres, gx, gy, **kw):
        def f():
            c, s, o, seen = setup(pres, 1, given=(gx, gy), **kw)
            finished(o)
            r = axes(c, s, o)
            ps = []
            for j, (k, on) in enumerate((('xrange', gx), ('yrange', gy))):
                if on:
                    ps += [(f'{k} start', r[j][0], c.num(f'{k}0')), (f'{k} end', r[j][1], c.num(f'{k}1'))]
            ms = [equal('Craterplotset.autoscale', ps)]
            if not kw.get('empty'):
                rest = [j for j, on in enumerate((gx, gy)) if not on]
                if rest:
                    ms.append(decide(margins(c, pres, [0], r, rest)))
            return dict(methods=ms, functions=FNS[:1])
        return f
    for pres in ('cumulative', 'differential') if tier == 'quick' else BINNED:
        for gx, gy in ((1, 0), (0, 1), (1, 1)):
            what = 'x and y ranges' if gx and gy else 'x range' if gx else 'y range'
            obs.append(Ob(f'{pres}: given {what} kept, the rest contains the data', given(pres, gx, gy)))
            obs.append(Ob(f'{pres}: given {what} kept without data', given(pres, gx, gy, empty=(0,))))

    def same(pres, typ, resurf, showall):
        """the range is that of the data drawn"""
        def f():
            GP = Q + 'Cratercount.Cratercount.getplotdata'
            res = []
            for which in ('overplot', 'get_data_range'):
                c = Ctx(opaque=PF + [GP, Q + 'Craterplot.Craterplot.calculate_age', Q + 'Craterplot.Craterplot.oplot_n_sigma'])
                c.fn(GP)
                rec = []

                def model(I, st, args, kw, node, rec=rec, c=c):
                    names = [x for x in ('self', 'presentation', 'binning', 'range', 'resurfacing', 'showall', 'pf')]
                    b = dict(zip(names, args))
                    b.update(kw)
                    rec.append({k: I.freeze(st, v) for k, v in b.items() if k not in ('self',)})
                    return I.newdict(st, mk('dict', *[(string(k), c.arr('p_' + k)) for k in ('d', 'y')], (string('n'), c.num('z_n')), (string('n_event'), c.num('z_e')), (string('err'), c.arr('err')), (string('binning'), string('x'))))
                c.I.models[GP] = model
                cc = c.obj('Cratercount', n_sigma=NONE, name='x')
                cp, r = overplot(c, cc, binning=c.str('binning'), type=typ, resurf=resurf, resurf_showall=showall)
                c.set(cp, a0=c.list(c.num('a0'), c.num('a1'), c.num('a2')), t=c.list(c.num('t0'), c.num('t1'), c.num('t2')), n=c.num('n'))
                ps = cpset(c, pres)
                o = c.run((cp, which), ps)
                res.append((c, o, rec))
            (c1, o1, r1), (c2, o2, r2) = res
            if not r1 or not r2:
                raise Undecided('the data of an overplot do not come from getplotdata')
            c, o = c2, o2
            D = dict(resurfacing=num(1), showall=FALSE, pf=NONE, range=NONE, binning=NONE)
            ps = []
            for k in ('presentation', 'binning', 'range', 'resurfacing', 'showall', 'pf'):
                a, b = r2[0].get(k, D.get(k)), r1[0].get(k, D.get(k))
                if a is None or b is None:
                    raise Undecided(f'parameter {k} of getplotdata')
                ps.append((f'{k} of the data scaled to', a, b))
            m = [equal('Craterplot.get_data_range', ps)]
            d, y = c.arr('p_d'), c.arr('p_y')
            out = [c.item(o, o.raw, i) for i in range(4)]
            want = c.run('spec.axes.data_range', d, y)
            m.append(equal('Craterplot.get_data_range', [(l, a, c.item(want, want.raw, i)) for i, (l, a) in enumerate(zip(('smallest diameter', 'largest diameter', 'smallest density', 'largest density'), out))]))
            return dict(methods=m, functions=['Craterplot.get_data_range', 'Craterplot.overplot', 'gm.maths.range.range'])
        return f
    for pres in BINNED if tier != 'quick' else ('cumulative', 'differential'):
        for typ in TYPES:
            for resurf, showall in ((0, 0), (1, 0), (1, 1)):
                obs.append(Ob(f'{pres} {typ}, correction {("off", "on", "on, all points")[resurf + showall]}: the range is that of the data drawn', same(pres, typ, resurf, showall)))
    return obs
