from analyser.harness import *
from checks.c01 import symbins, guard, pairs, PRES

RULE = ('the value-flow term of Cratercount.resurf_adj() (its iteration summarised as a fold) and of getplotdata() with the correction on and off is compared with the reference '
        'definition; for every overplot type and setting of the correction, the data each consumer of an overplot (drawing, axis ranges, age, sequence) obtains is compared with '
        'the data of the definition, corrected exactly for cumulative fits with the correction on')
FNS = ['Cratercount.resurf_adj', 'Cratercount.getplotdata', 'Craterplot.overplot', 'Craterplot.get_data_range', 'Craterplot.calculate_age', 'Craterplot.overplot_sequence_element']
TYPES = ('data', 'c-fit', 'd-fit', 'poisson', 'b-poisson')
PF = ['craterstats.Productionfn.Productionfn.' + m for m in ('evaluate', 'getplotdata', 'getisochron', 'C10', 'F10')]


def given(c):
    cc = c.new('Cratercount')
    S = symbins(c)
    B = c.dict(**S)
    c.set(cc, area=c.num('p_A'), binned=B, prebinned=True, binning='pseudo-log')
    return cc, B


def overplot(c, cc, **kw):
    r = c.list(c.num('p_r0'), c.num('p_r1'))
    d = dict(cratercount=cc, name='x', source='s', **kw)
    cp = c.new('Craterplot', c.dict(**d))
    return c.set(cp, range=r), r


def cpset(c, presentation, **kw):
    d = dict(pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn'), presentation=presentation, ref_diameter=c.num('p_ref'), ax=c.any('ax'), grey=c.any('grey'),
             sz_ratio=c.num('p_sz'), ra_show=0, sig_figs=c.num('p_sf'), mu=c.bool('mu'), marker_def=c.any('markers'), scaled_pt_size=c.num('p_pt'), decades=c.any('dec'),
             fig=c.any('fig'), ef=c.any('ef'), position=c.any('pos'), cm2inch=c.num('p_cm'), xrange=c.any('xr'), yrange=c.any('yr'), legend=c.str('legend'))
    d.update(kw)
    return c.obj('Craterplotset', **d)


def obligations(tier):
    obs = []

    def adj(rng):
        def f():
            c = Ctx(opaque=PF)
            cc, B = given(c)
            pf = c.inst('pf', 'Productionfn')
            r = c.list(c.num('p_r0'), c.num('p_r1'))
            x = c.run((cc, 'resurf_adj'), pf, r)
            y = c.run('spec.cc.adjustment', cc, pf, r)
            return dict(methods=[equal('Cratercount.resurf_adj', [('correction', x.val, y.val)], guard=guard(c))], functions=FNS)
        return Ob('resurf_adj', f)
    obs.append(adj(1))

    def gp(pres, on, showall):
        def f():
            c = Ctx(opaque=PF + ['craterstats.Cratercount.Cratercount.resurf_adj'])
            cc, B = given(c)
            pf = c.inst('pf', 'Productionfn')
            r = c.list(c.num('p_r0'), c.num('p_r1'))
            x = c.run((cc, 'getplotdata'), pres, 'pseudo-log', range=r, resurfacing=on, showall=showall, pf=pf)
            y = c.run('spec.cc.corrected', cc, B, c.num('p_A'), pres, 'pseudo-log', r, showall, pf, bool(on))
            return dict(methods=[equal(f'Cratercount.getplotdata({pres!r}, resurfacing={on})', pairs(c, x, y), guard=guard(c))], functions=FNS)
        return Ob(f'getplotdata {pres} resurfacing={on} showall={showall}', f)
    for pres in PRES:
        for on in (None, 0, 1):
            for sa in (0, 1):
                obs.append(gp(pres, on, sa))

    def cons(t, resurf, showall, pres):
        def f():
            c = Ctx(opaque=PF + ['craterstats.Cratercount.Cratercount.resurf_adj'])
            cc, B = given(c)
            cp, r = overplot(c, cc, type=t, resurf=resurf, resurf_showall=showall)
            cps = cpset(c, pres)
            x = c.run((cp, 'get_data_range'), cps)
            y = c.run('spec.cc.data_range', cp, cps)
            return dict(methods=[equal(f'Craterplot.get_data_range({t}, resurf={resurf})', [('range', x.val, y.val)], guard=guard(c))], functions=FNS)
        return Ob(f'data range of {t} resurf={resurf} showall={showall} in {pres}', f)

    def age(t, resurf, showall):
        def f():
            c = Ctx(opaque=PF + ['craterstats.Cratercount.Cratercount.resurf_adj', 'craterstats.Chronologyfn.Chronologyfn.t'])
            cc, B = given(c)
            cp, r = overplot(c, cc, type=t, resurf=resurf, resurf_showall=showall)
            cps = cpset(c, 'cumulative')
            x = c.run((cp, 'calculate_age'), cps)
            y = c.run('spec.cc.corrected', cc, B, c.num('p_A'), 'cumulative' if t == 'c-fit' else 'differential', 'pseudo-log', r, 0, c.inst('pf', 'Productionfn'), bool(t == 'c-fit' and resurf))
            pf = c.inst('pf', 'Productionfn')
            z = c.run((pf, 'fit'), y.raw, _st=y.st)
            return dict(methods=[equal(f'Craterplot.calculate_age({t}, resurf={resurf})', [('a0', c.attr(x, cp, 'a0'), z.val), ('n', c.attr(x, cp, 'n'), c.item(y, y.raw, 'n'))], guard=guard(c))], functions=FNS)
        return Ob(f'age of {t} resurf={resurf} showall={showall}', f)
    def drawn(t, resurf, showall, pres):
        def f():
            c = Ctx(opaque=PF + ['craterstats.Cratercount.Cratercount.resurf_adj', 'craterstats.Craterplot.Craterplot.calculate_age', 'craterstats.Craterplot.Craterplot.make_legend_label'])
            cc, B = given(c)
            cp, r = overplot(c, cc, type=t, resurf=resurf, resurf_showall=showall, show_age=0)
            cps = cpset(c, pres)
            x = c.run((cp, 'overplot'), cps)
            y = c.run('spec.cc.data_of', cp, cps, pres)
            eb, pl = calls(x, 'errorbar'), calls(x, 'plot')
            if len(eb) != 1 or not pl or len(eb[0].args) < 2 or len(pl[-1].args) < 2:
                raise Undecided('drawing calls not recognised')
            d, v, err = [c.item(y, y.raw, k) for k in ('d', 'y', 'err')]
            return dict(methods=[equal(f'Craterplot.overplot({t}, resurf={resurf}, showall={showall})', [
                ('error bars drawn at', eb[0].args[0], tm.log10(d)), ('error bars around', eb[0].args[1], v), ('error bar lengths', kwarg(eb[0], 'yerr', eb[0].args[2] if len(eb[0].args) > 2 else NONE), err),
                ('points drawn at', pl[-1].args[0], tm.log10(d)), ('points drawn', pl[-1].args[1], v)], guard=guard(c))], functions=FNS)
        return Ob(f'drawing of {t} resurf={resurf} showall={showall} in {pres}', f)

    for t in TYPES:
        for resurf in (0, 1):
            for sa in (0, 1):
                for pres in ('cumulative', 'Hartmann'):
                    obs.append(drawn(t, resurf, sa, pres))
            for sa in (0, 1):
                obs.append(cons(t, resurf, sa, 'cumulative'))
                if t in ('c-fit', 'd-fit'):
                    obs.append(age(t, resurf, sa))
            obs.append(cons(t, resurf, 0, 'R-plot'))
    return obs
