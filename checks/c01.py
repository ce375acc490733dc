from analyser.harness import *
from checks.c02 import count

RULE = ('for each presentation, binning style, form of diameter range, correction display mode and with/without a production function, the value-flow term of every entry of '
        'Cratercount.getplotdata() (crater counts from a symbolic crater list, or pre-binned with symbolic bins) is compared with the reference definition of that presentation')
FNS = ['Cratercount.getplotdata', 'Cratercount.apply_binning', 'Cratercount.generate_bins', 'bin_bias_correction', 'Productionfn.evaluate']
PRES = ('cumulative', 'incremental', 'Hartmann', 'differential', 'R-plot')
KEYS = ('presentation', 'd', 'y', 'err', 'n', 'n_event', 'bin_range')
BK = ('d_min', 'd_max', 'bin_width', 'd_mean', 'n', 'n_event', 'ncum', 'ncum_event')


def ranges(c):
    return dict(none=None, both=c.list(c.num('p_r0'), c.num('p_r1')), open=c.list(0., float('inf')), low=c.list(c.num('p_r0'), float('inf')), high=c.list(0., c.num('p_r1')))


def guard(c):
    return tm.lt(c.num('p_r0'), c.num('p_r1'))


def symbins(c):
    return {k: c.arr(('z_' if k in ('n', 'n_event') else 'p_') + k) for k in BK}


def pairs(c, x, y):
    return [(k, c.item(x, x.raw, k), c.item(y, y.raw, k)) for k in KEYS]


def obligations(tier):
    obs = []

    def one(pres, b, rng, pf, showall, prior):
        def f():
            c = Ctx(opaque=['craterstats.Productionfn.Productionfn.evaluate'])
            cc = count(c)
            P = c.inst('pf', 'Productionfn') if pf else None
            r = ranges(c)[rng]
            ar = (c.arr('p_d'), c.arr('p_f'), c.num('p_A'))
            if prior:
                c.st = c.run((cc, 'apply_binning'), prior, .5).st
            x = c.run((cc, 'getplotdata'), pres, b, range=r, showall=showall, pf=P)
            y = c.run('spec.cc.counted', *ar, pres, b, r, showall, P, 0., False)
            return dict(methods=[equal(f'Cratercount.getplotdata({pres!r}, {b!r}, range={rng})', pairs(c, x, y), guard=guard(c), lens=dict(p_d=6, p_f=6))], functions=FNS)
        return Ob(f'getplotdata {pres} {b} range={rng} pf={pf} showall={showall}' + (f' after {prior}' if prior else ''), f)

    def pre(pres, rng, pf, showall):
        def f():
            c = Ctx(opaque=['craterstats.Productionfn.Productionfn.evaluate'])
            cc = c.new('Cratercount')
            B = c.dict(**symbins(c))
            c.set(cc, area=c.num('p_A'), binned=B, prebinned=True, binning='pseudo-log')
            P = c.inst('pf', 'Productionfn') if pf else None
            r = ranges(c)[rng]
            x = c.run((cc, 'getplotdata'), pres, 'pseudo-log', range=r, showall=showall, pf=P)
            y = c.run('spec.cc.given', B, c.num('p_A'), pres, r, showall, P, 0., False)
            return dict(methods=[equal(f'Cratercount.getplotdata({pres!r}, pre-binned, range={rng})', pairs(c, x, y), guard=guard(c))], functions=FNS)
        return Ob(f'getplotdata {pres} pre-binned range={rng} pf={pf} showall={showall}', f)

    for pres in PRES:
        for b in ('pseudo-log', '10/decade', 'root-2'):
            for rng in ('none', 'both') if b != '10/decade' else ('none', 'both', 'open', 'low', 'high'):
                obs.append(one(pres, b, rng, False, 0, None))
        if tier == 'thorough':
            for b in ('20/decade', 'x2', '4th root-2', 'none'):
                for rng in ('none', 'both', 'open'):
                    obs.append(one(pres, b, rng, False, 0, None))
        obs.append(one(pres, 'none', 'none', False, 0, None))
        obs.append(one(pres, '10/decade', 'both', True, 0, None))
        obs.append(one(pres, '10/decade', 'both', True, 1, None))
        obs.append(one(pres, 'root-2', 'both', False, 0, 'x2'))
        for rng in ('none', 'both', 'open', 'low', 'high'):
            obs.append(pre(pres, rng, False, 0))
        obs.append(pre(pres, 'both', True, 1))
    return obs
