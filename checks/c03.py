from analyser.harness import *
from checks.c02 import count
from checks.c01 import symbins

RULE = ('the value-flow term of both limits returned by Cratercount.decode_range() is compared with the reference definition for every combination of limit forms '
        '(number, numeric string, bin number from either end, out of reach), snapping on/off and binning style, for crater lists and for pre-binned data with symbolic bins')
FNS = ['Cratercount.decode_range', 'Cratercount.apply_binning', 'Cratercount.generate_bins', 'Craterplot.__init__']


def obligations(tier):
    obs = []

    def lim(c, k, n):
        return c.num(n) if k == 'x' else k

    def one(b, lo, hi, snap, prior=None):
        def f():
            c = Ctx()
            cc = count(c)
            if prior:
                c.st = c.run((cc, 'apply_binning'), prior, .5).st
            a, z = lim(c, lo, 'p_x'), lim(c, hi, 'p_y')
            x = c.run((cc, 'decode_range'), c.list(a, z), b, snap)
            y = c.run('spec.cc.decoded', c.arr('p_d'), c.arr('p_f'), b, a, z, snap)
            return dict(methods=[equal(f'Cratercount.decode_range([{lo}, {hi}], {b!r}, snap={snap})', [('limits', x.val, y.val)], lens=dict(p_d=6, p_f=6))], functions=FNS)
        return Ob(f'decode_range {lo} to {hi} {b} snap={snap}' + (f' after {prior}' if prior else ''), f)

    def pre(lo, hi, snap, b='pseudo-log'):
        def f():
            c = Ctx()
            cc = c.new('Cratercount')
            S = symbins(c)
            B = c.dict(**S)
            c.set(cc, area=c.num('p_A'), binned=B, prebinned=True, binning='pseudo-log')
            a, z = lim(c, lo, 'p_x'), lim(c, hi, 'p_y')
            x = c.run((cc, 'decode_range'), c.list(a, z), b, snap)
            y = c.run('spec.cc.decoded_given', B, 'pseudo-log', a, z, snap)
            return dict(methods=[equal(f'Cratercount.decode_range([{lo}, {hi}], pre-binned, snap={snap})', [('limits', x.val, y.val)])], functions=FNS)
        return Ob(f'decode_range {lo} to {hi} pre-binned asked {b} snap={snap}', f)
    forms = [('x', 'x'), ('b1', 'b-1'), ('b2', 'x'), ('x', 'b3'), ('x', 'b-2'), ('b9', 'b9'), ('b-9', 'x'), ('0', 'inf'), ('0.5', '2.25'), ('3', '1'), ('x', 'inf'), ('0', 'x'), ('b2', '0.1')]
    for lo, hi in forms:
        for snap in (0, 1):
            obs.append(one('10/decade', lo, hi, snap))
            obs.append(pre(lo, hi, snap))
        for b in ('pseudo-log', 'root-2', 'none') if tier == 'quick' else ('pseudo-log', 'root-2', 'none', '20/decade', 'x2', '4th root-2'):
            obs.append(one(b, lo, hi, 1))
    obs.append(one('root-2', 'x', 'b2', 1, 'x2'))
    obs.append(pre('x', 'b2', 1, 'root-2'))

    def plot(rng, snap):
        def f():
            c = Ctx(opaque=['craterstats.Cratercount.Cratercount.decode_range'])
            cc = count(c)
            args = dict(cratercount=cc, type='data', name='x', source='s')
            if rng:
                args['range'] = c.list('b1', '5')
            if snap is not None:
                args['snap'] = snap
            args['binning'] = 'root-2'
            x = c.run('craterstats.Craterplot.Craterplot', c.dict(**args))
            es = [e for e in x.effects if e.name.endswith('decode_range')]
            v = c.attr(x, x.raw, 'range')
            want = (c.list('b1', '5') if rng else c.list('0', 'inf'), c.c('root-2'), c.c(1 if snap is None else snap))
            y = c.run('craterstats.Cratercount.Cratercount.decode_range', cc, *want)
            return dict(methods=[equal('Craterplot.range', [('range', v, y.val)])], functions=FNS)
        return Ob(f'overplot range given={rng} snap={snap}', f)
    for rng in (0, 1):
        for snap in (None, 0):
            obs.append(plot(rng, snap))
    return obs
