"""shared models of the spatial libraries: polygons and coordinate transformations are opaque, distinguished by everything they are built from"""
from analyser.harness import *

S = 'craterstats.Spatialcount.Spatialcount'
CC = 'craterstats.Cratercount.Cratercount'
RTS = 'craterstats.gm.file.read_textstructure.read_textstructure'
RTF = 'craterstats.gm.file.read_textfile.read_textfile'
WTF = 'craterstats.gm.file.write_textfile.write_textfile'
EXISTS = 'craterstats.gm.file.file_exists.file_exists'
FIND = S + '.find_enclosing_polygon'


def bindargs(names, args, kw, what):
    if len(args) > len(names) or set(kw) - set(names) or any(a.op == 'star' for a in args):
        raise Undecided(f'call of {what} not recognised')
    d = dict(zip(names, args))
    d.update(kw)
    return d


def rows(I, st, v):
    """points as a literal sequence of pairs"""
    v = I.freeze(st, I.seqof(st, v))
    if v.op not in ('lit', 'tuple'):
        return v
    return lit(*[tup(*x.a) if x.op in ('lit', 'tuple') else x for x in v.a])


class World:
    """polygons of a scenario: size and containment of parts known by their first vertex"""

    def __init__(self, c, sizes=None, inside=None):
        self.c, self.sizes, self.inside = c, sizes or {}, inside or set()
        I = c.I
        m = I.models
        m['spherely.create_polygon'] = self.polygon
        m['spherely.create_multipolygon'] = self.multi
        m['spherely.area'] = self.area
        m['spherely.perimeter'] = self.perimeter
        m['spherely.within'] = lambda I, st, a, kw, node: self.contains(*[a[0], a[1]]) if len(a) == 2 else NotImplemented
        m['spherely.covers'] = lambda I, st, a, kw, node: self.contains(*[a[1], a[0]]) if len(a) == 2 else NotImplemented
        m['spherely.covered_by'] = m['spherely.within']
        m['spherely.contains'] = m['spherely.covers']
        m['itertools.groupby'] = self.groupby

    def polygon(self, I, st, args, kw, node):
        d = bindargs(('shell', 'holes', 'oriented'), args, kw, 'create_polygon')
        if 'oriented' in d:
            raise Undecided('oriented polygon')
        h = I.freeze(st, d.get('holes', NONE))
        if h is NONE:
            h = lit()
        if h.op not in ('lit', 'tuple'):
            raise Undecided('holes of a polygon not recognised')
        h = sorted((rows(I, st, x) for x in h.a), key=lambda t: tm.show(t))
        return mk('call', 'polygon', (rows(I, st, d['shell']),) + tuple(h), ())

    def multi(self, I, st, args, kw, node):
        v = I.freeze(st, bindargs(('polygons',), args, kw, 'create_multipolygon')['polygons'])
        if v.op not in ('lit', 'tuple'):
            return mk('call', 'multipolygon', (v,), ())
        return mk('call', 'multipolygon', tuple(sorted(v.a, key=lambda t: tm.show(t))), ())

    def part(self, p):
        if p.op == 'call' and p.a[0] == 'polygon' and len(p.a[1]) == 1 and p.a[1][0].op == 'lit' and p.a[1][0].a:
            return tm.show(p.a[1][0].a[0].a[0])

    def area(self, I, st, args, kw, node):
        d = bindargs(('geography', 'radius'), args, kw, 'area')
        r = d.get('radius')
        if self.part(d['geography']) in self.sizes:
            return mul(num(self.sizes[self.part(d['geography'])]), mul(r, r) if r is not None else num(1))
        return mk('call', 'area', (I.freeze(st, d['geography']), I.freeze(st, r) if r is not None else NONE), ())

    def perimeter(self, I, st, args, kw, node):
        d = bindargs(('geography', 'radius'), args, kw, 'perimeter')
        return mk('call', 'perimeter', (I.freeze(st, d['geography']), I.freeze(st, d['radius']) if 'radius' in d else NONE), ())

    def contains(self, a, b):
        p, q = self.part(a), self.part(b)
        if p is None or q is None:
            raise Undecided('containment of parts not recognised')
        return TRUE if p == q or (p, q) in self.inside else FALSE

    def groupby(self, I, st, args, kw, node):
        v = I.freeze(st, I.seqof(st, args[0]))
        if len(args) > 1 or kw or v.op not in ('lit', 'tuple'):
            raise Undecided('grouping of points not recognised: ' + tm.show(v)[:300])
        out = []
        for x in v.a:
            if not out or out[-1] is not x:
                out.append(x)
        return lit(*[tup(x, lit(x)) for x in out])


for n in ('polygon', 'multipolygon'):
    tm.RETURNS[n] = ('s', 'inst:spherely.Geography')
for n in ('area', 'perimeter'):
    tm.RETURNS[n] = ('s', 'num')
