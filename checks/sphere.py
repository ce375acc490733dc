"""shared model of points on the sphere for the randomness measures: a scenario places named points in numbered HEALPix cells along a line, so that distances, containment, cells and neighbouring cells are known numbers while
longitudes, latitudes and everything built from them stay symbolic"""
from checks.spatial import *
from analyser import lib
from fractions import Fraction as Fr
import itertools, math, random

M = 'craterstats.Randomnessanalysis.'
EARTH = num(Fr('6371010'))
DEG = div(tm.PI, num(180))
for _n, _v in (('deg', DEG), ('degree', DEG), ('rad', num(1)), ('radian', num(1)), ('arcmin', div(DEG, num(60)))):
    lib.CONSTANTS['astropy.units.' + _n] = _v
tm.RETURNS['pt'] = ('s', 'inst:spherely.Geography')


class Sphere:
    """pos: position of each point along a line (angle in radians), width: size of a cell (radians)"""

    def __init__(self, c, pos, width, inside=None, omit=False, cells=64):
        self.c, self.pos, self.w, self.inside, self.omit, self.cells = c, [Fr(p) for p in pos], Fr(width), inside, omit, cells
        I = c.I
        m = I.models
        self.lon = [c.num(f'lon{i}') for i in range(len(pos))]
        self.lat = [c.num(f'lat{i}') for i in range(len(pos))]
        self.points = [mk('call', 'pt', (x, y), ()) for x, y in zip(self.lon, self.lat)]
        self.polygon = mk('call', 'polygon', (string('mapped area'),), ())
        self.index = {p.id: i for i, p in enumerate(self.points)}
        m['spherely.create_point'] = self.point
        m['spherely.get_x'] = lambda I, st, a, kw, node: self.lon[self.which(st, a[0])]
        m['spherely.get_y'] = lambda I, st, a, kw, node: self.lat[self.which(st, a[0])]
        m['spherely.distance'] = self.distance
        for n, k in (('within', 0), ('covered_by', 0), ('contains', 1), ('covers', 1)):
            m['spherely.' + n] = lambda I, st, a, kw, node, k=k: self.within(st, a[k], a[1 - k])
        for n, f in dict(cone=self.cone, cell=self.cell, neighbours=self.neighbours).items():
            m['spec.hp.' + n] = f
        self.hp = I.new(c.st, 'obj', dict(cone_search_lonlat=mk('ext', 'spec.hp.cone'), lonlat_to_healpix=mk('ext', 'spec.hp.cell'), neighbours=mk('ext', 'spec.hp.neighbours')), 'spec.writer.Geom')

    def num(self, v, what):
        v = tm.rewrite(v, lambda t: num(Fr(math.pi)) if t is tm.PI else None)
        if v.op != 'num':
            raise Undecided(f'{what} not a known number: {tm.show(v)[:120]}')
        return v.a[0]

    def which(self, st, p):
        p = self.c.I.freeze(st, p)
        if p.id not in self.index:
            raise Undecided('point not recognised: ' + tm.show(p)[:120])
        return self.index[p.id]

    def point(self, I, st, args, kw, node):
        d = bindargs(('longitude', 'latitude'), args, kw, 'create_point')
        p = mk('call', 'pt', (d['longitude'], d['latitude']), ())
        if p.id not in self.index:
            if any(d['longitude'] is y and d['latitude'] is x for x, y in zip(self.lon, self.lat)):
                raise Violation(self.where(), 'longitude and latitude of a point are interchanged')
            raise Undecided('point not recognised: ' + tm.show(p)[:120])
        return p

    def where(self):
        return 'Randomnessanalysis'

    def distance(self, I, st, args, kw, node):
        d = bindargs(('a', 'b', 'radius'), args, kw, 'distance')
        a, b = self.which(st, d['a']), self.which(st, d['b'])
        return mul(num(abs(self.pos[a] - self.pos[b])), d.get('radius', EARTH))

    def within(self, st, p, poly):
        if self.c.I.freeze(st, poly) is not self.polygon:
            raise Undecided('area not recognised')
        return TRUE if self.inside is None or self.inside[self.which(st, p)] else FALSE

    def locate(self, st, lon, lat, what):
        """index of the point at these angles"""
        f = lambda v: self.c.I.freeze(st, v)
        lon, lat = f(lon), f(lat)
        for i, (x, y) in enumerate(zip(self.lon, self.lat)):
            if mul(x, DEG) is lon and mul(y, DEG) is lat:
                return i
            if mul(y, DEG) is lon and mul(x, DEG) is lat:
                raise Violation(self.where(), f'{what}: longitude and latitude interchanged')
        for x, y in zip(self.lon, self.lat):
            if x is lon or y is lat or any(tm.contains(lon, lambda t: t is s) for s in self.lon + self.lat) and not tm.contains(lon, lambda t: t.op in ('call', 'mcall')):
                raise Violation(self.where(), f'{what} receives the angles {tm.show(lon)[:60]}, {tm.show(lat)[:60]} (radians) instead of the longitude and latitude of a point')
        raise Undecided(f'{what}: position not recognised {tm.show(lon)[:80]}')

    def cellof(self, i):
        return int(self.pos[i] // self.w)

    def cell(self, I, st, args, kw, node):
        d = bindargs(('lon', 'lat'), args, kw, 'lonlat_to_healpix')
        return num(self.cellof(self.locate(st, d['lon'], d['lat'], 'lonlat_to_healpix')))

    def cone(self, I, st, args, kw, node):
        d = bindargs(('lon', 'lat', 'radius'), args, kw, 'cone_search_lonlat')
        i = self.locate(st, d['lon'], d['lat'], 'cone_search_lonlat')
        r = self.num(d['radius'], 'search radius')
        lo, hi = int((self.pos[i] - r) // self.w), int((self.pos[i] + r) // self.w)
        cells = [k for k in range(max(lo, 0), min(hi, self.cells - 1) + 1)]
        if self.omit:       # the library may omit cells at the edge of the cone
            cells = [k for k in cells if k not in (lo, hi) or k == self.cellof(i)]
        return lit(*[num(k) for k in cells])

    def neighbours(self, I, st, args, kw, node):
        v = I.freeze(st, I.seqof(st, bindargs(('healpix_index',), args, kw, 'neighbours')['healpix_index']))
        if v.op not in ('lit', 'tuple', 'set') or any(x.op != 'num' for x in v.a):
            if v.op == 'num':
                v = lit(v)
            else:
                raise Undecided('cells not recognised: ' + tm.show(v)[:120])
        out = []
        for x in v.a:
            k = int(x.a[0])
            for j in (k - 1, k + 1):
                out.append(num(j if k >= 0 and 0 <= j < self.cells else -1))
        return lit(*out)


def tuple_pp(c, s, **kw):
    d = dict(hp=s.hp, planetary_radius=num(Fr(1737)), area=num(10), enclosing_area=num(25), polygon=s.polygon, xr=tup(c.num('x0'), c.num('x1')), yr=tup(c.num('y0'), c.num('y1')), max_threads=num(4), trials=num(100), measure=string('m2cnd'))
    d.update(kw)
    return c.new(M + 'self_pp_tuple', **d)


def dictof(o, v):
    """literal dictionary as a list of (key, [values])"""
    d = o.I.freeze(o.st, v)
    if d.op != 'dict':
        return None
    out = []
    for k, x in d.a:
        if x.op not in ('lit', 'tuple'):
            return None
        out.append((k, list(x.a)))
    return out
