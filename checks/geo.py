"""shared model of map projections: a projected position is a term of the centre, the longitude and the latitude it was calculated from"""
from checks.spatial import *
from analyser import lib
from fractions import Fraction as Fr
import re

MAPS = {'laea', 'aeqd', 'ortho'}      # keep directions and (near the centre) distances
tm.RETURNS.update({n: ('s', 'num') for n in ('east', 'north', 'lonof', 'latof')})


class Projections:
    """radius: planetary radius in km (number); where: function under analysis"""

    def __init__(self, c, radius, where):
        self.c, self.radius, self.where = c, Fr(radius), where
        self.made, self.n = [], 0
        m = c.I.models
        m['pyproj.Proj'] = self.proj
        m['pyproj.proj.Proj'] = self.proj
        m['pyproj.CRS'] = self.crs
        m['pyproj.CRS.from_wkt'] = m['pyproj.CRS.from_proj4'] = m['pyproj.CRS.from_string'] = m['pyproj.CRS.from_user_input'] = self.crs
        m['pyproj.CRS.from_dict'] = self.crs
        m['pyproj.Transformer.from_crs'] = self.transformer
        m['pyproj.Transformer.from_proj'] = self.transformer

    def obj(self, st, **kw):
        return self.c.I.new(st, 'obj', kw, 'spec.writer.Geom')

    # ------------------------------------------------------------ definitions
    def params(self, st, args, kw):
        """projection parameters as terms, from a text or from keywords"""
        f = lambda v: self.c.I.freeze(st, v)
        d = {k: f(v) for k, v in kw.items() if k not in ('preserve_units', 'always_xy')}
        if args:
            a = f(args[0])
            if a.op == 'dict':
                d.update({k.a[0]: v for k, v in a.a})
            elif a.op == 'str':
                for k, v in re.findall(r'\+(\w+)(?:=(\S+))?', a.a[0]):
                    d[k] = num(Fr(v)) if re.fullmatch(r'-?[\d.]+(e[+-]?\d+)?', v) else string(v)
            else:
                raise Undecided('projection not recognised: ' + tm.show(a)[:200])
        return d

    def length(self, v, d):
        """radius of the sphere in metres / scale of the unit (1: metres, 1000: kilometres)"""
        if v is None or v.op != 'num':
            raise Undecided('radius of a projection not recognised')
        u = d.get('units')
        return v.a[0], {None: 1, 'm': 1, 'km': 1000}.get(u.a[0] if u is not None else None)

    def plane(self, d, st):
        """centre and unit of a projected system"""
        kind = d.get('proj')
        if kind is None or kind.op != 'str':
            raise Undecided('projection not recognised')
        if kind.a[0] not in MAPS:
            raise Violation(self.where(), f'projection {kind.a[0]} does not keep the shape of craters around the centre of the map')
        r, unit = self.length(d.get('R', d.get('a')), d)
        if unit is None:
            raise Undecided('unit of a projection not recognised')
        return kind.a[0], d.get('lon_0', num(0)), d.get('lat_0', num(0)), r, unit

    def proj(self, I, st, args, kw, node):
        k, lon, lat, r, unit = self.plane(self.params(st, args, kw), st)
        name = f'spec.project.{len(self.made)}'
        self.made.append((k, lon, lat, r, unit))
        scale = self.scale(r, 'Proj')
        I.models[name] = lambda I, st, a, kw, node: self.apply(st, a, kw, k, lon, lat, num(scale / unit))
        return mk('ext', name)

    def scale(self, r, what, metres=False):
        if r == self.radius * 1000:
            return Fr(1)
        if r == self.radius and not metres:
            return Fr(1, 1000)
        raise Violation(self.where(), f'{what}: the map is made for a sphere of radius {float(r):g} (planetary radius {float(self.radius):g} km)')

    def apply(self, st, args, kw, k, lon, lat, scale):
        d = bindargs(('longitude', 'latitude', 'inverse', 'errcheck', 'radians'), args, kw, 'projection')
        if tm.truth(d.get('radians', FALSE)) is not FALSE:
            raise Violation(self.where(), 'map positions are taken as radians')
        x, y = (self.c.I.freeze(st, self.c.I.seqof(st, d[n]) if d[n].op == 'ref' else d[n]) for n in ('longitude', 'latitude'))
        c = (string(k), lon, lat)
        if tm.truth(d.get('inverse', FALSE)) is TRUE:
            return self.back(x, y, c, scale)
        self.order(x, y)
        return self.pair(x, y, lambda a, b: (mul(scale, mk('call', 'east', c + (a, b), ())), mul(scale, mk('call', 'north', c + (a, b), ()))))

    def back(self, x, y, c, scale):
        s = div(num(1), scale)
        return self.pair(x, y, lambda a, b: (mk('call', 'lonof', c + (mul(s, a), mul(s, b)), ()), mk('call', 'latof', c + (mul(s, a), mul(s, b)), ())))

    def pair(self, x, y, f):
        full = lambda t: lit(*[tm.idx(t, num(i)) for i in range(int(tm.length(t).a[0]))]) if t.op not in ('lit', 'tuple') and tm.shape(t) == 'a' and tm.length(t).op == 'num' else t
        x, y = full(x), full(y)
        if x.op in ('lit', 'tuple') and y.op in ('lit', 'tuple'):
            if len(x.a) != len(y.a):
                raise Violation(self.where(), 'as many longitudes as latitudes are needed')
            ps = [f(a, b) for a, b in zip(x.a, y.a)]
            return tup(lit(*[p[0] for p in ps]), lit(*[p[1] for p in ps]))
        if tm.shape(x) == 's' and tm.shape(y) == 's':
            return tup(*f(x, y))
        raise Undecided('positions not recognised: ' + tm.show(x)[:150])

    def order(self, x, y):
        """longitude before latitude, in degrees (by the names of the unknowns)"""
        has = lambda t, p: tm.contains(t, lambda z: z.op == 'sym' and z.a[0].startswith(p) or z.op == 'call' and z.a[0] == p + 'of')
        if has(x, 'lat') and not has(x, 'lon') or has(y, 'lon') and not has(y, 'lat'):
            raise Violation(self.where(), f'latitude and longitude are interchanged in a map projection ({tm.show(x)[:60]}, {tm.show(y)[:60]})')

    # ------------------------------------------------------------ reference systems and transformers
    def crs(self, I, st, args, kw, node):
        a = I.freeze(st, args[0]) if args else NONE
        if a.op == 'ref' or a.op == 'obj':
            return args[0]
        if a.op == 'str' and 'GEOGCS' in a.a[0] or a.op == 'str' and 'GEOGCRS' in a.a[0]:
            q = re.search(r'(?:SPHEROID|ELLIPSOID)\["[^"]*",\s*([-\d.eE]+),\s*([-\d.eE]+)', a.a[0])
            u = re.search(r'UNIT\["(\w+)",\s*([\d.eE-]+)\]\]$', a.a[0].strip())
            if not q or not u:
                raise Undecided('reference system not recognised: ' + a.a[0][:200])
            if float(q[2]) != 0:
                raise Violation(self.where(), f'the reference system is not a sphere (flattening {q[2]})')
            if abs(float(u[2]) - 0.017453292519943295) > 1e-9:
                raise Violation(self.where(), f'unit of the reference system is not the degree ({u[2]})')
            self.scale(Fr(q[1]), 'reference system', True)
            return self.obj(st, plane=FALSE, is_geographic=TRUE)
        d = self.params(st, args, kw)
        if d.get('proj', NONE) in (string('longlat'), string('latlong')):
            self.scale(self.length(d.get('R', d.get('a')), d)[0], 'reference system', True)
            return self.obj(st, plane=FALSE, is_geographic=TRUE)
        k, lon, lat, r, unit = self.plane(d, st)
        self.scale(r, 'map projection', True)
        self.made.append((k, lon, lat, r, unit))
        o = self.obj(st, plane=tup(string(k), lon, lat, num(unit)), is_geographic=FALSE)
        I.set_attr(st, o, 'geodetic_crs', self.obj(st, plane=FALSE, is_geographic=TRUE))
        return o

    def transformer(self, I, st, args, kw, node):
        d = bindargs(('crs_from', 'crs_to', 'always_xy'), args, kw, 'Transformer.from_crs')
        if tm.truth(d.get('always_xy', FALSE)) is not TRUE:
            raise Violation(self.where(), 'coordinates are transformed in the axis order of the reference system (latitude first)')
        g = lambda o: I.freeze(st, I.get_attr(st, o, 'plane', None))
        a, b = g(d['crs_from']), g(d['crs_to'])
        if (a is FALSE) == (b is FALSE):
            raise Undecided('transformation not recognised')
        name = f'spec.transform.{self.n}'
        self.n += 1
        p = b if a is FALSE else a
        c, unit = tuple(p.a[:3]), p.a[3].a[0]

        def forward(I, st, args, kw, node, inverse=False):
            d = bindargs(('xx', 'yy'), args, {k: v for k, v in kw.items() if k not in ('radians', 'errcheck', 'direction')}, 'transform')
            if tm.truth(kw.get('radians', FALSE)) is not FALSE:
                raise Violation(self.where(), 'map positions are taken as radians')
            way = kw.get('direction', string('FORWARD'))
            w = way.a[0].rsplit('.', 1)[-1].upper() if way.op in ('str', 'ext') else None
            if w not in ('FORWARD', 'INVERSE'):
                raise Undecided('direction of a transformation not recognised')
            x, y = (I.freeze(st, I.seqof(st, d[n]) if d[n].op == 'ref' else d[n]) for n in ('xx', 'yy'))
            if (a is FALSE) == (w == 'FORWARD'):
                self.order(x, y)
                s = num(Fr(1, unit))
                return self.pair(x, y, lambda p, q: (mul(s, mk('call', 'east', c + (p, q), ())), mul(s, mk('call', 'north', c + (p, q), ()))))
            if any(tm.contains(t, lambda z: z.op == 'sym' and z.a[0].startswith(('lon', 'lat'))) and not tm.contains(t, lambda z: z.op == 'call' and z.a[0] in ('east', 'north')) for t in (x, y)):
                raise Violation(self.where(), f'degrees are taken for map positions ({tm.show(x)[:80]})')
            return self.back(x, y, c, num(Fr(1, unit)))
        I.models[name] = forward
        return self.obj(st, transform=mk('ext', name))


class Outlines:
    """areas as shapely polygons: rings of named longitudes and latitudes"""

    def __init__(self, c, pr):
        self.c, self.pr = c, pr
        m = c.I.models
        same = lambda I, st, args, kw, node: args[0]
        for n in ('spherely.to_wkb', 'shapely.from_wkb', 'spherely.to_wkt', 'shapely.from_wkt', 'shapely.wkb.loads', 'shapely.wkt.loads'):
            m[n] = same
        m['isinstance'] = self.isinstance
        m['shapely.MultiPolygon'] = m['shapely.geometry.MultiPolygon'] = self.multi
        m['shapely.Polygon'] = m['shapely.geometry.Polygon'] = self.polygon
        m['shapely.get_parts'] = lambda I, st, args, kw, node: self.get(st, args[0], 'geoms') if self.kind(st, args[0]) == 'MultiPolygon' else I.newlist(st, lit(args[0]))

    def get(self, st, o, n):
        return self.c.I.get_attr(st, o, n, None)

    def kind(self, st, o):
        if o.op != 'ref' or self.c.I.cell(st, o).kind != 'obj':
            return None
        k = self.c.I.freeze(st, self.get(st, o, 'geom_type'))
        return k.a[0] if k.op == 'str' else None

    def isinstance(self, I, st, args, kw, node):
        k = self.kind(st, args[0])
        if k is None or args[1].op != 'ext':
            return lib._isinstance(I, st, args, kw, node)
        return TRUE if args[1].a[0].rsplit('.', 1)[-1] == k else FALSE

    def ring(self, st, pts):
        xs, ys = lit(*[p[0] for p in pts]), lit(*[p[1] for p in pts])
        return self.pr.obj(st, xy=tup(xs, ys), coords=lit(*[tup(*p) for p in pts]), geom_type=string('LinearRing'))

    def make(self, st, ext, holes=()):
        I = self.c.I
        return self.pr.obj(st, exterior=self.ring(st, ext), interiors=I.newlist(st, lit(*[self.ring(st, h) for h in holes])), geom_type=string('Polygon'))

    def area(self, st, parts):
        """parts: (exterior, holes) of each part"""
        I = self.c.I
        ps = [self.make(st, e, h) for e, h in parts]
        if len(ps) == 1:
            return ps[0]
        return self.pr.obj(st, geoms=I.newlist(st, lit(*ps)), geom_type=string('MultiPolygon'))

    def multi(self, I, st, args, kw, node):
        v = I.seqof(st, bindargs(('polygons',), args, kw, 'MultiPolygon')['polygons'])
        if v.op not in ('lit', 'tuple'):
            raise Undecided('polygons not recognised')
        return self.pr.obj(st, geoms=I.newlist(st, lit(*v.a)), geom_type=string('MultiPolygon'))

    def polygon(self, I, st, args, kw, node):
        d = bindargs(('shell', 'holes'), args, kw, 'Polygon')
        r = lambda v: self.points(I.freeze(st, I.seqof(st, v)))
        h = d.get('holes', NONE)
        hs = [] if h is NONE else [r(x) for x in I.seqof(st, h).a]
        return self.make(st, r(d['shell']), hs)

    def points(self, v):
        if v.op not in ('lit', 'tuple') or any(x.op not in ('lit', 'tuple') or len(x.a) != 2 for x in v.a):
            raise Undecided('ring not recognised: ' + tm.show(v)[:150])
        return [tuple(x.a) for x in v.a]

    def rings(self, st, p):
        """points of the rings of a polygon"""
        I = self.c.I
        out = [[tuple(x.a) for x in I.freeze(st, self.get(st, self.get(st, p, 'exterior'), 'coords')).a]]
        for h in I.seqof(st, self.get(st, p, 'interiors')).a:
            out.append([tuple(x.a) for x in I.freeze(st, self.get(st, h, 'coords')).a])
        return out


def symbols(c):
    """positions on a map as unknowns, so that a formula of them can be evaluated"""
    table = {}

    def f(t):
        if t.op == 'call' and t.a[0] in ('east', 'north', 'lonof', 'latof'):
            return table.setdefault(t.id, c.num(f'{t.a[0]}{len(table)}'))
        return None
    return lambda t: tm.rewrite(t, f)
