from checks.spatial import *

RULE = ('the value-flow terms of the diameter, fraction, longitude and latitude lists read from a crater shapefile, for outlines with symbolic vertices, areas, centres and overlaps in every combination of covered, partial and missing overlap, '
        'and of the conversion from area to linear fraction, are compared with their definitions')
FNS = ['Spatialcount.readSHPfiles', 'fractional_crater_transform.__init__', 'fractional_crater_transform.area_fraction', 'fractional_crater_transform.af2lf']
FCT = 'craterstats.miscellaneous.fractional_crater_transform'


class Maps(World):
    """crater and area shapefiles with symbolic vertices"""

    def __init__(self, c, nc, geographic=(1, 1), radii=('R', 'R'), areas=(('p', 1),), cover=None):
        World.__init__(self, c)
        self.nc, self.geo, self.cover = nc, dict(zip('ca', geographic)), cover
        self.radius = dict(zip('ca', radii))
        I = c.I
        m = I.models
        self.files = {'in/m_CRATER': 'c', 'in/n': 'a'}
        m['os.path.getmtime'] = lambda I, st, a, kw, node: c.num('t' + self.which(st, a[0], '.shp'))
        m[RTF] = self.prj
        m['pyproj.CRS.from_wkt'] = self.crs
        m['pyproj.CRS'] = self.crs
        m['shapefile.Reader'] = self.reader
        m['pyproj.Transformer.from_crs'] = self.transformer
        m['shapely.geometry.shape'] = self.shape
        self.areas = areas

    def which(self, st, v, ext):
        p = self.c.I.freeze(st, v)
        if p.op == 'str' and p.a[0].endswith(ext) and p.a[0][:-len(ext)] in self.files:
            return self.files[p.a[0][:-len(ext)]]
        raise Violation('Spatialcount.readSHPfiles', f'reads {tm.show(p)} ({ext} of the crater or area file expected)')

    def prj(self, I, st, args, kw, node):
        a = bindargs(('filename', 'n_lines', 'ignore_blank', 'ignore_hash', 'strip', 'as_string'), args, kw, 'read_textfile')
        return I.newlist(st, lit(string('wkt ' + self.which(st, a['filename'], '.prj'))))

    def obj(self, st, **kw):
        return self.c.I.new(st, 'obj', kw, 'spec.writer.Geom')

    def crs(self, I, st, args, kw, node):
        w = I.freeze(st, args[0])
        if w.op != 'str' or w.a[0][:4] != 'wkt ':
            raise Undecided('reference system not recognised')
        k = w.a[0][4:]
        e = self.obj(st, semi_major_metre=mul(self.c.num('p_' + self.radius[k]), num(1000)))
        return self.obj(st, ellipsoid=e, is_geographic=TRUE if self.geo[k] else FALSE, is_projected=FALSE if self.geo[k] else TRUE, geodetic_crs=self.obj(st, geodetic=string(k)), key=string(k))

    def reader(self, I, st, args, kw, node):
        k = self.which(st, args[0], '.shp') if not I.freeze(st, args[0]).op == 'str' or I.freeze(st, args[0]).a[0].endswith('.shp') else self.which(st, tm.scat(args[0], string('.shp')), '.shp')
        return self.obj(st, shapes_=string(k), shapes=mk('ext', 'spec.shapes.' + k))

    def transformer(self, I, st, args, kw, node):
        d = bindargs(('crs_from', 'crs_to', 'always_xy'), args, kw, 'Transformer.from_crs')
        g = lambda o, n: I.freeze(st, I.get_attr(st, o, n, None))
        f = g(d['crs_from'], 'key')
        t = I.get_attr(st, d['crs_to'], 'geodetic', None)
        if tm.truth(d.get('always_xy', FALSE)) is not TRUE:
            raise Violation('Spatialcount.readSHPfiles', 'coordinates are transformed in the axis order of the reference system (latitude first)')
        return self.obj(st, tr=f, transform=mk('ext', 'spec.transform.' + f.a[0]))

    def vertices(self, k, i, n=3):
        c = self.c
        return [tup(c.num(f'{k}{i}x{j}'), c.num(f'{k}{i}y{j}')) for j in range(n)]

    def wire(self):
        c, I = self.c, self.c.I
        m = I.models
        self.vert = {'c': [self.vertices('c', i) for i in range(self.nc)]}
        self.rings = []         # of each area shape: list of polygons, each a list of rings
        self.flat = []
        for i, (kind, *holes) in enumerate(self.areas):
            polys = [[self.vertices('a', f'{i}{p}{r}') for r in range(1 + h)] for p, h in enumerate(holes)]
            self.rings.append((kind, polys))
            self.flat.append([v for p in polys for r in p for v in r])
        self.vert['a'] = self.flat
        self.heap = {}

        def shapes(k):
            def f(I, st, args, kw, node):
                out = []
                for i, v in enumerate(self.vert[k]):
                    s = I.new(st, 'obj', dict(points=I.newlist(st, lit(*v)), parts=I.newlist(st, lit(num(0))), bbox=NONE, shapeType=num(5)), 'spec.writer.Geom')
                    I.set_attr(st, s, '__geo_interface__', mk('call', 'geo', (string(f'{k}{i}'),), ()))
                    out.append(s)
                self.heap[k] = out
                return I.newlist(st, lit(*out))
            return f
        for k in 'ca':
            m['spec.shapes.' + k] = shapes(k)
            m['spec.transform.' + k] = self.transform(k)
        tm.RETURNS['geo'] = ('s', 'dict')
        f2 = lambda name, n: (lambda I, st, args, kw, node: self.opaque(I, st, name, n, args, kw))
        for name, n in (('covered_by', ('a', 'b')), ('within', ('a', 'b')), ('intersection', ('a', 'b')), ('centroid', ('geography',)), ('get_x', ('geography',)), ('get_y', ('geography',))):
            m['spherely.' + name] = f2(name, n)
            tm.RETURNS['sph.' + name] = ('s', 'bool' if name in ('covered_by', 'within') else 'num' if name[:3] == 'get' else 'inst:spherely.Geography')
        m['spherely.covers'] = lambda I, st, args, kw, node: m['spherely.covered_by'](I, st, [args[1], args[0]], kw, node)
        m['spherely.contains'] = lambda I, st, args, kw, node: m['spherely.within'](I, st, [args[1], args[0]], kw, node)

    def opaque(self, I, st, name, names, args, kw):
        d = bindargs(names, args, kw, name)
        a = [I.freeze(st, d[n]) for n in names]
        if name == 'intersection':
            a.sort(key=lambda t: tm.show(t))
        if name == 'covered_by' and self.cover is not None:
            for i in range(self.nc):
                if a[0] is self.outline(st, i) and a[1] is self.region(st):
                    return TRUE if self.cover[i] else FALSE
        return mk('call', 'sph.' + name, tuple(a), ())

    def transform(self, k):
        def f(I, st, args, kw, node):
            if len(args) != 2 or kw:
                raise Undecided('transformation of coordinates not recognised')
            x, y = (I.freeze(st, I.seqof(st, v)) for v in args)
            if x.op not in ('lit', 'tuple') or y.op not in ('lit', 'tuple') or len(x.a) != len(y.a):
                raise Undecided('transformation of coordinates not recognised')
            g = lambda n: lit(*[mk('call', 'to' + n, (string(k), p, q), ()) for p, q in zip(x.a, y.a)])
            return tup(I.newlist(st, g('lon')), I.newlist(st, g('lat')))
        return f

    def point(self, k, v):
        """vertex in degrees"""
        return v if self.geo[k] else tup(*[mk('call', 'to' + n, (string(k), *v.a), ()) for n in ('lon', 'lat')])

    def shape(self, I, st, args, kw, node):
        g = I.freeze(st, args[0])
        ok = g.op == 'call' and g.a[0] == 'geo' and g.a[1][0].a[0][0] == 'a'
        if not ok:
            raise Undecided('geometry of an area shape not recognised')
        i = int(g.a[1][0].a[0][1:])
        s = self.heap['a'][i]
        now = rows(I, st, I.get_attr(st, s, 'points', None))
        want = lit(*[self.point('a', v) for v in self.flat[i]])
        if now is not want:
            raise Violation('Spatialcount.readSHPfiles', f'area outline is taken from {tm.show(now)[:100]} instead of longitudes and latitudes {tm.show(want)[:100]}')
        kind, polys = self.rings[i]
        ring = lambda r: self.obj(st, coords=lit(*[self.point('a', v) for v in r]), geom_type=string('LinearRing'))
        ps = [self.obj(st, geom_type=string('Polygon'), exterior=ring(p[0]), interiors=I.newlist(st, lit(*[ring(h) for h in p[1:]]))) for p in polys]
        return ps[0] if kind == 'p' else self.obj(st, geom_type=string('MultiPolygon'), geoms=I.newlist(st, lit(*ps)))

    def region(self, st):
        out = []
        for kind, polys in self.rings:
            for p in polys:
                r = [lit(*[self.point('a', v) for v in ring]) for ring in p]
                out.append(self.polygon(self.c.I, st, [], dict(shell=r[0], holes=lit(*r[1:])), None))
        return self.multi(self.c.I, st, [lit(*out)], {}, None)

    def outline(self, st, i):
        return self.polygon(self.c.I, st, [], dict(shell=lit(*[self.point('c', v) for v in self.vert['c'][i]])), None)


for n in ('tolon', 'tolat'):
    tm.RETURNS[n] = ('s', 'num')


def obligations(tier):
    obs = []

    def conv():
        c = Ctx()
        x = c.run('spec.shp.share', c.num('p_x')).val
        prs = [('penetration', c.run('spec.shp.penetration_code', x).val, c.run('spec.shp.penetration', x).val)]
        for v in (0, 1):
            prs.append((f'penetration of area share {v}', c.run('spec.shp.penetration_code', v).val, num(v)))
        return dict(methods=[equal('fractional_crater_transform.af2lf', prs)], functions=FNS[1:])
    obs.append(Ob('conversion of area share to penetration', conv))

    def segment():
        c = Ctx()
        t = c.new(FCT)
        x = c.run('spec.shp.share', c.num('p_x')).val
        prs = [('area share', c.run((t, 'area_fraction'), x).val, c.run('spec.shp.ratio', x).val)]
        return dict(methods=[equal('fractional_crater_transform.area_fraction', prs)], functions=FNS[1:])
    obs.append(Ob('area share of a linear fraction', segment))

    def read(nm, cover, part='craters', **kw):
        """cover: for each crater C covered, P partly covered, N not covered"""
        def f():
            c = Ctx(opaque=[FIND, FCT + '.af2lf'])
            for q in (RTF, S, FIND, FCT, FCT + '.af2lf', FCT + '.__init__'):
                c.fn(q)
            w = 'Spatialcount.readSHPfiles'
            nc = len(cover)
            M = Maps(c, nc, cover=[x == 'C' for x in cover], **kw)
            M.wire()
            ratios, prs = [], []

            def af2lf(I, st, args, kw_, node):
                t = I.freeze(st, args[1])
                for i in range(nc):
                    if any(x is M.outline(st, i) for x in tm.subterms(t)):
                        ratios.append((i, t))
                        return num(0) if cover[i] == 'N' else num(frac(i)) if cover[i] == 'P' else num(1)
                raise Violation(w, f'penetration of an area share that belongs to no crater: {tm.show(t)[:200]}')
            c.I.models[FCT + '.af2lf'] = af2lf
            o = c.run('spec.shp.count', 'in/m_CRATER.shp', 'in/n.shp')
            R = c.num('p_' + M.radius['c'])
            if M.radius['c'] != M.radius['a']:
                differ = tm.bnot(tm.eq(R, c.num('p_' + M.radius['a'])))
                bad = [a for a in o.aborts if a.exc == 'ValueError']
                if not bad or tm.bor(*[a.pc for a in bad]) is not differ:
                    raise Violation(w, 'maps of bodies of different radius are not refused')
                return dict(methods=['value numbering'], functions=FNS)
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(w, f'reading ends with {a.exc}')
            x = o.raw
            area = lambda p: mk('call', 'area', (p, R), ())
            P = M.region(o.st)
            if part == 'area':
                prs += [('planetary radius', c.attr(o, x, 'planetary_radius'), R), ('boundary', c.attr(o, x, 'polygon'), P), ('area', c.attr(o, x, 'area'), area(P)),
                        ('perimeter', c.attr(o, x, 'perimeter'), mk('call', 'perimeter', (P, R), ())), ('time of craters', c.attr(o, x, 'tc'), c.num('tc')), ('time of area', c.attr(o, x, 'ta'), c.num('ta')), ('name', c.attr(o, x, 'name'), string('m'))]
                if [e for e in o.effects if e.name == FIND].__len__() != 1:
                    raise Violation(w, 'enclosing range is not determined once')
            else:
                keep = []
                for i in range(nc):
                    q = M.outline(o.st, i)
                    op = lambda n, *a: M.opaque(c.I, o.st, n, ('a', 'b')[:len(a)] if len(a) == 2 else ('geography',), list(a), {})
                    cen = op('centroid', q)
                    prs += [(f'area share of crater {i}', t, div(area(op('intersection', q, P)), area(q))) for k, t in ratios if k == i]
                    if cover[i] != 'N':
                        d = c.run('spec.shp.diameter', area(q), R).val
                        keep.append(tup(d, num(1) if cover[i] == 'C' else num(frac(i)), op('get_x', cen), op('get_y', cen)))
                g = c.run('spec.shp.kept', *[c.attr(o, x, k) for k in ('diam', 'fraction', 'lon', 'lat')])
                prs.append(('craters', g.val, lit(*keep)))
            return dict(methods=[equal(f'{w}: {nm}', prs)], functions=FNS)
        obs.append(Ob(nm, f))
    import itertools
    for n in (0, 1, 2, 3):
        for cv in itertools.product('CPN', repeat=n):
            read('craters ' + (', '.join({'C': 'covered', 'P': 'partly covered', 'N': 'outside'}[x] for x in cv) or 'none'), ''.join(cv))
    for g in ((1, 1), (0, 0), (0, 1), (1, 0)):
        nm = ' and '.join(f'{k} {"geographic" if q else "projected"}' for k, q in zip(('craters', 'area'), g))
        read(nm, 'CPN', geographic=g, areas=(('p', 1), ('p', 0)))
        for areas in ((('p', 0),), (('p', 2),), (('p', 1), ('p', 0)), (('m', 1, 0),), (('m', 0, 2), ('p', 1), ('m', 0))):
            read(f'{nm}, areas {areas}', 'CP', part='area', geographic=g, areas=areas)
    read('radii', 'C', radii=('R', 'Q'))
    return obs


def frac(i):
    from fractions import Fraction
    return Fraction(1, 3 + i)
