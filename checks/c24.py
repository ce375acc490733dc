from checks.geo import *
from checks.sphere import DEG, EARTH
import importlib, re

RULE = ('the value-flow terms of cartesian positions, crater rims, projected outlines, neighbour lines and cells, over map projections that are opaque but keep what they were made for and applied to, are compared with their definitions: '
        'radians for trigonometric functions, longitude before latitude in degrees for maps, metres for projected lengths, the planetary radius for the sphere')
FNS = ['Spatialcount.llr2xyz', 'Spatialcount.find_rims', 'Spatialcount.plot', 'Randomnessanalysis.get_plot_reduction_factor', 'Randomnessanalysis.oplot_neighbours', 'Randomnessanalysis.oplot_voronoi', 'Spatialcount.find_enclosing_polygon',
       'Spatialcount.readSCCfile', 'Spatialcount.readSHPfiles', 'Spatialcount.writeSHPfiles', 'kth_nearest_neighbour_pp', 'sdaa', 'random_points_pp', 'sprinkle_discs_pp']
RA = 'craterstats.Randomnessanalysis.Randomnessanalysis'
KM = Fr(17374, 10)
CRATERS = [(Fr('12.3'), Fr('4.1')), (Fr('177.6'), Fr('-62.4')), (Fr('-90.2'), Fr('87.9')), (Fr('13.9'), Fr('3.2')), (Fr('-178.7'), Fr(0)), (Fr('-57.5'), Fr('42.5'))]
ZONES = [(Fr(x), Fr(y)) for x, y in (('10.1', '1.1'), ('10.2', '31.3'), ('10.6', '1.4'), ('50.3', '1.2'), ('10.4', '30.9'), ('-169.8', '1.3'), ('50.1', '-1.1'), ('9.9', '1.0'))]      # zones come again, in latitude and longitude


def obligations(tier):
    obs = []

    def xyz(radius):
        def f():
            c = Ctx()
            s = c.obj('Spatialcount', planetary_radius=c.num('p_R'))
            lon, lat, r = c.num('lon'), c.num('lat'), c.num('p_r')
            o = c.run((s, 'llr2xyz'), lon, lat, *([r] if radius else []))
            b = c.run('spec.sphere.cartesian', lon, lat, r if radius else c.num('p_R'))
            return dict(methods=[equal('Spatialcount.llr2xyz', [('position', o.val, b.val)])], functions=['Spatialcount.llr2xyz'])
        return f
    obs.append(Ob('cartesian position', xyz(0)))
    obs.append(Ob('cartesian position, given radius', xyz(1)))

    def rims(j, cs, given, ns):
        def f():
            c = Ctx()
            where = 'Spatialcount.find_rims'
            P = Projections(c, KM, lambda: where)
            diam = [c.num(f'p_d{i}') for i in range(len(cs))]
            cols = dict(lon=c.list(*[num(x) for x, _ in cs]), lat=c.list(*[num(y) for _, y in cs]), diam=c.list(*diam))
            other = dict(lon=c.list(num(1)), lat=c.list(num(2)), diam=c.list(c.num('p_z')))
            s = c.obj('Spatialcount', planetary_radius=num(KM), **(other if given else cols))
            g = c.obj('spec.writer.Geom', fraction=c.list(), **cols) if given else NONE
            o = c.run((s, 'find_rims'), g, num(ns))
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(where, f'ends with {a.exc}')
            r = o.I.freeze(o.st, o.val)
            if r.op not in ('tuple', 'lit') or len(r.a) != 2 or r.a[0].op != 'lit':
                raise Undecided(where + ': result not recognised')
            if len(r.a[0].a) != len(cs):
                raise Violation(where, f'{len(cs)} craters have {len(r.a[0].a)} rims')
            prs = []
            plain = symbols(c)
            for i, (x, y) in enumerate(cs):
                rim = r.a[0].a[i]
                if rim.op not in ('tuple', 'lit') or len(rim.a) != 2:
                    raise Undecided(where + ': rim not recognised: ' + tm.show(rim)[:200])
                lons, lats = rim.a
                k = next((t for t in tm.subterms(lons) if t.op == 'call' and t.a[0] == 'lonof'), None)
                if k is None:
                    raise Undecided(where + ': rim not recognised: ' + tm.show(lons)[:200])
                kind, lon0, lat0 = k.a[1][:3]
                if lon0.op != 'num' or lat0.op != 'num':
                    raise Undecided(where + ': centre of the map not recognised')
                dlon = abs((lon0.a[0] - x + 180) % 360 - 180)
                if abs(lat0.a[0] - y) > Fr(5, 2) or dlon > Fr(5, 2):
                    raise Violation(where, f'the rim of a crater at longitude {float(x)}, latitude {float(y)} is drawn on a map centred at longitude {float(lon0.a[0])}, latitude {float(lat0.a[0])}')
                ex, no = (mk('call', n, (kind, lon0, lat0, num(x), num(y)), ()) for n in ('east', 'north'))
                want = c.run('spec.sphere.circle', ex, no, mul(num(500), diam[i]), num(ns))
                wx, wy = want.val.a
                for nm, ts in (('longitude', lons), ('latitude', lats)):
                    n = tm.length(ts)
                    if n.op != 'num':
                        raise Undecided(where + ': rim not recognised: ' + tm.show(ts)[:200])
                    if n.a[0] != len(wx.a):
                        raise Violation(where, f'crater {i}: the rim has {n.a[0]} positions instead of {len(wx.a)}')
                    for q in range(len(wx.a)):
                        t = tm.idx(ts, num(q))
                        if t.op != 'call' or t.a[0] not in ('lonof', 'latof') or t.a[1][:3] != (kind, lon0, lat0):
                            raise Undecided(where + ': rim not recognised: ' + tm.show(t)[:200])
                        if t.a[0][:3] != nm[:3]:
                            raise Violation(where, f'crater {i}: latitudes and longitudes of the rim are interchanged')
                        prs.append((f'crater {i}: {nm} {q} of the rim, position on its map', *[plain(tup(*z)) for z in (t.a[1][3:], (wx.a[q], wy.a[q]))]))
            m = [equal(where, prs)]
            w = r.a[1]
            P.crs(o.I, o.st, [w], {}, None)       # the definition written beside the shapefile
            return dict(methods=m, functions=[where])
        obs.append(Ob(f'rims {j}: {len(cs)} craters, {ns} vertices' + (', given craters' if given else ''), f))
    for j, (cs, given, ns) in enumerate([(CRATERS, 0, 4), (CRATERS[:1], 1, 6), (CRATERS[::-1], 1, 3), ([], 0, 4), (ZONES, 0, 3), (ZONES[::-1], 1, 3)]):
        rims(j, cs, given, ns)

    # ------------------------------------------------------------ drawing
    def scene(where, parts, cls=None, **kw):
        """an object whose mapped area has parts with (vertices, holes)"""
        c = Ctx()
        P = Projections(c, KM, lambda: where)
        G = Outlines(c, P)
        v = lambda tag, n: [(c.num(f'lon{tag}{i}'), c.num(f'lat{tag}{i}')) for i in range(n)]
        geo = [(v(f'{p}e', n), [v(f'{p}h{q}_', k) for q, k in enumerate(holes)]) for p, (n, holes) in enumerate(parts)]
        poly = G.area(c.st, geo)
        cen = mk('call', 'pt', (string('centre'),), ())
        m = c.I.models

        def centroid(I, st, args, kw, node):
            if args[0] is not poly:
                raise Undecided('centre not recognised')
            return cen
        m['spherely.centroid'] = centroid
        pts = {cen.id: (c.num('lon_c'), c.num('lat_c'))}

        def coord(i):
            def g(I, st, args, kw, node):
                p = I.freeze(st, args[0])
                if p.id not in pts:
                    raise Undecided('point not recognised')
                return pts[p.id][i]
            return g
        m['spherely.get_x'], m['spherely.get_y'] = coord(0), coord(1)
        a = c.obj(cls or 'Spatialcount', polygon=poly, planetary_radius=num(KM), area=c.num('p_A'), **kw)
        drawn = []
        q = 'craterstats.gm.plotting.shp_plot_polygon.shp_plot_polygon'
        c.fn(q)

        def shown(I, st, args, kw, node):
            ps = [args[1]] if G.kind(st, args[1]) == 'Polygon' else []
            if not ps:
                raise Undecided('drawn outline not recognised')
            drawn.append(G.rings(st, args[1]))
            return NONE
        m[q] = shown
        return c, P, G, geo, a, pts, drawn

    def centre(P, c, where):
        for k, lon, lat, r, unit in P.made:
            if k != 'ortho' and k not in MAPS:
                raise Undecided('projection not recognised')
            if lon is c.num('lat_c') or lat is c.num('lon_c'):
                raise Violation(where, 'the map is centred at the latitude as longitude and the longitude as latitude of the centre of the area')
            if lon is not c.num('lon_c') or lat is not c.num('lat_c'):
                raise Undecided(where + ': centre of the map not recognised')
        if not P.made:
            raise Undecided(where + ': projection not recognised')
        return P.made[0][0], P.made[0][3] / (KM * 1000) / P.made[0][4]

    def onmap(k, s, c, pts):
        C0 = (string(k), c.num('lon_c'), c.num('lat_c'))
        return [tuple(mul(num(s), mk('call', n, C0 + (x, y), ())) for n in ('east', 'north')) for x, y in pts]

    def setof(rings):
        return [tuple(tup(*p) for p in r) for r in rings]

    def same(where, what, got, want):
        """lists of points, in order"""
        if len(got) != len(want):
            raise Violation(where, f'{what}: {len(got)} points are drawn instead of {len(want)}')
        return [(what + f', point {i}', tup(*a), tup(*b)) for i, (a, b) in enumerate(zip(got, want))]

    def cpset(c, **kw):
        return c.obj('Craterplotset', **{**dict(ax=c.any('ax'), fig=c.any('fig'), grey=c.any('grey'), palette=c.any('palette'), pt_size=c.num('p_pt'), scaled_pt_size=c.num('p_spt'), sz_ratio=c.num('p_sz')), **kw})

    def polys(where, prs, drawn, want):
        if len(drawn) != len(want):
            raise Violation(where, f'{len(want)} parts of the area give {len(drawn)} outlines')
        for p, (g, w) in enumerate(zip(drawn, want)):
            if len(g) != len(w):
                raise Violation(where, f'part {p}: {len(w)} rings give {len(g)} rings')
            for i, (a, b) in enumerate(zip(g, w)):
                prs += same(where, f'part {p}, ring {i}', a, b)

    def plot(parts, ncr, craters):
        def f():
            where = 'Spatialcount.plot'
            c, P, G, geo, a, pts, drawn = scene(where, parts)
            R = [([c.num(f'lon_r{i}_{q}') for q in range(3)], [c.num(f'lat_r{i}_{q}') for q in range(3)]) for i in range(ncr)]
            log = []
            c.fn(S + '.find_rims')

            def rims(I, st, args, kw, node):
                log.append(bindargs(('self', 'craters', 'ns'), args, kw, 'find_rims').get('craters', NONE))
                return tup(lit(*[tup(lit(*x), lit(*y)) for x, y in R]), string('WKT'))
            c.I.models[S + '.find_rims'] = rims
            given = c.obj('spec.writer.Geom', lon=c.list(), lat=c.list(), diam=c.list(), fraction=c.list()) if craters else NONE
            o = c.run((a, 'plot'), cpset(c), given)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            k, s = centre(P, c, where)
            if log != [given]:
                raise Violation(where, 'the craters drawn are not those given')
            prs = []
            polys(where, prs, drawn, [[onmap(k, s, c, r) for r in [e] + h] for e, h in geo])
            lines = [(o.I.freeze(o.st, e.args[0]), o.I.freeze(o.st, e.args[1])) for e in calls(o, 'plot') if len(e.args) > 1]
            if any(x.op != 'lit' or y.op != 'lit' for x, y in lines):
                raise Undecided(where + ': rims not recognised')
            if len(lines) != ncr:
                raise Violation(where, f'{ncr} craters give {len(lines)} rims')
            for i, ((x, y), r) in enumerate(zip(lines, R)):
                prs += same(where, f'rim {i}', list(zip(x.a, y.a)), onmap(k, s, c, list(zip(*r))))
            m = [equal(where, prs)]
            # everything drawn lies within the limits
            lim = {}
            for n in ('set_xlim', 'set_ylim'):
                es = calls(o, n)
                if len(es) == 1 and len(es[0].args) == 2:
                    lim[n] = [o.I.freeze(o.st, x) for x in es[0].args]
            if len(lim) == 2:
                allp = [p for e, h in geo for p in onmap(k, s, c, e)] + [p for r in R for p in onmap(k, s, c, list(zip(*r)))]
                for n, i in (('set_xlim', 0), ('set_ylim', 1)):
                    plain = symbols(c)
                    b = c.run('spec.sphere.margin', lit(*[plain(p[i]) for p in allp]), *[plain(x) for x in lim[n]])
                    m.append(equal(where, [(n + ': everything drawn is inside', b.val, TRUE)]))
            return dict(methods=m, functions=[where])
        obs.append(Ob(f'map of {len(parts)} parts with {sum(len(h) for _, h in parts)} holes, {ncr} craters' + (', given craters' if craters else ''), f))
    shapes = ([(4, [])], [(3, [3])], [(3, []), (4, [3])], [(3, [3, 3]), (3, [])])
    for parts in shapes:
        for ncr, g in ((1, 0), (2, 1)) + (((0, 0),) if parts is shapes[0] else ()):
            plot(parts, ncr, g)

    def reduction(parts):
        def f():
            where = 'Randomnessanalysis.get_plot_reduction_factor'
            c, P, G, geo, a, pts, drawn = scene(where, parts, RA, plot_reduction_factor=NONE)
            m = c.I.models
            made = []
            real = G.polygon

            def polygon(I, st, args, kw, node):
                p = real(I, st, args, kw, node)
                made.append(G.rings(st, p)[0])
                return p
            m['shapely.Polygon'] = m['shapely.geometry.Polygon'] = polygon
            no = lambda I, st, args, kw, node: FALSE
            m['spec.no'] = no
            m['shapely.bounds'] = lambda I, st, args, kw, node: tup(*[c.num(x) for x in ('z_x0', 'z_y0', 'z_x1', 'z_y1')])
            for n in ('scale', 'translate'):
                m['shapely.affinity.' + n] = lambda I, st, args, kw, node: P.obj(st, bounds=tup(*[c.num(x) for x in ('z_x0', 'z_y0', 'z_x1', 'z_y1')]), overlaps=mk('ext', 'spec.no'), intersects=mk('ext', 'spec.no'))
            o = c.run((a, 'get_plot_reduction_factor'), num(Fr(3, 10)))
            k, s = centre(P, c, where)
            want = [onmap(k, s, c, e) for e, h in geo]
            got = [r for r in made if r and r[0][0].op != 'num']
            prs = []
            if len(got) != len(want):
                raise Undecided(where + ': outlines not recognised')
            for i, (x, y) in enumerate(zip(got, want)):
                prs += same(where, f'part {i}', x, y)
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'outline fitted beside the histogram: {len(parts)} parts', f))
    for parts in shapes[:3]:
        reduction(parts)

    def grid():
        where = 'Spatialcount.plot'
        c, P, G, geo, a, pts, drawn = scene(where, shapes[0])
        c.fn(S + '.find_rims')
        c.I.models[S + '.find_rims'] = lambda I, st, args, kw, node: tup(lit(tup(lit(*[c.num(f'lon_r{q}') for q in range(3)]), lit(*[c.num(f'lat_r{q}') for q in range(3)]))), string('WKT'))
        q = 'craterstats.gm.plotting.ticks.ticks'
        c.fn(q)
        T = {k: [c.num(f'{k}_t{i}') for i in range(4)] for k in ('lon', 'lat')}

        def ticks(I, st, args, kw, node):
            v = I.freeze(st, I.seqof(st, args[0]))
            ks = {z.a[0][:3] for z in tm.subterms(v) if z.op == 'call' and z.a[0] in ('lonof', 'latof')}
            if len(ks) != 1:
                raise Undecided(where + ': range of the grid not recognised')
            return lit(*T[ks.pop()])
        c.I.models[q] = ticks
        o = c.run((a, 'plot'), cpset(c), NONE, TRUE)
        k, s = centre(P, c, where)
        lines = [(o.I.freeze(o.st, e.args[0]), o.I.freeze(o.st, e.args[1])) for e in calls(o, 'plot') if len(e.args) > 1]
        if any(x.op not in ('lit', 'tuple') or y.op not in ('lit', 'tuple') for x, y in lines):
            raise Undecided(where + ': grid not recognised')
        seen = []
        for x, y in lines:
            ps = []
            for u, v in zip(x.a, y.a):
                e = [t for t in tm.subterms(u) if t.op == 'call' and t.a[0] == 'east']
                n = [t for t in tm.subterms(v) if t.op == 'call' and t.a[0] == 'north']
                if len(e) != 1 or len(n) != 1:
                    raise (Violation(where, 'a grid line has its northward position as eastward position') if tm.contains(u, lambda t: t.op == 'call' and t.a[0] == 'north') else Undecided(where + ': grid not recognised'))
                if e[0].a[1][3:] != n[0].a[1][3:]:
                    raise Violation(where, 'a point of a grid line is made of two positions')
                ps.append(e[0].a[1][3:])
            for i, nm in ((0, 'lon'), (1, 'lat')):
                vs = {p[i] for p in ps}
                if len(ps) > 3 and len(vs) == 1:
                    v = vs.pop()
                    if v not in T[nm]:
                        raise Violation(where, f'a grid line runs along the {"longitude" if nm == "lon" else "latitude"} {tm.show(v)}, which is none of the marked ones')
                    seen.append((nm, v))
        lab = [(o.I.freeze(o.st, e.args[2])) for e in calls(o, 'text') if len(e.args) > 2]
        inner = [(nm, t) for nm in ('lat', 'lon') for t in T[nm][1:-1]]
        if sorted(map(str, [(n, tm.show(v)) for n, v in seen])) != sorted(map(str, [(n, tm.show(v)) for n, v in inner])):
            raise Undecided(where + ': grid lines not recognised')
        return dict(methods=['value numbering'], functions=[where])
    obs.append(Ob('grid lines', grid))

    def neighbours(n, own):
        def f():
            where = 'Randomnessanalysis.oplot_neighbours'
            c, P, G, geo, a, pts, drawn = scene(where, shapes[0], RA)
            made = c.fn(RA + '.get_plot_reduction_factor')  # noqa: F841
            a2 = P.proj(c.I, c.st, [], dict(proj=string('ortho'), lon_0=c.num('lon_c'), lat_0=c.num('lat_c'), R=num(KM)), None)
            c.set(a, ortho_proj=a2)
            near = [mk('call', 'pt', (string(f'near{i}'),), ()) for i in range(n)]
            for i, p in enumerate(near):
                pts[p.id] = (c.num(f'lon_n{i}'), c.num(f'lat_n{i}'))
            lon, lat = [c.num(f'lon_{i}') for i in range(n)], [c.num(f'lat_{i}') for i in range(n)]
            cr = c.obj('spec.writer.Geom', lon=c.list(*lon), lat=c.list(*lat), diam=c.list(*[num(1)] * n), fraction=c.list(*[num(1)] * n))
            o = c.run((a, 'oplot_neighbours'), cpset(c), cr, c.list(*near), *([c.any('axes')] if own else []))
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            es = [[o.I.freeze(o.st, x) for x in e.args[:2]] for e in calls(o, 'plot') if len(e.args) > 1]
            if any(x.op not in ('lit', 'tuple') for e in es for x in e):
                raise Undecided(where + ': lines not recognised')
            if len(es) != n:
                raise Violation(where, f'{n} craters give {len(es)} lines')
            prs = []
            for i, (x, y) in enumerate(es):
                prs += same(where, f'line {i}', list(zip(x.a, y.a)), onmap('ortho', Fr(1, 1000), c, [(lon[i], lat[i]), pts[near[i].id]]))
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'lines to {n} neighbours' + (', given axes' if own else ''), f))
    for n in (1, 2, 5):
        neighbours(n, 0)

    def cells(parts, far):
        """far: edges (part, number) longer than the length drawn straight"""
        def f():
            where = 'Randomnessanalysis.oplot_voronoi'
            c, P, G, geo, a, pts, drawn = scene(where, shapes[0], RA)
            c.set(a, ortho_proj=P.proj(c.I, c.st, [], dict(proj=string('ortho'), lon_0=c.num('lon_c'), lat_0=c.num('lat_c'), R=num(KM)), None))
            ring = lambda tag, n: [(c.num(f'lon{tag}_{i}'), c.num(f'lat{tag}_{i}')) for i in range(n)]
            rings = [[ring(f'v{p}{q}', n) for q, n in enumerate(ns)] for p, ns in enumerate(parts)]
            rings = [[r + r[:1] for r in part] for part in rings]
            p2 = c.list(*[G.area(c.st, [(r, []) for r in part]) for part in rings])
            edges = {}
            for p, part in enumerate(rings):
                for q, r in enumerate(part):
                    for i, x in enumerate(r):
                        edges[x + r[(i + 1) % len(r)]] = (p, q, i) in far
            m = c.I.models

            def geod(I, st, args, kw, node):
                d = dict(kw)
                if args or d.get('a') is not num(1) or d.get('f', num(0)) is not num(0):
                    raise Undecided('geodesic not recognised')
                return P.obj(st, inv=mk('ext', 'spec.inv'), fwd=mk('ext', 'spec.fwd'))
            m['pyproj.Geod'] = geod

            def inv(I, st, args, kw, node):
                e = tuple(args)
                if e not in edges:
                    if len(e) == 4 and (e[1], e[0], e[3], e[2]) in edges:
                        raise Violation(where, 'latitude and longitude are interchanged in a geodesic calculation')
                    if e[:2] == e[2:]:
                        return tup(num(0), num(0), num(0))
                    raise Undecided('edge not recognised')
                return tup(mk('call', 'azimuth', e, ()), num(0), num(Fr(1, 2)) if edges[e] else num(Fr(1, 10**5)))
            m['spec.inv'] = inv
            full = lambda I, st, v: I.freeze(st, I.seqof(st, v) if v.op == 'ref' else v)

            def fwd(I, st, args, kw, node):
                v = [full(I, st, x) for x in args]
                n = tm.length(v[3])
                if n.op != 'num':
                    raise Undecided('points along an edge not recognised')
                n = int(n.a[0])
                get = lambda t, i: t if tm.shape(t) == 's' else tm.idx(t, num(i))
                out = []
                for i in range(n):
                    x, y, az, s = (get(t, i) for t in v)
                    if az.op != 'call' or az.a[0] != 'azimuth' or az.a[1][:2] != (x, y):
                        if az.op == 'call' and az.a[0] == 'azimuth' and az.a[1][:2] == (y, x):
                            raise Violation(where, 'latitude and longitude are interchanged in a geodesic calculation')
                        raise Undecided('points along an edge not recognised')
                    if s is num(0):
                        out.append((x, y))
                    else:
                        out.append((mk('call', 'alonglon', az.a[1] + (s,), ()), mk('call', 'alonglat', az.a[1] + (s,), ())))
                return tup(lit(*[p[0] for p in out]), lit(*[p[1] for p in out]), NONE)
            m['spec.fwd'] = fwd
            o = c.run((a, 'oplot_voronoi'), cpset(c), NONE, p2)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            want = [r for part in rings for r in part]
            if len(drawn) != len(want):
                raise Violation(where, f'{len(want)} outlines are drawn as {len(drawn)}')
            for g, r in zip(drawn, want):
                pts_ = g[0]
                verts = onmap('ortho', Fr(1, 1000), c, r)
                k = 0
                for x in pts_:
                    if k < len(verts) and tuple(x) == tuple(verts[k]):
                        k += 1
                    elif not tm.contains(x[0], lambda t: t.op == 'call' and t.a[0] == 'alonglon'):
                        if tuple(x) == tuple(verts[0]) or tuple(x) in [tuple(v) for v in verts]:
                            continue
                        raise Undecided(where + ': point of an outline not recognised: ' + tm.show(x[0])[:150])
                if k < len(verts) - 1:
                    raise Violation(where, f'vertex {k} of a cell is not on its outline, or out of order')
            return dict(methods=['value numbering'], functions=[where])
        obs.append(Ob(f'outlines of {len(parts)} cells, {len(far)} long edges', f))
    cells([[3]], {(0, 0, 1)})
    cells([[3, 4], [3]], {(0, 1, 0), (1, 0, 2)})
    cells([[4], [3], [3]], set())

    # geometry decided together with what it serves
    for prop, names in (('c15', '^spatial count'), ('c16', '^.shp areas with (0|1, 0, 2) holes'), ('c21', '^(coordinates|enclosing|configuration [0-7]:)'), ('c22', '^(area measure|neighbour measure [0-7]:)'), ('c25', '^craters (geographic|projected|covered, partly covered, outside)|^radii|^craters partly covered$')):
        for ob in importlib.import_module('checks.' + prop).obligations('quick'):
            if re.search(names, ob.name):
                obs.append(ob)
    return obs
