from checks.sphere import *

RULE = ('the points, cell numbers and cell index of simulated configurations, for candidate points inside and outside the area, near and far from one another and in shared, neighbouring and distant cells in every scenario, are compared with the configuration the rule defines; '
        'the coordinates drawn and the range they are drawn from are compared as value-flow terms with their definitions')
FNS = ['sprinkle_discs_pp', 'random_points_pp', 'cone_search', 'Spatialcount.find_enclosing_polygon', 'Randomnessanalysis.self_pp']
SPR, RND = M + 'sprinkle_discs_pp', M + 'random_points_pp'


def scenarios(tier):
    rnd = random.Random(7)
    out = []
    R = Fr(1737)
    for i in range(48 if tier == 'quick' else 500):
        n = rnd.choice([1, 2, 3, 4, 6])
        w = Fr(1, rnd.choice([8, 16, 50]))
        total = 3 * n + 8
        diam = R * w * rnd.choice([Fr(1, 7), Fr(2, 3), Fr(3, 2), Fr(13, 4)])
        span = rnd.choice([1, 2, 5, 20]) * w
        pos, inside = [], []
        while len(pos) < total:
            near = pos and rnd.random() < .6
            x = rnd.choice(pos) + rnd.choice([-1, 1]) * diam / R / 2 * Fr(rnd.choice([3, 8, 97, 103, 140, 210]), 100) + Fr(rnd.randrange(1, 999), 10**8) if near else span * Fr(rnd.randrange(1, 9999), 10000)
            if not 0 < x < 60 * w or x in pos or any(abs(abs(x - y) * R - diam / 2) < Fr(1, 10**9) for y in pos):
                continue
            pos.append(x)
            inside.append(rnd.random() < .75)
        # enough points far from all others to reach any number
        for k in range(2 * n):
            pos.append(70 * w + 40 * diam / R * (k + 1))
            inside.append(True)
        out.append((n, w, diam, pos, inside, rnd.choice([2, 3, 5, total]), i % 3 == 0))
    return out


def expected(n, diam, pos, inside):
    kept = []
    for i in range(len(pos)):
        if inside[i]:
            kept = [q for q in kept if abs(pos[q] - pos[i]) * Fr(1737) > diam / 2] + [i]
        if len(kept) >= n:
            return kept
    return None


def obligations(tier):
    obs = []

    def sprinkle(j, n, w, diam, pos, inside, chunk, omit):
        def f():
            c = Ctx()
            c.fn(RND)
            s = Sphere(c, pos, w, inside=inside, omit=omit, cells=10**6)
            where = 'Randomnessanalysis.sprinkle_discs_pp'
            s.where = lambda: where
            s.within0, used = s.within, [0]

            def draw(I, st, args, kw, node):
                a = bindargs(('self', 'n'), args, kw, 'random_points_pp')
                if a['n'].op != 'num':
                    raise Undecided('number of candidates not recognised: ' + tm.show(a['n'])[:100])
                if a['n'].a[0] < 1:
                    raise Violation(where, f'asks for {a["n"].a[0]} candidate points: a configuration that is still short of points is never completed')
                k = used[0]
                used[0] = min(len(pos), k + min(chunk, int(a['n'].a[0])))
                if k == used[0]:
                    raise Undecided('more candidate points needed than the scenario provides')
                return I.newlist(st, lit(*[tup(s.lon[i], s.lat[i]) for i in range(k, used[0])]))
            c.I.models[RND] = draw
            p = tuple_pp(c, s)
            o = c.run(SPR, p, num(n), num(diam))
            want = expected(n, diam, pos, inside)
            for a in o.aborts:
                if a.pc is TRUE and not a.loops:
                    raise Violation(where, f'ends with {a.exc}')
            r = o.I.freeze(o.st, o.val)
            if r.op not in ('tuple', 'lit') or len(r.a) != 3 or any(x.op not in ('lit', 'tuple') for x in r.a[:2]):
                raise Undecided(where + ': configuration not recognised: ' + tm.show(r)[:200])
            pts, ids = r.a[0].a, r.a[1].a
            if any(x.id not in s.index for x in pts) or any(x.op != 'num' for x in ids):
                raise Undecided(where + ': points not recognised: ' + tm.show(r)[:200])
            got = [s.index[x.id] for x in pts]
            text = f'{n} points of diameter {float(diam):.4g}'
            out = [q for q in got if not inside[q]]
            if out:
                raise Violation(where, f'{text}: a point outside the area is kept')
            if len(got) != n or len(set(got)) != n:
                raise Violation(where, f'{text}: the configuration has {len(got)} points')
            if sorted(got) != sorted(want):
                raise Violation(where, f'{text}: the points kept are not those that remain when each new point removes the points closer than half the diameter (kept {sorted(got)}, expected {sorted(want)})')
            if [int(x.a[0]) for x in ids] != [s.cellof(q) for q in got]:
                raise Violation(where, f'{text}: points are filed under cells that are not their own')
            d = dictof(o, o.raw.a[2] if o.raw.op == 'tuple' else r.a[2])
            if d is None:
                raise Undecided(where + ': cell index not recognised')
            index = sorted((int(k.a[0]), s.index.get(x.id)) for k, v in d for x in v)
            if index != sorted((s.cellof(q), q) for q in got):
                raise Violation(where, f'{text}: the cell index does not hold exactly the points kept')
            return dict(methods=['constant propagation'], functions=[where])
        obs.append(Ob(f'configuration {j}: {n} points, {len(pos)} candidates in rounds of {chunk}' + (', incomplete cone search' if omit else ''), f))
    for j, x in enumerate(scenarios(tier)):
        sprinkle(j, *x)

    def drawn():
        c = Ctx()
        s = Sphere(c, [0], 1)
        k = itertools.count(1)
        U = lambda i, n: mk('call', 'uniform', (num(i), n), ())
        tm.RETURNS['uniform'] = ('a', 'num')
        m = c.I.models
        size = lambda I, st, v: I.freeze(st, v)

        def uniform(I, st, args, kw, node):
            d = bindargs(('low', 'high', 'size'), args, kw, 'uniform')
            lo, hi = d.get('low', num(0)), d.get('high', num(1))
            return add(lo, mul(sub(hi, lo), U(next(k), size(I, st, d.get('size', NONE)))))
        m['numpy.random.uniform'] = uniform
        for nm in ('random', 'random_sample', 'rand', 'ranf', 'sample'):
            m['numpy.random.' + nm] = lambda I, st, args, kw, node: U(next(k), size(I, st, bindargs(('size',), args, kw, 'random').get('size', NONE)))
        p = tuple_pp(c, s)
        n = c.num('p_n')
        o = c.run(RND, p, n)
        where = 'Randomnessanalysis.random_points_pp'
        x, y = c.run('spec.sphere.coordinates', o.raw, _st=o.st).val.a
        last = None
        for i, j in ((1, 2), (2, 1)):
            r = c.run('spec.sphere.uniform', c.num('x0'), c.num('x1'), c.num('y0'), c.num('y1'), U(i, n), U(j, n))
            try:
                return dict(methods=[equal(where, [('longitude', x, r.val.a[0]), ('latitude', y, r.val.a[1])])], functions=[where])
            except Violation as e:
                last = last or e
        raise last
    obs.append(Ob('coordinates of candidates', drawn))

    def enclosing(north, south):
        def f():
            c = Ctx()
            m = c.I.models
            where = 'Spatialcount.find_enclosing_polygon'
            co = lit(*[lit(mul(num(15), c.num(f'x{i}')), mul(num(15), c.num(f'y{i}'))) for i in range(4)])
            poly = mk('call', 'outline', (string('area'),), ())
            point = lambda lon, lat: mk('call', 'pt', (lon, lat), ())

            def make(I, st, args, kw, node):
                d = bindargs(('longitude', 'latitude'), args, kw, 'create_point')
                return point(d['longitude'], d['latitude'])

            def covers(I, st, args, kw, node):
                d = bindargs(('a', 'b'), args, kw, 'covers')
                q = I.freeze(st, d['b'])
                if d['a'] is poly and q.op == 'call' and q.a[0] == 'pt' and q.a[1][1] in (num(90), num(-90)):
                    return TRUE if (north if q.a[1][1] is num(90) else south) else FALSE
                raise Undecided('containment test not recognised: ' + tm.show(q)[:100])

            def shape(I, st, args, kw, node):
                if I.freeze(st, args[0]) is not poly:
                    raise Undecided('unrecognised outline: ' + tm.show(I.freeze(st, args[0]))[:100])
                return I.new(st, 'obj', dict(bounds=tup(*[c.num(k) for k in ('minx', 'miny', 'maxx', 'maxy')])), 'spec.writer.Geom')

            def area(I, st, args, kw, node):
                d = bindargs(('a', 'radius'), args, kw, 'area')
                return mk('call', 'sphere_area', (I.freeze(st, d['a']), d.get('radius', EARTH)), ())

            def polygon(I, st, args, kw, node):
                return mk('call', 'polygon', (I.freeze(st, bindargs(('shell',), args, kw, 'create_polygon')['shell']),), ())
            m.update({'spherely.create_point': make, 'spherely.covers': covers, 'shapely.from_wkt': shape, 'shapely.from_wkb': shape, 'spherely.area': area, 'spherely.create_polygon': polygon,
                      'spherely.to_wkt': lambda I, st, a, kw, node: a[0], 'spherely.to_wkb': lambda I, st, a, kw, node: a[0],
                      'shapely.get_coordinates': lambda I, st, a, kw, node: co, 'shapely.wkt.loads': shape})
            s = c.obj('Spatialcount', polygon=poly, planetary_radius=c.num('p_R'), area=c.num('p_A'), perimeter=c.num('p_P'))
            o = c.run((s, 'find_enclosing_polygon'))
            r = c.run('spec.sphere.latitudes', tup(*[c.num(k) for k in ('minx', 'miny', 'maxx', 'maxy')]), c.list(*[tup(*x.a) for x in co.a]), TRUE if north else FALSE, TRUE if south else FALSE)
            x = tup(num(-180), num(180)) if north or south else tup(c.num('minx'), c.num('maxx'))
            xr, yr = c.attr(o, s, 'xr'), c.attr(o, s, 'yr')
            for nm, v in (('longitudes', xr), ('latitudes', yr)):
                if v is None or v.op not in ('tuple', 'lit') or len(v.a) != 2:
                    raise Undecided(f'{where}: range of {nm} not recognised')
            e = c.attr(o, s, 'enclosing_area')
            ms = [equal(where, [('range of longitude', xr, x), ('range of latitude', yr, r.val)])]
            if e is not None and e.op == 'call' and e.a[0] == 'sphere_area':
                ms.append(equal(where, [('radius used for the enclosing area', e.a[1][1], c.num('p_R'))]))
            return dict(methods=ms, functions=[where])
        return f
    for north, south in ((False, False), (True, False), (False, True), (True, True)):
        obs.append(Ob('enclosing range' + (', north pole inside' if north else '') + (', south pole inside' if south else ''), enclosing(north, south)))
    return obs
