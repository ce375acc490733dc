from checks.sphere import *

RULE = ('the mean distance and list of neighbours of the neighbour measure, for points placed in neighbouring, distant and empty cells in every scenario and for the first, second and third neighbour, and the standard deviation and clipped cells of the area measure '
        'for symbolic points, are compared as value-flow terms with their definition')
FNS = ['kth_nearest_neighbour_pp', 'sdaa', 'evaluate_randomness', 'cone_search']


def scenarios(tier):
    rnd = random.Random(5)
    out = []
    for i in range(40 if tier == 'quick' else 400):
        n = rnd.choice([3, 3, 4, 5, 6, 8])
        w = Fr(1, rnd.choice([8, 16, 50]))
        span = rnd.choice([2, 4, 10, 30, 60]) * w
        pos = set()
        while len(pos) < n:
            pos.add(span * Fr(rnd.randrange(1, 9999), 10000))
        k = rnd.choice([1, 2, 2, 2, 3])
        out.append((list(pos), w, min(k, n - 1), i % 3 == 0))
    for n, cells in [(60, 2), (120, 2)] if tier == 'quick' else [(60, 2), (120, 2), (120, 1), (150, 4)]:      # crowded cells
        w = Fr(1, 16)
        out.append(([(Fr(1, 2) + (i + Fr(rnd.randrange(1, 999), 1000)) * cells / n) * w for i in range(n)], w, 2, False))
    return out


def obligations(tier):
    obs = []

    def kth(j, pos, w, k, omit, entry):
        def f():
            c = Ctx()
            c.I.unroll = max(c.I.unroll, len(pos))
            s = Sphere(c, pos, w, omit=omit)
            s.where = lambda: 'Randomnessanalysis.kth_nearest_neighbour_pp'
            p = tuple_pp(c, s)
            hpd = {}
            for i in range(len(pos)):
                hpd.setdefault(s.cellof(i), []).append(i)
            order = [i for v in hpd.values() for i in v]
            pts = tup(*[s.points[i] for i in order])
            ids = tup(*[num(s.cellof(i)) for i in order])
            d = c.dict()
            c.I.setcell(c.st, d, mk('dict', *[(num(q), c.list(*[s.points[i] for i in v])) for q, v in hpd.items()]))
            c.fn(M + 'sdaa')
            c.I.models[M + 'sdaa'] = lambda I, st, args, kw, node: tup(mk('call', 'other measure', (), ()), lit())
            o = c.run(M + 'kth_nearest_neighbour_pp', p, pts, ids, d, k) if entry else c.run(M + 'evaluate_randomness', p, pts, ids, d)
            where = 'Randomnessanalysis.kth_nearest_neighbour_pp'
            for a in o.aborts:
                if a.pc is TRUE and not a.loops:
                    raise Violation(where, f'ends with {a.exc} for {len(pos)} points in cells {sorted(s.cellof(i) for i in order)}')
            kk = k if entry else 2
            dist, nb = [], []
            for i in order:
                x = sorted((abs(pos[i] - pos[q]), q) for q in range(len(pos)))
                dist.append(x[kk][0])
                nb.append(s.points[x[kk][1]])
            if o.val.op not in ('tuple', 'lit') or len(o.val.a) != 2:
                raise Undecided(where + ': result not recognised')
            if any(tm.contains(x, lambda t: t.op == 'idxerr') and not tm.contains(x, lambda t: t.op == 'ite') for x in o.val.a):
                raise Violation(where, f'looks for a neighbour in cells that do not hold it, for {len(pos)} points in cells {sorted(s.cellof(i) for i in order)}')
            if any(tm.contains(x, lambda t: t.op == 'call' and t.a[0] == 'other measure') for x in o.val.a):
                raise Violation(where, 'the neighbour measure is not taken from kth_nearest_neighbour_pp')
            if o.val.a[0].op != 'num' or o.val.a[1].op not in ('lit', 'tuple') or any(x.id not in s.index for x in o.val.a[1].a):
                raise Undecided(where + ': search not recognised: ' + tm.show(o.val)[:200])
            mean = mul(num(sum(dist) / len(dist)), num(Fr(1737)))
            m = equal(where, [('mean distance', o.val.a[0], mean), ('neighbours', o.val.a[1], lit(*nb))])
            return dict(methods=[m], functions=[where, 'Randomnessanalysis.evaluate_randomness'] if not entry else [where])
        obs.append(Ob(f'neighbour measure {j}: {len(pos)} points, k={k}' + (', incomplete cone search' if omit else '') + ('' if entry else ', standard measure'), f))
    def area(n, entry):
        def f():
            c = Ctx()
            s = Sphere(c, range(n), 1)
            where = 'Randomnessanalysis.sdaa'
            s.where = lambda: where
            wd = World(c)
            for x in ('within', 'covers', 'covered_by', 'contains'):
                c.I.models.pop('spherely.' + x, None)
            nv = 2 * n - 4
            vert = [tup(*[c.num(f'v{i}{a}') for a in 'xyz']) for i in range(nv)]
            region = [[(i + q) % nv for q in range(3 + i % 2)] for i in range(n)]
            given = []

            def voronoi(I, st, args, kw, node):
                d = bindargs(('points', 'radius', 'center', 'threshold'), args, kw, 'SphericalVoronoi')
                given.append((rows(I, st, d['points']), d.get('radius', num(1)), I.freeze(st, I.seqof(st, d['center'])) if d.get('center', NONE) is not NONE else lit(num(0), num(0), num(0))))
                r = d.get('radius', num(1))
                o = I.new(st, 'obj', dict(vertices=lit(*[lit(*[mul(r, x) for x in v.a]) for v in vert]), sort_vertices_of_regions=mk('ext', 'spec.sv.sort'),
                                          regions=I.newlist(st, lit(*[I.newlist(st, lit(*[num(k) for k in r[::-1]])) for r in region]))), 'spec.writer.Geom')

                def sort(I, st, args, kw, node):
                    I.set_attr(st, o, 'regions', I.newlist(st, lit(*[I.newlist(st, lit(*[num(k) for k in r])) for r in region])))
                    return NONE
                I.models['spec.sv.sort'] = sort
                return o
            c.I.models['scipy.spatial.SphericalVoronoi'] = voronoi

            def intersection(I, st, args, kw, node):
                d = bindargs(('a', 'b'), args, kw, 'intersection')
                a, b = I.freeze(st, d['a']), I.freeze(st, d['b'])
                if s.polygon not in (a, b):
                    raise Violation(where, 'cells are not clipped to the mapped area')
                return mk('call', 'clipped', (a if b is s.polygon else b,), ())
            c.I.models['spherely.intersection'] = intersection
            tm.RETURNS['clipped'] = ('s', 'inst:spherely.Geography')
            c.fn(M + 'kth_nearest_neighbour_pp')
            c.I.models[M + 'kth_nearest_neighbour_pp'] = lambda I, st, args, kw, node: tup(mk('call', 'other measure', (), ()), lit())
            p = tuple_pp(c, s, measure=string('sdaa'), planetary_radius=c.num('p_R'))
            pts = tup(*s.points)
            ids = tup(*[num(i) for i in range(n)])
            o = c.run(M + 'evaluate_randomness', p, pts, ids, c.dict()) if entry else c.run(M + 'sdaa', p, pts, ids, c.dict())
            if any(tm.contains(x, lambda t: t.op == 'call' and t.a[0] == 'other measure') for x in o.val.a):
                raise Violation(where, 'the area measure is not taken from sdaa')
            if len(given) != 1 or o.val.op not in ('tuple', 'lit') or len(o.val.a) != 2:
                raise Undecided(where + ': calculation not recognised')
            y = c.run('spec.sphere.sdaa', p, pts, c.list(*[tup(*[num(k) for k in r]) for r in region]), c.list(*vert))
            unit = c.run('spec.sphere.unit', c.list(*[tup(a, b) for a, b in zip(s.lon, s.lat)]))
            return dict(methods=[equal(where, [('measure', o.val.a[0], y.val.a[0]), ('cells', o.val.a[1], y.val.a[1]), ('points on the unit sphere', given[0][0], rows(c.I, unit.st, unit.val)), ('radius', given[0][1], num(1)), ('centre', given[0][2], lit(num(0), num(0), num(0)))])], functions=[where])
        obs.append(Ob(f'area measure: {n} points' + (', by name' if entry else ''), f))
    for n in (4, 5) if tier == 'quick' else range(4, 12):
        area(n, n % 2)
    for j, (pos, w, k, omit) in enumerate(scenarios(tier)):
        kth(j, pos, w, k, omit, j % 4 or k != 2)
    return obs
