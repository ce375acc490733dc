from checks.spatial import *

RULE = ('the value-flow terms of the lines written to statistics, spatial count and randomness files and of the records and outlines written to shapefiles, over symbolic crater lists, bins, boundaries and trials, '
        'are compared with the reference layout of that format, column by column and row by row')
FNS = ['Cratercount.WriteStatFile', 'Spatialcount.writeSCCfile', 'Spatialcount.writeSHPfiles', 'Spatialcount.polygon_to_pts', 'Randomnessanalysis.write', 'Randomnessanalysis.read']
RA = 'craterstats.Randomnessanalysis.Randomnessanalysis'
APPLY = CC + '.apply_binning'
COLS = ('d_min', 'd_mean', 'bin_width', 'n', 'n_event', 'ncum')


def written(o, where):
    fl = [e for e in o.effects if e.name.rsplit('.', 1)[-1] == 'write_textfile']
    if len(fl) != 1 or fl[0].pc is not TRUE or fl[0].loops:
        raise Undecided(where + ': writing not recognised')
    a = bindargs(('filename', 's', 'BOM', 'append'), fl[0].args, dict(fl[0].kw), 'write_textfile')
    if any(tm.truth(a.get(k, FALSE)) is not FALSE for k in ('append', 'BOM')):
        raise Undecided(where + ': mode of writing not recognised')
    return a['filename'], a['s']


def notended(o, where):
    for a in o.aborts:
        if a.pc is TRUE:
            raise Violation(where, f'ends with {a.exc}')


def obligations(tier):
    obs = []

    def stat(pre, done, binning, given):
        nm = f'.stat prebinned={pre} already binned={done} binning={binning}'

        def f():
            c = Ctx(opaque=[WTF])
            c.fn(WTF), c.fn(APPLY)
            ap = []

            def table(st, tag):
                return c.I.newdict(st, mk('dict', *[(string(k), c.arr(('z_' if k in ('n', 'n_event', 'ncum') else 'p_') + k + tag)) for k in COLS + ('d_max',)]))

            def apply(I, st, args, kw, node):
                a = bindargs(('self', 'binning', 'offset'), args, kw, 'apply_binning')
                ap.append((a.get('binning', NONE), a.get('offset', num(0))))
                I.set_attr(st, a['self'], 'binned', table(st, '1'))
                I.set_attr(st, a['self'], 'binning', a.get('binning', NONE))
                return NONE
            c.I.models[APPLY] = apply
            b0 = (done if isinstance(done, str) else binning or 'pseudo-log') if done else None
            s = c.obj('Cratercount', filename='in/a.diam', area=c.num('p_A'), prebinned=1 if pre else 0, binning='pseudo-log' if pre else b0)
            c.set(s, binned=table(c.st, '0') if pre or done else c.dict())
            o = c.run((s, 'WriteStatFile'), 'out/x.stat', **({} if binning is None else dict(binning=binning)))
            w = 'Cratercount.WriteStatFile'
            notended(o, w)
            name, text = written(o, w)
            want = binning or 'pseudo-log'
            t = '0' if pre or not ap else '1'
            if not pre and b0 != (binning or 'pseudo-log') and not ap:
                raise Violation(w, 'written before the craters are binned')
            prs = [('file name', name, string('out/x.stat'))]
            if ap and not pre:
                prs += [('binning applied', ap[-1][0], string(want)), ('offset', ap[-1][1], num(0))]
            y = c.run('spec.writer.stat', 'in/a.diam', 'pseudo-log' if pre else want, c.num('p_A'), *[c.arr(('z_' if k in ('n', 'n_event', 'ncum') else 'p_') + k + t) for k in COLS])
            prs.append(('text', text, y.val))
            lens = {('z_' if k in ('n', 'n_event', 'ncum') else 'p_') + k + t: 4 for k in COLS + ('d_max',)}
            return dict(methods=[equal(w + ': ' + nm, prs, lens=lens)], functions=['Cratercount.WriteStatFile'])
        obs.append(Ob(nm, f))
    stat(1, 0, None, 0)
    for b in (None, 'root-2', '10/decade'):
        for done in (0, 1, 'none'):
            stat(0, done, b, 0)

    def scc(nm, shapes, filename='out/x.scc'):
        """shapes: list of shapes, each a list of parts (clockwise?, number of vertices)"""
        def f():
            c = Ctx(opaque=[WTF])
            c.fn(WTF), c.fn(S)
            cw, sh, vert, part = {}, [], [], 0
            for i, parts in enumerate(shapes):
                pts, starts = [], []
                for j, (clock, k) in enumerate(parts):
                    starts.append(len(pts))
                    v = [tup(c.num(f'x{i}{j}{q}'), c.num(f'y{i}{j}{q}')) for q in range(k)]
                    cw[lit(*v).id] = clock
                    part += 1
                    vert += [tup(num(part), string('ext' if j == 0 or clock else 'int'), *x.a) for x in v]
                    pts += v
                sh.append(c.obj('Spatialcount', points=c.list(*pts), parts=c.list(*starts)))

            def clockwise(I, st, args, kw, node):
                v = rows(I, st, args[0])
                if v.id not in cw:
                    raise Violation('Spatialcount.writeSCCfile', f'orientation of a vertex list that is no ring of the boundary: {tm.show(v)[:120]}')
                return TRUE if cw[v.id] else FALSE
            c.I.models['shapefile.is_cw'] = clockwise
            c.I.models['shapefile.signed_area'] = None
            del c.I.models['shapefile.signed_area']
            col = dict(diam=c.arr('p_D'), fraction=c.arr('p_F'), lon=c.arr('x'), lat=c.arr('y'))
            tc, ta = c.num('tc'), c.num('ta')
            s = c.obj('Spatialcount', sa=c.list(*sh), planetary_radius=c.num('p_R'), area=c.num('p_A'), perimeter=c.num('p_P'), tc=tc, ta=ta, crater_file='in/a_CRATER.shp', area_file='in/b_AREA.shp', **col)
            o = c.run((s, 'writeSCCfile'), filename)
            w = 'Spatialcount.writeSCCfile'
            notended(o, w)
            tstamp = lambda t: c.run('spec.writer.stamp', t).val
            y1 = c.run('spec.writer.scc_head', c.run('spec.writer.version').val, tstamp(tc), 'a_CRATER.shp', tstamp(ta), 'b_AREA.shp', c.num('p_R'), c.num('p_A'), c.num('p_P'), part).val
            y2 = c.run('spec.writer.scc_boundary', lit(*vert)).val
            y3 = c.run('spec.writer.scc_craters', *col.values()).val
            ref = c.run('spec.writer.join', y1, y2, y3).val
            if filename:
                name, text = written(o, w)
                prs = [('file name', name, string(filename)), ('text', text, ref)]
            else:
                p = [e for e in o.effects if e.name.rsplit('.', 1)[-1] == 'print']
                if len(p) != 1:
                    raise Undecided(w + ': output not recognised')
                prs = [('text', p[0].args[0], c.run('spec.writer.lines', ref).val)]
            return dict(methods=[equal(w + ': ' + nm, prs, lens=dict(p_D=4, p_F=4, x=4, y=4))], functions=['Spatialcount.writeSCCfile'])
        obs.append(Ob('.scc ' + nm, f))
    scc('one part', [[(1, 4)]])
    scc('one part anticlockwise', [[(0, 4)]])
    scc('printed', [[(1, 4), (0, 3)]], filename=None)
    scc('hole', [[(1, 4), (0, 3)]])
    scc('two areas in a shape, each with a hole', [[(1, 4), (0, 3), (1, 5), (0, 4)]])
    scc('two areas', [[(1, 4)], [(1, 3)]])
    scc('three areas with holes', [[(1, 4), (0, 3)], [(1, 3), (0, 3), (0, 4)], [(0, 5)]])

    def shp(polys):
        nm = f'.shp areas with {", ".join(map(str, polys))} holes'

        def f():
            c = Ctx(opaque=[WTF, S + '.find_rims'])
            c.fn(WTF), c.fn(S + '.find_rims')
            I, m = c.I, c.I.models
            G = 'craterstats.gm.Geometry'
            ring = lambda tag: lit(*[tup(c.num(f'x{tag}{q}'), c.num(f'y{tag}{q}')) for q in range(3)])
            cw = lambda r: mk('call', 'clockwise', (r,), ())
            ccw = lambda r: mk('call', 'anticlockwise', (r,), ())
            line = lambda st, t: I.new(st, 'obj', dict(coords=t, geom_type=string('LinearRing')), 'spec.writer.Geom')

            def poly(st, ext, holes):
                return I.new(st, 'obj', dict(exterior=line(st, ext), interiors=I.newlist(st, lit(*[line(st, h) for h in holes])), geom_type=string('Polygon')), 'spec.writer.Geom')
            ps = [poly(c.st, ring(f'{i}e'), [ring(f'{i}h{j}') for j in range(h)]) for i, h in enumerate(polys)]
            g = ps[0] if len(ps) == 1 else I.new(c.st, 'obj', dict(geoms=I.newlist(c.st, lit(*ps)), geom_type=string('MultiPolygon')), 'spec.writer.Geom')
            ga = lambda st, o, n: I.get_attr(st, o, n, None)
            kind = lambda st, o: I.freeze(st, ga(st, o, 'geom_type')).a[0]

            def orient(I, st, args, kw, node):
                a = bindargs(('polygon', 'sign'), args, kw, 'orient')
                if kind(st, a['polygon']) != 'Polygon':
                    raise Violation('Spatialcount.polygon_to_pts', 'orientation of several polygons taken for that of one')
                s = a.get('sign', num(1))
                if s not in (num(1), num(-1)):
                    raise Undecided('orientation not recognised')
                e, h = (ccw, cw) if s is num(1) else (cw, ccw)
                p = a['polygon']
                return poly(st, e(I.freeze(st, ga(st, ga(st, p, 'exterior'), 'coords'))), [h(I.freeze(st, ga(st, x, 'coords'))) for x in holes(st, p)])

            def holes(st, p):
                return list(I.seqof(st, ga(st, p, 'interiors')).a)

            same = lambda I, st, args, kw, node: args[0]
            parts = lambda I, st, args, kw, node: ga(st, args[0], 'geoms') if kind(st, args[0]) == 'MultiPolygon' else I.newlist(st, lit(args[0]))
            m.update({'spherely.to_wkb': same, 'shapely.from_wkb': same, 'spherely.to_wkt': same, 'shapely.from_wkt': same, 'shapely.get_parts': parts, 'shapely.geometry.polygon.orient': orient,
                      'shapely.get_exterior_ring': lambda I, st, args, kw, node: ga(st, args[0], 'exterior') if kind(st, args[0]) == 'Polygon' else NONE,
                      'shapely.get_num_interior_rings': lambda I, st, args, kw, node: num(len(holes(st, args[0])) if kind(st, args[0]) == 'Polygon' else 0),
                      'shapely.get_interior_ring': lambda I, st, args, kw, node: holes(st, args[0])[int(args[1].a[0])],
                      'shapely.get_coordinates': lambda I, st, args, kw, node: ga(st, args[0], 'coords')})
            N = 3
            rims = [tup(lit(*[c.num(f'u{i}{q}') for q in range(3)]), lit(*[c.num(f'v{i}{q}') for q in range(3)])) for i in range(N)]
            m[S + '.find_rims'] = lambda I, st, args, kw, node: tup(lit(*rims), string('WKT'))
            col = {k: c.list(*[c.num(f'{k}{i}') for i in range(N)]) for k in ('diam', 'fraction', 'lon', 'lat')}
            s = c.obj('Spatialcount', polygon=g, planetary_radius=c.num('p_R'), **col)
            o = c.run((s, 'writeSHPfiles'), 'out/x.shp')
            w = 'Spatialcount.writeSHPfiles'
            notended(o, w)
            files, order = {}, []
            for e in o.effects:
                if e.loops or e.pc is not TRUE:
                    raise Undecided(w + ': writing on an undecided condition')
                n = e.name.rsplit('.', 1)[-1]
                if isinstance(e.recv, T) and e.recv.op == 'call' and e.recv.a[0] == 'shapefile.Writer' and n in ('field', 'record', 'poly', 'close', 'shape', 'point', 'null'):
                    files.setdefault(tm.show(e.recv.a[1][0]).strip("'"), []).append((n, e))
            if sorted(files) != ['out/x_AREA.shp', 'out/x_CRATER.shp']:
                raise (Violation if files else Undecided)(w, *([f'shapefiles written: {sorted(files)}'] if files else []))
            prs = []
            for fn, es in files.items():
                fields = [v for n, e in es if n == 'field' for v in [I.freeze(o.st, e.args[0] if e.args else dict(e.kw)['name']).a[0]]]
                want = ['Diam_km', 'x_coord', 'y_coord', 'tag'] if 'CRATER' in fn else ['area', 'area_name']
                if fields != want:
                    raise Violation(w, f'{fn}: attributes {fields} instead of {want}')
                rec = [e for n, e in es if n == 'record']
                out = [e for n, e in es if n == 'poly']
                k = N if 'CRATER' in fn else len(polys)
                if len(rec) != k or len(out) != k:
                    raise Violation(w, f'{fn}: {len(rec)} records and {len(out)} outlines instead of {k}')
                for i in range(k):
                    kw = dict(rec[i].kw)
                    val = {f_: (rec[i].args[q] if q < len(rec[i].args) else kw.get(f_, NONE)) for q, f_ in enumerate(fields)}
                    v = rows2(I.freeze(o.st, out[i].args[0]))
                    if 'CRATER' in fn:
                        prs += [(f'crater {i} {a}', val[a], c.num(f'{b}{i}')) for a, b in (('Diam_km', 'diam'), ('x_coord', 'lon'), ('y_coord', 'lat'))] + [(f'crater {i} tag', val['tag'], string('standard'))]
                        prs.append((f'crater {i} outline', v, lit(lit(*[tup(c.num(f'u{i}{q}'), c.num(f'v{i}{q}')) for q in range(2, -1, -1)]))))
                    else:
                        prs += [(f'area {i} name', val['area_name'], string(f'Area_{i + 1}')), (f'area {i} outline', v, lit(cw(ring(f'{i}e')), *[ccw(ring(f'{i}h{j}')) for j in range(polys[i])]))]
            names = [bindargs(('filename', 's', 'BOM', 'append'), e.args, dict(e.kw), 'write_textfile') for e in o.effects if e.name.endswith('write_textfile')]
            for fn in files:
                p = [x['s'] for x in names if x['filename'] is string(fn[:-4] + '.prj')]
                if len(p) != 1:
                    raise Violation(w, f'projection of {fn} is not written')
                prs.append((f'projection of {fn}', p[0], string('WKT')))
            return dict(methods=[equal(w + ': ' + nm, prs)], functions=['Spatialcount.writeSHPfiles', 'Spatialcount.polygon_to_pts'])
        obs.append(Ob(nm, f))
    for polys in ((0,), (1,), (2,), (0, 0), (1, 0, 2)):
        shp(polys)

    def ra(nm, meas):
        """meas: {measure: {bin: scored?}}"""
        def f():
            c = Ctx(opaque=[WTF])
            c.fn(WTF), c.fn(RA)
            nt = 3
            allbins = sorted({b for m in meas.values() for b, sc in m.items() if sc}, key=float)
            mc = c.dict(**{m: c.dict(n_trials=nt, trials=c.dict(**{b: c.list(*[c.num(f'{m}{b}t{t}') for t in range(nt)]) for b in bs}),
                                     stats=c.dict(**{b: c.obj('spec.writer.Score', **{k: c.num(f'{m}{b}{k}') for k in ('m0', 'p2', 'mn', 'sd', 'n_sigma', 'percentile')}) for b, sc in bs.items() if sc}))
                            for m, bs in meas.items()})
            s = c.obj('Randomnessanalysis', filename='in/q.scc', ra_file='out/z_ra.txt', montecarlo=mc, name='q')
            o = c.run((s, 'write'))
            w = 'Randomnessanalysis.write'
            notended(o, w)
            name, text = written(o, w)
            cells = c.dict(**{m: c.dict(**{b: (c.num(f'{m}{b}n_sigma'),) for b, sc in bs.items() if sc}) for m, bs in meas.items()})
            ref = c.run('spec.writer.ra', c.run('spec.writer.version').val, 'in/q.scc', tuple(meas), tuple(allbins), cells).val
            for m, bs in meas.items():
                ref = c.run('spec.writer.join', ref, c.run('spec.writer.ra_measure', m, nt, tuple(bs), tuple(tuple(c.num(f'{m}{b}t{t}') for t in range(nt)) for b in bs)).val, ()).val
            return dict(methods=[equal(w + ': ' + nm, [('file name', name, string('out/z_ra.txt')), ('text', text, ref)])], functions=['Randomnessanalysis.write'])
        obs.append(Ob('randomness write ' + nm, f))
    ra('one measure', {'m2cnd': {'-1.5': 1, '-1': 1, '0': 1}})
    ra('two measures', {'m2cnd': {'-1.5': 1, '-1': 1, '0.5': 1}, 'sdaa': {'-1.5': 1, '-1': 1, '0.5': 1}})
    ra('different bins', {'m2cnd': {'-1.5': 1, '-1': 1, '0.5': 1}, 'sdaa': {'-1': 1, '0.5': 1}})
    ra('bins out of order', {'sdaa': {'-1': 1, '10.5': 1}, 'm2cnd': {'9.5': 1, '-1': 1, '-2': 1, '10.5': 1}})

    def read(nm, meas):
        def f():
            c = Ctx()
            for q in (RTS, EXISTS, RA):
                c.fn(q)
            D = c.dict(n_sigma=c.dict(), version='3', **{m: c.dict(n_trials='250', trials=c.dict(index=c.arr('i'), **{b: c.arr(f'{m}{b}') for b in bs})) for m, bs in meas.items()})
            asked = []

            def exists(I, st, args, kw, node):
                p = I.freeze(st, args[0]).a[0]
                asked.append(p)
                return TRUE if p == 'out/z_ra.txt' and where in ('out', 'both') or p == 'in/q_ra.txt' and where in ('in', 'both') else FALSE
            c.I.models[EXISTS] = exists

            def rts(I, st, args, kw, node):
                if I.freeze(st, args[0]) is not string('out/z_ra.txt' if where in ('out', 'both') else 'in/q_ra.txt'):
                    raise Violation('Randomnessanalysis.read', 'another file than the one found is read')
                return D
            c.I.models[RTS] = rts
            prs = []
            for where in ('out', 'in', 'both', ''):
                s = c.obj('Randomnessanalysis', filename='in/q.scc', ra_file='out/z_ra.txt', montecarlo=c.dict(), name='q')
                o = c.run((s, 'read'))
                notended(o, 'Randomnessanalysis.read')
                M = c.I.get_attr(o.st, s, 'montecarlo', None)
                keys = lambda v: c.run('spec.writer.names', v, _st=o.st).val
                ms = {m: bs for m, bs in meas.items() if m in ('m2cnd', 'sdaa')} if where else {}
                prs.append((f'measures read {where}', keys(M), lit(*[string(m) for m in sorted(ms)])))
                for m, bs in ms.items():
                    v = c.I.index(o.st, M, string(m), None)
                    t = c.I.index(o.st, v, string('trials'), None)
                    prs += [(f'{m} number of trials', c.item(o, v, 'n_trials'), num(250)), (f'{m} bins', keys(t), lit(*[string(b) for b in sorted(bs)]))]
                    prs += [(f'{m} bin {b}', c.item(o, t, b), c.arr(f'{m}{b}')) for b in bs]
            return dict(methods=[equal('Randomnessanalysis.read: ' + nm, prs)], functions=['Randomnessanalysis.read'])
        obs.append(Ob('randomness read ' + nm, f))
    read('one measure', {'m2cnd': ['-1.5', '-1', '0.5']})
    read('one measure, one bin', {'sdaa': ['-1.5']})
    read('two measures', {'m2cnd': ['-1.5', '-1', '10.5'], 'sdaa': ['-1', '10.5']})
    read('unknown measure', {'m2cnd': ['-1.5', '-1'], 'other': ['-1', '10.5']})
    return obs


def rows2(v):
    """rings of an outline: lists or tuples of pairs alike"""
    if v.op not in ('lit', 'tuple'):
        return v
    return lit(*[lit(*[tup(*x.a) if x.op in ('lit', 'tuple') else x for x in r.a]) if r.op in ('lit', 'tuple') else r for r in v.a])
