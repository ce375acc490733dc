from checks.spatial import *

RULE = ('the value-flow terms of the crater lists, areas, perimeters, radii and boundary polygons each reader stores, for files with symbolic crater columns of any length, symbolic boundary vertices in several arrangements of parts '
        'and every combination of optional columns and headings, are compared with the reference reading of that format')
FNS = ['Cratercount.__init__', 'Cratercount.ReadDiamFile', 'Cratercount.ReadSCCfile', 'Cratercount.ReadStatFile', 'Cratercount.ReadSHPfile', 'Cratercount.MakeBinGeometricMean', 'Spatialcount.readSCCfile']


def rctx(path, d, lines=None, **kw):
    c = Ctx(**kw)
    for q in (RTS, RTF, EXISTS):
        c.fn(q)
    D = c.c(d(c)) if d else None

    def rts(I, st, args, kw, node):
        a = bindargs(('p', 'from_string'), args, kw, 'read_textstructure')
        src = I.freeze(st, a['p'])
        fs = tm.truth(a.get('from_string', FALSE))
        if D is None or src is not (string('TEXT') if fs is TRUE else string(path)):
            raise Undecided(f'reading of {path}: source not recognised: {tm.show(src)}')
        return D

    def rtf(I, st, args, kw, node):
        a = bindargs(('filename', 'n_lines', 'ignore_blank', 'ignore_hash', 'strip', 'as_string'), args, kw, 'read_textfile')
        if I.freeze(st, a['filename']) is not string(path) or 'n_lines' in a:
            raise Undecided(f'reading of {path}: source not recognised')
        if tm.truth(a.get('as_string', FALSE)) is TRUE:
            if lines is not None:
                raise Undecided(f'reading of {path}: text taken as a whole')
            return string('TEXT')
        if lines is None:
            raise Undecided(f'reading of {path}: text taken by lines')
        l = list(lines(c))
        if tm.truth(a.get('ignore_hash', FALSE)) is not TRUE:
            l.insert(0, string('# Comment'))
        if tm.truth(a.get('ignore_blank', FALSE)) is not TRUE:
            l.append(string(''))
        return I.newlist(st, lit(*l))
    c.I.models[RTS] = rts
    c.I.models[RTF] = rtf
    c.I.models[EXISTS] = lambda I, st, args, kw, node: FALSE
    return c


def text(x, unit=''):
    return tm.scat(tm.fmt(x, string('')), string(unit))


def obligations(tier):
    obs = []
    A, B, C, D = (lambda c: c.arr('p_D')), (lambda c: c.arr('z_F')), (lambda c: c.arr('x')), (lambda c: c.arr('y'))
    lens = dict(p_D=5, z_F=5, x=5, y=5)

    def pairs(c, o, obj, f):
        p = c.run('spec.reader.pairs', c.attr(o, obj, 'diam'), c.attr(o, obj, 'fraction'), _st=o.st)
        return [('craters with their fractions', p.val, c.run('spec.reader.pairs', A(c), f).val)]

    def load(c, path, second=None, reader=None):
        o = c.run('spec.reader.count', path, second)
        w = 'Cratercount(' + path + ')'
        for a in o.aborts:
            if a.pc is TRUE:
                raise Violation(w, f'reading ends with {a.exc}')
        if o.pc is FALSE:
            raise Violation(w, 'reading never returns')
        return o, o.raw

    def check(nm, path, d, want, lines=None, more=lambda c, o, x: [], fns=FNS, ctxkw={}):
        def f():
            c = rctx(path, d, lines, **ctxkw)
            o, x = load(c, path)
            prs = []
            for k, v in want(c).items():
                if k == 'pairs':
                    prs += pairs(c, o, x, v)
                elif k == 'columns':
                    b = c.I.get_attr(o.st, x, 'binned', None)
                    y = c.run('spec.reader.stat', *v)
                    prs += [(q, c.item(o, b, q), c.item(y, y.raw, q)) for q in ('d_min', 'd_max', 'd_mean', 'bin_width', 'n', 'n_event', 'ncum', 'ncum_event')]
                    prs.append(('area', c.attr(o, x, 'area'), c.item(y, y.raw, 'area')))
                elif k in ('buffered', 'prebinned'):
                    prs.append((k, tm.truth(c.attr(o, x, k)), TRUE if v else FALSE))
                else:
                    prs.append((k, c.attr(o, x, k), v))
            return dict(methods=[equal(f'Cratercount({path})', prs, lens=lens)], functions=fns)
        obs.append(Ob(nm, f))

    for fr in (0, 1):
        for per in (0, 1):
            def d(c, fr=fr, per=per):
                cr = dict(diameter=A(c), **(dict(fraction=B(c)) if fr else {}))
                if per:
                    cr = dict(list(cr.items())[::-1], name=c.strs('nm'))
                return dict(crater=c.dict(**cr), area=text(c.num('p_A')), **(dict(perimeter=text(c.num('p_P'))) if per else {}))
            check(f'.diam fraction={fr} perimeter={per}', 'in/a.diam', d, lambda c, fr=fr, per=per: dict(
                pairs=B(c) if fr else c.run('spec.reader.ones', A(c)).val, area=c.num('p_A'), perimeter=c.num('p_P') if per else NONE, buffered=0, prebinned=0, name=string('a')))
    check('.diam buffered', 'a.diam', lambda c: dict(crater=c.dict(diameter=A(c), reference_area=B(c))), lambda c: dict(
        pairs=c.run('spec.reader.reciprocals', B(c)).val, area=num(1), perimeter=NONE, buffered=1, prebinned=0))
    check('.diam buffered with area and fraction', 'a.diam', lambda c: dict(crater=c.dict(diameter=A(c), reference_area=B(c), fraction=C(c)), area=text(c.num('p_A'))), lambda c: dict(
        pairs=c.run('spec.reader.reciprocals', B(c)).val, area=num(1), buffered=1))

    # old-style spatial counts
    for fr in (0, 1):
        for ta, tp, pp in (('p', 0, 0), ('p', 'p', 0), ('p', 0, 'p')):
            def d(c, fr=fr, tp=tp, pp=pp):
                cr = dict(diam=A(c), **(dict(fraction=B(c)) if fr else {}), lon=C(c), lat=D(c))
                return dict(crater=c.dict(**cr), Total_area=string('123.5 <km^2>'), **(dict(Total_perimeter=string('77.25 <km>')) if tp else {}), **(dict(Perimeter=text(c.num('p_P'), ' <km>')) if pp else {}))
            check(f'.scc fraction={fr} perimeter={tp}{pp}', 'in/b.scc', d, lambda c, fr=fr, tp=tp, pp=pp: dict(
                pairs=B(c) if fr else c.run('spec.reader.ones', A(c)).val, area=num(123.5), perimeter=num(77.25) if tp else c.num('p_P') if pp else NONE, buffered=0, prebinned=0, name=string('b')))
    for t in ('1.44123e+06 <km2>', '5e-05 <km2>', '1234.5<km^2>', ' 17 <km^2>', '0.0215 <km^2>', '2.5E+07', '1e6 <km^2>', '937695 <km2>'):
        from fractions import Fraction
        v = num(Fraction(t.split('<')[0].strip()))
        check(f'.scc area and perimeter written as {t}', 'b.scc', lambda c, t=t: dict(crater=c.dict(diam=A(c)), Total_area=string(t), Total_perimeter=string(t)), lambda c, v=v: dict(area=v, perimeter=v))

    # statistics files
    for nc in (7, 11):
        for rows_ in (2, 3, 5, 130):
            def lines(c, nc=nc, n=rows_):
                for i in range(n):
                    yield tm.scat(*[p for j in range(nc) for p in (string(' ' if j != 3 else '   '), tm.fmt(c.num(f'p_{i}_{j}'), string('')))])
            check(f'.stat {nc} columns {rows_} bins', 'in/c.stat', None, lambda c, nc=nc, n=rows_: dict(
                columns=[lit(*[c.num(f'p_{i}_{j}') for i in range(n)]) if j is not None else NONE for j in (0, 1, 4, 5, 10 if nc == 11 else None)], prebinned=1, perimeter=NONE, binning=string('pseudo-log'),
                name=string('c')), lines=lines)

    def shp():
        c = Ctx(opaque=[S])
        c.fn(EXISTS)
        c.I.models[EXISTS] = lambda I, st, args, kw, node: FALSE
        o, x = load(c, 'in/m_CRATER.shp', 'in/n.shp')
        s = mk('new', S, ())
        n = [e for e in o.effects if e.name == 'new ' + S]
        if len(n) != 1:
            raise Undecided('Cratercount(.shp): spatial count not recognised')
        a = bindargs(('filename', 'area_file'), n[0].args, dict(n[0].kw), 'Spatialcount')
        prs = [('crater file', a['filename'], string('in/m_CRATER.shp')), ('area file', a.get('area_file', NONE), string('in/n.shp'))]
        prs += [(k, c.attr(o, x, k), ref) for k in ('diam', 'fraction', 'area', 'perimeter', 'name') for ref in [sattr(c, o, x, k)]]
        prs.append(('prebinned', tm.truth(c.attr(o, x, 'prebinned')), FALSE))
        return dict(methods=[equal('Cratercount(.shp)', prs)], functions=FNS)

    def sattr(c, o, x, k):
        v = c.attr(o, x, 'polygon_of_' + k) if False else None
        t = c.attr(o, x, k)
        for q in tm.subterms(t):
            if q.op == 'call' and q.a[0] == S:
                return tm.mk('attr', q, k) if False else c.I.freeze(o.st, c.I.get_attr(o.st, q, k, None))
        raise Violation('Cratercount(.shp)', f'{k} is {tm.show(t)[:80]} instead of that of the spatial count')
    obs.append(Ob('.shp', shp))

    # spatial counts with boundaries
    def q(n, k, closed=True):
        """vertices of the part named n, in no particular order along either axis"""
        from fractions import Fraction
        j = sum(ord(x) * 7 ** i for i, x in enumerate(n))
        return [(Fraction(j * 10 + (3, 1, 4, 2)[i]), Fraction(j * 10 + (6, 9, 8, 7)[i], 100)) for i in list(range(k)) + ([0] if closed else [])]

    key = lambda n: tm.show(num(q(n, 1)[0][0]))

    def scc(nm, parts, tree, radius='a_axis_radius', fr=1, dup=False, order=None):
        """parts: {number: (tag, name)}; tree: {exterior name: [hole names]}"""
        inside = set()
        kind = {n: t for t, n in parts.values()}
        up = {}
        for e, hs in tree.items():
            for h in hs:
                up[h] = e.split('/')[0]
        for e in tree:
            if '/' in e:
                up[e.split('/')[0]] = e.split('/')[1]
        names = [n for _, n in parts.values()]
        for n in names:
            m = n
            while m in up:
                m = up[m]
                inside.add((key(n), key(m)))
        depth = {n: sum((key(n), key(m)) in inside for m in names) for n in names}

        def f():
            path = 'in/s.scc'

            def d(c):
                b = []
                for i in order or sorted(parts):
                    t, n = parts[i]
                    v = q(n, 4)
                    if dup:
                        v = v[:2] + v[1:3] + v[2:]
                    b += [(str(i), t, x, y) for x, y in v]
                return dict(crater=c.dict(diam=A(c), **(dict(fraction=B(c)) if fr else {}), lon=C(c), lat=D(c)), **{radius: text(c.num('p_R'), ' <km>')},
                            unit_boundary=c.dict(vertex=c.list(*range(len(b))), sub_area=c.list(*[x[0] for x in b]), tag=c.list(*[x[1] for x in b]), lon=c.list(*[num(x[2]) for x in b]), lat=c.list(*[num(x[3]) for x in b])))
            c = rctx(path, d, opaque=[FIND])
            c.fn(S), c.fn(FIND)
            W = World(c, sizes={key(n): 100 - 10 * depth[n] - names.index(n) for n in names}, inside=inside)
            o = c.run('spec.reader.spatial', path)
            w = 'Spatialcount.readSCCfile'
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(w, f'reading ends with {a.exc}')
            x = o.raw
            pts = lambda n: lit(*[tup(num(u), num(v)) for u, v in q(n, 4)])
            p = [W.polygon(c.I, o.st, [], dict(shell=pts(e.split('/')[0]), holes=lit(*[pts(h) for h in hs])), None) for e, hs in tree.items()]
            P = W.multi(c.I, o.st, [lit(*p)], {}, None)
            R = c.num('p_R')
            g = c.run('spec.reader.quads', *[c.attr(o, x, k) for k in ('diam', 'fraction', 'lon', 'lat')], _st=o.st)
            r = c.run('spec.reader.quads', A(c), B(c) if fr else c.run('spec.reader.ones', A(c)).val, C(c), D(c))
            prs = [('craters', g.val, r.val), ('planetary radius', c.attr(o, x, 'planetary_radius'), R), ('boundary', c.attr(o, x, 'polygon'), P),
                   ('area', c.attr(o, x, 'area'), mk('call', 'area', (P, R), ())), ('perimeter', c.attr(o, x, 'perimeter'), mk('call', 'perimeter', (P, R), ())), ('name', c.attr(o, x, 'name'), string('s'))]
            return dict(methods=[equal(w + ': ' + nm, prs, lens=lens)], functions=['Spatialcount.readSCCfile'])
        obs.append(Ob('spatial count ' + nm, f))
    E, I = 'ext', 'int'
    scc('one part', {1: (E, 'a')}, {'a': []})
    scc('one part, no fractions', {1: (E, 'a')}, {'a': []}, fr=0)
    scc('radius by another name', {1: (E, 'a')}, {'a': []}, radius='oct_a_axis_radius')
    scc('repeated vertices', {1: (E, 'a')}, {'a': []}, dup=True)
    scc('hole', {1: (E, 'a'), 2: (I, 'h')}, {'a': ['h']})
    scc('two holes', {1: (E, 'a'), 2: (I, 'h'), 3: (I, 'g')}, {'a': ['h', 'g']})
    scc('two parts', {1: (E, 'a'), 2: (E, 'b')}, {'a': [], 'b': []})
    scc('two parts, each with a hole', {1: (E, 'a'), 2: (I, 'h'), 3: (E, 'b'), 4: (I, 'g')}, {'a': ['h'], 'b': ['g']}, dup=True)
    scc('two parts, holes after', {1: (E, 'a'), 2: (E, 'b'), 3: (I, 'g'), 4: (I, 'h')}, {'a': ['h'], 'b': ['g']})
    scc('island in a hole', {1: (E, 'a'), 2: (I, 'h'), 3: (E, 'b')}, {'a': ['h'], 'b/h': []})
    scc('island with a hole in a hole', {1: (E, 'a'), 2: (I, 'h'), 3: (E, 'b'), 4: (I, 'g')}, {'a': ['h'], 'b/h': ['g']})
    scc('numbered from 4', {4: (E, 'a'), 5: (I, 'h'), 7: (E, 'b')}, {'a': ['h'], 'b': []})
    scc('twelve parts', {i: (E, f'n{i}') for i in range(1, 13)}, {f'n{i}': [] for i in range(1, 13)})
    scc('parts mixed', {1: (E, 'a'), 2: (E, 'b')}, {'a': [], 'b': []}, order=[2, 1])
    return obs
