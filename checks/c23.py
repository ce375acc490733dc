from checks.sphere import *

RULE = ('the scores of every bin and measure, for scenarios of bins that share craters and trials unevenly, are compared as value-flow terms with their definition; the craters each score is calculated from, the runs of trials started '
        'for stored results of every size, and the results read back are enumerated by constant propagation; the plotted scores are compared with their signed reference')
FNS = ['Randomnessanalysis.calculate_stats', 'Randomnessanalysis.get_bin_craters', 'Randomnessanalysis.run_montecarlo', 'Randomnessanalysis.montecarlo_split', 'Randomnessanalysis.self_pp', 'Randomnessanalysis.read', 'Randomnessanalysis.plot_n_sigma', 'Craterplot.oplot_n_sigma']
RA = M + 'Randomnessanalysis'
EVAL, PP, SERIAL = M + 'evaluate_randomness', M + 'montecarlo_pp', M + 'montecarlo_serial'
MEASURES = ('m2cnd', 'sdaa')
tm.RETURNS['score'] = ('s', 'num')


def key(k):
    """name of the bin whose lower edge is 2^(k/2)"""
    return f'{k / 2:.3g}'


def edge(k):
    return tm.power(num(2), num(Fr(k, 2)))


class Analysis:
    """craters: bin (root-2 step) of each crater"""

    def __init__(self, c, craters, first, nbins, montecarlo=None, **kw):
        self.c, self.craters, self.first, self.nbins = c, craters, first, nbins
        self.sphere = s = Sphere(c, [Fr(i, 3) for i in range(len(craters))], Fr(1, 2))
        s.where = lambda: self.where
        self.where = 'Randomnessanalysis.get_bin_craters'
        N = c.I.newlist
        self.diam = [c.num(f'p_d{i}') for i in range(len(craters))]
        self.frac = [c.num(f'p_f{i}') for i in range(len(craters))]
        self.counts = [sum(1 for b in craters if b == first + i) for i in range(nbins)]
        L = lambda v: c.I.newlist(c.st, lit(*v))
        lon, lat, diam, frac = L(s.lon), L(s.lat), L(self.diam), L(self.frac)
        d = c.dict(**dict(d_min=lit(*[edge(first + i) for i in range(nbins)]), d_max=lit(*[edge(first + i + 1) for i in range(nbins)]), n_event=lit(*[num(x) for x in self.counts]), ncum_event=lit(*[num(sum(self.counts[i:])) for i in range(nbins)]), ncum=lit(*[self.total(*range(first + i, first + nbins)) for i in range(nbins)]),
                          d_mean=lit(*[tm.power(num(2), num(Fr(2 * (first + i) + 1, 4))) for i in range(nbins)]), bin_width=lit(*[sub(edge(first + i + 1), edge(first + i)) for i in range(nbins)]),
                                       n=lit(*[self.total(first + i) for i in range(nbins)])))
        self.cc = c.obj(CC, diam=diam, fraction=frac, lon=lon, lat=lat, prebinned=num(0), binning=string('root-2'), binned=d, reverse_indices=lit(*[num(b - first + 1) for b in craters]))
        self.ppf = dict(hp=s.hp, planetary_radius=num(Fr(1737)), area=c.num('p_A'), enclosing_area=c.num('p_E'), polygon=s.polygon, xr=tup(c.num('x0'), c.num('x1')), yr=tup(c.num('y0'), c.num('y1')), max_threads=num(4))
        self.obj = c.obj(RA, filename=string('d/a.scc'), name=string('a'), lon=lon, lat=lat, diam=diam, fraction=frac, cc=self.cc, perimeter=c.num('p_P'), progress_queue=NONE,
                         montecarlo=montecarlo if montecarlo is not None else c.dict(), **{**self.ppf, 'ra_file': string('a_ra.txt'), 'plot_reduction_factor': NONE, **kw})

    def total(self, *bins):
        r = num(0)
        for j, x in enumerate(self.craters):
            if x in bins:
                r = add(r, self.frac[j])
        return r


def stored(c, runs):
    """runs: {measure: (n_trials, {bin: values})}"""
    D = lambda d: c.dict(**d)
    return D({m: D(dict(n_trials=num(n), trials=D({key(k): v for k, v in t.items()}))) for m, (n, t) in runs.items()})


def name(I, st, v):
    v = I.freeze(st, v)
    if v.op != 'str':
        raise Undecided('file name not recognised: ' + tm.show(v)[:100])
    return v.a[0]


def mkdict(d):
    return mk('dict', *[(string(k), v) for k, v in d.items()])


def look1(d, k):
    return next(v for x, v in d.a if x.a[0] == k)


def plots(c, **kw):
    marker = lambda: c.dict(marker=string('o'), markersize=c.num('p_ms'))
    return c.obj('craterstats.Craterplotset.Craterplotset', **{**dict(ax=c.any('ax'), fig=c.any('fig'), ax_ra=c.any('ax_ra'), grey=c.any('grey'), palette=c.any('palette'), pt_size=c.num('p_pt'), scaled_pt_size=c.num('p_spt'),
                 sz_ratio=c.num('p_sz'), xrange=c.list(num(-3), num(2)), yrange=c.list(num(-6), num(1)), invert=num(0), marker_def=c.list(*[marker() for _ in range(16)]), measure=c.list(*[string(m) for m in MEASURES])), **kw})


def look(o, obj, *path):
    v = o.I.get_attr(o.st, obj, path[0], None)
    for k in path[1:]:
        v = o.I.index(o.st, v, string(k), None)
    return v


def obligations(tier):
    obs = []

    def scores(j, craters, first, nbins, have, tie=None):
        """have: {measure: bins with stored trials}"""
        def f():
            c = Ctx()
            c.fn(EVAL)
            T = {(m, k): c.arr(f't_{m}_{k + 40}') if tie is None else lit(*[num(Fr(x, 2)) for x in (7, 3, 4, 6, 4, 1, 9, 4)]) for m, ks in have.items() for k in ks}
            a = Analysis(c, craters, first, nbins, montecarlo=stored(c, {m: (100 + i, {k: T[m, k] for k in ks}) for i, (m, ks) in enumerate(have.items())}))
            s = a.sphere
            where = 'Randomnessanalysis.calculate_stats'
            log = {}

            def evaluate(I, st, args, kw, node):
                d = bindargs(('self_pp', 'pts', 'ids', 'hpd'), args, kw, 'evaluate_randomness')
                p = d['self_pp']
                g = lambda n: I.freeze(st, I.get_attr(st, p, n, node))
                m = g('measure')
                if m.op != 'str':
                    raise Undecided('measure not recognised')
                for n, v in a.ppf.items():
                    x = g(n)
                    if n != 'hp' and x is not I.freeze(st, v):
                        raise Violation('Randomnessanalysis.self_pp', f'the analysis receives {n} = {tm.show(x)[:100]}')
                pts, ids = (I.freeze(st, I.seqof(st, d[n])) for n in ('pts', 'ids'))
                if pts.op not in ('lit', 'tuple') or ids.op not in ('lit', 'tuple') or any(x.id not in s.index for x in pts.a) or any(x.op != 'num' for x in ids.a):
                    raise Undecided('craters of a bin not recognised: ' + tm.show(pts)[:200])
                who = [s.index[x.id] for x in pts.a]
                if [int(x.a[0]) for x in ids.a] != [s.cellof(i) for i in who]:
                    raise Violation('Randomnessanalysis.get_bin_craters', 'craters are filed under cells that are not their own')
                h = I.freeze(st, d['hpd'])
                if h.op != 'dict':
                    raise Undecided('cell index not recognised')
                index = []
                for k, v in h.a:
                    if v.op not in ('lit', 'tuple'):
                        raise Undecided('cell index not recognised')
                    index += [(int(k.a[0]), s.index.get(x.id)) for x in v.a]
                if sorted(index) != sorted((s.cellof(i), i) for i in who):
                    raise Violation('Randomnessanalysis.get_bin_craters', 'the cell index does not hold exactly the craters of the bin')
                v = mk('call', 'score', (m, num(len(log))), ()) if tie is None else num(tie[len(log)])
                log[v.id] = (m.a[0], tuple(sorted(who)), g('trials'))
                return tup(v, string(f'neighbours {len(log)}'))
            c.I.models[EVAL] = evaluate
            o = c.run(RA + '.calculate_stats', a.obj)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            prs = []
            for i, (m, ks) in enumerate(have.items()):
                st_ = look(o, a.obj, 'montecarlo', m, 'stats')
                d = o.I.freeze(o.st, st_)
                if d.op != 'dict':
                    raise Undecided(where + ': statistics not recognised')
                names = [x.a[0] for x, _ in d.a]
                want = [key(k) for k in ks]
                if sorted(names) != sorted(want):
                    raise Violation(where, f'{m}: statistics are given for the bins {names}, trials for {want}')
                for k in ks:
                    e = o.I.index(o.st, st_, string(key(k)), None)
                    z = lambda n: o.I.freeze(o.st, o.I.get_attr(o.st, e, n, None))
                    real = z('m0')
                    if real.id not in log:
                        raise Undecided(where + ': real value not recognised: ' + tm.show(real)[:200])
                    m_, who, trials = log[real.id]
                    if trials is not num(100 + i):
                        raise Violation('Randomnessanalysis.self_pp', f'{m}: {tm.show(trials)} trials')
                    if m_ != m:
                        raise Violation(where, f'{m}, bin {key(k)}: the real value is that of {m_}')
                    wantwho = tuple(x for x, b in enumerate(craters) if b == k)
                    if who != wantwho:
                        raise Violation('Randomnessanalysis.get_bin_craters', f'bin {key(k)} (craters {list(wantwho)}): the real value is calculated from the craters {list(who)}')
                    r = c.run('spec.sphere.score', real, T[m, k])
                    l = f'{m}, bin {key(k)}: '
                    prs += [(l + n, z(x), r.val.a[y]) for n, x, y in (('score', 'n_sigma', 0), ('percentile', 'percentile', 1), ('mean of trials', 'mn', 2), ('deviation of trials', 'sd', 3))]
            return dict(methods=[equal(where, prs, samples=30)], functions=[where, 'Randomnessanalysis.get_bin_craters', 'Randomnessanalysis.self_pp'])
        obs.append(Ob(f'scores {j}: {len(craters)} craters in {nbins} bins, ' + ', '.join(f'{m} {len(k)}' for m, k in have.items()) + (', real value among the trials' if tie else ''), f))
    for j, x in enumerate([([0, 0, 0, 0, 1, 1, 1, 1], 0, 2, dict(m2cnd=[0, 1], sdaa=[0, 1])),
                           ([-3, -1, -3, -1, -3, -1, -1, 0], -3, 4, dict(sdaa=[-1], m2cnd=[-3, -1])),
                           ([5, 6, 7, 5, 6, 7, 5, 6, 7, 7], 5, 3, dict(m2cnd=[5, 6, 7], sdaa=[7])),
                           ([20, 20, 21, 21, 20, 19, 21, 20], 18, 5, dict(m2cnd=[21, 20])),
                           ([0] * 4 + [1] * 4, 0, 2, dict(m2cnd=[0, 1], sdaa=[0]), (2, Fr(7, 2), 5)), ([-22] * 3 + [-21] * 4, -22, 2, dict(m2cnd=[-22, -21]))]):
        scores(j, *x)

    def lists(j, craters, first, nbins):
        def f():
            c = Ctx()
            a = Analysis(c, craters, first, nbins)
            s = a.sphere
            where = 'Randomnessanalysis.get_bin_craters'
            prs = []
            for k in range(first, first + nbins):
                o = c.run(RA + '.get_bin_craters', a.obj, string(key(k)), TRUE)
                for ab in o.aborts:
                    if ab.pc is TRUE:
                        raise Violation(where, f'ends with {ab.exc}')
                who = [i for i, b in enumerate(craters) if b == k]
                for n, col in (('lon', s.lon), ('lat', s.lat), ('diam', a.diam), ('fraction', a.frac)):
                    prs.append((f'bin {key(k)}: {n}', c.attr(o, o.raw, n), lit(*[col[i] for i in who])))
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'craters drawn {j}: {len(craters)} craters in {nbins} bins', f))
    for j, x in enumerate([([0, 1, 0, 1, 1, 0], 0, 2), ([-7, -5, -6, -7, -5, -4, -5], -7, 4)]):
        lists(j, *x)

    def bins():
        c = Ctx()
        d = c.arr('p_d')
        cc = c.obj(CC, diam=d, fraction=c.arr('p_f'), prebinned=num(0), binning=NONE)
        o = c.run(CC + '.apply_binning', cc, string('root-2'), offset=num(0))
        b = o.I.get_attr(o.st, cc, 'binned', None)
        r = c.run('spec.sphere.bin_numbers', d, c.item(o, b, 'd_min'), _st=o.st)
        return dict(methods=[equal('Cratercount.apply_binning', [('bin of each crater', c.attr(o, cc, 'reverse_indices'), r.val)])], functions=['Cratercount.apply_binning'])
    obs.append(Ob('bin of each crater', bins))

    def runs(j, craters, first, nbins, have, trials, measure, entry):
        """have: {measure: number of stored trials}"""
        def f():
            c = Ctx()
            I = c.I
            log = []
            where = 'Randomnessanalysis.run_montecarlo'

            def run(I, st, args, kw, node):
                d = bindargs(('self_pp', 'b', 'n', 'progress_queue'), args, kw, 'montecarlo_pp')
                g = lambda n: I.freeze(st, I.get_attr(st, d['self_pp'], n, node))
                v = tm.sym(f'run{len(log)}', 'a', 'num')
                log.append((v, g('measure'), g('trials'), I.freeze(st, d['b']), I.freeze(st, d['n'])))
                return v
            for q in (PP, SERIAL):
                c.fn(q)
                I.models[q] = run
            S0 = {(m, k): c.arr(f't_{m}_{k + 40}') for m in have for k in (first, first + 1)}
            a = Analysis(c, craters, first, nbins, montecarlo=stored(c, {m: (n, {k: S0[m, k] for k in (first, first + 1)}) for m, n in have.items()}))
            hp = I.new(c.st, 'obj', dict(zz=num(1)), 'spec.writer.Geom')
            I.models['astropy_healpix.HEALPix'] = lambda I, st, args, kw, node: hp
            I.models['astropy_healpix.high_level.HEALPix'] = I.models['astropy_healpix.HEALPix']
            o = c.run(RA + '.' + entry, a.obj, num(trials), string(measure))
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            again = have.get(measure, 0) < trials
            low = dict(m2cnd=3, sdaa=4)[measure]
            if not again and log:
                raise Violation(where, f'{have[measure]} stored trials, {trials} wanted: trials are run again')
            want = {key(first + i): (edge(first + i), n) for i, n in enumerate(a.counts) if n >= low} if again else {}
            names = lambda m: [x.a[0] for x, _ in o.I.freeze(o.st, look(o, a.obj, 'montecarlo', m, 'trials')).a]
            mc = o.I.freeze(o.st, look(o, a.obj, 'montecarlo'))
            if mc.op != 'dict' or any(x.op != 'str' for x, _ in mc.a):
                raise Undecided(where + ': stored results not recognised')
            if sorted(x.a[0] for x, _ in mc.a) != sorted({*have, measure}):
                raise Violation(where, f'results are stored for {[x.a[0] for x, _ in mc.a]} after running {measure} with {list(have)} stored')
            prs = []
            for m in sorted({*have, measure}):
                new = again and m == measure
                got, exp = names(m), (list(want) if new else [key(first), key(first + 1)])
                if sorted(got) != sorted(exp):
                    raise Violation('Randomnessanalysis.montecarlo_split' if new else where, f'{m}, {a.counts} craters in the bins: trials are stored for the bins {got} instead of {exp}')
                prs.append((f'{m}: number of trials', o.I.freeze(o.st, look(o, a.obj, 'montecarlo', m, 'n_trials')), num(trials if new else have[m])))
                for k in exp:
                    v = o.I.freeze(o.st, look(o, a.obj, 'montecarlo', m, 'trials', k))
                    if not new:
                        prs.append((f'{m}: stored trials of bin {k}', v, S0[m, round(float(k) * 2)]))
                        continue
                    r = [x for x in log if x[0] is v]
                    if not r:
                        raise Undecided(where + ': trials not recognised: ' + tm.show(v)[:200])
                    _, mm, tt, b, n = r[0]
                    l = f'{m}, bin {k}: '
                    prs += [(l + 'measure', mm, string(m)), (l + 'trials run', tt, num(trials)), (l + 'diameter', b, want[k][0]), (l + 'number of craters', n, num(want[k][1]))]
            return dict(methods=[equal(where, prs)], functions=[where, 'Randomnessanalysis.montecarlo_split', 'Randomnessanalysis.self_pp'])
        obs.append(Ob(f'{measure}, {trials} trials wanted, {have or "nothing"} stored ({j})', f))
    cr = [0] * 4 + [1] * 3 + [2] * 2 + [3] * 5 + [5]
    for j, (craters, first, nbins) in enumerate([(cr, 0, 6), ([b - 9 for b in cr] + [-9 + 2], -9, 6), ([b - 23 for b in cr], -23, 6)]):
        for m in MEASURES:
            other = [x for x in MEASURES if x != m][0]
            for trials in (1, 250, 3000):
                for have in ({}, {m: 250}, {other: 300}, {m: 249, other: 3000}, {m: 3000, other: 10}):
                    if j == 0 or trials == 250:
                        runs(j, craters, first, nbins, have, trials, m, 'run_montecarlo')

    def reading(j, present, exists, ra_file):
        """present: {measure: (n_trials, bins)} of the stored file"""
        def f():
            from checks.spatial import EXISTS, RTS
            c = Ctx()
            where = 'Randomnessanalysis.read'
            a = Analysis(c, [0, 0, 1, 1], 0, 2, ra_file=string(ra_file))
            c.fn(EXISTS), c.fn(RTS)
            log = []
            c.I.models[EXISTS] = lambda I, st, args, kw, node: TRUE if name(I, st, args[0]) in exists else FALSE
            T = {(m, k, i): c.str(f'v_{m}_{k + 40}_{i}') for m, (n, ks) in present.items() for k in ks for i in range(n)}

            def text(I, st, args, kw, node):
                d = bindargs(('filename', 'from_string'), args, kw, 'read_textstructure')
                log.append(name(I, st, d['filename']))
                L = lambda v: lit(*v)
                r = dict(version=string('3'), source=string('d/a.scc'))
                allk = sorted({k for _, ks in present.values() for k in ks})
                r['n_sigma'] = mkdict(dict(bin=L([string(key(k)) for k in allk]), **{m: L([string('1.5' if k in ks else '-') for k in allk]) for m, (n, ks) in present.items()}))
                for m, (n, ks) in present.items():
                    t = {'index': L([string(str(i)) for i in range(n)])}
                    if ks:
                        t.update({key(k): L([T[m, k, i] for i in range(n)]) for k in ks})
                    r[m] = mkdict(dict(n_trials=string(str(n)), trials=mkdict(t)))
                return mkdict(r)
            c.I.models[RTS] = text
            o = c.run(RA + '.read', a.obj)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            mc = o.I.freeze(o.st, look(o, a.obj, 'montecarlo'))
            want = next((x for x in (ra_file, 'd/a_ra.txt') if x in exists), None)
            if log != ([want] if want else []):
                raise Violation(where, f'existing files {sorted(exists)}: reads {log} instead of {want}')
            got = {x.a[0]: v for x, v in mc.a}
            exp = present if want else {}
            if sorted(got) != sorted(exp):
                raise Violation(where, f'results for {sorted(exp)} are read back as results for {sorted(got)}')
            prs = []
            for m, (n, ks) in exp.items():
                prs.append((f'{m}: number of trials', o.I.freeze(o.st, look(o, a.obj, 'montecarlo', m, 'n_trials')), num(n)))
                t = o.I.freeze(o.st, look(o, a.obj, 'montecarlo', m, 'trials'))
                if t.op != 'dict':
                    raise Undecided(where + ': trials not recognised')
                if sorted(x.a[0] for x, _ in t.a) != sorted(key(k) for k in ks):
                    raise Violation(where, f'{m}: trials of the bins {[key(k) for k in ks]} are read back as {[x.a[0] for x, _ in t.a]}')
                for k in ks:
                    prs.append((f'{m}: trials of bin {key(k)}', look1(t, key(k)), lit(*[c.run('spec.sphere.value', T[m, k, i]).val for i in range(n)])))
            return dict(methods=[equal(where, prs)] if prs else ['constant propagation'], functions=[where])
        obs.append(Ob(f'read {j}: {", ".join(present) or "nothing"}; existing {sorted(exists)}, output name {ra_file}', f))
    for j, (present, exists, ra_file) in enumerate([(dict(m2cnd=(3, [0, 1]), sdaa=(2, [1])), {'a_ra.txt'}, 'a_ra.txt'), (dict(sdaa=(2, [-3, 4])), {'d/a_ra.txt'}, 'a_ra.txt'), (dict(m2cnd=(2, [7])), {'x/o_ra.txt', 'd/a_ra.txt'}, 'x/o_ra.txt'),
                                                    (dict(m2cnd=(2, [7])), {'d/a_ra.txt'}, 'x/o_ra.txt'), (dict(m2cnd=(2, [0])), set(), 'a_ra.txt'), (dict(sdaa=(2, []), m2cnd=(1, [0])), {'a_ra.txt'}, 'a_ra.txt')]):
        reading(j, present, exists, ra_file)

    def drawn(j, measure, ks, where):
        """-ra chart of one measure"""
        def f():
            c = Ctx()
            T = {k: c.arr(f't_{k + 40}') for k in ks}
            V = {k: {n: c.num(f'{n}_{k + 40}') for n in ('m0', 'mn')} | {'sd': c.num(f'p_sd_{k + 40}')} for k in ks}
            for k in ks:
                V[k]['n_sigma'] = div(sub(V[k]['m0'], V[k]['mn']), V[k]['sd'])
                V[k]['percentile'] = c.num(f'pc_{k + 40}')
                V[k]['p2'] = NONE
            st = c.dict(**{key(k): c.obj('spec.writer.Geom', **V[k]) for k in ks})
            mc = c.dict(**{m: c.dict(n_trials=num(500), trials=c.dict(), stats=st if m == measure else c.dict()) for m in MEASURES})
            ax = c.any('axes')
            a = Analysis(c, [0, 0, 1, 1], 0, 2, montecarlo=mc)
            cps = plots(c)
            o = c.run(RA + '.plot_n_sigma', a.obj, cps, string(measure))
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            val = {k: V[k]['n_sigma'] for k in ks}
            got = [e for e in calls(o, 'plot') if any(tm.contains(e.args[1], lambda t: t is V[k]['m0']) for k in ks if len(e.args) > 1)]
            if len(got) != 1 or got[0].loops:
                raise Undecided(where + ': line of scores not recognised')
            r = c.run('spec.sphere.sigma_line', lit(*[num(Fr(k, 2)) for k in ks]), lit(*[val[k] for k in ks]), num(-1 if measure == 'sdaa' else 1))
            return dict(methods=[equal(where, [('bins', got[0].args[0], r.val.a[0]), ('scores', got[0].args[1], r.val.a[1])])], functions=[where])
        obs.append(Ob(f'-ra chart {j}: {measure}, bins {[key(k) for k in ks]}', f))
    j = 0
    for m in MEASURES:
        for ks in ([0], [-5, -3, -2], [3, 4, 7, 8]):
            drawn(j, m, ks, 'Randomnessanalysis.plot_n_sigma')
            j += 1

    def overplot(j, cells, ks, legend):
        """cells: {measure: [bin has a score]}"""
        def f():
            c = Ctx()
            where = 'Craterplot.oplot_n_sigma'
            V = {(m, i): c.str(f's_{m}_{i}') for m in cells for i in range(len(ks))}
            tab = c.dict(**{m: c.list(*[V[m, i] if b else string('-') for i, b in enumerate(v)]) for m, v in cells.items()}, bin=c.list(*[string(key(k)) for k in ks]))
            cc = c.obj(CC, n_sigma=tab, n_trials=c.list(*[string('300') for m in cells]))
            cp = c.obj('craterstats.Craterplot.Craterplot', cratercount=cc, psym=num(1), colour=string('red'))
            cps = plots(c, ra_legend_drawn=FALSE if legend else TRUE, measure=c.list(*[string(m) for m in sorted(cells)]))
            o = c.run('craterstats.Craterplot.Craterplot.oplot_n_sigma', cp, cps)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            prs, style = [], {}
            dash = {tm.eq(v, string('-')) for v in V.values()}      # a score is never the text of a missing one
            es = calls(o, 'plot')
            for m, v in cells.items():
                real = [V[m, i] for i, b in enumerate(v) if b]
                got = [e for e in es if len(e.args) > 1 and any(tm.contains(e.args[1], lambda t, x=x: t is x) for x in real)]
                if len(got) != 1 or got[0].loops:
                    raise Undecided(where + ': line of scores not recognised')
                r = c.run('spec.sphere.sigma_line', lit(*[num(Fr(k, 2)) for k in ks]), lit(*[c.run('spec.sphere.value', V[m, i]).val if b else NONE for i, b in enumerate(v)]), num(-1 if m == 'sdaa' else 1))
                prs += [(m + ': bins', got[0].args[0], r.val.a[0]), (m + ': scores', got[0].args[1], r.val.a[1])]
                style[m] = kwarg(got[0], 'linestyle')
            if len(set(style.values())) != len(style):
                raise Violation(where, 'both measures are drawn in the same line style')
            if legend:
                for m in cells:
                    t = [e for e in calls(o, 'text') if len(e.args) > 2 and e.args[2] is string(m)]
                    if len(t) != 1:
                        raise Violation(where, f'the legend does not name {m} once')
                    l = [e for e in es if len(e.args) > 1 and o.I.freeze(o.st, e.args[1]) is lit(t[0].args[1], t[0].args[1])]
                    if len(l) != 1:
                        raise Undecided(where + ': legend line not recognised')
                    if kwarg(l[0], 'linestyle') is not style[m]:
                        raise Violation(where, f'the legend shows {m} in the line style {tm.show(kwarg(l[0], "linestyle"))}, its scores are drawn as {tm.show(style[m])}')
            return dict(methods=[equal(where, [(l, tm.rewrite(x, lambda t: FALSE if t in dash else None), y) for l, x, y in prs])], functions=[where])
        obs.append(Ob(f'scores over the plot {j}: {cells}, bins {[key(k) for k in ks]}', f))
    for j, (cells, ks, legend) in enumerate([(dict(m2cnd=[1, 1, 1], sdaa=[0, 1, 1]), [-3, -2, -1], 1), (dict(sdaa=[1]), [4], 1), (dict(m2cnd=[1, 0]), [0, 2], 1), (dict(m2cnd=[0, 1], sdaa=[1, 1]), [1, 2], 0)]):
        overplot(j, cells, ks, legend)

    def pictures(j, measure, k, have, ax):
        """map and histogram of one bin: everything drawn belongs to that bin and measure"""
        def f():
            c = Ctx()
            where = 'Randomnessanalysis.plot_map_and_histogram'
            T = {(m, b): c.arr(f't_{m}_{b + 40}') for m in MEASURES for b in have}
            P = {(m, b): c.list(string(f'cells of {m} {b}')) for m in MEASURES for b in have}
            S1 = {(m, b): c.obj('spec.writer.Geom', m0=c.num(f'm0_{m}_{b + 40}'), mn=c.num(f'mn_{m}_{b + 40}'), sd=c.num(f'p_sd_{m}_{b + 40}'), n_sigma=c.num('ns'), percentile=c.num(f'pc_{m}_{b + 40}'), p2=P[m, b]) for m in MEASURES for b in have}
            mc = c.dict(**{m: c.dict(n_trials=num(500), trials=c.dict(**{key(b): T[m, b] for b in have}), stats=c.dict(**{key(b): S1[m, b] for b in have})) for m in MEASURES})
            craters = [b for b in have for _ in range(3)]
            a = Analysis(c, craters, have[0], len(have), montecarlo=mc, plot_reduction_factor=num(Fr(4, 5)))
            log = []

            def rec(n, names):
                c.fn(RA + '.' + n) if n != 'plot' else c.fn(S + '.plot')

                def g(I, st, args, kw, node):
                    log.append((n, {x: v for x, v in bindargs(('self',) + names, args, kw, n).items()}, st))
                    return NONE
                for q in (RA, S):
                    c.I.models[q + '.' + n] = g
            rec('plot', ('cps', 'craters', 'grid', 'ax'))
            rec('oplot_neighbours', ('cps', 'craters', 'neighbours', 'ax'))
            rec('oplot_voronoi', ('cps', 'craters', 'p2', 'ax'))
            rec('plot_histogram', ('cps', 'measure', 'bin', 'ax0', 'sz_ratio'))
            cps = plots(c, create_map_plotspace=mk('ext', 'spec.nothing'))
            c.I.models['spec.nothing'] = lambda I, st, args, kw, node: NONE
            o = c.run(RA + '.plot_map_and_histogram', a.obj, cps, string(measure), string(key(k)), *([c.any('axes')] if ax else []))
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            names = [n for n, _, _ in log]
            extra = dict(m2cnd='oplot_neighbours', sdaa='oplot_voronoi')[measure]
            if names.count('plot') != 1 or sorted(n for n in names if n != 'plot') != sorted([extra, 'plot_histogram']):
                raise Violation(where, f'{measure}: draws {names}')
            who = [i for i, b in enumerate(craters) if b == k]
            prs = []
            for n, d, st in log:
                fz = lambda v: o.I.freeze(st, v)
                if n == 'plot_histogram':
                    prs += [('histogram of the measure', fz(d['measure']), string(measure)), ('histogram of the bin', fz(d['bin']), string(key(k)))]
                    continue
                for x, col in (('lon', a.sphere.lon), ('lat', a.sphere.lat), ('diam', a.diam)):
                    prs.append((f'{n}: craters ({x})', fz(o.I.get_attr(st, d['craters'], x, None)), lit(*[col[i] for i in who])))
                if n != 'plot':
                    prs.append((n, fz(d['neighbours' if n == 'oplot_neighbours' else 'p2']), lit(string(f'cells of {measure} {k}'))))
            # the caption states the bin and its number of craters
            txt = [o.I.freeze(o.st, e.args[2] if len(e.args) > 2 else kwarg(e, 's')) for e in calls(o, 'text')]
            cap = list({t.id: t for t in txt if t is not None and tm.contains(t, lambda x: x.op == 'str' and 'n =' in x.a[0])}.values())
            if len(cap) != 1:
                raise Violation(where, 'no caption with the number of craters')
            refs = [c.run('spec.sphere.caption', tm.power(num(2), num(Fr(k, 2))), tm.power(num(2), num(Fr(k, 2) + x)), num(len(who))).val for x in (Fr(499, 1000), Fr(1, 2))]
            if cap[0] not in refs:
                prs.append(('caption', cap[0], refs[0]))
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'map and histogram {j}: {measure}, bin {key(k)} of {[key(b) for b in have]}' + (', given axes' if ax else ''), f))
    j = 0
    for m in MEASURES:
        for k, have in ((0, [0]), (-4, [-5, -4, -3]), (2, [1, 2])):
            pictures(j, m, k, have, k == 2)
            j += 1

    def histogram(measure, given):
        def f():
            c = Ctx()
            where = 'Randomnessanalysis.plot_histogram'
            q = 'craterstats.gm.string.percentile_sigfigs.percentile_sigfigs'
            c.fn(q)
            c.I.models[q] = lambda I, st, args, kw, node: mk('call', 'percentile', (I.freeze(st, args[0]),), ())
            tm.RETURNS['percentile'] = ('s', 'str')
            have = [-1, 0, 3]
            T = {(m, b): c.arr(f't_{m}_{b + 40}') for m in MEASURES for b in have}
            V = {(m, b): dict(m0=c.num(f'm0_{m}_{b + 40}'), mn=c.num(f'mn_{m}_{b + 40}'), sd=c.num(f'p_sd_{m}_{b + 40}'), n_sigma=c.num('ns'), percentile=c.num(f'pc_{m}_{b + 40}'), p2=NONE) for m in MEASURES for b in have}
            mc = c.dict(**{m: c.dict(n_trials=num(100), trials=c.dict(**{key(b): T[m, b] for b in have}), stats=c.dict(**{key(b): c.obj('spec.writer.Geom', **V[m, b]) for b in have})) for m in MEASURES})
            a = Analysis(c, [0] * 3, 0, 1, montecarlo=mc)
            log = []

            def hist(I, st, args, kw, node):
                d = bindargs(('a', 'bins', 'range', 'density', 'weights'), args, kw, 'histogram')
                if set(d) - {'a', 'bins'}:
                    raise Undecided('histogram not recognised')
                log.append(I.freeze(st, d['a']))
                return tup(lit(*[c.num(f'p_h{i}') for i in range(3)]), lit(*[c.num(f'b{i}') for i in range(4)]))
            c.I.models['numpy.histogram'] = hist
            cps = plots(c, create_map_plotspace=mk('ext', 'spec.nothing'))
            c.I.models['spec.nothing'] = lambda I, st, args, kw, node: NONE
            o = c.run(RA + '.plot_histogram', a.obj, cps, string(measure), string(key(0)), *([c.any('axes')] if given else []))
            v = V[measure, 0]
            if len(log) != 1:
                raise Undecided(where + ': histogram not recognised')
            prs = [('values counted', log[0], T[measure, 0])]
            lines = [o.I.freeze(o.st, e.args[0]) for e in calls(o, 'plot') if e.args]
            if lit(v['m0'], v['m0']) not in lines or lit(v['mn'], v['mn']) not in lines:
                raise (Violation if all(x.op == 'lit' for x in lines) else Undecided)(where, 'the real value and the mean of the trials are not both marked') if all(x.op == 'lit' for x in lines) else Undecided(where + ': marks not recognised')
            txt = [e.args for e in calls(o, 'text') if len(e.args) > 2]
            r = c.run('spec.sphere.label', v['m0'], mk('call', 'percentile', (v['percentile'],), ()))
            if not txt:
                raise Undecided(where + ': label not recognised')
            prs += [('position of the label', txt[0][0], v['m0']), ('label', o.I.freeze(o.st, txt[0][2]), r.val)]
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'histogram: {measure}' + (', given axes' if given else ''), f))
    for m in MEASURES:
        for g in (0, 1):
            histogram(m, g)
    
    def panels(j, measure, have, selection):
        """one panel per chosen bin in order, and the scores where chosen, none over another"""
        def f():
            c = Ctx()
            where = 'Randomnessanalysis.plot_montecarlo_split'
            mc = c.dict(**{m: c.dict(stats=c.dict(**{key(b): c.obj('spec.writer.Geom', n_sigma=c.num('ns')) for b in (have if m == measure else have[:1])})) for m in MEASURES})
            a = Analysis(c, [0] * 3, 0, 1, montecarlo=mc)
            F = [c.num(n) for n in ('p_x0', 'p_y0', 'p_w', 'p_h')]
            made, log = [], []

            def axes(I, st, args, kw, node):
                made.append(I.freeze(st, args[1] if len(args) > 1 else kw['rect']))
                return c.any(f'panel{len(made) - 1}')
            c.I.models['.add_axes'] = axes
            c.I.models['.get_position'] = lambda I, st, args, kw, node: I.new(st, 'obj', dict(zip(('x0', 'y0', 'width', 'height'), F)), 'spec.writer.Geom')
            for n, names in (('plot_map_and_histogram', ('self', 'cps', 'measure', 'bin', 'ax', 'sz_ratio')), ('plot_n_sigma', ('self', 'cps', 'measure', 'ax0'))):
                c.fn(RA + '.' + n)
                c.I.models[RA + '.' + n] = lambda I, st, args, kw, node, n=n, names=names: (log.append((n, {k: I.freeze(st, v) for k, v in bindargs(names, args, kw, n).items() if k not in ('self', 'cps')})), NONE)[1]
            cps = plots(c, create_map_plotspace=mk('ext', 'spec.nothing'))
            c.I.models['spec.nothing'] = lambda I, st, args, kw, node: NONE
            o = c.run(RA + '.plot_montecarlo_split', a.obj, cps, string(measure), **({} if selection is None else dict(selection=c.list(*[num(i) for i in selection]))))
            for ab in o.aborts:
                raise Violation(where, f'ends with {ab.exc}') if ab.pc is TRUE else Undecided(where + ': may end early')
            want = [key(b) for b in have] if not selection else [key(have[i - 1]) for i in selection if 1 <= i <= len(have)]
            sigma = not selection or 0 in selection
            got = [d['bin'] for n, d in log if n != 'plot_n_sigma']
            if got != [string(b) for b in want]:
                raise Violation(where, f'panels of the bins {[tm.show(b) for b in got]} instead of {want}')
            if [n for n, _ in log].count('plot_n_sigma') != int(sigma):
                raise Violation(where, f'the scores are drawn {[n for n, _ in log].count("plot_n_sigma")} times instead of {int(sigma)}')
            if any(d['measure'] is not string(measure) for _, d in log):
                raise Violation(where, 'a panel of another measure is drawn')
            used = []
            for n, d in log:
                ax = d.get('ax0' if n == 'plot_n_sigma' else 'ax', NONE)
                i = [i for i in range(len(made)) if ax is c.any(f'panel{i}')]
                if not i:
                    raise Undecided(where + ': place of a panel not recognised')
                used.append(i[0])
            if len(set(used)) != len(used):
                raise Violation(where, 'two panels share their axes')
            for v in ((0, 0, 1, 1), (Fr(1, 8), Fr(1, 5), Fr(2, 3), Fr(1, 2))):
                R = []
                for i in used:
                    r = tm.subst(made[i], {x: num(y) for x, y in zip(F, v)})
                    if r.op not in ('lit', 'tuple') or len(r.a) != 4 or not all(tm.isnum(x) for x in r.a):
                        raise Undecided(where + ': place of a panel not recognised')
                    x, y, w, h = [Fr(t.a[0]) for t in r.a]
                    if w <= 0 or h <= 0 or x < v[0] or y < v[1] or x + w > v[0] + v[2] or y + h > v[1] + v[3]:
                        raise Violation(where, f'panel {len(R)} of {len(used)} is not inside the frame')
                    for k, (x1, y1, w1, h1) in enumerate(R):
                        if x < x1 + w1 and x1 < x + w and y < y1 + h1 and y1 < y + h:
                            raise Violation(where, f'panels {k} and {len(R)} of {len(used)} overlap')
                    R.append((x, y, w, h))
            return dict(methods=['constant propagation'], functions=[where])
        obs.append(Ob(f'panels {j}: {measure}, bins {[key(b) for b in have]}, selection {selection}', f))
    j = 0
    for have, sel in (([0], None), ([-2, -1, 0], None), ([1, 2, 3, 4], None), ([-3, -2, -1, 0, 1, 2, 3, 4], None), ([0, 1, 2], [2]), ([-1, 0, 1, 2, 3], [1, 3, 4]), ([-1, 0, 1, 2], [0, 1, 2, 3]), ([0, 1, 2], [-1, 2, 3, 7]), ([0, 1], [0, 2])):
        for m in MEASURES:
            panels(j, m, have, sel)
            j += 1

    def strip(type, scores, show):
        """the strip of scores appears on a plot for every drawn data set that has some"""
        def f():
            c = Ctx(opaque=['craterstats.Cratercount.Cratercount.getplotdata'])
            where = 'Craterplot.overplot'
            log = []
            c.fn('craterstats.Craterplot.Craterplot.oplot_n_sigma')
            c.I.models['craterstats.Craterplot.Craterplot.oplot_n_sigma'] = lambda I, st, args, kw, node: (log.append(st.pc), NONE)[1]
            c.fn('craterstats.Cratercount.Cratercount.getplotdata')
            c.I.models['craterstats.Cratercount.Cratercount.getplotdata'] = lambda I, st, args, kw, node: I.newdict(st, mk('dict', *[(string(k), c.arr(k)) for k in ('d', 'y', 'err')], *[(string(k), c.num(k)) for k in ('n', 'n_event')], (string('bin_range'), NONE)))
            cc = c.obj(CC, n_sigma=c.dict(m2cnd=c.list(string('1.5')), bin=c.list(string('0'))) if scores else NONE)
            cp = c.obj('craterstats.Craterplot.Craterplot', cratercount=cc, psym=num(1), colour=string('red'), type=string(type), hide=FALSE, binning=string('pseudo-log'), range=NONE, resurf=FALSE, resurf_showall=FALSE, error_bars=FALSE,
                       display_age=FALSE, isochron=FALSE, name=string('a'), age_left=FALSE, n=NONE, n_event=NONE)
            c.fn('craterstats.Craterplot.Craterplot.make_legend_label')
            c.I.models['craterstats.Craterplot.Craterplot.make_legend_label'] = lambda I, st, args, kw, node: I.newlist(st, lit())
            cps = plots(c, presentation=string('cumulative'), ra_show=TRUE if show else FALSE, pf=c.any('pf'), cf=c.any('cf'), measure=c.list())
            c.run('craterstats.Craterplot.Craterplot.overplot', cp, cps)
            want = type == 'data' and scores and show
            if len(log) != int(want) or want and log[0] is not TRUE:
                raise Violation(where, f'the scores are drawn {len(log)} times for a {type} overplot with{"" if scores else "out"} scores on a plot with{"" if show else "out"} room for them')
            return dict(methods=['constant propagation'], functions=[where])
        obs.append(Ob(f'strip of scores: {type}, scores {scores}, room {show}', f))
    for a in ((t, sc, sh) for t in ('data',) for sc in (1, 0) for sh in (1, 0)):
        strip(*a)
    
    def setup(out):
        """the crater count an analysis bins is that of its source"""
        def f():
            c = Ctx()
            where = 'Randomnessanalysis.__init__'
            F = {n: c.list(*[c.num(f'p_{n}{i}') for i in range(3)]) for n in ('diam', 'lon', 'lat', 'fraction')}

            def base(I, st, args, kw, node):
                for n, v in dict(**F, filename=string('d/a.scc'), name=string('a')).items():
                    I.set_attr(st, args[0], n, v, node) if hasattr(I, 'set_attr') else I.cell(st, args[0]).f.__setitem__(n, v)
                return NONE
            c.fn(S + '.__init__')
            c.I.models[S + '.__init__'] = base
            c.fn(RA + '.read')
            read = []
            c.I.models[RA + '.read'] = lambda I, st, args, kw, node: (read.append(I.freeze(st, I.get_attr(st, args[0], 'ra_file', None))), NONE)[1]
            binned = []
            c.fn(CC + '.apply_binning')
            c.I.models[CC + '.apply_binning'] = lambda I, st, args, kw, node: (binned.append((bindargs(('self', 'binning', 'offset'), args, kw, 'apply_binning'), {n: I.freeze(st, I.get_attr(st, args[0], n, None)) for n in F})), NONE)[1]
            o = c.run('spec.sphere.analysis', string('d/a.scc'), *([] if out is None else [string(out)]))
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            if len(binned) != 1 or len(read) != 1:
                raise Undecided(where + ': preparation not recognised')
            d, cols = binned[0]
            prs = [('binning', d['binning'], string('root-2')), ('offset of the bins', d.get('offset', num(0)), num(0)), ('file of results', read[0], string((out or 'a') + '_ra.txt'))]
            prs += [(f'{n} of the craters', cols[n], o.I.freeze(o.st, F[n])) for n in F]
            return dict(methods=[equal(where, prs)], functions=[where, 'Randomnessanalysis.init_Cratercount'])
        obs.append(Ob(f'preparation, output {out}', f))
    setup(None)
    setup('x/o')

    def summary(j, present, exists):
        """scores read back for a plot"""
        def f():
            from checks.spatial import EXISTS, RTS
            c = Ctx()
            where = 'Cratercount.read_ra_file'
            c.fn(EXISTS), c.fn(RTS)
            log = []
            c.I.models[EXISTS] = lambda I, st, args, kw, node: TRUE if name(I, st, args[0]) in exists else FALSE
            bins = sorted({k for _, ks in present.values() for k in ks})
            tab = dict(bin=lit(*[string(key(k)) for k in bins]), **{m: lit(*[c.str(f's_{m}_{i}') if k in ks else string('-') for i, k in enumerate(bins)]) for m, (n, ks) in present.items()})

            def text(I, st, args, kw, node):
                d = bindargs(('filename', 'from_string'), args, kw, 'read_textstructure')
                log.append(name(I, st, d['filename']))
                return mkdict(dict(version=string('3'), source=string('d/a.scc'), n_sigma=mkdict(tab), **{m: mkdict(dict(n_trials=string(str(n)), trials=mkdict(dict(index=lit(*[string(str(i)) for i in range(n)]))))) for m, (n, ks) in present.items()}))
            c.I.models[RTS] = text
            cc = c.obj(CC, name=string('a'), filename=string('d/a.scc'))
            o = c.run(CC + '.read_ra_file', cc)
            for ab in o.aborts:
                if ab.pc is TRUE:
                    raise Violation(where, f'ends with {ab.exc}')
            want = next((x for x in ('a_ra.txt', 'd/a_ra.txt') if x in exists), None)
            if log != ([want] if want else []):
                raise Violation(where, f'existing files {sorted(exists)}: reads {log} instead of {want}')
            v = o.val
            if v.op not in ('tuple', 'lit') or len(v.a) != 2:
                raise Undecided(where + ': result not recognised')
            if not want or not bins:
                return dict(methods=[equal(where, [('scores', v.a[0], NONE)])], functions=[where])
            if v.a[0].op != 'dict':
                raise Undecided(where + ': result not recognised')
            got = {x.a[0]: y for x, y in v.a[0].a}
            if sorted(got) != sorted(tab):
                raise Violation(where, f'scores {sorted(got)} instead of {sorted(tab)}')
            prs = [(n, got[n], tab[n]) for n in tab]
            t = v.a[1]
            if t.op != 'lit' or sorted(x.a[0] if x.op == 'str' else '?' for x in t.a) != sorted(str(n) for n, _ in present.values()):
                raise Violation(where, f'numbers of trials {tm.show(t)[:100]} instead of {[n for n, _ in present.values()]}')
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'scores read {j}: {", ".join(present)}; existing {sorted(exists)}', f))
    for j, (present, exists) in enumerate([(dict(m2cnd=(300, [0, 1]), sdaa=(200, [1])), {'a_ra.txt'}), (dict(sdaa=(200, [-3, 4])), {'d/a_ra.txt'}), (dict(m2cnd=(20, [7])), {'a_ra.txt', 'd/a_ra.txt'}), (dict(m2cnd=(20, [7])), set()), (dict(m2cnd=(20, [])), {'a_ra.txt'})]):
        summary(j, present, exists)
    return obs
