from fractions import Fraction as Fr
from analyser.harness import *
from checks.c04 import poly

RULE = ('the value-flow terms of the four result grids of compute_age_area() - nested loops storing into two-dimensional arrays - over symbolic production function, chronology, area range, minimum diameter and time axis '
        'are compared with a per-cell reference for several grid shapes; the array each plot hands to imshow, the time axis and the iterator used by the loop are compared with their references')
Q = 'craterstats.'
P = Q + 'Craterplotset.Craterplotset.'
FNS = ['Craterplotset.compute_age_area', 'Craterplotset.age_area_plot', 'Craterplotset.calculate_time_axis_params', 'gm.iterator_with_progress']
CF = [Q + 'Chronologyfn.Chronologyfn.' + m for m in ('t', 'a0', 'phi', 'N1')]
MED = Q + 'Craterpdf.Craterpdf.median1sigma'
RET = {CF[0]: ('p', 'num'), CF[1]: ('p', 'num'), CF[2]: ('p', 'num'), CF[3]: ('p', 'num'), MED: ('a', 'num', 3)}
ITER = Q + 'gm.misc.iterator_with_progress.iterator_with_progress'
PDF = Q + 'Craterpdf.Craterpdf'


def ctx():
    c = Ctx(opaque=CF + [MED], returns=RET)
    c.fn(ITER), c.fn(MED)
    c.I.models[ITER] = lambda I, st, args, kw, node: args[0] if args else kw['enumerated_iterable']
    tm.RETURNS[PDF] = ('s', 'inst:' + PDF)
    names = ('pf', 'cf', 'cc', 'd_range', 'k', 'lam', 'bcc', 'n_samples')

    def pdf(I, st, args, kw, node):
        d = dict(zip(names, args))
        d.update(kw)
        if d.get('lam', NONE) is not NONE or tm.truth(I.deref(st, d.get('bcc', FALSE))) is not FALSE or d.get('k', NONE) is NONE:
            raise Undecided('distribution of a cell not recognised')
        d['area'] = I.get_attr(st, d.pop('cc'), 'area', node)
        d.pop('lam', None), d.pop('bcc', None)
        return mk('call', PDF, (), tuple(sorted((k, I.freeze(st, v)) for k, v in d.items())))
    c.I.models[PDF] = pdf
    return c


def obligations(tier):
    obs = []

    def maps(ns, asp, lin, what):
        def f():
            c = ctx()
            pf, a = poly(c, 2)
            cf = c.inst('cf', 'Chronologyfn')
            tmin, tc, tmax, lo, hi, dmin = [c.num('p_' + n) for n in ('tmin', 'tc', 'tmax', 'lo', 'hi', 'dmin')]
            s = c.obj('Craterplotset', cf=cf, pf=pf, min_diameter=dmin, global_area=c.num('p_g'), aspect_ratio=asp, n_samples=ns, xfrac_linear=lin, t_min=tmin, t_max=tmax, t_crossover=tc,
                      yrange=c.list(lo, hi), xrange=c.list(c.num('p_x0'), c.num('p_x1')))
            o = c.run((s, 'compute_age_area'))
            y = c.run('spec.uncertainty.maps', pf, cf, ns, asp, tmin, tc, tmax, lin, lo, hi, dmin, what)
            g = band(tm.lt(tmin, tc), tm.lt(tc, tmax), tm.lt(lo, hi), tm.lt(dmin, num(1000)))
            w = f'Craterplotset.compute_age_area: {what} on a grid of {ns} samples, aspect {asp}, linear {lin}'
            prs = [(what, c.item(o, o.raw, what), y.val), ('largest area', c.item(o, o.raw, 'max_area'), c.num('p_g')), ('range of areas', c.item(o, o.raw, 'log_area_range'), lit(lo, hi))]
            return dict(methods=[equal(w, prs, guard=g)], functions=FNS)
        return Ob(f'{what} grid {ns} {asp} {lin}', f)
    for ns, asp, lin in ((3, 1, .5), (2, 2, .7), (3, .75, .3), (2, 1, 0.), (2, 1.6, 1.)):
        for w in ('lm', 'kk', 'zz', 'ee'):
            obs.append(maps(ns, asp, lin, w))
    plots(obs)
    return obs


def shade(t):
    """cells left blank as a value of their own"""
    return tm.rewrite(t, lambda x: num(-12345) if x.op == 'nan' else None)


def plots(obs):
    OPQ = [P + 'calculate_time_axis_params', Q + 'Chronologyfn.Chronologyfn.t', Q + 'Productionfn.Productionfn.evaluate', Q + 'Equilibriumfn.Equilibriumfn.evaluate']

    def shown(plt, ef):
        w = f'Craterplotset.age_area_plot({plt})'

        def f():
            c = Ctx(opaque=OPQ)
            c.fn(OPQ[0])
            m = lambda n: [[tm.power(c.num(f'p_{n}{i}{j}'), num(4)) for j in range(2)] for i in range(3)]
            M = {n: m(n) for n in ('zz', 'kk', 'ee', 'lm')}
            s = c.obj('Craterplotset', cf=c.inst('cf', 'Chronologyfn'), pf=c.inst('pf', 'Productionfn'), ef=c.inst('ef', 'Equilibriumfn') if ef else None, min_diameter=c.num('p_dmin'), global_area=c.num('p_garea'),
                      xfrac_linear=c.num('p_xl'), t_min=c.num('p_tmin'), t_max=c.num('p_tmax'), t_crossover=c.num('p_tc'), invert=c.num('z_inv'), ax=c.any('ax'), fig=c.any('fig'), ax_cbar=c.any('cb'),
                      scaled_pt_size=c.num('p_pt'))
            d = c.dict(nsx=3, nsy=2, log_area_range=c.list(c.num('p_lo'), c.num('p_hi')), log_age_range=c.list(c.num('p_a0'), c.num('p_a1')), max_area=c.num('p_g'),
                       **{n: lit(*[lit(*r) for r in v]) for n, v in M.items()})
            o = c.run((s, 'age_area_plot'), plt, d)
            im = calls(o, 'imshow')
            if len(im) != 1:
                if not [e for e in o.effects if e.name.rsplit('.', 1)[-1] in ('pcolormesh', 'pcolor', 'matshow', 'contourf')]:
                    raise Violation(w, f'{len(im)} images are drawn')
                raise Undecided(w + ': drawing not recognised')
            e = im[0]
            kw = dict(e.kw)
            X = e.args[0] if e.args else kw.get('X')
            prs = [('drawn', e.pc, TRUE), ('origin', kw.get('origin', NONE), string('lower')), ('extent', kw.get('extent', NONE), lit(*map(num, (0, 1, 0, 1)))), ('aspect', kw.get('aspect', NONE), string('auto'))]
            key = {'k': 'kk', 'err': 'zz', 'age': 'ee'}[plt]
            for j in range(2):
                for i in range(3):
                    v = c.run('spec.uncertainty.shown', plt, M[key][i][j]).val
                    if plt == 'age':
                        v = c.run('spec.uncertainty.visible', v).val
                    prs.append((f'cell of age {i}, area {j}', shade(tm.idx(tm.idx(X, num(j)), num(2 - i))), shade(v)))
            lim = {'k': (num(0), num(8)), 'err': (num(0), None), 'age': (c.run('spec.uncertainty.lower').val, c.run('spec.uncertainty.upper').val)}[plt]
            for n, v in zip(('vmin', 'vmax'), lim):
                prs.append((n, kw.get(n, NONE), v if v is not None else NONE))
            lab = [x for x in calls(o, 'set_label') if x.args]
            if len(lab) == 1:
                head = {'k': '$k$', 'err': r'Measured uncertainty $\sigma$, %', 'age': 'Measured/actual age'}[plt]
                prs.append(('label', lab[0].args[0], c.run('spec.cli.join', string(head), c.run('spec.uncertainty.diameter', c.num('p_dmin')).val).val))
            tl = calls(o, 'set_yticklabels')
            cb = calls(o, 'colorbar')
            if plt != 'err' and len(tl) == 1 and len(cb) == 1 and kwarg(cb[0], 'ticks') is not None:
                t, l = kwarg(cb[0], 'ticks'), tl[0].args[0]
                prs.append(('colour bar ticks', t, c.run('spec.uncertainty.ticks_' + plt).val))
                prs.append(('colour bar labels', l, c.run('spec.uncertainty.labels_' + plt).val))
            g = band(tm.lt(c.num('p_lo'), c.num('p_hi')))
            return dict(methods=[equal(w, prs, guard=g)], functions=FNS)
        return Ob(f'plot {plt} equilibrium={ef}', f)
    for ef in (0, 1):
        for p in ('k', 'err', 'age'):
            obs.append(shown(p, ef))

    def area(p):
        if p.op == 'ite':
            return ite(p.a[0], area(p.a[1]), area(p.a[2]))
        if p.op not in ('lit', 'tuple') or any(v.op not in ('lit', 'tuple') or len(v.a) != 2 for v in p.a):
            raise Undecided('outline not recognised')
        v = [x.a for x in p.a]
        return tm.scale(tm.add(num(0), *[tm.sub(tm.mul(a[0], b[1]), tm.mul(b[0], a[1])) for a, b in zip(v, v[1:] + v[:1])]), Fr(1, 2))

    def outline(p):
        if p.op == 'ite':
            return ite(p.a[0], outline(p.a[1]), outline(p.a[2]))
        if p is NONE:
            return num(0)
        if not (p.op == 'call' and p.a[0].endswith('Polygon') and p.a[1]):
            raise Undecided('outline not recognised')
        return area(p.a[1][0])

    def limits(plt, ef):
        w = f'Craterplotset.age_area_plot({plt}): limits'

        def f():
            c = Ctx(opaque=OPQ)
            c.fn(OPQ[0])
            M = {n: lit(*[lit(*[c.num(f'p_{n}{i}{j}') for j in range(2)]) for i in range(3)]) for n in ('zz', 'kk', 'ee', 'lm')}
            N = {n: c.num('p_' + n) for n in ('dmin', 'garea', 'xl', 'tmin', 'tmax', 'tc', 'pt', 'g')}
            N.update(tc=tm.add(N['tmin'], c.num('p_d1')), tmax=tm.add(N['tmin'], c.num('p_d1'), c.num('p_d2')), xl=tm.div(c.num('p_xl'), tm.add(num(1), c.num('p_xl'))))
            lo = c.num('lo')
            hi = tm.add(lo, c.num('p_d3'))
            fn = dict(cf=c.inst('cf', 'Chronologyfn'), pf=c.inst('pf', 'Productionfn'), ef=c.inst('ef', 'Equilibriumfn') if ef else None)
            s = c.obj('Craterplotset', **fn, min_diameter=N['dmin'], global_area=N['g'], xfrac_linear=N['xl'], t_min=N['tmin'], t_max=N['tmax'], t_crossover=N['tc'], invert=FALSE, ax=c.any('ax'), fig=c.any('fig'),
                      ax_cbar=c.any('cb'), scaled_pt_size=N['pt'])
            d = c.dict(nsx=3, nsy=2, log_area_range=c.list(lo, hi), log_age_range=c.list(c.num('p_a0'), c.num('p_a1')), max_area=N['g'], **M)
            o = c.run((s, 'age_area_plot'), plt, d)
            y = c.run('spec.uncertainty.above', lo, hi, N['g']).val
            x = num(0)
            if ef:
                T = c.run('spec.uncertainty.saturation', fn['cf'], fn['pf'], fn['ef'], N['dmin'], _st=o.st).val
                x = c.run('spec.uncertainty.below', T, N['tmin'], N['tc'], N['tmax'], N['xl']).val
            ps = calls(o, 'add_patch')
            if len(ps) != 1:
                raise Undecided(w + ': outline not recognised')
            p = ps[0].args[0]
            prs = [('masked part of the map', ite(ps[0].pc, outline(p), num(0)), c.run('spec.uncertainty.masked', x, y).val)]
            for e in calls(o, 'text'):
                t = e.args[2]
                if t is string('whole globe'):
                    prs.append(('whole globe', ite(e.pc, e.args[1], num(-1)), ite(tm.lt(y, num(Fr(98, 100))), y, num(-1))))
                if t is string('saturation'):
                    prs.append(('saturation', ite(e.pc, e.args[0], num(-1)), ite(tm.lt(num(Fr(2, 100)), x), x, num(-1))))
            if len(prs) != 2 + ef:
                raise Undecided(w + ': names of the limits not recognised')
            return dict(methods=[equal(w, prs, ties=False, samples=120)], functions=FNS)
        return Ob(f'limits on plot {plt} equilibrium={ef}', f)
    for ef in (0, 1):
        for p in ('k', 'err', 'age'):
            obs.append(limits(p, ef))

    def axis(dims, xv=None):
        nm = f'time axis {dims} {xv or "any range"}'

        def f():
            c = Ctx()
            xr = c.list(*(xv or (c.num('z_x0'), c.num('z_x1'))))
            s = c.obj('Craterplotset', xrange=xr, yrange=c.list(c.num('y0'), c.num('y1')), print_dimensions=dims, pt_size=c.num('p_pt'))
            o = c.run((s, 'calculate_time_axis_params'))
            y = c.run('spec.uncertainty.time_axis', xr, tuple(float(e) for e in dims.split('x')), c.num('p_pt'))
            prs = [(n, c.attr(o, s, n), c.item(y, y.raw, n)) for n in ('t_min', 't_max', 't_crossover', 'xfrac_linear', 'aspect_ratio')]
            prs.append(('crossover', tm.truth(c.attr(o, s, 'crossover')), tm.truth(c.item(y, y.raw, 'crossover'))))
            return dict(methods=[equal(f'Craterplotset.calculate_time_axis_params({dims})', prs, samples=400)], functions=FNS)
        return Ob(nm, f)
    for d in ('7.5x7.5', '8x4', '2', '3x10'):
        obs.append(axis(d))
    for xv in ((0, 4.5), (.1, 4), (.01, 3.2), (4, 2), (5, .0004), (1, 2), (3, 3.5), (4.45, 4.5), (-3, 2), (.9, 3.8), (2, 6), (.99, 3), (1, 3)):
        obs.append(axis('8x4', xv))

    def items(queue, n):
        def f():
            c = Ctx()
            c.I.models['progressbar.progressbar'] = lambda I, st, args, kw, node: args[0] if args else NONE
            it = c.list(*[tup(num(i), c.num(f'x{i}')) for i in range(n)])
            o = c.run(ITER, it, total=n, progress_queue=c.any('q') if queue else None)
            return dict(methods=[equal('gm.iterator_with_progress', [('items', o.val, lit(*[tup(num(i), c.num(f'x{i}')) for i in range(n)]))])], functions=FNS)
        return Ob(f'progress iterator {n} queue={queue}', f)
    for q in (0, 1):
        for n in (0, 1, 3, 5):
            obs.append(items(q, n))
