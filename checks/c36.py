from analyser.harness import *
from checks.c06 import pdfobj
from checks.c07 import ctx as plotctx, setup, valid, PDF, DATED, Q

RULE = ('the drawing calls of Craterpdf.plot() and Craterpdf.violin_plot() on a symbolic distribution are collected from their value-flow terms: the curve drawn, the three filled areas (samples covered, '
        'outline above and below), the vertical origin, the axis limits, the tick positions and - for concrete age limits - the tick labels are compared with the reference definition; overplot() is run for every '
        'overplot type with and without its age shown, and the sequence plot for every dated type, to decide when a distribution is drawn, on which axes and how large')
FNS = ['Craterpdf.plot', 'Craterpdf.violin_plot', 'Craterplot.overplot', 'Craterplot.overplot_sequence_element']
LENS = {k: 9 for k in ('p_ts', 'p_dt', 'p_pdf', 'p_cdf', 'p_lam')}
P = 'spec.panel.'


def one(o, name, n, why, ax=None):
    e = calls(o, name)
    mine = [i for i in e if ax is not None and i.recv == ax]   # calls on the axes given (not on axes made in their absence)
    e = mine or e
    if len(e) != n:
        raise Undecided(f'{len(e)} calls of {name} where {n} were expected: {why}')
    return e


def edges(e, fill):
    """x, lower and upper outline of a fill_between call (in either order)"""
    names = ('x', 'y1', 'y2', 'where')
    d = dict(zip(names, e.args))
    d.update({k: v for k, v in dict(e.kw).items() if k in names})
    if 'where' in d and d['where'] != tm.NONE:
        raise Undecided('fill restricted by a mask')
    y1, y2 = d.get('y1'), d.get('y2', num(0))
    if d.get('x') is None or y1 is None:
        raise Undecided('arguments of fill_between not recognised')
    return d['x'], y1, y2


def obligations(tier):
    obs = []

    def panel(given):
        def f():
            c = Ctx()
            p, ax = pdfobj(c), c.any('ax')
            kw = dict(t_range=c.list(c.num('p_a'), tm.add(c.num('p_a'), c.num('p_b')))) if given else {}
            x = c.run((p, 'plot'), ax, **kw)
            where = 'Craterpdf.plot' + ('(t_range)' if given else '')
            pl = one(x, 'plot', 1, 'curve', ax)
            prs = [('curve, ages', pl[0].args[0], c.attr(x, p, 'ts')), ('curve, densities', pl[0].args[1], c.attr(x, p, 'pdf'))]
            fb = one(x, 'fill_between', 2, 'areas', ax)
            for e, ref, nm in zip(fb, ('onesigma', 'median'), ('1-sigma area', 'median line')):
                X, a, b = edges(e, nm)
                y = c.run(P + ref, p)
                prs += [(nm + ', ages', X, c.item(y, y.raw, 't')),
                        (nm + ', top', c.run(P + 'upper', a, b).val, c.item(y, y.raw, 'p')),
                        (nm + ', bottom', c.run(P + 'lower', a, b).val, c.run(P + 'lower', c.item(y, y.raw, 'p'), num(0)).val)]
            yl = one(x, 'set_ylim', 1, 'vertical origin', ax)
            bt = kwarg(yl[0], 'bottom', None)
            if bt is None and yl[0].args:
                bt = yl[0].args[0]
            if bt is None:
                raise Undecided('vertical limits not recognised')
            prs.append(('vertical origin', bt, num(0)))
            xl = one(x, 'set_xlim', 1, 'limits', ax)
            y = c.run(P + 'upper_age', p, *kw.values())
            ends = xl[0].args if len(xl[0].args) == 2 else None
            if ends is None:
                raise Undecided('age limits not recognised')
            prs += [('oldest age shown', ends[1], y.val), ('youngest age shown', ends[0], num(0))]
            tk = one(x, 'set_xticks', 1, 'ticks', ax)
            prs.append(('ticks', tk[0].args[0], c.run(P + 'ticks', y.val).val))
            return dict(methods=[equal(where, prs, lens=LENS)], functions=FNS[:1])
        return Ob('panel' + (' given range' if given else ''), f)
    obs += [panel(0), panel(1)]

    def labels(m):
        def f():
            c = Ctx()
            p, ax = pdfobj(c), c.any('ax')
            x = c.run((p, 'plot'), ax, t_range=c.list(num(0), num(m)))
            tk, lb = one(x, 'set_xticks', 1, 'ticks', ax), one(x, 'set_xticklabels', 1, 'labels', ax)
            y = c.run(P + 'readings', lb[0].args[0])
            v = [c.get(x, v) for v in (tk[0].args[0],)][0]
            ref = c.run(P + 'ticks', num(m)).val
            return dict(methods=[equal(f'Craterpdf.plot(ages to {m} Ga)', [('age written at each tick', c.run(P + 'close', y.val, ref).val, TRUE), ('one label per tick', tm.length(y.val), tm.length(ref)),
                                                                          ('ticks', v, ref)])], functions=FNS[:1])
        return Ob(f'labels {m}', f)
    obs += [labels(m) for m in (4.4, 3.7, 1.3, .9, .33, .05, .0042, 7.7e-4, 2.6e-5, 4.1e-7, 1.2e-9)]

    def violin():
        c = Ctx()
        p = pdfobj(c)
        x = c.run((p, 'violin_plot'), c.any('ax'), c.num('p_y'), c.num('p_w'), color='0')
        fb = one(x, 'fill_between', 3, 'areas')
        prs = []
        for i, (e, nm) in enumerate(zip(fb, ('whole distribution', '1-sigma area', 'median line'))):
            X, a, b = edges(e, nm)
            y = c.run(P + 'violin', p, c.num('p_y'), c.num('p_w'), i)
            prs += [(nm + ', ages', X, c.item(y, y.raw, 't')), (nm + ', top', c.run(P + 'upper', a, b).val, c.item(y, y.raw, 'top')), (nm + ', bottom', c.run(P + 'lower', a, b).val, c.item(y, y.raw, 'bottom'))]
        return dict(methods=[equal('Craterpdf.violin_plot', prs, lens=LENS)], functions=FNS[1:2])
    obs.append(Ob('violin', violin))

    def shown(t, show, pres):
        def f():
            c = plotctx()
            cc, cp, cps, r = setup(c, t, pres, show_age=show, age_left=c.bool('left'))
            c.set(cps, position=c.list(c.num('z_x0'), c.num('z_y0'), tm.add(c.num('z_x0'), c.num('p_dx')), tm.add(c.num('z_y0'), c.num('p_dy'))), decades=c.list(c.num('p_e0'), c.num('p_e1')))
            x = c.run((cp, 'overplot'), cps)
            q = [e for e in x.effects if e.name == PDF[4]]
            drawn = FALSE
            for e in q:
                drawn = tm.bor(drawn, e.pc)
            want = TRUE if t in ('poisson', 'b-poisson') and show else FALSE
            prs = [('distribution panel drawn', drawn, want)]
            if q and want == TRUE:
                A = c.run('spec.plot.age', cp, cps)
                for e in q:
                    ax = kwarg(e, 'ax', None)
                    prs.append(('distribution of', kwarg(e, 'self'), c.item(A, A.raw, 'pdf')))
                    if ax is None or not tm.contains(ax, lambda s: s.op == 'mcall' and s.a[0] == 'add_axes'):
                        raise Violation(FNS[2], 'the distribution is not drawn on axes of its own')
            return dict(methods=[equal(f'Craterplot.overplot({t}, age {"shown" if show else "hidden"})', prs, guard=valid(c))], functions=FNS[2:3])
        return Ob(f'panel shown {t} show_age={show} {pres}', f)
    for t in ('data',) + tuple(DATED):
        for show in (0, 1):
            obs.append(shown(t, show, 'differential'))
    obs.append(shown('poisson', 1, 'cumulative'))

    def rows(t, n, i, crossover):
        def f():
            c = plotctx()
            cc, cp, cps, r = setup(c, t, 'sequence', legend='A', crossover=crossover)
            mk = lambda ty, **k: c.new('Craterplot', c.dict(cratercount=cc, name='o', source='s', type=ty, **k))
            L = [mk('poisson') if k % 2 else mk('c-fit') for k in range(n)]
            L[i] = cp
            L = [mk('data'), *L[:1], mk('b-poisson', hide=1), *L[1:], mk('data')]
            a1, a2 = c.any('axa'), c.any('axb')
            c.set(cps, craterplot=c.list(*L), ax2=c.list(a1, a2))
            x = c.run((cp, 'overplot'), cps)
            where = f'Craterplot.overplot_sequence_element({t}, row {i + 1} of {n})'
            dy, w = div(num(n - i), num(n + 1)), div(num(.5), num(n + 1))
            prs = []
            axes = [a1, a2][:1 + crossover]
            if t in ('poisson', 'b-poisson'):
                q = [e for e in x.effects if e.name == PDF[5]]
                if len(q) != 1 + crossover:
                    raise (Violation(where, f'the distribution is drawn {len(q)} times on {len(axes)} axes') if all(e.pc == TRUE for e in q) else Undecided('drawing not recognised'))
                for e, a in zip(q, axes):
                    prs += [('axes', kwarg(e, 'ax'), a), ('row', kwarg(e, 'y'), dy), ('room', kwarg(e, 'w0'), w)]
            else:
                q = one(x, 'fill_between', 1 + crossover, 'bars')
                l = one(x, 'plot', 1 + crossover, 'best ages')
                h = tm.mul(num(.3), w)
                for e, m, a in zip(q, l, axes):
                    _, u, v = edges(e, 'bar')
                    top, low = tm.add(dy, h), tm.sub(dy, h)
                    prs += [('axes', e.recv, a), ('axes of the best age', m.recv, a), ('bar, top', c.run(P + 'upper', u, v).val, lit(top, top)), ('bar, bottom', c.run(P + 'lower', u, v).val, lit(low, low)),
                            ('best age, top', c.run(P + 'largest', m.args[1]).val, top), ('best age, bottom', c.run(P + 'smallest', m.args[1]).val, low)]
            return dict(methods=[equal(where, prs, guard=valid(c))], functions=FNS[3:])
        return Ob(f'row {t} {i + 1}/{n} crossover={crossover}', f)
    for t in DATED:
        obs += [rows(t, 1, 0, 0), rows(t, 3, 1, 1), rows(t, 4, 3, 0)]
    return obs
