from analyser.harness import *
from checks.c08 import given, overplot, cpset, TYPES
from checks.c01 import guard

RULE = ('the values calculate_age() stores (age, offsets, counts, N(d_ref), bin range, distribution), what overplot() and the sequence plot draw (age text, fitted curve, isochron, '
        'age bars, distribution) and the legend entries, as value-flow terms over opaque data, fit, conversion and formatting functions, are compared with the reference definition '
        'for every overplot type, presentation and legend setting')
FNS = ['Craterplot.calculate_age', 'Craterplot.overplot', 'Craterplot.overplot_sequence_element', 'Craterplot.make_legend_label']
DATED = TYPES[1:]
Q = 'craterstats.'
PDF = [Q + 'Craterpdf.Craterpdf'] + [Q + 'Craterpdf.Craterpdf.' + m for m in ('median1sigma', 't', 'offset', 'plot', 'violin_plot')]
PFN = [Q + 'Productionfn.Productionfn.' + m for m in ('evaluate', 'getplotdata', 'getisochron', 'fit')]
CFN = [Q + 'Chronologyfn.Chronologyfn.' + m for m in ('t', 'a0', 'phi', 'N1')]
CC = [Q + 'Cratercount.Cratercount.' + m for m in ('getplotdata', 'resurf_adj', 'generate_bins', 'decode_range')]
TXT = [Q + 'miscellaneous.str_age', Q + 'gm.string.scientific_notation.scientific_notation', Q + 'gm.string.diameter_range.diameter_range', Q + 'gm.file.filename.filename']
OPAQUE = PDF + PFN + CFN + CC + TXT
RET = {PFN[0]: ('p', 'num'), PFN[3]: ('a', 'num', 3), PDF[1]: ('a', 'num', 3), CFN[0]: ('p', 'num'), CFN[1]: ('p', 'num'), TXT[0]: ('s', 'str'), TXT[1]: ('s', 'str'), TXT[2]: ('s', 'str'), TXT[3]: ('s', 'str'),
       CC[2]: ('a', 'num'), CC[0]: ('d', 'dict', dict(presentation=('s', 'str'), d=('a', 'num'), y=('a', 'num'), err=('a', 'num'), n=('s', 'num'), n_event=('s', 'num'), bin_range=('a', 'num', 2)))}
LEGEND = ('fnacprNA', '', 'c', 'r', 'N', 'n', 'a', 'A', 'p')


def ctx():
    return Ctx(opaque=OPAQUE, returns=RET)


def setup(c, t, pres, **kw):
    cc = c.inst('cc', 'Cratercount')
    r = c.list(c.num('z_r0'), c.num('z_r1'))
    d = dict(type=t, binning=c.str('binning'), resurf=c.bool('resurf'), resurf_showall=c.bool('showall'), colour=c.any('colour'), psym=1, offset_age=c.list(c.num('o0'), c.num('o1')))
    d.update({k: v for k, v in kw.items() if k not in ('legend', 'crossover')})
    cp = c.new('Craterplot', c.dict(cratercount=cc, name='x', source='s', **d))
    c.set(cp, range=r, **{k: d[k] for k in ('resurf', 'resurf_showall')})
    cps = cpset(c, pres, legend=kw.get('legend', 'r'), crossover=kw.get('crossover', 0), invert=c.bool('invert'))
    return cc, cp, cps, r


def valid(c):
    """the production function's validity limits are in order"""
    r = c.attr(c, c.inst('pf', 'Productionfn'), 'range')
    return tm.lt(tm.idx(r, num(0)), tm.idx(r, num(1)))


def obligations(tier):
    obs = []

    def age(t):
        def f():
            c = ctx()
            cc, cp, cps, r = setup(c, t, 'cumulative')
            x = c.run((cp, 'calculate_age'), cps)
            y = c.run('spec.plot.age', cp, cps)
            prs = [(k, c.attr(x, cp, k), c.item(y, y.raw, k)) for k in ('t', 'a0', 'n', 'n_event', 'n_d') + (('bin_range',) if t in ('c-fit', 'd-fit') else ('pdf',))]
            return dict(methods=[equal(f'Craterplot.calculate_age({t})', prs, guard=valid(c))], functions=FNS)
        return Ob(f'calculate_age {t}', f)
    obs += [age(t) for t in DATED]

    def fit(pres, form):
        def f():
            from checks.c04 import poly
            c = Ctx()
            pf, a = poly(c, 4)
            arrs = c.arr('p_y'), c.arr('p_d'), c.arr('p_e')
            p = c.dict(presentation=pres, y=arrs[0], d=arrs[1], err=arrs[2], n=c.num('p_n'))
            x = c.run((pf, 'fit'), p)
            q = [t for t in tm.subterms(x.val) if t.op == 'call' and t.a[0] == 'scipy.optimize.curve_fit']
            if len(q) != 1:
                raise Undecided('call of curve_fit not recognised')
            kw = dict(q[0].a[2])
            g = kw.get('f')
            D, A = c.arr('x'), c.num('a0')
            try:
                v = c.run((pf, g.a[1].a[0].rsplit('.', 1)[-1]) if g.op == 'bound' and g.a[1].op == 'fname' else g, D, A)
            except Exception as e:
                raise Undecided(f'fitted function not recognised: {e}')
            w = c.run((pf, form), D, A)
            best = c.num('best')
            y = c.run('spec.plot.limits', best, *arrs)
            got = tm.subst(x.val, {tm.idx(tm.idx(q[0], num(0)), num(0)): best})
            many = bnot(tm.eq(tm.length(arrs[0]), num(1)))
            return dict(methods=[equal(f'Productionfn.fit({pres})', [('fitted form', v.val, w.val), ('best, lower, upper', got, y.val)], lens=dict(p_y=4, p_d=4, p_e=4)),
                                 equal(f'Productionfn.fit({pres})', [('fitted abscissae', kw['xdata'], tm.log10(arrs[1])), ('fitted densities', kw['ydata'], tm.log10(arrs[0]))], guard=many)], functions=FNS + ['Productionfn.fit'])
        return Ob(f'fit {pres}', f)
    obs += [fit('cumulative', 'C10'), fit('differential', 'F10')]

    def drawn(t, pres, iso, left, showage, hide=0):
        def f():
            c = ctx()
            cc, cp, cps, r = setup(c, t, pres, isochron=iso, age_left=left, show_age=showage, hide=hide)
            x = c.run((cp, 'overplot'), cps)
            where = f'Craterplot.overplot({t}, {pres}, isochron={iso}, show_age={showage}, hide={hide})'
            if hide:
                return dict(methods=[equal(where, [('drawn', bor(*[e.pc for e in x.effects if e.name.rsplit('.', 1)[-1] in ('plot', 'text', 'errorbar', 'fill_between')] or [FALSE]), FALSE)])], functions=FNS)
            A = c.run('spec.plot.age', cp, cps)
            fit = c.run('spec.plot.fit_curve', cp, cps, A.raw, _st=A.st)
            prs = []
            pl = calls(x, 'plot')
            on_ax = [e for e in pl if e.name.startswith('.') or 'Craterpdf' not in e.name]
            curves = [e for e in on_ax if len(e.args) >= 2]
            if len(curves) != 2 + iso:
                raise Undecided('drawing calls not recognised: %d curves' % len(curves))
            want = [fit]
            if iso:
                want = [c.run('spec.plot.isochron', cp, cps, A.raw, _st=A.st)] + want
            for label, e, w in zip(['isochron', 'fitted curve'][-len(want):], curves, want):
                prs += [(label + ' drawn at', e.args[0], tm.log10(c.item(w, w.raw, 'd'))), (label + ' drawn', e.args[1], c.item(w, w.raw, 'y'))]
            tx = calls(x, 'text')
            if showage:
                st = c.run('spec.plot.age_text', A.raw, c.num('p_sf'), c.bool('mu'), _st=A.st)
                if len(tx) != 1 or len(tx[0].args) < 3:
                    raise Undecided('age text not recognised')
                prs.append(('age shown', tx[0].args[2], st.val))
            else:
                prs.append(('age shown', bor(*[e.pc for e in tx] or [FALSE]), FALSE))
            lab = c.run('spec.plot.joined', cp, cps, _st=x.st)
            prs.append(('legend entry', kwarg(curves[-1], 'label'), lab.val))
            if t in ('poisson', 'b-poisson'):
                q = [e for e in x.effects if e.name == PDF[4]]
                prs.append(('distribution shown', bor(*[e.pc for e in q] or [FALSE]), TRUE if showage else FALSE))
                if q:
                    prs.append(('distribution of', kwarg(q[0], 'self'), c.item(A, A.raw, 'pdf')))
            return dict(methods=[equal(where, prs, guard=valid(c))], functions=FNS)
        return Ob(f'overplot {t} {pres} isochron={iso} left={left} age={showage} hide={hide}', f)
    for t in DATED:
        for pres in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
            obs.append(drawn(t, pres, int(pres == 'cumulative'), int(pres == 'R-plot'), 1))
        obs.append(drawn(t, 'differential', 1, 0, 0))
    for t in TYPES:
        obs.append(drawn(t, 'differential', 0, 0, 1, 1))

    def legend(t, pres, L, **kw):
        def f():
            c = ctx()
            cc, cp, cps, r = setup(c, t, pres, legend=L)
            nd = c.arr('p_nd')
            pf = c.inst('pf', 'Productionfn')
            a0 = [c.num('a%d' % i) for i in range(3)]
            c.set(cp, t=c.list(*[c.num('p_t%d' % i) for i in range(3)]), a0=c.list(*a0), n=c.num('p_n'), n_event=c.num('p_ne'), name=kw.get('name', 'x'),
                  n_d=c.list(*[c.run((pf, 'evaluate'), 'cumulative', c.num('p_ref'), a).val for a in a0]))
            x = c.run((cp, 'make_legend_label'), cps)
            y = c.run('spec.plot.legend', cp, cps)
            return dict(methods=[equal(f'Craterplot.make_legend_label({t}, {pres}, {L!r})', [('legend entries', x.val, y.val)])], functions=FNS)
        return Ob(f'legend {t} {pres} {L!r} {kw}', f)
    for t in TYPES:
        for pres in ('differential', 'sequence'):
            for L in LEGEND:
                obs.append(legend(t, pres, L))
    obs.append(legend('data', 'differential', 'n', name=''))

    def element(t, crossover):
        def f():
            c = ctx()
            cc, cp, cps, r = setup(c, t, 'sequence', legend='A', crossover=crossover)
            hid = c.new('Craterplot', c.dict(cratercount=cc, name='h', source='s', type='poisson', hide=1))
            dat = c.new('Craterplot', c.dict(cratercount=cc, name='d', source='s', type='data'))
            oth = c.new('Craterplot', c.dict(cratercount=cc, name='o', source='s', type='c-fit'))
            c.set(cps, craterplot=c.list(dat, oth, hid, cp), ax2=c.list(c.any('axa'), c.any('axb')))
            x = c.run((cp, 'overplot'), cps)
            where = f'Craterplot.overplot_sequence_element({t})'
            A = c.run('spec.plot.age', cp, cps)
            tt = c.item(A, A.raw, 't')
            dy = div(num(1), num(3))
            prs = []
            if t in ('c-fit', 'd-fit'):
                fb, pl = calls(x, 'fill_between'), calls(x, 'plot')
                if not fb:
                    prs.append(('age bar drawn', FALSE, TRUE))
                    return equal(where, prs)
                if len(fb) != 1 + crossover or len(pl) != 1 + crossover:
                    raise Undecided('drawing calls not recognised')
                for e in fb:
                    prs.append(('age bar from, to', e.args[0], lit(tm.idx(tt, num(1)), tm.idx(tt, num(2)))))
                for e in pl:
                    prs.append(('best age', e.args[0], lit(tm.idx(tt, num(0)), tm.idx(tt, num(0)))))
            else:
                q = [e for e in x.effects if e.name == PDF[5]]
                if not q:
                    prs.append(('distribution drawn', FALSE, TRUE))
                    return equal(where, prs)
                if len(q) != 1 + crossover:
                    raise Undecided('drawing calls not recognised')
                for e in q:
                    prs += [('distribution of', kwarg(e, 'self'), c.item(A, A.raw, 'pdf')), ('drawn at', kwarg(e, 'y'), dy)]
            tx = calls(x, 'text')
            if len(tx) != 2:
                raise Undecided('texts not recognised')
            st = c.run('spec.plot.age_text', A.raw, c.num('p_sf'), c.bool('mu'), _st=A.st)
            prs += [('name at', tx[0].args[1], dy), ('age at', tx[1].args[1], dy), ('name', tx[0].args[2], string('x')), ('age shown', tx[1].args[2], st.val)]
            return dict(methods=[equal(where, prs, guard=valid(c))], functions=FNS)
        return Ob(f'sequence element {t} crossover={crossover}', f)
    for t in DATED:
        for k in (0, 1):
            obs.append(element(t, k))
    return obs
