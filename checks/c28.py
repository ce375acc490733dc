from analyser.harness import *

RULE = ('the value-flow terms of the epoch boundary times, of every band, line, name and time the epoch overplots draw, of getisochron() and of the plotted isochrons, over opaque '
        'chronology and production functions, are compared with the reference definition')
FNS = ['Epochs.__init__', 'Epochs.decode_formatting', 'Epochs.chronology_oplot', 'Epochs.sequence_oplot', 'Epochs.oplot', 'Productionfn.getisochron', 'Craterplotset.plot_isochrons']
Q = 'craterstats.'
PFN = [Q + 'Productionfn.Productionfn.' + m for m in ('evaluate', 'getplotdata', 'getisochron', 'fit')]
CFN = [Q + 'Chronologyfn.Chronologyfn.' + m for m in ('t', 'a0', 'phi', 'N1', 'getplotdata')]
TXT = [Q + 'miscellaneous.str_age']
RET = {PFN[0]: ('p', 'num'), PFN[3]: ('a', 'num', 3), CFN[0]: ('p', 'num'), CFN[1]: ('p', 'num'), CFN[2]: ('p', 'num'), CFN[3]: ('p', 'num'), TXT[0]: ('s', 'str'),
       PFN[1]: ('d', 'dict', dict(presentation=('s', 'str'), d=('a', 'num'), y=('a', 'num'))), PFN[2]: ('d', 'dict', dict(presentation=('s', 'str'), d=('a', 'num'), y=('a', 'num')))}
FORM = ('60', '0b', '1b', '0', '2b', '1r', '2')
FORM2 = ('90', '0', '1br', '2', '0b', '2', '0rb', '1')
NAMES = ('Copernican', 'Late Imbrian', 'Early Imbrian', 'Nectarian', 'Pre-Nectarian')


def ctx(*drop):
    return Ctx(opaque=[f for f in PFN + CFN + TXT if f not in drop], returns={k: v for k, v in RET.items() if k not in drop})


def epochs(c, n, form):
    """n boundaries after the present, ascending"""
    ts, t = [num(0)], num(0)
    for i in range(n):
        t = add(t, c.num(f'p_dt{i}'))
        ts.append(t)
    return c.obj('Epochs', name='e', epoch=c.list(*NAMES[:n + 1]), formatting=c.list(*form[:n + 2]), ref_diameter=None, density=None, time=c.list(*ts), reference='r',
                 pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn')), ts


def plotset(c, **kw):
    d = dict(ax=c.any('ax'), grey=c.any('grey'), pt_size=c.num('p_pt'), scaled_pt_size=c.num('p_spt'), xrange=c.list(c.num('x0'), c.num('x1')), yrange=c.list(c.num('y0'), c.num('y1')),
             pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn'), ef=c.any('ef'), presentation=c.str('pres'), sz_ratio=c.num('p_sz'), data_aspect=c.num('p_asp'), invert=c.bool('invert'))
    d.update(kw)
    return c.obj('Craterplotset', **d)


def obligations(tier):
    obs = []

    def init(given, n, name):
        def f():
            c = ctx()
            pf, cf = c.inst('pf', 'Productionfn'), c.inst('cf', 'Chronologyfn')
            ds, ns = [c.num(f'p_d{i}') for i in range(n)], [c.num(f'p_n{i}') for i in range(n)]
            d = dict(name='wanted', epoch=c.list(*NAMES[:n + 1]), formatting=c.list(*FORM[:n + 2]), reference='r')
            if given:
                d['time'] = c.list(*[c.num(f't{i}') for i in range(n + 1)])
            else:
                d.update(ref_diameter=c.list(*ds), density=c.list(*ns))
            other = c.dict(name='other', epoch=c.list(*NAMES[:2]), formatting=c.list(*FORM[:3]), reference='q', time=c.list(num(0), num(1)))
            src = c.dict(epochs=c.list(other, c.dict(name='zzz', epoch=c.list(*NAMES[:2]), formatting=c.list(*FORM[:3]), reference='q', time=c.list(num(0), num(1))), c.dict(**d), c.dict(name='wanted too', epoch=c.list(*NAMES[:2]), formatting=c.list(*FORM[:3]), reference='q', time=c.list(num(0), num(1)))))
            e = c.new('Epochs', src, name, pf, cf)
            x = Outcome()
            x.st = c.st
            T_ = c.attr(x, e, 'time')
            where = f'Epochs.__init__ ({"explicit times" if given else "densities"})'
            prs = [('number of boundaries', tm.length(T_), num(n + 1)), ('production function', c.attr(x, e, 'pf'), pf), ('chronology function', c.attr(x, e, 'cf'), cf),
                   ('styles', c.attr(x, e, 'formatting'), lit(*map(string, FORM[:n + 2]))), ('names', c.attr(x, e, 'epoch'), lit(*map(string, NAMES[:n + 1])))]
            if given:
                prs += [(f'time {i}', tm.idx(T_, num(i)), c.num(f't{i}')) for i in range(n + 1)]
            else:
                y = c.run('spec.epochs.boundaries', pf, cf, c.list(*ds), c.list(*ns))
                prs += [(f'time {i}', tm.idx(T_, num(i)), tm.idx(y.val, num(i))) for i in range(n + 1)]
            return dict(methods=[equal(where, prs)], functions=FNS)
        return Ob(f'boundaries given={given} n={n}', f)
    for n in (1, 2, 4):
        obs += [init(0, n, 'wanted'), init(1, n, 'wanted')]

    def group(x, name, form, when=None):
        es = calls(x, name)
        return effect_seq(x, lambda e: any(e is q for q in es) and (when is None or when(e)), form)

    def a(e, i, key=None):
        if len(e.args) > i:
            return e.args[i]
        v = kwarg(e, key, None) if key else None
        if v is None:
            raise Undecided('drawing call not recognised: ' + e.name)
        return v

    def spec(c, f, *args):
        return c.run('spec.epochs.' + f, *args).val

    def chron(phi, n, form):
        def f():
            c = ctx()
            ep, ts = epochs(c, n, form)
            cps = plotset(c)
            x = c.run((ep, 'chronology_oplot'), cps, phi=phi)
            phi_ = bool(phi)
            prs = [('bands', group(x, 'fill_between', lambda e: tup(a(e, 0), a(e, 1), a(e, 2), kwarg(e, 'color'))), spec(c, 'chronology_bands', ep, cps, phi_)),
                   ('dividing lines', group(x, 'plot', lambda e: tup(a(e, 0), a(e, 1), kwarg(e, 'color'), kwarg(e, 'lw', kwarg(e, 'linewidth')), kwarg(e, 'alpha'))), spec(c, 'chronology_lines', ep, cps, phi_)),
                   ('names', group(x, 'text', lambda e: tup(a(e, 0), a(e, 1), a(e, 2), kwarg(e, 'rotation'))), spec(c, 'chronology_names', ep, cps, phi_)),
                   ('times', group(x, 'annotate', lambda e: tup(a(e, 0), kwarg(e, 'xy'), kwarg(e, 'verticalalignment', kwarg(e, 'va')))), spec(c, 'chronology_times', ep, cps, phi_))]
            return dict(methods=[equal(f'Epochs.chronology_oplot(phi={phi})', prs)], functions=FNS)
        return Ob(f'chronology overplot phi={phi} n={n} {form[1]}', f)
    for phi in (False, True):
        for n, form in ((4, FORM), (4, FORM2), (2, FORM)):
            obs.append(chron(phi, n, form))

    def seq(cross, n, form, zero=False):
        def f():
            c = ctx()
            ep, ts = epochs(c, n, form)
            lo = num(0) if zero else c.num('p_lo')
            hi = add(lo, c.num('p_span'))
            cps = plotset(c, crossover=cross, ax2=c.list(c.any('axa'), c.any('axb')), t_min=lo, t_max=hi)
            x = c.run((ep, 'sequence_oplot'), cps)
            inside = lambda v: band(tm.lt(lo, v), tm.lt(v, hi))
            names = calls(x, 'text')
            if any(e.loops for e in names):
                raise Undecided('names drawn in a loop of unknown length')
            got = cat(*[ite(band(e.pc, inside(a(e, 0))), lit(tup(e.recv, a(e, 0), a(e, 2))), lit()) for e in names])
            prs = [('bands', group(x, 'fill_between', lambda e: tup(e.recv, a(e, 0), a(e, 1), a(e, 2), kwarg(e, 'color'))), spec(c, 'sequence_bands', ep, cps)),
                   ('dividing lines', group(x, 'plot', lambda e: tup(e.recv, a(e, 0), a(e, 1), kwarg(e, 'color'), kwarg(e, 'lw', kwarg(e, 'linewidth')))), spec(c, 'sequence_lines', ep, cps)),
                   ('names in view', got, spec(c, 'sequence_names', ep, cps))]
            return dict(methods=[equal('Epochs.sequence_oplot', prs)], functions=FNS)
        return Ob(f'sequence overplot crossover={cross} n={n} {form[1]}{" from age zero" if zero else ""}', f)
    for cross in (0, 1):
        for n, form in ((4, FORM), (3, FORM2), (2, FORM)):
            obs.append(seq(cross, n, form))
    obs += [seq(0, 4, FORM, True), seq(0, 2, FORM, True)]

    def count(n, form):
        def f():
            c = ctx()
            ep, ts = epochs(c, n, form)
            cps = plotset(c)
            x = c.run((ep, 'oplot'), cps)
            prs = [('bands', group(x, 'fill', lambda e: tup(a(e, 0), a(e, 1), kwarg(e, 'color'))), spec(c, 'count_bands', ep, cps)),
                   ('dividing lines', group(x, 'plot', lambda e: tup(a(e, 0), a(e, 1), kwarg(e, 'color'))), spec(c, 'count_lines', ep, cps))]
            return dict(methods=[equal('Epochs.oplot', prs)], functions=FNS)
        return Ob(f'count plot overplot n={n} {form[1]}', f)
    for n, form in ((4, FORM), (4, FORM2), (2, FORM)):
        obs.append(count(n, form))

    def iso(ef):
        def f():
            c = ctx(PFN[2])
            pf = c.inst('pf', 'Productionfn')
            e = c.inst('ef', 'Productionfn') if ef else NONE
            args = (c.str('pres'), c.num('a0'), e)
            x = c.run((pf, 'getisochron'), *args)
            y = c.run('spec.epochs.cut', pf, *args)
            prs = [(k, c.item(x, x.raw, k), c.item(y, y.raw, k)) for k in ('presentation', 'd', 'y')]
            return dict(methods=[equal('Productionfn.getisochron', prs)], functions=FNS)
        return Ob(f'getisochron equilibrium={ef}', f)
    obs += [iso(0), iso(1)]

    def isochrons(text, want):
        def f():
            c = ctx()
            cps = plotset(c, isochrons=text)
            x = c.run((cps, 'plot_isochrons'))
            times = c.list(*[c.c(t) for t, *_ in want])
            prs = [('curves', group(x, 'plot', lambda e: tup(a(e, 0), a(e, 1))), spec(c, 'isochron_curves', cps, times))]
            tx = calls(x, 'text')
            shown = [w for w in want if not w[1]]
            if len(tx) != len(shown):
                raise Violation('Craterplotset.plot_isochrons', f'{len(tx)} labels drawn for {len(shown)} isochrons that are not hidden ({text!r})')
            for e, (t, _, above, small) in zip(tx, shown):
                prs += [(f'label of {t} Ga', a(e, 2), spec(c, 'isochron_text', c.c(t))), (f'place of label {t} Ga', ite(e.pc, a(e, 1), ZERO_), ite(e.pc, spec(c, 'on_curve', cps, c.c(t), a(e, 0)), ZERO_)),
                        (f'side of label {t} Ga', kwarg(e, 'verticalalignment', kwarg(e, 'va')), string('bottom' if above else 'top')),
                        (f'size of label {t} Ga', kwarg(e, 'size', kwarg(e, 'fontsize')), mul(c.num('p_spt'), num(__import__('fractions').Fraction(5 if small else 7, 10))))]
            return dict(methods=[equal('Craterplotset.plot_isochrons', prs)], functions=FNS)
        return Ob(f'isochrons {text}', f)
    obs += [isochrons('1', [(1, 0, 0, 0)]), isochrons('.01a,1h,3.5', [(.01, 0, 1, 0), (1, 1, 0, 0), (3.5, 0, 0, 0)]), isochrons('4s,x,2as,.5h', [(4, 0, 0, 1), (2, 0, 1, 1), (.5, 1, 0, 0)])]

    def builtin():
        from analyser import config
        es = [b for k, b in config.blocks('functions.txt') if k == 'epochs']
        for b in es:
            name, n, f = b.get('name', '?'), len(b.get('epoch', ())), b.get('formatting', ())
            where = f'config/functions.txt: epochs {name!r}'

            def need(cond, what):
                if not cond:
                    raise Violation(where, what)
            need(n >= 2 and len(f) == n + 1, f'{len(f)} formatting entries for {n} epochs (one slant and one style per epoch needed)')
            need(all(x[:1].isdigit() and int(x[0]) <= 3 for x in f[1:]), 'a style without a shade 0..3')
            if 'time' in b:
                t = [float(x) for x in b['time']]
                need(len(t) == n, f'{len(t)} times for {n} epochs')
                need(t[0] == 0 and t == sorted(set(t)), 'times do not start from the present in ascending order')
            else:
                need(len(b.get('density', ())) == len(b.get('ref_diameter', ())) == n - 1, 'densities, diameters and epochs differ in number')
        if not es:
            raise Undecided('no epoch systems found in functions.txt')
        return dict(methods=['definition file'], functions=['config/functions.txt'])
    obs.append(Ob('built-in epoch systems', builtin))
    return obs


ZERO_ = num(0)
