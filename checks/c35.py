from analyser.harness import *
from checks.draw import scene, COUNT, TIME, P, Q
import fractions

RULE = ('the calls that set up the axes are extracted as effects of the plot-space methods, attributed to the axes object they are made on, the last call of each kind counting; limits, scales, titles, tick positions '
        'and tick labels so obtained are compared by value numbering with what the axes have to say for the ranges, presentation, style, reference diameter and title of the plot (ranges symbolic for limits, a grid of '
        'ranges for ticks); the legend is compared entry by entry with the entries the overplots made')
TECHNIQUE = 'effect extraction per axes object, constant propagation over scenario ranges, value numbering with random interpretation'
FNS = ['Craterplotset.CreatePlotSpace', 'Craterplotset.create_time_axis_plotspace', 'Craterplotset.calculate_time_axis_params', 'Craterplotset.draw', 'miscellaneous.Hartmann_bins', 'gm.plotting.ticks.ticks']
F = fractions.Fraction
HEAVY = [P + 'EstablishFontandScaling']
q = lambda v: num(F(str(v)))


class Axes:
    """axes made by a method, and the last call of each kind on each of them"""

    def __init__(self, c, s, method):
        self.c, self.s, self.where = c, s, 'Craterplotset.' + method
        self.made, self.legacy = [], {}

        def add(I, st, args, kw, node):
            t = c.any(f'axes{len(self.made)}')
            self.made.append((t, [I.freeze(st, a) for a in args[1:]], {k: I.freeze(st, v) for k, v in dict(kw).items()}))
            return t
        c.I.models['.add_axes'] = add
        self.o = c.run((s, method))
        for a in self.o.aborts:
            if a.pc is TRUE:
                raise Violation(self.where, f'ends with {a.exc}')
            raise Undecided(f'{self.where}: may end with {a.exc}')

    def get(self, name):
        return self.o.I.freeze(self.o.st, self.c.I.get_attr(self.o.st, self.s, name, None))

    def calls(self, ax, name):
        r = []
        for e in self.o.effects:
            if e.name.rsplit('.', 1)[-1] == name and e.recv is not None and self.over(e.recv) is ax and e.pc is not FALSE:
                if e.pc is not TRUE or e.loops:
                    raise Undecided(f'{self.where}: {name} under an unknown condition')
                r.append(e)
        return r

    def over(self, r):
        return r

    def part(self, ax, path, name):
        """calls on ax.<path>.<name>, e.g. ax.xaxis.set_major_locator"""
        r = []
        for e in self.o.effects:
            if e.name.rsplit('.', 1)[-1] == name and e.recv is not None and tm.show(e.recv).startswith(tm.show(ax) + '.' + path) and e.pc is not FALSE:
                if e.pc is not TRUE or e.loops:
                    raise Undecided(f'{self.where}: {name} under an unknown condition')
                r.append(e)
        return r

    def arg(self, ax, name, pos, *keys):
        """last value given for a parameter of a setter; None when never set"""
        v = None
        for e in self.calls(ax, name):
            kw = dict(e.kw)
            for k in keys:
                if k in kw:
                    v = kw[k]
            if isinstance(pos, int) and len(e.args) > pos:
                v = e.args[pos]
            elif len(e.args) == 1 and not isinstance(pos, int):
                a = self.o.I.freeze(self.o.st, e.args[0])
                if a.op in ('lit', 'tuple') and len(a.a) > pos[0]:
                    v = a.a[pos[0]]
            elif not isinstance(pos, int) and len(e.args) > pos[0]:
                v = e.args[pos[0]]
        return None if v is None else self.o.I.freeze(self.o.st, v)

    def limits(self, ax, xy):
        n, keys = (f'set_{xy}lim', (('left', 'xmin'), ('right', 'xmax')) if xy == 'x' else (('bottom', 'ymin'), ('top', 'ymax')))
        b = f'set_{xy}bound'
        r = []
        for i, ks in enumerate(keys):
            v = self.arg(ax, n, (i,), *ks)
            w = self.arg(ax, b, (i,), ('lower', 'upper')[i])
            if v is not None and w is not None:
                raise Undecided('limits set in two ways')
            r.append(v if v is not None else w)
        return r

    def ticks(self, ax, xy='x'):
        v, lab = self.arg(ax, f'set_{xy}ticks', 0, 'ticks'), self.arg(ax, f'set_{xy}ticks', 1, 'labels')
        l2 = self.arg(ax, f'set_{xy}ticklabels', 0, 'labels')
        return v, l2 if l2 is not None else lab


def plotset(pres, **kw):
    c = Ctx(opaque=HEAVY)
    d = dict(pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn'), ep=NONE, ef=NONE, presentation=string(pres), ref_diameter=num(1), ax=NONE, fig=NONE, grey=lit(*[c.str(f'grey{i}') for i in range(4)]),
             palette=lit(*[c.str(f'palette{i}') for i in range(4)]), legend='', isochrons='', text_halo=FALSE, invert=FALSE, sz_ratio=c.num('p_sz'), pt_size=c.num('p_pt'), scaled_pt_size=c.num('p_spt'), craterplot=c.list(),
             sig_figs=num(3), print_dimensions=string('7.5x7.5'), marker_def=c.list(), style=string('natural'), randomness=FALSE, ra_show=FALSE, bins=FALSE, title='', cm2inch=c.num('p_cm'),
             xrange=lit(num(-2), num(3)), yrange=lit(num(-4), num(2)), transparent=FALSE)
    d.update(kw)
    return c, c.obj('Craterplotset', **d)


def missing(x, what, where):
    if x is None:
        raise Violation(where, f'{what} is not set')
    return x


def obligations(tier):
    obs = []
    CS, TS = 'Craterplotset.CreatePlotSpace', 'Craterplotset.create_time_axis_plotspace'
    BIN = {'cumulative': 'Cumulative crater density, km$^{-2}$', 'differential': 'Differential crater density, km$^{-3}$', 'R-plot': 'Relative crater density (R)'}

    # ------------------------------------------------------------ limits
    def limits(pres, style, ranges):
        def f():
            c, s = plotset(pres, style=style)
            if ranges is None:
                x0, y0 = c.num('x0'), c.num('y0')
                xr, yr = lit(x0, tm.add(x0, c.num('p_dx'))), lit(y0, tm.add(y0, c.num('p_dy')))
                if pres in TIME:
                    xr = lit(xr.a[1], xr.a[0])
                c.I.models[Q + 'miscellaneous.Hartmann_bins'] = lambda I, st, args, kw, node: tup(I.newlist(st, lit(c.num('t0'), c.num('t1'))), I.newlist(st, lit(string('a'), string('b'))), c.num('p_m'), I.newlist(st, lit()))
                c.fn(Q + 'miscellaneous.Hartmann_bins')
            else:
                xr, yr = [lit(*[q(v) for v in r]) for r in ranges]
            c.set(s, xrange=xr, yrange=yr)
            A = Axes(c, s, 'CreatePlotSpace')
            ax = A.get('ax')
            (a, b), (d, e) = A.limits(ax, 'x'), A.limits(ax, 'y')
            for v, n in ((a, 'start of the x axis'), (b, 'end of the x axis'), (d, 'start of the y axis'), (e, 'end of the y axis')):
                missing(v, n, CS)
            ten = lambda t: tm.power(num(10), t)
            ps = [('start of the x axis', a, xr.a[0]), ('end of the x axis', b, xr.a[1]), ('start of the y axis', d, ten(yr.a[0])), ('end of the y axis', e, ten(yr.a[1]))]
            sc = A.arg(ax, 'set_yscale', 0, 'value')
            ps.append(('scale of the y axis', missing(sc, 'scale of the y axis', CS), string('log')))
            sx = A.arg(ax, 'set_xscale', 0, 'value')
            if sx is not None:
                ps.append(('scale of the x axis', sx, string('linear')))
            # a second axis carrying the minor ticks shows the same diameters
            for t, _, _ in A.made:
                if t is ax:
                    continue
                u, v = A.limits(t, 'x')
                if u is None or v is None:
                    continue
                lg = A.arg(t, 'set_xscale', 0, 'value')
                w = ten if lg is not None and lg is string('log') else (lambda z: z)
                ps += [('start of the axis with the minor ticks', u, w(xr.a[0])), ('end of the axis with the minor ticks', v, w(xr.a[1]))]
                pos = [A.made[i][1][0] if A.made[i][1] else A.made[i][2].get('rect') for i in range(len(A.made)) if A.made[i][0] in (ax, t)]
                ps.append(('place of the axis with the minor ticks', pos[1], pos[0]))
            return dict(methods=[equal(CS, ps)], functions=[CS])
        return f
    for pres in COUNT + TIME:
        for style in ('natural', 'root-2') if pres in COUNT else ('natural',):
            obs.append(Ob(f'{pres} {style}: the axes have the ranges of the plot', limits(pres, style, None if pres in COUNT and style != 'natural' else ((4.5, 0), (-6, 2)) if pres in TIME else ((-3, 2), (-4, 1)))))
            if pres in TIME or style == 'natural':
                obs.append(Ob(f'{pres} {style}: the axes have any ranges of the plot', limits(pres, style, None)))

    # ------------------------------------------------------------ titles
    def titles(pres, ref, binnings, title):
        def f():
            c, s = plotset(pres, title=title, ref_diameter=q(ref))
            c.set(s, craterplot=c.list(*[c.obj('Craterplot', binning=b, type=('data', 'c-fit', 'poisson')[i % 3], cratercount=c.obj('Cratercount', n_sigma=NONE)) for i, b in enumerate(binnings)]))
            if pres in TIME:
                c.set(s, xrange=lit(q(4.5), num(0)))
            A = Axes(c, s, 'CreatePlotSpace')
            ax = A.get('ax')
            r = f'{ref:g}'
            want = BIN.get(pres) or (f'Cumulative crater density N(>{r} km), km$^{{-2}}$' if pres == 'chronology' else f'Crater formation rate N(>{r} km), km$^{{-2}}$ Ga$^{{-1}}$' if pres == 'rate' else
                                     'Craters per $√$2-bin' + (' (equivalent)' if any(b != 'root-2' for b in binnings) else '') + ', km$^{-2}$')
            ps = [('title of the y axis', missing(A.arg(ax, 'set_ylabel', 0, 'ylabel'), 'title of the y axis', CS), string(want)),
                  ('title of the x axis', missing(A.arg(ax, 'set_xlabel', 0, 'xlabel'), 'title of the x axis', CS), string('Age, Ga' if pres in TIME else 'Diameter'))]
            t = A.arg(ax, 'set_title', 0, 'label')
            if title:
                ps.append(('title of the plot', missing(t, 'title of the plot', CS), string(title.replace('|', '\n'))))
            elif t is not None and t not in (NONE, string('')):
                raise Violation(CS, f'a plot without a title gets the title {tm.show(t)}')
            return dict(methods=[equal(CS, ps)], functions=[CS])
        return f
    for pres in COUNT:
        for bn in ((), ('root-2',), ('root-2', 'root-2'), ('root-2', 'pseudo-log'), ('root-2', 'root-2', 'none'), ('pseudo-log',), ('none',), ('4th root-2', 'root-2')) if pres == 'Hartmann' else (('pseudo-log',),):
            obs.append(Ob(f'{pres} of {", ".join(bn) or "nothing"}: titles', titles(pres, 1, bn, 'first|second')))
    for pres in TIME:
        for ref in (1, 0.5, 2.5, 10, 0.016, 100) if tier == 'quick' else (1, 0.5, 2.5, 10, 0.016, 100, 0.1, 20, 1.5, 0.25, 300):
            obs.append(Ob(f'{pres} for diameters above {ref} km: titles', titles(pres, ref, ('pseudo-log',), '')))
    obs.append(Ob('title with one line', titles('cumulative', 1, ('none',), 'Area 1')))
    obs.append(Ob('title with three lines', titles('R-plot', 1, ('none',), 'a|b|c')))

    # ------------------------------------------------------------ diameter ticks
    def ticks(pres, style, xr):
        def f():
            c, s = plotset(pres, style=style, xrange=lit(*[q(v) for v in xr]))
            A = Axes(c, s, 'CreatePlotSpace')
            ax = A.get('ax')
            v, l = A.ticks(ax)
            missing(v, 'tick positions', CS)
            missing(l, 'tick labels', CS)
            which = 'root2' if style == 'root-2' or pres == 'Hartmann' else 'decades'
            y = c.run('spec.axes.' + which, lit(*[q(z) for z in xr]))
            if y.val.op not in ('tuple', 'lit'):
                raise Undecided('specification not evaluated')
            return dict(methods=[equal(CS, [('tick positions', v, y.val.a[0]), ('tick labels', l, y.val.a[1])])], functions=[CS, 'miscellaneous.Hartmann_bins'])
        return f
    XR = [(-3, 2), (-2, 3), (-1, 1), (0, 3), (-3.15, 2.56), (-2.5, .5), (-3, 0), (-4, 4), (.2, 1.5), (-1.3, -.2), (.1, .5), (.31, .5)]
    if tier != 'quick':
        XR += [(-5, -1), (1, 6), (-.5, .5), (-2.7, 2.9), (-1, 0), (0, 1), (2, 3), (-3.02, 3.02), (-.3, .31), (-6, 6), (.31, .9), (-.29, .29)]
    for xr in XR:
        obs.append(Ob(f'natural ticks, range {xr}', ticks('cumulative', 'natural', xr)))
        obs.append(Ob(f'root-2 ticks, range {xr}', ticks('differential', 'root-2', xr)))
        obs.append(Ob(f'Hartmann ticks, range {xr}', ticks('Hartmann', 'natural', xr)))

    def ageticks(pres):
        def f():
            c, s = plotset(pres, xrange=lit(q(4.5), num(0)))
            A = Axes(c, s, 'CreatePlotSpace')
            ax = A.get('ax')
            v, l = A.ticks(ax)
            if v is not None or l is not None:
                raise Undecided('explicit ticks on the age axis')
            loc = A.part(ax, 'xaxis', 'set_major_locator')
            if loc:
                a = loc[-1].args[0]
                if not (a.op == 'call' and a.a[0].endswith('MultipleLocator')):
                    raise Undecided('locator of the age axis not recognised')
                return dict(methods=[equal(CS, [('spacing of ages', a.a[1][0] if a.a[1] else dict(a.a[2])['base'], num(1))])], functions=[CS])
            raise Undecided('no locator on the age axis')
        return f
    for pres in TIME:
        obs.append(Ob(f'{pres}: an age at every Ga', ageticks(pres)))

    # ------------------------------------------------------------ bin labels
    def binlabels(xr, edges):
        def f():
            c, s = plotset('cumulative', xrange=lit(*[q(v) for v in xr]), bins=TRUE)
            c.set(s, craterplot=c.list(c.obj('Craterplot', binning='x', type='c-fit', cratercount=c.obj('Cratercount', n_sigma=NONE)), c.obj('Craterplot', binning='pseudo-log', type='data', cratercount=c.obj('Cratercount', n_sigma=NONE))))
            G = Q + 'Cratercount.Cratercount.generate_bins'
            c.fn(G)
            seen = []

            def model(I, st, args, kw, node):
                seen.append((I.freeze(st, args[1]), I.freeze(st, args[2])))
                return lit(*[q(e) for e in edges])
            c.I.models[G] = model
            A = Axes(c, s, 'CreatePlotSpace')
            ax = A.get('ax')
            if not seen:
                raise Undecided('bins not obtained from generate_bins')
            ten = lambda v: tm.power(num(10), q(v))
            ps = [('binning labelled', seen[0][0], string('pseudo-log')), ('bins labelled from', tm.idx(seen[0][1], num(0)), ten(xr[0])), ('bins labelled to', tm.idx(seen[0][1], num(1)), ten(xr[1]))]
            tx = A.calls(ax, 'text')
            inside = [e for e in edges if 10 ** xr[0] < e < 10 ** xr[1]]
            got = {}
            for e in tx:
                x, t = A.o.I.freeze(A.o.st, e.args[0]), A.o.I.freeze(A.o.st, e.args[2])
                got.setdefault(x.id, (x, t))
            if len(got) != len(inside):
                raise Violation(CS, f'{len(got)} of the {len(inside)} bin boundaries in range are labelled')
            for (x, t), b in zip(got.values(), inside):
                ps += [(f'place of the label of the boundary {b}', x, tm.log10(q(b))), (f'label of the boundary {b}', t, string(f' {b:.1e}'[0:4]))]
            return dict(methods=[equal(CS, ps)], functions=[CS])
        return f
    obs.append(Ob('bin boundaries are labelled', binlabels((-1, 1), (0.05, 0.1, 0.15, 0.2, 0.5, 1, 2, 5, 10, 12))))
    obs.append(Ob('bin boundaries are labelled, some out of range', binlabels((0, 2), (0.5, 0.9, 1.5, 2, 50, 99, 150, 200))))

    # ------------------------------------------------------------ time axes
    def timeaxis(pres, xr, title):
        def f():
            c, s = plotset(pres, xrange=lit(*[q(v) for v in xr]), yrange=lit(num(-2), num(8)), title=title)
            A = Axes(c, s, 'create_time_axis_plotspace')
            ax, ax2 = A.get('ax'), A.get('ax2')
            lin, log = ax2.a[0], ax2.a[1]
            y = c.run('spec.axes.time', lit(*[q(z) for z in xr]))
            if y.val.op not in ('tuple', 'lit'):
                raise Undecided('specification not evaluated')
            tmax, tmin, cross, split = y.val.a[:4]
            ps = []
            a, b = A.limits(lin, 'x')
            ps += [('start of the linear ages', missing(a, 'start of the linear ages', TS), y.val.a[4]), ('end of the linear ages', missing(b, 'end of the linear ages', TS), cross)]
            v, l = A.ticks(lin)
            ps += [('ages at ticks', missing(v, 'ticks', TS), y.val.a[5]), ('labels of ages', missing(l, 'labels', TS), y.val.a[6])]
            if split is TRUE:
                a, b = A.limits(log, 'x')
                ps += [('start of the logarithmic ages', missing(a, 'start of the logarithmic ages', TS), cross), ('end of the logarithmic ages', missing(b, 'end of the logarithmic ages', TS), tmin)]
                ps.append(('scale of the logarithmic ages', missing(A.arg(log, 'set_xscale', 0, 'value'), 'scale of the logarithmic ages', TS), string('log')))
            elif split is not FALSE:
                raise Undecided('specification not evaluated')
            # the two parts meet, and together fill the frame
            rect = {}
            for t, args, kw in A.made:
                r = args[0] if args else kw.get('rect')
                rect[t] = [tm.idx(r, num(i)) for i in range(4)]
            R, L, G = rect[ax], rect[lin], rect[log]
            ps += [('left edge of the linear part', L[0], R[0]), ('meeting point of the parts', tm.add(L[0], L[2]), G[0]), ('right edge of the logarithmic part', tm.add(G[0], G[2]), tm.add(R[0], R[2])),
                   ('bottom of the linear part', L[1], R[1]), ('bottom of the logarithmic part', G[1], R[1]), ('height of the linear part', L[3], R[3]), ('height of the logarithmic part', G[3], R[3]),
                   ('share of the linear part', tm.div(L[2], R[2]), y.val.a[7])]
            (a, b), (d, e) = A.limits(ax, 'x'), A.limits(ax, 'y')
            ps += [('frame', tup(*[missing(z, 'range of the frame', TS) for z in (a, b, d, e)]), tup(num(0), num(1), num(0), num(1)))]
            d, e = A.limits(lin, 'y')
            ten = lambda v: tm.power(num(10), v)
            ps += [('range of the y axis', tup(missing(d, 'y range', TS), missing(e, 'y range', TS)), tup(num(0), num(1)) if pres == 'sequence' else tup(ten(num(-2)), ten(num(8))))]
            if pres == 'uncertainty':
                ps += [('title of the y axis', missing(A.arg(lin, 'set_ylabel', 0, 'ylabel'), 'title of the y axis', TS), string('Area, km$^2$')), ('scale of the y axis', missing(A.arg(lin, 'set_yscale', 0, 'value'), 'scale', TS), string('log'))]
            ps.append(('title of the x axis', missing(A.arg(ax, 'set_xlabel', 0, 'xlabel'), 'title of the x axis', TS), string('Age' if pres == 'sequence' else 'Actual age')))
            t = A.arg(ax, 'set_title', 0, 'label')
            if title:
                ps.append(('title of the plot', missing(t, 'title of the plot', TS), string(title.replace('|', '\n'))))
            elif t is not None and t not in (NONE, string('')):
                raise Violation(TS, f'a plot without a title gets the title {tm.show(t)}')
            return dict(methods=[equal(TS, ps)], functions=[TS, 'Craterplotset.calculate_time_axis_params', 'gm.plotting.ticks.ticks'])
        return f
    TR = [(4.2, .01), (4.2, 1e-5), (4.5, 0), (4, 3.7), (4.5, 4.3), (3, 0.02), (4.2, 3), (3.2, 1.7), (2, .5), (4.6, .3), (.01, 4.2), (3.9, 3.85), (4.5, 1), (4.1, 2)]
    if tier != 'quick':
        TR += [(4.4, .1), (4.4, .099), (4.3, 1.01), (3.6, 3.1), (0, 4), (3.01, 1e-3), (4.5, 2.5), (3.3, 3), (4.5, 4.45), (3, 3), (1, .001)]
    for xr in TR:
        for pres in ('sequence', 'uncertainty') if tier != 'quick' else ('sequence' if TR.index(xr) % 2 else 'uncertainty',):
            obs.append(Ob(f'time axis of a {pres} plot, range {xr}', timeaxis(pres, xr, 'a|b' if TR.index(xr) % 3 else '')))

    # ------------------------------------------------------------ nice ticks
    def nice(lo, hi, n, minor):
        def f():
            c = Ctx()
            c.fn(Q + 'gm.plotting.ticks.ticks')
            o = c.run('craterstats.gm.plotting.ticks.ticks', lit(q(lo), q(hi)), num(n), **(dict(max_minor=num(minor)) if minor else {}))
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation('gm.plotting.ticks.ticks', f'ends with {a.exc} for the range {lo}-{hi}')
            v = o.val
            mn = None
            if minor:
                if v.op not in ('tuple', 'lit') or len(v.a) != 2:
                    raise Undecided('ticks not evaluated')
                v, mn = v.a
            from analyser import reval
            I = reval.Interpretation('ticks', {}, 'grid')
            try:
                x = [float(z) for z in I.ev(v)]
                mn = None if mn is None else float(I.ev(mn))
            except Exception:
                raise Undecided('ticks not evaluated')
            W = 'gm.plotting.ticks.ticks'
            if tm.contains(v, lambda t: t.op == 'sym'):
                raise Undecided('ticks not evaluated')
            if not 2 <= len(x) <= max(n, 2):
                raise Violation(W, f'{len(x)} ticks for the range {lo}-{hi}, at most {n} asked for')
            st = [b - a for a, b in zip(x, x[1:])]
            if any(abs(d - st[0]) > 1e-9 * abs(st[0]) for d in st) or st[0] <= 0:
                raise Violation(W, f'ticks {x[:6]} for the range {lo}-{hi} are not evenly spaced')
            if x[0] > lo + 1e-9 * st[0] or x[-1] < hi - 1e-9 * st[0]:
                raise Violation(W, f'ticks {x[0]}..{x[-1]} do not span the range {lo}-{hi}')
            if x[0] <= lo - st[0] * (1 - 1e-9) or x[-1] >= hi + st[0] * (1 - 1e-9):
                raise Violation(W, f'ticks {x[0]}..{x[-1]} reach beyond the range {lo}-{hi} by more than a step')
            d = f'{st[0]:.6e}'
            if float(d.split('e')[0]) not in (1., 2., 5., 10.):
                raise Violation(W, f'step {st[0]:g} is not 1, 2 or 5 times a power of ten')
            k = x[0] / st[0]
            if abs(k - round(k)) > 1e-6:
                raise Violation(W, f'ticks {x[:4]} are not multiples of their step')
            if mn is not None and (mn != int(mn) or mn < 1):
                raise Violation(W, f'{mn} minor intervals')
            return dict(methods=['constant propagation'], functions=[W])
        return f
    N = [(0, 4.5, 6, 12), (3.7, 4, 6, 12), (4.3, 4.5, 6, 12), (1, 4, 6, 12), (3.85, 3.95, 6, 12), (0, 1, 5, None), (-3, 7, 6, None), (12, 1700, 5, None), (.013, .094, 4, None), (1.7, 3.2, 6, 12)]
    if tier != 'quick':
        N += [(a / 10, b / 10, n, 12) for a in range(0, 44, 4) for b in range(a + 1, 46, 5) for n in (4, 6)]
    for lo, hi, n, m in N:
        obs.append(Ob(f'ticks for {lo} to {hi}, at most {n}', nice(lo, hi, n, m)))

    # ------------------------------------------------------------ legend
    def legend(pres, labels, letters):
        where = 'Craterplotset.draw'

        def f():
            c, s, H, L = scene(pres, labels=labels, legend=letters)
            o = c.run((s, 'draw'))
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(where, f'ends with {a.exc} for the legend entries {labels}')
                raise Undecided(f'{where}: may end with {a.exc}')
            es = [e for e in o.effects if e.name.rsplit('.', 1)[-1] == 'legend' and e.pc is TRUE]
            if len(es) != 1:
                raise Violation(where, f'{len(es)} legends')
            e = es[0]
            kw = dict(e.kw)
            h = e.args[0] if e.args else kw.get('handles')
            l = e.args[1] if len(e.args) > 1 else kw.get('labels')
            if h is None or l is None:
                raise Undecided('legend not recognised')
            h, l = o.I.freeze(o.st, h), o.I.freeze(o.st, l)
            want = []
            i = 0
            while i < len(labels):
                if labels[i] == 'fit':
                    if set(letters) & set('crN'):
                        want.append((tup(H.a[i], H.a[i + 1]), labels[i + 1]))
                    i += 2
                else:
                    want.append((H.a[i], labels[i]))
                    i += 1
            want.reverse()
            if h.op not in ('lit', 'tuple') or l.op not in ('lit', 'tuple'):
                raise Undecided('legend not evaluated')
            if len(l.a) != len(want) or len(h.a) != len(want):
                raise Violation(where, f'{len(l.a)} legend entries instead of {len(want)} for {labels} with the legend {letters or "empty"}')
            ps = []
            for j, (hh, ll) in enumerate(want):
                g = h.a[j]
                if g.op in ('lit', 'tuple'):
                    g = tup(*g.a)
                ps += [(f'entry {j}', l.a[j], string(ll)), (f'symbol of entry {j}', g, hh)]
            return dict(methods=[equal(where, ps)], functions=[where])
        return f
    LE = [(), ('Area A',), ('fit', 'N(1)=1e-3'), ('Area A', 'fit', '3.5 Ga'), ('fit', '3.5 Ga', 'Area A', 'Area B'), ('Area A', 'Area B', 'fit', '1 Ga', 'fit', '2 Ga', 'Area C')]
    for lab in LE:
        for letters in ('', 'n', 'c', 'r', 'N', 'nacrN', 'na'):
            obs.append(Ob(f'legend {letters or "empty"} of {lab}', legend('cumulative', lab, letters)))
    obs.append(Ob('legend of a chronology plot', legend('chronology', ('N(>0.5 km)', 'N(>1 km)'), 'n')))
    return obs
