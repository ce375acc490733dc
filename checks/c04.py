from analyser.harness import *

RULE = ('production functions are built by their own constructor from a symbolic definition; the value-flow term of every form, of evaluate() '
        'and of getplotdata() is compared with its reference definition (polynomials with 1-6 coefficients, tables of 3-6 classes at every 1-km index)')
FNS = ['Productionfn.__init__', 'Productionfn.evaluate', 'polynomial_*', 'hartmann_*', 'getplotdata', 'bin_bias_correction', 'gm.poly']


def poly(c, n, rng=False):
    a = [c.num(f'c{i}') for i in range(n)]
    d = dict(name='X', coefficients=a)
    if rng:
        d['range'] = [c.num('p_r0'), c.num('p_r1')]
    return c.new('Productionfn', {'production': [d], 'equilibrium': [d]}, 'X'), c.list(*a)


def tabl(c, n, i1):
    h = [c.num(f'p_h{i}') for i in range(n)]
    return c.new('Productionfn', {'production': [dict(name='X', type='tabular incremental root-2', H=h, index_1km=i1)]}, 'X'), c.list(*h)


def obligations(tier):
    obs = []

    def form(n, meth, spec, arg):
        def f():
            c = Ctx()
            pf, a = poly(c, n)
            d = c.arr('p_d')
            x = c.run((pf, meth), d, c.num('a0'))
            y = c.run('spec.pf.' + spec, a, d, c.num('a0'))
            return dict(methods=[equal(f'Productionfn.{meth} (polynomial, {n} coefficients)', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'polynomial {meth} n={n}', f)
    for n in (4,) if tier == 'quick' else (2, 3, 4, 6, 12):
        for m, s in (('C', 'poly_C'), ('F', 'poly_F'), ('R', 'poly_R'), ('H', 'poly_H'), ('C10', 'poly_C10'), ('F10', 'poly_F10')):
            obs.append(form(n, m, s, 'd'))

    def ev(pres, a0):
        def f():
            c = Ctx()
            pf, a = poly(c, 4)
            d = c.arr('p_d')
            z = dict(none=None, zero=0., sym=c.num('a0'))[a0]
            x = c.run((pf, 'evaluate'), pres, d, z) if a0 != 'none' else c.run((pf, 'evaluate'), pres, d)
            y = c.run('spec.pf.evaluate', a, pres, d, z)
            return dict(methods=[equal(f'Productionfn.evaluate({pres}, a0={a0})', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'evaluate {pres} a0={a0}', f)
    for pres in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        for a0 in ('none', 'zero', 'sym'):
            obs.append(ev(pres, a0))

    def tab(n, i1, meth, spec):
        def f():
            c = Ctx()
            pf, h = tabl(c, n, i1)
            d = c.arr('p_d')
            x = c.run((pf, meth), d, c.num('a0'))
            y = c.run('spec.pf.' + spec, h, i1, d, c.num('a0'))
            return dict(methods=[equal(f'Productionfn.{meth} (tabulated, {n} classes, 1 km at {i1})', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'tabulated {meth} n={n} i={i1}', f)
    for n, i1 in ((5, 2),) if tier == 'quick' else ((3, 0), (3, 2), (4, 1), (5, 2), (6, 4)):
        for m, s in (('C', 'tab_C'), ('F', 'tab_F'), ('R', 'tab_R'), ('H', 'tab_H')):
            obs.append(tab(n, i1, m, s))

    def tabev(pres, spec, a0):
        def f():
            c = Ctx()
            pf, h = tabl(c, 4, 1)
            d = c.arr('p_d')
            z = dict(none=None, sym=c.num('a0'))[a0]
            x = c.run((pf, 'evaluate'), pres, d, z)
            y = c.run('spec.pf.' + spec, h, 1, d, 0. if a0 == 'none' else z)
            return dict(methods=[equal(f'Productionfn.evaluate({pres}) of a tabulated function', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'tabulated evaluate {pres} a0={a0}', f)
    for pres, s in (('cumulative', 'tab_C'), ('differential', 'tab_F'), ('R-plot', 'tab_R'), ('Hartmann', 'tab_H')):
        for a0 in ('none', 'sym'):
            obs.append(tabev(pres, s, a0))

    def plot(pres, a0, rng):
        def f():
            c = Ctx()
            pf, a = poly(c, 3, True)
            z = dict(none=None, zero=0., sym=c.num('a0'))[a0]
            r = c.list(c.num('p_q0'), c.num('p_q1')) if rng else None
            x = c.run((pf, 'getplotdata'), pres, z, r)
            y = c.run('spec.pf.plotdata', a, pres, z, c.num('p_q0') if rng else None, c.num('p_q1') if rng else None, c.num('p_r0'), c.num('p_r1'))
            g = tm.band(tm.lt(num(0), c.num('p_r0')), tm.lt(c.num('p_r0'), c.num('p_r1')))
            return dict(methods=[equal(f'Productionfn.getplotdata({pres}, a0={a0}, range={"given" if rng else "none"})', [('value', x.val, y.val)], guard=g)], functions=FNS)
        return Ob(f'getplotdata {pres} a0={a0} range={rng}', f)
    for pres in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
        for a0 in ('none', 'zero', 'sym'):
            for rng in (0, 1):
                obs.append(plot(pres, a0, rng))

    def span(kind):
        def f():
            c = Ctx()
            if kind == 'tabulated':
                pf, h = tabl(c, 5, 2)
                y = c.run('spec.pf.tab_range', h, 2)
            elif kind == 'defined':
                pf, a = poly(c, 3, True)
                y = c.run('spec.pf.pair', c.num('p_r0'), c.num('p_r1'))
            else:
                pf, a = poly(c, 3)
                y = c.run('spec.pf.pair', 1e-4, 2e3)
            o = c.run((pf, '__str__'))
            x = c.attr(o, pf, 'range')
            return dict(methods=[equal(f'Productionfn.range ({kind})', [('first diameter', tm.idx(x, num(0)), tm.idx(y.val, num(0))), ('last diameter', tm.idx(x, num(1)), tm.idx(y.val, num(1)))])],
                        functions=FNS)
        return Ob(f'range of the function: {kind}', f)
    for kind in ('tabulated', 'defined', 'unbounded'):
        obs.append(span(kind))
    return obs
