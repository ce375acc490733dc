from analyser.harness import *

RULE = ('chronology functions are built by their own constructor from symbolic coefficients; the value-flow term of every conversion (density, rate, offset, age from '
        'offset, age from density, plot data) is compared with its reference definition; the rate is compared with the symbolic time derivative of the density')
FNS = ['Chronologyfn.__init__', 'N1', 'phi', 'a0', 't', 'getplotdata', 'n1_coeff', 'phi_coeff']


def cfn(c, pos=False):
    p = [c.num(f'{"p_" if pos else ""}p{i}') for i in range(4)]
    return c.new('Chronologyfn', {'chronology': [dict(name='Y', coefficients=[9., 9., 9., 9.]), dict(name='X', coefficients=p), dict(name='Z', coefficients=[8., 8., 8., 8.])]}, 'X'), c.list(*p)


def obligations(tier):
    obs = []

    def conv(meth, spec, kind, kw=None):
        def f():
            c = Ctx()
            cf, p = cfn(c, True)
            nm = 'a0' if spec == 'age_a0' else 'p_t'       # an offset is a logarithm: of either sign
            t = c.arr(nm) if kind == 'array' else c.num(nm)
            x = c.run((cf, meth), **{kw: t}) if kw else c.run((cf, meth), t)
            y = c.run('spec.cf.' + spec, p, t)
            return dict(methods=[equal(f'Chronologyfn.{meth}', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'{meth}({kw or "t"}) of {kind}', f)
    for k in ('array', 'scalar'):
        obs += [conv('N1', 'N1', k), conv('phi', 'phi', k), conv('a0', 'a0', k), conv('t', 'age_a0', k, 'a0'), conv('t', 'age', k, 'n1'), conv('t', 'age_a0', k)]

    def both(v):
        def f():
            c = Ctx()
            cf, p = cfn(c, True)
            x = c.run((cf, 't'), v, c.num('p_n'))
            y = c.run('spec.cf.age_a0', p, v)
            return dict(methods=[equal('Chronologyfn.t(a0=0, n1=..)', [('value', x.val, y.val)])], functions=FNS)
        return Ob(f'offset {v} takes precedence over density', f)
    obs.append(both(0.))

    def inverse(kind):
        def f():
            c = Ctx()
            cf, p = cfn(c, True)
            t = c.arr('p_t')
            a = c.run((cf, 'a0'), t)
            x = c.run((cf, 't'), a.raw)
            n = c.run((cf, 'N1'), t)
            y = c.run('spec.cf.age', p, n.raw)
            return dict(methods=[equal('Chronologyfn.t(a0(t))', [('age recovered from offset', x.val, y.val)])], functions=FNS)
        return Ob('age(a0(t)) inverts the density curve', f)
    obs.append(inverse(0))

    def plot(phi, linear):
        def f():
            c = Ctx()
            cf, p = cfn(c, True)
            x = c.run((cf, 'getplotdata'), phi=phi, linear=linear)
            y = c.run('spec.cf.plotdata', p, phi, linear)
            return dict(methods=[equal(f'Chronologyfn.getplotdata(phi={phi}, linear={linear})', [('times and values', x.val, y.val)])], functions=FNS)
        return Ob(f'getplotdata phi={phi} linear={linear}', f)
    for a in (False, True):
        for b in (False, True):
            obs.append(plot(a, b))
    return obs
