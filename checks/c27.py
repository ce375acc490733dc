from analyser.harness import *

RULE = ('the value-flow term of every text sigfigs(), str_age(), scientific_notation() and diameter_range() return, for symbolic values of every magnitude and every option, is compared '
        'with the reference notation')
FNS = ['sigfigs', 'str_age', 'scientific_notation', 'diameter_range']
Q = 'craterstats.'
SF = Q + 'gm.string.sigfigs.sigfigs'
AGE, SCI, RNG = Q + 'miscellaneous.str_age', Q + 'gm.string.scientific_notation.scientific_notation', Q + 'gm.string.diameter_range.diameter_range'


def mag(t, k):
    from fractions import Fraction
    return mul(t, num(Fraction(10) ** k))


def obligations(tier):
    obs = []
    magn = range(-13, 13) if tier != 'quick' else range(-11, 9, 1)

    def sig(neg, digits):
        def f():
            c = Ctx()
            prs = []
            for k in magn:
                v = mag(c.num('p_x'), k)
                v = tm.neg(v) if neg else v
                prs.append((f'{digits} figures of x*10^{k}', c.run(SF, v, digits).val, c.run('spec.text.fixed', v, digits).val))
            for k in (('0.0' if digits < 0 else '1.'), '9.996', '99.96', '0.09996', '1000.', '12345678.'):
                v = num(__import__('fractions').Fraction(k)) if not neg else num(-__import__('fractions').Fraction(k))
                prs.append((f'{digits} figures of {k}', c.run(SF, v, digits).val, c.run('spec.text.fixed', v, digits).val))
            return dict(methods=[equal('sigfigs', prs)], functions=FNS)
        return Ob(f'sigfigs neg={neg} digits={digits}', f)
    for d in (1, 2, 3, 4):
        for neg in (0, 1):
            obs.append(sig(neg, d))

    def seq():
        c = Ctx()
        x, y = c.num('p_x'), c.num('p_y')
        a = c.run(SF, c.list(x, y), 2)
        return dict(methods=[equal('sigfigs of a list', [(f'item {i}', c.item(a, a.raw, i), c.run('spec.text.fixed', v, 2).val) for i, v in enumerate((x, y))])], functions=FNS)
    obs.append(Ob('sigfigs of a list', seq))

    opq = dict(opaque=[SF], returns={SF: ('p', 'str')})

    def age(k, unit, simple, no_error, mu, ml):
        def f():
            c = Ctx(**opq)
            prs = []
            ks = [(mag(c.num('p_t'), j), f't*10^{j}') for j in range(-10, 2)] + [(num(__import__('fractions').Fraction(10) ** j), f'10^{j}') for j in (0, -3, -6, -9)] if k is None else [(mag(c.num('p_t'), k), f't*10^{k}')]
            for v, l in ks:
                for e1, e2 in ((mag(c.num('p_u'), -3), mag(c.num('p_l'), -3)), (num(0), num(0)), (c.num('p_u'), num(0))):
                    kw = dict(sf=c.num('n'), unit=unit, simple=simple, no_error=no_error, mu=mu, MathML=ml)
                    a = c.run(AGE, v, e1, e2, **kw)
                    b = c.run('spec.text.age', v, e1, e2, c.num('n'), unit, simple, no_error, mu, ml)
                    prs.append((f'age {l}', a.val, b.val))
            return dict(methods=[equal('str_age', prs, samples=30)], functions=FNS)
        return Ob(f'str_age unit={unit} simple={simple} no_error={no_error} mu={mu} MathML={ml}', f)
    for mu in (False, True):
        for ml in (False, True):
            for ne in (False, True):
                obs.append(age(None, None, False, ne, mu, ml))
    obs.append(age(None, None, True, True, False, False))
    obs.append(age(None, None, True, False, False, False))
    for u in ('Ga', 'Ma', 'ka', 'a'):
        obs.append(age(-1, u, False, False, False, False))
        obs.append(age(-4, u, False, False, False, True))

    def sci(unit, force, ml, err):
        def f():
            c = Ctx(**opq)
            prs = []
            for j in list(range(-9, 9)) + [None]:
                v = mag(c.num('p_v'), j) if j is not None else num(0)
                hi, lo = (mag(c.num('p_h'), j or 0), mag(c.num('p_l'), j or 0)) if err else (None, 0)
                for sf in (3, 2):
                    kw = dict(sf=sf, force=force, MathML=ml, unit=unit)
                    a = c.run(SCI, v, hi, lo, **kw) if err else c.run(SCI, v, **kw)
                    b = c.run('spec.text.density', v, hi, lo, sf, force, ml, unit)
                    prs.append((f'v*10^{j}', a.val, b.val))
            return dict(methods=[equal('scientific_notation', prs, samples=30)], functions=FNS)
        return Ob(f'scientific_notation unit={unit} force={force} MathML={ml} errors={err}', f)
    for u in (None, 'km-2', 'km2'):
        for ml in (False, True):
            for err in (0, 1):
                obs.append(sci(u, False, ml, err))
    obs.append(sci('km-2', True, False, 1))

    def rng(arr):
        def f():
            c = Ctx(**(opq if arr else {}))
            prs = []
            for j in range(-4, 4):
                for hi in (mag(c.num('p_h'), j), float('inf'), num(1)):
                    lo = mag(c.num('p_l'), j)
                    d = c.list(lo, hi) if arr else c.c((lo, c.c(hi)))
                    a = c.run(RNG, d)
                    b = c.run('spec.text.diameters', lo, hi, 2)
                    prs.append((f'range of 10^{j}', a.val, b.val))
            return dict(methods=[equal('diameter_range', prs)], functions=FNS)
        return Ob(f'diameter_range list={arr}', f)
    obs += [rng(0), rng(1)]
    return obs
