from analyser.harness import *
from checks.c02 import count
from checks.c04 import poly
from checks.c01 import symbins, guard

RULE = ('age distributions are built by the constructor of Craterpdf from a symbolic crater list (and from a pre-binned count), range and number of samples; the value-flow term '
        'of every stored array, of each interpolation on them and of the refusal of a buffered count without perimeter is compared with the reference definition')
FNS = ['Craterpdf.__init__', 'Craterpdf.t', 'Craterpdf.cumulative_fraction', 'Craterpdf.relative_probability', 'Craterpdf.gaussian_percentiles', 'Craterpdf.median1sigma',
       'Craterpdf.calculate_instantaneous_probability_ratio', 'gm.poisson']
CF = ['craterstats.Chronologyfn.Chronologyfn.' + m for m in ('t', 'a0', 'phi', 'N1')]
RET = {CF[0]: ('p', 'num'), CF[1]: ('s', 'num'), CF[2]: ('p', 'num'), CF[3]: ('s', 'num')}
COLS = ('k', 'lam', 'ts', 'dt', 'pdf', 'cdf')
N = 24


def pdfobj(c, tag=''):
    return c.obj('Craterpdf', ts=c.arr('p_ts' + tag), dt=c.arr('p_dt' + tag), pdf=c.arr('p_pdf' + tag), cdf=c.arr('p_cdf' + tag), k=c.num('p_k' + tag), lam=c.arr('p_lam' + tag))


def obligations(tier):
    obs = []

    def dist(src, bcc, k, lam):
        def f():
            c = Ctx(opaque=CF, returns=RET)
            pf, a = poly(c, 3)
            cf = c.inst('cf', 'Chronologyfn')
            r = c.list(c.num('p_r0'), c.num('p_r1'))
            A, P = c.num('p_A'), c.num('p_P')
            g = tm.lt(c.num('p_r0'), c.num('p_r1'))
            if src == 'list':
                cc = count(c, perimeter=P)
                lead = [c.list()]
                D = c.arr('p_d')
            else:
                cc = c.new('Cratercount')
                D = c.dict(**symbins(c))
                c.set(cc, area=A, perimeter=P, binned=D, prebinned=True, binning='pseudo-log')
                g = tm.band(g, guard(c))
            kw = {}
            if k:
                kw['k'] = c.num('z_k') if k == 'sym' else 0
            if lam:
                kw['lam'] = c.arr('p_L') if lam == 'array' else 0.
            try:
                o = c.new('Craterpdf', pf, cf, cc, r, bcc=bool(bcc), n_samples=N, **kw)
            except Undecided:
                raise
            o0 = c.run('spec.cc.noop')
            ref = 'spec.pdf.' + ('buffered_' if bcc else 'unbuffered_') + src
            if lam or k:
                kk = kw.get('k')
                if kk is None:
                    kk = c.run('spec.pdf.' + ('number' if src == 'list' else 'number_binned'), D, r).val
                if lam:
                    y = c.run('spec.pdf.distribution', pf, cf, kk, kw['lam'], N, True)
                elif not bcc:
                    y = c.run('spec.pdf.unbuffered_given', pf, cf, kk, A, r, N)
            else:
                args = (pf, cf, D, A) + ((P,) if bcc else ()) + (r, N)
                y = c.run(ref, *args)
            prs = [(n, c.attr(o0, o, n), c.item(y, y.raw, n)) for n in COLS]
            return dict(methods=[equal(f'Craterpdf.__init__({src}, bcc={bcc}, k={k}, lam={lam})', prs, guard=g, lens=dict(p_d=6, p_f=6, p_L=N))], functions=FNS)
        return Ob(f'distribution {src} bcc={bcc} k={k} lam={lam}', f)
    for src in ('list', 'binned'):
        for bcc in (0, 1):
            obs.append(dist(src, bcc, None, None))
        obs.append(dist(src, 0, 'sym', None))
        obs.append(dist(src, 0, 'zero', None))
        obs.append(dist(src, 0, 'sym', 'array'))
        obs.append(dist(src, 0, None, 'array'))

    def refusal(src, bcc, given):
        def f():
            c = Ctx(opaque=CF, returns=RET)
            pf, a = poly(c, 2)
            cf = c.inst('cf', 'Chronologyfn')
            r = c.list(c.num('p_r0'), c.num('p_r1'))
            if src == 'list':
                cc = count(c, perimeter=c.num('z_P') if given else None)
            else:
                cc = c.new('Cratercount')
                c.set(cc, area=c.num('p_A'), perimeter=c.num('z_P') if given else None, binned=c.dict(**symbins(c)), prebinned=True, binning='pseudo-log')
            x = c.run('craterstats.Craterpdf.Craterpdf', pf, cf, cc, r, bcc=bool(bcc), n_samples=N)
            refused = bnot(x.pc)
            return dict(methods=[equal(f'Craterpdf.__init__({src}, bcc={bcc}, perimeter {"given" if given else "missing"})', [('refused', refused, TRUE if bcc and not given else FALSE)],
                                       guard=guard(c) if src == 'binned' else TRUE, lens=dict(p_d=6, p_f=6))], functions=FNS)
        return Ob(f'refusal {src} bcc={bcc} perimeter={given}', f)
    for src in ('list', 'binned'):
        for bcc in (0, 1):
            for given in (0, 1):
                obs.append(refusal(src, bcc, given))

    def q(meth, ref, args, label=None):
        def f():
            c = Ctx()
            p = pdfobj(c)
            a = [x if not isinstance(x, str) else c.arr(x[2:]) if x.startswith('a:') else c.num(x) for x in args]
            x = c.run((p, meth), *a)
            y = c.run('spec.pdf.' + ref, p, *a) if ref != 'percentiles' else c.run('spec.pdf.percentiles', *a or [1])
            return dict(methods=[equal('Craterpdf.' + meth, [('value', x.val, y.val)], lens={k: 7 for k in ('p_ts', 'p_dt', 'p_pdf', 'p_cdf', 'p_lam')})], functions=FNS)
        return Ob(f'{meth} {args}', f)
    for m, r in (('t', 'time_at'), ('cumulative_fraction', 'fraction_at'), ('relative_probability', 'density_at')):
        obs += [q(m, r, ['p_x']), q(m, r, ['a:p_x'])]
    obs.append(q('median1sigma', 'best_low_high', []))
    obs += [q('gaussian_percentiles', 'percentiles', a) for a in ([], [1], [2], [3])]
    obs.append(q('calculate_instantaneous_probability_ratio', 'ratio', ['p_x']))
    return obs
