from analyser.harness import *
from checks.c07 import OPAQUE, RET
from checks.c09 import WRITE
from checks.c08 import cpset

RULE = ('the value-flow term of calculate_sequence_probability() over symbolic distributions and of the text create_sequence_table() writes, for lists of overplots of different types and '
        'visibility over opaque age distributions, are compared with the reference definition')
FNS = ['Craterpdf.calculate_sequence_probability', 'Craterplotset.create_sequence_table', 'Craterplot.calculate_age']
Q = 'craterstats.'
SF = Q + 'gm.string.sigfigs.sigfigs'
OPQ = [o for o in OPAQUE if o not in (Q + 'Craterpdf.Craterpdf.t',)] + [WRITE, SF]
RETS = {**{k: v for k, v in RET.items() if k in OPQ}, SF: ('p', 'str'), Q + 'Chronologyfn.Chronologyfn.N1': ('p', 'num')}
PROPS = ('poisson', 'b-poisson', 'data', 'c-fit')


def obligations(tier):
    obs = []

    def prob():
        c = Ctx()
        dt = c.arr('p_dt')
        mk_ = lambda s: c.obj('Craterpdf', ts=mk('cumsum', dt), dt=dt, pdf=cat(lit(num(0)), c.arr('p_pdf' + s)), cdf=mk('cumsum', cat(lit(num(0)), c.arr('p_c' + s))), k=c.num('p_k' + s), lam=c.arr('p_l' + s))
        a, b = mk_('a'), mk_('b')
        x = c.run((a, 'calculate_sequence_probability'), b)
        y = c.run('spec.pdf.older', a, b)
        return dict(methods=[equal('Craterpdf.calculate_sequence_probability', [('probability that the first is older', x.val, y.val)], lens=dict(p_dt=5, p_pdfa=4, p_pdfb=4, p_ca=4, p_cb=4))], functions=FNS)
    obs.append(Ob('probability of one unit being older', prob))

    def table(types, hide=()):
        def f():
            c = Ctx(opaque=OPQ, returns=RETS, attrs={k: ('a', 'num', 'up' if k in ('ts', 'cdf') else 'pos') for k in ('ts', 'dt', 'pdf', 'cdf', 'lam')})
            cps = []
            for i, t in enumerate(types):
                cc = c.inst(f'cc{i}', 'Cratercount')
                d = dict(type=t, binning='pseudo-log', resurf=0, hide=int(i in hide))
                cp = c.new('Craterplot', c.dict(cratercount=cc, name=c.str(f'name{i}'), source=c.str(f'source{i}'), **d))
                c.set(cp, range=c.list(c.num(f'z_r{i}'), c.num(f'z_s{i}')), name=c.str(f'name{i}'), source=c.str(f'source{i}'))
                cps.append(cp)
            S = cpset(c, 'sequence')
            c.set(S, craterplot=c.list(*cps))
            x = c.run((S, 'create_sequence_table'), c.str('out'))
            y = c.run('spec.table.sequence', S)
            w = calls(x, 'write_textfile')
            where = 'Craterplotset.create_sequence_table ' + ', '.join(types) + (f' (hidden: {hide})' if hide else '')
            if y.val is NONE:
                prs = [('table written', bor(*[e.pc for e in w] or [FALSE]), FALSE)]
            else:
                if not w:
                    raise Violation(where, 'no table is written')
                if len(w) != 1:
                    raise Undecided('writing of the table not recognised')
                prs = [('file', kwarg(w[0], 'filename', kwarg(w[0], 'f')), c.str('out')), ('text written', kwarg(w[0], 's'), y.val)]
            return dict(methods=[equal(where, prs)], functions=FNS)
        return Ob(f'sequence table {" ".join(types)} {hide}', f, limit=240)
    obs += [table(('poisson', 'poisson')), table(('poisson', 'b-poisson', 'poisson')), table(('b-poisson', 'data', 'c-fit', 'poisson')), table(('poisson', 'poisson', 'poisson'), (1,)),
            table(('poisson', 'd-fit')), table(('poisson', 'b-poisson'), (0,))]
    return obs
