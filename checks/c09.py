from analyser.harness import *
from checks.c07 import OPAQUE, RET, CC
from checks.c08 import cpset, TYPES

RULE = ('the value-flow term of the text create_summary_table() writes and returns, for lists of overplots of every combination of types with symbolic settings, data and fits, is compared '
        'with the reference table: headings, one row per dated overplot, cells, ranges and age rank')
FNS = ['Craterplotset.create_summary_table', 'Craterplot.calculate_age']


WRITE = 'craterstats.gm.file.write_textfile.write_textfile'


def tctx():
    return Ctx(opaque=OPAQUE + [WRITE], returns=RET)


def table(c, types, name='x', resurf=None, hide=()):
    cps = []
    for i, t in enumerate(types):
        cc = c.obj('Cratercount', area=c.num(f'p_A{i}'), n_sigma=None, prebinned=c.bool(f'pre{i}'), tag=string(f'cc{i}'))
        d = dict(type=t, binning=c.str(f'binning{i}'), resurf=(resurf or {}).get(i, 0), hide=int(i in hide))
        cp = c.new('Craterplot', c.dict(cratercount=cc, name=name if name == '' else c.str(f'name{i}'), source=c.str(f'source{i}'), **d))
        c.set(cp, range=c.list(c.num(f'z_r{i}'), c.num(f'z_s{i}')), name='' if name == '' else c.str(f'name{i}'), source=c.str(f'source{i}'))
        cps.append(cp)
    S = cpset(c, 'differential')
    c.set(S, craterplot=c.list(*cps))
    return S


def obligations(tier):
    obs = []

    def one(types, **kw):
        def f():
            c = tctx()
            S = table(c, types, **kw)
            x = c.run((S, 'create_summary_table'), c.str('out'))
            y = c.run('spec.table.summary', S)
            w = calls(x, 'write_textfile')
            prs = [('table text', x.val, y.val)]
            if y.val is NONE:
                prs.append(('table written', bor(*[e.pc for e in w] or [FALSE]), FALSE))
            else:
                if len(w) != 1:
                    raise Undecided('writing of the table not recognised')
                prs.append(('text written', kwarg(w[0], 's'), y.val))
            return dict(methods=[equal('Craterplotset.create_summary_table' + str(types), prs)], functions=FNS)
        return Ob(f'summary table {" ".join(types)} {kw}', f)
    for t in TYPES:
        obs.append(one((t,)))
        obs.append(one((t,), name='', resurf={0: 1}))
    obs.append(one(('poisson', 'data', 'c-fit')))
    obs.append(one(('c-fit', 'poisson', 'c-fit'), resurf={0: 1}))
    obs.append(one(('d-fit', 'b-poisson', 'data', 'poisson'), hide=(1,)))
    return obs
