"""shared model of drawing: a plot as the sequence of things drawn onto its axes"""
from analyser.harness import *

Q = 'craterstats.'
P = Q + 'Craterplotset.Craterplotset.'
EP = Q + 'Epochs.Epochs.'
COUNT = ('cumulative', 'differential', 'R-plot', 'Hartmann')
TIME = ('chronology', 'rate')
PRES = COUNT + TIME + ('sequence', 'uncertainty')
PARTS = [P + 'CreatePlotSpace', P + 'create_time_axis_plotspace', P + 'plot_isochrons', EP + 'oplot', EP + 'sequence_oplot', EP + 'chronology_oplot', Q + 'Craterplot.Craterplot.overplot']
FUN = [Q + 'Productionfn.Productionfn.evaluate', Q + 'Productionfn.Productionfn.getplotdata', Q + 'Chronologyfn.Chronologyfn.getplotdata']
RET = {FUN[0]: ('a', 'num', 2)}
tm.RETURNS.update({FUN[2] + ':t': ('a', 'num'), FUN[2] + ':y': ('a', 'num')})


def scene(presentation, labels=(), **kw):
    """a plot set ready for draw(), with its frames and overplots opaque"""
    c = Ctx(opaque=PARTS + FUN, returns=RET, attrs={'name': ('s', 'str')})
    for q in PARTS + FUN:
        t = c.I.globalname(q)
        if t is None or t.op != 'fn':
            raise Undecided('not found: ' + q)
    d = dict(pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn'), ep=NONE, ef=NONE, presentation=string(presentation), ref_diameter=num(1), ax=c.any('ax'), fig=c.any('fig'), grey=lit(*[c.str(f'grey{i}') for i in range(4)]),
             palette=lit(*[c.str(f'palette{i}') for i in range(4)]), legend='', isochrons='', text_halo=FALSE, invert=FALSE, sz_ratio=c.num('p_sz'), pt_size=c.num('p_pt'), scaled_pt_size=c.num('p_spt'), craterplot=c.list(), sig_figs=num(3))
    d.update(kw)
    s = c.obj('Craterplotset', **d)
    H = lit(*[c.str(f'h{i}') for i in range(len(labels))])
    L = lit(*[string(x) if isinstance(x, str) else x for x in labels])
    c.I.models['.get_legend_handles_labels'] = lambda I, st, args, kw, node: tup(I.newlist(st, H), I.newlist(st, L))
    fn = c.fn(FUN[2])

    def cfplot(I, st, args, kw, node):
        b = I.bind_names(I.fns[c.I.globalname(FUN[2]).a[0]], args, kw)
        if b is None:
            raise Undecided('call of getplotdata not recognised')
        fk = tuple(sorted((k, I.freeze(st, v)) for k, v in b.items()))
        return tup(*[mk('call', FUN[2] + n, (), fk) for n in (':t', ':y')])
    c.I.models[FUN[2]] = cfplot
    return c, s, H, L


def flag(e, where):
    """is the effect unconditional?"""
    if e.pc is FALSE:
        return False
    if e.pc is not TRUE:
        raise Undecided(f'{where}: {e.name} under an unknown condition: {tm.show(e.pc)[:150]}')
    if e.loops:
        raise Undecided(f'{where}: {e.name} in a loop over an unknown collection')
    return True


def drawn(o, where, names):
    return [e for e in o.effects if e.name.rsplit('.', 1)[-1] in names and flag(e, where)]
