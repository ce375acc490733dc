from analyser.harness import *

RULE = ('crater counts are built by their own constructor with a symbolic crater list; for each binning style (with and without bin offset) the value-flow term of every '
        'stored column, and of the boundaries returned by generate_bins, is compared with the reference definition of that style')
FNS = ['Cratercount.apply_binning', 'Cratercount.generate_bins', 'Cratercount.getplotdata', 'Cratercount.decode_range', 'gm.range']
STYLES = ('pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none')


def count(c, area='p_A', **kw):
    cc = c.new('Cratercount')
    return c.set(cc, diam=c.arr('p_d'), fraction=c.arr('p_f'), area=c.num(area), **kw)


COLS = ('d_min', 'd_max', 'bin_width', 'd_mean', 'n', 'n_event', 'ncum', 'ncum_event')


def obligations(tier):
    obs = []

    def ab(b, off):
        def f():
            c = Ctx()
            cc = count(c)
            o = dict(none=0., half=.5, sym=c.num('off'))[off]
            x = c.run((cc, 'apply_binning'), b, **({} if off == 'none' else dict(offset=o)))
            y = c.run('spec.cc.binned', b, c.arr('p_d'), c.arr('p_f'), o)
            B = c.I.get_attr(x.st, cc, 'binned', None)
            prs = [(k, c.item(x, B, k), c.item(y, y.raw, k)) for k in COLS]
            prs.append(('binning recorded', c.attr(x, cc, 'binning'), c.c(b)))
            return dict(methods=[equal(f'Cratercount.apply_binning({b!r}, offset={off})', prs, lens=dict(p_d=6, p_f=6))], functions=FNS)
        return Ob(f'apply_binning {b} offset={off}', f)
    for b in STYLES:
        for off in ('none', 'half') + (('sym',) if tier == 'thorough' else ()):
            obs.append(ab(b, off))

    def gb(b, ex):
        def f():
            c = Ctx()
            cc = count(c)
            x = c.run((cc, 'generate_bins'), b, c.arr('p_q'), **({} if ex is None else dict(expand=ex)))
            y = c.run('spec.cc.bins', b, c.arr('p_q'), 0., ex in (None, True))
            return dict(methods=[equal(f'Cratercount.generate_bins({b!r}, expand={ex})', [('boundaries', x.val, y.val)])], functions=FNS)
        return Ob(f'generate_bins {b} expand={ex}', f)
    for b in STYLES:
        for ex in (None, False):
            obs.append(gb(b, ex))
    return obs
