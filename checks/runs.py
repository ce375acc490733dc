"""a whole run of main() as the sequence of files it writes"""
from analyser.harness import *
from checks.c10 import functions, OPQ, FILENAME, RETS, Q
from checks.cli import *

P = Q + 'Craterplotset.Craterplotset.'
R = Q + 'Randomnessanalysis.Randomnessanalysis'
S = Q + 'Spatialcount.Spatialcount'
CC = Q + 'Cratercount.Cratercount'
DRAW = [P + m for m in ('draw', 'age_area_plot', 'compute_age_area', 'calculate_time_axis_params', 'create_summary_table', 'create_sequence_table', 'create_map_plotspace', 'autoscale')]
RA = [R] + [R + '.' + m for m in ('plot_n_sigma', 'plot_montecarlo_split', 'run_montecarlo', 'calculate_stats', 'write')]
SC = [S] + [S + '.' + m for m in ('plot', 'writeSCCfile', 'writeSHPfiles')] + [CC + '.WriteStatFile', CC + '.decode_range']
OP = [x for x in OPQ if x not in (FILENAME, Q + 'cli.write_output_files', Q + 'cli.set_default_filename')] + DRAW + RA + SC
RET = {k: v for k, v in RETS.items() if k != FILENAME}
RET[P + 'compute_age_area'] = ('s', 'inst:age_area')


def ctx(isdir=(), files=None):
    c = Ctx(opaque=OP, returns=RET, attrs={'filename': ('s', 'str'), 'ra_file': ('s', 'str'), 'name': ('s', 'str')})
    for q in DRAW + RA + SC:
        t = c.I.globalname(q)
        if t is None or t.op not in ('fn', 'cls'):
            raise Undecided('not found: ' + q)
    patch(c, 'craterstats.PATH', string('/LIB/'))

    def isd(I, st, args, kw, node):
        a = args[0] if args else list(kw.values())[0]
        if a.op == 'str':
            return TRUE if a.a[0].rstrip('/') in isdir else FALSE
        return None
    c.I.models['os.path.isdir'] = isd
    return c


def run(c, given, args=('arg',), ns=None):
    f = functions(c)
    n = prepare(c, given, f)
    for k, v in (ns or {}).items():
        c.I.set_attr(c.st, n, k, c.c(v))
    a = c.list(*[c.str(x) if isinstance(x, str) and x == 'arg' else x for x in args])
    return c.run('craterstats.cli.main', a), n, f


def kwarg_(e, name, pos=None):
    for k, v in e.kw:
        if k == name:
            return v
    return e.args[pos] if pos is not None and pos < len(e.args) else None


def _fname(e):
    v = kwarg_(e, 'filename')
    return v if v is not None else ([v for k, v in e.kw if k != 'self'] + list(e.args) + [None])[0]


def files(o, where):
    """[(kind, file name term, what it shows, effect)] in order; every write must be unconditional"""
    out = []
    fig = ('nothing',)
    for e in o.effects:
        n = e.name.rsplit('.', 1)[-1]
        full = e.name
        rec = None
        if full == P + 'draw':
            fig = ('plot',)
        elif full == P + 'create_map_plotspace':
            fig = ('empty map',)
        elif full == S + '.plot':
            fig = ('map', kwarg_(e, 'self', 0) if kwarg_(e, 'self') is not None else e.recv) if fig == ('empty map',) else ('map over', fig[0])
        elif full == P + 'age_area_plot':
            fig = ('age-area', kwarg_(e, 'plt'), kwarg_(e, 'age_area_result')) if fig == ('plot',) else ('age-area over', fig[0])
        elif full == R + '.plot_montecarlo_split':
            fig = ('trials', kwarg_(e, 'measure'), kwarg_(e, 'selection'))
        elif full == R + '.plot_n_sigma':
            fig = ('n sigma', kwarg_(e, 'measure'), NONE)
        elif n == 'savefig':
            rec = ('image', e.args[0] if e.args else kwarg_(e, 'fname'), fig, e)
        elif full == P + 'create_summary_table':
            rec = ('table', kwarg_(e, 'f_out'), None, e)
        elif full == P + 'create_sequence_table':
            rec = ('sequence', kwarg_(e, 'f_out') if kwarg_(e, 'f_out') is not None else ([v for k, v in e.kw if k not in ('self',)] + list(e.args) + [None])[0], None, e)
        elif full == Q + 'gm.file.write_textfile.write_textfile':
            rec = ('text', kwarg_(e, 'filename'), kwarg_(e, 's'), e)
        elif full == CC + '.WriteStatFile':
            rec = ('stat', _fname(e), kwarg_(e, 'self'), e)
        elif full in (S + '.writeSCCfile', S + '.writeSHPfiles'):
            rec = (n[5:8].lower(), _fname(e), kwarg_(e, 'self'), e)
        elif n == 'open' and any(v.op == 'str' and set(v.a[0]) & set('wax') for v in list(e.args)[1:] + [v for k, v in e.kw if k == 'mode']):
            rec = ('open', e.args[0] if e.args else kwarg_(e, 'file'), None, e)
        if rec:
            if e.loops:
                raise Undecided(f'{where}: files written in a loop over an unknown collection')
            if e.pc is FALSE:
                continue
            out.append(rec)
    return out
