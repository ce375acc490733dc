from analyser.harness import *
from checks.c10 import main_run, functions, OPQ, FILENAME, RETS, Q
from checks.cli import *
import specs.plots as spec

RULE = ('the attributes of every Craterplot that main() hands to the output step are extracted as value-flow terms for sequences of -p options over every key, abbreviation and value, and over every carry-over of one key '
        'between overplots (symbolic values where the value is passed on), and compared with the documented overplot definitions')
FNS = ['cli.AppendPlotDict.__call__', 'cli.construct_plot_dicts', 'cli.cs_source', 'cli.decode_abbreviation', 'cli.main', 'Craterplot.__init__', 'Craterplot.UpdateSettings', 'gm.filename']
OP = [x for x in OPQ if x != FILENAME] + [Q + 'Cratercount.Cratercount.decode_range']
INT = ('snap', 'error_bars', 'hide', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron')


def ctx():
    c = Ctx(opaque=OP, returns={k: v for k, v in RETS.items() if k != FILENAME}, attrs={'filename': ('s', 'str')})
    patch(c, 'craterstats.PATH', string('/LIB/'))
    return c


def token(d):
    return ','.join(f'{k}={v}' for k, v in d.items())


def run(c, given, pres=None, inp=None, extra=()):
    f = functions(c)
    g = ([('-pr', [pres])] if pres else []) + list(extra) + [('-p', t if isinstance(t, list) else [token(t)]) for t in given]
    return main_run(c, g, f, **({'ns': dict(input=True, input_filename=inp)} if inp else {}))


def one(c, prs, i, t, p, S, invert):
    """compare one Craterplot with the expected definition"""
    if t.op != 'new' or not t.a[0].endswith('Craterplot'):
        raise Undecided('overplot not recognised')
    a = dict(t.a[1])
    for k in spec.KEYS + ('cratercount',):
        if k not in a:
            raise Violation('cli.construct_plot_dicts', f'overplot {i + 1} has no {k}')
    I = c.I
    for k in INT:
        prs.append((f'overplot {i + 1}: {k}', a[k], num(int(p[k]))))
    for k in ('name', 'type', 'binning', 'source'):
        prs.append((f'overplot {i + 1}: {k}', a[k], string(p[k])))
    prs.append((f'overplot {i + 1}: offset_age', a['offset_age'], lit(*[I.call_term(c.st, mk('ext', 'float'), [string(x)], {}, None) for x in p['offset_age']])))
    col = p['colour']
    if col[0] == '#':
        want = string(col)
    else:
        want = None
        for e in I.freeze(c.st, I.globalname('craterstats.PALETTE')).a:
            if e.a[2].a[0].lower() == col:
                want = e.a[1 if invert else 0]
        if want is None:
            raise Violation('constants.PALETTE', f'colour {col} is not in the palette')
    prs.append((f'overplot {i + 1}: colour', a['colour'], want))
    m = tm.idx(I.freeze(c.st, I.globalname('craterstats.MARKERS')), a['psym'])
    prs.append((f'overplot {i + 1}: symbol', tm.idx(m, num(1)), string(p['psym'])))
    cc = a['cratercount']
    fn = dict(cc.a[2]).get('filename') if cc.op == 'call' else dict(cc.a[1]).get('filename') if cc.op == 'new' else None
    if fn is None:
        raise Undecided('crater count of an overplot not recognised')
    prs.append((f'overplot {i + 1}: crater count source', fn, string(p['source'])))
    r = a['range']
    if r.op != 'call' or not r.a[0].endswith('decode_range'):
        raise Undecided('range of an overplot not recognised')
    kw = dict(r.a[2])
    names = ['self', 'r', 'binning', 'snap']
    pos = list(r.a[1])
    vals = list(pos) + [v for k, v in kw.items()]
    if len(vals) < 4:
        raise Undecided('range of an overplot not recognised')
    q = c.run('craterstats.Cratercount.Cratercount.decode_range', cc, c.list(*p['range']), p['binning'], int(p['snap']))
    prs.append((f'overplot {i + 1}: range', r, q.val))


def check(c, given, exp, pres=None, inp=None, extra=(), invert=False, label=''):
    o, w, S, ns, f = run(c, given, pres, inp, extra)
    if S is None:
        if o.aborts:
            raise Violation('cli.construct_plot_dicts', f'{label}: the definition is refused: {o.aborts[0].exc}')
        raise Undecided('output step not recognised')
    cp = S.get('craterplot')
    if cp is None or cp.op != 'lit':
        raise Undecided('overplots not recognised')
    if len(cp.a) != len(exp):
        raise Violation('cli.main', f'{label}: {len(cp.a)} overplots instead of {len(exp)}')
    prs = []
    for i, (t, p) in enumerate(zip(cp.a, exp)):
        one(c, prs, i, t, p, S, invert)
    prs.append(('refused', bor(*[a.pc for a in o.aborts]) if o.aborts else FALSE, FALSE))
    return prs


VALUES = dict(name=['Alpha', 'crater 3', 'A, B', 'p=q'], range=['[.2,.7]', '[b7,b-2]', '[1,inf]'], snap=['0', '1'], error_bars=['0', '1'], hide=['1', '0'], age_left=['1'], show_age=['0'], resurf=['1'], resurf_showall=['1'],
              isochron=['1'], offset_age=['[1,-2]', '[0,3.5]'], type=['data', 'd-fit', 'c-fit', 'poisson', 'b-poisson', 'differential-fit', 'cumulative-fit', 'buffered-poisson', 'poiss', 'cfit', 'b-p', 'diff'],
              binning=list(spec.BINNINGS) + ['10', 'pseudo', 'root', '4th'], colour=list(spec.COLOURS) + ['Red', 'bl', 'purple', '#12abEF', '#000000', 'yellow-g'],
              psym=list(spec.MARKERS) + list(spec.MARKERS.values()) + ['inverted', 'filled sq', 'point'])
ABBR = ['src', 'source', 'name', 'nam', 'range', 'ran', 'snap', 'type', 'typ', 'error', 'err', 'hide', 'colour', 'col', 'color', 'psym', 'binning', 'bin', 'age_left', 'show', 'show_age', 'resurf', 'resurf_showall', 'resurf_s', 'iso',
        'isochron', 'off', 'offset_age']
SAMPLE = dict(source='y.diam', name='Beta', range='[1,2]', snap='0', type='c-fit', error_bars='0', hide='1', colour='red', psym='fs', binning='root-2', age_left='1', show_age='0', resurf='1', resurf_showall='1', isochron='1',
              offset_age='[2,3]')


def obligations(tier):
    obs = []

    def add(name, given, label=None, **kw):
        def f():
            c = ctx()
            exp = spec.plots([g for g in given], kw.get('pres') or 'differential', kw.get('inputdir'))
            prs = check(c, given, exp, **{k: v for k, v in kw.items() if k != 'inputdir'}, label=name)
            return dict(methods=[equal('cli.construct_plot_dicts: ' + name, prs)], functions=FNS)
        obs.append(Ob(name, f))
    add('source only', [dict(source='x.scc')])
    add('map source', [dict(source='d/x_CRATER.shp')])
    add('map source with prefix', [dict(source='CRATER_x.shp')])
    for k, vs in VALUES.items():
        for v in vs:
            if k == 'name' and '=' in v:
                continue
            add(f'{k}={v}', [{'source': 'x.scc', k: v}])
    for k in ABBR:
        full = spec.abbr(k, spec.KEYS)
        add(f'abbreviation {k}', [{k: SAMPLE[full]}] if full == 'source' else [{'source': 'x.scc', k: SAMPLE[full]}])
    # every key, followed by overplots that do not mention it, and by ones that set it again
    for k, v in SAMPLE.items():
        first = {'source': 'x.scc', k: v}
        add(f'{k} carried or reset', [first, {'name': 'two'}, {'source': 'z.stat'}] if k != 'name' else [first, {'snap': '0'}, {'source': 'z.stat'}])
        add(f'{k} set later', [{'source': 'x.scc'}, {k: v}, {'show_age': '1'}])
    add('everything carried', [dict(SAMPLE, source='x.scc'), {'source': 'w.scc'}, {'hide': '0'}])
    add('everything changed', [SAMPLE, dict(source='x.scc', name='Gamma', range='[b1,b2]', snap='1', type='poisson', error_bars='1', hide='0', colour='blue', psym='o', binning='none', age_left='0', show_age='1', resurf='0',
                                            resurf_showall='0', isochron='0', offset_age='[0,1]'), dict(name='Delta')])
    # presentation
    for p in ('sequence', 'cumulative', 'R-plot', 'rate'):
        add(f'default type in {p}', [{'source': 'x.scc'}, {'name': 'two'}, {'type': 'b-poisson'}, {'source': 'y.scc'}], pres=p)
    add('given type in sequence', [{'source': 'x.scc', 'type': 'b-poisson'}, {'source': 'y.scc'}], pres='sequence')
    # inverted palette
    add('inverted colours', [{'source': 'x.scc'}, {'colour': 'blue2'}, {'colour': '#123456'}, {'colour': 'red'}], extra=[('-invert', ['1'])], invert=True)
    # sources
    add('sample source', [{'source': '%sample%/a.scc'}, {'source': 'b.scc'}])
    add('quoted source', [{'source': '"my dir/a.scc"'}, {'name': 'x'}])
    add('sample and quoted sources of an input file', [{'source': '%sample%/a.scc'}, {'name': 'x'}, {'source': '"my dir/b.scc"'}, {'source': '"/abs/c.scc"'}], inp='/abs/dir/in.cs', inputdir='/abs/dir/')
    for inp, d in (('/abs/dir/in.cs', '/abs/dir/'), ('/abs/d (1)/set(2).cs', '/abs/d (1)/'), ('in.cs', '')):
        add(f'sources of {inp}', [{'source': 'x.scc'}, {'name': 'n'}, {'source': '/else/y.scc'}, {'source': 'sub/z.scc'}, {'type': 'poisson'}], inp=inp, inputdir=d)
    # tokens split by the shell
    def split():
        c = ctx()
        given = [['source=my', 'file.scc,name=A', 'B,range=[1,', '2]'], ['name=C', ' D']]
        exp = spec.plots([{'source': 'my file.scc', 'name': 'A B', 'range': '[1, 2]'}, {'name': 'C  D'}])
        for p in exp:
            p['range'] = [x for x in p['range']]
        return dict(methods=[equal('cli.AppendPlotDict: values with spaces', check(c, given, exp, label='values with spaces'))], functions=FNS)
    obs.append(Ob('values with spaces', split))

    # passed on as given, for every value
    def symbolic():
        c = ctx()
        v = {k: c.str('v_' + k) for k in ('name', 'snap', 'hide', 'error_bars', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron')}
        fns = functions(c)
        from checks.cli import prepare
        o, w, S, ns, f = main_run(c, {}, fns, ns=dict(plot=c.list(c.dict(source='x.scc', **v))))
        if S is None or S['craterplot'].op != 'lit':
            raise Undecided('output step not recognised')
        a = dict(S['craterplot'].a[0].a[1])
        prs = []
        for k, x in v.items():
            want = x if k == 'name' else c.I.call_term(c.st, mk('ext', 'int'), [x], {}, None)
            prs.append((k, a[k], ite(tm.truth(x), x, string('x')) if k == 'name' else want))
        return dict(methods=[equal('cli.construct_plot_dicts: any value', prs)], functions=FNS)
    obs.append(Ob('any value', symbolic))

    def refused(name, given, **kw):
        def f():
            c = ctx()
            o, w, S, ns, fns = run(c, given, **kw)
            if (bor(*[e.pc for e in w]) if w else FALSE) is not FALSE:
                raise Violation('cli.construct_plot_dicts', f'{name} is accepted')
            return dict(methods=['value numbering'], functions=FNS)
        obs.append(Ob(name + ' refused', f))
    refused('overplot without a source', [{'type': 'data'}])
    refused('second overplot with the first source', [{'type': 'data'}, {'source': 'x.scc'}])
    refused('overplot without a source in a sequence', [{'name': 'n'}], pres='sequence')
    refused('overplot without a source in an input file', [{'name': 'n'}], inp='/abs/dir/in.cs')
    for v in ('#12345', '#1234567', '#12345g', '#'):
        refused('colour ' + v, [{'source': 'x.scc', 'colour': v}])
    refused('unknown key', [{'source': 'x.scc', 'qqq': '1'}])
    refused('unknown type', [{'source': 'x.scc', 'type': 'qq'}])
    refused('unknown binning', [{'source': 'x.scc', 'binning': 'qq'}])
    refused('unknown colour', [{'source': 'x.scc', 'colour': 'qq'}])
    refused('unknown symbol', [{'source': 'x.scc', 'psym': 'qq'}])

    def missing():
        c = ctx()
        o = c.run('craterstats.cli.AppendPlotDict.__call__', c.inst('self', 'craterstats.cli.AppendPlotDict'), c.any('parser'), c.obj('argparse.Namespace', plot=None), c.list('source'), '-p')
        if o.pc is not FALSE:
            raise Violation('cli.AppendPlotDict', 'an expression without = is accepted')
        return dict(methods=['value numbering'], functions=FNS[:1])
    obs.append(Ob('missing = refused', missing))
    return obs
