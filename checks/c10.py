from analyser.harness import *
from checks.cli import *

RULE = ('the settings reaching the plot set (attributes of the Craterplotset passed to the output step) are extracted as value-flow terms of main() over a symbolic command line - the namespace is built from the '
        'options get_parser() declares, with symbolic option values - and compared with the documented meaning of every option, for every presentation')
Q = 'craterstats.'
FILENAME = Q + 'gm.file.filename.filename'
OPQ = [Q + 'Cratercount.Cratercount', Q + 'Chronologyfn.Chronologyfn', Q + 'Productionfn.Productionfn', Q + 'Epochs.Epochs', Q + 'cli.write_output_files', Q + 'gm.file.write_textfile.write_textfile',
       Q + 'Craterplot.Craterplot.get_data_range', FILENAME, Q + 'cli.set_default_filename']
RETS = {FILENAME: ('p', 'str'), Q + 'Craterplot.Craterplot.get_data_range': ('a', 'num', 4)}
FNS = ['cli.get_parser', 'cli.construct_cps_dict', 'cli.decode_abbreviation', 'cli.main', 'Craterplotset.__init__', 'Craterplotset.UpdateSettings', 'Craterplotset.autoscale']

PRES = ('cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty')
OWN_RANGE = {'chronology': ((4.5, 0), (-6, 2)), 'rate': ((4.5, 0), (-6, 3)), 'sequence': ((4.2, .01), (0, 0)), 'uncertainty': ((4.2, 1e-5), (-2, 8))}
HARTMANN = ((-3.15, 2.56), (-8, 5))
DEFAULT = dict(title='', isochrons='', legend='fnacr', print_dimensions='7.5x7.5', pt_size=9, font='Open Sans', ref_diameter=1, sig_figs=3, mu=1, invert=0, transparent=0, tight=0, style='natural', min_diameter=.15,
               n_samples=200, bins=0, ra_offset=0, ra_show=1, trials=1000, presentation='differential', chronology_system='Moon, Neukum (1983)', global_area=1e12, text_halo=1)
AREA = dict(Moon=3.79e7, Mars=1.44e8, Mercury=7.48e7)

# option: (setting, kind of value)
OPTIONS = {'-title': ('title', 'words'), '-isochrons': ('isochrons', 'str'), '-legend': ('legend', 'str'), '-pd': ('print_dimensions', 'str'), '--print_dimensions': ('print_dimensions', 'str'), '-pt_size': ('pt_size', 'float'),
           '--font': ('font', 'words'), '-ref_diameter': ('ref_diameter', 'float'), '-d_min': ('min_diameter', 'float'), '--min_diameter': ('min_diameter', 'float'),
           '-ns': ('n_samples', 'int'), '--n_samples': ('n_samples', 'int'), '-ra_offset': ('ra_offset', 'int'), '-xrange': ('xrange', 'range'), '-yrange': ('yrange', 'range')}
CHOICES = {'-sf': ('sig_figs', ('2', '3')), '--sig_figs': ('sig_figs', ('2', '3')), '-mu': ('mu', ('0', '1')), '-invert': ('invert', ('0', '1')), '-text_halo': ('text_halo', ('0', '1')), '-transparent': ('transparent', ('0', '1')),
           '-ra_show': ('ra_show', ('0', '1')), '-style': ('style', ('natural', 'root-2'))}
BARE = {'-mu': ('mu', 1), '-invert': ('invert', 1), '-text_halo': ('text_halo', 1), '-transparent': ('transparent', 1), '-ra_show': ('ra_show', 1), '-b': ('bins', 1), '--bins': ('bins', 1)}

ABBREVIATIONS = ('a', 'b', 'ab', 'ba', 'abc', 'ac', 'B', 'AC', 'd', 'x', 'r', 'R-', 'ate', 'mann')


def functions(c):
    """a functions list with two definitions of each kind"""
    cs = lambda n, b, i: c.dict(name=n, body=b, cf=c.str(f'cf{i}'), pf=c.str(f'pf{i}'))
    return c.dict(chronology_system=c.list(cs('Moon, Neukum (1983)', 'Moon', 0), cs('Mars, Hartmann & Daubar (2016)', 'Mars', 1), cs('Mercury, Neukum et al. (2001)', 'Mercury', 2), cs('Vesta, O\'Brien et al. (2014)', 'Vesta', 3), cs('Mars, Ivanov (2001)', 'Mars', 4)),
                  equilibrium=c.list(c.dict(name='Standard lunar equilibrium (Trask, 1966)'), c.dict(name='Hartmann (1984)')),
                  epochs=c.list(c.dict(name='Moon, Wilhelms (1987)'), c.dict(name='Mars, Michael (2013)')))


def ctx(opaque=(), returns=None):
    return Ctx(opaque=OPQ + list(opaque), returns={**RETS, **(returns or {})})


def main_run(c, given, f=None, ns=None):
    """outcome of main() for the given command line, and the attributes of the plot set that goes to the output step"""
    f = f or functions(c)
    extra, ns = ns, prepare(c, given, f)
    for k, v in (extra or {}).items():
        c.I.set_attr(c.st, ns, k, c.c(v))
    o = c.run('craterstats.cli.main', c.list(c.str('arg')))
    w = calls(o, 'write_output_files')
    S = None
    for e in w:
        for v in [v for _, v in e.kw] + list(e.args):
            if v.op == 'new' and v.a[0].endswith('.Craterplotset'):
                S = dict(v.a[1])
    return o, w, S, ns, f


def settings(c, given, f=None, where=''):
    o, w, S, ns, f = main_run(c, given, f)
    if o.aborts and not w:
        raise Violation(where, f'the run is refused: {o.aborts[0].exc} {tm.show(o.aborts[0].msg) if isinstance(o.aborts[0].msg, T) else o.aborts[0].msg}')
    if len(w) != 1 or S is None:
        raise Undecided('output step not recognised')
    return S, bor(*[a.pc for a in o.aborts]) if o.aborts else FALSE, f


def fl(c, t):
    t = c.c(t)
    return c.I.call_term(c.st, mk('ext', 'float'), [t], {}, None)


def it(c, t):
    return c.I.call_term(c.st, mk('ext', 'int'), [c.c(t)], {}, None)


def val(c, kind, toks):
    if kind == 'words':
        return tm.join(string(' '), lit(*toks))
    if kind == 'str':
        return toks[0]
    if kind == 'float':
        return fl(c, toks[0])
    if kind == 'int':
        return it(c, toks[0])
    if kind == 'range':
        return lit(*[fl(c, t) for t in toks])


def tokens(c, opt, kind):
    n = {'words': 3, 'range': 2}.get(kind, 1)
    return [c.str(f'{opt.strip("-")}{i}') for i in range(n)]


def pairs(c, S, exp, nothing):
    """compare the attributes in exp with those of the plot set"""
    prs = []
    for k, v in exp.items():
        if k not in S:
            raise Violation('cli.main', f'setting {k} does not reach the plot set')
        got = S[k]
        if tm.kind(got) == 'bool' or got in (TRUE, FALSE):
            got = ite(got, num(1), num(0))
        v = c.c(v)
        if v.op == 'ref':
            v = c.I.freeze(c.st, v)
        if v.op == 'tuple':
            v = lit(*v.a)
        if got.op == 'tuple':
            got = lit(*got.a)
        prs.append((k, got, v))
    prs.append(('refused', nothing, FALSE))
    return prs


def defaults(c, pres):
    d = {k: v for k, v in DEFAULT.items() if k not in ('chronology_system', 'global_area')}
    if pres:
        d['presentation'] = pres
    if pres in OWN_RANGE:
        d['xrange'], d['yrange'] = [list(OWN_RANGE[pres][0]), list(OWN_RANGE[pres][1])]
        d['text_halo'] = 0
    if pres == 'sequence':
        d['legend'] = 'A'
    return d


def obligations(tier):
    obs = []

    def add(name, fn, **kw):
        obs.append(Ob(name, fn, **kw))

    def none(pres):
        def f():
            c = ctx()
            given = {'-pr': [pres]} if pres else {}
            S, no, fns = settings(c, given, where=f'settings of a {pres or "plain"} command')
            exp = defaults(c, pres)
            exp = {k: v for k, v in exp.items() if not (pres == 'Hartmann' and k in ('xrange', 'yrange'))}
            return dict(methods=[equal(f'cli.main: defaults of {pres or "a plain command"}', pairs(c, S, exp, no))], functions=FNS)
        return f

    def everything(pres):
        def f():
            c = ctx()
            given = {'-pr': [pres]} if pres else {}
            exp = defaults(c, pres)
            for o, (s, k) in OPTIONS.items():
                if o in ('--print_dimensions', '--min_diameter', '--n_samples'):
                    continue
                given[o] = tokens(c, o, k)
                exp[s] = val(c, k, given[o])
            for o, (s, ch) in CHOICES.items():
                if o != '--sig_figs':
                    given[o] = [ch[0]]
                    exp[s] = int(ch[0]) if ch[0].isdigit() else ch[0]
            given['-b'] = []
            exp['bins'] = 1
            if pres == 'Hartmann':
                exp.pop('xrange'), exp.pop('yrange')
            S, no, fns = settings(c, given, where=f'all options with {pres}')
            return dict(methods=[equal(f'cli.main: every option given with {pres or "no presentation"}', pairs(c, S, exp, no))], functions=FNS)
        return f
    for p in (None,) + PRES:
        add(f'defaults {p}', none(p))
        add(f'all options {p}', everything(p))

    def single(o, s, toks, value, pres=None):
        def f():
            c = ctx()
            tk = toks(c) if callable(toks) else list(toks)
            S, no, fns = settings(c, {o: tk} if pres is None else {'-pr': [pres], o: tk}, where=f'option {o}')
            exp = defaults(c, pres)
            exp[s] = value(c, tk) if callable(value) else value
            return dict(methods=[equal(f'cli.main: option {o} alone' + (f' with {pres}' if pres else ''), pairs(c, S, exp, no))], functions=FNS)
        return f
    for o, (s, k) in OPTIONS.items():
        add(f'option {o}', single(o, s, lambda c, o=o, k=k: tokens(c, o, k), lambda c, t, k=k: val(c, k, t)))
    for o, (s, ch) in CHOICES.items():
        for v in ch:
            add(f'option {o} {v}', single(o, s, [v], int(v) if v.isdigit() else v))
    for o, (s, v) in BARE.items():
        add(f'option {o} bare', single(o, s, [], v))
    for o, s in (('-ra_offset', 'ra_offset'), ('-pt_size', 'pt_size'), ('-ref_diameter', 'ref_diameter'), ('-d_min', 'min_diameter'), ('-ns', 'n_samples')):
        add(f'option {o} 0', single(o, s, ['0'], 0))
    for v in ('0', '1'):
        add(f'option -text_halo {v} sequence', single('-text_halo', 'text_halo', [v], int(v), 'sequence'))
    for p in ('chronology', 'rate', 'uncertainty', 'sequence', 'R-plot'):
        for o in ('-xrange', '-yrange', '-legend'):
            k = OPTIONS[o][1]
            add(f'option {o} with {p}', single(o, OPTIONS[o][0], lambda c, o=o, k=k: tokens(c, o, k), lambda c, t, k=k: val(c, k, t), p))

    # ---- presentation abbreviations
    for v, p in [(p, p) for p in PRES] + [(p.lower(), p) for p in PRES] + [('cml', 'cumulative'), ('diff', 'differential'), ('R', 'R-plot'), ('hart', 'Hartmann'), ('chron', 'chronology'), ('seq', 'sequence'), ('uncert', 'uncertainty')]:
        if v == 'R':
            continue

        def f(v=v, p=p):
            c = ctx()
            S, no, fns = settings(c, {'--presentation': [v]}, where=f'presentation {v}')
            return dict(methods=[equal(f'cli.main: presentation {v}', pairs(c, S, dict(presentation=p), no))], functions=FNS)
        add(f'presentation {v}', f)

    # ---- systems
    def system(v, i, body):
        def f():
            c = ctx()
            S, no, fns = settings(c, {} if v is None else {'-cs': [v]}, where=f'chronology system {v}')
            F = c.I.freeze(c.st, fns)
            r = c.run('spec.cli.system', fns, num(i))
            exp = dict(chronology_system=c.get(r, r.I.index(r.st, r.raw, num(0))), cf=c.get(r, r.I.index(r.st, r.raw, num(1))), pf=c.get(r, r.I.index(r.st, r.raw, num(2))), ef=None, ep=None,
                       global_area=AREA.get(body, DEFAULT['global_area']))
            return dict(methods=[equal(f'cli.main: chronology system {v}', pairs(c, S, exp, no))], functions=FNS)
        return f
    for v, i, b in ((None, 0, 'Moon'), ('neukum83', 0, 'Moon'), ('HD16', 1, 'Mars'), ('mars, hartmann', 1, 'Mars'), ('mercury', 2, 'Mercury'), ('Vesta', 3, 'Vesta'), ('ivanov', 4, 'Mars'), ('mars', 4, 'Mars')):
        add(f'system {v}', system(v, i, b))

    def extra(opt, v, i, attr_, cls):
        def f():
            c = ctx()
            S, no, fns = settings(c, {'-cs': ['HD16'], opt: [v]}, where=f'{opt} {v}')
            r = c.run('spec.cli.extra', fns, c.c(attr_), num(i), num(1))
            return dict(methods=[equal(f'cli.main: {opt} {v}', pairs(c, S, {attr_: r.val, ('ep' if attr_ == 'ef' else 'ef'): None, 'equilibrium' if attr_ == 'ef' else 'epochs': ('Standard lunar equilibrium (Trask, 1966)', 'Hartmann (1984)')[i] if attr_ == 'ef' else ('Moon, Wilhelms (1987)', 'Mars, Michael (2013)')[i]}, no))], functions=FNS)
        return f
    for v, i in (('lunar', 0), ('trask', 0), ('hartmann', 1)):
        for o in ('-ef', '--equilibrium'):
            add(f'{o} {v}', extra(o, v, i, 'ef', 'Productionfn'))
    for v, i in (('moon', 0), ('mars', 1), ('Wilhelms', 0)):
        for o in ('-ep', '--epochs'):
            add(f'{o} {v}', extra(o, v, i, 'ep', 'Epochs'))
    
    # ---- unknown names are refused
    def refused(given, what):
        def f():
            c = ctx()
            o, w, S, ns, fns = main_run(c, given)
            ran = bor(*[e.pc for e in w]) if w else FALSE
            if ran is not FALSE:
                raise Violation('cli.main', f'{what} is accepted')
            return dict(methods=['value numbering'], functions=FNS)
        return f
    for k, v in (('-pr', 'nonsense'), ('-cs', 'pluto'), ('-ef', 'pluto'), ('-ep', 'pluto'), ('-pr', 'c')):
        add(f'{k} {v} refused', refused({k: [v]}, f'{k} {v}'))

    # ---- Hartmann plots take the ranges of the tabulated function, else the default, whatever the user gives
    def hartmann(user):
        def f():
            c = ctx(returns={})
            given = {'-pr': ['Hartmann']}
            if user:
                given.update({'-xrange': ['-1', '2'], '-yrange': ['-2', '3']})
            S, no, fns = settings(c, given, where='Hartmann plot')
            pf = S['pf']
            r = c.run('spec.cli.hartmann', pf)
            exp = dict(xrange=c.get(r, r.I.index(r.st, r.raw, num(0))), yrange=c.get(r, r.I.index(r.st, r.raw, num(1))))
            return dict(methods=[equal('cli.main: axis ranges of a Hartmann plot', pairs(c, S, exp, no))], functions=FNS)
        return f
    add('Hartmann ranges', hartmann(False))
    add('Hartmann ranges user', hartmann(True))

    # ---- formats, measures
    def setof(opt, toks, s, want):
        def f():
            c = ctx()
            S, no, fns = settings(c, {opt: toks}, where=f'{opt} {" ".join(toks)}')
            r = c.run('spec.cli.isset', S[s], c.list(*want))
            return dict(methods=[equal(f'cli.main: {opt}', [('set of ' + s, r.val, TRUE), ('refused', no, FALSE)])], functions=FNS)
        return f
    for toks in (['png'], ['tif', 'svg'], ['pdf', 'csv', 'png', 'png'], ['csv']):
        for o in ('-f', '--format'):
            add(f'{o} {" ".join(toks)}', setof(o, toks, 'format', sorted(set(toks))))
    for v in ('m2cnd', 'sdaa', 'sdaa,m2cnd'):
        add(f'-measure {v}', setof('-measure', [v], 'measure', sorted(v.split(','))))

    def dflt_sets():
        c = ctx()
        S, no, fns = settings(c, {}, where='plain command')
        a = c.run('spec.cli.isset', S['format'], c.list('csv', 'png'))
        b = c.run('spec.cli.isset', S['measure'], c.list('m2cnd', 'sdaa'))
        return dict(methods=[equal('cli.main: default formats', [('formats', a.val, TRUE), ('measures', b.val, TRUE)])], functions=FNS)
    add('default formats', dflt_sets)

    # ---- commands with overplots: user ranges survive scaling; buffered counts add the perimeter to an area legend
    def plots(pres, given, types, exp):
        def f():
            c = ctx()
            g = [('-pr', [pres])] if pres else []
            e = dict(exp)
            for k, v in given.items():
                if v == 'sym':
                    v = tokens(c, k, OPTIONS[k][1])
                    e[OPTIONS[k][0]] = val(c, OPTIONS[k][1], v)
                g.append((k, v))
            for t in types:
                g.append(('-p', [f'source=x.scc,type={t}']))
            S, no, fns = settings(c, g, where=f'{pres} with overplots {types}')
            return dict(methods=[equal(f'cli.main: {pres} plot with overplots {", ".join(types)}', pairs(c, S, e, FALSE))], functions=FNS)
        return f
    for p in ('cumulative', 'differential', 'R-plot', 'chronology', 'rate', 'sequence'):
        add(f'user ranges with overplots {p}', plots(p, {'-xrange': 'sym', '-yrange': 'sym'}, ['data', 'poisson'], {}))
        add(f'one user range with overplots {p}', plots(p, {'-yrange': 'sym'}, ['data'], {}))
        if p in OWN_RANGE:
            add(f'presentation ranges with overplots {p}', plots(p, {}, ['poisson'], dict(xrange=list(OWN_RANGE[p][0]), yrange=list(OWN_RANGE[p][1]))))
    for leg, types, want in (('fnacr', ['b-poisson'], 'fnacrp'), ('fncr', ['b-poisson'], 'fncr'), ('fnacr', ['poisson'], 'fnacr'), ('a', ['data', 'b-poisson'], 'ap')):
        add(f'legend {leg} with {" ".join(types)}', plots('differential', {'-legend': [leg]}, types, dict(legend=want)))

    # ---- abbreviations: the shortest entry containing the characters in order, in either case
    def abbrev(lst, amb, inv):
        def f():
            c = ctx()
            v = c.str('abbrev')
            s = c.list(*lst)
            x = c.run('craterstats.cli.decode_abbreviation', s, v, allow_ambiguous=amb, allow_invalid=inv)
            y = c.run('spec.cli.abbreviation', s, v, amb, inv)
            return dict(methods=[equal('cli.decode_abbreviation', [('index', ite(abort_pc(x), NONE, x.val), ite(abort_pc(y), NONE, y.val))], samples=80)], functions=FNS[2:3])
        return f
    for lst in (['ab', 'ba', 'abc'], ['AB', 'b'], ['x']):
        for amb in (True, False):
            for inv in (True, False):
                add(f'abbreviation in {lst} {amb} {inv}', abbrev(lst, amb, inv), limit=200)

    def concrete(lst, amb, inv):
        def f():
            c = ctx()
            prs = []
            for v in ABBREVIATIONS:
                x = c.run('craterstats.cli.decode_abbreviation', c.list(*lst), c.c(v), allow_ambiguous=amb, allow_invalid=inv)
                y = c.run('spec.cli.abbreviation', c.list(*lst), c.c(v), amb, inv)
                prs.append((f'index of {v!r}', ite(abort_pc(x), NONE, x.val), ite(abort_pc(y), NONE, y.val)))
            return dict(methods=[equal(f'cli.decode_abbreviation: in {lst}', prs)], functions=FNS[2:3])
        return f
    for lst in (['ab', 'ba', 'abc'], ['differential', 'Hartmann', 'R-plot', 'rate'], ['xab', 'ab', 'ABx']):
        for amb in (True, False):
            for inv in (True, False):
                add(f'abbreviations in {lst} {amb} {inv}', concrete(lst, amb, inv), limit=200)
    return obs
