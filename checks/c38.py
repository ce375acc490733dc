from analyser.harness import *
from analyser import harness, interp
from checks import c18, c23, c34
import importlib

RULE = ('every run of the scenarios of the other properties in which the elements of a set of texts are met one after the other is interpreted twice, meeting them in opposite orders (the order differs from process to process): value and effects '
        '(files, text, everything drawn or called, as a collection) must be the same; the file of randomness results and the texts drawn are built from known sets')
TECHNIQUE = 'abstract interpretation of every run under both orders of its sets, outcomes compared'
FNS = ['cli.main', 'cli.randomness_analysis', 'cli.write_output_files', 'Craterplot.oplot_n_sigma', 'Randomnessanalysis.write']
PROPS = ('c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c23', 'c28', 'c30', 'c32', 'c34', 'c35', 'c36', 'c37')


class Differs(Exception):
    pass


def form(I, st):
    def f(x):
        if x.op == 'ref':
            c = I.cell(st, x)
            return mk('object', c.kind, str(c.cls)) if c is not None else mk('object', 'none', '')
        return None
    return lambda t: tm.rewrite(t, f) if isinstance(t, T) else t


def told(o, recv=None):
    """value and effects of a run, apart from the order of the effects"""
    g = form(o.I, o.st)

    def sequence(x):
        return tuple(sequence(y) for y in x) if isinstance(x, (tuple, list)) else g(x)
    es = {}
    for e in o.effects:
        k = (e.name, sequence(e.args), sequence(e.kw), sequence(e.recv), len(e.loops))
        es[k] = es.get(k, 0) + 1
    return (sequence(o.val), es, g(o.I.freeze(o.st, recv)) if recv is not None else NONE)


RUNS = [0]


def method(f):
    return isinstance(f, str) and len(f.split('.')) > 2 and f.split('.')[-2][:1].isupper()


def twice(c, f, args, kw, before, o):
    if str(f if isinstance(f, str) else '').startswith('spec'):
        return
    hooks, harness.AFTER[:] = list(harness.AFTER), []

    def again(order):
        interp.ORDER[0] = order
        try:
            return told(c.run(f, *args, _st=before, **kw), f[0] if isinstance(f, tuple) else c.c(args[0]) if args and method(f) else None)
        finally:
            interp.ORDER[0] = None
    try:
        interp.MET[0] = 0
        a = again('up')
        if not interp.MET[0]:
            return
        if again('up') != a:
            return          # models that remember earlier calls: nothing to compare
        b = again('down')
        if b != a and again('up') == a:
            raise Differs(f if isinstance(f, str) else f[1] if isinstance(f, tuple) else tm.show(f), difference(a, b))
        RUNS[0] += 1
    finally:
        harness.AFTER[:] = hooks


def difference(a, b):
    if a[0] is not b[0] and a[0] != b[0]:
        x, y = tm.show(a[0]), tm.show(b[0])
        what = 'the value'
    elif a[1] == b[1]:
        x, y = tm.show(a[2]), tm.show(b[2])
        what = 'the object afterwards'
    else:
        k = next((k for k in list(a[1]) + list(b[1]) if a[1].get(k) != b[1].get(k)))
        o = [q for q in b[1] if q[0] == k[0] and a[1].get(q) != b[1].get(q) and q != k]
        what = f'a call of {k[0]}'
        x, y = tell(k), tell(o[0]) if o else '-'
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
    return f'{what}: ...{x[max(0, i - 40):i + 90]}... or ...{y[max(0, i - 40):i + 90]}... depending on the order in which the elements of a set are met'


def tell(k):
    return ', '.join(tm.show(x) if isinstance(x, T) else str(x) for x in list(k[1]) + [f'{n}={tm.show(v)}' for n, v in k[2]])


def runs(tier):
    out = []
    for prop in PROPS:
        obs = [o for o in importlib.import_module('checks.' + prop).obligations('quick') if o.tier == 'quick']
        step = c18.BATCH
        n = (len(obs) + step - 1) // step
        for i in range(n):
            def f(part=obs[i::n]):
                try:
                    fns = rerun(part)
                except Differs as e:
                    raise Violation(*e.args)
                return dict(methods=['order of sets'], functions=sorted(fns), runs=RUNS[0])
            out.append(Ob(f'order of sets {prop.upper()} {i}', f, limit=200))
    return out


def rerun(obs):
    harness.COMPARE[0] = False
    harness.AFTER[:] = [twice]
    fns = set()
    for ob in obs:
        try:
            r = ob.fn()
            fns |= set((r or {}).get('functions', []))
        except Differs:
            raise
        except Exception:
            pass
    harness.AFTER[:] = []
    return fns


RA = 'craterstats.Randomnessanalysis.Randomnessanalysis'
MAIN = 'craterstats.cli.randomness_analysis'
WTF = 'craterstats.gm.file.write_textfile.write_textfile'


def last(e, o):
    g = form(o.I, o.st)
    return e.name, tuple(g(x) for x in e.args), tuple((k, g(v)) for k, v in e.kw), NONE, len(e.loops)


def pair(name, where, scene):
    def f():
        r = []
        for order in ('up', 'up', 'down'):
            interp.ORDER[0] = order
            interp.MET[0] = 0
            try:
                x = scene()
                r.append((NONE, {last(*x): 1}, NONE) if hasattr(x[0], 'recv') else told(*x))
            finally:
                interp.ORDER[0] = None
        if r[0] != r[1]:
            raise Undecided(where + ': not comparable')
        if r[0] != r[2]:
            raise Violation(where, difference(r[0], r[2]))
        return dict(methods=['order of sets'], functions=[where], runs=1)
    return Ob(name, f)


def known(tier):
    out = []

    def randomness(given, present):
        def scene():
            c = Ctx(opaque=[WTF])
            I = c.I
            for q in (WTF, RA, MAIN, RA + '.montecarlo_split', RA + '.establish_hpx', RA + '.self_pp', RA + '.calculate_stats'):
                c.fn(q)
            bins = {'-1': (1, 2, 3), '0.5': (4, 5, 6)}
            made = lambda k: c.dict(**{b: c.list(*[num(x + k) for x in v]) for b, v in bins.items()})
            spec = lambda q: lambda I, st, args, kw, node: I.call_term(st, c.fn(q), args, kw, node)
            I.models[RA + '.montecarlo_split'] = spec('spec.order.split')
            I.models[RA + '.calculate_stats'] = spec('spec.order.stats')
            I.models[RA + '.establish_hpx'] = I.models[RA + '.self_pp'] = lambda I, st, args, kw, node: NONE
            mc = c.dict(**{m: c.dict(n_trials=num(3), trials=made(len(m))) for m in present})
            I.models[RA] = lambda I, st, args, kw, node: ra
            ra = c.obj('Randomnessanalysis', filename='in/q.scc', ra_file='out/z_ra.txt', montecarlo=mc, name='q', max_threads=num(3))
            args = c.obj('spec.writer.Geom', randomness_analysis=string('in/q.scc'), trials=num(3), measure=string(given) if given else NONE)
            cps = c.obj('Craterplotset', out=string('out/z'), trials=num(3), measure=I.new(c.st, 'set', lit(*[string(m) for m in (given.split(',') if given else ('m2cnd', 'sdaa'))])))
            o = c.run(MAIN, args, cps)
            if not calls(o, 'write_textfile'):
                raise Undecided('cli.randomness_analysis: no file of results written')
            return calls(o, 'write_textfile')[-1], o
        return pair(f'file of randomness results, measures {given or "not given"}, stored {sorted(present)}', 'cli.randomness_analysis', scene)
    for given in (None, 'sdaa,m2cnd', 'sdaa'):
        for present in ((), ('sdaa',), ('m2cnd', 'sdaa')):
            out.append(randomness(given, present))

    def strip(trials):
        def scene():
            c = Ctx()
            ms = ('m2cnd', 'sdaa')
            tab = c.dict(**{m: c.list(*[c.str(f's_{m}_{i}') for i in range(2)]) for m in ms}, bin=c.list(string('-1'), string('-.5')))
            cc = c.obj('Cratercount', n_sigma=tab, n_trials=c.list(*[string(t) for t in trials]))
            cp = c.obj('Craterplot', cratercount=cc, psym=num(1), colour=string('red'))
            o = c.run((cp, 'oplot_n_sigma'), c23.plots(c, ra_legend_drawn=FALSE))
            if not calls(o, 'text'):
                raise Undecided('Craterplot.oplot_n_sigma: no text drawn')
            return o,
        return pair(f'strip of randomness results, trials {trials}', 'Craterplot.oplot_n_sigma', scene)
    def measures():
        r = []
        for ms in (('m2cnd', 'sdaa'), ('sdaa', 'm2cnd')):
            c, s, o, seen = c34.setup('cumulative', 2, ra=ms)
            m = c.get(o, c.I.get_attr(o.st, s, 'measure', None))
            if m.op != 'lit':
                raise Undecided('Craterplotset.autoscale: measures not recognised')
            r.append(m.a)
        if any(len(x) != 2 or {e.a[0] for e in x} != {'m2cnd', 'sdaa'} for x in r):
            raise Violation('Craterplotset.autoscale', f'results of m2cnd and sdaa: the legend lists {[[e.a[0] for e in x] for x in r]}')
        return c, s, o, m

    def scaled():
        def scene():
            c, s, o, m = measures()
            return o, s
        return pair('measures named beside the strip', 'Craterplotset.autoscale', scene)
    out.append(scaled())
    out += [strip(('300', '1000')), strip(('300', '300'))]
    return out


def obligations(tier):
    return known(tier) + runs(tier)
