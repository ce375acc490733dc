from checks.draw import *
from checks import c10
from checks.c10 import settings, AREA
from analyser import config
import importlib, re

RULE = ('lookup tables are evaluated from the module source by constant propagation and compared, choice by choice, with what each choice means; the elements drawn for every presentation are extracted as effects '
        'of draw() with its parts opaque; the handling of every presentation, overplot type, binning, symbol, colour, body and measure by the command line and by the evaluation code is decided by value numbering of the '
        'same terms as the properties about the values themselves, one obligation per choice')
FNS = ['Craterplotset.draw', 'cli.construct_cps_dict', 'cli.construct_plot_dicts', 'Craterplotset.autoscale', 'Randomnessanalysis.trial']

RANGES = {'cumulative': ((-3, 2), (-4, 1)), 'differential': ((-3, 2), (-5, 5)), 'R-plot': ((-2, 3), (-4, 1)), 'Hartmann': ((-3.15, 2.56), (-8, 5)), 'chronology': ((4.5, 0), (-6, 2)), 'rate': ((4.5, 0), (-6, 3)),
          'sequence': ((4.2, .01), (0, 0)), 'uncertainty': ((4.2, 1e-5), (-2, 8))}
TYPES = {'data': 'data', 'differential-fit': 'd-fit', 'cumulative-fit': 'c-fit', 'poisson': 'poisson', 'buffered-poisson': 'b-poisson'}


def table(c, name):
    t = c.I.globalname('craterstats.' + name)
    if t is None:
        raise Undecided('table not found: ' + name)
    return c.I.freeze(c.st, t)


def seq(t, what):
    if t.op not in ('lit', 'tuple') or any(x.op not in ('str', 'num', 'lit', 'tuple') for x in t.a):
        raise Undecided('table not recognised: ' + what)
    return t.a


def obligations(tier):
    obs = []

    def tables():
        c = Ctx()
        P0 = seq(table(c, 'PRESENTATIONS'), 'PRESENTATIONS')
        for nm, i in (('DEFAULT_XRANGE', 0), ('DEFAULT_YRANGE', 1)):
            d = table(c, nm)
            for p in PRES:
                v = c.I.freeze(c.st, c.I.index(c.st, d, string(p), None))
                w = RANGES[p][i]
                if v.op not in ('lit', 'tuple') or any(x.op != 'num' for x in v.a):
                    if not any(x is string(p) for x in P0):
                        raise Violation('constants', f'no presentation {p}')
                    raise Undecided(f'{nm}[{p}] not recognised: {tm.show(v)[:100]}')
                if tuple(float(x.a[0]) for x in v.a) != tuple(float(x) for x in w):
                    raise Violation(f'constants.{nm}', f'default range of {p} is {[float(x.a[0]) for x in v.a]}, not {list(w)}')
        return dict(methods=['constant propagation'], functions=['constants'])
    obs.append(Ob('default axis ranges', tables))

    def pairs():
        c = Ctx()
        a, b = seq(table(c, 'OPLOT_TYPES'), 'OPLOT_TYPES'), seq(table(c, 'OPLOT_TYPES_SHORT'), 'OPLOT_TYPES_SHORT')
        if len(a) != len(b):
            raise Violation('constants', f'{len(a)} overplot types have {len(b)} short names')
        for x, y in zip(a, b):
            if x.a[0] in TYPES and y.a[0] != TYPES[x.a[0]]:
                raise Violation('constants', f'overplot type {x.a[0]} has the short name {y.a[0]}')
        m, s = seq(table(c, 'PLANETS'), 'PLANETS'), seq(table(c, 'SURFACE_AREAS'), 'SURFACE_AREAS')
        if len(m) != len(s):
            raise Violation('constants', f'{len(m)} bodies have {len(s)} areas')
        for x, y in zip(m, s):
            w = AREA.get(x.a[0])
            if w and abs(float(y.a[0]) / w - 1) > 1e-6:
                raise Violation('constants', f'surface area of {x.a[0]} is {float(y.a[0]):g} km²')
        return dict(methods=['constant propagation'], functions=['constants'])
    obs.append(Ob('types and bodies', pairs))

    def measures():
        c = Ctx()
        ra = c.obj('Randomnessanalysis')
        v = c.I.freeze(c.st, c.I.get_attr(c.st, ra, 'MEASURES', None))
        ls = table(c, 'LINESTYLES')
        names = {x.a[0] for x in seq(v, 'MEASURES')}
        if names != {'m2cnd', 'sdaa'}:
            raise Violation('Randomnessanalysis.MEASURES', f'measures stored and read are {sorted(names)}')
        seen = set()
        for n in sorted(names):
            x = c.I.freeze(c.st, c.I.index(c.st, ls, string(n), None))
            if x.op != 'str':
                raise Violation('constants.LINESTYLES', f'no line style for measure {n}')
            if x.a[0] in seen:
                raise Violation('constants.LINESTYLES', 'two measures share a line style')
            seen.add(x.a[0])
        return dict(methods=['constant propagation'], functions=['constants'])
    obs.append(Ob('measures', measures))

    # every body named by a chronology system
    bodies = sorted({d['body'] for k, d in config.blocks('functions.txt') if 'body' in d})

    def body(b):
        def f():
            c = c10.ctx()
            cs = lambda n, b: c.dict(name=n, body=b, cf=c.str('cf'), pf=c.str('pf'))
            F = c.dict(chronology_system=c.list(cs('Other (1999)', 'Moon' if b != 'Moon' else 'Mars'), cs('This one (2001)', b)), equilibrium=c.list(), epochs=c.list())
            S, refused, _ = settings(c, {'-cs': ['This one (2001)']}, F, 'cli.construct_cps_dict')
            v = S.get('global_area')
            w = AREA.get(b, 1e12)
            if v is None or v.op != 'num':
                raise Undecided('global area not recognised')
            if abs(float(v.a[0]) / w - 1) > 1e-6:
                raise Violation('cli.construct_cps_dict', f'surface area used for {b} is {float(v.a[0]):g} km² instead of {w:g}')
            return dict(methods=['constant propagation'], functions=['cli.construct_cps_dict'])
        obs.append(Ob('body ' + b, f))
    for b in bodies:
        body(b)

    # ------------------------------------------------------------ what is drawn
    def draw(pres, ep, ef, iso, ref, legend, bins):
        where = 'Craterplotset.draw'

        def f():
            c, s, H, L = scene(pres, ref_diameter=num(ref), legend=legend, isochrons='1' if iso else '')
            e1, e2 = c.inst('ep', 'Epochs'), c.inst('ef', 'Productionfn')
            cps = [c.obj('Craterplot', binning=b, type=t) for b, t in bins]
            c.set(s, ep=e1 if ep else NONE, ef=e2 if ef else NONE, craterplot=c.list(*cps))
            fz = [c.I.freeze(c.st, x) for x in cps]
            o = c.run((s, 'draw'))
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(where, f'{pres}: ends with {a.exc}')
                raise Undecided(f'{where}: may end with {a.exc}')
            ev = drawn(o, where, {q.rsplit('.', 1)[1] for q in PARTS} | {'plot', 'text', 'CreatePlotSpace'})
            short = lambda e: e.name.rsplit('.', 1)[-1]
            frame = 'create_time_axis_plotspace' if pres in ('sequence', 'uncertainty') else 'CreatePlotSpace'
            fr = [short(e) for e in ev if short(e) in ('CreatePlotSpace', 'create_time_axis_plotspace')]
            if fr != [frame]:
                raise Violation(where, f'{pres}: the axes are made by {fr or "nothing"}')
            if short(ev[0]) != frame:
                raise Violation(where, f'{pres}: something is drawn before the axes are made')
            # epochs, isochrons
            want = {'oplot': pres in COUNT and ep, 'plot_isochrons': pres in COUNT and iso, 'chronology_oplot': pres in TIME and ep, 'sequence_oplot': pres == 'sequence' and ep}
            for n, w in want.items():
                k = [e for e in ev if short(e) == n]
                if len(k) != bool(w):
                    raise Violation(where, f'{pres}: {n} is done {len(k)} times' + ('' if w else ' though it does not apply'))
                for e in k:
                    a = dict(e.kw)
                    if n != 'plot_isochrons' and a.get('self') is not e1:
                        raise Violation(where, f'{n} is not done for the epochs given')
                    if n == 'chronology_oplot' and (tm.truth(a.get('phi', FALSE)) is TRUE) != (pres == 'rate'):
                        raise Violation(where, f'{pres}: epochs are drawn with those of the ' + ('chronology' if pres == 'rate' else 'rate'))
            # overplots
            show = [i for i, (b, t) in enumerate(bins) if pres in COUNT + ('sequence',) and not (b == 'none' and pres in ('differential', 'R-plot', 'Hartmann'))]
            got = []
            for e in ev:
                if short(e) == 'overplot':
                    v = dict(e.kw).get('self')
                    i = [j for j, x in enumerate(fz) if x is v]
                    got.append(i[0] if i else -1)
            if sorted(got) != show:
                raise Violation(where, f'{pres}: overplots {got} are drawn of {bins}, not {show}')
            if got != show[::-1]:
                raise Violation(where, f'{pres}: overplots are drawn in the order {got}: the first should be on top')
            # curves
            prs = []
            lines = [[o.I.freeze(o.st, x) for x in e.args[:2]] for e in ev if short(e) == 'plot']
            wl = c.run('spec.draw.curves', s, string(pres)).val
            if wl.op not in ('lit', 'tuple'):
                raise Undecided('specification not evaluated')
            if len(lines) != len(wl.a):
                raise Violation(where, f'{pres}: {len(lines)} curves are drawn instead of {len(wl.a)}')
            for i, (g, w) in enumerate(zip(lines, wl.a)):
                prs += [(f'{pres}: curve {i}, x', g[0], w.a[0]), (f'{pres}: curve {i}, y', g[1], w.a[1])]
            tx = [e for e in ev if short(e) == 'text']
            wt = c.run('spec.draw.functions', s, string(pres)).val
            if len(tx) != (wt is not NONE):
                raise Violation(where, f'{pres}: functions are named {len(tx)} times')
            for e in tx:
                v = e.args[2] if len(e.args) > 2 else dict(e.kw).get('s')
                prs.append((f'{pres}: functions named', v, wt))
            return dict(methods=[equal(where, prs)], functions=[where])
        obs.append(Ob(f'draw {pres}, ' + ', '.join(n for n, k in (('epochs', ep), ('equilibrium', ef), ('isochrons', iso)) if k) + f' N({ref}), legend {legend or "none"}, {[b[0] for b in bins]}', f))
    B = [('pseudo-log', 'data'), ('none', 'c-fit'), ('10/decade', 'poisson'), ('none', 'data')]
    for p in PRES:
        for ep, ef, iso in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
            draw(p, ep, ef, iso, 1, 'fnacr', B)
        draw(p, 0, 0, 0, 5, 'fac', B[::-1])
        draw(p, 1, 1, 1, 10, 'nac', [])

    # choices decided with the property about their values
    for prop, names in (('c10', r'^(defaults|presentation |system |-pr nonsense|-measure)'), ('c11', r'^(type|binning|colour|psym)='), ('c01', r'^getplotdata (cumulative|incremental|differential|R-plot|Hartmann) pseudo-log range=none pf=False showall=0$'),
                        ('c02', r'^(apply_binning .* offset=none|generate_bins .* expand=None)$'), ('c08', '^age of .* showall=0'), ('c22', '^(area measure: 4|neighbour measure [01])'), ('c23', '^map and histogram'),
                        ('c20', '^one trial$')):
        for ob in importlib.import_module('checks.' + prop).obligations('quick'):
            if re.search(names, ob.name):
                obs.append(ob)

    # ------------------------------------------------------------ every system and function on offer can be evaluated
    from checks import c29

    def given(kinds):
        """the functions file as the program reads it"""
        text = open(config.path('functions.txt'), encoding='utf-8').read()
        c = c29.ctx({'/f.txt': text})
        o = c.run(c29.READ, '/f.txt')
        d = c29.data(c.get(o, o.val))
        for k in ('chronology_system', 'chronology', 'production', 'equilibrium', 'epochs'):
            if not isinstance(d.get(k), list):
                raise Undecided('functions file not recognised')
        lists = {k: c.list(*[c.dict(**e) for e in d[k]]) for k in d if isinstance(d[k], list)}
        return c, d, c.dict(**lists)

    def missing(t):
        """the first attribute, key or entry in a value that does not exist"""
        return next((x for x in tm.subterms(t) if x.op in ('noattr', 'keyerr', 'idxerr')), None)

    def usable(c, what, thing, f, *args):
        o = c.run((thing, f), *args)
        dead = [a for a in o.aborts if a.pc is TRUE]
        if dead or o.val is None or o.pc is FALSE:
            raise Violation('config/functions.txt', f'{what} is on offer but cannot be evaluated: {f}() ends with {dead[0].exc if dead else "no result"}')
        if o.val is NONE:
            raise Violation('config/functions.txt', f'{what} is on offer but {f}() gives nothing')
        m = missing(o.val)
        if m is not None:
            raise Violation('config/functions.txt', f'{what} is on offer but {f}() needs {tm.show(m)[:120]}, which does not exist')
        return o.val

    def built(c, what, cls, *args, **kw):
        try:
            x = c.new(cls, *args, **kw)
        except Undecided as e:
            raise Violation('config/functions.txt', f'{what} is on offer but cannot be built: {e}')
        m = missing(c.I.freeze(c.st, x))
        if m is not None:
            raise Violation('config/functions.txt', f'{what} is on offer but {cls}() needs {tm.show(m)[:120]}, which does not exist')
        return x

    def system(name):
        def f():
            c, d, F = given(())
            s = [e for e in d['chronology_system'] if e.get('name') == name]
            if len(s) != 1:
                raise Violation('config/functions.txt', f'{len(s)} chronology systems are called {name}')
            s = s[0]
            for k in ('body', 'cf', 'pf'):
                if not isinstance(s.get(k), str):
                    raise Violation('config/functions.txt', f'chronology system {name} has no {k}')
            cf = built(c, f'{name}: chronology {s["cf"]}', 'Chronologyfn', F, s['cf'])
            pf = built(c, f'{name}: production function {s["pf"]}', 'Productionfn', F, s['pf'])
            for m in ('N1', 'a0', 'phi', 't'):
                usable(c, f'{name}: chronology {s["cf"]}', cf, m, c.num('p_t'))
            for m in ('C', 'F', 'R', 'H'):
                usable(c, f'{name}: production function {s["pf"]}', pf, m, c.arr('p_d'), c.num('a0'))
            return dict(methods=['constant propagation'], functions=['Chronologyfn', 'Productionfn', 'config/functions.txt: ' + name])
        obs.append(Ob('system offered: ' + name, f))

    def other(kind, name):
        def f():
            c, d, F = given(())
            n = [e for e in d[kind] if e.get('name') == name]
            if len(n) != 1:
                raise Violation('config/functions.txt', f'{len(n)} entries of {kind} are called {name}')
            if kind == 'equilibrium':
                x = built(c, name, 'Productionfn', F, name, True)
                for m in ('C', 'F', 'R', 'H'):
                    usable(c, name, x, m, c.arr('p_d'), c.num('a0'))
            else:
                built(c, name, 'Epochs', F, name, c.inst('pf', 'Productionfn'), c.inst('cf', 'Chronologyfn'))
            return dict(methods=['constant propagation'], functions=['config/functions.txt: ' + name])
        obs.append(Ob(f'{kind} offered: {name}', f))
    for k, d in config.blocks('functions.txt'):
        if k == 'chronology_system':
            system(d.get('name', ''))
        elif k in ('equilibrium', 'epochs'):
            other(k, d.get('name', ''))
    return obs
