from analyser.harness import *
from analyser import effects, harness, shared
from analyser.graph import graph
import ast, importlib, os, re

RULE = ('heap-effect analysis: every obligation of the other properties is interpreted again as a run, and every cell of the abstract heap that is reachable from a module namespace, a class namespace or a default argument of '
        'the package before the run must be the same cell afterwards (a changed one names the table and what wrote to it); with lints over the whole program: no function assigns to names of modules or classes, '
        'process-wide settings (matplotlib parameters) set in one place are re-established unconditionally by every new plot, changes of directory are undone')
FNS = ['cli.main', 'Craterplotset.CreatePlotSpace', 'Craterplotset.draw', 'Craterplotset.EstablishFontandScaling', 'Craterplot.overplot', 'Randomnessanalysis.plot_n_sigma']
PROPS = ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c20', 'c21', 'c22', 'c23', 'c24', 'c25', 'c27', 'c28', 'c30', 'c31', 'c32', 'c34', 'c35', 'c36')
BATCH = 16


class Changed(Exception):
    pass


def watch(c, f, args, kw, before, o):
    I = c.I
    cells = shared.reach(I, before, shared.globals_(I, before))
    RUNS[0] += 1
    CELLS[0] = max(CELLS[0], len(cells))
    for p, r, d in shared.changed(I, before, o.st, cells):
        entry = f if isinstance(f, str) else f[1] if isinstance(f, tuple) else tm.show(f)
        if str(entry).startswith('spec'):
            continue
        raise Changed(p, entry, d)


    for p, r, d in shared.changed(I, before, o.st, tables_of(I, before, args if isinstance(f, tuple) else args[1:])):
        raise Changed(p, f if isinstance(f, str) else f[1] if isinstance(f, tuple) else tm.show(f), d)


TABLES = ('marker_def', 'palette', 'grey')


def tables_of(I, st, args):
    """cells of the tables (markers, colours) of the plot sets among the arguments"""
    roots = {}
    for a in args:
        a = a if isinstance(a, T) else None
        if a is not None and a.op == 'ref' and I.cell(st, a) is not None and str(I.cell(st, a).cls).endswith('.Craterplotset'):
            for n in TABLES:
                v = I.cell(st, a).v
                if isinstance(v, dict) and isinstance(v.get(n), T):
                    roots['Craterplotset.' + n] = v[n]
    return shared.reach(I, st, roots)


RUNS, CELLS = [0], [0]


def rerun(obs, hooks):
    """obligations interpreted with hooks, their own questions left aside"""
    harness.COMPARE[0] = False
    harness.AFTER[:] = hooks
    fns = set()
    for ob in obs:
        try:
            r = ob.fn()
            fns |= set((r or {}).get('functions', []))
        except (Violation, Undecided, Unsupported, Limit, MemoryError, RecursionError):
            pass
        except Changed:
            raise
        except Exception:
            pass
    harness.AFTER[:] = []
    return fns


def batches(tier, hooks, name, bad, props=PROPS):
    out = []
    for prop in props:
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), prop + '.py')):
            continue
        obs = [o for o in importlib.import_module('checks.' + prop).obligations('quick') if o.tier == 'quick']
        step = BATCH
        parts = [obs[i::(len(obs) + step - 1) // step] for i in range((len(obs) + step - 1) // step)]
        for i, part in enumerate(parts):
            def f(part=part, prop=prop):
                try:
                    fns = rerun(part, hooks)
                except Changed as e:
                    bad(*e.args)
                if not RUNS[0]:
                    raise Undecided('nothing was run')
                return dict(methods=['heap effects'], functions=sorted(fns), runs=RUNS[0], cells=CELLS[0])
            out.append(Ob(f'{name} {prop.upper()} {i}: {len(part)} scenarios', f, limit=200))
    return out


def memos():
    e = effects.Effects(graph())
    return {q for f, n, q, how in e.found if e.memo(q)}


def tables(tier):
    g = graph()
    e = effects.Effects(g)

    def written():
        for f, n, q, how in e.found:
            if e.memo(q):
                continue
            raise Violation(e.where(f, n), f'{q} is changed by a function ({how}): the next command of the same process sees it')
        return dict(methods=['effect lint'], functions=sorted(q.split('.', 1)[-1] for q in g.defs if q not in g.classes))

    def remembered():
        known = e.remembered()
        for f, n, what in known:
            if what:
                raise Violation(e.where(f, n), what)
        if known:
            raise Undecided(f'{e.where(*known[0][:2])}: results kept for later calls: whether they can still change is not decided')
        return dict(methods=['effect lint'], functions=sorted(q.split('.', 1)[-1] for q in g.defs if q not in g.classes))

    def process():
        for f, n, what in e.process:
            raise Violation(e.where(f, n), f'{what} changed for the whole process')
        return dict(methods=['effect lint'], functions=sorted(q.split('.', 1)[-1] for q in g.defs if q not in g.classes))
    return [Ob('no function writes to names of modules or classes', written), Ob('results kept for later calls', remembered), Ob('no function changes settings of the interpreter', process)]


DARK = ('lines.color', 'patch.edgecolor', 'text.color', 'axes.facecolor', 'axes.edgecolor', 'axes.labelcolor', 'axes.prop_cycle', 'xtick.color', 'ytick.color', 'grid.color', 'figure.facecolor', 'figure.edgecolor',
        'savefig.facecolor', 'savefig.edgecolor')
FIGURE = ('matplotlib.figure.Figure', 'matplotlib.pyplot.figure', 'matplotlib.pyplot.subplots')
GROUPS = {'font': {'size': 'font.size', 'family': 'font.family'}}
RCNAMES = ('matplotlib.pyplot.', 'matplotlib.')


def established(o, where):
    """matplotlib parameters certainly set between entry and the first figure; None: all of them"""
    keys, all_, last = set(), False, None
    for e in o.effects:
        n = e.name
        if n in FIGURE:
            return keys, all_
        sure = e.pc is TRUE and not e.loops
        base = next((n[len(x):] for x in RCNAMES if n.startswith(x)), '')
        if base in ('style.use', 'rcdefaults', 'rc_file_defaults'):
            if not sure:
                continue
            a = e.args[0] if e.args else string('default')
            if base != 'style.use' or a == string('default'):
                all_ = True
                keys.clear()
            elif a == string('dark_background'):
                keys |= set(DARK)
            else:
                raise Undecided(f'{where}: style {tm.show(a)[:60]}')
        elif n == 'setitem' and e.recv is not None and e.recv.op == 'ext' and e.recv.a[0] in effects.RC and sure:
            keys.add(text(e.args[0]))
        elif base == 'rcParams.update' and sure:
            d = e.args[0]
            if d.op != 'dict':
                raise Undecided(f'{where}: parameters {tm.show(d)[:60]}')
            keys |= {text(k) for k in dictkeys(d)}
        elif base == 'rc' and sure:
            keys |= {f'{text(e.args[0])}.{k}' for k, v in e.kw}
    raise Undecided(f'{where}: no figure made')


def dictkeys(d):
    return [k for k, v in zip(d.a[::2], d.a[1::2])] if not d.a or not isinstance(d.a[0], tuple) else [k for k, v in d.a]


def text(t):
    if not isinstance(t, T):
        return t
    if t.op == 'str':
        return t.a[0]
    raise Undecided('name of a parameter: ' + tm.show(t)[:60])


def rc(tier):
    e = effects.Effects(graph())
    out = []
    unknown = [(f, n) for f, n, k in e.rc if k is None]
    for fn, scenes in (('CreatePlotSpace', [(p, s) for p in ('cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology') for s in ('natural', 'root-2')]),
                       ('create_time_axis_plotspace', [('sequence', 'natural')]), ('create_map_plotspace', [('map', 'natural')])):
        for pres, style in scenes:
            for inv in (0, 1):
                def ob(fn=fn, pres=pres, style=style, inv=inv):
                    if unknown:
                        raise Undecided(f'{e.where(*unknown[0])}: matplotlib parameters not recognised')
                    c = Ctx(attrs={'name': ('s', 'str')})
                    pc = lambda b: c.obj('Craterplot', binning=b, type='data', cratercount=c.obj('Cratercount', n_sigma=NONE))
                    s = c.obj('Craterplotset', pf=c.inst('pf', 'Productionfn'), cf=c.inst('cf', 'Chronologyfn'), ep=c.inst('ep', 'Epochs'), ef=c.inst('ef', 'Productionfn'), presentation=string(pres), ref_diameter=num(1), ax=c.any('ax'),
                              grey=lit(*[c.str(f'grey{i}') for i in range(4)]), palette=lit(*[c.str(f'palette{i}') for i in range(4)]), print_dimensions='7.5x7.5', pt_size=num(9), marker_def=c.list(), xrange=lit(num(-2), num(3)),
                              yrange=lit(num(-4), num(2)), transparent=num(0), style=style, randomness=num(0), ra_show=NONE, bins=num(0), title='a|b', cm2inch=c.num('p_cm'), fig=NONE, legend='fnacr', isochrons='1', text_halo=num(1), invert=num(inv),
                              sz_ratio=c.num('p_sz'), font='Noto Sans', sig_figs=num(3), measure='m2cnd', craterplot=c.list(pc('none'), pc('pseudo-log')))
                    o = c.run((s, fn))
                    keys, everything = established(o, 'Craterplotset.' + fn)
                    if not everything:
                        for f, n, k in e.rc:
                            if k not in keys and k not in DARK:
                                raise Violation('Craterplotset.' + fn, f'{k}, which {e.where(f, n)} sets, is not set again before the next plot is made{" (inverted)" if inv else ""}: it shows what an earlier plot left')
                    return dict(methods=['effect sequence'], functions=['Craterplotset.' + fn, 'Craterplotset.EstablishFontandScaling'])
                out.append(Ob(f'plot parameters established: {fn}, {pres}, {style}{", inverted" if inv else ""}', ob))
    return out


def drawing(tier, bad):
    """plots set up from their settings, then drawn"""
    out = []
    P = 'craterstats.Craterplotset.Craterplotset.'
    for pres in ('differential', 'Hartmann', 'chronology', 'sequence', 'uncertainty', 'map'):
        for inv in (0, 1):
            def ob(pres=pres, inv=inv):
                c = Ctx(attrs={'name': ('s', 'str')}, opaque=['craterstats.Productionfn.Productionfn.evaluate', 'craterstats.Productionfn.Productionfn.getplotdata', 'craterstats.Chronologyfn.Chronologyfn.getplotdata'],
                        returns={'craterstats.Productionfn.Productionfn.evaluate': ('a', 'num', 2)})
                d = c.dict(presentation=pres, title='a|b', invert=inv, xrange=lit(num(-2), num(3)), yrange=lit(num(-4), num(2)), legend='', isochrons='', style='natural', transparent=num(0), out='out')
                st0 = c.st.copy()
                s = c.new('Craterplotset', d)
                a = c.obj('Randomnessanalysis', montecarlo=c.dict(m2cnd=c.dict(n_trials=num(30), trials=c.dict(), bins=c.dict())), cc=c.inst('cc', 'Cratercount'))
                harness.AFTER[:] = [watch]
                fns = ['Craterplotset.__init__']
                try:
                    cells = shared.reach(c.I, st0, shared.globals_(c.I, st0))
                    for p, r, k in shared.changed(c.I, st0, c.st, cells):
                        raise Changed(p, 'Craterplotset.__init__', k)
                    st = c.st
                    for fn in ('create_map_plotspace',) if pres == 'map' else ('create_time_axis_plotspace',) if pres in ('sequence', 'uncertainty') else ('CreatePlotSpace', 'draw'):
                        o = c.run((s, fn), _st=st)
                        if o.pc is not FALSE:
                            st = o.st
                        fns.append('Craterplotset.' + fn)
                    if pres == 'differential':
                        c.run((a, 'plot_n_sigma'), s, c.any('ax'), string('m2cnd'), _st=st)
                except Changed as e:
                    bad(*e.args)
                finally:
                    harness.AFTER[:] = []
                return dict(methods=['heap effects'], functions=fns)
            out.append(Ob(f'shared state after drawing: {pres}{", inverted" if inv else ""}', ob))
    return out


# ------------------------------------------------------------ working directory

CHDIR = ('os.chdir', 'os.fchdir')


def restores(node, g, m):
    """does the block put the directory back, whatever happens"""
    for n in ast.walk(node):
        if isinstance(n, ast.Try) and n.finalbody:
            for b in n.finalbody:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and g.resolve(x.func, g.scope_at(m, x)) == ('ext', 'os.chdir'):
                        return True
    return False


def guarded(g, m, node):
    """the construct around node that undoes a change of directory, or None"""
    n, below = m.parents.get(id(node)), node
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        if isinstance(n, ast.Try) and below in n.body and any(isinstance(x, ast.Call) and g.resolve(x.func, g.scope_at(m, x)) == ('ext', 'os.chdir') for b in n.finalbody for x in ast.walk(b)):
            return n
        if isinstance(n, (ast.With, ast.AsyncWith)) and below in n.body:
            for i in n.items:
                x = i.context_expr
                f = x.func if isinstance(x, ast.Call) else x
                r = g.resolve(f, g.scope_at(m, x))
                if r == ('ext', 'contextlib.chdir'):
                    return n
                if r and r[0] == 'def':
                    mm, nn, _ = g.defs[r[1]]
                    if isinstance(nn, ast.ClassDef):
                        q = g.method(r[1], '__exit__')
                        if q and any(isinstance(y, ast.Call) and g.resolve(y.func, g.scope_at(mm, y)) == ('ext', 'os.chdir') for y in ast.walk(g.defs[q][1])):
                            return n
                    elif restores(nn, g, mm):
                        return n
                if r is None or r[0] in ('value', 'local', 'global'):
                    return n        # an unknown context: undecided is not a violation
        below, n = n, m.parents.get(id(n))
    return None


def directory(tier):
    g = graph()

    def ob():
        # who may be entered without a guard, starting from main
        edges = {}
        for q, cs in g.callees().items():
            edges[q] = list(cs)
        actions = {q for q in g.classes if any(r == ('ext', 'argparse.Action') for b in g.classes[q]['bases'] for r in [g.resolve(b, g.classes[q]['outer'])])}
        for m, sc, n in g.calls:
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('parse_args', 'parse_known_args'):
                f = g.function_of(sc)
                if f is not None:
                    for a in actions:
                        q = g.method(a, '__call__')
                        if q:
                            edges.setdefault(f.name, []).append(('def', q, n))
        root = next((q for q in g.defs if q.endswith('cli.main')), None)
        if root is None:
            raise Undecided('main not found')
        seen, via, todo, sites = set(), {}, [root], 0
        while todo:
            q = todo.pop()
            if q in seen or q not in g.defs:
                continue
            seen.add(q)
            m, node, sc = g.defs[q]
            if getattr(node, 'decorator_list', None) and any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')) for d in node.decorator_list):
                if restores(node, g, m):
                    continue
            for kind, t, n in edges.get(q, []):
                if kind == 'ext' and t in CHDIR:
                    sites += 1
                    if isinstance(n, (ast.FunctionDef,)) or guarded(g, m, n) is None and not infinally(m, n):
                        raise Violation(q.split('.', 1)[-1], f'the working directory is changed and not restored on the way back to the caller of main ({g.path(via, q)})')
                elif kind == 'def' and t not in seen:
                    if n is not g.defs[t][1] and guarded(g, m, n) is not None:
                        continue
                    via.setdefault(t, q)
                    todo.append(t)
        return dict(methods=['call graph'], functions=sorted(q.split('.', 1)[-1] for q in seen))
    return [Ob('the working directory is restored', ob)]


def infinally(m, n):
    """the statement that restores it"""
    below, p = n, m.parents.get(id(n))
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        if isinstance(p, ast.Try) and below in p.finalbody:
            return True
        below, p = p, m.parents.get(id(p))
    return False


def obligations(tier):
    known = memos()

    def bad(path, entry, names):
        if any(path == q or path.startswith(q + '.') for q in known):
            return
        raise Violation(path, f'changed by a run of {entry}' + (f' ({names})' if names else '') + (': whatever is drawn next in the same plot sees the changed value' if path.startswith('Craterplotset.') else ': later commands of the same process see the changed value'))
    return tables(tier) + directory(tier) + rc(tier) + drawing(tier, bad) + batches(tier, [watch], 'shared state after', bad)
