from analyser.harness import *
from analyser import alias, harness, shared
from analyser.graph import graph
from checks import c18
from checks.c02 import count
from checks.c04 import poly, tabl
import ast, re

RULE = ('three static analyses: (1) every obligation of the other properties is interpreted again and every cell of the abstract heap that belongs to a crater count, a function, an epoch system, an age distribution or an argument must be the '
        'same cell afterwards (a crater count may only replace its binned columns); (2) an alias analysis over every function finds in-place changes of storage that belongs to such an object or to an argument; '
        '(3) the value-flow term of every query is compared with that of the same query asked after each other query of the same object')
FNS = ['Cratercount.getplotdata', 'Cratercount.decode_range', 'Cratercount.resurf_adj', 'Cratercount.generate_bins', 'Cratercount.WriteStatFile', 'Productionfn.evaluate', 'Productionfn.fit', 'Chronologyfn.t', 'Craterpdf.t', 'Craterplot.calculate_age',
       'Craterplot.make_legend_label']
Q = 'craterstats.'
SUBJECT = ('Cratercount', 'Productionfn', 'Chronologyfn', 'Craterpdf', 'Epochs')
SUBJECTS = {Q + f'{x}.{x}' for x in SUBJECT}
HOLDERS = ('cratercount', 'cc', 'pf', 'cf', 'ef', 'ep', 'pdf')
PROPS = ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c12', 'c14', 'c21', 'c22', 'c23', 'c27', 'c28', 'c30', 'c31', 'c35')
CACHE = {Q + 'Cratercount.Cratercount': {'binned', 'binning', 'reverse_indices'}}
LOADERS = re.compile(r'^(__init__|Read\w*|read\w*|MakeBin\w*|UpdateSettings|init_\w+)$')


def loader(entry):
    n = str(entry).rsplit('.', 1)[-1]
    return bool(LOADERS.match(n))


def watch(c, f, args, kw, before, o):
    I = c.I
    entry = f if isinstance(f, str) else f[1] if isinstance(f, tuple) else tm.show(f)
    if str(entry).startswith('spec') or loader(entry):
        return
    c18.RUNS[0] += 1
    roots = {}
    if isinstance(f, tuple) and isinstance(f[0], T):
        roots['self'] = f[0]
    for i, a in enumerate(args):
        roots[f'argument {i}'] = a
    for k, a in kw.items():
        roots[k] = a
    cells = shared.reach(I, before, roots)
    for i, (p, r) in cells.items():
        a, b = I.cell(before, r), I.cell(o.st, r)
        if shared.same(a, b):
            continue
        cls = getattr(a, 'cls', None)
        names = [k for k in set(a.v) | set(b.v) if a.v.get(k) is not b.v.get(k)] if a is not None and b is not None and isinstance(a.v, dict) and isinstance(b.v, dict) else []
        if a is not None and a.kind == 'obj':
            q = cls if isinstance(cls, str) else str(cls)
            if q not in SUBJECTS:
                continue
            names = [k for k in names if k not in CACHE.get(q, ())]
            if not names:
                continue
            raise c18.Changed(q.rsplit('.', 1)[-1] + ' ' + p, entry, ', '.join(sorted(map(str, names))[:4]))
        if protected(I, before, r, p, roots):
            raise c18.Changed(p, entry, ', '.join(sorted(map(str, names))[:4]))
    for e in o.effects:
        if e.name == 'setattr' and e.pc is not FALSE and e.args:
            x = e.recv if e.recv is not None else e.args[0]
            q = I.inst_class(x)
            if str(q) in SUBJECTS and e.args and not (e.args[0].op == 'str' and e.args[0].a[0] in CACHE.get(str(q), ())):
                raise c18.Changed(tm.show(x)[:60], entry, tm.show(e.args[0]))


def protected(I, st, r, path, roots):
    """lists, tables and arrays that belong to one of the subjects, or were passed as such"""
    root, _, rest = path.partition('.')
    if not rest:
        return True
    t = roots.get(root)
    for k in rest.split('.'):
        if t is None or not isinstance(t, T) or t.op != 'ref':
            return False
        c = I.cell(st, t)
        if c is None:
            return False
        if c.kind == 'obj' and str(getattr(c, 'cls', None)) in SUBJECTS:
            return True
        if c.kind == 'obj' and k == 'range':
            return True
        t = c.v.get(k) if isinstance(c.v, dict) else None
    return False


# ------------------------------------------------------------ storage

def lint(tier):
    g = graph()
    a = alias.Alias(g)
    classof = lambda q: g.defs[q][2].cls.name if g.defs[q][2].cls is not None else None

    def outer(q):
        sc = g.defs[q][2]
        f = sc
        while f is not None:
            if f.kind == 'function' and f.cls is not None:
                return f.cls.name
            f = f.parent
        return None
    callers = {}
    for q, cs in g.callees().items():
        for kind, t, n in cs:
            if kind == 'def' and t != q:
                p = g.defs[q][0].parents.get(id(n)) if q in g.defs else None
                called = isinstance(p, ast.Call) and p.func is n or n is g.defs[t][1]
                callers.setdefault(t, set()).add(q if called else '?')      # a function that is kept may be called at any time
    loaders = {q for q in g.defs if loader(q) and outer(q) in SUBJECTS}
    for _ in range(20):
        more = {q for q in g.defs if q not in loaders and outer(q) in SUBJECTS and callers.get(q) and callers[q] <= loaders}
        if not more:
            break
        loaders |= more

    def subject(q, o):
        k, path = o
        parts = path.split('.')
        if k == 'attr' and parts[0] == 'self' and outer(q) in SUBJECTS and q not in loaders:
            return True
        if any(x in HOLDERS for x in parts[1:]):
            return True
        if k in ('attr', 'param') and parts[-1] == 'range' and len(parts) > 1:
            return True
        if k == 'param' and len(parts) == 1 and (outer(q) in SUBJECTS or outer(q) == Q + 'Craterplot.Craterplot' or '.gm.' in q or q.startswith(Q + 'miscellaneous.')):
            return 'merge' not in q and 'progress' not in path
        return False

    def inplace():
        for q in sorted(g.defs):
            if q in g.classes:
                continue
            for n, o, how in a.changes(q):
                if subject(q, o):
                    raise Violation(f'{q.split(".", 1)[-1]}:{n.lineno}', f'{o[1]} is changed in place ({how}): what it belongs to gives a different answer next time')
        return dict(methods=['alias analysis'], functions=sorted(q.split('.', 1)[-1] for q in g.defs if q not in g.classes))

    def stored():
        for q in sorted(g.defs):
            if q in g.classes:
                continue
            for n, attr, o in a.stores(q):
                parts = o[1].split('.')
                if o[0] == 'object' and outer(q) in SUBJECTS and q not in loaders and attr not in CACHE.get(outer(q), ()):
                    raise Violation(f'{q.split(".", 1)[-1]}:{n.lineno}', f'a query assigns to {o[1]}.{attr}')
                if len(parts) > 1 and parts[-1] in HOLDERS and not loader(q):
                    raise Violation(f'{q.split(".", 1)[-1]}:{n.lineno}', f'{o[1]}.{attr} is assigned: the object belongs to someone else')
        return dict(methods=['alias analysis'], functions=sorted(q.split('.', 1)[-1] for q in g.defs if q not in g.classes))
    return [Ob('nothing is changed in place', inplace), Ob('queries assign nothing', stored)]


# ------------------------------------------------------------ histories

def kinds():
    """subject -> (context, object, {query: (method, args)})"""
    def cratercount(kind):
        def make():
            c = Ctx(opaque=[Q + 'Productionfn.Productionfn.evaluate', Q + 'Productionfn.Productionfn.fit'], returns={Q + 'Productionfn.Productionfn.fit': ('a', 'num', 3)})
            if kind == 'list':
                cc = count(c, filename='f')
            else:
                from checks.c08 import given
                cc, B = given(c)
                c.set(cc, filename='f')
            pf = c.inst('pf', 'Productionfn')
            r = lambda: c.list(c.num('p_r0'), c.num('p_r1'))
            qs = {}
            for p in ('cumulative', 'differential', 'R-plot'):
                qs[f'{p} data'] = lambda st, p=p: ((cc, 'getplotdata'), (p, 'pseudo-log'), {})
            qs['root-2 Hartmann data'] = lambda st: ((cc, 'getplotdata'), ('Hartmann', 'root-2'), dict(pf=pf))
            qs['unbinned data'] = lambda st: ((cc, 'getplotdata'), ('cumulative', 'none'), {})
            qs['data in range'] = lambda st: ((cc, 'getplotdata'), ('cumulative', 'pseudo-log'), dict(range=R[0]))
            qs['resurfacing'] = lambda st: ((cc, 'getplotdata'), ('cumulative', '10/decade'), dict(range=R[0], resurfacing=1, pf=pf))
            qs['limits'] = lambda st: ((cc, 'decode_range'), (lit(string('b1'), string('b-1')), '10/decade', num(1)), {})
            qs['boundaries'] = lambda st: ((cc, 'generate_bins'), ('x2', R[1]), dict(expand=FALSE))
            qs['exported'] = lambda st: ((cc, 'WriteStatFile'), ('out.stat', 'root-2'), {})
            R = [r(), r()]
            return c, cc, qs
        return make

    def production(kind):
        def make():
            c = Ctx()
            pf, _ = poly(c, 4, rng=True) if kind == 'polynomial' else tabl(c, 5, 2)
            d = c.arr('p_q')
            qs = {}
            for p in ('cumulative', 'differential', 'R-plot', 'Hartmann'):
                qs[f'evaluate {p}'] = lambda st, p=p: ((pf, 'evaluate'), (p, d, c.num('a')), {})
            qs['evaluate without age'] = lambda st: ((pf, 'evaluate'), ('cumulative', d), {})
            if kind == 'polynomial':
                qs['plot data'] = lambda st: ((pf, 'getplotdata'), ('cumulative',), {})
                qs['isochron'] = lambda st: ((pf, 'getisochron'), ('differential', c.num('a'), c.inst('ef', 'Productionfn')), {})
            return c, pf, qs
        return make

    def chronology():
        c = Ctx()
        cf = c.new('Chronologyfn', {'chronology': [dict(name='X', coefficients=[c.num(f'p_c{i}') for i in range(4)])]}, 'X')
        t = c.arr('p_t')
        return c, cf, {'N1': lambda st: ((cf, 'N1'), (t,), {}), 'a0': lambda st: ((cf, 'a0'), (t,), {}), 'phi': lambda st: ((cf, 'phi'), (t,), {}), 't': lambda st: ((cf, 't'), (t,), {}),
                       'plot data': lambda st: ((cf, 'getplotdata'), (), {}), 'rate data': lambda st: ((cf, 'getplotdata'), (), dict(phi=TRUE))}
    return {'crater list': cratercount('list'), 'binned counts': cratercount('given'), 'polynomial function': production('polynomial'), 'tabulated function': production('tabulated'), 'chronology function': chronology}


def outcome(o):
    return [('result', o.val)] + [(f'{e.name} {i}', lit(*[x if isinstance(x, T) else string(str(x)) for x in e.args])) for i, e in enumerate(o.effects) if e.name in ('open', 'builtins.open', '.write', Q + 'gm.file.write_textfile.write_textfile')]


def histories(tier):
    obs = []
    for name, make in kinds().items():
        qs = list(make()[2])

        def ob(first, name=name, make=make, qs=qs):
            def f():
                c, x, q = make()
                ms = []
                f0, a0, k0 = q[first](None)
                o0 = c.run(f0, *a0, **k0)
                if o0.pc is FALSE or not o0.st.pc is TRUE and o0.aborts and o0.st.pc is FALSE:
                    raise Undecided(f'{first}: no result')
                for second in qs:
                    f1, a1, k1 = q[second](None)
                    alone = c.run(f1, *a1, **k1)
                    f1, a1, k1 = q[second](None)
                    after = c.run(f1, *a1, _st=o0.st, **k1)
                    x1, x2 = outcome(after), outcome(alone)
                    if len(x1) != len(x2):
                        raise Violation(f'{name}: {second}', f'a different number of things written when asked after {first}')
                    prs = []
                    for (l, a), (_, b) in zip(x1, x2):
                        prs.append((l, a, b))
                    try:
                        ms.append(equal(f'{name}: {second}, asked after {first}', prs, lens=dict(p_d=6, p_f=6)))
                    except Undecided as e:
                        if all(a is b for l, a, b in prs):
                            ms.append('identical')
                        else:
                            raise
                return dict(methods=ms, functions=FNS, histories=len(qs))
            return Ob(f'answers do not depend on earlier questions: {name}, after {first}', f)
        obs += [ob(q) for q in qs]
    return obs


def shared_count(tier):
    """two plots of the same count: what one shows does not depend on the other having been drawn"""
    from checks.c08 import cpset
    from checks.c07 import PFN, CFN, PDF, TXT, RET
    types = dict(first=('c-fit', 'pseudo-log'), second=('data', 'root-2'), third=('d-fit', '10/decade'), fourth=('poisson', 'none'))
    ret = {k: v for k, v in RET.items() if k in PFN + CFN + PDF + TXT}

    def show(c, cp, cps, st):
        if types[cp[1]][0] != 'data':
            st = c.run((cp[0], 'calculate_age'), cps, _st=st).st
            names = ('n', 'n_event', 'a0')
        else:
            names = ()
        o = c.run((cp[0], 'make_legend_label'), cps, _st=st)
        return [('legend', o.val)] + [(k, c.attr(o, cp[0], k)) for k in names], o.st

    def ob(a, b):
        def f():
            c = Ctx(opaque=PFN + CFN + PDF + TXT, returns=ret)
            cc = count(c, filename='f', binned=c.dict(n=c.arr('z_n0'), d_min=c.arr('p_dm0'), d_max=c.arr('p_dx0'), d_mean=c.arr('p_dn0')))
            cps = cpset(c, 'cumulative', legend='fnacrN')
            plots = {}
            for k in (a, b):
                t, bn = types[k]
                r = c.list(c.num('p_r0'), c.num('p_r1'))
                cp = c.new('Craterplot', c.dict(cratercount=cc, name=k, source='s', type=t, binning=bn))
                c.set(cp, range=r)
                plots[k] = (cp, k)
            alone, _ = show(c, plots[a], cps, c.st)
            _, st = show(c, plots[b], cps, c.st)
            after, _ = show(c, plots[a], cps, st)
            return dict(methods=[equal(f'plot of type {types[a][0]} sharing its count with one of type {types[b][0]}', [(l, x, y) for (l, x), (_, y) in zip(after, alone)], lens=dict(p_d=6, p_f=6))], functions=FNS)
        return Ob(f'a count shared by two plots: {types[a][0]} after {types[b][0]}', f)
    return [ob(a, b) for a in types for b in types if a != b]


def obligations(tier):
    def bad(path, entry, names):
        raise Violation(path, f'changed by {entry}' + (f' ({names})' if names else '') + ', which only asks for something')
    return lint(tier) + histories(tier) + shared_count(tier) + c18.batches(tier, [watch], 'objects unchanged by', bad, PROPS)
