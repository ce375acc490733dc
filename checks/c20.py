from checks.spatial import *
from analyser import interp
from analyser.graph import graph
import ast, itertools

RULE = ('the random seed, simulated configuration and measure of one trial, and the list of measures of a run of trials under workers that finish in any order, are compared as value-flow terms with their definition; '
        'the call graph below a trial is searched for any other source of randomness, reseeding or shared state')
FNS = ['run_trial', 'run_trial_wrapper', 'montecarlo_pp', 'montecarlo_serial', 'Randomnessanalysis.self_pp']
M = 'craterstats.Randomnessanalysis.'
EVAL, SPRINKLE, TRIAL, WRAP = M + 'evaluate_randomness', M + 'sprinkle_discs_pp', M + 'run_trial', M + 'run_trial_wrapper'


OTHER = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getrandom')


def seeds(o):
    return [e for e in o.effects if e.name.startswith(('numpy.random', 'random.'))]


class Workers:
    """process pool: every task sees only its arguments; tasks finish in reverse order of submission"""

    def __init__(self, c):
        self.c, self.I = c, c.I
        m = c.I.models
        m['concurrent.futures.ProcessPoolExecutor'] = self.pool
        m['concurrent.futures.process.ProcessPoolExecutor'] = self.pool
        m['multiprocessing.Pool'] = self.pool
        m['multiprocessing.pool.Pool'] = self.pool
        for n in ('concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.thread.ThreadPoolExecutor', 'multiprocessing.pool.ThreadPool'):
            m[n] = self.threads
        m['multiprocessing.Manager'] = lambda I, st, a, kw, node: self.obj(st, Value=mk('ext', 'spec.value'), Queue=mk('ext', 'spec.queue'), Lock=mk('ext', 'spec.queue'))
        m['spec.value'] = lambda I, st, a, kw, node: self.obj(st, value=a[1])
        for n, f in dict(submit=self.submit, apply=self.apply, map=self.map, starmap=self.starmap, unordered=self.unordered).items():
            m['spec.' + n] = f
        m['concurrent.futures.as_completed'] = self.completed
        m['spec.nothing'] = lambda I, st, a, kw, node: NONE
        for n in ('progressbar.progressbar', 'progressbar.shortcuts.progressbar'):
            m[n] = lambda I, st, a, kw, node: a[0]
        self.n = itertools.count()

    def obj(self, st, **kw):
        return self.I.new(st, 'obj', kw, 'spec.writer.Geom')

    def pool(self, I, st, args, kw, node):
        e = lambda n: mk('ext', 'spec.' + n)
        return self.obj(st, submit=e('submit'), apply_async=e('apply'), map=e('map'), imap=e('map'), starmap=e('starmap'), imap_unordered=e('unordered'), shutdown=e('nothing'), close=e('nothing'), join=e('nothing'))

    def threads(self, I, st, args, kw, node):
        raise Violation(M[12:] + 'montecarlo_pp', 'trials run in threads of one process, which share one random sequence')

    def submit(self, I, st, args, kw, node):
        return self.task(I, st, I.call_term(st, args[0], list(args[1:]), kw, node))

    def task(self, I, st, r):
        name = 'spec.result.%d' % next(self.n)
        I.models[name] = lambda I, st, a, kw, node: r
        return self.obj(st, result=mk('ext', name), get=mk('ext', name))

    def apply(self, I, st, args, kw, node):
        d = bindargs(('func', 'args', 'kwds'), args, kw, 'apply_async')
        if 'kwds' in d:
            raise Undecided('task not recognised')
        return self.task(I, st, I.call_term(st, d['func'], list(self.seq(st, d.get('args', lit()))), {}, node))

    def seq(self, st, v):
        v = self.I.seqof(st, v)
        if v.op not in ('lit', 'tuple'):
            raise Undecided('tasks not recognised')
        return v.a

    def map(self, I, st, args, kw, node):
        cols = [self.seq(st, a) for a in args[1:]]
        return I.newlist(st, lit(*[I.call_term(st, args[0], list(x), {}, node) for x in zip(*cols)]))

    def starmap(self, I, st, args, kw, node):
        return I.newlist(st, lit(*[I.call_term(st, args[0], list(self.seq(st, x)), {}, node) for x in self.seq(st, args[1])]))

    def unordered(self, I, st, args, kw, node):
        v = self.map(I, st, args, kw, node)
        return I.newlist(st, lit(*self.seq(st, v)[::-1]))

    def completed(self, I, st, args, kw, node):
        return I.newlist(st, lit(*self.seq(st, args[0])[::-1]))


def pp(c, trials, measure='m2cnd'):
    f = ['hp', 'planetary_radius', 'area', 'enclosing_area', 'polygon', 'xr', 'yr', 'max_threads', 'trials', 'measure']
    d = dict(hp=c.num('hp'), planetary_radius=c.num('p_R'), area=c.num('p_A'), enclosing_area=c.num('p_E'), polygon=c.num('polygon'), xr=tup(c.num('x0'), c.num('x1')), yr=tup(c.num('y0'), c.num('y1')),
             max_threads=c.num('p_threads'), trials=trials, measure=measure)
    return c.new(M + 'self_pp_tuple', **d)


def result(t):
    """result of a task"""
    if t.op == 'mcall' and t.a[0] in ('.result', '.get', 'result', 'get') and t.a[1]:
        r = t.a[1][0]
        if r.op == 'bv' and r.a[1].op == 'call' and r.a[1].a[0] == 'future':
            return mk('bv', r.a[0], r.a[1].a[1][0])
        if r.op == 'call' and r.a[0] == 'future':
            return r.a[1][0]


def trial_model(c):
    c.fn(TRIAL)

    def run_trial(I, st, args, kw, node):
        a = bindargs(('self_pp', 'b', 'n', 'trial_index'), args, kw, 'run_trial')
        return mk('call', TRIAL, tuple(I.freeze(st, a[x]) for x in ('self_pp', 'b', 'n', 'trial_index')), ())
    c.I.models[TRIAL] = run_trial


def obligations(tier):
    obs = []

    def one(nm, entry, extra=()):
        def f():
            c = Ctx(opaque=[EVAL, SPRINKLE], returns={EVAL: ('s', 'num')})
            c.fn(EVAL), c.fn(SPRINKLE)
            log = []
            m = c.I.models

            def seed(I, st, args, kw, node):
                log.append(('seed', I.freeze(st, I.seqof(st, args[0] if args else kw['seed'])), band(*I.guards, st.pc)))
                return NONE
            m['numpy.random.seed'] = seed

            def sprinkle(I, st, args, kw, node):
                a = bindargs(('self', 'n', 'diam'), args, kw, 'sprinkle_discs_pp')
                log.append(('draw', a, band(*I.guards, st.pc)))
                return tup(*[tm.sym('conf_' + k, 'a', 'any') for k in ('pts', 'ids', 'hpd')])
            m[SPRINKLE] = sprinkle

            def evaluate(I, st, args, kw, node):
                a = bindargs(('self_pp', 'pts', 'ids', 'hpd'), args, kw, 'evaluate_randomness')
                log.append(('measure', a))
                return tup(c.num('measure'), c.any('p2'))
            m[EVAL] = evaluate
            s = pp(c, 100)
            b, n, i = c.num('p_b'), c.num('p_n'), c.num('z_index')
            o = c.run(M + entry, s, b, n, i, *extra)
            w = 'Randomnessanalysis.' + entry
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(w, f'ends with {a.exc}')
            order = [x[0] for x in log]
            if 'draw' not in order or 'measure' not in order:
                raise Undecided(w + ': trial not recognised')
            if order.count('seed') != 1 or order.index('seed') > order.index('draw') or order.count('draw') != 1 or seeds(o):
                raise Violation(w, f'random numbers of a trial are not determined by its index: seeding and drawing happen in the order {order} {[e.name for e in seeds(o)]}')
            if log[order.index('seed')][2] is not log[order.index('draw')][2]:
                raise Violation(w, f'the random sequence is seeded only if {tm.show(log[order.index("seed")][2])[:200]}')
            draw, meas = log[order.index('draw')][1], log[order.index('measure')][1]
            prs = [('seed', log[order.index('seed')][1], lit(num(42), c.run('spec.writer.whole', n).val, i)), ('result', o.val, c.num('measure')),
                   ('number of points', draw['n'], n), ('diameter', draw['diam'], b), ('analysis', draw['self'], s), ('analysis measured', meas['self_pp'], s)]
            prs += [(k, meas[k], tm.sym('conf_' + k, 'a', 'any')) for k in ('pts', 'ids', 'hpd')]
            return dict(methods=[equal(w, prs)], functions=[w])
        obs.append(Ob(nm, f))
    def sources():
        g = graph()
        root = M + 'run_trial'
        if root not in g.defs:
            raise Undecided('run_trial not found')
        seen, via = g.reachable([root])
        inner = g.reachable([x for x in (SPRINKLE, EVAL) if x in g.defs])[0]
        sites = 0
        for q in sorted(seen):
            for kind, t, n in g.callees().get(q, []):
                sites += 1
                where = f'{q[12:]} line {n.lineno}'
                if kind == 'ext':
                    if t == 'numpy.random.seed':
                        if q in inner:
                            raise Violation(where, f'the random sequence of a trial is reseeded ({g.path(via, q)})')
                    elif t.startswith('numpy.random.'):
                        last = t.split('.')[2]
                        if last[:1].isupper() or last in ('default_rng', 'get_state', 'set_state', 'bit_generator'):
                            raise Violation(where, f'{t} takes random numbers from a source that the trial does not seed ({g.path(via, q)})')
                    elif t.startswith(OTHER) or t in OTHER:
                        raise Violation(where, f'{t} makes a trial depend on something other than its seed ({g.path(via, q)})')
            m, node, sc = g.defs[q]
            for x in ast.walk(node):
                if isinstance(x, ast.Global):
                    raise Violation(f'{q[12:]} line {x.lineno}', f'a trial changes the module variable {x.names[0]}, so that its result may depend on the trials run before it in the same process ({g.path(via, q)})')
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    r = g.resolve(b, g.scope_at(m, x)) if isinstance(b, ast.Name) else None
                    if r and r[0] in ('global', 'mod', 'def', 'ext'):
                        raise Violation(f'{q[12:]} line {x.lineno}', f'a trial changes {ast.unparse(x)}, which outlives it in the worker process ({g.path(via, q)})')
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    for d in x.args.defaults + [y for y in x.args.kw_defaults if y is not None]:
                        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set'):
                            raise Violation(f'{q[12:]} line {d.lineno}', f'a mutable default value is shared between the trials of a process ({g.path(via, q)})')
        return dict(methods=['call graph'], functions=sorted(x[12:] for x in seen), sites=sites)
    obs.append(Ob('sources of randomness and shared state beneath a trial', sources))
    one('one trial', 'run_trial')
    one('one trial, reporting no progress', 'run_trial_wrapper', (None,))

    def progress():
        c = Ctx(opaque=[TRIAL], returns={TRIAL: ('s', 'num')})
        trial_model(c)
        g = c.obj('spec.writer.Geom', value=c.num('z_done'))
        s = pp(c, 100)
        o = c.run(WRAP, s, c.num('p_b'), c.num('p_n'), c.num('z_index'), g)
        return dict(methods=[equal('Randomnessanalysis.run_trial_wrapper', [('result', o.val, mk('call', TRIAL, (s, c.num('p_b'), c.num('p_n'), c.num('z_index')), ())), ('trials counted', c.attr(o, g, 'value'), add(c.num('z_done'), num(1)))])],
                    functions=['Randomnessanalysis.run_trial_wrapper'])
    obs.append(Ob('one trial, reporting progress', progress))

    def many(entry, k, queue):
        nm = f'{entry}: {k} trials' + (', progress queue' if queue else '')

        def f():
            c = Ctx(opaque=[TRIAL], returns={TRIAL: ('s', 'num')})
            c.I.unroll = max(c.I.unroll, k)
            W = Workers(c)
            s = pp(c, k)
            q = W.obj(c.st, put=mk('ext', 'spec.put')) if queue else NONE
            c.I.models['spec.put'] = lambda I, st, a, kw, node: NONE
            b, n = c.num('p_b'), c.num('p_n')
            trial = lambda i: mk('call', TRIAL, (s, b, n, num(i)), ())
            trial_model(c)
            o = c.run(M + entry, s, b, n, q)
            w = 'Randomnessanalysis.' + entry
            for a in o.aborts:
                if a.pc is TRUE:
                    raise Violation(w, f'ends with {a.exc}')
            if o.val.op not in ('lit', 'tuple'):
                raise Undecided(w + ': list of results not recognised: ' + tm.show(o.val)[:200])
            if seeds(o):
                raise Violation(w, 'uses random numbers outside the trials')
            want = [trial(i) for i in range(k)]
            for i, x in enumerate(o.val.a):
                if x.op != 'call' and x not in want:
                    raise Undecided(w + ': result not recognised: ' + tm.show(x)[:200])
            if list(o.val.a) != want:
                if k > 12:
                    i = next((i for i, (x, y) in enumerate(zip(o.val.a, want)) if x is not y), min(k, len(o.val.a)))
                    raise Violation(w, f'{k} trials give {len(o.val.a)} results, of which number {i} is {tm.show(o.val.a[i])[-120:] if i < len(o.val.a) else "missing"} instead of one result per trial in trial order')
                raise Violation(w, f'{k} trials give the results {[tm.show(x)[-120:] for x in o.val.a]} instead of one result per trial in trial order')
            return dict(methods=['value numbering'], functions=[w])
        obs.append(Ob(nm, f))
    def any_number(entry, queue):
        def f():
            c = Ctx(opaque=[TRIAL], returns={TRIAL: ('p', 'num'), 'future': ('p', 'inst:spec.Future')})
            W = Workers(c)
            trial_model(c)
            m = c.I.models
            m['spec.submit'] = lambda I, st, a, kw, node: mk('call', 'future', (I.call_term(st, a[0], list(a[1:]), kw, node),), ())
            m['concurrent.futures.as_completed'] = lambda I, st, a, kw, node: interp.slice_(I.seqof(st, a[0]), NONE, NONE, num(-1))
            m['spec.put'] = lambda I, st, a, kw, node: NONE
            N = tm.length(c.arr('trial'))
            s = pp(c, N)
            q = W.obj(c.st, put=mk('ext', 'spec.put')) if queue else NONE
            o = c.run(M + entry, s, c.num('p_b'), c.num('p_n'), q)
            w = 'Randomnessanalysis.' + entry
            if seeds(o):
                raise Violation(w, 'uses random numbers outside the trials')
            val = tm.rewrite(o.val, result)
            r = c.run('spec.writer.trials', c.fn(TRIAL), s, c.num('p_b'), c.num('p_n'), N)
            return dict(methods=[equal(w, [('results', val, r.val)])], functions=[w])
        obs.append(Ob(f'{entry}: any number of trials' + (', progress queue' if queue else ''), f))
    any_number('montecarlo_pp', 0)
    any_number('montecarlo_pp', 1)
    any_number('montecarlo_serial', 0)
    any_number('montecarlo_serial', 1)
    for e in ('montecarlo_pp', 'montecarlo_serial'):
        for k in (1, 2, 5) if tier == 'quick' else range(1, 13):
            for q in (0, 1):
                many(e, k, q)
        for k in (1237,) if tier == 'quick' else (1237, 4099):
            many(e, k, 0)
    return obs
