"""Obligations: each compares the value-flow of a public entry point (extracted from /repo's current source) with a
reference definition, or evaluates a predicate over it.  Every obligation runs in a forked process with a time and
memory limit; what cannot be decided within them is reported as undecided, never as a violation."""
import os, sys, time, json, signal, traceback, resource, multiprocessing as mp
from . import terms as tm, reval
from .project import Project
from .interp import Interp, State, Unsupported, Limit
from .terms import TRUE, FALSE, NONE, band, bor, bnot, atom, ite, lit, cat, tup, string, num, mk, T, div, sub, add, mul

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSERS = ('craterstats.gm.file.read_textstructure.read_textstructure', 'craterstats.gm.file.read_textfile.read_textfile')


class Violation(Exception):
    def __init__(self, construct, what, witness=None):
        self.construct, self.what, self.witness = construct, what, witness


class Undecided(Exception):
    pass


class Outcome:
    pass


AFTER = []          # called after every run: (context, entry, arguments, keyword arguments, state before, outcome)
COMPARE = [True]    # False: equal() accepts everything (another property's comparison is not the question)
_project = None


def project():
    global _project
    if _project is None:
        d = os.path.join(HERE, 'specs')
        _project = Project(extra=[('spec.' + f[:-3] if f != '__init__.py' else 'spec', os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.py')])
    return _project


class Ctx:
    def __init__(self, opaque=(), hints=None, kinds=None, steps=400000, inline_parsers=False, budget=900000, returns=None, attrs=None):
        tm.budget(budget)
        tm.RETURNS.update(returns or {})
        tm.ATTRS.update(attrs or {})
        self.I = I = Interp(project(), opaque=list(opaque) + ([] if inline_parsers else list(PARSERS)))
        I.max_steps = steps
        I.attrhints = dict(hints or {})
        I.module('craterstats')
        for m in project().modules:
            if m.startswith('spec'):
                I.module(m)
        self.st = I.state0.copy()
        self.lens = {}

    # ---- symbolic inputs
    def num(self, n):
        return tm.sym(n, 's', 'num')

    def arr(self, n):
        return tm.sym(n, 'a', 'num')

    def strs(self, n):
        return tm.sym(n, 'a', 'str')

    def str(self, n):
        return tm.sym(n, 's', 'str')

    def bool(self, n):
        return tm.sym(n, 's', 'bool')

    def any(self, n):
        return tm.sym(n, '?')

    def inst(self, n, cls):
        return tm.sym(n, 's', 'inst:' + self.cls(cls))

    def cls(self, cls):
        return cls if '.' in cls else f'craterstats.{cls}.{cls}'

    def obj(self, cls, **kw):
        if '.' in cls:
            self.I.module(cls.rsplit('.', 1)[0])
        return self.I.new(self.st, 'obj', {k: self.c(v) for k, v in kw.items()}, self.cls(cls))

    def new(self, cls, *args, **kw):
        """object built by the class's own constructor (on the base state)"""
        q = self.cls(cls)
        self.I.module(q.rsplit('.', 1)[0])
        f = self.fn(q)
        r = self.I.call_term(self.st, f, [self.c(a) for a in args], {k: self.c(v) for k, v in kw.items()}, None)
        if self.st.pc is FALSE:
            raise Undecided('constructor of ' + q + ' never returns')
        self.st.pc = TRUE
        return r

    def dict(self, **kw):
        return self.I.newdict(self.st, mk('dict', *[(string(k), self.c(v)) for k, v in kw.items()]))

    def list(self, *xs):
        return self.I.newlist(self.st, lit(*[self.c(x) for x in xs]))

    def c(self, v):
        if isinstance(v, T):
            return v
        if v is None:
            return NONE
        if v is True or v is False:
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            from fractions import Fraction
            if v == float('inf'):
                return tm.INF
            return num(Fraction(str(v)))
        if isinstance(v, str):
            return string(v)
        if isinstance(v, tuple):
            return tup(*[self.c(x) for x in v])
        if isinstance(v, list):
            return self.list(*v)
        if isinstance(v, dict):
            return self.I.newdict(self.st, mk('dict', *[(self.c(k), self.c(x)) for k, x in v.items()]))
        raise TypeError(v)

    # ---- running an entry point
    def fn(self, q):
        f = self.I.globalname(q)
        if f is None or f.op in ('noattr', 'undef', 'ext'):
            raise Undecided('entry point not found: ' + q)
        if f.op in ('staticm', 'classm', 'prop'):
            f = f.a[0]
        return f

    def run(self, f, *args, **kw):
        """f: qualified name, or (receiver, method name)"""
        I = self.I
        st = (kw.pop('_st', None) or self.st).copy()
        before = st.copy() if AFTER else None
        I.effects, I.aborts, I.steps, I.randn = [], [], 0, 0
        args = [self.c(a) for a in args]
        kw = {k: self.c(v) for k, v in kw.items()}
        o = Outcome()
        o.entry = f if isinstance(f, str) else f[1]
        if isinstance(f, tuple):
            o.val = I.call_method(st, f[0], f[1], args, kw, None)
        elif isinstance(f, T):
            o.val = I.call_term(st, f, args, kw, None)
        else:
            o.val = I.call_term(st, self.fn(f), args, kw, None)
        o.st, o.pc = st, st.pc
        o.effects, o.aborts = I.effects, I.aborts
        o.raw = o.val
        o.val = I.freeze(st, o.val) if st.pc is not FALSE else NONE
        o.I = I
        for h in AFTER:
            h(self, f, args, kw, before, o)
        return o

    def attr(self, o, obj, name):
        """value of obj.name after the run"""
        return self.I.freeze(o.st, self.I.get_attr(o.st, obj, name, None))

    def set(self, o, **kw):
        """attributes of a constructed object replaced by symbolic values"""
        for k, v in kw.items():
            self.I.set_attr(self.st, o, k, self.c(v))
        return o

    def item(self, o, d, k):
        """value of d[k] after the run, frozen"""
        return self.I.freeze(o.st, self.I.index(o.st, d, self.c(k), None))

    def get(self, o, v):
        return self.I.freeze(o.st, v)


# ------------------------------------------------------------------ effects as terms
def effect_seq(o, pick, form):
    """sequence term of form(effect) for the effects selected by pick, loops instantiated"""
    es = [e for e in o.effects if pick(e)]

    def build(es, d):
        parts = []
        i = 0
        while i < len(es):
            e = es[i]
            if len(e.loops) <= d:
                parts.append(ite(e.pc, lit(form(e)), lit()))
                i += 1
                continue
            k, seq = e.loops[d]
            j = i
            while j < len(es) and len(es[j].loops) > d and es[j].loops[d][0] == k:
                j += 1
            body = build(es[i:j], d + 1)
            if body.op == 'lit' and len(body.a) == 1:
                parts.append(tm.comp(body.a[0], k, seq))
            elif body.op == 'ite' and body.a[1].op == 'lit' and len(body.a[1].a) == 1 and body.a[2].op == 'lit' and not body.a[2].a:
                parts.append(tm.comp(body.a[1].a[0], k, seq, body.a[0]))
            else:
                parts.append(mk('flat', tm.abstract(body, k), tm.abstract(TRUE, k), seq))
            i = j
        return cat(*parts)
    return build(es, 0)


def full(e):
    return tup(string(e.name), e.recv if isinstance(e.recv, T) else NONE, tup(*e.args), tup(*[tup(string(k), v) for k, v in sorted(e.kw)]))


def argsof(e):
    return tup(tup(*e.args), tup(*[tup(string(k), v) for k, v in sorted(e.kw)]))


def calls(o, name):
    """effects by the last component of the called name"""
    return [e for e in o.effects if e.name.rsplit('.', 1)[-1] == name]


def kwarg(e, name, default=NONE):
    return dict(e.kw).get(name, default)


def abort_pc(o):
    return bor(*[a.pc for a in o.aborts if not a.loops]) if o.aborts else FALSE


# ------------------------------------------------------------------ deciding equality
VOCAB = None


def extnames(t):
    s = set()
    for x in tm.subterms(t):
        if x.op in ('call', 'rand', 'mcall', 'ext'):
            s.add(x.a[0].rsplit('.', 1)[-1])
        elif x.op == 'attr':
            s.add(x.a[1])
    return s


def vocabulary():
    """names the reference definitions and the analysed tree at the time of writing use; anything else that appears in the
    code is an unknown function: a difference that rests on it is undecided, not a violation"""
    global VOCAB
    if VOCAB is None:
        try:
            VOCAB = set(json.load(open(os.path.join(HERE, 'specs', 'vocabulary.json')))) | {x.rsplit('.', 1)[-1] for x in reval.CALLS} | {'minimum', 'maximum', 'round', 'float', 'int', 'str', 'repr'}
        except FileNotFoundError:
            VOCAB = set()
    return VOCAB


RECORD = None       # set by mkvocab to collect names


def equal(where, pairs, guard=TRUE, samples=None, lens=None, ties=True, strict=False):
    """pairs: [(label, code term, reference term)]; returns the deciding method or raises Violation / Undecided"""
    if not COMPARE[0]:
        return 'not compared'
    samples = samples or (60 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 400)
    left = [(l, a, b) for l, a, b in pairs if a is not b]
    if RECORD is not None:
        for _, a, b in pairs:
            RECORD.update(extnames(a) | extnames(b))
    if not left:
        return 'value numbering'
    why = []
    for seed in (1,) if os.environ.get('VERIF_TIER', 'quick') == 'quick' else (1, 2, 3):
        r = reval.compare(left, guard, samples=samples, lens=lens, ties=ties, seed=seed)
        if r[0] == 'differ':
            lab, (va, vb, I) = r[1], r[2]
            a, b = r[3]
            unknown = extnames(a) - set().union(*[extnames(x) for _, _, x in pairs]) - vocabulary()
            if unknown:
                raise Undecided(f'{where}: {lab} differs but rests on functions without a definition: {sorted(unknown)[:5]}')
            raise Violation(where, f'{lab} differs from its definition', dict(code=clip(va), definition=clip(vb), seed=str(I.seed), code_term=str(tm.show(a))[:1500], reference_term=str(tm.show(b))[:1500]))
        if r[0] == 'vacuous':
            raise Undecided(f'{where}: no interpretation gives a value for {r[1]}')
    return f'random interpretation ({r[1]})'


def clip(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


# ------------------------------------------------------------------ obligations
class Ob:
    """one obligation. fn(): returns a dict of evidence, raises Violation/Undecided"""

    def __init__(self, name, fn, where='', tier='quick', limit=None):
        self.name, self.fn, self.where, self.tier, self.limit = name, fn, where, tier, limit


def run_ob(ob, limit, memory):
    t = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (memory << 20, memory << 20))
        sys.setrecursionlimit(60000)
        import threading
        threading.stack_size(512 << 20)
        box = {}

        def go():
            try:
                box['r'] = ('ok', ob.fn())
            except Violation as e:
                box['r'] = ('violation', dict(construct=e.construct, what=e.what, witness=e.witness))
            except Undecided as e:
                box['r'] = ('undecided', str(e))
            except (Unsupported, Limit) as e:
                box['r'] = ('undecided', f'{type(e).__name__}: {e}')
            except (MemoryError, RecursionError) as e:
                box['r'] = ('undecided', type(e).__name__)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                box['r'] = ('undecided', f'internal {type(e).__name__}: {e} @{os.path.basename(tb.filename)}:{tb.lineno}')
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
        th = threading.Thread(target=go, daemon=True)
        th.start()
        th.join(limit)
        r = box.get('r', ('undecided', f'time limit {limit} s'))
    except BaseException as e:
        r = ('undecided', repr(e))
    return dict(name=ob.name, status=r[0], detail=r[1], wall=round(time.time() - t, 2))


def run_all(obs, limit=90, memory=6000, workers=None):
    workers = workers or min(8, os.cpu_count() or 4)
    project()
    res = [None] * len(obs)
    live = {}
    todo = list(range(len(obs)))[::-1]
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop()
            a, b = mp.Pipe(False)

            def child(i=i, b=b):
                r = run_ob(obs[i], obs[i].limit or limit, memory)
                try:
                    b.send(r)
                except Exception:
                    b.send(dict(name=obs[i].name, status=r['status'], detail=str(r['detail'])[:2000], wall=r['wall']))
                b.close()
                os._exit(0)
            p = mp.get_context('fork').Process(target=child)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        time.sleep(.005)
        for i in list(live):
            p, a, t0 = live[i]
            alive = p.is_alive()
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(name=obs[i].name, status='undecided', detail='process ended', wall=0)
            elif not alive:
                res[i] = dict(name=obs[i].name, status='undecided', detail='process ended', wall=0)
            elif time.time() - t0 > (obs[i].limit or limit) + 20:
                p.kill()
                res[i] = dict(name=obs[i].name, status='undecided', detail='killed at time limit', wall=round(time.time() - t0, 1))
            if res[i] is not None:
                p.join(2)
                if p.is_alive():
                    p.kill()
                del live[i]
    return res
