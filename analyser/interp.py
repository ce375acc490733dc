"""Value-flow extraction: evaluates the package's syntax trees over hash-consed value terms.

Branches are merged with gating conditions (gated single assignment), loops are summarised
as maps / filters / sums / folds, calls into the package are inlined from its source, calls into
other libraries stay uninterpreted or are rewritten by the models in lib.py.  Nothing of the
analysed package is executed."""
import ast, itertools, sys
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, num, string, sym, TRUE, FALSE, NONE, ZERO, ONE, INF, NAN, E, PI, add, sub, neg, mul, div, power,
                    band, bor, bnot, bite, atom, truth, lt, le, eq, isnone, isin, ite, scat, fmt, lit, cat, zipseq, sel, slice_,
                    idx, el, comp, tup, kind, isnum, isconst, length, count, attr, call)

sys.setrecursionlimit(40000)
ABSENT = mk('absent')
_ids = itertools.count(1)


Limit = tm.Limit


class Unsupported(Exception):
    pass


class Cell:
    __slots__ = ('kind', 'v', 'cls')

    def __init__(self, kind, v, cls=None):
        self.kind, self.v, self.cls = kind, v, cls


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=TRUE):
        self.heap, self.pc = heap, pc

    def copy(self, pc=None):
        return State(dict(self.heap), self.pc if pc is None else pc)


class Fn:
    def __init__(self, node, module, env, name, cls=None, interp=None):
        self.node, self.module, self.env, self.name, self.cls = node, module, env, name, cls
        self.defaults = None


class Frame:
    def __init__(self, fn, module, env, cls=None):
        self.fn, self.module, self.env, self.cls = fn, module, env, cls
        self.returns = []
        self.globals = set()
        self.loopctl = []
        self.yields = None


class Effect:
    __slots__ = ('pc', 'loops', 'name', 'args', 'kw', 'node', 'fn', 'recv')

    def __init__(self, pc, loops, name, recv, args, kw, node, fn):
        self.pc, self.loops, self.name, self.recv, self.args, self.kw, self.node, self.fn = pc, loops, name, recv, args, kw, node, fn

    def __repr__(self):
        return f'<{self.name} pc={self.pc} recv={self.recv} args={self.args} kw={self.kw} loops={len(self.loops)}>'


class Abort:
    __slots__ = ('pc', 'exc', 'msg', 'node', 'fn', 'state', 'loops')

    def __init__(self, pc, exc, msg, node, fn, state, loops):
        self.pc, self.exc, self.msg, self.node, self.fn, self.state, self.loops = pc, exc, msg, node, fn, state, loops

    def __repr__(self):
        return f'<abort {self.exc} {self.msg} if {self.pc}>'


def ref(n):
    return mk('ref', n)


def vec2(t):
    return {'colvec': 'col', 'rowvec': 'row'}.get(t.a[0]) if t.op == 'call' else None


def rank2(t):
    """rows of an array given row by row, None for anything else"""
    if t.op == 'lit' and t.a and all(tm.shape(r) == 'a' and r.op != 'tuple' for r in t.a):
        return t.a


def submatrix(m, i, j):
    def at(l, x, f):
        if x.op == 'slc':
            z = [None if v is NONE else int(v.a[0]) if isnum(v) else [] for v in x.a]
            return lit(*[f(e) for e in l[slice(*z)]])
        if isnum(x):
            return f(l[int(x.a[0])])
        raise TypeError
    return at(m, i, lambda r: at(r, j, lambda e: e))


# order in which the elements of a set of texts are met: None (as built), 'up' or 'down'
ORDER = [None]
MET = [0]


def hashed(t):
    """value whose place in a set differs from one process to the next"""
    return kind(t) == 'str' or t.op == 'tuple' and any(hashed(e) for e in t.a)


def arranged(v, order=None):
    if v.op == 'uniq' and v.a[0].op == 'lit' and all(hashed(e) for e in v.a[0].a):
        v = v.a[0]          # which of the elements are equal is not known: all of them, in either order
    if v.op != 'lit' or len(v.a) < 2 or not all(hashed(e) for e in v.a):
        return v
    if order is None:
        MET[0] += 1
    r = sorted(v.a, key=tm.show)
    return lit(*(r[::-1] if (order or ORDER[0]) == 'down' else r))


def _counter(s):
    """(name, limit, limit included) of a loop 'while name < limit: ...; name += 1'"""
    t = s.test
    if not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return
    x, y, o = t.left, t.comparators[0], t.ops[0]
    if isinstance(o, (ast.Gt, ast.GtE)):
        x, y = y, x
    elif not isinstance(o, (ast.Lt, ast.LtE)):
        return
    if isinstance(x, ast.Name):
        return x.id, y, isinstance(o, (ast.LtE, ast.GtE))


def _ranged(s, name):
    if not hasattr(s, '_ranged'):
        n = lambda i, c: ast.Name(i, c())
        s._ranged = ast.For(n('__counter', ast.Store), ast.Constant(None), [ast.Assign([n(name, ast.Store)], n('__counter', ast.Load))] + s.body, s.orelse)
        ast.copy_location(s._ranged, s)
        ast.fix_missing_locations(s._ranged)
    return s._ranged


class Interp:
    def __init__(self, project, opaque=(), models=None, opaque_suffix=()):
        from . import lib
        self.project = project
        self.lib = lib
        self.opaque = set(opaque)          # qualified names of package functions left uninterpreted
        self.opaque_pred = lambda q: False
        self.models = models or {}
        self.fns = {}
        self.clss = {}
        self.state0 = State({})
        self.guards = []
        self.loops = []
        self.effects = []
        self.aborts = []
        self.mute = 0
        self.trystack = []
        self.stack = []
        self.steps = 0
        self.max_steps = 400000
        self.fnkeys = {}
        self.inlined = set()
        self.unroll = 80
        self.maxstack = 60
        self.cellbase = {}

    # ------------------------------------------------------------ heap
    def new(self, st, kind, v, cls=None):
        r = ref(next(_ids))
        st.heap[r.id] = Cell(kind, v, cls)
        return r

    def cell(self, st, t):
        if t.op == 'ref':
            return st.heap.get(t.id) or self.state0.heap.get(t.id)
        return None

    def newlist(self, st, seq):
        return self.new(st, 'list', seq)

    def newdict(self, st, d):
        return self.new(st, 'dict', d)

    def setcell(self, st, r, v):
        c = self.cell(st, r)
        st.heap[r.id] = Cell(c.kind, v, c.cls)

    def deref(self, st, t):
        """list/dict/set reference -> contents; other values unchanged"""
        if t.op == 'ref':
            c = self.cell(st, t)
            if c.kind in ('list', 'dict', 'set'):
                return c.v if c.kind != 'set' or ORDER[0] is None else arranged(c.v)
            if c.kind == 'obj' and '__seq__' in c.v:
                return c.v['__seq__']
        elif t.op == 'ite':
            a, b = self.deref(st, t.a[1]), self.deref(st, t.a[2])
            if a is not t.a[1] or b is not t.a[2]:
                return ite(t.a[0], a, b)
        return t

    def freeze(self, st, t, depth=0, fm=None):
        """deep value of t without heap references"""
        fm = {} if fm is None else fm        # ref id -> frozen value (None while in progress)

        def f(x):
            if x.op == 'ref':
                if x.id in fm:
                    return fm[x.id] if fm[x.id] is not None else mk('cyc')
                c = self.cell(st, x)
                if c is None:
                    return None
                fm[x.id] = None
                if c.kind in ('list', 'dict', 'set'):
                    r = tm.rewrite(c.v, f, memo) if has(c.v) else c.v
                    if c.kind == 'set' and ORDER[0] is not None:
                        r = mk('anyorder', arranged(r, 'up'))
                elif c.kind == 'obj' and c.v.get('__sym__') is not None:
                    r = c.v['__sym__']
                    over = tuple(sorted((k, tm.rewrite(v, f, memo) if has(v) else v) for k, v in c.v.items() if not k.startswith('__')))
                    if over:
                        r = mk('new', c.cls, (('__base__', r),) + over)
                elif c.kind == 'obj':
                    items = tuple(sorted((k, tm.rewrite(v, f, memo) if has(v) else v) for k, v in c.v.items() if not k.startswith('__')))
                    r = mk('new', c.cls, items)
                else:
                    r = None
                fm[x.id] = r
                return r
            if x.op == 'bound' and x.a[1].op == 'fn':
                return mk('bound', tm.rewrite(x.a[0], f, memo), mk('fname', self.fns[x.a[1].a[0]].name))
            if x.op == 'fn':
                fn = self.fns[x.a[0]]
                if (isinstance(fn.node, ast.Lambda) or fn.env is not None) and depth < 6:
                    return self.lam(st, x, depth, fm)
                return mk('fname', fn.name)
            return None
        hm = {}

        def has(v):
            return tm.has_ref(v)
        if not has(t):
            return t
        memo = fm.setdefault('memo', {})
        return tm.rewrite(t, f, memo)

    def lam(self, st, fnt, depth, fm):
        fn = self.fns[fnt.a[0]]
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        bvs = [mk('larg', i) for i in range(len(names))]
        s = st.copy(TRUE)
        self.mute += 1
        try:
            r = self.call_fn(s, fnt, bvs, {}, None)
            return mk('lam', len(names), self.freeze(s, r, depth + 1)) if r is not None else mk('lam', 0, mk('never'))
        except (Unsupported, RecursionError):
            return mk('fname', fn.name)
        finally:
            self.mute -= 1

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, pc):
        """state equal to s1 if c else s2 (either may be None)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        h = {}
        for k in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b or b is None:
                h[k] = a
            elif a is None:
                h[k] = b
            elif a.v is b.v:
                h[k] = a
            else:
                h[k] = Cell(a.kind, self.mergev(c, a, b), a.cls)
        return State(h, pc)

    def mergev(self, c, a, b):
        if a.kind in ('env', 'obj'):
            d = {}
            for k in list(a.v) + [k for k in b.v if k not in a.v]:
                x, y = a.v.get(k, ABSENT), b.v.get(k, ABSENT)
                d[k] = x if x is y else ite(c, x, y)
            return d
        if a.kind == 'dict':
            return self.merged(c, a.v, b.v)
        return ite(c, a.v, b.v)

    def merged(self, c, x, y):
        if x.op == 'dict' and y.op == 'dict':
            ks = [k for k, _ in x.a] + [k for k, _ in y.a if not any(k is k2 for k2, _ in x.a)]
            dx, dy = dict(x.a), dict(y.a)
            return mk('dict', *[(k, ite(c, dx.get(k, ABSENT), dy.get(k, ABSENT)) if dx.get(k) is not dy.get(k) else dx[k]) for k in ks])
        return ite(c, x, y)

    def fullpc(self, st):
        return band(*self.guards, st.pc)

    def effect(self, st, name, recv, args, kw, node):
        if self.mute:
            return
        pc = self.fullpc(st)
        if pc is FALSE:
            return
        self.effects.append(Effect(pc, tuple(self.loops), name, recv, tuple(args), tuple(kw.items()) if isinstance(kw, dict) else tuple(kw), node,
                                   self.stack[-1].fn.name if self.stack and self.stack[-1].fn else None))

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.project.modules.get(name)
        if m is None:
            return None
        if m.state == 'new' or getattr(m, 'owner', None) is not self:
            if '.' in name and name.rsplit('.', 1)[0] in self.project.modules:
                m.owner, m.state = None, 'new'
                self.module(name.rsplit('.', 1)[0])         # parent package first
                if m.owner is self:
                    return m
            r = self.new(self.state0, 'env', {})
            m.owner, m.nsref = self, r
            m.state = 'loading'
            fr = Frame(None, m, r)
            self.stack.append(fr)
            g, self.guards = self.guards, []
            lo, self.loops = self.loops, []
            ts, self.trystack = self.trystack, []
            self.mute += 1
            self.set_env(self.state0, r, '__name__', string(name))
            self.set_env(self.state0, r, '__file__', sym('__file__', 's', 'str'))
            st = self.state0
            for s in m.tree.body:
                try:
                    o = self.exec(st, fr, [s])
                    if o is not None and o is not st:
                        st.heap.update(o.heap)
                    st.pc = TRUE
                except Unsupported:
                    pass
            self.mute -= 1
            self.guards, self.loops, self.trystack = g, lo, ts
            self.stack.pop()
            m.state = 'done'
            if '.' in name:
                p, q = name.rsplit('.', 1)
                if p in self.project.modules and getattr(self.project.modules[p], 'nsref', None) is not None:
                    self.cell(self.state0, self.project.modules[p].nsref).v.setdefault(q, mk('mod', name))
        return m

    def set_env(self, st, r, k, v):
        c = self.cell(st, r)
        d = dict(c.v)
        d[k] = v
        st.heap[r.id] = Cell(c.kind, d, c.cls)

    def mod_attr(self, st, name, a):
        m = self.module(name)
        if m is not None:
            c = self.cell(st, m.nsref)
            c0 = self.cell(self.state0, m.nsref)
            if a in c.v:
                return c.v[a]
            if a in c0.v:
                return c0.v[a]
            if name + '.' + a in self.project.modules:
                self.module(name + '.' + a)
                return mk('mod', name + '.' + a)
            return None
        return self.ext(name + '.' + a)

    def ext(self, dotted):
        v = self.lib.CONSTANTS.get(self.lib.canon(dotted))
        if v is not None:
            return v
        return mk('ext', self.lib.canon(dotted))

    def globalname(self, q):
        """term of a dotted package-level name"""
        parts = q.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if m in self.project.modules:
                t = self.mod_attr(self.state0, m, parts[i])
                for p in parts[i + 1:]:
                    if t is None:
                        return None
                    t = self.get_attr(self.state0, t, p, None)
                return t
        return None

    # ------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        env = fr.env
        fn = fr.fn
        if name not in fr.globals:
            while env is not None:
                c = self.cell(st, env)
                if c is not None and name in c.v:
                    v = c.v[name]
                    return v
                env = c.cls if c is not None and c.cls is not None else None
        v = self.mod_attr(st, fr.module.name, name)
        if v is not None:
            return v
        if name in self.lib.BUILTIN_EXC:
            return mk('ext', name)
        if name in self.lib.BUILTINS or name in self.lib.PYBUILTINS:
            return mk('ext', name)
        return mk('undef', name)

    def assign_name(self, st, fr, name, v):
        if name in fr.globals:
            self.set_env(st, fr.module.nsref, name, v)
        else:
            self.set_env(st, fr.env, name, v)

    # ------------------------------------------------------------ statements
    def exec(self, st, fr, body):
        """execute statements; returns the live state or None"""
        for s in body:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit()
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported(type(s).__name__)
            st = m(st, fr, s)
            if st is not None and st.pc is FALSE:
                st = None
        return st

    def s_Expr(self, st, fr, s):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(st, fr, s.value)
        return st if st.pc is not FALSE else None

    def s_Pass(self, st, fr, s):
        return st

    def s_Import(self, st, fr, s):
        for a in s.names:
            if a.asname:
                self.assign_name(st, fr, a.asname, self.import_(a.name))
            else:
                self.import_(a.name)
                top = a.name.split('.')[0]
                self.assign_name(st, fr, top, self.import_(top))
        return st

    def import_(self, name):
        if name in self.project.modules:
            self.module(name)
            return mk('mod', name)
        return mk('ext', self.lib.canon(name))

    def s_ImportFrom(self, st, fr, s):
        m = fr.module
        if s.level:
            base = m.name if m.pkg else m.name.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit('.', 1)[0]
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        if name in self.project.modules:
            self.module(name)
        for a in s.names:
            if a.name == '*':
                mm = self.project.modules.get(name)
                if mm is not None:
                    ns = self.cell(self.state0, mm.nsref).v
                    for k, v in list(ns.items()):
                        if not k.startswith('_'):
                            self.assign_name(st, fr, k, v)
                continue
            v = self.mod_attr(st, name, a.name) if name in self.project.modules else self.ext(name + '.' + a.name)
            self.assign_name(st, fr, a.asname or a.name, v if v is not None else mk('undef', a.name))
        return st

    def mkfn(self, node, module, env, name, cls=None):
        k = (id(node), env.id if env is not None else 0)
        if k not in self.fnkeys:
            n = next(_ids)
            self.fns[n] = Fn(node, module, env, name, cls)
            self.fnkeys[k] = mk('fn', n)
        return self.fnkeys[k]

    def s_FunctionDef(self, st, fr, s):
        env = fr.env if fr.fn is not None else None
        base = (fr.fn.name + '.' if fr.fn else fr.module.name + '.')
        t = self.mkfn(s, fr.module, env, base + s.name)
        self.fns[t.a[0]].defaults = self.defaults(st, fr, s.args)
        for d in reversed(s.decorator_list):
            f = self.ev(st, fr, d)
            t = self.lib.decorate(self, st, f, t)
        self.assign_name(st, fr, s.name, t)
        return st

    def defaults(self, st, fr, a):
        ps = a.posonlyargs + a.args
        d = {}
        for p, v in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[p.arg] = self.ev(st, fr, v)
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = self.ev(st, fr, v)
        return d

    def s_ClassDef(self, st, fr, s):
        name = (fr.fn.name + '.' if fr.fn else fr.module.name + '.') + s.name
        if fr.cls:
            name = fr.cls + '.' + s.name
        bases = [self.ev(st, fr, b) for b in s.bases]
        r = self.new(st, 'env', {}, None)
        f2 = Frame(fr.fn, fr.module, r, cls=name)
        # class body: names resolve in class namespace, then module
        f2.fn = None
        c = mk('cls', name)
        self.clss[name] = dict(bases=bases, node=s, module=fr.module, nsref=r)
        env_parent = fr.env if fr.fn is not None else None
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                t = self.mkfn(b, fr.module, env_parent, name + '.' + b.name, cls=name)
                self.fns[t.a[0]].defaults = self.defaults(st, f2, b.args)
                for d in reversed(b.decorator_list):
                    t = self.lib.decorate(self, st, self.ev(st, f2, d), t)
                self.set_env(st, r, b.name, t)
            else:
                self.stack.append(f2)
                o = self.exec(st, f2, [b])
                self.stack.pop()
        self.clss[name]['ns'] = dict(self.cell(st, r).v)
        self.assign_name(st, fr, s.name, c)
        return st

    def mro(self, cname):
        out = [cname]
        for b in self.clss.get(cname, {}).get('bases', []):
            if b.op == 'cls':
                out += [x for x in self.mro(b.a[0]) if x not in out]
        return out

    def class_attr(self, cname, a):
        for c in self.mro(cname):
            ns = self.clss.get(c, {}).get('ns')
            if ns is None:
                continue
            if a in ns:
                return ns[a], c
        return None, None

    def unknown_base(self, cname):
        return any(b.op != 'cls' for c in self.mro(cname) for b in self.clss.get(c, {}).get('bases', []))

    def s_Return(self, st, fr, s):
        v = self.ev(st, fr, s.value) if s.value is not None else NONE
        if st.pc is FALSE:
            return None
        fr.returns.append((st.pc, v, st))
        return None

    def s_Assign(self, st, fr, s):
        v = self.ev(st, fr, s.value)
        if st.pc is FALSE:
            return None
        for t in s.targets:
            self.assign(st, fr, t, v)
        return st

    def s_AnnAssign(self, st, fr, s):
        if s.value is not None:
            self.assign(st, fr, s.target, self.ev(st, fr, s.value))
        return st

    def s_AugAssign(self, st, fr, s):
        cur = self.ev(st, fr, _load(s.target))
        v = self.ev(st, fr, s.value)
        if cur.op == 'ref' and isinstance(s.op, ast.Add):
            c = self.cell(st, cur)
            if c.kind == 'list':
                self.setcell(st, cur, cat(self.seqof(st, c.v), self.seqof(st, v)))
                return st
        self.lib.note_inplace(self, st, fr, s, cur)
        self.assign(st, fr, s.target, self.binop(st, s.op, cur, v, s))
        return st

    def s_Delete(self, st, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(st, fr, t.value)
                i = self.ev(st, fr, t.slice)
                if o.op == 'ref':
                    c = self.cell(st, o)
                    if c.kind == 'dict':
                        self.setcell(st, o, self.dict_del(c.v, i))
                    elif c.kind == 'list':
                        self.setcell(st, o, mk('delidx', c.v, i))
            elif isinstance(t, ast.Name):
                c = self.cell(st, fr.env)
                d = dict(c.v)
                d.pop(t.id, None)
                st.heap[fr.env.id] = Cell(c.kind, d, c.cls)
        return st

    def dict_del(self, d, k):
        if d.op == 'dict' and isconst(k):
            return mk('dict', *[(a, b) for a, b in d.a if a is not k])
        return mk('dictdel', d, k)

    def s_Global(self, st, fr, s):
        fr.globals |= set(s.names)
        return st

    def s_Nonlocal(self, st, fr, s):
        fr.nonlocals = getattr(fr, 'nonlocals', set()) | set(s.names)
        return st

    def s_Assert(self, st, fr, s):
        self.ev(st, fr, s.test)
        return st

    def s_Raise(self, st, fr, s):
        if s.exc is None:
            self.raise_(st, 'reraise', NONE, s)
            return None
        if isinstance(s.exc, ast.Call):
            f = self.ev(st, fr, s.exc.func)
            msg = [self.freeze(st, self.ev(st, fr, a)) for a in s.exc.args]
            nm = f.a[0] if f.op in ('ext', 'cls') else '?'
            self.raise_(st, nm, tup(*msg), s)
        else:
            f = self.ev(st, fr, s.exc)
            self.raise_(st, f.a[0] if f.op in ('ext', 'cls') else '?', tup(), s)
        return None

    def raise_(self, st, exc, msg, node, cond=TRUE):
        pc = band(st.pc, cond)
        if pc is FALSE:
            return
        if self.trystack:
            d0, lst, _ = self.trystack[-1]
            lst.append((band(*self.guards[d0:], pc), exc, msg, st.copy(), node))
        elif not self.mute:
            self.aborts.append(Abort(band(*self.guards, pc), exc, msg, node, self.stack[-1].fn.name if self.stack and self.stack[-1].fn else None,
                                     None, tuple(self.loops)))
        st.pc = band(st.pc, bnot(cond))

    def s_If(self, st, fr, s):
        c = self.cond(st, fr, s.test)
        if st.pc is FALSE:
            return None
        c = self.under(st, c)
        if c is TRUE:
            return self.exec(st, fr, s.body)
        if c is FALSE:
            return self.exec(st, fr, s.orelse) if s.orelse else st
        return self.branch(st, c, lambda x: self.exec(x, fr, s.body), lambda x: self.exec(x, fr, s.orelse) if s.orelse else x)

    def under(self, st, c):
        """simplify condition c under the path condition"""
        if c in (TRUE, FALSE):
            return c
        full = band(*self.guards[-6:], st.pc)
        if band(full, c) is FALSE:
            return FALSE
        if band(full, bnot(c)) is FALSE:
            return TRUE
        if full is not TRUE and c.op == 'bdd':
            s = tm.implied(full, c)
            if s is not None:
                return s
        return c

    def branch(self, st, c, f, g):
        a, b = st.copy(band(st.pc, c)), st.copy(band(st.pc, bnot(c)))
        x, y = f(a), g(b)
        if x is None and y is None:
            return None
        if x is None:
            return y
        if y is None:
            return x
        return self.merge(c, x, y, bor(x.pc, y.pc))

    def s_With(self, st, fr, s):
        for it in s.items:
            v = self.ev(st, fr, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, fr, it.optional_vars, v)
        return self.exec(st, fr, s.body)

    def s_Try(self, st, fr, s):
        lst = []
        self.trystack.append((len(self.guards), lst, s))
        st1 = st.copy()
        pc0 = st.pc
        try:
            out = self.exec(st1, fr, s.body)
        finally:
            self.trystack.pop()
        if out is not None and s.orelse:
            out = self.exec(out, fr, s.orelse)
        results = []
        for (pc, exc, msg, est, node) in lst:
            # guards pushed since the try statement are frame-relative already
            handled = False
            for h in s.handlers:
                names = self.exc_names(st, fr, h.type)
                if names is None or exc in names or self.lib.exc_matches(exc, names):
                    x = est.copy(pc)
                    if h.name:
                        self.assign_name(x, fr, h.name, mk('exc', exc if isinstance(exc, str) else '?', msg))
                    r = self.exec(x, fr, h.body)
                    if r is not None:
                        results.append((pc, r))
                    handled = True
                    break
            if not handled:
                if self.trystack:
                    self.trystack[-1][1].append((pc, exc, msg, est, node))
                elif not self.mute:
                    self.aborts.append(Abort(band(*self.guards, pc), exc, msg, node, fr.fn.name if fr.fn else None, None, tuple(self.loops)))
        for pc, r in results:
            if out is None:
                out = r
            else:
                out = self.merge(pc, r, out, bor(out.pc, r.pc))
        if out is not None and s.finalbody:
            out = self.exec(out, fr, s.finalbody)
        return out

    def exc_names(self, st, fr, t):
        if t is None:
            return None
        if isinstance(t, ast.Tuple):
            out = set()
            for e in t.elts:
                n = self.exc_names(st, fr, e)
                if n is None:
                    return None
                out |= n
            return out
        v = self.ev(st, fr, t)
        n = v.a[0] if v.op in ('ext', 'cls') else '?'
        if n in ('Exception', 'BaseException'):
            return {n}
        return {n}

    def s_Match(self, st, fr, s):
        v = self.ev(st, fr, s.subject)

        def go(st, cases):
            if not cases:
                return st
            cs = cases[0]
            cond, binds = self.pattern(st, fr, cs.pattern, v)
            x = st.copy()
            for n, t in binds:
                self.assign_name(x, fr, n, t)
            if cs.guard is not None:
                cond = band(cond, self.cond(x, fr, cs.guard))
            cond = self.under(st, cond)
            if cond is FALSE:
                return go(st, cases[1:])
            if cond is TRUE:
                for n, t in binds:
                    self.assign_name(st, fr, n, t)
                return self.exec(st, fr, cs.body)

            def yes(a):
                for n, t in binds:
                    self.assign_name(a, fr, n, t)
                return self.exec(a, fr, cs.body)
            return self.branch(st, cond, yes, lambda b: go(b, cases[1:]))
        return go(st, s.cases)

    def pattern(self, st, fr, p, v):
        if isinstance(p, ast.MatchValue):
            return eq(v, self.ev(st, fr, p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return (isnone(v) if p.value is None else self.same(v, TRUE if p.value else FALSE)), []
        if isinstance(p, ast.MatchOr):
            c, b = FALSE, []
            for q in p.patterns:
                c1, b1 = self.pattern(st, fr, q, v)
                c, b = bor(c, c1), b + b1
            return c, b
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, [(p.name, v)] if p.name else []
            c, b = self.pattern(st, fr, p.pattern, v)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            w = self.deref(st, v)
            c, b = eq(length(w), num(len(p.patterns))), []
            for i, q in enumerate(p.patterns):
                c1, b1 = self.pattern(st, fr, q, idx(w, num(i)))
                c, b = band(c, c1), b + b1
            return c, b
        raise Unsupported('pattern')

    def same(self, a, b):
        return eq(a, b)

    def s_Break(self, st, fr, s):
        fr.loopctl[-1]['break'].append(st)
        return None

    def s_Continue(self, st, fr, s):
        fr.loopctl[-1]['continue'].append(st)
        return None

    def merge_all(self, states):
        """merge states with disjoint path conditions"""
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        out = states[-1]
        for s in reversed(states[:-1]):
            out = self.merge(s.pc, s, out, bor(s.pc, out.pc))
        return out

    # ------------------------------------------------------------ loops
    def s_For(self, st, fr, s):
        it = self.ev(st, fr, s.iter)
        if st.pc is FALSE:
            return None
        seq = self.iterseq(st, it)
        return self.for_seq(st, fr, s, seq)

    def for_seq(self, st, fr, s, seq):
        if seq.op == 'ite':
            return self.branch(st, seq.a[0], lambda x: self.for_seq(x, fr, s, seq.a[1]), lambda x: self.for_seq(x, fr, s, seq.a[2]))
        items = self.literal_items(seq)
        if items is not None and len(items) <= self.unroll:
            return self.unrolled(st, fr, s, items)
        if seq.op == 'cat':
            # split a partly known sequence
            out = st
            brk = []
            simple = not _has(s.body, (ast.Break,)) and not s.orelse
            if simple:
                for part in seq.a:
                    if out is None:
                        return None
                    out = self.for_seq(out, fr, s, part)
                return out
        return self.symloop(st, fr, s, seq)

    def literal_items(self, seq):
        if seq.op in ('lit', 'tuple'):
            return list(seq.a)
        if seq.op == 'cat':
            out = []
            for p in seq.a:
                if p.op == 'ite' and tm.shape(p.a[0]) == 's' and p.a[1].op == 'lit' and p.a[2].op == 'lit' and not (p.a[1].a and p.a[2].a):
                    c = p.a[0] if p.a[1].a else bnot(p.a[0])
                    out += [mk('opt', c, x) for x in (p.a[1].a or p.a[2].a)]
                elif p.op == 'lit':
                    out += list(p.a)
                else:
                    return None
            return out
        if seq.op == 'zip':
            ls = [self.literal_items(x) for x in seq.a]
            if any(l is not None and any(x.op == 'opt' for x in l) for l in ls):
                return None
            known = [x for x in ls if x is not None]
            if not known:
                return None
            n = min(len(x) for x in known)
            out = []
            for i in range(n):
                e = []
                for x, l in zip(seq.a, ls):
                    if l is not None:
                        e.append(l[i])
                    elif x.op == 'count_from':
                        e.append(add(x.a[0], num(i)))
                    elif tm.length(x).op == 'num' and tm.length(x).a[0] >= n:
                        e.append(tm.idx(x, num(i)))
                    else:
                        return None
                out.append(tup(*e))
            return out
        if seq.op == 'argsort' and seq.a[0].op == 'lit' and len(seq.a[0].a) <= 4:
            n = len(seq.a[0].a)
            return list(self.lib._perm_sort([num(i) for i in range(n)], seq.a[0].a, seq.a[1]).a)
        if seq.op == 'gather':
            l = self.literal_items(seq.a[0])
            if l is not None and l and not any(x.op == 'opt' for x in l):
                if seq.a[1].op == 'argsort' and seq.a[1].a[0].op == 'lit' and len(seq.a[1].a[0].a) == len(l) <= 4:
                    return list(self.lib._perm_sort(l, seq.a[1].a[0].a, seq.a[1].a[1]).a)
        if seq.op == 'arange' and all(isnum(x) for x in seq.a):
            a, b, c = [x.a[0] for x in seq.a]
            if all(x.denominator == 1 for x in (a, b, c)) and c != 0:
                r = range(int(a), int(b), int(c))
                if len(r) <= self.unroll:
                    return [num(i) for i in r]
        if seq.op in ('items', 'keys', 'vals') and seq.a[0].op == 'dict':
            g = {'items': lambda k, v: tup(k, v), 'keys': lambda k, v: k, 'vals': lambda k, v: v}[seq.op]
            return self.literal_items(self.lib.opt_items(self, seq.a[0], g))
        if seq.op == 'dict':
            return self.literal_items(self.lib.opt_items(self, seq, lambda k, v: k))
        if seq.op == 'str':
            return [string(c) for c in seq.a[0]]
        if seq.op == 'slice':
            l = self.literal_items(seq.a[0])
            if l is not None and not any(x.op == 'opt' for x in l) and all(x is NONE or isnum(x) for x in seq.a[1:]):
                f = lambda x: None if x is NONE else int(x.a[0])
                return l[f(seq.a[1]):f(seq.a[2]):f(seq.a[3])]
        return None

    def iterseq(self, st, it):
        """sequence term iterated over"""
        it = self.deref(st, it)
        if it.op in ('dict', 'dictset', 'dictmap'):
            return mk('keys', it) if it.op != 'dict' else self.lib.opt_items(self, it, lambda k, v: k)
        if it.op == 'tuple':
            return lit(*it.a)
        if it.op == 'rec':
            return lit(*[v for _, v in it.a[1]])
        return it

    def unrolled(self, st, fr, s, items):
        brk = []
        for x in items:
            if st is None:
                break
            ctl = {'break': [], 'continue': []}
            fr.loopctl.append(ctl)
            if x.op == 'opt':                       # conditionally present element
                c, x = x.a

                def yes(a):
                    self.assign(a, fr, s.target, x)
                    return self.exec(a, fr, s.body)
                out = self.branch(st, c, yes, lambda b: b)
            else:
                self.assign(st, fr, s.target, x)
                out = self.exec(st, fr, s.body)
            fr.loopctl.pop()
            st = self.merge_all([out] + ctl['continue'])
            brk += ctl['break']
        if st is not None and s.orelse:
            st = self.exec(st, fr, s.orelse)
        return self.merge_all([st] + brk)

    def locs(self, s1, s2, base):
        """locations (ref id, slot) of cells existing in base that differ"""
        out = []
        for k, c in base.heap.items():
            d = s2.heap.get(k)
            if d is None or d is c or d.v is c.v:
                continue
            if c.kind in ('env', 'obj'):
                for n in list(d.v):
                    if d.v[n] is not c.v.get(n):
                        out.append((k, n))
                for n in c.v:
                    if n not in d.v:
                        out.append((k, n))
            else:
                out.append((k, None))
        # cells living only in state0
        for k, d in s2.heap.items():
            if k not in base.heap and k in self.state0.heap:
                c = self.state0.heap[k]
                if d.v is c.v:
                    continue
                if c.kind in ('env', 'obj'):
                    for n in d.v:
                        if d.v[n] is not c.v.get(n):
                            out.append((k, n))
                else:
                    out.append((k, None))
        return out

    def getloc(self, st, loc):
        c = st.heap.get(loc[0]) or self.state0.heap.get(loc[0])
        if c is None:
            return ABSENT
        if loc[1] is None:
            return c.v
        return c.v.get(loc[1], ABSENT)

    def putloc(self, st, loc, v):
        c = st.heap.get(loc[0]) or self.state0.heap.get(loc[0])
        if loc[1] is None:
            st.heap[loc[0]] = Cell(c.kind, v, c.cls)
        else:
            d = dict(c.v)
            if v is ABSENT:
                d.pop(loc[1], None)
            else:
                d[loc[1]] = v
            st.heap[loc[0]] = Cell(c.kind, d, c.cls)

    def placeholder(self, k, i, v, loc, base):
        c = base.heap.get(loc[0]) or self.state0.heap.get(loc[0])
        kd = 'seq' if loc[1] is None and c.kind in ('list', 'set') else 'dict' if loc[1] is None else kind(v) if v is not ABSENT else None
        sh = 's' if kd in ('num', 'str', 'none', 'bool') and tm.shape(v) == 's' else 'a' if kd == 'seq' else '?'
        if kd in ('none',):
            kd = None
        return mk('carry', k, i, sh, kd if isinstance(kd, str) else None)

    def loop_body(self, st, fr, run, k, maxit=5):
        """analyse a loop body with carried locations replaced by placeholders.
        run(state) -> live state (or None) at end of body; break states in ctl.
        returns (locs, pre, P, endstate, breaks, returns)"""
        locs = []
        for it in range(maxit + 1):
            s = st.copy(TRUE)
            P = {}
            for i, l in enumerate(locs):
                pre = self.getloc(st, l)
                if l[1] is None or pre is not ABSENT:
                    P[l] = self.placeholder(k, i, pre, l, st)
                    self.putloc(s, l, P[l])
                elif it < maxit:
                    self.putloc(s, l, ABSENT)
            ctl = {'break': [], 'continue': []}
            fr.loopctl.append(ctl)
            saved, fr.returns = fr.returns, []
            self.guards.append(st.pc)
            marks = len(self.effects), len(self.aborts), [len(t[1]) for t in self.trystack]
            try:
                out = run(s)
            finally:
                fr.loopctl.pop()
                rets, fr.returns = fr.returns, saved
                self.guards.pop()
            end = self.merge_all([out] + ctl['continue'])
            new = []
            for x in [end] + ctl['break'] + [r[2] for r in rets]:
                if x is None:
                    continue
                for l in self.locs(st, x, st):
                    if l not in locs and l not in new:
                        if self.getloc(x, l) is not P.get(l):
                            new.append(l)
            if not new or it == maxit:
                break
            locs = locs + new
            # not yet a fixpoint: discard what this pass recorded
            del self.effects[marks[0]:]
            del self.aborts[marks[1]:]
            for t, n in zip(self.trystack, marks[2]):
                del t[1][n:]
        return locs, P, end, ctl['break'], rets

    def symloop(self, st, fr, s, seq):
        k = next(_ids)

        def run(x):
            self.assign(x, fr, s.target, el(seq, k))
            return self.exec(x, fr, s.body)
        self.loops.append((k, seq))
        try:
            locs, P, end, breaks, rets = self.loop_body(st, fr, run, k)
        finally:
            self.loops.pop()
        res = st.copy()
        # early exits
        exitc = FALSE
        for b in breaks:
            exitc = bor(exitc, b.pc)
        for c, v, rs in rets:
            exitc = bor(exitc, c)
        carried = [p for p in P.values()]
        if exitc is not FALSE and tm.contains(exitc, lambda x: x.op == 'carry' and x.a[0] == k):
            return self.general_loop(st, fr, k, seq, locs, P, end, breaks, rets, s)
        seq2, n2 = seq, None
        pref = None
        if exitc is not FALSE:
            # iterations before the first exit
            pref = comp(ONE, k, seq, exitc)
        vals = {}
        for l in locs:
            pre = self.getloc(st, l)
            p = P.get(l)
            ends = []
            e = self.getloc(end, l) if end is not None else (p if p is not None else ABSENT)
            if l[1] is None and end is not None:
                c = end.heap.get(l[0])
            try:
                e2 = self.localfreeze(end, st, e) if end is not None else e
                vals[l] = self.summarise(st, k, seq, l, pre, p, e2, exitc, set(P.values()), P)
            except _NoSummary:
                return self.general_loop(st, fr, k, seq, locs, P, end, breaks, rets, s)
        for l in locs:
            self.putloc(res, l, vals[l])
        for b in breaks:
            # value at the first exiting iteration
            cond = self.anyof(k, seq, b.pc)
            bs = res.copy()
            for l in locs:
                v = self.getloc(b, l)
                p = P.get(l)
                v = self.localfreeze(b, st, v)
                w = self.atfirst(v, k, seq, exitc, {P[q]: vals[q] for q in locs if q in P})
                self.putloc(bs, l, w)
            res = self.merge(cond, bs, res, res.pc)
        pc = st.pc
        for c, v, rs in rets:
            cond = self.anyof(k, seq, c)
            v2 = self.localfreeze(rs, st, v)
            w = self.atfirst(v2, k, seq, c, {P[q]: vals[q] for q in locs if q in P})
            r = res.copy(band(pc, cond))
            fr.returns.append((band(pc, cond), w, r))
            pc = band(pc, bnot(cond))
        res.pc = pc
        if res.pc is FALSE:
            return None
        if s.orelse if hasattr(s, 'orelse') else False:
            if breaks:
                nb = bnot(self.anyof(k, seq, exitc))
                a = res.copy(band(res.pc, nb))
                a = self.exec(a, fr, s.orelse)
                return self.merge(nb, a, res, res.pc) if a is not None else res
            return self.exec(res, fr, s.orelse)
        return res

    def anyof(self, k, seq, c):
        if not tm.depends(c, k):
            return band(c, truth(length(seq)))
        m = self.lift_mask(c, k, seq)
        return bnot(eq(count(m), ZERO))

    def lift_mask(self, c, k, seq):
        try:
            return tm.lift(c, k, length(seq))
        except tm.NoLift:
            return mk('bdd', mk('maskmap', tm.abstract(c, k), seq), TRUE, FALSE)

    def atfirst(self, v, k, seq, c, carry):
        if carry:
            v = tm.subst(v, carry)
        if not tm.depends(v, k):
            return v
        return idx(comp(v, k, seq, c), ZERO)

    def localfreeze(self, st, base, t):
        """replace references created inside the loop by their values"""
        if st is None:
            return t

        def f(x):
            if x.op == 'ref' and x.id not in base.heap and x.id not in self.state0.heap:
                return self.freeze(st, x)
            return None
        if not tm.contains(t, lambda x: x.op == 'ref'):
            return t
        return tm.rewrite(t, f)

    def summarise(self, st, k, seq, loc, pre, p, e, exitc, placeholders, P):
        """closed form of a location after the loop"""
        mask = bnot(exitc)
        if exitc is not FALSE:
            # restrict to the prefix before the first exit
            seq_mask = None
            m = self.lift_mask(exitc, k, seq)
            pm = mk('bdd', mk('before', m), TRUE, FALSE)
        else:
            pm = TRUE

        def restrict(x):
            return x if pm is TRUE else sel(x, pm)
        if p is None:      # first bound in the loop: last value
            v = e
            if any(q in placeholders for q in tm.subterms(v)):
                raise _NoSummary
            return self.lastvalue(v, k, seq, ABSENT)
        has = lambda x: tm.contains(x, lambda y: y.op == 'carry' and y.a[0] == k)
        if e is p:
            return pre
        # idempotent selection / constant assignment
        cases = []      # (cond, kind, payload)

        def split(x, c):
            if x.op == 'ite' and not has(x.a[0]):
                split(x.a[1], band(c, x.a[0]))
                split(x.a[2], band(c, bnot(x.a[0])))
            elif x.op == 'bdd' and p.op == 'carry' and has(x) and tm.isbool(x):
                cases.append((c, x))
            else:
                cases.append((c, x))
        split(e, TRUE)
        isseq = (loc[1] is None and p.a[3] == 'seq')
        if isseq or any(x.op == 'cat' and x.a[0] is p for _, x in cases):
            parts = []
            for c, x in cases:
                if x is p:
                    continue
                if x.op == 'cat' and x.a[0] is p and not any(has(y) for y in x.a[1:]):
                    parts.append((c, cat(*x.a[1:])))
                else:
                    raise _NoSummary
            if any(has(c) for c, _ in parts):
                raise _NoSummary
            return cat(pre, restrict(self.collect(parts, k, seq)))
        if p.a[3] == 'dict':
            return self.dict_summary(k, seq, pre, p, e, cases, has, restrict)
        # string concatenation
        if all(x is p or (x.op == 'scat' and x.a[0] is p and not any(has(y) for y in x.a[1:])) for _, x in cases) and any(x.op == 'scat' for _, x in cases):
            parts = [(c, lit(scat(*x.a[1:]))) for c, x in cases if x is not p]
            return scat(pre, tm.join(string(''), restrict(self.collect(parts, k, seq))))
        # sum
        deltas = []
        ok = True
        for c, x in cases:
            if x is p:
                continue
            d = sub(x, p)
            if has(d) or x.op not in ('add',):
                ok = False
                break
            deltas.append((c, d))
        if ok and deltas and not any(has(c) for c, _ in deltas):
            tot = pre
            for c, d in deltas:
                tot = add(tot, tm.sumof(restrict(comp(d, k, seq, c))))
            return tot
        # last assigned value
        if not any(has(x) and x is not p for _, x in cases) and not any(has(c) for c, _ in cases):
            r = pre
            conds = [(c, x) for c, x in cases if x is not p]
            if len(conds) == 1 or all(not tm.depends(x, k) for _, x in conds):
                if exitc is FALSE:
                    for c, x in conds:
                        anyc = self.anyof(k, seq, c)
                        if tm.depends(x, k):
                            r = ite(anyc, idx(comp(x, k, seq, c), num(-1)), r)
                        elif len(conds) == 1:
                            r = ite(anyc, x, r)
                        else:
                            raise _NoSummary
                    return r
            if len(cases) and exitc is FALSE and not any(x is p for _, x in cases):
                return self.lastvalue(e, k, seq, pre)
        # running boolean: p or c / p and c
        if tm.isbool(e) and tm.isbool(pre):
            pa = truth(p)
            hi, lo = tm.cofactors(e, p)
            if hi is TRUE and not has(lo):
                return bor(pre, self.anyof(k, seq, lo))
            if lo is FALSE and not has(hi):
                return band(pre, bnot(self.anyof(k, seq, bnot(hi))))
        raise _NoSummary

    def collect(self, parts, k, seq):
        if not parts:
            return lit()
        if len(parts) == 1:
            c, x = parts[0]
            if x.op == 'lit' and len(x.a) == 1:
                return comp(x.a[0], k, seq, c)
            return self.flat(x, k, seq, c)
        # several conditional appends
        tot = FALSE
        if all(x.op == 'lit' and len(x.a) == 1 for _, x in parts):
            body = parts[-1][1].a[0]
            cond = parts[-1][0]
            for c, x in reversed(parts[:-1]):
                body = ite(c, x.a[0], body)
                cond = bor(c, cond)
            return comp(body, k, seq, cond)
        body = lit()
        for c, x in reversed(parts):
            body = ite(c, x, body)
        return self.flat(body, k, seq, TRUE)

    def ids(self):
        return _ids

    def flat(self, x, k, seq, c):
        """concatenation of x over the iterations satisfying c"""
        return mk('flat', tm.abstract(x, k), tm.abstract(c, k), seq)

    def lastvalue(self, v, k, seq, pre):
        if not tm.depends(v, k):
            return v if pre is ABSENT or pre is v else ite(truth(length(seq)), v, pre)
        try:
            w = idx(comp(v, k, seq), num(-1))
        except Exception:
            w = mk('last', tm.abstract(v, k), seq)
        return w if pre is ABSENT else ite(truth(length(seq)), w, pre)

    def dict_summary(self, k, seq, pre, p, e, cases, has, restrict):
        out = pre
        for c, x in cases:
            if x is p:
                continue
            sets = []
            while x.op == 'dictset':
                sets.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x is not p or any(has(a) or has(b) for a, b in sets) or has(c):
                raise _NoSummary
            for a, b in reversed(sets):
                out = mk('dictmap', out, restrict(comp(a, k, seq, c)), restrict(comp(b, k, seq, c)))
        return out

    def general_loop(self, st, fr, k, seq, locs, P, end, breaks, rets, s, headc=None, headexit=None):
        """fold / while: joint fixpoint term per observed location"""
        carry = {P[l]: l for l in locs if l in P}

        def val(state, l):
            if state is None:
                return P.get(l, ABSENT)
            return self.localfreeze(state, st, self.getloc(state, l))
        nxt = {l: val(end, l) for l in locs}
        exits = [(b.pc, b) for b in breaks]
        res = st.copy()
        for l in locs:
            ex = P.get(l, ABSENT) if l in P else (nxt[l] if end is not None else ABSENT)
            out = self.foldterm(k, seq, l, ex, exits, nxt, carry, st, headc, val)
            self.putloc(res, l, out)
        pc = st.pc
        for c, v, rs in rets:
            v2 = self.localfreeze(rs, st, v)
            allc = [b.pc for b in breaks] + [r[0] for r in rets]
            anyc = self.foldexpr(k, seq, allc, c, nxt, carry, st, headc, FALSE)
            w = self.foldexpr(k, seq, allc, v2, nxt, carry, st, headc)
            cnd = atom(anyc)
            fr.returns.append((band(pc, cnd), w, res.copy(band(pc, cnd))))
            pc = band(pc, bnot(cnd))
        res.pc = pc
        if headc is TRUE and not breaks:
            return None
        return res if res.pc is not FALSE else None

    def foldterm(self, k, seq, l, ex, exits, nxt, carry, st, headc, val):
        conds = [c for c, _ in exits]
        v = ex
        for c, b in reversed(exits):
            v = ite(c, val(b, l), v)
        if ex is ABSENT and not exits:
            return mk('last?', seq if seq is not None else NONE)
        return self.foldexpr(k, seq, conds, v, nxt, carry, st, headc, ex)

    def foldexpr(self, k, seq, exitconds, v, nxt, carry, st, headc, v0=NONE):
        order = []
        roots = [v, v0] + list(exitconds) + ([headc] if headc is not None else [])

        def visit(t):
            new = []
            for x in tm.ordered(t, lambda y: y.op == 'carry' and y.a[0] == k):
                if x not in order:
                    order.append(x)
                    new.append(x)
            for x in new:
                n = nxt.get(carry.get(x))
                if n is not None:
                    visit(n)
        for r in roots:
            visit(r)
        depth = 1 + max([x.a[0] for r in roots + [nxt[carry[x]] for x in order if x in carry] for x in tm.subterms(r) if x.op == 'acc'], default=-1)
        m = {x: mk('acc', depth, i, x.a[2], x.a[3]) for i, x in enumerate(order)}
        f = lambda t: tm.abstract(tm.subst(t, m), k) if t is not ABSENT else t
        ecs = FALSE
        for c in exitconds:
            ecs = bor(ecs, f(c))
        return mk('fold', f(v), f(headc) if headc is not None else TRUE, ecs, tuple(f(nxt[carry[x]]) if x in carry else x for x in order),
                  tuple(self.getloc(st, carry[x]) if x in carry else x for x in order), seq if seq is not None else NONE, f(v0))

    def s_While(self, st, fr, s):
        # small concrete loops are unrolled
        const = isinstance(s.test, ast.Constant)
        marks = lambda: (len(self.effects), len(self.aborts), [len(t[1]) for t in self.trystack], len(fr.returns))

        def rollback(m):
            del self.effects[m[0]:], self.aborts[m[1]:], fr.returns[m[3]:]
            for t, n in zip(self.trystack, m[2]):
                del t[1][n:]
        t0, m0 = st, marks()
        st = st.copy()
        for i in range(max(60, self.unroll + 1)):
            s1 = st.copy()
            self.mute += 1
            try:
                c = self.cond(s1, fr, s.test)
            finally:
                self.mute -= 1
            if c is FALSE:
                c = self.cond(st, fr, s.test)
                return self.exec(st, fr, s.orelse) if s.orelse else st
            if c is not TRUE:
                break
            before, m = st.copy(), marks()
            ctl = {'break': [], 'continue': []}
            fr.loopctl.append(ctl)
            try:
                out = self.exec(st, fr, s.body)
            finally:
                fr.loopctl.pop()
            st = self.merge_all([out] + ctl['continue'])
            if not ctl['break']:
                if st is None:
                    return None
                if const and len(fr.returns) > m[3]:
                    rollback(m0)
                    st = t0
                    break
                continue
            if st is None:
                return self.merge_all(ctl['break'])
            rollback(m0 if const else m)
            st = t0 if const else before
            break
        else:
            if const:
                rollback(m0)
                st = t0
        k = next(_ids)
        hc = []
        counter = _counter(s)
        lim = []
        m0 = marks()

        def run(x):
            if counter:
                self.mute += 1
                try:
                    lim[:] = [self.ev(x.copy(), fr, counter[1])]
                finally:
                    self.mute -= 1
            c = self.cond(x, fr, s.test)
            hc[:] = [c]
            x.pc = band(x.pc, c)
            if x.pc is FALSE:
                return None
            return self.exec(x, fr, s.body)
        self.loops.append((k, NONE))
        try:
            locs, P, end, breaks, rets = self.loop_body(st, fr, run, k)
        finally:
            self.loops.pop()
        if counter and lim and end is not None:
            # a counter that rises by one to a fixed limit: the loop over a range
            l = next((l for l in P if l[1] == counter[0] and l[0] == fr.env.id), None)
            a = self.getloc(st, l) if l else None
            b = lim[0]
            if a is not None and isnum(a) and a.a[0].denominator == 1 and self.getloc(end, l) is add(P[l], num(1)) and not any(tm.contains(b, lambda t: t is x) for x in P.values()) and tm.shape(b) == 's' and b.op != 'ref':
                if counter[2]:
                    b = add(b, num(1))
                rollback(m0)
                out = self.for_seq(st, fr, _ranged(s, counter[0]), mk('arange', a, b, num(1)))
                if out is not None and not breaks:
                    self.putloc(out, l, b if a.a[0] == 0 and b.op == 'len' else ite(lt(a, b), b, a))
                return out
        headc = hc[0] if hc else TRUE
        out = self.general_loop(st, fr, k, None, locs, P, end, breaks, rets, s, headc=headc)
        if out is None and breaks:
            out = st.copy()
        if s.orelse and out is not None:
            out = self.exec(out, fr, s.orelse)
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, st, fr, t, v):
        if isinstance(t, ast.Name):
            nl = getattr(fr, 'nonlocals', ())
            if t.id in nl:
                env = self.cell(st, fr.env).cls
                while env is not None:
                    c = self.cell(st, env)
                    if t.id in c.v:
                        self.set_env(st, env, t.id, v)
                        return
                    env = c.cls
            self.assign_name(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            w = self.iterseq(st, v) if v.op == 'ref' else v
            if w.op == 'rec':
                w = tup(*[x for _, x in w.a[1]])
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if w.op in ('lit', 'tuple') and (len(w.a) < n - 1 if star else len(w.a) != n):
                self.raise_(st, 'ValueError', tup(), t)
                st.pc = FALSE
                return
            for i, e in enumerate(t.elts):
                if star:
                    si = star[0]
                    if i < si:
                        self.assign(st, fr, e, self.index(st, w, num(i)))
                    elif i == si:
                        self.assign(st, fr, e.value, self.newlist(st, slice_(self.seqof(st, w), num(i), num(i + 1 - n) if i + 1 - n else NONE)))
                    else:
                        self.assign(st, fr, e, self.index(st, w, num(i - n)))
                else:
                    self.assign(st, fr, e, self.unpack(st, w, i, n))
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, fr, t.value)
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, fr, t.value)
            i = self.ev(st, fr, t.slice)
            self.store(st, fr, t, o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, fr, t.value, v)
        else:
            raise Unsupported('assign')

    def unpack(self, st, w, i, n):
        if w.op == 'zip' or w.op in ('lit', 'tuple'):
            pass
        return self.index(st, w, num(i))

    def store(self, st, fr, tnode, o, i, v):
        if o.op == 'ite' and any(x.op == 'ref' for x in (o.a[1], o.a[2])):
            for c, x in ((o.a[0], o.a[1]), (bnot(o.a[0]), o.a[2])):
                old = self.index(st, x, i)
                self.store(st, fr, None, x, i, ite(c, v, old))
            return
        if o.op == 'ref':
            c = self.cell(st, o)
            if c.kind == 'dict':
                self.setcell(st, o, self.dict_set(st, c.v, i, v))
                return
            if c.kind == 'list':
                if isnum(i) and c.v.op == 'lit' and -len(c.v.a) <= i.a[0] < len(c.v.a):
                    l = list(c.v.a)
                    l[int(i.a[0])] = v
                    self.setcell(st, o, lit(*l))
                else:
                    self.setcell(st, o, mk('put', c.v, i, v))
                return
            self.effect(st, 'setitem', o, (i, v), {}, tnode)
            return
        if o.op in ('ext', 'mod', 'cls'):
            self.effect(st, 'setitem', o, (i, v), {}, tnode)
            return
        # array value: rebind the target expression
        self.effect(st, 'setitem', self.freeze(st, o), (self.freeze(st, i), self.freeze(st, v)), {}, tnode)
        if tnode is not None:
            new = self.lib.put(o, self.deref(st, i), self.deref(st, v))
            b = tnode.value
            try:
                self.assign(st, fr, _store(b), new)
            except Unsupported:
                pass

    def dict_set(self, st, d, k, v):
        if d.op == 'dict' and (isconst(k) or k.op in ('tuple', 'ref', 'sym')):
            if all(isconst(x) or x is k for x, _ in d.a) and (isconst(k) or any(x is k for x, _ in d.a) or not d.a):
                l = [(x, v if x is k else y) for x, y in d.a]
                if not any(x is k for x, _ in d.a):
                    l.append((k, v))
                return mk('dict', *l)
        if d.op == 'ite':
            return ite(d.a[0], self.dict_set(st, d.a[1], k, v), self.dict_set(st, d.a[2], k, v))
        if d.op == 'dictset' and isconst(k):
            ks, x = [], d
            while x.op == 'dictset':
                ks.append((x.a[1], x.a[2]))
                x = x.a[0]
            if all(isconst(a) for a, _ in ks):
                ks = [(a, b) for a, b in reversed(ks) if a is not k] + [(k, v)]
                for a, b in sorted(ks, key=lambda z: repr(z[0])):
                    x = mk('dictset', x, a, b)
                return x
        return mk('dictset', d, k, v)

    # ------------------------------------------------------------ attributes
    def get_attr(self, st, o, name, node):
        op = o.op
        if op == 'ite':
            return ite(o.a[0], self.get_attr(st, o.a[1], name, node), self.get_attr(st, o.a[2], name, node))
        if op == 'mod':
            v = self.mod_attr(st, o.a[0], name)
            return v if v is not None else mk('noattr', o, name)
        if op == 'ext':
            return self.ext(o.a[0] + '.' + name)
        if op == 'ref':
            c = self.cell(st, o)
            if c.kind == 'obj':
                if name in c.v:
                    return c.v[name]
                return self.inst_attr(st, o, c.cls, name, node)
            return mk('meth', o, name)
        if op == 'cls':
            if name == '__name__':
                return string(o.a[0].rsplit('.', 1)[1])
            v, _ = self.class_attr(o.a[0], name)
            if v is not None:
                return v
            k = ('clsattr', o.a[0])
            return mk('noattr', o, name)
        if op == 'super':
            for b in self.mro(o.a[0])[1:]:
                v, c = self.class_attr(b, name)
                if v is not None:
                    return mk('bound', o.a[1], v)
            return mk('meth', mk('superext', o.a[1]), name)
        if op == 'rec':
            for n, v in o.a[1]:
                if n == name:
                    return v
            return mk('meth', o, name)
        if op in ('sym', 'el', 'idx', 'attr', 'call', 'mcall'):
            cn = self.inst_class(o)
            if cn is not None:
                k = self.over_get(st, o, name)
                if k is not None:
                    return k
                return self.inst_attr(st, o, cn, name, node)
        if op == 'fn' or op == 'bound':
            k = self.over_get(st, o, name)
            if k is not None:
                return k
            if name in ('__name__',):
                return string(self.fns[o.a[0]].name.rsplit('.', 1)[1]) if op == 'fn' else mk('attr', o, name)
            if name == '__dict__':
                return mk('attr', o, name)
        k = self.over_get(st, o, name)
        if k is not None:
            return k
        return self.lib.get_attr(self, st, o, name)

    def inst_class(self, o):
        """class of a symbolic instance"""
        k = tm.kind(o)
        if isinstance(k, str) and k.startswith('inst:'):
            return k[5:]
        return None

    def over_get(self, st, o, name):
        c = st.heap.get(('over', o.id)) or self.state0.heap.get(('over', o.id))
        if c is not None:
            return c.v.get(name)
        return None

    def inst_attr(self, st, o, cname, name, node):
        v, c = self.class_attr(cname, name)
        if v is not None:
            if v.op == 'fn':
                return mk('bound', o, v)
            if v.op == 'staticm':
                return v.a[0]
            if v.op == 'classm':
                return mk('bound', mk('cls', cname), v.a[0])
            if v.op == 'prop':
                return self.call_term(st, v.a[0], [o], {}, node)
            return v
        if o.op == 'ref':
            c = self.cell(st, o)
            if '__sym__' in c.v:
                return self.symattr(c.v['__sym__'], name)
            if name == '__class__':
                return mk('cls', cname)
            if name == '__dict__':
                return mk('dict', *[(string(k), v) for k, v in c.v.items()])
            if not self.unknown_base(cname):
                return mk('noattr', mk('cls', cname), name)
            return mk('attr', mk('superobj', cname), name)
        return self.symattr(o, name)

    def symattr(self, o, name):
        h = self.attrhints.get(name) if hasattr(self, 'attrhints') else None
        if h is not None:
            return mk('sym', tm.show(o) + '.' + name, h[0], h[1])
        return attr(o, name)

    def set_attr(self, st, o, name, v, node=None):
        if o.op == 'ite':
            for c, x in ((o.a[0], o.a[1]), (bnot(o.a[0]), o.a[2])):
                if x.op == 'none':
                    continue
                old = self.get_attr(st, x, name, node)
                self.set_attr(st, x, name, ite(c, v, old), node)
            return
        if o.op == 'ref':
            c = self.cell(st, o)
            if c.kind == 'obj':
                d = dict(c.v)
                d[name] = v
                st.heap[o.id] = Cell('obj', d, c.cls)
                return
        if o.op == 'mod':
            m = self.module(o.a[0])
            self.set_env(st, m.nsref, name, v)
            return
        if o.op == 'cls':
            self.effect(st, 'setclassattr', o, (string(name), v), {}, node)
            return
        key = ('over', o.id)
        c = st.heap.get(key)
        d = dict(c.v) if c else {}
        d[name] = v
        st.heap[key] = Cell('obj', d, None)
        self.effect(st, 'setattr', self.freeze(st, o), (string(name), self.freeze(st, v)), {}, node)

    # ------------------------------------------------------------ expressions
    def cond(self, st, fr, n):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            r = TRUE if isand else FALSE
            pc = st.pc
            acc = r
            for v in n.values:
                c = self.cond_under(st, fr, v, acc if isand else bnot(acc))
                acc = band(acc, c) if isand else bor(acc, c)
                if acc is (FALSE if isand else TRUE):
                    return acc
            return acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bnot(self.cond(st, fr, n.operand))
        return self.truth(st, self.ev(st, fr, n))

    def cond_under(self, st, fr, v, g):
        """condition evaluated only where g holds (effects and aborts are guarded)"""
        if g is TRUE:
            return self.cond(st, fr, v)
        pc = st.pc
        st.pc = band(pc, g)
        if st.pc is FALSE:
            st.pc = pc
            return FALSE
        c = self.cond(st, fr, v)
        dead = band(pc, g, bnot(st.pc))
        st.pc = band(pc, bnot(dead))
        return c

    def truth(self, st, v):
        if v.op == 'ite':
            return bite(v.a[0], self.truth(st, v.a[1]), self.truth(st, v.a[2]))
        w = self.deref(st, v)
        if w.op == 'ref' or w.op in ('rec', 'bound', 'new', 'ext'):
            return TRUE
        if w.op == 'absent' or w.op == 'undef':
            return FALSE
        if w.op == 'sym' and w.a[1] == 'a':
            return truth(length(w))
        return truth(w)

    def ev(self, st, fr, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        return m(st, fr, n)

    def e_Constant(self, st, fr, n):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return mk('bytes', repr(v))
        return mk('constant', repr(v))

    def e_Name(self, st, fr, n):
        v = self.lookup(st, fr, n.id)
        if v.op == 'ite' and tm.contains(v, lambda x: x is ABSENT):
            v = _dropabsent(v)
        return v

    def e_JoinedStr(self, st, fr, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.freeze(st, self.ev(st, fr, v.value))
                if v.conversion == 114:
                    x = call('repr', (x,))
                spec = self.ev(st, fr, v.format_spec) if v.format_spec is not None else string('')
                parts.append(self.lib.fmt(x, spec))
        return scat(*parts) if parts else string('')

    def e_FormattedValue(self, st, fr, n):
        return self.e_JoinedStr(st, fr, ast.JoinedStr(values=[n]))

    def e_Tuple(self, st, fr, n):
        return self.seqlit(st, fr, n, tup)

    def e_List(self, st, fr, n):
        return self.newlist(st, self.seqlit(st, fr, n, lit))

    def e_Set(self, st, fr, n):
        return self.new(st, 'set', self.seqlit(st, fr, n, lit))

    def seqlit(self, st, fr, n, mkf):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    parts.append(self.seqof(st, self.ev(st, fr, e.value)))
                else:
                    parts.append(lit(self.ev(st, fr, e)))
            r = cat(*parts)
            return tup(*r.a) if mkf is tup and r.op == 'lit' else r
        return mkf(*[self.ev(st, fr, e) for e in n.elts])

    def e_Dict(self, st, fr, n):
        d = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.deref(st, self.ev(st, fr, v))
                d = self.dict_update(st, d, x)
            else:
                kk = self.ev(st, fr, k)
                d = self.dict_set(st, d, kk, self.ev(st, fr, v))
        return self.newdict(st, d)

    def dict_update(self, st, d, x):
        x = self.deref(st, x)
        if x.op == 'dict':
            for k, v in x.a:
                d = self.dict_set(st, d, k, v) if v.op != 'ite' or not tm.contains(v, lambda y: y is ABSENT) else self.dict_set(st, d, k, self.replace_absent(v, self.dict_get(d, k)))
            return d
        if x.op == 'ite':
            return self.merged(x.a[0], self.dict_update(st, d, x.a[1]), self.dict_update(st, d, x.a[2]))
        return mk('dictupdate', d, x)

    def replace_absent(self, v, old):
        if v is ABSENT:
            return old
        if v.op == 'ite':
            return ite(v.a[0], self.replace_absent(v.a[1], old), self.replace_absent(v.a[2], old))
        return v

    def dict_get(self, d, k):
        """value or ABSENT"""
        if d.op == 'dict':
            for a, b in d.a:
                if a is k:
                    return b
            if isconst(k) and all(isconst(a) for a, _ in d.a):
                return ABSENT
            r = ABSENT
            for a, b in reversed(d.a):
                r = ite(eq(a, k), b, r)
            return r
        if d.op == 'dictset':
            return ite(eq(d.a[1], k), d.a[2], self.dict_get(d.a[0], k))
        if d.op == 'ite':
            return ite(d.a[0], self.dict_get(d.a[1], k), self.dict_get(d.a[2], k))
        if d.op == 'dictupdate':
            v = self.dict_get(d.a[1], k)
            return ite(isin(k, d.a[1]), v, self.dict_get(d.a[0], k))
        return idx(d, k)

    def has_key(self, st, d, k):
        d = self.deref(st, d)
        if d.op == 'dict':
            r = FALSE
            for a, b in d.a:
                p = bnot(self.isabsent(b))
                r = bor(r, band(eq(a, k), p))
            return r
        if d.op == 'dictset':
            return bor(eq(d.a[1], k), self.has_key(st, d.a[0], k))
        if d.op == 'ite':
            return bite(d.a[0], self.has_key(st, d.a[1], k), self.has_key(st, d.a[2], k))
        if d.op == 'dictupdate':
            return bor(self.has_key(st, d.a[0], k), self.has_key(st, d.a[1], k))
        return isin(k, d)

    def isabsent(self, v):
        if v is ABSENT:
            return TRUE
        if v.op == 'ite':
            return bite(v.a[0], self.isabsent(v.a[1]), self.isabsent(v.a[2]))
        return FALSE

    def e_BoolOp(self, st, fr, n):
        isand = isinstance(n.op, ast.And)
        acc = self.ev(st, fr, n.values[0])
        for v in n.values[1:]:
            c = self.truth(st, acc)
            g = c if isand else bnot(c)
            if g is FALSE:
                return acc
            pc = st.pc
            st.pc = band(pc, g)
            if st.pc is FALSE:
                st.pc = pc
                return acc
            w = self.ev(st, fr, v)
            dead = band(pc, g, bnot(st.pc))
            st.pc = band(pc, bnot(dead))
            if g is TRUE:
                acc = w
            else:
                acc = ite(c, w, acc) if isand else ite(c, acc, w)
        return acc

    def e_UnaryOp(self, st, fr, n):
        if isinstance(n.op, ast.Not):
            return bnot(self.cond(st, fr, n.operand))
        v = self.deref(st, self.ev(st, fr, n.operand))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return bnot(v) if tm.isbool(v) else call('invert', (v,))
        raise Unsupported('unary')

    def e_BinOp(self, st, fr, n):
        a = self.ev(st, fr, n.left)
        b = self.ev(st, fr, n.right)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node):
        o = type(op).__name__
        if a.op == 'ite' and b.op != 'ite' and (a.a[1].op == 'ref' or a.a[2].op == 'ref' or kind(a.a[1]) != kind(a.a[2])):
            return ite(a.a[0], self.binop(st, op, a.a[1], b, node), self.binop(st, op, a.a[2], b, node))
        ca = self.cell(st, a) if a.op == 'ref' else None
        cb = self.cell(st, b) if b.op == 'ref' else None
        if vec2(a) or vec2(b):
            x, y = self.deref(st, a), self.deref(st, b)
            if vec2(x) == 'row' or vec2(y) == 'col':
                x, y = y, x
            if o == 'Mult' and vec2(x) == 'col' and vec2(y) in (None, 'row') and tm.shape(y) == 'a':
                return call('numpy.outer', (x.a[1][0], y.a[1][0] if vec2(y) else y))
            raise Unsupported('two-dimensional broadcasting')
        if rank2(a) or rank2(b):
            # rows of a two-dimensional array: the last axis is paired with a one-dimensional operand
            x, y = (rank2(z) for z in (a, b))
            n = len(x or y)
            if x and y and len(x) != len(y):
                raise Unsupported('two-dimensional broadcasting')
            return lit(*[self.binop(st, op, x[i] if x else a, y[i] if y else b, node) for i in range(n)])
        if o == 'Add':
            if (ca and ca.kind == 'list') or (cb and cb.kind == 'list'):
                x, y = self.deref(st, a), self.deref(st, b)
                if not (ca and cb) and (a if cb else b).op == 'lit':        # a list and a numpy array
                    return add(x, y)
                if ca and cb or kind(x) in ('seq', None) and kind(y) in ('seq', None) and not (tm.isnum(x) or tm.isnum(y)) and not self.arraylike(x if not ca else y):
                    return self.newlist(st, cat(self.seqof(st, a), self.seqof(st, b)))
                return add(x, y)
            if a.op == 'tuple' or b.op == 'tuple':
                r = cat(self.seqof(st, a), self.seqof(st, b))
                return tup(*r.a) if r.op == 'lit' else r
            if 'str' in (kind(a), kind(b)):
                return scat(a, b)
            if kind(a) == 'seq' and a.op in ('cat', 'rep', 'flat', 'map') and b.op in ('lit', 'cat', 'rep', 'flat', 'map') and False:
                return cat(a, b)
            return add(self.deref(st, a), self.deref(st, b))
        if o == 'Mult':
            if ca and ca.kind == 'list':
                return self.newlist(st, tm.rep(ca.v, b)) if not (self.arraylike(b) or b.op == 'lit') else mul(ca.v, b)
            if cb and cb.kind == 'list':
                return self.newlist(st, tm.rep(cb.v, a)) if not (self.arraylike(a) or a.op == 'lit') else mul(a, cb.v)
            if a.op == 'tuple' and isnum(b):
                return tup(*(a.a * int(b.a[0])))
            if kind(a) == 'str' or kind(b) == 'str':
                s_, k_ = (a, b) if kind(a) == 'str' else (b, a)
                if s_.op == 'str' and isnum(k_):
                    return string(s_.a[0] * int(k_.a[0]))
                return mk('strrep', s_, k_)
            return mul(self.deref(st, a), self.deref(st, b))
        x, y = self.deref(st, a), self.deref(st, b)
        if vec2(x) or vec2(y):
            raise Unsupported('two-dimensional broadcasting')
        if o == 'Sub':
            if ca and ca.kind == 'set' or cb and cb.kind == 'set' or x.op == 'setop' or (x.op == 'keys'):
                return self.setop(st, 'diff', x, y)
            return sub(x, y)
        if o == 'Div':
            return div(x, y)
        if o == 'Pow':
            return power(x, y)
        if o == 'Mod':
            if kind(x) == 'str':
                return self.lib.str_percent(self, st, x, y)
            if isnum(x) and isnum(y) and y.a[0]:
                return num(x.a[0] % y.a[0])
            return sub(x, mul(y, self.lib.floor(div(x, y))))
        if o == 'FloorDiv':
            if isnum(x) and isnum(y) and y.a[0]:
                return num(x.a[0] // y.a[0])
            return self.lib.floor(div(x, y))
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if ca and ca.kind == 'set':
                return self.setop(st, {'BitAnd': 'inter', 'BitOr': 'union', 'BitXor': 'xor'}[o], x, y)
            if kind(x) == 'num' and kind(y) == 'num' and not tm.isbool(x):
                return call(o, (x, y))
            p, q = truth_arr(x), truth_arr(y)
            return band(p, q) if o == 'BitAnd' else bor(p, q) if o == 'BitOr' else bite(p, bnot(q), q)
        if o == 'MatMult':
            return call('matmul', (x, y))
        return call(o, (x, y))

    def arraylike(self, t):
        return t.op in ('sel', 'slice', 'gather', 'add', 'mul', 'linspace', 'interp', 'call', 'attr', 'sym', 'cumsum') and tm.shape(t) == 'a'

    def setop(self, st, o, x, y):
        if x.op in ('lit',) and y.op in ('lit', 'tuple') and all(isconst(e) for e in x.a + y.a):
            ys = set(y.a)
            if o == 'diff':
                r = [e for e in x.a if e not in ys]
            elif o == 'inter':
                r = [e for e in x.a if e in ys]
            elif o == 'union':
                r = list(x.a) + [e for e in y.a if e not in x.a]
            else:
                r = [e for e in x.a if e not in ys] + [e for e in y.a if e not in set(x.a)]
            return self.new(st, 'set', lit(*r))
        return self.new(st, 'set', mk('setop', o, x, y))

    def e_Compare(self, st, fr, n):
        a = self.ev(st, fr, n.left)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(st, fr, c)
            r = band(r, self.compare(st, op, a, b))
            a = b
        return r

    def compare(self, st, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            if b is NONE:
                r = isnone(a) if a.op not in ('ref', 'absent') else (TRUE if a is ABSENT else FALSE)
                if a.op == 'ite':
                    r = self.isnone(a)
            elif a is NONE:
                r = isnone(b) if b.op != 'ref' else FALSE
            else:
                r = self.eqv(st, a, b)
            return r if o == 'Is' else bnot(r)
        if o in ('In', 'NotIn'):
            r = self.contains(st, a, b)
            return r if o == 'In' else bnot(r)
        if o in ('Eq', 'NotEq'):
            r = self.eqv(st, a, b)
            return r if o == 'Eq' else bnot(r)
        x, y = self.deref(st, a), self.deref(st, b)
        if o == 'Lt':
            return lt(x, y)
        if o == 'Gt':
            return lt(y, x)
        if o == 'LtE':
            return le(x, y)
        if o == 'GtE':
            return le(y, x)
        raise Unsupported(o)

    def isnone(self, a):
        if a.op == 'ite':
            return bite(a.a[0], self.isnone(a.a[1]), self.isnone(a.a[2]))
        if a.op == 'ref':
            return FALSE
        return isnone(a) if a is not ABSENT else TRUE

    def has_eq(self, st, a):
        c = self.cell(st, a).cls
        return c is None or self.class_attr(c, '__eq__')[0] is not None

    def eqv(self, st, a, b):
        if a is b:
            return TRUE
        if a.op == 'ref' and b.op == 'ref' and self.cell(st, a).kind == 'obj' and self.cell(st, b).kind == 'obj' and not self.has_eq(st, a) and not self.has_eq(st, b):
            return FALSE
        if a.op == 'ite' and (a.a[1].op in ('ref', 'none') or a.a[2].op in ('ref', 'none')):
            return bite(a.a[0], self.eqv(st, a.a[1], b), self.eqv(st, a.a[2], b))
        x, y = self.freeze(st, a), self.freeze(st, b)
        for p, q in ((x, y), (y, x)):
            if p.op == 'lit' and q.op in ('lit', 'tuple'):
                if len(p.a) != len(q.a):
                    return FALSE
                return band(*[eq(u, v) for u, v in zip(p.a, q.a)]) if q.op == 'lit' else FALSE
            if p.op == 'lit' and not p.a and tm.kind(q) == 'seq':
                return eq(length(q), ZERO)
        if a.op == 'ref' and b.op == 'none' or b.op == 'ref' and a.op == 'none':
            return FALSE
        return eq(x, y)

    def contains(self, st, x, c):
        d = self.deref(st, c)
        if d.op == 'ite':
            return bite(d.a[0], self.contains(st, x, d.a[1]), self.contains(st, x, d.a[2]))
        if d.op in ('dict', 'dictset', 'dictmap', 'dictupdate'):
            return self.has_key(st, d, self.freeze(st, x))
        if d.op == 'keys':
            return self.has_key(st, d.a[0], self.freeze(st, x))
        if d.op in ('lit', 'tuple', 'cat'):
            x = self.freeze(st, x)
            if d.op == 'cat':
                return bor(*[self.contains(st, x, p) for p in d.a])
            return bor(*[eq(x, self.freeze(st, e)) for e in d.a])
        if d.op == 'opt':
            return band(d.a[0], eq(x, d.a[1]))
        if d.op == 'setop' and d.a[0] == 'diff':
            return band(self.contains(st, x, d.a[1]), bnot(self.contains(st, x, d.a[2])))
        if d.op == 'setop' and d.a[0] == 'union':
            return bor(self.contains(st, x, d.a[1]), self.contains(st, x, d.a[2]))
        if d.op == 'rec':
            return bor(*[eq(x, v) for _, v in d.a[1]])
        return isin(self.freeze(st, x), self.freeze(st, d))

    def e_IfExp(self, st, fr, n):
        c = self.under(st, self.cond(st, fr, n.test))
        if c is TRUE:
            return self.ev(st, fr, n.body)
        if c is FALSE:
            return self.ev(st, fr, n.orelse)
        box = {}

        def f(which, node):
            def g(x):
                box[which] = self.ev(x, fr, node)
                return x if x.pc is not FALSE else None
            return g
        out = self.branch(st, c, f('a', n.body), f('b', n.orelse))
        if out is None:
            st.pc = FALSE
            return NONE
        st.heap, st.pc = out.heap, out.pc
        return ite(c, box['a'], box['b'])

    def e_Lambda(self, st, fr, n):
        t = self.mkfn(n, fr.module, fr.env, (fr.fn.name if fr.fn else fr.module.name) + '.<lambda>')
        self.fns[t.a[0]].defaults = self.defaults(st, fr, n.args)
        return t

    def e_Attribute(self, st, fr, n):
        o = self.ev(st, fr, n.value)
        return self.get_attr(st, o, n.attr, n)

    def e_NamedExpr(self, st, fr, n):
        v = self.ev(st, fr, n.value)
        self.assign(st, fr, n.target, v)
        return v

    def e_Slice(self, st, fr, n):
        f = lambda x: self.ev(st, fr, x) if x is not None else NONE
        return mk('slc', f(n.lower), f(n.upper), f(n.step))

    def e_Subscript(self, st, fr, n):
        o = self.ev(st, fr, n.value)
        i = self.ev(st, fr, n.slice)
        return self.index(st, o, i, n)

    def index(self, st, o, i, node=None):
        if o.op == 'ite':
            return ite(o.a[0], self.index(st, o.a[1], i, node), self.index(st, o.a[2], i, node))
        if i.op == 'slc':
            if o.op == 'ref':
                c = self.cell(st, o)
                if c.kind == 'list':
                    return self.newlist(st, slice_(c.v, *i.a))
            return slice_(self.seqof(st, o), *i.a)
        d = self.deref(st, o)
        if i.op == 'tuple' and any(x.op == 'slc' or tm.shape(x) == 'a' for x in i.a):
            if len(i.a) == 2 and NONE in i.a and tm.shape(d) == 'a':
                o2 = i.a[0] if i.a[1] is NONE else i.a[1]
                if o2.op == 'slc' and all(z is NONE for z in o2.a):
                    return call('colvec' if i.a[1] is NONE else 'rowvec', (d,))
            if NONE in i.a:
                raise Unsupported('new axis')
            m = self.lib.matrix(self, st, d)
            if m is not None and len(i.a) == 2:
                try:
                    return submatrix(m, *i.a)
                except (TypeError, IndexError):
                    pass
            if d.op in ('lit', 'tuple') and len(i.a) == 2 and i.a[1].op == 'slc' and m is None:
                rows = [self.freeze(st, r) for r in d.a]
                if all(tm.shape(r) == 'a' for r in rows):
                    cut = [slice_(r, *i.a[1].a) for r in rows]
                    if isnum(i.a[0]):
                        return cut[int(i.a[0].a[0])]
                    if i.a[0].op == 'slc':
                        return slice_(lit(*cut), *i.a[0].a)
            return call('getnd', (d, self.freeze(st, i)))
        i = self.deref(st, i)
        if d.op in ('dict', 'dictset', 'dictupdate'):
            v = self.dict_get(d, self.freeze(st, i))
            if v is ABSENT:
                return mk('keyerr', self.freeze(st, i))
            if tm.contains(v, lambda x: x is ABSENT):
                v = _dropabsent(v)
            return v
        if d.op == 'rec':
            d = tup(*[v for _, v in d.a[1]])
        if i.op == 'lit':
            return tm.gather(d, i)
        if d.op == 'ext' or d.op == 'cls':
            return mk('extidx', d, i)
        if tm.shape(i) == 'a' and i.op not in ('where',) and not tm.isbool(i):
            return tm.gather(d, i)
        if i.op == 'ite' and d.op not in ('lit', 'tuple'):
            return ite(i.a[0], self.index(st, o, i.a[1], node), self.index(st, o, i.a[2], node))
        if i.op == 'maybearr':
            return tm.gather(d, i)
        v = idx(d, i)
        cn = self.elemclass(o)
        return v

    def elemclass(self, o):
        return None

    def seqof(self, st, v):
        """sequence term of an iterable value"""
        v = self.deref(st, v)
        if v.op == 'anyorder':
            v = arranged(v.a[0])
        if v.op == 'ite':
            return ite(v.a[0], self.seqof(st, v.a[1]), self.seqof(st, v.a[2]))
        if v.op == 'tuple':
            return lit(*v.a)
        if v.op in ('dict',):
            return lit(*[k for k, _ in v.a])
        if v.op == 'rec':
            return lit(*[x for _, x in v.a[1]])
        if v.op == 'keys' and v.a[0].op == 'dict':
            return lit(*[k for k, _ in v.a[0].a])
        if v.op == 'vals' and v.a[0].op == 'dict':
            return lit(*[x for _, x in v.a[0].a])
        if v.op == 'items' and v.a[0].op == 'dict':
            return lit(*[tup(k, x) for k, x in v.a[0].a])
        return v

    # comprehensions
    def e_ListComp(self, st, fr, n):
        return self.newlist(st, self.compr(st, fr, n.generators, lambda s: self.ev(s, fr, n.elt), n))

    def e_GeneratorExp(self, st, fr, n):
        return self.compr(st, fr, n.generators, lambda s: self.ev(s, fr, n.elt), n)

    def e_SetComp(self, st, fr, n):
        return self.new(st, 'set', self.lib.dedupe(self.compr(st, fr, n.generators, lambda s: self.ev(s, fr, n.elt), n)))

    def e_DictComp(self, st, fr, n):
        s = self.compr(st, fr, n.generators, lambda x: tup(self.ev(x, fr, n.key), self.ev(x, fr, n.value)), n)
        return self.newdict(st, self.dictfrom(st, s))

    def dictfrom(self, st, s):
        s = self.seqof(st, s)
        items = self.literal_items(s) if s.op in ('lit', 'cat') else None
        if items is not None:
            d = mk('dict')
            for e in items:
                e = self.seqof(st, e) if e.op == 'ref' else e
                if e.op == 'opt':
                    c, kv = e.a
                    d = self.merged(c, self.dict_set(st, d, kv.a[0], kv.a[1]), d)
                else:
                    d = self.dict_set(st, d, idx(e, ZERO), idx(e, ONE))
            return d
        if s.op == 'zip' and len(s.a) == 2:
            a, b = s.a
            la, lb = self.literal_items(a), self.literal_items(b)
            if la is not None and lb is not None:
                d = mk('dict')
                for x, y in zip(la, lb):
                    d = self.dict_set(st, d, x, y)
                return d
            return mk('dictmap', mk('dict'), a, b)
        return mk('dictmap', mk('dict'), tm.col(s, ZERO), tm.col(s, ONE))

    def compr(self, st, fr, gens, body, node):
        # comprehension variables live in a child scope
        child = self.new(st, 'env', {}, fr.env)
        f2 = Frame(fr.fn, fr.module, child, fr.cls)
        f2.returns = fr.returns
        f2.globals = set()
        fr_env = fr.env

        def sub_(s, gi):
            if gi == len(gens):
                return lit(self._with_env(fr, child, body, s))
            g = gens[gi]
            it = self._with_env(fr, child, lambda x: self.ev(x, fr, g.iter), s)
            seq = self.iterseq(s, it)
            return self.comp_seq(s, fr, child, gens, gi, seq, sub_)
        return sub_(st, 0)

    def _with_env(self, fr, env, f, s):
        old = fr.env
        fr.env = env
        try:
            return f(s)
        finally:
            fr.env = old

    def comp_seq(self, st, fr, child, gens, gi, seq, rec):
        g = gens[gi]
        if seq.op == 'ite':
            return ite(seq.a[0], self.comp_seq(st, fr, child, gens, gi, seq.a[1], rec), self.comp_seq(st, fr, child, gens, gi, seq.a[2], rec))
        items = self.literal_items(seq)
        if items is not None and len(items) <= max(200, self.unroll):
            parts = []
            for x in items:
                pres = TRUE
                if x.op == 'opt':
                    pres, x = x.a
                self._with_env(fr, child, lambda s: self.assign(s, fr, g.target, x), st)
                c = pres
                for i in g.ifs:
                    c = band(c, self._with_env(fr, child, lambda s: self.cond_under(s, fr, i, c), st))
                c = self.under(st, c)
                if c is FALSE:
                    continue
                pc = st.pc
                if c is not TRUE:
                    st.pc = band(pc, c)
                r = rec(st, gi + 1)
                if c is not TRUE:
                    st.pc = pc
                    r = ite(c, r, lit())
                parts.append(r)
            return cat(*parts) if parts else lit()
        if seq.op == 'cat':
            return cat(*[self.comp_seq(st, fr, child, gens, gi, p, rec) for p in seq.a])
        k = next(_ids)
        self._with_env(fr, child, lambda s: self.assign(s, fr, g.target, el(seq, k)), st)
        self.loops.append((k, seq))
        c = TRUE
        try:
            for i in g.ifs:
                c = band(c, self._with_env(fr, child, lambda s: self.cond_under(s, fr, i, c), st))
            pc = st.pc
            if c is not TRUE:
                self.guards.append(c)
            s1 = st.copy()
            r = rec(s1, gi + 1)
            if c is not TRUE:
                self.guards.pop()
        finally:
            self.loops.pop()
        r = self.localfreeze(s1, st, r)
        if s1.pc is FALSE:
            return lit()
        # side effects on outer cells are rare in comprehensions: keep them when unconditional
        if r.op == 'lit' and len(r.a) == 1 and r.a[0].op != 'opt':
            return comp(r.a[0], k, seq, c)
        return self.flat(r, k, seq, c)

    def e_Await(self, st, fr, n):
        raise Unsupported('await')

    def e_Yield(self, st, fr, n):
        v = self.ev(st, fr, n.value) if n.value is not None else NONE
        c = self.cell(st, fr.yields)
        self.setcell(st, fr.yields, cat(c.v, lit(v)))
        return NONE

    def e_Starred(self, st, fr, n):
        return self.ev(st, fr, n.value)

    # ------------------------------------------------------------ calls
    def e_Call(self, st, fr, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            cn = None
            f = fr.fn
            while f is not None and cn is None:
                cn = f.cls
                break
            selfn = fr.fn.node.args.args[0].arg
            return mk('super', cn, self.lookup(st, fr, selfn))
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals'):
            return mk('call', n.func.id, (), ())
        # method call: keep the receiver
        if isinstance(n.func, ast.Attribute):
            o = self.ev(st, fr, n.func.value)
            if st.pc is FALSE:
                return NONE
            args, kw = self.args(st, fr, n)
            return self.call_method(st, o, n.func.attr, args, kw, n)
        f = self.ev(st, fr, n.func)
        args, kw = self.args(st, fr, n)
        if st.pc is FALSE:
            return NONE
        return self.call_term(st, f, args, kw, n)

    def args(self, st, fr, n):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.seqof(st, self.ev(st, fr, a.value))
                items = self.literal_items(s)
                if items is not None:
                    args += items
                else:
                    args.append(mk('star', s))
            else:
                args.append(self.ev(st, fr, a))
        for k in n.keywords:
            v = self.ev(st, fr, k.value)
            if k.arg is None:
                d = self.deref(st, v)
                if d.op == 'dict' and all(x.op == 'str' for x, _ in d.a):
                    for x, y in d.a:
                        kw[x.a[0]] = y
                else:
                    kw['**'] = self.freeze(st, d)
            else:
                kw[k.arg] = v
        return args, kw

    def call_method(self, st, o, name, args, kw, node):
        if o.op == 'ite':
            return self.split_call(st, o, lambda s, x: self.call_method(s, x, name, args, kw, node))
        if o.op in ('mod', 'ext', 'cls', 'super', 'rec') or (o.op == 'ref' and self.cell(st, o).kind == 'obj') or self.inst_class(o) is not None:
            f = self.get_attr(st, o, name, node)
            if f.op == 'meth' or (f.op == 'attr' and f.a[0] is o) or f.op == 'noattr':
                pass
            else:
                return self.call_term(st, f, args, kw, node)
        else:
            k = self.over_get(st, o, name)
            if k is not None:
                return self.call_term(st, k, args, kw, node)
        return self.lib.method(self, st, o, name, args, kw, node)

    def split_call(self, st, o, f):
        box = {}

        def g(w, x):
            def h(s):
                box[w] = f(s, x)
                return s if s.pc is not FALSE else None
            return h
        out = self.branch(st, o.a[0], g('a', o.a[1]), g('b', o.a[2]))
        if out is None:
            st.pc = FALSE
            return NONE
        st.heap, st.pc = out.heap, out.pc
        return ite(o.a[0], box.get('a', NONE), box.get('b', NONE))

    def call_term(self, st, f, args, kw, node):
        if f.op == 'ite':
            return self.split_call(st, f, lambda s, x: self.call_term(s, x, args, kw, node))
        if f.op == 'fn':
            return self.call_fn(st, f, args, kw, node) or NONE
        if f.op == 'bound':
            return self.call_term(st, f.a[1], [f.a[0]] + args, kw, node)
        if f.op == 'staticm':
            return self.call_term(st, f.a[0], args, kw, node)
        if f.op == 'cls':
            return self.instantiate(st, f.a[0], args, kw, node)
        if f.op == 'ext':
            return self.lib.call_ext(self, st, f.a[0], args, kw, node)
        if f.op == 'partial':
            return self.call_term(st, f.a[0], list(f.a[1]) + args, {**dict(f.a[2]), **kw}, node)
        if f.op == 'meth':
            return self.lib.method(self, st, f.a[0], f.a[1], args, kw, node)
        if f.op == 'nt':
            names = f.a[1]
            d = dict(zip(names, args))
            d.update(kw)
            return mk('rec', f.a[0], tuple((n_, d.get(n_, NONE)) for n_ in names))
        if f.op == 'attr':
            return self.lib.method(self, st, f.a[0], f.a[1], args, kw, node)
        if f.op in ('noattr', 'undef'):
            return call('undefined', (f,))
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple((k, self.freeze(st, v)) for k, v in kw.items())
        self.effect(st, 'call', f, fa, fk, node)
        return call('apply', (f,) + fa, fk)

    def instantiate(self, st, cname, args, kw, node):
        q = cname
        if q in self.models:
            return self.models[q](self, st, args, kw, node)
        if q in self.opaque or self.opaque_pred(q):
            tm.RETURNS.setdefault(q, ('s', 'inst:' + q))
            init, c = self.class_attr(cname, '__init__')
            a, k = args, kw
            if init is not None and init.op == 'fn':
                b = self.bind_names(self.fns[init.a[0]], [NONE] + args, kw)
                if b is not None:
                    b.pop(next(iter(b)))
                    fk = tuple(sorted((x, self.freeze(st, y)) for x, y in b.items()))
                    self.effect(st, 'new ' + cname, NONE, (), dict(fk), node)
                    return mk('call', cname, (), fk)
            return mk('call', cname, tuple(self.freeze(st, x) for x in args), tuple(sorted((x, self.freeze(st, y)) for x, y in kw.items())))
        r = self.new(st, 'obj', {}, cname)
        init, c = self.class_attr(cname, '__init__')
        if init is not None and init.op == 'fn':
            self.call_fn(st, init, [r] + args, kw, node)
        elif args or kw:
            self.set_attr(st, r, '__args__', tup(*args))
        return r

    def bind_names(self, fn, args, kw):
        """parameter -> argument, canonical over positional/keyword; defaults included"""
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        b = {}
        rest = []
        for i, v in enumerate(args):
            if v.op == 'star':
                return None
            if i < len(pos):
                b[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return None
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in b and pos.index(k) < len(args):
                    return None
                b[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            if '**' in extra:
                return None
            return None
        for p, v in (fn.defaults or {}).items():
            b.setdefault(p, v)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in b:
                return None
        out = {p: b[p] for p in pos + [x.arg for x in a.kwonlyargs]}
        if a.vararg:
            out[a.vararg.arg] = tup(*rest)
        if a.kwarg:
            out[a.kwarg.arg] = mk('dict', *[(string(k), v) for k, v in extra.items()])
        return out

    def call_fn(self, st, f, args, kw, node):
        fn = self.fns[f.a[0]]
        q = fn.name
        if q in self.models:
            return self.models[q](self, st, args, kw, node)
        b = self.bind_names(fn, args, kw)
        if b is None:
            if any(a.op == 'star' for a in args) or '**' in kw:
                fa = tuple(self.freeze(st, a) for a in args)
                fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
                return call(q, fa, fk)
            self.raise_(st, 'TypeError', tup(string('arguments of ' + q)), node)
            st.pc = FALSE
            return NONE
        if q in self.opaque or self.opaque_pred(q):
            fk = tuple(sorted((k, self.freeze(st, v)) for k, v in b.items()))
            self.effect(st, q, NONE, (), dict(fk), node)
            if tm.RETURNS.get(q, tm.NOK)[0] == 'd':
                for k, v in tm.RETURNS[q][2].items():
                    tm.RETURNS.setdefault(f'{q}:{k}', v)
                return self.newdict(st, mk('dict', *[(string(k), call(f'{q}:{k}', (), fk)) for k in tm.RETURNS[q][2]]))
            return call(q, (), fk)
        known = bool(b) and all(tm.isconst(v) for v in b.values())      # recursion over known values runs to its end
        if sum(1 for x in self.stack if x.fn is fn) > (900 if known else 3) or len(self.stack) > (1000 if known else self.maxstack):
            fk = tuple(sorted((k, self.freeze(st, v)) for k, v in b.items()))
            return call('rec:' + q, (), fk)
        self.inlined.add(q)
        env = self.new(st, 'env', b, fn.env)
        fr = Frame(fn, fn.module, env, fn.cls)
        isgen = not isinstance(fn.node, ast.Lambda) and _is_gen(fn.node)
        a = fn.node.args
        for p in (a.kwarg,):
            if p is not None:
                self.set_env(st, env, p.arg, self.newdict(st, b[p.arg]))
        if isgen:
            fr.yields = self.newlist(st, lit())
        self.stack.append(fr)
        self.guards.append(st.pc)
        loops = self.loops
        s = st.copy(TRUE)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(s, fr, fn.node.body)
                fr.returns.append((s.pc, v, s))
            else:
                out = self.exec(s, fr, fn.node.body)
                if out is not None:
                    fr.returns.append((out.pc, NONE, out))
        finally:
            self.stack.pop()
            self.guards.pop()
        rets = [(c, v, x) for c, v, x in fr.returns if c is not FALSE]
        if not rets:
            st.pc = FALSE
            return NONE
        c, v, out = rets[-1]
        tot = c
        for c2, v2, x in reversed(rets[:-1]):
            out = self.merge(c2, x, out, TRUE)
            v = v2 if v2 is v else ite(c2, v2, v)
            tot = bor(c2, tot)
        st.heap = out.heap
        st.pc = band(st.pc, tot)
        if isgen:
            return self.cell(st, fr.yields).v
        return v


class _NoSummary(Exception):
    pass


def _dropabsent(v):
    """value assuming the name is bound"""
    if v.op == 'ite':
        a, b = v.a[1], v.a[2]
        if a is ABSENT:
            return _dropabsent(b)
        if b is ABSENT:
            return _dropabsent(a)
        return ite(v.a[0], _dropabsent(a), _dropabsent(b))
    return v


def truth_arr(x):
    return x if tm.isbool(x) else truth(x)


def _load(t):
    n = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
    return n


def _store(t):
    return t


def _has(body, types):
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, types):
                return True
    return False


def _is_gen(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
