"""Resolution of references: light flow-insensitive types of receivers, definite assignment of locals, and argument lists of calls.
Everything is decided from the syntax trees through the scopes of analyser.graph; no code is run."""
import ast, builtins, json, os, re
from .graph import Graph, graph, BUILTINS, COMPS, FUNCS

HERE = os.path.dirname(os.path.abspath(__file__))
NOTHING = frozenset()
NONE_T, OTHER = frozenset([('none',)]), frozenset([('other',)])


def union(*ts):
    if any(t is None for t in ts):
        return None
    return frozenset().union(*ts)


class Refs:
    def __init__(self, g=None):
        self.g = g = g or graph()
        self.memo, self.busy = {}, set()
        self.cut = False
        self.stores = {}        # attribute name -> [(module, scope, receiver expr, value expr or None)]
        self.appends = {}       # attribute name -> [(module, scope, receiver, element expr, is list)]
        self.callsites = {}     # qualified function -> [(module, scope, call, skipself)]
        self.dynamic = set()    # classes setting attributes by computed name
        self.tuples = {}        # namedtuple classes: qualified name -> fields
        self.strings, self.keywords = set(), {}
        self.strkeys = {}       # string key -> [value exprs]
        self.collect()

    # ------------------------------------------------------------ facts
    def collect(self):
        g = self.g
        for name, m in g.mods.items():
            for n in ast.walk(m.tree):
                sc = None
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        self.store(m, t, n.value, n)
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self.store(m, n.target, None, n)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self.store(m, n.optional_vars, None, n)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.strings.add(n.value)
                elif isinstance(n, ast.Dict):
                    for k, v in zip(n.keys, n.values):
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            self.strkeys.setdefault(k.value, []).append((g.scope_at(m, n), v))
                if isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg:
                            self.keywords.setdefault(k.arg, []).append((g.scope_at(m, n), k.value))
                    if isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                        if isinstance(n.args[1], ast.Constant):
                            self.stores.setdefault(n.args[1].value, []).append((m, g.scope_at(m, n), n.args[0], n.args[2]))
                        else:
                            c = self.selfclass(n.args[0], g.scope_at(m, n))
                            if c:
                                self.dynamic.add(c)
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert', 'extend') and isinstance(n.func.value, ast.Attribute) and n.args:
                        self.appends.setdefault(n.func.value.attr, []).append((m, g.scope_at(m, n), n.func.value.value, n.args[-1], n.func.attr == 'extend'))
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    f = g.function_of(g.scope_at(m, n))
                    if f is not None and f.cls is not None:
                        self.dynamic.add(f.cls.name)
        # named tuples
        for name, m in g.mods.items():
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and g.resolve(n.value.func, g.top[name]) == ('ext', 'collections.namedtuple') and len(n.value.args) > 1:
                    f = self.consts(n.value.args[1], g.top[name])
                    for t in n.targets:
                        if isinstance(t, ast.Name) and f is not None:
                            self.tuples[name + '.' + t.id] = f
        for m, sc, n in g.calls:
            for q, skip in self.targets(n, sc):
                self.callsites.setdefault(q, []).append((m, sc, n, skip))

    def consts(self, e, sc):
        """names listed by an expression"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value.replace(',', ' ').split()
        if isinstance(e, (ast.List, ast.Tuple)):
            return [x.value for x in e.elts] if all(isinstance(x, ast.Constant) for x in e.elts) else None
        if isinstance(e, ast.Name):
            s = sc.find(e.id)
            bs = s.binds[e.id] if s else []
            if len(bs) == 1 and bs[0][0] == 'var':
                p = sc.module.parents.get(id(bs[0][1])) if s is self.g.top.get(s.name) else None
                if isinstance(p, ast.Assign):
                    return self.consts(p.value, s)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.consts(e.left, sc), self.consts(e.right, sc)
            return a + b if a is not None and b is not None else None
        return None

    def store(self, m, t, v, stmt):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.store(m, x, y, stmt)
        elif isinstance(t, ast.Starred):
            self.store(m, t.value, None, stmt)
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) and v is not None:
            self.strkeys.setdefault(t.slice.value, []).append((self.g.scope_at(m, t), v))
        elif isinstance(t, ast.Attribute):
            sc = self.g.scope_at(m, t)
            if isinstance(stmt, ast.AugAssign):
                self.appends.setdefault(t.attr, []).append((m, sc, t.value, v, True))
            else:
                self.stores.setdefault(t.attr, []).append((m, sc, t.value, v))

    def targets(self, call, sc):
        """project functions a call certainly runs: (qualified name, receiver already bound)"""
        g = self.g
        r = g.resolve(call.func, sc)
        if r and r[0] == 'def':
            if r[1] in g.classes:
                q = g.method(r[1], '__init__')
                return [(q, True)] if q else []
            if isinstance(call.func, ast.Attribute):
                b = g.resolve(call.func.value, sc)
                if b and b[0] == 'def':     # Class.method(...)
                    return [(r[1], self.static(r[1]))] if not self.static(r[1]) else [(r[1], False)]
            return [(r[1], False)]
        if isinstance(call.func, ast.Attribute):
            t = self.selfclass(call.func.value, sc)
            if t:
                q = g.method(t, call.func.attr)
                if q:
                    return [(q, not self.static(q))]
            if isinstance(call.func.value, ast.Call) and isinstance(call.func.value.func, ast.Name) and call.func.value.func.id == 'super':
                f = g.function_of(sc)
                if f is not None and f.cls is not None:
                    for c in g.mro(f.cls.name)[0][1:]:
                        if call.func.attr in g.classes[c]['methods']:
                            return [(g.classes[c]['methods'][call.func.attr], True)]
        return []

    def static(self, q):
        n = self.g.defs[q][1]
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in n.decorator_list)

    def selfclass(self, e, sc):
        """class whose instance a name is as the receiver of the enclosing method"""
        if not isinstance(e, ast.Name):
            return None
        s = sc.find(e.id)
        if s is None or s.kind != 'function' or s.cls is None or not isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        a = s.node.args.posonlyargs + s.node.args.args
        if a and a[0].arg == e.id and not self.static(s.name) and len(s.binds[e.id]) == 1:
            if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in s.node.decorator_list):
                return None
            return s.cls.name
        return None

    # ------------------------------------------------------------ types
    def infer(self, e, sc):
        k = (id(e), sc.name)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or len(self.busy) > 60:
            self.cut = True
            return NOTHING
        self.busy.add(k)
        outer, self.cut = self.cut, False
        try:
            r = self.infer1(e, sc)
        finally:
            self.busy.discard(k)
        if not self.cut or not self.busy:
            self.memo[k] = r
        self.cut = self.cut or outer
        return r

    def elem(self, t):
        if t is None:
            return None
        out = NOTHING
        for x in t:
            if x[0] == 'l':
                out = union(out, x[1])
            elif x[0] != 'none':
                return None
            if out is None:
                return None
        return out

    def infer1(self, e, sc):
        g = self.g
        if isinstance(e, ast.Constant):
            return NONE_T if e.value is None else OTHER
        if isinstance(e, (ast.JoinedStr, ast.Compare, ast.Dict, ast.Set, ast.DictComp, ast.SetComp)):
            return OTHER
        if isinstance(e, ast.IfExp):
            return union(self.infer(e.body, sc), self.infer(e.orelse, sc))
        if isinstance(e, ast.BoolOp):
            return union(*[self.infer(x, sc) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.infer(e.value, sc)
        if isinstance(e, (ast.List, ast.Tuple)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            t = union(NOTHING, *[self.infer(x, sc) for x in e.elts])
            return frozenset([('l', t)])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return frozenset([('l', self.infer(e.elt, g.scopes[id(e)]))])
        if isinstance(e, ast.Subscript):
            b = self.infer(e.value, sc)
            if b is None or not b or not all(x[0] in ('l', 'none') for x in b):
                return None
            return b if isinstance(e.slice, ast.Slice) else self.elem(b)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Add):
                a, b = self.infer(e.left, sc), self.infer(e.right, sc)
                if a and b and all(x[0] == 'l' for x in a | b):
                    return a | b
            return None
        if isinstance(e, ast.Call):
            r = g.resolve(e.func, sc)
            if r and r[0] == 'def':
                if r[1] in g.classes:
                    return frozenset([('i', r[1])])
                return self.returned(r[1])
            if r and r[0] == 'global' and r[1] in self.tuples:
                return frozenset([('i', r[1])])
            if r and r[0] == 'ext' and r[1] in ('copy.copy', 'copy.deepcopy', 'builtins.list', 'builtins.sorted', 'builtins.reversed', 'builtins.tuple') and e.args:
                return self.infer(e.args[0], sc)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr == 'parse_args':
                    return frozenset([('ns',)])
                b = self.infer(e.func.value, sc)
                if b and all(x[0] in ('i', 'none') for x in b):
                    qs = [g.method(x[1], e.func.attr) for x in b if x[0] == 'i' and x[1] in g.classes]
                    if qs and all(qs):
                        return union(*[self.returned(q) for q in qs])
            return None
        if isinstance(e, ast.Attribute):
            r = g.resolve(e, sc)
            if r and r[0] == 'global':
                return self.var(*self.globalof(r[1]))
            b = self.infer(e.value, sc)
            if not b or not all(x[0] in ('i', 'none') for x in b):
                return None
            return union(NOTHING, *[self.field(x[1], e.attr) for x in b if x[0] == 'i'])
        if isinstance(e, ast.Name):
            c = self.selfclass(e, sc)
            if c:
                return frozenset([('i', c)])
            s = sc.find(e.id)
            return self.var(s, e.id) if s is not None else None
        return None

    def globalof(self, q):
        m, _, n = q.rpartition('.')
        return (self.g.top[m], n) if m in self.g.top else (None, n)

    def var(self, s, name):
        if s is None or name not in s.binds:
            return None
        out = NOTHING
        for b in s.binds[name]:
            if b[0] == 'var':
                t = self.bound(b[1], s)
            elif b[0] == 'param':
                t = self.param(s, b[1])
            else:
                t = None
            out = union(out, t)
            if out is None:
                return None
        return out

    def bound(self, n, s):
        """type given to a variable at one of its bindings"""
        m = s.module
        p = m.parents.get(id(n))
        if isinstance(p, ast.Assign) and n in p.targets:
            return self.infer(p.value, self.g.scope_at(m, p))
        if isinstance(p, ast.NamedExpr):
            return self.infer(p.value, self.g.scope_at(m, p))
        if isinstance(p, (ast.For, ast.comprehension)) and p.target is n:
            it = p.iter
            return self.elem(self.infer(it, self.g.scope_at(m, p) if isinstance(p, ast.For) else s))
        if isinstance(p, ast.AugAssign):
            return NOTHING if isinstance(p.value, (ast.List, ast.ListComp)) else None
        if isinstance(p, ast.Tuple):
            q = m.parents.get(id(p))
            if isinstance(q, ast.Assign) and p in q.targets and isinstance(q.value, (ast.Tuple, ast.List)) and len(q.value.elts) == len(p.elts):
                return self.infer(q.value.elts[p.elts.index(n)], self.g.scope_at(m, q))
            if isinstance(q, (ast.For, ast.comprehension)) and isinstance(q.iter, ast.Call) and isinstance(q.iter.func, ast.Name) and not any(isinstance(a, ast.Starred) for a in q.iter.args):
                sc = self.g.scope_at(m, q) if isinstance(q, ast.For) else s
                i = p.elts.index(n)
                if q.iter.func.id == 'enumerate' and i == 1:
                    return self.elem(self.infer(q.iter.args[0], sc))
                if q.iter.func.id == 'zip' and i < len(q.iter.args):
                    return self.elem(self.infer(q.iter.args[i], sc))
        return None

    def param(self, s, a):
        """union over the calls of the function"""
        node = s.node
        if isinstance(node, ast.Lambda) or not isinstance(node, ast.FunctionDef):
            return None
        args = node.args.posonlyargs + node.args.args
        if a in (node.args.vararg, node.args.kwarg):
            return None
        out, seen = NOTHING, False
        d = dict(zip([x.arg for x in args[::-1]], node.args.defaults[::-1]))
        d.update({x.arg: v for x, v in zip(node.args.kwonlyargs, node.args.kw_defaults) if v is not None})
        if a.arg in d:
            out = union(out, self.infer(d[a.arg], s.parent))
        sites = list(self.callsites.get(s.name, []))
        if s.cls is not None:
            # calls through instances
            for m, sc, n in self.bymethod(node.name):
                t = self.infer(n.func.value, sc)
                if t and any(x[0] == 'i' and self.g.method(x[1], node.name) == s.name for x in t if x[0] == 'i' and x[1] in self.g.classes):
                    if not any(x[2] is n for x in sites):
                        sites.append((m, sc, n, True))
        for m, sc, n, skip in sites:
            v = self.argument(n, node, a, skip)
            if v == 'unknown':
                return None
            if v is None:
                continue
            seen = True
            out = union(out, self.infer(v, sc))
            if out is None:
                return None
        return out if seen else None

    def bymethod(self, name):
        if not hasattr(self, '_bym'):
            self._bym = {}
            for m, sc, n in self.g.calls:
                if isinstance(n.func, ast.Attribute):
                    self._bym.setdefault(n.func.attr, []).append((m, sc, n))
        return self._bym.get(name, [])

    def argument(self, call, fn, a, skip):
        args = fn.args.posonlyargs + fn.args.args
        for k in call.keywords:
            if k.arg == a.arg:
                return k.value
        if a in args:
            i = args.index(a) - (1 if skip else 0)
            if i < 0:
                return None
            for j, x in enumerate(call.args):
                if isinstance(x, ast.Starred):
                    return 'unknown'
                if j == i:
                    return x
        if any(k.arg is None for k in call.keywords):
            return 'unknown'
        return None

    def returned(self, q):
        m, node, s = self.g.defs[q]
        k = ('ret', q)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            self.cut = True
            return NOTHING
        if not isinstance(node, ast.FunctionDef):
            return None
        self.busy.add(k)
        try:
            out = NOTHING
            for n in own(node):
                if isinstance(n, ast.Return):
                    out = union(out, self.infer(n.value, self.g.scope_at(m, n)) if n.value is not None else NONE_T)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    out = None
                if out is None:
                    break
        finally:
            self.busy.discard(k)
        return out

    def family(self, q):
        """a class, its bases and its derived classes"""
        if q not in self.g.classes:
            return {q}
        out = set(self.g.mro(q)[0])
        for c in self.g.classes:
            if q in self.g.mro(c)[0]:
                out |= set(self.g.mro(c)[0])
        return out

    def field(self, q, f):
        k = ('field', q, f)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            self.cut = True
            return NOTHING
        self.busy.add(k)
        try:
            return self.field1(q, f)
        finally:
            self.busy.discard(k)

    def field1(self, q, f):
        if q in self.tuples:
            return None
        fam = self.family(q)
        out, seen = NOTHING, False
        for m, sc, recv, v in self.stores.get(f, []):
            c = self.selfclass(recv, sc)
            if c is not None and c not in fam:
                continue
            if c is None:
                t = self.infer(recv, sc)
                if t is not None and not any(x[0] == 'i' and x[1] in fam for x in t):
                    continue
            seen = True
            out = union(out, self.infer(v, sc) if v is not None else None)
            if out is None:
                return None
        if self.dynamic & fam:
            explicit = any(x[0] == 'i' for x in out)
            for sc, v in self.keywords.get(f, []) + self.strkeys.get(f, []):
                t = self.infer(v, sc)
                if explicit and (t is None or not any(x[0] == 'i' for x in t)):
                    continue                    # settings given by name are texts and numbers
                out = union(out, t)
                seen = True
                if out is None:
                    return None
        el = NOTHING
        for m, sc, recv, v, many in self.appends.get(f, []):
            t = self.infer(v, sc)
            el = union(el, self.elem(t) if many else t)
            if el is None:
                break
        if self.appends.get(f) and out and any(x[0] == 'l' for x in out):
            out = frozenset([x for x in out if x[0] != 'l'] + [('l', union(el, *[x[1] for x in out if x[0] == 'l']))])
        return out if seen else None

    # ------------------------------------------------------------ attributes
    def attributes(self, q):
        """names an instance of a class can have, and whether the list is complete"""
        if q in self.tuples:
            return set(self.tuples[q]) | {'_asdict', '_replace', '_fields', '_make', 'count', 'index'}, True
        k = ('attrs', q)
        if k in self.memo:
            return self.memo[k]
        known = self.g.mro(q)[1]
        out = set(dir(object)) | {'__dict__'}
        for c in self.family(q):
            info = self.g.classes.get(c)
            if info is None:
                known = False
                continue
            known = known and self.g.mro(c)[1]
            out |= set(info['methods']) | {n for n in info['scope'].binds}
            if '__getattr__' in info['methods'] or '__getattribute__' in info['methods']:
                known = False
        fam = self.family(q)
        for f, l in self.stores.items():
            for m, sc, recv, v in l:
                c = self.selfclass(recv, sc)
                if c in fam or c is None and self.g.resolve(recv, sc) not in [None] and (self.g.resolve(recv, sc) or ('',))[0] != 'mod':
                    t = self.infer(recv, sc) if c is None else None
                    if c in fam or t is None or any(x[0] == 'i' and x[1] in fam for x in t):
                        out.add(f)
        if self.dynamic & fam:
            out |= {s for s in self.strings if s.isidentifier()} | set(self.keywords)
        self.memo[k] = (out, known)
        return out, known


def own(fn):
    """nodes of a function without those of functions nested in it"""
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS + (ast.ClassDef,)):
            todo.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- argument lists
def accepts(fn, call, skip):
    """why a call does not fit a function's parameters, None if it may"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip:
        pos = pos[1:]
    only = {x.arg for x in a.posonlyargs}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and a.vararg is None:
        return f'takes {len(pos)} positional arguments but {n} are given'
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return f"got two values for '{k.arg}'"
        if k.arg in only or k.arg not in pos + [x.arg for x in a.kwonlyargs]:
            if a.kwarg is None:
                return f"has no parameter '{k.arg}'"
        given.add(k.arg)
    if not star and not dstar:
        need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        miss = [x for x in need if x not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if miss:
            return f"misses the argument '{miss[0]}'"
    return None


# ---------------------------------------------------------------- definite assignment
class Unbound:
    """paths on which a local variable has no value when it is used. A path is a set of facts about the tests passed; loops are taken to run at least once,
    and a chain of tests of one subject against constants (if/elif, match) to cover all the subject's values."""
    LIMIT = 48

    def __init__(self, fn, name, noreturn=lambda call: False):
        self.fn, self.name, self.noreturn = fn, name, noreturn
        self.found = []
        self.loop = []
        params = {x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [y for y in (fn.args.vararg, fn.args.kwarg) if y is not None]}
        self.skip = name in params
        if not self.skip:
            self.block(fn.body, [{}])

    # a state is a list of paths (fact dictionaries) on which the variable is unassigned; None would be unreachable
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = []
        for s in sts:
            for p in s:
                if p not in out:
                    out.append(p)
        if len(out) > Unbound.LIMIT:
            return []           # too many paths: nothing is reported
        return out

    def facts(self, t, want):
        """list of alternative fact sets under which a test has the wanted outcome"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.facts(t.operand, not want)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == want
            if conj:
                alts = [{}]
                for v in t.values:
                    alts = [m for a in alts for b in self.facts(v, want) for m in [self.meet(a, b)] if m is not None]
                return alts[:8] if len(alts) <= 8 else [{}]
            alts, pre = [], [{}]
            for v in t.values:
                alts += [m for a in pre for b in self.facts(v, want) for m in [self.meet(a, b)] if m is not None]
                pre = [m for a in pre for b in self.facts(v, not want) for m in [self.meet(a, b)] if m is not None]
            return alts if len(alts) <= 8 else [{}]
        if isinstance(t, ast.Constant):
            return [{}] if bool(t.value) == want else []
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, a, b = t.ops[0], t.left, t.comparators[0]
            sub = ast.unparse(a)
            vals = None
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(b, ast.Constant):
                vals = frozenset([repr(b.value)])
            elif isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, ast.Constant):
                sub, vals = ast.unparse(b), frozenset([repr(a.value)])
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in b.elts):
                vals = frozenset(repr(x.value) for x in b.elts)
            if vals is not None:
                pos = isinstance(op, (ast.Eq, ast.Is, ast.In)) == want
                return [{sub: ('in' if pos else 'out', vals)}]
            neg = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in neg:
                t = ast.Compare(a, [neg[type(op)]()], [b])
                want = not want
            if isinstance(t.ops[0], ast.Gt):
                t = ast.Compare(b, [ast.Lt()], [a])
            return [{'?' + ast.unparse(t): ('is', want)}]
        return [{ast.unparse(t): ('true', want)}]

    @staticmethod
    def meet(a, b):
        out = dict(a)
        for k, v in b.items():
            if k in out:
                m = Unbound.both(out[k], v)
                if m is None:
                    return None
                out[k] = m
            else:
                out[k] = v
        return out

    @staticmethod
    def both(x, y):
        if x[0] == 'is' or y[0] == 'is':
            return x if x == y else None if x[0] == y[0] else x
        if x[0] == 'true' and y[0] == 'true':
            return x if x == y else None
        if x[0] == 'true':
            x, y = y, x
        if y[0] == 'true':
            if x[0] == 'in':
                keep = frozenset(v for v in x[1] if bool(ast.literal_eval(v)) == y[1])
                return ('in', keep) if keep else None
            return y if y[1] else x
        if x[0] == 'in' and y[0] == 'in':
            z = x[1] & y[1]
            return ('in', z) if z else None
        if x[0] == 'in' or y[0] == 'in':
            if y[0] == 'in':
                x, y = y, x
            z = x[1] - y[1]
            return ('in', z) if z else None
        return ('out', x[1] | y[1])

    def report(self, e, st):
        # an element of a loop that is selected by a test may always come after the one for which the variable is assigned
        for p in st:
            if not any(x[2] and any(re.search(r'(?<![\w.])' + re.escape(n) + r'(?!\w)', k) for n in x[3] for k in p) for x in self.loop):
                self.found.append((e, p))
                return

    def assume(self, st, t, want):
        alts = self.facts(t, want)
        return self.join([m for p in st for f in alts for m in [self.meet(p, f)] if m is not None]) or []

    def forget(self, st, names, const=None):
        """facts about re-assigned names are dropped"""
        out = []
        for p in st:
            q = {k: v for k, v in p.items() if not any(re.search(r'(?<![\w.])' + re.escape(n) + r'(?!\w)', k) for n in names)}
            if const:
                q[const[0]] = ('in', frozenset([const[1]]))
            if q not in out:
                out.append(q)
        return out

    def use(self, e, st):
        """uses of the variable in an expression evaluated on these paths; returns the paths on which it stays unassigned"""
        if e is None or not st:
            return st
        if isinstance(e, ast.Name):
            if e.id == self.name and isinstance(e.ctx, ast.Load):
                self.report(e, st)
                return []
            return st
        if isinstance(e, ast.BoolOp):
            cur = st
            for i, v in enumerate(e.values):
                if i == 0:
                    st = self.use(v, cur)
                    cur = st
                else:
                    self.use(v, cur)
                cur = self.assume(cur, v, isinstance(e.op, ast.And))
            return st
        if isinstance(e, ast.IfExp):
            st = self.use(e.test, st)
            self.use(e.body, self.assume(st, e.test, True))
            self.use(e.orelse, self.assume(st, e.test, False))
            return st
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, COMPS):
            st = self.use(e.generators[0].iter, st)
            bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            if self.name not in bound:
                cur = st
                for i, g in enumerate(e.generators):
                    if i:
                        self.use(g.iter, cur)
                    for x in g.ifs:
                        self.use(x, cur)
                        cur = self.assume(cur, x, True)
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    self.use(x, cur)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.use(e.value, st)
            return [] if e.target.id == self.name else self.forget(st, [e.target.id])
        for c in ast.iter_child_nodes(e):
            st = self.use(c, st)
        return st

    def assign(self, t, st, value=None):
        names = [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        attrs = [ast.unparse(n) for n in ast.walk(t) if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store)]
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                for c in ast.iter_child_nodes(n):
                    st = self.use(c, st)
        if self.name in names:
            return []
        const = (ast.unparse(t), repr(value.value)) if isinstance(value, ast.Constant) and isinstance(t, (ast.Name, ast.Attribute)) else None
        return self.forget(st, names + attrs, const)

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                st = self.assign(t, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.assign(s.target, self.use(s.value, st), s.value)
        if isinstance(s, ast.AugAssign):
            st = self.use(s.value, st)
            if isinstance(s.target, ast.Name) and s.target.id == self.name and st:
                self.report(s.target, st)
                return []
            return self.assign(s.target, st)
        if isinstance(s, ast.Expr):
            st = self.use(s.value, st)
            if isinstance(s.value, ast.Call) and self.noreturn(s.value):
                return None
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.use(c, st)
            return None
        if isinstance(s, ast.If):
            return self.branch(s, st)
        if isinstance(s, ast.Match):
            return self.match(s, st)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.use(s.iter, st)
            return self.repeat(s, self.assign(s.target, st), None)
        if isinstance(s, ast.While):
            st = self.use(s.test, st)
            return self.repeat(s, self.assume(st, s.test, True) if not isinstance(s.test, ast.Constant) else st, s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.assign(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.attempt(s, st)
        if isinstance(s, ast.Break):
            if self.loop:
                self.loop[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.loop:
                self.loop[-1][1].append(st)
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id == self.name:
                    return [{}]
            return st
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return [] if s.name == self.name else st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [] if any((a.asname or a.name.split('.')[0]) == self.name for a in s.names) else st
        if isinstance(s, ast.Assert):
            st = self.use(s.test, st)
            return self.assume(st, s.test, True)
        return st

    def branch(self, s, st):
        st = self.use(s.test, st)
        chain, n = [s], s
        while len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n = n.orelse[0]
            chain.append(n)
        full = False
        if len(chain) > 1 and not chain[-1].orelse:
            fs = [self.facts(c.test, True) for c in chain]
            full = all(len(f) == 1 and len(f[0]) == 1 and list(f[0].values())[0][0] in ('in',) for f in fs) and len({list(f[0])[0] for f in fs}) == 1
        a = self.block(s.body, self.assume(st, s.test, True))
        rest = self.assume(st, s.test, False)
        if len(chain) > 1:
            b = self.tail(chain[1:], rest, full)
        else:
            b = self.block(s.orelse, rest)
        return self.join(a, b)

    def tail(self, chain, st, full):
        s = chain[0]
        st = self.use(s.test, st)
        a = self.block(s.body, self.assume(st, s.test, True))
        rest = self.assume(st, s.test, False)
        if len(chain) > 1:
            return self.join(a, self.tail(chain[1:], rest, full))
        if not s.orelse and full:
            return a
        return self.join(a, self.block(s.orelse, rest))

    def match(self, s, st):
        st = self.use(s.subject, st)
        sub = ast.unparse(s.subject)
        outs, seen, wild = [], frozenset(), False
        for c in s.cases:
            names = [n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name]
            vals = self.values(c.pattern)
            cur = st
            if seen:
                cur = [m for p in cur for m in [self.meet(p, {sub: ('out', seen)})] if m is not None]
            if vals is not None:
                cur = [m for p in cur for m in [self.meet(p, {sub: ('in', vals)})] if m is not None]
                if c.guard is None:
                    seen |= vals
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                wild = True
            if self.name in names:
                cur = []
            if c.guard is not None:
                cur = self.assume(self.use(c.guard, cur), c.guard, True)
            outs.append(self.block(c.body, cur))
        return self.join(*outs)

    def values(self, p):
        if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant):
            return frozenset([repr(p.value.value)])
        if isinstance(p, ast.MatchSingleton):
            return frozenset([repr(p.value)])
        if isinstance(p, ast.MatchOr):
            vs = [self.values(x) for x in p.patterns]
            return frozenset().union(*vs) if all(v is not None for v in vs) else None
        return None

    def repeat(self, s, st, test):
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if test is None else set()
        count = targets or names        # elements taken by position: x = seq[i]
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and any(isinstance(x, ast.Name) and x.id in count for x in ast.walk(n.value.slice)):
                    targets = targets | {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.loop.append(([], [], self.name in names, targets))
        out = self.block(s.body, st)
        br, co = self.loop.pop()[:2]
        end = self.join(out, *co)
        if test is not None:
            if isinstance(test, ast.Constant) and test.value:
                end = None
            elif end is not None:
                end = self.assume(self.use(test, end), test, False)
        if s.orelse and end is not None:
            end = self.block(s.orelse, end)
        return self.join(end, *br)

    def attempt(self, s, st):
        out = self.block(s.body, st)
        # an exception may come before or after any assignment of the body
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mid = self.forget(st, names)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        outs = [out]
        for h in s.handlers:
            outs.append(self.block(h.body, [] if h.name == self.name else mid))
        r = self.join(*outs)
        if s.finalbody:
            if r is None:
                self.block(s.finalbody, mid)
                return None
            r = self.block(s.finalbody, r)
        return r
