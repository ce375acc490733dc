"""Which values of a function may be the very objects it was handed (arguments, attributes, tables), and which of them it changes in place.

origin(expr): set of ('param', name) / ('attr', 'self.x') / ('global', q) / ('unknown', ...) an expression may share storage with; empty: a fresh object."""
import ast

from .effects import MUTATORS

VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'broadcast_to', 'flip', 'flipud', 'fliplr', 'split', 'array_split', 'expand_dims', 'view',
         'real', 'nan_to_num_', 'diagonal', 'rollaxis', 'moveaxis', 'rot90', 'hsplit', 'vsplit'}
VIEWMETHODS = {'ravel', 'reshape', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal', 'T', 'flat', 'values', 'items', 'get', 'setdefault', 'pop', '__getitem__'}
IMMUTABLE_CALLS = {'int', 'float', 'str', 'bool', 'len', 'sum', 'abs', 'round', 'format', 'repr', 'tuple', 'min', 'max', 'frozenset'}
ARRAYLIKE = {'sort', 'copy', 'tolist', 'astype', 'shape', 'size', 'append', 'extend', 'sum', 'mean', 'T'}


class Alias:
    def __init__(self, g):
        self.g = g
        self.cache = {}
        self.attrtypes()

    # ------------------------------------------------------------ which attributes hold numbers or texts only
    def attrtypes(self):
        kinds = {}
        for name, m in self.g.mods.items():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(x, ast.Attribute):
                                kinds.setdefault(x.attr, set()).add(self.immutable(n.value) if x is t else False)
        self.plain = {k for k, v in kinds.items() if v == {True}}

    def immutable(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare)):
            return True
        if isinstance(e, ast.UnaryOp):
            return self.immutable(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.immutable(x) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.immutable(e.body) and self.immutable(e.orelse)
        if isinstance(e, ast.BinOp):
            return self.immutable(e.left) and self.immutable(e.right)
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id in IMMUTABLE_CALLS
        if isinstance(e, ast.Attribute):
            return e.attr in getattr(self, 'plain', ())
        return False

    # ------------------------------------------------------------ storage
    def origin(self, e, sc, depth=0):
        g = self.g
        if depth > 8:
            return set()
        if isinstance(e, ast.Name):
            r = g.resolve(e, sc)
            if r and r[0] == 'global':
                return {('table', r[1])}
            if r != ('local',):
                return set()
            s = sc.find(e.id)
            out = set()
            for b in s.binds[e.id]:
                if b[0] == 'param':
                    if e.id in ('self', 'cls') and s.cls is not None:
                        out.add(('object', e.id))
                    else:
                        out.add(('param', e.id))
                elif b[0] == 'var':
                    out |= self.binding(b[1], s, depth)
            return out
        if isinstance(e, ast.Attribute):
            r = g.resolve(e, sc)
            if r and r[0] in ('ext', 'mod', 'def'):
                return set()
            if r and r[0] == 'global':
                return {('table', r[1])}
            if e.attr in self.plain:
                return set()
            if e.attr in ('T', 'flat', 'real', 'imag'):
                return self.origin(e.value, sc, depth + 1)
            base = self.origin(e.value, sc, depth + 1)
            return {(k if k != 'object' else 'attr', f'{v}.{e.attr}') for k, v in base}
        if isinstance(e, ast.Subscript):
            return self.elements(e.value, sc, depth + 1) if not self.fancy(e, sc) else set()
        if isinstance(e, ast.Starred):
            return self.origin(e.value, sc, depth + 1)
        if isinstance(e, (ast.IfExp,)):
            return self.origin(e.body, sc, depth + 1) | self.origin(e.orelse, sc, depth + 1)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.origin(x, sc, depth + 1) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.origin(e.value, sc, depth + 1)
        if isinstance(e, ast.Call):
            return self.call(e, sc, depth)
        return set()

    def elements(self, e, sc, depth):
        """what an element (or slice) of e may share storage with"""
        if depth > 8:
            return set()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.origin(e.elt, self.g.scopes.get(id(e), sc), depth + 1)
        if isinstance(e, (ast.List, ast.Tuple)):
            return set().union(*[self.origin(x, sc, depth + 1) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.Name) and self.g.resolve(e, sc) == ('local',):
            s = sc.find(e.id)
            out = self.origin(e, sc, depth + 1)
            for b in s.binds[e.id]:
                if b[0] == 'var':
                    p = s.module.parents.get(id(b[1]))
                    if isinstance(p, ast.Assign) and b[1] in p.targets and isinstance(p.value, (ast.ListComp, ast.List, ast.Tuple)):
                        out |= self.elements(p.value, s, depth + 1)
            return out
        return self.origin(e, sc, depth + 1)

    def fancy(self, e, sc):
        """subscripts that copy: index arrays, boolean masks, lists"""
        s = e.slice
        if isinstance(s, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(s, ast.Call):
            r = self.g.resolve(s.func, sc)
            return bool(r and r[0] == 'ext' and r[1].split('.')[-1] in ('where', 'nonzero', 'argsort', 'flatnonzero', 'argwhere', 'isin', 'logical_and', 'logical_or', 'logical_not'))
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(s, ast.Name):
            d = sc.find(s.id)
            if d is not None:
                srcs = [d.module.parents.get(id(b[1])) for b in d.binds[s.id] if b[0] == 'var']
                for p in srcs:
                    if isinstance(p, ast.Assign) and self.fancy(ast.Subscript(value=e.value, slice=p.value), sc):
                        return True
        if isinstance(s, ast.Subscript):        # q[0] of np.where
            return self.fancy(ast.Subscript(value=e.value, slice=s.value), sc)
        return False

    def binding(self, n, s, depth):
        p = s.module.parents.get(id(n))
        sc = s
        if isinstance(p, ast.Assign) or isinstance(p, ast.NamedExpr) or isinstance(p, ast.AnnAssign) and p.value is not None:
            return self.origin(p.value, sc, depth + 1)
        if isinstance(p, (ast.For, ast.comprehension)):
            return self.elements(p.iter, sc, depth + 1)
        if isinstance(p, ast.withitem):
            return set()
        if isinstance(p, (ast.Tuple, ast.List)):
            q = s.module.parents.get(id(p))
            k = p.elts.index(n)
            if isinstance(q, ast.Assign):
                v = q.value
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(p.elts):
                    return self.origin(v.elts[k], sc, depth + 1)
                return self.origin(v, sc, depth + 1)
            if isinstance(q, (ast.For, ast.comprehension)):
                it = q.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('zip', 'enumerate'):
                    k -= it.func.id == 'enumerate'
                    return self.origin(it.args[k], sc, depth + 1) if 0 <= k < len(it.args) else set()
                return self.origin(it, sc, depth + 1)
        return set()

    def call(self, e, sc, depth):
        g = self.g
        r = g.resolve(e.func, sc)
        if r and r[0] == 'ext':
            name = r[1].split('.')[-1]
            if r[1] in ('builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.iter', 'builtins.next', 'builtins.filter', 'builtins.getattr'):
                return set().union(*[self.origin(a, sc, depth + 1) for a in e.args]) if e.args else set()
            if r[1].startswith('numpy.') and (name in VIEWS or name == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords)):
                return self.origin(e.args[0], sc, depth + 1) if e.args else set()
            out = [k.value for k in e.keywords if k.arg == 'out']
            return set().union(*[self.origin(a, sc, depth + 1) for a in out]) if out else set()
        if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWMETHODS and (r is None or r[0] in ('value', 'local', 'global')):
            return self.origin(e.func.value, sc, depth + 1)
        q = None
        if r and r[0] == 'def' and r[1] not in g.classes:
            q = r[1]
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            f = g.function_of(sc)
            if f is not None and f.cls is not None:
                q = g.method(f.cls.name, e.func.attr)
        if q:
            out = set()
            for k, v in self.returns(q):
                if k == 'param':
                    a = self.argument(e, q, v.split('.')[0])
                    if a is not None:
                        for k2, v2 in self.origin(a, sc, depth + 1):
                            out.add((k2, v2))
                elif k == 'attr' and isinstance(e.func, ast.Attribute):
                    for k2, v2 in self.origin(e.func.value, sc, depth + 1):
                        out.add(('attr' if k2 == 'object' else k2, v2 + v[v.index('.'):]))
                elif k == 'table':
                    out.add((k, v))
            return out
        return set()

    def argument(self, call, q, name):
        m, fn, sc = self.g.defs[q]
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        if sc.cls is not None and isinstance(call.func, ast.Attribute) and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
            ps = ps[1:]
        for k in call.keywords:
            if k.arg == name:
                return k.value
        if name in ps and ps.index(name) < len(call.args):
            return call.args[ps.index(name)]
        return None

    def returns(self, q):
        if q in self.cache:
            return self.cache[q]
        self.cache[q] = set()
        m, fn, sc = self.g.defs[q]
        out = set()
        for n in self.own(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                vs = n.value.elts if isinstance(n.value, ast.Tuple) else list(n.value.values) if isinstance(n.value, ast.Dict) else [n.value]
                for v in vs:
                    out |= self.origin(v, sc)
        self.cache[q] = out
        return out

    def own(self, fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo += list(ast.iter_child_nodes(n))

    # ------------------------------------------------------------ changes in place
    def changes(self, q):
        """[(node, origin, how)] of in-place changes by function q of something it does not own"""
        m, fn, sc0 = self.g.defs[q]
        out = []
        for n in self.own(fn):
            sc = self.g.scope_at(m, n)
            if isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Name):
                    out += [(n, o, 'augmented in place') for o in self.origin(t, sc) if o[0] != 'object' and self.arraylike(t.id, fn, o, sc)]
                elif isinstance(t, ast.Subscript):
                    out += [(n, o, 'element changed') for o in self.origin(t.value, sc)]
                elif isinstance(t, ast.Attribute) and t.attr not in self.plain:
                    out += [(n, o, 'augmented in place') for o in self.origin(t, sc)]
            elif isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Subscript):
                            out += [(n, o, 'element assigned' if isinstance(n, ast.Assign) else 'element removed') for o in self.origin(x.value, sc)]
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    r = self.g.resolve(n.func, sc)
                    if n.func.attr == 'fill' and len(n.args) > 1 or n.func.attr == 'put' and len(n.args) < 2:
                        continue        # drawing, queues
                    if r is None or r[0] in ('value', 'local', 'global'):
                        out += [(n, o, f'.{n.func.attr}()') for o in self.origin(n.func.value, sc)]
                    elif r[0] == 'ext' and r[1] in ('numpy.put', 'numpy.place', 'numpy.copyto', 'numpy.putmask', 'numpy.fill_diagonal') and n.args:
                        out += [(n, o, r[1]) for o in self.origin(n.args[0], sc)]
                r = self.g.resolve(n.func, sc)
                if r and r[0] == 'ext' and r[1].startswith('numpy.'):
                    out += [(n, o, 'out=') for k in n.keywords if k.arg == 'out' for o in self.origin(k.value, sc)]
                if r and r[0] == 'ext' and (r[1] in ('random.shuffle', 'heapq.heapify', 'heapq.heappush', 'heapq.heappop', 'bisect.insort') or r[1] == 'numpy.random.shuffle') and n.args:
                    out += [(n, o, r[1]) for o in self.origin(n.args[0], sc)]
        return out

    def arraylike(self, name, fn, o, sc=None, depth=0):
        """augmenting a number rebinds the name; only arrays and lists change in place"""
        if o[0] != 'param' or '.' in o[1]:
            return True
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ARRAYLIKE:
                return True
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == name:
                return True
            if isinstance(n, ast.Call):
                d = ast.unparse(n.func)
                if (d.startswith(('np.', 'numpy.')) or d == 'len') and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
                    return True
                if sc is not None and depth < 4:
                    q = self.callee(n, sc)
                    if q:
                        m, f2, sc2 = self.g.defs[q]
                        for p in [a.arg for a in f2.args.posonlyargs + f2.args.args + f2.args.kwonlyargs]:
                            a = self.argument(n, q, p)
                            if isinstance(a, ast.Name) and a.id == name and self.arraylike(p, f2, ('param', p), sc2, depth + 1):
                                return True
        return False

    def callee(self, e, sc):
        r = self.g.resolve(e.func, sc)
        if r and r[0] == 'def' and r[1] not in self.g.classes:
            return r[1]
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            f = self.g.function_of(sc)
            if f is not None and f.cls is not None:
                return self.g.method(f.cls.name, e.func.attr)
        return None

    def stores(self, q):
        """[(node, attribute, origin of the object)] of attribute assignments in q"""
        m, fn, sc0 = self.g.defs[q]
        out = []
        for n in self.own(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                sc = self.g.scope_at(m, n)
                for o in self.origin(n.value, sc):
                    out.append((n, n.attr, o))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                sc = self.g.scope_at(m, n)
                k = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                for o in self.origin(n.args[0], sc):
                    out.append((n, k, o))
        return out
