"""Attributes of an object read while it is being built, before anything on the way can have set them."""
import ast
from .graph import FUNCS

ALL = object()      # anything may have been set


class Unset:
    """walks a constructor and the methods it calls, keeping the attributes some path may have set so far"""

    def __init__(self, g, R, cls):
        self.g, self.R, self.cls, self.found, self.walked, self.reads = g, R, cls, [], [], 0
        self.own = set(dir(object)) | {'__dict__'}
        self.complete = g.mro(cls)[1]
        for c in g.mro(cls)[0]:
            info = g.classes.get(c)
            if info is None:
                self.complete = False
                continue
            self.own |= set(info['methods']) | set(info['scope'].binds)
            if {'__getattr__', '__getattribute__', '__setattr__', '__new__'} & set(info['methods']):
                self.complete = False
        q = g.method(cls, '__init__')
        if self.complete and q in g.defs:
            self.function(q, set(self.own), ())

    # -- functions
    def function(self, q, S, stack):
        if S is ALL or q in stack or len(stack) > 25:
            return ALL
        m, node, sc = self.g.defs[q]
        if any(not (isinstance(d, ast.Name) and d.id == 'property') for d in node.decorator_list) or not node.args.args:
            return ALL
        self.walked.append(q)
        f = Frame(self, q, m, sc, node.args.args[0].arg, stack + (q,))
        return f.block(node.body, S)


class Frame:
    def __init__(self, u, q, m, sc, me, stack):
        self.u, self.q, self.m, self.sc, self.me, self.stack, self.quiet = u, q, m, sc, me, stack, 0

    def is_me(self, n):
        return isinstance(n, ast.Name) and n.id == self.me

    def block(self, body, S):
        for s in body:
            S = self.stmt(s, S)
        return S

    def join(self, *Ss):
        if any(S is ALL for S in Ss):
            return ALL
        return set().union(*Ss)

    def stores(self, n):
        """attributes set anywhere below (also in functions defined there)"""
        return {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and self.is_me(x.value) and isinstance(x.ctx, (ast.Store, ast.Del))}

    def stmt(self, s, S):
        if S is ALL:
            return ALL
        if isinstance(s, ast.Assign):
            S = self.expr(s.value, S)
            for t in s.targets:
                S = self.target(t, S)
            return S
        if isinstance(s, ast.AugAssign):
            S = self.expr(s.value, S)
            t = s.target
            if isinstance(t, ast.Attribute) and self.is_me(t.value):
                self.read(t, S)
            return self.target(t, S)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return S
            return self.target(s.target, self.expr(s.value, S))
        if isinstance(s, ast.If):
            S = self.expr(s.test, S)
            return self.join(self.block(s.body, S), self.block(s.orelse, S))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            S = self.expr(s.iter, S)
            if S is ALL:
                return ALL
            S = self.target(s.target, S)
            S = self.loop(s, S)
            return self.join(S, self.block(s.orelse, S))
        if isinstance(s, ast.While):
            S = self.expr(s.test, self.loop(s, S, before=True))
            S = self.loop(s, S)
            return self.join(S, self.block(s.orelse, S))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                S = self.expr(i.context_expr, S)
                if i.optional_vars is not None:
                    S = self.target(i.optional_vars, S)
            return self.block(s.body, S)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            caught = any(h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in ('AttributeError', 'Exception', 'BaseException') for x in ast.walk(h.type)) for h in s.handlers)
            self.quiet += caught
            B = self.block(s.body, S)
            self.quiet -= caught
            S = self.join(S, B)
            out = [self.block(s.orelse, S)] + [self.block(h.body, S) for h in s.handlers]
            S = self.join(S, *out)
            return self.block(s.finalbody, S)
        if isinstance(s, ast.Match):
            S = self.expr(s.subject, S)
            out = [S]
            for c in s.cases:
                X = self.expr(c.guard, S) if c.guard is not None else S
                out.append(self.block(c.body, X))
            return self.join(*out)
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            if any(isinstance(x, ast.Name) and x.id == self.me for x in ast.walk(s)):      # may be called at any later point
                return ALL if self.escapes(s) else S | self.stores(s)
            return S
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                S = self.expr(e, S)
        return S

    def escapes(self, s):
        """self used otherwise than as self.x"""
        bad = False
        par = {id(c): p for p in ast.walk(s) for c in ast.iter_child_nodes(p)}
        for x in ast.walk(s):
            if self.is_me(x):
                p = par.get(id(x))
                if not (isinstance(p, ast.Attribute)) or isinstance(par.get(id(p)), ast.Call) and par[id(p)].func is p:
                    bad = True
        return bad

    def loop(self, s, S, before=False):
        if S is ALL:
            return ALL
        x, self.quiet, n = self.quiet, 1, len(self.u.found)
        first = self.block(s.body, S)          # what a pass may set is there in the next
        self.quiet = x
        S = self.join(S, first)
        return S if before else self.join(S, self.block(s.body, S))

    def target(self, t, S):
        if S is ALL:
            return ALL
        if isinstance(t, ast.Attribute) and self.is_me(t.value):
            return S | {t.attr}
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                S = self.target(e, S)
            return S
        if isinstance(t, ast.Starred):
            return self.target(t.value, S)
        for e in ast.iter_child_nodes(t):
            if isinstance(e, ast.expr):
                S = self.expr(e, S)
        return S

    def read(self, n, S):
        self.u.reads += 1
        if S is not ALL and n.attr not in S and not self.quiet:
            self.u.found.append((self.m, self.sc, n))

    def expr(self, e, S):
        if S is ALL or e is None:
            return S
        if isinstance(e, ast.Attribute):
            if self.is_me(e.value):
                if isinstance(e.ctx, ast.Load):
                    if e.attr == '__dict__':
                        return ALL
                    self.read(e, S)
                    q = self.u.g.method(self.u.cls, e.attr)
                    if q and any(isinstance(d, ast.Name) and d.id == 'property' for d in self.u.g.defs[q][1].decorator_list):
                        return self.u.function(q, S, self.stack)
                return S
            return self.expr(e.value, S)
        if isinstance(e, ast.Name):
            return ALL if e.id == self.me else S       # handed on: anything may be set there
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ('hasattr', 'getattr', 'isinstance', 'type', 'id', 'print') and e.args and self.is_me(e.args[0]):
                for a in e.args[1:]:
                    S = self.expr(a, S)
                return S
            q = None
            sup = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
            if sup:
                here = self.q.rsplit('.', 1)[0]
                order = self.u.g.mro(self.u.cls)[0]
                if here not in order:
                    return ALL
                for c in order[order.index(here) + 1:]:
                    info = self.u.g.classes.get(c)
                    if info is None:
                        return ALL
                    if f.attr in info['methods']:
                        q = info['methods'][f.attr]
                        break
                if q is None and f.attr != '__init__':
                    return ALL
            elif isinstance(f, ast.Attribute) and self.is_me(f.value):
                q = self.u.g.method(self.u.cls, f.attr)
                if q is None:
                    S = self.expr(f, S)
            else:
                S = self.expr(f, S)
            for a in e.args:
                S = self.expr(a.value if isinstance(a, ast.Starred) else a, S)
            for k in e.keywords:
                S = self.expr(k.value, S)
            if S is ALL or q is None:
                return S
            if self.u.R.static(q):
                return S
            return self.u.function(q, S, self.stack)
        if isinstance(e, ast.Lambda):
            return ALL if self.escapes(e) else S
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in e.generators:
                S = self.expr(c.iter, S)
                for i in c.ifs:
                    S = self.expr(i, S)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                S = self.expr(x, S)
            return S
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                S = self.expr(x, S)
        return S
