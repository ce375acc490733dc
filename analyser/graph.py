"""Name resolution and call graph over the package's syntax trees (no code is run).

resolve(expr, scope) gives ('def', qual) for a project function or class, ('mod', name) for a project module,
('ext', dotted) for something imported from outside, ('local',) / ('global', qual) for variables, None if unknown."""
import ast, builtins

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__builtins__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope:
    def __init__(self, node, parent, module, kind, name):
        self.node, self.parent, self.module, self.kind, self.name = node, parent, module, kind, name
        self.binds = {}         # name -> list of binding descriptions
        self.globals, self.nonlocals = set(), set()
        self.children = []
        self.cls = None

    def bind(self, name, what):
        if name in self.globals:
            self.module_scope().binds.setdefault(name, []).append(what)
        elif name in self.nonlocals:
            s = self.parent
            while s is not None and not (s.kind == 'function' and name in s.binds):
                s = s.parent
            (s or self).binds.setdefault(name, []).append(what)
        else:
            self.binds.setdefault(name, []).append(what)

    def module_scope(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s

    def find(self, name):
        """scope that binds name as seen from here"""
        s, first = self, True
        if name in self.globals:
            s = self.module_scope()
            return s if name in s.binds else None
        while s is not None:
            if (first or s.kind != 'class') and name in s.binds:
                return s
            first = False
            s = s.parent
        return None


class Graph:
    def __init__(self, project):
        self.project = project
        self.mods = {n: m for n, m in project.modules.items() if n == project.package or n.startswith(project.package + '.')}
        self.scopes = {}        # id(node) -> Scope
        self.top = {}
        self.defs = {}          # qualified name -> (module, node, scope of body)
        self.classes = {}       # qualified name -> info
        self.uses = []          # (module, scope, Name node)
        self.attrs = []         # (module, scope, Attribute node)
        self.calls = []         # (module, scope, Call node)
        for n in sorted(self.mods):
            self.build(self.mods[n])
        self.star()
        # attributes stored on a project module
        for m, sc, n in self.attrs:
            if isinstance(n.ctx, ast.Store):
                r = self.resolve(n.value, sc)
                if r and r[0] == 'mod' and r[1] in self.top:
                    self.top[r[1]].binds.setdefault(n.attr, []).append(('var', n))

    # ------------------------------------------------------------ scopes
    def build(self, m):
        top = Scope(m.tree, None, m, 'module', m.name)
        self.top[m.name] = top
        self.scopes[id(m.tree)] = top
        m.parents = {}
        for p in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(p):
                m.parents[id(ch)] = p
        self.body(m.tree.body, top)

    def body(self, stmts, sc):
        # declarations first: a name bound anywhere in a scope is local to it
        for s in stmts:
            self.declare(s, sc)
        for s in stmts:
            self.visit(s, sc)

    def declare(self, n, sc):
        if isinstance(n, ast.Global):
            sc.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            sc.nonlocals.update(n.names)
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            return
        for ch in ast.iter_child_nodes(n):
            self.declare(ch, sc)

    def absname(self, m, n):
        """module named by a from-import"""
        if not n.level:
            return n.module
        parts = m.name.split('.')
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def visit(self, n, sc):
        m = sc.module
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = sc.name + '.' + n.name
            sc.bind(n.name, ('def', q))
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, sc)
            f = Scope(n, sc, m, 'function', q)
            f.cls = sc if sc.kind == 'class' else None
            self.scopes[id(n)] = f
            self.defs[q] = (m, n, f)
            if sc.kind == 'class':
                self.classes[sc.name]['methods'][n.name] = q
            self.params(n.args, f)
            self.body(n.body, f)
        elif isinstance(n, ast.Lambda):
            f = Scope(n, sc, m, 'function', sc.name + '.<lambda>')
            self.scopes[id(n)] = f
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, sc)
            self.params(n.args, f)
            self.declare(n.body, f)
            self.visit(n.body, f)
        elif isinstance(n, ast.ClassDef):
            q = sc.name + '.' + n.name
            sc.bind(n.name, ('def', q))
            for b in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                self.visit(b, sc)
            c = Scope(n, sc, m, 'class', q)
            self.scopes[id(n)] = c
            self.defs[q] = (m, n, c)
            self.classes[q] = dict(node=n, module=m, scope=c, methods={}, bases=n.bases, outer=sc)
            self.body(n.body, c)
        elif isinstance(n, COMPS):
            f = Scope(n, sc, m, 'comp', sc.name)
            self.scopes[id(n)] = f
            for i, g in enumerate(n.generators):
                self.visit(g.iter, sc if i == 0 else f)
                self.visit(g.target, f)
                for x in g.ifs:
                    self.visit(x, f)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(x, f)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    sc.bind(a.asname, ('module', a.name))
                else:
                    sc.bind(a.name.split('.')[0], ('module', a.name.split('.')[0]))
                    sc.binds[a.name.split('.')[0]][-1] = ('module', a.name.split('.')[0], a.name)
        elif isinstance(n, ast.ImportFrom):
            src = self.absname(m, n)
            for a in n.names:
                if a.name == '*':
                    sc.__dict__.setdefault('stars', []).append(src)
                else:
                    sc.bind(a.asname or a.name, ('from', src, a.name))
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.uses.append((m, sc, n))
            else:
                # assignment expressions in comprehensions bind in the enclosing function
                t = sc
                if isinstance(m.parents.get(id(n)), ast.NamedExpr):
                    while t.kind == 'comp':
                        t = t.parent
                t.bind(n.id, ('var', n))
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                sc.bind(n.name, ('var', n))
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, sc)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                sc.bind(n.name, ('var', n))
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, sc)
        elif isinstance(n, ast.MatchMapping):
            if n.rest:
                sc.bind(n.rest, ('var', n))
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, sc)
        else:
            if isinstance(n, ast.Attribute):
                self.attrs.append((m, sc, n))
            elif isinstance(n, ast.Call):
                self.calls.append((m, sc, n))
            for ch in ast.iter_child_nodes(n):
                self.visit(ch, sc)

    def params(self, a, f):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            f.bind(x.arg, ('param', x))

    def star(self):
        for _ in range(8):
            for n, t in self.top.items():
                for src in getattr(t, 'stars', []):
                    o = self.top.get(src)
                    if o is None:
                        t.binds.setdefault('*', [('star', src)])
                        continue
                    public = None
                    for b in ast.walk(o.node):
                        if isinstance(b, ast.Assign) and any(isinstance(x, ast.Name) and x.id == '__all__' for x in b.targets):
                            try:
                                public = ast.literal_eval(b.value)
                            except ValueError:
                                public = None
                    for k in list(o.binds):
                        if k != '*' and (k in public if public is not None else not k.startswith('_')):
                            t.binds.setdefault(k, [('from', src, k)])
                    # submodules imported by a package's own from-imports are attributes of it
                    for x in self.submodules(src):
                        t.binds.setdefault(x, [('from', src, x)])

    def submodules(self, name):
        """submodules of a project package that its own __init__ imports"""
        out = set()
        o = self.top.get(name)
        if o is None or not o.module.pkg:
            return out
        for n in ast.walk(o.node):
            if isinstance(n, ast.ImportFrom):
                src = self.absname(o.module, n)
                if src and src.startswith(name + '.'):
                    out.add(src[len(name) + 1:].split('.')[0])
                elif src == name:
                    out |= {a.name for a in n.names if name + '.' + a.name in self.top}
        return out

    # ------------------------------------------------------------ resolution
    def member(self, mod, name, seen=()):
        """what attribute name of project module mod is"""
        t = self.top.get(mod)
        if t is None:
            return ('ext', mod + '.' + name)
        if (mod, name) in seen:
            return None
        if name in t.binds:
            bs = t.binds[name]
            if any(b[0] == 'var' for b in bs):
                return ('global', mod + '.' + name)
            return self.binding(bs[-1], seen + ((mod, name),))
        if name in self.submodules(mod) or (mod + '.' + name) in self.top and any((mod + '.' + name) in self.imported(x) for x in self.top):
            return ('mod', mod + '.' + name)
        if name in ('__name__', '__file__', '__doc__', '__path__', '__version__', '__dict__', '__package__'):
            return ('global', mod + '.' + name) if name != '__version__' else None
        if '*' in t.binds:
            return ('ext', t.binds['*'][0][1] + '.' + name)
        return None

    def imported(self, mod):
        if not hasattr(self, '_imp'):
            self._imp = {}
            for n, t in self.top.items():
                s = set()
                for x in ast.walk(t.node):
                    if isinstance(x, ast.Import):
                        s |= {a.name for a in x.names}
                    elif isinstance(x, ast.ImportFrom):
                        src = self.absname(t.module, x)
                        s.add(src)
                        s |= {f'{src}.{a.name}' for a in x.names}
                self._imp[n] = s
        return self._imp[mod]

    def binding(self, b, seen=()):
        if b[0] == 'def':
            return b
        if b[0] == 'module':
            return ('mod', b[1]) if b[1] in self.top else ('ext', b[1])
        if b[0] == 'from':
            if b[1] in self.top:
                r = self.member(b[1], b[2], seen)
                if r is None and b[1] + '.' + b[2] in self.top:
                    return ('mod', b[1] + '.' + b[2])
                return r
            return ('ext', f'{b[1]}.{b[2]}')
        return ('local',)

    def resolve(self, e, sc):
        if isinstance(e, ast.Name):
            s = sc.find(e.id)
            if s is None:
                return ('ext', 'builtins.' + e.id) if e.id in BUILTINS else None
            bs = s.binds[e.id]
            if any(b[0] in ('var', 'param') for b in bs):
                return ('global', s.name + '.' + e.id) if s.kind == 'module' else ('local',)
            return self.binding(bs[-1])
        if isinstance(e, ast.Attribute):
            r = self.resolve(e.value, sc)
            if r is None:
                return None
            if r[0] == 'mod':
                return self.member(r[1], e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
            if r[0] == 'def' and r[1] in self.classes:
                q = self.method(r[1], e.attr)
                return ('def', q) if q else ('value',)
            return ('value',)
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, sc)
            if r and r[0] == 'def' and r[1] in self.classes:
                return ('instance', r[1])
            return ('value',)
        return ('value',)

    # ------------------------------------------------------------ classes
    def mro(self, q):
        """project bases of a class, and whether all bases are known"""
        out, known, todo = [], True, [q]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            if x not in self.classes:
                known = False
                continue
            out.append(x)
            c = self.classes[x]
            for b in c['bases']:
                r = self.resolve(b, c['outer'])
                if r and r[0] == 'def':
                    todo.append(r[1])
                elif r == ('ext', 'builtins.object'):
                    pass
                else:
                    known = False
        return out, known

    def method(self, q, name):
        for c in self.mro(q)[0]:
            if name in self.classes[c]['methods']:
                return self.classes[c]['methods'][name]
        return None

    def function_of(self, sc):
        while sc is not None and sc.kind != 'function':
            sc = sc.parent
        return sc

    def callees(self):
        """function -> set of (kind, target, node): resolved project functions, external names, and methods by name"""
        if hasattr(self, '_callees'):
            return self._callees
        byname = {}
        for q, c in self.classes.items():
            for k, f in c['methods'].items():
                byname.setdefault(k, set()).add(f)
        out = {}
        for m, sc, n in self.uses + self.attrs:
            if not isinstance(n.ctx, ast.Load):
                continue
            f = self.function_of(sc)
            own = f.name if f else m.name
            s = out.setdefault(own, [])
            r = self.resolve(n, sc)
            if r and r[0] == 'def':
                if r[1] in self.classes:
                    q = self.method(r[1], '__init__')
                    if q:
                        s.append(('def', q, n))
                else:
                    s.append(('def', r[1], n))
            elif r and r[0] == 'ext':
                s.append(('ext', r[1], n))
            elif r and r[0] == 'global':
                s.append(('global', r[1], n))
            elif isinstance(n, ast.Attribute) and n.attr in byname:
                for q in byname[n.attr]:
                    s.append(('def', q, n))
        # nested functions run on behalf of the function that defines them
        for q, (m, node, sc) in self.defs.items():
            p = self.function_of(sc.parent) if sc.parent else None
            if p is not None and not isinstance(node, ast.ClassDef):
                out.setdefault(p.name, []).append(('def', q, node))
        self._callees = out
        return out

    def reachable(self, roots):
        c = self.callees()
        seen, todo, via = set(), list(roots), {}
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            for kind, t, n in c.get(q, []):
                if kind == 'def' and t not in seen:
                    via.setdefault(t, q)
                    todo.append(t)
        return seen, via

    def path(self, via, q):
        out = [q]
        while q in via:
            q = via[q]
            out.append(q)
        return ' <- '.join(x.split('.', 1)[-1] for x in out)


    def scope_at(self, m, node):
        n = node
        while n is not None:
            if id(n) in self.scopes:
                return self.scopes[id(n)]
            n = m.parents.get(id(n))
        return self.top[m.name]


_graph = None


def graph():
    global _graph
    if _graph is None:
        from .harness import project
        _graph = Graph(project())
    return _graph
