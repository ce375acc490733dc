"""Lints over the whole program: what a function writes outside its own frame and its arguments."""
import ast

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'popitem', 'appendleft', 'fill', 'put', 'resize', '__setitem__', '__delitem__',
            'difference_update', 'intersection_update', 'symmetric_difference_update'}
PROCESS = ('os.environ', 'os.umask', 'sys.path', 'sys.argv', 'sys.modules', 'sys.stdout', 'sys.stderr', 'sys.stdin', 'os.putenv', 'os.unsetenv')
SETTERS = ('locale.setlocale', 'numpy.seterr', 'numpy.set_printoptions', 'sys.setrecursionlimit', 'os.putenv', 'os.unsetenv', 'os.umask', 'signal.signal', 'warnings.simplefilter', 'warnings.filterwarnings', 'builtins.setattr')
RC = ('matplotlib.pyplot.rcParams', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParamsDefault', 'matplotlib.rcParamsDefault')


class Effects:
    def __init__(self, g):
        self.g = g
        self.found = []         # (function, node, global, how)
        self.unknown = []
        self.rc = []            # (function, node, key or None)
        self.process = []       # (function, node, what)
        for m, sc, n in self.statements():
            self.statement(m, sc, n)

    def statements(self):
        for name, m in self.g.mods.items():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.Call, ast.For, ast.With, ast.NamedExpr)):
                    yield m, self.g.scope_at(m, m.parents.get(id(n), n)) if not isinstance(n, ast.Call) else self.g.scope_at(m, n), n

    def owner(self, sc):
        f = self.g.function_of(sc)
        return f.name if f is not None else None

    # what an expression denotes: ('global', q) for a value reachable from a namespace of the package, ('ext', dotted), None
    def root(self, e, sc, depth=0):
        if depth > 6:
            return None
        if isinstance(e, ast.Subscript):
            return self.root(e.value, sc, depth + 1)
        if isinstance(e, ast.Attribute):
            r = self.g.resolve(e, sc)
            if r and r[0] in ('global', 'ext'):
                return r
            b = self.g.resolve(e.value, sc)
            if b and b[0] == 'def' and b[1] in self.g.classes:
                return ('global', b[1] + '.' + e.attr)
            x = self.root(e.value, sc, depth + 1)
            return x
        if isinstance(e, ast.Name):
            r = self.g.resolve(e, sc)
            if r and r[0] in ('global', 'ext'):
                return r
            if r == ('local',):
                return self.alias(e.id, sc, depth)
        if isinstance(e, ast.IfExp):
            return self.root(e.body, sc, depth + 1) or self.root(e.orelse, sc, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'values', 'items', 'pop'):
            return self.root(e.func.value, sc, depth + 1)
        return None

    def alias(self, name, sc, depth):
        """global a local name stands for at any of its bindings (copies stand for nothing)"""
        s = sc.find(name)
        if s is None:
            return None
        for b in s.binds[name]:
            if b[0] != 'var':
                continue
            n = b[1]
            p = s.module.parents.get(id(n))
            src = None
            if isinstance(p, ast.Assign) and n in p.targets or isinstance(p, ast.NamedExpr):
                src = p.value
            elif isinstance(p, ast.Assign) is False and isinstance(p, (ast.Tuple, ast.List)):
                q = s.module.parents.get(id(p))
                if isinstance(q, ast.Assign) and isinstance(q.value, (ast.Tuple, ast.List)) and len(q.value.elts) == len(p.elts):
                    src = q.value.elts[p.elts.index(n)]
                elif isinstance(q, (ast.For, ast.comprehension)):
                    it = q.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('zip', 'enumerate'):
                        k = p.elts.index(n) - (it.func.id == 'enumerate')
                        src = it.args[k] if 0 <= k < len(it.args) else None
                    else:
                        src = it
            elif isinstance(p, (ast.For, ast.comprehension)) and p.target is n:
                src = p.iter
            if src is not None:
                r = self.root(src, s if s.kind != 'class' else sc, depth + 1)
                if r is not None:
                    return r
        return None

    def note(self, sc, n, r, how):
        f = self.owner(sc)
        if f is None or r is None:
            return          # a module builds its own tables while it is being imported
        if r[0] == 'global':
            self.found.append((f, n, r[1], how))
        elif any(r[1] == p or r[1].startswith(p + '.') for p in PROCESS):
            self.process.append((f, n, r[1]))

    def statement(self, m, sc, n):
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            targets = [n.target] if not (isinstance(n, ast.AnnAssign) and n.value is None) else []
        elif isinstance(n, ast.Delete):
            targets = n.targets
        elif isinstance(n, ast.With):
            targets = [i.optional_vars for i in n.items if i.optional_vars is not None]
        todo = list(targets)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo += t.elts
            elif isinstance(t, ast.Starred):
                todo.append(t.value)
            elif isinstance(t, ast.Name):
                s = sc
                while s is not None and s.kind == 'comp':
                    s = s.parent
                if s is not None and s.kind == 'function' and t.id in s.globals:
                    self.note(sc, t, ('global', m.name + '.' + t.id), 'assigned')
                elif isinstance(n, ast.AugAssign) and s is not None and s.kind == 'function':
                    pass        # rebinding a local; in-place on arrays is seen by the interpretation
            elif isinstance(t, ast.Attribute):
                b = self.g.resolve(t.value, sc)
                if b and b[0] == 'mod':
                    self.note(sc, t, ('global', b[1] + '.' + t.attr), 'assigned')
                elif b and b[0] == 'def' and b[1] in self.g.classes:
                    self.note(sc, t, ('global', b[1] + '.' + t.attr), 'assigned')
                elif b and b[0] == 'ext':
                    self.note(sc, t, ('ext', b[1] + '.' + t.attr), 'assigned')
                elif isinstance(t.value, ast.Attribute) and t.value.attr == '__class__' or isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id == 'type' \
                        or isinstance(t.value, ast.Name) and t.value.id == 'cls':
                    f = self.g.function_of(sc)
                    c = f.cls.name if f is not None and f.cls is not None else '?'
                    self.note(sc, t, ('global', c + '.' + t.attr), 'assigned')
                else:
                    self.note(sc, t, self.root(t.value, sc), f'attribute {t.attr} assigned')
            elif isinstance(t, ast.Subscript):
                r = self.root(t.value, sc)
                if r and r[0] == 'ext' and r[1] in RC:
                    self.rckey(sc, n, t.slice)
                else:
                    self.note(sc, t, r, 'element assigned' if not isinstance(n, ast.Delete) else 'element removed')
        if isinstance(n, ast.Call):
            f = n.func
            r = self.g.resolve(f, sc)
            if r and r[0] == 'ext':
                if r[1] in ('matplotlib.pyplot.rc', 'matplotlib.rc'):
                    grp = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'group'), None)
                    keys = [k.arg for k in n.keywords if k.arg != 'group']
                    ok = isinstance(grp, ast.Constant) and None not in keys and len(n.args) == 1
                    for k in keys if ok else [None]:
                        self.rc.append((self.owner(sc), n, f'{grp.value}.{k}' if ok else None))
                    return
                if r[1] in SETTERS:
                    if r[1] == 'builtins.setattr' and n.args:
                        b = self.g.resolve(n.args[0], sc)
                        if b and (b[0] == 'mod' or b[0] == 'def' and b[1] in self.g.classes):
                            self.note(sc, n, ('global', b[1] + '.?'), 'assigned')
                    elif self.owner(sc):
                        self.process.append((self.owner(sc), n, r[1]))
                    return
                if any(r[1].startswith(x + '.') for x in RC):
                    if r[1].endswith('.update'):
                        for a in n.args:
                            if isinstance(a, ast.Dict):
                                for k in a.keys:
                                    self.rckey(sc, n, k)
                            elif not (isinstance(a, ast.Attribute) and self.g.resolve(a, sc) and self.g.resolve(a, sc)[0] == 'ext'):
                                self.rc.append((self.owner(sc), n, None))
                        for k in n.keywords:
                            self.rc.append((self.owner(sc), n, k.arg))
                    return
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                self.note(sc, n, self.root(f.value, sc), f'.{f.attr}()')

    def rckey(self, sc, n, k):
        self.rc.append((self.owner(sc), n, k.value if isinstance(k, ast.Constant) else None))

    def memo(self, q):
        """a table that starts empty and is only filled behind a look-up of the same key"""
        mod, _, name = q.rpartition('.')
        t = self.g.top.get(mod)
        if t is None:
            return False
        init = [s.value for s in t.node.body if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets)]
        if len(init) != 1 or not (isinstance(init[0], ast.Dict) and not init[0].keys or isinstance(init[0], ast.Call) and isinstance(init[0].func, ast.Name) and init[0].func.id == 'dict' and not init[0].args):
            return False
        return all(how == 'element assigned' for f, n, x, how in self.found if x == q)

    def where(self, f, n):
        return f.split('.', 1)[-1] + f':{n.lineno}'

    # ------------------------------------------------------------ remembered results
    READS = ('builtins.open', 'os.listdir', 'os.path.getmtime', 'os.getcwd', 'os.path.exists', 'os.path.isfile', 'glob.glob', 'os.stat', 'numpy.genfromtxt', 'numpy.loadtxt')

    def reads(self, q):
        """does the function (or what it calls) look at the file system"""
        seen, via = self.g.reachable([q])
        for f in sorted(seen):
            for kind, t, n in self.g.callees().get(f, []):
                if kind == 'ext' and t in self.READS:
                    return f, t
        return None

    def depends(self, e, fn, names=None):
        """parameters of fn that expression e is computed from (through assignments in fn)"""
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + [a.arg for a in (fn.args.vararg, fn.args.kwarg) if a is not None]
        seen, todo = set(), {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for n in ast.walk(fn):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    src = n.iter if isinstance(n, ast.For) else n.value
                    if src is not None and any(isinstance(x, ast.Name) and x.id == k for t in ts for x in ast.walk(t)):
                        todo |= {x.id for x in ast.walk(src) if isinstance(x, ast.Name)}
        return {p for p in params if p in seen}

    def remembered(self):
        """[(function, line, what is wrong or None)] for every result kept for later calls"""
        out = []
        for f, n, q, how in self.found:
            if not self.memo(q):
                continue
            m, fn, sc = self.g.defs[f]
            st = m.parents.get(id(n))
            while not isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                st = m.parents.get(id(st))
            left = self.depends(st.value, fn) - self.depends(n.slice, fn)
            if left:
                out.append((f, n, f'{q} keeps a result that depends on {", ".join(sorted(left))} under a key that does not'))
            elif self.reads(f):
                out.append((f, n, f'{q} keeps what was read from a file ({self.reads(f)[1]} in {self.reads(f)[0].split(".", 1)[-1]})'))
            else:
                out.append((f, n, None))
        for q, (m, node, sc) in self.g.defs.items():
            for d in getattr(node, 'decorator_list', []):
                r = self.g.resolve(d.func if isinstance(d, ast.Call) else d, sc.parent)
                if r and r[0] == 'ext' and r[1] in ('functools.lru_cache', 'functools.cache') and not isinstance(node, ast.ClassDef):
                    x = self.reads(q)
                    out.append((q, node, f'keeps what was read from a file ({x[1]} in {x[0].split(".", 1)[-1]})' if x else None))
        return out
