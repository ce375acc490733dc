"""rewrites the whole of the repository in ways that keep its behaviour, and runs the checks, which have to stay quiet
usage: autoeq.py [KIND ...]      (copies in /tmp/ae)"""
import ast, os, shutil, subprocess, sys, glob, copy
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = [0]


def fresh(p):
    N[0] += 1
    return f'_{p}{N[0]}'


def L(n):
    return ast.Name(n, ast.Load())


def S(n):
    return ast.Name(n, ast.Store())


def expr(s, **kw):
    t = ast.parse(s, mode='eval').body

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return kw.get(n.id, n)
    return R().visit(t)


class Blocks(ast.NodeTransformer):
    """transformer of statement lists inside functions; statement(s, rest) -> list of statements or None"""
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                    setattr(n, f, self.block(b))
        return n

    def block(self, b):
        out = []
        for s in b:
            r = self.statement(s)
            out += [s] if r is None else r
        return out


def plain(n):
    return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n))


class While(Blocks):
    """for -> while with a counter that rises at once"""
    def statement(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            q, i = fresh('seq'), fresh('i')
            return [ast.Assign([S(q)], expr('list(E)', E=s.iter)), ast.Assign([S(i)], ast.Constant(0)),
                    ast.While(expr(f'{i} < len({q})'), [ast.Assign([s.target], expr(f'{q}[{i}]')), ast.AugAssign(S(i), ast.Add(), ast.Constant(1))] + s.body, [])]


class WhileEnd(Blocks):
    """for -> while with a counter that rises at the end"""
    def statement(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            q, i = fresh('seq'), fresh('i')
            return [ast.Assign([S(q)], expr('list(E)', E=s.iter)), ast.Assign([S(i)], ast.Constant(0)),
                    ast.While(expr(f'{i} < len({q})'), [ast.Assign([s.target], expr(f'{q}[{i}]'))] + s.body + [ast.Assign([S(i)], expr(f'{i} + 1'))], [])]


class Enum(Blocks):
    """for x in s -> for i, _ in enumerate(s): x = s[i]"""
    def statement(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            q, i = fresh('seq'), fresh('i')
            return [ast.Assign([S(q)], expr('list(E)', E=s.iter)), ast.For(ast.Tuple([S(i), S('_')], ast.Store()), expr(f'enumerate({q})'), [ast.Assign([s.target], expr(f'{q}[{i}]'))] + s.body, [])]


class Comp(Blocks):
    """list comprehension as the value of a statement -> loop with append"""
    def statement(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and plain(s):
            r = fresh('out')
            names = {x.id: fresh('v') for g in s.value.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(names.get(n.id, n.id), n.ctx)
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for y in ast.iter_child_nodes(s.value) for x in ast.walk(y)):
                return None
            first = s.value.generators[0].iter
            v = R().visit(copy.deepcopy(s.value))
            v.generators[0].iter = first
            body = [ast.Expr(expr(f'{r}.append(E)', E=v.elt))]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = L(r)
            return [ast.Assign([S(r)], ast.List([], ast.Load()))] + body + [s]


class Flip(ast.NodeTransformer):
    """if not c: B else: A; comparisons the other way round; b if not c else a"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
        return n


class Temp(Blocks):
    """value of a statement through a variable; arguments of calls through variables"""
    def statement(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            pre = []
            v = s.value
            if isinstance(v, ast.Call) and plain(v) and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Starred) for x in v.args):
                for i, a in enumerate(v.args):
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        t = fresh('a')
                        pre.append(ast.Assign([S(t)], a))
                        v.args[i] = L(t)
            t = fresh('t')
            s.value = L(t)
            return pre + [ast.Assign([S(t)], v), s]


class Helper(Blocks):
    """value of a statement through a nested function"""
    def statement(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and plain(s) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(s)):
            t = fresh('h')
            f = ast.FunctionDef(t, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [])
            s.value = ast.Call(L(t), [], [])
            return [f, s]


class Format(ast.NodeTransformer):
    """f-strings -> format"""
    def visit_JoinedStr(self, n):
        out, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value.replace('{', '{{').replace('}', '}}')
                continue
            if v.conversion != -1 or v.format_spec is not None and not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                return n
            sp = ''.join(x.value for x in v.format_spec.values) if v.format_spec else ''
            out += '{:' + sp + '}' if sp else '{}'
            args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(out), 'format', ast.Load()), args, [])


class Else(Blocks):
    """if c: return a; rest -> if c: return a else: rest"""
    def block(self, b):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


class Branch(Blocks):
    """x = a if c else b -> if"""
    def statement(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]


class Unpack(Blocks):
    """a, b = e -> t = tuple(e); a = t[0]; b = t[1]"""
    def statement(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
            t = fresh('t')
            return [ast.Assign([S(t)], expr('tuple(E)', E=s.value))] + [ast.Assign([x], expr(f'{t}[{i}]')) for i, x in enumerate(s.targets[0].elts)]


class Morgan(ast.NodeTransformer):
    """conditions: a and b -> not (not a or not b), only where a truth value is tested"""
    def test(self, n):
        if isinstance(n, ast.BoolOp):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), self.test(v)) for v in n.values]))
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n
    visit_IfExp = visit_While = visit_If


class Nested(Blocks):
    """if a and b: -> if a: if b:"""
    def statement(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            v = s.test.values
            b = s.body
            for x in reversed(v):
                b = [ast.If(x, b, [])]
            return b


class MapC(ast.NodeTransformer):
    """[f(x) for x in s] -> list(map(lambda x: f(x), s))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
            return ast.Call(L('list'), [ast.Call(L('map'), [ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt), g[0].iter], [])], [])
        return n


class Match(ast.NodeTransformer):
    """match on constants -> if"""
    def visit_Match(self, n):
        self.generic_visit(n)
        t = fresh('m')
        out = []
        for c in n.cases:
            p = c.pattern
            if c.guard:
                return n
            if isinstance(p, ast.MatchValue):
                test = ast.Compare(L(t), [ast.Eq()], [p.value])
            elif isinstance(p, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in p.patterns):
                test = ast.BoolOp(ast.Or(), [ast.Compare(L(t), [ast.Eq()], [x.value]) for x in p.patterns])
            elif isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                test = None
            else:
                return n
            out.append((test, c.body))
        r = []
        for test, b in reversed(out):
            r = b if test is None else [ast.If(test, b, r)]
        return [ast.Assign([S(t)], n.subject)] + r


class Keyword(ast.NodeTransformer):
    """attributes through getattr"""
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            return ast.Call(L('getattr'), [n.value, ast.Constant(n.attr)], [])
        return n

    def visit_Call(self, n):
        n.args = [self.visit(x) for x in n.args]
        n.keywords = [self.visit(x) for x in n.keywords]
        return n


KINDS = {k.__name__: k for k in (While, WhileEnd, Enum, Comp, Flip, Temp, Helper, Format, Else, Branch, Unpack, Morgan, Nested, MapC, Match, Keyword)}


def make(kind):
    d = f'/tmp/ae/{kind}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo/.', d])
    for f in glob.glob(d + '/src/craterstats/**/*.py', recursive=True):
        s = open(f).read()
        t = KINDS[kind]().visit(ast.parse(s))
        ast.fix_missing_locations(t)
        try:
            u = ast.unparse(t)
            ast.parse(u)
        except SyntaxError as e:
            print('not rewritten', f, e)
            continue
        open(f, 'w').write(u + '\n')
    return d


def run(a):
    kind, prop = a
    d = f'/tmp/ae/{kind}'
    p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--out', d + '/.ev'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), cwd=HERE)
    return kind, prop, p.returncode, p.stdout


if __name__ == '__main__':
    kinds = [a for a in sys.argv[1:] if not a.startswith('--')] or list(KINDS)
    props = sorted('C' + os.path.basename(f)[1:-3] for f in glob.glob(HERE + '/checks/c[0-9][0-9].py'))
    for k in kinds:
        d = make(k)
        if '--make' in sys.argv:
            continue
        with ThreadPoolExecutor(int(os.environ.get("JOBS", 8))) as ex:
            for kind, prop, rc, out in ex.map(run, [(k, p) for p in props]):
                u = [l for l in out.splitlines() if 'undecided' in l]
                n = u and 'undecided, ' in out and ' 0 undecided' not in out
                if rc == 1:
                    print(f'{kind} {prop} ALARM')
                    print('\n'.join('    ' + l[:300] for l in out.splitlines()[1:6]), flush=True)
                elif rc:
                    print(f'{kind} {prop} rc={rc} {out[-200:]}', flush=True)
                elif n:
                    print(f'{kind} {prop} {u[-1][-90:]}', flush=True)
        print('done', k, flush=True)
