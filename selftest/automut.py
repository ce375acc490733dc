#!/usr/bin/env python3
"""development aid: generated mutants of the whole package against all checks.
automut.py N SEED [--jobs J] [--only FILESUBSTR] : samples N mutants that import and pass the tests, and reports those no check catches.
One line per mutant to stdout: CAUGHT/MISSED file:line operator | old -> new | check or number of undecided obligations"""
import ast, sys, os, re, json, random, subprocess, shutil, glob, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PKG = 'src/craterstats/'
OPT = dict(zip(sys.argv[3::2], sys.argv[4::2]))

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div]}


def mutants(path, src):
    t = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        i, j = span(n)
        return b[i:j].decode()
    out = []

    def put(n, op, new):
        i, j = span(n)
        out.append((n.lineno, op, b[i:j].decode(), new, i, j))

    def U(n):
        return ast.unparse(n)

    def walk(n, fn, parent):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            fn = n
        if fn is not None:
            visit(n, fn, parent)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.JoinedStr,)):
                continue
            walk(c, fn, n)

    def visit(n, fn, parent):
        P = lambda s: f'({s})'
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, 'compare', P(U(ast.Compare(n.left, [o()], n.comparators))))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                if isinstance(n.op, (ast.Add, ast.Mod)) and any(isinstance(x, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(x, 'value', 0), (int, float)) for x in (n.left, n.right)):
                    continue
                put(n, 'arith', P(U(ast.BinOp(n.left, o(), n.right))))
            for k in (n.left, n.right):
                if not isinstance(k, ast.Constant):
                    put(n, 'drop operand', P(U(k)))
        elif isinstance(n, ast.BoolOp):
            put(n, 'bool', P(U(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values))))
            for i in range(len(n.values)):
                v = n.values[:i] + n.values[i + 1:]
                put(n, 'drop condition', P(U(v[0] if len(v) == 1 else ast.BoolOp(n.op, v))))
        elif isinstance(n, ast.UnaryOp):
            put(n, 'unary', P(U(n.operand)))
        elif isinstance(n, ast.Constant) and not isinstance(parent, (ast.JoinedStr, ast.FormattedValue, ast.Expr)):
            if n.value is True or n.value is False:
                put(n, 'const', str(not n.value))
            elif isinstance(n.value, int):
                put(n, 'const', str(n.value + 1))
                put(n, 'const', P(str(n.value - 1)))
            elif isinstance(n.value, float):
                put(n, 'const', repr(n.value * 1.5 or 1.))
        elif isinstance(n, ast.IfExp):
            put(n, 'swap branches', P(U(ast.IfExp(n.test, n.orelse, n.body))))
            put(n, 'one branch', P(U(n.body)))
            put(n, 'one branch', P(U(n.orelse)))
        elif isinstance(n, ast.If):
            put(n.test, 'condition', 'True')
            put(n.test, 'condition', 'False')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                put(n, 'swap args', U(ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords)))
            if n.keywords:
                for i in range(len(n.keywords)):
                    put(n, 'drop keyword', U(ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])))
            if len(n.args) == 1 and not n.keywords and not isinstance(parent, ast.Expr) and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                put(n, 'drop call', P(U(n.args[0])))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, 'drop slice', U(n.value))
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'drop jump', 'pass')
        elif isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'drop statement', 'pass')
        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
            tg = n.targets[0]
            if isinstance(tg, (ast.Attribute, ast.Subscript)):
                put(n, 'drop statement', 'pass')
            elif isinstance(tg, ast.Name) and sum(isinstance(x, ast.Name) and x.id == tg.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)) > 1:
                put(n, 'drop statement', 'pass')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cps', 'cc', 'cp', 'pf', 'cf'):
            same = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n.value.id} - {n.attr})
            if same and not (isinstance(parent, ast.Call) and parent.func is n):
                put(n, 'other attribute', f'{n.value.id}.{random.choice(same)}')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(fn, ast.FunctionDef):
            loc = sorted(({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}) - {'self'})
            if n.id in loc and len(loc) > 1:
                k = loc.index(n.id)
                put(n, 'other name', loc[k - 1] if k and random.random() < .5 else loc[(k + 1) % len(loc)])
        if isinstance(n, (ast.For, ast.comprehension)) and not isinstance(n.iter, (ast.Constant, ast.List, ast.Tuple)):
            put(n.iter, 'truncate', f'list({U(n.iter)})[:30]')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, 'condition', 'True')
    walk(t, None, None)
    # which function
    defs = [(f.lineno, f.end_lineno, f.name) for f in ast.walk(t) if isinstance(f, ast.FunctionDef)]
    res = []
    for l, op, old, new, i, j in out:
        fs = [d for d in defs if d[0] <= l <= d[1]]
        name = max(fs)[2] if fs else ''
        s = (b[:i] + new.encode() + b[j:]).decode()
        if old.strip('()') != new.strip('()'):
            res.append((path, l, name, op, old, new, s))
    return res


def order():
    e = {}
    for f in glob.glob('/tmp/ev/C??.json'):
        e[os.path.basename(f)[:3]] = open(f).read()
    return e


EV = order()
OWN = {k: ['C' + n for n in v.split()] for k, v in dict(
    Cratercount='01 02 03 08 15 16 34 06', Craterplot='07 08 34 35 28 30 13 01 23', Craterplotset='09 10 13 28 30 31 34 35 12 07', Productionfn='04 28 01 12', Chronologyfn='05 12 28',
    Craterpdf='06 30 31', Epochs='28', Randomnessanalysis='16 20 21 22 23 24', Spatialcount='15 16 24 25 32 21', cli='10 11 13 14 12 32', miscellaneous='01 17 25 27 35 10 23 12').items()}


def one(args):
    k, (path, l, name, op, old, new, s) = args
    d = f'/tmp/am/w{os.getpid()}'
    if not os.path.isdir(d):
        shutil.copytree(R, d, ignore=shutil.ignore_patterns('.git', 'demo*.png'))
    f = f'{d}/{PKG}{path}'
    orig = open(f'{R}/{PKG}{path}').read()
    open(f, 'w').write(s)
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTHONPATH=d + '/src', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', LC_ALL='C.UTF-8')
        r = subprocess.run(f'cd {d} && timeout 100 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider src/craterstats/tests', shell=True, env=env, capture_output=True, text=True)
        if r.returncode:
            return k, None
        mod = path.split('/')[-1][:-3]
        checks = OWN.get(mod, [c for c in EV if c not in ('C18', 'C19', 'C20', 'C21', 'C22')])
        checks = sorted(checks, key=lambda c: -(name in EV.get(c, '')))
        und = []
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        for c in checks:
            r = subprocess.run(f'timeout 900 python3 {V}/check.py {c} --out {d}/ev', shell=True, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                return k, f'CAUGHT {c}'
            m = re.search(r'(\d+) undecided', r.stdout)
            if r.returncode or not m:
                und.append(f'{c}:exit{r.returncode}')
            elif m[1] != '0':
                und.append(f'{c}:{m[1]}')
        return k, 'MISSED ' + ' '.join(und)
    finally:
        open(f, 'w').write(orig)


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    random.seed(seed)
    ms = []
    for f in sorted(glob.glob(f'{R}/{PKG}**/*.py', recursive=True)):
        p = os.path.relpath(f, f'{R}/{PKG}')
        if p.startswith('tests') or '--only' in OPT and OPT['--only'] not in p:
            continue
        ms += mutants(p, open(f).read())
    if '--op' in OPT:
        ms = [m for m in ms if m[3] == OPT['--op']]
    # stratify by function
    by = {}
    for m in ms:
        by.setdefault((m[0], m[2]), []).append(m)
    print(len(ms), 'candidates in', len(by), 'functions', flush=True)
    pick = []
    for v in by.values():
        random.shuffle(v)
    keys = sorted(by)
    random.shuffle(keys)
    i = 0
    weights = [max(1, int(len(by[k]) ** .6)) for k in keys]
    pool = [k for k, w in zip(keys, weights) for _ in range(w)]
    random.shuffle(pool)
    while len(pick) < N and pool:
        k = pool[i % len(pool)]
        i += 1
        if by[k]:
            pick.append(by[k].pop())
        if i > 50 * N:
            break
    os.makedirs('/tmp/am', exist_ok=True)
    with mp.Pool(int(OPT.get('--jobs', 8))) as P:
        for k, r in P.imap_unordered(one, list(enumerate(pick))):
            if r is None:
                continue
            path, l, name, op, old, new, s = pick[k]
            print(r.split()[0], f'{path}:{l} {name} [{op}] | {" ".join(old.split())[:110]} -> {" ".join(new.split())[:110]} |', ' '.join(r.split()[1:]), flush=True)
    shutil.rmtree('/tmp/am', ignore_errors=True)


main()
