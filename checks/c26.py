"""Every internal reference resolves: lints over the scopes, receivers and argument lists of the whole package"""
import ast, glob, json, os, re, shutil, subprocess, tempfile
from analyser.harness import Ob, Violation, Undecided, project
from analyser.graph import graph, FUNCS
from analyser.refs import Refs, Unbound, accepts, own
from analyser.unset import Unset

TECHNIQUE = 'scope and import resolution, receiver type inference, call signature matching and path-sensitive definite assignment over the syntax trees; pyright for the names and parameters of libraries'
RULE = ('every name, imported name, module attribute, attribute of an object of known class, option field and string key refers to something the program defines, every call of a function, method or constructor of the package fits its parameters, '
        'every unpacked result has that many parts, and no local variable is used on a path that does not assign it; names and parameters of library functions are checked against the installed libraries')
NOTE = RULE + '. Loops are taken to run at least once and chains of tests of one value against constants to cover its values; receivers whose class cannot be inferred are checked against the names that exist anywhere'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FOREIGN = {('ctypes', 'windll'), ('palettable.colorbrewer.diverging', 'Spectral_9'), ('palettable.colorbrewer', 'Spectral_9')}    # exist on another platform or are made at import


def text(n, k=70):
    s = ' '.join(ast.unparse(n).split())
    return s if len(s) <= k else s[:k] + '…'


def at(m, sc, n):
    g = graph()
    f = g.function_of(sc)
    return f'{os.path.relpath(m.path, os.path.dirname(os.path.dirname(m.path)))}:{n.lineno} {f.name.split(".", 1)[-1] if f else "module level"}'


def conclude(bad, checked, rule):
    if bad:
        w, t = bad[0]
        raise Violation(w, t + (f' (and {len(bad) - 1} more: ' + '; '.join(f'{a}: {b}' for a, b in bad[1:6]) + ')' if len(bad) > 1 else ''))
    return dict(methods=[rule], functions=checked)


def noreturn(call):
    s = ast.unparse(call.func)
    return s in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort') or s.endswith('.error') and 'parser' in s


# names of tables, columns and fields that come from the files the program reads
FORMAT = {'crater', 'table', 'diameter', 'fraction', 'lon', 'lat', 'frequency', 'Total_area', 'area', 'unit_boundary', 'sub_area', 'tag', 'planetary_radius', 'boundary', 'index_1km', 'body', 'name', 'source', 'n_sigma', 'bin', 'min', 'max'}


def options(g):
    """fields of the parsed command line, None if an option cannot be read"""
    out = {}
    for m, sc, n in g.calls:
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            dest = [k.value for k in n.keywords if k.arg == 'dest']
            if dest:
                if not isinstance(dest[0], ast.Constant):
                    return None
                out[dest[0].value] = n
            elif not names or len(names) != len(n.args):
                return None
            else:
                long = [x for x in names if x.startswith('--')] or [x for x in names if x.startswith('-')] or names
                out[long[0].lstrip('-').replace('-', '_')] = n
        elif isinstance(n.func, ast.Attribute) and n.func.attr == 'set_defaults':
            out.update({k.arg: n for k in n.keywords})
    return out


def library():
    """diagnostics of pyright on names and parameters"""
    repo = os.environ.get('VERIF_REPO', '/repo')
    d = tempfile.mkdtemp(prefix='pyr')
    try:
        shutil.copytree(os.path.join(repo, 'src'), os.path.join(d, 'src'), ignore=shutil.ignore_patterns('__pycache__', 'tests', 'sample', 'fonts', '*.egg-info'))
        json.dump(dict(include=['src'], venvPath='/opt', venv='venv', extraPaths=['src'], typeCheckingMode='standard', reportMissingModuleSource=False), open(os.path.join(d, 'pyrightconfig.json'), 'w'))
        r = subprocess.run(['pyright', '--outputjson', '-p', d], cwd=d, capture_output=True, text=True, timeout=400)
        return json.loads(r.stdout)['generalDiagnostics'], d
    except Exception as e:
        return repr(e), d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def submodule(mod, name):
    for r in ['/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3.12']:
        p = os.path.join(r, *mod.split('.'), name)
        if os.path.isdir(p) or glob.glob(p + '.py') or glob.glob(p + '.*.so') or glob.glob(p + '.pyi'):
            return True
    return False


def obligations(tier):
    g = graph()
    R = Refs(g)
    mods = {n: m for n, m in g.mods.items() if '.tests' not in n}
    ext = set(open(os.path.join(HERE, 'specs/attributes.txt')).read().split())
    opts = options(g)
    made = set(R.strings) | set(R.stores) | set(R.keywords) | {k for c in g.classes.values() for k in list(c['methods']) + list(c['scope'].binds)} | {f for t in R.tuples.values() for f in t} | {n for t in g.top.values() for n in t.binds}
    obs = []
    short = lambda n: n.split('.', 1)[-1] if '.' in n else n

    def names(name):
        def f():
            bad, k = [], 0
            for m, sc, n in g.uses:
                if m.name == name:
                    k += 1
                    if g.resolve(n, sc) is None:
                        bad.append((at(m, sc, n), f"name '{n.id}' is not defined"))
            for n in ast.walk(mods[name].tree):
                if isinstance(n, ast.ImportFrom):
                    src = g.absname(mods[name], n)
                    if src in g.top:
                        for a in n.names:
                            k += 1
                            if a.name != '*' and g.binding(('from', src, a.name)) is None:
                                bad.append((at(mods[name], g.scope_at(mods[name], n), n), f"'{a.name}' cannot be imported from {src}"))
                    elif src and (src.split('.')[0] == project().package):
                        bad.append((at(mods[name], g.scope_at(mods[name], n), n), f"there is no module {src}"))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split('.')[0] == project().package and a.name not in g.top:
                            bad.append((at(mods[name], g.scope_at(mods[name], n), n), f"there is no module {a.name}"))
            return conclude(bad, [f'{k} names'], 'name resolution')
        return f

    def attributes(name):
        def f():
            bad, k, how = [], 0, {}
            for m, sc, n in g.attrs:
                if m.name != name or not isinstance(n.ctx, ast.Load):
                    continue
                k += 1
                r = g.resolve(n.value, sc)
                if r is None:
                    continue
                if r[0] == 'mod':
                    if g.resolve(n, sc) is None:
                        bad.append((at(m, sc, n), f"module {r[1]} has no '{n.attr}'"))
                    continue
                if r[0] == 'ext':
                    continue
                if r[0] == 'def':
                    if r[1] in g.classes:
                        names_, known = R.attributes(r[1])
                        if known and n.attr not in names_ and n.attr not in dir(type):
                            bad.append((at(m, sc, n), f"class {short(r[1])} has no '{n.attr}'"))
                    continue
                t = R.infer(n.value, sc)
                if t is None or not t or not any(x[0] in ('i', 'ns') for x in t):
                    how['any'] = how.get('any', 0) + 1
                    if n.attr not in ext and n.attr not in made and n.attr not in (opts or {}):
                        bad.append((at(m, sc, n), f"'{text(n)}': nothing has an attribute '{n.attr}'"))
                    continue
                if any(x[0] not in ('i', 'ns', 'none') for x in t):
                    continue
                ok, full = False, True
                for x in t:
                    if x[0] == 'ns':
                        ok = ok or opts is None or n.attr in opts or n.attr in R.stores or n.attr in dir(object) or n.attr.startswith('_')
                    elif x[0] == 'i':
                        names_, known = R.attributes(x[1])
                        full = full and known
                        ok = ok or n.attr in names_
                how['class'] = how.get('class', 0) + 1
                if not ok and full:
                    c = ', '.join(sorted('the command line' if x[0] == 'ns' else short(x[1]) for x in t if x[0] != 'none'))
                    bad.append((at(m, sc, n), f"'{text(n)}': {c} has no '{n.attr}'"))
            return conclude(bad, [f'{k} attributes, receiver class inferred for {how.get("class", 0)}'], 'receiver types')
        return f

    def calls(name):
        def f():
            bad, k, seen = [], 0, 0
            for m, sc, n in g.calls:
                if m.name != name:
                    continue
                seen += 1
                ts = R.targets(n, sc)
                one = False
                if not ts and isinstance(n.func, ast.Attribute):
                    r = g.resolve(n.func.value, sc)
                    if r and r[0] in ('mod', 'ext', 'def'):
                        r = None
                    elif r:
                        t = R.infer(n.func.value, sc)
                        if t and any(x[0] == 'i' for x in t) and all(x[0] in ('i', 'none') for x in t):
                            qs = [g.method(x[1], n.func.attr) for x in t if x[0] == 'i' and x[1] in g.classes]
                            ts = [(q, not R.static(q)) for q in qs if q]
                        elif t is None and n.func.attr not in ext and not any(n.func.attr in R.stores for _ in '1'):
                            qs = [c['methods'][n.func.attr] for c in g.classes.values() if n.func.attr in c['methods']]
                            ts, one = [(q, not R.static(q)) for q in qs], True
                r = g.resolve(n.func, sc)
                if r and r[0] == 'def' and r[1] in g.classes and not ts:
                    if g.mro(r[1])[1] and (n.args or n.keywords):
                        bad.append((at(m, sc, n), f'{short(r[1])}() takes no arguments'))
                    continue
                if r and r[0] == 'global' and r[1] in R.tuples and not any(isinstance(a, ast.Starred) for a in n.args) and not any(x.arg is None for x in n.keywords):
                    k += 1
                    fields = R.tuples[r[1]]
                    if len(n.args) + len(n.keywords) > len(fields) or any(x.arg not in fields for x in n.keywords):
                        bad.append((at(m, sc, n), f'{short(r[1])} has the fields {", ".join(fields)}'))
                whys = [accepts(g.defs[q][1], n, skip) for q, skip in ts if isinstance(g.defs[q][1], ast.FunctionDef) and not decorated(g.defs[q][1])]
                if whys:
                    k += 1
                    if one and all(whys) or not one and any(whys):
                        w = [x for x in whys if x][0]
                        bad.append((at(m, sc, n), f"'{text(n)}': {short(ts[0][0])} {w}"))
            return conclude(bad, [f'{k} calls of functions of the package (of {seen})'], 'call signatures')
        return f

    def unpack(name):
        def f():
            bad, k = [], 0
            for n in ast.walk(mods[name].tree):
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)):
                    continue
                for t in n.targets:
                    if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
                        continue
                    sc = g.scope_at(mods[name], n)
                    ts = R.targets(n.value, sc)
                    if not ts and isinstance(n.value.func, ast.Attribute):
                        ty = R.infer(n.value.func.value, sc)
                        if ty and all(x[0] in ('i', 'none') for x in ty):
                            ts = [(q, True) for x in ty if x[0] == 'i' and x[1] in g.classes for q in [g.method(x[1], n.value.func.attr)] if q]
                    for q, _ in ts:
                        fn = g.defs[q][1]
                        if q.endswith('.__init__') or decorated(fn):
                            continue
                        rets = [x for x in own(fn) if isinstance(x, ast.Return)]
                        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn)):
                            continue
                        sizes = {len(x.value.elts) for x in rets if isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts)}
                        k += 1
                        if rets and all(isinstance(x.value, ast.Tuple) for x in rets) and len(sizes) == 1 and len(t.elts) not in sizes:
                            bad.append((at(mods[name], sc, n), f"{len(t.elts)} variables for the {sizes.pop()} parts returned by {short(q)}"))
            return conclude(bad, [f'{k} unpacked results'], 'unpacked results')
        return f

    def assigned(name):
        def f():
            bad, k = [], 0
            for q, (m, node, s) in g.defs.items():
                if m.name != name or not isinstance(node, ast.FunctionDef):
                    continue
                for v in s.binds:
                    if v in s.globals or v in s.nonlocals:
                        continue
                    k += 1
                    u = Unbound(node, v, noreturn)
                    for e, p in u.found[:1]:
                        facts = ', '.join(f'{a.lstrip("?")} {"is " + str(b[1]) if b[0] in ("is", "true") else ("in " if b[0] == "in" else "not in ") + "/".join(sorted(b[1]))}' for a, b in p.items())
                        bad.append((at(m, s, e), f"'{v}' has no value on the path where {facts or 'nothing else is assumed'}"))
            return conclude(bad, [f'{k} local variables'], 'definite assignment')
        return f

    def keys():
        loads, others = {}, FORMAT | set(R.keywords) | set(R.stores)
        for name, m in mods.items():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    p = m.parents.get(id(n))
                    if isinstance(p, ast.Subscript) and p.slice is n and isinstance(p.ctx, ast.Load):
                        loads.setdefault(n.value, []).append((m, n))
                    else:
                        others.add(n.value)
                        others |= set(re.findall(r'\?P<(\w+)>', n.value))     # named groups
        if opts:
            others |= set(opts)
        bad = []
        for v, l in loads.items():
            if v not in others and not all(w in others for w in re.findall(r'\w+', v)):
                m, n = l[0]
                bad.append((at(m, g.scope_at(m, n), n), f"nothing provides the key '{v}'"))
        return conclude(bad, [f'{len(loads)} string keys'], 'string keys')

    def fields():
        if opts is None:
            raise Undecided('an option is not declared with constant names')
        bad, k = [], 0
        for m, sc, n in g.attrs:
            if m.name not in mods or not isinstance(n.ctx, ast.Load):
                continue
            t = R.infer(n.value, sc)
            if t and ('ns',) in t:
                k += 1
                if n.attr not in opts and n.attr not in R.stores and not n.attr.startswith('_'):
                    bad.append((at(m, sc, n), f"the command line has no option '{n.attr}'"))
        return conclude(bad, [f'{k} uses of {len(opts)} options'], 'option fields')

    def built(q):
        def f():
            u = Unset(g, R, q)
            if not u.complete:
                return dict(methods=['class with attributes of its own making'], functions=[])
            bad = [(at(m, sc, n), f"'{text(n)}' is read while the object is being built, before anything sets it") for m, sc, n in u.found]
            return conclude(bad, [short(x) for x in u.walked] + [f'{u.reads} reads'], 'definite assignment of attributes')
        return f
    obs += [Ob(f'{short(q)}: attributes while being built', built(q)) for q in sorted(g.classes) if '.tests' not in q and q.split('.tests')[0]]

    for name in sorted(mods):
        m = mods[name]
        if not m.tree.body:
            continue
        obs += [Ob(f'{short(name)}: names', names(name)), Ob(f'{short(name)}: attributes', attributes(name)), Ob(f'{short(name)}: calls', calls(name)), Ob(f'{short(name)}: unpacked results', unpack(name)),
                Ob(f'{short(name)}: local variables', assigned(name))]
    obs += [Ob('string keys', keys), Ob('option fields', fields)]
    diags, d = library()

    def libs():
        if isinstance(diags, str):
            raise Undecided('pyright: ' + diags)
        bad, n = [], 0
        for x in diags:
            if not os.path.realpath(x['file']).startswith(os.path.realpath(os.path.join(d, 'src'))):
                if '/src/craterstats' not in x['file']:
                    continue
            n += 1
            rule, msg = x.get('rule'), x['message'].split('\n')[0]
            hit = rule == 'reportUndefinedVariable'
            a = re.match(r'"(\w+)" is not a known attribute of module "([\w.]+)"', msg)
            if a:
                hit = a.group(2).split('.')[0] != project().package and (a.group(2), a.group(1)) not in FOREIGN and not submodule(a.group(2), a.group(1))
            a = re.match(r'"(\w+)" is unknown import symbol', msg)
            if a:
                hit = a.group(1) not in {y for _, y in FOREIGN}
            if rule == 'reportCallIssue' and re.match(r'No parameter named|Expected \d+ positional argument|Argument missing for parameter|Arguments missing for parameters', msg):
                hit = True
            if rule == 'reportMissingImports':
                hit = True
            if hit:
                bad.append((x['file'].split('/src/')[-1] + ':' + str(x['range']['start']['line'] + 1), msg))
        return conclude(bad, [f'{n} diagnostics of pyright read'], 'library names and parameters')
    obs.append(Ob('library names and parameters', libs))
    return obs


def decorated(fn):
    return any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in fn.decorator_list)
