"""Source loader: parses the package under analysis (and reference modules) on every run."""
import ast, os, hashlib


class Module:
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        self.text = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.text, path)
        self.ns = None          # filled by the interpreter
        self.state = 'new'


class Project:
    def __init__(self, root=os.environ.get('VERIF_REPO', '/repo') + '/src', package='craterstats', extra=()):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__', 'sample', 'config'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                    pkg = rel.endswith('.__init__')
                    self.add(rel[:-9] if pkg else rel, os.path.join(d, f), pkg)
        for name, path in extra:
            self.add(name, path, False)

    def add(self, name, path, pkg):
        self.modules[name] = Module(name, path, pkg)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if n.startswith(self.package):
                h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

    def functions(self):
        """(qualname, module, node, class) of every function in the package"""
        out = []

        def go(m, body, pre, cls):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((pre + n.name, m, n, cls))
                    go(m, n.body, pre + n.name + '.', None)
                elif isinstance(n, ast.ClassDef):
                    go(m, n.body, pre + n.name + '.', n)
                elif hasattr(n, 'body') and isinstance(n.body, list):
                    go(m, n.body, pre, cls)
        for m in self.modules.values():
            if m.name.startswith(self.package):
                go(m, m.tree.body, m.name + '.', None)
        return out
