"""Heap effects of a run: which cells that existed before a run were changed by it."""
from . import terms as tm


def refs(t, out):
    for x in tm.subterms(t):
        if x.op == 'ref':
            out.append(x)


def children(cell):
    v = cell.v
    vals = v.values() if isinstance(v, dict) else [v]
    out = []
    for t in vals:
        if isinstance(t, tm.T):
            refs(t, out)
        elif isinstance(t, (list, tuple)):
            for x in t:
                if isinstance(x, tm.T):
                    refs(x, out)
    return out


def reach(I, st, roots):
    """{id: (path, ref)} of the cells reachable from roots {path: term}"""
    out = {}
    todo = []
    for p, t in roots.items():
        r = []
        if isinstance(t, tm.T):
            refs(t, r)
        todo += [(p, x) for x in r]
    while todo:
        p, r = todo.pop()
        if r.id in out:
            continue
        out[r.id] = (p, r)
        c = I.cell(st, r)
        if c is None:
            continue
        if isinstance(c.v, dict):
            for k, t in c.v.items():
                if isinstance(t, tm.T):
                    x = []
                    refs(t, x)
                    todo += [(f'{p}.{k}', y) for y in x]
        else:
            todo += [(p, y) for y in children(c)]
    return out


def globals_(I, st):
    """roots: every module and class namespace and the defaults of every function of the package"""
    roots = {}
    for name, m in I.project.modules.items():
        if name.startswith('craterstats') and getattr(m, 'owner', None) is I and getattr(m, 'nsref', None) is not None:
            roots[name] = m.nsref
    for name, d in I.clss.items():
        if name.startswith('craterstats') and d.get('nsref') is not None:
            roots[name] = d['nsref']
    for k, f in I.fns.items():
        if f.defaults and f.name.startswith('craterstats'):
            for p, t in f.defaults.items():
                roots[f'{f.name}({p}=)'] = t
    return roots


def same(a, b):
    if a is b:
        return True
    if a is None or b is None or a.kind != b.kind:
        return False
    if isinstance(a.v, dict) and isinstance(b.v, dict):
        return a.v.keys() == b.v.keys() and all(a.v[k] is b.v[k] for k in a.v)
    return a.v is b.v


def changed(I, before, after, cells):
    """[(path, ref)] of cells whose value after differs"""
    out = []
    for i, (p, r) in cells.items():
        a, b = I.cell(before, r), I.cell(after, r)
        if not same(a, b):
            out.append((p, r, difference(a, b)))
    return out


def difference(a, b):
    if a is not None and b is not None and isinstance(a.v, dict) and isinstance(b.v, dict):
        ks = [k for k in set(a.v) | set(b.v) if a.v.get(k) is not b.v.get(k)]
        return ', '.join(sorted(map(str, ks))[:4])
    return ''
