import os
import re

from analyser.harness import *
from checks.runs import *
from checks.c13 import show

RULE = ('the effect sequence of a whole run of main() with --convert is extracted for every pair of formats, output name, output directory and input file; the writer called, the object it writes and how that object was built, '
        'the file name given to the writer and the text reported to the user are compared with the documented conversions')
FNS = ['cli.main', 'cli.convert_format', 'cli.set_default_filename', 'cli.construct_cps_dict', 'gm.filename', 'Spatialcount.__init__', 'Cratercount.__init__']
SUPPORTED = {'stat': ('diam', 'scc', 'shp'), 'scc': ('shp',), 'shp': ('scc',), 'png': ('scc', 'shp'), 'svg': ('scc', 'shp'), 'pdf': ('scc', 'shp')}
IMAGES = ('png', 'svg', 'pdf')
FORMATS = ('stat', 'scc', 'shp', 'png', 'svg', 'pdf', 'diam', 'tif', 'csv', 'txt')
SOURCES = ('diam', 'scc', 'shp', 'stat', 'csv', 'txt', 'png')


def objname(path):
    s, e = os.path.splitext(os.path.basename(path))
    return re.sub('_?CRATER_?', '', s) if e == '.shp' else s


READERS = [S + '.readSCCfile', S + '.readSHPfiles'] + [CC + '.' + m for m in ('ReadStatFile', 'ReadDiamFile', 'ReadSCCfile', 'read_ra_file')]


def cctx(isdir=()):
    """constructors of the counts are interpreted; what they read from the file is symbolic"""
    c = ctx(isdir)
    c.I.opaque -= {S, CC}
    for q in READERS:
        c.fn(q)

    def reader(q):
        def m(I, st, args, kw, node):
            o = args[0] if args else kw['self']
            for a in ('diam', 'fraction', 'lon', 'lat'):
                I.set_attr(st, o, a, c.arr(a))
            for a in ('area', 'perimeter', 'planetary_radius'):
                I.set_attr(st, o, a, c.num(a))
            if q.endswith('read_ra_file'):
                return tup(NONE, NONE)
            return NONE
        return m
    for q in READERS:
        c.I.models[q] = reader(q)
    return c


def built(t):
    """(class, file) of a count object"""
    if t is not None and t.op == 'new' and t.a[0] in (S, CC):
        f = dict(t.a[1]).get('filename')
        if f is not None and f.op == 'str':
            return t.a[0], f.a[0]


def expected(fmt, src, out, inp, isdir):
    n = objname(src)
    if fmt in IMAGES:
        n = re.sub('_?CRATER_?', '', n)
    if out and out.rstrip('/') not in isdir:
        b, e = os.path.splitext(out)
    elif inp:
        b = os.path.splitext(inp)[0]
        if out:
            b = out + '/' + os.path.basename(b)
    else:
        b = (out + '/' if out else '') + n
    if fmt in IMAGES and not inp:
        b += '_map'
    return os.path.normpath(b)


def norm(s):
    return os.path.normpath(s)


def check(fmt, src, out=None, inp=None, isdir=('dir',), extra=(), dotted=False):
    nm = f'{src} to {fmt}' + (f' output {out}' if out else '') + (f' input {inp}' if inp else '') + (f' {extra}' if extra else '')

    def f():
        c = cctx(isdir)
        g = [('--convert', [('.' if dotted else '') + fmt, src])] + ([('-o', out.split(' '))] if out else []) + list(extra)
        o, ns, fns = run(c, g, ns=dict(input=True, input_filename=inp) if inp else None)
        for a in o.aborts:
            if a.pc is TRUE:
                raise Violation('cli.convert_format', f'{nm}: ends with {a.exc}')
            raise Undecided(f'{nm}: may end with {a.exc}')
        path = src.replace('%sample%', '/LIB/sample')
        ext = os.path.splitext(path)[1][1:]
        ok = ext in SUPPORTED.get(fmt, ())
        fl = files(o, nm)
        for kind, name, what, e in fl:
            if e.pc is not TRUE:
                raise Undecided(f'{nm}: a file is written on an undecided condition')
        prints = [e for e in o.effects if e.name.rsplit('.', 1)[-1] == 'print']
        for e in prints:
            if e.loops or e.pc is not TRUE:
                raise Undecided(f'{nm}: message on an undecided condition')
        texts = [' '.join(show(a) for a in e.args) for e in prints]
        if not ok:
            if fl:
                raise Violation('cli.convert_format', f'{nm}: unsupported, but {fl[0][0]} {show(fl[0][1])} is written')
            if not any('not supported' in t or 'unsupported' in t.lower() for t in texts) or any('written' in t.lower() for t in texts):
                raise Violation('cli.convert_format', f'{nm}: not supported, but the user is told {texts}')
            return dict(methods=['value numbering'], functions=FNS)
        b = expected(fmt, path, out, inp, isdir)
        want = {'stat': ['stat'], 'scc': ['scc'], 'shp': ['shp']}.get(fmt, ['image'] if inp else ['image', 'text'])
        if sorted(x[0] for x in fl) != sorted(want):
            raise Violation('cli.convert_format', f'{nm}: writes {[(x[0], show(x[1])) for x in fl]} instead of {want}')
        for kind, name, what, e in fl:
            if name is None or name.op != 'str':
                raise Undecided(f'{nm}: file name not resolved: {show(name)}')
            exp = b + ('.cs' if kind == 'text' else '.' + fmt)
            if norm(name.a[0]) != exp:
                raise Violation('cli.convert_format', f'{nm}: {kind} file is named {name.a[0]} instead of {exp}')
            obj = None
            if kind in ('stat', 'scc', 'shp'):
                obj = what
                cls = CC if kind == 'stat' else S
                if fmt == 'stat' and kwarg_(e, 'binning') is not None and show(kwarg_(e, 'binning')) != 'pseudo-log':
                    raise Violation('cli.convert_format', f'{nm}: binned by {show(kwarg_(e, "binning"))}')
            elif kind == 'image':
                if what[0] != 'map':
                    raise Violation('cli.convert_format', f'{nm}: image holds {what[0]} instead of the map')
                obj, cls = what[1], S
            if obj is not None:
                bt = built(obj)
                if bt is None:
                    raise Undecided(f'{nm}: converted object not recognised: {tm.show(obj)[:100]}')
                if bt[0] != cls or norm(bt[1]) != norm(path):
                    raise Violation('cli.convert_format', f'{nm}: what is written is {bt[0]} of {bt[1]} instead of {path}')
        shown = b + '.' + fmt
        pat = [shown] if fmt != 'shp' else [b]
        if not any('written' in t.lower() and all(p in t for p in pat) and t.rstrip().endswith(fmt) for t in texts):
            raise Violation('cli.convert_format', f'{nm}: {shown} is written, but the user is told {texts}')
        if any('not supported' in t for t in texts):
            raise Violation('cli.convert_format', f'{nm}: written, but also reported as not supported')
        return dict(methods=['value numbering'], functions=FNS)
    return Ob(nm, f)


def obligations(tier):
    obs = []
    for s in SOURCES:
        for f in FORMATS:
            obs.append(check(f, 'd/x_CRATER.shp' if s == 'shp' else 'd/x.' + s))
    for f, ss in SUPPORTED.items():
        for s in ss:
            for src in ('x.' + s, 'a b/CRATER_y.' + s, '%sample%/z_CRATER.' + s, '/abs/x_CRATER_y.' + s):
                if ' ' in src:
                    continue
                for out in (None, 'res', 'q/res', 'q/res.' + f, 'dir', 'dir/', 'out', 'q/CRATER_r', 'CRATER/r', 'my file'):
                    obs.append(check(f, src, out))
                obs.append(check(f, src, extra=(('-pr', ['cumulative']), ('-p', ['source=other.scc']))))
                for out in (None, 'res', 'dir'):
                    obs.append(check(f, src, out, inp='/abs/dir/in.cs'))
            obs.append(check(f, 'x.' + s, dotted=True))
    obs.append(check('png', 'x.scc', extra=(('-tight', ['1']),)))

    # ---- the names used above are those the constructors give
    def name(cls, path):
        def f():
            c = cctx()
            v = c.I.freeze(c.st, c.I.get_attr(c.st, c.new(cls, path), 'name', None))
            if v.op != 'str':
                raise Undecided('name of ' + path + ': ' + tm.show(v)[:100])
            if v.a[0] != objname(path):
                raise Violation(cls.rsplit('.', 1)[-1] + '.__init__', f'{path} is named {v.a[0]} instead of {objname(path)}')
            return dict(methods=['value numbering'], functions=[cls + '.__init__', 'gm.filename'])
        return Ob(f'name of {cls.rsplit(".", 1)[-1]} {path}', f)
    for p in ('x.scc', 'd/x.diam', 'd/x_CRATER.shp', '/a/CRATER_x.shp', 'x_CRATER_y.shp', 'x_CRATER.scc', 'a.b/c.d.scc'):
        obs.append(name(S, p))
        obs.append(name(CC, p))
    return obs
