"""collect attribute and method names of the libraries the package uses into specs/attributes.txt (maintenance only, no check runs this)"""
import os, re, sys, builtins, types
SP = '/opt/venv/lib/python3.12/site-packages'
roots = [f'{SP}/{x}' for x in ('numpy', 'scipy/spatial', 'scipy/stats', 'scipy/optimize', 'scipy/interpolate', 'scipy/special', 'scipy/integrate', 'matplotlib', 'shapely', 'spherely.pyi', 'shapefile.py', 'astropy_healpix',
                               'astropy/units', 'astropy/coordinates', 'pyproj', 'PIL', 'progressbar', 'palettable')] + ['/usr/lib/python3.12']
names = set()
pat = re.compile(r'^\s*(?:async )?def (\w+)|\bself\.(\w+)\s*(?:[:=,]|\+=)|^    (\w+)\s*[:=](?!=)|^class (\w+)', re.M)
for r in roots:
    fs = [r] if os.path.isfile(r) else [os.path.join(d, f) for d, _, fl in os.walk(r) if '/tests' not in d and '/test' not in d and 'idlelib' not in d and 'lib2to3' not in d and 'dist-packages' not in d for f in fl if f.endswith(('.py', '.pyi'))]
    for f in fs:
        for m in pat.finditer(open(f, errors='replace').read()):
            names.update(x for x in m.groups() if x)
for t in list(vars(builtins).values()) + [types.FunctionType, types.ModuleType, types.GeneratorType, types.CodeType, re.Pattern, re.Match]:
    names |= set(dir(t))
import io, array, datetime, decimal, collections, functools, itertools, zlib, struct, mmap
for m in (io, array, datetime, decimal, collections, functools, itertools, zlib, struct, sys, os):
    for v in vars(m).values():
        names.add(getattr(v, '__name__', ''))
        if isinstance(v, type):
            names |= set(dir(v))
    names |= set(dir(m))
names = sorted(n for n in names if n and n.isidentifier())
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs/attributes.txt'), 'w').write('\n'.join(names) + '\n')
print(len(names))
