"""reference names of output files (docs/manual.md: -o, -f, -st, -ra)"""
import os
import re

IMAGES = ('png', 'tif', 'pdf', 'svg')


def stem(f):
    return os.path.splitext(os.path.basename(f))[0]


def base(pres='differential', out=None, sources=(), inp=None, system='Moon, Neukum (1983)', d_min='0.15', isdir=()):
    """output name without extension"""
    if inp:
        n = os.path.splitext(inp)[0]
    elif pres in ('chronology', 'rate', 'uncertainty'):
        n = re.sub('[^a-zA-Z0-9_]', '', system) + ('_' + d_min if pres == 'uncertainty' else '') + '_' + pres
    else:
        n = re.sub('_?CRATER_?', '', '_'.join(sorted({stem(s) for s in sources}))) if sources else 'out'
    if out is None:
        return n
    if out.rstrip('/') in isdir:
        return os.path.normpath(out + '/' + os.path.basename(n))
    d, e = os.path.splitext(out)
    return d


def files(formats, b, pres='differential', st=False, inp=None):
    """{name: content} of a plot run"""
    r = {}
    for f in set(formats):
        if f == 'csv':
            if pres != 'uncertainty':
                r[b + '.csv'] = ('table',)
        elif pres == 'uncertainty':
            for k in ('k', 'err', 'age'):
                r[f'{b}_{k}.{f}'] = ('image', 'age-area', k)
        else:
            r[f'{b}.{f}'] = ('image', 'plot')
    if st:
        r[b + '_sequence.csv'] = ('sequence',)
    if not inp:
        r[b + '.cs'] = ('text',)
    return r
