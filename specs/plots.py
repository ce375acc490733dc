"""reference meaning of overplot definitions (docs/manual.md, -p): what each overplot is given, in order"""
import os
import re

KEYS = ('source', 'name', 'range', 'snap', 'type', 'error_bars', 'hide', 'colour', 'psym', 'binning', 'age_left', 'show_age', 'resurf', 'resurf_showall', 'isochron', 'offset_age')
TYPES = {'data': 'data', 'differential-fit': 'd-fit', 'cumulative-fit': 'c-fit', 'poisson': 'poisson', 'buffered-poisson': 'b-poisson'}
BINNINGS = ('pseudo-log', '20/decade', '10/decade', 'x2', 'root-2', '4th root-2', 'none')
COLOURS = ('black red green blue yellow violet grey blue1 blue2 blue3 blue4 brown1 brown2 brown3 brown4 green1 green2 green3 orange pink1 pink2 pink3 purple1 purple2 red1 red2 red3 teal1 teal2 yellow1 yellow2 '
           'yellow-green').split()
MARKERS = {'square': 's', 'circle': 'o', 'star4': '*4', 'triangle': '^', 'star5': '*', 'diagonal cross': 'x', 'cross': '+', 'point': '.', 'inverted triangle': 'v', 'filled square': 'fs', 'filled circle': 'fo',
           'filled star4': 'f*4', 'filled triangle': 'f^', 'filled star5': 'f*', 'filled inverted triangle': 'fv'}
DEFAULT = dict(name='', range=['0', 'inf'], snap='1', type='data', error_bars='1', hide='0', colour='black', psym='circle', binning='pseudo-log', age_left='0', show_age='1', resurf='0', resurf_showall='0', isochron='0',
               offset_age=['0', '0'])
CARRY = ('source', 'type', 'psym', 'snap', 'isochron', 'error_bars', 'colour', 'binning')


def abbr(v, names):
    found = [n for n in names if re.search('(?i)' + '.*'.join(v), n)]
    return min(found, key=len)


def plots(given, presentation='differential', inputdir=None, path='/LIB/'):
    """given: one dictionary of strings per -p option"""
    out = []
    for d in given:
        p = dict(DEFAULT)
        if presentation == 'sequence':
            p['type'] = 'poisson'
        if out:
            p.update({k: out[-1][k] for k in CARRY})
        for k, v in d.items():
            k = abbr(k, KEYS)
            if k == 'type':
                v = TYPES[abbr(v, TYPES)]
            elif k == 'binning':
                v = abbr(v, BINNINGS)
            elif k == 'colour':
                v = v if v[0] == '#' else abbr(v, COLOURS)
            elif k == 'psym':
                v = {b: a for a, b in MARKERS.items()}.get(v) or abbr(v, MARKERS)
            elif k in ('range', 'offset_age'):
                v = v.strip('[]').split(',')
            elif k == 'source':
                v = v.replace('%sample%/', path + 'sample/').strip('"')
                if inputdir and not os.path.isabs(v):
                    v = inputdir + v
            p[k] = v
        out.append(p)
    for p in out:
        if not p['name']:
            p['name'] = re.sub('_?CRATER_?', '', os.path.splitext(os.path.basename(p['source']))[0])
    return out
