"""stand-ins and reference definitions for the command line"""
import os
import re

import craterstats as cst
import craterstats.gm as gm


class Given:
    """stands for a callable that returns an object prepared by the check"""

    def __init__(self, value):
        self.value = value

    def get(self, *args, **kw):
        return self.value


class Parser:
    def __init__(self, ns):
        self.ns = ns

    def parse_args(self, args=None, namespace=None):
        return self.ns


def system(functions, i):
    cs = functions['chronology_system'][i]
    return [cs['name'], cst.Chronologyfn(functions, cs['cf']), cst.Productionfn(functions, cs['pf'])]


def extra(functions, what, i, system):
    cs = functions['chronology_system'][system]
    if what == 'ef':
        return cst.Productionfn(functions, functions['equilibrium'][i]['name'], equilibrium=True)
    return cst.Epochs(functions, functions['epochs'][i]['name'], cst.Productionfn(functions, cs['pf']), cst.Chronologyfn(functions, cs['cf']))


def hartmann(pf):
    """axis ranges of a Hartmann plot: those of a tabulated function, else the default"""
    if hasattr(pf, 'xrange'):
        return [[float(e) for e in pf.xrange.tolist()], [float(e) for e in pf.yrange.tolist()]]
    return [[-3.15, 2.56], [-8., 5.]]


def isset(s, items):
    return len(s) == len(items) and all([e in s for e in items])


def abbreviation(s, v, ambiguous, invalid):
    """index of the entry that contains the characters of v in order"""
    found = [i for i in range(len(s)) if re.search('(?i)' + '.*'.join(v), s[i])]
    if len(found) == 0:
        if invalid:
            return -1
        raise SystemExit
    if len(found) > 1 and not ambiguous:
        raise SystemExit
    best = found[0]
    for i in found:
        if len(s[i]) < len(s[best]):
            best = i
    return best


def stem(f):
    return gm.filename(f, 'pn')


def join(a, b):
    return a + b


class File:
    """an open text file with known content"""

    def __init__(self, name, text):
        self.name = name
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def __iter__(self):
        return iter(self.text.splitlines(True))

    def read(self):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def close(self):
        pass


class Recorder:
    """a parser that keeps the argument lists it is given"""

    def __init__(self):
        self.lists = []

    def parse_args(self, args=None, namespace=None):
        self.lists.append(list(args))
        return namespace


class Written:
    """a text file being written"""

    def __init__(self, name):
        self.name = name
        self.parts = []

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def write(self, s):
        self.parts.append(s)

    def writelines(self, lines):
        for s in lines if type(lines) is list else [lines]:
            self.parts.append(s)

    def close(self):
        pass
