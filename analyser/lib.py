"""Models of built-in and library operations used by the package (rewriting to value terms)."""
import ast, math, re
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, num, string, TRUE, FALSE, NONE, ZERO, ONE, TWO, INF, NAN, E, PI, add, sub, neg, mul, div, power, band, bor, bnot,
                    bite, atom, truth, lt, le, eq, isnone, isin, ite, scat, lit, cat, zipseq, sel, slice_, idx, el, comp, tup, kind,
                    isnum, isconst, length, count, attr, call)

CONSTANTS = {'numpy.pi': PI, 'math.pi': PI, 'numpy.e': E, 'math.e': E, 'numpy.inf': INF, 'math.inf': INF, 'numpy.nan': NAN, 'math.nan': NAN,
             'numpy.newaxis': NONE, 'sys.maxsize': INF}
SYN = {'numpy.absolute': 'abs', 'numpy.abs': 'abs', 'numpy.fabs': 'abs', 'math.fabs': 'abs', 'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max',
       'math.log10': 'numpy.log10', 'math.log': 'numpy.log', 'math.log2': 'numpy.log2', 'math.exp': 'numpy.exp', 'math.sqrt': 'numpy.sqrt', 'math.sin': 'numpy.sin',
       'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.acos': 'numpy.arccos', 'math.asin': 'numpy.arcsin', 'math.atan2': 'numpy.arctan2',
       'math.atan': 'numpy.arctan', 'numpy.acos': 'numpy.arccos', 'numpy.asin': 'numpy.arcsin', 'numpy.atan2': 'numpy.arctan2', 'numpy.atan': 'numpy.arctan',
       'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil', 'math.radians': 'numpy.radians', 'math.degrees': 'numpy.degrees',
       'numpy.deg2rad': 'numpy.radians', 'numpy.rad2deg': 'numpy.degrees', 'math.pow': 'numpy.power', 'math.isinf': 'numpy.isinf', 'math.isnan': 'numpy.isnan',
       'numpy.asarray': 'numpy.array', 'numpy.asanyarray': 'numpy.array', 'numpy.atleast_1d': 'numpy.array', 'numpy.product': 'numpy.prod', 'numpy.round': 'round', 'numpy.around': 'round',
       'numpy.float_power': 'numpy.power', 'numpy.true_divide': 'numpy.divide', 'numpy.size': 'len', 'math.prod': 'numpy.prod', 'math.fsum': 'sum',
       'numpy.hstack': 'numpy.concatenate', 'numpy.flipud': 'numpy.flip', 'numpy.copy': 'numpy.array', 'numpy.array_split': 'numpy.array_split'}
NS = {'np.': 'numpy.'}
BUILTIN_EXC = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'SystemExit', 'FileNotFoundError', 'PermissionError', 'AttributeError', 'NameError',
               'OSError', 'IOError', 'RuntimeError', 'StopIteration', 'NotImplementedError', 'ZeroDivisionError', 'BaseException', 'ArithmeticError', 'ImportError',
               'KeyboardInterrupt', 'AssertionError', 'LookupError', 'OverflowError', 'UnicodeDecodeError', 'Warning', 'UserWarning', 'DeprecationWarning'}
SUPER = {'FileNotFoundError': {'OSError', 'IOError'}, 'PermissionError': {'OSError', 'IOError'}, 'KeyError': {'LookupError'}, 'IndexError': {'LookupError'},
         'ZeroDivisionError': {'ArithmeticError'}, 'OverflowError': {'ArithmeticError'}}
import builtins as _b
PYBUILTINS = set(dir(_b))
STRM = {'split', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'startswith', 'endswith', 'splitlines', 'title', 'format', 'join', 'isdigit', 'rsplit',
        'find', 'zfill', 'ljust', 'rjust', 'capitalize', 'isalpha', 'encode', 'decode', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'center', 'casefold',
        'isnumeric', 'isspace', 'isalnum', 'isdecimal', 'islower', 'isupper', 'expandtabs', 'swapcase', 'format_map', 'rfind'}
PURE = ('numpy.', 'math.', 're.', 'os.path.', 'shlex.', 'scipy.', 'itertools.', 'str.', 'copy.', 'datetime.', 'collections.', 'operator.', 'functools.', 'platform.',
        'shapely.', 'pyproj.', 'spherely.', 'astropy_healpix', 'matplotlib.colors', 'os.environ', 'os.cpu_count', 'sys.platform', 'healpy.', 'astropy', 'textwrap.', 'pathlib.')
PURE_BUILTIN = {'len', 'abs', 'round', 'int', 'float', 'str', 'bool', 'repr', 'format', 'chr', 'ord', 'min', 'max', 'sum', 'hash', 'id', 'type', 'divmod', 'callable', 'bytes',
                'complex', 'hex', 'oct', 'bin', 'ascii', 'pow'}
PUREM = STRM | {'keys', 'values', 'items', 'get', 'copy', 'flatten', 'astype', 'tolist', 'transpose', 'reshape', 'ravel', 'group', 'groups', 'groupdict', 'start', 'end',
                'span', 'match', 'search', 'findall', 'finditer', 'mean', 'std', 'min', 'max', 'sum', 'index', 'count', 'cumsum', 'any', 'all', 'argmax', 'argmin',
                'get_position', 'transform', 'inverted', 'get_extents', 'strftime', 'field', 'transform_point'}


def canon(d):
    return SYN.get(d, d)


def exc_matches(exc, names):
    if 'BaseException' in names:
        return True
    if 'Exception' in names:
        return exc not in ('SystemExit', 'KeyboardInterrupt')
    return bool(SUPER.get(exc, set()) & names)


def algebraic(x):
    """value of a constant built from numbers by powers, products and sums; None if it is not one"""
    if isnum(x):
        return float(x.a[0])
    try:
        if x.op == 'mul':
            return math.prod(algebraic(b) ** algebraic(e) for b, e in x.a[0])
        if x.op == 'add':
            return float(x.a[0]) + sum(float(k) * algebraic(m) for m, k in x.a[1])
    except (TypeError, ArithmeticError, ValueError, IndexError):
        pass


def rounded(x, f):
    """f(x) for an irrational constant clearly between two integers"""
    v = algebraic(x)
    if isinstance(v, float) and abs(v) < 1e9 and 1e-6 < v - math.floor(v) < 1 - 1e-6:
        return num(f(v))


def floor(x):
    if isnum(x):
        return num(x.a[0].__floor__())
    v = rounded(x, math.floor)
    if v is not None:
        return v
    if x.op == 'call' and x.a[0] in ('floor', 'ceil', 'int') or x.op in ('len', 'count'):
        return x
    return call('floor', (x,))


def ceil(x):
    if isnum(x):
        return num(x.a[0].__ceil__())
    v = rounded(x, math.ceil)
    if v is not None:
        return v
    if x.op == 'call' and x.a[0] in ('floor', 'ceil', 'int') or x.op in ('len', 'count'):
        return x
    return call('ceil', (x,))


def int_(x):
    if isnum(x):
        return num(int(x.a[0]))
    if x.op == 'str':
        try:
            return num(int(x.a[0]))
        except ValueError:
            return call('int', (x,))
    if tm.isbool(x):
        return ite(x, ONE, ZERO)
    if x.op == 'call' and x.a[0] in ('floor', 'ceil', 'int', 'searchsorted') or x.op in ('len', 'count', 'searchsorted'):
        return x
    if x.op == 'ite':
        return ite(x.a[0], int_(x.a[1]), int_(x.a[2]))
    return call('int', (x,))


def float_(x):
    if isnum(x) or x is INF:
        return x
    if x.op == 'str':
        try:
            return num(float(x.a[0]))
        except ValueError:
            return call('float', (x,))
    if x.op == 'fmt' and kind(x.a[0]) == 'num' and x.a[1] is string(''):
        return x.a[0]
    if kind(x) == 'num':
        return x
    if x.op == 'ite':
        return ite(x.a[0], float_(x.a[1]), float_(x.a[2]))
    if x.op == 'call' and x.a[0] in ('float', 'int', 'floor', 'ceil'):
        return x
    if x.op in ('slice', 'sel', 'gather', 'cat'):
        return tm.push(x, lambda y: call('float', (y,)) if y.op not in ('lit',) else lit(*[float_(e) for e in y.a]))
    if x.op == 'lit':
        return lit(*[float_(e) for e in x.a])
    return call('float', (x,))


def fmt(x, spec):
    if spec.op == 'str' and spec.a[0] == '' and x.op == 'call' and x.a[0] == 'repr':
        return x
    return tm.fmt(x, spec)


def minmax(nm, xs):
    """minimum/maximum of scalars or element-wise"""
    flat = []
    for x in xs:
        if x.op == 'call' and x.a[0] == nm:
            flat += x.a[1]
        else:
            flat.append(x)
    c = [x for x in flat if isnum(x)]
    rest = []
    for x in flat:
        if not isnum(x) and x not in rest:
            rest.append(x)
    if c:
        v = (min if nm == 'minimum' else max)(x.a[0] for x in c)
        rest.append(num(v))
    if nm == 'minimum' and INF in rest and len(rest) > 1:
        rest.remove(INF)
    if nm == 'maximum' and len(rest) == 2 and any(x is ZERO for x in rest):
        o = [x for x in rest if x is not ZERO][0]
        if o.op in ('len', 'count'):
            return o
    if len(rest) == 1:
        return rest[0]
    return call(nm, tuple(sorted(rest, key=lambda t: t.id)))


def minmaxseq(nm, s):
    items = tm_items(s)
    if items is not None and items:
        return minmax('minimum' if nm == 'min' else 'maximum', items)
    s2 = s
    while True:
        if s2.op == 'gather' and s2.a[1].op == 'argsort':
            s2 = s2.a[0]
        elif s2.op == 'slice' and s2.a[1] is NONE and s2.a[2] is NONE and isnum(s2.a[3]) and s2.a[3].a[0] == -1:
            s2 = s2.a[0]
        else:
            break
    if s2.op == 'ite' and tm.shape(s2.a[0]) == 's':
        return ite(s2.a[0], minmaxseq(nm, s2.a[1]), minmaxseq(nm, s2.a[2]))
    if s2.op == 'linspace':
        return minmax('minimum' if nm == 'min' else 'maximum', [s2.a[0], s2.a[1]])
    return mk(nm, s2)


def tm_items(s):
    if s.op in ('lit', 'tuple'):
        return list(s.a)
    if s.op == 'ite':
        a, b = tm_items(s.a[1]), tm_items(s.a[2])
        if a is not None and b is not None and len(a) == len(b):
            return [ite(s.a[0], x, y) for x, y in zip(a, b)]
        return None
    if tm.pointwise(s) and tm.shape(s) == 'a':
        n = length(s)
        if isnum(n) and n.a[0] <= 64 and any(x.op == 'lit' for x in tm.subterms(s)):
            return [idx(s, num(i)) for i in range(int(n.a[0]))]
    return None


def dedupe(s):
    if s.op == 'lit' and all(isconst(x) or comparable_const(x) for x in s.a):
        out = []
        for x in s.a:
            if x not in out:
                out.append(x)
        return lit(*out)
    if s.op == 'lit' and not s.a:
        return s
    return mk('uniq', s)


def put(o, i, v):
    if i.op in ('tuple', 'lit') and len(i.a) == 2 and isnum(i.a[0]) and o.op == 'lit' and -len(o.a) <= i.a[0].a[0] < len(o.a):
        l = list(o.a)
        k = int(i.a[0].a[0])
        l[k] = put(l[k], i.a[1], v)
        return lit(*l)
    if i.op == 'slc':
        if all(x is NONE for x in i.a):
            return v
        return mk('put', o, i, v)
    if o.op == 'lit' and isnum(i) and -len(o.a) <= i.a[0] < len(o.a):
        l = list(o.a)
        l[int(i.a[0])] = v
        return lit(*l)
    if tm.isbool(i) and tm.shape(i) == 'a':
        return ite(i, v, o)
    if i.op in ('where', 'wheretuple'):
        return ite(i.a[0], v, o)
    if tm.isbool(i):
        return mk('put', o, i, v)
    return mk('put', o, i, v)


def note_inplace(I, st, fr, s, cur):
    if cur.op in ('ref', 'num', 'str'):
        return
    if tm.shape(cur) == 's':
        return
    I.effect(st, 'inplace', I.freeze(st, cur), (), {}, s)


def decorate(I, st, f, t):
    n = f.a[0] if f.op == 'ext' else ''
    if n == 'staticmethod':
        return mk('staticm', t)
    if n == 'classmethod':
        return mk('classm', t)
    if n in ('property', 'functools.cached_property'):
        return mk('prop', t)
    if n.startswith('functools.') or n.startswith('numba') or n.startswith('contextlib'):
        return t
    if f.op == 'attr':
        return t
    if f.op in ('fn', 'bound'):
        return I.call_term(st, f, [t], {}, None)
    return t


def matrix(I, st, x):
    """rows of a nested literal of equal lengths, None if it is not one"""
    if x.op not in ('ref', 'lit', 'tuple'):
        return None
    d = I.deref(st, x)
    if d.op not in ('lit', 'tuple') or not d.a:
        return None
    rows = []
    for r in d.a:
        if r.op not in ('ref', 'lit', 'tuple', 'mul', 'add', 'sin', 'cos'):
            return None
        e = I.freeze(st, r)
        if e.op not in ('lit', 'tuple') and tm.shape(e) == 'a' and tm.length(e).op == 'num':
            e = lit(*[tm.idx(e, num(i)) for i in range(int(tm.length(e).a[0]))])
        if e.op not in ('lit', 'tuple') or not e.a or len(e.a) != len(rows[0] if rows else e.a) or any(z.op in ('lit', 'tuple', 'str') for z in e.a):
            return None
        rows.append(list(e.a))
    return rows


def get_attr(I, st, o, name):
    if name == 'size' or name == '__len__':
        if o.op not in ('sym', 'attr', 'call', 'mcall', 'idx'):
            return length(I.deref(st, o))
    if name == 'T' and o.op != 'sym':
        m = matrix(I, st, o)
        if m is not None:
            return lit(*[lit(*r) for r in zip(*m)])
        return call('numpy.transpose', (I.freeze(st, o),))
    if name == 'shape':
        m = matrix(I, st, o)
        if m is not None:
            return tup(num(len(m)), num(len(m[0])))
    if name == 'shape' and tm.shape(o) == 'a':
        return tup(length(o))
    if o.op in ('ref',):
        return mk('meth', o, name)
    return attr(I.freeze(st, o), name)


# ------------------------------------------------------------------ calls
def fz(I, st, args):
    return tuple(I.freeze(st, a) for a in args)


PATHFN = {'os.path.' + x for x in ('isabs', 'basename', 'dirname', 'splitext', 'normpath', 'split', 'join')}


def generic(I, st, name, args, kw, node, pure):
    fa = fz(I, st, args)
    fk = tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items()))
    sig = SIGS.get(name)
    if sig and not any(a.op == 'star' for a in fa) and len(fa) <= len(sig):
        d = dict(zip(sig, fa))
        if not (set(d) & {k for k, _ in fk}):
            d.update(fk)
            fa, fk = (), tuple(sorted(d.items()))
    if name in ('re.split', 're.findall', 're.sub') and not any(a.op == 'star' for a in fa):
        d = dict(fk)
        order = ('pattern', 'repl', 'string') if name == 're.sub' else ('pattern', 'string')
        d.update(zip(order, fa))
        if set(d) == set(order) and all(v.op == 'str' for v in d.values()):
            import re as _re
            try:
                r = getattr(_re, name[3:])(*[d[k].a[0] for k in order])
            except _re.error:
                r = None
            if isinstance(r, str):
                return string(r)
            if isinstance(r, list) and all(isinstance(x, str) for x in r):
                return I.newlist(st, lit(*map(string, r)))
    if name.startswith('re.') and not any(a.op == 'star' for a in fa):
        pat = dict(fk).get('pattern', fa[0] if fa else None)
        if pat is not None and pat.op == 'str':
            import re as _re
            try:
                _re.compile(pat.a[0])
            except _re.error:
                I.raise_(st, 're.error', tup(pat), node)
                st.pc = FALSE
                return NONE
    if name == 're.finditer' and len(fa) == 2 and not fk and all(a.op == 'str' for a in fa):
        import re as _re
        w = lambda x: NONE if x is None else string(x)
        return lit(*[call('re.Match', (string(m.group()),) + tuple(map(w, m.groups())), tuple((k, w(v)) for k, v in sorted(m.groupdict().items()))) for m in _re.finditer(fa[0].a[0], fa[1].a[0])])
    if name in ('shlex.quote', 'shlex.split', 'shlex.join') and fa and (fa[0].op == 'str' or fa[0].op in ('lit', 'tuple') and all(x.op == 'str' for x in fa[0].a)):
        import shlex
        d = dict(zip(('s', 'comments', 'posix'), fa))
        d.update(fk)
        x = d.pop('s', None)
        if x is not None and all(v in (TRUE, FALSE) for v in d.values()):
            try:
                r = getattr(shlex, name[6:])(x.a[0] if x.op == 'str' else [e.a[0] for e in x.a], **{k: v is TRUE for k, v in d.items()})
                return I.newlist(st, lit(*map(string, r))) if isinstance(r, list) else string(r)
            except ValueError:
                I.raise_(st, 'ValueError', tup(), node)
                st.pc = FALSE
                return NONE
            except TypeError:
                pass
    if name in PATHFN and fa and not fk and all(a.op == 'str' for a in fa):
        import posixpath
        r = getattr(posixpath, name[8:])(*[a.a[0] for a in fa])
        return (TRUE if r else FALSE) if isinstance(r, bool) else tup(*map(string, r)) if isinstance(r, tuple) else string(r)
    if not pure:
        I.effect(st, name, NONE, fa, fk, node)
    r = call(name, fa, fk)
    if I.trystack and name in RAISING:
        I.raise_(st, RAISING[name], tup(), node, atom(mk('raises', r)))
    return r


RAISING = {'open': 'FileNotFoundError', 'float': 'ValueError', 'int': 'ValueError', 'scipy.optimize.curve_fit': 'RuntimeError'}
SIGS = {'scipy.optimize.curve_fit': ('f', 'xdata', 'ydata', 'p0', 'sigma'), 'numpy.digitize': ('x', 'bins', 'right'),
        'numpy.random.uniform': ('low', 'high', 'size'), 'numpy.random.poisson': ('lam', 'size'), 'open': ('file', 'mode', 'buffering', 'encoding'),
        're.sub': ('pattern', 'repl', 'string', 'count', 'flags'), 're.search': ('pattern', 'string', 'flags'), 're.match': ('pattern', 'string', 'flags'),
        're.findall': ('pattern', 'string', 'flags'), 're.split': ('pattern', 'string', 'maxsplit', 'flags'), 'scipy.integrate.simpson': ('y', 'x'), 'scipy.stats.poisson.pmf': ('k', 'mu', 'loc'),
        'scipy.stats.poisson.cdf': ('k', 'mu', 'loc')}


def call_ext(I, st, name, args, kw, node):
    name = canon(name)
    ms = I.models.get(name)
    if ms is not None:
        return ms(I, st, args, kw, node)
    f = BUILTINS.get(name)
    if f is not None:
        try:
            r = f(I, st, args, kw, node)
            if r is not None:
                return r
        except (IndexError, KeyError, TypeError) as e:
            pass
    if name.startswith('numpy.random') or name.startswith('random.'):
        n = getattr(I, 'randn', 0)
        I.randn = n + 1
        fa = fz(I, st, args)
        fk = tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items()))
        sig = SIGS.get(name)
        if sig and len(fa) <= len(sig):
            d = dict(zip(sig, fa))
            d.update(fk)
            fa, fk = (), tuple(sorted(d.items()))
        I.effect(st, name, NONE, fa, fk, node)
        return mk('rand', name, n if not I.loops else 0, fa, fk)
    pure = name.startswith(PURE) or name in PURE_BUILTIN or name in BUILTIN_EXC
    return generic(I, st, name, args, kw, node, pure)


B = BUILTINS = {}


def model(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


def arr(I, st, x):
    """array/sequence contents of a value (nested lists frozen)"""
    x = I.deref(st, x)
    if tm.contains(x, lambda y: y.op == 'ref'):
        x = I.freeze(st, x)
    if x.op == 'tuple':
        return lit(*x.a)
    if x.op == 'rec':
        return lit(*[v for _, v in x.a[1]])
    return x


def P1(f):
    def g(I, st, args, kw, node):
        if len(args) < 1 or kw.keys() - {'out', 'where'}:
            return None
        return tm_map1(arr(I, st, args[0]), f)
    return g


def tm_map1(x, f):
    if x.op == 'lit':
        return lit(*[tm_map1(e, f) for e in x.a])
    return f(x)


def unary(opname):
    def f(x):
        if isnum(x) and x.a[0] == 0 and opname in ('sin',):
            return ZERO
        if isnum(x) and x.a[0] == 0 and opname == 'cos':
            return ONE
        return mk(opname, x)
    return f


def abs_(x):
    if isnum(x):
        return num(abs(x.a[0]))
    if x.op == 'ite':
        return ite(x.a[0], abs_(x.a[1]), abs_(x.a[2]))
    c, m = tm._poly(x)
    if m and not isnum(x):
        lm = min(m, key=lambda z: z.id)
        if m[lm] < 0:
            x = neg(x)
    l, p = tm._atomsum(x)
    return tm.scale(call('abs', (p,)), l)


B['numpy.log10'] = P1(tm.log10)
B['numpy.log'] = P1(tm.ln)
B['numpy.log2'] = P1(tm.log2)
B['numpy.exp'] = P1(tm.exp)
B['numpy.sqrt'] = P1(tm.sqrt)
B['numpy.square'] = P1(lambda x: power(x, TWO))
B['numpy.negative'] = P1(neg)
B['numpy.reciprocal'] = P1(lambda x: power(x, num(-1)))
B['numpy.sin'] = P1(unary('sin'))
B['numpy.cos'] = P1(unary('cos'))
B['numpy.radians'] = P1(lambda x: mul(x, div(PI, num(180))))
B['numpy.degrees'] = P1(lambda x: mul(x, div(num(180), PI)))
B['numpy.floor'] = P1(floor)
B['numpy.ceil'] = P1(ceil)
B['abs'] = P1(abs_)
B['numpy.isinf'] = P1(lambda x: TRUE if x is INF else FALSE if isnum(x) else tm.eq(x, INF))
B['numpy.isnan'] = P1(lambda x: FALSE if isnum(x) else atom(call('numpy.isnan', (x,))))
B['numpy.float64'] = B['numpy.float32'] = B['numpy.float_'] = P1(lambda x: x)
B['numpy.logical_not'] = P1(lambda x: bnot(truth(x)))


def P2(f):
    def g(I, st, args, kw, node):
        if len(args) < 2 or kw:
            return None
        return f(arr(I, st, args[0]), arr(I, st, args[1]))
    return g


B['numpy.power'] = P2(power)
B['numpy.add'] = P2(add)
B['numpy.subtract'] = P2(sub)
B['numpy.multiply'] = P2(mul)
B['numpy.divide'] = P2(div)
B['numpy.minimum'] = P2(lambda a, b: minmax('minimum', [a, b]))
B['numpy.maximum'] = P2(lambda a, b: minmax('maximum', [a, b]))
B['numpy.logical_and'] = P2(lambda a, b: band(truth(a) if not tm.isbool(a) else a, truth(b) if not tm.isbool(b) else b))
B['numpy.logical_or'] = P2(lambda a, b: bor(truth(a) if not tm.isbool(a) else a, truth(b) if not tm.isbool(b) else b))
B['numpy.less'] = P2(lt)
B['numpy.less_equal'] = P2(le)
B['numpy.greater'] = P2(lambda a, b: lt(b, a))
B['numpy.greater_equal'] = P2(lambda a, b: le(b, a))
B['numpy.equal'] = P2(eq)


@model('numpy.array')
def _array(I, st, args, kw, node):
    x = arr(I, st, args[0])
    if kw.keys() - {'dtype', 'copy', 'order'} or len(args) > 2:
        return None
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if dt is not None and (dt.op == 'ext' and dt.a[0] in ('float', 'numpy.float64', 'numpy.float32') or dt.op == 'str' and dt.a[0] in ('float', 'float64', 'f8')):
        x = I.freeze(st, x)
        return x if tm.kind(x) == 'num' else float_(x) if x.op in ('lit', 'ite', 'tuple') else tm_map1(x, float_) if tm.shape(x) == 'a' else x
    return x


@model('numpy.hypot', 'math.hypot')
def _hypot(I, st, args, kw, node):
    a, b = arr(I, st, args[0]), arr(I, st, args[1])
    return tm.sqrt(add(power(a, TWO), power(b, TWO)))


@model('list', 'tuple', 'iter')
def _list(I, st, args, kw, node):
    nm = None
    f = node.func if node is not None else None
    s = I.seqof(st, args[0]) if args else lit()
    if s.op in ('dictset', 'dictmap'):
        s = mk('keys', s)
    n = getattr(f, 'id', 'list')
    if n == 'tuple':
        return tup(*s.a) if s.op == 'lit' else s
    if n == 'iter':
        return s
    return I.newlist(st, s)


def _tuple(I, st, args, kw, node):
    s = I.seqof(st, args[0]) if args else lit()
    return tup(*s.a) if s.op == 'lit' else s


B['tuple'] = _tuple
B['iter'] = lambda I, st, args, kw, node: I.seqof(st, args[0])
B['list'] = lambda I, st, args, kw, node: I.newlist(st, (lambda s: mk('keys', s) if s.op in ('dictset', 'dictmap') else s)(I.seqof(st, args[0])) if args else lit())


@model('set', 'frozenset')
def _set(I, st, args, kw, node):
    s = I.seqof(st, args[0]) if args else lit()
    if s.op == 'str':
        s = lit(*[string(c) for c in s.a[0]])
    return I.new(st, 'set', dedupe(s))


@model('dict')
def _dict(I, st, args, kw, node):
    d = mk('dict')
    if args:
        x = I.deref(st, args[0])
        d = x if x.op in ('dict', 'dictset', 'dictmap', 'dictupdate', 'ite') else I.dictfrom(st, x)
    for k, v in kw.items():
        if k == '**':
            d = I.dict_update(st, d, v)
        else:
            d = I.dict_set(st, d, string(k), v)
    return I.newdict(st, d)


@model('len')
def _len(I, st, args, kw, node):
    x = I.seqof(st, args[0])
    if x.op == 'str':
        return num(len(x.a[0]))
    if x.op in ('dictset', 'dictmap', 'dictupdate'):
        return mk('len', mk('keys', x))
    return seqlen(x)


def seqlen(x):
    if x.op == 'cat':
        return add(*[seqlen(p) for p in x.a])
    if x.op == 'ite' and tm.shape(x.a[0]) == 's':
        return ite(x.a[0], seqlen(x.a[1]), seqlen(x.a[2]))
    return length(x)


@model('zip')
def _zip(I, st, args, kw, node):
    if len(args) == 1 and args[0].op == 'star':
        s = args[0].a[0]
        if s.op == 'zip':
            return lit(*s.a)
        if s.op == 'gather' and s.a[0].op == 'zip':
            return lit(*[tm.gather(x, s.a[1]) for x in s.a[0].a])
        if s.op == 'cat' and s.a[0].op == 'zip':
            n = len(s.a[0].a)
            return lit(*[mk('unzip', s, num(i)) for i in range(n)])
        return mk('unzipall', s)
    ss = [I.seqof(st, a) for a in args]
    ss = [I.iterseq(st, s) for s in ss]
    n = [(_plain_items(s)) for s in ss]
    if all(x is not None for x in n) and n:
        m = min(len(x) for x in n)
        return lit(*[tup(*[x[i] for x in n]) for i in range(m)])
    return trimzip(ss)


def _plain_items(s):
    if s.op == 'lit':
        return list(s.a)
    if s.op == 'str':
        return [string(c) for c in s.a[0]]
    return None


def trimzip(ss):
    """zip stops at the shortest operand"""
    ss = list(ss)
    tr = tm._align([s for s in ss if s.op not in ('count_from',)])
    return zipseq(*[tr.get(s, s) for s in ss])


@model('enumerate')
def _enumerate(I, st, args, kw, node):
    s = I.iterseq(st, I.seqof(st, args[0]))
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    it = _plain_items(s)
    if it is not None:
        return lit(*[tup(add(start, num(i)), x) for i, x in enumerate(it)])
    n = seqlen(s)
    return zipseq(mk('arange', start, add(start, n), ONE), s)


@model('range')
def _range(I, st, args, kw, node):
    a = [I.deref(st, x) for x in args]
    a = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
    if all(isnum(x) and x.a[0].denominator == 1 for x in a) and a[2].a[0]:
        r = range(*[int(x.a[0]) for x in a])
        if len(r) <= 120:
            return lit(*[num(i) for i in r])
    return mk('arange', *a)


@model('numpy.arange')
def _nparange(I, st, args, kw, node):
    kw.pop('dtype', None)
    a = [I.deref(st, x) for x in args]
    a = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
    return mk('arange', *a)


@model('sorted')
def _sorted(I, st, args, kw, node):
    s = I.iterseq(st, I.seqof(st, args[0]))
    return I.newlist(st, sort_seq(I, st, s, kw.get('key'), kw.get('reverse', FALSE)))


def sort_seq(I, st, s, key, reverse):
    reverse = truth(reverse)
    items = _plain_items(s)
    if key is not None and key is not NONE:
        if items is not None:
            keys = lit(*[I.call_term(st, key, [x], {}, None) for x in items])
        else:
            keys = mapseq(I, st, key, s)
    else:
        keys = s
    kf = I.freeze(st, keys)
    ki = _plain_items(kf)
    if items is not None and ki is not None and all(comparable_const(x) for x in ki) and reverse in (TRUE, FALSE):
        if len(set(x.op for x in ki)) <= 1 or len(ki) < 2:
            order = sorted(range(len(ki)), key=lambda i: pykey(ki[i]), reverse=reverse is TRUE)
            return lit(*[items[i] for i in order])
    if items is not None and ki is not None and 1 <= len(items) <= 4 and any(x.op == 'ref' for x in items):
        return _perm_sort(items, ki, reverse)
    # decorated index sort: sorting an enumeration by the enumerated value yields the sorting permutation
    p = mk('argsort', kf, reverse)
    if s.op == 'zip' and s.a[0].op == 'arange' and s.a[0].a[0] is ZERO and kf in s.a[1:]:
        return zipseq(p, *[tm.gather(x, p) for x in s.a[1:]])
    if s.op == 'arange' and s.a[0] is ZERO and s.a[2] is ONE:
        return p
    return tm.gather(s, p)


def _perm_sort(items, keys, reverse):
    """stable sort of a few objects by symbolic keys: the object at each place, case by case over the order of the keys"""
    import itertools
    n = len(items)
    if n == 0:
        return lit()
    before = {}
    for i in range(n):
        for j in range(i + 1, n):
            b = bnot(tm.lt(keys[i], keys[j]) if reverse is TRUE else tm.lt(keys[j], keys[i])) if reverse in (TRUE, FALSE) else \
                bnot(ite(reverse, tm.lt(keys[i], keys[j]), tm.lt(keys[j], keys[i])))
            before[i, j] = b
            before[j, i] = bnot(b)
    out = []
    for place in range(n):
        v = items[n - 1]
        for i in range(n - 1):
            others = [j for j in range(n) if j != i]
            c = bor(*[band(*[before[j, i] if j in s else before[i, j] for j in others]) for s in itertools.combinations(others, place)])
            v = ite(c, items[i], v)
        out.append(v)
    return lit(*out)


def comparable_const(x):
    return x.op in ('num', 'str', 'true', 'false') or x.op == 'tuple' and all(comparable_const(e) for e in x.a)


def pykey(x):
    return tuple(pykey(e) for e in x.a) if x.op == 'tuple' else x is TRUE if x.op in ('true', 'false') else x.a[0]


def mapseq(I, st, f, s):
    """sequence of f applied to each element"""
    s = I.seqof(st, s)
    items = I.literal_items(s)
    if items is not None and len(items) <= 200:
        out = []
        for x in items:
            if x.op == 'opt':
                out.append(ite(x.a[0], lit(I.call_term(st, f, [x.a[1]], {}, None)), lit()))
            else:
                out.append(lit(I.call_term(st, f, [x], {}, None)))
        return cat(*out)
    from .interp import _ids
    k = next(_ids)
    I.loops.append((k, s))
    try:
        v = I.call_term(st, f, [el(s, k)], {}, None)
    finally:
        I.loops.pop()
    v = I.freeze(st, v)
    return comp(v, k, s)


@model('map')
def _map(I, st, args, kw, node):
    f = args[0]
    if len(args) == 2:
        return mapseq(I, st, f, args[1])
    ss = [I.seqof(st, a) for a in args[1:]]
    items = [I.literal_items(s) for s in ss]
    if all(x is not None for x in items):
        return lit(*[I.call_term(st, f, list(t), {}, None) for t in zip(*items)])
    z = trimzip(ss)
    from .interp import _ids
    k = next(_ids)
    v = I.freeze(st, I.call_term(st, f, [el(x, k) for x in z.a], {}, None))
    return comp(v, k, z)


@model('filter')
def _filter(I, st, args, kw, node):
    s = I.seqof(st, args[1])
    from .interp import _ids
    k = next(_ids)
    e = el(s, k)
    items = I.literal_items(s)
    f = args[0]
    tr = lambda x: I.truth(st, x if f is NONE else I.call_term(st, f, [x], {}, None))
    if items is not None:
        return cat(*[ite(tr(x), lit(x), lit()) for x in items])
    return comp(e, k, s, tr(e))


@model('reversed')
def _reversed(I, st, args, kw, node):
    return tm.rev(I.seqof(st, args[0]))


@model('min', 'numpy.min', 'numpy.nanmin')
def _min(I, st, args, kw, node):
    return _mm(I, st, args, kw, node, 'min')


@model('max', 'numpy.max', 'numpy.nanmax')
def _max(I, st, args, kw, node):
    return _mm(I, st, args, kw, node, 'max')


def _mm(I, st, args, kw, node, nm):
    if len(args) == 1 and args[0].op == 'star':
        args = [args[0].a[0]]
    if len(args) == 1:
        s = arr(I, st, args[0])
        if 'key' in kw:
            keys = I.freeze(st, mapseq(I, st, kw['key'], s))
            if keys.op == 'lit' and s.op == 'lit' and len(keys.a) == len(s.a) <= 12 and all(kind(k) == 'num' for k in keys.a):
                if not s.a:
                    return kw.get('default')
                best, bk = s.a[0], keys.a[0]
                for v, k in zip(s.a[1:], keys.a[1:]):
                    t = tm.lt(k, bk) if nm == 'min' else tm.lt(bk, k)
                    best, bk = ite(t, v, best), ite(t, k, bk)
                return best
            if 'default' in kw:
                return None
            return mk('arg' + nm + 'of', s, keys)
        if 'axis' in kw:
            return None
        s = arr(I, st, I.seqof(st, s))
        r = minmaxseq(nm, s)
        if 'default' in kw:
            return ite(eq(seqlen(s), ZERO), kw['default'], r)
        return r
    if 'key' in kw:
        return None
    return minmax('minimum' if nm == 'min' else 'maximum', [arr(I, st, a) for a in args])


@model('sum', 'numpy.sum', 'numpy.nansum')
def _sum(I, st, args, kw, node):
    if set(kw) == {'axis'} and len(args) == 1 and kw['axis'] is ZERO:
        it = tm_items(I.freeze(st, I.seqof(st, args[0])))
        return add(*it) if it and all(tm.shape(x) == 'a' for x in it) else None
    if 'axis' in kw or len(args) > 2:
        return None
    s = arr(I, st, I.seqof(st, args[0]))
    start = args[1] if len(args) > 1 else kw.get('start')
    if start is not None and start.op == 'ref':
        r = s
        if s.op == 'lit':
            return I.newlist(st, cat(I.seqof(st, start), *s.a))
        return None
    if s.op == 'cat' or s.op == 'ite' and tm.shape(s.a[0]) == 's':
        r = catsum(s)
    else:
        r = tm.sumof(s)
    return add(r, start) if start is not None else r


def catsum(s):
    if s.op == 'cat':
        return add(*[catsum(p) for p in s.a])
    if s.op == 'ite' and tm.shape(s.a[0]) == 's':
        return ite(s.a[0], catsum(s.a[1]), catsum(s.a[2]))
    return tm.sumof(s)


@model('numpy.mean', 'statistics.mean', 'numpy.average')
def _mean(I, st, args, kw, node):
    if kw or len(args) > 1:
        return None
    s = arr(I, st, I.seqof(st, args[0]))
    return div(tm.sumof(s), length(s))


@model('numpy.std')
def _std(I, st, args, kw, node):
    if len(args) == 1 and not (kw.keys() - {'ddof'}):
        s = arr(I, st, I.seqof(st, args[0]))
        return mk('std', s, kw.get('ddof', ZERO))


@model('numpy.nan_to_num')
def _nan_to_num(I, st, args, kw, node):
    # only finite values are interpreted
    return args[0] if len(args) == 1 and not kw else None


@model('numpy.median', 'statistics.median')
def _median(I, st, args, kw, node):
    s = I.freeze(st, I.seqof(st, args[0]))
    if len(args) == 1 and not kw and s.op in ('lit', 'tuple') and s.a:
        try:
            v = sorted(s.a, key=lambda t: tm_ratio(t, s.a[0]))
        except ValueError:
            return None
        n = len(v)
        return v[n // 2] if n % 2 else mul(num(Fraction(1, 2)), add(v[n // 2], v[n // 2 - 1]))


def tm_ratio(t, u):
    if isnum(t):
        return t.a[0]
    raise ValueError


@model('numpy.prod')
def _prod(I, st, args, kw, node):
    ax = args[1] if len(args) > 1 else kw.get('axis')
    if set(kw) - {'axis'} or len(args) > 2:
        return None
    if ax is not None:
        it = tm_items(I.freeze(st, I.seqof(st, args[0]))) if isnum(ax) and ax.a[0] == 0 else None
        return mul(*it) if it and all(tm.shape(x) == 'a' for x in it) else None
    s = arr(I, st, I.seqof(st, args[0]))
    it = tm_items(s)
    if it is not None:
        return mul(*it) if all(tm.shape(x) != 'a' for x in it) else None
    return mk('prod', s)


@model('numpy.count_nonzero')
def _cnz(I, st, args, kw, node):
    if kw:
        return None
    s = arr(I, st, args[0])
    return tm.sumof(s if tm.isbool(s) else truth(s))


@model('any', 'numpy.any')
def _any(I, st, args, kw, node):
    s = I.seqof(st, args[0])
    it = I.literal_items(s)
    if it is not None:
        return bor(*[band(x.a[0], I.truth(st, x.a[1])) if x.op == 'opt' else I.truth(st, x) for x in it])
    s = arr(I, st, s)
    return anyb(s)


def anyb(s):
    if not tm.isbool(s):
        s = truthmap(s)
    if s is TRUE or s is FALSE:
        return s
    if s.op == 'sel' or tm.isbool(s):
        return bnot(eq(count(s), ZERO))
    return atom(mk('any', s))


def truthmap(s):
    if s.op in ('map', 'flat', 'sel', 'cat', 'sym', 'attr', 'gather', 'slice'):
        return atom(mk('truth', s)) if s.op != 'map' else mk('bdd', s, TRUE, FALSE)
    return truth(s)


@model('all', 'numpy.all')
def _all(I, st, args, kw, node):
    s = I.seqof(st, args[0])
    it = I.literal_items(s)
    if it is not None:
        return band(*[bor(bnot(x.a[0]), I.truth(st, x.a[1])) if x.op == 'opt' else I.truth(st, x) for x in it])
    s = arr(I, st, s)
    if not tm.isbool(s):
        s = truthmap(s)
    return bnot(anyb(bnot(s)))


@model('round')
def _round(I, st, args, kw, node):
    x = I.deref(st, args[0])
    d = args[1] if len(args) > 1 else kw.get('ndigits', kw.get('decimals', ZERO))
    if isnum(x) and isnum(d):
        return num(round(x.a[0], int(d.a[0])) if d.a[0] else round(x.a[0]))
    return call('round', (arr(I, st, x), d))


@model('int')
def _int(I, st, args, kw, node):
    if not args:
        return ZERO
    if len(args) > 1:
        return None
    x = I.freeze(st, args[0])
    r = int_(x)
    if I.trystack and r.op == 'call' and r.a[0] == 'int' and kind(x) != 'num':
        I.raise_(st, 'ValueError', tup(), node, TRUE if x.op == 'str' else atom(mk('raises', r)))
    return r


@model('float')
def _float(I, st, args, kw, node):
    if not args:
        return ZERO
    x = I.freeze(st, args[0])
    r = float_(x)
    if I.trystack and r.op == 'call' and r.a[0] == 'float':
        I.raise_(st, 'ValueError', tup(), node, TRUE if x.op == 'str' else atom(mk('raises', r)))
    return r


@model('str')
def _str(I, st, args, kw, node):
    if not args:
        return string('')
    x = args[0]
    if x.op == 'ref':
        c = I.cell(st, x)
        if c.kind == 'obj':
            m, _ = I.class_attr(c.cls, '__str__')
            if m is not None:
                return I.call_term(st, m, [x], {}, node)
    return fmt(I.freeze(st, x), string(''))


@model('bool')
def _bool(I, st, args, kw, node):
    return I.truth(st, args[0]) if args else FALSE


@model('format')
def _format(I, st, args, kw, node):
    return fmt(I.freeze(st, args[0]), args[1] if len(args) > 1 else string(''))


@model('isinstance')
def _isinstance(I, st, args, kw, node):
    x, c = args[0], I.deref(st, args[1])
    cs = list(c.a) if c.op in ('tuple', 'lit') else [c]
    return bor(*[isinst(I, st, x, k) for k in cs])


def isinst(I, st, x, c):
    if x.op == 'ite':
        return bite(x.a[0], isinst(I, st, x.a[1], c), isinst(I, st, x.a[2], c))
    n = c.a[0] if c.op in ('ext', 'cls') else '?'
    if x.op == 'ref':
        cl = I.cell(st, x)
        if cl.kind == 'obj':
            if c.op == 'cls':
                return TRUE if n in I.mro(cl.cls) else FALSE
            return FALSE if n in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'numpy.ndarray') else atom(mk('isinst', x, c))
        return TRUE if n == cl.kind else FALSE
    k = kind(x)
    if isnum(x):
        if n in ('float', 'numpy.floating', 'numbers.Number', 'numpy.number'):
            return TRUE
        if n in ('int', 'numpy.integer'):
            return TRUE if x.a[0].denominator == 1 else FALSE
        return FALSE
    if x.op == 'str' or k == 'str':
        return TRUE if n == 'str' else FALSE
    if x.op == 'tuple':
        return TRUE if n == 'tuple' else FALSE
    if x.op in ('true', 'false'):
        return TRUE if n in ('bool', 'int') else FALSE
    if x.op == 'none':
        return FALSE
    if k == 'num' and tm.shape(x) == 's':
        if n in ('float', 'numpy.floating', 'numbers.Number'):
            return TRUE
        if n in ('str', 'list', 'tuple', 'dict', 'numpy.ndarray', 'int', 'bool'):
            return FALSE
    if tm.shape(x) == 'a':
        if n == 'numpy.ndarray':
            return TRUE
        if n in ('str', 'float', 'int', 'dict', 'numpy.floating', 'list', 'tuple'):
            return FALSE
    return atom(mk('isinst', I.freeze(st, x), c))


@model('type')
def _type(I, st, args, kw, node):
    if len(args) != 1:
        return None
    x = args[0]
    if x.op == 'ite':
        return ite(x.a[0], _type(I, st, [x.a[1]], {}, node), _type(I, st, [x.a[2]], {}, node))
    if x.op == 'ref':
        c = I.cell(st, x)
        return mk('cls', c.cls) if c.kind == 'obj' else mk('ext', c.kind)
    if x is NONE:
        return mk('ext', 'NoneType')
    k = kind(x)
    if k == 'str':
        return mk('ext', 'str')
    if x.op == 'tuple':
        return mk('ext', 'tuple')
    if x.op in ('true', 'false'):
        return mk('ext', 'bool')
    if tm.shape(x) == 'a' and x.op not in ('lit',):
        return mk('ext', 'numpy.ndarray')
    if x.op == 'lit':
        return mk('ext', 'numpy.ndarray')
    if isnum(x):
        return mk('ext', 'int' if x.a[0].denominator == 1 else 'float')
    if k == 'num' and tm.shape(x) == 's':
        return mk('ext', 'float')
    return call('type', (I.freeze(st, x),))


@model('hasattr')
def _hasattr(I, st, args, kw, node):
    o, n = args[0], args[1]
    if n.op != 'str':
        return atom(mk('hasattr', I.freeze(st, o), n))
    return hasattr_(I, st, o, n.a[0])


def hasattr_(I, st, o, n):
    if o.op == 'ite':
        return bite(o.a[0], hasattr_(I, st, o.a[1], n), hasattr_(I, st, o.a[2], n))
    if o.op == 'ref':
        c = I.cell(st, o)
        if c.kind == 'obj':
            if n in c.v:
                return bnot(I.isabsent(c.v[n]))
            if I.class_attr(c.cls, n)[0] is not None:
                return TRUE
            if '__sym__' in c.v:
                return atom(mk('hasattr', c.v['__sym__'], string(n)))
            return FALSE
    cn = I.inst_class(o)
    if cn and I.class_attr(cn, n)[0] is not None:
        return TRUE
    if o is NONE:
        return FALSE
    return atom(mk('hasattr', I.freeze(st, o), string(n)))


@model('getattr')
def _getattr(I, st, args, kw, node):
    o, n = args[0], args[1]
    if n.op == 'ite':
        return ite(n.a[0], _getattr(I, st, [o, n.a[1]] + args[2:], kw, node), _getattr(I, st, [o, n.a[2]] + args[2:], kw, node))
    if n.op != 'str':
        return call('getattr', fz(I, st, args))
    if len(args) > 2:
        h = hasattr_(I, st, o, n.a[0])
        if h is FALSE:
            return args[2]
        v = I.get_attr(st, o, n.a[0], node)
        from .interp import ABSENT, _dropabsent
        if tm.contains(v, lambda x: x is ABSENT):
            v = _dropabsent(v)
        return ite(h, v, args[2])
    return I.get_attr(st, o, n.a[0], node)


@model('setattr')
def _setattr(I, st, args, kw, node):
    o, n, v = args
    if n.op != 'str':
        I.effect(st, 'setattr', I.freeze(st, o), (n, I.freeze(st, v)), {}, node)
        return NONE
    I.set_attr(st, o, n.a[0], v, node)
    return NONE


@model('vars')
def _vars(I, st, args, kw, node):
    o = args[0]
    if o.op == 'ref' and I.cell(st, o).kind == 'obj':
        c = I.cell(st, o)
        if '__sym__' not in c.v:
            return I.newdict(st, mk('dict', *[(string(k), v) for k, v in c.v.items() if not k.startswith('__')]))
    return call('vars', fz(I, st, args))


@model('scipy.stats.poisson.pmf')
def _pmf(I, st, args, kw, node):
    return _poisson(I, st, args, kw, 'poissonpmf')


@model('scipy.stats.poisson.cdf')
def _cdf(I, st, args, kw, node):
    return _poisson(I, st, args, kw, 'poissoncdf')


def _poisson(I, st, args, kw, name):
    kw = dict(kw)
    vs = list(args) + [None] * (3 - len(args))
    for i, n in enumerate(('k', 'mu', 'loc')):
        vs[i] = kw.pop(n, vs[i])
    if kw or vs[0] is None or vs[1] is None or (vs[2] is not None and vs[2] is not ZERO):
        return None
    return call(name, tuple(arr(I, st, x) for x in vs[:2]))


@model('callable')
def _callable(I, st, args, kw, node):
    return TRUE if args[0].op in ('fn', 'bound', 'cls', 'ext') else None


@model('print')
def _print(I, st, args, kw, node):
    I.effect(st, 'print', NONE, fz(I, st, args), {k: I.freeze(st, v) for k, v in kw.items()}, node)
    return NONE


@model('next')
def _next(I, st, args, kw, node):
    s = I.seqof(st, args[0])
    d = args[1] if len(args) > 1 else None
    return first(I, st, s, d, node)


def first(I, st, s, d, node):
    """first element of s, or d (StopIteration when absent and d is None)"""
    if s.op == 'cat':
        parts = list(s.a)
    else:
        parts = [s]
    return _first(I, st, parts, d, node)


def _first(I, st, parts, d, node):
    if not parts:
        return d if d is not None else mk('stopiter')
    p = parts[0]
    if p.op == 'lit':
        if p.a:
            return p.a[0]
        return _first(I, st, parts[1:], d, node)
    if p.op == 'ite' and tm.shape(p.a[0]) == 's':
        a = _first(I, st, [p.a[1]] + parts[1:], d, node)
        b = _first(I, st, [p.a[2]] + parts[1:], d, node)
        return dropstop(p.a[0], a, b)
    n = length(p)
    rest = _first(I, st, parts[1:], d, node)
    return dropstop(bnot(eq(n, ZERO)), idx(p, ZERO), rest)


def dropstop(c, a, b):
    if b.op == 'stopiter':
        return a
    if a.op == 'stopiter':
        return b
    return ite(c, a, b)


@model('numpy.where')
def _where(I, st, args, kw, node):
    if len(args) == 1:
        m = arr(I, st, args[0])
        return mk('wheretuple', m if tm.isbool(m) else truth(m))
    m = arr(I, st, args[0])
    m = m if tm.isbool(m) else truth(m)
    return ite(m, arr(I, st, args[1]), arr(I, st, args[2]))


@model('numpy.nonzero')
def _nonzero(I, st, args, kw, node):
    m = arr(I, st, args[0])
    return mk('wheretuple', m if tm.isbool(m) else bnot(eq(m, ZERO)))


@model('numpy.flatnonzero')
def _flatnonzero(I, st, args, kw, node):
    m = arr(I, st, args[0])
    return tm.where(m if tm.isbool(m) else bnot(eq(m, ZERO)))


@model('numpy.interp')
def _interp(I, st, args, kw, node):
    d = dict(zip(('x', 'xp', 'fp', 'left', 'right', 'period'), args))
    d.update(kw)
    if set(d) - {'x', 'xp', 'fp'}:
        return None
    x, xp, fp = [arr(I, st, d[k]) for k in ('x', 'xp', 'fp')]
    return interp(x, xp, fp)


def interp(x, xp, fp):
    if x.op == 'lit':
        return lit(*[interp(e, xp, fp) for e in x.a])
    return mk('interp', x, xp, fp)


@model('numpy.searchsorted')
def _searchsorted(I, st, args, kw, node):
    d = dict(zip(('a', 'v', 'side', 'sorter'), args))
    d.update(kw)
    if 'sorter' in d:
        return None
    a, v = arr(I, st, d['a']), arr(I, st, d['v'])
    side = d.get('side', string('left'))
    return tm_map1(v, lambda x: mk('searchsorted', x, a, side))


@model('bisect.bisect_left', 'bisect.bisect_right', 'bisect.bisect')
def _bisect(I, st, args, kw, node):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
    return mk('searchsorted', I.deref(st, args[1]), arr(I, st, args[0]), string('left' if nm.endswith('left') else 'right'))


@model('numpy.cumsum', 'itertools.accumulate')
def _cumsum(I, st, args, kw, node):
    if len(args) > 1 or kw:
        return None
    return cumsum(arr(I, st, I.seqof(st, args[0])))


def cumsum(x):
    if x.op == 'lit' and len(x.a) <= 64:
        out, t = [], ZERO
        for e in x.a:
            t = add(t, e)
            out.append(t)
        return lit(*out)
    c, m = tm._poly(x)
    if not c and len(m) == 1:
        (mm, k), = m.items()
        sc, ar = {}, {}
        for b, e in tm._monodict(mm).items():
            (sc if tm.shape(b) == 's' and tm.shape(e) == 's' else ar)[b] = e
        if (sc or k != 1) and ar:
            c1, m1 = tm._mono(sc)
            c2, m2 = tm._mono(ar)
            return tm.scale(mul(m1 if m1 is not None else ONE, mk('cumsum', m2)), k * c1 * c2)
    return mk('cumsum', x)


@model('numpy.outer', 'numpy.multiply.outer')
def _outer(I, st, args, kw, node):
    if len(args) != 2 or kw:
        return None
    return call('numpy.outer', (arr(I, st, args[0]), arr(I, st, args[1])))


def flatten(I, st, o):
    """row-major flattening; None when o is not known to be two-dimensional"""
    if o.op == 'call' and o.a[0] == 'numpy.outer':
        a, b = o.a[1]
        it = tm_items(b)
        rows = tm_items(a)
        if rows is not None:
            return cat(*[tm_map1(b, lambda x: mul(r, x)) if b.op == 'lit' else mul(r, b) for r in rows])
        k = next(I.ids())
        body = lit(*[mul(el(a, k), x) for x in it]) if it is not None else mul(el(a, k), b)
        return I.flat(body, k, a, TRUE)
    return None


@model('numpy.ravel')
def _ravel(I, st, args, kw, node):
    if len(args) != 1 or kw:
        return None
    x = arr(I, st, args[0])
    r = flatten(I, st, x)
    return r if r is not None else x if tm.shape(x) == 'a' else None


@model('numpy.digitize')
def _digitize(I, st, args, kw, node):
    d = dict(zip(('x', 'bins', 'right'), args))
    d.update(kw)
    r = truth(d.get('right', FALSE))
    if r not in (TRUE, FALSE):
        return None
    a, v = arr(I, st, d['bins']), arr(I, st, d['x'])
    return tm_map1(v, lambda x: mk('searchsorted', x, a, string('left' if r is TRUE else 'right')))


@model('numpy.fliplr')
def _fliplr(I, st, args, kw, node):
    return _flip(I, st, [args[0], ONE], {}, node)


@model('numpy.flip')
def _flip(I, st, args, kw, node):
    m = matrix(I, st, args[0])
    ax = args[1] if len(args) > 1 else kw.get('axis', NONE)
    if m is not None and (ax is NONE or isnum(ax)):
        if ax is NONE or ax.a[0] in (1, -1):
            m = [r[::-1] for r in m]
        if ax is NONE or ax.a[0] in (0, -2):
            m = m[::-1]
        return lit(*[lit(*r) for r in m])
    if kw or len(args) > 1:
        return None
    return tm.rev(arr(I, st, I.seqof(st, args[0])))


@model('numpy.roll')
def _roll(I, st, args, kw, node):
    a = list(args) + [kw[k] for k in ('shift',) if k in kw]
    if len(a) != 2:
        return None
    return mk('roll', arr(I, st, a[0]), a[1])


@model('numpy.append')
def _append(I, st, args, kw, node):
    if kw:
        return None
    a, b = arr(I, st, args[0]), arr(I, st, args[1])
    f = lambda x: x if tm.shape(x) == 'a' or kind(x) == 'seq' else lit(x)
    return cat(f(a), f(b))


@model('numpy.concatenate')
def _concat(I, st, args, kw, node):
    if kw:
        return None
    s = I.seqof(st, args[0])
    if s.op != 'lit':
        return call('numpy.concatenate', (I.freeze(st, s),))
    return cat(*[arr(I, st, I.seqof(st, x)) if x.op != 'tuple' else lit(*x.a) for x in s.a])


@model('numpy.r_')
def _r(I, st, args, kw, node):
    return None


@model('numpy.linspace')
def _linspace(I, st, args, kw, node):
    d = dict(zip(('start', 'stop', 'num', 'endpoint'), args))
    d.update(kw)
    if set(d) - {'start', 'stop', 'num'}:
        return None
    return mk('linspace', I.deref(st, d['start']), I.deref(st, d['stop']), d.get('num', num(50)))


@model('numpy.logspace')
def _logspace(I, st, args, kw, node):
    d = dict(zip(('start', 'stop', 'num', 'endpoint', 'base'), args))
    d.update(kw)
    if set(d) - {'start', 'stop', 'num', 'base'}:
        return None
    return power(d.get('base', num(10)), mk('linspace', I.deref(st, d['start']), I.deref(st, d['stop']), d.get('num', num(50))))


@model('numpy.zeros')
def _zeros(I, st, args, kw, node):
    return _full(I, st, args[0], ZERO)


@model('numpy.ndarray', 'numpy.empty')
def _empty(I, st, args, kw, node):
    return _full(I, st, args[0] if args else kw['shape'], tm.sym('uninitialised', 's', 'num'))


@model('numpy.ones')
def _ones(I, st, args, kw, node):
    return _full(I, st, args[0], ONE)


@model('numpy.full')
def _npfull(I, st, args, kw, node):
    d = dict(zip(('shape', 'fill_value'), args))
    d.update(kw)
    return _full(I, st, d['shape'], d['fill_value'])


def _full(I, st, sh, v):
    s = I.deref(st, sh)
    if s.op in ('tuple', 'lit'):
        if len(s.a) == 1:
            s = s.a[0]
        else:
            n = [int(x.a[0]) if isnum(x) and x.a[0] >= 0 else None for x in s.a]
            if len(n) == 2 and None not in n and n[0] * n[1] <= 64:
                return lit(*[lit(*[v] * n[1])] * n[0])
            return mk('full', tup(*s.a), v)
    return tm.rep(lit(v), s)


@model('numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like')
def _like(I, st, args, kw, node):
    nm = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id
    v = ZERO if nm in ('zeros_like', 'empty_like') else ONE if nm == 'ones_like' else args[1] if len(args) > 1 else kw.get('fill_value', ZERO)
    a = arr(I, st, args[0])
    return tm.rep(lit(v), length(a))


@model('numpy.repeat', 'itertools.repeat')
def _repeat(I, st, args, kw, node):
    x = arr(I, st, args[0])
    if len(args) > 1 and tm.shape(x) == 's' and kind(x) != 'seq':
        return tm.rep(lit(x), args[1])
    return None


@model('numpy.clip')
def _clip(I, st, args, kw, node):
    d = dict(zip(('a', 'a_min', 'a_max', 'out'), args))
    d.update(kw)
    d = {{'min': 'a_min', 'max': 'a_max'}.get(k, k): v for k, v in d.items()}
    if set(d) - {'a', 'a_min', 'a_max'}:
        return None
    x = arr(I, st, d['a'])
    return clip(x, d.get('a_min', NONE), d.get('a_max', NONE))


def clip(x, lo, hi):
    if x.op == 'lit':
        return lit(*[clip(e, lo, hi) for e in x.a])
    if lo is not NONE:
        x = minmax('maximum', [x, lo])
    if hi is not NONE:
        x = minmax('minimum', [x, hi])
    return x


@model('numpy.histogram')
def _hist(I, st, args, kw, node):
    d = dict(zip(('a', 'bins', 'range', 'density', 'weights'), args))
    d.update(kw)
    if set(d) - {'a', 'bins', 'weights'}:
        return None
    b = arr(I, st, d['bins'])
    w = d.get('weights', NONE)
    return tup(mk('hist', arr(I, st, d['a']), b, arr(I, st, w) if w is not NONE else NONE), b)


@model('numpy.polyval')
def _polyval(I, st, args, kw, node):
    p, x = arr(I, st, args[0]), arr(I, st, args[1])
    return polyval(p, x)


def polyval(p, x):
    it = tm_items(p)
    if it is not None:
        r = ZERO
        for i, c in enumerate(it):
            r = add(r, mul(c, power(x, num(len(it) - 1 - i))))
        return r
    return mk('polyval', p, x)


@model('numpy.diff')
def _diff(I, st, args, kw, node):
    if len(args) != 1 or kw:
        return None
    x = arr(I, st, args[0])
    return sub(slice_(x, ONE, NONE), slice_(x, NONE, num(-1)))


@model('numpy.argsort')
def _argsort(I, st, args, kw, node):
    if kw.keys() - {'kind'}:
        return None
    return mk('argsort', arr(I, st, args[0]), FALSE)


@model('numpy.sort')
def _npsort(I, st, args, kw, node):
    if kw:
        return None
    x = arr(I, st, args[0])
    return tm.gather(x, mk('argsort', x, FALSE))


@model('numpy.sign')
def _sign(I, st, args, kw, node):
    x = arr(I, st, args[0])
    return tm_map1(x, lambda y: call('numpy.sign', (y,)))


@model('numpy.array_equal')
def _ae(I, st, args, kw, node):
    return eq(arr(I, st, args[0]), arr(I, st, args[1]))


@model('numpy.transpose')
def _transpose(I, st, args, kw, node):
    m = matrix(I, st, args[0])
    if m is not None and len(args) == 1 and not kw:
        return lit(*[lit(*r) for r in zip(*m)])
    return call('numpy.transpose', (I.freeze(st, args[0]),))


@model('os.path.join')
def _ospathjoin(I, st, args, kw, node):
    return None


def opaque_class(I, x):
    """class of an object known only as an unevaluated construction or a symbolic instance"""
    if x.op in ('sym', 'el', 'idx', 'attr', 'call', 'mcall'):
        cn = I.inst_class(x)
        if cn is None and x.op == 'call' and isinstance(x.a[0], str) and x.a[0] in I.clss:
            cn = x.a[0]
        return cn
    return None


@model('copy.deepcopy', 'copy.copy')
def _deepcopy(I, st, args, kw, node):
    return deep(I, st, args[0], {}, True)


def deep(I, st, x, memo, rec):
    if x.op == 'ite':
        return ite(x.a[0], deep(I, st, x.a[1], memo, rec), deep(I, st, x.a[2], memo, rec))
    if x.op != 'ref':
        if x.op in ('tuple',) and tm.contains(x, lambda y: y.op == 'ref'):
            return tup(*[deep(I, st, e, memo, rec) for e in x.a])
        if x in memo:
            return memo[x]
        cn = opaque_class(I, x)
        if cn is not None:
            v = {'__sym__': x}
            c = st.heap.get(('over', x.id)) or I.state0.heap.get(('over', x.id))
            if c is not None:
                v.update(c.v)
            n = memo[x] = I.new(st, 'obj', v, cn)
            return n
        return x
    if x in memo:
        return memo[x]
    c = I.cell(st, x)
    if c.kind in ('env', 'obj'):
        n = I.new(st, c.kind, {}, c.cls)
        memo[x] = n
        v = {k: deep(I, st, y, memo, rec) for k, y in c.v.items()}
    else:
        n = I.new(st, c.kind, c.v, c.cls)
        memo[x] = n

        def f(y):
            if y.op == 'ref':
                return deep(I, st, y, memo, rec)
        v = tm.rewrite(c.v, f)
    I.setcell(st, n, v)
    return n


@model('collections.namedtuple')
def _namedtuple(I, st, args, kw, node):
    f = I.deref(st, args[1])
    if f.op == 'str':
        names = re.split(r'[,\s]+', f.a[0].strip())
    else:
        f = I.seqof(st, f)
        if f.op != 'lit' or not all(x.op == 'str' for x in f.a):
            return None
        names = [x.a[0] for x in f.a]
    return mk('nt', args[0].a[0], tuple(names))


@model('functools.partial')
def _partial(I, st, args, kw, node):
    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))


@model('functools.reduce')
def _reduce(I, st, args, kw, node):
    s = I.seqof(st, args[1])
    it = I.literal_items(s)
    if it is None:
        return None
    it = ([args[2]] if len(args) > 2 else []) + it
    r = it[0]
    for x in it[1:]:
        r = I.call_term(st, args[0], [r, x], {}, node)
    return r


@model('operator.itemgetter')
def _itemgetter(I, st, args, kw, node):
    return mk('igetter', args[0]) if len(args) == 1 else None


@model('numpy.errstate')
def _errstate(I, st, args, kw, node):
    return NONE


@model('sys.exit', 'exit', 'quit')
def _exit(I, st, args, kw, node):
    I.raise_(st, 'SystemExit', tup(*fz(I, st, args)), node)
    st.pc = FALSE
    return NONE


@model('itertools.chain')
def _chain(I, st, args, kw, node):
    return cat(*[I.seqof(st, a) for a in args])


@model('itertools.chain.from_iterable')
def _chainfi(I, st, args, kw, node):
    s = I.seqof(st, args[0])
    if s.op == 'lit':
        return cat(*[I.seqof(st, a) for a in s.a])
    return mk('flat', s, TRUE, NONE)


@model('itertools.product')
def _product(I, st, args, kw, node):
    its = [I.literal_items(I.seqof(st, a)) for a in args]
    if any(x is None for x in its):
        return None
    import itertools
    return lit(*[tup(*t) for t in itertools.product(*its)])


@model('itertools.count')
def _itcount(I, st, args, kw, node):
    return mk('count_from', args[0] if args else ZERO)


@model('numpy.isclose')
def _isclose(I, st, args, kw, node):
    return None


@model('numpy.broadcast_to', 'numpy.ravel', 'numpy.squeeze')
def _ident(I, st, args, kw, node):
    return None


# ------------------------------------------------------------------ methods
def method(I, st, o, name, args, kw, node):
    if o.op == 'ite' and tm.shape(o.a[0]) == 's':
        return I.split_call(st, o, lambda s, x: method(I, s, x, name, args, kw, node))
    if o.op == 'ref':
        c = I.cell(st, o)
        if c.kind == 'list':
            r = list_method(I, st, o, c, name, args, kw, node)
            if r is not None:
                return r
        elif c.kind == 'dict':
            r = dict_method(I, st, o, c.v, name, args, kw, node)
            if r is not None:
                return r
        elif c.kind == 'set':
            r = set_method(I, st, o, c, name, args, kw, node)
            if r is not None:
                return r
        return unknown_method(I, st, o, name, args, kw, node)
    if o.op in ('dict', 'dictset', 'dictmap', 'dictupdate') and name in ('keys', 'items', 'values', 'get', 'copy'):
        return dict_method(I, st, o, o, name, args, kw, node)
    if o.op == 'call' and o.a[0] == 're.compile' and name in ('search', 'match', 'fullmatch', 'findall', 'split', 'sub', 'finditer'):
        d = dict(zip(('pattern', 'flags'), o.a[1]))
        d.update(dict(o.a[2]) if len(o.a) > 2 else {})
        k2 = dict(kw)
        if 'flags' in d:
            k2['flags'] = d['flags']
        if 'pattern' in d and set(d) <= {'pattern', 'flags'} and not (name in ('search', 'match', 'fullmatch') and len(args) > 1):
            return call_ext(I, st, 're.' + name, [d['pattern']] + list(args), k2, node)
    if o.op == 'call' and o.a[0] == 're.Match' and not kw:
        if name == 'group' and len(args) < 2:
            return idx(o, args[0] if args else ZERO)
        if name == 'groups' and not args:
            return tup(*o.a[1][1:])
    if o.op == 'call' and o.a[0] in ('re.search', 're.match', 're.fullmatch'):
        m = tm.constmatch(o)
        if m is not NotImplemented and m is not None and not kw and all(a.op in ('str', 'num') for a in args):
            a = [x.a[0] if x.op == 'str' else int(x.a[0]) for x in args]
            if name in ('group', 'groups', 'start', 'end', 'span'):
                try:
                    r = getattr(m, name)(*a)
                except (IndexError, TypeError):
                    r = NotImplemented
                if r is not NotImplemented:
                    w = lambda x: NONE if x is None else string(x) if isinstance(x, str) else num(x)
                    return tup(*map(w, r)) if isinstance(r, tuple) else w(r)
    if kind(o) == 'str' or (name in STRM and o.op not in ('superext',)):
        r = str_method(I, st, o, name, args, kw, node)
        if r is not None:
            return r
    if o.op in ('keys', 'vals', 'items') and name in ('copy',):
        return o
    if name == 'items' and not args:
        return mk('items', I.freeze(st, o))
    if name == 'keys' and not args:
        return mk('keys', I.freeze(st, o))
    if name == 'values' and not args:
        return mk('vals', I.freeze(st, o))
    if name == 'get' and o.op in ('sym', 'el', 'idx', 'attr') and args:
        f = I.freeze(st, o)
        k = I.freeze(st, args[0])
        return ite(isin(k, f), idx(f, k), args[1] if len(args) > 1 else NONE)
    r = array_method(I, st, o, name, args, kw, node)
    if r is not None:
        return r
    return unknown_method(I, st, o, name, args, kw, node)


def unknown_method(I, st, o, name, args, kw, node):
    fo = I.freeze(st, o)
    fa = fz(I, st, args)
    fk = tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items()))
    if name not in PUREM or fo.op == 'call' and fo.a[0] == 'shapefile.Writer':
        I.effect(st, '.' + name, fo, fa, dict(fk), node)
    if name == 'group' and len(fa) == 1:
        return idx(fo, fa[0])
    if '.' + name in I.models:
        r = I.models['.' + name](I, st, [fo] + list(args), kw, node)
        if r is not None:
            return r
    return mk('mcall', name, (fo,) + fa, fk)


def list_method(I, st, o, c, name, args, kw, node):
    s = c.v
    if name == 'append':
        I.setcell(st, o, cat(s, lit(args[0])))
        return NONE
    if name == 'extend':
        I.setcell(st, o, cat(s, I.seqof(st, args[0])))
        return NONE
    if name == 'insert' and args[0] is ZERO:
        I.setcell(st, o, cat(lit(args[1]), s))
        return NONE
    if name == 'copy':
        return I.newlist(st, s)
    if name == 'reverse':
        I.setcell(st, o, tm.rev(s))
        return NONE
    if name == 'sort':
        I.setcell(st, o, sort_seq(I, st, s, kw.get('key'), kw.get('reverse', FALSE)))
        return NONE
    if name == 'clear':
        I.setcell(st, o, lit())
        return NONE
    if name == 'pop':
        i = args[0] if args else num(-1)
        if i is ZERO:
            I.setcell(st, o, slice_(s, ONE, NONE))
        elif isnum(i) and i.a[0] == -1:
            I.setcell(st, o, slice_(s, NONE, num(-1)))
        else:
            I.setcell(st, o, mk('delidx', s, i))
        return I.index(st, s, i)
    if name == 'index':
        items = I.literal_items(s)
        if items and any(x.op == 'opt' for x in items):
            items = None
        if items and len(items) <= 12 and not all(isconst(e) for e in items):
            r = mk('indexerr')
            for i in range(len(items) - 1, -1, -1):
                q = I.eqv(st, items[i], args[0])
                r = num(i) if i == len(items) - 1 and q is not FALSE else r if q is FALSE else ite(q, num(i), r)
            if r.op != 'indexerr':
                return r
        return index_of(lit(*items) if items else s, I.freeze(st, args[0]))
    if name == 'count':
        x = I.freeze(st, args[0])
        if s.op == 'lit':
            return add(*[ite(eq(e, x), ONE, ZERO) for e in s.a])
        return call('countof', (I.freeze(st, s), x))
    if name == 'remove':
        I.setcell(st, o, mk('removed', s, I.freeze(st, args[0])))
        return NONE
    if name in ('tolist',):
        return o
    return None


def index_of(s, x):
    if s.op in ('lit', 'tuple'):
        if all(isconst(e) for e in s.a) and isconst(x):
            for i, e in enumerate(s.a):
                if e is x:
                    return num(i)
        if all(isconst(e) for e in s.a):
            r = mk('indexerr')
            for i in range(len(s.a) - 1, -1, -1):
                r = num(i) if r.op == 'indexerr' else ite(eq(s.a[i], x), num(i), r)
            return r
    return call('index', (s, x))


def dict_method(I, st, o, d, name, args, kw, node):
    from .interp import ABSENT, _dropabsent
    if name == 'get':
        k = I.freeze(st, args[0])
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        h = I.has_key(st, d, k)
        if h is FALSE:
            return dflt
        v = I.dict_get(d, k)
        if v is ABSENT:
            return dflt
        return ite(h, _dropabsent(v), dflt)
    if name == 'items':
        return mk('items', d) if d.op != 'dict' else opt_items(I, d, lambda k, v: tup(k, v))
    if name == 'keys':
        return mk('keys', d) if d.op != 'dict' else opt_items(I, d, lambda k, v: k)
    if name == 'values':
        return mk('vals', d) if d.op != 'dict' else opt_items(I, d, lambda k, v: v)
    if name == 'copy':
        return I.newdict(st, d)
    if name == 'update' and o.op == 'ref':
        if args:
            x = I.deref(st, args[0])
            if x.op not in ('dict', 'dictset', 'dictmap', 'dictupdate', 'ite', 'sym', 'attr', 'idx', 'el', 'call', 'mcall'):
                x = I.dictfrom(st, x)
            d = I.dict_update(st, d, x)
        for k, v in kw.items():
            d = I.dict_set(st, d, string(k), v)
        I.setcell(st, o, d)
        return NONE
    if name == 'pop' and o.op == 'ref':
        k = args[0]
        v = dict_method(I, st, o, d, 'get', args, kw, node) if len(args) > 1 else I.index(st, d, k)
        I.setcell(st, o, I.dict_del(d, k))
        return v
    if name == 'setdefault' and o.op == 'ref':
        k = args[0]
        h = I.has_key(st, d, k)
        v = I.dict_get(d, k)
        nv = args[1] if len(args) > 1 else NONE
        w = nv if v is ABSENT else ite(h, _dropabsent(v), nv)
        I.setcell(st, o, I.dict_set(st, d, k, w))
        return w
    if name == 'clear' and o.op == 'ref':
        I.setcell(st, o, mk('dict'))
        return NONE
    return None


def opt_items(I, d, f):
    from .interp import ABSENT, _dropabsent
    out = []
    for k, v in d.a:
        ab = I.isabsent(v)
        if ab is FALSE:
            out.append(lit(f(k, v)))
        elif ab is not TRUE:
            out.append(ite(bnot(ab), lit(f(k, _dropabsent(v))), lit()))
    return cat(*out) if out else lit()


def set_method(I, st, o, c, name, args, kw, node):
    s = c.v
    if name == 'add':
        x = I.freeze(st, args[0])
        if s.op == 'lit' and x in s.a:
            return NONE
        if s.op == 'lit' and isconst(x) and all(isconst(e) for e in s.a):
            I.setcell(st, o, lit(*s.a, x))
        else:
            I.setcell(st, o, mk('setop', 'union', s, lit(x)))
        return NONE
    if name in ('union', 'intersection', 'difference'):
        return I.setop(st, {'union': 'union', 'intersection': 'inter', 'difference': 'diff'}[name], s, I.seqof(st, args[0]))
    if name == 'update':
        r = I.setop(st, 'union', s, I.seqof(st, args[0]))
        I.setcell(st, o, I.deref(st, r))
        return NONE
    if name in ('discard', 'remove'):
        r = I.setop(st, 'diff', s, lit(I.freeze(st, args[0])))
        I.setcell(st, o, I.deref(st, r))
        return NONE
    if name == 'copy':
        return I.new(st, 'set', s)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return atom(call('set.' + name, (I.freeze(st, s), I.freeze(st, args[0]))))
    return None


def str_method(I, st, o, name, args, kw, node):
    fa = fz(I, st, args)
    if name == 'join':
        s = I.seqof(st, args[0])
        s = I.freeze(st, s)
        return tm.join(o, s)
    if o.op == 'ite':
        return ite(o.a[0], str_method(I, st, o.a[1], name, args, kw, node), str_method(I, st, o.a[2], name, args, kw, node))
    if name == 'format':
        if o.op == 'str':
            return str_format(o.a[0], fa, {k: I.freeze(st, v) for k, v in kw.items()})
        return call('str.format', (o,) + fa, tuple((k, I.freeze(st, v)) for k, v in kw.items()))
    if o.op == 'str' and all(x.op in ('str', 'num', 'none') for x in fa) and not kw:
        py = [x.a[0] if x.op == 'str' else int(x.a[0]) if x.op == 'num' else None for x in fa]
        try:
            r = getattr(o.a[0], name)(*py)
        except Exception:
            r = NotImplemented
        if isinstance(r, bool):
            return TRUE if r else FALSE
        if isinstance(r, str):
            return string(r)
        if isinstance(r, int):
            return num(r)
        if isinstance(r, (list, tuple)):
            l = [string(x) for x in r]
            return I.newlist(st, lit(*l)) if isinstance(r, list) else tup(*l)
    if name == 'split' and not kw and len(fa) <= 1:
        t = split_numbers(o, fa[0] if fa else NONE)
        if t is not None:
            return I.newlist(st, lit(*t))
    if name in ('startswith', 'endswith') and fa and fa[0].op == 'tuple':
        return bor(*[str_method(I, st, o, name, [x], {}, node) for x in fa[0].a])
    fk = tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items()))
    if fk and name in ('split', 'rsplit'):
        fa = fa + tuple(v for _, v in fk)
        fk = ()
    r = call('str.' + name, (I.freeze(st, o),) + fa, fk)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isalnum', 'isnumeric'):
        return atom(r)
    return r


def split_numbers(o, sep):
    """words of a text made of constant text and plainly formatted numbers"""
    if o.op not in ('scat', 'fmt') or sep is not NONE and (sep.op != 'str' or not sep.a[0]):
        return None
    words = [[]]
    for p in (o.a if o.op == 'scat' else (o,)):
        if p.op == 'fmt' and kind(p.a[0]) == 'num' and p.a[1].op == 'str' and p.a[1].a[0] == '':
            words[-1].append(p)
        elif p.op == 'str':
            w = re.split(r'\s+', p.a[0]) if sep is NONE else p.a[0].split(sep.a[0])
            for i, x in enumerate(w):
                if i:
                    words.append([])
                if x:
                    words[-1].append(string(x))
        else:
            return None
    r = [tm.scat(*w) for w in words]
    return [x for x in r if x is not string('')] if sep is NONE else r


def str_format(f, args, kw):
    import string as _s
    n = [0]

    def value(field):
        if field == '':
            n[0] += 1
            return args[n[0] - 1]
        if field.isdigit():
            return args[int(field)]
        return kw[field]

    def expand(f, deep):
        out = []
        for text, field, spec, conv in _s.Formatter().parse(f):
            if text:
                out.append(string(text))
            if field is not None:
                v = value(field)
                if conv:
                    raise KeyError
                sp = expand(spec, True) if spec and '{' in spec else string(spec or '')
                out.append(fmt(v, sp))
        return scat(*out) if out else string('')
    try:
        return expand(f, False)
    except (IndexError, ValueError, KeyError):
        return call('str.format', (string(f),) + tuple(args), tuple(sorted(kw.items())))


def str_percent(I, st, f, y):
    """f % y for a constant format"""
    fz_ = lambda v: I.freeze(st, v)
    if f.op != 'str':
        return call('strmod', (f, fz_(y)))
    y = I.deref(st, y)
    if y.op not in ('tuple', 'num', 'str') and tm.shape(y) == '?' and tm.kind(y) is None and y.op in ('sym', 'call', 'mcall', 'idx', 'el', 'attr'):
        return call('strmod', (f, fz_(y)))
    args = list(y.a) if y.op == 'tuple' else [y]
    out, at = [], 0
    for m in re.finditer(r'%(?:(%)|(?:\((\w+)\))?([-+ 0#]*)(\*|\d*)(?:\.(\*|\d+))?([a-zA-Z]))', f.a[0]):
        out.append(string(f.a[0][at:m.start()]))
        at = m.end()
        if m.group(1):
            out.append(string('%'))
            continue
        key, fl, w, p, t = m.group(2, 3, 4, 5, 6)
        if key or '#' in fl or '*' in (w + (p or '')) or t not in 'sdifFeEgG' or not args:
            return call('strmod', (f, fz_(y)))
        v = args.pop(0)
        prec = '.' + p if p is not None else ''
        if t == 's':
            v = B['str'](I, st, [v], {}, None)
            spec = prec + 's' if prec else ''
            al = '<' if '-' in fl else '>'
            spec = (al + w if w else '') + spec
        else:
            if t in 'di':
                v, t, prec = int_(v), 'd', ''
            sign = '+' if '+' in fl else ' ' if ' ' in fl else ''
            spec = ('<' if '-' in fl else '') + sign + ('0' if '0' in fl and '-' not in fl else '') + w + prec + t
        if v is None:
            return call('strmod', (f, fz_(y)))
        out.append(fmt(fz_(v), string(spec)))
    if args or '%' in f.a[0][at:]:
        return call('strmod', (f, fz_(y)))
    out.append(string(f.a[0][at:]))
    return scat(*out)


def array_method(I, st, o, name, args, kw, node):
    if o.op in ('sym', 'attr', 'call', 'mcall', 'idx', 'el') and tm.shape(o) not in ('a', 's') and kind(o) is None and name in ('copy', 'index', 'count', 'get'):
        return None
    if name == 'astype':
        t = args[0] if args else NONE
        if t.op == 'ext' and t.a[0] in ('float', 'numpy.float64', 'numpy.float32'):
            return o
        if t.op == 'ext' and t.a[0] == 'int':
            return tm_map1(arr(I, st, o), int_)
        return call('astype', (I.freeze(st, o), I.freeze(st, t)))
    if o.op == 'call' and o.a[0] == 'numpy.outer' and (name in ('flatten', 'ravel') and not args or name == 'reshape' and len(args) == 1 and args[0] is num(-1)):
        return flatten(I, st, o)
    if name in ('copy', 'tolist', 'flatten', 'ravel', 'item', 'squeeze') and o.op not in ('sym', 'attr', 'el', 'idx', 'call', 'mcall') and not args:
        if name == 'tolist':
            return I.newlist(st, arr(I, st, o))
        return o
    if name == 'tolist' and not args:
        return I.newlist(st, o)
    if name == 'copy' and not args and tm.shape(o) == 'a':
        return o
    f = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'min': 'numpy.min', 'max': 'numpy.max', 'std': 'numpy.std', 'cumsum': 'numpy.cumsum', 'any': 'any', 'all': 'all',
         'prod': 'numpy.prod', 'clip': 'numpy.clip', 'argsort': 'numpy.argsort', 'round': 'round', 'repeat': 'numpy.repeat', 'searchsorted': 'numpy.searchsorted',
         'transpose': 'numpy.transpose', 'nonzero': 'numpy.nonzero'}.get(name)
    if f and (o.op not in ('ext',)) and not (o.op in ('sym', 'attr', 'call', 'mcall', 'idx', 'el') and tm.shape(o) == '?' and name in ('transpose',)):
        if name == 'clip' and 'out' in kw:
            kw = {k: v for k, v in kw.items() if k != 'out'}
            r = B[f](I, st, [o] + args, kw, node)
            tgt = node.func.value if node is not None and isinstance(node.func, ast.Attribute) else None
            if r is not None and isinstance(tgt, ast.Name) and I.stack:
                I.assign_name(st, I.stack[-1], tgt.id, r)
            return r
        return B[f](I, st, [o] + args, kw, node)
    return None
