"""Hash-consed value terms with a canonical form.

Terms denote the values a program computes from its inputs.  Every constructor
normalises, so two programs that compute the same value by the rewriting rules
below obtain the *same* term object.  The rules are algebraic (rational-coefficient
sums of monomials, powers, logarithms), boolean (reduced ordered decision
diagrams over uninterpreted atoms), and element-wise (arrays, comprehensions and
selections share one notation)."""
from fractions import Fraction
import itertools, math

F = Fraction
_tab = {}
_ctr = itertools.count(1)


class T:
    __slots__ = ('op', 'a', 'id', 'm')

    def __repr__(self):
        return show(self)


class Limit(Exception):
    """analysis budget exhausted"""


CAP = [10 ** 9]


def budget(n):
    CAP[0] = next(_ctr) + n


def memo(f):
    """memoise on term arguments"""
    tab = {}

    def g(*a):
        k = tuple([x.id if isinstance(x, T) else x for x in a])
        r = tab.get(k)
        if r is None:
            r = tab[k] = f(*a)
        return r
    g.__name__ = f.__name__
    return g


def mk(op, *a):
    k = (op,) + tuple((x.id if isinstance(x, T) else (type(x).__name__, x) if not isinstance(x, tuple) else ('t', _tk(x))) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t.m = op, a, next(_ctr), {}
        if t.id > CAP[0]:
            raise Limit('terms')
        _tab[k] = t
    return t


def _tk(x):
    return tuple(e.id if isinstance(e, T) else _tk(e) if isinstance(e, tuple) else (type(e).__name__, e) for e in x)


TRUE, FALSE, NONE = mk('true'), mk('false'), mk('none')
INF, NAN = mk('inf'), mk('nan')


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v == math.inf:
            return INF
        if v == -math.inf:
            return neg(INF)
        if v != v:
            return NAN
        v = F(repr(v))
    return mk('num', F(v))


def string(s):
    return mk('str', s)


ZERO, ONE, TWO = num(0), num(1), num(2)
E, PI = mk('const', 'e'), mk('const', 'pi')


def sym(name, shape='?', kind=None):
    return mk('sym', name, shape, kind)


def isnum(t):
    return t.op == 'num'


def isconst(t):
    return t.op in ('num', 'str', 'true', 'false', 'none', 'inf', 'nan')


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _ch(x)


def _ch(x):
    for e in x:
        if isinstance(e, T):
            yield e
        elif isinstance(e, tuple):
            yield from _ch(e)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def flag(ops, name):
    """cached test: does a term contain one of ops"""
    def g(t):
        r = t.m.get(name)
        if r is None:
            st = [t]
            while st:
                x = st[-1]
                if name in x.m:
                    st.pop()
                    continue
                if x.op in ops:
                    x.m[name] = True
                    st.pop()
                    continue
                cs = list(children(x))
                todo = [c for c in cs if name not in c.m]
                if todo:
                    st.extend(todo)
                else:
                    x.m[name] = any(c.m[name] for c in cs)
                    st.pop()
            r = t.m[name]
        return r
    return g


has_ref = flag(('ref', 'fn', 'bound'), 'href')
has_carry = flag(('carry',), 'hcarry')
has_absent = flag(('absent',), 'habs')


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- kinds, shapes
SCALAR_ATTR = {'area', 'perimeter', 'planetary_radius', 'enclosing_area'}
STR_OPS = {'scat', 'fmt', 'str', 'join'}
STR_CALLS = {'str.' + x for x in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'removeprefix', 'removesuffix', 'expandtabs', 'format')}
NUM_OPS = {'num', 'add', 'mul', 'sum', 'len', 'count', 'ln', 'inf', 'nan', 'const', 'cumsum', 'hist', 'arange', 'sin', 'cos', 'floor', 'ceil',
           'abs', 'round', 'searchsorted', 'interp'}
SEQ_OPS = {'lit', 'cat', 'zip', 'rep', 'arange', 'map', 'flat'}
AGG_OPS = {'sum', 'len', 'count', 'min', 'max', 'mean', 'std', 'idx', 'prod', 'any', 'all', 'join'}


NOK = (None, None)
ATTRS = {}      # attribute of an opaque object: (shape, kind)
RETURNS = {}    # opaque function: (shape or None, kind)


def kind(t):
    o = t.op
    if o == 'call' and t.a[0] in RETURNS:
        return RETURNS[t.a[0]][1]
    if o in STR_OPS:
        return 'str'
    if o in NUM_OPS:
        return 'num'
    if o in ('true', 'false', 'bdd'):
        return 'bool'
    if o == 'none':
        return 'none'
    if o == 'sym':
        return t.a[2]
    if o in ('carry', 'acc'):
        return t.a[3]
    if o == 'attr' and t.a[1] in ATTRS:
        return ATTRS[t.a[1]][1]
    if o in ('tuple', 'dict', 'ref', 'fn', 'mod', 'cls', 'set'):
        return o
    if o in SEQ_OPS:
        return 'seq'
    if o == 'ite':
        a, b = kind(t.a[1]), kind(t.a[2])
        return a if a == b else None
    if o == 'call' and t.a[0] in ('float', 'int', 'abs', 'round', 'min', 'max'):
        return 'num'
    if o == 'strrep' or o == 'call' and t.a[0] in STR_CALLS:
        return 'str'
    if o == 'idx' and t.a[0].op == 'call' and t.a[0].a[0] in ('str.split', 'str.rsplit', 'str.partition', 'str.rpartition', 'str.splitlines'):
        return 'str'
    if o in ('sel', 'slice', 'gather', 'el', 'idx'):
        k = kind(t.a[0])
        return k if k in ('num', 'str') else None
    return None


def shape(t):
    """'s' scalar, 'a' array, '?' unknown"""
    c = t.m.get('shape')
    if c is None:
        c = t.m['shape'] = _shape(t)
    return c


def _shape(t):
    o = t.op
    if o == 'call' and t.a[0] in RETURNS and RETURNS[t.a[0]][0] not in (None, 'p'):
        return RETURNS[t.a[0]][0]
    if o in ('num', 'str', 'none', 'true', 'false', 'inf', 'nan', 'const', 'el', 'bv') or o in AGG_OPS:
        if o in ('idx', 'el', 'bv'):
            return 's'
        return 's'
    if o == 'sym':
        return t.a[1]
    if o in ('carry', 'acc'):
        return t.a[2]
    if o in ('sel', 'slice', 'gather', 'cumsum', 'hist', 'lit', 'cat', 'arange', 'rep', 'map', 'zip', 'sorted', 'argsort', 'roll', 'flat',
             'col', 'where', 'linspace', 'keys', 'vals'):
        return 'a'
    if o == 'attr':
        return ATTRS[t.a[1]][0] if t.a[1] in ATTRS else 's' if t.a[1] in SCALAR_ATTR else '?'
    if o in ('interp', 'searchsorted'):
        return shape(t.a[0])
    if o in ('add', 'mul', 'ln', 'bdd', 'ite', 'pos', 'zero', 'eq', 'fmt', 'scat', 'sin', 'cos', 'floor', 'ceil', 'abs', 'round', 'call', 'truth'):
        r = 's'
        for c in children(t):
            s = shape(c)
            if s == 'a':
                return 'a'
            if s == '?':
                r = '?'
        return r
    return '?'


# ---------------------------------------------------------------- arithmetic
def _poly(t):
    """(const, {mono: coef})"""
    if t.op == 'num':
        return t.a[0], {}
    if t.op == 'add':
        return t.a[0], dict(t.a[1])
    if t is TRUE:
        return F(1), {}
    if t is FALSE:
        return F(0), {}
    return F(0), {t: F(1)}


def _frompoly(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return num(c)
    if not c and len(d) == 1:
        (m, k), = d.items()
        if k == 1:
            return m
    return mk('add', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(*ts):
    C, D = F(0), {}
    inf = None
    for t in ts:
        if t is INF or (t.op == 'mul' and t.a[0][0] is INF):
            inf = t
        c, d = _poly(t)
        C += c
        for m, k in d.items():
            D[m] = D.get(m, 0) + k
    if inf is not None and len(D) == 1:
        return _frompoly(F(0), {INF: F(1) if D.get(INF, 0) > 0 else F(-1)}) if D.get(INF) else inf
    return _frompoly(C, D)


def scale(t, k):
    c, d = _poly(t)
    if k == 0:
        return ZERO
    return _frompoly(c * k, {m: v * k for m, v in d.items()})


def neg(t):
    return scale(t, F(-1))


def sub(a, b):
    return add(a, neg(b))


def _mono(d):
    """monomial from {base: exp}; returns (coef, mono or None)"""
    coef = F(1)
    out = {}
    for b, e in d.items():
        if e.op == 'num' and e.a[0] == 0:
            continue
        if b.op == 'num' and e.op == 'num':
            k, rest = _numpow(b.a[0], e.a[0])
            coef *= k
            for bb, ee in rest:
                out[bb] = add(out[bb], ee) if bb in out else ee
        else:
            out[b] = add(out[b], e) if b in out else e
    # numeric bases with non-integer exponents may have merged
    for b in list(out):
        e = out[b]
        if b.op == 'num' and e.op == 'num':
            k, rest = _numpow(b.a[0], e.a[0])
            coef *= k
            del out[b]
            for bb, ee in rest:
                out[bb] = ee
        elif e is ZERO:
            del out[b]
    if not out:
        return coef, None
    items = tuple(sorted(out.items(), key=lambda x: x[0].id))
    if len(items) == 1 and items[0][1] is ONE:
        return coef, items[0][0]
    return coef, mk('mul', items)


def _factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 20000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _numpow(b, e):
    """b**e for rationals -> (rational coef, [(num base, num exp)])"""
    if e.denominator == 1 and abs(e) <= 400:
        if b == 0:
            return (F(0), []) if e > 0 else (F(1), [(num(0), num(e))])
        return b ** int(e), []
    if b == 1:
        return F(1), []
    if b <= 0:
        if b == 0:
            return F(0), []
        return F(1), [(num(b), num(e))]
    pr = {}
    for p, k in _factor(b.numerator).items():
        pr[p] = pr.get(p, 0) + k
    for p, k in _factor(b.denominator).items():
        pr[p] = pr.get(p, 0) - k
    coef, rest = F(1), []
    for p, k in pr.items():
        x = k * e
        i = math.floor(x)
        if abs(i) > 400:
            rest.append((num(p), num(x)))
            continue
        coef *= F(p) ** i
        if x - i:
            rest.append((num(p), num(x - i)))
    return coef, rest


def _monodict(m):
    return dict(m.a[0]) if m.op == 'mul' else {m: ONE}


def _mulmono(m1, m2):
    d = _monodict(m1)
    for b, e in _monodict(m2).items():
        d[b] = add(d[b], e) if b in d else e
    return _mono(d)


def mul(*ts):
    if any(x is ZERO for x in ts):
        return ZERO
    acc = ONE
    for t in ts:
        acc = _mul2(acc, t)
    return acc


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    ca, da = _poly(a)
    cb, db = _poly(b)
    if len(da) + bool(ca) > 1 and len(db) + bool(cb) > 1 and (len(da) + 1) * (len(db) + 1) > 80:
        k, m = _mulmono(_atomsum(a)[1], _atomsum(b)[1])
        return scale(m if m else ONE, k * _atomsum(a)[0] * _atomsum(b)[0])
    C, D = ca * cb, {}

    def put(m, k):
        nonlocal C
        if m is None:
            C += k
        else:
            # a monomial whose factor is an atomic sum with exponent 1 must be expanded
            D[m] = D.get(m, 0) + k
    for m, k in da.items():
        if cb:
            put(m, k * cb)
    for m, k in db.items():
        if ca:
            put(m, k * ca)
    ex = []
    for m1, k1 in da.items():
        for m2, k2 in db.items():
            c, m = _mulmono(m1, m2)
            if m is not None and m.op == 'mul' and any(bb.op == 'add' and ee.op == 'num' and ee.a[0].denominator == 1 and ee.a[0] > 0 for bb, ee in m.a[0]):
                ex.append((m, k1 * k2 * c))
            elif m is not None and m.op == 'add':
                ex.append((m, k1 * k2 * c))
            else:
                put(m, k1 * k2 * c)
    r = _frompoly(C, D)
    for m, k in ex:
        r = add(r, scale(_expand(m), k))
    return r


def _expand(m):
    if m.op == 'add':
        return m
    rest, sums = {}, []
    for b, e in m.a[0]:
        if b.op == 'add' and e.op == 'num' and e.a[0].denominator == 1 and 0 < e.a[0] <= 4:
            sums += [b] * int(e.a[0])
        else:
            rest[b] = e
    c, mm = _mono(rest)
    r = scale(mm if mm is not None else ONE, c)
    for s in sums:
        r = _mul2(r, s)
    return r


def _atomsum(t):
    """(positive content, primitive sum)"""
    c, d = _poly(t)
    if not d:
        return F(1), t
    lead = abs(d[min(d, key=lambda m: m.id)])
    return lead, scale(t, 1 / lead)


@memo
def power(b, e):
    if e.op == 'num':
        if e.a[0] == 0:
            return ONE
        if e.a[0] == 1:
            return b
    if b.op == 'ite' and e.op == 'num':
        return ite(b.a[0], power(b.a[1], e), power(b.a[2], e))
    if b.op == 'num':
        if b is ONE:
            return ONE
        if e.op == 'num':
            k, rest = _numpow(b.a[0], e.a[0])
            c, m = _mono(dict(rest))
            return scale(m if m is not None else ONE, k * c)
        return _exppow(b, e)
    if b is E:
        return _exppow(b, e)
    c, d = _poly(b)
    if not c and len(d) == 1:
        (m, k), = d.items()
        if k < 0 and not (e.op == 'num' and e.a[0].denominator == 1):
            return _pow1(b, e)
        r = power(num(k), e) if k != 1 else ONE
        dd = {}
        for bb, ee in _monodict(m).items():
            x = mul(ee, e)
            if bb.op == 'num' or bb is E:
                r = mul(r, power(bb, x))
            elif bb.op == 'add' and x.op == 'num' and x.a[0].denominator == 1 and x.a[0] > 0:
                r = mul(r, power(bb, x))
            else:
                dd[bb] = x
        cc, mm = _mono(dd)
        return scale(mul(r, mm) if mm is not None else r, cc)
    if b.op == 'add':
        if e.op == 'num' and e.a[0].denominator == 1 and 0 < e.a[0] <= 4:
            r = ONE
            for _ in range(int(e.a[0])):
                r = _mul2(r, b)
            return r
        # factor common monomial
        com = None
        if not c:
            for m in d:
                md = {bb: ee for bb, ee in _monodict(m).items()}
                if com is None:
                    com = md
                else:
                    com = {bb: ee for bb, ee in com.items() if md.get(bb) is ee}
        if com:
            cc, mm = _mono(com)
            inv = power(mm, num(-1)) if mm is not None else ONE
            rest = _frompoly(F(0), {})
            for m, k in d.items():
                rest = add(rest, scale(mul(m, inv), k))
            if mm is not None:
                return mul(power(scale(mm, cc), e), _powsum(rest, e) if rest.op == 'add' else power(rest, e))
        return _powsum(b, e)
    return _pow1(b, e)


def _powsum(b, e):
    c, d = _poly(b)
    if True:
        lead, prim = _atomsum(b)
        lm = min(d, key=lambda m: m.id)
        if d[lm] < 0 and e.op == 'num' and e.a[0].denominator == 1:
            s = F(-1) ** int(e.a[0])
            prim = neg(prim)
        else:
            s = F(1)
        cc, mm = _mono({prim: e})
        r = scale(mm, cc * s)
        return mul(power(num(lead), e), r) if lead != 1 else r


def _pow1(b, e):
    c, m = _mono({b: e})
    return scale(m if m is not None else ONE, c)


def _exppow(b, e):
    """const**symbolic exponent: extract logarithms and constant parts"""
    c, d = _poly(e)
    r = ONE
    if c:
        r = power(b, num(c)) if b is not E else _pow1(E, num(c))
    rest = {}
    lnb = ln(b)
    for m, k in d.items():
        md = _monodict(m)
        hit = None
        for bb, ee in md.items():
            if bb.op == 'ln' and ee is ONE:
                if b is E:
                    hit = bb
                    oth = {x: y for x, y in md.items() if x is not bb}
                    break
                # need ln(b)^-1
                if lnb.op == 'ln' and md.get(lnb) is num(-1) and bb is not lnb:
                    hit = bb
                    oth = {x: y for x, y in md.items() if x is not bb and x is not lnb}
                    break
        if hit is not None:
            cc, mm = _mono(oth)
            ex = scale(mm if mm is not None else ONE, cc * k)
            r = mul(r, power(hit.a[0], ex))
        else:
            rest[m] = k
    if rest:
        x = _frompoly(F(0), rest)
        r = mul(r, _pow1(b, x))
    return r


def div(a, b):
    return mul(a, power(b, num(-1)))


@memo
def ln(t):
    if t.op == 'num':
        if t is ONE:
            return ZERO
        if t.a[0] > 0:
            v = t.a[0]
            r = ZERO
            if v.denominator == 1 and len(_factor(v.numerator)) == 1 and list(_factor(v.numerator).values()) == [1]:
                return mk('ln', t)
            if v == 10:
                return mk('ln', t)
            # keep powers of ten together: base-10 logarithms are ubiquitous
            fac = {}
            for p, k in _factor(v.numerator).items():
                fac[p] = fac.get(p, 0) + k
            for p, k in _factor(v.denominator).items():
                fac[p] = fac.get(p, 0) - k
            a2, a5 = fac.get(2, 0), fac.get(5, 0)
            if a2 and a5 and (a2 > 0) == (a5 > 0):
                n10 = min(a2, a5) if a2 > 0 else max(a2, a5)
                fac[2], fac[5] = a2 - n10, a5 - n10
                r = scale(mk('ln', num(10)), F(n10))
            for p, k in fac.items():
                if k:
                    r = add(r, scale(mk('ln', num(p)), F(k)))
            return r
        return mk('ln', t)
    if t is E:
        return ONE
    if t.op == 'ite':
        return ite(t.a[0], ln(t.a[1]), ln(t.a[2]))
    c, d = _poly(t)
    if not c and len(d) == 1:
        (m, k), = d.items()
        if k > 0 and (m.op == 'mul' or k != 1):
            r = ln(num(k)) if k != 1 else ZERO
            for b, e in _monodict(m).items():
                r = add(r, mul(e, ln(b) if b is not t else mk('ln', b)))
            return r
    if t.op == 'add':
        lead, prim = _atomsum(t)
        if lead != 1:
            return add(ln(num(lead)), mk('ln', prim))
    return mk('ln', t)


def log10(t):
    return div(ln(t), mk('ln', num(10)))


def log2(t):
    return div(ln(t), mk('ln', TWO))


def sqrt(t):
    return power(t, num(F(1, 2)))


def exp(t):
    return power(E, t)


# ---------------------------------------------------------------- booleans (ROBDD)
def atom(t):
    return mk('bdd', t, TRUE, FALSE)


def bdd(a, hi, lo):
    return hi if hi is lo else mk('bdd', a, hi, lo)


_bm = {}


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _bm.get(k)
    if r is None:
        top = min((x.a[0] for x in (c, a, b) if x.op == 'bdd'), key=lambda t: t.id)

        def co(x, v):
            return x.a[1 if v else 2] if x.op == 'bdd' and x.a[0] is top else x
        r = bdd(top, bite(co(c, 1), co(a, 1), co(b, 1)), bite(co(c, 0), co(a, 0), co(b, 0)))
        _bm[k] = r
    return r


def bnot(a):
    return bite(a, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = bite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = bite(r, TRUE, x)
    return r


def isbool(t):
    return t.op in ('bdd', 'true', 'false')


@memo
def truth(t):
    if isbool(t):
        return t
    o = t.op
    if o == 'num':
        return TRUE if t.a[0] != 0 else FALSE
    if o == 'str':
        return TRUE if t.a[0] else FALSE
    if o == 'call' and t.a[0] in ('re.search', 're.match', 're.fullmatch'):
        return bnot(isnone(t))
    if o == 'none':
        return FALSE
    if o in ('inf', 'nan', 'fn', 'mod', 'cls') or o in ('sym', 'call') and str(kind(t)).startswith('inst:'):
        return TRUE
    if o in ('lit', 'tuple', 'dict', 'set'):
        return TRUE if t.a else FALSE
    if o == 'ite':
        return bite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if o in ('cat',) and any(x.op == 'lit' and x.a for x in t.a):
        return TRUE
    if o == 'scat' and any(x.op == 'str' and x.a[0] for x in t.a):
        return TRUE
    if o in ('len', 'count', 'sum', 'add', 'mul', 'min', 'max'):
        return bnot(eq(t, ZERO))
    if kind(t) == 'num' and shape(t) == 's':
        return bnot(eq(t, ZERO))
    if o in SEQ_OPS or o in ('sel', 'slice', 'gather', 'where', 'sorted'):
        return bnot(eq(length(t), ZERO))
    return atom(mk('truth', t))


def _numeric_cmp(a, b):
    return kind(a) not in ('str', 'none', 'tuple', 'dict', 'ref', 'fn', 'cls', 'bool') and kind(b) not in ('str', 'none', 'tuple', 'dict', 'ref', 'fn', 'cls', 'bool')


@memo
def lt(a, b):
    if a.op == 'ite':
        return bite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.op == 'ite':
        return bite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    if a is b:
        return FALSE
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b is INF and isnum(a):
        return TRUE
    if a is INF and isnum(b):
        return FALSE
    if not _numeric_cmp(a, b):
        return atom(mk('ltx', a, b))
    d = sub(b, a)
    if isnum(d):
        return TRUE if d.a[0] > 0 else FALSE
    if nonneg(d) is False:
        return FALSE
    c, m = _poly(d)
    if len(m) == 1:
        (x, k), = m.items()
        if x is PI:
            v = c + k * F(math.pi)
            if abs(v) > F(1, 10**12) * (1 + abs(c)):
                return TRUE if v > 0 else FALSE
        if x.op in ('len', 'count'):
            # non-negative integers: canonical threshold k*x + c > 0
            if k > 0:
                n = math.floor(-c / k)          # x > n
                if n < 0:
                    return TRUE
                if n == 0:
                    return bnot(eq(x, ZERO))
                d = sub(x, num(n))
            else:
                n = math.ceil(c / -k)           # x < n
                if n <= 0:
                    return FALSE
                if n == 1:
                    return eq(x, ZERO)
                return bnot(atom(mk('pos', sub(x, num(n - 1)))))
    return atom(mk('pos', _atomsum(d)[1]))


def nonneg(d):
    """sign knowledge: False when d <= 0 always"""
    c, m = _poly(d)
    if c <= 0 and m and all(k < 0 and x.op in ('len', 'count', 'abs') for x, k in m.items()):
        return False
    return None


@memo
def le(a, b):
    if a.op == 'ite':
        return bite(a.a[0], le(a.a[1], b), le(a.a[2], b))
    if b.op == 'ite':
        return bite(b.a[0], le(a, b.a[1]), le(a, b.a[2]))
    return bnot(lt(b, a))


TYPENAMES = {'NoneType', 'str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bool', 'bytes', 'frozenset', 'complex', 'type', 'numpy.ndarray'}


@memo
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite':
        return bite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if isbool(a) and isnum(b):
        a, b = b, a
    if isbool(b) and isnum(a):
        return b if a.a[0] == 1 else bnot(b) if a.a[0] == 0 else FALSE
    if isbool(a) and isbool(b):
        return bite(a, b, bnot(b))
    if isconst(a) and isconst(b):
        if {a.op, b.op} <= {'num', 'true', 'false'}:
            return TRUE if _poly(a)[0] == _poly(b)[0] else FALSE
        return FALSE
    ka, kb = kind(a), kind(b)
    if ka and kb and ka != kb and {ka, kb} <= {'num', 'str', 'none', 'tuple', 'dict', 'seq', 'ref', 'fn', 'cls'}:
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.a) != len(b.a):
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op in ('fn', 'cls', 'mod') and b.op in ('fn', 'cls', 'mod'):
        return FALSE
    if a.op == 'ext' and b.op in ('ext', 'cls') and a.a[0] in TYPENAMES and (b.op == 'cls' or b.a[0] in TYPENAMES) or b.op == 'ext' and a.op == 'cls' and b.a[0] in TYPENAMES:
        return FALSE
    if _numeric_cmp(a, b):
        d = sub(a, b)
        if isnum(d):
            return FALSE
        c, m = _poly(d)
        lm = min(m, key=lambda x: x.id)
        # lengths and counts are non-negative integers
        if m[lm] < 0:
            d = neg(d)
        d = _atomsum(d)[1]
        c, m = _poly(d)
        if len(m) == 1 and next(iter(m)).op in ('len', 'count') and c > 0:
            return FALSE
        return atom(mk('zero', d))
    if a.id > b.id:
        a, b = b, a
    return atom(mk('eq', a, b))


@memo
def constmatch(t):
    """match object of a regular-expression call on constants (NotImplemented if not constant)"""
    import re
    a = list(t.a[1]) + [None] * 3
    kw = dict(t.a[2]) if len(t.a) > 2 else {}
    p, s, f = kw.get('pattern', a[0]), kw.get('string', a[1]), kw.get('flags', a[2])
    if p is None or s is None or p.op != 'str' or s.op != 'str':
        return NotImplemented
    fl = 0
    if f is not None and f is not ZERO:
        fl = {'re.IGNORECASE': re.I, 're.I': re.I, 're.DOTALL': re.S, 're.S': re.S}.get(f.a[0]) if f.op == 'ext' else None
        if fl is None:
            return NotImplemented
    try:
        return getattr(re, t.a[0].split('.')[1])(p.a[0], s.a[0], fl)
    except re.error:
        return NotImplemented


@memo
def isnone(t):
    if t.op == 'none':
        return TRUE
    if t.op == 'ite':
        return bite(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
    if t.op == 'call' and t.a[0] in ('re.search', 're.match', 're.fullmatch'):
        m = constmatch(t)
        if m is not NotImplemented:
            return TRUE if m is None else FALSE
    if kind(t) is not None or t.op in ('lit', 'cat', 'sel', 'slice', 'gather', 'map', 'sum', 'call'):
        if t.op == 'call' and t.a[0] not in ('float', 'int', 'numpy.array', 'len') and t.a[0] not in RETURNS:
            return atom(mk('isnone', t))
        return FALSE
    return atom(mk('isnone', t))


@memo
def isin(x, c):
    if x.op == 'ite':
        return bite(x.a[0], isin(x.a[1], c), isin(x.a[2], c))
    if c.op == 'ite':
        return bite(c.a[0], isin(x, c.a[1]), isin(x, c.a[2]))
    if c.op in ('lit', 'tuple', 'set'):
        return bor(*[eq(x, e) for e in c.a])
    if c.op == 'dict':
        return bor(*[eq(x, e) for e, _ in c.a])
    if c.op == 'str' and x.op == 'str':
        return TRUE if x.a[0] in c.a[0] else FALSE
    if c.op == 'scat' and x.op == 'str' and any(p.op == 'str' and x.a[0] in p.a[0] for p in c.a):
        return TRUE
    return atom(mk('in', x, c))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return bite(c, a, b)
    if c.op == 'bdd' and c.a[1] is FALSE and c.a[2] is TRUE:
        c, a, b = atom(c.a[0]), b, a
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        return tup(*[ite(c, x, y) for x, y in zip(a.a, b.a)])
    return mk('ite', c, a, b)


def tup(*xs):
    return mk('tuple', *xs)


# ---------------------------------------------------------------- strings
def scat(*ps):
    out = []
    for p in ps:
        qs = p.a if p.op == 'scat' else (p,)
        for q in qs:
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].a[0] + q.a[0])
            elif q.op == 'str' and q.a[0] == '':
                continue
            else:
                out.append(q)
    if not out:
        return string('')
    if len(out) == 1 and kind(out[0]) == 'str':
        return out[0]
    return mk('scat', *out)


@memo
def fmt(x, spec):
    if spec.op == 'str' and spec.a[0] == '' and kind(x) == 'str':
        return x
    if spec.op == 'str' and isconst(x):
        try:
            if x.op == 'str':
                return string(format(x.a[0], spec.a[0]))
            if x.op == 'num':
                v = x.a[0]
                if v.denominator == 1:
                    return string(format(int(v), spec.a[0]))
                return string(format(float(v), spec.a[0]))
            if x.op == 'none' and not spec.a[0]:
                return string('None')
        except (ValueError, TypeError):
            pass
    if x.op == 'ite':
        return ite(x.a[0], fmt(x.a[1], spec), fmt(x.a[2], spec))
    return mk('fmt', x, spec)


def join(sep, s):
    if s.op == 'str':
        s = tup(*[string(ch) for ch in s.a[0]])
    if s.op in ('lit', 'tuple'):
        out = []
        for i, e in enumerate(s.a):
            if i:
                out.append(sep)
            out.append(e)
        return scat(*out)
    if s.op == 'ite':
        return ite(s.a[0], join(sep, s.a[1]), join(sep, s.a[2]))
    return mk('join', sep, s)


# ---------------------------------------------------------------- sequences
POINT = {'add', 'mul', 'ln', 'bdd', 'ite', 'pos', 'zero', 'eq', 'fmt', 'sin', 'cos', 'floor', 'ceil', 'abs', 'round', 'truth', 'isnone',
         'scat', 'attr', 'in', 'ltx'}
# library functions applied element by element
POINTCALL = {'float', 'int', 'str', 'numpy.floor', 'numpy.ceil', 'abs', 'round', 'numpy.sign', 'numpy.isnan', 'numpy.isinf', 'numpy.arccos',
             'numpy.arcsin', 'numpy.arctan2', 'math.erf', 'numpy.tan', 'numpy.trunc', 'minimum', 'maximum', 'poissonpmf', 'poissoncdf'}


def pointwise(t):
    return t.op in POINT or (t.op == 'call' and (t.a[0] in POINTCALL or RETURNS.get(t.a[0], NOK)[0] == 'p')) or (t.op == 'interp')


def lit(*xs):
    return mk('lit', *xs)


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.a if p.op == 'cat' else (p,)):
            if q.op == 'tuple':
                q = lit(*q.a)
            if q.op == 'lit' and not q.a:
                continue
            if q.op == 'lit' and out and out[-1].op == 'lit':
                out[-1] = lit(*(out[-1].a + q.a))
            else:
                out.append(q)
    if not out:
        return lit()
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def zipseq(*ss):
    return mk('zip', *ss)


def push(t, f, wrap_unknown=True):
    """apply a structural array operation inside element-wise structure"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if shape(x) == 's':
            r = x
        elif x.op == 'interp':
            r = build('interp', (go(x.a[0]),) + x.a[1:])
        elif pointwise(x) and x.op != 'attr':
            r = build(x.op, _map(x.a, go))
        else:
            r = f(x)
        memo[x.id] = r
        return r
    return go(t)


def _map(a, g):
    return tuple(g(x) if isinstance(x, T) else _map(x, g) if isinstance(x, tuple) else x for x in a)


@memo
def sel(t, m):
    """elements of t where mask m"""
    if m is TRUE:
        return t
    if t.op == 'zip':
        return zipseq(*[sel(x, m) for x in t.a])
    if t.op == 'map':
        return mk('sel', t, m)

    def f(x):
        if x.op == 'sel' and m is not x.a[1]:
            mm = unsel(m, x.a[1])
            if mm is not None:
                return sel(x.a[0], band(x.a[1], mm))
        if x.op == 'where':      # index array
            mm = unsel(m, x.a[0])
            if mm is not None:
                return where(band(x.a[0], mm))
        return mk('sel', x, m)
    return push(t, f)


def unsel(m, m1):
    """m was computed on arrays already selected by m1: express it on the unselected arrays"""
    ok = [True]

    def go(x):
        if shape(x) == 's':
            return x
        if x.op == 'sel' and x.a[1] is m1:
            return x.a[0]
        if pointwise(x):
            return build(x.op, _map(x.a, go))
        ok[0] = False
        return x
    r = go(m)
    return r if ok[0] else None


def where(m):
    return mk('where', m)


@memo
def slice_(t, lo, hi, step=NONE):
    if step is ONE:
        step = NONE
    if lo is ZERO and step is NONE:
        lo = NONE
    if lo is NONE and hi is NONE and step is NONE:
        return t
    if t.op == 'str' and all(isconst(x) for x in (lo, hi, step)):
        f = lambda x: None if x is NONE else int(x.a[0])
        return string(t.a[0][f(lo):f(hi):f(step)])
    if t.op in ('lit', 'tuple') and all(x is NONE or (isnum(x)) for x in (lo, hi, step)):
        f = lambda x: None if x is NONE else int(x.a[0])
        return mk(t.op, *t.a[f(lo):f(hi):f(step)])
    if t.op == 'zip':
        return zipseq(*[slice_(x, lo, hi, step) for x in t.a])
    if t.op == 'ite':
        return ite(t.a[0], slice_(t.a[1], lo, hi, step), slice_(t.a[2], lo, hi, step))
    if kind(t) == 'str' or t.op in ('attr', 'sym', 'call', 'mcall'):
        return mk('slice', t, lo, hi, step)

    def f(x):
        if x.op == 'lit':
            return slice_(x, lo, hi, step)
        if x.op == 'slice' and isnum(step) and step.a[0] == -1 and lo is NONE and hi is NONE and x.a[3] is step and x.a[1] is NONE and x.a[2] is NONE:
            return x.a[0]
        if x.op == 'slice' and step is NONE and x.a[3] is NONE:
            # compose front/back trims
            l2, h2 = x.a[1], x.a[2]
            if (l2 is NONE or _nn(l2)) and (lo is NONE or _nn(lo)) and (hi is NONE or _ng(hi)) and (h2 is NONE or _ng(h2)):
                L = add(l2 if l2 is not NONE else ZERO, lo if lo is not NONE else ZERO)
                H = add(h2 if h2 is not NONE else ZERO, hi if hi is not NONE else ZERO)
                return slice_(x.a[0], NONE if L is ZERO else L, NONE if H is ZERO else H)
        if x.op == 'cat' and step is NONE and hi is NONE and isnum(lo) and x.a[0].op == 'lit' and 0 <= lo.a[0] <= len(x.a[0].a):
            return cat(slice_(x.a[0], lo, NONE), *x.a[1:])
        if x.op == 'cat' and isnum(step) and step.a[0] == -1 and lo is NONE and hi is NONE:
            return cat(*[slice_(p, NONE, NONE, step) for p in reversed(x.a)])
        return mk('slice', x, lo, hi, step)
    return push(t, f)


def _nn(x):
    return isnum(x) and x.a[0] >= 0


def _ng(x):
    return isnum(x) and x.a[0] < 0


def rev(t):
    return slice_(t, NONE, NONE, num(-1))


@memo
def gather(t, i):
    if i.op == 'where':
        return sel(t, i.a[0])
    if i.op == 'zip' and len(i.a) == 1:
        return gather(t, i.a[0])
    if i.op == 'tuple' and len(i.a) == 1:
        return gather(t, i.a[0])
    if i.op == 'lit' and all(isnum(x) for x in i.a):
        return lit(*[idx(t, x) for x in i.a])
    if isbool(i):
        return sel(t, i)
    if t.op == 'zip':
        return zipseq(*[gather(x, i) for x in t.a])
    if i.op == 'arange' and i.a[2] is ONE:
        return slice_(t, i.a[0], i.a[1])

    def f(x):
        if x.op == 'arange' and x.a[0] is ZERO and x.a[2] is ONE:
            return i
        return mk('gather', x, i)
    return push(t, f)


def arange(lo, hi, step=ONE):
    return mk('arange', lo, hi, step)


@memo
def length(t):
    if t.op == 'call' and len(RETURNS.get(t.a[0], NOK)) > 2:
        return num(RETURNS[t.a[0]][2])
    o = t.op
    if o in ('lit', 'tuple', 'dict', 'set'):
        return num(len(t.a))
    if o == 'str':
        return num(len(t.a[0]))
    if o == 'cat':
        return add(*[length(x) for x in t.a])
    if o == 'sel':
        return count(t.a[1])
    if o == 'where':
        return count(t.a[0])
    if o == 'ite':
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if o in ('zip', 'sorted', 'argsort', 'cumsum', 'keys', 'vals', 'items', 'col', 'roll', 'interp'):
        return length(t.a[0])
    if o == 'map':
        return length(t.a[1])
    if o == 'gather':
        return length(t.a[1])
    if o == 'rep':
        return mul(length(t.a[0]), t.a[1]) if t.a[0].op == 'lit' else t.a[1]
    if o == 'arange' and t.a[2] is ONE:
        return sub(t.a[1], t.a[0])
    if o == 'slice' and t.a[3] is NONE:
        lo, hi = t.a[1], t.a[2]
        if (lo is NONE or _nn(lo)) and (hi is NONE or _ng(hi)):
            return add(length(t.a[0]), neg(lo) if lo is not NONE else ZERO, hi if hi is not NONE else ZERO)
    if o == 'slice' and t.a[1] is NONE and t.a[2] is NONE:
        return length(t.a[0])
    if o == 'hist':
        return sub(length(t.a[1]), ONE)
    if o == 'linspace':
        return t.a[2]
    if pointwise(t) and o not in ('attr', 'scat', 'fmt'):
        ls = []

        def go(x):
            if shape(x) == 's':
                return
            if pointwise(x) and x.op != 'attr':
                for c in children(x):
                    go(c)
            else:
                ls.append(length(x))
        go(t)
        ls = sorted(set(ls), key=lambda x: x.id)
        if len(ls) == 1:
            return ls[0]
        if ls:
            a = [x for x in ls]
            return a[0]
    return mk('len', t)


def count(m):
    if m is TRUE:
        return mk('count', m)
    if m is FALSE:
        return ZERO
    return mk('count', m)


@memo
def idx(t, i):
    o = t.op
    if i.op == 'ite':
        return ite(i.a[0], idx(t, i.a[1]), idx(t, i.a[2]))
    if o == 'ite' and shape(t.a[0]) != 'a':
        return ite(t.a[0], idx(t.a[1], i), idx(t.a[2], i))
    if o in ('lit', 'tuple') and isnum(i) and i.a[0].denominator == 1:
        n = int(i.a[0])
        if -len(t.a) <= n < len(t.a):
            return t.a[n]
        return mk('idxerr', t, i)
    if o == 'str' and isnum(i):
        n = int(i.a[0])
        if -len(t.a[0]) <= n < len(t.a[0]):
            return string(t.a[0][n])
    if o == 'call' and t.a[0] == 're.Match':
        if isnum(i) and 0 <= i.a[0] < len(t.a[1]):
            return t.a[1][int(i.a[0])]
        if i.op == 'str' and i.a[0] in dict(t.a[2]):
            return dict(t.a[2])[i.a[0]]
    if o == 'call' and t.a[0] in ('re.search', 're.match', 're.fullmatch') and i.op in ('str', 'num'):
        m = constmatch(t)
        if m is not NotImplemented and m is not None:
            try:
                r = m[i.a[0] if i.op == 'str' else int(i.a[0])]
            except IndexError:
                return mk('keyerr', t, i)
            return NONE if r is None else string(r)
    if o == 'dict':
        r = None
        if isconst(i):
            for k, v in t.a:
                if k is i or eq(k, i) is TRUE:
                    return v
            if all(isconst(k) for k, _ in t.a):
                return mk('keyerr', t, i)
        r = mk('keyerr', i)
        for k, v in reversed(t.a):
            r = ite(eq(i, k), v, r)
        return r
    if o == 'dictset':
        c = eq(i, t.a[1])
        return ite(c, t.a[2], idx(t.a[0], i))
    if o == 'cat' and isnum(i):
        n = int(i.a[0])
        if n >= 0 and t.a[0].op == 'lit' and n < len(t.a[0].a):
            return t.a[0].a[n]
        if n < 0 and t.a[-1].op == 'lit' and -n <= len(t.a[-1].a):
            return t.a[-1].a[n]
    if o == 'zip':
        return tup(*[idx(x, i) for x in t.a])
    if o == 'arange' and isnum(i) and i.a[0].denominator == 1 and all(isnum(x) and x.a[0].denominator == 1 for x in t.a) and t.a[2].a[0]:
        r = range(*[int(x.a[0]) for x in t.a])
        if -len(r) <= i.a[0] < len(r):
            return num(r[int(i.a[0])])
    if o == 'wheretuple' and isnum(i) and i.a[0] == 0:
        return where(t.a[0])
    if i.op == 'idx' and i.a[0].op == 'where':
        return idx(sel(t, i.a[0].a[0]), i.a[1])
    if i.op in ('where',) or isbool(i) or i.op in ('wheretuple',):
        return sel(t, i.a[0] if not isbool(i) else i)
    if o == 'vals' and i.op == 'el':
        pass
    # element of a mapping at an iterated key
    if i.op == 'el' and i.a[0].op == 'keys' and i.a[0].a[0] is t:
        return mk('el', mk('vals', t), i.a[1])
    if o == 'str':
        return mk('idx', t, i)
    # index variable of an enumeration
    b, c = _elidx(i)
    if b is not None:
        ar = b.a[0]
        lo, hi = add(ar.a[0], num(c)), add(ar.a[1], num(c))
        n = length(t)
        dh = sub(hi, n)
        if _nn(lo) and isnum(dh) and dh.a[0] <= 0:
            return el(slice_(t, NONE if lo is ZERO else lo, NONE if dh is ZERO else dh), b.a[1])
        if _nn(lo) and t.op != 'el':
            return el(slice_(t, NONE if lo is ZERO else lo, hi), b.a[1])
    if o in ('attr', 'sym', 'call', 'mcall') and not shape(t) == 's':
        return mk('idx', t, i)
    if kind(t) == 'str':
        return mk('idx', t, i)

    def f(x):
        if x is t:
            if x.op == 'slice' and isnum(i) and x.a[3] is NONE:
                n = i.a[0]
                if n >= 0 and (x.a[1] is NONE or _nn(x.a[1])):
                    return idx(x.a[0], add(i, x.a[1] if x.a[1] is not NONE else ZERO))
                if n < 0 and (x.a[2] is NONE or _ng(x.a[2])):
                    return idx(x.a[0], add(i, x.a[2] if x.a[2] is not NONE else ZERO))
            if x.op == 'slice' and isnum(i) and isnum(x.a[3]) and x.a[3].a[0] == -1 and x.a[1] is NONE and x.a[2] is NONE:
                return idx(x.a[0], sub(num(-1), i))
            if x.op == 'linspace' and isnum(i) and i.a[0] in (0, -1):
                return x.a[0] if i.a[0] == 0 else x.a[1]
            return mk('idx', x, i)
        return idx(x, i)
    if shape(t) == 's' or t.op in ('el', 'idx'):
        return mk('idx', t, i)
    return push(t, f)


def _elidx(i):
    """i == el(arange) + c"""
    if i.op == 'el' and i.a[0].op == 'arange' and i.a[0].a[2] is ONE:
        return i, 0
    if i.op == 'add' and len(i.a[1]) == 1 and i.a[1][0][1] == 1 and i.a[0].denominator == 1:
        b = i.a[1][0][0]
        if b.op == 'el' and b.a[0].op == 'arange' and b.a[0].a[2] is ONE:
            return b, i.a[0]
    return None, 0


@memo
def el(s, k):
    """current element of sequence s in iteration k"""
    if s.op == 'zip':
        return tup(*[el(x, k) for x in s.a])
    if s.op == 'rep' and s.a[0].op == 'lit' and len(s.a[0].a) == 1:
        return s.a[0].a[0]
    if s.op == 'items':
        return tup(el(mk('keys', s.a[0]), k), el(mk('vals', s.a[0]), k))

    def f(x):
        return mk('el', x, k)
    if s.op in ('add', 'mul', 'ln', 'bdd', 'ite', 'fmt') or (s.op == 'call' and s.a[0] in POINTCALL):
        return push(s, f)
    return f(s)


@memo
def sumof(t):
    if t.op in ('lit', 'tuple'):
        return add(*t.a) if t.a else ZERO
    if isbool(t):
        return count(t)
    if t.op == 'cat':
        return add(*[sumof(x) for x in t.a])
    if t.op == 'sel' and t.a[0] is ONE:
        return count(t.a[1])
    if t.op == 'ite' and isnum(t.a[1]) and isnum(t.a[2]) and shape(t.a[0]) != 's':
        if t.a[2] is ZERO:
            return scale(count(t.a[0]), t.a[1].a[0])
    if t.op == 'rep' and t.a[0].op == 'lit' and len(t.a[0].a) == 1:
        return mul(t.a[0].a[0], t.a[1])
    c, d = _poly(t)
    if t.op == 'add' or t.op == 'mul' or t.op == 'num':
        r = ZERO
        for m, k in d.items():
            sc, ar = {}, {}
            for b, e in _monodict(m).items():
                (sc if shape(b) == 's' and shape(e) == 's' else ar)[b] = e
            c1, m1 = _mono(sc)
            c2, m2 = _mono(ar)
            s = mk('sum', m2) if m2 is not None else mk('sum', ONE)
            if m2 is not None and m2.op not in ('mul', 'add') and m2 is not t:
                s = sumof(m2)
            r = add(r, scale(mul(m1 if m1 is not None else ONE, s), k * c1 * c2))
        if c:
            n = None
            for m in d:
                if shape(m) != 's':
                    n = length(m)
            r = add(r, mul(num(c), n if n is not None else mk('sum', ONE)))
        return r
    return mk('sum', t)


# ---------------------------------------------------------------- generic rebuild
def call(name, args=(), kw=()):
    return mk('call', name, tuple(args), tuple(sorted(kw)))


@memo
def attr(o, n):
    if o.op == 'ite':
        return ite(o.a[0], attr(o.a[1], n), attr(o.a[2], n))
    return mk('attr', o, n)


def _b_add(c, items):
    r = num(c)
    return add(r, *[scale(m, k) for m, k in items])


def _b_mul(items):
    return mul(*[power(b, e) for b, e in items])


def _b_bdd(a, hi, lo):
    c = a if isbool(a) else cond_atom(a)
    return bite(c, hi, lo)


def cond_atom(a):
    o = a.op
    if o in ('pos', 'zero', 'eq', 'truth', 'isnone', 'in', 'ltx'):
        return build(o, a.a)
    return atom(a)


BUILD = {
    'add': _b_add, 'mul': _b_mul, 'ln': ln, 'bdd': _b_bdd, 'ite': lambda c, a, b: ite(c, a, b), 'pos': lambda d: lt(ZERO, d),
    'zero': lambda d: eq(d, ZERO), 'eq': eq, 'truth': truth, 'isnone': isnone, 'in': isin, 'ltx': lt, 'scat': scat, 'fmt': fmt, 'join': join,
    'cat': cat, 'sel': sel, 'slice': slice_, 'gather': gather, 'idx': idx, 'el': el, 'len': length, 'count': count, 'sum': sumof, 'attr': attr,
    'where': where, 'zip': zipseq, 'tuple': tup, 'lit': lit,
}


def build(op, a):
    f = BUILD.get(op)
    return f(*a) if f else mk(op, *a)


def rewrite(t, f, memo=None):
    """bottom-up rewriting through the smart constructors; f returns a replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = f(x)
            if r is None:
                a2 = _map(x.a, go)
                r = x if all(_same(p, q) for p, q in zip(a2, x.a)) else build(x.op, a2)
            memo[x.id] = r
        return r
    return go(t)


def _same(p, q):
    if isinstance(p, tuple):
        return all(_same(a, b) for a, b in zip(p, q))
    return p is q or (not isinstance(p, T) and p == q)


def subst(t, mapping):
    m = {k.id: v for k, v in mapping.items()}
    return rewrite(t, lambda x: m.get(x.id))


def assume(t, a, val):
    """simplify t under the assumption that boolean atom a has truth value val"""
    v = TRUE if val else FALSE

    def f(x):
        if x.op == 'bdd' and x.a[0] is a:
            return assume(x.a[1] if val else x.a[2], a, val)
        return None
    return rewrite(t, f)


# ---------------------------------------------------------------- lifting
def depends(t, k):
    d = t.m.get('els')
    if d is None:
        d = set()
        if t.op == 'el':
            d.add(t.a[1])
        for c in children(t):
            d |= _els(c)
        t.m['els'] = d
    return k in d


def _els(t):
    d = t.m.get('els')
    if d is None:
        depends(t, -1)
        d = t.m['els']
    return d


class NoLift(Exception):
    pass


def lift(body, k, seqlen=None):
    """the sequence of values of body over iteration k, element-wise; raises NoLift"""
    bases = {}
    for x in subterms(body):
        if x.op == 'el' and x.a[1] == k:
            bases[x.a[0]] = None
    trim = _align(list(bases))

    def go(x):
        if not depends(x, k):
            return x
        if x.op == 'el' and x.a[1] == k:
            return trim.get(x.a[0], x.a[0])
        if x.op == 'idx':
            s, i = x.a
            if depends(s, k) and not depends(i, k):
                return col(go(s), i)
            if not depends(s, k):
                return gather(s, go(i))
            raise NoLift
        if x.op == 'tuple':
            return zipseq(*[go(y) if depends(y, k) else rep(lit(y), seqlen) for y in x.a])
        if pointwise(x) or x.op in ('call', 'mcall', 'el', 'dict', 'new'):
            return build(x.op, _map(x.a, go))
        raise NoLift
    return go(body)


def rep(x, n):
    if x.op == 'lit' and n is not None and isnum(n) and 0 <= n.a[0] * max(len(x.a), 1) <= 64:
        return lit(*(x.a * int(n.a[0])))
    return mk('rep', x, n if n is not None else NONE)


def col(s, i):
    if s.op == 'zip' and isnum(i):
        return s.a[int(i.a[0])]
    return mk('col', s, i)


def _align(bases):
    """zip stops at the shortest: X zipped with X[1:] becomes X[:-1]"""
    info = {}
    for b in bases:
        if b.op == 'slice' and b.a[3] is NONE and (b.a[1] is NONE or _nn(b.a[1])) and (b.a[2] is NONE or _ng(b.a[2])):
            root, lo, hi = b.a[0], int(b.a[1].a[0]) if b.a[1] is not NONE else 0, int(b.a[2].a[0]) if b.a[2] is not NONE else 0
        else:
            root, lo, hi = b, 0, 0
        info.setdefault(root, []).append((b, lo, hi))
    out = {}
    for root, l in info.items():
        cut = max(lo - hi for _, lo, hi in l)
        for b, lo, hi in l:
            h = lo - cut
            out[b] = slice_(root, NONE if not lo else num(lo), NONE if not h else num(h))
    return out


def abstract(body, k):
    """bind iteration k in body with a bound variable (for non-element-wise bodies)"""
    depth = 1 + max([x.a[0] for x in subterms(body) if x.op == 'bv'], default=-1)
    names = {}

    def f(x):
        if x.op == 'el' and x.a[1] == k:
            return mk('bv', depth, x.a[0])
        return None
    return rewrite(body, f)


def comp(body, k, seq, mask=TRUE):
    """[body for el in seq if mask]"""
    n = length(seq)
    if mask is not TRUE:
        try:
            m = lift(mask, k, n)
        except NoLift:
            m = mk('bdd', mk('maskmap', abstract(mask, k), seq), TRUE, FALSE)
    else:
        m = TRUE
    try:
        if not depends(body, k):
            if m is TRUE:
                return rep(lit(body), n)
            return mk('rep', lit(body), count(m)) if not isnum(body) or True else None
        b = lift(body, k, n)
    except NoLift:
        b = mk('map', abstract(body, k), seq)
    return sel(b, m)


# ---------------------------------------------------------------- printing
_shown = [0]


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d == 0:
        _shown[0] = 0
    _shown[0] += 1
    if d > 40 or _shown[0] > 400 and d:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'num':
        v = a[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if o == 'str':
        return repr(a[0])
    if o in ('true', 'false', 'none', 'inf', 'nan'):
        return {'true': 'True', 'false': 'False', 'none': 'None'}.get(o, o)
    if o == 'sym':
        return a[0]
    if o == 'const':
        return a[0]
    if o == 'add':
        ps = [(s(m) if k == 1 else f'-{s(m)}' if k == -1 else f'{s(num(k))}*{s(m)}') for m, k in a[1]]
        if a[0]:
            ps.append(s(num(a[0])))
        return '(' + ' + '.join(ps) + ')'
    if o == 'mul':
        return '*'.join(s(b) if e is ONE else f'{s(b)}^{s(e)}' for b, e in a[0])
    if o == 'bdd':
        if a[1] is TRUE and a[2] is FALSE:
            return _at(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return f'not {_at(a[0], d)}'
        if a[2] is FALSE:
            return f'({_at(a[0], d)} and {s(a[1])})'
        if a[1] is TRUE:
            return f'({_at(a[0], d)} or {s(a[2])})'
        if a[1] is FALSE:
            return f'(not {_at(a[0], d)} and {s(a[2])})'
        return f'({s(a[1])} if {_at(a[0], d)} else {s(a[2])})'
    if o == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'idx':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'sel':
        return f'{s(a[0])}[where {s(a[1])}]'
    if o == 'slice':
        f = lambda x: '' if x is NONE else s(x)
        return f'{s(a[0])}[{f(a[1])}:{f(a[2])}' + (f':{s(a[3])}' if a[3] is not NONE else '') + ']'
    if o in ('lit',):
        return '[' + ', '.join(map(s, a)) + ']'
    if o == 'tuple':
        return '(' + ', '.join(map(s, a)) + ')'
    if o == 'dict':
        return '{' + ', '.join(f'{s(k)}: {s(v)}' for k, v in a) + '}'
    if o in ('call', 'mcall', 'new'):
        nm = a[0]
        rest = [s(x) for x in a[1]]
        kw = [f'{k}={s(v)}' for k, v in a[2]] if len(a) > 2 else []
        return f'{nm}(' + ', '.join(rest + kw) + ')'
    if o == 'el':
        return f'each({s(a[0])})'

    def g(x):
        return s(x) if isinstance(x, T) else '(' + ', '.join(g(e) for e in x) + ')' if isinstance(x, tuple) else str(x)
    return f'{o}(' + ', '.join(g(x) for x in a) + ')'


def _at(x, d):
    s = lambda y: show(y, d + 1)
    if x.op == 'pos':
        return f'0<{s(x.a[0])}'
    if x.op == 'zero':
        return f'{s(x.a[0])}==0'
    if x.op == 'eq':
        return f'{s(x.a[0])}=={s(x.a[1])}'
    if x.op == 'in':
        return f'{s(x.a[0])} in {s(x.a[1])}'
    return s(x)


# ---------------------------------------------------------------- decision-diagram helpers
def bdd_atoms(b, seen=None):
    out, st, seen = [], [b], set()
    while st:
        x = st.pop()
        if x.op == 'bdd' and x.id not in seen:
            seen.add(x.id)
            if x.a[0] not in out:
                out.append(x.a[0])
            st += [x.a[1], x.a[2]]
    return out


def cofactor(b, a, v):
    if b.op != 'bdd':
        return b
    if b.a[0] is a:
        return b.a[1] if v else b.a[2]
    if b.a[0].id > a.id:
        return b
    return bite(atom(b.a[0]), cofactor(b.a[1], a, v), cofactor(b.a[2], a, v))


def implied(full, c):
    """c simplified by the literals that full implies"""
    r = c
    for a in bdd_atoms(c):
        if band(full, atom(a)) is FALSE:
            r = cofactor(r, a, False)
        elif band(full, bnot(atom(a))) is FALSE:
            r = cofactor(r, a, True)
    return r


def cofactors(e, p):
    """positive and negative cofactor of e with respect to the truth of p"""
    t = truth(p)
    if t.op != 'bdd':
        return e, e
    return cofactor(e, t.a[0], True), cofactor(e, t.a[0], False)


def skel(t, d=0):
    """structural key independent of carry numbering"""
    k = t.m.get('skel')
    if k is None:
        if t.op in ('carry', 'acc', 'el'):
            k = t.op
        else:
            k = t.op + '(' + ','.join(sorted(skel(c) for c in children(t))[:12])[:200] + ')' if t.op in ('add', 'mul', 'bdd') else \
                t.op + '(' + ','.join((skel(c) if isinstance(c, T) else repr(c)) for c in children(t))[:200] + ')'
            if t.op in ('num', 'str', 'sym', 'attr', 'call'):
                k += repr(t.a[0]) if not isinstance(t.a[0], T) else str(t.a[1])
        t.m['skel'] = k
    return k


def ordered(t, pred):
    """subterms satisfying pred in a numbering-independent traversal order"""
    out, seen = [], set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if pred(x):
            out.append(x)
            return
        cs = list(children(x))
        if x.op in ('add', 'mul', 'bdd'):
            cs.sort(key=skel)
        for c in cs:
            go(c)
    go(t)
    return out
