"""Random interpretation of value terms (after Gulwani and Necula, POPL 2003/2004).

Two value-flow terms that are not syntactically identical after normalisation are compared under random
interpretations: every input symbol and every uninterpreted function gets a random meaning, interpreted
operators (arithmetic, selection, folds) keep theirs.  Terms that agree under all drawn interpretations are
taken as equal; a disagreement is a witness that the two value flows differ.  Only terms of the analysis are
interpreted here: no statement of the analysed package is executed."""
import decimal, hashlib, math, random, re, builtins
from fractions import Fraction
from . import terms as tm
from .terms import T


class ERR:
    def __repr__(self):
        return 'ERR'


ERR = ERR()


class ANY_:
    def __repr__(self):
        return 'ANY'


ANY = ANY_()


class U:
    """value of an uninterpreted function"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'U' + self.key[:8]


class Tup(tuple):
    pass


class Dct:
    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.set(k, v)

    def set(self, k, v):
        self.d[H(k)] = (k, v)

    def get(self, k):
        return self.d.get(H(k))

    def copy(self):
        n = Dct()
        n.d = dict(self.d)
        return n


def hs(s):
    return hashlib.blake2b(s.encode(), digest_size=10).hexdigest()


def sig(x):
    if x != x:
        return 'nan'
    if x in (math.inf, -math.inf):
        return str(x)
    if abs(x) < 1e-9:
        return '0'
    return '%.8e' % x


def H(v):
    """canonical key of a value"""
    if isinstance(v, bool):
        return 'n' + sig(float(v))
    if isinstance(v, (int, float)):
        return 'n' + sig(float(v))
    if isinstance(v, str):
        return 's' + repr(v)
    if v is None:
        return 'None'
    if isinstance(v, U):
        return 'u' + v.key
    if isinstance(v, (list, Tup)):
        return '[' + ','.join(map(H, v)) + ']'
    if isinstance(v, Dct):
        return '{' + ','.join(sorted(k + ':' + H(x[1]) for k, x in v.d.items())) + '}'
    return repr(v)


CTX = decimal.Context(prec=60, Emax=10**6, Emin=-10**6)
D_E, D_PI = CTX.exp(decimal.Decimal(1)), decimal.Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')


def dec(x):
    return x.d if type(x) is HP else decimal.Decimal(x)


def hp(d):
    try:
        f = float(d)
    except OverflowError:
        return math.inf
    if f != f or abs(f) == math.inf:
        return f
    r = HP(f)
    r.d = d
    return r


def hop(name):
    def f(x, y):
        if isinstance(y, bool) or not isinstance(y, (int, float)):
            return NotImplemented
        fy = float.__float__(y) if isinstance(y, float) else y
        if isinstance(fy, float) and (fy != fy or abs(fy) == math.inf):
            return getattr(float(x), '__' + name + '__')(fy)
        return hp(getattr(CTX, {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide'}[name])(dec(x), dec(y)))

    def g(x, y):
        if isinstance(y, bool) or not isinstance(y, (int, float)):
            return NotImplemented
        if isinstance(y, float) and (y != y or abs(y) == math.inf):
            return getattr(float(y), '__' + name + '__')(float(x))
        return hp(getattr(CTX, {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide'}[name])(dec(y), dec(x)))
    return f, g


class HP(float):
    """a float that carries a 60-digit value"""
    __slots__ = ('d',)
    __add__, __radd__ = hop('add')
    __sub__, __rsub__ = hop('sub')
    __mul__, __rmul__ = hop('mul')
    __truediv__, __rtruediv__ = hop('truediv')

    def __neg__(self):
        return hp(-self.d)

    def __abs__(self):
        return hp(abs(self.d))


class Ev(Exception):
    pass


class Interpretation:
    """one random interpretation; tie: canonical differences forced to zero"""

    def __init__(self, seed, pools=None, mode='real', n=5, ties=(), lens=None, kinds=None):
        self.seed, self.mode, self.n = seed, mode, n
        self.pools = pools if pools is not None else {}
        self.seen = {}              # U key -> set of constants it was compared with
        self.ties = ties
        self.diffs = {}             # canonical difference keys met (term-level)
        self.memo = {}
        self.env = {}
        self.fuel = 400000
        self.lens = lens or {}
        self.hp = False
        self.watch = ()             # thresholds of the code alone

    # ---------------------------------------------------------- randomness
    index = False

    def rnd(self, key):
        return random.Random(hs(f'{self.seed}|{key}'))

    def number(self, key):
        r = self.rnd('n' + key)
        p = self.pools.get(key)
        if p:
            c = sorted([x for x in p if isinstance(x, (int, float)) and not isinstance(x, bool)])
            if c and r.random() < .45:
                return float(r.choice(c))
        if self.mode == 'grid':
            return float(r.choice([0, 1, 2, 3, 1, 2, 4, -1]))
        if self.mode == 'wide':
            return r.choice([-1, 1, 1]) * 10 ** r.uniform(-2, 3)
        if self.mode == 'near':         # quantities close to one another: thresholds matter
            return r.uniform(1, 1.5)
        return r.uniform(.2, 4)

    def positive(self, key):
        """symbols named p_... stand for positive quantities (diameters, areas, densities)"""
        v = abs(self.number(key))
        return v if v > 0 else .5

    def named(self, name, key):
        if name.startswith('p_'):
            return self.positive(key)
        if name.startswith('z_'):       # counts: zero or positive
            return 0. if self.rnd('z' + key).random() < .3 else self.positive(key)
        return self.number(key)

    def resolve(self, u):
        """a meaning for an uninterpreted value that is compared with constants"""
        p = self.pools.get(u.key)
        if not p:
            return u
        c = sorted(p, key=repr)
        r = self.rnd('r' + u.key)
        i = r.randrange(len(c) + 1)
        if i == len(c):
            return u
        return c[i]

    def mku(self, *parts):
        return self.resolve(U(hs('|'.join(p if isinstance(p, str) else H(p) for p in parts))))

    def note(self, u, c):
        if isinstance(u, U):
            self.seen.setdefault(u.key, set()).add(c)

    def num(self, v):
        if type(v) is HP:
            return v
        if isinstance(v, (bool, int, float)):
            return hp(decimal.Decimal(float(v))) if self.hp and v == v and abs(v) != math.inf else float(v)
        if isinstance(v, U):
            return self.num(self.number(v.key))
        if v is ERR or v is ANY:
            return v
        if isinstance(v, str):
            return ERR
        return ERR

    def seq(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Dct):
            return [k for k, _ in v.d.values()]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, U):
            m = self.lens.get(v.key, None) or self.n
            return [self.mku('item', v, str(i)) for i in range(m)]
        return ERR

    def truth(self, v):
        if isinstance(v, U):
            return self.rnd('t' + v.key).random() < .6
        if v is ERR or v is ANY:
            return v
        if isinstance(v, Dct):
            return bool(v.d)
        return bool(v)

    # ---------------------------------------------------------- evaluation
    def ev(self, t):
        k = t.id
        if not self.env:
            r = self.memo.get(k, self)
            if r is not self:
                return r
        elif not _open(t):
            r = self.memo.get(k, self)
            if r is not self:
                return r
        self.fuel -= 1
        if self.fuel < 0:
            raise Ev('fuel')
        f = getattr(self, 'o_' + t.op, None)
        try:
            r = f(*t.a) if f is not None else self.other(t)
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, AttributeError):
            r = ERR
        if r is ERR and t.op in ('add', 'mul', 'pow', 'pos', 'zero', 'idx', 'slice') and any(x.op == 'none' or self.memo.get(x.id, self) is None for x in self.children(t)):
            self.index = True       # arithmetic with None, or a part of it
        if isinstance(r, int) and not isinstance(r, bool):
            r = float(r)
        if not self.env or not _open(t):
            self.memo[k] = r
        return r

    def children(self, t):
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                st.extend(x)

    def gen(self, x):
        return self.ev(x) if isinstance(x, T) else Tup(self.gen(e) for e in x) if isinstance(x, tuple) else x if isinstance(x, (str, float, int)) else str(x)

    def other(self, t):
        vs = [self.gen(x) for x in t.a]
        if any(v is ERR for v in vs):
            return ERR
        return self.mku(t.op, *[v if not isinstance(v, str) else v for v in vs])

    def bc(self, f, *vs):
        """broadcast f over lists"""
        if any(v is ERR for v in vs):
            return ERR
        ns = [len(v) for v in vs if isinstance(v, list)]
        if not ns:
            return f(*vs)
        n = max(ns)
        if any(x != n for x in ns):
            ns1 = [x for x in ns if x != 1]
            if len(set(ns1)) > 1:
                return ERR
            vs = [v * n if isinstance(v, list) and len(v) == 1 and n != 1 else v for v in vs]
            n = ns1[0]
        return [self.bc(f, *[v[i] if isinstance(v, list) else v for v in vs]) for i in range(n)]

    def o_num(self, v):
        return hp(CTX.divide(decimal.Decimal(v.numerator), decimal.Decimal(v.denominator))) if self.hp else float(v)

    def o_str(self, s):
        return s

    def o_true(self):
        return True

    def o_false(self):
        return False

    def o_none(self):
        return None

    def o_inf(self):
        return math.inf

    def o_nan(self):
        return math.nan

    def o_absent(self):
        return ERR

    def o_idxerr(self, *a):
        self.index = True
        return ERR

    o_keyerr = o_indexerr = o_stopiter = o_idxerr

    def o_const(self, n):
        return (hp(D_E) if n == 'e' else hp(D_PI)) if self.hp else math.e if n == 'e' else math.pi

    def o_sym(self, name, shape, kind):
        k = hs('sym' + name)
        if shape == 'a' or kind == 'seq':
            n = self.lens.get(name, self.n)
            if kind == 'str':
                return [self.strval(k + str(i)) for i in range(n)]
            if kind == 'num':
                return [self.named(name, k + str(i)) for i in range(n)]
            return [self.mku('item', U(k), str(i)) for i in range(n)]
        if kind == 'num':
            return self.named(name, k)
        if kind == 'str':
            return self.strval(k)
        if kind == 'bool':
            return self.rnd('b' + k).random() < .5
        return self.resolve(U(k))

    def strval(self, k):
        p = [x for x in self.pools.get(k, ()) if isinstance(x, str)]
        r = self.rnd('s' + k)
        if p and r.random() < .8:
            return r.choice(sorted(p))
        return S(r.choice(['ab', 'x y', 'Q', '-z', 'k1', 'moon', '']) + k[:3], k)

    def o_carry(self, k, i, sh, kd):
        return ANY

    def o_ref(self, *a):
        return ANY

    def o_add(self, c, items):
        vs = [self.ev(m) for m, _ in items]
        ks = [self.o_num(k) for _, k in items]
        c = self.o_num(c)

        def f(*xs):
            s = c
            for x, k in zip(xs, ks):
                x = self.num(x)
                if x is ERR or x is ANY:
                    return x
                s += k * x
            return s
        return self.bc(f, *vs)

    def o_mul(self, items):
        vs = []
        for b, e in items:
            vs += [self.ev(b), self.ev(e)]

        def f(*xs):
            r = 1.
            for i in range(0, len(xs), 2):
                b, e = self.num(xs[i]), self.num(xs[i + 1])
                if b is ERR or e is ERR or b is ANY or e is ANY:
                    return ERR if b is ERR or e is ERR else ANY
                r *= pw(b, e)
            return r
        return self.bc(f, *vs)

    def m1(self, v, f):
        def g(x):
            x = self.num(x)
            if x is ERR or x is ANY:
                return x
            try:
                return f(x)
            except (ValueError, OverflowError):
                return math.nan
        return self.bc(g, v)

    def o_ln(self, x):
        return self.m1(self.ev(x), lambda v: hp(CTX.ln(v.d)) if type(v) is HP and v > 0 else math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan))

    def o_sin(self, x):
        return self.m1(self.ev(x), math.sin)

    def o_cos(self, x):
        return self.m1(self.ev(x), math.cos)

    # booleans
    def o_bdd(self, a, hi, lo):
        v = self.ev(a)
        if v is ERR or v is ANY:
            return v
        if isinstance(v, list):
            h, l = self.ev(hi), self.ev(lo)
            return self.bc(lambda c, x, y: (lambda t: x if t is True else y if t is False else t)(self.truth(c)), v, h, l)
        t = self.truth(v)
        if t is ERR or t is ANY:
            return t
        return self.ev(hi) if t else self.ev(lo)

    def o_ite(self, c, a, b):
        v = self.ev(c)
        if v is ERR or v is ANY:
            return v
        if isinstance(v, list):
            return self.bc(lambda c, x, y: x if self.truth(c) else y, v, self.ev(a), self.ev(b))
        t = self.truth(v)
        return self.ev(a) if t is True else self.ev(b) if t is False else t

    def canon(self, d):
        c, m = tm._poly(d)
        if m and m[min(m, key=lambda x: x.id)] < 0:
            return tm.neg(d), -1
        return d, 1

    def sgn(self, d):
        key, s = self.canon(d)
        key = tm._atomsum(key)[1]
        self.diffs[key.id] = key
        if key.id in self.ties:
            v = self.ev(d)
            return [0] * len(v) if isinstance(v, list) else 0
        v = self.ev(d)

        def f(x):
            y = self.num(x)
            if y is ERR or y is ANY:
                return y
            if y != y:
                return math.nan
            return 0 if abs(y) < 1e-9 else (1 if y > 0 else -1)
        return self.bc(f, v)

    def keys(self, x):
        """where the numbers of an atom come from"""
        if x.op in ('el', 'idx') and x.a[0].op in ('sym', 'attr'):
            x = x.a[0]
        if x.op == 'sym' and x.a[2] == 'num':
            k = hs('sym' + x.a[0])
            return [k] if x.a[1] != 'a' else [k + str(i) for i in range(self.lens.get(x.a[0], self.n))]
        if x.op == 'attr':
            v = self.ev(x.a[0])
            if isinstance(v, U):
                k = self.mku('attr', v, x.a[1]).key
                return [k] + [k + str(i) for i in range(self.n)]
        v = self.ev(x)
        return [y.key for y in (v if isinstance(v, list) else [v]) if isinstance(y, U)]

    def watched(self, d):
        c, m = tm._poly(d)
        if len(m) != 1:
            return
        (x, k), = m.items()
        t = float(-c / k)
        if t not in self.watch:
            return
        if x.op == 'abs' or x.op == 'call' and x.a[0] in ('abs', 'numpy.abs', 'fabs'):
            c, m = tm._poly(x.a[0] if x.op == 'abs' else x.a[1][0])
            if len(m) != 1:
                return
            (x, k), = m.items()
            t = float((t - float(c)) / float(k))
        elif x.op == 'ln':
            c, m = tm._poly(x.a[0])
            if len(m) != 1 or abs(t) > 30:
                return
            (x, k), = m.items()
            t = float((math.exp(t) - float(c)) / float(k))
        for q in self.keys(x):
            self.seen.setdefault(q, set()).update((t, t + abs(t) * .003 + .001, t - abs(t) * .003 - .001, t + abs(t) * 1e-5 + 1e-6, t - abs(t) * 1e-5 - 1e-6))

    def o_pos(self, d):
        if self.watch:
            self.watched(d)
        return self.bc(lambda x: x if x is ERR or x is ANY else x > 0, self.sgn(d))

    def o_zero(self, d):
        # remember the constants that would make an uninterpreted operand hit zero
        if self.watch:
            self.watched(d)
        c, m = tm._poly(d)
        if len(m) == 1:
            (x, k), = m.items()
            v = self.ev(x)
            if isinstance(v, U):
                self.note(v, float(-c / k))
            if x.op == 'sym' and x.a[2] == 'num' and x.a[1] != 'a':
                self.seen.setdefault(hs('sym' + x.a[0]), set()).add(float(-c / k))
        return self.bc(lambda x: x if x is ERR or x is ANY else x == 0, self.sgn(d))

    def equal(self, a, b):
        if a is ERR or b is ERR:
            return ERR
        if a is ANY or b is ANY:
            return ANY
        for x, y in ((a, b), (b, a)):
            if isinstance(x, U) and not isinstance(y, U) and (y is None or isinstance(y, (str, float, bool))):
                self.note(x, y)
            if isinstance(x, S) and isinstance(y, str) and not isinstance(y, S):
                self.seen.setdefault(x.key, set()).add(y)
        return same(a, b)

    def o_eq(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if a.op == 'sym' and a.a[2] == 'str' and isinstance(y, str):
            self.seen.setdefault(hs('sym' + a.a[0]), set()).add(str(y))
        if b.op == 'sym' and b.a[2] == 'str' and isinstance(x, str):
            self.seen.setdefault(hs('sym' + b.a[0]), set()).add(str(x))
        if isinstance(x, list) != isinstance(y, list) and (tm.shape(a) == 'a' or tm.shape(b) == 'a'):
            return self.bc(self.equal, x, y)
        return self.equal(x, y)

    def o_isnone(self, x):
        v = self.ev(x)
        if v is ERR or v is ANY:
            return v
        self.note(v, None)
        return v is None

    def o_truth(self, x):
        v = self.ev(x)
        if isinstance(v, list):
            return self.bc(self.truth, v) if tm.shape(x) == 'a' else bool(v)
        return self.truth(v)

    def o_ltx(self, a, b):
        def f(x, y):
            if x is ERR or y is ERR:
                return ERR
            if isinstance(x, str) and isinstance(y, str):
                return x < y
            if isinstance(x, str) or isinstance(y, str):
                return self.truth(self.mku('ltx', x, y))
            p, q = self.num(x), self.num(y)
            if p is ERR or q is ERR:
                return ERR
            return p < q - 1e-9
        return self.bc(f, self.ev(a), self.ev(b))

    def o_in(self, x, c):
        a, b = self.ev(x), self.ev(c)
        if a is ERR or b is ERR or a is ANY or b is ANY:
            return ERR if a is ERR or b is ERR else ANY
        if isinstance(b, str):
            return a in b if isinstance(a, str) else self.truth(self.mku('in', a, b))
        if isinstance(b, list) or isinstance(b, Tup):
            return any(self.equal(a, y) is True for y in b)
        if isinstance(b, Dct):
            return b.get(a) is not None
        return self.truth(self.mku('in', a, b))

    # strings
    def tostr(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, float):
            return str(int(v)) if v == int(v) and abs(v) < 1e15 else '%.10g' % v if v == v and abs(v) != math.inf else str(v)
        if v is ERR or v is ANY:
            return v
        return '<' + hs(H(v))[:8] + '>'

    def o_scat(self, *ps):
        vs = [self.ev(p) for p in ps]

        def f(*xs):
            out = [self.tostr(x) for x in xs]
            if any(x is ERR for x in out):
                return ERR
            if any(x is ANY for x in out):
                return ANY
            return ''.join(out)
        return self.bc(f, *vs)

    def o_fmt(self, x, spec):
        s = self.ev(spec)

        def f(v):
            if v is ERR or v is ANY:
                return v
            if isinstance(v, U):
                if s == '':
                    return '<' + v.key[:8] + '>'
                v = self.number(v.key)
            if s == '':
                return self.tostr(v)
            try:
                if isinstance(v, float):
                    if isinstance(s, str) and s.endswith('d'):
                        return format(int(v), s)
                    if v == 0:
                        v = 0.
                    return format(float('%.11g' % v), s)
                if isinstance(v, str):
                    return format(str(v), s)
            except ValueError:
                pass
            return '<' + hs(H(v) + H(s))[:8] + '>'
        return self.bc(f, self.ev(x))

    def o_strrep(self, s, k):
        a, b = self.ev(s), self.ev(k)
        if a is ERR or b is ERR:
            return ERR
        b = self.ix(b)
        return self.tostr(a) * b if abs(b) < 10000 else ERR

    def o_join(self, sep, s):
        a, b = self.ev(sep), self.seq(self.ev(s))
        if b is ERR or a is ERR:
            return ERR
        xs = [self.tostr(x) for x in b]
        if any(x is ERR or x is ANY for x in xs) or not isinstance(a, str):
            return ERR
        return a.join(xs)

    # sequences
    def o_lit(self, *xs):
        return [self.ev(x) for x in xs]

    def o_tuple(self, *xs):
        return Tup(self.ev(x) for x in xs)

    def o_cat(self, *ps):
        out = []
        for p in ps:
            v = self.seq(self.ev(p))
            if v is ERR:
                return ERR
            out += v
        return out

    def o_zip(self, *ss):
        vs = [self.seq(self.ev(s)) for s in ss if s.op != 'count_from']
        if any(v is ERR for v in vs):
            return ERR
        n = min(len(v) for v in vs)
        it = iter(vs)
        cols = []
        for s in ss:
            if s.op == 'count_from':
                b = self.num(self.ev(s.a[0]))
                cols.append([b + i for i in range(n)])
            else:
                cols.append(next(it))
        return [Tup(c[i] for c in cols) for i in range(n)]

    def o_rep(self, x, n):
        v = self.ev(x)
        k = self.num(self.ev(n))
        if k is ERR or k != int(k) or k > 200:
            return ERR
        return (v if isinstance(v, list) else [v]) * int(k)

    def o_arange(self, lo, hi, step=tm.ONE):
        a, b, c = [self.num(self.ev(x)) for x in (lo, hi, step)]
        n = math.ceil((b - a) / c - 1e-9)
        if n > 2000:
            return ERR
        return [a + i * c for i in range(max(n, 0))]

    def o_linspace(self, a, b, n):
        x, y, n_ = self.ev(a), self.ev(b), self.num(self.ev(n))
        x, y = self.num(x), self.num(y)
        m = int(n_)
        m = m if m <= 128 else 7 + m % 3          # long grids are thinned consistently
        return [x + (y - x) * i / max(m - 1, 1) for i in range(m)]

    def o_sel(self, t, m):
        v, k = self.ev(t), self.ev(m)
        if v is ERR or k is ERR:
            return ERR
        if not isinstance(k, list):
            if isinstance(k, bool):
                return (v if isinstance(v, list) else [v]) if k else []
            return ERR
        if not isinstance(v, list):
            if isinstance(v, U):
                v = [self.mku('item', v, str(i)) for i in range(len(k))]
            else:
                v = [v] * len(k)
        if len(v) < len(k):
            return ERR
        return [x for x, c in zip(v, k) if self.truth(c) is True]      # a shorter mask stands for the indices it selects

    def o_where(self, m):
        k = self.ev(m)
        if not isinstance(k, list):
            return ERR
        return [float(i) for i, c in enumerate(k) if self.truth(c) is True]

    def o_wheretuple(self, m):
        return Tup([self.o_where(m)])

    def ix(self, v):
        x = self.num(v)
        if x is ERR or x is ANY or x != int(x):
            raise IndexError
        return int(x)

    def o_slice(self, t, lo, hi, step):
        v = self.ev(t)
        f = lambda x: None if x is tm.NONE else self.ev(x)
        l, h, s = f(lo), f(hi), f(step)
        l, h, s = [None if x is None else self.ix(x) for x in (l, h, s)]
        if isinstance(v, str):
            return v[l:h:s]
        v = self.seq(v)
        return v[l:h:s]

    def o_gather(self, t, i):
        v, k = self.ev(t), self.ev(i)
        v = self.seq(v)
        if v is ERR or k is ERR:
            return ERR
        if isinstance(k, Tup) and len(k) == 1:
            k = k[0]
        if not isinstance(k, list):
            return self.item(v, k)
        return [self.item(v, x) for x in k]

    def item(self, v, k):
        if isinstance(v, Dct):
            r = v.get(k)
            return r[1] if r is not None else ERR
        if v is ERR or k is ERR:
            return ERR
        if isinstance(v, U):
            return self.mku('item', v, H(k)[1:].split('.')[0] if False else ikey(k))
        if isinstance(v, (list, tuple, str)):
            if isinstance(k, Tup) and len(k) == 1 and isinstance(k[0], list):
                k = k[0]
            if isinstance(k, list):
                if k and isinstance(k[0], bool):
                    return [x for x, c in zip(v, k) if c]
                return [self.item(v, x) for x in k]
            if isinstance(k, Tup):
                r = v
                for x in k:
                    r = self.item(r, x)
                return r
            i = self.ix(k)
            if isinstance(i, int) and not -len(v) <= i < len(v):
                self.index = True
            return v[i]
        if isinstance(v, Mat):
            return v.group(k if isinstance(k, str) else self.ix(k))
        return ERR

    def o_idx(self, t, i):
        v, k = self.ev(t), self.ev(i)
        if isinstance(v, U) and isinstance(k, list):
            return [self.item(v, x) for x in k]
        return self.item(v, k)

    def o_col(self, s, i):
        v = self.seq(self.ev(s))
        k = self.ev(i)
        return [self.item(x, k) for x in v]

    def o_unzip(self, s, i):
        return self.o_col(s, i)

    def o_sum(self, s):
        v = self.seq(self.ev(s))
        if v is ERR:
            return ERR
        return self.fsum(v)

    def fsum(self, v):
        t = 0.
        for x in v:
            if isinstance(x, list):
                x = self.fsum(x)
            x = self.num(x)
            if x is ERR or x is ANY:
                return x
            t += x
        return t

    def o_len(self, s):
        v = self.ev(s)
        if isinstance(v, str):
            return float(len(v))
        v = self.seq(v)
        return ERR if v is ERR else float(len(v))

    def o_count(self, m):
        v = self.ev(m)
        if isinstance(v, list):
            return float(sum(1 for x in v if self.truth(x) is True))
        if v is ERR or v is ANY:
            return v
        return self.mku('count', v)

    def nums(self, s):
        v = self.seq(self.ev(s))
        if v is ERR:
            raise ValueError
        out = []
        for x in v:
            y = self.num(x)
            if y is ERR or y is ANY:
                raise ValueError
            out.append(y)
        return out

    def o_min(self, s):
        return min(self.nums(s))

    def o_max(self, s):
        return max(self.nums(s))

    def o_std(self, s, ddof):
        v = self.nums(s)
        m = sum(v) / len(v)
        return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - self.num(self.ev(ddof))))

    def o_prod(self, s):
        r = 1.
        for x in self.nums(s):
            r *= x
        return r

    def o_cumsum(self, s):
        t, out = 0., []
        for x in self.nums(s):
            t += x
            out.append(t)
        return out

    def o_argsort(self, s, rev=tm.FALSE):
        v = self.seq(self.ev(s))
        if v is ERR:
            return ERR
        r = rev is tm.TRUE or (isinstance(rev, T) and self.ev(rev) is True)
        key = lambda i: self.skey(v[i])
        return [float(i) for i in sorted(range(len(v)), key=key, reverse=r)]

    def skey(self, x):
        if isinstance(x, (Tup, list)):
            return (2, tuple(self.skey(e) for e in x))
        if isinstance(x, str):
            return (1, str(x))
        y = self.num(x)
        if y is ERR or y is ANY:
            raise ValueError
        return (0, round(y, 9))

    def o_roll(self, s, k):
        v = self.seq(self.ev(s))
        n = self.ix(self.ev(k)) % len(v)
        return v[-n:] + v[:-n] if n else v

    def o_put(self, s, i, v):
        a = list(self.seq(self.ev(s)))
        if i.op == 'slc':
            f = lambda x: None if x is tm.NONE else self.ix(self.ev(x))
            l, h, st = [f(x) for x in i.a]
            w = self.ev(v)
            r = range(*slice(l, h, st).indices(len(a)))
            for n, j in enumerate(r):
                a[j] = w[n] if isinstance(w, list) else w
            return a
        k, w = self.ev(i), self.ev(v)
        if isinstance(k, list):
            if k and isinstance(k[0], bool):
                k = [j for j, c in enumerate(k) if c]
            for n, j in enumerate(k):
                a[self.ix(j)] = w[n] if isinstance(w, list) else w
            return a
        if isinstance(k, Tup):
            return self.mku('put', a, k, w)
        a[self.ix(k)] = w
        return a

    def o_delidx(self, s, i):
        a = list(self.seq(self.ev(s)))
        del a[self.ix(self.ev(i))]
        return a

    def o_removed(self, s, x):
        a = list(self.seq(self.ev(s)))
        v = self.ev(x)
        for j, y in enumerate(a):
            if self.equal(y, v) is True:
                del a[j]
                return a
        return ERR

    def o_interp(self, x, xp, fp):
        p, f = self.nums(xp), self.nums(fp)
        if len(p) != len(f):
            return ERR
        o = sorted(range(len(p)), key=lambda i: p[i])
        if self.mode != 'x' and o != list(range(len(p))):
            # not ascending: uninterpreted, consistently
            return self.bc(lambda v: self.mku('interp', self.num(v), p, f), self.ev(x))

        def g(v):
            v = self.num(v)
            if v is ERR or v is ANY or v != v:
                return v
            if v <= p[0]:
                return f[0]
            if v >= p[-1]:
                return f[-1]
            for i in range(len(p) - 1):
                if p[i] <= v <= p[i + 1] and p[i + 1] > p[i]:
                    return f[i] + (f[i + 1] - f[i]) * (v - p[i]) / (p[i + 1] - p[i])
            return ERR
        return self.bc(g, self.ev(x))

    def o_searchsorted(self, v, a, side):
        p = self.nums(a)
        s = self.ev(side)

        def g(x):
            x = self.num(x)
            if x is ERR or x is ANY:
                return x
            before = lambda y: y < x - 1e-12 if s == 'left' else y <= x + 1e-12
            if any(y is ERR or y is ANY for y in p) or all(a <= b for a, b in zip(p, p[1:])):
                return float(sum(1 for y in p if before(y)))
            lo, hi = 0, len(p)          # not in order: the bisection numpy performs
            while lo < hi:
                mid = (lo + hi) // 2
                lo, hi = (mid + 1, hi) if before(p[mid]) else (lo, mid)
            return float(lo)
        return self.bc(g, self.ev(v))

    def o_hist(self, x, b, w):
        d, e = self.nums(x), self.nums(b)
        ww = self.nums(w) if w is not tm.NONE else [1.] * len(d)
        if len(ww) != len(d):
            return ERR
        n = len(e) - 1
        out = [0.] * n
        for x_, y in zip(d, ww):
            for i in range(n):
                if e[i] <= x_ < e[i + 1] or (i == n - 1 and x_ == e[-1]):
                    out[i] += y
                    break
        return out

    def o_polyval(self, p, x):
        c = self.nums(p)

        def g(v):
            r = 0.
            for k in c:
                r = r * v + k
            return r
        return self.m1(self.ev(x), g)

    def o_keys(self, d):
        v = self.ev(d)
        if isinstance(v, Dct):
            return [k for k, _ in v.d.values()]
        return self.mku('keys', v)

    def o_vals(self, d):
        v = self.ev(d)
        if isinstance(v, Dct):
            return [x for _, x in v.d.values()]
        if isinstance(v, U):
            ks = self.seq(self.mku('keys', v))
            return [self.item(v, k) for k in ks]
        return ERR

    def o_items(self, d):
        v = self.ev(d)
        if isinstance(v, Dct):
            return [Tup(x) for x in v.d.values()]
        if isinstance(v, U):
            ks = self.seq(self.mku('keys', v))
            return [Tup((k, self.item(v, k))) for k in ks]
        return ERR

    def o_dict(self, *items):
        d = Dct()
        for k, v in items:
            x = self.ev(v)
            if x is ERR and tm.has_absent(v):
                continue
            d.set(self.ev(k), x)
        return d

    def o_dictset(self, d, k, v):
        x = self.ev(d)
        if isinstance(x, Dct):
            x = x.copy()
            x.set(self.ev(k), self.ev(v))
            return x
        return self.mku('dictset', x, self.ev(k), self.ev(v))

    def o_dictupdate(self, d, x):
        a, b = self.ev(d), self.ev(x)
        if isinstance(a, Dct) and isinstance(b, Dct):
            a = a.copy()
            for k, v in b.d.values():
                a.set(k, v)
            return a
        return self.mku('dictupdate', a, b)

    def o_dictdel(self, d, k):
        a = self.ev(d)
        if isinstance(a, Dct):
            a = a.copy()
            a.d.pop(H(self.ev(k)), None)
            return a
        return self.mku('dictdel', a, self.ev(k))

    def o_dictmap(self, d, ks, vs):
        a, k, v = self.ev(d), self.seq(self.ev(ks)), self.seq(self.ev(vs))
        if not isinstance(a, Dct) or k is ERR or v is ERR:
            return ERR
        a = a.copy()
        for x, y in zip(k, v):
            a.set(x, y)
        return a

    def o_uniq(self, s):
        out, seen = [], set()
        for x in self.seq(self.ev(s)):
            if H(x) not in seen:
                seen.add(H(x))
                out.append(x)
        return sorted(out, key=H)

    def o_setop(self, o, a, b):
        x, y = self.seq(self.ev(a)), self.seq(self.ev(b))
        hx, hy = {H(e): e for e in x}, {H(e): e for e in y}
        if o == 'union':
            r = {**hx, **hy}
        elif o == 'inter':
            r = {k: e for k, e in hx.items() if k in hy}
        elif o == 'diff':
            r = {k: e for k, e in hx.items() if k not in hy}
        else:
            r = {k: e for k, e in {**hx, **hy}.items() if (k in hx) != (k in hy)}
        return [r[k] for k in sorted(r)]

    def o_before(self, m):
        v = self.ev(m)
        if not isinstance(v, list):
            return ERR
        out, ok = [], True
        for x in v:
            if self.truth(x) is True:
                ok = False
            out.append(ok)
        return out

    def o_any(self, s):
        v = self.seq(self.ev(s))
        return any(self.truth(x) is True for x in v)

    # binders
    def bind(self, body, key, i):
        old = self.env.get(key, None)
        self.env[key] = i
        try:
            return self.ev(body)
        finally:
            if old is None:
                del self.env[key]
            else:
                self.env[key] = old

    def each(self, body, seq):
        v = self.ev(seq)
        v = self.seq(v)
        if v is ERR:
            return ERR
        D = bvdepth(body)
        return [self.bind(body, ('bv', D), i) for i in range(len(v))]

    def o_map(self, body, seq):
        return self.each(body, seq)

    def o_maskmap(self, body, seq):
        return self.each(body, seq)

    def o_flat(self, body, c, seq):
        if c is tm.TRUE and seq is tm.NONE:
            out = []
            for x in self.seq(self.ev(body)):
                out += self.seq(x)
            return out
        n = self.seq(self.ev(seq))
        if n is ERR:
            return ERR
        out = []
        Db, Dc = bvdepth(body), bvdepth(c)
        for i in range(len(n)):
            t = self.bind(c, ('bv', Dc), i)
            if self.truth(t) is True:
                x = self.seq(self.bind(body, ('bv', Db), i))
                if x is ERR:
                    return ERR
                out += x
        return out

    def o_last(self, body, seq):
        v = self.each(body, seq)
        return v[-1]

    def o_bv(self, depth, base):
        i = self.env[('bv', depth)]
        return self.item(self.ev(base), float(i))

    def o_el(self, s, k):
        i = self.env.get(('el', k))
        if i is None:
            return self.mku('el', self.ev(s))
        return self.item(self.ev(s), float(i))

    def o_acc(self, depth, i, sh, kd):
        return self.env[('acc', depth)][i]

    def o_fold(self, v, headc, exitc, nexts, inits, seq, v0):
        accs = [self.ev(x) for x in inits]
        comps = [v, headc, exitc, v0] + list(nexts)
        D = max([x.a[0] for c in comps for x in tm.subterms(c) if x.op == 'acc'], default=0)
        n = None
        if seq is not tm.NONE:
            s = self.seq(self.ev(seq))
            if s is ERR:
                return ERR
            n = len(s)
        bvd = {id(c): bvdepth(c) for c in comps}
        key = ('acc', D)
        old = self.env.get(key)

        def at(c, i):
            if n is None:
                return self.ev(c)
            return self.bind(c, ('bv', bvd[id(c)]), i)
        try:
            i = 0
            while True:
                self.env[key] = accs
                if n is not None and i >= n or i > 60:
                    if i > 60:
                        return ERR
                    break
                h = self.truth(at(headc, i))
                if h is False:
                    break
                if h is not True:
                    return ERR
                x = self.truth(at(exitc, i))
                if x is True:
                    return at(v, i)
                if x is not False:
                    return ERR
                accs = [at(c, i) for c in nexts]
                i += 1
            return self.ev(v0) if n is None or bvd[id(v0)] < 0 else at(v0, max(n - 1, 0))
        finally:
            if old is None:
                self.env.pop(key, None)
            else:
                self.env[key] = old

    # calls
    def o_attr(self, o, n):
        v = self.ev(o)
        if v is ERR or v is ANY:
            return v
        if isinstance(v, list):
            if n == 'size':
                return float(len(v))
            return [self.mku('attr', x, n) for x in v]
        if n in tm.ATTRS and isinstance(v, U):
            sh, kd, form = (tuple(tm.ATTRS[n]) + (None,))[:3]
            if sh == 'a' and kd == 'num':
                k = self.mku('attr', v, n).key
                r = [(self.positive if form else self.number)(k + str(i)) for i in range(self.lens.get(k, None) or self.n)]
                if form == 'up':
                    r = [sum(r[:i + 1]) for i in range(len(r))]
                return r
        if n == 'size' and isinstance(v, U):
            return float(self.lens.get(v.key, None) or self.n)
        return self.mku('attr', v, n)

    def o_new(self, cls, items):
        d = [(k, self.ev(v)) for k, v in items]
        return Tup(['new:' + str(cls)] + [Tup([k, v]) for k, v in d if v is not ERR])

    def o_rec(self, nm, items):
        return Tup(['rec:' + str(nm)] + [Tup([k, self.ev(v)]) for k, v in items])

    def o_isinst(self, x, c):
        v = self.ev(x)
        n = c.a[0] if c.op in ('ext', 'cls') else '?'
        if v is ERR or v is ANY:
            return v
        if isinstance(v, U):
            return self.truth(self.mku('isinst', v, n))
        return {'str': isinstance(v, str), 'float': isinstance(v, float), 'int': isinstance(v, float) and v == int(v), 'list': isinstance(v, list) and not isinstance(v, Tup),
                'tuple': isinstance(v, Tup), 'dict': isinstance(v, Dct), 'numpy.ndarray': isinstance(v, list), 'bool': isinstance(v, bool)}.get(n, self.truth(self.mku('isinst', v, n)))

    def o_lam(self, n, body):
        return self.mku('lam', self.lamkey(body))

    def lamkey(self, body):
        # a function value: its result on three random argument tuples
        out = []
        for j in range(3):
            old = self.env.get('larg')
            self.env['larg'] = j
            try:
                out.append(H(self.ev(body)))
            finally:
                if old is None:
                    del self.env['larg']
                else:
                    self.env['larg'] = old
        return '|'.join(out)

    def o_larg(self, i):
        j = self.env.get('larg', 0)
        return self.mku('larg', str(i), str(j))

    def o_call(self, name, args=(), kw=()):
        vs = [self.ev(a) for a in args]
        ks = [(k, self.ev(v)) for k, v in kw]
        if any(v is ERR for v in vs) or any(v is ERR for _, v in ks):
            return ERR
        if not ks:
            f = CALLS.get(name)
            if f is not None:
                if name in ('minimum', 'maximum', 'poissonpmf', 'poissoncdf', 'numpy.arctan2') or len(vs) == 1:
                    def g(*xs):
                        ys = [self.num(x) for x in xs]
                        if any(y is ERR or y is ANY for y in ys):
                            return ERR if any(y is ERR for y in ys) else ANY
                        return f(*ys)
                    if name == 'float' and any(isinstance(v, str) for v in vs):
                        try:
                            return float(vs[0])
                        except ValueError:
                            return self.number(hs('float' + H(vs[0])))
                    if name == 'int' and any(isinstance(v, str) for v in vs):
                        try:
                            return float(int(vs[0]))
                        except ValueError:
                            return float(int(self.number(hs('float' + H(vs[0])))))
                    return self.bc(g, *vs)
            if name == 'round' and len(vs) == 2:
                return self.bc(lambda x, n: (lambda a, b: ERR if a is ERR or b is ERR else float(round(a, int(b))))(self.num(x), self.num(n)), *vs)
            if name.startswith('str.') and vs and isinstance(vs[0], str) and all(isinstance(v, str) or v is None or isinstance(v, float) for v in vs[1:]):
                a = [int(v) if isinstance(v, float) else v for v in vs[1:]]
                r = getattr(str(vs[0]), name[4:])(*a)
                return float(r) if isinstance(r, int) and not isinstance(r, bool) else Tup(r) if isinstance(r, tuple) else r
            if name in ('repr',) and isinstance(vs[0], (str, float)):
                return repr(str(vs[0]) if isinstance(vs[0], str) else vs[0])
        if name in ('re.search', 're.match', 're.fullmatch', 're.findall', 're.split', 're.sub'):
            d = dict(ks)
            order = ('pattern', 'repl', 'string') if name == 're.sub' else ('pattern', 'string')
            d.update(zip(order, vs))
            if set(d) == set(order) and all(isinstance(v, str) for v in d.values()):
                r = getattr(re, name[3:])(*[str(d[k]) for k in order])
                return Mat(r) if isinstance(r, re.Match) else r
        if name in ('.group', '.groups', '.groupdict') and vs and isinstance(vs[0], Mat) and not ks:
            if name == '.groupdict':
                r = Dct()
                for k, v in vs[0].groupdict().items():
                    r.set(k, v)
                return r
            r = getattr(vs[0], name[1:])(*[v if isinstance(v, str) else self.ix(v) for v in vs[1:]])
            return Tup(r) if isinstance(r, tuple) else r
        if name == 'scipy.integrate.simpson' and not vs and [k for k, _ in ks] == ['x', 'y']:
            x, y = self.seq(ks[0][1]), self.seq(ks[1][1])
            if x is not ERR and y is not ERR and len(x) == len(y) and len(x) > 2:
                x, y = [self.num(v) for v in x], [self.num(v) for v in y]
                if not any(v is ERR or v is ANY for v in x + y):
                    return simpson(y, x)
        if tm.RETURNS.get(name, tm.NOK)[0] == 'p':
            return self.bc(lambda *xs: self.number(hs('|'.join(['call', name] + [H(x) for x in xs]))), *vs, *[v for _, v in ks])
        r = tm.RETURNS.get(name, tm.NOK)
        if r[0] == 'a' and len(r) > 2 and r[2]:
            k = hs('|'.join(['call', name] + [H(v) for v in vs] + [k + '=' + H(v) for k, v in ks]))
            return [self.number(k + str(i)) if r[1] == 'num' else self.mku('item', k, str(i)) for i in range(r[2])]
        return self.mku('call', name, *[H(v) for v in vs], *[k + '=' + H(v) for k, v in ks])

    def o_mcall(self, name, args, kw):
        return self.o_call('.' + name, args, kw)

    def o_rand(self, name, n, args, kw):
        r = self.o_call('rand:' + name + str(n), args, kw)
        return r


class Mat:
    """a match of a regular expression"""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, n):
        return getattr(self.__dict__['m'], n)

    def __repr__(self):
        return 'match:' + repr(self.m.regs) + repr(self.m.string)


class S(str):
    """symbolic string input"""
    def __new__(cls, v, key):
        s = str.__new__(cls, v)
        s.key = key
        return s


def ikey(k):
    return str(int(k)) if isinstance(k, float) and k == int(k) else H(k)


def pw(b, e):
    if type(b) is HP or type(e) is HP:
        if b and abs(b) != math.inf and abs(e) != math.inf and b == b and e == e and (b > 0 or e == int(e)):
            try:
                return hp(CTX.power(dec(b), dec(e)))
            except decimal.DecimalException:
                return math.inf
        b, e = float(b), float(e)
    if b == 0:
        return 0. if e > 0 else (1. if e == 0 else math.inf)
    if e == -1:
        return 1 / b
    if b < 0 and e != int(e):
        return math.nan
    try:
        return b ** e
    except OverflowError:
        return math.inf


def rz(f):
    def g(x):
        if x != x or abs(x) == math.inf:
            return x
        r = round(x)
        return float(r) if abs(x - r) < 1e-9 else float(f(x))
    return g


CALLS = {'floor': rz(math.floor), 'ceil': rz(math.ceil), 'int': rz(int), 'float': lambda x: x, 'abs': abs, 'minimum': lambda *a: min(a), 'maximum': lambda *a: max(a),
         'numpy.sign': lambda x: 0. if abs(x) < 1e-12 else math.copysign(1, x), 'numpy.isnan': lambda x: x != x, 'numpy.arccos': lambda x: math.acos(x) if abs(x) <= 1 else math.nan,
         'numpy.arcsin': lambda x: math.asin(x) if abs(x) <= 1 else math.nan, 'numpy.tan': math.tan, 'numpy.arctan': math.atan,
         'numpy.arctan2': lambda y, x: math.atan2(y, x) if abs(x) + abs(y) > 1e-12 else math.nan}


def pmf(k, mu):
    if mu < 0 or k < 0:
        return math.nan
    if mu == 0:
        return 1. if k == 0 else 0.
    if type(mu) is HP:
        return hp(CTX.exp(CTX.subtract(CTX.subtract(CTX.multiply(dec(k), CTX.ln(dec(mu))), dec(mu)), decimal.Decimal(math.lgamma(float(k) + 1)))))
    return math.exp(k * math.log(mu) - mu - math.lgamma(k + 1))


def cdf(k, mu):
    if mu < 0 or k < 0 or k > 1000:
        return math.nan
    return sum(pmf(float(i), mu) for i in range(int(k) + 1))


CALLS['poissonpmf'], CALLS['poissoncdf'], CALLS['math.erf'] = pmf, cdf, math.erf


def simpson(y, x):
    """composite rule on pairs of intervals, trapezoid on a last odd one"""
    n, t = len(y), 0.
    for i in range(0, n - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        if h0 == 0 or h1 == 0:
            return math.nan
        t = t + (h0 + h1) / 6 * ((2 - h1 / h0) * y[i] + (h0 + h1) * (h0 + h1) / (h0 * h1) * y[i + 1] + (2 - h0 / h1) * y[i + 2])
    if n % 2 == 0:
        t = t + (x[-1] - x[-2]) * (y[-1] + y[-2]) / 2
    return t


def bvdepth(c):
    r = c.m.get('bvd')
    if r is None:
        r = c.m['bvd'] = max([x.a[0] for x in tm.subterms(c) if x.op == 'bv'], default=-1)
    return r


_open = tm.flag(('bv', 'acc', 'el', 'larg'), 'open')


def same(a, b):
    if a is ANY or b is ANY:
        return True
    if a is ERR or b is ERR:
        return a is b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, float, int)) and isinstance(b, (bool, float, int)):
        a, b = float(a), float(b)
        if a != a or b != b:        # outside the domain of one of the forms
            return True
        if a == b:
            return True
        if abs(a) == math.inf or abs(b) == math.inf:
            return False
        return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Dct) and isinstance(b, Dct):
        return a.d.keys() == b.d.keys() and all(same(a.d[k][1], b.d[k][1]) for k in a.d)
    return H(a) == H(b)


def haserr(v):
    if v is ERR:
        return True
    if isinstance(v, (list, tuple)):
        return any(haserr(x) for x in v)
    if isinstance(v, Dct):
        return any(haserr(x[1]) for x in v.d.values())
    return False


MODES = ('real', 'grid', 'near', 'wide', 'grid', 'real', 'near')


def thresholds(terms):
    """numbers that single quantities are compared with"""
    out = set()
    for t in terms:
        for x in tm.subterms(t):
            if x.op in ('pos', 'zero'):
                c, m = tm._poly(x.a[0])
                if len(m) == 1 and c:
                    (y, k), = m.items()
                    if y.op != 'len':
                        out.add(float(-c / k))
    return out


def counts(terms):
    """whole numbers that may limit a number of elements"""
    out = set()
    for t in terms:
        for x in tm.subterms(t):
            for c in [x.a[0]] if x.op == 'num' else [x.a[0]] + [k for _, k in x.a[1]] if x.op == 'add' else []:
                if c.denominator == 1 and 5 <= abs(c) <= 1300:
                    out.add(int(abs(c)))
    return out


def compare(pairs, guard=tm.TRUE, samples=60, lens=None, ties=True, seed=1):
    """pairs: [(label, termA, termB)].  guard: only interpretations satisfying it count.
    returns ('equal', n) | ('differ', label, info) | ('vacuous', n)"""
    pools = {}
    used = 0
    seen = {}
    uniq = []
    for l, a, b in pairs:       # labels name pairs: make them distinct
        seen[l] = seen.get(l, 0) + 1
        uniq.append((l if seen[l] == 1 else f'{l} ({seen[l]})', a, b))
    pairs = uniq
    terms = {l: (a, b) for l, a, b in pairs}
    allterms = [t for _, a, b in pairs for t in (a, b)]

    watch, sizes = thresholds([p[1] for p in pairs]), counts([p[1] for p in pairs])
    watch -= thresholds([p[2] for p in pairs] + [guard])
    sizes -= counts([p[2] for p in pairs] + [guard])

    def discover(s, mode):
        I = Interpretation(s, pools, mode, lens=lens)
        I.fuel = 300000
        I.watch = watch
        for t in [guard] + allterms:
            try:
                I.ev(t)
            except (Ev, RecursionError):
                pass
        for k, v in I.seen.items():
            p = pools.setdefault(k, set())
            for x in v:
                if len(p) < (30 if watch else 14):
                    p.add(str(x) if isinstance(x, str) else x)
        return I
    for j in range(24):
        discover(f'd{seed}.{j}', MODES[j % len(MODES)])
    if watch:
        for p in pools.values():        # between two thresholds
            c = sorted(x for x in p if isinstance(x, float) and x in watch)
            p.update((x + y) / 2 for x, y in zip(c, c[1:]))

    def rounding(r, I):
        """the same interpretation in 60-digit arithmetic: a difference that disappears is rounding, not behaviour"""
        a, b = terms[r[0]]
        J = Interpretation(I.seed, pools, I.mode, n=I.n, lens=I.lens, ties=I.ties)
        J.hp = True
        J.fuel *= 4
        try:
            x, y = J.ev(a), J.ev(b)
        except (Ev, RecursionError):
            return True
        return haserr(x) or haserr(y) or same(x, y)

    # difference expressions compared in both sides of a pair may be forced to tie
    def one(I):
        g = I.ev(guard)
        if g is not True:
            return None
        n = 0
        for lab, a, b in pairs:
            x, y = I.ev(a), I.ev(b)
            if haserr(x) or haserr(y):
                if haserr(x) != haserr(y):
                    half[lab] = half.get(lab, 0) + 1
                if haserr(x) and not haserr(y) and lab not in wrong:
                    J = Interpretation(I.seed, pools, I.mode, n=I.n, lens=lens, ties=I.ties)
                    J.ev(a)
                    if J.index:
                        wrong[lab] = (x, y, I)
                continue
            n += 1
            decided[lab] = decided.get(lab, 0) + 1
            if not same(x, y):
                return lab, x, y
        return n
    tried = 0
    bad = []
    decided, half, wrong = {}, {}, {}
    while used < samples * (3 if bad else 1) and tried < samples * (12 if bad else 6):
        tried += 1
        I = Interpretation(f'{seed}.{tried}', pools, MODES[tried % len(MODES)], n=(5, 4, 5, 1, 2, 6)[tried % 6] if tried % 3 == 0 else 5, lens=lens)
        try:
            r = one(I)
        except (Ev, RecursionError):
            continue
        if r is None or r == 0:
            continue
        if isinstance(r, tuple):
            if rounding(r, I):
                continue
            bad.append((r, I))
            if len(bad) >= 2:       # one isolated difference may be a rounding artefact of that interpretation
                r, I = bad[0]
                return 'differ', r[0], (r[1], r[2], I), terms[r[0]]
        used += 1
    if ties and used:
        da, db = {}, {}
        for t, out in [(p[1], da) for p in pairs] + [(p[2], db) for p in pairs]:
            for x in tm.subterms(t):
                if x.op in ('pos', 'zero'):
                    k, _ = Interpretation.canon(None, x.a[0])
                    k = tm._atomsum(k)[1]
                    out.setdefault(k.id, set()).add((x.op, x.a[0].id))
        if da.keys() == db.keys():
            cand = [k for k in da if da[k] != db[k]] or list(da)[:12]
            for k in cand:
                for s in range(4):
                    I = Interpretation(f'{seed}.tie{s}', pools, MODES[s % len(MODES)], lens=lens, ties=(k,))
                    try:
                        r = one(I)
                    except (Ev, RecursionError):
                        continue
                    if isinstance(r, tuple) and not rounding(r, I):
                        bad.append((r, I))
                        if len(bad) >= 2:
                            return 'differ', r[0], (r[1], r[2], I), terms[r[0]]
    for size in sorted(sizes)[:4]:          # counts that only the code knows: interpretations with more elements
        for j in range(3):
            m = (size + 1, size + 2, size)[j] - min([5, *(lens or {}).values()])
            I = Interpretation(f'{seed}.size{j}', pools, MODES[j % len(MODES)], n=5 + m, lens={k: v + m for k, v in lens.items()} if lens else None)
            I.fuel *= 20
            try:
                r = one(I)
            except (Ev, RecursionError):
                continue
            if isinstance(r, tuple) and not rounding(r, I):
                bad.append((r, I))
                if len(bad) >= 2:
                    return 'differ', r[0], (r[1], r[2], I), terms[r[0]]
    none = [p[0] for p in pairs if decided.get(p[0], 0) < max(1, half.get(p[0], 0))]
    for lab in none:
        if not decided.get(lab) and half.get(lab, 0) > 5 and lab in wrong:      # the code indexes past the end of a known sequence wherever the definition has a value
            x, y, I = wrong[lab]
            return 'differ', lab, ('IndexError', y, I), terms[lab]
    return ('equal', used) if used and not none else ('vacuous', none)
