"""Linear lower bounds of value terms: proves `t >= 0` by replacing one monomial of the linear form at a time by something no
larger - a rounding by its argument (floor x <= x <= ceil x), abs by 0 or +-its argument, min/max by an operand (or by every
operand), a gate by every branch - until only constants and monomials of known sign remain."""
from fractions import Fraction as F
from . import terms as tm

LN10 = tm.ln(tm.num(10))


def positive(t):
    """t is positive by construction"""
    if t.op == 'num':
        return t.a[0] > 0
    if t.op == 'sym':
        return str(t.a[0]).split('.')[-1].startswith('p_')
    if t.op == 'ln':
        return t.a[0].op == 'num' and t.a[0].a[0] > 1
    if t.op == 'mul':
        return all(positive(b) or (e.op == 'num' and e.a[0].denominator == 1 and e.a[0] % 2 == 0) for b, e in tm._monodict(t).items())
    if t.op == 'add':
        c, d = tm._poly(t)
        return c >= 0 and all(k > 0 and nonnegative(m) for m, k in d.items()) and (c > 0 or any(positive(m) for m in d))
    return False


def nonnegative(t):
    if positive(t):
        return True
    if t.op == 'num':
        return t.a[0] >= 0
    if t.op == 'sym':
        return str(t.a[0]).split('.')[-1].startswith('z_')
    if t.op in ('abs', 'len', 'count'):
        return True
    if t.op == 'call' and t.a[0] == 'abs':
        return True
    if t.op == 'mul':
        return all(nonnegative(b) for b, _ in tm._monodict(t).items())
    if t.op == 'bdd':
        return True
    return False


def split(m):
    """m = positive factor x core"""
    if m.op == 'mul':
        core, pos = [], []
        for b, e in tm._monodict(m).items():
            (pos if positive(b) else core).append((b, e))
        if len(core) == 1 and core[0][1] is tm.ONE:
            p = tm.ONE
            for b, e in pos:
                p = tm.mul(p, tm.power(b, e))
            return p, core[0][0]
    return tm.ONE, m


def opname(t):
    if t.op == 'call':
        return t.a[0].rsplit('.', 1)[-1]
    return t.op


def opargs(t):
    if t.op == 'call':
        return t.a[1]
    return t.a


class Prover:
    def __init__(self, fuel=20000):
        self.fuel = fuel
        self.memo = {}
        self.cases = 0
        self.facts = {}     # bdd atom id -> value on this branch

    def nonneg(self, t, depth=0):
        if t in self.memo:
            return self.memo[t]
        self.fuel -= 1
        if self.fuel < 0 or depth > 60:
            return False
        self.memo[t] = False
        r = self.step(t, depth)
        self.memo[t] = r
        return r

    def step(self, t, depth):
        if t.op == 'ite':
            self.cases += 1
            return self.nonneg(t.a[1], depth + 1) and self.nonneg(t.a[2], depth + 1)
        c, d = tm._poly(t)
        if c >= 0 and all((k > 0 and nonnegative(m)) or (k < 0 and nonnegative(tm.neg(m))) for m, k in d.items()):
            return True
        # gates first: every branch
        for m, k in d.items():
            p, x = split(m)
            rest = tm.sub(t, tm.scale(m, k))
            n, a = opname(x), opargs(x)
            coef = tm.scale(p, k)

            def put(v):
                return tm.add(rest, tm.mul(coef, v))
            if x.op == 'ite':
                self.cases += 1
                f = tm.assume
                cond = x.a[0]
                res = []
                for val, br in ((tm.TRUE, x.a[1]), (tm.FALSE, x.a[2])):
                    rr = rest
                    if cond.op == 'bdd' and cond.a[1] is tm.TRUE and cond.a[2] is tm.FALSE:
                        try:
                            rr = f(rest, cond.a[0], val is tm.TRUE)
                        except Exception:
                            rr = rest
                    res.append(tm.add(rr, tm.mul(coef, br)))
                return all(self.nonneg(r, depth + 1) for r in res)
            if (n in ('minimum', 'min') and k > 0 or n in ('maximum', 'max') and k < 0) and len(a) > 1:
                return all(self.nonneg(put(v), depth + 1) for v in a)
            if n == 'bdd' or x.op == 'bdd':
                return all(self.nonneg(put(v), depth + 1) for v in (tm.ZERO, tm.ONE))
        # then one bound of one monomial
        for m, k in d.items():
            p, x = split(m)
            rest = tm.sub(t, tm.scale(m, k))
            n, a = opname(x), opargs(x)
            coef = tm.scale(p, k)
            opts = []
            if n in ('minimum', 'min', 'maximum', 'max') and len(a) > 1:
                opts = list(a)
            elif n == 'floor':
                opts = [a[0]] if k < 0 else [tm.sub(a[0], tm.ONE)] + ([tm.ZERO] if self.nonneg(a[0], depth + 1) else [])
            elif n == 'ceil':
                opts = [a[0]] if k > 0 else [tm.add(a[0], tm.ONE)] + ([tm.ZERO] if self.nonneg(tm.neg(a[0]), depth + 1) else [])
            elif n == 'int' or n == 'trunc':
                if self.nonneg(a[0], depth + 1):
                    opts = [a[0]] if k < 0 else [tm.ZERO, tm.sub(a[0], tm.ONE)]
            elif n == 'round':
                h = tm.num(F(1, 2))
                opts = [tm.add(a[0], h)] if k < 0 else [tm.sub(a[0], h)]
            elif n == 'abs':
                if k > 0:
                    opts = [tm.ZERO, a[0], tm.neg(a[0])]
            elif x.op == 'ln':
                y = x.a[0]
                n2, a2 = opname(y), opargs(y)
                if n2 in ('minimum', 'min') and k < 0 or n2 in ('maximum', 'max') and k > 0:
                    opts = [tm.ln(v) for v in a2]
                elif n2 in ('minimum', 'min', 'maximum', 'max'):
                    return all(self.nonneg(tm.add(rest, tm.mul(coef, tm.ln(v))), depth + 1) for v in a2)
                elif y.op == 'add':
                    cc, dd = tm._poly(y)
                    if k > 0 and cc >= 0 and all(q > 0 and nonnegative(mm) for mm, q in dd.items()):
                        opts = [tm.ln(tm.scale(mm, q)) for mm, q in dd.items() if positive(mm)]
            for v in opts:
                if self.nonneg(tm.add(rest, tm.mul(coef, v)), depth + 1):
                    return True
        return False


def prove(t):
    P = Prover()
    return P.nonneg(t), P
