"""Polynomial normal-form prover: equality of real terms built from + - * /, sin, cos, sqrt and opaque atoms.

A term becomes a quotient of polynomials; sin(t)^2 is reduced to 1 - cos(t)^2, sqrt(p)^2 to p, angle sums are expanded.
a/b == c/d is decided by a*d - b*c == 0 in normal form.  Denominators being non-zero are separate obligations."""
from fractions import Fraction
import sys

from .z3env import z3

sys.setrecursionlimit(100000)

R = z3.RealSort()
SIN, COS, SQRT = z3.Function('sin', R, R), z3.Function('cos', R, R), z3.Function('sqrt', R, R)
ATAN2, ASIN, ACOS = z3.Function('atan2', R, R, R), z3.Function('asin', R, R), z3.Function('acos', R, R)
PI = z3.Real('PI')
HYP = z3.Function('hyp', R, R, R)


class TooBig(Exception):
    pass


class CannotNormalise(Exception):
    pass


LIMIT = 60000

ONE = ()


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


class Norm(object):
    def __init__(self):
        self.ids = {}            # key -> atom number
        self.names = []          # atom number -> description
        self.rule = {}           # atom number -> polynomial equal to its square
        self.cache = {}
        self.keep = []           # z3 terms kept alive (cache by id)

    # ---- atoms
    def atom(self, key, rule=None):
        if key not in self.ids:
            self.ids[key] = len(self.names)
            self.names.append(key)
            if rule is not None:
                self.rule[self.ids[key]] = rule
        return {((self.ids[key], 1),): Fraction(1)}

    # ---- polynomials with reduction
    def mono_mul(self, a, b):
        """product of two monomials: (monomial, [atoms to be squared away])"""
        out = []
        sq = []
        i = j = 0
        while i < len(a) or j < len(b):
            if j >= len(b) or (i < len(a) and a[i][0] < b[j][0]):
                out.append(a[i])
                i += 1
            elif i >= len(a) or b[j][0] < a[i][0]:
                out.append(b[j])
                j += 1
            else:
                at, e = a[i][0], a[i][1] + b[j][1]
                if at in self.rule:
                    sq += [at] * (e // 2)
                    e %= 2
                if e:
                    out.append((at, e))
                i += 1
                j += 1
        return tuple(out), sq

    def mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > LIMIT * 40:
            raise TooBig()
        r = {}
        extra = []
        for m, c in a.items():
            for n, d in b.items():
                k, sq = self.mono_mul(m, n)
                v = c * d
                if sq:
                    p = {k: v}
                    for at in sq:
                        p = self.mul(p, self.rule[at])
                    extra.append(p)
                else:
                    w = r.get(k, 0) + v
                    if w:
                        r[k] = w
                    else:
                        r.pop(k, None)
        for p in extra:
            for k, v in p.items():
                w = r.get(k, 0) + v
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def power(self, a, k):
        r = const(1)
        for _ in range(k):
            r = self.mul(r, a)
        return r

    # ---- quotients: (numerator, {factor key: (polynomial, exponent)})
    @staticmethod
    def key(p):
        return frozenset(p.items())

    def q(self, num, fac=None):
        return (num, fac or {})

    def qneg(self, a):
        return ({m: -c for m, c in a[0].items()}, a[1])

    def expand(self, num, have, want):
        for k, (p, e) in want.items():
            d = e - (have[k][1] if k in have else 0)
            for _ in range(d):
                num = self.mul(num, p)
        return num

    def qadd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        f = dict(a[1])
        for k, (p, e) in b[1].items():
            if k not in f or f[k][1] < e:
                f[k] = (p, e)
        n = padd(self.expand(a[0], a[1], f), self.expand(b[0], b[1], f))
        return self.reduce(n, f)

    def reduce(self, n, f):
        if not n:
            return ({}, {})
        return (n, f)

    def qmul(self, a, b):
        f = dict(a[1])
        na, nb = a[0], b[0]
        # cancel whole factors
        for x, y in ((na, b[1]), (nb, a[1])):
            pass
        for k, (p, e) in b[1].items():
            f[k] = (p, e + (f[k][1] if k in f else 0))
        ka, kb = self.key(na), self.key(nb)
        for kk in (ka, kb):
            if kk in f:
                p, e = f[kk]
                if e > 1:
                    f[kk] = (p, e - 1)
                else:
                    del f[kk]
                if kk == ka:
                    na = const(1)
                else:
                    nb = const(1)
                if ka == kb:
                    break
        n = self.mul(na, nb)
        return self.reduce(n, f)

    def qinv(self, a):
        num, fac = a
        if not num:
            raise CannotNormalise('division by zero')
        n = const(1)
        for k, (p, e) in fac.items():
            for _ in range(e):
                n = self.mul(n, p)
        if len(num) == 1:
            (m, c), = num.items()
            if m == ONE:
                return ({k: v / c for k, v in n.items()}, {})
            # a monomial: its atoms are the factors
            f = {}
            for at, e in m:
                p = {((at, 1),): Fraction(1)}
                f[self.key(p)] = (p, e)
            return ({k: v / c for k, v in n.items()}, f)
        # normalise the leading coefficient so that equal factors are recognised
        lead = num[min(num)]
        p = {m: c / lead for m, c in num.items()}
        return ({k: v / lead for k, v in n.items()}, {self.key(p): (p, 1)})

    def total(self, a):
        """denominator as one polynomial"""
        d = const(1)
        for k, (p, e) in a[1].items():
            for _ in range(e):
                d = self.mul(d, p)
        return d

    def equal(self, a, b):
        d = self.qadd(a, self.qneg(b))
        return not d[0]

    # ---- angles
    def angle(self, t):
        """argument of sin / cos as list of (integer factor, kind, key/term)"""
        n, f = t
        if f:
            return [(1, self.qkey(t))]
        parts = []
        for m, c in n.items():
            if m == ONE:
                parts.append((c, None))
            else:
                parts.append((c, m))
        return parts

    def qkey(self, a):
        return ('q', self.key(a[0]), frozenset((k, e) for k, (p, e) in a[1].items()))

    def sincos(self, t):
        """(sin, cos) of a quotient"""
        n, f = t
        if not f and all(c.denominator == 1 and abs(c) <= 4 for m, c in n.items() if m != ONE) and ONE not in n and len(n) <= 4:
            s, c = self.q({}), self.q(const(1))
            for m, k in sorted(n.items()):
                s1, c1 = self.basic(m)
                if k < 0:
                    s1 = self.qneg(s1)
                for _ in range(abs(int(k))):
                    s, c = self.qadd(self.qmul(s, c1), self.qmul(c, s1)), self.qadd(self.qmul(c, c1), self.qneg(self.qmul(s, s1)))
            return s, c
        if not f and len(n) == 1:
            (m, k), = n.items()
            # half angles of PI and the like: opaque, odd / even symmetry by sign of the factor
            a = {m: abs(k)}
            s, c = self.opaque_angle(self.q(a))
            return (self.qneg(s) if k < 0 else s), c
        return self.opaque_angle(t)

    def opaque_angle(self, t):
        k = self.qkey(t)
        c = self.atom(('cos', k))
        s = self.atom(('sin', k), padd(const(1), self.mul(c, c), -1))
        return self.q(s), self.q(c)

    def basic(self, m):
        """sin / cos of one monomial"""
        if len(m) == 1 and m[0][1] == 1:
            nm = self.names[m[0][0]]
            if nm == 'PI':
                return self.q({}), self.q(const(-1))
            if isinstance(nm, tuple) and nm[0] == 'atan2':
                y, x, h = nm[3]
                hi = self.qinv(h)
                return self.qmul(y, hi), self.qmul(x, hi)
            if isinstance(nm, tuple) and nm[0] == 'asin':
                return nm[2][0], nm[2][1]
            if isinstance(nm, tuple) and nm[0] == 'acos':
                return nm[2][1], nm[2][0]
        return self.opaque_angle(self.q({m: Fraction(1)}))

    # ---- square roots
    def positive(self, p):
        return p and all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items()) and ONE in p

    def sqrt(self, a):
        num, fac = a
        # sqrt(n/d) = sqrt(n*d)/d for d > 0; even powers of a factor that is itself a root are handled by the rule
        if fac:
            d = self.total(a)
            if not self.positive(d):
                return self.q(self.atom(('sqrt', self.qkey(a))))
            num = self.mul(num, d)
            return self.qmul(self.sqrt(self.q(num)), self.qinv(self.q(d)))
        if not num:
            return self.q({})
        if len(num) == 1 and ONE in num:
            c = num[ONE]
            from math import isqrt
            if c > 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
                return self.q(const(Fraction(isqrt(c.numerator), isqrt(c.denominator))))
        return self.q(self.atom(('sqrt', self.key(num)), num))

    # ---- z3 terms
    def of(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self.conv(t)
        self.keep.append(t)
        self.cache[i] = r
        return r

    def conv(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return self.q(const(Fraction(t.as_fraction()) if z3.is_rational_value(t) else t.as_long()))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.qadd(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.qadd(r, self.qneg(self.of(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.qneg(self.of(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.qmul(r, self.of(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.qmul(self.of(ch[0]), self.qinv(self.of(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 <= ch[1].as_fraction() <= 6:
            r = self.q(const(1))
            for _ in range(int(ch[1].as_fraction())):
                r = self.qmul(r, self.of(ch[0]))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if k == z3.Z3_OP_ITE:
            raise CannotNormalise('case distinction')
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if not ch:
                return self.q(self.atom('PI' if t.eq(PI) else ('c', n)))
            args = [self.of(c) for c in ch]
            if n == 'sin':
                return self.sincos(args[0])[0]
            if n == 'cos':
                return self.sincos(args[0])[1]
            if n == 'sqrt':
                return self.sqrt(args[0])
            if n == 'atan2':
                y, x = args
                h = self.sqrt(self.qadd(self.qmul(x, x), self.qmul(y, y)))
                return self.q(self.atom_obj(('atan2', self.qkey(y), self.qkey(x)), (y, x, h)))
            if n in ('asin', 'acos'):
                x = args[0]
                o = self.sqrt(self.qadd(self.q(const(1)), self.qneg(self.qmul(x, x))))
                return self.q(self.atom_obj((n, self.qkey(x)), (x, o)))
            return self.q(self.atom((n,) + tuple(self.qkey(a) for a in args)))
        raise CannotNormalise(str(t.decl()))

    def atom_obj(self, key, obj):
        if key not in self.ids:
            self.ids[key] = len(self.names)
            self.names.append(key + (obj,))
        return {((self.ids[key], 1),): Fraction(1)}


def show(nm, p, k=6):
    return ' + '.join('%s*%s' % (c, ''.join(str(nm.names[a]) + ('^%d' % e if e > 1 else '') for a, e in m) or '1') for m, c in list(p.items())[:k])


def prove_eq(a, b, nm=None):
    """True if a == b in normal form"""
    nm = nm or Norm()
    try:
        return nm.equal(nm.of(a), nm.of(b))
    except (TooBig, CannotNormalise):
        return False
