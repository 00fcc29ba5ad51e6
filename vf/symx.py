"""E1: symbolic execution of the real function bodies, by CPython itself, on symbolic values.

The current source text of a /repo module is compiled (unchanged, real file name) and executed in a shadow namespace where
numpy is a proxy over symbolic arrays, numba.njit is the identity and a few builtins accept symbolic scalars.  A call of a
function then evaluates its body; every branch on a symbolic condition forks the path (re-execution with a decision prefix),
so that the collected obligations cover all paths.  An axis of unknown length is represented by one generic row: an axis of
length one carrying a domain (row set, guard).  Everything that would mix rows is refused (Unsupported), except `all`/`any`,
which become a fresh Boolean with its defining facts for the generic row and for a witness row.

Reals are mathematical reals (machine floating point is an assumption listed in the evidence); nan is a flag on a value."""
import ast
import builtins
import copy
import os
import sys
import types
from fractions import Fraction

import numpy as np

from .z3env import z3
from . import real, poly
from .poly import SIN, COS, SQRT, ATAN2, ASIN, ACOS, PI, HYP
from .ir import Unsupported
from .solve import Obl

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
EXP, LOG = z3.Function('exp', R, R), z3.Function('log', R, R)
CTX = None
COVERS = []            # (contract, 'some path', hypotheses): reachability goals


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value outside of an exploration')
    return CTX


# ------------------------------------------------------------------ scalars

def zreal(t):
    return z3.ToReal(t) if t.sort() == I else t


class S(object):
    """symbolic number: value (Fraction constant or z3 term) and nan flag (None: never nan)"""
    __slots__ = ('c', '_t', 'n', 'k')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t=None, n=None, c=None, k=None):
        if t is not None and (z3.is_rational_value(t) or z3.is_int_value(t)):
            c = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            k = k or ('i' if z3.is_int_value(t) else 'f')
            t = None
        self.c, self._t = c, t
        self.n = None if n is None or z3.is_false(n) else n
        self.k = k or ('i' if t is not None and t.sort() == I else 'f')

    @property
    def t(self):
        if self._t is None:
            self._t = z3.IntVal(int(self.c)) if self.k == 'i' else z3.Q(self.c.numerator, self.c.denominator)
        return self._t

    @property
    def r(self):
        return zreal(self.t)

    # numpy scalar interface
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(np.int64) if self.k == 'i' else np.dtype(np.float64)

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, d, copy=True):
        return cast(self, d)

    def __repr__(self):
        return 'S(%s%s)' % (self.c if self.c is not None else str(self._t)[:60], ', nan?' if self.n is not None else '')

    def __hash__(self):
        return hash((self.c, None if self._t is None else self._t.get_id()))

    # arithmetic
    def __add__(self, o):
        return num2(self, o, 'add')

    def __radd__(self, o):
        return num2(o, self, 'add')

    def __sub__(self, o):
        return num2(self, o, 'sub')

    def __rsub__(self, o):
        return num2(o, self, 'sub')

    def __mul__(self, o):
        return num2(self, o, 'mul')

    def __rmul__(self, o):
        return num2(o, self, 'mul')

    def __truediv__(self, o):
        return num2(self, o, 'div')

    def __rtruediv__(self, o):
        return num2(o, self, 'div')

    def __floordiv__(self, o):
        return num2(self, o, 'fdiv')

    def __rfloordiv__(self, o):
        return num2(o, self, 'fdiv')

    def __mod__(self, o):
        return num2(self, o, 'mod')

    def __rmod__(self, o):
        return num2(o, self, 'mod')

    def __pow__(self, o):
        return num2(self, o, 'pow')

    def __rpow__(self, o):
        return num2(o, self, 'pow')

    def __neg__(self):
        return num2(Z0(self.k), self, 'sub')

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return S(c=abs(self.c), k=self.k, n=self.n)
        return S(z3.If(self.t >= 0, self.t, -self.t), self.n)

    def __lt__(self, o):
        return cmp2(self, o, '<')

    def __le__(self, o):
        return cmp2(self, o, '<=')

    def __gt__(self, o):
        return cmp2(self, o, '>')

    def __ge__(self, o):
        return cmp2(self, o, '>=')

    def __eq__(self, o):
        return cmp2(self, o, '==')

    def __ne__(self, o):
        return cmp2(self, o, '!=')

    def __bool__(self):
        return bool(cmp2(self, 0, '!='))

    def __float__(self):
        if self.c is not None and self.n is None:
            return float(self.c)
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        if self.c is not None and self.n is None:
            return int(self.c)
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if self.c is not None and self.k == 'i' and self.n is None:
            return int(self.c)
        raise Unsupported('symbolic number as index')


def Z0(k='i'):
    return S(c=Fraction(0), k=k)


class SB(object):
    """symbolic truth value"""
    __slots__ = ('b',)
    __array_priority__ = 1000
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    dtype = np.dtype(bool)

    def __init__(self, b):
        self.b = z3.BoolVal(b) if isinstance(b, bool) else b

    def __bool__(self):
        return ctx().decide(self.b)

    def __invert__(self):
        return SB(z3.Not(self.b))

    def __and__(self, o):
        return bool2(self, o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return bool2(self, o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return bool2(self, o, z3.Xor)

    __rxor__ = __xor__

    def num(self):
        return S(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        return bool2(self, o, lambda x, y: x == y)

    def __ne__(self, o):
        return bool2(self, o, z3.Xor)

    def __hash__(self):
        return hash(self.b.get_id())

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __repr__(self):
        return 'SB(%s)' % str(self.b)[:60]


INF = float('inf')


def lift(x):
    """python / numpy scalar -> S or SB"""
    if isinstance(x, (S, SB)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SB(bool(x))
    if isinstance(x, (int, np.integer)):
        return S(c=Fraction(int(x)), k='i')
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return S(c=Fraction(0), n=z3.BoolVal(True))
        if x in (INF, -INF):
            return x
        return S(c=Fraction(x))
    if isinstance(x, Fraction):
        return S(c=x)
    if isinstance(x, z3.ExprRef):
        return SB(x) if x.sort() == B else S(x)
    if isinstance(x, A) and x.d.ndim == 0:
        return lift(x.d[()])
    raise Unsupported('value of type %s in an arithmetic operation' % type(x).__name__)


def lnum(x):
    x = lift(x)
    return x.num() if isinstance(x, SB) else x


def orn(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    return z3.simplify(z3.Or(a, b))


def num2(a, b, op):
    if isinstance(a, A) or isinstance(b, A):
        return ew2(lambda x, y: num2(x, y, op), a, b)
    try:
        a, b = lnum(a), lnum(b)
    except Unsupported:
        if not isinstance(a, (S, SB)) and not isinstance(b, (S, SB)):
            raise
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        if op == 'div' and isinstance(b, float) and isinstance(a, S) and b == b:
            return S(c=Fraction(0), n=a.n, k='f')
        if op == 'pow' and isinstance(a, float) and a > 0 and isinstance(b, S) and b.c is not None and b.c > 0:
            return a
        raise Unsupported('arithmetic with infinity')
    n = orn(a.n, b.n)
    k = 'f' if 'f' in (a.k, b.k) or op == 'div' else 'i'
    if op == 'add':
        if a.c is not None and b.c is not None:
            return S(c=a.c + b.c, k=k, n=n)
        if a.c == 0 and k == b.k:
            return S(b._t, n, c=b.c, k=b.k)
        if b.c == 0 and k == a.k:
            return S(a._t, n, c=a.c, k=a.k)
        return S(a.t + b.t, n) if a.k == b.k else S(a.r + b.r, n)
    if op == 'sub':
        if a.c is not None and b.c is not None:
            return S(c=a.c - b.c, k=k, n=n)
        if b.c == 0 and k == a.k:
            return S(a._t, n, c=a.c, k=a.k)
        if a.c == 0:
            return S(-b.t if b.k == k else -b.r, n)
        return S(a.t - b.t, n) if a.k == b.k else S(a.r - b.r, n)
    if op == 'mul':
        if a.c is not None and b.c is not None:
            return S(c=a.c * b.c, k=k, n=n)
        for x, y in ((a, b), (b, a)):
            if x.c == 0:
                return S(c=Fraction(0), k=k, n=n)
            if x.c == 1 and y.k == k:
                return S(y._t, n, c=y.c, k=y.k)
        return S(a.t * b.t, n) if a.k == b.k else S(a.r * b.r, n)
    if op == 'pow':
        if a.c is not None and b.c is not None and b.c.denominator == 1 and 0 <= b.c <= 64:
            return S(c=a.c ** int(b.c), k=k, n=n)
        if b.c is None or b.c.denominator != 1 or b.c < 0 or b.c > 8:
            if b.c is not None and b.c == Fraction(1, 2):
                return f_sqrt(a)
            raise Unsupported('power with a symbolic or negative exponent')
        r = S(c=Fraction(1), k=a.k)
        for _ in range(int(b.c)):
            r = num2(r, a, 'mul')
        return S(r._t, n, c=r.c, k=r.k)
    # divisions
    if b.c is not None:
        if b.c == 0:
            raise Unsupported('division by the constant zero')
    elif CTX is not None and CTX.lax_division and op == 'div':
        # numpy: a quotient by zero is some unspecified value (inf or nan), not an error
        q = z3.Function('quotient_by_zero', R, R)
        x = z3.If(b.t != 0, a.r / z3.If(b.r != 0, b.r, z3.RealVal(1)), q(a.r))
        return S(x, n)
    else:
        ctx().require('denominator', z3.Implies(nn(n), b.t != 0), 'division by zero')
    if op == 'div':
        if a.c is not None and b.c is not None:
            return S(c=a.c / b.c, n=n)
        if a.c == 0:
            return S(c=Fraction(0), n=n)
        if b.c == 1:
            return S(a.r, n)
        return S(a.r / b.r, n)
    q = floor_quot(a, b, n)
    if op == 'fdiv':
        return q if k == 'i' else S(q.r, n) if q.c is None else S(c=q.c, n=n)
    m = num2(a, num2(q, b, 'mul'), 'sub')
    return S(m._t, n, c=m.c, k=k)


def floor_quot(a, b, n):
    """floor(a / b) as an integer"""
    if a.c is not None and b.c is not None:
        return S(c=Fraction((a.c / b.c).__floor__()), k='i', n=n)
    if a.k == 'i' and b.k == 'i' and b.c is not None and b.c > 0:
        return S(a.t / b.t, n)
    k = ctx().fresh('quot', I, (a.r, b.r))
    kr = z3.ToReal(k)
    ctx().fact(z3.And(z3.Implies(b.r > 0, z3.And(kr * b.r <= a.r, a.r < kr * b.r + b.r)),
                      z3.Implies(b.r < 0, z3.And(kr * b.r >= a.r, a.r > kr * b.r + b.r))))
    return S(k, n)


def nn(n):
    return z3.BoolVal(True) if n is None else z3.Not(n)


def cmp2(a, b, op):
    if isinstance(a, A) or isinstance(b, A):
        return ew2(lambda x, y: cmp2(x, y, op), a, b)
    if b is None or isinstance(b, (str, tuple, list, dict, Stub)):
        if op in ('==', '!='):
            return op == '!='
        return NotImplemented
    a, b = lnum(a), lnum(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return SB({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
        inf, other = (a, b) if isinstance(a, float) else (b, a)
        pos = (inf > 0) == (inf is b)       # the right side is the larger one
        v = {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        return SB(z3.And(nn(other.n), z3.BoolVal(v))) if op != '!=' else SB(True)
    if a.c is not None and b.c is not None:
        x, y = a.c, b.c
        r = z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
    else:
        x, y = (a.t, b.t) if a.k == b.k else (a.r, b.r)
        r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    n = orn(a.n, b.n)
    if n is not None:
        r = z3.Or(n, r) if op == '!=' else z3.And(z3.Not(n), r)
    return SB(r)


def bool2(a, b, f):
    if isinstance(a, A) or isinstance(b, A):
        return ew2(lambda x, y: bool2(x, y, f), a, b)
    if b is None:
        return NotImplemented
    return SB(f(truth(a), truth(b)))


def truth(x):
    x = lift(x)
    return x.b if isinstance(x, SB) else cmp2(x, 0, '!=').b


def ite(c, a, b):
    """If on lifted scalars; c is a z3 Bool"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, BVS) or isinstance(b, BVS):
        a, b = bv2(a, b)
        return BVS(z3.If(c, a.v, b.v), a.signed)
    a, b = lift(a), lift(b)
    if isinstance(a, SB) and isinstance(b, SB):
        return SB(z3.If(c, a.b, b.b))
    a, b = lnum(a), lnum(b)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('infinity in a conditional value')
    n = None
    if a.n is not None or b.n is not None:
        n = z3.simplify(z3.If(c, z3.BoolVal(False) if a.n is None else a.n, z3.BoolVal(False) if b.n is None else b.n))
    if a.c is not None and a.c == b.c and a.k == b.k:
        return S(c=a.c, k=a.k, n=n)
    # a value that is only meaningful as nan takes the other branch's number
    if a.n is not None and z3.is_true(a.n):
        return S(b._t, n, c=b.c, k=b.k)
    if b.n is not None and z3.is_true(b.n):
        return S(a._t, n, c=a.c, k=a.k)
    if a.k == b.k:
        return S(a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t), n)
    return S(z3.If(c, a.r, b.r), n)


# ---------------------------------------------------------------- bit vectors (machine integers)

class BVS(object):
    """symbolic machine integer of fixed width"""
    __slots__ = ('v', 'signed')
    __array_priority__ = 1000
    __array_ufunc__ = None
    shape = ()
    ndim = 0

    def __init__(self, v, signed=False):
        self.v, self.signed = v, signed

    def _b(self, o, f, rev=False):
        a, b = bv2(self, o)
        if rev:
            a, b = b, a
        return BVS(f(a.v, b.v), a.signed)

    def __and__(self, o):
        if isinstance(o, A):
            return NotImplemented
        return self._b(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._b(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return self._b(o, lambda a, b: a << b, True)

    def __rshift__(self, o):
        return self._b(o, lambda a, b: a >> b if self.signed else z3.LShR(a, b))

    def __rrshift__(self, o):
        return self._b(o, lambda a, b: a >> b if self.signed else z3.LShR(a, b), True)

    def __mod__(self, o):
        if not (isinstance(o, (int, np.integer)) and o > 0 and o & (o - 1) == 0):
            raise Unsupported('modulo of a machine integer by something that is no power of two')
        return self._b(int(o) - 1, lambda a, b: a & b)

    def __invert__(self):
        return BVS(~self.v, self.signed)

    def __neg__(self):
        return BVS(-self.v, self.signed)

    def _c(self, o, op):
        if o is None:
            return op == '!='
        a, b = bv2(self, o)
        s = a.signed
        x, y = a.v, b.v
        return SB({'<': lambda: x < y if s else z3.ULT(x, y), '<=': lambda: x <= y if s else z3.ULE(x, y), '>': lambda: x > y if s else z3.UGT(x, y),
                   '>=': lambda: x >= y if s else z3.UGE(x, y), '==': lambda: x == y, '!=': lambda: x != y}[op]())

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        return self._c(o, '==')

    def __ne__(self, o):
        return self._c(o, '!=')

    def __hash__(self):
        return hash(self.v.get_id())

    def __bool__(self):
        return bool(self._c(0, '!='))

    def __index__(self):
        v = z3.simplify(self.v)
        if not z3.is_bv_value(v):
            raise Unsupported('data-dependent machine integer used as an index')
        return v.as_signed_long() if self.signed else v.as_long()

    __int__ = __index__

    def __rpow__(self, o):
        if not (isinstance(o, (int, np.integer)) and o == 2):
            raise Unsupported('power with a machine integer exponent')
        return BVS(z3.BitVecVal(1, self.v.size()) << self.v, self.signed)

    def astype(self, d, copy=True):
        return bvcast(self, d)

    def __repr__(self):
        return 'BVS(%s)' % str(self.v)[:60]


def bv2(a, b):
    if not isinstance(a, BVS):
        a, b = bv2(b, a)
        return b, a
    if not isinstance(b, BVS):
        if isinstance(b, SB):
            b = BVS(z3.If(b.b, z3.BitVecVal(1, a.v.size()), z3.BitVecVal(0, a.v.size())), a.signed)
        elif isinstance(b, S) and b.c is not None and b.k == 'i':
            b = BVS(z3.BitVecVal(int(b.c), a.v.size()), a.signed)
        elif isinstance(b, (int, np.integer)):
            w = a.v.size()
            if not -(1 << (w - 1)) <= int(b) < (1 << w):
                raise Unsupported('constant outside of the machine integer range')
            b = BVS(z3.BitVecVal(int(b), w), a.signed)
        else:
            raise Unsupported('machine integer combined with %s' % type(b).__name__)
    w = max(a.v.size(), b.v.size())

    def ext(x):
        d = w - x.v.size()
        return BVS(z3.SignExt(d, x.v) if x.signed else z3.ZeroExt(d, x.v), x.signed) if d else x
    a, b = ext(a), ext(b)
    sg = a.signed and b.signed
    return BVS(a.v, sg), BVS(b.v, sg)


def bvcast(x, d):
    d = np.dtype(d)
    if d.kind not in 'ui':
        raise Unsupported('machine integer converted to %s' % d)
    w = d.itemsize * 8
    s = x.v.size()
    v = x.v if s == w else (z3.Extract(w - 1, 0, x.v) if w < s else (z3.SignExt(w - s, x.v) if x.signed else z3.ZeroExt(w - s, x.v)))
    return BVS(v, d.kind == 'i')


# ---------------------------------------------------------------- arrays

class Dom(object):
    """generic row of the row set `base`, restricted to the rows satisfying the guard"""

    def __init__(self, base, guard=None):
        self.base, self.guard = base, z3.BoolVal(True) if guard is None else guard

    def same(self, o):
        return self.base == o.base and (self.guard.eq(o.guard) or ctx().equivalent(self.guard, o.guard))


class SymDim(object):
    """length of an axis of unknown length"""

    def __init__(self, dom):
        self.dom = dom

    def __eq__(self, o):
        if isinstance(o, SymDim):
            if self.dom.same(o.dom):
                return True
            raise Unsupported('comparison of two different axis lengths')
        return cmp2(S(ctx().length(self.dom)), o, '==')

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.dom.base)

    def num(self):
        return S(ctx().length(self.dom))

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __bool__(self):
        return bool(self.num() > 0)

    def __add__(self, o):
        return num2(self.num(), o.num() if isinstance(o, SymDim) else o, 'add')
    __radd__ = __add__

    def __sub__(self, o):
        return num2(self.num(), o.num() if isinstance(o, SymDim) else o, 'sub')

    def __rsub__(self, o):
        return num2(o, self.num(), 'sub')

    def __mul__(self, o):
        return num2(self.num(), o.num() if isinstance(o, SymDim) else o, 'mul')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return num2(self.num(), o.num() if isinstance(o, SymDim) else o, 'div')

    def __rtruediv__(self, o):
        return num2(o, self.num(), 'div')

    def __index__(self):
        raise Unsupported('axis length of unknown value used as a number')


def rowterm(base):
    """number of the generic row in its row set"""
    c = ctx()
    v = z3.Int('row!' + base)
    l = c.rowvars.setdefault(base, [])
    if not any(x.eq(v) for x in l):
        l.append(v)
    return v


class RowIdx(object):
    def __init__(self, dom):
        self.dom = dom

    def __index__(self):
        raise Unsupported('generic row index used as a number')


class Seq(object):
    """array of unknown length n: the function k -> value; read-only"""

    def __init__(self, f, n, kind='f'):
        self.f, self.n, self.kind = f, n, kind

    @property
    def shape(self):
        return (PyInt(self.n),)

    size = property(lambda self: PyInt(self.n))
    ndim = 1
    dtype = property(lambda self: DTK[self.kind])
    __hash__ = None

    def __len__(self):
        raise Unsupported('len of a sequence outside the shadow namespace')

    def __iter__(self):
        raise Unsupported('iteration over a sequence of unknown length')

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def at(self, i, what='index', clip=False):
        i = lnum(i)
        if i.k == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if i.n is not None:
            raise Unsupported('index that may be nan')
        t = i.t
        if clip:
            ctx().require(what, self.n > 0, 'take from a non-empty array')
            return S(self.f(z3.If(t < 0, 0, z3.If(t >= self.n, self.n - 1, t))))
        ctx().require(what, z3.And(t >= -self.n, t < self.n), 'index within the array')
        return S(self.f(z3.If(t < 0, t + self.n, t)))

    def __getitem__(self, k):
        if isinstance(k, Seq):
            c = ctx()
            i = c.fresh('pos', I)
            c.require('index array', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.n), z3.And(k.f(i) >= 0, k.f(i) < self.n))), 'index within the array')
            return Seq(lambda j: self.f(k.f(j)), k.n, self.kind)
        if isinstance(k, A):
            if k.kind != 'i':
                raise Unsupported('index array of kind %s' % k.kind)
            return A(map1(self.at, k.d), k.gen, self.kind, k.row)
        if isinstance(k, (int, np.integer, S)) and not isinstance(k, bool):
            return self.at(k)
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None):
            return self
        raise Unsupported('index of type %s on a sequence' % type(k).__name__)

    def take(self, k, axis=None, out=None, mode='raise'):
        if mode not in ('clip', 'raise') or out is not None or not isinstance(k, A):
            raise Unsupported('take with mode %s' % mode)
        if mode == 'raise':
            return self[k]
        return A(map1(lambda i: self.at(i, 'take', True), k.d), k.gen, self.kind, k.row)

    def copy(self):
        return self

    def argsort(self, *a, **k):
        """a permutation that sorts"""
        c = ctx()
        m = c.counter['argsort'] = c.counter.get('argsort', 0) + 1
        p, q = z3.Function('sorter!%d' % m, I, I), z3.Function('place!%d' % m, I, I)
        i, j = z3.Ints('i j')
        ok = lambda x: z3.And(x >= 0, x < self.n)
        c.fact(z3.ForAll([i], z3.Implies(ok(i), z3.And(ok(p(i)), q(p(i)) == i)), patterns=[p(i)]))
        c.fact(z3.ForAll([i], z3.Implies(ok(i), z3.And(ok(q(i)), p(q(i)) == i)), patterns=[q(i)]))
        c.fact(z3.ForAll([i, j], z3.Implies(z3.And(ok(i), ok(j), i <= j), self.f(p(i)) <= self.f(p(j))), patterns=[z3.MultiPattern(p(i), p(j))]))
        r = Seq(p, self.n, 'i')
        r.inverse = q
        return r

    def searchsorted(self, v, side='left', sorter=None):
        if isinstance(sorter, Seq):
            return self[sorter].searchsorted(v, side)
        if sorter is not None or side not in ('left', 'right'):
            raise Unsupported('searchsorted')
        c = ctx()
        i, j = z3.Ints('i j')
        ok = lambda x: z3.And(x >= 0, x < self.n)
        c.require('searchsorted', z3.ForAll([i, j], z3.Implies(z3.And(ok(i), ok(j), i <= j), self.f(i) <= self.f(j))), 'sorted array')

        def one(x):
            x = lnum(x)
            if x.n is not None:
                raise Unsupported('searchsorted of nan')
            s = c.fresh('insert_' + side, I)
            c.fact(z3.And(s >= 0, s <= self.n))
            y = zreal(x.t)
            lt = (lambda a: zreal(a) < y) if side == 'left' else (lambda a: zreal(a) <= y)
            c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s), lt(self.f(i))), patterns=[self.f(i)]))
            c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= s, i < self.n), z3.Not(lt(self.f(i)))), patterns=[self.f(i)]))
            # the neighbours of the insertion point are what matters: their terms trigger the facts
            c.fact(z3.Implies(s > 0, lt(self.f(s - 1))))
            c.fact(z3.Implies(s < self.n, z3.Not(lt(self.f(s)))))
            return S(s)
        if not isinstance(v, A):
            return one(v)
        return A(map1(one, v.d), v.gen, 'i', v.row)


DTK = {'f': np.dtype(np.float64), 'i': np.dtype(np.int64), 'b': np.dtype(bool)}


def kind_of(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, Stub):
        raise Unsupported('unknown dtype')
    if dtype is sfloat:
        return 'f'
    if dtype is sint:
        return 'i'
    d = np.dtype(dtype)
    if d.kind == 'f':
        return 'f'
    if d.kind in 'iu':
        return 'i'
    if d.kind == 'b':
        return 'b'
    raise Unsupported('dtype %s' % d)


def cast(x, dtype):
    """scalar conversion"""
    if isinstance(x, BVS):
        return bvcast(x, dtype)
    k = kind_of(dtype)
    if k is None:
        return x
    if k == 'b':
        return SB(truth(x))
    x = lnum(x)
    if isinstance(x, float):
        return x
    if k == 'f':
        return x if x.k == 'f' else (S(c=x.c, n=x.n) if x.c is not None else S(x.r, x.n))
    if x.k == 'i':
        return x
    if x.c is not None and x.n is None:
        return S(c=Fraction(int(x.c)), k='i')
    if x.n is not None:
        raise Unsupported('possible nan converted to an integer')
    return S(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


class A(object):
    """symbolic array: object ndarray plus, per axis, None (concrete length) or a Dom (generic row)"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, d, gen=None, kind=None, row=False):
        self.d = d
        self.gen = tuple(gen) if gen is not None else (None,) * d.ndim
        self.kind = kind if kind else scan_kind(d)
        self.row = row
        self.birth = CTX.serial if CTX is not None else 0
        assert len(self.gen) == d.ndim

    # ---- attributes
    @property
    def shape(self):
        return tuple(SymDim(g) if g is not None else n for n, g in zip(self.d.shape, self.gen))

    @property
    def ndim(self):
        return self.d.ndim

    @property
    def dtype(self):
        x = self.d.flat[0] if self.d.size else None
        if isinstance(x, BVS):
            return np.dtype('%sint%d' % ('' if x.signed else 'u', x.v.size()))
        return DTK[self.kind]

    @property
    def size(self):
        s = S(c=Fraction(1), k='i')
        for n, g in zip(self.d.shape, self.gen):
            s = s * (SymDim(g).num() if g is not None else n)
        return int(s.c) if s.c is not None else s

    @property
    def T(self):
        return A(self.d.T, self.gen[::-1], self.kind, self.row)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        if not ax:
            return self.T
        return A(self.d.transpose(ax), [self.gen[i] for i in ax], self.kind, self.row)

    def copy(self):
        return A(self.d.copy(), self.gen, self.kind)

    def astype(self, dtype, copy=True):
        return A(map1(lambda x: cast(x, dtype), self.d), self.gen, kind_of(dtype))

    def dot(self, o):
        return NP.dot(self, o)

    def __matmul__(self, o):
        return NP.matmul(self, o)

    def sum(self, axis=None, **k):
        return NP.sum(self, axis=axis, **k)

    def any(self, axis=None):
        return NP.any(self, axis=axis)

    def all(self, axis=None):
        return NP.all(self, axis=axis)

    def max(self, axis=None):
        return NP.max(self, axis=axis)

    def min(self, axis=None):
        return NP.min(self, axis=axis)

    def flatten(self):
        return NP.ravel(self).copy()

    def ravel(self):
        return NP.ravel(self)

    def reshape(self, *s, **k):
        return NP.reshape(self, s[0] if len(s) == 1 else s)

    def tolist(self):
        if any(g is not None for g in self.gen):
            raise Unsupported('tolist of an array of unknown length')
        return self.d.tolist()

    def __len__(self):
        if self.gen[0] is not None:
            raise Unsupported('len of an array of unknown length')
        return self.d.shape[0]

    def __iter__(self):
        if self.d.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.gen[0] is not None:
            for i in rowloop(self.gen[0], sys._getframe(1)):
                yield self[i]
            return
        for i in range(self.d.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.d.ndim == 0:
            return bool(SB(truth(self.d[()])))
        if self.d.size == 1 and all(g is None for g in self.gen):
            return bool(SB(truth(self.d.flat[0])))
        raise Unsupported('truth value of an array')

    def __float__(self):
        if self.d.size == 1 and all(g is None for g in self.gen):
            return float(lnum(self.d.flat[0]))
        raise Unsupported('float() of an array')

    def item(self):
        if self.d.size == 1 and all(g is None for g in self.gen):
            return self.d.flat[0]
        raise Unsupported('item() of an array')

    def __repr__(self):
        return 'A(%s, %s)' % ([('n' if g else n) for n, g in zip(self.d.shape, self.gen)], self.kind)

    __hash__ = None

    # ---- operators
    def _in(self, o, op):
        self._writable()
        r = num2(self, o, op) if isinstance(op, str) else op(self, o)
        if not isinstance(r, A):
            r = A(np.array(r, dtype=object))
        if r.kind == 'f' and self.kind == 'i':
            raise Unsupported('float written into an integer array')
        if r.d.shape != self.d.shape:
            raise Unsupported('in-place operation with broadcasting of the target')
        self.d[...] = r.d
        return self

    def __iadd__(self, o):
        return self._in(o, 'add')

    def __isub__(self, o):
        return self._in(o, 'sub')

    def __imul__(self, o):
        return self._in(o, 'mul')

    def __itruediv__(self, o):
        return self._in(o, 'div')

    def __iand__(self, o):
        return self._in(o, lambda a, b: a & b)

    def __ior__(self, o):
        return self._in(o, lambda a, b: a | b)

    def __neg__(self):
        return num2(0, self, 'sub')

    def __pos__(self):
        return self

    def __abs__(self):
        return ew1(lambda x: abs(lnum(x)), self)

    def __invert__(self):
        if self.kind == 'b':
            return ew1(lambda x: SB(z3.Not(truth(x))), self)
        return ew1(lambda x: ~x, self)

    def _writable(self):
        c = CTX
        if c is not None and c.rowloops and not self.row and self.birth < c.rowloops[-1]:
            raise Unsupported('write to state shared between rows inside a loop over rows')

    # ---- indexing
    def _index(self, key):
        """normalise a key: list of (axis entry) and result description"""
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, A) and k.kind == 'b' and k.ndim > 1))
        n += sum(k.ndim for k in key if isinstance(k, A) and k.kind == 'b' and k.ndim > 1)
        out = []
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.d.ndim - n)
            else:
                out.append(k)
        return out

    def _resolve(self, key):
        """(numpy key on self.d, result gen, [guards], mask key for symbolic masks, row)"""
        ent = self._index(key)
        nk, gen, masks, row = [], [], [], self.row
        ax = 0
        adv = []
        for k in ent:
            if k is None:
                nk.append(None)
                gen.append(None)
                continue
            if ax >= self.d.ndim:
                raise IndexError('too many indices for array')
            g = self.gen[ax]
            n = self.d.shape[ax]
            if isinstance(k, RowIdx):
                if g is None:
                    if n == 1:
                        raise Unsupported('generic row index on an axis of length one')
                    raise Unsupported('generic row index on a concrete axis')
                if not g.same(k.dom):
                    raise Unsupported('generic row index of another row set')
                nk.append(0)
                row = True
            elif isinstance(k, slice):
                if g is not None:
                    st = (k.start, k.stop, k.step)
                    if st != (None, None, None) and not (st[0] in (None, 0) and st[2] is None and isinstance(st[1], SymDim) and st[1].dom.same(g)):
                        raise Unsupported('slice of an axis of unknown length')
                    nk.append(slice(None))
                else:
                    nk.append(k)
                gen.append(g)
            elif isinstance(k, (int, np.integer, BVS)) and not isinstance(k, bool):
                k = int(k)
                if g is not None:
                    raise Unsupported('single row of an axis of unknown length')
                if not -n <= k < n:
                    raise IndexError('index %d is out of bounds for axis %d with size %d' % (k, ax, n))
                nk.append(int(k))
            elif isinstance(k, S):
                if g is not None or k.c is None:
                    raise Unsupported('symbolic index')
                nk.append(int(k))
            elif isinstance(k, A) and k.kind == 'b' or isinstance(k, (list, np.ndarray)) and len(k) and all(isinstance(v, (bool, np.bool_, SB)) for v in k):
                if not isinstance(k, A):
                    k = NP.array(list(k))
                if k.ndim > 1:
                    if k.ndim != self.d.ndim or len(ent) != 1:
                        raise Unsupported('mask of several dimensions')
                    masks.append(('full', k))
                    nk = [slice(None)] * self.d.ndim
                    gen = list(self.gen)
                    ax = self.d.ndim
                    continue
                if g is not None:
                    if k.gen[0] is None or not g.same(k.gen[0]):
                        raise Unsupported('mask over another row set')
                    cond = truth(k.d[0])
                    masks.append(('row', cond))
                    nk.append(slice(None))
                    gen.append(Dom(g.base, z3.simplify(z3.And(g.guard, cond))))
                    adv.append(len(gen) - 1)
                else:
                    if k.gen[0] is not None or k.d.shape[0] != n:
                        raise Unsupported('mask over another axis')
                    vals = [z3.simplify(truth(v)) for v in k.d]
                    if all(z3.is_true(v) or z3.is_false(v) for v in vals):
                        nk.append(np.array([z3.is_true(v) for v in vals]))
                        gen.append(None)
                        adv.append(len(gen) - 1)
                    else:
                        masks.append(('axis', ax, vals))
                        nk.append(slice(None))
                        gen.append(None)
            elif isinstance(k, (list, tuple, np.ndarray, A)):
                if isinstance(k, A):
                    if any(x is not None for x in k.gen):
                        raise Unsupported('symbolic index array')
                    k = k.d.tolist()
                k = np.array([int(v) for v in np.ravel(np.array(k, dtype=object))], dtype=int)
                if g is not None:
                    raise Unsupported('index array on an axis of unknown length')
                nk.append(k)
                gen.append(None)
                adv.append(len(gen) - 1)
            else:
                raise Unsupported('index of type %s' % type(k).__name__)
            ax += 1
        if sum(isinstance(v, np.ndarray) for v in nk) > 1:
            raise Unsupported('several index arrays')
        return tuple(nk), gen, masks, row

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported('field of a plain array')
        nk, gen, masks, row = self._resolve(key)
        if len(masks) == 1 and masks[0][0] == 'full' and len([g for g in self.gen if g is not None]) <= 1:
            m = masks[0][1]
            return Picked([(truth(m.d[i]), self.d[i]) for i in np.ndindex(*self.d.shape)], [g for g in self.gen if g is not None])
        if any(m[0] == 'axis' for m in masks) or any(m[0] == 'full' for m in masks):
            raise Unsupported('selection by a symbolic mask over a concrete axis')
        if CTX is not None and CTX.rowloops and any(g is not None for g in gen) and not (isinstance(key, slice)):
            raise Unsupported('whole-array access inside a loop over rows')
        r = self.d[nk]
        if masks:
            r = map1(lambda x: under(x, [m[1] for m in masks]), r) if isinstance(r, np.ndarray) else r
        if not isinstance(r, np.ndarray):
            return r
        # an integer index next to an advanced index on another axis keeps the order only if adjacent
        return A(r, gen, self.kind, row)

    @staticmethod
    def _truncated(v):
        if isinstance(v, float):
            raise Unsupported('number that is not finite written into an integer array')
        return cast(v, np.int64)

    def __setitem__(self, key, v):
        nk, gen, masks, row = self._resolve(key)
        if not row:
            self._writable()
        if not isinstance(v, A):
            v = NP.array(v) if isinstance(v, (list, tuple, np.ndarray)) else v
        tgt = self.d[nk]
        if isinstance(v, A):
            if v.kind == 'f' and self.kind == 'b':
                raise Unsupported('float written into an array of truth values')
            vgen = (None,) * (len(gen) - v.d.ndim) + v.gen
            for a, b, n in zip(gen, vgen[-len(gen):] if gen else (), (1,) * (len(gen) - v.d.ndim) + v.d.shape):
                if a is None and b is not None:
                    raise Unsupported('row axis written to a concrete axis')
                if a is not None and b is None and n != 1:
                    raise Unsupported('concrete axis written to a row axis')
                if a is not None and b is not None and not a.same(b):
                    raise Unsupported('rows of another row set written')
            vd = v.d if v.kind != 'f' or self.kind == 'f' else map1(self._truncated, v.d)
        else:
            vd = cast(v, DTK[self.kind]) if not isinstance(v, (BVS, float)) else v
            if isinstance(vd, float):
                vd = lift(vd)
        if not isinstance(tgt, np.ndarray):
            tgt = np.array(tgt, dtype=object)
        if isinstance(vd, np.ndarray):
            if vd.ndim > tgt.ndim:
                while vd.ndim > tgt.ndim and vd.shape[0] == 1:
                    vd = vd[0]
            try:
                new = np.broadcast_to(vd, tgt.shape)
            except ValueError:
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (vd.shape, tgt.shape))
        else:
            new = np.empty(tgt.shape, dtype=object)
            new[...] = vd
        for m in masks:
            if m[0] == 'row':
                new = map2(lambda x, y: ite(m[1], x, y), new, tgt)
            elif m[0] == 'axis':
                sh = [1] * tgt.ndim
                sh[m[1]] = len(m[2])
                cond = np.empty(len(m[2]), dtype=object)
                cond[:] = m[2]
                cond = np.broadcast_to(cond.reshape(sh), tgt.shape)
                out = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(*tgt.shape):
                    out[i] = ite(cond[i], new[i], tgt[i])
                new = out
            else:
                out = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(*tgt.shape):
                    out[i] = ite(truth(m[1].d[i]), new[i], tgt[i])
                new = out
        if self.kind == 'f':
            new = map1(lambda x: cast(x, np.float64) if not isinstance(x, float) else x, new)
        if new.ndim == 0:
            new = new[()]
        self.d[nk] = new


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div'), ('floordiv', 'fdiv'), ('mod', 'mod'), ('pow', 'pow')):
    setattr(A, '__%s__' % _n, (lambda o: lambda self, x: arith(self, x, o))(_o))
    setattr(A, '__r%s__' % _n, (lambda o: lambda self, x: arith(x, self, o))(_o))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(A, '__%s__' % _n, (lambda o: lambda self, x: compare(self, x, o))(_o))
for _n, _f in (('and', z3.And), ('or', z3.Or), ('xor', z3.Xor)):
    setattr(A, '__%s__' % _n, (lambda f: lambda self, x: bitop(self, x, f))(_f))
    setattr(A, '__r%s__' % _n, (lambda f: lambda self, x: bitop(x, self, f))(_f))
A.__hash__ = None


def atoms(f, v=True):
    """literals implied by a formula"""
    if z3.is_not(f):
        if z3.is_or(f.arg(0)):
            return [x for y in f.arg(0).children() for x in atoms(y, False)]
        return atoms(f.arg(0), not v)
    if v and z3.is_and(f):
        return [x for y in f.children() for x in atoms(y, True)]
    if not v and z3.is_or(f):
        return [x for y in f.children() for x in atoms(y, False)]
    return [(f, z3.BoolVal(v))]


def under(x, conds):
    """the value where the conditions hold"""
    if not isinstance(x, S) or x.c is not None and x.n is None:
        return x
    sub = [a for f in conds for a in atoms(z3.simplify(f)) if not z3.is_true(a[0]) and not z3.is_false(a[0])]
    if not sub:
        return x
    n = None if x.n is None else z3.simplify(z3.substitute(x.n, *sub))
    if n is not None and z3.is_false(n):
        n = None
    if x.c is not None:
        return S(c=x.c, k=x.k, n=n)
    if not any(mentions(x._t, a[0]) for a in sub):
        return S(x._t, n)
    return S(z3.simplify(z3.substitute(x._t, *sub), **SIMP), n)


class RowSummary(object):
    """result of numpy unique on rows: only its length is known"""

    def __init__(self, what, n):
        self.what, self.n = what, n
        self.shape = (PyInt(n),)

    size = property(lambda self: PyInt(self.n))

    def __getattr__(self, k):
        raise Unsupported('%s: %s' % (self.what, k))


class Part(object):
    """part k of n consecutive parts of the rows of an array (numpy array_split); a: values for the rows of that part, whole: what was split"""

    def __init__(self, a, k, n, whole):
        self.a, self.k, self.n, self.whole = a, k, n, whole

    def with_rows(self, a):
        return Part(a, self.k, self.n, self.whole)

    def __getattr__(self, k):
        raise Unsupported('part of an array: %s' % k)


def join_parts(items, axis):
    """the parts in order give the whole"""
    p = items[0]
    if axis != 0 or not all(isinstance(x, Part) for x in items):
        raise Unsupported('concatenate of parts of arrays')
    if len(items) != p.n or any(x.whole is not p.whole for x in items) or [x.k for x in items] != list(range(p.n)):
        raise Unsupported('parts of an array joined in another order')
    for x in items[1:]:
        if x.a.d.shape != p.a.d.shape or any(not u.eq(v) for u, v in zip(cells(x.a), cells(p.a))):
            raise Unsupported('parts of an array treated differently')
    return p.a


def cells(a):
    return [t for x in a.d.flat for t in ((lift(x).b,) if isinstance(lift(x), SB) else (lnum(x).t,) + ((lnum(x).n,) if lnum(x).n is not None else ()))]


class Masking(object):
    """numpy.ma: a masked value is an undefined one that sums leave out"""

    def masked_invalid(self, a):
        return Masked(a)

    def __getattr__(self, k):
        raise Unsupported('numpy.ma.%s' % k)


class Masked(object):
    def __init__(self, a):
        self.a = a

    def sum(self, axis=None):
        a = self.a
        z = map1(lambda x: ite(lnum(x).n, S(c=Fraction(0), k='f'), S(lnum(x)._t, c=lnum(x).c, k=lnum(x).k)) if lnum(x).n is not None else x, a.d)
        r = NP.sum(A(z, a.gen, 'f'), axis=axis)
        n = NP.all(NP.isnan(a), axis=axis)
        # entirely masked: the contract has to exclude it
        c = ctx()
        guarded(r.gen if isinstance(r, A) else (), lambda: [c.require('masked sum', z3.Not(truth(x)), 'at least one valid entry') for x in (n.d.flat if isinstance(n, A) else [n])])
        return r

    def __getattr__(self, k):
        raise Unsupported('masked array: %s' % k)


def machine_dtype(dtype):
    """machine integers as bit vectors where the contract asks for it"""
    if CTX is None or not getattr(CTX, 'machine_ints', False) or dtype is None or dtype in (sfloat, sint) or isinstance(dtype, (Stub, list, TabDtype)):
        return False
    d = np.dtype(dtype)
    return d.kind == 'u'


def machine(v, dtype):
    if isinstance(v, BVS):
        return bvcast(v, dtype)
    d = np.dtype(dtype)
    v = lnum(v)
    if not isinstance(v, S) or v.c is None or v.n is not None or v.c.denominator != 1 or not 0 <= v.c < 1 << (8 * d.itemsize):
        raise Unsupported('value stored as machine integer')
    return BVS(z3.BitVecVal(int(v.c), 8 * d.itemsize), False)


class TabDtype(object):
    """dtype of a table"""
    def __init__(self, descr):
        self.descr = list(descr)
        self.names = tuple(d[0] for d in self.descr)

    @property
    def fields(self):
        return {d[0]: (d[1], 0) for d in self.descr}

    def __getitem__(self, k):
        return dict((d[0], d[1]) for d in self.descr)[k]

    def __eq__(self, o):
        return isinstance(o, TabDtype) and o.descr == self.descr

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def is_record(dtype):
    return isinstance(dtype, TabDtype) or isinstance(dtype, list) or isinstance(dtype, np.dtype) and dtype.names is not None


class Tab(object):
    """table (structured array) of unknown length: one generic row, a column per field"""
    __array_ufunc__ = None

    def __init__(self, cols, dom):
        self.cols, self.dom = cols, dom

    @staticmethod
    def new(shape, dtype, make):
        if isinstance(shape, tuple):
            if len(shape) != 1:
                raise Unsupported('table of several dimensions')
            shape = shape[0]
        if not isinstance(shape, SymDim):
            raise Unsupported('table of a known length')
        descr = dtype if isinstance(dtype, list) else dtype.descr
        names = [d[0] for d in descr]
        if len(set(names)) != len(names):
            raise ValueError('field %r occurs more than once' % [n for n in names if names.count(n) > 1][0])
        if any(len(d) != 2 for d in descr):
            raise Unsupported('column with a shape')
        return Tab({d[0]: make(d[1], shape) for d in descr}, shape.dom)

    @property
    def dtype(self):
        return TabDtype([(k, a.dtype) for k, a in self.cols.items()])

    shape = property(lambda self: (SymDim(self.dom),))
    size = property(lambda self: SymDim(self.dom).num())
    ndim = 1
    __hash__ = None

    def __len__(self):
        raise Unsupported('len of a table outside the shadow namespace')

    def __bool__(self):
        raise Unsupported('truth value of a table')

    def __iter__(self):
        raise Unsupported('loop over the rows of a table')

    def copy(self):
        return Tab({k: a.copy() for k, a in self.cols.items()}, self.dom)

    def astype(self, *a, **k):
        raise Unsupported('astype of a table')

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError('no field of name %s' % k)
            return self.cols[k]
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            return Tab({x: self[x] for x in k}, self.dom)
        cols = {n: a[k] for n, a in self.cols.items()}
        a = next(iter(cols.values()))
        if not isinstance(a, A) or a.ndim != 1 or a.gen[0] is None:
            raise Unsupported('row of a table')
        return Tab(cols, a.gen[0])

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self[k][:] = v
        elif isinstance(v, Tab):
            for n in self.cols:
                self.cols[n][k] = v[n]
        else:
            raise Unsupported('assignment to rows of a table')


class Picked(object):
    """values selected from an array of several axes by a mask: only for any and all"""

    def __init__(self, items, gens):
        self.items, self.gens = items, gens

    def _cmp(self, o, op):
        if isinstance(o, (A, Picked)):
            raise Unsupported('comparison of a selection')
        return Picked([(g, SB(truth(compare(x, o, op)))) for g, x in self.items], self.gens)

    def forall(self, neg=False):
        f = z3.And(*[z3.Implies(g, z3.Not(truth(x)) if neg else truth(x)) for g, x in self.items])
        return SB(ctx().forall(self.gens[0], f)) if self.gens else SB(f)

    def any(self):
        return ~self.forall(True)

    def all(self):
        return self.forall()


for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    setattr(Picked, '__%s__' % _n, (lambda o: lambda self, x: self._cmp(x, o))(_o))
Picked.__hash__ = None


def is_bv(x):
    return isinstance(x, BVS) or isinstance(x, A) and x.d.size and isinstance(x.d.flat[0], BVS)


def arith(a, b, op):
    if is_bv(a) or is_bv(b):
        import operator
        f = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul}.get(op)
        if f is None:
            raise Unsupported('%s of machine integers' % op)
        return ew2(f, a, b)
    if isinstance(a, (list, tuple, np.ndarray)):
        a = NP.array(a)
    if isinstance(b, (list, tuple, np.ndarray)):
        b = NP.array(b)
    if a is None or b is None:
        raise TypeError('unsupported operand type(s)')
    return num2(a, b, op)


def compare(a, b, op):
    if is_bv(a) or is_bv(b):
        return ew2(lambda x, y: x._c(y, op) if isinstance(x, BVS) else y._c(x, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)), a, b)
    if isinstance(b, (list, tuple, np.ndarray)):
        b = NP.array(b)
    if b is None:
        raise Unsupported('array compared to None')
    return cmp2(a, b, op)


def bitop(a, b, f):
    if isinstance(a, (list, np.ndarray)):
        a = NP.array(a)
    if isinstance(b, (list, np.ndarray)):
        b = NP.array(b)
    if is_bv(a) or is_bv(b):
        import operator
        return ew2({z3.And: operator.and_, z3.Or: operator.or_, z3.Xor: operator.xor}[f], a, b)
    for x in (a, b):
        if isinstance(x, A) and x.kind != 'b':
            raise Unsupported('bit operation on numbers')
    return bool2(a, b, f)


def scan_kind(d):
    if d.size == 0:
        return 'f'
    ks = set()
    for x in d.flat:
        ks.add('b' if isinstance(x, (SB, bool, np.bool_)) else 'f' if isinstance(x, float) else 'i' if isinstance(x, (BVS, int, np.integer)) else lift(x).k)
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'


def map1(f, d):
    out = np.empty(d.shape, dtype=object)
    for i in np.ndindex(*d.shape):
        out[i] = f(d[i])
    return out


def map2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    return out


def as_a(x):
    if isinstance(x, A):
        return x
    if isinstance(x, (list, tuple, np.ndarray)):
        return NP.array(x)
    d = np.empty((), dtype=object)
    d[()] = x if isinstance(x, (float, BVS)) and not x != x else lift(x)
    return A(d, (), scan_kind(d))


def merge_gen(a, b):
    """generic axes of the broadcast of two arrays"""
    n = max(a.d.ndim, b.d.ndim)
    out = []
    for ax in range(-n, 0):
        ga = a.gen[ax] if -ax <= a.d.ndim else None
        gb = b.gen[ax] if -ax <= b.d.ndim else None
        na = a.d.shape[ax] if -ax <= a.d.ndim else 1
        nb = b.d.shape[ax] if -ax <= b.d.ndim else 1
        if ga is not None and gb is not None:
            if not ga.same(gb):
                raise Unsupported('operation on rows of different row sets')
        elif ga is not None and nb != 1 or gb is not None and na != 1:
            raise Unsupported('row axis combined with a concrete axis of length %d' % max(na, nb))
        elif na != nb and na != 1 and nb != 1:
            raise ValueError('operands could not be broadcast together with shapes %s %s' % (a.d.shape, b.d.shape))
        out.append(ga if ga is not None else gb)
    return out


def guarded(gen, f):
    """evaluate f with the guards of the generic axes as local hypotheses"""
    gs = [g.guard for g in gen if g is not None and not z3.is_true(g.guard)]
    if not gs or CTX is None:
        return f()
    CTX.guards += gs
    try:
        return f()
    finally:
        del CTX.guards[-len(gs):]


def ew1(f, a, kind=None):
    if not isinstance(a, A):
        if isinstance(a, (list, tuple, np.ndarray)):
            a = NP.array(a)
        else:
            return f(lift(a))
    if CTX is not None and CTX.rowloops and any(g is not None for g in a.gen):
        raise Unsupported('whole-array operation inside a loop over rows')
    r = A(guarded(a.gen, lambda: map1(f, a.d)), a.gen, kind)
    return r.d[()] if r.d.ndim == 0 else r


def ew2(f, a, b, kind=None):
    a, b = as_a(a), as_a(b)
    gen = merge_gen(a, b)
    if CTX is not None and CTX.rowloops and any(g is not None for g in gen):
        raise Unsupported('whole-array operation inside a loop over rows')
    r = A(guarded(gen, lambda: map2(f, a.d, b.d)), gen, kind)
    return r.d[()] if r.d.ndim == 0 else r


# ---------------------------------------------------------------- functions on scalars

def f_sqrt(x):
    x = lnum(x)
    if x.c is not None:
        from math import isqrt
        c = x.c
        if c >= 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
            return S(c=Fraction(isqrt(c.numerator), isqrt(c.denominator)), n=x.n)
    ctx().require('root', z3.Implies(nn(x.n), x.r >= 0), 'square root of a negative number')
    return S(SQRT(x.r), x.n)


def f_app(fn, c0=None):
    def g(x):
        x = lnum(x)
        if x.c == 0 and c0 is not None:
            return S(c=Fraction(c0), n=x.n)
        return S(fn(x.r), x.n)
    return g


def f_atan2(y, x):
    y, x = lnum(y), lnum(x)
    return S(ATAN2(y.r, x.r), orn(x.n, y.n))


def f_inv(fn, what):
    def g(x):
        x = lnum(x)
        ctx().require('domain', z3.Implies(nn(x.n), z3.And(x.r <= 1, x.r >= -1)), '%s outside of [-1, 1]' % what)
        return S(fn(x.r), x.n)
    return g


def f_log(x):
    x = lnum(x)
    ctx().require('domain', z3.Implies(nn(x.n), x.r > 0), 'logarithm of a number that is not positive')
    return S(LOG(x.r), x.n)


def f_floor(x):
    x = lnum(x)
    if x.k == 'i':
        return cast(x, np.float64)
    q = floor_quot(x, S(c=Fraction(1), k='i'), x.n)
    return S(c=q.c, n=x.n) if q.c is not None else S(q.r, x.n)


def f_rint(x):
    """nearest integer, halves to the even one"""
    x = lnum(x)
    if x.k == 'i':
        return cast(x, np.float64)
    if x.c is not None:
        return S(c=Fraction(round(x.c)), n=x.n)
    f = z3.ToInt(x.t + z3.RealVal('1/2'))
    tie = z3.And(z3.ToReal(f) == x.t + z3.RealVal('1/2'), f % 2 != 0)
    return S(z3.ToReal(z3.If(tie, f - 1, f)), x.n)


def f_isnan(x):
    x = lift(x)
    if isinstance(x, float):
        return SB(False)
    return SB(False) if isinstance(x, SB) or x.n is None else SB(x.n)


def f_min(a, b):
    a, b = lnum(a), lnum(b)
    return ite(cmp2(a, b, '<=').b, S(a._t, c=a.c, k=a.k), S(b._t, c=b.c, k=b.k)) if a.n is None and b.n is None else nanprop(a, b, f_min)


def f_max(a, b):
    a, b = lnum(a), lnum(b)
    return ite(cmp2(a, b, '>=').b, S(a._t, c=a.c, k=a.k), S(b._t, c=b.c, k=b.k)) if a.n is None and b.n is None else nanprop(a, b, f_max)


def nanprop(a, b, f):
    r = f(S(a._t, c=a.c, k=a.k), S(b._t, c=b.c, k=b.k))
    return S(r._t, orn(a.n, b.n), c=r.c, k=r.k)


# ---------------------------------------------------------------- linear algebra with canonical inverses

def mat_key(m):
    nm = ctx().norm
    return tuple(tuple(nm.qkey(nm.of(resolved(lnum(x).r))) for x in r) for r in m)


def resolved(t):
    """case distinctions decided by what is known are removed"""
    for _ in range(8):
        cs = []
        conditions(t, cs, set())
        sub = []
        for f in cs:
            l = []
            conditions(f, l, set())
            if l:
                continue
            for v in (True, False):
                if ctx().check([z3.Not(f) if v else f], 1000) == z3.unsat:
                    sub.append((f, z3.BoolVal(v)))
                    break
        if not sub:
            return t
        t = z3.simplify(z3.substitute(t, *sub), **SIMP)
    return t


def canon(tag, m, shape):
    """fresh reals determined by the (normal forms of the) entries of a matrix"""
    c = ctx()
    key = (tag, mat_key(m))
    if key not in c.canon:
        nm = '%s%d' % (tag, len(c.canon))
        c.canon[key] = np.array([z3.Real('%s_%s' % (nm, '_'.join(map(str, i)))) for i in np.ndindex(*shape)] or [z3.Real(nm)], dtype=object).reshape(shape) \
            if shape else z3.Real(nm)
    return c.canon[key]


def det_of(m):
    """determinant (concrete 2-d object array)"""
    m = np.asarray(m, dtype=object)
    n = m.shape[0]
    if n <= 3:
        def det(r, cols):
            if len(cols) == 1:
                return m[r][cols[0]]
            s = Z0('f')
            for i, cc in enumerate(cols):
                t = lnum(m[r][cc]) * det(r + 1, cols[:i] + cols[i + 1:])
                s = s + t if i % 2 == 0 else s - t
            return s
        return lnum(det(0, list(range(n))))
    return S(canon('det', m, ()))


def inv_of(m):
    m = np.asarray(m, dtype=object)
    n = m.shape[0]
    new = ('inv', mat_key(m)) not in ctx().canon
    v = canon('inv', m, (n, n))
    out = map1(lambda t: S(t), v)
    if new and n <= 3:
        e = np.dot(m, out)
        f = np.dot(out, m)
        d = det_of(m)
        for i in range(n):
            for j in range(n):
                ctx().fact(z3.Implies(d.r != 0, z3.And(lnum(e[i, j]).r == (1 if i == j else 0), lnum(f[i, j]).r == (1 if i == j else 0))))
    return out


# ---------------------------------------------------------------- numpy proxy

class Linalg(object):
    def __getattr__(self, n):
        raise Unsupported('numpy.linalg.%s' % n)

    def det(self, a):
        a = as_a(a)
        if a.ndim != 2 or any(g is not None for g in a.gen):
            if a.ndim == 3 and a.gen[0] is not None:
                return A(np.array([det_of(a.d[0])], dtype=object), a.gen[:1])
            raise Unsupported('determinant of a stack')
        return det_of(a.d)

    def inv(self, a):
        a = as_a(a)
        if a.ndim == 2 and all(g is None for g in a.gen):
            ctx().require('invertible', det_of(a.d).r != 0, 'inverse of a singular matrix')
            return A(inv_of(a.d), kind='f')
        if a.ndim == 3 and a.gen[0] is not None:
            guarded(a.gen, lambda: ctx().require('invertible', det_of(a.d[0]).r != 0, 'inverse of a singular matrix'))
            return A(inv_of(a.d[0])[None], a.gen, 'f')
        raise Unsupported('inverse of a stack')

    def norm(self, a, axis=None, ord=None):
        if ord is not None:
            raise Unsupported('norm with ord')
        a = as_a(a)
        return NP.sqrt(NP.sum(a * a, axis=axis))

    def multi_dot(self, l):
        r = l[0]
        for x in l[1:]:
            r = NP.dot(r, x)
        return r

    def eigvalsh(self, a):
        a = as_a(a)
        out = []
        if a.ndim == 2:
            return A(map1(lambda t: S(t), canon('eig', a.d, (a.d.shape[0],))), kind='f')
        if a.ndim == 3 and a.gen[0] is not None:
            return A(map1(lambda t: S(t), canon('eig', a.d[0], (a.d.shape[1],)))[None], (a.gen[0], None), 'f')
        raise Unsupported('eigenvalues of a stack')


class NumpyProxy(object):
    linalg = Linalg()
    newaxis = None
    nan = float('nan')
    inf = INF
    PASS = ('float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'uint64', 'uint32', 'uint16', 'uint8', 'bool_', 'dtype', 'integer', 'floating', 'number', 'errstate', 'iinfo', 'int_', 'intp', 'generic')

    def __getattr__(self, n):
        if n in self.PASS:
            return getattr(np, n)
        raise Unsupported('numpy.%s' % n)

    @property
    def pi(self):
        if CTX is None:
            return np.pi
        return S(PI)

    ndarray = A

    # ---- construction
    def array(self, x, dtype=None, copy=True, ndmin=0):
        if isinstance(x, A):
            r = A(x.d.copy(), x.gen, x.kind)
        elif isinstance(x, np.ndarray):
            r = A(map1(lambda v: lift(v) if lift(v) is not None else v, x.astype(object)), None, None)
        elif isinstance(x, (list, tuple)):
            items = [self.array(v) if isinstance(v, (list, tuple, A, np.ndarray)) else as_a(v) for v in x]
            if not items:
                r = A(np.empty((0,), dtype=object), None, 'f')
            else:
                nd = max(v.d.ndim for v in items)
                gen = [None] * nd
                for v in items:
                    if v.d.ndim != nd:
                        raise Unsupported('ragged array')
                    for i, g in enumerate(v.gen):
                        if (g is None) != (items[0].gen[i] is None) or v.d.shape[i] != items[0].d.shape[i]:
                            raise Unsupported('ragged array')
                        if g is not None and not g.same(items[0].gen[i]):
                            raise Unsupported('rows of different row sets')
                        gen[i] = g
                d = np.empty((len(items),) + items[0].d.shape, dtype=object)
                for i, v in enumerate(items):
                    d[i] = v.d if nd else v.d[()]
                r = A(d, [None] + gen)
        else:
            r = as_a(x)
        if dtype is not None:
            r = r.astype(dtype) if not is_bv(r) else A(map1(lambda v: cast(v, dtype), r.d), r.gen, kind_of(dtype))
        while r.ndim < ndmin:
            r = A(r.d[None], (None,) + r.gen, r.kind)
        return r

    def asarray(self, x, dtype=None):
        if isinstance(x, A) and (dtype is None or kind_of(dtype) == x.kind):
            return x
        return self.array(x, dtype)

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def copy(self, x):
        return self.array(x)

    def _shape(self, shape):
        if isinstance(shape, (int, np.integer, SymDim, S)):
            shape = (shape,)
        sh, gen = [], []
        for n in shape:
            if isinstance(n, SymDim):
                sh.append(1)
                gen.append(n.dom)
            else:
                sh.append(int(n))
                gen.append(None)
        return tuple(sh), gen

    def full(self, shape, fill_value=0.0, dtype=None):
        if is_record(dtype):
            return Tab.new(shape, dtype, lambda dt, n: self.full(n, fill_value, dt))
        sh, gen = self._shape(shape)
        v = lift(fill_value)
        if dtype is not None:
            v = machine(v, dtype) if machine_dtype(dtype) else cast(v, dtype)
        d = np.empty(sh, dtype=object)
        d[...] = v
        return A(d, gen, kind_of(dtype) or scan_kind(np.array([v], dtype=object)))

    def zeros(self, shape, dtype=None):
        return self.full(shape, 0, dtype or np.float64)

    def ones(self, shape, dtype=None):
        return self.full(shape, 1, dtype or np.float64)

    def empty(self, shape, dtype=None):
        if is_record(dtype):
            return Tab.new(shape, dtype, lambda dt, n: self.empty(n, dt))
        sh, gen = self._shape(shape)
        k = kind_of(dtype or np.float64)
        d = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            if machine_dtype(dtype):
                dt = np.dtype(dtype)
                d[i] = BVS(ctx().fresh('uninit', z3.BitVecSort(8 * dt.itemsize)), dt.kind == 'i')
                continue
            t = ctx().fresh('uninit', {'f': R, 'i': I, 'b': B}[k])
            d[i] = lift(t)
        return A(d, gen, k)

    def _like(self, a, v, dtype):
        if not isinstance(a, (A, Tab)):
            a = as_a(a)
        if isinstance(a, Tab):
            if dtype is not None:
                raise Unsupported('table like another with a dtype')
            return self.full(a.shape, v, a.dtype)
        if dtype is None:
            dtype = a.dtype
        x = lift(v)
        if machine_dtype(dtype):
            d = np.empty(a.d.shape, dtype=object)
            d[...] = machine(x, dtype)
            return A(d, a.gen, 'i')
        x = x if isinstance(x, float) else cast(x, dtype) if not (x.__class__ is S and x.n is not None and kind_of(dtype) == 'f') else x
        d = np.empty(a.d.shape, dtype=object)
        d[...] = x
        r = A(d, a.gen, kind_of(dtype))
        return r if r.d.ndim else r

    def zeros_like(self, a, dtype=None):
        return self._like(a, 0, dtype)

    def ones_like(self, a, dtype=None):
        return self._like(a, 1, dtype)

    def full_like(self, a, fill_value, dtype=None):
        return self._like(a, fill_value, dtype)

    def empty_like(self, a, dtype=None):
        a = a if isinstance(a, Tab) else as_a(a)
        return self.empty(a.shape, dtype or a.dtype)

    def eye(self, N, M=None, k=0, dtype=None):
        return self.array(np.eye(int(N), None if M is None else int(M), k), dtype or np.float64)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def diag(self, v):
        v = as_a(v)
        if any(g is not None for g in v.gen):
            raise Unsupported('diag over rows')
        return A(np.array([[v.d[i] if i == j else Z0('f') for j in range(len(v.d))] for i in range(len(v.d))], dtype=object)) if v.ndim == 1 else A(np.diag(v.d).copy())

    def vectorize(self, f=None, **k):
        def refuse(*a, **k):
            raise Unsupported('numpy.vectorize')
        return refuse

    def nonzero(self, a):
        from vf import merge
        return merge.nonzero(as_a(a))

    def arange(self, *a, **k):
        if len(a) == 1 and type(a[0]).__name__ == 'GSize':
            return srange(*a)
        if any(isinstance(x, SymDim) for x in a):
            raise Unsupported('arange over rows')
        return self.array(np.arange(*[int(x) if isinstance(x, S) and x.k == 'i' else float(x) if isinstance(x, S) else x for x in a], **k))

    def atleast_1d(self, a):
        a = as_a(a)
        return a if a.ndim else A(a.d.reshape(1), (None,), a.kind)

    def tile(self, a, reps):
        a = as_a(a)
        if not isinstance(reps, (tuple, list)):
            reps = (reps,)
        if all(isinstance(r, (int, np.integer)) for r in reps):
            if any(g is not None for g in a.gen):
                raise Unsupported('tile of rows')
            return A(np.tile(a.d, reps), None, a.kind)
        n = max(len(reps), a.ndim)
        reps = (1,) * (n - len(reps)) + tuple(reps)
        d = a.d.reshape((1,) * (n - a.ndim) + a.d.shape)
        gen = [None] * (n - a.ndim) + list(a.gen)
        out_r = []
        for i, r in enumerate(reps):
            if isinstance(r, SymDim):
                if d.shape[i] != 1 or gen[i] is not None:
                    raise Unsupported('tile of an axis by an unknown number')
                gen[i] = r.dom
                out_r.append(1)
            else:
                if gen[i] is not None and int(r) != 1:
                    raise Unsupported('tile of rows')
                out_r.append(int(r))
        return A(np.tile(d, out_r), gen, a.kind)

    # ---- joining
    def _join(self, items, axis):
        items = [as_a(x) for x in items]
        gen = list(items[0].gen)
        for x in items:
            if x.gen[axis] is not None:
                raise Unsupported('concatenation along rows')
            for i, g in enumerate(x.gen):
                if i != axis % len(gen):
                    if (g is None) != (gen[i] is None):
                        raise Unsupported('row axis joined with a concrete axis')
                    if g is not None and not g.same(gen[i]):
                        raise Unsupported('rows of different row sets')
        return A(np.concatenate([x.d for x in items], axis=axis), gen)

    def concatenate(self, items, axis=0):
        items = list(items) if isinstance(items, (list, tuple)) else items
        if isinstance(items, list) and items and isinstance(items[0], Part):
            return join_parts(items, axis)
        return self._join(items, axis)

    def column_stack(self, items):
        items = [as_a(x) for x in items]
        items = [A(x.d[:, None], x.gen + (None,), x.kind) if x.ndim == 1 else x for x in items]
        return self._join(items, 1)

    def vstack(self, items):
        items = [as_a(x) for x in items]
        items = [A(x.d[None], (None,) + x.gen, x.kind) if x.ndim == 1 else x for x in items]
        return self._join(items, 0)

    row_stack = vstack

    def hstack(self, items):
        items = [self.atleast_1d(x) for x in items]
        return self._join(items, 0 if items[0].ndim == 1 else 1)

    def stack(self, items, axis=0):
        items = [as_a(x) for x in items]
        out = []
        for x in items:
            ax = axis % (x.ndim + 1)
            out.append(A(np.expand_dims(x.d, ax), x.gen[:ax] + (None,) + x.gen[ax:], x.kind))
        return self._join(out, axis)

    def ravel(self, a):
        a = as_a(a)
        if a.ndim == 1:
            return a
        if any(g is not None for g in a.gen):
            raise Unsupported('flattening rows')
        return A(a.d.ravel(), None, a.kind)

    def reshape(self, a, s):
        a = as_a(a)
        if any(g is not None for g in a.gen):
            s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
            if a.gen[0] is not None and all(g is None for g in a.gen[1:]) and isinstance(s[0], SymDim) and s[0].dom.same(a.gen[0]):
                d = a.d.reshape((1,) + tuple(int(x) for x in s[1:]))
                return A(d, (a.gen[0],) + (None,) * (d.ndim - 1), a.kind)
            # one row index, everything else of size 1: (-1, 1), (1, -1), (-1,)
            if a.d.size == 1 and sum(g is not None for g in a.gen) == 1 and all(isinstance(x, int) for x in s) and s.count(-1) == 1 and all(x == 1 for x in s if x != -1):
                g = [x for x in a.gen if x is not None][0]
                return A(a.d.reshape((1,) * len(s)), tuple(g if x == -1 else None for x in s), a.kind)
            raise Unsupported('reshape of rows')
        return A(a.d.reshape(s), None, a.kind)

    def transpose(self, a, axes=None):
        return as_a(a).transpose(*(axes or ()))

    def squeeze(self, a, axis=None):
        a = as_a(a)
        keep = [i for i in range(a.ndim) if a.gen[i] is not None or a.d.shape[i] != 1]
        if axis is not None:
            keep = [i for i in range(a.ndim) if i != axis % a.ndim]
        return A(a.d.reshape([a.d.shape[i] for i in keep]), [a.gen[i] for i in keep], a.kind)

    def expand_dims(self, a, axis):
        a = as_a(a)
        ax = axis % (a.ndim + 1)
        return A(np.expand_dims(a.d, ax), a.gen[:ax] + (None,) + a.gen[ax:], a.kind)

    def diagonal(self, a):
        a = as_a(a)
        if any(g is not None for g in a.gen):
            raise Unsupported('diagonal over rows')
        return A(np.diagonal(a.d).copy(), None, a.kind)

    def trace(self, a):
        return self.sum(self.diagonal(a))

    # ---- products
    def dot(self, a, b, out=None):
        a, b = as_a(a), as_a(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        if a.gen[-1] is not None or b.gen[-2 if b.ndim > 1 else -1] is not None:
            raise Unsupported('product summing over rows')
        if CTX.rowloops and any(g is not None for g in a.gen + b.gen):
            raise Unsupported('whole-array operation inside a loop over rows')
        gen = list(a.gen[:-1]) + (list(b.gen[:-2]) + [b.gen[-1]] if b.ndim > 1 else [])
        r = np.dot(a.d, b.d)
        if not isinstance(r, np.ndarray):
            return lift(r)
        if CTX.name_products and r.ndim == 2 and not any(gen):
            for i in np.ndindex(*r.shape):
                one = float(i[0] == i[1])
                r[i] = CTX.named('product', lift(r[i]) - one) + one
        return A(r, gen)

    def matmul(self, a, b):
        a, b = as_a(a), as_a(b)
        if a.ndim <= 2 and b.ndim <= 2:
            return self.dot(a, b)
        aa = a if a.ndim >= 2 else A(a.d[None], (None,) + a.gen, a.kind)
        bb = b if b.ndim >= 2 else A(b.d[:, None], b.gen + (None,), b.kind)
        if aa.gen[-1] is not None or bb.gen[-2] is not None:
            raise Unsupported('product summing over rows')
        n = max(aa.ndim, bb.ndim)
        pa = A(aa.d.reshape((1,) * (n - aa.ndim) + aa.d.shape), (None,) * (n - aa.ndim) + aa.gen, aa.kind)
        pb = A(bb.d.reshape((1,) * (n - bb.ndim) + bb.d.shape), (None,) * (n - bb.ndim) + bb.gen, bb.kind)
        s = None
        for k in range(pa.d.shape[-1]):
            t = A(pa.d[..., :, k][..., None], pa.gen[:-1] + (None,)) * A(pb.d[..., k, :][..., None, :], pb.gen[:-2] + (None, pb.gen[-1]))
            s = t if s is None else s + t
        if b.ndim == 1:
            s = A(s.d[..., 0], s.gen[:-1])
        if a.ndim == 1:
            s = A(s.d[..., 0, :], s.gen[:-2] + s.gen[-1:])
        return s

    def inner(self, a, b):
        a, b = as_a(a), as_a(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.dot(a, b)
        return self.dot(a, b.T)

    def outer(self, a, b):
        a, b = as_a(a), as_a(b)
        return A(a.d[:, None], a.gen + (None,)) * A(b.d[None], (None,) + b.gen)

    def cross(self, a, b):
        a, b = as_a(a), as_a(b)
        if a.d.shape[-1] != 3 or b.d.shape[-1] != 3:
            raise Unsupported('cross product of vectors that are not 3-dimensional')

        def col(x, i):
            return A(x.d[..., i], x.gen[:-1], x.kind)
        out = [col(a, (i + 1) % 3) * col(b, (i + 2) % 3) - col(a, (i + 2) % 3) * col(b, (i + 1) % 3) for i in range(3)]
        if not isinstance(out[0], A):
            return self.array(out)
        return self.stack(out, axis=-1)

    def einsum(self, spec, *ops):
        ops = [as_a(o) for o in ops]
        spec = spec.replace(' ', '')
        ins, out = spec.split('->') if '->' in spec else (spec, None)
        ins = ins.split(',')
        letters = []
        for s, o in zip(ins, ops):
            if '.' in s or len(s) != o.ndim:
                raise Unsupported('einsum %s' % spec)
            for c in s:
                if c not in letters:
                    letters.append(c)
        if out is None:
            out = ''.join(sorted(c for c in letters if ''.join(ins).count(c) == 1))
        order = list(out) + [c for c in letters if c not in out]
        r = None
        for s, o in zip(ins, ops):
            if len(set(s)) != len(s):
                raise Unsupported('einsum %s' % spec)
            have = [c for c in order if c in s]
            x = o.transpose(*[s.index(c) for c in have]) if len(have) > 1 else o
            key = tuple(slice(None) if c in s else None for c in order)
            x = A(x.d[key], [o.gen[s.index(c)] if c in s else None for c in order], o.kind)
            r = x if r is None else r * x
        for i in range(len(order) - len(out)):
            r = self.sum(r, axis=len(out))
        return r

    # ---- reductions
    def _reduce(self, a, axis, f, init=None):
        a = as_a(a)
        axes = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
        if any(a.gen[i] is not None for i in axes):
            raise Unsupported('reduction over rows')
        d, gen = a.d, list(a.gen)
        for i in sorted(axes, reverse=True):
            if d.shape[i] == 0:
                r = np.empty(d.shape[:i] + d.shape[i + 1:], dtype=object)
                r[...] = init
            else:
                r = np.take(d, 0, axis=i)
                r = np.asarray(r, dtype=object)
                for j in range(1, d.shape[i]):
                    r = map2(f, r, np.asarray(np.take(d, j, axis=i), dtype=object))
            d = r
            del gen[i]
        return d[()] if d.ndim == 0 else A(d, gen)

    def sum(self, a, axis=None, dtype=None, keepdims=False):
        if isinstance(a, Masked):
            return a.sum(axis)
        a = as_a(a)
        if a.kind == 'b':
            a = A(map1(lnum, a.d), a.gen)
        r = self._reduce(a, axis, lambda x, y: num2(x, y, 'add') if not isinstance(x, BVS) else x + y, Z0('f'))
        if keepdims:
            r = self.expand_dims(r, axis)
        return lift(r) if not isinstance(r, (A, BVS)) else r

    def prod(self, a, axis=None, dtype=None):
        return self._reduce(a, axis, lambda x, y: num2(x, y, 'mul'), S(c=Fraction(1)))

    def mean(self, a, axis=None):
        a = as_a(a)
        n = a.d.size if axis is None else a.d.shape[axis]
        return self.sum(a, axis) / n

    def max(self, a, axis=None, **k):
        return self._reduce(a, axis, f_max)

    def min(self, a, axis=None, **k):
        return self._reduce(a, axis, f_min)

    amax, amin = max, min

    def all(self, a, axis=None):
        if isinstance(a, Picked):
            return a.all()
        a = as_a(a)
        axes = list(range(a.ndim)) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        rows = [i for i in axes if a.gen[i] is not None]
        conc = [i for i in axes if a.gen[i] is None]
        r = a
        if conc:
            r = as_a(self._reduce(A(map1(lambda x: SB(truth(x)), a.d), a.gen, 'b'), tuple(conc), lambda x, y: SB(z3.And(truth(x), truth(y))), SB(True)))
        if not rows:
            return SB(truth(r.d[()])) if r.ndim == 0 else r
        if len(rows) != 1 or r.ndim != 1:
            raise Unsupported('all over rows and a remaining axis')
        g = r.gen[0]
        return SB(ctx().forall(g, truth(r.d[0])))

    def any(self, a, axis=None):
        if isinstance(a, Picked):
            return a.any()
        a = as_a(a)
        r = self.all(A(map1(lambda x: SB(z3.Not(truth(x))), a.d), a.gen, 'b'), axis)
        return ~r

    @property
    def ma(self):
        return Masking()

    def unique(self, a, **k):
        """of a row selection: only the number of entries, and whether there is any"""
        if k or not isinstance(a, A) or a.ndim != 1 or a.gen[0] is None:
            raise Unsupported('unique')
        c = ctx()
        n = c.fresh('n_unique', I, (a.d[0].t, a.gen[0].guard))
        l = c.length(a.gen[0])
        c.fact(z3.And(n >= 0, n <= l, (n == 0) == (l == 0)))
        return RowSummary('unique values', n)

    def array_split(self, a, n, axis=0):
        if not isinstance(a, A) or a.gen[0] is None or axis != 0 or not isinstance(n, int) or n < 1:
            raise Unsupported('array_split')
        return [Part(a, k, n, a) for k in range(n)]

    def std(self, a, axis=None):
        """over all rows: only that it depends on nothing else than the values of these rows"""
        if not (isinstance(a, A) and a.ndim == 1 and a.gen[0] is not None and axis in (None, 0)):
            raise Unsupported('std of something else than all rows')
        c, dom = ctx(), a.gen[0]
        x = lnum(a.d[0])
        if x.n is not None and c.check([dom.guard, x.n]) != z3.unsat:
            raise Unsupported('std of values that may be undefined')

        def new():
            v = c.fresh('std', R)
            c.facts.append(v >= 0)
            return v
        return S(c.whole(('std',), a, new), c.forall(dom, z3.BoolVal(False)))

    def count_nonzero(self, a, axis=None):
        if isinstance(a, A) and a.ndim == 1 and a.gen[0] is not None and axis in (None, 0):
            g = a.gen[0]
            d = Dom(g.base, z3.simplify(z3.And(g.guard, truth(a.d[0]))))
            c = ctx()
            if c.exact_rows and not z3.is_true(d.guard) and not z3.is_false(d.guard):
                c.facts.append((c.length(d) == 0) == c.forall(Dom(g.base), z3.Not(d.guard)))
            return SymDim(d)
        return self.sum(A(map1(lambda x: SB(truth(x)).num(), as_a(a).d), as_a(a).gen), axis)

    # ---- element-wise
    def sqrt(self, x):
        return ew1(f_sqrt, x)

    def square(self, x):
        return ew1(lambda v: num2(v, v, 'mul'), x)

    def power(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'pow'), x, y)

    def sin(self, x):
        return ew1(f_app(SIN, 0), x)

    def cos(self, x):
        return ew1(f_app(COS, 1), x)

    def tan(self, x):
        return self.sin(x) / self.cos(x)

    def exp(self, x):
        return ew1(f_app(EXP, 1), x)

    def log(self, x):
        return ew1(f_log, x)

    def finfo(self, d):
        return types.SimpleNamespace(eps=S(c=Fraction(-100)), resolution=S(c=Fraction(0)))

    def arctan2(self, y, x):
        return ew2(f_atan2, y, x)

    def arctan(self, x):
        return ew1(lambda v: f_atan2(v, S(c=Fraction(1))), x)

    def arcsin(self, x):
        return ew1(f_inv(ASIN, 'arcsin'), x)

    def arccos(self, x):
        return ew1(f_inv(ACOS, 'arccos'), x)

    def absolute(self, x):
        return ew1(lambda v: abs(lnum(v)), x)

    abs = fabs = absolute

    def negative(self, x):
        return -as_a(x) if isinstance(x, (A, list)) else -x

    def sign(self, x):
        return ew1(lambda v: ite(cmp2(v, 0, '>').b, S(c=Fraction(1)), ite(cmp2(v, 0, '<').b, S(c=Fraction(-1)), S(c=Fraction(0), n=lnum(v).n))), x)

    def floor(self, x):
        return ew1(f_floor, x)

    def rint(self, x):
        return ew1(f_rint, x)

    def round(self, x, decimals=0):
        if not isinstance(decimals, int) or decimals:
            raise Unsupported('rounding to digits')
        return ew1(f_rint, x)

    around = round_ = round

    def ceil(self, x):
        return ew1(lambda v: -f_floor(-lnum(v)), x)

    def mod(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'mod'), x, y)

    remainder = mod

    def floor_divide(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'fdiv'), x, y)

    def divmod(self, x, y):
        return self.floor_divide(x, y), self.mod(x, y)

    def fmod(self, x, y):
        raise Unsupported('numpy.fmod')

    def add(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'add'), x, y)

    def subtract(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'sub'), x, y)

    def multiply(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'mul'), x, y)

    def divide(self, x, y):
        return ew2(lambda a, b: num2(a, b, 'div'), x, y)

    true_divide = divide

    def minimum(self, x, y):
        return ew2(f_min, x, y)

    def maximum(self, x, y):
        return ew2(f_max, x, y)

    def clip(self, x, lo, hi):
        return ew1(lambda v: f_min(f_max(v, lo), hi), x)

    def hypot(self, x, y):
        return self.sqrt(self.square(x) + self.square(y))

    def deg2rad(self, x):
        return ew1(lambda v: lnum(v) * S(PI) / 180, x)

    def rad2deg(self, x):
        return ew1(lambda v: lnum(v) * 180 / S(PI), x)

    def isnan(self, x):
        return ew1(f_isnan, x, 'b')

    def isfinite(self, x):
        return ew1(lambda v: SB(False) if isinstance(v, float) else ~f_isnan(v), x, 'b')

    def isinf(self, x):
        return ew1(lambda v: SB(isinstance(v, float)), x, 'b')

    def nan_to_num(self, x, copy=True, nan=0.0):
        def f(v):
            v = lnum(v)
            return v if v.n is None else ite(v.n, lift(nan), S(v._t, c=v.c, k=v.k))
        if not copy and isinstance(x, A):
            x._writable()
            x.d[...] = map1(f, x.d)
            return x
        return ew1(f, x)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08):
        def f(x, y):
            x, y = lnum(x), lnum(y)
            return cmp2(abs(x - y), lnum(atol) + lnum(rtol) * abs(y), '<=')
        return ew2(f, a, b, 'b')

    def allclose(self, a, b, rtol=1e-05, atol=1e-08):
        return self.all(self.isclose(a, b, rtol, atol))

    def array_equal(self, a, b):
        return self.all(as_a(a) == as_a(b))

    def logical_and(self, a, b, out=None):
        return ew2(lambda x, y: SB(z3.And(truth(x), truth(y))), a, b, 'b')

    def logical_or(self, a, b, out=None):
        return ew2(lambda x, y: SB(z3.Or(truth(x), truth(y))), a, b, 'b')

    def logical_xor(self, a, b, out=None):
        return ew2(lambda x, y: SB(z3.Xor(truth(x), truth(y))), a, b, 'b')

    def logical_not(self, a):
        return ew1(lambda x: SB(z3.Not(truth(x))), a, 'b')

    bitwise_and = lambda self, a, b: as_a(a) & b
    bitwise_or = lambda self, a, b: as_a(a) | b

    def where(self, c, *ab):
        if not ab:
            c = as_a(c)
            if c.ndim != 1 or c.gen[0] is None:
                raise Unsupported('where with one argument')
            g = c.gen[0]
            return (A(np.array([S(rowterm(g.base))], dtype=object), (Dom(g.base, z3.simplify(z3.And(g.guard, truth(c.d[0])))),), 'i'),)
        a, b = as_a(ab[0]), as_a(ab[1])
        c = as_a(c)
        gen = merge_gen(c, A(*(lambda g: (np.empty(np.broadcast_shapes(a.d.shape, b.d.shape), dtype=object), g, 'f'))(merge_gen(a, b))))
        cc, aa, bb = np.broadcast_arrays(c.d, a.d, b.d)
        out = np.empty(cc.shape, dtype=object)
        for i in np.ndindex(*cc.shape):
            out[i] = ite(truth(cc[i]), aa[i], bb[i])
        return A(out, gen) if out.ndim else out[()]

    def searchsorted(self, a, v, side='left', sorter=None):
        if not isinstance(a, Seq):
            raise Unsupported('searchsorted')
        return a.searchsorted(v, side, sorter)

    def argsort(self, a, axis=-1, kind=None, order=None):
        if not isinstance(a, Seq):
            raise Unsupported('argsort')
        return a.argsort()

    def take(self, a, idx, axis=None, out=None, mode='raise'):
        if isinstance(a, Seq):
            return a.take(idx, axis, out, mode)
        if mode != 'raise':
            raise Unsupported('take with a mode')
        return as_a(a)[(slice(None),) * (axis or 0) + (idx,)]

    def shape(self, a):
        return as_a(a).shape

    def ndim(self, a):
        return as_a(a).ndim

    def isscalar(self, a):
        return not isinstance(a, (A, list, tuple))

    def broadcast_to(self, a, shape):
        a = as_a(a)
        z = self.zeros(shape)
        return A(np.broadcast_to(a.d, z.d.shape).copy(), merge_gen(a, z), a.kind)


NP = NumpyProxy()


# ---------------------------------------------------------------- exploration

class Infeasible(BaseException):
    pass


class PathEnd(Infeasible):
    """end of the body of a loop with an invariant: the path is covered"""


class Ctx(object):
    MAXPATHS = 400

    def __init__(self, name, func):
        self.name, self.func = name, func
        self.norm = poly.Norm()
        self.obls = []
        self.seen = set()
        self.npath = 0
        self.covered = []
        self.assumed = []

    def reset(self, prefix):
        self.path, self.dec, self.prefix = [], [], list(prefix)
        self.facts, self.counter, self.canon, self.cse = [], {}, {}, {}
        self.rowvars, self.witness, self.wholes = {}, [], []
        self.pre = []
        self.guards = []
        self.rowloops, self.serial = [], 0
        self.requires = []
        self.alternatives = []
        self.name_products = False
        self.lax_division = False
        self.exact_rows = False

    # ---- names, facts
    def fresh(self, nm, sort, key=None):
        terms = key         # kept alive: the identifiers of terms are reused after they are freed
        if key is not None:
            key = (nm,) + tuple(k.get_id() for k in key)
            if key in self.cse:
                return self.cse[key][0]
        i = self.counter[nm] = self.counter.get(nm, 0) + 1
        v = z3.Const('%s!%d' % (nm, i), sort)
        if key is not None:
            self.cse[key] = (v, terms)
        return v

    def fact(self, f):
        self.facts.append(f)

    def named(self, nm, x):
        """the same value under a fresh name"""
        x = lift(x)
        if not isinstance(x, S) or x.c is not None or x.n is not None:
            return x
        v = self.fresh(nm, x.t.sort(), (x.t,))
        if self.name_products != 'only':
            self.facts.append(v == x.t)
        return S(v)

    def prove(self, name, f, using=None, abstract=()):
        """an intermediate assertion: an obligation (from the given part of what is known, possibly with terms generalised to
        arbitrary reals), available afterwards"""
        f = f.b if isinstance(f, SB) else f
        if using is None:
            self.goal(name, f)
        else:
            known = {h.get_id() for h in self.hyps()}
            for u in using:
                assert u.get_id() in known, 'not among the hypotheses: %s' % u
            sub = [(t, z3.Real('any!%d' % i)) for i, t in enumerate(abstract) if not z3.is_rational_value(t) and not z3.is_int_value(t)]
            self.add(name, [z3.substitute(u, *sub) if sub else u for u in using], z3.substitute(f, *sub) if sub else f)
        self.facts.append(f)
        return f

    def definition(self, t):
        """axioms on a polar angle or a length, as hypotheses"""
        if t.decl().name() == 'hyp':
            y, h = t.arg(0), t.arg(1)
            f = [t >= 0, t * t == h * h + y * y]
        else:
            y, h = t.arg(0), t.arg(1)
            f = [HYP(y, h) * SIN(t) == y, HYP(y, h) * COS(t) == h]
        self.facts += f
        return f

    def combine(self, name, f, parts):
        """the equation f is the given linear combination of known equations (checked by polynomial normal form)"""
        known = {h.get_id() for h in self.hyps()}
        s = None
        for m, h in parts:
            assert h.get_id() in known and z3.is_eq(h), 'not among the hypotheses: %s' % h
            t = m * (h.arg(0) - h.arg(1))
            s = t if s is None else s + t
        self.add(name, [], f.arg(0) - f.arg(1) == s)
        self.facts.append(f)
        return f

    def assume(self, f):
        """precondition of the contract"""
        f = f.b if isinstance(f, SB) else f
        self.pre.append(f)
        return f

    def length(self, dom):
        v = z3.Int('len!%s!%d' % (dom.base, 0))
        if not z3.is_true(dom.guard):
            v = self.fresh('len_' + dom.base, I, (dom.guard,))
        f = z3.And(v >= 0, z3.Implies(dom.guard, v >= 1))
        if not any(f.eq(x) for x in self.facts[-400:]):
            self.facts.append(f)
        return v

    def hyps(self):
        return self.pre + self.facts + self.path + self.guards

    def check(self, extra, ms=400):
        s = z3.Solver()
        s.set('timeout', ms)
        hy = self.hyps()
        s.add(*hy)
        s.add(*math_facts(hy + list(extra)))
        s.add(*extra)
        return s.check()

    def whole(self, what, a, new):
        """result of a function of all rows of a column: the same for columns that are equal in every row"""
        dom, u = a.gen[0], lnum(a.d[0]).t
        for key, d, v, r in self.wholes:
            if key == what and d.base == dom.base and (d.guard.eq(dom.guard) or self.check([z3.Xor(d.guard, dom.guard)], 5000) == z3.unsat):
                if u.sort() == v.sort() and (u.eq(v) or self.check([dom.guard, u != v], 5000) == z3.unsat):
                    return r
        r = new()
        self.wholes.append((what, dom, u, r))
        return r

    def equivalent(self, a, b):
        return self.check([z3.Xor(a, b)], 2000) == z3.unsat

    # ---- quantification over rows
    def forall(self, dom, cond):
        """fresh Boolean equivalent to: cond holds for all rows of the row set"""
        cond = z3.simplify(z3.Implies(dom.guard, cond))
        if z3.is_true(cond):
            return z3.BoolVal(True)
        key = ('all', cond.get_id())
        if key in self.cse:
            return self.cse[key][0]
        b = self.fresh('all', B)
        self.cse[key] = (b, cond)
        self.facts.append(z3.Implies(b, cond))
        # for the rows found so far, too
        for old in self.witness if self.exact_rows else ():
            x = z3.substitute(cond, *old)
            if not x.eq(cond):
                self.facts.append(z3.Implies(b, x))
        w = self.substitution(dom.base)
        self.witness.append(w)
        # when it fails for some row, that row is the witness, satisfying everything known about rows
        known = [f for f in self.pre + self.facts]
        inst = [z3.substitute(f, *w) for f in known]
        self.facts.append(z3.Implies(z3.Not(b), z3.substitute(z3.Not(cond), *w)))
        self.facts += [z3.Implies(z3.Not(b), f) for f in inst if True]
        return b

    def substitution(self, base):
        i = self.counter['row'] = self.counter.get('row', 0) + 1
        sub = []
        for v in self.rowvars.get(base, []):
            sub.append((v, z3.Const('%s@%d' % (v, i), v.sort())))
        # fresh terms introduced while executing depend on the row as well
        for k, (t, _) in list(self.cse.items()):
            if k[0] == 'quot':
                sub.append((t, z3.Const('%s@%d' % (t, i), t.sort())))
        return sub

    def exists_row(self, f):
        """the formula f (over the generic row) holds for one of the witness rows"""
        return z3.Or(*[z3.substitute(f, *w) for w in self.witness]) if self.witness else z3.BoolVal(False)

    # ---- branching
    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.check([cond]) != z3.unsat
            f = self.check([z3.Not(cond)]) != z3.unsat
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                self.alternatives.append(self.dec + [False])
        self.dec.append(v)
        self.path.append(cond if v else z3.Not(cond))
        return v

    def require(self, tag, f, what):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        self.requires.append((tag, f, what, len(self.hyps())))
        h = self.hyps()
        self.add('%s %s' % (tag, what), h, f, 'safety')

    # ---- obligations
    def add(self, name, hyps, goal, kind='post'):
        o = Obl('%s: %s' % (self.name, name), hyps, goal, kind=kind, func=self.func)
        key = (name, goal.get_id(), tuple(h.get_id() for h in hyps))
        if key in self.seen:
            return
        self.seen.add(key)
        self.keep = getattr(self, 'keep', [])
        self.keep.append((hyps, goal))
        finish(o, self)
        self.obls.append(o)

    def goal(self, name, f):
        if isinstance(f, SB):
            f = f.b
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.add(name, self.hyps(), f)

    def eq(self, name, a, b):
        """a == b (scalars or arrays), element by element; nan equal to nan"""
        if isinstance(a, A) or isinstance(b, A) or isinstance(a, (list, tuple)):
            a, b = as_a(a), as_a(b)
            if a.d.shape != b.d.shape:
                if a.d.size == 1 or b.d.size == 1 or a.ndim != b.ndim:
                    self.goal(name + ' shape', False)
                    return
                self.goal(name + ' shape %s %s' % (a.d.shape, b.d.shape), False)
                return
            for i in np.ndindex(*a.d.shape):
                self.eq('%s%s' % (name, list(i) if i else ''), a.d[i], b.d[i])
            return
        if isinstance(a, BVS) or isinstance(b, BVS):
            a, b = bv2(a, b)
            self.goal(name, a.v == b.v)
            return
        a, b = lift(a), lift(b)
        if isinstance(a, SB) and isinstance(b, SB):
            self.goal(name, a.b == b.b)
            return
        a, b = lnum(a), lnum(b)
        if a.n is not None or b.n is not None:
            na, nb = (z3.BoolVal(False) if x.n is None else x.n for x in (a, b))
            if not z3.is_true(z3.simplify(na == nb)):
                self.goal(name + ' nan exactly when expected', na == nb)
            self.add(name, self.hyps() + [z3.Not(nb)], a.r == b.r if a.k != b.k else a.t == b.t)
        else:
            self.goal(name, a.r == b.r if a.k != b.k else a.t == b.t)

    # ---- symbolic inputs
    def real(self, nm, row=None, nan=False):
        t = z3.Real(nm)
        n = z3.Bool(nm + '_nan') if nan else None
        if row is not None:
            l = self.rowvars.setdefault(row, [])
            l.append(t)
            if n is not None:
                l.append(n)
        return S(t, n)

    def int(self, nm, row=None):
        t = z3.Int(nm)
        if row is not None:
            self.rowvars.setdefault(row, []).append(t)
        return S(t)

    def bool(self, nm, row=None):
        t = z3.Bool(nm)
        if row is not None:
            self.rowvars.setdefault(row, []).append(t)
        return SB(t)

    def arr(self, nm, shape, row=None, nan=False, kind='f'):
        """array of fresh symbols; an entry 'n' of the shape is the generic row axis"""
        sh = [1 if s == 'n' else s for s in shape]
        d = np.empty(sh, dtype=object)
        rows = 'n' in shape
        base = row or 'rows'
        for i in np.ndindex(*sh):
            idx = [str(j) for j, s in zip(i, shape) if s != 'n']
            x = nm + ''.join('_' + j for j in idx)
            rb = base if rows else None
            d[i] = self.real(x, rb, nan) if kind == 'f' else self.int(x, rb) if kind == 'i' else self.bool(x, rb)
        return A(d, [Dom(base) if s == 'n' else None for s in shape], kind)

    def rows(self, base='rows'):
        return SymDim(Dom(base))


def subterms(t, name):
    st, seen, out = [t], set(), []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            out.append(x)
        st += x.children()
    return out


def mentions(t, v):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st += x.children()
    return False


def math_facts(fs):
    """axioms for the mathematical functions occurring in the formulas"""
    out, seen = [], set()
    apps = {}

    def walk(t):
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                nm = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm in ('sin', 'cos', 'sqrt', 'atan2', 'asin', 'acos', 'exp', 'PI'):
                    apps.setdefault(nm, {})[x.get_id()] = x
                st += x.children()
            elif z3.is_quantifier(x):
                st.append(x.body())
    for f in fs:
        walk(f)
    pi = False
    done, keep = set(), []
    polar = list(apps.get('atan2', {}).values())
    for nm in ('sin', 'cos'):
        todo = [x.arg(0) for x in apps.get(nm, {}).values()]
        while todo:
            a = todo.pop()
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            keep.append(a)
            if polar and not a.decl().name() == 'atan2':       # full turns
                for x in polar:
                    if x.get_id() not in done:
                        todo.append(x)
                    for turn in (2, -2):
                        out.append(z3.Implies(a == x + turn * PI, z3.And(SIN(a) == SIN(x), COS(a) == COS(x))))
            for num, sv, cv in ((-2, 0, -1), (-1, -1, 0), (0, 0, 1), (1, 1, 0), (2, 0, -1)):
                if z3.is_true(z3.simplify(a == PI * z3.Q(num, 2))):
                    out += [SIN(a) == sv, COS(a) == cv]
            b = z3.simplify(PI - a)
            if mentions(a, PI) and not mentions(b, PI):
                out += [SIN(a) == SIN(b), COS(a) == -COS(b)]
                if b.get_id() not in done:
                    todo.append(b)
            out.append(SIN(a) * SIN(a) + COS(a) * COS(a) == 1)
            out += [SIN(a) <= 1, SIN(a) >= -1, COS(a) <= 1, COS(a) >= -1]
    for x in apps.get('sqrt', {}).values():
        out.append(z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0))))
    for x in apps.get('atan2', {}).values():
        pi = True
        y, h = x.arg(0), x.arg(1)
        out.append(z3.And(x <= PI, x > -PI, z3.Implies(y > 0, z3.And(x > 0, x < PI)), z3.Implies(y < 0, x < 0),
                          z3.Implies(z3.And(y == 0, h > 0), x == 0), z3.Implies(z3.And(y == 0, h < 0), x == PI), z3.Implies(z3.And(y == 0, h == 0), x == 0)))
        if x.get_id() in done:       # its sine or cosine is used
            rho = HYP(y, h)
            out += [rho >= 0, rho * rho == h * h + y * y, rho * COS(x) == h, rho * SIN(x) == y]
    for x in apps.get('acos', {}).values():
        pi = True
        a = x.arg(0)
        out.append(z3.Implies(z3.And(a <= 1, a >= -1), z3.And(x >= 0, x <= PI, COS(x) == a, SIN(x) >= 0, SIN(x) * SIN(x) + a * a == 1,
                                                                      (x == 0) == (a == 1), (x == PI) == (a == -1))))
    for x in apps.get('asin', {}).values():
        pi = True
        a = x.arg(0)
        out.append(z3.Implies(z3.And(a <= 1, a >= -1), z3.And(2 * x >= -PI, 2 * x <= PI, SIN(x) == a, COS(x) >= 0, COS(x) * COS(x) + a * a == 1)))
    for x in apps.get('exp', {}).values():
        out.append(x > 0)
    if pi or 'PI' in apps:
        out += [PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000)]
    return out


def conditions(t, out, seen):
    """If conditions in a term"""
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out.append(x.arg(0))
        st += x.children()


def finish(o, c):
    """try to discharge by normal forms; otherwise leave it to the solvers with the facts about the functions involved"""
    g = o.goal
    if z3.is_true(z3.simplify(g)):
        o.status, o.backend = 'proved', 'simplification'
        return
    if z3.is_eq(g) and g.arg(0).sort() == R:
        if eq_cases(g.arg(0), g.arg(1), o.hyps, c.norm, 7):
            o.status, o.backend = 'proved', 'polynomial normal form'
            return
    # an equation among the path conditions may be needed: eliminate simple definitions
    o.hyps = list(o.hyps) + math_facts(o.hyps + [g])


def eq_cases(a, b, hyps, nm, depth):
    cs = []
    conditions(a, cs, set())
    conditions(b, cs, set())
    if not cs:
        return poly.prove_eq(a, b, nm)
    if depth == 0:
        return False
    # innermost condition first: one without If inside
    c0 = None
    for c in cs:
        l = []
        conditions(c, l, set())
        if not l:
            c0 = c
            break
    if c0 is None:
        return False
    s = z3.Solver()
    s.set('timeout', 300)
    s.add(*hyps)
    for v in (True, False):
        h = c0 if v else z3.Not(c0)
        s.push()
        s.add(h)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            continue
        sub = (c0, z3.BoolVal(v))
        if not eq_cases(z3.simplify(z3.substitute(a, sub), **SIMP), z3.simplify(z3.substitute(b, sub), **SIMP), hyps + [h], nm, depth - 1):
            return False
    return True


SIMP = dict(som=False, arith_lhs=False)


def explore(name, func, run):
    """run(ctx) for every path; returns the obligations"""
    global CTX
    c = Ctx(name, func)
    todo = [[]]
    old = CTX
    try:
        while todo:
            if c.npath >= c.MAXPATHS:
                raise Unsupported('more than %d paths' % c.MAXPATHS)
            c.reset(todo.pop())
            CTX = c
            try:
                run(c)
                c.covered.append(c.pre + c.facts + c.path)
            except PathEnd:
                c.covered.append(c.pre + c.facts + c.path)
            except Infeasible:
                pass
            except z3.Z3Exception as ex:
                raise Unsupported('solver interface: %s' % ex)
            c.npath += 1
            todo += c.alternatives
    finally:
        CTX = old
    if c.npath and not c.covered:
        raise Unsupported('no path completed')
    for h in c.covered[:6]:
        COVERS.append((name, 'a path', h + math_facts(h)))
    for o in c.obls:
        o.paths = c.npath
    return c.obls


class Raised(object):
    """the code raised this exception"""

    def __init__(self, ex):
        self.ex = ex

    def __repr__(self):
        return 'Raised(%r)' % self.ex


def call(f, *a, **k):
    """call the code under contract; exceptions raised by its own text are results, everything else is outside of the fragment"""
    try:
        return f(*a, **k)
    except Unsupported:
        raise
    except (Infeasible, KeyboardInterrupt):
        raise
    except Exception as ex:
        tb = ex.__traceback__
        last = None
        while tb is not None:
            last = tb
            tb = tb.tb_next
        fn = last.tb_frame.f_code.co_filename
        if fn.startswith(os.path.join(real.REPO, '')):
            return Raised(ex)
        if isinstance(ex, (ValueError, IndexError)) and fn.endswith('symx.py'):
            return Raised(ex)
        raise Unsupported('%s in %s:%d: %s' % (type(ex).__name__, os.path.basename(fn), last.tb_lineno, ex))


# ---------------------------------------------------------------- loading the real source

class Stub(object):
    """something that is imported but must not be evaluated"""

    def __init__(self, name='stub'):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Stub(self._n + '.' + n)

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
            return a[0]
        if CTX is not None:
            raise Unsupported('call of %s' % self._n)
        return Stub(self._n + '()')

    def __bool__(self):
        raise Unsupported('truth value of %s' % self._n)

    def __iter__(self):
        raise Unsupported('iteration over %s' % self._n)


def njit(*a, **k):
    if a and isinstance(a[0], types.FunctionType):
        return a[0]
    return lambda f: f


class FakeNumba(types.ModuleType):
    njit = staticmethod(njit)
    jit = staticmethod(njit)
    prange = staticmethod(lambda *a: srange(*a))

    def __getattr__(self, n):
        return Stub('numba.' + n)


def rowloop(dom, frame):
    c = ctx()
    c.serial += 1
    check_loop(frame)
    before = dict(frame.f_locals)
    c.rowloops.append(c.serial)
    c.guards.append(dom.guard)
    try:
        yield RowIdx(dom)
    finally:
        c.rowloops.pop()
        c.guards.pop()
        c.serial += 1


_ASTS = {}


def check_loop(frame):
    """a loop over rows is executed for one generic row: refuse loop-carried local state"""
    import ast
    fn = frame.f_code.co_filename
    if fn not in _ASTS:
        _ASTS[fn] = ast.parse(open(fn).read())
    line = frame.f_lineno
    loops = [n for n in ast.walk(_ASTS[fn]) if isinstance(n, (ast.For, ast.comprehension)) and getattr(n, 'lineno', line) == line]
    for n in loops:
        if not isinstance(n, ast.For):
            continue
        stored, bad = set(), set()
        existing = set(frame.f_locals)
        # names assigned in the body that exist before the loop and are read in the body before any unconditional store
        tgt = {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        names = set()
        for s in n.body:
            for m in ast.walk(s):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    names.add(m.id)
                if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name):
                    bad.add(m.target.id)
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ('append', 'extend', 'add', 'update', 'pop', 'remove', 'insert'):
                    raise Unsupported('collection changed inside a loop over rows')
                if isinstance(m, (ast.Break, ast.Return)):
                    raise Unsupported('loop over rows left early')
        first = {}
        order = []

        def visit(node, cond):
            if isinstance(node, ast.Name):
                if node.id not in first:
                    first[node.id] = ('store' if isinstance(node.ctx, ast.Store) else 'load', cond)
                return
            if isinstance(node, ast.Assign):
                visit(node.value, cond)
                for t in node.targets:
                    visit(t, cond)
                return
            if isinstance(node, ast.For):
                visit(node.iter, cond)
                visit(node.target, cond)
                for s in node.body:
                    visit(s, True)
                return
            for ch in ast.iter_child_nodes(node):
                visit(ch, cond or isinstance(node, (ast.If, ast.While)))
        for s in n.body:
            visit(s, False)
        for nm in names & existing - tgt:
            if first.get(nm) != ('store', False):
                bad.add(nm)
        bad = {b for b in bad if b in existing or first.get(b, ('load',))[0] == 'load'}
        if bad - {x for x in bad if first.get(x) == ('store', False)}:
            raise Unsupported('loop over rows carries %s from row to row' % ', '.join(sorted(bad)))


def srange(*a):
    if len(a) == 1 and type(a[0]).__name__ == 'GSize':
        from vf import merge
        return merge.g_range(a[0])
    if len(a) == 1 and isinstance(a[0], SymDim):
        return rowloop(a[0].dom, sys._getframe(1))
    if len(a) == 2 and isinstance(a[1], SymDim) and a[0] == 0:
        return rowloop(a[1].dom, sys._getframe(1))
    return builtins.range(*[int(x) if isinstance(x, S) else x for x in a])


def slen(x):
    if type(x).__name__ == 'Guarded':
        return x.size
    if isinstance(x, Seq):
        return PyInt(x.n)
    if isinstance(x, Tab):
        return SymDim(x.dom)
    if isinstance(x, A):
        if x.gen and x.gen[0] is not None:
            return SymDim(x.gen[0])
        return x.d.shape[0]
    return builtins.len(x)


class _SType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)


class sfloat(metaclass=_SType):
    base = float

    def __new__(cls, x=0.0):
        if isinstance(x, A) and x.d.size == 1 and all(g is None for g in x.gen):
            x = x.d.flat[0]
        if isinstance(x, (S, SB)):
            x = cast(x, np.float64)
            return PyFloat(x.t, x.n, x.c, x.k) if x.__class__ is S and PYTYPES else x
        return builtins.float(x)


class PyFloat(S):
    """a value that has gone through float(): a Python float, not a numpy scalar"""
    __slots__ = ()


class PyInt(S):
    __slots__ = ()


PYTYPES = False


class sint(metaclass=_SType):
    base = int

    def __new__(cls, x=0, *a):
        if isinstance(x, A) and x.d.size == 1 and all(g is None for g in x.gen):
            x = x.d.flat[0]
        if isinstance(x, (S, SB)):
            x = cast(x, np.int64)
            return PyInt(x.t, x.n, x.c, x.k) if x.__class__ is S and PYTYPES else x
        if isinstance(x, BVS):
            return x
        return builtins.int(x, *a)


def smin(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (S, A)) for x in xs):
        return builtins.min(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = f_min(r, x)
    return r


def smax(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, (S, A)) for x in xs):
        return builtins.max(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = f_max(r, x)
    return r


def sisinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(y for u in ts for y in (u if isinstance(u, tuple) else (u,)))
    if isinstance(x, S):
        return any(u is A or u in (np.generic, np.number) and False or u in (float, sfloat, np.float64, np.floating) and x.k == 'f' or u in (int, sint, np.integer, np.int64) and x.k == 'i' or u is object for u in ts if not isinstance(u, Stub))
    return builtins.isinstance(x, tuple(u for u in ts if not isinstance(u, Stub)))


def sround(x, *a):
    if isinstance(x, (S, A)):
        raise Unsupported('round')
    return builtins.round(x, *a)


def ssum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sprint(*a, **k):
    pass


def sdivmod(a, b):
    if isinstance(a, (S, A)) or isinstance(b, (S, A)):
        return NP.divmod(a, b)
    return builtins.divmod(a, b)


PKG = 'beam_telescope_analysis'


class Loader(object):
    """shadow modules of the repository, executed from their current source text"""

    def __init__(self, real_modules=(), stub=(), override=None, merge=(), cut=None, load=()):
        self.mods = {}
        self.load = set(load)        # modules that are replaced by a stub otherwise
        self.cut = cut or {}         # function name -> invariants of its while loops
        self.merge = set(merge)      # modules whose case distinctions on data are joined instead of split into paths
        self.real = set(real_modules)
        self.stubs = set(stub) | {'matplotlib', 'progressbar', 'tqdm', 'numexpr', 'dill', 'pylandau', 'scipy', 'pixel_clusterizer', 'requests', 'multiprocessing'}
        self.override = override or {}

    def loop_entry(self, fn, k, loc):
        self.cut[fn].entry(k, loc)

    def loop_havoc(self, fn, k, names, loc):
        v = self.cut[fn].havoc(k, {n: loc[n] for n in names if n in loc}, loc)
        return tuple(v[n] if n in v else Undefined(n) for n in names)

    def loop_passes(self, fn, k):
        return self.cut[fn].passes(k) if hasattr(self.cut[fn], 'passes') else (1,)

    def loop_for(self, fn, k, it, loc):
        return self.cut[fn].iterate(k, it, loc)

    def loop_back(self, fn, k, loc):
        self.cut[fn].back(k, loc)
        raise PathEnd()

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if level:
            raise Unsupported('relative import')
        if name in self.override:
            return self.override[name]
        if top == 'numpy':
            if name == 'numpy.linalg':
                return NP.linalg
            if name == 'numpy.lib' or name.startswith('numpy.lib.'):
                return Stub(name)
            return NP
        if top == 'numba':
            return FakeNumba('numba')
        if top == PKG:
            if name == PKG and not fromlist:
                return self.module(PKG)
            path = os.path.join(real.REPO, name.replace('.', os.sep))
            if fromlist and os.path.isdir(path):
                m = types.SimpleNamespace()
                for f in fromlist:
                    sub = name + '.' + f
                    if os.path.exists(os.path.join(path, f + '.py')):
                        setattr(m, f, self.module(sub))
                    else:
                        setattr(m, f, Stub(sub))
                return m
            if not fromlist:
                self.module(name)
                return Stub(PKG)
            return self.module(name)
        if top in self.stubs:
            return Stub(name if fromlist else top)
        try:
            return builtins.__import__(name, None, None, fromlist, 0)
        except ImportError:
            return Stub(name if fromlist else top)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', os.sep) + '.py'
        path = os.path.join(real.REPO, rel)
        leaf = name.split('.')[-1]
        if leaf in ('plot_utils', 'smc', 'analysis_functions') and leaf not in self.load or not os.path.exists(path):
            if os.path.isdir(os.path.join(real.REPO, name.replace('.', os.sep))):
                m = types.ModuleType(name)
                m.__file__ = os.path.join(real.REPO, name.replace('.', os.sep), '__init__.py')
                m.__getattr__ = lambda n: Stub(name + '.' + n)
                self.mods[name] = m
                return m
            self.mods[name] = Stub(name)
            return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        bi = dict(vars(builtins))
        bi.update(__import__=self.imp, range=srange, len=slen, float=sfloat, int=sint, min=smin, max=smax, isinstance=sisinstance, round=sround, sum=ssum,
                  print=sprint, divmod=sdivmod, __vf_text__=format_text)
        m.__dict__['__builtins__'] = bi
        src = open(path, encoding='utf-8').read()
        global CTX
        old, CTX = CTX, None
        try:
            if name in self.merge:
                from vf import merge
                bi.update(merge.NAMES)
                code = merge.rewrite(src, path)
            else:
                tree = FormatTexts().visit(ast.parse(src, path))
                if self.cut:
                    tree = CutLoops(self.cut).visit(tree)
                    bi.update(__vf_entry__=self.loop_entry, __vf_havoc__=self.loop_havoc, __vf_back__=self.loop_back, __vf_passes__=self.loop_passes, __vf_for__=self.loop_for)
                code = compile(ast.fix_missing_locations(tree), path, 'exec')
            exec(code, m.__dict__)
        finally:
            CTX = old
        return m


class Undefined(object):
    """a variable that only has a value after an assignment in the loop"""

    def __init__(self, n):
        object.__setattr__(self, '_n', n)

    def _no(self, *a, **k):
        raise Unsupported('variable %s that need not be assigned' % object.__getattribute__(self, '_n'))

    def __getattribute__(self, k):
        if k in ('_n', '__class__'):
            return object.__getattribute__(self, k)
        raise Unsupported('variable %s that need not be assigned' % object.__getattribute__(self, '_n'))

    __call__ = __iter__ = __getitem__ = __setitem__ = __setattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __bool__ = __len__ = __enter__ = _no
    __hash__ = None


def assigned(body):
    """variables whose value or content the statements assign"""
    out = []

    def target(t):
        while isinstance(t, (ast.Subscript, ast.Starred)) or isinstance(t, ast.Attribute):
            t = t.value
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Name) and t.id not in out:
            out.append(t.id)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            target(ast.Name(n.name))
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            target(ast.Name(n.name))
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            raise Unsupported('nonlocal variables in a loop with an invariant')
        if isinstance(n, (ast.Name, ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if not isinstance(n, ast.Attribute):
                target(n)
        if isinstance(n, ast.AugAssign):
            target(n.target)
        for c in ast.iter_child_nodes(n):
            go(c)
    for n in body:
        go(n)
    return out


class CutLoops(ast.NodeTransformer):
    """while loops of the given functions: one pass from an arbitrary state that satisfies the invariant"""

    def __init__(self, names):
        self.names, self.fn, self.k = names, None, 0

    def visit_FunctionDef(self, node):
        old = self.fn, self.k
        if node.name in self.names:
            self.fn, self.k = node.name, 0
        elif self.fn is not None:
            self.fn = None              # functions inside of it
        self.generic_visit(node)
        self.fn, self.k = old
        return node

    def visit_While(self, node):
        if self.fn is None:
            return self.generic_visit(node)
        if node.orelse:
            raise Unsupported('while with else')
        fn, k = self.fn, self.k
        self.k += 1
        names = assigned(node.body)
        self.generic_visit(node)
        body = list(node.body)
        if not (isinstance(node.test, ast.Constant) and node.test.value):
            body.insert(0, ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[]))
        pre = ast.parse('__vf_entry__(%r, %d, locals())' % (fn, k)).body
        if names:
            body[:0] = ast.parse('(%s,) = __vf_havoc__(%r, %d, %r, locals())' % (', '.join(names), fn, k, tuple(names))).body
        else:
            body[:0] = ast.parse('__vf_havoc__(%r, %d, (), locals())' % (fn, k)).body
        post = ast.parse('__vf_back__(%r, %d, locals())' % (fn, k)).body
        loop = ast.For(target=ast.Name(id='__vf_once', ctx=ast.Store()), iter=ast.parse('__vf_passes__(%r, %d)' % (fn, k), mode='eval').body, body=body, orelse=post)
        out = pre + [loop]
        for o in out:
            for n in ast.walk(o):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, node)
                    n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = node.lineno, node.col_offset, node.lineno, node.col_offset
        return out


    def visit_For(self, node):
        if self.fn is None or not hasattr(self.names[self.fn], 'iterate'):
            return self.generic_visit(node)
        fn, k = self.fn, self.k
        self.k += 1
        names = [n for n in assigned(node.body) if n not in [t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)]]
        self.generic_visit(node)
        pre = ast.parse(('(%s,) = ' % ', '.join(names) if names else '') + '__vf_havoc__(%r, %d, %r, locals())' % (fn, k, tuple(names))).body
        node.body[:0] = pre
        call = ast.parse('__vf_for__(%r, %d, 0, locals())' % (fn, k), mode='eval').body
        call.args[2] = node.iter
        node.iter = call
        for o in pre + [call]:
            for n in ast.walk(o):
                if not hasattr(n, 'lineno') or n in pre or True:
                    n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = node.lineno, node.col_offset, node.lineno, node.col_offset
        return node


class FormatTexts(ast.NodeTransformer):
    """'...' % values: messages with symbolic values; the text is not looked at"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='__vf_text__', ctx=ast.Load()), node), args=[node.left, node.right], keywords=[]), node)
        return node


def format_text(text, values):
    try:
        return text % values
    except Unsupported:
        return '(%s)' % text


class StrSub(str):
    pass
