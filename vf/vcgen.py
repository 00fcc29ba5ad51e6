"""Verification-condition generator for the loop language of ir.py (engine E2).

Forward symbolic execution; every loop is cut by its invariant (sidecar contract), every call is replaced by the callee's
contract (or, for small loop-free helpers of the same file, its body), every array access carries a bounds obligation.
"""
from .z3env import z3
from . import ir
from .ir import (Const, Var, Bin, Cmp, And, Or, Not, Neg, Index, Slice, Len, Shape, Field, Call, IfE, Cast, TupleE, Assign,
                 If, While, Break, Continue, Return, Raise, ExprS, Yield, Havoc, Unsupported)
from .cxx import RANGES
from .solve import Obl

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
F = z3.Datatype('Flt')
F.declare('mkF', ('val', R), ('nan', B))
F = F.create()
mkF, fval, fnan = F.mkF, F.val, F.nan

_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


_n = [0]


def fresh(name, sort=I):
    _n[0] += 1
    return z3.Const('%s!%d' % (name.replace('$', '_'), _n[0]), sort)


class T(object):
    """Types of parameters and array elements."""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def Int(lo=None, hi=None):
    return T('int', lo=lo, hi=hi)


def CInt(ty):
    lo, hi = RANGES[ty]
    return T('int', lo=lo, hi=hi)


BOOL = T('bool')
FLT = T('flt')


def Arr(elem, ndim=1, cty=None, dims=None, readonly=False):
    """elem: 'int' | 'bool' | 'flt' | dict(field -> 'int'/'flt') for records ('*' = all other columns as one opaque value);
    cty: machine type of integer elements (reads are in range, stores are checked)."""
    return T('arr', elem=elem, ndim=ndim, cty=cty, dims=dims, readonly=readonly)


def Opaque():
    return T('opaque')


_SORT = {'int': I, 'bool': B, 'flt': F, 'real': R}


class ArrV(object):
    """View of a heap array: axes of the base are fixed or shifted."""

    def __init__(self, base, elem, axes, cty=None, field=None):
        self.base, self.elem, self.axes, self.cty, self.field = base, elem, axes, cty, field

    @property
    def dims(self):
        return [a[2] for a in self.axes if a[0] == 'r']

    def idx(self, ii):
        ii = list(ii)
        out = []
        for a in self.axes:
            out.append(a[1] if a[0] == 'f' else (a[1] + ii.pop(0) if not z3.is_int_value(a[1]) or a[1].as_long() else ii.pop(0)))
        return out


class RecV(object):
    """Reference to one row of a record array, or a row value (vals)."""

    def __init__(self, arr=None, ii=None):
        self.arr, self.ii = arr, ii


class TupV(object):
    def __init__(self, elts):
        self.elts = elts


class NoneV(object):
    pass


class StrV(object):
    def __init__(self, s):
        self.s = s


class SymS(object):
    """string built from literals and integers"""

    def __init__(self, parts):
        self.parts = parts


class TypeV(object):
    """dtype of an array."""

    def __init__(self, elem, cty=None):
        self.elem, self.cty = elem, cty


class OpaqueV(object):
    def __init__(self, name):
        self.name = name


class St(object):
    __slots__ = ('vars', 'heap', 'path', 'ghost', 'labels')

    def __init__(self, vars, heap, path, ghost, labels=()):
        self.vars, self.heap, self.path, self.ghost, self.labels = vars, heap, path, ghost, labels

    def copy(self):
        return St(dict(self.vars), dict(self.heap), list(self.path), dict(self.ghost), self.labels)

    def add(self, c):
        self.path.append(c)
        return self


class AV(object):
    """Array as seen by a contract: a[i], a[i, j], a.n, a.f('field')[i]."""

    def __init__(self, term, av, off=True):
        self.term, self.av = term, av

    def __getitem__(self, ii):
        if not isinstance(ii, tuple):
            ii = (ii,)
        ii = [x if z3.is_expr(x) else z3.IntVal(x) for x in ii]
        t = self.term
        for x in self.av.idx(ii):
            t = z3.Select(t, x)
        return t

    @property
    def n(self):
        return self.av.dims[0]

    @property
    def dims(self):
        return self.av.dims


class Ctx(object):
    """What a contract clause sees."""

    def __init__(self, gen, st, st0, result=None, exc=None):
        self.gen, self.st, self.st0, self.result, self.exc = gen, st, st0, result, exc

    def __getitem__(self, name):
        return self.gen.lookup(self.st, self.gen.role(name))

    def has(self, name):
        return self.gen.role(name) in self.st.vars

    def _arr(self, st, name, field):
        v = name if isinstance(name, (ArrV,)) else self.gen.lookup(st, self.gen.role(name))
        if not isinstance(v, ArrV):
            raise Unsupported('contract names array %s, which is not an array here' % name)
        if field is None and isinstance(v.elem, dict):
            field = v.field
        key = (v.base, field if field is not None else v.field)
        return AV(st.heap[key], v)

    def arr(self, name, field=None):
        return self._arr(self.st, name, field)

    def arr0(self, name, field=None):
        """entry value of an array parameter"""
        return self._arr(self.st0, name, field)

    def old(self, name):
        return self.gen.lookup(self.st0, name)

    def ghost(self, name):
        return self.st.ghost[name]

    def ghost0(self, name):
        return self.st0.ghost[name]

    def entry(self, name):
        """value of a variable when the loop of this invariant was entered"""
        return self.gen.lookup(self.loop_entry, self.gen.role(name))

    def counter(self, k):
        """Next value of the counter of loop k (for-range / C for)."""
        info = self.gen.loopinfo[k]
        if 'counter' not in info:
            raise Unsupported('loop %s has no counter' % k)
        return self.gen.lookup(self.st, info['counter'])


class Contract(object):
    def __init__(self, name, source, params, requires=None, ensures=None, inv=None, variant=None, raises=None, facts=None,
                 ghost=None, on_store=None, on_yield=None, modifies=(), lemmas=None, result=None, inline=(), calls=None,
                 roles=None, nloops=None, globals=None, notes='', locals_=None, aliases=(), recursive=False, merge=True, flt_vars=()):
        self.flt_vars = flt_vars
        self.name, self.source, self.params = name, source, params
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.inv = inv or {}
        self.variant = variant or {}
        self.raises = raises or {}
        self.facts = facts or (lambda c: [])
        self.ghost = ghost or (lambda c: {})
        self.on_store, self.on_yield = on_store, on_yield
        self.modifies = set(modifies)
        self.lemmas = lemmas or (lambda c: [])
        self.result = result
        self.inline = set(inline)
        self.calls = calls or {}
        self.roles = roles or []
        self.nloops = nloops
        self.globals = globals or {}
        self.notes = notes
        self.locals_, self.aliases, self.recursive, self.merge = locals_ or {}, aliases, recursive, merge


def forall(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats and not any(_has_ite(t) for t in pats):
        try:
            q = z3.ForAll(list(vs), body, patterns=pats)
            q._vf = (list(vs), body, pats)
            return q
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


def all_k(k, rng, q):
    """forall k. rng -> q, with the quantifiers of q merged when its patterns cover k"""
    if getattr(q, '_vf', None):
        vs, body, pats = q._vf
        try:
            return z3.ForAll([k] + vs, z3.Implies(rng, body), patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll([k], z3.Implies(rng, q))


def _has_ite(t):
    if isinstance(t, z3.PatternRef):
        return any(_has_ite(x) for x in getattr(t, '_terms', ()))
    if z3.is_quantifier(t):
        return True
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT):
        return True
    return any(_has_ite(x) for x in t.children()) if z3.is_app(t) else False


def ints(names):
    return z3.Ints(names)


class Gen(object):
    def __init__(self, contract, func, lib=None, rolemap=None):
        self.c, self.fn = contract, func
        self.lib = lib or {}
        self.obls = []
        self.guards = []
        self.rolemap = rolemap or {}
        self.loopinfo = [l.info for l in func.loops]
        self.assumed = []
        self.calls_used = set()
        self.base_n = 0
        self._feas_cache = {}
        self.callstack = []

    def role(self, name):
        return self.rolemap.get(name, name)

    # ---------------------------------------------------------------- helpers
    def lookup(self, st, name):
        if name in st.vars:
            return st.vars[name]
        raise Unsupported('variable %s is not (surely) defined here in %s' % (name, self.fn.name))

    def oblige(self, st, name, goal, line=None, kind='vc'):
        if goal is True:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        if z3.is_true(goal):
            self.obls.append(Obl('%s: %s' % (self.c.name, name), [], goal, kind, line, self.fn.name))
            return
        self.obls.append(Obl('%s: %s' % (self.c.name, name), self.facts + st.path + self.guards, goal, kind, line, self.fn.name))

    def newbase(self, st, elem, ndim, name, zero=False, dims=None):
        self.base_n += 1
        base = '%s#%d' % (name, self.base_n)
        fields = elem if isinstance(elem, dict) else {None: elem}
        for f, e in fields.items():
            srt = _SORT[e]
            for _ in range(ndim):
                srt = z3.ArraySort(I, srt)
            if zero:
                z = {'int': z3.IntVal(0), 'bool': z3.BoolVal(False), 'flt': mkF(z3.RealVal(0), False), 'real': z3.RealVal(0)}[e] if zero is True else zero
                for _ in range(ndim):
                    z = z3.K(I, z)
                st.heap[(base, f)] = z
            else:
                st.heap[(base, f)] = fresh('%s_%s' % (name, f) if f else name, srt)
        return base

    def mkarr(self, st, t, name, zero=False, dims=None):
        dims = dims if dims is not None else [fresh('%s_n%d' % (name, k)) for k in range(t.ndim)]
        base = self.newbase(st, t.elem, t.ndim, name, zero)
        for d in dims:
            st.add(d >= 0)
        return ArrV(base, t.elem, [('r', z3.IntVal(0), d) for d in dims], t.cty)

    def mkval(self, st, t, name):
        if isinstance(t, list):
            return TupV([self.mkval(st, x, '%s_%d' % (name, k)) for k, x in enumerate(t)])
        if t.kind == 'int':
            v = fresh(name)
            if t.lo is not None:
                st.add(v >= t.lo)
            if t.hi is not None:
                st.add(v <= t.hi)
            return v
        if t.kind == 'bool':
            return fresh(name, B)
        if t.kind == 'flt':
            return fresh(name, F)
        if t.kind == 'arr':
            dims = None
            if t.dims is not None:
                dims = [x if z3.is_expr(x) else (z3.IntVal(x) if isinstance(x, int) else st.vars[x]) for x in t.dims]
            return self.mkarr(st, t, name, dims=dims)
        if t.kind == 'none':
            return NoneV()
        if t.kind == 'const':
            return self.const(t.v)
        if t.kind == 'opaque':
            return OpaqueV(name)
        if t.kind == 'tuple':
            return TupV([self.mkval(st, x, '%s_%d' % (name, k)) for k, x in enumerate(t.elts)])
        raise Unsupported('type ' + t.kind)

    def const(self, v):
        if v is None:
            return NoneV()
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return mkF(z3.RealVal(repr(v)), False)
        if isinstance(v, str):
            return StrV(v)
        raise Unsupported('constant %r' % (v,))

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, st)

    def ev_Const(self, e, st):
        return self.const(e.v)

    def ev_Var(self, e, st):
        if e.name in st.vars:
            return st.vars[e.name]
        if e.name in self.c.globals:
            return self.const(self.c.globals[e.name])
        if e.name in ('np.nan',):
            return mkF(fresh('nanv', R), True)
        if e.name.startswith('np.'):
            return OpaqueV(e.name)
        if '.' in e.name:
            root, rest = e.name.split('.', 1)
            if root in st.vars and '.' not in rest:
                return self.field(st.vars[root], rest, st, e)
        if e.name in ('float', 'int', 'bool'):
            return OpaqueV(e.name)
        if e.name in self.modconsts:
            return self.const(self.modconsts[e.name])
        raise Unsupported('variable %s not surely defined (line %s)' % (e.name, e.line))

    modconsts = {}

    def ev_TupleE(self, e, st):
        return TupV([self.ev(x, st) for x in e.elts])

    def isint(self, v):
        return z3.is_expr(v) and v.sort() == I

    def asbool(self, v):
        if z3.is_expr(v):
            if v.sort() == B:
                return v
            if v.sort() == I:
                return v != 0
        raise Unsupported('truth value of a non-scalar')

    def asflt(self, v):
        if not z3.is_expr(v):
            raise Unsupported('arithmetic on a non-scalar')
        if v.sort() == F:
            return v
        if v.sort() == I:
            return mkF(z3.ToReal(v), False)
        if v.sort() == B:
            return mkF(z3.If(v, z3.RealVal(1), z3.RealVal(0)), False)
        raise Unsupported('float conversion')

    def ev_Bin(self, e, st):
        a, b = self.ev(e.a, st), self.ev(e.b, st)
        return self.binop(e.op, a, b, st, e.ty, e.line)

    def binop(self, op, a, b, st, ty=None, line=None):
        if isinstance(a, (StrV, SymS)) and isinstance(b, (StrV, SymS)) and op == '+':
            return SymS(sum([[x.s] if isinstance(x, StrV) else x.parts for x in (a, b)], []))
        if isinstance(a, TupV) and isinstance(b, TupV) and op == '+':
            return TupV(a.elts + b.elts)
        if op in ('&', '|', '^') and (isinstance(a, ArrV) and a.elem == 'bool' or isinstance(b, ArrV) and b.elem == 'bool'):
            return self.elementwise(lambda x, y: self.binop(op, self.asbool(x), self.asbool(y), st), 'bool', a, b, st, None)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('operator %s on arrays / objects (line %s)' % (op, line))
        if a.sort() == B and b.sort() == B and op in '&|^':
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        if a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == I and b.sort() == I:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op in ('//', '%'):
                self.oblige(st, 'division by zero (line %s)' % line, b != 0, line, 'safety')
                if ty is None:
                    self.oblige(st, 'positive divisor (line %s)' % line, b > 0, line, 'safety')
                else:
                    self.oblige(st, 'non-negative operands (line %s)' % line, z3.And(a >= 0, b > 0), line, 'safety')
                r = a / b if op == '//' else a % b
            elif op == '/':
                return mkF(uf('fdiv', R, R, R)(z3.ToReal(a), z3.ToReal(b)), False)
            elif op in ('<<', '>>', '&', '|', '^'):
                return self.bitop(op, a, b, st, ty, line)
            elif op == '**':
                raise Unsupported('integer power')
            else:
                raise Unsupported('operator ' + op)
            if ty in RANGES:
                lo, hi = RANGES[ty]
                self.oblige(st, 'no %s overflow in %s (line %s)' % (ty, op, line), z3.And(r >= lo, r <= hi), line, 'safety')
            return r
        a, b = self.asflt(a), self.asflt(b)
        va, vb, na, nb = fval(a), fval(b), fnan(a), fnan(b)
        va, vb, na, nb = [z3.simplify(x) for x in (va, vb, na, nb)]
        n = z3.simplify(z3.Or(na, nb))
        if op == '+':
            return mkF(va + vb, n)
        if op == '-':
            return mkF(va - vb, n)
        if op == '*':
            return mkF(uf('fmul', R, R, R)(va, vb), n)
        if op == '/':
            return mkF(uf('fdiv', R, R, R)(va, vb), z3.Or(n, uf('fdivnan', R, R, B)(va, vb)))
        if op == '**':
            return mkF(uf('fpow', R, R, R)(va, vb), n)
        raise Unsupported('float operator ' + op)

    def bitop(self, op, a, b, st, ty, line):
        if op == '<<' and z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 1:
            return uf('pow2', I, I)(b)
        if op == '|':
            return uf('bitor', I, I, I)(a, b)
        if op == '&':
            return uf('bitand', I, I, I)(a, b)
        if op == '<<':
            return uf('shl', I, I, I)(a, b)
        if op == '>>':
            return uf('shr', I, I, I)(a, b)
        raise Unsupported('bit operator ' + op)

    def ev_Cmp(self, e, st):
        a, b = self.ev(e.a, st), self.ev(e.b, st)
        return self.cmp(e.op, a, b, st, e)

    def cmp(self, op, a, b, st, e=None):
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            same = isinstance(a, NoneV) and isinstance(b, NoneV)
            if op in ('==', '!='):
                return z3.BoolVal(same == (op == '=='))
            raise Unsupported('comparison with None')
        if isinstance(a, TupV) and isinstance(b, TupV) and op in ('==', '!='):
            if len(a.elts) != len(b.elts):
                return z3.BoolVal(op == '!=')
            r = z3.And([self.cmp('==', x, y, st) for x, y in zip(a.elts, b.elts)])
            return r if op == '==' else z3.Not(r)
        if isinstance(a, StrV) and isinstance(b, StrV) and op in ('==', '!='):
            return z3.BoolVal((a.s == b.s) == (op == '=='))
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            return self.elementwise(lambda x, y: self.cmp(op, x, y, st), 'bool', a, b, st, e)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('comparison of arrays / objects (line %s)' % (e.line if e else '?'))
        if a.sort() == B and b.sort() == B and op in ('==', '!='):
            return a == b if op == '==' else a != b
        if a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() == I and b.sort() == I:
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        a, b = self.asflt(a), self.asflt(b)
        return flt_cmp(op, a, b)

    def elementwise(self, f, elem, a, b, st, e):
        """numpy element-wise operation on 1-d arrays / scalars (dependency contract of numpy)"""
        arrs = [x for x in (a, b) if isinstance(x, ArrV)]
        for x in arrs:
            if len(x.dims) != 1 or (isinstance(x.elem, dict) and x.field is None):
                raise Unsupported('element-wise operation on n-d arrays')
        n = arrs[0].dims[0]
        if len(arrs) == 2:
            self.oblige(st, 'equal lengths in element-wise operation', arrs[0].dims[0] == arrs[1].dims[0], getattr(e, 'line', None), 'safety')
        k = z3.Int('ew')
        g = lambda x: AV(st.heap[(x.base, x.field)], x)[k] if isinstance(x, ArrV) else x
        v = f(g(a), g(b)) if b is not None else f(g(a))
        r = self.mkarr(st, Arr(elem, 1), 'ew', dims=[n])
        t = z3.Select(st.heap[(r.base, None)], k)
        st.add(forall([k], z3.Implies(z3.And(0 <= k, k < n), t == v), [t]))
        for x in (a, b):
            if isinstance(x, ArrV):
                st.add(forall([k], z3.Implies(z3.And(0 <= k, k < n), t == v), [g(x)]))
        return r

    def map1(self, f, v, st, elem, cty=None):
        """new 1-d array with f applied to every element"""
        k = z3.Int('mp')
        r = self.mkarr(st, Arr(elem, 1, cty), 'map', dims=v.dims)
        t = z3.Select(st.heap[(r.base, None)], k)
        x = AV(st.heap[(v.base, v.field)], v)[k]
        st.add(forall([k], z3.Implies(z3.And(0 <= k, k < v.dims[0]), t == f(x)), [t]))
        st.add(forall([k], z3.Implies(z3.And(0 <= k, k < v.dims[0]), t == f(x)), [x]))
        if v.cty in RANGES:
            st.add(forall([k], z3.Implies(z3.And(0 <= k, k < v.dims[0]), z3.And(x >= RANGES[v.cty][0], x <= RANGES[v.cty][1])), [x]))
        return r

    def ev_And(self, e, st):
        out, n = [], len(self.guards)
        for x in e.args:
            v = z3.simplify(self.asbool(self.ev(x, st)))
            out.append(v)
            if z3.is_false(v):
                break
            self.guards.append(v)
        del self.guards[n:]
        return z3.And(out)

    def ev_Or(self, e, st):
        out, n = [], len(self.guards)
        for x in e.args:
            v = z3.simplify(self.asbool(self.ev(x, st)))
            out.append(v)
            if z3.is_true(v):
                break
            self.guards.append(z3.Not(v))
        del self.guards[n:]
        return z3.Or(out)

    def ev_Not(self, e, st):
        return z3.Not(self.asbool(self.ev(e.a, st)))

    def ev_Neg(self, e, st):
        v = self.ev(e.a, st)
        if self.isint(v):
            return -v
        v = self.asflt(v)
        return mkF(-fval(v), fnan(v))

    def ev_IfE(self, e, st):
        c = self.asbool(self.ev(e.c, st))
        n = len(self.guards)
        self.guards.append(c)
        a = self.ev(e.a, st)
        self.guards[n:] = [z3.Not(c)]
        b = self.ev(e.b, st)
        del self.guards[n:]
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return a
        if z3.is_false(cs):
            return b
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('conditional expression on objects')
        if a.sort() != b.sort():
            a, b = self.asflt(a), self.asflt(b)
        return z3.If(c, a, b)

    def ev_Len(self, e, st):
        v = self.ev(e.a, st)
        if isinstance(v, TupV):
            return z3.IntVal(len(v.elts))
        if not isinstance(v, ArrV):
            raise Unsupported('length of a non-array')
        d = v.dims
        if e.dim == 'size':
            if len(d) == 1:
                return d[0]
            raise Unsupported('size of n-d array')
        if e.dim >= len(d) or e.dim < -len(d):
            raise Unsupported('shape index')
        return d[e.dim]

    def ev_Shape(self, e, st):
        v = self.ev(e.a, st)
        if isinstance(v, ArrV):
            return TupV(v.dims)
        raise Unsupported('shape of a non-array')

    def field(self, v, name, st, e=None):
        if isinstance(v, OpaqueV) and v.name == 'colindexed':
            return z3.Const('colindexed_' + name, B)
        if name == 'colindexed' and isinstance(v, ArrV):
            return OpaqueV('colindexed')
        if isinstance(v, RecV):
            return self.read(v.arr, v.ii, st, name)
        if isinstance(v, ArrV):
            if isinstance(v.elem, dict) and v.field is None and name in v.elem:
                return ArrV(v.base, v.elem[name], v.axes, None, name)
            if name == 'dtype':
                return TypeV(v.elem, v.cty)
            if name == 'shape':
                return TupV(v.dims)
            if name == 'size' or name == 'nrows':
                return v.dims[0]
        raise Unsupported('field %s (line %s)' % (name, e.line if e is not None else '?'))

    def ev_Field(self, e, st):
        return self.field(self.ev(e.a, st), e.name, st, e)

    def bound(self, i, n, st, e):
        i_s = z3.simplify(i)
        if z3.is_int_value(i_s) and i_s.as_long() < 0:
            self.oblige(st, 'index in bounds (line %s)' % e.line, n + i >= 0, e.line, 'safety')
            return n + i
        self.oblige(st, 'index in bounds (line %s)' % e.line, z3.And(i >= 0, i < n), e.line, 'safety')
        return i

    def slc(self, x, n, st, e):
        """python slice -> (offset, length)"""
        if x.step is not None:
            raise Unsupported('slice step')
        def norm(b, dflt):
            if b is None:
                return dflt
            v = self.ev(b, st)
            if isinstance(v, NoneV):
                return dflt
            if not self.isint(v):
                raise Unsupported('slice bound')
            return z3.simplify(z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), z3.If(v > n, n, v)))
        lo, hi = norm(x.lo, z3.IntVal(0)), norm(x.hi, n)
        return lo, z3.simplify(z3.If(hi - lo < 0, z3.IntVal(0), hi - lo))

    def ev_Index(self, e, st):
        v = self.ev(e.a, st)
        if isinstance(v, TupV):
            if len(e.idx) == 1:
                k = self.ev(e.idx[0], st)
                k = z3.simplify(k) if z3.is_expr(k) else k
                if z3.is_int_value(k) and -len(v.elts) <= k.as_long() < len(v.elts):
                    return v.elts[k.as_long()]
            raise Unsupported('tuple index')
        if isinstance(v, RecV) and len(e.idx) == 1:
            k = self.ev(e.idx[0], st)
            if isinstance(k, StrV):
                return self.field(v, k.s, st, e)
        if not isinstance(v, ArrV):
            raise Unsupported('index of %s (line %s)' % (type(v).__name__, e.line))
        return self.index(v, e.idx, st, e)

    def index(self, v, idx, st, e):
        axes, k = [], 0
        idx = list(idx)
        ev_idx = []
        for x in idx:
            if isinstance(x, Slice):
                ev_idx.append(x)
            else:
                y = self.ev(x, st)
                if isinstance(y, StrV):
                    if len(idx) == 1:
                        return self.field(v, y.s, st, e)
                    raise Unsupported('mixed index')
                if isinstance(y, TupV):
                    ev_idx += y.elts
                else:
                    ev_idx.append(y)
        idx = ev_idx
        scal = True
        for a in v.axes:
            if a[0] == 'f':
                axes.append(a)
                continue
            if k >= len(idx):
                axes.append(a)
                scal = False
                continue
            x = idx[k]
            k += 1
            if isinstance(x, Slice):
                if x.lo is None and x.hi is None and isinstance(x.step, Const) and x.step.v == -1 and len(idx) == 1 and len(v.dims) == 1 and not isinstance(v.elem, dict):
                    return self.reversed(v, st)
                lo, n = self.slc(x, a[2], st, e)
                axes.append(('r', z3.simplify(a[1] + lo), n))
                scal = False
            elif isinstance(x, ArrV) and x.elem == 'bool' and len(idx) == 1 and len(v.dims) == 1:
                return self.mask_select(v, x, st, e)
            elif isinstance(x, ArrV) and x.elem == 'int' and len(idx) == 1 and len(x.dims) == 1 and a is v.axes[0] and not isinstance(v.elem, dict):
                return self.gather(v, x, st, e)
            else:
                if not self.isint(x):
                    raise Unsupported('index type (line %s)' % e.line)
                i = self.bound(x, a[2], st, e)
                axes.append(('f', i if z3.is_int_value(a[1]) and a[1].as_long() == 0 else a[1] + i))
        if k < len(idx):
            raise Unsupported('too many indices (line %s)' % e.line)
        r = ArrV(v.base, v.elem, axes, v.cty, v.field)
        if not scal:
            return r
        if isinstance(v.elem, dict) and v.field is None:
            return RecV(r, [])
        return self.read(r, [], st, v.field)

    def reversed(self, v, st):
        """a[::-1] of a 1-d array; it may only be read"""
        r = self.mkarr(st, Arr(v.elem, 1, v.cty), 'rev', dims=v.dims)
        self.nostore = getattr(self, 'nostore', set()) | {r.base}
        k = z3.Int('rv_k')
        t = z3.Select(st.heap[(r.base, None)], k)
        st.add(forall([k], z3.Implies(z3.And(0 <= k, k < v.dims[0]), t == AV(st.heap[(v.base, v.field)], v)[v.dims[0] - 1 - k]), [t]))
        return r

    def gather(self, v, x, st, e):
        """dependency contract of indexing with an integer array: row k of the result is row x[k]"""
        n, m = v.dims[0], x.dims[0]
        k = z3.Int('ga_k')
        ix = AV(st.heap[(x.base, x.field)], x)[k]
        self.oblige(st, 'index array in range (line %s)' % e.line, forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(-n <= ix, ix < n))), e.line, 'safety')
        r = self.mkarr(st, Arr(v.elem, len(v.dims), v.cty), 'gather', dims=[m] + v.dims[1:])
        vs = [k] + [z3.Int('ga_%d' % j) for j in range(1, len(v.dims))]
        src, dst = AV(st.heap[(v.base, v.field)], v), st.heap[(r.base, None)]
        for y in vs:
            dst = z3.Select(dst, y)
        row = z3.If(ix < 0, ix + n, ix)
        st.add(forall(vs, z3.Implies(z3.And(0 <= k, k < m), dst == src[tuple([row] + vs[1:]) if len(vs) > 1 else row]), [dst]))
        return r

    def mask_select(self, v, m, st, e):
        """dependency contract of numpy boolean-mask indexing: the rows with a set mask, in order"""
        self.oblige(st, 'mask has the length of the array (line %s)' % e.line, m.dims[0] == v.dims[0], e.line, 'safety')
        mt = st.heap[(m.base, m.field)]
        if not (m.axes[0][0] == 'r' and len(m.axes) == 1 and z3.is_int_value(m.axes[0][1]) and m.axes[0][1].as_long() == 0):
            raise Unsupported('mask view')
        for f in nset_facts():
            st.add(f)
        n = v.dims[0]
        r = self.mkarr(st, Arr(v.elem, 1, v.cty), 'sel', dims=[nset(mt, n)])
        p, q = z3.Ints('ms_p ms_q')
        st.add(forall([p], z3.Implies(z3.And(0 <= p, p <= n), z3.And(0 <= nset(mt, p), nset(mt, p) <= nset(mt, n))), [nset(mt, p)]))
        for f in (list(v.elem) if isinstance(v.elem, dict) and v.field is None else [v.field]):
            src = AV(st.heap[(v.base, f)], v)
            dst = st.heap[(r.base, f if isinstance(v.elem, dict) and v.field is None else None)]
            body = z3.Implies(z3.And(0 <= p, p < n, mt[p]), dst[nset(mt, p)] == src[p])
            st.add(forall([p], body, [nset(mt, p)]))
            st.add(forall([p], body, [src[p]]))
        src = AV(st.heap[(v.base, f)], v)
        st.add(forall([q], z3.Implies(z3.And(0 <= q, q < nset(mt, n)), z3.Exists([p], z3.And(0 <= p, p < n, mt[p], nset(mt, p) == q))), [dst[q]]))
        return r

    def read(self, arr, ii, st, field):
        t = st.heap[(arr.base, field)]
        for x in arr.idx(ii):
            t = z3.Select(t, x)
        if arr.cty in RANGES:
            lo, hi = RANGES[arr.cty]
            st.add(z3.And(t >= lo, t <= hi))
        return t

    def ev_Cast(self, e, st):
        return self.ev(e.a, st)

    def ev_Call(self, e, st):
        h = self.c.calls.get(e.fn)
        if h is not None:
            self.calls_used.add(e.fn)
            return h(self, st, e)
        if e.fn in self.lib:
            return self.call_contract(self.lib[e.fn], e, st)
        m = BUILTINS.get(e.fn)
        if m is not None:
            return m(self, st, e)
        if e.fn.startswith('$narrow:'):
            ty = e.fn.split(':')[1]
            v = self.ev(e.args[0], st)
            lo, hi = RANGES[ty]
            self.oblige(st, 'value fits %s (line %s)' % (ty, e.line), z3.And(v >= lo, v <= hi), e.line, 'safety')
            return v
        g = self.helper(e.fn)
        if g is not None:
            return self.call_inline(g, e, st)
        raise Unsupported('call of %s (line %s)' % (e.fn, e.line))

    helper_src = None

    def helper(self, name):
        """A helper function of the same file without its own contract: inlined if it has no loops."""
        if self.helper_src is None or name in self.callstack:
            return None
        try:
            return self.helper_src(name)
        except Unsupported:
            return None

    def bind(self, params, defaults, e, st):
        vals = {}
        if len(e.args) > len(params):
            raise Unsupported('too many arguments for %s' % e.fn)
        for p, a in zip(params, e.args):
            vals[p] = self.ev(a, st)
        for k, a in e.kw.items():
            if k not in params:
                raise Unsupported('keyword %s of %s' % (k, e.fn))
            vals[k] = self.ev(a, st)
        for p in params:
            if p not in vals:
                if p in defaults:
                    vals[p] = self.ev(defaults[p], st) if isinstance(defaults[p], ir.Node) else defaults[p]
                else:
                    raise Unsupported('argument %s of %s missing' % (p, e.fn))
        return vals

    def call_inline(self, g, e, st):
        if g.loops:
            raise Unsupported('helper %s has a loop and no contract' % g.name)
        vals = self.bind(g.params, g.defaults, e, st)
        if len(self.callstack) > 5:
            raise Unsupported('inline depth')
        self.callstack.append(g.name)
        pend, raised = list(self.pending_raise), []
        sub = St(vals, dict(st.heap), list(st.path), dict(st.ghost))
        try:
            outs = self.run(g.body, [sub])
        finally:
            self.callstack.pop()
        rets = []
        for k, s, v in outs:
            if k == 'normal':
                rets.append((s, NoneV()))
            elif k == 'return':
                rets.append((s, v))
            elif k == 'raise':
                raised.append((v, None, list(s.path)))
            else:
                raise Unsupported('helper %s exits by %s' % (g.name, k))
        self.pending_raise = pend + raised
        if not rets:
            raise Unsupported('helper %s never returns' % g.name)
        if len(rets) == 1:
            s, v = rets[0]
            st.heap, st.ghost = s.heap, s.ghost
            st.path = s.path
            return v
        # several paths: merge values
        n0 = len(st.path)
        val = None
        heap = None
        for s, v in reversed(rets):
            cond = z3.And(s.path[n0:]) if len(s.path) > n0 else z3.BoolVal(True)
            if not z3.is_expr(v):
                raise Unsupported('helper %s returns a non-scalar on several paths' % g.name)
            if val is not None and val.sort() != v.sort():
                val, v = self.asflt(val), self.asflt(v)
            val = v if val is None else z3.If(cond, v, val)
            if heap is None:
                heap = dict(s.heap)
            else:
                for k in s.heap:
                    if k in heap and not z3.eq(heap[k], s.heap[k]):
                        heap[k] = z3.If(cond, s.heap[k], heap[k])
                    elif k not in heap:
                        raise Unsupported('helper allocates on one path')
        st.heap = heap
        st.path = st.path + [z3.Or([z3.And(s.path[n0:]) if len(s.path) > n0 else z3.BoolVal(True) for s, _ in rets])]
        return val

    def call_contract(self, k, e, st):
        """Caller side of a contract: requires checked, modified arrays havocked, ensures assumed."""
        self.calls_used.add(k.name)
        vals = self.bind(getattr(k, 'fnparams', list(k.params)), getattr(k, 'fndefaults', {}), e, st)
        for p, t in k.params.items():
            v = vals.get(p)
            if getattr(t, 'kind', None) == 'arr' and isinstance(v, ArrV) and isinstance(t.elem, str) and v.cty != t.cty and t.cty in RANGES and p not in k.modifies:
                if v.cty not in RANGES or RANGES[v.cty][1] - RANGES[v.cty][0] != RANGES[t.cty][1] - RANGES[t.cty][0] or len(v.dims) != 1:
                    raise Unsupported('element type of argument %s of %s' % (p, k.name))
                lo, hi = RANGES[t.cty]
                m = hi - lo + 1
                vals[p] = self.map1(lambda x: z3.If(x < lo, x + m, z3.If(x > hi, x - m, x)), v, st, 'int', t.cty)
        pre = St(dict(vals), st.heap, st.path, dict(st.ghost))
        kg = Gen(k, _Dummy(k.name), self.lib)
        kg.facts = self.facts
        # argument shapes
        for p, t in k.params.items():
            v = vals[p]
            if getattr(t, 'kind', None) == 'arr' and not isinstance(v, ArrV):
                raise Unsupported('argument %s of %s is not an array' % (p, k.name))
            if getattr(t, 'kind', None) == 'int':
                if not self.isint(v):
                    raise Unsupported('argument %s of %s is not an integer' % (p, k.name))
                if t.lo is not None or t.hi is not None:
                    self.oblige(st, 'argument %s of %s in range (line %s)' % (p, k.name, e.line),
                                z3.And([v >= t.lo] if t.lo is not None else [], [v <= t.hi] if t.hi is not None else []) if False else
                                z3.And(*([v >= t.lo] if t.lo is not None else []), *([v <= t.hi] if t.hi is not None else [])), e.line, 'pre')
            if getattr(t, 'kind', None) == 'arr' and t.dims is not None:
                for d, x in zip(v.dims, t.dims):
                    y = x if z3.is_expr(x) else (z3.IntVal(x) if isinstance(x, int) else vals[x])
                    self.oblige(st, 'shape of argument %s of %s (line %s)' % (p, k.name, e.line), d == y, e.line, 'pre')
        c = Ctx(kg, pre, pre)
        pre.ghost.update(k.ghost(c))
        for n, g in k.requires(c):
            self.oblige(st, 'requires of %s: %s (line %s)' % (k.name, n, e.line), g, e.line, 'pre')
        post = pre.copy()
        for p in k.modifies:
            v = vals[p]
            self.havoc_base(post, v)
        res = None
        if k.result is not None:
            res = kg.mkval(post, k.result(c) if callable(k.result) else k.result, 'ret_' + k.name)
        for gname in getattr(k, 'ghost_out', ()):
            post.ghost[gname] = fresh(gname, post.ghost[gname].sort())
        c2 = Ctx(kg, post, pre, res)
        st.heap = post.heap
        st.path = post.path
        for f in k.facts(c2):
            st.add(f)
        for n, g in k.ensures(c2):
            st.add(g)
        if k.raises:
            for exc, cond in k.raises.items():
                # a call that may raise: the exceptional exit is propagated as its own outcome
                self.pending_raise.append((exc, cond(Ctx(kg, pre, pre)), list(pre.path)))
                st.add(z3.Not(cond(Ctx(kg, pre, pre))))
        return NoneV() if res is None else res

    def havoc_base(self, st, v, name='h'):
        for key in list(st.heap):
            if key[0] == v.base and (v.field is None or key[1] == v.field):
                st.heap[key] = fresh('%s_%s' % (key[0].replace('#', '_'), key[1] or ''), st.heap[key].sort())

    # ---------------------------------------------------------------- statements
    def feasible(self, st):
        """cheap pruning of contradictory paths; keeps the path when in doubt"""
        q = [c for c in st.path if not _has_quant(c)]
        s = z3.Solver()
        s.set('timeout', 150)
        for c in q:
            s.add(c)
        return s.check() != z3.unsat

    def run(self, stmts, states):
        """-> list of (kind, state, value); kinds: normal, break, continue, return, raise"""
        done = []
        cur = states
        for s in stmts:
            nxt = []
            for st in cur:
                for k, s2, v in self.step(s, st):
                    if k == 'normal':
                        nxt.append(s2)
                    else:
                        done.append((k, s2, v))
            cur = nxt
            if len(cur) > 400:
                raise Unsupported('too many paths')
        return done + [('normal', st, None) for st in cur]

    def step(self, s, st):
        self.pending_raise = []
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        out = m(s, st)
        if self.pending_raise:
            for exc, cond, path in self.pending_raise:
                ex = St(dict(st.vars), dict(st.heap), path + ([] if cond is None else [cond]), dict(st.ghost))
                out = out + [('raise', ex, exc)]
            self.pending_raise = []
        return out

    pending_raise = []

    def st_Assign(self, s, st):
        v = self.ev(s.val, st)
        self.assign(s.tgt, v, st, s)
        return [('normal', st, None)]

    def assign(self, tgt, v, st, s):
        if isinstance(tgt, Var):
            if '.' in tgt.name:
                raise Unsupported('attribute store')
            if isinstance(v, RecV):
                v = RecV(v.arr, v.ii)
            if self.callstack == [] and self.c.flt_vars and tgt.name in [self.role(n) for n in self.c.flt_vars] and z3.is_expr(v):
                v = self.asflt(v)           # numba unifies the types of a local
            st.vars[tgt.name] = v
            return
        if isinstance(tgt, Field):
            base = self.ev(tgt.a, st)
            if isinstance(base, RecV):
                self.store(base.arr, tgt.name, v, st, s)
                return
            raise Unsupported('whole-column store (line %s)' % s.line)
        if isinstance(tgt, Index):
            base = self.ev(tgt.a, st)
            if isinstance(base, RecV):
                k = self.ev(tgt.idx[0], st)
                if isinstance(k, StrV):
                    self.store(base.arr, k.s, v, st, s)
                    return
            if not isinstance(base, ArrV):
                raise Unsupported('store into %s' % type(base).__name__)
            dst = self.index_l(base, tgt.idx, st, s)
            if dst.dims:
                raise Unsupported('slice store (line %s)' % s.line)
            if isinstance(base.elem, dict) and base.field is None:
                if not (isinstance(v, RecV) and isinstance(v.arr.elem, dict)):
                    raise Unsupported('row store of a non-row')
                for f in base.elem:
                    if f not in v.arr.elem:
                        raise Unsupported('row store between different tables')
                vals = {f: self.read(v.arr, v.ii, st, f) for f in base.elem}
                for f in base.elem:
                    self.store(dst, f, vals[f], st, s, hook=False)
                if self.c.on_store:
                    self.c.on_store(self, st, dst, None, vals, s)
                return
            self.store(dst, base.field, v, st, s)
            return
        raise Unsupported('assignment target')

    def index_l(self, v, idx, st, s):
        e = Index(Const(0), [], line=s.line)
        r = None
        axes, k = [], 0
        vals = []
        for x in idx:
            if isinstance(x, Slice):
                vals.append(x)
            else:
                y = self.ev(x, st)
                vals += y.elts if isinstance(y, TupV) else [y]
        for a in v.axes:
            if a[0] == 'f' or k >= len(vals):
                axes.append(a)
                continue
            x = vals[k]
            k += 1
            if isinstance(x, Slice):
                lo, n = self.slc(x, a[2], st, e)
                axes.append(('r', a[1] + lo, n))
            else:
                if not self.isint(x):
                    raise Unsupported('store index type (line %s)' % s.line)
                i = self.bound(x, a[2], st, e)
                axes.append(('f', i if z3.is_int_value(a[1]) and a[1].as_long() == 0 else a[1] + i))
        if k < len(vals):
            raise Unsupported('too many indices in store')
        return ArrV(v.base, v.elem, axes, v.cty, v.field)

    def store(self, dst, field, v, st, s, hook=True):
        key = (dst.base, field)
        if dst.base in getattr(self, 'nostore', ()):
            raise Unsupported('store into a reversed view')
        if key not in st.heap:
            raise Unsupported('store to unknown column %s' % field)
        e = dst.elem[field] if isinstance(dst.elem, dict) and dst.field is None else dst.elem
        if not z3.is_expr(v):
            raise Unsupported('store of a non-scalar (line %s)' % s.line)
        if e == 'flt':
            v = self.asflt(v)
        elif e == 'int' and v.sort() == B:
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        elif e == 'bool' and v.sort() == I:
            v = v != 0
        elif e == 'int' and v.sort() == F:
            raise Unsupported('float stored into an integer array')
        if dst.cty in RANGES:
            lo, hi = RANGES[dst.cty]
            self.oblige(st, 'stored value fits %s (line %s)' % (dst.cty, s.line), z3.And(v >= lo, v <= hi), s.line, 'safety')
        ii = dst.idx([])
        st.heap[key] = _store(st.heap[key], ii, v)
        if hook and self.c.on_store:
            self.c.on_store(self, st, dst, field, v, s)

    def st_ExprS(self, s, st):
        self.ev(s.e, st)
        return [('normal', st, None)]

    def st_Havoc(self, s, st):
        if s.ty == 'bool':
            st.vars[s.name] = fresh(s.name, B)
        else:
            v = fresh(s.name)
            lo, hi = RANGES[s.ty]
            st.add(z3.And(v >= lo, v <= hi))
            st.vars[s.name] = v
        return [('normal', st, None)]

    def st_If(self, s, st):
        c = z3.simplify(self.asbool(self.ev(s.c, st)))
        pend = self.pending_raise
        self.pending_raise = []
        out = []
        if not z3.is_false(c):
            a = st.copy()
            if not z3.is_true(c):
                a.add(c)
            if z3.is_true(c) or self.feasible(a):
                out += self.run(s.then, [a])
        nthen = len([o for o in out if o[0] == 'normal'])
        if not z3.is_true(c):
            b = st.copy()
            if not z3.is_false(c):
                b.add(z3.simplify(z3.Not(c)))
            if z3.is_false(c) or self.feasible(b):
                out += self.run(s.els, [b])
        self.pending_raise = pend
        if nthen != 1:
            return out
        return self.merge_if(st, out)

    def merge_if(self, st0, out):
        """join the two normal ends of a branch when both only changed scalars / array contents; keeps the number of paths small"""
        norm = [o for o in out if o[0] == 'normal']
        if len(norm) != 2 or not getattr(self.c, 'merge', True):
            return out
        a, b = norm[0][1], norm[1][1]
        n0 = len(st0.path)
        if set(a.vars) != set(b.vars) or set(a.heap) != set(b.heap) or set(a.ghost) != set(b.ghost):
            return out
        ca = z3.And(a.path[n0:]) if len(a.path) > n0 else z3.BoolVal(True)
        cb = z3.And(b.path[n0:]) if len(b.path) > n0 else z3.BoolVal(True)
        if _has_quant(ca) or _has_quant(cb):
            return out
        m = a.copy()
        guard = a.path[n0] if len(a.path) > n0 else z3.BoolVal(True)
        for d in ('vars', 'heap', 'ghost'):
            da, db, dm = getattr(a, d), getattr(b, d), getattr(m, d)
            for k in da:
                x, y = da[k], db[k]
                if x is y:
                    continue
                if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                    if not z3.eq(x, y):
                        dm[k] = z3.If(guard, x, y)
                    continue
                return out
        m.path = a.path[:n0] + [z3.Or(ca, cb)]
        return [o for o in out if o[0] != 'normal'] + [('normal', m, None)]

    def st_Break(self, s, st):
        return [('break', st, None)]

    def st_Continue(self, s, st):
        return [('continue', st, None)]

    def st_Return(self, s, st):
        v = NoneV() if s.val is None else self.ev(s.val, st)
        return [('return', st, v)]

    def st_Raise(self, s, st):
        return [('raise', st, s.exc)]

    def st_Yield(self, s, st):
        if self.c.on_yield is None:
            raise Unsupported('yield without contract')
        v = self.ev(s.val, st)
        self.c.on_yield(self, st, v, s)
        return [('normal', st, None)]

    def st_While(self, s, st):
        k = s.info['id']
        inv = self.c.inv.get(k)
        if inv is None:
            raise Unsupported('loop %d of %s has no invariant' % (k, self.fn.name))
        lbl = 'loop %d' % k

        def at(x):
            r = Ctx(self, x, self.st0)
            r.loop_entry = st
            return r
        for n, g in inv(at(st)):
            self.oblige(st, '%s: invariant "%s" holds initially' % (lbl, n), g, s.line, 'inv-init')
        mod_v, mod_a = modified(s.body + s.step, self.lib)
        if self.c.on_store or self.c.on_yield:
            ghosts = True
        else:
            ghosts = False
        h = st.copy()
        removed = []
        for v in mod_v:
            if v not in h.vars:
                continue
            cur = h.vars[v]
            if z3.is_expr(cur):
                h.vars[v] = fresh(v, cur.sort())
            elif isinstance(cur, (NoneV, StrV)):
                del h.vars[v]
                removed.append(v)
            elif isinstance(cur, TupV) and all(z3.is_expr(x) for x in cur.elts):
                h.vars[v] = TupV([fresh(v, x.sort()) for x in cur.elts])
            else:
                del h.vars[v]
                removed.append(v)
        for a in mod_a:
            for base in self.bases_of(a, h, st):
                for key in list(h.heap):
                    if key[0] == base:
                        h.heap[key] = fresh(base.replace('#', '_') + (key[1] or ''), h.heap[key].sort())
        if ghosts:
            for g in h.ghost:
                if g in getattr(self.c, 'ghost_const', ()):
                    continue
                h.ghost[g] = fresh(g, h.ghost[g].sort())
        head = h
        for n, g in inv(at(head)):
            head.add(g)
        self.cover.append((lbl, list(head.path)))
        # exit
        ex = head.copy()
        c = self.asbool(self.ev(s.c, ex))
        outs = []
        cs = z3.simplify(c)
        if not z3.is_true(cs):
            ex.add(z3.Not(c))
            if self.feasible(ex):
                outs.append(('normal', ex, None))
        body = head.copy()
        c = self.asbool(self.ev(s.c, body))
        body.add(c)
        var0 = None
        if k in self.c.variant:
            var0 = self.c.variant[k](Ctx(self, body, self.st0))
        for kind, s2, v in self.run(s.body, [body]):
            if kind in ('normal', 'continue'):
                for kk, s3, vv in self.run(s.step, [s2]):
                    assert kk == 'normal'
                    for v in mod_v:
                        x, y = head.vars.get(v), s3.vars.get(v)
                        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
                            raise Unsupported('local %s changes its type in a loop' % v)
                    for n, g in inv(at(s3)):
                        self.oblige(s3, '%s: invariant "%s" is preserved' % (lbl, n), g, s.line, 'inv')
                    if var0 is not None:
                        v1 = self.c.variant[k](Ctx(self, s3, self.st0))
                        self.oblige(s3, '%s: terminates (variant decreases and is bounded)' % lbl, z3.And(var0 >= 0, v1 < var0), s.line, 'term')
            elif kind == 'break':
                outs.append(('normal', s2, None))
            else:
                outs.append((kind, s2, v))
        return outs

    def bases_of(self, a, st, st_before):
        v = st_before.vars.get(a)
        if isinstance(v, ArrV):
            return [v.base]
        if isinstance(v, RecV):
            return [v.arr.base]
        if v is None:
            # a view created inside the loop: conservatively all arrays that are not read-only parameters
            return list({k[0] for k in st.heap if k[0] not in self.readonly})
        return []

    # ---------------------------------------------------------------- whole function
    def verify(self):
        c, fn = self.c, self.fn
        st = St({}, {}, [], {})
        self.facts = []
        self.cover = []
        self.readonly = set()
        if c.nloops is not None and len(fn.loops) != c.nloops:
            raise Unsupported('%s has %d loops, the contract describes %d' % (fn.name, len(fn.loops), c.nloops))
        for p in fn.params:
            if p not in c.params:
                raise Unsupported('parameter %s of %s is not in the contract' % (p, fn.name))
        for p, t in c.params.items():
            st.vars[p] = self.mkval(st, t, p)
            v = st.vars[p]
            if isinstance(v, ArrV) and p not in c.modifies:
                self.readonly.add(v.base)
            if p not in fn.params and not getattr(t, 'ghostparam', False):
                raise Unsupported('%s has no parameter %s' % (fn.name, p))
        for p, t in c.locals_.items():       # locals that may be read before assignment: arbitrary value
            st.vars[self.role(p)] = self.mkval(st, t, p)
        self.st0 = st.copy()
        ctx = Ctx(self, st, self.st0)
        st.ghost.update(c.ghost(ctx))
        self.st0 = st.copy()
        ctx = Ctx(self, st, self.st0)
        for n, g in c.requires(ctx):
            st.add(g)
        self.st0 = st.copy()
        self.facts = list(c.facts(ctx))
        # lemmas: proved in order, then available
        for lem in c.lemmas(ctx):
            hyps = self.facts + st.path
            for n, extra, goal in lem.obligations():
                self.obls.append(Obl('%s: lemma %s: %s' % (c.name, lem.name, n), hyps + extra, goal, 'lemma', None, fn.name))
            self.facts = self.facts + [lem.fact]
        self.cover.append(('requires', list(st.path)))
        outs = self.run(fn.body, [st])
        nret = 0
        for kind, s, v in outs:
            if kind in ('normal', 'return'):
                nret += 1
                if kind == 'normal':
                    v = NoneV()
                cx = Ctx(self, s, self.st0, v)
                for n, g in c.ensures(cx):
                    self.oblige(s, 'ensures: %s' % n, g, None, 'post')
                # frame: arrays not in modifies are unchanged
                for key, t in self.st0.heap.items():
                    if any(isinstance(self.st0.vars[p], ArrV) and self.st0.vars[p].base == key[0] for p in c.modifies):
                        continue
                    if not z3.eq(s.heap[key], t):
                        self.oblige(s, 'frame: %s unchanged' % key[0], s.heap[key] == t, None, 'frame')
                self.cover.append(('return', self.facts + list(s.path)))
            elif kind == 'raise':
                cond = c.raises.get(v, c.raises.get('*'))
                if cond is None:
                    self.oblige(s, 'no exception %s' % v, z3.BoolVal(False), None, 'exc')
                else:
                    self.oblige(s, 'exception %s only where the contract allows it' % v, cond(Ctx(self, s, self.st0)), None, 'exc')
            else:
                raise Unsupported('%s outside a loop' % kind)
        return self.obls


class _Dummy(object):
    def __init__(self, name):
        self.name, self.loops, self.params, self.body = name, [], [], []


class Lemma(object):
    """Proved separately, then used as a fact.  induct: (var, lower bound) -> base and step obligations."""

    def __init__(self, name, fact, obls):
        self.name, self.fact, self._o = name, fact, obls

    def obligations(self):
        return self._o


def by_induction(name, P, lo, hi=None, pats=None):
    """forall k. lo <= k (<= hi) -> P(k)"""
    k = z3.Int('k_' + name)
    rng = k >= lo if hi is None else z3.And(k >= lo, k <= hi)
    rng_s = k >= lo if hi is None else z3.And(k >= lo, k < hi)
    base_c = [] if hi is None else [lo <= hi]
    kc = fresh('k_' + name)
    rc = z3.substitute(rng_s, (k, kc))
    return Lemma(name, forall([k], z3.Implies(rng, P(k)), pats(k)) if pats else all_k(k, rng, P(k)),
                 [('base', base_c, P(lo)), ('step', [rc, P(kc)], P(kc + 1))])


def plain(name, fact, goal=None, hyps=()):
    return Lemma(name, fact, [('holds', list(hyps), fact if goal is None else goal)])


def flt_cmp(op, a, b):
    va, vb, na, nb = [z3.simplify(x) for x in (fval(a), fval(b), fnan(a), fnan(b))]
    ok = z3.simplify(z3.And(z3.Not(na), z3.Not(nb)))
    r = {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb, '==': va == vb, '!=': va != vb}[op]
    if op == '!=':
        return z3.Or(z3.Not(ok), r)
    return z3.And(ok, r)


def _store(t, ii, v):
    if len(ii) == 1:
        return z3.Store(t, ii[0], v)
    return z3.Store(t, ii[0], _store(z3.Select(t, ii[0]), ii[1:], v))


_hq = {}


def _has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and z3.eq(r[0], e):
        return r[1]
    if z3.is_quantifier(e):
        v = True
    else:
        v = any(_has_quant(c) for c in e.children())
    _hq[k] = (e, v)
    return v


def modified(stmts, lib=()):
    """names assigned / arrays stored to in a loop (syntactic over-approximation)"""
    vs, arrs = [], []

    def root(t):
        while isinstance(t, (Index, Field)):
            t = t.a
        return t.name if isinstance(t, Var) else None

    def calls(e):
        if isinstance(e, ir.Node):
            if isinstance(e, Call):
                # arrays passed to calls may be modified
                args = list(e.args) + list(e.kw.values())
                if e.fn == 'np.random.shuffle':
                    arrs.extend(r for r in map(root, args) if r is not None)
                if e.fn in lib:
                    k = lib[e.fn]
                    names = list(getattr(k, 'fnparams', list(k.params)))
                    args = [a for n, a in list(zip(names, e.args)) + list(e.kw.items()) if n in k.modifies]
                for a in args:
                    r = root(a)
                    if r is not None and e.fn not in PURE and e.fn not in BUILTINS and not e.fn.startswith(('np.', '$', 'math.')):
                        arrs.append(r)
            for f in e._f:
                calls(getattr(e, f))
        elif isinstance(e, (list, tuple)):
            for x in e:
                calls(x)
        elif isinstance(e, dict):
            for x in e.values():
                calls(x)

    def walk(ss):
        for s in ss:
            if isinstance(s, Assign):
                if isinstance(s.tgt, Var):
                    vs.append(s.tgt.name)
                else:
                    arrs.append(root(s.tgt))
                calls(s.val)
            elif isinstance(s, Havoc):
                vs.append(s.name)
            elif isinstance(s, If):
                calls(s.c)
                walk(s.then)
                walk(s.els)
            elif isinstance(s, While):
                calls(s.c)
                walk(s.body)
                walk(s.step)
            elif isinstance(s, ExprS):
                calls(s.e)
            elif isinstance(s, (Return, Yield)):
                calls(s.val)
    walk(stmts)
    return list(dict.fromkeys(vs)), [a for a in dict.fromkeys(arrs)]


PURE = {'min', 'max', 'abs', 'sum', 'range', 'int', 'float', 'bool', 'is', 'in', 'sqrt', 'isnan', 'invert'}


# ------------------------------------------------------------------ builtins
def _b_minmax(op):
    def f(g, st, e):
        vs = [g.ev(a, st) for a in e.args]
        if len(vs) < 2 or not all(z3.is_expr(v) for v in vs):
            raise Unsupported('min/max of an iterable')
        r = vs[0]
        for v in vs[1:]:
            if r.sort() == I and v.sort() == I:
                r = z3.If(v < r, v, r) if op == 'min' else z3.If(v > r, v, r)
            else:
                r, v = g.asflt(r), g.asflt(v)
                r = z3.If(flt_cmp('<' if op == 'min' else '>', v, r), v, r)
        return r
    return f


def _b_abs(g, st, e):
    v = g.ev(e.args[0], st)
    if g.isint(v):
        return z3.If(v < 0, -v, v)
    v = g.asflt(v)
    x, n = z3.simplify(fval(v)), z3.simplify(fnan(v))
    return mkF(z3.If(x < 0, -x, x), n)


def _b_isnan(g, st, e):
    return fnan(g.asflt(g.ev(e.args[0], st)))


def _b_isfinite(g, st, e):
    return z3.Not(fnan(g.asflt(g.ev(e.args[0], st))))


def _b_sqrt(g, st, e):
    v = g.asflt(g.ev(e.args[0], st))
    x = z3.simplify(fval(v))
    r = uf('fsqrt', R, R)(x)
    return mkF(r, z3.simplify(fnan(v)))


def _b_square(g, st, e):
    v = g.asflt(g.ev(e.args[0], st))
    return mkF(uf('fpow', R, R, R)(z3.simplify(fval(v)), z3.RealVal(2)), z3.simplify(fnan(v)))


def _dt(g, v):
    if v is None or isinstance(v, NoneV):
        return None
    if isinstance(v, TypeV):
        return v.elem, v.cty
    if isinstance(v, OpaqueV):
        n = v.name.split('.')[-1]
        tab = {'uint8': ('int', 'u8'), 'uint16': ('int', 'u16'), 'uint32': ('int', 'u32'), 'int64': ('int', 'i64'), 'int32': ('int', 'i32'),
               'uint64': ('int', 'u64'), 'bool': ('bool', None), 'bool_': ('bool', None), 'float64': ('flt', None), 'float32': ('flt', None),
               'float': ('flt', None), 'int': ('int', 'i64'), 'int8': ('int', 'i8'), 'int16': ('int', 'i16'), 'uint': ('int', 'u64')}
        if n in tab:
            return tab[n]
    raise Unsupported('dtype')


def _b_alloc(zero):
    def f(g, st, e):
        args = list(e.args)
        kw = dict(e.kw)
        shp = kw.pop('shape', None) or args.pop(0)
        dt = kw.pop('dtype', None) or (args.pop(0) if args else None)
        kw.pop('order', None)
        if kw or args:
            raise Unsupported('allocation arguments')
        shp = g.ev(shp, st)
        dims = shp.elts if isinstance(shp, TupV) else [shp]
        el, cty = _dt(g, g.ev(dt, st)) if dt is not None else ('flt', None)
        for d in dims:
            if not g.isint(d):
                raise Unsupported('allocation shape')
            g.oblige(st, 'allocated size is not negative (line %s)' % e.line, d >= 0, e.line, 'safety')
        z = False
        if zero == 0:
            z = True
        elif zero == 1:
            z = {'int': z3.IntVal(1), 'bool': z3.BoolVal(True), 'flt': mkF(z3.RealVal(1), False)}[el]
        return g.mkarr(st, Arr(el, len(dims), cty), 'new', zero=z, dims=dims)
    return f


def _b_like(zero):
    def f(g, st, e):
        v = g.ev(e.args[0], st)
        if not isinstance(v, ArrV):
            raise Unsupported('*_like of a non-array')
        el, cty = v.elem, v.cty
        if 'dtype' in e.kw:
            el, cty = _dt(g, g.ev(e.kw['dtype'], st))
        if set(e.kw) - {'dtype'}:
            raise Unsupported('*_like keywords')
        return g.mkarr(st, Arr(el, len(v.dims), cty), 'new', zero=True if zero == 0 else False, dims=v.dims)
    return f


def _b_copy(g, st, e):
    v = g.ev(e.args[0], st)
    if not isinstance(v, ArrV):
        raise Unsupported('copy of a non-array')
    r = g.mkarr(st, Arr(v.elem, len(v.dims), v.cty), 'copy', dims=v.dims)
    plain_axes = all(a[0] == 'r' and z3.is_int_value(a[1]) and a[1].as_long() == 0 for a in v.axes)
    fields = list(v.elem) if isinstance(v.elem, dict) and v.field is None else [v.field]
    for f in fields:
        tf = f if isinstance(v.elem, dict) else None
        if plain_axes:
            st.heap[(r.base, tf)] = st.heap[(v.base, f)]
        else:
            vs = [z3.Int('cp%d' % k) for k in range(len(v.dims))]
            src = st.heap[(v.base, f)]
            for x in v.idx(vs):
                src = z3.Select(src, x)
            dst = st.heap[(r.base, tf)]
            for x in vs:
                dst = z3.Select(dst, x)
            st.add(forall(vs, z3.Implies(z3.And([z3.And(x >= 0, x < d) for x, d in zip(vs, v.dims)]), dst == src), [dst]))
    return r


def _b_contig(g, st, e):
    return g.ev(e.args[0], st)      # same values; contiguity is not modelled


def _b_searchsorted(g, st, e):
    """dependency contract: on a sorted 1-d array, the number of elements < v (left) / <= v (right)"""
    a, v = g.ev(e.args[0], st), g.ev(e.args[1], st)
    side = 'left'
    if 'side' in e.kw:
        s = g.ev(e.kw['side'], st)
        side = s.s
    if not isinstance(a, ArrV) or len(a.dims) != 1 or not g.isint(v) or a.elem != 'int':
        raise Unsupported('searchsorted arguments')
    t = AV(st.heap[(a.base, a.field)], a)
    n = a.dims[0]
    p, q = z3.Ints('ss_p ss_q')
    g.oblige(st, 'searchsorted: array is sorted (line %s)' % e.line,
             forall([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), t[p] <= t[q])), e.line, 'pre')
    r = fresh('ss')
    st.add(z3.And(r >= 0, r <= n))
    if side == 'left':
        st.add(forall([p], z3.Implies(z3.And(0 <= p, p < r), t[p] < v), [t[p]]))
        st.add(forall([p], z3.Implies(z3.And(r <= p, p < n), t[p] >= v), [t[p]]))
    else:
        st.add(forall([p], z3.Implies(z3.And(0 <= p, p < r), t[p] <= v), [t[p]]))
        st.add(forall([p], z3.Implies(z3.And(r <= p, p < n), t[p] > v), [t[p]]))
    return r


def _b_is(g, st, e):
    a, b = g.ev(e.args[0], st), g.ev(e.args[1], st)
    if isinstance(a, NoneV) or isinstance(b, NoneV):
        return z3.BoolVal(isinstance(a, NoneV) and isinstance(b, NoneV))
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == B and b.sort() == B:
        return a == b
    raise Unsupported('is')


def _b_anyall(q):
    def f(g, st, e):
        v = g.ev(e.args[0], st)
        if not isinstance(v, ArrV) or len(v.dims) != 1 or v.elem not in ('bool', 'int') or len(e.args) != 1 or e.kw:
            raise Unsupported('np.any / np.all')
        k = z3.Int('an')
        x = AV(st.heap[(v.base, v.field)], v)[k]
        x = x if v.elem == 'bool' else x != 0
        r = z3.And(0 <= k, k < v.dims[0])
        return z3.Exists([k], z3.And(r, x)) if q == 'any' else forall([k], z3.Implies(r, x))
    return f


def nset(m, k):
    """number of set entries of a boolean array before k"""
    return uf('nset', z3.ArraySort(I, B), I, I)(m, k)


def nset_facts():
    m, k = z3.Const('ns_m', z3.ArraySort(I, B)), z3.Int('ns_k')
    return [forall([m], nset(m, z3.IntVal(0)) == 0, [nset(m, z3.IntVal(0))]),
            forall([m, k], z3.Implies(k >= 0, nset(m, k + 1) == nset(m, k) + z3.If(m[k], 1, 0)), [nset(m, k)])]


def _b_argext(first):
    """dependency contract of np.argmax (first set entry, else 0) / np.argmin (first entry not set, else 0) on boolean arrays"""
    def f(g, st, e):
        v = g.ev(e.args[0], st)
        if not isinstance(v, ArrV) or v.elem != 'bool' or len(v.dims) != 1 or len(e.args) != 1 or e.kw:
            raise Unsupported('argmin / argmax')
        n = v.dims[0]
        g.oblige(st, 'argmin / argmax of a non-empty array (line %s)' % e.line, n > 0, e.line, 'safety')
        t = AV(st.heap[(v.base, v.field)], v)
        hit = (lambda k: t[k]) if first else (lambda k: z3.Not(t[k]))
        r, k = fresh('arg'), z3.Int('ax_k')
        st.add(z3.And(0 <= r, r < n))
        st.add(z3.Or(hit(r), z3.And(r == 0, forall([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(hit(k))), [t[k]]))))
        st.add(forall([k], z3.Implies(z3.And(0 <= k, k < r), z3.Not(hit(k))), [t[k]]))
        return r
    return f


def _b_read(g, st, e):
    """dependency contract of a pytables table: read(start, stop) gives a copy of the rows start..stop-1"""
    v = g.ev(e.args[0], st)
    if not isinstance(v, ArrV) or not isinstance(v.elem, dict) or len(e.args) != 1 or set(e.kw) != {'start', 'stop'}:
        raise Unsupported('table read')
    a, b = g.ev(e.kw['start'], st), g.ev(e.kw['stop'], st)
    if not (g.isint(a) and g.isint(b)):
        raise Unsupported('table read bounds')
    g.oblige(st, 'rows read are inside the table (line %s)' % e.line, z3.And(0 <= a, a <= b, b <= v.dims[0]), e.line, 'safety')
    return ArrV(v.base, v.elem, [('r', z3.simplify(v.axes[0][1] + a), z3.simplify(b - a))], v.cty, v.field)


def _b_where_list(g, st, e):
    """dependency contract of pytables get_where_list('column==value', start, stop): all matching rows of the range, rising"""
    v, cond = g.ev(e.args[0], st), g.ev(e.args[1], st)
    a, b = g.ev(e.kw['start'], st), g.ev(e.kw['stop'], st)
    if not (isinstance(v, ArrV) and isinstance(cond, SymS) and len(cond.parts) == 2 and isinstance(cond.parts[0], str) and cond.parts[0].strip().endswith('==')
            and z3.is_expr(cond.parts[1]) and set(e.kw) == {'start', 'stop'} and g.isint(a) and g.isint(b)):
        raise Unsupported('get_where_list')
    col = cond.parts[0].strip()[:-2].strip()
    t = AV(st.heap[(v.base, col)], v)
    r = g.mkarr(st, Arr('int', 1), 'where')
    w = AV(st.heap[(r.base, None)], r)
    m, k, p = r.dims[0], z3.Int('wl_k'), z3.Int('wl_p')
    st.add(forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(a <= w[k], w[k] < b, w[k] < v.dims[0], t[w[k]] == cond.parts[1])), [w[k]]))
    st.add(forall([k], z3.Implies(z3.And(0 <= k, k + 1 < m), w[k] < w[k + 1]), [w[k]]))
    st.add(forall([p], z3.Implies(z3.And(a <= p, p < b, p < v.dims[0], t[p] == cond.parts[1]), z3.And(m > 0, w[z3.IntVal(0)] <= p, p <= w[m - 1])), [t[p]]))
    return r


def _b_str(g, st, e):
    v = g.ev(e.args[0], st)
    if not g.isint(v):
        raise Unsupported('str()')
    return SymS([v])


def _b_ne(g, st, e):
    """numexpr on a literal string: the expression over the local variables"""
    import ast
    if len(e.args) != 1 or e.kw or not isinstance(e.args[0], Const) or not isinstance(e.args[0].v, str):
        raise Unsupported('numexpr arguments')
    x = ir.PyLower().e(ast.parse(e.args[0].v, mode='eval').body)
    return g.ev(x, st)


_wx = z3.Int('wx')


def _b_astype(g, st, e):
    v = g.ev(e.args[0], st)
    if len(e.args) != 2 or e.kw or not isinstance(v, ArrV) or len(v.dims) != 1:
        raise Unsupported('astype')
    el, cty = _dt(g, g.ev(e.args[1], st))
    if v.elem == 'int' and el == 'int' and cty in RANGES:
        lo, hi = RANGES[cty]
        wrap = uf('wrap_' + cty, I, I)      # value after wrapping: only its range is kept
        st.add(forall([_wx], z3.And(wrap(_wx) >= lo, wrap(_wx) <= hi), [wrap(_wx)]))
        return g.map1(lambda x: z3.If(z3.And(x >= lo, x <= hi), x, wrap(x)), v, st, 'int', cty)
    raise Unsupported('astype between these types')


def _flat(dims, ii):
    r = ii[0]
    for d, i in zip(dims[1:], ii[1:]):
        r = r * d + i
    return r


def _b_ravel(g, st, e):
    """flat copy in row-major order (the n-d array must not be used any more: it is not bound to a name)"""
    v = g.ev(e.args[0], st)
    if len(e.args) != 1 or e.kw or not isinstance(v, ArrV) or isinstance(e.args[0], Var) or not all(a[0] == 'r' for a in v.axes):
        raise Unsupported('ravel')
    n = v.dims[0]
    for d in v.dims[1:]:
        n = n * d
    r = g.mkarr(st, Arr(v.elem, 1, v.cty), 'flat', dims=[n])
    vs = [z3.Int('rv%d' % k) for k in range(len(v.dims))]
    src = AV(st.heap[(v.base, v.field)], v)[tuple(vs)]
    const = z3.simplify(src)
    if z3.is_int_value(const) or z3.is_rational_value(const):
        st.heap[(r.base, None)] = z3.K(I, const)
        return r
    rng = z3.And([z3.And(0 <= x, x < d) for x, d in zip(vs, v.dims)])
    st.add(forall(vs, z3.Implies(rng, z3.Select(st.heap[(r.base, None)], _flat(v.dims, vs)) == src)))
    return r


def _b_reshape(g, st, e):
    v, sh = g.ev(e.args[0], st), g.ev(e.args[1], st)
    if len(e.args) != 2 or e.kw or not isinstance(v, ArrV) or len(v.dims) != 1 or not isinstance(sh, TupV):
        raise Unsupported('reshape')
    n = sh.elts[0]
    for d in sh.elts[1:]:
        n = n * d
    g.oblige(st, 'reshape keeps the number of elements (line %s)' % e.line, n == v.dims[0], e.line, 'safety')
    r = g.mkarr(st, Arr(v.elem, len(sh.elts), v.cty), 'shaped', dims=sh.elts)
    vs = [z3.Int('rs%d' % k) for k in range(len(sh.elts))]
    dst = AV(st.heap[(r.base, None)], r)[tuple(vs)]
    rng = z3.And([z3.And(0 <= x, x < d) for x, d in zip(vs, sh.elts)])
    st.add(forall(vs, z3.Implies(rng, dst == AV(st.heap[(v.base, v.field)], v)[_flat(sh.elts, vs)]), [dst]))
    return r


def _b_int(g, st, e):
    v = g.ev(e.args[0], st)
    if g.isint(v):
        return v
    raise Unsupported('int()')


def _b_rcopy(g, st, e):
    return _b_copy(g, st, e)


def _b_invert(g, st, e):
    v = g.ev(e.args[0], st)
    if z3.is_expr(v) and v.sort() == B:
        return z3.Not(v)
    if isinstance(v, ArrV) and v.elem == 'bool':
        return g.elementwise(z3.Not, 'bool', v, None, st, e)
    raise Unsupported('~')


def _b_in(g, st, e):
    v, a = g.ev(e.args[0], st), g.ev(e.args[1], st)
    if isinstance(a, ArrV) and len(a.dims) == 1 and g.isint(v) and a.elem == 'int':
        k = z3.Int('in_k')
        t = AV(st.heap[(a.base, a.field)], a)[k]
        return z3.Exists([k], z3.And(0 <= k, k < a.dims[0], t == v))
    if isinstance(a, TupV):
        return z3.Or([g.cmp('==', v, x, st) for x in a.elts] or [z3.BoolVal(False)])
    raise Unsupported('in')


def _b_arange(g, st, e):
    a = [g.ev(x, st) for x in e.args]
    if e.kw or not 1 <= len(a) <= 2 or not all(g.isint(x) for x in a):
        raise Unsupported('arange')
    lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
    r = g.mkarr(st, Arr('int', 1), 'arange', dims=[z3.simplify(z3.If(hi - lo < 0, z3.IntVal(0), hi - lo))])
    k = z3.Int('ar_k')
    t = z3.Select(st.heap[(r.base, None)], k)
    st.add(forall([k], z3.Implies(z3.And(0 <= k, k < r.dims[0]), t == lo + k), [t]))
    return r


def _b_noeffect(g, st, e):
    for x in e.args:
        g.ev(x, st)
    return NoneV()


def _b_shuffle(g, st, e):
    """dependency contract of np.random.shuffle on (a part of) a 1-d array: the same entries in any order"""
    v = g.ev(e.args[0], st)
    if len(e.args) != 1 or e.kw or not isinstance(v, ArrV) or len(v.axes) != 1 or isinstance(v.elem, dict):
        raise Unsupported('shuffle')
    lo, n = v.axes[0][1], v.dims[0]
    key = (v.base, v.field)
    old = st.heap[key]
    new = fresh('shuffled', old.sort())
    pi = z3.Function('%s_from' % new, I, I)
    p, q = z3.Ints('sh_p sh_q')
    inr = lambda x: z3.And(lo <= x, x < lo + n)
    st.add(forall([p], z3.Implies(z3.Not(inr(p)), new[p] == old[p]), [new[p]]))
    st.add(forall([p], z3.Implies(inr(p), z3.And(inr(pi(p)), new[p] == old[pi(p)])), [new[p]]))
    st.add(forall([p, q], z3.Implies(z3.And(inr(p), inr(q), pi(p) == pi(q)), p == q), [z3.MultiPattern(new[p], new[q])]))
    st.heap[key] = new
    return NoneV()


BUILTINS = {
    'np.arange': _b_arange, 'np.random.seed': _b_noeffect, 'np.random.shuffle': _b_shuffle,
    'in': _b_in,
    'min': _b_minmax('min'), 'max': _b_minmax('max'), 'std::max': _b_minmax('max'), 'std::min': _b_minmax('min'),
    'np.minimum': _b_minmax('min'), 'np.maximum': _b_minmax('max'),
    'abs': _b_abs, 'np.abs': _b_abs, 'np.absolute': _b_abs, 'np.fabs': _b_abs, 'math.fabs': _b_abs,
    'np.isnan': _b_isnan, 'math.isnan': _b_isnan, 'np.isfinite': _b_isfinite, 'sqrt': _b_sqrt, 'np.sqrt': _b_sqrt, 'math.sqrt': _b_sqrt,
    'np.square': _b_square,
    'np.zeros': _b_alloc(0), 'np.ones': _b_alloc(1), 'np.empty': _b_alloc(None),
    'np.zeros_like': _b_like(0), 'np.empty_like': _b_like(None),
    'np.copy': _b_copy, '.copy': _b_copy, 'np.ascontiguousarray': _b_contig,
    'np.searchsorted': _b_searchsorted, '.searchsorted': _b_searchsorted,
    'np.any': _b_anyall('any'), 'np.all': _b_anyall('all'), '.any': _b_anyall('any'), '.all': _b_anyall('all'),
    '.astype': _b_astype, '.ravel': _b_ravel, 'np.ravel': _b_ravel, 'np.reshape': _b_reshape, '.reshape': _b_reshape,
    'np.argmax': _b_argext(True), 'np.argmin': _b_argext(False), '.argmax': _b_argext(True), '.argmin': _b_argext(False), 'ne.evaluate': _b_ne, '.read': _b_read, '.get_where_list': _b_where_list, 'str': _b_str,
    'is': _b_is, 'int': _b_int, 'invert': _b_invert, 'len': None,
}
BUILTINS.pop('len')


def unrole(fn, baseline_names):
    """Match renamed locals by order of first assignment; only a guess, every obligation is proved anew under it."""
    names = []

    def walk(ss):
        for s in ss:
            if isinstance(s, Assign) and isinstance(s.tgt, Var):
                if s.tgt.name not in names and not s.tgt.name.startswith('$'):
                    names.append(s.tgt.name)
            elif isinstance(s, Havoc):
                if s.name not in names:
                    names.append(s.name)
            elif isinstance(s, If):
                walk(s.then)
                walk(s.els)
            elif isinstance(s, While):
                walk(s.body)
                walk(s.step)
    walk(fn.body)
    if not baseline_names:
        return {}, names
    miss = [b for b in baseline_names if b not in names and b not in fn.params]
    new = [n for n in names if n not in baseline_names]
    if not miss:
        return {}, names
    if len(miss) != len(new):
        raise Unsupported('locals of %s changed' % fn.name)
    return dict(zip(miss, new)), names
