"""Small imperative language that Python (numba) loops, the pyx glue and the C++ header are lowered to.

Lowering is mechanical: one statement of the source gives one or a few IR statements, nothing is summarised.
Dropped: docstrings, comments, pure logging calls, numba type declarations, C++ stream formatting of messages.
"""
import ast
import textwrap


class Unsupported(BaseException):
    """The construct is outside the verifier's subset."""


class Node(object):
    _f = ()

    def __init__(self, *a, line=None):
        assert len(a) == len(self._f), (type(self), a)
        for n, v in zip(self._f, a):
            setattr(self, n, v)
        self.line = line

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(getattr(self, n)) for n in self._f))


def _mk(name, *fields):
    return type(name, (Node,), {'_f': fields})


# expressions
Const = _mk('Const', 'v')
Var = _mk('Var', 'name')
Bin = _mk('Bin', 'op', 'a', 'b', 'ty')      # ty: None (mathematical / float), 'u32', 'i64', ...: checked for overflow
Cmp = _mk('Cmp', 'op', 'a', 'b')
And = _mk('And', 'args')
Or = _mk('Or', 'args')
Not = _mk('Not', 'a')
Neg = _mk('Neg', 'a')
Index = _mk('Index', 'a', 'idx')            # idx: list of expr / Slice
Slice = _mk('Slice', 'lo', 'hi', 'step')
Len = _mk('Len', 'a', 'dim')
Shape = _mk('Shape', 'a')
Field = _mk('Field', 'a', 'name')
Call = _mk('Call', 'fn', 'args', 'kw')
IfE = _mk('IfE', 'c', 'a', 'b')
Cast = _mk('Cast', 'ty', 'a')
TupleE = _mk('TupleE', 'elts')
# statements
Assign = _mk('Assign', 'tgt', 'val')
If = _mk('If', 'c', 'then', 'els')
While = _mk('While', 'c', 'body', 'step', 'info')   # info: dict(kind, var, counter, id)
Break = _mk('Break')
Continue = _mk('Continue')
Return = _mk('Return', 'val')
Raise = _mk('Raise', 'exc')
ExprS = _mk('ExprS', 'e')
Yield = _mk('Yield', 'val')
Havoc = _mk('Havoc', 'name', 'ty')


class Func(object):
    def __init__(self, name, params, body, defaults=None, lang='py', src='', file='', ptypes=None):
        self.name, self.params, self.body = name, params, body
        self.defaults = defaults or {}
        self.lang, self.src, self.file, self.ptypes = lang, src, file, ptypes or {}
        self.loops = []
        number_loops(self)


def number_loops(fn):
    fn.loops = []

    def walk(stmts):
        for s in stmts:
            if isinstance(s, While):
                s.info['id'] = len(fn.loops)
                fn.loops.append(s)
                walk(s.body)
                walk(s.step)
            elif isinstance(s, If):
                walk(s.then)
                walk(s.els)
    walk(fn.body)


_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
        ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
_CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'isnot',
        ast.In: 'in', ast.NotIn: 'notin'}

NP_NAMES = ('np', 'numpy')
IGNORED_CALLS = ('logging.', 'print', 'pbar.', 'warnings.')


class PyLower(object):
    def __init__(self):
        self.k = 0
        self.gen = False

    def tmp(self, p):
        self.k += 1
        return '$%s%d' % (p, self.k)

    # -- expressions
    def e(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(n).__name__, getattr(n, 'lineno', '?')))
        r = m(n)
        if r.line is None:
            r.line = getattr(n, 'lineno', None)
        return r

    def e_Constant(self, n):
        return Const(n.value)

    def e_Name(self, n):
        return Var(n.id)

    def e_Tuple(self, n):
        return TupleE([self.e(x) for x in n.elts])

    e_List = e_Tuple

    def e_BinOp(self, n):
        op = _BIN.get(type(n.op))
        if op is None:
            raise Unsupported('operator %s' % type(n.op).__name__)
        return Bin(op, self.e(n.left), self.e(n.right), None)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return Not(self.e(n.operand))
        if isinstance(n.op, ast.USub):
            v = self.e(n.operand)
            if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
                return Const(-v.v)
            return Neg(v)
        if isinstance(n.op, ast.UAdd):
            return self.e(n.operand)
        if isinstance(n.op, ast.Invert):
            return Call('invert', [self.e(n.operand)], {})
        raise Unsupported('unary operator')

    def e_BoolOp(self, n):
        return (And if isinstance(n.op, ast.And) else Or)([self.e(v) for v in n.values])

    def e_Compare(self, n):
        parts = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            o = _CMP.get(type(op))
            if o is None:
                raise Unsupported('comparison')
            if o in ('is', 'isnot', 'in', 'notin'):
                c = Call(o.replace('not', ''), [self.e(left), self.e(right)], {})
                parts.append(Not(c) if o.endswith('not') or o == 'notin' else c)
            else:
                parts.append(Cmp(o, self.e(left), self.e(right)))
            left = right
        return parts[0] if len(parts) == 1 else And(parts)

    def e_IfExp(self, n):
        return IfE(self.e(n.test), self.e(n.body), self.e(n.orelse))

    def e_Attribute(self, n):
        if n.attr == 'shape':
            return Shape(self.e(n.value))
        if n.attr in ('size',):
            return Len(self.e(n.value), 'size')
        if n.attr == 'T':
            return Call('T', [self.e(n.value)], {})
        d = dotted(n)
        if d:
            return Var(d)
        return Field(self.e(n.value), n.attr)

    def idx(self, s):
        if isinstance(s, ast.Tuple):
            return [self.idx1(x) for x in s.elts]
        return [self.idx1(s)]

    def idx1(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.e(x)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        return self.e(s)

    def e_Subscript(self, n):
        if isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.slice, ast.Constant):
            return Len(self.e(n.value.value), n.slice.value)
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            return Field(self.e(n.value), n.slice.value)
        return Index(self.e(n.value), self.idx(n.slice))

    def e_Call(self, n):
        d = dotted(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                raise Unsupported('starred argument')
            args.append(self.e(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            kw[k.arg] = self.e(k.value)
        if d is None:
            if isinstance(n.func, ast.Attribute):
                return Call('.' + n.func.attr, [self.e(n.func.value)] + args, kw)
            raise Unsupported('call')
        if d == 'len' and len(args) == 1:
            return Len(args[0], 0)
        root = d.split('.')[0]
        if root in NP_NAMES:
            d = 'np.' + d.split('.', 1)[1]
        elif '.' in d and root not in ('math', 'analysis_functions', 'analysis_utils', 'geometry_utils', 'os', 'logging', 'ne', 'tb'):
            return Call('.' + d.split('.')[-1], [self.e(n.func.value)] + args, kw)
        return Call(d, args, kw)

    def e_Yield(self, n):
        raise Unsupported('yield expression')

    # -- statements
    def body(self, stmts):
        out = []
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
            r = m(s)
            for x in r:
                if x.line is None:
                    x.line = s.lineno
            out += r
        return out

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return []
        if isinstance(v, ast.Yield):
            self.gen = True
            return [Yield(self.e(v.value))]
        if isinstance(v, ast.Call):
            d = dotted(v.func) or ''
            if d.startswith(IGNORED_CALLS):
                return []
        return [ExprS(self.e(v))]

    def s_Pass(self, s):
        return []

    def s_Global(self, s):
        return []

    def s_Assign(self, s):
        val = self.e(s.value)
        if len(s.targets) == 1:
            return self.assign(s.targets[0], val)
        t = self.tmp('m')
        out = [Assign(Var(t), val)]
        for tg in s.targets:
            out += self.assign(tg, Var(t))
        return out

    def s_AnnAssign(self, s):
        if s.value is None:
            return []
        return self.assign(s.target, self.e(s.value))

    def assign(self, tg, val):
        if isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(val, TupleE) and len(val.elts) == len(tg.elts):
                tmps, out = [], []
                for v in val.elts:
                    t = self.tmp('t')
                    tmps.append(t)
                    out.append(Assign(Var(t), v))
                for x, t in zip(tg.elts, tmps):
                    out += self.assign(x, Var(t))
                return out
            t = self.tmp('u')
            out = [Assign(Var(t), val)]
            for i, x in enumerate(tg.elts):
                out += self.assign(x, Index(Var(t), [Const(i)]))
            return out
        return [Assign(self.e(tg), val)]

    def s_AugAssign(self, s):
        op = _BIN.get(type(s.op))
        if op is None:
            raise Unsupported('augmented operator')
        t = self.e(s.target)
        return [Assign(t, Bin(op, t, self.e(s.value), None))]

    def s_If(self, s):
        return [If(self.e(s.test), self.body(s.body), self.body(s.orelse))]

    def s_While(self, s):
        if s.orelse:
            raise Unsupported('while-else')
        return [While(self.e(s.test), self.body(s.body), [], dict(kind='while'))]

    def s_For(self, s):
        if s.orelse:
            raise Unsupported('for-else')
        it = s.iter
        d = dotted(it.func) if isinstance(it, ast.Call) else None
        c = self.tmp('c')
        if d in ('range', 'np.arange', 'numpy.arange', 'prange'):
            a = [self.e(x) for x in it.args]
            kws = {k.arg for k in it.keywords}
            if kws - {'dtype'}:
                raise Unsupported('range keywords')
            lo, hi, st = Const(0), None, Const(1)
            if len(a) == 1:
                hi = a[0]
            elif len(a) == 2:
                lo, hi = a
            else:
                lo, hi, st = a
            if not (isinstance(st, Const) and isinstance(st.v, int) and st.v != 0):
                raise Unsupported('range step')
            if not isinstance(s.target, ast.Name):
                raise Unsupported('for target')
            h = self.tmp('h')
            pre = [Assign(Var(c), lo), Assign(Var(h), hi)]
            body = [Assign(Var(s.target.id), Var(c)), Assign(Var(c), Bin('+', Var(c), st, None))]
            return pre + [While(Cmp('<' if st.v > 0 else '>', Var(c), Var(h)), body + self.body(s.body), [],
                                dict(kind='for', var=s.target.id, counter=c))]
        if d == 'enumerate' and len(it.args) == 1:
            if not isinstance(s.target, ast.Tuple) or len(s.target.elts) != 2:
                raise Unsupported('enumerate target')
            arr = self.tmp('a')
            pre = [Assign(Var(arr), self.e(it.args[0])), Assign(Var(c), Const(0))]
            body = self.assign(s.target.elts[0], Var(c)) + self.assign(s.target.elts[1], Index(Var(arr), [Var(c)])) + \
                [Assign(Var(c), Bin('+', Var(c), Const(1), None))]
            iv = s.target.elts[0].id if isinstance(s.target.elts[0], ast.Name) else None
            return pre + [While(Cmp('<', Var(c), Len(Var(arr), 0)), body + self.body(s.body), [], dict(kind='for', var=iv, counter=c, over=arr))]
        if d is not None and d not in ('reversed',):
            pass
        arr = self.tmp('a')
        pre = [Assign(Var(arr), self.e(it)), Assign(Var(c), Const(0))]
        body = self.assign(s.target, Index(Var(arr), [Var(c)])) + [Assign(Var(c), Bin('+', Var(c), Const(1), None))]
        return pre + [While(Cmp('<', Var(c), Len(Var(arr), 0)), body + self.body(s.body), [], dict(kind='for', var=None, counter=c, over=arr))]

    def s_Break(self, s):
        return [Break()]

    def s_Continue(self, s):
        return [Continue()]

    def s_Return(self, s):
        return [Return(None if s.value is None else self.e(s.value))]

    def s_Raise(self, s):
        x = s.exc
        if x is None:
            return [Raise('RuntimeError')]
        if isinstance(x, ast.Call):
            x = x.func
        return [Raise(dotted(x) or 'Exception')]

    def s_Assert(self, s):
        return [If(self.e(s.test), [], [Raise('AssertionError')])]


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


def find_function(tree, qualname):
    """qualname: 'f', 'Class.f' or 'outer.inner'."""
    body = tree.body
    node = None
    for part in qualname.split('.'):
        node = None
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part:
                node = s
        if node is None:
            return None
        body = node.body
    return node


def lower_python(source, qualname, file=''):
    tree = source if isinstance(source, ast.AST) else ast.parse(source)
    n = find_function(tree, qualname)
    if n is None:
        raise Unsupported('function %s not found in %s' % (qualname, file))
    return lower_def(n, file, qualname)


def lower_def(n, file='', name=None):
    lo = PyLower()
    a = n.args
    if a.vararg or a.kwarg or a.posonlyargs:
        raise Unsupported('argument kinds of %s' % n.name)
    params = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
    dfl = {}
    for p, d in zip(reversed(a.args), reversed(a.defaults)):
        dfl[p.arg] = lo.e(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[p.arg] = lo.e(d)
    body = lo.body(n.body)
    f = Func(name or n.name, params, body, dfl, 'py', ast.unparse(n), file)
    f.gen = lo.gen
    return f


def lower_pyx(text, name, file=''):
    """The pyx glue functions: strip C casts and argument types, then lower as Python."""
    import re
    m = re.search(r'^def %s\(.*?(?=^\S|\Z)' % re.escape(name), text, re.S | re.M)
    if m is None:
        raise Unsupported('pyx function %s not found' % name)
    t = m.group(0)
    t = re.sub(r'<\s*(?:const\s+)?[\w ]+?\s*(?:\*\s*)?(?:&)?\s*>', '', t)     # casts
    head, rest = t.split('):', 1)
    nm, args = head.split('(', 1)
    ptypes = {}
    out, depth, cur = [], 0, ''
    for ch in args + ',':
        if ch in '[(':
            depth += 1
        if ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            a = cur.strip()
            cur = ''
            if not a:
                continue
            dflt = None
            if '=' in a and '[' not in a.split('=')[-1]:
                lhs, rhs = a.rsplit('=', 1)
                if not lhs.rstrip().endswith(('ndim', ',')):
                    a, dflt = lhs.strip(), rhs.strip()
            mm = re.match(r'^(?:(.*?)[\s&\*\]])?\s*&?\s*(\w+)$', a)
            if mm is None:
                raise Unsupported('pyx argument %r' % a)
            ty = a[:mm.start(2)].strip()
            ptypes[mm.group(2)] = ty
            out.append(mm.group(2) + ('=' + dflt if dflt else ''))
            continue
        cur += ch
    code = '%s(%s):%s' % (nm, ', '.join(out), rest)
    code = re.sub(r'\b(\w+)\.data\b', r'\1', code)
    f = lower_def(ast.parse(textwrap.dedent(code)).body[0], file, name)
    f.ptypes = ptypes
    return f
