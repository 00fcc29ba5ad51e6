"""Execution of both branches of a data-dependent case distinction, joined afterwards (used by symx.Loader(merge=True)), and machine
types declared for numba functions.  The source text of a module is rewritten mechanically:

* if T: B else: C     (without a jump out of it)  ->  for an undecided T both branches run and every assigned local name and every
                       array reachable from a local name is joined by T
* for X in I: B       the iterator may yield items that exist only under a condition (np.nonzero of a symbolic mask)
* @njit(signature, locals={...})  parameters, results and declared names are converted to the declared machine type"""
import ast

import numpy as np

from vf import symx
from vf.symx import z3, A, S, SB, BVS, Unsupported

JUMP = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Raise, ast.Await, ast.Delete, ast.Global, ast.Nonlocal)


def jumps(body):
    return any(isinstance(m, JUMP) for s in body for m in ast.walk(s))


def stored(body):
    r = []
    for s in body:
        for m in ast.walk(s):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store,)) and not m.id.startswith('__') and m.id not in r:
                r.append(m.id)
            if isinstance(m, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.With, ast.Try)):
                return None
    return r


def stmts(text):
    return ast.parse(text).body


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        sig, loc = None, None
        for d in node.decorator_list:
            if isinstance(d, ast.Call) and ('njit' in ast.dump(d.func) or "'jit'" in ast.dump(d.func)):
                for a in d.args:
                    sig = a
                for kw in d.keywords:
                    if kw.arg == 'locals' and isinstance(kw.value, ast.Dict):
                        loc = {ast.literal_eval(x): y for x, y in zip(kw.value.keys, kw.value.values)}
        ret, args = None, []
        if isinstance(sig, ast.Call):
            ret, args = sig.func, sig.args
        elif isinstance(sig, ast.Tuple):
            args = sig.elts
        types = dict(loc or {})
        pre = []
        for p, t in zip(node.args.args, args):
            types[p.arg] = t
            pre.append(ast.Assign(targets=[ast.Name(p.arg, ast.Store())], value=self.cast(t, ast.Name(p.arg, ast.Load()))))
        self.stack = getattr(self, 'stack', [])
        self.stack.append((dict(loc or {}), ret))
        node.body = [x for s in node.body for x in self.many(self.visit(s))]
        self.stack.pop()
        doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body[doc:doc] = pre
        self.depth -= 1
        return node

    @staticmethod
    def many(x):
        return x if isinstance(x, list) else [] if x is None else [x]

    @staticmethod
    def cast(t, v):
        return ast.Call(func=ast.Name('__cast__', ast.Load()), args=[ast.Constant(ast.unparse(t)), v], keywords=[])

    def visit_Assign(self, node):
        if self.depth:
            loc = self.stack[-1][0]
            if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in loc:
                node.value = self.cast(loc[node.targets[0].id], node.value)
        return node

    def visit_AugAssign(self, node):
        if self.depth and isinstance(node.target, ast.Name) and node.target.id in self.stack[-1][0]:
            v = ast.BinOp(left=ast.Name(node.target.id, ast.Load()), op=node.op, right=node.value)
            return ast.Assign(targets=[node.target], value=self.cast(self.stack[-1][0][node.target.id], v))
        return node

    def visit_Return(self, node):
        if self.depth and self.stack[-1][1] is not None and node.value is not None:
            node.value = self.cast(self.stack[-1][1], node.value)
        return node

    def block(self, body):
        return [x for s in body for x in self.many(self.visit(s))]

    def branch(self, test, body, orelse):
        """both branches of an undecided test"""
        self.k += 1
        k = self.k
        names = stored(body + orelse)
        c, s, t = '__c%d__' % k, '__s%d__' % k, '__t%d__' % k
        out = [ast.Assign(targets=[ast.Name(c, ast.Store())], value=ast.Call(func=ast.Name('__test__', ast.Load()), args=[test], keywords=[]))]
        both = stmts('%s = __save__(locals(), %s)' % (s, c)) + body + stmts('%s = __save__(locals(), None)' % t)
        for n in names:
            both += stmts('%s = __old__(%s, %r)' % (n, s, n))
        both += stmts('__revert__(%s, %s)' % (s, c)) + orelse
        for n in names:
            both += stmts('%s = __join__(%s, %s, %r, %s)' % (n, c, t, n, n))
        both += stmts('__arrays__(%s, %s, %s)' % (c, s, t))
        import copy
        out.append(ast.If(test=ast.parse('%s is True' % c, mode='eval').body, body=copy.deepcopy(body),
                          orelse=[ast.If(test=ast.parse('%s is False' % c, mode='eval').body, body=copy.deepcopy(orelse) or [ast.Pass()], orelse=both)]))
        return out

    def visit_If(self, node):
        if not self.depth or jumps(node.body + node.orelse) or stored(node.body + node.orelse) is None:
            node.body, node.orelse = self.block(node.body), self.block(node.orelse)
            return node
        return self.branch(node.test, self.block(node.body), self.block(node.orelse))

    def visit_For(self, node):
        if not self.depth or node.orelse or jumps(node.body) or stored(node.body) is None:
            node.body, node.orelse = self.block(node.body), self.block(node.orelse)
            return node
        self.k += 1
        it = '__it%d__' % self.k
        body = self.block(node.body)
        inner = [ast.Assign(targets=[node.target], value=ast.parse('%s[1]' % it, mode='eval').body)]
        inner += self.branch(ast.parse('%s[0]' % it, mode='eval').body, body, [])
        return ast.For(target=ast.Name(it, ast.Store()), iter=ast.Call(func=ast.Name('__items__', ast.Load()), args=[node.iter], keywords=[]), body=inner, orelse=[])


class Unset(object):
    def __getattr__(self, n):
        raise Unsupported('name set on one branch only')
    __bool__ = __add__ = __radd__ = __getitem__ = __call__ = lambda *a: (_ for _ in ()).throw(Unsupported('name set on one branch only'))


UNSET = Unset()


def t_test(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, z3.BoolRef):
        f = z3.simplify(v)
    elif isinstance(v, (S, SB)):
        f = z3.simplify(symx.truth(v))
    elif isinstance(v, BVS):
        f = z3.simplify(v.v != 0)
    else:
        return bool(v)
    return True if z3.is_true(f) else False if z3.is_false(f) else f


def t_save(loc, cond):
    r = {}
    for n, v in loc.items():
        if not n.startswith('__'):
            r[n] = (v, v.d.copy() if isinstance(v, A) else None)
            if isinstance(v, (list, dict, set)):
                r[n] = (v, type(v)(v))
    if cond is not None:
        symx.ctx().guards.append(cond)
    return r


def t_old(s, n):
    return s[n][0] if n in s else UNSET


def t_revert(s, cond):
    for n, (v, d) in s.items():
        if isinstance(v, A):
            v.d[...] = d
        elif d is not None and (len(d) != len(v) or (isinstance(v, list) and any(a is not b for a, b in zip(v, d)))):
            raise Unsupported('collection changed under a condition')
    g = symx.ctx().guards
    g.pop()
    g.append(z3.Not(cond))


def t_join(c, t, n, cur):
    v = t[n][0] if n in t else UNSET
    if v is cur:
        return cur
    if v is UNSET or cur is UNSET:
        return UNSET
    if isinstance(v, A) and isinstance(cur, A):
        if v.d.shape != cur.d.shape:
            raise Unsupported('arrays of different shape joined')
        d = np.empty(v.d.shape, dtype=object)
        vd = t[n][1]
        for i in np.ndindex(*d.shape):
            d[i] = symx.ite(c, vd[i], cur.d[i])
        return A(d, v.gen, v.kind)
    if isinstance(v, (A, tuple, list, str)) or isinstance(cur, (A, tuple, list, str)):
        raise Unsupported('values of different kind joined')
    if isinstance(v, (int, np.integer)) and isinstance(cur, (int, np.integer)) and v == cur:
        return cur
    return symx.ite(c, v, cur)


def t_arrays(c, s, t):
    """arrays that existed before: joined content"""
    for n, (v, _) in s.items():
        if isinstance(v, A) and n in t and t[n][0] is v:
            d = t[n][1]
            for i in np.ndindex(*v.d.shape):
                if d[i] is not v.d[i]:
                    v.d[i] = symx.ite(c, d[i], v.d[i])
        elif isinstance(v, A) and n in t:
            raise Unsupported('array name bound anew under a condition')
    symx.ctx().guards.pop()


class GDom(object):
    """items that exist under conditions, in a fixed order"""
    def __init__(self, guards):
        self.guards = guards


class GSize(object):
    def __init__(self, dom):
        self.dom = dom

    def __index__(self):
        raise Unsupported('number of selected items used as a number')
    __int__ = __add__ = __sub__ = __mul__ = __eq__ = __lt__ = __gt__ = __bool__ = __index__


class GIdx(object):
    def __init__(self, dom, k):
        self.dom, self.k = dom, k

    def __index__(self):
        raise Unsupported('position in a list of selected items used as a number')


class Guarded(object):
    def __init__(self, dom, values):
        self.dom, self.values = dom, values

    @property
    def size(self):
        return GSize(self.dom)

    @property
    def shape(self):
        return (GSize(self.dom),)

    def __len__(self):
        raise Unsupported('number of selected items used as a number')

    def __iter__(self):
        raise Unsupported('selected items iterated outside of a rewritten loop')

    def __getitem__(self, k):
        if isinstance(k, GIdx) and k.dom is self.dom:
            return self.values[k.k]
        raise Unsupported('selected items indexed')


class Items(object):
    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        raise Unsupported('selected items iterated outside of a rewritten loop')


def t_items(it):
    if isinstance(it, Items):
        return it.pairs
    if isinstance(it, Guarded):
        return list(zip(it.dom.guards, it.values))
    return ((True, v) for v in it)


def g_range(n):
    return Items([(g, GIdx(n.dom, k)) for k, g in enumerate(n.dom.guards)])


def g_zip(*a):
    if any(isinstance(x, Guarded) for x in a):
        if not all(isinstance(x, Guarded) and x.dom is a[0].dom for x in a):
            raise Unsupported('zip of selected items with something else')
        return Items([(g, tuple(x.values[k] for x in a)) for k, g in enumerate(a[0].dom.guards)])
    return zip(*a)


def nonzero(a):
    if any(g is not None for g in a.gen):
        raise Unsupported('nonzero of rows')
    guards = [z3.simplify(symx.truth(v)) for v in a.d.flat]
    dom = GDom(guards)
    idx = list(np.ndindex(*a.d.shape))
    return tuple(Guarded(dom, [i[k] for i in idx]) for k in range(a.d.ndim))


def t_cast(t, v):
    t = t.split('.')[-1].split('[')[0]
    if not (t.startswith('uint') or t.startswith('int')) or '[' in t or not t[-1].isdigit():
        return v
    w = int(''.join(x for x in t if x.isdigit()))
    signed = t.startswith('int')
    if isinstance(v, BVS):
        # numba computes with at least 64 bit; the value is that of the narrower type
        v = symx.bvcast(v, np.dtype(t))
        return symx.bvcast(v, np.dtype('int64' if signed else 'uint64')) if w < 64 else v
    w = max(w, 64)
    if isinstance(v, (int, np.integer)):
        return BVS(z3.BitVecVal(int(v), w), signed)
    if isinstance(v, S) and v.c is not None and v.c.denominator == 1:
        return BVS(z3.BitVecVal(int(v.c), w), signed)
    return v


NAMES = dict(__test__=t_test, __save__=t_save, __old__=t_old, __revert__=t_revert, __join__=t_join, __arrays__=t_arrays, __items__=t_items, __cast__=t_cast, zip=g_zip)


def rewrite(src, path):
    tree = ast.parse(src, path)
    tree = ast.fix_missing_locations(Rewrite().visit(tree))
    return compile(tree, path, 'exec')
