"""C26 Index lookup and neighbour search helpers are exact."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Seq, Loader, explore, call, Raised

F = 'beam_telescope_analysis/tools/analysis_utils.py'
M = 'beam_telescope_analysis.tools.analysis_utils'


def seq(c, nm, kind, sort):
    f = z3.Function(nm, z3.IntSort(), z3.IntSort() if kind == 'i' else z3.RealSort())
    n = z3.Int('len_' + nm)
    c.assume(n >= 1)
    if sort:
        i, j = z3.Ints('i j')
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    return f, n, Seq(f, n, kind)


def queries(c, kind):
    return c.arr('value', ('n',), kind=kind)


def closest(kind):
    def run(c):
        m = Loader().module(M)
        f, n, a = seq(c, 'sorted', kind, True)
        v = queries(c, kind)
        r = call(m.find_closest, a, v.copy())
        if isinstance(r, Raised) or not isinstance(r, A) or r.d.shape != (1,) or r.gen[0] is None:
            c.goal('one index per query', False)
            return
        c.goal('rows', r.gen[0].same(v.gen[0]))
        i = r.d[0]
        c.goal('integer index', i.k != 'f' and i.n is None)
        t, x = i.t, v.d[0].t
        c.goal('index within the array', z3.And(t >= -n, t < n))
        t = z3.If(t < 0, t + n, t)
        k = c.fresh('any', z3.IntSort())
        d = lambda y: z3.If(y >= 0, y, -y)
        c.goal('nearest value', z3.Implies(z3.And(k >= 0, k < n), d(f(t) - x) <= d(f(k) - x)))
    return explore('find_closest, %s' % kind, F, run)


def lookup(kind, sort, fill):
    def run(c):
        m = Loader().module(M)
        f, n, a = seq(c, 'table', kind, sort)
        v = queries(c, kind)
        x = v.d[0].t
        kw = {}
        if fill:
            kw['fill_invalid'] = c.int('fill')
        if sort:
            kw['assume_sorted'] = True
        r = call(m.in1d_index, v.copy(), a, **kw)
        if isinstance(r, Raised) or not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(y, A) and y.d.shape == (1,) and y.gen[0] is not None for y in r)):
            c.goal('two index arrays', False)
            return
        pos, idx = r
        k = z3.Int('k')
        found = pos.gen[0].guard
        c.goal('same rows', pos.gen[0].base == v.gen[0].base and idx.gen[0].base == v.gen[0].base)
        c.goal('positions', pos.d[0].t == symx.rowterm(v.gen[0].base))
        j = c.fresh('any', z3.IntSort())
        c.goal('values that occur are found', z3.Implies(z3.And(j >= 0, j < n, f(j) == x), found))
        i = idx.d[0]
        c.goal('integer index', i.k != 'f' and i.n is None)
        c.goal('the index is the place of the value', z3.Implies(found, z3.And(i.t >= 0, i.t < n, f(i.t) == x)))
        if fill:
            c.goal('one index per value', z3.simplify(idx.gen[0].guard).eq(z3.BoolVal(True)))
            c.goal('fill value elsewhere', z3.Implies(z3.Not(found), i.t == kw['fill_invalid'].t))
        else:
            c.goal('an index for the found values only', idx.gen[0].guard == found)
    return explore('in1d_index, %s, %s, %s' % (kind, 'sorted' if sort else 'any order', 'filled' if fill else 'found only'), F, run)


SYM = [('closest ' + k, F + ':find_closest', lambda k=k: closest(k)) for k in 'fi'] \
    + [('lookup %s %s %s' % (k, s, fl), F + ':in1d_index', lambda k=k, s=s, fl=fl: lookup(k, s, fl)) for k in 'fi' for s in (False, True) for fl in (False, True)]


def o_closest(o):
    np_ = o.np
    f = o.mod('tools.analysis_utils').find_closest
    while o.more():
        n = int(o.rng.integers(1, 9))
        if o.rng.random() < 0.5:
            a = np_.sort(o.rng.integers(-10, 10, n))
            v = o.rng.integers(-12, 13, int(o.rng.integers(1, 7)))
        else:
            a = np_.sort(o.rng.normal(0, 10.0 ** o.rng.integers(-3, 4), n))
            v = o.rng.normal(0, 10.0 ** o.rng.integers(-3, 4), int(o.rng.integers(1, 7)))
            if o.rng.random() < 0.3:
                v[0] = a[int(o.rng.integers(0, n))]
        b, w = a.copy(), v.copy()
        i = np_.asarray(f(b, w))
        data = dict(array=a, values=v, index=i)
        ok = i.shape == v.shape and ((i >= -n) & (i < n)).all()
        if ok:
            best = np_.abs(a[None, :] - v[:, None]).min(axis=1)
            ok = bool((np_.abs(a[i] - v) <= best * (1 + 1e-9)).all())
        o.check(ok, 'closest', 'closest values to %s in %s: index %s' % (v, a, i), data)
        o.check((b == a).all() and (w == v).all(), 'input', 'input arrays changed', data)
        o.count('closest', n > 1, data)


def o_lookup(o):
    np_ = o.np
    f = o.mod('tools.analysis_utils').in1d_index
    while o.more():
        n, m = int(o.rng.integers(1, 9)), int(o.rng.integers(1, 9))
        dt = o.rng.choice(['int64', 'int32', 'float64'])
        a = o.rng.integers(-3, 12, m).astype(dt)
        b = o.rng.integers(-2, 10, n).astype(dt)
        if o.rng.random() < 0.5:
            b = np_.unique(b)
            o.rng.shuffle(b)
        srt = bool(o.rng.random() < 0.5)
        if srt:
            b.sort()
        fill = None if o.rng.random() < 0.5 else int(o.rng.integers(-5, 5))
        pos, idx = f(a.copy(), b.copy(), fill_invalid=fill, assume_sorted=srt)
        data = dict(ar1=a, ar2=b, fill=fill, assume_sorted=srt, positions=pos, index=idx)
        there = np_.isin(a, b)
        o.check(list(pos) == list(np_.where(there)[0]), 'positions', 'positions of %s found in %s: %s' % (a, b, pos), data)
        idx = np_.asarray(idx)
        if fill is None:
            ok = idx.shape == (there.sum(),) and ((idx >= 0) & (idx < len(b))).all() and (b[idx] == a[there]).all()
        else:
            ok = idx.shape == a.shape and (idx[~there] == fill).all() and ((idx[there] >= 0) & (idx[there] < len(b))).all() and (b[idx[there]] == a[there]).all()
        o.check(bool(ok), 'index', 'indices of %s in %s: %s (fill value %s)' % (a, b, idx, fill), data)
        o.count('lookup', bool(there.any() and not there.all()), data)


ORACLE = [('closest', o_closest), ('lookup', o_lookup)]
BUDGET = 10
TRUSTED = ['numpy searchsorted, argsort, take(mode=clip), index arrays: their documented meaning, with the index range as an obligation (vf/symx.py Seq)']
ASSUME = ['real arithmetic: for float64 the nearest value is exact up to the rounding of the two differences', 'no nan', 'the table has at least one entry (an empty table raises IndexError as numpy does)']
BOUNDED = []
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source over arrays of any length, obligations discharged by z3'
LEVEL_NOTE = 'all lengths, all values, all argument combinations'
EXPLANATION = 'find_closest and in1d_index run symbolically on a sequence of arbitrary length for an arbitrary query; the returned index is proved to be nearest, and found positions are proved to be exactly the occurring values.'
