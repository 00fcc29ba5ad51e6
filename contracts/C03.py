"""C03: maximum-multiplicity merge of sorted event-number arrays."""
from contracts.common import *

p, q, k, m, v, w, x = z3.Ints('p q k m v w x')
AS = z3.ArraySort(I, I)
A_ = z3.Const('A_', AS)
CNT = fun('CNT', AS, I, I, I)      # CNT(A, k, v): how often v occurs in A[0..k)
MAX = 2 ** 32 - 1


def cnt_facts(c):
    return [forall([A_, v], CNT(A_, 0, v) == 0, [CNT(A_, 0, v)]),
            forall([A_, k, m, v], Imp(And_(0 <= k, m == k + 1), CNT(A_, m, v) == CNT(A_, k, v) + If_(A_[k] == v, 1, 0)), [z3.MultiPattern(CNT(A_, k, v), CNT(A_, m, v))])]


def cnt_lemmas(*arrs):
    S = z3.Store(A_, k, x)
    def f(c):
        out = [by_induction('counts are not negative', lambda t: forall([A_, v], CNT(A_, t, v) >= 0, [CNT(A_, t, v)]), z3.IntVal(0), None),
               by_induction('a write behind the counted part does not change the count',
                            lambda t: forall([A_, k, x, v], Imp(t <= k, CNT(z3.Store(A_, k, x), t, v) == CNT(A_, t, v)), [CNT(z3.Store(A_, k, x), t, v)]), z3.IntVal(0), None),
               plain('appending a number counts it', forall([A_, k, x, m, v], Imp(And_(0 <= k, m == k + 1), CNT(S, m, v) == CNT(A_, k, v) + If_(x == v, 1, 0)), [CNT(S, m, v)]))]
        for nm in arrs:
            a = c.arr0(nm)
            out.append(by_induction('no occurrence among smaller numbers (%s)' % nm,
                                    lambda t, a=a: forall([v], Imp(And_(t <= a.n, Or_(t == 0, a[t - 1] < v)), CNT(a.term, t, v) == 0), [CNT(a.term, t, v)]), z3.IntVal(0), a.n))
        return out
    return f


def mx(a, b):
    return If_(a >= b, a, b)


def post(a, b, r, n):
    return [('sorted', is_sorted(r, n)), ('number of results', And_(0 <= n, n <= a.n + b.n)),
            ('every event number occurs as often as in the array where it occurs more often',
             forall([v], CNT(r.term, n, v) == mx(CNT(a.term, a.n, v), CNT(b.term, b.n, v))))]


def merge_cxx():
    def AB(c):
        return c.arr0('rEventArrayOne'), c.arr0('rEventArrayTwo'), c.arr('result')

    def req(c):
        a, b, r = AB(c)
        return [('first array sorted', is_sorted(a, a.n)), ('second array sorted', is_sorted(b, b.n)), ('sizes addressable', a.n + b.n <= MAX)]

    def early(c):
        a, b, r = AB(c)
        t, kk = c['tSize'], c['k']
        return [('range', And_(0 <= kk, kk <= a.n + b.n, t == kk, kk <= c.old('rSizeArrayResult'))),
                ('copied', forall([p], Imp(And_(0 <= p, p < kk), r[p] == If_(a.n == 0, b[p], a[p])))),
                ('count', forall([v], CNT(r.term, kk, v) == If_(a.n == 0, CNT(b.term, kk, v), CNT(a.term, kk, v))))]

    def basic(c):
        a, b, r = AB(c)
        i, j, t = c['i'], c['j'], c['tActualResultIndex']
        f1, f2 = c['tFirstActualEventNumber'], c['tSecondActualEventNumber']
        return a, b, r, i, j, t, f1, f2

    def outer(c):
        a, b, r, i, j, t, f1, f2 = basic(c)
        F, S = c['first_finished'], c['second_finished']
        return [('range', And_(0 <= i, i <= a.n, 0 <= j, j <= b.n, 0 <= t, t <= i + j, t <= c.old('rSizeArrayResult'))),
                ('finished', And_(F == (i == a.n), S == (j == b.n))),
                ('occurrences reset', And_(c['tFirstActualOccurrence'] == 0, c['tSecondActualOccurrence'] == 0)),
                ('current numbers', And_(f1 == If_(i < a.n, a[i], a[a.n - 1]), f2 == If_(j < b.n, b[j], b[b.n - 1]))),
                ('last numbers', And_(c['tFirstLastEventNumber'] == a[a.n - 1], c['tSecondLastEventNumber'] == b[b.n - 1])),
                ('frontier of the first', forall([p], Imp(And_(0 <= p, p < i), And_(Imp(i < a.n, a[p] < f1), Imp(j < b.n, a[p] < f2))))),
                ('frontier of the second', forall([p], Imp(And_(0 <= p, p < j), And_(Imp(i < a.n, b[p] < f1), Imp(j < b.n, b[p] < f2))))),
                ('frontier of the result', forall([p], Imp(And_(0 <= p, p < t), And_(Imp(i < a.n, r[p] < f1), Imp(j < b.n, r[p] < f2))))),
                ('sorted', is_sorted(r, t)),
                ('count', forall([v], CNT(r.term, t, v) == mx(CNT(a.term, i, v), CNT(b.term, j, v)), [CNT(r.term, t, v)]))]

    def scan(arr, pos, me, f, occ):
        def g(c):
            a = c.arr0(arr)
            i, ii, f1 = c[pos], c[me], c[f]
            return [('range', And_(i <= ii, ii <= a.n, c[occ] == ii - i)),
                    ('equal so far', forall([p], Imp(And_(i <= p, p < ii), a[p] == f1))),
                    ('count', forall([v], CNT(a.term, ii, v) == CNT(a.term, i, v) + If_(v == f1, ii - i, 0), [CNT(a.term, ii, v)]))]
        return g

    def fill(which):
        def g(c):
            a, b, r, i, j, t, f1, f2 = basic(c)
            o1, o2 = c['tFirstActualOccurrence'], c['tSecondActualOccurrence']
            f = {0: f1, 1: f1, 2: f2}[which]
            tot = {0: mx(o1, o2), 1: o1, 2: o2}[which]
            kk = c.counter(4 + which)
            return [('range', And_(0 <= kk, kk <= tot, 0 <= t, t <= i + j - tot + kk, t <= c.old('rSizeArrayResult'))),
                    ('sorted', is_sorted(r, t)), ('bounded', forall([p], Imp(And_(0 <= p, p < t), r[p] <= f))),
                    ('count', forall([v], CNT(r.term, t, v) == If_(v == f, kk, mx(CNT(a.term, i, v), CNT(b.term, j, v))), [CNT(r.term, t, v)]))]
        return g

    def ens(c):
        a, b, r = AB(c)
        return post(a, b, r, c.result)
    return Contract('getMaxEventsInBothArrays', ('cxx', H, 'getMaxEventsInBothArrays'),
                    dict(rSizeArrayOne=Int(0, MAX), rSizeArrayTwo=Int(0, MAX), rSizeArrayResult=Int(0, MAX),
                         rEventArrayOne=Arr('int', 1, 'i64', dims=['rSizeArrayOne']), rEventArrayTwo=Arr('int', 1, 'i64', dims=['rSizeArrayTwo']),
                         result=Arr('int', 1, 'i64', dims=['rSizeArrayResult'])),
                    requires=req, ensures=ens, facts=cnt_facts, lemmas=cnt_lemmas('rEventArrayOne', 'rEventArrayTwo'), modifies=['result'], result=CInt('u32'),
                    raises={'*': lambda c: c.old('rSizeArrayResult') < c.old('rSizeArrayOne') + c.old('rSizeArrayTwo')},
                    inv={0: early, 1: outer, 2: scan('rEventArrayOne', 'i', 'ii', 'tFirstActualEventNumber', 'tFirstActualOccurrence'),
                         3: scan('rEventArrayTwo', 'j', 'jj', 'tSecondActualEventNumber', 'tSecondActualOccurrence'), 4: fill(0), 5: fill(1), 6: fill(2)},
                    variant={0: lambda c: c.old('rSizeArrayOne') + c.old('rSizeArrayTwo') - c['k'],
                             1: lambda c: c.old('rSizeArrayOne') - c['i'] + c.old('rSizeArrayTwo') - c['j'],
                             2: lambda c: c.old('rSizeArrayOne') - c['ii'], 3: lambda c: c.old('rSizeArrayTwo') - c['jj'],
                             4: lambda c: c['tFirstActualOccurrence'] + c['tSecondActualOccurrence'] - c.counter(4),
                             5: lambda c: c['tFirstActualOccurrence'] - c.counter(5), 6: lambda c: c['tSecondActualOccurrence'] - c.counter(6)}, nloops=7)


def glue():
    E = Arr('int', 1, 'i64')

    def req(x, y):
        def f(c):
            a, b = c.arr0(x), c.arr0(y)
            return [('first array sorted', is_sorted(a, a.n)), ('second array sorted', is_sorted(b, b.n)), ('fewer than 2^32 rows in both', a.n + b.n <= MAX)]
        return f

    def ens_g(c):
        return post(c.arr0('array_one'), c.arr0('array_two'), c.arr('array_result'), c.result)

    def ens_w(c):
        r = c.arr(c.result)
        return post(c.arr0('events_one'), c.arr0('events_two'), r, r.n)
    g = Contract('analysis_functions.get_max_events_in_both_arrays', ('pyx', PYX, 'get_max_events_in_both_arrays'), dict(array_one=E, array_two=E, array_result=E),
                 requires=lambda c: req('array_one', 'array_two')(c) + [('room for the result', And_(c.arr0('array_result').n >= c.arr0('array_one').n + c.arr0('array_two').n,
                                                                                                 c.arr0('array_result').n <= MAX))],
                 ensures=ens_g, modifies=['array_result'], result=CInt('u32'), nloops=0)
    w = Contract('get_max_events_in_both_arrays', ('py', AU, 'get_max_events_in_both_arrays'), dict(events_one=E, events_two=E),
                 requires=req('events_one', 'events_two'), ensures=ens_w, result=Arr('int', 1, 'i64'), nloops=0)
    return [g, w]


def CONTRACTS():
    return [merge_cxx()] + glue()


TRUSTED = ['numpy: ascontiguousarray / empty as modelled', 'Cython argument passing (pointer and length of the same array)']
ASSUME = ['event arrays are sorted and hold together fewer than 2^32 rows']
BUILD = True
BUDGET = 16


def oracle(o):
    from contracts.cxxharness import relayout
    np = o.np
    from contracts.C05 import ev_small
    au = o.mod('tools.analysis_utils')

    def one(a, b):
        a, b = relayout(o, np.array(a, np.int64)), relayout(o, np.array(b, np.int64))
        a0, b0 = a.copy(), b.copy()
        o.count('get_max_events_in_both_arrays', nontrivial=len(a) * len(b) > 0, sample=(a.tolist(), b.tolist()))
        r = au.get_max_events_in_both_arrays(a, b)
        la, lb = a.tolist(), b.tolist()
        exp = [t for t in sorted(set(la) | set(lb)) for _ in range(max(la.count(t), lb.count(t)))]
        o.check(r.tolist() == exp, 'max merge', 'get_max_events_in_both_arrays(%s, %s) = %s, expected %s' % (la, lb, r.tolist(), exp), dict(a=a, b=b))
        o.check((a == a0).all() and (b == b0).all(), 'inputs changed', 'input arrays are changed', dict(a=a0, b=b0))
    for n, m in ((255, 1), (256, 1), (1, 256), (257, 255), (300, 256), (256, 256), (512, 513), (32768, 3), (2, 65536), (65537, 65536)):
        for lead in ([], [1]):
            one(lead + [2] * n + [3], lead * 2 + [2] * m)
    base = ev_small(4, 4)
    for a in base:
        for b in base:
            one(a, b)
    while o.more():
        hi = int(o.rng.choice([3, 8, 30]))
        off = int(o.rng.choice([0, -5, 2 ** 31 - 4, 2 ** 32 - 4, 2 ** 40]))
        one(np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 25)))) + off, np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 25)))) + off)


def oracle_asan(o):
    from contracts import cxxharness
    from contracts.C05 import ev_small
    cases = []
    for a in ev_small(3, 3):
        for b in ev_small(3, 3):
            need = len(cxxharness.expected(('X', a, b, 99)))
            for n in {len(a) + len(b), need, max(0, need - 1)}:
                cases.append(('X', a, b, n))
    cxxharness.run(o, cases)


ORACLE = [('wrapper', oracle), ('C++ function under sanitizers', oracle_asan)]
