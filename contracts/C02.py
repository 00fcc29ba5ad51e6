"""C02: event-number intersection and membership on sorted arrays."""
from vf.vcgen import *

H = 'beam_telescope_analysis/cpp/AnalysisFunctions.h'
AU = 'beam_telescope_analysis/tools/analysis_utils.py'
PYX = 'beam_telescope_analysis/cpp/analysis_functions.pyx'

p, q = z3.Ints('p q')
SIZE = Int(0, 2 ** 32 - 2)      # rows of one event array


def is_sorted(a, n):
    x, y = z3.Ints('so_x so_y')
    return forall([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), a[x] <= a[y]))


def occurs(a, n, v):
    x = z3.Int('oc_x')
    return z3.Exists([x], z3.And(0 <= x, x < n, a[x] == v))


def strictly_rising(a, n):
    x, y = z3.Ints('sr_x sr_y')
    return forall([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), a[x] < a[y]))


# ---- specification of the intersection: result[0..r) is the strictly rising list of the common values
def inter_post(one, n1, two, n2, res, r):
    return [('at most one result per row of the first array', z3.And(0 <= r, r <= n1)),
            ('strictly rising, so every number occurs once', strictly_rising(res, r)),
            ('only numbers of the first array', forall([p], z3.Implies(z3.And(0 <= p, p < r), occurs(one, n1, res[p])))),
            ('only numbers of the second array', forall([p], z3.Implies(z3.And(0 <= p, p < r), occurs(two, n2, res[p])))),
            ('every common number is in the result',
             forall([p, q], z3.Implies(z3.And(0 <= p, p < n1, 0 <= q, q < n2, one[p] == two[q]), occurs(res, r, one[p]))))]


def inter_cxx():
    def req(c):
        a, b = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo')
        return [('first array sorted', is_sorted(a, a.n)), ('second array sorted', is_sorted(b, b.n)),
                ('event numbers are not negative', z3.And(forall([p], z3.Implies(z3.And(0 <= p, p < a.n), a[p] >= 0)),
                                                          forall([p], z3.Implies(z3.And(0 <= p, p < b.n), b[p] >= 0))))]

    def outer(c):
        a, b, r = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo'), c.arr('rEventArrayIntersection')
        i, cur, ix, k = c.counter(0), c['tActualEventNumber'], c['tActualIndex'], c['tActualResultIndex']
        return [('ranges', z3.And(0 <= i, i <= a.n, 0 <= k, k <= i, 0 <= ix, z3.Or(ix < b.n, ix == 0))),
                ('current number', z3.If(i == 0, z3.And(cur == -1, ix == 0), cur == a[i - 1])),
                ('all numbers before the index are smaller', forall([q], z3.Implies(z3.And(0 <= q, q < ix), b[q] < cur))),
                ('rising', strictly_rising(r, k)),
                ('bounded by current', forall([p], z3.Implies(z3.And(0 <= p, p < k), r[p] <= cur))),
                ('from first', forall([p], z3.Implies(z3.And(0 <= p, p < k), occurs(a, i, r[p])))),
                ('from second', forall([p], z3.Implies(z3.And(0 <= p, p < k), occurs(b, b.n, r[p])))),
                ('complete', forall([p, q], z3.Implies(z3.And(0 <= p, p < i, 0 <= q, q < b.n, a[p] == b[q]), occurs(r, k, a[p]))))]

    def inner(c):
        a, b, r = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo'), c.arr('rEventArrayIntersection')
        j, ix, cur = c['j'], c['tActualIndex'], c['tActualEventNumber']
        return [('range', z3.And(ix <= j, z3.Or(j <= b.n, j == ix))),
                ('index unchanged while searching', ix >= 0),
                ('all smaller', forall([q], z3.Implies(z3.And(0 <= q, q < j), b[q] < cur)))] + \
            [('outer: ' + n, g) for n, g in outer_frame(c)]

    def outer_frame(c):
        b = c.arr('rEventArrayTwo')
        return [('ix', z3.Or(c['tActualIndex'] < b.n, c['tActualIndex'] == 0))]

    def ens(c):
        a, b, r = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo'), c.arr('rEventArrayIntersection')
        return inter_post(a, a.n, b, b.n, r, c.result)
    return Contract('getEventsInBothArrays', ('cxx', H, 'getEventsInBothArrays'),
                    dict(rSizeArrayOne=SIZE, rSizeArrayTwo=SIZE,
                         rEventArrayOne=Arr('int', 1, 'i64', dims=['rSizeArrayOne']), rEventArrayTwo=Arr('int', 1, 'i64', dims=['rSizeArrayTwo']),
                         rEventArrayIntersection=Arr('int', 1, 'i64', dims=['rSizeArrayOne'])),
                    requires=req, ensures=ens, inv={0: outer, 1: inner}, modifies=['rEventArrayIntersection'], result=CInt('u32'),
                    variant={0: lambda c: c.old('rSizeArrayOne') - c.counter(0), 1: lambda c: c.old('rSizeArrayTwo') - c['j']}, nloops=2)




def member_post(one, n1, two, n2, sel, truth):
    return [('true exactly where the number occurs in the second array',
             forall([p], z3.Implies(z3.And(0 <= p, p < n1), truth(sel[p]) == occurs(two, n2, one[p]))))]


def in1d_cxx():
    def req(c):
        a, b = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo')
        return [('first array sorted', is_sorted(a, a.n)), ('second array sorted', is_sorted(b, b.n))]

    def outer(c):
        a, b, s = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo'), c.arr('rSelection')
        i, ix = c.counter(0), c['tActualIndex']
        return [('ranges', z3.And(0 <= i, i <= a.n, 0 <= ix, z3.Or(ix < b.n, ix == 0))),
                ('all numbers before the index are smaller', forall([p, q], z3.Implies(z3.And(0 <= q, q < ix, i <= p, p < a.n), b[q] < a[p]))),
                ('selection written so far', forall([p], z3.Implies(z3.And(0 <= p, p < i), z3.Or(s[p] == 0, s[p] == 1)))),
                ('correct so far', forall([p], z3.Implies(z3.And(0 <= p, p < i), (s[p] == 1) == occurs(b, b.n, a[p]))))]

    def inner(c):
        b = c.arr('rEventArrayTwo')
        j, ix, cur = c['j'], c['tActualIndex'], c['tActualEventNumber']
        return [('range', z3.And(0 <= ix, ix <= j, z3.Or(j <= b.n, j == ix))), ('ix', z3.Or(ix < b.n, ix == 0)),
                ('all smaller', forall([q], z3.Implies(z3.And(0 <= q, q < j), b[q] < cur)))]

    def ens(c):
        a, b, s = c.arr('rEventArrayOne'), c.arr('rEventArrayTwo'), c.arr('rSelection')
        return [('selection is 0 or 1', forall([p], z3.Implies(z3.And(0 <= p, p < a.n), z3.Or(s[p] == 0, s[p] == 1))))] + \
            member_post(a, a.n, b, b.n, s, lambda x: x == 1)
    return Contract('in1d_sorted', ('cxx', H, 'in1d_sorted'),
                    dict(rSizeArrayOne=SIZE, rSizeArrayTwo=SIZE,
                         rEventArrayOne=Arr('int', 1, 'i64', dims=['rSizeArrayOne']), rEventArrayTwo=Arr('int', 1, 'i64', dims=['rSizeArrayTwo']),
                         rSelection=Arr('int', 1, 'u8', dims=['rSizeArrayOne'])),
                    requires=req, ensures=ens, inv={0: outer, 1: inner}, modifies=['rSelection'],
                    variant={0: lambda c: c.old('rSizeArrayOne') - c.counter(0), 1: lambda c: c.old('rSizeArrayTwo') - c['j']}, nloops=2,
                    roles=['tActualEventNumber', 'tActualIndex', 'i', 'j'])


def wrap_req(x, y, nonneg):
    def req(c):
        a, b = c.arr(x), c.arr(y)
        r = [('first array sorted', is_sorted(a, a.n)), ('second array sorted', is_sorted(b, b.n)),
             ('fewer than 2^32-1 rows', z3.And(a.n <= 2 ** 32 - 2, b.n <= 2 ** 32 - 2))]
        if nonneg:
            r.append(('event numbers are not negative', z3.And(forall([p], z3.Implies(z3.And(0 <= p, p < a.n), a[p] >= 0)),
                                                               forall([p], z3.Implies(z3.And(0 <= p, p < b.n), b[p] >= 0)))))
        return r
    return req


def glue():
    E = Arr('int', 1, 'i64')

    def ens_i(c):
        a, b, r = c.arr('array_one'), c.arr('array_two'), c.arr('array_result')
        return inter_post(a, a.n, b, b.n, r, c.result)

    def ens_m(c):
        a, b, r = c.arr('array_one'), c.arr('array_two'), c.arr(c.result)
        return [('length', r.n == a.n)] + member_post(a, a.n, b, b.n, r, lambda x: x)
    g1 = Contract('analysis_functions.get_events_in_both_arrays', ('pyx', PYX, 'get_events_in_both_arrays'),
                  dict(array_one=E, array_two=E, array_result=E),
                  requires=lambda c: wrap_req('array_one', 'array_two', True)(c) + [('room for the result', c.arr('array_result').n == c.arr('array_one').n)],
                  ensures=ens_i, modifies=['array_result'], result=CInt('u32'), nloops=0)
    g2 = Contract('analysis_functions.get_in1d_sorted', ('pyx', PYX, 'get_in1d_sorted'),
                  dict(array_one=E, array_two=E, array_result=Arr('int', 1, 'u8')),
                  requires=lambda c: wrap_req('array_one', 'array_two', False)(c) + [('room for the result', c.arr('array_result').n == c.arr('array_one').n)],
                  ensures=ens_m, modifies=['array_result'], result=Arr('bool', 1), nloops=0)

    def ens_wi(c):
        a, b, r = c.arr('events_one'), c.arr('events_two'), c.arr(c.result)
        return inter_post(a, a.n, b, b.n, r, r.n)

    def ens_wm(c):
        a, b, r = c.arr('ar1'), c.arr('ar2'), c.arr(c.result)
        return [('length', r.n == a.n)] + member_post(a, a.n, b, b.n, r, lambda x: x)
    w1 = Contract('get_events_in_both_arrays', ('py', AU, 'get_events_in_both_arrays'), dict(events_one=E, events_two=E),
                  requires=wrap_req('events_one', 'events_two', True), ensures=ens_wi, result=Arr('int', 1, 'i64'), nloops=0)
    w2 = Contract('in1d_events', ('py', AU, 'in1d_events'), dict(ar1=E, ar2=E),
                  requires=wrap_req('ar1', 'ar2', False), ensures=ens_wm, result=Arr('bool', 1), nloops=0)
    return [g1, g2, w1, w2]


def CONTRACTS():
    return [inter_cxx(), in1d_cxx()] + glue()


TRUSTED = ['numpy: ascontiguousarray / empty_like / element-wise == as modelled', 'Cython argument passing (pointer and length of the same array)']
ASSUME = ['event numbers are not negative (the intersection routine uses -1 as "no event yet")', 'event arrays have fewer than 2^32-1 rows']
BUILD = True


def oracle(o):
    from contracts.cxxharness import relayout
    np = o.np
    au = o.mod('tools.analysis_utils')

    def one(a, b):
        a, b = relayout(o, np.array(a, dtype=np.int64)), relayout(o, np.array(b, dtype=np.int64))
        o.count('wrappers on the built extension', nontrivial=len(a) > 0 and len(b) > 0, sample=(a.tolist(), b.tolist()))
        a0, b0 = a.copy(), b.copy()
        r = au.get_events_in_both_arrays(a, b)
        exp = sorted(set(a.tolist()) & set(b.tolist()))
        o.check(list(r) == exp, 'intersection', 'get_events_in_both_arrays(%s, %s) = %s, expected %s' % (a.tolist(), b.tolist(), list(r), exp), dict(a=a, b=b))
        m = au.in1d_events(a, b)
        sb = set(b.tolist())
        exp = [x in sb for x in a.tolist()]
        o.check([bool(x) for x in m] == exp, 'membership', 'in1d_events(%s, %s) = %s, expected %s' % (a.tolist(), b.tolist(), list(m), exp), dict(a=a, b=b))
        o.check((a == a0).all() and (b == b0).all(), 'inputs changed', 'input arrays are changed', dict(a=a0, b=b0))
    import itertools
    base = [list(x) for n in range(0, 4) for x in itertools.combinations_with_replacement(range(0, 4), n)]
    for a in base:
        for b in base:
            one(a, b)
    while o.more():
        n1, n2 = int(o.rng.integers(0, 30)), int(o.rng.integers(0, 30))
        hi = int(o.rng.choice([3, 10, 40, 2 ** 62]))
        if o.rng.random() < 0.3:
            hi = 20
            off = int(o.rng.choice([0, 2 ** 31 - 10, 2 ** 32 - 10, 2 ** 40]))
        else:
            off = 0
        one(np.sort(o.rng.integers(0, hi, n1)) + off, np.sort(o.rng.integers(0, hi, n2)) + off)


def oracle_asan(o):
    from contracts import cxxharness
    cases = []
    import itertools
    base = [list(x) for n in range(0, 4) for x in itertools.combinations_with_replacement(range(0, 3), n)]
    for a in base:
        for b in base:
            cases.append(('I', a, b, len(a)))
            cases.append(('M', a, b, len(a)))
    cxxharness.run(o, cases)


ORACLE = [('wrappers', oracle), ('C++ functions under address sanitizer', oracle_asan)]
BUDGET = 20
