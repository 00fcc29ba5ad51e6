"""Specification vocabulary shared by the contracts."""
from vf.vcgen import *

AU = 'beam_telescope_analysis/tools/analysis_utils.py'
H = 'beam_telescope_analysis/cpp/AnalysisFunctions.h'
PYX = 'beam_telescope_analysis/cpp/analysis_functions.pyx'
TA = 'beam_telescope_analysis/track_analysis.py'

And_, Or_, Imp, Not_, If_ = z3.And, z3.Or, z3.Implies, z3.Not, z3.If


def is_sorted(a, n):
    x, y = z3.Ints('so_x so_y')
    return forall([x, y], Imp(And_(0 <= x, x < y, y < n), a[x] <= a[y]))


def occurs(a, n, v):
    x = z3.Int('oc_x')
    return z3.Exists([x], And_(0 <= x, x < n, a[x] == v))


def strictly_rising(a, n):
    x, y = z3.Ints('sr_x sr_y')
    return forall([x, y], Imp(And_(0 <= x, x < y, y < n), a[x] < a[y]))


def allrange(n, f, lo=0):
    x = z3.Int('ar_x')
    return forall([x], Imp(And_(lo <= x, x < n), f(x)))


def fun(name, *sorts):
    return z3.Function(name, *sorts)


def bounds_facts(lo, hi, a, na, b, nb, tag=''):
    """definition: rows lo(i)..hi(i)-1 of sorted b are exactly those equal to a[i] (exists because b is sorted)"""
    i, q = z3.Ints('bf_i%s bf_q%s' % (tag, tag))
    r = And_(0 <= i, i < na)
    return [forall([i], Imp(r, And_(0 <= lo(i), lo(i) <= hi(i), hi(i) <= nb)), [lo(i)]),
            forall([i, q], Imp(And_(r, 0 <= q, q < lo(i)), b[q] < a[i]), [z3.MultiPattern(lo(i), b[q])]),
            forall([i, q], Imp(And_(r, lo(i) <= q, q < hi(i)), b[q] == a[i]), [z3.MultiPattern(lo(i), b[q])]),
            forall([i, q], Imp(And_(r, hi(i) <= q, q < nb), b[q] > a[i]), [z3.MultiPattern(hi(i), b[q])])]


def fsq(v):
    return uf('fpow', R, R, R)(v, z3.RealVal(2))


def fdiv(a, b):
    return uf('fdiv', R, R, R)(a, b)


def float_axioms():
    """the uninterpreted real operations of the generator: what squares and quotients of reals satisfy"""
    a, b = z3.Reals('fa_a fa_b')
    mul, nan = uf('fmul', R, R, R), uf('fdivnan', R, R, B)
    return [forall([a], mul(a, a) == fsq(a), [mul(a, a)]), forall([a], fsq(a) == fsq(-a), [fsq(a)]), forall([a], Imp(a != 0, fsq(a) != 0), [fsq(a)]),
            forall([a, b], Imp(b != 0, z3.Not(nan(a, b))), [nan(a, b)])]
