"""C15: isolation flags mark exactly the rows with a close neighbour in their event."""
from contracts.common import *

p, q = z3.Ints('p q')
near = fun('near', I, I, B)      # definition: rows of one event with positions within the distance (ghost)


def small(which):
    """which: caller passes use_ellipse as constant True or an arbitrary flag: one contract for both"""
    EV, XS, YS, FL = 'event_number_array', 'position_array_x', 'position_array_y', 'small_distance_flag_array'

    def close(c, i, j):
        x, y, mx, my = c.arr0(XS), c.arr0(YS), fval(c.old('max_distance_x')), fval(c.old('max_distance_y'))
        dx, dy = fval(x[i]) - fval(x[j]), fval(y[i]) - fval(y[j])
        ell = fdiv(fsq(dx), fsq(mx)) + fdiv(fsq(dy), fsq(my)) <= 1
        box = And_(-mx <= dx, dx <= mx, -my <= dy, dy <= my)
        return And_(z3.Not(fnan(x[i])), z3.Not(fnan(x[j])), z3.Not(fnan(y[i])), z3.Not(fnan(y[j])), If_(And_(c.old('use_ellipse'), mx > 0, my > 0), ell, box))

    def req(c):
        n = c.arr0(EV).n
        return [('events sorted', is_sorted(c.arr0(EV), n)), ('lengths', And_(c.arr0(XS).n == n, c.arr0(YS).n == n, c.arr0(FL).n == n)),
                ('no flag set', allrange(n, lambda t: z3.Not(c.arr0(FL)[t]))), ('distances are numbers', And_(z3.Not(fnan(c.old('max_distance_x'))), z3.Not(fnan(c.old('max_distance_y')))))]

    def facts(c):
        n = c.arr0(EV).n
        return float_axioms() + [forall([p, q], Imp(And_(0 <= p, p < n, 0 <= q, q < n), near(p, q) == And_(p != q, c.arr0(EV)[p] == c.arr0(EV)[q], close(c, p, q))), [near(p, q)])]

    def flagged(c, done):
        """a flag is set iff one of the pairs of rows that are done is close"""
        n, f = c.arr0(EV).n, c.arr(FL)
        r = And_(0 <= p, p < n)
        return [('a flag has a close neighbour', forall([p], Imp(And_(r, f[p]), z3.Exists([q], And_(0 <= q, q < n, near(p, q)), patterns=[near(p, q)])), [f[p]])),
                ('close rows get flags', forall([p, q], Imp(And_(r, 0 <= q, q < n, p < q, done(p, q), near(p, q)), And_(f[p], f[q])), [near(p, q)]))]

    def ens(c):
        n, f = c.arr0(EV).n, c.arr(FL)
        return [('a row is flagged iff another row of its event is close', forall([p], Imp(And_(0 <= p, p < n), f[p] == z3.Exists([q], And_(0 <= q, q < n, near(p, q)), patterns=[near(p, q)]))))]

    def outer(c):
        i, n = c['index'], c.arr0(EV).n
        return [('range', And_(0 <= i, i <= n))] + flagged(c, lambda a, b: a < i)

    def mid(c):
        i, n, e = c['index'], c.arr0(EV).n, c.arr0(EV)
        return [('range', And_(0 <= i, i <= n))] + flagged(c, lambda a, b: a < i)

    def inner(c):
        i, k, n, e = c['index'], c['event_index'], c.arr0(EV).n, c.arr0(EV)
        return [('range', And_(0 <= i, i < k, k <= n, e[i] == c['current_event_number'])), ('same event so far', e[k - 1] == e[i])] + flagged(c, lambda a, b: Or_(a < i, And_(a == i, b < k)))
    return Contract('_find_small_distance', ('py', TA, '_find_small_distance'),
                    dict([(EV, Arr('int')), (XS, Arr('flt')), (YS, Arr('flt')), ('max_distance_x', FLT), ('max_distance_y', FLT), (FL, Arr('bool')), ('use_ellipse', BOOL)]),
                    requires=req, ensures=ens, facts=facts, lemmas=lambda c: [plain('symmetric', forall([p, q], Imp(And_(0 <= p, p < c.arr0(EV).n, 0 <= q, q < c.arr0(EV).n), near(p, q) == near(q, p)), [near(p, q)]))],
                    inv={0: outer, 1: mid, 2: inner}, modifies=[FL], nloops=3,
                    variant={1: lambda c: c.arr0(EV).n - c['index'], 2: lambda c: c.arr0(EV).n - c['event_index']})


def CONTRACTS():
    return [small('any')]


def expected(np, ev, x, y, mx, my, ell):
    n = len(ev)
    f = np.zeros(n, bool)
    for i in range(n):
        for j in range(n):
            if i != j and ev[i] == ev[j] and np.isfinite([x[i], x[j], y[i], y[j]]).all():
                dx, dy = abs(x[i] - x[j]), abs(y[i] - y[j])
                if (ell and mx > 0 and my > 0 and (dx / mx) ** 2 + (dy / my) ** 2 <= 1) or (not (ell and mx > 0 and my > 0) and dx <= mx and dy <= my):
                    f[i] = True
    return f


def oracle_small(o):
    np = o.np
    ta = o.mod('track_analysis')

    def one(ev, x, y, mx, my, ell):
        ev, x, y = np.array(ev, np.int64), np.array(x, float), np.array(y, float)
        f = np.zeros(len(ev), bool)
        ta._find_small_distance(ev, x, y, mx, my, f, ell)
        exp = expected(np, ev, x, y, mx, my, ell)
        data = dict(event_number=ev, x=x, y=y, max_distance_x=mx, max_distance_y=my, use_ellipse=ell)
        o.count('_find_small_distance', nontrivial=bool(exp.any() and not exp.all()), sample=(ev.tolist(), x.tolist(), mx))
        o.check((f == exp).all(), '_find_small_distance', '_find_small_distance: flags %s, expected %s for events %s, x %s, y %s, distances (%s, %s), ellipse %s'
                % (f.astype(int).tolist(), exp.astype(int).tolist(), ev.tolist(), x.tolist(), y.tolist(), mx, my, ell), data)
    one([], [], [], 1.0, 1.0, True)
    while o.more():
        n = int(o.rng.integers(0, 9))
        # quarter steps: distances and the ellipse condition are exact in floating point
        x, y = o.rng.integers(-6, 7, n) * 0.5, o.rng.integers(-6, 7, n) * 0.5
        y = np.where(o.rng.random(n) < 0.5, 0.0, y)
        x[o.rng.random(n) < 0.2] = np.nan
        y = np.where(np.isnan(x), np.nan, y)
        one(np.sort(o.rng.integers(0, int(o.rng.choice([1, 2, 4])), n)), x, y, float(o.rng.choice([0.0, 0.5, 1.0, 2.0])), float(o.rng.choice([0.0, 0.5, 1.0, 2.0])), bool(o.rng.integers(0, 2)))


ORACLE = [('_find_small_distance', oracle_small)]
BUDGET = 20
TRUSTED = ['numba compiles the function with Python semantics']
ASSUME = ['rows sorted by event number, all flags cleared at entry (np.zeros_like at both call sites), distances are numbers; infinite positions are not modelled (they occur only for tracks parallel to a plane)']
