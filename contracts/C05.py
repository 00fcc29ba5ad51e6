"""C05: event-wise merging and correlation."""
from contracts.common import *

EV = dict(event_number='int', **{'*': 'int'})
p, q, k, x1, x2 = z3.Ints('p q k x1 x2')


def merge():
    lo, hi, P, pos = fun('lo', I, I), fun('hi', I, I), fun('P', I, I), fun('pos', I, I, I)

    def e1(c):
        return c.arr0('data_1', 'event_number')

    def e2(c):
        return c.arr0('data_2', 'event_number')

    def req(c):
        return [('data_1 sorted by event', is_sorted(e1(c), e1(c).n)), ('data_2 sorted by event', is_sorted(e2(c), e2(c).n))]

    def facts(c):
        a, b = e1(c), e2(c)
        return bounds_facts(lo, hi, a, a.n, b, b.n) + [
            P(0) == 0, forall([k], Imp(And_(0 <= k, k < a.n), P(k + 1) == P(k) + hi(k) - lo(k)), [P(k)]),
            forall([p, q], pos(p, q) == P(p) + q - lo(p), [pos(p, q)])]

    def lemmas(c):
        n1 = e1(c).n
        m = z3.Int('m_mono')
        return [by_induction('rows of earlier events come first',
                             lambda t: forall([m], Imp(And_(0 <= m, m < t), P(m) + hi(m) - lo(m) <= P(t)), [z3.MultiPattern(P(m), P(t))]), z3.IntVal(0), n1,
                             pats=None),
                plain('pairs of earlier rows come first', forall([p, q, k], Imp(And_(0 <= p, p < k, k <= n1, q < hi(p)), pos(p, q) < P(k)), [z3.MultiPattern(pos(p, q), P(k))])),
                by_induction('sizes are not negative', lambda t: P(t) >= 0, z3.IntVal(0), n1)]

    def outer(cnt, size, idx, res):
        def f(c):
            a, b = e1(c), e2(c)
            i = c.counter(cnt)
            out = [('range', And_(0 <= i, i <= a.n, 0 <= c[idx], c[idx] <= b.n)),
                   ('catch-up index is not too far', forall([p, q], Imp(And_(0 <= q, q < c[idx], i <= p, p < a.n), b[q] < a[p])))]
            out += [('rows so far (%s)' % v, c[v] == P(i)) for v in size]
            if res:
                out += done(c, i)
            return out
        return f

    def done(c, i, upto=None):
        out = []
        for nm, src, w in (('result_1', 'data_1', p), ('result_2', 'data_2', q)):
            for fld in ('event_number', '*'):
                r, s = c.arr(nm, fld), c.arr0(src, fld)
                out.append(('%s.%s rows' % (nm, fld), forall([p, q], Imp(And_(0 <= p, p < i, lo(p) <= q, q < hi(p)), r[pos(p, q)] == s[w]), [pos(p, q)])))
        return out

    def catch(idx, cnt):
        def f(c):
            a, b = e1(c), e2(c)
            i = c.counter(cnt) - 1
            return [('range', And_(0 <= c[idx], c[idx] <= b.n)), ('only smaller events are skipped', forall([q], Imp(And_(0 <= q, q < c[idx]), b[q] < a[i])))]
        return f

    def inner(cnt, me, idx, size, res):
        def f(c):
            a, b = e1(c), e2(c)
            i, j = c.counter(cnt) - 1, c.counter(me)
            out = [('range', And_(lo(i) <= j, j <= hi(i), c[idx] == lo(i)))]
            out += [('rows so far (%s)' % v, c[v] == pos(i, j)) for v in size]
            if res:
                out += done(c, i)
                for nm, src, w in (('result_1', 'data_1', None), ('result_2', 'data_2', q)):
                    for fld in ('event_number', '*'):
                        r, s = c.arr(nm, fld), c.arr0(src, fld)
                        out.append(('%s.%s rows of this event' % (nm, fld), forall([q], Imp(And_(lo(i) <= q, q < j), r[pos(i, q)] == s[i if w is None else q]), [pos(i, q)])))
            return out
        return f

    def ens(c):
        n1 = e1(c).n
        r1, r2 = c.result.elts
        out = [('number of rows', And_(r1.dims[0] == P(n1), r2.dims[0] == P(n1)))]
        for r, src, w in ((r1, 'data_1', p), (r2, 'data_2', q)):
            for fld in ('event_number', '*'):
                out.append(('row of pair (i, j), column %s of %s' % (fld, src),
                            forall([p, q], Imp(And_(0 <= p, p < n1, lo(p) <= q, q < hi(p)), c.arr(r, fld)[pos(p, q)] == c.arr0(src, fld)[w]))))
        return out
    ix = 'event_index_data_2'
    return Contract('merge_on_event_number', ('py', AU, 'merge_on_event_number'), dict(data_1=Arr(EV), data_2=Arr(EV)),
                    requires=req, ensures=ens, facts=facts, lemmas=lemmas, nloops=6,
                    inv={0: outer(0, ['result_array_size'], ix, False), 1: catch(ix, 0), 2: inner(0, 2, ix, ['result_array_size'], False),
                         3: outer(3, ['result_index_1', 'result_index_2'], ix, True), 4: catch(ix, 3), 5: inner(3, 5, ix, ['result_index_1', 'result_index_2'], True)},
                    variant={0: lambda c: e1(c).n - c.counter(0), 1: lambda c: e2(c).n - c[ix], 2: lambda c: e2(c).n - c.counter(2),
                             3: lambda c: e1(c).n - c.counter(3), 4: lambda c: e2(c).n - c[ix], 5: lambda c: e2(c).n - c.counter(5)},
                    roles=['result_array_size', 'event_index_data_2', 'index_data_1', 'index_data_2', 'result_1', 'result_2', 'result_index_1', 'result_index_2'])


def count_facts(cx, tx, lo, hi, rx, dx, n1, tag):
    """cx(i, j, a, b): entries of row i with partner in lo(i)..j-1 and cell (a, b); tx(i, a, b): entries of the rows before i"""
    i, j, a, b = z3.Ints('cf_i%s cf_j%s cf_a%s cf_b%s' % (tag, tag, tag, tag))
    return [forall([i, a, b], cx(i, lo(i), a, b) == 0, [cx(i, lo(i), a, b)]),
            forall([i, j, a, b], Imp(And_(0 <= i, i < n1, lo(i) <= j), cx(i, j + 1, a, b) == cx(i, j, a, b) + If_(And_(dx[j] == a, rx[i] == b), 1, 0)),
                   [cx(i, j, a, b)]),
            forall([a, b], tx(0, a, b) == 0, [tx(0, a, b)]),
            forall([i, a, b], Imp(And_(0 <= i, i < n1), tx(i + 1, a, b) == tx(i, a, b) + cx(i, hi(i), a, b)), [tx(i, a, b)])]


def hist_inv(c, name, expr):
    h, h0 = c.arr(name), c.arr0(name)
    return forall([x1, x2], Imp(And_(0 <= x1, x1 < h.dims[0], 0 <= x2, x2 < h.dims[1]), h[x1, x2] == h0[x1, x2] + expr(x1, x2)))


def correlate_pos():
    lo, hi = fun('lo', I, I), fun('hi', I, I)
    cx, tx = fun('cx', I, I, I, I, I), fun('tx', I, I, I, I)
    cy, ty = fun('cy', I, I, I, I, I), fun('ty', I, I, I, I)

    def A(c, n):
        return c.arr0(n)

    def req(c):
        r, d = A(c, 'ref_event_numbers'), A(c, 'dut_event_numbers')
        out = [('reference sorted', is_sorted(r, r.n)), ('dut sorted', is_sorted(d, d.n)),
               ('lengths', And_(A(c, 'ref_x_indices').n == r.n, A(c, 'ref_y_indices').n == r.n, A(c, 'dut_x_indices').n == d.n, A(c, 'dut_y_indices').n == d.n))]
        for ax in 'xy':
            h = A(c, ax + '_corr_hist')
            out += [('%s indices of the dut fit' % ax, allrange(d.n, lambda t: And_(0 <= A(c, 'dut_%s_indices' % ax)[t], A(c, 'dut_%s_indices' % ax)[t] < h.dims[0]))),
                    ('%s indices of the reference fit' % ax, allrange(r.n, lambda t: And_(0 <= A(c, 'ref_%s_indices' % ax)[t], A(c, 'ref_%s_indices' % ax)[t] < h.dims[1])))]
        return out

    def facts(c):
        r, d = A(c, 'ref_event_numbers'), A(c, 'dut_event_numbers')
        return bounds_facts(lo, hi, r, r.n, d, d.n) + \
            count_facts(cx, tx, lo, hi, A(c, 'ref_x_indices'), A(c, 'dut_x_indices'), r.n, 'x') + \
            count_facts(cy, ty, lo, hi, A(c, 'ref_y_indices'), A(c, 'dut_y_indices'), r.n, 'y')

    def outer(c):
        r, d = A(c, 'ref_event_numbers'), A(c, 'dut_event_numbers')
        i = c.counter(0)
        return [('range', And_(0 <= i, i <= r.n, 0 <= c['dut_index'], c['dut_index'] <= d.n)),
                ('catch-up index is not too far', forall([p, q], Imp(And_(0 <= q, q < c['dut_index'], i <= p, p < r.n), d[q] < r[p]))),
                ('x histogram', hist_inv(c, 'x_corr_hist', lambda a, b: tx(i, a, b))), ('y histogram', hist_inv(c, 'y_corr_hist', lambda a, b: ty(i, a, b)))]

    def catch(c):
        r, d = A(c, 'ref_event_numbers'), A(c, 'dut_event_numbers')
        i = c.counter(0) - 1
        return [('range', And_(0 <= c['dut_index'], c['dut_index'] <= d.n)),
                ('only smaller events are skipped', forall([q], Imp(And_(0 <= q, q < c['dut_index']), d[q] < r[i])))]

    def inner(c):
        i, j = c.counter(0) - 1, c.counter(2)
        return [('range', And_(lo(i) <= j, j <= hi(i), c['dut_index'] == lo(i))),
                ('x histogram', hist_inv(c, 'x_corr_hist', lambda a, b: tx(i, a, b) + cx(i, j, a, b))),
                ('y histogram', hist_inv(c, 'y_corr_hist', lambda a, b: ty(i, a, b) + cy(i, j, a, b)))]

    def ens(c):
        n = A(c, 'ref_event_numbers').n
        return [('x histogram has one entry per pair', hist_inv(c, 'x_corr_hist', lambda a, b: tx(n, a, b))),
                ('y histogram has one entry per pair', hist_inv(c, 'y_corr_hist', lambda a, b: ty(n, a, b)))]
    V = Arr('int')
    return Contract('correlate_position_on_event_number', ('py', AU, 'correlate_position_on_event_number'),
                    dict(ref_event_numbers=V, dut_event_numbers=V, ref_x_indices=V, ref_y_indices=V, dut_x_indices=V, dut_y_indices=V,
                         x_corr_hist=Arr('int', 2), y_corr_hist=Arr('int', 2)),
                    requires=req, ensures=ens, facts=facts, nloops=3, inv={0: outer, 1: catch, 2: inner}, modifies=['x_corr_hist', 'y_corr_hist'],
                    variant={0: lambda c: A(c, 'ref_event_numbers').n - c.counter(0), 1: lambda c: A(c, 'dut_event_numbers').n - c['dut_index'],
                             2: lambda c: A(c, 'dut_event_numbers').n - c.counter(2)},
                    roles=['dut_index', 'ref_index', 'curr_dut_index', 'x_index_ref', 'y_index_ref', 'x_index_dut', 'y_index_dut'])


def correlate_range():
    lo, hi = fun('lo', I, I), fun('hi', I, I)
    cx, tx = fun('cx', I, I, I, I, I), fun('tx', I, I, I, I)
    cy, ty = fun('cy', I, I, I, I, I), fun('ty', I, I, I, I)

    def A(c, n):
        return c.arr0(n)

    def req(c):
        e = A(c, 'event_numbers')
        out = [('sorted', is_sorted(e, e.n)), ('event numbers are not negative', allrange(e.n, lambda t: e[t] >= 0)),
               ('lengths', And_(A(c, 'x_indices').n == e.n, A(c, 'y_indices').n == e.n)), ('range is not negative', c.old('event_range') >= 0)]
        for ax in 'xy':
            h, v = A(c, ax + '_corr_hist'), A(c, ax + '_indices')
            out.append(('%s indices fit' % ax, allrange(e.n, lambda t: And_(0 <= v[t], v[t] < h.dims[0], v[t] < h.dims[1]))))
        return out

    def facts(c):
        e = A(c, 'event_numbers')
        i, q = z3.Ints('rf_i rf_q')
        r = And_(0 <= i, i < e.n)
        ra = c.old('event_range')
        # rows lo(i)..hi(i)-1: event distance to row i between 1 and the range
        return [forall([i], Imp(r, And_(0 <= lo(i), lo(i) <= hi(i), hi(i) <= i)), [lo(i)]),
                forall([i, q], Imp(And_(r, 0 <= q, q < lo(i)), e[q] < e[i] - ra), [z3.MultiPattern(lo(i), e[q])]),
                forall([i, q], Imp(And_(r, lo(i) <= q, q < hi(i)), And_(e[i] - ra <= e[q], e[q] < e[i])), [z3.MultiPattern(lo(i), e[q])]),
                forall([i, q], Imp(And_(r, hi(i) <= q, q < e.n), And_(e[q] >= e[i], e[q] >= e[i] - ra)), [z3.MultiPattern(hi(i), e[q])])] + \
            count_facts(cx, tx, lo, hi, A(c, 'x_indices'), A(c, 'x_indices'), e.n, 'x') + count_facts(cy, ty, lo, hi, A(c, 'y_indices'), A(c, 'y_indices'), e.n, 'y')

    def outer(c):
        e = A(c, 'event_numbers')
        i = c.counter(0)
        return [('range', And_(0 <= i, i <= e.n)),
                ('last event', If_(i == 0, c['last_event_number'] == -1, c['last_event_number'] == e[i - 1])),
                ('start index belongs to the last event', Imp(i > 0, c['corr_start_index'] == lo(i - 1))),
                ('x histogram', hist_inv(c, 'x_corr_hist', lambda a, b: tx(i, a, b))), ('y histogram', hist_inv(c, 'y_corr_hist', lambda a, b: ty(i, a, b)))]

    def inner(c):
        i, j = c.counter(0) - 1, c['corr_index']
        return [('range', And_(lo(i) <= j, j <= hi(i))),
                ('x histogram', hist_inv(c, 'x_corr_hist', lambda a, b: tx(i, a, b) + cx(i, j, a, b))),
                ('y histogram', hist_inv(c, 'y_corr_hist', lambda a, b: ty(i, a, b) + cy(i, j, a, b)))]

    def ens(c):
        n = A(c, 'event_numbers').n
        return [('x histogram has one entry per pair', hist_inv(c, 'x_corr_hist', lambda a, b: tx(n, a, b))),
                ('y histogram has one entry per pair', hist_inv(c, 'y_corr_hist', lambda a, b: ty(n, a, b)))]

    def lemmas(c):
        e = A(c, 'event_numbers')
        ra = c.old('event_range')
        i = z3.Int('lm_i')
        return [plain('boundary of the partner rows', forall([i], Imp(And_(0 <= i, i < e.n), And_(Imp(lo(i) < e.n, e[lo(i)] >= e[i] - ra),
                                                                                              Imp(lo(i) > 0, e[lo(i) - 1] < e[i] - ra))), [lo(i)])),
                plain('same event, same start row', forall([p], Imp(And_(0 < p, p < e.n, e[p] == e[p - 1]), lo(p) == lo(p - 1)), [lo(p)]))]
    V = Arr('int')
    return Contract('correlate_hits_on_event_range', ('py', AU, 'correlate_hits_on_event_range'),
                    dict(event_numbers=V, x_indices=V, y_indices=V, x_corr_hist=Arr('int', 2), y_corr_hist=Arr('int', 2), event_range=Int()),
                    requires=req, ensures=ens, facts=facts, lemmas=lemmas, nloops=2, inv={0: outer, 1: inner}, modifies=['x_corr_hist', 'y_corr_hist'],
                    variant={0: lambda c: A(c, 'event_numbers').n - c.counter(0), 1: lambda c: A(c, 'event_numbers').n - c['corr_index']},
                    locals_={'corr_start_index': Int()},
                    roles=['last_event_number', 'curr_index', 'curr_event_number', 'corr_start_event_number', 'corr_start_index', 'corr_index'])


def CONTRACTS():
    return [merge(), correlate_pos(), correlate_range()]


TRUSTED = ['numpy searchsorted returns the left insertion point of a sorted array', 'numba compiles the functions with Python semantics']
ASSUME = ['event numbers are sorted and not negative; position indices lie inside the histograms; histogram cells do not overflow',
          'rows of a table are compared by event number and one opaque value for all other columns']


def ev_small(n, hi):
    import itertools
    return [list(x) for k in range(n + 1) for x in itertools.combinations_with_replacement(range(hi), k)]


def oracle_merge(o):
    np = o.np
    au = o.mod('tools.analysis_utils')
    dt1 = np.dtype([('event_number', np.int64), ('x', np.float64), ('id', np.int32)])
    dt2 = np.dtype([('event_number', np.int64), ('id', np.int64), ('y', np.float32)])

    def one(a, b):
        d1, d2 = np.zeros(len(a), dt1), np.zeros(len(b), dt2)
        d1['event_number'], d2['event_number'] = a, b
        d1['id'], d2['id'] = np.arange(len(a)) + 1, np.arange(len(b)) + 1000
        d1['x'], d2['y'] = d1['id'] * 0.5, d2['id'] * 0.25
        o.count('merge_on_event_number', nontrivial=len(a) * len(b) > 0, sample=(list(a), list(b)))
        c1, c2 = d1.copy(), d2.copy()
        r1, r2 = au.merge_on_event_number(d1, d2)
        pairs = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
        e1, e2 = d1[[i for i, _ in pairs]], d2[[j for _, j in pairs]]
        o.check(len(r1) == len(e1) and len(r2) == len(e2) and (np.array(r1) == e1).all() and (np.array(r2) == e2).all(), 'merge',
                'merge_on_event_number: events %s and %s give pairs %s, expected %s' % (list(a), list(b), list(zip(r1['id'].tolist(), r2['id'].tolist())),
                                                                                       [(i + 1, j + 1000) for i, j in pairs]), dict(a=a, b=b))
        o.check((c1 == d1).all() and (c2 == d2).all(), 'merge inputs', 'merge_on_event_number changes its input', dict(a=a, b=b))
    for a in ev_small(3, 3):
        for b in ev_small(3, 3):
            one(a, b)
    while o.more():
        hi = int(o.rng.choice([2, 5, 12]))
        off = int(o.rng.choice([0, 2 ** 31, 2 ** 40]))
        one((np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 12)))) + off).tolist(), (np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 12)))) + off).tolist())


def oracle_corr(o):
    np = o.np
    au = o.mod('tools.analysis_utils')

    def one(a, b, rng):
        n1, n2 = len(a), len(b)
        s = [5, 4, 6, 3]     # dut x, ref x, dut y, ref y
        rx, ry, dx, dy = rng.integers(0, s[1], n1), rng.integers(0, s[3], n1), rng.integers(0, s[0], n2), rng.integers(0, s[2], n2)
        hx, hy = rng.integers(0, 3, (s[0], s[1])).astype(np.int32), np.zeros((s[2], s[3]), np.int32)
        ex, ey = hx.copy(), hy.copy()
        for i in range(n1):
            for j in range(n2):
                if a[i] == b[j]:
                    ex[dx[j], rx[i]] += 1
                    ey[dy[j], ry[i]] += 1
        au.correlate_position_on_event_number(np.array(a, np.int64), np.array(b, np.int64), rx, ry, dx, dy, hx, hy)
        o.count('correlate_position_on_event_number', nontrivial=n1 * n2 > 0)
        o.check((hx == ex).all() and (hy == ey).all(), 'correlate', 'correlate_position_on_event_number: events %s / %s: wrong histogram' % (list(a), list(b)),
                dict(a=a, b=b, rx=rx, ry=ry, dx=dx, dy=dy, got_x=hx, expected_x=ex, got_y=hy, expected_y=ey))

    def two(a, r, rng):
        n = len(a)
        x, y = rng.integers(0, 4, n), rng.integers(0, 3, n)
        hx, hy = np.zeros((4, 4), np.int32), np.zeros((3, 3), np.int32)
        ex, ey = hx.copy(), hy.copy()
        for i in range(n):
            for j in range(n):
                if 1 <= a[i] - a[j] <= r:
                    ex[x[j], x[i]] += 1
                    ey[y[j], y[i]] += 1
        au.correlate_hits_on_event_range(np.array(a, np.int64), x, y, hx, hy, r)
        o.count('correlate_hits_on_event_range', nontrivial=n > 1 and r > 0)
        o.check((hx == ex).all() and (hy == ey).all(), 'correlate range', 'correlate_hits_on_event_range: events %s, range %d: wrong histogram' % (list(a), r),
                dict(a=a, event_range=r, x=x, y=y, got_x=hx, expected_x=ex, got_y=hy, expected_y=ey))
    for a in ev_small(3, 3):
        for b in ev_small(3, 3):
            one(a, b, o.rng)
    for a in ev_small(4, 5):
        for r in (0, 1, 2, 3):
            two(a, r, o.rng)
    while o.more():
        hi = int(o.rng.choice([2, 6, 20]))
        one(np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 15)))).tolist(), np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 15)))).tolist(), o.rng)
        two(np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 25)))).tolist(), int(o.rng.integers(0, 6)), o.rng)


ORACLE = [('merge_on_event_number', oracle_merge), ('correlation', oracle_corr)]
BUDGET = 24
