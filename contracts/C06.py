"""C06: mapping clusters to the slots of their event."""
from contracts.common import *

ROW = dict(event_number='int', **{'*': 'int'})
p, q, k, j = z3.Ints('p q k j')


def map_cluster():
    lo, hi, fe = fun('lo', I, I), fun('hi', I, I), fun('fe', I, I)

    def E(c):
        return c.arr0('event_numbers')

    def C(c):
        return c.arr0('clusters', 'event_number')

    def req(c):
        return [('event list sorted', is_sorted(E(c), E(c).n)), ('clusters sorted by event', is_sorted(C(c), C(c).n)),
                ('one slot per event list entry', c.arr0('mapped_clusters', '*').n == E(c).n)]

    def facts(c):
        e, n = E(c), E(c).n
        r = And_(0 <= p, p < n)
        return bounds_facts(lo, hi, e, n, C(c), C(c).n) + [
            forall([p], Imp(r, And_(0 <= fe(p), fe(p) <= p, e[fe(p)] == e[p])), [fe(p)]),
            forall([p, q], Imp(And_(r, 0 <= q, q < fe(p)), e[q] < e[p]), [z3.MultiPattern(fe(p), e[q])])]

    def lemmas(c):
        e, n, ce, m = E(c), E(c).n, C(c), C(c).n
        return [plain('boundary', forall([p], Imp(And_(0 <= p, p < n), And_(Imp(lo(p) < m, ce[lo(p)] >= e[p]), Imp(lo(p) > 0, ce[lo(p) - 1] < e[p]),
                                                                       Imp(hi(p) < m, ce[hi(p)] > e[p]), Imp(hi(p) > 0, ce[hi(p) - 1] <= e[p]))), [lo(p)])),
                plain('same event', forall([p, q], Imp(And_(0 <= p, p <= q, q < n, e[p] == e[q]), And_(lo(p) == lo(q), hi(p) == hi(q), fe(p) == fe(q))),
                                           [z3.MultiPattern(fe(p), fe(q))])),
                plain('later event', forall([p, q], Imp(And_(0 <= p, p <= q, q < n, e[p] < e[q]), And_(hi(p) <= lo(q), p < fe(q))), [z3.MultiPattern(fe(p), fe(q))])),
                plain('slot before', forall([p], Imp(And_(0 < p, p < n), If_(fe(p) == p, e[p - 1] < e[p], And_(e[p - 1] == e[p], fe(p - 1) == fe(p)))), [fe(p)]))]

    def tgt(i):
        return lo(i) + i - fe(i)

    def spec(c, i, fld):
        mp, m0, cl = c.arr('mapped_clusters', fld), c.arr0('mapped_clusters', fld), c.arr0('clusters', fld)
        return If_(tgt(i) < hi(i), mp[i] == cl[tgt(i)], mp[i] == m0[i])

    def done(c, i):
        n = E(c).n
        out = []
        for fld in ('event_number', '*'):
            mp, m0 = c.arr('mapped_clusters', fld), c.arr0('mapped_clusters', fld)
            out += [('slots before are filled (%s)' % fld, forall([p], Imp(And_(0 <= p, p < i), spec(c, p, fld)), [mp[p]])),
                    ('slots behind are untouched (%s)' % fld, forall([p], Imp(And_(i <= p, p < n), mp[p] == m0[p]), [mp[p]]))]
        return out

    def mn(a, b):
        return If_(a < b, a, b)

    def outer(c):
        i, jj, n, m = c['i'], c['j'], E(c).n, C(c).n
        return [('range', And_(0 <= i, i <= n, 0 <= jj, jj <= m)),
                ('position in the cluster list', Imp(i < n, If_(fe(i) == i, jj <= lo(i), jj == mn(tgt(i), hi(i)))))] + done(c, i)

    def catch(c):
        i, jj, m = c['i'], c['j'], C(c).n
        return [('range', And_(0 <= jj, jj <= m)), ('position', If_(fe(i) == i, jj <= lo(i), jj == mn(tgt(i), hi(i))))]

    def ens(c):
        n, e = E(c).n, E(c)
        out = []
        for fld in ('event_number', '*'):
            mp, cl = c.arr('mapped_clusters', fld), c.arr0('clusters', fld)
            out += [('k-th slot of an event holds its k-th cluster, other slots are untouched (%s)' % fld, forall([p], Imp(And_(0 <= p, p < n), spec(c, p, fld)))),
                    ('no cluster is lost when its slot exists (%s)' % fld,
                     forall([p, j], Imp(And_(0 <= p, p < n, lo(p) <= j, j < hi(p), fe(p) + j - lo(p) < n, e[fe(p) + j - lo(p)] == e[p]),
                                        mp[fe(p) + j - lo(p)] == cl[j])))]
        return out
    return Contract('map_cluster', ('py', AU, 'map_cluster'), dict(event_numbers=Arr('int'), clusters=Arr(ROW), mapped_clusters=Arr(ROW)),
                    requires=req, ensures=ens, facts=facts, lemmas=lemmas, nloops=2, inv={0: outer, 1: catch}, modifies=['mapped_clusters'],
                    variant={0: lambda c: E(c).n - c['i'], 1: lambda c: C(c).n - c['j']}, roles=['i', 'j'])


def CONTRACTS():
    return [map_cluster()]


TRUSTED = ['numba compiles the function with Python semantics']
ASSUME = ['event list and clusters are sorted by event number; one slot per event list entry',
          'a cluster row is compared by event number and one opaque value for all other columns']
BOUNDED = ['hit_analysis.merge_cluster_data (HDF5 plumbing around map_cluster): bounded run on small files']
BUDGET = 24


def oracle_map(o):
    np = o.np
    from contracts.files import CLUSTER_DT
    from contracts.C05 import ev_small
    au = o.mod('tools.analysis_utils')

    def one(ev, ce):
        cl = np.zeros(len(ce), CLUSTER_DT)
        cl['event_number'], cl['mean_column'], cl['mean_row'] = ce, np.arange(len(ce)) + 1, np.arange(len(ce)) + 100
        cl['charge'], cl['n_cluster'] = np.arange(len(ce)) * 0.5, np.arange(len(ce))
        mp = np.zeros(len(ev), CLUSTER_DT)
        mp['mean_column'], mp['event_number'] = np.nan, -7
        exp = mp.copy()
        for i in range(len(ev)):
            k = sum(1 for t in range(i) if ev[t] == ev[i])
            rows = [t for t in range(len(ce)) if ce[t] == ev[i]]
            if k < len(rows):
                exp[i] = cl[rows[k]]
        o.count('map_cluster', nontrivial=bool(set(ev) & set(ce)), sample=(list(ev), list(ce)))
        c0 = cl.copy()
        ev_a = np.array(ev, np.int64)
        e0 = ev_a.copy()
        au.map_cluster(event_numbers=ev_a, clusters=cl, mapped_clusters=mp)
        o.check(mp.tobytes() == exp.tobytes(), 'map_cluster', 'map_cluster: event list %s, clusters of events %s: slots get clusters %s, expected %s'
                % (list(ev), list(ce), mp['mean_column'].tolist(), exp['mean_column'].tolist()), dict(event_numbers=ev, clusters=ce))
        o.check(cl.tobytes() == c0.tobytes() and (ev_a == e0).all(), 'map_cluster inputs', 'map_cluster changes its input', dict(event_numbers=ev, clusters=ce))
    for a in ev_small(4, 3):
        for b in ev_small(3, 3):
            one(a, b)
    while o.more():
        hi = int(o.rng.choice([2, 5, 12]))
        off = int(o.rng.choice([0, 2 ** 33]))
        one((np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 14)))) + off).tolist(), (np.sort(o.rng.integers(0, hi, int(o.rng.integers(0, 14)))) + off).tolist())


def oracle_merge_files(o):
    from contracts.files import CLUSTER_DT, CLUSTER_POS_DT, HIT_DT, dut_conf, telescope_file, table_file, read_nodes, Dir, quiet, multi_events
    import os
    np = o.np
    ha = o.mod('hit_analysis')
    D = Dir(o, 'c06')

    def one(n_duts, n_ev, chunk, pos):
        d = D.new()
        tel = telescope_file(d, [dut_conf(z=1000.0 * i, cs=50.0 + 10 * i, rs=25.0, nc=100, nr=60) for i in range(n_duts)])
        files, cls = [], []
        for i in range(n_duts):
            while True:
                ev = multi_events(o.rng, n_ev, 3)
                if i > 0 or len(ev):
                    break
            cl = np.zeros(len(ev), CLUSTER_POS_DT if pos[i] else CLUSTER_DT)
            m = len(ev)
            cl['event_number'] = ev
            if pos[i]:
                cl['mean_x'], cl['mean_y'] = o.rng.uniform(-1000, 1000, m), o.rng.uniform(-700, 700, m)
                cl['err_x'], cl['err_y'] = 3.0 + np.arange(m), 5.0 + np.arange(m)
            else:
                cl['mean_column'], cl['mean_row'] = o.rng.uniform(0.5, 100.5, m), o.rng.uniform(0.5, 60.5, m)
                cl['err_column'], cl['err_row'] = 3.0 + np.arange(m), 5.0 + np.arange(m)
            cl['charge'], cl['frame'], cl['n_hits'] = np.arange(m) + 1, np.arange(m) % 7, 1 + np.arange(m) % 4
            cl['cluster_ID'], cl['cluster_shape'], cl['n_cluster'] = np.arange(m) % 5, np.arange(m) * 3, np.arange(m) + 2
            cls.append(cl)
            files.append(table_file(os.path.join(d, 'c%d.h5' % i), Clusters=cl))
        out = os.path.join(d, 'm.h5')
        data = dict(events=[c['event_number'].tolist() for c in cls], chunk_size=chunk, use_positions=pos)
        with quiet():
            ha.merge_cluster_data(tel, files, out, chunk_size=chunk)
        m = read_nodes(out)['MergedClusters']
        last = cls[0]['event_number'][-1]
        o.count('merge_cluster_data', nontrivial=len(m) > 0, sample=data)
        # expected rows: per event up to the last one of the first DUT, as many rows as the largest cluster count, k-th cluster in the k-th row
        evs = sorted(set(e for c in cls for e in c['event_number'].tolist() if e <= last))
        exp_ev = [e for e in evs for _ in range(max(int((c['event_number'] == e).sum()) for c in cls))]
        o.check(m['event_number'].tolist() == exp_ev, 'merge_cluster_data events', 'merge_cluster_data: event list %s, expected %s; input %s'
                % (m['event_number'].tolist(), exp_ev, data), data)
        for i, c in enumerate(cls):
            exp = np.full(len(m), -1)
            for e in evs:
                rows, slots = np.where(c['event_number'] == e)[0], np.where(m['event_number'] == e)[0]
                exp[slots[:len(rows)]] = rows
            s = exp >= 0
            r = c[exp[s]]
            q = m[s]
            nd = '_dut_%d' % i
            ok = np.isfinite(m['x' + nd]).tolist() == s.tolist() and ((m['hit_flag'] >> i) & 1 == s).all()
            for f in ('charge', 'frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster'):
                ok = ok and (q[f + nd] == r[f]).all()
            if pos[i]:
                ok = ok and (q['x' + nd] == r['mean_x']).all() and (q['y' + nd] == r['mean_y']).all() and (q['x_err' + nd] == r['err_x']).all() and (q['y_err' + nd] == r['err_y']).all()
            else:
                ok = ok and np.allclose(q['x' + nd], (50.0 + 10 * i) * (r['mean_column'] - 50.5)) and np.allclose(q['y' + nd], 25.0 * (r['mean_row'] - 30.5)) and \
                    np.allclose(q['x_err' + nd], (50.0 + 10 * i) * r['err_column']) and np.allclose(q['y_err' + nd], 25.0 * r['err_row'])
            n = m[~s]
            ok = ok and (q['z' + nd] == 0).all() and np.isnan(n['x' + nd]).all() and np.isnan(n['y' + nd]).all() and np.isnan(n['charge' + nd]).all() and (n['n_hits' + nd] == 0).all()
            o.check(ok, 'merge_cluster_data rows', 'merge_cluster_data: clusters of DUT %d are not one-to-one in the slots of their event; input %s' % (i, data), data)
    one(2, 8, 1000000, [False, False])
    one(2, 8, 5, [True, False])
    while o.more():
        nd = int(o.rng.integers(1, 4))
        one(nd, int(o.rng.integers(2, 30)), int(o.rng.choice([5, 6, 9, 20, 1000])), [bool(o.rng.integers(0, 2)) for _ in range(nd)])


ORACLE = [('map_cluster', oracle_map), ('merge_cluster_data', oracle_merge_files)]
