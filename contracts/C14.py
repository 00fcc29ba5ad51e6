"""C14: track finding permutes hits within one event and detector."""
from contracts.common import *

p, q, k, d, v = z3.Ints('p q k d v')
AA = z3.ArraySort(I, z3.ArraySort(I, F))
X0, Y0, Z0 = z3.Consts('X0 Y0 Z0', AA)      # hits before track finding (ghost)
POS = ['x', 'y', 'z']


def ok(c, ev='event_numbers'):
    """hit state: every entry is the hit indices[p][d] of the input, of the same event and detector, and no hit is there twice"""
    e, ind = c.arr0(ev), c.arr('indices')
    n, D = e.n, ind.dims[1]
    r = And_(0 <= p, p < n, 0 <= d, d < D)
    pat = [ind[p, d]]
    out = [('hits stay in their event', forall([p, d], Imp(r, And_(0 <= ind[p, d], ind[p, d] < n, e[ind[p, d]] == e[p])), pat)),
           ('no hit is duplicated', forall([p, q, d], Imp(And_(r, 0 <= q, q < n, p != q), ind[p, d] != ind[q, d]), [z3.MultiPattern(ind[p, d], ind[q, d])]))]
    for nm, src in zip(POS, (X0, Y0, Z0)):
        a = c.arr(nm)
        out.append(('%s goes with its index' % nm, forall([p, d], Imp(r, a[p, d] == src[ind[p, d]][d]), [a[p, d]])))
    return out


def shapes(c):
    n, D = c.arr0('event_numbers').n, c.arr0('indices').dims[1]
    out = []
    for nm in POS + ['indices']:
        a = c.arr0(nm)
        out.append(('shape of ' + nm, And_(a.dims[0] == n, a.dims[1] == D)))
    for nm in ('translation', 'normal'):
        a = c.arr0(nm)
        out.append(('shape of ' + nm, And_(a.dims[0] == D, a.dims[1] == 3)))
    z = c.arr0('z_sorted_dut_indices')
    out.append(('detector numbers', allrange(z.n, lambda t: And_(0 <= z[t], z[t] < D))))
    out.append(('every detector is sorted in', forall([v], Imp(And_(0 <= v, v < D), And_(0 <= place(v), place(v) < z.n, z[place(v)] == v)), [place(v)])))
    return out


place = fun('place', I, I)        # place of a detector in the z order (ghost)


def types():
    t = dict(event_numbers=Arr('int', 1), indices=Arr('int', 2), z_sorted_dut_indices=Arr('int', 1))
    t2 = dict(x=Arr('flt', 2), y=Arr('flt', 2), z=Arr('flt', 2), select_extrapolation_duts=Arr('int', 1), translation=Arr('flt', 2), normal=Arr('flt', 2))
    return t, t2


def first(name):
    def req(c):
        x, z = c.arr0('x'), c.arr0('z_sorted_dut_indices')
        return [('row', And_(0 <= c.old('track_index'), c.old('track_index') < x.dims[0])), ('detector numbers', allrange(z.n, lambda t: And_(0 <= z[t], z[t] < x.dims[1])))]

    def ens(c):
        z = c.arr0('z_sorted_dut_indices')
        r = c.result
        return [('none or one of the detectors with a hit', Or_(r == -1, And_(0 <= r, r < c.arr0('x').dims[1], z3.Not(fnan(c.arr0('x')[c.old('track_index'), r])), z3.Exists([k], And_(0 <= k, k < z.n, z[k] == r))))),
                ('none only without hits', Imp(r == -1, forall([k], Imp(And_(0 <= k, k < z.n), fnan(c.arr0('x')[c.old('track_index'), z[k]])), [z[k]])))]

    def inv(c):
        z = c.arr0('z_sorted_dut_indices')
        t = c.counter(0)
        seen = And_(k < t, 0 <= k) if name == '_get_first_dut_index' else And_(k > z.n - 1 - t, k < z.n)
        return [('no hit so far', forall([k], Imp(seen, fnan(c.arr0('x')[c.old('track_index'), z[k]])), [z[k]])), ('range', And_(0 <= c.counter(0), c.counter(0) <= c.arr0('z_sorted_dut_indices').n))]
    return Contract(name, ('py', TA, name), dict(x=Arr('flt', 2), track_index=Int(), z_sorted_dut_indices=Arr('int', 1)), requires=req, ensures=ens, inv={0: inv},
                    variant={0: lambda c: c.arr0('z_sorted_dut_indices').n - c.counter(0)}, result=Int(), nloops=1)


def find():
    t, t2 = types()
    ps = dict(t)
    ps.update(event_start_index=Int(), track_index=Int(), dut_index=Int())
    ps.update(t2)

    def D(c):
        return c.arr0('indices').dims[1]

    def req(c):
        e = c.arr0('event_numbers')
        s, t, n = c.old('event_start_index'), c.old('track_index'), e.n
        return shapes(c) + [('rows', And_(0 <= s, s < n, 0 <= t, t < n, e[s] == e[t])), ('detector', And_(0 <= c.old('dut_index'), c.old('dut_index') < D(c), place(c.old('dut_index')) < c.arr0('z_sorted_dut_indices').n))] + ok(c)

    def enum(j, var):
        def f(c):
            z = c.arr0('z_sorted_dut_indices')
            return [('range', And_(0 <= c.counter(j), c.counter(j) <= z.n)), ('position', And_(-1 <= c[var], c[var] < z.n))]
        return f

    def ref(second, fst, cur):
        def f(c):
            out = [('detectors so far', And_(0 <= c['cnt'], c['cnt'] <= 2, Imp(c['cnt'] >= 1, And_(0 <= c[second], c[second] < D(c))), Imp(c['cnt'] == 2, And_(0 <= c[fst], c[fst] < D(c))),
                                              0 <= c[cur], c[cur] < D(c)))]
            return out
        return f

    def scan(c):
        e = c.arr0('event_numbers')
        h, b, s = c['hit_index'], c['best_track_index'], c.old('event_start_index')
        return [('range', And_(s <= h, h <= e.n)), ('best hit is in the same event', And_(0 <= b, b < e.n, e[b] == e[s]))] + ok(c)
    return Contract('_find_tracks', ('py', TA, '_find_tracks'), ps, requires=req, ensures=ok, modifies=['indices', 'x', 'y', 'z'],
                    inv={0: enum(0, 'sorted_dut_index'), 1: enum(1, 'sorted_ref_dut_index'), 2: ref('second_ref_dut_index', 'first_ref_dut_index', 'curr_dut_index'), 3: enum(3, 'sorted_dut_index'),
                         4: scan, 5: ref('second_other_ref_dut_index', 'first_other_ref_dut_index', 'curr_other_dut_index'), 6: enum(6, 'sorted_dut_index')},
                    variant={4: lambda c: c.arr0('event_numbers').n - c['hit_index'], 0: lambda c: c.arr0('z_sorted_dut_indices').n - c.counter(0)},
                    locals_={x: Int() for x in ('second_ref_dut_index', 'first_ref_dut_index', 'second_other_ref_dut_index', 'first_other_ref_dut_index')}, flt_vars=('best_hit_distance',),
                    recursive=True, nloops=7)


def loop():
    t, t2 = types()
    ps = dict(t)
    ps.update(t2)

    def req(c):
        ind, n = c.arr0('indices'), c.arr0('event_numbers').n
        r = And_(0 <= p, p < n, 0 <= d, d < ind.dims[1])
        out = shapes(c) + [('indices start as the row numbers', forall([p, d], Imp(r, ind[p, d] == p), [ind[p, d]]))]
        for nm, src in zip(POS, (X0, Y0, Z0)):
            a = c.arr0(nm)
            out.append(('hits before track finding: ' + nm, forall([p, d], Imp(r, a[p, d] == src[p][d]), [a[p, d]])))
        return out

    def outer(c):
        return [('range', And_(0 <= c['track_index'], c['track_index'] <= c.arr0('event_numbers').n))] + ok(c)

    def duts(c):
        e, t = c.arr0('event_numbers'), c['track_index']
        return [('range', And_(0 <= t, t < e.n, 0 <= c.counter(1))), ('event', c['analyze_event_number'] == e[t])] + ok(c)

    def rows(c):
        e, t, t2 = c.arr0('event_numbers'), c['track_index'], c['track_index2']
        return [('range', And_(0 <= t, t < e.n, t <= t2, t2 <= e.n, 0 <= c['dut_index'], c['dut_index'] < c.arr0('indices').dims[1])), ('event', c['analyze_event_number'] == e[t])] + ok(c)
    return Contract('_find_tracks_loop', ('py', TA, '_find_tracks_loop'), ps, requires=req, ensures=ok, modifies=['indices', 'x', 'y', 'z'], inv={0: outer, 1: duts, 2: rows},
                    variant={0: lambda c: c.arr0('event_numbers').n - c['track_index'], 2: lambda c: c.arr0('event_numbers').n - c['track_index2']}, nloops=3)


def CONTRACTS():
    return [first('_get_first_dut_index'), first('_get_last_dut_index'), find(), loop()]


def oracle_loop(o):
    np = o.np
    ta = o.mod('track_analysis')
    from numba.typed import List

    def one(ev, nd, p_hit, ties):
        n = len(ev)
        ev = np.array(ev, np.int64)
        x, y, z = (o.rng.integers(-3, 4, (n, nd)).astype(float) if ties else o.rng.uniform(-1000, 1000, (n, nd)) for _ in range(3))
        z = z * 0.01 + np.arange(nd)[None, :] * 1000.0
        z_order = np.argsort(o.rng.random(nd)) if o.rng.random() < 0.4 else np.arange(nd)
        z = z[:, np.argsort(z_order)]
        miss = o.rng.random((n, nd)) > p_hit
        for a in (x, y, z):
            a[miss] = np.nan
        tr = np.zeros((nd, 3))
        tr[:, 2] = np.nanmean(np.where(np.isnan(z), 0.0, z), axis=0) if n else 0
        no = np.tile([0.0, 0.0, 1.0], (nd, 1))
        sel = List()
        for i in range(nd):
            if o.rng.random() < 0.8 or (i == nd - 1 and len(sel) == 0):
                sel.append(i)
        ind = np.column_stack([np.arange(n, dtype=np.int64) for _ in range(nd)])
        x0, y0, z0 = x.copy(), y.copy(), z.copy()
        data = dict(event_numbers=ev, x=x0, y=y0, z=z0, z_sorted_dut_indices=z_order, select_extrapolation_duts=list(sel))
        ta._find_tracks_loop(ev, ind, z_order, x, y, z, sel, tr, no)
        o.count('_find_tracks_loop', nontrivial=bool((ind != np.arange(n)[:, None]).any()), sample=(ev.tolist(), nd))
        ok = True
        for d in range(nd):
            ok = ok and sorted(ind[:, d]) == list(range(n)) and (ev[ind[:, d]] == ev).all()
            if ok:
                for a, b in ((x, x0), (y, y0), (z, z0)):
                    ok = ok and np.array_equal(a[:, d], b[ind[:, d], d], equal_nan=True)
        o.check(ok, '_find_tracks_loop', '_find_tracks_loop: the hits of a detector are not a permutation within each event; indices %s for events %s' % (ind.tolist(), ev.tolist()), data)
    one([], 3, 1, False)
    while o.more():
        ev = [e for e in range(int(o.rng.integers(1, 6))) for _ in range(int(o.rng.integers(1, 6)))]
        one(ev, int(o.rng.integers(2, 7)), float(o.rng.choice([0.3, 0.6, 0.9, 1.0])), bool(o.rng.random() < 0.3))


def oracle_files(o):
    from contracts.files import dut_conf, telescope_file, table_file, read_nodes, Dir, quiet, merged_array, multi_events, dut_columns
    import os
    np = o.np
    ta = o.mod('track_analysis')
    D = Dir(o, 'c14')

    def one(nd, n_ev, chunk, max_events=None, sel=None, beam=True, tilt=0.0, order=None):
        d = D.new()
        zs = [30000.0 * (order or list(range(nd)))[i] for i in range(nd)]
        tel = telescope_file(d, [dut_conf(z=zs[i], x=float(o.rng.normal(0, 50)), a=tilt * i, b=-tilt, cs=50.0, rs=50.0, nc=100, nr=100) for i in range(nd)])
        ev = multi_events(o.rng, n_ev, 4)
        if not len(ev):
            return
        a = merged_array(o.rng, nd, ev, p_hit=float(o.rng.choice([0.4, 0.8, 1.0])))
        f = table_file(os.path.join(d, 'm.h5'), MergedClusters=a)
        out = os.path.join(d, 't.h5')
        data = dict(events=ev.tolist(), n_duts=nd, chunk_size=chunk, max_events=max_events, select_extrapolation_duts=sel, z=zs, tilt=tilt)
        with quiet():
            ta.find_tracks(tel, f, out, select_extrapolation_duts=sel, align_to_beam=beam, max_events=max_events, chunk_size=chunk)
        t = read_nodes(out)['TrackCandidates']
        o.count('find_tracks', nontrivial=len(t) > 0, sample=data)
        if max_events is None:
            o.check(t['event_number'].tolist() == ev.tolist(), 'find_tracks rows', 'find_tracks: rows of events %s, expected %s' % (t['event_number'].tolist(), ev.tolist()), data)
        else:
            u = np.unique(t['event_number'])
            exp = ev[np.isin(ev, u)]
            o.check(t['event_number'].tolist() == exp.tolist() and len(u) <= max_events, 'find_tracks rows', 'find_tracks(max_events=%s): rows of events %s from %s' % (max_events, t['event_number'].tolist(), ev.tolist()), data)
        for e in np.unique(t['event_number']):
            r, s = t[t['event_number'] == e], a[a['event_number'] == e]
            for i in range(nd):
                cols = dut_columns(a.dtype.names, i)
                h0, h1 = ([tuple(np.asarray(q[c]).tobytes() for c in cols) for q in rows] for rows in (s, r))
                o.check(sorted(h0) == sorted(h1), 'find_tracks hits', 'find_tracks: the hits of DUT %d in event %d are not those of the input (%s); input %s' % (i, e, 'n_hits %s from %s'
                        % (r['n_hits_dut_%d' % i].tolist(), s['n_hits_dut_%d' % i].tolist()), data), data)
        for i in range(nd):
            o.check((((t['hit_flag'] >> i) & 1).astype(bool) == np.isfinite(t['x_dut_%d' % i])).all() and (t['hit_flag'] >> nd == 0).all(), 'find_tracks hit_flag', 'find_tracks: hit_flag does not match the hits of DUT %d; input %s' % (i, data), data)
    one(3, 12, 1000)
    one(12, 6, 1000)
    one(4, 20, 8, max_events=2)
    one(3, 30, 13, max_events=1)
    while o.more():
        nd = int(o.rng.integers(2, 6))
        n_ev = int(o.rng.integers(2, 40))
        one(nd, n_ev, int(o.rng.choice([7, 9, 20, 1000])), max_events=None if o.rng.random() < 0.6 else int(o.rng.integers(1, n_ev + 3)), sel=None if o.rng.random() < 0.5 else [i for i in range(nd) if o.rng.random() < 0.7],
            beam=bool(o.rng.random() < 0.5), tilt=float(o.rng.choice([0, 0.1])), order=[int(v) for v in o.rng.permutation(nd)] if o.rng.random() < 0.5 else None)


ORACLE = [('_find_tracks_loop', oracle_loop), ('find_tracks', oracle_files)]
BUDGET = 60
BOUNDED = ['find_tracks (file-level: column copy, hit flag, max_events; bounded run-time contract evaluation)']
TRUSTED = ['geometry_utils.get_line_intersections_with_plane is called as an arbitrary function of its arguments (its own contract is C11): the permutation property does not depend on its value']
ASSUME = ['find_tracks passes z_sorted_dut_indices = argsort of one value per detector, i.e. a permutation of the detectors (numpy)',
          '_find_tracks recursion: partial correctness (termination of the recursion is not proved, its depth is bounded by the number of hits in an event in the bounded runs)']
