"""C24 Track result rows stay aligned with their tracks."""
import collections
import types

import numpy as np

from vf import symx
from vf.symx import z3, S, SB, A, BVS, Tab, Dom, NP, Loader, explore, call, Raised, Part

F = 'beam_telescope_analysis/track_analysis.py'
M = 'beam_telescope_analysis.track_analysis'
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
PER_DUT = ['x', 'y', 'z', 'x_err', 'y_err', 'z_err']
OTHER = ['charge', 'frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster']


def candidates(c, n, base='rows', pre=''):
    """a chunk of track candidates, one generic row"""
    cols = collections.OrderedDict()
    cols['event_number'] = c.arr(pre + 'event_number', ('n',), row=base, kind='i')
    v = z3.BitVec(pre + 'hit_flag', 32)
    cols['hit_flag'] = A(np.array([BVS(v)], dtype=object), [Dom(base)], 'i')
    c.rowvars.setdefault(base, []).append(v)
    for d in range(n):
        hit = c.bool(pre + 'hit_%d' % d, base).b
        for k in PER_DUT + OTHER:
            a = c.arr(pre + '%s_dut_%d' % (k, d), ('n',), row=base, kind='f')
            if k in PER_DUT:
                a.d[0] = S(a.d[0].t, z3.Not(hit))
            if k in ('x_err', 'y_err'):
                c.assume(a.d[0].t > 0)
            cols['%s_dut_%d' % (k, d)] = a
    return Tab(cols, Dom(base))


def mask(c, nm):
    return c.arr(nm, ('n',), kind='b')


def same(c, name, a, b, cond=None):
    """equal values where the condition holds (nan equal to nan)"""
    if isinstance(a, BVS) or isinstance(b, BVS):
        a, b = symx.bv2(a, b)
        f = a.v == b.v
    else:
        a, b = symx.lift(a), symx.lift(b)
        if isinstance(a, SB) or isinstance(b, SB):
            f = symx.truth(a) == symx.truth(b)
        else:
            no = lambda x: z3.BoolVal(False) if x.n is None else x.n
            f = z3.And(no(a) == no(b), z3.Or(no(a), (a.t if a.k == b.k else a.r) == (b.t if a.k == b.k else b.r)))
    c.goal(name, f if cond is None else z3.Implies(cond, f))


def tracks(c, n):
    """fitted tracks: per generic row offset, slope, chi2"""
    off, slope = c.arr('offset', ('n', 3)), c.arr('slope', ('n', 3))
    return off, slope


ADD = ['offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z']


def results(n, keep, full, chi=True):
    """create_results_array: all columns of a row come from one and the same row"""
    def run(c):
        c.machine_ints = True
        m = Loader().module(M)
        t = candidates(c, n)
        fit, store = mask(c, 'fitted'), mask(c, 'stored')
        f, s = fit.d[0].b, store.d[0].b
        c.assume(z3.Implies(s, f))
        dom = Dom('rows', f)
        at_fit = lambda a: A(a.d, [dom] + list(a.gen[1:]), a.kind)
        off, slope = at_fit(c.arr('offset', ('n', 3), nan=True)), at_fit(c.arr('slope', ('n', 3), nan=True))
        chis = [at_fit(c.arr(k, ('n',), nan=True)) for k in ('chi2', 'chi2_red', 'chi2_prob')]
        flags = []
        for k in ('quality', 'iso_track', 'iso_hit'):
            v = z3.BitVec(k, 32)
            c.rowvars['rows'].append(v)
            flags.append(A(np.array([BVS(v)], dtype=object), [dom], 'i'))
        est = at_fit(c.arr('estimate', ('n', n, 6), nan=True)) if full else None
        t0 = t.copy()
        r = call(m.create_results_array, n_duts=n, dut_offsets=off.copy(), dut_slopes=slope.copy(), track_chi2s=chis[0].copy(), track_chi2s_red=chis[1].copy(),
                 track_chi2s_prob=chis[2].copy(), quality_flag=flags[0].copy(), isolated_track_flag=flags[1].copy(), isolated_hit_flag=flags[2].copy(),
                 select_fit_tracks=fit.copy(), select_tracks_for_storage=store.copy(), track_candidates_chunk=t, keep_data=keep,
                 track_estimates_chunk_full=est.copy() if full else None)
        check_table(c, r, t0, n, f, s, keep, full, off, slope, chis, flags, est)
    return explore('create_results_array, %d DUTs%s%s' % (n, ', all candidates kept' if keep else '', ', full info' if full else ''), F, run)


def check_table(c, r, t0, n, f, s, keep, full, off, slope, chis, flags, est, tag=''):
    if isinstance(r, Raised) or not isinstance(r, Tab):
        c.goal(tag + 'a table of tracks', False)
        return
    want = list(t0.cols) + ADD + (['%s_%s_dut_%d' % (k, x, d) for d in range(n) for k in ('offset', 'slope') for x in 'xyz'] if full else []) \
        + ['track_chi2', 'track_chi_red', 'track_chi_prob', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag']
    c.goal(tag + 'columns', set(r.cols) == set(want))
    if set(r.cols) != set(want):
        return
    # exactly the selected rows (or all candidates), in order
    c.goal(tag + 'rows of the candidates', r.dom.base == 'rows')
    c.goal(tag + 'exactly the selected rows', r.dom.guard == (z3.BoolVal(True) if keep else s))
    g = r.dom.guard
    val = lambda k: r.cols[k].d[0]
    for k in t0.cols:
        same(c, tag + 'column %s' % k, val(k), t0.cols[k].d[0], g)
    nan = S(c=0, n=z3.BoolVal(True), k='f')

    def col(k, v, other):
        same(c, tag + 'column %s' % k, val(k), v, z3.And(g, f))
        if keep:
            same(c, tag + 'column %s of unfitted candidates' % k, val(k), other, z3.And(g, z3.Not(f)))
    for i, x in enumerate('xyz'):
        col('offset_' + x, off.d[0, i], nan)
        col('slope_' + x, slope.d[0, i], nan)
    if full:
        for d in range(n):
            for i, k in enumerate(['offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z']):
                col('%s_dut_%d' % (k, d), est.d[0, d, i], nan)
    for k, a in zip(('track_chi2', 'track_chi_red', 'track_chi_prob'), chis):
        col(k, a.d[0], nan)
    for k, a in zip(('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'), flags):
        col(k, a.d[0], 0)



def fun(nm, n):
    return z3.Function(nm, *([R] * (n + 1)))


def apply(nm, args, dom, n=3):
    """columns of row-wise unknown functions of the given columns"""
    ar = [symx.lnum(x.d[0]) for x in args]
    nan = [x.n for x in ar if x.n is not None]
    nan = z3.Or(*nan) if nan else None
    d = np.empty((1, n), dtype=object)
    for i in range(n):
        d[0, i] = S(fun('%s_%d' % (nm, i), len(ar))(*[x.r for x in ar]), nan)
    return A(d, [dom, None], 'f')


class Dut(object):
    """what a detector does with positions, as unknown functions; the parameters handed over are checked"""
    PAR = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')

    def __init__(self, c, d, limits):
        self.c, self.d = c, d
        for k, p in enumerate(self.PAR):
            setattr(self, p, 10.0 * (d + 1) + k)
        self.name = 'DUT%d' % d
        self.pixel_size = (c.real('pixel_x_%d' % d), c.real('pixel_y_%d' % d))
        for v in self.pixel_size:
            c.assume(v > 0)
        if limits == 'both':
            self.x_limit, self.y_limit = [(c.real('%s_%d' % (k, d)), c.real('%s_%d' % (k2, d))) for k, k2 in (('x_lo', 'x_hi'), ('y_lo', 'y_hi'))]
        elif limits == 'open':
            self.x_limit, self.y_limit = (-np.inf, c.real('x_hi_%d' % d)), (c.real('y_lo_%d' % d), np.inf)
        else:
            self.x_limit = self.y_limit = None

    def _frame(self, kw):
        for i, k in enumerate(self.PAR):
            v = kw.pop(k, None)
            want = getattr(self, k)
            if v is None:
                continue
            if v == want:
                continue
            if i < 3 and v == 0.0:
                return 'direction'
            return 'other%s' % v
        return 'position'

    def _map(self, what, x, y, z, kw):
        zero = all(kw.get(k) == 0.0 for k in self.PAR[:3])
        none = all(kw.get(k) is None for k in self.PAR[:3])
        rot = all(kw.get(k) in (None, getattr(self, k)) for k in self.PAR[3:])
        own = all(kw.get(k) in (None, getattr(self, k)) for k in self.PAR[:3])
        kind = 'direction' if zero and rot else 'position' if (none or own) and rot else None
        if kind is None or set(kw) - set(self.PAR):
            raise symx.Unsupported('transformation with other parameters')
        for v in (x, y, z):
            if not isinstance(v, A) or v.ndim != 1 or v.gen[0] is None:
                raise symx.Unsupported('transformation of something else than columns')
        r = apply('%s_%s_%d' % (what, kind, self.d), (x, y, z), x.gen[0])
        return r[:, 0], r[:, 1], r[:, 2]

    def global_to_local_position(self, x, y, z, **kw):
        return self._map('local', x, y, z, kw)

    def local_to_global_position(self, x, y, z, **kw):
        return self._map('global', x, y, z, kw)


class Telescope(list):
    pass


def plane(duts):
    def get_line_intersections_with_dut(line_origins, line_directions, **kw):
        d = [x.d for x in duts if all(kw.get(k) == getattr(x, k) for k in Dut.PAR)]
        if len(d) != 1 or set(kw) != set(Dut.PAR):
            raise symx.Unsupported('intersection with another plane')
        o, s = line_origins, line_directions
        return apply('crossing_%d' % d[0], [o[:, i] for i in range(3)] + [s[:, i] for i in range(3)], o.gen[0])
    return get_line_intersections_with_dut


class OutFile(object):
    def __init__(self, tb):
        self.tables, self.tb, self.root = {}, tb, 'root'

    def get_node(self, path, name=None):
        k = path.strip('/') if name is None else name
        if k not in self.tables:
            raise self.tb.NoSuchNodeError(k)
        return self.tables[k]

    def remove_node(self, where, name=None, **k):
        if name not in self.tables:
            raise self.tb.NoSuchNodeError(name)
        del self.tables[name]

    def create_table(self, where, name, description=None, title='', filters=None, **k):
        if name in self.tables:
            raise self.tb.NodeError(name)
        self.tables[name] = OutTable(description)
        return self.tables[name]


class OutTable(object):
    def __init__(self, description):
        self.description, self.rows = description, []

    def append(self, t):
        self.rows.append(t.copy() if isinstance(t, Tab) else t)

    def flush(self):
        pass


def local_track(c, duts, d, off, slope, method):
    """the position and the direction of the track in the frame of DUT d, from the contract"""
    if method == 'fit':
        dom = off.gen[0]
        o, s = [off[:, i] for i in range(3)], [slope[:, i] for i in range(3)]
        g = apply('crossing_%d' % d, o + s, dom)
        p = apply('local_position_%d' % d, [g[:, i] for i in range(3)], dom)
        u = apply('local_direction_%d' % d, s, dom)
        return [p.d[0, i] for i in range(3)], [u.d[0, i] for i in range(3)]
    z = symx.lift(0.0)
    return [off.d[0, d, 0], off.d[0, d, 1], z], [slope.d[0, d, 0], slope.d[0, d, 1], symx.lift(1.0)]


def flags_spec(c, t, duts, d, pos, qd, use_limits):
    hx, hy = t.cols['x_dut_%d' % d].d[0], t.cols['y_dut_%d' % d].d[0]
    rx, ry = hx - pos[0], hy - pos[1]
    fin = z3.And(z3.Not(hx.n), z3.Not(hy.n))
    ok = [fin]
    if use_limits:
        for v, lim in ((hx, duts[d].x_limit), (hy, duts[d].y_limit)):
            if lim is None:
                continue
            if not isinstance(lim[0], float):
                ok.append(v.r >= lim[0].r)
            if not isinstance(lim[1], float):
                ok.append(v.r <= lim[1].r)
    if qd is None:
        return z3.And(*ok), rx, ry
    qx, qy = qd
    ell = z3.And(2 * qx.r >= 5 * duts[d].pixel_size[0].r, 2 * qy.r >= 5 * duts[d].pixel_size[1].r)
    sq = z3.And(rx.r <= qx.r, -rx.r <= qx.r, ry.r <= qy.r, -ry.r <= qy.r)
    e = rx * rx / (qx * qx) + ry * ry / (qy * qy) <= 1
    ok.append(z3.If(ell, e.b, sq))
    return z3.And(*ok), rx, ry


def bit(v, d):
    return z3.Extract(d, d, v.v) == 1


def spec_chunk(c, r, t, n, duts, f, s, keep, full, method, off, slope, chis, dist, iso, use_limits, fit_for, small, d):
    """the table of DUT d has, per stored row, the values of that very track"""
    tag = 'DUT%d: ' % d
    dom = Dom('rows', f)
    if isinstance(r, Raised) or not isinstance(r, Tab):
        c.goal(tag + 'a table of tracks', False)
        return
    names = list(t.cols) + ADD + (['%s_%s_dut_%d' % (k, x, e) for e in range(n) for k in ('offset', 'slope') for x in 'xyz'] if full else []) \
        + ['track_chi2', 'track_chi_red', 'track_chi_prob', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag']
    c.goal(tag + 'columns', set(r.cols) == set(names))
    if set(r.cols) != set(names):
        return
    c.goal(tag + 'rows of the candidates', r.dom.base == 'rows')
    c.goal(tag + 'exactly the selected rows', r.dom.guard == (z3.BoolVal(True) if keep else s))
    g, val = r.dom.guard, lambda k: r.cols[k].d[0]
    for k in t.cols:
        same(c, tag + 'column %s' % k, val(k), t.cols[k].d[0], g)
    nan = S(c=0, n=z3.BoolVal(True), k='f')

    def direction(k, u):
        """unit vector along +-u with positive z component"""
        v = [val(k % x) for x in 'xyz']
        gf = z3.And(g, f)
        for w in v:
            c.goal(tag + k % 'xyz' + ' defined', z3.Implies(gf, z3.BoolVal(True) if w.n is None else z3.Not(w.n)))
        if method == 'kalman':
            for x, w, q in zip('xyz', v, u):
                same(c, tag + 'column ' + k % x, w, q, gf)
        else:
            m = symx.f_sqrt(symx.num2(symx.num2(u[0] * u[0], u[1] * u[1], 'add'), u[2] * u[2], 'add'))
            for x, w, q in zip('xyz', v, u):
                for pos, sg in ((u[2].r >= 0, 1), (u[2].r < 0, -1)):
                    q1 = q if sg == 1 else -q
                    c.goal(tag + 'column ' + k % x + (' (track upwards)' if sg == 1 else ' (track downwards)'), z3.Implies(z3.And(gf, pos), w.r * m.r == q1.r))
        if keep:
            for x, w in zip('xyz', v):
                same(c, tag + 'column %s of unfitted candidates' % (k % x), w, nan, z3.And(g, z3.Not(f)))

    def position(k, p):
        for x, q in zip('xyz', p):
            same(c, tag + 'column ' + k % x, val(k % x), q, z3.And(g, f))
            if keep:
                same(c, tag + 'column %s of unfitted candidates' % (k % x), val(k % x), nan, z3.And(g, z3.Not(f)))
    p, u = local_track(c, duts, d, off, slope, method)
    position('offset_%s', p)
    direction('slope_%s', u)
    for e in range(n):
        pe, ue = local_track(c, duts, e, off, slope, method)
        if full:
            position('offset_%%s_dut_%d' % e, pe)
            direction('slope_%%s_dut_%d' % e, ue)
        q, rx, ry = flags_spec(c, t, duts, e, pe, dist[e], use_limits)
        gf = z3.And(g, f)
        c.goal(tag + 'quality bit %d' % e, z3.Implies(gf, bit(val('quality_flag'), e) == q))
        c.goal(tag + 'isolated track bit %d' % e, z3.Implies(gf, bit(val('isolated_track_flag'), e) == z3.Not(small[('track', e)])))
        c.goal(tag + 'isolated hit bit %d' % e, z3.Implies(gf, bit(val('isolated_hit_flag'), e) == z3.Not(small[('hit', e)])))
    for k in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
        c.goal(tag + '%s: no other bits' % k, z3.Implies(z3.And(g, f), z3.LShR(val(k).v, n) == 0))
        if keep:
            c.goal(tag + '%s of unfitted candidates' % k, z3.Implies(z3.And(g, z3.Not(f)), val(k).v == 0))
    if method == 'kalman':
        for k, a in zip(('track_chi2', 'track_chi_red', 'track_chi_prob'), chis):
            same(c, tag + 'column %s' % k, val(k), a.d[0], z3.And(g, f))
    else:
        chi = symx.lift(0.0)
        cnt = symx.Z0()
        for e in fit_for:
            pe, _ = local_track(c, duts, e, off, slope, method)
            _, rx, ry = flags_spec(c, t, duts, e, pe, None, False)
            hit = z3.Not(t.cols['x_dut_%d' % e].d[0].n)
            ex, ey = [t.cols['%s_err_dut_%d' % (k, e)].d[0] for k in 'xy']
            one = symx.num2(rx * rx / (ex * ex), ry * ry / (ey * ey), 'add')
            chi = chi + symx.ite(hit, S(one.t), symx.lift(0.0))
            cnt = cnt + symx.ite(hit, symx.lift(1), symx.lift(0))
        v = val('track_chi2')
        c.goal(tag + 'track_chi2 defined', z3.Implies(z3.And(g, f), z3.BoolVal(True) if v.n is None else z3.Not(v.n)))
        c.goal(tag + 'column track_chi2', z3.Implies(z3.And(g, f), v.r == chi.r))
        red = val('track_chi_red')
        c.goal(tag + 'column track_chi_red', z3.Implies(z3.And(g, f, v.r != 0, cnt.r > 2), red.r * (2 * (cnt.r - 2)) == v.r))
        c.goal(tag + 'column track_chi_prob', z3.Implies(z3.And(g, f), val('track_chi_prob').r == 0))
    if keep:
        for k in ('track_chi2', 'track_chi_red', 'track_chi_prob'):
            same(c, tag + 'column %s of unfitted candidates' % k, val(k), nan, z3.And(g, z3.Not(f)))


def fit_inputs(c, n, method, dom):
    at = lambda a: A(a.d, [dom] + list(a.gen[1:]), a.kind)
    if method == 'fit':
        return at(c.arr('offset', ('n', 3))), at(c.arr('slope', ('n', 3))), None
    return at(c.arr('offset', ('n', n, 2))), at(c.arr('slope', ('n', n, 2))), [at(c.arr(k, ('n',))) for k in ('chi2', 'chi2_red', 'chi2_prob')]


def neighbours(c, t, small, log):
    """contract of _find_small_distance: a flag per row, set in place"""
    def f(event_number_array, position_array_x, position_array_y, max_distance_x, max_distance_y, small_distance_flag_array, use_ellipse):
        log.append((event_number_array, position_array_x, position_array_y, max_distance_x, max_distance_y, small_distance_flag_array.gen[0], use_ellipse))
        e, k = divmod(len(log) - 1, 2)
        v = c.bool('near_%s_%d' % ('track' if k == 0 else 'hit', e), 'rows')
        small[('track' if k == 0 else 'hit', e)] = v.b
        c.goal('neighbours: flags start unset', z3.Not(symx.truth(small_distance_flag_array.d[0])))
        small_distance_flag_array[:] = A(np.array([v], dtype=object), small_distance_flag_array.gen, 'b')
    return f


def check_neighbours(c, log, t, n, duts, f, off, slope, method, iso):
    c.goal('neighbours: two searches per DUT', len(log) == 2 * n)
    for i, (ev, px, py, mx, my, gen, ell) in enumerate(log):
        e, hits = divmod(i, 2)
        p, _ = local_track(c, duts, e, off, slope, method)
        g = z3.BoolVal(True) if hits else f
        tag = 'neighbours of %s in DUT%d: ' % ('hits' if hits else 'tracks', e)
        for a in (ev, px, py):
            c.goal(tag + 'rows', z3.BoolVal(isinstance(a, A) and a.gen[0] is not None and a.gen[0].base == 'rows') if not isinstance(a, A) else a.gen[0].guard == g)
        c.goal(tag + 'flag rows', gen.guard == g)
        same(c, tag + 'events', ev.d[0], t.cols['event_number'].d[0], g)
        for a, nm, q in ((px, 'x', 0), (py, 'y', 1)):
            same(c, tag + nm, a.d[0], t.cols['%s_dut_%d' % (nm, e)].d[0] if hits else p[q], g)
        want = iso[e] if iso[e] is not None else (0.0, 0.0)
        for a, b in ((mx, want[0]), (my, want[1])):
            same(c, tag + 'distance', a, b)


def store(n, method, keep, full, limits, qmode, fit_duts, fit_for):
    def run(c):
        c.machine_ints = True
        c.lax_division = True
        m = Loader().module(M)
        t = candidates(c, n)
        fit, sto = mask(c, 'fitted'), mask(c, 'stored')
        f, s = fit.d[0].b, sto.d[0].b
        c.assume(z3.Implies(s, f))
        hits = [z3.Not(t.cols['x_dut_%d' % d].d[0].n) for d in range(n)]
        c.assume(z3.Implies(f, z3.Or(*[hits[d] for d in fit_for])))
        dom = Dom('rows', f)
        duts = Telescope(Dut(c, d, limits) for d in range(n))
        off, slope, chis = fit_inputs(c, n, method, dom)
        if method == 'fit':
            for d in range(n):
                u = local_track(c, duts, d, off, slope, method)[1]
                c.assume(z3.Implies(f, u[0].r * u[0].r + u[1].r * u[1].r + u[2].r * u[2].r > 0))
        dist, iso = [], []
        for d in range(n):
            q = (c.real('qx_%d' % d), c.real('qy_%d' % d))
            i = (c.real('ix_%d' % d), c.real('iy_%d' % d))
            for v in q + i:
                c.assume(v >= 0)
            wide = z3.And(2 * q[0].r >= 5 * duts[d].pixel_size[0].r, 2 * q[1].r >= 5 * duts[d].pixel_size[1].r)
            if qmode == 'ellipse':
                c.assume(wide)
            elif qmode == 'square':
                c.assume(z3.Not(wide))
            none = qmode == 'none' or qmode == 'mixed' and d == 0
            dist.append(None if none else q)
            iso.append(None if none else i)
        small, log = {}, []
        m._find_small_distance = neighbours(c, t, small, log)
        m.geometry_utils.get_line_intersections_with_dut = plane(duts)
        out = OutFile(m.tb)
        t0 = t.copy()
        st = call(m.store_track_data, out_file_h5=out, track_candidates_chunk=t, select_fit_tracks=fit.copy(), select_tracks_for_storage=sto.copy(), telescope=duts,
                  offsets=off.copy(), slopes=slope.copy(), track_chi2s=chis[0] if chis else None, track_chi2s_red=chis[1] if chis else None,
                  track_chi2s_prob=chis[2] if chis else None, fit_duts=list(fit_duts), select_fit_duts=list(fit_for), select_align_duts=None,
                  quality_distances=dist, isolation_distances=iso, use_limits=limits is not None, keep_data=keep, method=method, full_track_info=full)
        if isinstance(st, Raised):
            c.goal('no error (%s)' % st.ex, False)
            return
        c.goal('a table for every fitted DUT', set(out.tables) == {'Tracks_DUT%d' % d for d in fit_duts})
        check_neighbours(c, log, t0, n, duts, f, off, slope, method, iso)
        for d in fit_duts:
            k = out.tables.get('Tracks_DUT%d' % d)
            c.goal('DUT%d: tracks of the chunk written once' % d, k is not None and len(k.rows) == 1)
            if k is not None and len(k.rows) == 1:
                spec_chunk(c, k.rows[0], t0, n, duts, f, s, keep, full, method, off, slope, chis, dist, iso, limits is not None, fit_for, small, d)
    return explore('store_track_data, %s, %d DUTs, %s limits, %s cut%s%s' % (method, n, limits, qmode, ', all candidates kept' if keep else '', ', full info' if full else ''), F, run)


class Selection(object):
    """what fit_tracks is asked for; fit/hit/min per selected DUT as documented"""

    def __init__(self, n, duts=None, fit=None, hit=None, least=None, exclude=True):
        self.kw = dict(select_duts=duts, select_fit_duts=fit, select_hit_duts=hit, min_track_hits=least, exclude_dut_hit=exclude)
        self.duts = list(range(n)) if duts is None else list(duts) if isinstance(duts, (list, tuple)) else [duts]
        k = len(self.duts)
        flat = lambda v: all(not isinstance(x, (list, tuple)) and x is not None for x in v)
        fit = list(range(n)) if fit is None else fit
        fit = [fit] * k if flat(fit) else fit
        hit = [] if hit is None else hit
        hit = [hit] * k if flat(hit) else hit
        exclude = list(exclude) if isinstance(exclude, (list, tuple)) else [exclude] * k
        least = list(least) if isinstance(least, (list, tuple)) else [least] * k
        self.fit, self.hit, self.least = {}, {}, {}
        for i, d in enumerate(self.duts):
            f = set(range(n)) if fit[i] is None else set(fit[i])
            self.fit[d] = f - {d} if exclude[i] else f
            self.hit[d] = set() if hit[i] is None else set(hit[i])
            self.least[d] = len(self.fit[d]) if least[i] is None else least[i]

    def arguments(self):
        import copy
        return copy.deepcopy(self.kw)


def bits_of(v):
    """contract of number_of_set_bits (C20)"""
    if isinstance(v, A):
        return A(symx.map1(bits_of, v.d), v.gen, 'i')
    if not isinstance(v, BVS):
        raise symx.Unsupported('number of set bits of something else than a flag word')
    w = v.v.size()
    return S(z3.Sum([z3.If(z3.Extract(i, i, v.v) == 1, 1, 0) for i in range(w)]), k='i')


def count_bits(v, s):
    return z3.Sum([z3.If(z3.Extract(d, d, v.v) == 1, 1, 0) for d in sorted(s)] + [z3.IntVal(0)])


class Result(object):
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v


class Workers(object):
    def apply_async(self, func, args=(), kwds={}):
        return Result(func(*args, **kwds))

    def close(self):
        pass

    join = close


class Opened(object):
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        return self.f

    def __exit__(self, *a):
        return False


class AnyName(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def equal_cells(a, b):
    x, y = symx.cells(a), symx.cells(b)
    return len(x) == len(y) and all(u.eq(v) for u, v in zip(x, y))


def fit(n, method, keep, sel, chunks=1):
    """fit_tracks: per DUT the documented tracks are fitted, with the hits of that very track, and handed over with the documented selection"""
    def run(c):
        import tables
        c.machine_ints = True
        c.lax_division = True
        m = Loader().module(M)
        names = ['rows', 'rows2'][:chunks]
        chunk = [candidates(c, n, b, '' if k == 0 else 'second_') for k, b in enumerate(names)]
        t0 = [t.copy() for t in chunk]
        duts = Telescope(Dut(c, d, None) for d in range(n))
        duts.dut_names = [d.name for d in duts]
        for d in duts:
            d.name = 'DUT%s' % d.d
        log, fits = [], {}
        inp = types.SimpleNamespace(root=types.SimpleNamespace(TrackCandidates=types.SimpleNamespace(shape=(c.int('candidates'),), nrows=c.int('candidates'))))
        out = types.SimpleNamespace(root='root')

        def remove_node(where, name=None, **k):
            raise tables.NoSuchNodeError(name)
        out.remove_node = remove_node
        opened = []

        def open_file(filename, mode='r', **k):
            opened.append((filename, mode))
            return Opened(inp if mode == 'r' else out)
        m.tb = types.SimpleNamespace(open_file=open_file, NodeError=tables.NodeError, NoSuchNodeError=tables.NoSuchNodeError, Filters=lambda **k: None)

        def aligned(table, start_index=None, stop_index=None, chunk_size=10000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
            c.goal('reads the track candidates', table is inp.root.TrackCandidates)
            for i, t in enumerate(t0):
                yield t.copy(), c.int('position_%d' % i)
        m.analysis_utils = types.SimpleNamespace(data_aligned_at_events=aligned, number_of_set_bits=bits_of)
        m.Telescope = lambda f: duts
        m.Pool = lambda *a, **k: Workers()
        m.cpu_count = lambda: 2
        m.tqdm = lambda *a, **k: AnyName()
        m.plot_utils = AnyName()
        energy, mass, planes = c.real('beam_energy'), c.real('particle_mass'), [types.SimpleNamespace(name='plane')] if method == 'kalman' else None
        c.assume(energy > 0)
        c.assume(mass > 0)

        def base_of(a):
            if not isinstance(a, A) or a.gen[0] is None or a.gen[0].base not in names:
                raise symx.Unsupported('hits of something else than the candidates')
            return names.index(a.gen[0].base)

        def keep_fit(k, guard, used, vals):
            fits.setdefault((k, tuple(sorted(used))), []).append((guard, vals))

        def line(track_hits):
            a = track_hits.a
            k = base_of(a)
            cols = t0[k].cols
            slots = []
            for i in range(a.d.shape[1]):
                for d in range(n):
                    g = apply('global_position_%d' % d, [cols['%s_dut_%d' % (x, d)] for x in 'xyz'], a.gen[0])
                    if equal_cells(a[:, i], g):
                        slots.append(d)
                        break
                else:
                    slots.append(None)
            c.goal('hits in the telescope frame of the detectors used for the fit', None not in slots and len(set(slots)) == len(slots))
            vals = [apply('fit_%s_%s' % (w, '_'.join(map(str, sorted(str(x) for x in slots)))), [cols['%s_dut_%d' % (x, d)] for d in sorted(x for x in slots if x is not None) for x in 'xyz'], a.gen[0]) for w in ('offset', 'slope')]
            used = [x for x in slots if x is not None]
            keep_fit(k, a.gen[0].guard, used, vals)
            return [track_hits.with_rows(v) for v in vals]

        def kalman(track_hits, telescope, select_fit_duts, beam_energy, particle_mass, scattering_planes, alpha):
            a = track_hits.a
            k = base_of(a)
            cols = t0[k].cols
            own = a.d.shape[1:] == (n, 6)
            c.goal('hits and errors of every detector', own)
            if own:
                for d in range(n):
                    for i, x in enumerate(PER_DUT):
                        c.goal('hits: %s of DUT%d' % (x, d), equal_cells(a[:, d, i], cols['%s_dut_%d' % (x, d)]))
            c.goal('beam and telescope', telescope is duts and scattering_planes is planes and beam_energy is energy and particle_mass is mass)
            c.goal('no annealing', isinstance(alpha, A) or bool((np.asarray(alpha, dtype=object) == 1).all()))
            used = sorted(set(select_fit_duts))
            vals = []
            for w, sh in (('offset', 2 * n), ('slope', 2 * n), ('chi2', 1), ('red', 1), ('prob', 1)):
                v = apply('kalman_%s_%s' % (w, '_'.join(map(str, used))), [cols['%s_dut_%d' % (x, d)] for d in range(n) for x in PER_DUT[:2]], a.gen[0], sh)
                vals.append(A(v.d.reshape(1, n, 2), [v.gen[0], None, None], 'f') if sh > 1 else v[:, 0])
            keep_fit(k, a.gen[0].guard, used, vals)
            return [track_hits.with_rows(v) for v in vals]
        m._fit_tracks_loop, m._fit_tracks_kalman_loop = line, kalman
        qd, idist, lim, full = [(c.real('qx'), c.real('qy'))] * n, [(c.real('ix'), c.real('iy'))] * n, c.bool('limits'), c.bool('full')

        def store_track_data(**kw):
            log.append(kw)
            return None
        m.store_track_data = store_track_data
        def spec(t, d):
            h = t.cols['hit_flag'].d[0]
            k = count_bits(h, sel.fit[d])
            f = k >= (max(3, sel.least[d]) if method == 'kalman' else 2)
            return f, z3.And(f, k >= sel.least[d], *[bit(h, e) for e in sorted(sel.hit[d])])

        def check_call(d, k, mine):
            tag = 'DUT%d%s: ' % (d, '' if k == 0 else ', next chunk')
            f, s = spec(t0[k], d)
            if not mine:
                c.goal(tag + 'left out only if no candidate is selected', z3.BoolVal(False) if keep else z3.Not(s))
                return
            c.goal(tag + 'stored once', len(mine) == 1)
            x = mine[0]
            t = x['track_candidates_chunk']
            c.goal(tag + 'all candidates', z3.And(t.dom.guard, z3.BoolVal(set(t.cols) == set(t0[k].cols) and all(equal_cells(t.cols[q], t0[k].cols[q]) for q in t0[k].cols if q != 'hit_flag'))))
            same(c, tag + 'hit flags', t.cols['hit_flag'].d[0], t0[k].cols['hit_flag'].d[0])
            for q, w in (('select_fit_tracks', f), ('select_tracks_for_storage', s)):
                v = x[q]
                okay = isinstance(v, A) and v.ndim == 1 and v.gen[0] is not None and v.gen[0].base == names[k]
                c.goal(tag + q + ': one flag per candidate', v.gen[0].guard if okay else False)
                if okay:
                    c.goal(tag + q, symx.truth(v.d[0]) == w)
            c.goal(tag + 'detectors of the fit', set(x['select_fit_duts']) == sel.fit[d])
            c.goal(tag + 'method', x['method'] == method and x['telescope'] is duts and x['keep_data'] == keep and x['use_limits'] is lim and x['full_track_info'] is full and x['out_file_h5'] is out)
            c.goal(tag + 'distances', all(u is v for a, b in zip(list(x['quality_distances']) + list(x['isolation_distances']), qd + idist) for u, v in zip(a, b))
                   and len(x['quality_distances']) == n == len(x['isolation_distances']))
            c.goal(tag + 'no alignment', x['select_align_duts'] is None)
            got = fits.get((k, tuple(sorted(sel.fit[d]))), [])
            keys = ('offsets', 'slopes') if method == 'fit' else ('offsets', 'slopes', 'track_chi2s', 'track_chi2s_red', 'track_chi2s_prob')
            c.goal(tag + 'tracks fitted with its detectors', bool(got))
            for i, q in enumerate(keys):
                v = x[q]
                okay = bool(got) and isinstance(v, A) and v.gen[0] is not None and v.gen[0].base == names[k] and any(equal_cells(v, g[1][i]) for g in got)
                c.goal(tag + q + ' of the fitted tracks', v.gen[0].guard == f if okay else False)
        kw = dict(beam_energy=energy, particle_mass=mass, scattering_planes=planes) if method == 'kalman' else {}
        r = call(m.fit_tracks, telescope_configuration='telescope', input_track_candidates_file='candidates', output_tracks_file='tracks', method=method,
                 quality_distances=qd, isolation_distances=idist, use_limits=lim, keep_data=keep, full_track_info=full, plot=False, **dict(kw, **sel.arguments()))
        if isinstance(r, Raised):
            c.goal('no error (%s)' % r.ex, False)
            return
        c.goal('returns the file', r == 'tracks')
        c.goal('reads and writes the given files', sorted(opened) == [('candidates', 'r'), ('tracks', 'w')])
        for d in sel.duts:
            for k in range(chunks):
                mine = [x for x in log if d in x['fit_duts'] and isinstance(x['track_candidates_chunk'], Tab) and x['track_candidates_chunk'].dom.base == names[k]]
                check_call(d, k, mine)
            order = [names.index(x['track_candidates_chunk'].dom.base) for x in log if d in x['fit_duts'] and isinstance(x['track_candidates_chunk'], Tab)]
            c.goal('DUT%d: chunks in order' % d, order == sorted(order))
        c.goal('only the selected DUTs', all(set(x['fit_duts']) <= set(sel.duts) and len(set(x['fit_duts'])) == len(x['fit_duts']) for x in log))
    return explore('fit_tracks, %s%s, %s' % (method, ', all candidates kept' if keep else '', {k: v for k, v in sel.kw.items() if v is not None}), F, run)


FIT = [(4, 'fit', True, Selection(4, fit=[0, 1, 2, 3], hit=[[0], [1], [0], [0]], least=[2, 2, 3, 2], exclude=False), 1),
       (2, 'fit', False, Selection(2, exclude=False), 2), (3, 'fit', False, Selection(3), 1), (3, 'fit', True, Selection(3, fit=[0, 2], least=2, exclude=False), 2),
       (3, 'fit', True, Selection(3, duts=[2, 0], fit=[[0, 1, 2], [2, 1, 0]], hit=[[1], [2, 1]], least=[2, None], exclude=[True, False]), 1),
       (3, 'fit', True, Selection(3, duts=[0, 1, 2], fit=[None, [1, 2], [1, 2, 0]], hit=[None, [], None], least=2, exclude=[True, False, False]), 1),
       (4, 'fit', True, Selection(4, duts=[3, 1, 2], fit=[[0, 1, 2], [0, 3, 2, 1], [0, 1, 2]], hit=[0], least=2, exclude=[True, True, False]), 1),
       (4, 'fit', True, Selection(4, duts=1, fit=[0, 2, 3], least=3), 2),
       (4, 'kalman', False, Selection(4, duts=[1, 0], fit=[0, 1, 2, 3], hit=[[0], [1]], least=[2, 3]), 1),
       (3, 'kalman', True, Selection(3, exclude=False), 2)]
STORE = [(1, 'fit', False, False, None, 'ellipse', (0,), (0,)), (2, 'fit', False, True, 'both', 'square', (0,), (0, 1)), (2, 'fit', True, True, 'open', 'mixed', (1,), (0, 1)),
         (2, 'kalman', False, True, 'both', 'ellipse', (0, 1), (0, 1)), (2, 'kalman', True, False, None, 'none', (0,), (1, 0)), (3, 'fit', False, False, None, 'none', (1,), (0, 2))]
SYM = [('results %d %s %s' % (n, keep, full), F + ':create_results_array', lambda n=n, keep=keep, full=full: results(n, keep, full))
       for n in (1, 2, 3) for keep in (False, True) for full in (False, True)] \
    + [('store %s' % (a,), F + ':store_track_data', lambda a=a: store(*a)) for a in STORE] \
    + [('fit_tracks %d' % i, F + ':fit_tracks', lambda a=a: fit(*a)) for i, a in enumerate(FIT)]


def CONTRACTS():
    return []


from contracts import tracks as _tracks
ORACLE = [('fit_tracks', lambda o: _tracks.oracle_fit(o, Selection))]
BUDGET = 60
TRUSTED = ['line_fit_3d / numpy svd as the least-squares line; the Kalman filter itself is under contract in C16 and C17', 'geometry functions have their contracts of C08 and C11 (unknown functions of the row here)',
           'number_of_set_bits has its contract of C20', '_find_small_distance has its contract of C15', 'data_aligned_at_events has its contract of C01', 'multiprocessing.Pool.apply_async(f).get() returns f(...)',
           'PyTables: append adds the rows of a table at its end', 'numpy functions as modelled in vf/symx.py (row-wise operations, boolean selection, array_split / concatenate)']
ASSUME = ['real arithmetic instead of floating point', 'track table of one generic candidate row; candidate columns defined exactly for detectors with a hit', 'select_align_duts=None (the residual offset by kernel density estimate is not covered)',
          'max_events=None in the symbolic contract of fit_tracks (random choice of events: bounded evaluation only)', 'the numbers of detectors and the selections listed in STORE, FIT are enumerated']
BOUNDED = ['fit_tracks on real files against an independent least-squares fit, 3-5 detectors, up to 24 candidates']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source on one generic track candidate, obligations discharged by z3'
LEVEL_NOTE = 'create_results_array, store_track_data and fit_tracks are proved for all candidate tables in the enumerated configurations (numbers of detectors, selections, methods); the choice of events with max_events and the residual offset for alignment are outside'
EXPLANATION = ('fit_tracks hands each chunk, the fitted tracks of its candidates and the two selections to store_track_data exactly as the selection of every detector says; store_track_data and '
               'create_results_array put values of one and the same candidate into each row.')
