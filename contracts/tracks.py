"""Bounded run-time evaluation of fit_tracks on small files against an independent expectation."""
import os

import numpy as np

from contracts.files import merged_array, multi_events, dut_conf, telescope_file, table_file, read_nodes, Dir, quiet
from contracts.geo import np_rot


class Result(object):
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v


class Workers(object):
    """a pool that runs its jobs at once"""

    def apply_async(self, func, args=(), kwds={}):
        return Result(func(*args, **kwds))

    def close(self):
        pass

    join = close


def geometry(rng, n):
    tilt = rng.random() < 0.5
    out = []
    for d in range(n):
        a, b, g = (rng.uniform(-0.2, 0.2, 3) if tilt else (0.0, 0.0, 0.0))
        out.append(dut_conf(z=30000.0 * d, x=float(rng.uniform(-500, 500)), y=float(rng.uniform(-500, 500)), a=float(a), b=float(b), g=float(g), material_budget=0.001))
    return out


def line_tracks(rng, conf, events, p_hit=0.85, near=0.3):
    """candidates along straight lines with scattered hits; some tracks of an event lie close together"""
    n = len(conf)
    a = merged_array(rng, n, events, p_hit=p_hit)
    last = None
    for i in range(len(events)):
        if last is not None and events[i] == events[i - 1] and rng.random() < near:
            o, s = last[0] + rng.uniform(-300, 300, 3) * [1, 1, 0], last[1]
        else:
            o, s = np.append(rng.uniform(-3000, 3000, 2), 0.0), np.append(rng.uniform(-0.02, 0.02, 2), 1.0)
        last = o, s
        for d, k in enumerate(conf):
            if np.isnan(a['x_dut_%d' % d][i]):
                continue
            r = np_rot(k['rotation_alpha'], k['rotation_beta'], k['rotation_gamma'])
            p = np.array([k['translation_x'], k['translation_y'], k['translation_z']])
            nrm = r[:, 2]
            g = o + s * (nrm.dot(p - o) / nrm.dot(s))
            l = r.T.dot(g - p)
            a['x_dut_%d' % d][i] = l[0] + rng.normal(0, 60)
            a['y_dut_%d' % d][i] = l[1] + rng.normal(0, 60)
    return a


def local(k, v, position):
    r = np_rot(k['rotation_alpha'], k['rotation_beta'], k['rotation_gamma'])
    p = np.array([k['translation_x'], k['translation_y'], k['translation_z']])
    return r.T.dot(v - p) if position else r.T.dot(v)


def to_global(k, v):
    r = np_rot(k['rotation_alpha'], k['rotation_beta'], k['rotation_gamma'])
    return r.dot(v) + np.array([k['translation_x'], k['translation_y'], k['translation_z']])


def least_squares(points):
    """line through the mean along the direction of largest spread: eigenvector of the covariance"""
    m = points.mean(axis=0)
    w, v = np.linalg.eigh((points - m).T.dot(points - m))
    s = v[:, -1]
    return m, s if s[2] >= 0 else -s


def popcount(h, ds):
    return sum((int(h) >> d) & 1 for d in ds)


def near_flags(ev, x, y, mx, my, ell, tol=1e-3):
    """flag, sure: sure is False where a distance is too close to the limit to decide"""
    n = len(ev)
    f, sure = np.zeros(n, bool), np.ones(n, bool)
    for i in range(n):
        for j in range(n):
            if i != j and ev[i] == ev[j] and np.isfinite([x[i], y[i], x[j], y[j]]).all():
                dx, dy = abs(x[i] - x[j]), abs(y[i] - y[j])
                if ell and mx > 0 and my > 0:
                    q = (dx / mx) ** 2 + (dy / my) ** 2
                    f[i] |= q <= 1
                    sure[i] &= abs(q - 1) > tol
                else:
                    f[i] |= dx <= mx and dy <= my
                    sure[i] &= (mx == 0 or abs(dx - mx) > tol) and (my == 0 or abs(dy - my) > tol)
    return f, sure


def random_selection(rng, n, Selection):
    duts = list(rng.permutation(n)[:int(rng.integers(1, n + 1))]) if rng.random() < 0.7 else None
    duts = duts if duts is None else [int(d) for d in duts]
    k = n if duts is None else len(duts)
    subset = lambda least: sorted(int(x) for x in rng.permutation(n)[:int(rng.integers(least, n + 1))])
    exclude = bool(rng.random() < 0.6) if rng.random() < 0.5 else [bool(rng.random() < 0.6) for _ in range(k)]
    if rng.random() < 0.4:
        fit = None
    elif rng.random() < 0.5:
        fit = subset(n - 1 if n > 3 else n)
    else:
        fit = [subset(3) if rng.random() < 0.8 else None for _ in range(k)]
    hit = None if rng.random() < 0.4 else subset(1)[:2] if rng.random() < 0.5 else [subset(0)[:2] if rng.random() < 0.8 else None for _ in range(k)]
    least = None if rng.random() < 0.4 else 2 if rng.random() < 0.5 else [int(rng.choice([2, 2, 3])) if rng.random() < 0.8 else None for _ in range(k)]
    s = Selection(n, duts=duts, fit=fit, hit=hit, least=least, exclude=exclude)
    if any(not 2 <= s.least[d] <= len(s.fit[d]) for d in s.duts) or any(len(f) < 2 for f in s.fit.values()):
        return None
    return s


def oracle_fit(o, Selection, part='fit_tracks', methods=('fit', 'fit', 'kalman')):
    np_ = o.np
    rng = o.rng
    import numba
    # compiling the Kalman filter takes longer than everything else here
    numba.config.DISABLE_JIT = True
    ta = o.mod('track_analysis')
    ta.Pool = lambda *a, **k: Workers()
    import tqdm
    ta.tqdm = lambda *a, **k: tqdm.tqdm(*a, **dict(k, disable=True))
    box = Dir(o, 'fit_tracks')
    while o.more():
        n = int(rng.integers(3, 6))
        sel = random_selection(rng, n, Selection)
        if sel is None:
            continue
        method = str(rng.choice(list(methods)))
        conf = geometry(rng, n)
        ev = multi_events(rng, int(rng.integers(1, 7)), 4)
        if not len(ev):
            continue
        ev += int(rng.choice([0, 5, 1 << 33]))
        cand = line_tracks(rng, conf, ev)
        keep, full = bool(rng.random() < 0.4), bool(rng.random() < 0.4)
        qd = [None if rng.random() < 0.15 else tuple(float(x) for x in (rng.choice([100.0, 300.0, 700.0]), rng.choice([50.0, 130.0, 400.0]))) for _ in range(n)]
        idist = [None if rng.random() < 0.15 else (float(rng.choice([0.0, 250.0, 500.0])), float(rng.choice([250.0, 500.0]))) for _ in range(n)]
        limits = bool(rng.random() < 0.5)
        if limits:
            for k in conf:
                k['x_limit'], k['y_limit'] = [float(-rng.uniform(500, 2500)), float(rng.uniform(500, 2500))], [float(-rng.uniform(500, 2500)), float(rng.uniform(500, 2500))]
        most = int(rng.integers(1, 5)) if rng.random() < 0.25 and len(set(ev.tolist())) > 1 else None
        chunk = int(rng.choice([1000, 8, 5]))
        if chunk < np_.bincount(np_.unique(ev, return_inverse=True)[1]).max() + 1:
            chunk = 1000
        cores = int(rng.choice([1, 2, 3]))
        ta.cpu_count = lambda: cores
        d0 = box.new()
        tel, inp, out = telescope_file(d0, conf), table_file(os.path.join(d0, 'c.h5'), TrackCandidates=cand), os.path.join(d0, 't.h5')
        kw = dict(beam_energy=2500.0, particle_mass=0.511) if method == 'kalman' else {}
        text = '%s of %d candidates, %d DUTs, %s, keep_data %s, full %s, limits %s, max_events %s, chunk_size %d, quality %s, isolation %s' \
            % (method, len(cand), n, {k: v for k, v in sel.kw.items() if v is not None}, keep, full, limits, most, chunk, qd, idist)
        data = dict(track_candidates=cand, telescope=conf, arguments=text)
        try:
            with quiet():
                ta.fit_tracks(telescope_configuration=tel, input_track_candidates_file=inp, output_tracks_file=out, max_events=most, method=method, quality_distances=list(qd),
                              isolation_distances=list(idist), use_limits=limits, keep_data=keep, full_track_info=full, plot=False, chunk_size=chunk, **dict(kw, **sel.arguments()))
        except Exception as ex:
            o.fail(part + ' error', 'fit_tracks raises %r: %s' % (ex, text), data)
            continue
        got = read_nodes(out)
        o.count(part, nontrivial=any(len(v) for v in got.values()), sample=text)
        for d in sel.duts:
            check(o, part, d, n, conf, cand, sel, method, keep, full, limits, most, qd, idist, got.get('Tracks_DUT%d' % d), text, data, ta)
        o.check(set(got) <= {'Tracks_DUT%d' % d for d in sel.duts}, part + ' tables', 'fit_tracks: unexpected tables %s: %s' % (sorted(got), text), data)


def check(o, part, d, n, conf, cand, sel, method, keep, full, limits, most, qd, idist, got, text, data, ta):
    bad = lambda key, what: o.fail('%s %s' % (part, key), 'fit_tracks, table of DUT%d: %s; %s' % (d, what, text), data)
    pc = np.array([popcount(h, sel.fit[d]) for h in cand['hit_flag']], int)
    f = pc >= (max(3, sel.least[d]) if method == 'kalman' else 2)
    mask = sum(1 << e for e in sel.hit[d])
    s = f & (pc >= sel.least[d]) & ((cand['hit_flag'] & np.uint32(mask)) == mask)
    if got is None or not len(got):
        if (keep and len(cand)) or (s.any() and not (most and most < len(np.unique(cand['event_number'][s])))):
            bad('rows', 'no tracks although %d candidates are selected' % s.sum())
        return
    rows = np.arange(len(cand)) if keep else np.flatnonzero(s)
    if most and not keep:
        # whole events of a subset
        ev = np.unique(got['event_number'])
        if len(ev) > most or not np.isin(ev, cand['event_number'][s]).all():
            bad('max_events', 'events %s, at most %d of %s expected' % (ev.tolist(), most, np.unique(cand['event_number'][s]).tolist()))
            return
        rows = np.flatnonzero(s & np.isin(cand['event_number'], ev))
    if len(got) != len(rows):
        bad('rows', '%d rows, %d expected' % (len(got), len(rows)))
        return
    for k in cand.dtype.names:
        if not np.array_equal(got[k], cand[k][rows], equal_nan=True):
            bad('candidates', 'column %s is %s, the candidates have %s' % (k, got[k].tolist(), cand[k][rows].tolist()))
            return
    fr = np.flatnonzero(f)
    lines = {}
    for i in fr:
        pts = np.array([to_global(conf[e], [cand['%s_dut_%d' % (x, e)][i] for x in 'xyz']) for e in sorted(sel.fit[d]) if not np.isnan(cand['x_dut_%d' % e][i])])
        lines[i] = least_squares(pts)
    est = {}
    chi = {}
    if method == 'kalman':
        tel = ta.Telescope(telescope_of(data, o))
        for i in fr:
            # the track on its own
            h = np.full((1, n, 6), np.nan)
            for e in range(n):
                h[0, e] = [cand['%s_dut_%d' % (x, e)][i] for x in ('x', 'y', 'z', 'x_err', 'y_err', 'z_err')]
            r = ta._fit_tracks_kalman_loop(track_hits=h, telescope=tel, select_fit_duts=sorted(sel.fit[d]), beam_energy=2500.0, particle_mass=0.511, scattering_planes=None, alpha=np.ones(n))
            for e in range(n):
                est[i, e] = np.array([r[0][0, e, 0], r[0][0, e, 1], 0.0]), np.array([r[1][0, e, 0], r[1][0, e, 1], 1.0])
            chi[i] = r[2][0], r[3][0], r[4][0]
    else:
        for i in fr:
            o_, s_ = lines[i]
            for e in range(n):
                nrm = np_rot(conf[e]['rotation_alpha'], conf[e]['rotation_beta'], conf[e]['rotation_gamma'])[:, 2]
                p = np.array([conf[e]['translation_x'], conf[e]['translation_y'], conf[e]['translation_z']])
                g = o_ + s_ * (nrm.dot(p - o_) / nrm.dot(s_))
                u = local(conf[e], s_, False)
                est[i, e] = local(conf[e], g, True), (u if u[2] >= 0 else -u) / np.linalg.norm(u)
            c = 0.0
            for e in sorted(sel.fit[d]):
                if not np.isnan(cand['x_dut_%d' % e][i]):
                    c += sum((cand['%s_dut_%d' % (x, e)][i] - est[i, e][0][j]) ** 2 / float(cand['%s_err_dut_%d' % (x, e)][i]) ** 2 for j, x in enumerate('xy'))
            chi[i] = c, None, 0.0

    def value(k, j, want, tol):
        v = got[k][j]
        if np.isnan(want) and np.isnan(v) or abs(v - want) <= tol:
            return True
        bad('column ' + k.split('_dut')[0], '%s of row %d (candidate %d) is %r, expected %r' % (k, j, rows[j], v, want))
        return False
    near = {}
    for e in range(n):
        px, py = [np.array([est[i, e][0][q] for i in fr]) for q in (0, 1)]
        mx, my = idist[e] if idist[e] is not None else (0.0, 0.0)
        wide = qd[e] is None or (qd[e][0] >= 2.5 * conf[e]['column_size'] and qd[e][1] >= 2.5 * conf[e]['row_size'])
        near['track', e] = near_flags(cand['event_number'][fr], px, py, mx, my, True)
        near['hit', e] = near_flags(cand['event_number'], cand['x_dut_%d' % e], cand['y_dut_%d' % e], mx, my, wide)
    pos = {i: q for q, i in enumerate(fr)}
    for j, i in enumerate(rows):
        if i not in pos:
            for k in ['offset_x', 'offset_y', 'offset_z', 'slope_x', 'slope_y', 'slope_z', 'track_chi2', 'track_chi_red', 'track_chi_prob']:
                if not value(k, j, np.nan, 0):
                    return
            for k in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
                if got[k][j] != 0:
                    bad('flags', '%s of row %d, which is not fitted, is %d' % (k, j, got[k][j]))
                    return
            continue
        items = [('', d)] + ([('_dut_%d' % e, e) for e in range(n)] if full else [])
        for suffix, e in items:
            for q, x in enumerate('xyz'):
                if not value('offset_%s%s' % (x, suffix), j, est[i, e][0][q], 1e-3) or not value('slope_%s%s' % (x, suffix), j, est[i, e][1][q], 1e-6):
                    return
        scale = max(1.0, abs(chi[i][0]))
        if not value('track_chi2', j, chi[i][0], 1e-5 * scale):
            return
        if method == 'kalman':
            for k, v in (('track_chi_red', chi[i][1]), ('track_chi_prob', chi[i][2])):
                if np.isfinite(v) and not value(k, j, v, 1e-5 * max(1.0, abs(v))):
                    return
        elif pc[i] > 2 and chi[i][0] > 1e-6:
            if not value('track_chi_red', j, chi[i][0] / (2 * (pc[i] - 2)), 1e-5 * scale):
                return
        for e in range(n):
            hx, hy = cand['x_dut_%d' % e][i], cand['y_dut_%d' % e][i]
            rx, ry = hx - est[i, e][0][0], hy - est[i, e][0][1]
            q, sure = not np.isnan(hx), True
            if q:
                if limits:
                    q = conf[e]['x_limit'][0] <= hx <= conf[e]['x_limit'][1] and conf[e]['y_limit'][0] <= hy <= conf[e]['y_limit'][1]
                if qd[e] is not None:
                    qx, qy = qd[e]
                    if qx >= 2.5 * conf[e]['column_size'] and qy >= 2.5 * conf[e]['row_size']:
                        z = (rx / qx) ** 2 + (ry / qy) ** 2
                        q, sure = q and z <= 1, abs(z - 1) > 1e-6
                    else:
                        q, sure = q and abs(rx) <= qx and abs(ry) <= qy, abs(abs(rx) - qx) > 1e-3 and abs(abs(ry) - qy) > 1e-3
            tr, ts = near['track', e]
            hi, hs = near['hit', e]
            for k, w, ok in (('quality_flag', q, sure), ('isolated_track_flag', not tr[pos[i]], ts[pos[i]]), ('isolated_hit_flag', not hi[i], hs[i])):
                if ok and bool((int(got[k][j]) >> e) & 1) != bool(w):
                    bad(k, 'bit %d of %s of row %d (candidate %d) is %d, expected %d' % (e, k, j, i, (int(got[k][j]) >> e) & 1, w))
                    return
        for k in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
            if int(got[k][j]) >> n:
                bad(k, '%s of row %d is %d' % (k, j, got[k][j]))
                return


def telescope_of(data, o):
    p = os.path.join(o.scratch, 'kalman')
    os.makedirs(p, exist_ok=True)
    return telescope_file(p, data['telescope'])
