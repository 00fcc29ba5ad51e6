"""C11 line-plane intersections lie on the line and on the plane."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import spec_rot, tr, np_rot, sval, mat_vec

GEO = 'beam_telescope_analysis/tools/geometry_utils.py'
G = 'beam_telescope_analysis.tools.geometry_utils'


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def spec(c, r, o, d, p, n, tag=''):
    """contract of one line: nan exactly when parallel, otherwise p = o + t d with n (p - pos) = 0, t = n (pos - o) / (n d)"""
    nd, no = dot3(n, d), dot3(n, [p[i] - o[i] for i in range(3)])
    par = nd.t == 0
    for i in range(3):
        nn_ = z3.BoolVal(False) if r[i].n is None else r[i].n
        c.goal('%snan exactly for a parallel line %d' % (tag, i), nn_ == par)
    if c.decide(par):
        return
    for i in range(3):
        c.eq('%son the line %d' % (tag, i), (r[i] - o[i]) * nd, no * d[i])
        c.eq('%son the line, as a point %d' % (tag, i), S(r[i].t), o[i] + d[i] * (no / nd))
    c.eq('%son the plane' % tag, dot3(n, [S(r[i].t) - p[i] for i in range(3)]), symx.lift(0.0))


def rows3(a):
    return [a.d[0, i] for i in range(3)]


def plane():
    def run(c):
        g = Loader().module(G)
        o, d = c.arr('o', ('n', 3)), c.arr('d', ('n', 3))
        p, n = c.arr('p', (3,)), c.arr('nv', (3,))
        r = call(g.get_line_intersections_with_plane, o, d, p, n)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.goal('one point per line', len(r.shape) == 2 and r.shape[1] == 3 and r.gen[0] is not None)
        spec(c, rows3(r), rows3(o), rows3(d), list(p.d), list(n.d))
    return explore('intersection with plane', GEO, run)


def dut():
    def run(c):
        g = Loader().module(G)
        o, d = c.arr('o', ('n', 3)), c.arr('d', ('n', 3))
        t = [c.real('t%d' % i) for i in range(3)]
        a = [c.real(x) for x in ('alpha', 'beta', 'gamma')]
        r = call(g.get_line_intersections_with_dut, o, d, *t, *a)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        R = spec_rot(*a)
        n = [R[i][2] for i in range(3)]      # local z axis in global coordinates
        spec(c, rows3(r), rows3(o), rows3(d), t, n)
    return explore('intersection with detector', GEO, run)


SYM = [('plane', GEO + ':get_line_intersections_with_plane', plane),
       ('detector', GEO + ':get_line_intersections_with_dut', dut)]


def o_lines(o):
    np_ = o.np
    g = o.mod('tools.geometry_utils')
    while o.more():
        n = int(o.rng.integers(0, 6))
        org, d = o.rng.normal(0, 1e4, (n, 3)), o.rng.normal(0, 1, (n, 3))
        if o.rng.random() < 0.5:
            d[:, 2] = 1.0
            d[:, :2] *= 1e-3
        if o.rng.random() < 0.5:        # directions of any length
            d *= 10 ** o.rng.uniform(-12, 6, (n, 1))
        pos = o.rng.normal(0, 1e4, 3)
        usedut = o.rng.random() < 0.5
        if usedut:
            ang = [float(o.rng.choice([0., np.pi, np.pi / 2, o.rng.uniform(-4, 4)])) for _ in range(3)]
            R = np_rot(*ang)
            nrm = R[:, 2]
        else:
            nrm = o.rng.normal(0, 1, 3) if o.rng.random() < 0.5 else np_.array([0., 0., 1.])[o.rng.permutation(3)]
        par = np_.zeros(n, dtype=bool)
        axis = np_.flatnonzero(np_.abs(nrm) > 1e-3)
        for j in range(n):      # exactly parallel lines where the arithmetic is exact
            if o.rng.random() < 0.4 and not usedut and np_.count_nonzero(nrm) == 1:
                d[j, axis[0]] = 0.0
                par[j] = True
            elif o.rng.random() < 0.4 and usedut and all(a == 0 for a in ang):
                d[j, 2] = 0.0
                par[j] = True
        data = dict(origins=org, directions=d, position=pos, normal=nrm)
        c1, c2 = org.copy(), d.copy()
        try:
            if usedut:
                data['angles'] = ang
                r = g.get_line_intersections_with_dut(org, d, *pos, *ang)
            else:
                r = g.get_line_intersections_with_plane(org, d, pos, nrm)
        except Exception as ex:
            o.fail('error', 'an error: %r' % ex, data)
        o.check((c1 == org).all() and (c2 == d).all(), 'input', 'input changed', data)
        o.check(r.shape == (n, 3), 'shape', 'shape %s' % (r.shape,), data)
        for j in range(n):
            nd = nrm.dot(d[j])
            if par[j]:
                o.check(np_.isnan(r[j]).all(), 'parallel', 'parallel line %d gives %s' % (j, r[j]), data)
                continue
            if abs(nd) < 1e-6 * np_.linalg.norm(d[j]):
                if not np_.count_nonzero(nrm) == 1:
                    continue
            t = nrm.dot(pos - org[j]) / nd
            tol = 1e-9 * (1 + np_.abs(t * d[j]).max() + np_.abs(org[j]).max()) / (abs(nd) / np_.linalg.norm(d[j]))
            o.check(np_.abs(r[j] - (org[j] + t * d[j])).max() < tol, 'point', 'line %d: %s instead of %s' % (j, r[j], org[j] + t * d[j]), data)
        o.count('lines', n > 0, (pos, nrm))


ORACLE = [('lines', o_lines)]
BUDGET = 10
TRUSTED = ['numpy dot, masked assignment and broadcasting as the element-wise formulas in vf/symx.py']
ASSUME = ['real arithmetic: a line counts as parallel when the product of direction and normal is exactly 0']
LEVEL = 'proof'
