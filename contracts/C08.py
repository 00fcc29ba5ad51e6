"""C08 local/global transforms are inverse rigid motions."""
import itertools

import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import spec_rot, mat_vec, tr, sval, NAMES6, np_rot

DUT = 'beam_telescope_analysis/telescope/dut.py'
GEO = 'beam_telescope_analysis/tools/geometry_utils.py'
TOL = z3.Q(10001, 10 ** 12)


def fresh_dut(c):
    L = Loader()
    m = L.module('beam_telescope_analysis.telescope.dut')
    kw = {n: c.real('own_' + n) for n in NAMES6}
    for n in ('own_column_size', 'own_row_size'):
        c.assume(c.real(n).t > 0)
    d = m.RectangularPixelDut(name='dut', column_size=c.real('own_column_size'), row_size=c.real('own_row_size'), n_columns=10, n_rows=20, **kw)
    return d, kw


def matrices():
    def run(c):
        g = Loader().module('beam_telescope_analysis.tools.geometry_utils')
        a = [c.real(n) for n in ('alpha', 'beta', 'gamma')]
        t = [c.real(n) for n in 'xyz']
        R = spec_rot(*a)
        one, zero = symx.lift(1.0), symx.lift(0.0)
        M = call(g.local_to_global_transformation_matrix, t[0], t[1], t[2], *a)
        spec = [R[i] + [t[i]] for i in range(3)] + [[zero, zero, zero, one]]
        c.eq('local to global matrix', M, spec)
        N = call(g.global_to_local_transformation_matrix, t[0], t[1], t[2], *a)
        Rt = tr(R)
        spec = [Rt[i] + [-(Rt[i][0] * t[0] + Rt[i][1] * t[1] + Rt[i][2] * t[2])] for i in range(3)] + [[zero, zero, zero, one]]
        c.eq('global to local matrix', N, spec)
        c.eq('product is the identity', symx.NP.dot(N, M), symx.NP.eye(4))
    return explore('transformation matrices', GEO, run)


def apply():
    def run(c):
        g = Loader().module('beam_telescope_analysis.tools.geometry_utils')
        x, y, z = (c.arr(n, ('n',), nan=True) for n in 'xyz')
        M = c.arr('m', (4, 4))
        r = call(g.apply_transformation_matrix, x, y, z, M)
        v = [sval(x), sval(y), sval(z)]
        for i in range(3):
            c.eq('row %d' % i, sval(r[i]), mat_vec(M.d, v)[i] + M.d[i, 3])
        R = c.arr('r', (3, 3))
        r = call(g.apply_rotation_matrix, x, y, z, R)
        for i in range(3):
            c.eq('rotated row %d' % i, sval(r[i]), mat_vec(R.d, v)[i])
    return explore('apply matrix', GEO, run)


def expect(c, own, given):
    """effective alignment"""
    e = [given.get(n, own[n]) for n in NAMES6]
    return e[:3], spec_rot(*e[3:])


GIVENS = [(), NAMES6] + [(n,) for n in NAMES6] + [tuple(m for m in NAMES6 if m != n) for n in NAMES6] + [NAMES6[:3], NAMES6[3:]]


def l2g(given, zmode):
    def run(c):
        d, own = fresh_dut(c)
        kw = {n: c.real('given_' + n) for n in given}
        x, y = c.arr('x', ('n',), nan=True), c.arr('y', ('n',), nan=True)
        z = c.arr('z', ('n',), nan=True) if zmode == 'z' else None
        r = call(d.local_to_global_position, x, y, z, **kw) if z is not None else call(d.local_to_global_position, x, y, **kw)
        zz = sval(z) if z is not None else symx.lift(0.0)
        t, R = expect(c, own, kw)
        if isinstance(r, Raised):
            c.goal('rejected only if the stored alignment is used', not given and z is not None)
            if z is not None:
                c.goal('rejected only if a position is off the plane', c.exists_row(z3.And(z3.Not(zz.n), zz.t != 0)))
            return
        spec = mat_vec(R, [sval(x), sval(y), zz])
        for i in range(3):
            c.eq('global %s' % 'xyz'[i], sval(r[i]), spec[i] + t[i])
        if z is not None and not given:
            c.goal('positions off the plane are rejected', z3.Or(zz.n, z3.And(zz.t <= TOL, zz.t >= -TOL)))
    return explore('local to global %s %s' % ('stored' if not given else '+'.join(given), zmode), DUT, run)


def g2l(given):
    def run(c):
        d, own = fresh_dut(c)
        kw = {n: c.real('given_' + n) for n in given}
        x, y, z = (c.arr(n, ('n',), nan=True) for n in 'xyz')
        r = call(d.global_to_local_position, x, y, z, **kw)
        t, R = expect(c, own, kw)
        spec = mat_vec(tr(R), [sval(v) - t[i] for i, v in enumerate((x, y, z))])
        if isinstance(r, Raised):
            c.goal('rejected only if the stored alignment is used', not given)
            n = z3.BoolVal(False) if spec[2].n is None else spec[2].n
            c.goal('rejected only if a position is off the plane', c.exists_row(z3.And(z3.Not(n), spec[2].r != 0)))
            return
        for i in range(3):
            c.eq('local %s' % 'xyz'[i], sval(r[i]), spec[i])
        if not given:
            zz = sval(r[2])
            n = z3.BoolVal(False) if zz.n is None else zz.n
            c.goal('positions off the plane are rejected', z3.Or(n, z3.And(zz.r <= TOL, zz.r >= -TOL)))
    return explore('global to local %s' % ('stored' if not given else '+'.join(given)), DUT, run)


def round_trip(given):
    def run(c):
        d, own = fresh_dut(c)
        kw = {n: c.real('given_' + n) for n in given}
        x, y, z = (c.arr(n, ('n',)) for n in 'xyz')
        if not given:
            z = symx.NP.zeros_like(x)
        g = call(d.local_to_global_position, x, y, z, **kw)
        if isinstance(g, Raised):
            c.goal('no rejection', False)
            return
        l = call(d.global_to_local_position, *g, **kw)
        if isinstance(l, Raised):
            return              # excluded by the contract of global_to_local_position: z is 0 there
        for i, v in enumerate((x, y, z)):
            c.eq('there and back %s' % 'xyz'[i], sval(l[i]), sval(v))
        # distances
        p = [c.real('p%d' % i) for i in range(3)]
        q = [c.real('q%d' % i) for i in range(3)]
        if not given:
            p[2] = q[2] = symx.lift(0.0)
        a = call(d.local_to_global_position, [p[0], q[0]], [p[1], q[1]], [p[2], q[2]], **kw)
        if isinstance(a, Raised):
            c.goal('no rejection', False)
            return
        d2 = sum(((v[0] - v[1]) * (v[0] - v[1]) for v in a), symx.lift(0.0))
        c.eq('distance kept local to global', d2, sum(((u - v) * (u - v) for u, v in zip(p, q)), symx.lift(0.0)))
        if given:
            a = call(d.global_to_local_position, [p[0], q[0]], [p[1], q[1]], [p[2], q[2]], **kw)
            d2 = sum(((v[0] - v[1]) * (v[0] - v[1]) for v in a), symx.lift(0.0))
            c.eq('distance kept global to local', d2, sum(((u - v) * (u - v) for u, v in zip(p, q)), symx.lift(0.0)))
            back = call(d.local_to_global_position, *a, **kw)
            for i in range(3):
                c.eq('back and there %d' % i, back[i][0], p[i])
        o = call(d.local_to_global_position, [symx.lift(0.0)], [symx.lift(0.0)], **kw)
        if isinstance(o, Raised):
            c.goal('origin accepted', False)
            return
        t, _ = expect(c, own, kw)
        for i in range(3):
            c.eq('origin maps to the plane position %d' % i, o[i][0], t[i])
    return explore('round trip %s' % ('stored' if not given else 'given'), DUT, run)


SYM = [('transformation matrices', GEO + ':global_to_local_transformation_matrix, local_to_global_transformation_matrix, rotation_matrix, translation_matrix', matrices),
       ('apply matrix', GEO + ':apply_transformation_matrix, apply_rotation_matrix', apply)]
for g in GIVENS:
    nm = '+'.join(g) or 'stored'
    for zm in ('z', 'none'):
        SYM.append(('local to global %s %s' % (nm, zm), DUT + ':RectangularPixelDut.local_to_global_position', (lambda g=g, zm=zm: l2g(g, zm))))
    SYM.append(('global to local %s' % nm, DUT + ':RectangularPixelDut.global_to_local_position', (lambda g=g: g2l(g))))
for g in ((), NAMES6):
    SYM.append(('round trip %s' % ('given' if g else 'stored'), DUT + ':RectangularPixelDut', (lambda g=g: round_trip(g))))


# ---------------------------------------------------------------- bounded evaluation on the real code
def duts(o):
    """one object of every pixel detector class with random alignment"""
    import inspect
    m = o.mod('telescope.dut')
    out = []
    for n, cls in sorted(vars(m).items()):
        if not inspect.isclass(cls) or not issubclass(cls, m.RectangularPixelDut):
            continue
        kw = dict(name=n, translation_x=o.rng.normal(0, 1e3), translation_y=o.rng.normal(0, 1e3), translation_z=o.rng.normal(0, 1e5),
                  rotation_alpha=o.rng.uniform(-4, 4), rotation_beta=o.rng.uniform(-4, 4), rotation_gamma=o.rng.uniform(-4, 4))
        if n.startswith('RectangularPixelDut'):
            kw.update(column_size=o.rng.choice([18.4, 50, 100, 250.]), row_size=o.rng.choice([18.4, 25, 50.]), n_columns=int(o.rng.integers(1, 60)), n_rows=int(o.rng.integers(1, 60)))
        if 'Diamond' in n:
            kw.update(sensor_position=(12, 20))
        out.append(cls(**kw))
    return out


def o_transform(o):
    np_ = o.np
    while o.more():
        for d in duts(o):
            n = int(o.rng.integers(0, 6))
            given = [k for k in NAMES6 if o.rng.random() < 0.4] if o.rng.random() < 0.7 else []
            kw = {k: float(o.rng.normal(0, 2) * (1 if 'rot' in k else 1e3)) for k in given}
            if given and o.rng.random() < 0.4:
                kw[given[0]] = 0.0
            eff = [kw.get(k, getattr(d, k)) for k in NAMES6]
            R, t = np_rot(*eff[3:]), np_.array(eff[:3])
            p = o.rng.normal(0, 5e3 if o.rng.random() < .6 else 10 ** o.rng.uniform(-3, 7), (n, 3))
            if not given:
                p[:, 2] = 0.0
            if n and o.rng.random() < 0.4:
                p[o.rng.integers(0, n), :] = np_.nan
            data = dict(dut=str(d), given=kw, p=p)
            cp = p.copy()
            g = d.local_to_global_position(p[:, 0], p[:, 1], p[:, 2], **kw)
            o.check((p == cp).sum() == (cp == cp).sum(), 'input', 'local_to_global_position changed its input', data)
            ref = p.dot(R.T) + t
            o.check(np_.allclose(np_.array(g).T.reshape(n, 3), ref, rtol=1e-9, atol=1e-8 + 1e-10 * (np_.abs(eff[:3]).max() + np_.nan_to_num(np_.abs(p)).max(initial=0)), equal_nan=True), 'l2g', 'local_to_global_position differs from R p + t', data)
            b = d.global_to_local_position(*g, **kw) if given else None
            if b is not None:
                o.check(np_.allclose(np_.array(b).T.reshape(n, 3), p, rtol=1e-9, atol=1e-8 + 1e-10 * (np_.abs(eff[:3]).max() + np_.nan_to_num(np_.abs(p)).max(initial=0)), equal_nan=True), 'roundtrip', 'global_to_local_position does not invert', data)
            eff0 = [getattr(d, k) for k in NAMES6]
            # without explicit alignment: on-plane positions round trip, off-plane positions are refused
            q = p.copy()
            q[:, 2] = 0.0
            g0 = d.local_to_global_position(q[:, 0], q[:, 1])
            try:
                b0 = d.global_to_local_position(*[v.round(12) for v in g0])
                o.check(np_.allclose(np_.array(b0[:2]).T.reshape(n, 2), q[:, :2], rtol=1e-9, atol=1e-5, equal_nan=True), 'roundtrip0', 'stored alignment does not round trip', data)
            except RuntimeError:
                pass        # rounding above the tolerance
            if n and not np_.isnan(q).any():
                q[int(o.rng.integers(0, n)), 2] = o.rng.choice([-1, 1]) * 10 ** o.rng.uniform(-7.5, 5)
                try:
                    d.local_to_global_position(q[:, 0], q[:, 1], q[:, 2])
                    o.fail('offplane', 'off-plane local position accepted', data)
                except RuntimeError:
                    pass
                kw1 = {o.rng.choice(NAMES6): 0.5}
                d.local_to_global_position(q[:, 0], q[:, 1], q[:, 2], **kw1)
            o.count('transform', n > 0, data['given'])


ORACLE = [('transforms', o_transform)]
BUDGET = 15
TRUSTED = ['numpy linear algebra primitives (dot, column_stack, multi_dot) as the element-wise formulas in vf/symx.py']
ASSUME = ['tolerance: z counts as off the plane when |z| > 1e-8 (numpy.allclose in the code)']
LEVEL = 'proof'
