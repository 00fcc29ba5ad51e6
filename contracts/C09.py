"""C09 pixel index and local position map onto each other and stay in the sensor."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import NAMES6

DUT = 'beam_telescope_analysis/telescope/dut.py'
TOL = z3.Q(10001, 10 ** 12)
# documented pixel pitch and matrix size of the detector types
TYPES = dict(FEI4=(250.0, 50.0, 80, 336), RD53A=(50.0, 50.0, 400, 192), RD53A_8x8=(50.0, 50.0, 400, 192), ITkPix=(50.0, 50.0, 400, 384),
             ITkPix_8x8=(50.0, 50.0, 400, 384), TJMonopix1=(40.0, 36.0, 112, 224), TJMonopix1_2x2=(40.0, 36.0, 112, 224), PSI46=(150.0, 100.0, 52, 80),
             Mimosa26=(18.4, 18.4, 1152, 576), DepfetH5z85=(50.0, 85.0, 64, 64), DepfetH5z55=(50.0, 55.0, 64, 64),
             Diamond3DpCVD=(250.0, 50.0, 80, 336), DiamondPseudo3DpCVD=(250.0, 50.0, 80, 336))
GENERIC = ('RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns')
# the pixels of the diamond sensors are bonded to bumps elsewhere: positions differ from the matrix
REMAPPED = ('Diamond3DpCVD', 'DiamondPseudo3DpCVD')


def make(m, c, cls):
    kw = {n: 0.0 for n in NAMES6}
    if cls in GENERIC:
        cs, rs, nc, nr = c.real('column_size'), c.real('row_size'), c.int('n_columns'), c.int('n_rows')
        for v in (cs, rs):
            c.assume(v.t > 0)
        for v in (nc, nr):
            c.assume(v.t >= 1)
        d = getattr(m, cls)(name='dut', column_size=cs, row_size=rs, n_columns=nc, n_rows=nr, **kw)
        return d, (cs, rs, nc, nr)
    if cls in REMAPPED:
        kw['sensor_position'] = (5, 7)
    d = getattr(m, cls)(name='dut', **kw)
    return d, tuple(symx.lift(v) for v in TYPES[cls])


def attributes(cls):
    def run(c):
        m = Loader().module('beam_telescope_analysis.telescope.dut')
        d, (cs, rs, nc, nr) = make(m, c, cls)
        for nm, u, v in (('column size', d.column_size, cs), ('row size', d.row_size, rs), ('number of columns', d.n_columns, nc), ('number of rows', d.n_rows, nr)):
            c.goal('%s' % nm, symx.lnum(u).r == v.r)
        c.goal('pixel size', z3.And(symx.lnum(d.pixel_size[0]).r == cs.r, symx.lnum(d.pixel_size[1]).r == rs.r))
        c.goal('number of pixels', z3.And(symx.lnum(d.n_pixel[0]).r == nc.r, symx.lnum(d.n_pixel[1]).r == nr.r))
        for nm, f, s, k in (('x', d.x_extent, cs, nc), ('y', d.y_extent, rs, nr)):
            r = call(f)
            if isinstance(r, Raised):
                c.goal('no error in the %s extent' % nm, False)
                continue
            half = s * k * symx.lift(0.5)
            c.eq('lower %s edge' % nm, r[0], -half)
            c.eq('upper %s edge' % nm, r[1], half)
        r = call(d.z_extent)
        c.goal('no error in the z extent', not isinstance(r, Raised))
        c.eq('z extent', [r[0], r[1]], [symx.lift(0.0)] * 2)
    return explore('attributes and extents of %s' % cls, DUT, run)


def inside(col, row, nc, nr):
    h = z3.Q(1, 2)
    return z3.And(col.r >= h, col.r <= nc.r + h, row.r >= h, row.r <= nr.r + h)


def forward(cls, kind):
    def run(c):
        m = Loader().module('beam_telescope_analysis.telescope.dut')
        d, (cs, rs, nc, nr) = make(m, c, cls)
        col, row = c.arr('column', ('n',), kind=kind), c.arr('row', ('n',), kind=kind)
        C, R = symx.lnum(col.d[0]), symx.lnum(row.d[0])
        r = call(d.index_to_local_position, col, row)
        if isinstance(r, Raised):
            c.goal('error only for an index outside the matrix', c.exists_row(z3.Not(inside(C, R, nc, nr))))
            return
        c.goal('an index outside the matrix is rejected', inside(C, R, nc, nr))
        half = symx.lift(0.5)
        c.eq('x is the pixel centre', r[0].d[0], cs * (C - half) - cs * nc * half)
        c.eq('y is the pixel centre', r[1].d[0], rs * (R - half) - rs * nr * half)
        c.eq('z is zero', r[2].d[0], symx.lift(0.0))
        c.eq('column not changed', col.d[0], C)
        c.eq('row not changed', row.d[0], R)
        b = call(d.local_position_to_index, *r)
        if isinstance(b, Raised):
            c.goal('the position of a valid index is accepted', False)
            return
        c.eq('column comes back', b[0].d[0], C)
        c.eq('row comes back', b[1].d[0], R)
    return explore('index to position and back %s %s' % (cls, kind), DUT, run)


def backward(cls, z):
    def run(c):
        m = Loader().module('beam_telescope_analysis.telescope.dut')
        d, (cs, rs, nc, nr) = make(m, c, cls)
        x, y = c.arr('x', ('n',)), c.arr('y', ('n',))
        zz = c.arr('z', ('n',)) if z else None
        X, Y = symx.lnum(x.d[0]), symx.lnum(y.d[0])
        h = z3.Q(1, 2)
        ok = z3.And(X.r >= -h * (nc.r * cs.r), X.r <= h * (nc.r * cs.r), Y.r >= -h * (nr.r * rs.r), Y.r <= h * (nr.r * rs.r))
        flat = z3.BoolVal(True) if zz is None else zz.d[0].r == 0
        r = call(d.local_position_to_index, x, y) if zz is None else call(d.local_position_to_index, x, y, zz)
        if isinstance(r, Raised):
            c.goal('error only for a position outside the sensor', c.exists_row(z3.Not(z3.And(ok, flat))))
            return
        # products of constants are rounded by Python itself; the edge is exact for the generic classes
        e = z3.RealVal(0) if cls in GENERIC else z3.Q(1, 10 ** 9)
        near = z3.And(X.r >= -h * (nc.r * cs.r) - e, X.r <= h * (nc.r * cs.r) + e, Y.r >= -h * (nr.r * rs.r) - e, Y.r <= h * (nr.r * rs.r) + e)
        c.goal('a position outside the matrix is rejected', near)
        if zz is not None:
            c.goal('a position off the plane is rejected', z3.And(zz.d[0].r <= TOL, zz.d[0].r >= -TOL))
        half = symx.lift(0.5)
        col = X / cs + half + nc * half
        row = Y / rs + half + nr * half
        c.eq('column', r[0].d[0], col)
        c.eq('row', r[1].d[0], row)
        c.eq('x not changed', x.d[0], X)
        c.eq('y not changed', y.d[0], Y)
    return explore('position to index %s %s' % (cls, 'with z' if z else ''), DUT, run)


def chained(cls):
    """global conversions are the local ones followed by the alignment"""
    def run(c):
        m = Loader().module('beam_telescope_analysis.telescope.dut')
        d, _ = make(m, c, cls)
        kw = {n: c.real('given_' + n) for n in NAMES6}
        col, row = c.arr('column', ('n',)), c.arr('row', ('n',))
        x, y, z = c.arr('x', ('n',)), c.arr('y', ('n',)), c.arr('z', ('n',))
        u, v, w = c.arr('u', ('n',)), c.arr('v', ('n',)), c.arr('w', ('n',))
        seen = []
        K = type(d)
        K.index_to_local_position = lambda self, column, row: (seen.append(('i2l', column, row)), (x, y, z))[1]
        K.local_to_global_position = lambda self, x, y, z=None, **k: (seen.append(('l2g', x, y, z, k)), (u, v, w))[1]
        K.global_to_local_position = lambda self, x, y, z, **k: (seen.append(('g2l', x, y, z, k)), (u, v, w))[1]
        K.local_position_to_index = lambda self, x, y, z=None: (seen.append(('l2i', x, y, z)), (col, row))[1]
        r = call(d.index_to_global_position, col, row, **kw)
        same = lambda p, q: all(a is b for a, b in zip(p, q))
        c.goal('index to global', len(seen) == 2 and seen[0][0] == 'i2l' and same(seen[0][1:], (col, row)) and seen[1][0] == 'l2g' and same(seen[1][1:4], (x, y, z))
               and set(seen[1][4]) == set(kw) and all(seen[1][4][n] is kw[n] for n in kw) and same(r, (u, v, w)))
        del seen[:]
        r = call(d.global_position_to_index, x, y, z, **kw)
        c.goal('global to index', len(seen) == 2 and seen[0][0] == 'g2l' and same(seen[0][1:4], (x, y, z)) and seen[1][0] == 'l2i' and same(seen[1][1:], (u, v, w))
               and set(seen[0][4]) == set(kw) and all(seen[0][4][n] is kw[n] for n in kw) and same(r, (col, row)))
    return explore('global index conversion %s' % cls, DUT, run)


SYM = []
for k_ in GENERIC + tuple(TYPES):
    SYM.append(('attributes %s' % k_, DUT + ':%s' % k_, (lambda k_=k_: attributes(k_))))
    if k_ not in REMAPPED:
        for kd in 'fi':
            SYM.append(('forward %s %s' % (k_, kd), DUT + ':%s.index_to_local_position' % k_, (lambda k_=k_, kd=kd: forward(k_, kd))))
    for z_ in (False, True):
        SYM.append(('backward %s %s' % (k_, z_), DUT + ':%s.local_position_to_index' % k_, (lambda k_=k_, z_=z_: backward(k_, z_))))
    SYM.append(('chained %s' % k_, DUT + ':%s.index_to_global_position, global_position_to_index' % k_, (lambda k_=k_: chained(k_))))


# ---- bounded evaluation on the real classes
def real_dut(o, cls, align=False):
    m = o.mod('telescope.dut')
    r = o.rng
    kw = {n: float(r.normal()) if align else 0.0 for n in NAMES6}
    if cls in GENERIC:
        p = (float(r.choice([10., 18.4, 50., 250., 33.3, 1. / 3])), float(r.choice([10., 18.4, 50., 250., 0.1])), int(r.integers(1, 40)), int(r.integers(1, 40)))
        d = getattr(m, cls)(name='d', column_size=p[0], row_size=p[1], n_columns=p[2], n_rows=p[3], **kw)
    else:
        if cls in REMAPPED:
            kw['sensor_position'] = (int(r.integers(1, 60)), int(r.integers(1, 250)))
        p = TYPES[cls]
        d = getattr(m, cls)(name='d', **kw)
    return d, p


def raises(f, *a):
    try:
        f(*a)
    except (ValueError, RuntimeError):
        return True
    return False


def o_index(o):
    classes = GENERIC + tuple(TYPES)
    i = 0
    while o.more():
        cls = classes[i % len(classes)]
        i += 1
        d, (cs, rs, nc, nr) = real_dut(o, cls)
        what = dict(detector=cls, pixel=(cs, rs), matrix=(nc, nr))
        o.check((d.column_size, d.row_size, d.n_columns, d.n_rows) == (cs, rs, nc, nr), 'attributes', '%s has pixel %s x %s, matrix %s x %s' % (cls, d.column_size, d.row_size, d.n_columns, d.n_rows), what)
        o.check(np.allclose(d.x_extent(), (-cs * nc / 2, cs * nc / 2), rtol=1e-12) and np.allclose(d.y_extent(), (-rs * nr / 2, rs * nr / 2), rtol=1e-12) and tuple(d.z_extent()) == (0., 0.),
                'extents', '%s has extents %s %s' % (cls, d.x_extent(), d.y_extent()), what)
        n = int(o.rng.integers(1, 6))
        for kind in range(4):
            if kind == 0:
                col, row = o.rng.integers(1, nc + 1, n), o.rng.integers(1, nr + 1, n)
            elif kind == 1:
                col, row = o.rng.uniform(0.5, nc + 0.5, n), o.rng.uniform(0.5, nr + 0.5, n)
            elif kind == 2:
                col, row = o.rng.choice([0.5, 1, nc, nc + 0.5], n), o.rng.choice([0.5, 1, nr, nr + 0.5], n)
            else:
                col, row = [float(v) for v in o.rng.integers(1, nc + 1, n)], [float(v) for v in o.rng.integers(1, nr + 1, n)]
            data = dict(what, column=col, row=row)
            x, y, z = d.index_to_local_position(col, row)
            o.check(np.all(z == 0), 'z', 'z is not zero', data)
            if cls not in REMAPPED:
                o.check(np.allclose(x, (np.array(col) - .5 - .5 * nc) * cs, rtol=1e-9, atol=1e-9) and np.allclose(y, (np.array(row) - .5 - .5 * nr) * rs, rtol=1e-9, atol=1e-9), 'centre', 'pixel centre %s %s' % (x, y), data)
                c2, r2 = d.local_position_to_index(x, y, z)
                o.check(np.allclose(c2, col, rtol=1e-9, atol=1e-9) and np.allclose(r2, row, rtol=1e-9, atol=1e-9), 'back', 'index comes back as %s %s' % (c2, r2), data)
                px, py = o.rng.uniform(-.5, .5, n) * nc * cs, o.rng.uniform(-.5, .5, n) * nr * rs
                c2, r2 = d.local_position_to_index(px, py)
                o.check(np.allclose(c2, px / cs + .5 + .5 * nc, rtol=1e-9, atol=1e-9) and np.allclose(r2, py / rs + .5 + .5 * nr, rtol=1e-9, atol=1e-9), 'position', 'index of a position', dict(what, x=px, y=py))
        # just outside
        good = (float(o.rng.integers(1, nc + 1)), float(o.rng.integers(1, nr + 1)))
        for c_, r_ in ((np.nextafter(.5, 0), good[1]), (np.nextafter(nc + .5, np.inf), good[1]), (good[0], np.nextafter(.5, 0)), (good[0], np.nextafter(nr + .5, np.inf)),
                       (-3., good[1]), (nc + 7., good[1]), (good[0], 0.), (good[0], nr + 1.)):
            a, b = np.array([good[0], c_, good[0]]), np.array([good[1], r_, good[1]])
            o.check(raises(d.index_to_local_position, a, b), 'index-range', '%s accepts the index %r %r' % (cls, c_, r_), dict(what, column=a, row=b))
        ex, ey = .5 * nc * cs, .5 * nr * rs
        for x_, y_ in ((np.nextafter(-ex, -np.inf), 0.), (np.nextafter(ex, np.inf), 0.), (0., np.nextafter(-ey, -np.inf)), (0., np.nextafter(ey, np.inf)), (ex + cs, 0.), (0., -ey - rs)):
            a, b = np.array([0., x_, 0.]), np.array([0., y_, 0.])
            o.check(raises(d.local_position_to_index, a, b), 'position-range', '%s accepts the position %r %r' % (cls, x_, y_), dict(what, x=a, y=b))
        o.check(raises(d.local_position_to_index, np.zeros(2), np.zeros(2), np.array([0., 1.])), 'plane', '%s accepts a position off the plane' % cls, what)
        # through the global frame
        d, _ = real_dut(o, cls, True)
        if cls not in REMAPPED:
            good = [float(d.n_columns), float(d.n_rows)]
            g = d.index_to_global_position(np.array([good[0], 1.]), np.array([good[1], 1.]))
            c2, r2 = d.global_position_to_index(*g)
            o.check(np.allclose(c2, [good[0], 1.], atol=1e-6) and np.allclose(r2, [good[1], 1.], atol=1e-6), 'global', 'index comes back as %s %s through the global frame' % (c2, r2), what)
        o.count(cls, True, what)


def o_diamond(o):
    """index 2, 3 of the 3D diamond sensor"""
    for cls in REMAPPED:
        m = o.mod('telescope.dut')
        d = getattr(m, cls)(name='d', sensor_position=(5, 7), **{n: 0.0 for n in NAMES6})
        x, y, z = d.index_to_local_position(np.array([2.]), np.array([3.]))
        c2, r2 = d.local_position_to_index(x, y, z)
        o.check(np.allclose([c2[0], r2[0]], [2., 3.]), 'diamond-back-2-3', '%s: index (2, 3) comes back as (%s, %s)' % (cls, c2[0], r2[0]), dict(detector=cls, column=2, row=3))


ORACLE = [('index and position', o_index), ('diamond sensors', o_diamond)]
BUDGET = 12
TRUSTED = ['numpy comparison, logical_and, all and element-wise arithmetic as modelled in vf/symx.py']
ASSUME = ['real arithmetic (the bounded evaluation tests the representable neighbours of every edge)', 'positive pixel size, at least one column and row', 'indices and positions are numbers (not nan)']
BOUNDED = ['index positions of Diamond3DpCVD and DiamondPseudo3DpCVD: only range checks and extents (their pixel map is not the matrix; see the known finding)']
LEVEL = 'proof'
