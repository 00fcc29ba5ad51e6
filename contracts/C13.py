"""C13 in-pixel positions are congruent to the position and inside the cell."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import NAMES6
from contracts import C09

DUT = C09.DUT
TOL = C09.TOL
CELLS = {k: (1, 1) for k in C09.GENERIC + tuple(C09.TYPES)}
CELLS.update(RectangularPixelDutWithDoubleColumns=(2, 1), FEI4=(2, 1), PSI46=(2, 1), Diamond3DpCVD=(2, 1), DiamondPseudo3DpCVD=(2, 1),
             RD53A_8x8=(8, 8), ITkPix_8x8=(8, 8), TJMonopix1_2x2=(2, 2))


def unit(t, size):
    """the term with the pixel size set to one"""
    return z3.substitute(t, (size.t, z3.RealVal(1)))


def congruent(c, nm, dist, r, size, mult):
    """dist - r is a whole number of cells"""
    d = dist.r - r.r
    if size.c is not None:
        K = d / z3.Q((size.c * mult).numerator, (size.c * mult).denominator)
        c.goal('%s differs from the distance to the edge by whole cells' % nm, z3.IsInt(K))
        return
    K = unit(d, size) / z3.RealVal(mult)
    c.eq('%s and distance to the edge: difference is a number of cells' % nm, S(d), S(K) * size * symx.lift(float(mult)))
    c.goal('%s differs from the distance to the edge by whole cells' % nm, z3.IsInt(K))


def cell(cls, z):
    def run(c):
        m = Loader().module('beam_telescope_analysis.telescope.dut')
        d, (cs, rs, nc, nr) = C09.make(m, c, cls)
        if cls in C09.REMAPPED:
            # extents by the contract of x_extent, y_extent (property C09)
            e = [nc * cs * symx.lift(.5), nr * rs * symx.lift(.5)]
            type(d).x_extent = lambda self, global_position=False: (-e[0], e[0])
            type(d).y_extent = lambda self, global_position=False: (-e[1], e[1])
        x, y = c.arr('x', ('n',)), c.arr('y', ('n',))
        zz = c.arr('z', ('n',)) if z else None
        X, Y = S(x.d[0].t), S(y.d[0].t)
        r = call(d.map_to_primitive_cell, x, y) if zz is None else call(d.map_to_primitive_cell, x, y, zz)
        if isinstance(r, Raised):
            c.goal('error only for a position off the plane', z and c.exists_row(zz.d[0].r != 0))
            return
        if z:
            c.goal('a position off the plane is rejected', z3.And(zz.d[0].r <= TOL, zz.d[0].r >= -TOL))
        half = symx.lift(.5)
        for nm, u, v, s, k, mult in (('x', r[0], X, cs, nc, CELLS[cls][0]), ('y', r[1], Y, rs, nr, CELLS[cls][1])):
            w = symx.lnum(u.d[0])
            c.goal('%s is a number' % nm, True if w.n is None else z3.Not(w.n))
            c.goal('%s is not negative' % nm, w.r >= 0)
            c.goal('%s is inside the cell' % nm, w.r < (s * symx.lift(float(mult))).r)
            congruent(c, nm, v + s * k * half, w, s, mult)
        c.eq('x not changed', x.d[0], X)
        c.eq('y not changed', y.d[0], Y)
    return explore('primitive cell of %s %s' % (cls, 'with z' if z else ''), DUT, run)


SYM = []
for k_ in CELLS:
    for z_ in (False, True):
        SYM.append(('cell %s %s' % (k_, z_), DUT + ':%s.map_to_primitive_cell' % k_, (lambda k_=k_, z_=z_: cell(k_, z_))))


def o_cell(o):
    classes = tuple(CELLS)
    i = 0
    while o.more():
        cls = classes[i % len(classes)]
        i += 1
        d, (cs, rs, nc, nr) = C09.real_dut(o, cls)
        n = int(o.rng.integers(1, 8))
        w = float(o.rng.choice([1., 1.5, 3.]))
        x, y = o.rng.uniform(-.5, .5, n) * nc * cs * w, o.rng.uniform(-.5, .5, n) * nr * rs * w
        if o.rng.random() < .3:
            x, y = (o.rng.integers(0, nc + 1, n) - .5 * nc) * cs, (o.rng.integers(0, nr + 1, n) - .5 * nr) * rs
        data = dict(detector=cls, pixel=(cs, rs), matrix=(nc, nr), x=x, y=y)
        kx, ky = x.copy(), y.copy()
        u, v = d.map_to_primitive_cell(x, y) if o.rng.random() < .5 else d.map_to_primitive_cell(x, y, np.zeros(n))
        o.check(np.array_equal(x, kx) and np.array_equal(y, ky), 'input', 'input changed', data)
        for nm, p, q, s, k, mult in (('x', u, x, cs, nc, CELLS[cls][0]), ('y', v, y, rs, nr, CELLS[cls][1])):
            L = s * mult
            o.check(p.shape == (n,) and np.all(p >= 0) and np.all(p <= L), 'inside', '%s: in-pixel %s %s outside [0, %s)' % (cls, nm, p, L), data)
            t = (q + .5 * k * s - p) / L
            o.check(np.allclose(t, np.round(t), rtol=0, atol=1e-6), 'congruent', '%s: in-pixel %s %s for the position %s' % (cls, nm, p, q), data)
        o.check(C09.raises(d.map_to_primitive_cell, np.zeros(2), np.zeros(2), np.array([0., 1.])), 'plane', '%s accepts a position off the plane' % cls, data)
        o.count(cls, True, data['matrix'])


ORACLE = [('primitive cell', o_cell)]
BUDGET = 10
TRUSTED = ['numpy.mod(a, b) = a - b floor(a / b)']
ASSUME = ['real arithmetic', 'positive pixel size, at least one column and row', 'positions are numbers (not nan)',
          'the cell sizes of the detector types are those of the class documentation: a pixel, two columns for double column sensors, 8 x 8 and 2 x 2 pixels for the types named so']
LEVEL = 'proof'
