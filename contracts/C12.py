"""C12 cartesian and spherical coordinates convert back and forth."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised, PI
from contracts.geo import sval

GEO = 'beam_telescope_analysis/tools/geometry_utils.py'
G = 'beam_telescope_analysis.tools.geometry_utils'


def forward():
    def run(c):
        g = Loader().module(G)
        x, y, z = (c.arr(n, ('n',)) for n in 'xyz')
        r = call(g.cartesian_to_spherical, x, y, z)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        phi, theta, rad = [sval(v) for v in r]
        for nm, v in (('phi', phi), ('theta', theta), ('radius', rad)):
            c.goal('%s is a number' % nm, z3.BoolVal(True) if v.n is None else z3.Not(v.n))
        X, Y, Z = [sval(v).t for v in (x, y, z)]
        r1 = c.prove('radius not negative', rad.r >= 0)
        r2 = c.prove('radius is the length', rad.r * rad.r == X * X + Y * Y + Z * Z)
        c.prove('phi in [0, 2 pi)', z3.And(phi.r >= 0, phi.r < 2 * PI))
        c.prove('theta in [0, pi]', z3.And(theta.r >= 0, theta.r <= PI))
        # and back
        b = call(g.spherical_to_cartesian, *r)
        if isinstance(b, Raised):
            c.goal('own result accepted', False)
            return
        rs = symx.SIN(theta.r) * rad.r
        hz = c.prove('z component', symx.COS(theta.r) * rad.r == Z, using=[r1, r2], abstract=[rad.r])
        hs = c.prove('transverse length not negative', rs >= 0)
        one = symx.SIN(theta.r) * symx.SIN(theta.r) + symx.COS(theta.r) * symx.COS(theta.r) == 1
        c.fact(one)
        hp = c.prove('transverse length', rs * rs == X * X + Y * Y, using=[r2, hz, one], abstract=[symx.SIN(theta.r), symx.COS(theta.r), rad.r])
        sp, cp = symx.SIN(phi.r), symx.COS(phi.r)
        at = symx.subterms(phi.r, 'atan2')
        if len(at) == 1 and at[0].arg(0).eq(Y) and at[0].arg(1).eq(X):
            rho = symx.HYP(Y, X)
            d0, d1 = c.definition(rho)
            e = c.prove('length of the transverse part', rho == rs, using=[hs, hp, d0, d1], abstract=[rho, rs])
            f0, f1 = c.definition(at[0])
            turn = c.prove('phi is the polar angle', z3.If(z3.And(X == 0, Y == 0), phi.r == 0, z3.Or(phi.r == at[0], phi.r == at[0] + 2 * PI)))
            org = c.prove('no transverse part', z3.Implies(z3.And(X == 0, Y == 0), rs == 0), using=[hp], abstract=[rs])
            same = c.prove('same direction', z3.Or(z3.And(X == 0, Y == 0), z3.And(sp == symx.SIN(at[0]), cp == symx.COS(at[0]))), using=[turn])
            ab = [sp, cp, symx.SIN(at[0]), symx.COS(at[0]), rho, rs]
            c.prove('x direction', cp * rs == X, using=[same, f1, e, org], abstract=ab)
            c.prove('y direction', sp * rs == Y, using=[same, f0, e, org], abstract=ab)
        else:
            c.prove('x direction', cp * rs == X)
            c.prove('y direction', sp * rs == Y)
        for nm, u, v in zip('xyz', b, (x, y, z)):
            c.eq('%s comes back' % nm, sval(u), sval(v))
    return explore('cartesian to spherical and back', GEO, run)


def back():
    def run(c):
        g = Loader().module(G)
        phi, theta, r = (c.arr(n, ('n',)) for n in ('phi', 'theta', 'r'))
        p, t, q = [sval(v).t for v in (phi, theta, r)]
        bad = z3.Or(q < 0, t < 0, t > PI, p < 0, p >= 2 * PI)
        b = call(g.spherical_to_cartesian, phi, theta, r)
        if isinstance(b, Raised):
            c.goal('rejected only outside of the ranges', c.exists_row(bad))
            return
        c.goal('rejected outside of the ranges', z3.Not(bad))
        c.eq('x', sval(b[0]), S(q * symx.COS(p) * symx.SIN(t)))
        c.eq('y', sval(b[1]), S(q * symx.SIN(p) * symx.SIN(t)))
        c.eq('z', sval(b[2]), S(q * symx.COS(t)))
    return explore('spherical to cartesian', GEO, run)


SYM = [('spherical to cartesian', GEO + ':spherical_to_cartesian', back),
       ('cartesian to spherical', GEO + ':cartesian_to_spherical', forward)]


def o_spherical(o):
    np_ = o.np
    g = o.mod('tools.geometry_utils')
    while o.more():
        n = int(o.rng.integers(0, 8))
        p = o.rng.normal(0, 1, (n, 3)) * 10 ** (o.rng.uniform(-3, 5) if o.rng.random() < .6 else o.rng.uniform(-30, 30))
        for j in range(n):
            for k in range(3):
                u = o.rng.random()
                if u < 0.25:
                    p[j, k] = 0.0
                elif u < 0.3:
                    p[j, k] = -0.0
                elif u < 0.35:
                    p[j, k] = o.rng.choice([-1, 1]) * 1e-20
        x, y, z = p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy()
        data = dict(points=p)
        try:
            phi, theta, r = g.cartesian_to_spherical(x, y, z)
            o.check((r >= 0).all() and np_.allclose(r, np_.sqrt((p ** 2).sum(1)), rtol=1e-12), 'radius', 'radius %s' % r, data)
            o.check((phi >= 0).all() and (phi < 2 * np_.pi).all(), 'phi', 'phi %s' % phi, data)
            o.check((theta >= 0).all() and (theta <= np_.pi).all(), 'theta', 'theta %s' % theta, data)
            q = np_.array(g.spherical_to_cartesian(phi, theta, r)).T.reshape(n, 3)
        except Exception as ex:
            if type(ex).__name__ == 'Failure':
                raise
            o.fail('error', 'error %r' % ex, data)
        o.check((np_.abs(q - p).max(axis=1, initial=0) <= 1e-7 * np_.abs(r)).all(), 'round trip', 'comes back as %s' % q, data)
        o.check((x == p[:, 0]).all() and (y == p[:, 1]).all() and (z == p[:, 2]).all(), 'input', 'input changed', data)
        if n:
            phi, theta, r = o.rng.uniform(0, 6.28, n), o.rng.uniform(0, np_.pi, n), o.rng.uniform(0, 10, n)
            theta[o.rng.random(n) < 0.2] = np_.pi
            theta[o.rng.random(n) < 0.2] = 0.0
            q = np_.array(g.spherical_to_cartesian(phi, theta, r))
            ref = np_.array([r * np_.cos(phi) * np_.sin(theta), r * np_.sin(phi) * np_.sin(theta), r * np_.cos(theta)])
            o.check(np_.allclose(q, ref, rtol=1e-12, atol=1e-9), 'spherical', 'spherical_to_cartesian wrong', dict(phi=phi, theta=theta, r=r))
            j, w = int(o.rng.integers(0, n)), int(o.rng.integers(0, 5))
            e = 10 ** o.rng.uniform(-9, 0)
            if w == 0:
                phi[j] = -e
            elif w == 1:
                phi[j] = 2 * np_.pi + o.rng.choice([0., e])
            elif w == 2:
                theta[j] = -e
            elif w == 3:
                theta[j] = np_.pi + e
            else:
                r[j] = -e
            try:
                g.spherical_to_cartesian(phi, theta, r)
                o.fail('range', 'coordinates outside of the ranges accepted', dict(phi=phi, theta=theta, r=r))
            except RuntimeError:
                pass
        o.count('points', n > 0, p)


ORACLE = [('points', o_spherical)]
BUDGET = 10
TRUSTED = ['sin, cos, sqrt, arccos and arctan2 by their defining equations', 'numpy masked assignment as the element-wise formulas in vf/symx.py']
ASSUME = ['real arithmetic; arrays as input']
LEVEL = 'proof'
