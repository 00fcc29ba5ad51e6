"""C10 rotation matrices are proper rotations; Euler angles recover them."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import spec_rot, tr, np_rot, sc

GEO = 'beam_telescope_analysis/tools/geometry_utils.py'
G = 'beam_telescope_analysis.tools.geometry_utils'


def angles(c):
    return [c.real(n) for n in ('alpha', 'beta', 'gamma')]


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), symx.lift(0.0)) for j in range(3)] for i in range(3)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def eye():
    return [[symx.lift(float(i == j)) for j in range(3)] for i in range(3)]


def axes():
    def run(c):
        g = Loader().module(G)
        al, be, ga = angles(c)
        z = symx.lift(0.0)
        for nm, f, arg, spec in (('x', g.rotation_matrix_x, al, (al, z, z)), ('y', g.rotation_matrix_y, be, (z, be, z)), ('z', g.rotation_matrix_z, ga, (z, z, ga))):
            m = call(f, arg)
            c.eq('rotation about %s' % nm, m, spec_rot(*spec))
    return explore('axis rotations', GEO, run)


def matrix():
    def run(c):
        g = Loader().module(G)
        al, be, ga = angles(c)
        m = call(g.rotation_matrix, al, be, ga)
        c.eq('rotation about x, then y, then z', m, spec_rot(al, be, ga))
        rows = [[m[i, j] for j in range(3)] for i in range(3)]
        z = symx.lift(0.0)
        c.eq('product of the axis rotations', m, mul(spec_rot(z, z, ga), mul(spec_rot(z, be, z), spec_rot(al, z, z))))
        c.eq('transposed times matrix is the identity', mul(tr(rows), rows), eye())
        c.eq('matrix times transposed is the identity', mul(rows, tr(rows)), eye())
        c.eq('determinant one', det3(rows), symx.lift(1.0))
    return explore('rotation matrix', GEO, run)


def cof(m):
    return [[m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]


def rot_entries(c):
    return [[c.real('r_%d_%d' % (i, j)) for j in range(3)] for i in range(3)]


def lemma():
    """a matrix with transposed times matrix = 1 and determinant 1 equals its cofactor matrix, and matrix times transposed = 1"""
    def run(c):
        m = rot_entries(c)
        E = [[mul(tr(m), m)[i][j] - eye()[i][j] for j in range(3)] for i in range(3)]
        C = cof(m)
        d = det3(m)
        CE = mul(C, E)
        for i in range(3):
            for j in range(3):
                # C + C (R^T R - 1) = (C R^T) R = det R
                c.eq('cofactor identity %d%d' % (i, j), C[i][j] + CE[i][j], d * m[i][j])
        c.eq('cofactor matrix times transposed', mul(C, tr(m)), [[d * eye()[i][j] for j in range(3)] for i in range(3)])
    return explore('lemma: rotations equal their cofactor matrix', GEO, run)


def polar(c, t, k, y, x, facts):
    """sin t k == y and cos t k == x for the angle t = atan2(Y, X), when x^2 + y^2 == k^2 follows from the facts"""
    if not (z3.is_app(t.r) and t.r.decl().name() == 'atan2'):
        return c.prove('sine of %s' % t.r, symx.SIN(t.r) * k == y), c.prove('cosine of %s' % t.r, symx.COS(t.r) * k == x)
    Y, X = t.r.arg(0), t.r.arg(1)
    sub = [] if z3.is_rational_value(k) else [k]
    a = [c.prove('second argument of atan2', Y * k == y, using=facts, abstract=sub), c.prove('first argument of atan2', X * k == x, using=facts, abstract=sub)]
    u = c.prove('unit vector', Y * Y + X * X == 1, using=facts + a, abstract=sub + [v for v in (Y, X) if not z3.is_const(v)])
    h = c.prove('length one', symx.HYP(Y, X) == 1, using=[u, *c.definition(symx.HYP(Y, X))], abstract=[symx.HYP(Y, X)] + [v for v in (Y, X) if not z3.is_const(v)])
    sf, cf_ = c.definition(t.r)
    return (c.prove('sine', symx.SIN(t.r) * k == y, using=[h, sf, a[0]], abstract=[symx.SIN(t.r), symx.HYP(Y, X)] + sub),
            c.prove('cosine', symx.COS(t.r) * k == x, using=[h, cf_, a[1]], abstract=[symx.COS(t.r), symx.HYP(Y, X)] + sub))


def euler():
    def run(c):
        g = Loader().module(G)
        m = rot_entries(c)
        TT, T2, C = mul(tr(m), m), mul(m, tr(m)), cof(m)
        col = {(i, j): c.assume(TT[i][j].r == (1 if i == j else 0)) for i in range(3) for j in range(3)}
        row = {(i, j): c.assume(T2[i][j].r == (1 if i == j else 0)) for i in range(3) for j in range(3)}      # by the lemma
        cf = {(i, j): c.assume(C[i][j].r == m[i][j].r) for i in range(3) for j in range(3)}                    # by the lemma
        c.name_products = True
        R_ = A(np.array(m, dtype=object))
        r = call(g.euler_angles, R_)
        if isinstance(r, Raised):
            c.goal('a rotation is accepted', False)
            return
        a, b, gam = [symx.lnum(x) for x in r]
        (sa, ca), (sb, cb), (sg, cg) = sc(a), sc(b), sc(gam)
        M = [[x.r for x in row] for row in m]
        # away from the window in which the code treats beta as pi/2 the matrix is reproduced exactly, at pi/2 as well
        cb2 = M[0][0] * M[0][0] + M[1][0] * M[1][0]
        lock = c.decide(cb2 == 0)
        if not lock and not c.decide(cb2 > z3.Q(1, 10 ** 14)):
            return
        h1 = c.prove('sin beta', sb.r == -M[2][0])
        if lock:
            zero = [c.prove('%s is zero' % x, x == 0, using=[c.path[-1]]) for x in (M[0][0], M[1][0])]
            hb = c.prove('cos beta', cb.r == 0)
            hg = [c.prove('sin gamma', sg.r == 0), c.prove('cos gamma', cg.r == 1)]
            one = c.prove('sin beta is 1 or -1', z3.Or(sb.r == 1, sb.r == -1))
            unit = c.prove('first row', M[0][1] * M[0][1] + M[0][2] * M[0][2] == 1, using=[zero[0], row[0, 0]])
            ha = polar(c, a, symx.lift(1.0).r, sb.r * M[0][1], sb.r * M[0][2], [unit, one])
            lk = zero + [hb, one, h1] + hg + list(ha)
        else:
            h2 = c.prove('cos beta', cb.r * cb.r == cb2, using=[h1, col[0, 0]])
            h3 = c.prove('cos beta not zero', cb.r != 0, using=[h2] + c.path)
            e = {}
            e['sin gamma'], e['cos gamma'] = polar(c, gam, cb.r, M[1][0], M[0][0], [h2, h3])
            l2 = c.combine('last row', cb.r * cb.r == M[2][1] * M[2][1] + M[2][2] * M[2][2], [(symx.lift(1.0).r, h2), (symx.lift(1.0).r, col[0, 0]), (symx.lift(-1.0).r, row[2, 2])])
            e['sin alpha'], e['cos alpha'] = polar(c, a, cb.r, M[2][1], M[2][2], [l2, h3])
        s = spec_rot(a, b, gam)
        for i in range(3):
            for j in range(3):
                if lock:
                    c.prove('entry %d%d reproduced' % (i, j), s[i][j].r == M[i][j], using=lk + [col[0, 0], row[i, i], cf[i, j]], abstract=[x.r for x in (sa, ca, sb, cb, sg, cg)])
                elif i == 2 or j == 0:
                    c.prove('entry %d%d reproduced' % (i, j), s[i][j].r == M[i][j], using=[h1] + list(e.values()), abstract=[x.r for x in (sa, ca, sb, cb, sg, cg)])
                else:
                    # multiply by cos^2 beta, replace the products by the entries, then use orthogonality and the cofactor
                    sn, cs = (sg, M[1][0], e['sin gamma']), (cg, M[0][0], e['cos gamma'])
                    P, Q = (cs, sn) if i == 0 else (sn, cs)
                    sn, cs = (sa, M[2][1], e['sin alpha']), (ca, M[2][2], e['cos alpha'])
                    F, Fo = (sn, cs) if j == 1 else (cs, sn)
                    sgn = -1 if (i, j) in ((0, 1), (1, 2)) else 1
                    p, q, f = P[1], Q[1], F[1]
                    d = s[i][j].r - M[i][j]
                    k = c.combine('entry %d%d times cos^2 beta' % (i, j), d * (cb.r * cb.r) == 0,
                                  [(F[0].r * cb.r * sb.r, P[2]), (p * sb.r, F[2]), (p * f, h1), (sgn * Fo[0].r * cb.r, Q[2]), (sgn * q, Fo[2]),
                                   (-p, col[0, j]), (-sgn * q, cf[2, 3 - j]), (-M[i][j], h2)])
                    c.prove('entry %d%d difference' % (i, j), d == 0, using=[k, h3], abstract=[d, cb.r])
                    c.prove('entry %d%d reproduced' % (i, j), s[i][j].r == M[i][j], using=[c.facts[-1]], abstract=[s[i][j].r])
    return explore('Euler angles', GEO, run)


def reject(case):
    def run(c):
        g = Loader().module(G)
        m = rot_entries(c)
        R_ = A(np.array(m, dtype=object))
        c.name_products = 'only'        # nothing but the names of the entries of R^T R - 1 is needed
        P = symx.NP.dot(R_.T, R_)
        d = symx.NP.linalg.det(R_)
        c.eq('determinant', d, det3(m))
        if case is None:
            c.assume(d.r <= 0)
        else:
            i, j = case
            e = (P[i, j] - float(i == j)).r
            c.assume(z3.Or(e > z3.Q(1, 10 ** 7), e < -z3.Q(1, 10 ** 7)))
            c.prove('square', e * e > z3.Q(1, 10 ** 14))
        n0 = c.counter.get('product', 0)
        r = call(g.euler_angles, R_)
        if c.counter.get('product', 0) > n0:
            raise symx.Unsupported('another way to test for a rotation')
        c.goal('rejected with a ValueError', isinstance(r, Raised) and isinstance(r.ex, ValueError))
    return explore('Euler angles rejected (%s)' % ('determinant' if case is None else 'entry %d %d' % case), GEO, run)


SYM = [('axis rotations', GEO + ':rotation_matrix_x, rotation_matrix_y, rotation_matrix_z', axes),
       ('rotation matrix', GEO + ':rotation_matrix', matrix),
       ('lemma', 'lemma over real 3x3 matrices', lemma),
       ('Euler angles', GEO + ':euler_angles', euler),
       ] + [('rejection %s' % (k,), GEO + ':euler_angles', (lambda k=k: reject(k))) for k in [None] + [(i, j) for i in range(3) for j in range(3)]]


def o_rot(o):
    np_ = o.np
    g = o.mod('tools.geometry_utils')
    sp = [0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, np.pi / 4, 2 * np.pi, 3 * np.pi / 2, 1e-9, -1e-9, np.pi / 2 - 1e-9, np.pi / 2 + 1e-7, -np.pi / 2 + 1e-6, 1e-17, np.pi / 2 - 1e-5]

    def one(a):
        return float(o.rng.choice(sp)) if o.rng.random() < 0.5 else float(o.rng.uniform(-7, 7))
    while o.more():
        a = [one(0), one(1), one(2)]
        data = dict(angles=a)
        m = g.rotation_matrix(*a)
        o.check(np_.abs(m - np_rot(*a)).max() < 1e-13, 'matrix', 'rotation_matrix differs from Rz Ry Rx', data)
        o.check(np_.abs(g.rotation_matrix_x(a[0]) - np_rot(a[0], 0, 0)).max() < 1e-13 and np_.abs(g.rotation_matrix_y(a[1]) - np_rot(0, a[1], 0)).max() < 1e-13
                and np_.abs(g.rotation_matrix_z(a[2]) - np_rot(0, 0, a[2])).max() < 1e-13, 'axis', 'rotation about one axis is wrong', data)
        try:
            e = g.euler_angles(np_rot(*a))
        except ValueError as ex:
            o.fail('euler', 'rotation refused: %s' % ex, data)
        o.check(np_.isfinite(e).all() and np_.abs(np_rot(*e) - np_rot(*a)).max() < 3e-8, 'euler', 'Euler angles %s do not reproduce the matrix' % (list(e),), data)
        bad = np_rot(*a)
        w = int(o.rng.integers(0, 4))
        if w == 0:
            bad = bad * (1 + o.rng.choice([-1, 1]) * 10 ** o.rng.uniform(-6, 0.3))
        elif w == 1:
            bad = np_.diag([1., 1., -1.])[list(o.rng.permutation(3))].dot(bad)
            if np_.linalg.det(bad) > 0:
                bad = -bad
        elif w == 2:
            bad[int(o.rng.integers(0, 3)), int(o.rng.integers(0, 3))] += 10 ** o.rng.uniform(-5, 1)
        else:
            bad = o.rng.normal(0, 1, (3, 3))
        if np_.linalg.norm(bad.T.dot(bad) - np_.eye(3)) > 1e-7 or np_.linalg.det(bad) < 0:
            try:
                g.euler_angles(bad)
                o.fail('reject', 'a matrix that is no rotation is accepted', dict(matrix=bad))
            except ValueError:
                pass
        o.count('rotation', True, a)


ORACLE = [('rotations', o_rot)]
BUDGET = 10
TRUSTED = ['numpy dot, multi_dot, norm, det, isclose as the element-wise formulas in vf/symx.py',
           'sin, cos and arctan2 by their defining equations (sin^2+cos^2=1; atan2(y,x) is the polar angle of (x,y))']
ASSUME = ['real arithmetic; the snapping of angles within the machine epsilon of 0 to 0 is left out (executed by the bounded check only)',
          'a matrix counts as a rotation when |1 - R^T R| <= 1e-8 and det R > 0 (tolerance of the code); the inverse statement is proved for deviations above 1e-7',
          'for 0 < cos(beta) < 1e-7 the matrix is reproduced up to the gimbal-lock window of the code only (bounded check: 3e-8)']
LEVEL = 'proof'
