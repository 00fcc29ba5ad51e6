"""C23 Track angles are invariant under scaling and match the track direction."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, NP, Loader, explore, call, Raised
from contracts.geo import spec_rot, np_rot

F = 'beam_telescope_analysis/result_analysis.py'
M = 'beam_telescope_analysis.result_analysis'


def col(v):
    return A(np.array(v, dtype=object), None, 'f')


def frame(c, kind):
    """right-handed orthonormal frame: yz-plane normal, xz-plane normal, detector normal"""
    if kind == 'axes':
        one, nil = symx.lift(1.0), symx.lift(0.0)
        return [[one, nil, nil], [nil, one, nil], [nil, nil, one]]
    m = spec_rot(*[c.real(n) for n in ('alpha', 'beta', 'gamma')])
    return [[m[i][k] for i in range(3)] for k in range(3)]


def app(t, name):
    f = symx.subterms(t, name)
    if len(f) != 1 or not f[0].eq(t):
        raise symx.Unsupported('angle without %s' % name)
    return f[0]


def angles(kind):
    def run(c):
        m = Loader().module(M)
        ex, ey, ez = frame(c, kind)
        s = c.arr('slope', ('n', 3))
        d = [s.d[0, i] for i in range(3)]
        flip = d[2] < 0
        if flip:                                   # the track runs in the positive z direction
            d = [-x for x in d]
        dot = lambda u, v: sum((p * q for p, q in zip(u, v)), symx.lift(0.0))
        x, y, z = dot(d, ex), dot(d, ey), dot(d, ez)
        # not along a plane normal: both projections exist
        c.assume((y * y + z * z).r > 0)
        c.assume((x * x + z * z).r > 0)
        c.assume(dot(d, d).r > 0)
        if kind != 'axes':
            # the frame splits the length of the track (orthonormal rows)
            c.eq('length in the frame', x * x + y * y + z * z, dot(d, d))
            c.fact((x * x + y * y + z * z).r == dot(d, d).r)
        r = call(m.get_angles, s.copy(), col(ey), col(ex), col(ez))
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        total, alpha, beta = [symx.lnum(v.d.flat[0]) for v in r]
        for nm, v in (('total', total), ('alpha', alpha), ('beta', beta)):
            c.goal('%s is defined' % nm, True if v.n is None else z3.Not(v.n))
        for nm, v, num, den in (('alpha', alpha, y, z), ('beta', beta, -x, z)):
            t = app(v.r, 'atan2')
            Y, X = t.arg(0), t.arg(1)
            c.goal('%s along the projected track' % nm, Y * den.r == X * num.r)
            c.goal('%s not reversed' % nm, Y * num.r + X * den.r > 0)
        t = app(total.r, 'acos').arg(0)
        c.goal('total angle: cosine', t * t * dot(d, d).r == z.r * z.r)
        c.goal('total angle: sign', z3.And(z3.Implies(z.r >= 0, t >= 0), z3.Implies(z.r <= 0, t <= 0)))
    return explore('angles, %s' % kind, F, run)


def scale():
    """a positive or negative multiple of the direction gives the same angles"""
    def run(c):
        m = Loader().module(M)
        ex, ey, ez = frame(c, 'axes')
        s = c.arr('slope', ('n', 3))
        k = c.real('factor')
        c.assume(k.r != 0)
        d = [s.d[0, i] for i in range(3)]
        c.assume(d[2].r != 0)
        a = call(m.get_angles, s.copy(), col(ey), col(ex), col(ez))
        b = call(m.get_angles, s * k, col(ey), col(ex), col(ez))
        if isinstance(a, Raised) or isinstance(b, Raised):
            c.goal('no error', False)
            return
        for nm, u, v in zip(('alpha', 'beta'), a[1:], b[1:]):
            t, w = app(symx.lnum(u.d.flat[0]).r, 'atan2'), app(symx.lnum(v.d.flat[0]).r, 'atan2')
            c.goal('%s: same line' % nm, t.arg(0) * w.arg(1) == w.arg(0) * t.arg(1))
            c.goal('%s: same direction' % nm, t.arg(0) * w.arg(0) + t.arg(1) * w.arg(1) > 0)
        t, w = [app(symx.lnum(u[0].d.flat[0]).r, 'acos').arg(0) for u in (a, b)]
        c.goal('total: same cosine', t * t == w * w)
        c.goal('total: same side', t * w > 0)
    return explore('scaling', F, run)


SYM = [('angles', F + ':get_angles', lambda: angles('axes')), ('scaling', F + ':get_angles', scale)]


def o_angles(o):
    np_ = o.np
    m = o.mod('result_analysis')
    while o.more():
        n = int(o.rng.integers(1, 6))
        s = o.rng.normal(0, 1, (n, 3))
        if o.rng.random() < 0.5:
            s[:, :2] *= 1e-3
        if o.rng.random() < 0.3:
            s[:, int(o.rng.integers(0, 2))] = 0.0
        axes = o.rng.random() < 0.6
        f = np_.eye(3) if axes else np_rot(*o.rng.uniform(-0.8, 0.8, 3)).T
        d = np_.where(s[:, 2:] < 0, -s, s)
        x, y, z = d.dot(f[0]), d.dot(f[1]), d.dot(f[2])
        if min(np_.abs(z).min(), (y * y + z * z).min(), (x * x + z * z).min()) < 1e-9:
            continue
        k = 10 ** o.rng.uniform(-9, 9, (n, 1)) * o.rng.choice([1., -1.], (n, 1))
        data = dict(slopes=s, frame=f, factors=k)
        a = m.get_angles(s.copy(), f[1].copy(), f[0].copy(), f[2].copy())
        b = m.get_angles(s * k, f[1].copy(), f[0].copy(), f[2].copy())
        tot = np_.arctan2(np_.sqrt(x * x + y * y), z)
        for nm, g, want in (('total', a[0], tot), ('alpha', a[1], np_.arctan2(y, z)), ('beta', a[2], np_.arctan2(-x, z))):
            bad = ~(np_.abs(np_.ravel(g) - want) < 1e-6)
            if nm == 'total':
                bad &= ~((tot < 1e-6) & np_.isnan(g))          # rounding
            o.check(np_.shape(np_.ravel(g)) == (n,) and not bad.any(), nm, '%s angles %s instead of %s' % (nm, g, want), data)
        for nm, g, h in zip(('total', 'alpha', 'beta'), a, b):
            bad = ~(np_.abs(np_.ravel(g) - np_.ravel(h)) < 1e-6) & (tot > 1e-6)
            o.check(not bad.any(), 'scaling', '%s angles %s, of the scaled directions %s' % (nm, g, h), data)
        o.count('axes' if axes else 'other frames', bool((s[:, 2] < 0).any()), data)


ORACLE = [('angles', o_angles)]
BUDGET = 12
TRUSTED = ['arccos and arctan2: the angle of a direction depends on the direction alone', 'numpy einsum, matmul, inner, cross as the element-wise formulas in vf/symx.py']
ASSUME = ['real arithmetic', 'the track is not parallel to one of the plane normals', 'tracks run in the positive z direction of the frame (the function reverses the others)']
BOUNDED = ['detector frames other than the coordinate axes (every call in the code passes the axes): random frames']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source, obligations discharged by polynomial identities and z3'
LEVEL_NOTE = 'proved for the frame that all callers use; other frames bounded'
EXPLANATION = 'get_angles runs symbolically for arbitrary directions; numerator and denominator of the two projected angles point along the projected track, the cosine of the total angle is the normalised component along the normal.'
