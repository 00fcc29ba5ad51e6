"""C16 Kalman extrapolation stays on the track line; its Jacobian is the exact derivative."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised
from contracts.geo import spec_rot, tr, np_rot, mat_vec

KF = 'beam_telescope_analysis/tools/kalman.py'
K = 'beam_telescope_analysis.tools.kalman'
TRACK = ('x', 'y', 'dx', 'dy')


def diff(t, v):
    """derivative of a term built from + - * / with respect to the variable v"""
    if t.eq(v):
        return z3.RealVal(1)
    if not symx.mentions(t, v):
        return z3.RealVal(0)
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum([diff(x, v) for x in ch])
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], v)
        for x in ch[1:]:
            r = r - diff(x, v)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -diff(ch[0], v)
    if k == z3.Z3_OP_MUL:
        s = z3.RealVal(0)
        for i, x in enumerate(ch):
            d = diff(x, v)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                continue
            for j, y in enumerate(ch):
                if j != i:
                    d = d * y
            s = s + d
        return s
    if k == z3.Z3_OP_DIV:
        n, d = ch
        if not symx.mentions(d, v):
            return diff(n, v) / d
        return (diff(n, v) * d - n * diff(d, v)) / (d * d)
    raise symx.Unsupported('derivative of %s' % t.decl())


def rowmat(m):
    d = np.empty((1, 3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            d[0, i, j] = m[i][j]
    return A(d, [symx.Dom('rows'), None, None], 'f')


def inputs(c):
    st = c.arr('track', ('n', 4))
    p, q = c.arr('pos', ('n', 3)), c.arr('target', ('n', 3))
    R = spec_rot(*[c.real('own_' + a, 'rows') for a in ('alpha', 'beta', 'gamma')])
    T = spec_rot(*[c.real('target_' + a, 'rows') for a in ('alpha', 'beta', 'gamma')])
    return st, p, q, R, T


def target_dir(st, R, T):
    d = [st.d[0, 2], st.d[0, 3], symx.lift(1.0)]
    return mat_vec(tr(T), mat_vec(R, d))


def extrapolate():
    def run(c):
        k = Loader().module(K)
        st, p, q, R, T = inputs(c)
        c.assume(target_dir(st, R, T)[2].r != 0)         # the track is not parallel to the target plane
        r = call(k._extrapolate_state, st, p, q, rowmat(R), rowmat(T))
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        r = [r.d[0, i] for i in range(4)]
        x = [st.d[0, 0], st.d[0, 1], symx.lift(0.0)]
        d = [st.d[0, 2], st.d[0, 3], symx.lift(1.0)]
        gp = [a + p.d[0, i] for i, a in enumerate(mat_vec(R, x))]
        gd = mat_vec(R, d)
        # the line in the coordinates of the target
        lp = mat_vec(tr(T), [gp[i] - q.d[0, i] for i in range(3)])
        ld = mat_vec(tr(T), gd)
        for i in range(2):
            c.eq('point on the line and on the target plane %d' % i, r[i], lp[i] - lp[2] * ld[i] / ld[2])
            c.eq('same direction %d' % i, r[2 + i], ld[i] / ld[2])
    return explore('extrapolation', KF, run)


def jacobian():
    def run(c):
        k = Loader().module(K)
        st, p, q, R, T = inputs(c)
        c.assume(target_dir(st, R, T)[2].r != 0)
        r = call(k._extrapolate_state, st, p, q, rowmat(R), rowmat(T))
        J = call(k._calculate_track_jacobian, st, p, q, rowmat(tr(R)), rowmat(tr(T)))
        if isinstance(r, Raised) or isinstance(J, Raised):
            c.goal('no error', False)
            return
        c.goal('one matrix per track', J.shape[1:] == (4, 4) and J.gen[0] is not None)
        for i in range(4):
            for j in range(4):
                c.eq('derivative of %s by %s' % (TRACK[i], TRACK[j]), J.d[0, i, j], S(diff(r.d[0, i].r, st.d[0, j].r)))
    return explore('Jacobian', KF, run)


SYM = [('extrapolation', KF + ':_extrapolate_state, _mat_mul, _vec_mul, _mat_trans, _vec_vec_mul', extrapolate),
       ('Jacobian', KF + ':_calculate_track_jacobian, _extrapolate_state', jacobian)]


def o_extrapolate(o):
    np_ = o.np
    k = o.mod('tools.kalman')
    while o.more():
        n = int(o.rng.integers(0, 5))
        st = np_.column_stack([o.rng.normal(0, 1e3, (n, 2)), o.rng.normal(0, 0.3 if o.rng.random() < .7 else 10 ** o.rng.uniform(-6, 1), (n, 2))])
        a, b = [o.rng.uniform(-1, 1, 3) if o.rng.random() < 0.7 else o.rng.choice([0., np.pi, np.pi / 4], 3) for _ in range(2)]
        R, T = np_rot(*a), np_rot(*b)
        p, q = o.rng.normal(0, 1e3, 3), o.rng.normal(0, 1e3, 3)
        data = dict(state=st, angles=a, target_angles=b, position=p, target=q)
        til = lambda m: np_.tile(m, (n,) + (1,) * m.ndim)
        d = np_.column_stack([st[:, 2:], np_.ones(n)])
        ld = d.dot(R.T).dot(T)
        if n and np_.abs(ld[:, 2]).min() < 0.05:
            continue
        keep = st.copy()
        r = k._extrapolate_state(st, til(p), til(q), til(R), til(T))
        o.check((keep == st).all(), 'input', 'track state changed', data)
        x = np_.column_stack([st[:, :2], np_.zeros(n)])
        lp = (x.dot(R.T) + p - q).dot(T)
        ref = np_.column_stack([lp[:, :2] - lp[:, 2:] * ld[:, :2] / ld[:, 2:], ld[:, :2] / ld[:, 2:]])
        o.check(r.shape == (n, 4) and np_.allclose(r, ref, rtol=1e-9, atol=1e-6), 'extrapolation', 'state %s instead of %s' % (r, ref), data)
        J = k._calculate_track_jacobian(st, til(p), til(q), til(R.T.copy()), til(T.T.copy()))
        o.check(J.shape == (n, 4, 4), 'shape', 'Jacobian shape', data)
        Rn = T.T.dot(R)
        x0 = R.T.dot(q - p)
        for i in range(n):
            av, bv = Rn.dot(x[i] - x0), Rn.dot(d[i])
            ref = np_.zeros((4, 4))
            for c_ in range(2):
                for v in range(2):
                    g = (Rn[c_, v] * bv[2] - bv[c_] * Rn[2, v]) / bv[2] ** 2
                    ref[c_, v] = Rn[c_, v] - Rn[2, v] * bv[c_] / bv[2]
                    ref[c_, 2 + v] = -av[2] * g
                    ref[2 + c_, 2 + v] = g
            o.check(np_.allclose(J[i], ref, rtol=1e-9, atol=1e-6), 'jacobian', 'Jacobian %s instead of %s' % (J[i], ref), data)
        o.count('tracks', n > 0, data['angles'])


ORACLE = [('extrapolation', o_extrapolate)]
BUDGET = 15
TRUSTED = ['numba compiles the functions with the semantics of the Python text (jit decorator replaced by the identity for the proof; the bounded check runs the compiled code)',
           'numpy column_stack, zeros, ones as the element-wise formulas in vf/symx.py']
ASSUME = ['real arithmetic', 'the track is not parallel to the target plane', 'rotation matrices are those of rotation_matrix (C10)']
LEVEL = 'proof'
