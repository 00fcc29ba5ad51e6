"""C22 Alignment corrections are applied and weighted exactly."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, NP, SIN, COS, Loader, explore, call, Raised
from contracts.geo import spec_rot, tr, mat_vec, np_rot
from contracts.C16 import diff as diff0
from contracts.C17 import mul, mv, T, add, vadd, inv

F = 'beam_telescope_analysis/dut_alignment.py'
M = 'beam_telescope_analysis.dut_alignment'
PAR = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')


def diff(t, v):
    """derivative with the sine and cosine of the variable itself"""
    if z3.is_app(t) and t.decl().eq(SIN) and t.arg(0).eq(v):
        return COS(v)
    if z3.is_app(t) and t.decl().eq(COS) and t.arg(0).eq(v):
        return -SIN(v)
    return None


def derive(t, vs, v):
    """derivative of t by v where all variables vs are zero"""
    sub = []
    for i, w in enumerate(vs):
        if i > 2:
            sub += [(SIN(w), z3.Real('sin!%d' % i)), (COS(w), z3.Real('cos!%d' % i))]
    k = [i for i, w in enumerate(vs) if w.eq(v)][0]
    t = z3.substitute(t, *sub)
    if k > 2:
        s, co = z3.Real('sin!%d' % k), z3.Real('cos!%d' % k)
        d = diff0(t, s) * co - diff0(t, co) * s
    else:
        d = diff0(t, v)
    zero = [(w, z3.RealVal(0)) for w in vs]
    for i in range(3, 6):
        zero += [(z3.Real('sin!%d' % i), z3.RealVal(0)), (z3.Real('cos!%d' % i), z3.RealVal(1))]
    return z3.simplify(z3.substitute(d, *zero))


def rows2(a):
    return [[a.d[i, j] for j in range(a.d.shape[1])] for i in range(a.d.shape[0])]


def mat(m):
    return A(np.array(m, dtype=object), None, 'f')


def const(c, nm, *shape):
    """array of concrete shape with arbitrary entries"""
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = c.real(nm + '_' + '_'.join(map(str, i)))
    return A(d, None, 'f')


def module():
    m = Loader().module(M)
    return m


def combine():
    def run(c):
        m = module()
        ang = [c.real(n) for n in ('alpha', 'beta', 'gamma')]
        R0 = spec_rot(*ang)
        t0 = const(c, 'position', 3)
        a = const(c, 'correction', 6)
        r = call(m._update_alignment, mat(R0), t0, a)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        R, t = rows2(r[0]), r[1].tolist()
        # the track measures in the detector: delta = rotation by the corrections, from the global to the local side
        D = tr(spec_rot(a.d[3], a.d[4], a.d[5]))
        want = mul(R0, D)
        for i in range(3):
            for j in range(3):
                c.eq('stored rotation times correction %d%d' % (i, j), R[i][j], want[i][j])
            c.eq('shift added %d' % i, t[i], t0.d[i] + a.d[i])
    return explore('composition', F, run)


def proper():
    def run(c):
        m = module()
        R0 = spec_rot(*[c.real(n) for n in ('alpha', 'beta', 'gamma')])
        D = spec_rot(*[c.real('d' + n) for n in ('alpha', 'beta', 'gamma')])
        # any two proper rotations: the product keeps both properties; entries abstract, only orthogonality used
        P, Q = const(c, 'p', 3, 3), const(c, 'q', 3, 3)
        off = const(c, 'shift', 3)
        pos = const(c, 'position', 3)
        r = call(m._combine_karimaki, P, pos, (Q, off))
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        W = rows2(r[0])
        p, q = rows2(P), rows2(Q)
        WW = mul(W, T(W))
        QQ, PP = mul(q, T(q)), mul(p, T(p))
        one = [[S(z3.RealVal(int(i == j))) for j in range(3)] for i in range(3)]
        # W W^T = P (Q Q^T) P^T exactly, so with Q Q^T = 1 it is P P^T = 1
        X = mul(mul(p, QQ), T(p))
        for i in range(3):
            for j in range(3):
                c.eq('product of the two rotations %d%d' % (i, j), WW[i][j], X[i][j])
        c.eq('determinant is the product of the determinants', symx.det_of(r[0].d), symx.det_of(P.d) * symx.det_of(Q.d))
        for nm, m_ in (('stored', R0), ('correction', D)):
            MM = mul(m_, T(m_))
            for i in range(3):
                for j in range(3):
                    c.eq('%s rotation orthogonal %d%d' % (nm, i, j), MM[i][j], one[i][j])
            c.eq('%s rotation proper' % nm, symx.det_of(np.array(m_, dtype=object)), symx.lift(1.0))
    return explore('proper rotation', F, run)


def nothing():
    def run(c):
        m = module()
        P, pos = const(c, 'p', 3, 3), const(c, 'position', 3)
        r = call(m._update_alignment, P, pos, NP.zeros(6))
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.eq('rotation unchanged', rows2(r[0]), rows2(P))
        c.eq('position unchanged', r[1].tolist(), pos.tolist())
    return explore('zero corrections', F, run)


def jacobian():
    def run(c):
        m = module()
        R0 = const(c, 'stored', 3, 3)
        t0 = const(c, 'position', 3)
        p0 = const(c, 'track', 4)
        a = const(c, 'correction', 6)
        R, t = call(m._update_alignment, R0, t0, a)
        R, t, r0 = rows2(R), t.tolist(), rows2(R0)
        # the stored matrix is orthogonal: R0^T R0 = 1
        x = [p0.d[0], p0.d[1], symx.lift(0.0)]
        d = [p0.d[2], p0.d[3], symx.lift(1.0)]
        D = tr(spec_rot(a.d[3], a.d[4], a.d[5]))
        # residual of the global track point in the corrected detector, written with R = R0 D (proved as 'composition')
        # R^T (R0 x + t0 - t) = D^T (x - R0^T da), R^T R0 d = D^T d
        da = mv(T(r0), [a.d[i] for i in range(3)])
        lp = mv(T(D), vadd(x, da, -1))
        ld = mv(T(D), d)
        c.assume(ld[2].r != 0)               # true near zero corrections, where it is 1
        vs = [a.d[i].r for i in range(6)]
        J = call(m._jacobian_alignment, p0, mat(T(r0)))
        if isinstance(J, Raised):
            c.goal('no error', False)
            return
        c.goal('shape', tuple(J.shape) == (2, 6))
        for i in range(2):
            f = lp[i] - lp[2] * ld[i] / ld[2]
            for k in range(6):
                c.eq('derivative of coordinate %d by %s' % (i, PAR[k]), J.d[i, k], S(derive(f.r, vs, vs[k])))
        # the real composition gives these local coordinates
        RT = T(R)
        G = mv(r0, x)
        one = vadd(vadd(G, [t0.d[i] for i in range(3)]), t, -1)
        real = mv(RT, one)
        r0r0 = mul(T(r0), r0)
        ref = mv(T(D), vadd(mv(r0r0, x), da, -1))
        c.eq('local coordinates in the corrected detector', real, ref)
        c.eq('local direction in the corrected detector', mv(RT, mv(r0, d)), mv(T(D), mv(r0r0, d)))
    return explore('alignment Jacobian', F, run)


def update():
    def run(c):
        m = module()
        D = const(c, 'D', 2, 6)
        seen = []

        def jac(p0, R):
            seen.append((p0, R))
            return D
        m._jacobian_alignment = jac
        H, V, C0, E0 = const(c, 'H', 2, 4), const(c, 'V', 2, 2), const(c, 'C', 4, 4), const(c, 'E', 6, 6)
        p0, a0, R, mm = const(c, 'track', 4), const(c, 'a', 6), const(c, 'R', 3, 3), const(c, 'm', 2)
        h, v, c0, e0, d = rows2(H), rows2(V), rows2(C0), rows2(E0), rows2(D)
        Wi = add(add(v, mul(h, mul(c0, T(h)))), mul(d, mul(e0, T(d))))
        c.assume(symx.det_of(np.array(Wi, dtype=object)).r != 0)
        r = call(m._calculate_alignment_parameters, H, V, C0, p0, a0, E0, R, mm)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.goal('Jacobian of this track and this detector', len(seen) == 1 and seen[0][0] is p0 and seen[0][1] is R)
        W = inv(Wi)
        K = mul(mul(e0, T(d)), W)
        c.eq('weighted mean of the parameters', r[0].tolist(), vadd(a0.tolist(), mv(K, vadd(mm.tolist(), mv(h, p0.tolist()), -1))))
        c.eq('covariance of the parameters', rows2(r[1]), add(e0, mul(K, mul(d, T(e0))), -1))
    return explore('update formula', F, run)


def fixed():
    def run(c):
        m = module()
        D = const(c, 'D', 2, 6)
        m._jacobian_alignment = lambda p0, R: D
        H, V, C0, E0 = const(c, 'H', 2, 4), const(c, 'V', 2, 2), const(c, 'C', 4, 4), const(c, 'E', 6, 6)
        k = 0
        while k < 5 and not bool(c.bool('parameter %d is the fixed one' % k)):
            k += 1
        for i in range(6):
            E0.d[k, i] = E0.d[i, k] = symx.lift(0.0)
        p0, a0, R, mm = const(c, 'track', 4), const(c, 'a', 6), const(c, 'R', 3, 3), const(c, 'm', 2)
        h, v, c0, e0, d = rows2(H), rows2(V), rows2(C0), rows2(E0), rows2(D)
        c.assume(symx.det_of(np.array(add(add(v, mul(h, mul(c0, T(h)))), mul(d, mul(e0, T(d)))), dtype=object)).r != 0)
        r = call(m._calculate_alignment_parameters, H, V, C0, p0, a0, E0, R, mm)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.eq('parameter without uncertainty unchanged', r[0].d[k], a0.d[k])
        for i in range(6):
            c.eq('it stays without uncertainty %d' % i, r[1].d[k, i], symx.lift(0.0))
            c.eq('and without correlation %d' % i, r[1].d[i, k], symx.lift(0.0))
    return explore('fixed parameter', F, run)


class Det(object):
    def __init__(self, c, i):
        for p in PAR:
            setattr(self, p, c.real('%s_%d' % (p, i)))


class Store(object):
    """alignment_values[detector, track][column]"""
    def __init__(self):
        self.v = {}

    def __getitem__(self, k):
        return self.v.setdefault(tuple(k), {})


def apply_update(n=2):
    def run(c):
        m = module()
        tel = [Det(c, i) for i in range(n)]
        H, V, C0 = const(c, 'H', n, 2, 4), const(c, 'V', n, 2, 2), const(c, 'C', n, 4, 4)
        p0, a0, E0 = const(c, 'p', n, 4), const(c, 'a', n, 6), const(c, 'E', n, 6, 6)
        hits = const(c, 'hit', 1, n, 6)
        st, cov = const(c, 'state', n, 6), const(c, 'cov', n, 6, 6)
        st0, cov0 = st.copy(), cov.copy()
        A1, E1 = const(c, 'new', n, 6), const(c, 'newcov', n, 6, 6)
        calls = []

        def calc(*a):
            calls.append(a)
            return A1[len(calls) - 1], E1[len(calls) - 1]
        m._calculate_alignment_parameters = calc
        cuts = []
        active = [j for j in (0, 4)]
        for j in range(6):
            q = c.real('cut_%d' % j)
            if j in active:
                c.assume(q.r > 0)
            else:
                q = symx.lift(-1.0)
            cuts.append(q)
        for i in range(n):
            for j in active:
                c.assume(E0.d[i, j, j].r >= 0)
        done = np.array([3, 7])[:n]
        va = Store()
        r = call(m._update_alignment_parameters, tel, H, V, C0, p0, a0, E0, hits, NP.zeros((n, 6)), NP.zeros((n, 6, 6)), va, cuts, st, cov, done, 5)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.goal('one update for every detector', len(calls) == n)
        for i in range(n):
            g = calls[i]
            for nm, x, y in (('projection', g[0], H[i]), ('measurement noise', g[1], V[i]), ('track covariance', g[2], C0[i]), ('covariance', g[5], E0[i])):
                c.eq('%s of this detector' % nm, rows2(x), rows2(y))
            c.eq('track of this detector', g[3].tolist(), p0[i].tolist())
            c.eq('parameters of this detector', g[4].tolist(), a0[i].tolist())
            c.eq('rotation of this detector, from the global side', rows2(g[6]), tr(spec_rot(*[getattr(tel[i], p) for p in PAR[3:]])))
            c.eq('hit of this detector', g[7].tolist(), [hits.d[0, i, 0], hits.d[0, i, 1]])
            ok = True
            for j in active:
                lim = cuts[j] * NP.sqrt(E0[i, j, j])
                if abs(A1[i, j] - a0[i, j]) > lim:
                    ok = False
                    break
            # the explored path has decided the same comparisons
            new = 1 if ok else 0
            c.goal('counted when accepted', int(r[3][i]) == (3, 7)[i] + new)
            c.eq('state taken when accepted, kept when refused', r[0][i].tolist(), (A1 if ok else st0)[i].tolist())
            c.eq('covariance taken when accepted, kept when refused', rows2(r[1][i]), rows2((E1 if ok else cov0)[i]))
            if ok:
                for j in active:
                    dv = va[i, 5].get(PAR[j] + '_delta')
                    s = NP.sqrt(E0[i, j, j])
                    c.goal('change recorded', dv is not None)
                    if dv is not None:
                        c.eq('relative change', dv, symx.lift(0.0) if s == 0 else abs(A1[i, j] - a0[i, j]) / s)
    return explore('quality cut on the change', F, run)


class Sel(object):
    """arbitrary selection"""
    def __init__(self, c, nm, const=None):
        self.c, self.nm, self.const, self.seen = c, nm, const, {}

    def __contains__(self, x):
        if self.const is not None:
            return self.const
        if x not in self.seen:
            self.seen[x] = bool(self.c.bool('%s_%s' % (self.nm, x)))
        return self.seen[x]


def initial(free, first, last):
    n = 3

    def run(c):
        m = module()
        tel = [Det(c, i) for i in range(n)]
        duts = Sel(c, 'select')
        par = [Sel(c, 'par%d' % i, None if i == free else True) for i in range(n)]
        err = const(c, 'err', 6)
        cov = NP.zeros((n, 6, 6))
        r = call(m._calculate_initial_alignment, tel, duts, [first, last], par, cov, err)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        for i in range(n):
            c.eq('position', r[1][i].tolist(), [getattr(tel[i], p) for p in PAR[:3]])
            c.eq('rotation', rows2(r[0][i]), spec_rot(*[getattr(tel[i], p) for p in PAR[3:]]))
            for j in range(6):
                for k in range(6):
                    if j == k and i in duts and PAR[j] in par[i] and not (i in (first, last) and j < 5):
                        c.eq('squared error of a free parameter', r[2].d[i, j, j], err.d[j] * err.d[j])
                    else:
                        c.eq('zero uncertainty of a fixed parameter', r[2].d[i, j, k], symx.lift(0.0))
    return explore('initial uncertainties, detector %d' % free, F, run)


class Base(object):
    """annealing factor: powers of it stay uninterpreted"""
    def __init__(self, c):
        self.value, self.exponent = c.real('power'), None

    def __pow__(self, x):
        self.exponent = x
        return self.value


def annealing():
    def run(c):
        m = module()
        k, n = c.int('k'), c.int('tracks')
        f = Base(c)
        c.assume(k.t >= 0)
        c.assume(n.t >= 0)
        r = call(m._calculate_annealing, k, f, n)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        if k < n:
            c.goal('power of the factor', r is f.value)
            c.eq('exponent falls linearly from 1 to 0', f.exponent, (n - k) / n)
        else:
            c.eq('no annealing after the last annealing track', r, symx.lift(1.0))
    return explore('annealing', F, run)


SYM = [('composition', F + ':_update_alignment, _create_karimaki_delta, _combine_karimaki', combine),
       ('proper rotation', F + ':_combine_karimaki', proper),
       ('zero corrections', F + ':_update_alignment', nothing),
       ('Jacobian', F + ':_jacobian_alignment, _update_alignment', jacobian),
       ('update', F + ':_calculate_alignment_parameters', update),
       ('fixed', F + ':_calculate_alignment_parameters', fixed),
       ('quality cut', F + ':_update_alignment_parameters', apply_update),
       ] + [('initial %d%d%d' % (f, a, b), F + ':_calculate_initial_alignment', lambda f=f, a=a, b=b: initial(f, a, b))
            for f in range(3) for a, b in ((0, 2), (1, 0))] + [('annealing', F + ':_calculate_annealing', annealing)]


def rnd_rot(o):
    np_ = o.np
    return o.rng.uniform(-1.2, 1.2, 3) if o.rng.random() < 0.6 else o.rng.choice([0., np_.pi, np_.pi / 2, -np_.pi / 2, 0.1], 3)


def o_apply(o):
    np_, m = o.np, o.mod('dut_alignment')
    while o.more():
        ang, pos = rnd_rot(o), o.rng.normal(0, 1e4, 3)
        R0 = np_rot(*ang)
        a = np_.concatenate([o.rng.normal(0, 1e3, 3), o.rng.normal(0, 0.3, 3)]) * (o.rng.random(6) < 0.6)
        data = dict(stored_angles=ang, position=pos, corrections=a)
        keep = R0.copy(), pos.copy(), a.copy()
        R, t = m._update_alignment(R0, pos, a)
        o.check((R0 == keep[0]).all() and (pos == keep[1]).all() and (a == keep[2]).all(), 'input', 'stored alignment changed in place', data)
        o.check(np_.allclose(R, R0.dot(np_rot(*a[3:]).T), atol=1e-12), 'composition', 'rotation %s' % R, data)
        o.check(np_.allclose(R.dot(R.T), np_.eye(3), atol=1e-12) and np_.linalg.det(R) > 0, 'proper', 'not a proper rotation: %s' % R, data)
        o.check(np_.allclose(t, pos + a[:3], rtol=1e-13, atol=1e-9), 'shift', 'position %s' % t, data)
        if not a.any():
            o.check(np_.array_equal(R, R0) and np_.array_equal(t, pos), 'zero', 'zero corrections change the alignment', data)
        # the Jacobian used to weight the tracks is the derivative of the corrected local position
        p, s = o.rng.normal(0, 1e3, 2), o.rng.normal(0, 0.2, 2)
        x0, d = R0.dot([p[0], p[1], 0]) + pos, R0.dot([s[0], s[1], 1])

        def local(b):
            R, t = m._update_alignment(R0, pos, b)
            lp, ld = R.T.dot(x0 - t), R.T.dot(d)
            return (lp - ld * lp[2] / ld[2])[:2]
        J = m._jacobian_alignment(np_.r_[p, s], R0.T.copy())
        N = np_.zeros((2, 6))
        for k in range(6):
            h = np_.zeros(6)
            h[k] = 1.0 if k < 3 else 1e-5
            N[:, k] = (local(h) - local(-h)) / 2 / h[k]
        o.check(np_.shape(J) == (2, 6) and np_.allclose(J, N, rtol=1e-4, atol=1e-2), 'jacobian', 'Jacobian %s, applied corrections move the hit by %s' % (J, N), dict(data, track=(p, s)))
        o.count('corrections', a.any(), data)


def psd(o, n, scale=1.0):
    b = o.rng.normal(0, 1, (n, n)) * scale
    return b.dot(b.T)


def o_update(o):
    np_, m = o.np, o.mod('dut_alignment')
    while o.more():
        R = np_rot(*rnd_rot(o)).T
        H = np_.zeros((2, 4))
        H[0, 0] = H[1, 1] = 1.
        if o.rng.random() < 0.5:
            H = o.rng.normal(0, 1, (2, 4))
        V, C0 = np_.diag(o.rng.uniform(1, 50, 2)), psd(o, 4)
        E0 = np_.diag(o.rng.uniform(0, 10, 6)) if o.rng.random() < 0.5 else psd(o, 6)
        fix = o.rng.random(6) < 0.3
        E0[fix] = 0
        E0[:, fix] = 0
        p0, a0, hit = o.rng.normal(0, 3, 4), o.rng.normal(0, 1, 6), o.rng.normal(0, 3, 2)
        keep = [x.copy() for x in (H, V, C0, p0, a0, E0, R, hit)]
        a1, E1 = m._calculate_alignment_parameters(H, V, C0, p0, a0, E0, R, hit)
        data = dict(H=H, V=V, C0=C0, p0=p0, a0=a0, E0=E0, R=R, m=hit)
        o.check(all((x == y).all() for x, y in zip(keep, (H, V, C0, p0, a0, E0, R, hit))), 'input', 'arguments changed in place', data)
        u, v, tu, tv = p0
        D = np_.zeros((2, 6))
        D[:, :3] = np_.array([[-1, 0, tu], [0, -1, tv]]).dot(R)
        D[:, 3:] = [[-v * tu, u * tu, -v], [-v * tv, u * tv, u]]
        W = np_.linalg.inv(V + H.dot(C0).dot(H.T) + D.dot(E0).dot(D.T))
        K = E0.dot(D.T).dot(W)
        o.check(np_.allclose(a1, a0 + K.dot(hit - H.dot(p0)), atol=1e-8), 'parameters', 'parameters %s instead of %s' % (a1, a0 + K.dot(hit - H.dot(p0))), data)
        o.check(np_.allclose(E1, E0 - K.dot(D).dot(E0), atol=1e-8), 'covariance', 'covariance %s' % E1, data)
        o.check((a1[fix] == a0[fix]).all() and not E1[fix].any() and not E1[:, fix].any(), 'fixed', 'parameters without uncertainty changed: %s' % a1, data)
        o.check(np_.linalg.eigvalsh((E1 + E1.T) / 2).min() > -1e-6 and (np_.diag(E1) <= np_.diag(E0) + 1e-8).all(), 'smaller', 'uncertainty grew', data)
        o.count('updates', fix.any(), data)


class Plain(object):
    pass


def o_telescope(o):
    np_, m = o.np, o.mod('dut_alignment')
    while o.more():
        n = int(o.rng.integers(2, 6))
        tel = []
        for i in range(n):
            d = Plain()
            for p, v in zip(PAR, np_.concatenate([o.rng.normal(0, 1e3, 3), rnd_rot(o)])):
                setattr(d, p, float(v))
            tel.append(d)
        sel = sorted(o.rng.permutation(n)[:int(o.rng.integers(0, n + 1))].tolist())
        tdut = o.rng.permutation(n)[:int(o.rng.integers(1, n + 1))].tolist()
        par = [[p for p in PAR if o.rng.random() < 0.6] for _ in range(n)]
        err = o.rng.uniform(0.1, 5, 6)
        cov = np_.zeros((n, 6, 6))
        data = dict(select_duts=sel, telescope_duts=tdut, parameters=par, errors=err)
        R, t, C = m._calculate_initial_alignment(tel, sel, tdut, par, cov, err)
        want = np_.zeros((n, 6, 6))
        for i in range(n):
            o.check(np_.allclose(R[i], np_rot(*[getattr(tel[i], p) for p in PAR[3:]]), atol=1e-12), 'rotation', 'rotation of detector %d' % i, data)
            o.check(np_.allclose(t[i], [getattr(tel[i], p) for p in PAR[:3]]), 'position', 'position of detector %d' % i, data)
            for j, p in enumerate(PAR):
                if i in sel and p in par[i] and not (i in (tdut[0], tdut[-1]) and j < 5):
                    want[i, j, j] = err[j] ** 2
        o.check(np_.allclose(C, want), 'uncertainty', 'initial uncertainties %s' % C, data)
        # updates with all detectors, the change limited by the cuts
        H = np_.zeros((n, 2, 4))
        H[:, 0, 0] = H[:, 1, 1] = 1.
        V = np_.array([np_.diag(o.rng.uniform(1, 5, 2)) for _ in range(n)])
        C0 = np_.array([psd(o, 4, 0.1) for _ in range(n)])
        p0, a0 = o.rng.normal(0, 3, (n, 4)), o.rng.normal(0, 1, (n, 6))
        hits = o.rng.normal(0, 6, (1, n, 6))
        cuts = np_.where(o.rng.random(6) < 0.5, o.rng.uniform(0.05, 1.5, 6), -1.)
        st, cv = o.rng.normal(0, 1, (n, 6)), np_.array([psd(o, 6) for _ in range(n)])
        s0, v0 = st.copy(), cv.copy()
        val = np_.zeros((n, 3), dtype=[(p + '_delta', float) for p in PAR])
        cnt = o.rng.integers(0, 9, n)
        c0 = cnt.copy()
        E0 = want.copy()
        st, cv, val, cnt = m._update_alignment_parameters(tel, H, V, C0, p0, a0, E0, hits, np_.zeros((n, 6)), np_.zeros((n, 6, 6)), val, cuts, st, cv, cnt, 1)
        for i in range(n):
            a1, E1 = m._calculate_alignment_parameters(H[i], V[i], C0[i], p0[i], a0[i], E0[i], np_rot(*[getattr(tel[i], p) for p in PAR[3:]]).T, hits[0, i, :2])
            sg = np_.sqrt(np_.diag(E0[i]))
            rel = np_.abs(a1 - a0[i]) - cuts * sg
            if (np_.abs(rel[cuts > 0]) < 1e-9).any() and sg.any():
                if (np_.abs(rel[(cuts > 0) & (sg > 0)]) < 1e-9).any():
                    continue
            ok = not (rel[(cuts > 0) & (sg > 0)] > 0).any()
            o.check(cnt[i] == c0[i] + ok, 'count', 'detector %d counted %d' % (i, cnt[i] - c0[i]), dict(data, cuts=cuts, hits=hits, p0=p0, a0=a0))
            o.check(np_.allclose(st[i], a1 if ok else s0[i]) and np_.allclose(cv[i], E1 if ok else v0[i]), 'accepted', 'detector %d: state %s, %s' % (i, st[i], 'accepted' if ok else 'refused'), dict(data, cuts=cuts, hits=hits, p0=p0, a0=a0))
        o.count('telescopes', bool(sel), data)


def o_annealing(o):
    np_, m = o.np, o.mod('dut_alignment')
    while o.more():
        n, f = int(o.rng.integers(0, 2000)), float(o.rng.choice([1., 10., 1e4, o.rng.uniform(1, 1e5)]))
        v = [m._calculate_annealing(k, f, n) for k in sorted(set([0, n // 2, max(n - 1, 0), n, n + 1, 5 * n]))]
        data = dict(tracks=n, factor=f)
        o.check(all(x >= y >= 1 - 1e-12 for x, y in zip(v, v[1:])), 'monotonic', 'annealing %s' % v, data)
        o.check(v[-1] == 1.0 and (n == 0 or abs(v[0] / f - 1) < 1e-9) and m._calculate_annealing(n, f, n) == 1.0, 'ends', 'annealing %s' % v, data)
        k = int(o.rng.integers(0, n + 1))
        o.check(abs(m._calculate_annealing(k, f, n) / f ** (max(n - k, 0) / max(n, 1)) - 1) < 1e-9, 'power', 'annealing of track %d' % k, data)
        o.count('factors', n > 0, data)


ORACLE = [('applied corrections', o_apply), ('update', o_update), ('telescope', o_telescope), ('annealing', o_annealing)]
BUDGET = 16
TRUSTED = ['numpy linear algebra as the formulas in vf/symx.py; np.linalg.inv is the inverse of every regular matrix',
           'the power function (annealing) is uninterpreted in the proof']
ASSUME = ['real arithmetic', 'the weight matrix is regular and the track is not parallel to the detector',
          'the cut on the change is proved for telescopes of two detectors with cuts on two of the parameters, the initial uncertainties for three detectors; the code treats every detector and parameter alike',
          'rotation_matrix is executed as it stands (its contract is C10)']
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the current source, obligations discharged by polynomial identities and z3'
LEVEL_NOTE = 'every obligation is decided for all real inputs; the track loop of _duts_alignment_kalman around these functions is not under contract'
EXPLANATION = ('The correction functions and the update formulas run symbolically on the current source. The Jacobian is compared with the symbolic derivative of the local track '
               'position after the real _update_alignment, so that the weights and the application of the corrections fit together.')
