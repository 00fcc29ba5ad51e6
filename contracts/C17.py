"""C17 Kalman filter and smoother steps implement the estimator exactly."""
import itertools

import numpy as np

from vf import symx
from vf.symx import z3, S, A, Loader, explore, call, Raised, NP, inv_of, canon, Dom
from contracts.geo import spec_rot, tr, np_rot

KF = 'beam_telescope_analysis/tools/kalman.py'
K = 'beam_telescope_analysis.tools.kalman'
NS, NO = 4, 2


# ---- matrices as lists of lists of scalars
def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), symx.lift(0.0)) for j in range(len(b[0]))] for i in range(len(a))]


def mv(a, v):
    return [sum((a[i][k] * v[k] for k in range(len(v))), symx.lift(0.0)) for i in range(len(a))]


def T(a):
    return [[a[i][j] for i in range(len(a))] for j in range(len(a[0]))]


def add(a, b, s=1):
    return [[x + y if s > 0 else x - y for x, y in zip(p, q)] for p, q in zip(a, b)]


def vadd(a, b, s=1):
    return [x + y if s > 0 else x - y for x, y in zip(a, b)]


def inv(m):
    return inv_of(np.array(m, dtype=object)).tolist()


def inverse_contract(X):
    """contract of _mat_inverse (proved as 'matrix inverse'): the inverse of every regular matrix"""
    return A(symx.guarded(X.gen, lambda: inv_of(X.d[0]))[None], X.gen, 'f')


def quad(r, m):
    return sum((x * y for x, y in zip(r, mv(m, r))), symx.lift(0.0))


def row(a):
    """entries of the generic row as nested lists"""
    return a.d[0].tolist()


def plain(x):
    """the value without the not-a-number flag"""
    x = symx.lnum(x)
    return S(x.r)


def helpers():
    def run(c):
        k = Loader().module(K)
        for a, b, d in ((1, 1, 1), (2, 4, 3), (4, 4, 4), (4, 2, 4), (3, 3, 3), (2, 2, 2)):
            X, Y = c.arr('x%d%d%d' % (a, b, d), ('n', a, b)), c.arr('y%d%d%d' % (a, b, d), ('n', b, d))
            v, w = c.arr('v%d%d%d' % (a, b, d), ('n', b)), c.arr('w%d%d%d' % (a, b, d), ('n', b))
            r = call(k._mat_mul, X, Y)
            c.eq('matrix product %d %d %d' % (a, b, d), [[e for e in q] for q in row(r)], mul(row(X), row(Y)))
            c.eq('matrix vector product %d %d' % (a, b), row(call(k._vec_mul, X, v)), mv(row(X), row(v)))
            c.eq('transposed %d %d' % (a, b), row(call(k._mat_trans, X)), T(row(X)))
            c.eq('scalar product %d' % b, call(k._vec_vec_mul, v, w).d[0], sum((p * q for p, q in zip(row(v), row(w))), symx.lift(0.0)))
        bad = call(k._mat_mul, c.arr('x', ('n', 2, 3)), c.arr('y', ('n', 2, 3)))
        c.goal('shapes that do not fit are refused', isinstance(bad, Raised))
    return explore('matrix helpers', KF, run)


def inverse(n):
    def run(c):
        k = Loader().module(K)
        X = c.arr('x', ('n', n, n))
        d = symx.det_of(X.d[0])
        c.assume(d.r != 0)
        r = call(k._mat_inverse, X)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.eq('inverse', row(r), inv(row(X)))
        if n <= 3:
            one = [[symx.lift(float(i == j)) for j in range(n)] for i in range(n)]
            for nm, p in (('left', mul(row(r), row(X))), ('right', mul(row(X), row(r)))):
                for i in range(n):
                    for j in range(n):
                        c.goal('%s inverse %d%d' % (nm, i, j), p[i][j].r == one[i][j].r)
    return explore('matrix inverse %d' % n, KF, run)


def covariance():
    def run(c):
        k = Loader().module(K)
        C = c.arr('c', ('n', 4, 4))
        before = row(C.copy())
        for e in NP.linalg.eigvalsh(C).d[0]:
            c.assume(e.r >= 0)
        call(k.check_covariance_matrix, C)
        c.eq('a positive semi-definite matrix is left unchanged', row(C), before)
    return explore('covariance check', KF, run)


def predict(back):
    def run(c):
        k = Loader().module(K)
        J, G = c.arr('j', ('n', NS, NS)), c.arr('g', ('n', NS, 2))
        Q, x, P = c.arr('q', ('n', 2, 2)), c.arr('x', ('n', NS)), c.arr('p', ('n', NS, NS))
        ins = [row(v.copy()) for v in (J, G, Q, x, P)]
        r = call(k._filter_predict_b if back else k._filter_predict_f, J, G, Q, x, P)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        Jr, Gr, Qr, xr, Pr = ins
        c.eq('state', row(r[0]), mv(Jr, xr))
        g = Gr if back else mul(Jr, Gr)
        c.eq('covariance', row(r[1]), add(mul(Jr, mul(Pr, T(Jr))), mul(g, mul(Qr, T(g)))))
        for nm, u, v in zip(('Jacobian', 'gain', 'noise', 'state', 'covariance'), (J, G, Q, x, P), ins):
            c.eq('%s is not changed' % nm, row(u), v)
    return explore('prediction %s' % ('backward' if back else 'forward'), KF, run)


def correct_spec(ref, H, V, x, P, m):
    """filtered state, covariance, gain, chi-square for a measurement m"""
    Sm = add(mul(H, mul(P, T(H))), V)
    Kg = mul(P, mul(T(H), inv(Sm)))
    xf = vadd(x, mv(Kg, vadd(m, mv(H, vadd(x, ref)), -1)))
    Cf = add(P, mul(Kg, mul(H, P)), -1)
    r = vadd(m, mv(H, vadd(xf, ref)), -1)
    Rc = add(V, mul(H, mul(Cf, T(H))), -1)
    return Kg, xf, Cf, r, Rc


def correct():
    def run(c):
        k = Loader().module(K)
        ref, H, V = c.arr('ref', ('n', NS)), c.arr('h', ('n', NO, NS)), c.arr('v', ('n', NO, NO))
        x, P, m = c.arr('x', ('n', NS)), c.arr('p', ('n', NS, NS)), c.arr('m', ('n', NO), nan=True)
        ins = [row(v.copy()) for v in (ref, H, V, x, P, m)]
        hit = z3.Not(m.d[0, 0].n)
        c.assume(z3.Implies(hit, z3.Not(m.d[0, 1].n)))
        # what the inversions need: innovation and residual covariances are regular
        mm = [plain(v) for v in row(m)]
        Sm = add(mul(row(H), mul(row(P), T(row(H)))), row(V))
        c.assume(symx.det_of(np.array(Sm, dtype=object)).r != 0)
        Kg, xf, Cf, r_, Rc = correct_spec(row(ref), row(H), row(V), row(x), row(P), mm)
        # the callee is used by its contract: proved separately (matrix inverse)
        k._mat_inverse = inverse_contract
        r = call(k._filter_correct, ref, H, V, x, P, m)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        kg, fs, fc, chi = r
        zero = symx.lift(0.0)
        isn = lambda t: z3.BoolVal(False) if symx.lnum(t).n is None else symx.lnum(t).n
        for nm, u, v, w in (('gain', row(kg), Kg, [[zero] * NO] * NS), ('covariance', row(fc), Cf, row(P))):
            for i in range(NS):
                for j in range(len(u[i])):
                    c.goal('%s %d%d is a number' % (nm, i, j), z3.Not(isn(u[i][j])))
                    c.eq('%s %d%d' % (nm, i, j), plain(u[i][j]), symx.ite(hit, v[i][j], w[i][j]))
        for i in range(NS):
            c.goal('state %d is a number' % i, z3.Not(isn(row(fs)[i])))
            c.eq('state %d' % i, plain(row(fs)[i]), symx.ite(hit, xf[i], row(x)[i]))
        c.goal('one chi-square per track with a hit', chi.ndim == 1 and chi.gen[0] is not None and c.equivalent(chi.gen[0].guard, hit))
        if c.decide(hit):
            c.eq('chi-square', plain(chi.d[0]), quad(r_, inv(Rc)))
            c.goal('chi-square is a number', z3.Not(isn(chi.d[0])))
        for nm, u, v in zip(('reference', 'observation matrix', 'observation covariance', 'state', 'covariance', 'measurement'), (ref, H, V, x, P, m), ins):
            c.eq('%s is not changed' % nm, row(u), v)
    return explore('correction', KF, run)


def scatter():
    def run(c):
        k = Loader().module(K)
        st = c.arr('track', ('n', 4))
        G = call(k._calculate_scatter_gain_matrix, st)
        if isinstance(G, Raised):
            c.goal('no error', False)
            return
        g = row(G)
        p, q = st.d[0, 2], st.d[0, 3]
        one = symx.lift(1.0)
        f = one + p * p + q * q
        GG = mul(g, T(g))
        z = symx.lift(0.0)
        # isotropic scattering by a small angle about the track direction, as covariance of the slopes
        spec = [[z] * 4, [z] * 4, [z, z, f * (one + p * p), f * p * q], [z, z, f * p * q, f * (one + q * q)]]
        c.eq('covariance of the slopes per squared scattering angle', GG, spec)
    return explore('scatter gain', KF, run)


# ---- composition: every step is replaced by its contract, here an arbitrary function of its inputs
def flat(*xs):
    out = []
    for x in xs:
        if isinstance(x, A):
            out += [plain(e) for e in x.d[0].flat]
        elif isinstance(x, (list, tuple)):
            for e in x:
                out += flat(e)
        else:
            out.append(plain(x))
    return out


def fun(tag, args, shape):
    """value of an arbitrary function of the arguments"""
    v = canon(tag, [flat(*args)], shape)
    return symx.map1(lambda t: S(t), v) if shape else S(v)


def stub_steps(k, c):
    def arr(v, gen=None):
        gen = gen or Dom('rows')
        return A(v[None], (gen,) + (None,) * v.ndim, 'f')

    def jac(reference_state, dut_position, target_dut_position, rotation_matrix, rotation_matrix_target_dut):
        return arr(fun('jac', (reference_state, dut_position, target_dut_position, rotation_matrix, rotation_matrix_target_dut), (NS, NS)))

    def extrap(track_state, dut_position, target_dut_position, rotation_matrix, rotation_matrix_target_dut):
        return arr(fun('ext', (track_state, dut_position, target_dut_position, rotation_matrix, rotation_matrix_target_dut), (NS,)))

    def gain(reference_state):
        return arr(fun('gain', (reference_state,), (NS, 2)))

    def pred(tag):
        def f(track_jacobian, local_scatter_gain_matrix, transition_covariance, current_filtered_state, current_filtered_state_covariance):
            a = (track_jacobian, local_scatter_gain_matrix, transition_covariance, current_filtered_state, current_filtered_state_covariance)
            return arr(fun(tag + 'x', a, (NS,))), arr(fun(tag + 'c', a, (NS, NS)))
        return f

    def corr(reference_state, observation_matrix, observation_covariance, predicted_state, predicted_state_covariance, observation):
        a = (reference_state, observation_matrix, observation_covariance, predicted_state, predicted_state_covariance, observation)
        o = correct_fun(a)
        sub = observation[~NP.isnan(observation[:, 0])]
        chi = A(np.array([o[3]], dtype=object), (sub.gen[0],), 'f')
        return arr(o[0]), arr(o[1]), arr(o[2]), chi
    k._calculate_track_jacobian, k._extrapolate_state, k._calculate_scatter_gain_matrix = jac, extrap, gain
    k._filter_predict_f, k._filter_predict_b, k._filter_correct = pred('pf'), pred('pb'), corr
    k.check_covariance_matrix = lambda cov: None
    k._mat_inverse = inverse_contract


def correct_fun(a):
    """result of the correction (proved as 'correction')"""
    return fun('gn', a, (NS, NO)), fun('st', a, (NS,)), fun('cv', a, (NS, NS)), fun('chi', a, ())


class Plane(object):
    def __init__(self, c, i):
        for n in ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma', 'material_budget'):
            setattr(self, n, c.real('%s_%d' % (n, i)))

    def pos(self):
        return [self.translation_x, self.translation_y, self.translation_z]

    def rot(self):
        return spec_rot(self.rotation_alpha, self.rotation_beta, self.rotation_gamma)


def filter_inputs(c, n):
    d = dict(reference_states=c.arr('ref', ('n', n, NS)), observations=c.arr('m', ('n', n, NO), nan=True), observation_matrices=c.arr('h', ('n', n, NO, NS)),
             transition_covariances=c.arr('q', ('n', n, 2, 2)), observation_covariances=c.arr('v', ('n', n, NO, NO)),
             initial_state=c.arr('x0', ('n', NS)), initial_state_covariance=c.arr('p0', ('n', NS, NS)))
    for i in range(n):
        c.assume(z3.Implies(z3.Not(d['observations'].d[0, i, 0].n), z3.Not(d['observations'].d[0, i, 1].n)))
    return d


def filter_spec(c, planes, order, fit, d, back):
    n = len(order)
    R = {}
    seq = list(order)[::-1] if back else list(order)
    get = lambda nm, k: row(d[nm])[k]
    for i, k in enumerate(seq):
        if i == 0:
            xp, Pp, J = row(d['initial_state']), row(d['initial_state_covariance']), [[symx.lift(0.0)] * NS] * NS
        else:
            p = seq[i - 1]
            J = fun('jac', (get('reference_states', p), planes[p].pos(), planes[k].pos(), T(planes[p].rot()), T(planes[k].rot())), (NS, NS)).tolist()
            at = k if back else p
            a = (J, fun('gain', (get('reference_states', at),), (NS, 2)).tolist(), get('transition_covariances', at), R[p]['x'], R[p]['P'])
            xp, Pp = fun(('pb' if back else 'pf') + 'x', a, (NS,)).tolist(), fun(('pb' if back else 'pf') + 'c', a, (NS, NS)).tolist()
        m = get('observations', k)
        hit = z3.Not(m[0].n)
        H, V, ref = get('observation_matrices', k), get('observation_covariances', k), get('reference_states', k)
        if k in fit:
            g, x, P, chi = correct_fun((ref, H, V, xp, Pp, m))
            g, x, P = g.tolist(), x.tolist(), P.tolist()
        else:
            g, x, P = [[symx.lift(0.0)] * NO] * NS, xp, Pp
            r = vadd([plain(v) for v in m], mv(H, vadd(x, ref)), -1)
            Rc = add(V, mul(H, mul(P, T(H))))
            chi = quad(r, inv(Rc))
        R[k] = dict(xp=xp, Pp=Pp, g=g, x=x, P=P, chi=chi, J=J, hit=hit)
    return R


def filt(back, order, fit):
    def run(c):
        k = Loader().module(K)
        stub_steps(k, c)
        n = len(order)
        planes = [Plane(c, i) for i in range(n)]
        d = filter_inputs(c, n)
        keep = {nm: v.copy() for nm, v in d.items()}
        R = filter_spec(c, planes, order, fit, d, back)
        neg = z3.Or(*[z3.And(R[i]['hit'], symx.lnum(R[i]['chi']).r < 0) for i in order])
        r = call(k._filter_b if back else k._filter_f, planes, d['reference_states'], np.array(order), list(fit), d['observations'], d['observation_matrices'],
                 d['transition_covariances'], d['observation_covariances'], d['initial_state'], d['initial_state_covariance'])
        if isinstance(r, Raised):
            c.goal('an error only for a negative chi-square', c.exists_row(neg))
            return
        xs, Ps, gs, fs, Fs, chi, Js = r
        for i in order:
            for nm, u, key in (('predicted state', xs, 'xp'), ('predicted covariance', Ps, 'Pp'), ('gain', gs, 'g'), ('filtered state', fs, 'x'), ('filtered covariance', Fs, 'P'), ('Jacobian', Js, 'J')):
                c.eq('%s of plane %d' % (nm, i), u.d[0, i].tolist(), R[i][key])
            t = symx.lnum(chi.d[0, i])
            isn = z3.BoolVal(False) if t.n is None else t.n
            c.goal('chi-square of plane %d exactly with a hit' % i, isn == z3.Not(R[i]['hit']))
            if c.decide(R[i]['hit']):
                c.eq('chi-square of plane %d' % i, plain(t), R[i]['chi'])
        for nm in d:
            c.eq('%s not changed' % nm, d[nm].d[0].tolist(), keep[nm].d[0].tolist())
    return explore('%s filter, z order %s, fit planes %s' % ('backward' if back else 'forward', list(order), list(fit)), KF, run)


def smooth(order, fit):
    def run(c):
        k = Loader().module(K)
        stub_steps(k, c)
        n = len(order)
        planes = [Plane(c, i) for i in range(n)]
        d = filter_inputs(c, n)
        seed = c.arr('seed', ('n', NS))
        mom, beta = c.real('momentum'), c.real('beta')
        c.assume(mom.r > 0)
        c.assume(beta.r > 0)
        for p in planes:
            c.assume(p.material_budget.r > 0)

        def filter_fun(back, dut_planes, reference_states, z_sorted_dut_indices, select_fit_duts, observations, observation_matrices, transition_covariances, observation_covariances, initial_state, initial_state_covariance):
            ok = dut_planes is planes and list(z_sorted_dut_indices) == list(order) and list(select_fit_duts) == list(fit)
            c.goal('filter called for the planes', ok)
            a = (reference_states, observations, observation_matrices, transition_covariances, observation_covariances, initial_state, initial_state_covariance)
            return filter_value(back, a)

        def filter_value(back, a):
            tg = 'fb' if back else 'ff'
            gen = Dom('rows')
            mk = lambda nm, sh: A(fun(tg + nm, a, sh)[None], (gen,) + (None,) * len(sh), 'f')
            return mk('xp', (n, NS)), mk('pp', (n, NS, NS)), mk('g', (n, NS, NO)), mk('x', (n, NS)), mk('p', (n, NS, NS)), mk('chi', (n,)), mk('j', (n, NS, NS))
        k._filter_f = lambda *a, **kw: filter_fun(False, *a, **kw)
        k._filter_b = lambda *a, **kw: filter_fun(True, *a, **kw)
        obs0 = d['observations'].copy()
        q0 = d['transition_covariances'].copy()

        # specification
        def references(s):
            first = order[0]
            out = {}
            for i, p in enumerate(order):
                out[p] = s if i == 0 else fun('ext', (s, planes[first].pos(), planes[p].pos(), planes[first].rot(), planes[p].rot()), (NS,)).tolist()
            return out

        def noise(refs):
            q = [[list(r) for r in m] for m in row(q0)]
            for p in order:
                one = symx.lift(1.0)
                L = NP.sqrt(one + refs[p][2] * refs[p][2] + refs[p][3] * refs[p][3])
                mb = planes[p].material_budget * L
                th = (symx.lift(13.6) / mom / beta) * NP.sqrt(mb) * (one + symx.lift(0.038) * NP.log(mb))
                q[p][0][0] = q[p][1][1] = th * th
            return q

        def args(refs, q):
            return ([refs[i] for i in range(n)], row(obs0), row(d['observation_matrices']), q, row(d['observation_covariances']), row(d['initial_state']), row(d['initial_state_covariance']))
        refs = references(row(seed))
        for i in range(n):      # path lengths are at least one
            c.fact(z3.BoolVal(True))
        b = filter_value(True, args(refs, noise(refs)))
        refs = references(vadd(refs[order[0]], b[3].d[0, order[0]].tolist()))
        q = noise(refs)
        f, b = filter_value(False, args(refs, q)), filter_value(True, args(refs, q))
        R = {}
        for i, p in enumerate(order):
            xf, Cf, xb, Cb = f[3].d[0, p].tolist(), f[4].d[0, p].tolist(), b[3].d[0, p].tolist(), b[4].d[0, p].tolist()
            if i == 0:
                x, C = xb, Cb
            elif i == n - 1:
                x, C = xf, Cf
            else:
                W = add(inv(Cf), inv(Cb))
                C = inv(W)
                x = mv(C, vadd(mv(inv(Cf), xf), mv(inv(Cb), xb)))
            H, V, m = row(d['observation_matrices'])[p], row(d['observation_covariances'])[p], row(obs0)[p]
            r = vadd([plain(v) for v in m], mv(H, vadd(x, refs[p])), -1)
            Rc = add(V, mul(H, mul(C, T(H))), -1 if p in fit else 1)
            R[p] = dict(x=vadd(x, refs[p]), C=C, chi=quad(r, inv(Rc)), hit=z3.Not(m[0].n))
        neg = z3.Or(*[z3.And(R[i]['hit'], R[i]['chi'].r < 0) for i in order])
        r = call(k.KalmanFilter().smooth, planes, seed, np.array(order), mom, beta, d['observations'], list(fit), d['transition_covariances'], d['observation_matrices'],
                 d['observation_covariances'], d['initial_state'], d['initial_state_covariance'])
        if isinstance(r, Raised):
            c.goal('an error only for a negative chi-square', c.exists_row(neg))
            return
        for p in order:
            c.eq('state of plane %d' % p, r[0].d[0, p].tolist(), R[p]['x'])
            c.eq('covariance of plane %d' % p, r[1].d[0, p].tolist(), R[p]['C'])
            t = symx.lnum(r[2].d[0, p])
            isn = z3.BoolVal(False) if t.n is None else t.n
            c.goal('chi-square of plane %d exactly with a hit' % p, isn == z3.Not(R[p]['hit']))
            if c.decide(R[p]['hit']):
                c.eq('chi-square of plane %d' % p, plain(t), R[p]['chi'])
        c.eq('observations not changed', d['observations'].d[0].tolist(), obs0.d[0].tolist())
    return explore('smoother, z order %s, fit planes %s' % (list(order), list(fit)), KF, run)


SYM = [('matrix helpers', KF + ':_mat_mul, _vec_mul, _mat_trans, _vec_vec_mul', helpers)]
for n in (1, 2, 3, 4):
    SYM.append(('inverse %d' % n, KF + ':_mat_inverse', (lambda n=n: inverse(n))))
SYM += [('covariance check', KF + ':check_covariance_matrix', covariance),
        ('predict forward', KF + ':_filter_predict_f', lambda: predict(False)),
        ('predict backward', KF + ':_filter_predict_b', lambda: predict(True)),
        ('correct', KF + ':_filter_correct', correct),
        ('scatter gain', KF + ':_calculate_scatter_gain_matrix', scatter)]
CASES = []
for n in (1, 2, 3):
    for order in itertools.permutations(range(n)):
        for m in range(n + 1):
            for fit in itertools.combinations(range(n), m):
                if n < 3 or fit in ((0, 1, 2), (0, 2), (1,)):
                    CASES.append((order, fit))
for order, fit in CASES:
    for back in (False, True):
        SYM.append(('filter %s %s %s' % (back, order, fit), KF + (':_filter_b' if back else ':_filter_f'), (lambda back=back, order=order, fit=fit: filt(back, order, fit))))
    SYM.append(('smooth %s %s' % (order, fit), KF + ':KalmanFilter.smooth', (lambda order=order, fit=fit: smooth(order, fit))))


# ---- bounded comparison of the compiled functions with a plain numpy estimator
def nrot(d):
    return np_rot(d.rotation_alpha, d.rotation_beta, d.rotation_gamma)


def npos(d):
    return np.array([d.translation_x, d.translation_y, d.translation_z])


def n_extrapolate(s, a, b):
    x, d = np.array([s[0], s[1], 0.]), np.array([s[2], s[3], 1.])
    lp, ld = nrot(b).T.dot(nrot(a).dot(x) + npos(a) - npos(b)), nrot(b).T.dot(nrot(a).dot(d))
    return np.array([lp[0] - lp[2] * ld[0] / ld[2], lp[1] - lp[2] * ld[1] / ld[2], ld[0] / ld[2], ld[1] / ld[2]])


def n_jacobian(s, a, b):
    J = np.zeros((4, 4))
    R = nrot(b).T.dot(nrot(a))
    x0 = nrot(a).T.dot(npos(b) - npos(a))
    A_, B_ = R.dot(np.array([s[0], s[1], 0.]) - x0), R.dot(np.array([s[2], s[3], 1.]))
    for i in range(2):
        for v in range(2):
            g = (R[i, v] * B_[2] - B_[i] * R[2, v]) / B_[2] ** 2
            J[i, v] = R[i, v] - R[2, v] * B_[i] / B_[2]
            J[i, 2 + v] = -A_[2] * g
            J[2 + i, 2 + v] = g
    return J


def n_gain(s):
    """any matrix with this square describes isotropic scattering; only its square enters the estimator"""
    p, q = s[2], s[3]
    S_ = (1 + p * p + q * q) * np.array([[1 + p * p, p * q], [p * q, 1 + q * q]])
    L_ = np.linalg.cholesky(S_)
    return np.vstack([np.zeros((2, 2)), L_])


def n_correct(ref, H, V, x, P, m):
    if np.isnan(m[0]):
        return np.zeros((4, 2)), x, P, np.nan
    Kg = P.dot(H.T).dot(np.linalg.inv(H.dot(P).dot(H.T) + V))
    xf = x + Kg.dot(m - H.dot(x + ref))
    Pf = P - Kg.dot(H).dot(P)
    r = m - H.dot(xf + ref)
    return Kg, xf, Pf, r.dot(np.linalg.inv(V - H.dot(Pf).dot(H.T))).dot(r)


def n_filter(planes, ref, order, fit, obs, H, Q, V, x0, P0, back):
    n = len(planes)
    X = dict(x=np.zeros((n, 4)), P=np.zeros((n, 4, 4)), xp=np.zeros((n, 4)), Pp=np.zeros((n, 4, 4)), g=np.zeros((n, 4, 2)), chi=np.full(n, np.nan), J=np.zeros((n, 4, 4)))
    prev = None
    for k in (order[::-1] if back else order):
        if prev is None:
            X['xp'][k], X['Pp'][k] = x0, P0
        else:
            J = X['J'][k] = n_jacobian(ref[prev], planes[prev], planes[k])
            at = k if back else prev
            g = n_gain(ref[at])
            if not back:
                g = J.dot(g)
            X['xp'][k] = J.dot(X['x'][prev])
            X['Pp'][k] = J.dot(X['P'][prev]).dot(J.T) + Q[at][0, 0] * g.dot(g.T)
        if k in fit:
            X['g'][k], X['x'][k], X['P'][k], X['chi'][k] = n_correct(ref[k], H[k], V[k], X['xp'][k], X['Pp'][k], obs[k])
        else:
            X['x'][k], X['P'][k] = X['xp'][k], X['Pp'][k]
            if not np.isnan(obs[k, 0]):
                r = obs[k] - H[k].dot(X['x'][k] + ref[k])
                X['chi'][k] = r.dot(np.linalg.inv(V[k] + H[k].dot(X['P'][k]).dot(H[k].T))).dot(r)
        prev = k
    return X


def n_smooth(planes, seed, order, mom, beta, obs, fit, H, V, x0, P0):
    n = len(planes)

    def references(s):
        ref, Q = np.zeros((n, 4)), np.zeros((n, 2, 2))
        for i, k in enumerate(order):
            ref[k] = s if i == 0 else n_extrapolate(s, planes[order[0]], planes[k])
            b = planes[k].material_budget * np.sqrt(1 + ref[k, 2] ** 2 + ref[k, 3] ** 2)
            Q[k] = np.eye(2) * (13.6 / mom / beta * np.sqrt(b) * (1 + 0.038 * np.log(b))) ** 2
        return ref, Q
    ref, Q = references(seed)
    B = n_filter(planes, ref, order, fit, obs, H, Q, V, x0, P0, True)
    ref, Q = references(ref[order[0]] + B['x'][order[0]])
    F = n_filter(planes, ref, order, fit, obs, H, Q, V, x0, P0, False)
    B = n_filter(planes, ref, order, fit, obs, H, Q, V, x0, P0, True)
    x, P, chi = np.zeros((n, 4)), np.zeros((n, 4, 4)), np.full(n, np.nan)
    for i, k in enumerate(order):
        if i == 0:
            x[k], P[k] = B['x'][k], B['P'][k]
        elif i == n - 1:
            x[k], P[k] = F['x'][k], F['P'][k]
        else:
            f, b = np.linalg.inv(F['P'][k]), np.linalg.inv(B['P'][k])
            P[k] = np.linalg.inv(f + b)
            x[k] = P[k].dot(f.dot(F['x'][k]) + b.dot(B['x'][k]))
        if not np.isnan(obs[k, 0]):
            r = obs[k] - H[k].dot(x[k] + ref[k])
            chi[k] = r.dot(np.linalg.inv(V[k] + (-1 if k in fit else 1) * H[k].dot(P[k]).dot(H[k].T))).dot(r)
    return x + ref, P, chi


class NPlane(object):
    pass


def n_case(o, nmax=5):
    r = o.rng
    n = int(r.integers(1, nmax))
    order = [int(v) for v in r.permutation(n)]
    planes = [NPlane() for _ in range(n)]
    z = 0.
    for k in order:
        p = planes[k]
        p.translation_x, p.translation_y, p.translation_z = r.normal(0, 500), r.normal(0, 500), z
        p.rotation_alpha, p.rotation_beta, p.rotation_gamma = r.uniform(-.4, .4, 3) if r.random() < .8 else (0., 0., 0.)
        if r.random() < .2:
            p.rotation_alpha += np.pi
        p.material_budget = float(r.uniform(1e-3, 2e-2))
        z += float(r.uniform(1e4, 1e5))
    fit = sorted(int(v) for v in r.permutation(n)[:int(r.integers(1, n + 1))])
    if r.random() < .4:
        fit = list(range(n))
    m = int(r.integers(1, 6))
    H = np.zeros((n, 2, 4))
    H[:, 0, 0] = H[:, 1, 1] = 1.
    V = np.array([np.diag(r.uniform(3, 60, 2) ** 2) for _ in range(n)])
    obs = r.normal(0, 3000, (m, n, 2))
    if r.random() < .7:         # tracks that are straight lines up to the resolution
        for t in range(m):
            s = np.concatenate([r.normal(0, 3000, 2), r.normal(0, 1e-2, 2)])
            for i, k in enumerate(order):
                obs[t, k] = (s if i == 0 else n_extrapolate(s, planes[order[0]], planes[k]))[:2] + r.normal(0, 30, 2)
    miss = r.random((m, n)) < r.choice([0., .2, .5])
    obs[miss] = np.nan
    seed = np.column_stack([r.normal(0, 3000, (m, 2)), r.normal(0, 1e-3, (m, 2))])
    first = obs[:, order[0]]
    ok = ~np.isnan(first[:, 0])
    seed[ok, :2] = first[ok]
    P0 = np.diag([r.uniform(1e4, 1e6)] * 2 + [r.uniform(1e-3, .1)] * 2)
    return dict(planes=planes, order=order, fit=fit, obs=obs, H=H, V=V, seed=seed, P0=P0, mom=float(r.uniform(500, 120000)), beta=float(r.uniform(.5, 1.)))


def n_run(k, d, sel):
    m = len(sel)
    til = lambda v: np.tile(v, (m,) + (1,) * v.ndim)
    n = len(d['planes'])
    return k.KalmanFilter().smooth(d['planes'], d['seed'][sel].copy(), np.array(d['order']), d['mom'], d['beta'], d['obs'][sel].copy(), list(d['fit']),
                                   np.zeros((m, n, 2, 2)), til(d['H']), til(d['V']), np.zeros((m, 4)), til(d['P0']))


def close(o, u, v, scale, rel=1e-5):
    return np.array_equal(np.isnan(u), np.isnan(v)) and bool(np.all(np.nan_to_num(np.abs(u - v)) <= rel * np.nan_to_num(scale) + 1e-9))


def describe(d):
    return dict(order=d['order'], fit=d['fit'], observations=d['obs'], seed=d['seed'], observation_covariances=d['V'], initial_covariance=d['P0'], momentum=d['mom'], beta=d['beta'],
                planes=[(list(npos(p)), p.rotation_alpha, p.rotation_beta, p.rotation_gamma, p.material_budget) for p in d['planes']])


def o_smooth(o):
    k = o.mod('tools.kalman')
    while o.more():
        d = n_case(o)
        m, n = len(d['obs']), len(d['planes'])
        ref = [n_smooth(d['planes'], d['seed'][t], d['order'], d['mom'], d['beta'], d['obs'][t], d['fit'], d['H'], d['V'], np.zeros(4), d['P0']) for t in range(m)]
        # residual covariances that are singular up to rounding have no meaningful chi-square
        cond = 0.
        for t in range(m):
            for p in range(n):
                if p in d['fit']:
                    w = np.linalg.eigvalsh(d['V'][p] - ref[t][1][p][:2, :2])
                    cond = max(cond, d['V'][p].max() / max(w.min(), 1e-30))
        if cond > 1e4:
            o.count('ill conditioned', False)
            continue
        data = describe(d)
        x, P, chi = n_run(k, d, np.arange(m))
        rx, rP, rc = [np.array([r[i] for r in ref]) for i in range(3)]
        sg = np.sqrt(np.einsum('...ii->...i', rP))
        o.check(close(o, x, rx, sg + 1e-3 * np.abs(rx)), 'state', 'smoothed state %s instead of %s' % (x, rx), data)
        o.check(close(o, P, rP, sg[..., :, None] * sg[..., None, :], 1e-4), 'covariance', 'smoothed covariance %s instead of %s' % (P, rP), data)
        o.check(close(o, chi, rc, 1 + np.nan_to_num(rc), 1e-3), 'chi2', 'chi-square %s instead of %s' % (chi, rc), data)
        # tracks are independent of each other, hence also of the order and of the chunk
        sel = o.rng.permutation(m)[:int(o.rng.integers(1, m + 1))]
        y = n_run(k, d, sel)
        for u, v, nm in zip(y, (x, P, chi), ('state', 'covariance', 'chi-square')):
            o.check(np.allclose(u, v[sel], rtol=1e-9, atol=1e-12, equal_nan=True), 'independent', '%s of a track depends on the other tracks: %s and %s' % (nm, u, v[sel]), data)
        o.count('smoothed chunks', n > 1, [d['order'], d['fit'], m])


def o_filter(o):
    k = o.mod('tools.kalman')
    names = ('xp', 'Pp', 'g', 'x', 'P', 'chi', 'J')
    while o.more():
        d = n_case(o)
        m, n = len(d['obs']), len(d['planes'])
        ref = np.concatenate([o.rng.normal(0, 1000, (m, n, 2)), o.rng.normal(0, .05, (m, n, 2))], axis=2)
        Q = np.array([[np.eye(2) * o.rng.uniform(1e-8, 1e-5) for _ in range(n)] for _ in range(m)])
        x0 = o.rng.normal(0, 1, (m, 4)) * [100, 100, .01, .01]
        til = lambda v: np.tile(v, (m,) + (1,) * v.ndim)
        data = dict(describe(d), reference=ref, noise=Q, initial=x0)
        for back in (False, True):
            spec = [n_filter(d['planes'], ref[t], d['order'], d['fit'], d['obs'][t], d['H'], Q[t], d['V'], x0[t], d['P0'], back) for t in range(m)]
            spec = {nm: np.array([s[nm] for s in spec]) for nm in names}
            bad = False
            for p in d['fit']:
                w = [np.linalg.eigvalsh(d['V'][p] - P[:2, :2]).min() for t, P in enumerate(spec['P'][:, p]) if not np.isnan(d['obs'][t, p, 0])]
                bad = bad or (w and d['V'][p].max() > 1e5 * max(min(w), 1e-30))
            args = [ref.copy(), np.array(d['order']), list(d['fit']), d['obs'].copy(), til(d['H']), Q.copy(), til(d['V']), x0.copy(), til(d['P0'])]
            keep = [np.array(a, copy=True) for a in args]
            try:
                r = (k._filter_b if back else k._filter_f)(d['planes'], *args)
            except RuntimeError:
                o.check(bad, 'raise', 'error for a well conditioned input', data)
                continue
            o.check(all(np.array_equal(u, v, equal_nan=True) for u, v in zip(args, keep)), 'inputs', 'an input of the filter is changed', data)
            sg = np.sqrt(np.einsum('...ii->...i', spec['P']))
            sp = np.sqrt(np.einsum('...ii->...i', spec['Pp']))
            sc_ = dict(xp=sp + np.abs(spec['xp']), x=sg + np.abs(spec['x']) + 1e-2 * sp, Pp=sp[..., :, None] * sp[..., None, :], P=sg[..., :, None] * sg[..., None, :] + 1e-4 * sp[..., :, None] * sp[..., None, :],
                       g=1e-3 * np.abs(spec['g']).max() + np.abs(spec['g']), chi=100 * (1 + np.abs(spec['chi'])), J=np.abs(spec['J']).max() * np.ones_like(spec['J']) * 1e-6 + np.abs(spec['J']))
            for nm, u in zip(names, r):
                if nm == 'chi' and bad:
                    continue
                o.check(u.shape == spec[nm].shape and close(o, u, spec[nm], sc_[nm]), '%s-%s' % (nm, back), '%s of the %s filter: %s instead of %s' % (nm, 'backward' if back else 'forward', u, spec[nm]), data)
        o.count('filtered chunks', n > 1, [d['order'], d['fit'], m])


def o_steps(o):
    k = o.mod('tools.kalman')
    r = o.rng
    while o.more():
        m = int(r.integers(1, 5))
        a, b, c = [int(v) for v in r.integers(1, 5, 3)]
        X, Y, v, w, Z = r.normal(0, 1, (m, a, b)), r.normal(0, 1, (m, b, c)), r.normal(0, 1, (m, b)), r.normal(0, 1, (m, b)), r.normal(0, 1, (m, a, a)) + 3 * np.eye(a)
        data = dict(X=X, Y=Y, v=v, w=w, Z=Z)
        o.check(np.allclose(k._mat_mul(X, Y), np.matmul(X, Y), rtol=1e-12, atol=1e-12), 'mul', 'matrix product', data)
        o.check(np.allclose(k._vec_mul(X, v), np.einsum('nij,nj->ni', X, v), rtol=1e-12, atol=1e-12), 'vec', 'matrix vector product', data)
        o.check(np.allclose(k._vec_vec_mul(v, w), (v * w).sum(1), rtol=1e-12, atol=1e-12), 'dot', 'scalar product', data)
        o.check(np.array_equal(k._mat_trans(X), X.transpose(0, 2, 1)), 'trans', 'transposed matrix', data)
        o.check(np.allclose(k._mat_inverse(Z), np.linalg.inv(Z), rtol=1e-8, atol=1e-10), 'inv', 'inverse', data)
        x, B = r.normal(0, 1, (m, 4)), r.normal(0, 1, (m, 4, 4))
        P = np.matmul(B, B.transpose(0, 2, 1)) + np.eye(4)
        J, G, Q = r.normal(0, 1, (m, 4, 4)), r.normal(0, 1, (m, 4, 2)), np.array([np.diag(r.uniform(0, 1, 2)) for _ in range(m)])
        data = dict(J=J, G=G, Q=Q, x=x, P=P)
        for back in (False, True):
            xs, Ps = (k._filter_predict_b if back else k._filter_predict_f)(J, G, Q, x, P)
            g = G if back else np.matmul(J, G)
            o.check(np.allclose(xs, np.einsum('nij,nj->ni', J, x)) and np.allclose(Ps, np.matmul(np.matmul(J, P), J.transpose(0, 2, 1)) + np.matmul(np.matmul(g, Q), g.transpose(0, 2, 1))),
                    'predict', 'prediction step', data)
        H, V, ref, obs = r.normal(0, 1, (m, 2, 4)), np.array([np.diag(r.uniform(.5, 3, 2)) for _ in range(m)]), r.normal(0, 1, (m, 4)), r.normal(0, 2, (m, 2))
        obs[r.random(m) < .3] = np.nan
        data = dict(H=H, V=V, ref=ref, obs=obs, x=x, P=P)
        res = k._filter_correct(ref, H, V, x, P, obs)
        spec = [n_correct(ref[i], H[i], V[i], x[i], P[i], obs[i]) for i in range(m)]
        for j, nm in enumerate(('gain', 'state', 'covariance')):
            o.check(np.allclose(res[j], np.array([s[j] for s in spec]), rtol=1e-6, atol=1e-7), 'correct', '%s of the correction' % nm, data)
        chi = np.array([s[3] for s in spec if not np.isnan(s[3])])
        o.check(res[3].shape == chi.shape and np.allclose(res[3], chi, rtol=1e-4, atol=1e-6), 'correct', 'chi-square of the correction', data)
        st = r.normal(0, 1, (m, 4)) * [100, 100, .5, .5]
        st[r.random(m) < .2, 2:] = 0.
        g = k._calculate_scatter_gain_matrix(st)
        spec = np.array([n_gain(s) for s in st])
        o.check(np.allclose(np.matmul(g, g.transpose(0, 2, 1)), np.matmul(spec, spec.transpose(0, 2, 1))), 'gain', 'scatter gain', dict(state=st))
        o.count('steps', True, m)


ORACLE = [('steps', o_steps), ('filters', o_filter), ('smoother', o_smooth)]
BUDGET = 20
TRUSTED = ['numba compiles the functions with the semantics of the Python text (jit decorator replaced by the identity for the proof; the bounded comparison runs the compiled code)',
           'numpy.linalg.det / inv / eigvalsh: determinant, inverse and eigenvalues of a matrix (inverse defined by adjugate and determinant)']
ASSUME = ['real arithmetic', 'innovation, residual and filtered covariances are regular and positive semi-definite (check_covariance_matrix then returns its input, proved); the nearest-psd repair of rounding errors is outside',
          'the combination of forward and backward estimate is the documented weighted mean of the two filtered estimates',
          'material budget, momentum and beta are positive']
BOUNDED = ['composition of the steps in the two filters and the smoother is proved for 1, 2 and 3 planes in every z order (every subset of fit planes below 3 planes, three subsets at 3 planes) and every input value; more planes by the bounded comparison (up to 4 planes)']
LEVEL = 'proof'
