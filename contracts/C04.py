"""C04: index histograms."""
from contracts.common import *

p, q, i, a, b, d, u, v, w = z3.Ints('p q i a b d u v w')
U32, U16 = 2 ** 32 - 1, 2 ** 16 - 1
XS = ['x', 'y', 'z']
NS = ['rNbinsX', 'rNbinsY', 'rNbinsZ']
BINS = [a, b, d]
BINS2 = [u, v, w]
AS = z3.ArraySort(I, I)
ARR = z3.Consts('A1 A2 A3', AS)
ARR2 = z3.Consts('B1 B2 B3', AS)


class Spec(object):
    """over the index arrays X (contract views), bin numbers N, result view R with entry contents R0 (None: zeros)"""

    def __init__(self, nd, X, N, R=None, R0=None):
        self.nd, self.X, self.N, self.R, self.R0 = nd, X, N, R, R0
        self.cap = U32 if nd < 3 else U16
        self.cntf = fun('cnt%d' % nd, *([AS] * nd + [I] * (nd + 2)))    # cnt(index arrays, k, bin): entries with that index tuple before k
        self.flf = fun('flat%d' % nd, *([I] * (2 * nd + 1)))             # place of a bin in the flat histogram
        self.B, self.B2 = BINS[:nd], BINS2[:nd]
        self.n = X[0].n
        tot = N[0]
        for t in N[1:]:
            tot = tot * t
        self.tot = tot

    def cnt(self, k, *bs):
        return self.cntf(*([x.term for x in self.X] + [k] + list(bs)))

    def fl(self, *bs):
        return self.flf(*(list(self.N[1:]) + [z3.IntVal(0)] + list(bs)))

    def inr(self, bs):
        return And_(*[And_(0 <= t, t < n) for t, n in zip(bs, self.N)])

    def prod(self, t):
        f = t[0]
        for s, n in zip(t[1:], self.N[1:]):
            f = f * n + s
        return f

    def old(self, bs):
        return 0 if self.R0 is None else self.R0[self.fl(*bs)]

    def facts(self):
        A, B = ARR[:self.nd], self.B
        c = lambda k: self.cntf(*(A + [k] + B))
        return [forall(A + B, c(z3.IntVal(0)) == 0, [c(z3.IntVal(0))]),
                forall(A + [i] + B, Imp(0 <= i, c(i + 1) == c(i) + If_(And_(*[x[i] == t for x, t in zip(A, B)]), 1, 0)), [c(i)]),
                forall(B, self.fl(*B) == self.prod(B), [self.fl(*B)])]

    def counts(self, k):
        B = self.B
        return ('every bin has the entries so far', forall(B, Imp(self.inr(B), self.R[self.fl(*B)] == self.old(B) + self.cnt(k, *B)), [self.fl(*B)]))

    def inside(self, k):
        return ('entries so far are inside', forall([p], Imp(And_(0 <= p, p < k), self.inr([x[p] for x in self.X]))))

    def bad(self):
        B = self.B
        return Or_(z3.Exists([p], And_(0 <= p, p < self.n, Not_(self.inr([x[p] for x in self.X]))), patterns=[self.X[0][p]]),
                   z3.Exists(B, And_(self.inr(B), self.fl(*B) == self.prod(B), self.old(B) + self.cnt(self.n, *B) > self.cap), patterns=[self.fl(*B)]))

    def lemmas(self):
        B, B2, N, nd, fl, cnt = self.B, self.B2, self.N, self.nd, self.fl, self.cnt
        out = []
        if nd == 2:
            out.append(plain('a bin is inside the histogram', forall(B, Imp(self.inr(B), And_(0 <= fl(*B), fl(*B) < self.tot)), [fl(*B)])))
            out.append(plain('rows are apart', forall([a, u], Imp(a < u, a * N[1] + N[1] <= u * N[1]), [z3.MultiPattern(fl(a, b), fl(u, v))]),
                             goal=forall([a, u], Imp(And_(a < u), a * N[1] + N[1] <= u * N[1]))))
        if nd == 3:
            out.append(plain('a bin is inside the histogram', forall(B, Imp(self.inr(B), And_(0 <= fl(*B), fl(*B) < self.tot)), [fl(*B)]),
                             goal=forall(B, Imp(And_(0 <= a, a <= N[0] - 1, 0 <= b, b <= N[1] - 1, 0 <= d, d <= N[2] - 1),
                                                And_(0 <= (a * N[1] + b) * N[2] + d, (a * N[1] + b) <= N[0] * N[1] - 1,
                                                     (a * N[1] + b) * N[2] + d <= (N[0] * N[1] - 1) * N[2] + N[2] - 1)))))
        out.append(plain('different bins have different places', forall(B + B2, Imp(And_(self.inr(B), self.inr(B2), fl(*B) == fl(*B2)), And_(*[s == t for s, t in zip(B, B2)])),
                                                                        [z3.MultiPattern(fl(*B), fl(*B2))])))
        out.append(plain('place of an entry', forall([p], Imp(And_(0 <= p, p < self.n), fl(*[x[p] for x in self.X]) == self.prod([x[p] for x in self.X])), [self.X[0][p]])))
        out.append(by_induction('counts grow', lambda t: forall([i] + B, Imp(And_(0 <= i, i <= t, t <= self.n), cnt(i, *B) <= cnt(t, *B)), [z3.MultiPattern(cnt(i, *B), cnt(t, *B))]),
                                z3.IntVal(0), self.n))
        return out

    def agree(self):
        """index arrays that agree on a bin have the same count there"""
        A, A2, B = ARR[:self.nd], ARR2[:self.nd], self.B

        def same(t):
            return forall([p], Imp(And_(0 <= p, p < t), And_(*[x[p] == s for x, s in zip(A, B)]) == And_(*[x[p] == s for x, s in zip(A2, B)])))
        c = lambda Y, t: self.cntf(*(Y + [t] + B))
        return by_induction('equal index arrays have equal counts', lambda t: forall(A + A2 + B, Imp(same(t), c(A, t) == c(A2, t)), [z3.MultiPattern(c(A, t), c(A2, t))]), z3.IntVal(0))


def cxx(nd):
    xs, ns = XS[:nd], NS[:nd]

    def S(c):
        return Spec(nd, [c.arr0(x) for x in xs], [c.old(n) for n in ns], c.arr('rResult'), c.arr0('rResult'))

    def req(c):
        s = S(c)
        return [('bins addressable', And_(s.tot <= U32, c.arr0('rResult').n == s.tot))]

    def loop(c):
        s, k = S(c), c['i']
        return [('range', And_(0 <= k, k <= s.n)), s.counts(k), s.inside(k)]

    def ens(c):
        s = S(c)
        return [s.counts(s.n), s.inside(s.n)]
    ps = dict(rSize=Int(0, U32))
    ps.update({n: Int(0, U32) for n in ns})
    ps.update({x: Arr('int', 1, 'u32', dims=['rSize']) for x in xs})
    ps.update(rResult=Arr('int', 1, 'u32' if nd < 3 else 'u16'))
    return Contract('histogram_%dd' % nd, ('cxx', H, 'histogram_%dd' % nd), ps, requires=req, ensures=ens, facts=lambda c: S(c).facts(), lemmas=lambda c: S(c).lemmas(),
                    raises={'*': lambda c: S(c).bad()}, modifies=['rResult'], inv={0: loop}, variant={0: lambda c: c.old('rSize') - c['i']}, nloops=1, roles=['i'])


def glue(nd):
    """the Cython function; its int32 buffers are read by the C++ function as uint32"""
    xs, ns = XS[:nd], ['n_x', 'n_y', 'n_z'][:nd]

    def S(c):
        return Spec(nd, [c.arr0(x) for x in xs], [c.old(n) for n in ns], c.arr('array_result'), c.arr0('array_result'))

    def req(c):
        s = S(c)
        return [('bins addressable', And_(s.tot <= U32, c.arr0('array_result').n == s.tot)), ('equal lengths', And_(s.n <= U32, *[x.n == s.n for x in s.X]))]
    ps = {x: Arr('int', 1, 'u32') for x in xs}
    ps.update({n: Int(0, U32) for n in ns})
    ps.update(array_result=Arr('int', 1, 'u32' if nd < 3 else 'u16'))
    if nd == 3:
        ps['throw_exception'] = BOOL
    return Contract('analysis_functions.hist_%dd' % nd, ('pyx', PYX, 'hist_%dd' % nd), ps, requires=req, ensures=lambda c: [S(c).counts(S(c).n), S(c).inside(S(c).n)],
                    facts=lambda c: S(c).facts(), raises={'*': lambda c: S(c).bad()}, modifies=['array_result'], nloops=0)


def wrapper(nd):
    xs = XS[:nd]

    def N(c):
        return c.old('shape').elts

    def S(c):
        return Spec(nd, [c.arr0(x) for x in xs], N(c))

    def req(c):
        s = S(c)
        return [('bins addressable', And_(s.tot <= U32, *[And_(0 <= n, n < 2 ** 31) for n in s.N])), ('fewer than 2^32 entries', And_(s.n <= U32))]

    def ens(c):
        s = S(c)
        r = c.arr(c.result)
        return [('shape of the histogram', And_(*[x == y for x, y in zip(r.dims, s.N)])),
                ('every bin has as many entries as there are such index tuples', forall(s.B, Imp(And_(s.inr(s.B), s.fl(*s.B) == s.prod(s.B)), r[tuple(s.B)] == s.cnt(s.n, *s.B)))),
                ('indices outside never return', s.inside(s.n)[1]), ('equal lengths', And_(*[x.n == s.n for x in s.X]))]

    def bad(c):
        s = S(c)
        return Or_(s.bad(), *[x.n != s.n for x in s.X])
    return Contract('hist_%dd_index' % nd, ('py', AU, 'hist_%dd_index' % nd), dict([(x, Arr('int', 1)) for x in xs] + [('shape', [Int()] * nd)]), requires=req, ensures=ens,
                    facts=lambda c: S(c).facts(), lemmas=lambda c: [S(c).agree()], raises={'*': bad}, result=Arr('int', nd), nloops=0)


def CONTRACTS():
    return [cxx(k) for k in (1, 2, 3)] + [glue(k) for k in (1, 2, 3)] + [wrapper(k) for k in (1, 2, 3)]


TRUSTED = ['numpy: any / zeros / astype / ascontiguousarray / ravel / reshape as modelled', 'Cython argument passing (pointer and length of the same array)']
ASSUME = ['the histogram has at most 2^32-1 bins and every axis fewer than 2^31', 'fewer than 2^32 entries']
BUILD = True
BUDGET = 16


def oracle(o):
    from contracts.cxxharness import relayout
    import itertools
    np = o.np
    au = o.mod('tools.analysis_utils')

    def one(xs, shape, dt=np.int64):
        xs = [relayout(o, np.array(x, dt)) for x in xs]
        nd = len(xs)
        f = getattr(au, 'hist_%dd_index' % nd)
        o.count(f.__name__, nontrivial=len(xs[0]) > 0, sample=([x.tolist() for x in xs], shape))
        try:
            r = f(*(list(xs) + [shape]))
        except (IndexError, OverflowError, MemoryError, ValueError, RuntimeError) as ex:
            r = ex
        call = '%s(%s, %s)' % (f.__name__, ', '.join(str(x.tolist()) for x in xs), shape)
        data = dict(x=xs, shape=shape)
        bad = len(set(len(x) for x in xs)) > 1 or any(not 0 <= t < n for x, n in zip(xs, shape) for t in x.tolist())
        if bad:
            o.check(isinstance(r, Exception), 'bad index accepted', call + ': an error is expected, got %s' % (r,), data)
            return
        o.check(not isinstance(r, Exception), 'valid index rejected', call + ' raises %r' % (r,), data)
        exp = np.zeros(shape, np.int64)
        for t in zip(*[x.tolist() for x in xs]):
            exp[t] += 1
        o.check(r.shape == tuple(shape) and np.array_equal(r, exp), 'histogram', call + ' = %s, expected %s' % (r.tolist(), exp.tolist()), data)
    for n in range(0, 4):
        for x in itertools.product(range(-1, 3), repeat=n):
            one([x], (2,))
            one([x, x[::-1]], (2, 1))
            one([x, x[::-1]], (2, 3))
    for t in itertools.product(range(-1, 3), range(-1, 4), range(-1, 5)):
        one([[t[0]], [t[1]]], (2, 3))
        one([[t[0]], [t[1]], [t[2]]], (2, 3, 4))
        one([[t[0], 0], [t[1], 1], [t[2], 0]], (2, 3, 4))
    for big in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33, -2 ** 31, -2 ** 32, -2 ** 32 + 1):
        for pos in (0, 1):
            x = [1, 1]
            x[pos] = big
            one([x], (3,))
            for k in range(2):
                one([x if j == k else [0, 1] for j in range(2)], (3, 3))
            for k in range(3):
                one([x if j == k else [0, 1] for j in range(3)], (3, 3, 3))
    one([[0, 1], [0]], (2, 2))
    one([[0, 1], [0, 1], [0]], (2, 2, 2))
    one([[0, 1], [0], [0, 1]], (2, 2, 2))
    for n in (65535, 65536, 65537):            # the bins of a 3-d histogram have 16 bits
        z = np.zeros(n, np.int32)
        o.count('overflow of a 3-d histogram bin', sample=n)
        try:
            r = int(au.hist_3d_index(z, z, z, (1, 1, 2))[0, 0, 0])
        except Exception:
            r = None
        o.check(r == (n if n <= 65535 else None), 'bin overflow', 'hist_3d_index with %d entries in one bin gives %s' % (n, r), dict(n=n))
    while o.more():
        nd = int(o.rng.integers(1, 4))
        shape = tuple(int(k) for k in o.rng.integers(1, 6, nd))
        n = int(o.rng.integers(0, 40))
        slack = int(o.rng.random() < 0.2)
        dt = [np.int64, np.int32, np.uint32, np.uint16, np.uint8, np.int16][int(o.rng.integers(0, 6))]
        xs = [o.rng.integers(-slack if np.dtype(dt).kind == 'i' else 0, k + slack, n) for k in shape]
        one(xs, shape, dt)


def oracle_asan(o):
    from contracts import cxxharness
    import itertools
    cases = []
    for nd in (1, 2, 3):
        shape = (2, 3, 2)[:nd]
        tot = int(o.np.prod(shape))
        for t in itertools.product(*[range(k + 1) for k in shape]):
            for n in (0, 1, 3):
                cases.append(('H%d' % nd, [[x] * n for x in t], list(shape), [0] * tot))
            cases.append(('H%d' % nd, [[x, 0] for x in t], list(shape), list(range(tot))))
        mx = 4294967295 if nd < 3 else 65535
        for v in (mx - 2, mx - 1, mx):
            cases.append(('H%d' % nd, [[1, 1]] * nd, list(shape), [v] * tot))
    cxxharness.run(o, cases)


ORACLE = [('wrappers', oracle), ('C++ functions under sanitizers', oracle_asan)]
