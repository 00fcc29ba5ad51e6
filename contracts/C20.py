"""C20 cluster shape codes and bit counts are exact."""
import numpy as np

from vf import symx
from vf.symx import z3, S, SB, BVS, A, Loader, explore, call, Raised

AU = 'beam_telescope_analysis/tools/analysis_utils.py'
MOD = 'beam_telescope_analysis.tools.analysis_utils'


def module():
    return Loader(merge=[MOD]).module(MOD)


def bit(v, i):
    v = v if isinstance(v, BVS) else BVS(z3.BitVecVal(int(v), 64))
    return z3.Extract(i, i, v.v) == 1 if i < v.v.size() else z3.BoolVal(False)


def code(x, y):
    """bit number of column x, row y: their bits interleaved"""
    return sum(((x >> k & 1) << 2 * k) | ((y >> k & 1) << 2 * k + 1) for k in range(32))


def count(bits):
    def run(c):
        m = module()
        w = BVS(z3.BitVec('val', bits), bits == 64)
        if bits == 64:
            c.assume(z3.ULT(w.v, z3.BitVecVal(1 << 32, 64)))
        r = call(m.number_of_set_bits, w)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        spec = z3.BitVecVal(0, 64)
        for i in range(32):
            spec = spec + z3.ZeroExt(63, z3.Extract(i, i, w.v))
        got = r.v if r.v.size() == 64 else z3.ZeroExt(64 - r.v.size(), r.v)
        c.goal('number of set bits', got == spec)
    return explore('bit count of a %d bit integer' % bits, AU, run)


def interleave():
    def run(c):
        m = module()
        x, y = BVS(z3.BitVec('x', 32)), BVS(z3.BitVec('y', 32))
        # numba promotes the 32 bit arguments to 64 bit in the shifts
        r = call(m.xy2d_morton, BVS(z3.ZeroExt(32, x.v)), BVS(z3.ZeroExt(32, y.v)))
        for i in range(32):
            c.goal('bit %d of x' % i, bit(r, 2 * i) == bit(x, i))
            c.goal('bit %d of y' % i, bit(r, 2 * i + 1) == bit(y, i))
        d = BVS(z3.BitVec('d', 64))
        # only numbers of 32 bit (tuples of 16 bit) are decoded; a shape needs 64 pixels
        c.assume(z3.ULT(d.v, z3.BitVecVal(1 << 32, 64)))
        u, v = call(m.d2xy_morton, d)
        for i in range(64):
            c.goal('x bit %d of the decoded number' % i, bit(u, i) == (bit(d, 2 * i) if i < 16 else z3.BoolVal(False)))
            c.goal('y bit %d of the decoded number' % i, bit(v, i) == (bit(d, 2 * i + 1) if i < 16 else z3.BoolVal(False)))
    return explore('Morton numbers', AU, run)


def pattern(c):
    return A(np.array([[SB(z3.Bool('p_%d_%d' % (x, y))) for y in range(8)] for x in range(8)], dtype=object), (None, None), 'b')


def as64(v):
    return v.v if isinstance(v, BVS) else z3.BitVecVal(int(v), 64)


def encode():
    def run(c):
        m = module()
        p = pattern(c)
        keep = p.copy()
        r = call(m.calculate_cluster_shape, p)
        if isinstance(r, Raised):
            c.goal('no error', False)
            return
        c.goal('64 bit unsigned', isinstance(r, BVS) and r.v.size() == 64 and not r.signed)
        for x in range(8):
            for y in range(8):
                c.goal('bit of pixel %d %d' % (x, y), bit(r, code(x, y)) == p.d[x, y].b)
        c.goal('pattern not changed', all(a is b for a, b in zip(p.d.flat, keep.d.flat)))
        q = call(m.calculate_cluster_array, r)
        if isinstance(q, Raised):
            c.goal('no error in decoding', False)
            return
        for x in range(8):
            for y in range(8):
                c.goal('pixel %d %d comes back' % (x, y), symx.truth(q.d[x, y]) == p.d[x, y].b)
    return explore('cluster shape number', AU, run)


def decode():
    def run(c):
        m = module()
        n = BVS(z3.BitVec('n', 64))
        q = call(m.calculate_cluster_array, n)
        if isinstance(q, Raised):
            c.goal('no error', False)
            return
        c.goal('8 x 8 pixels', q.d.shape == (8, 8))
        for x in range(8):
            for y in range(8):
                c.goal('pixel %d %d is its bit' % (x, y), symx.truth(q.d[x, y]) == bit(n, code(x, y)))
        r = call(m.calculate_cluster_shape, q)
        c.goal('number comes back', as64(r) == n.v)
    return explore('pattern of a number', AU, run)


SYM = [('count 32', AU + ':number_of_set_bits', lambda: count(32)), ('count 64', AU + ':number_of_set_bits', lambda: count(64)),
       ('interleave', AU + ':xy2d_morton, morton_1, d2xy_morton', interleave),
       ('encode', AU + ':calculate_cluster_shape', encode), ('decode', AU + ':calculate_cluster_array', decode)]


def o_shape(o):
    a = o.mod('tools.analysis_utils')
    r = o.rng
    seen = {}
    while o.more():
        mode = r.integers(0, 4)
        p = r.random((8, 8)) < r.random()
        if mode == 0:
            p = np.zeros((8, 8), bool)
            for _ in range(int(r.integers(0, 4))):
                p[r.integers(0, 8), r.integers(0, 8)] = True
        elif mode == 1:
            p = ~p if r.random() < .5 else np.ones((8, 8), bool)
        n = a.calculate_cluster_shape(p.copy())
        ref = sum(1 << code(int(x), int(y)) for x, y in zip(*np.nonzero(p)))
        o.check(int(n) == ref, 'encode', 'number %s instead of %s' % (n, ref), dict(pattern=p))
        q = a.calculate_cluster_array(np.uint64(n))
        o.check(np.array_equal(q, p), 'decode', 'pattern does not come back', dict(pattern=p, number=str(n), decoded=q))
        k = p.tobytes()
        o.check(seen.setdefault(int(n), k) == k, 'distinct', 'two patterns with the same number', dict(pattern=p, number=str(n)))
        x, y = int(r.integers(0, 2 ** 16)), int(r.integers(0, 2 ** 16))
        if r.random() < .5:
            x, y = int(r.integers(0, 8)), int(r.integers(0, 8))
        d = int(a.xy2d_morton(np.uint32(x), np.uint32(y)))
        o.check(d == code(x, y), 'morton', 'Morton number of %d %d is %d' % (x, y, d), dict(x=x, y=y))
        u, v = a.d2xy_morton(np.uint64(d))
        o.check((int(u), int(v)) == (x, y), 'morton-back', 'Morton number %d decoded as %s %s' % (d, u, v), dict(x=x, y=y))
        o.count('patterns', p.any(), str(n))


def o_bits(o):
    a = o.mod('tools.analysis_utils')
    r = o.rng
    while o.more():
        v = r.integers(0, 2 ** 32, 50, dtype=np.uint64)
        s = r.integers(0, 33, 50)
        v = v >> s.astype(np.uint64)
        v[0], v[1] = 0, 2 ** 32 - 1
        ref = np.array([bin(int(x)).count('1') for x in v])
        for t in (np.uint32, np.int64):
            o.check(np.array_equal(a.number_of_set_bits(v.astype(t)), ref), 'bits', 'wrong bit count', dict(values=v, dtype=str(np.dtype(t))))
        k = int(v[7])
        o.check(a.number_of_set_bits(k) == ref[7], 'bits', 'wrong bit count of a Python integer', dict(value=k))
        o.count('words', True, k)


ORACLE = [('cluster shapes', o_shape), ('bit counts', o_bits)]
BUDGET = 12
TRUSTED = ['numba converts declared types (locals, signatures) as in vf/merge.py and computes the shifts of xy2d_morton in 64 bit',
           'numpy.nonzero lists the set entries in row order']
ASSUME = ['arguments of xy2d_morton are 32 bit, numbers given to d2xy_morton below 2^32 (64 are used), words given to number_of_set_bits are 32 bit']
LEVEL = 'proof'
