"""Shared specifications of the geometry (E1)."""
import numpy as np

from vf import symx
from vf.symx import z3, S, A, NP, SIN, COS

ANGLES = ('alpha', 'beta', 'gamma')


def sc(a):
    a = symx.lnum(a)
    return S(SIN(a.r)) if a.c != 0 else S(c=symx.Fraction(0)), S(COS(a.r)) if a.c != 0 else S(c=symx.Fraction(1))


def spec_rot(alpha, beta, gamma):
    """rotation about x, then y, then z: closed form Rz(gamma) Ry(beta) Rx(alpha), written out entry by entry"""
    (sa, ca), (sb, cb), (sg, cg) = sc(alpha), sc(beta), sc(gamma)
    return [[cg * cb, cg * sb * sa - sg * ca, cg * sb * ca + sg * sa],
            [sg * cb, sg * sb * sa + cg * ca, sg * sb * ca - cg * sa],
            [-sb, cb * sa, cb * ca]]


def mat_vec(m, v):
    return [m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def sval(a):
    """the generic row of a one-dimensional array, or the scalar itself"""
    if isinstance(a, A):
        return a.d.flat[0]
    return a


def kw6(c, suffix='', given='xyzabg'):
    """explicit alignment: only the given ones"""
    names = dict(x='translation_x', y='translation_y', z='translation_z', a='rotation_alpha', b='rotation_beta', g='rotation_gamma')
    return {names[k]: c.real(names[k] + suffix) for k in given}


NAMES6 = ('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma')


# ---- numpy specifications for the bounded oracle
def np_rot(alpha, beta, gamma):
    sa, ca, sb, cb, sg, cg = np.sin(alpha), np.cos(alpha), np.sin(beta), np.cos(beta), np.sin(gamma), np.cos(gamma)
    return np.array([[cg * cb, cg * sb * sa - sg * ca, cg * sb * ca + sg * sa],
                     [sg * cb, sg * sb * sa + cg * ca, sg * sb * ca - cg * sa],
                     [-sb, cb * sa, cb * ca]])
