"""C02: size and second-moment conversions"""
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import disk, fl, logfl
from ngmix import moments as M
from ngmix import shape as S
from ngmix.gexceptions import GMixRangeError
import ngmix

ORACLE = ('closed forms of the gaussian size relations, numerical gaussian integrals, and the 2x2 matrix '
          'transformation A C A^T with unit-determinant A')
R = Registry()
sizes = st.lists(logfl(1e-6, 1e6), min_size=1, max_size=5)


@R.law(st.fixed_dictionaries(dict(x=sizes)), quick=3000, rule='any positive size away from 1')
def size_conversions(case, ctx):
    """T, sigma, FWHM and half-light scale: mutual inverses, monotone, equal to the closed forms and to gaussian integrals"""
    x = np.array(case['x'])
    ctx.nontrivial(np.any(np.abs(np.log(x)) > 0.1))
    F = 2 * math.sqrt(2 * math.log(2))
    # definitions: fwhm = F sigma, T = 2 sigma^2, gaussian half-light radius = fwhm/2
    table = [
        (M.sigma_to_fwhm, M.fwhm_to_sigma, lambda s: F * s),
        (M.T_to_fwhm, M.fwhm_to_T, lambda T: F * np.sqrt(T / 2)),
        (M.sigma_to_r50, M.r50_to_sigma, lambda s: F * s / 2),
        (M.T_to_r50, M.r50_to_T, lambda T: F / 2 * np.sqrt(T / 2)),
    ]
    for f, g, ref in table:
        close(f(x), ref(x), 1e-12, 0, f.__name__)
        close(g(f(x)), x, 1e-12, 0, f.__name__ + ' inverse')
        close(f(g(x)), x, 1e-12, 0, g.__name__ + ' inverse')
        for i in range(x.size):
            close(f(case['x'][i]), f(x)[i], 1e-14, 0, f.__name__ + ' scalar')
            close(g(case['x'][i]), g(x)[i], 1e-14, 0, g.__name__ + ' scalar')
        o = np.sort(x)
        check(np.all(np.diff(f(o)) >= 0) and np.all(np.diff(g(o)) >= 0), '%s monotonic', f.__name__)
    s = case['x'][0]
    # a gaussian falls to half its peak at fwhm/2; half its light is inside r50
    close(math.exp(-0.5 * (M.sigma_to_fwhm(s) / 2 / s) ** 2), 0.5, 1e-12, 0, 'half maximum')
    close(1 - math.exp(-0.5 * (M.sigma_to_r50(s) / s) ** 2), 0.5, 1e-12, 0, 'half light')


@R.law(st.fixed_dictionaries(dict(g=disk(0.97), T=logfl(1e-4, 1e4), g2=disk(0.9), T2=logfl(1e-2, 1e2))),
       quick=3500, rule='non-round')
def moment_roundtrip(case, ctx):
    """(shape, size) to second moments and back for every convention"""
    g, T = case['g'], case['T']
    ctx.nontrivial(math.hypot(*g) > 1e-3)
    m = math.hypot(*g)
    e1, e2 = S.g1g2_to_e1e2(g[0], g[1])
    tl = 1e-12 + 1e-14 / (1 - m) ** 2
    # e <-> moments, against the matrix definition
    irr, irc, icc = M.e2mom(e1, e2, T)
    close([irr + icc, icc - irr, 2 * irc], [T, e1 * T, e2 * T], 1e-12, 1e-14 * T, 'e2mom definition')
    b = M.mom2e(irr, irc, icc)
    close(b, [e1, e2, T], 1e-11, 1e-14, 'mom2e(e2mom)')
    o = M.g2mom(g[0], g[1], T)
    close(o, [irr, irc, icc], 1e-11, 1e-13 * T, 'g2mom vs e2mom')
    b = M.mom2g(*o)
    close(b[:2], g, tl, tl, 'mom2g(g2mom) shape')
    close(b[2], T, 1e-12, 0, 'mom2g(g2mom) size')
    check(irr * icc - irc**2 > 0, 'moments are positive definite')
    b = M.moms_to_e1e2(icc - irr, 2 * irc, irr + icc)
    close(b, [e1, e2], 1e-11, 1e-14, 'moms_to_e1e2')
    # round size: keeps the determinant
    Tr = M.get_Tround(T, g[0], g[1])
    close((Tr / 2) ** 2, irr * icc - irc**2, 1e-9 / (1 - m) ** 2, 0, 'Tround keeps the determinant')
    close(M.get_T(Tr, g[0], g[1]), T, 1e-11, 0, 'get_T(get_Tround)')
    close(M.get_Tround(M.get_T(T, g[0], g[1]), g[0], g[1]), T, 1e-11, 0, 'get_Tround(get_T)')
    # arrays
    ga = np.array([g, case['g2']])
    Ta = np.array([T, case['T2']])
    a = M.g2mom(ga[:, 0].copy(), ga[:, 1].copy(), Ta.copy())
    for i in range(2):
        close([a[k][i] for k in range(3)], M.g2mom(float(ga[i, 0]), float(ga[i, 1]), float(Ta[i])), 1e-12, 1e-15, 'g2mom array')
    a2 = M.mom2g(*[q.copy() for q in a])
    for i in range(2):
        close([a2[k][i] for k in range(3)], M.mom2g(*[float(q[i]) for q in a]), 1e-12, 1e-15, 'mom2g array')
    e = S.g1g2_to_e1e2(ga[:, 0].copy(), ga[:, 1].copy())
    a3 = M.e2mom(e[0], e[1], Ta.copy())
    close(np.array(a3), np.array(a), 1e-11, 1e-13 * Ta.max(), 'e2mom array')
    a4 = M.mom2e(*[q.copy() for q in a])
    close(a4[0], e[0], 1e-10, 1e-13, 'mom2e array 1')
    close(a4[1], e[1], 1e-10, 1e-13, 'mom2e array 2')
    close(M.get_Tround(Ta, ga[:, 0], ga[:, 1]), [M.get_Tround(Ta[i], ga[i, 0], ga[i, 1]) for i in range(2)], 1e-14, 0, 'Tround array')
    close(M.get_T(Ta, ga[:, 0], ga[:, 1]), [M.get_T(Ta[i], ga[i, 0], ga[i, 1]) for i in range(2)], 1e-14, 0, 'get_T array')
    m5 = M.moms_to_e1e2(a[2] - a[0], 2 * a[1], a[0] + a[2])
    close(m5[0], e[0], 1e-10, 1e-13, 'moms_to_e1e2 array')
    close(m5[1], e[1], 1e-10, 1e-13, 'moms_to_e1e2 array')


def shear_matrix(s):
    a = np.array([[1 + s[0], s[1]], [s[1], 1 - s[0]]])
    return a / math.sqrt(1 - s[0] ** 2 - s[1] ** 2)


@R.law(st.fixed_dictionaries(dict(g=disk(0.9), T=logfl(1e-3, 1e3), s=disk(0.8), g2=disk(0.5))), quick=3500,
       rule='non-zero shape and shear')
def sheared_moments(case, ctx):
    """sheared moments are A C A^T with unit determinant A, and agree with shearing the shape"""
    g, T, s = case['g'], case['T'], case['s']
    mg, ms = math.hypot(*g), math.hypot(*s)
    ctx.nontrivial(mg > 1e-3 and ms > 1e-3)
    tl = 1e-11 / ((1 - mg) * (1 - ms)) ** 2
    irr, irc, icc = M.g2mom(g[0], g[1], T)
    C = np.array([[icc, irc], [irc, irr]])
    A = shear_matrix(s)
    ref = A.dot(C).dot(A.T)
    Ts = ref[0, 0] + ref[1, 1]
    o = M.get_sheared_moments(irr, irc, icc, s[0], s[1])
    close(o, [ref[1, 1], ref[0, 1], ref[0, 0]], tl, tl * Ts, 'sheared moments vs matrix')
    M1, M2 = icc - irr, 2 * irc
    o2 = M.get_sheared_M1M2T(M1, M2, T, s[0], s[1])
    close(o2, [ref[0, 0] - ref[1, 1], 2 * ref[0, 1], Ts], tl, tl * Ts, 'sheared M1,M2,T vs matrix')
    o3 = M.get_sheared_g1g2T(g[0], g[1], T, s[0], s[1])
    gs = S.shear_reduced(g[0], g[1], s[0], s[1])
    close(o3[:2], gs, 1e-12, 1e-15, 'sheared g agrees with shearing the shape')
    close(o3[2], Ts, tl, 0, 'sheared T vs matrix')
    # undoing the shear
    back = M.get_sheared_moments(o[0], o[1], o[2], -s[0], -s[1])
    tb = 1e-10 / ((1 - mg) * (1 - ms)) ** 4
    close(back, [irr, irc, icc], tb, tb * T, 'opposite shear undoes')
    zero = M.get_sheared_moments(irr, irc, icc, 0.0, 0.0)
    close(zero, [irr, irc, icc], tl, tl * T, 'zero shear')
    # arrays of objects, common shear
    m2 = M.g2mom(case['g2'][0], case['g2'][1], 2 * T)
    arr = [np.array([x, y]) for x, y in zip((irr, irc, icc), m2)]
    keep = [x.copy() for x in arr]
    oa = M.get_sheared_moments(arr[0], arr[1], arr[2], s[0], s[1])
    for a, k in zip(arr, keep):
        check(np.array_equal(a, k), 'input moments changed')
    ob = M.get_sheared_moments(*m2, s[0], s[1])
    for k in range(3):
        close(oa[k][0], o[k], 1e-10 / (1 - mg) ** 2, tl * Ts, 'array 0')
        close(oa[k][1], ob[k], 1e-10, tl * Ts * 2, 'array 1')


@R.law(st.fixed_dictionaries(dict(T=st.one_of(st.just(0.0), fl(-10, 0.0)), M1=fl(-1, 1), M2=fl(-1, 1), pos=st.integers(0, 2),
                                  s=disk(0.5), k=fl(1.0, 3.0), g=disk(0.9))),
       quick=1000, rule='non-positive size or impossible moments')
def invalid_rejected(case, ctx):
    """non-positive sizes and impossible moments raise the documented error"""
    ctx.nontrivial()
    raises(GMixRangeError, M.moms_to_e1e2, case['M1'], case['M2'], case['T'], _msg='moms_to_e1e2')
    raises(GMixRangeError, M.get_sheared_M1M2T, case['M1'], case['M2'], case['T'], 0.1, 0.0, _msg='get_sheared_M1M2T')
    T = np.array([1.0, 2.0, 3.0])
    T[case['pos']] = case['T']
    raises(GMixRangeError, M.moms_to_e1e2, T * 0.1, T * 0.1, T, _msg='array')
    # |e| >= 1 in the moments
    m = math.hypot(*case['s'])
    # |e| = k >= 1, up to roundoff
    e1, e2 = (case['s'][0] / m * case['k'], case['s'][1] / m * case['k']) if m > 1e-3 else (case['k'], 0.0)
    e1, e2 = e1 * 1.000001, e2 * 1.000001
    irr, irc, icc = M.e2mom(e1, e2, 2.0)
    raises(GMixRangeError, M.mom2g, irr, irc, icc, _msg='mom2g')
    raises(GMixRangeError, M.get_sheared_moments, irr, irc, icc, 0.1, 0.1, _msg='get_sheared_moments')
    raises(GMixRangeError, M.g2mom, e1, e2, 2.0, _msg='g2mom')
    assert ngmix.moments is M
