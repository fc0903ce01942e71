"""C10: convolution and shear of mixtures"""
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import (fl, disk, logfl, ints, model_case, build, ref_of, ref_moments, ref_eval, ref_convolve, full_pars,
                 seeds, rng_of, sort_full)
import ngmix
from ngmix import Shape
from ngmix.gmix import GMix, GMixModel, GMixCM, GMixCoellip
from ngmix.gexceptions import GMixRangeError

ORACLE = ('pairwise gaussian convolution formulas in numpy, numerical convolution integrals of the two surface brightnesses, '
          'and the matrix transformation A C A^T of each covariance')
R = Registry()


def warmup():
    gm = GMixModel([0, 0, 0.1, 0.1, 4, 1.0], 'exp')
    gm.convolve(gm)
    for m in ('gauss', 'turb', 'dev'):
        GMixModel([0, 0, 0.1, 0.1, 4, 1.0], m)
    GMixModel([0, 0, 0.1, 0.1, 4, 0, 0.5, 1.0], 'bd')
    GMixModel([0, 0, 0.1, 0.1, 4, 0.5, 1.0], 'bdf')
    GMixCM(0.5, 1.0, [0, 0, 0.1, 0.1, 4, 1.0])
    GMixCoellip([0, 0, 0.1, 0.1, 4, 2, 1.0, 1])
    GMix(pars=[1, 0, 0, 1, 0, 1])


def canon(full):
    """gaussians in an order that does not depend on rounding"""
    f = np.asarray(full, dtype='f8').reshape(-1, 6)
    key = np.round(f / (np.abs(f).max() + 1e-300), 9)
    return f[np.lexsort(key.T[::-1])]


@R.law(st.fixed_dictionaries(dict(a=model_case(), b=full_pars(1, 3, cen=1.0, Tlo=0.1), fb=logfl(1e-3, 1e3))), quick=3000,
       rule='several gaussians in the psf, with offset centers')
def definition(case, ctx):
    """every pair of components: product of fluxes over the psf flux, summed covariance, offset from the psf mean"""
    a = build(case['a'])
    pb = np.array(case['b']).reshape(-1, 6)
    pb[:, 0] *= case['fb']
    b = GMix(pars=pb.ravel())
    ra, rb = a.get_full_pars(), b.get_full_pars()
    ctx.nontrivial(len(b) > 1 and np.ptp(pb[:, 1]) > 0.01)
    c = a.convolve(b)
    check(type(c) is GMix and len(c) == len(a) * len(b), 'type and number of gaussians')
    close(a.get_full_pars(), ra, 0, 0, 'object changed')
    close(b.get_full_pars(), rb, 0, 0, 'psf changed')
    full = c.get_full_pars().reshape(-1, 6)
    # pairs in any order: match by nested order first, then as a set
    ref = np.array(ref_convolve(ra, rb)).reshape(-1, 6)
    sc = np.abs(ref).max(axis=0)
    try:
        for k in range(6):
            close(full[:, k], ref[:, k], 1e-9, 1e-11 * sc[k], 'component')
    except AssertionError:
        x, y = canon(full), canon(ref)
        for k in range(6):
            close(x[:, k], y[:, k], 1e-9, 1e-9 * sc[k], 'set of components, element %d' % k)
    A, B, C = ref_moments(ra), ref_moments(rb), ref_moments(full)
    if abs(A[0]) > 1e-3 * np.abs(np.array(ra)[0::6]).sum():
        close(C[0], A[0], 1e-9, 0, 'flux kept for any psf normalisation')
        close(C[1:3], A[1:3], 1e-8, 1e-8, 'center kept')
        for k in (3, 4, 5):
            close(C[k], A[k] + B[k], 1e-8, 1e-8 * (abs(A[3]) + abs(A[5]) + B[3] + B[5]), 'second moments add')
        close(c.get_T(), A[3] + A[5] + B[3] + B[5], 1e-8, 0, 'T adds')
        close(c.get_flux(), A[0], 1e-9, 0, 'get_flux')
    # usable at once, and independent of its inputs
    c.set_flux(7.0)
    c.set_cen(3.0, 3.0)
    close(a.get_full_pars(), ra, 0, 0, 'object shared')
    close(b.get_full_pars(), rb, 0, 0, 'psf shared')
    for bad in (None, 3.0, pb, 'gauss'):
        raises(TypeError, a.convolve, bad, _msg='not a mixture')


@R.law(st.fixed_dictionaries(dict(a=full_pars(1, 2, cen=0.6, Tlo=0.8, Thi=3, emax=0.4), b=full_pars(1, 3, cen=0.6, Tlo=0.8, Thi=3, emax=0.4),
                                  x=st.lists(st.tuples(fl(-2, 2), fl(-2, 2)), min_size=2, max_size=4))), quick=200, rule='offset psf gaussians')
def integral(case, ctx):
    """numerical convolution integral with the psf recentered and normalised"""
    A = np.array(case['a']).reshape(-1, 6)
    B = np.array(case['b']).reshape(-1, 6)
    ctx.nontrivial(len(B) > 1)
    c = GMix(pars=A.ravel()).convolve(GMix(pars=B.ravel()))
    mo = ref_moments(B)
    Bc = B.copy()
    Bc[:, 0] /= mo[0]
    Bc[:, 1] -= mo[1]
    Bc[:, 2] -= mo[2]
    g = np.arange(-11, 11.001, 0.25)
    v, u = np.meshgrid(g, g, indexing='ij')
    bi = ref_eval(Bc, v, u)
    cf = c.get_full_pars()
    for x, y in case['x']:
        num = (ref_eval(A, x - v, y - u) * bi).sum() * 0.25**2
        close(ref_eval(cf, x, y), num, 1e-5, 1e-8 * A[:, 0].sum(), 'convolution integral')


@R.law(st.fixed_dictionaries(dict(mix=st.lists(full_pars(1, 3, cen=1.0), min_size=3, max_size=3), x=st.lists(st.tuples(fl(-3, 3), fl(-3, 3)), min_size=1, max_size=4))),
       quick=1000, rule='several gaussians in each')
def algebra(case, ctx):
    """commutative, associative and linear for centered, normalised mixtures"""
    ms = []
    for p in case['mix']:
        gm = GMix(pars=p)
        gm.set_cen(0.0, 0.0)
        gm.set_flux(1.0)
        ms.append(gm)
    a, b, c = ms
    ctx.nontrivial(len(a) > 1 and len(b) > 1)
    v = np.array([t[0] for t in case['x']])
    u = np.array([t[1] for t in case['x']])

    def ev(g):
        return ref_eval(g.get_full_pars(), v, u)
    tol = dict(rtol=1e-8, atol=1e-12)
    close(ev(a.convolve(b)), ev(b.convolve(a)), msg='commutative', **tol)
    close(ev(a.convolve(b).convolve(c)), ev(a.convolve(b.convolve(c))), msg='associative', **tol)
    close(ev(a.convolve(b).convolve(c)), ev(a.convolve(c).convolve(b)), msg='psf order', **tol)
    s = ngmix.gmix.gmix_concat([a, b])
    close(ev(s.convolve(c)), ev(a.convolve(c)) + ev(b.convolve(c)), msg='sum of objects', **tol)
    b3 = b.copy()
    b3.set_flux(37.0)
    close(ev(a.convolve(b3)), ev(a.convolve(b)), msg='psf normalisation', **tol)


def shear_ref(full, g1, g2):
    A = np.array([[1 + g1, g2], [g2, 1 - g1]]) / math.sqrt(1 - g1 * g1 - g2 * g2)
    out = np.array(full, dtype='f8').reshape(-1, 6).copy()
    for i in range(len(out)):
        C = A.dot(np.array([[out[i, 5], out[i, 4]], [out[i, 4], out[i, 3]]])).dot(A.T)
        out[i, 3:] = C[1, 1], C[0, 1], C[0, 0]
    return out


_conc = st.one_of(
    model_case(models=['gauss', 'turb', 'exp', 'dev', 'bd', 'bdf', 'cm', 'coellip'], gmax=0.8),
    st.tuples(full_pars(1, 4, emax=0.7), fl(-2, 2), fl(-2, 2)).map(lambda t: dict(model='full', pars=_recenter(*t))),
)


def _recenter(p, r, c):
    p = list(p)
    p[1::6] = [r] * (len(p) // 6)
    p[2::6] = [c] * (len(p) // 6)
    return p


@R.law(st.fixed_dictionaries(dict(a=_conc, p=_conc, s=disk(0.7), t=disk(0.3), form=st.booleans(), shift=st.tuples(fl(-1, 1), fl(-1, 1)))), quick=2500,
       rule='sheared mixture that is not round')
def shear(case, ctx):
    """covariances transform with the shear map; undone by the opposite shear; commutes with convolution"""
    a, psf = build(case['a']), build(case['p'])
    g1, g2 = case['s']
    ra = a.get_full_pars()
    ctx.nontrivial(math.hypot(g1, g2) > 1e-3 and np.abs(ra[4::6]).max() > 1e-3)

    def sh(gm, x, y):
        return gm.get_sheared(Shape(x, y)) if case['form'] else gm.get_sheared(x, y)
    b = sh(a, g1, g2)
    ref = shear_ref(ra, g1, g2)
    sc = np.abs(ref[:, 3:]).max()
    fb = b.get_full_pars().reshape(-1, 6)
    close(a.get_full_pars(), ra, 0, 0, 'input changed')
    close(fb[:, :3], ref[:, :3], 1e-12, 1e-12, 'flux and center')
    close(fb[:, 3:], ref[:, 3:], 1e-9, 1e-11 * sc, 'covariance map')
    close(b.get_flux(), a.get_flux(), 1e-12, 0, 'total flux')
    # determinants are kept by a unit determinant map
    d0 = ra[3::6] * ra[5::6] - ra[4::6]**2
    close(b.get_data()['det'], d0, 1e-6, 0, 'determinant')
    # form of the argument
    c = a.get_sheared(g1, g2)
    d = a.get_sheared(Shape(g1, g2))
    close(c.get_full_pars(), d.get_full_pars(), 1e-14, 0, 'argument form')
    raises(ValueError, a.get_sheared, g1, _msg='one number')
    # undone by the opposite
    back = sh(b, -g1, -g2)
    close(back.get_full_pars().reshape(-1, 6)[:, 3:], ra.reshape(-1, 6)[:, 3:], 1e-8, 1e-10 * sc, 'undone')
    close(sh(a, 0.0, 0.0).get_full_pars(), ra, 1e-13, 0, 'zero shear')
    # brightness: S(x) of the sheared object is that of the original at A^-1 x
    Ainv = np.array([[1 - g1, -g2], [-g2, 1 + g1]]) / math.sqrt(1 - g1 * g1 - g2 * g2)
    du, dv = case['shift']
    r0, c0 = ra[1], ra[2]
    uo, vo = Ainv.dot([du, dv])
    close(ref_eval(fb, r0 + dv, c0 + du), ref_eval(ra, r0 + vo, c0 + uo), 1e-7, 1e-12, 'brightness map')
    # commutes with convolution by an equally sheared psf
    x = sh(a.convolve(psf), g1, g2).get_full_pars().reshape(-1, 6)
    y = sh(a, g1, g2).convolve(sh(psf, g1, g2)).get_full_pars().reshape(-1, 6)
    close(x[:, 3:], y[:, 3:], 1e-9, 1e-10 * np.abs(x[:, 3:]).max(), 'commutes with convolution')
    close(x[:, :3], y[:, :3], 1e-9, 1e-9, 'commutes with convolution: flux, center')
    # single-shape models follow the shape composition law
    if case['a']['model'] != 'full' and (case['a']['model'] == 'coellip' or case['a']['pars'][-1] != 0):
        s0 = Shape(*case['a']['pars'][2:4])
        s1 = s0.get_sheared(g1, g2)
        if math.hypot(s1.g1, s1.g2) < 0.95:
            gg = b.get_g1g2T()
            close(gg[:2], [s1.g1, s1.g2], 1e-6, 1e-8, 'shape composition')


@R.law(st.fixed_dictionaries(dict(a=_conc, keep=st.booleans())), quick=1500, rule='not round')
def rounding(case, ctx):
    """rounding gives zero ellipticity and the documented size"""
    a = build(case['a'])
    ra = a.get_full_pars()
    f = ra.reshape(-1, 6)
    mo = ref_moments(f)
    T = mo[3] + mo[5]
    e = math.hypot((mo[5] - mo[3]) / T, 2 * mo[4] / T)
    ctx.nontrivial(e > 1e-3)
    a_render = a.make_image((3, 3))     # fills lazy values
    b = a.make_round(preserve_size=case['keep']) if case['keep'] else a.make_round()
    close(a.get_full_pars(), ra, 0, 0, 'input changed')
    close(a.make_image((3, 3)), a_render, 0, 0, 'input changed')
    fb = b.get_full_pars().reshape(-1, 6)
    close(b.get_flux(), mo[0], 1e-9, 0, 'flux')
    close(b.get_cen(), mo[1:3], 1e-8, 1e-8, 'center')
    e1, e2, Tb = b.get_e1e2T()
    close([e1, e2], [0, 0], 0, 1e-8, 'not round')
    check(np.all(fb[:, 4] == 0) and np.allclose(fb[:, 3], fb[:, 5], rtol=1e-12), 'components not round')
    if case['keep']:
        # at least as large as the largest extent in any direction
        lam = np.linalg.eigvalsh([[mo[3], mo[4]], [mo[4], mo[5]]]).max()
        close(Tb, 2 * lam, 1e-8, 0, 'largest extent kept')
        check(Tb >= T * (1 - 1e-9), 'not smaller')
    else:
        g = e / (1 + math.sqrt(1 - e * e))
        close(Tb, T * (1 - g * g) / (1 + g * g), 1e-7, 0, 'documented round size')
    # each component scaled by the same factor
    close(fb[:, 3] + fb[:, 5], (f[:, 3] + f[:, 5]) * Tb / T, 1e-7, 0, 'component sizes')
    d = fb[:, 3] * fb[:, 5] - fb[:, 4]**2
    close(b.get_data()['det'], d, 1e-10, 0, 'determinants')
    close(b.make_image((3, 3)), GMix(pars=fb.ravel()).make_image((3, 3)), 1e-10, 1e-14, 'evaluates as its parameters')
    s = 1.2
    close(b.get_gaussap_flux(sigma=s), (fb[:, 0] * s * s / (s * s + fb[:, 3])).sum(), 1e-8, 1e-12, 'aperture flux')
