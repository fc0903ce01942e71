"""C17: metacal images are the deconvolved, sheared, reconvolved input"""
from unittest import mock
import numpy as np
from vh import Registry, st, check, close, raises
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jmat, jdet, pick)
import galsim
import ngmix
from ngmix import Observation, Shape
from ngmix.gmix import GMix
from ngmix.gexceptions import BootPSFFailure
from ngmix.metacal import (get_all_metacal, METACAL_TYPES, METACAL_MINIMAL_TYPES, MetacalDilatePSF, MetacalGaussPSF, MetacalFitGaussPSF, MetacalAnalyticPSF)
from ngmix.metacal import metacal as mcmod

ORACLE = ('a fourier-space reference written in pixel coordinates with numpy (mixture transforms, inverse-transform sums), exact linearity, and axis swap / rotation / '
          'reflection / rescaling relations of the pixel grid on arbitrary images')
R = Registry()


def warmup():
    o = build(dict(seed=1, n=11, dn=0, j=dict(dvdrow=0.3, dvdcol=0.0, dudrow=0.0, dudcol=0.3), psf=[[1.3, 0, 0, 0, 0, 1]], gal=[[1.0, 0, 0, 0, 0, 1]], jc=[0, 0], F=1.0))[0]
    for p in ('gauss', 'fitgauss', 'dilate'):
        get_all_metacal(o, psf=p, rng=rng_of(1))


# ---- objects and psfs are mixtures; positions are offsets (v, u) from the center of their stamps in units of the pixel scale

def comp(smin, smax, cen, emax):
    """[size in pixels, e1, e2, dv, du, amplitude]"""
    return st.tuples(logfl(smin, smax), disk(emax), fl(-cen, cen), fl(-cen, cen), fl(0.3, 1.0)).map(lambda t: [t[0], t[1][0], t[1][1], t[2], t[3], t[4]])


def covs(comps, s):
    out = []
    for sg, e1, e2, dv, du, a in comps:
        T = 2 * (sg * s)**2
        out.append((a, np.array([dv * s, du * s]), T / 2 * np.array([[1 - e1, e2], [e2, 1 + e1]])))
    return out


def convolved(g, p):
    sp = sum(x[0] for x in p)
    return [(a[0] * b[0] / sp, a[1] + b[1], a[2] + b[2]) for a in g for b in p]


def to_gmix(m, shift):
    pars = []
    for a, d, C in m:
        pars += [a, d[0] + shift[0], d[1] + shift[1], C[0, 0], C[0, 1], C[1, 1]]
    return GMix(pars=np.array(pars))


def build(c):
    """observation, galaxy before the psf, psf; the transform centers are anywhere"""
    M = jmat(c['j'])
    s = np.sqrt(abs(jdet(c['j'])))
    n = (c['n'], c['n'] + c['dn'])
    pn = (c['n'] + c['dn'], c['n'])
    gal, psf = covs(c['gal'], s), covs(c['psf'], s)
    gal = [(a * c['F'], d, C) for a, d, C in gal]
    out = []
    for mix, sh, jc in ((convolved(gal, psf), n, c['jc']), (psf, pn, [-jc for jc in c['jc']])):
        cen = (np.array(sh) - 1) / 2
        row, col = cen + np.array(jc)
        shift = M.dot(cen - np.array([row, col]))
        jj = make_jac(c['j'], row, col)
        # the drawing is not under test here
        v, u = np.meshgrid(np.arange(sh[0]) - row, np.arange(sh[1]) - col, indexing='ij')
        v, u = M[0, 0] * v + M[0, 1] * u, M[1, 0] * v + M[1, 1] * u
        im = np.zeros(sh)
        for a, d, C in mix:
            Ci = np.linalg.inv(C)
            x, y = v - d[0] - shift[0], u - d[1] - shift[1]
            im += a * abs(jdet(c['j'])) / (2 * np.pi * np.sqrt(np.linalg.det(C))) * np.exp(-0.5 * (Ci[0, 0] * x * x + 2 * Ci[0, 1] * x * y + Ci[1, 1] * y * y))
        out.append((im, jj))
    pobs = Observation(out[1][0], weight=np.full(out[1][0].shape, 1e6), jacobian=out[1][1])
    return Observation(out[0][0], weight=np.full(out[0][0].shape, 1e6), jacobian=out[0][1], psf=pobs), gal, psf


# ---- reference: everything in pixel coordinates, origin at the centers of the stamps

KMAX, DK = 4.5, 2 * np.pi / 96
_k = np.arange(-int(KMAX / DK), int(KMAX / DK) + 1) * DK
KR, KC = np.meshgrid(_k, _k, indexing='ij')
K = np.array([KR.ravel(), KC.ravel()])


def ft(mix, k, Minv):
    """transform of a mixture at pixel wave vectors k"""
    out = 0
    for a, d, C in mix:
        dp = Minv.dot(d)
        Cp = Minv.dot(C).dot(Minv.T)
        out = out + a * np.exp(-0.5 * (k * Cp.dot(k)).sum(axis=0) - 1j * dp.dot(k))
    return out


def ftpix(k):
    return np.sinc(k[0] / 2 / np.pi) * np.sinc(k[1] / 2 / np.pi)


def invft(F, shape):
    er = np.exp(1j * np.outer(np.arange(shape[0]) - (shape[0] - 1) / 2, _k))
    ec = np.exp(1j * np.outer(np.arange(shape[1]) - (shape[1] - 1) / 2, _k))
    return (er.dot(F.reshape(KR.shape)).dot(ec.T)).real * DK**2 / (2 * np.pi)**2


def smat(g1, g2):
    """shear matrix for (v, u)"""
    return np.array([[1 - g1, g2], [g2, 1 + g1]]) / np.sqrt(1 - g1 * g1 - g2 * g2)


def shear_k(k, M, g1, g2):
    """wave vectors at which the unsheared transform is read for a sheared object"""
    Sp = np.linalg.inv(M).dot(smat(g1, g2)).dot(M)
    return Sp.T.dot(k)


def ref_psf(kind, psf, k, M, g, doshear, sig, flux):
    Minv = np.linalg.inv(M)
    d = 1 + 2 * np.hypot(*g)
    if kind == 'dilate':
        kk = shear_k(k, M, *g) if doshear else k
        pk = ftpix(d * kk)
        nopix = ft(psf, d * kk, Minv) / np.where(np.abs(pk) < 1e-3, 1e-3, pk)
        # beyond the first zero of the pixel transform the psf has no power
        nopix[np.abs(d * kk).max(axis=0) > 6.0] = 0
        return nopix * ftpix(k)
    return flux * np.exp(-0.5 * (k * (sig**2 * Minv.dot(Minv.T)).dot(k)).sum(axis=0))


def ref_image(gal, newpsf, k, M, g):
    Minv = np.linalg.inv(M)
    kk = shear_k(k, M, *g) if g is not None else k
    return ft(gal, kk, Minv) * newpsf


def msig(im, M):
    """flux, center and covariance (v, u; from the stamp center) from a least squares fit of one gaussian"""
    r, c = np.meshgrid(np.arange(im.shape[0]) - (im.shape[0] - 1) / 2, np.arange(im.shape[1]) - (im.shape[1] - 1) / 2, indexing='ij')
    use = im > 0.03 * im.max()
    w = im[use]
    r, c = r[use], c[use]
    A = np.array([np.ones(r.size), r, c, -0.5 * r * r, -r * c, -0.5 * c * c]).T
    x = np.linalg.lstsq(A * w[:, None], np.log(w) * w, rcond=None)[0]
    P = np.array([[x[3], x[4]], [x[4], x[5]]])
    Cp = np.linalg.inv(P)
    cen = Cp.dot([x[1], x[2]])
    flux = np.exp(x[0] + 0.5 * cen.dot(P).dot(cen)) * 2 * np.pi * np.sqrt(np.linalg.det(Cp))
    return flux, M.dot(cen), M.dot(Cp).dot(M.T)


def maker(kind, obs, seed, s, psfsig):
    if kind == 'dilate':
        return MetacalDilatePSF(obs)
    if kind == 'gauss':
        return MetacalGaussPSF(obs, rng=rng_of(seed) if seed else None)
    if kind == 'fitgauss':
        return MetacalFitGaussPSF(obs, rng=rng_of(seed))
    return MetacalAnalyticPSF(obs, galsim.Gaussian(sigma=psfsig * s, flux=1.7), rng=rng_of(seed) if seed else None)


_j = jac(0.15, 1.2, 0.12)
_gal = st.lists(comp(0.7, 1.5, 1.2, 0.4), min_size=1, max_size=2)
_psf1 = comp(1.25, 1.6, 0.0, 0.12).map(lambda c: [c])
_psf_off = comp(1.25, 1.6, 0.8, 0.12).map(lambda c: [c])
_psf2 = st.tuples(comp(1.25, 1.5, 0.0, 0.1), comp(1.5, 1.8, 0.0, 0.1)).map(list)
_jc = st.tuples(fl(-4, 4), fl(-4, 4)).map(list)
_case = dict(seed=pick((1, st.just(0)), (2, seeds.map(lambda s: s + 1))), n=ints(31, 35), dn=ints(-1, 3), j=_j, gal=_gal, psf=pick((2, _psf1), (1, _psf_off), (1, _psf2)), jc=_jc, F=logfl(0.1, 100.0),
             kind=st.sampled_from(['gauss', 'dilate', 'fitgauss', 'analytic']), g=disk(0.06), psfsig=logfl(1.6, 2.0), psfflux=logfl(0.2, 5.0))
TOL = 8e-4


@R.law(st.fixed_dictionaries(_case), quick=350, rule='a shear of at least 0.01')
def image(case, ctx):
    """sheared, unsheared and psf-sheared images and the returned psf against the fourier reference"""
    g = case['g']
    kind = case['kind']
    case['psf'] = [p[:5] + [p[5] * case['psfflux']] for p in case['psf']]
    if kind == 'fitgauss':
        case['seed'] += 1
        case['psf'] = [p[:3] + [0.0, 0.0] + p[5:] for p in case['psf']]
        # the fit starts at the transform center
        case['jc'] = [x / 5 for x in case['jc']]
    mcmod.turn_off_galsim_caching()
    obs, gal, psf = build(case)
    M = jmat(case['j'])
    s = np.sqrt(abs(jdet(case['j'])))
    mc = maker(kind, obs, case['seed'], s, case['psfsig'])
    sh = Shape(g[0], g[1])
    d = 1 + 2 * np.hypot(*g)
    ctx.label(kind)
    ctx.nontrivial(np.hypot(*g) >= 0.01)
    res, uns = mc.get_obs_galshear(sh, get_unsheared=True)
    runs = [('sheared', res, g, False), ('unsheared', uns, None, False)]
    if kind == 'dilate':
        runs.append(('psf sheared', mc.get_obs_psfshear(sh), None, True))
    pf = sum(x[0] for x in psf)
    gf = sum(x[0] for x in gal)
    sig = None
    if kind != 'dilate':
        flux, cen, C = msig(res.psf.image, M)
        target = 1.7 if kind == 'analytic' else pf
        close(flux, target, 2e-3, 0, 'flux of the returned psf')
        close(cen, [0, 0], 0, 2e-3 * s, 'center of the returned psf')
        sig = np.sqrt(np.trace(C) / 2)
        close(C, sig**2 * np.eye(2), 0, 2e-3 * sig**2, 'the returned psf is not round')
        lo = min(np.linalg.eigvalsh(x[2]).min() for x in psf)
        hi = max(np.linalg.eigvalsh(x[2]).max() for x in psf)
        if kind == 'analytic':
            close(sig, case['psfsig'] * s * d, 1e-3, 0, 'size of the dilated analytic psf')
        elif kind == 'gauss':
            # the size is chosen assuming a psf centered in its stamp
            off = any(x[1].any() for x in psf)
            check(1.05 * np.sqrt(lo) * d < sig < (3 if off else 1.3) * np.sqrt(hi) * d, 'size of the gauss psf %g (psf %g to %g, dilation %g)', sig, np.sqrt(lo), np.sqrt(hi), d)
        else:
            T = (sum(x[0] * np.trace(x[2]) for x in psf) / pf)
            check(0.98 * 2 * lo <= 2 * sig**2 / d**2 <= 1.13 * 2 * hi, 'size of the fitgauss psf: T %g from %g, dilation %g', 2 * sig**2, T, d)
            if len(psf) == 1:
                ex = np.sqrt(2 * np.linalg.eigvalsh(psf[0][2]).max() / T)
                close(2 * sig**2 / d**2, T * min(1.1, 2 * ex - 1), 3e-3, 0, 'documented dilation for ellipticity')
        pj = res.psf.jacobian
        close([pj.row0, pj.col0], (np.array(res.psf.image.shape) - 1) / 2, 1e-12, 0, 'transform center of the psf')
    worst = 0
    for nm, o, gg, dosh in runs:
        P = ref_psf(kind, psf, K, M, g, dosh, sig, 1.7 if kind == 'analytic' else pf)
        rp = invft(P, o.psf.image.shape)
        tolp = TOL * np.abs(rp).max()
        e = np.abs(o.psf.image - rp).max()
        check(e <= tolp, '%s: psf differs by %g of its peak', nm, e / np.abs(rp).max())
        ri = invft(ref_image(gal, P / pf, K, M, gg), o.image.shape)
        e = np.abs(o.image - ri).max() / np.abs(ri).max()
        worst = max(worst, e)
        check(e <= TOL, '%s: image differs by %g of its peak', nm, e)
        close(o.image.sum(), gf * (1.7 / pf if kind == 'analytic' else 1.0), 4e-3, 0, '%s: flux' % nm)
    ctx.label('e%d' % int(np.floor(np.log10(worst + 1e-9) * 2)))


# ---- arbitrary images

_free = dict(seed=seeds, n=ints(13, 20), dn=ints(-2, 2), pn=ints(15, 21), j=_j, jc=_jc, g=disk(0.08), kind=st.sampled_from(['gauss', 'dilate', 'analytic']), psf=_psf1, off=st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5)),
             rough=st.booleans(), psfsig=logfl(1.6, 2.2))


def free(case):
    """image and psf arrays: the image is noise plus a blob; the psf may carry noise"""
    r = rng_of(case['seed'])
    n = (case['n'], case['n'] + case['dn'])
    pn = case['pn']
    im = r.normal(size=n)
    if not case['rough']:
        c = (np.array(n) - 1) / 2
        a, b = np.mgrid[0:n[0], 0:n[1]]
        im = 0.02 * im + np.exp(-((a - c[0])**2 + 0.3 * (a - c[0]) * (b - c[1]) + 1.3 * (b - c[1])**2) / 10)
    sg, e1, e2 = case['psf'][0][:3]
    a, b = np.mgrid[0:pn, 0:pn] - (pn - 1) / 2
    if case['kind'] != 'gauss':
        a, b = a - case['off'][0], b - case['off'][1]
    e1, e2 = 2 * e1, 2 * e2
    p = np.exp(-0.5 * ((1 + e1) * a * a - 2 * e2 * a * b + (1 - e1) * b * b) / sg**2)
    return im, p / p.sum()


def cal(case, im, psf, j, jc, g, scale=1.0):
    n, pn = np.array(im.shape), np.array(psf.shape)
    jj = make_jac(j, (n[0] - 1) / 2 + jc[0], (n[1] - 1) / 2 + jc[1])
    pj = make_jac(j, (pn[0] - 1) / 2 - jc[0], (pn[1] - 1) / 2)
    obs = Observation(im.copy(), jacobian=jj, psf=Observation(psf.copy(), jacobian=pj))
    mc = maker(case['kind'], obs, 0, np.sqrt(abs(jdet(j))), case['psfsig'])
    s = Shape(g[0], g[1])
    a, b = mc.get_obs_galshear(s, get_unsheared=True)
    out = [a.image, a.psf.image, b.image, b.psf.image]
    if case['kind'] == 'dilate':
        c = mc.get_obs_psfshear(s)
        out += [c.image, c.psf.image]
    check(a.jacobian == jj, 'transform of the output')
    return out


def agree(a, b, tol, msg):
    check(len(a) == len(b), msg)
    for k, (x, y) in enumerate(zip(a, b)):
        check(x.shape == y.shape, '%s: shape' % msg)
        m = max(np.abs(x).max(), np.abs(y).max())
        check(np.abs(x - y).max() <= tol * m, '%s: image %d differs by %g of the peak', msg, k, np.abs(x - y).max() / m)


MOVES = ['swap', 'flip', 'rot', 'rot2', 'mirror', 'scale']


# the size of the gauss target is read off a sky aligned grid of wave numbers, where ties may break either way: left out
@R.law(st.fixed_dictionaries(dict(_free, kind=st.sampled_from(['dilate', 'analytic']), move=st.sampled_from(MOVES), factor=logfl(0.2, 5.0))), quick=400, rule='a sheared image of a non-round scene on a generic grid')
def grid(case, ctx):
    """any image: re-describing the pixel grid or the sky axes re-describes the output, and nothing else"""
    mcmod.turn_off_galsim_caching()
    im, psf = free(case)
    j, g, jc = case['j'], case['g'], case['jc']
    base = cal(case, im, psf, j, jc, g)
    mv = case['move']
    ctx.label(mv)
    ctx.nontrivial(np.hypot(*g) > 0.003)
    D = dict
    if mv == 'swap':
        # rows become columns
        new = cal(case, im.T, psf.T, D(dvdrow=j['dvdcol'], dvdcol=j['dvdrow'], dudrow=j['dudcol'], dudcol=j['dudrow']), jc[::-1], g)
        exp = [x.T for x in base]
    elif mv == 'flip':
        new = cal(case, im[::-1], psf[::-1], D(dvdrow=-j['dvdrow'], dvdcol=j['dvdcol'], dudrow=-j['dudrow'], dudcol=j['dudcol']), [-jc[0], jc[1]], g)
        exp = [x[::-1] for x in base]
    elif mv == 'rot2':
        new = cal(case, im[::-1, ::-1], psf[::-1, ::-1], {k: -v for k, v in j.items()}, [-jc[0], -jc[1]], g)
        exp = [x[::-1, ::-1] for x in base]
    elif mv == 'rot':
        # rot90: new[r, c] = old[c, N-1-r]: drow of the old is dcol of the new, dcol is -drow
        new = cal(case, np.rot90(im), np.rot90(psf), D(dvdrow=-j['dvdcol'], dvdcol=j['dvdrow'], dudrow=-j['dudcol'], dudcol=j['dudrow']), [-jc[1], jc[0]], g)
        exp = [np.rot90(x) for x in base]
    elif mv == 'mirror':
        # u -> -u: second shear component changes sign
        new = cal(case, im, psf, D(dvdrow=j['dvdrow'], dvdcol=j['dvdcol'], dudrow=-j['dudrow'], dudcol=-j['dudcol']), jc, [g[0], -g[1]])
        exp = base
    else:
        new = cal(case, im, psf, {k: v * case['factor'] for k, v in j.items()}, jc, g)
        exp = base
    tol = 0.15 if case['rough'] else 2e-3
    agree(new, exp, tol, mv)


@R.law(st.fixed_dictionaries(dict(_free, a=fl(0.05, 3), b=fl(0.05, 3), other=seeds, dc=st.tuples(fl(-9, 9), fl(-9, 9)))), quick=300, rule='a sheared image')
def linear(case, ctx):
    """any image: linear in the image, inverse in the psf flux, whatever the transform center"""
    mcmod.turn_off_galsim_caching()
    im, psf = free(case)
    # galsim takes no images of zero flux
    im += 2.0 if case['rough'] else 0.0
    im2 = rng_of(case['other']).normal(size=im.shape) + 2.0
    j, g, jc, a, b = case['j'], case['g'], case['jc'], case['a'], case['b']
    ctx.nontrivial(np.hypot(*g) > 0.003)
    x, y = cal(case, im, psf, j, jc, g), cal(case, im2, psf, j, jc, g)
    z = cal(case, a * im + b * im2, psf, j, jc, g)
    for k in range(0, len(x), 2):
        m = abs(a) * np.abs(x[k]).max() + abs(b) * np.abs(y[k]).max()
        check(np.abs(z[k] - a * x[k] - b * y[k]).max() <= 1e-9 * m, 'not linear in the image: %g', np.abs(z[k] - a * x[k] - b * y[k]).max() / (m + 1e-300))
        close(z[k + 1], x[k + 1], 0, 0, 'the psf depends on the image')
    # the transform centers play no part
    w = cal(case, im, psf, j, [jc[0] + case['dc'][0], jc[1] + case['dc'][1]], g)
    agree(w, x, 0, 'transform center')
    # a psf of another flux: same fluxes, except that an analytic target keeps its own
    f = abs(a) + 0.1
    w = cal(case, im, f * psf, j, jc, g)
    for k in range(0, len(x), 2):
        ratio = 1 / f if case['kind'] == 'analytic' else 1.0
        m = np.abs(x[k]).max()
        check(np.abs(w[k] - ratio * x[k]).max() <= 1e-9 * m, 'psf flux: %g', np.abs(w[k] - ratio * x[k]).max() / m)
        check(np.abs(w[k + 1] - x[k + 1] * (1 if case['kind'] == 'analytic' else f)).max() <= 1e-9 * np.abs(w[k + 1]).max(), 'psf image')


@R.law(st.fixed_dictionaries(dict(_free, step=pick((1, st.just(0.01)), (3, logfl(0.002, 0.05))), types=st.permutations(METACAL_TYPES), default=st.booleans())), quick=150, rule='another step than the default')
def named(case, ctx):
    """any image: a type name stands for its shear, applied to the object or to the psf"""
    mcmod.turn_off_galsim_caching()
    im, psf = free(case)
    j, jc, h = case['j'], case['jc'], case['step']
    default = case['default'] and h == 0.01
    ctx.nontrivial(h != 0.01)
    names = dict([('1p', (h, 0)), ('1m', (-h, 0)), ('2p', (0, h)), ('2m', (0, -h))])
    s = np.sqrt(abs(jdet(j)))
    obs = Observation(im, jacobian=make_jac(j, 3 + jc[0], 3), psf=Observation(psf, jacobian=make_jac(j, 4, 4)))
    types = [t for t in case['types'] if case['kind'] == 'dilate' or t in METACAL_MINIMAL_TYPES]
    kw = dict(types=types, step=h)
    if default:
        kw.pop('step')
    kind = case['kind']
    d = get_all_metacal(obs, psf=kind if kind != 'analytic' else galsim.Gaussian(sigma=case['psfsig'] * s, flux=1.7), fixnoise=False, **kw)
    check(set(d) == set(types), 'types')
    dil = {}
    for t in types:
        base = t.replace('_psf', '')
        one = cal(case, im, psf, j, [jc[0] + 3 - (im.shape[0] - 1) / 2, 3 - (im.shape[1] - 1) / 2], names.get(base, (h, 0)))
        if t.endswith('_psf'):
            agree([d[t].image, d[t].psf.image], one[4:6], 1e-12, t)
        elif t == 'noshear':
            agree([d[t].image, d[t].psf.image], one[2:4], 1e-12, t)
        else:
            agree([d[t].image, d[t].psf.image], one[0:2], 1e-12, t)
        dil[t] = one
    # all shears share one reconvolution psf; opposite steps straddle the unsheared image
    agree([d[t].psf.image for t in METACAL_MINIMAL_TYPES], [d['noshear'].psf.image] * 5, 1e-9, 'reconvolution psf of the types')
    for t in '12':
        p, m, n = d[t + 'p'].image, d[t + 'm'].image, d['noshear'].image
        first, second = np.abs(p - m).max(), np.abs(p + m - 2 * n).max()
        check(second <= 1000 * h * first + 1e-9 * np.abs(n).max(), 'opposite steps are not opposite: %g against %g', second, first)
    for bad in (0, (0.01, 0.0), None):
        mc = maker(kind, obs, 0, s, case['psfsig'])
        raises(TypeError, mc.get_obs_galshear, bad, _msg='shear that is not a Shape')


# ---- the fit of the psf for 'fitgauss': adaptive moments, then maximum likelihood, then a mixture that is there already

def flagged(go):
    def f(self, *args, **kw):
        res = go(self, *args, **kw)
        res['flags'] = 2**3
        return res
    return f


@R.law(st.fixed_dictionaries(dict(obs=st.fixed_dictionaries(dict(seed=seeds, n=ints(21, 25), dn=ints(-1, 2), j=_j, gal=st.just([[1.2, 0.0, 0.0, 0.0, 0.0, 1.0]]), psf=comp(1.4, 1.7, 0.0, 0.12).map(lambda c: [c]),
                                                                  jc=st.tuples(fl(-0.8, 0.8), fl(-0.8, 0.8)).map(list), F=st.just(1.0))),
                                  fails=st.sampled_from([[], [0], [0, 1], [0, 1], [1]]), gmix=st.sampled_from(['none', 'one', 'two']), size=logfl(0.7, 1.5), e=disk(0.15), seed=seeds)), quick=200, rule='a failing fit')
def fallback(case, ctx):
    """the psf for fitgauss comes from the first of adaptive moments, a gaussian fit and the mixture at hand that works; if none does, the psf failed"""
    mcmod.turn_off_galsim_caching()
    obs, gal, psf = build(case['obs'])
    M = jmat(case['obs']['j'])
    T, C = np.trace(psf[0][2]), psf[0][2]
    fails, kind = case['fails'], case['gmix']
    ctx.label('%s %s' % (fails, kind))
    ctx.nontrivial(bool(fails))
    Tg = T * case['size']
    e1, e2 = case['e']
    G = Tg / 2 * np.array([[1 - e1, e2], [e2, 1 + e1]])
    one = [1.7, 0.0, 0.0, G[0, 0], G[0, 1], G[1, 1]]
    if kind != 'none':
        obs.psf.gmix = GMix(pars={'one': one, 'two': one + one}[kind])
    if 0 not in fails or 1 not in fails:
        want = (T, C)
    elif kind == 'one':
        want = (Tg, G)
    else:
        want = None
    image = obs.psf.image.copy()
    patches = [mock.patch.object(cls, 'go', flagged(cls.go)) for i, cls in enumerate([ngmix.admom.AdmomFitter, ngmix.fitting.Fitter]) if i in fails]
    for p in patches:
        p.start()
    try:
        mc = MetacalFitGaussPSF(obs, rng=rng_of(case['seed']))
    except BootPSFFailure:
        check(want is None, 'the psf failed, with %s failing and gmix %s', fails, kind)
        return
    finally:
        for p in patches:
            p.stop()
    check(want is not None, 'no failure, with %s failing and gmix %s', fails, kind)
    o = mc.get_obs_galshear(Shape(0.0, 0.0))
    flux, cen, C = msig(o.psf.image, M)
    ex = np.sqrt(2 * np.linalg.eigvalsh(want[1]).max() / want[0])
    close(np.trace(C), want[0] * min(1.1, 2 * ex - 1), 3e-3, 0, 'size of the psf, with %s failing and gmix %s' % (fails, kind))
    close(C, np.trace(C) / 2 * np.eye(2), 0, 2e-3 * np.trace(C), 'the returned psf is not round')
    close(flux, image.sum(), 2e-3, 0, 'flux of the returned psf')
    check(np.array_equal(image, obs.psf.image), 'the psf handed in changed')
    check(obs.psf.has_gmix() == (kind != 'none') and 'result' not in obs.psf.meta, 'a mixture or result was left on the psf handed in')
