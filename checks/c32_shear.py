"""C32: shear estimated through metacal is the shear that was applied"""
import math
import numpy as np
import galsim
import ngmix
from ngmix.metacal import MetacalBootstrapper
from vh import Registry, st, check, Violation
from gen import fl, logfl, ints, pick, seeds, rng_of
import ops

ORACLE = 'the shear with which galsim drew the scene: object and object turned by 90 degrees share it, and their shapes cancel'
R = Registry()

STEP = 0.01
CLUMP = st.fixed_dictionaries(dict(kind=st.sampled_from(['exp', 'gauss', 'moffat']), hlr=fl(0.6, 1.1), flux=fl(0.3, 1.0), e=st.lists(fl(-0.3, 0.3), min_size=2, max_size=2), at=st.lists(fl(-0.25, 0.25), min_size=2, max_size=2)))
_case = dict(
    clumps=st.lists(CLUMP, min_size=1, max_size=3), sym=st.booleans(), psf=st.sampled_from(['gauss', 'moffat', 'kolmogorov']), fwhm=fl(0.8, 1.1), pe=st.lists(fl(-0.05, 0.05), min_size=2, max_size=2),
    g=fl(0.008, 0.03), ang=fl(0, 2 * math.pi), wcs=st.lists(fl(-0.06, 0.06), min_size=4, max_size=4), scale=fl(0.22, 0.28), turn=fl(0, 2 * math.pi), flip=st.booleans(), off=st.lists(fl(-0.5, 0.5), min_size=2, max_size=2),
    mc=st.sampled_from(['gauss', 'fitgauss', 'dilate', 'analytic']), est=st.sampled_from(['gaussmom', 'admom', 'fit']), fixnoise=st.booleans(), s2n=logfl(1e5, 1e8), seed=seeds, step=st.sampled_from([0.01, 0.005, 0.02]),
    container=st.sampled_from(['obs', 'mb']), prefit=st.booleans())


def profile(d):
    f = {'exp': galsim.Exponential, 'gauss': galsim.Gaussian, 'moffat': lambda half_light_radius, flux: galsim.Moffat(beta=3.5, half_light_radius=half_light_radius, flux=flux)}[d['kind']]
    return f(half_light_radius=d['hlr'], flux=d['flux']).shear(g1=d['e'][0], g2=d['e'][1]).shift(*d['at'])


def scene(case, turned):
    gal = galsim.Sum([profile(d) for d in case['clumps']])
    if case['sym'] or case['est'] == 'gaussmom':
        gal = galsim.Sum([gal, gal.rotate(180 * galsim.degrees)])
    if turned:
        gal = gal.rotate(90 * galsim.degrees)
    g = case['g']
    return gal.shear(g1=g * math.cos(case['ang']), g2=g * math.sin(case['ang']))


def psf_of(case):
    psf = {'gauss': galsim.Gaussian, 'moffat': lambda fwhm: galsim.Moffat(beta=3.0, fwhm=fwhm), 'kolmogorov': galsim.Kolmogorov}[case['psf']](fwhm=case['fwhm'])
    if case['mc'] in ('gauss', 'fitgauss', 'analytic') or case['est'] == 'gaussmom':
        psf = psf.shear(g1=case['pe'][0], g2=case['pe'][1])
    return psf


def draw(obj, n, cen, wcs):
    off = cen - (n - 1) / 2
    return obj.drawImage(nx=n, ny=n, wcs=wcs, offset=(off[1], off[0]), method='no_pixel', dtype=float).array


def observe(case, turned, rng):
    M = case['scale'] * (np.eye(2) + np.reshape(case['wcs'], (2, 2)))
    c, s = math.cos(case['turn']), math.sin(case['turn'])
    M = np.array([[c, -s], [s, c]]).dot(M)
    if case['flip']:
        M = M.dot(np.diag([1, -1.0]))
    # u, v of x, y
    wcs = galsim.JacobianWCS(M[0, 0], M[0, 1], M[1, 0], M[1, 1])
    psf = psf_of(case)
    out = []
    for k in range(2 if case['container'] == 'mb' else 1):
        n, pn = 75, 59
        cen = (n - 1) / 2 + np.array(case['off']) * (1, -1)[k]
        # metacal takes the psf to be centered in its stamp (C17); with dilation the offset cancels
        pcen = (pn - 1) / 2 - np.array(case['off']) * ((1, -1)[k] if case['mc'] == 'dilate' else 0)
        im = draw(galsim.Convolve(scene(case, turned), psf), n, cen, wcs)
        pim = draw(psf, pn, pcen, wcs)
        sig = math.sqrt((im**2).sum()) / case['s2n']
        j = ngmix.Jacobian(row=cen[0], col=cen[1], dudcol=M[0, 0], dudrow=M[0, 1], dvdcol=M[1, 0], dvdrow=M[1, 1])
        pj = ngmix.Jacobian(row=pcen[0], col=pcen[1], dudcol=M[0, 0], dudrow=M[0, 1], dvdcol=M[1, 0], dvdrow=M[1, 1])
        out.append(ngmix.Observation(im + sig * rng.normal(size=im.shape), weight=np.full(im.shape, 1 / sig**2), jacobian=j,
                                     psf=ngmix.Observation(pim, weight=np.full(pim.shape, 1e12), jacobian=pj)))
    if case['container'] == 'obs':
        return out[0]
    mb = ngmix.MultiBandObsList()
    for o in out:
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


def tool(case, rng):
    T = 1.5
    pr = None
    if case['est'] == 'gaussmom':
        run = ngmix.runners.Runner(ngmix.gaussmom.GaussMom(2.2))
    elif case['est'] == 'admom':
        run = ngmix.runners.Runner(ngmix.admom.AdmomFitter(maxiter=400, etol=1e-7, Ttol=1e-7, rng=rng), guesser=ngmix.guessers.GMixPSFGuesser(rng=rng, ngauss=1), ntry=3)
    else:
        run = ngmix.runners.Runner(ngmix.fitting.Fitter('gauss', fit_pars=dict(maxfev=2000, ftol=1e-10, xtol=1e-10)), guesser=ngmix.guessers.TPSFFluxGuesser(rng=rng, T=T), ntry=4)
        pr = ngmix.runners.PSFRunner(ngmix.fitting.Fitter('gauss', fit_pars=dict(maxfev=2000)), guesser=ngmix.guessers.SimplePSFGuesser(rng=rng), ntry=4)
    kw = dict(types=TYPES + (PTYPES if leak(case) else []), psf=case['mc'], step=case['step'], fixnoise=case['fixnoise'])
    if case['mc'] == 'analytic':
        kw['psf'] = galsim.Gaussian(fwhm=1.35 * case['fwhm'])
    return MetacalBootstrapper(run, pr, rng=rng, ignore_failed_psf=False, **kw)


TYPES = ['noshear', '1p', '1m', '2p', '2m']
PTYPES = ['1p_psf', '1m_psf', '2p_psf', '2m_psf']


def leak(case):
    return case['mc'] == 'dilate' and case['est'] == 'gaussmom'


def shape(res, est):
    if est == 'fit':
        return np.array(res['g'])
    return np.array(res['e'])


@R.law(st.fixed_dictionaries(_case), quick=160, rule='a shear of at least 0.008 applied to an object seen through a psf')
def recovered(case, ctx):
    """the mean shape of a pair turned by 90 degrees, divided by the mean metacal response, is the applied shear"""
    case = dict(case)
    if case['container'] == 'mb' and case['est'] != 'fit':
        case['container'] = 'obs'
    ctx.label(case['est'])
    ctx.label(case['mc'])
    ctx.nontrivial()
    if leak(case):
        case['pe'] = [0.4 * x for x in case['pe']]
    rng = rng_of(case['seed'])
    boot = tool(case, rng)
    es, Rs = [], []
    for turned in (False, True):
        obs = observe(case, turned, rng)
        if case['prefit']:
            # the psfs as they come were measured before
            ngmix.runners.PSFRunner(ngmix.fitting.Fitter('gauss', fit_pars=dict(maxfev=2000)), guesser=ngmix.guessers.SimplePSFGuesser(rng=rng), ntry=4).go(obs)
        res, obsd = boot.go(obs)
        check(set(res) == set(TYPES + (PTYPES if leak(case) else [])), 'types %s', sorted(res))
        for k in res:
            if res[k]['flags'] != 0:
                raise Violation('%s: flags %s for a bright well sampled object' % (k, res[k]['flags']))
        e = dict((k, shape(res[k], case['est'])) for k in res)
        if leak(case):
            # what the shape of the psf adds, by the response to it
            Rp = np.column_stack([(e['1p_psf'] - e['1m_psf']), (e['2p_psf'] - e['2m_psf'])]) / (2 * case['step'])
            e['noshear'] = e['noshear'] - Rp.dot(case['pe'])
        es.append(e['noshear'])
        Rs.append(np.column_stack([(e['1p'] - e['1m']), (e['2p'] - e['2m'])]) / (2 * case['step']))
    e, Rm = np.mean(es, axis=0), np.mean(Rs, axis=0)
    got = np.linalg.solve(Rm, e)
    g = case['g'] * np.array([math.cos(case['ang']), math.sin(case['ang'])])
    err = np.abs(got - g).max()
    tol = TOL(case)
    check(err < tol, '%s with metacal psf %s: applied %s, recovered %s (error %.2e, allowed %.2e)', case['est'], case['mc'], g, got, err, tol)


def warmup():
    base = dict(clumps=[dict(kind='gauss', hlr=0.8, flux=1.0, e=[0.1, 0], at=[0, 0])], sym=False, psf='gauss', fwhm=0.9, pe=[0, 0], g=0.02, ang=0.3, wcs=[0] * 4, scale=0.25, turn=0, flip=False, off=[0, 0],
                fixnoise=True, s2n=1e7, seed=3, step=0.01, container='obs')
    for est in ('gaussmom', 'admom', 'fit'):
        for mc in ('dilate', 'fitgauss'):
            case = dict(base, est=est, mc=mc)
            tool(case, rng_of(1)).go(observe(case, False, rng_of(1)))


def TOL(case):
    return case['g'] * (5 * case['g']**2 + 6e-3) + 7e-5 + 20 / case['s2n'] + 0.03 * leak(case) * np.hypot(*case['pe'])
