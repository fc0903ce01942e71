"""C24: fits in Fourier space"""
import math
import numpy as np
import galsim
import ngmix
from vh import Registry, st, check, close, raises, same
from gen import fl, logfl, ints, seeds, rng_of, pick, jac, make_jac, disk, sign
from ngmix import Observation, ObsList, MultiBandObsList, flags as F, priors, joint_prior
from ngmix.observation import KObservation, KObsList, KMultiBandObsList, make_kobs
from ngmix.fitting import GalsimFitter, GalsimSpergelFitter, GalsimMoffatFitter
from ngmix.defaults import LOWVAL, PDEF, CDEF
from ngmix.gexceptions import GMixRangeError

ORACLE = ('the objective from the definition, with the analytic Fourier transforms of sheared and shifted profiles (galsim for the values of round profiles without one); prior terms in closed form; '
          'the gradient and the curvature of the objective at the result; the truth of simulated images')
R = Registry()

MODELS = ['gauss', 'exp', 'dev', 'spergel', 'moffat']
INDEX = {'spergel': (-0.6, 2.5), 'moffat': (2.2, 5.0)}


def fitter(model, prior=None, **fp):
    kw = dict(prior=prior)
    if fp:
        kw['fit_pars'] = fp
    if model == 'spergel':
        return GalsimSpergelFitter(**kw)
    if model == 'moffat':
        return GalsimMoffatFitter(**kw)
    return GalsimFitter(model=model, **kw)


def fit_model(model, obs, guess, prior=None):
    return fitter(model, prior)._make_fit_model(obs=obs, guess=guess)


def nhead(model):
    return 6 if model in INDEX else 5


def profile(model, r50, idx):
    """galsim round profile with unit flux"""
    if model == 'spergel':
        return galsim.Spergel(idx, half_light_radius=r50)
    if model == 'moffat':
        return galsim.Moffat(idx, half_light_radius=r50)
    return {'gauss': galsim.Gaussian, 'exp': galsim.Exponential, 'dev': galsim.DeVaucouleurs}[model](half_light_radius=r50)


def ft(model, pars, flux, kx, ky):
    """Fourier transform of the model"""
    x, y, g1, g2, r50 = pars[:5]
    n = 1 / math.sqrt(1 - g1 * g1 - g2 * g2)
    qx = n * ((1 + g1) * kx + g2 * ky)
    qy = n * (g2 * kx + (1 - g1) * ky)
    q2 = qx**2 + qy**2
    if model == 'gauss':
        s = r50 / math.sqrt(2 * math.log(2))
        v = np.exp(-0.5 * q2 * s * s)
    elif model == 'exp':
        r0 = r50 / 1.6783469900166605
        v = (1 + q2 * r0 * r0)**-1.5
    elif model == 'spergel':
        r0 = galsim.Spergel(pars[5], half_light_radius=r50).scale_radius
        v = (1 + q2 * r0 * r0)**(-1.0 - pars[5])
    else:
        p = profile(model, r50, pars[5] if model in INDEX else None)
        q = np.sqrt(q2)
        uq, inv = np.unique(np.round(q.ravel(), 12), return_inverse=True)
        v = np.array([p.kValue(a, 0.0).real for a in uq])[inv].reshape(q.shape)
    return flux * v * np.exp(-1j * (kx * x + ky * y))


def kgrid(n, dk):
    k = (np.arange(n) - n // 2) * dk
    return np.meshgrid(k, k)


_kep = st.fixed_dictionaries(dict(n=ints(3, 12), dk=logfl(0.05, 1.5), seed=seeds, psf=pick((1, st.none()), (3, fl(0.2, 1.5))), w=st.sampled_from(['flat', 'var', 'zeros'])))
_pars = st.fixed_dictionaries(dict(cen=st.tuples(fl(-2, 2), fl(-2, 2)), g=disk(0.9), r50=logfl(0.02, 5.0), t=fl(0, 1), F=st.lists(st.tuples(logfl(0.1, 1000), sign()).map(lambda t: t[0] * t[1]), min_size=3, max_size=3)))


def vector(model, p, nb):
    head = [p['cen'][0], p['cen'][1], p['g'][0], p['g'][1], p['r50']]
    if model in INDEX:
        lo, hi = INDEX[model]
        head.append(lo + (hi - lo) * p['t'])
    return np.array(head + list(p['F'][:nb]))


def kobs_of(e, band):
    r = rng_of(e['seed'] + 7 * band)
    n = e['n']
    im = galsim.ImageCD(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)), xmin=-(n // 2), ymin=-(n // 2), scale=e['dk'])
    w = np.ones((n, n)) * 2.5
    if e['w'] != 'flat':
        w *= r.uniform(0.1, 3, size=w.shape)
    if e['w'] == 'zeros':
        w[r.uniform(size=w.shape) < 0.3] = 0
        if r.randint(3) == 0:
            w[:] = 0
    psf = None
    if e['psf'] is not None:
        kx, ky = kgrid(n, e['dk'])
        pk = np.exp(-0.5 * (kx**2 + ky**2) * e['psf']**2) * np.exp(1j * 0.3 * kx * r.normal())
        psf = KObservation(galsim.ImageCD(pk, xmin=-(n // 2), ymin=-(n // 2), scale=e['dk']))
    return KObservation(im, weight=galsim.ImageD(w, xmin=-(n // 2), ymin=-(n // 2), scale=e['dk']), psf=psf)


def klist(bands, single):
    mb = KMultiBandObsList()
    for b, eps in enumerate(bands):
        ol = KObsList()
        for e in eps:
            ol.append(kobs_of(e, b))
        mb.append(ol)
    if single and len(mb) == 1:
        return mb, (mb[0][0] if len(mb[0]) == 1 else mb[0])
    return mb, mb


def soft(model, nb, q, bounded=False):
    rr = np.random.RandomState(5)

    def normal(mean, sigma, lo, hi):
        return priors.Normal(mean, sigma, rng=rr, **(dict(bounds=(lo, hi)) if bounded else {}))

    def about(v):
        a = abs(v)
        return v + 0.3 * a, 0.5 * a, v - 3 * a, v + 4 * a
    cen, g = priors.CenPrior(0.1, -0.1, 0.5, 0.7, rng=rr), priors.GPriorBA(0.3, rng=rr)
    Fs = [about(v) for v in q[nhead(model):]]
    r50 = (q[4] * 1.2, q[4] * 0.5, 0.1 * q[4], 5 * q[4])
    FF = [normal(*v) for v in Fs]
    FF = FF if nb > 1 else FF[0]
    spec = [r50]
    if model in INDEX:
        lo, hi = INDEX[model]
        nu = (0.5 * (lo + hi), 0.4 * (hi - lo), lo - 0.1, hi + 0.5)
        spec.append(nu)
        prior = joint_prior.PriorSpergelSep(cen, g, normal(*r50), normal(*nu), FF)
    else:
        prior = joint_prior.PriorGalsimSimpleSep(cen, g, normal(*r50), FF)
    spec += Fs

    def terms(p):
        e = p[2]**2 + p[3]**2
        head = [(p[0] - 0.1) / 0.5, (p[1] + 0.1) / 0.7, math.sqrt(e / 0.3**2 - 4 * math.log(1 - e))]
        return np.abs(head + [(v - s[0]) / s[1] for v, s in zip(p[4:], spec)])
    return prior, terms


@R.law(st.fixed_dictionaries(dict(model=st.sampled_from(MODELS), bands=st.lists(st.lists(_kep, min_size=1, max_size=2), min_size=1, max_size=3), p=_pars, q=_pars, prior=st.booleans(), single=st.booleans())),
       quick=3000, rule='several bands or epochs, or an index parameter')
def objective(case, ctx):
    """the residuals are prior terms, then sqrt(weight) times the difference of model times psf and data, for every band and epoch"""
    m = case['model']
    nb = len(case['bands'])
    mb, obs = klist(case['bands'], case['single'])
    p, q = vector(m, case['p'], nb), vector(m, case['q'], nb)
    prior, terms = soft(m, nb, p) if case['prior'] else (None, None)
    ctx.nontrivial(nb > 1 or len(case['bands'][0]) > 1 or m in INDEX)
    ctx.label(m)
    raw = [(k.kimage.array.copy(), k.weight.array.copy(), k.psf.kimage.array.copy() if k.has_psf() else None) for ol in mb for k in ol]
    g0 = q.copy()
    fm = fit_model(m, obs, q, prior)
    same(q, g0, 'guess changed')
    npr = len(q) - 1 if prior is not None else 0
    check(fm.n_prior_pars == npr, 'number of prior terms')
    check(fm['model'] == m and fm.npars == len(q), 'model')
    outs = []
    for v in (p, q, p):
        v0 = v.copy()
        fd = fm.calc_fdiff(v)
        same(v, v0, 'parameters changed')
        outs.append(np.array(fd))
        i = 0
        ref = []
        tol = []
        for b, ol in enumerate(mb):
            for k in ol:
                im, w, pk = raw[i]
                i += 1
                kx, ky = kgrid(im.shape[0], k.kimage.scale)
                flux = v[nhead(m) + b]
                mod = ft(m, v, flux, kx, ky)
                if pk is not None:
                    mod = mod * pk
                d = (mod - im) * np.sqrt(w)
                ref += [d.real.ravel(), d.imag.ravel()]
                tol.append(3e-4 * abs(flux) * math.sqrt(w.max()))
        ref = np.concatenate(ref)
        check(fd.shape == (npr + len(ref),), 'size')
        t = max(tol) + 1e-9
        # (in any order)
        close(np.sort(fd[npr:]), np.sort(ref), 1e-6, t, 'residuals')
        close((fd[npr:]**2).sum(), (ref**2).sum(), 1e-4, 2 * t * abs(ref).sum() + len(ref) * t * t, 'sum of squares')
        if prior is not None:
            close(fd[:npr], terms(v), 1e-7, 1e-7, 'prior terms')
    same(outs[2], outs[0], 'a second evaluation')
    i = 0
    for ol in mb:
        for k in ol:
            same(k.kimage.array, raw[i][0], 'image changed')
            same(k.weight.array, raw[i][1], 'weight changed')
            if k.has_psf():
                same(k.psf.kimage.array, raw[i][2], 'psf changed')
            i += 1
    # a second model of the same data does not disturb the first
    fm2 = fit_model(m, obs, p, prior)
    same(fm2.calc_fdiff(q), outs[1], 'second model')
    same(fm.calc_fdiff(p), outs[0], 'first model after a second')
    # signal to noise of the round model
    s2 = 0.0
    i = 0
    for b, ol in enumerate(mb):
        for k in ol:
            im, w, pk = raw[i]
            i += 1
            kx, ky = kgrid(im.shape[0], k.kimage.scale)
            pr = p.copy()
            pr[2:4] = 0
            mod = ft(m, pr, p[nhead(m) + b], kx, ky)
            s2 += (w * abs(mod * (1 if pk is None else pk))**2).sum()
    close(fm.calc_s2n_r(p), math.sqrt(s2), 1e-3, 1e-3 * t, 's2n of the round model')
    # out of range: the documented value in all entries
    bad = p.copy()
    how = case['p']['t']
    if how < 0.3:
        bad[2:4] = (0.8, -0.7)
    elif how < 0.5:
        bad[2:4] = (1.0, 0.0)
    elif how < 0.7 or m not in INDEX:
        bad[4] = -abs(bad[4]) if how < 0.6 else 0.0
    else:
        bad[5] = {'spergel': -0.9, 'moffat': 0.9}[m]
    fd = fm.calc_fdiff(bad)
    check(np.all(fd == LOWVAL), 'out of range %s: %s', bad, fd[:5])
    same(fm.calc_fdiff(p), outs[0], 'after parameters out of range')
    raises(GMixRangeError, fit_model, m, obs, bad, prior, _msg='guess out of range')
    raises(ValueError, fit_model, m, obs, p[:-1], prior, _msg='guess too short')
    raises(ValueError, fit_model, m, obs, np.append(p, 1.0), prior, _msg='guess too long')


# ------------------------------------------------------------------ fits

_gep = st.fixed_dictionaries(dict(j=jac(0.22, 0.32, 0.08, flips=False), seed=seeds, fwhm=fl(0.8, 1.2), pg=disk(0.1), wamp=logfl(0.3, 3)))
_truth = st.fixed_dictionaries(dict(model=st.sampled_from(['gauss', 'exp', 'exp', 'dev', 'spergel', 'moffat']), bands=st.lists(st.lists(_gep, min_size=1, max_size=2), min_size=1, max_size=3), cen=st.tuples(fl(-0.3, 0.3), fl(-0.3, 0.3)), g=disk(0.4), r50=fl(0.5, 0.9), t=fl(0.3, 0.7), F=st.lists(fl(50, 500), min_size=3, max_size=3), seed=seeds))


def sky(c, noise):
    """observations of the truth"""
    m = c['model']
    q = vector(m, c, len(c['bands']))
    r = rng_of(c['seed'])
    mb = MultiBandObsList()
    n = 33
    for b, eps in enumerate(c['bands']):
        ol = ObsList()
        for e in eps:
            j = e['j']
            wcs = galsim.JacobianWCS(j['dudcol'], j['dudrow'], j['dvdcol'], j['dvdrow'])
            if abs(j['dudcol'] * j['dvdrow'] - j['dudrow'] * j['dvdcol']) > 0.11:
                s = math.sqrt(0.08 / abs(j['dudcol'] * j['dvdrow'] - j['dudrow'] * j['dvdcol']))
                wcs = galsim.JacobianWCS(j['dudcol'] * s, j['dudrow'] * s, j['dvdcol'] * s, j['dvdrow'] * s)
                j = {k: v * s for k, v in j.items()}
            psf = galsim.Gaussian(fwhm=e['fwhm']).shear(g1=e['pg'][0], g2=e['pg'][1])
            pim = psf.drawImage(nx=33, ny=33, wcs=wcs, dtype=np.float64).array
            gal = profile(m, q[4], q[5] if m in INDEX else None).shear(g1=q[2], g2=q[3]).shift(q[0], q[1]) * q[nhead(m) + b]
            im = galsim.Convolve(gal, psf).drawImage(nx=n, ny=n, wcs=wcs, dtype=np.float64).array
            s = noise * q[nhead(m) + b] * 0.01 / math.sqrt(e['wamp'])
            im = im + s * r.normal(size=im.shape)
            c0 = (n - 1) / 2
            ol.append(Observation(im, weight=np.ones(im.shape) / max(s, 1e-6)**2, jacobian=make_jac(j, c0, c0), psf=Observation(pim, jacobian=make_jac(j, 16, 16))))
        mb.append(ol)
    return mb, q


def fp(mb):
    return [(o.image.tobytes(), o.weight.tobytes(), o.psf.image.tobytes(), repr(o.jacobian), sorted(o.meta)) for ol in mb for o in ol]


@R.law(st.fixed_dictionaries(dict(c=_truth, noise=logfl(0.02, 1.0), prior=st.sampled_from(['none', 'none', 'soft', 'bounded']), near=fl(0.01, 0.1), kspace=st.booleans())), quick=500, shards=6, rule='a fit without flags')
def fits(case, ctx):
    """near the truth: the result is a minimum of the objective with its curvature, the truth is recovered, the named values are those of the vector"""
    c = case['c']
    m = c['model']
    nb = len(c['bands'])
    mb, q = sky(c, case['noise'])
    h = nhead(m)
    r = rng_of(c['seed'] + 1)
    guess = q * (1 + case['near'] * r.uniform(-1, 1, size=len(q)))
    guess[:4] = q[:4] + 0.1 * r.uniform(-1, 1, size=4)
    g0 = guess.copy()
    prior, terms = (None, None) if case['prior'] == 'none' else soft(m, nb, q, case['prior'] == 'bounded')
    before = fp(mb)
    obs = make_kobs(mb) if case['kspace'] else mb
    ftr = fitter(m, prior, maxfev=2000, ftol=1e-9, xtol=1e-9)
    res = ftr.go(obs=obs, guess=guess)
    same(guess, g0, 'guess changed')
    check(fp(mb) == before, 'observations changed')
    check(res['model'] == m, 'model')
    ctx.label('%s %d' % (m, res['flags']))
    if res['flags'] != 0:
        check(not any(k in res for k in ('g', 'flux', 's2n_r')), 'named values of a failed fit')
        check(m in ('spergel', 'moffat', 'dev') or terms is not None, 'flags %d %s', res['flags'], res['errmsg'])
        return
    ctx.nontrivial()
    p, cov, err = res['pars'], res['pars_cov'], res['pars_err']
    check(p.shape == q.shape and cov.shape == (len(q), len(q)) and np.all(np.isfinite(p)) and np.all(np.isfinite(cov)), 'values')
    close(err, np.sqrt(np.diag(cov)), 1e-12, 0, 'errors')
    same(res['g'], p[2:4], 'g')
    same(res['g_cov'], cov[2:4, 2:4], 'g_cov')
    close(res['g_err'], err[2:4], 1e-12, 0, 'g_err')
    same(res['flux'], p[h] if nb == 1 else p[h:], 'flux')
    close(res['flux_err'], err[h] if nb == 1 else err[h:], 1e-12, 0, 'flux_err')
    if nb > 1:
        same(res['flux_cov'], cov[h:, h:], 'flux_cov')
    close(res['s2n_r'], res.calc_s2n_r(p), 1e-9, 0, 's2n_r')
    # minimum and curvature of the objective, which is checked elsewhere
    if abs(p[:4]).min() < 2e-2 or p[4] < 0.3 or err[2:4].max() > 0.3:
        ctx.label('near zero or unresolved')
        return
    u = abs(q).copy()
    u[:2] = q[4]
    u[2:4] = 1.0
    J = []
    for i in range(len(p)):
        # (the tables of galsim limit how small the steps can be)
        a, b = p.copy(), p.copy()
        a[i] += 1e-4 * u[i]
        b[i] -= 1e-4 * u[i]
        J.append((res.calc_fdiff(a) - res.calc_fdiff(b)) / (2e-4 * u[i]))
    J = np.array(J).T
    f = res.calc_fdiff(p)
    npr = 0 if prior is None else len(p) - 1
    inv = np.linalg.inv(J.T.dot(J))
    s = np.sqrt(np.diag(inv))
    dof = (len(f) - npr) / 2 - len(p)
    s2 = (f[npr:]**2).sum() / dof
    chi = math.sqrt(max(s2, 1e-12))
    if m in ('gauss', 'exp'):
        d = inv.dot(J.T.dot(f)) / s
        check(abs(d).max() < 0.3 * max(1, chi), 'the minimum is %s errors away', d)
        e = abs(cov - inv * s2) / np.outer(s, s) / s2
        check(e.max() < 0.1, 'covariance differs from the inverse curvature by %g of the variances', e.max())
    pull = abs(p - q) / (err + (1e-2 if m == 'dev' else 2e-3) * u + (0 if terms is None else 1) * 0.05 * case['noise'] * u)
    if m not in INDEX:
        check(pull.max() < 8, 'truth is %s errors away: %s %s', pull, p, q)
    else:
        check(pull[:4].max() < 8 and pull[h:].max() < 12, 'truth is %s errors away: %s %s', pull, p, q)
    r2 = ftr.go(obs=obs, guess=guess)
    check(repr(sorted(r2.items())) == repr(sorted(res.items())), 'not reproducible')


@R.law(st.fixed_dictionaries(dict(how=st.sampled_from(['model', 'input', 'short', 'bands', 'bad', 'maxfev']), c=_truth)), quick=200, rule='all')
def rejected(case, ctx):
    """unsupported models and inputs, and guesses of the wrong size, are rejected; stopped fits are flagged"""
    c = case['c']
    mb, q = sky(dict(c, bands=c['bands'][:1] if case['how'] != 'bands' else c['bands']), 0.1)
    m = c['model']
    q = q[:nhead(m) + len(mb)]
    ctx.nontrivial()
    ctx.label(case['how'])
    if case['how'] == 'model':
        for bad in ('coellip', 'bdf', 'spergel', 'moffat', 'bogus'):
            raises((NotImplementedError, ValueError), GalsimFitter(model=bad).go, obs=mb, guess=q, _msg='model ' + bad)
    elif case['how'] == 'input':
        raises((ValueError, AssertionError), fitter(m).go, obs=np.ones((4, 4)), guess=q, _msg='an array')
        raises((ValueError, AssertionError), fitter(m).go, obs=None, guess=q, _msg='nothing')
    elif case['how'] in ('short', 'bands'):
        raises(ValueError, fitter(m).go, obs=mb, guess=q[:-1], _msg='guess too short')
        raises(ValueError, fitter(m).go, obs=mb, guess=np.append(q, 1.0), _msg='guess too long')
    elif case['how'] == 'bad':
        b = q.copy()
        b[2] = 1.2
        raises(GMixRangeError, fitter(m).go, obs=mb, guess=b, _msg='guess out of range')
    else:
        g = q * 1.05
        res = fitter(m, None, maxfev=1, ftol=1e-9, xtol=1e-9).go(obs=mb, guess=g)
        check(res['flags'] != 0 and not any(k in res for k in ('g', 'flux', 's2n_r')), 'stopped after one evaluation: %s', res['flags'])
        check(np.all(res['pars'] == PDEF) and np.all(res['pars_err'] == CDEF), 'values of a failed fit')
