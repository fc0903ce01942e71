"""C23: template and psf fluxes"""
import math
import numpy as np
import galsim
import ngmix
from vh import Registry, st, check, close, raises, same
from gen import fl, logfl, ints, seeds, rng_of, pick, jac, make_jac, vu, jdet, full_pars, ref_eval, weights, wspec, sign
from ngmix import GMix, Observation, ObsList, MultiBandObsList, flags as F
from ngmix.fitting import PSFFluxFitter, GalsimPSFFluxFitter
from ngmix.defaults import PDEF, CDEF

ORACLE = ('weighted linear least squares in closed form, over templates evaluated from the closed form of the mixtures, taken from the given images, '
          'or drawn directly by galsim; pixels without weight are dropped before the sums are taken')
R = Registry()

FORMS = ['psf gmix', 'psf gmix', 'psf gmix raw', 'gmix', 'psf template', 'psf template raw', 'template']

_epoch = st.fixed_dictionaries(dict(
    dims=st.tuples(ints(1, 12), ints(1, 12)), j=jac(0.2, 1.5, 0.3), off=st.tuples(fl(-2, 2), fl(-2, 2)), w=wspec(), izw=st.booleans(), seed=seeds,
    gmix=full_pars(1, 3, cen=0.5, Tlo=0.3, Thi=5.0, emax=0.6), empty=pick((9, st.just(False)), (1, st.just(True))), nan=pick((3, st.just(False)), (1, st.just(True)))))


def make(e, form, flux, noise, kind):
    """(observation, template the estimate is for) of one epoch"""
    r = rng_of(e['seed'])
    dims = tuple(e['dims'])
    row, col = (dims[0] - 1) / 2 + e['off'][0], (dims[1] - 1) / 2 + e['off'][1]
    j = make_jac(e['j'], row, col)
    w = weights(dims, e['w'])
    if e['empty']:
        w[:] = 0
    if e['izw'] and not np.any(w > 0):
        w[0, 0] = 1.0
    extra = {}
    if form.endswith('template') or form == 'psf template raw':
        t = r.uniform(0.1, 3.0, size=dims) * r.choice([0.3, 1, 1, 10])
        if r.randint(4) == 0:
            # with negative pixels, and a sum away from zero
            t[r.uniform(size=dims) < 0.2] *= -0.3
            t[0, 0] += 2 * abs(t).sum()
        extra['template'] = t
        m = t if form == 'psf template raw' else t / t.sum()
    else:
        v, u = vu(dims, e['j'], row, col)
        m = ref_eval(e['gmix'], v, u) * abs(jdet(e['j']))
        if form != 'psf gmix raw':
            m = m / sum(e['gmix'][::6])
    if kind == 'noise':
        im = noise * r.normal(size=dims)
    else:
        im = flux * m + noise * r.normal(size=dims) * (kind != 'exact')
    # what is under the mask does not matter
    im = np.where(w > 0, im, im + (0 if kind == 'exact' and not e['nan'] else 1e3 * r.normal(size=dims)))
    if e['nan']:
        im[w <= 0] = r.choice([np.nan, np.inf])
    kw = {}
    if form.startswith('psf'):
        kw['psf'] = Observation(np.ones((3, 5)), gmix=None if extra else GMix(pars=e['gmix']))
    elif not extra:
        kw['gmix'] = GMix(pars=e['gmix'])
        if r.randint(2):
            kw['psf'] = Observation(np.ones((3, 5)), gmix=GMix(pars=[1.0, 0, 0, 1, 0, 1]))
    o = Observation(im, weight=w, jacobian=j, ignore_zero_weight=e['izw'], **kw)
    if extra:
        (o.psf if form.startswith('psf') else o).template = extra['template']
    return o, m


def fp(o):
    out = [o.image.tobytes(), o.weight.tobytes(), repr(o.jacobian)]
    for x in (o, o.psf if o.has_psf() else None):
        if x is not None:
            out += [x.gmix.get_full_pars().tobytes() if x.has_gmix() else None, x.template.tobytes() if hasattr(x, 'template') else None]
    return out


def expected(obs, models):
    """flux, error, chi2 per degree of freedom and degrees of freedom"""
    num = den = 0.0
    n = tot = 0
    parts = []
    for o, m in zip(obs, models):
        use = o.weight > 0
        w = o.weight[use]
        num += math.fsum(m[use] * o.image[use] * w)
        den += math.fsum(m[use]**2 * w)
        n += int(use.sum())
        tot += int(use.sum()) if o.ignore_zero_weight else use.size
        parts.append((m[use], o.image[use], w))
    if den == 0:
        return dict(flux=None, den=0.0, n=n, tot=tot)
    flux = num / den
    chi2 = sum((w * (im - flux * m)**2).sum() for m, im, w in parts)
    size = sum((w * im**2).sum() for m, im, w in parts)
    return dict(flux=flux, chi2=chi2, den=den, n=n, tot=tot, size=size, cond=sum(abs(m * im * w).sum() for m, im, w in parts) / den)


def verify(res, obs, models, tol=1e-11):
    e = expected(obs, models)
    check(res['model'] == 'template', 'model')
    if e['den'] == 0:
        check(res['flags'] & F.DIV_ZERO, 'nothing to measure: flags %d', res['flags'])
        check(res['flux'] == PDEF and res['flux_err'] == CDEF, 'values without data: %s', res)
        return e
    close(res['flux'], e['flux'], tol, tol * e['cond'], 'flux')
    dof = e['n'] - 1
    if dof > 0:
        close(res['dof'], dof, 1e-14, 0, 'dof')
        close(res['chi2per'], e['chi2'] / dof, tol, tol * e['size'] / dof, 'chi2per')
    if e['tot'] == 1:
        check(res['flags'] & F.DIV_ZERO, 'one pixel: flags %d', res['flags'])
    else:
        check(res['flags'] == 0, 'flags %d', res['flags'])
        close(res['flux_err']**2, e['chi2'] / e['den'] / (e['tot'] - 1), tol * 10, tol * e['size'] / e['den'] / (e['tot'] - 1), 'squared error')
    return e


def container(obs, single):
    if len(obs) == 1 and single:
        return obs[0]
    ol = ObsList()
    for o in obs:
        ol.append(o)
    return ol


@R.law(st.fixed_dictionaries(dict(form=st.sampled_from(FORMS), epochs=st.lists(_epoch, min_size=1, max_size=4), flux=st.tuples(logfl(0.01, 1e4), sign()).map(lambda t: t[0] * t[1]), noise=logfl(1e-3, 10), kind=st.sampled_from(['noise', 'model', 'model', 'exact']), single=st.booleans())),
       quick=2000, rule='more than one epoch or masked pixels')
def identity(case, ctx):
    """flux, error, chi squared and degrees of freedom are those of weighted linear least squares over all epochs"""
    form = case['form']
    pairs = [make(e, form, case['flux'], case['noise'], case['kind']) for e in case['epochs']]
    obs, models = [p[0] for p in pairs], [p[1] for p in pairs]
    ctx.nontrivial(len(obs) > 1 or any(not np.all(o.weight > 0) for o in obs))
    ctx.label(form)
    before = [fp(o) for o in obs]
    kw = dict(do_psf=form.startswith('psf'), normalize_psf=not form.endswith('raw'))
    if form == 'gmix' or form == 'template':
        kw['normalize_psf'] = bool(case['epochs'][0]['seed'] % 2)
    ftr = PSFFluxFitter(**kw)
    res = ftr.go(obs=container(obs, case['single']))
    e = verify(res, obs, models)
    check([fp(o) for o in obs] == before, 'observations changed')
    if e['den'] and case['kind'] == 'exact':
        close(res['flux'], case['flux'], 1e-10, 0, 'flux of an image that is the template')
        if e['tot'] > 1:
            check(res['flux_err'] <= 1e-6 * abs(case['flux']), 'error of an image that is the template')
    # measuring again, or drawing the template in between, changes nothing
    had = repr(sorted(res.items()))
    for k in range(2):
        res.go()
        check(repr(sorted(res.items())) == had, 'measured %d times', k + 2)
    check([fp(o) for o in obs] == before, 'observations changed')
    # the fitter remembers nothing
    o2, m2 = make(dict(case['epochs'][0], seed=case['epochs'][0]['seed'] ^ 1, dims=(5, 4)), form, 3.0, 0.1, 'model')
    verify(ftr.go(obs=o2), [o2], [m2])
    r2 = ftr.go(obs=container(obs, case['single']))
    check(repr(sorted(r2.items())) == repr(sorted(res.items())), 'not reproducible')


@R.law(st.fixed_dictionaries(dict(form=st.sampled_from(FORMS), epochs=st.lists(_epoch, min_size=1, max_size=3), flux=logfl(0.1, 100), noise=logfl(1e-2, 1), rel=st.sampled_from(['scale', 'add', 'order', 'weights', 'norm', 'split']), f=st.tuples(logfl(0.01, 100), sign()).map(lambda t: t[0] * t[1]))), quick=1500, rule='some pixel with weight')
def relations(case, ctx):
    """linear in the image, inverse in the norm of a template used as it is, unchanged by the norm otherwise, and by the order and the splitting of epochs"""
    form, f = case['form'], case['f']
    eps = [dict(e, nan=False) for e in case['epochs']]
    pairs = [make(e, form, case['flux'], case['noise'], 'model') for e in eps]
    obs = [p[0] for p in pairs]
    psf = form.startswith('psf')
    kw = dict(do_psf=psf, normalize_psf=not form.endswith('raw'))
    run = lambda x: PSFFluxFitter(**kw).go(obs=container(x, False))  # noqa
    a = run(obs)
    e = expected(obs, [p[1] for p in pairs])
    if e['den'] == 0 or e['tot'] == 1:
        return
    ctx.nontrivial()
    ctx.label(case['rel'])

    def variant(o, image=None, weight=None, scale=None, izw=None):
        kw2 = {}
        for who in ('psf', ''):
            if who == 'psf' and not o.has_psf():
                continue
            x = o.psf if who else o
            gm = None
            if x.has_gmix():
                gm = x.gmix.copy()
                if scale is not None:
                    gm.set_flux(gm.get_flux() * scale)
            if who:
                kw2['psf'] = Observation(x.image, gmix=gm, jacobian=x.jacobian)
                if hasattr(x, 'template'):
                    kw2['psf'].template = x.template * (scale or 1.0)
            elif gm is not None:
                kw2['gmix'] = gm
        n = Observation(o.image if image is None else image, weight=o.weight if weight is None else weight, jacobian=o.jacobian, ignore_zero_weight=o.ignore_zero_weight if izw is None else izw, **kw2)
        if hasattr(o, 'template'):
            n.template = o.template * (scale or 1.0)
        return n
    tot = lambda x: sum(o.pixels.size for o in x)  # noqa
    flux, err = a['flux'], a['flux_err']
    rel = case['rel']
    cond = e['cond']
    if rel == 'scale':
        b = run([variant(o, image=o.image * f) for o in obs])
        flux, err = flux * f, err * abs(f)
    elif rel == 'add':
        r = rng_of(eps[0]['seed'])
        n = [r.normal(size=o.image.shape) for o in obs]
        b = run([variant(o, image=o.image + x) for o, x in zip(obs, n)])
        c = run([variant(o, image=x) for o, x in zip(obs, n)])
        flux, err = flux + c['flux'], None
        cond = cond + expected([variant(o, image=x) for o, x in zip(obs, n)], [p[1] for p in pairs])['cond']
    elif rel == 'order':
        b = run(obs[::-1])
    elif rel == 'weights':
        b = run([variant(o, weight=o.weight * abs(f)) for o in obs])
    elif rel == 'norm':
        b = run([variant(o, scale=abs(f)) for o in obs])
        if form.endswith('raw'):
            flux, err = flux / abs(f), err / abs(f)
            cond = cond / abs(f)
    else:
        parts = []
        for o in obs:
            cut = rng_of(eps[0]['seed'] + 5).uniform(size=o.image.shape) < 0.5
            for keep in (cut, ~cut):
                w = np.where(keep, o.weight, 0)
                if np.any(w > 0):
                    parts.append(variant(o, weight=w, izw=True))
        b = run(parts)
        if sum(int((o.weight > 0).sum()) for o in obs) < 2:
            return
        err = err * math.sqrt((tot(obs) - 1) / (tot(parts) - 1))
    close(b['flux'], flux, 1e-10, 1e-10 * cond * max(1, abs(f)), rel)
    if err is not None:
        close(b['flux_err'], err, 1e-5, 1e-6 * math.sqrt(e['size'] / e['den'] / (tot(obs) - 1)) * (max(1, abs(f)) if rel == 'scale' else 1 / min(1, abs(f)) if rel == 'norm' else 1), rel + ', error')


# ------------------------------------------------------------------ galsim

_gepoch = st.fixed_dictionaries(dict(
    dims=st.tuples(ints(2, 14), ints(2, 14)), j=jac(0.2, 0.5, 0.2), off=st.tuples(fl(-2, 2), fl(-2, 2)), w=wspec(), izw=st.booleans(), seed=seeds,
    psf=st.fixed_dictionaries(dict(fwhm=fl(0.9, 2.0), g=st.tuples(fl(-0.2, 0.2), fl(-0.2, 0.2)), off=st.tuples(fl(-1, 1), fl(-1, 1)), n=st.tuples(ints(13, 20), ints(13, 20)), norm=logfl(0.1, 100), kind=ints(0, 1))),
    empty=st.just(False), nan=pick((3, st.just(False)), (1, st.just(True)))))


def wcs_of(j):
    return galsim.JacobianWCS(j['dudcol'], j['dudrow'], j['dvdcol'], j['dvdrow'])


@R.law(st.fixed_dictionaries(dict(epochs=st.lists(_gepoch, min_size=1, max_size=3), model=st.sampled_from([None, None, 'exp', 'gauss']), hlr=fl(0.3, 1.5), mflux=logfl(0.1, 100), method=st.sampled_from(['auto', 'auto', 'no_pixel']), interp=st.sampled_from([None, 'lanczos15', 'cubic']), flux=logfl(0.1, 100), noise=logfl(1e-3, 1), kind=st.sampled_from(['noise', 'model', 'exact']), single=st.booleans())),
       quick=220, rule='more than one epoch or masked pixels')
def external(case, ctx):
    """the same with templates drawn by galsim from the psf images, alone or convolved with a profile"""
    obs, models = [], []
    prof = None
    if case['model'] is not None:
        prof = {'exp': galsim.Exponential, 'gauss': galsim.Gaussian}[case['model']](half_light_radius=case['hlr'], flux=case['mflux'])
    for e in case['epochs']:
        r = rng_of(e['seed'])
        p, wcs = e['psf'], wcs_of(e['j'])
        truth = (galsim.Gaussian(fwhm=p['fwhm']) if p['kind'] else galsim.Moffat(beta=3, fwhm=p['fwhm'])).shear(g1=p['g'][0], g2=p['g'][1])
        pim = truth.drawImage(nx=p['n'][1], ny=p['n'][0], wcs=wcs, offset=(p['off'][1], p['off'][0])).array.astype('f8') * p['norm']
        prow, pcol = (p['n'][0] - 1) / 2 + p['off'][0], (p['n'][1] - 1) / 2 + p['off'][1]
        psf = Observation(pim, jacobian=make_jac(e['j'], prow, pcol))
        # (pixels of galsim images start from 1)
        ii = galsim.InterpolatedImage(galsim.Image(pim / pim.sum(), xmin=1, ymin=1), wcs=wcs, x_interpolant=case['interp'] or 'lanczos15', offset=galsim.PositionD(p['off'][1], p['off'][0]))
        obj = ii if prof is None else galsim.Convolve(prof.withFlux(1.0), ii)
        dims = tuple(e['dims'])
        m = obj.drawImage(image=galsim.ImageD(dims[1], dims[0], wcs=wcs), center=galsim.PositionD((dims[1] + 1) / 2 + e['off'][1], (dims[0] + 1) / 2 + e['off'][0]), method=case['method']).array.astype('f8')
        w = weights(dims, e['w'])
        if e['izw'] and not np.any(w > 0):
            w[0, 0] = 1.0
        im = case['flux'] * m * (case['kind'] != 'noise') + case['noise'] * r.normal(size=dims) * (case['kind'] != 'exact')
        if e['nan']:
            im[w <= 0] = np.nan
        obs.append(Observation(im, weight=w, jacobian=make_jac(e['j'], (dims[0] - 1) / 2 + e['off'][0], (dims[1] - 1) / 2 + e['off'][1]), psf=psf, ignore_zero_weight=e['izw']))
        models.append(m)
    ctx.nontrivial(len(obs) > 1 or any(not np.all(o.weight > 0) for o in obs))
    before = [fp(o) + [o.psf.image.tobytes()] for o in obs]
    kw = dict(model=prof, draw_method=case['method'])
    if case['interp'] is not None:
        kw['interp'] = case['interp']
    ftr = GalsimPSFFluxFitter(**kw)
    res = ftr.go(obs=container(obs, case['single']))
    # (the drawn images are single precision, and accurate to 1e-5 or so of the flux)
    e = expected(obs, models)
    check([fp(o) + [o.psf.image.tobytes()] for o in obs] == before, 'observations changed')
    if e['den'] == 0:
        verify(res, obs, models)
        return
    peak = max(abs(m[o.weight > 0]).max() if np.any(o.weight > 0) else 0 for o, m in zip(obs, models))
    if peak < 1e-4:
        return
    lost = 1e-5 / peak + 1e-5
    close(res['flux'], e['flux'], lost, lost * e['cond'], 'flux')
    close(res['dof'], max(e['n'] - 1, 1e-6), 1e-12, 0, 'dof')
    check(res['flags'] == (F.DIV_ZERO if e['tot'] == 1 else 0), 'flags %d', res['flags'])
    if e['n'] > 1:
        close(res['chi2per'], e['chi2'] / (e['n'] - 1), 10 * lost, (10 * lost)**2 * e['size'] / (e['n'] - 1), 'chi2per')
    if e['tot'] > 1:
        close(res['flux_err']**2, e['chi2'] / e['den'] / (e['tot'] - 1), 10 * lost, (10 * lost)**2 * e['size'] / e['den'] / (e['tot'] - 1), 'squared error')


# ------------------------------------------------------------------ what cannot be measured

@R.law(st.fixed_dictionaries(dict(e=_epoch, how=st.sampled_from(['empty', 'empty list', 'no psf', 'nothing set', 'multiband', 'pixel', 'later epoch', 'galsim multiband', 'galsim empty', 'far away', 'number']), form=st.sampled_from(FORMS), n=ints(1, 3))), quick=800, rule='all')
def failures(case, ctx):
    """without usable pixels a flag is set and no number is given; unusable input is rejected"""
    how, form, e = case['how'], case['form'], dict(case['e'], nan=False, empty=False)
    psf = form.startswith('psf')
    ftr = PSFFluxFitter(do_psf=psf, normalize_psf=not form.endswith('raw'))
    ctx.nontrivial()
    ctx.label(how)
    if how in ('empty', 'empty list'):
        obs = [make(dict(e, izw=False, empty=True, seed=e['seed'] + i), form, 2.0, 0.1, 'model')[0] for i in range(case['n'])]
        res = ftr.go(obs=container(obs, how == 'empty'))
        check(res['flags'] & F.DIV_ZERO and res['flux'] == PDEF and res['flux_err'] == CDEF, 'no weight: %s', res)
    elif how == 'no psf':
        o = Observation(np.ones((3, 3)), gmix=GMix(pars=e['gmix']))
        raises((RuntimeError, AttributeError, ValueError), PSFFluxFitter().go, obs=o, _msg='no psf')
    elif how == 'nothing set':
        o = Observation(np.ones((3, 3)), psf=Observation(np.ones((3, 3))))
        raises(ValueError, PSFFluxFitter(do_psf=psf).go, obs=o, _msg='neither mixture nor template')
    elif how == 'multiband':
        ol = ObsList()
        ol.append(make(e, form, 2.0, 0.1, 'model')[0])
        mb = MultiBandObsList()
        mb.append(ol)
        raises(ValueError, ftr.go, obs=mb, _msg='multi band')
    elif how == 'number':
        raises(ValueError, ftr.go, obs=np.ones((3, 3)), _msg='an array')
    elif how == 'pixel':
        o, m = make(dict(e, dims=(1, 1), w=dict(e['w'], kind='flat'), off=(0.0, 0.0)), form, 2.0, 0.1, 'model')
        res = ftr.go(obs=o)
        check(res['flags'] & F.DIV_ZERO, 'one pixel: %s', res)
        check(res['flux_err'] == CDEF, 'error from one pixel')
    elif how == 'later epoch':
        o = make(e, form, 2.0, 0.1, 'model')[0]
        o2 = Observation(np.ones((3, 3)), psf=Observation(np.ones((3, 3))))
        raises((RuntimeError, AttributeError, ValueError), ftr.go, obs=container([o, o2], False), _msg='second epoch without template')
    elif how == 'galsim multiband':
        mb = MultiBandObsList()
        raises(ValueError, GalsimPSFFluxFitter().go, obs=mb, _msg='multi band')
    elif how == 'galsim empty':
        p = galsim.Gaussian(fwhm=1).drawImage(nx=15, ny=15, scale=0.3).array
        o = Observation(np.ones((7, 7)), weight=np.zeros((7, 7)), ignore_zero_weight=False, jacobian=ngmix.DiagonalJacobian(row=3, col=3, scale=0.3), psf=Observation(p, jacobian=ngmix.DiagonalJacobian(row=7, col=7, scale=0.3)))
        res = GalsimPSFFluxFitter().go(obs=o)
        check(res['flags'] & F.DIV_ZERO and res['flux'] == PDEF and res['flux_err'] == CDEF, 'no weight: %s', res)
    else:
        # a template that is zero on all of the stamp
        if 'template' in form:
            return
        o, m = make(dict(e, off=(500.0, -3000.0), w=dict(e['w'], kind='flat')), form, 2.0, 0.1, 'noise')
        if np.any(m**2 != 0):
            return
        res = ftr.go(obs=o)
        check(res['flags'] & F.DIV_ZERO and res['flux'] == PDEF and res['flux_err'] == CDEF, 'no template: %s', res)
