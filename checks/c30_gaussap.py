"""C30: gaussian-aperture fluxes equal the aperture integral of the model"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds, rng_of, disk, ref_model, model_case, build, ref_of, MODEL_NPARS
import ngmix
from ngmix.gaussap import get_gaussap_flux
from ngmix import flags as FL

ORACLE = ('per component flux * s^2 / sqrt(det(C + s^2 I)) with the reference decomposition of every model (gen.ref_model), for each row '
          'and band separately; quadrature of the rendered profile times the weight; NaN and a nonzero flag exactly for the rows and bands whose '
          'parameters are invalid')
R = Registry()


def ref_ap(full, sigma):
    f = np.asarray(full, dtype='f8').reshape(-1, 6)
    s2 = sigma * sigma
    return (f[:, 0] * s2 / np.sqrt((f[:, 3] + s2) * (f[:, 5] + s2) - f[:, 4] ** 2)).sum()


def scale_of(full):
    return np.abs(np.asarray(full).reshape(-1, 6)[:, 0]).sum()


def wkw(how, sigma):
    return {'sigma': dict(sigma=sigma), 'T': dict(T=2 * sigma ** 2), 'fwhm': dict(fwhm=sigma * 2 * math.sqrt(2 * math.log(2)))}[how]


@R.law(st.tuples(model_case(flux=(0.1, 1e4), Tlo=1e-3, Thi=1e3), model_case(flux=(0.1, 1e4), Tlo=1e-2, Thi=10), logfl(1e-2, 1e2),
                 st.sampled_from(['sigma', 'T', 'fwhm']), st.sampled_from(['plain', 'plain', 'conv', 'setflux', 'round', 'evaluated'])),
       quick=1500, thorough=40000, shards=2, rule='several gaussians and not round')
def mixture(case, ctx):
    """the aperture flux of any mixture, however made"""
    c, psf, sigma, how, deriv = case
    full = ref_of(c).copy()
    gm = build(c)
    if c['model'] == 'full':
        # the gaussians of a model share a center; the weight is at it
        full[:, 1:3] = full[0, 1:3]
        gm = ngmix.GMix(pars=full.ravel())
    if deriv == 'conv':
        p = ref_of(psf).copy()
        p[:, 0] = np.abs(p[:, 0])
        p[:, 1:3] = p[0, 1:3]
        if len(full) * len(p) > 200:
            raise Skip()
        gm = gm.convolve(ngmix.GMix(pars=p.ravel()))
        w = p[:, 0] / p[:, 0].sum()
        full = np.array([np.concatenate([[a[0] * wi], a[1:3], a[3:] + b[3:]]) for a in full for b, wi in zip(p, w)])
    elif deriv == 'setflux':
        if abs(full[:, 0].sum()) < 1e-3 * scale_of(full):
            raise Skip()
        full[:, 0] *= 7.0 / full[:, 0].sum()
        gm.set_flux(7.0)
    elif deriv == 'evaluated':
        gm.make_image((4, 5), jacobian=ngmix.DiagonalJacobian(row=1, col=2, scale=0.3))
    elif deriv == 'round':
        gm = gm.copy()
    ctx.label(c['model'] + ' ' + deriv)
    ctx.nontrivial(len(full) > 1 and abs(full[0, 4]) + abs(full[0, 3] - full[0, 5]) > 0)
    before = gm.get_full_pars()
    got = gm.get_gaussap_flux(**wkw(how, sigma))
    exp = ref_ap(full, sigma)
    close(got, exp, 1e-7, 1e-9 * scale_of(full), 'aperture flux')
    same(gm.get_full_pars(), before, 'mixture')
    close(gm.get_gaussap_flux(**wkw('sigma', sigma)), got, 1e-9, 1e-11 * scale_of(full), 'aperture flux from sigma, and from %s' % how)
    raises(ValueError, gm.get_gaussap_flux)
    # an aperture much larger than the profile sees the whole flux
    big = 1e5 * math.sqrt(max(full[:, 3].max(), full[:, 5].max(), 1e-6))
    close(gm.get_gaussap_flux(**wkw(how, big)), full[:, 0].sum(), 1e-7, 1e-7 * scale_of(full), 'flux in an aperture much larger than the profile')


@R.law(st.tuples(st.lists(st.tuples(logfl(0.3, 50), logfl(0.5, 10), disk(0.6)), min_size=1, max_size=4), fl(-3, 3), fl(-3, 3), logfl(0.4, 3.0), st.sampled_from(['sigma', 'T', 'fwhm'])),
       quick=150, thorough=3000, rule='several gaussians')
def quadrature(case, ctx):
    """the flux is the integral of the rendered profile times a gaussian of unit peak"""
    comps, r, c, sigma, how = case
    ctx.nontrivial(len(comps) > 1)
    pars = []
    for p, T, (e1, e2) in comps:
        pars += [p, r, c, T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
    gm = ngmix.GMix(pars=pars)
    n = 121
    h = 12 * sigma / n
    # resolved by the grid: the product with the weight is narrower than the weight
    f = np.array(pars).reshape(-1, 6)
    lam = min(np.linalg.eigvalsh([[x[3], x[4]], [x[4], x[5]]])[0] for x in f)
    if math.sqrt(1 / (1 / lam + 1 / sigma ** 2)) < 1.2 * h:
        raise Skip()
    cen = (n - 1) / 2
    jac = ngmix.DiagonalJacobian(row=cen - r / h, col=cen - c / h, scale=h)
    im = gm.make_image((n, n), jacobian=jac, fast_exp=False) / h ** 2
    rr, cc = np.mgrid[:n, :n]
    w = np.exp(-0.5 * ((rr - cen) ** 2 + (cc - cen) ** 2) * h * h / sigma ** 2)
    close((im * w).sum() * h * h, gm.get_gaussap_flux(**wkw(how, sigma)), 1e-5, 0, 'aperture flux against the integral over the rendered profile')


MODELS = ['gauss', 'turb', 'exp', 'dev', 'cm', 'bdf', 'bd']
BAD = ['g1', 'g=1', 'gnan', 'gbig', 'Tnan', 'fnan', 'finf', 'cnan', 'cinf', 'Tinf', 'sentinel', 'xnan']
row = st.tuples(seeds, pick((5, st.none()), (2, st.sampled_from(BAD))), pick((4, st.just(True)), (1, st.just(False))))


def make_row(model, nband, seed, bad):
    """parameters of a row, extra parameters, and the bands that are invalid"""
    r = rng_of(seed)
    g = math.sqrt(r.uniform()) * 0.9
    th = r.uniform(0, 2 * math.pi)
    head = [r.normal(), r.normal(), g * math.cos(th), g * math.sin(th), 10 ** r.uniform(-3.5, 2)]
    fd, td = r.uniform(), 10 ** r.uniform(-1, 1)
    if model == 'bd':
        head += [math.log10(td), fd]
    elif model == 'bdf':
        head += [fd]
    p = np.array(head + list(10 ** r.uniform(-1, 4, size=nband) * np.where(r.uniform(size=nband) < 0.2, -1, 1)))
    nh = len(head)
    inv = np.zeros(nband, dtype=bool)
    b = int(r.randint(nband))
    if bad is not None:
        if bad in ('fnan', 'finf'):
            p[nh + b] = np.nan if bad == 'fnan' else np.inf
            inv[b] = True
        else:
            inv[:] = True
            if bad == 'g1':
                p[2:4] *= r.uniform(1.0, 3.0) / g
            elif bad == 'g=1':
                p[2:4] = [1.0, 0.0] if seed % 2 else [0.0, -1.0]
            elif bad == 'gnan':
                p[2 + seed % 2] = np.nan
            elif bad == 'gbig':
                p[2 + seed % 2] = 1e10
            elif bad in ('Tnan', 'Tinf'):
                p[4] = np.nan if bad == 'Tnan' else np.inf
            elif bad in ('cnan', 'cinf'):
                p[seed % 2] = np.nan if bad == 'cnan' else -np.inf
            elif bad == 'sentinel':
                p[:] = -9999.0
                fd, td = -9999.0, -9999.0
            elif bad == 'xnan':
                if model in ('bd', 'bdf'):
                    p[5] = np.nan
                elif model == 'cm':
                    if seed % 2:
                        fd = np.nan
                    else:
                        td = np.nan
                else:
                    p[4] = np.nan
    return p, fd, td, inv


@R.law(st.tuples(st.sampled_from(MODELS), ints(1, 5), st.lists(row, min_size=1, max_size=9), logfl(0.1, 30), st.booleans(),
                 st.sampled_from(['array', 'list', 'readonly', 'fortran', 'f4', 'swapped', 'view', 'flat'])),
       quick=1500, thorough=40000, shards=2, rule='invalid and masked rows between valid ones, or several bands and rows')
def catalog(case, ctx):
    """each row and band gets the aperture flux of its own parameters; invalid ones are marked and do not touch others"""
    model, nband, rows, fwhm, domask, form = case
    full = [make_row(model, nband, s, bad) for s, bad, _ in rows]
    pars = np.array([x[0] for x in full])
    fd = np.array([x[1] for x in full])
    td = np.array([x[2] for x in full])
    inv = np.array([x[3] for x in full])
    mask = np.array([m for _, _, m in rows], dtype=bool)
    n = len(rows)
    ctx.label('%s %s' % (model, form))
    ctx.nontrivial((n > 1 and nband > 1) or (inv.any() and not inv.all()))
    tol = 1e-7
    if form == 'f4':
        pars, fd, td = pars.astype('f4'), fd.astype('f4'), td.astype('f4')
    kw = {}
    P = pars.astype('f8')
    A, FD, TD = pars, fd, td
    if form == 'list':
        A, FD, TD = pars.tolist(), fd.tolist(), td.tolist()
    elif form == 'readonly':
        for x in (A, FD, TD):
            x.setflags(write=False)
    elif form == 'fortran':
        A = np.asfortranarray(pars)
    elif form == 'swapped':
        A, FD, TD = pars.astype('>f8'), fd.astype('>f8'), td.astype('>f8')
    elif form == 'view':
        big = np.full((2 * n, pars.shape[1] + 1), 3.3)
        big[::2, 1:] = pars
        A = big[::2, 1:]
    elif form == 'flat' and n == 1:
        A, FD, TD = pars[0], float(fd[0]), float(td[0])
    if model == 'cm':
        kw.update(fracdev=FD, TdByTe=TD)
    if domask:
        kw['mask'] = mask.tolist() if form == 'list' else mask.astype('i4') if form == 'f4' else mask
    else:
        mask = np.ones(n, dtype=bool)
    keep = [np.array(x, copy=True) for x in (A, FD, TD, mask)]
    flux, flags = get_gaussap_flux(A, model, fwhm, verbose=False, **kw)
    for x, k, what in zip((A, FD, TD, mask), keep, ('parameters', 'fracdev', 'TdByTe', 'mask')):
        same(np.asarray(x), k, what + ' handed in')
    check(flux.shape == (n, nband) and flags.shape == (n, nband), 'shapes %r, %r for %d rows and %d bands', flux.shape, flags.shape, n, nband)
    sigma = fwhm / (2 * math.sqrt(2 * math.log(2)))
    nh = MODEL_NPARS[model] - 1
    for i in range(n):
        for b in range(nband):
            w = 'row %d band %d' % (i, b)
            if not mask[i]:
                check(np.isnan(flux[i, b]) and flags[i, b] == FL.NO_ATTEMPT, '%s, masked: flux %r flags %r', w, flux[i, b], flags[i, b])
            elif inv[i, b]:
                check(np.isnan(flux[i, b]) and flags[i, b] == FL.GMIX_RANGE_ERROR, '%s, invalid: flux %r flags %r (%r)', w, flux[i, b], flags[i, b], P[i])
            else:
                q = np.append(P[i, :nh], P[i, nh + b])
                ref = ref_model(model, q, float(np.float64(fd[i])), float(np.float64(td[i])))
                check(flags[i, b] == 0, '%s: flags %r for %r', w, flags[i, b], q)
                close(flux[i, b], ref_ap(ref, sigma), tol, 1e-9 * scale_of(ref), 'aperture flux, ' + w)
    flux2, flags2 = get_gaussap_flux(A, model, fwhm, **kw)
    same(flux2, flux, 'aperture fluxes again')
    same(flags2, flags, 'flags again')
    # a row is independent of the others
    k = n // 2
    kw1 = dict(kw)
    for name in kw1:
        kw1[name] = np.array(kw1[name], ndmin=1)[k:k + 1]
    f1, g1 = get_gaussap_flux(P[k], model, fwhm, verbose=False, **kw1)
    same(f1[0], flux[k], 'aperture flux of a row alone')
    same(g1[0], flags[k], 'flags of a row alone')
    if n > 1:
        raises(AssertionError, get_gaussap_flux, A, model, fwhm, **dict(kw, mask=[True] * (n - 1)))
        if model == 'cm':
            raises(AssertionError, get_gaussap_flux, A, model, fwhm, **dict(kw, fracdev=fd[1:]))
            raises(AssertionError, get_gaussap_flux, A, model, fwhm, **dict(kw, TdByTe=td[1:]))
