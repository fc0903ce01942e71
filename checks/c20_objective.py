"""C20: the objective of the maximum likelihood fits"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jdet, pick, full_pars, ref_convolve, ref_model, weights, wspec)
import ngmix
from ngmix import GMix, Observation, ObsList, MultiBandObsList, joint_prior, priors
from ngmix.defaults import LOWVAL, BIGVAL
from ngmix.fitting import Fitter, CoellipFitter
from ngmix.fitting.results import FitModel, CoellipFitModel
from ngmix.gexceptions import GMixRangeError

ORACLE = ('the model written from the published tables and convolved in numpy, the weighted pixel differences written from the image, weight and transform of each epoch, '
          'the sum of the parts of the prior, a freshly built fit model for every point of a history')
R = Registry()
MODELS = ['gauss', 'exp', 'dev', 'turb', 'bd', 'bdf', 'coellip']
NEXTRA = {'bd': 2, 'bdf': 1}


def warmup():
    o = Observation(np.ones((4, 5)), weight=np.ones((4, 5)), jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=0.3))
    p = GMix(pars=[1, 0, 0, 1, 0, 1.0])
    for m in MODELS:
        pars = np.array([0, 0, 0.1, 0.1, 1.0] + [0.5] * NEXTRA.get(m, 0) + [1.0])
        f = CoellipFitModel(o, 1, pars) if m == 'coellip' else FitModel(o, m, pars)
        f.calc_fdiff(pars)
        f.calc_lnprob(pars, more=True)
        f.calc_lnprob(pars)
    p.convolve(p).make_image((3, 3), fast_exp=True)
    p.make_image((3, 3))


# ------------------------------------------------------------------ cases

psf_s = st.fixed_dictionaries(dict(pars=full_pars(1, 3, cen=0.4, Tlo=0.1, Thi=1.0, emax=0.4)))


def epoch():
    return st.fixed_dictionaries(dict(dims=st.tuples(ints(3, 9), ints(3, 9)), j=jac(0.2, 0.8, 0.2), off=st.tuples(fl(-1, 1), fl(-1, 1)), w=wspec(), izw=st.booleans(), seed=seeds, psf=psf_s, noise=st.sampled_from([0.0, 0.3])))


def cases(model):
    maxband = 1 if model == 'coellip' else 4
    return st.fixed_dictionaries(dict(
        model=st.just(model), ngauss=ints(1, 4), bands=st.lists(st.lists(epoch(), min_size=1, max_size=3), min_size=1, max_size=maxband), dopsf=pick((3, st.just('all')), (1, st.just('none')), (1, st.just('some'))),
        prior=st.one_of(st.none(), st.fixed_dictionaries(dict(cen=st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5), logfl(0.05, 2), logfl(0.05, 2)), g=logfl(0.05, 0.6), T=st.sampled_from(['flat', 'normal', 'erf', 'lognormal']), F=st.lists(st.sampled_from(['flat', 'normal', 'erf', 'lognormal']), min_size=4, max_size=4), x=st.sampled_from(['normal', 'flat'])))),
        points=st.lists(point(), min_size=1, max_size=6)))


def point():
    return st.fixed_dictionaries(dict(cen=st.tuples(fl(-1, 1), fl(-1, 1)), g=pick((6, disk(0.9)), (1, st.sampled_from([[1.0, 0.0], [0.8, -0.7], [-3.0, 0.2], [0.0, 1.0]]))),
                                      T=pick((8, logfl(0.1, 3.0)), (1, st.sampled_from([0.0, -0.3, -2.0]))), Ts=st.lists(logfl(0.1, 3.0), min_size=4, max_size=4), x=st.tuples(fl(-1, 1), fl(0, 1)),
                                      F=st.lists(pick((6, logfl(0.3, 30)), (1, st.sampled_from([-2.0, 0.0]))), min_size=4, max_size=4)))


def make_obs(e, haspsf, bandflux):
    dims = tuple(e['dims'])
    r = rng_of(e['seed'])
    w = weights(dims, e['w'])
    if not np.any(w > 0):
        w[r.randint(dims[0]), r.randint(dims[1])] = e['w']['amp']
    jj = make_jac(e['j'], (dims[0] - 1) / 2 + e['off'][0], (dims[1] - 1) / 2 + e['off'][1])
    im = GMix(pars=[bandflux, 0.1, -0.1, 0.7, 0.1, 0.6]).make_image(dims, jacobian=jj) + e['noise'] * r.normal(size=dims)
    psf = None
    if haspsf:
        psf = Observation(np.ones((3, 3)), jacobian=jj, gmix=GMix(pars=e['psf']['pars']))
    return Observation(im, weight=w, jacobian=jj, psf=psf, ignore_zero_weight=e['izw'])


def make_mb(case):
    mb = MultiBandObsList()
    k = 0
    for b, band in enumerate(case['bands']):
        ol = ObsList()
        for e in band:
            has = case['dopsf'] == 'all' or (case['dopsf'] == 'some' and e['seed'] % 2 == 0)
            ol.append(make_obs(e, has, 3.0 + b))
            k += 1
        mb.append(ol)
    return mb


def pars_of(model, p, nband, ngauss):
    head = [p['cen'][0], p['cen'][1], p['g'][0], p['g'][1]]
    if model == 'coellip':
        return np.array(head + [p['T']] + p['Ts'][1:ngauss] + p['F'][:ngauss])
    extra = {'bd': [p['x'][0], p['x'][1]], 'bdf': [p['x'][1]]}.get(model, [])
    return np.array(head + [p['T']] + extra + p['F'][:nband])


def one_d(kind, lo, hi, mean, sig, r):
    if kind == 'flat':
        return priors.FlatPrior(lo, hi, rng=r)
    if kind == 'normal':
        return priors.Normal(mean, sig, rng=r)
    if kind == 'erf':
        return priors.TwoSidedErf(lo, 0.1, hi, 0.2 * hi, rng=r)
    return priors.LogNormal(mean, sig, rng=r)


def make_prior(case):
    """the joint prior, and its parts in the order of the residual vector: (function of the parameters giving ln p)"""
    c = case['prior']
    if c is None:
        return None, []
    r = np.random.RandomState(1)
    nb, m, ng = len(case['bands']), case['model'], case['ngauss']
    cen = priors.CenPrior(c['cen'][0], c['cen'][1], c['cen'][2], c['cen'][3], rng=r)
    g = priors.GPriorBA(c['g'], rng=r)
    T = one_d(c['T'], -0.5, 2.5, 0.7, 0.5, r)
    Fs = [one_d(k, -3.0, 25.0, 5.0, 4.0 + i, r) for i, k in enumerate(c['F'])]
    parts = [lambda q: -0.5 * ((q[0] - c['cen'][0]) / c['cen'][2])**2, lambda q: -0.5 * ((q[1] - c['cen'][1]) / c['cen'][3])**2,
             lambda q: g.get_lnprob_scalar2d(q[2], q[3])]
    if m == 'coellip':
        parts += [lambda q, i=i: T.get_lnprob_scalar(q[4 + i]) for i in range(ng)]
        parts += [lambda q, i=i: Fs[0].get_lnprob_scalar(q[4 + ng + i]) for i in range(ng)]
        return joint_prior.PriorCoellipSame(ng, cen, g, T, Fs[0]), parts
    parts.append(lambda q: T.get_lnprob_scalar(q[4]))
    nx = NEXTRA.get(m, 0)
    fd = one_d(c['x'], 0.05, 0.95, 0.5, 0.2, r)
    lr = one_d(c['x'], -0.9, 0.9, 0.0, 0.4, r)
    if m == 'bd':
        parts.append(lambda q: lr.get_lnprob_scalar(q[5]))
    if nx:
        parts.append(lambda q: fd.get_lnprob_scalar(q[4 + nx]))
    parts += [lambda q, i=i: Fs[i].get_lnprob_scalar(q[5 + nx + i]) for i in range(nb)]
    F = Fs[:nb] if nb > 1 else Fs[0]
    if m == 'bd':
        return joint_prior.PriorBDSep(cen, g, T, lr, fd, F), parts
    if m == 'bdf':
        return joint_prior.PriorBDFSep(cen, g, T, fd, F), parts
    return joint_prior.PriorSimpleSep(cen, g, T, F), parts


def fresh(case, mb, prior, guess):
    if case['model'] == 'coellip':
        return CoellipFitModel(obs=mb, ngauss=case['ngauss'], guess=guess, prior=prior)
    return FitModel(obs=mb, model=case['model'], guess=guess, prior=prior)


def band_pars(model, q, band):
    if model == 'coellip':
        return np.array(q)
    n = 5 + NEXTRA.get(model, 0)
    return np.append(q[:n], q[n + band])


def in_range(q):
    return q[2]**2 + q[3]**2 < 1


def convolved(model, q, band, obs):
    f = ref_model(model, band_pars(model, q, band))
    if obs.has_psf_gmix():
        f = np.array(ref_convolve(f, obs.psf.gmix.get_full_pars()))
    return GMix(pars=np.asarray(f).ravel())


def fp(mb):
    out = []
    for ol in mb:
        for o in ol:
            j = o.jacobian
            out += [o.image.tobytes(), o.weight.tobytes(), o.pixels.tobytes(), repr(o.meta), (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)]
            out.append(o.gmix.get_full_pars().tobytes() if o.has_gmix() else None)
            out.append(o.psf.gmix.get_full_pars().tobytes() if o.has_psf_gmix() else None)
    return out


START = dict(gauss=[0, 0, 0, 0, 1.0], coellip=[0, 0, 0, 0])


def start_pars(case):
    m, nb, ng = case['model'], len(case['bands']), case['ngauss']
    if m == 'coellip':
        return np.array([0, 0, 0, 0] + [1.0] * ng + [1.0] * ng)
    return np.array([0, 0, 0, 0, 1.0] + [0.5] * NEXTRA.get(m, 0) + [1.0] * nb)


objective_case = st.sampled_from(MODELS).flatmap(cases)


@R.law(objective_case, quick=1600, rule='several epochs or bands, a prior or psfs')
def objective(case, ctx):
    """every residual, the log probability and the S/N sums are the definitional ones, at every point of any history of evaluations"""
    mb = make_mb(case)
    prior, parts = make_prior(case)
    nb, m, ng = len(case['bands']), case['model'], case['ngauss']
    before = fp(mb)
    single = nb == 1 and len(mb[0]) == 1
    arg = mb[0][0] if single and case['points'][0]['T'] > 0.5 else (mb[0] if nb == 1 and ng % 2 else mb)
    fm = fresh(case, arg, prior, start_pars(case))
    usable = [int(o.pixels.size) for ol in mb for o in ol]
    nprior = len(parts)
    ctx.nontrivial(not single or prior is not None)
    ctx.label(m)
    check(fm.npars == len(start_pars(case)) and fm.nband == nb, 'number of parameters')
    check(fm['model'] == m, 'model name')
    evaluated = []
    for n, p in enumerate(case['points']):
        q = pars_of(m, p, nb, ng)
        q0 = q.copy()
        how = (n + len(usable)) % 3
        if how == 0:
            lnp0 = fm.calc_lnprob(q)
        f = fm.calc_fdiff(q)
        more = fm.calc_lnprob(q, more=True)
        lnp = fm.calc_lnprob(q)
        if how == 0:
            same(lnp0, lnp, 'lnprob before and after')
        same(q, q0, 'parameters changed')
        check(f.shape == (nprior + sum(usable),), 'residuals %s for %d terms and %d pixels', f.shape, nprior, sum(usable))
        check(f.dtype == np.dtype('f8') and f.flags.owndata, 'residual vector')
        check(sorted(more) == ['lnprob', 'npix', 's2n_denom', 's2n_numer'], 'keys %s', sorted(more))
        same(more['lnprob'], lnp, 'lnprob')
        bad = not in_range(q)
        lnps = []
        if not bad:
            try:
                lnps = [part(q) for part in parts]
            except GMixRangeError:
                bad = True
        if bad:
            ctx.label('out of range')
            check(np.all(f == LOWVAL), 'residuals of an out-of-range point')
            check(more == dict(lnprob=LOWVAL, s2n_numer=0.0, s2n_denom=BIGVAL, npix=0), 'out of range: %s', more)
            continue
        # a size or determinant that is not positive
        pieces, numer, denom, loglike, npix = [], 0.0, 0.0, 0.0, 0
        ok = True
        for b in range(nb):
            for o in mb[b]:
                gm = convolved(m, q, b, o)
                full = gm.get_full_pars().reshape(-1, 6)
                det = full[:, 3] * full[:, 5] - full[:, 4]**2
                if np.any(det < 1e-190) or np.any(full[:, 3] + full[:, 5] <= 0):
                    ok = False
                    break
                model = gm.make_image(o.image.shape, jacobian=o.jacobian, fast_exp=True)
                w = o.weight
                use = (w > 0) if o.ignore_zero_weight else np.ones(w.shape, bool)
                w = np.where(w > 0, w, 0)
                pieces.append(((model - o.image) * np.sqrt(w))[use])
                numer += (model * o.image * w).sum()
                denom += (model**2 * w).sum()
                loglike += -0.5 * ((model - o.image)**2 * w).sum()
                npix += int(use.sum())
        if not ok:
            # non-positive sizes: not a mixture that can be evaluated, whatever it says stays finite or is the sentinel
            ctx.label('not positive')
            check(np.all(np.isfinite(f)) or np.all(f == LOWVAL), 'residuals of a degenerate point')
            check(bool(np.all(f == LOWVAL)) == (lnp == LOWVAL), 'residuals and log probability of a degenerate point disagree')
            continue
        ref = np.concatenate(pieces)
        scale = max(abs(ref).max(), 1e-3)
        # the mixtures come from two routes to the same parameters: the fast exponential interpolates, its cutoff can fall on either side
        d = abs(f[nprior:] - ref)
        check(np.all(d < 2e-9 * scale + 0) or np.sum(d > 2e-9 * scale) <= 2 and d.max() < 1e-4 * scale, 'residuals differ by %g of %g', d.max(), scale)
        lp = np.array(lnps)
        # sqrt(-2 ln p), up to a sign; the peak of every part is ln p = 0
        close(f[:nprior]**2, np.clip(-2 * lp, 0, None), 1e-9, 1e-12, 'prior terms')
        close(lnp, loglike + lp.sum(), 1e-8, 1e-8 * scale**2, 'log probability')
        close(-0.5 * (f**2).sum(), lnp - np.clip(lp, 0, None).sum(), 1e-9, 1e-9, 'sum of squares against log probability')
        close(more['s2n_numer'], numer, 1e-6, 1e-7 * scale**2, 's2n numerator')
        close(more['s2n_denom'], denom, 1e-6, 1e-7 * scale**2, 's2n denominator')
        check(more['npix'] == npix, 'npix %d for %d', more['npix'], npix)
        evaluated.append((q, f, lnp))
    # no memory: a model built now gives the same to the bit, as does the old one in another order
    for q, f, lnp in evaluated[::-1]:
        same(fm.calc_fdiff(q), f, 'second evaluation')
        f2 = fresh(case, mb, prior, start_pars(case))
        same(f2.calc_lnprob(q), lnp, 'lnprob of a fresh fit model')
        same(f2.calc_fdiff(q), f, 'residuals of a fresh fit model')
    check(fp(mb) == before, 'observations changed')
    if prior is not None:
        check(fm.bounds == prior.bounds, 'bounds')
    else:
        check(fm.bounds is None, 'bounds')


@R.law(objective_case, quick=900, rule='several epochs or bands')
def statistics(case, ctx):
    """the statistics, named values, mixtures and images of a result are those of its parameters"""
    mb = make_mb(case)
    prior, parts = make_prior(case)
    nb, m, ng = len(case['bands']), case['model'], case['ngauss']
    p = case['points'][-1]
    q = pars_of(m, p, nb, ng)
    if not in_range(q) or p['T'] <= 0:
        return
    try:
        lp = [part(q) for part in parts]
    except GMixRangeError:
        return
    fm = fresh(case, mb, prior, start_pars(case))
    r = rng_of(case['bands'][0][0]['seed'])
    A = r.normal(size=(len(q), len(q)))
    cov = A.dot(A.T)
    err = np.sqrt(np.diag(cov))
    ctx.nontrivial(nb > 1 or len(mb[0]) > 1)
    ctx.label(m)
    bad = dict(flags=2**r.randint(0, 15), pars=q * 0 - 9999, pars_cov=cov * 0 + 9999, errmsg='x')
    fm.set_fit_result(bad)
    check({k: fm[k] for k in bad if not k.startswith('pars')} == {k: bad[k] for k in bad if not k.startswith('pars')}, 'failed result not kept')
    check(not any(k in fm for k in ('g', 'T', 'flux', 's2n', 'chi2per')), 'statistics of a failed fit')
    npix = fm.calc_lnprob(q, more=True)['npix']
    if npix == len(q):
        return
    fm.set_fit_result(dict(flags=0, pars=q, pars_cov=cov, pars_err=err, nfev=3))
    f = fm.calc_fdiff(q)
    close(fm['lnprob'], -0.5 * (f**2).sum() + np.clip(lp, 0, None).sum() if lp else -0.5 * (f**2).sum(), 1e-9, 1e-9, 'lnprob')
    check(fm['npix'] == npix and fm['dof'] == npix - len(q), 'dof')
    close(fm['chi2per'] * fm['dof'], -2 * fm['lnprob'], 1e-12, 1e-12, 'chi2')
    check(fm['flags'] == 0 and fm['nfev'] == 3, 'result lost')
    num = den = 0.0
    for b in range(nb):
        gm0 = fm.get_gmix(band=b)
        close(gm0.get_full_pars().reshape(-1, 6), ref_model(m, band_pars(m, q, b)), 1e-11, 1e-12, 'mixture of band %d' % b)
        close(fm.get_band_pars(q, b), band_pars(m, q, b), 0, 0, 'band pars')
        for i, o in enumerate(mb[b]):
            ref = convolved(m, q, b, o)
            gm = fm.get_convolved_gmix(band=b, obsnum=i)
            close(gm.get_full_pars(), ref.get_full_pars(), 1e-11, 1e-12, 'convolved mixture of band %d epoch %d' % (b, i))
            im = fm.make_image(band=b, obsnum=i)
            close(im, ref.make_image(o.image.shape, jacobian=o.jacobian), 1e-9, 1e-12, 'image of band %d epoch %d' % (b, i))
            model = ref.make_image(o.image.shape, jacobian=o.jacobian, fast_exp=True)
            num += (model * o.image * o.weight).sum()
            den += (model**2 * o.weight).sum()
    s2n = num / math.sqrt(den) if den > 0 else 0.0
    close(fm['s2n'], s2n, 1e-6, 1e-8 * (1 + math.sqrt(den)), 's2n')
    same(fm['s2n'], fm['s2n_w'], 's2n_w')
    same(fm['g'], q[2:4], 'g')
    same(fm['g_cov'], cov[2:4, 2:4], 'g_cov')
    same(fm['g_err'], err[2:4], 'g_err')
    same(fm['T'], q[4], 'T')
    close(fm['T_err'], err[4], 1e-14, 0, 'T_err')
    if m != 'coellip':
        s = 5 + NEXTRA.get(m, 0)
        if nb == 1:
            same(fm['flux'], q[s], 'flux')
            close(fm['flux_err'], err[s], 1e-14, 0, 'flux_err')
        else:
            same(fm['flux'], q[s:], 'fluxes')
            same(fm['flux_cov'], cov[s:, s:], 'flux_cov')
            close(fm['flux_err'], err[s:], 1e-14, 0, 'flux_err')
    # slots are copies of the parameters: the named shape does not change when edited
    fm['g'][0] = 7
    same(fm['pars'][2], q[2], 'pars changed through g')


@R.law(objective_case, quick=400, rule='all')
def rejected(case, ctx):
    """guesses of the wrong size or out of range are rejected before anything is fit; nothing is changed"""
    mb = make_mb(case)
    prior, _ = make_prior(case)
    before = fp(mb)
    g = start_pars(case)
    m = case['model']
    ctx.nontrivial()
    raises(AssertionError, fresh, case, mb, prior, g[:-1], _msg='short guess')
    raises(AssertionError, fresh, case, mb, prior, np.append(g, 1.0), _msg='long guess')
    p = case['points'][0]['g']
    s = 1.0 / max(math.hypot(*p), 1e-3)
    for k in (1.0 + 1e-12, 1.5, 30.0):
        q = g.copy()
        q[2:4] = [p[0] * s * k, p[1] * s * k] if math.hypot(*p) > 0 else [k, 0]
        if q[2]**2 + q[3]**2 < 1:
            continue
        raises(GMixRangeError, fresh, case, mb, prior, q, _msg='guess with |g|>=1')
        ftr = CoellipFitter(ngauss=case['ngauss'], prior=prior) if m == 'coellip' else Fitter(model=m, prior=prior)
        raises(GMixRangeError, ftr.go, mb, q, _msg='fit with |g|>=1')
    if m == 'coellip':
        raises(AssertionError, fresh, case, MultiBandObsList_of(mb, 2), prior, np.append(g, 1.0), _msg='two bands for coellip')
    raises(Exception, FitModel, mb, 'nosuchmodel', g, _msg='unknown model')
    raises(ValueError, fresh, case, None, prior, g, _msg='no observation')
    check(fp(mb) == before, 'observations changed')


def MultiBandObsList_of(mb, n):
    out = MultiBandObsList()
    for _ in range(n):
        out.append(mb[0])
    return out
