"""C21: maximum likelihood fits"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jdet, pick, full_pars, ref_convolve, ref_model, weights, wspec)
import ngmix
from ngmix import GMix, Observation, ObsList, MultiBandObsList, joint_prior, priors
from ngmix.fitting import Fitter, CoellipFitter
from ngmix.gexceptions import GMixRangeError

ORACLE = ('the parameters the image was drawn from, the curvature and gradient of the objective by central differences of residuals written in numpy, '
          'and relations: repeated and reused fitters, reordered bands, rescaled images, split epochs')
R = Registry()
MODELS = ['gauss', 'exp', 'dev', 'turb', 'bdf', 'coellip']
NEXTRA = {'bd': 2, 'bdf': 1}


def warmup():
    o = Observation(np.ones((4, 5)), weight=np.ones((4, 5)), jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=0.3))
    p = GMix(pars=[1, 0, 0, 1, 0, 1.0])
    o.set_psf(Observation(np.ones((3, 3)), gmix=p))
    for m in MODELS + ['bd']:
        pars = np.array([0, 0, 0.1, 0.1, 1.0] + [0.5] * NEXTRA.get(m, 0) + [1.0])
        (CoellipFitter(1) if m == 'coellip' else Fitter(m)).go(o, pars)
    p.convolve(p).make_image((3, 3), fast_exp=True)
    p.make_image((3, 3))


# ------------------------------------------------------------------ sky

def epoch_s(lo=17, hi=27):
    return st.fixed_dictionaries(dict(n=ints(lo, hi), dn=ints(-3, 3), j=jac(0.25, 0.6, 0.2), off=st.tuples(fl(-1, 1), fl(-1, 1)), psf=full_pars(1, 2, cen=0.5, Tlo=1.6, Thi=5.0, emax=0.2), seed=seeds, wamp=logfl(0.1, 100), wkind=st.sampled_from(['flat', 'var', 'mask'])))


def true_s(models=MODELS, gmax=0.5):
    return st.sampled_from(models).flatmap(lambda m: st.fixed_dictionaries(dict(
        model=st.just(m), ngauss=ints(1, 2), bands=st.lists(st.lists(epoch_s(), min_size=1, max_size=2), min_size=1, max_size=1 if m == 'coellip' else 3),
        psf=pick((3, st.just(True)), (1, st.just(False))), cen=st.tuples(fl(-0.4, 0.4), fl(-0.4, 0.4)), g=disk(gmax), T=fl(0.8, 1.6), fd=fl(0.3, 0.7), F=st.lists(logfl(0.5, 200.0), min_size=3, max_size=3), seed=seeds)))


def scaled(pars, s):
    """positions and covariances in units of a length s"""
    p = np.array(pars, dtype='f8').reshape(-1, 6).copy()
    p[:, 1:3] *= s
    p[:, 3:] *= s * s
    return p.ravel()


def truth(c):
    # well sampled: at least a couple of pixels across
    s = max(math.sqrt(abs(jdet(e['j']))) for b in c['bands'] for e in b)
    c = dict(c, T=c['T'] * max(1.0, (s / 0.4)**2) * (2 if c['model'] == 'coellip' else 1))
    head = [c['cen'][0], c['cen'][1], c['g'][0], c['g'][1]]
    nb = len(c['bands'])
    if c['model'] == 'coellip':
        n = c['ngauss']
        return np.array(head + [c['T'] * x for x in (0.6, 2.5)[:n]] + [c['F'][0] * x for x in (1.0, 0.8)[:n]])
    return np.array(head + [c['T']] + ([c['fd']] if c['model'] == 'bdf' else []) + [0.3, c['fd']] * (c['model'] == 'bd') + c['F'][:nb])


def band_pars(model, q, band):
    if model == 'coellip':
        return np.array(q)
    n = 5 + NEXTRA.get(model, 0)
    return np.append(q[:n], q[n + band])


def model_gm(model, q, band, psf):
    f = ref_model(model, band_pars(model, q, band))
    if psf is not None:
        f = np.array(ref_convolve(f, psf))
    return GMix(pars=np.asarray(f).ravel())


def epoch_obs(c, e, b, q, noise, fast):
    dims = (e['n'], e['n'] + e['dn'])
    r = rng_of(e['seed'])
    s = math.sqrt(abs(jdet(e['j'])))
    jj = make_jac(e['j'], (dims[0] - 1) / 2 + e['off'][0], (dims[1] - 1) / 2 + e['off'][1])
    w = np.zeros(dims) + e['wamp']
    if e['wkind'] != 'flat':
        w *= r.uniform(0.5, 2.0, size=dims)
    if e['wkind'] == 'mask':
        w[r.uniform(size=dims) < 0.1] = 0
    # cuspy profiles are always seen through a psf
    psf = scaled(e['psf'], s) if c['psf'] or c['model'] not in ('gauss', 'coellip') else None
    gm = model_gm(c['model'], q, b, psf)
    im = gm.make_image(dims, jacobian=jj, fast_exp=fast)
    if noise:
        # in units of the central surface brightness: a well measured object
        w *= 1.0 / (noise * im.max())**2 / e['wamp']
        im += noise * im.max() * r.normal(size=dims)
    p = None
    if psf is not None:
        p = Observation(np.ones((3, 3)), jacobian=jj, gmix=GMix(pars=psf))
    return Observation(im, weight=w, jacobian=jj, psf=p, ignore_zero_weight=bool(e['n'] % 2))


def sky(c, noise=0.0, fast=False):
    q = truth(c)
    mb = MultiBandObsList()
    for b, band in enumerate(c['bands']):
        ol = ObsList()
        for e in band:
            ol.append(epoch_obs(c, e, b, q, noise, fast))
        mb.append(ol)
    return mb, q


def fitter(c, prior=None, **fp):
    kw = dict(prior=prior)
    if fp:
        kw['fit_pars'] = fp
    return CoellipFitter(ngauss=c['ngauss'], **kw) if c['model'] == 'coellip' else Fitter(model=c['model'], **kw)


def near(q, seed, f=0.1):
    r = rng_of(seed + 7)
    g = q.copy()
    g[:2] += f * r.uniform(-1, 1, size=2)
    g[2:4] += 0.5 * f * r.uniform(-1, 1, size=2)
    g[4:] *= 1 + f * r.uniform(-1, 1, size=len(q) - 4)
    return g


def units(q):
    """natural scale of each parameter"""
    s = abs(np.asarray(q)).copy()
    s[:2] = math.sqrt(abs(q[4]))
    s[2:4] = 1.0
    return s


def fp(mb):
    out = []
    for ol in mb:
        for o in ol:
            j = o.jacobian
            out += [o.image.tobytes(), o.weight.tobytes(), o.pixels.tobytes(), repr(o.meta), (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol), sorted(vars(o))]
            out.append(o.psf.gmix.get_full_pars().tobytes() if o.has_psf_gmix() else None)
    return out


def residuals(model, mb, q):
    """(model - data)/err over the retained pixels, written from the definitions"""
    out = []
    for b, ol in enumerate(mb):
        for o in ol:
            gm = model_gm(model, q, b, o.psf.gmix.get_full_pars() if o.has_psf_gmix() else None)
            im = gm.make_image(o.image.shape, jacobian=o.jacobian)
            use = (o.weight > 0) if o.ignore_zero_weight else np.ones(o.weight.shape, bool)
            out.append(((im - o.image) * np.sqrt(np.where(o.weight > 0, o.weight, 0)))[use])
    return np.concatenate(out)


def jac_of(model, mb, q):
    u = units(q)
    J = []
    for i in range(len(q)):
        h = 1e-4 * u[i]
        a, b = q.copy(), q.copy()
        a[i] += h
        b[i] -= h
        J.append((residuals(model, mb, a) - residuals(model, mb, b)) / (2 * h))
    return np.array(J).T


def consistent(res, nb, model, npars):
    """a clear flag comes with finite values that agree with each other"""
    pars, cov, err = res['pars'], res['pars_cov'], res['pars_err']
    check(pars.shape == (npars,) and cov.shape == (npars, npars) and err.shape == (npars,), 'shapes')
    check(np.all(np.isfinite(pars)) and np.all(np.isfinite(cov)) and np.all(np.isfinite(err)), 'not finite: %s %s', pars, err)
    check(np.all(np.diag(cov) >= 0), 'variances')
    close(err, np.sqrt(np.diag(cov)), 1e-13, 0, 'errors')
    check(pars[2]**2 + pars[3]**2 < 1, 'shape')
    same(res['g'], pars[2:4], 'g')
    same(res['g_err'], err[2:4], 'g_err')
    same(res['g_cov'], cov[2:4, 2:4], 'g_cov')
    same(res['T'], pars[4], 'T')
    close(res['T_err'], err[4], 1e-13, 0, 'T_err')
    check(np.isfinite(res['s2n']) and np.isfinite(res['chi2per']), 's2n, chi2per')
    if model != 'coellip':
        k = 5 + NEXTRA.get(model, 0)
        same(res['flux'], pars[k] if nb == 1 else pars[k:], 'flux')
        close(res['flux_err'], err[k] if nb == 1 else err[k:], 1e-13, 0, 'flux_err')
        if nb > 1:
            same(res['flux_cov'], cov[k:, k:], 'flux_cov')


def failed(res):
    check(res['flags'] != 0, 'flags')
    check(not any(k in res for k in ('g', 'T', 'flux', 's2n')), 'named values of a failed fit')
    check(isinstance(res['errmsg'], str), 'message')


# ------------------------------------------------------------------ truth

@R.law(true_s(), quick=500, rule='several bands, epochs or a psf')
def recover(case, ctx):
    """a noiseless image, started near the truth: the truth, for any bands, epochs and transforms"""
    mb, q = sky(case, fast=bool(case['seed'] & 1))
    before = fp(mb)
    nb = len(mb)
    g = near(q, case['seed'])
    g0 = g.copy()
    ctx.nontrivial(nb > 1 or len(mb[0]) > 1 or case['psf'])
    ctx.label(case['model'])
    res = fitter(case).go(obs=mb, guess=g)
    same(g, g0, 'guess changed')
    check(fp(mb) == before, 'observations changed')
    if res['flags'] != 0:
        # residuals of exactly zero: the covariance is all zeros, or has lost its sign.
        # a parameter of exactly zero: the steps of its finite differences vanish with it
        check(case['seed'] & 1 or np.any(abs(q[:4]) < 1e-6), 'flags %s %s', res['flags'], res['errmsg'])
        ctx.label('no residuals left')
        failed(res)
    else:
        consistent(res, nb, case['model'], len(q))
    e = abs(res['pars'] - q) / units(q)
    tol = 2e-3 if case['seed'] & 1 else 1e-2
    if case['model'] in ('coellip', 'bdf') :
        tol *= 10
    ctx.label('e%d' % np.ceil(np.log10(e.max() + 1e-12)))
    check(e.max() < tol, 'parameters off by %s', e)


def soft(c, q, nb, bounded):
    """(joint prior around the truth, its terms as a function of the parameters); bounds only limit where the fit may go"""
    rr = np.random.RandomState(5)
    m, ng = c['model'], c['ngauss']

    def normal(mean, sigma, lo, hi):
        return priors.Normal(mean, sigma, rng=rr, **(dict(bounds=(lo, hi)) if bounded else {}))

    def about(v):
        # (the bounds of the two size priors of a coellip fit are the same object)
        a = abs(v)
        return v + 0.3 * a, 0.5 * a, v - 3 * a, v + 4 * a
    cen, g = priors.CenPrior(0.1, -0.1, 0.5, 0.7, rng=rr), priors.GPriorBA(0.3, rng=rr)
    k = 5 + NEXTRA.get(m, 0)
    fd = normal(0.4, 0.3, -2.0, 3.0)
    if m == 'coellip':
        Ts, Fs = about(np.mean(q[4:4 + ng]) * 2), about(np.max(abs(q[4 + ng:])) * 2)
        prior = joint_prior.PriorCoellipSame(ng, cen, g, normal(*Ts), normal(*Fs))
        spec = [Ts] * ng + [Fs] * ng
    else:
        Ts = about(q[4])
        Fs = [about(v) for v in q[k:]]
        F = [normal(*v) for v in Fs]
        F = F if nb > 1 else F[0]
        prior = joint_prior.PriorBDFSep(cen, g, normal(*Ts), fd, F) if m == 'bdf' else joint_prior.PriorSimpleSep(cen, g, normal(*Ts), F)
        spec = [Ts] + ([(0.4, 0.3)] if m == 'bdf' else []) + Fs

    def terms(p):
        e = p[2]**2 + p[3]**2
        head = [(p[0] - 0.1) / 0.5, (p[1] + 0.1) / 0.7, math.sqrt(e / 0.3**2 - 4 * math.log(1 - e))]
        return np.abs(head + [(v - s_[0]) / s_[1] for v, s_ in zip(p[4:], spec)])
    return prior, terms


@R.law(st.fixed_dictionaries(dict(c=true_s(gmax=0.4), noise=logfl(1e-3, 0.02), prior=st.sampled_from(['none', 'none', 'soft', 'bounded', 'bounded']))), quick=600, rule='a fit that ended without flags')
def curvature(case, ctx):
    """with noise: the gradient of the objective vanishes at the result, and the covariance is the inverse curvature scaled by the residuals"""
    c = case['c']
    mb, q = sky(c, noise=case['noise'])
    nb = len(mb)
    prior, terms = (None, None) if case['prior'] == 'none' else soft(c, q, nb, case['prior'] == 'bounded')
    res = fitter(c, prior, ftol=1e-9, xtol=1e-9, maxfev=4000).go(obs=mb, guess=near(q, c['seed'], 0.05))
    if res['flags'] != 0:
        ctx.label('failed')
        failed(res)
        return
    consistent(res, nb, c['model'], len(q))
    p = res['pars']
    # the steps of the finite differences vanish with the parameter: the covariance is noise there
    if abs(p[:4]).min() < 1e-3 or p[4] < 0.1 or (c['model'] == 'coellip' and c['ngauss'] > 1 and abs(p[4] - p[5]) < 0.3 * abs(p[5])):
        ctx.label('degenerate')
        return
    ctx.nontrivial()
    ctx.label(c['model'])
    J = jac_of(c['model'], mb, p)
    f = residuals(c['model'], mb, p)
    data = (f**2).sum()
    ndata = len(f)
    if terms is not None:
        h = 1e-5 * units(p)
        I = np.diag(h)
        J = np.concatenate([np.array([(terms(p + I[k]) - terms(p - I[k])) / (2 * h[k]) for k in range(len(p))]).T, J])
        f = np.concatenate([terms(p), f])
        ctx.label(case['prior'])
    A = J.T.dot(J)
    inv = np.linalg.inv(A)
    # displacement to the minimum, in units of the statistical errors
    d = inv.dot(J.T.dot(f)) / np.sqrt(np.diag(inv))
    chi = math.sqrt((f**2).sum() / len(f))
    check(abs(d).max() < 0.05 * max(1, chi), 'the minimum is %s errors away', d)
    s2 = data / (ndata - len(p))
    s = np.sqrt(np.diag(inv))
    e = abs(res['pars_cov'] - inv * s2) / np.outer(s, s) / s2
    check(e.max() < 0.05, 'covariance differs from the inverse curvature by %g of the variances', e.max())
    # the truth is within the errors
    if terms is None:
        pull = abs(p - q) / (s * math.sqrt(s2))
        check(pull.max() < 8, 'truth is %s errors away', pull)
    npix = sum(int(((o.weight > 0) | (not o.ignore_zero_weight)).sum()) for ol in mb for o in ol)
    check(res['npix'] == npix and res['dof'] == npix - len(p), 'dof')
    close(res['chi2per'], (f**2).sum() / res['dof'], 1e-3, 0, 'chi2per')
    num = sum(((m.make_image(o.image.shape, jacobian=o.jacobian)) * o.image * o.weight).sum() for m, o in gms(res, mb))
    den = sum(((m.make_image(o.image.shape, jacobian=o.jacobian))**2 * o.weight).sum() for m, o in gms(res, mb))
    close(res['s2n'], num / math.sqrt(den), 1e-3, 0, 's2n')


def gms(res, mb):
    for b, ol in enumerate(mb):
        for i, o in enumerate(ol):
            yield res.get_convolved_gmix(band=b, obsnum=i), o


# ------------------------------------------------------------------ relations

RELATIONS = ['again', 'reused', 'bands', 'scale', 'container', 'split', 'recenter']


@R.law(st.fixed_dictionaries(dict(c=true_s(gmax=0.4), noise=logfl(1e-4, 0.01), rel=st.sampled_from(RELATIONS), f=logfl(0.2, 5.0), d=st.tuples(fl(-1, 1), fl(-1, 1)))), quick=600, rule='two fits compared')
def relations(case, ctx):
    """the fit does not depend on what was fit before, on the container, on the order of bands or epochs, or on units"""
    c = case['c']
    mb, q = sky(c, noise=case['noise'])
    nb, m = len(mb), c['model']
    g = near(q, c['seed'], 0.05)
    tight = dict(ftol=1e-10, xtol=1e-10, maxfev=4000)
    ftr = fitter(c, **tight)
    r0 = ftr.go(obs=mb, guess=g)
    if r0['flags'] != 0:
        return
    if m == 'coellip' and c['ngauss'] > 1 and case['rel'] not in ('again', 'reused', 'container'):
        return
    rel = case['rel']
    ctx.nontrivial()
    ctx.label(rel)
    k = 5 + NEXTRA.get(m, 0)
    exact = False
    exp, expc = r0['pars'].copy(), r0['pars_cov'].copy()
    if rel == 'again':
        r1 = fitter(c, **tight).go(obs=mb, guess=g.copy())
        exact = True
    elif rel == 'reused':
        o2 = Observation(rng_of(c['seed']).normal(size=(9, 9)), jacobian=ngmix.DiagonalJacobian(row=4, col=4, scale=0.4))
        ftr.go(obs=o2, guess=np.array([0, 0, 0, 0, 1.0] + [0.5] * (k - 5) + [1.0]) if m != 'coellip' else np.array([0, 0, 0, 0.0] + [1.0] * 2 * c['ngauss']))
        r1 = ftr.go(obs=mb, guess=g)
        exact = True
    elif rel == 'container':
        if nb > 1:
            return
        r1 = ftr.go(obs=mb[0] if len(mb[0]) > 1 else mb[0][0], guess=g)
        exact = True
    elif rel == 'bands':
        if m == 'coellip':
            return
        mb2 = MultiBandObsList()
        for ol in list(mb)[::-1]:
            o2 = ObsList()
            for o in list(ol)[::-1]:
                o2.append(o)
            mb2.append(o2)
        p = list(range(k)) + list(range(k + nb - 1, k - 1, -1))
        r1 = ftr.go(obs=mb2, guess=g[p])
        exp, expc = exp[p], expc[np.ix_(p, p)]
    elif rel == 'scale':
        f = case['f']
        mb2 = MultiBandObsList()
        for ol in mb:
            o2 = ObsList()
            for o in ol:
                o2.append(Observation(o.image * f, weight=o.weight / f**2, jacobian=o.jacobian, psf=o.psf if o.has_psf() else None, ignore_zero_weight=o.ignore_zero_weight))
            mb2.append(o2)
        s = np.ones(len(g))
        s[4 + c['ngauss'] if m == 'coellip' else k:] = f
        r1 = ftr.go(obs=mb2, guess=g * s)
        exp, expc = exp * s, expc * np.outer(s, s)
    elif rel == 'split':
        # an epoch split in two by its weight map
        mb2 = MultiBandObsList()
        for ol in mb:
            o2 = ObsList()
            for o in ol:
                cut = rng_of(c['seed'] + 3).uniform(size=o.image.shape) < 0.5
                for keep in (cut, ~cut):
                    o2.append(Observation(o.image, weight=np.where(keep, o.weight, 0), jacobian=o.jacobian, psf=o.psf if o.has_psf() else None, ignore_zero_weight=True))
            mb2.append(o2)
        r1 = ftr.go(obs=mb2, guess=g)
        expc = None
    else:
        # the origin of all epochs moved by the same sky offset
        d = np.array(case['d']) * 0.3
        mb2 = MultiBandObsList()
        for ol in mb:
            o2 = ObsList()
            for o in ol:
                row, col = o.jacobian.get_rowcol(d[0], d[1])
                j2 = o.jacobian.copy()
                j2.set_cen(row=row, col=col)
                o2.append(Observation(o.image, weight=o.weight, jacobian=j2, psf=o.psf if o.has_psf() else None, ignore_zero_weight=o.ignore_zero_weight))
            mb2.append(o2)
        g2 = g.copy()
        g2[:2] -= d
        r1 = ftr.go(obs=mb2, guess=g2)
        exp[:2] -= d
    if exact:
        same(r1['pars'], r0['pars'], rel)
        same(r1['pars_cov'], r0['pars_cov'], rel)
        check(r1['nfev'] == r0['nfev'] and r1['flags'] == r0['flags'], rel)
        return
    check(r1['flags'] == 0, '%s: flags', rel)
    # (m may be degenerate: compare in units of the errors)
    e = abs(r1['pars'] - exp) / r1['pars_err']
    check(e.max() < 0.05, '%s: differs by %s errors', rel, e)
    # (the steps of the finite differences vanish with the parameter: the covariance is noise there)
    if expc is not None and min(abs(r0['pars'][:4]).min(), abs(r1['pars'][:4]).min()) > 1e-3:
        s = np.sqrt(np.diag(expc))
        dc = abs(r1['pars_cov'] - expc) / np.outer(s, s)
        check(dc.max() < 0.05, '%s: covariance differs by %g', rel, dc.max())


# ------------------------------------------------------------------ anything

@R.law(st.fixed_dictionaries(dict(
    model=st.sampled_from(MODELS + ['bd']), ngauss=ints(1, 3), nb=ints(1, 3), dims=pick((1, st.tuples(ints(1, 4), ints(1, 4))), (4, st.tuples(ints(4, 11), ints(4, 11)))), seed=seeds, kind=st.sampled_from(['noise', 'zero', 'flat', 'blob', 'blob', 'blob', 'blob', 'huge', 'tiny', 'negative']), few=pick((5, st.none()), (1, ints(-1, 2))), j=jac(0.2, 1.0, 0.2),
    w=wspec(), izw=st.booleans(), psf=st.one_of(st.none(), full_pars(1, 2, cen=0.2, Tlo=0.1, Thi=0.6, emax=0.3)), g=disk(0.95), T=logfl(1e-3, 20), F=logfl(1e-3, 1e3), x=st.tuples(fl(-1, 1), fl(0, 1)),
    prior=st.sampled_from([None, None, 'loose', 'flat', 'lognormal']), maxfev=st.sampled_from([0, 1, 20, 300, 1000]), cen=st.tuples(fl(-2, 2), fl(-2, 2)))), quick=2000, rule='more pixels than parameters')
def honest(case, ctx):
    """any image and guess: a set flag, or finite values that agree with each other and fit no worse than the guess"""
    m, nb = case['model'], case['nb']
    if m == 'coellip':
        nb = 1
    r = rng_of(case['seed'])
    mb = MultiBandObsList()
    for b in range(nb):
        dims = tuple(case['dims'])
        w = weights(dims, dict(case['w'], seed=case['seed'] + b))
        if not np.any(w > 0):
            w[r.randint(dims[0]), r.randint(dims[1])] = 1.0
        if case['few'] is not None and nb == 1:
            # as many pixels with weight as parameters, or close to it; the others may be kept in the lists
            k = (4 + 2 * case['ngauss'] if m == 'coellip' else 6 + NEXTRA.get(m, 0)) + case['few']
            keep = r.permutation(w.size)[:k]
            w = np.zeros(dims)
            w.flat[keep] = 1.0
        im = {'noise': r.normal(size=dims), 'zero': np.zeros(dims), 'flat': np.ones(dims), 'huge': 1e12 * r.normal(size=dims), 'tiny': 1e-14 * r.normal(size=dims), 'negative': -1 - r.uniform(size=dims),
              'blob': np.exp(-0.5 * ((np.arange(dims[0])[:, None] - dims[0] / 2)**2 + (np.arange(dims[1])[None] - dims[1] / 2)**2)) + 0.05 * r.normal(size=dims)}[case['kind']]
        jj = make_jac(case['j'], (dims[0] - 1) / 2, (dims[1] - 1) / 2)
        psf = None if case['psf'] is None else Observation(np.ones((3, 3)), gmix=GMix(pars=case['psf']))
        ol = ObsList()
        ol.append(Observation(im, weight=w, jacobian=jj, psf=psf, ignore_zero_weight=case['izw']))
        mb.append(ol)
    head = [case['cen'][0], case['cen'][1], case['g'][0], case['g'][1]]
    if m == 'coellip':
        guess = np.array(head + [case['T'] * (i + 1) for i in range(case['ngauss'])] + [case['F']] * case['ngauss'])
    else:
        guess = np.array(head + [case['T']] + {'bd': [case['x'][0], case['x'][1]], 'bdf': [case['x'][1]]}.get(m, []) + [case['F']] * nb)
    prior = None
    if case['prior'] is not None:
        rr = np.random.RandomState(3)
        cen, g = priors.CenPrior(0, 0, 1, 1, rng=rr), priors.GPriorBA(0.3, rng=rr)
        if case['prior'] == 'loose':
            T, F = priors.Normal(1, 10, rng=rr, bounds=(1e-3, 1e3)), priors.Normal(0, 1000.0, rng=rr)
        elif case['prior'] == 'flat':
            T, F = priors.FlatPrior(-1, 100, rng=rr), priors.FlatPrior(-1e4, 1e4, rng=rr)
        else:
            T, F = priors.LogNormal(2.0, 3.0, rng=rr), priors.LogNormal(20.0, 30.0, rng=rr)
        fd, lr = priors.Normal(0.5, 0.3, rng=rr, bounds=(-1.0, 2.0)), priors.Normal(0, 0.5, rng=rr)
        FF = [F] * nb if nb > 1 else F
        prior = {'coellip': lambda: joint_prior.PriorCoellipSame(case['ngauss'], cen, g, T, F), 'bd': lambda: joint_prior.PriorBDSep(cen, g, T, lr, fd, FF),
                 'bdf': lambda: joint_prior.PriorBDFSep(cen, g, T, fd, FF)}.get(m, lambda: joint_prior.PriorSimpleSep(cen, g, T, FF))()
    c = dict(model=m, ngauss=case['ngauss'])
    fpars = dict(maxfev=case['maxfev'], ftol=1e-5, xtol=1e-5)
    before = fp(mb)
    g0 = guess.copy()
    nterm = 0 if prior is None else (3 + 2 * case['ngauss'] if m == 'coellip' else 4 + NEXTRA.get(m, 0) + nb)
    npix = sum(o.pixels.size for ol in mb for o in ol)
    ftr = fitter(c, prior, **fpars)
    if npix + nterm < len(guess):
        # fewer residuals than parameters: least squares has no meaning
        raises(TypeError, ftr.go, obs=mb, guess=guess, _msg='fewer residuals than parameters')
        check(fp(mb) == before, 'observations changed')
        return
    ctx.nontrivial(npix > len(guess))
    res = ftr.go(obs=mb, guess=guess)
    same(guess, g0, 'guess changed')
    check(fp(mb) == before, 'observations changed')
    check(res['model'] == m, 'model')
    if res['flags'] != 0:
        ctx.label('flag %d' % res['flags'])
        failed(res)
    else:
        ctx.label('ok')
        consistent(res, nb, m, len(guess))
        start = ftr._make_fit_model(obs=mb, guess=guess).calc_fdiff(guess)
        end = res.calc_fdiff(res['pars'])
        a, b = (start**2).sum(), (end**2).sum()
        check(b <= a * (1 + 1e-9) + 1e-12, 'worse than the guess: %g > %g', b, a)
        for i in range(nb):
            gm = res.get_convolved_gmix(band=i)
            check(np.all(np.isfinite(gm.get_full_pars())), 'mixture')
            im = res.make_image(band=i)
            check(im.shape == tuple(case['dims']) and np.all(np.isfinite(im)), 'image')
    r2 = fitter(c, prior, **fpars).go(obs=mb, guess=guess)
    check(repr(sorted(r2.items())) == repr(sorted(res.items())), 'not reproducible: %s %s', r2, res)
