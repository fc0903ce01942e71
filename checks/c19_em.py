"""C19: expectation maximisation"""
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jmat, jdet, pick, vu, ref_eval, ref_convolve, full_pars)
import ngmix
from ngmix import Observation, GMix
from ngmix.em import run_em, prep_obs, prep_image, EMFitter, EMFitterFixCen, EMFitterFluxOnly, EMResult
from ngmix.em.em import EMFitterFixCov

ORACLE = ('the moments of the image (one component, no sky, any image), the stationarity equations of the likelihood written in numpy, the truth as the fixed point, '
          'the flux balance of the last step, exact equality of everything a variant holds fixed, and relations under rescaling, reordering and axis swaps')
R = Registry()
VARIANTS = ['free', 'fixcen', 'fixcov', 'fluxonly']
CLS = {'free': EMFitter, 'fixcen': EMFitterFixCen, 'fixcov': EMFitterFixCov, 'fluxonly': EMFitterFluxOnly}


def warmup():
    o = Observation(np.ones((5, 5)), jacobian=ngmix.UnitJacobian(row=2, col=2))
    for v in VARIANTS:
        fit(v, o, GMix(pars=[1, 0, 0, 4, 0, 4.0]), 0.0, miniter=1, maxiter=2)
    g = GMix(pars=[1, 0, 0, 4, 0, 4.0])
    g.convolve(g).make_image((5, 5))


def fit(variant, obs, guess, sky, **kw):
    if variant == 'free':
        return run_em(obs, guess, sky=sky, **kw)
    return run_em(obs, guess, sky=sky, **dict(kw, **{variant: True}))


def fp(o):
    j = o.jacobian
    out = [o.image.tobytes(), o.weight.tobytes(), o.pixels.tobytes(), repr(o.meta), (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol), sorted(vars(o))]
    out.append(o.gmix.get_full_pars().tobytes() if o.has_gmix() else None)
    out.append(fp(o.psf) if o.has_psf() else None)
    return out


def psf_pars(c):
    """cocentric psf mixture; its flux is arbitrary"""
    out = []
    for p, T, (e1, e2) in c['comps']:
        out += [p * c['flux'], c['cen'][0], c['cen'][1], T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
    return np.array(out)


psf_s = st.fixed_dictionaries(dict(comps=st.lists(st.tuples(fl(0.2, 1.0), logfl(0.5, 3.0), disk(0.3)), min_size=1, max_size=2), flux=logfl(0.1, 10.0), cen=pick((3, st.just([0.0, 0.0])), (1, st.tuples(fl(-1, 1), fl(-1, 1)).map(list)))))
maybe_psf = pick((1, st.none()), (1, psf_s))


def scaled(pars, s):
    """positions and covariances in units of a length s"""
    p = np.array(pars, dtype='f8').reshape(-1, 6).copy()
    p[:, 1:3] *= s
    p[:, 3:] *= s * s
    return p.ravel()


def observe(im, c, psf, w=None, izw=True):
    s = np.sqrt(abs(jdet(c['j'])))
    jj = make_jac(c['j'], (im.shape[0] - 1) / 2 + c['off'][0], (im.shape[1] - 1) / 2 + c['off'][1])
    p = None
    if psf is not None:
        p = Observation(np.ones((3, 3)), jacobian=jj, gmix=GMix(pars=scaled(psf_pars(psf), s)))
    kw = {} if w is None else dict(weight=w)
    return Observation(im, jacobian=jj, psf=p, ignore_zero_weight=izw, **kw)


def sky_grid(shape, c):
    j = make_jac(c['j'], (shape[0] - 1) / 2 + c['off'][0], (shape[1] - 1) / 2 + c['off'][1])
    return vu(shape, c['j'], j.row0, j.col0)


def psf_cov(psf, s):
    if psf is None:
        return np.zeros((2, 2))
    p = scaled(psf_pars(psf), s).reshape(-1, 6)
    t = (p[:, 0][:, None] * p[:, 3:]).sum(axis=0) / p[:, 0].sum()
    return np.array([[t[0], t[1]], [t[1], t[2]]])


def image_of(c):
    r = rng_of(c['seed'])
    sh = (c['nr'], c['nc'])
    if c['im'] == 'noise':
        return r.uniform(0.0, 1.0, size=sh)
    if c['im'] == 'spiky':
        return r.uniform(0.0, 1.0, size=sh)**8 * 100
    if c['im'] == 'gradient':
        return 0.1 + np.arange(sh[0])[:, None] * 0.3 + np.arange(sh[1])[None, :]**1.5 * 0.1
    a, b = np.mgrid[0:sh[0], 0:sh[1]]
    x = np.exp(-0.5 * ((a - sh[0] * 0.4)**2 / 4 + (b - sh[1] * 0.6)**2 / 6))
    return x + 0.02 * r.uniform(size=sh)


_img = dict(seed=seeds, nr=ints(5, 18), nc=ints(5, 18), im=st.sampled_from(['blob', 'noise', 'spiky', 'gradient']), j=jac(0.1, 1.5, 0.25), off=st.tuples(fl(-1, 1), fl(-1, 1)), amp=logfl(0.01, 1000.0))


@R.law(st.fixed_dictionaries(dict(_img, psf=maybe_psf, mask=pick((1, st.just(0.0)), (1, fl(0.0, 0.4))), gF=logfl(0.1, 1000.0), ge=disk(0.3), gcen=st.tuples(fl(-0.8, 0.8), fl(-0.8, 0.8)), gT=fl(0.9, 2.0), variant=st.sampled_from(VARIANTS), iters=ints(3, 60))),
       quick=1200, rule='a psf, a mask or a generic transform')
def moments(case, ctx):
    """one component without sky: after a few steps the flux, mean and covariance are those of the image, whatever the guess"""
    im = image_of(case) * case['amp']
    sh = im.shape
    s = np.sqrt(abs(jdet(case['j'])))
    M = jmat(case['j'])
    w = np.ones(sh)
    r = rng_of(case['seed'] + 1)
    w[r.uniform(size=sh) < case['mask']] = 0
    if not (w * im).sum() > 0:
        return
    # the guess reaches every pixel to within a few sigma, before and after the first step
    size = max(sh)
    T = case['gT'] * (0.4 * size)**2 * 2 * s * s * np.linalg.norm(M / s, 2)**2
    e1, e2 = case['ge']
    g0 = [case['gF'], case['gcen'][0] * s, case['gcen'][1] * s, T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
    obs = observe(im, case, case['psf'], w)
    v, u = sky_grid(sh, case)
    p = im * (w > 0)
    F = p.sum()
    mean = np.array([(p * v).sum(), (p * u).sum()]) / F
    about = np.array(g0[1:3]) if case['variant'] == 'fixcen' else mean
    dv, du = v - about[0], u - about[1]
    C = np.array([[(p * dv * dv).sum(), (p * dv * du).sum()], [(p * dv * du).sum(), (p * du * du).sum()]]) / F
    P = psf_cov(case['psf'], s)
    if case['variant'] in ('fixcov', 'fluxonly'):
        cov = np.array([[g0[3], g0[4]], [g0[4], g0[5]]])
    else:
        cov = C - P
        # every gaussian of the model reaches all pixels that count
        tot = [cov] if case['psf'] is None else []
        if case['psf'] is not None:
            pp = scaled(psf_pars(case['psf']), s).reshape(-1, 6)
            tot = [cov + np.array([[q[3], q[4]], [q[4], q[5]]]) for q in pp]
        ev = np.linalg.eigvalsh(cov)
        if ev[0] < 1e-3 * max(ev[1], 0) or ev[0] < 0.01 * s * s or np.linalg.det(cov) < 1e-6:
            ctx.label('smaller than the psf')
            return
        use = p > 0
        chi = max((((x := np.array([dv[use], du[use]])) * np.linalg.inv(t).dot(x)).sum(axis=0)).max() for t in tot)
        if chi > 24:
            ctx.label('compact')
            return
    ctx.nontrivial(case['psf'] is not None or case['mask'] > 0)
    ctx.label(case['variant'])
    before = fp(obs)
    guess = GMix(pars=g0)
    n = case['iters']
    res = fit(case['variant'], obs, guess, 0.0, miniter=n, maxiter=n + 20)
    check(fp(obs) == before and guess.get_full_pars().tolist() == GMix(pars=g0).get_full_pars().tolist(), 'input changed')
    check(res['flags'] == 0, 'flags %s for a stationary fit', res['flags'])
    gp = res.get_gmix().get_full_pars()
    sz = np.sqrt(np.trace(C))
    close(gp[0], F, 1e-9, 0, 'flux')
    if case['variant'] in ('free', 'fixcov'):
        close(gp[1:3], mean, 1e-9, 1e-9 * (sz + abs(mean).max()), 'mean')
    else:
        close(gp[1:3], g0[1:3], 0, 0, 'fixed center')
    close([gp[3], gp[4], gp[5]], [cov[0, 0], cov[0, 1], cov[1, 1]], 1e-8, 1e-8 * (np.trace(C) + np.abs(mean).max()**2), 'covariance')
    gc = res.get_convolved_gmix()
    close(gc.get_flux(), F, 1e-9, 0, 'flux of the convolved mixture')
    q = gc.get_full_pars().reshape(-1, 6)
    t = (q[:, 0][:, None] * q[:, 3:]).sum(axis=0) / q[:, 0].sum()
    close(t, [cov[0, 0] + P[0, 0], cov[0, 1] + P[0, 1], cov[1, 1] + P[1, 1]], 1e-8, 1e-8 * np.trace(C), 'convolved covariance')
    close(res['sky'], 0.0, 0, 0, 'sky')


# ------------------------------------------------------------------ any image, any limits

def guesses(nmax=3):
    # sizes in units of the stamp, positions in pixels
    one = st.tuples(logfl(0.2, 5.0), fl(-1, 1), fl(-1, 1), logfl(0.05, 0.6), disk(0.4))
    return st.lists(one, min_size=1, max_size=nmax)


def guess_pars(case):
    s = np.sqrt(abs(jdet(case['j'])))
    L = min(case['nr'], case['nc'])
    out = []
    for p, a, b, t, (e1, e2) in case['guess']:
        T = 2 * (t * L)**2 * s * s
        out += [p * case['amp'], a * 0.3 * L * s, b * 0.3 * L * s, T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
    return np.array(out)


@R.law(st.fixed_dictionaries(dict(_img, psf=maybe_psf, guess=guesses(4), variant=st.sampled_from(VARIANTS), sky=pick((2, st.none()), (1, st.just(0.0)), (2, logfl(1e-4, 10.0))), mini=ints(1, 30), extra=ints(0, 40), tol=logfl(1e-9, 0.1), vary=st.booleans(),
                                  mask=pick((2, st.just(0.0)), (1, fl(0.0, 0.5))), izw=pick((2, st.just(True)), (1, st.just(False))))), quick=1500, rule='several components or a psf')
def valid(case, ctx):
    """any image and any limits: a flag, or a finite mixture with what the variant holds fixed; flux balance; nothing handed in changes"""
    im = image_of(case) * case['amp']
    if case['sky'] is None:
        # a run without sky takes the true sky to be zero: the image has an empty pixel
        im -= im.min() * (1 + case['tol'])
    w = np.ones(im.shape)
    w[rng_of(case['seed'] + 1).uniform(size=im.shape) < case['mask']] = 0
    w[0, 0] = 1
    s = np.sqrt(abs(jdet(case['j'])))
    g0 = guess_pars(case)
    obs = observe(im, case, case['psf'], w, izw=case['izw'])
    guess = GMix(pars=g0)
    before = fp(obs), guess.get_full_pars().tolist()
    maxi = case['mini'] + case['extra']
    sky = case['sky'] if not case['sky'] else case['sky'] * case['amp']
    kw = dict(miniter=case['mini'], maxiter=maxi, tol=case['tol'], vary_sky=case['vary'])
    v = case['variant']
    ctx.nontrivial(len(case['guess']) > 1 or case['psf'] is not None)
    res = fit(v, obs, guess, sky, **kw)
    check((fp(obs), guess.get_full_pars().tolist()) == before, 'input changed')
    check(isinstance(res, EMResult), 'type of the result')
    # the same from the fitter objects, from the alias, from a fitter used before
    ftr = CLS[v](**kw)
    ftr.go(obs=obs, guess=GMix(pars=g0 * 1.1), sky=sky)
    res2 = ftr.go(obs=obs, guess=guess, sky=sky)
    check(repr(dict(res2)) == repr(dict(res)), 'run_em and the fitter disagree: %r %r', dict(res), dict(res2))
    if 'sky' not in res:
        ctx.label('failed')
        check(res['flags'] != 0 and len(res['message']) > 0, 'failure without a flag')
        check(not res.has_gmix(), 'failure with a mixture')
        for f in (res.get_gmix, res.get_convolved_gmix, res.make_image):
            raises(RuntimeError, f, _msg='mixture of a failed run')
        return
    check(res.has_gmix(), 'no mixture')
    check(case['mini'] <= res['numiter'] <= maxi, 'iterations %d with limits %d %d', res['numiter'], case['mini'], maxi)
    check((res['flags'] != 0) == (res['numiter'] >= maxi), 'flags %d after %d of %d', res['flags'], res['numiter'], maxi)
    if res['flags'] == 0:
        check(res['fdiff'] < case['tol'], 'converged with a change of %g', res['fdiff'])
    gm, gc = res.get_gmix(), res.get_convolved_gmix()
    gp = gm.get_full_pars().reshape(-1, 6)
    gi = g0.reshape(-1, 6)
    same(gp, res2.get_gmix().get_full_pars().reshape(-1, 6), 'mixture of the fitter')
    check(gp.shape == gi.shape and np.all(np.isfinite(gp)), 'mixture')
    check(np.all(gp[:, 0] >= 0) and gp[:, 0].sum() > 0, 'negative flux')
    if v in ('fixcen', 'fluxonly'):
        close(gp[:, 1:3], gi[:, 1:3], 0, 0, 'fixed centers')
    if v in ('fixcov', 'fluxonly'):
        close(gp[:, 3:], gi[:, 3:], 0, 0, 'fixed covariances')
    check(np.all(gp[:, 3] >= 0) and np.all(gp[:, 5] >= 0), 'negative size')
    check(np.all(gp[:, 3] * gp[:, 5] - gp[:, 4]**2 > 0), 'covariance that is not positive definite')
    # the convolved mixture is the mixture convolved
    if case['psf'] is None:
        same(gc.get_full_pars(), gp.ravel(), 'convolved mixture without a psf')
    else:
        ref = np.array(ref_convolve(gp, scaled(psf_pars(case['psf']), s)))
        close(gc.get_full_pars(), ref, 1e-9, 1e-9 * s * max(im.shape), 'convolved mixture')
    check(type(gm) is GMix and gm is not res.get_gmix(), 'get_gmix does not copy')
    gm.set_flux(-1.0)
    same(res.get_gmix().get_full_pars().reshape(-1, 6), gp, 'editing the returned mixture')
    same(res.make_image(), gc.make_image(im.shape, jacobian=obs.jacobian), 'image of the result')
    # flux balance
    applied = sky
    if sky is None:
        pim, applied = prep_image(im)
        tot, npix = pim.sum(), im.size
    else:
        use = (w > 0) | (not case['izw'])
        tot, npix = (im * use).sum(), use.sum()
        if not case['izw'] and (w == 0).any():
            tot = None
    if not case['vary']:
        close(res['sky'], applied, 0, 0, 'sky')
    if tot is not None:
        if case['vary']:
            close(gp[:, 0].sum() + res['sky'] * npix, tot, 1e-9, 0, 'flux and sky do not add up to the image')
            check(res['sky'] >= 0, 'negative sky')
        else:
            check(gp[:, 0].sum() <= tot * (1 + 1e-9), 'more flux than the image holds')
            if applied == 0:
                close(gp[:, 0].sum(), tot, 1e-9, 0, 'flux is not the image sum')


@R.law(st.fixed_dictionaries(_img), quick=400, rule='a negative pixel')
def prep(case, ctx):
    """prepping adds a constant that makes every pixel positive, and is what a run without sky uses"""
    im = (image_of(case) - 0.4) * case['amp']
    if case['seed'] % 3 == 0:
        im -= im.mean()
    ctx.nontrivial((im < 0).any())
    keep = im.copy()
    new, sky = prep_image(im)
    same(im, keep, 'input')
    close(new, im + sky, 1e-12, 1e-12 * np.abs(im).max(), 'not a constant')
    rng_ = im.max() - im.min()
    close(new.min(), 0.001 * rng_, 1e-6, 0, 'smallest pixel')
    check(np.all(new > 0), 'pixel that is not positive')
    obs = observe(im, case, None)
    before = fp(obs)
    po, psky = prep_obs(obs)
    check(fp(obs) == before, 'prep_obs changed its input')
    same(po.image, new, 'image')
    close(psky, sky, 0, 0, 'sky')
    check(po.jacobian == obs.jacobian, 'transform')
    L = min(im.shape) * np.sqrt(abs(jdet(case['j']))) / 3
    g = GMix(pars=[im.max() + abs(im.min()), 0.1 * L, 0, L * L, 0, L * L])
    for v in VARIANTS:
        a, b = fit(v, obs, g, None, miniter=3, maxiter=6), fit(v, po, g, psky, miniter=3, maxiter=6)
        check(repr(dict(a)) == repr(dict(b)), 'a run without sky is a run on the prepped image: %r %r', dict(a), dict(b))
        if a.has_gmix():
            same(a.get_gmix().get_full_pars(), b.get_gmix().get_full_pars(), 'mixture')
    for bad in (im, None, [obs]):
        raises(ValueError, EMFitter().go, obs=bad, guess=g, _msg='not an observation')


# ------------------------------------------------------------------ stationary points and truth

def stationary_residual(gp, psf, s, im, v, u, area, sky, variant):
    """relative distance of the parameters from what one exact step makes of them"""
    q = np.asarray(gp).reshape(-1, 6)
    comp, second = [], []
    for row in q:
        full = row if psf is None else np.array(ref_convolve(row, scaled(psf_pars(psf), s)))
        comp.append(ref_eval(full, v, u) * area)
    comp = np.array(comp)
    tot = comp.sum(axis=0) + sky
    tau = comp / tot * im
    P = psf_cov(psf, s)
    worst = 0
    for k, row in enumerate(q):
        F = tau[k].sum()
        # in units of the flux in the image: what is measured by a negligible part of it moves slowly
        worst = max(worst, abs(F - row[0]) / im.sum())
        sz2 = row[3] + row[5] + np.trace(P)
        wt = row[0] / im.sum()
        if variant in ('free', 'fixcov'):
            worst = max(worst, wt * abs((tau[k] * v).sum() / F - row[1]) / np.sqrt(sz2), wt * abs((tau[k] * u).sum() / F - row[2]) / np.sqrt(sz2))
        if variant in ('free', 'fixcen'):
            dv, du = v - row[1], u - row[2]
            x = (tau[k] * dv * du).sum() / F
            # one or two bright pixels hold the component: the code rounds such covariances
            if np.linalg.eigvalsh([[(tau[k] * dv * dv).sum() / F, x], [x, (tau[k] * du * du).sum() / F]])[0] < 0.25 * s * s:
                return None
            for a, b, c, d in ((dv, dv, row[3], P[0, 0]), (dv, du, row[4], P[0, 1]), (du, du, row[5], P[1, 1])):
                worst = max(worst, wt * abs((tau[k] * a * b).sum() / F - c - d) / sz2)
    return worst


@R.law(st.fixed_dictionaries(dict(_img, nr=ints(9, 18), nc=ints(9, 18), guess=guesses(3), variant=st.sampled_from(VARIANTS), sky=logfl(0.01, 1.0))), quick=500, rule='a converged run of two or more components')
def stationary(case, ctx):
    """converged runs sit at a stationary point of the likelihood, for any image (without a psf)"""
    im = image_of(case) * case['amp']
    s = np.sqrt(abs(jdet(case['j'])))
    sky = case['sky'] * im.mean()
    obs = observe(im, case, None)
    res = fit(case['variant'], obs, GMix(pars=guess_pars(case)), sky, miniter=50, maxiter=3000, tol=1e-12)
    if res['flags'] != 0:
        ctx.label('not converged')
        return
    gp = res.get_gmix().get_full_pars()
    q = gp.reshape(-1, 6)
    # (a component that collapses onto a pixel is made round again by the code, and the cycle starts over)
    if case['variant'] in ('free', 'fixcen') and (any(r_[4] == 0 and r_[3] == r_[5] for r_ in q) or min(np.linalg.eigvalsh([[r_[3], r_[4]], [r_[4], r_[5]]])[0] for r_ in q) < 0.25 * s * s):
        ctx.label('collapsed onto a pixel')
        return
    ctx.nontrivial(len(q) > 1)
    v, u = sky_grid(im.shape, case)
    e = stationary_residual(gp, None, s, im, v, u, s * s, sky, case['variant'])
    if e is None:
        ctx.label('collapsed onto a pixel')
        return
    ctx.label('%s %d' % (case['variant'], np.log10(e + 1e-12)))
    check(e < 1e-2, 'one more exact step moves the parameters by %g', e)


_true = dict(seed=seeds, n=ints(25, 31), dn=ints(-3, 3), j=jac(0.15, 1.2, 0.2), off=st.tuples(fl(-1, 1), fl(-1, 1)), psf=maybe_psf, variant=st.sampled_from(VARIANTS), amp=logfl(0.01, 1000.0),
             comps=st.lists(st.tuples(fl(0.3, 1.0), fl(-1, 1), fl(-1, 1), fl(1.3, 2.0), disk(0.35)), min_size=1, max_size=4))


def truth(case, apart):
    """pre-psf mixture in sky units: well inside the stamp; components apart or anywhere"""
    s = np.sqrt(abs(jdet(case['j'])))
    n = len(case['comps'])
    out = []
    corners = [(-1, -1), (1, 1), (-1, 1), (1, -1)]
    for k, (p, a, b, sg, (e1, e2)) in enumerate(case['comps']):
        if apart and n > 1:
            r, c = 5.5 * corners[k][0] + a, 5.5 * corners[k][1] + b
        else:
            r, c = 2.5 * a, 2.5 * b
        pos = jmat(case['j']).dot(np.array([r, c]) + 0)
        T = 2 * (sg * s)**2
        out += [p * case['amp'], pos[0], pos[1], T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
    return np.array(out), s


def draw(full, case, psf, s):
    sh = (case['n'], case['n'] + case['dn'])
    # the center of the scene is the center of the stamp
    j = make_jac(case['j'], (sh[0] - 1) / 2 + case['off'][0], (sh[1] - 1) / 2 + case['off'][1])
    d = jmat(case['j']).dot(case['off'])
    full = full.reshape(-1, 6).copy()
    full[:, 1:3] -= d
    v, u = sky_grid(sh, case)
    conv = full.ravel() if psf is None else np.array(ref_convolve(full, scaled(psf_pars(psf), s)))
    return ref_eval(conv, v, u) * s * s, full


def distance(gp, full, P):
    """largest deviation from the truth, in units of the flux and of the observed size"""
    a, b = np.asarray(gp).reshape(-1, 6), full
    sz2 = b[:, 3] + b[:, 5] + np.trace(P)
    return max(np.abs(a[:, 0] - b[:, 0]).max() / b[:, 0].max(), (np.abs(a[:, 1:3] - b[:, 1:3]).max(axis=1) / np.sqrt(sz2)).max(), (np.abs(a[:, 3:] - b[:, 3:]).max(axis=1) / sz2).max())


@R.law(st.fixed_dictionaries(dict(_true, pert=st.tuples(fl(0.7, 1.4), fl(-0.4, 0.4), fl(-0.4, 0.4), fl(0.8, 1.25)))), quick=160, thorough=3000, rule='several components or a psf')
def recover(case, ctx):
    """noiseless mixtures of separate components: recovered from nearby guesses, before the psf"""
    full, s = truth(case, True)
    im, full = draw(full, case, case['psf'], s)
    c = dict(case, nr=im.shape[0], nc=im.shape[1])
    obs = observe(im, c, case['psf'])
    g = full.copy()
    v = case['variant']
    f, a, b, t = case['pert']
    g[:, 0] *= f
    if v in ('free', 'fixcov'):
        g[:, 1] += a * s
        g[:, 2] += b * s
    if v in ('free', 'fixcen'):
        g[:, 3:] *= t
    ctx.nontrivial(len(g) > 1 or case['psf'] is not None)
    res = fit(v, obs, GMix(pars=g.ravel()), None, miniter=60, maxiter=2000, tol=1e-10)
    ctx.label('%s f%d' % (v, res['flags']))
    if res['flags'] != 0:
        return
    e = distance(res.get_gmix().get_full_pars(), full, psf_cov(case['psf'], s))
    ctx.label('%s %s' % (v, 'e%d' % np.log10(e + 1e-9)))
    check(e < 0.06, '%s misses the truth by %g', v, e)


@R.law(st.fixed_dictionaries(dict(_true, mask=pick((1, st.just(0.0)), (1, fl(0.02, 0.25))), steps=ints(2, 25), vary=st.booleans(), garbage=fl(-100, 100))), quick=350, thorough=6000, rule='several components, a psf or a mask')
def fixed_point(case, ctx):
    """started at the truth of any noiseless mixture, a run stays there; masked pixels play no part when they are filled in"""
    full, s = truth(case, False)
    im, full = draw(full, case, case['psf'], s)
    c = dict(case, nr=im.shape[0], nc=im.shape[1])
    w = np.ones(im.shape)
    w[rng_of(case['seed']).uniform(size=im.shape) < case['mask']] = 0
    sky = 0.02 * im.max()
    img = im + sky
    img[w == 0] = case['garbage'] * case['amp']
    obs = observe(img, c, case['psf'], w, izw=False)
    ctx.nontrivial(len(full) > 1 or case['psf'] is not None or case['mask'] > 0)
    n = case['steps']
    kw = dict(miniter=n, maxiter=n + 1, tol=1e-3, vary_sky=case['vary'])
    res = fit(case['variant'], obs, GMix(pars=full.ravel()), sky, **kw)
    check('sky' in res, 'failure at the truth: %s', dict(res))
    e = distance(res.get_gmix().get_full_pars(), full, psf_cov(case['psf'], s))
    ctx.label('%s e%d' % (case['variant'], 2 * np.log10(e + 1e-9)))
    check(e < 0.02, '%s leaves the truth by %g', case['variant'], e)
    close(res['sky'], sky, 0.01, 0, 'sky')
    # the drawn result is the noiseless image
    close(res.make_image()[w > 0], im[w > 0], 0.03, 0.03 * im.max(), 'image of the fit')
    if case['mask'] > 0:
        img2 = img.copy()
        img2[w == 0] = -7.0
        r2 = fit(case['variant'], observe(img2, c, case['psf'], w, izw=False), GMix(pars=full.ravel()), sky, **kw)
        same(r2.get_gmix().get_full_pars(), res.get_gmix().get_full_pars(), 'masked values play a part')


@R.law(st.fixed_dictionaries(dict(_img, nr=ints(8, 16), nc=ints(8, 16), guess=guesses(3), psf=maybe_psf, variant=st.sampled_from(VARIANTS), sky=logfl(0.01, 1.0), steps=ints(1, 6), more=ints(1, 6), vary=st.booleans(), mask=pick((1, st.just(0.0)), (2, fl(0.02, 0.4))))),
       quick=500, rule='a mask filled in with a sky that varies')
def resumed(case, ctx):
    """a run has no state but its mixture and its sky: stopping and going on from there is the same as not stopping"""
    im = image_of(case) * case['amp']
    w = np.ones(im.shape)
    w[rng_of(case['seed'] + 1).uniform(size=im.shape) < case['mask']] = 0
    if w.sum() < 20:
        return
    sky = case['sky'] * im.mean()
    obs = lambda: observe(im, case, case['psf'], w, izw=False)
    a, b = case['steps'], case['more']
    kw = dict(vary_sky=case['vary'])
    r1 = fit(case['variant'], obs(), GMix(pars=guess_pars(case)), sky, miniter=a, maxiter=a, **kw)
    whole = fit(case['variant'], obs(), GMix(pars=guess_pars(case)), sky, miniter=a + b, maxiter=a + b, **kw)
    if 'sky' not in r1 or 'sky' not in whole:
        return
    r2 = fit(case['variant'], obs(), r1.get_gmix(), r1['sky'], miniter=b, maxiter=b, **kw)
    check('sky' in r2, 'failure on going on')
    s = np.sqrt(abs(jdet(case['j'])))
    q = whole.get_gmix().get_full_pars().reshape(-1, 6)
    if min(np.linalg.eigvalsh([[k[3], k[4]], [k[4], k[5]]])[0] for k in np.concatenate([q, r1.get_gmix().get_full_pars().reshape(-1, 6)])) < 0.1 * s * s:
        ctx.label('collapsed')
        return
    ctx.nontrivial(case['mask'] > 0 and case['vary'])
    ctx.label('%s mask %d vary %d' % (case['variant'], case['mask'] > 0, case['vary']))
    close(r2['sky'], whole['sky'], 1e-6, 0, 'sky')
    e = distance(r2.get_gmix().get_full_pars(), q, psf_cov(case['psf'], s))
    check(e < 1e-5, 'going on differs by %g', e)


def expected_loglike(pars, vv, uu, area):
    """sum over the pixels of the mean, over the components that reach it, of the log of amplitude and density up to constants"""
    num = np.zeros(vv.shape)
    den = np.zeros(vv.shape)
    for p, v, u, irr, irc, icc in np.asarray(pars).reshape(-1, 6):
        det = irr * icc - irc**2
        chi2 = (icc * (vv - v)**2 + irr * (uu - u)**2 - 2 * irc * (vv - v) * (uu - u)) / det
        val = np.where((chi2 < 25) & (chi2 >= 0), p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2) * area, 0.0)
        num += val * (np.log(p) - 0.5 * np.log(det) - 0.5 * chi2)
        den += val
    return (num[den > 0] / den[den > 0]).sum(), np.abs(num[den > 0] / den[den > 0]).sum()


@R.law(st.fixed_dictionaries(dict(_img, nr=ints(8, 16), nc=ints(8, 16), guess=guesses(3), psf=maybe_psf, variant=st.sampled_from(VARIANTS), sky=logfl(0.01, 1.0), mini=ints(1, 6), more=ints(1, 12), tol=logfl(1e-5, 0.3), vary=st.booleans())),
       quick=400, rule='stopped because the change was small, after the second iteration or later')
def convergence(case, ctx):
    """a run stops at the first iteration, of those allowed, with a change below the tolerance; the change is that of the log likelihood"""
    im = image_of(case) * case['amp']
    sky = case['sky'] * im.mean()
    v = case['variant']
    g = guess_pars(case)
    obs = observe(im, case, case['psf'])
    mini, maxi = case['mini'], case['mini'] + case['more']
    res = fit(v, obs, GMix(pars=g), sky, miniter=mini, maxiter=maxi, tol=case['tol'], vary_sky=case['vary'])
    if 'sky' not in res:
        return
    n = res['numiter']
    ctx.nontrivial(res['flags'] == 0 and n > 2)
    ctx.label('%s %s' % (v, 'converged' if n < maxi else 'limit'))
    states = [GMix(pars=g).convolve(obs.psf.gmix) if obs.has_psf() else GMix(pars=g)]
    flux = [g.reshape(-1, 6)[:, 0].sum()]
    vv, uu = sky_grid(im.shape, case)
    area = abs(jdet(case['j']))
    for k in range(1, n + 1):
        one = fit(v, obs, GMix(pars=g), sky, miniter=k, maxiter=k, tol=case['tol'], vary_sky=case['vary'])
        check('sky' in one, 'failure at %d of %d', k, n)
        states.append(one.get_convolved_gmix())
        flux.append(one.get_gmix().get_flux())
        if k >= mini:
            check((one['fdiff'] < case['tol']) == (k == n and (n < maxi or one['fdiff'] < case['tol'])), 'iteration %d of %d has a change of %g', k, n, one['fdiff'])
        if k == n:
            check(repr(dict(one)['sky']) == repr(res['sky']) and one['fdiff'] == res['fdiff'], 'the same number of iterations: %s %s', dict(one), dict(res))
            same(one.get_gmix().get_full_pars(), res.get_gmix().get_full_pars(), 'the same number of iterations')
        if v == 'fluxonly' and k > 0:
            # (only the guess is known before the first)
            if k > 1:
                close(one['fdiff'], abs(flux[k] / flux[k - 1] - 1), 1e-6, 1e-10, 'change of the flux')
        elif k > 1:
            full = [x.get_full_pars() for x in states[k - 2:k]]
            if min(np.linalg.eigvalsh([[r_[3], r_[4]], [r_[4], r_[5]]])[0] for f in full for r_ in f.reshape(-1, 6)) < 1e-3 * area or min(f.reshape(-1, 6)[:, 0].min() for f in full) < 1e-10 * flux[0]:
                ctx.label('collapsed')
                return
            (l0, a0), (l1, a1) = [expected_loglike(f, vv, uu, area) for f in full]
            e = abs((l1 - l0) / l1)
            close(one['fdiff'], e, 1e-3, 1e-5 * (a0 + a1) / abs(l1), 'change of the log likelihood')


MOVES = ['perm', 'flux', 'scale', 'swap', 'grid', 'shift', 'turn']


@R.law(st.fixed_dictionaries(dict(_img, nr=ints(8, 16), nc=ints(8, 16), guess=guesses(3), psf=maybe_psf, variant=st.sampled_from(VARIANTS), sky=logfl(0.01, 1.0), steps=ints(1, 12), vary=st.booleans(), move=st.sampled_from(MOVES), f=logfl(0.3, 3.0), d=st.tuples(fl(-2, 2), fl(-2, 2)), t=fl(-3.1, 3.1))),
       quick=600, rule='several components or a psf')
def described_otherwise(case, ctx):
    """any image, any number of steps: the fit follows a change of units, origin, axes or component order"""
    im = image_of(case) * case['amp']
    s = np.sqrt(abs(jdet(case['j'])))
    sky = case['sky'] * im.mean()
    g = guess_pars(case)
    n = case['steps']
    kw = dict(miniter=n, maxiter=n + 1, vary_sky=case['vary'])
    r0 = fit(case['variant'], observe(im, case, case['psf']), GMix(pars=g), sky, **kw)
    if 'sky' not in r0:
        return
    q = r0.get_gmix().get_full_pars().reshape(-1, 6)
    # a component on a single pixel is made round again, to a size that rounding errors decide
    for k in range(1, n + 1):
        rk = r0 if k == n else fit(case['variant'], observe(im, case, case['psf']), GMix(pars=g), sky, **dict(kw, miniter=k, maxiter=k + 1))
        if 'sky' not in rk or min(np.linalg.eigvalsh([[r_[3], r_[4]], [r_[4], r_[5]]])[0] for r_ in rk.get_gmix().get_full_pars().reshape(-1, 6)) < 0.3 * s * s:
            ctx.label('collapsed')
            return
    mv = case['move']
    ctx.label(mv)
    if mv in ('turn', 'scale') and case['psf'] is not None and case['variant'] in ('free', 'fixcen'):
        # components that come out smaller than the psf are reset along the axes, to a fixed size
        return
    ctx.nontrivial(len(q) > 1 or case['psf'] is not None)
    c = dict(case)
    g2, exp, im2, sky2, psf = g.reshape(-1, 6).copy(), q.copy(), im, sky, case['psf']
    j, off = dict(case['j']), case['off']
    esky = r0['sky']
    pp = None if psf is None else scaled(psf_pars(psf), s).reshape(-1, 6)

    def linear(A, q):
        out = q.copy()
        out[:, 1:3] = q[:, 1:3].dot(A.T)
        for k in range(len(q)):
            C = A.dot(np.array([[q[k, 3], q[k, 4]], [q[k, 4], q[k, 5]]])).dot(A.T)
            out[k, 3:] = C[0, 0], C[0, 1], C[1, 1]
        return out
    if mv == 'perm':
        o = np.arange(len(q))[::-1]
        g2, exp = g2[o], exp[o]
    elif mv == 'flux':
        im2, sky2, esky = im * case['f'], sky * case['f'], esky * case['f']
        g2[:, 0] *= case['f']
        exp[:, 0] *= case['f']
    elif mv in ('scale', 'swap', 'turn'):
        t = case['t']
        A = {'scale': case['f'] * np.eye(2), 'swap': np.array([[0.0, 1.0], [1.0, 0.0]]), 'turn': np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])}[mv]
        M = A.dot(jmat(j))
        j = dict(dvdrow=M[0, 0], dvdcol=M[0, 1], dudrow=M[1, 0], dudcol=M[1, 1])
        g2, exp = linear(A, g2), linear(A, exp)
        pp = None if pp is None else linear(A, pp)
    elif mv == 'grid':
        im2 = im.T
        j = dict(dvdrow=j['dvdcol'], dvdcol=j['dvdrow'], dudrow=j['dudcol'], dudcol=j['dudrow'])
        off = off[::-1]
    else:
        d = np.array(case['d'])
        off = [off[0] + d[0], off[1] + d[1]]
        sh = jmat(j).dot(d)
        g2[:, 1:3] -= sh
        exp[:, 1:3] -= sh
    c['j'], c['off'] = j, off
    jj = make_jac(j, (im2.shape[0] - 1) / 2 + off[0], (im2.shape[1] - 1) / 2 + off[1])
    p2 = None if pp is None else Observation(np.ones((3, 3)), jacobian=jj, gmix=GMix(pars=pp.ravel()))
    r1 = fit(case['variant'], Observation(im2, jacobian=jj, psf=p2), GMix(pars=g2.ravel()), sky2, **kw)
    check('sky' in r1, '%s: failure', mv)
    e = distance(r1.get_gmix().get_full_pars(), exp, np.zeros((2, 2)))
    check(e < 1e-3, '%s: differs by %g', mv, e)
    close(r1['sky'], esky, 1e-3, 0, '%s: sky' % mv)
    check(r1['numiter'] == r0['numiter'] or e < 1e-3, 'number of steps')
