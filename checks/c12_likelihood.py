"""C12: log-likelihood, residuals, model S/N"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, model_case, build, ref_eval, full_pars, seeds, rng_of, jac, make_jac, jdet, vu,
                 weights, wspec)
import ngmix
from ngmix.gmix import GMix, GMixModel, GMixCM, GMixCoellip
from ngmix.gexceptions import GMixRangeError

ORACLE = ('weighted sums over the image and weight arrays in numpy, with the exactly rendered model (tolerance: the documented '
          'accuracy and cut-off of the fast exponential) and with the fast rendering (to rounding)')
R = Registry()


def warmup():
    o = ngmix.Observation(np.zeros((3, 3)), weight=np.ones((3, 3)), jacobian=ngmix.DiagonalJacobian(scale=0.3, row=1, col=1))
    gm = GMixModel([0, 0, 0.1, 0.1, 4, 1.0], 'exp')
    gm.get_loglike(o)
    gm.fill_fdiff(o, np.zeros(9))
    gm.get_model_s2n(o)
    gm.make_image((2, 3))
    gm.make_image((2, 3), fast_exp=True)
    for m in ('gauss', 'turb', 'dev'):
        GMixModel([0, 0, 0.1, 0.1, 4, 1.0], m)
    GMixModel([0, 0, 0.1, 0.1, 4, 0, 0.5, 1.0], 'bd')
    GMixModel([0, 0, 0.1, 0.1, 4, 0.5, 1.0], 'bdf')
    GMixCM(0.5, 1.0, [0, 0, 0.1, 0.1, 4, 1.0])
    GMixCoellip([0, 0, 0.1, 0.1, 4, 2, 1.0, 1])


_case = dict(mix=model_case(cen=1.5), dims=st.tuples(ints(1, 12), ints(1, 12)), j=jac(), off=st.tuples(fl(-2, 2), fl(-2, 2)),
             w=wspec(), izw=st.booleans(), seed=seeds, noise=st.sampled_from([0.0, 0.1, 1.0]))


def make(case):
    dims, j = case['dims'], case['j']
    cen = [(dims[0] - 1) / 2 + case['off'][0], (dims[1] - 1) / 2 + case['off'][1]]
    r = rng_of(case['seed'])
    gm = build(case['mix'])
    w = weights(tuple(dims), case['w'])
    if not np.any(w > 0):
        w[r.randint(dims[0]), r.randint(dims[1])] = case['w']['amp']
    jj = make_jac(j, *cen)
    exact = gm.make_image(dims, jacobian=jj)
    pk = np.abs(exact).max() + 1e-3
    im = exact * r.choice([1.0, 0.0, 0.5]) + case['noise'] * pk * r.normal(size=dims)
    obs = ngmix.Observation(im, weight=w, jacobian=jj, ignore_zero_weight=case['izw'])
    return gm, obs, exact, im, w, jj, cen


@R.law(st.fixed_dictionaries(dict(_case, start=ints(0, 7), extra=ints(0, 9), fill=fl(-5, 5))), quick=3500, rule='masked pixels, noise and an offset')
def definitions(case, ctx):
    """log-likelihood, residuals, S/N sums against their definitional sums; residuals written only from the requested offset"""
    gm, obs, exact, im, w, jj, cen = make(case)
    dims, j = case['dims'], case['j']
    full = gm.get_full_pars()
    use = (w > 0) if case['izw'] else np.ones(w.shape, dtype=bool)
    npix = int(use.sum())
    ctx.nontrivial(bool(np.any(w == 0)) and case['noise'] > 0 and npix > 1)
    fast = gm.make_image(dims, jacobian=jj, fast_exp=True)
    wu = np.where(w > 0, w, 0.0)
    # residuals
    n = im.size + case['start'] + case['extra']
    buf = np.full(n, case['fill'])
    r = gm.fill_fdiff(obs, buf, start=case['start']) if case['start'] else gm.fill_fdiff(obs, buf)
    check(r is None, 'nothing returned')
    s = case['start']
    got = buf[s:s + npix]
    ref = ((fast - im) * np.sqrt(wu))[use]
    scale = np.abs(im).max() * math.sqrt(wu.max())
    close(got, ref, 1e-9, 1e-12 * scale, 'residuals, fast model')
    check(np.all(buf[:s] == case['fill']) and np.all(buf[s + npix:] == case['fill']), 'wrote outside its range')
    # against the exact model
    v, u = vu(dims, j, *cen)
    area = abs(jdet(j))
    tol = np.zeros(im.shape)
    for p, rr, cc, irr, irc, icc in full.reshape(-1, 6):
        det = irr * icc - irc * irc
        dv, du = v - rr, u - cc
        chi2 = (icc * dv * dv - 2 * irc * dv * du + irr * du * du) / det
        val = np.abs(p) / (2 * np.pi * math.sqrt(det)) * np.exp(-0.5 * chi2) * area
        tol += val * np.where(chi2 < 24.999999, 4.2e-5, 1.000001)
    refx = ((exact - im) * np.sqrt(wu))[use]
    check(np.all(np.abs(got - refx) <= (tol * np.sqrt(wu))[use] + 1e-9 * scale), 'residuals, exact model')
    # log-likelihood
    ll = gm.get_loglike(obs)
    close(ll, -0.5 * (got**2).sum(), 1e-9, 0, 'loglike is -1/2 sum of squares')
    close(ll, -0.5 * (wu * (fast - im)**2).sum(), 1e-9, 1e-12 * scale**2, 'loglike definition')
    more = gm.get_loglike(obs, more=True)
    check(set(more) == {'loglike', 's2n_numer', 's2n_denom', 'npix'}, 'keys')
    check(more['loglike'] == ll and more['npix'] == npix, 'more: %s vs %d', more['npix'], npix)
    close(more['s2n_numer'], (wu * fast * im).sum(), 1e-9, 1e-10 * (wu * np.abs(fast * im)).sum(), 's2n numerator')
    close(more['s2n_denom'], (wu * fast**2).sum(), 1e-9, 0, 's2n denominator')
    s2 = gm.get_model_s2n_sum(obs)
    close(s2, (wu * fast**2).sum(), 1e-9, 0, 's2n sum')
    close(gm.get_model_s2n(obs), math.sqrt((wu * fast**2).sum()), 1e-9, 0, 'model s2n')
    # expansion of the square ties them together
    d2 = (wu * im**2).sum()
    close(-2 * ll, d2 - 2 * more['s2n_numer'] + more['s2n_denom'], 1e-8, 1e-8 * (d2 + more['s2n_denom']), 'chi square identity')
    # no side effects
    same(obs.image, im, 'image changed')
    same(obs.weight, w, 'weight changed')
    close(gm.get_full_pars(), full, 0, 0, 'mixture changed')
    check(gm.get_loglike(obs) == ll, 'repeat')


@R.law(st.fixed_dictionaries(dict(_case, val=fl(-1e3, 1e3))), quick=1500, rule='at least one masked pixel')
def masked(case, ctx):
    """values under zero weight have no effect; a weight of zero is the same as an absent pixel"""
    gm, obs, exact, im, w, jj, cen = make(case)
    bad = w <= 0
    ctx.nontrivial(bool(bad.any()))
    im2 = im.copy()
    im2[bad] = case['val']
    o2 = ngmix.Observation(im2, weight=w, jacobian=jj, ignore_zero_weight=case['izw'])
    o3 = ngmix.Observation(im, weight=w, jacobian=jj, ignore_zero_weight=not case['izw'])
    a = gm.get_loglike(obs, more=True)
    for o, same_n in ((o2, True), (o3, not bad.any())):
        b = gm.get_loglike(o, more=True)
        for k in ('loglike', 's2n_numer', 's2n_denom'):
            close(a[k], b[k], 1e-10, 0, k)
        check((a['npix'] == b['npix']) == same_n, 'npix')
        close(gm.get_model_s2n_sum(obs), gm.get_model_s2n_sum(o), 1e-10, 0, 's2n sum')
    x, y = np.zeros(im.size), np.zeros(im.size)
    gm.fill_fdiff(obs, x)
    gm.fill_fdiff(o2, y)
    close(x, y, 0, 0, 'residuals')
    x, y = np.zeros(im.size), np.zeros(im.size)
    gm.fill_fdiff(o3, y)
    gm.fill_fdiff(obs, x)
    close((x**2).sum(), (y**2).sum(), 1e-10, 0, 'sum of squares')
    close(x[x != 0], y[y != 0], 0, 0, 'order of the residuals')
    # scaling weights and image
    o4 = ngmix.Observation(im, weight=w * 4, jacobian=jj, ignore_zero_weight=case['izw'])
    close(gm.get_loglike(o4), 4 * a['loglike'], 1e-10, 0, 'weights scale chi square')
    # a psf on the observation does not enter
    o5 = ngmix.Observation(im, weight=w, jacobian=jj, ignore_zero_weight=case['izw'],
                           psf=ngmix.Observation(np.ones((3, 3)), jacobian=jj))
    check(gm.get_loglike(o5) == a['loglike'], 'psf of the observation')


@R.law(st.fixed_dictionaries(dict(_case, how=st.sampled_from(['buffer', 'shape', 'det', 'empty']), start=ints(0, 5), short=ints(1, 5))), quick=800,
       rule='rejected input')
def rejected(case, ctx):
    """arrays that do not fit and unusable mixtures are rejected"""
    gm, obs, exact, im, w, jj, cen = make(case)
    ctx.nontrivial()
    how = case['how']
    if how == 'buffer':
        n = im.size + case['start'] - case['short']
        if n - case['start'] < 0 or n < 0:
            return
        buf = np.zeros(n)
        raises(ValueError, gm.fill_fdiff, obs, buf, start=case['start'])
        check(not buf.any(), 'buffer written')
    elif how == 'shape':
        if case['mix']['model'] == 'full':
            return
        p = list(case['mix']['pars'])
        p[2:4] = 0.9, 0.9
        ll = gm.get_loglike(obs)
        raises(GMixRangeError, gm.fill, p)
        check(gm.get_loglike(obs) == ll, 'rejected parameters changed the mixture')
    else:
        full = gm.get_full_pars()
        full[-3:] = 0 if how == 'empty' else [1.0, 2.0, 1.0]
        bad = GMix(pars=full)
        buf = np.zeros(im.size)
        for i in range(2):
            raises(GMixRangeError, bad.get_loglike, obs)
            raises(GMixRangeError, bad.fill_fdiff, obs, buf)
            raises(GMixRangeError, bad.get_model_s2n, obs)
