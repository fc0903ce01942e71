"""C13: weighted moment sums and Gaussian-weighted moments"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, full_pars, seeds, rng_of, jac, make_jac, jdet, jmat, vu, weights, wspec, ref_eval,
                 pick, angles, rerr, cerr)
import ngmix
from ngmix.gmix import GMix, GMixModel, get_weighted_moments_stats
from ngmix.gaussmom import GaussMom
from ngmix.moments import MOMENTS_NAME_MAP, fwhm_to_T
from ngmix import flags as F

ORACLE = ('definitional weighted sums in numpy over the positive-weight pixels, ratios and first-order errors from them, analytic '
          'gaussian integrals, and relations between runs (scaling, flips, rotations, masked values)')
R = Registry()


def warmup():
    o = ngmix.Observation(np.ones((4, 3)), weight=np.ones((4, 3)), jacobian=ngmix.DiagonalJacobian(scale=0.3, row=1, col=1))
    gm = GMix(pars=[1, 0, 0, 1, 0, 1])
    gm.get_weighted_moments(o)
    gm.get_weighted_moments(o, with_higher_order=True)
    GaussMom(1.2).go(o)


def basis(v, u, vc, uc):
    """the 17 moment functions; the first moments are about the coordinate origin"""
    dv, du = v - vc, u - uc
    z = du + 1j * dv
    r2 = du**2 + dv**2
    return [v, u, (z**2).real, (z**2).imag, r2, np.ones_like(v),
            du * r2, dv * r2, (z**3).real, (z**3).imag,
            r2**2, r2 * (z**2).real, r2 * (z**2).imag, (z**4).real, (z**4).imag, r2**3, r2**4]


ORDER = [1, 1, 2, 2, 2, 0, 3, 3, 3, 3, 4, 4, 4, 4, 4, 6, 8]


def image_of(case, dims, w):
    r = rng_of(case['seed'])
    im = r.normal(size=dims)
    kind = case['kind']
    if kind == 'pos':
        im = np.abs(im)
    elif kind == 'neg':
        im = -np.abs(im)
    elif kind == 'blob':
        rr, cc = np.mgrid[0:dims[0], 0:dims[1]]
        s = max(dims) / 5.0
        im = 5 * np.exp(-0.5 * ((rr - dims[0] / 2)**2 + 0.7 * (cc - dims[1] / 2)**2) / s**2) + 0.05 * im
    elif kind == 'zero':
        im = np.zeros(dims)
    if not np.any(w > 0):
        w[r.randint(dims[0]), r.randint(dims[1])] = case['w']['amp']
    return im * case['amp']


_case = dict(dims=st.tuples(ints(1, 13), ints(1, 13)), j=jac(), off=st.tuples(fl(-2, 2), fl(-2, 2)), w=wspec(), seed=seeds,
             kind=st.sampled_from(['blob', 'pos', 'noise', 'neg', 'zero', 'blob']), amp=logfl(0.01, 100), ho=st.booleans(), izw=pick((3, st.just(True)), (1, st.just(False))))


def make(case):
    dims = tuple(case['dims'])
    cen = [(dims[0] - 1) / 2 + case['off'][0], (dims[1] - 1) / 2 + case['off'][1]]
    w = weights(dims, case['w'])
    im = image_of(case, dims, w)
    jj = make_jac(case['j'], *cen)
    obs = ngmix.Observation(im, weight=w, jacobian=jj, ignore_zero_weight=case['izw'])
    v, u = vu(dims, case['j'], *cen)
    return obs, im, w, v, u, jj


def ref_sums(wt, im, w, v, u, vc, uc, area, maxrad, n):
    m = (w > 0) & ((v - vc)**2 + (u - uc)**2 < maxrad**2)
    W = (wt * area)[m]
    fs = [f for f in basis(v, u, vc, uc)[:n]]
    sums = np.array([(W * im[m] * f[m]).sum() for f in fs])
    var = 1 / w[m]
    cov = np.array([[(W**2 * var * f[m] * g[m]).sum() for g in fs] for f in fs])
    # sizes of the terms, for the rounding of sums that cancel
    r = np.sqrt((v - vc)**2 + (u - uc)**2)
    bs = max(np.abs(v).max(), np.abs(u).max(), abs(vc), abs(uc), r.max())
    sz = [(np.abs(fs[i]) if i < 2 else r**ORDER[i])[m] + 1e-4 * bs**ORDER[i] * 1e-2**ORDER[i] for i in range(n)]
    mags = np.array([(W * np.abs(im[m]) * f).sum() for f in sz])
    dmag = np.sqrt(np.array([(W**2 * var * f**2).sum() for f in sz]))
    return sums, cov, W.sum(), int(m.sum()), mags, dmag


@R.law(st.fixed_dictionaries(dict(_case, wt=full_pars(1, 2, cen=1.0), rad=pick((1, st.none()), (2, logfl(0.3, 10))), twice=st.booleans())), quick=2500,
       rule='masked pixels and a radius limit that cuts the image')
def sums(case, ctx):
    """weighted sums, their covariance, higher orders and the radius limit against the definition"""
    obs, im, w, v, u, jj = make(case)
    gm = GMix(pars=case['wt'])
    full = gm.get_full_pars()
    n = 17 if case['ho'] else 6
    area = abs(jdet(case['j']))
    rad = case['rad']
    mr = rad if rad is not None else 100 * gm.get_sigma()
    r2 = (v - full[1])**2 + (u - full[2])**2
    if np.any(np.abs(r2 - mr**2) < 1e-9 * mr**2):
        return
    s, c, wsum, npix, mags, dg = ref_sums(ref_eval(full, v, u), im, w, v, u, full[1], full[2], area, mr, n)
    ctx.nontrivial(bool(np.any(w == 0)) and 0 < npix < (w > 0).sum())
    kw = dict(with_higher_order=True) if case['ho'] else {}
    if rad is not None:
        kw['maxrad'] = rad
    res = gm.get_weighted_sums(obs, **kw)
    at = 1e-10 * mags + 1e-300
    check(res['sums'].shape == (n,) and res['sums_cov'].shape == (n, n), 'shapes')
    check(np.all(np.abs(res['sums'] - s) <= at), 'sums %r vs %r', res['sums'], s)
    check(np.all(np.abs(res['sums_cov'] - c) <= 1e-9 * np.outer(dg, dg) + 1e-300), 'covariance')
    close(res['wsum'], wsum, 1e-10, 1e-300, 'wsum')
    check(int(res['npix']) == npix, 'npix %d vs %d', res['npix'], npix)
    # inputs untouched
    close(gm.get_full_pars(), full, 0, 0, 'weight changed')
    same(obs.image, im, 'image changed')
    # summing into an earlier result adds
    r1 = gm.get_weighted_sums(obs, res=res, **kw)
    check(np.all(np.abs(r1['sums'] - 2 * s) <= 2 * at), 'accumulated sums')
    close(r1['wsum'], 2 * wsum, 1e-10, 1e-300, 'accumulated wsum')
    check(int(r1['npix']) == 2 * npix, 'accumulated npix')
    # statistics
    st_ = gm.get_weighted_moments(obs, **kw)
    for nm in ('sums', 'sums_cov'):
        check(np.all(np.abs(st_[nm] - (s if nm == 'sums' else c)) <= (at if nm == 'sums' else 1e-9 * np.outer(dg, dg) + 1e-300)), 'stats ' + nm)
    close(st_['sums_norm'], wsum, 1e-10, 1e-300, 'sums_norm')
    check(int(st_['npix']) == npix, 'stats npix')
    derived(st_, 1.0, ctx)


def derived(res, fac, ctx):
    """derived quantities agree with the sums in the result"""
    s, c = res['sums'], res['sums_cov']
    if c[5, 5] > 0:
        check(res['flux_flags'] == 0, 'flux flags')
        close(res['flux'], s[5], 1e-9, 0, 'flux')
        close(res['flux_err'], math.sqrt(c[5, 5]), 1e-9, 0, 'flux_err')
        close(res['s2n'], s[5] / math.sqrt(c[5, 5]), 1e-8, 0, 's2n')
    else:
        check(res['flux_flags'] != 0, 'flux flags')
    allv = bool(np.all(np.diagonal(c) > 0))
    if c[5, 5] > 0 and c[4, 4] > 0 and s[5] > 0:
        check(res['T_flags'] == 0, 'T flags')
        close(res['T'], s[4] / s[5], 1e-9, 0, 'T')
        e, at = rerr(s, c, 4, 5)
        cerr(res['T_err'], e, 1e-5, at, 'T_err')
    else:
        check(res['T_flags'] != 0 and np.isnan(res['T']), 'T flags')
    if allv and s[5] > 0 and s[4] > 0:
        check(res['flags'] in (0, F.NONPOS_SHAPE_VAR), 'flags %s', res['flagstr'])
        close(res['e'], [s[2] / s[4], s[3] / s[4]], 1e-9, 1e-14, 'e')
        close([res['e1'], res['e2']], res['e'], 0, 0, 'e1, e2')
        if res['flags'] == 0:
            for k in (0, 1):
                e, at = rerr(s, c, 2 + k, 4)
                cerr(res['e_err'][k], e, 1e-5, at, 'e_err')
        close(res['pars'][2:], [s[2] / s[4], s[3] / s[4], s[4] / s[5], s[5]], 1e-9, 1e-14, 'pars')
        close(res['sums_err'], np.sqrt(np.diagonal(c)), 1e-9, 0, 'sums_err')
    else:
        check(res['flags'] != 0, 'flags clear for unusable sums')


@R.law(st.fixed_dictionaries(dict(_case, fwhm=logfl(0.3, 5.0))), quick=2000, rule='pixels of area different from one, some masked')
def gaussmom(case, ctx):
    """definition, units and derived values of the Gaussian-weighted measurement"""
    obs, im, w, v, u, jj = make(case)
    n = 17 if case['ho'] else 6
    area = abs(jdet(case['j']))
    ctx.nontrivial(abs(area - 1) > 0.05 and bool(np.any(w == 0)))
    fitter = GaussMom(fwhm=case['fwhm'], with_higher_order=case['ho']) if case['ho'] else GaussMom(case['fwhm'])
    res = fitter.go(obs)
    T = fwhm_to_T(case['fwhm'])
    wt = np.exp(-(v**2 + u**2) / T)
    if np.any(np.abs(v**2 + u**2 - (100**2) * T / 2) < 1e-9 * T):
        return
    s, c, wsum, npix, mags, dg = ref_sums(wt, im, w, v, u, 0.0, 0.0, 1.0, 100 * math.sqrt(T / 2), n)
    # peak of the weight is one: flux units of the image
    check(np.all(np.abs(res['sums'] - s) <= 1e-10 * mags + 1e-300), 'sums %r vs %r', res['sums'], s)
    check(np.all(np.abs(res['sums_cov'] - c) <= 1e-9 * np.outer(dg, dg) + 1e-300), 'covariance')
    close(res['wsum'], wsum, 1e-9, 1e-300, 'wsum')
    close(res['sums_norm'], wsum, 1e-9, 1e-300, 'sums_norm')
    check(int(res['npix']) == npix, 'npix')
    close(res['flux'], s[5], 1e-9, 1e-10 * mags[5], 'flux in image units whatever the flags')
    ctx.label('flags' if res['flags'] else 'ok')
    derived(res, 1.0, ctx)
    # named moments: flux in image units, others relative to the flux
    for nm in ('MF', 'M00'):
        close(res[nm], s[5], 1e-9, 1e-10 * mags[5], nm)
        if c[5, 5] > 0:
            close(res[nm + '_err'], math.sqrt(c[5, 5]), 1e-9, 0, nm + '_err')
    rs = res['sums']
    for nm, i in MOMENTS_NAME_MAP.items():
        if i >= n:
            check(nm not in res, 'absent moment')
        elif i != 5 and rs[5] > 0:
            close(res[nm], rs[i] / rs[5], 1e-9, 0, nm)
            e, at = rerr(rs, res['sums_cov'], i, 5)
            cerr(res[nm + '_err'], e, 1e-4, at, nm + '_err')
    same(obs.image, im, 'image changed')
    same(obs.weight, w, 'weight changed')
    # the same fitter again, after another observation
    o2 = ngmix.Observation(np.abs(im) + 1.0, jacobian=ngmix.DiagonalJacobian(scale=0.7, row=0, col=0))
    fitter.go(o2)
    again = fitter.go(obs)
    same(again['sums'], res['sums'], 'memory of other observations')
    same(again['flux'], res['flux'], 'memory of other observations')


@R.law(st.fixed_dictionaries(dict(_case, fwhm=logfl(0.8, 5.0), fac=ints(-6, 6).map(lambda k: 2.0**k), wfac=logfl(0.1, 10), val=fl(-1e4, 1e4), th=angles(), sc=logfl(0.2, 5))),
       quick=1500, rule='measurement without flags')
def relations(case, ctx):
    """scaling, masked values, flips, rotation and change of units"""
    obs, im, w, v, u, jj = make(case)
    dims = im.shape
    gmm = GaussMom(case['fwhm'], with_higher_order=case['ho'])
    res = gmm.go(obs)
    ok = res['flags'] == 0
    ctx.nontrivial(ok)
    a = {k: res[k] for k in ('flux', 'flux_err', 'T', 'T_err', 'e1', 'e2', 's2n')}
    # conditioning of the ratios
    mT = (np.abs(im) * (w > 0) * np.exp(-(v**2 + u**2) / fwhm_to_T(case['fwhm']))).sum()
    good = ok and res['flux'] > 1e-4 * mT and res['T'] > 1e-4 * (v**2 + u**2).max() + 1e-12

    def run(im_, w_, j_, fw=case['fwhm'], izw=case['izw']):
        return GaussMom(fw, with_higher_order=case['ho']).go(ngmix.Observation(im_, weight=w_, jacobian=j_, ignore_zero_weight=izw))
    # power of two: exact
    b = run(im * case['fac'], w / case['fac']**2, jj)
    check(b['flags'] == res['flags'] and b['T_flags'] == res['T_flags'], 'flags with amplitude')
    close(b['flux'], a['flux'] * case['fac'], 1e-12, 0, 'flux with amplitude')
    close(b['flux_err'], a['flux_err'] * case['fac'], 1e-10, 0, 'flux_err with amplitude')
    for k in ('T', 'T_err', 'e1', 'e2', 's2n'):
        close(b[k], a[k], 1e-10, 0, k + ' with amplitude')
    # weights scale the errors only
    b = run(im, w * case['wfac'], jj)
    if good:
        for k in ('flux', 'T', 'e1', 'e2'):
            close(b[k], a[k], 1e-10, 0, k + ' with weight')
        close(b['flux_err'], a['flux_err'] / math.sqrt(case['wfac']), 1e-9, 0, 'flux_err with weight')
        close(b['s2n'], a['s2n'] * math.sqrt(case['wfac']), 1e-9, 0, 's2n with weight')
    # masked pixels
    im2 = im.copy()
    im2[w <= 0] = case['val']
    b = run(im2, w, jj)
    same(b['sums'], res['sums'], 'masked values')
    b = run(im2, w, jj, izw=not case['izw'])
    close(b['sums'], res['sums'], 1e-12, 0, 'zero weight pixels')
    check(int(b['npix']) == int(res['npix']), 'zero weight pixels counted')
    # variances that vanish by symmetry do so only up to rounding after a rotation
    for a_, b_ in ((0, 1), (2, 3), (6, 7), (8, 9), (11, 12), (13, 14)):
        if good and b_ < len(res['sums']):
            cc = res['sums_cov'][np.ix_([a_, b_], [a_, b_])]
            lam = np.linalg.eigvalsh(cc)
            good = lam[0] > 1e-6 * lam[1]
    if not good:
        return
    ctx.label('geometry')
    j = case['j']
    row, col = (dims[0] - 1) / 2 + case['off'][0], (dims[1] - 1) / 2 + case['off'][1]
    M = jmat(j)

    def jj_of(M_, r_, c_):
        return ngmix.Jacobian(row=r_, col=c_, dvdrow=M_[0, 0], dvdcol=M_[0, 1], dudrow=M_[1, 0], dudcol=M_[1, 1])
    tol = dict(rtol=1e-7, atol=1e-9)
    # the sky, not the storage order, matters: reversing rows with the transform following along changes nothing
    b = run(im[::-1].copy(), w[::-1].copy(), jj_of(M.dot(np.diag([-1, 1])), dims[0] - 1 - row, col))
    for k in a:
        close(b[k], a[k], msg='storage order ' + k, **tol)
    b = run(im.T.copy(), w.T.copy(), jj_of(M[:, ::-1], col, row))
    for k in a:
        close(b[k], a[k], msg='transposed storage ' + k, **tol)
    # reflecting the sky: v -> -v changes the sign of e2; u <-> v that of e1
    b = run(im, w, jj_of(np.diag([-1, 1]).dot(M), row, col))
    for k in a:
        close(b[k], -a[k] if k == 'e2' else a[k], msg='reflection ' + k, **tol)
    b = run(im, w, jj_of(M[::-1], row, col))
    for k in a:
        close(b[k], -a[k] if k == 'e1' else a[k], msg='exchange of axes ' + k, **tol)
    # rotation of the sky by th: spin-2 rotation
    ct, s_ = math.cos(case['th']), math.sin(case['th'])
    Rm = np.array([[ct, s_], [-s_, ct]])    # acts on (v, u)
    b = run(im, w, jj_of(Rm.dot(M), row, col))
    # u' = ct u - s v ; v' = s u + ct v
    e = (a['e1'] + 1j * a['e2']) * np.exp(2j * case['th'])
    close([b['e1'], b['e2']], [e.real, e.imag], msg='rotation', **tol)
    close([b['flux'], b['T']], [a['flux'], a['T']], msg='rotation', **tol)
    # change of length unit
    sc = case['sc']
    b = run(im, w, jj_of(sc * M, row, col), fw=case['fwhm'] * sc)
    close([b['e1'], b['e2'], b['flux'], b['flux_err'], b['T'] / sc**2], [a['e1'], a['e2'], a['flux'], a['flux_err'], a['T']], msg='length unit', **tol)


@R.law(st.fixed_dictionaries(dict(j=jac(0.2, 0.5, 0.2), T=logfl(1.5, 6.0), g=disk(0.4), fwhm=logfl(2.0, 5.0), flux=logfl(0.1, 1e3), off=st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5)), seed=seeds)),
       quick=150, rule='elliptical object, sheared pixels')
def analytic(case, ctx):
    """moments of a well sampled gaussian against the integrals"""
    g1, g2 = case['g']
    ctx.nontrivial(math.hypot(g1, g2) > 0.02 and abs(case['j']['dvdcol']) > 1e-6)
    # sizes in units of 1/0.35 pixel
    s = math.sqrt(abs(jdet(case['j']))) / 0.35
    case['T'] *= s * s
    case['fwhm'] *= s
    n = int(np.ceil(2 * 5.5 * math.sqrt(case['T'] * 1.5) / math.sqrt(abs(jdet(case['j']))))) | 1
    n = min(n, 301)
    cen = [(n - 1) / 2 + case['off'][0], (n - 1) / 2 + case['off'][1]]
    jj = make_jac(case['j'], *cen)
    gm = GMixModel([0, 0, g1, g2, case['T'], case['flux']], 'gauss')
    im = gm.make_image((n, n), jacobian=jj)
    res = GaussMom(case['fwhm']).go(ngmix.Observation(im, jacobian=jj, weight=np.full(im.shape, 4.0)))
    f = gm.get_full_pars()
    C = np.array([[f[5], f[4]], [f[4], f[3]]])
    W = np.eye(2) * fwhm_to_T(case['fwhm']) / 2
    P = np.linalg.inv(np.linalg.inv(C) + np.linalg.inv(W))
    check(res['flags'] == 0, 'flags')
    close(res['flux'], case['flux'] * math.sqrt(np.linalg.det(P) / np.linalg.det(C)), 1e-5, 0, 'flux')
    T = P[0, 0] + P[1, 1]
    close(res['T'], T, 1e-5, 0, 'T')
    close([res['e1'], res['e2']], [(P[0, 0] - P[1, 1]) / T, 2 * P[0, 1] / T], 1e-5, 1e-5, 'e')
    # noise: variance 1/4 per pixel, sum of squared weights
    area = abs(jdet(case['j']))
    close(res['flux_err'], math.sqrt(0.25 * math.pi * W[0, 0] / area), 1e-4, 0, 'flux error')
