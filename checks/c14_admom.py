"""C14: adaptive moments"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, full_pars, seeds, rng_of, jac, make_jac, jdet, jmat, vu, weights, wspec, ref_eval, pick, rerr, cerr)
import ngmix
from ngmix.gmix import GMix, GMixModel
from ngmix.admom import AdmomFitter, run_admom, find_cen_admom
from ngmix.moments import fwhm_to_T
from ngmix import flags as F

ORACLE = ('the rendered gaussian itself, the definitional weighted sums with the final weight recomputed in numpy (fixed point), first-order '
          'error propagation of the sums, the flag discipline, and relations between runs (amplitude, weights, masked values, storage order, reflection, history)')
R = Registry()
REAL = ('T', 'e1', 'e2', 'flux', 'flux_err', 's2n')


def warmup():
    o = ngmix.Observation(np.ones((4, 3)), weight=np.ones((4, 3)), jacobian=ngmix.DiagonalJacobian(scale=0.3, row=1, col=1))
    gm = GMixModel([0, 0, 0, 0, 1, 1.0], 'gauss')
    AdmomFitter().go(o, gm)
    gm.make_image((3, 3), jacobian=o.jacobian)
    gm.copy()
    gm.set_cen(0.1, 0.2)


_wild = dict(
    dims=pick((4, st.tuples(ints(7, 17), ints(7, 17))), (1, st.tuples(ints(1, 17), ints(1, 17)))), j=jac(0.3, 1.5), off=st.tuples(fl(-2, 2), fl(-2, 2)), w=wspec(), seed=seeds,
    kind=st.sampled_from(['blob', 'blobnoise', 'pos', 'neg', 'zero', 'noise', 'spike', 'const', 'two', 'two', 'blobnoise', 'blobnoise', 'blob', 'blob', 'blob', 'blob']), amp=logfl(0.01, 100),
    maxiter=pick((3, st.just(200)), (2, ints(1, 12)), (1, st.just(1))), etol=logfl(1e-7, 1e-2), Ttol=logfl(1e-6, 1e-1), shiftmax=pick((4, logfl(1, 10)), (1, logfl(0.05, 10))),
    cenonly=pick((3, st.just(False)), (1, st.just(True))), guess=full_pars(1, 1, cen=0.7, Tlo=0.3, Thi=15.0), izw=pick((3, st.just(True)), (1, st.just(False))),
    Tguess=pick((3, st.none()), (1, logfl(0.3, 15))))


def wild_obs(case):
    dims = tuple(case['dims'])
    cen = [(dims[0] - 1) / 2 + case['off'][0], (dims[1] - 1) / 2 + case['off'][1]]
    r = rng_of(case['seed'])
    w = weights(dims, case['w'])
    if not np.any(w > 0):
        w[r.randint(dims[0]), r.randint(dims[1])] = case['w']['amp']
    v, u = vu(dims, case['j'], *cen)
    s2 = abs(jdet(case['j'])) * r.uniform(1, 9)
    e = r.uniform(-0.5, 0.5)
    blob = np.exp(-0.5 * ((v - r.uniform(-0.5, 0.5))**2 * (1 + e) + (u - r.uniform(-0.5, 0.5))**2 * (1 - e)) / s2)
    n = r.normal(size=dims)
    k = case['kind']
    im = {'blob': 5 * blob + 0.02 * n, 'pos': np.abs(n), 'neg': -np.abs(n), 'zero': np.zeros(dims), 'noise': n, 'const': np.ones(dims),
          'blobnoise': 2 * blob + 0.3 * n, 'spike': np.zeros(dims), 'two': blob + np.roll(blob, 4, axis=r.randint(2))}[k]
    if k == 'spike':
        im[r.randint(dims[0]), r.randint(dims[1])] = 1.0
    im = im * case['amp']
    jj = make_jac(case['j'], *cen)
    obs = ngmix.Observation(im, weight=w, jacobian=jj, ignore_zero_weight=case['izw'])
    return obs, im, w, v, u, jj, cen


def fitter_of(case, rng=None):
    return AdmomFitter(maxiter=case['maxiter'], shiftmax=case['shiftmax'], etol=case['etol'], Ttol=case['Ttol'], cenonly=case['cenonly'], rng=rng)


def same_result(a, b, msg):
    check(set(a) == set(b), '%s: keys' % msg)
    for k in a:
        if isinstance(a[k], str):
            check(a[k] == b[k], '%s: %s' % (msg, k))
        else:
            same(np.asarray(a[k]), np.asarray(b[k]), '%s: %s' % (msg, k))


@R.law(st.fixed_dictionaries(_wild), quick=3000, rule='run that moved the weight at least twice, or failed')
def discipline(case, ctx):
    """any image: terminates within the limit, flags and values agree, inputs unchanged, reproducible, fixed point"""
    obs, im, w, v, u, jj, cen = wild_obs(case)
    if case['Tguess'] is None:
        guess = GMix(pars=case['guess'])
    else:
        guess = case['Tguess']
    f0 = guess.get_full_pars() if isinstance(guess, GMix) else None
    wt0 = weights(im.shape, case['w']) if np.any(weights(im.shape, case['w']) > 0) else w.copy()
    im0 = im.copy()
    fitter = fitter_of(case, rng_of(case['seed']))
    res = fitter.go(obs, guess)
    if f0 is not None:
        same(guess.get_full_pars(), f0, 'guess changed')
    same(obs.image, im0, 'image changed')
    same(obs.weight, wt0, 'weight changed')
    check(obs.jacobian == jj, 'jacobian changed')
    fl_ = int(res['flags'])
    ctx.label(F.get_flags_str(fl_)[:30] if fl_ else 'ok')
    check(1 <= res['numiter'] <= case['maxiter'] or (res['numiter'] == 0 and fl_ != 0), 'numiter %r', res['numiter'])
    ctx.nontrivial(fl_ != 0 or res['numiter'] > 2)
    for pre in ('', 'flux_', 'T_', 'rho4_'):
        check(res[pre + 'flagstr'] == F.get_flags_str(int(res[pre + 'flags'])), 'flag text %r', pre)
    if fl_ == 0:
        check(res['numiter'] < case['maxiter'], 'limit reached without a flag')
        check(np.all(np.isfinite(res['pars'])), 'pars not finite %r', res['pars'])
        for k in ('flux', 'flux_err', 's2n', 'T', 'e1', 'e2', 'e1err', 'e2err', 'rho4', 'flux_mean', 'wsum'):
            check(np.isfinite(res[k]), '%s not finite with clear flags', k)
        check(np.all(np.isfinite(res['e_err'])) and np.all(np.isfinite(res['e'])), 'e')
        check(res['T'] > 0 and res['flux'] > 0 and res['flux_err'] > 0 and math.hypot(res['e1'], res['e2']) < 1, 'values not physical')
        check(res['flux_flags'] == 0 and res['T_flags'] == 0 and res['rho4_flags'] == 0, 'partial flags set')
        if f0 is not None:
            check(abs(res['pars'][0] - f0[1]) <= case['shiftmax'] and abs(res['pars'][1] - f0[2]) <= case['shiftmax'], 'center beyond the shift limit')
        gm = res.get_gmix()
        if math.hypot(res['e1'], res['e2']) > 1 - 1e-6:
            # a line: the shape of its mixture is all rounding
            ctx.label('line')
            return
        close(gm.get_flux(), 1.0, 1e-12, 0, 'normalised')
        close(gm.get_cen(), res['pars'][:2], 1e-12, 0, 'mixture center')
        close(gm.get_e1e2T(), [res['e1'], res['e2'], res['T']], 1e-9, 1e-11, 'mixture shape')
        check(len(gm) == 1, 'components')
        mi = res.make_image()
        check(mi.shape == im.shape, 'image shape')
        ref = ref_eval(gm.get_full_pars(), v, u)
        close(mi, ref * im.sum() * abs(jdet(case['j'])), 1e-9, 1e-12 * np.abs(mi).max(), 'model image')
        fixed_point(case, res, im, w, v, u, guess, ctx)
        if res['numiter'] >= 3:
            # what the iteration before measured, so that the tolerances can be seen to have been met
            fitter.rng = rng_of(case['seed'])
            old = AdmomFitter(maxiter=int(res['numiter']) - 1, shiftmax=case['shiftmax'], etol=case['etol'], Ttol=case['Ttol'],
                              cenonly=case['cenonly'], rng=rng_of(case['seed'])).go(obs, guess)
            check(old['flags'] & F.MAXITER and old['numiter'] == res['numiter'] - 1, 'shorter run: flags %s', old['flags'])
            a, b = old['sums'], res['sums']
            check(abs(a[2] / a[4] - b[2] / b[4]) <= case['etol'] * (1 + 1e-6) + 1e-13 and abs(a[3] / a[4] - b[3] / b[4]) <= case['etol'] * (1 + 1e-6) + 1e-13,
                  'stopped although the ellipticity still changes')
            check(abs(b[4] / b[5] / (a[4] / a[5]) - 1) <= case['Ttol'] * (1 + 1e-6) + 1e-13, 'stopped although the size still changes')
    else:
        raises(RuntimeError, res.get_gmix, _msg='failed fit has no mixture')
        raises(RuntimeError, res.make_image, _msg='failed fit has no image')
        if fl_ & ~(F.NONPOS_VAR | F.NONPOS_SHAPE_VAR):
            for k in ('flux', 'flux_err', 's2n', 'T_err', 'e1', 'e2', 'e1err', 'e2err'):
                check(np.isnan(res[k]), '%s given in spite of the failure', k)
            check(res['flux_flags'] & fl_ == fl_ & ~(F.NONPOS_VAR), 'flux flags')
            check(res['T_flags'] & ~F.NONPOS_VAR == fl_ & ~F.NONPOS_VAR, 'T flags')
    # the same run again, also after the fitter was used for something else
    fitter.rng = rng_of(case['seed'])
    other = ngmix.Observation(im0[::-1].copy() + case['amp'], jacobian=ngmix.DiagonalJacobian(scale=0.5, row=0, col=0))
    fitter.go(other, GMixModel([0, 0, 0, 0, 3.0, 1.0], 'gauss'))
    fitter.rng = rng_of(case['seed'])
    same_result(fitter.go(obs, guess), res, 'second use of the fitter')
    b = run_admom(obs, guess, maxiter=case['maxiter'], shiftmax=case['shiftmax'], etol=case['etol'], Ttol=case['Ttol'], cenonly=case['cenonly'], rng=rng_of(case['seed']))
    same_result(b, res, 'run_admom')


def fixed_point(case, res, im, w, v, u, guess, ctx):
    """the result holds the moments under the final weight, and they reproduce the weight"""
    m = w > 0
    p = res['pars']
    irr, icc, irc = (p[4] - p[2]) / 2, (p[4] + p[2]) / 2, p[3] / 2
    det = irr * icc - irc**2
    dv, du = v - p[0], u - p[1]
    chi2 = (icc * dv**2 - 2 * irc * dv * du + irr * du**2) / det
    W = np.exp(-0.5 * chi2)
    W[chi2 >= 25] = 0
    if np.any(np.abs(chi2 - 25) < 1e-6) or W[m].sum() < 1e-2:
        return
    ctx.label('fixed')
    W = W[m]
    wsum = W.sum()
    check(int(res['npix']) == int(m.sum()), 'npix')
    fs = [v[m], u[m], (du**2 - dv**2)[m], (2 * dv * du)[m], (du**2 + dv**2)[m], np.ones(m.sum()), (chi2**2)[m]]
    sums = np.array([(W * im[m] * f).sum() for f in fs]) / wsum
    cov = np.array([[(W**2 / w[m] * f * g).sum() for g in fs] for f in fs]) / wsum**2
    sz = [np.abs(v[m]) + abs(p[0]), np.abs(u[m]) + abs(p[1])] + [(du**2 + dv**2)[m]] * 3 + [fs[5], fs[6]]
    mags = np.array([(W * np.abs(im[m]) * f).sum() for f in sz]) / wsum
    dg = np.sqrt(np.array([(W**2 / w[m] * f * f).sum() for f in sz])) / wsum
    # fast exponential: relative accuracy 4e-4
    s_, c_ = res['sums'] / res['wsum'], res['sums_cov'] / res['wsum']**2
    check(np.all(np.abs(s_ - sums) <= 2e-3 * mags + 1e-300), 'sums %r vs %r', s_, sums)
    check(np.all(np.abs(c_ - cov) <= 4e-3 * np.outer(dg, dg)), 'covariance')
    peak = 1 / (2 * math.pi * math.sqrt(det))
    wp = 1.0 if not isinstance(guess, GMix) else guess.get_flux()
    close(res['wsum'], wp * peak * wsum * abs(jdet(case['j'])), 2e-3, 0, 'wsum')
    # derived
    s, c = res['sums'], res['sums_cov']
    area = abs(jdet(case['j']))
    close(res['flux'], s[5] / res['wsum'] / area / peak, 1e-9, 0, 'flux')
    close(res['flux_err'], math.sqrt(c[5, 5]) / res['wsum'] / area / peak, 1e-9, 0, 'flux_err')
    close(res['s2n'], s[5] / math.sqrt(c[5, 5]), 1e-9, 0, 's2n')
    close(res['flux_mean'], s[5] / res['wsum'], 1e-12, 0, 'flux_mean')
    close(p[5], res['flux_mean'], 0, 0, 'pars[5]')
    close(res['T'], p[4], 0, 0, 'T')
    close(res['e'], [p[2] / p[4], p[3] / p[4]], 1e-12, 1e-15, 'e')
    close([res['e1'], res['e2']], res['e'], 0, 0, 'e1, e2')
    e, at = rerr(s, c, 4, 5)
    cerr(res['T_err'], 4 * e, 1e-5, 4 * at, 'T_err')
    e, at = rerr(s, c, 6, 5)
    cerr(res['rho4_err'], 4 * e, 1e-5, 4 * at, 'rho4_err')
    close(res['rho4'], s[6] / s[5], 1e-12, 0, 'rho4')
    for k in (0, 1):
        e, at = rerr(s, c, 2 + k, 4)
        cerr([res['e1err'], res['e2err']][k], 2 * e, 1e-5, 2 * at, 'e_err')
    close(res['e_err'], [res['e1err'], res['e2err']], 0, 0, 'e_err')
    close(res['e_cov'], np.diag([res['e1err']**2, res['e2err']**2]), 1e-12, 0, 'e_cov')
    close(res['sums_norm'], res['wsum'], 0, 0, 'sums_norm')
    if case['cenonly']:
        if isinstance(guess, GMix):
            f0 = guess.get_full_pars()
            close([irr, irc, icc], f0[3:], 1e-9, 1e-12, 'weight of a center-only run')


def degenerate(res):
    """variances that vanish by symmetry do so only up to rounding"""
    c = res['sums_cov'][2:6, 2:6]
    d = np.sqrt(np.diagonal(c))
    if res['sums'][4] < 1e-6 * res['T'] * res['sums'][5]:
        return True         # all in one pixel
    if not np.all(d > 0) or d[:3].min() < 1e-5 * d[:3].max():
        return True
    return np.linalg.eigvalsh(c / np.outer(d, d))[0] < 1e-7


@R.law(st.fixed_dictionaries(dict(_wild, fac=ints(-6, 6).map(lambda k: 2.0**k), wfac=logfl(0.1, 10), pfac=logfl(0.1, 10), val=fl(-1e4, 1e4), sc=logfl(0.2, 5))),
       quick=1500, rule='run without flags')
def relations(case, ctx):
    """amplitude, weights, masked values, storage order, reflections and length units"""
    obs, im, w, v, u, jj, cen = wild_obs(case)
    dims = im.shape
    guess = GMix(pars=case['guess'])
    res = fitter_of(case).go(obs, guess)
    ok = res['flags'] == 0
    ctx.nontrivial(ok)

    def run(im_, w_, j_, g_=guess, izw=case['izw'], **kw):
        return fitter_of(dict(case, **kw)).go(ngmix.Observation(im_, weight=w_, jacobian=j_, ignore_zero_weight=izw), g_)
    # power of two: exactly the same path
    b = run(im * case['fac'], w / case['fac']**2, jj)
    for k in ('flags', 'numiter', 'npix'):
        check(b[k] == res[k], '%s with amplitude', k)
    for k in ('T', 'e1', 'e2', 's2n', 'T_err', 'e1err', 'e2err', 'rho4', 'rho4_err'):
        close(b[k], res[k], 1e-10, 0, k + ' with amplitude')
    close(b['flux'], res['flux'] * case['fac'], 1e-12, 0, 'flux with amplitude')
    close(b['flux_err'], res['flux_err'] * case['fac'], 1e-10, 0, 'flux_err with amplitude')
    # weights only scale the errors
    b = run(im, w * case['wfac'], jj)
    check(b['numiter'] == res['numiter'] and ((b['flags'] == 0) == ok or degenerate(res)), 'run with weight')
    if ok and not degenerate(res):
        for k in ('T', 'e1', 'e2', 'flux', 'rho4'):
            close(b[k], res[k], 1e-10, 0, k + ' with weight')
        for k in ('flux_err', 'T_err', 'e1err', 'e2err', 'rho4_err'):
            close(b[k], res[k] / math.sqrt(case['wfac']), 1e-4, 0, k + ' with weight')
    # masked pixels
    im2 = im.copy()
    im2[w <= 0] = case['val']
    same_result(run(im2, w, jj), res, 'masked values')
    b = run(im, w, jj, izw=not case['izw'])
    same_result(b, res, 'zero weight pixels')
    if not ok or degenerate(res):
        return
    # normalisation of the guess
    g2 = guess.copy()
    g2.set_flux(guess.get_flux() * case['pfac'])
    b = run(im, w, jj, g2)
    # (the convergence decision can flip on rounding; the default path is compared at convergence below)
    tight = dict(etol=1e-7, Ttol=1e-7, maxiter=400)
    a = run(im, w, jj, **tight)
    if a['flags'] != 0 or a['numiter'] > 150 or degenerate(a):
        return
    b = run(im, w, jj, g2, **tight)

    def cmp(b, msg, e=(1, 1), f=1.0, ln=1.0):
        check(b['flags'] == 0, '%s: flags %s' % (msg, b['flagstr']))
        close([b['e1'] * e[0], b['e2'] * e[1]], [a['e1'], a['e2']], 1e-5, 1e-5, msg + ' e')
        close(b['T'] / ln**2, a['T'], 3e-5, 0, msg + ' T')
        close(b['flux'], a['flux'], 3e-5, 0, msg + ' flux')
        close(b['flux_err'], a['flux_err'], 3e-5, 0, msg + ' flux_err')
    cmp(b, 'guess normalisation')
    ctx.label('geometry')
    M = jmat(case['j'])
    row, col = cen

    def jj_of(M_, r_, c_):
        return ngmix.Jacobian(row=r_, col=c_, dvdrow=M_[0, 0], dvdcol=M_[0, 1], dudrow=M_[1, 0], dudcol=M_[1, 1])
    cmp(run(im[::-1].copy(), w[::-1].copy(), jj_of(M.dot(np.diag([-1, 1])), dims[0] - 1 - row, col), **tight), 'storage order')
    cmp(run(im.T.copy(), w.T.copy(), jj_of(M[:, ::-1], col, row), **tight), 'transposed storage')
    p, r, c, irr, irc, icc = case['guess']
    cmp(run(im, w, jj_of(np.diag([-1, 1]).dot(M), row, col), GMix(pars=[p, -r, c, irr, -irc, icc]), **tight), 'reflection', e=(1, -1))
    cmp(run(im, w, jj_of(M[::-1], row, col), GMix(pars=[p, c, r, icc, irc, irr]), **tight), 'exchange of axes', e=(-1, 1))
    s = case['sc']
    cmp(run(im, w, jj_of(s * M, row, col), GMix(pars=[p, s * r, s * c, s * s * irr, s * s * irc, s * s * icc]), shiftmax=case['shiftmax'] * s, **tight), 'length unit', ln=s)


@R.law(st.fixed_dictionaries(dict(
    j=jac(0.1, 1.5, 0.25), rel=logfl(1.4, 3.0), g=disk(0.5), flux=logfl(0.1, 1e3), off=st.tuples(fl(-3, 3), fl(-3, 3)), cen=st.tuples(fl(-1, 1), fl(-1, 1)),
    Tf=logfl(0.6, 1.7), gg=disk(0.3), gd=st.tuples(fl(-0.5, 0.5), fl(-0.5, 0.5)), scalar=st.booleans(), seed=seeds, mask=pick((3, st.just(0.0)), (1, st.just(0.02))))),
    quick=400, rule='elliptical, off center, transform with rotation or shear')
def recovery(case, ctx):
    """a rendered elliptical gaussian is recovered"""
    g1, g2 = case['g']
    ctx.nontrivial(math.hypot(g1, g2) > 0.05 and abs(case['j']['dvdcol']) > 1e-6)
    M = jmat(case['j'])
    big = np.linalg.svd(M)[1][0]
    gm_ = math.hypot(g1, g2)
    e = 2 * gm_ / (1 + gm_**2)
    smin = case['rel'] * big                # smallest standard deviation
    T = 2 * smin**2 / (1 - e)
    smax = math.sqrt(T / 2 * (1 + e))
    n = int(np.ceil(11 * smax / np.linalg.svd(M)[1][1] + 8)) | 1
    if n > 161:
        return
    cen = [(n - 1) / 2 + case['off'][0], (n - 1) / 2 + case['off'][1]]
    jj = make_jac(case['j'], *cen)
    c0 = np.array(case['cen']) * big
    truth = GMixModel([c0[0], c0[1], g1, g2, T, case['flux']], 'gauss')
    v, u = vu((n, n), case['j'], *cen)
    im = ref_eval(truth.get_full_pars(), v, u) * abs(jdet(case['j']))
    obs = ngmix.Observation(im, weight=np.full(im.shape, 7.0 / case['flux']**2), jacobian=jj)
    Tg = T * case['Tf']
    if case['scalar']:
        guess = Tg
        shift = 100.0 * big
    else:
        guess = GMixModel([c0[0] + case['gd'][0] * smin, c0[1] + case['gd'][1] * smin, case['gg'][0], case['gg'][1], Tg, 1.0], 'gauss')
        shift = 1.0 * smin
    fitter = AdmomFitter(etol=1e-8, Ttol=1e-8, maxiter=500, shiftmax=shift, rng=rng_of(case['seed']))
    res = fitter.go(obs, guess)
    check(res['flags'] == 0, 'flags %s after %d iterations', res['flagstr'], res['numiter'])
    close(res['pars'][:2], c0, 0, 2e-3 * smin, 'center')
    f = truth.get_full_pars()
    close([res['e1'], res['e2']], [(f[5] - f[3]) / T, 2 * f[4] / T], 0, 2e-3, 'e')
    close(res['T'], T, 4e-3, 0, 'T')
    close(res['flux'], case['flux'] / 2, 4e-3, 0, 'flux')
    close(res['rho4'], 2.0, 4e-3, 0, 'rho4')
    # known noise: weighted flux error and shape errors of matched weights
    area = abs(jdet(case['j']))
    sig = math.sqrt(case['flux']**2 / 7.0)
    det = math.sqrt(f[3] * f[5] - f[4]**2)
    close(res['flux_err'], sig * math.sqrt(math.pi * det / area), 5e-3, 0, 'flux_err')
    if gm_ < 1e-3:
        nu = res['s2n']
        close([res['e1err'], res['e2err']], [2 / nu] * 2, 0.02, 0, 'e_err of a round object')
        close(res['T_err'] / T, 2 / nu, 0.02, 0, 'T_err of a round object')
    # center only: weight unchanged, center found
    wt = GMixModel([c0[0] + case['gd'][0] * smin, c0[1] + case['gd'][1] * smin, 0, 0, Tg, 3.0], 'gauss')
    f0 = wt.get_full_pars()
    r2 = find_cen_admom(obs, gmix=wt, etol=1e-9, Ttol=1e-9, maxiter=500, shiftmax=smin)
    check(r2['flags'] == 0, 'center flags %s', r2['flagstr'])
    close(r2['cen'], c0, 0, 2e-3 * smin, 'found center')
    same(wt.get_full_pars(), f0, 'weight changed')
    close(r2['T'], Tg, 1e-9, 0, 'weight of center only')
    r3 = find_cen_admom(obs, fwhm=math.sqrt(Tg / fwhm_to_T(1.0)), etol=1e-9, Ttol=1e-9, maxiter=500, shiftmax=100 * big, ntry=2, rng=rng_of(case['seed']))
    check(r3['flags'] == 0, 'center flags %s', r3['flagstr'])
    close(r3['cen'], c0, 0, 2e-3 * smin, 'found center')
    close(r3['T'], Tg, 1e-9, 0, 'weight of center only')


@R.law(st.fixed_dictionaries(dict(_wild, ntry=ints(1, 4), fwhm=pick((1, st.none()), (1, logfl(0.5, 4))), bad=st.sampled_from(['list', 'nothing', 'norng', 'none']))), quick=600,
       rule='failing search')
def findcen(case, ctx):
    """the center search: nan exactly on failure, inputs unchanged, documented rejections"""
    obs, im, w, v, u, jj, cen = wild_obs(case)
    guess = GMix(pars=case['guess'])
    f0 = guess.get_full_pars()
    kw = dict(gmix=guess) if case['fwhm'] is None else dict(fwhm=case['fwhm'])
    opts = dict(maxiter=case['maxiter'], shiftmax=case['shiftmax'], etol=case['etol'], Ttol=case['Ttol'])
    res = find_cen_admom(obs, ntry=case['ntry'], rng=rng_of(case['seed']), **kw, **opts)
    same(guess.get_full_pars(), f0, 'weight changed')
    ctx.nontrivial(res['flags'] != 0)
    if res['flags'] == 0:
        close(res['cen'], res['pars'][:2], 0, 0, 'cen')
        check(np.all(np.isfinite(res['cen'])), 'cen')
        # the first try that works
    else:
        check(np.all(np.isnan(res['cen'])) and np.shape(res['cen']) == (2,), 'center of a failed search')
    one = AdmomFitter(cenonly=True, **opts).go(obs, guess if case['fwhm'] is None else GMixModel([0, 0, 0, 0, fwhm_to_T(case['fwhm']), 1.0], 'gauss'))
    if one['flags'] == 0 or case['ntry'] == 1:
        d = dict(res)
        d.pop('cen')
        same_result(d, dict(one), 'first try')
    same_result(find_cen_admom(obs, ntry=case['ntry'], rng=rng_of(case['seed']), **kw, **opts), res, 'reproducible')
    if case['bad'] == 'nothing':
        raises(ValueError, find_cen_admom, obs, _msg='no weight function')
    elif case['bad'] == 'norng':
        raises(ValueError, find_cen_admom, obs, ntry=2, _msg='tries without rng', **kw)
    elif case['bad'] == 'list':
        ol = ngmix.ObsList()
        ol.append(obs)
        for o in (ol, im, None):
            raises(ValueError, AdmomFitter().go, o, guess, _msg='not an observation')
