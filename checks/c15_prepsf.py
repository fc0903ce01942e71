"""C15: pre-PSF moments"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jdet, jmat, vu, weights, wspec, ref_eval, pick)
import galsim
import ngmix
from ngmix import prepsfmom
from ngmix.prepsfmom import KSigmaMom, PGaussMom, PrePSFMom, PrePSFGaussMom
from ngmix.gexceptions import FFTRangeError
from ngmix.gmix import GMixModel
from ngmix.moments import make_mom_result

ORACLE = ('the definitional Fourier sums recomputed with numpy from the padded, apodised image and PSF, closed-form (or quadrature) moments of '
          'gaussians, and relations between runs (linearity, shifts of the PSF image, padding, caches on or off, earlier calls)')
R = Registry()
S2F = 2 * math.sqrt(2 * math.log(2))


def warmup():
    j = ngmix.DiagonalJacobian(scale=0.3, row=8, col=8)
    gm = GMixModel([0, 0, 0, 0, 1, 1.0], 'gauss')
    im = gm.make_image((17, 17), jacobian=j)
    o = ngmix.Observation(im, weight=np.ones(im.shape), jacobian=j, psf=ngmix.Observation(im.copy(), jacobian=j))
    for cls in (KSigmaMom, PGaussMom):
        for sm in (0, 0.5):
            cls(2.0, fwhm_smooth=sm).go(o)
            cls(2.0, fwhm_smooth=sm).go(o, no_psf=True)
    caches_off()


def caches_off():
    prepsfmom.turn_off_fft_caching()
    prepsfmom.turn_off_kernel_caching()


def fitter_of(kernel, fwhm, pad, ap, sm):
    cls = {'ksigma': KSigmaMom, 'pgauss': PGaussMom}[kernel]
    kw = dict(pad_factor=pad, ap_rad=ap, fwhm_smooth=sm)
    return cls(fwhm, **kw)


# ----------------------------------------------------------------- reference

def ref_kernels(kernel, fwhm, sm, dim, M):
    """flux, T, plus, cross kernels on the full fft grid, and the norm of the flux kernel"""
    f = 2 * math.pi * np.fft.fftfreq(dim)
    kr, kc = np.meshgrid(f, f, indexing='ij')
    # x = M (row, col), so that k.x is kept by k' = M^-T k
    A = np.linalg.inv(M).T
    kv, ku = A[0, 0] * kr + A[0, 1] * kc, A[1, 0] * kr + A[1, 1] * kc
    k2 = kv**2 + ku**2
    s2 = (fwhm / S2F)**2
    if kernel == 'ksigma':
        x = k2 * s2 / 8
        inside = x < 1
        W = np.where(inside, (1 - x)**4, 0)
        W1 = np.where(inside, -4 * (1 - x)**3, 0) * s2 / 8
        W2 = np.where(inside, 12 * (1 - x)**2, 0) * (s2 / 8)**2
        peak = 4 / (s2 * 10 * math.pi)
    else:
        inside = s2 * k2 < 25
        W = np.where(inside, np.exp(-s2 * k2 / 2), 0)
        W1 = -s2 / 2 * W
        W2 = s2**2 / 4 * W
        peak = 1 / (2 * math.pi * s2)
    n = 1 / abs(np.linalg.det(M)) / peak
    sm_ = np.exp(-k2 * (sm / S2F)**2 / 2) if sm > 0 else np.ones_like(k2)
    uu, vv, uv = -(2 * W1 + 4 * ku**2 * W2), -(2 * W1 + 4 * kv**2 * W2), -4 * ku * kv * W2
    norm = n * W.sum() / dim**2
    return dict(f=n * W * sm_, r=n * sm_ * (uu + vv), p=n * sm_ * (uu - vv), c=n * sm_ * 2 * uv), norm, (kr, kc), inside


def ap_mask(n, ap):
    if not ap > 0:
        return np.ones((n, n))
    rng_ = int(6 * ap + 0.5)
    x = np.arange(n, dtype='f8')
    t = np.clip(((x - rng_) / ap + 3) / 3, -1, 1)
    # integral of the triweight kernel
    c = 0.5 + 35.0 / 32 * (t - t**3 + 3 * t**5 / 5 - t**7 / 7)
    c[x > rng_] = 1
    one = c * c[::-1]
    return np.outer(one, one)


def pad(im, dim):
    b = (dim - im.shape[0]) // 2
    out = np.zeros((dim, dim))
    out[b:b + im.shape[0], b:b + im.shape[1]] = im
    return out, b


def ref_sums(case, im, w, cen, psf, pcen, no_psf):
    n = im.shape[0]
    big = n if no_psf else max(n, psf.shape[0])
    dim = int(big * case['pad'])
    K, norm, (kr, kc), inside = ref_kernels(case['kernel'], case['fwhm'], case['sm'], dim, jmat(case['j']))
    p, b = pad(im * ap_mask(n, case['ap']), dim)
    kim = np.fft.fft2(p) * np.exp(1j * (kr * (cen[0] + b) + kc * (cen[1] + b)))
    if no_psf:
        kp = np.sinc(kr / 2 / np.pi) * np.sinc(kc / 2 / np.pi) + 0j
    else:
        q, b = pad(psf, dim)
        kp = np.fft.fft2(q) * np.exp(1j * (kr * (pcen[0] + b) + kc * (pcen[1] + b)))
    low = np.abs(kp[inside]).min() / np.abs(kp[0, 0]) if inside.any() else 0.0
    d = np.where(inside, kim / np.where(inside, kp, 1), 0)
    ks = [K['p'], K['c'], K['r'], K['f']]
    sums = np.array([(d * k).real.sum() for k in ks]) / dim**2
    # the size of the kernels before they cancel
    k2 = None
    mags = []
    env = np.abs(K['r']) + np.hypot(K['p'], K['c'])
    for k in (env, env, env, np.abs(K['f'])):
        mags.append((np.abs(d) * k).sum() / dim**2)
    tot = (1 / w[w > 0]).sum()
    ap = np.abs(np.where(inside, 1 / np.where(inside, kp, 1), 0))
    cov = np.array([[(ka * kb * ap**2).sum() for kb in ks] for ka in ks]) * tot * (dim / n)**2 / dim**4
    cm = np.sqrt(np.array([(e**2 * ap**2).sum() for e in (env, env, env, K['f'])]) * tot) * (dim / n) / dim**2
    return sums, cov, np.array(mags), cm, norm, low, K


_case = dict(n=pick((9, ints(6, 26)), (1, ints(27, 64))), pn=pick((9, ints(5, 26)), (1, ints(27, 64))), j=jac(0.15, 1.0, 0.25), off=st.tuples(fl(-2, 2), fl(-2, 2)), poff=st.tuples(fl(-1, 1), fl(-1, 1)),
             kernel=st.sampled_from(['ksigma', 'pgauss']), rf=logfl(2.5, 8.0), pad=pick((2, st.sampled_from([4, 3, 5, 2])), (1, fl(1.5, 4.5))), ap=pick((1, st.just(0)), (1, st.just(1.5)), (1, fl(0.3, 2.5))),
             rsm=pick((1, st.just(0.0)), (1, fl(0.3, 3.0))), seed=seeds, w=wspec(), psig=fl(0.4, 0.9), noise=fl(0, 1), no_psf=pick((3, st.just(False)), (1, st.just(True))),
             cache=ints(0, 3))


def pixscale(j):
    return math.sqrt(abs(jdet(j)))


def make(case):
    r = rng_of(case['seed'])
    s = pixscale(case['j'])
    case['fwhm'], case['sm'] = case['rf'] * s, case['rsm'] * s
    n, pn = case['n'], case['pn']
    cen = np.array([(n - 1) / 2 + case['off'][0], (n - 1) / 2 + case['off'][1]])
    pcen = np.array([(pn - 1) / 2 + case['poff'][0], (pn - 1) / 2 + case['poff'][1]])
    w = weights((n, n), case['w'])
    if not np.any(w > 0):
        w[r.randint(n), r.randint(n)] = case['w']['amp']
    rr, cc = np.mgrid[0:n, 0:n].astype('f8')
    im = np.exp(-((rr - cen[0] - 0.3)**2 + 0.6 * (cc - cen[1])**2 + 0.3 * (rr - cen[0]) * (cc - cen[1])) / 8)
    im = im + case['noise'] * 0.3 * r.normal(size=(n, n))
    rr, cc = np.mgrid[0:pn, 0:pn].astype('f8')
    psf = np.exp(-((rr - pcen[0])**2 + 1.2 * (cc - pcen[1])**2) / (2 * case['psig']**2)) + 1e-4 * r.normal(size=(pn, pn))
    psf *= r.uniform(0.3, 2)
    jj, pj = make_jac(case['j'], *cen), make_jac(case['j'], *pcen)
    if case['no_psf']:
        obs = ngmix.Observation(im, weight=w, jacobian=jj)
    else:
        obs = ngmix.Observation(im, weight=w, jacobian=jj, psf=ngmix.Observation(psf, jacobian=pj))
    return obs, im, w, cen, psf, pcen, jj, pj


def set_cache(k):
    caches_off()
    if k & 1:
        prepsfmom.turn_on_fft_caching()
    if k & 2:
        prepsfmom.turn_on_kernel_caching()


def measure(case, obs, **kw):
    return fitter_of(case['kernel'], case['fwhm'], case['pad'], case['ap'], case['sm']).go(obs, no_psf=case['no_psf'], **kw)


@R.law(st.fixed_dictionaries(_case), quick=1500, rule='measured (kernel fits), transform not diagonal')
def definition(case, ctx):
    """sums and covariance against the definitional Fourier sums; inputs unchanged; kernels too large rejected"""
    obs, im, w, cen, psf, pcen, jj, pj = make(case)
    s, c, mags, cm, norm, low, K = ref_sums(case, im, w, cen, psf, pcen, case['no_psf'])
    set_cache(case['cache'])
    im0, w0, psf0 = im.copy(), w.copy(), psf.copy()
    if abs(norm - 1) > 1e-3:
        raises(FFTRangeError, measure, case, obs, _msg='kernel norm %g accepted' % norm)
        ctx.label('range')
        return
    try:
        res = measure(case, obs, return_kernels=True)
    except FFTRangeError:
        check(abs(norm - 1) > 1e-7, 'kernel of norm %r rejected', norm)
        ctx.label('range')
        return
    finally:
        caches_off()
    if low < 2e-5:
        ctx.label('psf floor')
        return
    ctx.nontrivial(abs(case['j']['dvdcol']) > 1e-6)
    ctx.label(case['kernel'])
    same(obs.image, im0, 'image changed')
    same(obs.weight, w0, 'weight changed')
    if not case['no_psf']:
        same(obs.psf.image, psf0, 'psf image changed')
    # fast exponential
    tol = 2e-9 if case['kernel'] == 'ksigma' and case['sm'] == 0 else 1.2e-3
    check(np.all(np.abs(res['sums'][2:6] - s) <= tol * mags), 'sums %r vs %r (sizes %r)', res['sums'], s, mags)
    check(res['sums'].shape == (6,) and np.all(np.isnan(res['sums'][:2])), 'first moments are not measured')
    check(res['sums_cov'].shape == (6, 6), 'cov shape')
    check(np.all(np.abs(res['sums_cov'][2:, 2:] - c) <= 2 * tol * np.outer(cm, cm)), 'covariance %r vs %r', res['sums_cov'][2:, 2:], c)
    same(res['sums_cov'], res['sums_cov'].T, 'symmetric covariance')
    # derived values
    b = make_mom_result(res['sums'].copy(), res['sums_cov'].copy())
    for k in ('flags', 'flux', 'flux_err', 'T', 'T_err', 'e1', 'e2', 'e', 'e_err', 's2n'):
        same(res[k], b[k], k)
    close(res['flux'], res['sums'][5], 1e-12, 0, 'flux')
    kk = res['kernels']
    for a, k in (('fkf', 'f'), ('fkr', 'r'), ('fkp', 'p'), ('fkc', 'c')):
        env = np.abs(K['f']) if k == 'f' else np.abs(K['r']) + np.hypot(K['p'], K['c'])
        check(kk[a].shape == K[k].shape, 'kernel shape')
        check(np.all(np.abs(kk[a] - K[k]) <= tol * env + 1e-5 * tol * env.max()), 'kernel ' + a)


def gauss_moments(case, C, flux, c0):
    """flux, T, plus, cross moments about the origin of a gaussian at c0 (v, u) under the (real-space) kernel, in (v, u)"""
    s2 = (case['fwhm'] / S2F)**2
    C = C + np.eye(2) * (case['sm'] / S2F)**2
    if case['kernel'] == 'pgauss':
        P = np.linalg.inv(np.linalg.inv(C) + np.eye(2) / s2)
        m = P.dot(np.linalg.solve(C, c0))
        S = C + np.eye(2) * s2
        f = flux * s2 / math.sqrt(np.linalg.det(S)) * math.exp(-0.5 * c0.dot(np.linalg.solve(S, c0)))
        X = P + np.outer(m, m)
        return np.array([f * (X[1, 1] - X[0, 0]), f * 2 * X[0, 1], f * (X[0, 0] + X[1, 1]), f])
    # quadrature over the disk of the kernel in k
    kmax = math.sqrt(8 / s2)
    x, wx = np.polynomial.legendre.leggauss(60)
    t = (x + 1) / 2
    nth = 120
    th = 2 * math.pi * np.arange(nth) / nth
    k, T_ = np.meshgrid(kmax * t, th, indexing='ij')
    wq = np.outer(wx / 2 * kmax, np.full(nth, 2 * math.pi / nth)) * k
    kv, ku = k * np.sin(T_), k * np.cos(T_)
    F = flux * np.exp(-0.5 * (C[0, 0] * kv**2 + 2 * C[0, 1] * kv * ku + C[1, 1] * ku**2) - 1j * (kv * c0[0] + ku * c0[1]))
    y = 1 - k**2 / kmax**2
    W, W1, W2 = y**4, -4 * y**3 / kmax**2, 12 * y**2 / kmax**4
    peak = 4 / (s2 * 10 * math.pi) * 4 * math.pi**2
    uu, vv, uv = -(2 * W1 + 4 * ku**2 * W2), -(2 * W1 + 4 * kv**2 * W2), -4 * ku * kv * W2
    return np.array([(F.real * g * wq).sum() / peak for g in (uu - vv, 2 * uv, uu + vv, W)])


@R.law(st.fixed_dictionaries(dict(
    j=jac(0.2, 0.5, 0.15), kernel=st.sampled_from(['ksigma', 'pgauss']), T=fl(6.0, 25.0), g=disk(0.4), pT=fl(2.5, 8.0), pg=disk(0.2), rf=fl(4.0, 9.0), rsm=pick((1, st.just(0.0)), (1, fl(0.5, 5.0))),
    flux=logfl(0.1, 100), off=st.tuples(fl(-1, 1), fl(-1, 1)), poff=st.tuples(fl(-1, 1), fl(-1, 1)), cen=st.tuples(fl(-2, 2), fl(-2, 2)), no_psf=pick((2, st.just(False)), (1, st.just(True))),
    cache=ints(0, 3), pflux=logfl(0.5, 2.0), pn=st.sampled_from([31, 36, 45, 70]))), quick=220, rule='elliptical object, transform not diagonal')
def analytic(case, ctx):
    """a gaussian seen through a gaussian PSF (or the pixel): moments of the gaussian before the PSF"""
    s = pixscale(case['j'])
    g1, g2 = case['g']
    ctx.nontrivial(math.hypot(g1, g2) > 0.03 and abs(case['j']['dvdcol']) > 1e-6)
    case = dict(case, fwhm=case['rf'] * s, sm=case['rsm'] * s, pad=4, ap=1.5)
    n = 63
    cen = np.array([(n - 1) / 2 + case['off'][0], (n - 1) / 2 + case['off'][1]])
    pn = case['pn']
    pcen = np.array([(pn - 1) / 2 + case['poff'][0], (pn - 1) / 2 + case['poff'][1]])
    jj, pj = make_jac(case['j'], *cen), make_jac(case['j'], *pcen)
    c0 = np.array(case['cen']) * s
    T = case['T'] * s * s
    gm = GMixModel([c0[0], c0[1], g1, g2, T, case['flux']], 'gauss')
    f = gm.get_full_pars()
    C = np.array([[f[3], f[4]], [f[4], f[5]]])
    area = abs(jdet(case['j']))
    v, u = vu((n, n), case['j'], *cen)
    w = np.full((n, n), 50.0 / case['flux']**2)
    if case['no_psf']:
        e1, e2 = (f[5] - f[3]) / T, 2 * f[4] / T
        S = np.linalg.cholesky(C)
        im = pixel_average(f, case['j'], n, cen) * area
        obs = ngmix.Observation(im, weight=w, jacobian=jj)
    else:
        pg = GMixModel([0, 0, case['pg'][0], case['pg'][1], case['pT'] * s * s, 1.0], 'gauss').get_full_pars()
        full = f.copy()
        full[3:] += pg[3:]
        im = ref_eval(full, v, u) * area
        pv, pu = vu((pn, pn), case['j'], *pcen)
        psf = ref_eval(pg, pv, pu) * area
        obs = ngmix.Observation(im, weight=w, jacobian=jj, psf=ngmix.Observation(psf, jacobian=pj))
    set_cache(case['cache'])
    try:
        res = measure(case, obs)
    finally:
        caches_off()
    ref = gauss_moments(case, C, case['flux'], c0)
    tol = 2e-3 * np.array([ref[2], ref[2], ref[2], ref[3]])
    check(np.all(np.abs(res['sums'][2:] - ref) <= np.abs(tol)), 'sums %r vs %r', res['sums'][2:], ref)
    check(res['flags'] == 0, 'flags %s', res['flagstr'])
    close(res['flux'], ref[3], 2e-3, 0, 'flux')
    close(res['T'], ref[2] / ref[3], 4e-3, 0, 'T')
    close([res['e1'], res['e2']], ref[:2] / ref[2], 0, 4e-3, 'e')
    # a PSF of other normalisation gives the flux in its units
    if not case['no_psf']:
        o2 = ngmix.Observation(im, weight=w, jacobian=jj, psf=ngmix.Observation(psf * case['pflux'], jacobian=pj))
        b = measure(case, o2)
        close(b['flux'] * case['pflux'], res['flux'], 1e-10, 0, 'psf normalisation')
        close([b['T'], b['e1'], b['e2'], b['s2n']], [res['T'], res['e1'], res['e2'], res['s2n']], 1e-9, 1e-10, 'psf normalisation')


def pixel_average(f, j, n, cen):
    """gaussian averaged over each pixel: gauss-legendre in the pixel"""
    x, wx = np.polynomial.legendre.leggauss(6)
    out = np.zeros((n, n))
    rr, cc = np.mgrid[0:n, 0:n].astype('f8')
    for a, wa in zip(x / 2, wx / 2):
        for b, wb in zip(x / 2, wx / 2):
            dr, dc = rr + a - cen[0], cc + b - cen[1]
            out += wa * wb * ref_eval(f, j['dvdrow'] * dr + j['dvdcol'] * dc, j['dudrow'] * dr + j['dudcol'] * dc)
    return out


@R.law(st.fixed_dictionaries(dict(_case, a=fl(-3, 3), b=fl(-3, 3), seed2=seeds, wfac=logfl(0.1, 10), shift=st.tuples(ints(-3, 3), ints(-3, 3)), grow=ints(1, 6), pow=ints(-5, 5))),
       quick=800, rule='measured with a PSF image')
def relations(case, ctx):
    """linear in the image, errors from the weight, free of PSF stamp position and size"""
    caches_off()
    obs, im, w, cen, psf, pcen, jj, pj = make(case)
    try:
        res = measure(case, obs)
    except FFTRangeError:
        return
    ctx.nontrivial(not case['no_psf'])
    r = rng_of(case['seed2'])
    im2 = r.normal(size=im.shape)

    def run(im_, w_=w, psf_=psf, pcen_=pcen, **kw):
        p = None if case['no_psf'] else ngmix.Observation(psf_, jacobian=make_jac(case['j'], *pcen_))
        return measure(dict(case, **kw), ngmix.Observation(im_, weight=w_, jacobian=jj, psf=p))
    s1, s2 = res['sums'][2:], run(im2)['sums'][2:]
    c = np.sqrt(np.diagonal(res['sums_cov'])[2:] / (1 / w[w > 0]).sum())     # size of the kernel
    c[:3] = c[2]
    size = c * (np.abs(case['a']) * np.sqrt((im**2).sum()) + np.abs(case['b']) * np.sqrt((im2**2).sum()))
    b = run(case['a'] * im + case['b'] * im2)
    check(np.all(np.abs(b['sums'][2:] - (case['a'] * s1 + case['b'] * s2)) <= 1e-9 * size * im.shape[0] + 1e-300), 'linear')
    check(np.all(np.abs(b['sums_cov'] - res['sums_cov']) <= 1e-12 * np.abs(res['sums_cov'])), 'covariance does not depend on the image')
    f = 2.0**case['pow']
    b = run(im * f, w / f**2)
    for k in ('T', 'T_err', 'e1', 'e2', 's2n'):
        close(b[k], res[k], 1e-9, 0, k + ' with amplitude')
    close([b['flux'], b['flux_err']], [res['flux'] * f, res['flux_err'] * f], 1e-9, 0, 'flux with amplitude')
    check(b['flags'] == res['flags'], 'flags with amplitude')
    b = run(im, w * case['wfac'])
    same(b['sums'], res['sums'], 'sums do not depend on the weight')
    close(b['sums_cov'][2:, 2:], res['sums_cov'][2:, 2:] / case['wfac'], 1e-9, 1e-14 * np.abs(res['sums_cov'][2:, 2:]).max(), 'covariance with weight')
    if case['no_psf']:
        return
    # the psf stamp moved with its center, in a larger frame
    g = case['grow']
    big = np.zeros((psf.shape[0] + 2 * g,) * 2)
    sr, sc = [max(-g, min(g, x)) for x in case['shift']]
    big[g + sr:g + sr + psf.shape[0], g + sc:g + sc + psf.shape[0]] = psf
    if big.shape[0] <= im.shape[0]:
        ctx.label('psf moved')
        b = run(im, psf_=big, pcen_=pcen + [g + sr, g + sc])
        check(np.all(np.abs(b['sums'][2:] - s1) <= 1e-9 * c * np.sqrt((im**2).sum()) * im.shape[0]), 'psf stamp moved with its center')
        close(b['sums_cov'][2:, 2:], res['sums_cov'][2:, 2:], 1e-9, 1e-12 * np.abs(res['sums_cov'][2:, 2:]).max(), 'psf stamp moved with its center')


_op = st.tuples(ints(0, 3), st.sampled_from([0, 0, 0, 1, 2]), st.sampled_from(['ksigma', 'pgauss']), ints(0, 1), st.sampled_from(['go', 'go', 'go', 'fon', 'kon', 'go', 'foff', 'koff', 'kernels', 'mutate']))


@R.law(st.fixed_dictionaries(dict(_case, ops=st.lists(_op, min_size=8, max_size=30), seed2=seeds)), quick=400, rule='a measurement repeated with a cache on')
def history(case, ctx):
    """sequences of measurements with the caches switched: each equals a fresh measurement without caches"""
    caches_off()
    case['no_psf'] = False
    obs0, im, w, cen, psf, pcen, jj, pj = make(case)
    r = rng_of(case['seed2'])
    # four observations that share parts
    ims = [im, im + 0.1 * r.normal(size=im.shape)]
    pcens = [pcen, pcen + 0.3]
    obss = []
    for k in range(4):
        c_ = cen + (0.4 if k & 2 else 0)
        obss.append([ims[k & 1].copy(), c_, psf.copy(), pcens[(k >> 1) & 1]])
    fw = [case['fwhm'], case['fwhm'] * 1.1, case['fwhm']]
    sms = [case['sm'], case['sm'], case['sm'] + 0.1 * pixscale(case['j'])]

    def ob(k):
        i, c_, p, pc = obss[k]
        return ngmix.Observation(i.copy(), weight=w.copy(), jacobian=make_jac(case['j'], *c_), psf=ngmix.Observation(p.copy(), jacobian=make_jac(case['j'], *pc)))
    on = [False, False]
    seen = set()
    fitters = {}
    live = {k: ob(k) for k in range(4)}
    try:
        for k, s_, kern, ap, op in case['ops']:
            if op in ('fon', 'foff', 'kon', 'koff'):
                getattr(prepsfmom, {'fon': 'turn_on_fft_caching', 'foff': 'turn_off_fft_caching', 'kon': 'turn_on_kernel_caching', 'koff': 'turn_off_kernel_caching'}[op])()
                on[op[0] == 'k'] = op.endswith('on')
                continue
            if op == 'mutate':
                # new pixel values in the same observation
                obss[k][0] = obss[k][0] + 0.05 * r.normal(size=im.shape)
                live[k].image = obss[k][0].copy()
                continue
            key = (s_, kern, ap)
            if key not in fitters:
                fitters[key] = fitter_of(kern, fw[s_], case['pad'], case['ap'] if ap else 0, sms[s_])
            kw = dict(return_kernels=True) if op == 'kernels' else {}
            try:
                res = fitters[key].go(live[k], **kw)
            except FFTRangeError:
                res = None
            if (k, key) in seen and any(on):
                ctx.nontrivial()
            seen.add((k, key))
            # reference: caches bypassed
            a, b = prepsfmom.USE_FFT_CACHE, prepsfmom.USE_KERNEL_CACHE
            check((a, b) == tuple(on), 'cache switches')
            prepsfmom.USE_FFT_CACHE = prepsfmom.USE_KERNEL_CACHE = False
            try:
                ref = fitter_of(kern, fw[s_], case['pad'], case['ap'] if ap else 0, sms[s_]).go(ob(k))
            except FFTRangeError:
                ref = None
            finally:
                prepsfmom.USE_FFT_CACHE, prepsfmom.USE_KERNEL_CACHE = a, b
            check((res is None) == (ref is None), 'kernel rejected only with caching')
            if res is None:
                continue
            for nm in ('sums', 'sums_cov', 'flux', 'T', 'e1', 'e2', 'flags'):
                same(np.asarray(res[nm]), np.asarray(ref[nm]), '%s depends on caching or on earlier calls' % nm)
            # what is returned belongs to the caller
            res['sums'] *= 0
            res['sums_cov'] *= 0
            if op == 'kernels':
                for q in ('fkf', 'fkr', 'fkp', 'fkc'):
                    res['kernels'][q] *= 2
    finally:
        caches_off()


@R.law(st.fixed_dictionaries(dict(_case, dim=st.tuples(ints(5, 20), ints(5, 20)), kname=st.sampled_from(['ksig', 'gaussian', '', 'KSIGMA', None]), dj=st.sampled_from(['dvdrow', 'dvdcol', 'dudrow', 'dudcol', 'rotated', 'flipped']), eps=logfl(1e-6, 0.1))),
       quick=300, rule='non-square image')
def rejected(case, ctx):
    """unsuitable inputs are rejected with the documented errors; names of the same kernel agree"""
    caches_off()
    obs, im, w, cen, psf, pcen, jj, pj = make(case)
    f = fitter_of(case['kernel'], case['fwhm'], case['pad'], case['ap'], case['sm'])
    ol = ngmix.ObsList()
    ol.append(obs)
    for o in (ol, im, None):
        raises(ValueError, f.go, o, _msg='not an observation')
    raises(ValueError, PrePSFMom, case['fwhm'], case['kname'], _msg='kernel name')
    d = case['dim']
    if d[0] != d[1]:
        ctx.nontrivial()
        o = ngmix.Observation(np.ones(d), jacobian=jj, psf=ngmix.Observation(psf, jacobian=pj))
        raises(ValueError, f.go, o, _msg='not square')
        raises(ValueError, f.go, o, no_psf=True, _msg='not square')
    o = ngmix.Observation(im, jacobian=jj)
    raises(RuntimeError, f.go, o, _msg='no psf')
    j2 = dict(case['j'])
    if case['dj'] == 'rotated':
        # the same scale
        cs, sn = math.cos(case['eps']), math.sin(case['eps'])
        for x in ('row', 'col'):
            v_, u_ = j2['dvd' + x], j2['dud' + x]
            j2['dvd' + x], j2['dud' + x] = cs * v_ - sn * u_, sn * v_ + cs * u_
    elif case['dj'] == 'flipped':
        j2['dudrow'], j2['dudcol'] = -j2['dudrow'], -j2['dudcol']
    else:
        j2[case['dj']] += case['eps']
    o = ngmix.Observation(im, jacobian=jj, psf=ngmix.Observation(psf, jacobian=make_jac(j2, *pcen)))
    raises(RuntimeError, f.go, o, _msg='psf transform differs')
    # pgauss and gauss are the same
    if not case['no_psf']:
        try:
            a = PrePSFMom(case['fwhm'], 'gauss', pad_factor=case['pad'], ap_rad=case['ap'], fwhm_smooth=case['sm']).go(obs)
            b = PGaussMom(case['fwhm'], pad_factor=case['pad'], ap_rad=case['ap'], fwhm_smooth=case['sm']).go(obs)
            c = PrePSFGaussMom(case['fwhm'], pad_factor=case['pad'], ap_rad=case['ap'], fwhm_smooth=case['sm']).go(obs)
            same(a['sums'], b['sums'], 'gauss and pgauss')
            same(a['sums'], c['sums'], 'gauss and pgauss')
        except FFTRangeError:
            pass
