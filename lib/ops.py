"""
A library of small pieces of work over the whole package, for the laws that
hold for every operation (storage of inputs, independence of history, copies).

An operation has three steps
    arrays(r, c)       the arrays a caller hands over: dict of numpy arrays
    build(a, c, rng)   the objects made of them: dict
    act(o)             the work: nested dict/list/tuple of arrays and numbers
`r` is a RandomState for the values of the arrays, `c` a dict of drawn
configuration numbers, `rng` the generator handed to the package.
"""
import math
import numpy as np
import ngmix
from ngmix import priors, joint_prior, guessers
from ngmix.gmix import GMix, GMixModel, GMixCM, GMixCoellip

OPS = {}


class Op(object):
    def __init__(self, name, arrays, build, act, iterative, weight):
        self.name, self.arrays, self.build, self.act = name, arrays, build, act
        self.iterative = iterative
        self.weight = weight


def op(name, arrays, iterative=False, weight=2):
    def deco(cls):
        OPS[name] = Op(name, arrays, cls.build, cls.act, iterative, weight)
        return cls
    return deco


# ------------------------------------------------------------------ results

# results that are not the business of the laws
DROP = {'nfev', 'errmsg', 'flagstr'}


def flat(x, pre=''):
    """(name, array) of everything in a result"""
    if isinstance(x, dict):
        out = []
        for k in sorted(x, key=str):
            if k not in DROP:
                out += flat(x[k], '%s.%s' % (pre, k))
        return out
    if isinstance(x, (ngmix.ObsList, ngmix.MultiBandObsList, list, tuple)) and not hasattr(x, 'dtype'):
        if len(x) and all(isinstance(v, (int, float, np.number)) for v in x):
            return [(pre, np.array(x))]
        out = [(pre + '.len', np.array(len(x)))]
        for i, v in enumerate(x):
            out += flat(v, '%s[%d]' % (pre, i))
        return out
    if isinstance(x, ngmix.Observation):
        out = [(pre + '.image', x.image), (pre + '.weight', x.weight), (pre + '.jac', np.array(x.jacobian._data.tolist()).ravel())]
        for nm in ('noise', 'bmask', 'ormask', 'mfrac'):
            if getattr(x, 'has_' + nm)():
                out.append((pre + '.' + nm, np.array(getattr(x, nm))))
        if x.has_gmix():
            out.append((pre + '.gmix', x.gmix.get_full_pars()))
        if x.has_psf():
            out += flat(x.psf, pre + '.psf')
        return out
    if isinstance(x, GMix):
        return [(pre, x.get_full_pars())]
    if isinstance(x, ngmix.Shape):
        return [(pre, np.array([x.g1, x.g2]))]
    if x is None or isinstance(x, (str, bytes)):
        return [(pre, np.array(str(x)))]
    if isinstance(x, (bool, int, float, np.number, np.bool_, np.ndarray)):
        return [(pre, np.array(x))]
    return []


def differ(a, b, rtol, scale=None):
    """first difference of two flattened results, or None"""
    if [n for n, _ in a] != [n for n, _ in b]:
        na, nb = [n for n, _ in a], [n for n, _ in b]
        return 'entries %s' % sorted(set(na) ^ set(nb))[:6]
    for (n, x), (_, y) in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return '%s: shapes %s %s' % (n, x.shape, y.shape)
        if x.dtype.kind in 'SU' or y.dtype.kind in 'SU' or x.dtype.names:
            if not np.array_equal(x, y):
                return '%s: %r %r' % (n, x, y)
            continue
        if x.size == 0:
            continue
        x, y = x.astype('f8'), y.astype('f8')
        same = (x == y) | (np.isnan(x) & np.isnan(y))
        if np.all(same):
            continue
        if rtol == 0:
            k = np.argmax(~same.ravel())
            return '%s: %r %r' % (n, x.ravel()[k], y.ravel()[k])
        with np.errstate(all='ignore'):
            f = np.isfinite(x) & np.isfinite(y)
            if not np.all(f | same):
                return '%s: %r %r' % (n, x[~(f | same)][:3], y[~(f | same)][:3])
            big = np.abs(x[f]).max() if f.any() else 0.0
            bad = np.abs(x - y) > rtol * max(big, 1e-300)
        if np.any(bad & ~same):
            k = np.argmax((bad & ~same).ravel())
            return '%s: %r %r' % (n, x.ravel()[k], y.ravel()[k])
    return None


def keep(o, res):
    """remember a result object"""
    o.setdefault('_res', []).append(res)
    return res


def ksp(res):
    return isinstance(res, ngmix.fitting.galsim_results.GalsimFitModel)


def given(res):
    """the mixtures and images a result hands out"""
    if res.get('flags', 1) != 0 or ksp(res):
        return []
    return [getattr(res, nm)() for nm in ('get_gmix', 'make_image', 'get_convolved_gmix') if hasattr(res, nm)]


def use(res):
    """what a result object holds and can do"""
    out = [dict((k, v) for k, v in res.items() if k != 'pars_cov0')]
    if res.get('flags', 1) == 0:
        out += [x for x in given(res)]
        if hasattr(res, 'calc_fdiff'):
            out.append(res.calc_fdiff(np.array(res['pars']) * 1.01))
        if hasattr(res, 'calc_lnprob') and 'lnprob' in res and not ksp(res):
            out.append(res.calc_lnprob(np.array(res['pars']) * 1.01))
    return flat(out)


# ------------------------------------------------------------------ parts

def f4(x):
    return np.array(x, dtype='f4').astype('f8')


def _stamp(r, c, square=True, psf=True, name=''):
    """image of an object seen through a PSF, and what comes with it"""
    n = 15 + 2 * (c['n'] % 4)
    shape = (n, n) if square else (n, n + 1 + c['n'] % 3)
    s = c['scale']
    m = s * np.array([[1.0, 0.04], [-0.02, 0.97]])
    row, col = (shape[0] - 1) / 2 + r.uniform(-0.3, 0.3), (shape[1] - 1) / 2 + r.uniform(-0.3, 0.3)
    a = {}
    P = GMix(pars=[0.75, 0, 0, 0.9 * s * s, 0.02 * s * s, 1.0 * s * s, 0.25, 0, 0, 2.2 * s * s, 0, 2.0 * s * s])
    G = GMixModel([0.2 * s, -0.1 * s, r.uniform(-0.2, 0.2), r.uniform(-0.2, 0.2), 5 * s * s, 20.0], 'exp').convolve(P)
    j = ngmix.Jacobian(row=row, col=col, dvdrow=m[0, 0], dvdcol=m[0, 1], dudrow=m[1, 0], dudcol=m[1, 1])
    sig = 0.02 * r.uniform(0.5, 2)
    amp = 256.0 if c['integral'] else 1.0
    im = amp * (G.make_image(shape, jacobian=j) + sig * r.normal(size=shape))
    wt = np.full(shape, 1.0 / (amp * sig)**2) * r.choice([1.0, 2.0], size=shape)
    if c['integral']:
        im, wt = np.round(im), np.maximum(np.round(wt), 1.0)
    wt[r.randint(shape[0]), r.randint(shape[1])] = 0.0
    a[name + 'image'], a[name + 'weight'] = f4(im), f4(wt)
    a[name + 'noise'] = f4(np.round(3 * r.normal(size=shape)) if c['integral'] else amp * sig * r.normal(size=shape))
    a[name + 'bmask'] = (r.uniform(size=shape) < 0.05).astype('i4')
    a[name + 'jac'] = f4([row, col, m[0, 0], m[0, 1], m[1, 0], m[1, 1]])
    if psf:
        pj = ngmix.Jacobian(row=8.1, col=7.9, dvdrow=m[0, 0], dvdcol=m[0, 1], dudrow=m[1, 0], dudcol=m[1, 1])
        p = amp * P.make_image((17, 17), jacobian=pj)
        a[name + 'psf'] = f4(np.round(100 * p) if c['integral'] else p)
        a[name + 'pcen'] = f4([8.1, 7.9])
        a[name + 'pgmix'] = f4([0.75, 0, 0, 0.9 * s * s, 0, 1.0 * s * s, 0.25, 0, 0, 2.2 * s * s, 0, 2.0 * s * s])
    return a


def _jac(v, cen=None):
    row, col = (v[0], v[1]) if cen is None else cen
    return ngmix.Jacobian(row=row, col=col, dvdrow=v[2], dvdcol=v[3], dudrow=v[4], dudcol=v[5])


def _obs(a, name='', gmix=True, extra=True, meta=None):
    j = _jac(a[name + 'jac'])
    kw = {}
    if name + 'psf' in a:
        p = a[name + 'psf']
        kw['psf'] = ngmix.Observation(p, weight=np.full(np.shape(p), 1e4), jacobian=_jac(a[name + 'jac'], a[name + 'pcen']),
                                      gmix=GMix(pars=a[name + 'pgmix']) if gmix else None)
    if extra:
        kw['noise'], kw['bmask'] = a[name + 'noise'], a[name + 'bmask']
    return ngmix.Observation(a[name + 'image'], weight=a[name + 'weight'], jacobian=j, meta=meta, **kw)


def _prior(rng, nband=1, model='simple', s=0.3):
    cen = priors.CenPrior(0.0, 0.0, s, s, rng=rng)
    g = priors.GPriorBA(0.3, rng=rng)
    T = priors.TwoSidedErf(-1.0, 0.1, 1e3, 1e2, rng=rng)
    F = [priors.TwoSidedErf(-1e2, 1.0, 1e6, 1e5, rng=rng) for _ in range(nband)]
    if model == 'simple':
        return joint_prior.PriorSimpleSep(cen, g, T, F)
    fd = priors.Normal(0.5, 0.1, rng=rng, bounds=[0, 1])
    if model == 'bdf':
        return joint_prior.PriorBDFSep(cen, g, T, fd, F)
    return joint_prior.PriorBDSep(cen, g, T, priors.Normal(0.0, 0.3, rng=rng), fd, F)


def _gal(r, c):
    return dict(gpars=f4([0.1, -0.05, r.uniform(-0.3, 0.3), 0.125, 2.0 + r.uniform(), 16.0 if c['integral'] else 5.0 * r.uniform(1, 3)]))


# ------------------------------------------------------------------ mixtures

@op('render', lambda r, c: dict(_stamp(r, c, square=False, psf=False), **_gal(r, c)))
class _Render:
    @staticmethod
    def build(a, c, rng):
        return dict(gm=GMixModel(a['gpars'], ['exp', 'dev', 'turb', 'gauss'][c['k'] % 4]), j=_jac(a['jac']), c=dict(c))

    @staticmethod
    def act(o):
        fast = bool(o['c']['k'] & 4)
        return dict(im=o['gm'].make_image((13, 17), jacobian=o['j'], fast_exp=fast), im2=o['gm'].make_image((5, 5), fast_exp=fast),
                    jm=np.array(o['j'].get_vu(3.0, 4.0)), full=o['gm'], T=o['gm'].get_T(), e=o['gm'].get_e1e2T())


@op('algebra', lambda r, c: dict(_gal(r, c), full=f4([1.0, 0.5, 0.25, 2.0, 0.5, 3.0, 2.0, -0.5, 0.0, 1.0, -0.25, 1.5]) * (1.0 if c['integral'] else 1 + 0.1 * r.uniform()),
                                  co=f4([0.0, 0.0, 0.125, -0.25, 1.0, 2.0, 3.0, 1.0])))
class _Algebra:
    @staticmethod
    def build(a, c, rng):
        return dict(gm=GMix(pars=a['full']), cm=GMixCM(0.25, 1.5, a['gpars']), co=GMixCoellip(a['co']), m=GMixModel(a['gpars'], 'exp'))

    @staticmethod
    def act(o):
        gm = o['gm']
        out = dict(conv=gm.convolve(o['co']), sh=gm.get_sheared(0.02, -0.01), rnd=gm.make_round(), cm=o['cm'].convolve(gm), cop=o['co'].copy(),
                   e=gm.get_g1g2T(), sig=gm.get_sigma(), cen=gm.get_cen(), flux=gm.get_flux())
        b = gm.copy()
        b.set_flux(3.0)
        b.set_cen(0.1, 0.2)
        out['b'] = b
        out['gap'] = gm.get_gaussap_flux(fwhm=1.3)
        out['gm'] = gm
        d = o['m'].copy()
        d.set_flux(2.0)
        out['d'] = d
        return out


@op('like', lambda r, c: dict(_stamp(r, c, square=False), **_gal(r, c)))
class _Like:
    @staticmethod
    def build(a, c, rng):
        return dict(obs=_obs(a), gm=GMixModel(a['gpars'], 'exp'), c=dict(c))

    @staticmethod
    def act(o):
        obs, gm = o['obs'], o['gm'].convolve(o['obs'].psf.gmix)
        fd = np.zeros(obs.image.size + 3)
        gm.fill_fdiff(obs, fd, start=2)
        return dict(l=gm.get_loglike(obs), more=gm.get_loglike(obs, more=True), fd=fd, s2n=gm.get_model_s2n(obs), wm=gm.get_weighted_moments(obs, maxrad=1e3),
                    pix=np.array([obs.pixels[k].sum() for k in ('u', 'v', 'val', 'ierr')]))


@op('shapes', lambda r, c: dict(g1=f4(r.uniform(-0.6, 0.6, size=7)) * (not c['integral']), g2=f4(r.uniform(-0.6, 0.6, size=7)) * (not c['integral']),
                                T=f4(np.round(r.uniform(1, 9, size=7)) if c['integral'] else r.uniform(0.5, 9, size=7))))
class _Shapes:
    @staticmethod
    def build(a, c, rng):
        return dict(a=dict(a), sh=ngmix.Shape(a['g1'][0], a['g2'][0]))

    @staticmethod
    def act(o):
        from ngmix import shape as S, moments as M
        a = o['a']
        e = S.g1g2_to_e1e2(a['g1'], a['g2'])
        return dict(e=e, g=S.e1e2_to_g1g2(*e), eta=S.g1g2_to_eta1eta2(a['g1'], a['g2']), sr=S.shear_reduced(a['g1'], a['g2'], 0.02, 0.03), rot=S.rotate_shape(a['g1'], a['g2'], 0.3),
                    fw=M.T_to_fwhm(a['T']), sg=M.fwhm_to_sigma(a['T']), r50=M.sigma_to_r50(a['T']), T=M.fwhm_to_T(a['T']), sh=o['sh'].get_sheared(0.1, 0.02), ro=o['sh'].get_rotated(0.2))


@op('ndmix', lambda r, c: dict(w=f4([1.0, 3.0]), m=f4(np.round(r.normal(size=(2, 2)) * 3)), c=f4([[[1.0, 0.0], [0.0, 2.0]], [[2.0, 0.5], [0.5, 1.0]]]) * (2 if c['integral'] else 1), x=f4(np.round(r.normal(size=(6, 2)) * 4))))
class _Nd:
    @staticmethod
    def build(a, c, rng):
        from ngmix.gmix_ndim import GMixND
        return dict(nd=GMixND(a['w'], a['m'], a['c'], rng=rng), x=a['x'])

    @staticmethod
    def act(o):
        nd, x = o['nd'], o['x']
        return dict(p=nd.get_prob_array(x), l=nd.get_lnprob_array(x), s=nd.get_lnprob_scalar(x[0]), c=nd.get_prob_array(x, component=1), sam=nd.sample(5), one=nd.sample())


@op('gaussap', lambda r, c: dict(pars=f4(np.column_stack([np.zeros((4, 2)), np.zeros((4, 2)) if c['integral'] else r.uniform(-0.3, 0.3, size=(4, 2)), np.round(r.uniform(1, 6, size=(4, 3)))])),
                                 mask=np.array([True, True, False, True]), fd=f4(np.zeros(4) if c['integral'] else r.uniform(0, 1, size=4)), rat=f4(np.ones(4))))
class _Gap:
    @staticmethod
    def build(a, c, rng):
        return dict(a=dict(a), c=dict(c))

    @staticmethod
    def act(o):
        from ngmix.gaussap import get_gaussap_flux
        a = o['a']
        return dict(e=get_gaussap_flux(a['pars'], 'exp', 1.5, mask=a['mask'], verbose=False),
                    cm=get_gaussap_flux(a['pars'], 'cm', 1.5, fracdev=a['fd'], TdByTe=a['rat'], verbose=False))


# ------------------------------------------------------------------ observations

@op('views', lambda r, c: _stamp(r, c, square=False))
class _Views:
    @staticmethod
    def build(a, c, rng):
        o = _obs(a, meta=dict(x=1))
        return dict(obs=o, a=dict(a))

    @staticmethod
    def act(o):
        obs, a = o['obs'], o['a']
        b = obs.copy()
        with b.writeable():
            b.image *= 2
            b.weight[0, :] = 0
        b.set_mfrac(np.full(b.image.shape, 0.25))
        ol = ngmix.ObsList()
        ol.append(obs)
        ol.append(b)
        mb = ngmix.observation.get_mb_obs(ol)
        new = obs.copy()
        new.set_image(a['image'])
        new.set_weight(a['weight'])
        new.set_noise(a['noise'])
        new.set_bmask(a['bmask'])
        new.set_ormask(a['bmask'])
        return dict(obs=obs, b=b, s2n=obs.get_s2n(), mbs2n=mb.get_s2n(), new=new, npix=len(obs.pixels), val=obs.pixels['val'].sum(), bval=b.pixels['val'].sum(), copy=mb.copy())


@op('kobs', lambda r, c: _stamp(r, c))
class _Kobs:
    @staticmethod
    def build(a, c, rng):
        return dict(obs=_obs(a, extra=False))

    @staticmethod
    def act(o):
        k = ngmix.observation.make_kobs(o['obs'])[0][0]
        return dict(k=np.array([k.kimage.array.real, k.kimage.array.imag]), w=k.weight.array, p=np.array([k.psf.kimage.array.real, k.psf.kimage.array.imag]))


@op('simulate', lambda r, c: dict(_stamp(r, c, square=False), **_gal(r, c)))
class _Sim:
    @staticmethod
    def build(a, c, rng):
        return dict(obs=_obs(a), gm=GMixModel(a['gpars'], 'exp'), rng=rng)

    @staticmethod
    def act(o):
        s = ngmix.simobs.simulate_obs(o['gm'], o['obs'], rng=o['rng'], add_all=False)
        t = ngmix.simobs.simulate_obs(o['gm'], o['obs'], add_noise=False, convolve_psf=False)
        return dict(s=s, t=t, n=ngmix.simobs.get_noise_image(o['obs'].weight, o['rng']))


# ------------------------------------------------------------------ estimators

@op('gaussmom', lambda r, c: _stamp(r, c, square=False))
class _Gm:
    @staticmethod
    def build(a, c, rng):
        return dict(tool=ngmix.gaussmom.GaussMom(3.0 * c['scale'], with_higher_order=bool(c['k'] & 1)), obs=_obs(a))

    @staticmethod
    def act(o):
        return dict(keep(o, o['tool'].go(o['obs'])))


@op('admom', lambda r, c: _stamp(r, c, square=False), iterative=True)
class _Ad:
    @staticmethod
    def build(a, c, rng):
        s = c['scale']
        return dict(tool=ngmix.admom.AdmomFitter(maxiter=200, rng=rng), obs=_obs(a), guess=6.0 * s * s, gm=GMixModel([0.1 * s, 0, 0.02, 0.0, 6 * s * s, 1.0], 'gauss'))

    @staticmethod
    def act(o):
        res = keep(o, o['tool'].go(o['obs'], o['guess']))
        b = o['tool'].go(o['obs'], o['gm'])
        out = dict(a=dict(res), b=dict(b), g=o['gm'])
        if res['flags'] == 0:
            out['gm'], out['im'] = res.get_gmix(), res.make_image()
        return out


@op('em', lambda r, c: dict(_stamp(r, c, square=False), guess=f4(np.array([0.5, 0.25, 0.0, 3.0, 0.0, 3.0, 0.5, 0.0, -0.25, 6.0, 0.5, 6.0]))), iterative=True)
class _Em:
    @staticmethod
    def build(a, c, rng):
        g = GMix(pars=a['guess'][:6 if c['k'] & 1 else 12])
        obs, sky = ngmix.em.prep_obs(_obs(a, extra=False))
        cls = [ngmix.em.EMFitter, ngmix.em.EMFitterFixCen, ngmix.em.em.EMFitterFixCov, ngmix.em.EMFitterFluxOnly][(c['k'] >> 1) % 4]
        return dict(tool=cls(maxiter=500, tol=1e-3), obs=obs, sky=sky, g=g)

    @staticmethod
    def act(o):
        res = keep(o, o['tool'].go(o['obs'], o['g'], sky=o['sky']))
        out = dict(r=dict(res), g=o['g'], obs=o['obs'])
        if 'numiter' in res:
            out['gm'], out['im'] = res.get_gmix(), res.make_image()
        return out


@op('prepsf', lambda r, c: _stamp(r, c))
class _Pre:
    @staticmethod
    def build(a, c, rng):
        cls = [ngmix.prepsfmom.KSigmaMom, ngmix.prepsfmom.PGaussMom][c['k'] % 2]
        return dict(tool=cls(4.0 * c['scale'], fwhm_smooth=0.5 if c['k'] & 2 else 0), obs=_obs(a), c=dict(c))

    @staticmethod
    def act(o):
        from ngmix import prepsfmom as p
        if o['c']['k'] & 4:
            p.turn_on_fft_caching()
            p.turn_on_kernel_caching()
        try:
            return dict(a=dict(keep(o, o['tool'].go(o['obs']))), b=dict(o['tool'].go(o['obs'], no_psf=True)))
        finally:
            p.turn_off_fft_caching()
            p.turn_off_kernel_caching()


def _two(r, c):
    a = _stamp(r, c, square=False, name='a')
    a.update(_stamp(r, c, square=False, name='b'))
    s = c['scale']
    amp = 256 if c['integral'] else 1
    a['guess'] = f4([0, 0, 0, 0, 4 * s * s, 16.0 * amp, 18.0 * amp])
    return a


def _mb(a, gmix=True):
    mb = ngmix.MultiBandObsList()
    for nm in 'ab':
        ol = ngmix.ObsList()
        ol.append(_obs(a, nm, gmix=gmix, extra=False))
        mb.append(ol)
    return mb


def _fitres(res):
    out = dict(res)
    for k in ('pars_cov0',):
        out.pop(k, None)
    if res['flags'] == 0 and hasattr(res, 'get_gmix') and 'T' in res:
        out['gm'] = [res.get_gmix(band=b) for b in range(2)]
        out['im'] = res.make_image(band=1)
        out['fd'] = res.calc_fdiff(res['pars'])
        out['ln'] = res.calc_lnprob(res['pars'] * 1.01)
    return out


@op('fit', _two, iterative=True)
class _Fit:
    @staticmethod
    def build(a, c, rng):
        p = _prior(rng, 2, s=c['scale']) if c['k'] & 1 else None
        model = ['exp', 'gauss', 'turb'][c['k'] % 3]
        kw = dict(maxfev=600)
        return dict(tool=ngmix.fitting.Fitter(model, prior=p, fit_pars=kw), mb=_mb(a), g=a['guess'], kw=kw)

    @staticmethod
    def act(o):
        res = keep(o, o['tool'].go(o['mb'], o['g']))
        # a second fit does not disturb the first
        r1 = _fitres(res)
        o['tool'].go(o['mb'], np.array(o['g']) * 1.05)
        return [r1, _fitres(res)]


@op('coellip', lambda r, c: dict(_stamp(r, c), guess=f4([0, 0, 0, 0, 4.0 * c['scale']**2, 8.0 * c['scale']**2, 16.0, 8.0])), iterative=True)
class _Co:
    @staticmethod
    def build(a, c, rng):
        kw = dict(maxfev=600)
        return dict(tool=ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=kw), kw=kw, obs=_obs(a), g=a['guess'])

    @staticmethod
    def act(o):
        res = keep(o, o['tool'].go(o['obs'], o['g']))
        out = dict(res)
        out.pop('pars_cov0', None)
        return out


def _gtwo(r, c):
    a = _two(r, c)
    a['guess'][4] = 2 * c['scale']
    return a


@op('galsimfit', _gtwo, iterative=True, weight=1)
class _Gf:
    @staticmethod
    def build(a, c, rng):
        s = c['scale']
        g = a['guess']
        kw = dict(maxfev=150)
        p = joint_prior.PriorGalsimSimpleSep(priors.CenPrior(0.0, 0.0, s, s, rng=rng), priors.GPriorBA(0.3, rng=rng), priors.TwoSidedErf(-1.0, 0.1, 1e3, 1e2, rng=rng),
                                             [priors.TwoSidedErf(-1e2, 1.0, 1e6, 1e5, rng=rng) for _ in range(2)]) if c['k'] & 1 else None
        return dict(tool=ngmix.fitting.GalsimFitter(['exp', 'gauss'][c['k'] % 2], prior=p, fit_pars=kw), mb=_mb(a), g=g, kw=kw)

    @staticmethod
    def act(o):
        res = keep(o, o['tool'].go(o['mb'], o['g']))
        out = dict(res)
        out.pop('pars_cov0', None)
        out['fd'] = res.calc_fdiff(np.array(o['g']))
        return out


@op('psfflux', _two)
class _Pf:
    @staticmethod
    def build(a, c, rng):
        return dict(tool=ngmix.fitting.PSFFluxFitter(normalize_psf=bool(c['k'] & 1)), gt=ngmix.fitting.GalsimPSFFluxFitter(), mb=_mb(a))

    @staticmethod
    def act(o):
        return dict(a=[dict(keep(o, o['tool'].go(ol))) for ol in o['mb']], g=dict(keep(o, o['gt'].go(o['mb'][0]))))


@op('leastsq', lambda r, c: dict(x=f4(np.arange(12)), y=f4(np.round(r.normal(size=12) * 4 + 3 * np.arange(12))), guess=f4([1.0, 2.0])), iterative=True)
class _Ls:
    @staticmethod
    def build(a, c, rng):
        return dict(a=dict(a), b=[(0.5, 8.0), (None, None)] if c['k'] & 1 else None)

    @staticmethod
    def act(o):
        from ngmix.fitting.leastsqbound import run_leastsq
        a = o['a']
        x, y = np.array(a['x'], dtype='f8'), np.array(a['y'], dtype='f8')
        return dict(run_leastsq(lambda p: p[0] * x + p[1] - y, a['guess'], 0, bounds=o['b']))


# ------------------------------------------------------------------ metacal

@op('metacal', lambda r, c: _stamp(r, c), weight=1)
class _Mc:
    @staticmethod
    def build(a, c, rng):
        k = c['k']
        return dict(obs=_obs(a), rng=rng, kw=dict(psf=['gauss', 'dilate', 'fitgauss'][k % 3], use_noise_image=bool(k & 1), fixnoise=bool(k & 2), types=[['noshear', '1p', '2m'], ['noshear', '2p']][k % 2]))

    @staticmethod
    def act(o):
        # the list of types may be completed in place
        kw = dict(o['kw'], types=list(o['kw']['types']))
        return dict(d=ngmix.metacal.get_all_metacal(o['obs'], rng=o['rng'], **kw), obs=o['obs'])


@op('metaboot', lambda r, c: _stamp(r, c), iterative=True, weight=1)
class _Mb:
    @staticmethod
    def build(a, c, rng):
        s = c['scale']
        if c['k'] & 1:
            fit = ngmix.fitting.Fitter('gauss', prior=_prior(rng, 1, s=s), fit_pars=dict(maxfev=600))
            gs = guessers.TPSFFluxAndPriorGuesser(rng=rng, T=4 * s * s, prior=fit.prior)
        else:
            fit, gs = ngmix.gaussmom.GaussMom(4 * s), None
        run = ngmix.runners.Runner(fit, guesser=gs, ntry=2)
        prun = ngmix.runners.PSFRunner(ngmix.fitting.Fitter('gauss', fit_pars=dict(maxfev=600)), guesser=guessers.SimplePSFGuesser(rng=rng), ntry=2)
        return dict(tool=ngmix.metacal.MetacalBootstrapper(run, prun, rng=rng, types=['noshear', '1m'], psf='gauss'), obs=_obs(a, gmix=False))

    @staticmethod
    def act(o):
        try:
            res, obsd = o['tool'].go(o['obs'])
        except ngmix.gexceptions.BootPSFFailure:
            return dict(failed=1)
        return dict(r=dict((k, dict(keep(o, v))) for k, v in res.items()), d=obsd, obs=o['obs'])


@op('boot', _two, iterative=True)
class _Bt:
    @staticmethod
    def build(a, c, rng):
        s = c['scale']
        fit = ngmix.fitting.Fitter('exp', fit_pars=dict(maxfev=600))
        run = ngmix.runners.Runner(fit, guesser=guessers.TPSFFluxGuesser(rng=rng, T=4 * s * s), ntry=2)
        if c['k'] & 1:
            ps = ngmix.runners.PSFRunner(ngmix.em.EMFitter(maxiter=2000, tol=1e-3), guesser=guessers.GMixPSFGuesser(rng=rng, ngauss=2, guess_from_moms=True), ntry=2)
        else:
            ps = ngmix.runners.PSFRunner(ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=dict(maxfev=600)), guesser=guessers.CoellipPSFGuesser(rng=rng, ngauss=2), ntry=2)
        return dict(tool=ngmix.bootstrap.Bootstrapper(run, ps), mb=_mb(a, gmix=False))

    @staticmethod
    def act(o):
        try:
            return _fitres(keep(o, o['tool'].go(o['mb'])))
        except (ngmix.gexceptions.BootPSFFailure, ngmix.gexceptions.PSFFluxFailure):
            return dict(failed=1)
        except ngmix.gexceptions.GMixRangeError:
            return dict(failed=2)


# ------------------------------------------------------------------ random things

@op('priors', lambda r, c: dict(x=f4(np.round(r.uniform(1, 4, size=6)) if c['integral'] else r.uniform(0.6, 3.9, size=6)), g1=f4(r.uniform(-0.5, 0.5, size=6)) * (not c['integral']), g2=f4(r.uniform(-0.5, 0.5, size=6)) * (not c['integral']),
                                data=f4(np.round(r.normal(size=60) * 8))))
class _Pr:
    @staticmethod
    def build(a, c, rng):
        p = priors
        return dict(one=[p.FlatPrior(0.5, 4.0, rng=rng), p.TwoSidedErf(0.7, 0.1, 3.5, 0.2, rng=rng), p.Normal(1.0, 0.5, rng=rng), p.LogNormal(1.5, 0.7, rng=rng, shift=0.25), p.TruncatedGaussian(2.0, 1.0, 0.5, 4.0, rng=rng)],
                    two=[p.GPriorBA(0.3, rng=rng), p.ZDisk2D(1.0, rng=rng)], cen=p.CenPrior(0.1, 0.2, 0.3, 0.4, rng=rng), lm=p.LMBounds(0.0, 2.0, rng=rng), sinh=p.Sinh(1.0, 0.5, rng=rng),
                    kde=p.KDE(a['data'], 0.3, rng) if c['k'] & 1 else None, a=dict(a))

    @staticmethod
    def act(o):
        a = o['a']
        out = []
        for p in o['one']:
            out += [p.get_lnprob_array(a['x']), p.get_lnprob_scalar(a['x'][2]), p.get_fdiff(a['x'][1]), p.sample(3), p.sample()]
        for p in o['two']:
            out += [p.get_prob_array2d(a['g1'], a['g2']), p.get_lnprob_scalar2d(a['g1'][1], a['g2'][1]), p.sample2d(3), p.sample1d(2)]
        out += [o['cen'].sample(2), o['cen'].get_lnprob_array(a['g1'], a['g2']), o['lm'].sample(2), o['sinh'].sample(3)]
        if o['kde'] is not None:
            out.append(o['kde'].sample(4))
        return out


@op('joint', lambda r, c: dict(pars=f4(np.column_stack([np.zeros((3, 2)), np.zeros((3, 2)) if c['integral'] else r.uniform(-0.3, 0.3, size=(3, 2)), np.round(r.uniform(1, 6, size=(3, 4)))]))))
class _Jp:
    @staticmethod
    def build(a, c, rng):
        kind = ['simple', 'bdf', 'bd'][c['k'] % 3]
        return dict(p=_prior(rng, {'simple': 3, 'bdf': 2, 'bd': 1}[kind], kind), pars=a['pars'])

    @staticmethod
    def act(o):
        p = o['p']
        fd = np.zeros(20)
        n = p.fill_fdiff(o['pars'][0], fd)
        return dict(n=n, fd=fd, l=p.get_lnprob_scalar(o['pars'][1]), la=p.get_lnprob_array(o['pars']), s=p.sample(3), s1=p.sample(), b=str(p.bounds))


@op('guess', lambda r, c: dict(_two(r, c), flux=f4([16.0, 32.0]), pars=f4([0, 0, 0.125, 0.25, 4.0, 8.0, 16.0])))
class _Gu:
    @staticmethod
    def build(a, c, rng):
        s = c['scale']
        p = _prior(rng, 2, s=s)
        g = guessers
        return dict(gs=[g.TFluxGuesser(rng=rng, T=4.0, flux=a['flux']), g.TPSFFluxGuesser(rng=rng, T=4.0), g.TFluxAndPriorGuesser(rng=rng, T=4.0, flux=a['flux'], prior=p), g.ParsGuesser(rng=rng, pars=a['pars'], prior=p),
                        g.BDFGuesser(T=4.0, flux=a['flux'], prior=_prior(rng, 2, 'bdf')), g.BDGuesser(T=4.0, flux=a['flux'], prior=_prior(rng, 2, 'bd')), g.R50FluxGuesser(rng=rng, r50=1.0, flux=a['flux']),
                        g.R50NuFluxGuesser(rng=rng, r50=1.0, nu=1.0, flux=a['flux']), g.PriorGuesser(p), g.TPSFFluxAndPriorGuesser(rng=rng, T=4.0, prior=p)],
                    ps=[g.GMixPSFGuesser(rng=rng, ngauss=n, guess_from_moms=bool(n & 1)) for n in (1, 2, 3, 4, 5)] + [g.SimplePSFGuesser(rng=rng), g.CoellipPSFGuesser(rng=rng, ngauss=3)], mb=_mb(a))

    @staticmethod
    def act(o):
        out = []
        for g in o['gs']:
            out += [g(obs=o['mb']), g(obs=o['mb'], nrand=2)]
        for g in o['ps']:
            out.append(g(obs=o['mb'][0][0].psf))
        return out


def config(st, ints, pick, logfl, only=None):
    """strategy of (name, configuration)"""
    return st.tuples(st.sampled_from([n for n in WEIGHTED if only is None or n in only]), st.fixed_dictionaries(dict(n=ints(0, 3), k=ints(0, 23), integral=ints(0, 1), scale=logfl(0.1, 1.0)))).map(_config)


def _config(t):
    name, c = t
    if c['integral']:
        c = dict(c, scale=1.0)
    return [name, c]


# operations that leave result objects
RESULTS = ['gaussmom', 'admom', 'em', 'fit', 'coellip', 'galsimfit', 'psfflux', 'boot', 'prepsf', 'metaboot']
WEIGHTED = [n for n in sorted(OPS) for _ in range(OPS[n].weight)]


def warm():
    """compile what the operations use"""
    for k in range(12):
        for n in sorted(OPS):
            c = dict(n=0, k=k, integral=k % 2, scale=1.0)
            a = OPS[n].arrays(np.random.RandomState(3), c)
            OPS[n].act(OPS[n].build(a, c, np.random.RandomState(1)))
