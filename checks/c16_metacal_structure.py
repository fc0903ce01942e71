"""C16: metacalibration: structure, isolation, reproducibility, noise compensation"""
import copy
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jdet, pick)
import galsim
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.gmix import GMixModel
from ngmix.metacal import get_all_metacal, MetacalBootstrapper, metacal_bootstrap, METACAL_TYPES, METACAL_MINIMAL_TYPES
from ngmix.metacal import metacal as mcmod
from ngmix.simobs import simulate_obs

ORACLE = ('a model of the requested type set and container structure, byte fingerprints of everything handed in, runs repeated with the same seed, '
          'with other type subsets and with the cache switched, and the noise image metacalibrated on its own')
R = Registry()


def warmup():
    o = make_obs(dict(seed=1, n=11, pn=11, j=dict(dvdrow=0.3, dvdcol=0.0, dudrow=0.0, dudcol=0.3), planes=0, w='flat', meta=1, psfg=[0, 0]))
    for p in ('gauss', 'fitgauss', 'dilate'):
        get_all_metacal(o, psf=p, rng=rng_of(1))


def make_obs(c):
    """an observation with the drawn optional planes; the objects are well sampled"""
    r = rng_of(c['seed'])
    n, pn = c['n'], c['pn']
    nr = n if isinstance(n, int) else n[0]
    nc = n if isinstance(n, int) else n[1]
    j = c['j']
    s = np.sqrt(abs(jdet(j)))
    jj = make_jac(j, (nr - 1) / 2 + r.uniform(-0.4, 0.4), (nc - 1) / 2 + r.uniform(-0.4, 0.4))
    pj = make_jac(j, (pn - 1) / 2, (pn - 1) / 2)
    pg = GMixModel([0, 0, c['psfg'][0], c['psfg'][1], 2 * (r.uniform(1.2, 1.5) * s)**2, 1.0], 'gauss')
    gm = GMixModel([0.2 * s, 0.1 * s, r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3), 3 * s**2, 10.0], 'gauss').convolve(pg)
    im = gm.make_image((nr, nc), jacobian=jj) + 0.002 * r.normal(size=(nr, nc))
    pim = pg.make_image((pn, pn), jacobian=pj)
    w = np.full(im.shape, 1 / 0.002**2)
    if c['w'] != 'flat':
        w *= r.uniform(0.5, 2.0, size=w.shape)
    if c['w'] == 'mask':
        w[r.uniform(size=w.shape) < 0.1] = 0
        w[0, 0] = 1e4
    kw = {}
    pl = c['planes']
    if pl & 1:
        kw['bmask'] = (r.uniform(size=im.shape) < 0.1).astype('i4') * 4
        kw['ormask'] = (r.uniform(size=im.shape) < 0.2).astype('i4') * 2
    if pl & 2:
        kw['noise'] = 0.002 * r.normal(size=im.shape)
    if pl & 4:
        kw['mfrac'] = r.uniform(size=im.shape)
    meta = {'id': c['meta'], 'x': [c['meta'], 'a']}
    pmeta = {'p': c['meta']}
    psf = Observation(pim, weight=np.full(pim.shape, 4.0), jacobian=pj, meta=pmeta)
    if pl & 8:
        psf.set_gmix(pg.copy())
    return Observation(im, weight=w, jacobian=jj, psf=psf, meta=meta, store_pixels=c.get('pix', True), ignore_zero_weight=c.get('izw', True), **kw)


obs_s = dict(seed=seeds, n=ints(9, 18), pn=ints(9, 15), planes=ints(0, 15), w=st.sampled_from(['flat', 'var', 'mask']), meta=ints(0, 99), psfg=disk(0.08), j=jac(0.2, 0.5, 0.1),
             izw=pick((4, st.just(True)), (1, st.just(False))))
one_obs = st.fixed_dictionaries(obs_s)
psf_opts = pick((2, st.just('gauss')), (2, st.just('fitgauss')), (2, st.just('dilate')), (2, logfl(2.2, 3.2)))
_case = dict(kind=st.sampled_from(['obs', 'list', 'mb', 'obs']), bands=st.lists(st.lists(one_obs, min_size=1, max_size=2), min_size=1, max_size=2), psf=psf_opts,
             types=pick((1, st.none()), (3, st.lists(st.sampled_from(METACAL_TYPES), max_size=4, unique=True))), step=pick((1, st.just(0.01)), (1, logfl(0.002, 0.05))),
             fixnoise=st.booleans(), noiseim=st.booleans(), rseed=seeds, norng=pick((3, st.just(False)), (1, st.just(True))), cache=st.booleans())


def nested(case):
    bands = case['bands']
    obss = [[make_obs(c) for c in b] for b in bands]
    if case['kind'] == 'obs':
        return obss[0][0], [[obss[0][0]]]
    mb = MultiBandObsList(meta={'mb': 1})
    for b in obss:
        ol = ObsList(meta={'ol': 2})
        for o in b:
            ol.append(o)
        mb.append(ol)
    if case['kind'] == 'list':
        return mb[0], [obss[0]]
    return mb, obss


def flat(o):
    if isinstance(o, Observation):
        return [o]
    if isinstance(o, ObsList):
        return list(o)
    return [x for ol in o for x in ol]


def fp(o):
    """everything in an observation, as comparable values"""
    j = o.jacobian
    out = dict(image=o.image.tobytes(), shape=o.image.shape, weight=o.weight.tobytes(), meta=repr(sorted((k, repr(v)) for k, v in o.meta.items())),
               jac=(j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol), izw=o.ignore_zero_weight, attrs=sorted(k for k in vars(o)))
    for nm in ('bmask', 'ormask', 'noise', 'mfrac'):
        a = getattr(o, nm) if getattr(o, 'has_' + nm)() else None
        out[nm] = None if a is None else a.tobytes()
    out['gmix'] = o.gmix.get_full_pars().tobytes() if o.has_gmix() else None
    p = o.pixels
    out['pixels'] = None if p is None else p.tobytes()
    out['psf'] = fp(o.psf) if o.has_psf() else None
    return out


def diff(a, b, path=''):
    d = [path + k for k in a if k != 'psf' and a[k] != b[k]]
    if a.get('psf') and b.get('psf'):
        d += diff(a['psf'], b['psf'], 'psf.')
    elif bool(a.get('psf')) != bool(b.get('psf')):
        d.append(path + 'psf')
    return d


def galsim_psf(case, obss):
    if isinstance(case['psf'], str):
        return case['psf']
    s = max(np.sqrt(abs(jdet(c['j']))) for b in case['bands'] for c in b)
    return galsim.Gaussian(sigma=case['psf'] * s)


def run(case, obs, obss, **over):
    c = dict(case, **over)
    kw = dict(psf=galsim_psf(c, obss), step=c['step'], fixnoise=c['fixnoise'])
    if c['types'] is not None:
        kw['types'] = list(c['types'])
    kw['rng'] = None if c['norng'] else rng_of(c['rseed'])
    if c['fixnoise'] and c['noiseim']:
        kw['use_noise_image'] = True
    return get_all_metacal(obs, **kw)


def legal(case, obss):
    """the documented demands on the inputs: the errors expected, or None"""
    errs = []
    allowed = METACAL_TYPES if case['psf'] == 'dilate' else METACAL_MINIMAL_TYPES
    if case['types'] is not None and not set(case['types']) <= set(allowed):
        errs.append(AssertionError)
    if case['norng'] and (case['psf'] == 'fitgauss' or (case['fixnoise'] and not case['noiseim'])):
        errs.append(ValueError)
    return tuple(errs) or None


def prepare(case):
    if case['fixnoise'] and case['noiseim']:
        for b in case['bands']:
            for c in b:
                c['planes'] |= 2
    return nested(case)


@R.law(st.fixed_dictionaries(_case), quick=500, rule='noise compensation, masks or several members')
def structure(case, ctx):
    """types, containers, planes and metadata of the output; nothing handed in changes"""
    obs, obss = prepare(case)
    before = [fp(o) for o in flat(obs)]
    tops = [repr(obs.meta)] + ([repr(ol.meta) for ol in obs] if case['kind'] == 'mb' else [])

    def unchanged(msg):
        check([id(o) for o in flat(obs)] == [id(o) for b in obss for o in b], '%s: members of the input' % msg)
        for o, b in zip(flat(obs), before):
            d = diff(b, fp(o))
            check(not d, '%s: input changed: %s' % (msg, d))
        check(tops == [repr(obs.meta)] + ([repr(ol.meta) for ol in obs] if case['kind'] == 'mb' else []), '%s: container meta' % msg)
    err = legal(case, obss)
    if err is not None:
        ctx.label('rejected')
        mcmod.turn_off_galsim_caching()
        raises(err, run, case, obs, obss, _msg='unsuitable request')
        unchanged('rejected request')
        return
    if case['cache']:
        mcmod.turn_on_galsim_caching()
    try:
        d = run(case, obs, obss)
    finally:
        mcmod.turn_off_galsim_caching()
    ctx.nontrivial(case['fixnoise'] or case['kind'] != 'obs' or case['bands'][0][0]['w'] == 'mask')
    ctx.label(str(case['psf'])[:5] if isinstance(case['psf'], str) else 'object')
    unchanged('metacal')
    types = case['types']
    if types is None:
        types = METACAL_TYPES if case['psf'] == 'dilate' else METACAL_MINIMAL_TYPES
    want = set(types)
    if want & {'noshear', '1p'}:
        want |= {'noshear', '1p'}
    check(set(d) == want, 'types %r for request %r', sorted(d), types)
    for t in d:
        check(type(d[t]) is type(obs), 'container of %s' % t)
        if case['kind'] == 'mb':
            check([len(ol) for ol in d[t]] == [len(ol) for ol in obs], 'members of %s' % t)
        elif case['kind'] == 'list':
            check(len(d[t]) == len(obs), 'members of %s' % t)
        for o, m in zip(flat(obs), flat(d[t])):
            check(m is not o and m.psf is not o.psf, 'the input itself returned')
            check(m.image.shape == o.image.shape and np.all(np.isfinite(m.image)), 'image of %s' % t)
            check(m.jacobian == o.jacobian, 'transform of %s' % t)
            check(m.has_psf() and m.psf.image.shape == o.psf.image.shape, 'psf of %s' % t)
            a, b = fp(m), fp(o)
            for nm in ('bmask', 'ormask', 'noise', 'mfrac', 'meta', 'izw'):
                check(a[nm] == b[nm], '%s of %s' % (nm, t))
            check(a['psf']['meta'] == b['psf']['meta'], 'psf meta of %s' % t)
            pj, oj = m.psf.jacobian, o.psf.jacobian
            close([pj.dvdrow, pj.dvdcol, pj.dudrow, pj.dudcol], [oj.dvdrow, oj.dvdcol, oj.dudrow, oj.dudcol], 0, 0, 'psf transform')
            if case['psf'] == 'dilate':
                close([pj.row0, pj.col0], [oj.row0, oj.col0], 0, 0, 'psf center')
            else:
                close([pj.row0, pj.col0], (np.array(m.psf.image.shape) - 1) / 2, 1e-12, 0, 'psf center')
            if case['fixnoise']:
                close(m.weight, np.where(o.weight > 0, o.weight / 2, 0), 1e-12, 0, 'reduced weight of %s' % t)
            else:
                same(m.weight, o.weight, 'weight of %s' % t)
            # the pixel list follows the new image and weight
            px = m.pixels
            use = m.weight.ravel() > 0 if m.ignore_zero_weight else np.ones(m.weight.size, dtype=bool)
            same(px['val'], m.image.ravel()[use], 'pixels of %s' % t)
            close(px['ierr'], np.sqrt(m.weight.ravel()[use]), 1e-12, 0, 'pixel errors of %s' % t)
    # outputs are the caller's: changing them reaches neither the input nor another type
    ts = sorted(d)
    if not ts:
        return
    rest = {t: [fp(o) for o in flat(d[t])] for t in ts[1:]}
    for m in flat(d[ts[0]]):
        with m.writeable():
            m.image[:] = -1
            m.weight[:] = 7
        with m.psf.writeable():
            m.psf.image[:] = -2
        m.jacobian = ngmix.UnitJacobian(row=0, col=0)
        for nm in ('bmask', 'ormask', 'noise', 'mfrac'):
            if getattr(m, 'has_' + nm)():
                with m.writeable():
                    getattr(m, nm)[:] = 1
        m.meta['id'] = 'changed'
        m.psf.meta['p'] = 'changed'
    unchanged('editing the output')
    for t in ts[1:]:
        for o, b in zip(flat(d[t]), rest[t]):
            dd = [x for x in diff(b, fp(o)) if x in ('image', 'psf.image', 'weight', 'jac')]
            check(not dd, 'types share data: %s' % dd)


def images(d, t):
    return [o.image for o in flat(d[t])], [o.psf.image for o in flat(d[t])], [o.weight for o in flat(d[t])]


def cmp_images(a, b, t, rtol, msg):
    for x, y in zip(images(a, t), images(b, t)):
        check(len(x) == len(y), '%s: members' % msg)
        for p, q in zip(x, y):
            check(p.shape == q.shape and np.all(np.abs(p - q) <= rtol * np.abs(q).max()), '%s: %s differs by %g of the peak', msg, t, np.abs(p - q).max() / np.abs(q).max())


@R.law(st.fixed_dictionaries(dict(_case, sub=st.lists(st.sampled_from(METACAL_TYPES), min_size=1, max_size=3, unique=True), otherseed=seeds)), quick=350, rule='a different subset of types, or cached')
def repeatable(case, ctx):
    """same state, same images; neither the cache nor the other requested types nor earlier runs matter"""
    obs, obss = prepare(case)
    mcmod.turn_off_galsim_caching()
    if legal(case, obss) is not None:
        return
    a = run(case, obs, obss)
    b = run(case, obs, obss)
    check(set(a) == set(b), 'types of a second run')
    for t in a:
        cmp_images(a, b, t, 0, 'same random state')
    # other types
    sub = [t for t in case['sub'] if case['psf'] == 'dilate' or t in METACAL_MINIMAL_TYPES] or ['2m']
    ctx.nontrivial(set(sub) != set(a))
    c = run(case, obs, obss, types=sub)
    full = run(case, obs, obss, types=list(reversed(METACAL_TYPES if case['psf'] == 'dilate' else METACAL_MINIMAL_TYPES)))
    for t in c:
        cmp_images(c, full, t, 1e-12, 'other types requested')
    # members do not depend on each other when no random numbers are drawn
    if case['kind'] != 'obs' and case['psf'] in ('gauss', 'dilate') and not case['fixnoise']:
        e = run(case, obs, obss, norng=True)
        for k, o in enumerate(flat(obs)):
            f = run(case, o, [[o]], norng=True)
            for t in e:
                close(flat(e[t])[k].image, f[t].image, 1e-12, 1e-12 * np.abs(f[t].image).max(), 'member on its own')
    mcmod.turn_on_galsim_caching()
    try:
        for _ in range(2):
            e = run(case, obs, obss)
            for t in a:
                cmp_images(a, e, t, 1e-10, 'cache')
        # the cache does not confuse observations
        ob2 = copy.deepcopy(obs)
        for o in flat(ob2):
            o.image = o.image[::-1].copy()
        e = run(case, ob2, obss)
    finally:
        mcmod.turn_off_galsim_caching()
    f = run(case, ob2, obss)
    for t in a:
        cmp_images(e, f, t, 1e-10, 'cache after another image')
    # another random state gives another compensating noise
    if case['fixnoise'] and not case['noiseim'] and case['otherseed'] != case['rseed'] and 'noshear' in a:
        g = run(case, obs, obss, rseed=case['otherseed'])
        for x, y in zip(flat(g['noshear']), flat(a['noshear'])):
            check(not np.array_equal(x.image, y.image), 'the noise does not depend on the random state')


@R.law(st.fixed_dictionaries(dict(_case, scale=fl(0.2, 3))), quick=250, rule='more than one member, or noise from the weight')
def noise_fix(case, ctx):
    """the compensating noise: the right field, rotated, metacalibrated the same way and independent of the object"""
    case['fixnoise'] = True
    case['norng'] = False
    obs, obss = prepare(case)
    mcmod.turn_off_galsim_caching()
    if legal(case, obss) is not None:
        return
    ctx.nontrivial(case['kind'] != 'obs' or not case['noiseim'])
    a = run(case, obs, obss)
    plain = run(case, obs, obss, fixnoise=False)
    check(set(a) == set(plain), 'types')
    # the noise field on its own, turned by a quarter
    nz = copy.deepcopy(obs)
    if case['noiseim']:
        fields = [o.noise.copy() for o in flat(obs)]
    else:
        fields = [o.image.copy() for o in flat(simulate_obs(None, obs, rng=rng_of(case['rseed'])))]
    for o, f in zip(flat(nz), fields):
        check(f.shape == o.image.shape, 'noise field')
        o.image = np.rot90(f, 1).copy()
    nres = run(case, nz, obss, fixnoise=False)
    # fitgauss draws its guesses from the same random state: target psfs agree only up to the fit
    tol = 1e-3 if case['psf'] == 'fitgauss' else 1e-10
    for t in a:
        for x, p, n in zip(flat(a[t]), flat(plain[t]), flat(nres[t])):
            exp = p.image + np.rot90(n.image, 3)
            check(np.all(np.abs(x.image - exp) <= tol * np.abs(exp).max()), '%s is not image plus turned noise: %g', t, np.abs(x.image - exp).max() / np.abs(exp).max())
            if tol == 1e-10:
                same(x.image_orig, p.image, 'image before the noise was added')
            close(x.weight, x.weight_orig * 0.5, 1e-12, 0, 'weight')
    # another object, same noise
    ob2 = copy.deepcopy(obs)
    for o in flat(ob2):
        o.image = o.image * 0.0 + o.image.mean()
    b, q = run(case, ob2, obss), run(case, ob2, obss, fixnoise=False)
    for t in a:
        for x, p, y, z in zip(flat(a[t]), flat(plain[t]), flat(b[t]), flat(q[t])):
            check(np.all(np.abs((x.image - p.image) - (y.image - z.image)) <= 2 * tol * np.abs(x.image).max() + tol * np.abs(y.image).max()), 'the noise depends on the object')


class FakeRunner(object):
    """records what it is given"""
    fitter = 'the fitter'

    def __init__(self):
        self.calls = []

    def go(self, obs):
        self.calls.append(obs)
        return {'flags': 0, 'n': len(self.calls)}


class FakePSFRunner(object):
    def __init__(self, bad):
        self.bad = bad
        self.calls = []

    def go(self, obs):
        self.calls.append(obs)
        for k, o in enumerate(flat(obs)):
            o.psf.meta['result'] = {'flags': 1 if k in self.bad else 0}


@R.law(st.fixed_dictionaries(dict(_case, kind=st.sampled_from(['list', 'mb', 'list', 'obs']), bands=st.lists(st.lists(one_obs, min_size=2, max_size=3), min_size=1, max_size=2), psf=pick((3, st.just('gauss')), (1, psf_opts)),
             types=pick((1, st.none()), (6, st.lists(st.sampled_from(METACAL_MINIMAL_TYPES), max_size=2, unique=True))), norng=st.just(False), usepsf=pick((1, st.just(False)), (3, st.just(True))), bad=st.lists(ints(0, 1), max_size=2), ignore=st.booleans())), quick=150, rule='a failing psf')
def bootstrapping(case, ctx):
    """metacal bootstrapping runs the given runner on every type's observations and returns both"""
    obs, obss = prepare(case)
    mcmod.turn_off_galsim_caching()
    if legal(case, obss) is not None:
        return
    before = [fp(o) for o in flat(obs)]
    kw = dict(psf=galsim_psf(case, obss), step=case['step'], fixnoise=case['fixnoise'])
    if case['types'] is not None:
        kw['types'] = list(case['types'])
    if case['fixnoise'] and case['noiseim']:
        kw['use_noise_image'] = True
    runner = FakeRunner()
    pr = FakePSFRunner(case['bad']) if case['usepsf'] else None
    rng = None if case['norng'] else rng_of(case['rseed'])
    # which members stay
    k = 0
    left = []
    for b in ([[obs]] if case['kind'] == 'obs' else [list(obs)] if case['kind'] == 'list' else [list(ol) for ol in obs]):
        row = []
        for o in b:
            if not (case['usepsf'] and case['ignore'] and k in case['bad']):
                row.append(k)
            k += 1
        left.append(row)
    boot = MetacalBootstrapper(runner=runner, psf_runner=pr, ignore_failed_psf=case['ignore'], rng=rng, **kw)
    check(boot.fitter == 'the fitter', 'fitter')
    if any(len(r_) == 0 for r_ in left) and (case['types'] is None or len(case['types']) > 0):
        ctx.label('nothing left')
        raises(ngmix.BootPSFFailure, boot.go, obs, _msg='no psf left')
        return
    ctx.nontrivial(any(x < k for x in case['bad']) and case['usepsf'])
    res, od = boot.go(obs)
    ref = run(case, obs, obss)
    check(set(res) == set(od) == set(ref), 'types')
    for t in ref:
        cmp_images(od, ref, t, 0, 'bootstrapped images')
    check(len(runner.calls) == len(ref), 'runs')
    for t, o in zip(od, runner.calls):
        fo = flat(od[t])
        check([id(x) for x in flat(o)] == [id(fo[i]) for r_ in left for i in r_], 'observations given to the runner')
        check(type(o) is type(obs), 'container given to the runner')
    check([res[t]['n'] for t in od] == list(range(1, len(od) + 1)), 'result under its type')
    if pr is not None:
        check([id(x) for x in pr.calls] == [id(od[t]) for t in od], 'psf runs')
    for o, b in zip(flat(obs), before):
        dd = diff(b, fp(o))
        check(not dd, 'input changed: %s' % dd)
    r2 = FakeRunner()
    res2, od2 = metacal_bootstrap(obs, r2, psf_runner=None, rng=None if case['norng'] else rng_of(case['rseed']), **kw)
    for t in od:
        cmp_images(od, od2, t, 0, 'metacal_bootstrap')


class FailDraw(object):
    """makes the k-th drawing of an image fail like the external library does"""

    def __init__(self, k):
        self.k = k
        self.hit = False

    def __enter__(self):
        self.orig = orig = galsim.GSObject.drawImage

        def draw(*a, **kw):
            self.k -= 1
            if self.k < 0:
                self.hit = True
                raise galsim.errors.GalSimError('injected')
            return orig(*a, **kw)
        galsim.GSObject.drawImage = draw
        return self

    def __exit__(self, *a):
        galsim.GSObject.drawImage = self.orig


_shear = st.tuples(st.sampled_from([-0.02, 0.0, 0.004, 0.01, 0.0102, 0.05]), st.sampled_from([-0.02, 0.0, 0.004, 0.01, 0.05]))
_op = pick((3, st.tuples(st.just('all'), st.lists(st.sampled_from(METACAL_TYPES), min_size=1, max_size=3, unique=True), st.sampled_from([0.003, 0.004, 0.01, 0.05]))),
           (3, st.tuples(st.just('gal'), _shear, st.booleans())), (2, st.tuples(st.just('psfshear'), _shear)), (2, st.tuples(st.just('target'), _shear, st.booleans())),
           (3, st.tuples(st.just('fail'), ints(0, 2), st.sampled_from(['1p', '2m', '1m_psf', '2p']), st.sampled_from([0.003, 0.01]))))


@R.law(st.fixed_dictionaries(dict(obs=one_obs, psf=psf_opts, rseed=seeds, ops=st.lists(_op, min_size=2, max_size=6), cache=st.booleans(), norng=st.booleans())), quick=250, rule='a repeated shear or a failed drawing')
def object_history(case, ctx):
    """one metacal object asked for many things: each answer is that of a fresh object, whatever was asked or failed before"""
    obs = make_obs(case['obs'])
    before = fp(obs)
    p = case['psf']
    if p == 'fitgauss':
        case['norng'] = False
    mcmod.turn_off_galsim_caching()

    def fresh():
        r = None if case['norng'] else rng_of(case['rseed'])
        if p == 'dilate':
            return mcmod.MetacalDilatePSF(obs)
        if p == 'gauss':
            return mcmod.MetacalGaussPSF(obs, rng=r)
        if p == 'fitgauss':
            return mcmod.MetacalFitGaussPSF(obs, rng=r)
        return mcmod.MetacalAnalyticPSF(obs, galsim.Gaussian(sigma=p * np.sqrt(abs(jdet(case['obs']['j'])))), rng=r)

    def allowed(types):
        return [t for t in types if p == 'dilate' or t in METACAL_MINIMAL_TYPES]

    def do(m, op):
        """list of arrays"""
        if op[0] == 'all':
            d = m.get_all(step=op[2], types=allowed(op[1]) or ['1p'])
            return [x for t in sorted(d) for x in (d[t].image, d[t].psf.image, d[t].weight, d[t].psf.weight)]
        if op[0] == 'gal':
            sh = ngmix.Shape(*op[1])
            if op[2]:
                a, b = m.get_obs_galshear(sh, get_unsheared=True)
                return [a.image, a.psf.image, b.image, b.psf.image]
            a = m.get_obs_galshear(sh)
            return [a.image, a.psf.image, a.weight]
        if op[0] == 'psfshear':
            a = m.get_obs_psfshear(ngmix.Shape(*op[1]))
            return [a.image, a.psf.image]
        if op[0] == 'target':
            im, ob = m.get_target_psf(ngmix.Shape(*op[1]), 'psf_shear' if op[2] else 'gal_shear')
            out = im.array.copy()
            im.array[:] = -5       # what is handed out belongs to the caller
            return [out]
        if op[0] == 'fail':
            t = allowed([op[2]]) or ['1p']
            d = m.get_all(step=op[3], types=t)
            return [x for k in sorted(d) for x in (d[k].image, d[k].psf.image)]
    if case['cache']:
        mcmod.turn_on_galsim_caching()
    try:
        m = fresh()
        seen = set()
        for op in case['ops']:
            if p != 'dilate' and (op[0] == 'psfshear' or (op[0] == 'target' and op[2])):
                continue
            if repr(op[1]) in seen:
                ctx.nontrivial(True)
            seen.add(repr(op[1]))
            if op[0] == 'fail':
                with FailDraw(op[1]) as f:
                    try:
                        got = do(m, op)
                    except ngmix.GMixRangeError:
                        check(f.hit, 'range error without a failed drawing')
                        got = None
                    else:
                        check(not f.hit, 'failed drawing not reported')
                ctx.nontrivial(f.hit)
                if got is None:
                    # the same request right after the failure
                    got = do(m, op)
            else:
                got = do(m, op)
            ref = do(fresh(), op)
            check(len(got) == len(ref), 'outputs')
            tol = 1e-9 if case['cache'] else 1e-12
            for a, b in zip(got, ref):
                check(a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.abs(b).max()), '%r differs from a fresh object by %g of the peak', op, np.abs(a - b).max() / np.abs(b).max())
    finally:
        mcmod.turn_off_galsim_caching()
    d = diff(before, fp(obs))
    check(not d, 'input changed: %s' % d)
