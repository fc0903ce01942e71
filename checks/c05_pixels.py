"""C05: pixel lists"""
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import fl, jac, seeds, rng_of, ints, make_jac, jdet, vu, logfl
import ngmix
from ngmix.pixels import make_pixels, make_coords
from ngmix.gexceptions import GMixFatalError

ORACLE = 'numpy mgrid/boolean indexing of the drawn image, weight map and transform'
R = Registry()


def warmup():
    ngmix.Observation(np.ones((3, 3)), jacobian=ngmix.UnitJacobian(row=1, col=1))
    make_pixels(np.ones((2, 2)), np.ones((2, 2)), ngmix.UnitJacobian(row=1, col=1), ignore_zero_weight=False)
    make_coords((2, 2), ngmix.UnitJacobian(row=1, col=1))


def make_weight(case, shape):
    r = rng_of(case['seed'])
    im = r.normal(size=shape) * case['amp']
    w = r.uniform(0.01, 10.0, size=shape) * case['wamp']
    k = case['wkind']
    u = r.uniform(size=shape)
    if k in ('mask', 'neg'):
        w[u < case['frac']] = 0.0
    if k == 'neg':
        w[u > 1 - case['frac'] / 2] *= -1
    if k == 'one':
        keep = r.randint(0, w.size)
        v = w.ravel()[keep]
        w[:] = 0
        w.ravel()[keep] = v
    if k == 'zero':
        w[:] = 0.0
    if k == 'edge':
        w[0, :] = 0
        w[:, -1] = 0
    return im, w


base = dict(
    shape=st.tuples(ints(1, 14), ints(1, 14)).map(list), j=jac(0.05, 3, 0.4),
    cen=st.tuples(fl(-3, 15), fl(-3, 15)).map(list), seed=seeds, amp=logfl(1e-3, 1e4), wamp=logfl(1e-4, 1e4),
    wkind=st.sampled_from(['all', 'mask', 'mask', 'neg', 'one', 'edge', 'zero']), frac=st.sampled_from([0.05, 0.5, 0.95]),
    ignore=st.booleans(),
)


def verify(pix, im, w, case, ignore, msg):
    shape = im.shape
    v, u = vu(shape, case['j'], *case['cen'])
    keep = (w > 0) if ignore else np.ones(shape, dtype=bool)
    n = int(keep.sum())
    check(pix.size == n, '%s: %d pixels, expected %d', msg, pix.size, n)
    s = np.sqrt(abs(jdet(case['j'])))
    at = 1e-11 * s * 40
    close(pix['v'], v[keep], 1e-12, at, msg + ' v')
    close(pix['u'], u[keep], 1e-12, at, msg + ' u')
    same(pix['val'], im[keep].astype('f8'), msg + ' val')
    close(pix['ierr'], np.sqrt(np.where(w > 0, w, 0.0))[keep], 1e-14, 0, msg + ' ierr')
    close(pix['area'], np.full(n, abs(jdet(case['j']))), 1e-9, 0, msg + ' area')


@R.law(st.fixed_dictionaries(base), quick=2500, rule='some but not all pixels usable, or non-square')
def direct(case, ctx):
    """make_pixels on arrays: order, coordinates, values, inverse errors, which pixels are kept"""
    shape = tuple(case['shape'])
    im, w = make_weight(case, shape)
    im0, w0 = im.copy(), w.copy()
    jo = make_jac(case['j'], *case['cen'])
    npos = int((w > 0).sum())
    ctx.nontrivial(0 < npos < w.size or shape[0] != shape[1])
    if case['ignore'] and npos == 0:
        raises(GMixFatalError, make_pixels, im, w, jo, ignore_zero_weight=True)
        raises(GMixFatalError, make_pixels, im, w, jo)
        return
    pix = make_pixels(im, w, jo, ignore_zero_weight=case['ignore'])
    verify(pix, im, w, case, case['ignore'], 'make_pixels')
    if npos:
        verify(make_pixels(im, w, jo), im, w, case, True, 'default')
    same(im, im0, 'image changed')
    same(w, w0, 'weight changed')
    co = make_coords(shape, jo)
    v, u = vu(shape, case['j'], *case['cen'])
    at = 1e-11 * jo.scale * 40
    close(co['v'], v.ravel(), 1e-12, at, 'coords v')
    close(co['u'], u.ravel(), 1e-12, at, 'coords u')
    close(co['area'], np.full(v.size, abs(jdet(case['j']))), 1e-9, 0, 'coords area')


@R.law(st.fixed_dictionaries(dict(base, dtype=st.sampled_from(['f8', 'f4', '>f8', 'i4']),
                                  layout=st.sampled_from(['C', 'F', 'strided']))),
       quick=1500, rule='as above, through Observation')
def through_observation(case, ctx):
    """the same through an Observation, and after its settings were switched"""
    shape = tuple(case['shape'])
    im, w = make_weight(case, shape)
    if case['dtype'] == 'i4':
        im = np.rint(np.clip(im, -1e6, 1e6)).astype('i4')
    else:
        im = im.astype(case['dtype'])

    def lay(a):
        if case['layout'] == 'F':
            return np.asfortranarray(a)
        if case['layout'] == 'strided':
            b = np.zeros((a.shape[0], 2 * a.shape[1]), dtype=a.dtype)
            b[:, ::2] = a
            return b[:, ::2]
        return a
    npos = int((w > 0).sum())
    ctx.nontrivial(0 < npos < w.size or shape[0] != shape[1])
    jo = make_jac(case['j'], *case['cen'])
    kw = dict(weight=lay(w), jacobian=jo, ignore_zero_weight=case['ignore'])
    if case['ignore'] and npos == 0:
        raises(GMixFatalError, ngmix.Observation, lay(im), **kw)
        obs = ngmix.Observation(lay(im), store_pixels=False, **kw)
        check(obs.pixels is None, 'no pixels stored')
        return
    obs = ngmix.Observation(lay(im), **kw)
    verify(obs.pixels, im, w, case, case['ignore'], 'Observation')
    check(not obs.pixels.flags['WRITEABLE'], 'pixels are read-only')
    # the other settings, by switching
    if npos:
        obs.ignore_zero_weight = not case['ignore']
        verify(obs.pixels, im, w, case, not case['ignore'], 'switched')
    obs.store_pixels = False
    check(obs.pixels is None, 'pixels dropped')
    obs.store_pixels = True
    verify(obs.pixels, im, w, case, obs.ignore_zero_weight, 'restored')
    # defaults: unit weight, unit transform about the canonical center
    o2 = ngmix.Observation(lay(im))
    c2 = dict(case, j=dict(dvdrow=1.0, dvdcol=0.0, dudrow=0.0, dudcol=1.0), cen=[(shape[0] - 1) / 2, (shape[1] - 1) / 2])
    verify(o2.pixels, im, np.ones(shape), c2, True, 'defaults')
