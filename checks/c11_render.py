"""C11: rendered images, fast exponential, export to galsim"""
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import (fl, disk, logfl, ints, model_case, build, ref_of, ref_eval, full_pars, seeds, rng_of, jac, make_jac, jdet, vu)
import ngmix
from ngmix.gmix import GMix, GMixModel, GMixCM, GMixCoellip
from ngmix import fastexp_nb as FE

ORACLE = ('numpy sum of gaussian densities at the sky position of each pixel times the pixel area, numpy.exp, and galsim drawing '
          'of the exported object')
R = Registry()


def warmup():
    gm = GMixModel([0, 0, 0.1, 0.1, 4, 1.0], 'exp')
    j = ngmix.Jacobian(row=0, col=0, dvdrow=1, dvdcol=0.1, dudrow=0.1, dudcol=1)
    gm.make_image((2, 3))
    gm.make_image((2, 3), jacobian=j, fast_exp=True)
    for m in ('gauss', 'turb', 'dev'):
        GMixModel([0, 0, 0.1, 0.1, 4, 1.0], m)
    GMixModel([0, 0, 0.1, 0.1, 4, 0, 0.5, 1.0], 'bd')
    GMixModel([0, 0, 0.1, 0.1, 4, 0.5, 1.0], 'bdf')
    GMixCM(0.5, 1.0, [0, 0, 0.1, 0.1, 4, 1.0])
    GMixCoellip([0, 0, 0.1, 0.1, 4, 2, 1.0, 1])
    for f in (FE.exp3, FE.exp4, FE.exp5):
        f(-1.0)
    FE.fexp_arr(np.zeros(3))


_case = dict(mix=model_case(cen=1.5), dims=st.tuples(ints(1, 12), ints(1, 12)), j=jac(), cen=st.tuples(fl(-3, 12), fl(-3, 12)))


def terms(full, v, u):
    """per gaussian chi2 and value"""
    out = []
    for p, r, c, irr, irc, icc in np.asarray(full).reshape(-1, 6):
        det = irr * icc - irc * irc
        dv, du = v - r, u - c
        chi2 = (icc * dv * dv - 2 * irc * dv * du + irr * du * du) / det
        out.append((chi2, p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2)))
    return out


@R.law(st.fixed_dictionaries(dict(_case, perm=seeds, fac=logfl(1e-3, 1e3), nojac=st.sampled_from([False, False, False, True]))), quick=2500,
       rule='non-square image with a transform that is not the identity')
def exact(case, ctx):
    """each pixel is the sum of component densities at its sky position times the pixel area"""
    gm = build(case['mix'])
    full = gm.get_full_pars()
    dims = case['dims']
    j, cen = case['j'], case['cen']
    if case['nojac']:
        j = dict(dvdrow=1.0, dvdcol=0.0, dudrow=0.0, dudcol=1.0)
        cen = [(dims[0] - 1) / 2, (dims[1] - 1) / 2]
        jj = None
    else:
        jj = make_jac(j, *cen)
    ctx.nontrivial(dims[0] != dims[1] and not case['nojac'] and abs(j['dvdcol']) > 1e-6)
    v, u = vu(dims, j, *cen)
    area = abs(jdet(j))
    ref = ref_eval(full, v, u) * area
    pos = ref_eval(np.abs(np.asarray(full).reshape(-1, 6)) * [1, 0, 0, 0, 0, 0] + np.asarray(full).reshape(-1, 6) * [0, 1, 1, 1, 1, 1], v, u) * area
    tol = 1e-8 * pos + 1e-300
    im = gm.make_image(dims, jacobian=jj)
    check(im.shape == tuple(dims) and im.dtype == np.dtype('f8'), 'shape')
    bad = np.abs(im - ref) > tol
    check(not bad.any(), 'brightness times area: %r vs %r', im[bad][:1], ref[bad][:1])
    close(gm.get_full_pars(), full, 0, 0, 'mixture changed')
    # rendering again gives the same, other dims give the overlapping part
    check(np.array_equal(gm.make_image(list(dims), jacobian=jj), im), 'repeat')
    big = gm.make_image((dims[0] + 2, dims[1] + 3), jacobian=make_jac(j, *cen))
    close(big[:dims[0], :dims[1]], im, 1e-12, 0, 'larger image')
    # linear in flux
    g2 = gm.copy()
    if abs(gm.get_flux()) > 1e-3 * np.abs(full[0::6]).sum():
        g2.set_flux(gm.get_flux() * case['fac'])
        close(g2.make_image(dims, jacobian=jj), im * case['fac'], 1e-10, 1e-290, 'linear in flux')
    # order of the gaussians
    perm = rng_of(case['perm']).permutation(len(gm))
    g3 = GMix(pars=full.reshape(-1, 6)[perm].ravel())
    d = np.abs(g3.make_image(dims, jacobian=jj) - im)
    check(np.all(d <= 1e-12 * pos + 1e-300), 'order of gaussians')
    # shifting the transform center by whole pixels moves the image
    j2 = make_jac(j, cen[0] + 1, cen[1] + 2)
    close(gm.make_image((dims[0] + 1, dims[1] + 2), jacobian=j2)[1:, 2:], gm.make_image(dims, jacobian=make_jac(j, *cen)), 1e-9, 1e-12 * np.abs(ref).max(), 'center')
    raises(ValueError, gm.make_image, (3, 3, 3))
    raises(ValueError, gm.make_image, 3)
    raises(AssertionError, gm.make_image, dims, jacobian=3.0)


@R.law(st.fixed_dictionaries(_case), quick=2000, rule='some pixels inside and some outside the cut-off')
def fast(case, ctx):
    """the fast option differs only by its relative error and its cut-off"""
    gm = build(case['mix'])
    full = gm.get_full_pars()
    dims, j, cen = case['dims'], case['j'], case['cen']
    jj = make_jac(j, *cen)
    v, u = vu(dims, j, *cen)
    area = abs(jdet(j))
    im = gm.make_image(dims, jacobian=jj, fast_exp=True)
    ref = np.zeros(dims)
    tol = np.zeros(dims)
    inside = np.zeros(dims, dtype=bool)
    for chi2, val in terms(full, v, u):
        m = chi2 < 25
        inside |= m
        ref += np.where(m, val, 0) * area
        tol += np.where(m, 4.2e-5 * np.abs(val), 0) * area
        # rounding at the cut-off itself
        tol += np.where(np.abs(chi2 - 25) < 1e-6, np.abs(val), 0) * area
    ctx.nontrivial(inside.any() and not inside.all())
    bad = np.abs(im - ref) > tol + 1e-300
    check(not bad.any(), 'fast exponential: %r vs %r', im[bad][:1], ref[bad][:1])
    # and against the exact rendering
    ex = gm.make_image(dims, jacobian=jj)
    pk = sum(abs(p) / (2 * np.pi * math.sqrt(a * c - b * b)) for p, _, _, a, b, c in full.reshape(-1, 6)) * area
    check(np.abs(im - ex).max() <= 4.2e-5 * pk, 'fast vs exact')
    close(gm.make_image(dims, jacobian=jj, fast_exp=1), im, 0, 0, 'flag form')


@R.law(st.fixed_dictionaries(dict(x=st.lists(st.one_of(fl(-15.0, 0.0), ints(0, 30).map(lambda k: -k / 2.0),
                                                       st.tuples(ints(0, 29), logfl(1e-12, 1e-2), st.sampled_from([1, -1])).map(
                                                           lambda t: min(0.0, max(-15.0, -t[0] / 2.0 + t[2] * t[1])))),
                                             min_size=1, max_size=20))), quick=2500, rule='several arguments')
def fast_exponential(case, ctx):
    """relative accuracy and range of the fast exponential"""
    x = np.array(case['x'])
    ctx.nontrivial(x.size > 2)
    y = np.exp(x)
    for f, tol in ((FE.exp3, 4.0e-3), (FE.exp4, 4.5e-4), (FE.exp5, 4.0e-5), (FE.fexp, 4.0e-5)):
        got = np.array([f(t) for t in case['x']])
        check(np.all(np.abs(got / y - 1) <= tol), 'accuracy of %s at %s', f.__name__, x[np.argmax(np.abs(got / y - 1))])
    arr = FE.fexp_arr(x)
    close(arr, [FE.fexp(t) for t in case['x']], 1e-15, 0, 'array form')
    check(arr.shape == x.shape, 'shape')
    a2 = FE.fexp_arr(np.array([case['x'], case['x']]))
    close(a2, np.array([arr, arr]), 0, 0, '2-d array form')
    check(FE.FASTEXP_MAX_CHI2 <= 30, 'cut-off inside the domain')


@R.law(st.fixed_dictionaries(dict(mix=model_case(cen=1.5, gmax=0.6, Tlo=1.0, models=['gauss', 'turb', 'coellip', 'full', 'exp', 'bdf']),
                                  dims=st.tuples(ints(3, 12), ints(3, 12)), j=jac(), off=st.tuples(fl(-2, 2), fl(-2, 2)),
                                  gs=st.sampled_from(['none', 'dict', 'obj', 'bad']))), quick=250, rule='off-center object, general transform')
def export(case, ctx):
    """the exported object draws the same image"""
    import galsim
    gm = build(case['mix'])
    full = gm.get_full_pars()
    j, dims = case['j'], case['dims']
    gs = {'none': None, 'dict': dict(maximum_fft_size=16384), 'obj': galsim.GSParams(maximum_fft_size=16384), 'bad': 3}[case['gs']]
    if case['gs'] == 'bad':
        raises(TypeError, gm.make_galsim_object, gsparams=gs)
        raises(TypeError, gm.make_galsim_object, gsparams=[1])
        gs = None
    obj = gm.make_galsim_object(gsparams=gs)
    if case['gs'] in ('dict', 'obj'):
        check(obj.gsparams.maximum_fft_size == 16384, 'gsparams used')
    close(gm.get_full_pars(), full, 0, 0, 'mixture changed')
    ctx.nontrivial(abs(full[1]) > 0.01 and abs(j['dvdcol']) > 1e-6)
    # galsim centers images at a true center of (n-1)/2 in our indices; the offset is in pixels
    cen = [(dims[0] - 1) / 2 + case['off'][0], (dims[1] - 1) / 2 + case['off'][1]]
    wcs = galsim.JacobianWCS(j['dudcol'], j['dudrow'], j['dvdcol'], j['dvdrow'])
    im = obj.drawImage(nx=dims[1], ny=dims[0], wcs=wcs, method='no_pixel', offset=(case['off'][1], case['off'][0]), dtype=float).array
    mine = gm.make_image(dims, jacobian=make_jac(j, *cen))
    pk = sum(abs(p) / (2 * np.pi * math.sqrt(a * c - b * b)) for p, _, _, a, b, c in full.reshape(-1, 6)) * abs(jdet(j))
    close(im, mine, 1e-5, 1e-6 * pk, 'drawn image')
    close(obj.flux, gm.get_flux(), 1e-9, 1e-9 * np.abs(full[0::6]).sum(), 'flux')


@R.law(st.fixed_dictionaries(dict(p=full_pars(1, 3, Tlo=1e-9, Thi=1e-2, emax=0.5), Tmin=logfl(1e-8, 1e-3), zero=st.booleans())), quick=300,
       rule='a gaussian smaller than the minimum')
def export_small(case, ctx):
    """gaussians without size get the minimum size"""
    p = np.array(case['p']).reshape(-1, 6)
    if case['zero']:
        p[0, 3:] = 0
    gm = GMix(pars=p.ravel())
    Tmin = case['Tmin']
    obj = gm.make_galsim_object(Tmin=Tmin)
    parts = obj.obj_list if hasattr(obj, 'obj_list') else [obj]
    check(len(parts) == len(p), 'one object per gaussian')
    any_small = False
    for q, o in zip(p, parts):
        T = q[3] + q[5]
        det = q[3] * q[5] - q[4]**2
        Tround = 2 * math.sqrt(det) if T > 0 else 0.0
        any_small |= Tround < Tmin
        close(o.flux, q[0], 1e-12, 0, 'flux')
        close([o.centroid.x, o.centroid.y], [q[2], q[1]], 1e-12, 1e-14, 'position')
        # peak brightness gives the area
        sig2 = o.flux / (2 * math.pi * o.xValue(o.centroid))
        close(2 * sig2, max(Tround, Tmin), 1e-5, 0, 'round size')
    ctx.nontrivial(any_small)
