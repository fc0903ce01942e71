"""C08: mixtures built from model parameters"""
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import (fl, disk, logfl, ints, model_case, build, ref_of, ref_model, ref_moments, TABLES,
                 MODEL_NPARS, MODEL_NGAUSS, full_pars, seeds, rng_of)
import ngmix
from ngmix.gmix import (GMixModel, GMixCM, GMixCoellip, GMix, make_gmix_model, gmix_concat, get_model_num, get_model_name,
                        get_model_ngauss, get_model_npars, get_coellip_npars, get_coellip_ngauss)
from ngmix.gexceptions import GMixRangeError

ORACLE = ('reference mixtures computed in numpy from the published component tables, the requested flux, center, shape and '
          'size, and numerical galsim profiles for the extended models')
R = Registry()


def warmup():
    for m in TABLES:
        GMixModel([0, 0, 0.1, 0.1, 4, 1.0], m)
    GMixModel([0, 0, 0.1, 0.1, 4, 0, 0.5, 1.0], 'bd')
    GMixModel([0, 0, 0.1, 0.1, 4, 0.5, 1.0], 'bdf')
    GMixCM(0.5, 1.0, [0, 0, 0.1, 0.1, 4, 1.0])
    GMixCoellip([0, 0, 0.1, 0.1, 4, 2, 1.0, 1])
    GMix(pars=[1, 0, 0, 1, 0, 1])


@R.law(st.one_of(model_case(Tlo=1e-4, Thi=1e3, gmax=0.999), model_case(), model_case(wide=True)), quick=4000, rule='not a round object at the origin')
def from_parameters(case, ctx):
    """flux, center, shape and size asked for; component fluxes and sizes of the published tables; parameters round trip"""
    m, pars = case['model'], case['pars']
    ctx.label(m)
    arr = np.array(pars)
    keep = arr.copy()
    gm = build(case)
    ref = ref_of(case)
    check(np.array_equal(arr, keep), 'parameters changed')
    full = gm.get_full_pars().reshape(-1, 6)
    check(len(gm) == len(ref) == full.shape[0], 'number of gaussians')
    sc = np.abs(ref[:, 3:]).max()
    g = math.hypot(pars[2], pars[3]) if m != 'full' else 0.0
    ctx.nontrivial(m == 'full' or (g > 1e-4 and (pars[0] != 0 or pars[1] != 0)))
    # the order of the gaussians carries no meaning
    o1 = np.lexsort((full[:, 0], full[:, 3] + full[:, 5])) if m not in ('full', 'coellip') else slice(None)
    o2 = np.lexsort((ref[:, 0], ref[:, 3] + ref[:, 5])) if m not in ('full', 'coellip') else slice(None)
    for k, name in enumerate(['p', 'row', 'col', 'irr', 'irc', 'icc']):
        at = 0 if k < 3 else 1e-12 * sc
        close(full[o1][:, k], ref[o2][:, k], 1e-9, at, name)
    # requested quantities
    S = ref_moments(ref)
    close(gm.get_flux(), S[0], 1e-9, 1e-12 * np.abs(ref[:, 0]).max(), 'flux')
    check(gm.get_psum() == gm.get_flux(), 'psum')
    if abs(S[0]) > 1e-6 * np.abs(ref[:, 0]).sum():
        close(gm.get_cen(), S[1:3], 1e-9, 1e-10, 'center')
        T = S[3] + S[5]
        e1, e2 = (S[5] - S[3]) / T, 2 * S[4] / T
        close(gm.get_T(), T, 1e-9, 0, 'T')
        close(gm.get_e1e2T(), [e1, e2, T], 1e-8, 1e-9, 'e1e2T')
        close(gm.get_e1e2sigma(), [e1, e2, math.sqrt(T / 2)], 1e-8, 1e-9, 'e1e2sigma')
        close(gm.get_sigma(), math.sqrt(T / 2), 1e-9, 0, 'sigma')
        e = math.hypot(e1, e2)
        if e < 0.9999:
            fac = 1 / (1 + math.sqrt(1 - e * e))
            close(gm.get_g1g2T(), [e1 * fac, e2 * fac, T], 1e-7, 1e-9, 'g1g2T')
            close(gm.get_g1g2sigma(), [e1 * fac, e2 * fac, math.sqrt(T / 2)], 1e-7, 1e-9, 'g1g2sigma')
    if m not in ('full', 'coellip'):
        # tables are normalised to a few parts in 1e6
        close(gm.get_flux(), pars[-1], 2e-5, 0, 'requested flux')
        close(gm.get_cen(), pars[:2], 1e-9, 1e-9, 'requested center')
        close(gm.get_T(), pars[4], 1e-4, 0, 'requested size')
        tolg = 1e-9 + 1e-12 / (1 - g)**2
        close(gm.get_g1g2T()[:2], pars[2:4], tolg, tolg, 'requested shape')
    # the same model by other routes
    check(gm == build(case), 'equal to itself rebuilt')
    if m == 'cm':
        raises(TypeError, GMixCM, case['fracdev'])
    elif m == 'bd' or m in MODEL_NPARS:
        num = get_model_num(m)
        for other in (GMixModel(list(pars), num), make_gmix_model(tuple(pars), m), make_gmix_model(arr, num)):
            check(type(other) is GMixModel and gm == other, 'other route')
    elif m == 'coellip':
        other = make_gmix_model(pars, 'coellip')
        check(type(other) is GMixCoellip and other == gm, 'other route')
    else:
        other = make_gmix_model(pars, 'full')
        check(type(other) is GMix and other == gm, 'other route')
        close(other.get_full_pars(), pars, 0, 0, 'parameters round-trip')
    # refilling an existing one is the same as making it
    if m not in ('cm', 'full'):
        z = np.array(pars)
        z[:2] += 1.0
        z[2:4] *= -0.5
        o = make_gmix_model(z, m)
        o.fill(pars)
        check(o == gm, 'fill equals construction')


@R.law(st.fixed_dictionaries(dict(
    c=model_case(models=['bd', 'bdf', 'cm'], flux=(1.0, 50.0)))), quick=1500, rule='both parts present')
def composite(case, ctx):
    """flux fraction and size ratio of the two parts"""
    c = case['c']
    m, pars = c['model'], c['pars']
    gm = build(c)
    full = gm.get_full_pars().reshape(-1, 6)
    fd = {'bd': lambda: pars[6], 'bdf': lambda: pars[5], 'cm': lambda: c['fracdev']}[m]()
    rat = {'bd': lambda: 10.0**pars[5], 'bdf': lambda: 1.0, 'cm': lambda: c['TdByTe']}[m]()
    ctx.nontrivial(0.05 < fd < 0.95 and abs(math.log(rat)) > 0.05 or m == 'bdf')
    # pure models with the sizes that the parts must have: the exp part has size Te, the dev part Te*rat
    pe, fe = [np.array(x) for x in TABLES['exp']]
    pd, fd_ = [np.array(x) for x in TABLES['dev']]
    Te = pars[4] / ((1 - fd) * (pe * fe).sum() + fd * rat * (pd * fd_).sum())
    parts = []
    if fd < 1:
        parts.append(GMixModel(pars[:4] + [Te, pars[-1] * (1 - fd)], 'exp').get_full_pars().reshape(-1, 6))
    if fd > 0:
        parts.append(GMixModel(pars[:4] + [Te * rat, pars[-1] * fd], 'dev').get_full_pars().reshape(-1, 6))
    ref = np.concatenate(parts)
    a = full[full[:, 0] != 0]
    o1 = np.lexsort((a[:, 0], a[:, 3] + a[:, 5]))
    o2 = np.lexsort((ref[:, 0], ref[:, 3] + ref[:, 5]))
    if np.unique(np.round(np.log(ref[:, 3] + ref[:, 5]), 6)).size == len(ref):
        close(a[o1], ref[o2], 1e-9, 1e-12 * np.abs(ref).max(), 'sum of the two parts')
    close(gm.get_T(), pars[4], 1e-9, 0, 'total size')
    # numerical brightness at a few points
    v = np.array([0.0, 0.7, -1.3, 3.0]) + pars[0]
    u = np.array([0.1, -0.4, 2.0, 1.0]) + pars[1]
    from gen import ref_eval
    close(ref_eval(full, v, u), ref_eval(ref, v, u), 1e-9, 0, 'brightness')


@R.law(st.fixed_dictionaries(dict(
    n=ints(1, 10), bad=st.sampled_from(['short', 'long', 'shape', 'name', 'helpers', 'ngauss']), c=model_case(), over=st.sampled_from([1.0, 1.0 + 1e-12, 1.5, 40.0]),
    ang=fl(0, 6.3))), quick=1500, rule='invalid input')
def invalid(case, ctx):
    """wrong counts and out-of-range shapes are rejected with the documented errors"""
    c, bad = case['c'], case['bad']
    m, pars = c['model'], list(c['pars'])
    ctx.nontrivial(True)
    ctx.label(bad)

    def mk(p):
        d = dict(c)
        d['pars'] = p
        return build(d)
    if bad in ('short', 'long'):
        k = {'full': 6, 'coellip': 2}.get(m, 10**9)
        n = case['n']
        if bad == 'short':
            p = pars[:max(len(pars) - n, 0)]
        else:
            p = pars + [0.5] * n
        if len(p) == len(pars) or (k < 100 and (len(p) % k) == 0 and (m == 'full' or len(p) >= 4)):
            return
        if m == 'coellip' and len(p) % 2 == 0:
            return
        raises(ValueError, mk, p, _msg='wrong number of parameters for %s: %d' % (m, len(p)))
        gm = build(c)
        raises(ValueError, gm.fill, p, _msg='fill')
        check(gm == build(c), 'failed fill changed the mixture')
    elif bad == 'shape':
        if m == 'full':
            return
        p = list(pars)
        p[2], p[3] = case['over'] * math.cos(case['ang']), case['over'] * math.sin(case['ang'])
        if math.sqrt(p[2] * p[2] + p[3] * p[3]) < 1:
            p[2], p[3] = (1.0, 0.0) if case['ang'] < 3 else (0.0, -1.0)
        raises(GMixRangeError, mk, p, _msg='g >= 1')
        gm = build(c)
        raises(GMixRangeError, gm.fill, p, _msg='fill g >= 1')
        check(gm == build(c), 'failed fill changed the mixture')
        check(gm.copy() == gm, 'copy after a failed fill')
    elif bad == 'name':
        for nm in ('nosuch', 'Gauss', 77, 'exp '):
            raises(ValueError, GMixModel, pars, nm)
            raises(ValueError, make_gmix_model, pars, nm)
            raises(ValueError, get_model_num, nm)
            raises(ValueError, get_model_name, nm)
            raises(ValueError, get_model_ngauss, nm)
            raises(ValueError, get_model_npars, nm)
        raises(ValueError, GMix)
    elif bad == 'helpers':
        for nm in ('full', 'gauss', 'turb', 'exp', 'dev', 'bd', 'bdf', 'cm', 'coellip'):
            num = get_model_num(nm)
            check(get_model_num(num) == num and get_model_name(num) == nm and get_model_name(nm) == nm, 'model name %s', nm)
        nums = [get_model_num(x) for x in ('full', 'gauss', 'turb', 'exp', 'dev', 'bd', 'bdf', 'cm', 'coellip')]
        check(len(set(nums)) == len(nums), 'model numbers differ')
        for nm in MODEL_NPARS:
            check(get_model_npars(nm) == get_model_npars(get_model_num(nm)) == MODEL_NPARS[nm], 'npars %s', nm)
            check(get_model_ngauss(get_model_num(nm)) == MODEL_NGAUSS[nm], 'ngauss %s', nm)
        n = case['n']
        check(get_coellip_npars(n) == 4 + 2 * n and get_coellip_ngauss(get_coellip_npars(n)) == n, 'coellip counts')
    else:
        gm = GMix(ngauss=case['n'])
        check(len(gm) == case['n'] and gm.get_full_pars().shape == (6 * case['n'],) and not gm.get_full_pars().any(), 'empty mixture')
        # an empty mixture cannot be evaluated
        raises(GMixRangeError, gm.make_image, (3, 3), _msg='evaluating an unset mixture')
        raises(GMixRangeError, gm.make_image, (3, 3), _msg='evaluating an unset mixture again')


@R.law(st.fixed_dictionaries(dict(parts=st.lists(model_case(), min_size=1, max_size=4), seed=seeds)), quick=500,
       rule='several mixtures')
def concatenation(case, ctx):
    """joining mixtures keeps the components in order"""
    gms = [build(c) for c in case['parts']]
    ctx.nontrivial(len(gms) > 1)
    before = [g.get_full_pars() for g in gms]
    from ngmix.gmix import GMixList
    gl = GMixList()
    for g in gms:
        gl.append(g)
    for seq in (gms, tuple(gms), gl):
        out = gmix_concat(seq)
        check(type(out) is GMix, 'type')
        close(out.get_full_pars(), np.concatenate(before), 0, 0, 'parameters in order')
    for g, b in zip(gms, before):
        close(g.get_full_pars(), b, 0, 0, 'input changed')
    out.set_flux(3.0)
    for g, b in zip(gms, before):
        close(g.get_full_pars(), b, 0, 0, 'input shared')
    raises(ValueError, gmix_concat, [])


@R.law(st.fixed_dictionaries(dict(model=st.sampled_from(['gauss', 'exp', 'dev']), T=logfl(0.5, 20.0), g=disk(0.6), flux=logfl(0.1, 50.0))),
       quick=120, rule='extended model')
def profile(case, ctx):
    """the mixture is close to the profile it stands for (independent of the tables)"""
    import galsim
    m = case['model']
    ctx.nontrivial(m != 'gauss')
    T = case['T']
    g1, g2 = case['g']
    gm = GMixModel([0, 0, g1, g2, T, case['flux']], m)
    # size of a round object of the same shape distortion
    gsq = g1 * g1 + g2 * g2
    Tround = T * (1 - gsq) / (1 + gsq)
    if m == 'gauss':
        obj = galsim.Gaussian(sigma=math.sqrt(Tround / 2), flux=case['flux'])
    elif m == 'exp':
        # <r^2> = 6 h^2
        obj = galsim.Exponential(scale_radius=math.sqrt(Tround / 6.0), flux=case['flux'])
    else:
        # the mixture of Hogg & Lang is truncated; its half light radius fixes the scale
        full = GMixModel([0, 0, 0, 0, Tround, 1.0], m).get_full_pars().reshape(-1, 6)
        rr = np.linspace(0, 12 * math.sqrt(Tround), 40001)
        cum = (full[:, 0][:, None] * (1 - np.exp(-0.5 * rr**2 / full[:, 3][:, None]))).sum(0)
        hlr = np.interp(0.5, cum, rr)
        obj = galsim.DeVaucouleurs(half_light_radius=hlr, flux=case['flux'])
    unit = obj.half_light_radius
    obj = obj.shear(g1=g1, g2=g2)
    pts = [(0.6, 0.3), (-1.0, 0.8), (1.3, -1.4), (0.2, 1.7)]
    tol = {'gauss': 1e-9, 'exp': 0.08, 'dev': 0.25}[m]
    from gen import ref_eval
    for a, b in pts:
        v, u = 0.7 * a * unit, 0.7 * b * unit
        close(ref_eval(gm.get_full_pars(), v, u), obj.xValue(u, v), tol, 1e-12, 'surface brightness')
