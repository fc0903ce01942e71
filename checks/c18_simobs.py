"""C18: simulated observations"""
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import (fl, disk, logfl, ints, seeds, rng_of, jac, make_jac, jdet, pick, vu, ref_eval, ref_convolve, model_case, build, ref_of, full_pars, weights, wspec)
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList, GMix
from ngmix.simobs import simulate_obs

ORACLE = ('the mixture convolved and evaluated in numpy on each epoch\'s own grid; byte fingerprints of the template; chi-square, correlation and scaling tests of the noise')
R = Registry()


def warmup():
    o = make_obs(dict(seed=1, nr=5, nc=5, j=dict(dvdrow=0.3, dvdcol=0.0, dudrow=0.0, dudcol=0.3), psf=[1, 0, 0, 1, 0, 1], w=dict(kind='flat', seed=1, frac=0.1, amp=1.0), opt=15, off=[0, 0], raw=True))
    simulate_obs(GMix(pars=[1, 0, 0, 1, 0, 1.0]), o, rng=rng_of(1))


def make_obs(c):
    r = rng_of(c['seed'])
    sh = (c['nr'], c['nc'])
    jj = make_jac(c['j'], (sh[0] - 1) / 2 + c['off'][0], (sh[1] - 1) / 2 + c['off'][1])
    w = weights(sh, c['w'])
    if not (w > 0).any():
        w[sh[0] // 2, sh[1] // 2] = c['w']['amp']
    kw = {}
    if c['opt'] & 1:
        kw['bmask'] = r.randint(0, 3, size=sh).astype('i4')
        kw['ormask'] = r.randint(0, 3, size=sh).astype('i4')
    if c['opt'] & 2:
        kw['noise'] = r.normal(size=sh)
        kw['mfrac'] = r.uniform(size=sh)
    psf = None
    if c['psf'] is not None:
        psf = Observation(r.uniform(0.1, 1, size=(5, 4)), jacobian=make_jac(c['j'], 2, 2), meta={'p': 1})
        if c['opt'] & 4:
            psf.set_gmix(GMix(pars=np.array(c['psf'])))
    o = Observation(r.normal(size=sh), weight=w, jacobian=jj, psf=psf, meta={'id': c['seed']}, **kw)
    if c['opt'] & 8:
        o.set_gmix(GMix(pars=[9.0, 0, 0, 1, 0, 1]))
    if c['raw']:
        o.weight_raw = r.uniform(0.5, 2, size=sh) * c['w']['amp'] * 7
    return o


def obs_strat(lo=4, hi=14):
    return st.fixed_dictionaries(dict(
        seed=seeds, nr=ints(lo, hi), nc=ints(lo, hi), j=jac(0.1, 1.5, 0.3), psf=pick((1, st.none()), (4, full_pars(1, 3, cen=0.5, Tlo=0.2, Thi=3.0))), w=wspec(), opt=pick((4, st.just(15)), (1, ints(0, 15))),
        off=st.tuples(fl(-2, 2), fl(-2, 2)), raw=st.booleans()))


def nest(case, obss):
    if case['kind'] == 'obs':
        return obss[0][0]
    mb = MultiBandObsList(meta={'mb': 1})
    for b in obss:
        ol = ObsList(meta={'ol': 1})
        for o in b:
            ol.append(o)
        mb.append(ol)
    return mb[0] if case['kind'] == 'list' else mb


def rows(o):
    if isinstance(o, Observation):
        return [[o]]
    if isinstance(o, ObsList):
        return [list(o)]
    return [list(ol) for ol in o]


def fp(o):
    j = o.jacobian
    out = [o.image.tobytes(), o.weight.tobytes(), o.pixels.tobytes(), repr(sorted(o.meta.items())), (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol), sorted(vars(o))]
    for nm in ('bmask', 'ormask', 'noise', 'mfrac'):
        out.append(getattr(o, nm).tobytes() if getattr(o, 'has_' + nm)() else None)
    out.append(o.gmix.get_full_pars().tobytes() if o.has_gmix() else None)
    out.append(o.weight_raw.tobytes() if hasattr(o, 'weight_raw') else None)
    out.append(fp(o.psf) if o.has_psf() else None)
    return out


def mixes(case, nb):
    out = [build(m) for m in case['mix'][:nb]]
    while len(out) < nb:
        out.append(GMix(pars=np.array([1.0 + len(out), 0.1, 0, 1, 0.1, 1])))
    return out


_case = dict(kind=st.sampled_from(['obs', 'list', 'mb', 'mb']), bands=st.lists(st.lists(obs_strat(), min_size=1, max_size=3), min_size=1, max_size=3), mix=st.lists(model_case(cen=1.0, Tlo=0.3, Thi=10.0), min_size=1, max_size=3),
             nomix=pick((4, st.just(False)), (1, st.just(True))), conv=pick((3, st.just(True)), (1, st.just(False))), rseed=seeds, nf=pick((2, st.none()), (2, logfl(0.1, 10.0))), noise=st.booleans(), add_all=st.booleans(), useraw=st.booleans(),
             psfall=pick((3, st.just(True)), (1, st.just(False))))


def setup(case):
    if case['conv'] and case['psfall']:
        for b in case['bands']:
            for c in b:
                c['opt'] |= 4
                c['psf'] = c['psf'] or [1.0, 0.1, 0, 1, 0, 1]
    obss = [[make_obs(c) for c in b] for b in case['bands']]
    obs = nest(case, obss)
    nb = len(obss) if case['kind'] == 'mb' else 1
    gm = mixes(case, nb)
    return obs, gm, (None if case['nomix'] else gm if case['kind'] == 'mb' else gm[0])


def expected(o, full, conv):
    j = o.jacobian
    jd = dict(dvdrow=j.dvdrow, dvdcol=j.dvdcol, dudrow=j.dudrow, dudcol=j.dudcol)
    v, u = vu(o.image.shape, jd, j.row0, j.col0)
    p = ref_convolve(full, o.psf.gmix.get_full_pars()) if conv else full
    return ref_eval(p, v, u) * abs(jdet(jd)), p


def call(case, g, obs, **over):
    kw = dict(add_noise=case['noise'], add_all=case['add_all'], use_raw_weight=case['useraw'], convolve_psf=case['conv'], noise_factor=case['nf'], rng=rng_of(case['rseed']))
    kw.update(over)
    return simulate_obs(g, obs, **kw)


@R.law(st.fixed_dictionaries(_case), quick=900, rule='several members')
def model(case, ctx):
    """structure, model image, weight and psf of every member; template and mixtures untouched; outputs own their data"""
    obs, gm, arg = setup(case)
    R0 = rows(obs)
    before = [[fp(o) for o in b] for b in R0]
    gb = [g.get_full_pars().tobytes() for g in gm]

    def untouched(msg):
        check([[fp(o) for o in b] for b in rows(obs)] == before, '%s: template changed', msg)
        check([g.get_full_pars().tobytes() for g in gm] == gb, '%s: mixture changed', msg)
    miss = any(not o.has_psf() or not o.psf.has_gmix() for b in R0 for o in b)
    if miss and case['conv'] and not case['nomix']:
        raises(RuntimeError, call, case, arg, obs, _msg='convolution without a psf mixture')
        untouched('refusal')
        return
    ctx.nontrivial(sum(len(b) for b in R0) > 1)
    sim = call(case, arg, obs)
    untouched('simulation')
    check(type(sim) is type(obs), 'container')
    S = rows(sim)
    check([len(b) for b in S] == [len(b) for b in R0], 'members')
    nf = case['nf']
    for k, (b, sb) in enumerate(zip(R0, S)):
        for o, s in zip(b, sb):
            check(s is not o, 'the template itself')
            check(s.image.shape == o.image.shape, 'shape')
            check(s.jacobian == o.jacobian and s.jacobian is not o.jacobian, 'transform')
            close(s.weight, o.weight / nf**2 if nf else o.weight, 1e-14, 0, 'weight')
            check(s.has_psf() == o.has_psf(), 'psf')
            if o.has_psf():
                check(s.psf is not o.psf and fp(s.psf) == fp(o.psf), 'psf copy')
            if case['nomix']:
                exp, scale = np.zeros(o.image.shape), 0.0
            else:
                exp, p = expected(o, ref_of(case['mix'][k]) if k < len(case['mix']) else gm[k].get_full_pars(), case['conv'])
                # gaussians far from their center are dropped by the renderer
                peak = sum(abs(q[0]) / (2 * np.pi * np.sqrt(q[3] * q[5] - q[4]**2)) for q in np.asarray(p).reshape(-1, 6))
                jj = o.jacobian
                scale = 1e-5 * peak * abs(jj.dvdrow * jj.dudcol - jj.dvdcol * jj.dudrow)
            im = s.image
            if case['noise']:
                check(s.noise_image.shape == im.shape, 'noise image')
                check(np.abs(s.noise_image).max() > 0, 'no noise')
                im = im - s.noise_image
                scale = scale + 1e-13 * np.abs(s.noise_image).max()
            else:
                check(s.noise_image is None, 'noise image without noise')
            close(im, exp, 1e-4, scale + 1e-300, 'model image')
            # pixels hold the new image
            use = s.weight.ravel() > 0
            same(s.pixels['val'], s.image.ravel()[use], 'pixels')
    # same state, same output; another state, another noise
    again = call(case, arg, obs)
    other = call(case, arg, obs, rng=rng_of(case['rseed'] + 1))
    for b, c, d in zip(S, rows(again), rows(other)):
        for s, t, x in zip(b, c, d):
            same(s.image, t.image, 'same random state')
            if case['noise']:
                check(not np.array_equal(s.image, x.image), 'the noise does not depend on the random state')
            else:
                same(s.image, x.image, 'without noise')
    # outputs own their data
    for b in S:
        for s in b:
            with s.writeable():
                s.image[:] = 3
                s.weight[:] = 5
                s.jacobian.set_cen(row=0, col=0)
            if s.has_psf():
                with s.psf.writeable():
                    s.psf.image[:] = 4
                if s.psf.has_gmix():
                    with s.psf.writeable():
                        s.psf.gmix.set_flux(33.0)
                s.psf.meta['p'] = 2
    untouched('editing the output')


@R.law(st.fixed_dictionaries(dict(_case, wrong=st.sampled_from(['len', 'notlist', 'type', 'single', 'obs', 'norng', 'tuple']))), quick=200, rule='all')
def refused(case, ctx):
    """arguments that do not fit are refused and leave the template alone"""
    case['conv'] = case['psfall'] = True
    obs, gm, arg = setup(case)
    before = [[fp(o) for o in b] for b in rows(obs)]
    ctx.nontrivial()
    w = case['wrong']
    ctx.label(w)
    if w == 'norng':
        raises(ValueError, call, case, arg, obs, rng=None, add_noise=True, _msg='noise without a generator')
        call(case, arg, obs, rng=None, add_noise=False)
    elif w == 'obs':
        raises(ValueError, call, case, gm[0], obs.__class__, _msg='not an observation')
    elif w == 'type':
        bad = [1.0] * len(gm) if case['kind'] == 'mb' else [1.0, 2.0]
        raises(ValueError, call, case, bad, obs, _msg='not a mixture')
    elif case['kind'] == 'mb':
        bad = {'len': gm + [gm[0]], 'notlist': gm[0], 'single': gm[:-1] + [3.0], 'tuple': gm + [gm[0], gm[0]]}[w]
        raises(ValueError, call, case, bad, obs, _msg='mixtures that do not match the bands: %s' % w)
    else:
        raises(ValueError, call, case, gm, obs, _msg='a list of mixtures for a single band')
    check([[fp(o) for o in b] for b in rows(obs)] == before, 'template changed')


@R.law(st.fixed_dictionaries(dict(seed=seeds, nr=ints(30, 45), nc=ints(30, 45), kind=st.sampled_from(['obs', 'list', 'mb']), w=wspec(kinds=('flat', 'var', 'mask', 'umask')), levels=st.lists(logfl(0.01, 100.0), min_size=3, max_size=3), raw=st.booleans(), useraw=st.booleans(),
                                  nf=pick((1, st.none()), (2, logfl(0.1, 10.0))), add_all=st.booleans(), rseed=seeds)), quick=400, rule='masked pixels, a noise factor or a raw weight')
def noise(case, ctx):
    """noise has zero mean and the variance of the documented weight, without correlations; masked pixels as documented"""
    r = rng_of(case['seed'])
    sh = (case['nr'], case['nc'])
    members = []
    for lv in case['levels']:
        w = weights(sh, case['w']) * lv
        w[r.randint(sh[0]), r.randint(sh[1])] = lv
        o = Observation(np.zeros(sh), weight=w, jacobian=ngmix.DiagonalJacobian(row=3, col=3, scale=0.5))
        if case['raw']:
            o.weight_raw = r.uniform(0.5, 2.0, size=sh) * 100 * lv
            if case['w']['frac'] < 0.1:
                o.weight_raw[r.uniform(size=sh) < 0.1] = 0
        members.append(o)
    if case['kind'] == 'obs':
        members = members[:1]
        obs = members[0]
    else:
        obs = ObsList()
        for o in members:
            obs.append(o)
        if case['kind'] == 'mb':
            ol, obs = obs, MultiBandObsList()
            obs.append(ol)
            ol2 = ObsList()
            ol2.append(members[0])
            obs.append(ol2)
            members = members + [members[0]]
    kw = dict(add_noise=True, add_all=case['add_all'], use_raw_weight=case['useraw'], noise_factor=case['nf'])
    sim = simulate_obs(None, obs, rng=rng_of(case['rseed']), **kw)
    ctx.nontrivial(case['raw'] or case['nf'] is not None or case['w']['kind'] in ('mask', 'umask'))
    out = [s for b in rows(sim) for s in b]
    std = []
    for o, s in zip(members, out):
        w = o.weight_raw if case['raw'] and case['useraw'] else o.weight
        pos = w > 0
        err = np.zeros(sh)
        err[pos] = 1 / np.sqrt(w[pos])
        if case['add_all']:
            err[~pos] = np.median(err[pos])
        elif (~pos).any():
            check(np.all(s.image[~pos] == 0), 'noise in pixels without weight')
        err *= case['nf'] or 1.0
        use = err > 0
        z = s.image[use] / err[use]
        n = z.size
        same(s.image, s.noise_image, 'the image is the noise')
        # six standard deviations
        check(abs(z.sum()) <= 6 * np.sqrt(n), 'mean of the noise: %g sigma', z.sum() / np.sqrt(n))
        if n > 30:
            check(abs((z**2).sum() - n) <= 6 * np.sqrt(2 * n) + 20, 'variance of the noise is %g of the stated one (%d pixels)', (z**2).mean(), n)
        check(np.abs(z).max() < 8.0, 'outlier in the noise')
        zz = np.zeros(sh)
        zz[use] = z
        for a, b in ((zz[1:], zz[:-1]), (zz[:, 1:], zz[:, :-1]), (zz[2:], zz[:-2])):
            m = ((a != 0) & (b != 0)).sum()
            check(abs((a * b).sum()) <= 6 * np.sqrt(m) + 20, 'neighbouring pixels are correlated')
        # separate classes of pixels
        for sel in (~pos & use, pos & (w > np.median(w[pos])), pos & (w <= np.median(w[pos]))):
            k = sel.sum()
            if k > 60:
                q = (s.image[sel] / err[sel])
                check(abs((q**2).sum() - k) <= 6 * np.sqrt(2 * k) + 20, 'variance of the noise in a class of pixels: %g (%d)', (q**2).mean(), k)
        std.append(zz)
    for i in range(len(std)):
        for k in range(i):
            m = ((std[i] != 0) & (std[k] != 0)).sum()
            check(abs((std[i] * std[k]).sum()) <= 6 * np.sqrt(m) + 20, 'epochs share their noise')
    # no weight at all: noise without bound
    z = ngmix.simobs.get_noise_image(np.zeros(sh), rng_of(case['rseed']))
    check(np.abs(z).max() > 1e14 * 3 and np.isfinite(z).all(), 'noise for no weight anywhere is %g', np.abs(z).max())
    # the factor scales the noise
    if case['nf'] is not None:
        ref = simulate_obs(None, obs, rng=rng_of(case['rseed']), **dict(kw, noise_factor=None))
        for s, t in zip(out, [x for b in rows(ref) for x in b]):
            close(s.image, t.image * case['nf'], 1e-12, 0, 'noise factor')
            close(s.weight * case['nf']**2, t.weight, 1e-12, 0, 'weight for a noise factor')
