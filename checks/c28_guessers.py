"""C28: guesses have the layout of their model, stay near their target and are usable"""
import math
import numpy as np
import ngmix
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds, rng_of, jac, make_jac, vu, jdet, disk, sign
from ngmix import GMix, GMixModel, Observation, ObsList, MultiBandObsList, priors as P, joint_prior as J
from ngmix import guessers as G
from ngmix.gexceptions import GMixRangeError, PSFFluxFailure
from ngmix.gmix import GMixCoellip

ORACLE = ('the documented range of each slot around its target (psf fluxes from closed-form least squares), the support and '
          'log-probability of the prior, a fresh guesser with the same random state, and the models the guess is handed to')
R = Registry()
TOL = 1e-9


def near(x, t, rel):
    return np.abs(x - t) <= rel * np.abs(t) * (1 + 1e-9) + 1e-300


# ---- priors whose support holds, cuts or misses the range around the target ----
sup = st.tuples(pick((4, st.just('wide')), (3, st.just('cut')), (2, st.just('off')), (1, st.just('erf')), (1, st.just('log')),
                     (1, st.just('normal')), (1, st.just('trunc'))), fl(0, 1))


def part(s, t, rng):
    """(prior, whole +-10% range in the support?)"""
    kind, u = s
    a = abs(t) + (1.0 if t == 0 else 0.0)
    lo, hi = t - 0.1 * a, t + 0.1 * a
    if kind == 'wide':
        return P.FlatPrior(t - a, t + a, rng=rng), True
    if kind == 'cut':
        return P.FlatPrior(lo + u * 0.2 * a, t + 5 * a, rng=rng), False
    if kind == 'off':
        return P.FlatPrior(t + 2 * a, t + 5 * a, rng=rng), False
    if kind == 'erf':
        # no probability at all beyond the edges
        return P.TwoSidedErf(t + 3 * a, 0.01 * a, t + 6 * a, 0.01 * a, rng=rng), False
    if kind == 'log':
        return P.LogNormal(a, 0.3 * a, rng=rng, shift=(None if t > 0 else t)), t > 0
    if kind == 'normal':
        return P.Normal(t + 3 * a * u, 0.5 * a, rng=rng), True
    return P.TruncatedGaussian(t, a, lo + u * 0.2 * a, t + 3 * a, rng=rng), False


def joint(kind, c, T, fluxes, rng, extra=0.7):
    """a joint prior with a narrow center prior far from zero; returns (prior, list of 'range is inside' for T and fluxes)"""
    cen = P.CenPrior(5.0, -3.0, 0.001, 0.002, rng=rng)
    g = P.GPriorBA(0.3, rng=rng)
    Tp, ins = part(c['T'], T, rng)
    fp = [part(s, f, rng) for s, f in zip(c['F'], fluxes)]
    Fp = [p for p, _ in fp]
    ok = [ins] + [i for _, i in fp]
    if len(Fp) == 1 and c['bare']:
        Fp = Fp[0]
    if kind == 'simple':
        return J.PriorSimpleSep(cen, g, Tp, Fp), ok
    if kind == 'galsim':
        return J.PriorGalsimSimpleSep(cen, g, Tp, Fp), ok
    # fracdev and index supports
    narrow = P.Normal(extra, 1e-3, rng=rng)
    if kind == 'bdf':
        return J.PriorBDFSep(cen, g, Tp, P.FlatPrior(-1, 2, rng=rng), Fp), ok
    if kind == 'spergel':
        return J.PriorSpergelSep(cen, g, Tp, P.FlatPrior(-0.85, 3.5, rng=rng), Fp), ok
    return J.PriorBDSep(cen, g, Tp, narrow, P.FlatPrior(-1, 2, rng=rng), Fp), ok


flux = st.one_of(logfl(0.01, 1e4), logfl(0.01, 1e4), logfl(0.01, 1e4).map(lambda x: -x), st.just(0.0))
case_st = st.fixed_dictionaries(dict(
    T=sup, F=st.lists(sup, min_size=4, max_size=4), bare=st.booleans(), prior=st.booleans(), seed=seeds,
    Tval=pick((5, logfl(1e-3, 1e3)), (1, st.just(0.0)), (1, logfl(1e-3, 1).map(lambda x: -x))),
    flux=st.lists(flux, min_size=1, max_size=4), asis=st.sampled_from(['list', 'array', 'tuple']),
    calls=st.lists(pick((2, st.just(1)), (1, st.none()), (4, ints(2, 12))), min_size=1, max_size=3)))

KINDS = ['TFlux', 'TFluxAndPrior', 'R50Flux', 'R50NuFlux', 'BDF', 'BD', 'Prior']


def layout(guess, nrand, npars, none1=True):
    """rows of a guess after its shape has been checked"""
    if nrand is None or (nrand == 1 and none1):
        check(np.shape(guess) == (npars,), 'guess has shape %r for %d parameters', np.shape(guess), npars)
        return np.array(guess).reshape(1, npars)
    check(np.shape(guess) == (nrand, npars), 'guess of nrand=%r has shape %r for %d parameters', nrand, np.shape(guess), npars)
    return np.array(guess)


def _fluxarg(c):
    f = c['flux']
    if len(f) == 1 and c['bare']:
        return f[0]
    return {'list': list(f), 'array': np.array(f), 'tuple': tuple(f)}[c['asis']]


def _make(kind, c, nu, rng):
    fx = c['flux']
    T = abs(c['Tval']) if kind.startswith('R50') else c['Tval']
    fa = _fluxarg(c)
    if kind in ('TFlux', 'R50Flux', 'R50NuFlux'):
        pk = {'TFlux': 'simple', 'R50Flux': 'galsim', 'R50NuFlux': 'spergel'}[kind]
        pr, ok = joint(pk, c, T, fx, rng) if c['prior'] else (None, [True] * (1 + len(fx)))
        if kind == 'TFlux':
            return G.TFluxGuesser(rng, T, fa, prior=pr), pr, ok, fa
        if kind == 'R50Flux':
            return G.R50FluxGuesser(rng, T, fa, prior=pr), pr, ok, fa
        return G.R50NuFluxGuesser(rng, T, nu, fa, prior=pr), pr, ok, fa
    if kind == 'TFluxAndPrior':
        pr, ok = joint('simple', c, T, fx, rng)
        return G.TFluxAndPriorGuesser(rng, T, fa, pr), pr, ok, fa
    if kind == 'BDF':
        pr, ok = joint('bdf', c, T, fx, rng)
        return G.BDFGuesser(T, fa, pr), pr, ok, fa
    if kind == 'BD':
        pr, ok = joint('bd', c, T, fx, rng)
        return G.BDGuesser(T, fa, pr), pr, ok, fa
    pr, ok = joint('simple', c, T, fx, rng)
    return G.PriorGuesser(pr), pr, ok, fa


def verify(kind, rows, T, fx, nu, pr, ok):
    """each row is near its targets, or a replacement from the prior where the prior excludes part of the range; always usable"""
    off = {'BDF': 6, 'BDFPSFFlux': 6, 'R50NuFlux': 6, 'BD': 7}.get(kind, 5)
    own = kind in ('TFlux', 'R50Flux', 'R50NuFlux', 'TPSFFlux')      # center and shape around zero
    nrep = 0
    for q in rows:
        check(np.isfinite(q).all(), '%s: guess %r is not finite', kind, q)
        if pr is not None:
            try:
                lp = pr.get_lnprob_scalar(q)
            except GMixRangeError as e:
                raise AssertionError('%s: guess %r is rejected by its prior: %s' % (kind, list(q), e))
            check(lp > -np.inf, '%s: guess %r has no probability', kind, list(q))
        check(math.hypot(q[2], q[3]) < 1, '%s: shape of the guess', kind)
        if kind == 'Prior':
            check(abs(q[0] - 5) < 0.01 and abs(q[1] + 3) < 0.02, 'center %r is not from the prior', list(q[:2]))
            continue
        isnear = near(q[4], T, 0.1) and all(near(q[off + b], f, 0.1) for b, f in enumerate(fx))
        cen0 = abs(q[0]) <= 0.01 and abs(q[1]) <= 0.01 and abs(q[2]) <= 0.02 and abs(q[3]) <= 0.02
        cenp = abs(q[0] - 5) < 0.01 and abs(q[1] + 3) < 0.02
        if all(ok):
            check(isnear, '%s: T and fluxes %r %r of the guess are not within 10%% of %r %r', kind, q[4], list(q[off:]), T, list(fx))
            check(cen0 if own else cenp, '%s: center and shape %r', kind, list(q[:4]))
        else:
            check(isnear or not all(ok), 'range')
            nrep += not isnear
            check((isnear and cen0) or cenp if own else cenp, '%s: center and shape %r of a guess with T, fluxes %r %r', kind,
                  list(q[:4]), q[4], list(q[off:]))
        if kind == 'BDF' or kind == 'BDFPSFFlux':
            check(0.4 <= q[5] <= 0.6 or not all(ok), '%s: fracdev guess %r', kind, q[5])
        if kind == 'BD':
            check(abs(q[5] - 0.7) < 0.01, 'BD: size ratio %r is not from its prior', q[5])
            check(0.4 <= q[6] <= 0.6 or not all(ok), 'BD: fracdev guess %r', q[6])
        if kind == 'R50NuFlux':
            n = min(max(nu, -0.85), 3.5)
            check(-0.85 <= q[5] <= 3.5, 'index guess %r is out of the range of the model', q[5])
            check(near(q[5], n, 0.1) or not all(ok), 'index guess %r is not near %r', q[5], n)
    return nrep


@R.law(st.tuples(st.sampled_from(KINDS), case_st, pick((4, fl(-0.85, 3.5)), (1, fl(-2, 6)), (1, st.sampled_from([0.0, -0.85, 3.5])))), quick=1500,
       thorough=25000, shards=3, rule='more than one band or a prior that excludes part of the range')
def target_guesses(case, ctx):
    """guesses around a size, fluxes and a prior: layout, ranges, usable for the model and prior"""
    kind, c, nu = case
    g, pr, ok, fa = _make(kind, c, nu, np.random.RandomState(c['seed']))
    fx = c['flux']
    T = abs(c['Tval']) if kind.startswith('R50') else c['Tval']
    ctx.nontrivial(len(fx) > 1 or not all(ok))
    ctx.label('%s%s%s' % (kind, '' if pr is None else ' prior', '' if all(ok) else ' cut'))
    npars = {'BDF': 6, 'BD': 7, 'R50NuFlux': 6}.get(kind, 5) + len(fx)
    before = np.array(fa, ndmin=1).copy()
    g0 = np.random.get_state()[1].copy()
    out = []
    for n in c['calls']:
        if kind == 'Prior':
            q = g(nrand=n)
        else:
            q = g() if n is None else g(nrand=n)
        out.append(np.array(q))
        rows = layout(q, n, npars, kind != 'Prior')
        verify(kind, rows, T, fx, nu, pr, ok)
        # guesses get modified by their users
        q[:] = np.nan
    same(np.array(fa, ndmin=1), before, 'fluxes handed in')
    same(np.random.get_state()[1], g0, 'global random state')
    g, pr, ok, fa = _make(kind, c, nu, np.random.RandomState(c['seed']))
    for n, q in zip(c['calls'], out):
        if kind == 'Prior':
            r = g(nrand=n)
        else:
            r = g(obs=None) if n is None else g(nrand=n, obs=None)
        same(np.array(r), q, '%s: guess from the same random state' % kind)
    # distinct guesses
    allr = np.vstack([np.atleast_2d(q) for q in out])
    if len(allr) > 1:
        check(len(np.unique(allr[:, 0])) == len(allr), '%s: repeated guesses', kind)


def unshear(g1, g2, n1, n2):
    """the shear that takes shape g to n:  n = (g + s)/(1 + g conj(s))"""
    g, n = complex(g1, g2), complex(n1, n2)
    a, b = g * n, n - g
    s = (b + a * b.conjugate()) / (1 - abs(a) ** 2)
    return s.real, s.imag


@R.law(st.tuples(st.lists(fl(-3, 3), min_size=0, max_size=5), st.tuples(fl(-3, 3), fl(-3, 3)), pick((4, disk(0.79)), (1, disk(0.99)), (1, st.tuples(
    fl(-3, 3), fl(-3, 3)))), fl(-2, 5), st.lists(logfl(1e-4, 0.4), min_size=10, max_size=10),
    st.sampled_from(['none', 'none', 'array', 'list']), st.lists(pick((2, st.none()), (2, st.just(1)), (3, ints(2, 8))), min_size=1, max_size=3),
    seeds, st.sampled_from(['array', 'list', 'int']), st.booleans()), quick=500, thorough=8000, shards=2, rule='every case')
def pars_guesses(case, ctx):
    """guesses around given parameters"""
    extra, cen, g, T, wd, wkind, calls, seed, how, withprior = case
    ctx.nontrivial()
    pars = list(cen) + list(g) + [T] + extra
    if how == 'int':
        pars = [int(p) for p in pars[:2]] + [0, 0] + [int(p) for p in pars[4:]]
    n = len(pars)
    widths = None if wkind == 'none' else np.array(wd[:n])
    if wkind == 'list':
        widths = list(widths)
    wref = np.array([0.02] * 2 + [0.1] * (n - 2)) if widths is None else np.array(widths)
    pin = pars if how == 'list' else np.array(pars)
    pb, wb = np.array(pin).copy(), None if widths is None else np.array(widths).copy()
    prior = None
    rng = np.random.RandomState(seed)
    if withprior and n >= 6:
        # a prior that excludes the target of the last flux
        F = [P.Normal(0.0, 10.0, rng=rng) for _ in range(n - 6)] + [P.FlatPrior(10.0, 20.0, rng=rng)]
        prior = J.PriorSimpleSep(P.CenPrior(50.0, 50.0, 20, 20, rng=rng), P.GPriorBA(0.4, rng=rng), P.Normal(0.0, 10.0, rng=rng), F)
    ctx.label('%s%s' % (wkind, ' prior' if prior else ''))
    gs = G.ParsGuesser(rng, pin, prior=prior, widths=widths)
    outs = []
    for nr in calls:
        q = gs(nrand=nr)
        outs.append(np.array(q))
        for r in layout(q, nr, n, False):
            check(np.isfinite(r).all() and math.hypot(r[2], r[3]) < 1, 'guess %r', list(r))
            if prior is not None:
                check(prior.get_lnprob_scalar(r) > -np.inf, 'guess has no probability')
                check(10 <= r[-1] <= 20, 'flux %r outside of the support', r[-1])
                continue
            check((np.abs(r[:2] - pb[:2]) <= wref[:2] + TOL).all(), 'center %r not within %r of %r', r[:2], wref[:2], pb[:2])
            g1, g2 = pb[2], pb[3]
            m = math.hypot(g1, g2)
            if m > 0.8:
                g1, g2 = g1 * 0.8 / m, g2 * 0.8 / m
            s1, s2 = unshear(g1, g2, r[2], r[3])
            check(abs(s1) <= wref[2] + 1e-8 and abs(s2) <= wref[3] + 1e-8, 'shape %r is %r from %r, widths %r', r[2:4], (s1, s2), (g1, g2), wref[2:4])
            for i in range(4, n):
                check(near(r[i], pb[i], wref[i]) or abs(r[i] - pb[i]) < 1e-12, 'parameter %d: guess %r of %r with relative width %r', i, r[i],
                      pb[i], wref[i])
        q[:] = np.nan
    same(np.array(pin), pb, 'pars handed in')
    if wb is not None:
        same(np.array(widths), wb, 'widths handed in')
    if prior is None:
        g2 = G.ParsGuesser(np.random.RandomState(seed), pin, widths=widths)
        for nr, q in zip(calls, outs):
            same(g2(nrand=nr, obs=None), q, 'guess from the same random state')


@R.law(st.tuples(fl(-3, 3), fl(-3, 3), ints(1, 6), logfl(1e-4, 0.9), logfl(1e-4, 0.9), fl(0.05, 0.99), st.booleans(), seeds), quick=300, thorough=5000,
       rule='the given shape is larger than the maximum')
def shape_guess(case, ctx):
    """shape guesses stay within the maximum"""
    g1, g2, n, w1, w2, mx, dflt, seed = case
    mx = 0.99 if dflt else mx
    m = math.hypot(g1, g2)
    ctx.nontrivial(m > mx)
    kw = {} if dflt else {'max': mx}
    r = G.get_shape_guess(rng=np.random.RandomState(seed), g1=g1, g2=g2, nrand=n, width=[w1, w2], **kw)
    check(r.shape == (n, 2) and (np.hypot(r[:, 0], r[:, 1]) < 1).all(), 'shape guesses %r', r)
    if m > mx:
        g1, g2 = g1 * mx / m, g2 * mx / m
    for q in r:
        s1, s2 = unshear(g1, g2, q[0], q[1])
        check(abs(s1) <= w1 + 1e-6 and abs(s2) <= w2 + 1e-6, 'shape %r is %r away from %r', q, (s1, s2), (g1, g2))
    same(G.get_shape_guess(rng=np.random.RandomState(seed), g1=case[0], g2=case[1], nrand=n, width=[w1, w2], **kw), r, 'same random state')


# ---- guesses from observations ----
obs_st = st.fixed_dictionaries(dict(seed=seeds, nepoch=ints(1, 3), j=jac(0.2, 1.2, 0.2), flux=logfl(0.5, 500), sgn=pick((4, st.just(1)), (1, st.just(-1))),
                                    n=ints(5, 9), bad=pick((8, st.just(0)), (1, st.just(1)), (1, st.just(2))), raw=st.booleans()))


def mkband(b):
    r = rng_of(b['seed'])
    ol = ObsList()
    num = den = 0.0
    for e in range(1 if b['bad'] == 2 else b['nepoch']):
        n = b['n']
        row, col = (n - 1) / 2 + r.uniform(-1, 1), (n - 1) / 2 + r.uniform(-1, 1)
        s2 = b['j']
        J0 = make_jac(s2, row, col)
        area = abs(jdet(s2))
        v, u = vu((n, n), s2, row, col)
        sig = area * r.uniform(0.7, 3)
        m = np.exp(-0.5 * (v ** 2 + u ** 2) / sig) / (2 * np.pi * sig) * area
        gm = GMix(pars=[r.uniform(0.3, 3) if b['raw'] else 1.0, 0, 0, sig, 0, sig])
        w = r.uniform(0.5, 2, size=(n, n))
        w[r.randint(n), r.randint(n)] = 0.0
        im = b['sgn'] * b['flux'] * m + 0.01 * b['flux'] * r.normal(size=(n, n)) * m.max()
        num += (w * m * im).sum()
        den += (w * m * m).sum()
        if b['bad'] == 2:
            # one pixel: a flux, but flagged, as it has no error
            k = n // 2
            w, wk = np.zeros((n, n)), w[k, k] + 0.5
            w[k, k] = wk
        if b['bad'] == 1:
            k = np.argwhere(w > 0)[3]
            im[k[0], k[1]] = np.nan
        ol.append(Observation(im, weight=w, jacobian=J0, psf=Observation(np.ones((3, 3)), gmix=gm)))
    return ol, num / den


def mkobs(spec):
    """(the observation(s), the flux of each band; nan for bands without one)"""
    bands, how = spec
    r = [mkband(b) for b in bands]
    fx = [np.nan if b['bad'] else f for b, (_, f) in zip(bands, r)]
    if len(bands) == 1 and how == 'obs':
        ol = r[0][0]
        if len(ol) == 1:
            return ol[0], fx
        return ol, fx
    if len(bands) == 1 and how == 'list':
        return r[0][0], fx
    mb = MultiBandObsList()
    for ol, _ in r:
        mb.append(ol)
    return mb, fx


def fp(x):
    if isinstance(x, MultiBandObsList):
        return [fp(o) for o in x]
    if isinstance(x, ObsList):
        return [fp(o) for o in x]
    return [x.image.tobytes(), x.weight.tobytes(), repr(x.jacobian), x.psf.gmix.get_full_pars().tobytes(), x.psf.image.tobytes()]


def warmup():
    j = ngmix.DiagonalJacobian(row=3, col=3, scale=1)
    gm = GMixModel([0, 0, 0, 0, 3, 1.0], 'gauss')
    im = gm.make_image((7, 7), jacobian=j)
    ob = Observation(im, weight=im * 0 + 1, jacobian=j, psf=Observation(im, jacobian=j, gmix=gm))
    G.TPSFFluxGuesser(np.random.RandomState(0), 1.0)(ob)
    G.SimplePSFGuesser(np.random.RandomState(0), guess_from_moms=True)(ob)
    GMixCoellip([0, 0, 0, 0, 1, 1])


obsspec = st.tuples(st.lists(obs_st, min_size=1, max_size=4), st.sampled_from(['obs', 'list', 'mb']))
step = st.tuples(pick((3, st.just('pool')), (2, st.just('fresh'))), ints(0, 2), pick((2, st.just(1)), (3, ints(2, 6))))


@R.law(st.tuples(st.sampled_from(['TPSFFlux', 'TPSFFlux prior', 'TPSFFluxAndPrior', 'BDFPSFFlux']), case_st, st.lists(obsspec, min_size=3, max_size=3),
                 st.lists(step, min_size=2, max_size=8), ints(1, 4)), quick=250, thorough=4000, shards=3,
       rule='at least two different observations are passed, with more than one band, a failed one, or a short-lived one among them')
def observed_guesses(case, ctx):
    """flux guesses are around the psf fluxes of the observation passed in that call"""
    kind, c, specs, steps, nb = case
    hasprior = kind != 'TPSFFlux'
    T = abs(c['Tval']) + 0.1
    if hasprior:
        # the number of bands is that of the prior
        specs = [([s[0][i % len(s[0])] for i in range(nb)], s[1]) for s in specs]
        # supports around values that have nothing to do with the fluxes
        c = dict(c, F=[('wide', 0.5) if s[0] in ('cut', 'trunc', 'erf', 'log') else s for s in c['F']])
        center = [300.0, -40.0, 1000.0, 5.0][:nb]

    def build():
        rng = np.random.RandomState(c['seed'])
        pr = ok = None
        if hasprior:
            pr, ok = joint('bdf' if kind == 'BDFPSFFlux' else 'simple', c, T, center, rng)
        if kind.startswith('TPSFFlux ') or kind == 'TPSFFlux':
            return G.TPSFFluxGuesser(rng, T, prior=pr), pr, ok
        if kind == 'TPSFFluxAndPrior':
            return G.TPSFFluxAndPriorGuesser(rng, T, pr), pr, ok
        return G.BDFPSFFluxGuesser(T, pr), pr, ok

    def run(record):
        g, pr, ok = build()
        pool = [mkobs(s) for s in specs]
        used, special = set(), False
        for how, k, n in steps:
            obs, fx = pool[k] if how == 'pool' else mkobs(([dict(b, seed=b['seed'] ^ 12345, flux=b['flux'] * 3) for b in specs[k][0]], specs[k][1]))
            before = fp(obs)
            used.add((how, k))
            fx = np.array(fx)
            special = special or len(fx) > 1 or how == 'fresh' or not np.isfinite(fx).all()
            good = np.isfinite(fx)
            if not good.any():
                raises(PSFFluxFailure, g, obs=obs, nrand=n, _msg='no band has a flux')
                check(fp(obs) == before, 'observation changed')
                record.append(None)
                del obs
                continue
            q = g(obs=obs, nrand=n)
            record.append(np.array(q))
            check(fp(obs) == before, 'observation changed')
            off = 6 if kind == 'BDFPSFFlux' else 5
            rows = layout(q, n, off + len(fx))
            q[:] = np.nan
            name = 'TPSFFlux' if kind == 'TPSFFlux prior' else kind
            for r in rows:
                check(np.isfinite(r).all(), 'guess %r', r)
                if pr is not None:
                    try:
                        lp = pr.get_lnprob_scalar(r)
                    except GMixRangeError as e:
                        raise AssertionError('guess %r is rejected by its prior: %s' % (list(r), e))
                    check(lp > -np.inf, 'guess has no probability')
                vals = r[off:off + len(fx)]
                isnear = all(near(v, f, 0.1 + 1e-7) for v, f in zip(vals[good], fx[good]))
                mean = fx[good].mean()
                isnear = isnear and all(np.abs(v - mean) <= 0.2101 * abs(mean) for v in vals[~good])
                isnear = isnear and near(r[4], T, 0.1)
                if pr is None:
                    check(isnear, 'guess T %r, fluxes %r for T %r and psf fluxes %r of this observation', r[4], list(vals), T, list(fx))
                    check((np.abs(r[:2]) <= 0.01).all() and (np.abs(r[2:4]) <= 0.02).all(), 'center and shape %r', list(r[:4]))
                else:
                    # within the range, or the range is not wholly allowed by the prior
                    lo = np.array([min(f * 0.9, f * 1.1) for f in np.where(good, fx, mean * 1.0)])
                    hi = np.array([max(f * 0.9, f * 1.1) for f in np.where(good, fx, mean * 1.0)])
                    allowed = ok[0] and good.all()
                    for b in range(len(fx)):
                        F = pr.F_priors[b]
                        try:
                            for v in (lo[b], hi[b]):
                                allowed = allowed and F.get_lnprob_scalar(v) > -np.inf
                        except GMixRangeError:
                            allowed = False
                    if allowed:
                        ctx.label(kind + ' near')
                        check(isnear, 'guess T %r, fluxes %r for T %r and psf fluxes %r of this observation, which the prior allows', r[4], list(vals), T,
                              list(fx))
                    cenp = abs(r[0] - 5) < 0.01 and abs(r[1] + 3) < 0.02
                    if kind == 'TPSFFlux prior':
                        check(cenp or (isnear and (np.abs(r[:2]) <= 0.01).all() and (np.abs(r[2:4]) <= 0.02).all()), 'center %r', list(r[:4]))
                    else:
                        check(cenp, 'center %r is not from the prior', list(r[:2]))
                    if kind == 'BDFPSFFlux' and allowed:
                        check(0.4 <= r[5] <= 0.6, 'fracdev guess %r', r[5])
            del obs
        return len(used) > 1 and special

    a, b = [], []
    ctx.nontrivial(run(a))
    ctx.label(kind)
    run(b)
    for x, y in zip(a, b):
        check((x is None) == (y is None), 'failures repeat')
        if x is not None:
            same(x, y, 'guess from the same random state')


@R.law(st.tuples(st.sampled_from(['gmix', 'simple', 'coellip']), ints(1, 5), st.booleans(), fl(1.7, 5.0), logfl(0.1, 1e3), jac(0.1, 1.5, 0.1), ints(13, 19),
                 fl(-0.3, 0.3), seeds), quick=400, thorough=6000, shards=2, rule='more than one gaussian or moments used')
def psf_guesses(case, ctx):
    """starting points for psf fits"""
    kind, ng, moms, fwhm, F, jj, n, off, seed = case
    ctx.nontrivial(ng > 1 or moms)
    ctx.label('%s%s' % (kind, ' moms' if moms else ''))
    if moms:
        jj = dict(jj) if isinstance(jj, dict) else jj
    r = rng_of(seed)
    row, col = (n - 1) / 2 + off, (n - 1) / 2 - off
    jc = make_jac(jj, row, col)
    scale = math.sqrt(abs(jdet(jj)))
    v, u = vu((n, n), jj, row, col)
    Tt = 2 * (fwhm * scale / 2.3548200450309493) ** 2
    im = F * np.exp(-(v ** 2 + u ** 2) / Tt) / (np.pi * Tt) * scale ** 2
    if moms:
        if im[0].max() > 1e-6 * im.max() or im[:, 0].max() > 1e-6 * im.max() or im[-1].max() > 1e-6 * im.max() or im[:, -1].max() > 1e-6 * im.max():
            raise Skip()
        T, fx, slop = Tt, F, 0.04  # (undersampled moments)
    else:
        im = im + r.normal(size=im.shape) * 0.01 * im.max()
        fx = im.sum()
        T = 2 * (3.5 * scale / 2.3548200450309493) ** 2
        slop = 1e-6
        if fx <= 0:
            raise Skip()
    o = Observation(im, weight=r.uniform(0.5, 2.0, size=im.shape) if not moms else im * 0 + 3.0, jacobian=jc)
    before = [o.image.copy(), o.weight.copy()]

    def make(s):
        rng = np.random.RandomState(s)
        if kind == 'gmix':
            return G.GMixPSFGuesser(rng=rng, ngauss=ng, guess_from_moms=moms)
        if kind == 'simple':
            return G.SimplePSFGuesser(rng=rng, guess_from_moms=moms)
        return G.CoellipPSFGuesser(rng=rng, ngauss=ng, guess_from_moms=moms)
    gs = make(seed)
    runs = []
    for _ in range(2):
        q = gs(obs=o)
        if kind == 'gmix':
            check(type(q) is GMix and len(q) == ng, 'guess %r for %d gaussians', type(q), ng)
            f = q.get_full_pars().reshape(ng, 6)
            runs.append(f)
            check((np.abs(f[:, 1:3]) <= 0.1 + TOL).all(), 'centers %r', f[:, 1:3])
            check((f[:, 0] > 0).all() and (f[:, 3] * f[:, 5] - f[:, 4] ** 2 > 0).all(), 'unusable gaussians %r', f)
            ps = f[:, 0].sum()
            check(0.85 * fx * (1 - slop) <= ps <= 1.2 * fx * (1 + slop), 'total flux %r of the guess, image has %r', ps, fx)
            Tm = (f[:, 0] * (f[:, 3] + f[:, 5])).sum() / ps
            check(0.7 * T <= Tm <= 1.3 * T, 'size %r of the guess for %r', Tm, T)
            q.make_image((3, 3), jacobian=jc)
        else:
            m = 1 if kind == 'simple' else ng
            check(np.shape(q) == (4 + 2 * m,), 'guess has shape %r for %d gaussians', np.shape(q), m)
            runs.append(np.array(q))
            check((np.abs(q[:2]) <= 0.01 + TOL).all() and (np.abs(q[2:4]) <= 0.05 + TOL).all(), 'center and shape %r', q[:4])
            Ts, Fs = q[4:4 + m], q[4 + m:]
            check((Ts > 0).all() and (Fs > 0).all(), 'sizes and fluxes %r', q[4:])
            rel = 0.1 if m == 1 else 0.04
            check(abs(Fs.sum() / fx - 1) <= rel + slop, 'fluxes %r of the guess, image has %r', Fs, fx)
            Tm = (Ts * Fs).sum() / Fs.sum()
            check(abs(Tm / T - 1) <= rel + slop, 'sizes %r (mean %r) of the guess for %r', Ts, Tm, T)
            gm = GMixCoellip(q) if kind == 'coellip' else GMixModel(q, 'gauss')
            check(len(gm) == m, 'mixture of the guess')
            close(gm.get_flux(), Fs.sum(), 1e-9, 0, 'flux of the mixture of the guess')
        if kind != 'gmix':
            q[:] = np.nan
    check((runs[0] != runs[1]).any(), 'the same guess twice')
    g2 = make(seed)
    for x in runs:
        q = g2(o)
        same(q.get_full_pars().reshape(ng, 6) if kind == 'gmix' else q, x, 'guess from the same random state')
    same(o.image, before[0], 'image')
    same(o.weight, before[1], 'weight')


@R.law(st.tuples(st.sampled_from(['r50', 'ngauss', 'coellip']), logfl(1e-6, 10), st.one_of(ints(6, 50), ints(-5, 0)), seeds), quick=50, thorough=300,
       rule='every case')
def rejects(case, ctx):
    """unsupported requests are rejected"""
    kind, x, ng, seed = case
    ctx.nontrivial()
    rng = np.random.RandomState(seed)
    if kind == 'r50':
        raises(GMixRangeError, G.R50FluxGuesser, rng, -x, 1.0)
        raises(GMixRangeError, G.R50NuFluxGuesser, rng, -x, 1.0, 1.0)
    elif kind == 'ngauss':
        raises(ValueError, G.GMixPSFGuesser, rng, ng)
    else:
        raises(ValueError, G.CoellipPSFGuesser, rng, ng)
