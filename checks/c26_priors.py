"""C26: each prior is one consistent distribution across all of its methods"""
import contextlib
import io
import math
import numpy as np
from scipy import stats
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds, rng_of
from priorref import val, w, flat, lognormal, trunc, limit, d1, spec, inside, ks, ba_ln, ba_cdf
from ngmix import priors as P
from ngmix.gexceptions import GMixRangeError

ORACLE = ('closed-form log densities written out here in numpy/scipy.special, closed-form or numerically integrated '
          'distribution functions for samples (Kolmogorov-Smirnov at p < 1e-9), fresh priors with the same parameters for '
          'histories of parameter changes, and the documented floor/rejection rule outside the support')
R = Registry()

@R.law(st.tuples(d1, st.lists(pick((6, fl(-4, 4)), (1, fl(-30, 30))), min_size=1, max_size=8)), quick=2500, thorough=30000,
       shards=2, rule='the prior has a log density and at least one point lies in its support')
def density_1d(case, ctx):
    """exp of log density, scalar, array and residual forms agree with each other and with the closed form"""
    c, pts = case
    s = spec(c)
    p = s.prior
    ctx.label(s.kind)
    x = np.array([s.mode + t * s.scale for t in pts])
    ins = np.array([inside(s, v) for v in x])
    if s.kind == 'lognormal':
        ins &= (x - s.lo) > 1e-9 * (abs(s.lo) + s.scale)
    xi = x[ins]
    ctx.nontrivial(s.has_lnp and xi.size > 0)
    if hasattr(p, 'get_fdiff'):
        for v in xi:
            f = p.get_fdiff(float(v))
            close(f, s.fdiff(v), 1e-7, 1e-6, 'fdiff at %r' % v)
            if s.has_lnp:
                l = p.get_lnprob_scalar(float(v))
                if np.isfinite(l):
                    close(f ** 2, -2 * l, 1e-9, 1e-12, 'fdiff^2 against lnprob at %r' % v)
                else:
                    check(f == np.inf, 'fdiff %r for lnprob %r', f, l)
        if s.kind in ('normal', 'erf', 'sinh', 'lmbounds') and xi.size:
            a = xi.copy()
            same(np.asarray(p.get_fdiff(a)), np.array([p.get_fdiff(float(v)) for v in xi]), 'fdiff of an array')
            same(a, xi, 'get_fdiff input')
    if not s.has_lnp:
        return
    if xi.size:
        a = xi.copy()
        la = np.asarray(p.get_lnprob_array(a))
        same(a, xi, 'get_lnprob_array input')
        check(la.shape == xi.shape, 'lnprob_array shape %r for %r points', la.shape, xi.shape)
        e = np.asarray(s.lnp(xi), dtype='f8')
        for i, v in enumerate(xi):
            l = p.get_lnprob_scalar(float(v))
            check(l == la[i] or abs(l - la[i]) <= 1e-12 * (abs(l) + 1), 'lnprob scalar %r, array %r at %r', l, la[i], v)
            check(l <= 1e-12, 'lnprob %r above its peak of zero at %r', l, v)
            if s.kind == 'erf':
                pe = float(s.p(v))
                close(math.exp(l), max(pe, 0), 1e-12, 4e-16, 'exp(lnprob) at %r' % v)
            else:
                close(l, e[i], 1e-9, 1e-9, 'lnprob at %r' % v)
        if s.has_prob:
            pa = np.asarray(p.get_prob_array(a))
            same(a, xi, 'get_prob_array input')
            check(pa.shape == xi.shape, 'prob_array shape %r for %r points', pa.shape, xi.shape)
            for i, v in enumerate(xi):
                q = p.get_prob_scalar(float(v))
                close(q, pa[i], 1e-12, 0, 'prob scalar against array at %r' % v)
                # the two error functions can add up to less than zero where they overlap: the log has its floor there
                close(max(q, 0.0), math.exp(la[i]), 1e-12, 3e-16, 'prob against exp(lnprob) at %r' % v)
    # the peak has lnprob of zero
    if s.kind != 'trunc' or s.lo <= c[1] <= s.hi:
        pk = p.get_lnprob_scalar(float(s.mode))
        if s.kind == 'erf':
            check(pk >= float(s.lnp(s.mode)) - 1e-12, 'peak lnprob %r', pk)
        else:
            check(abs(pk) < 1e-12, 'lnprob %r at the peak', pk)


edge = st.tuples(st.one_of(flat, lognormal, trunc), st.sampled_from(['lo', 'hi', 'below', 'above', 'justbelow', 'justabove', 'inlo',
                                                                    'inhi']),
                 logfl(1e-9, 30), st.lists(fl(0.01, 0.99), min_size=0, max_size=4), ints(0, 4))


@R.law(edge, quick=500, thorough=10000, rule='the point is on or next to an edge of the support, or outside of it')
def support_1d(case, ctx):
    """points on, next to and beyond the edges of the support: rejected or given the floor as documented"""
    c, where, d, others, at = case
    s = spec(c)
    p = s.prior
    hi = s.hi if np.isfinite(s.hi) else s.lo + 5 * s.scale
    x = {'lo': s.lo, 'hi': s.hi, 'below': s.lo - d * s.scale, 'above': s.hi + d * s.scale,
         'justbelow': np.nextafter(s.lo, -np.inf), 'justabove': np.nextafter(s.hi, np.inf),
         'inlo': np.nextafter(s.lo, np.inf), 'inhi': np.nextafter(s.hi, -np.inf)}[where]
    if not np.isfinite(x):
        raise Skip()
    x = float(x)
    ctx.nontrivial()
    ctx.label('%s %s' % (s.kind, where))
    arr = [s.lo + f * (hi - s.lo) for f in others]
    k = min(at, len(arr))
    arr.insert(k, x)
    arr = np.array(arr)
    good = np.array([i for i in range(len(arr)) if i != k], dtype=int)
    fns = [('lnprob', p.get_lnprob_scalar, p.get_lnprob_array)]
    if s.has_prob:
        fns.append(('prob', p.get_prob_scalar, p.get_prob_array))
    if inside(s, x):
        for name, fs, fa in fns:
            v = fs(x)
            check(not np.isnan(v) and v < np.inf, '%s %r at %r, which is in the support', name, v, x)
            a = fa(arr)
            check(a[k] == v or abs(a[k] - v) <= 1e-12 * (1 + abs(v)),
                  '%s at %r (in the support [%r, %r]) is %r alone and %r in an array', name, x, s.lo, s.hi, v, a[k])
            if s.kind != 'lognormal':
                e = float(s.lnp(x))
                close(v, e if name == 'lnprob' else math.exp(e), 1e-9, 1e-12, name)
        f = p.get_fdiff(x)
        check(not np.isnan(f), 'fdiff %r at %r', f, x)
        return
    # outside
    for name, fs, fa in fns:
        raises(GMixRangeError, fs, x, _msg='%s of %r outside of [%r, %r]' % (name, x, s.lo, s.hi))
        try:
            a = fa(arr)
        except GMixRangeError:
            continue
        check(s.outside == 'either', '%s_array accepts %r outside of [%r, %r]', name, x, s.lo, s.hi)
        check(a[k] == -np.inf, '%s_array gives %r for %r outside of [%r, %r]', name, a[k], x, s.lo, s.hi)
        for i in good:
            v = fs(float(arr[i]))
            check(abs(a[i] - v) <= 1e-12 * (1 + abs(v)), '%s of an inside point %r is %r, %r next to an outside point', name, arr[i],
                  v, a[i])
    raises(GMixRangeError, p.get_fdiff, x, _msg='fdiff of %r outside of [%r, %r]' % (x, s.lo, s.hi))


sizes = st.lists(pick((2, st.none()), (1, st.just(1)), (1, st.just(0)), (4, ints(2, 40)), (4, ints(100, 3000))), min_size=1, max_size=5)


def _one(v, what):
    check(np.ndim(v) == 0 and np.isfinite(v), '%s: a single sample is %r', what, v)


@R.law(st.tuples(st.one_of(d1, limit, limit), sizes, seeds), quick=1200, thorough=12000, shards=2,
       rule='at least 100 samples in one call are compared with the distribution function')
def samples_1d(case, ctx):
    """samples: shape, support, distribution (KS) over any sequence of calls, from the given random state only"""
    c, ns, seed = case
    s = spec(c, seed)
    ctx.label(s.kind)
    g0 = np.random.get_state()[1].copy()
    allv = []
    runs = []
    for n in ns:
        if n == 0 and s.kind in ('erf', 'trunc', 'limit'):
            n = 1
        v = s.prior.sample() if n is None else s.prior.sample(n)
        if n is None:
            _one(v, s.kind)
        else:
            check(isinstance(v, np.ndarray) and v.shape == (n,), '%s: sample(%r) has shape %r', s.kind, n, np.shape(v))
        runs.append(np.atleast_1d(np.array(v)))
        allv += list(np.atleast_1d(v))
    allv = np.array(allv)
    check(np.isfinite(allv).all() and (allv >= s.smin).all() and (allv <= s.smax).all(), '%s: samples outside of [%r, %r]',
          s.kind, s.smin, s.smax)
    if allv.size > 1 and allv.size < 3000:
        check(np.unique(allv).size > 0.9 * allv.size, '%s: repeated samples over calls of sizes %r', s.kind, ns)
    if hasattr(s.prior, 'get_lnprob_scalar'):
        for v in allv[:50]:
            check(s.prior.get_lnprob_scalar(float(v)) > -np.inf, '%s: sample %r has no probability', s.kind, v)
    if allv.size >= 100:
        ctx.nontrivial()
        ks(allv, s.cdf, s.kind)
        for r in runs:
            if r.size >= 100:
                ks(r, s.cdf, s.kind)
                # samples are independent of their order
                h = r.size // 2
                ks(r[:h], s.cdf, s.kind + ' first half')
                ks(r[h:], s.cdf, s.kind + ' second half')
    s2 = spec(c, seed)
    for n, r in zip(ns, runs):
        if n == 0 and s.kind in ('erf', 'trunc', 'limit'):
            n = 1
        same(np.atleast_1d(s2.prior.sample() if n is None else s2.prior.sample(n)), r, 'samples from the same random state')
    same(np.random.get_state()[1], g0, 'global random state')


@R.law(st.tuples(st.one_of(d1, limit), seeds), quick=120, thorough=1500, shards=2, rule='every case')
def samples_many(case, ctx):
    """100000 samples: small departures from the density, and the tails"""
    c, seed = case
    s = spec(c, seed)
    ctx.label(s.kind)
    ctx.nontrivial()
    n = 100000
    v = s.prior.sample(n)
    check(v.shape == (n,) and (v >= s.smin).all() and (v <= s.smax).all(), '%s: samples', s.kind)
    ks(v, s.cdf, s.kind)


@R.law(st.tuples(logfl(0.05, 20), logfl(0.05, 2), st.one_of(st.none(), val), ints(500, 3000), seeds), quick=60, thorough=800,
       rule='every case')
def lognormal_moments(case, ctx):
    """mean and sigma are those of the linear variable; the brute-force sampler agrees with the direct one"""
    m, rel, shift, n, seed = case
    ctx.nontrivial()
    s = spec(('lognormal', m, rel, shift), seed)
    sh = 0.0 if shift is None else shift
    # integrate prob over a log grid
    z = np.linspace(-12, 12, 4001)
    v = math.log1p(rel ** 2)
    x = m * np.exp(-0.5 * v + z * math.sqrt(v))
    p = s.prior.get_prob_array(x + sh) if (np.diff(x + sh) > 0).all() and (x + sh > sh).all() else None
    if p is not None:
        wt = p * x       # dx = x dz
        mean = (wt * x).sum() / wt.sum()
        sd = math.sqrt((wt * (x - mean) ** 2).sum() / wt.sum())
        # the shift costs relative precision of x close to it
        if abs(sh) < 1e3 * m:
            close(mean, m, 1e-5, 0, 'mean of the density')
            close(sd, m * rel, 1e-4, 0, 'width of the density')
    b = s.prior.sample_brute(n)
    check(b.shape == (n,) and (b > sh).all(), 'brute-force samples')
    hi = m + 10 * m * rel
    tail = float(s.cdf(np.array([sh + hi]))[0])
    ks(b, lambda q: np.clip(s.cdf(q) / tail, 0, 1), 'lognormal brute force')
    _one(s.prior.sample_brute(), 'sample_brute')


gpt = st.tuples(pick((5, fl(0, 0.999)), (1, st.sampled_from([0.0, 1.0, 1.5])), (1, fl(0.999, 3)), (1, fl(0.99, 1.0))), fl(0, 6.3))
sigmas = logfl(0.02, 5)


@R.law(st.tuples(sigmas, logfl(0.1, 100), st.lists(gpt, min_size=1, max_size=8), seeds), quick=500, thorough=10000,
       rule='some but not necessarily all points have |g| < 1')
def density_ba(case, ctx):
    """the Bernstein-Armstrong shape prior: all forms"""
    sig, A, pts, seed = case
    p = P.GPriorBA(sig, rng=rng_of(seed), A=A)
    g1 = np.array([r * math.cos(t) for r, t in pts])
    g2 = np.array([r * math.sin(t) for r, t in pts])
    gsq = g1 * g1 + g2 * g2
    g = np.sqrt(gsq)
    ins = 1 - gsq > 0
    border = np.abs(1 - gsq) < 1e-12
    ctx.nontrivial(ins.any())
    ctx.label('mixed' if ins.any() and not ins.all() else ('in' if ins.all() else 'out'))
    b1, b2 = g1.copy(), g2.copy()
    la = p.get_lnprob_array2d(b1, b2)
    pa = p.get_prob_array2d(b1, b2)
    p1 = p.get_prob_array1d(g.copy())
    fa = p.get_fdiff(b1, b2)
    same(b1, g1, 'input')
    same(b2, g2, 'input')
    for a in (la, pa, p1, fa):
        check(a.shape == g1.shape, 'shape %r for %r points', a.shape, g1.shape)
    for i in range(len(pts)):
        if border[i]:
            continue
        x, y = float(g1[i]), float(g2[i])
        ps = p.get_prob_scalar2d(x, y)
        close(ps, pa[i], 1e-12, 1e-300, 'prob scalar against array at %r' % g[i])
        close(p.get_prob_scalar1d(float(g[i])), p1[i], 1e-12, 1e-300, '1d prob scalar against array at %r' % g[i])
        if ins[i]:
            e = float(ba_ln(math.sqrt(gsq[i]), sig))
            l = p.get_lnprob_scalar2d(x, y)
            close(l, la[i], 1e-12, 1e-14, 'lnprob scalar against array')
            close(l, e, 1e-9, 1e-9, 'lnprob at %r' % g[i])
            check(l <= 0, 'lnprob %r above its peak of zero', l)
            close(ps, A * math.exp(l), 1e-9, 1e-300, 'prob against exp(lnprob) at %r' % g[i])
            close(p1[i], 2 * math.pi * g[i] * ps, 1e-7, 1e-300, '1d prob against the 2d one at %r' % g[i])
            f = p.get_fdiff(x, y)
            close(f, fa[i], 1e-12, 1e-14, 'fdiff scalar against array')
            close(f ** 2, -2 * l, 1e-9, 1e-14, 'fdiff^2')
        else:
            check(ps == 0 and p1[i] == 0, 'probability %r %r outside of the unit circle', ps, p1[i])
            check(la[i] == -np.inf, 'lnprob %r outside of the unit circle', la[i])
            check(fa[i] == np.inf, 'fdiff %r outside of the unit circle', fa[i])
            raises(GMixRangeError, p.get_lnprob_scalar2d, x, y)
            raises(GMixRangeError, p.get_fdiff, x, y)
    check(p.get_lnprob_scalar2d(0.0, 0.0) == 0, 'peak')
    close(p.get_prob_scalar2d(0.0, 0.0), A, 1e-12, 0, 'peak')


ba_step = st.one_of(st.tuples(st.just('sigma'), sigmas), st.tuples(st.just('pars'), logfl(0.1, 50), sigmas),
                    st.tuples(st.just('fit'), logfl(0.5, 50), logfl(0.08, 0.5)),
                    st.tuples(st.just('eval'), fl(0, 0.95)))
ba_draw = st.tuples(st.sampled_from(['1d', '1d', '2d', '2dnone', 'brute', 'maxguess']), ints(600, 2000))


@R.law(st.tuples(sigmas, logfl(0.1, 50), st.lists(st.one_of(ba_step, ba_draw), min_size=1, max_size=5), seeds), quick=500,
       thorough=2500, shards=2, rule='samples are drawn after the parameters were changed, or at a width of 0.5 or more')
def history_ba(case, ctx):
    """whatever was set, fitted or drawn before, samples and densities are those of the current parameters"""
    sig, A, steps, seed = case
    p = P.GPriorBA(sig, rng=np.random.RandomState(seed), A=A)
    changed = False
    for stp in list(steps) + [['1d', 1500]]:
        k = stp[0]
        if k == 'sigma':
            sig = stp[1]
            p.set_sigma(sig)
            changed = True
        elif k == 'pars':
            A, sig = stp[1], stp[2]
            p.set_pars([A, sig])
            changed = True
        elif k == 'fit':
            if changed:
                continue
            x = np.linspace(0.01, 0.95, 60)
            At, sg = stp[1], stp[2]
            y = At * 2 * np.pi * x * (1 - x * x) ** 2 * np.exp(-0.5 * x * x / sg ** 2)
            y[y < 1e-3 * y.max()] = 0.0
            with contextlib.redirect_stdout(io.StringIO()):
                p.fit(x, y, guess=np.array([At * 1.2, sg * 1.1]))
            close(p.fit_pars, [At, sg], 1e-3, 0, 'fit to an exact curve')
            # the parameters are left near the solution; set them exactly
            A, sig = At, sg
            p.set_pars([A, sig])
            changed = True
        elif k == 'eval':
            g = stp[1]
            close(p.get_lnprob_scalar2d(g, 0.0), ba_ln(g, sig), 1e-9, 1e-9, 'lnprob')
            close(p.get_prob_scalar2d(0.0, g), A * math.exp(ba_ln(g, sig)), 1e-9, 1e-300, 'prob')
        else:
            n = stp[1]
            ctx.nontrivial(changed or sig >= 0.5)
            ctx.label('%s%s%s' % (k, ' after a change' if changed else '', ' wide' if sig > 1 else ''))
            th = None
            if k == '1d':
                g = p.sample1d(n)
            elif k == 'maxguess':
                g = p.sample1d(n, maxguess=0.4 * min(sig, 1.0))
            elif k == '2d':
                g1, g2 = p.sample2d(n)
                g, th = np.hypot(g1, g2), np.arctan2(g2, g1)
            elif k == '2dnone':
                g1, g2 = p.sample2d()
                _one(g1, 'g1')
                _one(g2, 'g2')
                check(math.hypot(g1, g2) < 1, 'sample outside of the unit circle')
                continue
            else:
                if sig < 0.06:
                    continue
                n = min(n, 800)
                g1, g2 = p.sample2d_brute(n)
                g, th = np.hypot(g1, g2), np.arctan2(g2, g1)
            check(g.shape == (n,), 'shape %r', g.shape)
            check((g >= 0).all() and (g < 1).all(), 'samples outside of the unit circle')
            ks(g, ba_cdf(sig), '|g| of %s at width %r' % (k, sig))
            if th is not None:
                ks(th, lambda t: (t + np.pi) / (2 * np.pi), 'angle of %s' % k)
                h = np.argsort(g)[:n // 2]
                ks(th[h], lambda t: (t + np.pi) / (2 * np.pi), 'angle at small |g| of %s' % k)


@R.law(st.tuples(logfl(0.02, 3), ints(300, 1500), seeds), quick=60, thorough=600, rule='every case')
def gauss_shape(case, ctx):
    """the gaussian shape prior: density and samples"""
    sig, n, seed = case
    ctx.nontrivial()
    p = P.GPriorGauss(sig, rng=np.random.RandomState(seed))
    g1, g2 = p.sample2d(n)
    check(g1.shape == (n,) and g2.shape == (n,), 'shape')
    g = np.hypot(g1, g2)
    check((g < 1).all(), 'samples outside of the unit circle')
    t1 = -math.expm1(-0.5 / sig ** 2)
    ks(g, lambda q: np.clip(-np.expm1(-0.5 * q * q / sig ** 2) / t1, 0, 1), '|g|')
    ks(np.arctan2(g2, g1), lambda t: (t + np.pi) / (2 * np.pi), 'angle')
    a, b = P.GPriorGauss(sig, rng=np.random.RandomState(seed)).sample2d(n)
    same(a, g1, 'samples of the same random state')
    same(b, g2, 'samples of the same random state')
    a, b = p.sample2d()
    _one(a, 'g1')
    _one(b, 'g2')
    raises(NotImplementedError, p.sample1d)


@R.law(st.tuples(logfl(0.05, 20), st.lists(st.tuples(pick((4, fl(0, 1.5)), (1, st.sampled_from([0.0, 1.0]))), fl(0, 6.3)), min_size=1,
                                           max_size=8), ints(200, 1500), seeds), quick=150, thorough=3000,
       rule='every case (all include sampling)')
def disk_prior(case, ctx):
    """the flat disk prior: support, density and samples"""
    rad, pts, n, seed = case
    ctx.nontrivial()
    p = P.ZDisk2D(rad, rng=np.random.RandomState(seed))
    x = np.array([rad * r * math.cos(t) for r, t in pts])
    y = np.array([rad * r * math.sin(t) for r, t in pts])
    r = np.hypot(x, y)
    pa = p.get_prob_array2d(x, y)
    check(pa.shape == x.shape, 'shape')
    for i in range(len(pts)):
        if abs(r[i] / rad - 1) < 1e-9:
            continue
        a, b = float(x[i]), float(y[i])
        inside = r[i] < rad
        check(p.get_prob_scalar2d(a, b) == pa[i] == p.get_prob_scalar1d(float(r[i])) == float(inside),
              'prob %r %r at radius %r of %r', p.get_prob_scalar2d(a, b), pa[i], r[i], rad)
        if inside:
            check(p.get_lnprob_scalar2d(a, b) == 0 == p.get_lnprob_scalar1d(float(r[i])), 'lnprob')
        else:
            raises(GMixRangeError, p.get_lnprob_scalar2d, a, b)
            raises(GMixRangeError, p.get_lnprob_scalar1d, float(r[i]))
    # on the edge: outside
    check(p.get_prob_scalar1d(rad) == 0 and p.get_prob_scalar2d(rad, 0.0) == 0 and p.get_prob_array2d([rad], [0.0])[0] == 0, 'edge')
    raises(GMixRangeError, p.get_lnprob_scalar1d, rad)
    raises(GMixRangeError, p.get_lnprob_scalar2d, rad, 0.0)
    r1 = p.sample1d(n)
    check(r1.shape == (n,) and (r1 >= 0).all() and (r1 <= rad).all(), '1d samples')
    ks(r1, lambda q: np.clip(q / rad, 0, 1) ** 2, 'radius of sample1d')
    a, b = p.sample2d(n)
    check(a.shape == b.shape == (n,), 'shape')
    check((np.hypot(a, b) <= rad * (1 + 1e-12)).all(), '2d samples outside of the disk')
    ks(np.hypot(a, b), lambda q: np.clip(q / rad, 0, 1) ** 2, 'radius of sample2d')
    ks(np.arctan2(b, a), lambda t: (t + np.pi) / (2 * np.pi), 'angle')
    _one(p.sample1d(), 'r')
    a, b = p.sample2d()
    _one(a, 'x')
    _one(b, 'y')


@R.law(st.tuples(val, val, w, w, st.lists(st.tuples(fl(-6, 6), fl(-6, 6)), min_size=1, max_size=6), ints(200, 1500), seeds), quick=500,
       thorough=3000, rule='every case (all have two different widths)')
def center_prior(case, ctx):
    """the two dimensional gaussian: density, residuals and samples, each axis with its own width"""
    c1, c2, s1, s2, pts, n, seed = case
    ctx.nontrivial(s1 != s2)
    p = P.CenPrior(c1, c2, s1, s2, rng=np.random.RandomState(seed))
    x = np.array([c1 + a * s1 for a, b in pts])
    y = np.array([c2 + b * s2 for a, b in pts])
    bx, by = x.copy(), y.copy()
    la = p.get_lnprob_array(bx, by)
    pa = p.get_prob_array(bx, by)
    same(bx, x, 'input')
    same(by, y, 'input')
    check(np.shape(la) == np.shape(pa) == x.shape, 'shapes %r %r', np.shape(la), np.shape(pa))
    for i in range(len(pts)):
        a, b = float(x[i]), float(y[i])
        d1, d2 = (a - c1) / s1, (b - c2) / s2
        l = p.get_lnprob_scalar(a, b)
        close(l, -0.5 * (d1 * d1 + d2 * d2), 1e-9, 1e-12, 'lnprob')
        close(la[i], l, 1e-12, 1e-14, 'lnprob array')
        close(p.get_lnprob_scalar_sep(a, b), [-0.5 * d1 * d1, -0.5 * d2 * d2], 1e-9, 1e-12, 'separate lnprob')
        close(p.get_fdiff(a, b), [d1, d2], 1e-9, 1e-9, 'fdiff')
        close(p.get_prob_scalar(a, b), math.exp(l), 1e-12, 1e-300, 'prob')
        close(pa[i], math.exp(l), 1e-12, 1e-300, 'prob array')
    a, b = p.sample(n)
    check(a.shape == b.shape == (n,), 'shape')
    z1, z2 = (a - c1) / s1, (b - c2) / s2
    for z, nm in ((z1, 'first'), (z2, 'second'), ((z1 + z2) / math.sqrt(2), 'sum'), ((z1 - z2) / math.sqrt(2), 'difference')):
        ks(z, stats.norm.cdf, nm)
    q = P.CenPrior(c1, c2, s1, s2, rng=np.random.RandomState(seed))
    same(q.sample2d(n)[0], a, 'samples of the same random state')
    a, b = p.sample()
    _one(a, 'cen1')
    _one(b, 'cen2')


@R.law(st.tuples(ints(1, 3), ints(5, 40), pick((3, logfl(0.05, 1.5)), (1, st.sampled_from(['scott', 'silverman']))), ints(200, 2000),
                 seeds), quick=80, thorough=1000, rule='every case')
def kernel_density(case, ctx):
    """kernel densities: samples follow the smoothed data"""
    nd, ndata, factor, n, seed = case
    if ndata < nd + 3:
        raise Skip()
    ctx.nontrivial()
    r = rng_of(seed)
    flat1 = nd == 1 and seed % 2
    data = r.normal(size=(ndata, nd)) @ r.uniform(-1, 1, size=(nd, nd)) + r.uniform(-3, 3, size=nd)
    data = data * r.uniform(0.2, 5, size=nd)
    if np.linalg.cond(np.cov(data.T)) > 1e8 if nd > 1 else data.std() < 1e-6:
        raise Skip()
    d = data[:, 0] if flat1 else data
    before = d.copy()
    k = P.KDE(d, factor, np.random.RandomState(seed))
    s = k.sample(n)
    same(d, before, 'data')
    check(s.shape == ((n,) if flat1 else (n, nd)), 'shape %r of %d samples in %d dimensions', s.shape, n, nd)
    same(P.KDE(d, factor, np.random.RandomState(seed)).sample(n), s, 'samples of the same random state')
    one = k.sample()
    check(np.shape(one) == (() if flat1 else (nd,)), 'shape %r of a single sample', np.shape(one))
    if isinstance(factor, str):
        f = {'scott': ndata ** (-1.0 / (nd + 4)), 'silverman': (ndata * (nd + 2) / 4.0) ** (-1.0 / (nd + 4))}[factor]
    else:
        f = factor
    cov = np.atleast_2d(np.cov(data.T)) * f * f
    s = s.reshape(n, nd)
    for i in range(nd + 1):
        t = np.eye(nd)[i] if i < nd else r.normal(size=nd)
        m, sg = data @ t, math.sqrt(t @ cov @ t)
        ks(s @ t, lambda q: stats.norm.cdf((np.asarray(q)[:, None] - m) / sg).mean(axis=1), 'projection of the samples')


@R.law(st.tuples(st.sampled_from(['none', 'len', 'order', 'equal', 'scalar', 'mean', 'rng', 'has']), val, w, seeds), quick=80, thorough=400,
       rule='every case')
def definitions(case, ctx):
    """lengths, means, bounds and random states asked of each prior"""
    kind, a, width, seed = case
    ctx.nontrivial()
    ctx.label(kind)
    rng = np.random.RandomState(seed)
    n = P.Normal(a, width, rng=rng)
    if kind == 'none':
        for f in (lambda: P.Normal(a, width, rng=None), lambda: P.FlatPrior(a, a + width, rng=None),
                  lambda: P.CenPrior(a, a, width, width, rng=None), lambda: P.GPriorBA(width, rng=None)):
            raises(AssertionError, f)
    elif kind == 'len':
        raises(ValueError, P.Bounded1D, n, (a, a + width, a + 2 * width))
    elif kind == 'order':
        raises(ValueError, P.Bounded1D, n, (a + width, a))
    elif kind == 'equal':
        raises(ValueError, P.LimitPDF, n, [a, a])
    elif kind == 'scalar':
        raises(ValueError, P.Bounded1D, n, a)
    elif kind == 'mean':
        raises(ValueError, P.LogNormal, -abs(a), width, rng)
        raises(ValueError, P.LogNormal, 0.0, width, rng)
    elif kind == 'rng':
        check(n.rng is rng, 'a prior uses the random state it is given')
        check(P.make_rng(rng) is rng, 'make_rng of a random state')
        v = P.srandu(500, rng=rng)
        check(v.shape == (500,) and (np.abs(v) <= 1).all(), 'srandu range')
        ks(v, lambda q: (q + 1) / 2, 'srandu')
        _one(P.srandu(rng=rng), 'srandu')
        state = np.random.get_state()
        try:
            np.random.seed(seed)
            x = P.make_rng().uniform(size=3)
            y = P.make_rng().uniform(size=3)
            np.random.seed(seed)
            same(P.make_rng().uniform(size=3), x, 'make_rng follows the global seed')
            check((x != y).all(), 'successive generators differ')
        finally:
            np.random.set_state(state)
    else:
        check(not n.has_bounds(), 'no bounds')
        check(P.Normal(a, width, rng=rng, bounds=(a, a + 1)).has_bounds(), 'bounds given')
        b = P.LMBounds(a, a + width, rng=rng)
        check(b.has_bounds() and tuple(b.bounds) == (a, a + width), 'LMBounds bounds %r', b.bounds)
        b = P.Bounded1D(n, (a, a + width))
        check(b.has_bounds() and tuple(b.bounds) == (a, a + width), 'Bounded1D bounds %r', b.bounds)
        check(not P.FlatPrior(a, a + width, rng=rng).has_bounds(), 'flat priors have no optimizer bounds')


@R.law(st.tuples(logfl(0.3, 20), logfl(0.1, 1.0), logfl(0.1, 50), seeds), quick=40, thorough=400, rule='the fit reports success')
def lognormal_fit(case, ctx):
    """fitting a log normal gives back its moments"""
    m, rel, norm, seed = case
    pr = P.LogNormal(m, rel * m, rng=np.random.RandomState(seed))
    s = spec(('lognormal', m, rel, None))
    x = np.linspace(0.02 * m, m * (1 + 4 * rel), 80)
    y = norm * np.exp(s.lnp(x))
    xx, yy = x.copy(), y.copy()
    # start from the curve's own moments
    res = pr.fit(xx, yy)
    same(xx, x, 'x')
    same(yy, y, 'y')
    if res['flags'] == 0:
        e = res['pars'][2] * np.exp(spec(('lognormal', res['pars'][0], abs(res['pars'][1] / res['pars'][0]), None)).lnp(x)) \
            if res['pars'][0] > 0 else None
        if e is None or np.abs(e - y).max() > 0.05 * norm:
            raise Skip()        # another local minimum
        ctx.nontrivial()
        close(res['pars'][0], m, 2e-3, 0, 'mean')
        close(abs(res['pars'][1]), rel * m, 2e-3, 0, 'sigma')
        close(res['pars'][2], norm, 2e-3, 0, 'amplitude')
