"""C27: joint priors are exactly the product of their parts"""
import math
import numpy as np
from scipy import stats
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds
from priorref import val, w, normal, flat, erf2, lognormal, trunc, lmb, sinh, limit, spec, inside, ks, ba_ln, ba_cdf
from ngmix import priors as P
from ngmix import joint_prior as J
from ngmix.gexceptions import GMixRangeError

ORACLE = ('every slot of the joint prior gets a part of its own kind and parameters with a closed-form reference density; '
          'values must be the sum of the references at that slot, bounds those of the parts, samples columns those of the parts '
          '(Kolmogorov-Smirnov, p < 1e-9), invalid points those of the violated part')
R = Registry()

bnormal = st.tuples(st.just('bnormal'), normal, fl(-3, 0), logfl(0.5, 5))
part = st.one_of(normal, bnormal, bnormal, flat, erf2, lognormal, trunc)
spart = st.one_of(normal, bnormal, flat, erf2, lognormal, trunc, lmb, sinh, limit)
KINDS = ['simple', 'galsim', 'bd', 'bdf', 'spergel', 'coellip']
NEXTRA = {'simple': 1, 'galsim': 1, 'bd': 3, 'bdf': 2, 'spergel': 2, 'coellip': 1}


def joint(p):
    return st.tuples(st.sampled_from(KINDS), st.tuples(val, val, w, w), logfl(0.05, 3), st.lists(p, min_size=3, max_size=3),
                     st.lists(p, min_size=1, max_size=4), st.sampled_from(['list', 'list', 'tuple', 'bare']), ints(1, 4))


def pspec(c, seed):
    if c[0] == 'bnormal':
        s = spec(c[1], seed)
        m, sg = c[1][1], c[1][2]
        s.prior = P.Normal(m, sg, rng=s.prior.rng, bounds=(m + c[2] * sg, m + (c[2] + c[3]) * sg))
        s.bounds = (m + c[2] * sg, m + (c[2] + c[3]) * sg)
        return s
    s = spec(c, seed)
    s.bounds = tuple(s.prior.bounds) if c[0] in ('lmbounds', 'limit') else None
    if c[0] == 'lmbounds':
        s.bounds = (c[1], c[1] + c[2])
    elif c[0] == 'limit':
        s.bounds = (s.smin, s.smax)
    return s


class Joint(object):
    pass


def make(case, seed=0):
    kind, (c1, c2, s1, s2), sg, extra, fluxes, how, ngauss = case
    j = Joint()
    j.kind = kind
    # random streams differ between parts
    cen = P.CenPrior(c1, c2, s1, s2, rng=np.random.RandomState(seed))
    g = P.GPriorBA(sg, rng=np.random.RandomState((seed + 1) % 2**32))
    ex = [pspec(e, (seed + 2 + i) % 2**32) for i, e in enumerate(extra[:NEXTRA[kind]])]
    if kind == 'coellip':
        fluxes = fluxes[:1]
    fx = [pspec(f, (seed + 20 + i) % 2**32) for i, f in enumerate(fluxes)]
    F = [f.prior for f in fx]
    if len(F) == 1 and how == 'bare' or kind == 'coellip':
        F = F[0]
    elif how == 'tuple' and kind in ('bd', 'bdf'):
        F = tuple(F)
    e = [x.prior for x in ex]
    if kind == 'simple':
        j.p = J.PriorSimpleSep(cen, g, e[0], F)
    elif kind == 'galsim':
        j.p = J.PriorGalsimSimpleSep(cen_prior=cen, g_prior=g, r50_prior=e[0], F_prior=F)
    elif kind == 'bd':
        j.p = J.PriorBDSep(cen_prior=cen, g_prior=g, T_prior=e[0], logTratio_prior=e[1], fracdev_prior=e[2], F_prior=F)
    elif kind == 'bdf':
        j.p = J.PriorBDFSep(cen_prior=cen, g_prior=g, T_prior=e[0], fracdev_prior=e[1], F_prior=F)
    elif kind == 'spergel':
        j.p = J.PriorSpergelSep(cen_prior=cen, g_prior=g, r50_prior=e[0], nu_prior=e[1], F_prior=F)
    else:
        j.p = J.PriorCoellipSame(ngauss, cen, g, e[0], F)
        ex, fx = ex * ngauss, fx * ngauss
    j.slots = ex + fx
    j.cen = (c1, c2, s1, s2)
    j.sg = sg
    j.npars = 4 + len(j.slots)
    return j


OUT, INF = 'out', 'inf'


def slot_ref(s, x):
    """reference lnprob, or 'out' where the part raises"""
    if not inside(s, x):
        return OUT
    return float(s.lnp(x))


def refs(j, pars):
    """list of reference lnprob for each parameter (g1, g2 count once), OUT where a part rejects the value"""
    c1, c2, s1, s2 = j.cen
    r = [-0.5 * ((pars[0] - c1) / s1) ** 2, -0.5 * ((pars[1] - c2) / s2) ** 2]
    gsq = pars[2] ** 2 + pars[3] ** 2
    r.append(OUT if gsq >= 1 else float(ba_ln(math.sqrt(gsq), j.sg)))
    return r + [slot_ref(s, v) for s, v in zip(j.slots, pars[4:])]


row = st.tuples(fl(-4, 4), fl(-4, 4), pick((6, fl(0, 0.99)), (1, fl(1.001, 2))), fl(0, 6.3),
                st.lists(pick((8, fl(-0.45, 0.45)), (2, fl(-3, 3)), (1, fl(-30, 30))), min_size=8, max_size=8))
inrow = st.tuples(fl(-4, 4), fl(-4, 4), fl(0, 0.98), fl(0, 6.3), st.lists(fl(0.02, 0.98), min_size=8, max_size=8))


def lo_hi(s):
    hi = s.hi if np.isfinite(s.hi) else s.mode + 3 * s.scale
    lo = s.lo if np.isfinite(s.lo) else s.mode - 3 * s.scale
    return lo, hi


def parsof(j, r, inner):
    a, b, g, t, xs = r
    c1, c2, s1, s2 = j.cen
    p = [c1 + a * s1, c2 + b * s2, g * math.cos(t), g * math.sin(t)]
    for s, x in zip(j.slots, xs):
        lo, hi = lo_hi(s)
        p.append(lo + x * (hi - lo) if inner else 0.5 * (lo + hi) + x * (hi - lo))
    return p


def eval_rows(case, ctx, inner):
    jc, rows = case
    j = make(jc)
    p = j.p
    pars = np.array([parsof(j, r, inner) for r in rows])
    # stay off the rounding of the edges
    for s, col in zip(j.slots, pars.T[4:]):
        for e in (s.lo, s.hi):
            if np.isfinite(e) and (np.abs(col - e) < 1e-9 * (abs(e) + s.scale)).any():
                raise Skip()
    if (np.abs(np.hypot(pars[:, 2], pars[:, 3]) - 1) < 1e-9).any():
        raise Skip()
    ref = [refs(j, q) for q in pars]
    ok = [OUT not in r for r in ref]
    ctx.label('%s %s' % (j.kind, 'in' if all(ok) else ('mixed' if any(ok) else 'out')))
    ctx.nontrivial(any(ok))
    before = pars.copy()
    nd = j.npars - 1
    for q, r, good in zip(pars, ref, ok):
        fd = np.full(nd + 3, 7.25)
        if good:
            e = sum(r)
            l = p.get_lnprob_scalar(q)
            if np.isfinite(e):
                scale = sum(abs(v) for v in r)
                tol = 1e-9 * (1 + scale)
                if any(s.kind == 'erf' for s in j.slots):
                    # log of a small difference of error functions
                    tol += sum(1e-13 / max(math.exp(v), 1e-15) for v, s in zip(r[3:], j.slots) if s.kind == 'erf')
                check(abs(l - e) <= tol, '%s lnprob %r, sum of the parts %r', j.kind, l, e)
                close(p.get_prob_scalar(q), math.exp(l), 1e-12, 1e-300, 'prob')
            n = p.fill_fdiff(q, fd)
            check(n == nd, 'fill_fdiff returns %r for %d terms', n, nd)
            check((fd[nd:] == 7.25).all(), 'fill_fdiff wrote past its terms')
            for i, v in enumerate(r):
                if not np.isfinite(v):
                    continue
                tol = 1e-6 + (1e-12 / max(math.exp(v), 1e-15) if i >= 3 and j.slots[i - 3].kind == 'erf' else 0)
                check(abs(fd[i] ** 2 + 2 * v) <= tol * (1 + abs(v)), '%s: squared residual %r of slot %d, -2 ln(p) is %r', j.kind,
                      fd[i] ** 2, i, -2 * v)
            if np.isfinite(e) and np.isfinite(l):
                close((fd[:nd] ** 2).sum(), -2 * l, 1e-8, 1e-8, 'sum of the squared residuals against -2 lnprob')
        else:
            raises(GMixRangeError, p.get_lnprob_scalar, q, _msg='%s lnprob outside of the support' % j.kind)
            raises(GMixRangeError, p.get_prob_scalar, q, _msg='%s prob outside of the support' % j.kind)
            raises(GMixRangeError, p.fill_fdiff, q, fd, _msg='%s residuals outside of the support' % j.kind)
    # array form
    bad = []      # slots whose array form must raise
    either = False
    for q in pars:
        for s, v in zip(j.slots, q[4:]):
            if not inside(s, v):
                if s.kind == 'trunc':
                    either = True
                else:
                    bad.append(s.kind)
    if bad:
        raises(GMixRangeError, p.get_lnprob_array, pars, _msg='%s lnprob_array outside of the support' % j.kind)
        raises(GMixRangeError, p.get_prob_array, pars, _msg='%s prob_array outside of the support' % j.kind)
    else:
        try:
            la, pa = p.get_lnprob_array(pars), p.get_prob_array(pars)
        except GMixRangeError:
            check(either, '%s lnprob_array raised', j.kind)
            la = None
        if la is not None:
            check(la.shape == pa.shape == (len(pars),), 'array shapes %r %r', la.shape, pa.shape)
            for i, good in enumerate(ok):
                if good:
                    l = p.get_lnprob_scalar(pars[i])
                    check(l == la[i] or abs(la[i] - l) <= 1e-9 * (1 + sum(abs(v) for v in ref[i])),
                          '%s row %d: lnprob %r alone, %r in an array', j.kind, i, l, la[i])
                    close(pa[i], math.exp(la[i]), 1e-12, 1e-300, 'prob_array')
                else:
                    check(la[i] == -np.inf and pa[i] == 0, '%s: row %d outside of the support has lnprob %r', j.kind, i, la[i])
    same(pars, before, 'parameters handed in')


@R.law(st.tuples(joint(part), st.lists(inrow, min_size=1, max_size=4)), quick=1000, thorough=20000, shards=2,
       rule='at least one point in the support')
def density(case, ctx):
    """the log probability of any point is the sum of the parts, each applied to its own slot; arrays and residuals agree"""
    eval_rows(case, ctx, True)


@R.law(st.tuples(joint(part), st.lists(st.one_of(row, row), min_size=1, max_size=4)), quick=800, thorough=15000, shards=2,
       rule='at least one point in the support next to points outside')
def support(case, ctx):
    """an invalid part makes the point invalid as that part does, and leaves its neighbours in an array alone"""
    eval_rows(case, ctx, False)


@R.law(joint(spart), quick=500, thorough=6000, rule='some part has bounds')
def bounds(case, ctx):
    """one bound per parameter, in order"""
    j = make(case)
    e = [(None, None)] * 4 + [s.bounds if s.bounds is not None else (None, None) for s in j.slots]
    some = any(s.bounds is not None for s in j.slots)
    ctx.nontrivial(some)
    ctx.label(j.kind)
    b = j.p.bounds
    if not some:
        check(b is None, 'bounds %r where no part has any', b)
    else:
        check(b is not None and len(b) == j.npars, '%s: bounds %r for %d parameters', j.kind, b, j.npars)
        for i, (x, y) in enumerate(zip(b, e)):
            check(tuple(x) == tuple(y), '%s: bounds of parameter %d are %r, its part has %r', j.kind, i, x, y)
    check(j.p.nband == len(j.p.F_priors), 'nband %r', j.p.nband)
    if j.kind != 'coellip':
        check(j.p.nband == len(case[4]), 'nband %r for %d flux priors', j.p.nband, len(case[4]))
        for k, s in enumerate(j.slots[NEXTRA[j.kind]:]):
            check(j.p.F_priors[k] is s.prior, 'flux prior of band %d', k)
    check(j.p.has_bounds() == some if hasattr(j.p, 'has_bounds') else True, 'has_bounds')


@R.law(st.tuples(joint(spart), st.lists(pick((1, st.none()), (1, st.just(1)), (1, ints(2, 20)), (4, ints(150, 1200))), min_size=1,
                                        max_size=3), seeds), quick=300, thorough=5000, shards=2,
       rule='at least 100 samples in one call are compared with the distribution of each part')
def sampling(case, ctx):
    """every column is drawn from its own part, in the right order and number"""
    jc, ns, seed = case
    j = make(jc, seed)
    ctx.label(j.kind)
    g0 = np.random.get_state()[1].copy()
    runs = []
    c1, c2, s1, s2 = j.cen
    for n in ns:
        s = j.p.sample() if n is None else j.p.sample(n)
        check(s.shape == ((j.npars,) if n is None else (n, j.npars)), '%s: sample(%r) has shape %r for %d parameters', j.kind, n,
              s.shape, j.npars)
        runs.append(s)
        s = np.atleast_2d(s)
        check(np.isfinite(s).all(), 'samples are finite')
        check((np.hypot(s[:, 2], s[:, 3]) < 1).all(), 'sampled shapes outside of the unit circle')
        for i, sl in enumerate(j.slots):
            x = s[:, 4 + i]
            check((x >= sl.smin).all() and (x <= sl.smax).all(), '%s: samples of parameter %d outside of its support', j.kind, 4 + i)
        if all(sl.has_lnp for sl in j.slots):
            for q in s[:20]:
                check(j.p.get_lnprob_scalar(q) > -np.inf, '%s: a sample has no probability', j.kind)
        if n is not None and n >= 100:
            ctx.nontrivial()
            ks(s[:, 0], lambda v: stats.norm.cdf(v, c1, s1), 'first center coordinate')
            ks(s[:, 1], lambda v: stats.norm.cdf(v, c2, s2), 'second center coordinate')
            ks(np.hypot(s[:, 2], s[:, 3]), ba_cdf(j.sg), '|g|')
            ks(np.arctan2(s[:, 3], s[:, 2]), lambda t: (t + np.pi) / (2 * np.pi), 'angle of g')
            for i, sl in enumerate(j.slots):
                ks(s[:, 4 + i], sl.cdf, '%s: parameter %d' % (j.kind, 4 + i))
            # independent columns
            u = np.apply_along_axis(stats.rankdata, 0, s)
            cc = np.corrcoef(u.T) - np.eye(j.npars)
            check(np.abs(cc).max() < 6.5 / math.sqrt(n), '%s: columns %r of %d samples are correlated (%r)', j.kind,
                  np.unravel_index(np.abs(cc).argmax(), cc.shape), n, np.abs(cc).max())
    j2 = make(jc, seed)
    for n, r in zip(ns, runs):
        same(j2.p.sample() if n is None else j2.p.sample(n), r, 'samples from the same random state')
    same(np.random.get_state()[1], g0, 'global random state')


@R.law(st.tuples(joint(spart), seeds), quick=40, thorough=300, rule='every case')
def widths(case, ctx):
    """residuals of priors with very different widths"""
    jc, seed = case
    j = make(jc, seed)
    ctx.nontrivial()
    if any(s.kind == 'lognormal' for s in j.slots) or any(c[0] == 'limit' and c[1][0] == 'lognormal' for c in jc[3] + jc[4]):
        raise Skip()
    wd = j.p.get_widths()
    check(wd.shape == (j.npars,), 'shape %r', wd.shape)
    c1, c2, s1, s2 = j.cen
    close(wd[:2], [s1, s2], 0.06, 0, 'center widths')
    check((wd[2:4] == 2).all(), 'widths of g are set to 2')
    for i, s in enumerate(j.slots):
        # median-free reference: the standard deviation from the distribution function
        x = np.linspace(max(s.smin, s.mode - 12 * s.scale) if hasattr(s, 'mode') else s.smin,
                        min(s.smax, s.mode + 12 * s.scale) if hasattr(s, 'mode') else s.smax, 4001)
        f = np.diff(s.cdf(x))
        xm = 0.5 * (x[1:] + x[:-1])
        m = (f * xm).sum() / f.sum()
        close(wd[4 + i], math.sqrt((f * (xm - m) ** 2).sum() / f.sum()), 0.07, 0, 'width of parameter %d' % (4 + i))
    same(j.p.get_widths(), wd, 'widths stay')


@R.law(st.tuples(st.tuples(val, val, w, w), logfl(0.05, 3), part, st.lists(part, min_size=2, max_size=3), ints(1, 4), ints(-3, 3)),
       quick=100, thorough=1000, rule='every case')
def coellip_rejects(case, ctx):
    """more than one band and wrong numbers of parameters"""
    cen, sg, T, F, ng, dn = case
    ctx.nontrivial()
    c = P.CenPrior(*cen, rng=np.random.RandomState(0))
    g = P.GPriorBA(sg, rng=np.random.RandomState(0))
    raises(ValueError, J.PriorCoellipSame, ng, c, g, pspec(T, 0).prior, [pspec(f, 0).prior for f in F])
    p = J.PriorCoellipSame(ng, c, g, pspec(T, 0).prior, pspec(F[0], 0).prior)
    check(p.npars == 4 + 2 * ng, 'npars %r', p.npars)
    n = 4 + 2 * ng + dn
    if dn != 0 and n >= 1:
        raises(ValueError, p.get_lnprob_scalar, np.zeros(n))
        raises(ValueError, p.get_lnprob_array, np.zeros((2, n)))
        raises(ValueError, p.fill_fdiff, np.zeros(n), np.zeros(n + 10))
