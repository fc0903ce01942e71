"""C29: n-dimensional mixtures evaluate, sample and persist the stated density"""
import contextlib
import io
import math
import os
import tempfile
import numpy as np
from scipy.special import logsumexp, ndtr
from scipy.linalg import solve_triangular
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds, rng_of
from priorref import ks
from ngmix.gmix_ndim import GMixND

ORACLE = ('component log densities from a Cholesky factor (independent of the inverse and determinant used by the code) combined with '
          'logsumexp; samples: Kolmogorov-Smirnov test of a random projection, whose density is a 1-d normal mixture in closed form, '
          'and of the component frequencies along it, p < 1e-9; fits: moments of the data that every EM step preserves exactly')
R = Registry()
quiet = lambda: contextlib.redirect_stdout(io.StringIO())

# a mixture: ndim, ngauss, seed, spread of the means, scale, weight total (0: normalised), axis ratio of the covariances
mixture = st.tuples(ints(1, 5), ints(1, 5), seeds, logfl(0.1, 30), logfl(1e-2, 1e2), pick((2, st.just(0.0)), (3, logfl(0.1, 20))), logfl(1, 30))


class Mix(object):
    pass


def expand(c):
    nd, ng, seed, spread, scale, tot, ratio = c
    r = rng_of(seed)
    m = Mix()
    m.nd, m.ng = nd, ng
    m.w = r.uniform(0.1, 1.0, size=ng)
    m.w *= (tot or 1.0) / m.w.sum()
    m.mu = r.normal(size=(ng, nd)) * spread * scale
    m.cov = np.zeros((ng, nd, nd))
    m.L = np.zeros((ng, nd, nd))
    for i in range(ng):
        q, _ = np.linalg.qr(r.normal(size=(nd, nd)))
        s = scale * ratio ** r.uniform(-0.5, 0.5, size=nd) * r.uniform(0.5, 2.0)
        cv = (q * s ** 2) @ q.T
        m.cov[i] = (cv + cv.T) / 2
    prep(m)
    m.scale = scale
    return m


def prep(m):
    m.L = np.array([np.linalg.cholesky(c) for c in m.cov])
    m.cond = max(np.linalg.cond(c) for c in m.cov)


def lncomp(m, x):
    """shape [npoints, ngauss], and the size of the terms, for tolerances"""
    x = np.asarray(x, dtype='f8').reshape(-1, m.nd)
    out = np.zeros((len(x), m.ng))
    c2 = np.zeros(out.shape)
    for i in range(m.ng):
        z = solve_triangular(m.L[i], (x - m.mu[i]).T, lower=True)
        c2[:, i] = (z ** 2).sum(axis=0)
        out[:, i] = math.log(m.w[i]) - 0.5 * m.nd * math.log(2 * math.pi) - np.log(np.diag(m.L[i])).sum() - 0.5 * c2[:, i]
    return out, c2


def points(m, spec, r):
    """points at the given distances from random components; distances in units of its widths"""
    x = []
    for lg, k in spec:
        k = k % m.ng
        d = r.normal(size=m.nd)
        d /= np.sqrt((d ** 2).sum())
        x.append(m.mu[k] + (m.L[k] @ d) * (0.0 if lg is None else 10 ** lg))
    return np.array(x)


pspec = st.lists(st.tuples(pick((1, st.none()), (4, fl(-2, 1)), (2, fl(1, 2)), (2, fl(2, 9))), ints(0, 4)), min_size=1, max_size=6)
FORMS = ['array', 'list', 'f4ok', 'swapped', 'fortran', 'flat']


def given(m, form, r):
    """the three inputs in one of the forms in which they can be handed in"""
    a = [m.w.copy(), m.mu.copy(), m.cov.copy()]
    if form == 'list':
        return [x.tolist() for x in a]
    if form == 'f4ok':
        # lower precision: the mixture is then defined by the rounded numbers
        a = [x.astype('f4') for x in a]
        m.w, m.mu, m.cov = [x.astype('f8') for x in a]
        prep(m)
    elif form == 'swapped':
        a = [x.astype('>f8') for x in a]
    elif form == 'fortran':
        a = [np.asfortranarray(x) for x in a]
    elif form == 'flat' and m.nd == 1:
        a = [a[0], a[1].ravel(), a[2].ravel()]
    return a


def check_density(g, m, x, cond_tol=1e-13):
    ref, c2 = lncomp(m, x)
    tot = logsumexp(ref, axis=1)
    tol = 1e-10 + (c2.min(axis=1) + 10) * cond_tol * m.cond
    tolc = 1e-10 + (c2 + 10) * cond_tol * m.cond

    def cmp(got, want, tol, dolog, what):
        got, want = np.asarray(got, dtype='f8'), np.asarray(want)
        check(got.shape == want.shape, '%s: shape %r, expected %r', what, got.shape, want.shape)
        if dolog:
            check((np.abs(got - want) <= tol + 1e-11 * np.abs(want)).all(), '%s: %r, expected %r', what, got, want)
        else:
            with np.errstate(under='ignore', over='ignore'):
                w = np.exp(want)
                # subnormal numbers have few digits
                check((np.abs(got - w) <= np.expm1(np.minimum(tol + 1e-11 * np.abs(want), 50)) * w + 1e-300).all(), '%s: %r, expected %r', what, got, w)
    for dolog in (True, False):
        arr = g.get_lnprob_array if dolog else g.get_prob_array
        sca = g.get_lnprob_scalar if dolog else g.get_prob_scalar
        name = 'log density' if dolog else 'density'
        forms = [x, x.tolist(), np.asfortranarray(x), x.astype('>f8')]
        if m.nd == 1:
            forms.append(x.ravel())
        for q in forms:
            cmp(arr(q), tot, tol, dolog, name)
        for i in range(min(len(x), 3)):
            cmp([sca(x[i])], tot[i:i + 1], tol[i:i + 1], dolog, name + ' of one point')
            cmp([sca(x[i].tolist())], tot[i:i + 1], tol[i:i + 1], dolog, name + ' of one point')
            if m.nd == 1:
                cmp([sca(float(x[i, 0]))], tot[i:i + 1], tol[i:i + 1], dolog, name + ' of one number')
        for k in range(m.ng):
            cmp(arr(x, component=k), ref[:, k], tolc[:, k], dolog, name + ' of one component')
            cmp([sca(x[0], component=k)], ref[:1, k], tolc[:1, k], dolog, name + ' of one component, one point')


@R.law(st.tuples(st.lists(mixture, min_size=1, max_size=3), pspec, st.sampled_from(FORMS), st.booleans(), seeds), quick=1200, thorough=30000,
       shards=2, rule='more than one gaussian, and a point more than 10 widths out or several dimensions')
def density(case, ctx):
    """values are the weighted sum of normal densities; inputs copied; replacing the mixture replaces all of it"""
    mixes, ps, form, fresh, seed = case
    r = rng_of(seed)
    g = None
    nt = False
    for c in mixes:
        m = expand(c)
        nt |= m.ng > 1 and (m.nd > 1 or any(p[0] is not None and p[0] > 1 for p in ps))
        a = given(m, form, r)
        if g is None or fresh:
            g = GMixND(weights=a[0], means=a[1], covars=a[2])
        else:
            g.set_mixture(a[0], a[1], a[2])
        # the mixture must not follow later changes of what was handed in
        for q in a:
            if isinstance(q, np.ndarray):
                q[...] = 77.0
            else:
                q[0] = 77.0
        check(g.ndim == m.nd and g.ngauss == m.ng, 'dimension %r and number of gaussians %r, expected %r, %r', g.ndim, g.ngauss, m.nd, m.ng)
        same(g.weights, m.w, 'weights')
        same(g.means, m.mu, 'means')
        same(g.covars, m.cov, 'covariances')
        x = points(m, ps, r)
        x0 = x.copy()
        check_density(g, m, x)
        same(x, x0, 'points handed in')
    ctx.label(form)
    ctx.nontrivial(nt)


@R.law(st.tuples(st.lists(mixture, min_size=1, max_size=2), seeds), quick=100, thorough=1500, rule='more than one dimension')
def integral(case, ctx):
    """the density integrates to the total weight: importance sampling from a wider normal mixture would be noisy, so along each axis-aligned
    line the density is compared with the conditional closed form, and in one dimension integrated"""
    mixes, seed = case
    m = expand(mixes[0])
    ctx.nontrivial(m.nd > 1)
    g = GMixND(weights=m.w, means=m.mu, covars=m.cov)
    r = rng_of(seed)
    d = r.normal(size=m.nd)
    d /= np.sqrt((d ** 2).sum())
    x0 = m.mu[0] + m.L[0] @ r.normal(size=m.nd)
    # integral along a line through a point, from the closed form of a gaussian restricted to a line
    lim, tot = [], 0.0
    for i in range(m.ng):
        P = np.linalg.inv(m.cov[i])
        A = d @ P @ d
        B = d @ P @ (x0 - m.mu[i])
        C = (x0 - m.mu[i]) @ P @ (x0 - m.mu[i])
        lim.append((-B / A, 1 / math.sqrt(A)))
        tot += m.w[i] / math.sqrt((2 * math.pi) ** m.nd * np.linalg.det(m.cov[i])) * math.exp(-0.5 * (C - B * B / A)) * math.sqrt(2 * math.pi / A)
    # substitution-free trapezoid on the union of the components' ranges, fine enough for the narrowest
    pts = np.unique(np.concatenate([c + s * np.linspace(-9, 9, 401) for c, s in lim]))
    y = g.get_prob_array(x0 + pts[:, None] * d)
    got = (np.diff(pts) * (y[1:] + y[:-1]) / 2).sum()
    close(got, tot, 2e-3, 1e-300, 'integral along a line')


def proj_cdf(m, d):
    mu = m.mu @ d
    sd = np.array([math.sqrt(d @ c @ d) for c in m.cov])
    w = m.w / m.w.sum()
    return lambda t: (w * ndtr((np.asarray(t)[:, None] - mu) / sd)).sum(axis=1)


step = st.tuples(st.sampled_from(['set', 'set', 'load', 'fit', 'sample', 'eval']), mixture)


@R.law(st.tuples(mixture, st.lists(step, min_size=0, max_size=4), seeds), quick=250, thorough=6000, shards=2,
       rule='the mixture replaced after sampling from or fitting another, or weights not normalised, or many gaussians')
def samples(case, ctx):
    """after any history of replacing, loading, fitting and sampling, samples follow the current density and only the given random state is used"""
    first, steps, seed = case
    r = rng_of(seed)

    def run(dotest, kind):
        rng = np.random.RandomState(seed % 2**32)
        m = expand(first)
        g = GMixND(weights=m.w, means=m.mu, covars=m.cov, rng=rng)
        used, special = False, m.ng > 1 and abs(m.w.sum() - 1) > 1e-6
        out = []
        for what, c in steps:
            if what == 'set':
                m = expand(c)
                g.set_mixture(m.w, m.mu, m.cov)
                special |= used
            elif what == 'load':
                m = expand(c)
                with tempfile.TemporaryDirectory() as d, quiet():
                    f = os.path.join(d, 'm.fits')
                    GMixND(weights=m.w, means=m.mu, covars=m.cov).save_mixture(f)
                    g.load_mixture(f)
                special |= used
            elif what == 'fit':
                q = expand(c)
                if q.ng > 2 or q.nd > 3:
                    continue
                data = rng_of(seed + 1).normal(size=(60, q.nd)) * q.scale + q.mu[0]
                with quiet():
                    g.fit(data, q.ng, min_covar=1e-6 * q.scale ** 2)
                m = Mix()
                m.nd, m.ng, m.w, m.mu, m.cov = g.ndim, g.ngauss, g.weights.copy(), g.means.copy(), g.covars.copy()
                prep(m)
                m.scale = q.scale
                used = True
            elif what == 'sample':
                s = g.sample(7)
                check(s.shape == ((7,) if m.nd == 1 else (7, m.nd)), 'sample of 7 in %d dimensions has shape %r', m.nd, s.shape)
                out.append(s)
                used = True
            else:
                check_density(g, m, points(m, [(0.0, 0), (1.0, 1)], rng_of(seed)), 1e-12)
            if dotest:
                ctx.label(what)
        n = 4000
        s = g.sample(n)
        check(s.shape == ((n,) if m.nd == 1 else (n, m.nd)), 'shape of samples %r', s.shape)
        one = g.sample()
        check(np.shape(one) == (() if m.nd == 1 else (m.nd,)), 'one sample has shape %r', np.shape(one))
        one2 = g.sample(1)
        check(np.shape(one2) == ((1,) if m.nd == 1 else (1, m.nd)), 'a sample of 1 has shape %r', np.shape(one2))
        out += [s, one, one2]
        if dotest:
            s2 = s.reshape(n, m.nd)
            for _ in range(3):
                d = r.normal(size=m.nd)
                d /= np.sqrt((d ** 2).sum())
                ks(s2 @ d, proj_cdf(m, d), 'samples')
            same(g.weights, m.w, 'weights after sampling')
            same(g.means, m.mu, 'means after sampling')
            same(g.covars, m.cov, 'covariances after sampling')
            check_density(g, m, points(m, [(0.0, 0), (1.0, 1)], rng_of(seed)), 1e-12)
            ctx.nontrivial(special or m.ng > 2)
        return out
    a = run(True, 0)
    st0 = np.random.get_state()[1].copy()
    b = run(False, 0)
    same(np.random.get_state()[1], st0, 'global random state')
    check(len(a) == len(b), 'same history')
    for p, q in zip(a, b):
        same(p, q, 'samples from the same random state')


@R.law(st.tuples(st.lists(mixture, min_size=1, max_size=3), pspec, st.booleans(), seeds), quick=150, thorough=3000,
       rule='a file overwritten, or more than one gaussian and dimension')
def persist(case, ctx):
    """a saved mixture read back is the same mixture; saving again replaces the file"""
    mixes, ps, into, seed = case
    r = rng_of(seed)
    h = None
    with tempfile.TemporaryDirectory() as d, quiet():
        f = os.path.join(d, 'mix.fits')
        for c in mixes:
            m = expand(c)
            g = GMixND(weights=m.w, means=m.mu, covars=m.cov)
            g.save_mixture(f)
            if h is None or not into:
                h = GMixND(file=f)
            else:
                h.load_mixture(f)
            for k in (g, h):
                same(k.weights, m.w, 'weights')
                same(k.means, m.mu, 'means')
                same(k.covars, m.cov, 'covariances')
            x = points(m, ps, r)
            same(h.get_lnprob_array(x), g.get_lnprob_array(x), 'log density of the mixture read back')
            check_density(h, m, x)
    ctx.nontrivial(len(mixes) > 1 or (m.ng > 1 and m.nd > 1))


@R.law(st.tuples(ints(1, 4), ints(1, 3), ints(0, 2), logfl(1e-3, 1e3), st.sampled_from([1e-6, 0.1, 1.0]), ints(30, 120), seeds), quick=150, thorough=3000, shards=2,
       rule='more than one gaussian fit')
def fits(case, ctx):
    """fits: the moments of the data that every EM step keeps, the density of the fit, repeatable"""
    nd, ng, nclump, scale, reg, n, seed = case
    r = rng_of(seed)
    data = r.normal(size=(n, nd)) * scale
    for k in range(nclump):
        data[r.uniform(size=n) < 0.4] += r.normal(size=nd) * 6 * scale
    reg = reg * scale ** 2
    d0 = data.copy()
    gs = []
    for _ in range(2):
        g = GMixND(rng=np.random.RandomState(seed % 2**32))
        with quiet():
            g.fit(data.ravel() if nd == 1 and seed % 2 else data, ng, min_covar=reg)
        gs.append(g)
    g, h = gs
    same(data, d0, 'data')
    same(g.means, h.means, 'fit from the same random state')
    same(g.covars, h.covars, 'fit from the same random state')
    check(g.ngauss == ng and g.ndim == nd and g.means.shape == (ng, nd) and g.covars.shape == (ng, nd, nd), 'shapes of the fit')
    check(isinstance(bool(g.converged), bool) and (g.converged or ng > 1), 'one gaussian converges')
    check((g.weights > 0).all(), 'weights %r', g.weights)
    close(g.weights.sum(), 1.0, 1e-9, 0, 'total weight')
    close(g.weights @ g.means, data.mean(axis=0), 1e-6, 1e-6 * scale, 'mean of the fit against the data')
    dm = data.mean(axis=0)
    cv = (data - dm).T @ (data - dm) / n + reg * np.eye(nd)
    dd = g.means - g.weights @ g.means
    got = (g.weights[:, None, None] * (g.covars + dd[:, :, None] * dd[:, None, :])).sum(axis=0)
    close(got, cv, 1e-6, 1e-6 * scale ** 2, 'covariance of the fit against the data')
    m = Mix()
    m.nd, m.ng, m.w, m.mu, m.cov = nd, ng, g.weights, g.means, g.covars
    prep(m)
    if m.cond < 1e5:
        check_density(g, m, data[:5], 1e-12)
    ctx.nontrivial(ng > 1)


@R.law(st.tuples(mixture, st.sampled_from(['w', 'm', 'c', 'wm', 'wc', 'mc'])), quick=60, thorough=300, rule='every case')
def incomplete(case, ctx):
    """incomplete definitions and components that do not exist are rejected"""
    c, which = case
    ctx.nontrivial(True)
    m = expand(c)
    kw = {}
    if 'w' in which:
        kw['weights'] = m.w
    if 'm' in which:
        kw['means'] = m.mu
    if 'c' in which:
        kw['covars'] = m.cov
    raises(RuntimeError, GMixND, **kw)
    g = GMixND(weights=m.w, means=m.mu, covars=m.cov)
    for bad in (-1, m.ng):
        raises((AssertionError, IndexError, ValueError), g.get_prob_scalar, m.mu[0], component=bad)
        raises((AssertionError, IndexError, ValueError), g.get_lnprob_array, m.mu, component=bad)
