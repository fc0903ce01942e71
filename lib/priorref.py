"""Reference densities of the ngmix priors, shared by the checks of priors, joint priors and guessers"""
import math
import numpy as np
from scipy import special, stats
from vh import st, check, Skip
from gen import fl, logfl
from ngmix import priors as P

PMIN = 1e-9
val = fl(-3, 3)
w = logfl(0.02, 5)

normal = st.tuples(st.just('normal'), val, w)
flat = st.tuples(st.just('flat'), val, w)
ew = logfl(0.005, 1.0)
erf2 = st.tuples(st.just('erf'), val, w, ew, ew)
lognormal = st.tuples(st.just('lognormal'), logfl(0.05, 20), logfl(0.05, 3), st.one_of(st.none(), val))
trunc = st.tuples(st.just('trunc'), val, w, fl(-2, 1), logfl(0.3, 4))
lmb = st.tuples(st.just('lmbounds'), val, w)
sinh = st.tuples(st.just('sinh'), val, w)
limit = st.tuples(st.just('limit'), st.one_of(normal, lognormal, flat, erf2, trunc), fl(0, 0.6), fl(0.2, 0.4))
d1 = st.one_of(normal, flat, erf2, lognormal, trunc, lmb, sinh)


class Spec(object):
    """reference: support [lo, hi] (edges), lnp, cdf"""
    lo, hi = -np.inf, np.inf
    has_lnp = True
    has_prob = True
    outside = None        # 'raise', 'either' or None

    def cdf(self, x):
        raise NotImplementedError


def spec(c, seed=0):
    """build the ngmix prior of a case together with its reference"""
    rng = np.random.RandomState(seed)
    s = Spec()
    k = c[0]
    s.kind = k
    if k == 'normal':
        _, m, sig = c
        s.prior = P.Normal(m, sig, rng=rng)
        s.lnp = lambda x: -0.5 * ((x - m) / sig) ** 2
        s.fdiff = lambda x: (x - m) / sig
        s.cdf = lambda x: stats.norm.cdf(x, m, sig)
        s.mode, s.scale = m, sig
    elif k == 'flat':
        _, lo, width = c
        hi = lo + width
        s.prior = P.FlatPrior(lo, hi, rng=rng)
        s.lo, s.hi = lo, hi
        s.lnp = lambda x: 0.0 * x
        s.fdiff = lambda x: 0.0 * x
        s.cdf = lambda x: np.clip((x - lo) / (hi - lo), 0, 1)
        s.mode, s.scale = 0.5 * (lo + hi), width
        s.outside = 'raise'
    elif k == 'erf':
        _, lo, width, f1, f2 = c
        hi = lo + width
        w1, w2 = f1 * width, f2 * width
        s.prior = P.TwoSidedErf(lo, w1, hi, w2, rng=rng)

        def p(x):
            return 0.5 * (special.erf((hi - x) / w2) + special.erf((x - lo) / w1))

        def lnp(x):
            q = np.asarray(p(x), dtype='f8')
            return np.where(q > 0, np.log(np.where(q > 0, q, 1.0)), -np.inf)
        s.lnp, s.p = lnp, p
        s.fdiff = lambda x: np.sqrt(np.maximum(-2 * lnp(x), 0))
        x = np.linspace(lo - 5 * w1, hi + 5 * w2, 40001)
        y = np.maximum(p(x), 0)
        cc = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]))])
        s.cdf = lambda v: np.interp(v, x, cc / cc[-1])
        s.smin, s.smax = x[0], x[-1]
        s.mode, s.scale = 0.5 * (lo + hi), width
    elif k == 'lognormal':
        _, m, rel, shift = c
        sig = m * rel
        s.prior = P.LogNormal(m, sig, rng=rng, shift=shift)
        sh = 0.0 if shift is None else shift
        v = math.log1p(rel ** 2)
        mu = math.log(m) - 0.5 * v
        s.lo = sh
        s.open_lo = True
        s.lnp = lambda x: -0.5 * (np.log(x - sh) - mu) ** 2 / v - np.log(x - sh) + (mu - v) + 0.5 * v
        s.fdiff = lambda x: np.sqrt(np.maximum(-2 * s.lnp(x), 0))
        s.cdf = lambda x: stats.norm.cdf((np.log(np.maximum(x - sh, 1e-300)) - mu) / math.sqrt(v))
        s.mode, s.scale = sh + math.exp(mu - v), math.exp(mu)
        s.outside = 'raise'
        s.mean, s.sig = m, sig
    elif k == 'trunc':
        _, m, sig, a, width = c
        lo, hi = m + a * sig, m + (a + width) * sig
        s.prior = P.TruncatedGaussian(m, sig, lo, hi, rng=rng)
        s.lo, s.hi = lo, hi
        s.lnp = lambda x: -0.5 * ((x - m) / sig) ** 2
        s.fdiff = lambda x: (x - m) / sig
        s.has_prob = False
        f0, f1 = stats.norm.cdf([a, a + width])
        s.cdf = lambda x: np.clip((stats.norm.cdf(x, m, sig) - f0) / (f1 - f0), 0, 1)
        s.mode, s.scale = min(max(m, lo), hi), width * sig
        s.outside = 'either'
    elif k == 'lmbounds':
        _, lo, width = c
        hi = lo + width
        s.prior = P.LMBounds(lo, hi, rng=rng)
        s.has_lnp = s.has_prob = False
        s.fdiff = lambda x: 0.0 * x
        s.cdf = lambda x: np.clip((x - lo) / (hi - lo), 0, 1)
        s.smin, s.smax = lo, hi
        s.mode, s.scale = lo, width
    elif k == 'sinh':
        _, m, sc = c
        s.prior = P.Sinh(m, sc, rng=rng)
        s.has_lnp = s.has_prob = False
        s.fdiff = lambda x: np.sinh((x - m) / sc)
        s.cdf = lambda x: np.clip((x - m + sc) / (2 * sc), 0, 1)
        s.smin, s.smax = m - sc, m + sc
        s.mode, s.scale = m, sc
    elif k == 'limit':
        _, inner, qlo, dq = c
        i = spec(inner, seed)
        # limits at given quantiles of the inner density
        xs = np.sort(spec(inner, 12345).prior.sample(4001))
        lo, hi = float(xs[int(qlo * 4000)]), float(xs[int((qlo + dq) * 4000)])
        if not hi > lo + 1e-3 * i.scale:
            raise Skip()
        s.prior = P.LimitPDF(i.prior, (lo, hi))
        s.has_lnp = s.has_prob = False
        s.fdiff = None
        f0, f1 = i.cdf(np.array([lo, hi]))
        s.cdf = lambda x: np.clip((i.cdf(x) - f0) / (f1 - f0), 0, 1)
        s.smin, s.smax = lo, hi
    if not hasattr(s, 'smin'):
        s.smin, s.smax = s.lo, s.hi
    return s


def inside(s, x):
    if getattr(s, 'open_lo', False):
        return s.lo < x <= s.hi
    return s.lo <= x <= s.hi


def ks(x, cdf, what):
    n = len(x)
    d = stats.kstest(x, cdf)
    check(d.pvalue > PMIN, '%s: %d samples do not follow the density (KS %r, p %r)', what, n, d.statistic, d.pvalue)
    if n >= 100:
        # the extremes reach as far into the tails as they should
        u = np.asarray(cdf(np.array([np.min(x), np.max(x)])), dtype='f8')
        for q, end in ((u[0], 'smallest'), (1 - u[1], 'largest')):
            check(n * np.log1p(-min(max(q, 0.0), 1 - 1e-12)) > np.log(PMIN), '%s: the %s of %d samples is at quantile %r from the end', what, end, n, q)


# ---- shapes ----
def ba_ln(g, sig):
    return 2 * np.log(1 - g * g) - 0.5 * g * g / sig ** 2


def ba_cdf(sig):
    # in u = 1 - g^2:  p(g) dg ~ u^2 exp(-(1-u)/(2 s^2)) du
    g = np.linspace(0, 1, 20001)
    y = g * (1 - g * g) ** 2 * np.exp(-0.5 * g * g / sig ** 2)
    cc = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]))])
    return lambda q: np.interp(q, g, cc / cc[-1])
