"""C22: bounded least squares"""
import math
import numpy as np
import scipy.optimize
from vh import Registry, st, check, close, raises, same
from gen import fl, logfl, ints, seeds, rng_of, pick, sign
from ngmix.fitting.leastsqbound import (leastsqbound, run_leastsq, _internal2external_func, _external2internal_func, _internal2external_grad)
from ngmix import flags as F
from ngmix.defaults import PDEF, CDEF
from ngmix.gexceptions import GMixRangeError  # noqa

ORACLE = ('every point handed to the objective is recorded and compared to the bounds, the documented parameter mapping in closed form, its gradient by differences, '
          'scipy leastsq without bounds, the bounded linear problem solved by scipy lsq_linear, and the inverse of J^T J')
R = Registry()


def bound(lo=-5, hi=5):
    """[lower, upper], either may be None"""
    return st.tuples(st.sampled_from(['none', 'low', 'up', 'both', 'both']), fl(lo, hi), logfl(1e-3, 20.0)).map(
        lambda t: {'none': [None, None], 'low': [t[1], None], 'up': [None, t[1]], 'both': [t[1], t[1] + t[2]]}[t[0]])


def inside(b, t):
    """a point of the allowed range from t in [0, 1]"""
    lo, hi = b
    if lo is not None and hi is not None:
        return min(max(lo + (hi - lo) * t, lo), hi)
    if lo is not None:
        return lo + 10 * t**3
    if hi is not None:
        return hi - 10 * t**3
    return 10 * (t - 0.5)


def violates(x, bounds):
    """how far x is outside of the bounds, beyond rounding"""
    w = 0.0
    for v, (lo, hi) in zip(x, bounds):
        tol = 4e-16 * (abs(v) + (abs(lo) if lo is not None else 0) + (abs(hi) if hi is not None else 0) + 2)
        if lo is not None:
            w = max(w, lo - v - tol)
        if hi is not None:
            w = max(w, v - hi - tol)
        if not np.isfinite(v):
            return np.inf
    return w


@R.law(st.fixed_dictionaries(dict(bounds=st.lists(bound(), min_size=1, max_size=6), t=st.lists(fl(0, 1), min_size=6, max_size=6), d=st.lists(fl(0, 1), min_size=6, max_size=6), xi=st.lists(pick((3, fl(-3, 3)), (1, fl(-1e4, 1e4)), (1, fl(-1e-5, 1e-5))), min_size=6, max_size=6), i=st.booleans())),
       quick=3000, rule='some parameter has a bound')
def mapping(case, ctx):
    """the mapping is the documented one: into the bounds for every internal value, monotone, inverted by the other direction, with the right gradient"""
    bs = [tuple(b) for b in case['bounds']]
    n = len(bs)
    i2e, e2i = _internal2external_func(bs), _external2internal_func(bs)
    ctx.nontrivial(any(b != (None, None) for b in bs))
    xi = np.array(case['xi'][:n])
    x0 = xi.copy()
    xe = i2e(xi)
    same(xi, x0, 'internal values changed')
    check(xe.shape == (n,), 'shape')
    check(violates(xe, bs) <= 0, 'outside of the bounds by %g: %s %s', violates(xe, bs), xe, bs)
    for k, (lo, hi) in enumerate(bs):
        if lo is None and hi is None:
            ref = xi[k]
        elif hi is None:
            ref = lo - 1 + math.sqrt(xi[k]**2 + 1)
        elif lo is None:
            ref = hi + 1 - math.sqrt(xi[k]**2 + 1)
        else:
            ref = lo + (hi - lo) / 2 * (math.sin(xi[k]) + 1)
        close(xe[k], ref, 1e-14, 1e-15, 'documented mapping, parameter %d' % k)
    ext = np.array([inside(b, t) for b, t in zip(bs, case['t'])])
    e0 = ext.copy()
    internal = e2i(ext)
    same(ext, e0, 'external values changed')
    check(np.all(np.isfinite(internal)), 'internal value of %s in %s: %s', ext, bs, internal)
    back = i2e(internal)
    # the mapping is flat at a bound: half of the digits of the distance to it
    close(back, ext, 1e-12, 1e-14, 'there and back')
    for k, (lo, hi) in enumerate(bs):
        a, b = sorted([inside(bs[k], case['t'][k]), inside(bs[k], case['d'][k])])
        ya, yb = [_external2internal_func([bs[k]])(np.array([x]))[0] for x in (a, b)]
        if lo is None and hi is not None:
            check(ya >= yb, 'not monotone')
        else:
            check(ya <= yb, 'not monotone')
    xi = np.clip(xi, -1.5, 1.5) if case['i'] else np.clip(xi, -50, 50)
    g = _internal2external_grad(xi, bs)
    h = 1e-6 * (1 + abs(xi)) if case['i'] else 1e-5
    num = (i2e(xi + h) - i2e(xi - h)) / (2 * h)
    scale = np.array([1.0 if None in b else b[1] - b[0] for b in bs])
    close(g / scale, num / scale, 1e-5, 1e-6 + 1e-15 * np.max(abs(xi) + 10) / np.min(h) / scale.min(), 'gradient')


# ------------------------------------------------------------------ problems

PROBLEMS = ['linear', 'exponential', 'gauss', 'rosenbrock', 'power']


def problem(kind, r, n, noise):
    """(function, true parameters) of a smooth problem with n parameters"""
    t = np.linspace(0.1, 3.0, 12 + 3 * n)
    if kind == 'linear':
        A = r.normal(size=(len(t), n))
        p = r.uniform(-2, 2, size=n)
        y = A.dot(p) + noise * r.normal(size=len(t))
        return lambda q: A.dot(q) - y, p, A, y
    if kind == 'exponential':
        p = np.concatenate([r.uniform(0.5, 2, size=1), r.uniform(-1.0, 1.0, size=n - 1)])

        def m(q):
            return q[0] * np.exp(sum(q[k] * t**k / (3.0**k) for k in range(1, n)))
    elif kind == 'gauss':
        p = np.concatenate([r.uniform(0.8, 2, size=1), r.uniform(0.5, 1.5, size=n - 1)])

        def m(q):
            return q[0] * np.exp(-0.5 * (t - (q[1] if n > 1 else 1.0))**2 / (q[2] if n > 2 else 1.0)**2) + (q[3] if n > 3 else 0) + (q[4] * t if n > 4 else 0)
    elif kind == 'power':
        p = r.uniform(0.5, 1.5, size=n)

        def m(q):
            return sum((q[k] + 0.1 * q[k]**3) * t**k / 2.0**k for k in range(n))
    else:
        p = np.ones(n)

        def f(q):
            out = [1 - q[0]]
            for k in range(n - 1):
                out.append(3 * (q[k + 1] - q[k]**2))
            return np.array(out + [0.1 * (q[-1] - 1), 0.0])
        return f, p, None, None
    y = m(p) + noise * r.normal(size=len(t))
    return lambda q: m(q) - y, p, None, None


_prob = dict(kind=st.sampled_from(PROBLEMS), n=ints(1, 5), seed=seeds, noise=st.sampled_from([0.01, 0.1]))


class Recorder(object):
    def __init__(self, f, bounds):
        self.f, self.bounds, self.worst, self.n = f, bounds, -np.inf, 0

    def __call__(self, x, *args):
        self.n += 1
        if self.bounds is not None:
            self.worst = max(self.worst, violates(x, self.bounds))
        return self.f(np.array(x))


@R.law(st.fixed_dictionaries(dict(_prob, bounds=st.lists(bound(-2, 2), min_size=5, max_size=5), t=st.lists(pick((5, fl(0.02, 0.98)), (1, st.sampled_from([0.0, 1.0]))), min_size=5, max_size=5), route=ints(0, 2))), quick=1500, rule='bounds cut off the minimum')
def stays_inside(case, ctx):
    """any bounds and any start inside them: evaluated and returned points are inside, the result is no worse than the start"""
    n = case['n']
    f, p, A, y = problem(case['kind'], rng_of(case['seed']), n, case['noise'])
    bs = [tuple(b) for b in case['bounds'][:n]]
    x0 = np.array([inside(b, t) for b, t in zip(bs, case['t'])])
    start = x0.copy()
    rec = Recorder(f, bs)
    ctx.nontrivial(violates(p, bs) > 0)
    a = (f(x0)**2).sum()
    if not np.isfinite(a):
        return
    if case['route'] == 0:
        x, cov, info, msg, ier = leastsqbound(rec, x0, bounds=bs, full_output=1)
    elif case['route'] == 1:
        x, ier = leastsqbound(rec, x0, bounds=bs)
    else:
        res = run_leastsq(rec, x0, 0, bounds=bs)
        same(x0, start, 'guess changed')
        check(rec.worst <= 0, 'evaluated outside of the bounds by %g', rec.worst)
        if res['flags'] == 0:
            x = res['pars']
            check(np.all(np.isfinite(x)) and np.all(np.isfinite(res['pars_cov'])) and np.all(np.isfinite(res['pars_err'])), 'not finite, flags clear')
            close(res['pars_err'], np.sqrt(np.diag(res['pars_cov'])), 1e-13, 0, 'errors')
        else:
            check(len(res['errmsg']) > 0, 'message')
            return
        ier = res['ier']
    same(x0, start, 'start changed')
    check(rec.worst <= 0, 'evaluated outside of the bounds by %g', rec.worst)
    check(violates(x, bs) <= 0, 'returned a point outside of the bounds: %s %s', x, bs)
    b = (f(x)**2).sum()
    check(b <= a * (1 + 1e-10) + 1e-14, 'worse than the start: %g > %g', b, a)
    # a minimum inside the bounds, with the start inside, is found for the linear problem
    if case['kind'] == 'linear' and ier in (1, 2, 3, 4):
        lo = np.array([-np.inf if b_[0] is None else b_[0] for b_ in bs])
        hi = np.array([np.inf if b_[1] is None else b_[1] for b_ in bs])
        best = scipy.optimize.lsq_linear(A, y, bounds=(lo, hi))
        free = np.linalg.lstsq(A, y, rcond=None)[0]
        c = 2 * best.cost
        check(b >= c * (1 - 1e-6) - 1e-12, 'better than the best: %g < %g', b, c)
        w = np.minimum(free - lo, hi - free) > 0.05 * np.minimum(hi - lo, 1)
        # (starts on a bound can be stuck there, as documented)
        if np.all(w) and all(0 < t < 1 for t in case['t'][:n]):
            ctx.label('interior')
            check(b <= c * (1 + 1e-4) + 1e-8, 'not the minimum: %g > %g', b, c)


@R.law(st.fixed_dictionaries(dict(_prob, kindb=st.lists(st.sampled_from(['none', 'low', 'up', 'both']), min_size=5, max_size=5), wide=logfl(3, 30), st=st.lists(fl(-1, 1), min_size=5, max_size=5), asym=fl(0.3, 0.7), np_=ints(0, 4), kspace=st.booleans(), dfun=st.booleans())), quick=1200, rule='some bound present')
def inactive(case, ctx):
    """bounds away from the minimum do not matter: solution, covariance and errors are those of unbounded least squares"""
    n = case['n']
    if case['kind'] == 'rosenbrock' and n == 1:
        return
    r = rng_of(case['seed'])
    f, p, A, y = problem(case['kind'], r, n, case['noise'])
    w = case['wide']
    bs = []
    for k in range(n):
        lo, hi = p[k] - w * case['asym'], p[k] + w * (1 - case['asym'])
        bs.append({'none': (None, None), 'low': (lo, None), 'up': (None, hi), 'both': (lo, hi)}[case['kindb'][k]])
    x0 = p + 0.1 * np.array(case['st'][:n])
    ctx.nontrivial(any(b != (None, None) for b in bs))
    xu, covu, infou, _, ieru = scipy.optimize.leastsq(f, x0, full_output=1, ftol=1e-12, xtol=1e-12)
    scipy_cov = covu
    # the covariance from central differences: the steps of minpack are relative, and useless next to zero
    h = 1e-5 * (1 + abs(xu))
    J = np.array([(f(xu + h[k] * np.eye(n)[k]) - f(xu - h[k] * np.eye(n)[k])) / (2 * h[k]) for k in range(n)]).T
    covu = np.linalg.pinv(J.T.dot(J))
    if abs(xu).min() < 1e-2 or abs(_external2internal_func(bs)(np.array(xu)) if violates(xu, bs) <= 0 else 0 * xu).min() < 1e-2 or abs(_external2internal_func(bs)(x0)).min() < 1e-2:
        ctx.label('near zero')
        return
    if ieru not in (1, 2, 3, 4) or covu is None or abs(xu - p).max() > 0.7 or np.linalg.cond(covu) > 1e8 or violates(xu, [(None if b[0] is None else b[0] + 0.1, None if b[1] is None else b[1] - 0.1) for b in bs]) > 0:
        return
    rec = Recorder(f, bs)
    x, cov, info, msg, ier = leastsqbound(rec, x0, bounds=bs, full_output=1, ftol=1e-12, xtol=1e-12)
    ctx.label(case['kind'])
    s = np.sqrt(np.diag(covu))
    fu = f(xu)
    s2 = max((fu**2).sum(), 1e-8)
    c0 = (fu**2).sum()
    check(ier in (1, 2, 3, 4), 'ier %d %s', ier, msg)
    check(rec.worst <= 0, 'evaluated outside of the bounds')
    close((f(x)**2).sum(), c0, 1e-6, 1e-9, 'sum of squares')
    close((x - xu) / s, 0 * x, 0, 2e-3 * math.sqrt(s2), 'solution')
    close(cov / np.outer(s, s), covu / np.outer(s, s), 0, 2e-2, 'covariance')
    check(info['nfev'] <= rec.n, 'nfev')
    close(info['fvec'], f(x), 1e-9, 1e-9, 'fvec')
    # without bounds it is scipy
    y0 = leastsqbound(f, x0, full_output=1, ftol=1e-12, xtol=1e-12)
    same(y0[0], xu, 'no bounds')
    if scipy_cov is not None:
        same(y0[1], scipy_cov, 'no bounds, covariance')
    if case['dfun'] and A is not None:
        xd = leastsqbound(rec, x0, bounds=bs, Dfun=lambda q: A, full_output=1, ftol=1e-12, xtol=1e-12)
        close((xd[0] - xu) / s, 0 * x, 0, 2e-3 * math.sqrt(s2), 'solution with derivatives')
        close(xd[1] / np.outer(s, s), covu / np.outer(s, s), 0, 2e-2, 'covariance with derivatives')
        # extra arguments go to both functions
        xd2 = leastsqbound(lambda q, a, b: b * f(q) + 0 * a, x0, args=(np.zeros(1), 2.0), bounds=bs, Dfun=lambda q, a, b: b * A, full_output=1, ftol=1e-12, xtol=1e-12)
        close((xd2[0] - xu) / s, 0 * x, 0, 2e-3 * math.sqrt(s2), 'solution with derivatives and arguments')
        close(xd2[1] / np.outer(s, s), covu / np.outer(s, s) / 4, 0, 2e-2, 'covariance with derivatives and arguments')
        xd = leastsqbound(rec, x0, bounds=bs, Dfun=lambda q: A.T, col_deriv=1, full_output=1, ftol=1e-12, xtol=1e-12)
        close((xd[0] - xu) / s, 0 * x, 0, 2e-3 * math.sqrt(s2), 'solution with column derivatives')
    # the covariance of run_leastsq is scaled by the residuals that are not prior terms
    npr = case['np_']
    g = x0.copy()
    for b_ in (None, bs):
        res = run_leastsq(f, g, npr, ftol=1e-12, xtol=1e-12, k_space=case['kspace'], **({} if b_ is None else {'bounds': b_}))
        same(g, x0, 'guess changed')
        fr = f(xu)
        dof = (len(fr) - npr) // 2 - n if case['kspace'] else len(fr) - npr - n
        if dof == 0:
            check(res['flags'] & F.ZERO_DOF, 'no degrees of freedom: flags %d', res['flags'])
            continue
        if dof < 0:
            check((fr[npr:]**2).sum() < 1e-10 or res['flags'] != 0, 'negative degrees of freedom: flags %d', res['flags'])
            continue
        scale = (fr[npr:]**2).sum() / dof
        if scale < 1e-12:
            continue
        check(res['flags'] == 0, 'flags %d %s', res['flags'], res['errmsg'])
        close((res['pars'] - xu) / s, 0 * x, 0, 2e-3 * math.sqrt(s2), 'solution of run_leastsq')
        close(res['pars_cov'] / np.outer(s, s) / scale, covu / np.outer(s, s), 0, 2e-2, 'covariance of run_leastsq')
        close(res['pars_err'], np.sqrt(np.diag(res['pars_cov'])), 1e-13, 0, 'errors')
        check(res['nfev'] > 0 and res['ier'] in (1, 2, 3, 4), 'nfev, ier')


FAILURES = ['singular', 'nan', 'inf', 'maxfev', 'zerodiv', 'valueerror', 'nanerror', 'other', 'dof', 'fewer', 'length', 'nanpart', 'integers', 'outside']


@R.law(st.fixed_dictionaries(dict(_prob, how=st.sampled_from(FAILURES), bounded=st.booleans(), t=st.lists(fl(0.1, 0.9), min_size=5, max_size=5))), quick=1200, rule='all')
def failures(case, ctx):
    """what cannot be solved is reported by a flag; errors in the objective are not hidden"""
    n, how = case['n'], case['how']
    r = rng_of(case['seed'])
    f, p, A, y = problem(case['kind'], r, n, case['noise'])
    kw = {}
    x0 = p + 0.2
    bs = [(float(v - 3), float(v + 2.5)) for v in p]
    if case['bounded']:
        kw['bounds'] = bs
    ctx.nontrivial()
    ctx.label(how)
    finite = True
    if how == 'singular':
        g = lambda q: f(np.append(q[:-1], p[-1])) if n > 1 else np.ones(8)  # noqa
        res = run_leastsq(g, x0, 0, **kw)
        check(res['flags'] != 0, 'a parameter without influence, flags clear')
    elif how in ('nan', 'inf'):
        v = np.nan if how == 'nan' else np.inf
        res = run_leastsq(lambda q: f(q) + v, x0, 0, **kw)
        check(res['flags'] != 0, 'no finite residual, flags clear')
    elif how == 'nanpart':
        # one residual is not a number away from the start
        def g(q):
            out = np.array(f(q))
            if abs(q - x0).max() > 1e-3:
                out[0] = np.nan
            return out
        res = run_leastsq(g, x0, 0, **kw)
        if res['flags'] == 0:
            check(np.all(np.isfinite(res['pars'])) and np.all(np.isfinite(res['pars_cov'])) and np.all(np.isfinite(g(res['pars']))), 'not finite, flags clear')
    elif how == 'maxfev':
        if case['kind'] == 'linear':
            return
        res = run_leastsq(f, x0, 0, maxfev=2, **kw)
        check(res['flags'] != 0, 'stopped after two evaluations, flags clear')
        check(np.all(res['pars'] == PDEF) and np.all(res['pars_cov'] == CDEF) and np.all(res['pars_err'] == CDEF), 'values of a failed fit')
    elif how == 'zerodiv':
        def g(q):
            raise ZeroDivisionError('x')
        res = run_leastsq(g, x0, 0, **kw)
        check(res['flags'] == F.DIV_ZERO and len(res['errmsg']) > 0, 'zero division: %s', res)
        check(np.all(res['pars'] == PDEF) and np.all(res['pars_cov'] == CDEF), 'values of a failed fit')
    elif how == 'nanerror':
        def g(q):
            raise ValueError('array must not contain infs or NaNs')
        res = run_leastsq(g, x0, 0, **kw)
        check(res['flags'] == F.LM_FUNC_NOTFINITE, 'not finite: %s', res)
        check(np.all(res['pars'] == PDEF) and np.all(res['pars_cov'] == CDEF), 'values of a failed fit')
    elif how in ('valueerror', 'other'):
        E = ValueError if how == 'valueerror' else KeyError

        def g(q):
            raise E('something else')
        raises(E, run_leastsq, g, x0, 0, _msg='error of the objective', **kw)
        return
    elif how == 'dof':
        Q = np.linalg.qr(r.normal(size=(n, n)))[0]
        for npr in (0, 2):
            g = lambda q: np.concatenate([np.ones(npr) * 0.1, Q.dot(q - p) * 3])  # noqa
            res = run_leastsq(g, x0, npr, **kw)
            check(res['flags'] != 0, 'no degrees of freedom, flags clear')
            check(res['flags'] & F.ZERO_DOF or res['flags'] & F.LM_SINGULAR_MATRIX or res['ier'] > 4, 'no degrees of freedom: flags %d', res['flags'])
        return
    elif how == 'fewer':
        if n == 1:
            return
        raises(TypeError, run_leastsq, lambda q: q[:n - 1] - 1.0, x0, 0, _msg='fewer residuals than parameters', **kw)
        return
    elif how == 'length':
        raises(ValueError, run_leastsq, f, x0, 0, bounds=bs[:-1] if n > 1 else bs * 2, _msg='number of bounds')
        return
    elif how == 'integers':
        # a start given as integers is the same point
        xi = np.array([int(np.floor(v)) for v in p])
        a = run_leastsq(f, xi.astype('f8'), 0, **kw)
        b = run_leastsq(f, xi, 0, **kw)
        check(a['flags'] == b['flags'], 'integer start: flags %d %d', a['flags'], b['flags'])
        close(b['pars'], a['pars'], 1e-6, 1e-6, 'integer start')
        check(abs(a['nfev'] - b['nfev']) <= 3 * (n + 1), 'integer start: evaluations %d %d', a['nfev'], b['nfev'])
        return
    else:
        # a start that the bounds do not allow
        bs2 = [(b[0], b[1]) for b in bs]
        x0[0] = bs[0][1] + 1.0
        rec = Recorder(f, bs2)
        try:
            res = run_leastsq(rec, x0, 0, bounds=bs2)
        except (ValueError, TypeError):
            return
        if res['flags'] == 0:
            check(violates(res['pars'], bs2) <= 0 and np.all(np.isfinite(res['pars_cov'])), 'start outside: %s', res)
    if res['flags'] == 0 and finite:
        check(np.all(np.isfinite(res['pars'])) and np.all(np.isfinite(res['pars_cov'])) and np.all(np.isfinite(res['pars_err'])), 'not finite, flags clear')
    check(isinstance(res['flags'], (int, np.integer)) and 'errmsg' in res and 'nfev' in res, 'result')


@R.law(st.fixed_dictionaries(dict(n=ints(2, 5), kindb=st.lists(st.sampled_from(['none', 'low', 'up', 'both']), min_size=5, max_size=5), st=st.lists(fl(-1.5, 1.5), min_size=5, max_size=5), power=fl(2.5, 5.0), dfun=st.booleans(), fev=ints(20, 200))), quick=400, rule='the limit is reached')
def limit(case, ctx):
    """a run stops at the limit of evaluations and says so; without one the limit is the documented 200 (n + 1), or 100 (n + 1) with derivatives"""
    n = case['n']
    bs = [{'none': (None, None), 'low': (-3.0, None), 'up': (None, 4.0), 'both': (-3.0, 4.0)}[k] for k in case['kindb'][:n]]
    x0 = 1 + np.array(case['st'][:n])
    pw = case['power']

    # slow: the residuals vanish with a high power
    def f(q):
        return np.append(np.sign(q) * np.abs(q)**pw, 0.0)

    def d(q):
        return np.vstack([np.diag(pw * np.abs(q)**(pw - 1)), np.zeros(n)])
    kw = dict(bounds=bs, full_output=1, ftol=0.0, xtol=0.0)
    if case['dfun']:
        kw['Dfun'] = d
    full = (100 if case['dfun'] else 200) * (n + 1)
    for fev, lim in ((case['fev'], case['fev']), (0, full)):
        x, cov, info, msg, ier = leastsqbound(f, x0, maxfev=fev, **kw)
        check(np.isfinite(x).all() and violates(x, bs) <= 0, 'point')
        check(info['nfev'] <= lim + n + 1, '%d evaluations with a limit of %d', info['nfev'], lim)
        if ier == 5:
            ctx.nontrivial()
            ctx.label('default' if fev == 0 else 'given')
            check(info['nfev'] >= lim, 'gave up after %d evaluations, limit %d', info['nfev'], lim)
    res = run_leastsq(f, x0, 0, maxfev=case['fev'], bounds=bs, ftol=0.0, xtol=0.0)
    if res['ier'] > 4:
        check(res['flags'] == 2**(res['ier'] - 5), 'flags %d for code %d', res['flags'], res['ier'])
