"""C03: moment results: flags, NaNs, errors, derived values"""
import math
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import fl, logfl, seeds, rng_of, ints, sign
import ngmix
from ngmix import moments as M
from ngmix import flags as F
from ngmix.util import get_ratio_error, get_ratio_var

ORACLE = 'definitional ratios and first-order error propagation from the gradient of each ratio'
R = Registry()

MAXCOMB = {'Mv': 0, 'Mu': 1, 'M1': 2, 'M2': 3, 'MT': 4, 'MF': 5}


def build(case):
    """moment sums and covariance from the case"""
    n = case['n']
    r = rng_of(case['seed'])
    s = r.normal(size=n) * 10 ** case['scale']
    for i, v in case['set']:
        s[i % 6] = v
    s[4] = case['MT']
    s[5] = case['MF']
    a = r.normal(size=(n, n)) * 10 ** case['cscale']
    c = a.dot(a.T) + np.eye(n) * 1e-3 * 10 ** (2 * case['cscale'])
    for i, kind in case['badvar']:
        c[i % n, i % n] *= {'zero': 0.0, 'neg': -1.0}[kind]
    return s, c


vec = st.fixed_dictionaries(dict(
    n=st.sampled_from([6, 6, 17]), seed=seeds, scale=fl(-3, 3), cscale=fl(-4, 2),
    set=st.lists(st.tuples(ints(0, 5), st.sampled_from([0.0, 1.0, -1.0])), max_size=3),
    MT=st.one_of(logfl(1e-3, 1e3), logfl(1e-3, 1e3), st.just(0.0), logfl(1e-3, 1e3).map(lambda x: -x)),
    MF=st.one_of(logfl(1e-3, 1e3), logfl(1e-3, 1e3), st.just(0.0), logfl(1e-3, 1e3).map(lambda x: -x)),
    badvar=st.one_of(st.just([]), st.just([]), st.lists(st.tuples(ints(0, 16), st.sampled_from(['zero', 'neg'])), min_size=1, max_size=2)),
    norm=st.one_of(st.none(), logfl(0.1, 100)),
))


def ratio_err(s, c, i, j):
    """first-order propagation of s_i/s_j by the gradient"""
    g = np.zeros(len(s))
    g[i] += 1 / s[j]
    g[j] += -s[i] / s[j] ** 2
    v = g.dot(c).dot(g)
    terms = abs(c[i, i]) / s[j]**2 + abs(c[j, j]) * s[i]**2 / s[j]**4 + 2 * abs(c[i, j] * s[i] / s[j]**3)
    return math.sqrt(max(v, 0.0)), math.sqrt(1e-12 * terms)


@R.law(vec, quick=3000, rule='flux and size positive, or a flag set')
def result_contract(case, ctx):
    """every derived value is its definitional ratio, with first-order error; flags exactly for the documented conditions; finite whenever its flag is clear"""
    s, c = build(case)
    s0, c0 = s.copy(), c.copy()
    res = M.make_mom_result(s, c, sums_norm=case['norm'])
    same(s, s0, 'sums changed')
    same(c, c0, 'sums_cov changed')
    n = len(s)
    allvar = bool(np.all(np.diagonal(c) > 0))
    fvar = c[5, 5] > 0
    tvar = c[4, 4] > 0
    fpos, tpos = s[5] > 0, s[4] > 0
    ctx.label('n%d %s%s%s' % (n, 'F' if fpos else '-', 'T' if tpos else '-', 'v' if allvar else '-'))
    ctx.nontrivial(True)
    # the values passed through
    same(res['sums'], s0, 'sums')
    same(res['sums_cov'], c0, 'sums_cov')
    check(res['flux'] == s[5], 'flux')
    if case['norm'] is None:
        check(np.isnan(res['sums_norm']), 'sums_norm NaN')
    else:
        check(res['sums_norm'] == case['norm'], 'sums_norm')
    # flux: governed by flux_flags
    check(res['flux_flags'] == (0 if fvar else F.NONPOS_VAR), 'flux_flags %r', res['flux_flags'])
    if fvar:
        close(res['flux_err'], math.sqrt(c[5, 5]), 1e-13, 0, 'flux_err')
        close(res['s2n'], s[5] / math.sqrt(c[5, 5]), 1e-12, 0, 's2n')
    else:
        check(np.isnan(res['flux_err']) and np.isnan(res['s2n']), 'flux_err/s2n must be NaN when flagged')
    # size
    tf = 0
    if not (fvar and tvar):
        tf = F.NONPOS_VAR
    elif not fpos:
        tf = F.NONPOS_FLUX
    check(res['T_flags'] == tf, 'T_flags %r expected %r', res['T_flags'], tf)
    if tf == 0:
        close(res['T'], s[4] / s[5], 1e-13, 0, 'T')
        ref, at = ratio_err(s, c, 4, 5)
        close(res['T_err'], ref, 1e-6, at, 'T_err')
    else:
        check(np.isnan(res['T']) and np.isnan(res['T_err']), 'T must be NaN when flagged')
    # everything
    fl_ = 0
    if not allvar:
        fl_ = F.NONPOS_VAR
    elif not fpos:
        fl_ = F.NONPOS_FLUX
    elif not tpos:
        fl_ = F.NONPOS_SIZE
    check(res['flags'] == fl_, 'flags %r expected %r', res['flags'], fl_)
    if allvar:
        close(res['sums_err'], np.sqrt(np.diagonal(c)), 1e-13, 0, 'sums_err')
    else:
        check(np.all(np.isnan(res['sums_err'])), 'sums_err')
    if fl_ == 0:
        for k, i in ((0, 2), (1, 3)):
            close(res['e'][k], s[i] / s[4], 1e-13, 0, 'e')
            close(res['e%d' % (k + 1)], s[i] / s[4], 1e-13, 0, 'e1/e2')
            ref, at = ratio_err(s, c, i, 4)
            close(res['e_err'][k], ref, 1e-6, at, 'e_err')
        close(res['e_cov'], np.diag(np.asarray(res['e_err']) ** 2), 1e-12, 0, 'e_cov')
        close(res['pars'], [s[0], s[1], s[2] / s[4], s[3] / s[4], s[4] / s[5], s[5]], 1e-13, 0, 'pars')
        check(res['flux_flags'] == 0 and res['T_flags'] == 0, 'clear overall flag with set part flag')
    else:
        for k in ('e1', 'e2', 'e', 'e_err', 'e_cov'):
            v = np.atleast_1d(res[k])
            if k == 'e_cov':
                v = np.diagonal(v)
            check(np.all(np.isnan(v)), '%s must be NaN when flagged: %r', k, v)
    for a, b in (('flags', 'flagstr'), ('flux_flags', 'flux_flagstr'), ('T_flags', 'T_flagstr')):
        check(res[b] == '|'.join(F.NAME_MAP[1 << p] for p in range(31) if res[a] >> p & 1), '%s %r', b, res[b])
    # named moments
    for name, i in M.MOMENTS_NAME_MAP.items():
        if i >= n:
            check(name not in res, 'named moment %s must be absent', name)
            continue
        if i == 5:
            check(res[name] == s[5], '%s', name)
            if fvar:
                close(res[name + '_err'], math.sqrt(c[5, 5]), 1e-13, 0, name + '_err')
        elif fpos:
            close(res[name], s[i] / s[5], 1e-13, 0, name)
            ref, at = ratio_err(s, c, i, 5)
            close(res[name + '_err'], ref, 1e-6, at, name + '_err')
        else:
            check(np.isnan(res[name]) and np.isnan(res[name + '_err']), 'named moment without flux')
    for name, i in MAXCOMB.items():
        check(M.MOMENTS_NAME_MAP[name] == i, 'order of %s', name)


@R.law(st.fixed_dictionaries(dict(v=vec, which=st.lists(st.tuples(st.sampled_from([2, 3, 4, 5]), st.just('nan')), min_size=1, max_size=2))), quick=600, rule='positive variances')
def not_finite(case, ctx):
    """sums that are not a number: flagged, without a shape marked good"""
    s, c = build(case['v'])
    for i, v in case['which']:
        s[i] = float(v)
    ctx.nontrivial(np.all(np.diagonal(c) > 0))
    with np.errstate(all='ignore'):
        res = M.make_mom_result(s.copy(), c.copy())
    check(res['flags'] != 0, 'no flag for sums %s: %s', s[:6], res)
    check(res['flagstr'] == F.get_flags_str(res['flags']), 'flagstr')
    check(not np.all(np.isfinite(res['e_err'])), 'finite errors of a shape that was flagged')


@R.law(st.fixed_dictionaries(dict(v=vec, fwhm=logfl(0.05, 5), nancen=st.booleans())), quick=1200, rule='positive flux and size')
def regularization(case, ctx):
    """regularised shapes have the documented form, and leave the flux alone"""
    v = dict(case['v'])
    s, c = build(v)
    if case['nancen']:
        s[0] = s[1] = np.nan
        for k in (0, 1):
            c[k, :] = 0
            c[:, k] = 0
            c[k, k] = 1.0
    res = M.make_mom_result(s.copy(), c.copy(), sums_norm=v['norm'])
    s0, c0 = res['sums'].copy(), res['sums_cov'].copy()
    check(M.regularize_mom_shapes(res, 0.0) is res, 'no regularization returns the input')
    new = M.regularize_mom_shapes(res, case['fwhm'])
    same(res['sums'], s0, 'input sums changed')
    same(res['sums_cov'], c0, 'input cov changed')
    Treg = M.fwhm_to_T(case['fwhm'])
    ok = res['flags'] == 0
    ctx.nontrivial(ok)
    for k in ('T', 'T_err', 'T_flags', 'T_flagstr', 'flux', 'flux_err', 's2n', 'flux_flags'):
        close(new[k], res[k], 1e-13, 0, k) if not isinstance(res[k], str) else check(new[k] == res[k], k)
    check((new['flags'] & res['flags']) == res['flags'], 'flags are kept')
    check(new['flagstr'] == F.get_flags_str(new['flags']), 'flagstr')
    if ok:
        T = s[4] / s[5]
        close(new['e'], np.array([s[2], s[3]]) / s[5] / (T + Treg), 1e-10, 0, 'regularized shape')
        # jackknife of the propagation: linear map on the sums
        s2 = s0.copy()
        s2[4] += Treg * s0[5]
        A = np.eye(len(s0))
        A[4, 5] = Treg
        c2 = A.dot(c0).dot(A.T)
        for k, i in ((0, 2), (1, 3)):
            ref, at = ratio_err(s2, c2, i, 4)
            close(new['e_err'][k], ref, 1e-5, 10 * at, 'regularized error')
        check(new['flags'] == 0, 'flags %r', new['flags'])


@R.law(st.fixed_dictionaries(dict(
    bits=st.lists(ints(0, 30), max_size=8, unique=True),
    typ=st.sampled_from(['int', 'i4', 'i8', 'u4', 'u8']),
    custom=st.one_of(st.none(), st.lists(ints(0, 30), max_size=5, unique=True)))), quick=1500, rule='at least one bit')
def flag_text(case, ctx):
    """the text of the flags lists exactly the set bits"""
    val = sum(1 << b for b in case['bits'])
    ctx.nontrivial(len(case['bits']) > 0)
    v = val if case['typ'] == 'int' else np.dtype(case['typ']).type(val)
    nm = None if case['custom'] is None else {1 << b: 'name%d' % b for b in case['custom']}
    use = F.NAME_MAP if nm is None else nm
    exp = '|'.join(use.get(1 << b, 'bit 2**%d' % b) for b in sorted(case['bits']))
    got = F.get_flags_str(v) if nm is None else F.get_flags_str(v, name_map=nm)
    check(got == exp, 'got %r expected %r', got, exp)
    raises(ValueError, F.get_flags_str, -1 - val if case['typ'] == 'int' else -1)


@R.law(st.fixed_dictionaries(dict(
    a=st.one_of(fl(-10, 10), st.just(0.0)), b=st.tuples(logfl(1e-2, 1e2), sign()).map(lambda t: t[0] * t[1]),
    va=logfl(1e-4, 10), vb=logfl(1e-4, 10), rho=fl(-0.95, 0.95), arr=st.booleans())), quick=2000, rule='correlated')
def ratio_error(case, ctx):
    """ratio errors are the propagated ones for correlated numerators and denominators"""
    a, b, va, vb = case['a'], case['b'], case['va'], case['vb']
    cov = case['rho'] * math.sqrt(va * vb)
    ctx.nontrivial(abs(case['rho']) > 0.01)
    ref = va / b**2 + a**2 * vb / b**4 - 2 * a * cov / b**3
    # positive definite covariance: the variance is positive
    at = 1e-12 * (va / b**2 + a**2 * vb / b**4)
    close(get_ratio_var(a, b, va, vb, cov), ref, 1e-9, at, 'variance')
    close(get_ratio_error(a, b, va, vb, cov) ** 2, max(ref, 0), 1e-9, at, 'error')
    A = np.array([a, 2 * a, 0.0])
    B = np.array([b, b, -b])
    o = get_ratio_error(A, B, va, vb, np.array([cov, cov, cov]))
    for i in range(3):
        close(o[i], get_ratio_error(float(A[i]), float(B[i]), va, vb, cov), 1e-10, 1e-14, 'array form')
    raises(ValueError, get_ratio_var, a, 0.0, va, vb, cov)
    raises(ValueError, get_ratio_var, A, np.array([b, 0.0, b]), va, vb, cov)


@R.law(st.fixed_dictionaries(dict(n=st.sampled_from([0, 1, 5, 7, 16, 18]), m=st.sampled_from([5, 7, 16]))), quick=40, rule='wrong sizes')
def bad_sizes_rejected(case, ctx):
    """sums and covariances of the wrong size are rejected"""
    ctx.nontrivial()
    raises(ValueError, M.make_mom_result, np.ones(case['n']), np.eye(6))
    raises(ValueError, M.make_mom_result, np.ones(6), np.eye(case['m']))
    raises(ValueError, M.make_mom_result, np.ones(17), np.ones((6, 5)))
    assert ngmix.moments is M
