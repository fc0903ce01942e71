"""C09: mixtures under histories of edits, copies and evaluations"""
import copy
import math
import numpy as np
from vh import Registry, st, check, close, raises, Skip
from gen import (fl, disk, logfl, ints, model_case, build, ref_of, ref_model, ref_moments, ref_eval, ref_convolve,
                 full_pars, seeds, rng_of, jac, make_jac)
import ngmix
from ngmix import Shape
from ngmix.gmix import GMix, GMixModel, GMixCM, GMixCoellip
from ngmix.gexceptions import GMixRangeError
import gen

ORACLE = ('a pool of plain arrays holding the full parameters that each mixture must have after every step; values compared '
          'with reference formulas on them and with a mixture freshly built from them')
R = Registry()
SHAPE = (4, 5)


def _obs():
    r = rng_of(5)
    w = r.uniform(0.5, 2, size=SHAPE)
    w[1, 2] = 0
    return ngmix.Observation(r.normal(size=SHAPE), weight=w, jacobian=ngmix.DiagonalJacobian(row=1.7, col=2.2, scale=0.8))


OBS = _obs()


def warmup():
    gm = GMixModel([0, 0, 0.1, 0.1, 4, 1.0], 'exp')
    gm.get_loglike(OBS)
    gm.make_image(SHAPE, jacobian=OBS.jacobian)
    gm.make_image(SHAPE, jacobian=OBS.jacobian, fast_exp=True)
    gm.get_model_s2n(OBS)
    gm.fill_fdiff(OBS, np.zeros(40))
    gm.convolve(gm)
    for m in ('gauss', 'turb', 'dev'):
        GMixModel([0, 0, 0.1, 0.1, 4, 1.0], m)
    GMixModel([0, 0, 0.1, 0.1, 4, 0, 0.5, 1.0], 'bd')
    GMixModel([0, 0, 0.1, 0.1, 4, 0.5, 1.0], 'bdf')
    GMixCM(0.5, 1.0, [0, 0, 0.1, 0.1, 4, 1.0])
    GMixCoellip([0, 0, 0.1, 0.1, 4, 2, 1.0, 1])
    gm.get_weighted_sums(OBS)


idx = ints(0, 7)
_new = model_case(models=['gauss', 'turb', 'exp', 'bd', 'bdf', 'cm', 'coellip', 'full', 'coellip', 'full'], Tlo=0.5)
op = st.one_of(
    st.tuples(st.just('new'), _new),
    st.tuples(st.just('set_flux'), idx, logfl(0.1, 50), st.sampled_from(['set_flux', 'set_psum'])),
    st.tuples(st.just('set_cen'), idx, fl(-2, 2), fl(-2, 2)),
    st.tuples(st.just('fill'), idx, _new, seeds),
    st.tuples(st.just('badfill'), idx, st.sampled_from(['short', 'long', 'shape'])),
    st.tuples(st.just('reset'), idx, seeds),
    st.tuples(st.just('copy'), idx, st.sampled_from(['copy', 'copy.copy', 'deepcopy', 'list'])),
    st.tuples(st.just('copy'), idx, st.sampled_from(['copy', 'copy.copy', 'deepcopy', 'list'])),
    st.tuples(st.just('shear'), idx, disk(0.5), st.booleans()),
    st.tuples(st.just('round'), idx, st.booleans()),
    st.tuples(st.just('convolve'), idx, idx),
    st.tuples(st.just('eval'), idx, st.sampled_from(['render', 'fast', 'loglike', 'fdiff', 's2n', 'norms', 'ap', 'galsim', 'wsum'])),
    st.tuples(st.just('eval'), idx, st.sampled_from(['render', 'fast', 'loglike', 'fdiff', 's2n', 'norms', 'ap', 'wsum'])),
    st.tuples(st.just('concat'), idx, idx),
    st.tuples(st.just('data'), idx, fl(0.5, 2.0)),
)


class Item(object):
    def __init__(self, gm, ref, case):
        self.gm = gm
        self.ref = np.array(ref)
        self.case = case      # model_case with which it can be refilled, or None
        self.evaluated = False


def other_pars(case, new, seed):
    """parameters for the same model as `case`"""
    if new['model'] == case['model'] and len(new['pars']) == len(case['pars']):
        return list(new['pars'])
    r = rng_of(seed)
    p = np.array(case['pars'])
    if case['model'] == 'full':
        q = p.reshape(-1, 6).copy()
        q[:, 0] *= r.uniform(0.5, 2, size=len(q))
        q[:, 1:3] += r.uniform(-1, 1, size=2)
        q[:, 3:] *= r.uniform(0.5, 2, size=(len(q), 1))
        return list(q.ravel())
    p[0:2] += r.uniform(-1, 1, size=2)
    p[2:4] = p[3], -p[2] * 0.7
    p[4] *= r.uniform(0.5, 2)
    p[-1] *= r.uniform(0.5, 2)
    return list(p)


def verify(it, why):
    gm, ref = it.gm, it.ref
    sc = np.abs(ref).max()
    full = gm.get_full_pars().reshape(-1, 6)
    check(full.shape == ref.shape, '%s: number of gaussians', why)
    close(full[:, 0], ref[:, 0], 1e-10, 1e-14, why + ': fluxes')
    close(full[:, 1:3], ref[:, 1:3], 1e-10, 1e-10, why + ': centers')
    close(full[:, 3:], ref[:, 3:], 1e-10, 1e-12 * sc, why + ': moments')
    d = gm.get_data()
    det = full[:, 3] * full[:, 5] - full[:, 4]**2
    close(d['det'], det, 1e-9, 0, why + ': determinants')


def evaluate(gm, how, ref, why):
    """evaluate and compare with the reference and with a fresh mixture"""
    fresh = GMix(pars=np.array(gm.get_full_pars()))
    v, u = gen.vu(SHAPE, dict(dvdrow=0.8, dvdcol=0.0, dudrow=0.0, dudcol=0.8), 1.7, 2.2)
    model = ref_eval(ref, v, u) * 0.64
    sc = np.abs(ref[:, 0]).sum() + 1e-10
    w, im = OBS.weight, OBS.image
    m = w > 0
    if how == 'render':
        a = gm.make_image(SHAPE, jacobian=OBS.jacobian)
        close(a, fresh.make_image(SHAPE, jacobian=OBS.jacobian), 1e-12, 1e-14 * sc, why + ' image vs fresh')
        close(a, model, 1e-8, 1e-10 * sc, why + ' image')
    elif how == 'fast':
        close(gm.make_image(SHAPE, jacobian=OBS.jacobian, fast_exp=True),
              fresh.make_image(SHAPE, jacobian=OBS.jacobian, fast_exp=True), 1e-12, 1e-14 * sc, why + ' fast image')
    elif how == 'loglike':
        a = gm.get_loglike(OBS)
        close(a, fresh.get_loglike(OBS), 1e-11, 1e-12, why + ' loglike vs fresh')
        close(a, -0.5 * (w * (model - im)**2)[m].sum(), 1e-3, 1e-3 * (1 + np.abs(model).max()), why + ' loglike')
    elif how == 'fdiff':
        a, b = np.zeros(25) + 7, np.zeros(25) + 7
        gm.fill_fdiff(OBS, a, start=3)
        fresh.fill_fdiff(OBS, b, start=3)
        close(a, b, 1e-11, 1e-12, why + ' fdiff vs fresh')
    elif how == 's2n':
        close(gm.get_model_s2n(OBS), fresh.get_model_s2n(OBS), 1e-11, 1e-14, why + ' s2n vs fresh')
        close(gm.get_model_s2n_sum(OBS), (w * model**2)[m].sum(), 3e-3, 1e-4 * sc**2, why + ' s2n')
    elif how == 'norms':
        gm.set_norms()
    elif how == 'ap':
        a = gm.get_gaussap_flux(sigma=1.3)
        close(a, fresh.get_gaussap_flux(sigma=1.3), 1e-11, 1e-13, why + ' aperture flux vs fresh')
        C = ref[:, 3:]
        det = C[:, 0] * C[:, 2] - C[:, 1]**2
        s2 = 1.3**2
        dets = (C[:, 0] + s2) * (C[:, 2] + s2) - C[:, 1]**2
        close(a, (ref[:, 0] * s2 / np.sqrt(dets)).sum(), 1e-8, 1e-10 * sc, why + ' aperture flux')
        assert det is not None
    elif how == 'galsim':
        o = gm.make_galsim_object()
        close(o.flux, ref[:, 0].sum(), 1e-9, 1e-11 * sc, why + ' galsim flux')
    elif how == 'wsum':
        if abs(ref[:, 0].sum()) > 1e-3 * sc and gm.get_T() > 0:
            a = gm.get_weighted_sums(OBS, maxrad=2.0)
            b = fresh.get_weighted_sums(OBS, maxrad=2.0)
            close(a['sums'], b['sums'], 1e-10, 1e-12 * sc, why + ' weighted sums vs fresh')


def concentric(ref):
    return np.ptp(ref[:, 1]) < 1e-9 and np.ptp(ref[:, 2]) < 1e-9


_first = model_case(models=['exp', 'bd', 'bdf', 'cm', 'coellip', 'full', 'coellip', 'full'], Tlo=0.5, posT=True)


@R.law(st.fixed_dictionaries(dict(first=_first, ops=st.lists(op, min_size=5, max_size=16))), quick=1500, thorough=40000,
       rule='at least three effective steps with an evaluation before a later edit')
def history(case, ctx):
    """edits, copies, shears, renderings in any order: every object equals one freshly built from its current components"""
    pool = [Item(build(case['first']), ref_of(case['first']), case['first'])]
    neff = 0
    lazy = False
    for step, o in enumerate(case['ops']):
        kind = o[0]
        why = 'step %d %s' % (step, kind)
        if kind == 'new':
            if len(pool) < 8:
                pool.append(Item(build(o[1]), ref_of(o[1]), o[1]))
            continue
        it = pool[o[1] % len(pool)]
        gm, ref = it.gm, it.ref
        S = ref[:, 0].sum()
        ok = abs(S) > 1e-3 * np.abs(ref[:, 0]).sum()
        neff += 1
        if kind == 'set_flux':
            if not ok:
                continue
            getattr(gm, o[3])(o[2])
            it.ref[:, 0] *= o[2] / S
            close(gm.get_flux(), o[2], 1e-10, 0, why)
            lazy = lazy or it.evaluated
        elif kind == 'set_cen':
            if not ok:
                continue
            mo = ref_moments(ref)
            gm.set_cen(o[2], o[3])
            it.ref[:, 1] += o[2] - mo[1]
            it.ref[:, 2] += o[3] - mo[2]
            close(gm.get_cen(), o[2:4], 1e-8, 1e-8, why)
            lazy = lazy or it.evaluated
        elif kind == 'fill':
            if it.case is None:
                continue
            p = other_pars(it.case, o[2], o[3])
            c2 = dict(it.case, pars=p)
            arr = np.array(p)
            gm.fill(arr)
            close(arr, p, 0, 0, why + ' parameters changed')
            it.ref = np.array(ref_of(c2))
            lazy = lazy or it.evaluated
        elif kind == 'badfill':
            if it.case is None:
                continue
            p = list(it.case['pars'])
            if o[2] == 'shape':
                if it.case['model'] == 'full':
                    continue
                p[2], p[3] = 0.8, -0.7
                p[0] += 1
                raises(GMixRangeError, gm.fill, p, _msg=why)
            else:
                p = p[:-1] if o[2] == 'short' else p + [1.0]
                raises(ValueError, gm.fill, p, _msg=why)
        elif kind == 'reset':
            if it.case is None:
                continue
            gm.reset()
            check(not gm.get_full_pars().any(), why + ' zeroed')
            raises(GMixRangeError, gm.make_image, (2, 2), _msg=why + ' evaluation of an unset mixture')
            raises(GMixRangeError, gm.get_loglike, OBS, _msg=why + ' evaluation of an unset mixture')
            p = other_pars(it.case, it.case, o[2])
            gm.fill(p)
            it.ref = np.array(ref_of(dict(it.case, pars=p)))
            lazy = lazy or it.evaluated
        elif kind == 'copy':
            if o[2] == 'copy':
                new = gm.copy()
            elif o[2] == 'copy.copy':
                new = copy.copy(gm)
            elif o[2] == 'deepcopy':
                new = copy.deepcopy(gm)
            else:
                new = copy.deepcopy({'a': [gm]})['a'][0]
            check(new is not gm and type(new) is type(gm), why + ' type of the copy')
            check(new == gm and gm == new, why + ' copy equals its source')
            check(not np.shares_memory(new.get_data(), gm.get_data()), why + ' shares memory')
            ni = Item(new, ref, it.case)
            ni.evaluated = it.evaluated
            if len(pool) < 8:
                pool.append(ni)
            else:
                verify(ni, why)
        elif kind in ('shear', 'round'):
            if not concentric(ref) or not ok:
                continue
            if kind == 'shear':
                g1, g2 = o[2]
                new = gm.get_sheared(Shape(g1, g2)) if o[3] else gm.get_sheared(g1, g2)
                A = np.array([[1 + g1, g2], [g2, 1 - g1]]) / math.sqrt(1 - g1 * g1 - g2 * g2)
                nr = ref.copy()
                for i in range(len(nr)):
                    # u is x: covariance in (u, v) order
                    C = np.array([[nr[i, 5], nr[i, 4]], [nr[i, 4], nr[i, 3]]])
                    C = A.dot(C).dot(A.T)
                    nr[i, 3:] = C[1, 1], C[0, 1], C[0, 0]
            else:
                mo = ref_moments(ref)
                T = mo[3] + mo[5]
                e = math.hypot((mo[5] - mo[3]) / T, 2 * mo[4] / T)
                if T <= 0 or e > 0.99 or np.any(ref[:, 0] / S < 0):
                    continue
                new = gm.make_round(preserve_size=o[2])
                if o[2]:
                    f = 1 + e
                else:
                    # e = 2g/(1+g^2): (1-g^2)/(1+g^2) = sqrt(1-e^2)
                    f = math.sqrt(1 - e * e)
                nr = ref.copy()
                Ti = f * (ref[:, 3] + ref[:, 5])
                nr[:, 3], nr[:, 4], nr[:, 5] = Ti / 2, 0.0, Ti / 2
            check(new is not gm and not np.shares_memory(new.get_data(), gm.get_data()), why + ' shares memory')
            ni = Item(new, nr, None)
            ni.evaluated = it.evaluated
            verify(ni, why + ' result')
            evaluate(new, 'render', nr, why)
            evaluate(new, 'ap', nr, why)
            if len(pool) < 8:
                pool.append(ni)
        elif kind == 'convolve':
            jt = pool[o[2] % len(pool)]
            s2 = jt.ref[:, 0].sum()
            if abs(s2) < 1e-3 * np.abs(jt.ref[:, 0]).sum() or len(ref) * len(jt.ref) > 64:
                continue
            new = gm.convolve(jt.gm)
            nr = np.array(ref_convolve(ref, jt.ref)).reshape(-1, 6)
            ni = Item(new, nr, None)
            verify(ni, why + ' result')
            if len(pool) < 8:
                pool.append(ni)
        elif kind == 'concat':
            jt = pool[o[2] % len(pool)]
            if len(ref) + len(jt.ref) > 64:
                continue
            new = ngmix.gmix.gmix_concat([gm, jt.gm])
            ni = Item(new, np.concatenate([ref, jt.ref]), None)
            verify(ni, why + ' result')
            if len(pool) < 8:
                pool.append(ni)
        elif kind == 'eval':
            evaluate(gm, o[2], ref, why)
            it.evaluated = True
        elif kind == 'data':
            # full parameters are handed out as a copy
            fp = gm.get_full_pars()
            fp *= o[2]
            fp += 1
        for k, x in enumerate(pool):
            verify(x, '%s: mixture %d' % (why, k))
    for k, x in enumerate(pool):
        S = x.ref[:, 0].sum()
        if np.abs(x.ref[:, 0]).max() > 0:
            evaluate(x.gm, 'render', x.ref, 'end: mixture %d' % k)
            evaluate(x.gm, 'ap', x.ref, 'end: mixture %d' % k)
            evaluate(x.gm, 'fdiff', x.ref, 'end: mixture %d' % k)
            x.gm.set_flux(2 * S) if abs(S) > 1e-3 * np.abs(x.ref[:, 0]).sum() else None
    ctx.nontrivial(neff >= 3 and lazy)


@R.law(st.fixed_dictionaries(dict(a=_new, b=_new, how=st.sampled_from(['same', 'other', 'element', 'prefix', 'evaluated', 'order']), k=seeds,
                                  eps=st.sampled_from([1e-9, 1e-3, 1.0]))),
       quick=1500, rule='mixtures of several gaussians')
def equality(case, ctx):
    """equal exactly when the components are equal"""
    a = build(case['a'])
    full = a.get_full_pars()
    n = len(a)
    ctx.nontrivial(n > 1)
    how = case['how']
    k = case['k'] % (6 * n)
    if how == 'same':
        b = GMix(pars=full)
        check(a == b and b == a and not (a != b), 'same gaussians')
    elif how == 'evaluated':
        b = a.copy()
        b.make_image((3, 3))
        check(a == b and b == a, 'lazy values matter')
    elif how == 'element':
        p = full.copy()
        p[k] += case['eps'] * (abs(p[k]) + 0.1)
        b = GMix(pars=p)
        check(not (a == b) and not (b == a) and a != b, 'different element %d', k % 6)
    elif how == 'prefix':
        b = GMix(pars=np.concatenate([full, full[:6]]))
        check(not (a == b) and not (b == a), 'different number of gaussians')
        b = GMix(pars=full[:6])
        check((a == b) == (n == 1) and (b == a) == (n == 1), 'first gaussian only')
        b = GMix(pars=np.concatenate([full[:6]] * n))
        check((a == b) == bool(np.array_equal(full, np.tile(full[:6], n))), 'repeated')
    elif how == 'order':
        if n > 1:
            q = full.reshape(-1, 6)[::-1].ravel()
            b = GMix(pars=q)
            check((a == b) == bool(np.array_equal(q, full)), 'order')
    else:
        b = build(case['b'])
        f2 = b.get_full_pars()
        check((a == b) == bool(f2.shape == full.shape and np.all(f2 == full)), 'other')
    raises(ValueError, a.__eq__, 3)
    raises(ValueError, a.__eq__, None)


@R.law(st.fixed_dictionaries(dict(p=full_pars(2, 4), k=ints(0, 3), how=st.sampled_from(['neg', 'zero', 'det']), reps=ints(2, 3))), quick=400,
       rule='a later gaussian is unusable')
def unusable(case, ctx):
    """a gaussian that cannot be evaluated is reported at every evaluation, never returned as numbers"""
    p = np.array(case['p']).reshape(-1, 6)
    k = case['k'] % len(p)
    ctx.nontrivial(k > 0)
    if case['how'] == 'neg':
        p[k, 3] *= -1
    elif case['how'] == 'zero':
        p[k, 3:] = 0
    else:
        p[k, 4] = 1.5 * math.sqrt(p[k, 3] * p[k, 5])
    gm = GMix(pars=p.ravel())
    for i in range(case['reps']):
        for x in (gm, gm.copy()):
            raises(GMixRangeError, x.make_image, (3, 3), _msg='render, attempt %d' % i)
            raises(GMixRangeError, x.get_loglike, OBS, _msg='loglike, attempt %d' % i)
            raises(GMixRangeError, x.fill_fdiff, OBS, np.zeros(30), _msg='fdiff, attempt %d' % i)
            raises(GMixRangeError, x.get_model_s2n_sum, OBS, _msg='s2n, attempt %d' % i)
            raises(GMixRangeError, x.set_norms, _msg='norms, attempt %d' % i)
