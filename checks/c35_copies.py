"""C35: copies act like the original and do not share its fate"""
import copy
import pickle
import numpy as np
import ngmix
from ngmix.gmix import GMix
from vh import Registry, st, check, Violation
from gen import ints, logfl, pick, seeds, rng_of
import ops

ORACLE = 'the original objects doing the same work from the same state, with and without a copy at work before them'
R = Registry()
warmup = ops.warm


def dup(x, how):
    if how == 'deepcopy':
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=how))


def norm(op):
    name, c = op
    if name == 'priors':
        # a scipy kernel density estimate cannot be pickled
        c = dict(c, k=c['k'] & ~1)
    return name, c


def make(name, c, case, stage):
    o = ops.OPS[name]
    a = o.arrays(rng_of(case['seed']), c)
    objs = o.build(a, c, rng_of(case['rs']))
    if stage:
        o.act(objs)
    return o, objs


def case_of(only=None):
    return st.fixed_dictionaries(dict(op=ops.config(st, ints, pick, logfl, only), seed=seeds, rs=seeds, how=st.sampled_from(['deepcopy', 2, 3, 4, 5]), stage=ints(0, 1)))



def wreck(x):
    """change everything a set of objects holds"""
    if isinstance(x, dict):
        for v in x.values():
            wreck(v)
    elif isinstance(x, (ngmix.ObsList, ngmix.MultiBandObsList)):
        x.meta['wrecked'] = 1
        for v in x:
            wreck(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            wreck(v)
    elif isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.flags.writeable:
        x[...] = 3.5
    elif isinstance(x, GMix):
        x.set_flux(17.0)
        x.set_cen(0.3, 0.4)
        x.get_data()['irr'] *= 2
    elif isinstance(x, ngmix.Jacobian):
        x.set_cen(row=1.0, col=1.0)
    elif isinstance(x, ngmix.Observation):
        with x.writeable():
            x.image[...] = 2.5
            x.weight[...] = 3.5
            if x.has_noise():
                x.noise[...] = 1.0
            if x.has_bmask():
                x.bmask[...] = 5
            wreck(x.jacobian)
        x.meta['wrecked'] = 1
        if x.has_gmix():
            x.gmix = GMix(pars=[1.0, 0.3, 0.3, 1.0, 0.0, 1.0])
        if x.has_psf():
            wreck(x.psf)
    elif isinstance(x, np.random.RandomState):
        x.seed(5)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('ngmix.guessers'):
        wreck(vars(x))


@R.law(case_of(), quick=900, rule='objects copied and put to work')
def copies(case, ctx):
    """a copied or pickled set of objects does what the original does, and neither notices the other"""
    name, c = norm(case['op'])
    ctx.label(name)
    ctx.label(str(case['how']))
    ctx.nontrivial()
    o, objs = make(name, c, case, case['stage'])
    ref = ops.flat(o.act(objs))
    tol = 1e-7 if o.iterative else 1e-10
    o, objs = make(name, c, case, case['stage'])
    try:
        cp = dup(objs, case['how'])
    except Exception as e:
        raise Violation('%s: %s of the objects: %s: %s' % (name, case['how'], type(e).__name__, e))
    try:
        got = ops.flat(o.act(cp))
    except Exception as e:
        raise Violation('%s with copied objects: %s: %s' % (name, type(e).__name__, e))
    d = ops.differ(ref, got, tol)
    check(d is None, '%s with objects copied by %s: %s', name, case['how'], d)
    if case['stage']:
        wreck(cp)
    d = ops.differ(ref, ops.flat(o.act(objs)), tol)
    check(d is None, '%s after a copy by %s was used: %s', name, case['how'], d)


@R.law(case_of(ops.RESULTS), quick=500, rule='a result copied and asked')
def results(case, ctx):
    """a copied or pickled result holds and answers what the original does, and lives on by itself"""
    name, c = norm(case['op'])
    o, objs = make(name, c, case, 1)
    for res in objs.get('_res', []):
        ctx.label(name)
        ctx.nontrivial()
        ref = ops.use(res)
        try:
            cp = dup(res, case['how'])
        except Exception as e:
            raise Violation('%s: %s of the result: %s: %s' % (name, case['how'], type(e).__name__, e))
        check(type(cp) is type(res), '%s: the copied result is a %s', name, type(cp))
        d = ops.differ(ref, ops.use(cp), 1e-10)
        check(d is None, '%s, result copied by %s: %s', name, case['how'], d)
        # damage to one does not reach the other
        for x in (cp, res)[case['stage']:][:1]:
            for v in x.values():
                if isinstance(v, np.ndarray) and v.dtype.names is None and v.dtype.kind == 'f' and v.flags.writeable:
                    v *= 0
        d = ops.differ(ref, ops.use((res, cp)[case['stage']]), 1e-10)
        check(d is None, '%s, result copied by %s, after the other was overwritten: %s', name, case['how'], d)


@R.law(case_of(ops.RESULTS), quick=300, rule='a result asked')
def repeat(case, ctx):
    """asking a result twice gives one answer; what it hands out is the caller's to change"""
    name, c = norm(case['op'])
    o, objs = make(name, c, case, 1)
    for res in objs.get('_res', []):
        ctx.label(name)
        ctx.nontrivial()
        ref = ops.use(res)
        for x in ops.given(res):
            if isinstance(x, np.ndarray):
                x *= 3
            else:
                x.set_flux(17.0)
                x.set_cen(0.3, 0.4)
        if isinstance(getattr(res, 'bounds', None), list):
            b = str(res.bounds)
            res.bounds[0] = (9.0, 10.0)
            res.bounds.pop()
            check(str(res.bounds) == b, '%s: the bounds became %s', name, res.bounds)
        d = ops.differ(ref, ops.use(res), 1e-10)
        check(d is None, '%s: the result changed through what it handed out: %s', name, d)
