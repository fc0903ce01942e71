"""C34: results depend on the arguments and the given random state only"""
import random
import numpy as np
import ngmix
import ngmix.gmix_ndim
from vh import Registry, st, check, raises, Violation
from gen import ints, logfl, pick, seeds, rng_of
import ops

ORACLE = ('the same pieces of work done in another order, amid other work, with tools and random generators that were used before, and '
          'with other states of the global random generators')
R = Registry()
warmup = ops.warm


def key(name, c):
    return name, tuple(sorted(c.items()))


def run(name, c, seed, rng, tools, how):
    """one piece of work; with `how` the tools of earlier work on other data are used again"""
    o = ops.OPS[name]
    a = o.arrays(rng_of(seed), c)
    objs = o.build(a, c, rng)
    if how:
        for t in ('tool', 'gt'):
            if t in objs:
                objs[t] = tools.setdefault((t, key(name, c)), objs[t])
    return ops.flat(o.act(objs))


class Glob(object):
    """the state a program shares with everybody else"""

    def __init__(self, seed):
        np.random.seed(seed)
        random.seed(seed)
        self.before = self.state()

    @staticmethod
    def state():
        return repr(np.random.get_state()), repr(random.getstate()), repr(np.geterr()), repr(np.get_printoptions())

    def same(self, name):
        for what, x, y in zip(['the global numpy generator', 'the global generator of random', 'the floating point error settings', 'the print options'], self.before, self.state()):
            check(x == y, '%s changed %s', name, what)


ITEM = st.fixed_dictionaries(dict(op=ops.config(st, ints, pick, logfl), seed=seeds, rs=seeds))


@R.law(st.fixed_dictionaries(dict(items=st.lists(ITEM, min_size=2, max_size=4), perm=seeds, glob=seeds, reuse=st.booleans(), twice=st.booleans())),
       quick=700, rule='work in another order or with used tools')
def order(case, ctx):
    """results do not depend on what was done before, on used tools, or on global random state, and leave the latter alone"""
    items = case['items']
    ref = []
    g = Glob(case['glob'] % 1000)
    for it in items:
        ref.append(run(it['op'][0], it['op'][1], it['seed'], rng_of(it['rs']), {}, False))
        g.same(it['op'][0])
    perm = np.random.RandomState(case['perm']).permutation(len(items))
    tools, shared = {}, np.random.RandomState(1)
    g = Glob(case['glob'] % 1000 + 1)
    for i in perm:
        it = items[i]
        name, c = it['op']
        ctx.label(name)
        ctx.nontrivial()
        if case['twice']:
            # the tools have seen other data before
            shared.seed(it['rs'] % 4294967 + 1)
            run(name, c, it['seed'] + 1, shared, tools, case['reuse'])
        shared.seed(it['rs'])
        got = run(name, c, it['seed'], shared, tools, case['reuse'])
        g.same(name)
        d = ops.differ(ref[i], got, 1e-6 if ops.OPS[name].iterative else 1e-10)
        if d is not None:
            raise Violation('%s after %s%s: %s' % (name, [items[k]['op'][0] for k in perm], ' with used tools' if case['reuse'] else '', d))


def _admom(case, a):
    s = case['c']['scale']
    obs = ops._obs(a)
    if case['k'] & 1:
        return ngmix.admom.run_admom(obs, 5.0 * s * s)
    return ngmix.admom.AdmomFitter().go(obs, 5.0 * s * s)


def _nd(case, a):
    return ngmix.gmix_ndim.GMixND(np.array([1.0, 2.0]), np.array([[0.0, 1.0], [2.0, 3.0]]), np.array([np.eye(2)] * 2)).sample(4)


def _mcal(case, a):
    return ngmix.metacal.get_all_metacal(ops._obs(a), psf=['gauss', 'dilate'][case['k'] % 2], use_noise_image=True, fixnoise=bool(case['k'] & 2), types=['noshear', '2m'])


def _noise_free(case, a):
    return ngmix.simobs.simulate_obs(ngmix.gmix.GMixModel([0, 0, 0.1, 0, 3.0, 5.0], 'exp'), ops._obs(a), add_noise=False)


FREE = [_admom, _nd, _mcal, _noise_free]
P = ngmix.priors
MAKERS = [lambda: P.FlatPrior(0.0, 1.0, None), lambda: P.Normal(0.0, 1.0, None), lambda: P.LogNormal(1.0, 0.5, None), lambda: P.TwoSidedErf(0.0, 0.1, 1.0, 0.1, None), lambda: P.TruncatedGaussian(0.0, 1.0, -1.0, 2.0, None),
          lambda: P.Sinh(0.0, 1.0, None), lambda: P.LMBounds(0.0, 1.0, None), lambda: P.GPriorBA(0.3, None), lambda: P.ZDisk2D(1.0, None), lambda: P.CenPrior(0.0, 0.0, 1.0, 2.0, None)]


@R.law(st.fixed_dictionaries(dict(k=ints(0, 7), seed=seeds, glob=seeds, what=ints(0, len(FREE) + len(MAKERS) - 1), c=st.fixed_dictionaries(dict(n=ints(0, 3), k=ints(0, 3), integral=st.just(0), scale=logfl(0.1, 1.0))))), quick=300, rule='no generator given')
def unseeded(case, ctx):
    """without a generator: what works leaves the global ones alone, and priors are refused"""
    w = case['what']
    ctx.nontrivial()
    if w < len(FREE):
        ctx.label(FREE[w].__name__)
        a = ops._stamp(rng_of(case['seed']), case['c'])
        g = Glob(case['glob'] % 1000)
        FREE[w](case, a)
        g.same(FREE[w].__name__)
        return
    g = Glob(case['glob'] % 1000)
    ctx.label('prior')
    raises(AssertionError, MAKERS[w - len(FREE)], _msg='a prior without a generator')
    g.same('prior')
