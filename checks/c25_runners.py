"""C25: runners and bootstrapping"""
import copy
import numpy as np
import ngmix
from vh import Registry, st, check, close, raises, same
from gen import fl, logfl, ints, seeds, rng_of, pick, disk
from ngmix import GMix, Observation, ObsList, MultiBandObsList
from ngmix.runners import Runner, PSFRunner, run_fitter, run_psf_fitter
from ngmix.bootstrap import Bootstrapper, bootstrap, remove_failed_psf_obs
from ngmix.metacal.bootstrap import MetacalBootstrapper, metacal_bootstrap
from ngmix.metacal import get_all_metacal
from ngmix.gexceptions import BootPSFFailure, GMixRangeError

ORACLE = ('a model of the retry loop and of the dropped epochs that predicts every call, its arguments, its outcome and the state of every observation '
          'from the scripted successes and failures; manual sequences of real fitters')
R = Registry()


class Res(dict):
    pass


class GRes(dict):
    """a result with a mixture, as the fitters return"""

    def get_gmix(self):
        return GMix(pars=[float(self['tag'] + 1), 0.0, 0.0, 1.0, 0.1, 1.2])


class Bad(Exception):
    pass


class Fake(object):
    """
    a fitter that follows a script: for each observation (known by its first pixel) the flags of the attempts.
    None means an error is raised
    """

    def __init__(self, script, kind, guesses):
        self.script, self.kind, self.guesses = script, kind, guesses
        self.log = []
        self.n = {}

    def go(self, obs, guess=Ellipsis):
        k = ident(obs)
        i = self.n.get(k, 0)
        self.n[k] = i + 1
        fl_ = self.script[k][i % len(self.script[k])]
        if guess is not Ellipsis:
            guess = guess.copy()
        self.log.append((k, i, None if guess is Ellipsis else tuple(guess)))
        if fl_ is None:
            raise Bad('attempt %d of %s' % (i, k))
        cls = {'gmix': GRes, 'plain': Res, 'dict': dict}[self.kind]
        return cls(flags=fl_, tag=len(self.log), key=k, attempt=i)


class Guesser(object):
    def __init__(self):
        self.log = []

    def __call__(self, obs):
        self.log.append(ident(obs))
        return np.array([float(len(self.log)), 2.0])


def ident(obs):
    if isinstance(obs, MultiBandObsList):
        return tuple(ident(o) for o in obs)
    if isinstance(obs, ObsList):
        return tuple(ident(o) for o in obs)
    return int(obs.image[0, 0])


outcome = st.sampled_from([0, 0, 1, 2, 1024, 2**30, 3, -1])
outcomes = st.lists(outcome, min_size=1, max_size=6)


@R.law(st.fixed_dictionaries(dict(script=st.lists(pick((8, outcome), (1, st.none())), min_size=1, max_size=7), ntry=ints(1, 7), guesser=st.booleans(), kind=st.sampled_from(['gmix', 'plain', 'dict']), route=ints(0, 1), shape=ints(0, 2))),
       quick=3000, rule='a failure before the last allowed attempt')
def retry(case, ctx):
    """attempts end at the first success or at the limit; each has a fresh guess from the same observation; the last result comes back"""
    o = Observation(np.full((3, 3), 7.0))
    if case['shape'] >= 1:
        ol = ObsList()
        ol.append(o)
        o = ol
    if case['shape'] == 2:
        mb = MultiBandObsList()
        mb.append(o)
        o = mb
    key = ident(o)
    script, ntry = case['script'], case['ntry']
    full = [script[i % len(script)] for i in range(ntry)]
    n = next((i + 1 for i, f in enumerate(full) if f == 0 or f is None), ntry)
    ctx.nontrivial(full[0] != 0 and ntry > 1)
    fitter, guesser = Fake({key: script}, case['kind'], None), Guesser() if case['guesser'] else None
    kw = dict(fitter=fitter, ntry=ntry)
    if guesser is not None:
        kw['guesser'] = guesser
    call = (lambda: run_fitter(obs=o, **kw)) if case['route'] else (lambda: Runner(**kw).go(obs=o))
    if full[n - 1] is None:
        raises(Bad, call, _msg='error of the fitter')
    else:
        res = call()
        check(res['flags'] == full[n - 1] and res['attempt'] == n - 1, 'returned attempt %s of %d: %s', res['attempt'], n, full)
    check(len(fitter.log) == n, '%d attempts for %s', len(fitter.log), full)
    check(all(k == key for k, _, _ in fitter.log), 'other observation')
    if guesser is not None:
        check(guesser.log == [key] * n, 'calls of the guesser: %s', guesser.log)
        check([g for _, _, g in fitter.log] == [(float(i + 1), 2.0) for i in range(n)], 'guesses %s', fitter.log)
    else:
        check(all(g is None for _, _, g in fitter.log), 'guess without guesser')
    # a runner keeps no state between calls
    if full[n - 1] is not None:
        fitter.n.clear()
        m = len(fitter.log)
        res2 = call()
        check(len(fitter.log) == m + n and res2['attempt'] == n - 1, 'second call')


# ------------------------------------------------------------------ psfs

_one = st.fixed_dictionaries(dict(psf=pick((5, st.just(True)), (1, st.just(False))), out=outcomes, old=st.booleans()))


def build(bands, shape, stale=False):
    """(observations, list of (observation, psf or itself, spec) in order)"""
    flat = []
    mb = MultiBandObsList(meta={'id': 'mb'})
    i = 0
    for b, eps in enumerate(bands):
        ol = ObsList(meta={'id': 'band%d' % b})
        for e in eps:
            gm = GMix(pars=[0.5, 0, 0, 1, 0, 1]) if e['old'] else None
            psf = Observation(np.full((3, 3), 100.0 + i), gmix=gm, meta=dict({'n': i}, **({'result': {'flags': 77}} if stale and e['old'] else {}))) if e['psf'] else None
            o = Observation(np.full((4, 5), 1000.0 + i), psf=psf, gmix=None if e['psf'] else gm, meta={'i': i})
            ol.append(o)
            flat.append((o, o.psf if e['psf'] else o, e, b))
            i += 1
        mb.append(ol)
    if shape == 'single':
        return flat[0][0], flat[:1]
    if shape == 'list':
        return mb[0], [f for f in flat if f[3] == 0]
    return mb, flat


_struct = st.lists(st.lists(_one, min_size=1, max_size=4), min_size=1, max_size=3)


@R.law(st.fixed_dictionaries(dict(bands=_struct, shape=st.sampled_from(['single', 'list', 'multi', 'multi']), ntry=ints(1, 5), guesser=st.booleans(), kind=st.sampled_from(['gmix', 'gmix', 'plain', 'dict']), set_result=st.booleans(), stale=st.booleans(), route=ints(0, 1))), quick=2500, rule='several epochs')
def psf(case, ctx):
    """every epoch of every band is fit once, in order; results and mixtures are stored on that psf and nowhere else"""
    obs, flat = build(case['bands'], case['shape'], case.get('stale'))
    ctx.nontrivial(len(flat) > 1)
    script = {ident(t): e['out'] for _, t, e, _ in flat}
    old = [t.gmix.get_full_pars() if t.has_gmix() else None for _, t, _, _ in flat]
    fitter, guesser = Fake(script, case['kind'], None), Guesser() if case['guesser'] else None
    kw = dict(fitter=fitter, ntry=case['ntry'], set_result=case['set_result'])
    if guesser is not None:
        kw['guesser'] = guesser
    ims = [(o.image.copy(), o.weight.copy()) for o, _, _, _ in flat]
    res = run_psf_fitter(obs=obs, **kw) if case['route'] else PSFRunner(**kw).go(obs=obs)
    # expected
    calls, final = [], []
    for o, t, e, b in flat:
        full = [e['out'][i % len(e['out'])] for i in range(case['ntry'])]
        n = next((i + 1 for i, f in enumerate(full) if f == 0), case['ntry'])
        calls += [(ident(t), i) for i in range(n)]
        final.append((ident(t), n - 1, full[n - 1]))
    check([c[:2] for c in fitter.log] == calls, 'calls %s, expected %s', [c[:2] for c in fitter.log], calls)
    if guesser is not None:
        check(guesser.log == [c[0] for c in calls], 'guesser calls')
    got = [res] if case['shape'] == 'single' else list(res) if case['shape'] == 'list' else [r for rl in res for r in rl]
    if case['shape'] == 'multi':
        check([len(rl) for rl in res] == [len(ol) for ol in obs], 'nesting')
    check([(r['key'], r['attempt'], r['flags']) for r in got] == final, 'results %s, expected %s', got, final)
    for (o, t, e, b), r, g0, (im, w) in zip(flat, got, old, ims):
        same(o.image, im, 'image changed')
        same(o.weight, w, 'weight changed')
        if case['set_result']:
            check(dict(t.meta['result']) == dict(r), 'stored result')
        else:
            check(t.meta.get('result', {'flags': 77}) == {'flags': 77}, 'result stored without being asked')
        if t is not o:
            check('result' not in o.meta and not o.has_gmix(), 'stored on the wrong observation')
            check(t.meta['n'] == o.meta['i'], 'meta')
        if case['set_result'] and r['flags'] == 0 and case['kind'] == 'gmix':
            same(t.gmix.get_full_pars(), r.get_gmix().get_full_pars(), 'stored mixture')
        elif g0 is None:
            check(not t.has_gmix(), 'mixture after a failure, or without being asked')
        else:
            same(t.gmix.get_full_pars(), g0, 'mixture replaced after a failure, or without being asked')
    raises(ValueError, run_psf_fitter, obs=[o for o, _, _, _ in flat], fitter=fitter, _msg='list of observations')
    raises(ValueError, run_psf_fitter, obs=None, fitter=fitter, _msg='nothing')


# ------------------------------------------------------------------ bootstrapping

class Recorder(object):
    """a runner for the objects"""

    def __init__(self, out):
        self.out, self.seen, self.fitter = out, [], 'the fitter'

    def go(self, obs):
        self.seen.append((type(obs).__name__, ident(obs), obs))
        return Res(flags=self.out, nth=len(self.seen))


@R.law(st.fixed_dictionaries(dict(bands=st.lists(st.lists(st.fixed_dictionaries(dict(psf=st.just(True), out=outcomes, old=st.booleans())), min_size=1, max_size=4), min_size=1, max_size=3), shape=st.sampled_from(['single', 'list', 'multi', 'multi']), ntry=ints(1, 4), kind=st.sampled_from(['gmix', 'plain']), ignore=st.sampled_from([True, True, False, None]), runner=st.booleans(), route=ints(0, 1), out=outcome)),
       quick=3000, rule='a psf fit fails')
def boot(case, ctx):
    """epochs whose psf fit failed are dropped, no others; an empty band is the documented error; the structure that was handed in stays as it is"""
    obs, flat = build(case['bands'], case['shape'])
    fitter = Fake({ident(t): e['out'] for _, t, e, _ in flat}, case['kind'], None)
    good = []
    for o, t, e, b in flat:
        full = [e['out'][i % len(e['out'])] for i in range(case['ntry'])]
        good.append(0 in full)
    ctx.nontrivial(case['runner'] and not all(good))
    rec = Recorder(case['out'])
    kw = dict(runner=rec)
    if case['runner']:
        kw['psf_runner'] = PSFRunner(fitter=fitter, ntry=case['ntry'])
    if case['ignore'] is not None:
        kw['ignore_failed_psf'] = case['ignore']
    before = ident(obs)
    bm = copy.deepcopy([getattr(x, 'meta', None) for x in ([obs] + (list(obs) if case['shape'] == 'multi' else []))]) if case['shape'] != 'single' else None
    b = Bootstrapper(**kw)
    check(b.fitter == 'the fitter', 'fitter')
    call = (lambda: bootstrap(obs=obs, **kw)) if case['route'] else (lambda: b.go(obs=obs))
    drop = case['runner'] and case['ignore'] is not False
    bands = sorted(set(x[3] for x in flat))
    kept = [[ident(x[0]) for x, g in zip(flat, good) if x[3] == k and (g or not drop)] for k in bands]
    empty = any(len(k) == 0 for k in kept)
    if empty:
        raises(BootPSFFailure, call, _msg='no psf left')
        check(rec.seen == [], 'fit without psfs')
        ctx.label('empty')
    else:
        res = call()
        check(res['flags'] == case['out'] and res['nth'] == 1, 'result')
        check(len(rec.seen) == 1, 'fits')
        name, ids, seen = rec.seen[0]
        expect = {'single': lambda: kept[0][0], 'list': lambda: tuple(kept[0]), 'multi': lambda: tuple(tuple(k) for k in kept)}[case['shape']]()
        check(ids == expect, 'fit %s, expected %s', ids, expect)
        check(name == {'single': 'Observation', 'list': 'ObsList', 'multi': 'MultiBandObsList'}[case['shape']], 'type')
        if case['shape'] != 'single':
            check(seen.meta == obs.meta, 'meta of the container')
        if case['shape'] == 'multi':
            check([x.meta for x in seen] == [x.meta for x in obs], 'meta of the bands')
    check(ident(obs) == before, 'the observations handed in were changed')
    if bm is not None:
        check([getattr(x, 'meta', None) for x in ([obs] + (list(obs) if case['shape'] == 'multi' else []))] == bm, 'meta changed')
    for (o, t, e, _), g in zip(flat, good):
        if case['runner']:
            check((t.meta['result']['flags'] == 0) == g, 'stored result')
        else:
            check('result' not in t.meta, 'result without a psf runner')
    check(len(fitter.log) == (sum(next((i + 1 for i in range(case['ntry']) if e['out'][i % len(e['out'])] == 0), case['ntry']) for _, _, e, _ in flat) if case['runner'] else 0), 'psf fits')
    # the function that drops
    if case['runner']:
        k2 = [[ident(x[0]) for x, g in zip(flat, good) if x[3] == k and g] for k in bands]
        if any(len(k) == 0 for k in k2):
            raises(BootPSFFailure, remove_failed_psf_obs, obs, _msg='no psf left')
        else:
            new = remove_failed_psf_obs(obs)
            check(ident(new) == {'single': lambda: k2[0][0], 'list': lambda: tuple(k2[0]), 'multi': lambda: tuple(tuple(k) for k in k2)}[case['shape']](), 'kept')
            if case['shape'] != 'single':
                new.append(new[0])
                if case['shape'] == 'multi':
                    new[0].append(new[0][0])
                    new[0].meta['new'] = 1
        check(ident(obs) == before, 'the observations handed in share their lists with the kept ones')
        raises(ValueError, remove_failed_psf_obs, [1, 2], _msg='list')


# ------------------------------------------------------------------ metacal

def sim(seed, n=1, noise=0.01, size=23):
    r = rng_of(seed)
    ol = ObsList()
    for i in range(n):
        j = ngmix.DiagonalJacobian(row=(size - 1) / 2, col=(size - 1) / 2, scale=0.3)
        psf = ngmix.GMixModel([0, 0, r.uniform(-0.05, 0.05), r.uniform(-0.05, 0.05), r.uniform(0.3, 0.5), 1.0], 'gauss')
        gal = ngmix.GMixModel([r.uniform(-0.1, 0.1), r.uniform(-0.1, 0.1), r.uniform(-0.2, 0.2), r.uniform(-0.2, 0.2), r.uniform(0.4, 0.8), 10.0], 'gauss')
        im = gal.convolve(psf).make_image((size, size), jacobian=j)
        pim = psf.make_image((size, size), jacobian=j)
        ol.append(Observation(im + noise * r.normal(size=im.shape), weight=np.full(im.shape, 1 / noise**2), jacobian=j, psf=Observation(pim + 1e-5 * r.normal(size=im.shape), weight=np.full(im.shape, 1e10), jacobian=j), meta={'i': i}))
    return ol


class Keep(object):
    def __init__(self, flags):
        self.seen, self.flags, self.fitter = [], flags, 'f'

    def go(self, obs):
        self.seen.append(obs)
        return Res(flags=self.flags[(len(self.seen) - 1) % len(self.flags)], nth=len(self.seen) - 1)


def images(o):
    if isinstance(o, (ObsList, MultiBandObsList)):
        return [x for y in o for x in images(y)]
    return [o.image, o.weight, o.psf.image]


@R.law(st.fixed_dictionaries(dict(seed=seeds, n=ints(1, 2), types=st.lists(st.sampled_from(['noshear', '1p', '1m', '2p', '2m']), min_size=1, max_size=5, unique=True), psf=st.sampled_from(['gauss', 'fitgauss', 'dilate']), fix=st.booleans(), step=st.sampled_from([0.01, 0.02]), flags=outcomes, bad=st.lists(outcomes, min_size=1, max_size=3), runner=st.booleans(), ignore=st.booleans(), route=ints(0, 1), single=st.booleans())), quick=80, rule='several types')
def metacal(case, ctx):
    """every metacal image is fit once and its result is stored under its type; images are those of get_all_metacal with the same settings"""
    obs = sim(case['seed'], case['n'])
    if case['n'] == 1 and case['single']:
        obs = obs[0]
    kw = dict(types=list(case['types']), psf=case['psf'], fixnoise=case['fix'], step=case['step'])
    ctx.nontrivial(len(kw['types']) > 1)
    before = [x.copy() for x in images(obs)]
    ref = get_all_metacal(obs, rng=np.random.RandomState(case['seed']), **dict(kw, types=list(kw['types'])))
    keep = Keep(case['flags'])
    count = [0]

    class PF(object):
        """psf fits fail as scripted, by their number"""

        def go(self, obs):
            k = count[0]
            count[0] += 1
            return Res(flags=case['bad'][k % len(case['bad'])][0], n=k)
    psf_runner = PSFRunner(fitter=PF()) if case['runner'] else None
    args = dict(runner=keep, psf_runner=psf_runner, ignore_failed_psf=case['ignore'], rng=np.random.RandomState(case['seed']), **kw)
    call = (lambda: metacal_bootstrap(obs=obs, **args)) if case['route'] else (lambda: MetacalBootstrapper(**args).go(obs=obs))
    n = case['n']
    fails = [case['bad'][k % len(case['bad'])][0] != 0 for k in range(n * len(ref))] if case['runner'] else [False] * n * len(ref)
    lost = case['runner'] and case['ignore'] and any(all(fails[i * n:(i + 1) * n]) for i in range(len(ref)))
    if lost:
        raises(BootPSFFailure, call, _msg='no psf left')
        return
    resdict, obsdict = call()
    check(set(resdict) == set(obsdict) == set(ref) and set(ref) >= set(case['types']), 'types %s %s', sorted(resdict), sorted(ref))
    for x, y in zip(images(obs), before):
        same(x, y, 'observations changed')
    check(len(keep.seen) == len(ref), 'fits')
    for i, key in enumerate(obsdict):
        a, b = images(obsdict[key]), images(ref[key])
        check(len(a) == len(b), 'epochs')
        for x, y in zip(a, b):
            close(x, y, 1e-7, 1e-9, 'metacal image ' + key)
        # the result under this key is of the fit of these images
        res = resdict[key]
        seen = keep.seen[res['nth']]
        idx = [k for k in range(n) if not (case['runner'] and case['ignore'] and fails[res['nth'] * n + k])]
        expect = [x for k in idx for x in a[3 * k:3 * k + 3]]
        got = images(seen)
        check(len(got) == len(expect), 'epochs that were fit: %d, expected %d', len(got) // 3, len(idx))
        for x, y in zip(got, expect):
            same(x, y, 'result under another type')
        check(res['flags'] == case['flags'][res['nth'] % len(case['flags'])], 'result')


# ------------------------------------------------------------------ real fitters

@R.law(st.fixed_dictionaries(dict(seed=seeds, n=ints(1, 3), ntry=ints(1, 3), psf=st.sampled_from(['admom', 'gauss', 'coellip', 'em', 'moments']), blank=st.lists(st.booleans(), min_size=3, max_size=3))), quick=150, rule='some psf is blank')
def real(case, ctx):
    """with real fitters: the same as fitting the psfs by hand, dropping those that fail, and fitting the object"""
    from ngmix import guessers
    from ngmix.admom import AdmomFitter
    from ngmix.fitting import Fitter, CoellipFitter
    from ngmix.em import EMFitter
    from ngmix.gaussmom import GaussMom
    obs = sim(case['seed'], case['n'])
    for o, blank in zip(obs, case['blank']):
        if blank:
            # images no fitter can do anything with
            o.psf.image = -np.abs(rng_of(case['seed']).normal(size=o.psf.image.shape)) - 1.0
    nblank = sum(case['blank'][:case['n']])
    ctx.nontrivial(nblank > 0)
    ctx.label(case['psf'])

    def parts():
        rng = np.random.RandomState(case['seed'] % 1000)
        k = case['psf']
        if k == 'moments':
            return GaussMom(fwhm=1.2), None, rng
        if k == 'admom':
            return AdmomFitter(rng=rng), guessers.GMixPSFGuesser(rng=rng, ngauss=1), rng
        if k == 'em':
            return EMFitter(), guessers.GMixPSFGuesser(rng=rng, ngauss=1), rng
        if k == 'coellip':
            return CoellipFitter(ngauss=2), guessers.CoellipPSFGuesser(rng=rng, ngauss=2), rng
        return Fitter(model='gauss'), guessers.SimplePSFGuesser(rng=rng), rng
    f, g, rng = parts()
    guess = np.array([0.0, 0.0, 0.0, 0.0, 0.6, 9.0])

    class G(object):
        def __call__(self, obs):
            return guess + 0.01 * rng.uniform(-1, 1, size=6)
    runner = Runner(fitter=Fitter(model='gauss'), guesser=G(), ntry=case['ntry'])
    mine = copy.deepcopy(obs)
    fails = False
    try:
        res = Bootstrapper(runner=runner, psf_runner=PSFRunner(fitter=f, guesser=g, ntry=case['ntry'])).go(obs=obs)
    except BootPSFFailure:
        fails, res = True, None
    except (GMixRangeError, RuntimeError, ValueError) as err:
        # (a guesser or a mixture can refuse a blank image)
        check(nblank > 0 or case['psf'] == 'moments', 'error %r', err)
        ctx.label('refused')
        return
    # by hand
    f, g, rng = parts()
    kept = ObsList()
    for o in mine:
        for _ in range(case['ntry']):
            r = f.go(obs=o.psf) if g is None else f.go(obs=o.psf, guess=g(obs=o.psf))
            if r['flags'] == 0:
                break
        if r['flags'] == 0:
            if hasattr(r, 'get_gmix'):
                o.psf.gmix = r.get_gmix()
            kept.append(o)
    check(fails == (len(kept) == 0), 'no psf left: %s', fails)
    if fails:
        return
    for _ in range(case['ntry']):
        r = Fitter(model='gauss').go(obs=kept, guess=guess + 0.01 * rng.uniform(-1, 1, size=6))
        if r['flags'] == 0:
            break
    check(r['flags'] == res['flags'], 'flags')
    same(res['pars'], r['pars'], 'parameters')
    same(res['pars_cov'], r['pars_cov'], 'covariance')
    check(len(obs) == case['n'], 'observations dropped from the list handed in')
