"""C33: inputs are never altered and their storage does not matter"""
import numpy as np
from vh import Registry, st, check, Violation
from gen import ints, logfl, pick, seeds, rng_of
import ops

ORACLE = ('the same operation on plain contiguous native double arrays with the same values and random state, and a byte-for-byte snapshot of '
          'everything handed over')
R = Registry()


def warmup():
    for k in range(12):
        for n in sorted(ops.OPS):
            c = dict(n=0, k=k, integral=1, scale=1.0)
            o = ops.OPS[n]
            a = o.arrays(rng_of(3), c)
            o.act(o.build(a, c, rng_of(1)))
            if k == 0:
                for form in FORMS:
                    try:
                        o.act(o.build(dict((x, stored(v, form)) for x, v in a.items()), c, rng_of(1)))
                    except Exception:
                        pass


FORMS = ['big', 'f4', 'fortran', 'strided', 'reversed', 'readonly', 'int', 'packed', 'offset', 'list']


def stored(x, form):
    """the same values stored in another way"""
    x = np.array(x)
    if form == 'big':
        return x.astype(x.dtype.newbyteorder('>'))
    if form == 'f4':
        return x.astype('f4') if x.dtype.kind == 'f' else x
    if form == 'fortran':
        return np.asfortranarray(x)
    if form == 'strided':
        y = np.full([2 * n for n in x.shape], 1, dtype=x.dtype)
        y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return y[tuple(slice(None, None, 2) for _ in x.shape)]
    if form == 'reversed':
        s = tuple(slice(None, None, -1) for _ in x.shape)
        return x[s].copy()[s]
    if form == 'readonly':
        x.setflags(write=False)
        return x
    if form == 'int':
        return x.astype('i8') if x.dtype.kind == 'f' and np.all(x == np.round(x)) else x
    if form == 'packed':
        # a column of a table: neither aligned nor contiguous
        y = np.zeros(x.shape[:1], dtype=[('a', 'i1'), ('x', x.dtype, x.shape[1:])])
        y['x'] = x
        return y['x']
    if form == 'offset':
        y = np.zeros(x.nbytes + 3, dtype='u1')[3:].view(x.dtype).reshape(x.shape)
        y[...] = x
        return y
    if form == 'list':
        return x.tolist() if x.ndim == 1 and x.size < 40 else x
    raise ValueError(form)


def snap(v):
    return (repr(v), None, None) if isinstance(v, list) else (np.ascontiguousarray(v).tobytes(), v.dtype, v.flags.writeable)


LISTS = {'guess', 'flux', 'full', 'co', 'gpars', 'pgmix', 'jac', 'pcen', 'w'}


@R.law(st.fixed_dictionaries(dict(op=ops.config(st, ints, pick, logfl), seed=seeds, rs=seeds, forms=st.lists(st.sampled_from(FORMS + ['plain']), min_size=3, max_size=3), one=st.booleans())),
       quick=1500, rule='an array not stored as plain doubles')
def storage(case, ctx):
    """results do not depend on byte order, precision, strides, alignment or writeability; arrays come back as they were"""
    name, c = case['op']
    o = ops.OPS[name]
    ctx.label(name)
    a = o.arrays(rng_of(case['seed']), c)
    ref = ops.flat(o.act(o.build(dict((k, v.copy()) for k, v in a.items()), c, rng_of(case['rs']))))
    b = {}
    names = sorted(a)
    for i, k in enumerate(names):
        form = case['forms'][i % 3]
        if case['one'] and i != case['seed'] % len(names):
            form = 'plain'
        if form == 'list' and k not in LISTS:
            form = 'strided'
        if form == 'list' and (name in ('leastsq', 'fit', 'coellip', 'galsimfit', 'em') or k in ('jac', 'pcen') and name == 'views'):
            form = 'big'
        if form != 'plain':
            ctx.nontrivial()
            ctx.label(form)
            b[k] = stored(a[k], form)
        else:
            b[k] = a[k].copy()
    before = dict((k, snap(v)) for k, v in b.items())
    try:
        got = ops.flat(o.act(o.build(b, c, rng_of(case['rs']))))
    except Exception as e:
        raise Violation('%s of %r: %s: %s' % (name, case['forms'], type(e).__name__, e))
    for k, v in b.items():
        check(snap(v) == before[k], '%s: %s was changed', name, k)
    single = 'f4' in case['forms'] or 'int' in case['forms']
    d = ops.differ(ref, got, 3e-4 if single else 1e-6 if o.iterative else 1e-9)
    check(d is None, '%s with arrays stored as %s: %s', name, case['forms'], d)


@R.law(st.fixed_dictionaries(dict(op=ops.config(st, ints, pick, logfl), seed=seeds, rs=seeds)), quick=800, rule='an operation with arrays')
def untouched(case, ctx):
    """objects handed to an operation (observations, mixtures, guesses) are as they were, apart from documented results on PSFs"""
    name, c = case['op']
    o = ops.OPS[name]
    ctx.label(name)
    ctx.nontrivial()
    a = o.arrays(rng_of(case['seed']), c)
    before = dict((k, snap(v)) for k, v in a.items())
    objs = o.build(a, c, rng_of(case['rs']))
    parts = dict((k, v) for k, v in objs.items() if k not in ('tool', 'rng', 'c', 'gt', 'gs', 'ps') and (name, k) not in (('metaboot', 'obs'), ('boot', 'mb')))
    b = ops.flat(parts)
    if 'kw' in objs and 'maxfev' in objs['kw']:
        check(set(objs['kw']) == {'maxfev'}, '%s: the options handed over became %s', name, objs['kw'])
    ims = [(ob.image.copy(), ob.weight.copy(), ob) for ob in observations(objs)]
    o.act(objs)
    for k in a:
        check(snap(a[k]) == before[k], '%s: %s was changed', name, k)
    d = ops.differ(b, ops.flat(dict((k, objs[k]) for k in parts)), 0)
    check(d is None, '%s changed what it was given: %s', name, d)
    for i, w, ob in ims:
        check(np.array_equal(i, ob.image) and np.array_equal(w, ob.weight), '%s changed the pixels of an observation', name)


def observations(objs):
    import ngmix
    out = []

    def add(x):
        if isinstance(x, ngmix.Observation):
            out.append(x)
            if x.has_psf():
                out.append(x.psf)
        elif isinstance(x, (ngmix.ObsList, ngmix.MultiBandObsList)):
            for y in x:
                add(y)
    for v in objs.values():
        add(v)
    return out


# what tools are made of; everything else is handed over again with each call or belongs to the observation
OWNED = {'algebra': ['full', 'co', 'gpars'], 'render': ['gpars', 'jac'], 'like': ['gpars', 'jac', 'pgmix', 'pcen'], 'simulate': ['gpars', 'jac', 'pgmix'], 'guess': ['flux', 'pars', 'ajac', 'bjac', 'apgmix'], 'ndmix': ['w', 'm', 'c'],
         'em': ['guess', 'jac'], 'fit': ['ajac', 'bpgmix'], 'psfflux': ['ajac', 'apgmix'], 'metacal': ['jac', 'pgmix']}


@R.law(st.fixed_dictionaries(dict(op=ops.config(st, ints, pick, logfl, list(OWNED)), seed=seeds, rs=seeds, fill=st.sampled_from([0.0, 7.25, float('nan')]))), quick=400, rule='a parameter array overwritten')
def ownership(case, ctx):
    """parameters that mixtures, transforms, guessers and priors are made of are taken over: arrays overwritten afterwards do not matter"""
    name, c = case['op']
    o = ops.OPS[name]
    ctx.label(name)
    ctx.nontrivial()
    a = o.arrays(rng_of(case['seed']), c)
    ref = ops.flat(o.act(o.build(dict((k, v.copy()) for k, v in a.items()), c, rng_of(case['rs']))))
    objs = o.build(a, c, rng_of(case['rs']))
    for k in OWNED[name]:
        a[k][...] = case['fill']
    d = ops.differ(ref, ops.flat(o.act(objs)), 1e-7 if o.iterative else 1e-10)
    check(d is None, '%s depends on arrays overwritten by the caller: %s', name, d)
