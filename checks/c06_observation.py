"""C06: observations under any edit history"""
import copy
import numpy as np
from vh import Registry, st, check, close, raises, same, fail
from gen import fl, jac, seeds, rng_of, ints, make_jac, jdet, vu, logfl, full_pars
import ngmix
from ngmix import Observation, GMix
from ngmix.gexceptions import GMixFatalError

ORACLE = ('a model object holding plain copies of everything that was set, from which every accessor, the pixel list, '
          'the signal-to-noise sums and equality are recomputed')
R = Registry()
OPT = ['bmask', 'ormask', 'noise', 'mfrac']


def warmup():
    o = Observation(np.ones((3, 3)), jacobian=ngmix.UnitJacobian(row=1, col=1))
    o.ignore_zero_weight = False
    GMix(pars=[1, 0, 0, 1, 0, 1.]).copy()


def arr(seed, shape, kind):
    r = rng_of(seed)
    if kind in ('bmask', 'ormask'):
        return r.randint(0, 8, size=shape).astype('i4')
    if kind == 'mfrac':
        return r.uniform(size=shape)
    if kind == 'weight':
        w = r.uniform(0.1, 3.0, size=shape)
        w[r.uniform(size=shape) < 0.3] = 0
        if seed % 5 == 0:
            # (read as unusable)
            w[r.uniform(size=shape) < 0.2] *= -1
        if not np.any(w > 0):
            w[0, 0] = 1.0
        return w
    return r.normal(size=shape)


class Model(object):
    """what the observation should contain"""
    def __init__(self):
        self.d = {}

    def copy(self):
        m = Model()
        m.d = copy.deepcopy(self.d)
        return m

    def __eq__(self, o):
        a, b = self.d, o.d
        if set(a) - {'store', 'ignore'} != set(b) - {'store', 'ignore'}:
            return False
        for k in a:
            if k in ('store', 'ignore'):
                continue
            if k == 'psf':
                if not a[k] == b[k]:
                    return False
            elif k in ('meta',):
                if a[k] != b[k]:
                    return False
            elif not np.array_equal(np.asarray(a[k]), np.asarray(b[k])):
                return False
        return True


JE = ['row', 'col', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol']


def jlist(j, cen):
    return [cen[0], cen[1], j['dvdrow'], j['dvdcol'], j['dudrow'], j['dudcol']]


def create(c, psf=None, psfmodel=None):
    shape = tuple(c['shape'])
    m = Model()
    m.d['image'] = arr(c['seed'], shape, 'image')
    m.d['weight'] = arr(c['seed'] + 1, shape, 'weight') if c['weight'] else np.ones(shape)
    m.d['jac'] = jlist(c['j'], c['cen'])
    m.d['meta'] = {'a': c['seed']} if c['meta'] else {}
    m.d['store'] = c['store']
    m.d['ignore'] = c['ignore']
    kw = {}
    for i, k in enumerate(OPT):
        if c['opt'] >> i & 1:
            m.d[k] = arr(c['seed'] + 2 + i, shape, k)
            kw[k] = m.d[k].copy()
    if c['gmix'] is not None:
        m.d['gmix'] = GMix(pars=c['gmix']).get_full_pars()
        kw['gmix'] = GMix(pars=c['gmix'])
    if psf is not None:
        m.d['psf'] = psfmodel
        kw['psf'] = psf
    if c['weight']:
        kw['weight'] = m.d['weight'].copy()
    if c['meta']:
        kw['meta'] = dict(m.d['meta'])
    o = Observation(m.d['image'].copy(), jacobian=make_jac(c['j'], *c['cen']), store_pixels=c['store'],
                    ignore_zero_weight=c['ignore'], **kw)
    return o, m


def verify(o, m, msg):
    d = m.d
    shape = d['image'].shape
    same(o.image, d['image'], msg + ' image')
    same(o.weight, d['weight'], msg + ' weight')
    jj = o.jacobian
    got = [jj.row0, jj.col0, jj.dvdrow, jj.dvdcol, jj.dudrow, jj.dudcol]
    close(got, d['jac'], 1e-14, 0, msg + ' jacobian')
    check(o.meta == d['meta'], '%s meta %r %r', msg, o.meta, d['meta'])
    for k in OPT:
        has = getattr(o, 'has_' + k)()
        check(has == (k in d), '%s has_%s is %s', msg, k, has)
        if has:
            same(getattr(o, k), d[k], msg + ' ' + k)
    check(o.has_gmix() == ('gmix' in d), '%s has_gmix', msg)
    if 'gmix' in d:
        close(o.gmix.get_full_pars(), d['gmix'], 1e-15, 0, msg + ' gmix')
        check(o.gmix is not o.gmix, 'gmix accessor must give a copy')
    else:
        raises(RuntimeError, o.get_gmix)
    check(o.has_psf() == ('psf' in d), '%s has_psf', msg)
    if 'psf' in d:
        verify(o.psf, d['psf'], msg + ' psf')
        check(o.get_psf() is o.psf, 'psf')
        check(o.has_psf_gmix() == ('gmix' in d['psf'].d), msg + ' has_psf_gmix')
        if o.has_psf_gmix():
            close(o.get_psf_gmix().get_full_pars(), d['psf'].d['gmix'], 1e-15, 0, msg + ' psf gmix')
    else:
        raises(RuntimeError, o.get_psf)
        check(not o.has_psf_gmix(), msg + ' has_psf_gmix without psf')
        raises(RuntimeError, o.get_psf_gmix)
    # derived: read-only views
    for k in ['image', 'weight'] + [k for k in OPT if k in d]:
        a = getattr(o, k)
        check(not a.flags['WRITEABLE'], '%s %s must be read-only', msg, k)
    raises(ValueError, o.jacobian.set_cen, row=99.0, col=98.0)
    # pixels
    check(bool(o.store_pixels) == d['store'] and bool(o.ignore_zero_weight) == d['ignore'], '%s settings', msg)
    if not d['store']:
        check(o.pixels is None, msg + ' pixels stored')
    else:
        w = d['weight']
        keep = (w > 0) if d['ignore'] else np.ones(shape, dtype=bool)
        jm = dict(zip(JE[2:], d['jac'][2:]))
        v, u = vu(shape, jm, d['jac'][0], d['jac'][1])
        p = o.pixels
        check(p.size == keep.sum(), '%s %d pixels, expected %d', msg, p.size, keep.sum())
        at = 1e-11 * np.sqrt(abs(jdet(jm))) * 40
        close(p['v'], v[keep], 1e-12, at, msg + ' pixels v')
        close(p['u'], u[keep], 1e-12, at, msg + ' pixels u')
        same(p['val'], d['image'][keep], msg + ' pixels val')
        close(p['ierr'], np.sqrt(np.clip(w[keep], 0, None)), 1e-14, 0, msg + ' pixels ierr')
        close(p['area'], np.full(p.size, abs(jdet(jm))), 1e-9, 0, msg + ' pixels area')
        check(not p.flags['WRITEABLE'], msg + ' pixels must be read-only')
    # s2n
    w = d['weight']
    good = w > 0
    Is, Vs, N = o.get_s2n_sums()
    close(Is, d['image'][good].sum(), 1e-9, 1e-12, msg + ' Isum')
    close(Vs, (1 / w[good]).sum(), 1e-12, 0, msg + ' Vsum')
    check(N == good.sum(), msg + ' Npix')
    close(o.get_s2n(), d['image'][good].sum() / np.sqrt((1 / w[good]).sum()), 1e-9, 1e-12, msg + ' s2n')


base = dict(
    seed=seeds, shape=st.tuples(ints(2, 5), ints(2, 5)).map(list), j=jac(0.2, 2, 0.3), cen=st.tuples(fl(0, 4), fl(0, 4)).map(list),
    weight=st.booleans(), meta=st.booleans(), store=st.sampled_from([True, True, True, False]),
    ignore=st.sampled_from([True, True, False]), opt=ints(0, 15),
    gmix=st.one_of(st.none(), full_pars(1, 2)),
)
maker = st.fixed_dictionaries(base)

which = ints(0, 9)
onpsf = st.sampled_from([False, False, False, True])
ops = st.one_of(
    st.tuples(st.just('set'), which, onpsf, st.sampled_from(['image', 'weight'] + OPT), seeds, st.booleans()),
    st.tuples(st.just('set'), which, onpsf, st.sampled_from(['image', 'weight'] + OPT), seeds, st.booleans()),
    st.tuples(st.just('clear'), which, onpsf, st.sampled_from(OPT + ['weight', 'gmix', 'psf', 'jacobian', 'meta'])),
    st.tuples(st.just('jac'), which, onpsf, jac(0.2, 2, 0.3), st.tuples(fl(0, 4), fl(0, 4)).map(list), st.booleans()),
    st.tuples(st.just('gmix'), which, onpsf, full_pars(1, 2), st.booleans()),
    st.tuples(st.just('psf'), which, maker, st.booleans()),
    st.tuples(st.just('meta'), which, onpsf, seeds, st.sampled_from(['set', 'update', 'key', 'setter'])),
    st.tuples(st.just('inplace'), which, onpsf, st.sampled_from(['image', 'weight', 'cen'] + OPT), seeds, st.booleans()),
    st.tuples(st.just('inplace'), which, onpsf, st.sampled_from(['image', 'weight', 'cen'] + OPT), seeds, st.booleans()),
    st.tuples(st.just('reject'), which, onpsf, st.sampled_from(['image', 'weight'] + OPT), st.sampled_from(['shape', '1d', 'write'])),
    st.tuples(st.just('rejtype'), which, onpsf, st.sampled_from(['jacobian', 'gmix', 'psf', 'meta', 'update_meta'])),
    st.tuples(st.just('flag'), which, onpsf, st.sampled_from(['store_pixels', 'ignore_zero_weight']), st.booleans()),
    st.tuples(st.just('copy'), which, st.sampled_from(['copy', 'copy.copy', 'deepcopy'])),
    st.tuples(st.just('copy'), which, st.sampled_from(['copy', 'copy.copy', 'deepcopy'])),
    st.tuples(st.just('mutate_out'), which, onpsf, st.sampled_from(['gmix', 'copies'])),
    st.tuples(st.just('eq'), which, which),
    st.tuples(st.just('verify'), which),
)


@R.law(st.fixed_dictionaries(dict(first=maker, psf=st.one_of(st.none(), maker), ops=st.lists(ops, min_size=1, max_size=16))),
       quick=2400, shards=8, rule='at least one accepted edit and one copy or derived view check afterwards')
def edit_history(case, ctx):
    """a model (plain arrays and values) is edited along with the observation; every view must agree after every step, including rejected ones and copies"""
    if case['psf'] is not None:
        po, pm = create(case['psf'])
        o, m = create(case['first'], po, pm)
    else:
        o, m = create(case['first'])
    pool, models = [o], [m]
    edits = copies = 0
    for op in case['ops']:
        k = op[0]
        i = op[1] % len(pool)
        o, m = pool[i], models[i]
        if k in ('set', 'clear', 'jac', 'gmix', 'meta', 'inplace', 'reject', 'rejtype', 'flag', 'mutate_out') and op[2] and 'psf' in m.d:
            o, m = o.psf, m.d['psf']
        shape = m.d['image'].shape
        if k == 'set':
            name, seed, method = op[3], op[4], op[5]
            a = arr(seed, shape, name)
            if method:
                getattr(o, 'set_' + name)(a.copy())
            else:
                setattr(o, name, a.copy())
            m.d[name] = a
            edits += 1
        elif k == 'clear':
            name = op[3]
            if name in OPT + ['gmix', 'psf']:
                getattr(o, 'set_' + name)(None)
                m.d.pop(name, None)
            elif name == 'weight':
                o.weight = None
                m.d['weight'] = np.ones(shape)
            elif name == 'jacobian':
                o.jacobian = None
                m.d['jac'] = [(shape[0] - 1) / 2, (shape[1] - 1) / 2, 1.0, 0.0, 0.0, 1.0]
            else:
                o.meta = None
                m.d['meta'] = {}
            edits += 1
        elif k == 'jac':
            jo = make_jac(op[3], *op[4])
            if op[5]:
                o.set_jacobian(jo)
            else:
                o.jacobian = jo
            # what was handed in is copied
            jo.set_cen(row=-77.0, col=55.0)
            m.d['jac'] = jlist(op[3], op[4])
            edits += 1
        elif k == 'gmix':
            g = GMix(pars=op[3])
            if op[4]:
                o.set_gmix(g)
            else:
                o.gmix = g
            m.d['gmix'] = g.get_full_pars()
            g.set_flux(123.0)
            edits += 1
        elif k == 'psf':
            po, pm = create(op[2])
            if op[3]:
                o.set_psf(po)
            else:
                o.psf = po
            check(o.psf is po, 'psf is kept by reference')
            m.d['psf'] = pm
            edits += 1
        elif k == 'meta':
            if op[4] == 'set':
                o.set_meta({'b': op[3]})
                m.d['meta'] = {'b': op[3]}
            elif op[4] == 'setter':
                o.meta = {'c': op[3]}
                m.d['meta'] = {'c': op[3]}
            elif op[4] == 'update':
                o.update_meta_data({'d': op[3], 'b': op[3] + 1})
                m.d['meta'].update({'d': op[3], 'b': op[3] + 1})
            else:
                o.meta['e'] = [op[3]]
                m.d['meta']['e'] = [op[3]]
            edits += 1
        elif k == 'inplace':
            name = op[3]
            if name in OPT and name not in m.d:
                continue
            r = rng_of(op[4])
            boom = op[5]
            try:
                with o.writeable():
                    if name == 'cen':
                        row, col = r.uniform(0, 4, size=2)
                        o.jacobian.set_cen(row=row, col=col)
                        m.d['jac'] = [row, col] + list(m.d['jac'][2:])
                    else:
                        a, b = r.randint(0, shape[0]), r.randint(0, shape[1])
                        val = int(r.randint(1, 9))
                        getattr(o, name)[a, b] += val
                        m.d[name][a, b] += val
                    if boom:
                        raise KeyError('user error inside the context')
            except KeyError:
                check(boom, 'KeyError from the library')
            edits += 1
        elif k == 'reject':
            name, how = op[3], op[4]
            if how == 'shape':
                bad = np.ones((shape[0] + 1, shape[1]))
            else:
                bad = np.ones(shape[0] * shape[1])
            if how == 'write':
                if name in OPT and name not in m.d:
                    continue
                a = getattr(o, name)

                def wr():
                    a[0, 0] = 77
                raises(ValueError, wr, _msg='write outside the context')
                raises(ValueError, lambda: o.pixels.__setitem__(0, o.pixels[0]) if o.pixels is not None else np.ones(1).reshape(2))
            else:
                raises(AssertionError, getattr(o, 'set_' + name), bad, _msg=name)
        elif k == 'rejtype':
            if op[3] == 'meta':
                raises(TypeError, o.set_meta, [1, 2])
            elif op[3] == 'update_meta':
                raises(TypeError, o.update_meta_data, [1, 2])
            else:
                raises(AssertionError, getattr(o, 'set_' + op[3]), 'a string')
        elif k == 'flag':
            setattr(o, op[3], op[4])
            m.d['store' if op[3] == 'store_pixels' else 'ignore'] = op[4]
        elif k == 'copy':
            c = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[2]](o)
            check(type(c) is Observation and c is not o, 'copy')
            check(bool(c == o) and bool(o == c) and not bool(c != o), 'copy compares equal')
            if c.has_psf():
                check(c.psf is not o.psf, 'psf shared by the copy')
            pool.append(c)
            models.append(m.copy())
            copies += 1
        elif k == 'mutate_out':
            if op[3] == 'gmix' and o.has_gmix():
                o.gmix.set_flux(55.0)
                o.get_gmix().set_cen(5.0, 6.0)
            elif op[3] == 'copies':
                c = o.copy()
                with c.writeable():
                    c.image[:] += 5
                    c.weight[:] += 3
                    c.jacobian.set_cen(row=1e3, col=1e3)
                    for q in OPT:
                        if q in m.d:
                            getattr(c, q)[:] += 1
                c.meta['zz'] = 1
                for v in c.meta.values():
                    if isinstance(v, list):
                        v.append(9)
                if c.has_psf():
                    with c.psf.writeable():
                        c.psf.image[:] += 1
                    c.psf.set_gmix(None)
        elif k == 'eq':
            j = op[2] % len(pool)
            exp = models[i] == models[j]
            check(bool(pool[i] == pool[j]) == exp, 'equality is %s, expected %s', not exp, exp)
            check(bool(pool[i] != pool[j]) == (not exp), 'inequality')
            ctx.label('eq_%s' % exp)
        elif k == 'verify':
            verify(o, m, 'during')
    ctx.nontrivial(edits > 0 and copies > 0)
    for i, (o, m) in enumerate(zip(pool, models)):
        verify(o, m, 'object %d at the end' % i)
    for i in range(len(pool)):
        for j in range(len(pool)):
            exp = models[i] == models[j]
            check(bool(pool[i] == pool[j]) == exp, 'final equality of %d and %d should be %s', i, j, exp)


@R.law(st.fixed_dictionaries(dict(a=maker, pa=maker, what=st.sampled_from(
    ['image', 'weight', 'jac', 'meta', 'gmix', 'psf', 'psf_image', 'psf_weight', 'shape', 'none', 'addpsf', 'delpsf'] + OPT + ['add' + k for k in OPT] + ['addgmix']),
    seed=seeds)), quick=1500, rule='a pair that differs in exactly one part')
def equality_sees_each_part(case, ctx):
    """observations that differ in exactly one part are unequal, and equal again when it is restored"""
    what = case['what']
    a = dict(case['a'])
    if what in OPT:
        a['opt'] |= 1 << OPT.index(what)
    if what[:3] == 'add' and what[3:] in OPT:
        a['opt'] &= ~(1 << OPT.index(what[3:]))
    if what == 'gmix' and a['gmix'] is None:
        a['gmix'] = [1.0, 0.0, 0.0, 1.0, 0.0, 1.0]
    if what == 'addgmix':
        a['gmix'] = None
    haspsf = what in ('psf', 'psf_image', 'psf_weight', 'delpsf') or case['seed'] & 1 and what != 'addpsf'
    mk = (lambda: create(a, *create(case['pa']))[0]) if haspsf else (lambda: create(a)[0])
    o, p = mk(), mk()
    check(bool(o == p) and not bool(o != p), 'equal contents')
    ctx.nontrivial(what != 'none')
    r = rng_of(case['seed'])
    i, j = r.randint(0, a['shape'][0]), r.randint(0, a['shape'][1])

    def bump(ob, name, i, j):
        with ob.writeable():
            getattr(ob, name)[i, j] += 1
    if what in ['image', 'weight'] + OPT:
        bump(p, what, i, j)
    elif what == 'jac':
        jj = p.jacobian.copy()
        kw = dict(row=jj.row0, col=jj.col0, dvdrow=jj.dvdrow, dvdcol=jj.dvdcol, dudrow=jj.dudrow, dudcol=jj.dudcol)
        kw[JE[r.randint(0, 6)]] += 0.125
        p.jacobian = ngmix.Jacobian(**kw)
    elif what == 'meta':
        p.meta['new'] = 3
    elif what == 'gmix':
        g = p.gmix
        g.set_flux(g.get_flux() * 1.5)
        p.gmix = g
    elif what == 'addgmix':
        p.gmix = GMix(pars=[1.0, 0.0, 0.0, 1.0, 0.0, 1.0])
    elif what == 'psf':
        p.psf.meta['new'] = 3
    elif what in ('psf_image', 'psf_weight'):
        bump(p.psf, what[4:], 0, 0)
    elif what == 'delpsf':
        p.psf = None
    elif what == 'addpsf':
        p.psf = create(case['pa'])[0]
    elif what[:3] == 'add':
        setattr(p, what[3:], arr(case['seed'], tuple(a['shape']), what[3:]))
    elif what == 'shape':
        b = dict(a, shape=[a['shape'][0], a['shape'][1] + 1])
        p = create(b)[0]
    if what != 'none':
        check(not bool(o == p), 'differ in %s but o == p', what)
        check(not bool(p == o), 'differ in %s but p == o', what)
        check(bool(o != p), 'differ in %s but not o != p', what)
    raises(ValueError, lambda: o == 3)


@R.law(st.fixed_dictionaries(dict(shape=st.tuples(ints(1, 5), ints(1, 5)).map(list), store=st.booleans(), ignore=st.booleans(), seed=seeds)),
       quick=400, rule='observation without usable pixels')
def no_usable_pixels(case, ctx):
    """without usable pixels: rejected or empty as documented"""
    ctx.nontrivial()
    shape = tuple(case['shape'])
    im = arr(case['seed'], shape, 'image')
    kw = dict(weight=np.zeros(shape), store_pixels=case['store'], ignore_zero_weight=case['ignore'])
    if case['store'] and case['ignore']:
        raises(GMixFatalError, Observation, im, **kw)
        return
    o = Observation(im, **kw)
    check(o.get_s2n() == -9999.0, 's2n without pixels')
    check(tuple(o.get_s2n_sums()) == (0.0, 0.0, 0), 's2n sums')
    if case['store']:
        check(np.all(o.pixels['ierr'] == 0) and o.pixels.size == im.size, 'pixels')
    else:
        check(o.pixels is None, 'no pixels')
