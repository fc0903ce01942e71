"""C31: multi-epoch file reading builds faithful observations

The reader classes sit on top of the external package meds, which is not
installed here.  A stand-in base class with the same interface serves catalogs
and cutouts from memory; the code under test is ngmix.medsreaders itself.
"""
import os
import sys
import types
import numpy as np
from vh import Registry, st, check, close, raises, same, Skip
from gen import fl, logfl, ints, pick, seeds, rng_of, jac, jmat, jdet


class MEDS(object):
    """in-memory stand-in with the interface of meds.MEDS that readers use"""

    def __init__(self, filename):
        self._d = filename
        self._cat = self._d.cat
        self._image_info = self._d.info
        self._meta = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, k):
        return self._cat[k]

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def get_meta(self):
        return self._meta

    def get_number(self, iobj):
        return self._cat['number'][iobj]

    def _check(self, iobj, icutout):
        if iobj < 0 or iobj >= self.size or icutout < 0 or icutout >= self._cat['ncutout'][iobj]:
            raise ValueError('object or cutout out of range: %s %s' % (iobj, icutout))

    def get_cutout(self, iobj, icutout, type='image'):
        self._check(iobj, icutout)
        p = self._d.planes.get(type)
        if p is None:
            raise self._d.missing("no such cutout type: '%s'" % type)
        return p[iobj, icutout].copy()

    def get_cutout_list(self, iobj, type='image'):
        return [self.get_cutout(iobj, i, type=type) for i in range(self._cat['ncutout'][iobj])]

    def get_uberseg(self, iobj, icutout, fast=True):
        self._check(iobj, icutout)
        return self._d.weights['uberseg'][iobj, icutout].copy()

    def get_cweight_cutout(self, iobj, icutout, restrict_to_seg=False):
        self._check(iobj, icutout)
        return self._d.weights['cweight' if restrict_to_seg else 'cweight_nearest'][iobj, icutout].copy()

    def get_cseg_weight(self, iobj, icutout, use_canonical_cen=False):
        self._check(iobj, icutout)
        return self._d.weights['cseg-canonical' if use_canonical_cen else 'cseg'][iobj, icutout].copy()

    get_cseg_cutout = get_cseg_weight

    def has_psf(self):
        return self._d.psfs is not None

    def get_psf(self, iobj, icutout):
        self._check(iobj, icutout)
        if self._d.psfs is None:
            raise self._d.missing('no psfs')
        return self._d.psfs[iobj, icutout].copy()

    def get_psf_list(self, iobj):
        return [self.get_psf(iobj, i) for i in range(self._cat['ncutout'][iobj])]

    def get_jacobian(self, iobj, icutout):
        self._check(iobj, icutout)
        c = self._cat
        return dict(row0=c['cutout_row'][iobj, icutout], col0=c['cutout_col'][iobj, icutout],
                    **{k: c[k][iobj, icutout] for k in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol')})

    def get_jacobian_list(self, iobj):
        return [self.get_jacobian(iobj, i) for i in range(self._cat['ncutout'][iobj])]


_m = types.ModuleType('meds')
_m.MEDS = MEDS
sys.modules['meds'] = _m
import ngmix
from ngmix.medsreaders import NGMixMEDS, MultiBandNGMixMEDS
from ngmix.gexceptions import GMixFatalError

ORACLE = 'the generated catalog and planes themselves, looked up by object, cutout and band'
R = Registry()
KINDS = ['weight', 'uberseg', 'cweight', 'cseg', 'cseg-canonical']
OPT = ['bmask', 'ormask', 'noise', 'mfrac']
MISSING = {'ValueError': ValueError, 'IOError': IOError, 'KeyError': KeyError, 'RuntimeError': RuntimeError}


class Data(object):
    pass


def generate(counts, opts, psf, cols, maxcut, pmask, missing, seed):
    """one band"""
    r = rng_of(seed)
    d = Data()
    n = len(counts)
    mc = max(max(counts), 1) + maxcut
    dt = [('id', 'i8'), ('ncutout', 'i4'), ('file_id', 'i4', (mc,)), ('box_size', 'i4')]
    dt += [(k, 'f8', (mc,)) for k in ('orig_row', 'orig_col', 'cutout_row', 'cutout_col', 'dudrow', 'dudcol', 'dvdrow', 'dvdcol')]
    dt += [(k, 'i8', (mc,)) for k in ('orig_start_row', 'orig_start_col')]
    if psf:
        dt += [(k, 'f8', (mc,)) for k in ('psf_cutout_row', 'psf_cutout_col')]
    dt += [(k, 'i8' if k == 'number' else 'f4') for k in cols]
    d.cat = np.zeros(n, dtype=dt)
    for name in d.cat.dtype.names:
        d.cat[name] = -9999
    nfile = 1 + int(r.randint(4))
    d.info = np.zeros(nfile, dtype=[('image_path', 'U60'), ('scale', 'f8'), ('magzp', 'f4')])
    d.info['image_path'] = ['/some/dir%d/image-%d.fits%s' % (i, r.randint(1000), '  ' if r.uniform() < 0.5 else '') for i in range(nfile)]
    d.info['scale'] = r.uniform(0.5, 2.0, size=nfile)
    d.missing = MISSING[missing]
    d.planes = {'image': {}, 'weight': {}, 'seg': {}}
    for o in opts:
        d.planes[o] = {}
    d.weights = {k: {} for k in ('uberseg', 'cweight', 'cweight_nearest', 'cseg', 'cseg-canonical')}
    d.psfs = {} if psf else None
    d.cat['id'] = r.permutation(10 * n)[:n]
    d.cat['ncutout'] = counts
    for k in cols:
        d.cat[k] = r.randint(1, 1000, size=n) if k == 'number' else r.uniform(1, 50, size=n)
    for i in range(n):
        shape = (int(r.randint(4, 9)),) * 2
        for j in range(counts[i]):
            c = d.cat
            c['file_id'][i, j] = r.randint(nfile)
            for k in ('orig_row', 'orig_col'):
                c[k][i, j] = r.uniform(0, 4000)
            for k in ('orig_start_row', 'orig_start_col'):
                c[k][i, j] = r.randint(4000)
            for k in ('cutout_row', 'cutout_col'):
                c[k][i, j] = (shape[0] - 1) / 2 + r.uniform(-1, 1)
            m = np.array([[0.3, 0.0], [0.0, 0.3]]) + r.uniform(-0.1, 0.1, size=(2, 2))
            if r.uniform() < 0.3:
                m[1] *= -1
            c['dvdrow'][i, j], c['dvdcol'][i, j], c['dudrow'][i, j], c['dudcol'][i, j] = m.ravel()
            key = (i, j)
            d.planes['image'][key] = r.normal(size=shape).astype('f4')
            d.planes['seg'][key] = r.randint(0, 3, size=shape).astype('i4')
            base = r.uniform(0.5, 2.0, size=shape).astype('f4')
            d.planes['weight'][key] = base
            for k in d.weights:
                d.weights[k][key] = base * (r.uniform(size=shape) < 0.7)
                d.weights[k][key][r.randint(shape[0]), r.randint(shape[1])] = 3.5
            if r.uniform() < pmask:
                # all weights, or the weights of one kind, are zero
                which = KINDS if r.uniform() < 0.6 else [KINDS[r.randint(len(KINDS))]]
                for k in which:
                    w = d.planes['weight'] if k == 'weight' else d.weights[k]
                    w[key] = w[key] * 0
            if 'bmask' in opts:
                d.planes['bmask'][key] = r.randint(0, 2**20, size=shape).astype('i4')
            if 'ormask' in opts:
                d.planes['ormask'][key] = r.randint(0, 2**20, size=shape).astype('i4')
            if 'noise' in opts:
                d.planes['noise'][key] = r.normal(size=shape).astype('f4')
            if 'mfrac' in opts:
                d.planes['mfrac'][key] = r.uniform(size=shape).astype('f4')
            if psf:
                ps = (int(r.randint(4, 8)), int(r.randint(4, 8)))
                d.psfs[key] = r.uniform(0.01, 1.0, size=ps)
                c['psf_cutout_row'][i, j] = (ps[0] - 1) / 2 + r.uniform(-1, 1)
                c['psf_cutout_col'][i, j] = (ps[1] - 1) / 2 + r.uniform(-1, 1)
    return d


band = st.tuples(st.lists(st.sampled_from(OPT), max_size=4, unique=True), st.booleans(), st.lists(st.sampled_from(['flux_auto', 'x2', 'y2', 'number']), max_size=4, unique=True),
                 ints(0, 2), pick((1, st.just(0.0)), (3, fl(0.1, 0.8))), st.sampled_from(sorted(MISSING)), seeds)


def weight_of(d, kind, key):
    return (d.planes['weight'] if kind == 'weight' else d.weights[kind])[key]


def check_jac(j, c, i, k, row, col, what):
    exp = [c['dvdrow'][i, k], c['dvdcol'][i, k], c['dudrow'][i, k], c['dudcol'][i, k]]
    got = [j.dvdrow, j.dvdcol, j.dudrow, j.dudcol]
    close(got, exp, 0, 0, 'derivatives of the transform, ' + what)
    close([j.row0, j.col0], [row, col], 0, 0, 'center of the transform, ' + what)


def check_obs(obs, d, i, j, kind):
    c = d.cat
    key = (i, j)
    same(obs.image, d.planes['image'][key].astype('f8'), 'image')
    same(obs.weight, weight_of(d, kind, key).astype('f8'), kind + ' weight')
    for o in OPT:
        has = getattr(obs, 'has_' + o)()
        check(has == (o in d.planes), 'object %d cutout %d has %s: %r', i, j, o, has)
        if has:
            same(np.asarray(getattr(obs, o), dtype='f8'), d.planes[o][key].astype('f8'), o)
    check_jac(obs.jacobian, c, i, j, c['cutout_row'][i, j], c['cutout_col'][i, j], 'image')
    m = obs.meta
    f = c['file_id'][i, j]
    exp = dict(id=c['id'][i], index=i, icut=j, cutout_index=j, file_id=f, file_path=os.path.basename(str(d.info['image_path'][f])).strip(), scale=d.info['scale'][f])
    for k in ('orig_row', 'orig_col', 'orig_start_row', 'orig_start_col'):
        exp[k] = c[k][i, j]
    names = c.dtype.names
    if 'flux_auto' in names:
        exp['flux'] = c['flux_auto'][i]
    if 'x2' in names and 'y2' in names:
        exp['T'] = c['x2'][i] + c['y2'][i]
    if 'number' in names:
        exp['number'] = c['number'][i]
    for k in exp:
        check(k in m and m[k] == exp[k], 'metadata %r is %r, expected %r', k, m.get(k), exp[k])
    for k in ('flux', 'T', 'number'):
        check((k in m) == (k in exp), 'metadata %r present: %r', k, k in m)
    check(obs.has_psf() == (d.psfs is not None), 'psf present')
    if obs.has_psf():
        p = obs.psf
        same(p.image, d.psfs[key], 'psf image')
        check(np.isfinite(p.weight).all() and (p.weight > 0).all() and (p.weight == p.weight.flat[0]).all(), 'psf weight')
        check_jac(p.jacobian, c, i, j, c['psf_cutout_row'][i, j], c['psf_cutout_col'][i, j], 'psf')


def check_list(ol, d, i, kind):
    good = [j for j in range(d.cat['ncutout'][i]) if (weight_of(d, kind, (i, j)) > 0).any()]
    check(type(ol) is ngmix.ObsList, 'type %r', type(ol))
    check(len(ol) == len(good), 'object %d: %d observations, usable cutouts %r', i, len(ol), good)
    for obs, j in zip(ol, good):
        check_obs(obs, d, i, j, kind)
    names = d.cat.dtype.names
    check(('flux' in ol.meta) == (bool(good) and 'flux_auto' in names), 'flux in the metadata of the list')
    check(('T' in ol.meta) == (bool(good) and 'x2' in names and 'y2' in names), 'T in the metadata of the list')
    if 'flux' in ol.meta:
        check(ol.meta['flux'] == d.cat['flux_auto'][i], 'flux of the list')
    if 'T' in ol.meta:
        check(ol.meta['T'] == d.cat['x2'][i] + d.cat['y2'][i], 'T of the list')
    return len(good) < d.cat['ncutout'][i] and good


@R.law(st.tuples(ints(1, 5).flatmap(lambda n: st.lists(st.tuples(st.lists(ints(0, 4), min_size=n, max_size=n), band), min_size=1, max_size=3)),
                 st.lists(st.tuples(st.sampled_from(['obs', 'list', 'mb', 'mblist', 'mbsub', 'bad', 'psf', 'jac']), ints(0, 99), ints(0, 99), st.sampled_from(KINDS)), min_size=1, max_size=5)),
       quick=2500, thorough=40000, shards=3, rule='a usable and a fully masked cutout of the same object, or several bands')
def read(case, ctx):
    """every way of reading gives the observations of the cutouts asked for, in any order of requests"""
    bands, reqs = case
    ds = [generate(counts, *b) for counts, b in bands]
    ms = [NGMixMEDS(d) for d in ds]
    mm = MultiBandNGMixMEDS(ms)
    n = len(bands[0][0])
    check(mm.nband == len(bands) and mm.size == n and ms[0].size == n, 'numbers of bands and objects')
    cats = [d.cat.copy() for d in ds]
    nt = False

    def mb(b, i, kind):
        nonlocal nt
        check(type(b) is ngmix.MultiBandObsList and len(b) == len(ds), 'bands')
        for ol, d in zip(b, ds):
            nt |= bool(check_list(ol, d, i, kind))
    for what, a, b, kind in reqs:
        i = a % n
        k = b % len(ds)
        d, m = ds[k], ms[k]
        nc = d.cat['ncutout'][i]
        dflt = kind == 'weight' and b % 2
        ctx.label('%s %s' % (what, kind))
        kw = {} if dflt else dict(weight_type=kind)
        if what == 'obs':
            for j in reversed(range(nc)):
                if (weight_of(d, kind, (i, j)) > 0).any():
                    check_obs(m.get_obs(i, j, **kw), d, i, j, kind)
                else:
                    nt = True
                    raises(GMixFatalError, m.get_obs, i, j, **kw)
        elif what == 'list':
            nt |= bool(check_list(m.get_obslist(i, **kw), d, i, kind))
        elif what == 'mb':
            nt |= len(ds) > 1
            mb(mm.get_mbobs(i, **kw), i, kind)
        elif what == 'mblist':
            l = mm.get_mbobs_list(**kw)
            check(len(l) == n, 'number of objects')
            for q, x in enumerate(l):
                mb(x, q, kind)
        elif what == 'mbsub':
            ind = rng_of(a * 100 + b).randint(0, n, size=1 + a % 3)
            for form in (ind, ind.tolist()):
                l = mm.get_mbobs_list(indices=form, **kw)
                check(len(l) == len(ind), 'number of objects asked for')
                for q, x in zip(ind, l):
                    mb(x, q, kind)
            check(len(mm.get_mbobs_list(indices=[], **kw)) == 0, 'no objects asked for')
        elif what == 'bad':
            for bad in ('blah', 'WEIGHT', '', 'image', None):
                if nc > 0:
                    raises(ValueError, m.get_obs, i, 0, weight_type=bad)
                    raises(ValueError, m.get_obslist, i, weight_type=bad)
        elif what == 'psf':
            if d.psfs is not None:
                for j in range(nc):
                    p = m.get_psf_obs(i, j)
                    same(p.image, d.psfs[i, j], 'psf image')
                    check_jac(p.jacobian, d.cat, i, j, d.cat['psf_cutout_row'][i, j], d.cat['psf_cutout_col'][i, j], 'psf')
        else:
            for j in range(nc):
                check_jac(m.get_ngmix_jacobian(i, j), d.cat, i, j, d.cat['cutout_row'][i, j], d.cat['cutout_col'][i, j], 'image')
    for c, d in zip(cats, ds):
        same(d.cat, c, 'catalog')
    ctx.nontrivial(nt)


ASSUMPTIONS = ['the external package meds behaves as the in-memory stand-in: fresh arrays per call, an exception for an absent plane']
