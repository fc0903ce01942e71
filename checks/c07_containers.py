"""C07: observation containers and Fourier-space observations"""
import copy
import numpy as np
from vh import Registry, st, check, close, raises, same
from gen import fl, jac, seeds, rng_of, ints, make_jac, logfl
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.observation import make_kobs, get_kmb_obs, get_mb_obs, KObservation, KObsList, KMultiBandObsList

ORACLE = ('nested python lists as the model of the containers, sums recomputed from all member pixels, and for Fourier-space '
          'data an independently built galsim interpolated image plus a direct discrete Fourier sum')
R = Registry()
obs_s = st.fixed_dictionaries(dict(
    seed=seeds, shape=st.tuples(ints(2, 5), ints(2, 5)).map(list), mask=st.sampled_from(['none', 'some', 'some', 'all', 'negative']),
    psf=st.booleans(), tag=ints(0, 3)))


def warmup():
    Observation(np.ones((3, 3)), jacobian=ngmix.UnitJacobian(row=1, col=1))


def build(c):
    r = rng_of(c['seed'])
    shape = tuple(c['shape'])
    im = r.normal(size=shape)
    w = r.uniform(0.1, 2, size=shape)
    if c['mask'] == 'some':
        w[r.uniform(size=shape) < 0.4] = 0
    if c['mask'] == 'negative':
        w[r.uniform(size=shape) < 0.4] *= -1
    if c['mask'] == 'all':
        w[:] = 0
    psf = Observation(np.abs(im) + 1) if c['psf'] else None
    return Observation(im, weight=w, psf=psf, meta=dict(tag=c['tag']), ignore_zero_weight=False)


def fp(o):
    """fingerprint of an observation"""
    j = o.jacobian
    return (o.image.shape, o.image.tobytes(), o.weight.tobytes(), repr(sorted(o.meta.items())),
            (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol), fp(o.psf) if o.has_psf() else None)


def sums(flat):
    I = V = 0.0
    N = 0
    for o in flat:
        g = o.weight > 0
        I += o.image[g].sum()
        V += (1 / o.weight[g]).sum()
        N += int(g.sum())
    return I, V, N


def check_s2n(c, flat, msg):
    I, V, N = sums(flat)
    s = c.get_s2n_sums()
    close(s[0], I, 1e-9, 1e-11, msg + ' Isum')
    close(s[1], V, 1e-12, 0, msg + ' Vsum')
    check(s[2] == N, msg + ' Npix')
    if V > 0:
        close(c.get_s2n(), I / np.sqrt(V), 1e-9, 1e-10, msg + ' s2n')
    else:
        check(c.get_s2n() == -9999.0, msg + ' s2n without pixels')


ops = st.one_of(
    st.tuples(st.just('append'), ints(0, 5), obs_s),
    st.tuples(st.just('append'), ints(0, 5), obs_s),
    st.tuples(st.just('setobs'), ints(0, 5), ints(0, 5), obs_s),
    st.tuples(st.just('addband'), st.lists(obs_s, max_size=3)),
    st.tuples(st.just('setband'), ints(0, 5), st.lists(obs_s, max_size=3)),
    st.tuples(st.just('meta'), ints(-1, 5), ints(0, 9), st.sampled_from(['set', 'update'])),
    st.tuples(st.just('pop'), ints(0, 5)),
    st.tuples(st.just('edit'), ints(0, 5), ints(0, 5)),
    st.tuples(st.just('copy'), st.sampled_from(['copy', 'copy.copy', 'deepcopy'])),
    st.tuples(st.just('bad'), ints(0, 5)),
    st.tuples(st.just('s2n'),),
)


def snapshot(mb):
    return ([[fp(o) for o in ol] for ol in mb], [copy.deepcopy(dict(ol.meta)) for ol in mb], copy.deepcopy(dict(mb.meta)))


@R.law(st.fixed_dictionaries(dict(bands=st.lists(st.lists(obs_s, max_size=4), max_size=4), ops=st.lists(ops, max_size=12))),
       quick=1500, shards=4, rule='at least two bands or two epochs')
def list_history(case, ctx):
    """a model of nested lists is edited along with the containers; members, metadata, copies and S/N must agree after every step"""
    mb = MultiBandObsList(meta={'m': 0, 'n': [1]})
    model = []       # list of list of Observation (identity)
    metas = []
    top = {'m': 0, 'n': [1]}
    for b in case['bands']:
        ol = ObsList()
        row = []
        for c in b:
            o = build(c)
            ol.append(o)
            row.append(o)
        mb.append(ol)
        model.append(row)
        metas.append({})
    ctx.nontrivial(len(model) > 1 or any(len(r) > 1 for r in model))
    copies = []      # (copy, snapshot at copy time)
    for op in case['ops']:
        k = op[0]
        if k == 'append' and model:
            b = op[1] % len(model)
            o = build(op[2])
            mb[b].append(o)
            model[b].append(o)
        elif k == 'setobs' and model:
            b = op[1] % len(model)
            if model[b]:
                e = op[2] % len(model[b])
                o = build(op[3])
                mb[b][e] = o
                model[b][e] = o
        elif k in ('addband', 'setband'):
            ol = ObsList(meta={'z': 1, 'n': [2]})
            row = []
            for c in op[-1]:
                o = build(c)
                ol.append(o)
                row.append(o)
            if k == 'addband':
                mb.append(ol)
                model.append(row)
                metas.append({'z': 1, 'n': [2]})
            elif model:
                b = op[1] % len(model)
                mb[b] = ol
                model[b] = row
                metas[b] = {'z': 1, 'n': [2]}
        elif k == 'meta':
            if op[1] < 0 or not model:
                tgt, md = mb, top
            else:
                b = op[1] % len(model)
                tgt, md = mb[b], metas[b]
            if op[3] == 'set':
                tgt.set_meta({'s': op[2]})
                md.clear()
                md['s'] = op[2]
            else:
                tgt.update_meta_data({'u%d' % op[2]: op[2], 's': -op[2]})
                md.update({'u%d' % op[2]: op[2], 's': -op[2]})
        elif k == 'pop' and model:
            b = op[1] % len(model)
            if model[b]:
                o = mb[b].pop()
                check(o is model[b].pop(), 'pop')
        elif k == 'edit' and model:
            b = op[1] % len(model)
            if model[b]:
                o = mb[b][op[2] % len(model[b])]
                with o.writeable():
                    o.image[0, 0] += 1.0
        elif k == 'copy':
            c = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[1]](mb)
            check(type(c) is MultiBandObsList and all(type(x) is ObsList for x in c), 'types of the copy')
            check(bool(c == mb) and bool(mb == c), 'copy is equal')
            check(snapshot(c) == snapshot(mb), 'copy has other contents')
            for x, y in zip(c, mb):
                check(x is not y, 'epoch list shared with the copy')
                for p, q in zip(x, y):
                    check(p is not q, 'member shared with the copy')
            for b, ol in enumerate(mb):
                c1 = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[1]](ol)
                check(type(c1) is ObsList and bool(c1 == ol) and c1.meta == ol.meta and c1.meta is not ol.meta, 'ObsList copy')
                check([fp(x) for x in c1] == [fp(x) for x in ol], 'ObsList copy contents')
                check(not any(x is y for x, y in zip(c1, ol)), 'ObsList copy shares members')
            copies.append((c, snapshot(c)))
            for ol in mb:
                before = snapshot(mb)
                c1 = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[1]](ol)
                c1.meta.setdefault('n', []).append(9)
                for o in c1:
                    o.meta['q'] = 1
                check(snapshot(mb) == before, 'editing a copied epoch list changed the original')
            # editing a second copy has no effect on the original
            d = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[1]](mb)
            before = snapshot(mb)
            d.meta['q'] = 1
            d.meta.setdefault('n', []).append(9)
            for ol in d:
                ol.meta['q'] = 1
                ol.meta.setdefault('n', []).append(9)
                for o in ol:
                    o.meta['q'] = 1
                    o.image = o.image + 1
            check(snapshot(mb) == before, 'editing a copy changed the original')
        elif k == 'bad':
            before = snapshot(mb)
            raises(AssertionError, mb.append, build(dict(seed=1, shape=[2, 2], mask='none', psf=False, tag=0)))
            raises(AssertionError, mb.append, [1])
            raises(TypeError, mb.set_meta, [3])
            raises(TypeError, mb.update_meta_data, [3])
            if model:
                b = op[1] % len(model)
                raises(AssertionError, mb[b].append, 'x')
                raises(AssertionError, mb[b].append, ObsList())
                raises(AssertionError, mb.__setitem__, b, [1, 2])
                raises(AssertionError, mb.__setitem__, b, MultiBandObsList())
                if model[b]:
                    raises(AssertionError, mb[b].__setitem__, 0, 3.0)
            check(snapshot(mb) == before, 'rejected edit changed the list')
        elif k == 's2n':
            check_s2n(mb, [o for r in model for o in r], 'during')
    # the members are exactly those put in, in order
    check(len(mb) == len(model), 'number of bands')
    check(mb.meta == top, 'top metadata %r %r', mb.meta, top)
    for ol, row, md in zip(mb, model, metas):
        check(type(ol) is ObsList and len(ol) == len(row) and all(x is y for x, y in zip(ol, row)), 'members')
        check(ol.meta == md, 'band metadata')
        check_s2n(ol, row, 'band')
    check_s2n(mb, [o for r in model for o in r], 'all')
    check(get_mb_obs(mb) is mb, 'band list is returned as is')
    for b, ol in enumerate(mb):
        n = get_mb_obs(ol)
        check(type(n) is MultiBandObsList and len(n) == 1 and n[0] is ol, 'normalised epoch list')
        for o in ol:
            n = get_mb_obs(o)
            check(type(n) is MultiBandObsList and len(n) == 1 and type(n[0]) is ObsList and len(n[0]) == 1 and n[0][0] is o,
                  'normalised observation')
    for c, snap in copies:
        check(snapshot(c) == snap, 'a copy changed with the original')
    raises(ValueError, get_mb_obs, [1])


@R.law(st.fixed_dictionaries(dict(
    bands=st.lists(st.lists(obs_s, min_size=1, max_size=3), min_size=1, max_size=3), b=ints(0, 5), e=ints(0, 5),
    how=st.sampled_from(['image', 'weight', 'meta', 'psf', 'shape', 'dropobs', 'addobs', 'dropband', 'addband', 'swap', 'none']))),
       quick=1200, rule='lists differing in one member')
def equality(case, ctx):
    """containers differing in one member, or in length, are unequal"""
    def mk():
        mb = MultiBandObsList()
        for row in case['bands']:
            ol = ObsList()
            for c in row:
                ol.append(build(c))
            mb.append(ol)
        return mb
    p, q = mk(), mk()
    check(bool(p == q) and not bool(p != q), 'equal lists')
    b = case['b'] % len(q)
    e = case['e'] % len(q[b])
    o = q[b][e]
    how = case['how']
    ctx.nontrivial(how != 'none')
    if how in ('image', 'weight'):
        with o.writeable():
            getattr(o, how)[0, 0] += 1
    elif how == 'meta':
        o.meta['tag'] = 99
    elif how == 'psf':
        if o.has_psf():
            o.psf = None
        else:
            o.psf = Observation(np.ones((2, 2)))
    elif how == 'shape':
        q[b][e] = Observation(np.ones((o.image.shape[0] + 1, o.image.shape[1])))
    elif how == 'dropobs':
        q[b].pop(e)
    elif how == 'addobs':
        q[b].append(build(case['bands'][b][e]))
    elif how == 'dropband':
        q.pop(b)
    elif how == 'addband':
        q.append(ObsList())
    elif how == 'swap':
        flat = [fp(x) for x in q[b]]
        q[b].reverse()
        if [fp(x) for x in q[b]] == flat:
            check(bool(p == q), 'same order')
            return
    eq = how == 'none'
    check(bool(p == q) == eq and bool(q == p) == eq and bool(p != q) == (not eq), 'lists differing in %s: ==%s', how, bool(p == q))
    if how not in ('dropband', 'addband'):
        check(bool(p[b] == q[b]) == eq and bool(p[b] != q[b]) == (not eq), 'epoch lists differing in %s', how)
    raises(ValueError, lambda: p == 3)
    raises(ValueError, lambda: p[0] == 3)


kobs_s = st.fixed_dictionaries(dict(
    bands=st.lists(st.lists(st.fixed_dictionaries(dict(
        n=st.lists(ints(9, 20), min_size=2, max_size=2), pn=ints(9, 18), j=jac(0.2, 0.4, 0.1), seed=seeds, T=logfl(0.2, 1.0), psf=st.booleans(),
        wt=logfl(0.1, 100), off=st.tuples(fl(-1, 1), fl(-1, 1)).map(list))), min_size=1, max_size=2), min_size=1, max_size=3),
    level=st.sampled_from(['obs', 'list', 'mb'])))


@R.law(kobs_s, quick=100, shards=4, rule='more than one observation or a PSF')
def fourier_observations(case, ctx):
    """Fourier-space observations are the transform of the image with matching weights and coordinate transform"""
    import galsim
    bands = case['bands']
    if case['level'] == 'obs':
        bands = [bands[0][:1]]
    elif case['level'] == 'list':
        bands = bands[:1]
    mb = MultiBandObsList()
    for row in bands:
        ol = ObsList()
        for c in row:
            r = rng_of(c['seed'])
            nr, nc = c['n']
            cen = [(nr - 1) / 2 + c['off'][0], (nc - 1) / 2 + c['off'][1]]
            jo = make_jac(c['j'], *cen)
            im = ngmix.GMixModel([0, 0, 0.1, 0.05, c['T'], 10.0], 'gauss').make_image((nr, nc), jacobian=jo)
            im = im + r.normal(scale=0.01 * im.max(), size=im.shape)
            w = np.zeros(im.shape) + c['wt']
            w[r.uniform(size=im.shape) < 0.2] *= 0.5
            psf = None
            if c['psf']:
                pj = make_jac(c['j'], (c['pn'] - 1) / 2, (c['pn'] - 1) / 2)
                pim = 3.0 * ngmix.GMixModel([0, 0, 0.0, 0.02, 0.3, 1.0], 'gauss').make_image((c['pn'], c['pn']), jacobian=pj)
                psf = Observation(pim, weight=np.full(pim.shape, 5 * c['wt']), jacobian=pj, meta=dict(p=1))
            ol.append(Observation(im, weight=w, jacobian=jo, psf=psf, meta=dict(tag=c['seed'])))
        mb.append(ol)
    flat = [(o, c) for ol, row in zip(mb, bands) for o, c in zip(ol, row)]
    before = [fp(o) for o, _ in flat]
    inp = {'obs': mb[0][0], 'list': mb[0], 'mb': mb}[case['level']]
    k = make_kobs(inp)
    check([fp(o) for o, _ in flat] == before, 'inputs changed')
    check(type(k) is KMultiBandObsList and [len(x) for x in k] == [len(x) for x in mb] and all(type(x) is KObsList for x in k), 'structure')
    ctx.nontrivial(len(flat) > 1 or flat[0][0].has_psf())
    kflat = [ko for kl in k for ko in kl]
    dims = set(ko.kimage.array.shape for ko in kflat)
    scales = set(ko.kimage.scale for ko in kflat)
    check(len(dims) == 1 and len(scales) == 1, 'dimensions or spacing differ between observations')
    dim = kflat[0].kimage.array.shape[0]
    dk = kflat[0].kimage.scale

    def ref_k(im, j, norm):
        wcs = galsim.JacobianWCS(j['dudcol'], j['dudrow'], j['dvdcol'], j['dvdrow'])
        ii = galsim.InterpolatedImage(galsim.Image(np.array(im) / norm, wcs=wcs), x_interpolant='lanczos15')
        return ii.drawKImage(nx=dim, ny=dim, scale=dk).array, ii

    # dimensions large enough for every one
    for (o, c), ko in zip(flat, kflat):
        check(ko.kimage.array.shape == (dim, dim) and dim % 2 == 1, 'dimensions')
        ref, ii = ref_k(o.image, c['j'], 1.0)
        close(ko.kimage.array, ref, 1e-7, 1e-7 * np.abs(ref).max(), 'transform')
        # zero frequency is the total flux, at the center of the coordinate system
        c0 = (int(round(ko.jacobian.row0)), int(round(ko.jacobian.col0)))
        close(ko.kimage.array[c0].real, o.image.sum(), 1e-3, 1e-3 * np.abs(o.image).sum(), 'zero frequency')
        close([ko.jacobian.row0, ko.jacobian.col0], [(dim - 1) / 2, (dim - 1) / 2], 1e-12, 0, 'center')
        close([ko.jacobian.dvdrow, ko.jacobian.dudcol, ko.jacobian.dvdcol, ko.jacobian.dudrow], [dk, dk, 0, 0], 1e-12, 0, 'spacing')
        # low frequencies against a direct Fourier sum about the image center
        M = np.array([[c['j']['dvdrow'], c['j']['dvdcol']], [c['j']['dudrow'], c['j']['dudcol']]])
        nr, nc = o.image.shape
        rr, cc = np.mgrid[0:nr, 0:nc]
        # galsim's center of an even image is half a pixel up
        dr, dc = rr - (nr - 1) / 2, cc - (nc - 1) / 2
        v = M[0, 0] * dr + M[0, 1] * dc
        u = M[1, 0] * dr + M[1, 1] * dc
        for a, b in ((1, 0), (0, 1), (1, -1)):
            d = (o.image * np.exp(-1j * dk * (a * v + b * u))).sum()
            check(abs(ko.kimage.array[c0[0] + a, c0[1] + b] - d) < 0.02 * np.abs(o.image).sum(), 'low frequency vs direct sum')
        close(ko.weight.array, np.full((dim, dim), 0.5 * o.weight.max() / dim**2), 1e-9, 0, 'weight')
        check(ko.meta['tag'] == o.meta['tag'], 'metadata')
        close(ko.meta['scale'], o.jacobian.scale, 1e-9, 0, 'meta scale')
        same(np.array(ko.meta['realspace_gsimage'].array), np.array(o.image), 'meta image')
        check(ko.has_psf() == o.has_psf(), 'psf')
        if o.has_psf():
            pref, _ = ref_k(o.psf.image, c['j'], o.psf.image.sum())
            close(ko.psf.kimage.array, pref, 1e-7, 1e-7 * np.abs(pref).max(), 'psf transform')
            close(ko.psf.kimage.array[c0].real, 1.0, 1e-3, 0, 'psf is normalised')
            close(ko.psf.weight.array, np.full((dim, dim), 0.5 * o.psf.weight.max() / dim**2), 1e-9, 0, 'psf weight')
            check(ko.psf.meta['p'] == 1, 'psf metadata')
    # containers
    check(get_kmb_obs(k) is k, 'kmb as is')
    kl = get_kmb_obs(k[0])
    check(type(kl) is KMultiBandObsList and kl[0] is k[0] and len(kl) == 1, 'kmb from list')
    kk = get_kmb_obs(k[0][0])
    check(type(kk) is KMultiBandObsList and type(kk[0]) is KObsList and kk[0][0] is k[0][0], 'kmb from single')
    raises(ValueError, get_kmb_obs, 3)
    raises(AssertionError, k.append, k[0][0])
    raises(AssertionError, k[0].append, mb[0][0])
    raises(AssertionError, k[0].__setitem__, 0, 1)
    raises(AssertionError, k.__setitem__, 0, mb[0])
    # a psf of another size is rejected and not kept
    flat, upright = [KObservation(galsim.Image(np.zeros(s_, dtype='c16'), scale=dk)) for s_ in ((4, 6), (6, 4))]
    raises(ValueError, flat.set_psf, upright)
    check(not flat.has_psf(), 'psf of another shape kept')
    small = KObservation(galsim.Image(np.zeros((5, 5), dtype='c16'), scale=dk))
    o0 = k[0][0]
    had = o0.has_psf() and o0.psf
    if dim != 5:
        raises(ValueError, o0.set_psf, small)
        check((o0.has_psf() and o0.psf) is had, 'rejected psf was kept')
    o0.set_psf(None)
    check(not o0.has_psf(), 'psf removed')
    raises(ValueError, KObservation, np.zeros((3, 3)))
    raises(ValueError, KObservation, galsim.Image(np.zeros((3, 3)), scale=1.0))
    kb = KObservation(galsim.Image(np.zeros((4, 3), dtype='c16'), scale=0.3))
    close(kb.weight.array, np.ones((4, 3)), 0, 0, 'default weight')
    close([kb.jacobian.row0, kb.jacobian.col0, kb.jacobian.scale], [2.0, 1.0, 0.3], 1e-12, 0, 'default transform')
    raises(ValueError, KObservation, kb.kimage, weight=galsim.Image(np.zeros((3, 3)), scale=0.3))
    assert KObservation
