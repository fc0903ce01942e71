"""shared Hypothesis strategies and array expanders (pure functions of the case)"""
import math
import numpy as np
from vh import st, Skip, close


# Floats are built from raw bytes, which Hypothesis draws uniformly (st.floats
# and st.integers concentrate on a few simple values).
NG = 2**24 - 1
_raw = st.binary(min_size=3, max_size=3).map(lambda b: int.from_bytes(b, 'little'))


def fl(lo, hi):
    """floats in [lo, hi], close to uniform, plus the ends, zero and halves"""
    lo, hi = float(lo), float(hi)
    if lo < 0 < hi:
        # zigzag, so that shrinking goes to zero
        body = _raw.map(lambda k: (-lo if k & 1 else hi) * (k >> 1) / (NG >> 1) * (-1.0 if k & 1 else 1.0))
        special = [0.0, lo, hi, hi / 2, lo / 2]
    else:
        body = _raw.map(lambda k: min(hi, lo + (hi - lo) * k / NG))
        special = [lo, hi, 0.5 * (lo + hi)]
    return st.sampled_from(range(12)).flatmap(lambda i: body if i else st.sampled_from(special))


def logfl(lo, hi):
    """log-uniform positive floats"""
    a, b = math.log(lo), math.log(hi)
    return _raw.map(lambda k: float(min(max(math.exp(a + (b - a) * k / NG), lo), hi)))


def ints(lo, hi):
    """uniform integers"""
    return st.sampled_from(range(lo, hi + 1))


def pick(*weighted):
    """weighted choice of strategies; shrinks towards the first"""
    idx = []
    for k, (w, _) in enumerate(weighted):
        idx += [k] * w
    table = [s for _, s in weighted]
    return st.sampled_from(range(len(idx))).flatmap(lambda i: table[idx[i]])


def sign():
    return st.sampled_from([-1.0, 1.0])


seeds = _raw


def angles():
    return pick((1, ints(-8, 8).map(lambda k: k * math.pi / 4)), (4, fl(-7.0, 7.0)))


def disk(gmax=0.95, near1=False):
    """[g1, g2] with |g| <= gmax; axis aligned, zero and generic values"""
    mags = [(1, st.just(0.0)), (6, fl(0.0, gmax)), (2, logfl(1e-6, gmax))]
    if near1:
        mags.append((2, ints(1, 6).map(lambda k: 1.0 - 10.0**-k)))

    def mk(t):
        m, a = t
        g1, g2 = m * math.cos(a), m * math.sin(a)
        if abs(g1) < 1e-17:
            g1 = 0.0
        if abs(g2) < 1e-17:
            g2 = 0.0
        return [g1, g2]
    return st.tuples(pick(*mags), angles()).map(mk)


def rng_of(seed):
    return np.random.RandomState(seed)


# ------------------------------------------------------------------ jacobians

def jac(scale_lo=0.1, scale_hi=1.5, max_shear=0.3, flips=True):
    """
    dict of derivative matrix: row0/col0 are added by the users.
    Built from scale * rotation * shear * (optional flip), or diagonal, or unit
    """
    generic = st.tuples(
        logfl(scale_lo, scale_hi), angles(), disk(max_shear),
        st.booleans() if flips else st.just(False),
    ).map(_mk_jac)
    diag = logfl(scale_lo, scale_hi).map(lambda s: dict(dvdrow=s, dvdcol=0.0, dudrow=0.0, dudcol=s))
    unit = st.just(dict(dvdrow=1.0, dvdcol=0.0, dudrow=0.0, dudcol=1.0))
    return pick((1, unit), (1, diag), (6, generic))


def _mk_jac(t):
    s, th, (g1, g2), flip = t
    rot = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
    sh = np.array([[1 + g1, g2], [g2, 1 - g1]]) / math.sqrt(1 - g1 * g1 - g2 * g2)
    m = s * rot.dot(sh)
    if flip:
        m = m.dot(np.array([[1.0, 0.0], [0.0, -1.0]]))
    # order (v, u) x (row, col)
    return dict(dvdrow=float(m[0, 0]), dvdcol=float(m[0, 1]), dudrow=float(m[1, 0]), dudcol=float(m[1, 1]))


def make_jac(j, row, col):
    import ngmix
    return ngmix.Jacobian(row=row, col=col, **j)


def jmat(j):
    return np.array([[j['dvdrow'], j['dvdcol']], [j['dudrow'], j['dudcol']]])


def jdet(j):
    return j['dvdrow'] * j['dudcol'] - j['dvdcol'] * j['dudrow']


def vu(shape, j, row, col):
    """reference sky coordinates of all pixels, raster order, 2-d arrays"""
    rows, cols = np.mgrid[0:shape[0], 0:shape[1]].astype('f8')
    dr, dc = rows - row, cols - col
    v = j['dvdrow'] * dr + j['dvdcol'] * dc
    u = j['dudrow'] * dr + j['dudcol'] * dc
    return v, u


# ------------------------------------------------------------------ mixtures

def full_pars(nmin=1, nmax=4, cen=1.0, Tlo=0.3, Thi=8.0, emax=0.8, pos_flux=True, fluxhi=50.0):
    """6*n parameters of a general mixture"""
    one = st.tuples(
        logfl(0.1, fluxhi) if pos_flux else st.tuples(logfl(0.1, fluxhi), sign()).map(lambda t: t[0] * t[1]),
        fl(-cen, cen), fl(-cen, cen), logfl(Tlo, Thi), disk(emax),
    )

    def mk(comps):
        out = []
        for p, r, c, T, (e1, e2) in comps:
            out += [p, r, c, T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)]
        return out
    return st.lists(one, min_size=nmin, max_size=nmax).map(mk)


SIMPLE_MODELS = ['gauss', 'turb', 'exp', 'dev']


def ref_eval(pars, v, u):
    """reference surface brightness of full pars at (v, u): rows are v, cols u"""
    out = np.zeros(np.shape(v))
    pars = np.asarray(pars).reshape(-1, 6)
    for p, r, c, irr, irc, icc in pars:
        det = irr * icc - irc * irc
        dv, du = v - r, u - c
        chi2 = (icc * dv * dv - 2 * irc * dv * du + irr * du * du) / det
        out = out + p / (2 * np.pi * np.sqrt(det)) * np.exp(-0.5 * chi2)
    return out


def ref_convolve(pars, psf):
    """reference convolution: offsets from the psf mean position"""
    pars = np.asarray(pars, dtype='f8').reshape(-1, 6)
    psf = np.asarray(psf, dtype='f8').reshape(-1, 6)
    psum = psf[:, 0].sum()
    r0 = (psf[:, 0] * psf[:, 1]).sum() / psum
    c0 = (psf[:, 0] * psf[:, 2]).sum() / psum
    out = []
    for a in pars:
        for b in psf:
            out += [a[0] * b[0] / psum, a[1] + b[1] - r0, a[2] + b[2] - c0, a[3] + b[3], a[4] + b[4], a[5] + b[5]]
    return out


# ------------------------------------------------------------------ images

def dims(lo=5, hi=25):
    return st.tuples(ints(lo, hi), ints(lo, hi)).map(list)


def weights(shape, spec):
    """expand a weight spec {'kind','seed','frac','amp'} to a map"""
    r = rng_of(spec['seed'])
    kind = spec['kind']
    w = np.zeros(shape) + spec['amp']
    if kind in ('var', 'mask'):
        w *= r.uniform(0.3, 3.0, size=shape)
    if kind in ('mask', 'umask'):
        w[r.uniform(size=shape) < spec['frac']] = 0.0
    return w


def wspec(kinds=('flat', 'var', 'mask', 'umask'), amp=(0.1, 100.0)):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(list(kinds)), seed=seeds, frac=st.sampled_from([0.05, 0.3, 0.8]), amp=logfl(*amp)))


def need(cond):
    if not cond:
        raise Skip()


# ------------------------------------------------------------------ model tables
# Hogg & Lang (2013) decompositions, fluxes and sizes relative to the model T,
# as published with ngmix
TABLES = {
    'gauss': ([1.0], [1.0]),
    'turb': ([0.596510042804182, 0.4034898268889178, 1.303069003078001e-07],
             [0.5793612389470884, 1.621860687127999, 7.019347162356363]),
    'exp': ([0.00061601229677880041, 0.0079461395724623237, 0.053280454055540001, 0.21797364640726541,
             0.45496740582554868, 0.26521634184240478],
            [0.002467115141477932, 0.018147435573256168, 0.07944063151366336, 0.27137669897479122,
             0.79782256866993773, 2.1623306025075739]),
    'dev': ([6.5288960012625658e-05, 0.00044199216814302695, 0.0020859587871659754, 0.0075913681418996841,
             0.02260266219257237, 0.056532254390212859, 0.11939049233042602, 0.20969545753234975,
             0.29254151133139222, 0.28905301416582552],
            [2.9934935706271918e-07, 3.4651596338231207e-06, 2.4807910570562753e-05, 1.4307404300535354e-04,
             7.2753169298239500e-04, 3.4582464394427260e-03, 1.6086645440719100e-02, 7.7006776775654429e-02,
             4.1012562102501476e-01, 2.9812509778548648e00]),
}
MODEL_NPARS = {'gauss': 6, 'turb': 6, 'exp': 6, 'dev': 6, 'cm': 6, 'bd': 8, 'bdf': 7}
MODEL_NGAUSS = {'gauss': 1, 'turb': 3, 'exp': 6, 'dev': 10, 'cm': 16, 'bd': 16, 'bdf': 16}


def ref_model(model, pars, fracdev=None, TdByTe=None):
    """reference full parameters (n, 6) of a model"""
    pars = np.asarray(pars, dtype='f8')
    if model == 'full':
        return pars.reshape(-1, 6).copy()
    row, col, g1, g2 = pars[:4]
    gsq = g1 * g1 + g2 * g2
    e1, e2 = 2 * g1 / (1 + gsq), 2 * g2 / (1 + gsq)
    if model == 'coellip':
        n = (pars.size - 4) // 2
        T, p = pars[4:4 + n], pars[4 + n:]
    else:
        if model in TABLES:
            tp, tf = [np.array(x) for x in TABLES[model]]
            T, p = pars[4] * tf, pars[5] * tp
        else:
            if model == 'bd':
                TdByTe, fracdev, flux = 10.0**pars[5], pars[6], pars[7]
            elif model == 'bdf':
                TdByTe, fracdev, flux = 1.0, pars[5], pars[6]
            else:
                flux = pars[5]
            pe, fe = [np.array(x) for x in TABLES['exp']]
            pd, fd = [np.array(x) for x in TABLES['dev']]
            p = np.concatenate([(1 - fracdev) * pe, fracdev * pd])
            f = np.concatenate([fe, TdByTe * fd])
            T = pars[4] * f / (p * f).sum()
            p = flux * p
    out = np.zeros((len(p), 6))
    out[:, 0] = p
    out[:, 1], out[:, 2] = row, col
    out[:, 3], out[:, 4], out[:, 5] = T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)
    return out


def ref_moments(full):
    """flux, row, col, irr, irc, icc of the whole mixture"""
    f = np.asarray(full, dtype='f8').reshape(-1, 6)
    p = f[:, 0]
    s = p.sum()
    r, c = (p * f[:, 1]).sum() / s, (p * f[:, 2]).sum() / s
    dr, dc = f[:, 1] - r, f[:, 2] - c
    return (s, r, c, (p * (f[:, 3] + dr**2)).sum() / s, (p * (f[:, 4] + dr * dc)).sum() / s,
            (p * (f[:, 5] + dc**2)).sum() / s)


def model_case(cen=2.0, gmax=0.9, Tlo=0.1, Thi=20.0, flux=(0.1, 100.0), models=None, posT=True, wide=False):
    """{'model', 'pars', 'fracdev', 'TdByTe'} for any model"""
    models = models or ['gauss', 'turb', 'exp', 'dev', 'bd', 'bdf', 'cm', 'coellip', 'full']

    def pars_of(model):
        head = st.tuples(fl(-cen, cen), fl(-cen, cen), disk(gmax)).map(lambda t: [t[0], t[1], t[2][0], t[2][1]])
        T = logfl(Tlo, Thi)
        F = st.tuples(logfl(*flux), st.sampled_from([1.0, 1.0, 1.0, -1.0])).map(lambda t: t[0] * t[1])
        fd, lim = (fl(-0.5, 1.6), 4.0) if wide else (fl(0.0, 1.0), 1.0)
        if model in TABLES or model == 'cm':
            return st.tuples(head, T, F).map(lambda t: t[0] + [t[1], t[2]])
        if model == 'bd':
            return st.tuples(head, T, fl(-lim, lim), fd, F).map(lambda t: t[0] + list(t[1:]))
        if model == 'bdf':
            return st.tuples(head, T, fd, F).map(lambda t: t[0] + list(t[1:]))
        if model == 'coellip':
            return ints(1, 4).flatmap(lambda n: st.tuples(
                head, st.lists(T, min_size=n, max_size=n), st.lists(logfl(*flux), min_size=n, max_size=n)
            ).map(lambda t: t[0] + t[1] + t[2]))
        return full_pars(1, 4, cen=cen, Tlo=Tlo, Thi=Thi)

    def mk(model):
        d = dict(model=st.just(model), pars=pars_of(model))
        if model == 'cm':
            d['fracdev'] = fl(-0.5, 1.6) if wide else fl(0.0, 1.0)
            d['TdByTe'] = logfl(1e-4, 1e4) if wide else logfl(0.1, 10.0)
        return st.fixed_dictionaries(d)

    def sized(c):
        # the size of the whole has to stay positive for the parameters to make sense
        m = c['model']
        fd, rat = {'bd': lambda: (c['pars'][6], 10.0**c['pars'][5]), 'bdf': lambda: (c['pars'][5], 1.0),
                   'cm': lambda: (c['fracdev'], c['TdByTe'])}.get(m, lambda: (0.0, 1.0))()
        return 1 - fd + fd * rat > 0.05 * max(1.0, abs(fd) * rat)
    out = st.sampled_from(models).flatmap(mk)
    return out.filter(sized) if wide else out


def build(c):
    """the ngmix mixture of a model_case"""
    import ngmix
    from ngmix.gmix import GMixCM, GMixCoellip
    m = c['model']
    if m == 'cm':
        return GMixCM(c['fracdev'], c['TdByTe'], np.array(c['pars']))
    if m == 'coellip':
        return GMixCoellip(np.array(c['pars']))
    if m == 'full':
        return ngmix.GMix(pars=np.array(c['pars']))
    return ngmix.GMixModel(np.array(c['pars']), m)


def ref_of(c):
    return ref_model(c['model'], c['pars'], c.get('fracdev'), c.get('TdByTe'))


def sort_full(f):
    f = np.asarray(f, dtype='f8').reshape(-1, 6)
    return f[np.lexsort(f.T[::-1])]


# ------------------------------------------------------------------ errors of ratios

def rerr(s, c, i, j):
    v = c[i, i] / s[j]**2 + c[j, j] * s[i]**2 / s[j]**4 - 2 * c[i, j] * s[i] / s[j]**3
    t = c[i, i] / s[j]**2 + c[j, j] * s[i]**2 / s[j]**4 + 2 * abs(c[i, j] * s[i] / s[j]**3)
    return math.sqrt(max(v, 0)), math.sqrt(1e-10 * t)


def cerr(x, e, rtol, at, msg):
    """an error; a variance that is zero up to rounding may come out negative (nan)"""
    if not e > at and (np.isnan(x) or np.isnan(e)):
        return
    close(x, e, rtol, at, msg)
