"""C01: ellipticity conversions and reduced-shear algebra"""
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import disk, angles, fl
import ngmix
from ngmix import shape as S
from ngmix.shape import Shape
from ngmix.gexceptions import GMixRangeError

ORACLE = ('complex arithmetic: shear composition is the disk map (a + b) / (1 + conj(a) b), rotation is multiplication by a unit complex number, '
          'conversions go through the axis ratio; round trips and group laws')
R = Registry()
pairs = st.lists(disk(0.97, near1=True), min_size=1, max_size=6)


def z(g):
    return complex(g[0], g[1])


def tol(*gs):
    """condition of the disk maps grows like 1/(1-g)"""
    m = max([0.0] + [abs(z(g)) for g in gs])
    return 2e-14 / max(1e-9, 1 - m) ** 2 + 1e-12


@R.law(st.fixed_dictionaries(dict(g=pairs)), quick=2500, rule='a shape off the axes or near-unit; conversions scalar+array')
def conversions_roundtrip(case, ctx):
    """e, g and eta convert into each other without loss, scalars and arrays agree, Shape objects carry the same values"""
    gs = np.array(case['g'])
    ctx.nontrivial(np.any(np.hypot(gs[:, 0], gs[:, 1]) > 1e-3))
    # closed forms
    gsq = (gs**2).sum(axis=1)
    e_ref = 2 * gs / (1 + gsq)[:, None]
    ga = np.hypot(gs[:, 0], gs[:, 1])
    with np.errstate(all='ignore'):
        fac = np.where(ga > 0, 2 * np.arctanh(ga) / np.where(ga > 0, ga, 1), 2.0)
    eta_ref = gs * fac[:, None]
    t = tol(*case['g'])
    ea = S.g1g2_to_e1e2(gs[:, 0].copy(), gs[:, 1].copy())
    etaa = S.g1g2_to_eta1eta2(gs[:, 0].copy(), gs[:, 1].copy())
    close(ea[0], e_ref[:, 0], 1e-11, 1e-14, 'g->e array 1')
    close(ea[1], e_ref[:, 1], 1e-11, 1e-14, 'g->e array 2')
    close(etaa[0], eta_ref[:, 0], 1e-8, 1e-14, 'g->eta array 1')
    close(etaa[1], eta_ref[:, 1], 1e-8, 1e-14, 'g->eta array 2')
    back = S.e1e2_to_g1g2(ea[0].copy(), ea[1].copy())
    close(back[0], gs[:, 0], t, t, 'e->g array 1')
    close(back[1], gs[:, 1], t, t, 'e->g array 2')
    back = S.eta1eta2_to_g1g2(etaa[0].copy(), etaa[1].copy())
    close(back[0], gs[:, 0], 1e-11, 1e-13, 'eta->g array 1')
    close(back[1], gs[:, 1], 1e-11, 1e-13, 'eta->g array 2')
    eta2 = S.e1e2_to_eta1eta2(ea[0].copy(), ea[1].copy())
    t2 = 1e-3 if t > 1e-8 else 1e-6
    close(eta2[0], etaa[0], t2, 1e-12, 'e->eta array 1')
    close(eta2[1], etaa[1], t2, 1e-12, 'e->eta array 2')
    for i, (g1, g2) in enumerate(case['g']):
        close(S.g1g2_to_e1e2(g1, g2), [ea[0][i], ea[1][i]], 1e-12, 1e-15, 'g->e scalar')
        close(S.g1g2_to_eta1eta2(g1, g2), [etaa[0][i], etaa[1][i]], 1e-12, 1e-15, 'g->eta scalar')
        close(S.e1e2_to_g1g2(float(ea[0][i]), float(ea[1][i])), [g1, g2], t, t, 'e->g scalar')
        close(S.eta1eta2_to_g1g2(float(etaa[0][i]), float(etaa[1][i])), [g1, g2], 1e-11, 1e-13, 'eta->g scalar')
        close(S.e1e2_to_eta1eta2(float(ea[0][i]), float(ea[1][i])), [eta2[0][i], eta2[1][i]], 1e-12, 1e-15, 'e->eta scalar')


@R.law(st.fixed_dictionaries(dict(g=disk(0.9, near1=True), s=disk(0.9), t=disk(0.5))), quick=4000,
       rule='non-zero shape and shear')
def shear_group(case, ctx):
    """composition law of reduced shears, identity, inverse, |g| below one, inputs left alone"""
    g, s, t = case['g'], case['s'], case['t']
    zg, zs, zt = z(g), z(s), z(t)
    ctx.nontrivial(abs(zg) > 1e-3 and abs(zs) > 1e-3)
    ref = (zg + zs) / (1 + zs.conjugate() * zg)
    tl = 1e-12 / (1 - abs(zs)) ** 2
    o = S.shear_reduced(g[0], g[1], s[0], s[1])
    close(o, [ref.real, ref.imag], tl, tl, 'composition law')
    if abs(ref) < 1 - 1e-9:
        sh, ss = Shape(*g), Shape(*s)
        new = sh.get_sheared(ss)
        new2 = sh.get_sheared(s[0], s[1])
        close([new.g1, new.g2], [ref.real, ref.imag], tl, tl, 'Shape.get_sheared(Shape)')
        close([new2.g1, new2.g2], [ref.real, ref.imag], tl, tl, 'Shape.get_sheared(s1,s2)')
        close(new.g, abs(ref), tl, tl, '|g| attribute')
        check(0 <= new.g < 1, 'sheared |g|=%r', new.g)
        check((sh.g1, sh.g2) == tuple(g) and (ss.g1, ss.g2) == tuple(s), 'inputs changed')
        back = new.get_sheared(-ss)
        tb = 1e-11 / (1 - abs(zs)) ** 4 + tol(g)
        close([back.g1, back.g2], g, tb, tb, 'negated shear undoes')
        n = -ss
        check((n.g1, n.g2) == (-ss.g1, -ss.g2), 'negation')
        z0 = sh.get_sheared(0.0, 0.0)
        close([z0.g1, z0.g2], g, 1e-15, 1e-16, 'zero shear is the identity')
        f0 = Shape(0.0, 0.0).get_sheared(ss)
        close([f0.g1, f0.g2], s, 1e-15, 1e-16, 'shearing round gives the shear')
        c = sh.copy()
        check(c is not sh and (c.g1, c.g2, c.g) == (sh.g1, sh.g2, sh.g), 'copy')
        c.set_g1g2(t[0], t[1])
        check((sh.g1, sh.g2) == tuple(g), 'copy is not independent')
        close([c.g1, c.g2, c.g], [t[0], t[1], abs(zt)], 1e-14, 0, 'set_g1g2')
    raises(ValueError, Shape(*g).get_sheared, 0.1)
    # array form
    ga = np.array([g, t, [0.0, 0.0]])
    o = S.shear_reduced(ga[:, 0].copy(), ga[:, 1].copy(), s[0], s[1])
    for i in range(3):
        r = S.shear_reduced(ga[i, 0], ga[i, 1], s[0], s[1])
        close([o[0][i], o[1][i]], r, 1e-13, 1e-15, 'array shear')
    o = S.shear_reduced(t[0], t[1], ga[:, 0].copy(), ga[:, 1].copy())
    for i in range(3):
        close([o[0][i], o[1][i]], S.shear_reduced(t[0], t[1], ga[i, 0], ga[i, 1]), 1e-13, 1e-15, 'array shear (shear array)')


@R.law(st.fixed_dictionaries(dict(g=disk(0.9, near1=True), s=disk(0.9), th=angles(), ph=angles())), quick=3000,
       rule='non-zero shape and angle')
def rotation(case, ctx):
    """rotation is a spin-2 rotation, undone by the opposite one, and commutes with shearing by the rotated shear"""
    g, s, th, ph = case['g'], case['s'], case['th'], case['ph']
    zg, zs = z(g), z(s)
    ctx.nontrivial(abs(zg) > 1e-3 and abs(th) > 1e-3)
    rot = complex(math.cos(2 * th), -math.sin(2 * th))
    ref = zg * rot
    sh = Shape(*g)
    a = sh.get_rotated(th)
    close([a.g1, a.g2], [ref.real, ref.imag], 1e-13, 1e-14, 'rotation is spin 2')
    close(a.g, abs(zg), 1e-13, 1e-15, 'rotation keeps |g|')
    b = sh.copy()
    b.rotate(th)
    close([b.g1, b.g2, b.g], [a.g1, a.g2, a.g], 1e-14, 1e-15, 'in-place rotation')
    close(S.rotate_shape(g[0], g[1], th), [a.g1, a.g2], 1e-14, 1e-15, 'rotate_shape')
    o = S.rotate_shape(np.array([g[0], s[0]]), np.array([g[1], s[1]]), np.array([th, ph]))
    close([o[0][0], o[1][0]], [a.g1, a.g2], 1e-14, 1e-15, 'rotate_shape array')
    r2 = zs * complex(math.cos(2 * ph), -math.sin(2 * ph))
    close([o[0][1], o[1][1]], [r2.real, r2.imag], 1e-13, 1e-14, 'rotate_shape array 2')
    check((sh.g1, sh.g2) == tuple(g), 'input changed by get_rotated')
    c = a.get_rotated(ph)
    d = sh.get_rotated(th + ph)
    close([c.g1, c.g2], [d.g1, d.g2], 1e-12, 1e-13, 'rotations add')
    # commutes with shear by the rotated shear
    if abs((zg + zs) / (1 + zs.conjugate() * zg)) < 1 - 1e-9:
        ss = Shape(*s)
        one = sh.get_sheared(ss).get_rotated(th)
        two = a.get_sheared(ss.get_rotated(th))
        t = 1e-12 / (1 - abs(zs)) ** 2
        close([one.g1, one.g2], [two.g1, two.g2], t, t, 'rotation commutes with shear')


@R.law(st.fixed_dictionaries(dict(g=disk(0.8), s=disk(0.8))), quick=1500, rule='non-zero shear')
def jacobian_factor(case, ctx):
    """the area factor of a shear against the numerical derivative of the disk map"""
    g, s = case['g'], case['s']
    ctx.nontrivial(abs(z(s)) > 1e-3)
    j = S.dgs_by_dgo_jacob(g[0], g[1], s[0], s[1])
    h = 1e-5
    d = np.zeros((2, 2))
    for k in range(2):
        gp, gm = list(g), list(g)
        gp[k] += h
        gm[k] -= h
        op = S.shear_reduced(gp[0], gp[1], s[0], s[1])
        om = S.shear_reduced(gm[0], gm[1], s[0], s[1])
        d[:, k] = (np.array(op) - np.array(om)) / (2 * h)
    close(j, np.linalg.det(d), 1e-5 / (1 - abs(z(s))) ** 2, 1e-9, 'area factor vs numerical derivative')
    arr = S.dgs_by_dgo_jacob(np.array([g[0], s[0]]), np.array([g[1], s[1]]), s[0], s[1])
    close(arr[0], j, 1e-13, 0, 'array area factor')
    f = S.get_round_factor(g[0], g[1])
    gg = abs(z(g)) ** 2
    close(f, (1 - gg) / (1 + gg), 1e-14, 0, 'round factor')
    # the same factor from the e convention: sqrt(1-e^2)
    e1, e2 = S.g1g2_to_e1e2(g[0], g[1])
    close(f, math.sqrt(1 - e1**2 - e2**2), 1e-10, 0, 'round factor vs e')


@R.law(st.fixed_dictionaries(dict(
    good=st.lists(disk(0.9), min_size=0, max_size=4), pos=st.integers(0, 4), ang=angles(),
    mag=st.one_of(st.just(1.0), fl(1.0, 1.001), fl(1.0, 50.0)))), quick=1500, rule='a value outside the unit disk')
def out_of_range_rejected(case, ctx):
    """values outside the unit disk raise the documented range error, in every form and on assignment"""
    m, a = case['mag'], case['ang']
    g1, g2 = m * math.cos(a), m * math.sin(a)
    if np.sqrt(g1 * g1 + g2 * g2) < 1.0:
        # roundoff put it inside: use an exact unit vector
        g1, g2 = 1.0, 0.0
    ctx.nontrivial()
    raises(GMixRangeError, Shape, g1, g2, _msg='Shape')
    for fn in (S.g1g2_to_e1e2, S.e1e2_to_g1g2, S.g1g2_to_eta1eta2, S.e1e2_to_eta1eta2):
        raises(GMixRangeError, fn, g1, g2, _msg=fn.__name__)
        arr = [list(x) for x in case['good']]
        arr.insert(min(case['pos'], len(arr)), [g1, g2])
        arr = np.array(arr)
        raises(GMixRangeError, fn, arr[:, 0].copy(), arr[:, 1].copy(), _msg=fn.__name__ + ' array')
    raises(GMixRangeError, S.eta1eta2_to_g1g2, 1e3 * g1, 1e3 * g2, _msg='eta')
    # a rejected assignment leaves a valid shape
    s = Shape(0.1, -0.2)
    raises(GMixRangeError, s.set_g1g2, g1, g2)
    check(s.g1**2 + s.g2**2 < 1, 'rejected assignment left an out-of-range shape')
    close([s.g1, s.g2, s.g], [0.1, -0.2, math.hypot(0.1, 0.2)], 1e-14, 0, 'rejected assignment changed the shape')
    assert ngmix.GMixRangeError is GMixRangeError
