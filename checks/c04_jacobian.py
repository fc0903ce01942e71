"""C04: pixel/sky coordinate transforms"""
import copy
import math
import numpy as np
from vh import Registry, st, check, close, raises
from gen import fl, logfl, jac, jmat, jdet, seeds, rng_of, ints
import ngmix
from ngmix import Jacobian, DiagonalJacobian, UnitJacobian

ORACLE = ('the affine map M (p - cen) computed with numpy from the drawn matrix, and galsim JacobianWCS; '
          'a plain dict model for edit histories')
R = Registry()
cens = st.tuples(fl(-50, 50), fl(-50, 50)).map(list)
jacs = jac(0.02, 30.0, 0.6)


def warmup():
    j = UnitJacobian(row=0, col=0)
    j.get_vu(1.0, 2.0)
    j.get_rowcol(1.0, 2.0)
    j.get_vu(np.zeros(2), np.zeros(2))
    j.get_rowcol(np.zeros(2), np.zeros(2))
    j(1, 2)


def build(how, j, row, col):
    if how == 'rowcol':
        return Jacobian(row=row, col=col, **j)
    xy = dict(dvdy=j['dvdrow'], dvdx=j['dvdcol'], dudy=j['dudrow'], dudx=j['dudcol'])
    if how == 'xy':
        return Jacobian(x=col, y=row, **xy)
    import galsim
    wcs = galsim.JacobianWCS(xy['dudx'], xy['dudy'], xy['dvdx'], xy['dvdy'])
    if how == 'wcs_rc':
        return Jacobian(row=row, col=col, wcs=wcs)
    return Jacobian(x=col, y=row, wcs=wcs)


def same_map(jo, M, row, col, msg):
    close([jo.dvdrow, jo.dvdcol, jo.dudrow, jo.dudcol], M.ravel(), 1e-14, 0, msg + ' elements')
    close(jo.cen, [row, col], 1e-14, 0, msg + ' center')
    close([jo.row0, jo.col0], [row, col], 1e-14, 0, msg + ' row0/col0')
    det = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    dt = 1e-12 * (abs(M[0, 0] * M[1, 1]) + abs(M[0, 1] * M[1, 0]))
    close(jo.det, det, 1e-12, dt, msg + ' det')
    close(jo.scale, math.sqrt(abs(det)), 1e-9, 0, msg + ' scale')
    close(jo.area, abs(det), 1e-9, 0, msg + ' area')
    close([jo.get_dvdrow(), jo.get_dvdcol(), jo.get_dudrow(), jo.get_dudcol()], M.ravel(), 1e-14, 0, msg + ' getters')
    close([jo.get_det(), jo.get_scale(), jo.get_area()], [jo.det, jo.scale, jo.area], 1e-14, 0, msg + ' getters')
    close([jo.get_row0(), jo.get_col0()], [row, col], 1e-14, 0, msg + ' getters')


@R.law(st.fixed_dictionaries(dict(j=jacs, cen=cens, seed=seeds, n=ints(1, 6),
                                  how=st.sampled_from(['rowcol', 'xy', 'wcs_rc', 'wcs_xy']))),
       quick=2500, rule='a matrix with non-zero off-diagonal elements')
def affine_map(case, ctx):
    """pixel to sky and back are the affine map of the matrix, for scalars and arrays, in row/col and x/y form, and through galsim"""
    j, (row, col) = case['j'], case['cen']
    M = jmat(j)
    ctx.nontrivial(M[0, 1] != 0 and M[1, 0] != 0)
    jo = build(case['how'], j, row, col)
    same_map(jo, M, row, col, case['how'])
    r = rng_of(case['seed'])
    pts = r.uniform(-100, 100, size=(case['n'], 2))
    ref = (pts - [row, col]).dot(M.T)
    s = jo.scale
    at = 1e-11 * s * 200
    vu = jo.get_vu(pts[:, 0].copy(), pts[:, 1].copy())
    close(np.array(vu).T, ref, 1e-12, at, 'get_vu array')
    vu2 = jo(pts[:, 0].copy(), pts[:, 1].copy())
    close(np.array(vu2), np.array(vu), 1e-14, 0, 'call')
    rc = jo.get_rowcol(vu[0], vu[1])
    close(np.array(rc).T, pts, 1e-9, 1e-7, 'sky to pixel inverts pixel to sky')
    sky = r.uniform(-10, 10, size=(case['n'], 2)) * s
    rc = jo.get_rowcol(sky[:, 0].copy(), sky[:, 1].copy())
    refrc = np.linalg.solve(M, sky.T).T + [row, col]
    close(np.array(rc).T, refrc, 1e-9, 1e-8, 'get_rowcol')
    back = jo.get_vu(*rc)
    close(np.array(back).T, sky, 1e-8, 1e-7 * s, 'pixel to sky inverts sky to pixel')
    for i in range(case['n']):
        close(jo.get_vu(float(pts[i, 0]), float(pts[i, 1])), ref[i], 1e-12, at, 'scalar get_vu')
        close(jo.get_rowcol(float(sky[i, 0]), float(sky[i, 1])), refrc[i], 1e-9, 1e-8, 'scalar get_rowcol')
    close(jo.get_vu(row, col), [0, 0], 0, 1e-12 * s, 'center maps to the origin')
    close(jo.get_rowcol(0.0, 0.0), [row, col], 1e-14, 0, 'origin maps to the center')
    # the external library sees the same map: x=col, y=row, offsets from the center
    wcs = jo.get_galsim_wcs()
    import galsim
    for i in range(case['n']):
        p = wcs.toWorld(galsim.PositionD(pts[i, 1] - col, pts[i, 0] - row))
        close([p.y, p.x], ref[i], 1e-10, at, 'galsim wcs map')
    jw = Jacobian(row=row, col=col, wcs=wcs)
    check(bool(jw == jo), 'wcs round trip')
    # all constructors describe the same transform
    for how in ('rowcol', 'xy', 'wcs_rc', 'wcs_xy'):
        o = build(how, j, row, col)
        check(bool(o == jo), 'constructor %s differs from %s' % (how, case['how']))


@R.law(st.fixed_dictionaries(dict(scale=logfl(1e-3, 1e3), cen=cens, xy=st.booleans())), quick=600, rule='scale other than 1')
def diagonal_and_unit(case, ctx):
    """special transforms are the general one with that matrix"""
    row, col = case['cen']
    s = case['scale']
    ctx.nontrivial(abs(s - 1) > 1e-3)
    kw = dict(x=col, y=row) if case['xy'] else dict(row=row, col=col)
    same_map(DiagonalJacobian(scale=s, **kw), np.diag([s, s]), row, col, 'diagonal')
    same_map(DiagonalJacobian(**kw), np.diag([1.0, 1.0]), row, col, 'diagonal default')
    same_map(UnitJacobian(**kw), np.diag([1.0, 1.0]), row, col, 'unit')
    check(bool(DiagonalJacobian(scale=s, **kw) == Jacobian(row=row, col=col, dvdrow=s, dvdcol=0, dudrow=0, dudcol=s)), 'equal')
    for f in (DiagonalJacobian, UnitJacobian, Jacobian):
        raises(ValueError, f, _msg='no center')
    raises(AssertionError, DiagonalJacobian, x=1.0)
    raises(AssertionError, DiagonalJacobian, row=1.0)


@R.law(st.fixed_dictionaries(dict(j=jacs, cen=cens, drop=ints(0, 4), xy=st.booleans())), quick=300, rule='missing keyword')
def incomplete_rejected(case, ctx):
    """definitions with a missing keyword are rejected"""
    ctx.nontrivial()
    j, (row, col) = case['j'], case['cen']
    if case['xy']:
        kw = dict(y=row, dvdy=j['dvdrow'], dvdx=j['dvdcol'], dudy=j['dudrow'], dudx=j['dudcol'])
        first = dict(x=col)
    else:
        kw = dict(col=col, **j)
        first = dict(row=row)
    name = sorted(kw)[case['drop']]
    del kw[name]
    raises(ValueError, Jacobian, **first, **kw, _msg='missing ' + name)
    o = UnitJacobian(row=0, col=0)
    raises(ValueError, o.set_cen)
    raises(ValueError, lambda: o == 3)


ops = st.one_of(
    st.tuples(st.just('new'), jacs, cens),
    st.tuples(st.just('copy'), ints(0, 9), st.sampled_from(['copy', 'copy.copy', 'deepcopy'])),
    st.tuples(st.just('cen_rc'), ints(0, 9), cens),
    st.tuples(st.just('cen_xy'), ints(0, 9), cens),
    st.tuples(st.just('eq'), ints(0, 9), ints(0, 9)),
    st.tuples(st.just('map'), ints(0, 9), cens),
)


@R.law(st.fixed_dictionaries(dict(j=jacs, cen=cens, ops=st.lists(ops, min_size=1, max_size=14))), quick=2000,
       rule='a copy followed by an edit')
def edit_history(case, ctx):
    """model: each object is (matrix, row, col)"""
    pool = [Jacobian(row=case['cen'][0], col=case['cen'][1], **case['j'])]
    model = [[jmat(case['j']), case['cen'][0], case['cen'][1]]]
    copied = edited = False
    for op in case['ops']:
        k = op[0]
        if k == 'new':
            pool.append(Jacobian(row=op[2][0], col=op[2][1], **op[1]))
            model.append([jmat(op[1]), op[2][0], op[2][1]])
        elif k == 'copy':
            i = op[1] % len(pool)
            o = {'copy': lambda x: x.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}[op[2]](pool[i])
            check(o is not pool[i] and isinstance(o, Jacobian), 'copy')
            check(bool(o == pool[i]), 'copy is equal')
            pool.append(o)
            model.append([model[i][0].copy(), model[i][1], model[i][2]])
            copied = True
        elif k in ('cen_rc', 'cen_xy'):
            i = op[1] % len(pool)
            if k == 'cen_rc':
                pool[i].set_cen(row=op[2][0], col=op[2][1])
            else:
                pool[i].set_cen(x=op[2][1], y=op[2][0])
            model[i][1], model[i][2] = op[2]
            edited = edited or copied
        elif k == 'eq':
            i, l = op[1] % len(pool), op[2] % len(pool)
            exp = np.array_equal(model[i][0], model[l][0]) and model[i][1:] == model[l][1:]
            check(bool(pool[i] == pool[l]) == exp, 'equality %s', exp)
            check(bool(pool[i] != pool[l]) == (not exp), 'inequality')
        else:
            i = op[1] % len(pool)
            vu = pool[i].get_vu(op[2][0], op[2][1])
            ref = model[i][0].dot(np.array(op[2]) - model[i][1:])
            close(vu, ref, 1e-10, 1e-9 * pool[i].scale, 'map after edits')
    ctx.nontrivial(copied and edited)
    for o, (M, row, col) in zip(pool, model):
        same_map(o, M, row, col, 'after history')
        vu = o.get_vu(1.0, 2.0)
        close(vu, M.dot([1.0 - row, 2.0 - col]), 1e-10, 1e-9 * o.scale, 'map at the end')
        rc = o.get_rowcol(*vu)
        close(rc, [1.0, 2.0], 1e-8, 1e-7, 'inverse at the end')


@R.law(st.fixed_dictionaries(dict(j=jacs, cen=cens, which=ints(0, 5), step=st.sampled_from(['ulp', 'tiny', 'some', 'sign']), det=st.booleans())), quick=1000, rule='one element differs')
def unequal(case, ctx):
    """transforms that differ in any one element, by however little, or have the same area but another matrix, are not equal"""
    v = [case['cen'][0], case['cen'][1]] + [case['j'][k] for k in ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')]
    w = list(v)
    i = case['which']
    x = w[i]
    w[i] = {'ulp': np.nextafter(x, 1e9), 'tiny': x * (1 + 1e-12) + 1e-13, 'some': x + 0.25, 'sign': -x}[case['step']]
    if case['det']:
        # the same determinant with another matrix: a row times f, the other divided by it, or a shear
        w = list(v)
        if i % 2:
            w[2:] = [2 * v[2], 2 * v[3], v[4] / 2, v[5] / 2]
        else:
            w[2:] = [v[2], v[3], v[4] + v[2], v[5] + v[3]]
    if w == v:
        return

    def make(q):
        return Jacobian(row=q[0], col=q[1], dvdrow=q[2], dvdcol=q[3], dudrow=q[4], dudcol=q[5])
    a, b = make(v), make(w)
    ctx.nontrivial()
    check(bool(a == make(v)) and not bool(a != make(v)), 'the same values are not equal')
    check(not bool(a == b) and not bool(b == a) and bool(a != b), 'equal although %s and %s', v, w)
    b.set_cen(row=v[0], col=v[1])
    check(bool(a == b) == (w[2:] == v[2:]), 'after the center was made the same')


@R.law(st.fixed_dictionaries(dict(j=jacs, cen=cens)), quick=300, rule='repr evaluates')
def repr_roundtrip(case, ctx):
    """the text form evaluates to the same transform"""
    ctx.nontrivial()
    o = Jacobian(row=case['cen'][0], col=case['cen'][1], **case['j'])
    try:
        p = eval(repr(o), dict(ngmix=ngmix, np=np))
    except Exception:
        return
    check(bool(p == o), 'repr describes another transform')
    assert jdet(case['j']) != 0
