"""C04: segment solutions satisfy the beam and foundation equations."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M
from vlib.model import S, R, P
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Gated value numbering of the closed-form segment solution: the terms the code computes for u..psi\' and the '
        'section forces are differentiated as terms and compared (normal form) with force and moment equilibrium of the '
        'slab, its weak-layer tractions, weight at the centre of gravity and surface load at the top; dz_dx/dz_dxdx and '
        'derivatives offered by the API are compared with the derivatives of that solution.')


def flat(v):
    return [x for x in (v.ravel().tolist() if isinstance(v, np.ndarray) else [v])]


def forces(it, m, Z):
    c = lambda n, *a, **k: flat(M.call(it, m, n, Z, *a, **k))[0]
    return dict(N=c('N'), M=c('M'), V=c('V'), sig=c('sig'), tau=c('tau'))


def residuals(F, dF, Z, dZ, bed, qn, qt, pn, pt, m):
    """Equilibrium and kinematic residuals from section forces F, derivatives dF."""
    a = m.attrs
    h, t, zs = a['h'], a['t'], a['zs']
    s, ta = (F['sig'], F['tau']) if bed else (0, 0)
    return [
        ("N' = tau - (qt + pt)", dF['N'] - ta + qt + pt),
        ("V' = -sig - (qn + pn)", dF['V'] + s + qn + pn),
        ("M' = V + tau (h+t)/2 + pt h/2 - qt zs", dF['M'] - F['V'] - (h + t) / 2 * ta - h * pt / 2 + qt * zs),
        ("Z[1] = u'", dZ[0] - Z[1]), ("Z[3] = w'", dZ[2] - Z[3]), ("Z[5] = psi'", dZ[4] - Z[5])]


def check(ck):
    qn, qt, pn, pt = R('qn'), R('qt'), R('pn'), R('pt')
    x, l, phi = R('x'), P('l'), R('phi')

    def run(tag, Z, it, m, bed, hom, subs=None):
        Zl = flat(Z)
        dZ = [sp.diff(e, x) for e in map(sp.sympify, Zl)]
        F = forces(it, m, Z)
        dF = {k: sp.diff(sp.sympify(v), x) for k, v in F.items()}
        q = (0, 0, 0, 0) if hom else (qn, qt, pn, pt)
        for name, r in residuals(F, dF, Zl, dZ, bed, *q, m):
            ck.obl('equilibrium of the solution term', f'{tag}: {name}', is_zero(r, it.dom, subs=subs), detail=f'residual {r}')
        ck.saw(it)

    # particular integrals
    for bed in (True, False):
        tag = f"zp(bed={bed})"
        with ck.guard('equilibrium of the solution term', tag):
            it = M.interp()
            m = M.model(it)
            M.load_stubs(it)
            run(tag, M.call(it, m, 'zp', x=x, phi=phi, bed=bed), it, m, bed, False)
    # free complementary functions, column by column, and their independence
    with ck.guard('equilibrium of the solution term', 'zh(bed=False)'):
        it = M.interp()
        m = M.model(it)
        M.load_stubs(it)
        Zh = M.call(it, m, 'zh', x=x, l=l, bed=False)
        for j in range(Zh.shape[1]):
            run(f'zh(bed=False)[:, {j}]', Zh[:, [j]], it, m, False, True)
        W = sp.Matrix(6, 6, lambda i, j: Zh[i, j]).subs(x, 0)
        ck.obl('six independent free solutions', 'zh(bed=False)', None if W.rank() is None else bool(W.rank() == 6), detail=W)
    # first-order system K, q equals equilibrium
    with ck.guard('first-order system', 'calc_system_matrix/get_load_vector'):
        it = M.interp()
        m = M.model(it)
        M.load_stubs(it)
        Z = M.Zvec()
        dz = M.call(it, m, 'dz_dx', Z, phi)
        D = flat(dz)
        F = forces(it, m, Z)
        Zl = flat(Z)
        # derivative of section forces = same linear forms applied to z'
        dF = forces(it, m, dz)
        for name, r in residuals(F, dF, Zl, D, True, qn, qt, pn, pt, m):
            ck.obl('first-order system', f'dz_dx: {name}', is_zero(r, it.dom), detail=f'residual {r}')
        K = M.call(it, m, 'calc_system_matrix')
        q = M.call(it, m, 'get_load_vector', phi)
        ddz = flat(M.call(it, m, 'dz_dxdx', Z, phi))
        ref = [sum(K[i, k] * D[k] for k in range(6)) for i in range(6)]
        for i in range(6):
            ck.obl('first-order system', f'dz_dx[{i}] = K z + q',
                   is_zero(D[i] - sum(K[i, k] * Zl[k] for k in range(6)) - q[i, 0], it.dom))
            ck.obl('second derivative is derivative of the first', f'dz_dxdx[{i}]', is_zero(ddz[i] - ref[i], it.dom),
                   detail=f'{ddz[i]} vs {ref[i]}')
        for nm, i, v in (('du0_dxdx', 1, D), ('dpsi_dxdx', 5, D), ('du0_dxdxdx', 1, ddz), ('dpsi_dxdxdx', 5, ddz)):
            r = flat(M.call(it, m, nm, Z, phi))
            ck.obl('derivative selectors', nm, is_zero(r[0] - v[i], it.dom) if len(r) == 1 else False, detail=r)
        for nm, i in (('dw_dx', 3), ('dpsi_dx', 5)):
            r = flat(M.call(it, m, nm, Z))
            ck.obl('derivative selectors', nm, is_zero(r[0] - Zl[i], it.dom) if len(r) == 1 else False, detail=r)
        z0 = R('z0')
        r = flat(M.call(it, m, 'du_dx', Z, z0))
        r0 = flat(M.call(it, m, 'u', Z, z0))
        ck.obl('derivative selectors', 'du_dx', is_zero(r[0] - Zl[1] - z0 * Zl[5], it.dom), detail=r)
        ck.obl('derivative selectors', 'u', is_zero(r0[0] - Zl[0] - z0 * Zl[4], it.dom), detail=r0)
        ck.saw(it)
    # the derivatives offered by the API along a free segment
    for nm, k in (('dz_dx', 1), ('dz_dxdx', 2)):
        with ck.guard('derivatives offered on free segments', nm):
            it = M.interp()
            m = M.model(it)
            M.load_stubs(it)
            C = np.array([[R(f'C{i}')] for i in range(6)], dtype=object)
            Z = M.call(it, m, 'z', x, C, l, phi, False)
            d = flat(M.call(it, m, nm, Z, phi))
            ref = [sp.diff(sp.sympify(e), x, k) for e in flat(Z)]
            v = [is_zero(a - b, it.dom) for a, b in zip(d, ref)]
            ck.obl('derivatives offered on free segments', nm, False if False in v else None if None in v else True, d)
    # bedded complementary functions: eigenfunctions of K
    for nr in (1, 3):
        tag = f'zh(bed=True), {2 * nr} real eigenvalues'
        with ck.guard('eigenfunctions', tag):
            it = M.interp(eig_real=nr)
            m = M.model(it)
            # eigenproblem posed for the code's own system matrix
            Kref = M.call(it, m, 'calc_system_matrix')
            M.call(it, m, 'calc_eigensystem')
            e = it.dom.eigs[-1]
            same = e['K'].shape == Kref.shape and all(is_zero(a - b, it.dom) for a, b in zip(flat(e['K']), flat(Kref)))
            ck.obl('eigenproblem posed for the governing equations', tag, True if same else False,
                   where='calc_eigensystem')
            # generic K with these eigenpairs
            Zh = M.call(it, m, 'zh', x=x, l=l, bed=True)
            ck.obl('six complementary functions', tag, Zh.shape == (6, 6), detail=Zh.shape)
            for j in range(Zh.shape[1]):
                col = [sp.sympify(v) for v in Zh[:, j]]
                pair = None
                for w, v in zip(e['ew'], e['ev'].T):
                    w = sp.sympify(w)
                    syms = set().union(*[sp.sympify(q).free_symbols for q in v])
                    if syms & set().union(*[c.free_symbols for c in col]):
                        pair = (w, [sp.sympify(q) for q in v])
                        break
                if pair is None:
                    ck.obl('eigenfunctions', f'{tag} column {j}', None, 'no eigenpair')
                    continue
                w, v = pair
                al, be = sp.re(w), sp.im(w)
                vr, vi = [sp.re(q) for q in v], [sp.im(q) for q in v]
                # express column as e^{al x}(A cos be x + B sin be x) with A, B in span of vr, vi; K acts linearly:
                # K vr = al vr - be vi ; K vi = al vi + be vr
                lin = []
                for i in range(6):
                    c = sp.expand(col[i])
                    lin.append((sp.diff(c, vr[i]), sp.diff(c, vi[i]) if vi[i] != 0 else sp.Integer(0),
                                c - sp.diff(c, vr[i]) * vr[i] - (sp.diff(c, vi[i]) * vi[i] if vi[i] != 0 else 0)))
                f, g = lin[0][0], lin[0][1]
                for i in range(6):
                    ck.obl('eigenfunctions', f'{tag} column {j} row {i} spanned by eigenvector',
                           is_zero(lin[i][0] - f, it.dom) and is_zero(lin[i][1] - g, it.dom) and is_zero(lin[i][2], it.dom))
                # zh' = K zh:  f' vr + g' vi = f (al vr - be vi) + g (al vi + be vr)
                ck.obl('eigenfunctions', f'{tag} column {j} solves the equations (re)',
                       is_zero(sp.diff(f, x) - al * f - be * g, it.dom), detail=f'f={f}, g={g}, ew={w}')
                if be != 0:
                    ck.obl('eigenfunctions', f'{tag} column {j} solves the equations (im)',
                           is_zero(sp.diff(g, x) - al * g + be * f, it.dom), detail=f'f={f}, g={g}, ew={w}')
            ck.saw(it)
    # assembled solution is zh C + zp
    for bed in (True, False):
        for form in ('scalar', 'array', 'list', 'tuple', 'one'):
            tag = f'z({form}, bed={bed})'
            with ck.guard('superposition', tag, on_raise=False):
                it = M.interp()
                m = M.model(it)
                M.load_stubs(it)
                C = np.array([[R(f'C{i}')] for i in range(6)], dtype=object)
                xs = [R('x0'), R('x1')]
                arg = {'scalar': xs[0], 'array': np.array(xs, dtype=object), 'list': list(xs), 'tuple': tuple(xs),
                       'one': np.array(xs[:1], dtype=object)}[form]
                Z = M.call(it, m, 'z', arg, C, l, phi, bed)
                n = 1 if form in ('scalar', 'one') else 2
                ck.obl('superposition', tag + ' shape', Z.shape == (6, n), detail=Z.shape)
                for j in range(n):
                    H = M.call(it, m, 'zh', xs[j], l, bed)
                    p = M.call(it, m, 'zp', xs[j], phi, bed)
                    for i in range(6):
                        r = Z[i, j] - sum(H[i, k] * C[k, 0] for k in range(6)) - p[i, 0]
                        ck.obl('superposition', f'{tag} [{i},{j}]', is_zero(r, it.dom), detail=r)
                ck.saw(it)


if __name__ == '__main__':
    main('C04', RULE, check, minimum=60, assumptions=[
        'numpy.linalg.eig returns eigenpairs of its argument (real pairs and complex conjugate quadruples)',
        'floating point is treated as exact arithmetic'])
