"""C16: slab stresses satisfy local equilibrium layer by layer."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, asm, drive as D
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of the through-thickness mesh and the three slab stresses for symbolic layers, solution vector, loads and '
        'inclination (point counts per layer fixed and different): mesh rows must carry the properties of the layer their depth lies in '
        'and include both faces; each stress term is compared in normal form with the depth integral (on the mesh or exact) of the local '
        'equilibrium equations from the loaded top face; on a bedded segment shear stress at the bottom must close with the weak layer.')
COUNTS = [2, 1, 3, 2, 4]


def ceil_by_layer(it, n, dz, log):
    """Number of mesh intervals: fixed and different for each layer, recognised by its thickness."""
    def one(v):
        for i in range(n):
            if is_zero(sp.sympify(v) - P(f'h{i}') / dz, it.dom):
                return COUNTS[i]
        log.append(v)
        return 2

    def ceil(it_, args, kwargs, node):
        v = args[0]
        if isinstance(v, np.ndarray):
            return np.array([one(x) for x in v.ravel()], dtype=object).reshape(v.shape)
        return one(v)
    it.ext['numpy.ceil'] = ceil
    it.ext['math.ceil'] = ceil


def slab(n):
    """Slab of n layers with individual properties; interfaces measured from mid-height."""
    it = M.interp()
    m = M.model(it)
    m.attrs['slab'] = M.slabmat(n)
    H = sum(P(f'h{i}') for i in range(n))
    m.attrs['h'] = H
    z = [-H / 2]
    for i in range(n):
        z.append(sp.expand(z[-1] + P(f'h{i}')))
    return it, m, z


def mesh_of(ck, n, dz, tag, it, m, z):
    """Mesh rows as (depth, layer); None where the mesh does not fit the layers."""
    mesh = M.call(it, m, 'get_zmesh', dz=dz)
    if not isinstance(mesh, np.ndarray) or mesh.ndim != 2 or mesh.shape[1] < 4:
        ck.obl('mesh carries depth and properties', tag, False, mesh)
        return None
    props = [dict(E=P(f'E{i}'), nu=P(f'nu{i}'), rho=P(f'rho{i}')) for i in range(n)]
    cols = {}
    for k in ('E', 'nu', 'rho'):
        c = [j for j in range(1, mesh.shape[1]) if is_zero(sp.sympify(mesh[0, j]) - props[0][k], it.dom)]
        if not c:
            ck.obl('mesh carries depth and properties', f'{tag}: {k}', False, mesh[0])
            return None
        cols[k] = c[0]
    rows, num = [], {P(f'h{i}'): sp.Rational(37 + 11 * i, 7) for i in range(n)}
    zn = [sp.sympify(v).subs(num) for v in z]
    last = None
    for r in mesh:
        v = sp.sympify(r[0]).subs(num)
        lay = [i for i in range(n) if all(is_zero(sp.sympify(r[cols[k]]) - props[i][k], it.dom) for k in cols)]
        if v.free_symbols or not lay:
            ck.obl('mesh point carries the properties of one layer', f'{tag} point {len(rows)}', False if not v.free_symbols else None, r)
            return None
        i = lay[0]
        ck.obl('mesh point lies in the layer whose properties it carries', f'{tag} point {len(rows)}', bool(zn[i] <= v <= zn[i + 1]), r)
        ck.obl('mesh runs from top to bottom', f'{tag} point {len(rows)}', last is None or bool(last <= v), r)
        last = v
        rows.append((sp.sympify(r[0]), i))
    for i in range(n):
        for nm, v in (('upper', z[i]), ('lower', z[i + 1])):
            ck.obl('mesh includes both faces of every layer', f'{tag} layer {i} {nm}',
                   any(j == i and is_zero(q - v, it.dom) for q, j in rows), rows)
    return rows


def trapz(rows, f):
    """Cumulative trapezoidal integral along the mesh of nodal values f."""
    out = [sp.Integer(0)]
    for k in range(1, len(rows)):
        out.append(out[-1] + (rows[k][0] - rows[k - 1][0]) * (f[k] + f[k - 1]) / 2)
    return out


def exact(rows, z, coef, times):
    """Exact single or double integral from the top face of the layerwise function c0 + c1*depth, at the mesh points."""
    one = two = sp.Integer(0)
    prim = []
    for i in range(len(z) - 1):
        c0, c1 = coef(i)
        a = z[i]

        def at(s, one=one, two=two, a=a, c0=c0, c1=c1):
            g1 = one + c0 * (s - a) + c1 * (s**2 - a**2) / 2
            g2 = two + (one - c0 * a - c1 * a**2 / 2) * (s - a) + c0 * (s**2 - a**2) / 2 + c1 * (s**3 - a**3) / 6
            return g1, g2
        prim.append(at)
        one, two = at(z[i + 1])
    return [prim[i](v)[times - 1] for v, i in rows]


def stresses(ck, n, unit, cols=2):
    tag = f'{n} layers {unit or "default unit"}'
    dz, phi = P('dz'), R('phi')
    with ck.guard('slab stress', tag):
        it, m, z = slab(n)
        log = []
        ceil_by_layer(it, n, dz, log)
        asm.stub_loads(it)
        rows = mesh_of(ck, n, dz, tag, it, m, z)
        ck.obl('number of points follows from thickness over element size', tag, not log, log)
        if rows is None:
            return
        Z = M.Zvec(cols)
        kw = {} if unit is None else dict(unit=unit)
        f = {'MPa': 1, 'kPa': 1000, None: 1000}[unit]
        r = phi * sp.pi / 180
        sxx, txz, szz = (M.call(it, m, nm, Z, phi, dz=dz, **kw) for nm in ('Sxx', 'Txz', 'Szz'))
        d1 = M.call(it, m, 'dz_dx', Z, phi)
        d2 = M.call(it, m, 'dz_dxdx', Z, phi)
        Q = [P(f'E{i}') / (1 - sp.Symbol(f'nu{i}', positive=True)**2) for i in range(n)]
        w = [sp.Rational(1, 10**12) * P(f'rho{i}') * S.g for i in range(n)]
        pn, pt = flat(M.call(it, m, 'get_surface_load', phi))
        # the gradients enter as symbols: the stresses are compared as functions of them
        for nm, a in (('Sxx', sxx), ('Txz', txz), ('Szz', szz)):
            if not isinstance(a, np.ndarray) or a.shape != (len(rows), cols):
                ck.obl('one stress per mesh point and position', f'{nm} {tag}', False, getattr(a, 'shape', a))
                return
        for j in range(cols):
            eps = lambda i, s: Q[i] * (Z[1, j] + s * Z[5, j])
            g1 = lambda i, s: Q[i] * (d1[1, j] + s * d1[5, j])
            g2 = lambda i, s: Q[i] * (d2[1, j] + s * d2[5, j])
            # tangential weight per area is -w sin(phi) (C07), so that N' = tau - qt - pt closes at the bottom
            tq = lambda i, s: -w[i] * sp.sin(r)
            nq = lambda i, s: -w[i] * sp.cos(r)
            t_tr = [a + b + pt for a, b in zip(trapz(rows, [g1(i, v) for v, i in rows]), trapz(rows, [tq(i, v) for v, i in rows]))]
            s_tr = [a + b - pn for a, b in zip(trapz(rows, trapz(rows, [g2(i, v) for v, i in rows])), trapz(rows, [nq(i, v) for v, i in rows]))]
            s_ex = None
            for k, (v, i) in enumerate(rows):
                ck.obl('axial stress is the layer modulus times the beam strain', f'Sxx {tag} point {k} column {j}',
                       is_zero(sxx[k, j] - f * eps(i, v), it.dom), sxx[k, j])
                ck.obl('shear stress is the depth integral of the axial gradient and weight', f'Txz {tag} point {k} column {j}',
                       is_zero(txz[k, j] - f * t_tr[k], it.dom), txz[k, j])
                ok = is_zero(szz[k, j] - f * s_tr[k], it.dom)
                if ok is False:
                    if s_ex is None:
                        s_ex = [a + b - pn for a, b in zip(exact(rows, z, lambda i: (Q[i] * d2[1, j], Q[i] * d2[5, j]), 2),
                                                              exact(rows, z, lambda i: (nq(i, 0), sp.Integer(0)), 1))]
                    ok = is_zero(szz[k, j] - f * s_ex[k], it.dom)
                ck.obl('normal stress is the double depth integral of the second gradient and weight', f'Szz {tag} point {k} column {j}',
                       ok, szz[k, j])
        ck.saw(it)


def closure(ck, n, bed):
    """Shear stress at the bottom face equals the weak-layer shear stress (zero without foundation)."""
    tag = f'{n} layers on {"bedded" if bed else "free"} segment'
    dz, phi = P('dz'), R('phi')
    rule = 'shear stress closes with the weak layer'
    with ck.guard(rule, tag):
        it, m, z = slab(n)
        ceil_by_layer(it, n, dz, [])
        M.call(it, m, 'calc_laminate_stiffness_matrix')
        for k in ('A11', 'B11', 'D11', 'kA55'):
            # numbers stand for the layer properties; the identity is rational in them
            m.attrs[k] = sp.sympify(m.attrs[k])
        num = {}
        for i in range(n):
            num.update({P(f'h{i}'): sp.Rational(53 + 17 * i, 3), P(f'E{i}'): sp.Rational(7 + 5 * i, 2), P(f'G{i}'): sp.Rational(3 + i, 2),
                        sp.Symbol(f'nu{i}', positive=True): sp.Rational(1, 4 + i), P(f'rho{i}'): 150 + 40 * i})
        sub = lambda v: sp.sympify(v).subs(num)
        for k in ('A11', 'B11', 'D11', 'kA55', 'h', 'zs'):
            m.attrs[k] = sub(m.attrs[k])
        m.attrs['K0'] = m.attrs['B11']**2 - m.attrs['A11'] * m.attrs['D11']
        m.attrs['slab'] = np.array([[sub(v) for v in row] for row in m.attrs['slab']], dtype=object)
        mass = sum(sub(P(f'rho{i}') * P(f'h{i}')) for i in range(n))
        zc = sum(sub(P(f'rho{i}') * P(f'h{i}') * (z[i] + z[i + 1]) / 2) for i in range(n)) / mass
        m.attrs['zs'] = zc
        it.ext['numpy.ceil'] = lambda it_, args, kw, node: np.full(args[0].shape, 2, dtype=object) if isinstance(args[0], np.ndarray) else 2
        it.mstubs['get_surface_load'] = lambda it_, env, node: (R('pn'), R('pt'))
        if bed:
            Z = M.Zvec(1)
        else:
            C = np.array([[R(f'C{i}')] for i in range(6)], dtype=object)
            Z = M.call(it, m, 'z', R('x'), C, P('l'), phi, False)
        txz = M.call(it, m, 'Txz', Z, phi, dz=1, unit='MPa')
        tau = flat(M.call(it, m, 'tau', Z))[0] if bed else 0
        if bed:
            ck.obl(rule, f'{tag}: bottom', is_zero(txz[-1, 0] - tau, it.dom), txz[-1, 0])
        else:
            ck.obl('lower face is traction free without foundation', 'Txz on a free segment', is_zero(txz[-1, 0], it.dom), txz[-1, 0])
        ck.obl(rule, f'{tag}: top', is_zero(txz[0, 0] - R('pt'), it.dom), txz[0, 0])
        ck.saw(it)


def check(ck):
    nmax = 5 if ck.thorough else 3
    ck.pmap(stresses, [(n, u) for n in range(1, nmax + 1) for u in ('MPa', 'kPa', None)])
    ck.pmap(closure, [(n, b) for n in range(1, nmax + 1) for b in (True, False)])
    with ck.guard('default element size', 'get_zmesh'):
        it, m, z = slab(1)
        got = []
        it.ext['numpy.ceil'] = lambda it_, args, kw, node: (got.append(flat(args[0])), np.full(args[0].shape, 2, dtype=object) if isinstance(args[0], np.ndarray) else 2)[1]
        M.call(it, m, 'get_zmesh')
        ck.obl('default element size', 'get_zmesh', bool(got) and bool(is_zero(sp.sympify(got[0][0]) - P('h0') / 2, it.dom)), got)


if __name__ == '__main__':
    main('C16', RULE, check, minimum=200, assumptions=['exact arithmetic', 'up to 3 layers (thorough: 5) with one to four intervals each'])
