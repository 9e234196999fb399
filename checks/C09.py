"""C09: weak-layer stress, strain and stiffness obey one elastic law."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, asm
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Gated value numbering of the stress and strain evaluators, the foundation stiffness and the principal stresses: stress minus '
        'stiffness times thickness times strain, and trace, determinant and order of the principal values, vanish in normal form; '
        'normalised values are compared with stress over strength in one unit.')


def check(ck):
    Z = M.Zvec(2)
    for bed in (True,):
        for st, e, k in (('sig', 'eps', S.kn), ('tau', 'gamma', S.kt)):
            for u, f in ((None, 1), ('MPa', 1), ('kPa', 1000)):
                with ck.guard('stress is stiffness times thickness times strain', f'{st}({u})'):
                    it = M.interp()
                    m = M.model(it)
                    kw = {} if u is None else dict(unit=u)
                    s, ee = flat(M.call(it, m, st, Z, **kw)), flat(M.call(it, m, e, Z))
                    for j in range(2):
                        ck.obl('stress is stiffness times thickness times strain', f'{st}({u}) column {j}',
                               is_zero(s[j] - f * k * S.t * ee[j], it.dom), f'{s[j]} vs {ee[j]}')
                        ref = -S.kn * Z[2, j] if st == 'sig' else S.kt * (Z[0, j] + S.h / 2 * Z[4, j] - S.t / 2 * Z[3, j])
                        ck.obl('compression and shear sense', f'{st}({u}) column {j}', is_zero(s[j] - f * ref, it.dom), s[j])
                    ck.saw(it)
    E, nu, t = P('E'), P('nu'), P('t')
    for how in ('update', 'explicit', 'system'):
        with ck.guard('foundation stiffness', how):
            it = M.interp()
            m = M.model(it, abstract=False)
            M.call(it, m, 'set_foundation_properties', t=t, E=E, nu=nu, update=how == 'update')
            if how == 'explicit':
                M.call(it, m, 'calc_foundation_stiffness')
            if how == 'system':
                M.call(it, m, 'calc_fundamental_system')
            ck.obl('foundation stiffness', how + ': normal', is_zero(m.attrs['kn'] - E / (1 - nu**2) / t, it.dom), m.attrs['kn'])
            ck.obl('foundation stiffness', how + ': shear', is_zero(m.attrs['kt'] - E / (2 * (1 + nu)) / t, it.dom), m.attrs['kt'])
            ck.saw(it)
    with ck.guard('foundation stiffness', 'constructor of Inverse'):
        it = M.interp()
        m = M.new(it, 'weac.inverse.Inverse', system='pst-', layers=M.layers(1), parameters=(P('C0'), P('C1'), E))
        w = m.attrs['weak']
        ck.obl('foundation stiffness', 'Inverse: normal', is_zero(m.attrs['kn'] - E / (1 - w['nu']**2) / m.attrs['t'], it.dom), m.attrs['kn'])
        ck.obl('foundation stiffness', 'Inverse: shear', is_zero(m.attrs['kt'] - E / (2 * (1 + w['nu'])) / m.attrs['t'], it.dom), m.attrs['kt'])
        ck.saw(it)

    def principal(tag, it, mx, mn, sx, sz, tx):
        ck.obl('principal values are the eigenvalues', tag + ': trace', is_zero(mx + mn - sx - sz, it.dom), mx)
        ck.obl('principal values are the eigenvalues', tag + ': determinant', is_zero(mx * mn - sx * sz + tx**2, it.dom), mx)
        ck.obl('maximum is not below minimum', tag, is_zero(mx - mn - sp.sqrt((sx - sz)**2 + 4 * tx**2), it.dom), mx)

    # weak layer
    for u, f in (('kPa', 1000), ('MPa', 1)):
        tag = f'principal_stress_weaklayer({u})'
        with ck.guard('principal values are the eigenvalues', tag):
            it = M.interp()
            m = M.model(it)
            s, ta = flat(M.call(it, m, 'sig', Z, unit=u)), flat(M.call(it, m, 'tau', Z, unit=u))
            mx = flat(M.call(it, m, 'principal_stress_weaklayer', Z, unit=u, val='max'))
            mn = flat(M.call(it, m, 'principal_stress_weaklayer', Z, unit=u, val='min'))
            sc = P('sc')
            nn = flat(M.call(it, m, 'principal_stress_weaklayer', Z, sc=sc, unit=u, val='min', normalize=True))
            for j in range(2):
                principal(f'{tag} column {j}', it, mx[j], mn[j], s[j], 0, ta[j])
                ck.obl('normalised by the strength in the same unit', f'{tag} column {j}',
                       is_zero(nn[j] - mn[j] * 1000 / f / sc, it.dom), nn[j])
            ck.saw(it)
    # slab
    n, mcol = 3, 2
    phi, dz = R('phi'), P('dz')

    def stub(nm):
        def f(it_, env, node):
            a = np.empty((n, mcol), dtype=object)
            for i in range(n):
                for j in range(mcol):
                    z = env['Z']
                    a[i, j] = R(f"{nm}[{asm.nm(env['phi'])};{asm.nm(env['dz'])};{z[0, j] if z.shape == (6, mcol) else '?'}]{i}")
            return a * {'kPa': 1000, 'MPa': 1}[env['unit']]
        return f
    mesh = np.array([[R(f'z{i}'), P(f'E{i}'), P(f'nu{i}'), P(f'rho{i}')] for i in range(n)], dtype=object)

    def zmesh(it_, env, node):
        return mesh.copy() if asm.nm(env['dz']) == 'dz' else np.array([[R(f'{x}?') for x in r] for r in mesh], dtype=object)
    for u, f in (('kPa', 1000), ('MPa', 1)):
        tag = f'principal_stress_slab({u})'
        with ck.guard('principal values are the eigenvalues', tag):
            it = M.interp()
            m = M.model(it)
            for nm in ('Sxx', 'Txz', 'Szz'):
                it.mstubs[nm] = stub(nm)
            it.mstubs['get_zmesh'] = zmesh
            mx = M.call(it, m, 'principal_stress_slab', Z, phi, dz=dz, unit=u, val='max')
            mn = M.call(it, m, 'principal_stress_slab', Z, phi, dz=dz, unit=u, val='min')
            no = M.call(it, m, 'principal_stress_slab', Z, phi, dz=dz, unit=u, val='max', normalize=True)
            for i in range(n):
                for j in range(mcol):
                    v = [f * R(f"{nm}[phi;dz;{Z[0, j]}]{i}") for nm in ('Sxx', 'Szz', 'Txz')]
                    principal(f'{tag} [{i},{j}]', it, mx[i, j], mn[i, j], *v)
                    st = sp.sympify(M.fun(it, 'weac.tools.tensile_strength_slab', P(f'rho{i}'), unit='kPa'))
                    ck.obl('normalised by the strength in the same unit', f'{tag} [{i},{j}]',
                           is_zero(no[i, j] - mx[i, j] * 1000 / f / st, it.dom), no[i, j])
            ck.saw(it)
    with ck.guard('strength in both units', 'tensile_strength_slab'):
        it = M.interp()
        r = P('rho')
        a, b = (M.fun(it, 'weac.tools.tensile_strength_slab', r, unit=u) for u in ('kPa', 'MPa'))
        ck.obl('strength in both units', 'tensile_strength_slab', is_zero(a - 1000 * b, it.dom), f'{a} vs {b}')
        ck.obl('strength in both units', 'Sigrist 2006 in kPa', is_zero(a / (240 * (r / 917)**sp.Rational(244, 100)) - 1, it.dom), a)
        ck.saw(it)


if __name__ == '__main__':
    main('C09', RULE, check, minimum=60, assumptions=['exact arithmetic'])
