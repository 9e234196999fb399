"""C07: slab stiffness and weight depend only on the physical layering."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M
from vlib.model import S, R, P
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Gated value numbering of set_beam_properties, calc_fundamental_system and get_weight_load for symbolic layer densities, '
        'thicknesses, Young\'s moduli and Poisson ratios: stiffnesses, thickness, centre of gravity and weight are compared in normal '
        'form with the through-thickness moments of the layer properties; the same terms are compared before and after splitting a layer.')
Q = sp.Rational
ATTRS = ('A11', 'B11', 'D11', 'kA55', 'K0', 'h', 'zs')


def reference(lay, E, G, nu, k):
    lay = [tuple(sp.sympify(x) for x in r) for r in lay]
    E, G, nu = ([sp.sympify(x) for x in v] for v in (E, G, nu))
    H = sum(h for _, h in lay)
    z = [-H / 2]
    for _, h in lay:
        z.append(sp.expand(z[-1] + h))
    d = list(zip(z[:-1], z[1:]))
    Qs = [e / (1 - n**2) for e, n in zip(E, nu)]
    A = sum(q * (b - a) for q, (a, b) in zip(Qs, d))
    B = sum(q * (b**2 - a**2) / 2 for q, (a, b) in zip(Qs, d))
    D = sum(q * (b**3 - a**3) / 3 for q, (a, b) in zip(Qs, d))
    m = sum(r * h for r, h in lay)
    zs = sum(r * h * (a + b) / 2 for (r, h), (a, b) in zip(lay, d)) / m
    return dict(A11=A, B11=B, D11=D, kA55=sum(k * g * (b - a) for g, (a, b) in zip(G, d)), K0=B**2 - A * D, h=H, zs=zs)


def setup(it, lay, form='list', E=None, nu=None):
    """model with the given layering whose moduli are the free symbols E."""
    m = M.model(it, abstract=False)
    m.attrs['g'] = S.g
    if E is not None:
        it.stubs['bergfeld'] = lambda it_, env, node: M.arr(list(E))
    arg = M.arr(lay) if form == 'array' else tuple(tuple(r) for r in lay) if form == 'tuple' else [list(r) for r in lay]
    kw = {} if nu is None else dict(nu=nu)
    M.call(it, m, 'set_beam_properties', arg, update=True, **kw)
    return m


def check(ck):
    phi = R('phi')
    nmax = 5 if ck.thorough else 3
    nu = P('nu')
    for n in range(1, nmax + 1):
        for form in ('list', 'array') if n < 3 else ('list',):
            tag = f'{n} layers given as {form}'
            with ck.guard('through-thickness moments', tag):
                it = M.interp()
                lay = [(P(f'rho{i}'), P(f'h{i}')) for i in range(n)]
                E = [P(f'E{i}') for i in range(n)]
                m = setup(it, lay, form, E, nu)
                s = m.attrs['slab']
                E = list(s[:, 2]) if s.shape == (n, 5) else E
                ck.obl('slab matrix rows are the layers', tag + ' shape', s.shape == (n, 5), s.shape)
                for i in range(n):
                    for j, x in enumerate((lay[i][0], lay[i][1], E[i], E[i] / (2 * (1 + nu)), nu)):
                        ck.obl('slab matrix rows are the layers', f'{tag} [{i},{j}]', is_zero(s[i, j] - x, it.dom), f'{s[i, j]} vs {x}')
                k = m.attrs['k']
                ck.obl('shear correction factor', tag, is_zero(sp.sympify(k) - sp.Rational(5, 6), it.dom), k)
                ref = reference(lay, E, [e / (2 * (1 + nu)) for e in E], [nu] * n, sp.Rational(5, 6))
                for a in ATTRS:
                    ck.obl('through-thickness moments', f'{tag}: {a}', is_zero(m.attrs[a] - ref[a], it.dom), f'{m.attrs[a]}')
                q = M.call(it, m, 'get_weight_load', phi)
                r = phi * sp.pi / 180
                w = sp.Rational(1, 10**12) * S.g * sum(a * b for a, b in lay)
                ck.obl('weight per area', tag + ': normal', is_zero(q[0] - w * sp.cos(r), it.dom), q[0])
                ck.obl('weight per area', tag + ': tangential', is_zero(q[1] + w * sp.sin(r), it.dom), q[1])
                z = M.call(it, m, 'get_ply_coordinates')
                zr = [-ref['h'] / 2]
                for _, b in lay:
                    zr.append(zr[-1] + b)
                ck.obl('ply coordinates', tag, len(z) == n + 1 and all(is_zero(a - b, it.dom) for a, b in zip(z, zr)), z)
                ck.saw(it)
    # concrete numbers: light above dense and dense above light, densities and thicknesses that are not integers
    for tag, lay in (('light to dense', ((Q(501, 4), Q(801, 8)), (Q(501, 2), Q(50, 3)), (Q(701, 2), Q(121, 2)))),
                     ('dense to light', ((Q(701, 2), Q(121, 2)), (Q(501, 2), Q(50, 3)), (Q(501, 4), Q(801, 8)))),
                     ('dense crust in the middle', ((Q(803, 4), 40), (Q(3607, 8), Q(15, 2)), (Q(451, 2), 30), (Q(803, 4), 25)))):
        with ck.guard('through-thickness moments', 'numbers ' + tag):
            it = M.interp()
            E = [P(f'E{i}') for i in range(len(lay))]
            m = setup(it, lay, 'list', E, nu)
            ref = reference(lay, E, [e / (2 * (1 + nu)) for e in E], [nu] * len(lay), sp.Rational(5, 6))
            for a in ATTRS:
                ck.obl('through-thickness moments', f'numbers {tag}: {a}', is_zero(m.attrs[a] - ref[a], it.dom), f'{m.attrs[a]}')
            q = M.call(it, m, 'get_weight_load', phi)
            r = phi * sp.pi / 180
            w = sp.Rational(1, 10**12) * S.g * sum(sp.sympify(a) * b for a, b in lay)
            ck.obl('weight per area', f'numbers {tag}: normal', is_zero(q[0] - w * sp.cos(r), it.dom), q[0])
            ck.obl('weight per area', f'numbers {tag}: tangential', is_zero(q[1] + w * sp.sin(r), it.dom), q[1])
            ck.saw(it)
    # individual layer properties (slab matrix set by the user)
    for n in range(1, nmax + 1):
        tag = f'slab matrix with {n} individual layers'
        with ck.guard('through-thickness moments', tag):
            it = M.interp()
            m = M.model(it, abstract=False)
            m.attrs['slab'] = M.slabmat(n)
            m.attrs['h'] = sum(P(f'h{i}') for i in range(n))
            M.call(it, m, 'calc_laminate_stiffness_matrix')
            ref = reference([(P(f'rho{i}'), P(f'h{i}')) for i in range(n)], *[[P(f'{c}{i}') for i in range(n)] for c in ('E', 'G', 'nu')],
                            sp.Rational(5, 6))
            for a in ATTRS[:5]:
                ck.obl('through-thickness moments', f'{tag}: {a}', is_zero(m.attrs[a] - ref[a], it.dom), f'{m.attrs[a]}')
            ck.saw(it)
    # splitting a layer, homogeneous slabs
    ha, hb = P('ha'), P('hb')
    for n in (1, 2):
        for at in range(n):
            tag = f'layer {at} of {n} split'
            with ck.guard('invariance under splitting', tag):
                out = []
                for split in (False, True):
                    it = M.interp()
                    lay, E = [], []
                    for i in range(n):
                        hs = [P(f'h{i}')] if i != at else [ha + hb] if not split else [ha, hb]
                        for h in hs:
                            lay.append((P(f'rho{i}'), h))
                            E.append(P(f'E{i}'))
                    m = setup(it, lay, 'list', E, nu)
                    out.append([m.attrs[a] for a in ATTRS] + list(M.call(it, m, 'get_weight_load', phi)))
                    ck.saw(it)
                for a, x, y in zip(ATTRS + ('qn', 'qt'), *out):
                    ck.obl('invariance under splitting', f'{tag}: {a}', is_zero(x - y, it.dom))
    with ck.guard('homogeneous slab', 'three equal layers'):
        it = M.interp()
        m = setup(it, [(P('rho'), P(f'h{i}')) for i in range(3)], 'list', [P('E')] * 3, nu)
        ck.obl('homogeneous slab', 'no coupling', is_zero(m.attrs['B11'], it.dom), m.attrs['B11'])
        ck.obl('homogeneous slab', 'centre of gravity at mid-height', is_zero(m.attrs['zs'], it.dom), m.attrs['zs'])
    # the real density parametrisation and the database of profiles
    for prof in ('a', 'b', 'c', 'd', 'e', 'f', 'h', 'soft', 'medium', 'hard', 'comp'):
        with ck.guard('database profiles', prof):
            it = M.interp()
            L, E = M.fun(it, 'weac.tools.load_dummy_profile', prof)
            m = M.model(it, abstract=False)
            M.call(it, m, 'set_beam_properties', prof, update=True)
            nuv = m.attrs['slab'][0, 4]
            ref = reference([(r[0], r[1]) for r in L], list(E), [e / (2 * (1 + nuv)) for e in E], [nuv] * len(E), sp.Rational(5, 6))
            for a in ATTRS:
                ck.obl('database profiles', f'{prof}: {a}', is_zero(m.attrs[a] - ref[a], it.dom), m.attrs[a])
            ck.saw(it)


if __name__ == '__main__':
    main('C07', RULE, check, minimum=80, assumptions=['exact arithmetic', 'up to 3 layers (thorough: 5); layers enter by a uniform loop or sum'])
