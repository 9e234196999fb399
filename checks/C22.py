"""C22: potential energy is the sum of conjugate energy parts."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import TOP, Gate
from vlib.model import S, R, P
from vlib.prove import is_zero, replace
from vlib.harness import main

RULE = ('Abstract interpretation of the potentials with the segment solution uninterpreted: the quadratic form in the field values at the '
        'grid points is compared, point by point, with half stiffness times squared conjugate deformation of slab and weak layer plus the '
        'work of the end spring; the linear form of the external part with the weights, surface loads and the displacements of the points '
        'they act on; quadrature weights must be non-negative and add up to the length they cover.')
COUNTS = [(2, 3, 2, 2), (3, 1, 2, 2), (1, 2, 1, 1), (4, 4, 4, 4)]
FIELDS = ('u', 'du', 'w', 'dw', 'psi', 'dpsi')


def world(system, mode, counts, same, layout):
    """Model ready for evaluation, its segments, and the field symbols per rasterised point."""
    it = M.interp()

    def ceil(it_, args, kwargs, node):
        v = args[0]
        if isinstance(v, np.ndarray):
            return np.array(list(counts[:v.size]), dtype=object).reshape(v.shape)
        return TOP if v is TOP else counts[0]
    it.ext['numpy.ceil'] = ceil
    it.ext['math.ceil'] = ceil
    m = D.ready(it, system, mode=mode)
    asm.stub_loads(it)
    pts = []

    def z(it_, env, node):
        x = env['x']
        xs = x.ravel() if isinstance(x, np.ndarray) else [x]
        if any(v is TOP or isinstance(v, Gate) for v in xs):
            return NotImplemented
        out = np.empty((6, len(xs)), dtype=object)
        for j, v in enumerate(xs):
            k = 'c' if same else str(len(pts))
            col = [R(f'{f}_{k}') for f in FIELDS]
            bed = asm.truth(it_, env.get('bed', True))
            pts.append(dict(x=v, l=env.get('l'), phi=env.get('phi'), bed=bed, col=col, C=env.get('C')))
            out[:, j] = col
        return out
    it.mstubs['z'] = z
    li, ki = layout(m, system, mode)
    seg = dict(li=M.arr(li), mi=M.arr([0] * (len(li) - 1)), ki=D.boolarr(ki), k0=D.boolarr([True] * len(li)))
    return it, m, seg, li, ki, pts


def crack(m, system, mode):
    """Cracked layout: supported part, then the (possibly partly touching) crack."""
    free = {'A': S.a, 'B': S.a, 'C': S.td}[mode]
    sup = P('lb')
    return ([sup, free], [True, False]) if system == 'pst-' else ([free, sup], [False, True])


def intact(m, system, mode):
    return [P('lb'), S.a], [True, True]


def uncut(m, system, mode):
    """Layout with a crack of length zero."""
    return ([P('lb'), sp.Integer(0)], [True, False]) if system == 'pst-' else ([sp.Integer(0), P('lb')], [False, True])


def density(col, a):
    u, du, w, dw, psi, dpsi = col
    slab = a['A11'] * du**2 / 2 + a['B11'] * du * dpsi + a['D11'] * dpsi**2 / 2 + a['kA55'] * (dw + psi)**2 / 2
    weak = a['kn'] * w**2 / 2 + a['kt'] * (u + a['h'] * psi / 2 - a['t'] * dw / 2)**2 / 2
    return slab, weak


def symkey(e, dom):
    return is_zero(sp.sympify(e), dom)


def potential(ck, system, mode, counts, layout):
    phi = R('phi')
    at = 'OutputMixin.internal_potential'
    ax = 'OutputMixin.external_potential'
    for same in (True, False):
        tag = f'{system} stage {mode} {layout.__name__} counts {counts[:2]} ' + ('constant state' if same else 'arbitrary state')
        with ck.guard('potentials', tag):
            it, m, seg, li, ki, pts = world(system, mode, counts, same, layout)
            a = m.attrs
            C = D.consts(len(li))
            Ltot = sum(li) + (P('rest') if mode == 'C' and layout is crack else 0)
            kw = dict(C=C, phi=phi, L=Ltot)
            pint = M.call(it, m, 'internal_potential', **kw, **seg)
            p1, pts[:] = list(pts), []
            pext = M.call(it, m, 'external_potential', **kw, **seg)
            p2, pts[:] = list(pts), []
            ptot = M.call(it, m, 'total_potential', **kw, **seg)
            p3 = list(pts)
            ck.saw(it)
            if not p1 or not p2 or any(v is TOP or isinstance(v, Gate) for v in (pint, pext, ptot)):
                ck.obl('internal potential is a sum of conjugate parts', tag, None, (pint, pext), where=at)
                continue
            pint, pext, ptot = (sp.expand(sp.sympify(v)) for v in (pint, pext, ptot))
            ren = {}
            for i, q in enumerate(p2 + p3):
                ref = p1[i % len(p1)]
                ren.update(dict(zip(q['col'], ref['col'])))
            if not same and len(p2) == len(p1) == len(p3) // 2:
                ck.obl('total potential is internal plus external', tag, symkey(
                    replace(ptot, ren, it.dom) - pint - replace(pext, ren, it.dom), it.dom), ptot, where='OutputMixin.total_potential')
            elif same:
                ck.obl('total potential is internal plus external', tag, symkey(ptot - pint - pext, it.dom), ptot,
                       where='OutputMixin.total_potential')
            for q in p1 + p2 + p3:
                ck.obl('evaluated for the requested inclination', tag, symkey(q['phi'] - phi, it.dom), q['phi'])
            cover, lweak = sum(li), sum((l for l, k in zip(li, ki) if k), sp.Integer(0))
            end = (lambda p: p[-1]['col']) if system == 'pst-' else (lambda p: p[0]['col'])
            sgn = -1 if system == 'pst-' else 1
            qn, qt, pn, pt = (R(f'{k}[{phi}]') for k in ('qn', 'qt', 'pn', 'pt'))
            tip = end(p1)
            mom = a['B11'] * tip[1] + a['D11'] * tip[5]
            spring = sgn * mom * tip[4] / 2
            rest = Ltot - cover
            tend = end(p2)
            zs, h, tc = a['zs'], a['h'], a['tc']
            resting = -rest * ((qn + pn) * tc + qt * (tend[0] + zs * tend[4]) + pt * (tend[0] - h / 2 * tend[4]))
            work = lambda c: -((qn + pn) * c[2] + qt * (c[0] + zs * c[4]) + pt * (c[0] - h / 2 * c[4]))
            if same:
                slab, weak = density(p1[0]['col'], a)
                # the constant state stores its density times the length it covers, whatever the quadrature
                parts = {'slab': ('A11', 'B11', 'D11', 'kA55'), 'weak layer': ('kn', 'kt')}
                ref = cover * slab + lweak * weak
                ck.obl('internal potential is the stored energy of slab, weak layer and end spring', tag,
                       symkey(pint - ref - spring, it.dom), sp.simplify(pint - ref - spring) if False else pint, where=at)
                for k in ('A11', 'kA55', 'D11', 'kn', 'kt'):
                    d = sp.diff(pint - spring - ref, a[k])
                    ck.obl('each stiffness contributes half its squared deformation', f'{tag}: {k} ({[n for n, v in parts.items() if k in v][0]})',
                           symkey(d, it.dom), d, where=at)
                ck.obl('external potential is minus the work of weight and surface load', tag,
                       symkey(pext - cover * work(p2[0]['col']) - resting, it.dom), pext, where=ax)
                for k, v in (('weight normal', qn), ('weight tangential', qt), ('surface load normal', pn), ('surface load tangential', pt)):
                    d = sp.diff(pext - cover * work(p2[0]['col']) - resting, v)
                    ck.obl('each load works on the displacement of the point it acts on', f'{tag}: {k}', symkey(d, it.dom), d, where=ax)
                continue
            # arbitrary state: points decouple, each with the same density and a non-negative weight
            num = {P('lb'): sp.Rational(731, 3), S.a: sp.Rational(217, 2), S.td: sp.Rational(113, 3), P('rest'): sp.Rational(71, 2)}
            body = sp.expand(pint - spring)
            wsum, wweak, left = sp.Integer(0), sp.Integer(0), body
            for i, q in enumerate(p1):
                c = q['col']
                slab, weak = density(c, a)
                ws = sp.diff(body, c[1], 2) / a['A11']
                ww = sp.diff(body, c[2], 2) / a['kn']
                left = left - ws * slab - ww * weak
                wsum, wweak = wsum + ws, wweak + ww
                for nm, v in (('slab', ws), ('weak layer', ww)):
                    v = sp.simplify(v)
                    n = v.subs(num)
                    ck.obl('stored energy is never negative', f'{tag} point {i} {nm}', None if n.free_symbols else bool(n >= 0), v, where=at)
            for nm, v, ref in (('slab', wsum, cover), ('weak layer', wweak, lweak)):
                ck.obl('quadrature covers the length', f'{tag} {nm}', symkey(v - ref, it.dom), v, where=at)
            ck.obl('every point stores half stiffness times squared deformation', tag, symkey(left, it.dom), left, where=at)
            left, wsum = sp.expand(pext - resting), sp.Integer(0)
            for i, q in enumerate(p2):
                c = q['col']
                we = -sp.diff(left, c[2]) / (qn + pn)
                left = left - we * work(c)
                wsum += we
            ck.obl('quadrature covers the length', f'{tag} loads', symkey(wsum - cover, it.dom), wsum, where=ax)
            ck.obl('external potential is minus the work of weight and surface load', tag, symkey(left, it.dom), left, where=ax)


def check(ck):
    tasks = []
    modes = ('A', 'B', 'C')
    for system in ('pst-', '-pst'):
        for mode in modes:
            for counts in COUNTS if ck.thorough else COUNTS[:2]:
                tasks.append((potential, system, mode, counts, crack))
        for counts in COUNTS[:2]:
            tasks.append((potential, system, 'A', counts, uncut))
            tasks.append((potential, system, 'A', counts, intact))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C22', RULE, check, minimum=200, assumptions=['exact arithmetic', 'accuracy of the average on a grid is C29'])
