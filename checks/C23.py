"""C23: the wedge at a vertical end face has the weight and centre of its layers."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
import numpy as np
import sympy as sp
from vlib import model as M, asm
from vlib.interp import TOP, Gate
from vlib.model import S, R, P
from vlib.prove import is_zero, cond_value, cond_terms, allgates, select, rnd
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of the wedge computation for symbolic layers and inclination; mass and centre of gravity are compared in '
        'normal form with integrals of density over the triangle between slope-normal and vertical face, and with themselves after '
        'splitting a layer; the flat branch is compared with the limit of the sloped one, and the end loads of the assembled system with '
        'the weight of the wedge and its moment about the slab mid-plane.')
FN = 'weac.tools.calc_vertical_bc_center_of_gravity'


def wedge(rho, h, phi):
    """Mass, horizontal and vertical centre by integration over depth (width of the wedge at depth z: (H/2 - z) tan phi)."""
    z = sp.Symbol('zeta', real=True)
    H = sum(h)
    t = sp.tan(phi * sp.pi / 180)
    m = mx = mz = sp.Integer(0)
    z0 = -H / 2
    for r, hi in zip(rho, h):
        I = lambda f: sp.expand(sp.integrate(sp.expand(f), (z, z0, z0 + hi)))
        b = (H / 2 - z)
        k = r * sp.Rational(1, 10**12)
        m, mz, mx = m + k * t * I(b), mz + k * t * I(z * b), mx + k * t**2 * I(b**2) / 2
        z0 = z0 + hi
    return m, mx / m, mz / m


def slab(rho, h, tag=''):
    a = np.empty((len(h), 5), dtype=object)
    for i in range(len(h)):
        a[i] = [rho[i], h[i], P(f'E{tag}{i}'), P(f'G{tag}{i}'), P(f'nu{tag}{i}')]
    return a


def run(it, a, phi):
    return M.fun(it, FN, a, phi)


def branch(it, v, phi, flat):
    """Alternative of a value for phi = 0 or phi != 0."""
    ph = sp.Integer(0) if flat else sp.Rational(117, 10)
    fresh = {'rng': random.Random(1)}

    def truth(c):
        sub = {s: rnd(s, fresh['rng']) for t in cond_terms(c) for s in t.free_symbols}
        if set(sub) - {phi}:
            return None  # depends on more than the inclination
        return cond_value(it.dom, c, {phi: ph}, fresh)
    while isinstance(v, Gate):
        c = truth(v.cond)
        if c is None:
            return TOP
        v = v.a if c else v.b
    if isinstance(v, sp.Basic):
        asg = {g: truth(it.dom.conds[g]) for g in allgates(v, it.dom)}
        if None in asg.values():
            return TOP
        v = select(v, asg)
    return v


def values(ck, n):
    phi = R('phi')
    tag = f'{n} layers'
    lay = None
    if not isinstance(n, int):   # concrete numbers, not ordered by density or thickness
        lay, n = n, len(n)
        tag = 'layers ' + ', '.join(f'{a} x {b}' for a, b in lay)
    with ck.guard('wedge', tag):
        it = M.interp()
        rho, h = [P(f'rho{i}') for i in range(n)], [P(f'h{i}') for i in range(n)]
        if lay:
            rho, h = [[sp.sympify(r[k]) for r in lay] for k in (0, 1)]
        out = run(it, slab(rho, h), phi)
        ck.saw(it)
        if not isinstance(out, (tuple, list)) or len(out) != 3:
            raise Broken('the wedge function does not return centre and mass')
        xs, zs, w = (branch(it, v, phi, False) for v in out)
        m, xr, zr = wedge(rho, h, phi)
        for nm, v, ref in (('mass', w, m), ('distance of the centre from the end', xs, xr), ('depth of the centre', zs, zr)):
            ck.obl('wedge equals the integral over its layers', f'{tag}: {nm}', None if v is TOP else is_zero(sp.sympify(v) - ref, it.dom), v, where=FN)
        for k in ('1 deg', '-25 deg', '80 deg'):
            ph = sp.Integer(int(k.split()[0]))
            it2 = M.interp()
            v = [branch(it2, x, phi, False) for x in run(it2, slab(rho, h), ph)]
            mm, xx, zz = wedge(rho, h, ph)
            for nm, a, ref in (('mass', v[2], mm), ('distance of the centre from the end', v[0], xx), ('depth of the centre', v[1], zz)):
                ck.obl('wedge equals the integral over its layers', f'{tag} at {k}: {nm}', is_zero(sp.sympify(a) - ref, it2.dom), a, where=FN)
        # flat ground
        for nm, v, s in (('mass', out[2], w), ('distance of the centre from the end', out[0], xs)):
            f = branch(it, v, phi, True)
            ck.obl('no wedge on flat ground', f'{tag}: {nm}', None if f is TOP else is_zero(sp.sympify(f), it.dom), f, where=FN)
            if s is not TOP:
                t = sp.Symbol('tau')
                lim = sp.cancel(sp.together(sp.sympify(s).subs(sp.tan(phi * sp.pi / 180), t))).subs(t, 0).subs(phi, 0)
                ck.obl('wedge vanishes continuously', f'{tag}: {nm}', None if lim.has(sp.nan, sp.zoo) else is_zero(lim, it.dom), lim, where=FN)
        it3 = M.interp()
        o3 = run(it3, slab(rho, h), sp.Integer(0))
        ck.obl('no wedge on flat ground', f'{tag}: level argument', is_zero(sp.sympify(o3[2]), it3.dom), o3, where=FN)
        for nm, v in zip(('xs', 'zs'), o3):
            ck.obl('centre is a number on flat ground', f'{tag}: {nm}', v is not TOP and not sp.sympify(v).has(sp.nan, sp.zoo, sp.oo), v, where=FN)


def split(ck, n, k):
    """Splitting layer k into identical sublayers of different thickness."""
    phi = R('phi')
    tag = f'{n} layers, layer {k} split'
    with ck.guard('splitting', tag):
        it = M.interp()
        rho, h = [P(f'rho{i}') for i in range(n)], [P(f'h{i}') for i in range(n)]
        a = run(it, slab(rho, h), phi)
        r2 = rho[:k] + [rho[k]] * 2 + rho[k + 1:]
        th = P('part')
        h2 = h[:k] + [th, P('part2')] + h[k + 1:]
        b = run(it, slab(r2, h2, 's'), phi)
        ck.saw(it)
        for nm, x, y in zip(('xs', 'zs', 'mass'), a, b):
            x, y = branch(it, x, phi, False), branch(it, y, phi, False)
            bad = x is TOP or y is TOP
            ck.obl('splitting a layer leaves the wedge unchanged', f'{tag}: {nm}', None if bad else is_zero(
                sp.sympify(x).subs(h[k], th + P('part2')) - y, it.dom), y, where=FN)


def loads(ck, system, n, ki):
    """End loads of the assembled system against the weight of the wedge."""
    phi = R('phi')
    tag = f"{system} {n} layers ki={''.join('TF'[not k] for k in ki)}"
    with ck.guard('end loads', tag):
        it = M.interp()
        m = M.model(it, system=system)
        rho, h = [P(f'rho{i}') for i in range(n)], [P(f'h{i}') for i in range(n)]
        m.attrs.update(system=system, mode='A', tc=S.tc, a=S.a, td=S.td, phi=phi, touchdown=False, slab=slab(rho, h))
        asm.stub_segments(it)
        asm.stub_loads(it)
        N = len(ki)
        li, mi = [P(f'l{i}') for i in range(N)], [P(f'm{i}') for i in range(N - 1)]
        M.call(it, m, 'assemble_and_solve', phi, M.arr(li), M.arr(mi), np.array(ki, dtype=object))
        ck.saw(it)
        ev = [e for e in it.events if e['kind'] == 'solve']
        if not ev:
            raise Broken('no linear system is solved')
        A, b = ev[-1]['A'], ev[-1]['b']
        pick = np.vectorize(lambda v: branch(it, v, phi, False), otypes=[object])
        A, b = pick(A), pick(b)
        at = m.attrs
        mass, xs, zs = wedge(rho, h, phi)
        r = phi * sp.pi / 180
        G = at['g'] * mass
        rhs = [-G * sp.sin(r), -G * (xs * sp.cos(r) + zs * sp.sin(r)), G * sp.cos(r)]
        e = asm.ends(phi, li, ki)
        code, ref, names = asm.code_rows(A, b), [], []
        for side, i in ((0, 0), (1, N - 1)):
            ref += asm.end(asm.FORMS[3:], rhs, e, i, side, N, at)
            names += [f"{'right' if side else 'left'} end: {x}" for x in ('normal force', 'moment', 'shear force')]
        outer = [q for q in code if sum(any(sp.sympify(v) != 0 for v in q[6 * k:6 * k + 6]) for k in range(N)) == 1]
        v, how = asm.compare(outer, ref, it.dom)
        for nme, x in zip(names, v):
            ck.obl('vertical face carries the weight of the wedge', f'{tag}, {nme}', x, how, where='assemble_and_solve')


def check(ck):
    tasks = [(values, n) for n in range(1, 6 if ck.thorough else 4)]
    q = sp.Rational
    tasks += [(values, v) for v in (((q(701, 2), 60), (q(501, 4), q(801, 8)), (q(501, 2), q(50, 3))),
                                    ((120, 30), (q(901, 3), q(15, 2)), (200, 80), (120, 30)))]
    tasks += [(split, n, k) for n in range(1, 5 if ck.thorough else 4) for k in range(n)]
    for system in ('vpst-', '-vpst'):
        for n in (1, 2, 3) if ck.thorough else (1, 2):
            for ki in ((True, True), (True, False), (False, True), (True, False, True)):
                tasks.append((loads, system, n, ki))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C23', RULE, check, minimum=80, assumptions=['exact arithmetic', 'segment functions satisfy C04'])
