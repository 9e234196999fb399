"""C06: end conditions match the experiment and contact stage."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, asm, drive as D
from vlib.model import S, R, P
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Gated value numbering of assemble_and_solve with uninterpreted segment functions: the equations that involve the first '
        'or last segment only are compared, as linear forms with right-hand side, with the end conditions of each experiment '
        'and contact stage.')


EIGEN = ('ewC', 'ewR', 'evC', 'evR', 'sR', 'sC')


def check(ck):
    phi = R('phi')
    pats = [(True, False), (False, True), (True, True), (True, False, True), (False, True, False), (True, False, False)]
    if ck.thorough:
        pats += [p for p in itertools.product((True, False), repeat=4) if any(p)]
    runs = []
    for s in M.SYS:
        for ki in pats:
            for mode in 'ABC':
                if s.startswith('ski') and not (ki[0] and ki[-1]):
                    continue
                if mode != 'A' and s not in ('pst-', '-pst'):
                    continue
                runs.append((s, mode, ki))
    runs += [('rot', 'A', (True, True)), ('trans', 'A', (True, True))]
    NMV = asm.FORMS[3:]
    for s, mode, ki in runs:
        n = len(ki)
        tag = f"{s} mode {mode} ki={''.join('TF'[not k] for k in ki)}"
        with ck.guard('end conditions', tag):
            it = M.interp()
            m = M.model(it, system=s if s in M.SYS else 'pst-')
            m.attrs.update(system=s, mode=mode, tc=S.tc, a=S.a, td=S.td, phi=phi, touchdown=mode != 'A', slab=M.slabmat(2))
            asm.stub_segments(it)
            asm.stub_loads(it)
            ph = phi if s not in ('rot', 'trans') else 0
            li = [P(f'l{i}') for i in range(n)]
            mi = [P(f'm{i}') if s not in ('rot', 'trans') else 0 for i in range(n - 1)]
            M.call(it, m, 'assemble_and_solve', ph, M.arr(li), M.arr(mi), np.array(ki, dtype=object))
            ev = [e for e in it.events if e['kind'] == 'solve']
            if not ev:
                raise Broken('no linear system is solved')
            A, b = ev[-1]['A'], ev[-1]['b']
            at = m.attrs
            e = asm.ends(ph, li, ki)
            code = asm.code_rows(A, b)
            ref, names = [], []
            for side, i in ((0, 0), (1, n - 1)):
                zp = e[i][2 + side][:, 0]
                sgn = 1 if side else -1
                forms, rhs, nn = list(NMV), [0, 0, 0], ['N', 'M', 'V']
                if s in ('skier', 'skiers'):
                    forms, nn = asm.FORMS[:3], ['u of complementary solution', 'w of complementary solution', 'psi of complementary solution']
                    rhs = [f(zp, at) for f in forms]
                elif s in ('vpst-', '-vpst'):
                    xs, zs, w = M.fun(it, 'weac.tools.calc_vertical_bc_center_of_gravity', at['slab'], ph)
                    r = ph * sp.pi / 180
                    rhs = [-at['g'] * w * sp.sin(r), -at['g'] * w * (xs * sp.cos(r) + zs * sp.sin(r)), at['g'] * w * sp.cos(r)]
                elif s in ('pst-', '-pst') and mode == 'B' and not ki[i]:
                    forms, rhs, nn = [*NMV[:2], asm.FORMS[1]], [0, 0, S.tc], ['N', 'M', 'w = crack height']
                elif s in ('pst-', '-pst') and mode == 'C' and not ki[i]:
                    kR = P(f'K[{asm.nm(S.a - S.td)};rested;rot]')
                    qt = R(f'qt[{asm.nm(phi)}]') + R(f'pt[{asm.nm(phi)}]')
                    forms = [NMV[0], lambda z, a, g=sgn, k=kR: asm.M_(z, a) + g * k * z[4], asm.FORMS[1]]
                    rhs = [sgn * qt * (S.a - S.td), 0, S.tc]
                    nn = ['N = tangential load of resting part', 'M + rotational resistance', 'w = crack height']
                elif s == 'rot' and side == 0:
                    rhs, nn = [0, 1, 0], ['N', 'M = 1', 'V']
                elif s == 'trans' and side == 0:
                    rhs, nn = [0, 0, 1], ['N', 'M', 'V = 1']
                ref += asm.end(forms, rhs, e, i, side, n, at)
                names += [f"{'right' if side else 'left'} end: {x}" for x in nn]
            if s in ('rot', 'trans'):
                # on flat ground the bedded particular solution carries no section forces (C04)
                sub = {}
                for q in e:
                    for z in q[2:]:
                        for k in range(6):
                            if k != 2:
                                sub[z[k, 0]] = 0
                fx = lambda rows: [[sp.sympify(x).subs(sub) for x in r] for r in rows]
                code, ref = fx(code), fx(ref)
            outer = [r for r in code if sum(any(sp.sympify(v) != 0 for v in r[6 * k:6 * k + 6]) for k in range(n)) == 1]
            v, how = asm.compare(outer, ref, it.dom)
            for nme, x in zip(names, v):
                ck.obl('end conditions', f'{tag}, {nme}', x, f'equation not imposed ({how})' if x is False else how, where='assemble_and_solve')
            ck.saw(it)
    # a single bedded segment of the auxiliary problem: load case of substitute_stiffness
    for dof in ('rot', 'trans'):
        for sup in ('supported', 'rested'):
            tag = f'substitute_stiffness({sup}, {dof})'
            with ck.guard('auxiliary problem', tag):
                it = M.interp()
                m = M.model(it)
                m.attrs.update(ratio=S.ratio, phi=phi, slab=M.slabmat(2), mode='A')
                seen = {}

                def probe(it_, env, node, seen=seen):
                    own = env['self'].attrs
                    was = {q: own[q] for q in EIGEN if q in own}
                    it_.call(it_.getattr(env['self'], 'calc_eigensystem'), [], {}, node)
                    seen['own'] = D.conj(D.equal(it_, was.get(q), own[q]) for q in EIGEN if q in own)
                    own.update(was)
                    seen.update(li=env['li'], mi=env['mi'], ki=env['ki'], phi=env['phi'], system=env['self'].attrs['system'],
                                kn=env['self'].attrs['kn'], kt=env['self'].attrs['kt'])
                    return NotImplemented
                it.mstubs['assemble_and_solve'] = probe
                M.call(it, m, 'calc_eigensystem')
                k = M.call(it, m, 'substitute_stiffness', S.L, sup, dof)
                r = S.ratio if sup == 'rested' else 1
                good = bool(seen) and seen['system'] == dof and all(bool(x) for x in list(seen['ki'])) and \
                    sp.expand(sum(list(seen['li'])) - S.L) == 0 and all(x == 0 for x in list(seen['mi'])) and \
                    sp.expand(seen['kn'] - r * S.kn) == 0 and sp.expand(seen['kt'] - r * S.kt) == 0 and seen['phi'] == 0
                ck.obl('auxiliary problem', tag + ' poses a bedded beam of the given length on level ground', good, seen)
                ck.obl('auxiliary problem', tag + ' is solved with the fundamental system of its own foundation', seen.get('own'),
                       'eigensystem does not belong to the foundation stiffness in use' if seen.get('own') is False else '', where='substitute_stiffness')
                # stiffness is the reciprocal of the conjugate response to the unit load, without slab weight
                ks = sp.sympify(k)
                w = [s for s in ks.free_symbols if str(s) in ('p', 'g') or str(s).startswith('rho')]
                keep = [s for s in w if sp.simplify(sp.diff(ks, s)) != 0]
                ck.obl('auxiliary problem', tag + ' spring stiffness independent of the loads', True if not keep else None if not w else False,
                       f'{ks} depends on {keep}')
                ck.saw(it)
            # ... and the unit load over that response
            with ck.guard('auxiliary problem', tag + ' value'):
                it = M.interp()
                m = M.model(it)
                m.attrs.update(ratio=S.ratio, phi=phi, slab=M.slabmat(2), mode='A')
                asm.stub_segments(it)
                U = np.array([[R(f'U{i}_{j}') for j in range(2)] for i in range(6)], dtype=object)
                it.mstubs['assemble_and_solve'] = lambda it_, env, node: U.copy()
                k = M.call(it, m, 'substitute_stiffness', S.L, sup, dof)
                row = 4 if dof == 'rot' else 2
                h = asm.zh_sym(0, S.L, True)
                resp = sum(h[row, q] * U[q, 0] for q in range(6))
                hit = [is_zero(sp.sympify(k) - 1 / f, it.dom, opaque=True) for f in (sp.Abs(resp), resp, -resp)]
                if dof == 'rot':  # rotation of the loaded state or relative to the state under constant load
                    p0 = asm.zp_sym(0, sp.Integer(0), True)[row, 0]
                    hit += [is_zero(sp.sympify(k) - 1 / f, it.dom, opaque=True) for f in (sp.Abs(resp + p0), resp + p0, -resp - p0)]
                ck.obl('auxiliary problem', tag + ' spring stiffness is the unit load over the response at its point of attack',
                       True if True in hit else None if None in hit else False, k, where='substitute_stiffness')
                ck.saw(it)


if __name__ == '__main__':
    main('C06', RULE, check, minimum=100, assumptions=[
        'segment functions satisfy C04, wedge weight and centre C23', 'numpy.linalg.solve solves the system it is given'])
