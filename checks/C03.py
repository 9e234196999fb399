"""C03: the response is linear in the loads, energies are quadratic."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import TOP, NAN, Gate, Func, AbsRaise
from vlib.model import S, R, P, flat
from vlib.prove import is_zero, replace
from vlib.harness import main, Broken

RULE = ('Abstract interpretation with symbolic loads, field values and constants of integration: the derived terms satisfy superposition '
        '(f(a+b) = f(a) + f(b)), positive homogeneity, the parallelogram law of quadratic forms, or independence of the loads, in normal '
        'form; the matrix and the right-hand side handed to the linear solver and the functions handed to root searches are judged the same way.')

LINEAR = {'w', 'dw_dx', 'psi', 'dpsi_dx', 'u', 'du_dx', 'N', 'M', 'V', 'sig', 'tau', 'eps', 'gamma', 'dz_dx', 'dz_dxdx', 'du0_dxdx', 'du0_dxdxdx',
          'dpsi_dxdx', 'dpsi_dxdxdx', 'Sxx', 'Txz', 'Szz', 'get_weight_load', 'get_surface_load', 'get_skier_load', 'get_load_vector', 'calc_qn',
          'calc_qt', 'z', 'zp', 'bc', 'eqs', 'rasterize_solution', 'get_slab_displacement', 'get_slab_deflection', 'get_slab_rotation',
          'get_slab_axial_displacement', 'get_weaklayer_normalstress', 'get_weaklayer_shearstress'}
HOMOG = {'principal_stress_slab', 'principal_stress_weaklayer'}
QUADRATIC = {'Gi', 'Gii', 'gdif', 'ginc', 'int1', 'int2', 'internal_potential', 'external_potential', 'total_potential'}
CONST = {'zh', 'substitute_stiffness', 'calc_system_matrix', 'get_zmesh', 'get_ply_coordinates', 'calc_lA', 'calc_lB'}
LOADS = (S.g, S.p, S.tc)


def split(e, loads, dom):
    """The loads of two experiments and of their sum and difference."""
    a = {s: sp.Symbol(s.name + '|a', real=True) for s in loads}
    b = {s: sp.Symbol(s.name + '|b', real=True) for s in loads}
    sub = lambda v, m: replace(v, m, dom)
    return (sub(e, a), sub(e, b), sub(e, {s: a[s] + b[s] for s in loads}), sub(e, {s: a[s] - b[s] for s in loads}))


def verdict(e, kind, loads, dom):
    if e is NAN:
        return True
    if e is TOP or isinstance(e, Gate) or not isinstance(e, (int, float, sp.Basic)):
        return None
    e = sp.sympify(e)
    ys = [s for s in e.free_symbols if s in loads]
    if not ys:
        return True if kind == 'const' else is_zero(e, dom)
    if kind == 'const':
        k = P('scale')
        return D.conj([is_zero(replace(e, {s: k * s for s in ys}, dom) - e, dom), is_zero(split(e, ys, dom)[2] - split(e, ys, dom)[0], dom)])
    if kind == 'homogeneous':
        k = P('scale')
        return is_zero(replace(e, {s: k * s for s in ys}, dom) - k * e, dom)
    a, b, s, d = split(e, ys, dom)
    if kind == 'linear':
        return is_zero(s - a - b, dom)
    k = P('scale')
    return D.conj([is_zero(s + d - 2 * a - 2 * b, dom), is_zero(replace(e, {q: k * q for q in ys}, dom) - k**2 * e, dom)])


RULES = {'linear': 'response is linear in the loads', 'homogeneous': 'response is proportional to the loads',
         'quadratic': 'energy is quadratic in the loads', 'const': 'independent of the loads'}


def quad_linear(it):
    """Definite integrals as a linear functional of the integrand (its value at one unknown point)."""
    def quad(it_, args, kwargs, node):
        v = it_.call(args[0], [sp.Symbol('xq', real=True)], {}, node)
        v = v.ravel()[0] if isinstance(v, np.ndarray) else v
        return (v * (args[2] - args[1]), 0)
    it.ext['scipy.integrate.quad'] = quad


def leaves(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [q for x in v for q in leaves(x)]
    if isinstance(v, np.ndarray):
        return [q for x in v.ravel().tolist() for q in leaves(x)]
    return [v]


def symbols_of(*vals):
    out = set(LOADS)
    for v in vals:
        for q in leaves(v):
            if isinstance(q, sp.Basic):
                out |= q.free_symbols
    return out


def method(ck, name, system, mode, opts, tag):
    kind = 'linear' if name in LINEAR else 'homogeneous' if name in HOMOG else 'quadratic' if name in QUADRATIC else 'const'
    with ck.guard(RULES[kind], tag):
        it = M.interp()
        D.ceil2(it)
        quad_linear(it)
        m = D.ready(it, system, mode, n=1 if name in HOMOG else 2)
        if name in HOMOG and name.endswith('slab'):
            st = {}

            def comp(nm):
                def f(it_, env, node):
                    k = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
                    return np.array([[R(f"Z<{nm}{i};{asm.nm(env['phi'])};{env['unit']}>")] for i in range(k)], dtype=object)
                return f
            for nm in ('Sxx', 'Txz', 'Szz'):
                it.mstubs[nm] = comp(nm)
        if name in ('internal_potential', 'external_potential', 'total_potential', 'bc', 'eqs', 'assemble_and_solve'):
            it.mstubs['substitute_stiffness'] = lambda it_, env, node: P('kR')
        if name in ('internal_potential', 'external_potential', 'total_potential', 'gdif', 'ginc', 'rasterize_solution'):
            def z(it_, env, node):   # linear in constants and loads: checked on its own
                c, x = env['C'], env['x']
                xs = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
                out = np.empty((6, len(xs)), dtype=object)
                for j, v in enumerate(xs):
                    out[:, j] = [R(f"Z<{c.ravel()[0]};{asm.nm(v)};{asm.nm(env['l'])};{asm.nm(env['phi'])};{asm.nm(env['bed'])}>{q}") for q in range(6)]
                return out
            it.mstubs['z'] = z
        f = it.getattr(m, name)
        try:
            kw = D.arguments(it, m, name, f.func, system, opts=opts, cols=1)
        except D.Skip:
            return
        fields = [kw[k] for k in ('Z', 'Ztip', 'z', 'zb', 'zl', 'zr', 'C', 'C0', 'C1', 'x') if k in kw and (k != 'x' or name.startswith('get_'))]
        loads = symbols_of(*[v for v in fields if not hasattr(v, 'kwargs')])
        loads |= symbols_of(D.consts(1, 'C'), D.consts(1, 'D')) if name in ('int1', 'int2') else set()
        try:
            r = it.call(f, [], dict(kw), None)
        except AbsRaise:
            return
        ck.saw(it)
        if name == 'rasterize_solution' or name.startswith('get_slab_') or name.startswith('get_weaklayer_'):
            r = r[1]   # coordinates do not depend on the loads
        if kind == 'const' and name not in CONST:
            return
        ls = leaves(r)
        loads |= {q for e in ls if isinstance(e, sp.Basic) for q in e.free_symbols if q.name.startswith('Z<')}
        v = [verdict(e, kind, loads, it.dom) for e in ls]
        bad = [str(e)[:200] for e, q in zip(ls, v) if q is not True]
        ck.obl(RULES[kind], tag, D.conj(v), '; '.join(bad[:2]), where=name)


def eigen(ck):
    with ck.guard(RULES['const'], 'eigenproblem'):
        it = M.interp()
        m = D.ready(it, 'pst-', 'A', abstract=False)
        for f in ('set_foundation_properties', 'set_beam_properties'):
            if isinstance(m.cls.find(f)[1], Func):
                pass
        M.call(it, m, 'calc_fundamental_system')
        ck.saw(it)
        K = [e for e in it.events if e['kind'] == 'eig']
        if not K:
            raise Broken('no eigenproblem is solved')
        for i, e in enumerate(flat(K[-1]['K'])):
            ck.obl(RULES['const'], f'system matrix entry {i // 6},{i % 6}', verdict(e, 'const', set(LOADS), it.dom), e, where='calc_system_matrix')
        for a in ('A11', 'B11', 'D11', 'kA55', 'K0', 'kn', 'kt', 'h', 'zs', 'ewC', 'ewR', 'evC', 'evR'):
            if a in m.attrs:
                ls = leaves(m.attrs[a])
                ck.obl(RULES['const'], f'attribute {a}', D.conj(verdict(e, 'const', set(LOADS), it.dom) for e in ls), str(ls)[:200], where='calc_fundamental_system')


def system(ck, sysname, mode, ki):
    tag = f"{sysname} mode {mode} ki={''.join('TF'[not k] for k in ki)}"
    with ck.guard('linear system', tag):
        it = M.interp()
        m = M.model(it, system=sysname if sysname in M.SYS else 'pst-')
        m.attrs.update(system=sysname, mode=mode, tc=S.tc, a=S.td + P('rest'), td=S.td, phi=D.PHI, touchdown=mode != 'A', slab=M.slabmat(2))
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P('kR')
        n = len(ki)
        li = [P(f'l{i}') for i in range(n)]
        if sysname in ('rot', 'trans'):
            phi = sp.Integer(0)
        else:
            phi = D.PHI
        M.call(it, m, 'assemble_and_solve', phi, M.arr(li), M.arr([P(f'm{i}') for i in range(n - 1)]), np.array(ki, dtype=object))
        ck.saw(it)
        ev = [e for e in it.events if e['kind'] == 'solve']
        if not ev:
            raise Broken('no linear system is solved')
        A, b = ev[-1]['A'], ev[-1]['b']
        loads = set(LOADS)
        for r in range(A.shape[0]):
            ck.obl('coefficient matrix does not depend on the loads', f'{tag} row {r}',
                   D.conj(verdict(e, 'const', loads, it.dom) for e in A[r]), '', where='assemble_and_solve')
            kind = 'const' if sysname in ('rot', 'trans') else 'linear'
            ck.obl('right-hand side is linear in the loads' if kind == 'linear' else 'right-hand side of substitute springs does not depend on the loads',
                   f'{tag} row {r}', verdict(b[r, 0], kind, loads, it.dom), b[r, 0], where='assemble_and_solve')


def searches(ck, sysname, name):
    """Scaling loads and crack height alike leaves contact stages and lengths alone."""
    tag = f'{name} [{sysname}]'
    with ck.guard('contact lengths are unchanged when loads and crack height are scaled', tag):
        it = M.interp()
        m = D.ready(it, sysname, 'A', touchdown=True)
        m.attrs['phi'] = D.PHI
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P(f"k[{asm.nm(env['L'])};{env['support']};{env['dof']}]")
        M.call(it, m, name)
        ck.saw(it)
        ev = [e for e in it.events if e['kind'] == 'brentq']
        if len(ev) != 1:
            ck.obl('contact lengths are unchanged when loads and crack height are scaled', tag, None, f'{len(ev)} searches', where=name)
            return
        e, k = ev[0], P('scale')
        f = sp.sympify(e['f'])
        g = replace(f, {s: k * s for s in LOADS}, it.dom)
        v = [is_zero(g - k**p * f, it.dom, opaque=True) for p in (0, 1, -1, 2)]
        ck.obl('contact lengths are unchanged when loads and crack height are scaled', tag, True if True in v else False if all(q is False for q in v) else None,
               f, where=name)
        ck.obl('contact lengths are unchanged when loads and crack height are scaled', f'{tag} interval',
               D.conj(verdict(e[q], 'const', set(LOADS), it.dom) for q in 'ab'), '', where=name)


def springs(ck, support, dof):
    tag = f'substitute_stiffness({support}, {dof})'
    with ck.guard(RULES['const'], tag):
        it = M.interp()
        m = D.ready(it, 'pst-', 'A', touchdown=True)
        m.attrs['phi'] = D.PHI
        M.call(it, m, 'substitute_stiffness', P('Ls'), support, dof)
        ck.saw(it)
        ev = [e for e in it.events if e['kind'] == 'solve']
        for e in ev:
            for r in range(e['A'].shape[0]):
                ck.obl(RULES['const'], f'{tag} row {r}', D.conj(verdict(q, 'const', set(LOADS), it.dom) for q in [*e['A'][r], e['b'][r, 0]]),
                       e['b'][r, 0], where='substitute_stiffness')


def evaluate(ck, support, dof):
    """Stiffness evaluated from the solution: the settlement under the loads cancels."""
    tag = f'substitute_stiffness({support}, {dof}) value'
    with ck.guard(RULES['const'], tag):
        it = M.interp()
        m = D.ready(it, 'pst-', 'A', touchdown=True)
        it.mstubs['assemble_and_solve'] = lambda it_, env, node: D.consts(2, 'U')
        k = M.call(it, m, 'substitute_stiffness', P('Ls'), support, dof)
        ck.saw(it)
        ls = leaves(k)
        ck.obl(RULES['const'], tag, D.conj(verdict(q, 'const', set(LOADS), it.dom) for q in ls), ls, where='substitute_stiffness')


def stages(ck):
    """Loads and crack height do not enter the layout otherwise than through the contact lengths."""
    for sysname in ('pst-', '-pst', 'vpst-', 'skier'):
        with ck.guard(RULES['const'], f'layout {sysname}'):
            it = M.interp()
            m = D.ready(it, sysname, 'A')
            m.attrs['touchdown'] = False
            seg = M.call(it, m, 'calc_segments', L=P('L'), a=P('a'), m=P('m'), phi=D.PHI, cf=P('cf'))
            ck.saw(it)
            for k in seg:
                for q in seg[k]:
                    ls = [x for x in leaves(seg[k][q]) if not isinstance(x, bool)]
                    ck.obl(RULES['const'], f'layout {sysname} {k} {q}', D.conj(verdict(e, 'const', set(LOADS), it.dom) for e in ls), ls, where='calc_segments')


def check(ck):
    it = M.interp()
    base = it.get('weac.layered.Layered')
    names = D.public(base)
    missing = [n for n in ('Gi', 'w', 'assemble_and_solve', 'gdif', 'zp') if n not in names]
    if missing:
        raise Broken(f'public methods not found: {missing}')
    tasks = [(eigen,), (stages,)]
    states = [('pst-', 'A'), ('-pst', 'B'), ('pst-', 'C'), ('skiers', 'A'), ('vpst-', 'A')]
    for name, f in sorted(names.items()):
        if name not in LINEAR | HOMOG | QUADRATIC | CONST or name in ('substitute_stiffness',):
            continue
        ps = D.params(f)[0]
        sysdep = {'C', 'C0', 'li', 'pos'} & set(ps) or name in ('bc', 'eqs')
        for sysname, mode in states if sysdep else states[:1]:
            for opts in D.option_sets(f, {'val': ('min', 'max'), 'pos': ('l', 'mid', 'r')}):
                tag = f"{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{sysname} {mode}]"
                tasks.append((method, name, sysname, mode, opts, tag))
    for s in M.SYS:
        for n in range(1, 4 if ck.thorough else 3):
            for ki in itertools.product((True, False), repeat=n):
                if not any(ki) or s.startswith('ski') and not (ki[0] and ki[-1]):
                    continue
                for mode in 'ABC':
                    if mode == 'A' or s in ('pst-', '-pst'):
                        tasks.append((system, s, mode, ki))
    tasks += [(system, 'skier', 'A', (True, False, False, True)), (system, 'skiers', 'A', (True, False, True))]
    tasks += [(searches, s, f) for s in ('pst-', '-pst') for f in ('calc_a1', 'calc_a2', 'calc_lC')]
    for sup in ('rested', 'supported'):
        for dof in ('rot', 'trans'):
            tasks += [(springs, sup, dof), (evaluate, sup, dof)]
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C03', RULE, check, minimum=300, assumptions=['exact arithmetic', 'definite integration is a linear functional of its integrand'])
