"""C11: results depend on current settings, not on call history."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D
from vlib.model import S, R, P
from vlib.interp import AbsRaise, Gate, Obj
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of setter and layout sequences on one instance: the resulting heap and the laid-out segments must be '
        'equal, term by term and so for all values, to those of a model built freshly with the final settings.')


def mixed(i):
    """Settings number i, or (tuple) those of i[0] with the parameters named in i[1:] from number 2."""
    return (lambda p: 2 if p in i[1:] else i[0]) if isinstance(i, tuple) else (lambda p: i)


def foundation(i):
    if i == 'scaled':
        # same springs from a different layer
        return 'set_foundation_properties', dict(t=P('scale') * P('t1'), E=P('scale') * P('Ew1'), nu=sp.Symbol('nw1', positive=True))
    j = mixed(i)
    return 'set_foundation_properties', dict(t=P(f"t{j('t')}"), E=P(f"Ew{j('E')}"), nu=sp.Symbol(f"nw{j('nu')}", positive=True))


def beam(i, n=2):
    if i == 'swapped':
        return 'set_beam_properties', dict(beam(1)[1], layers=beam(1)[1]['layers'][::-1])
    j = mixed(i)
    return 'set_beam_properties', dict(layers=[[P(f"rho{j('rho')}{k}"), P(f"h{j('h')}{k}")] for k in range(n)],
                                       C0=P(f"C0{j('C0')}"), C1=P(f"C1{j('C1')}"), nu=sp.Symbol(f"ns{j('nu')}", positive=True))


def load(i):
    return 'set_surface_load', dict(p=R(f'p{i}'))


def layout(i, system):
    j = mixed(i)
    kw = dict(L=P(f"L{j('L')}"), a=P(f"a{j('a')}"), phi=R(f"phi{j('phi')}"), cf=P(f"cf{j('cf')}"), ratio=P(f"ratio{j('ratio')}"),
              m=P(f"m{j('m')}"))
    if system == 'skiers':
        kw.update(li=list(D.lens(3, f"l{j('li')}")), mi=[P(f"ma{j('mi')}"), P(f"mb{j('mi')}")], ki=[True, False, True], k0=[True] * 3)
    return 'calc_segments', kw


KIND = dict(f=foundation, b=beam, l=load)


def apply(it, m, ops, system):
    out = None
    for k, i, upd in ops:
        if k == 'R':
            M.call(it, m, 'calc_fundamental_system')
        elif k == 'S':
            n, kw = layout(i, system)
            out = it.call(it.getattr(m, n), [], kw, None)
        elif k == 'sys':
            it.setattr(m, 'system', i)
            system = i
        elif k == 'td':
            it.setattr(m, 'touchdown', i)
        elif k == 'z':
            z = it.getattr(m, 'z')
            it.call(z, [R('xx'), D.consts(1), S.l, R(f'phi{i}')], dict(bed=True), None)
        else:
            n, kw = KIND[k](i)
            if upd:
                kw['update'] = True
            it.call(it.getattr(m, n), [], kw, None)
    return out, system


def final(ops, system, td):
    """settings that are in force at the end"""
    last = {}
    for k, i, upd in ops:
        if k in KIND:
            last[k] = i
        elif k == 'S':
            last['S'] = i
        elif k == 'sys':
            system = i
        elif k == 'td':
            td = i
    return [(k, last[k], False) for k in 'fbl' if k in last] + [('R', 0, 0)] + ([('S', last['S'], 0)] if 'S' in last else []), system, td


# state that users read; any further attribute is internal and judged by what the evaluation methods return
FIELDS = set('A11 B11 D11 K0 L a betaC betaU evC evR ewC ewR g h k kA55 kn kt lski mode p phi ratio sC sR slab system t tc td tol '
             'touchdown weak zs'.split())


def observe(it, m):
    """What a user evaluates with a configured model."""
    x, phi, C = R('xx'), R('phiq'), D.consts(1)
    out = {}
    for bed in (True, False):
        out[f'solution bed={bed}'] = lambda bed=bed: it.call(it.getattr(m, 'z'), [x, C, S.l, phi], dict(bed=bed), None)
        out[f'particular solution bed={bed}'] = lambda bed=bed: it.call(it.getattr(m, 'zp'), [x, phi], dict(bed=bed), None)
    for n in ('get_weight_load', 'get_surface_load'):
        out[n] = lambda n=n: it.call(it.getattr(m, n), [phi], {}, None)
    return out


def one(ck, cls, system, td, ops, tag):
    rule = 'state equals that of a fresh model'
    with ck.guard(rule, tag):
        res = []
        ref, fsys, ftd = final(ops, system, td)
        for o, s, t in ((ops, system, td), (ref, fsys, ftd)):
            it = M.interp()
            if res:
                it.dom.csyms, it.dom.conds = res[0][0].dom.csyms, res[0][0].dom.conds
            it.mstubs['substitute_stiffness'] = sub_stub
            D.ceil2(it)
            kw = dict(system=s)
            if 'layered' in cls:
                kw['touchdown'] = t
            m = M.new(it, cls, **kw)
            out, _ = apply(it, m, o, s)
            ck.saw(it)
            res.append((it, m, out))
        (it, m, out), (it2, m2, out2) = res
        for k in sorted(set(m.attrs) | set(m2.attrs)):
            if k not in FIELDS:
                continue
            if k not in m2.attrs or k not in m.attrs:
                v = False
            else:
                v = D.equal(it, m.attrs[k], m2.attrs[k])
            ck.obl(rule, f'{tag}: {k}', v, '' if v else f'{k} is {str(m.attrs.get(k))[:300]}, fresh model has {str(m2.attrs.get(k))[:300]}')
        if out2 is not None:
            v = D.equal(it, out, out2)
            ck.obl('layout equals that of a fresh model', tag, v, '' if v else f'{str(out)[:300]} instead of {str(out2)[:300]}')


        o1, o2 = observe(it, m), observe(it2, m2)
        for k in o1:
            with ck.guard('results equal those of a fresh model', f'{tag}: {k}'):
                r1, r2 = o1[k](), o2[k]()
                v = D.equal(it, r1, r2)
                ck.obl('results equal those of a fresh model', f'{tag}: {k}', v, '' if v else f'{str(r1)[:300]} instead of {str(r2)[:300]}')


def names(v, seen=None):
    """Symbols the value is made of."""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return set()
    seen.add(id(v))
    if isinstance(v, sp.Basic):
        return {str(q) for q in v.free_symbols}
    if isinstance(v, np.ndarray):
        v = v.ravel().tolist()
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple, set)):
        return set().union(*[names(q, seen) for q in v]) if v else set()
    if isinstance(v, Gate):
        return names(v.a, seen) | names(v.b, seen)
    if isinstance(v, Obj):
        return names(v.attrs, seen)
    return set()


def reached(ck, cls, system, op, kw0):
    """Every setting given to a setter or a layout reaches the state the results are computed from."""
    rule = 'a setting takes effect'
    tag = f"{cls.rpartition('.')[2]} {system} {op[0]}"
    with ck.guard(rule, tag):
        it = M.interp()
        it.mstubs['substitute_stiffness'] = sub_stub
        D.ceil2(it)
        m = M.new(it, cls, system=system, **kw0)
        ops = ([('R', 0, 0)] if op[0] == 'S' else []) + [op] + ([('R', 0, 0)] if op[0] != 'S' else [])
        out, _ = apply(it, m, ops, system)
        ck.saw(it)
        have = names([m.attrs, out])
        kw = (KIND[op[0]](op[1]) if op[0] in KIND else layout(op[1], system))[1]
        for k, v in kw.items():
            unused = set()
            if op[0] == 'S':
                unused |= set() if kw0.get('touchdown') else {'cf', 'ratio', 'phi'}
                unused |= set() if system == 'skier' else {'m'}
                unused |= {'L', 'a'} if system == 'skiers' else set()
            if k in unused:
                continue
            for s in sorted(names(v)):
                ck.obl(rule, f'{tag}: {k} ({s})', s in have, 'nothing in the model or the layout depends on it')


def sub_stub(it, env, node):
    """Spring stiffness as a function of everything it may depend on (its own behaviour is C06, C12)."""
    a = env['self'].attrs
    from vlib.dom_alg import digest
    dep = [a.get(k) for k in ('A11', 'B11', 'D11', 'kA55', 'h', 't', 'kn', 'kt', 'ratio', 'p', 'g', 'zs')]
    if not all(isinstance(v, (int, float, sp.Basic)) for v in dep + [env['L']]):
        return NotImplemented
    return P('K_' + digest(*[sp.sympify(v) for v in dep + [env['L']]], dom=it.dom) + f"_{env.get('support', 'rested')}_{env.get('dof', 'rot')}")


def check(ck):
    tasks = []
    L, I = 'weac.layered.Layered', 'weac.inverse.Inverse'

    def add(cls, system, td, ops):
        t = ' '.join(f"{k}{i}{'u' if u else ''}" for k, i, u in ops)
        tasks.append((cls, system, td, ops, f"{cls.rpartition('.')[2]} {system}{' touchdown' if td else ''}: {t}"))
    # layouts after layouts
    for s in M.SYS:
        for td in (False, True):
            if td and s not in ('pst-', '-pst') and not ck.thorough and s != 'vpst-':
                continue
            add(L, s, td, [('S', 1, 0), ('S', 2, 0)])
    add(I, 'pst-', False, [('S', 1, 0), ('S', 2, 0)])
    # every order of two or three setters, with and without update, after an earlier full configuration
    for r in (1, 2, 3):
        for seq in itertools.permutations('fbl', r):
            for upd in (False, True):
                ops = [('f', 1, 0), ('b', 1, 0), ('l', 1, 0), ('R', 0, 0), ('S', 1, 0)]
                ops += [(k, 2, upd and k != 'l') for k in seq]
                if not upd or 'l' in seq:
                    ops.append(('R', 0, 0))
                ops.append(('S', 2, 0))
                add(L, 'pst-', True, ops)
                if r == 1 or ck.thorough:
                    add(L, 'vpst-', False, ops)
                    add(L, 'skiers', False, ops)
                    add(I, '-pst', False, ops)
    # settings that share all values but one (or share what is derived from them) with the earlier ones
    base = [('f', 1, 0), ('b', 1, 0), ('l', 1, 0), ('R', 0, 0), ('S', 1, 0)]
    shared = [('f', (1, p), 0) for p in ('t', 'E', 'nu')] + [('f', 'scaled', 0)]
    shared += [('b', (1, p), 0) for p in ('rho', 'h', 'C0', 'C1', 'nu')] + [('b', 'swapped', 0)]
    for op in shared:
        add(L, 'pst-', True, base + [op, ('R', 0, 0), ('S', 1, 0)])
        add(L, 'pst-', False, base + [(op[0], op[1], True), ('S', 1, 0)])
        if ck.thorough:
            add(L, 'vpst-', True, base + [op, ('R', 0, 0), ('S', 1, 0)])
            add(I, '-pst', False, base + [op, ('R', 0, 0), ('S', 1, 0)])
    for s in ('pst-', '-pst', 'vpst-') + (('-vpst',) if ck.thorough else ()):
        for p in ('L', 'a', 'phi', 'cf', 'ratio'):
            add(L, s, True, base + [('S', (1, p), 0)])
        add(L, s, True, base + [('l', 2, 0), ('S', 1, 0)])
    for p in ('L', 'a', 'phi', 'm', 'cf'):
        add(L, 'skier', False, base + [('S', (1, p), 0)])
    for p in ('li', 'mi'):
        add(L, 'skiers', False, base + [('S', (1, p), 0)])
    # update=True alone recalculates everything that depends on the setting
    for k in 'fb':
        add(L, 'pst-', False, [(k, 1, True), (k, 2, True)])
        add(L, 'pst-', False, [('f', 1, False), ('b', 1, True), (k, 2, True)])
        add(I, 'pst-', False, [(k, 1, True), (k, 2, True)])
    # evaluation in between
    add(L, 'pst-', False, [('S', 1, 0), ('z', 1, 0), ('f', 2, True), ('z', 2, 0), ('b', 2, True), ('z', 2, 0), ('S', 2, 0)])
    # switching system or contact option
    for s1, s2 in (('pst-', 'vpst-'), ('-pst', 'pst-'), ('pst-', 'skier'), ('vpst-', 'pst-')):
        add(L, s1, True, [('S', 1, 0), ('sys', s2, 0), ('S', 2, 0)])
    add(L, 'pst-', True, [('S', 1, 0), ('td', False, 0), ('S', 2, 0)])
    add(L, 'pst-', False, [('S', 1, 0), ('td', True, 0), ('S', 2, 0)])
    if ck.thorough:
        for s in ('pst-', '-pst'):
            add(L, s, True, [('S', 1, 0), ('S', 2, 0), ('S', 3, 0)])
            for seq in itertools.product('fblS', repeat=3):
                add(L, s, True, [('S', 1, 0)] + [(k, 2, k in 'fb') for k in seq] + [('R', 0, 0), ('S', 3, 0)])
    ck.pmap(one, tasks)
    jobs = [(c, 'pst-', (k, 1, False), {}) for c in (L, I) for k in 'fbl']
    jobs += [(L, s, ('S', 1, False), dict(touchdown=td)) for s in M.SYS for td in (False, True) if not td or s in ('pst-', '-pst', 'vpst-', '-vpst')]
    jobs += [(I, s, ('S', 1, False), {}) for s in ('pst-', 'skier')]
    ck.pmap(reached, jobs)


if __name__ == '__main__':
    main('C11', RULE, check, minimum=100, assumptions=[
        'sequences of up to three setters after a full configuration; longer histories repeat the same state transitions',
        'root searches and eigen-decompositions are functions of their arguments'])
