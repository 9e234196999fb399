"""C18: ill-posed assemblies are refused before they are solved."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import AbsRaise
from vlib.model import S, R, P, flat
from vlib.harness import main

RULE = ('Typestate over abstract interpretation of assemble_and_solve with symbolic lengths, loads and inclination: for every list-length '
        'and foundation pattern the table calls ill-posed, every path must leave with ValueError before a segment function is evaluated '
        'or a linear system is solved; for every well-posed pattern no path may raise and exactly one system is solved.')
INF = ('skier', 'skiers')
FORMS = {'array': lambda v: np.array(list(v), dtype=object), 'list': list, 'tuple': tuple}


def setup(system, mode='A', n=1):
    it = M.interp()
    m = M.model(it, system=system if system in M.SYS else 'pst-')
    m.attrs.update(system=system, mode=mode, tc=S.tc, a=S.td + P('rest') if mode == 'C' else S.a, td=S.td, L=S.L, phi=R('phim'), ratio=S.ratio)
    m.attrs['slab'] = M.slabmat(1)
    asm.stub_segments(it)
    asm.stub_loads(it)
    it.stubs['calc_vertical_bc_center_of_gravity'] = lambda it_, env, node: (R('xs'), R('zsw'), P('mw'))
    log = []
    for nm in ('zh', 'zp'):
        def f(it_, env, node, g=it.mstubs[nm], nm=nm):
            log.append(nm)
            return g(it_, env, node)
        it.mstubs[nm] = f
    return it, m, log


def call(it, m, li, mi, ki, form, phi=R('phi')):
    mk = FORMS[form]
    return M.call(it, m, 'assemble_and_solve', phi=phi, li=mk(li), mi=mk(mi), ki=mk(ki))


def ill(ck, kind, system, li, mi, ki, form, mode='A'):
    rule = 'ill-posed assembly is refused before it is assembled'
    tag = f"{kind}: {system} {mode} {len(li)} lengths {len(mi)} loads flags {''.join('TF'[not k] for k in ki)} {form}"
    it, m, log = setup(system, mode)
    with ck.guard(rule, tag):
        try:
            r = call(it, m, li, mi, ki, form)
        except AbsRaise as e:
            solved = any(x['kind'] == 'solve' for x in it.events)
            early = not solved and (not log or kind.startswith('unknown'))
            ck.obl(rule, tag, e.exc == 'ValueError' and early, f'{e.exc}{e.eargs} after {len(log)} segment evaluations', where='assemble_and_solve')
            ck.saw(it)
            return
        may = [x for x in it.may_raises]
        ck.obl(rule, tag, None if any('ValueError' in str(x) for x in may) else False, f'accepted: {str(r)[:100]}', where='assemble_and_solve')
        ck.saw(it)


def well(ck, system, li, mi, ki, form, mode='A'):
    rule = 'well-posed assembly is never refused'
    tag = f"{system} {mode} {''.join('TF'[not k] for k in ki)} {form}"
    it, m, log = setup(system, mode)
    with ck.guard(rule, tag, on_raise=False):
        C = call(it, m, li, mi, ki, form)
        n = len(li)
        ck.obl(rule, tag, isinstance(C, np.ndarray) and C.shape == (6, n), f'constants of shape {getattr(C, "shape", C)}', where='assemble_and_solve')
        may = [x for x in it.may_raises]
        ck.obl(rule, tag + ': unconditionally', not may, str(may)[:300], where='assemble_and_solve')
        ck.obl('one system is solved', tag, sum(x['kind'] == 'solve' for x in it.events) == 1 or None, where='assemble_and_solve')
        ck.saw(it)


def position(ck, pos, k, mode):
    rule = 'unknown position is refused'
    tag = f'eqs(pos={pos!r}, k={k}) stage {mode}'
    it, m, log = setup('pst-', mode)
    with ck.guard(rule, tag):
        try:
            r = M.call(it, m, 'eqs', zl=M.Zvec(1, 'l'), zr=M.Zvec(1, 'r'), k=k, pos=pos)
        except AbsRaise as e:
            ck.obl(rule, tag, e.exc == 'ValueError', f'{e.exc}{e.eargs}', where='eqs')
            ck.saw(it)
            return
        ck.obl(rule, tag, None if it.may_raises else False, f'accepted: {str(r)[:100]}', where='eqs')


def check(ck):
    tasks = []
    N = 5 if ck.thorough else 4
    systems = M.SYS + ['rot', 'trans']
    for system in systems:
        inf = system in INF
        for n in range(0, N + 1):
            li = D.lens(n)
            mi = [P(f'm{i}') for i in range(max(n - 1, 0))]
            for form in FORMS:
                tasks.append((ill, 'no support', system, li, mi, [False] * n, form))
            good = [k for k in itertools.product((True, False), repeat=n) if any(k) and (not inf or (k[0] and k[-1]))]
            for k in good if n < 5 else good[:3]:
                for form in FORMS if n <= 2 or k == good[0] else ('array',):
                    tasks.append((well, system, li, mi, list(k), form))
                if system in ('pst-', '-pst') and not (k[0] and k[-1]) and n <= 3:
                    # contact of the free end implies the crack lies at that end
                    if (k[-1] is False) != (k[0] is False) and n == 2:
                        for md in 'BC':
                            tasks.append((well, system, li, mi, list(k), 'array', md))
            if inf:
                for k in itertools.product((True, False), repeat=n):
                    if any(k) and not (k[0] and k[-1]):
                        for form in FORMS if n <= 2 else ('array',):
                            tasks.append((ill, 'unsupported end', system, li, mi, list(k), form))
            # inconsistent list lengths
            for nl, nm_, nk in itertools.product(range(0, N + 1), repeat=3):
                if nk != n or (nl == nk and nm_ == nl - 1):
                    continue
                if abs(nl - nk) > 1 and not ck.thorough:
                    continue
                if abs(nm_ - nl + 1) > 1 and not ck.thorough:
                    continue
                for form in ('array', 'list') if n == 2 else ('array',):
                    tasks.append((ill, 'inconsistent lists', system, D.lens(nl), [P(f'm{i}') for i in range(nm_)], [True] * nk, form))
    for s in ('junk', '', 'PST-', 'pst', 'vpst', 'skiers ', 'rested', 'supported', 'pst--'):
        for n in (1, 2, 3):
            tasks.append((ill, 'unknown system', s, D.lens(n), [P(f'm{i}') for i in range(n - 1)], [True] * n, 'array'))
    for pos in ('junk', '', 'L', 'center', 'le', 'ri', 'mi', 'lr', 'middle', None, 0):
        for k in (True, False):
            for mode in 'ABC':
                tasks.append((position, pos, k, mode))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C18', RULE, check, minimum=300, assumptions=['up to 4 (thorough 5) segments; lengths, loads and inclination arbitrary'])
