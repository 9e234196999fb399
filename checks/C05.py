"""C05: segments are joined continuously; only skier loads jump."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, asm
from vlib.model import S, R, P
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Gated value numbering of assemble_and_solve with the segment functions as uninterpreted terms: the equations handed '
        'to the linear solver are compared, as linear forms in the constants, with continuity of u, w, psi, N, M, V and the '
        'skier jumps at every interface, for every number of segments and foundation pattern up to the bound; the returned '
        'matrix is compared with the unknowns segment by segment.')


def check(ck):
    phi = R('phi')
    nmax = 5 if ck.thorough else 4
    runs = []
    for n in range(2, nmax + 1):
        for ki in itertools.product((True, False), repeat=n):
            if any(ki) and (ck.thorough or n < 4 or ki in ((True, False, True, True), (True, True, False, True), (True, False, False, True))):
                for s in M.SYS:
                    if s.startswith('ski') and not (ki[0] and ki[-1]):
                        continue
                    if n > 3 and s not in ('skiers', 'pst-'):
                        continue
                    runs.append((s, 'A', ki))
    # longer assemblies
    runs += [('skiers', 'A', ki) for ki in ((True, False, True, False, True), (True, True, False, False, True, True), (True,) * 7)]
    runs.append(('pst-', 'A', (True, True, False, True, False)))
    for mode in 'BC':
        for s, ki in (('pst-', (True, False)), ('-pst', (False, True)), ('pst-', (True, True, False)), ('-pst', (False, True, True))):
            runs.append((s, mode, ki))
    for s in ('rot', 'trans'):
        runs += [(s, 'A', (True, True)), (s, 'A', (True,))]
    for s in ('pst-', 'vpst-', 'skiers'):
        runs.append((s, 'A', (True,)))
    runs = [r + (None,) for r in runs]
    # interfaces without a skier between and before those with one
    for s, ki in (('skiers', (True, False, True, True)), ('skiers', (True, True, True)), ('pst-', (True, True, False))):
        for z in itertools.product((False, True), repeat=len(ki) - 1):
            if any(z):
                runs.append((s, 'A', ki, z))
    for s, mode, ki, zero in runs:
        n = len(ki)
        tag = f"{s} mode {mode} ki={''.join('TF'[not k] for k in ki)}"
        if zero:
            tag += ' without skier at ' + ', '.join(str(i + 1) for i, q in enumerate(zero) if q)
        with ck.guard('transmission conditions', tag):
            it = M.interp()
            m = M.model(it, system=s if s in M.SYS else 'pst-')
            m.attrs.update(system=s, mode=mode, tc=S.tc, a=S.a, td=S.td, phi=phi, touchdown=mode != 'A', slab=M.slabmat(2))
            asm.stub_segments(it)
            asm.stub_loads(it)
            li = [P(f'l{i}') for i in range(n)]
            mi = [0 if zero and zero[i] else P(f'm{i}') for i in range(n - 1)]
            C = M.call(it, m, 'assemble_and_solve', phi, M.arr(li), M.arr(mi), np.array(ki, dtype=object))
            ev = [e for e in it.events if e['kind'] == 'solve']
            if not ev:
                raise Broken('no linear system is solved')
            A, b = ev[-1]['A'], ev[-1]['b']
            at = m.attrs
            nn = A.shape[0] // 6
            e = asm.ends(phi, li + [0] * (nn - n), list(ki) + [True] * (nn - n))
            ref, names = [], []
            for i in range(1, nn):
                Fn, Ft = asm.skier(mi[i - 1], phi) if i - 1 < len(mi) and mi[i - 1] != 0 and s not in ('rot', 'trans') else (0, 0)
                ref += asm.interface(e, i, nn, at, [Ft, -Ft * at['h'] / 2, Fn])
                names += [f'interface {i}: {f}' for f in asm.FNAMES]
            code = asm.code_rows(A, b)
            # end conditions belong to C06: the code rows that touch one segment only
            inner = [r for r in code if sum(any(sp.sympify(v) != 0 for v in r[6 * k:6 * k + 6]) for k in range(nn)) != 1]
            if len(code) != 6 * nn or A.shape[1] != 6 * nn:
                ck.obl('as many equations as constants', tag, False, A.shape, where='assemble_and_solve')
            v, how = asm.compare(inner, ref, it.dom) if ref else ([], '')
            for nme, x in zip(names, v):
                ck.obl('transmission conditions', f'{tag}, {nme}', x, f'equation not imposed ({how})' if x is False else how,
                       where='assemble_and_solve')
            ok = getattr(C, 'shape', None) == (6, n)
            if ok:
                for i in range(n):
                    for j in range(6):
                        ok = ok and str(C[j, i]).startswith('sol_') and str(C[j, i]).endswith(f'_{6 * i + j}')
            ck.obl('constants returned in segment order', tag, bool(ok), detail=C, where='assemble_and_solve')
            ck.saw(it)


if __name__ == '__main__':
    main('C05', RULE, check, minimum=100, assumptions=[
        'segment functions satisfy C04', 'numpy.linalg.solve solves the system it is given',
        'number of segments bounded by 4 (thorough: 5); the assembly loop treats interior segments alike'])
