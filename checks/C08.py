"""C08: energy release rates are additive, non-negative and work-consistent."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, asm
from vlib.interp import Partial
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Gated value numbering of Gi, Gii, int1, int2, gdif and ginc with the segment solution as uninterpreted term: differential rates '
        'are compared with half the squared stress over the stiffness, gdif with the weighted sum over the crack tips of every foundation '
        'pattern, ginc with half the stress-times-opening integrals over exactly the segments that lose their foundation.')
UN = {'kJ/m^2': 1, 'N/mm': 1, 'J/m^2': 1000}


def zvec(tag):
    return np.array([[R(f'{tag}.{n}')] for n in ('u', 'du', 'w', 'dw', 'psi', 'dpsi')], dtype=object)


def stub_z(it, li, C, phi, ki=None, state=''):
    """z(x, C, l, phi, bed); the two sides of an interface share one name."""
    cols = {}
    for s, c in C.items():
        for j in range(c.shape[1]):
            cols[str(c[0, j])] = (s, j)

    def z(it_, env, node):
        x, c, l, ph, b = env['x'], env['C'], env['l'], env['phi'], asm.truth(it_, env.get('bed', True))
        if isinstance(c, np.ndarray) and c.ndim == 2 and c.shape == (6, 1) and asm.isbool(b):
            s, j = cols.get(str(c[0, 0]), ('?', -1))
            whole = all(str(c[i, 0]) == str(C[s][i, j]) for i in range(6)) if s in C else False
            good = whole and asm.nm(l) == asm.nm(li[j]) and asm.nm(ph) == asm.nm(phi)
            if not isinstance(x, (int, sp.Basic)):
                return NotImplemented
            if good and ki is not None and bool(b) == bool(ki[j]):
                if asm.nm(x) == '0' and j > 0:
                    return zvec(f'Z{s}i{j}')
                if asm.nm(x) == asm.nm(li[j]) and j < len(li) - 1:
                    return zvec(f'Z{s}i{j + 1}')
            return zvec(f'Z{s}[{j if whole else "mixed"};{asm.nm(x)};{asm.nm(l)};{asm.nm(ph)};{asm.nm(b)}]')
        return NotImplemented
    it.mstubs['z'] = z


def sig(z):
    return -S.kn * z[2, 0]


def tau(z):
    return S.kt * (z[0, 0] + S.h / 2 * z[4, 0] - z[3, 0] * S.t / 2)


def consts(n, name='C'):
    return np.array([[R(f'{name}{i}_{j}') for j in range(n)] for i in range(6)], dtype=object)


def check(ck):
    phi = R('phi')
    # differential rates
    for nm, st, k in (('Gi', sig, S.kn), ('Gii', tau, S.kt)):
        for u, c in UN.items():
            with ck.guard('differential rate is stress squared over twice the stiffness', f'{nm}({u})'):
                it = M.interp()
                m = M.model(it)
                Z = zvec('Z')
                g = flat(M.call(it, m, nm, Z, unit=u))
                ck.obl('differential rate is stress squared over twice the stiffness', f'{nm}({u})',
                       is_zero(g[0] - c * st(Z)**2 / (2 * k), it.dom), g[0])
                ck.saw(it)
    # coinciding states: half the integrand is the differential rate
    for nm, gn in (('int1', 'Gi'), ('int2', 'Gii')):
        with ck.guard('integrand is work-consistent', nm):
            it = M.interp()
            m = M.model(it)
            li, C = [S.l], {'0': consts(1, 'C'), '1': consts(1, 'D')}
            stub_z(it, li, C, phi)
            zf = it.getattr(m, 'z')
            f = [Partial(zf, [], dict(C=C[s], l=S.l, phi=phi, bed=True)) for s in '01']
            x = R('x')
            g = flat(M.call(it, m, nm, x, f[0], f[0]))[0]
            G = flat(M.call(it, m, gn, it.call(f[0], [x], {}, None)))[0]
            ck.obl('integrand is work-consistent', f'{nm} for coinciding states', is_zero(g / 2 - G, it.dom), g)
            g = flat(M.call(it, m, nm, x, f[0], f[1]))[0]
            z0, z1 = it.call(f[0], [x], {}, None), it.call(f[1], [x], {}, None)
            ref = S.kn * z0[2, 0] * z1[2, 0] if nm == 'int1' else tau(z0) * tau(z1) / S.kt
            ck.obl('integrand is work-consistent', f'{nm}: stress before times deformation after', is_zero(g - ref, it.dom), g)
            ck.saw(it)
    # all crack tips
    nmax = 6 if ck.thorough else 5
    for n in range(2, nmax + 1):
        for ki in itertools.product((True, False), repeat=n):
            if not any(ki) or (n == 5 and not ck.thorough and ki[0] != ki[-1] and ki[1]):
                continue
            for unit in (UN if n == 3 else ('kJ/m^2',)):
                tag = f"ki={''.join('TF'[not k] for k in ki)} {unit}"
                with ck.guard('sum over crack tips', tag):
                    it = M.interp()
                    m = M.model(it)
                    li = [P(f'l{i}') for i in range(n)]
                    C = consts(n)
                    stub_z(it, li, {'': C}, phi, ki)
                    kw = {} if unit == 'kJ/m^2' else dict(unit=unit)
                    r = flat(M.call(it, m, 'gdif', C, phi, M.arr(li), np.array(ki, dtype=object), **kw))
                    g1 = g2 = 0
                    for i in range(1, n):
                        if ki[i - 1] == ki[i]:
                            continue
                        # crack (run of unsupported segments) at this tip: edge crack has one tip
                        j = i if not ki[i] else i - 1
                        a, b = j, j
                        while a > 0 and not ki[a - 1]:
                            a -= 1
                        while b < n - 1 and not ki[b + 1]:
                            b += 1
                        w = 1 if a == 0 or b == n - 1 else sp.Rational(1, 2)
                        z = zvec(f'Zi{i}')
                        g1 += w * sig(z)**2 / (2 * S.kn)
                        g2 += w * tau(z)**2 / (2 * S.kt)
                    f = UN[unit]
                    ok = len(r) == 3
                    for q, ref, nme in zip(r, (f * (g1 + g2), f * g1, f * g2), ('total', 'mode I', 'mode II')):
                        ck.obl('sum over crack tips', f'{tag}: {nme}', is_zero(q - ref, it.dom) if ok else False, q, where='gdif')
                    ck.saw(it)
    # incremental rates
    runs = []
    for n in range(1, 4):
        for ki in itertools.product((True, False), repeat=n):
            for k0 in itertools.product((True, False), repeat=n):
                if n < 3 or ck.thorough or all(k0) or ki in ((True, False, True), (False, True, False)):
                    runs.append((n, ki, k0))
    runs.append((4, (True, False, False, True), (True,) * 4))
    for n, ki, k0 in runs:
        for form in ('array', 'list') if n == 2 else ('array', 'equal lengths') if n > 2 else ('array',):
            tag = f"ki={''.join('TF'[not k] for k in ki)} k0={''.join('TF'[not k] for k in k0)} {form}"
            with ck.guard('integral over the segments that lose their foundation', tag):
                it = M.interp()
                m = M.model(it)
                li = [P('l0' if form == 'equal lengths' else f'l{i}') for i in range(n)]
                C0, C1 = consts(n, 'C'), consts(n, 'D')
                stub_z(it, li, {'0': C0, '1': C1}, phi)
                mk = list if form == 'list' else lambda v: np.array(list(v), dtype=object)
                r = flat(M.call(it, m, 'ginc', C0, C1, phi, mk(li), mk(ki), mk(k0)))
                new = [j for j in range(n) if k0[j] and not ki[j]]
                da = sum(li[j] for j in new)
                ev = [e for e in it.events if e['kind'] == 'quad']
                x = it.dom.bound_var('quad_x', 0)
                G = [0, 0]
                tot = [sp.sympify(v) for v in r]
                if len(r) != 3:
                    ck.obl('integral over the segments that lose their foundation', tag, False, r)
                    continue
                for mode in (1, 2):
                    acc = {}
                    rest = tot[mode]
                    for e in ev:
                        s = it.dom.integral(e['integrand'], e['var'], e['a'], e['b'])
                        c = sp.diff(rest, s) if isinstance(s, sp.Symbol) else 0
                        if c != 0:
                            rest = sp.expand(rest - c * s)
                            key = (asm.nm(e['a']), asm.nm(e['b']))
                            acc[key] = acc.get(key, 0) + c * sp.sympify(e['integrand']).xreplace({e['var']: x})
                    for j in new:
                        z0, z1 = zvec(f'Z0[{j};{asm.nm(x)};{li[j]};{phi};True]'), zvec(f'Z1[{j};{asm.nm(x)};{li[j]};{phi};False]')
                        ref = (S.kn * z0[2, 0] * z1[2, 0] if mode == 1 else tau(z0) * tau(z1) / S.kt) / (2 * da)
                        key = ('0', asm.nm(li[j]))
                        acc[key] = acc.get(key, 0) - ref
                    for key, d in acc.items():
                        ck.obl('integral over the segments that lose their foundation', f'{tag} mode {mode} segment [{key[0]}, {key[1]}]',
                               is_zero(d, it.dom), d, where='ginc')
                    ck.obl('integral over the segments that lose their foundation', f'{tag} mode {mode} nothing else', is_zero(rest, it.dom),
                           rest, where='ginc')
                ck.obl('modes add up', tag, is_zero(tot[0] - tot[1] - tot[2], it.dom, opaque=True), tot, where='ginc')
                ck.saw(it)


if __name__ == '__main__':
    main('C08', RULE, check, minimum=100, assumptions=[
        'segment solutions satisfy C04/C05', 'scipy.integrate.quad integrates the function it is given over the given interval',
        'up to 5 segments for tips (thorough: 6), 3 for cracked segments'])
