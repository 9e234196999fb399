"""C13: segment functions stay bounded on arbitrarily long segments."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, asm, drive as D
from vlib.model import S, R, P, flat
from vlib.harness import main

RULE = ('Abstract interpretation into algebraic terms; the argument of every exponential evaluated for a bedded segment is a linear form in '
        'position and length whose real part must have a non-positive value at both ends of the segment (hence everywhere on it) by the signs of its atoms; at every '
        'evaluation site (assembly, rasterisation, energy release rates) the functions attached to the constants of a segment are '
        'evaluated with the length of that segment and at positions within it.')
GROW = {'exp', 'exp2', 'expm1', 'sinh', 'cosh', 'power'}
HN = re.compile(r'^H\[([^;]*);([^;]*);([^;]*)\]')
CN = re.compile(r'^[CD](\d)_(\d+)$')


def record_exp(it):
    """Arguments of exponentials as they are evaluated (before terms are merged)."""
    log = []
    f0, b0 = it.dom.func, it.dom.bin

    def func(name, *args):
        if name in GROW:
            log.append((name, args))
        return f0(name, *args)

    def bn(op, a, b):
        if op == '**' and isinstance(b, sp.Basic) and b.free_symbols:
            log.append(('exp', (b * sp.log(a) if a not in (sp.E,) else b,)))
        return b0(op, a, b)
    it.dom.func, it.dom.bin = func, bn
    return log


def nonpositive(e, x, l):
    """Real part of a form linear in x, l is <= 0 at both ends of [0, l]."""
    e = sp.re(sp.expand(sp.sympify(e)))
    if x in e.free_symbols and sp.diff(e, x, 2) != 0:
        return None
    res = True
    for v in (0, l):
        r = sp.factor(sp.expand(e.subs(x, v)))
        if r.is_nonpositive:
            continue
        if r.is_positive:
            return False
        res = None
    return res


def check(ck):
    x, l = R('x'), S.l
    rule = 'exponentials do not exceed one within the segment'
    for nr, order, form in itertools.product((1, 3, 2), (0, 1), ('zh', 'z', 'z array')):
        if nr == 2:
            continue
        tag = f'{form}, {2 * nr} real eigenvalues, order {order}'
        with ck.guard(rule, tag):
            it = M.interp(nr, order)
            m = M.model(it)
            M.load_stubs(it)
            M.call(it, m, 'calc_eigensystem')
            log = record_exp(it)
            if form == 'zh':
                T = flat(M.call(it, m, 'zh', x=x, l=l, bed=True))
                tops = T
            else:
                C = np.array([[R(f'C{i}')] for i in range(6)], dtype=object)
                T = flat(M.call(it, m, 'z', x if form == 'z' else np.array([x], dtype=object), C, l, R('phi'), True))
            seen = set()
            for n, a in log:
                if n in ('sinh', 'cosh', 'power', 'expm1', 'exp2') and isinstance(a[0], sp.Basic) and not (a[0].free_symbols & {x, l}):
                    continue
                key = (n, str(a[0]))
                if key in seen:
                    continue
                seen.add(key)
                if n in ('sinh', 'cosh'):
                    v = False if sp.re(a[0]).free_symbols & {x, l} else True
                elif not isinstance(a[0], sp.Basic):
                    v = None if not isinstance(a[0], (int, float)) else True
                else:
                    v = nonpositive(a[0], x, l)
                ck.obl(rule, f'{tag}: {n}({a[0]})', v, f'{n} of {a[0]}', where='zh')
            # all six functions are exponential in the position: none left unscaled
            if form == 'zh':
                Z = M.call(it, m, 'zh', x=x, l=l, bed=True)
                for j in range(Z.shape[1]):
                    ex = [g for e in Z[:, j] for g in sp.sympify(e).atoms(sp.exp)]
                    ck.obl('every bedded function is a scaled exponential', f'{tag} column {j}', bool(ex) or None, Z[:, j])
                    # growing functions end at one, decaying functions start at one
                    ok = []
                    for g in set(ex):
                        a = sp.re(sp.expand(g.args[0]))
                        s = sp.diff(a, x)
                        at = a.subs(x, l if s.is_positive else 0)
                        ok.append(True if sp.expand(at) == 0 else None if (s.is_positive is None) else False)
                    ck.obl('growing functions start from the right end, decaying ones from the left', f'{tag} column {j}',
                           None if None in ok else all(ok), [str(g) for g in set(ex)], where='zh')
            ck.saw(it)
    rule = 'one shift per segment at every evaluation site'

    def names(e, li, ki, tag, sup=None):
        """coefficients of the constants of segment j only contain functions scaled by that segment's length."""
        e = sp.sympify(e)
        bad = []
        for c in sorted(e.free_symbols, key=str):
            k = CN.match(str(c))
            if not k:
                continue
            j = int(k.group(2))
            d = sp.diff(e, c)
            for s in d.free_symbols:
                h = HN.match(str(s))
                if h:
                    bed = h.group(3) == 'True'
                    if bed and h.group(2) != asm.nm(li[j]):
                        bad.append(f'{s} with constants of segment {j}')
                    xx = sp.sympify(h.group(1), locals={str(q): q for q in list(li) + [it0x]}) if h.group(1) else None
                    if bed and xx is not None and it0x not in xx.free_symbols:
                        r1, r2 = sp.expand(xx), sp.expand(li[j] - xx)
                        if r1.is_negative or r2.is_negative or (xx.free_symbols - li[j].free_symbols):
                            bad.append(f'{s}: position outside segment {j}')
        return bad
    it0x = sp.Symbol('quad_x__')
    nmax = 4 if ck.thorough else 3
    cases = []
    for system in M.SYS + ['rot', 'trans']:
        for n in range(1, nmax + 1):
            for ki in itertools.product((True, False), repeat=n):
                if not any(ki) or (system in ('skier', 'skiers') and not (ki[0] and ki[-1])):
                    continue
                if n == nmax and system not in ('skiers', 'pst-'):
                    continue
                cases.append((system, n, ki))

    def site(ck, system, n, ki):
        tag = f"{system} {''.join('TF'[not k] for k in ki)}"
        li = [P(f'l{i}') for i in range(n)]
        phi = R('phi')

        def setup():
            it = M.interp()
            D.ceil2(it)
            m = M.model(it, system=system if system in M.SYS else 'pst-')
            m.attrs.update(system=system, mode='A', tc=S.tc, a=S.a, td=S.td, L=S.L, phi=phi, ratio=S.ratio)
            asm.stub_segments(it)
            asm.stub_loads(it)
            return it, m
        with ck.guard(rule, f'assemble_and_solve {tag}'):
            it, m = setup()
            mi = M.arr([0] * (n - 1))
            M.call(it, m, 'assemble_and_solve', phi=phi, li=M.arr(li), mi=mi, ki=D.boolarr(ki))
            A = [e for e in it.events if e['kind'] == 'solve'][-1]['A']
            bad = []
            for j in range(n):
                for e in A[:, 6 * j:6 * j + 6].ravel():
                    for s in sp.sympify(e).free_symbols:
                        h = HN.match(str(s))
                        if h and h.group(3) == 'True' and h.group(2) != asm.nm(li[j]):
                            bad.append(f'{s} in the columns of segment {j}')
                        if h and h.group(3) == 'True' and h.group(1) not in ('0', asm.nm(li[j])):
                            bad.append(f'{s}: position not an end of segment {j}')
            ck.obl(rule, f'assemble_and_solve {tag}', not bad, bad[:4], where='assemble_and_solve')
            ck.saw(it)
        C = D.consts(n)
        with ck.guard(rule, f'rasterize_solution {tag}'):
            it, m = setup()
            xq, zq, xb = M.call(it, m, 'rasterize_solution', C=C, phi=phi, li=M.arr(li), ki=D.boolarr(ki))
            bad = [b for e in flat(zq) for b in names(e, li, ki, tag)]
            ck.obl(rule, f'rasterize_solution {tag}', not bad, bad[:4], where='rasterize_solution')
            ck.saw(it)
        if n > 1:
            with ck.guard(rule, f'gdif {tag}'):
                it, m = setup()
                g = flat(M.call(it, m, 'gdif', C=C, phi=phi, li=M.arr(li), ki=D.boolarr(ki)))
                bad = [b for e in g for b in names(e, li, ki, tag)]
                ck.obl(rule, f'gdif {tag}', not bad, bad[:4], where='gdif')
                ck.saw(it)
        with ck.guard(rule, f'ginc {tag}'):
            it, m = setup()
            M.call(it, m, 'ginc', C0=C, C1=D.consts(n, 'D'), phi=phi, li=M.arr(li), ki=D.boolarr(ki), k0=D.boolarr([True] * n))
            bad = []
            for e in it.events:
                if e['kind'] == 'quad':
                    f = sp.sympify(e['integrand'])
                    js = {int(CN.match(str(s)).group(2)) for s in f.free_symbols if CN.match(str(s))}
                    for s in f.free_symbols:
                        h = HN.match(str(s))
                        if h and h.group(3) == 'True' and (len(js) != 1 or h.group(2) != asm.nm(li[min(js)])):
                            bad.append(f'{s} with constants of segments {sorted(js)}')
                    if len(js) == 1 and (asm.nm(e['a']), asm.nm(e['b'])) != ('0', asm.nm(li[min(js)])):
                        bad.append(f"integral from {e['a']} to {e['b']} over segment {sorted(js)}")
            ck.obl(rule, f'ginc {tag}', not bad, bad[:4], where='ginc')
            ck.saw(it)
    ck.pmap(site, cases)


if __name__ == '__main__':
    main('C13', RULE, check, minimum=60, assumptions=[
        'eigenvalues come as real pairs and complex quadruples with non-zero real parts', 'segment lengths are positive',
        'up to 3 (thorough 4) segments at the evaluation sites'])
