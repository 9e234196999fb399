"""C15: segment layouts account for the whole model."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Abstract interpretation of calc_segments for every system, contact stage and way of giving the arguments, with symbolic length, '
        'crack length, touchdown length, load and inclination: sums of the laid-out lengths, place and length of the unsupported part, '
        'place of the loads, list lengths and foundation flags are compared in normal form with the layout the documentation gives.')
KEYS = ('nocrack', 'crack', 'both')


def truths(it, v):
    out = []
    for x in flat(v):
        x = asm.truth(it, x)
        if not asm.isbool(x):
            return None
        out.append(bool(x))
    return out


def same(it, a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    return D.conj(is_zero(sp.sympify(x) - sp.sympify(y), it.dom) for x, y in zip(a, b))


def sameflags(a, b):
    if a is None or b is None:
        return None
    return a == b


def common(ck, it, seg, tag, n=None):
    rule = 'one entry per segment, one load per interface'
    if not (isinstance(seg, dict) and all(k in seg for k in KEYS)):
        ck.obl(rule, tag, False, seg, where='calc_segments')
        return None
    lens = {k: flat(seg[k]['li']) for k in KEYS}
    fl = {k: truths(it, seg[k]['ki']) for k in KEYS}
    fl['k0'] = truths(it, seg['both']['k0'])
    for k in KEYS:
        N = len(lens[k])
        ck.obl(rule, f'{tag}: {k} flags', len(fl[k]) == N if fl[k] is not None else None, str(seg[k]), where='calc_segments')
        ck.obl(rule, f'{tag}: {k} loads', len(flat(seg[k]['mi'])) == N - 1, str(seg[k]), where='calc_segments')
    rule = 'combined layout equals its parts'
    for k in ('nocrack', 'crack'):
        ck.obl(rule, f'{tag}: lengths of {k}', same(it, seg['both']['li'], seg[k]['li']), str(seg), where='calc_segments')
        ck.obl(rule, f'{tag}: loads of {k}', same(it, seg['both']['mi'], seg[k]['mi']), str(seg), where='calc_segments')
    ck.obl(rule, f'{tag}: cracked flags', sameflags(fl['both'], fl['crack']), str(seg), where='calc_segments')
    ck.obl(rule, f'{tag}: uncracked flags', sameflags(fl['k0'], fl['nocrack']), str(seg), where='calc_segments')
    if fl['crack'] is None or fl['nocrack'] is None:
        ck.obl('cracked state supports no segment the uncracked does not', tag, None, str(seg))
        return None
    if len(fl['crack']) == len(fl['nocrack']):
        ck.obl('cracked state supports no segment the uncracked does not', tag,
               all(k0 or not k for k, k0 in zip(fl['crack'], fl['nocrack'])), str(seg), where='calc_segments')
    return [sp.sympify(x) for x in lens['crack']], fl['crack'], fl['nocrack'], [sp.sympify(x) for x in flat(seg['crack']['mi'])]


def coverage(it, li, ki):
    """Unsupported part as list of (start, end)."""
    out, x = [], sp.Integer(0)
    for l, k in zip(li, ki):
        if not k:
            out.append((sp.expand(x), sp.expand(x + l)))
        x = x + l
    return out, sp.expand(x)


def measure(it, parts, a, b):
    """Total unsupported length, and whether the parts tile [a, b] without gap (consecutive)."""
    if not parts:
        return is_zero(b - a, it.dom)
    vs = [is_zero(parts[0][0] - a, it.dom), is_zero(parts[-1][1] - b, it.dom)]
    vs += [is_zero(p[1] - q[0], it.dom) for p, q in zip(parts, parts[1:])]
    return D.conj(vs)


def case(ck, cls, system, td, mode, how):
    tag = f'{cls.rsplit(".", 1)[1]} {system} touchdown={td} stage {mode} ({how})'
    with ck.guard('layout covers the model', tag, on_raise=None):
        it = M.interp()
        kw0 = dict(system=system, layers=M.layers(1))
        if td:
            kw0['touchdown'] = True
        m = M.new(it, cls, **kw0)
        d1, d2, d3 = P('d1'), P('d2'), P('d3')
        a = {'A': d1, 'B': d1 + d2, 'C': d1 + d2 + d3}[mode]
        a1 = d1 if mode != 'A' else d1 + d2
        a2 = {'A': d1 + d2 + d3, 'B': d1 + d2 + d3, 'C': d1 + d2}[mode]
        it.mstubs['calc_a1'] = lambda *x: a1
        it.mstubs['calc_a2'] = lambda *x: a2
        it.mstubs['calc_lC'] = lambda *x: S.td
        lb, phi = P('lb'), R('phi')
        L, load = a + lb, P('m')
        if how == 'zero crack':
            a, L = sp.Integer(0), lb
        if how == 'twice':   # laid out for something else before
            M.call(it, m, 'calc_segments', L=P('La'), a=P('aa'), m=P('ma'), phi=R('phia'), cf=P('cfa'), ratio=P('ra'))
        if how == 'positional':
            seg = M.call(it, m, 'calc_segments', False, False, False, False, L, a, load, phi)
        elif how == 'extra arguments':
            seg = M.call(it, m, 'calc_segments', L=L, a=a, m=load, phi=phi, cf=P('cf'), ratio=P('ratio'), l=R('unused'))
        else:
            seg = M.call(it, m, 'calc_segments', L=L, a=a, m=load, phi=phi)
        r = common(ck, it, seg, tag)
        ck.saw(it)
        if r is None:
            return
        li, ki, k0, mi = r
        crack = S.td if mode == 'C' else a
        total = L - (a - crack)
        parts, tot = coverage(it, li, ki)
        ck.obl('layout covers the model', f'{tag}: total length', is_zero(tot - total, it.dom), f'{li}', where='calc_segments')
        ck.obl('unsupported part is the crack', f'{tag}: length', is_zero(sum(q - p for p, q in parts) - crack, it.dom), f'{li} {ki}', where='calc_segments')
        if system in ('pst-', 'vpst-'):
            x0, x1 = total - crack, total
        elif system in ('-pst', '-vpst'):
            x0, x1 = sp.Integer(0), crack
        else:
            x0, x1 = (total - crack) / 2, (total + crack) / 2
        ck.obl('unsupported part is the crack', f'{tag}: place', measure(it, parts, x0, x1), f'{parts}, expected {x0} to {x1}', where='calc_segments')
        ck.obl('uncracked state is supported everywhere', tag, all(k0), k0, where='calc_segments')
        # loads
        x = sp.Integer(0)
        for i, w in enumerate(mi):
            x += li[i]
            if w == 0:
                continue
            ck.obl('load is applied where documented', f'{tag}: interface {i}', D.conj(
                [is_zero(x - total / 2, it.dom)]) if system == 'skier' else False, f'load {w} at {x}', where='calc_segments')
        ck.obl('load is applied where documented', f'{tag}: sum', is_zero(sum(mi) - (load if system == 'skier' else 0), it.dom), mi, where='calc_segments')
        ck.obl('lengths are not negative', tag, D.conj(True if sp.expand(l).is_nonnegative else (False if sp.expand(l).is_negative else None) for l in li)
               if mode != 'C' else True, li, where='calc_segments')
        for k, v in (('a', a), ('L', L), ('td', crack)):
            if k in m.attrs:
                ck.obl('model attributes agree with the layout', f'{tag}: {k}', is_zero(sp.sympify(m.attrs[k]) - v, it.dom), m.attrs[k], where='calc_segments')
        ck.obl('model attributes agree with the layout', f'{tag}: mode', m.attrs.get('mode') == mode if isinstance(m.attrs.get('mode'), str) else None,
               m.attrs.get('mode'), where='calc_segments')


def skiers(ck, cls, ki, k0, form):
    n = len(ki)
    tag = f"{cls.rsplit('.', 1)[1]} skiers {''.join('TF'[not k] for k in ki)}/{''.join('TF'[not k] for k in k0)} {form}"
    with ck.guard('user-defined layout is passed on', tag):
        it = M.interp()
        m = M.new(it, cls, system='skiers', layers=M.layers(1))
        mk = {'list': list, 'tuple': tuple, 'array': lambda v: np.array(list(v), dtype=object)}[form]
        li, mi = D.lens(n), [P(f'm{i}') for i in range(n - 1)]
        seg = M.call(it, m, 'calc_segments', li=mk(li), mi=mk(mi), ki=mk(ki), k0=mk(k0), phi=R('phi'))
        r = common(ck, it, seg, tag) if all(b or not a for a, b in zip(ki, k0)) else None
        for k, f in (('nocrack', k0), ('crack', ki), ('both', ki)):
            ck.obl('user-defined layout is passed on', f'{tag}: {k} lengths', same(it, seg[k]['li'], li), seg[k], where='calc_segments')
            ck.obl('user-defined layout is passed on', f'{tag}: {k} loads', same(it, seg[k]['mi'], mi), seg[k], where='calc_segments')
            ck.obl('user-defined layout is passed on', f'{tag}: {k} flags', sameflags(truths(it, seg[k]['ki']), list(f)), seg[k], where='calc_segments')
        ck.obl('user-defined layout is passed on', f'{tag}: both k0', sameflags(truths(it, seg['both']['k0']), list(k0)), seg['both'], where='calc_segments')
        ck.saw(it)


def check(ck):
    tasks = []
    for cls in ('weac.layered.Layered', 'weac.inverse.Inverse'):
        for system in ('pst-', '-pst', 'vpst-', '-vpst', 'skier'):
            for td in (False, True) if 'layered' in cls else (False,):
                for mode in 'ABC' if td and 'v' not in system and system != 'skier' else 'A':
                    for how in ('keywords', 'positional', 'extra arguments', 'twice') + (('zero crack',) if mode == 'A' else ()):
                        tasks.append((case, cls, system, td, mode, how))
        for n in range(1, (6 if ck.thorough else 4)):
            for ki in itertools.product((True, False), repeat=n):
                for k0 in itertools.product((True, False), repeat=n):
                    if all(b or not a for a, b in zip(ki, k0)) and (n < 4 or all(k0)):
                        for form in ('list', 'array', 'tuple') if n < 4 else ('list',):
                            tasks.append((skiers, cls, ki, k0, form))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C15', RULE, check, minimum=200, assumptions=[
        'stage thresholds and touchdown length are symbols (C17)', 'user-defined layouts with up to 3 (thorough 5) segments'])
