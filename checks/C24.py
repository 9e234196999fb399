"""C24: material parametrisations are positive and grow with density."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D
from vlib.interp import TOP, Gate
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Abstract interpretation of the density parametrisations for a symbolic positive density (scalar and layer-wise): sign, sign of the '
        'logarithmic derivative, homogeneity in the multiplicative constant and the published power law are decided in normal form; the '
        'slab matrix of every construction path is compared row by row with the law evaluated at the caller\'s layers and parameters.')
Q = sp.Rational
RHO = P('rho')
LAWS = {  # function -> (law, keyword arguments that scale it)
    'scapozza': (lambda r, k: 5070 * (r / 917)**Q(513, 100), {}),
    'gerling': (lambda r, k: k.get('C0', 6) * Q(1, 10**10) * r**k.get('C1', Q(46, 10)), {'C0': 6, 'C1': Q(46, 10)}),
    'bergfeld': (lambda r, k: k.get('C0', Q(65, 10)) * 1000 * (r / k.get('rho0', 917))**k.get('C1', Q(44, 10)),
                 {'rho0': 917, 'C0': Q(65, 10), 'C1': Q(44, 10)}),
    'tensile_strength_slab': (lambda r, k: {'kPa': 240, 'MPa': Q(24, 100)}[k.get('unit', 'kPa')] * (r / 917)**Q(244, 100), {}),
}


def same(a, b, dom):
    if a is TOP or isinstance(a, Gate):
        return None
    a, b = sp.sympify(a), sp.sympify(b)
    if a.has(sp.nan, sp.zoo, sp.oo):
        return False
    v = is_zero(a - b, dom)
    if v is not True and b != 0:
        w = is_zero(sp.powsimp(sp.expand_log(sp.log(sp.powsimp(sp.expand_power_base(a, force=True) / b, force=True)), force=True), force=True), dom)
        v = True if w is True else v
    return v


def sign(e):
    """Sign of a term in positive symbols: True (positive), False (not), None."""
    e = sp.sympify(e)
    if e.is_positive:
        return True
    if e.is_nonpositive:
        return False
    e = sp.factor(sp.powsimp(sp.simplify(e), force=True))
    return True if e.is_positive else False if e.is_nonpositive else None


def law(ck, name):
    f, par = LAWS[name]
    variants = [{}] + ([dict(unit='kPa'), dict(unit='MPa')] if name.startswith('tensile') else [])
    variants += [{k: P(k)} for k in par] + ([{k: P(k) for k in par}] if par else [])
    for kw in variants:
        tag = f'{name}({", ".join(f"{k}={v}" for k, v in kw.items())})'
        with ck.guard('parametrisation', tag):
            it = M.interp()
            v = M.fun(it, 'weac.tools.' + name, RHO, **kw)
            ck.saw(it)
            if v is TOP or isinstance(v, Gate):
                ck.obl('parametrisation follows its power law', tag, None, v, where=name)
                continue
            v = sp.sympify(v)
            ck.obl('parametrisation follows its power law', tag, same(v, f(RHO, kw), it.dom), v, where=name)
            ck.obl('parametrisation is positive', tag, sign(v), v, where=name)
            dl = sp.simplify(sp.expand_log(sp.diff(sp.log(v), RHO), force=True) * RHO)
            ck.obl('parametrisation grows with density', tag, sign(dl), dl, where=name)
            if 'C0' in kw:
                ck.obl('parametrisation scales with its constant', tag, same(sp.diff(v, P('C0')) * P('C0') / v, 1, it.dom), v, where=name)
            if 'C1' in kw:
                ck.obl('exponent is the exponent of density', tag, same(dl, P('C1'), it.dom), dl, where=name)
            r = [P('ra'), P('rb'), P('rc')]
            a = flat(M.fun(it, 'weac.tools.' + name, M.arr(r), **kw))
            ck.obl('layers are evaluated one by one', tag, len(a) == 3 and D.conj(same(x, f(y, kw), it.dom) for x, y in zip(a, r)), a, where=name)


def rows(ck, it, s, lay, E, nu, tag):
    ok = isinstance(s, np.ndarray) and s.shape == (len(lay), 5)
    ck.obl('slab has one row per layer', tag, ok, getattr(s, 'shape', s))
    if not ok:
        return
    for i, (r, h) in enumerate(lay):
        e, n = E(r), nu
        for nm, x, y in (('density', s[i, 0], r), ('thickness', s[i, 1], h), ("Young's modulus", s[i, 2], e),
                         ('shear modulus', s[i, 3], e / (2 * (1 + n))), ("Poisson's ratio", s[i, 4], n)):
            ck.obl('slab rows are the caller\'s layers with the law at the caller\'s parameters', f'{tag}: {nm} of layer {i}',
                   same(x, y, it.dom), f'{x} instead of {y}')


def weak(ck, it, a, E, t, nu, tag):
    ck.obl('weak layer has the caller\'s modulus', f'{tag}: normal', same(a['kn'], E / (1 - nu**2) / t, it.dom), a['kn'])
    ck.obl('weak layer has the caller\'s modulus', f'{tag}: shear', same(a['kt'], E / (2 * (1 + nu)) / t, it.dom), a['kt'])


NU = Q(1, 4)
berg = lambda **k: (lambda r: LAWS['bergfeld'][0](r, k))


def built(ck, n, form):
    lay = [(P(f'rho{i}'), P(f'h{i}')) for i in range(n)]
    if form == 'numbers':   # in no particular order, light and heavy
        lay, form = [(sp.Integer(r), sp.Integer(h)) for r, h in ((310, 100), (90, 250), (650, 40), (90, 60), (180, 120))][:n], 'list'
    arg = {'list': [list(r) for r in lay], 'tuple': tuple(tuple(r) for r in lay), 'array': M.arr([list(r) for r in lay])}[form]
    cp = lambda: arg.copy() if isinstance(arg, np.ndarray) else [list(r) for r in arg] if form == 'list' else arg
    for kw in ({}, dict(C0=P('C0')), dict(C1=P('C1')), dict(nu=P('nu')), dict(C0=P('C0'), C1=P('C1'), nu=P('nu')), dict(update=True)):
        tag = f'set_beam_properties({n} layers as {form}, {", ".join(kw)})'
        with ck.guard('slab rows', tag):
            it = M.interp()
            m = M.model(it, abstract=False, n=1)
            M.call(it, m, 'set_beam_properties', cp(), **kw)
            ck.saw(it)
            rows(ck, it, m.attrs['slab'], lay, berg(**{k: v for k, v in kw.items() if k in ('C0', 'C1')}), kw.get('nu', NU), tag)
    for cls in ('layered.Layered', 'inverse.Inverse'):
        tag = f'{cls}({n} layers as {form})'
        with ck.guard('slab rows', tag):
            it = M.interp()
            m = M.new(it, 'weac.' + cls, layers=cp())
            ck.saw(it)
            k = dict(C0=6, C1=Q(46, 10)) if 'Inv' in cls else {}
            rows(ck, it, m.attrs['slab'], lay, berg(**k), NU, tag)
            weak(ck, it, m.attrs, Q(1, 4), 30, NU, tag)
    par = (P('C0'), P('C1'), P('Ew'))
    tag = f'Inverse(parameters, {n} layers as {form})'
    with ck.guard('slab rows', tag):
        it = M.interp()
        m = M.new(it, 'weac.inverse.Inverse', layers=cp(), parameters=par)
        ck.saw(it)
        rows(ck, it, m.attrs['slab'], lay, berg(C0=par[0], C1=par[1]), NU, tag)
        weak(ck, it, m.attrs, par[2], 30, NU, tag)
    for kw in ({}, dict(C0=P('C0')), dict(C1=P('C1')), dict(Ewl=P('Ew')), dict(t=P('tw')), dict(C0=P('C0'), C1=P('C1'), Ewl=P('Ew'), t=P('tw'), phi=R('phi'))):
        tag = f'touchdown_distance({n} layers as {form}, {", ".join(kw)})'
        with ck.guard('slab rows', tag):
            it = M.interp()
            seen = []

            def probe(name):
                def f(it_, env, node):
                    a = env['self'].attrs
                    seen.append((name, {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in a.items()}, dict(env)))
                    return P('r_' + name)
                return f
            for k in ('calc_a1', 'calc_a2', 'calc_lC'):
                it.mstubs[k] = probe(k)

            def seg(it_, env, node):
                seen.append(('calc_segments', {}, dict(env)))
                return {}
            it.mstubs['calc_segments'] = seg
            out = M.fun(it, 'weac.tools.touchdown_distance', cp(), **kw)
            ck.saw(it)
            used = [s for s in seen if s[0] != 'calc_segments']
            ck.obl('thresholds are computed on the caller\'s model', tag, len({s[0] for s in used}) == 3, [s[0] for s in seen])
            for nm, a, _ in used:
                rows(ck, it, a['slab'], lay, berg(**{k: v for k, v in kw.items() if k in ('C0', 'C1')}), NU, f'{tag} at {nm}')
                weak(ck, it, a, kw.get('Ewl', Q(1, 4)), kw.get('t', 10), NU, f'{tag} at {nm}')
            for nm, _, env in seen:
                if nm == 'calc_segments':
                    ck.obl('thresholds are computed for the caller\'s inclination', tag, same(env.get('phi', 0), kw.get('phi', 0), it.dom), env.get('phi'))
            ok = isinstance(out, (tuple, list)) and len(out) == 3
            ck.obl('thresholds are returned in the documented order', tag, ok and D.conj(
                same(x, P('r_' + k), it.dom) for x, k in zip(out, ('calc_a1', 'calc_a2', 'calc_lC'))), out)


def named(ck, prof):
    tag = f'profile {prof}'
    with ck.guard('slab rows', tag):
        it = M.interp()
        L, E = M.fun(it, 'weac.tools.load_dummy_profile', prof)
        ck.saw(it)
        ck.obl('profile gives a modulus per layer', tag, L.ndim == 2 and L.shape[1] == 2 and len(flat(E)) == len(L), (L, E))
        E = flat(E)
        for i in range(len(L)):
            ck.obl('profile values are positive', f'{tag} layer {i}', all(bool(sp.sympify(v) > 0) for v in (*L[i], E[i])), (L[i], E[i]))
            for j in range(i):
                d, e = sp.sympify(L[i, 0] - L[j, 0]), sp.sympify(E[i] - E[j])
                ck.obl('profile stiffness grows with density', f'{tag} layers {j}, {i}', bool(sp.sign(d) == sp.sign(e)), (L, E))
        for kw in ({}, dict(nu=P('nu')), dict(C0=P('C0'), C1=P('C1'))):
            for spell in (prof, prof.upper(), 'layering ' + prof):
                it = M.interp()
                m = M.model(it, abstract=False, n=1)
                M.call(it, m, 'set_beam_properties', spell, **kw)
                s, nu = m.attrs['slab'], kw.get('nu', NU)
                t2 = f'set_beam_properties({spell!r}, {", ".join(kw)})'
                ck.obl('slab has one row per layer', t2, s.shape == (len(L), 5), s.shape)
                for i in range(len(L)) if s.shape == (len(L), 5) else ():
                    ck.obl('slab rows are the profile\'s layers', f'{t2} layer {i}', D.conj(same(x, y, it.dom) for x, y in zip(
                        s[i], (L[i, 0], L[i, 1], E[i], E[i] / (2 * (1 + nu)), nu))), s[i])


def default(ck):
    """Without layers every entry point uses the documented homogeneous slab."""
    for tag, cls, kw in (('Layered()', 'layered.Layered', {}), ('Layered(layers=[])', 'layered.Layered', dict(layers=[])), ('Inverse()', 'inverse.Inverse', {})):
        with ck.guard('slab rows', tag):
            it = M.interp()
            m = M.new(it, 'weac.' + cls, **kw)
            k = dict(C0=6, C1=Q(46, 10)) if 'Inv' in cls else {}
            ck.saw(it)
            if 'inverse' in cls and not isinstance(m.attrs.get('slab'), np.ndarray):
                continue
            rows(ck, it, m.attrs['slab'], [(sp.Integer(240), sp.Integer(200))], berg(**k), NU, tag)


def foundation(ck):
    """Weak-layer moduli from Young's modulus and Poisson's ratio."""
    for kw in ({}, dict(t=P('tw')), dict(E=P('Ew')), dict(nu=P('nu')), dict(t=P('tw'), E=P('Ew'), nu=P('nu')), dict(update=True)):
        tag = f'set_foundation_properties({", ".join(kw)})'
        with ck.guard('weak layer', tag):
            it = M.interp()
            m = M.model(it, abstract=False, n=1)
            M.call(it, m, 'set_foundation_properties', **dict(kw, update=True))
            ck.saw(it)
            weak(ck, it, m.attrs, kw.get('E', Q(1, 4)), kw.get('t', 30), kw.get('nu', NU), tag)


def check(ck):
    tasks = [(law, k) for k in LAWS] + [(default,), (foundation,)]
    for n in range(1, 6 if ck.thorough else 4):
        for form in ('list', 'tuple', 'array'):
            tasks.append((built, n, form))
    tasks.append((built, 5, 'numbers'))
    for p in ('a', 'b', 'c', 'd', 'e', 'f', 'h', 'soft', 'medium', 'hard', 'comp'):
        tasks.append((named, p))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C24', RULE, check, minimum=400, assumptions=['exact arithmetic', 'decimal literals denote the written decimals'])
