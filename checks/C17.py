"""C17: touchdown thresholds and lengths follow from one contact theory."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import AbsRaise, Gate
from vlib.npmodel import unwrap
from vlib.model import S, R, P, flat
from vlib.prove import is_zero, replace, cond_value
from vlib.harness import main

RULE = ('Abstract interpretation of the threshold and touchdown-length routines: the function handed to the root finder is a term linear in '
        'the crack height; inserting the crack height of the contact theory (shear-deformable beam of the unsupported length on the '
        'substitute springs, derived here from equilibrium and the end conditions of each contact stage) must make it vanish identically, '
        'with a factor that never changes sign, so both have the same roots. Springs, lengths, search interval, stage selection and the '
        'length used per stage are compared likewise.')


def deflection(stage, x, bs, ss, kR, kN, kr, q):
    """End deflection of the unsupported part of length x for the given contact stage."""
    s = sp.Symbol('s', positive=True)
    c0, c1, V0, M0 = sp.symbols('c0 c1 V0 M0')
    V = V0 - q * s
    Mo = M0 + sp.integrate(V, s)
    psi = c1 + sp.integrate(Mo / bs, s)
    w = c0 + sp.integrate(V / ss - psi, s)
    left = [V.subs(s, 0) - kN * w.subs(s, 0), Mo.subs(s, 0) - kR * psi.subs(s, 0)]
    if stage == 'first contact':
        right = [Mo.subs(s, x), V.subs(s, x)]
    else:
        right = [Mo.subs(s, x) + (kr if stage == 'touchdown length' else 0) * psi.subs(s, x), sp.diff(w, s).subs(s, x)]
    sol = sp.solve(left + right, [c0, c1, V0, M0], dict=True)[0]
    return sp.simplify(w.subs(s, x).subs(sol))


X, BS, SS, KR, KN, KRR, Q = (P(n) for n in 'x_ bs_ ss_ kR_ kN_ kRr_ q_'.split())
THEORY = {st: deflection(st, X, BS, SS, KR, KN, KRR, Q) for st in ('first contact', 'full contact', 'touchdown length')}


def K(L, support, dof):
    return P(f'K[{asm.nm(L)};{support};{dof}]')


def setup(system='pst-', mode='A', cls='weac.layered.Layered', td=True):
    it = M.interp()
    m = D.ready(it, system, mode, touchdown=td, cls=cls)
    asm.stub_loads(it)
    return it, m


ANCHORS = (('calc_a1', 'first contact', S.L), ('calc_a2', 'full contact', S.L), ('calc_lC', 'touchdown length', S.a))


def number(v):
    """Value of a constant tolerance, None where it depends on the model."""
    try:
        return float(sp.sympify(unwrap(v)))
    except (TypeError, ValueError, sp.SympifyError):
        return None


def roots(ck, name, stage, upper, system, mode):
    rule = 'root condition is the contact condition'
    tag = f'{name} [{system} {mode}]'
    with ck.guard(rule, tag):
        it, m = setup(system, mode)
        a = S.a
        m.attrs['a'] = a
        r = M.call(it, m, name)
        ev = [e for e in it.events if e['kind'] == 'brentq']
        ck.saw(it)
        if len(ev) != 1:
            ck.obl(rule, tag, None, f'{len(ev)} root searches')
            return
        e = ev[0]
        F, x = sp.sympify(e['f']), e['var']
        L = S.L
        bs = S.D11 - S.B11**2 / S.A11
        q = R('qn[phim]') + R('pn[phim]')
        arm = L - x if name != 'calc_lC' else L - a
        ref = THEORY[stage].subs({X: x, BS: bs, SS: S.kA55, KR: K(arm, 'supported', 'rot'), KN: K(arm, 'supported', 'trans'),
                                  KRR: K(a - x, 'rested', 'rot'), Q: q})
        extra = {s for s in F.free_symbols if str(s).startswith('K[')} - {s for s in ref.free_symbols if str(s).startswith('K[')}
        ck.obl('substitute springs of the theory', tag, not extra, f'{sorted(map(str, extra))}', where=name)
        B = sp.diff(F, S.tc)
        lin = is_zero(sp.diff(F, S.tc, 2), it.dom)
        meets = is_zero(replace(F, {S.tc: ref}, it.dom), it.dom, opaque=True)
        if lin is not True and meets is not False:
            ck.obl(rule, tag, None, 'not linear in the crack height')
            return
        ck.obl(rule, tag, meets, F, where=name)
        if lin is not True:
            return
        # factor has one sign for positive data
        pos = {s: P(f'pos{i}') for i, s in enumerate(sorted(F.free_symbols, key=str)) if s not in (S.B11,)}
        import random
        rng = random.Random(1)
        signs = set()
        for _ in range(12):
            v = {s: sp.Rational(rng.randint(1, 40), rng.randint(1, 9)) for s in sorted(F.free_symbols, key=str)}
            if {S.D11, S.B11, S.A11} <= set(v):
                v[S.D11] = v[S.B11]**2 / v[S.A11] + v[S.D11]
            signs.add(sp.sign(B.subs(v)))
        ck.obl('root condition has no spurious roots', tag, (signs in ({1}, {-1})) or (False if 0 in signs else None), f'signs {signs}', where=name)
        rt = it.dom.root(e['f'], e['var'], e['a'], e['b'])
        ck.obl('root is returned', tag, is_zero(sp.sympify(r) - rt, it.dom, opaque=True), r, where=name)
        tol = [number(e['xtol']), number(e['rtol'])]
        ck.obl('root is found to a tenth of a millimetre', tag, None if None in tol else tol[0] <= .1 and tol[1] <= 1e-4,
               f"absolute {e['xtol']}, relative {e['rtol']}", where=name)
        lo, hi = sp.expand(sp.sympify(e['a'])), sp.expand(sp.sympify(e['b']))
        up = upper
        ok = [sp.simplify((up / 1000 - lo) / up), sp.simplify((hi - sp.Rational(999, 1000) * up) / up), sp.simplify(lo / up), sp.simplify(1 - hi / up)]
        v = True if all(o.is_nonnegative for o in ok) else False if any(o.is_negative for o in ok) else None
        ck.obl('search interval spans the admissible lengths', tag, v, f'{lo} to {hi}', where=name)


def trivial(ck, name, mode, system):
    with ck.guard('touchdown length of the stage', f'{name} [{system} {mode}]'):
        it, m = setup(system, mode)
        m.attrs['a'] = S.a
        it.mstubs['calc_lC'] = lambda *z: P('lC_')
        r = None
        m.attrs['td'] = P('old')
        M.call(it, m, 'calc_touchdown_length')
        ref = P('lC_') if mode == 'C' else S.a
        ck.obl('touchdown length of the stage', f'calc_touchdown_length [{system} {mode}]', is_zero(sp.sympify(m.attrs['td']) - ref, it.dom), m.attrs['td'],
               where='calc_touchdown_length')
        ck.saw(it)


NEAR = sp.Rational(999, 1000)


def stages(ck, system, td, order):
    """order: where the crack length lies relative to the thresholds."""
    rule = 'stages follow each other with growing crack length'
    tag = f'{system} touchdown={td} crack {order}'
    with ck.guard(rule, tag):
        it, m = setup(system, 'A', td=td)
        d1, d2, d3 = P('d1'), P('d2'), P('d3')
        a, a1, a2, ref = {'below first contact': (d1, d1 + d2, d1 + d2 + d3, 'A'), 'at first contact': (d1, d1, d1 + d2, 'A'),
                          'between': (d1 + d2, d1, d1 + d2 + d3, 'B'), 'at full contact': (d1 + d2, d1, d1 + d2, 'B'),
                          'beyond full contact': (d1 + d2 + d3, d1, d1 + d2, 'C'),
                          'just below first contact': (d1 * NEAR, d1, d1 + d2, 'A'),
                          'just beyond first contact': (d1 / NEAR, d1, 2 * d1 + d2, 'B'),
                          'just below full contact': (2 * d1 * NEAR, d1, 2 * d1, 'B'),
                          'just beyond full contact': ((d1 + d2) / NEAR, d1, d1 + d2, 'C')}[order]
        it.mstubs['calc_a1'] = lambda *z: a1
        it.mstubs['calc_a2'] = lambda *z: a2
        m.attrs['a'] = a
        m.attrs['mode'] = 'old'
        try:
            M.call(it, m, 'calc_touchdown_mode')
        except AbsRaise as exc:
            if exc.exc != 'UnboundLocalError':
                raise
            ck.obl(rule, tag, False, f'no stage is assigned: {exc}', where='calc_touchdown_mode')
            return
        if not td or system not in ('pst-', '-pst'):
            ref = 'A'
        g = m.attrs['mode']
        ck.obl(rule, tag, D.equal(it, g, ref), g, where='calc_touchdown_mode')
        ck.saw(it)


def crackheight(ck, order):
    rule = 'crack height is the collapsed thickness minus the settlement under the load'
    with ck.guard(rule, order):
        it, m = setup('pst-', 'A')
        L, a, cf, phi, ratio = P('L1'), P('a1_'), P('cf'), R('phi1'), P('ratio1')
        for k in ('tc', 'phi', 'a', 'L', 'ratio'):
            m.attrs[k] = R('old_' + k)
        if order == 'touchdown':
            it.mstubs['calc_touchdown_mode'] = lambda *z: None
            it.mstubs['calc_touchdown_length'] = lambda *z: None
            M.call(it, m, 'calc_touchdown_system', L=L, a=a, cf=cf, phi=phi, ratio=ratio)
        elif order == 'attributes':
            M.call(it, m, 'set_touchdown_attributes', L=L, a=a, cf=cf, phi=phi, ratio=ratio)
        elif order == 'layout':
            it.mstubs['calc_touchdown_mode'] = lambda *z: z[1]['self'].attrs.update(mode='A')
            M.call(it, m, 'calc_segments', L=L, a=a, cf=cf, phi=phi, ratio=ratio)
        else:
            M.call(it, m, 'set_phi', phi)
            M.call(it, m, 'set_tc', cf)
        q = R('qn[phi1]') + R('pn[phi1]')
        ck.obl(rule, order, is_zero(m.attrs['tc'] - cf * S.t + q / S.kn, it.dom), m.attrs['tc'], where='set_tc')
        if order != 'single setters':
            for k, v in (('L', L), ('a', a), ('phi', phi), ('ratio', ratio)):
                ck.obl('touchdown attributes are set', f'{order}: {k}', is_zero(m.attrs[k] - v, it.dom, opaque=True), m.attrs[k], where='set_touchdown_attributes')
        ck.saw(it)


def distance(ck, arg):
    """Convenience function of the tools module."""
    rule = 'touchdown_distance evaluates the thresholds of the requested slab'
    with ck.guard(rule, arg):
        it = M.interp()
        calls = []

        def rec(name, ret):
            def f(it_, env, node):
                calls.append((name, M.snapshot(env['self'])))
                return ret
            it.mstubs[name] = f
        rec('calc_a1', P('A1'))
        rec('calc_a2', P('A2'))
        rec('calc_lC', P('LC'))
        lay = M.layers(2)
        kw = dict(layers=lay, C0=P('C0'), C1=P('C1'), Ewl=P('Ewl'), t=P('twl'), phi=R('phi'))
        if arg == 'defaults':
            kw = dict(Ewl=P('Ewl'), t=P('twl'), phi=R('phi'))
            lay = [[240, 200]]
        r = M.fun(it, 'weac.tools.touchdown_distance', **kw)
        ck.obl(rule, f'{arg}: result', [str(x) for x in flat(list(r))] == ['A1', 'A2', 'LC'] if isinstance(r, tuple) else None, r, where='touchdown_distance')
        ref = M.new(it, 'weac.layered.Layered', system='pst-', touchdown=True)
        M.call(it, ref, 'set_foundation_properties', E=P('Ewl'), t=P('twl'))
        M.call(it, ref, 'set_beam_properties', layers=lay, **{k: kw[k] for k in ('C0', 'C1') if k in kw})
        M.call(it, ref, 'calc_fundamental_system')
        # last calls deciding the results (thresholds are also called by the layout itself)
        for name, a in (('calc_a1', None), ('calc_a2', None), ('calc_lC', 5 * P('A1'))):
            cs = [s for n, s in calls if n == name]
            if not cs:
                ck.obl(rule, f'{arg}: {name}', None, 'not called')
                continue
            # the first call after the first layout decides a1, a2; the last one decides lC
            for s in cs if name != 'calc_lC' else cs[-1:]:
                for k in ('kn', 'kt', 't', 'A11', 'B11', 'D11', 'kA55', 'h', 'zs', 'slab', 'system'):
                    ck.obl(rule, f'{arg}: {name} {k}', D.equal(it, s[k], ref.attrs[k]), s[k], where='touchdown_distance')
                ck.obl(rule, f'{arg}: {name} inclination', is_zero(sp.sympify(s['phi']) - R('phi'), it.dom), s['phi'], where='touchdown_distance')
                if a is not None:
                    ck.obl(rule, f'{arg}: {name} crack longer than first contact', is_zero(sp.sympify(s['a']) - a, it.dom, opaque=True), s['a'], where='touchdown_distance')
                q = M.call(it, ref, 'get_weight_load', R('phi'))[0] + M.call(it, ref, 'get_surface_load', R('phi'))[0]
                ck.obl(rule, f'{arg}: {name} crack height', is_zero(s['tc'] - P('twl') / 2 + q / s['kn'], it.dom), s['tc'], where='touchdown_distance')
        ck.saw(it)


def check(ck):
    tasks = []
    for system, mode in itertools.product(('pst-', '-pst'), 'ABC'):
        for name, st, up in ANCHORS:
            tasks.append((roots, name, st, up, system, mode))
        tasks.append((trivial, 'td', mode, system))
    for system in M.SYS:
        for td in (False, True):
            for o in ('below first contact', 'at first contact', 'between', 'at full contact', 'beyond full contact',
                      'just below first contact', 'just beyond first contact', 'just below full contact', 'just beyond full contact'):
                tasks.append((stages, system, td, o))
    tasks += [(crackheight, o) for o in ('touchdown', 'attributes', 'layout', 'single setters')]
    tasks += [(distance, 'given'), (distance, 'defaults')]
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C17', RULE, check, minimum=80, assumptions=[
        'existence and uniqueness of roots is C26', 'substitute springs themselves are C06', 'the contact theory neglects the tangential load, as documented'])
