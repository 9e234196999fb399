"""C02: mirroring the experiment mirrors the result."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import TOP, NAN, Gate
from vlib.model import S, R, P, flat
from vlib.prove import is_zero, replace
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of an experiment and of its mirror image (opposite slope sign, reversed segments and loads, solution '
        'components of odd parity negated): loads, governing equations, linear systems (as statements about the field values at the '
        'segment ends), section forces, stresses, energy release rates, potentials, touchdown conditions and layouts of the mirrored '
        'experiment are compared in normal form with the mirrored terms of the original one.')
PAR = (-1, 1, 1, -1, -1, 1)   # u, u', w, w', psi, psi'
PHI = R('phi')
FLIP = {'pst-': '-pst', '-pst': 'pst-', 'vpst-': '-vpst', '-vpst': 'vpst-', 'skier': 'skier', 'skiers': 'skiers'}


def zero(a, b, dom):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
        fa, fb = flat(a), flat(b)
        return len(fa) == len(fb) and D.conj(zero(x, y, dom) for x, y in zip(fa, fb))
    if a is NAN or b is NAN:
        return a is b
    if a is TOP or b is TOP or isinstance(a, Gate) or isinstance(b, Gate):
        return None
    return is_zero(sp.sympify(a) - sp.sympify(b), dom)


def par(Z):
    return np.array([[PAR[i] * Z[i, j] for j in range(Z.shape[1])] for i in range(6)], dtype=object)


def refl(*vals):
    """Substitution of the loads of the mirrored experiment by those of the original."""
    out = {}
    for k, s in (('qn', 1), ('qt', -1), ('pn', 1), ('pt', -1)):
        for p in vals:
            out[R(f'{k}[{asm.nm(-p)}]')] = s * R(f'{k}[{asm.nm(p)}]')
    return out


def loads(ck):
    for what, args, rule in (('get_weight_load', (), 'weight'), ('get_surface_load', (), 'surface load'), ('get_skier_load', (P('m'),), 'skier load')):
        with ck.guard('loads', what):
            it = M.interp()
            m = M.model(it)
            m.attrs['slab'] = M.slabmat(2)
            a, b = flat(M.call(it, m, what, *args, PHI)), flat(M.call(it, m, what, *args, -PHI))
            ck.saw(it)
            ck.obl('normal load is even in the slope', rule, zero(a[0], b[0], it.dom), a[0], where=what)
            ck.obl('tangential load is odd in the slope', rule, zero(a[1], -b[1], it.dom), a[1], where=what)


def stub_rows(it, li):
    """Segment functions as symbols; the bedded particular solution is the same everywhere (C04)."""
    asm.stub_segments(it)

    def zp(it_, env, node):
        x, phi, b = env['x'], env['phi'], asm.truth(it_, env.get('bed', True))
        if not (asm.scalar(x) and asm.scalar(phi) and asm.isbool(b)):
            return NotImplemented
        return asm.zp_sym('const' if b else x, phi, b)
    it.mstubs['zp'] = zp
    asm.stub_loads(it)


def statements(A, b, li, ki, phi):
    """Rows as statements: coefficients of the field values at both ends of every segment, constant."""
    n = len(li)
    out = []
    for r in range(A.shape[0]):
        co, const = [sp.Integer(0)] * (12 * n), sp.sympify(b[r, 0])
        for i in range(n):
            H = [asm.zh_sym(0, li[i], ki[i]), asm.zh_sym(li[i], li[i], ki[i])]
            p = [asm.zp_sym('const' if ki[i] else 0, phi, ki[i]), asm.zp_sym('const' if ki[i] else li[i], phi, ki[i])]
            e = sp.expand(sp.sympify(A[r, 6 * i]))
            left = e
            for side in (0, 1):
                for q in range(6):
                    c = sp.diff(e, H[side][q, 0])
                    left = left - c * H[side][q, 0]
                    if c == 0:
                        continue
                    co[12 * i + 6 * side + q] = c
                    const = const + c * p[side][q, 0]
            if sp.expand(left) != 0:
                return None
            for j in range(1, 6):
                ref = sum(co[12 * i + 6 * s + q] * H[s][q, j] for s in (0, 1) for q in range(6))
                if sp.expand(sp.sympify(A[r, 6 * i + j]) - ref) != 0:
                    return None
        out.append(co + [sp.expand(const)])
    return out


def mirrored(rows, n, sub, dom):
    out = []
    for r in rows:
        co = [sp.Integer(0)] * (12 * n)
        for i in range(n):
            for side in (0, 1):
                for q in range(6):
                    co[12 * (n - 1 - i) + 6 * (1 - side) + q] = PAR[q] * replace(r[12 * i + 6 * side + q], sub, dom)
        out.append(co + [replace(r[-1], sub, dom)])
    return out


def system(ck, sysname, mode, ki):
    n = len(ki)
    tag = f"{sysname} mode {mode} ki={''.join('TF'[not k] for k in ki)}"
    with ck.guard('equations of the mirrored experiment', tag):
        rows, doms = [], []
        it0 = None
        li0 = [P(f'l{i}') for i in range(n)]
        mi0 = [P(f'm{i}') for i in range(n - 1)]
        for mir in (False, True):
            it = M.interp()
            if it0 is not None:
                it.dom.csyms, it.dom.conds = it0.dom.csyms, it0.dom.conds
            it0 = it
            s = FLIP[sysname] if mir else sysname
            phi = -PHI if mir else PHI
            li, mi, kk = (li0[::-1], mi0[::-1], ki[::-1]) if mir else (li0, mi0, ki)
            m = M.model(it, system=s)
            m.attrs.update(system=s, mode=mode, tc=S.tc, a=S.a, td=S.td, phi=phi, touchdown=mode != 'A', slab=M.slabmat(2))
            stub_rows(it, li)
            M.call(it, m, 'assemble_and_solve', phi, M.arr(list(li)), M.arr(list(mi)), np.array(kk, dtype=object))
            ck.saw(it)
            ev = [e for e in it.events if e['kind'] == 'solve']
            if not ev:
                raise Broken('no linear system is solved')
            rows.append(statements(ev[-1]['A'], ev[-1]['b'], li, kk, phi))
        if None in rows:
            ck.obl('equations of the mirrored experiment', tag, None, 'coefficients are not linear in the segment functions', where='assemble_and_solve')
            return
        sub = refl(PHI)
        for mm in mi0:
            a, b = asm.skier(mm, -PHI), asm.skier(mm, PHI)
            sub.update({a[0]: b[0], a[1]: -b[1]})
        p1, p2 = asm.zp_sym('const', -PHI, True), asm.zp_sym('const', PHI, True)
        sub.update({p1[q, 0]: PAR[q] * p2[q, 0] for q in range(6)})
        ref = mirrored(rows[1], n, sub, it0.dom)
        code = [[sp.sympify(x) for x in r] for r in rows[0]]
        v, how = asm.compare(code, ref, it0.dom)
        for k, x in enumerate(v):
            names = ('u', "u'", 'w', "w'", 'psi', "psi'")
            what = sorted({f'{names[q % 6]} at {"right" if q // 6 % 2 else "left"} end of segment {q // 12}' for q in range(12 * n) if ref[k][q] != 0})
            ck.obl('equations of the mirrored experiment', f'{tag}: mirrored statement on {", ".join(what)}', x,
                   f'not stated by the original experiment ({how})' if x is False else how, where='assemble_and_solve')


def governing(ck):
    with ck.guard('governing equations', 'system matrix'):
        it = M.interp()
        m = M.model(it)
        e0 = len(it.events)
        M.call(it, m, 'calc_eigensystem')
        K = [e for e in it.events[e0:] if e['kind'] == 'eig'][-1]['K']
        ck.saw(it)
        for i in range(6):
            for j in range(6):
                ck.obl('system matrix changes sign under reflection', f'entry {i},{j}', zero(PAR[i] * K[i, j] * PAR[j], -K[i, j], it.dom), K[i, j],
                       where='calc_system_matrix')
        asm.stub_loads(it)
        q, qm = flat(M.call(it, m, 'get_load_vector', PHI)), flat(M.call(it, m, 'get_load_vector', -PHI))
        for i in range(6):
            ck.obl('load vector of the mirrored experiment', f'entry {i}', zero(PAR[i] * replace(qm[i], refl(PHI), it.dom), -q[i], it.dom), q[i],
                   where='get_load_vector')
    x, l = R('x'), P('l')
    for bed in (True, False):
        with ck.guard('particular solution', f'bed={bed}'):
            it = M.interp()
            m = M.model(it)
            asm.stub_loads(it)
            a = flat(M.call(it, m, 'zp', x=x, phi=PHI, bed=bed))
            b = [replace(v, refl(PHI), it.dom) for v in flat(M.call(it, m, 'zp', x=-x, phi=-PHI, bed=bed))]
            ck.saw(it)
            d = [sp.expand(PAR[i] * b[i] - a[i]) for i in range(6)]
            v = [is_zero(e, it.dom) for e in d]
            if bed or all(q is True for q in v):
                ck.obl('particular solution of the mirrored experiment', f'bed={bed}', D.conj(v), d, where='zp')
            else:  # free segments: up to a rigid or load-free state
                H = M.call(it, m, 'zh', x=x, l=l, bed=False)
                c = sp.symbols('c0:6')
                eqs = []
                for i in range(6):
                    e = sp.expand(d[i] + sum(H[i, j] * c[j] for j in range(6)))
                    eqs += sp.Poly(e, x).coeffs() if e != 0 else []
                ck.obl('particular solution of the mirrored experiment', f'bed={bed}', True if sp.linsolve(eqs, c) else False, d, where='zp')
    # mirrored load-free states of a free segment are load-free states
    with ck.guard('complementary solution', 'free'):
        it = M.interp()
        m = M.model(it)
        H = M.call(it, m, 'zh', x=x, l=l, bed=False)
        Hm = M.call(it, m, 'zh', x=l - x, l=l, bed=False)
        ck.saw(it)
        c = sp.symbols('c0:6')
        for k in range(6):
            eqs = []
            for i in range(6):
                e = sp.expand(PAR[i] * Hm[i, k] - sum(H[i, j] * c[j] for j in range(6)))
                eqs += sp.Poly(e, x).coeffs() if e != 0 else []
            eqs = [sp.simplify(q.subs(S.K0 if hasattr(S, 'K0') else sp.Symbol('K0_'), S.B11**2 - S.A11 * S.D11)) for q in eqs]
            ck.obl('load-free states of a free segment stay load-free', f'function {k}', True if sp.linsolve(eqs, c) else False, where='zh')


EVEN = {'w': {}, 'dpsi_dx': {}, 'N': {}, 'M': {}, 'sig': {}, 'eps': {}, 'Gi': {}, 'Gii': {}}
ODD = {'psi': {}, 'dw_dx': {}, 'V': {}, 'tau': {}, 'gamma': {}}


def fields(ck):
    Z = M.Zvec(2)
    it = M.interp()
    m = M.model(it)
    z0 = R('z0')
    items = [(f, 1, {}) for f in EVEN] + [(f, -1, {}) for f in ODD] + [('u', -1, dict(z0=z0)), ('du_dx', 1, dict(z0=z0))]
    for f, s, kw in items:
        with ck.guard('fields', f):
            a, b = flat(M.call(it, m, f, Z, **kw)), flat(M.call(it, m, f, par(Z), **kw))
            ck.obl('field keeps its value' if s > 0 else 'field changes sign', f, D.conj(zero(x, s * y, it.dom) for x, y in zip(a, b)), a, where=f)
    for mi in ('max', 'min'):
        with ck.guard('fields', f'principal {mi}'):
            a = M.call(it, m, 'principal_stress_weaklayer', Z, val=mi)
            b = M.call(it, m, 'principal_stress_weaklayer', par(Z), val=mi)
            ck.obl('field keeps its value', f'principal_stress_weaklayer {mi}', zero(a, b, it.dom), a)
    ck.saw(it)
    for f in ('dz_dx', 'dz_dxdx'):
        with ck.guard('fields', f):
            it2 = M.interp()
            m2 = M.model(it2)
            asm.stub_loads(it2)
            a, b = M.call(it2, m2, f, Z, PHI), M.call(it2, m2, f, par(Z), -PHI)
            ck.saw(it2)
            s = -1 if f == 'dz_dx' else 1
            for i in range(6):
                ck.obl('derivative of the mirrored solution', f'{f} component {i}', D.conj(
                    zero(a[i, j], s * PAR[i] * replace(b[i, j], refl(PHI), it2.dom), it2.dom) for j in range(2)), a[i, 0], where=f)
    for f, s in (('du0_dxdx', -1), ('dpsi_dxdx', -1), ('du0_dxdxdx', 1), ('dpsi_dxdxdx', 1)):
        with ck.guard('fields', f):
            it2 = M.interp()
            m2 = M.model(it2)
            asm.stub_loads(it2)
            a, b = flat(M.call(it2, m2, f, Z, PHI)), flat(M.call(it2, m2, f, par(Z), -PHI))
            ck.obl('derivative of the mirrored solution', f, D.conj(
                zero(x, s * replace(y, refl(PHI), it2.dom), it2.dom) for x, y in zip(a, b)), a, where=f)


def stresses(ck, f, n):
    s = {'Sxx': 1, 'Txz': -1, 'Szz': 1, 'principal_stress_slab': 1}[f]
    with ck.guard('slab stresses', f'{f} {n} layers'):
        it = M.interp()
        it.ext['numpy.ceil'] = lambda it_, a, k, node: np.array([2] * a[0].size, dtype=object) if isinstance(a[0], np.ndarray) else 2
        it.ext['math.ceil'] = it.ext['numpy.ceil']
        m = M.model(it)
        m.attrs['slab'] = M.slabmat(n)
        m.attrs['h'] = sum(P(f'h{i}') for i in range(n))
        asm.stub_loads(it)
        Z = M.Zvec(1)
        mir = [False]
        if f == 'principal_stress_slab':   # components of the mirrored experiment: checked on their own
            def comp(name, sg):
                def st(it_, env, node):
                    k = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
                    sc = {'kPa': 1000, 'MPa': 1}[env['unit']]
                    return np.array([[(sg if mir[0] else 1) * sc * R(f'{name}{i}[{asm.nm(-env["phi"] if mir[0] else env["phi"])}]')] for i in range(k)], dtype=object)
                return st
            for name, sg in (('Sxx', 1), ('Txz', -1), ('Szz', 1)):
                it.mstubs[name] = comp(name, sg)
        for kw in ({},) if f != 'principal_stress_slab' else (dict(val='max'), dict(val='min'), dict(val='max', normalize=True)):
            mir[0] = False
            a = M.call(it, m, f, Z, PHI, **kw)
            mir[0] = True
            b = M.call(it, m, f, par(Z), -PHI, **kw)
            ck.saw(it)
            sub = refl(PHI)
            for i in range(a.shape[0]):
                v = b[i, 0] if isinstance(b[i, 0], Gate) or b[i, 0] is TOP else replace(b[i, 0], sub, it.dom)
                ck.obl('stress of the mirrored experiment', f'{f} {kw} {n} layers point {i}', zero(a[i, 0], v if v is TOP or isinstance(v, Gate) else s * v, it.dom), '', where=f)


def zsym(tag, x, l, phi, bed):
    return [R(f'Z<{tag};{asm.nm(x)};{asm.nm(phi)};{asm.nm(bed)}>{q}') for q in range(6)]


def rates(ck, ki, k0):
    """Energy release rates of a cracked assembly and of its mirror image."""
    n = len(ki)
    tag = f"ki={''.join('TF'[not k] for k in ki)}"
    li0 = [P(f'l{i}') for i in range(n)]
    res = []
    with ck.guard('energy release rates', tag):
        it0 = None
        for mir in (False, True):
            it = M.interp()
            if it0 is not None:
                it.dom.csyms, it.dom.conds = it0.dom.csyms, it0.dom.conds
            it0 = it
            m = M.model(it)
            seg = list(range(n))[::-1] if mir else list(range(n))
            li, kk, kz = [li0[i] for i in seg], [ki[i] for i in seg], [k0[i] for i in seg]
            phi = -PHI if mir else PHI
            C, C0 = D.consts(n, 'C'), D.consts(n, 'D')
            name = {}
            for j in range(n):
                name[str(C[0, j])], name[str(C0[0, j])] = ('c', j), ('u', j)

            def z(it_, env, node, mir=mir, seg=seg, name=name, li=li, phi=phi):
                x, c, l, ph = env['x'], env['C'], env['l'], env['phi']
                st, j = name.get(str(c[0, 0]), (None, None))
                if st is None or asm.nm(l) != asm.nm(li[j]) or asm.nm(ph) != asm.nm(phi):
                    return NotImplemented
                xs = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
                out = np.empty((6, len(xs)), dtype=object)
                k = seg[j]
                for q, v in enumerate(xs):
                    y = sp.expand(li0[k] - v) if mir else v
                    key = f'{st}{k}'
                    if st == 'c' and asm.nm(y) == '0' and k > 0:
                        key, y = f'c{k - 1}', li0[k - 1]   # continuity at the interface (C05)
                    col = [R(f'Z<{key};{asm.nm(y)}>{p}') for p in range(6)] if not sp.sympify(y).free_symbols - set(li0) else \
                        [sp.Function(f'Z{key}{p}')(y) for p in range(6)]
                    out[:, q] = [PAR[p] * col[p] if mir else col[p] for p in range(6)]
                return out
            it.mstubs['z'] = z
            g = flat(M.call(it, m, 'gdif', C, phi, M.arr(li), D.boolarr(kk)))
            e0 = len(it.events)
            gi = flat(M.call(it, m, 'ginc', C0, C, phi, M.arr(li), D.boolarr(kk), D.boolarr(kz)))
            qd = [e for e in it.events[e0:] if e['kind'] == 'quad']
            ck.saw(it)
            res.append((g, gi, qd, it))
        (g, gi, qd, it), (gm, gim, qm, itm) = res
        for k, nm in enumerate(('total', 'mode I', 'mode II')):
            ck.obl('energy release rate keeps its value', f'{tag} differential {nm}', zero(g[k], gm[k], it.dom), g[k], where='gdif')
        ck.obl('energy release rate keeps its value', f'{tag} incremental: number of integrals', len(qd) == len(qm) or None, where='ginc')
        # pair the integrals of the mirrored experiment with those of the original by reflecting the variable
        free, sub = list(qd), {}
        pairs = []
        for e in qm:
            hit = None
            for f in free:
                if zero(e['b'], f['b'], it.dom) is not True or zero(e['a'], f['a'], it.dom) is not True:
                    continue
                s = sp.sympify(f['a']) + sp.sympify(f['b'])
                b = sp.sympify(e['integrand'])
                b = b.subs(e['var'], s - f['var'])
                b = b.replace(lambda q: isinstance(q, sp.core.function.AppliedUndef), lambda q: q.func(*[sp.expand(w) for w in q.args]))
                if sp.expand(b - sp.sympify(f['integrand'])) == 0:
                    hit = f
                    break
            ck.obl('energy release rate keeps its value', f'{tag} incremental: integral {len(pairs)}', hit is not None, e['integrand'], where='ginc')
            if hit is not None:
                free.remove(hit)
                pairs.append((e, hit))
        sub = {itm.dom.integral(e['integrand'], e['var'], e['a'], e['b']): itm.dom.integral(f['integrand'], f['var'], f['a'], f['b']) for e, f in pairs}
        for k, nm in enumerate(('total', 'mode I', 'mode II')):
            if len(pairs) == len(qm):
                a, b = gi[k], gim[k]
                if isinstance(b, sp.Basic):
                    b = b.xreplace(sub)
                ck.obl('energy release rate keeps its value', f'{tag} incremental {nm}', zero(a, b, it.dom), f'{a} vs {b}', where='ginc')


def touchdown(ck, sysname, name):
    tag = f'{name} [{sysname}]'
    with ck.guard('touchdown conditions', tag):
        ev = []
        for mir in (False, True):
            it = M.interp()
            m = D.ready(it, FLIP[sysname] if mir else sysname, 'A', touchdown=True)
            m.attrs['phi'] = -PHI if mir else PHI
            asm.stub_loads(it)
            M.call(it, m, name)
            ck.saw(it)
            e = [e for e in it.events if e['kind'] == 'brentq']
            ev.append(e)
        if len(ev[0]) != 1 or len(ev[1]) != 1:
            ck.obl('touchdown conditions of the mirrored experiment', tag, None, f'{len(ev[0])}, {len(ev[1])} searches', where=name)
            return
        a, b = ev[0][0], ev[1][0]
        f = replace(b['f'], {**refl(PHI), b['var']: a['var']}, it.dom)
        ck.obl('touchdown conditions of the mirrored experiment', tag, zero(a['f'], f, it.dom), f, where=name)
        ck.obl('touchdown conditions of the mirrored experiment', f'{tag} interval', D.conj(zero(a[k], b[k], it.dom) for k in 'ab'), '', where=name)


def layout(ck, sysname, mode):
    tag = f'{sysname} stage {mode}'
    with ck.guard('segment layout', tag):
        out = []
        n = 3
        for mir in (False, True):
            it = M.interp()
            s = FLIP[sysname] if mir else sysname
            m = M.new(it, 'weac.layered.Layered', system=s, layers=M.layers(1), touchdown=mode != 'A')
            d1, d2, d3 = P('d1'), P('d2'), P('d3')
            a = {'A': d1, 'B': d1 + d2, 'C': d1 + d2 + d3}[mode]
            a1 = d1 if mode != 'A' else d1 + d2
            a2 = {'A': d1 + d2 + d3, 'B': d1 + d2 + d3, 'C': d1 + d2}[mode]
            it.mstubs['calc_a1'] = lambda *x, a1=a1: a1
            it.mstubs['calc_a2'] = lambda *x, a2=a2: a2
            it.mstubs['calc_lC'] = lambda *x: S.td
            phi = -PHI if mir else PHI
            kw = dict(L=a + P('lb'), a=a, m=P('m'), phi=phi)
            if sysname == 'skiers':
                li, mi, ki, k0 = [P(f'l{i}') for i in range(4)], [P(f'm{i}') for i in range(3)], [True, False, True, True], [True] * 4
                kw = dict(li=li, mi=mi, ki=ki, k0=k0, phi=phi)
                kw = {k: (v[::-1] if isinstance(v, list) else v) for k, v in kw.items()} if mir else kw
            seg = M.call(it, m, 'calc_segments', **kw)
            ck.saw(it)
            out.append(seg)
        for k in ('nocrack', 'crack', 'both'):
            for q in ('li', 'mi', 'ki', 'k0'):
                if q not in out[0][k]:
                    continue
                a, b = flat(out[0][k][q]), flat(out[1][k][q])[::-1]
                if q[0] == 'k':
                    a, b = [asm.truth(it, x) for x in a], [asm.truth(it, x) for x in b]
                    v = a == b if all(asm.isbool(x) for x in a + b) else None
                else:
                    v = len(a) == len(b) and D.conj(zero(x, y, it.dom) for x, y in zip(a, b))
                ck.obl('layout of the mirrored experiment', f'{tag}: {q} of {k}', v, f'{a} vs {b}', where='calc_segments')


def potentials(ck, mode):
    tag = f'stage {mode}'
    with ck.guard('potentials', tag):
        free = {'A': S.a, 'B': S.a, 'C': S.td}[mode]
        L = P('lb') + free + (P('rest') if mode == 'C' else 0)
        val = []
        for mir in (False, True):
            it = M.interp()
            it.ext['numpy.ceil'] = lambda it_, a, k, node: np.array([2] * a[0].size, dtype=object) if isinstance(a[0], np.ndarray) else 2
            it.ext['math.ceil'] = it.ext['numpy.ceil']
            m = D.ready(it, '-pst' if mir else 'pst-', mode=mode)
            phi = -PHI if mir else PHI
            m.attrs['phi'] = phi
            asm.stub_loads(it)
            li, ki = ([free, P('lb')], [False, True]) if mir else ([P('lb'), free], [True, False])
            C = D.consts(2)

            def z(it_, env, node, mir=mir):
                x = env['x']
                xs = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
                col = [R(f'Z{p}') for p in range(6)]
                return np.array([[(PAR[p] if mir else 1) * col[p] for _ in xs] for p in range(6)], dtype=object)
            it.mstubs['z'] = z
            kw = dict(li=M.arr(li), mi=M.arr([0]), ki=D.boolarr(ki), k0=D.boolarr([True, True]))
            val.append([sp.sympify(M.call(it, m, f, C=C, phi=phi, L=L, **kw)) for f in ('internal_potential', 'external_potential')])
            ck.saw(it)
        for k, f in enumerate(('internal_potential', 'external_potential')):
            ck.obl('potential energy keeps its value', f'{tag} {f}', zero(val[0][k], replace(val[1][k], refl(PHI), it.dom), it.dom), val[0][k], where=f)


def raster(ck, ki):
    """Support marks at the segment ends of a rasterised experiment and of its mirror image."""
    n = len(ki)
    tag = f"ki={''.join('TF'[not k] for k in ki)}"
    rule = 'segment ends of the mirrored experiment are supported alike'
    with ck.guard(rule, tag):
        li0 = [P(f'l{i}') for i in range(n)]
        num = {P(f'l{i}'): sp.Rational(101 + 37 * i * i, 10) for i in range(n)}
        marks = []
        for mir in (False, True):
            it = M.interp()
            it.ext['numpy.ceil'] = lambda it_, a, k, node: np.array([2] * a[0].size, dtype=object) if isinstance(a[0], np.ndarray) else 2
            it.ext['math.ceil'] = it.ext['numpy.ceil']
            m = M.model(it)
            asm.stub_segments(it)
            asm.stub_loads(it)
            li, kk = (li0[::-1], ki[::-1]) if mir else (li0, ki)
            x, z, xb = M.call(it, m, 'rasterize_solution', C=D.consts(n), phi=-PHI if mir else PHI, li=M.arr(li), ki=D.boolarr(kk))
            ck.saw(it)
            ends = [sum(li[:j], sp.Integer(0)) for j in range(n + 1)]
            row = []
            for e in ends:
                hit = [k for k in range(x.size) if x[k] is not NAN and x[k] is not TOP and not isinstance(x[k], Gate)
                       and sp.sympify(x[k] - e).subs(num) == 0]
                row.append({xb[k] is not NAN if xb[k] is not TOP and not isinstance(xb[k], Gate) else None for k in hit})
            marks.append(row[::-1] if mir else row)
        for j in range(n + 1):
            a, b = marks[0][j], marks[1][j]
            ck.obl(rule, f'{tag} end {j}', None if None in a | b or not a or not b else a == b, f'{a} vs {b}', where='rasterize_solution')


def check(ck):
    tasks = [(loads,), (governing,), (fields,)]
    tasks += [(raster, ki) for n in (2, 3, 4) for ki in itertools.product((True, False), repeat=n)]
    tasks += [(stresses, f, n) for f in ('Sxx', 'Txz', 'Szz', 'principal_stress_slab') for n in (1, 2)]
    for s in FLIP:
        for n in range(2, 5 if ck.thorough else 4):
            for ki in itertools.product((True, False), repeat=n):
                if not any(ki) or s.startswith('ski') and not (ki[0] and ki[-1]):
                    continue
                for mode in 'ABC':
                    if mode != 'A' and s not in ('pst-', '-pst'):
                        continue
                    tasks.append((system, s, mode, ki))
    for n in range(2, 6 if ck.thorough else 5):
        for ki in itertools.product((True, False), repeat=n):
            if any(ki) and not all(ki):
                tasks.append((rates, ki, (True,) * n))
    tasks += [(touchdown, s, f) for s in ('pst-', '-pst') for f in ('calc_a1', 'calc_a2', 'calc_lC')]
    tasks += [(layout, s, mode) for s in FLIP for mode in 'ABC' if mode == 'A' or s in ('pst-', '-pst')]
    tasks += [(potentials, mode) for mode in 'ABC']
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C02', RULE, check, minimum=600, assumptions=[
        'exact arithmetic', 'bedded particular solution is constant and segment functions solve the governing equations (C04)',
        'solution is continuous at interfaces (C05)'])
