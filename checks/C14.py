"""C14: documented options work, undocumented options are refused."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import AbsRaise, Func
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of every public function once per option value: values listed in the documentation (harvested from the '
        'docstrings, united with a fixed table) must return a result on every path, synonyms the same term, other units the base term '
        'times the conversion factor; every other value must end in a ValueError or failing look-up on every path; no path reads a '
        'variable that may be unbound.')
LEN = {'m': sp.Rational(1, 1000), 'cm': sp.Rational(1, 10), 'mm': 1, 'um': 1000}
STR = {'MPa': 1, 'kPa': 1000}
ANG = {'rad': 1, 'radians': 1, 'deg': 180 / sp.pi, 'degrees': 180 / sp.pi}
ERR = {'kJ/m^2': 1, 'N/mm': 1, 'J/m^2': 1000}
UNITS = {'w': LEN, 'u': LEN, 'get_slab_displacement': LEN, 'get_slab_deflection': LEN, 'psi': ANG, 'get_slab_rotation': ANG,
         'sig': STR, 'tau': STR, 'Sxx': STR, 'Txz': STR, 'Szz': STR, 'principal_stress_slab': STR, 'principal_stress_weaklayer': STR,
         'get_weaklayer_shearstress': STR, 'get_weaklayer_normalstress': STR, 'Gi': ERR, 'Gii': ERR, 'gdif': ERR}
TABLE = {('get_slab_displacement', 'loc'): ['top', 'mid', 'bot'],
         ('principal_stress_slab', 'val'): ['max', 'min'], ('principal_stress_weaklayer', 'val'): ['max', 'min'],
         ('substitute_stiffness', 'support'): ['rested', 'supported'], ('substitute_stiffness', 'dof'): ['rot', 'trans'],
         ('eqs', 'pos'): ['left', 'mid', 'right', 'l', 'm', 'r'], ('bc', 'pos'): ['left', 'right', 'l', 'r']}
SYN = {'left': 'l', 'right': 'r', 'mid': 'm'}
EXPLICIT = ('ValueError', 'KeyError', 'IndexError', 'LookupError')
TOLERATED = {'degree', 'radian', 'middle'}     # further spellings of documented options
SYSTEMS = ['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']


def junk(opts, thorough=False):
    """Values that are none of the documented ones, including near misses."""
    out = ['junk', '']
    for o in opts:
        out += [o + 'x', o[:-1], o[1:], o.swapcase(), o + ' ', ' ' + o]
        if thorough:
            out += [o * 2, o.upper(), o.lower(), o[0], o[-1], o[::-1]]
    seen = []
    for v in out:
        if v not in opts and v not in TOLERATED and v not in seen:
            seen.append(v)
    return seen


def values(r):
    return [x for x in flat(r) if isinstance(x, (int, float, sp.Basic)) and not isinstance(x, bool)]


def check(ck):
    it = M.interp()
    pub = D.public(it.get('weac.layered.Layered'))
    tasks = []
    n = 0
    for name, f in sorted(pub.items()):
        doc = D.doc_options(f)
        names = D.params(f)[0]
        for p in names:
            opts = list(dict.fromkeys([o for o in doc.get(p, []) if o and o[-1] not in '.)'] + list(UNITS.get(name, {}) if p == 'unit' else [])
                                      + TABLE.get((name, p), [])))
            if name == 'bc':
                opts = TABLE[('bc', 'pos')]
            if not opts or not all(isinstance(o, str) for o in opts):
                continue
            n += 1
            for st in (('pst-', 'A'), ('pst-', 'B'), ('-pst', 'C')) if p == 'pos' else (('pst-', 'A'),):
                if name == 'bc' and st[1] == 'A':
                    continue
                base = None
                tasks.append((accept, name, p, tuple(opts), st))
                for v in junk(opts, ck.thorough):
                    tasks.append((refuse, name, p, v, st))
    for k in list(UNITS) + [a for a, _ in TABLE]:
        if k not in pub:
            raise Broken(f'public method {k} not found')
    if n < 20:
        raise Broken('documented options not found')
    for s in SYSTEMS:
        for td in (False, True):
            tasks.insert(0, (system_ok, s, td))
    for s in junk(SYSTEMS, ck.thorough):
        for td in (False, True):
            tasks.append((system_bad, s, td))
        tasks.append((solve_bad, s))
    tasks += [(profiles,), (strength,)]
    for dz in (sp.Rational(1, 2), 2, sp.Rational(43, 4), 200):
        for name, kw in (('get_zmesh', {}), ('Sxx', {}), ('Txz', {}), ('Szz', {}), ('principal_stress_slab', {}),
                         ('principal_stress_slab', dict(val='min')), ('principal_stress_slab', dict(normalize=True)),
                         ('principal_stress_slab', dict(normalize=True, unit='MPa'))):
            tasks.append((spacing, name, dz, kw))
    for u in ('kPa', 'MPa'):
        for name, val in (('principal_stress_slab', 'min'), ('principal_stress_weaklayer', 'max')):
            for td in (('pst-', 'A'), ('skier', 'A')):
                tasks.append((unnormal, name, val, u, td))
    for fld in ('u', 'w', 'Sxx', 'Txz', 'Szz', 'principal', 'default'):
        tasks.insert(0, (field_ok, fld))
    for fld in junk(['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal'], False):
        tasks.append((field_bad, fld))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


def unbound(ck, it, tag):
    u = [e for e in it.events if e['kind'] == 'maybe_unbound']
    ck.obl('no read of a possibly unbound variable', tag, not u, str(u[:2]), where=tag)


def run(name, p, v, st, ki_=None):
    it = M.interp()
    D.ceil2(it)
    m = D.ready(it, *st)
    f = it.getattr(m, name)
    opts = {p: v}
    if name in ('bc', 'eqs') :
        opts['k'] = False
    kw = D.arguments(it, m, name, f.func, st[0], opts=opts)
    if name in ('get_slab_displacement',):
        kw['x'] = np.array([R('x0'), R('x1'), R('x2')], dtype=object)
    return it, (lambda: it.call(f, [], kw, None))


def accept(ck, name, p, opts, st):
    rule = 'documented option gives a result'
    res = {}
    its = {}
    for v in opts:
        tag = f'{name}({p}={v!r}) [{st[0]} {st[1]}]'
        try:
            with ck.guard(rule, tag, on_raise=False):
                it, go = run(name, p, v, st)
                r = go()
                ck.obl(rule, tag, r is not None, r if r is None else '', where=name)
                may = [e for e in it.may_raises]
                unbound(ck, it, tag)
                res[v], its[v] = values(r), it
                ck.saw(it)
        except D.Skip:
            return
    # synonyms and unit factors
    tab = UNITS.get(name) if p == 'unit' else None
    if tab and name != 'principal_stress_slab':     # square roots of full stress terms: C09 compares them on symbolic stresses
        b = [v for v in tab if tab[v] == 1 and v in res]
        for v in res:
            if b and v in tab and v != b[0]:
                x, y = res[b[0]], res[v]
                tail = lambda q: q[len(q) // 2:] if name.startswith('get_') else q
                x, y = tail(x), tail(y)
                ok = len(x) == len(y)
                ver = D.conj(is_zero(tab[v] * i - j, its[v].dom) for i, j in zip(x, y)) if ok else False
                ck.obl('option selects its own result', f'{name}({p}={v!r})', ver, f'{v} against {b[0]}', where=name)
    elif p == 'pos':
        for a, b in SYN.items():
            if a in res and b in res:
                v = D.conj(is_zero(i - j, its[a].dom, opaque=True) for i, j in zip(res[a], res[b])) if len(res[a]) == len(res[b]) else False
                ck.obl('option selects its own result', f'{name}({p}={a!r} and {b!r}) [{st[0]} {st[1]}]', v, where=name)
    elif p == 'loc':
        Z = M.Zvec(3, 'Z')
        for v, z0 in (('top', -S.h / 2), ('mid', 0), ('bot', S.h / 2)):
            if v in res:
                y = res[v][-3:]
                ver = D.conj(is_zero(y[j] - Z[0, j] - z0 * Z[4, j], its[v].dom) for j in range(3)) if len(y) == 3 else False
                ck.obl('option selects its own result', f'{name}({p}={v!r})', ver, y, where=name)


def refuse(ck, name, p, v, st):
    rule = 'undocumented option is refused explicitly'
    tag = f'{name}({p}={v!r}) [{st[0]} {st[1]}]'
    try:
        it, go = run(name, p, v, st)
    except D.Skip:
        return
    bad(ck, rule, tag, it, go, name)


def bad(ck, rule, tag, it, go, name):
    with ck.guard(rule, tag, on_raise=None):
        try:
            r = go()
        except AbsRaise as e:
            ck.obl(rule, tag, e.exc in EXPLICIT, f'{e.exc} {e.eargs}', where=name)
            ck.saw(it)
            return
        mr = [x for x in it.may_raises]
        ck.obl(rule, tag, False if not mr else None, f'returns {str(r)[:200]}', where=name)
        ck.saw(it)


def spacing(ck, name, dz, kw):
    """Every grid spacing gives one row per grid point."""
    rule = 'documented option gives a result'
    tag = f"{name}(dz={dz}{''.join(f', {k}={v}' for k, v in kw.items())})"
    with ck.guard(rule, tag, on_raise=False):
        it = M.interp()
        m = D.ready(it, 'pst-', 'A')
        m.attrs['slab'] = M.arr([[sp.Integer(200 + 30 * i), sp.Integer(4 + 2 * i), sp.Integer(5), sp.Integer(2), sp.Rational(1, 4)] for i in range(2)])
        m.attrs['h'] = sp.Integer(10)
        n = sum(int(sp.ceiling(sp.Integer(q) / dz)) + 1 for q in (4, 6))
        a = () if name == 'get_zmesh' else (M.Zvec(2), R('phi'))
        r = it.call(it.getattr(m, name), list(a), dict(kw, dz=dz), None)
        ok = isinstance(r, np.ndarray) and r.shape == (n, 2 if a else 4)
        ck.obl(rule, tag, ok, getattr(r, 'shape', r), where=name)
        ck.saw(it)


def unnormal(ck, name, val, u, st):
    it = M.interp()
    D.ceil2(it)
    m = D.ready(it, *st)
    a = (M.Zvec(2), R('phi')) if 'slab' in name else (M.Zvec(2),)
    bad(ck, 'undocumented option is refused explicitly', f'{name}(val={val!r}, normalize=True, unit={u!r}) [{st[0]}]', it,
        lambda: it.call(it.getattr(m, name), list(a), dict(val=val, normalize=True, unit=u), None), name)


def system_ok(ck, s, td):
    rule = 'documented system runs from layout to solution'
    tag = f'{s} touchdown={td}'
    for md in ('A', 'B', 'C') if td and s in ('pst-', '-pst') else ('A',):
        with ck.guard(rule, f'{tag} stage {md}', on_raise=False):
            it = M.interp()
            D.ceil2(it)
            m = M.new(it, 'weac.layered.Layered', system=s, layers=M.layers(1), touchdown=td)
            m.attrs['g'] = S.g
            for k in ('A11', 'B11', 'D11', 'kA55', 'h', 'zs', 't', 'kn', 'kt'):
                m.attrs[k] = getattr(S, k)
            m.attrs['K0'] = S.B11**2 - S.A11 * S.D11
            M.call(it, m, 'calc_eigensystem')

            def mode(it_, env, node):
                env['self'].attrs['mode'] = md
            if td:
                it.mstubs['calc_touchdown_mode'] = mode
                it.mstubs['calc_lC'] = lambda it_, env, node: S.td
            a = S.td + P('rest') if md == 'C' else S.a
            kw = dict(L=a + P('lb'), a=a, m=S.m, phi=R('phi'))
            if s == 'skiers':
                kw.update(li=list(D.lens(3)), mi=[P('m0'), P('m1')], ki=[True, False, True], k0=[True, True, True])
            seg = M.call(it, m, 'calc_segments', **kw)
            ck.obl(rule, f'{tag} stage {md}: layout', isinstance(seg, dict) and {'crack', 'nocrack', 'both'} <= set(seg), seg)
            asm.stub_loads(it)
            asm.stub_segments(it)
            C = {}
            for w in ('nocrack', 'crack'):
                C[w] = M.call(it, m, 'assemble_and_solve', phi=R('phi'), **seg[w])
            r = M.call(it, m, 'ginc', C0=C['nocrack'], C1=C['crack'], phi=R('phi'), **seg['both'])
            g = M.call(it, m, 'gdif', C=C['crack'], phi=R('phi'), **seg['crack'])
            z = M.call(it, m, 'rasterize_solution', C=C['crack'], phi=R('phi'), **seg['crack'])
            ck.obl(rule, f'{tag} stage {md}: evaluation', all(x is not None for x in (r, g, z)))
            unbound(ck, it, f'{tag} stage {md}: layout to solution')
            ck.saw(it)


def system_bad(ck, s, td):
    rule = 'undocumented system is refused explicitly'
    it = M.interp()

    def go():
        m = M.new(it, 'weac.layered.Layered', system=s, layers=M.layers(1), touchdown=td)
        return M.call(it, m, 'calc_segments', L=S.L, a=S.a, phi=R('phi'))
    bad(ck, rule, f'calc_segments with system {s!r} touchdown={td}', it, go, 'calc_segments')


def solve_bad(ck, s):
    rule = 'undocumented system is refused explicitly'
    for n in (1, 2, 3):
        it = M.interp()
        m = D.ready(it, 'pst-', 'A')
        m.attrs['system'] = s

        def go():
            return M.call(it, m, 'assemble_and_solve', phi=R('phi'), li=M.arr(D.lens(n)), mi=M.arr([0] * (n - 1)),
                          ki=D.boolarr([True] * n))
        bad(ck, rule, f'assemble_and_solve with system {s!r}, {n} segments', it, go, 'assemble_and_solve')


PROFILES = ['a', 'b', 'c', 'd', 'e', 'f', 'h', 'soft', 'medium', 'hard', 'comp']


def profiles(ck):
    rule = 'documented profile is loaded'
    for p in PROFILES:
        for q in (p, 'profile ' + p) + ((p.upper(), 'profile ' + p.upper(), 'Profile ' + p.upper()) if len(p) == 1 else ()):
            with ck.guard(rule, repr(q), on_raise=False):
                it = M.interp()
                m = M.new(it, 'weac.layered.Layered', layers=q)
                s = m.attrs['slab']
                L, E = M.fun(it, 'weac.tools.load_dummy_profile', p)
                ok = s.shape[0] == L.shape[0] and all(is_zero(a - b, it.dom) for a, b in zip(s[:, :3].ravel(), np.column_stack([L, E]).ravel()))
                ck.obl(rule, repr(q), bool(ok), s, where='set_beam_properties')
                ck.saw(it)
    for q in ('x', 'aa', 'sof', 'softx', 'profile x', 'i', 'j', 'comp2'):
        it = M.interp()
        bad(ck, 'undocumented profile is refused explicitly', repr(q), it, lambda: M.new(it, 'weac.layered.Layered', layers=q), 'load_dummy_profile')
        it2 = M.interp()
        if ' ' not in q:
            bad(ck, 'undocumented profile is refused explicitly', f'load_dummy_profile({q!r})', it2,
                lambda: M.fun(it2, 'weac.tools.load_dummy_profile', q), 'load_dummy_profile')


def strength(ck):
    for u, f in (('kPa', 1000), ('MPa', 1)):
        with ck.guard('documented option gives a result', f'tensile_strength_slab({u})', on_raise=False):
            it = M.interp()
            a, b = (M.fun(it, 'weac.tools.tensile_strength_slab', P('rho'), unit=x) for x in (u, 'MPa'))
            ck.obl('option selects its own result', f'tensile_strength_slab({u})', is_zero(a - f * b, it.dom), a)
            ck.saw(it)
    for v in junk(['kPa', 'MPa']):
        it = M.interp()
        bad(ck, 'undocumented option is refused explicitly', f'tensile_strength_slab(unit={v!r})', it,
            lambda: M.fun(it, 'weac.tools.tensile_strength_slab', P('rho'), unit=v), 'tensile_strength_slab')


def plotcall(fld):
    it = M.interp()
    D.ceil2(it)
    D.stub_stress(it)
    c = D.PlotCase(it, 'pst-', 4)
    kw = dict(D.PLOTS['deformed'](c))
    if fld != 'default':
        kw['field'] = fld
    return it, lambda: it.call(it.get('weac.plot.deformed'), [], kw, None)


def field_ok(ck, fld):
    rule = 'documented option gives a result'
    with ck.guard(rule, f'deformed(field={fld!r})', on_raise=False):
        it, go = plotcall(fld)
        go()
        ck.obl(rule, f'deformed(field={fld!r})', True)
        unbound(ck, it, f'deformed(field={fld!r})')
        ck.saw(it)


def field_bad(ck, fld):
    it, go = plotcall(fld)
    bad(ck, 'undocumented option is refused explicitly', f'deformed(field={fld!r})', it, go, 'deformed')


if __name__ == '__main__':
    main('C14', RULE, check, minimum=200, assumptions=[
        'undocumented values are represented by near misses of the documented ones; code that only compares or looks up its option treats all of them alike'])
