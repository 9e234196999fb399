"""C31: an argument left out means its documented default."""
import ast
import inspect
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import AbsRaise, Func, TOP
from vlib.model import S, R, P
from vlib.harness import main, Broken

RULE = ('The default every public signature declares is folded to a constant and compared with the default the docstring states and with the '
        'table of documented defaults; where the constants differ or the signature leaves the default to the body, the call without the '
        'argument and the call with the documented value are interpreted and compared for all values of the other arguments. Objects built '
        'without arguments are compared attribute by attribute with objects built from the documented values.')
inf = float('inf')
TABLE = {
    'Gi': dict(unit='kJ/m^2'), 'Gii': dict(unit='kJ/m^2'), 'gdif': dict(unit='kJ/m^2'),
    'Sxx': dict(dz=2, unit='kPa'), 'Szz': dict(dz=2, unit='kPa'), 'Txz': dict(dz=2, unit='kPa'), 'get_zmesh': dict(dz=2),
    'bc': dict(k=False, pos='mid'), 'eqs': dict(k=False, pos='mid'),
    'calc_segments': dict(li=False, mi=False, ki=False, k0=False, L=10000, a=0, m=0, phi=0, cf=0.5, ratio=1000),
    'get_slab_deflection': dict(unit='mm'), 'get_slab_displacement': dict(loc='mid', unit='mm'), 'get_slab_rotation': dict(unit='degrees'),
    'get_weaklayer_normalstress': dict(unit='MPa', removeNaNs=False), 'get_weaklayer_shearstress': dict(unit='MPa', removeNaNs=False),
    'principal_stress_slab': dict(dz=2, unit='kPa', val='max', normalize=False),
    'principal_stress_weaklayer': dict(sc=2.6, unit='kPa', val='min', normalize=False),
    'psi': dict(unit='rad'), 'w': dict(unit='mm'), 'u': dict(unit='mm'), 'sig': dict(unit='MPa'), 'tau': dict(unit='MPa'),
    'rasterize_solution': dict(num=250),
    'set_beam_properties': dict(C0=6.5, C1=4.4, nu=0.25, update=False),
    'set_foundation_properties': dict(t=30, E=0.25, nu=0.25, update=False),
    'set_stiffness_ratio': dict(ratio=1000), 'calc_touchdown_system': dict(ratio=1000),
    'substitute_stiffness': dict(support='rested', dof='rot'),
    'z': dict(bed=True), 'zh': dict(l=0, bed=True), 'zp': dict(bed=True),
    'Layered': dict(system='pst-', layers=None, touchdown=False),
    'Inverse': dict(system='pst-', layers=None, parameters=(6.0, 4.6, 0.25)),
    'tools.bergfeld': dict(rho0=917, C0=6.5, C1=4.4), 'tools.gerling': dict(C0=6, C1=4.6), 'tools.tensile_strength_slab': dict(unit='kPa'),
    'tools.touchdown_distance': dict(layers=None, C0=6.5, C1=4.4, Ewl=0.25, t=10, phi=0),
    'plot.deformed': dict(dz=2, scale=100, window=inf, pad=2, levels=300, aspect=2, field='principal', normalize=True, dark=False),
    'plot.adjust_lightness': dict(amount=0.5), 'plot.tight_central_distribution': dict(samples=100, tightness=1.5),
    'plot.err_modes': dict(kind='inc'),
}
SYN = {'radians': 'rad', 'deg': 'degrees', 'N/mm': 'kJ/m^2', 'l': 'left', 'r': 'right', 'middle': 'mid', 'm': 'mid'}
LAYERS = [[240, 200]]
NODEFAULT = object()


def same(a, b):
    """Are two constants the same default?"""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b or SYN.get(a, a) == SYN.get(b, b) and a in ('rad', 'radians', 'deg', 'degrees') and b in ('rad', 'radians', 'deg', 'degrees')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    num = (int, float, sp.Number, np.number)
    if isinstance(a, num) and isinstance(b, num) or {a, b} & {sp.oo} if _h(a) and _h(b) else False:
        return abs(float(a) - float(b)) <= 1e-12 * abs(float(b)) if abs(float(b)) != inf else float(a) == float(b)
    return False


def exact(v):
    """Numbers as the exact constants the interpretation folds literals to."""
    if isinstance(v, float) and abs(v) != inf:
        return sp.Rational(str(v))
    if isinstance(v, (list, tuple)):
        return type(v)(exact(x) for x in v)
    return v


def _h(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def constant(f, p):
    """(known, value) of the default a signature declares for p."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults))
    d.update(f.kwdefaults)
    v = d.get(p, NODEFAULT)
    if isinstance(v, sp.Number):
        v = inf if v is sp.oo else float(v)
    elif isinstance(v, np.ndarray):
        v = v.tolist()
    elif v is TOP and ast.unparse(D.params(f)[1][p]) in ('np.inf', 'numpy.inf', 'math.inf', "float('inf')"):
        v = inf
    if isinstance(v, (list, tuple)):
        v = tuple(float(x) if isinstance(x, sp.Number) else x for x in v)
    ok = v is None or isinstance(v, (bool, int, float, str, tuple))
    return ok, v if ok else None


def stated(f, head='Parameters|Arguments|Keyword Arguments'):
    """parameter -> text of the default the docstring states."""
    doc = inspect.cleandoc(ast.get_docstring(f if isinstance(f, ast.AST) else f.node) or '')
    m = re.search(r'(?:' + head + r')\s*\n-+\n(.*?)(?=\n\n+(?:Returns|Raises|Notes|Examples)\s*\n-|\Z)', doc, re.S)
    out, cur = {}, ()
    for l in m.group(1).split('\n') if m else ():
        if l and not l.startswith(' '):
            cur = [x.strip() for x in l.split(':')[0].split(',')]
            for c in cur:
                out[c] = ''
        else:
            for c in cur:
                out[c] += ' ' + l.strip()
    for k, v in list(out.items()):
        g = re.search(r'[Dd]efaults?\s+(?:is|to)\s+(.*?)(?:\.\s|\.$|$)', v)
        if g:
            out[k] = g.group(1).strip()
        else:
            del out[k]
    return out


def read(text):
    """Constant a documented default names; NODEFAULT if it is not one."""
    t = text.strip()
    for cand in (t, t.split(' ')[0]):
        if cand in ('inf', 'np.inf'):
            return inf
        try:
            return ast.literal_eval(cand)
        except (ValueError, SyntaxError):
            pass
    t = t.split(' ')[0].rstrip('.,')
    if t == 'zero':
        return 0
    return t if re.fullmatch(r'[A-Za-z/^0-9]+', t) else NODEFAULT


def ratio(text):
    try:
        return sp.Rational(text.split(' ')[0].rstrip('.'))
    except (TypeError, ValueError, ZeroDivisionError):
        return NODEFAULT


def functions(it):
    """Public callables: key -> (label, Func, class name or None)."""
    out = {}
    for cn in ('Layered', 'Inverse'):
        c = it.get('weac.' + cn)
        for k, f in D.public(c).items():
            out.setdefault((k, cn), f)
        _, f = c.find('__init__')
        if isinstance(f, Func):
            out[(cn, cn)] = f
    for mod in ('tools', 'plot'):
        for k, f in it.load('weac.' + mod).env.items():
            if isinstance(f, Func) and f.owner is None and not k.startswith('_'):
                out[(f'{mod}.{k}', None)] = f
    return out


def compare_calls(key, cn, p, value):
    """True / False / None: leaving p out is the same as passing `value` with every option of the other arguments."""
    if cn is None and key.startswith('plot.'):
        return None, 'drawing function'
    if key == 'tools.touchdown_distance':
        return touchdown(p, value)
    vs, d = [], ''
    f = functions(M.interp())[(key, cn)]
    for other in D.option_sets(f):
        if p in other:
            continue
        it = M.interp()
        res = []
        for give in (False, True):
            opts = dict(other)
            if give:
                opts[p] = exact(value)
            if cn is None:
                g = functions(it)[(key, None)]
                names, dflt, _, _ = D.params(g)
                kw = {q: P('arg_' + q) for q in names if q not in dflt}
                kw.update(opts)
                r, m = it.call(g, [], kw, None), None
            else:
                m = it.call(it.get('weac.' + cn), [], {}, None)
                g = it.getattr(m, key)
                if key != 'calc_segments':
                    M.call(it, m, 'calc_segments', L=S.a + P('lb'), a=S.a, m=P('ms'), phi=R('phi'))
                kw = D.arguments(it, m, key, D.public(m.cls)[key], 'pst-', opts=other)
                kw.pop(p, None)
                kw.update(opts)
                r = it.call(g, [], kw, None)
            res.append((r, dict(m.attrs) if m is not None else {}))
        v = D.equal(it, res[0], res[1])
        if v is not True:
            d = f'{other}: {str(res[0][0])[:200]} / {str(res[1][0])[:200]}'
        vs.append(v)
        if v is False:
            break
    return D.conj(vs), d


def touchdown(p, value):
    res = []
    it = M.interp()
    for give in (False, True):
        kw = {q: P('arg_' + q) for q in ('C0', 'C1', 'Ewl', 't', 'phi') if q != p}
        if p != 'layers':
            kw['layers'] = [[P('rho0'), P('h0')]]
        if give:
            kw[p] = exact(value)
        for nm in ('calc_a1', 'calc_a2', 'calc_lC'):
            it.mstubs[nm] = (lambda nm: lambda it_, env, node: (nm, {k: v for k, v in env['self'].attrs.items()})[0] and snap(it_, nm, env))(nm)
        res.append(M.fun(it, 'weac.tools.touchdown_distance', **kw))
    return D.equal(it, res[0], res[1]), f'{res}'[:400]


def snap(it, nm, env):
    """A symbol that stands for the root searched on a model with these attributes."""
    a = env['self'].attrs
    keys = sorted(k for k in a if isinstance(a[k], (int, float, sp.Basic)) and not isinstance(a[k], bool))
    return P(nm + '[' + ';'.join(f'{k}={a[k]}' for k in keys) + ']')


def one(ck, key, cn, p, want, why):
    it = M.interp()
    f = functions(it).get((key, cn))
    tag = f'{cn + "." if cn and cn != key else ""}{key}({p})'
    rule = f'{why} is the effective default'
    with ck.guard(rule, tag):
        names, dflt, haskw, _ = D.params(f)
        if p not in names and not haskw:
            ck.obl(rule, tag, None, 'parameter not found (interface: C19)', where=key)
            return
        if p in names and p not in dflt:
            ck.obl(rule, tag, False, f'the argument can no longer be left out, documented default {want!r}', where=key)
            return
        known, v = constant(f, p) if p in dflt else (False, None)
        if known and same(v, want):
            ck.obl(rule, tag, True, f'{v!r}', where=key)
            return
        verdict, d = None, ''
        if cn != key:
            try:
                verdict, d = compare_calls(key, cn, p, want)
            except AbsRaise as e:
                verdict, d = None, f'raises {e.exc}{e.eargs!r}'
            except D.Skip as e:
                d = str(e)
        else:
            verdict, d = built_with(cn, p, want)
        if verdict is None and known and v is not None and v is not False and isinstance(v, (int, float, str, tuple, list)) \
                and type(v) in (int, float, str, bool, tuple, list) and not isinstance(v, bool):
            verdict = False                 # an ordinary constant other than the documented one, with nothing to replace it
        ck.obl(rule, tag, verdict, f'documented {want!r}, declared {ast.unparse(dflt[p]) if p in dflt else "in the body"}; {d}', where=key)


def built_with(cn, p, want):
    it = M.interp()
    a = it.call(it.get('weac.' + cn), [], {}, None)
    b = it.call(it.get('weac.' + cn), [], {p: exact(want)}, None)
    return D.equal(it, dict(a.attrs), dict(b.attrs)), ''


def built(ck, cn, give):
    """Objects built without arguments are built from the documented values."""
    rule = 'construction without arguments uses the documented values'
    tag = f"{cn}({', '.join(give)})"
    with ck.guard(rule, tag):
        it = M.interp()
        lay = [[P('rho0'), P('h0')], [P('rho1'), P('h1')]] if 'layers' in give else LAYERS
        kw = {'layers': lay} if 'layers' in give else {}
        if 'system' in give:
            kw['system'] = 'skier'
        a = it.call(it.get('weac.' + cn), [], dict(kw), None)
        b = it.call(it.get('weac.' + cn), [], dict(system=kw.get('system', 'pst-')), None)
        C = exact(dict(Layered=(6.5, 4.4), Inverse=(6.0, 4.6))[cn])
        M.call(it, b, 'set_foundation_properties', t=30, E=exact(0.25), nu=exact(0.25), update=True)
        M.call(it, b, 'set_beam_properties', lay, C0=C[0], C1=C[1], nu=exact(0.25), update=True)
        ck.saw(it)
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k not in a.attrs or k not in b.attrs:
                ck.obl(rule, f'{tag}: {k}', None, 'attribute on one of the objects only', where=cn)
                continue
            ck.obl(rule, f'{tag}: {k}', D.equal(it, a.attrs[k], b.attrs[k]), f'{str(a.attrs[k])[:200]} / {str(b.attrs[k])[:200]}', where=cn)


CONST = {'g': 9810, 'lski': 1000, 'tol': sp.Rational(1, 1000), 'k': sp.Rational(5, 6), 'p': 0, 't': 30, 'system': 'pst-', 'h': 200,
         'touchdown': False}


def constants(ck, cn):
    """Attributes of a model nothing was said about."""
    rule = 'attributes start at their documented values'
    it = M.interp()
    with ck.guard(rule, cn):
        m = it.call(it.get('weac.' + cn), [], {}, None)
        for k, want in CONST.items():
            if k not in m.attrs:
                ck.obl(rule, f'{cn}.{k}', None, 'attribute not found', where=cn)
                continue
            v = m.attrs[k]
            if isinstance(want, (str, bool)):
                ok = v == want if isinstance(v, (str, bool)) else None
            else:
                ok = sp.simplify(sp.nsimplify(v, rational=True) - want) == 0 if isinstance(v, (int, float, sp.Number)) else None
            ck.obl(rule, f'{cn}.{k}', ok, f'{v} instead of {want}', where=cn)
        for c in m.cls.mro():
            for k, text in sorted(stated(c.node, 'Attributes').items()) if getattr(c, 'node', None) is not None else ():
                want = read(text) if '/' not in text else ratio(text)
                v = m.attrs.get(k)
                if want is NODEFAULT or isinstance(want, str) and repr(want) not in text or not isinstance(v, (str, int, float, sp.Number)) \
                        or isinstance(v, str) != isinstance(want, str) or isinstance(want, (list, tuple, dict)):
                    continue
                ok = v == want if isinstance(v, str) or isinstance(want, str) else abs(float(v) - float(want)) <= 1e-12 * abs(float(want))
                ck.obl('attributes start at the value the class documentation states', f'{cn}: {c.name}.{k}', ok, f'{v} instead of {want}', where=cn)
        w = m.attrs.get('weak')
        ok = isinstance(w, dict) and {str(k): float(v) for k, v in w.items()} == {'nu': 0.25, 'E': 0.25} if isinstance(w, dict) and all(
            isinstance(v, (int, float, sp.Number)) for v in w.values()) else None
        ck.obl(rule, f'{cn}.weak', ok, w, where=cn)


def layers_omitted(ck):
    rule = 'no layering means one layer of 240 kg/m^3 and 200 mm'
    for cn in ('Layered', 'Inverse'):
        for give in ((), ('None',)) + ((('empty',),) if cn == 'Layered' else ()):
            tag = f'{cn}(layers {give[0] if give else "left out"})'
            with ck.guard(rule, tag):
                it = M.interp()
                kw = {} if not give else dict(layers=None if give[0] == 'None' else [])
                a = it.call(it.get('weac.' + cn), [], kw, None)
                b = it.call(it.get('weac.' + cn), [], dict(layers=LAYERS), None)
                ck.obl(rule, tag, D.equal(it, dict(a.attrs), dict(b.attrs)), f"{str(a.attrs.get('slab'))[:200]}", where=cn)
    # with everything else given
    for cn, more in (('Layered', dict(system='skiers')), ('Layered', dict(touchdown=True)), ('Inverse', dict(system='-vpst')),
                     ('Inverse', dict(parameters=(P('C0'), P('C1'), P('Ew')))), ('Inverse', dict(system='skier', parameters=(P('C0'), P('C1'), P('Ew'))))):
        tag = f"{cn}({', '.join(more)}; layers left out)"
        with ck.guard(rule, tag):
            it = M.interp()
            a = it.call(it.get('weac.' + cn), [], dict(more), None)
            b = it.call(it.get('weac.' + cn), [], dict(more, layers=LAYERS), None)
            if 'parameters' in more:   # what the fitting parameters stand for
                M.call(it, b, 'set_foundation_properties', E=more['parameters'][2])
                M.call(it, b, 'set_beam_properties', LAYERS, C0=more['parameters'][0], C1=more['parameters'][1], update=True)
            ck.obl(rule, tag, D.equal(it, dict(a.attrs), dict(b.attrs)), f"{str(a.attrs.get('slab'))[:200]}", where=cn)
    for give in (NODEFAULT, None, []):
        tag = f"touchdown_distance(layers {'left out' if give is NODEFAULT else give})"
        with ck.guard(rule, tag):
            v, d = touchdown('layers', LAYERS) if give is NODEFAULT else _td_layers(give)
            ck.obl(rule, tag, v, d, where='touchdown_distance')


def _td_layers(give):
    it = M.interp()
    for nm in ('calc_a1', 'calc_a2', 'calc_lC'):
        it.mstubs[nm] = (lambda nm: lambda it_, env, node: snap(it_, nm, env))(nm)
    r = [M.fun(it, 'weac.tools.touchdown_distance', layers=l) for l in (give, LAYERS)]
    return D.equal(it, r[0], r[1]), f'{r}'[:400]


def check(ck):
    it = M.interp()
    fs = functions(it)
    tasks, n = [], 0
    for (key, cn), f in sorted(fs.items(), key=str):
        if cn == 'Inverse' and (key, 'Layered') in fs and fs[(key, 'Layered')].node is f.node:
            continue
        for p, want in TABLE.get(key, {}).items():
            tasks.append((one, key, cn, p, want, 'the documented value'))
            n += 1
        for p, text in sorted(stated(f).items()):
            want = read(text)
            if want is NODEFAULT or isinstance(want, (list, dict)):
                continue
            if isinstance(want, str) and repr(want) not in text and want not in D.doc_options(f).get(p, ()):
                continue                    # prose
            if p in D.params(f)[1]:
                tasks.append((one, key, cn, p, want, 'the value the docstring states'))
    for key in TABLE:
        if not any(k == key for k, _ in fs):
            ck.obl('documented interface present', key, None, 'not found (interface: C19)')
    if n < 60:
        raise Broken('public interface not found')
    for cn in ('Layered', 'Inverse'):
        tasks.append((constants, cn))
        for give in ((), ('layers',), ('system',), ('system', 'layers')):
            tasks.append((built, cn, give))
    tasks.append((layers_omitted,))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C31', RULE, check, minimum=150)
