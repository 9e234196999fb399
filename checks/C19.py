"""C19: every public model class offers a complete, usable interface."""
import ast
import glob
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm, names
from vlib.interp import AbsRaise, Func, ClassVal, TOP, Gate
from vlib.model import S, R, P
from vlib.harness import main, Broken, REPO

RULE = ('Name resolution and signature compatibility over the class hierarchy (every attribute and method any method of a model class or plot '
        'function uses on the model must exist on that class, every call must bind), and abstract interpretation of construction with '
        'default arguments, layout and every public method: no path may end in a missing name, attribute or incompatible call.')
INTERNAL = ('AttributeError', 'TypeError', 'NameError', 'UnboundLocalError', 'NotImplementedError', 'ImportError', 'ModuleNotFoundError')
# documented user interface: name -> parameters in order ('=' optional)
API = {
    'Gi': 'Ztip unit=', 'Gii': 'Ztip unit=', 'M': 'Z', 'N': 'Z', 'V': 'Z', 'Sxx': 'Z phi dz= unit=', 'Szz': 'Z phi dz= unit=',
    'Txz': 'Z phi dz= unit=', 'assemble_and_solve': 'phi li mi ki', 'calc_fundamental_system': '',
    'calc_segments': 'li= mi= ki= k0= L= a= m= phi= cf= ratio=', 'dpsi_dx': 'Z', 'du_dx': 'Z z0', 'dw_dx': 'Z', 'dz_dx': 'z phi',
    'dz_dxdx': 'z phi', 'eps': 'Z', 'external_potential': 'C phi L', 'gamma': 'Z', 'gdif': 'C phi li ki unit=',
    'get_slab_deflection': 'x z unit=', 'get_slab_displacement': 'x z loc= unit=', 'get_slab_rotation': 'x z unit=',
    'get_weaklayer_normalstress': 'x z unit= removeNaNs=', 'get_weaklayer_shearstress': 'x z unit= removeNaNs=', 'get_zmesh': 'dz=',
    'ginc': 'C0 C1 phi li ki k0', 'internal_potential': 'C phi L', 'principal_stress_slab': 'Z phi dz= unit= val= normalize=',
    'principal_stress_weaklayer': 'Z sc= unit= val= normalize=', 'psi': 'Z unit=', 'rasterize_solution': 'C phi li ki num=',
    'set_beam_properties': 'layers C0= C1= nu= update=', 'set_foundation_properties': 't= E= nu= update=', 'set_surface_load': 'p',
    'sig': 'Z unit=', 'tau': 'Z unit=', 'total_potential': 'C phi L', 'u': 'Z z0 unit=', 'w': 'Z unit=', 'z': 'x C l phi bed='}
CTOR = {'Layered': 'system= layers= touchdown=', 'Inverse': 'system= layers= parameters='}
SYSTEMS = ['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']


def classes(it):
    """Model classes the package exports."""
    out = {}
    for n in ('Layered', 'Inverse'):
        try:
            c = it.get('weac.' + n)
        except LookupError:
            c = None
        if isinstance(c, ClassVal):
            out[n] = c
    mod = it.load('weac')
    for k, v in mod.env.items():
        if isinstance(v, ClassVal) and not k.startswith('_') and v.find('calc_segments')[1] is not None:
            out.setdefault(k, v)
    return out


def methods(cls):
    """All functions along the mro that are not overridden, with their owner."""
    out = {}
    for c in cls.mro():
        for k, v in c.env.items():
            out.setdefault(k, (c, v))
    return out


def self_name(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    deco = {getattr(d, 'id', getattr(d, 'attr', '')) for d in f.node.decorator_list}
    if not pos or deco & {'staticmethod', 'classmethod'}:
        return None
    return pos[0].arg


def attribute_names(cls):
    """Names bound on instances or classes anywhere in the hierarchy; None if they cannot be enumerated."""
    names, dynamic = set(), False
    for c in cls.mro():
        names |= set(c.env)
        for k, v in c.env.items():
            if k in ('__getattr__', '__getattribute__'):
                dynamic = True
            if not isinstance(v, Func):
                continue
            for n in ast.walk(v.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    names.add(n.attr)
                if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('setattr', 'vars'):
                    dynamic = True
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    dynamic = True
    return names, dynamic


def binds(f, call, bound=True):
    """Does the call expression bind to the signature? None if it cannot be told."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos > len(pos) and not a.vararg:
        return False, 'too many positional arguments'
    kwonly = [x.arg for x in a.kwonlyargs]
    kws = [k.arg for k in call.keywords if k.arg is not None]
    for k in kws:
        if k not in pos + kwonly and not a.kwarg:
            return False, f'unexpected argument {k}'
        if k in pos[:npos]:
            return False, f'argument {k} given twice'
    if star:
        return True, ''
    req = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    req = req + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    missing = [r for i, r in enumerate(req) if not (r in pos and pos.index(r) < npos) and r not in kws]
    return (False, f'missing {missing}') if missing else (True, '')


def resolution(ck, cn, cls):
    """Every name used on the model exists and every call on it binds."""
    names, dynamic = attribute_names(cls)
    builtin = set(dir(object))
    for k, (owner, f) in sorted(methods(cls).items()):
        if not isinstance(f, Func):
            continue
        s = self_name(f)
        if s is None:
            continue
        uses(ck, cn, cls, f.node, s, names | builtin, dynamic, f'{owner.name}.{k}')


def uses(ck, cn, cls, node, s, names, dynamic, where):
    rebound = any(isinstance(n, ast.Name) and n.id == s and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(node))
    guarded = {n.args[1].value for n in ast.walk(node) if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'hasattr'
               and len(n.args) == 2 and isinstance(n.args[1], ast.Constant)}
    tries = any(isinstance(n, ast.Try) for n in ast.walk(node))
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s and isinstance(n.ctx, ast.Load):
            ok = n.attr in names or n.attr in guarded
            ck.obl('every attribute used on the model exists', f'{cn}: {where} uses {n.attr}',
                   True if ok else None if dynamic or rebound or tries else False, f'no class of {cn} defines or assigns {n.attr}', where=where)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == s:
            _, g = cls.find(n.func.attr)
            if isinstance(g, Func) and not g.node.decorator_list:
                ok, why = binds(g, n)
                ck.obl('every call on the model binds to the signature', f'{cn}: {where} calls {n.func.attr}',
                       None if not ok and rebound else ok, why, where=where)


def build(it, cn, system, touchdown, layers=None):
    kw = dict(system=system)
    if touchdown:
        kw['touchdown'] = True
    if layers is not None:
        kw['layers'] = layers
    return it.call(it.get('weac.' + cn), [], kw, None)


def layout(it, m, system):
    kw = dict(L=S.a + P('lb'), a=S.a, m=P('ms'), phi=R('phi'))
    if system == 'skiers':
        kw = dict(li=list(D.lens(3)), mi=[P('m0'), P('m1')], ki=[True, False, True], k0=[True] * 3, phi=R('phi'), L=S.a + P('lb'), a=S.a)
    return M.call(it, m, 'calc_segments', **kw)


def verdict(ck, rule, tag, it, run, where=''):
    """Run and report internal errors on any path."""
    may0, ev0 = len(it.may_raises), len(it.events)
    try:
        r = run()
    except AbsRaise as e:
        bad = e.exc in INTERNAL
        ck.obl(rule, tag, False if bad else None, f'raises {e.exc}{e.eargs!r}', where=e.where or where)
        return None
    for x in it.may_raises[may0:]:
        if x['exc'] in INTERNAL:
            ck.obl(rule, tag, None if 'fresh' in str(getattr(x['cond'], 'key', '')) else False, f"{x['exc']} on a path", where=x['where'])
            return r
    un = [e for e in it.events[ev0:] if e['kind'] == 'maybe_unbound']
    ck.obl(rule, tag, None if un else True, un[:1], where=where)
    return r


def prep(it):
    D.ceil2(it)
    it.mstubs['substitute_stiffness'] = lambda it_, env, node: P('K[' + ';'.join(
        asm.nm(env.get(k)) if not isinstance(env.get(k), str) else env[k] for k in ('L', 'support', 'dof')) + ']')


def construct(ck, cn, system, touchdown, layers, tag):
    rule = 'construction and layout with default arguments'
    it = M.interp()
    prep(it)
    with ck.guard(rule, tag):
        m = verdict(ck, rule, tag + ': constructor', it, lambda: build(it, cn, system, touchdown, layers))
        if m is None:
            return
        have = set(m.attrs) | set(methods(m.cls))
        seg = verdict(ck, rule, tag + ': calc_segments', it, lambda: layout(it, m, system))
        ck.saw(it)
        if seg is None:
            return
        ck.obl('documented attributes exist after construction', tag,
               all(k in have for k in ('g', 'system', 'weak', 't', 'kn', 'kt', 'p', 'slab', 'h', 'zs', 'A11', 'B11', 'D11', 'kA55')), sorted(have))
        chain(ck, cn, it, m, seg, system, touchdown, tag)


def chain(ck, cn, it, m, seg, system, touchdown, tag):
    """Full workflow from layout to evaluation on the laid-out model."""
    rule = 'full workflow from layout to evaluation'
    phi = R('phi')
    if 'mode' in m.attrs and isinstance(m.attrs['mode'], Gate):
        # one contact stage after the other
        for md in 'ABC':
            it2 = M.interp()
            prep(it2)
            m2 = build(it2, cn, system, touchdown)
            seg2 = layout(it2, m2, system)
            m2.attrs.update(mode=md, td=S.td if md == 'C' else S.a, a=S.a)
            ls = [P('lb'), m2.attrs['td']]
            for k in seg2:
                seg2[k] = dict(seg2[k], li=M.arr(ls if system == 'pst-' else ls[::-1]))
            steps(ck, it2, m2, seg2, rule, f'{tag} stage {md}')
        return
    steps(ck, it, m, seg, rule, tag)


def steps(ck, it, m, seg, rule, tag):
    phi = R('phi')
    do = lambda nm, *a, **k: verdict(ck, rule, f'{tag}: {nm}', it, lambda: M.call(it, m, nm, *a, **k), where=nm)
    with ck.guard(rule, tag):
        C = {}
        for k in ('nocrack', 'crack'):
            C[k] = do('assemble_and_solve', phi=phi, **seg[k])
        n = len(seg['crack']['ki'])
        C1, C0 = D.consts(n, 'C'), D.consts(n, 'D')
        r = do('rasterize_solution', C=C1, phi=phi, num=n * 2, **seg['crack'])
        if not isinstance(r, tuple) or len(r) != 3 or not all(isinstance(v, np.ndarray) for v in r):
            ck.obl(rule, tag + ': raster', None, r)
            return
        x, z, xb = r
        do('ginc', C0=C0, C1=C1, phi=phi, **seg['both'])
        do('gdif', C=C1, phi=phi, **seg['crack'])
        for nm in ('get_slab_deflection', 'get_slab_displacement', 'get_slab_rotation'):
            do(nm, x, z)
        for nm in ('get_weaklayer_shearstress', 'get_weaklayer_normalstress'):
            do(nm, x, z)
            do(nm, x, z, removeNaNs=True)
        for nm in ('w', 'dw_dx', 'psi', 'dpsi_dx', 'N', 'M', 'V', 'sig', 'tau', 'eps', 'gamma', 'Gi', 'Gii', 'principal_stress_weaklayer'):
            do(nm, z)
        do('u', z, 0)
        do('du_dx', z, 0)
        for nm in ('Sxx', 'Txz', 'Szz', 'principal_stress_slab', 'dz_dx', 'dz_dxdx'):
            do(nm, z, phi)
        if m.attrs['system'] in ('pst-', '-pst'):
            for nm in ('external_potential', 'internal_potential', 'total_potential'):
                do(nm, C=C1, phi=phi, L=S.a + P('lb'), **seg['crack'])


def every_method(ck, cn, system, name):
    rule = 'public methods run on a constructed and laid-out model'
    it0 = M.interp()
    f = D.public(classes(it0)[cn])[name]
    for opts in D.option_sets(f):
        tag = f"{cn}({system}).{name}({', '.join(f'{k}={v}' for k, v in opts.items())})"
        with ck.guard(rule, tag):
            it = M.interp()
            D.ceil2(it)
            m = build(it, cn, system, False)
            layout(it, m, system)
            g = it.getattr(m, name)
            try:
                kw = D.arguments(it, m, name, f, system, opts=opts)
            except D.Skip as e:
                ck.notes.append(str(e))
                return
            if name == 'calc_segments':
                kw.update(li=list(D.lens(3)), mi=[P('m0'), P('m1')], ki=[True, False, True], k0=[True] * 3)
            verdict(ck, rule, tag, it, lambda: it.call(g, [], dict(kw), None), where=name)
            ck.saw(it)


def scopes(ck):
    """Every name a function of the package uses is defined in a scope it can see."""
    for f in sorted(glob.glob(os.path.join(REPO, 'weac', '**', '*.py'), recursive=True)):
        rel = os.path.relpath(f, REPO)
        try:
            bad, n, dynamic = names.undefined(f)
        except SyntaxError as e:
            ck.obl('every name used is defined', rel, False, e, where=rel)
            continue
        for q, name in bad:
            ck.obl('every name used is defined', f'{rel}: {q} uses {name}', None if dynamic else False,
                   f'no scope of {rel} defines {name}', where=f'{rel}:{q}')
        ck.obl('every name used is defined', f'{rel}: all other names', True, f'{n} uses resolved', where=rel)


def check(ck):
    it = M.interp()
    scopes(ck)
    cs = classes(it)
    for n in ('Layered', 'Inverse'):
        ck.obl('documented interface present', n, n in cs, 'class not exported')
    tasks = []
    for cn, cls in sorted(cs.items()):
        resolution(ck, cn, cls)
        pub = D.public(cls)
        for k, sig in sorted(API.items()):
            f = pub.get(k)
            if f is None:
                ck.obl('documented interface present', f'{cn}.{k}', False, 'method missing')
                continue
            signature(ck, f'{cn}.{k}', f, sig)
        if cn in CTOR:
            _, f = cls.find('__init__')
            if isinstance(f, Func):
                signature(ck, cn, f, CTOR[cn])
        for system in SYSTEMS:
            for td in (False, True) if cn == 'Layered' else (False,):
                tasks.append((construct, cn, system, td, None, f'{cn}({system}{", touchdown" if td else ""})'))
        for layers in ('soft', [[P('rho0'), P('h0')], [P('rho1'), P('h1')]]) + (([],) if cn == 'Layered' else ()):
            tasks.append((construct, cn, 'pst-', False, layers, f'{cn}(layers={layers})'))
        for name in sorted(pub):
            for system in SYSTEMS if ck.thorough else ('pst-', 'skiers'):
                tasks.append((every_method, cn, system, name))
    # plot functions use the model through their first parameter
    mod = it.load('weac.plot')
    for k, f in sorted(mod.env.items()):
        if isinstance(f, Func) and f.node.args.args and f.node.args.args[0].arg == 'instance':
            for cn, cls in sorted(cs.items()):
                names, dyn = attribute_names(cls)
                uses(ck, cn, cls, f.node, 'instance', names | set(dir(object)), dyn, 'plot.' + k)
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


def signature(ck, tag, f, sig):
    names, dflt, kw, va = D.params(f)
    want = [(p.rstrip('='), p.endswith('=')) for p in sig.split()]
    ok = names[:len(want)] == [p for p, _ in want] or (all(p in names for p, _ in want) and kw and False)
    ck.obl('documented parameters are accepted', tag, ok, f'documented ({sig}), found {names}', where=tag)
    ck.obl('optional parameters stay optional', tag,
           all(p in dflt for p, o in want if o) and all(p in dflt for p in names[len(want):]), f'{sig}: {names}, defaults {sorted(dflt)}', where=tag)


if __name__ == '__main__':
    main('C19', RULE, check, minimum=300, assumptions=['libraries offer the functions the source imports'])
