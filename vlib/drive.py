"""Drives every public method of a model with symbolic arguments and documented options."""
import ast
import re

import numpy as np
import sympy as sp

from . import model as M
from .interp import Func, Obj, Bound, Partial, ClassVal, Gate, ExtObj, Cond, TOP, NAN, UNB, AbsRaise
from .model import S, P, R
from .npmodel import deepcopy
from .prove import is_zero, rnd, cond_value, cond_terms, allgates

PHI = R('phi')


def ceil2(it):
    """Point counts: a small concrete instance (two intervals)."""
    def two(v):
        if isinstance(v, Gate):
            a, b = two(v.a), two(v.b)
            return a if getattr(a, 'shape', 0) == getattr(b, 'shape', 0) else Gate(v.cond, a, b)
        if isinstance(v, (list, tuple)):
            v = np.array(v, dtype=object)
        if isinstance(v, np.ndarray):
            return np.full(v.shape, 2, dtype=object)
        return TOP if v is TOP else 2

    def ceil(it_, args, kwargs, node):
        return two(args[0])
    it.ext['numpy.ceil'] = ceil
    it.ext['math.ceil'] = ceil


def boolarr(ks):
    return np.array(list(ks), dtype=object)


def lens(n, name='l'):
    return [P(f'{name}{i}') for i in range(n)]


def consts(n, name='C'):
    return np.array([[R(f'{name}{i}_{j}') for j in range(n)] for i in range(6)], dtype=object)


def ready(it, system='pst-', mode='A', n=2, touchdown=None, cls='weac.layered.Layered', abstract=True):
    """Constructed model with laid-out segments (attributes of the layout as symbols)."""
    m = M.model(it, system=system if system in M.SYS else 'pst-', n=n, touchdown=bool(touchdown if touchdown is not None else mode != 'A'),
                cls=cls, abstract=abstract)
    m.attrs.update(system=system, mode=mode, tc=S.tc, a=S.td + P('rest') if mode == 'C' else S.a, td=S.td, L=S.L, phi=R('phim'), ratio=S.ratio)
    if abstract:
        m.attrs['slab'] = M.slabmat(n)
        if isinstance(m.cls.find('calc_eigensystem')[1], Func):
            M.call(it, m, 'calc_eigensystem')
    return m


SEG = {'pst-': (True, False), '-pst': (False, True), 'vpst-': (True, False), '-vpst': (False, True),
       'skier': (True, False, False, True), 'skiers': (True, False, True), 'rot': (True, True), 'trans': (True, True)}


def public(cls):
    """name -> Func of all public methods along the class's mro."""
    out = {}
    for c in reversed(cls.mro()):
        for k, v in c.env.items():
            if isinstance(v, Func) and not k.startswith('_'):
                out[k] = v
            elif k in out and not isinstance(v, Func):
                out.pop(k)
    return out


def params(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip([k for k in a.kwonlyargs], a.kw_defaults) if v is not None})
    names = pos + [x.arg for x in a.kwonlyargs]
    if names and f.owner is not None:
        names = names[1:]
    return names, d, bool(a.kwarg), bool(a.vararg)


def doc_options(f):
    """parameter -> option strings listed in the docstring as name : {'a', 'b'}."""
    doc = ast.get_docstring(f.node) or ''
    out = {}
    for mt in re.finditer(r'^\s*(\w+)\s*:\s*\{([^}]*)\}', doc, re.M):
        out[mt.group(1)] = [t.strip().strip('\'"') for t in mt.group(2).split(',') if t.strip()]
    return out


def returns_doc(f):
    """The Returns section of the docstring."""
    doc = ast.get_docstring(f.node) or ''
    return doc.partition('Returns')[2]


class Skip(Exception):
    pass


def arguments(it, m, name, f, system='pst-', ki=None, opts=None, cols=3, tag=''):
    """Keyword arguments for one call; names decide the meaning."""
    ki = list(ki if ki is not None else SEG[system])
    n = len(ki)
    opts = dict(opts or {})
    names, dflt, haskw, _ = params(f)
    a = {}
    Z = lambda c=cols: M.Zvec(c, 'Z' + tag)
    for p in names:
        if p in opts:
            a[p] = opts[p]
            continue
        if p in ('Z', 'Ztip'):
            a[p] = Z()
        elif p in ('zl', 'zr'):
            a[p] = M.Zvec(1, p + tag)
        elif p == 'z':
            a[p] = Z(1) if name == 'bc' else Z()
        elif p == 'zb':
            a[p] = Z()
        elif p == 'z0' and name not in ('int1', 'int2'):
            a[p] = R('z0' + tag)
        elif p in ('z0', 'z1'):
            C = consts(1, 'C' if p == 'z0' else 'D')
            a[p] = Partial(it.getattr(m, 'z'), [], dict(C=C, l=S.l, phi=PHI, bed=p == 'z0'))
        elif p == 'x' and name.startswith('get_'):
            a[p] = np.array([R('x0' + tag), NAN, R('x2' + tag)], dtype=object)
        elif p == 'x':
            a[p] = R('x' + tag)
        elif p in ('l',):
            a[p] = S.l
        elif p == 'C':
            a[p] = consts(1 if name == 'z' else n, 'C' + tag)
        elif p in ('C0', 'C1') and name == 'ginc':
            a[p] = consts(n, p + tag)
        elif p == 'phi':
            a[p] = R('phi' + tag)
        elif p == 'li':
            a[p] = M.arr(lens(n, 'l' + tag))
        elif p == 'mi':
            a[p] = M.arr([P(f'm{tag}{i}') for i in range(n - 1)])
        elif p == 'ki':
            a[p] = boolarr(ki)
        elif p == 'k0':
            a[p] = boolarr([True] * n)
        elif p in ('L', 'a', 'm', 'cf', 'ratio', 't', 'E', 'dz', 'sc', 'p'):
            if p in dflt and p in ('t', 'E', 'dz', 'sc'):
                continue
            a[p] = P(p + '_' + tag) if name not in ('calc_segments', 'calc_touchdown_system', 'set_touchdown_attributes') \
                else P(dict(L='L', a='a').get(p, p + '_') + tag)
        elif p == 'bed' or p == 'k':
            if p not in dflt:
                a[p] = True
        elif p == 'layers':
            a[p] = M.layers(2)
        elif p in dflt:
            continue
        else:
            raise Skip(f'{name}: no argument for parameter {p}')
    if haskw and name in ('external_potential', 'internal_potential', 'total_potential'):
        a['li'], a['mi'], a['ki'] = M.arr(lens(n, 'l' + tag)), M.arr([0] * (n - 1)), boolarr(ki)
    for p, v in opts.items():
        a.setdefault(p, v)
    return a


BOOLS = {'removeNaNs': (False, True), 'normalize': (False, True), 'bed': (True, False), 'k': (False, True), 'update': (False, True)}


def option_sets(f, extra=None):
    """Every documented option once, the others at their default."""
    names, dflt, _, _ = params(f)
    out = [{}]
    doc = doc_options(f)
    for p in names:
        for v in doc.get(p, []):
            out.append({p: v})
        for v in BOOLS.get(p, ()) if p in dflt else ():
            out.append({p: v})
        for v in (extra or {}).get(p, ()):
            if {p: v} not in out:
                out.append({p: v})
    return out


def copy(v):
    return deepcopy(None, v, {})


def equal(it, a, b, depth=0):
    """True / False / None: the two abstract values are the same for every input."""
    if a is b:
        return True
    if depth > 12:
        return None
    if a is TOP or b is TOP:
        return None
    if a is NAN or b is NAN:
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            if isinstance(a, Gate) or isinstance(b, Gate):
                return None
            return False
        if a.shape != b.shape:
            return False
        return conj(equal(it, x, y, depth + 1) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return conj(equal(it, x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(map(str, a)) != set(map(str, b)):
            return False
        return conj(equal(it, a[k], b[k], depth + 1) for k in a)
    if isinstance(a, Gate) or isinstance(b, Gate):
        if it.same(a, b):
            return True
        if isinstance(a, Gate) and isinstance(b, Gate) and a.cond == b.cond:
            r = conj([equal(it, a.a, b.a, depth + 1), equal(it, a.b, b.b, depth + 1)])
            if r is True:
                return True
        return sampled(it, a, b)
    if isinstance(a, Cond) or isinstance(b, Cond):
        return True if a == b else None
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls and a.cls.name != b.cls.name:
            return False
        return equal(it, a.attrs, b.attrs, depth + 1)
    if isinstance(a, ExtObj) and isinstance(b, ExtObj):
        return True if a.origin == b.origin else None
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node or None
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func.node is b.func.node or None
    if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
        if type(a) is type(b):
            return a == b
        return False
    num = (int, float, sp.Basic, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        isb = lambda v: isinstance(v, (bool, np.bool_))
        if isb(a) or isb(b):
            try:
                return bool(a == b)
            except TypeError:
                return False
        if sp.sympify(a) == sp.sympify(b):
            return True
        return is_zero(sp.sympify(a) - sp.sympify(b), it.dom, opaque=True)
    try:
        if it.same(a, b):
            return True
    except Exception:
        pass
    return None


def conj(vs):
    r = True
    for v in vs:
        if v is False:
            return False
        if v is None:
            r = None
    return r


PLOTS = {  # function -> arguments
    'slab_profile': lambda c: dict(instance=c.m),
    'plot_data': lambda c: dict(name='custom', ax1data=[[c.x, c.s, 'one'], [c.x, c.x, '']], ax1label='left', ax2data=[[c.x, c.s, 'two']],
                                ax2label='right', **c.seg),
    'displacements': lambda c: dict(instance=c.m, x=c.x, z=c.z, **c.seg),
    'section_forces': lambda c: dict(instance=c.m, x=c.x, z=c.z, **c.seg),
    'stresses': lambda c: dict(instance=c.m, x=c.xb, z=c.z, **c.seg),
    'stress_criteria': lambda c: dict(x=c.x, stress=c.s, **c.seg),
    'err_comp': lambda c: dict(da=c.x, Gdif=c.G, Ginc=c.H),
    'err_modes': lambda c: dict(da=c.x, G=c.G),
    'fea_disp': lambda c: dict(instance=c.m, x=c.x, z=c.z, fea=c.fea),
    'fea_stress': lambda c: dict(instance=c.m, xb=c.x, zb=c.z, fea=c.fea),
    'deformed': lambda c: dict(instance=c.m, xsl=c.x, xwl=c.xb, z=c.z, phi=PHI),
}


class PlotCase:
    def __init__(self, it, system, N=80):
        n = len(SEG[system])
        self.m = ready(it, system, n=1)
        self.x = np.array([P(f'x{i}') for i in range(N)], dtype=object)
        self.xb = self.x.copy()
        self.xb[N // 2:N // 2 + 2] = NAN
        self.z = M.Zvec(N)
        self.s = np.array([R(f's{i}') for i in range(N)], dtype=object)
        self.G = np.array([[P(f'G{i}_{j}') for j in range(N)] for i in range(3)], dtype=object)
        self.H = np.array([[P(f'H{i}_{j}') for j in range(N)] for i in range(3)], dtype=object)
        self.fea = np.array([[R(f'f{i}_{j}') for j in range(6)] for i in range(N)], dtype=object)
        self.seg = dict(li=M.arr(lens(n)), mi=M.arr([P(f'm{i}') for i in range(n - 1)]), ki=boolarr(SEG[system]))


PLOT_OPTS = {'deformed': [{}, dict(field='u'), dict(field='w'), dict(field='Sxx'), dict(field='Txz'), dict(field='Szz'),
                          dict(field='principal'), dict(normalize=False), dict(dark=True)],
             'err_comp': [{}, dict(mode=1)], 'err_modes': [{}, dict(kind='dif')]}


def stub_stress(it):
    """Slab stresses as fresh symbols of the right shape (their own properties are C16, C09)."""
    def slab(tag):
        def f(it_, env, node):
            Z = env['Z']
            if not isinstance(Z, np.ndarray):
                return NotImplemented
            n = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
            return np.array([[R(f'{tag}{i}_{j}') for j in range(Z.shape[1])] for i in range(n)], dtype=object)
        return f
    for k in ('Sxx', 'Txz', 'Szz', 'principal_stress_slab'):
        it.mstubs[k] = slab(k)
    it.mstubs['principal_stress_weaklayer'] = lambda it_, env, node: np.array(
        [R(f'pw{j}') for j in range(env['Z'].shape[1])], dtype=object)


def gate_conds(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Gate):
            if x.cond not in out:
                out.append(x.cond)
            todo += [x.a, x.b]
    return out


def sampled(it, a, b, tries=60):
    """Gated values that differ at points where all conditions are evaluable -> False, else None."""
    import random
    dom = it.dom
    cs = gate_conds(a) + [c for c in gate_conds(b) if c not in gate_conds(a)]
    syms = set()
    for c in cs:
        for t in cond_terms(c):
            t = sp.sympify(t)
            syms |= t.free_symbols
            for g in allgates(t, dom):
                for u in cond_terms(dom.conds[g]):
                    syms |= u.free_symbols
    rng = random.Random(3)
    bad = same = 0
    for _ in range(tries):
        sub = {s: rnd(s, rng) for s in sorted(syms, key=str) if s not in dom.conds}
        fr = {'rng': rng}

        def pick(v):
            while isinstance(v, Gate):
                c = cond_value(dom, v.cond, sub, fr)
                if c is None:
                    return TOP
                v = v.a if c else v.b
            return v
        x, y = pick(a), pick(b)
        if x is TOP or y is TOP:
            return None
        if x is UNB or y is UNB:
            continue
        v = equal(it, x, y, 3)
        if v is False:
            bad += 1
        elif v is True:
            same += 1
        else:
            return None
        if bad >= 2:
            return False
    return True if same > 20 and not bad else None
