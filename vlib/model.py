"""Symbolic models of the package's public classes."""
import numpy as np
import sympy as sp

from .interp import Interp, Obj, Bound, Func, ClassVal, AbsRaise, TOP
from .dom_alg import AlgDom
from .harness import Broken

# attributes the package documents / initialises; any further instance attribute
# means derived state the overrides below would not reach -> slab mode
BASE = set("""g lski tol system weak t kn kt p slab k h zs phi A11 B11 D11 kA55 K0 ewC ewR evC evR sC sR touchdown a tc
ratio betaU betaC mode td L""".split())

SYS = ['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']


def P(n):
    return sp.Symbol(n, positive=True)


def R(n):
    return sp.Symbol(n, real=True)


class S:
    A11, D11, kA55, h, t, kn, kt, g, tc, a, td, L, kR, ratio = (P(n) for n in
        'A11 D11 kA55 h t kn kt g tc a td L kR ratio'.split())
    B11, zs, phi, x, p, m = (R(n) for n in 'B11 zs phi x p m'.split())
    l = P('l')


def layers(n, E=True):
    """n symbolic layers: density and thickness."""
    return [[P(f'rho{i}'), P(f'h{i}')] for i in range(n)]


def arr(x):
    a = np.array(x, dtype=object)
    return a


def new(it, cls='weac.layered.Layered', **kw):
    return it.call(it.get(cls), [], kw, None)


def slabmat(n):
    a = np.empty((n, 5), dtype=object)
    for i in range(n):
        a[i] = [P(f'rho{i}'), P(f'h{i}'), P(f'E{i}'), P(f'G{i}'), sp.Symbol(f'nu{i}', positive=True)]
    return a


def model(it, system='pst-', n=2, touchdown=False, abstract=True, cls='weac.layered.Layered'):
    """Instance with symbolic layers; section stiffnesses become symbols."""
    kw = dict(system=system, layers=layers(n))
    if 'layered' in cls:
        kw['touchdown'] = touchdown
    m = new(it, cls, **kw)
    m.attrs['g'] = S.g
    m.attrs['p'] = S.p
    extra = set(m.attrs) - BASE
    if abstract and not extra:
        for k in ('A11', 'B11', 'D11', 'kA55', 'h', 'zs', 't', 'kn', 'kt'):
            if k not in m.attrs:
                raise Broken(f'attribute {k} not found')
            m.attrs[k] = getattr(S, k)
        m.attrs['K0'] = S.B11**2 - S.A11 * S.D11
        m.attrs['weak'] = {'nu': P('nuw'), 'E': P('Ew')}
    elif abstract:
        # unknown derived state: set slab and foundation by their setters only
        it.dom.slabmode = True
        m.attrs['slab'] = slabmat(n)
        m.attrs['t'] = S.t
        m.attrs['weak'] = {'nu': P('nuw'), 'E': P('Ew')}
        call(it, m, 'calc_fundamental_system')
    return m


def call(it, m, name, /, *args, **kw):
    try:
        f = it.getattr(m, name)
    except AbsRaise as e:
        if e.exc == 'AttributeError':
            raise Broken(f'anchor method {name} not found on {m.cls.name}')
        raise
    return it.call(f, list(args), kw, None)


def fun(it, dotted, /, *args, **kw):
    return it.call(it.get(dotted), list(args), kw, None)


def interp(eig_real=1, eig_order=0):
    d = AlgDom()
    d.eig_real_pairs = eig_real
    d.eig_order = eig_order
    return Interp(d)


def Zvec(cols=1, name='Z'):
    """Generic solution vector(s) (6 x cols)."""
    a = np.empty((6, cols), dtype=object)
    for i, n in enumerate(('u', 'du', 'w', 'dw', 'psi', 'dpsi')):
        for j in range(cols):
            a[i, j] = R(f'{name}{n}{j}')
    return a


def load_stubs(it, q=('qn', 'qt'), p=('pn', 'pt')):
    """Weight and surface loads as symbols (their own properties are C07, C02); another inclination has other loads."""
    def at(names):
        def f(it_, env, node):
            a = [v for k, v in env.items() if k != 'self']
            tail = '' if len(a) != 1 or a[0] == R('phi') else f'[{a[0]}]'
            return tuple(R(n + tail) for n in names)
        return f
    it.mstubs['get_weight_load'] = at(q)
    it.mstubs['get_surface_load'] = at(p)


def snapshot(m):
    """Structural copy of an object's heap for before/after comparison."""
    from .npmodel import deepcopy
    return {k: deepcopy(None, v, {}) for k, v in m.attrs.items()}


def flat(v):
    if isinstance(v, np.ndarray):
        return v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in flat(e)]
    return [v]
