"""Abstract models of the built-ins, numpy and scipy routines the package uses."""
import itertools

import numpy as np
import sympy as sp

from . import interp as I
from .interp import (TOP, UNB, NAN, Cond, Gate, Obj, ClassVal, Func, Bound, Partial, NatMeth, Ext, ExtObj, ModVal,
                     Builtin, ExcVal, AbsRaise, EXC_PARENTS, Super, exc_isa)

METHODS = set("""sum cumsum min max mean prod any all copy flatten ravel reshape transpose astype tolist item fill dot
squeeze repeat argmax argmin round clip conj conjugate nonzero std var take swapaxes sort argsort diagonal trace view
searchsorted cumprod ptp compress put resize itemset tobytes setflags""".split())


def install(it):
    it.extattr.update({'numpy.pi': it.dom_pi() if hasattr(it, 'dom_pi') else getattr(it.dom, 'PI', None) or _pi(it),
                       'numpy.nan': NAN, 'numpy.NaN': NAN, 'math.nan': NAN, 'numpy.newaxis': None, 'numpy.inf': TOP,
                       'math.inf': TOP, 'math.pi': getattr(it.dom, 'PI', None) or _pi(it)})


def _pi(it):
    import sympy as sp
    return sp.pi


# ------------------------------------------------------------------ helpers
def arr(it, v, node=None):
    """object array of v or None when unknown."""
    if isinstance(v, Gate):
        return None
    a = it.arr(v)
    return a


def oarr(shape, v=0):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


def getdim(it, v):
    if v is None:
        return None
    if isinstance(v, (tuple, list)):
        out = [it.dom.as_int(x) for x in v]
        return None if any(x is None for x in out) else tuple(out)
    if isinstance(v, np.ndarray):
        return getdim(it, v.tolist())
    n = it.dom.as_int(v)
    return None if n is None else (n,)


def unwrap(a):
    """0-d object arrays become scalars, like numpy."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def add(it, a, b):
    return it.binop('+', a, b)


def reduce_(it, a, f, axis, init=None, keepdims=False):
    if axis is None:
        items = a.ravel().tolist()
        if not items:
            if init is None:
                raise AbsRaise('ValueError', ('zero-size array to reduction operation',), it.cur)
            return init
        r = items[0]
        for x in items[1:]:
            r = f(r, x)
        if keepdims:
            return oarr((1,) * a.ndim, r)
        return r
    if isinstance(axis, tuple):
        r = a
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            r = reduce_(it, r, f, ax, init, keepdims)
        return r
    if not -a.ndim <= axis < a.ndim:
        raise AbsRaise('AxisError', (), it.cur)
    m = np.moveaxis(a, axis, 0)
    if m.shape[0] == 0:
        return oarr(m.shape[1:], init)
    out = oarr(m.shape[1:])
    for idx in np.ndindex(*m.shape[1:]):
        r = m[(0,) + idx]
        for k in range(1, m.shape[0]):
            r = f(r, m[(k,) + idx])
        out[idx] = r
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim or keepdims else out[()]


def cum(it, a, f, axis):
    if axis is None:
        a = a.ravel()
        axis = 0
    m = np.moveaxis(a, axis, 0)
    out = oarr(m.shape)
    for idx in np.ndindex(*m.shape[1:]):
        r = None
        for k in range(m.shape[0]):
            x = m[(k,) + idx]
            r = x if k == 0 else f(r, x)
            out[(k,) + idx] = r
    return np.moveaxis(out, 0, axis)


def dot(it, a, b):
    a, b = arr(it, a), arr(it, b)
    if a is None or b is None:
        return TOP
    if a.ndim == 0 or b.ndim == 0:
        return it.binop('*', unwrap(a), unwrap(b))
    x = a if a.ndim > 1 else a[None, :]
    y = b if b.ndim > 1 else b[:, None]
    if x.ndim != 2 or y.ndim != 2:
        return TOP
    if x.shape[1] != y.shape[0]:
        raise AbsRaise('ValueError', ('shapes not aligned',), it.cur)
    out = oarr((x.shape[0], y.shape[1]))
    for i in range(x.shape[0]):
        for j in range(y.shape[1]):
            r = 0
            first = True
            for k in range(x.shape[1]):
                p, q = x[i, k], y[k, j]
                if (type(p) is int and p == 0 and it.dom.is_scalar(q) and q is not NAN) or \
                        (type(q) is int and q == 0 and it.dom.is_scalar(p)):
                    continue
                t = it.binop('*', p, q)
                r = t if first else it.binop('+', r, t)
                first = False
            out[i, j] = r
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        return out[0, :]
    if b.ndim == 1:
        return out[:, 0]
    return out


def sc(it, name, *args):
    return it.elem(lambda *xs: scalar_func(it, name, *xs), *args)


def scalar_func(it, name, *xs):
    for i, x in enumerate(xs):
        if isinstance(x, Gate):
            return it.gmap(lambda y: scalar_func(it, name, *(xs[:i] + (y,) + xs[i + 1:])), x)
        if x is None or isinstance(x, (str, dict)):
            raise AbsRaise('TypeError', (name,), it.cur)
    return it.dom.func(name, *xs)


def minmax(it, name, a, b):
    if a is NAN or b is NAN:
        return NAN
    if a is TOP or b is TOP:
        return it.dom.func(name, a, b)
    c = it.compare('<=' if name == 'min' else '>=', a, b)
    if c is True:
        return a
    if c is False:
        return b
    return it.dom.func(name, a, b)


UFUNC1 = {n: n for n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'arctan', 'arcsin', 'arccos', 'sinh', 'cosh', 'tanh', 'log10',
                         'abs', 'ceil', 'floor', 'rint', 'deg2rad', 'rad2deg', 'sign', 'square', 'reciprocal', 'expm1',
                         'log1p', 'trunc', 'cbrt')}
UFUNC1.update({'absolute': 'abs', 'fabs': 'abs', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'conj': 'conj',
               'conjugate': 'conj', 'fix': 'trunc'})
UFUNC2 = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**',
          'float_power': '**', 'floor_divide': '//', 'mod': '%', 'remainder': '%', 'bitwise_and': '&', 'bitwise_or': '|'}
CMPF = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}

STRUCT = {}
TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def A(names):
    """Bind args to names with defaults."""
    def wrap(args, kwargs, it):
        out = {}
        for n, v in zip([n for n, _ in names], args):
            out[n] = v
        for k, v in kwargs.items():
            out[k] = v
        for n, dflt in names:
            out.setdefault(n, dflt)
        return out
    return wrap


REQ = object()


def bindargs(it, spec, args, kwargs, fname):
    names = []
    for s in spec.split():
        n, _, d = s.partition('=')
        names.append((n, REQ if not _ else eval(d)))
    if len(args) > len(names):
        raise AbsRaise('TypeError', (f'{fname}: too many arguments',), it.cur)
    out = dict(zip([n for n, _ in names], args))
    for k, v in kwargs.items():
        if k not in [n for n, _ in names]:
            raise AbsRaise('TypeError', (f'{fname}: unexpected keyword {k}',), it.cur)
        if k in out:
            raise AbsRaise('TypeError', (f'{fname}: multiple values for {k}',), it.cur)
        out[k] = v
    for n, d in names:
        if n not in out:
            if d is REQ:
                raise AbsRaise('TypeError', (f'{fname}: missing argument {n}',), it.cur)
            out[n] = d
    return [out[n] for n, _ in names]


def np_(spec, *names):
    def d(f):
        def g(it, args, kwargs, node, fname=names[0]):
            return f(it, *bindargs(it, spec, args, kwargs, fname))
        for n in names:
            TABLE['numpy.' + n] = g
        return f
    return d


def isint(it, dtype):
    p = dtype.path if isinstance(dtype, Ext) else dtype.name if isinstance(dtype, Builtin) else dtype
    return isinstance(p, str) and 'int' in p


def isbool(it, dtype):
    p = dtype.path if isinstance(dtype, Ext) else dtype.name if isinstance(dtype, Builtin) else dtype
    return isinstance(p, str) and 'bool' in p


def cast(it, a, dtype):
    if dtype is None:
        return a
    if isint(it, dtype):
        return it.elem(lambda x: toint(it, x), a)
    if isbool(it, dtype):
        return it.elem(lambda x: it.truth(x), a)
    p = dtype.path if isinstance(dtype, Ext) else dtype.name if isinstance(dtype, Builtin) else dtype
    if isinstance(p, str) and 'float' in p:
        return it.elem(lambda x: int(x) if isinstance(x, (bool, np.bool_)) else it.dom.ite(x, 1, 0) if isinstance(x, Cond) else x, a)
    return a


def toint(it, x):
    if isinstance(x, Gate):
        return it.gmap(lambda y: toint(it, y), x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    n = it.dom.as_int(x)
    if n is not None:
        return n
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise AbsRaise('ValueError', ('invalid literal for int',), it.cur)
    if isinstance(x, Cond):
        return it.dom.ite(x, 1, 0)
    return it.dom.func('trunc', x)


def newarr(it, x, dtype=None, copy=True):
    if x is TOP or isinstance(x, (Gate, ExtObj)):
        if isinstance(x, Gate):
            return it.gmap(lambda y: newarr(it, y, dtype, copy), x)
        return TOP
    if isinstance(x, np.ndarray):
        a = x.copy() if copy else x
    else:
        a = it.arr(list(x) if isinstance(x, (set, range)) else x)
        if a is None:
            return TOP
    r = cast(it, a, dtype)
    return r


@np_('object dtype=None copy=True order=None subok=False ndmin=0', 'array')
def _array(it, x, dtype, copy, order, subok, ndmin):
    a = newarr(it, x, dtype, copy is not False)
    if isinstance(a, np.ndarray) and isinstance(ndmin, int) and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


@np_('a dtype=None order=None', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
def _asarray(it, x, dtype, order):
    return newarr(it, x, dtype, False)


@np_('a', 'copy')
def _copy(it, x):
    return newarr(it, x)


def _fill(v):
    def f(it, shape, dtype, order):
        s = getdim(it, shape)
        if s is None:
            it.event('unknown_shape')
            return TOP
        val = v
        if dtype is not None and isbool(it, dtype):
            val = bool(v)
        return oarr(s, val)
    return f


np_('shape dtype=None order=None', 'zeros')(_fill(0))
np_('shape dtype=None order=None', 'ones')(_fill(1))
np_('shape dtype=None order=None', 'empty')(_fill(0))


@np_('shape fill_value dtype=None order=None', 'full')
def _full(it, shape, v, dtype, order):
    s = getdim(it, shape)
    if s is None:
        it.event('unknown_shape')
        return TOP
    if isinstance(v, (list, tuple, np.ndarray)):
        a = it.arr(v)
        return np.broadcast_to(a, s).copy()
    return oarr(s, v)


def _like(v):
    def f(it, a, dtype, shape):
        b = it.arr(a)
        if b is None:
            return TOP
        return oarr(b.shape, v if v is not None else 0)
    return f


np_('a dtype=None shape=None', 'zeros_like')(_like(0))
np_('a dtype=None shape=None', 'ones_like')(_like(1))
np_('a dtype=None shape=None', 'empty_like')(_like(0))


@np_('a fill_value dtype=None', 'full_like')
def _full_like(it, a, v, dtype):
    b = it.arr(a)
    return TOP if b is None else oarr(b.shape, v)


@np_('N M=None k=0 dtype=None', 'eye', 'identity')
def _eye(it, N, M, k, dtype):
    n = it.dom.as_int(N)
    m = it.dom.as_int(M) if M is not None else n
    if n is None or m is None:
        return TOP
    a = oarr((n, m), 0)
    for i in range(n):
        if 0 <= i + k < m:
            a[i, i + k] = 1
    return a


@np_('start stop=None step=None dtype=None', 'arange')
def _arange(it, a, b, s, dtype):
    if b is None:
        a, b = 0, a
    s = 1 if s is None else s
    ai, bi, si = it.dom.as_int(a), it.dom.as_int(b), it.dom.as_int(s)
    if None in (ai, bi, si):
        it.event('unknown_shape')
        return TOP
    return it.arr(list(range(ai, bi, si)))


@np_('start stop num=50 endpoint=True retstep=False dtype=None axis=0', 'linspace')
def _linspace(it, a, b, num, endpoint, retstep, dtype, axis):
    h = it.ext.get('linspace')
    if h:
        r = h(it, a, b, num, endpoint)
        if r is not NotImplemented:
            return r
    n = it.dom.as_int(num)
    ep = it.truth(endpoint)
    if n is None or not isinstance(ep, bool) or a is TOP or b is TOP:
        it.event('unknown_shape')
        return TOP
    den = n - 1 if ep else n
    if den <= 0:
        return it.arr([a] * n)
    st = it.binop('/', it.binop('-', b, a), den)
    xs = [it.binop('+', a, it.binop('*', k, st)) if k else a for k in range(n)]
    if ep:
        xs[-1] = b
    return it.arr(xs)


def _arrs(it, seq):
    if isinstance(seq, np.ndarray):
        return [seq[i] if isinstance(seq[i], np.ndarray) else it.arr(seq[i]) for i in range(seq.shape[0])]
    xs = it.iterate(seq)
    if xs is None:
        return None
    out = [it.arr(x) for x in xs]
    return None if any(x is None for x in out) else out


def _struct(name, spec, fn):
    def f(it, args, kwargs, node, fname=name):
        vals = bindargs(it, spec, args, kwargs, name)
        xs = _arrs(it, vals[0])
        if xs is None:
            if isinstance(vals[0], (list, tuple)) and any(isinstance(x, Gate) for x in vals[0]):
                i, g = next((i, x) for i, x in enumerate(vals[0]) if isinstance(x, Gate))
                return it.gmap(lambda y: f(it, [list(vals[0][:i]) + [y] + list(vals[0][i + 1:])] + vals[1:], {}, node), g)
            return TOP
        try:
            r = fn(xs, *vals[1:])
        except ValueError as e:
            raise AbsRaise('ValueError', (str(e),), it.cur)
        return np.array(r, dtype=object) if r.dtype != object else r
    TABLE['numpy.' + name] = f


_struct('concatenate', 'arrays axis=0', lambda xs, axis: np.concatenate(xs, axis=axis))
_struct('concat', 'arrays axis=0', lambda xs, axis: np.concatenate(xs, axis=axis))
_struct('vstack', 'tup', np.vstack)
_struct('row_stack', 'tup', np.vstack)
_struct('hstack', 'tup', np.hstack)
_struct('dstack', 'tup', np.dstack)
_struct('column_stack', 'tup', np.column_stack)
_struct('stack', 'arrays axis=0', lambda xs, axis: np.stack(xs, axis=axis))
_struct('atleast_1d', 'x', lambda xs: np.concatenate(xs))


def _unary_struct(spec, fn, *names):
    def f(it, a, *rest):
        if isinstance(a, Gate):
            return it.gmap(lambda y: f(it, y, *rest), a)
        b = it.arr(a)
        if b is None:
            return TOP
        rest2 = []
        for r in rest:
            if isinstance(r, (int, tuple, list, type(None))) and not isinstance(r, bool):
                d = getdim(it, r) if isinstance(r, (tuple, list)) else r
                rest2.append(d)
            else:
                k = it.dom.as_int(r)
                if k is None:
                    return TOP
                rest2.append(k)
        try:
            return unwrap(fn(b, *rest2))
        except ValueError as e:
            raise AbsRaise('ValueError', (str(e),), it.cur)
        except IndexError as e:
            raise AbsRaise('IndexError', (str(e),), it.cur)
    np_(spec, *names)(f)


_unary_struct('m', np.flipud, 'flipud')
_unary_struct('m', np.fliplr, 'fliplr')
_unary_struct('m axis=None', lambda a, ax: np.flip(a, ax), 'flip')
_unary_struct('a axes=None', lambda a, ax: np.transpose(a, ax), 'transpose')
_unary_struct('a shape', lambda a, s: np.reshape(a, s), 'reshape')
_unary_struct('a', np.ravel, 'ravel')
_unary_struct('a axis=None', lambda a, ax: np.squeeze(a, ax), 'squeeze')
_unary_struct('a axis', lambda a, ax: np.expand_dims(a, ax), 'expand_dims')
_unary_struct('a shape', lambda a, s: np.broadcast_to(a, s), 'broadcast_to')
_unary_struct('a reps', lambda a, s: np.tile(a, s), 'tile')
_unary_struct('a a1 a2', np.swapaxes, 'swapaxes')
_unary_struct('a shift axis=None', np.roll, 'roll')
_unary_struct('v k=0', np.diag, 'diag')
_unary_struct('a', np.atleast_1d, 'atleast_1d')
_unary_struct('a', np.atleast_2d, 'atleast_2d')


@np_('a repeats axis=None', 'repeat')
def _repeat(it, a, rep, axis):
    b = it.arr(a)
    r = getdim(it, rep if not isinstance(rep, np.ndarray) else rep.tolist())
    if b is None or r is None:
        it.event('unknown_shape')
        return TOP
    return np.repeat(b, r if len(r) > 1 else r[0], axis=axis)


@np_('arr obj values axis=None', 'insert')
def _insert(it, a, obj, v, axis):
    b = it.arr(a)
    k = it.dom.as_int(obj)
    w = it.arr(v)
    if b is None or k is None or w is None:
        return TOP
    return np.insert(b, k, unwrap(w), axis=axis)


@np_('arr obj axis=None', 'delete')
def _delete(it, a, obj, axis):
    b = it.arr(a)
    k = it.idx(obj)
    if b is None or k is None:
        return TOP
    return np.delete(b, k[0], axis=axis)


@np_('arr values axis=None', 'append')
def _append(it, a, v, axis):
    b, w = it.arr(a), it.arr(v)
    if b is None or w is None:
        return TOP
    if axis is None:
        return np.concatenate([b.ravel(), w.ravel()])
    return np.append(b, w, axis=axis)


@np_('condition x=None y=None', 'where')
def _where(it, c, x, y):
    if x is None:
        m = it.arr(c)
        if m is None:
            return TOP
        flags = [it.truth(q) for q in m.ravel()]
        if not all(isinstance(q, (bool, np.bool_)) for q in flags):
            return TOP
        b = np.array([bool(q) for q in flags], dtype=bool).reshape(m.shape)
        return tuple(i.astype(object) for i in np.nonzero(b))
    return it.elem(lambda q, a, b: sel(it, it.truth(q), a, b), c, x, y)


def sel(it, c, a, b):
    return a if c is True else b if c is False else it.ite(c, a, b)


@np_('a', 'flatnonzero')
def _flatnonzero(it, a):
    r = _where(it, np.ravel(it.arr(a)), None, None)
    return r[0] if isinstance(r, tuple) else TOP


@np_('a', 'nonzero')
def _nonzero(it, a):
    return _where(it, a, None, None)


@np_('a', 'argwhere')
def _argwhere(it, a):
    r = _where(it, a, None, None)
    return np.stack(r, axis=-1) if isinstance(r, tuple) else TOP


@np_('a axis=None', 'count_nonzero')
def _cnz(it, a, axis):
    return _red('sum')(it, it.elem(lambda x: it.truth(x), a), axis, None, False)


def _red(kind):
    def f(it, a, axis=None, dtype=None, keepdims=False, *_):
        if isinstance(a, Gate):
            return it.gmap(lambda y: f(it, y, axis, dtype, keepdims), a)
        b = it.arr(a)
        if b is None:
            return TOP
        if isinstance(axis, (list, np.ndarray)):
            axis = tuple(axis)
        if axis is not None and not isinstance(axis, tuple):
            axis = it.dom.as_int(axis)
            if axis is None:
                return TOP
        kd = it.truth(keepdims) is True
        if kind == 'sum':
            b = it.elem(lambda x: int(x) if isinstance(x, (bool, np.bool_)) else x, b)
            return reduce_(it, b, lambda x, y: it.binop('+', x, y), axis, 0, kd)
        if kind == 'nansum':
            b = it.elem(lambda x: 0 if x is NAN else x, b)
            return reduce_(it, b, lambda x, y: it.binop('+', x, y), axis, 0, kd)
        if kind == 'prod':
            return reduce_(it, b, lambda x, y: it.binop('*', x, y), axis, 1, kd)
        if kind in ('max', 'min'):
            return reduce_(it, b, lambda x, y: minmax(it, kind, x, y), axis, None, kd)
        if kind in ('nanmax', 'nanmin'):
            return reduce_(it, b, lambda x, y: y if x is NAN else x if y is NAN else minmax(it, kind[3:], x, y), axis, None, kd)
        if kind == 'any':
            return reduce_(it, it.elem(lambda x: it.truth(x), b), it.c_or, axis, False, kd)
        if kind == 'all':
            return reduce_(it, it.elem(lambda x: it.truth(x), b), it.c_and, axis, True, kd)
        if kind == 'mean':
            n = b.size if axis is None else b.shape[axis]
            if n == 0:
                return NAN
            s = reduce_(it, b, lambda x, y: it.binop('+', x, y), axis, 0, kd)
            return it.binop('/', s, n)
    return f


for _k in ('sum', 'prod', 'max', 'min', 'any', 'all', 'mean', 'nansum', 'nanmax', 'nanmin'):
    np_('a axis=None dtype=None keepdims=False out=None initial=None where=None', _k)(
        (lambda k: lambda it, a, axis, dtype, kd, *r: _red(k)(it, a, axis, dtype, kd))(_k))
TABLE['numpy.amax'] = TABLE['numpy.max']
TABLE['numpy.amin'] = TABLE['numpy.min']
TABLE['numpy.nanmean'] = TABLE['numpy.mean']


@np_('a axis=None weights=None returned=False', 'average')
def _average(it, a, axis, w, ret):
    if w is None:
        return _red('mean')(it, a, axis)
    num = _red('sum')(it, it.binop('*', it.arr(a), it.arr(w)), axis)
    return it.binop('/', num, _red('sum')(it, w, axis))


@np_('a axis=None dtype=None out=None', 'cumsum')
def _cumsum(it, a, axis, dtype, out):
    b = it.arr(a)
    return TOP if b is None else cum(it, b, lambda x, y: it.binop('+', x, y), axis)


@np_('a axis=None dtype=None out=None', 'cumprod')
def _cumprod(it, a, axis, dtype, out):
    b = it.arr(a)
    return TOP if b is None else cum(it, b, lambda x, y: it.binop('*', x, y), axis)


@np_('a n=1 axis=-1', 'diff')
def _diff(it, a, n, axis):
    b = it.arr(a)
    if b is None:
        return TOP
    for _ in range(n):
        m = np.moveaxis(b, axis, 0)
        b = np.moveaxis(it.binop('-', m[1:], m[:-1]), 0, axis)
    return b


@np_('a axis=None keepdims=False', 'argmax')
def _argmax(it, a, axis, kd):
    return _arg(it, a, axis, 'max')


@np_('a axis=None keepdims=False', 'argmin')
def _argmin(it, a, axis, kd):
    return _arg(it, a, axis, 'min')


def _arg(it, a, axis, kind):
    b = it.arr(a)
    if b is None:
        return TOP
    if axis is None:
        items = b.ravel().tolist()
        best = 0
        for i in range(1, len(items)):
            c = it.truth(it.compare('>' if kind == 'max' else '<', items[i], items[best]))
            if c is True:
                best = i
            elif c is not False:
                return TOP
        return best
    m = np.moveaxis(b, axis, -1)
    out = oarr(m.shape[:-1])
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = _arg(it, m[idx], None, kind)
    return out


@np_('a b out=None', 'dot', 'matmul')
def _npdot(it, a, b, out):
    if isinstance(a, Gate):
        return it.gmap(lambda y: dot(it, y, b), a)
    if isinstance(b, Gate):
        return it.gmap(lambda y: dot(it, a, y), b)
    return dot(it, a, b)


@np_('a b', 'inner', 'vdot')
def _inner(it, a, b):
    return dot(it, a, b)


@np_('a b', 'outer')
def _outer(it, a, b):
    x, y = it.arr(a), it.arr(b)
    if x is None or y is None:
        return TOP
    return it.binop('*', x.reshape(-1, 1), y.reshape(1, -1))


@np_('a', 'isnan')
def _isnan(it, a):
    return it.elem(lambda x: isnan1(it, x), a)


def isnan1(it, x):
    if x is NAN:
        return True
    if x is TOP:
        return it.dom.fresh_cond()
    if isinstance(x, Gate):
        return it.gmap(lambda y: isnan1(it, y), x)
    if x is None or isinstance(x, str):
        raise AbsRaise('TypeError', ('isnan',), it.cur)
    return False


@np_('a', 'isfinite')
def _isfinite(it, a):
    return it.elem(lambda x: it.c_not(isnan1(it, x)), a)


@np_('a', 'isinf')
def _isinf(it, a):
    return it.elem(lambda x: it.dom.fresh_cond() if x is TOP else False, a)


@np_('x nan=0.0 copy=True posinf=None neginf=None', 'nan_to_num')
def _n2n(it, x, nan, copy, p, n):
    return it.elem(lambda v: 0 if v is NAN else v, x)


@np_('a b rtol=1e-05 atol=1e-08 equal_nan=False', 'isclose')
def _isclose(it, a, b, *r):
    return it.elem(lambda x, y: it.truth(it.compare('==', x, y)), a, b)


@np_('a b rtol=1e-05 atol=1e-08 equal_nan=False', 'allclose')
def _allclose(it, a, b, *r):
    return _red('all')(it, _isclose(it, a, b))


@np_('a b', 'array_equal')
def _aeq(it, a, b):
    return _red('all')(it, it.elem(lambda x, y: it.truth(it.compare('==', x, y)), a, b))


@np_('a a_min=None a_max=None', 'clip')
def _clip(it, a, lo, hi):
    r = a
    if lo is not None:
        r = it.elem(lambda x, y: minmax(it, 'max', x, y), r, lo)
    if hi is not None:
        r = it.elem(lambda x, y: minmax(it, 'min', x, y), r, hi)
    return r


@np_('a decimals=0', 'round', 'around')
def _round(it, a, d):
    return it.elem(lambda x: it.dom.func('round', x, d) if not isinstance(x, int) else x, a)


@np_('a', 'shape')
def _shape(it, a):
    b = it.arr(a)
    return TOP if b is None else tuple(b.shape)


@np_('a axis=None', 'size')
def _size(it, a, axis):
    b = it.arr(a)
    return TOP if b is None else int(b.size if axis is None else b.shape[axis])


@np_('a', 'ndim')
def _ndim(it, a):
    b = it.arr(a)
    return TOP if b is None else b.ndim


@np_('a', 'real')
def _real(it, a):
    return it.getattr(a, 'real')


@np_('a', 'imag')
def _imag(it, a):
    return it.getattr(a, 'imag')


@np_('a', 'iscomplexobj', 'iscomplex', 'isreal')
def _iscx(it, a):
    return it.dom.fresh_cond()


@np_('a', 'isscalar')
def _isscalar(it, a):
    return it.dom.is_scalar(a)


@np_('a', 'unique')
def _unique(it, a):
    b = it.arr(a)
    if b is None:
        return TOP
    xs = b.ravel().tolist()
    if xs and all(isinstance(x, (int, sp.Basic)) and sp.sympify(x).is_real and sp.sympify(x).is_number for x in xs):
        out = []
        for x in sorted((sp.sympify(x) for x in xs)):
            if not out or sp.simplify(x - out[-1]) != 0:
                out.append(x)
        return it.arr(out)
    if xs and all(x is xs[0] or isinstance(x, sp.Basic) and x == xs[0] for x in xs):
        return it.arr(xs[:1])
    return b.ravel().copy() if not xs else TOP


@np_('a axis=-1', 'sort')
def _sort(it, a, axis):
    b = it.arr(a)
    if b is None:
        return TOP
    s = sort_list(it, b.ravel().tolist()) if b.ndim == 1 else None
    return it.arr(s) if s is not None else oarr(b.shape, TOP)


@np_('a axis=-1', 'argsort')
def _argsort(it, a, axis):
    b = it.arr(a)
    if b is None or b.ndim != 1:
        return TOP
    o = sort_list(it, b.tolist(), order=True)
    return it.arr(o) if o is not None else oarr(b.shape, TOP)


@np_('x xp fp left=None right=None period=None', 'interp')
def _interp(it, x, *r):
    return it.elem(lambda v: TOP, x)


@np_('y x=None dx=1.0 axis=-1', 'trapz', 'trapezoid')
def _trapz(it, y, x, dx, axis):
    r = cumtrapz(it, y, x, dx, axis, None)
    if r is TOP:
        return TOP
    return unwrap(np.moveaxis(r, axis, 0)[-1])


@np_('start stop num=50', 'geomspace', 'logspace')
def _gs(it, *a):
    return TOP


def _einsum(it, args, kwargs, node, fname='einsum'):
    spec, ops = args[0], [it.arr(a) for a in args[1:]]
    if not isinstance(spec, str) or any(a is None for a in ops) or '.' in spec:
        it.event('unmodelled', path='numpy.einsum')
        return TOP
    lhs, _, rhs = spec.replace(' ', '').partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        rhs = ''.join(sorted(c for c in set(lhs) if c != ',' and lhs.count(c) == 1))
    dim = {}
    for sub, a in zip(ins, ops):
        if len(sub) != a.ndim:
            raise AbsRaise('ValueError', ('einsum',), it.cur)
        for c, n in zip(sub, a.shape):
            if dim.setdefault(c, n) != n:
                raise AbsRaise('ValueError', ('einsum',), it.cur)
    inner = [c for c in dim if c not in rhs]
    out = oarr(tuple(dim[c] for c in rhs), 0)
    for idx in np.ndindex(*out.shape):
        acc = None
        for jdx in itertools.product(*(range(dim[c]) for c in inner)):
            env = dict(zip(rhs, idx)) | dict(zip(inner, jdx))
            t = None
            for sub, a in zip(ins, ops):
                v = a[tuple(env[c] for c in sub)]
                t = v if t is None else it.binop('*', t, v)
            acc = t if acc is None else it.binop('+', acc, t)
        out[idx] = 0 if acc is None else acc
    return unwrap(out)


TABLE['numpy.einsum'] = _einsum


def _splitter(fn, ax):
    def f(it, args, kwargs, node, fname='split'):
        a, n, axis = bindargs(it, f'ary indices_or_sections axis={ax}', args, kwargs, fname)
        b = it.arr(a)
        k = it.dom.as_int(n) if not isinstance(n, (list, tuple, np.ndarray)) else \
            getdim(it, n if not isinstance(n, np.ndarray) else n.tolist())
        if b is None or k is None:
            return TOP
        try:
            return list(fn(b, k if isinstance(k, int) else list(k), axis))
        except ValueError as e:
            raise AbsRaise('ValueError', (str(e),), it.cur)
    return f


TABLE['numpy.split'] = _splitter(np.split, 0)
TABLE['numpy.array_split'] = _splitter(np.array_split, 0)
TABLE['numpy.vsplit'] = _splitter(np.split, 0)
TABLE['numpy.hsplit'] = _splitter(lambda b, k, ax: np.split(b, k, 0 if b.ndim == 1 else 1), 0)


@np_('a indices axis=None out=None mode=None', 'take')
def _take(it, a, ind, axis, out, mode):
    b = it.arr(a)
    k = it.idx(ind)
    if b is None or k is None:
        return TOP
    try:
        return unwrap(np.take(b, k[0], axis=axis))
    except IndexError as e:
        raise AbsRaise('IndexError', (str(e),), it.cur)


@np_('a condition axis=None', 'compress')
def _compress(it, c, a, axis):
    b = it.arr(a)
    k = it.idx(c)
    return TOP if b is None or k is None else np.compress(np.asarray(k[0], dtype=bool), b, axis=axis)


@np_('condlist choicelist default=0', 'select')
def _select(it, cs, xs, default):
    cs, xs = it.iterate(cs), it.iterate(xs)
    if cs is None or xs is None:
        return TOP
    r = default
    for c, x in reversed(list(zip(cs, xs))):
        r = _where(it, c, x, r)
    return r


@np_('ary to_end=None to_begin=None', 'ediff1d')
def _ediff1d(it, a, e, b):
    x = it.arr(a)
    if x is None or e is not None or b is not None:
        return TOP
    x = x.ravel()
    return it.binop('-', x[1:], x[:-1])


@np_('iter dtype=None count=-1', 'fromiter')
def _fromiter(it, x, dtype, count):
    xs = it.iterate(x)
    return TOP if xs is None else newarr(it, xs, dtype)


@np_('a offset=0 axis1=0 axis2=1', 'trace')
def _trace(it, a, *r):
    b = it.arr(a)
    if b is None:
        return TOP
    return _red('sum')(it, np.diag(b))


@np_('a b', 'kron')
def _kron(it, a, b):
    x, y = it.arr(a), it.arr(b)
    if x is None or y is None:
        return TOP
    return unwrap(it.binop('*', x[:, None, :, None], y[None, :, None, :]).reshape(x.shape[0] * y.shape[0], -1)) \
        if x.ndim == 2 and y.ndim == 2 else TOP


def _ufunc_method(op):
    def red(it, args, kwargs, node, fname=''):
        a, axis, dtype, out, kd = bindargs(it, 'a axis=0 dtype=None out=None keepdims=False', args, kwargs, fname)
        b = it.arr(a)
        if b is None:
            return TOP
        if op in '+*':
            return _red('sum' if op == '+' else 'prod')(it, b, axis, None, kd)
        return reduce_(it, b, lambda x, y: minmax(it, op, x, y), axis, None, False)

    def accu(it, args, kwargs, node, fname=''):
        b = it.arr(args[0])
        if b is None:
            return TOP
        f = (lambda x, y: it.binop(op, x, y)) if op in '+*' else (lambda x, y: minmax(it, op, x, y))
        return cum(it, b, f, kwargs.get('axis', args[1] if len(args) > 1 else 0))
    return red, accu


for _u, _o in (('add', '+'), ('multiply', '*'), ('maximum', 'max'), ('minimum', 'min')):
    _r, _a = _ufunc_method(_o)
    TABLE[f'numpy.{_u}.reduce'] = _r
    TABLE[f'numpy.{_u}.accumulate'] = _a
for _u, _o in (('subtract', '-'), ('add', '+')):
    TABLE[f'numpy.{_u}.outer'] = (lambda o: lambda it, a, k, n, fname='': it.binop(
        o, it.arr(a[0]).reshape(-1, 1), it.arr(a[1]).reshape(1, -1)))(_o)
TABLE['numpy.multiply.outer'] = lambda it, a, k, n, fname='': _outer(it, *a[:2])


@np_('p x', 'polyval')
def _polyval(it, p, x):
    r = 0
    for c in it.iterate(p) or [TOP]:
        r = it.binop('+', it.binop('*', r, x), c)
    return r


for _n in ('triu', 'tril'):
    def _tri(it, a, k, fn=getattr(np, _n)):
        b = it.arr(a)
        if b is None or b.ndim != 2:
            return TOP
        keep = fn(np.ones(b.shape, dtype=bool), k)
        out = b.copy()
        out[~keep] = 0
        return out
    np_('a k=0', _n)(_tri)
_unary_struct('a source destination', np.moveaxis, 'moveaxis')


def cumtrapz(it, y, x, dx, axis, initial):
    b = it.arr(y)
    if b is None:
        return TOP
    m = np.moveaxis(b, axis, 0)
    if x is not None:
        xx = it.arr(x)
        if xx is None:
            return TOP
        if xx.ndim == 1:
            if xx.shape[0] != m.shape[0]:
                raise AbsRaise('ValueError', ('length of x',), it.cur)
            d = it.binop('-', xx[1:], xx[:-1]).reshape((-1,) + (1,) * (m.ndim - 1))
        else:
            mm = np.moveaxis(xx, axis, 0)
            d = it.binop('-', mm[1:], mm[:-1])
    else:
        d = dx
    seg = it.binop('/', it.binop('*', d, it.binop('+', m[1:], m[:-1])), 2)
    r = cum(it, it.arr(seg), lambda p, q: it.binop('+', p, q), 0) if m.shape[0] > 1 else oarr((0,) + m.shape[1:])
    if initial is not None:
        r = np.concatenate([oarr((1,) + m.shape[1:], initial), r], axis=0)
    return np.moveaxis(r, 0, axis)


def _cumtrapz(it, args, kwargs, node, fname='cumulative_trapezoid'):
    y, x, dx, axis, initial = bindargs(it, 'y x=None dx=1 axis=-1 initial=None', args, kwargs, fname)
    it.event('cumtrapz')
    return cumtrapz(it, y, x, dx, axis, initial)


TABLE['scipy.integrate.cumulative_trapezoid'] = _cumtrapz
TABLE['scipy.integrate.cumtrapz'] = _cumtrapz


def _meshgrid(it, args, kwargs, node, fname=''):
    a, b = (it.arr(x) for x in args[:2])
    if a is None or b is None or len(args) != 2:
        return [TOP for _ in args]
    X, Y = np.meshgrid(a.ravel(), b.ravel(), indexing=kwargs.get('indexing', 'xy'))
    return [X.astype(object), Y.astype(object)]


TABLE['numpy.meshgrid'] = _meshgrid


def _bound_var(it, name):
    """Symbolic integration / root variable (deterministic name per nesting)."""
    d = getattr(it, 'bvdepth', 0)
    return it.dom.bound_var(name, d) if hasattr(it.dom, 'bound_var') else TOP


def _quad(it, args, kwargs, node, fname='quad'):
    vals = bindargs(it, 'func a b args=() full_output=0 epsabs=1.49e-08 epsrel=1.49e-08 limit=50 points=None weight=None '
                        'wvar=None wopts=None maxp1=50 limlst=50 complex_func=False', args, kwargs, fname)
    f, a, b, extra = vals[:4]
    x = _bound_var(it, 'quad_x')
    it.bvdepth = getattr(it, 'bvdepth', 0) + 1
    try:
        y = it.call(f, [x] + list(it.iterate(extra) or []), {}, node)
    finally:
        it.bvdepth -= 1
    y = unwrap(y)
    if isinstance(y, np.ndarray) and y.size == 1:
        y = y.ravel()[0]
    it.event('quad', integrand=y, a=a, b=b, var=x)
    r = it.dom.integral(y, x, a, b) if hasattr(it.dom, 'integral') else TOP
    return (r, TOP)


TABLE['scipy.integrate.quad'] = _quad


def _brentq(it, args, kwargs, node, fname='brentq'):
    vals = bindargs(it, 'f a b args=() xtol=2e-12 rtol=8.9e-16 maxiter=100 full_output=False disp=True', args, kwargs, fname)
    f, a, b, extra, xtol, rtol = vals[:6]
    x = _bound_var(it, 'root_x')
    it.bvdepth = getattr(it, 'bvdepth', 0) + 1
    try:
        y = unwrap(it.call(f, [x] + list(it.iterate(extra) or []), {}, node))
    finally:
        it.bvdepth -= 1
    fr = it.force_raise(fname, node) if it.force_raise else None
    if fr:
        raise AbsRaise(fr, (), node)
    it.event('brentq', f=y, a=a, b=b, var=x, xtol=xtol, rtol=rtol)
    return it.dom.root(y, x, a, b) if hasattr(it.dom, 'root') else TOP


TABLE['scipy.optimize.brentq'] = _brentq
TABLE['scipy.optimize.bisect'] = _brentq
TABLE['scipy.optimize.toms748'] = _brentq
TABLE['scipy.optimize.ridder'] = _brentq


def _eig(it, args, kwargs, node, fname='eig'):
    fr = it.force_raise(fname, node) if it.force_raise else None
    if fr:
        raise AbsRaise(fr, (), node)
    K = it.arr(args[0])
    it.event('eig', K=None if K is None else K.copy())
    return it.dom.eig(K) if hasattr(it.dom, 'eig') else (TOP, TOP)


TABLE['numpy.linalg.eig'] = _eig
TABLE['scipy.linalg.eig'] = _eig


def _solve(it, args, kwargs, node, fname='solve'):
    fr = it.force_raise(fname, node) if it.force_raise else None
    if fr:
        raise AbsRaise(fr, (), node)
    a, b = it.arr(args[0]), it.arr(args[1])
    it.event('solve', A=None if a is None else a.copy(), b=None if b is None else b.copy())
    return it.dom.solve(a, b) if hasattr(it.dom, 'solve') and a is not None and b is not None else TOP


TABLE['numpy.linalg.solve'] = _solve
TABLE['scipy.linalg.solve'] = _solve


def _opaque_linalg(name):
    def f(it, args, kwargs, node, fname=name):
        fr = it.force_raise(fname, node) if it.force_raise else None
        if fr:
            raise AbsRaise(fr, (), node)
        it.event('linalg', name=name)
        return TOP
    return f


for _n in ('inv', 'pinv', 'lstsq', 'det', 'eigvals', 'eigh', 'norm', 'cond', 'qr', 'svd', 'matrix_rank'):
    TABLE['numpy.linalg.' + _n] = _opaque_linalg(_n)


def _partial(it, args, kwargs, node, fname='partial'):
    return Partial(args[0], list(args[1:]), dict(kwargs))


TABLE['functools.partial'] = _partial


def _lru(it, args, kwargs, node, fname=''):
    if args and isinstance(args[0], Func):
        args[0].cached = True
        return args[0]
    return ExtObj('functools.lru_cache')


TABLE['functools.lru_cache'] = _lru
TABLE['functools.cache'] = _lru
TABLE['functools.wraps'] = lambda it, a, k, n, fname='': ExtObj('functools.wraps')


def _identity_dec(it, args, kwargs, node, fname=''):
    return args[0]


TABLE['functools.wraps()'] = _identity_dec
TABLE['functools.lru_cache()'] = _lru


def _reduce_f(it, args, kwargs, node, fname=''):
    xs = it.iterate(args[1])
    if xs is None:
        return TOP
    if len(args) > 2:
        xs = [args[2]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = it.call(args[0], [r, x], {}, node)
    return r


TABLE['functools.reduce'] = _reduce_f


def _namedtuple(it, args, kwargs, node, fname=''):
    name, fields = args[0], args[1]
    fields = fields.replace(',', ' ').split() if isinstance(fields, str) else it.iterate(fields)
    if fields is None or not all(isinstance(k, str) for k in fields):
        return TOP
    ds = list(it.iterate(kwargs.get('defaults')) or []) if kwargs.get('defaults') is not None else []
    return I.NTClass(name, tuple(fields), dict(zip(fields[len(fields) - len(ds):], ds)))


def _namespace(it, args, kwargs, node, fname=''):
    if not hasattr(it, '_nscls'):
        it._nscls = ClassVal('SimpleNamespace', None, None, [], {})
    o = Obj(it._nscls)
    o.attrs.update(kwargs)
    return o


TABLE['collections.namedtuple'] = _namedtuple
TABLE['types.SimpleNamespace'] = _namespace
TABLE['dataclasses.field'] = lambda it, a, k, n, fname='': ExtObj('dataclasses.field', dict(k))
TABLE['dataclasses.dataclass'] = lambda it, a, k, n, fname='': ExtObj('dataclasses.dataclass')
TABLE['types.MappingProxyType'] = lambda it, a, k, n, fname='': a[0]
TABLE['collections.OrderedDict'] = lambda it, a, k, n, fname='': call_builtin(it, 'dict', a, k, n)


def _deepcopy(it, args, kwargs, node, fname=''):
    return deepcopy(it, args[0], {})


def deepcopy(it, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, np.ndarray):
        r = v.copy()
    elif isinstance(v, list):
        r = []
        memo[id(v)] = r
        r.extend(deepcopy(it, x, memo) for x in v)
    elif isinstance(v, tuple):
        r = tuple(deepcopy(it, x, memo) for x in v)
    elif isinstance(v, dict):
        r = {}
        memo[id(v)] = r
        for k, x in v.items():
            r[k] = deepcopy(it, x, memo)
    elif isinstance(v, set):
        r = set(v)
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = r
        for k, x in v.attrs.items():
            r.attrs[k] = deepcopy(it, x, memo)
    else:
        return v
    memo[id(v)] = r
    return r


TABLE['copy.deepcopy'] = _deepcopy


def _shallow(it, args, kwargs, node, fname=''):
    v = args[0]
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, dict, set)):
        return type(v)(v)
    if isinstance(v, Obj):
        r = Obj(v.cls)
        r.attrs.update(v.attrs)
        return r
    return v


TABLE['copy.copy'] = _shallow


def _itertools(name):
    def f(it, args, kwargs, node, fname=name):
        xs = [it.iterate(a) for a in args]
        if any(x is None for x in xs):
            return TOP
        if name == 'chain':
            return list(itertools.chain(*xs))
        if name == 'product':
            return list(itertools.product(*xs))
        if name == 'pairwise':
            return list(zip(xs[0], xs[0][1:]))
        if name == 'accumulate':
            out, r = [], None
            for i, x in enumerate(xs[0]):
                r = x if i == 0 else it.binop('+', r, x)
                out.append(r)
            return out
        if name == 'from_iterable':
            return [y for x in xs[0] for y in (it.iterate(x) or [TOP])]
        if name == 'zip_longest':
            return list(itertools.zip_longest(*xs))
        return TOP
    return f


def _starmap(it, args, kwargs, node, fname=''):
    xs = it.iterate(args[1])
    return TOP if xs is None else [it.call(args[0], list(it.iterate(x) or []), {}, node) for x in xs]


def _accumulate(it, args, kwargs, node, fname=''):
    xs = it.iterate(args[0])
    if xs is None:
        return TOP
    f = args[1] if len(args) > 1 else kwargs.get('func')
    init = kwargs.get('initial')
    out = [] if init is None else [init]
    for x in xs:
        out.append(x if not out else it.binop('+', out[-1], x) if f is None else it.call(f, [out[-1], x], {}, node))
    return out


def _islice(it, args, kwargs, node, fname=''):
    xs = it.iterate(args[0])
    ks = [None if a is None else it.dom.as_int(a) for a in args[1:]]
    if xs is None:
        return TOP
    return list(itertools.islice(xs, *ks))


def _irepeat(it, args, kwargs, node, fname=''):
    n = it.dom.as_int(args[1]) if len(args) > 1 else 64
    return TOP if n is None else [args[0]] * n


def _icount(it, args, kwargs, node, fname=''):
    a = list(args) + [0, 1][len(args):]
    return [it.binop('+', a[0], it.binop('*', i, a[1])) if i else a[0] for i in range(64)]


TABLE['itertools.starmap'] = _starmap
TABLE['itertools.islice'] = _islice
TABLE['itertools.repeat'] = _irepeat
TABLE['itertools.count'] = _icount
for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**'), ('matmul', '@'), ('or_', '|'), ('and_', '&'), ('xor', '^')):
    TABLE['operator.' + _n] = (lambda o: lambda it, a, k, n, fname='': it.binop(o, a[0], a[1]))(_o)
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    TABLE['operator.' + _n] = (lambda o: lambda it, a, k, n, fname='': it.compare(o, a[0], a[1]))(_o)
TABLE['operator.neg'] = lambda it, a, k, n, fname='': it.unop('neg', a[0])
TABLE['operator.itemgetter'] = lambda it, a, k, n, fname='': ExtObj('operator.itemgetter', tuple(a))
TABLE['operator.attrgetter'] = lambda it, a, k, n, fname='': ExtObj('operator.attrgetter', tuple(a))
TABLE['operator.methodcaller'] = lambda it, a, k, n, fname='': ExtObj('operator.methodcaller', (tuple(a), dict(k)))
TABLE['math.prod'] = lambda it, a, k, n, fname='': _reduce_f(it, [lambda_mul(it), a[0], 1], {}, n)
TABLE['math.hypot'] = lambda it, a, k, n, fname='': sc(it, 'hypot', *a[:2])


def lambda_mul(it):
    return Ext('operator.mul')


TABLE['itertools.accumulate'] = _accumulate
for _n in ('chain', 'product', 'pairwise', 'zip_longest'):
    TABLE['itertools.' + _n] = _itertools(_n)
TABLE['itertools.chain.from_iterable'] = _itertools('from_iterable')

for _m, _n in (('math', 'sin'), ('math', 'cos'), ('math', 'tan'), ('math', 'exp'), ('math', 'sqrt'), ('math', 'log'),
               ('math', 'log10'), ('math', 'fabs'), ('math', 'atan'), ('math', 'tanh')):
    TABLE[_m + '.' + _n] = (lambda nm: lambda it, a, k, n, fname='': sc(it, {'fabs': 'abs', 'atan': 'arctan'}.get(nm, nm), *a))(_n)
TABLE['math.radians'] = lambda it, a, k, n, fname='': sc(it, 'deg2rad', a[0])
TABLE['math.degrees'] = lambda it, a, k, n, fname='': sc(it, 'rad2deg', a[0])
TABLE['math.isnan'] = lambda it, a, k, n, fname='': isnan1(it, a[0])
TABLE['math.isclose'] = lambda it, a, k, n, fname='': it.truth(it.compare('==', a[0], a[1]))
TABLE['math.pow'] = lambda it, a, k, n, fname='': it.binop('**', a[0], a[1])


def _intfun(nm):
    def f(it, a, k, n, fname=''):
        r = sc(it, nm, a[0])
        return r
    return f


TABLE['math.ceil'] = _intfun('ceil')
TABLE['math.floor'] = _intfun('floor')
TABLE['math.fsum'] = lambda it, a, k, n, fname='': call_builtin(it, 'sum', a, k, n)

TABLE['numpy.maximum'] = lambda it, a, k, n, fname='': it.elem(lambda x, y: minmax(it, 'max', x, y), *a[:2])
TABLE['numpy.minimum'] = lambda it, a, k, n, fname='': it.elem(lambda x, y: minmax(it, 'min', x, y), *a[:2])
TABLE['numpy.fmax'] = TABLE['numpy.maximum']
TABLE['numpy.fmin'] = TABLE['numpy.minimum']
TABLE['numpy.hypot'] = lambda it, a, k, n, fname='': sc(it, 'hypot', *a[:2])
TABLE['numpy.arctan2'] = lambda it, a, k, n, fname='': sc(it, 'arctan2', *a[:2])
TABLE['numpy.negative'] = lambda it, a, k, n, fname='': it.unop('neg', newarr(it, a[0]) if isinstance(a[0], (list, tuple)) else a[0])
TABLE['numpy.logical_not'] = lambda it, a, k, n, fname='': it.elem(lambda x: it.c_not(it.truth(x)), a[0])
TABLE['numpy.invert'] = lambda it, a, k, n, fname='': it.unop('inv', newarr(it, a[0]))
TABLE['numpy.logical_and'] = lambda it, a, k, n, fname='': it.elem(lambda x, y: it.c_and(it.truth(x), it.truth(y)), *a[:2])
TABLE['numpy.logical_or'] = lambda it, a, k, n, fname='': it.elem(lambda x, y: it.c_or(it.truth(x), it.truth(y)), *a[:2])
TABLE['numpy.logical_xor'] = lambda it, a, k, n, fname='': it.elem(lambda x, y: it.binop('^', it.truth(x), it.truth(y)), *a[:2])
TABLE['numpy.copyto'] = lambda it, a, k, n, fname='': it.setitem(a[0], slice(None), a[1])
TABLE['numpy.errstate'] = lambda it, a, k, n, fname='': ExtObj('numpy.errstate')
TABLE['contextlib.suppress'] = lambda it, a, k, n, fname='': ExtObj('contextlib.suppress', tuple(a))
TABLE['warnings.warn'] = lambda it, a, k, n, fname='': None
for _t in ('float64', 'float32', 'double', 'int32', 'int64', 'intp', 'bool_', 'int_', 'str_'):
    TABLE['numpy.' + _t] = (lambda t: lambda it, a, k, n, fname='': cast(it, a[0] if a else 0, t))(_t)


# --------------------------------------------------------------- dispatch
def call_ext(it, path, args, kwargs, node, obj=None):
    h = it.ext.get(path)
    if h is not None:
        r = h(it, ([obj] if obj is not None else []) + list(args), kwargs, node)
        if r is not NotImplemented:
            return r
    if path.startswith('numpy.') or path.startswith('scipy.'):
        n = path.rpartition('.')[2]
        f = TABLE.get(path)
        if f is not None:
            return f(it, list(args), kwargs, node)
        kw = {k: v for k, v in kwargs.items() if k not in ('out', 'where', 'dtype', 'casting')}
        if path == 'numpy.' + n:
            if n in UFUNC1 and len(args) == 1 and not kw:
                r = sc(it, UFUNC1[n], args[0])
                return _out(it, kwargs, r)
            if n in UFUNC2 and len(args) == 2:
                a = [newarr(it, x, copy=False) if isinstance(x, (list, tuple)) else x for x in args]
                return _out(it, kwargs, it.binop(UFUNC2[n], *a))
            if n in CMPF and len(args) == 2:
                a = [newarr(it, x, copy=False) if isinstance(x, (list, tuple)) else x for x in args]
                return it.compare(CMPF[n], *a)
    else:
        f = TABLE.get(path)
        if f is not None:
            return f(it, list(args), kwargs, node)
    it.event('ext_call', path=path, args=args, kwargs=kwargs)
    fr = it.force_raise(path, node) if it.force_raise else None
    if fr:
        raise AbsRaise(fr, (), node)
    if path.startswith(('numpy.', 'scipy.', 'math.')):
        it.event('unmodelled', path=path)
        return TOP
    return ExtObj(path, tuple(args))


def _out(it, kwargs, r):
    o = kwargs.get('out')
    if isinstance(o, np.ndarray):
        it.setitem(o, slice(None) if o.ndim else (), r)
        return o
    return r


def typematch(it, v, t):
    if isinstance(t, (tuple, list)):
        r = False
        for x in t:
            r = it.c_or(r, typematch(it, v, x))
        return r
    if v is TOP:
        return it.dom.fresh_cond()
    if isinstance(v, Gate):
        return it.gmap(lambda y: typematch(it, y, t), v)
    if isinstance(t, ClassVal):
        return isinstance(v, Obj) and t in v.cls.mro()
    n = t.path if isinstance(t, Ext) else t.name if isinstance(t, Builtin) else str(t)
    n = n.rpartition('.')[2]
    if n in ('ndarray',):
        return isinstance(v, np.ndarray)
    if n == 'bool':
        return isinstance(v, (bool, np.bool_, Cond))
    if n in ('bool_',):
        return isinstance(v, np.bool_)
    py = {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'set': set, 'frozenset': frozenset, 'range': range,
          'slice': slice, 'bytes': bytes}
    if n in py:
        if isinstance(v, ExtObj) and v.origin == 'str' and n == 'str':
            return True
        return isinstance(v, py[n])
    if n in ('Sequence',):
        return isinstance(v, (list, tuple, str, range))
    if n in ('Mapping', 'MutableMapping'):
        return isinstance(v, dict)
    if n in ('Iterable', 'Collection', 'Sized'):
        return isinstance(v, (list, tuple, str, range, dict, set, np.ndarray))
    if n in ('int', 'Integral', 'integer'):
        if isinstance(v, bool):
            return n != 'integer'
        if isinstance(v, int):
            return True
        return it.dom.fresh_cond() if it.dom.is_scalar(v) else False
    if n in ('float', 'Real', 'Number', 'floating', 'number', 'float64', 'generic', 'complex'):
        if v is NAN:
            return True
        if isinstance(v, bool):
            return n in ('Real', 'Number')
        if isinstance(v, int):
            return n in ('Real', 'Number') or it.dom.fresh_cond()
        return True if it.dom.is_scalar(v) else False
    if n == 'object':
        return True
    if n == 'Callable':
        return isinstance(v, (Func, Bound, Partial, Builtin, Ext))
    if n == 'NoneType':
        return v is None
    if n == 'partial':
        return isinstance(v, Partial)
    if isinstance(v, (str, int, list, tuple, dict, np.ndarray, Obj)):
        return False
    return it.dom.fresh_cond()


def sort_list(it, xs, key=None, reverse=False, node=None, order=False):
    want = order
    ks = [it.call(key, [x], {}, node) for x in xs] if key is not None else xs
    try:
        if all(isinstance(k, (int, str, bool)) or (isinstance(k, tuple) and all(isinstance(q, (int, str)) for q in k)) for k in ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
            return order if want else [xs[i] for i in order]
    except TypeError:
        raise AbsRaise('TypeError', ('unorderable',), node)
    order = []
    for i in range(len(xs)):
        pos = len(order)
        for p, j in enumerate(order):
            c = it.truth(it.compare('>' if reverse else '<', ks[i], ks[j]))
            if c is True:
                pos = p
                break
            if c is not False:
                return None
        order.insert(pos, i)
    return order if want else [xs[i] for i in order]


def call_builtin(it, name, args, kwargs, node):
    h = it.ext.get('builtins.' + name)
    if h is not None:
        r = h(it, args, kwargs, node)
        if r is not NotImplemented:
            return r
    if name in EXC_PARENTS or name == 'BaseException':
        return ExcVal(name, tuple(args))
    if '.' in name:
        base, _, m = name.partition('.')
        if base == 'dict' and m == 'fromkeys':
            return {k: (args[1] if len(args) > 1 else None) for k in it.iterate(args[0])}
        if base == 'object':
            return None
        if args:
            return call_method(it, args[0], m, args[1:], kwargs, node)
        return TOP
    a = args[0] if args else None
    if isinstance(a, Gate) and name not in ('print', 'isinstance', 'getattr', 'hasattr', 'setattr', 'dict', 'list', 'zip', 'type', 'id'):
        return it.gmap(lambda y: call_builtin(it, name, [y] + list(args[1:]), kwargs, node), a)
    if name == 'len':
        if isinstance(a, np.ndarray):
            if a.ndim == 0:
                raise AbsRaise('TypeError', ('len() of unsized object',), node)
            return int(a.shape[0])
        if isinstance(a, (list, tuple, dict, set, str, range, frozenset, bytes)):
            return len(a)
        if isinstance(a, Obj):
            _, f = a.cls.find('__len__')
            if isinstance(f, Func):
                return it.call(Bound(f, a), [], {}, node)
        if a is TOP or isinstance(a, ExtObj):
            return TOP
        raise AbsRaise('TypeError', ('object has no len()',), node)
    if name == 'range':
        xs = [it.dom.as_int(x) for x in args]
        if any(x is None for x in xs):
            if any(it.dom.is_scalar(x) and it.dom.as_int(x) is None for x in args):
                it.event('unknown_range')
            return TOP
        return range(*xs)
    if name == 'enumerate':
        xs = it.iterate(a)
        st = kwargs.get('start', args[1] if len(args) > 1 else 0)
        if xs is None:
            return [(TOP, it.dom.element_of(a))]
        return [(it.binop('+', st, i), x) for i, x in enumerate(xs)]
    if name == 'zip':
        xs = [it.iterate(x) for x in args]
        if any(x is None for x in xs):
            return [tuple(it.dom.element_of(x) for x in args)]
        return list(zip(*xs))
    if name == 'sum':
        xs = it.iterate(a)
        if xs is None:
            if a is TOP or isinstance(a, ExtObj):
                return TOP
            raise AbsRaise('TypeError', ('not iterable',), node)
        r = args[1] if len(args) > 1 else kwargs.get('start', 0)
        first = r == 0 if isinstance(r, int) else False
        for x in xs:
            x = int(x) if isinstance(x, (bool, np.bool_)) else x
            r = x if first and not isinstance(x, (list, tuple, Cond)) else it.binop('+', r, x)
            first = False
        return r
    if name in ('any', 'all'):
        xs = it.iterate(a)
        if xs is None:
            if a is TOP or isinstance(a, ExtObj):
                return it.dom.fresh_cond()
            raise AbsRaise('TypeError', ('not iterable',), node)
        r = name == 'all'
        for x in xs:
            r = it.c_or(r, it.truth(x)) if name == 'any' else it.c_and(r, it.truth(x))
        return r
    if name == 'abs':
        return it.elem(lambda x: scalar_func(it, 'abs', x), a) if not isinstance(a, (list, tuple, dict, str)) else \
            _raise('TypeError', node)
    if name in ('min', 'max'):
        xs = it.iterate(a) if len(args) == 1 else list(args)
        if xs is None:
            return TOP
        if not xs:
            if 'default' in kwargs:
                return kwargs['default']
            raise AbsRaise('ValueError', ('empty sequence',), node)
        key = kwargs.get('key')
        if key is not None:
            ks = [it.call(key, [x], {}, node) for x in xs]
            best = 0
            for i in range(1, len(xs)):
                c = it.truth(it.compare('<' if name == 'min' else '>', ks[i], ks[best]))
                if c is True:
                    best = i
                elif c is not False:
                    return TOP
            return xs[best]
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, np.ndarray) or isinstance(x, np.ndarray):
                return TOP
            if isinstance(r, str) or isinstance(x, str):
                r = min(r, x) if name == 'min' else max(r, x)
            elif r is NAN or x is NAN:
                pass  # comparisons with nan are false: the current item stays
            else:
                r = minmax(it, name, r, x)
        return r
    if name == 'int':
        if not args:
            return 0
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(a, (list, dict, tuple)) or a is None:
            raise AbsRaise('TypeError', ('int()',), node)
        return toint(it, a)
    if name == 'float':
        if not args:
            return 0
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(a, str):
            if a.lower() == 'nan':
                return NAN
            if 'inf' in a.lower():
                return TOP
            try:
                return it.dom.literal(float(a), node, it.where(node))
            except ValueError:
                raise AbsRaise('ValueError', ('could not convert string to float',), node)
        if isinstance(a, (bool, np.bool_)):
            return int(a)
        if isinstance(a, Cond):
            return it.dom.ite(a, 1, 0)
        if isinstance(a, (list, dict, tuple, np.ndarray)) or a is None:
            raise AbsRaise('TypeError', ('float()',), node)
        return a
    if name == 'bool':
        return it.truth(a) if args else False
    if name == 'str':
        if isinstance(a, (str, int)) and not isinstance(a, bool):
            return str(a)
        return ExtObj('str') if args else ''
    if name in ('repr', 'format', 'chr', 'hex', 'bin'):
        return ExtObj('str')
    if name in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[name]()
        xs = it.iterate(a)
        if xs is None:
            if isinstance(a, (TOP.__class__, ExtObj, Gate)):
                return TOP
            raise AbsRaise('TypeError', ('not iterable',), node)
        if name in ('set', 'frozenset'):
            return it.mkset(xs)
        return xs if name == 'list' else tuple(xs)
    if name == 'dict':
        d = {}
        if args:
            if isinstance(a, dict):
                d.update(a)
            else:
                xs = it.iterate(a)
                if xs is None:
                    return TOP
                for p in xs:
                    k, v = it.iterate(p)
                    d[k] = v
        d.update(kwargs)
        return d
    if name == 'sorted':
        xs = it.iterate(a)
        if xs is None:
            return TOP
        r = sort_list(it, xs, kwargs.get('key'), it.truth(kwargs.get('reverse', False)) is True, node)
        return r if r is not None else [TOP] * len(xs)
    if name == 'reversed':
        xs = it.iterate(a)
        return TOP if xs is None else xs[::-1]
    if name == 'isinstance':
        return typematch(it, a, args[1])
    if name == 'issubclass':
        if isinstance(a, ClassVal):
            ts = args[1] if isinstance(args[1], tuple) else (args[1],)
            return any(t in a.mro() for t in ts if isinstance(t, ClassVal))
        return it.dom.fresh_cond()
    if name == 'hasattr':
        try:
            n0 = len(it.events)
            it.getattr(a, args[1])
            return True
        except AbsRaise as e:
            if e.exc == 'AttributeError':
                return False
            raise
    if name == 'getattr':
        if not isinstance(args[1], str):
            return TOP
        try:
            return it.getattr(a, args[1])
        except AbsRaise as e:
            if e.exc == 'AttributeError' and len(args) > 2:
                return args[2]
            raise
    if name == 'setattr':
        if isinstance(args[1], str):
            it.setattr(a, args[1], args[2])
        else:
            it.event('unknown_setattr')
        return None
    if name == 'delattr':
        if isinstance(a, Obj) and isinstance(args[1], str):
            it.set_env(a.attrs, args[1], UNB)
        return None
    if name == 'vars':
        return a.attrs if isinstance(a, Obj) else TOP
    if name == 'callable':
        return isinstance(a, (Func, Bound, Partial, Builtin, Ext, ClassVal, NatMeth))
    if name == 'map':
        xs = [it.iterate(x) for x in args[1:]]
        if any(x is None for x in xs):
            return [it.call(args[0], [it.dom.element_of(x) for x in args[1:]], {}, node)]
        return [it.call(args[0], list(t), {}, node) for t in zip(*xs)]
    if name == 'filter':
        xs = it.iterate(args[1])
        if xs is None:
            return TOP
        out = []
        for x in xs:
            c = it.truth(it.call(args[0], [x], {}, node) if args[0] is not None else x)
            if c is True:
                out.append(x)
            elif c is not False:
                it.event('unknown_filter')
                out.append(x)
        return out
    if name == 'round':
        if isinstance(a, int):
            return a
        return it.elem(lambda x: it.dom.func('round', x, args[1] if len(args) > 1 else 0), a)
    if name == 'print':
        it.event('print', args=args)
        return None
    if name == 'type':
        if isinstance(a, Obj):
            return a.cls
        return Builtin({np.ndarray: 'ndarray', list: 'list', tuple: 'tuple', dict: 'dict', str: 'str', bool: 'bool',
                        type(None): 'NoneType'}.get(type(a), 'float'))
    if name == 'divmod':
        return (it.binop('//', a, args[1]), it.binop('%', a, args[1]))
    if name == 'pow':
        return it.binop('**', a, args[1])
    if name == 'iter':
        xs = it.iterate(a)
        return TOP if xs is None else ExtIter(xs)
    if name == 'next':
        if isinstance(a, ExtIter):
            if a.items:
                return a.items.pop(0)
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', (), node)
        if isinstance(a, list):
            if a:
                return a[0]
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', (), node)
        return TOP
    if name == 'id':
        return id(a)
    if name == 'slice':
        return slice(*args)
    if name == 'object':
        return ExtObj('object')
    if name == 'super':
        return Super(args[1], args[0]) if len(args) > 1 else TOP
    if name == 'open':
        it.event('ext_call', path='builtins.open', args=args, kwargs=kwargs)
        return ExtObj('builtins.open')
    if name == 'complex':
        return TOP
    if name in ('property', 'staticmethod', 'classmethod'):
        if isinstance(a, Func):
            a.kind = name
        return a
    it.event('ext_call', path='builtins.' + name, args=args, kwargs=kwargs)
    return TOP


class ExtIter(ExtObj):
    def __init__(self, items):
        super().__init__('iterator')
        self.items = items


def _raise(n, node):
    raise AbsRaise(n, (), node)


def call_method(it, o, name, args, kwargs, node):
    if isinstance(o, Gate):
        return it.gmap(lambda y: call_method(it, y, name, args, kwargs, node), o)
    if isinstance(o, ExtObj):
        return call_ext(it, o.origin + '.' + name, args, kwargs, node, obj=o)
    if isinstance(o, np.ndarray):
        return arr_method(it, o, name, args, kwargs, node)
    if isinstance(o, list):
        return list_method(it, o, name, args, kwargs, node)
    if isinstance(o, dict):
        return dict_method(it, o, name, args, kwargs, node)
    if isinstance(o, (str, bytes)):
        if name == 'join':
            xs = it.iterate(args[0])
            if xs is not None and all(isinstance(x, str) for x in xs):
                return o.join(xs)
            return ExtObj('str')
        if all(isinstance(x, (str, int, tuple)) for x in args) and not any(not isinstance(v, (str, int)) for v in kwargs.values()):
            try:
                return getattr(o, name)(*args, **kwargs)
            except (ValueError, TypeError, IndexError, KeyError) as e:
                raise AbsRaise(type(e).__name__, (str(e),), node)
        if name in ('startswith', 'endswith'):
            return it.dom.fresh_cond()
        return ExtObj('str')
    if isinstance(o, (tuple, range)):
        if name == 'index':
            for i, x in enumerate(o):
                if it.truth(it.compare('==', x, args[0])) is True:
                    return i
            raise AbsRaise('ValueError', (), node)
        if name == 'count':
            return sum(1 for x in o if it.truth(it.compare('==', x, args[0])) is True)
    if isinstance(o, (set, frozenset)):
        if name in ('add', 'discard', 'remove', 'update', 'clear'):
            vals = list(args)
            if name == 'update':
                for v in vals:
                    o.update(it.iterate(v) or [])
            else:
                try:
                    getattr(o, name)(*vals)
                except KeyError:
                    raise AbsRaise('KeyError', (), node)
                except TypeError:
                    raise AbsRaise('TypeError', (), node)
            return None
        try:
            return getattr(o, name)(*[set(it.iterate(a) or []) for a in args])
        except Exception:
            return TOP
    # scalar methods
    if name in METHODS or name in ('is_integer', 'conjugate'):
        if name in ('sum', 'min', 'max', 'mean', 'item', 'copy', 'squeeze', 'prod', 'cumsum'):
            return o
        if name in ('any', 'all'):
            return it.truth(o)
        if name in ('flatten', 'ravel'):
            return it.arr([o])
        if name == 'astype':
            return cast(it, o, args[0])
        if name == 'reshape':
            return arr_method(it, it.arr([o]), name, args, kwargs, node)
        if name == 'round':
            return it.dom.func('round', o, args[0] if args else 0)
        return TOP
    raise AbsRaise('AttributeError', (name,), node)


def arr_method(it, o, name, args, kwargs, node):
    if name in ('sum', 'min', 'max', 'mean', 'prod', 'any', 'all'):
        return TABLE['numpy.' + name](it, [o] + list(args), kwargs, node)
    if name in ('cumsum', 'cumprod', 'repeat', 'argmax', 'argmin', 'round', 'clip', 'dot', 'nonzero', 'squeeze'):
        return TABLE['numpy.' + name](it, [o] + list(args), kwargs, node)
    if name == 'copy':
        return o.copy()
    if name == 'flatten':
        return o.flatten()
    if name == 'ravel':
        return o.ravel()
    if name == 'tolist':
        return o.tolist()
    if name == 'item':
        if args:
            return o.item(*args)
        if o.size != 1:
            raise AbsRaise('ValueError', ('can only convert an array of size 1',), node)
        return o.ravel()[0]
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else tuple(args)
        s = getdim(it, sh)
        if s is None:
            return TOP
        try:
            return o.reshape(s)
        except ValueError as e:
            raise AbsRaise('ValueError', (str(e),), node)
    if name == 'transpose':
        return o.transpose(*args)
    if name == 'swapaxes':
        return o.swapaxes(*args)
    if name == 'astype':
        if it.truth(kwargs.get('copy', True)) is False:
            r = cast(it, o, args[0])
            return r
        r = cast(it, o, args[0])
        return r.copy() if r is o else r
    if name == 'fill':
        it.log_arr(o)
        o.fill(args[0])
        return None
    if name == 'sort':
        it.log_arr(o)
        s = sort_list(it, o.tolist()) if o.ndim == 1 else None
        if s is None:
            o.fill(TOP)
        else:
            o[:] = s
        return None
    if name == 'argsort':
        return _argsort(it, o, -1)
    if name in ('conj', 'conjugate'):
        return sc(it, 'conj', o)
    if name == 'take':
        k = it.idx(args[0])
        return TOP if k is None else np.take(o, k[0], *args[1:], **kwargs)
    if name == 'view':
        return o.view()
    if name == 'setflags':
        return None
    if name == 'diagonal':
        return o.diagonal()
    it.event('unmodelled', path='ndarray.' + name)
    return TOP


def list_method(it, o, name, args, kwargs, node):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
        it.log_list(o)
    if name == 'append':
        o.append(args[0])
        return None
    if name == 'extend':
        xs = it.iterate(args[0])
        if xs is None:
            o.append(it.dom.element_of(args[0]))
        else:
            o.extend(xs)
        return None
    if name == 'insert':
        k = it.dom.as_int(args[0])
        if k is None:
            o[:] = [TOP] * (len(o) + 1)
        else:
            o.insert(k, args[1])
        return None
    if name == 'pop':
        k = it.dom.as_int(args[0]) if args else -1
        try:
            return o.pop(k)
        except (IndexError, TypeError):
            raise AbsRaise('IndexError', ('pop',), node)
    if name == 'clear':
        o.clear()
        return None
    if name == 'reverse':
        o.reverse()
        return None
    if name == 'copy':
        return list(o)
    if name == 'sort':
        r = sort_list(it, list(o), kwargs.get('key'), it.truth(kwargs.get('reverse', False)) is True, node)
        o[:] = r if r is not None else [TOP] * len(o)
        return None
    if name in ('index', 'count', 'remove'):
        n = 0
        for i, x in enumerate(o):
            if it.truth(it.compare('==', x, args[0])) is True:
                if name == 'index':
                    return i
                if name == 'remove':
                    del o[i]
                    return None
                n += 1
        if name == 'count':
            return n
        raise AbsRaise('ValueError', ('not in list',), node)
    return TOP


def dict_method(it, d, name, args, kwargs, node):
    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
        it.log_dict(d)
    if name == 'get':
        try:
            return it.getitem(d, args[0])
        except AbsRaise as e:
            if e.exc == 'KeyError':
                return args[1] if len(args) > 1 else kwargs.get('default')
            raise
    if name == 'keys':
        return list(d)
    if name == 'values':
        return [it.getitem(d, k) for k in d]
    if name == 'items':
        return [(k, it.getitem(d, k)) for k in d]
    if name == 'copy':
        return dict(d)
    if name == 'update':
        for a in args:
            if isinstance(a, dict):
                d.update(a)
            else:
                for p in it.iterate(a) or []:
                    k, v = it.iterate(p)
                    d[k] = v
        d.update(kwargs)
        return None
    if name == 'pop':
        try:
            if args[0] in d:
                return d.pop(args[0])
        except TypeError:
            return TOP
        if len(args) > 1:
            return args[1]
        raise AbsRaise('KeyError', (args[0],), node)
    if name == 'setdefault':
        return d.setdefault(args[0], args[1] if len(args) > 1 else None)
    if name == 'clear':
        d.clear()
        return None
    return TOP
