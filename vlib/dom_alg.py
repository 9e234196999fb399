"""Algebraic value-number domain.

Scalars are Python ints or sympy terms over the symbols of the model.  Joins of
control flow are kept as GATE(c, a, b) terms (gated value numbers).  Unknown
scalars are TOP.
"""
import hashlib
from fractions import Fraction

import sympy as sp

from .interp import TOP, NAN, UNB, Cond, Gate, ExtObj

pi = sp.pi


class GATE(sp.Function):
    nargs = 3


class ETA(sp.Function):
    """Marker for element-wise max/min with undecided order (opaque)."""


PRIME = 2**127 - 1


def _h(*xs):
    return int(hashlib.sha256('|'.join(str(x) for x in xs).encode()).hexdigest(), 16) % PRIME


def fp(e, dom=None, memo=None):
    """Polynomial hash of a term: equal for arithmetically equal rational functions of its atoms."""
    memo = {} if memo is None else memo
    if isinstance(e, int):
        return e % PRIME
    try:
        return memo[e]
    except KeyError:
        pass
    if e.is_Rational:
        r = e.p * pow(e.q, -1, PRIME) % PRIME
    elif e.is_Symbol:
        if dom is not None and e in dom.conds:
            r = _h('cond', fpkey(dom.conds[e].key, dom, memo))
        else:
            r = _h('sym', e.name)
    elif e.is_Add:
        r = sum(fp(a, dom, memo) for a in e.args) % PRIME
    elif e.is_Mul:
        r = 1
        for a in e.args:
            r = r * fp(a, dom, memo) % PRIME
    elif e.is_Pow and e.exp.is_Integer:
        b = fp(e.base, dom, memo)
        r = pow(b, int(e.exp), PRIME) if b or e.exp > 0 else _h('inv0')
    elif e.is_Pow:
        r = _h('pow', fp(e.base, dom, memo), fp(e.exp, dom, memo))
    else:
        r = _h(type(e).__name__, str(e) if not e.args else '', *[fp(a, dom, memo) for a in e.args])
    memo[e] = r
    return r


def fpkey(k, dom, memo):
    if isinstance(k, tuple):
        return tuple(fpkey(x, dom, memo) for x in k)
    if isinstance(k, sp.Basic):
        return fp(k, dom, memo)
    return str(k)


def digest(*xs, dom=None):
    memo = {}
    h = hashlib.sha1()
    for x in xs:
        h.update(str(fp(x, dom, memo) if isinstance(x, (int, sp.Basic)) and not isinstance(x, bool) else x).encode())
        h.update(b'|')
    return h.hexdigest()[:10]


NUM = (int, Fraction, sp.Expr)


class AlgDom:
    flat_join = False

    def __init__(self):
        self.conds = {}      # symbol -> Cond
        self.csyms = {}      # Cond -> symbol
        self.nfresh = 0
        self.div0 = []

    # -- conditions
    def csym(self, c):
        if c not in self.csyms:
            s = sp.Symbol(f'c#{len(self.csyms)}')
            self.csyms[c] = s
            self.conds[s] = c
        return self.csyms[c]

    def fresh_cond(self):
        self.nfresh += 1
        return Cond(('fresh', self.nfresh))

    def c_not(self, c):
        k = c.key
        if k[0] == 'lt0':
            return Cond(('le0', -k[1]))
        if k[0] == 'le0':
            return Cond(('lt0', -k[1]))
        if k[0] == 'not':
            return Cond(k[1])
        if k[0] == 'and':
            return Cond(('or',) + tuple(self.c_not(Cond(q)).key for q in k[1:]))
        if k[0] == 'or':
            return Cond(('and',) + tuple(self.c_not(Cond(q)).key for q in k[1:]))
        return Cond(('not', k))

    def _nary(self, op, a, b):
        out = []
        for c in (a, b):
            for q in (c.key[1:] if c.key[0] == op else (c.key,)):
                if q not in out:
                    out.append(q)
        neg = {self.c_not(Cond(q)).key for q in out}
        if neg & set(out):
            return op == 'or'
        return Cond(out[0]) if len(out) == 1 else Cond((op,) + tuple(sorted(out, key=str)))

    def c_and(self, a, b):
        return self._nary('and', a, b)

    def c_or(self, a, b):
        return self._nary('or', a, b)

    def implied(self, f, val, c):
        """Truth of c given that fact f has value val; None if unknown."""
        k = c.key
        if k[0] == 'not':
            r = self.implied(f, val, Cond(k[1]))
            return None if r is None else not r
        if k[0] in ('and', 'or'):
            rs = [self.implied(f, val, Cond(q)) if Cond(q) != f else val for q in k[1:]]
            if k[0] == 'and':
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        fk = f.key
        if not val:
            if self.c_not(f) == c:
                return True
            if fk[0] == 'or':
                for q in fk[1:]:
                    r = False if Cond(q) == c else self.implied(Cond(q), False, c)
                    if r is not None:
                        return r
                return None
            if fk[0] in ('lt0', 'le0', 'not', 'and'):
                return self.implied(self.c_not(f), True, c) if fk[0] != 'and' else None
            return None
        if fk[0] == 'and':
            for q in fk[1:]:
                r = True if Cond(q) == c else self.implied(Cond(q), True, c)
                if r is not None:
                    return r
            return None
        if fk[0] not in ('lt0', 'le0', 'eq0') or k[0] not in ('lt0', 'le0', 'eq0'):
            return None
        d, e = fk[1], k[1]
        if d == e:
            s = 1
        elif d == -e:
            s = -1
        else:
            # constant offset:  e = s*d + q with number q
            for s in (1, -1):
                q = sp.expand(e - s * d)
                if q.is_number and q.is_real:
                    break
            else:
                return None
            if s == 1:
                if fk[0] in ('lt0', 'le0') and k[0] in ('lt0', 'le0') and q <= 0:
                    return True
                if fk[0] in ('lt0', 'le0') and k[0] == 'eq0' and q < 0:
                    return False
            else:
                if fk[0] in ('lt0', 'le0') and k[0] in ('lt0', 'le0') and q >= 0:
                    # d<=0 -> e=-d+q >= q >= 0
                    return False if (q > 0 or fk[0] == 'lt0' or k[0] == 'lt0') else None
            return None
        if fk[0] == 'eq0':
            return {'lt0': False, 'le0': True, 'eq0': True}[k[0]]
        if s == 1:
            if fk[0] == 'lt0':
                return {'lt0': True, 'le0': True, 'eq0': False}[k[0]]
            return True if k[0] == 'le0' else None
        if fk[0] == 'lt0':
            return False
        return False if k[0] == 'lt0' else None

    # -- scalars
    def literal(self, v, node, where):
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return norm(sp.Rational(repr(v))) if v == v and abs(v) != float('inf') else TOP
        if isinstance(v, complex):
            return sp.Rational(repr(v.real)) + sp.I * sp.Rational(repr(v.imag))
        return v

    def is_scalar(self, v):
        return isinstance(v, NUM) and not isinstance(v, bool)

    def same(self, a, b):
        if isinstance(a, NUM) and isinstance(b, NUM):
            return sp.sympify(a) == sp.sympify(b)
        if isinstance(a, (str, bool, type(None), Cond)):
            return type(a) is type(b) and a == b
        return False

    def bin(self, op, a, b):
        a = sp.sympify(a) if not isinstance(a, int) else a
        b = sp.sympify(b) if not isinstance(b, int) else b
        try:
            if op == '+':
                return norm(a + b)
            if op == '-':
                return norm(a - b)
            if op == '*':
                return norm(a * b)
            if op == '/':
                if b == 0:
                    self.div0.append(self.interp.where())
                    return TOP
                return norm(sp.sympify(a) / b)
            if op == '**':
                if a == 0 and sp.sympify(b).is_negative:
                    return TOP
                return norm(sp.sympify(a) ** b)
            if op == '//':
                if b == 0:
                    return TOP
                return norm(sp.floor(sp.sympify(a) / b))
            if op == '%':
                if b == 0:
                    return TOP
                return norm(sp.sympify(a) - b * sp.floor(sp.sympify(a) / b))
            if isinstance(a, int) and isinstance(b, int):
                return {'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b, '^': a ^ b}[op]
        except (TypeError, ValueError, KeyError):
            return TOP
        return TOP

    def neg(self, a):
        return norm(-a) if not isinstance(a, int) else -a

    def compare(self, op, a, b):
        d = sp.sympify(a) - sp.sympify(b)
        if d.has(GATE):
            d2 = self.resolve_facts(d)
            d = d2
        if d.has(sp.I):
            re, im = sp.re(d), sp.im(d)
            if op in ('==', '!='):
                z = re.is_zero and im.is_zero
                nz = re.is_zero is False or im.is_zero is False
                r = True if z else False if nz else None
                if r is None:
                    return self.fresh_cond()
                return r == (op == '==')
            d = re if not re.is_zero else im
        if op in ('==', '!='):
            if d.is_zero is None:
                e = sp.expand(d)
                z = e.is_zero
            else:
                e, z = d, d.is_zero
            if z is not None:
                return z == (op == '==')
            if e.could_extract_minus_sign():
                e = -e
            c = Cond(('eq0', e))
            return c if op == '==' else self.c_not(c)
        if op in ('>', '>='):
            d = -d
            op = '<' if op == '>' else '<='
        d = sp.expand(d) if d.is_negative is None else d
        if op == '<':
            if d.is_negative:
                return True
            if d.is_nonnegative:
                return False
            return Cond(('lt0', d))
        if d.is_nonpositive:
            return True
        if d.is_positive:
            return False
        return Cond(('le0', d))

    def resolve_facts(self, e):
        """Replace gates whose condition is decided by current facts."""
        for _ in range(20):
            g = [x for x in e.atoms(GATE)]
            ch = False
            for x in g:
                c = self.conds[x.args[0]]
                d = self.interp.decide(c)
                if isinstance(d, bool):
                    e = e.subs(x, x.args[1] if d else x.args[2])
                    ch = True
                    break
            if not ch:
                break
        return e

    def truth(self, v):
        r = self.compare('!=', v, 0)
        return r

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if self.same(a, b):
            return a
        return GATE(self.csym(c), sp.sympify(a), sp.sympify(b))

    def as_int(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, sp.Integer):
            return int(x)
        try:
            import numpy as np
            if isinstance(x, np.integer):
                return int(x)
        except Exception:
            pass
        return None

    def attr(self, x, name):
        x = sp.sympify(x)
        return norm(sp.re(x) if name == 'real' else sp.im(x))

    def top_op(self, op, a, b):
        return TOP

    def top_compare(self, op, a, b):
        return self.fresh_cond()

    def unknown_index(self, o, i):
        return TOP

    def element_of(self, v, i=None):
        return TOP

    def widen(self, old, new):
        return TOP

    def smear(self, o, v):
        return TOP

    def join_all(self, vs):
        return TOP

    # -- functions
    def func(self, name, *args):
        if any(a is NAN for a in args):
            return NAN
        if any(a is TOP or isinstance(a, (Gate, ExtObj)) for a in args):
            return TOP
        args = [sp.Integer(int(a)) if isinstance(a, bool) else a for a in args]
        if any(isinstance(a, Cond) for a in args):
            args = [self.ite(a, 1, 0) if isinstance(a, Cond) else a for a in args]
        args = [sp.sympify(a) for a in args]
        a = args[0]
        try:
            f = FUNCS.get(name)
            if name in ('max', 'min') and len(args) > 1 and any(not x.is_number for x in args) and \
                    sum(size(x) for x in args) > 24:
                return sp.Symbol(f'{name}_' + digest(*args, dom=self), real=True)
            if name == 'round' and all(x.is_Rational for x in args) and len(args) < 3 and all(x.is_Integer for x in args[1:]):
                k = sp.Integer(10)**(args[1] if len(args) > 1 else 0)
                q = sp.floor(a * k)
                r = a * k - q
                h = sp.Rational(1, 2)
                return (q + (1 if r > h or r == h and q % 2 else 0)) / k
            if f is not None:
                return norm(f(*args))
        except (TypeError, ValueError):
            return TOP
        return sp.Function(name)(*args)


def size(e, lim=40):
    n, todo = 0, [e]
    while todo and n < lim:
        n += 1
        todo.extend(todo.pop().args)
    return n


def _abs(a):
    if a.is_nonnegative:
        return a
    if a.is_nonpositive:
        return -a
    return sp.Abs(a)


def even(f):
    """An even function of a product does not see the sign of its factors."""
    def g(x):
        fs = sp.Mul.make_args(x)
        if any(isinstance(q, sp.Abs) and q.args[0].is_real for q in fs) and all(q.is_real for q in fs):
            x = sp.Mul(*[q.args[0] if isinstance(q, sp.Abs) else q for q in fs])
        return f(x)
    return g


FUNCS = {
    'sin': sp.sin, 'cos': even(sp.cos), 'tan': sp.tan, 'exp': sp.exp, 'log': sp.log, 'sqrt': sp.sqrt,
    'arctan': sp.atan, 'arcsin': sp.asin, 'arccos': sp.acos, 'arctan2': sp.atan2, 'sinh': sp.sinh, 'cosh': even(sp.cosh),
    'tanh': sp.tanh, 'log10': lambda x: sp.log(x) / sp.log(10), 'abs': _abs, 'ceil': sp.ceiling, 'floor': sp.floor,
    'rint': lambda x: sp.floor(x + sp.Rational(1, 2)), 'deg2rad': lambda x: x * pi / 180, 'rad2deg': lambda x: x * 180 / pi,
    'sign': sp.sign, 'max': sp.Max, 'min': sp.Min, 'conj': sp.conjugate, 'hypot': lambda a, b: sp.sqrt(a**2 + b**2),
    'square': lambda x: x**2, 'reciprocal': lambda x: 1 / x, 'expm1': lambda x: sp.exp(x) - 1,
    'log1p': lambda x: sp.log(1 + x), 'trunc': lambda x: sp.sign(x) * sp.floor(sp.Abs(x)), 'cbrt': sp.cbrt,
}


def norm(e):
    if isinstance(e, sp.Integer):
        return int(e)
    if e is sp.nan or e is sp.zoo or e is sp.oo or e is -sp.oo:
        return TOP
    return e


# ----------------------------------------------------------- opaque operators
def _sy(x):
    return sp.sympify(x) if isinstance(x, NUM) else sp.Symbol('TOP')


class Integral(sp.Function):
    """Integral(y, x, a, b) as an uninterpreted term."""


def bound_var(self, name, depth):
    return sp.Symbol(f'{name}{depth}', real=True, positive=True)


def integral(self, y, x, a, b):
    if not all(isinstance(v, NUM) for v in (y, a, b)):
        return TOP
    return sp.Symbol('int_' + digest(_sy(y), x, a, b, dom=self), real=True)


def root(self, y, x, a, b):
    if not all(isinstance(v, NUM) for v in (y, a, b)):
        return TOP
    return sp.Symbol('root_' + digest(_sy(y), x, a, b, dom=self), real=True, positive=True)


def canon(e):
    e = sp.sympify(e)
    if e.has(GATE):
        return e
    try:
        return sp.expand(e)
    except Exception:
        return e


def eig(self, K):
    """Eigenpairs of K as sign-known atoms named by the value number of K."""
    import numpy as np
    if K is None or any(not isinstance(x, NUM) for x in K.ravel().tolist()):
        return (TOP, TOP)
    n = K.shape[0]
    d = digest(*K.ravel().tolist(), dom=self)
    nr = getattr(self, 'eig_real_pairs', 1)
    nc = (n - 2 * nr) // 4
    ew, cols = [], []

    def vec(tag):
        return [sp.Symbol(f'v_{d}_{tag}_{i}', real=True) for i in range(n)]
    order = getattr(self, 'eig_order', 0)
    blocks = []
    for k in range(nr):
        r = sp.Symbol(f'ev_{d}_r{k}', positive=True)
        blocks.append([(-r, vec(f'rm{k}')), (r, vec(f'rp{k}'))])
    for k in range(nc):
        a = sp.Symbol(f'ev_{d}_a{k}', positive=True)
        b = sp.Symbol(f'ev_{d}_b{k}', positive=True)
        for s, t in ((1, 'cp'), (-1, 'cm')):
            re, im = vec(f'{t}re{k}'), vec(f'{t}im{k}')
            blocks.append([(s * a + sp.I * b, [x + sp.I * y for x, y in zip(re, im)]),
                           (s * a - sp.I * b, [x - sp.I * y for x, y in zip(re, im)])])
    if order:
        blocks = blocks[::-1]
    for bl in blocks:
        for w, v in bl:
            ew.append(w)
            cols.append(v)
    W = np.empty(n, dtype=object)
    V = np.empty((n, n), dtype=object)
    for j in range(n):
        W[j] = ew[j]
        for i in range(n):
            V[i, j] = cols[j][i]
    self.eigs = getattr(self, 'eigs', [])
    self.eigs.append(dict(K=K.copy(), ew=W.copy(), ev=V.copy(), digest=d))
    return (W, V)


def solve(self, a, b):
    import numpy as np
    vals = a.ravel().tolist() + b.ravel().tolist()
    out = np.empty(b.shape, dtype=object)
    if any(not isinstance(x, NUM) for x in vals):
        out.fill(TOP)
        return out
    d = digest(*vals, dom=self)
    for i in np.ndindex(*b.shape):
        # several right-hand sides: one solution each
        out[i] = sp.Symbol(f'sol_{d}_{i[0]}' + ('' if b.ndim < 2 or b.shape[1] == 1 else f'of{i[1]}'), real=True)
    self.solves = getattr(self, 'solves', {})
    self.solves[d] = (a.copy(), b.copy())
    return out


for _f in (bound_var, integral, root, eig, solve):
    setattr(AlgDom, _f.__name__, _f)
