"""Equality of algebraic value numbers.

`is_zero` answers True (normal form is zero), False (normal form is not zero;
confirmed by evaluating the *term*, never the program, at a rational point that
respects the gate conditions) or None (undecided).
"""
import itertools
import random
import re
import signal
from fractions import Fraction

import mpmath
import sympy as sp

from .interp import TOP, NAN, UNB, Cond, Gate, ExtObj
from .dom_alg import GATE, NUM, AlgDom

OPAQUE = ('int_', 'root_', 'sol_', 'TOP', 'op_')


class Timeout(Exception):
    pass


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def gates(e):
    return {g.args[0] for g in e.atoms(GATE)} if isinstance(e, sp.Basic) else set()


def allgates(e, dom):
    """Gate condition symbols, including those nested in conditions."""
    todo, out = list(gates(e)), []
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.append(c)
        for d in cond_terms(dom.conds[c]):
            todo.extend(gates(d))
    return sorted(out, key=str)


def cond_terms(c):
    k = c.key
    out = []

    def rec(k):
        if k[0] in ('lt0', 'le0', 'eq0'):
            out.append(k[1])
        elif k[0] in ('and', 'or', 'not'):
            for q in k[1:]:
                rec(q)
    rec(k)
    return out


def equalities(k, v):
    """Terms that vanish when the condition with this key has the given value."""
    if k[0] == 'eq0':
        return [k[1]] if v else []
    if k[0] == 'not':
        return equalities(k[1], not v)
    if (k[0], v) in (('and', True), ('or', False)):
        return [t for q in k[1:] for t in equalities(q, v)]
    return []


def select(e, asg):
    """Resolve gates under an assignment csym -> bool."""
    while True:
        gs = [g for g in e.atoms(GATE) if g.args[0] in asg] if isinstance(e, sp.Basic) else []
        if not gs:
            return e
        e = e.xreplace({g: (g.args[1] if asg[g.args[0]] else g.args[2]) for g in gs})


def replace(e, sub, dom):
    """Substitution that also reaches the conditions of the gates in the term."""
    def key(k):
        if k[0] in ('lt0', 'le0', 'eq0') and isinstance(k[1], sp.Basic):
            t = rec(k[1])
            if t == k[1]:
                return None
            c = dom.compare({'lt0': '<', 'le0': '<=', 'eq0': '=='}[k[0]], t, sp.Integer(0))
            return c if isinstance(c, bool) else c.key
        if k[0] in ('and', 'or', 'not'):
            new = [key(q) for q in k[1:]]
            if all(q is None for q in new):
                return None
            new = [o if q is None else q for o, q in zip(k[1:], new)]
            if k[0] == 'not':
                return (not new[0]) if isinstance(new[0], bool) else ('not', new[0])
            stop = k[0] == 'or'
            if stop in [q for q in new if isinstance(q, bool)]:
                return stop
            new = [q for q in new if not isinstance(q, bool)]
            return (k[0], *new) if len(new) > 1 else new[0] if new else not stop
        return None

    def rec(e):
        if not e.has(GATE):
            return e.xreplace(sub)
        if e.func is GATE:
            c = e.args[0]
            k = key(dom.conds[c].key) if c in dom.conds else None
            if isinstance(k, bool):
                return rec(e.args[1] if k else e.args[2])
            return GATE(c if k is None else dom.csym(Cond(k)), rec(e.args[1]), rec(e.args[2]))
        return e.func(*[rec(a) for a in e.args])
    sub = {sp.sympify(k): sp.sympify(v) for k, v in sub.items()}
    return rec(sp.sympify(e))


def leaves(e, dom, maxc=8, facts=()):
    """(assignment, term) for all gate leaves not contradicted by facts."""
    cs = allgates(e, dom)
    if len(cs) > maxc:
        return None
    out = []

    def rec(i, asg, fs):
        if i == len(cs):
            out.append((dict(asg), select(e, asg)))
            return
        c = dom.conds[cs[i]]
        d = None
        for f, v in fs:
            d = v if f == c else dom.implied(f, v, c)
            if d is not None:
                break
        for v in ((True, False) if d is None else (d,)):
            asg[cs[i]] = v
            rec(i + 1, asg, fs + [(c, v)])
            del asg[cs[i]]
    rec(0, {}, list(facts))
    return out


def nf(e):
    """Normal form: numerator of the rational function in symbols, sin, cos, exp, roots."""
    e = sp.sympify(e)
    e = sp.expand(e)
    if e == 0:
        return e
    if e.has(sp.tan, sp.sin, sp.cos, sp.cot, sp.sec, sp.csc):
        e = e.replace(sp.tan, lambda a: sp.sin(a) / sp.cos(a))
        e = sp.expand(sp.expand_trig(e))
        # half/double angle relations: express everything in the smallest common argument
        args = sorted({a.args[0] for a in e.atoms(sp.sin, sp.cos)}, key=lambda a: (a.count_ops(), str(a)))
        for a in args:
            for b in args:
                if a != b:
                    q = sp.cancel(b / a)
                    if q.is_Integer and 1 < q <= 6:
                        e = sp.expand(sp.expand_trig(e.xreplace({sp.sin(b): sp.expand_trig(sp.sin(q * a)),
                                                                 sp.cos(b): sp.expand_trig(sp.cos(q * a))})))
    num = sp.numer(sp.together(e))
    num = sp.expand(num)
    if num == 0:
        return num
    rep = {}
    for a in sorted({a.args[0] for a in num.atoms(sp.sin, sp.cos)}, key=str):
        S, C = sp.Symbol(f'S[{a}]'), sp.Symbol(f'C[{a}]')
        rep[a] = (S, C)
        num = num.xreplace({sp.sin(a): S, sp.cos(a): C})
    num = sp.expand(num)
    for S, C in rep.values():
        if num.has(C):
            p = sp.Poly(num, C)
            r = 0
            for (k,), c in p.terms():
                r += c * (1 - S**2)**(k // 2) * C**(k % 2)
            num = sp.expand(r)
    return num


def rnd(sym, rng):
    q = sp.Rational(rng.randint(40, 200), 100) + sp.Rational(rng.randint(1, 97), 9973)
    if sym.is_positive:
        return q
    if sym.is_negative:
        return -q
    if sym.is_nonnegative:
        return q
    return q if rng.random() < .5 else -q


def cond_value(dom, c, sub, fresh):
    """Truth of a condition at a point (None when not evaluable)."""
    pt = fresh.get('point')
    if pt is None or pt.sub is not sub:
        pt = fresh['point'] = Point(dom, sub, fresh)
    return pt.cond(c)


PREC = 80


class Point:
    """A sample point: evaluates terms (gates included) exactly while rational, else to PREC digits."""

    def __init__(self, dom, sub, fresh):
        self.dom, self.sub, self.fresh = dom, sub, fresh
        self.memo, self.cmemo = {}, {}

    def raw(self, e):
        """Fraction, mpf or mpc; None when it has no value."""
        e = sp.sympify(e)
        if len(self.memo) > 300000:
            self.memo.clear()
        try:
            with mpmath.workdps(PREC):
                v = self.ev(e)
                if not isinstance(v, Fraction) and not mpmath.isfinite(v):
                    return None
                return v
        except (Timeout, RecursionError):
            raise
        except Exception:
            return None

    def value(self, e, cplx=False):
        """sympy number, None when there is none; modulus of non-real values on request."""
        v = self.raw(e)
        if v is None or isinstance(v, Fraction):
            return None if v is None else sp.Rational(v.numerator, v.denominator)
        with mpmath.workdps(PREC):
            if isinstance(v, mpmath.mpc):
                if abs(v.imag) < mpmath.mpf('1e-40') * (1 + abs(v.real)):
                    v = v.real
                elif not cplx:
                    return None
                else:
                    v = abs(v)
            return sp.Float(v, PREC)

    def cond(self, c):
        if c not in self.cmemo:
            self.cmemo[c] = self.key(c.key)
        return self.cmemo[c]

    def key(self, k):
        if k[0] in ('lt0', 'le0', 'eq0'):
            v = self.value(k[1])
            if v is None:
                return None
            return bool(v < 0 if k[0] == 'lt0' else v <= 0 if k[0] == 'le0' else v == 0)
        if k[0] == 'not':
            r = self.key(k[1])
            return None if r is None else not r
        if k[0] in ('and', 'or'):
            rs = [self.key(q) for q in k[1:]]
            if None in rs:
                return None
            return all(rs) if k[0] == 'and' else any(rs)
        return self.fresh.setdefault(k, self.fresh['rng'].random() < .5)

    def gate(self, e):
        """The selected branch."""
        v = self.cond(self.dom.conds[e.args[0]])
        if v is None:
            raise ValueError('condition without value')
        return e.args[1] if v else e.args[2]

    def symbol(self, e):
        raise ValueError(e)

    def ev(self, e):
        memo = self.memo
        if e in memo:
            return memo[e]
        if self.sub and e in self.sub:
            r = self.sub[e]
            if not isinstance(r, Fraction):
                r = sp.sympify(r)
                r = Fraction(int(r.p), int(r.q)) if r.is_Rational else mpmath.mpf(sp.N(r, PREC)._mpf_)
        elif e.is_Rational:
            r = Fraction(int(e.p), int(e.q))
        elif e.is_Symbol:
            r = self.symbol(e)
        elif e.is_Add or e.is_Mul:
            add = e.is_Add
            q = Fraction(0 if add else 1)
            f = None
            for a in e.args:
                v = self.ev(a)
                if isinstance(v, Fraction):
                    q = q + v if add else q * v
                elif f is None:
                    f = v
                else:
                    f = f + v if add else f * v
            r = q if f is None else (_num(q) + f if add else _num(q) * f)
        elif isinstance(e, GATE):
            r = self.ev(self.gate(e))
        elif e.is_Pow:
            b, x = self.ev(e.base), self.ev(e.exp)
            if isinstance(x, Fraction) and x.denominator == 1 and (abs(x.numerator) < 200 or not isinstance(b, Fraction)):
                r = b**x.numerator
            else:
                b = _num(b)
                r = mpmath.power(b if isinstance(b, mpmath.mpc) or b >= 0 else mpmath.mpc(b), _num(x))
        elif e.args:
            vs = [_num(self.ev(a)) for a in e.args]
            n = e.func.__name__
            if n in ('Max', 'Min'):
                r = (max if n == 'Max' else min)(vs)
            elif n == 'round':
                k = mpmath.mpf(10)**(vs[1] if len(vs) > 1 else 0)
                r = mpmath.nint(vs[0] * k) / k
            elif n in MPFUN:
                r = getattr(mpmath, MPFUN[n])(*vs)
            else:
                r = e.func(*[sp.Float(v, PREC) if isinstance(v, mpmath.mpf) else sp.Float(v.real, PREC) + sp.I * sp.Float(v.imag, PREC)
                             for v in vs]).evalf(PREC)
                if not r.is_number:
                    raise ValueError(e)
                r = mpmath.mpf(r._mpf_) if isinstance(r, sp.Float) else mpmath.mpc(*[mpmath.mpf(sp.N(p, PREC)._mpf_) for p in r.as_real_imag()])
        elif e is sp.I:
            r = mpmath.mpc(0, 1)
        else:
            v = e.evalf(PREC)
            if not isinstance(v, sp.Float):
                raise ValueError(e)
            r = mpmath.mpf(v._mpf_)
        memo[e] = r
        return r

    def magnitude(self, e, memo=None):
        """Magnitude of a term without cancellation (bound for the rounding of its evaluation)."""
        with mpmath.workdps(20):
            return sp.Float(self.mag(e, {} if memo is None else memo), 20)

    def mag(self, e, memo):
        if e in memo:
            return memo[e]
        if e.is_Add:
            r = sum((self.mag(a, memo) for a in e.args), mpmath.mpf(0))
        elif e.is_Mul:
            r = mpmath.mpf(1)
            for a in e.args:
                r = r * self.mag(a, memo)
        elif isinstance(e, GATE):
            r = self.mag(self.gate(e), memo)
        elif e.is_Pow and e.exp.is_number and e.exp.is_real and e.exp > 0:
            r = self.mag(e.base, memo)**_num(self.ev(e.exp))
        else:
            v = self.raw(e)
            r = abs(_num(v)) if v is not None else mpmath.mpf(0)
        memo[e] = r
        return r


DIVERSE = 1000


class Standard(Point):
    """Sample point number k: the value of a symbol depends on its name only."""

    def __init__(self, dom, k):
        rng = random.Random(f'flags{k}')
        super().__init__(dom, {}, {'rng': rng})
        self.k = k

    def symbol(self, e):
        v = rnd(e, random.Random(f'{self.k}:{e}'))
        v = Fraction(int(v.p), int(v.q))
        return v if self.k < DIVERSE else self.spread(str(e), v)

    def spread(self, name, v):
        """Other magnitudes, nearly equal members of a family (rho0, rho1), slopes within the quadrant."""
        mode = self.k % 8
        if name.startswith('phi') and mode != 5:
            return v * [1, 5, 20, 40][self.k % 4]
        if mode > 3:   # no surface load, flat ground, no coupling, no skier: what a model has by default
            stem = re.split(r'[\[|]', name)[0]
            zero = (('p', 'pn', 'pt'), ('phi', 'qt', 'pt', 'Ft'), ('B11',), ('m', 'p', 'pn', 'pt'))[mode - 4]
            return Fraction(0) if stem.rstrip('0123456789') in zero or stem in zero else v
        if name.startswith('nu'):
            return v / 5
        if mode == 1:
            return v * Fraction(10)**random.Random(f'{self.k}:scale:{name}').randint(-9, 6)
        stem = re.sub(r'\d+', '#', name)
        if mode == 2 and stem != name:
            b = rnd(sp.Symbol(stem, positive=True), random.Random(f'{self.k}:{stem}'))
            d = Fraction(1, 10**random.Random(f'{self.k}:near').randint(1, 6))
            b = Fraction(int(b.p), int(b.q)) * (1 if v > 0 else -1)
            return b * (1 + d * (abs(v) - 1))
        if mode == 3:
            return v * Fraction(10)**random.Random(f'{self.k}:scale').randint(-4, 6)
        return v


def standard(dom, k):
    pts = dom.__dict__.setdefault('_points', {})
    if k not in pts:
        pts[k] = Standard(dom, k)
    return pts[k]


def numval(e, sub):
    """Value of a term at a point: exact while rational, else to PREC digits; None when not a real number."""
    return Point(None, sub or {}, {'rng': random.Random(1)}).value(e)


def _num(v):
    return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else v


MPFUN = {n: n for n in ('sin', 'cos', 'tan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'atan2', 'floor', 'sign')}
MPFUN.update(Abs='fabs', ceiling='ceil')


def witness(e, dom, tries=6, seed=1):
    """(value, scale, point) at sample points where the term has a value."""
    for k in range(seed * 100, seed * 100 + tries):
        pt = standard(dom, k)
        v = pt.value(e, cplx=True)
        if v is None:
            continue
        if v == 0:
            sc = sp.Integer(1)
        elif v.is_Rational:
            sc = sp.Integer(0)
        else:
            sc = pt.magnitude(e)
        yield v, sc, pt


def is_zero(e, dom, subs=None, opaque=False, secs=30, facts=()):
    if isinstance(e, (bool, Cond)) or e is TOP or e is NAN or isinstance(e, (Gate, ExtObj)):
        return None
    e = sp.sympify(e)
    if subs:
        e = e.subs(subs)
    if e == 0:
        return True
    try:
        with limit(secs):
            nz = 0
            n = 0
            facts_ok = True
            for v, sc, pt in witness(e, dom):
                n += 1
                if facts:
                    facts_ok = all(pt.cond(c) in (val, None) for c, val in facts)
                    if not facts_ok:
                        continue
                if abs(v) > sp.Float('1e-25') * sc:
                    nz += 1
                    if nz >= 2:
                        break
                elif n >= 2:
                    break
            if nz >= 2:
                if opaque or not has_opaque(e):
                    return False
                return None
            if not gates(e):
                if nf(e) == 0:
                    return True
                return False if differs(e, dom, opaque, facts) else None
            ls = leaves(e, dom, facts=facts)
            if ls is None:
                return None
            und = False
            for asg, t in ls:
                t = use_equalities(t, asg, dom)
                if t is None:
                    continue
                if nf(t) != 0:
                    und = True
                    # equality-conditioned leaf: confirm non-zero on the substituted term
                    if any(equalities(dom.conds[c].key, v) for c, v in asg.items()):
                        k = 0
                        for v, sc, pt in witness(t, dom):
                            ok = all(pt.cond(dom.conds[c]) in (val, None) for c, val in asg.items()
                                     if not equalities(dom.conds[c].key, val))
                            if ok and abs(v) > sp.Float('1e-25') * sc:
                                k += 1
                        if k >= 2 and (opaque or not has_opaque(t)):
                            return False
            if und and differs(e, dom, opaque, facts):
                return False
            return None if und else True
    except Timeout:
        return None


def differs(e, dom, opaque, facts):
    """Does the term have a value other than zero where the first samples did not look?"""
    if facts or has_opaque(e) and not opaque:
        return False
    for seed, tries in ((5, 60), (DIVERSE // 100, 160)):
        nz = 0
        for v, sc, pt in witness(e, dom, tries=tries, seed=seed):
            if abs(v) > sp.Float('1e-25') * sc:
                nz += 1
                if nz >= 2:
                    return True
    return False


def use_equalities(t, asg, dom):
    for c, v in asg.items():
        for d in equalities(dom.conds[c].key, v):
            d = sp.sympify(select(d, asg))
            for s in sorted(d.free_symbols, key=str):
                sol = None
                try:
                    p = sp.Poly(d, s)
                    if p.degree() == 1 and not p.coeff_monomial(s).free_symbols:
                        sol = -p.coeff_monomial(1) / p.coeff_monomial(s)
                except sp.PolynomialError:
                    pass
                if sol is None and s.is_nonzero is not True and d.subs(s, 0) == 0:
                    sol = sp.Integer(0)
                if sol is not None:
                    t = t.subs(s, sol)
                    break
    return t


def has_opaque(e):
    return any(str(s).startswith(OPAQUE) for s in e.free_symbols)


def allzero(xs, dom, **kw):
    """Combined verdict and first failing index."""
    res, bad = True, None
    for i, x in enumerate(xs):
        r = is_zero(x, dom, **kw)
        if r is False:
            return False, i
        if r is None and res is True:
            res, bad = None, i
    return res, bad
