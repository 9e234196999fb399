"""Assembled linear systems as terms: stubs for segment functions and row comparison."""
import itertools
import random

import numpy as np
import sympy as sp

from . import model as M
from .model import S, R, P
from .prove import allgates, cond_value, select, use_equalities, numval, rnd, cond_terms, is_zero, equalities

import mpmath as mp


def nm(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    try:
        return str(sp.nsimplify(v)) if isinstance(v, float) else str(sp.expand(sp.sympify(v)))
    except Exception:
        return str(v)


def scalar(v):
    return isinstance(v, (int, sp.Basic)) and not isinstance(v, np.ndarray)


def isbool(v):
    return isinstance(v, (bool, np.bool_))


def zh_sym(x, l, bed):
    a = np.empty((6, 6), dtype=object)
    for i in range(6):
        for j in range(6):
            a[i, j] = R(f'H[{nm(x)};{nm(l)};{nm(bed)}]{i}{j}')
    return a


def zp_sym(x, phi, bed):
    a = np.empty((6, 1), dtype=object)
    for i in range(6):
        a[i, 0] = R(f'P[{nm(x)};{nm(phi)};{nm(bed)}]{i}')
    return a


def truth(it, v):
    """bed flags may be given as 0/1 numbers."""
    if isinstance(v, (int, sp.Integer)) and not isbool(v):
        return bool(v)
    return v


def stub_segments(it):
    def zh(it_, env, node):
        x, l, b = env['x'], env.get('l', 0), truth(it_, env.get('bed', True))
        if not (scalar(x) and scalar(l) and isbool(b)):
            return NotImplemented
        return zh_sym(x, l, b)

    def zp(it_, env, node):
        x, phi, b = env['x'], env['phi'], truth(it_, env.get('bed', True))
        if not (scalar(x) and scalar(phi) and isbool(b)):
            return NotImplemented
        return zp_sym(x, phi, b)
    it.mstubs['zh'] = zh
    it.mstubs['zp'] = zp


def skier(mi, phi):
    return R(f'Fn[{nm(mi)};{nm(phi)}]'), R(f'Ft[{nm(mi)};{nm(phi)}]')


def stub_loads(it):
    def f(it_, env, node):
        a = [v for k, v in env.items() if k != 'self']
        if len(a) != 2:
            return NotImplemented
        m, phi = env.get('m', a[0]), env.get('phi', a[1])
        if isinstance(m, (list, tuple)):
            m = np.array(m, dtype=object)
        if isinstance(m, np.ndarray) and scalar(phi) and all(scalar(v) for v in m.ravel()):
            r = [skier(v, phi) if sp.sympify(v) != 0 else (0, 0) for v in m.ravel()]
            out = [np.empty(m.shape, dtype=object) for _ in range(2)]
            for k in range(2):
                for i, q in zip(np.ndindex(*m.shape), r):
                    out[k][i] = q[k]
            return tuple(out)
        if not all(scalar(v) for v in (m, phi)):
            return NotImplemented
        if sp.sympify(m) == 0:
            return (0, 0)
        return skier(m, phi)
    it.mstubs['get_skier_load'] = f

    def wl(it_, env, node):
        return (R(f"qn[{nm(env['phi'])}]"), R(f"qt[{nm(env['phi'])}]"))

    def sl(it_, env, node):
        return (R(f"pn[{nm(env['phi'])}]"), R(f"pt[{nm(env['phi'])}]"))
    it.mstubs['get_weight_load'] = wl
    it.mstubs['get_surface_load'] = sl

    def sub(it_, env, node):
        return P(f"K[{nm(env['L'])};{env.get('support', 'rested')};{env.get('dof', 'rot')}]")
    it.mstubs['substitute_stiffness'] = sub


def N_(z, m):
    return m['A11'] * z[1] + m['B11'] * z[5]


def M_(z, m):
    return m['B11'] * z[1] + m['D11'] * z[5]


def V_(z, m):
    return m['kA55'] * (z[3] + z[4])


FORMS = [lambda z, m: z[0], lambda z, m: z[2], lambda z, m: z[4], N_, M_, V_]
FNAMES = ['axial displacement', 'deflection', 'rotation', 'normal force', 'moment', 'shear force']


def ends(phi, li, ki):
    """(left zh, right zh, left zp, right zp) of every segment as symbols."""
    out = []
    for l, k in zip(li, ki):
        out.append((zh_sym(0, l, k), zh_sym(l, l, k), zp_sym(0, phi, k), zp_sym(l, phi, k)))
    return out


def lin(forms, Zh, Zp, m, i, n):
    """rows of  form(Zh C_i + Zp)  in the unknowns of all n segments, with constant part."""
    rows = []
    for f in forms:
        r = [0] * (6 * n)
        for j in range(6):
            r[6 * i + j] = f(Zh[:, j], m)
        rows.append((r, f(Zp[:, 0], m)))
    return rows


def interface(e, i, n, m, jump):
    """rows: state left of interface i minus state right of it equals jump."""
    rows = []
    for f, q in zip(FORMS, [0, 0, 0] + list(jump)):
        r = [0] * (6 * n)
        for j in range(6):
            r[6 * (i - 1) + j] = f(e[i - 1][1][:, j], m)
            r[6 * i + j] = -f(e[i][0][:, j], m)
        rows.append(r + [q - f(e[i - 1][3][:, 0], m) + f(e[i][2][:, 0], m)])
    return rows


def end(forms, rhs, e, i, side, n, m):
    """rows: forms(z) = rhs at the left (0) or right (1) end of segment i."""
    rows = []
    for f, q in zip(forms, rhs):
        r = [0] * (6 * n)
        for j in range(6):
            r[6 * i + j] = f(e[i][side][:, j], m)
        rows.append(r + [q - f(e[i][2 + side][:, 0], m)])
    return rows


def code_rows(A, b):
    return [[A[i, j] for j in range(A.shape[1])] + [b[i, 0]] for i in range(A.shape[0])]


def points(exprs, dom, count=2, seed=7, facts=()):
    """(assignment, substitution) covering every combination of gate conditions of the terms."""
    T = sp.Tuple(*[sp.sympify(x) for x in exprs])
    cs = allgates(T, dom)
    syms = set(T.free_symbols)
    for c in cs:
        for t in cond_terms(dom.conds[c]):
            syms |= t.free_symbols
    syms = sorted([s for s in syms if s not in dom.conds], key=str)
    rng = random.Random(seed)
    out = []
    if len(cs) > 6:
        return None
    for vals in itertools.product((True, False), repeat=len(cs)):
        asg = dict(zip(cs, vals))
        got = 0
        for _ in range(60):
            sub = {s: rnd(s, rng) for s in syms}
            # equalities assumed true are solved for one symbol
            for c, v in asg.items():
                for d in equalities(dom.conds[c].key, v):
                    d = sp.sympify(select(d, asg))
                    for s in sorted(d.free_symbols, key=str):
                        try:
                            p = sp.Poly(d, s)
                        except sp.PolynomialError:
                            if s.is_nonzero is not True and d.subs(s, 0) == 0:
                                sub[s] = sp.Integer(0)
                                break
                            continue
                        if p.degree() == 1:
                            sub[s] = (-p.coeff_monomial(1) / p.coeff_monomial(s)).subs(
                                {k2: v2 for k2, v2 in sub.items() if k2 != s})
                            break
            fr = {'rng': rng}
            ok = True
            for c, v in asg.items():
                w = cond_value(dom, dom.conds[c], sub, fr)
                if dom.conds[c].key[0] in ('lt0', 'le0', 'eq0', 'and', 'or', 'not') and w is not None and w != v:
                    ok = False
                    break
            if ok:
                out.append((asg, sub))
                got += 1
                if got >= count:
                    break
    return out


def numeric(rows, asg, sub):
    out = []
    for r in rows:
        o = []
        for x in r:
            x = sp.sympify(x)
            if x == 0:
                o.append(sp.Integer(0))
                continue
            x = select(x, asg)
            v = x.xreplace(sub)
            v = v if v.is_Rational else numval(v, {})
            if v is None:
                return None
            o.append(v)
        out.append(o)
    return out


def proportional(a, b):
    k = None
    for x, y in zip(a, b):
        zx, zy = abs(x) < sp.Float('1e-36'), abs(y) < sp.Float('1e-36')
        if zx != zy:
            return None
        if zx:
            continue
        if k is None:
            k = x / y
        elif abs(x - k * y) > sp.Float('1e-18') * (abs(x) + abs(k * y)):
            return None
    return k if k is not None else sp.Integer(1)


def rank(rows):
    mp.mp.dps = 60
    A = [[mp.mpf(x.p) / x.q if x.is_Rational else mp.mpf(str(x)) for x in r] for r in rows]
    for r in A:
        s = max(abs(x) for x in r)
        if s:
            for j in range(len(r)):
                r[j] /= s
    n, rk, used = len(A[0]), 0, 0
    for c in range(n):
        p = max(range(used, len(A)), key=lambda i: abs(A[i][c]), default=None)
        if p is None or used >= len(A) or abs(A[p][c]) < mp.mpf('1e-36'):
            continue
        A[used], A[p] = A[p], A[used]
        for i in range(used + 1, len(A)):
            f = A[i][c] / A[used][c]
            if f:
                for j in range(c, n):
                    A[i][j] -= f * A[used][j]
        used += 1
    return used


def compare(code, ref, dom):
    """For every reference row: True / False / None; rows may be scaled, reordered or combined."""
    pts = points([x for r in code + ref for x in r], dom)
    if not pts:
        return [None] * len(ref), 'no sample points'
    verdict = [True] * len(ref)
    how = 'row by row'
    for asg, sub in pts:
        c, r = numeric(code, asg, sub), numeric(ref, asg, sub)
        if c is None or r is None:
            return [None] * len(ref), 'terms not evaluable'
        free = list(range(len(c)))
        miss = []
        for i, row in enumerate(r):
            hit = next((j for j in free if proportional(c[j], row) is not None), None)
            if hit is None:
                miss.append(i)
            else:
                free.remove(hit)
        if miss or free:
            if len(c) == len(r) and rank(c) == len(c) == rank(r) == rank(c + r):
                how = 'row space'
                continue
            for i in (miss or range(len(ref))):
                # a row is stated when it lies in the span of the code rows
                if rank(c + [r[i]]) > rank(c):
                    verdict[i] = False
            if all(verdict) and rank(c) > rank(r):
                how = 'additional equations'
                verdict = [False] * len(ref)
            if all(verdict) and len(c) != len(r):
                verdict = [False] * len(ref)
    return verdict, how
