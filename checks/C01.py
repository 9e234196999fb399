"""C01: dimensions and unit conversions are consistent everywhere."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
from fractions import Fraction
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.dom_alg import GATE
from vlib.interp import TOP, NAN, UNB, Gate, Cond, Func, AbsRaise
from vlib.model import S, R, P, flat
from vlib.prove import is_zero, cond_terms
from vlib.harness import main, Broken

RULE = ('Type inference with physical dimensions over the value numbers of an abstract interpretation with symbolic inputs: summands, branches '
        'of joins, both sides of comparisons, rows of linear systems and arguments of elementary functions must agree; no power of ten is left when densities and masses are written in t; arguments of '
        'trigonometric functions carry degrees times pi/180 exactly once; every unit option yields the base result times the exact factor.')

# exponents of (length mm, force N, time s, degree)
ONE, L, F, T, DEG = (0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)


def mul(*ds):
    return tuple(sum(x) for x in zip(*ds))


def pw(d, q):
    return tuple(x * q for x in d)


LINE, STRESS, FND, FL = (-1, 1, 0, 0), (-2, 1, 0, 0), (-3, 1, 0, 0), (1, 1, 0, 0)
MASS = (-1, 1, 2, 0)             # N s^2 / mm = t
RHO = (-4, 1, 2, 0)
STATE = [L, ONE, L, ONE, ONE, (-1, 0, 0, 0)]
NAMES = dict(A11=LINE, B11=F, D11=FL, kA55=LINE, h=L, t=L, kn=FND, kt=FND, g=(1, 0, -2, 0), tc=L, a=L, td=L, L=L, lski=L, zs=L, x=L, l=L, ratio=ONE,
             p=STRESS, cf=ONE, m=MASS, nuw=ONE, Ew=STRESS, phi=DEG, phim=DEG, phiq=DEG, rest=L, xx=L, xq=L, kRot=F, kTrans=STRESS, z0=L, dz=L, Ls=L,
             scale=ONE, ms=MASS, da=L, sc=STRESS, m_=MASS, phi_=DEG, cf_=ONE, ratio_=ONE, a_=L, L_=L)
PAT = [(r'rho\d+$', RHO), (r'h\d+$', L), (r'[EG]\d+$', STRESS), (r'nu\d+$', ONE), (r'l[a-z]?\d+$', L), (r'm[a-z]?\d+$', MASS), (r'x\d+\w*$', L),
       (r'ev_\w+_[abr]\d+$', (-1, 0, 0, 0)), (r'[CDU][01]?\d*_\d+$', ONE), (r'C[01]?_\d+$', ONE), (r'str\[', STRESS),
       (r'(?:Sxx|Txz|Szz|principal_stress_slab)\d+_\d+$', STRESS), (r'(?:pw|s)\d+$', STRESS), (r'k\[.*;rot\]$', F), (r'k\[.*;trans\]$', STRESS), (r'[qp][nt]$', STRESS), (r'F[nt]$', LINE), (r'G\d+_\d+$', LINE), (r'[HG]\d_\d+$', LINE)]


def name_dim(n):
    if n in NAMES:
        return NAMES[n]
    m = re.match(r'v_\w+_\D+\d+_(\d)$', n)      # component of an eigenvector (columns are scaled arbitrarily)
    if m:
        return STATE[int(m.group(1))]
    m = re.match(r'(?:Z|z\w*?)(du|dw|dpsi|u|w|psi)\d+$', n)
    if m:
        return STATE[['u', 'du', 'w', 'dw', 'psi', 'dpsi'].index(m.group(1))]
    m = re.match(r'Z<.*>(\d)$', n)
    if m:
        return STATE[int(m.group(1))]
    for p, d in PAT:
        if re.match(p, n):
            return d
    return None


class Mixed(Exception):
    pass


class Unknown(Exception):
    pass


class Dims:
    literals = False

    def __init__(self, dom, extra=None):
        self.dom, self.memo, self.extra, self.agg = dom, {}, extra or {}, {}

    def of(self, e):
        """Dimension of a term (None for a term that is zero); raises Mixed / Unknown."""
        if isinstance(e, (bool, np.bool_)):
            return ONE
        if isinstance(e, (int, float)):
            return None if e == 0 else ONE
        if not isinstance(e, sp.Basic):
            raise Unknown(str(e)[:80])
        if e in self.memo:
            r = self.memo[e]
        else:
            try:
                r = self._of(e)
            except (Mixed, Unknown) as x:
                r = x
            self.memo[e] = r
        if isinstance(r, Exception):
            raise r
        return r

    def agree(self, es, what):
        out = None
        unk = None
        for a in es:
            try:
                d = self.of(a)
            except Unknown as x:
                unk = x
                continue
            if d is None:
                continue
            if out is None:
                out, first = d, a
            elif d != out:
                raise Mixed(f'{what}: {show(out)} of {str(first)[:120]} with {show(d)} of {str(a)[:120]}')
        if unk:
            raise unk
        return out

    def _of(self, e):
        if e.is_zero and e.is_number:
            return None
        if e.is_number:
            return ONE
        if e.is_Symbol:
            if e.name in self.agg:
                return self.agree(self.agg[e.name], 'extremum of')
            d = self.extra.get(e.name) or name_dim(e.name)
            if d is None:
                raise Unknown(f'symbol {e}')
            if isinstance(d, str):
                raise Unknown(d)
            return d
        if e.is_Add:
            # margins of drawings are literal lengths
            return self.agree([a for a in e.args if not (self.literals and a.is_number)], 'adds')
        if e.is_Mul:
            ds = [self.of(a) for a in e.args]
            return None if None in ds else mul(*ds)
        if isinstance(e, GATE):
            return self.agree(e.args[1:], 'joins')
        if e.is_Pow:
            d, x = self.of(e.base), self.of(e.exp)
            if x not in (None, ONE):
                raise Mixed(f'exponent {e.exp} has dimension {show(x)}')
            if d in (None, ONE):
                return ONE
            if not e.exp.is_Rational:
                raise Mixed(f'power {str(e)[:160]} of a quantity with dimension {show(d)}')
            return pw(d, Fraction(int(e.exp.p), int(e.exp.q)))
        f = e.func.__name__
        if f in ('sin', 'cos', 'tan', 'cot', 'sec', 'csc'):
            d = self.of(e.args[0])
            if d == DEG:
                for c, s in coeffs(e.args[0]):
                    q = sp.nsimplify(c / sp.pi) if not c.is_Rational else None
                    if q is None or not q.is_Rational or (q * 180).q not in (1, 2):
                        raise Mixed(f'argument of {f} is {str(e.args[0])[:120]}: degrees are not converted exactly once')
            elif d in (None, ONE):
                if any(not c.is_Rational and not c.is_number or c.has(sp.pi) for c, s in coeffs(e.args[0]) if s != 1):
                    raise Mixed(f'argument of {f} is {str(e.args[0])[:120]}: radians are converted again')
            else:
                raise Mixed(f'argument of {f} has dimension {show(d)}: {str(e.args[0])[:120]}')
            return ONE
        if f in ('exp', 'log', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan'):
            d = self.of(e.args[0])
            if d not in (None, ONE):
                raise Mixed(f'argument of {f} has dimension {show(d)}: {str(e.args[0])[:160]}')
            return ONE
        if f in ('Max', 'Min', 'atan2'):
            d = self.agree(e.args, f)
            return d if f != 'atan2' else ONE
        if f in ('Abs', 're', 'im', 'conjugate'):
            return self.of(e.args[0])
        if f == 'sign':
            self.of(e.args[0])
            return ONE
        if f in ('floor', 'ceiling', 'round'):
            return self.of(e.args[0])
        raise Unknown(f'function {f}')

    def cond(self, c):
        for t in cond_terms(c):
            t = sp.sympify(t)      # literal limits have the dimension of what they limit
            if t.is_Add:
                t = sp.Add(*[a for a in t.args if not a.is_number])
            try:
                self.of(t)
            except Mixed as x:
                raise Mixed(f'compares: {x}') from None


class Grading:
    """Unknown dimensions of rows and columns of a matrix, from its entries."""

    def __init__(self):
        self.up = {}

    def find(self, k):
        """(root, dimension of k relative to the root)"""
        if k not in self.up:
            self.up[k] = (k, ONE)
        p, d = self.up[k]
        if p == k:
            return p, d
        r, q = self.find(p)
        self.up[k] = (r, mul(d, q))
        return self.up[k]

    def relate(self, a, b, d):
        """dim(a) = dim(b) * d"""
        (ra, da), (rb, db) = self.find(a), self.find(b)
        if ra == rb:
            return da == mul(db, d)
        self.up[ra] = (rb, mul(db, d, pw(da, -1)))
        return True


def coeffs(e):
    """(numeric coefficient, rest) of every summand."""
    out = []
    for a in sp.Add.make_args(sp.expand(e)):
        c, r = a.as_coeff_Mul()
        nums = [q for q in sp.Mul.make_args(r) if q.is_number]
        for q in nums:
            c, r = c * q, r / q
        out.append((sp.sympify(c), r))
    return out


def show(d):
    if d is None:
        return 'zero'
    return ' '.join(f'{n}^{x}' for n, x in zip(('mm', 'N', 's', 'deg'), d) if x) or '1'


def setup(it):
    """Material laws and counts as symbols of known dimension."""
    D.ceil2(it)
    n = itertools.count()
    reg = {}

    def modulus(it_, env, node):
        v = env.get('rho')
        xs = v.ravel().tolist() if isinstance(v, np.ndarray) else None
        u = env.get('unit', 'MPa')
        if u not in ('MPa', 'kPa'):
            return NotImplemented
        mk = lambda q: FACTOR[u] * P(f'str[{str(q)[:200]}]')
        return np.array([mk(q) for q in xs], dtype=object) if xs is not None else mk(v)
    for f in ('bergfeld', 'scapozza', 'gerling', 'tensile_strength_slab'):
        it.stubs[it.get('weac.tools.' + f).qual] = modulus
    dom = it.dom
    old_i, old_r = dom.integral, dom.root

    def integral(y, x, a, b):
        s = old_i(y, x, a, b)
        reg[str(s)] = ('int', y, x, a, b)
        return s

    def root(y, x, *rest):
        s = old_r(y, x, *rest)
        reg[str(s)] = ('root', y, x) + rest
        return s
    old_f = dom.func

    def func(nm, *args):
        s = old_f(nm, *args)
        if isinstance(s, sp.Symbol) and nm in ('max', 'min'):
            reg[str(s)] = (nm, args)
        return s
    dom.integral, dom.root, dom.func = integral, root, func
    return reg


def stray(e):
    """Powers of ten left in a term whose densities (kg/m^3) and masses (kg) are written in t and mm."""
    sub = {s: sp.Integer(10)**12 * s for s in e.free_symbols if name_dim(s.name) == RHO}
    sub.update({s: 1000 * s for s in e.free_symbols if name_dim(s.name) == MASS})
    e = e.xreplace(sub)
    return [q for q in e.atoms(sp.Rational) if q != 0 and abs(v5(q.p) - v5(q.q)) >= 3]


def v5(n):
    k = 0
    while n % 5 == 0:
        n, k = n // 5, k + 1
    return k


class Ctx:
    """Judges terms of one interpretation."""

    def __init__(self, ck, it, reg, tag, where):
        self.ck, self.it, self.reg, self.tag, self.where = ck, it, reg, tag, where
        self.d = Dims(it.dom)
        for k, v in reg.items():
            if v[0] in ('max', 'min'):
                self.d.agg[k] = v[1]
                continue
            try:
                if v[0] == 'int':
                    self.d.extra.setdefault(str(v[2]), L)
                    a = self.d.of(v[1])
                    self.d.extra[k] = mul(a, L) if a else ONE
                else:
                    self.d.extra.setdefault(str(v[2]), L)
                    self.d.extra[k] = L
            except (Mixed, Unknown):
                self.d.extra[k] = 'opaque'

    def judge(self, e, want=None, scale=False):
        """True / False / None and explanation for one leaf."""
        if e is NAN or e is UNB or isinstance(e, (str, bool, np.bool_, type(None))):
            return True, ''
        if isinstance(e, Gate):
            a = [self.judge(x, want, scale) for x in (e.a, e.b)]
            return D.conj(q for q, _ in a), '; '.join(x for _, x in a if x)
        if isinstance(e, Cond):
            try:
                self.d.cond(e)
                return True, ''
            except Mixed as x:
                return False, str(x)
            except Unknown as x:
                return None, str(x)
        if e is TOP or not isinstance(e, (int, float, sp.Basic)):
            return None, str(e)[:80]
        try:
            d = self.d.of(e)
        except Mixed as x:
            return False, str(x)
        except Unknown as x:
            return None, str(x)
        if scale and isinstance(e, sp.Basic):
            q = stray(e)
            if q:
                return False, f'factor {q[0]} is left over after conversion of density and mass to t: {str(e)[:160]}'
        if want is not None and d is not None and d != want:
            return False, f'dimension {show(d)} instead of {show(want)}: {str(e)[:160]}'
        return True, ''

    def leaves(self, rule, construct, ls, want=None, scale=False):
        vs = [self.judge(e, want, scale) for e in ls]
        self.ck.obl(rule, construct, D.conj(v for v, _ in vs), '; '.join(x for v, x in vs if v is not True and x)[:400], where=self.where)

    def conds(self):
        """Comparisons made on the way."""
        vs = [self.judge(c) for c in list(self.it.dom.conds.values())]
        if vs:
            self.ck.obl('comparisons are between equal dimensions', self.tag, D.conj(v for v, _ in vs),
                        '; '.join(x for v, x in vs if v is not True and x)[:400], where=self.where)


def leaves(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        return [q for x in v for q in leaves(x)]
    if isinstance(v, np.ndarray):
        return [q for x in v.ravel().tolist() for q in leaves(x)]
    return [v]


# dimension of results; a list gives one per row, None no common dimension
RES = dict(w=L, dw_dx=ONE, psi=ONE, dpsi_dx=(-1, 0, 0, 0), u=L, du_dx=ONE, N=LINE, M=F, V=LINE, sig=STRESS, tau=STRESS, eps=ONE, gamma=ONE, Gi=LINE,
           Gii=LINE, gdif=LINE, ginc=LINE, int1=LINE, int2=LINE, Sxx=STRESS, Txz=STRESS, Szz=STRESS, principal_stress_slab=STRESS,
           principal_stress_weaklayer=STRESS, get_weight_load=STRESS, get_surface_load=STRESS, get_skier_load=LINE, calc_qn=STRESS, calc_qt=STRESS,
           z=STATE, zp=STATE, zh=STATE, get_load_vector=[mul(d, (-1, 0, 0, 0)) for d in STATE], du0_dxdx=(-1, 0, 0, 0), du0_dxdxdx=(-2, 0, 0, 0),
           dpsi_dxdx=(-2, 0, 0, 0), dpsi_dxdxdx=(-3, 0, 0, 0), dz_dx=[mul(d, (-1, 0, 0, 0)) for d in STATE],
           dz_dxdx=[mul(d, (-2, 0, 0, 0)) for d in STATE], get_ply_coordinates=L, calc_a1=L, calc_a2=L, calc_lA=L, calc_lB=L, calc_lC=L,
           internal_potential=F, external_potential=F, total_potential=F)
COORD = ('rasterize_solution', 'get_slab_', 'get_weaklayer_')
GET = dict(get_slab_displacement=L, get_slab_deflection=L, get_slab_rotation=ONE, get_weaklayer_normalstress=STRESS, get_weaklayer_shearstress=STRESS)
FACTOR = {'m': sp.Rational(1, 1000), 'cm': sp.Rational(1, 10), 'mm': 1, 'um': 1000, 'MPa': 1, 'kPa': 1000, 'rad': 1, 'radians': 1, 'radian': 1,
          'deg': 180 / sp.pi, 'degree': 180 / sp.pi, 'degrees': 180 / sp.pi, 'N/mm': 1, 'kJ/m^2': 1, 'J/m^2': 1000}
BASEUNIT = {'m': 'mm', 'cm': 'mm', 'mm': 'mm', 'um': 'mm', 'MPa': 'MPa', 'kPa': 'MPa', 'N/mm': 'N/mm', 'kJ/m^2': 'N/mm', 'J/m^2': 'N/mm'}


def base(u):
    return BASEUNIT.get(u, 'rad')


ENERGY = ('internal_potential', 'external_potential', 'total_potential')


def run(name, system, mode, opts, order=0):
    it = M.interp(eig_order=order)
    reg = setup(it)

    def quad(it_, args, kwargs, node):
        v = it_.call(args[0], [sp.Symbol('xq', real=True)], {}, node)
        v = v.ravel()[0] if isinstance(v, np.ndarray) else v
        return (v * (args[2] - args[1]), 0)
    it.ext['scipy.integrate.quad'] = quad
    m = D.ready(it, system, mode, n=2)
    m.attrs['lski'] = P('lski')
    if name in ENERGY + ('bc', 'eqs', 'assemble_and_solve'):
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P(f"k[{asm.nm(env['L'])};{env.get('support')};{env.get('dof', 'rot')}]")
    if name in ENERGY + ('gdif', 'ginc', 'rasterize_solution', 'int1', 'int2'):
        def z(it_, env, node):
            c, x = env['C'], env['x']
            xs = x.ravel().tolist() if isinstance(x, np.ndarray) else [x]
            out = np.empty((6, len(xs)), dtype=object)
            for j, v in enumerate(xs):
                out[:, j] = [R(f"Z<{c.ravel()[0]};{asm.nm(v)};{asm.nm(env['l'])};{asm.nm(env['phi'])};{asm.nm(env['bed'])}>{q}") for q in range(6)]
            return out
        it.mstubs['z'] = z
    it.c01model = m
    if name == 'principal_stress_slab':
        def comp(nm):
            def st(it_, env, node):
                if env['unit'] not in ('MPa', 'kPa'):
                    return NotImplemented
                k = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
                return FACTOR[env['unit']] * np.array([[R(f"str[{nm}{i};{asm.nm(env['phi'])}]")] for i in range(k)], dtype=object)
            return st
        for nm in ('Sxx', 'Txz', 'Szz'):
            it.mstubs[nm] = comp(nm)
    f = it.getattr(m, name)
    kw = D.arguments(it, m, name, f.func, system, opts=opts, cols=3 if name.startswith('get_') else 1)
    ps = D.params(f.func)[0]
    if 'sc' in ps and 'sc' not in kw:
        kw['sc'] = P('sc')
    if 'm' in ps and name == 'get_skier_load':
        kw['m'] = P('ms')
    r = it.call(f, [], dict(kw), None)
    return it, reg, r


def method(ck, name, system, mode, opts, tag):
    with ck.guard('result is dimensionally homogeneous', tag):
        try:
            it, reg, r = run(name, system, mode, opts)
        except (D.Skip, AbsRaise):
            return
        ck.saw(it)
        c = Ctx(ck, it, reg, tag, name)
        rule = 'result is dimensionally homogeneous'
        if name == 'z' and opts.get('bed') is False:
            H = it.call(it.getattr(it.c01model, 'zh'), [R('x'), S.l], dict(bed=False), None)
            for j in range(6):
                for i in range(6):
                    try:
                        d = c.d.of(H[i, j])
                    except (Mixed, Unknown):
                        continue
                    if d is not None:
                        c.d.extra[f'C{j}_0'] = mul(STATE[i], pw(d, -1))
                        break
            c.d.memo.clear()
        if name.startswith(COORD) and isinstance(r, tuple):
            c.leaves(rule, tag + ' coordinates', leaves(r[0]), L)
            scale_of_coordinates(ck, it, name, tag, leaves(r[0]))
            if name in GET:
                c.leaves(rule, tag, leaves(r[1]), GET[name], scale=True)
            else:
                for i in range(6):
                    c.leaves(rule, f'{tag} component {i}', leaves(r[1][i]), STATE[i])
        elif name == 'zh':
            gr = Grading()
            for i in range(6):
                v, w = True, ''
                for j in range(6):
                    try:
                        d = c.d.of(r[i, j])
                    except Mixed as x:
                        v, w = False, str(x)
                        break
                    except Unknown as x:
                        v, w = None, str(x)
                        continue
                    if d is not None and not gr.relate('state', j, mul(d, pw(STATE[i], -1))):
                        v, w = False, f'entry {i},{j} = {str(r[i, j])[:160]} has dimension {show(d)}'
                        break
                ck.obl(rule, f'{tag} component {i}', v, w, where=name)
        elif isinstance(RES.get(name), list) and isinstance(r, np.ndarray):
            for i, w in enumerate(RES[name]):
                c.leaves(rule, f'{tag} component {i}', leaves(r[i]), w, scale=True)
        elif name in ('bc', 'eqs'):
            for i, row in enumerate(r if isinstance(r, (np.ndarray, list, tuple)) else []):
                c.leaves(rule, f'{tag} row {i}', leaves(row))
        else:
            want = RES.get(name)
            if opts.get('normalize'):
                want = ONE
            c.leaves(rule, tag, leaves(r), want, scale=want not in (None, ONE))
        c.conds()


def scale_of_coordinates(ck, it, name, tag, xs):
    """Coordinates are returned in the unit the documentation gives (input is in mm)."""
    doc = re.findall(r'^\s*x\w* : [^\n]*\n[^:]*?coordinates[^:]*?\((m|cm|mm|um)\)', D.returns_doc(D.public(it.c01model.cls)[name]), re.M)
    if not doc:
        return
    f = sp.nsimplify(FACTOR[doc[0]])
    vs, bad = [], ''
    for e in xs:
        if e is NAN or isinstance(e, (int, float)):
            continue
        if not isinstance(e, sp.Basic) or len(e.free_symbols) != 1:
            vs.append(None)
            continue
        v = is_zero(e - f * next(iter(e.free_symbols)), it.dom)
        vs.append(v)
        if v is False:
            bad = f'{e} where {doc[0]} are documented for input in mm'
    ck.obl('coordinates have the documented unit', tag, D.conj(vs), bad, where=name)


def conversion(ck, name, system, mode, opts, unit, tag):
    rule = 'unit option is the exact factor'
    with ck.guard(rule, tag):
        b = base(unit)
        try:
            it, _, r = run(name, system, mode, dict(opts, unit=unit))
            it2, _, r2 = run(name, system, mode, dict(opts, unit=b))
        except D.Skip:
            return
        except AbsRaise as e:
            ck.obl(rule, tag, None, f'raises {e.exc}', where=name)
            return
        ck.saw(it)
        f = FACTOR[unit] / FACTOR[b]
        if opts.get('normalize'):
            f = 1
        if name.startswith('get_'):
            r, r2 = r[1], r2[1]
        a, c = leaves(r), leaves(r2)
        v = len(a) == len(c)
        bad = ''
        if v:
            it.dom.conds.update({k: q for k, q in it2.dom.conds.items() if k not in it.dom.conds})
            vs = [True if x is y is NAN else None if x is TOP or isinstance(x, Gate) or isinstance(y, Gate)
                  else is_zero(sp.sympify(x) - f * sp.sympify(y), it.dom, opaque=True) for x, y in zip(a, c)]
            v = D.conj(vs)
            bad = '; '.join(f'{str(x)[:120]} instead of {str(f * y)[:120]}' for x, y, q in zip(a, c, vs) if q is False)[:300]
        ck.obl(rule, tag, v, bad, where=name)


def eigen(ck, n):
    with ck.guard('stiffness terms', f'{n} layers'):
        it = M.interp()
        reg = setup(it)
        m = D.ready(it, 'pst-', 'A', n=n, abstract=False)
        m.attrs['slab'] = M.slabmat(n)
        m.attrs['weak'] = {'nu': P('nuw'), 'E': P('Ew')}
        m.attrs['t'] = S.t
        M.call(it, m, 'calc_fundamental_system')
        ck.saw(it)
        K = [e for e in it.events if e['kind'] == 'eig']
        if not K:
            raise Broken('no eigenproblem is solved')
        c = Ctx(ck, it, reg, f'{n} layers', 'calc_fundamental_system')
        k = K[-1]['K']
        for i in range(6):
            for j in range(6):
                want = mul(STATE[i], pw(STATE[j], -1), (-1, 0, 0, 0))
                c.leaves('system matrix is dimensionally homogeneous', f'{n} layers entry {i},{j}', [k[i, j]], want)
        for a in ('A11', 'B11', 'D11', 'kA55', 'kn', 'kt', 'h', 'zs'):
            if a in m.attrs:
                c.leaves('stored quantity has its documented dimension', f'{n} layers {a}', leaves(m.attrs[a]), NAMES[a])
        if 'K0' in m.attrs:
            c.leaves('stored quantity has its documented dimension', f'{n} layers K0', leaves(m.attrs['K0']), (0, 2, 0, 0))
        c.conds()


def setter(ck):
    """Setters with symbolic input."""
    with ck.guard('stored quantity has its documented dimension', 'setters'):
        it = M.interp()
        reg = setup(it)
        m = M.new(it, system='pst-')
        M.call(it, m, 'set_foundation_properties', t=P('t'), E=P('Ew'), nu=P('nuw'), update=True)
        M.call(it, m, 'set_beam_properties', layers=[[P('rho0'), P('h0')], [P('rho1'), P('h1')]], nu=P('nu0'), update=True)
        ck.saw(it)
        c = Ctx(ck, it, reg, 'setters', 'set_beam_properties')
        for a in ('A11', 'B11', 'D11', 'kA55', 'kn', 'kt', 'h', 'zs', 't'):
            c.leaves('stored quantity has its documented dimension', f'setters {a}', leaves(m.attrs[a]), NAMES[a])
        slab = m.attrs['slab']
        for j, (n, d) in enumerate((('density', RHO), ('thickness', L), ("Young's modulus", STRESS), ('shear modulus', STRESS), ("Poisson's ratio", ONE))):
            c.leaves('stored quantity has its documented dimension', f'slab column {n}', leaves(slab[:, j]), d)
        c.conds()


def system(ck, sysname, mode, ki):
    tag = f"{sysname} mode {mode} ki={''.join('TF'[not k] for k in ki)}"
    with ck.guard('linear system', tag):
        it = M.interp()
        reg = setup(it)
        m = M.model(it, system=sysname if sysname in M.SYS else 'pst-')
        m.attrs.update(system=sysname, mode=mode, tc=S.tc, a=S.td + P('rest'), td=S.td, phi=D.PHI, touchdown=mode != 'A', slab=M.slabmat(2),
                       lski=P('lski'))
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P(f"k[{asm.nm(env['L'])};{env.get('support')};{env.get('dof', 'rot')}]")
        n = len(ki)
        li = [P(f'l{i}') for i in range(n)]
        phi = sp.Integer(0) if sysname in ('rot', 'trans') else D.PHI
        M.call(it, m, 'assemble_and_solve', phi, M.arr(li), M.arr([P(f'm{i}') for i in range(n - 1)]), np.array(ki, dtype=object))
        ck.saw(it)
        ev = [e for e in it.events if e['kind'] == 'solve']
        if not ev:
            raise Broken('no linear system is solved')
        A, b = ev[-1]['A'], ev[-1]['b']
        c = Ctx(ck, it, reg, tag, 'assemble_and_solve')
        unit = sysname in ('rot', 'trans')     # a unit load without dimension acts here
        gr = Grading()
        for r in range(A.shape[0]):
            v, w = True, ''
            for j in list(range(A.shape[1])) + ['b']:
                e = b[r, 0] if j == 'b' else A[r, j]
                if j == 'b' and unit and not sp.sympify(e).free_symbols:
                    continue
                try:
                    d = c.d.of(e)
                except Mixed as x:
                    v, w = False, str(x)
                    break
                except Unknown as x:
                    v, w = None, str(x)
                    continue
                q = stray(sp.sympify(e))
                if q:
                    v, w = False, f'factor {q[0]} is left over after conversion of density and mass to t: {str(e)[:160]}'
                    break
                if d is not None and not gr.relate(('row', r), j, d):
                    v, w = False, f'coefficient {j} = {str(e)[:160]} has dimension {show(d)}, at odds with the other rows'
                    break
            ck.obl('equations are dimensionally homogeneous', f'{tag} row {r}', v, w, where='assemble_and_solve')
        c.conds()


def searches(ck, sysname, name):
    tag = f'{name} [{sysname}]'
    with ck.guard('searched function is dimensionally homogeneous', tag):
        it = M.interp()
        reg = setup(it)
        m = D.ready(it, sysname, 'A', touchdown=True)
        m.attrs['phi'] = D.PHI
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P(f"k[{asm.nm(env['L'])};{env['support']};{env['dof']}]")
        r = M.call(it, m, name)
        ck.saw(it)
        c = Ctx(ck, it, reg, tag, name)
        for e in it.events:
            if e['kind'] == 'brentq':
                c.d.extra[str(e['var'])] = L
                c.leaves('searched function is dimensionally homogeneous', tag, [e['f']])
                for q in 'ab':
                    if not (isinstance(e[q], (int, float)) or sp.sympify(e[q]).is_number):
                        c.leaves('searched function is dimensionally homogeneous', f'{tag} bound {q}', [e[q]], L)
        c.leaves('result is dimensionally homogeneous', tag, leaves(r), L)
        c.conds()


def springs(ck, support, dof):
    tag = f'substitute_stiffness({support}, {dof})'
    with ck.guard('result is dimensionally homogeneous', tag):
        it = M.interp()
        reg = setup(it)
        m = D.ready(it, 'pst-', 'A', touchdown=True)
        it.mstubs['assemble_and_solve'] = lambda it_, env, node: D.consts(2, 'U')
        k = M.call(it, m, 'substitute_stiffness', P('Ls'), support, dof)
        ck.saw(it)
        c = Ctx(ck, it, reg, tag, 'substitute_stiffness')
        # the reciprocal response to a unit load
        c.leaves('result is dimensionally homogeneous', tag, leaves(k), ONE if dof == 'rot' else (-1, 0, 0, 0))
        c.conds()


def layout(ck, sysname, td):
    tag = f'layout {sysname}{" touchdown" if td else ""}'
    with ck.guard('layout', tag):
        it = M.interp()
        reg = setup(it)
        it.mstubs['substitute_stiffness'] = lambda it_, env, node: P(f"k[{asm.nm(env['L'])};{env['support']};{env['dof']}]")
        m = D.ready(it, sysname, 'A')
        m.attrs['touchdown'] = td
        kw = dict(L=P('L'), a=P('a'), m=P('m'), phi=D.PHI, cf=P('cf'), ratio=P('ratio'))
        if sysname == 'skiers':
            kw.update(li=D.lens(3), mi=[P('m0'), P('m1')], ki=[True, False, True], k0=[True] * 3)
        seg = M.call(it, m, 'calc_segments', **kw)
        ck.saw(it)
        c = Ctx(ck, it, reg, tag, 'calc_segments')
        for k in seg:
            for q, d in (('li', L), ('mi', MASS)):
                if isinstance(seg[k], dict) and q in seg[k]:
                    c.leaves('layout has lengths and masses', f'{tag} {k} {q}', leaves(seg[k][q]), d)
        for a in ('tc', 'a', 'td', 'L', 'h', 't'):
            if a in m.attrs and m.attrs[a] is not False:
                c.leaves('stored quantity has its documented dimension', f'{tag} {a}', leaves(m.attrs[a]), L)
        for a in ('ratio', 'betaU', 'betaC'):
            if a in m.attrs and m.attrs[a] is not False and a != 'ratio':
                c.leaves('stored quantity has its documented dimension', f'{tag} {a}', leaves(m.attrs[a]))
        c.conds()


DRAW = ('.plot', '.contourf', '.contour', '.pcolormesh', '.fill', '.fill_betweenx', '.fill_between', '.scatter', '.bar', '.barh', '.axvspan', '.axhspan',
        '.axvline', '.axhline', '.imshow', '.stem', '.step', '.hlines', '.vlines')


def plot(ck, name, sysname, opts):
    tag = f"plot.{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{sysname}]"
    rule = 'drawn data are dimensionally homogeneous'
    with ck.guard(rule, tag):
        it = M.interp()
        reg = setup(it)
        D.stub_stress(it)
        pc = D.PlotCase(it, sysname, 4 if name == 'deformed' else 130)
        e0 = len(it.events)
        it.call(it.get('weac.plot.' + name), [], dict(D.PLOTS[name](pc), **opts), None)
        ck.saw(it)
        c = Ctx(ck, it, reg, tag, 'plot.' + name)
        c.d.literals = True
        n = 0
        for e in it.events[e0:]:
            if e['kind'] != 'ext_call' or not e['path'].endswith(DRAW):
                continue
            for k, a in list(enumerate(e['args'])) + list(e['kwargs'].items()):
                if not isinstance(a, np.ndarray) or not any(isinstance(q, sp.Basic) for q in a.ravel().tolist()):
                    continue
                n += 1
                v, w = True, ''
                try:
                    xs = [q for q in a.ravel().tolist() if isinstance(q, (int, float, sp.Basic)) and q is not NAN]
                    c.d.agree(xs, 'array holds')
                except Mixed as x:
                    v, w = False, str(x)
                except Unknown as x:
                    v, w = None, str(x)
                ck.obl(rule, f"{tag}: {e['path'].rpartition('.')[2]} {n} argument {k}", v, w, where='plot.' + name)
        c.conds()


def tools(ck):
    with ck.guard('result is dimensionally homogeneous', 'tools'):
        it = M.interp()
        reg = setup(it)
        H, zs = M.fun(it, 'weac.tools.calc_center_of_gravity', np.array([[P('rho0'), P('h0')], [P('rho1'), P('h1')]], dtype=object))
        xs, zw, w = M.fun(it, 'weac.tools.calc_vertical_bc_center_of_gravity', M.slabmat(2), D.PHI)
        ck.saw(it)
        c = Ctx(ck, it, reg, 'tools', 'weac/tools.py')
        rule = 'result is dimensionally homogeneous'
        c.leaves(rule, 'calc_center_of_gravity thickness', [H], L)
        c.leaves(rule, 'calc_center_of_gravity coordinate', [zs], L)
        c.leaves(rule, 'vertical face xs', [xs], L)
        c.leaves(rule, 'vertical face zs', [zw], L)
        c.leaves(rule, 'vertical face weight', [w], mul(MASS, (-1, 0, 0, 0)), scale=True)
        c.conds()
    for f in ('scapozza', 'gerling', 'bergfeld'):
        with ck.guard('modulus and strength', f):
            it = M.interp()
            r = M.fun(it, 'weac.tools.' + f, P('rho'))


def check(ck):
    it = M.interp()
    cls = it.get('weac.layered.Layered')
    names = D.public(cls)
    missing = [n for n in ('Gi', 'w', 'assemble_and_solve', 'gdif', 'zp') if n not in names]
    if missing:
        raise Broken(f'public methods not found: {missing}')
    tasks = [(eigen, 1), (eigen, 2), (setter,), (tools,)]
    if ck.thorough:
        tasks.append((eigen, 3))
    states = [('pst-', 'A'), ('-pst', 'B'), ('pst-', 'C'), ('skiers', 'A'), ('vpst-', 'A'), ('-vpst', 'A')]
    skip = {'substitute_stiffness', 'assemble_and_solve', 'calc_segments', 'calc_a1', 'calc_a2', 'calc_lC', 'calc_fundamental_system', 'calc_eigensystem'}
    for name, f in sorted(names.items()):
        if name in skip or name.startswith('set_') or name not in RES and not name.startswith(COORD) and name not in ('bc', 'eqs', 'get_zmesh'):
            continue
        ps, dflt, _, _ = D.params(f)
        sysdep = {'C', 'C0', 'li', 'pos'} & set(ps) or name in ('bc', 'eqs')
        doc = D.doc_options(f)
        for sysname, mode in states if sysdep else states[:1]:
            sets = [o for o in D.option_sets(f, {'val': ('min', 'max'), 'pos': ('l', 'mid', 'r')}) if not ({'unit'} & set(o))]
            for opts in sets:
                tag = f"{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{sysname} {mode}]"
                o = dict(opts)
                if 'unit' in ps:
                    us = doc.get('unit', [])
                    o['unit'] = base(us[0]) if us else 'MPa'
                tasks.append((method, name, sysname, mode, o, tag))
                if 'unit' in ps and (sysname, mode) in states[:1]:
                    for u in doc.get('unit', []):
                        if u in FACTOR and u != base(u):
                            tasks.append((conversion, name, sysname, mode, opts, u, f"{name}({', '.join(f'{k}={v}' for k, v in dict(opts, unit=u).items())})"))
    for s in M.SYS + ['rot', 'trans']:
        for n in range(1, 4 if ck.thorough else 3):
            for ki in itertools.product((True, False), repeat=n):
                if not any(ki) or s in ('rot', 'trans') and not all(ki) or s.startswith('ski') and not (ki[0] and ki[-1]):
                    continue
                for mode in 'ABC':
                    if mode == 'A' or s in ('pst-', '-pst'):
                        tasks.append((system, s, mode, ki))
    tasks += [(system, 'skier', 'A', (True, False, False, True)), (system, 'skiers', 'A', (True, False, True))]
    tasks += [(searches, s, f) for s in ('pst-', '-pst') for f in ('calc_a1', 'calc_a2', 'calc_lC')]
    tasks += [(springs, s, d) for s in ('rested', 'supported') for d in ('rot', 'trans')]
    tasks += [(layout, s, td) for s in M.SYS for td in (False, True)]
    for name in D.PLOTS:
        if name.startswith('fea') or name.startswith('err') or name == 'plot_data':
            continue      # user data: labelled, not computed here (C21)
        for sysname in ('pst-', 'skiers') if 'seg' not in name else ('pst-',):
            for opts in D.PLOT_OPTS.get(name, [{}]):
                tasks.append((plot, name, sysname, opts))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C01', RULE, check, minimum=300, assumptions=['numeric literals are pure numbers', 'per unit width: line quantities are per mm of width'])
