"""C21: rasterised output is aligned, complete and masked correctly."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D, asm
from vlib.interp import NAN, TOP, Gate
from vlib.model import S, R, P, flat
from vlib.prove import is_zero
from vlib.harness import main

RULE = ('Abstract interpretation of the rasterisation with uninterpreted segment functions for every foundation pattern, pattern of '
        'zero-length segments and unequal point counts: each grid column must be the superposition for the segment containing the point '
        '(its constants, length, local coordinate and flag); coordinates, masks and output lists are compared entry by entry, as are the '
        'coordinates handed to the plots.')
COUNTS = [(2, 2, 2, 2, 2, 2), (1, 3, 2, 1, 2, 3), (3, 1, 1, 2, 1, 1)]


def ceil_counts(it, counts):
    """np.ceil of the points per segment: fixed, unequal numbers."""
    def ceil(it_, args, kwargs, node):
        v = args[0]
        if isinstance(v, np.ndarray):
            return np.array(list(counts[:v.size]), dtype=object).reshape(v.shape)
        return TOP if v is TOP else counts[0]
    it.ext['numpy.ceil'] = ceil
    it.ext['math.ceil'] = ceil


def isnan(v):
    return v is NAN


def raster(ck, n, ki, zero, counts, num, same=None, real=None):
    flags = ''.join('T' if k else 'F' for k in ki)
    tag = f'{flags} zero-length {[i for i in range(n) if zero[i]]} counts {counts[:n]}' + (f' lengths {same}' if same else '') + (
        f" lengths {', '.join(map(str, real))} num={num}" if real else '')
    same = same or tuple(range(n))
    phi = R('phi')
    with ck.guard('rasterisation succeeds', tag, on_raise=False):
        it = M.interp()
        if not real:
            ceil_counts(it, counts)
        m = M.model(it)
        asm.stub_segments(it)
        asm.stub_loads(it)
        l = [sp.Integer(0) if zero[i] else real[i] if real else P(f'l{same[i]}') for i in range(n)]
        C = D.consts(n)
        kw = {} if num is None else dict(num=num)
        x, z, xb = M.call(it, m, 'rasterize_solution', C=C, phi=phi, li=M.arr(l), ki=D.boolarr(ki), mi=M.arr([0] * (n - 1)), **kw)
        ck.saw(it)
        ok = isinstance(x, np.ndarray) and isinstance(z, np.ndarray) and isinstance(xb, np.ndarray)
        if not ok:
            ck.obl('coordinates and columns are aligned', tag, None, (x, z, xb))
            return
        ck.obl('coordinates and columns are aligned', tag, x.ndim == 1 and z.shape == (6, x.size) and xb.shape == x.shape,
               f'{x.shape} {z.shape} {xb.shape}')
        if not (x.ndim == 1 and z.shape == (6, x.size) and xb.shape == x.shape):
            return
        keep = [i for i in range(n) if not zero[i]]
        lic = [sp.Integer(0)]
        for i in keep:
            lic.append(lic[-1] + l[i])
        num_ = {P(f'l{i}'): sp.Rational(101 + 37 * i * i, 10) for i in range(n)}
        ln = [sp.sympify(v).subs(num_) for v in lic]
        if any(isnan(v) or v is TOP for v in x):
            ck.obl('grid starts at zero and ends at the total length', tag, False, x)
            return
        ck.obl('grid starts at zero and ends at the total length', tag,
               D.conj([is_zero(sp.sympify(x[0]), it.dom), is_zero(sp.sympify(x[-1]) - lic[-1], it.dom)]), f'{x[0]} .. {x[-1]}')
        xn = [sp.sympify(v).subs(num_) for v in x]
        ck.obl('grid is increasing', tag, all(bool(a < b) for a, b in zip(xn, xn[1:])), x)
        if real:
            gap = max(b - a for a, b in zip(xn, xn[1:]))
            ck.obl('grid is as fine as requested', tag, bool(gap * num <= lic[-1]) and num < x.size <= num + n + 1, f'{x.size} points, largest step {gap}')
        for j in range(1, len(lic)):
            ck.obl('grid contains every interface', f'{tag} interface {j}', any(is_zero(sp.sympify(v) - lic[j], it.dom) for v in x), x)
        H = {}

        def value(j, k):
            i = keep[j]
            s = sp.expand(sp.sympify(x[k]) - lic[j])
            h = asm.zh_sym(s, l[i], bool(ki[i]))
            p = asm.zp_sym(s, phi, bool(ki[i]))
            return [sum(h[r, q] * C[q, i] for q in range(6)) + p[r, 0] for r in range(6)]
        for k in range(x.size):
            cand = [j for j in range(len(keep)) if ln[j] <= xn[k] <= ln[j + 1]]
            res = []
            for j in cand:
                v = value(j, k)
                res.append(D.conj(is_zero(sp.sympify(a) - b, it.dom) if not isnan(a) and a is not TOP else False if isnan(a) else None
                                  for a, b in zip(z[:, k], v)))
                if res[-1] is True:
                    break
            ck.obl('grid point is evaluated on the segment containing it', f'{tag} point {k}', True if True in res else None if None in res else False,
                   f'x = {x[k]}: {z[0, k]}')
            sup = any(ki[keep[j]] for j in cand)
            v = xb[k]
            good = is_zero(sp.sympify(v) - x[k], it.dom) if sup and not isnan(v) and not isinstance(v, Gate) and v is not TOP else \
                isnan(v) if not sup else (False if isnan(v) else None)
            ck.obl('supported exactly on supported segments and their tips', f'{tag} point {k}', good, f'x = {x[k]}: {v}, supported {sup}')


def col(it, m, f, Z, j, **kw):
    return flat(M.call(it, m, f, Z[:, [j]], **kw))[0]


def outputs(ck, mask):
    n = len(mask)
    it = M.interp()
    m = M.model(it)
    Z = M.Zvec(n)
    xs = [R(f'x{i}') if k else NAN for i, k in enumerate(mask)]
    tag0 = 'mask ' + ''.join('x' if k else '-' for k in mask)
    fresh = lambda: np.array(xs, dtype=object)
    eq = lambda a, b: isnan(a) and isnan(b) or (False if isnan(a) or isnan(b) or a is TOP else is_zero(sp.sympify(a) - b, it.dom))
    for nm, f in (('get_weaklayer_shearstress', 'tau'), ('get_weaklayer_normalstress', 'sig')):
        for u in (None, 'MPa', 'kPa'):
            kw = {} if u is None else dict(unit=u)
            for rem in (None, False, True):
                tag = f'{nm}({u}, removeNaNs={rem}) {tag0}'
                with ck.guard('output lists', tag):
                    k2 = dict(kw) if rem is None else dict(kw, removeNaNs=rem)
                    x, v = M.call(it, m, nm, fresh(), Z, **k2)
                    idx = [i for i in range(n) if mask[i]] if rem else list(range(n))
                    ok = isinstance(x, np.ndarray) and isinstance(v, np.ndarray) and x.shape == v.shape == (len(idx),)
                    ck.obl('coordinates and values have one length', tag, ok, f'{x} {v}')
                    if not ok:
                        continue
                    for q, i in enumerate(idx):
                        ck.obl('coordinates are converted to cm', f'{tag} [{q}]', eq(x[q], xs[i] / 10 if mask[i] else NAN), x[q])
                        ref = col(it, m, f, Z, i, **(kw or dict(unit='MPa'))) if mask[i] else NAN
                        ck.obl('value belongs to its coordinate', f'{tag} [{q}]', eq(v[q], ref), v[q])
                    ck.saw(it)
    h = m.attrs['h']
    for nm, f, opts in (('get_slab_deflection', 'w', [{}] + [dict(unit=u) for u in ('m', 'cm', 'mm', 'um')]),
                        ('get_slab_rotation', 'psi', [{}] + [dict(unit=u) for u in ('deg', 'degrees', 'rad', 'radians')]),
                        ('get_slab_displacement', 'u', [{}] + [dict(unit=u) for u in ('m', 'cm', 'mm', 'um')]
                         + [dict(loc=q) for q in ('top', 'mid', 'bot')] + [dict(loc='top', unit='cm')])):
        for o in opts:
            tag = f'{nm}({o}) {tag0}'
            with ck.guard('output lists', tag):
                x, v = M.call(it, m, nm, fresh(), Z, **o)
                v, x = flat(v), flat(x)
                ck.obl('coordinates and values have one length', tag, len(x) == len(v) == n, f'{x} {v}')
                if not len(x) == len(v) == n:
                    continue
                kw = dict(unit=o.get('unit', 'degrees' if f == 'psi' else 'mm'))
                if f == 'u':
                    kw['z0'] = {'top': -h / 2, 'mid': 0, 'bot': h / 2}[o.get('loc', 'mid')]
                for i in range(n):
                    ck.obl('coordinates are converted to cm', f'{tag} [{i}]', eq(x[i], xs[i] / 10 if mask[i] else NAN), x[i])
                    ck.obl('value belongs to its coordinate', f'{tag} [{i}]', eq(v[i], col(it, m, f, Z, i, **kw)), v[i])
                ck.saw(it)


# curves of the plot functions: quantity of the model per curve
CURVES = {'displacements': [('u', dict(z0=0, unit='mm'), 1), ('w', dict(unit='mm'), -1), ('psi', dict(unit='degrees'), 1)],
          'section_forces': [('N', {}, 1), ('M', {}, 1), ('V', {}, 1)],
          'stresses': [('tau', dict(unit='kPa'), 1), ('sig', dict(unit='kPa'), 1)]}


def curves(ck, name, system):
    tag = f'plot.{name} [{system}]'
    with ck.guard('plotted curves', tag):
        it = M.interp()
        D.ceil2(it)
        c = D.PlotCase(it, system, 130)
        if name == 'stresses':
            c.xb = c.x
        kw = D.PLOTS[name](c)
        e0 = len(it.events)
        it.call(it.get('weac.plot.' + name), [], dict(kw), None)
        ev = [e for e in it.events[e0:] if e['kind'] == 'ext_call']
        pl = [e for e in ev if e['path'].endswith('.plot')]
        ck.saw(it)
        at = 'plot.' + name
        got = []
        for e in pl:
            a = [q for q in e['args'] if isinstance(q, np.ndarray)]
            if len(a) < 2:
                ck.obl('plotted coordinates are in cm', tag, None, e['args'])
                return
            got.append((a[0], a[1]))
        for x, y in got:
            ck.obl('plotted curves pair coordinates and values', tag, x.shape == y.shape, f'{x.shape} {y.shape}', where=at)
            v = D.conj(is_zero(sp.sympify(p) - q / 10, it.dom) for p, q in zip(x[:3].tolist() + x[-2:].tolist(), c.x[:3].tolist() + c.x[-2:].tolist()))
            ck.obl('plotted coordinates are in cm', tag, v, x[:3], where=at)
        for f, k, sgn in CURVES[name]:
            ref = [sgn * col(it, c.m, f, c.z, j, **k) for j in (0, 1, 129)]
            hit = any(D.conj(is_zero(sp.sympify(y[j]) - r, it.dom) for j, r in zip((0, 1, 129), ref)) is True for x, y in got if y.shape == (130,))
            ck.obl('plotted curve is the quantity it is labelled with', f'{tag}: {f}', hit, where=at)
        li, ki = c.seg['li'], c.seg['ki']
        lic = [sum(li[:i], sp.Integer(0)) for i in range(len(li) + 1)]
        spans = [[q for q in e['args'] if isinstance(q, (int, sp.Basic))] for e in ev if e['path'].endswith('.axvspan')]
        want = [(lic[i] / 10, lic[i + 1] / 10) for i in range(len(ki)) if not ki[i]]
        ck.obl('unsupported segments are marked where they lie', tag, len(spans) == len(want) and all(
            len(s) >= 2 and is_zero(s[0] - w[0], it.dom) and is_zero(s[1] - w[1], it.dom) for s, w in zip(spans, want)), f'{spans} vs {want}', where=at)


def release(ck, name, opt):
    """Energy release rate plots: rows of the rate arrays against crack length, in J/m^2 and cm."""
    tag = f'plot.{name}({opt})'
    with ck.guard('plotted curves', tag):
        it = M.interp()
        D.ceil2(it)
        c = D.PlotCase(it, 'pst-', 130)
        e0 = len(it.events)
        it.call(it.get('weac.plot.' + name), [], dict(D.PLOTS[name](c), **opt), None)
        ev = [e for e in it.events[e0:] if e['kind'] == 'ext_call']
        ck.saw(it)
        at = 'plot.' + name
        cur, last = [], None
        for e in ev:
            if e['path'].endswith('.plot'):
                a = [q for q in e['args'] if isinstance(q, np.ndarray)]
                last = a if len(a) > 1 else None
            elif e['path'].endswith('.text') and last is not None:
                lab = [q for q in list(e['args']) + list(e['kwargs'].values()) if isinstance(q, str) and '$' in q]
                cur.append((last[0], last[1], lab[0] if lab else None))
                last = None
        pick = (0, 1, 129)
        same = lambda y, r: y.shape == r.shape and D.conj(is_zero(sp.sympify(y[j]) - sp.Integer(1000) * r[j], it.dom) for j in pick)
        if name == 'err_modes':
            row = lambda lab: 0 if '+' in lab else 2 if 'I\\!I' in lab or 'II' in lab else 1
            want = [(c.G[i], lambda lab, i=i: row(lab) == i, f'row {i}') for i in range(3)]
        else:
            k = opt.get('mode', 0)
            want = [(c.G[k], lambda lab: 'bar' not in lab, 'differential'), (c.H[k], lambda lab: 'bar' in lab, 'incremental')]
        for ref, own, what in want:
            hit = [q for q in cur if same(q[1], ref) is True]
            ck.obl('plotted curve is the quantity it is labelled with', f'{tag}: {what}', bool(hit), where=at)
            for q in hit:
                ck.obl('label names the plotted rate', f'{tag}: {what}', None if q[2] is None else own(q[2]), q[2], where=at)
        for x, y, lab in cur:
            ck.obl('plotted coordinates are in cm', f'{tag} {lab}', x.shape == c.x.shape and D.conj(
                is_zero(sp.sympify(x[j]) - c.x[j] / 10, it.dom) for j in pick), where=at)


def fea(ck, name):
    """Reference curves of finite elements next to the model's own."""
    tag = f'plot.{name}'
    want = {'fea_disp': [('u', dict(z0=0, unit='mm'), 1), ('w', dict(unit='mm'), -1), ('psi', dict(unit='degrees'), 1)],
            'fea_stress': [('tau', dict(unit='kPa'), 1), ('sig', dict(unit='kPa'), 1)]}[name]
    with ck.guard('plotted curves', tag):
        it = M.interp()
        D.ceil2(it)
        c = D.PlotCase(it, 'pst-', 130)
        e0 = len(it.events)
        it.call(it.get('weac.plot.' + name), [], D.PLOTS[name](c), None)
        ck.saw(it)
        got = []
        for e in it.events[e0:]:
            if e['kind'] == 'ext_call' and e['path'].endswith('.plot'):
                a = [q for q in e['args'] if isinstance(q, np.ndarray)]
                got += [a[:2]] if len(a) > 1 else []
        for f, k, sgn in want:
            ref = [sgn * col(it, c.m, f, c.z, j, **k) for j in (0, 129)]
            hit = [x for x, y in got if y.shape == (130,) and D.conj(is_zero(sp.sympify(y[j]) - r, it.dom) for j, r in zip((0, 129), ref)) is True]
            ck.obl('plotted curve is the quantity it is labelled with', f'{tag}: {f}', bool(hit), where='plot.' + name)
            for x in hit:
                ck.obl('plotted coordinates are in cm', f'{tag}: {f}', D.conj(is_zero(sp.sympify(x[j]) - c.x[j] / 10, it.dom) for j in (0, 129)),
                       x[:2], where='plot.' + name)


def contour(ck, system, opt):
    """Contour plot: displaced coordinates and field belong to the same material point."""
    tag = f'plot.deformed({opt}) [{system}]'
    with ck.guard('plotted contours', tag):
        it = M.interp()
        D.ceil2(it)

        def stub(name, layers):
            def f(it_, env, node):
                Z = env['Z'] if 'Z' in env else env['z']
                o = '/'.join(str(env[k]) for k in ('unit', 'val', 'normalize') if k in env)
                if not layers:
                    return np.array([R(f'{name}<{o}>_{Z[0, j]}') for j in range(Z.shape[1])], dtype=object)
                n = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
                return np.array([[R(f'{name}<{o}>{i}_{Z[0, j]}') for j in range(Z.shape[1])] for i in range(n)], dtype=object)
            return f
        for k in ('Sxx', 'Txz', 'Szz', 'principal_stress_slab'):
            it.mstubs[k] = stub(k, True)
        it.mstubs['principal_stress_weaklayer'] = stub('pw', False)
        N = 4
        c = D.PlotCase(it, system, N)
        a = P('scale')
        kw = dict(D.PLOTS['deformed'](c), scale=a, **opt)
        e0 = len(it.events)
        it.call(it.get('weac.plot.deformed'), [], kw, None)
        ck.saw(it)
        at = 'plot.deformed'
        got = [[q for q in e['args'] if isinstance(q, np.ndarray) and q.ndim == 2] for e in it.events[e0:]
               if e['kind'] == 'ext_call' and e['path'].endswith(('.contourf', '.pcolormesh'))]
        ck.obl('slab and weak layer are drawn', tag, True if len(got) == 2 and all(len(g) == 3 for g in got) else None, len(got), where=at)
        if len(got) != 2 or any(len(g) != 3 for g in got):
            return
        mesh = M.call(it, c.m, 'get_zmesh', dz=2)[:, 0]
        h = c.m.attrs['h']
        U = np.vstack([flat(M.call(it, c.m, 'u', c.z, z0=q, unit='cm')) for q in mesh])
        W = np.array(flat(M.call(it, c.m, 'w', c.z, unit='cm')), dtype=object)
        (X, Y, F), (Xw, Yw, Fw) = got
        n = len(mesh)
        if X.shape != (n, N) or Y.shape != (n, N) or F.shape != (n, N) or Xw.shape != (2, N) or Fw.shape != (2, N):
            ck.obl('contour arrays cover the mesh', tag, False, f'{X.shape} {Y.shape} {F.shape} {Xw.shape} {Fw.shape}', where=at)
            return
        z0 = lambda e: is_zero(sp.sympify(e), it.dom)
        x0 = X[0, 0] - a * U[0, 0] - c.x[0] / 10
        ck.obl('contour starts at the first coordinate', tag, z0(x0) if 'skier' not in system else None if isinstance(x0, Gate) else True, x0, where=at)
        field = opt['field']
        val = {'u': lambda i, j: 10**4 * U[i, j], 'w': lambda i, j: 10**4 * W[j],
               'principal': lambda i, j: R(f'principal_stress_slab<kPa/max/{opt.get("normalize", True)}>{i}_{c.z[0, j]}')}.get(
            field, lambda i, j: R(f'{field}<kPa>{i}_{c.z[0, j]}'))
        for i in range(n):
            ck.obl('slab point is drawn at its displaced place', f'{tag} row {i}', D.conj(
                z0(X[i, j] - a * U[i, j] - c.x[j] / 10 - x0) for j in range(N)), X[i], where=at)
            ck.obl('slab point is drawn at its displaced depth', f'{tag} row {i}', D.conj(
                z0(Y[i, j] - a * W[j] - (mesh[i] + h / 2) / 10) for j in range(N)), Y[i], where=at)
            ck.obl('contour shows the requested field', f'{tag} row {i}', D.conj(z0(F[i, j] - val(i, j)) for j in range(N)), F[i], where=at)
        wl = {'u': lambda j: 10**4 * U[-1, j], 'w': lambda j: 10**4 * W[j], 'Sxx': lambda j: sp.Integer(0),
              'Txz': lambda j: col(it, c.m, 'tau', c.z, j, unit='kPa'), 'Szz': lambda j: col(it, c.m, 'sig', c.z, j, unit='kPa'),
              'principal': lambda j: R(f'pw<kPa/min/{opt.get("normalize", True)}>_{c.z[0, j]}')}[field]
        sup = [j for j in range(N) if not isnan(c.xb[j])]
        xw0 = Xw[0, sup[0]] - a * U[-1, sup[0]] - c.xb[sup[0]] / 10
        for r in range(2):
            ck.obl('contour shows the requested field', f'{tag} weak layer {r}', D.conj(z0(Fw[r, j] - wl(j)) for j in sup), Fw[r], where=at)
            ck.obl('weak layer is drawn where the slab is supported', f'{tag} {r}', D.conj(
                z0(Xw[r, j] - (a * U[-1, j] if r == 0 else 0) - c.xb[j] / 10 - xw0) for j in sup), Xw[r], where=at)
            ck.obl('nothing is drawn where there is no weak layer', f'{tag} {r}', all(
                isnan(Xw[r, j]) or isnan(Fw[r, j]) for j in range(N) if j not in sup), Xw[r], where=at)


def check(ck):
    tasks = []
    nmax = 5 if ck.thorough else 4
    for n in range(1, nmax + 1):
        for ki in itertools.product((True, False), repeat=n):
            for zero in itertools.product((False, True), repeat=n):
                if all(zero) or n == 4 and sum(zero) > 1 or n == 5 and sum(zero) > 0:
                    continue
                for k, c in enumerate(COUNTS):
                    if k and (any(zero) or n == 1) or n == 4 and k > 1 and not ck.thorough:
                        continue
                    tasks.append((raster, n, ki, zero, c, None if k else 6))
    # equal lengths, as in every layout with a centred skier
    for same in ((0, 0), (0, 1, 0), (0, 1, 1), (0, 1, 1, 0)):
        for ki in itertools.product((True, False), repeat=len(same)):
            tasks.append((raster, len(same), ki, (False,) * len(same), (2,) * len(same), None, same))
    q = sp.Rational
    for real in ((q(1, 2), 700, q(3, 10)), (900, q(1, 8)), (q(1, 4), 300, 20, q(301, 2)), (q(7, 10),), (5000, 0, q(1, 16), 5000)):
        for ki in itertools.product((True, False), repeat=len(real)):
            for num in (7, 24):
                tasks.append((raster, len(real), ki, tuple(v == 0 for v in real), (), num, None, tuple(map(sp.sympify, real))))
    for mask in itertools.product((True, False), repeat=3):
        tasks.append((outputs, mask))
    tasks += [(outputs, (True,) * 4), (outputs, (True, False))]
    for name in CURVES:
        for system in ('pst-', '-pst', 'skiers', 'skier'):
            tasks.append((curves, name, system))
    tasks += [(release, 'err_modes', o) for o in ({}, dict(kind='dif'))] + [(release, 'err_comp', o) for o in ({}, dict(mode=1), dict(mode=2))]
    tasks += [(fea, 'fea_disp'), (fea, 'fea_stress')]
    for system in ('pst-', '-pst', 'vpst-', 'skiers', 'skier'):
        for o in D.PLOT_OPTS['deformed']:
            if 'field' in o or 'normalize' in o:
                tasks.append((contour, system, o if o.get('normalize', True) else dict(field='principal', normalize=False)))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C21', RULE, check, minimum=800, assumptions=['exact arithmetic', 'at least one grid interval per segment (ceil of a positive number)'])
