"""C30: figures state truly what they show."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import numpy as np
import sympy as sp
from vlib import model as M, drive as D
from vlib.interp import NAN, TOP, Gate, AbsRaise, Ext
from vlib.model import R, P, flat
from vlib.prove import is_zero
from vlib.harness import main, Broken

RULE = ('Abstract interpretation of every plot function: the drawing calls it issues are collected with their abstract arguments and matched '
        'with each other - curve, curve label, axis label and unit against the quantity of the model in that unit, label position against '
        'the points of its curve, line markers against the segments, levels, ticks, limits and outlines of the contour plot against the '
        'displaced grid, the profile against the layers; figure helpers against their definition.')

UNITS = [(r'J/m\^?2', 'J/m2'), (r'kg/m\^?3', 'kg/m3'), (r'MPa', 'MPa'), (r'kPa', 'kPa'), (r'Pa', 'Pa'), (r'(\\mu|µ|u)m', 'um'), (r'mm', 'mm'),
         (r'cm', 'cm'), (r'm', 'm'), (r'\^?(\\circ|°)', 'deg'), (r'deg(rees)?', 'deg'), (r'rad(ians)?', 'rad')]


def unit(label):
    """Unit in the last pair of parentheses of a label."""
    if not isinstance(label, str):
        return None
    s = re.sub(r'\\mathrm|\\text|\\rm|[${}~]|\\[,;! ]', '', label)
    for t in reversed(re.findall(r'\(([^()]*)\)', s)):
        for q in [t] + t.split(','):
            for p, u in UNITS:
                if re.fullmatch(p, q.strip()):
                    return u
    return None


def last(e):
    return e['path'].rpartition('.')[2]


def strings(e):
    return [v for v in list(e['args']) + list(e['kwargs'].values()) if isinstance(v, str)]


class Figure:
    """Drawing calls of one plot function in order."""

    def __init__(self, events):
        self.ev = [e for e in events if e['kind'] == 'ext_call']
        self.curves = []  # axis, x, y, label, text position
        self.ylabel, self.xlabel = {}, {}
        for e in self.ev:
            n = last(e)
            ax = 'right' if 'twinx' in e['path'] else 'left'
            if n == 'plot':
                a = [q for q in e['args'] if isinstance(q, np.ndarray)]
                if len(a) > 1:
                    lab = e['kwargs'].get('label')
                    self.curves.append(dict(ax=ax, x=a[0], y=a[1], label=lab if isinstance(lab, str) else None, at=None))
            elif n in ('text', 'annotate') and self.curves:
                s = [q for q in strings(e) if q == '' or '$' in q or ' ' in q or len(q) > 2] or strings(e)
                a = [q for q in e['args'] if not isinstance(q, str)]
                c = self.curves[-1]
                c['label'] = next((q for q in e['args'] if isinstance(q, str)), s[0] if s else None)
                c['at'] = tuple(a[:2]) if len(a) >= 2 else None
            elif n in ('set_ylabel', 'ylabel', 'set_xlabel', 'xlabel'):
                t = next((q for q in strings(e)), None)
                (self.ylabel if 'y' in n else self.xlabel)[ax] = t
            elif n == 'set':
                for k, dst in (('xlabel', self.xlabel), ('ylabel', self.ylabel)):
                    if isinstance(e['kwargs'].get(k), str):
                        dst[ax] = e['kwargs'][k]

    def calls(self, *names):
        return [e for e in self.ev if last(e) in names]

    def labelled(self):
        return [c for c in self.curves if c['label'] is not None]


def drawn(it, name, kw):
    e0 = len(it.events)
    it.call(it.get('weac.plot.' + name), [], dict(kw), None)
    return Figure(it.events[e0:])


def zero(it, a, b):
    if a is NAN or b is NAN:
        return a is b
    if any(v is TOP or isinstance(v, Gate) for v in (a, b)):
        return None
    try:
        return is_zero(sp.sympify(a) - sp.sympify(b), it.dom)
    except (sp.SympifyError, TypeError):
        return None


def col(it, m, f, Z, j, **kw):
    return flat(M.call(it, m, f, Z[:, [j]], **kw))[0]


def pretty(s):
    return re.sub(r'\s+', ' ', str(s))[:60]


def quantity(label):
    """Quantity of the model a curve label names: method, sign, kind."""
    s = re.sub(r'\([^()]*\)', '', label).replace('$', '').strip()
    sign = -1 if s.startswith('-') else 1
    s = s.lstrip('-').strip()
    for pat, f, kind in ((r'u(_0)?\b', 'u', 'length'), (r'w(_0)?\b', 'w', 'length'), (r'\\psi', 'psi', 'angle'), (r'\\tau', 'tau', 'stress'),
                         (r'\\sigma', 'sig', 'stress'), (r'N\b', 'N', None), (r'M\b', 'M', None), (r'V\b', 'V', None)):
        if re.match(pat, s):
            return f, sign, kind
    return None


KIND = {'length': ('m', 'cm', 'mm', 'um'), 'angle': ('deg', 'rad'), 'stress': ('MPa', 'kPa')}


def xfactor(u):
    return {'mm': sp.Integer(1), 'cm': sp.Rational(1, 10), 'm': sp.Rational(1, 1000), 'um': sp.Integer(1000)}.get(u)


def axes(ck, it, fig, x, tag, at):
    """Horizontal coordinates in the unit the axis names."""
    u = xfactor(unit(fig.xlabel.get('left')))
    ck.obl('horizontal axis names the unit of its coordinates', tag, None if u is None else True, fig.xlabel.get('left'), where=at)
    if u is None:
        return
    for c in fig.labelled():
        if c['label'].startswith('FEA'):
            continue
        pick = sorted({0, len(x) - 1})
        v = c['x'].shape == x.shape and D.conj(zero(it, c['x'][j], x[j] if x[j] is NAN else u * x[j]) for j in pick)
        ck.obl('horizontal axis names the unit of its coordinates', f"{tag} {pretty(c['label'])}", v, f"{c['x'][:2]} under {fig.xlabel.get('left')}",
               where=at)


def positions(ck, it, fig, tag, at):
    """A curve label sits on its curve: between two neighbouring points of it."""
    for c in fig.labelled():
        if c['at'] is None:
            continue
        x, y = c['x'], c['y']
        keep = [j for j in range(x.size) if x[j] is not NAN and y[j] is not NAN]
        xt, yt = c['at']
        if xt is TOP or yt is TOP:
            v = None
        elif xt is NAN or yt is NAN:
            v = False
        else:
            one = [[x[j], y[j]] for j in keep] + [[(x[i] + x[j]) / 2, (y[i] + y[j]) / 2] for i, j in zip(keep, keep[1:])]
            v = any(zero(it, xt, p) is True and zero(it, yt, q) is True for p, q in one) if not any(isinstance(w, Gate) for w in (xt, yt)) else None
        ck.obl('curve label sits on its curve', f"{tag} {pretty(c['label'])}", v, f'{xt}, {yt}'[:200], where=at)


WRAP = {'displacements': 3, 'section_forces': 3, 'stresses': 2, 'fea_disp': 3, 'fea_stress': 2}


def wrapper(ck, name, system, N):
    tag = f'plot.{name} [{system}, {N} points]'
    at = 'plot.' + name
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        D.ceil2(it)
        c = D.PlotCase(it, system, N)
        if N < 6:
            c.xb = c.x.copy()
        fig = drawn(it, name, D.PLOTS[name](c))
        ck.saw(it)
        x = D.PLOTS[name](c).get('x', D.PLOTS[name](c).get('xb'))
        positions(ck, it, fig, tag, at)
        axes(ck, it, fig, x, tag, at)
        seen = set()
        for q in fig.labelled():
            if q['label'].startswith('FEA'):
                continue
            w = quantity(q['label'])
            if w is None:
                ck.obl('curve shows the quantity and unit on its label', f'{tag} {pretty(q["label"])}', None, 'label not understood', where=at)
                continue
            f, sign, kind = w
            u = unit(q['label']) or unit(fig.ylabel.get(q['ax']))
            if kind == 'angle' and u not in KIND['angle']:
                u = 'deg'
            if kind is not None and u not in KIND[kind]:
                ck.obl('curve shows the quantity and unit on its label', f'{tag} {f}', False if u else None,
                       f"{q['label']} under {fig.ylabel.get(q['ax'])}", where=at)
                continue
            kw = {} if kind is None else dict(unit=u)
            if f == 'u':
                kw['z0'] = 0
            pick = sorted({0, N - 1, N // 3})
            v = q['y'].shape == (N,) and D.conj(zero(it, q['y'][j], sign * col(it, c.m, f, c.z, j, **kw)) for j in pick)
            ck.obl('curve shows the quantity and unit on its label', f'{tag} {f}', v, f"{q['y'][0]} as {q['label']} under {fig.ylabel.get(q['ax'])}",
                   where=at)
            seen.add(f)
        ck.obl('every quantity of the figure is labelled', tag, len(seen) >= WRAP[name], sorted(seen), where=at)


def criteria(ck, N):
    tag = f'plot.stress_criteria [{N} points]'
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        c = D.PlotCase(it, 'pst-', N)
        fig = drawn(it, 'stress_criteria', D.PLOTS['stress_criteria'](c))
        ck.saw(it)
        positions(ck, it, fig, tag, 'plot.stress_criteria')
        axes(ck, it, fig, c.x, tag, 'plot.stress_criteria')
        q = fig.labelled()
        ck.obl('curve shows the quantity and unit on its label', tag, len(q) == 1 and q[0]['y'].shape == (N,) and D.conj(
            zero(it, q[0]['y'][j], c.s[j]) for j in range(N)), where='plot.stress_criteria')


def release(ck, name, opt, N):
    """Rates in the unit of the axis, against the row the label names."""
    tag = f'plot.{name}({opt}) [{N} points]'
    at = 'plot.' + name
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        c = D.PlotCase(it, 'pst-', N)
        fig = drawn(it, name, dict(D.PLOTS[name](c), **opt))
        ck.saw(it)
        positions(ck, it, fig, tag, at)
        axes(ck, it, fig, c.x, tag, at)
        k = {'J/m2': 1000}.get(unit(fig.ylabel.get('left')))
        for q in fig.labelled():
            s = q['label']
            if name == 'err_modes':
                row = 0 if '+' in s else 2 if re.search(r'I\s*(\\!)*\s*I', s) else 1
                ref = c.G[row]
                ck.obl('label names the plotted rate', f'{tag} row {row}', ('bar' in s) == (opt.get('kind', 'inc') == 'inc'), s, where=at)
            else:
                row = opt.get('mode', 0)
                ref = (c.H if 'bar' in s else c.G)[row]
            pick = sorted({0, N - 1, N // 3})
            ck.obl('curve shows the quantity and unit on its label', f"{tag} {'averaged' if 'bar' in s else ''} row {row}", None if k is None else
                   q['y'].shape == (N,) and D.conj(zero(it, q['y'][j], k * ref[j]) for j in pick), f"{q['y'][0]} as {s} under "
                   f"{fig.ylabel.get('left')}", where=at)
        ck.obl('every quantity of the figure is labelled', tag, len({q['label'] for q in fig.labelled()}) == (3 if name == 'err_modes' else 2),
               [q['label'] for q in fig.labelled()], where=at)


def base(ck, case, N):
    """The base plot function: axes, secondary axis, markers, points without value."""
    tag = f'plot.plot_data {case} [{N} points]'
    at = 'plot.plot_data'
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        x = np.array([P(f'x{i}') for i in range(N)], dtype=object)
        ys = [np.array([R(f'y{k}_{i}') for i in range(N)], dtype=object) for k in range(4)]
        n = 4
        li = [P(f'l{i}') for i in range(n)]
        kw = dict(name='any', ax1data=[[x, ys[0], 'first'], [x, ys[1], 'second']], ax1label='primary')
        if case.get('gap'):
            x = x.copy()
            for i in case['gap']:
                x[i] = NAN
            kw['ax1data'] = [[x, ys[0], 'first'], [x, ys[1], 'second']]
        if case.get('blank'):
            kw['ax1data'].append([x, ys[2], ''])
        if case.get('second'):
            kw.update(ax2data=[[x, ys[3], 'third']], ax2label='secondary')
        if case.get('xlabel'):
            kw['xlabel'] = 'Other (m)'
        if 'pos' in case:
            kw['labelpos'] = case['pos']
        mi, ki = case.get('mi'), case.get('ki')
        if mi is not None:
            kw.update(li=M.arr(li), mi=M.arr([P(f'm{i}') if q else 0 for i, q in enumerate(mi)]), ki=D.boolarr(ki))
        if case.get('vlines') is False:
            kw['vlines'] = False
        fig = drawn(it, 'plot_data', kw)
        ck.saw(it)
        positions(ck, it, fig, tag, at)
        ck.obl('horizontal axis carries the given label', tag, kw.get('xlabel', 'Horizontal position') in (fig.xlabel.get('left') or ''),
               fig.xlabel, where=at)
        ck.obl('vertical axis carries the given label', tag, 'primary' in (fig.ylabel.get('left') or ''), fig.ylabel, where=at)
        ck.obl('vertical axis carries the given label', tag + ' right', ('secondary' in (fig.ylabel.get('right') or '')) == bool(case.get('second')),
               fig.ylabel, where=at)
        for a, data in (('left', kw['ax1data']), ('right', kw.get('ax2data', []))):
            for xx, yy, lab in data:
                hit = [c for c in fig.curves if c['ax'] == a and c['x'].shape == xx.shape and D.conj(
                    zero(it, p, q) for p, q in zip(c['x'].tolist() + c['y'].tolist(), xx.tolist() + yy.tolist())) is True]
                ck.obl('every curve is drawn on its axis', f'{tag} {lab!r}', bool(hit), where=at)
                named = [c for c in hit if c['label'] == lab and (c['at'] is not None)]
                ck.obl('every curve carries its label', f'{tag} {lab!r}', bool(named) if hit else None, where=at)
        vs = [e['args'][0] if e['args'] else e['kwargs'].get('x') for e in fig.calls('axvline')]
        spans = [[q for q in e['args'] if isinstance(q, (int, sp.Basic))] for e in fig.calls('axvspan')]
        if mi is not None and case.get('vlines') is not False:
            lic = [sum(li[:i], sp.Integer(0)) for i in range(n + 1)]
            want = [lic[i + 1] / 10 for i, q in enumerate(mi) if q]
            for w in want:
                ck.obl('every load is marked where it acts', f'{tag} at {w}', any(zero(it, v, w) is True for v in vs), vs, where=at)
            ck.obl('lines mark loads and the origin only', tag, all(any(zero(it, v, w) is True for w in want + [sp.Integer(0)]) for v in vs), vs,
                   where=at)
            gap = [(lic[i] / 10, lic[i + 1] / 10) for i, k in enumerate(ki) if not k]
            covered = lambda i: any(len(s) > 1 and zero(it, s[0], lic[i] / 10) is True and zero(it, s[1], lic[i + 1] / 10) is True for s in spans)
            for i, k in enumerate(ki):
                ck.obl('unsupported segments are shaded', f'{tag} segment {i}', covered(i) == (not k), spans, where=at)
            ck.obl('unsupported segments are shaded', tag, len(spans) == len(gap), spans, where=at)
        elif case.get('vlines') is False:
            ck.obl('no markers unless requested', tag, not vs and not spans, f'{vs} {spans}', where=at)


def profile(ck, n):
    tag = f'plot.slab_profile [{n} layers]'
    at = 'plot.slab_profile'
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        m = D.ready(it, 'pst-', n=n)
        fig = drawn(it, 'slab_profile', dict(instance=m))
        ck.saw(it)
        rho, h = [P(f'rho{i}') for i in range(n)], [P(f'h{i}') for i in range(n)]
        f = fig.calls('fill_betweenx')
        bars = fig.calls('barh')
        if len(f) == 1:
            a = list(f[0]['args'])
            a += [f[0]['kwargs'][k] for k in ('y', 'x1', 'x2')[len(a):] if k in f[0]['kwargs']]
            y = flat(a[0]) if a else TOP
            xs = a[1:3]
            xs = [flat(v) if isinstance(v, (list, tuple, np.ndarray)) else v for v in xs]
            seq = [v for v in xs if isinstance(v, list)]
            base0 = [v for v in xs if not isinstance(v, list)]
            if len(seq) != 1 or not isinstance(y, list):
                ck.obl('profile shows every layer at its height', tag, None, f'{a}'[:200], where=at)
                return
            x = seq[0]
            ck.obl('bars start at zero density', tag, all(zero(it, v, 0) for v in base0), base0, where=at)
            ok = len(x) == len(y)
            pairs = list(zip(y, x))
        else:
            ck.obl('profile shows every layer at its height', tag, None, f'{len(f)} polygons, {len(bars)} bars', where=at)
            return
        ck.obl('profile pairs heights and densities', tag, ok, f'{len(y)} heights, {len(x)} densities', where=at)
        # bottom (last) layer first, heights above the weak layer
        z = sp.Integer(0)
        for i in range(n - 1, -1, -1):
            for e in (z, z + h[i]):
                hit = any(zero(it, p, e) is True and zero(it, q, rho[i]) is True for p, q in pairs)
                ck.obl('profile shows every layer at its height', f'{tag} layer {i}', hit, pairs, where=at)
            z = z + h[i]
        num = {h[i]: 10 + 7 * i for i in range(n)}
        v = [sp.sympify(p).subs(num) for p in y]
        ck.obl('heights increase', tag, all(p.is_number for p in v) and all(p <= q for p, q in zip(v, v[1:])), y, where=at)
        ck.obl('profile ends at the top of the slab', tag, D.conj([zero(it, y[0], 0), zero(it, y[-1], sum(h))]), y, where=at)
        ck.obl('profile axes name density and height', tag, D.conj([
            None if unit(fig.xlabel.get('left')) is None else unit(fig.xlabel['left']) == 'kg/m3',
            None if unit(fig.ylabel.get('left')) is None else unit(fig.ylabel['left']) == 'mm']), f'{fig.xlabel} {fig.ylabel}', where=at)


# ---------------------------------------------------------------- contour plot
def numeric(it, system, case):
    """A model state with numbers: constants propagate to limits and levels."""
    c = D.PlotCase(it, system, case['N'])
    m = c.m
    for k, v in list(m.attrs.items()):
        if isinstance(v, sp.Symbol):
            m.attrs[k] = sp.Integer(7 + len(k))
    n = 2
    m.attrs['slab'] = M.arr([[sp.Integer(200 + 30 * i), sp.Integer(40 + 20 * i), sp.Integer(5), sp.Integer(2), sp.Rational(1, 4)] for i in range(n)])
    m.attrs['h'] = sp.Integer(sum(40 + 20 * i for i in range(n)))
    N = case['N']
    c.x = np.array([sp.Integer(0) + 400 * i + 10 * i * i for i in range(N)], dtype=object)
    c.xb = c.x.copy()
    for i in case.get('gap', ()):
        c.xb[i] = NAN
    q = sp.Rational
    c.z = np.array([[q(case['s'] * ((7 * i + 3) % 11 - 5), 100) for i in range(N)],
                    [q((5 * i + 1) % 7 - 3, 10**5) for i in range(N)],
                    [q(case['w'][i % len(case['w'])], 10) for i in range(N)],
                    [q((3 * i) % 5 - 2, 10**4) for i in range(N)],
                    [q(case['s'] * ((11 * i + 2) % 7 - 3), 10**4) for i in range(N)],
                    [q((2 * i) % 3 - 1, 10**6) for i in range(N)]], dtype=object)
    f = case.get('f', 1)

    def stub(k, layers):
        def g(it_, env, node):
            Z = env['Z'] if 'Z' in env else env['z']
            if not isinstance(Z, np.ndarray):
                return NotImplemented
            cols = Z.shape[1]
            # what was asked for leaves its mark on the values
            mark = 1 + q(sum(ord(x) * (3 * i + 1) for i, x in enumerate(''.join(f'{p}={env.get(p)};' for p in ('phi', 'unit', 'val', 'normalize')
                                                                                if p in env))) % 997, 10**6)
            if not layers:
                return np.array([q(((i * 5 + k) % 9 - 4) * case.get('wl', 1), 3) * f * mark for i in range(cols)], dtype=object)
            rows = len(it_.call(it_.getattr(env['self'], 'get_zmesh'), [], dict(dz=env.get('dz', 2)), node))
            return np.array([[q((r * 3 + i * 7 + k) % 13 - 5, 7) * f * mark for i in range(cols)] for r in range(rows)], dtype=object)
        return g
    for i, k in enumerate(('Sxx', 'Txz', 'Szz', 'principal_stress_slab')):
        it.mstubs[k] = stub(i, True)
    it.mstubs['principal_stress_weaklayer'] = stub(2, False)
    return c


def concrete(v):
    return [sp.sympify(q) for q in v if q is not NAN and q is not TOP and not isinstance(q, Gate)]


def limits(fig, name):
    e = fig.calls(name, 'set_' + name)
    if len(e) != 1:
        return None
    a = e[0]['args']
    a = flat(a[0]) if len(a) == 1 else list(a[:2])
    for k in ({'xlim': ('left', 'right'), 'ylim': ('bottom', 'top')}[name] if not a else ()):
        if k in e[0]['kwargs']:
            a.append(e[0]['kwargs'][k])
    return a if len(a) == 2 and not any(q is TOP or q is NAN or isinstance(q, Gate) for q in a) else None


def perimeter(X, Y):
    """Border points of a grid."""
    n, m = X.shape
    return {(str(X[i, j]), str(Y[i, j])) for i in range(n) for j in range(m) if i in (0, n - 1) or j in (0, m - 1)}


def contour(ck, system, case, opt):
    tag = f"plot.deformed({', '.join(f'{k}={v}' for k, v in opt.items())}) [{system}, {case['name']}]"
    at = 'plot.deformed'
    with ck.guard('plot function draws', tag, on_raise=False):
        it = M.interp()
        it.extattr['numpy.inf'] = sp.Integer(10)**40  # beyond every coordinate of the state
        if 'dz' not in opt:
            D.ceil2(it)
        c = numeric(it, system, case)
        fig = drawn(it, 'deformed', dict(D.PLOTS['deformed'](c), **opt))
        ck.saw(it)
        got = [(e, [q for q in e['args'] if isinstance(q, np.ndarray) and q.ndim == 2]) for e in fig.calls('contourf')]
        ck.obl('slab and weak layer are drawn', tag, True if len(got) == 2 and all(len(g[1]) == 3 for g in got) else None, len(got), where=at)
        if len(got) != 2 or any(len(g[1]) != 3 for g in got):
            return
        (e1, (X, Y, F)), (e2, (Xw, Yw, Fw)) = got
        lv = []
        for e in (e1, e2):
            v = e['kwargs'].get('levels')
            if v is None:
                v = next((q for q in e['args'] if isinstance(q, (np.ndarray, list, tuple)) and np.ndim(q) == 1), None)
            lv.append(v if isinstance(v, np.ndarray) and v.ndim == 1 and len(concrete(v)) == len(v) else None)
        known = all(v is not None for v in lv)
        same = lambda a, b: a.shape == b.shape and D.conj(zero(it, p, q) for p, q in zip(a.tolist(), b.tolist()))
        ck.obl('slab and weak layer share one colour scale', tag + ' levels', same(*lv) if known else None, where=at)
        cm = [e['kwargs'].get('cmap') for e in (e1, e2)]
        ck.obl('slab and weak layer share one colour scale', tag + ' colour map', None if TOP in cm else cm[0] is cm[1] or it.same(cm[0], cm[1]),
               cm, where=at)
        for k in ('norm', 'vmin', 'vmax', 'extend'):
            a, b = (e['kwargs'].get(k) for e in (e1, e2))
            ck.obl('slab and weak layer share one colour scale', f'{tag} {k}', D.equal(it, a, b), f'{a} {b}', where=at)
        # values blanked for want of support: the slab next to them carries the same traction
        vals = concrete(F.ravel().tolist()) + (concrete(Fw.ravel().tolist()) if NAN not in Fw.ravel().tolist() else [])
        full = len(vals) == F.size + (Fw.size if NAN not in Fw.ravel().tolist() else 0) and all(q.is_number for q in vals)
        if known and full:
            v = lv[0].tolist()
            top = max(abs(q) for q in vals)
            n = opt.get('levels', 300)
            step = [zero(it, b - a, v[1] - v[0]) for a, b in zip(v, v[1:])]
            ck.obl('isolevels are equally spaced, increasing and as many as requested', tag, len(v) == n + 1 and v[1] > v[0] and D.conj(step),
                   f'{len(v)} levels {v[:2]}', where=at)
            ck.obl('zero has the neutral colour', tag, zero(it, v[0] + v[-1], 0), f'{v[0]} .. {v[-1]}', where=at)
            ck.obl('levels span the values shown', tag, bool(2 * v[-1] >= top and 2 * v[-1] <= 3 * top), f'{v[-1]} for values up to {top}', where=at)
            t = [e['kwargs'].get('ticks') for e in fig.calls('colorbar')]
            ok = len(t) == 1 and isinstance(t[0], np.ndarray) and t[0].size > 1
            ck.obl('colour bar covers the levels', tag, D.conj([zero(it, t[0][0], v[0]), zero(it, t[0][-1], v[-1])]) if ok else
                   None if len(t) == 1 else False, t, where=at)
        else:
            ck.obl('levels span the values shown', tag, None, 'values not constant', where=at)
        # unit on the colour bar
        lab = [s for e in fig.calls('colorbar', 'set_label') for s in strings(e) if '$' in s or '(' in s]
        fld = opt.get('field', 'principal')
        want = {'u': ('um', r'^\$?u'), 'w': ('um', r'^\$?w'), 'Sxx': ('kPa', r'\\sigma_\{?xx'), 'Txz': ('kPa', r'\\tau_\{?xz'),
                'Szz': ('kPa', r'\\sigma_\{?zz'), 'principal': ('kPa', r'\\sigma_.*I.*\\sigma_')}[fld]
        ratio = fld == 'principal' and opt.get('normalize', True)
        if len(lab) == 1:
            ck.obl('colour bar names field and unit', tag, bool(re.search(want[1], lab[0])) and (
                (unit(lab[0]) is None and r'/\sigma' in lab[0]) if ratio else unit(lab[0]) == want[0] or want[0] in lab[0]), lab, where=at)
        else:
            ck.obl('colour bar names field and unit', tag, None, lab, where=at)
        sc = opt.get('scale', 100)
        ts = [s for e in fig.calls('title', 'set_title') for s in strings(e)]
        ck.obl('title states the scale of the deformations', tag, None if not ts else any(re.search(rf'(?<!\d){sc}(?!\d)', s) for s in ts), ts, where=at)
        # grid coordinates of the undeformed slab
        sc = sp.sympify(sc)
        h = c.m.attrs['h']
        mesh = M.call(it, c.m, 'get_zmesh', dz=opt.get('dz', 2))[:, 0]
        U = np.vstack([flat(M.call(it, c.m, 'u', c.z, z0=q, unit='cm')) for q in mesh])
        W = np.array([flat(M.call(it, c.m, 'w', c.z, unit='cm'))] * len(mesh), dtype=object)
        if X.shape != U.shape:
            return
        # the field asked for
        phi, dz, nrm = D.PHI, opt.get('dz', 2), opt.get('normalize', True)
        call = lambda f, *a, **k: M.call(it, c.m, f, *a, **k)
        if fld in 'uw':
            ref = 10000 * (U if fld == 'u' else W)
            low = ref[-1]
        elif fld == 'principal':
            ref = call('principal_stress_slab', c.z, phi, dz=dz, val='max', unit='kPa', normalize=nrm)
            low = call('principal_stress_weaklayer', c.z, val='min', unit='kPa', normalize=nrm)
        else:
            ref = call(fld, c.z, phi, dz=dz, unit='kPa')
            low = np.full(c.x.size, sp.Integer(0), dtype=object) if fld == 'Sxx' else call(
                'get_weaklayer_shearstress' if fld == 'Txz' else 'get_weaklayer_normalstress', x=c.xb, z=c.z, unit='kPa')[1]
        ok = isinstance(ref, np.ndarray) and F.shape == ref.shape
        ck.obl('slab shows the requested field', tag, D.conj(zero(it, a, b) for a, b in zip(F.ravel().tolist(), ref.ravel().tolist())) if ok else False,
               F[0] if ok else f'{F.shape}', where=at)
        low = flat(low)
        ok = Fw.shape == (2, len(low))
        ck.obl('weak layer shows the requested field', tag, D.conj(zero(it, a, b) for r in Fw.tolist() for a, b in zip(r, low)) if ok else False,
               Fw[0] if ok else f'{Fw.shape}', where=at)
        mid = max(c.x.tolist()) / sp.Integer(2) if system in ('skier', 'skiers') else sp.Integer(0)
        X0 = np.array([[(q - mid) / 10 for q in c.x]] * len(mesh), dtype=object)
        Y0 = np.array([[(q + h / 2) / 10] * c.x.size for q in mesh], dtype=object)
        ck.obl('skier problems are drawn about their centre, others from the edge', tag, D.conj(
            zero(it, a, b) for a, b in zip(X.ravel().tolist(), (X0 + sc * U).ravel().tolist())), X[0], where=at)
        ck.obl('depth is measured from the undeformed surface', tag, D.conj(
            zero(it, a, b) for a, b in zip(Y.ravel().tolist(), (Y0 + sc * W).ravel().tolist())), Y[:, 0], where=at)
        # limits
        xl, yl = limits(fig, 'xlim'), limits(fig, 'ylim')
        pad = opt.get('pad', 2)
        allx = concrete(X0.ravel().tolist()) + concrete((X0 + sc * U).ravel().tolist())
        if xl is not None and yl is not None:
            win = opt.get('window')
            a, b = min(xl), max(xl)
            if win is None:
                ck.obl('full view shows the whole geometry with its padding', f'{tag} x', D.conj(
                    [zero(it, a, min(allx) - pad), zero(it, b, max(allx) + pad)]), f'{xl}', where=at)
            else:
                ck.obl('window has the requested width', tag, bool(b - a <= win), f'{xl}', where=at)
                j = max(range(c.x.size), key=lambda q: W[0, q])
                ck.obl('window is centred on the maximum deflection', tag, D.conj(
                    [zero(it, b, min(max(allx) + pad, X0[0, j] + sp.Rational(win) / 2)), zero(it, a, max(min(allx) - pad, X0[0, j] - sp.Rational(win) / 2))]),
                    f'{xl}, deepest at {X0[0, j]}', where=at)
            ally = concrete((Y0 + sc * W).ravel().tolist())
            a, b = min(yl), max(yl)
            ck.obl('full view shows the whole geometry with its padding', f'{tag} y', D.conj(
                [zero(it, b, max(ally) + pad), zero(it, a, min(Y0.ravel().tolist()) - pad)]), f'{yl}', where=at)
            flip = len(fig.calls('invert_yaxis')) % 2 == 1
            # limits set after the inversion fix the direction themselves
            order = [last(e) for e in fig.ev if last(e) in ('ylim', 'set_ylim', 'invert_yaxis')]
            down = bool(yl[0] > yl[1]) != (flip and bool(order) and order[-1] == 'invert_yaxis')
            ck.obl('depth axis points downward', tag, down, f'{yl} {order}', where=at)
            bl = [e['args'][0] for e in fig.calls('axhline') if e['args']]
            ck.obl('base line lies below the weak layer', tag, None if not bl else any(zero(it, q, b) is True for q in bl), f'{bl} {b}', where=at)
            ck.obl('weak layer reaches from the slab to the base line', tag, D.conj(
                [zero(it, Yw[1, j], b) for j in range(Yw.shape[1])] + [zero(it, Yw[0, j], Y[-1, j]) for j in range(Yw.shape[1])]),
                f'{Yw[:, 0]}', where=at)
        else:
            ck.obl('full view shows the whole geometry with its padding', tag, None, f'{xl} {yl}', where=at)
        # outlines
        lines = [(q['x'], q['y']) for q in fig.curves if q['x'].ndim == 1 and len(concrete(q['x'])) == q['x'].size == q['y'].size]
        for what, A, B in (('undeformed', X0, Y0), ('deformed', X0 + sc * U, Y0 + sc * W)):
            A, B = it.elem(sp.sympify, A), it.elem(sp.sympify, B)
            want = perimeter(A, B)
            ok = any({(str(p), str(q)) for p, q in zip(x.tolist(), y.tolist())} == want and (x[0], y[0]) == (x[-1], y[-1]) for x, y in lines)
            ck.obl('outline follows the border of the slab', f'{tag} {what}', ok, [x.size for x, _ in lines], where=at)
        if 'pst' in system:
            k = [j for j, q in enumerate(c.xb.tolist()) if q is not NAN]
            if k and Xw.shape[1] == c.xb.size:
                want = perimeter(Xw[:, k], Yw[:, k])
                ck.obl('outline follows the border of the weak layer', tag, any(
                    {(str(p), str(q)) for p, q in zip(x.tolist(), y.tolist())} == want for x, y in lines), [x.size for x, _ in lines], where=at)
        asp = [e['args'][0] for e in fig.calls('set_aspect') if e['args']]
        if asp:
            ck.obl('axes have the requested aspect', tag, asp[-1] == opt.get('aspect', 2), asp, where=at)


# --------------------------------------------------------------------- helpers
def helper(ck, what, *arg):
    tag = f'plot.{what}{arg}'
    mod = 'weac.plot.'
    with ck.guard('figure helper', tag):
        it = M.interp()
        f = it.get(mod + what)
        if what == 'outline':
            n, m = arg
            G = np.array([[R(f'g{i}_{j}') for j in range(m)] for i in range(n)], dtype=object)
            v = flat(it.call(f, [G], {}, None))
            idx = {G[i, j]: (i, j) for i in range(n) for j in range(m)}
            p = [idx.get(q) for q in v]
            border = {(i, j) for i in range(n) for j in range(m) if i in (0, n - 1) or j in (0, m - 1)}
            ck.obl('outline visits the border points and closes', tag, None not in p and set(p) == border and p[0] == p[-1]
                   and len(p) == len(border) + 1, p, where='plot.outline')
            ck.obl('outline goes from neighbour to neighbour', tag, None not in p and all(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1
                                                                                         for a, b in zip(p, p[1:])), p, where='plot.outline')
        elif what == 'tight_central_distribution':
            lim, n, t = arg
            v = it.call(f, [sp.Integer(lim)], dict(samples=n, tightness=sp.Rational(t)), None)
            v = concrete(flat(v))
            m = n // 2
            want = sorted({s * sp.Integer(lim) * sp.Rational(k, m - 1)**sp.Rational(t) for k in range(m) for s in (1, -1)})
            ck.obl('distribution is symmetric, increasing and spans the limit', tag, None if not v else len(v) == len(want) and D.conj(
                zero(it, a, b) for a, b in zip(v, want)), v, where='plot.' + what)
        elif what == 'significant_digits':
            v = it.call(f, [sp.Rational(arg[0])], {}, None)
            ck.obl('significant digits round to the leading figure', tag, None if v is TOP else int(v) == arg[1], v, where='plot.' + what)
        elif what == 'adjust_lightness':
            amount, kw = arg[0], ({} if arg[0] is None else dict(amount=sp.Rational(arg[0])))
            calls = []
            it.ext['matplotlib.colors.to_rgb'] = lambda it_, a, k, n: (R('red'), R('green'), R('blue'))
            it.ext['colorsys.rgb_to_hls'] = lambda it_, a, k, n: (calls.append(tuple(a)), (R('hue'), arg[1], R('sat')))[1]
            it.ext['colorsys.hls_to_rgb'] = lambda it_, a, k, n: ('back', tuple(a))
            v = it.call(f, ['red'], kw, None)
            ok = isinstance(v, tuple) and len(v) == 2 and v[0] == 'back' and len(v[1]) == 3
            l = min(sp.Integer(1), max(sp.Integer(0), sp.Rational(amount if amount is not None else '1/2') * arg[1]))
            ck.obl('only the lightness of a colour changes, within its range', tag, D.conj(
                [v[1][0] == R('hue'), v[1][2] == R('sat'), zero(it, v[1][1], l)]) if ok else None, v, where='plot.' + what)
            ck.obl('lightness is taken from the given colour', tag, calls == [(R('red'), R('green'), R('blue'))] if ok else None, calls,
                   where='plot.' + what)
        ck.saw(it)


CASES = [dict(name='deepest left', N=4, s=1, w=(9, 4, 2, 1)), dict(name='deepest right', N=5, s=-1, w=(1, 2, 3, 5, 8)),
         dict(name='uplift', N=4, s=1, w=(3, 7, 2, -4)), dict(name='gap', N=5, s=-1, w=(2, 6, 9, 4, 1), gap=(2,)),
         dict(name='weak layer dominates', N=4, s=1, w=(2, 5, 3, 1), wl=40), dict(name='small values', N=4, s=1, w=(2, 5, 3, 1), f=sp.Rational(1, 970)),
         dict(name='compression dominates', N=4, s=1, w=(2, 5, 3, 1), wl=sp.Rational(1, 4), f=sp.Rational(-13, 10))]


def check(ck):
    it = M.interp()
    if it.load('weac.plot') is None:
        raise Broken('anchor weac.plot not found')
    tasks = []
    for N in (1, 2, 3, 7, 12, 33, 80):
        for name in WRAP:
            for system in ('pst-', 'skiers') if N > 12 else ('pst-',):
                tasks.append((wrapper, name, system, N))
        tasks.append((criteria, N))
        for name, o in [('err_modes', {}), ('err_modes', dict(kind='dif')), ('err_modes', dict(kind='inc')), ('err_comp', {}),
                        ('err_comp', dict(mode=1)), ('err_comp', dict(mode=2))]:
            tasks.append((release, name, o, N))
    full = dict(mi=(1, 0, 1), ki=(1, 0, 0, 1))
    for N in (1, 2, 5, 20, 41):
        for case in [{}, dict(second=True), dict(blank=True), dict(blank=True, second=True), dict(vlines=False), dict(xlabel=True),
                     dict(pos=-50), dict(pos=3), full]:
            tasks.append((base, case, N))
    for mi in itertools.product((0, 1), repeat=3):
        for ki in itertools.product((True, False), repeat=4):
            tasks.append((base, dict(mi=mi, ki=ki), 12))
    tasks += [(base, dict(mi=(1, 1, 1), ki=(True, False, True, False), vlines=False), 12)]
    for gap in ((0, 1), (5,), (19,), (3, 4, 5, 17, 18)):
        tasks.append((base, dict(gap=gap, second=True), 20))
    for n in (1, 2, 3, 5):
        tasks.append((profile, n))
    for system in ('pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers'):
        for case in CASES:
            for f in ('u', 'w', 'Sxx', 'Txz', 'Szz', 'principal'):
                if ck.thorough or case is CASES[0] or f in ('w', 'principal') or system == 'skier':
                    tasks.append((contour, system, case, dict(field=f, levels=20)))
        for o in (dict(), dict(normalize=False, levels=10), dict(window=60, levels=10), dict(window=sp.Rational(1, 2), levels=10), dict(scale=20, levels=10),
                  dict(pad=5, levels=10), dict(aspect=1, levels=10), dict(dark=True, levels=10),
                  dict(dz=20, levels=10), *(dict(dz=20, levels=10, field=f) for f in ('u', 'w', 'Sxx', 'Txz', 'Szz'))):
            for case in CASES[:3] if o else CASES[:1]:
                tasks.append((contour, system, case, o))
    for n, m in ((2, 2), (2, 5), (3, 4), (5, 2), (4, 4)):
        tasks.append((helper, 'outline', n, m))
    for a in ((4, 6, 2), (9, 10, 1), (16, 8, '1/2')):
        tasks.append((helper, 'tight_central_distribution', *a))
    for a in (('1/300', 3), ('7/10', 1), ('3', 0), ('42', -1), ('999', -2), ('1/50', 2)):
        tasks.append((helper, 'significant_digits', *a))
    for a in (None, '9/10', '3', '0', '-1'):
        tasks.append((helper, 'adjust_lightness', a, sp.Rational(2, 5)))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


if __name__ == '__main__':
    main('C30', RULE, check, minimum=1500, assumptions=[
        'representative orders of the displacements, fields and layers for limits and levels (constants are propagated); everything else for '
        'every value', 'matplotlib draws what it is asked to draw'])
