"""C10: evaluating results changes neither the model nor caller data."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import model as M, drive as D
from vlib.model import S, R, P
from vlib.interp import AbsRaise
from vlib.harness import main, Broken

RULE = ('Effect analysis by abstract interpretation: for every public method and plot function, every documented option value, system and '
        'contact stage, the heap reachable from the model and from the arguments after the call equals (term by term, hence for all inputs) '
        'the heap before it; a second identical call returns equal terms.')
MUT = ('set_', 'calc_segments', 'calc_touchdown', 'calc_foundation_stiffness', 'calc_laminate', 'calc_eigensystem', 'calc_fundamental')
EXTRA = {'unit': (), 'val': ('min', 'max'), 'pos': ('l', 'mid', 'r'), 'support': ('rested', 'supported'), 'dof': ('rot', 'trans')}


def check(ck):
    it = M.interp()
    base = it.get('weac.layered.Layered')
    names = D.public(base)
    if len(names) < 20:
        raise Broken('public methods not found')
    states = [('pst-', 'A'), ('-pst', 'B'), ('pst-', 'C'), ('skiers', 'A'), ('vpst-', 'A'), ('-vpst', 'A'), ('skier', 'A')]
    tasks = []
    for name, f in sorted(names.items()):
        ps = D.params(f)[0]
        sysdep = {'C', 'C0', 'li', 'L', 'support', 'pos'} & set(ps) or name in ('bc', 'calc_a1', 'calc_a2', 'calc_lA', 'calc_lB', 'calc_lC')
        for system, mode in states if sysdep else states[:1]:
            if name == 'calc_segments' and system == 'skiers':
                pass
            for opts in D.option_sets(f, EXTRA):
                tag = f"{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{system} {mode}]"
                tasks.append((one, name, f.qual, system, mode, opts, tag))
    for name in sorted(D.PLOTS, key=lambda k: k != 'deformed'):
        for system in ('pst-', 'skiers') if name in ('displacements', 'deformed') else ('pst-',):
            for opts in D.PLOT_OPTS.get(name, [{}]) if system == 'pst-' else [{}]:
                tasks.insert(0, (plot, name, system, opts))
    lay, rho = M.slabmat(3)[:, :2], M.arr([P('rho0'), P('rho1'), P('rho2')])
    for fn, kw in (('calc_center_of_gravity', dict(layers=lay)), ('calc_vertical_bc_center_of_gravity', dict(slab=M.slabmat(3), phi=R('phi'))),
                   ('scapozza', dict(rho=rho)), ('gerling', dict(rho=rho)), ('bergfeld', dict(rho=rho)),
                   ('tensile_strength_slab', dict(rho=rho)), ('load_dummy_profile', dict(profile_id='comp'))):
        tasks.append((tool, fn, kw))
    for form in ('array', 'list', 'tuple'):
        for meth in ('set_beam_properties', 'Layered'):
            tasks.append((layering, meth, form))
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)


def one(ck, name, f, system, mode, opts, tag):
    rule = 'no effect on model and arguments'
    with ck.guard(rule, tag):
        it = M.interp()
        D.ceil2(it)
        m = D.ready(it, system, mode)
        f2 = it.getattr(m, name)
        try:
            kw = D.arguments(it, m, name, f2.func, system, opts=opts)
        except D.Skip:
            return
        if name in ('calc_segments',) and system == 'skiers':
            kw.update(li=list(D.lens(3)), mi=[P('m0'), P('m1')], ki=[True, False, True], k0=[True, True, True])
        elif name == 'calc_segments':
            for k in ('li', 'mi', 'ki', 'k0'):
                kw.pop(k, None)
        if name == 'calc_touchdown_system' or name == 'calc_segments':
            m.attrs['touchdown'] = False
        before, args = M.snapshot(m), D.copy(kw)
        try:
            r1 = it.call(f2, [], dict(kw), None)
        except AbsRaise as e:
            r1 = e.exc
        ck.saw(it)
        v = D.equal(it, {k: x for k, x in kw.items() if k != 'z0' and k != 'z1'},
                    {k: x for k, x in args.items() if k != 'z0' and k != 'z1'})
        ck.obl('arguments unchanged', tag, v, 'an argument is modified' if v is False else '', where=name)
        if name.startswith(MUT):
            return
        after = m.attrs
        for k in sorted(set(before) | set(after)):
            if k not in after:
                ck.obl(rule, tag + ': ' + k, False, f'attribute {k} removed', where=name)
            elif k in before:
                v = D.equal(it, before[k], after[k])
                if v is not True:
                    ck.obl(rule, tag + ': ' + k, v, f'attribute {k} was {str(before[k])[:200]} is {str(after[k])[:200]}', where=name)
        ck.obl(rule, tag, True)
        if isinstance(r1, str):
            return
        r1c = D.copy(r1)
        r2 = it.call(f2, [], dict(kw), None)
        v = D.equal(it, r1c, r2)
        ck.obl('repeated call gives the same answer', tag, v, '' if v else f'{str(r1c)[:200]} then {str(r2)[:200]}', where=name)
        # extra state (caches) must not leak into a call with other arguments
        extra = set(after) - set(before)
        if extra or ck.thorough:
            try:
                kw2 = D.arguments(it, m, name, f2.func, system, opts=opts, tag='q')
            except D.Skip:
                return
            r3 = it.call(f2, [], dict(kw2), None)
            m2 = D.ready(it, system, mode)
            r4 = it.call(it.getattr(m2, name), [], dict(kw2), None)
            v = D.equal(it, r3, r4)
            ck.obl('call with other arguments is independent of earlier calls', tag, v,
                   '' if v else f'{str(r3)[:200]} instead of {str(r4)[:200]}', where=name)


def tool(ck, fn, kw):
    rule = 'arguments unchanged'
    with ck.guard(rule, 'tools.' + fn):
        it = M.interp()
        args = D.copy(kw)
        f = it.get('weac.tools.' + fn)
        r1 = it.call(f, [], dict(kw), None)
        ck.saw(it)
        v = D.equal(it, kw, args)
        ck.obl(rule, 'tools.' + fn, v, 'an argument is modified' if v is False else '', where=fn)
        c = D.copy(r1)
        v = D.equal(it, c, it.call(f, [], dict(kw), None))
        ck.obl('repeated call gives the same answer', 'tools.' + fn, v, '' if v else str(c)[:200], where=fn)


def layering(ck, meth, form):
    """The layering handed over by the caller stays as it is."""
    rule = 'arguments unchanged'
    tag = f'{meth}(layers as {form})'
    with ck.guard(rule, tag):
        it = M.interp()
        lay = M.slabmat(3)[:, :2].tolist()
        lay = M.arr(lay) if form == 'array' else tuple(map(tuple, lay)) if form == 'tuple' else lay
        kept = D.copy(lay)
        if meth == 'Layered':
            m = it.call(it.get('weac.layered.Layered'), [], dict(system='skier', layers=lay), None)
        else:
            m = M.model(it, abstract=False)
            m.attrs['g'] = S.g
            M.call(it, m, meth, lay, update=True)
        ck.saw(it)
        for nm, do in (('', None), (' then get_weight_load', lambda: M.call(it, m, 'get_weight_load', R('phi'))),
                       (' then set_foundation_properties', lambda: M.call(it, m, 'set_foundation_properties', P('t2'), update=True))):
            if do:
                do()
            v = D.equal(it, lay, kept)
            ck.obl(rule, tag + nm, v, 'the layering of the caller is modified' if v is False else '', where=meth)


def plot(ck, name, system, opts):
    rule = 'no effect of plotting on model and arguments'
    tag = f"plot.{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{system}]"
    with ck.guard(rule, tag):
        it = M.interp()
        D.ceil2(it)
        D.stub_stress(it)
        c = D.PlotCase(it, system, 4 if name == 'deformed' else 130)
        kw = dict(D.PLOTS[name](c), **opts)
        before, args = M.snapshot(c.m), D.copy({k: v for k, v in kw.items() if k != 'instance'})
        it.call(it.get('weac.plot.' + name), [], dict(kw), None)
        ck.saw(it)
        v = D.equal(it, {k: v for k, v in kw.items() if k != 'instance'}, args)
        ck.obl(rule, tag + ': arguments', v, where='plot.' + name)
        v = D.equal(it, before, c.m.attrs)
        ck.obl(rule, tag + ': model', v, where='plot.' + name)


if __name__ == '__main__':
    main('C10', RULE, check, minimum=100, assumptions=['library calls do not modify their arguments except where documented'])
