"""C12: temporary reconfiguration is always undone."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D
from vlib.model import S, R, P
from vlib.interp import AbsRaise
from vlib.harness import main, Broken

RULE = ('Exceptional control-flow analysis by abstract interpretation: the auxiliary problems (and everything that calls them) are run '
        'once per raise point, each library call and method call made in the auxiliary configuration being forced to fail in turn; at '
        'every normal and exceptional exit system type, weak-layer stiffness, fundamental system and every other attribute the routine is '
        'not there to set (inclination, lengths, stage, loads) equal those at entry.')
EIGFAM = {'eig', 'calc_system_matrix', 'calc_eigensystem', 'calc_fundamental_system', 'calc_foundation_stiffness',
          'calc_laminate_stiffness_matrix', 'get_ply_coordinates'}
CORE = ('system', 'kn', 'kt', 'ewC', 'ewR', 'evC', 'evR', 'sC', 'sR', 'A11', 'B11', 'D11', 'kA55', 'K0', 'touchdown', 'weak', 't', 'slab', 'h', 'zs')


def case(name):
    """(system, mode, touchdown, method, kwargs, attributes to compare)"""
    z = M.Zvec(1)
    two = dict(phi=R('phi'), li=M.arr([P('l0'), P('l1')]), mi=M.arr([0]))
    c = {
        'substitute_stiffness(rested, rot)': ('pst-', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='rested', dof='rot')),
        'substitute_stiffness(rested, trans)': ('pst-', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='rested', dof='trans')),
        'substitute_stiffness(supported, rot)': ('-pst', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='supported', dof='rot')),
        'substitute_stiffness(supported, trans)': ('pst-', 'B', 'substitute_stiffness', dict(L=P('Ls'), support='supported', dof='trans')),
        'substitute_stiffness(defaults)': ('vpst-', 'A', 'substitute_stiffness', dict(L=P('Ls'))),
        # an undoing division cannot give back what a multiplication by this ratio has lost
        'substitute_stiffness(rested, ratio 0)': ('pst-', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='rested', dof='rot')),
        'substitute_stiffness(unknown support)': ('pst-', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='floating', dof='rot')),
        'substitute_stiffness(unknown dof)': ('pst-', 'A', 'substitute_stiffness', dict(L=P('Ls'), support='rested', dof='twist')),
        'calc_a1': ('pst-', 'A', 'calc_a1', {}),
        'calc_a2': ('-pst', 'A', 'calc_a2', {}),
        'calc_lC': ('pst-', 'C', 'calc_lC', {}),
        'bc mode C right': ('pst-', 'C', 'bc', dict(z=z, k=False, pos='r')),
        'bc mode C left': ('-pst', 'C', 'bc', dict(z=z, k=False, pos='l')),
        'assemble_and_solve mode C pst-': ('pst-', 'C', 'assemble_and_solve', dict(two, ki=D.boolarr((True, False)))),
        'assemble_and_solve mode C -pst': ('-pst', 'C', 'assemble_and_solve', dict(two, ki=D.boolarr((False, True)))),
        'calc_touchdown_mode': ('pst-', 'A', 'calc_touchdown_mode', {}),
        'calc_touchdown_system': ('pst-', 'A', 'calc_touchdown_system', dict(L=P('L'), a=P('a'), cf=P('cf'), phi=R('phi'))),
        'calc_segments': ('-pst', 'A', 'calc_segments', dict(L=P('L'), a=P('a'), cf=P('cf'), phi=R('phi'))),
    }
    return c if name is None else c[name]


def run(name, k, kind):
    """One run; the k-th raise point of the given kind fails.  -> (it, m, before, points, how)"""
    system, mode, meth, kw = case(name)
    it = M.interp()
    D.ceil2(it)
    m = D.ready(it, system, mode, touchdown=True)
    if 'ratio 0' in name:
        m.attrs['ratio'] = 0
    before = M.snapshot(m)
    state = dict(n=0, hit='')

    def aux(fam):
        a = m.attrs
        if not (it.same(a['kn'], before['kn']) and it.same(a['kt'], before['kt'])):
            return True
        return a['system'] != before['system'] and fam not in EIGFAM

    def point(nme):
        if not aux(nme) and nme != 'brentq':
            return False
        state['n'] += 1
        if k is not None and state['n'] == k:
            state['hit'] = f"{nme} called at {it.where()}"
            return True
        return False
    if kind == 'library':
        it.force_raise = lambda nme, node: 'LinAlgError' if point(nme) else None
    elif kind == 'method':
        def mk(nme):
            def st(it_, env, node):
                if point(nme):
                    raise AbsRaise('RuntimeError', ('forced',), node)
                return NotImplemented
            return st
        for nme in D.public(m.cls):
            it.mstubs[nme] = mk(nme)
    f = it.getattr(m, meth)
    how = 'returns'
    try:
        it.call(f, [], dict(kw), None)
    except AbsRaise as e:
        how = f'raises {e.exc}'
    return it, m, before, state, how


# attributes the outer routine is there to set
OWN = {'calc_touchdown_mode': {'mode'}, 'calc_touchdown_system': {'mode', 'td', 'tc', 'L', 'a', 'phi', 'ratio'},
       'calc_segments': {'mode', 'td', 'tc', 'L', 'a', 'phi', 'ratio'}}


def compare(ck, tag, it, m, before, how):
    bad = None
    name = tag.split(':')[0]
    own = OWN.get(name, ())
    want = dict(before)
    if how == 'returns':
        kw = case(name)[3]
        want.update({a: kw[a] for a in ('L', 'a', 'phi') if a in own and a in kw})
        own = {a for a in own if a not in kw}
    before = want
    for a in [q for q in dict.fromkeys(CORE + tuple(before)) if q in CORE or q not in own]:
        if a not in before:
            continue
        if a not in m.attrs:
            v = False
        else:
            v = D.equal(it, before[a], m.attrs[a])
        if v is not True:
            ck.obl('configuration restored', f'{tag}: {a}', v,
                   f'{how}; {a} was {str(before[a])[:200]}, is {str(m.attrs.get(a))[:200]}', where=tag)
            bad = a
    if bad is None:
        ck.obl('configuration restored', tag, True)


def one(ck, name, kind, limit):
    with ck.guard('configuration restored', f'{name} {kind}'):
        it, m, before, st, how = run(name, None, kind)
        ck.saw(it)
        compare(ck, f'{name}: normal exit', it, m, before, how)
        n = st['n']
        ck.notes.append(f'{name}: {n} {kind} raise points')
        ks = range(1, n + 1) if n <= limit else sorted({1 + (n - 1) * i // (limit - 1) for i in range(limit)})
        for k in ks:
            it, m, before, st, how = run(name, k, kind)
            if st['hit']:
                compare(ck, f"{name}: {how} after failure of {st['hit']}", it, m, before, how)


def check(ck):
    it = M.interp()
    if not it.get('weac.layered.Layered').find('substitute_stiffness')[1]:
        raise Broken('anchor substitute_stiffness not found')
    lim = 400 if ck.thorough else 24
    ck.pmap(one, [(n, k, lim if 'substitute' not in n else 400) for n in case(None) for k in ('library', 'method')])


if __name__ == '__main__':
    main('C12', RULE, check, minimum=60, assumptions=[
        'exceptions arise in library or method calls; recomputing the eigen-decomposition of the unchanged model succeeds as it did before'])
