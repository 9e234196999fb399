"""C20: plotting leaves graphics state and file system as found."""
import os
import posixpath
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import sympy as sp
from vlib import model as M, drive as D
from vlib.interp import AbsRaise, ExtObj, Ext, Gate, Func, TOP
from vlib.model import S, R, P
from vlib.harness import main, Broken

RULE = ('Typestate over abstract interpretation of every plot function and option: an automaton of the pyplot figure stack, style parameters '
        'and shared colour maps is kept in the abstract heap (hence per path); every drawing call must act on a figure the function created, '
        'each created figure must be closed and no other, the style restored at every normal exit, every written path lie below plots/.')
CALLER = 'caller'
# pyplot functions without effect on figures
NEUTRAL = {'show', 'get_fignums', 'get_figlabels', 'fignum_exists', 'isinteractive', 'get_cmap', 'get_backend', 'pause', 'draw_if_interactive',
           'getp', 'colormaps', 'Normalize', 'cm', 'rcParamsDefault'}
GLOBAL = {'ion', 'ioff', 'switch_backend', 'set_cmap', 'install_repl_displayhook', 'uninstall_repl_displayhook', 'register_cmap'}
STYLE = {'rc', 'style.use', 'rcParams.update', 'xkcd', 'rcParams.setdefault', 'rcParams.clear', 'rcParams.pop'}
WRITERS = {'os.mkdir': 0, 'os.makedirs': 0, 'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'shutil.rmtree': 0, 'os.chdir': 0, 'os.removedirs': 0,
           'numpy.save': 0, 'numpy.savetxt': 0, 'numpy.savez': 0, 'os.rename': 1, 'os.replace': 1, 'shutil.move': 1, 'shutil.copy': 1, 'os.symlink': 1}
PYPLOT = ('matplotlib.pyplot.', 'matplotlib.pylab.', 'pylab.')


class World:
    """Graphics automaton; its state lives in the abstract heap so that branches are joined."""

    def __init__(self, it, stack, isdir):
        self.it, self.isdir = it, isdir
        self.env = {'stack': tuple(stack), 'rc': 'entry', 'closed': (), 'saved': ()}
        self.n = 0
        self.made = []
        self.bad = []        # (rule, what, where)
        self.unknown = []
        self.rcs = []
        self.writes = []

    def get(self, k):
        return self.env[k]

    def up(self, k, f):
        def go(v):
            if isinstance(v, Gate):
                return self.it.ite(v.cond, go(v.a), go(v.b))
            return f(v)
        self.it.set_env(self.env, k, go(self.env[k]))

    def flag(self, rule, what):
        self.bad.append((rule, what, self.it.where()))

    def current(self):
        s = self.env['stack']
        if isinstance(s, Gate):
            return None
        return s[-1] if s else ''

    def create(self):
        self.n += 1
        f = f'fig#{self.n}'
        self.made.append(f)
        self.up('stack', lambda s: s + (f,))
        return f

    def draw(self, what):
        c = self.current()
        if c == CALLER:
            self.flag('draws only on a figure it created', f'{what} acts on the current figure of the caller')
        elif c == '':
            self.create()
        elif c is None:
            self.unknown.append(f'{what}: current figure depends on a condition')
        return self.current() or 'fig?'

    def close(self, args):
        a = args[0] if args else None
        if a is None:
            if self.current() == CALLER:
                self.flag('closes exactly the figure it created', 'close() closes the figure of the caller')
            self.up('stack', lambda s: s[:-1])
        elif isinstance(a, ExtObj) and a.origin.startswith('fig#'):
            nm = a.origin.split('.')[0]
            self.up('stack', lambda s: tuple(x for x in s if x != nm))
        elif isinstance(a, ExtObj) and a.origin.startswith(CALLER):
            self.flag('closes exactly the figure it created', 'close(fig) closes the figure of the caller')
            self.up('stack', lambda s: tuple(x for x in s if x != CALLER))
        elif isinstance(a, str) and a == 'all':
            s = self.env['stack']
            if isinstance(s, Gate) or CALLER in s:
                self.flag('closes exactly the figure it created', "close('all') closes the figures of the caller")
            self.up('stack', lambda s: ())
        else:
            self.unknown.append(f'close({a})')

    def pyplot(self, name, args, kwargs):
        if name in ('figure', 'subplots', 'subplot_mosaic'):
            num = kwargs.get('num', args[0] if args and name == 'figure' else None)
            if isinstance(num, ExtObj) and num.origin.startswith('fig#'):
                nm = num.origin.split('.')[0]
                self.up('stack', lambda s: tuple(x for x in s if x != nm) + ((nm,) if nm in s else ()))
                return num
            if num is not None:
                self.flag('draws only on a figure it created', f'{name}(num={num}) may select a figure of the caller')
            f = self.create()
            return ExtObj(f) if name == 'figure' else (ExtObj(f), ExtObj(f + '.axes'))
        if name == 'close':
            self.close(args or [v for k, v in kwargs.items() if k == 'fig'])
            return None
        if name == 'rcdefaults':
            self.up('rc', lambda s: 'default')
            return None
        if name in ('rc_context', 'style.context'):
            self.rcs.append(self.env['rc'])
            self.up('rc', lambda s: 'modified')
            return ExtObj('rc_context')
        if name in STYLE or name.startswith('rcParams.') and name.split('.')[1] in ('update', 'clear', 'pop', 'setdefault', '__setitem__'):
            if name == 'style.use' and args and args[0] == 'default':
                self.up('rc', lambda s: 'default')
            elif name == 'rcParams.update' and args and isinstance(args[0], (Ext, ExtObj)) and 'rcParamsDefault' in str(getattr(args[0], 'path', '')):
                self.up('rc', lambda s: 'default')
            else:
                self.up('rc', lambda s: 'modified')
            return None
        if name in GLOBAL:
            self.flag('global graphics state is left alone', f'pyplot.{name}')
            return None
        if name.split('.')[0] in NEUTRAL or name.split('.')[0] in ('rcParams', 'style'):
            return NotImplemented
        c = self.draw('pyplot.' + name)
        if name == 'savefig':
            self.save(args, kwargs, c)
            return None
        return ExtObj(f'{c}.{name}')

    def save(self, args, kwargs, fig):
        p = args[0] if args else kwargs.get('fname')
        self.writes.append(('savefig', p, self.it.where()))
        self.up('saved', lambda s: s + (p if isinstance(p, str) else '?',))

    def hook(self, path):
        if path.startswith(PYPLOT):
            name = next(path[len(p):] for p in PYPLOT if path.startswith(p))
            if re.match(r'cm\.\w+\.', name):
                return None
            return lambda it, args, kwargs, node: self.pyplot(name, args, kwargs)
        if path in ('matplotlib.rcdefaults', 'matplotlib.rc', 'matplotlib.style.use', 'matplotlib.rc_context', 'matplotlib.style.context',
                    'matplotlib.rcParams.update'):
            return lambda it, args, kwargs, node: self.pyplot(path[len('matplotlib.'):], args, kwargs)
        if path == 'rc_context.__exit__':
            def leave(it, args, kwargs, node):
                old = self.rcs.pop()
                self.up('rc', lambda s: old)
            return leave
        m = re.match(r'(fig#\d+|fig\?|caller)\.(.*)', path)
        if m:
            def method(it, args, kwargs, node, fig=m[1], name=m[2]):
                last = name.split('.')[-1]
                if fig == CALLER:
                    self.flag('draws only on a figure it created', f'{name} acts on a figure of the caller')
                if last == 'savefig':
                    self.save([a for a in args if not isinstance(a, ExtObj)], kwargs, fig)
                return NotImplemented
            return method
        if path == 'os.getcwd':
            return lambda it, args, kwargs, node: '/cwd'
        if path in ('os.path.join', 'os.path.abspath', 'os.path.normpath', 'os.path.dirname', 'os.path.basename', 'os.path.splitext'):
            def pj(it, args, kwargs, node):
                if not all(isinstance(a, str) for a in args):
                    return NotImplemented
                if path.endswith('abspath'):
                    return posixpath.normpath(posixpath.join('/cwd', args[0]))
                return getattr(posixpath, path.rsplit('.', 1)[1])(*args)
            return pj
        if path in ('os.path.isdir', 'os.path.exists'):
            return lambda it, args, kwargs, node: self.isdir if args and isinstance(args[0], str) and absolute(args[0]) == '/cwd/plots' else NotImplemented
        if path in WRITERS:
            def wr(it, args, kwargs, node):
                p = args[WRITERS[path]] if len(args) > WRITERS[path] else next(iter(kwargs.values()), None)
                self.writes.append((path, p, it.where()))
                if path == 'os.mkdir' and isinstance(p, str) and absolute(p) == '/cwd/plots':
                    if self.isdir:
                        raise AbsRaise('FileExistsError', (), node)
                    self.isdir = True
                return NotImplemented
            return wr
        return None


class Hooks(dict):
    def __init__(self, d, world):
        super().__init__(d)
        self.world = world

    def get(self, k, d=None):
        if k in self:
            return dict.get(self, k)
        h = self.world.hook(k)
        return d if h is None else h


def absolute(p):
    return posixpath.normpath(posixpath.join('/cwd', p))


def run(name, system, opts, caller, notebook, isdir, junk=False):
    it = M.interp()
    D.ceil2(it)
    D.stub_stress(it)
    it.stubs['isnotebook'] = lambda it_, env, node: notebook
    c = D.PlotCase(it, system, 4 if name == 'deformed' else 130)
    kw = dict(D.PLOTS[name](c), **opts)
    w = World(it, [CALLER] if caller else [], isdir)
    it.ext = Hooks(it.ext, w)
    ev0 = len(it.events)
    exc = None
    try:
        it.call(it.get('weac.plot.' + name), [], dict(kw), None)
    except AbsRaise as e:
        exc = e
    return it, w, exc, it.events[ev0:]


def one(ck, name, system, opts, caller, notebook, isdir):
    tag = f"plot.{name}({', '.join(f'{k}={v}' for k, v in opts.items())}) [{system}" + (', open figure' if caller else '') \
        + (', notebook' if notebook else '') + (', plots exists' if isdir else '') + ']'
    with ck.guard('plot function', tag):
        it, w, exc, events = run(name, system, opts, caller, notebook, isdir)
        ck.saw(it)
        if exc is not None:
            sure = exc.exc in ('FileExistsError', 'IndexError', 'UnboundLocalError') or exc.exc == 'TypeError' and re.search(
                r'not iterable|missing|unexpected keyword|positional', str(exc.eargs))
            ck.obl('plot completes', tag, False if sure else None,
                   f'raises {exc.exc}{exc.eargs}', where=exc.where or '')
            return
        at = 'plot.' + name
        end = w.get('stack')
        und = None if w.unknown else True
        first = lambda rule: next((b for b in w.bad if b[0] == rule), None)
        for rule in ('draws only on a figure it created', 'closes exactly the figure it created', 'global graphics state is left alone'):
            b = first(rule)
            ck.obl(rule, tag, False if b else und, b[1] if b else w.unknown[:2], where=b[2] if b else at)
        ck.obl('draws on a figure', tag, bool(w.made), 'no figure created', where=at)
        want = (CALLER,) if caller else ()
        ck.obl('figures at exit are those at entry', tag, leaves(end, want), f'open at exit: {end}', where=at)
        ck.obl('style at exit is the default', tag, leaves(w.get('rc'), 'default', 'entry'), f"style at exit: {w.get('rc')}", where=at)
        # style parameters set item by item
        for e in events:
            o = e.get('obj')
            p = str(getattr(o, 'path', getattr(o, 'origin', '')))
            if e['kind'] == 'ext_setitem' and 'rcParams' in p:
                ck.obl('style at exit is the default', tag + ': rcParams', None, 'style parameter set item by item', where=at)
        bad = [e for e in events if e['kind'] == 'ext_call' and re.search(r'(^|\.)cm\.\w+\.(set_\w+|_init|_set_extremes)$', e['path'])]
        bad += [e for e in events if e['kind'] in ('ext_setattr', 'ext_setitem') and
                re.search(r'(^|\.)cm\.\w+$', str(getattr(e['obj'], 'path', getattr(e['obj'], 'origin', ''))))]
        ck.obl('shared colour maps are not modified', tag, not bad, bad[:1], where=at)
        # file effects
        opened = [('open', e['args'][0], at) for e in events if e['kind'] == 'ext_call' and e['path'] == 'builtins.open'
                  and (len(e['args']) > 1 or 'mode' in e['kwargs'])]
        for kind, p, where in w.writes + opened:
            if not isinstance(p, str):
                ck.obl('writes only below plots', f'{tag}: {kind}', None, p, where=where)
                continue
            q = absolute(p)
            ok = q == '/cwd/plots' if kind in ('os.mkdir', 'os.makedirs') else q.startswith('/cwd/plots/') and kind in ('savefig', 'open')
            ck.obl('writes only below plots', f'{tag}: {kind}', ok, p, where=where)
        saved = w.get('saved')
        saved = saved if not isinstance(saved, Gate) else None
        if notebook:
            ck.obl('figure is shown or saved', tag, saved == () if saved is not None else None, saved, where=at)
            return
        ck.obl('figure is shown or saved', tag, len(saved) == 1 if saved is not None else None, saved, where=at)
        if not isdir and saved:
            made = [k for k, (kind, p, _) in enumerate(w.writes) if kind in ('os.mkdir', 'os.makedirs')]
            sv = [k for k, (kind, p, _) in enumerate(w.writes) if kind == 'savefig']
            ck.obl('plots directory exists before saving', tag, bool(made) and made[0] < sv[0], w.writes, where=at)
        if saved and len(saved) == 1 and saved[0] != '?':
            req = opts.get('filename', {'deformed': 'cont', 'plot_data': 'custom'}.get(name))
            base = posixpath.basename(saved[0])
            if req is not None:
                ck.obl('file carries the requested name', tag, absolute(saved[0]) == f'/cwd/plots/{req}.png', saved[0], where=at)
            else:
                ck.obl('file carries the requested name', tag, base.endswith('.png') and (('i' not in opts) or str(opts['i']) in base), saved[0], where=at)
            ck.notes.append(f'file {tag} {saved[0]}')


def leaves(v, *want):
    if isinstance(v, Gate):
        return D.conj([leaves(v.a, *want), leaves(v.b, *want)])
    return v in want


def refused(ck, name, opts, caller):
    tag = f"plot.{name}({', '.join(f'{k}={v!r}' for k, v in opts.items())})" + (' with open figure' if caller else '')
    rule = 'refused request leaves no figure'
    with ck.guard(rule, tag):
        it, w, exc, events = run(name, 'pst-', opts, caller, False, False)
        ck.saw(it)
        if exc is None:
            ck.obl('undefined field is refused', tag, False, 'accepted', where='plot.' + name)
            return
        ck.obl('undefined field is refused', tag, exc.exc in ('ValueError', 'KeyError', 'IndexError'), exc.exc, where='plot.' + name)
        want = (CALLER,) if caller else ()
        ck.obl(rule, tag, leaves(w.get('stack'), want), f"open: {w.get('stack')}", where='plot.' + name)
        ck.obl('refused request writes nothing', tag, not w.writes, w.writes, where='plot.' + name)


def direct(ck, name, plots):
    """save_plot: name and directory."""
    tag = f'save_plot({name!r})' + (', plots exists' if plots else '')
    with ck.guard('file carries the requested name', tag):
        it = M.interp()
        it.stubs['isnotebook'] = lambda it_, env, node: False
        w = World(it, ['fig#0'], plots)
        it.ext = Hooks(it.ext, w)
        it.call(it.get('weac.plot.save_plot'), [], dict(name=name), None)
        s = w.get('saved')
        ck.obl('file carries the requested name', tag, isinstance(s, tuple) and len(s) == 1 and absolute(s[0]) == f'/cwd/plots/{name}.png', s,
               where='plot.save_plot')
        ck.saw(it)


def check(ck):
    it = M.interp()
    mod = it.load('weac.plot')
    if mod is None:
        raise Broken('weac.plot not found')
    tasks = []
    known = [n for n in D.PLOTS if isinstance(mod.env.get(n), Func)]
    if len(known) < 8:
        raise Broken('anchor plot functions not found')
    for name in known:
        sets = [dict(o) for o in D.PLOT_OPTS.get(name, [{}])]
        if name == 'deformed':
            sets.append(dict(filename='my_plot'))
        if name in ('displacements', 'section_forces', 'stresses'):
            sets += [dict(i=3), dict(i=0)]
        for k, o in enumerate(sets):
            sysn = ('pst-', 'skiers', 'skier', '-pst', 'vpst-') if k == 0 and name in ('deformed', 'displacements') else ('pst-',)
            for system in sysn:
                for caller in (True, False):
                    tasks.append((one, name, system, o, caller, False, caller))
            tasks.append((one, name, 'pst-', o, True, True, False))
            tasks.append((one, name, 'pst-', o, True, False, False))
    for f in ('junk', '', 'U', 'sxx', 'Principal', None, 'v'):
        for caller in (True, False):
            tasks.append((refused, 'deformed', dict(field=f), caller))
    for nm in ('x', 'a_b', 'profile.v1'):
        for plots in (True, False):
            tasks.append((direct, nm, plots))
    tasks.sort(key=lambda t: t[1] != 'deformed')
    ck.pmap(lambda c, f, *a: f(c, *a), tasks)
    # different plot functions do not overwrite each other's files
    files = {}
    for n in ck.notes:
        m = re.match(r'file plot\.(\w+)\((.*?)\) .* (\S+)$', n)
        if m:
            files.setdefault(m[3], set()).add(m[1])
    for f, who in sorted(files.items()):
        ck.obl('each plot function has its own file', f, len(who) == 1, sorted(who))
    ck.notes[:] = [n for n in ck.notes if not n.startswith('file ')]


if __name__ == '__main__':
    main('C20', RULE, check, minimum=200, assumptions=[
        'pyplot state machine as documented: figure() opens and selects, close() closes the selected figure, rcdefaults() restores the default style',
        'the requested name is a plain file name',
        'matplotlib.cm attributes are shared objects, copy() and get_cmap() return own ones'])
