"""Abstract interpreter for the Python subset 2phi/weac is written in.

The interpreter walks the syntax tree of the current sources with abstract
scalars supplied by a domain object (value numbers, units).  Nothing of the
analysed package is imported or executed by Python.  Control flow on unknown
conditions is *not* split into paths: both branches are evaluated on a trail
and their states are merged with gated joins (gated value numbering); branches
that raise are dropped from the join and recorded as potential raises.
"""
import ast
import os
import sys
from fractions import Fraction

import numpy as np

sys.setrecursionlimit(20000)

REPO = os.environ.get('WEAC_REPO', '/repo')


# --------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------
class _Top:
    def __repr__(self):
        return 'TOP'


class _Unb:
    def __repr__(self):
        return 'UNB'


class _Nan:
    def __repr__(self):
        return 'NaN'


TOP = _Top()
UNB = _Unb()
NAN = _Nan()


class Cond:
    """Unknown truth value; ``key`` identifies the condition."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'Cond({self.key})'

    def __eq__(self, o):
        return isinstance(o, Cond) and o.key == self.key

    def __hash__(self):
        return hash(('Cond', self.key))


class Gate:
    """Gated value that the domain cannot represent as a scalar."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f'Gate({self.cond},{self.a!r},{self.b!r})'


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f'<Obj {self.cls.name}>'


class ClassVal:
    def __init__(self, name, node, mod, bases, env):
        self.name, self.node, self.mod, self.bases, self.env = name, node, mod, bases, env
        self._mro = None
        self.dcfields = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassVal)]
            seqs.append([b for b in self.bases if isinstance(b, ClassVal)])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AbsRaise('TypeError', ('inconsistent MRO',), self.node)
                out.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.env:
                return c, c.env[name]
        return None, None

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassVal)]

    def __repr__(self):
        return f'<class {self.name}>'


class Func:
    def __init__(self, node, mod, closure, qual, defaults, kwdefaults, kind='plain', cached=False):
        self.node, self.mod, self.closure, self.qual = node, mod, closure, qual
        self.defaults, self.kwdefaults, self.kind, self.cached = defaults, kwdefaults, kind, cached
        self.locals = None
        self.owner = None
        self.ctxmgr = False

    def __repr__(self):
        return f'<func {self.qual}>'


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class NatMeth:
    """Method of a native container / array / scalar."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Ext:
    """Name in an external library, by dotted path."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'Ext({self.path})'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ExtObj:
    """Opaque object returned by external code."""
    _n = 0

    def __init__(self, origin, args=()):
        self.origin, self.args = origin, args
        ExtObj._n += 1
        self.id = ExtObj._n

    def __repr__(self):
        return f'ExtObj({self.origin})'


class NTuple(tuple):
    """Named tuple value."""
    fields = ()


class NTClass:
    """Named tuple type."""
    def __init__(self, name, fields, defaults):
        self.name, self.fields, self.defaults = name, fields, defaults


class CtxGen:
    """Call of a generator decorated with contextlib.contextmanager; K is the continuation after the yield."""
    def __init__(self, fr, K):
        self.fr, self.K = fr, K


class ModVal:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.env = {}
        self.state = 0

    def __repr__(self):
        return f'<module {self.name}>'


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<builtin {self.name}>'

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class AbsRaise(Exception):
    """Definite exception of the analysed program."""
    def __init__(self, exc, args=(), node=None):
        super().__init__(exc, args)
        self.exc, self.eargs, self.node = exc, args, node
        self.where = None


class Unsupported(Exception):
    pass


class OutOfFuel(Exception):
    pass


EXC_PARENTS = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ZeroDivisionError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'AssertionError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError',
    'LinAlgError': 'ValueError', 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'StopIteration': 'Exception', 'UserWarning': 'Warning', 'Warning': 'Exception',
    'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning', 'OverflowError': 'ArithmeticError',
    'PermissionError': 'OSError', 'UnicodeError': 'ValueError', 'FloatingPointError': 'ArithmeticError',
}


def exc_isa(name, parent):
    while name:
        if name == parent:
            return True
        name = EXC_PARENTS.get(name)
    return parent == 'BaseException'


# --------------------------------------------------------------------------
# Trail
# --------------------------------------------------------------------------
def _root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def has(x, typ):
    return isinstance(x, typ)


class Marker:
    __slots__ = ('kind', 'a', 'b', 'c')

    def __init__(self, kind, a=None, b=None, c=None):
        self.kind, self.a, self.b, self.c = kind, a, b, c


def push(stmts, K):
    for s in reversed(stmts):
        K = (s, K)
    return K


BUILTINS = """len range enumerate zip sum any all abs min max int float bool str list tuple dict set frozenset sorted
reversed isinstance issubclass hasattr getattr setattr delattr callable map filter round super print type divmod pow iter
next id repr vars slice object property staticmethod classmethod complex bytes format hash open input globals locals
__import__ ord chr bin hex memoryview""".split()


class Frame:
    __slots__ = ('func', 'env', 'mod', 'scopes', 'locals', 'globals_', 'nonlocals_', 'depth', 'cls', 'self_', 'ctx', 'yields', 'ydepth')

    def __init__(self, func, env, mod, scopes, locals_, depth):
        self.func, self.env, self.mod, self.scopes, self.locals = func, env, mod, scopes, locals_
        self.globals_, self.nonlocals_ = set(), set()
        self.depth = depth
        self.cls = None
        self.self_ = None
        self.ctx, self.yields, self.ydepth = False, None, 0


def local_names(node):
    """Names bound in a function body (Python scoping)."""
    out, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        return out, glob

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in node.body:
        visit(s)
    return out - glob, glob


class Interp:
    MAXDEPTH = 60

    def __init__(self, dom, repo=None, fuel=400000):
        self.dom = dom
        dom.interp = self
        self.repo = repo or REPO
        self.modules = {}
        self.trail = []           # stack of dicts: key -> (loc, old)
        self.facts = []           # assumed conditions (cond, bool)
        self.stubs = {}           # qualname -> callable(interp, env, node)
        self.mstubs = {}          # method name -> callable(interp, env, node), any class of the package
        self.ext = {}             # dotted path -> callable(interp, args, kwargs, node)
        self.extattr = {}         # dotted path -> value
        self.events = []
        self.may_raises = []
        self.fuel = fuel
        self.cur = None           # current AST node
        self.fstack = []          # function stack
        self.visited = set()      # (qual, lineno) of evaluated statements
        self.fvisited = {}
        self.force_raise = None   # callable(name, node) -> exc name | None, for external calls
        self.memo = {}
        self.decide_hook = None
        self.attr_hook = None
        self.nsteps = 0
        from . import npmodel
        npmodel.install(self)

    # ---------------------------------------------------------------- utils
    def where(self, node=None):
        node = node or self.cur
        f = self.fstack[-1] if self.fstack else None
        mod = f.mod.name if f is not None else '?'
        q = f.func.qual if f is not None and f.func is not None else '<module>'
        return f"{mod.replace('.', '/')}.py:{q}:{getattr(node, 'lineno', 0)}"

    def event(self, kind, **kw):
        self.events.append(dict(kind=kind, where=self.where(), node=self.cur, **kw))

    # ---------------------------------------------------------------- trail
    def log(self, key, loc, snap):
        if self.trail:
            t = self.trail[-1]
            if key not in t:
                t[key] = (loc, snap())

    def set_env(self, env, name, val):
        self.log(('e', id(env), name), ('e', env, name), lambda: env.get(name, UNB))
        if val is UNB:
            env.pop(name, None)
        else:
            env[name] = val

    def log_list(self, lst):
        self.log(('l', id(lst)), ('l', lst), lambda: list(lst))

    def log_dict(self, d):
        self.log(('d', id(d)), ('d', d), lambda: dict(d))

    def log_arr(self, a):
        r = _root(a)
        self.log(('a', id(r)), ('a', r), lambda: r.copy())

    @staticmethod
    def _get(loc):
        if loc[0] == 'e':
            return loc[1].get(loc[2], UNB)
        if loc[0] == 'l':
            return list(loc[1])
        if loc[0] == 'd':
            return dict(loc[1])
        return loc[1].copy()

    @staticmethod
    def _put(loc, v):
        if loc[0] == 'e':
            if v is UNB:
                loc[1].pop(loc[2], None)
            else:
                loc[1][loc[2]] = v
        elif loc[0] == 'l':
            loc[1][:] = v
        elif loc[0] == 'd':
            loc[1].clear()
            loc[1].update(v)
        else:
            loc[1][...] = v

    def begin(self):
        self.trail.append({})

    def undo(self):
        """Undo top trail; return map key -> (loc, new value)."""
        t = self.trail.pop()
        new = {}
        for k, (loc, old) in t.items():
            new[k] = (loc, self._get(loc))
        for k, (loc, old) in reversed(list(t.items())):
            self._put(loc, old)
        return new

    def commit(self):
        t = self.trail.pop()
        if self.trail:
            p = self.trail[-1]
            for k, v in t.items():
                p.setdefault(k, v)

    def apply(self, new):
        for k, (loc, v) in new.items():
            if self.trail and k not in self.trail[-1]:
                self.trail[-1][k] = (loc, self._get(loc))
            self._put(loc, v)

    def view(self, n):
        """Values as one side left them: contents of mutated containers taken from that side's state."""
        touched = {id(loc[1]): v for loc, v in n.values() if loc[0] != 'e'}
        if not touched:
            return lambda v: v

        def view(v):
            if isinstance(v, np.ndarray):
                r = _root(v)
                if id(r) not in touched:
                    return v
                if r is v:
                    return touched[id(r)].copy()
                old = r.copy()
                r[...] = touched[id(r)]
                out = v.copy()
                r[...] = old
                return out
            if isinstance(v, list):
                src = touched.get(id(v), v)
                new = [view(x) for x in src]
                return v if src is v and all(x is y for x, y in zip(new, v)) else new
            if type(v) is tuple:
                new = tuple(view(x) for x in v)
                return v if all(x is y for x, y in zip(new, v)) else new
            if isinstance(v, dict):
                src = touched.get(id(v), v)
                new = {k: view(x) for k, x in src.items()}
                return v if src is v and all(new[k] is v[k] for k in v) else new
            return v
        return view

    def join(self, cond, n1, n2):
        """Gated join of values of two sides (before the states themselves are merged)."""
        w1, w2, memo = self.view(n1), self.view(n2), {}

        def join(a, b):
            if a is b:
                return a
            if isinstance(a, (np.ndarray, list, dict, tuple)) and isinstance(b, (np.ndarray, list, dict, tuple)):
                k = (id(a), id(b))
                if k not in memo:
                    memo[k] = (a, b, self.ite(cond, w1(a), w2(b)))
                return memo[k][2]
            return self.ite(cond, w1(a), w2(b))
        return join

    def merge(self, cond, n1, n2, join=None):
        join = join or self.join(cond, n1, n2)
        out = {}
        for k in list(n1) + [k for k in n2 if k not in n1]:
            loc = (n1.get(k) or n2.get(k))[0]
            old = self._get(loc)
            v1 = n1[k][1] if k in n1 else old
            v2 = n2[k][1] if k in n2 else old
            if loc[0] == 'e':
                out[k] = (loc, join(v1, v2))
            elif loc[0] == 'l':
                if len(v1) == len(v2):
                    out[k] = (loc, [join(x, y) for x, y in zip(v1, v2)])
                else:
                    self.event('list_join')
                    out[k] = (loc, [TOP])
            elif loc[0] == 'd':
                out[k] = (loc, {q: join(v1.get(q, UNB), v2.get(q, UNB))
                                for q in list(v1) + [q for q in v2 if q not in v1]})
            else:
                out[k] = (loc, self.ite(cond, v1, v2))
        self.apply(out)

    # ------------------------------------------------------------------ ite
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
                    and all(self.same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())))
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if isinstance(a, Gate) and isinstance(b, Gate):
            return a.cond == b.cond and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, (Obj, ClassVal, Func, ExtObj, Partial, NatMeth)) or \
                isinstance(b, (Obj, ClassVal, Func, ExtObj, Partial, NatMeth)):
            return False
        try:
            return self.dom.same(a, b)
        except Exception:
            return False

    def ite(self, cond, a, b):
        if self.same(a, b):
            return a
        if a is UNB or b is UNB:
            return Gate(cond, a, b)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
            out = np.empty(a.shape, dtype=object)
            fo, fa, fb = out.ravel(), a.ravel(), b.ravel()
            for i in range(fa.size):
                fo[i] = self.ite(cond, fa[i], fb[i])
            return fo.reshape(a.shape)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.ite(cond, x, y) for x, y in zip(a, b)]
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return self.c_or(self.c_and(cond, a), self.c_and(self.c_not(cond), b))
        if self.dom.is_scalar(a) and self.dom.is_scalar(b):
            return self.dom.ite(cond, a, b)
        if self.dom.flat_join:
            if a is TOP or b is TOP or isinstance(a, ExtObj) or isinstance(b, ExtObj):
                return TOP
        return Gate(cond, a, b)

    # ------------------------------------------------------------ conditions
    def c_not(self, c):
        if isinstance(c, bool):
            return not c
        if c is TOP:
            return TOP
        return self.dom.c_not(c)

    def c_and(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        if a is TOP or b is TOP:
            return self.dom.fresh_cond()
        return self.dom.c_and(a, b)

    def c_or(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        if a is TOP or b is TOP:
            return self.dom.fresh_cond()
        return self.dom.c_or(a, b)

    def truth(self, v):
        """Truth value of a Python value: True, False or Cond."""
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, Cond):
            return self.decide(v)
        if v is None:
            return False
        if isinstance(v, (int, Fraction, str, list, tuple, dict, set, frozenset, range)):
            return bool(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.ravel()[0])
            if v.size == 0:
                return False
            raise AbsRaise('ValueError', ('truth value of an array is ambiguous',), self.cur)
        if isinstance(v, (Obj, ClassVal, Func, Bound, Partial, Ext, ModVal, Builtin)):
            return True
        if v is TOP or isinstance(v, ExtObj):
            return self.dom.fresh_cond()
        if isinstance(v, Gate):
            return self.gmap(lambda x: self.truth(x), v)
        if v is NAN:
            return True
        return self.decide_val(self.dom.truth(v))

    def decide_val(self, t):
        return self.decide(t) if isinstance(t, Cond) else t

    def decide(self, c):
        for f, val in reversed(self.facts):
            if f == c:
                return val
            r = self.dom.implied(f, val, c)
            if r is not None:
                return r
        if self.decide_hook is not None:
            r = self.decide_hook(c)
            if r is not None:
                return r
        return c

    def gmap(self, f, g):
        """Map over leaves of a Gate; drops unbound leaves."""
        d = self.decide(g.cond) if isinstance(g.cond, Cond) else g.cond
        if d is True:
            return self._gl(f, g.a)
        if d is False:
            return self._gl(f, g.b)
        if g.a is UNB:
            return self._under(g.cond, False, f, g.b)
        if g.b is UNB:
            return self._under(g.cond, True, f, g.a)
        ra = rb = None
        ea = eb = None
        try:
            ra = self._under(g.cond, True, f, g.a)
        except AbsRaise as e:
            ea = e
        try:
            rb = self._under(g.cond, False, f, g.b)
        except AbsRaise as e:
            eb = e
        if ea and eb:
            raise eb
        if ea:
            self.note_may_raise(g.cond, ea)
            return rb
        if eb:
            self.note_may_raise(self.c_not(g.cond), eb)
            return ra
        return self.ite(g.cond, ra, rb)

    def _gl(self, f, v):
        if v is UNB:
            raise AbsRaise('UnboundLocalError', (), self.cur)
        return self.gmap(f, v) if isinstance(v, Gate) else f(v)

    def _under(self, c, val, f, v):
        self.facts.append((c, val))
        try:
            return self._gl(f, v)
        finally:
            self.facts.pop()

    def note_may_raise(self, cond, e):
        self.may_raises.append(dict(cond=cond, exc=e.exc, where=e.where or self.where(e.node), node=e.node,
                                    stack=tuple(f.func.qual for f in self.fstack if f.func)))

    # ------------------------------------------------------------- modules
    def load(self, name):
        """Return ModVal for package-internal module, else None."""
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                break
        else:
            return None
        pk = name.rpartition('.')[0]
        if pk and pk not in self.modules:
            self.load(pk)
            if name in self.modules:
                return self.modules[name]
        with open(p, encoding='utf-8') as fh:
            tree = ast.parse(fh.read(), p)
        m = ModVal(name, tree, p)
        self.modules[name] = m
        if pk and pk in self.modules:
            self.modules[pk].env.setdefault(name.rpartition('.')[2], m)
        if m.state == 0:
            m.state = 1
            m.env['__name__'] = name
            m.env['__file__'] = p
            fr = Frame(None, m.env, m, [], None, 0)
            self.fstack.append(fr)
            cur = self.cur
            try:
                self.run(fr, push(tree.body, None))
            finally:
                self.fstack.pop()
                self.cur = cur
            m.state = 2
        return m

    def get(self, dotted):
        """Fetch a package attribute, e.g. 'weac.layered.Layered'."""
        mod, _, attr = dotted.rpartition('.')
        m = self.load(mod)
        if m is None or attr not in m.env:
            raise LookupError(f'anchor {dotted} not found')
        return m.env[attr]

    # ------------------------------------------------------------ statements
    def run(self, fr, K, ignore_stops=False):
        while K is not None:
            item, rest = K
            if isinstance(item, Marker):
                k = item.kind
                if k == 'stop':
                    if not ignore_stops:
                        return ('stop', item, rest)
                    K = rest
                elif k == 'loop':
                    node, items, i = item.a, item.b, item.c
                    if i < len(items):
                        try:
                            self.assign(fr, node.target, items[i])
                        except AbsRaise as e:
                            K = self.handle(fr, e, rest)
                            continue
                        K = push(node.body, (Marker('loop', node, items, i + 1), rest))
                    else:
                        K = push(node.orelse, rest)
                elif k == 'while':
                    node, n = item.a, item.b
                    try:
                        t = self.truth(self.ev(fr, node.test))
                    except AbsRaise as e:
                        K = self.handle(fr, e, rest)
                        continue
                    if t is True and n < 2000:
                        K = push(node.body, (Marker('while', node, n + 1), rest))
                    elif t is False:
                        K = push(node.orelse, rest)
                    else:
                        self.havoc(fr, node)
                        K = rest
                elif k == 'try':
                    node = item.a
                    K = push(node.orelse, (Marker('tryrest', node), rest)) if node.orelse else push(node.finalbody, rest)
                elif k == 'tryrest':
                    K = push(item.a.finalbody, rest)
                elif k == 'reraise':
                    K = self.handle(fr, item.a, rest)
                elif k == 'doreturn':
                    K = self.unwind_return(fr, item.a, rest)
                    if isinstance(K, Done):
                        return ('return', K.v)
                elif k == 'withend':
                    try:
                        self.with_exit(item.a, None)
                    except AbsRaise as e:
                        K = self.handle(fr, e, rest)
                        continue
                    K = rest
                elif k == 'dobreak':
                    K = self.unwind_loop(rest, item.a)
                else:
                    K = rest
                continue
            try:
                r = self.stmt(fr, item, rest, ignore_stops)
            except AbsRaise as e:
                if e.where is None:
                    e.where = self.where(e.node or item)
                K = self.handle(fr, e, rest)
                continue
            if r is None:
                K = rest
            elif isinstance(r, Done):
                K = self.unwind_return(fr, r.v, rest)
                if isinstance(K, Done):
                    return ('return', K.v)
            elif isinstance(r, Suspend):
                return ('yield', r.v, rest)
            elif isinstance(r, Final):
                if r.kind == 'raise':
                    raise r.v
                return (r.kind, r.v, r.x)[:2] if r.kind == 'return' else (r.kind, r.v, r.x)
            else:
                K = r.K
        return ('return', None)

    def with_exit(self, mgrs, exc):
        """Leave context managers; True if the exception is swallowed."""
        sup = False
        for m in reversed(mgrs):
            if isinstance(m, Obj):
                _, f = m.cls.find('__exit__')
                if isinstance(f, Func):
                    a = [None, None, None] if exc is None else [Builtin(exc.exc), ExcVal(exc.exc, exc.eargs), None]
                    r = self.call(Bound(f, m), a, {}, self.cur)
                    if exc is not None and self.truth(r) is True:
                        sup, exc = True, None
            elif isinstance(m, CtxGen):
                if exc is None:
                    self.run_frame(m.fr, m.K)
                else:
                    self.fstack.append(m.fr)
                    try:
                        K = self.handle(m.fr, exc, m.K)
                    finally:
                        self.fstack.pop()
                    self.run_frame(m.fr, K)
                    sup, exc = True, None
            elif isinstance(m, ExtObj) and m.origin == 'contextlib.suppress':
                if exc is not None and any(exc_isa(exc.exc, getattr(x, 'name', None) or getattr(x, 'path', '').rpartition('.')[2])
                                           for x in m.args):
                    sup, exc = True, None
            elif isinstance(m, ExtObj):
                self.event('with_exit', obj=m)
                h = self.ext.get(m.origin + '.__exit__')
                if h:
                    h(self, [m], {}, self.cur)
        return sup

    def run_frame(self, fr, K):
        """Run a suspended generator frame."""
        self.fstack.append(fr)
        nf = len(self.fstack)
        try:
            return self.run(fr, K, True)
        finally:
            del self.fstack[nf - 1:]

    def unwind_return(self, fr, v, K):
        while K is not None:
            item, K = K
            if isinstance(item, Marker):
                if item.kind in ('try', 'tryrest') and item.a.finalbody:
                    return push(item.a.finalbody, (Marker('doreturn', v), K))
                if item.kind == 'withend':
                    self.with_exit(item.a, None)
        return Done(v)

    def unwind_loop(self, K, kind):
        while K is not None:
            item, rest = K
            if isinstance(item, Marker):
                if item.kind in ('loop', 'while'):
                    return (item, rest) if kind == 'continue' else rest
                if item.kind in ('try', 'tryrest') and item.a.finalbody:
                    return push(item.a.finalbody, (Marker('dobreak', kind), rest))
                if item.kind == 'withend':
                    self.with_exit(item.a, None)
            K = rest
        return None

    def handle(self, fr, e, K):
        """Find handler for exception e in continuation K; re-raise if none."""
        while K is not None:
            item, K = K
            if not isinstance(item, Marker):
                continue
            if item.kind == 'withend':
                try:
                    if self.with_exit(item.a, e):
                        return K
                except AbsRaise as e2:
                    e = e2
            if item.kind == 'try':
                node = item.a
                for h in node.handlers:
                    if self.handler_matches(fr, h, e):
                        if h.name:
                            self.set_env(fr.env, h.name, ExcVal(e.exc, e.eargs))
                        return push([_SetExc(e)] + h.body, (Marker('tryrest', node), K))
                if node.finalbody:
                    return push(node.finalbody, (Marker('reraise', e), K))
            elif item.kind == 'tryrest' and item.a.finalbody:
                return push(item.a.finalbody, (Marker('reraise', e), K))
        raise e

    def handler_matches(self, fr, h, e):
        if h.type is None:
            return True
        t = self.ev(fr, h.type)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = x.name if isinstance(x, (Builtin, ClassVal)) else x.path.rpartition('.')[2] if isinstance(x, Ext) else None
            if n and exc_isa(e.exc, n):
                return True
        return False

    def havoc(self, fr, node):
        self.event('havoc')
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.set_env(fr.env, n.id, TOP)

    def iterate(self, v):
        """Concrete list of items of an iterable value."""
        if isinstance(v, (list, tuple, range, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                raise AbsRaise('TypeError', ('iteration over a 0-d array',), self.cur)
            return [v[i] for i in range(v.shape[0])]
        if v is None or isinstance(v, (bool, np.bool_)):
            raise AbsRaise('TypeError', (f'{type(v).__name__} object is not iterable',), self.cur)
        return None

    def stmt(self, fr, s, rest, ignore_stops):
        self.nsteps += 1
        if self.nsteps > self.fuel:
            raise OutOfFuel()
        if isinstance(s, _SetExc):
            fr.env['$exc'] = s.e
            return None
        self.cur = s
        if fr.func is not None:
            self.visited.add((fr.mod.name, fr.func.qual, s.lineno))
        t = type(s)
        if fr.ctx and t in (ast.Expr, ast.Assign) and isinstance(s.value, ast.Yield):
            v = None if s.value.value is None else self.ev(fr, s.value.value)
            for tg in getattr(s, 'targets', []):
                self.assign(fr, tg, None)
            return Suspend(v)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(fr, s.value)
            return None
        if t is ast.Assign:
            v = self.ev(fr, s.value)
            for tg in s.targets:
                self.assign(fr, tg, v)
            return None
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(fr, s.target, self.ev(fr, s.value))
            return None
        if t is ast.AugAssign:
            self.augassign(fr, s)
            return None
        if t is ast.Return:
            return Done(self.ev(fr, s.value) if s.value is not None else None)
        if t is ast.If:
            c = self.truth(self.ev(fr, s.test))
            if c is True:
                return Goto(push(s.body, rest))
            if c is False:
                return Goto(push(s.orelse, rest))
            return self.branch(fr, c, s.body, s.orelse, rest, ignore_stops)
        if t is ast.For:
            it = self.ev(fr, s.iter)
            items = self.iterate(it)
            if items is None:
                if isinstance(it, Gate):
                    self.event('gate_iter')
                self.event('opaque_loop', iter=it)
                # analyse the body once with an unknown element, then havoc
                el = self.dom.element_of(it)
                K = (Marker('loop', s, [el], 0), None)
                self.begin()
                try:
                    st = (Marker('stop'), None)
                    self.run(fr, (Marker('loop', s, [el], 0), st))
                except AbsRaise as e:
                    self.note_may_raise(TOP, e)
                new = self.undo()
                for k, (loc, v) in new.items():
                    if loc[0] == 'e':
                        new[k] = (loc, self.dom.widen(self._get(loc), v))
                    elif loc[0] == 'l':
                        new[k] = (loc, v if self.dom.flat_join else [TOP])
                    elif loc[0] == 'a' and not self.dom.flat_join:
                        w = v.copy()
                        w.fill(TOP) if w.dtype == object else None
                        new[k] = (loc, w)
                self.apply(new)
                return None
            return Goto((Marker('loop', s, items, 0), rest))
        if t is ast.While:
            return Goto((Marker('while', s, 0), rest))
        if t is ast.Break:
            return Goto(self.unwind_loop(rest, 'break'))
        if t is ast.Continue:
            return Goto(self.unwind_loop(rest, 'continue'))
        if t is ast.Pass:
            return None
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.set_env(fr.env, s.name, self.mkfunc(fr, s))
            return None
        if t is ast.ClassDef:
            self.set_env(fr.env, s.name, self.mkclass(fr, s))
            return None
        if t is ast.Raise:
            raise self.mkraise(fr, s)
        if t is ast.Try or t.__name__ == 'TryStar':
            return Goto(push(s.body, (Marker('try', s), rest)))
        if t is ast.With:
            mgrs = []
            for w in s.items:
                try:
                    m = self.ev(fr, w.context_expr)
                    v = m
                    if isinstance(m, Obj):
                        _, f = m.cls.find('__enter__')
                        if isinstance(f, Func):
                            v = self.call(Bound(f, m), [], {}, s)
                    elif isinstance(m, CtxGen):
                        r = self.run_frame(m.fr, m.K)
                        if r[0] != 'yield':
                            raise AbsRaise('RuntimeError', ("generator didn't yield",), s)
                        m, v = CtxGen(m.fr, r[2]), r[1]
                    elif isinstance(m, ExtObj) and m.origin == 'contextlib.nullcontext':
                        v = m.args[0] if m.args else None
                    mgrs.append(m)
                    if w.optional_vars is not None:
                        self.assign(fr, w.optional_vars, v)
                except AbsRaise as e:
                    if self.with_exit(mgrs, e):
                        return None
                    raise
            return Goto(push(s.body, (Marker('withend', mgrs), rest)))
        if t is ast.Import:
            for al in s.names:
                m = self.load(al.name)
                top = al.name.split('.')[0]
                if m is None:
                    if self.load(top) is not None:
                        raise AbsRaise('ModuleNotFoundError', (al.name,), s)
                    v = Ext(al.name if al.asname else top)
                else:
                    v = m if al.asname else self.load(top)
                self.set_env(fr.env, al.asname or top, v)
            return None
        if t is ast.ImportFrom:
            name = s.module or ''
            if s.level:
                base = fr.mod.name.split('.')
                if not fr.mod.path.endswith('__init__.py'):
                    base = base[:-1]
                base = base[:len(base) - (s.level - 1)]
                name = '.'.join(base + ([s.module] if s.module else []))
            m = self.load(name)
            for al in s.names:
                if m is None:
                    v = Ext(name + '.' + al.name)
                elif al.name == '*':
                    for k, v in list(m.env.items()):
                        if not k.startswith('_'):
                            self.set_env(fr.env, k, v)
                    continue
                elif al.name in m.env:
                    v = m.env[al.name]
                else:
                    v = self.load(name + '.' + al.name)
                    if v is None:
                        raise AbsRaise('ImportError', (name + '.' + al.name,), s)
                self.set_env(fr.env, al.asname or al.name, v)
            return None
        if t is ast.Global:
            fr.globals_.update(s.names)
            return None
        if t is ast.Nonlocal:
            fr.nonlocals_.update(s.names)
            return None
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    self.set_env(fr.env, tg.id, UNB)
                elif isinstance(tg, ast.Attribute):
                    o = self.ev(fr, tg.value)
                    if isinstance(o, Obj):
                        self.set_env(o.attrs, tg.attr, UNB)
                elif isinstance(tg, ast.Subscript):
                    o = self.ev(fr, tg.value)
                    i = self.ev_index(fr, tg.slice)
                    if isinstance(o, dict):
                        self.log_dict(o)
                        o.pop(i, None)
                    elif isinstance(o, list):
                        self.log_list(o)
                        try:
                            del o[i]
                        except Exception:
                            o[:] = [TOP]
            return None
        if t is ast.Assert:
            c = self.truth(self.ev(fr, s.test))
            if c is False:
                raise AbsRaise('AssertionError', (), s)
            if c is not True:
                self.note_may_raise(self.c_not(c), AbsRaise('AssertionError', (), s))
            return None
        if t is ast.Match:
            subj = self.ev(fr, s.subject)
            return self.domatch(fr, s, subj, s.cases, rest, ignore_stops)
        if t.__name__ == 'TypeAlias':
            return None
        raise Unsupported(f'statement {t.__name__}')

    def domatch(self, fr, s, subj, cases, rest, ignore_stops):
        for i, case in enumerate(cases):
            binds = {}
            c = self.pattern(fr, case.pattern, subj, binds)
            if case.guard is not None and c is not False:
                for k, v in binds.items():
                    self.set_env(fr.env, k, v)
                c = self.c_and(c, self.truth(self.ev(fr, case.guard)))
            if c is False:
                continue
            if c is True:
                for k, v in binds.items():
                    self.set_env(fr.env, k, v)
                return Goto(push(case.body, rest))
            other = ast.Match(subject=s.subject, cases=cases[i + 1:])
            ast.copy_location(other, s)
            return self.branch(fr, c, case.body, [other] if cases[i + 1:] else [], rest, ignore_stops)
        return None

    def pattern(self, fr, p, v, binds):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.ev(fr, p.value)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                r = self.c_or(r, self.pattern(fr, q, v, binds))
            return r
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                r = self.pattern(fr, p.pattern, v, binds)
            else:
                r = True
            if p.name:
                binds[p.name] = v
            return r
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)) and \
                not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if len(p.patterns) != len(v):
                return False
            r = True
            for q, x in zip(p.patterns, v):
                r = self.c_and(r, self.pattern(fr, q, x, binds))
            return r
        return self.dom.fresh_cond()

    def branch(self, fr, c, body, orelse, rest, ignore_stops):
        """Two-sided evaluation of an unknown branch with a gated join."""
        stop = (Marker('stop'), rest)
        r1 = self.side(fr, c, True, push(body, stop))
        r2 = self.side(fr, c, False, push(orelse, stop))
        if r1[0] == 'raise' and r2[0] == 'raise':
            self.apply(r2[2])
            return Final('raise', r2[1])
        if r1[0] == 'raise':
            self.note_may_raise(c, r1[1])
            return self.resume(r2, rest, c, False)
        if r2[0] == 'raise':
            self.note_may_raise(self.c_not(c), r2[1])
            return self.resume(r1, rest, c, True)
        if r1[0] == 'stop' and r2[0] == 'stop' and r1[1] is stop[0] and r2[1] is stop[0]:
            self.merge(c, r1[2], r2[2])
            return Goto(rest)
        if r1[0] == 'stop' and r2[0] == 'stop' and r1[1] is r2[1]:
            # both jumped to the same outer join point
            self.merge(c, r1[2], r2[2])
            return Final('stop', r1[1], None)
        # unequal completions: run both sides to the end of the function
        if r1[0] == 'stop':
            r1 = self.finish(fr, c, True, r1)
        if r2[0] == 'stop':
            r2 = self.finish(fr, c, False, r2)
        if r1[0] == 'raise' and r2[0] == 'raise':
            self.apply(r2[2])
            return Final('raise', r2[1])
        if r1[0] == 'raise':
            self.note_may_raise(c, r1[1])
            self.apply(r2[2])
            return Final('return', r2[1])
        if r2[0] == 'raise':
            self.note_may_raise(self.c_not(c), r2[1])
            self.apply(r1[2])
            return Final('return', r1[1])
        j = self.join(c, r1[2], r2[2])
        v = j(r1[1], r2[1])
        self.merge(c, r1[2], r2[2], j)
        return Final('return', v)

    def resume(self, r, rest, c, val):
        self.apply(r[2])
        if r[0] == 'stop':
            if r[3] is None and r[1].kind == 'stop' and r[4]:
                return Goto(rest)
            return Final('stop', r[1], r[3]) if not r[4] else Goto(rest)
        return Final('return', r[1])

    def side(self, fr, c, val, K):
        """Run one side; returns (kind, value, newstate[, K, is_own_stop])."""
        own = None
        k = K
        # find our own stop marker (the one branch() just created)
        while k is not None:
            if isinstance(k[0], Marker) and k[0].kind == 'stop':
                own = k[0]
                break
            k = k[1]
        self.begin()
        self.facts.append((c, val))
        nf = len(self.fstack)
        try:
            r = self.run(fr, K)
            if r[0] == 'stop':
                out = ('stop', r[1], self.undo(), r[2], r[1] is own)
            else:
                out = ('return', r[1], self.undo())
        except AbsRaise as e:
            del self.fstack[nf:]
            out = ('raise', e, self.undo())
        finally:
            self.facts.pop()
        return out

    def finish(self, fr, c, val, r):
        self.begin()
        self.facts.append((c, val))
        nf = len(self.fstack)
        try:
            self.apply(r[2])
            q = self.run(fr, r[3], True)
            return ('return', q[1], self.undo())
        except AbsRaise as e:
            del self.fstack[nf:]
            return ('raise', e, self.undo())
        finally:
            self.facts.pop()

    def mkraise(self, fr, s):
        if s.exc is None:
            e = fr.env.get('$exc')
            return e if isinstance(e, AbsRaise) else AbsRaise('RuntimeError', (), s)
        v = self.ev(fr, s.exc)
        if isinstance(v, ExcVal):
            return AbsRaise(v.name, v.args, s)
        if isinstance(v, Builtin):
            return AbsRaise(v.name, (), s)
        if isinstance(v, ClassVal):
            return AbsRaise(v.name, (), s)
        if isinstance(v, Obj):
            n = v.cls.name
            for b in v.cls.ext_bases():
                if isinstance(b, Builtin):
                    EXC_PARENTS.setdefault(n, b.name)
            return AbsRaise(n, (), s)
        return AbsRaise('Exception', (), s)

    def mkfunc(self, fr, node, name=None):
        defaults = [self.ev(fr, d) for d in node.args.defaults]
        kwd = {a.arg: self.ev(fr, d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        qual = name or getattr(node, 'name', '<lambda>')
        kind, cached = 'plain', False
        if fr.cls is not None:
            qual = fr.cls + '.' + qual
        elif fr.func is not None:
            qual = fr.func.qual + '.' + qual
        scopes = ([fr.env] if fr.func is not None or fr.scopes is not None and fr.env is not fr.mod.env and fr.cls is None
                  else []) + list(fr.scopes or [])
        f = Func(node, fr.mod, scopes, qual, defaults, kwd)
        for d in reversed(getattr(node, 'decorator_list', [])):
            dv = self.ev(fr, d)
            if isinstance(dv, Builtin) and dv.name in ('property', 'staticmethod', 'classmethod'):
                f.kind = dv.name
            elif isinstance(dv, Ext) and dv.path in ('functools.lru_cache', 'functools.cache'):
                f.cached = True
            elif isinstance(dv, Ext) and dv.path == 'contextlib.contextmanager':
                f.ctxmgr = True
            elif isinstance(dv, Ext) and dv.path == 'functools.cached_property':
                f.kind = 'cached_property'
            elif isinstance(dv, ExtObj) and dv.origin == 'functools.lru_cache':
                f.cached = True
            elif isinstance(dv, Partial) and isinstance(dv.f, Ext) and dv.f.path == 'functools.wraps':
                pass
            elif isinstance(dv, (Func, Bound, Partial)):
                r = self.call(dv, [f], {}, node)
                if isinstance(r, Func):
                    f = r
                else:
                    return r
            elif isinstance(dv, ExtObj) and dv.origin.endswith('wraps'):
                pass
            else:
                self.event('decorator', value=dv)
        return f

    def mkclass(self, fr, node):
        bases = [self.ev(fr, b) for b in node.bases]
        env = {}
        cf = Frame(None, env, fr.mod, ([fr.env] if fr.func else []), None, fr.depth)
        cf.cls = node.name
        self.fstack.append(cf)
        try:
            self.run(cf, push(node.body, None))
        finally:
            self.fstack.pop()
        c = ClassVal(node.name, node, fr.mod, bases, env)
        for v in env.values():
            if isinstance(v, Func) and v.owner is None:
                v.owner = c
        ann = {x.target.id: env.get(x.target.id, UNB) for x in node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
        for d in node.decorator_list:
            dv = self.ev(fr, d)
            if isinstance(dv, (Ext, ExtObj)) and (dv.path if isinstance(dv, Ext) else dv.origin) == 'dataclasses.dataclass':
                c.dcfields = ann
            elif isinstance(dv, (Func, Bound, Partial)):
                r = self.call(dv, [c], {}, node)
                if not isinstance(r, ClassVal):
                    return r
                c = r
            else:
                self.event('decorator', value=dv)
        if any(isinstance(b, Ext) and b.path == 'typing.NamedTuple' for b in bases):
            return NTClass(node.name, tuple(ann), {k: v for k, v in ann.items() if v is not UNB})
        return c

    # ------------------------------------------------------------ assignment
    def assign(self, fr, tg, v):
        t = type(tg)
        if t is ast.Name:
            if tg.id in fr.globals_:
                self.set_env(fr.mod.env, tg.id, v)
            elif tg.id in fr.nonlocals_:
                for s in fr.scopes:
                    if tg.id in s:
                        self.set_env(s, tg.id, v)
                        break
            else:
                self.set_env(fr.env, tg.id, v)
        elif t is ast.Attribute:
            self.setattr(self.ev(fr, tg.value), tg.attr, v)
        elif t is ast.Subscript:
            self.setitem(self.ev(fr, tg.value), self.ev_index(fr, tg.slice), v)
        elif t in (ast.Tuple, ast.List):
            self.unpack(fr, tg.elts, v)
        elif t is ast.Starred:
            self.assign(fr, tg.value, v)
        else:
            raise Unsupported(f'target {t.__name__}')

    def unpack(self, fr, elts, v):
        if isinstance(v, Gate):
            a = v.a if isinstance(v.a, (tuple, list)) and len(v.a) == len(elts) else None
            b = v.b if isinstance(v.b, (tuple, list)) and len(v.b) == len(elts) else None
            if a and b:
                v = [self.ite(v.cond, x, y) for x, y in zip(a, b)]
            elif a or b:
                v = a or b
        items = self.iterate(v)
        if items is None:
            items = [self.dom.element_of(v, i) for i in range(len(elts))]
            for e, x in zip(elts, items):
                self.assign(fr, e, [x] if isinstance(e, ast.Starred) else x)
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n = len(elts) - 1
            if len(items) < n:
                raise AbsRaise('ValueError', ('not enough values to unpack',), self.cur)
            items = items[:i] + [items[i:len(items) - (n - i)]] + items[len(items) - (n - i):]
        if len(items) != len(elts):
            raise AbsRaise('ValueError', ('wrong number of values to unpack',), self.cur)
        for e, x in zip(elts, items):
            self.assign(fr, e, x)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            _, p = o.cls.find(name)
            if isinstance(p, Func) and p.kind == 'property':
                self.event('property_set', attr=name)
            if self.attr_hook:
                self.attr_hook(o, name, v)
            self.set_env(o.attrs, name, v)
        elif isinstance(o, Gate):
            for side, val in ((o.a, True), (o.b, False)):
                if side is not UNB:
                    self.setattr(side, name, self.ite(o.cond, v, self.getattr(side, name)) if val
                                 else self.ite(o.cond, self.getattr(side, name), v))
        elif isinstance(o, ModVal):
            self.set_env(o.env, name, v)
        elif isinstance(o, ClassVal):
            self.set_env(o.env, name, v)
        elif isinstance(o, ExtObj) or isinstance(o, Ext):
            self.event('ext_setattr', obj=o, attr=name, value=v)
        elif o is TOP:
            self.event('top_store')
        elif isinstance(o, np.ndarray) and name == 'shape':
            try:
                o.shape = v
            except Exception:
                raise AbsRaise('ValueError', (), self.cur)
        elif isinstance(o, Func):
            pass
        else:
            raise AbsRaise('AttributeError', (name,), self.cur)

    def idx(self, i):
        """Convert an abstract index into a numpy index; None if unknown."""
        if isinstance(i, tuple):
            out = tuple(self.idx(x) if x is not None else (None,) for x in i)
            if any(x is None for x in out):
                return None
            return (tuple(x[0] for x in out),)
        if isinstance(i, slice):
            parts = []
            for x in (i.start, i.stop, i.step):
                if x is None:
                    parts.append(None)
                else:
                    n = self.dom.as_int(x)
                    if n is None:
                        return None
                    parts.append(n)
            return (slice(*parts),)
        if i is None or i is Ellipsis:
            return (i,)
        if isinstance(i, (list, np.ndarray)):
            a = self.arr(i)
            if a is None:
                return None
            vals = a.ravel().tolist()
            if all(isinstance(x, (bool, np.bool_)) for x in vals) and vals:
                return (a.astype(bool),)
            ints = []
            for x in vals:
                if isinstance(x, Cond):
                    x = self.decide(x)
                n = x if isinstance(x, bool) else self.dom.as_int(x)
                if n is None:
                    return None
                ints.append(n)
            if ints and all(isinstance(x, bool) for x in ints):
                return (np.array(ints, dtype=bool).reshape(a.shape),)
            return (np.array(ints, dtype=np.intp).reshape(a.shape),)
        if isinstance(i, (bool, np.bool_)):
            return (bool(i),)
        n = self.dom.as_int(i)
        return None if n is None else (n,)

    def setitem(self, o, i, v):
        if isinstance(o, np.ndarray):
            ix = self.idx(i)
            self.log_arr(o)
            if ix is None:
                # unknown position: masked update if boolean mask of full shape
                m = i if isinstance(i, np.ndarray) else None
                if m is not None and m.shape == o.shape and o.dtype == object and self.dom.is_scalar(v):
                    fo = o.reshape(-1)
                    for k, c in enumerate(m.ravel().tolist()):
                        t = self.truth(c)
                        if t is True:
                            fo[k] = v
                        elif t is not False:
                            fo[k] = self.ite(t, v, fo[k])
                    if not np.shares_memory(fo, o):
                        o[...] = fo.reshape(o.shape)
                    return
                self.event('unknown_store')
                o.fill(self.dom.smear(o, v) if self.dom.flat_join else TOP)
                return
            try:
                if isinstance(v, (list, tuple, np.ndarray)):
                    w = self.arr(v)
                    if w is None:
                        o[ix[0]] = TOP
                        return
                    sub = np.asarray(o[ix[0]], dtype=object) if not isinstance(o[ix[0]], np.ndarray) else o[ix[0]]
                    if w.shape != sub.shape:
                        w = np.broadcast_to(w.reshape(w.shape[-max(sub.ndim, 1):] if w.ndim > sub.ndim and
                                                      all(x == 1 for x in w.shape[:w.ndim - sub.ndim]) else w.shape)
                                            if sub.ndim else w.reshape(()), sub.shape) if sub.ndim else w.ravel()[0]
                    o[ix[0]] = w
                else:
                    if isinstance(v, (Obj, dict)):
                        v = TOP
                    sub = o[ix[0]]
                    if isinstance(sub, np.ndarray):
                        fill = np.empty(sub.shape, dtype=object)
                        fill.fill(v)
                        o[ix[0]] = fill
                    else:
                        o[ix[0]] = v
            except IndexError as e:
                raise AbsRaise('IndexError', (str(e),), self.cur)
            except ValueError as e:
                raise AbsRaise('ValueError', (str(e),), self.cur)
            return
        if isinstance(o, list):
            self.log_list(o)
            n = self.dom.as_int(i) if not isinstance(i, slice) else None
            if isinstance(i, slice):
                ix = self.idx(i)
                its = self.iterate(v)
                if ix is None or its is None:
                    o[:] = [TOP]
                else:
                    o[ix[0]] = its
                return
            if n is None:
                o[:] = [TOP for _ in o]
                return
            try:
                o[n] = v
            except IndexError:
                raise AbsRaise('IndexError', (), self.cur)
            return
        if isinstance(o, dict):
            self.log_dict(o)
            try:
                o[i] = v
            except TypeError:
                self.event('unknown_store')
            return
        if isinstance(o, Gate):
            for side in (o.a, o.b):
                if side is not UNB and side is not TOP:
                    self.setitem(side, i, self.ite(o.cond, v, self.getitem(side, i)) if side is o.a
                                 else self.ite(o.cond, self.getitem(side, i), v))
            return
        if isinstance(o, Obj):
            _, f = o.cls.find('__setitem__')
            if isinstance(f, Func):
                self.call(Bound(f, o), [i, v], {}, self.cur)
                return
        if o is TOP or isinstance(o, (ExtObj, Ext)):
            self.event('ext_setitem', obj=o, index=i, value=v)
            return
        raise AbsRaise('TypeError', ('item assignment',), self.cur)

    def augassign(self, fr, s):
        op = OPS[type(s.op)]
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(fr, tg)
            new = self.inplace(op, cur, self.ev(fr, s.value))
            if new is not INPLACE:
                self.assign(fr, tg, new)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(fr, tg.value)
            cur = self.getattr(o, tg.attr)
            new = self.inplace(op, cur, self.ev(fr, s.value))
            if new is not INPLACE:
                self.setattr(o, tg.attr, new)
            elif self.attr_hook and isinstance(o, Obj):
                self.attr_hook(o, tg.attr, cur)
        else:
            o = self.ev(fr, tg.value)
            i = self.ev_index(fr, tg.slice)
            cur = self.getitem(o, i)
            v = self.ev(fr, s.value)
            if isinstance(cur, list) and op == '+':
                self.inplace(op, cur, v)
            else:
                self.setitem(o, i, self.binop(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, np.ndarray):
            r = self.binop(op, cur, v)
            if isinstance(r, np.ndarray) and r.shape == cur.shape:
                self.log_arr(cur)
                cur[...] = r
                return INPLACE
            if isinstance(r, np.ndarray):
                raise AbsRaise('ValueError', ('non-broadcastable output operand',), self.cur)
            self.log_arr(cur)
            cur.fill(TOP)
            return INPLACE
        if isinstance(cur, list) and op == '+':
            its = self.iterate(v)
            self.log_list(cur)
            if its is None:
                cur[:] = [TOP]
            else:
                cur.extend(its)
            return INPLACE
        return self.binop(op, cur, v)

    # ------------------------------------------------------------ expressions
    def lookup(self, fr, n):
        name = n.id
        if fr.locals is not None and name in fr.locals:
            v = fr.env.get(name, UNB)
            if isinstance(v, Gate):
                v = self.bound(v, n)
            if v is UNB:
                raise AbsRaise('UnboundLocalError', (name,), n)
            return v
        if name in fr.env:
            v = fr.env[name]
            return self.bound(v, n) if isinstance(v, Gate) else v
        for s in fr.scopes or ():
            if name in s:
                v = s[name]
                return self.bound(v, n) if isinstance(v, Gate) else v
        if name in fr.mod.env:
            return fr.mod.env[name]
        if name in BUILTINS or name in EXC_PARENTS or name == 'BaseException':
            return Builtin(name)
        if name == 'NotImplemented' or name == 'Ellipsis':
            return TOP
        raise AbsRaise('NameError', (name,), n)

    def bound(self, v, n):
        """Remove unbound leaves (definitely assigned under current facts or assume)."""
        while isinstance(v, Gate):
            d = self.decide(v.cond) if isinstance(v.cond, Cond) else v.cond
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            elif v.a is UNB:
                self.event('maybe_unbound', name=getattr(n, 'id', '?'), cond=v.cond)
                v = v.b
            elif v.b is UNB:
                self.event('maybe_unbound', name=getattr(n, 'id', '?'), cond=v.cond)
                v = v.a
            else:
                a, b = self.bound(v.a, n), self.bound(v.b, n)
                if a is UNB:
                    return b
                if b is UNB:
                    return a
                if a is v.a and b is v.b:
                    return v
                return self.ite(v.cond, a, b)
        return v

    def ev(self, fr, n):
        old = self.cur
        self.cur = n
        try:
            return self._ev(fr, n)
        except AbsRaise as e:
            if e.where is None:
                e.where = self.where(e.node or n)
            raise
        finally:
            self.cur = old

    def _ev(self, fr, n):
        t = type(n)
        if t is ast.Constant:
            v = n.value
            if isinstance(v, (bool, str, bytes)) or v is None or v is Ellipsis:
                return v
            return self.dom.literal(v, n, self.where(n))
        if t is ast.Name:
            return self.lookup(fr, n)
        if t is ast.Attribute:
            return self.getattr(self.ev(fr, n.value), n.attr)
        if t is ast.BinOp:
            a = self.ev(fr, n.left)
            b = self.ev(fr, n.right)
            return self.binop(OPS[type(n.op)], a, b)
        if t is ast.UnaryOp:
            v = self.ev(fr, n.operand)
            if isinstance(n.op, ast.Not):
                return self.c_not(self.truth(v))
            return self.unop({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'inv'}[type(n.op)], v)
        if t is ast.Compare:
            left = self.ev(fr, n.left)
            res = True
            if len(n.ops) == 1:
                return self.compare(CMP[type(n.ops[0])], left, self.ev(fr, n.comparators[0]))
            for op, r in zip(n.ops, n.comparators):
                rv = self.ev(fr, r)
                c = self.truth(self.compare(CMP[type(op)], left, rv))
                res = self.c_and(res, c)
                if res is False:
                    return False
                left = rv
            return res
        if t is ast.BoolOp:
            return self.boolop(fr, n)
        if t is ast.Call:
            return self.ev_call(fr, n)
        if t is ast.Subscript:
            return self.getitem(self.ev(fr, n.value), self.ev_index(fr, n.slice))
        if t is ast.Tuple:
            return tuple(self.elts(fr, n.elts))
        if t is ast.List:
            return self.elts(fr, n.elts)
        if t is ast.Set:
            return self.mkset(self.elts(fr, n.elts))
        if t is ast.Dict:
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    m = self.ev(fr, v)
                    if isinstance(m, dict):
                        d.update(m)
                else:
                    kv = self.ev(fr, k)
                    try:
                        d[kv] = self.ev(fr, v)
                    except TypeError:
                        d[('?', id(kv))] = self.ev(fr, v)
            return d
        if t is ast.IfExp:
            c = self.truth(self.ev(fr, n.test))
            if c is True:
                return self.ev(fr, n.body)
            if c is False:
                return self.ev(fr, n.orelse)
            return self.two(c, lambda: self.ev(fr, n.body), lambda: self.ev(fr, n.orelse))
        if t is ast.Lambda:
            return self.mkfunc(fr, n)
        if t in (ast.Yield, ast.YieldFrom):
            v = None if n.value is None else self.ev(fr, n.value)
            if t is ast.YieldFrom:
                v = self.iterate(v)
            if fr.ctx or fr.yields is None or len(self.trail) != fr.ydepth or (t is ast.YieldFrom and v is None):
                if fr.ctx:
                    self.event('generator')
                fr.yields = None
            elif t is ast.Yield:
                fr.yields.append(v)
            else:
                fr.yields.extend(v)
            return None
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.comp(fr, n)
        if t is ast.SetComp:
            return self.mkset(self.comp(fr, n))
        if t is ast.DictComp:
            return self.comp(fr, n)
        if t is ast.JoinedStr:
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    x = self.ev(fr, v.value)
                    parts.append(x if isinstance(x, str) else str(x) if isinstance(x, int) else None)
            if any(p is None for p in parts):
                return ExtObj('str')
            return ''.join(parts)
        if t is ast.Slice:
            return slice(*(self.ev(fr, x) if x is not None else None for x in (n.lower, n.upper, n.step)))
        if t is ast.Starred:
            return self.ev(fr, n.value)
        if t is ast.NamedExpr:
            v = self.ev(fr, n.value)
            self.assign(fr, n.target, v)
            return v
        if t is ast.FormattedValue:
            return ExtObj('str')
        raise Unsupported(f'expression {t.__name__}')

    def mkset(self, xs):
        try:
            return set(xs)
        except TypeError:
            return list(xs)

    def two(self, c, f, g):
        """Evaluate two alternatives of an expression with a gated join."""
        rs = []
        for val, h in ((True, f), (False, g)):
            self.begin()
            self.facts.append((c, val))
            nf = len(self.fstack)
            try:
                v = h()
                rs.append(('ok', v, self.undo()))
            except AbsRaise as e:
                del self.fstack[nf:]
                rs.append(('raise', e, self.undo()))
            finally:
                self.facts.pop()
        (k1, v1, n1), (k2, v2, n2) = rs
        if k1 == 'raise' and k2 == 'raise':
            raise v2
        if k1 == 'raise':
            self.note_may_raise(c, v1)
            self.apply(n2)
            return v2
        if k2 == 'raise':
            self.note_may_raise(self.c_not(c), v2)
            self.apply(n1)
            return v1
        j = self.join(c, n1, n2)
        v = j(v1, v2)
        self.merge(c, n1, n2, j)
        return v

    def boolop(self, fr, n):
        isand = isinstance(n.op, ast.And)
        acc = self.ev(fr, n.values[0])

        def step(acc, rest):
            if not rest:
                return acc
            t = self.truth(acc)
            if isand:
                if t is False:
                    return acc
                if t is True:
                    return step(self.ev(fr, rest[0]), rest[1:])
            else:
                if t is True:
                    return acc
                if t is False:
                    return step(self.ev(fr, rest[0]), rest[1:])
            if isand:
                return self.two(t, lambda: step(self.ev(fr, rest[0]), rest[1:]), lambda: acc if not isinstance(acc, Cond) else False)
            return self.two(t, lambda: acc if not isinstance(acc, Cond) else True, lambda: step(self.ev(fr, rest[0]), rest[1:]))
        return step(acc, n.values[1:])

    def elts(self, fr, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(fr, e.value)
                its = self.iterate(v)
                if its is None:
                    self.event('opaque_star')
                    its = [self.dom.element_of(v)]
                out.extend(its)
            else:
                out.append(self.ev(fr, e))
        return out

    def comp(self, fr, n):
        cf = Frame(fr.func, {}, fr.mod, [fr.env] + list(fr.scopes or []), None, fr.depth)
        cf.cls, cf.self_ = None, fr.self_
        if fr.locals is not None:
            cf.scopes = [_LocalView(fr)] + list(fr.scopes or [])
        isdict = isinstance(n, ast.DictComp)
        out = {} if isdict else []

        def rec(i):
            if i == len(n.generators):
                if isdict:
                    out[self.ev(cf, n.key)] = self.ev(cf, n.value)
                else:
                    out.append(self.ev(cf, n.elt))
                return
            g = n.generators[i]
            it = self.ev(cf if i else fr, g.iter)
            items = self.iterate(it)
            if items is None:
                self.event('opaque_loop', iter=it)
                items = [self.dom.element_of(it)]
            for x in items:
                self.assign(cf, g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(cf, c))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        self.event('unknown_filter')
                if ok:
                    rec(i + 1)
        rec(0)
        return out

    def ev_index(self, fr, n):
        return self.ev(fr, n)

    # ------------------------------------------------------------ operations
    def arr(self, v):
        """Convert to object ndarray; None if impossible."""
        if isinstance(v, np.ndarray):
            return v
        if isinstance(v, (list, tuple, range)):
            subs = [self.arr(x) if isinstance(x, (list, tuple, range, np.ndarray)) else x for x in v]
            if any(x is None and not (y is None) for x, y in zip(subs, v)):
                return None
            if any(isinstance(x, (ExtObj, Gate, dict, Obj)) for x in subs):
                return None
            shapes = {x.shape if isinstance(x, np.ndarray) else () for x in subs}
            if len(shapes) > 1 and any(x is TOP for x in subs):
                # an unknown entry takes the shape the known ones agree on
                shapes = {x.shape if isinstance(x, np.ndarray) else () for x in subs if x is not TOP}
                if len(shapes) == 1:
                    sh = next(iter(shapes))
                    fill = np.empty(sh, dtype=object)
                    fill[...] = TOP
                    subs = [fill if x is TOP else x for x in subs]
            if len(shapes) > 1:
                # size-one arrays inside a list of scalars are legal only for 0-d
                raise AbsRaise('ValueError', ('inhomogeneous shape',), self.cur)
            shp = (len(subs),) + (shapes.pop() if shapes else ())
            out = np.empty(shp, dtype=object)
            for i, x in enumerate(subs):
                out[i] = x
            return out
        if v is TOP or isinstance(v, (ExtObj, Gate)):
            return None
        out = np.empty((), dtype=object)
        out[()] = v
        return out

    def elem(self, f, *args):
        """Apply scalar function elementwise with broadcasting."""
        if any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
            aa = [self.arr(a) for a in args]
            if any(a is None for a in aa):
                return TOP
            try:
                r = np.frompyfunc(f, len(aa), 1)(*aa)
            except ValueError as e:
                if 'broadcast' in str(e):
                    raise AbsRaise('ValueError', (str(e),), self.cur)
                raise
            if isinstance(r, np.ndarray) and r.dtype != object:
                r = r.astype(object)
            if not isinstance(r, np.ndarray):
                return r
            return r
        return f(*args)

    def binop(self, op, a, b):
        if isinstance(a, Gate) or isinstance(b, Gate):
            if isinstance(a, Gate):
                return self.gmap(lambda x: self.binop(op, x, b), a)
            return self.gmap(lambda x: self.binop(op, a, x), b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if op == '@':
                from . import npmodel
                return npmodel.dot(self, a, b)
            return self.elem(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(a, (Obj, ExtObj, Ext)) or isinstance(b, (Obj, ExtObj, Ext)):
            if isinstance(a, Obj):
                dn = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '@': '__matmul__'}.get(op)
                _, f = a.cls.find(dn) if dn else (None, None)
                if isinstance(f, Func):
                    return self.call(Bound(f, a), [b], {}, self.cur)
            if isinstance(a, ExtObj) and a.origin == 'str' or isinstance(b, ExtObj) and b.origin == 'str':
                return ExtObj('str')
            return TOP
        if a is TOP or b is TOP:
            return self.dom.top_op(op, a, b)
        if isinstance(a, (str, list, tuple, dict, set)) or isinstance(b, (str, list, tuple, dict, set)):
            try:
                if op == '+' and isinstance(a, (str, list, tuple)) and type(a) is type(b):
                    return a + b
                if op == '*' and isinstance(a, (str, list, tuple)):
                    k = self.dom.as_int(b)
                    if k is not None:
                        return a * k
                if op == '*' and isinstance(b, (str, list, tuple)):
                    k = self.dom.as_int(a)
                    if k is not None:
                        return k * b
                if op == '%' and isinstance(a, str):
                    return ExtObj('str')
                if op == '|' and isinstance(a, (dict, set)):
                    return a | b
                if op in '&-^' and isinstance(a, set):
                    return {'&': a & b, '-': a - b, '^': a ^ b}[op]
            except TypeError:
                pass
            raise AbsRaise('TypeError', (f'unsupported operand for {op}',), self.cur)
        if a is None or b is None:
            raise AbsRaise('TypeError', ('operand None',), self.cur)
        if a is NAN or b is NAN:
            return NAN
        if op in ('&', '|', '^') and isinstance(a, (bool, np.bool_, Cond)) and isinstance(b, (bool, np.bool_, Cond)):
            a = bool(a) if isinstance(a, np.bool_) else a
            b = bool(b) if isinstance(b, np.bool_) else b
            if op == '&':
                return self.c_and(a, b)
            if op == '|':
                return self.c_or(a, b)
            return self.c_or(self.c_and(a, self.c_not(b)), self.c_and(self.c_not(a), b))
        if isinstance(a, Cond):
            a = self.dom.ite(a, 1, 0)
        if isinstance(b, Cond):
            b = self.dom.ite(b, 1, 0)
        return self.dom.bin(op, a, b)

    def unop(self, op, v):
        if isinstance(v, Gate):
            return self.gmap(lambda x: self.unop(op, x), v)
        if isinstance(v, np.ndarray):
            return self.elem(lambda x: self.unop(op, x), v)
        if v is TOP or isinstance(v, ExtObj):
            return TOP
        if v is NAN:
            return NAN
        if op == 'inv':
            if isinstance(v, (bool, np.bool_, Cond)):
                return self.c_not(bool(v) if isinstance(v, np.bool_) else v)
            if isinstance(v, int):
                return ~v
            return TOP
        if isinstance(v, Cond):
            v = self.dom.ite(v, 1, 0)
        if isinstance(v, (list, dict, str, tuple)) or v is None:
            raise AbsRaise('TypeError', ('bad operand for unary',), self.cur)
        if op == 'pos':
            return v
        return self.dom.neg(v)

    def compare(self, op, a, b):
        if isinstance(a, Gate):
            return self.gmap(lambda x: self.compare(op, x, b), a)
        if isinstance(b, Gate):
            return self.gmap(lambda x: self.compare(op, a, x), b)
        if op in ('is', 'isnot'):
            r = self.is_same(a, b)
            return r if op == 'is' else self.c_not(r)
        if op in ('in', 'notin'):
            r = self.contains(a, b)
            return r if op == 'in' else self.c_not(r)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, (str, type(None), dict)) or isinstance(b, (str, type(None), dict)):
                x = a if isinstance(a, np.ndarray) else b
                if x.dtype == object and all(isinstance(q, str) for q in x.ravel().tolist()):
                    return self.elem(lambda p, q: self.compare(op, p, q), a, b)
                return {'==': False, '!=': True}.get(op, TOP)
            return self.elem(lambda x, y: self.truth_keep(self.compare(op, x, y)), a, b)
        if a is TOP or b is TOP or isinstance(a, (ExtObj, Ext)) or isinstance(b, (ExtObj, Ext)):
            if isinstance(a, Ext) and isinstance(b, Ext) and op in ('==', '!='):
                return (a == b) == (op == '==')
            return self.dom.top_compare(op, a, b)
        if a is NAN or b is NAN:
            return op == '!='
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, bool) or isinstance(b, bool):
                c, v = (a, b) if isinstance(a, Cond) else (b, a)
                if op in ('==', '!='):
                    return c if (v == (op == '==')) else self.c_not(c)
            return self.dom.fresh_cond()
        nat = (str, bool, type(None), list, tuple, dict, set, bytes, Builtin, ClassVal)
        if isinstance(a, nat) or isinstance(b, nat):
            if isinstance(a, (list, tuple)) and type(a) is type(b) and op in ('==', '!='):
                if len(a) != len(b):
                    return op == '!='
                r = True
                for x, y in zip(a, b):
                    r = self.c_and(r, self.truth(self.compare('==', x, y)))
                return r if op == '==' else self.c_not(r)
            if isinstance(a, nat) and isinstance(b, nat):
                try:
                    return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                            '>': lambda: a > b, '>=': lambda: a >= b}[op]()
                except TypeError:
                    raise AbsRaise('TypeError', ('unorderable',), self.cur)
            if isinstance(a, bool) or isinstance(b, bool):
                return self.truth_keep(self.dom.compare(op, int(a) if isinstance(a, bool) else a,
                                                        int(b) if isinstance(b, bool) else b))
            if op == '==':
                return False
            if op == '!=':
                return True
            raise AbsRaise('TypeError', ('unorderable',), self.cur)
        if isinstance(a, (Obj, Func, Bound)) or isinstance(b, (Obj, Func, Bound)):
            return {'==': a is b, '!=': a is not b}.get(op, TOP)
        return self.truth_keep(self.dom.compare(op, a, b))

    def truth_keep(self, c):
        return self.decide(c) if isinstance(c, Cond) else c

    def is_same(self, a, b):
        if a is TOP or b is TOP:
            return self.dom.fresh_cond()
        if isinstance(a, ExtObj) and b is None or isinstance(b, ExtObj) and a is None:
            return False if (a or b).origin != 'opt' else self.dom.fresh_cond()
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, Ext) and b is None:
            return False
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Cond) or isinstance(b, Cond):
                return self.compare('==', a, b) if isinstance(a, bool) or isinstance(b, bool) else False
            return a is b
        if isinstance(a, (Builtin, str, int)) and type(a) is type(b):
            return a == b
        return a is b

    def contains(self, a, b):
        if isinstance(b, (list, tuple, set, frozenset, range)):
            r = False
            for x in b:
                r = self.c_or(r, self.truth(self.compare('==', a, x)))
                if r is True:
                    return True
            return r
        if isinstance(b, dict):
            if isinstance(a, (str, int, type(None), tuple)):
                return a in b
            return self.contains(a, list(b))
        if isinstance(b, str):
            return (a in b) if isinstance(a, str) else self.dom.fresh_cond()
        if isinstance(b, np.ndarray):
            return self.contains(a, b.ravel().tolist())
        return self.dom.fresh_cond()

    def getitem(self, o, i):
        if isinstance(o, Gate):
            return self.gmap(lambda x: self.getitem(x, i), o)
        if isinstance(i, Gate):
            return self.gmap(lambda x: self.getitem(o, x), i)
        if isinstance(o, np.ndarray):
            ix = self.idx(i)
            if ix is None:
                return self.dom.unknown_index(o, i)
            try:
                r = o[ix[0]]
            except IndexError as e:
                raise AbsRaise('IndexError', (str(e),), self.cur)
            return r
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                ix = self.idx(i)
                if ix is None:
                    return TOP
                r = o[ix[0]]
                return list(r) if isinstance(r, range) else r
            if isinstance(i, (tuple, list, np.ndarray, str)) or i is None:
                raise AbsRaise('TypeError', ('indices must be integers',), self.cur)
            k = self.dom.as_int(i)
            if k is None:
                if isinstance(o, (list, tuple)) and self.dom.flat_join and len(o):
                    return o[0]
                return TOP
            try:
                return o[k]
            except IndexError as e:
                raise AbsRaise('IndexError', (str(e),), self.cur)
        if isinstance(o, dict):
            if i is TOP or isinstance(i, (ExtObj, Cond)):
                if not o:
                    raise AbsRaise('KeyError', (), self.cur)
                self.event('unknown_key')
                vs = list(o.values())
                return vs[0] if all(self.same(vs[0], x) for x in vs) else self.dom.join_all(vs)
            try:
                if i in o:
                    v = o[i]
                    if isinstance(v, Gate):
                        v = self.bound(v, self.cur)
                    if v is not UNB:
                        return v
            except TypeError:
                raise AbsRaise('TypeError', ('unhashable',), self.cur)
            raise AbsRaise('KeyError', (i,), self.cur)
        if isinstance(o, Obj):
            _, f = o.cls.find('__getitem__')
            if isinstance(f, Func):
                return self.call(Bound(f, o), [i], {}, self.cur)
            raise AbsRaise('TypeError', ('not subscriptable',), self.cur)
        if isinstance(o, (ExtObj, Ext)):
            h = self.ext.get((o.origin if isinstance(o, ExtObj) else o.path) + '.__getitem__')
            if h:
                return h(self, [o, i], {}, self.cur)
            return ExtObj((o.origin if isinstance(o, ExtObj) else o.path) + '[]')
        if o is TOP:
            return TOP
        if isinstance(o, (ClassVal, Builtin)):
            return o
        if self.dom.is_scalar(o) and (i == () or i is Ellipsis):
            return o
        raise AbsRaise('TypeError', ('object is not subscriptable',), self.cur)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, NTuple):
            if name in o.fields:
                return o[o.fields.index(name)]
            if name == '_fields':
                return o.fields
        if isinstance(o, Gate):
            return self.gmap(lambda x: self.getattr(x, name), o)
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Gate):
                    v = self.bound(v, self.cur)
                if v is not UNB:
                    return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            c, v = o.cls.find(name)
            if c is not None:
                if isinstance(v, Func):
                    if v.kind == 'property':
                        return self.call(v, [o], {}, self.cur)
                    if v.kind == 'cached_property':
                        r = self.call(v, [o], {}, self.cur)
                        self.set_env(o.attrs, name, r)
                        return r
                    if v.kind == 'staticmethod':
                        return v
                    if v.kind == 'classmethod':
                        return Bound(v, o.cls)
                    return Bound(v, o)
                return v
            if o.cls.ext_bases() and not all(isinstance(b, Builtin) for b in o.cls.ext_bases()):
                return ExtObj('inherited.' + name)
            if name in ('__init__', '__repr__', '__str__', '__eq__', '__hash__'):
                return ExtObj('object.' + name)
            c, v = o.cls.find('__getattr__')
            if isinstance(v, Func):
                return self.call(Bound(v, o), [name], {}, self.cur)
            raise AbsRaise('AttributeError', (name, o.cls.name), self.cur)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro())
            c, v = o.find(name)
            if c is not None:
                return Bound(v, o) if isinstance(v, Func) and v.kind == 'classmethod' else v
            if o.ext_bases():
                return ExtObj('inherited.' + name)
            raise AbsRaise('AttributeError', (name, o.name), self.cur)
        if isinstance(o, ModVal):
            if name in o.env:
                return o.env[name]
            m = self.load(o.name + '.' + name)
            if m is not None:
                return m
            raise AbsRaise('AttributeError', (name, o.name), self.cur)
        if isinstance(o, Ext):
            p = o.path + '.' + name
            if p in self.extattr:
                return self.extattr[p]
            return Ext(p)
        if isinstance(o, ExtObj):
            if o.origin + '.' + name in self.extattr:
                return self.extattr[o.origin + '.' + name]
            return NatMeth(o, name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.env:
                    v = c.env[name]
                    if isinstance(v, Func):
                        return v if v.kind == 'staticmethod' else Bound(v, o.obj)
                    return v
            if name == '__init__':
                return Partial(Builtin('object'), [], {})
            eb = [b for c in mro for b in c.bases if not isinstance(b, ClassVal)]
            if eb:
                return ExtObj('inherited.' + name)
            raise AbsRaise('AttributeError', (name, 'super'), self.cur)
        if isinstance(o, np.ndarray):
            if name == 'shape':
                return tuple(o.shape)
            if name == 'size':
                return int(o.size)
            if name == 'ndim':
                return o.ndim
            if name == 'T':
                return o.T
            if name == 'dtype':
                return ExtObj('dtype')
            if name in ('real', 'imag'):
                return self.elem(lambda x: self.scalar_attr(x, name), o)
            if name == 'flat':
                return o.ravel().tolist()
            from . import npmodel
            if name in npmodel.METHODS:
                return NatMeth(o, name)
            raise AbsRaise('AttributeError', (name, 'ndarray'), self.cur)
        if isinstance(o, (list, dict, str, tuple, set, frozenset, range, bytes)):
            base = {list: list, dict: dict, str: str, tuple: tuple, set: set}.get(type(o), type(o))
            if hasattr(base, name):
                return NatMeth(o, name)
            raise AbsRaise('AttributeError', (name, base.__name__), self.cur)
        if isinstance(o, (Func, Bound, Partial)):
            if name == '__name__':
                return getattr(o, 'qual', 'f').rpartition('.')[2] if isinstance(o, Func) else 'f'
            if isinstance(o, Partial) and name in ('func', 'args', 'keywords'):
                return {'func': o.f, 'args': tuple(o.args), 'keywords': o.kwargs}[name]
            if name in ('cache_clear', 'cache_info'):
                return ExtObj('functools.' + name)
            if name in ('setter', 'getter', 'deleter'):
                return Builtin('property')
            return ExtObj('function.' + name)
        if o is TOP:
            return TOP
        if o is None:
            raise AbsRaise('AttributeError', (name, 'NoneType'), self.cur)
        if isinstance(o, ExcVal):
            return ExtObj('exc.' + name)
        if isinstance(o, Builtin):
            return Builtin(o.name + '.' + name)
        if isinstance(o, (bool, np.bool_, Cond)):
            if name in ('size', 'ndim', 'shape'):
                raise AbsRaise('AttributeError', (name, 'bool'), self.cur)
            from . import npmodel
            if name in npmodel.METHODS:
                return NatMeth(o, name)
            return TOP
        # numeric scalar
        if name in ('real', 'imag', 'T'):
            return self.scalar_attr(o, name)
        if name == 'shape':
            return ()
        if name == 'size':
            return 1
        if name == 'ndim':
            return 0
        from . import npmodel
        if name in npmodel.METHODS or name in ('is_integer', 'conjugate'):
            return NatMeth(o, name)
        raise AbsRaise('AttributeError', (name, 'number'), self.cur)

    def scalar_attr(self, x, name):
        if name == 'T':
            return x
        if x is TOP or x is NAN:
            return x
        return self.dom.attr(x, name)

    # ------------------------------------------------------------------ calls
    def ev_call(self, fr, n):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            if fr.func is None or fr.self_ is None:
                raise Unsupported('super')
            return Super(fr.self_, fr.func.owner)
        f = self.ev(fr, n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(fr, a.value)
                its = self.iterate(v)
                if its is None:
                    self.event('opaque_star')
                    its = [self.dom.element_of(v)]
                args.extend(its)
            else:
                args.append(self.ev(fr, a))
        for k in n.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                if isinstance(v, Gate):
                    v = v.a if isinstance(v.a, dict) else v.b
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if kk in kwargs:
                            raise AbsRaise('TypeError', (f'multiple values for {kk}',), n)
                        kwargs[kk] = vv
                else:
                    self.event('opaque_starstar')
            else:
                if k.arg in kwargs:
                    raise AbsRaise('TypeError', (f'multiple values for {k.arg}',), n)
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, n)

    def call(self, f, args, kwargs, node):
        old = self.cur
        self.cur = node
        try:
            return self._call(f, args, kwargs, node)
        finally:
            self.cur = old

    def _call(self, f, args, kwargs, node):
        if isinstance(f, Gate):
            return self.gmap(lambda x: self._call(x, args, kwargs, node), f)
        if isinstance(f, Bound):
            return self._call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Partial):
            return self._call(f.f, list(f.args) + list(args), {**f.kwargs, **kwargs}, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, ClassVal):
            o = Obj(f)
            c, init = f.find('__init__')
            dc = next((k for k in f.mro() if k.dcfields is not None), None)
            if dc is not None and (c is None or not isinstance(init, Func)):
                fs = {}
                for k in reversed(f.mro()):
                    fs.update(k.dcfields or {})
                vals = dict(zip(fs, args))
                if len(args) > len(fs) or set(kwargs) - set(fs) or set(kwargs) & set(vals):
                    raise AbsRaise('TypeError', (f.name,), node)
                vals.update(kwargs)
                for k, d in fs.items():
                    if k not in vals:
                        if d is UNB:
                            raise AbsRaise('TypeError', (f'{f.name} missing {k}',), node)
                        if isinstance(d, ExtObj) and d.origin == 'dataclasses.field':
                            d = d.args.get('default', UNB) if 'default_factory' not in d.args else \
                                self.call(d.args['default_factory'], [], {}, node)
                        vals[k] = d
                o.attrs.update(vals)
                _, pi = f.find('__post_init__')
                if isinstance(pi, Func):
                    self.call_func(pi, [o], {}, node)
            elif isinstance(init, Func):
                self.call_func(init, [o] + list(args), kwargs, node)
            elif args or kwargs:
                if not f.ext_bases():
                    raise AbsRaise('TypeError', ('takes no arguments',), node)
            return o
        from . import npmodel
        if isinstance(f, Ext):
            return npmodel.call_ext(self, f.path, args, kwargs, node)
        if isinstance(f, Builtin):
            return npmodel.call_builtin(self, f.name, args, kwargs, node)
        if isinstance(f, NatMeth):
            return npmodel.call_method(self, f.obj, f.name, args, kwargs, node)
        if isinstance(f, NTClass):
            vals = dict(f.defaults)
            vals.update(zip(f.fields, args))
            vals.update(kwargs)
            if len(args) > len(f.fields) or set(vals) != set(f.fields):
                raise AbsRaise('TypeError', (f.name,), node)
            r = NTuple(vals[k] for k in f.fields)
            r.fields = f.fields
            return r
        if isinstance(f, ExtObj) and f.origin == 'operator.itemgetter' and f.args:
            r = tuple(self.getitem(args[0], k) for k in f.args)
            return r[0] if len(r) == 1 else r
        if isinstance(f, ExtObj) and f.origin == 'operator.attrgetter' and f.args:
            def ag(o, path):
                for q in path.split('.'):
                    o = self.getattr(o, q)
                return o
            r = tuple(ag(args[0], k) for k in f.args)
            return r[0] if len(r) == 1 else r
        if isinstance(f, ExtObj) and f.origin == 'operator.methodcaller':
            a, k = f.args
            return self.call(self.getattr(args[0], a[0]), list(a[1:]), dict(k), node)
        if isinstance(f, ExtObj):
            return npmodel.call_ext(self, f.origin + '()', args, kwargs, node, obj=f)
        if isinstance(f, Obj):
            _, m = f.cls.find('__call__')
            if isinstance(m, Func):
                return self.call_func(m, [f] + list(args), kwargs, node)
        if f is TOP:
            self.event('top_call')
            return TOP
        raise AbsRaise('TypeError', ('object is not callable',), node)

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos) and not a.vararg:
            raise AbsRaise('TypeError', (f'{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given',), node)
        for n_, v in zip(pos, args):
            env[n_] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if (k in pos and k not in ponly) or k in kwo:
                if k in env:
                    raise AbsRaise('TypeError', (f'{f.qual}() got multiple values for argument {k!r}',), node)
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise AbsRaise('TypeError', (f'{f.qual}() got an unexpected keyword argument {k!r}',), node)
        if a.kwarg:
            env[a.kwarg.arg] = extra
        for n_, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if n_ not in env:
                env[n_] = d
        for k, d in f.kwdefaults.items():
            env.setdefault(k, d)
        for n_ in pos + kwo:
            if n_ not in env:
                raise AbsRaise('TypeError', (f'{f.qual}() missing required argument {n_!r}',), node)
        return env

    def call_func(self, f, args, kwargs, node):
        st = self.stubs.get(f.qual)
        if st is None and f.owner is not None and self.mstubs:
            st = self.mstubs.get(f.qual.rpartition('.')[2])
        if st is not None:
            env = self.bind(f, args, kwargs, node)
            r = st(self, env, node)
            if r is not NotImplemented:
                return r
        if len(self.fstack) > self.MAXDEPTH:
            self.event('depth')
            return TOP
        env = self.bind(f, args, kwargs, node)
        if f.cached:
            key = (id(f), tuple(self.memo_key(v) for v in env.values()))
            if key in self.memo:
                return self.memo[key]
        if f.locals is None:
            if isinstance(f.node, ast.Lambda):
                f.locals = (local_names(f.node)[0], set())
            else:
                f.locals = local_names(f.node)
        if not isinstance(f.node, ast.Lambda) and not hasattr(f.node, '_isgen'):
            f.node._isgen = _is_generator(f.node)
        fr = Frame(f, env, f.mod, f.closure, f.locals[0], len(self.fstack))
        fr.globals_ = set(f.locals[1])
        if f.locals[1]:
            fr.nonlocals_ = {n for n in f.locals[1] if any(n in s for s in f.closure)}
            fr.globals_ -= fr.nonlocals_
        fr.self_ = next(iter(env.values()), None) if f.node.args.args else None
        if fr.self_ is not None and not isinstance(fr.self_, (Obj, ClassVal)):
            fr.self_ = self.fstack[-1].self_ if self.fstack and f.owner is None else None
        self.fvisited[(f.mod.name, f.qual)] = self.fvisited.get((f.mod.name, f.qual), 0) + 1
        self.fstack.append(fr)
        nf = len(self.fstack)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(fr, f.node.body)
            elif f.node._isgen:
                r = self.run_gen(fr, f)
            else:
                r = self.run(fr, push(f.node.body, None), True)[1]
        finally:
            del self.fstack[nf - 1:]
        if f.cached:
            self.memo[key] = r
        return r

    def run_gen(self, fr, f):
        """Generators run eagerly to a list of their values; those of contextmanager are suspended at their yield."""
        if f.ctxmgr:
            fr.ctx = True
            return CtxGen(fr, push(f.node.body, None))
        fr.yields, fr.ydepth = [], len(self.trail)
        self.run(fr, push(f.node.body, None), True)
        if fr.yields is None:
            self.event('generator')
            return TOP
        return fr.yields

    def memo_key(self, v):
        if isinstance(v, (Obj, ClassVal, Func)):
            return id(v)
        if isinstance(v, (np.ndarray, list, dict, set)):
            raise AbsRaise('TypeError', ('unhashable type',), self.cur)
        return str(v)


class _SetExc:
    def __init__(self, e):
        self.e = e
        self.lineno = 0


class _LocalView(dict):
    """Live view on a frame's environment used as enclosing scope of comprehensions."""
    def __init__(self, fr):
        super().__init__()
        self.fr = fr

    def __contains__(self, k):
        return k in self.fr.env

    def __getitem__(self, k):
        return self.fr.env[k]


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class Done:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Suspend:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Goto:
    __slots__ = ('K',)

    def __init__(self, K):
        self.K = K


class Final:
    __slots__ = ('kind', 'v', 'x')

    def __init__(self, kind, v, x=None):
        self.kind, self.v, self.x = kind, v, x


INPLACE = object()
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%',
       ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
