"""Names a module uses that nothing defines (scope resolution from the symbol tables of the source)."""
import ast
import builtins
import os
import symtable
from functools import lru_cache

IMPLICIT = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__annotations__', '__debug__',
            '__module__', '__qualname__', '__class__', '__cached__'} | set(dir(builtins))


@lru_cache(None)
def _scan(path, stamp):
    with open(path, encoding='utf-8') as fh:
        src = fh.read()
    tree = ast.parse(src)
    dynamic = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(tree)) or any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'vars', 'eval') for n in ast.walk(tree))
    safe = {id(n) for t in ast.walk(tree) if isinstance(t, ast.Try) and any(
        h.type is None or any(isinstance(x, ast.Name) and x.id in ('NameError', 'Exception', 'BaseException') for x in ast.walk(h.type))
        for h in t.handlers) for b in t.body for n in ast.walk(b)}
    open_uses = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in safe}
    top = symtable.symtable(src, path, 'exec')
    defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    tables, todo = [], [(top, '')]
    while todo:
        t, q = todo.pop()
        tables.append((t, q))
        for c in t.get_children():
            todo.append((c, (q + '.' if q else '') + c.get_name()))
    for t, _ in tables:
        if t is top:
            continue
        for s in t.get_symbols():
            if s.is_declared_global() and (s.is_assigned() or s.is_imported()):
                defined.add(s.get_name())
    out, n = [], 0
    for t, q in tables:
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            n += 1
            if t is not top and not s.is_global():
                continue
            if s.get_name() not in defined and s.get_name() not in IMPLICIT and s.get_name() in open_uses:
                out.append((q or '<module>', s.get_name()))
    return tuple(sorted(set(out))), n, dynamic


def undefined(path):
    """([(scope, name)], number of uses resolved, names may appear dynamically); uses whose NameError is caught are left out."""
    return _scan(path, os.stat(path).st_mtime_ns)


def never_defined(path, name):
    """Is `name` used in the file and certainly defined nowhere in it?"""
    try:
        bad, _, dynamic = undefined(path)
    except (OSError, SyntaxError):
        return False
    return not dynamic and any(n == name for _, n in bad)
