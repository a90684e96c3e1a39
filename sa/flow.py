"""Whole-program flow facts: may-write effects and call resolution (flow-insensitive)."""
import ast


def _callees(prog, fi):
    """over-approximate callees by name resolution + CHA by method name"""
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                r = prog.resolve_name(fi.module, n.func.id)
                if r and r[0] == 'func':
                    out.add(r[1])
                elif r and r[0] == 'class':
                    m = prog.find_method(r[1], '__init__')
                    if m:
                        out.add(m)
            elif isinstance(n.func, ast.Attribute):
                nm = n.func.attr
                if isinstance(n.func.value, ast.Name) and fi.cls is not None and fi.args and n.func.value.id == fi.args[0]:
                    m = prog.find_method(fi.cls, nm)
                    if m is not None:
                        out.add(m)
                        for c in prog.subclasses(fi.cls):
                            if nm in c.methods:
                                out.add(c.methods[nm])
                        continue
                for m in prog.cha(nm):
                    out.add(m)
                if nm in ('add',):
                    for c in prog.classes.values():
                        if nm in c.methods:
                            out.add(c.methods[nm])
                if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and fi.cls:
                    for b in prog.mro(fi.cls)[1:]:
                        if nm in b.methods:
                            out.add(b.methods[nm])
        elif isinstance(n, ast.Attribute):
            for c in prog.classes.values():
                if isinstance(n.ctx, ast.Load) and n.attr in c.getters:
                    out.add(c.getters[n.attr])
                elif isinstance(n.ctx, ast.Store) and n.attr in c.setters:
                    out.add(c.setters[n.attr])
    return out


def callees(prog, fi):
    cache = prog.__dict__.setdefault('_callees', {})
    if fi not in cache:
        cache[fi] = _callees(prog, fi)
    return cache[fi]


def reach(prog, fi):
    seen = {fi}
    work = [fi]
    while work:
        f = work.pop()
        for g in callees(prog, f):
            if g not in seen:
                seen.add(g)
                work.append(g)
    return seen


def own_mod_attrs(fi):
    out = set()
    for n in ast.walk(fi.node):
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.For):
            targets = [n.target]
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
    return out


def mod_attrs(prog, fi):
    """attribute names possibly assigned by fi or anything it calls"""
    cache = prog.__dict__.setdefault('_mods', {})
    if fi not in cache:
        out = set()
        for f in reach(prog, fi):
            out |= own_mod_attrs(f)
        cache[fi] = out
    return cache[fi]
