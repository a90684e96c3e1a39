"""Syntactic accesses to attributes of package objects, with the type of the object (flow-insensitive)."""
import ast
from .engine import MUT_METHODS


def local_env(prog, fi):
    """variable -> package class / builtin type name for a function (parameters, annotations, assignments)"""
    cache = prog.__dict__.setdefault('_lenv', {})
    if fi in cache:
        return cache[fi]
    env = {}
    if fi.cls is not None and fi.kind not in ('static', 'function') and fi.args:
        env[fi.args[0]] = fi.cls.name
    for a, ann in fi.annotations.items():
        t = prog.ann_type(ann)
        if t:
            env[a] = t
    for _ in range(2):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = prog._expr_type(n.value, env, fi, prog.attr_types)
                if t:
                    env.setdefault(n.targets[0].id, t)
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Attribute):
                bt = prog._expr_type(n.iter.value, env, fi, prog.attr_types)
                t = prog.elem_type(bt, n.iter.attr) if bt else None
                if t:
                    env.setdefault(n.target.id, t)
    cache[fi] = env
    return env


def expr_type(prog, fi, e):
    return prog._expr_type(e, local_env(prog, fi), fi, prog.attr_types)


def aliases(prog, fi):
    """local variables bound (anywhere) to <expr>.attr : name -> set of (basetype, attr, base text)"""
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, set()).add((expr_type(prog, fi, n.value.value), n.value.attr))
    return out


def mutations(prog, fi):
    """[(node, basetype, attr, how)] for every mutation of an attribute or of the value it holds"""
    out = []
    al = aliases(prog, fi)

    def held(e, how, n):
        # e denotes the value of an attribute (directly or through a local alias)
        if isinstance(e, ast.Attribute):
            out.append((n, expr_type(prog, fi, e.value), e.attr, how))
        elif isinstance(e, ast.Name):
            for bt, attr in al.get(e.id, ()):
                out.append((n, bt, attr, how))
    for n in ast.walk(fi.node):
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        elif isinstance(n, (ast.For,)):
            targets = [n.target]
        elif isinstance(n, ast.NamedExpr):
            targets = [n.target]
        stack = list(targets)
        while stack:
            t = stack.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                stack.extend(t.elts)
            elif isinstance(t, ast.Starred):
                stack.append(t.value)
            elif isinstance(t, ast.Attribute):
                out.append((n, expr_type(prog, fi, t.value), t.attr, 'del' if isinstance(n, ast.Delete) else 'assign'))
            elif isinstance(t, ast.Subscript):
                held(t.value, 'delitem' if isinstance(n, ast.Delete) else 'setitem', n)
            elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                held(t, 'augassign', n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
            held(n.func.value, n.func.attr, n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1:
            a = n.args[1]
            out.append((n, expr_type(prog, fi, n.args[0]), a.value if isinstance(a, ast.Constant) else None, n.func.id))
    return out


def all_mutations(prog):
    cache = prog.__dict__.get('_allmut')
    if cache is None:
        cache = prog.__dict__['_allmut'] = [(fi,) + m for fi in prog.all_functions() for m in mutations(prog, fi)]
    return cache


def callers(prog):
    """callee FuncInfo -> set of FuncInfo that may call it (name resolution + CHA)"""
    from .flow import callees
    cache = prog.__dict__.get('_callers')
    if cache is None:
        cache = {}
        for f in prog.all_functions():
            for g in callees(prog, f):
                cache.setdefault(g, set()).add(f)
        prog.__dict__['_callers'] = cache
    return cache


def private_closure(prog, seeds):
    """the seeds plus functions that are only called from the closure (extracted helpers)"""
    c = callers(prog)
    s = set(seeds)
    changed = True
    while changed:
        changed = False
        for f in prog.all_functions():
            if f in s or f.name.startswith('__'):
                continue
            cs = c.get(f)
            if cs and cs <= s | {f}:
                s.add(f)
                changed = True
    return s
