"""Normal form of single functions: a value kept in a local name only until the next statement is put where it is used, and
``x += [v]`` is ``x.append(v)``.  Nothing is moved across anything that could change it."""
import ast


def quiet(e):
    """evaluating this changes nothing and cannot be told from evaluating it a little later"""
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Subscript, ast.Lambda, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp, ast.JoinedStr)) for x in ast.walk(e))


class Before(Exception):
    pass


def order(n):
    """the expressions below an expression in the order of evaluation: (child, only under a condition)"""
    if isinstance(n, ast.BoolOp):
        return [(v, i > 0) for i, v in enumerate(n.values)]
    if isinstance(n, ast.IfExp):
        return [(n.test, False), (n.body, True), (n.orelse, True)]
    if isinstance(n, ast.Compare):
        return [(n.left, False)] + [(c, i > 0) for i, c in enumerate(n.comparators)]
    if isinstance(n, ast.Dict):
        return [(x, False) for kv in zip(n.keys, n.values) for x in kv if x is not None]
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return None
    if isinstance(n, ast.Call):
        return [(n.func, False)] + [(a, False) for a in n.args] + [(k.value, False) for k in n.keywords]
    return [(c, False) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]


def roots(s):
    """expressions of a statement evaluated first and once, in order"""
    if isinstance(s, ast.Assign):
        return [s.value]
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        return [s.value]
    if isinstance(s, ast.AugAssign):
        return [s.target, s.value]
    if isinstance(s, (ast.Expr, ast.Return)) and s.value is not None:
        return [s.value]
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, ast.For):
        return [s.iter]
    if isinstance(s, ast.Raise) and s.exc is not None:
        return [s.exc]
    return []


def place(s, v):
    """how a name is reached in a statement: (nodes evaluated before it, under a condition) or None"""
    before = []
    called = {id(x.func) for e in roots(s) for x in ast.walk(e) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}

    def go(n, cond):
        if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load):
            return cond
        sub = order(n)
        if sub is None:
            if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n)):
                raise Before
            before.append(n)
            return None
        for c, maybe in sub:
            r = go(c, cond or maybe)
            if r is not None:
                return r
        if id(n) not in called:
            before.append(n)
        return None
    try:
        for e in roots(s):
            r = go(e, False)
            if r is not None:
                return before, r
    except Before:
        pass
    return None


class Put(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e = v, e

    def visit_Name(self, n):
        return self.e if n.id == self.v and isinstance(n.ctx, ast.Load) else n


def settle(fn):
    """fn: FunctionDef, changed in place"""
    class Plus(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.op, ast.Add) and isinstance(n.value, ast.List) and len(n.value.elts) == 1 and not isinstance(n.value.elts[0], ast.Starred) and \
                    isinstance(n.target, (ast.Name, ast.Attribute, ast.Subscript)):
                t = n.target
                t.ctx = ast.Load()
                return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(t, 'append', ast.Load()), n), [n.value.elts[0]], []), n)), n)
            return n
    Plus().visit(fn)
    names = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            c = names.setdefault(x.id, [0, 0])
            c[0 if isinstance(x.ctx, ast.Load) else 1] += 1
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for v in x.names:
                names.setdefault(v, [0, 0])[1] += 9
        elif isinstance(x, ast.ExceptHandler) and x.name:
            names.setdefault(x.name, [0, 0])[1] += 9
        elif isinstance(x, ast.arg):
            names.setdefault(x.arg, [0, 0])[1] += 9
    once = {v for v, c in names.items() if c == [1, 1]}
    if not once:
        return

    def block(body):
        out = list(body)
        i = 0
        while i < len(out):
            s = out[i]
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, block(b))
            for h in getattr(s, 'handlers', ()):
                h.body = block(h.body)
            i += 1
        i = len(out) - 2
        while i >= 0:
            s = out[i]
            if i + 1 < len(out) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in once:
                v, e, nxt = s.targets[0].id, s.value, out[i + 1]
                at = place(nxt, v)
                if at is not None:
                    before, cond = at
                    local = all(isinstance(x, (ast.Name, ast.Constant)) for x in before)
                    if quiet(e) and all(quiet(x) for x in before) or not cond and local or not cond and constant(e):
                        Put(v, e).visit(nxt)
                        del out[i]
            i -= 1
        return out

    def constant(e):
        return all(isinstance(x, (ast.Constant, ast.Name, ast.operator, ast.unaryop, ast.expr_context, ast.BinOp, ast.UnaryOp, ast.Tuple)) for x in ast.walk(e))
    while True:
        n = sum(1 for _ in ast.walk(fn))
        fn.body = block(fn.body)
        if sum(1 for _ in ast.walk(fn)) == n:
            return


def negation(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


class Loops(ast.NodeTransformer):
    """``while True: if not C: break ...`` is ``while C: ...``"""

    def visit_While(self, n):
        self.generic_visit(n)
        while isinstance(n.test, ast.Constant) and n.test.value and len(n.body) > 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and \
                len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break) and not n.orelse:
            n.test = negation(n.body[0].test)
            n.body = n.body[1:]
        while isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and isinstance(n.test.operand, ast.UnaryOp) and isinstance(n.test.operand.op, ast.Not):
            n.test = n.test.operand.operand
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        while isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) and isinstance(n.test.operand, ast.UnaryOp) and isinstance(n.test.operand.op, ast.Not):
            n.test = n.test.operand.operand
        return n


def constants(modules):
    """names of modules that stand for a number or a string and are never changed, put in place"""
    def plain(e):
        return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)
    found = {}
    for mn, m in modules.items():
        count = {}
        for x in ast.walk(m):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                count[x.id] = count.get(x.id, 0) + 1
            elif isinstance(x, ast.arg):
                count[x.arg] = count.get(x.arg, 0) + 1
            elif isinstance(x, ast.ExceptHandler) and x.name:
                count[x.name] = count.get(x.name, 0) + 1
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                count[x.name] = count.get(x.name, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for v in x.names:
                    count[v] = 9
        for s in m.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and plain(s.value) and count[s.targets[0].id] == 1 and \
                    not s.targets[0].id.startswith('__'):
                found[mn, s.targets[0].id] = s.value
        found.update({(mn, None, v): 1 for v in count})
    for mn, m in modules.items():
        here = {v: e for (x, v, *r), e in found.items() if x == mn and v is not None and not r}
        for s in m.body:
            if isinstance(s, ast.ImportFrom) and s.level == 1 and s.module:
                for a in s.names:
                    src = [k for k in modules if k.split('.')[-1] == s.module]
                    as_ = a.asname or a.name
                    if src and (src[0], a.name) in found and (mn, None, as_) not in found:
                        here[as_] = found[src[0], a.name]
        if not here:
            continue

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in here and isinstance(n.ctx, ast.Load):
                    e = here[n.id]
                    e = ast.UnaryOp(ast.USub(), ast.Constant(e.operand.value)) if isinstance(e, ast.UnaryOp) else ast.Constant(e.value)
                    return ast.fix_missing_locations(ast.copy_location(e, n))
                return n
        T().visit(m)


def settle_module(m):
    Loops().visit(m)
    for x in ast.walk(m):
        if isinstance(x, ast.FunctionDef):
            settle(x)
