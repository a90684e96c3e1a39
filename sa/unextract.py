"""Normal form of the source: helpers that are not functions of the pinned tree are put back where they are called.

Several analyses look at the statements of a particular method. Whether a piece of it was moved to a helper of its own is
not their business, so calls of unknown helpers are replaced by the bodies of the helpers wherever that is possible without
changing what happens; what is left is followed by the value-flow analyser at the call."""
import ast
import copy

MAXIMUM = 400       # statements added to one function


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class Helper:
    def __init__(self, node, cls, module):
        self.node, self.cls, self.module = node, cls, module
        self.name = node.name
        deco = [d.id if isinstance(d, ast.Name) else '?' for d in node.decorator_list]
        self.kind = 'function' if cls is None else 'static' if deco == ['staticmethod'] else 'method' if not deco else '?'
        if deco == ['property'] and cls is not None:
            self.kind = 'property'
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.body = strip_doc(node.body)
        bad = (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.NamedExpr)
        m = ast.Module(self.body, [])
        self.ok = self.kind != '?' and not a.vararg and not a.kwarg and not has(m, *bad) and isinstance(node, ast.FunctionDef) and \
            not any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals', 'vars') for x in ast.walk(m)) and \
            all(isinstance(d, (ast.Constant, ast.Name)) or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) for d in self.defaults.values())

    @property
    def expr(self):
        if len(self.body) == 1 and isinstance(self.body[0], ast.Return) and self.body[0].value is not None:
            return self.body[0].value
        return None

    def locals(self):
        out = set()
        for x in ast.walk(ast.Module(self.body, [])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.Lambda):
                out |= {y.arg for y in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(y.asname or y.name).split('.')[0] for y in x.names}
        return out


class Subst(ast.NodeTransformer):
    """parameters by expressions, locals by other names"""

    def __init__(self, args, names):
        self.args, self.names = args, names

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Name(self.names[n.id], n.ctx), n)
        if n.id in self.args and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.args[n.id])
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n

    def visit_Lambda(self, n):
        for y in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            y.arg = self.names.get(y.arg, y.arg)
        self.generic_visit(n)
        return n

    def visit_alias(self, n):
        top = (n.asname or n.name).split('.')[0]
        if top in self.names:
            n.asname = self.names[top]
        return n


def chain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def uses(body, p):
    return sum(isinstance(x, ast.Name) and x.id == p for b in body for x in ast.walk(b))


def ends(b):
    """control never leaves the block at its end"""
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    return isinstance(s, ast.If) and ends(s.body) and ends(s.orelse)


def tail_returns(body):
    """the same block with every return at the end of the block (of its if/else tree), or None"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + [s]
        if not has(s, ast.Return):
            out.append(s)
            if isinstance(s, ast.Raise):
                return out
            continue
        if not isinstance(s, ast.If):
            return None
        rest = body[i + 1:]
        a = tail_returns(s.body if ends(s.body) else s.body + copy.deepcopy(rest))
        b = tail_returns(s.orelse if ends(s.orelse) else s.orelse + rest)
        if a is None or b is None:
            return None
        if not (ends(s.body) or ends(s.orelse) or not rest) and sum(1 for r in rest for _ in ast.walk(r)) > 400:
            return None
        n = copy.copy(s)
        n.body, n.orelse = a or [ast.copy_location(ast.Pass(), s)], b
        return out + [n]
    return out


def replace_returns(body, make, at):
    """every return becomes make(value); falling off the end is make(None)"""
    out = []
    for i, s in enumerate(body):
        last = i == len(body) - 1
        if isinstance(s, ast.Return):
            out += make(s.value, s)
        elif isinstance(s, ast.If) and (last and (has(s, ast.Return) or make(None, s))):
            n = copy.copy(s)
            n.body = replace_returns(s.body, make, at) or [ast.copy_location(ast.Pass(), s)]
            n.orelse = replace_returns(s.orelse, make, at) if s.orelse else make(None, s)
            out.append(n)
        elif last and not isinstance(s, ast.Raise):
            out.append(s)
            out += make(None, s)
        else:
            out.append(s)
    if not body:
        out += make(None, at)
    return out


class Normal:
    def __init__(self, modules, known):
        """modules: name -> ast.Module, changed in place"""
        self.modules, self.known = modules, known
        self.n = 0
        self.methods, self.functions, self.imported = {}, {}, {}
        count = {}
        self.bases, self.defined, self.own = {}, {}, {}
        for mn, m in modules.items():
            for s in m.body:
                if isinstance(s, ast.FunctionDef) and s.name not in known:
                    self.functions[mn, s.name] = Helper(s, None, mn)
                elif isinstance(s, ast.ClassDef):
                    self.bases[s.name] = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?' for b in s.bases]
                    for x in s.body:
                        for t in (x.targets if isinstance(x, ast.Assign) else ()):
                            if isinstance(t, ast.Name):
                                self.defined.setdefault(s.name, set()).add(t.id)
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.defined.setdefault(s.name, set()).add(x.name)
                            count[x.name] = count.get(x.name, 0) + 1
                            if s.name + '.' + x.name not in known and not x.name.startswith('__'):
                                h = Helper(x, s, mn)
                                self.methods[x.name] = h
                                if h.ok:
                                    self.own[s.name, x.name] = h
        self.methods = {k: h for k, h in self.methods.items() if count[k] == 1 and h.ok}
        self.functions = {k: h for k, h in self.functions.items() if h.ok}
        if not self.own and not self.functions:
            return
        self.helper_nodes = {id(h.node): h for h in list(self.own.values()) + list(self.functions.values())}
        self.done, self.active = set(), []
        for mn, m in modules.items():
            for s in m.body:
                if isinstance(s, ast.FunctionDef):
                    self.function(s, mn, None)
                elif isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            self.function(x, mn, s)
        self.drop()

    # -------------------------------------------------------- functions
    def function(self, f, mn, cls):
        if id(f) in self.done:
            return
        self.done.add(id(f))
        self.active.append((f, mn, cls))
        self.budget = MAXIMUM
        f.body = self.block(f.body, True)
        self.active.pop()
        ast.fix_missing_locations(f)
        h = self.helper_nodes.get(id(f))
        if h is not None:
            h.body = strip_doc(f.body)

    def below(self, c):
        out, todo = set(), [c]
        while todo:
            d = todo.pop()
            for k, bs in self.bases.items():
                if d in bs and k not in out:
                    out.add(k)
                    todo.append(k)
        return out

    def attribute(self, f):
        """the helper an attribute of a variable is"""
        fn, mn, cls = self.active[-1]
        h = self.methods.get(f.attr)
        if h is not None:
            return h
        a = fn.args.posonlyargs + fn.args.args
        if cls is None or not a or f.value.id not in (a[0].arg, cls.name) or any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
            if cls is None or f.value.id != cls.name:
                return None
        todo, seen = [cls.name], set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                return None
            seen.add(c)
            if f.attr in self.defined.get(c, ()):
                h = self.own.get((c, f.attr))
                if h is None or any(f.attr in self.defined.get(b, ()) for b in self.below(cls.name) | self.below(c) if b != c):
                    return None
                return h
            bs = self.bases.get(c)
            if bs is None or len(bs) > 1:
                return None
            todo += bs
        return None

    def target(self, call):
        """the helper a call goes to, with the receiver"""
        f = call.func
        _, mn, cls = self.active[-1]
        h, recv = None, None
        if isinstance(f, ast.Name):
            h = self.functions.get((mn, f.id))
            fn = self.active[-1][0]
            if h is not None and any(isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                return None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            h = self.attribute(f)
            recv = f.value
            if h is not None and (h.kind == 'property' or h.module != mn):
                return None
            if h is not None and h.kind == 'static':
                recv = None
            elif h is not None and h.cls.name == f.value.id:
                return None
        if h is None or any(a[0] is h.node for a in self.active):
            return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if id(h.node) not in self.done:
            self.function(h.node, h.module, h.cls)
        # a helper that still calls itself
        if any(isinstance(x, ast.Attribute) and x.attr == h.name and h.cls is not None or isinstance(x, ast.Name) and x.id == h.name and h.cls is None
               for x in ast.walk(ast.Module(h.body, []))):
            return None
        return h, recv

    def bind(self, h, recv, call):
        """parameter -> argument expression, or None"""
        params = list(h.params)
        out = {}
        if recv is not None:
            if not params:
                return None
            out[params.pop(0)] = recv
        if len(call.args) > len(params):
            return None
        for p, a in zip(params, call.args):
            out[p] = a
        for k in call.keywords:
            if k.arg in out or k.arg not in params + h.kwonly:
                return None
            out[k.arg] = k.value
        for p in params + h.kwonly:
            if p not in out:
                if p not in h.defaults:
                    return None
                out[p] = h.defaults[p]
        return out

    def fresh(self, base):
        self.n += 1
        return '%s__%d' % (base, self.n)

    # -------------------------------------------------------- expressions
    def expression(self, call, body_expr, h, recv):
        """the value of a helper that is a single expression, or None"""
        args = self.bind(h, recv, call)
        if args is None:
            return None
        for p, a in args.items():
            n = uses([body_expr], p)
            a_ok = isinstance(a, (ast.Name, ast.Constant)) or chain(a) or n <= 1 and not has(a, ast.Call) or n == 1 and not self.delayed(body_expr, p)
            if not a_ok:
                return None
            if any(isinstance(x, ast.Name) and x.id == p and not isinstance(x.ctx, ast.Load) for x in ast.walk(body_expr)):
                return None
        names = {v: self.fresh(v) for v in h.locals()}
        return Subst(args, names).visit(copy.deepcopy(body_expr))

    def delayed(self, e, p):
        """the parameter is evaluated elsewhere than once, on the spot"""
        for x in ast.walk(e):
            if isinstance(x, ast.BoolOp) and uses(x.values[1:], p) or isinstance(x, ast.IfExp) and uses([x.body, x.orelse], p):
                return True
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and uses([x], p):
                first = x.generators[0].iter if not isinstance(x, ast.Lambda) else None
                if first is None or uses([first], p) != uses([x], p):
                    return True
        return False

    def rewrite(self, e):
        """an expression with the helpers that are expressions put back"""
        me = self

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                t = me.target(n)
                if t is not None and t[0].expr is not None:
                    r = me.expression(n, t[0].expr, *t)
                    if r is not None:
                        return me.located(r, n)
                return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                h = me.attribute(n) if isinstance(n.value, ast.Name) else None
                if h is not None and h.kind == 'property' and isinstance(n.ctx, ast.Load) and \
                        h.module == me.active[-1][1] and h.node is not me.active[-1][0] and not any(a[0] is h.node for a in me.active):
                    if id(h.node) not in me.done:
                        me.function(h.node, h.module, h.cls)
                    if h.expr is not None:
                        return me.located(Subst({h.params[0]: n.value}, {v: me.fresh(v) for v in h.locals()}).visit(copy.deepcopy(h.expr)), n)
                return n
        return T().visit(e)

    def located(self, new, at):
        return new

    # -------------------------------------------------------- statements
    def block(self, body, tail):
        """tail: nothing is executed in the function after this block"""
        out = []
        for i, s in enumerate(body):
            last = tail and i == len(body) - 1
            out += self.statement(s, last)
        return out

    def statement(self, s, last):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(s, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, fld, self.block(b, last and isinstance(s, ast.If)))
        for h in getattr(s, 'handlers', ()):
            h.body = self.block(h.body, False)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return [s]
        # expressions of the statement itself
        for fld, old in ast.iter_fields(s):
            if isinstance(old, ast.expr):
                setattr(s, fld, self.rewrite(old))
            elif isinstance(old, list) and old and isinstance(old[0], ast.expr):
                setattr(s, fld, [self.rewrite(x) for x in old])
            elif isinstance(old, list) and old and isinstance(old[0], ast.withitem):
                for w in old:
                    w.context_expr = self.rewrite(w.context_expr)
        r = self.splice(s, last)
        return [s] if r is None else r

    def splice(self, s, last):
        if isinstance(s, ast.If):
            t, neg = s.test, False
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            if isinstance(t, ast.Call) and self.target(t) is not None:
                v = self.fresh('test')
                pre = self.splice(ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], t), s), False)
                if pre is None:
                    return None
                test = ast.Name(v, ast.Load())
                s.test = ast.UnaryOp(ast.Not(), test) if neg else test
                ast.copy_location(s.test, t)
                return pre + [s]
            return None
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and self.target(s.iter) is not None:
            v = self.fresh('space')
            pre = self.splice(ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], s.iter), s), False)
            if pre is None:
                return None
            s.iter = ast.copy_location(ast.Name(v, ast.Load()), s.iter)
            return pre + [s]
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or not isinstance(s.value, ast.Call):
            return None
        t = self.target(s.value)
        if t is None:
            return None
        h, recv = t
        args = self.bind(h, recv, s.value)
        size = sum(isinstance(x, ast.stmt) for b in h.body for x in ast.walk(b))
        if args is None or size > self.budget:
            return None
        names = {v: self.fresh(v) for v in h.locals()}
        pre, sub = [], {}
        for p, a in args.items():
            if isinstance(a, (ast.Name, ast.Constant)) and p not in names and not (isinstance(s, ast.Assign) and isinstance(a, ast.Name) and a.id in {
                    x.id for tg in s.targets for x in ast.walk(tg) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} and False):
                sub[p] = a
            else:
                v = names.get(p) or self.fresh(p)
                names[p] = v
                pre.append(ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], copy.deepcopy(a)), s))
        body = [Subst(sub, names).visit(copy.deepcopy(b)) for b in h.body]
        if isinstance(s, ast.Return):
            if not ends(body):
                body.append(ast.copy_location(ast.Return(ast.Constant(None)), s))
            self.budget -= size
            return pre + body
        if isinstance(s, ast.Expr):
            tr = tail_returns(body)
            if tr is None:
                if not last:
                    return None
                # the end of the function: returning from the helper is returning

                class R(ast.NodeTransformer):
                    def visit_Return(self, n):
                        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
                            return ast.copy_location(ast.Return(None), n)
                        return [ast.copy_location(ast.Expr(n.value), n), ast.copy_location(ast.Return(None), n)]

                    def visit_Lambda(self, n):
                        return n
                tr = [y for b in body for y in (lambda v: v if isinstance(v, list) else [v])(R().visit(b))]
            else:
                tr = replace_returns(tr, lambda v, at: [] if v is None or isinstance(v, (ast.Constant, ast.Name)) else [ast.copy_location(ast.Expr(v), at)], s)
            self.budget -= size
            return pre + (tr or [ast.copy_location(ast.Pass(), s)])
        tr = tail_returns(body)
        if tr is None:
            return None

        def give(v, at):
            a = copy.deepcopy(s.targets)
            return [ast.copy_location(ast.Assign(a, v if v is not None else ast.Constant(None)), at)]
        self.budget -= size
        return pre + replace_returns(tr, give, s)

    # -------------------------------------------------------- clearing up
    def drop(self):
        """helpers nobody calls any more"""
        while True:
            used = {}
            for m in self.modules.values():
                for x in ast.walk(m):
                    if isinstance(x, ast.Attribute):
                        used[x.attr] = used.get(x.attr, 0) + 1
                    elif isinstance(x, ast.Name):
                        used[x.id] = used.get(x.id, 0) + 1
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                        used[x.value] = used.get(x.value, 0) + 1
            gone = False
            for m in self.modules.values():
                imported = {a.name for x in m.body if isinstance(x, ast.ImportFrom) for a in x.names}
                for s in list(m.body):
                    if id(s) in self.helper_nodes and not used.get(s.name) and s.name not in imported:
                        m.body.remove(s)
                        gone = True
                    elif isinstance(s, ast.ClassDef):
                        for x in list(s.body):
                            if id(x) in self.helper_nodes and not used.get(x.name) and len(s.body) > 1:
                                s.body.remove(x)
                                gone = True
            if not gone:
                return
