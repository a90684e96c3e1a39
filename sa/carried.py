"""Attributes an object carries from one run of a method to the next: those that may be read before they
are written in a run (upward exposed) and are changed by it. Structured dataflow over the syntax tree with
interprocedural summaries for calls on the object itself."""
import ast
from .points import MUTATORS

TOP = None      # unreachable: everything counts as written


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


class Summary:
    def __init__(self):
        self.exposed = {}       # attr -> (fi, node)
        self.must = TOP


class Carried:
    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.sums = {}
        self.stack = []

    # -------------------------------------------------------- summaries
    def summary(self, fi):
        if fi.qual in self.sums:
            return self.sums[fi.qual]
        self.sums[fi.qual] = Summary()
        for _ in range(12):
            old = self.sums[fi.qual]
            new = self.body(fi)
            for k, v in old.exposed.items():
                new.exposed.setdefault(k, v)
            same = set(new.exposed) == set(old.exposed) and new.must == old.must
            self.sums[fi.qual] = new
            if same:
                break
        return self.sums[fi.qual]

    def sequence(self, fis):
        """exposed reads of a sequence of calls on the object"""
        w, out = frozenset(), {}
        for fi in fis:
            s = self.summary(fi)
            for a, x in s.exposed.items():
                if a not in w:
                    out.setdefault(a, x)
            if s.must is not TOP:
                w = w | s.must
        return out

    def body(self, fi):
        self.stack.append((getattr(self, 'fi', None), getattr(self, 'sum', None),
                           getattr(self, 'loops', None), getattr(self, 'exits', None)))
        self.fi, self.sum, self.loops, self.exits = fi, Summary(), [], TOP
        w = self.block(fi.node.body, frozenset())
        self.sum.must = meet(self.exits, w)
        r = self.sum
        self.fi, self.sum, self.loops, self.exits = self.stack.pop()
        return r

    # -------------------------------------------------------- statements
    def block(self, body, w):
        for s in body:
            w = self.stmt(s, w)
        return w

    def stmt(self, s, w):
        if isinstance(s, ast.If):
            w = self.ev(s.test, w)
            return meet(self.block(s.body, w), self.block(s.orelse, w))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            w = self.ev(s.iter, w)
            self.loops.append([TOP])
            self.block(s.body, self.store(s.target, w))
            brk = self.loops.pop()[0]
            return meet(self.block(s.orelse, w), brk)
        if isinstance(s, ast.While):
            w0 = self.ev(s.test, w)
            self.loops.append([TOP])
            self.block(s.body, w0)
            brk = self.loops.pop()[0]
            forever = isinstance(s.test, ast.Constant) and s.test.value
            return meet(TOP if forever else self.block(s.orelse, w0), brk)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                w = self.ev(i.context_expr, w)
                if i.optional_vars is not None:
                    w = self.store(i.optional_vars, w)
            return self.block(s.body, w)
        if isinstance(s, ast.Try):
            b = self.block(s.body, w)
            b = self.block(s.orelse, b)
            out = b
            for h in s.handlers:
                out = meet(out, self.block(h.body, w))
            if s.finalbody:
                f = self.block(s.finalbody, w)
                if f is TOP:
                    return TOP
                out = TOP if out is TOP else out | f
            return out
        if isinstance(s, ast.Return):
            if s.value is not None:
                w = self.ev(s.value, w)
            self.exits = meet(self.exits, w)
            return TOP
        if isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    w = self.ev(e, w)
            return TOP
        if isinstance(s, ast.Break):
            self.loops[-1][0] = meet(self.loops[-1][0], w)
            return TOP
        if isinstance(s, ast.Continue):
            return TOP
        if isinstance(s, ast.Assign):
            w = self.ev(s.value, w)
            for t in s.targets:
                w = self.store(t, w)
            return w
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                w = self.store(s.target, self.ev(s.value, w))
            return w
        if isinstance(s, ast.AugAssign):
            w = self.ev(s.value, w)
            t = s.target
            if isinstance(t, ast.Attribute):
                w = self.ev(ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t), w)
            return self.store(t, w)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                w = self.store(t, w)
            return w
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    w = self.ev_attr(n, w)
            return w
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                w = self.ev(c, w)
        return w

    def store(self, t, w):
        if isinstance(t, ast.Attribute):
            if self.is_self(t.value):
                st = self.prog.find_method(self.cls, t.attr, 'setters')
                if st is not None:
                    return self.call(st, w)
                return w if w is TOP else w | {t.attr}
            return self.ev(t.value, w)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                w = self.store(e, w)
            return w
        if isinstance(t, ast.Starred):
            return self.store(t.value, w)
        if isinstance(t, ast.Subscript):
            w = self.ev(t.slice, w)
            return self.ev(t.value, w)
        return w

    # -------------------------------------------------------- expressions
    def is_self(self, e):
        return isinstance(e, ast.Name) and self.fi.args and e.id == self.fi.args[0] \
            and self.fi.cls is not None and self.fi.kind not in ('static', 'classmethod')

    def is_super(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'

    def call(self, m, w):
        s = self.summary(m)
        if w is not TOP:
            for a, x in s.exposed.items():
                if a not in w:
                    self.sum.exposed.setdefault(a, x)
        if s.must is TOP:
            return TOP if m.qual not in [x[0].qual for x in self.stack if x[0] is not None] and False else w
        return w if w is TOP else w | s.must

    def ev_attr(self, n, w):
        if self.is_self(n.value):
            g = self.prog.find_method(self.cls, n.attr, 'getters')
            if g is not None:
                return self.call(g, w)
            if self.prog.find_method(self.cls, n.attr, 'methods') is not None:
                return w
            if w is not TOP and n.attr not in w:
                self.sum.exposed.setdefault(n.attr, (self.fi, n))
            return w
        return self.ev(n.value, w)

    def ev(self, e, w):
        if e is None:
            return w
        if isinstance(e, ast.Attribute):
            return self.ev_attr(e, w)
        if isinstance(e, ast.Call):
            f = e.func
            m = None
            if isinstance(f, ast.Attribute) and (self.is_self(f.value) or self.is_super(f.value)):
                cl = self.cls
                if self.is_super(f.value):
                    up = self.prog.mro(self.fi.cls)[1:]
                    m = next((c.methods[f.attr] for c in up if f.attr in c.methods), None)
                else:
                    m = self.prog.find_method(cl, f.attr, 'methods')
                if m is None:
                    w = self.ev(f, w)
            else:
                w = self.ev(f, w)
            for a in e.args:
                w = self.ev(a.value if isinstance(a, ast.Starred) else a, w)
            for k in e.keywords:
                w = self.ev(k.value, w)
            if m is not None:
                w = self.call(m, w)
            return w
        if isinstance(e, ast.BoolOp):
            w = self.ev(e.values[0], w)
            for v in e.values[1:]:
                self.ev(v, w)
            return w
        if isinstance(e, ast.IfExp):
            w = self.ev(e.test, w)
            return meet(self.ev(e.body, w), self.ev(e.orelse, w))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            w0 = w
            for i, g in enumerate(e.generators):
                w0 = self.ev(g.iter, w0)
                if i == 0:
                    w = w0
                for c in g.ifs:
                    self.ev(c, w0)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ev(x, w0)
            return w
        if isinstance(e, ast.Lambda):
            self.ev(e.body, w)
            return w
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                w = self.ev(c, w)
        return w


# ------------------------------------------------------------ modifications
def reachable(prog, cls, entry):
    """methods of the class reachable from entry by name, on the object itself or another of its class"""
    seen, todo = {}, [entry]
    while todo:
        fi = todo.pop()
        if fi.qual in seen:
            continue
        seen[fi.qual] = fi
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute):
                for kind in ('methods', 'getters', 'setters'):
                    m = prog.find_method(cls, n.attr, kind)
                    if m is not None and m.name != '__init__':
                        todo.append(m)
    return seen


def modified(prog, cls, fis):
    """attr -> [(fi, node, value expression or None, how)] changed by the given methods on their object"""
    out = {}
    for fi in fis:
        if not fi.args or fi.cls is None:
            continue
        me = fi.args[0]

        def root(e):
            """attribute of the object an expression goes through, and the depth below it"""
            d = 0
            while True:
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                    return e.attr, d
                if isinstance(e, ast.Subscript):
                    e = e.value
                    d += 1
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                        e.func.attr in ('setdefault', 'get', 'values', 'items'):
                    e = e.func.value
                    d += 1
                else:
                    return None, 0

        def target(t, v, n):
            if isinstance(t, (ast.Tuple, ast.List)):
                vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
                for a, b in zip(t.elts, vs):
                    target(a, b, n)
                return
            if isinstance(t, ast.Starred):
                return target(t.value, None, n)
            a, d = root(t)
            if a is not None:
                out.setdefault(a, []).append((fi, n, v if d == 0 else None, 'assign' if d == 0 else 'item'))

        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t, n.value, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                target(n.target, n.value, n)
            elif isinstance(n, ast.AugAssign):
                a, d = root(n.target)
                if a is not None:
                    out.setdefault(a, []).append((fi, n, None, 'aug'))
            elif isinstance(n, (ast.For, ast.comprehension)):
                target(n.target, None, n)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t, None, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                a, d = root(n.func.value)
                if a is not None:
                    out.setdefault(a, []).append((fi, n, None, 'call'))
    return out
