#!/usr/bin/env python3
"""Stress test of the checks: apply behaviour-preserving rewrites to a scratch copy of the package and
run the checks against it. Every alarm there is a false alarm (used while developing; no check reads it).

  refactor.py list
  refactor.py make KIND DIR [MODULE[:FUNCTION]]     write a rewritten copy of /repo/pdfme to DIR/pdfme
  refactor.py run  KIND[,KIND..] [CHECKS]           make, then run all checks; prints alarms / no answers
  refactor.py bisect KIND CHECK                     which functions, rewritten alone, make CHECK alarm
"""
import ast
import builtins
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ.get('REFACTOR_SRC', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_stored(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, FUNCS + (ast.ClassDef,)):
            out.add(x.name)
    return out


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def own_scopes(n):
    """nested functions, lambdas and comprehensions"""
    return has(n, ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def comp_vars(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                out |= names_stored(g.target)
        if isinstance(x, ast.Lambda):
            out |= set(params(x))
    return out


class Rewriter(ast.NodeTransformer):
    """one rewrite, function by function; `self.fn` is the innermost function, `self.locals` its names"""

    def __init__(self, only=None):
        self.n = 0
        self.only = only
        self.stack = []
        self.clsstack = []
        self.new_methods = []
        self.new_functions = []
        self.count = 0

    def fresh(self, base='tmp'):
        self.n += 1
        return '%s_%d' % (base, self.n)

    @property
    def fn(self):
        return self.stack[-1] if self.stack else None

    def live(self):
        if not self.stack:
            return False
        if self.only is None:
            return True
        q = '.'.join([c.name for c in self.clsstack] + [self.stack[0].name])
        return q == self.only

    def locals_of(self, f):
        s = set(params(f))
        for b in f.body:
            s |= names_stored(b)
        g = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g |= set(x.names)
        return s - g

    def visit_ClassDef(self, n):
        self.clsstack.append(n)
        saved, self.new_methods = self.new_methods, []
        n.body = [self.visit(x) for x in n.body]
        flat = []
        for x in n.body:
            flat += x if isinstance(x, list) else [x]
        n.body = flat + self.new_methods
        self.new_methods = saved
        self.clsstack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        if self.live():
            self.enter_function(n)
        n.body = self.block(n.body)
        if self.live():
            n.body = self.leave_function(n) or n.body
        self.stack.pop()
        return n

    def enter_function(self, n):
        pass

    def leave_function(self, n):
        return n.body

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            r = r if isinstance(r, list) else ([r] if r is not None else [])
            for x in r:
                y = self.stmt(x) if self.live() else None
                if y is None:
                    out.append(x)
                else:
                    self.count += 1
                    out += y
        if self.live():
            out = self.body(out)
        return out

    def stmt(self, s):
        return None

    def body(self, b):
        return b

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list) and old and all(isinstance(x, ast.stmt) for x in old):
                setattr(node, field, self.block(old))
            elif isinstance(old, list):
                new = []
                for x in old:
                    new.append(self.visit(x) if isinstance(x, ast.AST) else x)
                setattr(node, field, new)
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        if isinstance(node, ast.expr) and self.live():
            r = self.expr(node)
            if r is not None:
                self.count += 1
                return r
        return node

    def expr(self, e):
        return None


def name(n, st=False):
    return ast.Name(n, ast.Store() if st else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


KINDS = {}


def kind(c):
    KINDS[c.__name__] = c
    return c


@kind
class plain(Rewriter):
    pass


@kind
class invert_if(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return [ast.If(t, s.orelse, s.body)]


@kind
class return_temp(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [assign(t, s.value), ast.Return(name(t))]


@kind
class ternary_to_if(Rewriter):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            v = s.value
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = v.body, v.orelse
            return [ast.If(v.test, [a], [copy.deepcopy(b)])]


@kind
class if_to_ternary(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) \
                    and len(a.targets) == len(b.targets) == 1:
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name:
            n.name = self.m.get(n.name, n.name)
        return n


@kind
class comp_to_loop(Rewriter):
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None:
            return None
        c = s.value
        wrap = None
        if isinstance(c, ast.Call) and len(c.args) == 1 and not c.keywords and isinstance(c.args[0], (ast.ListComp, ast.GeneratorExp)):
            wrap, c = c, c.args[0]
            if not isinstance(wrap.func, ast.Name) or wrap.func.id not in ('list', 'tuple', 'sum', 'max', 'min', 'sorted', 'set'):
                return None
        if not isinstance(c, (ast.ListComp,) if wrap is None else (ast.ListComp, ast.GeneratorExp)):
            if not isinstance(c, ast.DictComp) or wrap is not None:
                return None
        t = self.fresh('acc')
        m = {v: self.fresh('each') for g in c.generators for v in names_stored(g.target)}
        c = Rename(m).visit(copy.deepcopy(c))
        if isinstance(c, ast.DictComp):
            inner = [ast.Assign([ast.Subscript(name(t), c.key, ast.Store())], c.value)]
            init = ast.Dict([], [])
        else:
            inner = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))]
            init = ast.List([], ast.Load())
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                inner = [ast.If(i, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        s = copy.copy(s)
        s.value = name(t) if wrap is None else ast.Call(wrap.func, [name(t)], [])
        return [assign(t, init)] + inner + [s]


@kind
class append_loop_to_comp(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and not s.orelse:
            b, ifs = s.body[0], []
            while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                ifs.append(b.test)
                b = b.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                    and b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name):
                tgt = b.value.func.value.id
                if tgt in names_loaded(b.value.args[0]) or any(tgt in names_loaded(i) for i in ifs):
                    return None
                g = ast.comprehension(s.target, s.iter, ifs, 0)
                return [ast.Expr(ast.Call(ast.Attribute(name(tgt), 'extend', ast.Load()),
                                          [ast.ListComp(b.value.args[0], [g])], []))]


@kind
class nest_and(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(v, b, [])]
            return b


@kind
class merge_nested_if(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])]


@kind
class rename_locals(Rewriter):
    def leave_function(self, f):
        if len(self.stack) > 1 or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
            return f.body
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars') for x in ast.walk(f)):
            return f.body
        ps = set(params(f))
        inner = set()
        for x in ast.walk(f):
            if isinstance(x, FUNCS) and x is not f or isinstance(x, ast.Lambda):
                inner |= set(params(x))
            if isinstance(x, FUNCS) and x is not f:
                inner.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                inner |= {(a.asname or a.name).split('.')[0] for a in x.names}
        m = {}
        for b in f.body:
            for v in names_stored(b) | comp_vars(b):
                if v not in ps and v not in inner and not v.startswith('__'):
                    m[v] = 'var_' + v
        self.count += len(m)
        r = Rename(m)
        return [r.visit(b) for b in f.body]


@kind
class hoist_args(Rewriter):
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                return None
            if has(c, ast.Await, ast.Yield, ast.NamedExpr):
                return None
            # the callee is evaluated first: only plain names and attribute chains of names
            f = c.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return None
            pre, args, kws = [], [], []
            for a in c.args:
                if isinstance(a, (ast.Constant, ast.Name)):
                    args.append(a)
                else:
                    t = self.fresh('arg')
                    pre.append(assign(t, a))
                    args.append(name(t))
            for k in c.keywords:
                if isinstance(k.value, (ast.Constant, ast.Name)):
                    kws.append(k)
                else:
                    t = self.fresh('arg')
                    pre.append(assign(t, k.value))
                    kws.append(ast.keyword(k.arg, name(t)))
            if not pre:
                return None
            s = copy.copy(s)
            s.value = ast.Call(c.func, args, kws)
            return pre + [s]


class _Extract(Rewriter):
    """extract expressions or blocks into helpers: methods when there is a self, functions otherwise"""

    def helper(self, n, free, body, base):
        f = self.stack[0]
        nm = '_' + self.fresh(base)
        deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
        is_method = self.clsstack and params(f) and params(f)[0] == 'self' and len(self.stack) == 1 and not \
            {'staticmethod', 'classmethod'} & set(deco)
        if is_method:
            ps = [x for x in free if x != 'self']
            d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ['self'] + ps], None, [], [], None, []), body, [])
            self.new_methods.append(d)
            callee = ast.Attribute(name('self'), nm, ast.Load())
        else:
            ps = list(free)
            d = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, []), body, [])
            self.new_functions.append(d)
            callee = name(nm)
        if hasattr(d, 'type_params'):
            d.type_params = []
        return ast.Call(callee, [name(x) for x in ps], [])

    def bad(self, n):
        if len(self.stack) != 1:
            return True
        if has(n, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Global, ast.Nonlocal):
            return True
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals'):
                return True
            if isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') and not self.clsstack:
                return True
        f = self.stack[0]
        if self.clsstack and not (params(f) and params(f)[0] == 'self'):
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and x.attr.startswith('__'):
                    return True
        return False

    def free(self, n):
        loc = self.locals_of(self.stack[0])
        return sorted(v for v in names_loaded(n) if v in loc and v not in (comp_vars(n) - self.locals_outside(n)))

    def locals_outside(self, n):
        return set()


@kind
class extract_expr(_Extract):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AugAssign)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.IfExp, ast.ListComp, ast.DictComp,
                                                                              ast.JoinedStr, ast.BoolOp, ast.Compare, ast.Dict)):
            if self.bad(s.value):
                return None
            fr = self.free(s.value)
            s = copy.copy(s)
            s.value = self.helper(s, fr, [ast.Return(s.value)], 'value')
            return [s]


@kind
class extract_cond(_Extract):
    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, (ast.BoolOp, ast.Compare, ast.Call, ast.UnaryOp)):
            if self.bad(s.test):
                return None
            fr = self.free(s.test)
            s = copy.copy(s)
            s.test = self.helper(s, fr, [ast.Return(s.test)], 'test')
            return [s]


@kind
class extract_block(_Extract):
    """bodies of if/for with no local assignment that outlives them"""
    def stmt(self, s):
        if not isinstance(s, (ast.If, ast.For)) or self.bad(s):
            return None
        body = s.body
        m = ast.Module(body, [])
        if has(m, ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda, ast.Delete):
            return None
        if len(body) < 2:
            return None
        stored = names_stored(m)
        # assigned names must be assigned at top level before any use, and dead outside
        f = self.stack[0]
        total = [x.id for x in ast.walk(f) if isinstance(x, ast.Name)]
        inside = [x.id for x in ast.walk(m) if isinstance(x, ast.Name)]
        for v in stored:
            if v in comp_vars(m):
                continue
            if total.count(v) != inside.count(v):
                return None
        if isinstance(s, ast.For) and stored & names_loaded(s.target):
            return None
        loc = self.locals_of(f)
        fr = sorted(v for v in names_loaded(m) if v in loc and v not in stored and v not in comp_vars(m))
        s = copy.copy(s)
        s.body = [ast.Expr(self.helper(s, fr, body, 'step'))]
        return [s]


@kind
class extract_tail(_Extract):
    """the second half of a function body becomes a helper whose result is returned"""
    def leave_function(self, f):
        b = f.body
        start = 1 if b and is_doc(b[0]) else 0
        if len(b) - start < 4 or len(self.stack) > 1 or f.name.startswith('_value_'):
            return b
        k = start + (len(b) - start) // 2
        tail = ast.Module(b[k:], [])
        if self.bad(tail) or has(tail, ast.FunctionDef, ast.Lambda, ast.Delete) or has(f, ast.Yield, ast.YieldFrom):
            return b
        head = ast.Module(b[:k], [])
        definite = set(params(f))
        for x in b[:k]:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    definite |= names_stored(t)
        loc = self.locals_of(f)
        need = {v for v in names_loaded(tail) if v in loc and v not in comp_vars(tail)}
        before = names_stored(head) | set(params(f))
        need &= before
        if need - definite:
            return b
        self.count += 1
        call = self.helper(f, sorted(need), b[k:], 'rest')
        return b[:k] + [ast.Return(call)]


@kind
class extract_head(_Extract):
    """the leading assignments of a function move to a helper that returns them as a tuple"""
    def leave_function(self, f):
        b = f.body
        start = 1 if b and is_doc(b[0]) else 0
        k = start
        while k < len(b) - 1 and not has(b[k], ast.Return, ast.FunctionDef, ast.Lambda):
            k += 1
            if k - start >= 3:
                break
        part = ast.Module(b[start:k], [])
        if k - start < 2 or self.bad(part) or len(self.stack) > 1 or has(part, ast.Delete, ast.Break, ast.Continue):
            return b
        definite, maybe = set(), set()
        for x in b[start:k]:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, (ast.Name, ast.Tuple)):
                        definite |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            maybe |= names_stored(x)
        if maybe - definite - comp_vars(part):
            extra = maybe - definite - comp_vars(part)
            rest = ast.Module(b[k:], [])
            if extra & names_loaded(rest):
                return b
        ps = set(params(f))
        fr = sorted(v for v in names_loaded(part) if v in ps)
        outs = sorted(definite)
        self.count += 1
        if outs:
            body = b[start:k] + [ast.Return(ast.Tuple([name(x) for x in outs], ast.Load()) if len(outs) > 1 else name(outs[0]))]
            call = self.helper(f, fr, body, 'prepare')
            st = ast.Assign([ast.Tuple([name(x, True) for x in outs], ast.Store()) if len(outs) > 1 else name(outs[0], True)], call)
        else:
            call = self.helper(f, fr, b[start:k], 'prepare')
            st = ast.Expr(call)
        return b[:start] + [st] + b[k:]


@kind
class early_exit(Rewriter):
    def leave_function(self, f):
        b = f.body
        if b and isinstance(b[-1], ast.If) and not b[-1].orelse and not has(f, ast.Yield, ast.YieldFrom):
            self.count += 1
            t = b[-1].test
            return b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), t), [ast.Return(None)], [])] + b[-1].body
        return b

    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)) and s.body and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            i = s.body[-1]
            s = copy.copy(s)
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
            return [s]


def ends(b):
    return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or
                        isinstance(b[-1], ast.If) and ends(b[-1].body) and ends(b[-1].orelse))


@kind
class else_after_exit(Rewriter):
    def body(self, b):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body):
                self.count += 1
                return b[:i] + [ast.If(s.test, s.body, self.body(b[i + 1:]))]
        return b


@kind
class drop_else_after_exit(Rewriter):
    def body(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                self.count += 1
                out += [ast.If(s.test, s.body, [])] + s.orelse
            else:
                out.append(s)
        return out


@kind
class enumerate_to_counter(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id == 'enumerate' and isinstance(s.target, ast.Tuple) and len(s.iter.args) in (1, 2) and not s.orelse:
            c = self.fresh('count')
            s0 = s.iter.args[1] if len(s.iter.args) == 2 else ast.Constant(0)
            i, x = s.target.elts
            body = [ast.Assign([i], name(c)), ast.AugAssign(name(c, True), ast.Add(), ast.Constant(1))] + s.body
            return [assign(c, s0), ast.For(x, s.iter.args[0], body, [])]


@kind
class for_to_while(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id == 'range' and len(s.iter.args) in (1, 2) and isinstance(s.target, ast.Name) and not s.orelse:
            c, n = self.fresh('at'), self.fresh('stop')
            lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
            body = [assign(s.target.id, name(c)), ast.AugAssign(name(c, True), ast.Add(), ast.Constant(1))] + s.body
            return [assign(c, lo), assign(n, s.iter.args[-1]), ast.While(ast.Compare(name(c), [ast.Lt()], [name(n)]), body, [])]


@kind
class while_true(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant) and s.test.value):
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])]


@kind
class items_to_keys(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == 'items' and not s.iter.args and isinstance(s.target, ast.Tuple) and \
                isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter.func.value, ast.Name):
            k, v = s.target.elts
            d = s.iter.func.value
            return [ast.For(k, d, [ast.Assign([v], ast.Subscript(d, name(k.id), ast.Load()))] + s.body, s.orelse)]


@kind
class format_to_fstring(Rewriter):
    def expr(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and \
                isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str) and not e.keywords and \
                not any(isinstance(a, ast.Starred) for a in e.args):
            import string
            vals, auto, used = [], 0, []
            for lit, fld, spec, conv in string.Formatter().parse(e.func.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is not None:
                    if fld == '':
                        i, auto = auto, auto + 1
                    elif fld.isdigit():
                        i = int(fld)
                    else:
                        return None
                    used.append(i)
                    if '{' in (spec or ''):
                        return None
                    vals.append(ast.FormattedValue(e.args[i], ord(conv) if conv else -1,
                                                   ast.JoinedStr([ast.Constant(spec)]) if spec else None))
            if used != list(range(len(e.args))):
                return None
            return ast.JoinedStr(vals)


@kind
class fstring_to_format(Rewriter):
    def visit_JoinedStr(self, e):
        if not self.live():
            return e
        fmt, args = '', []
        for v in e.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None and not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return e
                fmt += '{' + ('!' + chr(v.conversion) if v.conversion != -1 else '') + \
                    (':' + ''.join(x.value for x in v.format_spec.values) if v.format_spec else '') + '}'
                args.append(v.value)
        self.count += 1
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


@kind
class flip_compare(Rewriter):
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def expr(self, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in self.FLIP and \
                not has(e, ast.Call):
            return ast.Compare(e.comparators[0], [self.FLIP[type(e.ops[0])]()], [e.left])


@kind
class negate_compare(Rewriter):
    NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def expr(self, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return ast.UnaryOp(ast.Not(), ast.Compare(e.left, [self.NEG[type(e.ops[0])]()], e.comparators))


@kind
class de_morgan(Rewriter):
    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            t = s.test
            op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            s = copy.copy(s)
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
            return [s]


@kind
class setdefault_to_if(Rewriter):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and len(v.args) == 2 \
                and isinstance(v.func.value, (ast.Name, ast.Attribute)) and isinstance(v.args[0], (ast.Constant, ast.Name)):
            d, k = v.func.value, v.args[0]
            out = [ast.If(ast.Compare(k, [ast.NotIn()], [d]), [ast.Assign([ast.Subscript(d, k, ast.Store())], v.args[1])], [])]
            if isinstance(s, ast.Assign):
                out.append(ast.Assign(s.targets, ast.Subscript(d, k, ast.Load())))
            return out


@kind
class get_to_ternary(Rewriter):
    def expr(self, v):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'get' and len(v.args) in (1, 2) \
                and isinstance(v.func.value, ast.Name) and isinstance(v.args[0], (ast.Constant, ast.Name)) and not v.keywords:
            d, k = v.func.value, v.args[0]
            return ast.IfExp(ast.Compare(k, [ast.In()], [d]), ast.Subscript(d, k, ast.Load()),
                             v.args[1] if len(v.args) == 2 else ast.Constant(None))


@kind
class or_to_if(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or) and \
                len(s.value.values) == 2 and isinstance(s.targets[0], ast.Name) and len(s.targets) == 1:
            t = s.targets[0].id
            if t in names_loaded(s.value.values[1]):
                return None
            return [assign(t, s.value.values[0]), ast.If(ast.UnaryOp(ast.Not(), name(t)), [assign(t, s.value.values[1])], [])]


@kind
class aug_expand(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and not \
                isinstance(s.value, (ast.List, ast.ListComp)):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]


@kind
class name_constants(Rewriter):
    """literals used in comparisons, subscripts and calls become module constants"""
    def __init__(self, only=None):
        super().__init__(only)
        self.consts = {}

    def expr(self, e):
        if isinstance(e, ast.Compare):
            e.comparators = [self.cst(x) for x in e.comparators]
        elif isinstance(e, ast.BinOp) and not isinstance(e.op, ast.Mod):
            e.left, e.right = self.cst(e.left), self.cst(e.right)
        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            e.slice = self.cst(e.slice)
        return None

    def cst(self, x):
        if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes, int, float)) and not isinstance(x.value, bool):
            k = (type(x.value).__name__, x.value)
            if k not in self.consts:
                self.consts[k] = '_CONSTANT_%d' % len(self.consts)
            self.count += 1
            return name(self.consts[k])
        return x


@kind
class dict_literal_to_stores(Rewriter):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Dict) and s.value.keys and \
                None not in s.value.keys:
            t = self.fresh('mapping')
            out = [assign(t, ast.Dict([], []))]
            for k, v in zip(s.value.keys, s.value.values):
                out.append(ast.Assign([ast.Subscript(name(t), k, ast.Store())], v))
            s = copy.copy(s)
            s.value = name(t)
            return out + [s]


@kind
class dict_calls(Rewriter):
    def expr(self, e):
        if isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and
                                                      k.value.isidentifier() for k in e.keys):
            import keyword
            if any(keyword.iskeyword(k.value) for k in e.keys):
                return None
            return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(e.keys, e.values)])
        if isinstance(e, ast.Dict) and not e.keys:
            return ast.Call(name('dict'), [], [])
        if isinstance(e, ast.List) and not e.elts and isinstance(e.ctx, ast.Load):
            return ast.Call(name('list'), [], [])


@kind
class split_tuple(Rewriter):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                not has(s.targets[0], ast.Starred):
            ts = s.targets[0].elts
            if isinstance(s.value, ast.Tuple) and len(ts) == len(s.value.elts):
                ns = [self.fresh('part') for _ in ts]
                return [assign(n, v) for n, v in zip(ns, s.value.elts)] + [ast.Assign([t], name(n)) for t, n in zip(ts, ns)]
            n = self.fresh('pair')
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('zip', 'map'):
                return None
            return None


@kind
class merge_assign(Rewriter):
    def body(self, b):
        out, i = [], 0
        while i < len(b):
            if i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) for z in (x, y)) \
                        and x.targets[0].id not in names_loaded(y.value) and not has(y.value, ast.Lambda) and \
                        x.targets[0].id != y.targets[0].id:
                    self.count += 1
                    out.append(ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())],
                                          ast.Tuple([x.value, y.value], ast.Load())))
                    i += 2
                    continue
            out.append(b[i])
            i += 1
        return out


def pure(e):
    return not has(e, ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Subscript, ast.ListComp)


@kind
class swap_adjacent(Rewriter):
    """independent neighbouring assignments change places"""
    def body(self, b):
        out, i = list(b), 0
        while i + 1 < len(out):
            x, y = out[i], out[i + 1]

            def tgt(z):
                return isinstance(z, ast.Assign) and len(z.targets) == 1 and (
                    isinstance(z.targets[0], ast.Name) or isinstance(z.targets[0], ast.Attribute) and
                    isinstance(z.targets[0].value, ast.Name) and self.stack[0].name == '__init__')
            if tgt(x) and tgt(y) and pure(x.value) and pure(y.value):
                tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
                if tx != ty and tx not in ast.unparse(y.value) and ty not in ast.unparse(x.value):
                    self.count += 1
                    out[i], out[i + 1] = y, x
                    i += 2
                    continue
            i += 1
        return out


@kind
class isinstance_split(Rewriter):
    def expr(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and \
                isinstance(e.args[1], ast.Tuple) and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(name('isinstance'), [e.args[0], t], []) for t in e.args[1].elts])


@kind
class in_to_or(Rewriter):
    def expr(self, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and isinstance(e.left, ast.Name) and \
                isinstance(e.comparators[0], (ast.Tuple, ast.List, ast.Set)) and e.comparators[0].elts:
            return ast.BoolOp(ast.Or(), [ast.Compare(e.left, [ast.Eq()], [x]) for x in e.comparators[0].elts])


@kind
class local_self(Rewriter):
    """attributes of self that the function never writes are read once into a local (only around one statement)"""
    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.If)):
            return None
        top = s.test if isinstance(s, ast.If) else s.value
        if top is None or has(top, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp):
            return None
        # first attribute evaluated unconditionally and first
        e = top
        while True:
            if isinstance(e, ast.BinOp):
                e = e.left
            elif isinstance(e, ast.Compare):
                e = e.left
            elif isinstance(e, ast.BoolOp):
                e = e.values[0]
            else:
                break
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and e is not top:
            t = self.fresh('current')
            txt = e

            class Sub(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    return name(t) if n is txt else self.generic_visit(n)
            new = Sub().visit(top)
            s = copy.copy(s)
            if isinstance(s, ast.If):
                s.test = new
            else:
                s.value = new
            return [assign(t, e), s]


@kind
class try_wrap(Rewriter):
    """for loops over an iterator taken first"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            t = self.fresh('sequence')
            s = copy.copy(s)
            it = s.iter
            s.iter = name(t)
            return [assign(t, it), s]


@kind
class expr_function(_Extract):
    """whole function bodies move to a module-level or method implementation, the old name delegates"""
    def leave_function(self, f):
        if len(self.stack) > 1 or f.decorator_list or f.name.startswith('__') or has(f, ast.Yield, ast.YieldFrom):
            return f.body
        if f.args.vararg or f.args.kwarg:
            return f.body
        b = f.body
        start = 1 if b and is_doc(b[0]) else 0
        m = ast.Module(b[start:], [])
        if self.bad(m) or not b[start:]:
            return b
        self.count += 1
        call = self.helper(f, params(f), b[start:], 'do_' + f.name.strip('_'))
        return b[:start] + [ast.Return(call)]


@kind
class list_concat(Rewriter):
    """l.append(x) -> l += [x] for locals; l.extend(x) -> l += x"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and \
                s.value.func.value.id in self.locals_of(self.stack[-1]):
            return [ast.AugAssign(name(s.value.func.value.id, True), ast.Add(), ast.List([s.value.args[0]], ast.Load()))]


@kind
class commute(Rewriter):
    """products of names and constants change order"""
    def expr(self, e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and not has(e, ast.Call) and \
                not any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in ast.walk(e)):
            return ast.BinOp(e.right, e.op, e.left)


@kind
class do_nothing(Rewriter):
    """a statement that does nothing, everywhere"""
    def stmt(self, s):
        if isinstance(s, (ast.If, ast.For, ast.Expr, ast.Assign)) and not is_doc(s):
            return [assign('_unused_marker', ast.Constant(None)), s]


def apply(kindname, dest, module=None, func=None):
    shutil.copytree(os.path.join(ROOT, 'pdfme'), os.path.join(dest, 'pdfme'))
    total = 0
    for fn in sorted(os.listdir(os.path.join(ROOT, 'pdfme'))):
        if not fn.endswith('.py') or fn in ('__init__.py', 'standard_fonts.py', 'color.py') and kindname == 'name_constants':
            continue
        if module and fn != module:
            continue
        p = os.path.join(dest, 'pdfme', fn)
        src = open(p).read()
        tree = ast.parse(src)
        r = KINDS[kindname](func)
        tree.body = [y for x in tree.body for y in (lambda v: v if isinstance(v, list) else [v])(r.visit(x))]
        tree.body += r.new_functions
        if getattr(r, 'consts', None):
            at = 1 if is_doc(tree.body[0]) else 0
            while at < len(tree.body) and isinstance(tree.body[at], ast.ImportFrom) and tree.body[at].module == '__future__':
                at += 1
            tree.body[at:at] = [assign(n, ast.Constant(k[1])) for k, n in r.consts.items()]
        if func and not r.count:
            continue
        total += r.count
        ast.fix_missing_locations(tree)
        out = ast.unparse(tree)
        compile(out, p, 'exec')
        open(p, 'w').write(out + '\n')
    return total


def checks():
    return sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, 'sa/checks')) if x[0] == 'c' and x[1:3].isdigit())


def one(check, d):
    r = subprocess.run(['timeout', '900', 'python3', os.path.join(HERE, 'check.py'), check], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_NOEV='1'))
    return check, r.returncode, r.stdout, r.stderr


def tests(d):
    shutil.copytree(os.path.join(ROOT, 'tests'), os.path.join(d, 'tests'))
    r = subprocess.run(['timeout', '600', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=180', '--randomly-seed=20',
                        '--randomly-dont-reorganize', '-o', 'python_files=test_*.py running_section_per_page.py group_element.py',
                        '--continue-on-collection-errors', 'tests'], cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=d))
    return (r.stdout.strip().split('\n') or [''])[-1]


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        print(' '.join(KINDS))
    elif cmd == 'make':
        mod, _, fn = (sys.argv[4] if len(sys.argv) > 4 else '').partition(':')
        print(apply(sys.argv[2], sys.argv[3], mod or None, fn or None))
    elif cmd == 'run':
        ids = sys.argv[3].split(',') if len(sys.argv) > 3 else checks()
        kinds = list(KINDS) if sys.argv[2] == 'all' else sys.argv[2].split(',')
        for k in kinds:
            d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
            try:
                n = apply(k, d)
                line = []
                with ThreadPoolExecutor(int(os.environ.get('REFACTOR_JOBS', '7'))) as ex:
                    t = ex.submit(tests, d)
                    for c, rc, out, err in ex.map(lambda c: one(c, d), ids):
                        if rc:
                            msg = [x for x in out.split('\n') if 'VIOLATION' in x or 'violat' in x.lower()][:1] or [(err or out)[-200:]]
                            line.append('   %s exit %d %s' % (c, rc, msg[0][:300]))
                            with open('/tmp/refac.%s.%s.out' % (k, c), 'w') as f:
                                f.write(out + err)
                    print('%s: %d rewrites; tests: %s; %d alarms' % (k, n, t.result(), len(line)), flush=True)
                for x in line:
                    print(x, flush=True)
            finally:
                shutil.rmtree(d)
    elif cmd == 'bisect':
        k, c = sys.argv[2:4]
        jobs = []
        for fn in sorted(os.listdir(os.path.join(ROOT, 'pdfme'))):
            if fn.endswith('.py'):
                for x in ast.parse(open(os.path.join(ROOT, 'pdfme', fn)).read()).body:
                    if isinstance(x, FUNCS):
                        jobs.append((fn, x.name))
                    elif isinstance(x, ast.ClassDef):
                        jobs += [(fn, x.name + '.' + y.name) for y in x.body if isinstance(y, FUNCS)]

        def job(j):
            d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
            try:
                if not apply(k, d, *j):
                    return None
                _, rc, out, err = one(c, d)
                return (j, rc, out) if rc else None
            finally:
                shutil.rmtree(d)
        with ThreadPoolExecutor(7) as ex:
            for r in ex.map(job, sorted(set(jobs))):
                if r:
                    print(r[0], 'exit', r[1])
                    print('   ' + '\n   '.join(x[:300] for x in r[2].split('\n') if 'VIOL' in x or x.startswith(' '))[:1200], flush=True)


if __name__ == '__main__':
    main()
