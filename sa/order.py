"""Where the iteration order of an unordered collection can become visible.

Extends the whole-program points-to analysis: sets are unordered, and whatever is filled by
iterating over an unordered collection is unordered too.  Every place where an order is consumed
is recorded with the collections that can arrive there."""
import ast
from .points import Points, EMPTY

CONVERT = {'list', 'tuple', 'iter', 'filter', 'reversed', 'deque', 'enumerate', 'zip', 'map'}
SHOW = {'str', 'repr', 'format', 'ascii'}


class Order(Points):
    def __init__(self, prog, k=2):
        super().__init__(prog, k)
        self.edges = {}          # unordered source -> collections filled from it
        self.uses = {}           # (qual, line, col, how) -> (fi, node, how, objects)
        self.consumed = 0
        self.sorts = {}          # lists sorted in place
        self.silent = 0

    # -------------------------------------------------------- recording
    def edge(self, src, dst):
        for s in src:
            if s[0] == 'O':
                for d in dst:
                    if d[0] == 'O':
                        self.edges.setdefault(s, set()).add(d)

    def use(self, node, how, objs, extra=None):
        if self.cfi is None or self.silent:
            return
        objs = {o for o in objs if o[0] == 'O'}
        key = (self.cfi.qual, node.lineno, node.col_offset, how)
        if key in self.uses:
            self.uses[key][3].update(objs)
        else:
            self.uses[key] = (self.cfi, node, how, set(objs), extra)

    def unordered(self):
        seeds = {o for o in self.heap if o[0] == 'O' and o[1] == 'set'}
        seen, work = set(seeds), list(seeds)
        while work:
            for d in self.edges.get(work.pop(), ()):
                if d not in seen:
                    seen.add(d)
                    work.append(d)
        return seeds, seen

    # -------------------------------------------------------- statements
    def x_For(self, s, env, fl):
        self.use(s, 'for', self.ev(s.iter, dict(env)))
        return super().x_For(s, env, fl)

    def x_Raise(self, s, env, fl):
        self.silent += 1
        try:
            return super().x_Raise(s, env, fl)
        finally:
            self.silent -= 1

    def x_AugAssign(self, s, env, fl):
        if isinstance(s.op, (ast.Add, ast.BitOr)):
            rhs = self.ev(s.value, env)
            cur = self.ev(ast.copy_location(_load(s.target), s.target), env)
            self.edge(rhs, {c for c in cur if c[0] == 'O' and c[1] != 'set'})
        return super().x_AugAssign(s, env, fl)

    def assign(self, t, v, env, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(node, (ast.For, ast.comprehension, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                self.use(t, 'unpacked', {o for o in v if o[0] == 'O' and o[1] != 'tuple'})
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    super().assign(t, v, env, node)
                    if isinstance(e.value, ast.Name):
                        self.edge(v, env.get(e.value.id, ()))
                    return
        return super().assign(t, v, env, node)

    # -------------------------------------------------------- expressions
    def e_Subscript(self, e, env):
        out = super().e_Subscript(e, env)
        base = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            self.edge(base, out)
        else:
            self.use(e, 'picked by position', {b for b in base if b[0] == 'O' and b[1] in ('list', 'tuple')})
        return out

    def _display(self, kind, e, env, elts):
        out = super()._display(kind, e, env, elts)
        if kind != 'set':
            for x in elts:
                if isinstance(x, ast.Starred):
                    self.edge(self.ev(x.value, env), out)
        return out

    def e_Dict(self, e, env):
        out = super().e_Dict(e, env)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.edge(self.ev(v, env), out)
        return out

    def _comp(self, e, env, parts, kind):
        out = super()._comp(e, env, parts, kind)
        if kind != 'set':
            cur = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, cur)
                self.edge(it, out)
                self.use(e, 'comprehension', it)
                self.bind_iter(g.target, it, cur, e)
        return out

    def e_BinOp(self, e, env):
        out = super().e_BinOp(e, env)
        if isinstance(e.op, (ast.Add, ast.Mult)):
            for s in (e.left, e.right):
                self.edge(self.ev(s, env), out)
        elif isinstance(e.op, ast.BitOr):
            d = {o for o in out if o[0] == 'O' and o[1] == 'dict'}
            for s in (e.left, e.right):
                self.edge(self.ev(s, env), d)
        elif isinstance(e.op, ast.Mod):
            self.use(e, 'printed', self.ev(e.right, env))
        return out

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.use(v, 'printed', self.ev(v.value, env))
        f = getattr(super(), 'e_JoinedStr', None)
        return f(e, env) if f else EMPTY

    def e_Call(self, e, env):
        for a in e.args:
            if isinstance(a, ast.Starred):
                self.use(a, 'handed over by position', {o for o in self.ev(a.value, env) if o[0] == 'O' and o[1] != 'tuple'})
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ('join', 'format', 'writelines', 'dumps', 'dump'):
            for a in e.args:
                self.use(e, 'joined' if f.attr in ('join', 'writelines') else 'printed', self.ev(a.value if isinstance(a, ast.Starred) else a, env))
        return super().e_Call(e, env)

    def method_call(self, f, e, pos, star, kws, kwrest, env):
        out = super().method_call(f, e, pos, star, kws, kwrest, env)
        if isinstance(f.value, ast.Name) and f.value.id == 'dict' and f.attr == 'fromkeys' and pos:
            self.edge(pos[0], out)
        return out

    def container_call(self, r, m, e, pos, kws, kwrest, argnodes):
        out = super().container_call(r, m, e, pos, kws, kwrest, argnodes)
        if r[0] == 'O':
            if m == 'pop' and r[1] == 'set':
                self.use(e, 'an arbitrary element', {r})
            elif m in ('pop', 'popitem', 'popleft', '__getitem__') and r[1] != 'set':
                if m != 'pop' or r[1] != 'dict':
                    self.use(e, 'picked by position', {r})
            elif m in ('items', 'values', 'keys', 'copy', '__copy__', '__iter__'):
                if not (r[1] == 'set' and m in ('copy', '__copy__')):
                    self.edge({r}, out)
            elif m in ('extend', 'update', '__iadd__', '__ior__', 'extendleft') and r[1] != 'set':
                for p in pos:
                    self.edge(p, {r})
            elif m == 'sort':
                self.sorts[r] = e
                self.key(e, {r})
        return out

    def key(self, e, objs):
        k = next((w.value for w in e.keywords if w.arg == 'key'), None)
        if k is not None and not total(k):
            self.use(e, 'ties left in place', objs, k)

    def builtin(self, name, e, pos, kws, kwrest, env):
        out = super().builtin(name, e, pos, kws, kwrest, env)
        if out is None:
            return out
        if name in CONVERT:
            for p in pos:
                self.edge(p, out)
        elif name == 'dict':
            for p in list(pos) + list(kwrest):
                self.edge(p, out)
        elif name in ('sorted', 'min', 'max') and pos:
            self.key(e, pos[0])
        elif name == 'next' and pos:
            self.use(e, 'an arbitrary element', pos[0])
        elif name in SHOW and pos:
            self.use(e, 'printed', pos[0])
        return out

    def external(self, dotted, e, pos, kws, kwrest):
        out = super().external(dotted, e, pos, kws, kwrest)
        for p in pos:
            self.edge(p, {o for o in out if o[0] == 'O' and o[1] != 'set'})
        return out


def total(k):
    """a sort key that tells different elements apart (as far as can be seen)"""
    if isinstance(k, ast.Constant) and k.value is None:
        return True
    if isinstance(k, ast.Lambda) and k.args.args:
        a = k.args.args[0].arg
        b = k.body
        if isinstance(b, ast.Name):
            return b.id == a
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('str', 'repr', 'tuple', 'list') and b.args and isinstance(b.args[0], ast.Name):
            return True
        if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Slice) and b.slice.lower is None and b.slice.upper is None:
            return True
        if isinstance(b, (ast.Tuple, ast.Call, ast.BinOp, ast.JoinedStr)) and not (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('len', 'id', 'hash')):
            return True      # not decided
        return False
    if isinstance(k, ast.Name):
        return k.id not in ('len', 'id', 'hash')
    if isinstance(k, ast.Call):      # operator.itemgetter(i)
        n = k.func.attr if isinstance(k.func, ast.Attribute) else getattr(k.func, 'id', '')
        return not (n in ('itemgetter', 'attrgetter') and len(k.args) == 1)
    return True


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
