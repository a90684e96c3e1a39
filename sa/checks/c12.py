"""C12: file handles.  Typestate analysis of open files over every path (normal and exceptional) of the functions
that open files or close streams; helper functions are inlined."""
import ast
import builtins

TECHNIQUE = ('path-sensitive typestate analysis of file handles over the syntax tree, including exceptional exits; every '
             'file opened must be closed at every exit, and no path may close a stream the caller supplied')

PURE = {'isinstance', 'issubclass', 'len', 'type', 'callable', 'hasattr', 'id', 'bool', 'print'}
WRAP = {'BufferedReader', 'BufferedRandom', 'BufferedWriter', 'TextIOWrapper', 'closing'}
LIMIT = 6000
PATHY = ('str', 'Path', 'PurePath', 'PathLike', 'bytes')
STREAMY = ('BufferedIOBase', 'IOBase', 'RawIOBase', 'BytesIO', 'BufferedReader')


class TooMany(Exception):
    pass


class S:
    __slots__ = ('env', 'res', 'facts', 'exc')

    def __init__(self, env=None, res=None, facts=None, exc=None):
        self.env, self.res, self.facts, self.exc = env or {}, res or {}, facts or {}, exc

    def copy(self):
        return S(dict(self.env), dict(self.res), dict(self.facts), self.exc)

    def key(self):
        return (tuple(sorted(self.env.items(), key=repr)), tuple(sorted(self.res.items())),
                tuple(sorted(self.facts.items(), key=repr)), self.exc)


OTHER = ('other',)
NONE = ('const', None)


class Walker:
    def __init__(self, prog, rep, root):
        self.prog, self.rep, self.root = prog, rep, root
        self.n = 0
        self.stack = []
        self.sites = {}
        self.closes = []          # (fi, node, value, safe)
        self.funcs = set()
        self.uid = 0

    # ---------------------------------------------------------------- expressions
    # ev: list of (state, value); exceptional states are appended to self.raises
    def ev(self, e, s, fi, R):
        if e is None:
            return [(s, NONE)]
        self.n += 1
        if self.n > LIMIT * 20:
            raise TooMany('too many paths in ' + self.root.qual)
        t = type(e).__name__
        m = getattr(self, 'e_' + t, None)
        if m:
            return m(e, s, fi, R)
        out = [s]
        risky = isinstance(e, (ast.BinOp, ast.Subscript, ast.Await))
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                out = [s2 for s1 in out for s2, _ in self.ev(ch, s1, fi, R)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and self.is_open(x, fi):
                    self.rep.unk('close', fi.loc(x), 'file opened inside a comprehension')
            risky = True
        if risky:
            for s1 in out:
                self.throw(s1, None, R)
        return [(s1, OTHER) for s1 in out]

    def throw(self, s, exc, R):
        s = s.copy()
        s.exc = exc
        k = s.key()
        if k not in R:
            R[k] = s
            if len(R) > LIMIT:
                raise TooMany('too many exceptional paths')

    def e_Constant(self, e, s, fi, R):
        return [(s, ('const', e.value))]

    def e_Lambda(self, e, s, fi, R):
        return [(s, ('lambda', e))] if False else [(s, OTHER)]

    def e_Name(self, e, s, fi, R):
        return [(s, s.env.get(e.id, ('glob', e.id)))]

    def e_Attribute(self, e, s, fi, R):
        k = self.path(e)
        if k and k in s.env:
            return [(s, s.env[k])]
        out = []
        for s1, v in self.ev(e.value, s, fi, R):
            if v[0] in ('res', 'param', 'wrap') and e.attr in ('close', '__exit__', '__enter__', 'detach'):
                out.append((s1, ('bound', v, e.attr)))
            else:
                out.append((s1, ('attr', v, e.attr) if v[0] in ('glob', 'attr', 'self', 'estack') else OTHER))
        return out

    def path(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            p = self.path(e.value)
            return p and p + '.' + e.attr
        return None

    def e_Tuple(self, e, s, fi, R):
        outs = [(s, ())]
        for x in e.elts:
            outs = [(s2, vs + (v,)) for s1, vs in outs for s2, v in self.ev(x, s1, fi, R)]
        return [(s1, ('tuple', vs)) for s1, vs in outs]

    e_List = e_Tuple

    def e_Subscript(self, e, s, fi, R):
        out = []
        for s1, v in self.ev(e.value, s, fi, R):
            for s2, i in self.ev(e.slice, s1, fi, R):
                if v[0] == 'tuple' and i[0] == 'const' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
                    out.append((s2, v[1][i[1]]))
                else:
                    self.throw(s2, None, R)
                    out.append((s2, OTHER))
        return out

    def e_IfExp(self, e, s, fi, R):
        out = []
        for s1, b in self.cond(e.test, s, fi, R):
            out += self.ev(e.body if b else e.orelse, s1, fi, R)
        return out

    def e_NamedExpr(self, e, s, fi, R):
        out = []
        for s1, v in self.ev(e.value, s, fi, R):
            s1 = s1.copy()
            self.assign(e.target, v, s1)
            out.append((s1, v))
        return out

    def e_BoolOp(self, e, s, fi, R):
        # value semantics are kept for the common `x or default`
        out = []
        work = [(s, 0)]
        while work:
            s1, i = work.pop()
            if i == len(e.values) - 1:
                out += self.ev(e.values[i], s1, fi, R)
                continue
            for s2, v in self.ev(e.values[i], s1, fi, R):
                for s3, b in self.truth(e.values[i], v, s2):
                    if b == isinstance(e.op, ast.Or):
                        out.append((s3, v))
                    else:
                        work.append((s3, i + 1))
        return out

    def e_UnaryOp(self, e, s, fi, R):
        if isinstance(e.op, ast.Not):
            return [(s1, ('const', not b)) for s1, b in self.cond(e.operand, s, fi, R)]
        return [(s1, OTHER) for s1, _ in self.ev(e.operand, s, fi, R)]

    def e_Compare(self, e, s, fi, R):
        return [(s1, ('const', b)) for s1, b in self.cond(e, s, fi, R)]

    def e_Await(self, e, s, fi, R):
        return self.ev(e.value, s, fi, R)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, s, fi, R):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s1, not b) for s1, b in self.cond(e.operand, s, fi, R)]
        if isinstance(e, ast.BoolOp):
            res, cur = [], [s]
            is_or = isinstance(e.op, ast.Or)
            for v in e.values:
                nxt = []
                for s1 in cur:
                    for s2, b in self.cond(v, s1, fi, R):
                        (res if b == is_or else nxt).append((s2, b) if b == is_or else s2)
                cur = nxt
            return res + [(s1, not is_or) for s1 in cur]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for s1, a in self.ev(e.left, s, fi, R):
                for s2, b in self.ev(e.comparators[0], s1, fi, R):
                    op = e.ops[0]
                    neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
                    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                        r = self.same(a, b)
                        if r is not None:
                            out.append((s2, r != neg))
                            continue
                        if NONE in (a, b) or a[0] == b[0] == 'param' or 'param' in (a[0], b[0]):
                            for s3, q in self.fact(('same',) + tuple(sorted((a, b), key=repr)), s2):
                                out.append((s3, q != neg))
                            continue
                    out += [(s2.copy(), True), (s2.copy(), False)]
            return out
        out = []
        for s1, v in self.ev(e, s, fi, R):
            out += self.truth(e, v, s1)
        return out

    def same(self, a, b):
        if a == b and a != OTHER:
            return True
        if a[0] == 'const' and b[0] == 'const':
            return a[1] is b[1] or a[1] == b[1]
        if {a[0], b[0]} <= {'res', 'const', 'wrap', 'bound', 'tuple', 'lst', 'own'}:
            return False
        if {a[0], b[0]} == {'res', 'param'}:
            return False
        return None

    def truth(self, e, v, s):
        if v[0] == 'const':
            return [(s, bool(v[1]))]
        if v[0] in ('res', 'wrap', 'bound', 'own'):
            return [(s, True)]
        if v[0] == 'tuple':
            return [(s, bool(v[1]))]
        if v[0] == 'inst':
            return self.fact(v, s)
        if v[0] == 'param':
            return self.fact(('truth', v), s)
        if v[0] == 'isclosed' and v[1][0] == 'res':
            return [(s, s.res.get(v[1][1]) == 'closed')]
        return [(s.copy(), True), (s.copy(), False)]

    def fact(self, f, s):
        if f in s.facts:
            return [(s, s.facts[f])]
        k = self.implied(f, s)
        if k is not None:
            return [(s, k)]
        out = []
        for b in (True, False):
            s1 = s.copy()
            s1.facts[f] = b
            out.append((s1, b))
        return out

    def implied(self, f, s):
        if f[0] == 'same' and NONE in f[1:]:
            v = f[1] if f[2] == NONE else f[2]
            if any(g[0] == 'inst' and g[1] == v and b for g, b in s.facts.items()):
                return False
            if s.facts.get(('truth', v)) is True:
                return False
        if f[0] == 'truth' and s.facts.get(('same',) + tuple(sorted((f[1], NONE), key=repr))) is True:
            return False
        if f[0] == 'inst':
            v, names = f[1], f[2]
            if s.facts.get(('same',) + tuple(sorted((v, NONE), key=repr))) is True:
                return False
            trues = [g[2] for g, b in s.facts.items() if g[0] == 'inst' and g[1] == v and b]
            falses = set().union(*[set(g[2]) for g, b in s.facts.items() if g[0] == 'inst' and g[1] == v and not b] or [()])
            for t in trues:
                left = [n for n in t if n not in falses]
                if all(any(self.sub(n, m) for m in names) for n in left):
                    return True
                if all(all(self.disjoint(n, m) for m in names) for n in left):
                    return False
            if all(any(self.sub(n, m) for m in falses) for n in names):
                return False
        return None

    def sub(self, a, b):
        if a == b:
            return True
        return b == 'IOBase' and a in STREAMY or b == 'BufferedIOBase' and a in ('BytesIO', 'BufferedReader') or \
            b == 'PurePath' and a == 'Path' or b == 'PathLike' and a in ('Path', 'PurePath')

    def disjoint(self, a, b):
        def g(x):
            return 'str' if x == 'str' else 'bytes' if x == 'bytes' else 'path' if x in PATHY else \
                'io' if x in STREAMY else None
        return g(a) is not None and g(b) is not None and g(a) != g(b)

    def supplied_stream(self, v, s):
        """may the caller's argument be a stream here?"""
        return self.implied(('inst', v, ('BufferedIOBase',)), s) is not False and \
            s.facts.get(('inst', v, ('BufferedIOBase',))) is not False

    # ---------------------------------------------------------------- calls
    def is_open(self, e, fi):
        f = e.func
        if isinstance(f, ast.Name):
            if f.id == 'open' and 'open' not in fi.module.functions:
                return 'open' not in fi.module.imports or fi.module.imports['open'][0] in ('io', 'codecs', 'gzip')
            return False
        if isinstance(f, ast.Attribute) and f.attr in ('open', 'fdopen'):
            if isinstance(f.value, ast.Name):
                n = f.value.id
                if n in ('io', 'os', 'codecs', 'gzip', 'lzma', 'bz2'):
                    return True
                if self.imported(n, fi):
                    return n == 'Path'
            return True
        return False

    def imported(self, n, fi):
        if n in fi.module.imports:
            return True
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                if any((a.asname or a.name).split('.')[0] == n for a in x.names):
                    return True
        return False

    def resolve(self, e, fi, fv):
        """package function called"""
        f = e.func
        p = self.prog
        if isinstance(f, ast.Name) and fv == ('glob', f.id):
            if f.id in fi.module.functions:
                return fi.module.functions[f.id], None
            r = p.resolve_name(fi.module, f.id)
            if hasattr(r, 'methods'):
                init = p.find_method(r, '__init__')
                return (init, 'new') if init else (None, None)
            if hasattr(r, 'node') and hasattr(r, 'args'):
                return r, None
            return None, None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and fi.cls and fi.args and f.value.id in (fi.args[0], fi.cls.name):
                m = p.find_method(fi.cls, f.attr)
                return (m, 'self') if m else (None, None)
            if isinstance(f.value, ast.Name):
                r = p.resolve_name(fi.module, f.value.id)
                if hasattr(r, 'methods'):
                    m = p.find_method(r, f.attr)
                    return (m, 'self') if m else (None, None)
        return None, None

    def e_Call(self, e, s, fi, R):
        out = []
        for s0, fv in self.ev(e.func, s, fi, R):
            outs = [(s0, (), ())]
            for a in e.args:
                x = a.value if isinstance(a, ast.Starred) else a
                outs = [(s2, vs + (v,), ks) for s1, vs, ks in outs for s2, v in self.ev(x, s1, fi, R)]
            for k in e.keywords:
                outs = [(s2, vs, ks + ((k.arg, v),)) for s1, vs, ks in outs for s2, v in self.ev(k.value, s1, fi, R)]
            for s1, vs, ks in outs:
                out += self.call(e, fv, vs, ks, s1, fi, R)
        return out

    def call(self, e, fv, vs, ks, s, fi, R):
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        if fv[0] == 'bound':
            return self.bound(e, fv, s, fi, R)
        if name == 'isinstance' and len(e.args) == 2 and fv == ('glob', 'isinstance'):
            t = e.args[1]
            names = tuple(sorted(x.id if isinstance(x, ast.Name) else x.attr for x in
                                 (t.elts if isinstance(t, ast.Tuple) else [t]) if isinstance(x, (ast.Name, ast.Attribute))))
            v = vs[0]
            if v[0] == 'param' and names:
                return [(s2, ('const', b)) for s2, b in self.fact(('inst', v, names), s)]
            if v == NONE:
                return [(s, ('const', False))]
            if v[0] == 'res' and any(n in STREAMY for n in names):
                return [(s, ('const', True))]
            return [(s, OTHER)]
        if self.is_open(e, fi):
            # a caller-supplied descriptor or stream is not opened by open(); a path is
            self.throw(s, None, R)
            s = s.copy()
            rid = (e.lineno, e.col_offset, len(self.stack))
            if s.res.get(rid) == 'open':
                rid = rid + ('again',)
            s.res[rid] = 'open'
            self.sites[rid] = (fi, e)
            return [(s, ('res', rid))]
        if name in WRAP and vs and vs[0][0] in ('res', 'param', 'wrap'):
            if name != 'closing':
                self.throw(s, None, R)
            return [(s, ('wrap', vs[0]))]
        if name == 'nullcontext':
            return [(s, ('null', vs[0] if vs else NONE))]
        if name == 'ExitStack':
            self.uid += 1
            return [(s, ('estack', 'stack%d.%d' % (e.lineno, len(self.stack))))]
        if fv[0] == 'attr' and fv[1][0] == 'estack':
            return self.estack(fv[1][1], fv[2], vs, s)
        if name == 'BytesIO':
            return [(s, ('own', e.lineno))]
        if name in PURE and isinstance(e.func, ast.Name):
            return [(s, OTHER)]
        target, how = self.resolve(e, fi, fv)
        if target is not None and target.qual not in [f.qual for f in self.stack] and len(self.stack) < 6 \
                and self.relevant(target, vs, [v for _, v in ks]):
            return self.inline(target, how, e, vs, ks, s, fi, R)
        self.throw(s, None, R)
        return [(s, OTHER)]

    def relevant(self, f, vs, kvs):
        if any(self.carries(v) for v in list(vs) + list(kvs)):
            return True
        return f.qual in self.prog._c12_open

    def carries(self, v):
        return v[0] in ('res', 'wrap', 'bound', 'estack') or v[0] == 'param' or v[0] == 'tuple' and any(self.carries(x) for x in v[1])

    def bound(self, e, fv, s, fi, R):
        _, v, attr = fv
        if attr == '__enter__':
            return [(s, v)]
        if attr == 'detach':
            return [(s, v[1] if v[0] == 'wrap' else OTHER)]
        s = s.copy()
        self.close(v, s, fi, e)
        return [(s, NONE)]

    def close(self, v, s, fi, node):
        while v[0] == 'wrap':
            v = v[1]
        if v[0] == 'res':
            s.res[v[1]] = 'closed'
        elif v[0] == 'param':
            self.closes.append((fi, node, v, not self.supplied_stream(v, s)))

    def estack(self, key, meth, vs, s):
        s = s.copy()
        cur = s.env.get('$' + key, ())
        if meth == 'enter_context' and vs:
            s.env['$' + key] = cur + (vs[0],)
            v = vs[0]
            if v[0] == 'null':
                v = v[1]
            return [(s, v[1] if v[0] == 'wrap' else v)]
        if meth in ('callback', 'push') and vs:
            v = vs[0]
            s.env['$' + key] = cur + ((v[1],) if v[0] == 'bound' and v[2] == 'close' else (v,) if meth == 'push' else ())
            return [(s, OTHER)]
        if meth == 'close':
            for v in cur:
                if v[0] != 'null':
                    self.close(v, s, self.root, None)
            s.env['$' + key] = ()
        return [(s, OTHER)]

    def inline(self, f, how, e, vs, ks, s, fi, R):
        env = {k: v for k, v in s.env.items() if k.startswith('$')}
        params = list(f.args)
        if how in ('self', 'new') and f.kind != 'static':
            if params:
                env[params[0]] = ('self', f.cls.name)
                if how == 'self' and fi.args and fi.cls:
                    pre = fi.args[0] + '.'
                    for k, v in s.env.items():
                        if k.startswith(pre):
                            env[params[0] + '.' + k[len(pre):]] = v
                params = params[1:] if not (how == 'self' and isinstance(e.func.value, ast.Name) and f.cls.name == e.func.value.id
                                            and len(vs) == len(params) and f.kind == 'method') else params
        for n in f.args + f.kwonly:
            if n not in env:
                d = f.defaults.get(n)
                env[n] = ('const', d.value) if isinstance(d, ast.Constant) else OTHER
        for n, v in zip(params, vs):
            env[n] = v
        for n, v in ks:
            if n:
                env[n] = v
        inner = S(env, dict(s.res), dict(s.facts))
        self.stack.append(f)
        self.funcs.add(f.qual)
        try:
            outs = self.block(f.node.body, inner, f)
        finally:
            self.stack.pop()
        res = []
        for st, kind, val in outs:
            back = S(dict(s.env), st.res, st.facts, st.exc)
            for k, v in st.env.items():
                if k.startswith('$'):
                    back.env[k] = v
                elif how == 'self' and f.args and k.startswith(f.args[0] + '.') and fi.args:
                    back.env[fi.args[0] + k[len(f.args[0]):]] = v
            if kind == 'raise':
                self.throw(back, st.exc, R)
            else:
                res.append((back, (val if kind == 'return' else NONE) if how != 'new' else OTHER))
        return self.dedup(res)

    def dedup(self, pairs):
        seen, out = set(), []
        for s, v in pairs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    # ---------------------------------------------------------------- statements
    def assign(self, t, v, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, v[1][i] if v[0] == 'tuple' and i < len(v[1]) else OTHER, s)
            return
        k = self.path(t)
        if k:
            s.env[k] = v
            for q in [q for q in s.env if q.startswith(k + '.')]:
                del s.env[q]

    def block(self, stmts, s, fi):
        """[(state, kind, value)], kind in normal/return/raise/break/continue"""
        cur, done = [s], []
        for st in stmts:
            nxt = {}
            for s1 in cur:
                for s2, kind, val in self.stmt(st, s1, fi):
                    if kind == 'normal':
                        nxt.setdefault(s2.key(), s2)
                    else:
                        done.append((s2, kind, val))
            cur = list(nxt.values())
            if len(cur) + len(done) > LIMIT:
                raise TooMany('too many paths in ' + fi.qual)
            if not cur:
                break
        seen, out = set(), []
        for s2, kind, val in done + [(c, 'normal', None) for c in cur]:
            k = (s2.key(), kind, val)
            if k not in seen:
                seen.add(k)
                out.append((s2, kind, val))
        return out

    def stmt(self, st, s, fi):
        R = {}
        m = getattr(self, 's_' + type(st).__name__, None)
        if m:
            out = m(st, s, fi, R)
        else:
            cur = [s]
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    cur = [b for a in cur for b, _ in self.ev(ch, a, fi, R)]
            out = [(c, 'normal', None) for c in cur]
        return out + [(r, 'raise', None) for r in R.values()]

    def s_Expr(self, st, s, fi, R):
        return [(a, 'normal', None) for a, _ in self.ev(st.value, s, fi, R)]

    def s_Assign(self, st, s, fi, R):
        out = []
        for a, v in self.ev(st.value, s, fi, R):
            a = a.copy()
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    for x in (t.value, t.slice):
                        a = self.ev(x, a, fi, R)[0][0]
                    self.throw(a, None, R)
                self.assign(t, v, a)
            if isinstance(st.targets[0], (ast.Tuple, ast.List)) and v[0] != 'tuple':
                self.throw(a, None, R)
            out.append((a, 'normal', None))
        return out

    def s_AnnAssign(self, st, s, fi, R):
        out = []
        for a, v in self.ev(st.value, s, fi, R) if st.value else [(s, None)]:
            a = a.copy()
            if st.value:
                self.assign(st.target, v, a)
            out.append((a, 'normal', None))
        return out

    def s_AugAssign(self, st, s, fi, R):
        out = []
        for a, v in self.ev(st.value, s, fi, R):
            self.throw(a, None, R)
            a = a.copy()
            self.assign(st.target, OTHER, a)
            out.append((a, 'normal', None))
        return out

    def s_FunctionDef(self, st, s, fi, R):
        return [(s, 'normal', None)]

    s_ClassDef = s_FunctionDef

    def s_Return(self, st, s, fi, R):
        return [(a, 'return', v) for a, v in self.ev(st.value, s, fi, R)]

    def s_Break(self, st, s, fi, R):
        return [(s, 'break', None)]

    def s_Continue(self, st, s, fi, R):
        return [(s, 'continue', None)]

    def s_Pass(self, st, s, fi, R):
        return [(s, 'normal', None)]

    s_Global = s_Nonlocal = s_Import = s_Pass

    def s_ImportFrom(self, st, s, fi, R):
        self.throw(s, 'ImportError', R)
        return [(s, 'normal', None)]

    s_Import = s_ImportFrom

    def s_Raise(self, st, s, fi, R):
        if st.exc is None:
            self.throw(s, s.env.get('$exc', (None, None))[1], R)
            return []
        e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
        for a, _ in self.ev(st.exc, s, fi, {}):
            self.throw(a, e.id if isinstance(e, ast.Name) else None, R)
        return []

    def s_Assert(self, st, s, fi, R):
        out = []
        for a, b in self.cond(st.test, s, fi, R):
            if b:
                out.append((a, 'normal', None))
            else:
                self.throw(a, 'AssertionError', R)
        return out

    def s_If(self, st, s, fi, R):
        out = []
        for a, b in self.cond(st.test, s, fi, R):
            out += self.block(st.body if b else st.orelse, a, fi)
        return out

    def loop(self, st, heads, body, fi, orelse):
        seen, work, out = set(), list(heads), []
        exits = []
        while work:
            a = work.pop()
            if a.key() in seen:
                continue
            seen.add(a.key())
            if len(seen) > 300:
                raise TooMany('loop in ' + fi.qual)
            for s2, kind, val in body(a):
                if kind in ('normal', 'continue'):
                    work.append(s2)
                elif kind == 'exit':
                    exits.append(s2)
                elif kind == 'break':
                    out.append((s2, 'normal', None))
                else:
                    out.append((s2, kind, val))
        for a in exits:
            out += self.block(orelse, a, fi) if orelse else [(a, 'normal', None)]
        return out

    def s_While(self, st, s, fi, R):
        def body(a):
            out = []
            for b, v in self.cond(st.test, a, fi, R):
                out += self.block(st.body, b, fi) if v else [(b, 'exit', None)]
            return out
        return self.loop(st, [s], body, fi, st.orelse)

    def s_For(self, st, s, fi, R):
        heads = []
        for a, v in self.ev(st.iter, s, fi, R):
            heads.append((a, v))
            self.throw(a, None, R)

        def body_for(v):
            def body(a):
                b = a.copy()
                vals = v[1] if v[0] == 'tuple' and v[1] else (OTHER,)
                out = [(a, 'exit', None)]
                for x in vals:
                    c = b.copy()
                    self.assign(st.target, x, c)
                    out += self.block(st.body, c, fi)
                return out
            return body
        out = []
        for a, v in heads:
            out += self.loop(st, [a], body_for(v), fi, st.orelse)
        return out

    def s_With(self, st, s, fi, R):
        return self.with_items(st.items, st.body, s, fi, R)

    def with_items(self, items, body, s, fi, R):
        if not items:
            return self.block(body, s, fi)
        it, rest = items[0], items[1:]
        out = []
        for a, v in self.ev(it.context_expr, s, fi, R):
            a = a.copy()
            bind = v[1] if v[0] in ('null', 'wrap') and (v[0] == 'null' or self.is_closing(it.context_expr)) else v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, bind, a)
            suppress = isinstance(it.context_expr, ast.Call) and getattr(it.context_expr.func, 'id', getattr(
                it.context_expr.func, 'attr', '')) == 'suppress'
            R2 = {}
            try_out = self.with_items(rest, body, a, fi, R2)
            try_out += [(r, 'raise', None) for r in R2.values()]
            for b, kind, val in try_out:
                b = b.copy()
                if v[0] in ('res', 'param', 'wrap'):
                    self.close(v, b, fi, st_node(it))
                elif v[0] == 'estack':
                    for x in b.env.get('$' + v[1], ()):
                        if x[0] != 'null':
                            self.close(x, b, fi, st_node(it))
                    b.env.pop('$' + v[1], None)
                if kind == 'raise' and suppress:
                    out.append((b.copy(), 'normal', None))
                out.append((b, kind, val))
        return out

    def is_closing(self, e):
        return isinstance(e, ast.Call) and getattr(e.func, 'id', getattr(e.func, 'attr', '')) == 'closing'

    def matches(self, h, exc):
        """can / must the handler catch: (may, must)"""
        if h.type is None:
            return True, True
        names = [x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?'
                 for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if 'Exception' in names or 'BaseException' in names:
            return True, True
        if exc is None:
            return True, False
        c = getattr(builtins, exc, None)
        if not isinstance(c, type):
            return True, False
        ok = any(isinstance(getattr(builtins, n, None), type) and issubclass(c, getattr(builtins, n)) for n in names)
        return ok, ok

    def s_Try(self, st, s, fi, R):
        outs = self.block(st.body, s, fi)
        after = []
        for a, kind, val in outs:
            if kind == 'raise':
                caught = False
                for h in st.handlers:
                    may, must = self.matches(h, a.exc)
                    if may:
                        b = a.copy()
                        b.env['$exc'] = ('exc', a.exc)
                        b.exc = None
                        if h.name:
                            b.env[h.name] = OTHER
                        after += [(x, k, v) for x, k, v in self.block(h.body, b, fi)]
                    if must:
                        caught = True
                        break
                if not caught:
                    after.append((a, 'raise', val))
            elif kind == 'normal' and st.orelse:
                after += self.block(st.orelse, a, fi)
            else:
                after.append((a, kind, val))
        if not st.finalbody:
            return after
        out = []
        seen = set()
        for a, kind, val in after:
            k = (a.key(), kind, val)
            if k in seen:
                continue
            seen.add(k)
            exc = a.exc
            for b, k2, v2 in self.block(st.finalbody, a, fi):
                if k2 == 'normal':
                    b = b.copy()
                    b.exc = exc
                    out.append((b, kind, val))
                else:
                    out.append((b, k2, v2))
        return out

    def s_Delete(self, st, s, fi, R):
        s = s.copy()
        for t in st.targets:
            k = self.path(t)
            if k:
                s.env.pop(k, None)
        return [(s, 'normal', None)]


def st_node(it):
    return it.context_expr


def contains_open(prog, w):
    """functions that open files, directly or through calls inside the package (by name)"""
    direct = set()
    names = {}
    for f in prog.all_functions():
        ns = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if w.is_open(n, f):
                    direct.add(f.qual)
                g = n.func
                ns.add(g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else '')
        names[f.qual] = ns
    out = set(direct)
    while True:
        by = {q.split('.')[-1] if not q.endswith('.__init__') else q.split('.')[0] for q in out}
        new = {q for q in names if q not in out and names[q] & by}
        if not new:
            return direct, out, names
        out |= new


def run(prog, rep):
    rep.rule('close', 'a file opened by the library is closed on every path to every exit of the function that opens it')
    rep.rule('caller', 'no path closes a stream that the caller supplied')
    rep.assumptions.append('any call may raise; closing a file does not; BaseException handlers count as Exception handlers')
    rep.assumptions.append('handles opened by other libraries (PIL, fontTools) are not followed')
    w = Walker(prog, rep, None)
    direct, trans, names = contains_open(prog, w)
    prog._c12_open = trans
    roots = {}
    fns = {f.qual: f for f in prog.all_functions()}
    for q, f in fns.items():
        closes = any(isinstance(n, ast.Attribute) and n.attr in ('close', '__exit__') or isinstance(n, (ast.With, ast.AsyncWith))
                     or isinstance(n, ast.Name) and n.id in WRAP for n in ast.walk(f.node))
        if q in direct or closes:
            roots[q] = f
    # helpers of a module are analysed inside their callers of that module
    changed = True
    while changed:
        changed = False
        for q in list(roots):
            f = roots[q]
            if not f.name.startswith('_') or f.name.startswith('__'):
                continue
            own = [c for c in fns.values() if c.module is f.module and c.qual != q and f.name in names[c.qual]]
            for c in own:
                if c.qual not in roots:
                    roots[c.qual] = c
                    changed = True
    for c in ('PDFImage.__init__',):
        if c in fns:
            roots[c] = fns[c]
    rep.count('functions that open files', len(direct))
    rep.count('roots analysed', len(roots))
    for q in sorted(roots):
        rep.section('close', root, prog, rep, roots[q], names, fns)


def root(prog, rep, f, names, fns):
    w = Walker(prog, rep, f)
    env = {}
    helper = f.name.startswith('_') and not f.name.startswith('__')
    for i, a in enumerate(f.args + f.kwonly):
        env[a] = ('self', f.cls.name) if i == 0 and f.cls and f.kind not in ('static', 'function') else \
            (OTHER if helper else ('param', a))
    w.stack.append(f)
    try:
        outs = w.block(f.node.body, S(env), f)
    except TooMany as e:
        rep.unk('close', f.loc(), str(e))
        return
    rep.functions |= w.funcs | {f.qual}
    called = any(f.name in ns if f.name != '__init__' else f.cls.name in ns for q, ns in names.items()
                 if q != f.qual and fns[q].module is f.module)
    bad = set()
    for s, kind, val in outs:
        for rid, st in s.res.items():
            if st != 'open':
                rep.ok('close', f.loc())
                continue
            fi, node = w.sites[rid]
            escapes = kind == 'return' and holds(val, rid) or f.name != '__init__' and any(
                holds(v, rid) and '.' in k for k, v in s.env.items())
            if escapes and kind != 'raise':
                if not called:
                    rep.unk('close', fi.loc(node), 'handle handed to the caller of %s' % f.qual)
                continue
            if rid not in bad:
                bad.add(rid)
                rep.bad('close', fi.loc(node), 'the file opened here is still open when %s %s' % (
                    f.qual, 'raises%s' % (' ' + s.exc if s.exc else '') if kind == 'raise' else 'returns'))
    rep.ok('caller', f.loc(), len(outs))
    seen = set()
    for fi, node, v, safe in w.closes:
        k = (fi.qual, getattr(node, 'lineno', 0), safe)
        if k in seen:
            continue
        seen.add(k)
        if not safe:
            rep.bad('caller', fi.loc(node), 'closes the stream passed by the caller as %s of %s' % (v[1], f.qual))
        else:
            rep.ok('caller', fi.loc(node))
    rep.count('paths', len(outs))


def holds(v, rid):
    if not isinstance(v, tuple):
        return False
    return v == ('res', rid) or v[0] in ('wrap', 'null') and holds(v[1], rid) or v[0] == 'tuple' and any(holds(x, rid) for x in v[1])
