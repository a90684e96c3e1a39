"""Value-flow analyser: a trace-partitioned abstract interpreter over the term domain.

`Engine.analyse(func, args)` interprets a function abstractly and returns its partitions: each has
the branch atoms it assumed, the final store, and the ordered log of effects.  Package functions are
inlined unless declared opaque; loops are analysed once for a generic iteration.
"""
import ast
import string as _string
from .terms import *
from .program import AnchorMissing, FuncInfo, ClassInfo

BUILTIN_TYPES = {'int', 'float', 'str', 'bytes', 'bool', 'list', 'tuple', 'dict', 'set', 'type',
                 'object', 'range', 'frozenset', 'bytearray', 'complex'}
SUPER = {'bool': {'int'}, 'PDFRef': {'int'}, 'OrderedDict': {'dict'}, 'defaultdict': {'dict'}}
EXC_NAMES = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
             'NotImplementedError', 'RuntimeError', 'SyntaxError', 'ImportError', 'OverflowError',
             'ZeroDivisionError', 'StopIteration', 'BaseException', 'OSError', 'IOError',
             'UnicodeEncodeError', 'LookupError', 'AssertionError'}
MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
               'setdefault', 'popitem', 'add', 'discard', 'write', 'seek', 'read', 'close', 'save',
               'difference_update', 'intersection_update', 'symmetric_difference_update',
               'writelines', '__setitem__', 'appendleft', 'popleft'}
STR_RET = {'strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace', 'zfill', 'title', 'join', 'format',
           'capitalize', 'rjust', 'ljust', 'center', 'translate', 'decode', 'hex', 'removeprefix',
           'removesuffix', 'str', 'repr', 'sub'}


class TooComplex(Exception):
    pass


class Ev:
    __slots__ = ('kind', 'a', 'node', 'fi', 'facts')

    def __init__(self, kind, a, node, fi, facts=()):
        self.kind = kind
        self.a = a
        self.node = node
        self.fi = fi
        self.facts = facts

    @property
    def loc(self):
        if self.fi is None:
            return '?'
        return '%s:%s in %s' % (self.fi.module.relpath, getattr(self.node, 'lineno', '?'), self.fi.qual)

    def __repr__(self):
        def sh(x):
            if is_term(x):
                return show(x)
            if isinstance(x, tuple):
                return '(' + ', '.join(sh(y) for y in x) + ')'
            return repr(x)
        return '%s(%s)' % (self.kind, ', '.join(sh(x) for x in self.a))


class Loop:
    def __init__(self, id, node, fi):
        self.id = id
        self.node = node
        self.fi = fi
        self.kind = None
        self.space = None       # term iterated over ('for'), or None
        self.count = None       # number of iterations when known
        self.entry = {}         # loc -> entry term
        self.head = {}          # loc -> head term
        self.step = {}          # loc -> numeric step per iteration
        self.parts = []         # [(state, signal)] of the generic iteration
        self.entry_state = None
        self.outvals = {}       # loc -> list of constants (finite set domain)
        self.after = {}         # loc -> the constants possible after at least one iteration
        self.keep = None        # comprehensions: which partitions yield an element

    @property
    def ind(self):
        return ('ind', self.id)

    def back(self):
        return [s for s, g in self.parts if g in (None, 'continue')]

    def __repr__(self):
        return 'Loop#%s(%s)' % (self.id, show(self.space) if self.space else self.kind)


class State:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'epoch', 'exc', 'base')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.epoch = {}
        self.exc = None
        self.base = 0     # length of the trace prefix belonging to the enclosing context

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.epoch = dict(self.epoch)
        s.exc = self.exc
        s.base = self.base
        return s

    def same(self, o):
        return (self.env == o.env and self.heap == o.heap and self.epoch == o.epoch and
                self.exc == o.exc and len(self.trace) == len(o.trace) and
                all(a is b for a, b in zip(self.trace, o.trace)))


class Engine:
    def __init__(self, prog, opaque=(), inline_only=None, max_parts=4000, cha=True, inline_str=(),
                 max_depth=14, pure_opaque=()):
        self.prog = prog
        self.stubs = {}
        self.opaque = set(opaque)
        self.pure_opaque = set(pure_opaque)
        self.inline_only = inline_only
        self.max_parts = max_parts
        self.cha = cha
        self.uid = 0
        self.loops = {}
        self.glob_values, self.method_stubs, self.ext_stubs = {}, {}, {}
        self.kinds = {}
        self.types = {}
        self.stack = []
        self.max_depth = max_depth
        self.analysed = set()
        self._mods = None
        self.elem_types = {}
        self.steps = 0
        self.quiet = False
        self.modcache = {}
        self.nomerge = False
        self.exact = set()

    # ================================================================ entry
    def analyse(self, fi, args=None, state=None, self_cls=None, types=None, kw=None):
        """args: {param: term}; missing ones become symbols (or defaults when kw == 'defaults')."""
        st = state or State()
        argmap = {}
        args = args or {}
        for i, a in enumerate(fi.args + fi.kwonly):
            if a in args:
                argmap[a] = args[a]
            else:
                t = ('sym', a)
                if i == 0 and fi.cls is not None and fi.kind not in ('static', 'function'):
                    self.types[t] = (self_cls or fi.cls.name)
                    if fi.kind == 'classmethod':
                        t = ('class', fi.cls.name)
                else:
                    ty = (types or {}).get(a) or self.prog.ann_type(fi.annotations.get(a))
                    if ty and t not in self.types:
                        self.types[t] = ty
                argmap[a] = t
        if fi.vararg:
            argmap[fi.vararg] = args.get(fi.vararg, ('sym', '*' + fi.vararg))
        if fi.kwarg:
            argmap[fi.kwarg] = args.get(fi.kwarg, ('sym', '**' + fi.kwarg))
        out = []
        for s, t in self.run_body(fi, argmap, st):
            s.env = s.env
            out.append(Part(s, t))
        return out

    def run_body(self, fi, argmap, st):
        """interpret the body with the given argument map; returns [(state, ret term)]"""
        if len(self.stack) > self.max_depth and (len(self.stack) > 4 * self.max_depth or sum(x.known for x in self.stack) > self.max_depth):
            raise TooComplex('inlining depth at %s' % fi.qual)
        self.analysed.add(fi.qual)
        saved = st.env
        st.env = dict(argmap)
        self.stack.append(fi)
        try:
            res = self.exec_block(fi.node.body, st)
        finally:
            self.stack.pop()
        out = []
        for s, sig in res:
            env = s.env
            s.env = dict(saved)     # partitions must not share one environment
            if len(self.stack) == 0:
                s.env = env
            if isinstance(sig, tuple) and sig[0] == 'ret':
                out.append((s, sig[1]))
            elif isinstance(sig, tuple) and sig[0] == 'raise':
                s.exc = sig[1]
                out.append((s, ('bot',)))
            else:
                out.append((s, NONE))
        return self.merge_vals(out)

    @property
    def fi(self):
        return self.stack[-1] if self.stack else None

    def new_id(self):
        self.uid += 1
        return self.uid

    def ev(self, st, kind, a, node):
        st.trace = st.trace + (Ev(kind, a, node, self.fi),)

    # ================================================================ statements
    def exec_block(self, stmts, st):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, sig in self.exec_stmt(s, c):
                    if s2.exc is not None and sig is None:
                        sig = ('raise', s2.exc)
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, sig))
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
            if len(cur) + len(out) > self.max_parts:
                raise TooComplex('%d partitions in %s' % (len(cur) + len(out), self.fi.qual if self.fi else '?'))
            if not cur:
                break
        return out + [(c, None) for c in cur]

    def merge(self, states):
        if self.nomerge:
            return list(states)
        out = []
        for s in states:
            for o in out:
                if o.same(s):
                    o.facts = {k: v for k, v in o.facts.items() if s.facts.get(k) == v}
                    break
            else:
                out.append(s)
        return out

    def merge_vals(self, vals):
        if len(vals) < 2 or self.nomerge:
            return vals
        out = []
        for s, t in vals:
            for o, t2 in out:
                if t == t2 and o.same(s):
                    o.facts = {k: v for k, v in o.facts.items() if s.facts.get(k) == v}
                    break
            else:
                out.append((s, t))
        return out

    def exec_stmt(self, n, st):
        self.steps += 1
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise TooComplex('statement %s in %s' % (type(n).__name__, self.fi.qual))
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, _ in self.eval(n.value, st)]

    def s_Pass(self, n, st):
        return [(st, None)]

    def s_Global(self, n, st):
        return [(st, None)]
    s_Nonlocal = s_Global

    def s_Import(self, n, st):
        for a in n.names:
            st.env[(a.asname or a.name.split('.')[0])] = ('extmod', a.name)
        return [(st, None)]

    def s_ImportFrom(self, n, st):
        for a in n.names:
            r = None
            nm = a.asname or a.name
            for mod in self.prog.modules.values():
                if (n.module or '').split('.')[-1] == mod.name and (n.level or (n.module or '').startswith(self.prog.pkg)):
                    r = self.prog.resolve_name(mod, a.name)
            st.env[nm] = self.resolved(r) if r else ('extmod', (n.module or '') + '.' + a.name)
        return [(st, None)]

    def s_FunctionDef(self, n, st):
        f = FuncInfo(n, self.fi.module, None, 'function')
        uid = self.new_id()
        t = ('closure', uid)
        st.env[n.name] = t
        self.types[t] = (f, st.env)   # by-reference capture of the frame
        return [(st, None)]

    def s_ClassDef(self, n, st):
        return [(st, None)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('ret', t) if s.exc is None else ('raise', s.exc))
                for s, t in self.merge_vals(self.eval(n.value, st))]

    def s_Raise(self, n, st):
        if n.exc is None:
            return [(st, ('raise', ('sym', 'reraise')))]
        out = []
        for s, t in self.eval(n.exc, st):
            self.ev(s, 'raise', (t,), n)
            out.append((s, ('raise', t)))
        return out

    def s_Assert(self, n, st):
        out = []
        for s, b in self.branch(n.test, st):
            if b:
                out.append((s, None))
            else:
                out.append((s, ('raise', ('sym', 'AssertionError'))))
        return out

    def s_Break(self, n, st):
        return [(st, 'break')]

    def s_Continue(self, n, st):
        return [(st, 'continue')]

    def s_If(self, n, st):
        out = []
        br = self.branch(n.test, st)
        for s, b in br:
            if s.exc is not None:
                out.append((s, ('raise', s.exc)))
                continue
            out.extend(self.exec_block(n.body if b else n.orelse, s))
        falls = self.merge([s for s, g in out if g is None])
        return [(s, g) for s, g in out if g is not None] + [(s, None) for s in falls]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            if s.exc is not None:
                out.append((s, None))
                continue
            states = [s]
            for t in n.targets:
                nxt = []
                for s1 in states:
                    nxt.extend(self.assign(t, v, s1, n))
                states = nxt
            out.extend((s1, None) for s1 in states)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.eval(n.value, st):
            for s1 in self.assign(n.target, v, s, n):
                out.append((s1, None))
        return out

    def s_AugAssign(self, n, st):
        load = _as_load(n.target)
        out = []
        for s, cur in self.eval(load, st):
            for s1, v in self.eval(n.value, s):
                if s1.exc is not None:
                    out.append((s1, None))
                    continue
                if isinstance(n.op, ast.Add) and (cur[0] == 'list' or (v[0] == 'list' and cur[0] in ('attr', 'idx', 'sym', 'get', 'setdef', 'call'))):
                    self.list_extend(s1, cur, v, n)
                    out.append((s1, None))
                    continue
                if isinstance(n.op, ast.BitOr) and cur[0] in ('dict',):
                    self.dict_update(s1, cur, v, n)
                    out.append((s1, None))
                    continue
                if isinstance(n.op, (ast.Sub, ast.BitOr, ast.BitAnd)) and self.kind_of(cur) == 'set':
                    self.ev(s1, 'mut', (cur, 'aug' + type(n.op).__name__, (v,)), n)
                    out.append((s1, None))
                    continue
                r = self.binop(n.op, cur, v, s1, n)
                for s2 in self.assign(n.target, r, s1, n, aug=True):
                    out.append((s2, None))
        return out

    def s_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.eval(t.value, s):
                        for s2, k in self.eval(t.slice, s1):
                            cls = self.class_of(b)
                            m = cls and self.prog.find_method(cls, '__delitem__')
                            if m:
                                nxt.extend(x for x, _ in self.call_method(s2, m, b, [k], {}, n))
                                continue
                            if b[0] == 'dict':
                                s2.heap[('D', b[1])] = s2.heap.get(('D', b[1]), ()) + (('del', k),)
                            if b[0] == 'list':
                                conc = self.concrete_items(b, s2)
                                self.drop_items(s2, b)
                                if conc is not None and is_c(k) and isinstance(k[2], int) and -len(conc) <= k[2] < len(conc):
                                    conc = list(conc)
                                    del conc[k[2]]
                                    s2.heap[('L', b[1])] = tuple(conc)
                                else:
                                    s2.heap[('L', b[1])] = (('unk', fn('del', ('snapl',) + s2.heap.get(('L', b[1]), ()), k)),)
                            self.ev(s2, 'del', (b, k), n)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.eval(t.value, s):
                        self.ev(s1, 'delattr', (b, C(t.attr)), n)
                        s1.heap.pop(('a', b, t.attr), None)
                        nxt.append(s1)
                else:
                    if isinstance(t, ast.Name):
                        s.env.pop(t.id, None)
                    nxt.append(s)
            states = nxt
        return [(s, None) for s in states]

    def s_With(self, n, st):
        states = [st]
        for it in n.items:
            nxt = []
            for s in states:
                for s1, v in self.eval(it.context_expr, s):
                    self.ev(s1, 'enter', (v,), n)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, s1, n))
                    else:
                        nxt.append(s1)
            states = nxt
        out = []
        for s in states:
            for s1, sig in self.exec_block(n.body, s):
                self.ev(s1, 'exit', (C(n.lineno),), n)
                out.append((s1, sig))
        return out

    def s_Try(self, n, st):
        start = st.copy()
        risk = self.risk
        res = self.exec_block(n.body, st)
        implicit = not self.exact_try or self.risk > risk
        out = []
        raised = [s for s, g in res if isinstance(g, tuple) and g[0] == 'raise']
        normal = [(s, g) for s, g in res if not (isinstance(g, tuple) and g[0] == 'raise')]
        after = []
        for s, g in normal:
            if g is None and n.orelse:
                after.extend(self.exec_block(n.orelse, s))
            else:
                after.append((s, g))
        if n.handlers:
            # implicit exceptions: handler runs from the state before the body
            for h in (n.handlers if implicit else ()):
                hs = start.copy()
                hs.facts[('exc', n.lineno, h.lineno)] = True
                self.ev(hs, 'handler', (C(h.lineno), C(ast.unparse(h.type) if h.type else '')), h)
                if h.name:
                    hs.env[h.name] = ('sym', 'exc')
                after.extend(self.exec_block(h.body, hs))
            for s in raised:
                s = s.copy()
                h = None if self.exact_try else n.handlers[-1]
                for cand in n.handlers:
                    if cand.type is None or _catches(cand.type, s.exc if s.exc else None):
                        h = cand
                        break
                if h is None:
                    after.append((s, ('raise', s.exc)))
                    continue
                s.exc = None
                if h.name:
                    s.env[h.name] = ('sym', 'exc')
                after.extend(self.exec_block(h.body, s))
        else:
            after.extend((s, ('raise', s.exc or ('sym', 'exc'))) for s in raised)
        if n.finalbody:
            for s, g in after:
                exc = s.exc
                s.exc = None
                for s1, g1 in self.exec_block(n.finalbody, s):
                    if g1 is None:
                        s1.exc = exc
                        out.append((s1, g))
                    else:
                        out.append((s1, g1))
        else:
            out = after
        return out

    def s_Match(self, n, st):
        raise TooComplex('match statement')

    # ------------------------------------------------------------ loops
    def s_For(self, n, st):
        out = []
        for s, it in self.eval(n.iter, st):
            if s.exc is not None:
                out.append((s, ('raise', s.exc)))
                continue
            items = self.concrete_items(it, s)
            if items is not None and len(items) <= 16:
                out.extend(self.unroll(n, items, s))
            else:
                out.extend(self.generic_loop(n, s, it))
        return out

    def unroll(self, n, items, st):
        cur = [st]
        done = []
        res = []
        for item in items:
            nxt = []
            for c in cur:
                for s0 in self.assign(n.target, item, c, n):
                    for s1, sig in self.exec_block(n.body, s0):
                        if sig in (None, 'continue'):
                            nxt.append(s1)
                        elif sig == 'break':
                            done.append(s1)
                        else:
                            res.append((s1, sig))
            cur = self.merge(nxt)
            if len(cur) + len(done) + len(res) > self.max_parts:
                raise TooComplex('unrolled loop')
        for c in cur:
            if n.orelse:
                res.extend(self.exec_block(n.orelse, c))
            else:
                res.append((c, None))
        res.extend((d, None) for d in done)
        return res

    def s_While(self, n, st):
        if self.unwind:
            return self.unwound(n, st)
        return self.generic_loop(n, st, None)

    def unwound(self, n, st):
        cur = [st]
        res = []
        for _ in range(self.unwind + 1):
            nxt = []
            for c in cur:
                for s, b in self.branch(n.test, c):
                    if s.exc is not None:
                        res.append((s, ('raise', s.exc)))
                        continue
                    if not b:
                        res.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, None)])
                        continue
                    for s1, sig in self.exec_block(n.body, s):
                        if sig in (None, 'continue'):
                            nxt.append(s1)
                        elif sig == 'break':
                            res.append((s1, None))
                        else:
                            res.append((s1, sig))
            cur = nxt
            if not cur:
                break
            if len(cur) + len(res) > self.max_parts:
                raise TooComplex('unwound loop')
        self.cut += len(cur)
        return res

    def generic_loop(self, n, st, it):
        L = Loop(self.new_id(), n, self.fi)
        L.kind = 'for' if it is not None else 'while'
        self.loops[L.id] = L
        L.entry_state = st.copy()
        L.space = it
        ind = L.ind
        self.kinds[ind] = 'num'
        head = {}
        iterables = None
        for _round in range(6):
            s0 = st.copy()
            s0.base = len(s0.trace)
            for loc, t in head.items():
                self.put_loc(s0, loc, t)
            ref = s0.copy()
            if it is not None:
                states = self.bind_iter(n.target, it, ind, s0, n, L)
                pairs = [(s, True) for s in states]
            else:
                pairs = [p for p in self.branch(n.test, s0)]
            parts = []
            exits = []
            for s, b in pairs:
                if b:
                    parts.extend(self.exec_block(n.body, s))
                else:
                    exits.append(s)
            parts = [(s, g) for s, g in parts]
            changed = {}
            for s, g in parts:
                if g in (None, 'continue'):
                    for loc, v in self.diff(ref, s, L, n):
                        changed.setdefault(loc, []).append(v)
            new = {}
            for loc in [x for x in changed if x[0] == 'D']:
                keys = self.keyed_change(loc, changed[loc], ref, st)
                if keys is not None:
                    del changed[loc]
                    for k in keys:
                        changed.setdefault(('K', loc[1], k), [])
            for loc, vals in changed.items():
                if loc in head:
                    continue
                new[loc] = ('head', L.id, loc)
            # tests of exits may modify too (walrus): ignored
            if not new:
                # induction variables
                steps = {}
                backs = [s for s, g in parts if g in (None, 'continue')]
                for loc, h in head.items():
                    if h[0] != 'head' or loc[0] == 'L' or loc[0] == 'D':
                        continue
                    deltas = set()
                    for s in backs:
                        v = self.get_loc(s, loc)
                        if v is None:
                            deltas.add(None)
                            continue
                        d = poly_const(p_sub(v, h)) if self.numericish(v) else None
                        deltas.add(d)
                    if len(deltas) == 1 and None not in deltas and backs:
                        d = deltas.pop()
                        e = self.get_loc(st, loc) if self.get_loc(st, loc) is not None else self.initial_loc(loc)
                        if d != 0 and e is not None and self.numericish(e):
                            steps[loc] = (e, d)
                todo = {loc: sd for loc, sd in steps.items() if loc not in L.step}
                if todo:
                    for loc, (e, d) in todo.items():
                        L.step[loc] = d
                        head[loc] = p_add(e, p_mul(C(int(d)) if d.denominator == 1 else C(float(d)), ind))
                    continue
                break
            for loc, h in new.items():
                e = self.get_loc(st, loc)
                if e is None:
                    e = self.initial_loc(loc)
                if loc[0] == 'L':
                    pre = self.get_loc(st, loc) or ()
                    h = (('unk', h),) if True else pre
                    self.kinds[h[0][1]] = 'list'
                elif loc[0] == 'D':
                    h = (('unk', h),)
                elif loc[0] == 'S':
                    h = (('unk', h),)
                elif e is not None:
                    self.kinds[h] = self.kind_of(e)
                    if e == NONE:
                        # None before, something typed later
                        for v in changed[loc]:
                            if v is not None and v != NONE:
                                k = self.kind_of(v)
                                if k and k not in ('none',):
                                    self.kinds[h] = 'opt:' + k
                                c = self.class_of(v)
                                if c is not None:
                                    self.types[h] = c.name
                    else:
                        c = self.class_of(e)
                        if c is not None:
                            self.types[h] = c.name
                head[loc] = h
                L.entry[loc] = e
        L.head = head
        for loc in head:
            if loc not in L.entry:
                L.entry[loc] = self.get_loc(st, loc)
        L.parts = [(s, g) for s, g in parts]
        if it is not None:
            L.count = self.space_len(it, st)
        else:
            for s in exits:
                for f, v in s.facts.items():
                    if f not in st.facts and f[0] == 'lt0' and v is False:
                        # ind - n < 0 failed
                        q = p_sub(ind, f[1])
                        if not contains(q, ind):
                            L.count = q
        # finite-constant domain for variables that only take constants
        for loc in head:
            vals = self.const_orbit(L, loc)
            if vals is not None:
                L.outvals[loc] = vals
        # ---- exits
        out = []
        post = st.copy()
        post.trace = st.trace + (Ev('loop', (L,), n, self.fi),)
        has_break = any(g == 'break' for s, g in L.parts)
        for loc, h in head.items():
            self.put_loc(post, loc, self.loop_out(L, loc, h, has_break))
        for loc, v in self.body_locals(L, n).items():
            if loc not in head:
                self.put_loc(post, loc, ('out', L.id, loc))
        self.copy_epochs(post, L)
        infinite = it is None and not exits
        if not infinite:
            if it is None:
                for s in exits[:1]:
                    for f, v in s.facts.items():
                        if f not in st.facts:
                            post.facts[subst(f, lambda t: self.head_to_out(L, t, post))] = v
            if n.orelse:
                out.extend(self.exec_block(n.orelse, post.copy()))
            else:
                out.append((post.copy(), None))
        for s, g in L.parts:
            if g in (None, 'continue'):
                continue
            s2 = s.copy()
            own = s.trace[len(st.trace):]
            s2.trace = post.trace + own
            s2.base = st.base
            if g == 'break':
                out.append((s2, None))
            else:
                out.append((s2, g))
        return out

    def keyed_change(self, loc, vals, ref, st):
        """constant keys a loop body stores into a dictionary that has them already; None when it does anything else"""
        pre = ref.heap.get(loc, ())
        keys = set()
        for v in vals:
            if not isinstance(v, tuple) or v[:len(pre)] != pre:
                return None
            for l in v[len(pre):]:
                if l[0] != 'kv' or not is_c(l[1]):
                    return None
                if self.layer_get(st.heap.get(loc, ()), l[1], ('sym', '$none'), None) in (None, ('sym', '$none')):
                    return None
                keys.add(l[1])
        return keys

    def head_to_out(self, L, t, post):
        if t[0] == 'head' and t[1] == L.id:
            return ('out', L.id, t[2])
        if t == L.ind:
            return ('niter', L.id)
        return None

    def copy_epochs(self, post, L):
        for s, g in L.parts:
            for k, v in s.epoch.items():
                if v > post.epoch.get(k, 0):
                    post.epoch[k] = v
        # opaque calls in the body invalidate attributes known before
        for s, g in L.parts:
            for k, v in s.epoch.items():
                if v > L.entry_state.epoch.get(k, 0):
                    for hk in [x for x in post.heap if x[0] == 'a' and x[2] == k and x not in L.head]:
                        del post.heap[hk]

    def const_orbit(self, L, loc):
        if loc[0] in ('L', 'D', 'S'):
            return None
        e = L.entry.get(loc)
        h = L.head[loc]
        if e is None or not is_c(e):
            return None
        if h[0] != 'head' and loc not in L.step:
            return None
        vals = [e]
        after = []
        work = [e]
        hterm = ('head', L.id, loc)
        step = L.step.get(loc)
        while work:
            v = work.pop()
            for s in L.back():
                # feasible with head == v ?
                if step is not None:
                    # re-express: facts are in terms of ind; map ind -> (v - e)/step
                    mp = lambda t, v=v: p_div(p_sub(v, e), C(int(step) if step.denominator == 1 else float(step))) if t == L.ind else None
                else:
                    mp = lambda t, v=v: v if t == hterm else None
                ok = True
                for f, b in s.facts.items():
                    if f in L.entry_state.facts:
                        continue
                    f2 = subst(f, mp)
                    if f2 != f:
                        d = self.decide_atom(self.fold(f2), s)
                        if d is not None and d != b:
                            ok = False
                            break
                if not ok:
                    continue
                nv = self.get_loc(s, loc)
                nv = self.fold(subst(nv, mp)) if nv is not None else None
                if nv is None or not is_c(nv):
                    return None
                if nv not in after:
                    after.append(nv)
                if nv not in vals:
                    vals.append(nv)
                    work.append(nv)
                    if len(vals) > 6:
                        return None
        L.after[loc] = after
        return vals

    def loop_out(self, L, loc, h, has_break):
        backs = L.back()
        e = L.entry.get(loc)
        if loc[0] == 'L':
            segs = []
            clean = True
            for s in backs:
                items = self.get_loc(s, loc)
                if items[:1] == h:
                    segs.append(items[1:])
                else:
                    clean = False
            pre = e if isinstance(e, tuple) else ()
            if clean:
                return tuple(pre) + (('star', L.id, tuple(segs)),)
            return (('unk', ('out', L.id, loc)),)
        if loc[0] in ('D', 'S'):
            segs = []
            clean = True
            for s in backs:
                items = self.get_loc(s, loc)
                if items[:1] == h:
                    segs.append(items[1:])
                else:
                    clean = False
            pre = e if isinstance(e, tuple) else ()
            if clean:
                return tuple(pre) + (('star', L.id, tuple(segs)),)
            return (('unk', ('out', L.id, loc)),)
        if loc in L.step:
            if L.count is not None and not has_break:
                d = L.step[loc]
                return p_add(e, p_mul(C(int(d)) if d.denominator == 1 else C(float(d)), L.count))
            self.kinds[('niter', L.id)] = 'num'
            return p_add(e, p_mul(C(int(L.step[loc])) if L.step[loc].denominator == 1 else C(float(L.step[loc])), ('niter', L.id)))
        k = self.kinds.get(h)
        if k in ('s', 'b'):
            alts = []
            ok = True
            for s in backs:
                v = self.get_loc(s, loc)
                ps = cat_parts(v)
                if ps and ps[0] == ('hole', h, ''):
                    alts.append(ps[1:])
                else:
                    ok = False
            if ok and e is not None:
                return mk_cat(k, as_parts(e, k) + (('star', L.id, tuple(alts)),))
        o = ('out', L.id, loc)
        if k:
            self.kinds[o] = k
        if h in self.types:
            self.types[o] = self.types[h]
        vals = L.outvals.get(loc)
        if vals is not None and len(vals) == 1:
            return vals[0]
        return o

    def body_locals(self, L, n):
        names = {}
        for s, g in L.parts:
            for k in s.env:
                if k not in L.entry_state.env:
                    names[('env', k)] = True
        for x in ast.walk(n.target) if isinstance(n, ast.For) else []:
            if isinstance(x, ast.Name):
                names[('env', x.id)] = True
        return names

    def diff(self, s0, s1, L, n):
        out = []
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if isinstance(n, ast.For) else set()
        for k, v in s1.env.items():
            if k in tnames:
                continue
            if k in s0.env and s0.env[k] != v:
                out.append((('env', k), v))
        for k, v in s1.heap.items():
            if s0.heap.get(k) != v:
                if k[0] in ('L', 'D', 'S'):
                    if k in s0.heap:
                        out.append((k, v))
                    continue
                base = k[1]
                if contains(k, L.ind) or self.fresh_in(base, L):
                    continue
                out.append((k, v))
        return out

    def fresh_in(self, base, L):
        for t in subterms(base):
            if t[0] in ('obj', 'list', 'dict', 'set') and isinstance(t[-1], int) and t[-1] > L.id:
                return True
            if t[0] == 'call' and isinstance(t[4], int) and t[4] > L.id:
                return True
        return False

    def get_loc(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1])
        if loc[0] == 'K':
            return self.layer_get(st.heap.get(('D', loc[1]), ()), loc[2], None, None)
        return st.heap.get(loc)

    def put_loc(self, st, loc, v):
        if loc[0] == 'env':
            st.env[loc[1]] = v
        elif loc[0] == 'K':
            st.heap[('D', loc[1])] = st.heap.get(('D', loc[1]), ()) + (('kv', loc[2], v),)
        else:
            st.heap[loc] = v

    def initial_loc(self, loc):
        if loc[0] == 'a':
            return ('attr', loc[1], loc[2], 0)
        if loc[0] == 'i':
            return ('idx', loc[1], loc[2])
        if loc[0] == 'n':
            return C(0)
        if loc[0] == 'v':
            return C(0)
        return None

    def space_len(self, it, st):
        if it[0] == 'range':
            lo, hi, step = it[1]
            if step == C(1):
                return p_sub(hi, lo)
            return None
        if it[0] == 'enumerate':
            return self.space_len(it[1], st)
        if it[0] == 'zip':
            return None
        if it[0] in ('items', 'keys', 'values'):
            return fn('len', it[1])
        return self.len_of(it, st)

    def bind_iter(self, target, it, ind, st, n, L):
        """bind the loop target to a generic element"""
        elem = self.generic_elem(it, ind, st)
        return self.assign(target, elem, st, n)

    def generic_elem(self, it, ind, st):
        k = it[0]
        if k == 'range':
            lo, hi, step = it[1]
            return p_add(lo, p_mul(step, ind))
        if k == 'enumerate':
            return ('tuple', (p_add(it[2], ind), self.generic_elem(it[1], ind, st)))
        if k == 'zip':
            return ('tuple', tuple(self.generic_elem(x, ind, st) for x in it[1]))
        if k == 'items':
            kk = ('dkey', it[1], ind)
            return ('tuple', (kk, ('idx', it[1], kk)))
        if k == 'keys':
            return ('dkey', it[1], ind)
        if k == 'values':
            return ('idx', it[1], ('dkey', it[1], ind))
        if k == 'reversed':
            e = ('idx', it, ind)
            return e
        if k == 'dict':
            return ('dkey', it, ind)
        if k == 'comp':
            return subst(it[3], lambda t: ind if t == it[1] else None) if it[4] is None else ('idx', it, ind)
        if k not in ('attr',) and (st.facts.get(('inst', it, 'dict')) is True or self.types.get(it) == 'dict'):
            return ('dkey', it, ind)
        e = ('idx', it if ('v', it) not in st.heap else fn('ver', it, st.heap[('v', it)]), ind)
        ty = self.elem_type_of(it, st)
        if ty:
            self.types.setdefault(e, ty)
        if k == 'cat' or self.kind_of(it) == 's':
            self.kinds[e] = 's'
        return e

    def elem_type_of(self, it, st=None):
        if it in self.elem_types:
            return self.elem_types[it]
        if it[0] == 'attr':
            c = self.class_of(it[1])
            if c is not None:
                return self.prog.elem_type(c.name, it[2])
        if it[0] == 'list' and st is not None:
            items = st.heap.get(('L', it[1]), ())
            for x in items:
                if x[0] not in ('unk', 'star'):
                    c = self.class_of(x)
                    if c is not None:
                        return c.name
        return None

    def concrete_items(self, it, st):
        k = it[0]
        if k == 'tuple':
            return list(it[1])
        if k == 'list':
            items = st.heap.get(('L', it[1]))
            if items is None or any(x[0] in ('unk', 'star') for x in items):
                return None
            return list(items)
        if k == 'range':
            lo, hi, step = it[1]
            a, b, c = poly_const(lo), poly_const(hi), poly_const(step)
            if None in (a, b, c) or c == 0:
                return None
            r = list(range(int(a), int(b), int(c)))
            return [C(x) for x in r] if len(r) <= 16 else None
        if k == 'enumerate':
            x = self.concrete_items(it[1], st)
            if x is None:
                return None
            return [('tuple', (p_add(it[2], C(i)), e)) for i, e in enumerate(x)]
        if k == 'zip':
            xs = [self.concrete_items(x, st) for x in it[1]]
            known = [x for x in xs if x is not None]
            if not known:
                return None
            n = min(len(x) for x in known)
            out = []
            for i in range(n):
                row = []
                for x, src in zip(xs, it[1]):
                    row.append(x[i] if x is not None else self.index(src, C(i), st))
                out.append(('tuple', tuple(row)))
            return out
        if k in ('items', 'keys', 'values') or k == 'dict':
            d = it[1] if k != 'dict' else it
            if d[0] == 'glob':
                return None
            if d[0] != 'dict':
                return None
            flat = self.flat_dict(d, st)
            if flat is None:
                return None
            if k == 'items':
                return [('tuple', (a, b)) for a, b in flat]
            if k == 'values':
                return [b for a, b in flat]
            return [a for a, b in flat]
        if k == 'c' and isinstance(it[2], (str,)):
            return [C(ch) for ch in it[2]] if len(it[2]) <= 16 else None
        return None

    def flat_dict(self, d, st):
        out = []
        for l in st.heap.get(('D', d[1]), ()):
            if l[0] == 'kv' and const_key(l[1]):
                out = [(a, b) for a, b in out if a != l[1]] if False else out
                for i, (a, b) in enumerate(out):
                    if a == l[1]:
                        out[i] = (a, l[2])
                        break
                else:
                    out.append((l[1], l[2]))
            elif l[0] == 'del' and const_key(l[1]):
                out = [(a, b) for a, b in out if a != l[1]]
            else:
                return None
        return out

    # ================================================================ assignment
    def assign(self, t, v, st, n, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            states = [st]
            items = self.concrete_items(v, st) if v[0] in ('tuple', 'list') else None
            for i, e in enumerate(t.elts):
                nxt = []
                for s in states:
                    if star and items is not None and len(star) == 1 and len(items) >= len(t.elts) - 1:
                        extra = len(items) - len(t.elts) + 1
                        if isinstance(e, ast.Starred):
                            tgt, val = e.value, self.new_list(s, items[i:i + extra])
                        else:
                            tgt, val = e, items[i if i < star[0] else i + extra - 1]
                    elif star:
                        val = fn('unpack', v, C(i))
                        tgt = e.value if isinstance(e, ast.Starred) else e
                    else:
                        tgt = e
                        val = items[i] if items is not None and i < len(items) else self.index(v, C(i), s)
                    nxt.extend(self.assign(tgt, val, s, n))
                states = nxt
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st):
                if s.exc is not None:
                    out.append(s)
                    continue
                out.extend(self.set_attr(s, b, t.attr, v, n))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.eval(t.value, st):
                for s1, k in self.eval(t.slice, s):
                    if s1.exc is not None:
                        out.append(s1)
                        continue
                    out.extend(self.set_item(s1, b, k, v, n))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, n)
        raise TooComplex('assignment target %s' % type(t).__name__)

    def set_attr(self, st, b, name, v, n):
        cls = self.class_of(b)
        if cls is not None:
            setter = self.prog.find_method(cls, name, 'setters')
            if setter is not None:
                if setter.qual in self.opaque and setter.known:
                    self.ev(st, 'write', (b, name, v), n)
                    st.heap[('a', b, name)] = v
                    return [st]
                return [s for s, _ in self.call_method(st, setter, b, [v], {}, n)]
        st.heap[('a', b, name)] = v
        self.ev(st, 'write', (b, name, v), n)
        return [st]

    def drop_items(self, st, b):
        for x in [x for x in st.heap if x[0] == 'i' and x[1] == b]:
            del st.heap[x]

    def set_item(self, st, b, k, v, n):
        cls = self.class_of(b)
        if cls is not None:
            m = self.prog.find_method(cls, '__setitem__')
            if m is not None:
                return [s for s, _ in self.call_method(st, m, b, [k, v], {}, n)]
        if b[0] == 'dict':
            st.heap[('D', b[1])] = st.heap.get(('D', b[1]), ()) + (('kv', k, v),)
        elif b[0] == 'list':
            items = st.heap.get(('L', b[1]), ())
            if is_c(k) and isinstance(k[2], int):
                i = k[2]
                conc = self.concrete_items(b, st)
                if conc is not None and -len(conc) <= i < len(conc):
                    items = list(conc)
                    items[i] = v
                    st.heap[('L', b[1])] = tuple(items)
                    self.drop_items(st, b)
                    self.ev(st, 'setitem', (b, k, v), n)
                    return [st]
        if b[0] != 'dict':
            st.heap[('i', b, k)] = v
        self.ev(st, 'setitem', (b, k, v), n)
        return [st]

    # ================================================================ conditions
    def branch(self, e, st):
        """evaluate a test; returns [(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [(st, isand)]
            done = []
            for x in e.values:
                nxt = []
                for s, b in cur:
                    for s1, b1 in self.branch(x, s):
                        if b1 == isand:
                            nxt.append((s1, b1))
                        else:
                            done.append((s1, b1))
                cur = nxt
            return self._merge_br(done + cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.branch(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            vals = [e.left] + e.comparators
            parts = []
            cur = [(st, True)]
            done = []
            for i, op in enumerate(e.ops):
                nxt = []
                for s, b in cur:
                    for s1, b1 in self.branch(ast.copy_location(ast.Compare(vals[i], [op], [vals[i + 1]]), e), s):
                        (nxt if b1 else done).append((s1, b1))
                cur = nxt
            return self._merge_br(done + cur)
        out = []
        for s, t in self.eval(e, st):
            if s.exc is not None:
                out.append((s, True))
                continue
            out.extend(self.split(t, s))
        return self._merge_br(out)

    def _merge_br(self, br):
        if len(br) < 3:
            return br
        res = []
        for b in (True, False):
            for s in self.merge([s for s, x in br if x == b]):
                res.append((s, b))
        return res

    def split(self, t, st):
        """[(state, bool)] for the truth of term t"""
        t = self.truth(t, st)
        return self._split(t, st)

    def _split(self, t, st):
        k = t[0]
        if k == 'c':
            return [(st, bool(t[2]))]
        if k == 'not':
            return [(s, not b) for s, b in self._split(t[1], st)]
        if k == 'or':
            out = []
            cur = [st]
            for x in t[1]:
                nxt = []
                for s in cur:
                    for s1, b in self._split(x, s):
                        (out.append((s1, True)) if b else nxt.append(s1))
                cur = nxt
            return out + [(s, False) for s in cur]
        if k == 'and':
            out = []
            cur = [st]
            for x in t[1]:
                nxt = []
                for s in cur:
                    for s1, b in self._split(x, s):
                        (nxt.append(s1) if b else out.append((s1, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        d = self.decide_atom(t, st)
        if d is not None:
            return [(st, d)]
        s1, s2 = st, st.copy()
        out = []
        for s, b in ((s1, True), (s2, False)):
            self.assume(s, t, b)
            out.append((s, b))
        return out

    def assume(self, st, atom, b):
        st.facts[atom] = b
        if atom[0] == 'eq' and b:
            pass

    def decide_atom(self, t, st):
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k == 'not':
            d = self.decide_atom(t[1], st)
            return None if d is None else not d
        if t in st.facts:
            return st.facts[t]
        if k == 'eq':
            a, b = t[1], t[2]
            if a == b:
                return True
            if is_c(a) and is_c(b):
                return a[2] == b[2]
            if self.numericish(a) and self.numericish(b):
                d = poly_const(p_sub(a, b))
                if d is not None:
                    return d == 0
                r = self.residue(a, b)
                if r is not None:
                    for f, v in st.facts.items():
                        if v and f[0] == 'eq':
                            q = self.residue(f[1], f[2])
                            if q is not None and q[1] == r[1]:
                                d = poly_const(p_sub(q[0], r[0]))
                                if d is not None and d == int(d):
                                    return int(d) % r[1] == 0
            x, c = (a, b) if is_c(b) else ((b, a) if is_c(a) else (None, None))
            if x is not None and x[0] == 'out' and x[1] in self.loops:
                L = self.loops[x[1]]
                vals = L.outvals.get(x[2])
                if vals is not None:
                    if c not in vals:
                        return False
                    if L.space and self.nonempty(L.space, st):
                        after = L.after.get(x[2], vals)
                        if c not in after:
                            return False
                        if len(after) == 1:
                            return True
            if x is not None:
                for f, v in st.facts.items():
                    if f[0] == 'eq' and v:
                        o = f[2] if f[1] == x else (f[1] if f[2] == x else None)
                        if o is not None and is_c(o):
                            return o[2] == c[2]
                if x[0] in ('obj', 'dict', 'list', 'set', 'tuple', 'closure', 'func') and not isinstance(c[2], (tuple, list)):
                    return False
                if x[0] == 'cat':
                    if isinstance(c[2], (str, bytes)) and self.truth(x, st) == TRUE and len(c[2]) == 0:
                        return False
                    if c[1] in ('NoneType', 'int', 'float', 'bool'):
                        return False
        if k == 'isnone':
            x = t[1]
            if x == NONE:
                return True
            if x[0] in ('c', 'obj', 'dict', 'list', 'set', 'tuple', 'cat', 'poly', 'closure', 'func', 'class', 'glob', 'ind', 'snap', 'range', 'comp', 'builtin', 'type'):
                return False
            if x[0] == 'fn' and x[1] in ('copy', 'scopy', 'round', 'len', 'str', 'list', 'dict', 'sorted', 'int', 'float'):
                return False
            ty = self.types.get(x)
            if isinstance(ty, frozenset) and 'NoneType' not in ty:
                return False
            if st.facts.get(('truthy', x)) is True:
                return False
            for f, v in st.facts.items():
                if v and f[0] == 'inst' and f[1] == x:
                    return False
                if v and f[0] == 'eq' and (f[1] == x or f[2] == x):
                    o = f[2] if f[1] == x else f[1]
                    if is_c(o):
                        return o == NONE
        if k == 'truthy':
            x = t[1]
            if st.facts.get(('isnone', x)) is True:
                return False
            for f, v in st.facts.items():
                if v and f[0] == 'eq' and (f[1] == x or f[2] == x):
                    o = f[2] if f[1] == x else f[1]
                    if is_c(o):
                        return bool(o[2])
                if f[0] == 'lt0' and v and f[1] == p_neg(fn('len', x)):
                    return True
        if k == 'lt0':
            d = poly_const(t[1])
            if d is not None:
                return d < 0
            # ind >= 0
            p = to_poly(t[1])
            if all(c >= 0 for c in p.values()) and all(
                    m == () or all(self.nonneg(a) for a, e in m) for m in p):
                return False
            for f, v in st.facts.items():
                if f[0] == 'lt0':
                    d = poly_const(p_sub(t[1], f[1]))
                    if d is not None:
                        if v and d <= 0:
                            return True
                        if not v and d >= 0:
                            return False
                    d = poly_const(p_add(t[1], f[1]))    # t = -f + d
                    if d is not None:
                        if v and d >= 0:
                            return False    # f<0 -> -f>0 -> t > d >= 0
                        if not v and d < 0:
                            return True     # f>=0 -> -f<=0 -> t <= d < 0
                if f[0] == 'eq' and v:
                    d = poly_const(p_sub(t[1], p_sub(f[1], f[2]))) if self.numericish(f[1]) and self.numericish(f[2]) else None
                    if d is not None:
                        return d < 0
                    d = poly_const(p_add(t[1], p_sub(f[1], f[2]))) if self.numericish(f[1]) and self.numericish(f[2]) else None
                    if d is not None:
                        return d < 0
        if k == 'in':
            x, c = t[1], t[2]
            if c[0] == 'dict':
                r = self.dict_has(c, x, st)
                if r is not None:
                    return r
            if ('i', c, x) in st.heap:
                return True
        if k == 'inst':
            x, cname = t[1], t[2]
            return self.inst_of(x, cname, st)
        return None

    def residue(self, a, b):
        """(p, k) when the equality a == b says that k divides p"""
        for x, y in ((a, b), (b, a)):
            if y[0] == 'fn' and y[1] == 'mod' and is_c(x) and is_c(y[2][1]) and isinstance(y[2][1][2], int) and isinstance(x[2], int) \
                    and 0 <= x[2] < y[2][1][2]:
                return p_sub(y[2][0], x), y[2][1][2]
        return None

    def nonempty(self, space, st):
        if st.facts.get(('truthy', space)) is True:
            return True
        if st.facts.get(('lt0', p_neg(fn('len', space)))) is True:
            return True
        if st.facts.get(('eq', C(0), fn('len', space))) is False or st.facts.get(('eq', fn('len', space), C(0))) is False:
            return True
        if space[0] == 'comp' and len(space) > 4 and space[4] is None and space[2] is not None and space[2] != space:
            return self.nonempty(space[2], st)
        if space[0] == 'enumerate':
            return self.nonempty(space[1], st)
        if space[0] == 'fn' and space[1] in ('list', 'tuple', 'sorted', 'reversed', 'copy', 'scopy') and space[2]:
            return self.nonempty(space[2][0], st)
        n = poly_const(self.len_of(space, st)) if space[0] in ('list', 'tuple') else None
        return n is not None and n > 0

    def nonneg(self, a):
        if a[0] in ('ind', 'niter'):
            return True
        if a[0] == 'fn' and a[1] in ('len', 'mod', 'abs'):
            return True
        return False

    def inst_of(self, x, cname, st):
        ty = self.type_name(x)
        if ty is not None:
            if ty == 'Number':
                if cname in ('int', 'float'):
                    return None
                return False if cname in ('str', 'bytes', 'list', 'tuple', 'dict', 'set', 'bool') or cname in self.prog.classes else None
            sup = {ty} | SUPER.get(ty, set())
            if ty in self.prog.classes:
                sup |= {c.name for c in self.prog.mro(self.prog.classes[ty])}
                for c in self.prog.mro(self.prog.classes[ty]):
                    sup |= set(x for x in c.base_names if x)
            if cname in sup:
                return True
            # declared type may be a superclass of the runtime class
            if cname in self.prog.classes and ty in self.prog.classes and \
                    self.prog.classes[ty] in self.prog.mro(self.prog.classes[cname]):
                return None
            if x[0] in ('sym', 'attr', 'idx', 'call', 'head', 'out', 'get') and x not in self.types.get('exact', ()):
                if ty in self.prog.classes or ty in BUILTIN_TYPES:
                    if x in self.exact:
                        return False
                    return None
            return False
        # exclusive facts
        for f, v in st.facts.items():
            if v and f[0] == 'inst' and f[1] == x and f[2] != cname:
                a, b = f[2], cname
                if b in SUPER.get(a, ()):
                    return True
                if a in BUILTIN_TYPES and b in BUILTIN_TYPES and a not in SUPER.get(b, ()):
                    return False
                if (a in self.prog.classes) != (b in self.prog.classes) and b not in SUPER.get(a, ()) and a not in SUPER.get(b, ()):
                    return False
            if not v and f[0] == 'inst' and f[1] == x:
                if f[2] in SUPER.get(cname, ()):
                    return False
            if v and f[0] == 'isnone' and f[1] == x:
                return False
            if v and f[0] == 'eq' and x in (f[1], f[2]):
                o = f[2] if f[1] == x else f[1]
                if is_c(o):
                    return o[1] == cname or cname in SUPER.get(o[1], ())
        return None

    exact = frozenset()

    def truth(self, t, st):
        """normalise a term in boolean position to an atom"""
        k = t[0]
        if k in ('not', 'and', 'or', 'eq', 'lt0', 'isnone', 'in', 'inst', 'truthy'):
            if k == 'not':
                x = self.truth(t[1], st)
                return FALSE if x == TRUE else TRUE if x == FALSE else ('not', x)
            return t
        if k == 'c':
            return TRUE if t[2] else FALSE
        if k in ('obj', 'closure', 'func', 'class', 'bound'):
            return TRUE
        if k == 'tuple':
            return TRUE if t[1] else FALSE
        if k == 'cat':
            if any(p[0] == 'lit' and p[1] for p in t[2]):
                return TRUE
            if len(t[2]) == 1 and t[2][0][0] == 'hole' and t[2][0][2] == '' and self.kind_of(t[2][0][1]) == t[1]:
                return ('truthy', t[2][0][1])
            return ('truthy', t)
        if k == 'list':
            items = st.heap.get(('L', t[1]), ())
            if any(x[0] not in ('unk', 'star') for x in items):
                return TRUE
            if not items:
                return FALSE
            return ('truthy', t)
        if k == 'dict':
            f = self.flat_dict(t, st)
            if f is not None:
                return TRUE if f else FALSE
            return ('truthy', t)
        if k == 'fn' and t[1] == 'len':
            return ('truthy', t[2][0])
        if k == 'fn' and t[1] == 'bool':
            return self.truth(t[2][0], st)
        if k == 'poly':
            d = poly_const(t)
            if d is not None:
                return TRUE if d else FALSE
            return ('not', self.mk_eq(t, C(0), st))
        if self.kind_of(t) == 'num' and k in ('ind', 'head'):
            return ('not', self.mk_eq(t, C(0), st))
        if ('n', t) in st.heap:
            n = st.heap[('n', t)]
            d = poly_const(n)
            if d is not None and d > 0:
                return TRUE
            if d != 0:
                return ('truthy', fn('ver', t, n))
        return ('truthy', t)

    def numericish(self, t):
        if is_num_c(t) and t[1] != 'bool':
            return True
        if t[0] in ('poly', 'ind', 'niter'):
            return True
        k = self.kind_of(t)
        if k in ('num',):
            return True
        return k is None and t[0] in ('sym', 'attr', 'idx', 'fn', 'call', 'get', 'head', 'out')

    def mk_eq(self, a, b, st):
        if a == b:
            return TRUE
        if is_c(a) and is_c(b):
            return TRUE if a[2] == b[2] else FALSE
        if a[0] in ('list', 'tuple') and b[0] in ('list', 'tuple', 'c'):
            if a[0] != b[0]:
                return FALSE
            xs, ys = self.concrete_items(a, st), self.concrete_items(b, st)
            if xs is not None and ys is not None:
                if len(xs) != len(ys):
                    return FALSE
                got = [self.mk_eq(x, y, st) for x, y in zip(xs, ys)]
                if FALSE in got:
                    return FALSE
                if all(g == TRUE for g in got):
                    return TRUE
        # strings/containers against empty literals
        for x, y in ((a, b), (b, a)):
            if is_c(y) and y[2] in ('', b'') and isinstance(y[2], (str, bytes)):
                if self.kind_of(x) in ('s', 'b'):
                    r = self.truth(x, st)
                    return FALSE if r == TRUE else TRUE if r == FALSE else ('not', r)
            if is_c(y) and y[1] == 'int' and y[2] == 0 and x[0] == 'fn' and x[1] == 'len':
                r = self.truth(x[2][0], st)
                return FALSE if r == TRUE else TRUE if r == FALSE else ('not', r)
            if is_c(y) and y[1] == 'bool' and self.kind_of(x) == 'bool':
                r = self.truth(x, st)
                if r[0] == 'c':
                    return TRUE if bool(r[2]) == y[2] else FALSE
                return r if y[2] else ('not', r)
            if y == NONE and self.class_of(x) is None:
                return ('isnone', x) if self.decide_atom(('isnone', x), st) is None else C(self.decide_atom(('isnone', x), st))
        if self.numericish(a) and self.numericish(b) and (a[0] == 'poly' or b[0] == 'poly' or
                                                         self.kind_of(a) == 'num' or self.kind_of(b) == 'num'):
            d = p_sub(a, b)
            c = poly_const(d)
            if c is not None:
                return TRUE if c == 0 else FALSE
            p = to_poly(d)
            # canonical: x == rest where x is a single atom when possible
            first = sorted(p.items(), key=lambda kv: repr(kv[0]))
            lead = [kv for kv in first if kv[0] != ()][0]
            d = from_poly({m: v / lead[1] for m, v in p.items()})
            rest = p_sub(from_poly({lead[0]: lead[1] / lead[1]}), d)
            x = from_poly({lead[0]: lead[1] / lead[1]})
            a, b = x, rest
        if repr(b) < repr(a):
            a, b = b, a
        return ('eq', a, b)

    def mk_lt(self, a, b, st):
        d = p_sub(a, b)
        c = poly_const(d)
        if c is not None:
            return TRUE if c < 0 else FALSE
        # 0 < len(x)
        if is_num_c(a) and a[2] == 0 and b[0] == 'fn' and b[1] == 'len':
            return self.truth(b, st)
        if is_num_c(b) and b[2] == 1 and a[0] == 'fn' and a[1] == 'len':
            r = self.truth(a, st)
            return FALSE if r == TRUE else TRUE if r == FALSE else ('not', r)
        return ('lt0', d)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.mk_eq(a, b, st)
            neg = isinstance(op, ast.NotEq)
        elif isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                t = ('isnone', x)
                d = self.decide_atom(t, st)
                if d is not None:
                    t = TRUE if d else FALSE
            elif a == b:
                t = TRUE
            elif is_c(b) and b[1] == 'bool':
                t = ('eq', a, b) if not is_c(a) else C(a == b)
                if self.kind_of(a) == 'bool':
                    t = self.mk_eq(a, b, st)
            elif a[0] == 'fn' and a[1] == 'type' and b[0] in ('class', 'type'):
                x = a[2][0]
                ty = self.type_name(x)
                t = C(ty == b[1]) if ty is not None else ('inst', x, b[1])
            else:
                t = ('is', a, b)
        elif isinstance(op, ast.Lt):
            t, neg = self.mk_lt(a, b, st), False
        elif isinstance(op, ast.Gt):
            t, neg = self.mk_lt(b, a, st), False
        elif isinstance(op, ast.LtE):
            t, neg = self.mk_lt(b, a, st), True
        elif isinstance(op, ast.GtE):
            t, neg = self.mk_lt(a, b, st), True
        elif isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            t = self.contains_t(a, b, st)
        else:
            t, neg = fn('cmp' + type(op).__name__, a, b), False
        if neg:
            t = FALSE if t == TRUE else TRUE if t == FALSE else (t[1] if t[0] == 'not' else ('not', t))
        return t

    def contains_t(self, a, b, st):
        items = self.concrete_items(b, st) if b[0] in ('tuple', 'list', 'set', 'range') or (b[0] == 'set') else None
        if b[0] == 'set':
            s = st.heap.get(('S', b[1]))
            if s is not None and not any(x[0] in ('unk', 'star') for x in s):
                items = list(s)
        if items is not None and len(items) <= 12:
            alts = []
            for x in items:
                e = self.mk_eq(a, x, st)
                if e == TRUE:
                    return TRUE
                if e == FALSE:
                    continue
                alts.append(e)
            if not alts:
                return FALSE
            return alts[0] if len(alts) == 1 else ('or', tuple(alts))
        if is_c(b) and is_c(a) and isinstance(b[2], (str, bytes)):
            try:
                return TRUE if a[2] in b[2] else FALSE
            except TypeError:
                pass
        if b[0] in ('keys',):
            b = b[1]
        if b[0] == 'glob' and self.fold_globals and is_c(a):
            keys = self.glob_keys(b)
            if keys is not None:
                try:
                    return TRUE if a[2] in keys else FALSE
                except TypeError:
                    pass
        if b[0] == 'dict':
            r = self.dict_has(b, a, st)
            if r is not None:
                return TRUE if r else FALSE
        cls = self.class_of(b)
        if cls is not None:
            m = self.prog.find_method(cls, '__contains__')
            if m is not None:
                vals = self.call_method(st.copy(), m, b, [a], {}, None)
                if len(vals) == 1:
                    return self.truth(vals[0][1], st)
        return ('in', a, b)

    # ================================================================ kinds / classes
    def class_of(self, t):
        k = t[0]
        if k == 'obj':
            return self.prog.classes.get(t[1])
        ty = self.type_name(t)
        return self.prog.classes.get(ty) if isinstance(ty, str) else None

    def type_name(self, t):
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'obj':
            return t[1]
        if t in self.types:
            x = self.types[t]
            return x if isinstance(x, str) else None
        if k in ('list', 'dict', 'set', 'tuple'):
            return k
        if k == 'cat':
            return 'str' if t[1] == 's' else 'bytes'
        if k == 'poly':
            return 'Number'
        if k == 'comp':
            return 'list'
        if k == 'attr':
            c = self.class_of(t[1])
            if c is not None:
                return self.prog.attr_type(c.name, t[2])
        if k == 'idx':
            b = t[1]
            if b in self.elem_types:
                return self.elem_types[b]
            if b[0] == 'attr':
                c = self.class_of(b[1])
                if c is not None:
                    return self.prog.elem_type(c.name, b[2])
        if k == 'call':
            f = None
            q = t[1]
            if self.prog.has_func(q):
                f = self.prog.func(q)
                return self.prog.func_ret_type(f)
        if k == 'fn' and t[1] in STR_RET:
            return 'str'
        if k == 'fn' and t[1] in ('round', 'len', 'int', 'float', 'abs', 'sum', 'mod', 'floordiv', 'min', 'max', 'ord'):
            return 'Number'
        if k == 'fn' and t[1] in ('copy', 'scopy'):
            ty = self.type_name(t[2][0])
            return ty
        if k == 'fn' and t[1] == 'encode':
            return 'bytes'
        return None

    def kind_of(self, t):
        if t in self.kinds:
            return self.kinds[t]
        ty = self.type_name(t)
        return {'str': 's', 'bytes': 'b', 'int': 'num', 'float': 'num', 'Number': 'num', 'bool': 'bool',
                'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple', 'NoneType': 'none',
                'PDFRef': 'num', 'Fraction': 'num'}.get(ty)

    # ================================================================ expressions
    def eval(self, e, st):
        if st.exc is not None:
            return [(st, ('bot',))]
        self.steps += 1
        if self.steps > 3000000:
            raise TooComplex('step budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise TooComplex('expression %s in %s' % (type(e).__name__, self.fi.qual if self.fi else '?'))
        if self.exact_try and isinstance(e, (ast.Call, ast.Subscript)):
            res = m(e, st)
            for s, v in res:
                if v[0] in ('fn', 'call', 'idx', 'unk', 'sym', 'get'):
                    if v[0] == 'fn' and v[1] in ('float', 'int', 'round', 'len', 'abs') and len(v[2]) and (
                            s.facts.get(('inst', v[2][0], 'float')) or s.facts.get(('inst', v[2][0], 'int')) or v[1] == 'len'):
                        continue
                    self.risk += 1
            return res
        return m(e, st)

    def eval_many(self, exprs, st):
        """[(state, [terms])]"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                if s.exc is not None:
                    nxt.append((s, vs + [('bot',)]))
                    continue
                for s1, v in self.eval(e, s):
                    nxt.append((s1, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return [(st, ('sym', '...'))]
        return [(st, C(v))]

    def e_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        return [(st, self.global_name(e.id, st))]

    def global_name(self, name, st):
        mod = self.fi.module if self.fi else None
        if mod is not None:
            r = self.prog.resolve_name(mod, name)
            if r is not None:
                return self.resolved(r)
        if name in BUILTIN_TYPES:
            return ('type', name)
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        return ('builtin', name)

    def resolved(self, r):
        k = r[0]
        if k == 'func':
            return ('func', r[1].qual)
        if k == 'class':
            return ('class', r[1].name)
        if k == 'global':
            return self.glob_const(r[1], r[2])
        if k == 'mod':
            return ('pkgmod', r[1].name)
        return ('extmod', r[1])

    def glob_const(self, mod, name):
        v = mod.globals[name]
        if (mod.name, name) in self.glob_values:
            return self.glob_values[(mod.name, name)]
        t = self.literal(v, mod)
        return t if t is not None else ('glob', mod.name, name)

    def literal(self, v, mod):
        if isinstance(v, ast.Constant):
            return C(v.value)
        if isinstance(v, ast.Tuple):
            xs = [self.literal(x, mod) for x in v.elts]
            if all(x is not None for x in xs):
                return ('tuple', tuple(xs))
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            a, b = self.literal(v.left, mod), self.literal(v.right, mod)
            if a and b and a[0] == b[0] == 'tuple':
                return ('tuple', a[1] + b[1])
        if isinstance(v, ast.Name):
            r = self.prog.resolve_name(mod, v.id)
            if r and r[0] == 'global':
                return self.glob_const(r[1], r[2])
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
            return C(-v.operand.value)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'compile' \
                and isinstance(v.func.value, ast.Name) and v.func.value.id == 're' and v.args and \
                isinstance(v.args[0], ast.Constant):
            return ('regex', C(v.args[0].value))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'maketrans' \
                and v.args and isinstance(v.args[0], ast.Dict):
            try:
                return ('trtab', tuple(sorted((k if isinstance(k, str) else chr(k), w) for k, w in
                                              ast.literal_eval(v.args[0]).items())))
            except (ValueError, TypeError):
                return None
        return None

    def glob_literal_dict(self, t, st):
        """materialise a module-level dict literal into an allocated dict (for copies)"""
        mod = self.prog.modules[t[1]]
        v = mod.globals.get(t[2])
        if isinstance(v, ast.Dict) and len(v.keys) <= 40:
            layers = []
            for k, x in zip(v.keys, v.values):
                kk = self.literal(k, mod) if k is not None else None
                xx = self.literal(x, mod)
                if kk is None or xx is None:
                    return None
                layers.append(('kv', kk, xx))
            return tuple(layers)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args:
            layers = []
            for kw in v.keywords:
                xx = self.literal(kw.value, mod)
                if kw.arg is None or xx is None:
                    return None
                layers.append(('kv', C(kw.arg), xx))
            return tuple(layers)
        return None

    def e_Attribute(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            if s.exc is not None:
                out.append((s, ('bot',)))
                continue
            out.extend(self.get_attr(s, b, e.attr, e))
        return out

    def get_attr(self, st, b, name, e):
        key = ('a', b, name)
        if key in st.heap:
            return [(st, st.heap[key])]
        if b[0] == 'pkgmod':
            r = self.prog.resolve_name(self.prog.modules[b[1]], name)
            return [(st, self.resolved(r) if r else ('sym', b[1] + '.' + name))]
        if b[0] == 'extmod':
            return [(st, ('extmod', b[1] + '.' + name))]
        if b[0] == 'class':
            c = self.prog.classes[b[1]]
            m = self.prog.find_method(c, name)
            if m is not None:
                return [(st, ('unbound', m.qual))]
            ca = self.prog.find_class_attr(c, name)
            if ca:
                return [(st, ('classattr', ca[0].name, name))]
            return [(st, ('attr', b, name, 0))]
        if b[0] == 'super':
            return [(st, ('superm', b[1], b[2], name))]
        cls = self.class_of(b)
        if cls is not None:
            g = self.prog.find_method(cls, name, 'getters')
            if g is not None and (g.qual not in self.opaque or not g.known):
                if g.qual in [x.qual for x in self.stack]:
                    return [(st, ('attr', b, name, 0))]
                return self.call_method(st, g, b, [], {}, e)
            if g is None:
                m = self.prog.find_method(cls, name)
                if m is not None:
                    return [(st, ('bound', b, m.qual))]
                ca = self.prog.find_class_attr(cls, name)
                if ca:
                    return [(st, ('classattr', ca[0].name, name))]
        ep = st.epoch.get(name, 0)
        t = ('attr', b, name, ep)
        return [(st, t)]

    def e_Subscript(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            if isinstance(e.slice, ast.Slice):
                sl = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                cur = [(s, [])]
                for x in sl:
                    nxt = []
                    for s1, vs in cur:
                        if x is None:
                            nxt.append((s1, vs + [NONE]))
                        else:
                            for s2, v in self.eval(x, s1):
                                nxt.append((s2, vs + [v]))
                    cur = nxt
                for s1, vs in cur:
                    out.append((s1, self.slice(b, vs, s1)))
            else:
                for s1, k in self.eval(e.slice, s):
                    if s1.exc is not None:
                        out.append((s1, ('bot',)))
                        continue
                    cls = self.class_of(b)
                    m = cls and self.prog.find_method(cls, '__getitem__')
                    if m:
                        out.extend(self.call_method(s1, m, b, [k], {}, e))
                    else:
                        out.append((s1, self.index(b, k, s1)))
        return out

    def slice(self, b, vs, st):
        items = self.concrete_items(b, st) if b[0] in ('tuple', 'list') else None
        if items is not None and all(v == NONE or (is_c(v) and isinstance(v[2], int)) for v in vs):
            r = items[slice(*[v[2] for v in vs])]
            if b[0] == 'tuple':
                return ('tuple', tuple(r))
            return self.new_list(st, r)
        if b[0] == 'c' and isinstance(b[2], (str, bytes)) and all(v == NONE or (is_c(v) and isinstance(v[2], int)) for v in vs):
            return C(b[2][slice(*[v[2] for v in vs])])
        t = ('slice', b) + tuple(vs)
        k = self.kind_of(b)
        if k:
            self.kinds[t] = k
        return t

    def index(self, b, k, st):
        if ('i', b, k) in st.heap:
            return st.heap[('i', b, k)]
        if b[0] == 'tuple' and is_c(k) and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]):
            return b[1][k[2]]
        if b[0] == 'list':
            items = st.heap.get(('L', b[1]))
            if items and is_c(k) and isinstance(k[2], int):
                i = k[2]
                if i < 0 and -i <= len(items) and not any(x[0] in ('unk', 'star') for x in items[i:]):
                    return items[i]
                if i >= 0 and i < len(items) and not any(x[0] in ('unk', 'star') for x in items[:i + 1]):
                    return items[i]
        if b[0] == 'dict':
            v = self.dict_get(b, k, None, st)
            if v is not None:
                return v
        if b[0] == 'c' and isinstance(b[2], (str, bytes, tuple)) and is_c(k) and isinstance(k[2], int):
            try:
                return C(b[2][k[2]])
            except IndexError:
                return ('bot',)
        if b[0] == 'comp' and b[4] is None and b[0] == 'comp':
            return subst(b[3], lambda t: k if t == b[1] else None)
        if b[0] == 'fn' and b[1] in ('copy', 'scopy'):
            return self.index(b[2][0], k, st)
        if ('v', b) in st.heap:
            b = fn('ver', b, st.heap[('v', b)])
        t = ('idx', b, k)
        if b[0] == 'call' or self.kind_of(b) == 's':
            if self.kind_of(b) == 's':
                self.kinds[t] = 's'
        if b[0] == 'glob' and is_c(k):
            mod = self.prog.modules[b[1]]
            v = mod.globals.get(b[2])
            if isinstance(v, ast.Dict):
                for kk, vv in zip(v.keys, v.values):
                    if isinstance(kk, ast.Constant) and kk.value == k[2]:
                        l = self.literal(vv, mod)
                        if l is not None:
                            return l
                        if self.fold_globals and isinstance(vv, ast.List):
                            xs = [self.literal(x, mod) for x in vv.elts]
                            if all(x is not None for x in xs):
                                return self.new_list(st, xs)
            if self.fold_globals:
                keys = self.glob_keys(b)
                if keys is not None and isinstance(v, ast.Dict) and k[2] not in keys:
                    st.exc = ('call', 'KeyError', (), (), 0)
                    return ('bot',)
        return t

    fold_globals = False        # module-level literals are taken as constants

    def glob_keys(self, b):
        """the keys or elements of a module-level literal"""
        v = self.prog.modules[b[1]].globals.get(b[2])
        xs = v.keys if isinstance(v, ast.Dict) else v.elts if isinstance(v, (ast.List, ast.Set, ast.Tuple)) else None
        if xs is None or not all(isinstance(x, ast.Constant) for x in xs):
            return None
        try:
            return {x.value for x in xs}
        except TypeError:
            return None

    def e_Tuple(self, e, st):
        return self._seq(e, st, 'tuple')

    def e_List(self, e, st):
        return self._seq(e, st, 'list')

    def e_Set(self, e, st):
        return self._seq(e, st, 'set')

    def _seq(self, e, st, kind):
        out = []
        cur = [(st, [])]
        for x in e.elts:
            nxt = []
            for s, vs in cur:
                if isinstance(x, ast.Starred):
                    for s1, v in self.eval(x.value, s):
                        items = self.concrete_items(v, s1)
                        if items is not None:
                            nxt.append((s1, vs + items))
                        elif v[0] == 'list':
                            nxt.append((s1, vs + list(s1.heap.get(('L', v[1]), ()))))
                        else:
                            nxt.append((s1, vs + [('unk', v)]))
                else:
                    for s1, v in self.eval(x, s):
                        nxt.append((s1, vs + [v]))
            cur = nxt
        for s, vs in cur:
            if kind == 'tuple':
                if any(v[0] == 'unk' for v in vs):
                    out.append((s, fn('tuplecat', *vs)))
                else:
                    out.append((s, ('tuple', tuple(vs))))
            elif kind == 'list':
                out.append((s, self.new_list(s, vs)))
            else:
                t = ('set', self.new_id())
                s.heap[('S', t[1])] = tuple(vs)
                out.append((s, t))
        return out

    def new_list(self, st, items):
        t = ('list', self.new_id())
        st.heap[('L', t[1])] = tuple(items)
        return t

    def new_dict(self, st, layers=()):
        t = ('dict', self.new_id())
        st.heap[('D', t[1])] = tuple(layers)
        return t

    def e_Dict(self, e, st):
        cur = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, layers in cur:
                if k is None:
                    for s1, d in self.eval(v, s):
                        nxt.append((s1, layers + self.layers_of(d, s1)))
                else:
                    for s1, kv in self.eval_many([k, v], s):
                        nxt.append((s1, layers + (('kv', kv[0], kv[1]),)))
            cur = nxt
        return [(s, self.new_dict(s, layers)) for s, layers in cur]

    def layers_of(self, d, st):
        if d[0] == 'dict':
            return st.heap.get(('D', d[1]), ())
        if d[0] == 'glob':
            l = self.glob_literal_dict(d, st)
            if l is not None:
                return l
        if d[0] == 'fn' and d[1] in ('copy', 'scopy'):
            inner = self.layers_of(d[2][0], st)
            return inner
        if d == NONE:
            return ()
        # overlay of known writes on an unknown dict
        over = tuple(('kv', k[2], v) for k, v in st.heap.items() if k[0] == 'i' and k[1] == d)
        return (('upd', d),) + over

    def dict_get(self, d, k, default, st):
        """value of key in an allocated dict; `default` None means plain indexing"""
        layers = st.heap.get(('D', d[1]), ())
        return self.layer_get(layers, k, default, st)

    def layer_get(self, layers, k, default, st):
        for i in range(len(layers) - 1, -1, -1):
            l = layers[i]
            if l[0] == 'kv':
                if l[1] == k:
                    return l[2]
                if const_key(l[1]) and const_key(k):
                    continue
                return None if default is None else ('get', ('snap', layers), k, default)
            elif l[0] == 'del':
                if l[1] == k:
                    return default
                if const_key(l[1]) and const_key(k):
                    continue
                return None if default is None else ('get', ('snap', layers), k, default)
            else:
                rest = layers[:i + 1]
                if len(rest) == 1 and l[0] == 'upd':
                    src = l[1]
                    has = st.facts.get(('in', k, src)) if st is not None else None
                    if has is True or default is None:
                        return ('idx', src, k)
                    if has is False:
                        return default
                    return ('get', src, k, default)
                return ('get', ('snap', rest), k, default if default is not None else ('nodefault',))
        return default

    def dicts_differ(self, a, b, st):
        fa, fb = self.flat_dict(a, st), self.flat_dict(b, st)
        if fa is None or fb is None:
            return False
        fa, fb = dict(fa), dict(fb)
        return set(fa) != set(fb) or any(self.mk_eq(fa[k], fb[k], st) == FALSE for k in fa)

    def equal_values(self, a, b, st, depth=0):
        """whether two values are equal as Python compares them; None if undecided"""
        if a == b:
            return True
        if depth < 6 and a[0] == b[0] == 'dict':
            fa, fb = self.flat_dict(a, st), self.flat_dict(b, st)
            if fa is None or fb is None:
                return None
            fa, fb = dict(fa), dict(fb)
            if set(fa) != set(fb):
                return False
            got = [self.equal_values(fa[k], fb[k], st, depth + 1) for k in fa]
        elif depth < 6 and a[0] == b[0] == 'list':
            fa, fb = self.concrete_items(a, st), self.concrete_items(b, st)
            if fa is None or fb is None:
                return None
            if len(fa) != len(fb):
                return False
            got = [self.equal_values(x, y, st, depth + 1) for x, y in zip(fa, fb)]
        else:
            t = self.mk_eq(a, b, st)
            return True if t == TRUE else False if t == FALSE else None
        return False if False in got else None if None in got else True

    def dict_has(self, d, k, st):
        layers = st.heap.get(('D', d[1]), ())
        for l in reversed(layers):
            if l[0] == 'kv':
                if l[1] == k:
                    return True
                if const_key(l[1]) and const_key(k):
                    continue
                return None
            elif l[0] == 'del':
                if l[1] == k:
                    return False
                if const_key(l[1]) and const_key(k):
                    continue
                return None
            elif l[0] == 'upd':
                if self.decide_atom(('in', k, l[1]), st) is True:
                    return True
                return None if self.decide_atom(('in', k, l[1]), st) is None or len(layers) > 1 else False
            else:
                return None
        return False

    def dict_update(self, st, d, src, n):
        if d[0] == 'dict':
            if src[0] in ('list', 'tuple', 'comp'):
                add = (('upd', src),)
            else:
                add = self.layers_of(src, st)
            st.heap[('D', d[1])] = st.heap.get(('D', d[1]), ()) + add
            for k in [x for x in st.heap if x[0] == 'i' and x[1] == d]:
                del st.heap[k]
        else:
            for l in self.layers_of(src, st) if src[0] == 'dict' else ():
                if l[0] == 'kv':
                    st.heap[('i', d, l[1])] = l[2]
        self.ev(st, 'mut', (d, 'update', (src,)), n)

    def touch(self, st, b, delta):
        """the length of an unknown list changes by delta (None: unknown amount); its known elements are forgotten"""
        if delta is None:
            st.heap[('n', b)] = ('sym', 'ver', self.new_id())
            self.kinds[st.heap[('n', b)]] = 'num'
        else:
            st.heap[('n', b)] = p_add(st.heap.get(('n', b), C(0)), delta)
        for k in [k for k in st.heap if k[0] == 'i' and k[1] == b]:
            del st.heap[k]

    def list_extend(self, st, l, v, n):
        items = self.concrete_items(v, st)
        if l[0] != 'list':
            self.touch(st, l, self.len_of(v, st))
        if items is None:
            if v[0] == 'list':
                items = list(st.heap.get(('L', v[1]), ()))
            else:
                items = [('unk', v)]
        if l[0] == 'list':
            st.heap[('L', l[1])] = st.heap.get(('L', l[1]), ()) + tuple(items)
        self.ev(st, 'mut', (l, 'extend', (v,)), n)

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.eval_many([e.left, e.right], st):
            if s.exc is not None:
                out.append((s, ('bot',)))
                continue
            out.append((s, self.binop(e.op, a, b, s, e)))
        return out

    def binop(self, op, a, b, st, n):
        if isinstance(op, ast.Add):
            ka, kb = self.kind_of(a), self.kind_of(b)
            if ka in ('s', 'b') or kb in ('s', 'b'):
                k = ka if ka in ('s', 'b') else kb
                return mk_cat(k, as_parts(a, k) + as_parts(b, k))
            if a[0] in ('list',) or b[0] == 'list' or ka == 'list' or kb == 'list':
                items = []
                for x in (a, b):
                    if x[0] == 'list':
                        items.extend(st.heap.get(('L', x[1]), ()))
                    else:
                        c = self.concrete_items(x, st)
                        items.extend(c if c is not None else [('unk', x)])
                return self.new_list(st, items)
            if a[0] == 'tuple' and b[0] == 'tuple':
                return ('tuple', a[1] + b[1])
            if ka == 'set' or kb == 'set':
                return fn('setop', a, b)
            return p_add(a, b)
        if isinstance(op, ast.Sub):
            if self.kind_of(a) == 'set' or self.kind_of(b) == 'set':
                return fn('setminus', a, b)
            return p_sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'list':
                    c = self.concrete_items(x, st)
                    if c is not None and is_c(y) and isinstance(y[2], int) and y[2] * len(c) <= 32:
                        return self.new_list(st, c * y[2])
                    return fn('listmul', x, y)
                if x[0] == 'tuple' and is_c(y) and isinstance(y[2], int):
                    return ('tuple', x[1] * y[2])
                if self.kind_of(x) == 'list':
                    return fn('listmul', x, y)
                if self.kind_of(x) in ('s', 'b'):
                    if is_c(x) and is_c(y):
                        return C(x[2] * y[2])
                    t = fn('strmul', x, y)
                    self.kinds[t] = self.kind_of(x)
                    return t
            return p_mul(a, b)
        if isinstance(op, ast.Div):
            return p_div(a, b)
        if isinstance(op, ast.Mod):
            if a[0] == 'c' and isinstance(a[2], (str, bytes)):
                return self.percent(a, b, st)
            if is_num_c(a) and is_num_c(b) and b[2]:
                return C(a[2] % b[2])
            return fn('mod', a, b)
        if isinstance(op, ast.FloorDiv):
            if is_num_c(a) and is_num_c(b) and b[2]:
                return C(a[2] // b[2])
            return fn('floordiv', a, b)
        if isinstance(op, ast.Pow):
            if is_num_c(b) and b[2] in (1, 2, 3):
                r = a
                for _ in range(int(b[2]) - 1):
                    r = p_mul(r, a)
                return r
            return fn('pow', a, b)
        if isinstance(op, ast.BitOr) and (a[0] == 'dict' or b[0] == 'dict'):
            return self.new_dict(st, self.layers_of(a, st) + self.layers_of(b, st))
        if is_c(a) and is_c(b):
            try:
                return C({ast.BitOr: lambda: a[2] | b[2], ast.BitAnd: lambda: a[2] & b[2],
                          ast.LShift: lambda: a[2] << b[2], ast.RShift: lambda: a[2] >> b[2],
                          ast.BitXor: lambda: a[2] ^ b[2]}[type(op)]())
            except (KeyError, TypeError):
                pass
        return fn('op' + type(op).__name__, a, b)

    def percent(self, a, b, st):
        s = a[2] if isinstance(a[2], str) else a[2].decode('latin')
        kind = 's' if isinstance(a[2], str) else 'b'
        args = list(b[1]) if b[0] == 'tuple' else [b]
        parts = []
        i = 0
        buf = ''
        ai = 0
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                j = i + 1
                while j < len(s) and s[j] in '0123456789.-+ #(':
                    j += 1
                c = s[j] if j < len(s) else ''
                if c == '%':
                    buf += '%'
                elif c in 'sdifgrx' and ai < len(args):
                    parts.append(('lit', buf))
                    buf = ''
                    spec = s[i + 1:j]
                    if c == 'd' and not spec and is_num_c(args[ai]) and int(args[ai][2]) != args[ai][2]:
                        parts.append(('lit', '%d' % args[ai][2]))
                    elif c in 'sd' and not spec:
                        parts.extend(self.fmt_hole(args[ai], '', kind))
                    elif c in 'sr' and not spec:
                        parts.append(('hole', args[ai], '!' + c))
                    else:
                        parts.append(('hole', args[ai], spec + c))
                    ai += 1
                else:
                    return fn('percent', a, b)
                i = j + 1
            else:
                buf += s[i]
                i += 1
        parts.append(('lit', buf))
        return mk_cat(kind, parts)

    def fmt_hole(self, v, spec, kind='s'):
        if spec == '':
            if v[0] == 'cat' and v[1] == kind:
                return v[2]
            if is_c(v) and v[1] in ('str',) and kind == 's':
                return (('lit', v[2]),)
            if is_c(v) and v[1] in ('int', 'float', 'bool', 'NoneType'):
                return (('lit', str(v[2])),)
            if v[0] == 'fn' and v[1] == 'str':
                return self.fmt_hole(v[2][0], '', kind)
            if v[0] == 'fn' and v[1] == 'format' and is_c(v[2][1]):
                return (('hole', v[2][0], v[2][1][2]),)
        return (('hole', v, spec),)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for s, t in self.eval(e.operand, st):
                a = self.truth(t, s)
                out.append((s, FALSE if a == TRUE else TRUE if a == FALSE else (a[1] if a[0] == 'not' else ('not', a))))
            return out
        out = []
        for s, t in self.eval(e.operand, st):
            if isinstance(e.op, ast.USub):
                out.append((s, p_neg(t)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, t))
            else:
                out.append((s, fn('invert', t)))
        return out

    def e_BoolOp(self, e, st):
        # value semantics of and/or
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                for s1, v in self.eval(x, s):
                    if last or s1.exc is not None:
                        out.append((s1, v))
                        continue
                    for s2, b in self.split(v, s1):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            if isand and self.kind_of(v) == 'bool' or v[0] in ('eq', 'lt0', 'not', 'in', 'isnone', 'inst', 'truthy', 'or', 'and'):
                                out.append((s2, C(b)))
                            else:
                                out.append((s2, v))
            cur = nxt
        return self.merge_vals(out)

    def e_Compare(self, e, st):
        if len(e.ops) > 1:
            return [(s, C(b)) for s, b in self.branch(e, st)]
        out = []
        for s, (a, b) in self.eval_many([e.left, e.comparators[0]], st):
            if s.exc is not None:
                out.append((s, ('bot',)))
                continue
            got = self.rich_compare(e.ops[0], a, b, s, e) if isinstance(e.ops[0], (ast.Eq, ast.NotEq)) else None
            out.extend(got if got is not None else [(s, self.compare(e.ops[0], a, b, s))])
        return out

    def rich_compare(self, op, a, b, st, e):
        """an == or != decided by a method of the program that the analysis follows"""
        for x, y in ((a, b), (b, a)):
            cls = self.class_of(x)
            if cls is None or cls.name + '.__eq__' not in self.inline_set:
                continue
            ne = self.prog.find_method(cls, '__ne__') if isinstance(op, ast.NotEq) else None
            m = ne or self.prog.find_method(cls, '__eq__')
            if m is None:
                return None
            out = []
            for s, v in self.call_method(st, m, x, [y], {}, e):
                if s.exc is not None:
                    out.append((s, v))
                    continue
                for s2, t in self.split(v, s):
                    out.append((s2, C(t if ne is not None or isinstance(op, ast.Eq) else not t)))
            return out
        return None

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.branch(e.test, st):
            out.extend(self.eval(e.body if b else e.orelse, s))
        return self.merge_vals(out)

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def e_JoinedStr(self, e, st):
        cur = [(st, ())]
        for p in e.values:
            nxt = []
            for s, parts in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, parts + (('lit', p.value),)))
                else:
                    spec = ''
                    if p.format_spec is not None:
                        vals = p.format_spec.values
                        if all(isinstance(v, ast.Constant) for v in vals):
                            spec = ''.join(v.value for v in vals)
                        else:
                            spec = '?'
                    conv = {115: '!s', 114: '!r', 97: '!a'}.get(p.conversion, '')
                    for s1, v in self.eval(p.value, s):
                        if conv == '!s':
                            nxt.append((s1, parts + tuple(self.fmt_hole(v, spec))))
                        elif conv:
                            nxt.append((s1, parts + (('hole', v, conv + spec),)))
                        else:
                            nxt.append((s1, parts + tuple(self.fmt_hole(v, spec))))
            cur = nxt
        return [(s, mk_cat('s', parts)) for s, parts in cur]

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        t = ('closure', self.new_id())
        fnode = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)],
                                decorator_list=[], returns=None)
        ast.copy_location(fnode, e)
        self.types[t] = (FuncInfo(fnode, self.fi.module, None, 'function'), st.env)
        return [(st, t)]

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        if e.value is None:
            self.ev(st, 'yield', (NONE,), e)
            return [(st, NONE)]
        out = []
        for s, v in self.eval(e.value, st):
            self.ev(s, 'yield', (v,), e)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            items = v[1] if v[0] == 'tuple' and self.generators else (('unk', v),)
            for x in items:
                self.ev(s, 'yield', (x,), e)
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', e.elt)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'gen', e.elt)

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', e.elt)

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict', ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e))

    def comp(self, e, st, kind, elt):
        gens = e.generators
        saved = dict(st.env)
        out = []
        g = gens[0]
        for s, it in self.eval(g.iter, st):
            items = self.concrete_items(it, s)
            if items is not None and len(items) <= 16:
                cur = [(s, [])]
                for item in items:
                    nxt = []
                    for s1, vs in cur:
                        for s2 in self.assign(g.target, item, s1, e):
                            for s3, keep in self._conds(g.ifs, s2):
                                if not keep:
                                    nxt.append((s3, vs))
                                    continue
                                if len(gens) > 1:
                                    sub = ast.copy_location(ast.ListComp(elt, gens[1:]), e)
                                    for s4, v in self.comp(sub, s3, 'list', elt):
                                        nxt.append((s4, vs + list(s4.heap.get(('L', v[1]), ()))
                                                    if v[0] == 'list' else vs + [('unk', v)]))
                                else:
                                    for s4, v in self.eval(elt, s3):
                                        nxt.append((s4, vs + [v]))
                    cur = nxt
                for s1, vs in cur:
                    s1.env = dict(saved)
                    out.append((s1, self.comp_value(kind, vs, s1)))
                continue
            # generic element
            iid = ('ind', self.new_id())
            self.kinds[iid] = 'num'
            base = s.copy()
            elem = self.generic_elem(it, iid, base)
            branches = []
            for s2 in self.assign(g.target, elem, base.copy(), e):
                for s3, keep in self._conds(g.ifs, s2):
                    facts = {k: v for k, v in s3.facts.items() if k not in s.facts}
                    if not keep:
                        branches.append((False, None, facts, s3))
                        continue
                    if len(gens) > 1:
                        sub = ast.copy_location(ast.ListComp(elt, gens[1:]), e)
                        for s4, v in self.comp(sub, s3, 'list', elt):
                            branches.append(('flat', v, {k: x for k, x in s4.facts.items() if k not in s.facts}, s4))
                    else:
                        for s4, v in self.eval(elt, s3):
                            branches.append((True, v, {k: x for k, x in s4.facts.items() if k not in s.facts}, s4))
            keepers = [b for b in branches if b[0]]
            alts = tuple((b[0], b[1], tuple(sorted(b[2].items(), key=repr))) for b in branches)
            # allocated values in elements keep their contents
            for b in branches:
                for k, v in b[3].heap.items():
                    if k not in s.heap:
                        s.heap[k] = v
            simple = len(branches) == 1 and branches[0][0] is True
            t = ('comp', iid, it, branches[0][1] if simple else None, None if simple else alts, kind)
            L = Loop(iid[1], e, self.fi)
            L.kind = 'comp'
            L.space = it
            L.entry_state = s.copy()
            L.parts = [(x[3], None) for x in branches]
            L.keep = [bool(x[0]) for x in branches]
            self.loops[L.id] = L
            for b in branches:
                own = b[3].trace[len(s.trace):]
                if own:
                    s.trace = s.trace + (Ev('loop', (L,), e, self.fi),)
                    break
            s.env = dict(saved)
            if kind == 'dict':
                d = self.new_dict(s, (('upd', t),))
                out.append((s, d))
            else:
                out.append((s, t))
        return out

    def _conds(self, ifs, st):
        cur = [(st, True)]
        for c in ifs:
            nxt = []
            for s, b in cur:
                if not b:
                    nxt.append((s, b))
                    continue
                nxt.extend(self.branch(c, s))
            cur = nxt
        return cur

    def comp_value(self, kind, vs, st):
        if kind in ('list', 'gen'):
            return self.new_list(st, vs)
        if kind == 'set':
            t = ('set', self.new_id())
            st.heap[('S', t[1])] = tuple(vs)
            return t
        layers = []
        for v in vs:
            layers.append(('kv', v[1][0], v[1][1]))
        return self.new_dict(st, layers)

    # ================================================================ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            f = self.fi
            if f.cls is not None and f.args:
                return [(st, ('super', f.cls.name, st.env.get(f.args[0], ('sym', 'self'))))]
        out = []
        if isinstance(e.func, ast.Attribute):
            for s, b in self.eval(e.func.value, st):
                if s.exc is not None:
                    out.append((s, ('bot',)))
                    continue
                out.extend(self.call_attr(s, b, e.func.attr, e))
            return out
        for s, f in self.eval(e.func, st):
            if s.exc is not None:
                out.append((s, ('bot',)))
                continue
            for s1, args, kwargs in self.eval_args(e, s):
                if s1.exc is not None:
                    out.append((s1, ('bot',)))
                    continue
                out.extend(self.call(s1, f, args, kwargs, e))
        return out

    def eval_args(self, e, st):
        cur = [(st, [], {})]
        for a in e.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for s1, v in self.eval(a.value, s):
                        items = self.concrete_items(v, s1)
                        if items is not None:
                            nxt.append((s1, args + items, kw))
                        else:
                            nxt.append((s1, args + [('star*', v)], kw))
                else:
                    for s1, v in self.eval(a, s):
                        nxt.append((s1, args + [v], kw))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for s, args, kw in cur:
                for s1, v in self.eval(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is None:
                        flat = self.flat_dict(v, s1) if v[0] == 'dict' else None
                        if flat is not None and all(is_c(a) for a, b in flat):
                            for a, b in flat:
                                kw2[a[2]] = b
                        else:
                            kw2['**'] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((s1, args, kw2))
            cur = nxt
        return cur

    def call(self, st, f, args, kwargs, e):
        k = f[0]
        if k == 'func':
            return self.call_func(st, self.prog.func(f[1]), args, kwargs, e)
        if k == 'closure':
            fi, env = self.types[f]
            argmap = dict(env)
            argmap.update(self.bind(fi, args, kwargs, st))
            return self.run_body(fi, argmap, st)
        if k == 'bound':
            return self.call_method(st, self.prog.func(f[2]), f[1], args, kwargs, e)
        if k == 'unbound':
            m = self.prog.func(f[1])
            if m.kind == 'static':
                return self.call_func(st, m, args, kwargs, e)
            return self.call_method(st, m, args[0], args[1:], kwargs, e) if args else [(st, ('sym', '?'))]
        if k == 'class':
            return self.instantiate(st, f[1], args, kwargs, e)
        if k == 'type':
            return self.builtin(st, f[1], args, kwargs, e)
        if k == 'builtin':
            return self.builtin(st, f[1], args, kwargs, e)
        if k == 'extmod':
            return self.external(st, f[1], args, kwargs, e)
        if k == 'superm':
            c = self.prog.classes[f[1]]
            m = None
            for b in self.prog.mro(c)[1:]:
                if f[3] in b.methods:
                    m = b.methods[f[3]]
                    break
            if m is None:
                return [(st, NONE)]
            return self.call_method(st, m, f[2], args, kwargs, e)
        self.ev(st, 'callv', (f, tuple(args), tuple(sorted(kwargs.items()))), e)
        return [(st, ('call', 'value:' + show(f)[:40], tuple(args), tuple(sorted(kwargs.items())), self.new_id()))]

    def bind(self, fi, args, kwargs, st, self_term=None):
        argmap = {}
        params = list(fi.args)
        if self_term is not None and params:
            argmap[params[0]] = self_term
            params = params[1:]
        rest = []
        star = None
        for i, a in enumerate(args):
            if a[0] == 'star*':
                star = a[1]
                k = 0
                for p in params[i:]:
                    if p not in kwargs:
                        argmap[p] = self.index(star, C(k), st)
                        k += 1
                break
            if i < len(params):
                argmap[params[i]] = a
            else:
                rest.append(a)
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in fi.args or k in fi.kwonly:
                argmap[k] = v
        if fi.vararg:
            argmap[fi.vararg] = ('tuple', tuple(rest)) if star is None else ('sym', '*args')
        if fi.kwarg:
            layers = tuple(('kv', C(k), v) for k, v in kwargs.items() if k not in fi.args + fi.kwonly and k != '**')
            if '**' in kwargs:
                layers = layers + (('upd', kwargs['**']),)
            argmap[fi.kwarg] = self.new_dict(st, layers)
        for p in params + fi.kwonly:
            if p not in argmap:
                if '**' in kwargs and not (star is not None):
                    src = kwargs['**']
                    d = self.default_term(fi, p, st)
                    v = self.dict_get(src, C(p), d if d is not None else None, st) if src[0] == 'dict' else None
                    argmap[p] = v if v is not None else (('get', src, C(p), d) if d is not None else ('idx', src, C(p)))
                else:
                    d = self.default_term(fi, p, st)
                    argmap[p] = d if d is not None else ('sym', 'missing:' + p)
        return argmap

    def default_term(self, fi, p, st):
        if p not in fi.defaults:
            return None
        d = fi.defaults[p]
        t = self.literal(d, fi.module)
        if t is not None:
            return t
        return ('default', fi.qual, p)

    def is_opaque(self, fi):
        if fi.qual in self.stubs:
            return True
        if fi.known:
            if fi.qual in self.opaque or fi.name in self.opaque and not (fi.cls is not None and self.prog.has_func(fi.name)):
                return True
            if self.inline_only is not None and fi.qual not in self.inline_only and fi.name not in self.inline_only:
                return True
        if fi.is_generator:
            return True
        if sum(x.node is fi.node for x in self.stack) > self.recursion:
            return True
        return False

    def call_func(self, st, fi, args, kwargs, e):
        if fi.name == 'copy' and fi.cls is None and 'copy' not in self.inline_set:
            return [(st, self.deepcopy(args[0] if args else list(kwargs.values())[0], st))]
        if fi.is_generator and self.generators:
            r = self.run_generator(st, fi, self.bind(fi, args, kwargs, st))
            if r is not None:
                return r
        if self.is_opaque(fi):
            return self.opaque_call(st, fi, None, args, kwargs, e)
        argmap = self.bind(fi, args, kwargs, st)
        self.note_types(fi, argmap)
        return self.run_body(fi, argmap, st)

    generators = False      # generator functions that fold to a known sequence are that sequence

    def run_generator(self, st, fi, argmap):
        if len(self.stack) > 30:
            return None
        out = []
        for s, _ in self.run_body(fi, argmap, st.copy()):
            new = s.trace[len(st.trace):]
            if s.exc is not None or any(e.kind == 'loop' for e in new):
                return None
            s.trace = st.trace + tuple(e for e in new if e.kind != 'yield')
            items = []
            for e in new:
                if e.kind == 'yield':
                    items.append(e.a[0])
            if any(x[0] == 'unk' for x in items):
                return None
            out.append((s, ('tuple', tuple(items))))
        return out

    inline_set = frozenset()
    # self.stubs: qualified name -> transfer function (eng, state, receiver, arguments, node) -> [(state, value)]
    mcall_havoc = False # calls on objects of unknown class may change what any method of that name changes
    exact_try = False         # handlers are entered only where something in the body may raise
    risk = 0
    recursion = 0       # a function is followed into itself this many times
    unwind = 0          # `while` loops are followed this many times instead of being summarised
    cut = 0             # paths given up because they go round more often

    def note_types(self, fi, argmap):
        for p, ann in fi.annotations.items():
            t = argmap.get(p)
            if t is not None and t[0] in ('attr', 'idx', 'sym', 'get', 'call', 'head', 'out', 'dkey') and self.type_name(t) is None:
                ty = self.prog.ann_type(ann)
                if ty in self.prog.classes:
                    self.types[t] = ty

    def call_method(self, st, fi, recv, args, kwargs, e):
        # dynamic dispatch on the receiver's class
        cls = self.class_of(recv)
        if cls is not None and fi.kind == 'method':
            m = self.prog.find_method(cls, fi.name)
            if m is not None and fi.name != '__init__':
                fi = m
        if fi.kind == 'static':
            return self.call_func(st, fi, args, kwargs, e)
        if fi.is_generator and self.generators and fi.kind == 'method':
            r = self.run_generator(st, fi, self.bind(fi, args, kwargs, st, self_term=recv))
            if r is not None:
                return r
        if self.is_opaque(fi):
            return self.opaque_call(st, fi, recv, args, kwargs, e)
        argmap = self.bind(fi, args, kwargs, st, self_term=recv)
        self.note_types(fi, argmap)
        if fi.args and self.type_name(recv) is None and fi.cls is not None and recv[0] in ('attr', 'idx', 'sym', 'get', 'call', 'head', 'out'):
            self.types[recv] = fi.cls.name
        return self.run_body(fi, argmap, st)

    def opaque_call(self, st, fi, recv, args, kwargs, e):
        argmap = self.bind(fi, args, kwargs, st, self_term=recv) if not fi.is_generator or True else {}
        if fi.qual in self.stubs:
            return self.stubs[fi.qual](self, st, recv, argmap, e)
        names = [p for p in fi.args + fi.kwonly if p in argmap]
        if recv is not None and names and names[0] == fi.args[0]:
            names = names[1:]
        pos = tuple((p, argmap[p]) for p in names)
        if fi.qual in self.pure_opaque or fi.name in self.pure_opaque:
            uid = 0
        else:
            uid = self.new_id()
        extra = []
        if fi.vararg and fi.vararg in argmap:
            extra.append(('*', argmap[fi.vararg]))
        kwp = tuple(pos) + tuple(extra)
        t = ('call', fi.qual, (recv,) if recv is not None else (), kwp, uid)
        self.ev(st, 'call', (fi.qual, recv, kwp, t), e)
        if uid:
            for attr in self.mods(fi):
                self.havoc_attr(st, attr)
        return [(st, t)]

    def havoc_attr(self, st, attr):
        st.epoch[attr] = st.epoch.get(attr, 0) + 1
        for k in [x for x in st.heap if x[0] == 'a' and x[2] == attr]:
            del st.heap[k]

    def mods(self, fi):
        if fi.qual not in self.modcache:
            from .flow import mod_attrs
            self.modcache[fi.qual] = mod_attrs(self.prog, fi)
        return self.modcache[fi.qual]

    def instantiate(self, st, cname, args, kwargs, e):
        cls = self.prog.classes[cname]
        if cname in EXC_NAMES:
            return [(st, ('call', cname, tuple(args), (), 0))]
        init = self.prog.find_method(cls, '__init__')
        new = self.prog.find_method(cls, '__new__')
        obj = ('obj', cname, self.new_id())
        if init is None:
            if new is not None or 'int' in cls.base_names:
                t = ('call', cname, tuple(args), (), 0)
                self.types[t] = cname
                return [(st, t)]
            self.ev(st, 'new', (obj, cname, tuple((str(i), a) for i, a in enumerate(args))), e)
            return [(st, obj)]
        if self.is_opaque(init) or (cname in self.opaque):
            argmap = self.bind(init, args, kwargs, st, self_term=obj)
            names = [p for p in init.args[1:] + init.kwonly if p in argmap]
            kwp = tuple((p, argmap[p]) for p in names)
            self.ev(st, 'new', (obj, cname, kwp), e)
            if init.qual in self.stubs:
                return [(s, obj if s.exc is None else ('bot',)) for s, _ in self.stubs[init.qual](self, st, obj, argmap, e)]
            return [(st, obj)]
        argmap = self.bind(init, args, kwargs, st, self_term=obj)
        self.note_types(init, argmap)
        self.ev(st, 'new', (obj, cname, tuple((p, argmap[p]) for p in init.args[1:] if p in argmap)), e)
        return [(s, obj if s.exc is None else ('bot',)) for s, _ in self.run_body(init, argmap, st)]

    # ------------------------------------------------------------ attribute calls
    def call_attr(self, st, b, name, e):
        out = []
        cls = self.class_of(b)
        target = None
        if b[0] in ('super',):
            target = ('superm', b[1], b[2], name)
        elif b[0] in ('pkgmod', 'extmod', 'class'):
            r = self.get_attr(st, b, name, e)
            target = r[0][1]
            if target[0] in ('attr', 'sym', 'classattr'):
                target = ('extmod', show(b) + '.' + name)
        elif cls is not None:
            m = self.prog.find_method(cls, name)
            if m is not None:
                target = ('bound', b, m.qual)
            elif ('a', b, name) in st.heap and st.heap[('a', b, name)][0] in ('closure', 'func', 'bound'):
                target = st.heap[('a', b, name)]
            else:
                # method defined in subclasses only (abstract receiver)
                subs_ = [c.methods[name] for c in self.prog.subclasses(cls) if name in c.methods]
                if len(subs_) == 1:
                    target = ('bound', b, subs_[0].qual)
        if target is None and self.type_name(b) is None and b[0] in ('attr', 'idx', 'sym', 'get', 'call', 'head', 'out') and self.cha:
            c = self.prog.cha(name)
            if len(c) == 1:
                target = ('bound', b, c[0].qual)
        for s1, args, kwargs in self.eval_args(e, st):
            if s1.exc is not None:
                out.append((s1, ('bot',)))
                continue
            if target is not None:
                out.extend(self.call(s1, target, args, kwargs, e))
            else:
                out.extend(self.method(s1, b, name, args, kwargs, e))
        return out

    def method(self, st, b, name, args, kwargs, e):
        """methods of builtin values"""
        if name in self.method_stubs:
            r = self.method_stubs[name](self, st, b, args, kwargs, e)
            if r is not None:
                return r
        k = self.kind_of(b)
        if name == 'indices' and b[0] == 'fn' and b[1] == 'slice' and len(args) == 1 and is_num_c(args[0]):
            try:
                return [(st, ('tuple', tuple(C(x) for x in slice(*(y[2] for y in b[2])).indices(args[0][2]))))]
            except (TypeError, ValueError):
                pass
        if name == 'fromkeys' and b in (('type', 'dict'), ('builtin', 'dict')) and args and not kwargs:
            items = self.concrete_items(args[0], st)
            if items is not None and all(is_c(x) for x in items):
                v = args[1] if len(args) > 1 else NONE
                return [(st, self.new_dict(st, tuple(('kv', x, v) for i, x in enumerate(items) if x not in items[:i])))]
        # ---- strings
        if name == 'format' and is_c(b) and b[1] == 'str':
            return [(st, self.do_format(b[2], args, kwargs, st))]
        if name in ('encode', 'decode') and (k in ('s', 'b', None)):
            codec = args[0] if args else kwargs.get('encoding', C('utf-8'))
            cn = codec[2].lower().replace('_', '-') if is_c(codec) and isinstance(codec[2], str) else ''
            if name == 'encode':
                if cn in ('latin', 'latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1') and len(args) < 2 and 'errors' not in kwargs:
                    if k == 's':
                        return [(st, encode_latin(b if b[0] in ('cat', 'c') else ('cat', 's', as_parts(b, 's'))))]
                    return [(st, fn('encode', b, C('latin')))]
                if is_c(b) and isinstance(b[2], str):
                    try:
                        return [(st, C(b[2].encode(cn)))]
                    except (LookupError, UnicodeError):
                        pass
                return [(st, fn('encode', b, *args))]
            if is_c(b) and isinstance(b[2], bytes):
                try:
                    return [(st, C(b[2].decode(cn)))]
                except (LookupError, UnicodeError):
                    pass
            return [(st, fn('decode', b, *args))]
        if name == 'join' and k in ('s', 'b'):
            return [(st, self.do_join(b, args[0], st, k))]
        if name in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'zfill', 'split', 'rsplit', 'startswith',
                    'endswith', 'isspace', 'isdigit', 'isalpha', 'rpartition', 'partition', 'splitlines', 'title',
                    'find', 'translate', 'rjust', 'ljust', 'removeprefix', 'removesuffix', 'isnumeric', 'isupper',
                    'capitalize', 'casefold', 'isalnum', 'hex', 'is_integer'):
            if b[0] == 'c' and isinstance(b[2], (str, bytes)) and all(is_c(a) for a in args) and not kwargs:
                try:
                    r = getattr(b[2], name)(*[a[2] for a in args])
                    if isinstance(r, list):
                        return [(st, self.new_list(st, [C(x) for x in r]))]
                    if isinstance(r, tuple):
                        return [(st, ('tuple', tuple(C(x) for x in r)))]
                    return [(st, C(r))]
                except Exception:
                    pass
            if name == 'translate' and b[0] == 'c' and args and args[0][0] == 'trtab':
                tab = dict(args[0][1])
                return [(st, C(''.join(tab.get(ch, ch) for ch in b[2])))]
            if name == 'startswith' and b[0] == 'cat' and args and is_c(args[0]) and isinstance(args[0][2], str):
                ps = b[2]
                if ps and ps[0][0] == 'lit' and len(ps[0][1]) >= len(args[0][2]):
                    return [(st, C(ps[0][1].startswith(args[0][2])))]
            t = fn(name, b, *(list(args) + [x for kv in sorted(kwargs.items()) for x in (C(kv[0]), kv[1])]))
            if name in ('isspace', 'startswith', 'endswith', 'isdigit'):
                self.kinds[t] = 'bool'
            elif name in ('split', 'rsplit', 'splitlines'):
                self.kinds[t] = 'list'
            elif name in ('rpartition', 'partition'):
                self.kinds[t] = 'tuple'
            elif name != 'find':
                self.kinds[t] = 'b' if k == 'b' else 's'
            return [(st, t)]
        # ---- dicts
        if name == 'get' and len(args) >= 1:
            default = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            return self.do_get(st, b, args[0], default, e)
        if name in ('items', 'keys', 'values') and not args:
            return [(st, (name, b))]
        if name == 'copy' and not args:
            return [(st, self.shallow(b, st))]
        if name == 'update' and (args or kwargs):
            if k == 'set':
                self.ev(st, 'mut', (b, 'update', tuple(args)), e)
                if b[0] == 'set':
                    more = ()
                    for a in args:
                        vs = st.heap.get(('S', a[1])) if a[0] == 'set' else None
                        if vs is None or any(v[0] == 'unk' for v in vs):
                            vs = (('unk', a),)
                        more += vs
                    st.heap[('S', b[1])] = st.heap.get(('S', b[1]), ()) + more
                return [(st, NONE)]
            for a in args:
                self.dict_update(st, b, a, e)
            if kwargs:
                d = self.new_dict(st, tuple(('kv', C(kk), v) for kk, v in kwargs.items() if kk != '**') +
                                  ((('upd', kwargs['**']),) if '**' in kwargs else ()))
                self.dict_update(st, b, d, e)
            return [(st, NONE)]
        if name == 'setdefault' and args:
            default = args[1] if len(args) > 1 else NONE
            if b[0] == 'dict':
                r = self.dict_has(b, args[0], st)
                if r is True:
                    return [(st, self.index(b, args[0], st))]
                if r is False:
                    return [(s, default) for s in self.set_item(st, b, args[0], default, e)]
            if ('i', b, args[0]) in st.heap:
                return [(st, st.heap[('i', b, args[0])])]
            t = ('setdef', b, args[0], default if default[0] not in ('list', 'dict', 'set') else C('<new %s>' % default[0]))
            self.ev(st, 'mut', (b, 'setdefault', tuple(args), t), e)
            if b[0] == 'dict':
                st.heap[('D', b[1])] = st.heap.get(('D', b[1]), ()) + (('kv', args[0], t),)
            st.heap[('i', b, args[0])] = t
            return [(st, t)]
        if name == 'pop':
            return self.do_pop(st, b, args, e)
        # ---- lists
        if name == 'append' and len(args) == 1:
            if b[0] == 'list':
                st.heap[('L', b[1])] = st.heap.get(('L', b[1]), ()) + (args[0],)
            elif b[0] != 'list':
                self.touch(st, b, C(1))
                st.heap[('i', b, C(-1))] = args[0]
            self.ev(st, 'append', (b, args[0]), e)
            return [(st, NONE)]
        if name == 'extend' and len(args) == 1:
            if b[0] != 'list':
                st.heap.pop(('i', b, C(-1)), None)
            self.list_extend(st, b, args[0], e)
            return [(st, NONE)]
        if name == 'add' and len(args) == 1 and (k == 'set' or b[0] == 'set' or k is None):
            if b[0] == 'set':
                st.heap[('S', b[1])] = st.heap.get(('S', b[1]), ()) + (args[0],)
            self.ev(st, 'mut', (b, 'add', tuple(args)), e)
            return [(st, NONE)]
        if name in ('sort', 'reverse', 'insert', 'remove', 'clear'):
            if b[0] == 'list':
                self.drop_items(st, b)
                conc = self.concrete_items(b, st)
                if name == 'clear':
                    st.heap[('L', b[1])] = ()
                elif conc is not None and name == 'insert' and len(args) == 2 and is_c(args[0]) and isinstance(args[0][2], int):
                    conc = list(conc)
                    conc.insert(args[0][2], args[1])
                    st.heap[('L', b[1])] = tuple(conc)
                elif conc is not None and name == 'reverse':
                    st.heap[('L', b[1])] = tuple(reversed(conc))
                elif conc is not None and name == 'sort' and self.sort_items(b, kwargs, st, e) is not None:
                    st.heap[('L', b[1])] = tuple(self.sort_items(b, kwargs, st, e))
                elif conc is not None and name == 'remove' and len(args) == 1 and self.position_of(conc, args[0], st) is not None:
                    i = self.position_of(conc, args[0], st)
                    st.heap[('L', b[1])] = tuple(conc[:i]) + tuple(conc[i + 1:])
                else:
                    st.heap[('L', b[1])] = (('unk', fn(name, *( [('snapl',) + st.heap.get(('L', b[1]), ())] + list(args)))),)
            self.ev(st, 'mut', (b, name, tuple(args) + tuple(v for kk, v in sorted(kwargs.items()))), e)
            if b[0] not in ('list', 'dict', 'set'):
                self.touch(st, b, {'insert': C(1), 'remove': C(-1), 'sort': C(0), 'reverse': C(0)}.get(name))
                st.heap[('v', b)] = C(self.new_id())
            return [(st, NONE)]
        if name in MUT_METHODS:
            self.ev(st, 'mut', (b, name, tuple(args) + tuple(v for kk, v in sorted(kwargs.items()))), e)
            if b[0] not in ('list', 'dict', 'set') and name in ('appendleft', 'popleft', 'difference_update', 'intersection_update'):
                self.touch(st, b, None)
            return [(st, ('call', '.' + name, (b,) + tuple(args), (), self.new_id()))]
        if name == 'index' and len(args) == 1 and not kwargs:
            items = self.concrete_items(b, st) if b[0] in ('list', 'tuple') else None
            i = self.position_of(items, args[0], st) if items is not None else None
            if i is not None:
                return [(st, C(i))]
        if name == 'index' or name == 'count':
            return [(st, fn(name, b, *args))]
        t = ('call', '.' + name, (b,) + tuple(args), tuple(sorted(kwargs.items())), self.new_id())
        self.ev(st, 'mcall', (b, name, tuple(args), tuple(sorted(kwargs.items())), t), e)
        if self.mcall_havoc:
            for fi in self.prog.cha(name):
                for attr in self.mods(fi):
                    self.havoc_attr(st, attr)
        return [(st, t)]

    def position_of(self, items, what, st):
        """the index of the first item equal to `what`; None if undecided"""
        for i, x in enumerate(items):
            t = self.equal_values(x, what, st)
            if t:
                return i
            if t is None and not x[0] == what[0] == 'obj':
                return None
        return None

    def sort_items(self, it, kwargs, st, e):
        """the items of a known sequence in sorted order, or None"""
        if not set(kwargs) <= {'reverse', 'key'} or not is_c(kwargs.get('reverse', NONE)):
            return None
        items = self.concrete_items(it, st)
        if items is None:
            return None
        keys = []
        for x in items:
            k = x
            if kwargs.get('key', NONE) != NONE:
                f = kwargs['key']
                if f[0] == 'attr' and f[1][0] in ('list', 'dict', 'tuple', 'c'):
                    got = self.method(st.copy(), f[1], f[2], [x], {}, e)
                else:
                    got = self.call(st.copy(), f, [x], {}, e)
                if len(got) != 1 or got[0][0].exc is not None:
                    return None
                k = got[0][1]
            v = const_value(k)
            if v is None and k[0] == 'tuple' and k[1] and is_c(k[1][0]):
                v = (const_value(k[1][0]),)     # enough where the first items differ
                if v in keys:
                    return None
            if v is None:
                return None
            keys.append(v)
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kwargs['reverse'][2]) if 'reverse' in kwargs else False)
        except TypeError:
            return None
        return [items[i] for i in order]

    def do_get(self, st, b, key, default, e):
        if b[0] == 'dict':
            v = self.dict_get(b, key, default, st)
            if v is not None:
                return [(st, v)]
        if ('i', b, key) in st.heap:
            return [(st, st.heap[('i', b, key)])]
        has = st.facts.get(('in', key, b))
        if has is True:
            return [(st, self.index(b, key, st))]
        if has is False:
            return [(st, default)]
        cls = self.class_of(b)
        if b[0] == 'fn' and b[1] in ('copy', 'scopy'):
            return self.do_get(st, b[2][0], key, default, e)
        return [(st, ('get', b, key, default if default[0] not in ('dict', 'list', 'set') else C('<new %s>' % default[0])))]

    def do_pop(self, st, b, args, e):
        if b[0] == 'dict' and args:
            default = args[1] if len(args) > 1 else None
            has = self.dict_has(b, args[0], st)
            v = self.dict_get(b, args[0], default, st)
            if v is None:
                v = ('idx', b, args[0])
            st.heap[('D', b[1])] = st.heap.get(('D', b[1]), ()) + (('del', args[0]),)
            st.heap.pop(('i', b, args[0]), None)
            self.ev(st, 'mut', (b, 'pop', tuple(args)), e)
            return [(st, v)]
        if b[0] == 'list':
            items = st.heap.get(('L', b[1]), ())
            i = args[0][2] if args and is_c(args[0]) else (-1 if not args else None)
            if i is not None and items and not any(x[0] in ('unk', 'star') for x in items) and -len(items) <= i < len(items):
                l = list(items)
                v = l.pop(i)
                st.heap[('L', b[1])] = tuple(l)
                self.drop_items(st, b)
                self.ev(st, 'mut', (b, 'pop', tuple(args)), e)
                return [(st, v)]
            self.drop_items(st, b)
            st.heap[('L', b[1])] = (('unk', ('call', '.pop', (b,), (), self.new_id())),)
            self.ev(st, 'mut', (b, 'pop', tuple(args)), e)
            return [(st, ('call', '.popv', (b,) + tuple(args), (), self.new_id()))]
        # unknown container
        key = args[0] if args else C(-1)
        if ('i', b, key) in st.heap:
            v = st.heap.pop(('i', b, key))
        elif len(args) > 1:
            has = st.facts.get(('in', key, b))
            v = self.index(b, key, st) if has is True else args[1] if has is False else ('get', b, key, args[1])
        else:
            v = ('idx', b, key)
        self.ev(st, 'mut', (b, 'pop', tuple(args)), e)
        if not args or is_num_c(key) or self.kind_of(key) == 'num':
            self.touch(st, b, C(-1))
            st.heap[('v', b)] = C(self.new_id())
        return [(st, v)]

    def shallow(self, b, st):
        if b[0] == 'dict':
            return self.new_dict(st, st.heap.get(('D', b[1]), ()))
        if b[0] == 'list':
            return self.new_list(st, st.heap.get(('L', b[1]), ()))
        if b[0] == 'glob':
            l = self.glob_literal_dict(b, st)
            if l is not None:
                return self.new_dict(st, l)
        if self.kind_of(b) == 'set' or b[0] == 'set':
            t = ('set', self.new_id())
            st.heap[('S', t[1])] = st.heap.get(('S', b[1]), ()) if b[0] == 'set' else (('unk', b),)
            return t
        if self.kind_of(b) == 'list' or b[0] in ('comp', 'slice'):
            return self.new_list(st, (('unk', b),))
        if self.kind_of(b) in ('num', 's', 'b', 'bool'):
            return b
        d = self.new_dict(st, self.layers_of(b, st))
        return d

    def deepcopy(self, t, st):
        if t[0] == 'dict':
            layers = []
            for l in st.heap.get(('D', t[1]), ()):
                if l[0] == 'kv':
                    layers.append(('kv', l[1], self.deepcopy(l[2], st)))
                else:
                    layers.append(l)
            return self.new_dict(st, layers)
        if t[0] == 'list':
            return self.new_list(st, [self.deepcopy(x, st) if x[0] not in ('unk', 'star') else x
                                      for x in st.heap.get(('L', t[1]), ())])
        if t[0] in ('c', 'poly', 'cat', 'tuple', 'obj'):
            return t
        if self.kind_of(t) in ('num', 's', 'b', 'bool'):
            return t
        if self.class_of(t) is not None:
            return t
        if self.kind_of(t) == 'dict':
            d = self.new_dict(st, self.layers_of(t, st))
            return d
        if t[0] == 'fn' and t[1] == 'copy':
            return t
        # known writes on an unknown dict: materialise
        if any(k[0] == 'i' and k[1] == t for k in st.heap):
            return self.new_dict(st, self.layers_of(t, st))
        return fn('copy', t)

    def do_join(self, sep, arg, st, k):
        items = self.concrete_items(arg, st)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i and sep[2]:
                    parts.extend(as_parts(sep, k))
                parts.extend(as_parts(x, k))
            return mk_cat(k, parts)
        if arg[0] == 'comp' and is_c(sep):
            if arg[4] is None:
                alts = (tuple(as_parts(arg[3], k)),)
            else:
                if any(kp == 'flat' for kp, v, _ in arg[4]):
                    alts = None
                else:
                    alts = tuple(tuple(as_parts(v, k)) for kp, v, _ in arg[4] if kp)
            if alts is not None:
                st_ = ('star', arg[1][1], alts) if not sep[2] else ('star', arg[1][1], alts, cat_parts(sep)[0][1])
                return ('cat', k, (st_,))
        if arg[0] == 'list' and is_c(sep):
            items = st.heap.get(('L', arg[1]), ())
            if items and all(x[0] != 'unk' for x in items) and all(
                    x[0] != 'star' or all(y[0] not in ('unk', 'star') for g in x[2] for y in g) for x in items):
                sp = tuple(as_parts(sep, k))
                stext = cat_parts(sep)[0][1] if sep[2] else ''
                parts = []
                n = 0
                ok = True
                for x in items:
                    if x[0] != 'star':
                        parts.extend((sp if n else ()) + tuple(as_parts(x, k)))
                        n += 1
                        continue
                    if n or not stext:
                        parts.append(('star', x[1], tuple(tuple(q for y in g for q in sp + tuple(as_parts(y, k))) for g in x[2])))
                    elif len(items) == 1:
                        alts = tuple(tuple(q for i, y in enumerate(g) for q in (sp if i else ()) + tuple(as_parts(y, k))) for g in x[2])
                        parts.append(('star', x[1], alts, stext))
                    else:
                        ok = False
                if ok:
                    return mk_cat(k, parts)
        t = fn('join', sep, arg)
        if arg[0] == 'list':
            t = fn('join', sep, ('snapl',) + st.heap.get(('L', arg[1]), ()))
        self.kinds[t] = k
        return t

    def do_format(self, s, args, kwargs, st):
        parts = []
        auto = 0
        try:
            fields = list(_string.Formatter().parse(s))
        except ValueError:
            return fn('format', C(s), *args)
        star = [i for i, a in enumerate(args) if a[0] == 'star*']
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(('lit', lit))
            if field is None:
                continue
            if field == '':
                idx = auto
                auto += 1
            elif field.isdigit():
                idx = int(field)
            else:
                idx = None
            if idx is not None:
                if star and idx >= star[0]:
                    # one argument list of unknown length: the fields that remain for it
                    after = len(args) - star[0] - 1
                    total = sum(1 for _, f, _, _ in fields if f is not None and (f == '' or f.isdigit()))
                    if len(star) == 1 and idx >= total - after:
                        v = args[len(args) - (total - idx)]
                    else:
                        v = self.index(args[star[0]][1], C(idx - star[0]), st)
                elif idx < len(args):
                    v = args[idx]
                else:
                    return fn('format', C(s), *args)
            else:
                root = field.split('.')[0].split('[')[0]
                if root in kwargs and root == field:
                    v = kwargs[field]
                elif root == field and '**' in kwargs:
                    v = ('idx', kwargs['**'], C(field))
                else:
                    return fn('format', C(s), *args)
            if conv and conv != 's':
                parts.append(('hole', v, '!' + conv + spec))
            else:
                parts.extend(self.fmt_hole(v, spec))
        return mk_cat('s', parts)

    # ------------------------------------------------------------ builtins
    def len_of(self, t, st):
        if t[0] == 'list':
            items = st.heap.get(('L', t[1]), ())
            if not any(x[0] in ('unk', 'star') for x in items):
                return C(len(items))
            if all(x[0] != 'star' for x in items):
                r = C(0)
                for x in items:
                    r = p_add(r, fn('len', x[1]) if x[0] == 'unk' else C(1))
                return r
            return fn('len', t)
        if t[0] == 'tuple':
            return C(len(t[1]))
        if t[0] in ('c', 'cat') and self.kind_of(t) in ('s', 'b'):
            return length(t)
        if t[0] == 'dict':
            f = self.flat_dict(t, st)
            if f is not None:
                return C(len(f))
        if t[0] == 'range' and t[1][2] == C(1):
            return p_sub(t[1][1], t[1][0])
        if t[0] in ('keys', 'values', 'items'):
            return fn('len', t[1])
        if t[0] == 'fn' and t[1] in ('list', 'sorted', 'copy', 'scopy', 'reversed', 'tuple'):
            return self.len_of(t[2][0], st)
        if t[0] == 'comp' and t[4] is None:
            return self.len_of(t[2], st)
        if ('n', t) in st.heap:
            return p_add(fn('len', t), st.heap[('n', t)])
        return length(t)

    def builtin(self, st, name, args, kwargs, e):
        a = args
        if name == 'len' and len(a) == 1:
            cls = self.class_of(a[0])
            m = cls and self.prog.find_method(cls, '__len__')
            if m and not self.is_opaque(m):
                return self.call_method(st, m, a[0], [], {}, e)
            return [(st, self.len_of(a[0], st))]
        if name == 'isinstance' and len(a) == 2:
            return self.do_isinstance(st, a[0], a[1])
        if name == 'slice' and 1 <= len(a) <= 3 and not kwargs and all(is_c(x) for x in a):
            x = [y[2] for y in a]
            return [(st, fn('slice', *(C(y) for y in ((None, x[0], None) if len(x) == 1 else tuple(x) + (None,) * (3 - len(x))))))]
        if name == 'range':
            if len(a) == 1:
                return [(st, ('range', (C(0), a[0], C(1))))]
            if len(a) == 2:
                return [(st, ('range', (a[0], a[1], C(1))))]
            if len(a) == 3:
                return [(st, ('range', tuple(a)))]
            return [(st, fn('range', *a))]
        if name == 'enumerate':
            start = a[1] if len(a) > 1 else kwargs.get('start', C(0))
            return [(st, ('enumerate', a[0], start))]
        if name == 'zip':
            return [(st, ('zip', tuple(a)))]
        if name == 'sorted' and len(a) == 1:
            items = self.sort_items(a[0], kwargs, st, e)
            if items is not None:
                return [(st, self.new_list(st, items))]
        if name == 'reversed':
            items = self.concrete_items(a[0], st)
            if items is not None:
                return [(st, ('tuple', tuple(reversed(items))))]
            return [(st, ('reversed', a[0]))]
        if name == 'str' and not a:
            return [(st, C(''))]
        if name == 'str' and len(a) == 1:
            v = a[0]
            if is_c(v) and v[1] in ('int', 'float', 'str', 'bool', 'NoneType'):
                return [(st, C(str(v[2])))]
            if self.kind_of(v) == 's':
                return [(st, v)]
            cls = self.class_of(v)
            if cls is not None and cls.name + '.__str__' in self.inline_set:
                m = self.prog.find_method(cls, '__str__')
                return self.call_method(st, m, v, [], {}, e)
            return [(st, ('cat', 's', (('hole', v, ''),)))]
        if name == 'repr':
            return [(st, ('cat', 's', (('hole', a[0], '!r'),)))]
        if name == 'format':
            if len(a) == 2 and is_c(a[1]):
                if a[1][2] == '':
                    return self.builtin(st, 'str', a[:1], {}, e)
                return [(st, ('cat', 's', (('hole', a[0], a[1][2]),)))]
            return self.builtin(st, 'str', a[:1], {}, e)
        if name == 'round' and a:
            n = a[1] if len(a) > 1 else C(0)
            if is_num_c(a[0]) and is_c(n):
                return [(st, C(round(a[0][2], n[2])) if len(a) > 1 else C(round(a[0][2])))]
            return [(st, fn('round', a[0], n))]
        if name in ('int', 'float'):
            if not a:
                return [(st, C(0))]
            if is_num_c(a[0]):
                return [(st, C(int(a[0][2]) if name == 'int' else float(a[0][2])))]
            if len(a) == 1 and is_c(a[0]) and isinstance(a[0][2], str):
                try:
                    return [(st, C(int(a[0][2]) if name == 'int' else float(a[0][2])))]
                except ValueError:
                    st.exc = ('call', 'ValueError', (), (), 0)
                    return [(st, ('bot',))]
            if name == 'int' and len(a) == 2 and all(is_c(x) for x in a) and isinstance(a[0][2], str) and isinstance(a[1][2], int):
                try:
                    return [(st, C(int(a[0][2], a[1][2])))]
                except ValueError:
                    st.exc = ('call', 'ValueError', (), (), 0)
                    return [(st, ('bot',))]
            return [(st, fn(name, *a))]
        if name == 'bool' and len(a) == 1:
            t = self.truth(a[0], st)
            return [(st, t)]
        if name == 'dict':
            layers = ()
            for x in a:
                if x[0] == 'zip' and self.concrete_items(x, st) is not None:
                    layers += tuple(('kv', it[1][0], it[1][1]) for it in self.concrete_items(x, st))
                elif x[0] in ('comp', 'zip', 'list', 'tuple'):
                    items = self.concrete_items(x, st)
                    if items is not None and all(i[0] == 'tuple' and len(i[1]) == 2 for i in items):
                        layers += tuple(('kv', i[1][0], i[1][1]) for i in items)
                    else:
                        layers += (('upd', x),)
                else:
                    layers += self.layers_of(x, st)
            for kk, v in kwargs.items():
                if kk == '**':
                    layers += self.layers_of(v, st)
                else:
                    layers += (('kv', C(kk), v),)
            return [(st, self.new_dict(st, layers))]
        if name in ('list', 'tuple'):
            if not a:
                return [(st, self.new_list(st, ()) if name == 'list' else ('tuple', ()))]
            items = self.concrete_items(a[0], st)
            if items is not None:
                return [(st, self.new_list(st, items) if name == 'list' else ('tuple', tuple(items)))]
            if name == 'list':
                if a[0][0] == 'list':
                    return [(st, self.new_list(st, st.heap.get(('L', a[0][1]), ())))]
                if a[0][0] == 'comp':
                    return [(st, a[0][:5] + ('list',))]
            src = a[0]
            if src[0] == 'keys':
                src = src
            t = fn(name, src)
            self.kinds[t] = name
            return [(st, t)]
        if name in ('set', 'frozenset'):
            t = ('set', self.new_id())
            items = () if not a else (self.concrete_items(a[0], st))
            st.heap[('S', t[1])] = tuple(items) if items is not None else (('unk', a[0]),)
            return [(st, t)]
        if name == 'map' and len(a) == 2 and not kwargs:
            iid = ('ind', self.new_id())
            self.kinds[iid] = 'num'
            it = a[1]
            items = self.concrete_items(it, st)
            if items is None:
                s2 = st.copy()
                r = self.call(s2, a[0], [self.generic_elem(it, iid, s2)], {}, e)
                if len(r) == 1 and len(r[0][0].trace) - len(st.trace) <= 1 and r[0][0].exc is None:
                    L = Loop(iid[1], e, self.fi)
                    L.kind = 'comp'
                    L.space = it
                    L.entry_state = st.copy()
                    L.parts = [(r[0][0], None)]
                    self.loops[L.id] = L
                    for k2, v2 in r[0][0].heap.items():
                        st.heap.setdefault(k2, v2)
                    return [(st, ('comp', iid, it, r[0][1], None, 'list'))]
        if name == 'sorted':
            t = fn('sorted', *(list(a) + [x for kv in sorted(kwargs.items()) for x in (C(kv[0]), kv[1])]))
            self.kinds[t] = 'list'
            return [(st, t)]
        if name == 'type' and len(a) == 1:
            ty = self.type_name(a[0])
            if ty is not None and (a[0][0] in ('c', 'obj') or a[0] in self.exact):
                return [(st, ('class', ty) if ty in self.prog.classes else ('type', ty))]
            return [(st, fn('type', a[0]))]
        if name in ('min', 'max') and a and all(is_num_c(x) for x in a) and len(a) > 1:
            return [(st, C((min if name == 'min' else max)(x[2] for x in a)))]
        if name == 'super':
            return [(st, ('sym', 'super'))]
        if name in EXC_NAMES:
            return [(st, ('call', name, tuple(a), (), 0))]
        if name == 'getattr' and len(a) >= 2 and is_c(a[1]):
            return self.get_attr(st, a[0], a[1][2], e)
        if name == 'hasattr' and len(a) == 2 and is_c(a[1]) and ('a', a[0], a[1][2]) in st.heap:
            return [(st, TRUE)]
        if name == 'setattr' and len(a) == 3 and is_c(a[1]):
            return [(s, NONE) for s in self.set_attr(st, a[0], a[1][2], a[2], e)]
        if name in ('any', 'all') and a and a[0][0] == 'list':
            items = self.concrete_items(a[0], st)
            if items is not None:
                ts = tuple(self.truth(x, st) for x in items)
                return [(st, ('or' if name == 'any' else 'and', ts))] if ts else [(st, C(name == 'all'))]
        if name == 'sum' and a and len(a) <= 2:
            items = self.concrete_items(a[0], st) if a[0][0] in ('list', 'tuple', 'values', 'dict', 'keys', 'range') else None
            if items is not None and len(items) <= 16 and all(is_num_c(x) or self.kind_of(x) == 'num' for x in items):
                tot = a[1] if len(a) == 2 else C(0)
                for x in items:
                    tot = p_add(tot, x)
                return [(st, tot)]
        if name == 'open':
            t = ('call', 'open', tuple(a), tuple(sorted(kwargs.items())), self.new_id())
            self.ev(st, 'ext', ('open', tuple(a), t), e)
            return [(st, t)]
        if name == 'print':
            return [(st, NONE)]
        if name in ('ord', 'chr', 'hex', 'abs') and a and is_c(a[0]):
            try:
                return [(st, C({'ord': ord, 'chr': chr, 'hex': hex, 'abs': abs}[name](a[0][2])))]
            except (TypeError, ValueError):
                pass
        t = fn(name, *(list(a) + [x for kv in sorted(kwargs.items()) for x in (C(kv[0]), kv[1])]))
        if name in ('any', 'all'):
            self.kinds[t] = 'bool'
        return [(st, t)]

    def do_isinstance(self, st, x, c):
        names = []

        def collect(t):
            if t[0] == 'tuple':
                for y in t[1]:
                    collect(y)
            elif t[0] in ('class', 'type'):
                names.append(t[1])
            elif t[0] == 'extmod':
                names.append(t[1].split('.')[-1])
            else:
                names.append(show(t))
        collect(c)
        atoms = []
        for nme in names:
            d = self.inst_of(x, nme, st)
            if ('inst', x, nme) in st.facts:
                d = st.facts[('inst', x, nme)]
            if d is True:
                return [(st, TRUE)]
            if d is False:
                continue
            atoms.append(('inst', x, nme))
        if not atoms:
            return [(st, FALSE)]
        return [(st, atoms[0] if len(atoms) == 1 else ('or', tuple(atoms)))]

    def external(self, st, name, args, kwargs, e):
        short = name.split('.')[-1]
        if short in self.ext_stubs:
            return self.ext_stubs[short](self, st, None, args, kwargs, e)
        if name == 're.sub' and len(args) >= 3 and all(is_c(x) for x in args[:3]):
            import re
            try:
                return [(st, C(re.sub(args[0][2], args[1][2], args[2][2])))]
            except Exception:
                pass
        if name in ('re.split', 're.findall') and len(args) == 2 and all(is_c(x) and isinstance(x[2], str) for x in args) and not kwargs:
            import re
            try:
                r = getattr(re, short)(args[0][2], args[1][2])
                if all(isinstance(x, str) or x is None for x in r):
                    return [(st, self.new_list(st, [C(x) for x in r]))]
            except Exception:
                pass
        if name in ('re.sub', 're.split', 'json.dumps', 'json.loads', 'math.ceil', 'math.floor', 'os.path.join',
                    'zlib.compress', 're.match', 're.compile', 'struct.unpack', 'struct.unpack_from', 're.escape'):
            if name == 're.compile' and args and is_c(args[0]):
                return [(st, ('regex', args[0]))]
            t = fn(name, *(list(args) + [x for kv in sorted(kwargs.items()) for x in (C(kv[0]), kv[1])]))
            self.kinds[t] = {'re.sub': 's', 're.split': 'list', 'json.dumps': 's', 'zlib.compress': 'b'}.get(name)
            if self.kinds[t] is None:
                del self.kinds[t]
            return [(st, t)]
        if name in ('copy.deepcopy',):
            return [(st, self.deepcopy(args[0], st))]
        if name in ('copy.copy',):
            return [(st, self.shallow(args[0], st))]
        if short == 'defaultdict':
            return [(st, self.new_dict(st, ()))]
        if short == 'OrderedDict':
            return self.builtin(st, 'dict', args, kwargs, e)
        t = ('call', name, tuple(args), tuple(sorted(kwargs.items())), self.new_id())
        self.ev(st, 'ext', (name, tuple(args), t), e)
        return [(st, t)]

    # ------------------------------------------------------------ folding
    def fold(self, t):
        """fold constants after substitution (conditions and arithmetic)"""
        def f(x):
            return None
        t = subst(t, f)
        return self._fold(t)

    def _fold(self, t):
        k = t[0]
        if k == 'eq':
            a, b = self._fold(t[1]), self._fold(t[2])
            if is_c(a) and is_c(b):
                return C(a[2] == b[2])
            if self.numericish(a) and self.numericish(b):
                c = poly_const(p_sub(a, b))
                if c is not None:
                    return C(c == 0)
            return ('eq', a, b)
        if k == 'lt0':
            c = poly_const(self._fold(t[1]))
            return C(c < 0) if c is not None else t
        if k == 'not':
            x = self._fold(t[1])
            return C(not x[2]) if is_c(x) else ('not', x)
        if k == 'fn' and t[1] == 'mod':
            a, b = self._fold(t[2][0]), self._fold(t[2][1])
            if is_num_c(a) and is_num_c(b) and b[2]:
                return C(a[2] % b[2])
            return fn('mod', a, b)
        if k == 'isnone' and is_c(t[1]):
            return C(t[1] == NONE)
        if k == 'truthy' and is_c(t[1]):
            return C(bool(t[1][2]))
        return t


class Part:
    """one partition of an analysed function"""

    def __init__(self, state, ret):
        self.state = state
        self.ret = ret

    @property
    def facts(self):
        return self.state.facts

    @property
    def trace(self):
        return self.state.trace

    @property
    def heap(self):
        return self.state.heap

    @property
    def raised(self):
        return self.state.exc is not None

    def attr(self, base, name):
        return self.state.heap.get(('a', base, name))

    def where(self):
        return ', '.join(('' if v else 'not ') + show(f) for f, v in self.state.facts.items())[:400]


def _as_load(t):
    import copy as _c
    t2 = _c.copy(t)
    t2.ctx = ast.Load()
    return t2


def _catches(typ, exc):
    names = []
    for n in ast.walk(typ):
        if isinstance(n, ast.Name):
            names.append(n.id)
        elif isinstance(n, ast.Attribute):
            names.append(n.attr)
    if 'Exception' in names or 'BaseException' in names:
        return True
    if exc is None or exc[0] != 'call':
        return True
    import builtins
    cls = getattr(builtins, exc[1], None)
    if isinstance(cls, type) and any(isinstance(getattr(builtins, x, None), type) and issubclass(cls, getattr(builtins, x)) for x in names):
        return True
    return exc[1] in names


def const_value(t):
    """the Python value of a number, a string or a tuple of these"""
    if is_c(t) and isinstance(t[2], (int, float, str, bytes)):
        return t[2]
    if t[0] == 'tuple':
        vs = tuple(const_value(x) for x in t[1])
        return None if None in vs else vs
    return None


def const_key(t):
    return is_c(t) or t[0] == 'tuple' and all(const_key(x) for x in t[1])


def all_events(trace, loops=True, depth=0):
    """flatten a trace, entering loops: yields (event, loop stack)"""
    def go(tr, stack):
        for ev in tr:
            yield ev, stack
            if ev.kind == 'loop' and loops:
                L = ev.a[0]
                seen = set()
                n0 = len(L.entry_state.trace) if L.entry_state is not None else 0
                for s, g in L.parts:
                    own = s.trace[n0:]
                    for x in go(own, stack + ((L, s),)):
                        yield x
    return go(trace, ())
