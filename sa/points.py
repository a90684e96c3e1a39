"""Whole-program points-to and mutation analysis (may-analysis, flow-sensitive locals, call-site
sensitive, monotone fixpoint over the source; nothing is executed).

References
  ('U', label, kinds)     a value the caller owns, or anything reachable from one; kinds is a subset of
                          d(ict) l(ist) t(uple) o(ther); sets are not modelled
  ('O', kind, site)       container allocated by the package at a site (line, call string)
  ('I', cls, tag)         instances of a package class (one node per class; tag marks shared ones)
  ('K', cls)              a class object;  ('M', module) a module
  ('F', qual, recv)       function or bound method;  ('N', n) nested function / lambda
Every in-place change of a U reference or of an object in `shared` is recorded as a mutation.
"""
import ast
from collections import deque

ALLK = frozenset('dlto')
CONT = frozenset('dlt')
EMPTY = frozenset()

MUTATORS = {
    'append': 'l', 'extend': 'l', 'insert': 'l', 'sort': 'l', 'reverse': 'l',
    'remove': 'ls', 'pop': 'lds', 'clear': 'lds',
    'update': 'ds', 'setdefault': 'd', 'popitem': 'd',
    'add': 's', 'discard': 's', 'difference_update': 's', 'intersection_update': 's',
    'symmetric_difference_update': 's', '__setitem__': 'ld', '__delitem__': 'ld',
    '__ior__': 'ds', '__iadd__': 'l', 'appendleft': 'l', 'extendleft': 'l', 'popleft': 'l',
    'rotate': 'l', 'move_to_end': 'd', 'subtract': 'd'}
KIND_OF = {'dict': 'd', 'list': 'l', 'tuple': 't', 'set': 's'}
EXT_MUT = {('random', 'shuffle'): 0, ('heapq', 'heappush'): 0, ('heapq', 'heapify'): 0,
           ('heapq', 'heappop'): 0, ('bisect', 'insort'): 0, ('bisect', 'insort_left'): 0,
           ('bisect', 'insort_right'): 0, ('operator', 'setitem'): 0, ('operator', 'delitem'): 0,
           ('operator', 'iadd'): 0, ('operator', 'ior'): 0}
TYPE_KINDS = {'dict': 'd', 'list': 'l', 'tuple': 't', 'set': 's', 'frozenset': 's',
              'str': 'o', 'int': 'o', 'float': 'o', 'bytes': 'o', 'bool': 'o', 'complex': 'o',
              'Mapping': 'd', 'MutableMapping': 'd', 'Sequence': 'lto', 'MutableSequence': 'l',
              'Iterable': 'dlto', 'Number': 'o', 'Path': 'o', 'object': 'dlto',
              'Collection': 'dlto'}
STR_ONLY = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isnumeric', 'isdecimal',
            'isupper', 'islower', 'isalnum', 'isidentifier'}
IMMUTABLE = {'str', 'int', 'float', 'bytes', 'bool', 'Number', 'complex'}


class Mutation:
    __slots__ = ('fi', 'node', 'what', 'label', 'shared')

    def __init__(self, fi, node, what, label, shared):
        self.fi, self.node, self.what, self.label, self.shared = fi, node, what, label, shared


class _Flow:
    """control-flow state of the body being executed"""
    def __init__(self):
        self.ret = set()
        self.breaks = []
        self.conts = []
        self.handlers = []


class Points:
    def __init__(self, prog, k=2):
        self.prog = prog
        self.k = k
        self.heap = {}            # object -> slot -> set
        self.shared = {}          # object -> label
        self.ver = {}             # key -> version
        self.args = {}            # (qual, ctx) -> {param: set}
        self.ret = {}             # (qual, ctx) -> set
        self.fis = {}             # qual -> FuncInfo
        self.muts = {}            # (loc, label) -> Mutation
        self.deps = {}            # key -> set of tasks
        self.work = deque()
        self.inwork = set()
        self.nested = []
        self.cur = None
        self.sites = 0
        self.calls = set()
        self.gl = {}
        self.mods = {}
        self.defaults = {}
        self.cattrs = {}
        self.capture = {}
        self.tasks_run = 0
        self.inline = []
        self.scalars = {}
        self.splits = {}
        self.watch = None
        self.errors = {}
        self.changes = set()      # in-place changes examined
        self.by_site = set()      # classes whose instances are told apart by creation site

    # ------------------------------------------------------------ plumbing
    def _touch(self, key):
        for t in self.deps.get(key, ()):
            self._enq(t)

    def _enq(self, t):
        if t not in self.inwork:
            self.inwork.add(t)
            self.work.append(t)

    def _dep(self, key):
        if self.cur is not None:
            self.deps.setdefault(key, set()).add(self.cur)

    def load(self, obj, slot):
        self._dep((obj, slot))
        return self.heap.get(obj, {}).get(slot, EMPTY)

    def store(self, obj, slot, vals):
        if slot == 'keys' and vals:
            # keys are hashable, so neither lists nor dictionaries
            vals = {v for v in vals if v[0] != 'U' and not (v[0] == 'O' and v[1] != 'tuple')}
        if not vals:
            h = self.heap.setdefault(obj, {})
            if slot not in h:
                h[slot] = set()
                self._touch((obj, '#'))
            return
        h = self.heap.setdefault(obj, {})
        s = h.get(slot)
        if s is None:
            s = h[slot] = set()
            self._touch((obj, '#'))
        n = len(s)
        s |= vals
        if len(s) != n:
            self._touch((obj, slot))

    def slots(self, obj):
        self._dep((obj, '#'))
        return list(self.heap.get(obj, {}))

    def alloc(self, kind, node, extra=None):
        ctx = self.cur[1] if self.cur else ()
        fi = self.cfi
        site = (fi.module.name if fi is not None else self.cmod.name,
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), extra, ctx)
        o = ('O', kind, site)
        if o not in self.heap:
            self.heap[o] = {}
        if self.share_label is not None:
            self.shared.setdefault(o, self.share_label)
        return o

    # ------------------------------------------------------------ entry
    def entry(self, fi, label=None, values=None):
        """analyse a function as called from outside"""
        a = {}
        for p in fi.args + fi.kwonly:
            if fi.cls is not None and fi.kind not in ('static',) and fi.args and p == fi.args[0]:
                if fi.kind == 'classmethod':
                    a[p] = {('K', fi.cls.name)}
                else:
                    a[p] = {('I', fi.cls.name, '')}
                continue
            if values is not None and p in values:
                a[p] = set(values[p])
                continue
            a[p] = self.ann_value(fi.annotations.get(p), fi, label or '%s of %s' % (p, fi.qual))
        self.cur, self.cfi, self.cmod = None, None, fi.module
        for p in fi.defaults:
            if p in a:
                a[p] = a[p] | self.default_value(fi, p)
        if fi.vararg:
            o = ('O', 'tuple', ('entry', fi.qual, 'va'))
            self.store(o, 'rest', {('U', label or '*%s of %s' % (fi.vararg, fi.qual), ALLK)})
            a[fi.vararg] = {o}
        if fi.kwarg:
            o = ('O', 'dict', ('entry', fi.qual, 'kw'))
            self.store(o, 'rest', {('U', label or '**%s of %s' % (fi.kwarg, fi.qual), ALLK)})
            a[fi.kwarg] = {o}
        self.push(fi, ('entry',), a)

    def ann_value(self, ann, fi, label):
        kinds, insts = self.ann_kinds(ann, fi)
        out = set()
        if kinds & CONT:
            out.add(('U', label, frozenset(kinds)))
        for c in insts:
            out.add(('I', c, ''))
            for s in self.prog.subclasses(self.prog.classes[c]):
                out.add(('I', s.name, ''))
        return out

    def scalar_param(self, fi, n):
        key = (fi.qual, n)
        if key not in self.scalars:
            a = fi.annotations.get(n)
            r = False
            if a is not None:
                k, c = self.ann_kinds(a, fi)
                r = bool(k) and not (set(k) & CONT) and not c
            self.scalars[key] = r
        return self.scalars[key]

    def ann_kinds(self, ann, fi, seen=()):
        if ann is None:
            return set(ALLK), set()
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_kinds(ast.parse(ann.value, mode='eval').body, fi, seen)
                except SyntaxError:
                    return set(ALLK), set()
            return set(), set()
        if isinstance(ann, ast.Attribute):
            return self.ann_kinds(ast.Name(id=ann.attr, ctx=ast.Load()), fi, seen)
        if isinstance(ann, ast.Name):
            if ann.id in self.prog.classes:
                return set(), {ann.id}
            if ann.id in TYPE_KINDS:
                return set(TYPE_KINDS[ann.id]), set()
            if ann.id in seen:
                return set(ALLK), set()
            for m in (fi.module,) + tuple(self.prog.modules.values()):
                if ann.id in m.globals:
                    return self.ann_kinds(m.globals[ann.id], fi, seen + (ann.id,))
            if ann.id in ('BytesIO', 'BinaryIO', 'BufferedIOBase'):
                return set(), set()
            return set(ALLK), set()
        if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name):
            if ann.value.id in ('Union', 'Optional'):
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                k, c = set(), set()
                for e in els:
                    a, b = self.ann_kinds(e, fi, seen)
                    k |= a
                    c |= b
                return k, c
            low = ann.value.id.lower()
            if low in TYPE_KINDS:
                return set(TYPE_KINDS[low]), set()
        if isinstance(ann, ast.BinOp):
            a, b = self.ann_kinds(ann.left, fi, seen)
            c, d = self.ann_kinds(ann.right, fi, seen)
            return a | c, b | d
        return set(ALLK), set()

    def push(self, fi, ctx, args):
        t = (fi.qual, ctx)
        self.fis[fi.qual] = fi
        new = t not in self.args
        cur = self.args.setdefault(t, {})
        ch = new
        for p, v in args.items():
            s = cur.setdefault(p, set())
            n = len(s)
            s |= v
            ch = ch or len(s) != n
        if ch:
            self._enq(t)
        return t

    def solve(self, limit=60000):
        self.share_label = None
        while self.work:
            t = self.work.popleft()
            self.inwork.discard(t)
            self.tasks_run += 1
            if self.tasks_run > limit:
                raise RuntimeError('points-to fixpoint did not converge')
            try:
                self.run_task(t)
            except (TypeError, KeyError, AttributeError, IndexError, ValueError) as e:
                self.errors[t[0]] = '%s: %s' % (type(e).__name__, e)
                self.cur = None

    def run_task(self, t):
        fi = self.fis[t[0]]
        self.cur, self.cfi, self.cmod = t, fi, fi.module
        env = {p: set(v) for p, v in self.args[t].items()}
        fl = _Flow()
        self.globs = set()
        self.exec_body(fi.node.body, env, fl)
        r = fl.ret
        if fi.is_generator:
            o = self.alloc('iter', fi.node, 'gen')
            self.store(o, 'rest', r)
            r = {o}
        if any('cache' in ast.dump(d) for d in fi.node.decorator_list) and fi.kind != 'getter':
            for x in r:
                if x[0] == 'O' and x[1] in ('dict', 'list', 'set'):
                    if x not in self.shared:
                        self.shared[x] = 'value cached by ' + fi.qual
        old = self.ret.setdefault(t, set())
        n = len(old)
        old |= r
        if len(old) != n:
            self._touch(('ret', t))
        self.cur = None

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env, fl):
        for s in body:
            if env is None:
                return None
            env = self.exec(s, env, fl)
            if env is not None and fl.handlers:
                fl.handlers[-1].append(dict(env))
        return env

    @staticmethod
    def join(*envs):
        out = None
        for e in envs:
            if e is None:
                continue
            if out is None:
                out = dict(e)
            else:
                for k, v in e.items():
                    if k in out:
                        if out[k] is not v and out[k] != v:
                            out[k] = out[k] | v
                    else:
                        out[k] = v
        return out

    def exec(self, s, env, fl):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e, env)
            return env
        return m(s, env, fl)

    def x_Expr(self, s, env, fl):
        self.ev(s.value, env)
        return env

    def x_Assign(self, s, env, fl):
        v = self.ev(s.value, env)
        env = dict(env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return env

    def x_AnnAssign(self, s, env, fl):
        if s.value is not None:
            v = self.ev(s.value, env)
            env = dict(env)
            self.assign(s.target, v, env, s)
        return env

    def x_AugAssign(self, s, env, fl):
        rhs = self.ev(s.value, env)
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, env)
        new = set()
        if isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)):
            want = 'l' if isinstance(s.op, ast.Add) else 'ds'
            rk = ('list', 'tuple', 'iter', 'set') if isinstance(s.op, ast.Add) else ('dict', 'set')
            rcont = any((x[0] == 'O' and x[1] in rk) or (x[0] == 'U' and 'o' not in x[2])
                        for x in rhs)
            for r in cur:
                if r[0] == 'U':
                    if rcont and set(want) & r[2]:
                        self.mutated(r, s, 'in-place %s' % type(s.op).__name__)
                    new.add(r)
                elif r[0] == 'O':
                    if KIND_OF.get(r[1]) and KIND_OF[r[1]] in want:
                        self.mutated(r, s, 'in-place %s' % type(s.op).__name__)
                        for x in rhs:
                            self.store(r, 'rest', self.elements(x))
                        new.add(r)
                    elif r[1] == 'tuple':
                        o = self.alloc('tuple', s)
                        self.store(o, 'rest', self.elements(r))
                        for x in rhs:
                            self.store(o, 'rest', self.elements(x))
                        new.add(o)
                    else:
                        new.add(r)
                else:
                    new.add(r)
            if not cur:
                pass
        env = dict(env)
        if isinstance(t, ast.Name):
            if t.id in self.globs:
                self.global_store(t.id, s)
            env[t.id] = new
        else:
            self.assign(t, new, env, s)
        return env

    def x_Return(self, s, env, fl):
        if s.value is not None:
            fl.ret |= self.ev(s.value, env)
        return None

    def x_Raise(self, s, env, fl):
        if s.exc is not None:
            self.ev(s.exc, env)
        return None

    def x_Pass(self, s, env, fl):
        return env

    def x_Global(self, s, env, fl):
        self.globs |= set(s.names)
        return env

    def x_Nonlocal(self, s, env, fl):
        return env

    def x_Import(self, s, env, fl):
        env = dict(env)
        for a in s.names:
            env[(a.asname or a.name).split('.')[0]] = {('X', a.name)}
        return env

    def x_ImportFrom(self, s, env, fl):
        env = dict(env)
        for a in s.names:
            name = a.asname or a.name
            src = s.module or ''
            if s.level > 0 or src.split('.')[0] == self.prog.pkg:
                src2 = src if s.level else '.'.join(src.split('.')[1:])
                m = self.prog.modules.get(src2)
                env[name] = self.mod_name(m, a.name) if m is not None else set()
            else:
                env[name] = {('X', src + '.' + a.name)}
        return env

    def x_FunctionDef(self, s, env, fl):
        env = dict(env)
        i = self.nest(s, env)
        env[s.name] = {('N', i)}
        self.capture[i] = self.join(self.capture.get(i), env)
        return env

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, env, fl):
        return env

    def nest(self, node, env):
        for i, n in enumerate(self.nested):
            if n is node:
                self.capture[i] = self.join(self.capture.get(i), env)
                return i
        self.nested.append(node)
        self.capture[len(self.nested) - 1] = dict(env)
        return len(self.nested) - 1

    def x_If(self, s, env, fl):
        self.ev(s.test, env)
        a = self.refine(s.test, env, True)
        b = self.refine(s.test, env, False)
        a = self.exec_body(s.body, a, fl) if a is not None else None
        b = self.exec_body(s.orelse, b, fl) if b is not None else None
        return self.join(a, b)

    def _loop(self, env, step, orelse, fl):
        entry = env
        for _ in range(30):
            saveb, savec = fl.breaks, fl.conts
            fl.breaks, fl.conts = [], []
            out, exit_ = step(entry)
            brk = fl.breaks
            back = self.join(out, *fl.conts)
            fl.breaks, fl.conts = saveb, savec
            new = self.join(entry, back)
            if new == entry:
                break
            entry = new
        done = self.exec_body(orelse, exit_, fl) if exit_ is not None else None
        return self.join(done, *brk)

    def x_While(self, s, env, fl):
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)

        def step(e):
            self.ev(s.test, e)
            b = self.refine(s.test, e, True)
            out = self.exec_body(s.body, b, fl) if b is not None else None
            return out, (None if infinite else self.refine(s.test, e, False))
        return self._loop(env, step, s.orelse, fl)

    def x_For(self, s, env, fl):
        def step(e):
            it = self.ev(s.iter, e)
            b = dict(e)
            self.bind_iter(s.target, it, b, s)
            return self.exec_body(s.body, b, fl), e
        return self._loop(env, step, s.orelse, fl)

    x_AsyncFor = x_For

    def bind_iter(self, target, it, env, node):
        el = set()
        for x in it:
            el |= self.elements(x)
        self.assign(target, el, env, node)

    def x_Break(self, s, env, fl):
        fl.breaks.append(env)
        return None

    def x_Continue(self, s, env, fl):
        fl.conts.append(env)
        return None

    def x_With(self, s, env, fl):
        env = dict(env)
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s)
        return self.exec_body(s.body, env, fl)

    def x_Try(self, s, env, fl):
        fl.handlers.append([dict(env)])
        out = self.exec_body(s.body, env, fl)
        seen = self.join(*fl.handlers.pop())
        if out is not None:
            out = self.exec_body(s.orelse, out, fl)
        outs = [out]
        for h in s.handlers:
            e = dict(seen)
            if h.name:
                e[h.name] = set()
            outs.append(self.exec_body(h.body, e, fl))
        j = self.join(*outs)
        if s.finalbody:
            f = self.exec_body(s.finalbody, self.join(j, seen), fl)
            return None if j is None or f is None else f
        return j

    def x_Delete(self, s, env, fl):
        env = dict(env)
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, env)
                self.ev_slice(t.slice, env)
                for r in base:
                    if r[0] == 'I':
                        self.special(r, '__delitem__', [set()], s)
                    else:
                        self.mutated(r, s, 'del [..]', 'ld')
            elif isinstance(t, ast.Attribute):
                for r in self.ev(t.value, env):
                    if r[0] == 'K':
                        self.shared_mut(s, 'del class attribute', '%s.%s' % (r[1], t.attr))
        return env

    def x_Match(self, s, env, fl):
        v = self.ev(s.subject, env)
        outs = [env]
        for c in s.cases:
            e = dict(env)
            el = set(v)
            for x in v:
                el |= self.elements(x)
            for n in ast.walk(c.pattern):
                for nm in (getattr(n, 'name', None), getattr(n, 'rest', None)):
                    if isinstance(nm, str):
                        e[nm] = set(el)
            if c.guard is not None:
                self.ev(c.guard, e)
            outs.append(self.exec_body(c.body, e, fl))
        return self.join(*outs)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            if t.id in self.globs:
                self.global_store(t.id, node)
            env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            for i, e in enumerate(t.elts):
                el = set()
                for x in v:
                    if x[0] == 'O' and not star and ('k', i) in self.slots(x):
                        el |= self.load(x, ('k', i)) | self.load(x, 'rest')
                    else:
                        el |= self.elements(x)
                if isinstance(e, ast.Starred):
                    o = self.alloc('list', e, 'star')
                    self.store(o, 'rest', el)
                    self.assign(e.value, {o}, env, node)
                else:
                    self.assign(e, el, env, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            key = self.ev_slice(t.slice, env)
            for r in base:
                self.set_item(r, key, t.slice, v, node)
        elif isinstance(t, ast.Attribute):
            for r in self.ev(t.value, env):
                self.set_attr(r, t.attr, v, node)

    def set_item(self, r, key, knode, v, node):
        if r[0] == 'I':
            self.special(r, '__setitem__', [key, v], node)
            return
        self.mutated(r, node, 'item assignment', 'ld')
        if r[0] == 'O':
            if isinstance(knode, ast.Slice):
                for x in v:
                    self.store(r, 'rest', self.elements(x))
            else:
                self.store(r, self.slot(knode), v)
                self.store(r, 'keys', key)

    def set_attr(self, r, attr, v, node):
        if r[0] == 'I':
            c = self.prog.classes[r[1]]
            st = self.prog.find_method(c, attr, 'setters')
            if st is not None:
                self.invoke(st, r, [v], {}, node)
                return
            if r[2] and r[2][0] != '@':
                self.shared_mut(node, 'attribute assignment on a shared object', r[2])
            if v and self.prog.attr_type(r[1], attr) in IMMUTABLE:
                v = EMPTY
            self.store(r, ('a', attr), v)
        elif r[0] == 'K':
            self.shared_mut(node, 'class attribute assigned', '%s.%s' % (r[1], attr))
        elif r[0] in ('M', 'X'):
            self.shared_mut(node, 'module attribute assigned', '%s.%s' % (r[1], attr))
        elif r[0] == 'F':
            self.shared_mut(node, 'function attribute assigned', '%s.%s' % (r[1], attr))
        elif r[0] == 'O':
            self.store(r, ('a', attr), v)

    def global_store(self, name, node):
        if self.cfi is not None:
            self.shared_mut(node, 'global rebound', '%s.%s' % (self.cmod.name, name))

    def mutated(self, r, node, what, kinds=None):
        if self.cfi is not None:
            self.changes.add((self.cfi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        if r[0] == 'U':
            if kinds is not None and not (set(kinds) & r[2]):
                return
            self._record(node, what, r[1], False)
        elif r in self.shared:
            self._record(node, what, self.shared[r], True)
        if self.watch is not None and r[0] == 'O' and self.cfi is not None:
            self.watch.setdefault(r, set()).add((self.cfi, node, what))

    def shared_mut(self, node, what, label):
        self._record(node, what, label, True)

    def _record(self, node, what, label, shared):
        if self.cfi is None:
            return
        key = (self.cfi.qual, getattr(node, 'lineno', 0), label, shared)
        if key not in self.muts:
            self.muts[key] = Mutation(self.cfi, node, what, label, shared)

    @staticmethod
    def slot(knode):
        if isinstance(knode, ast.Constant) and isinstance(knode.value, (str, int)):
            return ('k', knode.value)
        return 'rest'

    # ------------------------------------------------------------ reading
    def elements(self, x):
        """iterating over x"""
        if x[0] == 'U':
            return {('U', x[1], ALLK)} if x[2] & CONT else EMPTY
        if x[0] == 'O':
            if x[1] == 'dict':
                return set(self.load(x, 'keys'))
            out = set(self.load(x, 'rest'))
            for s in self.slots(x):
                if isinstance(s, tuple) and s[0] == 'k':
                    out |= self.load(x, s)
            return out
        if x[0] == 'I':
            return self.elements_of_set(self.special(x, '__iter__', [], None))
        return EMPTY

    def elements_of_set(self, v):
        out = set()
        for x in v:
            out |= self.elements(x)
        return out

    def values(self, x):
        """everything stored in container x"""
        if x[0] == 'U':
            return {('U', x[1], ALLK)} if x[2] & CONT else EMPTY
        if x[0] == 'O':
            out = set(self.load(x, 'rest'))
            for s in self.slots(x):
                if isinstance(s, tuple) and s[0] == 'k':
                    out |= self.load(x, s)
            return out
        return EMPTY

    def item(self, x, knode):
        if x[0] == 'U':
            return {('U', x[1], ALLK)} if x[2] & CONT else EMPTY
        if x[0] == 'O':
            sl = self.slot(knode)
            if sl == 'rest' or (isinstance(sl[1], int) and x[1] != 'dict' and sl[1] < 0):
                return self.values(x)
            return set(self.load(x, sl)) | self.load(x, 'rest')
        return EMPTY

    def refine(self, test, env, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                for v in test.values:
                    if env is None:
                        return None
                    env = self.refine(v, env, truth)
                return env
            outs = []
            e = env
            for v in test.values:
                if e is None:
                    break
                outs.append(self.refine(v, e, truth))
                e = self.refine(v, e, not truth)
            return self.join(*outs)
        if isinstance(test, ast.NamedExpr):
            return env
        nm, types = None, None
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and \
                isinstance(test.func.value, ast.Name) and test.func.attr in STR_ONLY and \
                test.func.value.id in env:
            # only text has this method, so a value that got here is text
            env = dict(env)
            env[test.func.value.id] = {
                x for x in env[test.func.value.id]
                if x[0] == 'I' and self.prog.find_method(
                    self.prog.classes[x[1]], test.func.attr, 'methods') is not None}
            return env
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id == 'isinstance' and len(test.args) == 2:
            nm, types = test.args[0], self.type_names(test.args[1], env)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and \
                isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) \
                and test.left.func.id == 'type' and len(test.left.args) == 1:
            nm, types = test.left.args[0], self.type_names(test.comparators[0], env)
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                truth = not truth
        if nm is None or not isinstance(nm, ast.Name) or types is None or nm.id not in env:
            return env
        kinds, classes, exact = types
        out = set()
        for x in env[nm.id]:
            if x[0] == 'U':
                ks = (x[2] & kinds) if truth else (x[2] - (kinds - {'o'}))
                if ks & CONT:
                    out.add(('U', x[1], frozenset(ks)))
                if truth:
                    for c in classes:
                        if 'o' in x[2]:
                            out.add(('I', c, ''))
            elif x[0] == 'O':
                kk = KIND_OF.get(x[1])
                if kk is None or (kk in kinds) == truth:
                    out.add(x)
            elif x[0] == 'I':
                names = {c.name for c in self.prog.mro(self.prog.classes[x[1]])}
                if bool(names & classes) == truth:
                    out.add(x)
            elif not truth:
                out.add(x)
        env = dict(env)
        env[nm.id] = out
        return env

    def type_names(self, e, env):
        els = e.elts if isinstance(e, ast.Tuple) else [e]
        kinds, classes = set(), set()
        for x in els:
            if isinstance(x, ast.Name) and x.id in self.prog.classes:
                classes.add(x.id)
            elif isinstance(x, ast.Name) and x.id in TYPE_KINDS:
                kinds |= set(TYPE_KINDS[x.id])
            elif isinstance(x, ast.Attribute) and x.attr in TYPE_KINDS:
                kinds |= set(TYPE_KINDS[x.attr])
            elif isinstance(x, ast.Name):
                r = self.prog.resolve_name(self.cmod, x.id)
                if r and r[0] == 'global':
                    sub = self.type_names(r[1].globals[r[2]], env)
                    if sub is None:
                        return None
                    kinds |= sub[0]
                    classes |= sub[1]
                else:
                    return None
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type':
                kinds |= {'o'}
            else:
                return None
        return kinds, classes, False

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None:
            return EMPTY
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return EMPTY
        return m(e, env)

    def e_Constant(self, e, env):
        return EMPTY

    def e_Name(self, e, env):
        if e.id in env and e.id not in self.globs:
            return env[e.id]
        return self.mod_name(self.cmod, e.id)

    def mod_name(self, module, name):
        r = self.prog.resolve_name(module, name)
        if r is None:
            return EMPTY
        if r[0] == 'func':
            return {('F', r[1], None)}
        if r[0] == 'class':
            return {('K', r[1].name)}
        if r[0] == 'global':
            return self.global_value(r[1], r[2])
        if r[0] == 'mod':
            return {('M', r[1].name)}
        return {('X', r[1])}

    def _init_eval(self, expr, module, label, ctx):
        save = (self.cur, self.cfi, self.cmod, self.share_label, getattr(self, 'globs', set()))
        self.cur, self.cfi, self.cmod = ('init', ctx), None, module
        self.share_label, self.globs = label, set()
        try:
            v = set(self.ev(expr, {}))
        finally:
            self.cur, self.cfi, self.cmod, self.share_label, self.globs = save
        out = set()
        for x in v:
            if x[0] == 'I' and not x[2]:
                x = ('I', x[1], label)
            out.add(x)
        return out

    def global_value(self, module, name):
        key = (module.name, name)
        if key not in self.gl:
            self.gl[key] = set()
            self.gl[key] = self._init_eval(module.globals[name], module,
                                           'module table %s.%s' % (module.name, name),
                                           (('G',) + key,))
        return self.gl[key]

    def default_value(self, fi, p):
        key = (fi.qual, p)
        if key not in self.defaults:
            self.defaults[key] = set()
            self.defaults[key] = self._init_eval(
                fi.defaults[p], fi.module, 'default argument %s of %s' % (p, fi.qual),
                (('D',) + key,))
        return self.defaults[key]

    def class_attr(self, cname, attr):
        hit = self.prog.find_class_attr(self.prog.classes[cname], attr)
        if hit is None:
            return EMPTY
        c, expr = hit
        key = (c.name, attr)
        if key not in self.cattrs:
            self.cattrs[key] = set()
            self.cattrs[key] = self._init_eval(expr, c.module, 'class attribute %s.%s' % key,
                                               (('A',) + key,))
        return self.cattrs[key]

    def e_Attribute(self, e, env):
        out = set()
        for r in self.ev(e.value, env):
            out |= self.get_attr(r, e.attr, e)
        return out

    def get_attr(self, r, attr, node):
        if r[0] == 'I':
            c = self.prog.classes[r[1]]
            g = self.prog.find_method(c, attr, 'getters')
            if g is not None:
                return self.invoke(g, r, [], {}, node)
            m = self.prog.find_method(c, attr)
            if m is not None:
                return {('F', m, r)} if m.kind != 'static' else {('F', m, None)}
            if attr == '__class__':
                return {('K', r[1])}
            if attr == '__dict__':
                return EMPTY
            out = set(self.load(r, ('a', attr)))
            if not self.always_set(c, attr):
                out |= self.class_attr(r[1], attr)
            return out
        if r[0] == 'K':
            c = self.prog.classes[r[1]]
            m = self.prog.find_method(c, attr)
            if m is not None:
                if m.kind == 'classmethod':
                    return {('F', m, r)}
                return {('F', m, None)}
            return self.class_attr(r[1], attr)
        if r[0] == 'M':
            return self.mod_name(self.prog.modules[r[1]], attr)
        if r[0] == 'X':
            return {('X', r[1] + '.' + attr)}
        if r[0] == 'O':
            return set(self.load(r, ('a', attr)))
        if r[0] == 'Super':
            for c in self.prog.mro(self.prog.classes[r[1]])[1:]:
                if attr in c.methods:
                    return {('F', c.methods[attr], r[2])}
            return EMPTY
        return EMPTY

    def always_set(self, c, attr):
        init = self.prog.find_method(c, '__init__')
        if init is None:
            return False
        for s in init.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(x, ast.Attribute) and x.attr == attr and \
                                isinstance(x.value, ast.Name) and x.value.id == init.args[0]:
                            return True
        return False

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                self.ev(x, env)
            return EMPTY
        return self.ev(s, env)

    def e_Subscript(self, e, env):
        base = self.ev(e.value, env)
        key = self.ev_slice(e.slice, env)
        out = set()
        for x in base:
            if x[0] == 'I':
                out |= self.special(x, '__getitem__', [key], e)
            elif isinstance(e.slice, ast.Slice):
                el = self.elements(x)
                kind = x[1] if x[0] == 'O' and x[1] in ('list', 'tuple') else 'list'
                if x[0] == 'U' and not (x[2] & {'l', 't'}):
                    continue
                o = self.alloc(kind, e, 'slice')
                self.store(o, 'rest', el)
                out.add(o)
            else:
                out |= self.item(x, e.slice)
        return out

    def _display(self, kind, e, env, elts):
        o = self.alloc(kind, e)
        star = False
        for i, x in enumerate(elts):
            if isinstance(x, ast.Starred):
                star = True
                self.store(o, 'rest', self.elements_of_set(self.ev(x.value, env)))
            else:
                v = self.ev(x, env)
                self.store(o, 'rest' if star or kind == 'set' else ('k', i), v)
        return {o}

    def e_List(self, e, env):
        return self._display('list', e, env, e.elts)

    def e_Tuple(self, e, env):
        return self._display('tuple', e, env, e.elts)

    def e_Set(self, e, env):
        return self._display('set', e, env, e.elts)

    def e_Dict(self, e, env):
        o = self.alloc('dict', e)
        explicit = set()
        for k, v in reversed(list(zip(e.keys, e.values))):
            if k is None:
                for x in self.ev(v, env):
                    self.merge_dict(o, x, skip=explicit)
            else:
                kv = self.ev(k, env)
                sl = self.slot(k)
                self.store(o, sl, self.ev(v, env))
                self.store(o, 'keys', kv)
                if sl != 'rest':
                    explicit.add(sl)
        return {o}

    def merge_dict(self, o, x, skip=()):
        if x[0] == 'U':
            if 'd' in x[2] or x[2] & {'l', 't'}:
                self.store(o, 'rest', self.values(x))
        elif x[0] == 'O':
            if x[1] == 'dict':
                for s in self.slots(x):
                    if isinstance(s, tuple) and s[0] == 'a' or s in skip:
                        continue
                    self.store(o, s, set(self.load(x, s)))
            else:
                for p in self.values(x):
                    self.store(o, 'rest', self.values(p))
                    self.store(o, 'keys', self.values(p))

    def _comp(self, e, env, parts, kind):
        env = dict(env)
        for g in e.generators:
            self.bind_iter(g.target, self.ev(g.iter, env), env, e)
            for c in g.ifs:
                self.ev(c, env)
                n = self.refine(c, env, True)
                if n is not None:
                    env = n
        o = self.alloc(kind, e)
        for p, slot in parts:
            self.store(o, slot, self.ev(p, env))
        return {o}

    def e_ListComp(self, e, env):
        return self._comp(e, env, [(e.elt, 'rest')], 'list')

    def e_SetComp(self, e, env):
        return self._comp(e, env, [(e.elt, 'rest')], 'set')

    def e_GeneratorExp(self, e, env):
        return self._comp(e, env, [(e.elt, 'rest')], 'iter')

    def e_DictComp(self, e, env):
        return self._comp(e, env, [(e.key, 'keys'), (e.value, 'rest')], 'dict')

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        a = self.refine(e.test, env, True)
        b = self.refine(e.test, env, False)
        return (self.ev(e.body, a) if a is not None else EMPTY) | \
            (self.ev(e.orelse, b) if b is not None else EMPTY)

    def e_BoolOp(self, e, env):
        out = set()
        cur = env
        for v in e.values:
            if cur is None:
                break
            out |= self.ev(v, cur)
            cur = self.refine(v, cur, isinstance(e.op, ast.And))
        return out

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        out = set()
        if isinstance(e.op, ast.Mult):
            kinds, both = ('list', 'tuple'), False
        elif isinstance(e.op, ast.Add):
            kinds, both = ('list', 'tuple'), True
        elif isinstance(e.op, ast.BitOr):
            kinds, both = ('dict', 'set'), True
        elif isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitXor)):
            kinds, both = ('set',), False
        else:
            return out
        for k in kinds:
            c = KIND_OF[k]

            def can(v, sure=False):
                return any((x[0] == 'O' and x[1] in (k, 'iter')) or
                           (x[0] == 'U' and c in x[2] and not (sure and 'o' in x[2])) for x in v)
            if both and not (can(a) and can(b) and (can(a, True) or can(b, True))):
                continue
            if not both and not (can(a, True) or can(b, True)):
                continue
            o = self.alloc(k, e, k)
            for x in set(a) | set(b):
                if (x[0] == 'O' and x[1] == k) or (x[0] == 'U' and c in x[2]):
                    if k == 'dict':
                        self.merge_dict(o, x)
                    else:
                        self.store(o, 'rest', self.elements(x))
            out.add(o)
        return out

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = set(v)
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return {('N', self.nest(e, env))}

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else EMPTY
        t = self.cur
        if t is not None and t[0] != 'init':
            self.yields(v)
        return EMPTY

    def yields(self, v):
        t = self.cur
        o = self.alloc('iter', self.cfi.node, 'gen')
        self.store(o, 'rest', v)
        r = self.ret.setdefault(t, set())
        if o not in r:
            r.add(o)
            self._touch(('ret', t))

    def e_YieldFrom(self, e, env):
        self.yields(self.elements_of_set(self.ev(e.value, env)))
        return EMPTY

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = e.func
        pos, star = [], EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = star | self.elements_of_set(self.ev(a.value, env))
                # positions after a star are unknown
                tup = self.ev(a.value, env)
                n = None
                for x in tup:
                    if x[0] == 'O' and x[1] in ('tuple', 'list'):
                        ks = [s[1] for s in self.slots(x) if isinstance(s, tuple) and s[0] == 'k'
                              and isinstance(s[1], int)]
                        n = max(n or 0, (max(ks) + 1) if ks else 0)
                for i in range(n or 0):
                    v = set()
                    for x in tup:
                        v |= self.load(x, ('k', i)) | self.load(x, 'rest') if x[0] == 'O' else self.elements(x)
                    pos.append(v)
            else:
                pos.append(self.ev(a, env))
        kws, kwrest = {}, []
        for k in e.keywords:
            if k.arg is None:
                kwrest.append(self.ev(k.value, env))
            else:
                kws[k.arg] = self.ev(k.value, env)
        if isinstance(f, ast.Name) and f.id not in env:
            b = self.builtin(f.id, e, pos, kws, kwrest, env)
            if b is not None:
                return b
        if isinstance(f, ast.Attribute):
            return self.method_call(f, e, pos, star, kws, kwrest, env)
        out = set()
        for r in self.ev(f, env):
            out |= self.call_ref(r, e, pos, star, kws, kwrest, env)
        return out

    def call_ref(self, r, e, pos, star, kws, kwrest, env):
        if r[0] == 'F':
            return self.invoke(r[1], r[2], pos, kws, e, star, kwrest)
        if r[0] == 'K':
            return self.construct(r[1], pos, kws, e, star, kwrest)
        if r[0] == 'N':
            return self.call_nested(r[1], pos, kws, e)
        if r[0] == 'X':
            return self.external(r[1], e, pos, kws, kwrest)
        if r[0] == 'I':
            return self.special(r, '__call__', pos, e)
        return EMPTY

    def method_call(self, f, e, pos, star, kws, kwrest, env):
        base = self.ev(f.value, env)
        # unbound container methods: dict.update(d, ...)
        if isinstance(f.value, ast.Name) and f.value.id in ('dict', 'list', 'set', 'tuple') \
                and f.value.id not in env:
            if f.attr == 'fromkeys':
                o = self.alloc('dict', e)
                for x in pos[0] if pos else ():
                    self.store(o, 'keys', self.elements(x))
                self.store(o, 'rest', pos[1] if len(pos) > 1 else EMPTY)
                return {o}
            out = set()
            for r in (pos[0] if pos else ()):
                out |= self.container_call(r, f.attr, e, pos[1:], kws, kwrest, e.args[1:])
            return out
        out = set()
        for r in base:
            if r[0] in ('U', 'O') and not (r[0] == 'O' and self.heap.get(r, {}).get(('a', f.attr))):
                out |= self.container_call(r, f.attr, e, pos, kws, kwrest, e.args)
            else:
                for g in self.get_attr(r, f.attr, e):
                    out |= self.call_ref(g, e, pos, star, kws, kwrest, env)
        return out

    def container_call(self, r, m, e, pos, kws, kwrest, argnodes):
        u = r[0] == 'U'
        if m in MUTATORS:
            ok = MUTATORS[m]
            if u and not (set(ok) & r[2]):
                return EMPTY
            if not u and KIND_OF.get(r[1]) and KIND_OF[r[1]] not in ok:
                return EMPTY
            self.mutated(r, e, '.%s()' % m, ok)
        k0 = argnodes[0] if argnodes else None
        if m in ('get', 'pop', 'setdefault'):
            out = set()
            if m == 'pop' and k0 is None:
                out |= self.values(r)
            elif m == 'pop' and not u and r[1] != 'dict':
                out |= self.values(r)
            else:
                out |= self.item(r, k0) if k0 is not None else EMPTY
            if len(pos) > 1:
                out |= pos[1]
                if m == 'setdefault' and not u:
                    self.store(r, self.slot(k0), pos[1])
                    self.store(r, 'keys', pos[0])
            if 'default' in kws:
                out |= kws['default']
            return out
        if m == 'popitem':
            o = self.alloc('tuple', e)
            self.store(o, 'rest', self.values(r) | self.elements(r))
            return {o}
        if m in ('items',):
            it = self.alloc('iter', e)
            tup = self.alloc('tuple', e, 'item')
            if u:
                if 'd' not in r[2]:
                    return EMPTY
                self.store(tup, ('k', 0), EMPTY)
                self.store(tup, ('k', 1), self.values(r))
            else:
                self.store(tup, ('k', 0), self.load(r, 'keys'))
                self.store(tup, ('k', 1), self.values(r))
            self.store(it, 'rest', {tup})
            return {it}
        if m in ('values', 'keys'):
            it = self.alloc('iter', e)
            self.store(it, 'rest', self.values(r) if m == 'values' else
                       (EMPTY if u else self.elements(r)))
            return {it}
        if m in ('copy', '__copy__'):
            kinds = [k for k in ('dict', 'list', 'set') if KIND_OF[k] in r[2]] if u else \
                ([r[1]] if r[1] in KIND_OF else ['list'])
            out = set()
            for kk in kinds:
                o = self.alloc(kk, e, kk)
                if kk == 'dict':
                    self.merge_dict(o, r)
                else:
                    self.store(o, 'rest', self.elements(r))
                out.add(o)
            return out
        if m in ('union', 'intersection', 'difference', 'symmetric_difference'):
            o = self.alloc('set', e)
            self.store(o, 'rest', self.elements(r))
            for p in pos:
                self.store(o, 'rest', self.elements_of_set(p))
            return {o}
        if m == '__getitem__':
            return self.item(r, k0)
        if m in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition') and u and 'o' in r[2]:
            return {self.alloc('list', e)}
        if not u:
            if m == 'append' or m == 'appendleft':
                for p in pos[:1]:
                    self.store(r, 'rest', p)
            elif m == 'insert':
                for p in pos[1:2]:
                    self.store(r, 'rest', p)
            elif m in ('extend', '__iadd__', 'extendleft'):
                for p in pos[:1]:
                    self.store(r, 'rest', self.elements_of_set(p))
            elif m == 'add':
                for p in pos[:1]:
                    self.store(r, 'rest', p)
            elif m in ('update', '__ior__'):
                for p in pos:
                    for x in p:
                        if r[1] == 'dict':
                            self.merge_dict(r, x)
                        else:
                            self.store(r, 'rest', self.elements(x))
                for k, v in kws.items():
                    self.store(r, ('k', k), v)
                for p in kwrest:
                    for x in p:
                        self.merge_dict(r, x)
            elif m == '__setitem__' and len(pos) > 1:
                self.store(r, self.slot(k0), pos[1])
        return EMPTY

    def builtin(self, name, e, pos, kws, kwrest, env):
        if self.prog.resolve_name(self.cmod, name) is not None:
            return None
        p0 = pos[0] if pos else EMPTY
        if name in ('list', 'tuple', 'set', 'sorted', 'reversed', 'frozenset', 'iter', 'filter',
                    'deque'):
            if name == 'filter' and len(pos) > 1:
                p0 = pos[1]
            kind = {'sorted': 'list', 'reversed': 'iter', 'frozenset': 'set', 'iter': 'iter',
                    'filter': 'iter', 'deque': 'list'}.get(name, name)
            o = self.alloc(kind, e)
            self.store(o, 'rest', self.elements_of_set(p0))
            for kf in (kws.get('key'),):
                for r in kf or ():
                    self.call_ref(r, e, [self.elements_of_set(p0)], EMPTY, {}, [], env)
            return {o}
        if name == 'dict':
            o = self.alloc('dict', e)
            for k, v in kws.items():
                self.store(o, ('k', k), v)
            skip = {('k', k) for k in kws}
            for p in [p0] + kwrest:
                for x in p:
                    self.merge_dict(o, x, skip)
            return {o}
        if name == 'enumerate':
            o = self.alloc('iter', e)
            t = self.alloc('tuple', e, 'item')
            self.store(t, ('k', 0), EMPTY)
            self.store(t, ('k', 1), self.elements_of_set(p0))
            self.store(o, 'rest', {t})
            return {o}
        if name == 'zip':
            o = self.alloc('iter', e)
            t = self.alloc('tuple', e, 'item')
            for i, p in enumerate(pos):
                self.store(t, ('k', i), self.elements_of_set(p))
            self.store(o, 'rest', {t})
            return {o}
        if name == 'map':
            o = self.alloc('iter', e)
            v = set()
            for r in p0:
                v |= self.call_ref(r, e, [self.elements_of_set(p) for p in pos[1:]], EMPTY, {}, [], env)
            self.store(o, 'rest', v)
            return {o}
        if name in ('next', 'max', 'min'):
            out = set(self.elements_of_set(p0))
            if name == 'next':
                for r in p0:
                    if r in self.shared:
                        self.mutated(r, e, 'next()')
                if len(pos) > 1:
                    out |= pos[1]
            else:
                for p in pos:
                    out |= p if len(pos) > 1 else EMPTY
            if 'default' in kws:
                out |= kws['default']
            return out
        if name == 'sum':
            return EMPTY
        if name == 'super':
            fi = self.cfi
            if fi is not None and fi.cls is not None and fi.args:
                return {('Super', fi.cls.name, x) for x in env.get(fi.args[0], EMPTY)}
            return EMPTY
        if name == 'type' and len(pos) == 1:
            return {('K', x[1]) for x in p0 if x[0] == 'I'}
        if name == 'setattr' and len(pos) >= 3:
            a = e.args[1]
            for r in p0:
                if isinstance(a, ast.Constant):
                    self.set_attr(r, a.value, pos[2], e)
                elif r[0] in ('K', 'M'):
                    self.shared_mut(e, 'setattr', str(r[1]))
                elif r[0] == 'I':
                    self.store(r, ('a', '*'), pos[2])
            return EMPTY
        if name == 'getattr' and len(pos) >= 2:
            a = e.args[1]
            out = set()
            for r in p0:
                if isinstance(a, ast.Constant):
                    out |= self.get_attr(r, a.value, e)
                elif r[0] == 'I':
                    for s in self.slots(r):
                        if isinstance(s, tuple) and s[0] == 'a':
                            out |= self.load(r, s)
                    c = self.prog.classes[r[1]]
                    for k in self.prog.mro(c):
                        for m in k.methods.values():
                            out.add(('F', m, r))
            if len(pos) > 2:
                out |= pos[2]
            return out
        if name in ('vars', 'globals', 'locals'):
            return EMPTY
        if name in BUILTIN_NAMES:
            return EMPTY
        return None

    def external(self, dotted, e, pos, kws, kwrest):
        parts = tuple(dotted.split('.'))
        last2 = parts[-2:]
        if last2 in EXT_MUT:
            i = EXT_MUT[last2]
            if i < len(pos):
                for r in pos[i]:
                    self.mutated(r, e, '%s()' % '.'.join(last2), 'ld')
            return EMPTY
        name = parts[-1]
        if parts[0] == 'copy' and name == 'deepcopy':
            out = set()
            for r in (pos[0] if pos else ()):
                if r[0] == 'U' or (r[0] == 'O' and r[1] in KIND_OF):
                    kinds = r[2] & CONT if r[0] == 'U' else {KIND_OF[r[1]]}
                    for kk, c in KIND_OF.items():
                        if c in kinds:
                            o = self.alloc(kk, e, kk)
                            self.store(o, 'rest', {o})
                            out.add(o)
                elif r[0] == 'I':
                    out.add(r)
            return out
        if parts[0] == 'copy' and name == 'copy':
            out = set()
            for r in (pos[0] if pos else ()):
                if r[0] in ('U', 'O'):
                    out |= self.container_call(r, 'copy', e, [], {}, [], [])
                else:
                    out.add(r)
            return out
        if parts[0] == 'json' and name in ('loads', 'load'):
            o = self.alloc('dict', e, 'json')
            self.store(o, 'rest', {o})
            return {o}
        if parts[0] in ('collections', 'itertools', 'functools', 'operator', 'types', 'typing'):
            if name in ('partial',):
                return pos[0] if pos else EMPTY
            if name in ('defaultdict',):
                o = self.alloc('dict', e)
                for r in pos[0] if pos else ():
                    if r[0] == 'N' or r[0] == 'F':
                        self.store(o, 'rest', self.call_ref(r, e, [], EMPTY, {}, [], {}))
                if e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ('list', 'dict', 'set'):
                    self.store(o, 'rest', {self.alloc(e.args[0].id, e, 'dd')})
                for p in pos[1:]:
                    for x in p:
                        self.merge_dict(o, x)
                return {o}
            if name in ('OrderedDict', 'Counter', 'UserDict', 'ChainMap', 'MappingProxyType'):
                o = self.alloc('dict', e)
                for p in list(pos) + list(kwrest):
                    for x in p:
                        self.merge_dict(o, x)
                for k, v in kws.items():
                    self.store(o, ('k', k), v)
                if name == 'ChainMap':
                    return {o} | (set(pos[0]) if pos else set())
                return {o}
            o = self.alloc('list' if name == 'deque' else 'iter', e)
            for p in pos:
                el = self.elements_of_set(p)
                self.store(o, 'rest', el)
                if name in ('from_iterable', 'chain'):
                    self.store(o, 'rest', self.elements_of_set(el))
            return {o}
        return EMPTY

    def special(self, r, name, pos, node):
        m = self.prog.find_method(self.prog.classes[r[1]], name)
        if m is None:
            return EMPTY
        return self.invoke(m, r, pos, {}, node if node is not None else m.node)

    def construct(self, cname, pos, kws, e, star=EMPTY, kwrest=()):
        c = self.prog.classes[cname]
        tag = self.share_label or ''
        if not tag and cname in self.by_site:
            tag = '@%s:%s %s' % (self.cmod.name, getattr(e, 'lineno', 0),
                                 (self.cur[1] if self.cur else ())[:1])
        inst = ('I', cname, tag)
        init = self.prog.find_method(c, '__init__')
        if init is not None:
            self.invoke(init, inst, pos, kws, e, star, kwrest)
        new = self.prog.find_method(c, '__new__')
        if new is not None:
            self.invoke(new, ('K', cname), pos, kws, e, star, kwrest)
        return {inst}

    def call_nested(self, i, pos, kws, e):
        if i in self.inline or len(self.inline) > 6:
            return EMPTY
        node = self.nested[i]
        env = dict(self.capture.get(i) or {})
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, pos):
            env[n] = set(v)
        for n in names[len(pos):]:
            env[n] = set(kws.get(n, ()))
        for x in a.kwonlyargs:
            env[x.arg] = set(kws.get(x.arg, ()))
        ndef = len(a.defaults)
        for n, d in zip(names[len(names) - ndef:], a.defaults):
            if n in names[len(pos):] and n not in kws:
                env[n] = set(self.ev(d, self.capture.get(i) or {}))
        self.inline.append(i)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            fl = _Flow()
            self.exec_body(node.body, env, fl)
            return fl.ret
        finally:
            self.inline.pop()

    def invoke(self, fi, recv, pos, kws, node, star=EMPTY, kwrest=()):
        site = (self.cmod.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        base = self.cur[1] if self.cur is not None else ()
        if base == ('entry',):
            base = ()
        # recursion is collapsed: a function already on the call string keeps the context in which
        # it was entered, so what one outer call site builds is never mixed with another's
        for i, c in enumerate(base):
            if c[-1] == fi.qual:
                ctx = tuple(base[i:])
                break
        else:
            ctx = ((site + (fi.qual,),) + tuple(base))[:self.k]
        self.calls.add((self.cmod.name, site, fi.qual))
        args = {}
        params = list(fi.args)
        if recv is not None and params and fi.kind != 'static':
            args[params[0]] = {recv}
            params = params[1:]
        elif fi.name == '__new__' and recv is not None:
            args[params[0]] = {recv}
            params = params[1:]
        for n, v in zip(params, pos):
            args[n] = set(v)
        extra = pos[len(params):]
        rest = params[len(pos):]
        names = set(rest) | set(fi.kwonly)
        kwdict = {}
        for k, v in kws.items():
            if k in names or k in fi.args:
                args[k] = set(args.get(k, ())) | set(v)
            else:
                kwdict[k] = v
        for n in list(rest) + list(fi.kwonly):
            if n in kws:
                continue
            v = set()
            hit = False
            if star and n in rest:
                v |= star
            for kv in kwrest:
                for x in kv:
                    if x[0] == 'O' and x[1] == 'dict':
                        v |= self.load(x, ('k', n)) | self.load(x, 'rest')
                    else:
                        v |= self.values(x)
            if n in fi.defaults:
                v |= self.default_value(fi, n)
            args[n] = v
        if fi.vararg:
            o = self.alloc('tuple', node, 'va' + fi.qual)
            for v in extra:
                self.store(o, 'rest', set(v))
            self.store(o, 'rest', set(star))
            args[fi.vararg] = {o}
        if fi.kwarg:
            o = self.alloc('dict', node, 'kw' + fi.qual)
            for k, v in kwdict.items():
                self.store(o, ('k', k), set(v))
            for kv in kwrest:
                for x in kv:
                    self.merge_dict(o, x)
            args[fi.kwarg] = {o}
        for n in args:
            if args[n] and self.scalar_param(fi, n):
                args[n] = set()
        sp = self.split_param(fi)
        if sp is not None and len(args.get(sp, ())) > 1:
            # one object at a time, so that what is taken out of one is never put into another
            out = set()
            for x in args[sp]:
                c = ctx
                if not any(y[0] == 'obj' for y in _flat_sites(x)):
                    c = ((('obj', x, fi.qual),) + ctx)[:max(self.k, 1)]
                t = self.push(fi, c, dict(args, **{sp: {x}}))
                self._dep(('ret', t))
                out |= self.ret.get(t, set())
            return out
        t = self.push(fi, ctx, args)
        self._dep(('ret', t))
        return set(self.ret.get(t, ()))

    def split_param(self, fi):
        """the parameter of a one-parameter function that changes it in place"""
        if fi.qual not in self.splits:
            r = None
            if fi.cls is None and len(fi.args) == 1 and not fi.kwonly and not fi.vararg:
                p = fi.args[0]
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name) and n.value.id == p:
                        r = p
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            isinstance(n.func.value, ast.Name) and n.func.value.id == p and \
                            n.func.attr in MUTATORS:
                        r = p
            self.splits[fi.qual] = r
        return self.splits[fi.qual]


def _flat_sites(x):
    """the call-string entries in an object's allocation site"""
    if x[0] != 'O' or not isinstance(x[2][-1], tuple):
        return ()
    return [c for c in x[2][-1] if isinstance(c, tuple) and c]


_B = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)

BUILTIN_NAMES = frozenset(_B)


def _as_load(t):
    c = type(t)
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t
