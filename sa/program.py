"""Program model: modules, classes, functions, name resolution, attribute types.

Parses the package from source on every run; nothing is imported or executed.
"""
import ast
import os

from .unextract import Normal
from .settle import settle_module, constants


class AnchorMissing(Exception):
    """Something the analysis is anchored in no longer exists."""


# the functions of the pinned tree. A check may treat these as steps of their own (opaque); a function that is not
# listed is a helper somebody extracted or renamed, and is always followed
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.txt')) as _f:
    KNOWN = frozenset(_f.read().split())


class FuncInfo:
    def __init__(self, node, module, cls=None, kind='method'):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.kind = kind          # function | method | static | classmethod | getter | setter
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = self.args
        for name, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[name] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.annotations = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                self.annotations[x.arg] = x.annotation
        self.is_generator = _has_yield(node)
        self.known = self.qual in KNOWN     # a function of the pinned tree, as opposed to a helper extracted since

    alias = None

    @property
    def qual(self):
        if self.alias:
            return self.alias
        base = (self.cls.name + '.' if self.cls else '') + self.name
        if self.kind == 'setter':
            base += '.setter'
        return base

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, 'lineno') else self.node
        return '{}:{} in {}'.format(self.module.relpath, n.lineno, self.qual)

    def __repr__(self):
        return '<Func %s>' % self.qual


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_names = [b.id if isinstance(b, ast.Name) else
                           (b.attr if isinstance(b, ast.Attribute) else None)
                           for b in node.bases]
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                for d in s.decorator_list:
                    if isinstance(d, ast.Name):
                        if d.id == 'staticmethod':
                            kind = 'static'
                        elif d.id == 'classmethod':
                            kind = 'classmethod'
                        elif d.id in ('property', 'cached_property'):
                            kind = 'getter'
                    elif isinstance(d, ast.Attribute):
                        if d.attr == 'setter':
                            kind = 'setter'
                        elif d.attr in ('abstractproperty', 'cached_property'):
                            kind = 'getter'
                f = FuncInfo(s, module, self, kind)
                if kind == 'getter':
                    self.getters[s.name] = f
                elif kind == 'setter':
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return '<Class %s>' % self.name


class ModuleInfo:
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, 'rb') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self.imports = {}

    def index(self):
        for s in self.tree.body:
            self._top(s)

    def _top(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.functions[s.name] = FuncInfo(s, self, None, 'function')
        elif isinstance(s, ast.ClassDef):
            self.classes[s.name] = ClassInfo(s, self)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
            self.globals[s.target.id] = s.value
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                self.imports[a.asname or a.name] = (s.module or '', a.name, s.level)
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split('.')[0]] = (a.name, None, 0)
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body + getattr(s, 'orelse', []) + getattr(s, 'finalbody', []):
                self._top(x)


CONTAINER_METHODS = {
    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'index', 'count',
    'copy', 'get', 'keys', 'values', 'items', 'update', 'setdefault', 'popitem', 'add', 'discard',
    'join', 'split', 'strip', 'replace', 'encode', 'decode', 'format', 'startswith', 'endswith',
    'lower', 'upper', 'zfill', 'isspace', 'find', 'read', 'write', 'seek', 'close', 'open', 'save',
    'rpartition', 'partition', 'union', 'difference', 'lstrip', 'rstrip', 'title', 'translate'}


class Program:
    def __init__(self, root=None, pkg='pdfme'):
        self.root = root or os.environ.get('VERIF_REPO', '/repo')
        self.pkg = pkg
        d = os.path.join(self.root, pkg)
        if not os.path.isdir(d):
            raise AnchorMissing('package directory %s' % d)
        self.modules = {}
        for dirpath, dirnames, files in os.walk(d):
            dirnames[:] = sorted(x for x in dirnames if x != '__pycache__')
            for fn in sorted(files):
                if not fn.endswith('.py'):
                    continue
                p = os.path.join(dirpath, fn)
                rel = os.path.relpath(p, self.root)
                name = os.path.relpath(p, d)[:-3].replace(os.sep, '.')
                self.modules[name] = ModuleInfo(name, p, rel)
        constants({m.name: m.tree for m in self.modules.values()})
        Normal({m.name: m.tree for m in self.modules.values()}, KNOWN)
        for m in self.modules.values():
            settle_module(m.tree)
        self.classes = {}
        self.functions = {}
        for m in self.modules.values():
            m.index()
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
            for f in m.functions.values():
                if f.name in self.functions:
                    f.alias = '%s:%s' % (m.name, f.name)    # another module has a function of this name
                    f.known = False
                self.functions.setdefault(f.qual, f)
        self._types = None

    # ------------------------------------------------------------ lookups
    def cls(self, name):
        if name not in self.classes:
            raise AnchorMissing('class %s' % name)
        return self.classes[name]

    def func(self, qual):
        """'Class.method' or 'function' (module-level)."""
        if '.' in qual and ':' not in qual:
            c, m = qual.split('.', 1)
            f = self.find_method(self.cls(c), m)
            if f is None:
                raise AnchorMissing('method %s' % qual)
            return f
        if qual not in self.functions:
            raise AnchorMissing('function %s' % qual)
        return self.functions[qual]

    def has_func(self, qual):
        try:
            self.func(qual)
            return True
        except AnchorMissing:
            return False

    def mro(self, cls):
        out, seen = [], set()

        def go(c):
            if c is None or c.name in seen:
                return
            seen.add(c.name)
            out.append(c)
            for b in c.base_names:
                if b in self.classes:
                    go(self.classes[b])
        go(cls)
        return out

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in self.mro(c)]

    def find_method(self, cls, name, kind='methods'):
        for c in self.mro(cls):
            t = getattr(c, kind)
            if name in t:
                return t[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for t in (c.methods, c.getters, c.setters):
                    for f in t.values():
                        yield f

    def resolve_name(self, module, name):
        """Resolve a module-level name -> ('func', FuncInfo) | ('class', ClassInfo) |
        ('global', ModuleInfo, name) | ('extmod', dotted) | ('ext', dotted) | ('mod', ModuleInfo) | None"""
        seen = set()
        while True:
            if name in module.functions:
                return ('func', module.functions[name])
            if name in module.classes:
                return ('class', module.classes[name])
            if name in module.globals:
                return ('global', module, name)
            if name in module.imports:
                src, attr, level = module.imports[name]
                if (module.name, name) in seen:
                    return None
                seen.add((module.name, name))
                tgt = None
                if level > 0 or src.split('.')[0] == self.pkg:
                    s = src
                    if s.split('.')[0] == self.pkg:
                        s = '.'.join(s.split('.')[1:])
                    if s in self.modules:
                        tgt = self.modules[s]
                    elif s == '' and attr in self.modules:
                        return ('mod', self.modules[attr])
                    elif s == '' and '__init__' in self.modules:
                        tgt = self.modules['__init__']
                if tgt is not None:
                    if attr is None:
                        return ('mod', tgt)
                    module, name = tgt, attr
                    continue
                if attr is None:
                    return ('extmod', src)
                return ('ext', src + '.' + attr)
            return None

    # ------------------------------------------------------------ types
    def ann_type(self, ann):
        """annotation -> simple type name (package class or builtin) or None"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                return self.ann_type(ast.parse(ann.value, mode='eval').body)
            except SyntaxError:
                return None
        if isinstance(ann, ast.Name):
            if ann.id in self.classes or ann.id in ('str', 'int', 'float', 'bool', 'bytes',
                                                    'dict', 'list', 'tuple', 'set'):
                return ann.id
            if ann.id == 'Number':
                return 'Number'
            return None
        if isinstance(ann, ast.Attribute):
            return ann.attr if ann.attr in self.classes else None
        if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) \
                and ann.value.id == 'Optional':
            return self.ann_type(ann.slice)
        return None

    @property
    def attr_types(self):
        """{class name: {attr: type}} for instance attributes, and
        {class name: {attr: elemtype}} under key '[]'."""
        if self._types is None:
            self._types = self._infer_types()
        return self._types

    def attr_type(self, clsname, attr):
        c = self.classes.get(clsname)
        if c is None:
            return None
        for k in self.mro(c):
            t = self.attr_types.get(k.name, {}).get(attr)
            if t:
                return t
        return None

    def elem_type(self, clsname, attr):
        c = self.classes.get(clsname)
        if c is None:
            return None
        for k in self.mro(c):
            t = self.attr_types.get(k.name, {}).get('[]' + attr)
            if t:
                return t
        return None

    def func_ret_type(self, f):
        return self.ann_type(f.node.returns)

    def _infer_types(self):
        out = {c: {} for c in self.classes}
        conflict = set()

        def put(c, a, t):
            if t is None:
                return
            cur = out[c].get(a)
            if cur is None:
                out[c][a] = t
            elif cur != t:
                # prefer package classes
                if cur in self.classes and t not in self.classes:
                    return
                if t in self.classes and cur not in self.classes:
                    out[c][a] = t
                    return
                conflict.add((c, a))
        for _ in range(3):
            for f in self.all_functions():
                if f.cls is None:
                    continue
                env = {}
                if f.kind not in ('static',) and f.args:
                    env[f.args[0]] = f.cls.name
                for a, ann in f.annotations.items():
                    t = self.ann_type(ann)
                    if t:
                        env[a] = t
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                        if n.value is None:
                            continue
                        t = self._expr_type(n.value, env, f, out)
                        for tg in targets:
                            if isinstance(tg, ast.Name) and t:
                                env.setdefault(tg.id, t)
                            elif isinstance(tg, ast.Attribute):
                                bt = self._expr_type(tg.value, env, f, out)
                                if bt in out:
                                    put(bt, tg.attr, t)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                            and n.func.attr == 'append' and n.args:
                        r = n.func.value
                        if isinstance(r, ast.Attribute):
                            bt = self._expr_type(r.value, env, f, out)
                            t = self._expr_type(n.args[0], env, f, out)
                            if bt in out and t in self.classes:
                                put(bt, '[]' + r.attr, t)
        for c, a in conflict:
            if out[c].get(a) not in self.classes:
                out[c].pop(a, None)
        return out

    def _expr_type(self, e, env, f, out):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return 'bool'
            if isinstance(e.value, str):
                return 'str'
            if isinstance(e.value, bytes):
                return 'bytes'
            if isinstance(e.value, (int, float)):
                return 'Number'
            return None
        if isinstance(e, ast.Dict):
            return 'dict'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, ast.Attribute):
            bt = self._expr_type(e.value, env, f, out)
            if bt in self.classes:
                c = self.classes[bt]
                g = self.find_method(c, e.attr, 'getters')
                if g:
                    return self.func_ret_type(g)
                for k in self.mro(c):
                    t = out[k.name].get(e.attr)
                    if t:
                        return t
            return None
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute):
                bt = self._expr_type(e.value.value, env, f, out)
                if bt in self.classes:
                    for k in self.mro(self.classes[bt]):
                        t = out[k.name].get('[]' + e.value.attr)
                        if t:
                            return t
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                r = self.resolve_name(f.module, e.func.id)
                if r and r[0] == 'class':
                    return r[1].name
                if r and r[0] == 'func':
                    return self.func_ret_type(r[1])
                if e.func.id in ('set', 'dict', 'list', 'str'):
                    return e.func.id
            elif isinstance(e.func, ast.Attribute):
                bt = self._expr_type(e.func.value, env, f, out)
                if bt in self.classes:
                    m = self.find_method(self.classes[bt], e.func.attr)
                    if m:
                        return self.func_ret_type(m)
                else:
                    cands = self.cha(e.func.attr)
                    if len(cands) == 1:
                        return self.func_ret_type(cands[0])
            return None
        if isinstance(e, ast.IfExp):
            return self._expr_type(e.body, env, f, out) or self._expr_type(e.orelse, env, f, out)
        return None

    def cha(self, name):
        """methods called `name` over all package classes (one per defining class), not
        container-like names"""
        if name in CONTAINER_METHODS:
            return []
        return [c.methods[name] for c in self.classes.values() if name in c.methods]
