"""C18: the order of the output never depends on hash order, addresses or time."""
import ast
from .common import *
from . import isolation
from .. import flow
from ..order import Order

TECHNIQUE = ('whole-program points-to analysis extended with collection order: sets and everything filled by iterating over '
             'them are followed to every place that consumes an order; sources of random and environment-dependent values are '
             'followed through assignments, calls and returns to their uses')


def run(prog, rep):
    rep.rule('order', 'no unordered collection decides the order in which anything is processed or written')
    rep.rule('random', 'random and environment-dependent values are used for the file identifier and for unnamed anchors only')
    rep.rule('unnamed', 'a random anchor name is used only where the caller gave no name')
    rep.section('order', order, prog, rep)
    rep.section('random', random_, prog, rep)


def order(prog, rep):
    p = isolation.solve(prog, rep, 2, Order)
    seeds, un = p.unordered()
    rep.count('unordered collections', len(seeds))
    rep.count('places that consume an order', len(p.uses))
    for fi, node, how, objs, extra in p.uses.values():
        hit = {o for o in objs if o in un}
        if how == 'ties left in place' and not hit:
            continue
        if not hit:
            rep.ok('order', fi.loc(node))
            continue
        if all(o in p.sorts for o in hit):
            rep.ok('order', fi.loc(node))
            continue
        what = 'a set' if any(o in seeds for o in hit) else 'something filled from a set'
        if how == 'for' or how == 'comprehension':
            v, why = body(prog, fi, node)
            rep.check(v, 'order', fi.loc(node), 'the order of %s decides the order of %s' % (what, why))
        else:
            rep.bad('order', fi.loc(node), {'unpacked': 'the elements of %s are told apart by position',
                                            'picked by position': 'an element of %s is picked by position',
                                            'handed over by position': 'the elements of %s are handed over by position',
                                            'joined': '%s is joined in its own order', 'printed': '%s is printed in its own order',
                                            'an arbitrary element': 'an arbitrary element is taken from %s',
                                            'ties left in place': '%s is sorted by a key that does not tell all elements apart'}[how] % what)


PURE = {'len', 'isinstance', 'str', 'int', 'float', 'repr', 'bool', 'min', 'max', 'abs', 'round', 'sum', 'any', 'all', 'set', 'frozenset', 'sorted',
        'tuple', 'list', 'type', 'hasattr', 'getattr', 'print'}


def body(prog, fi, loop):
    """(True: any order gives the same, False: not, None), what is decided"""
    res = True
    inside = loop.body + loop.orelse if isinstance(loop, ast.For) else [loop.elt] if hasattr(loop, 'elt') else [loop.key, loop.value]
    for n in [x for s in inside for x in ast.walk(s)]:
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return False, 'the values produced'
        if isinstance(n, ast.AugAssign):
            if isinstance(n.op, ast.Add) and not isinstance(n.value, ast.Constant):
                return False, 'what is added together'
        elif isinstance(n, (ast.Assign, ast.Return, ast.Break, ast.Delete)):
            res = None
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in ('append', 'extend', 'insert', 'write', 'appendleft', 'writelines'):
                    return False, 'what is collected'
                if f.attr in ('add', 'discard') and not [g for g in prog.cha(f.attr)]:
                    continue
                if f.attr in ('add', 'discard') and isinstance(f.value, ast.Name):
                    res = None
                    continue
                if f.attr in ('setdefault', 'update', 'pop'):
                    res = None
                    continue
            gs = targets(prog, fi, n)
            if any(flow.mod_attrs(prog, g) or changes(prog, g) for g in gs):
                return False, 'the calls of ' + (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?'))
            if not gs and not (isinstance(f, ast.Name) and f.id in PURE) and not isinstance(f, ast.Attribute):
                res = None
    return res, 'the elements'


def targets(prog, fi, call):
    f = call.func
    if isinstance(f, ast.Name):
        r = prog.resolve_name(fi.module, f.id)
        if r and r[0] == 'func':
            return [r[1]]
        if r and r[0] == 'class':
            m = prog.find_method(r[1], '__init__')
            return [m] if m else []
        return []
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name) and fi.cls is not None and fi.args and f.value.id == fi.args[0]:
            m = prog.find_method(fi.cls, f.attr)
            if m is not None:
                return [m]
        return list(prog.cha(f.attr))
    return []


def changes(prog, fi):
    for g in flow.reach(prog, fi):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'write', 'extend', 'insert', 'setdefault'):
                return True
    return False


# ------------------------------------------------------------------ random values
SOURCES = {'uuid', 'random', 'secrets', 'time', 'datetime', 'socket', 'platform', 'getpass', 'tempfile', 'locale'}
OS = {'urandom', 'environ', 'getenv', 'getpid', 'getppid', 'getcwd', 'listdir', 'scandir', 'uname', 'getlogin', 'stat', 'times', 'cpu_count'}
BUILTIN = {'id', 'hash'}


def dotted(prog, fi, n):
    """full name of an imported thing"""
    at = []
    while isinstance(n, ast.Attribute):
        at.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    if n.id in local(fi):
        return None
    r = prog.resolve_name(fi.module, n.id)
    if r and r[0] == 'global' and not at and source_global(prog, r[1], r[2]):
        return 'random.' + n.id
    if r and r[0] in ('ext', 'extmod'):
        return '.'.join([r[1]] + at[::-1])
    if r is None and not at and n.id in BUILTIN:
        return 'builtins.' + n.id
    for imp in ast.walk(fi.node):
        if isinstance(imp, ast.Import):
            for a in imp.names:
                if (a.asname or a.name.split('.')[0]) == n.id:
                    return '.'.join([a.name if a.asname else n.id] + at[::-1])
        elif isinstance(imp, ast.ImportFrom) and imp.module and not imp.level:
            for a in imp.names:
                if (a.asname or a.name) == n.id:
                    return '.'.join([imp.module, a.name] + at[::-1])
    return None


def source_global(prog, mod, name):
    g = mod.globals.get(name)
    if not isinstance(g, ast.AST):
        return False
    for x in ast.walk(g):
        if isinstance(x, ast.Name):
            r = prog.resolve_name(mod, x.id)
            if r and r[0] in ('ext', 'extmod'):
                p = r[1]
                if p.split('.')[0] in SOURCES or p.split('.')[0] == 'os' and p.split('.')[-1] in OS:
                    return True
    return False


def local(fi):
    return set(fi.args) | set(fi.kwonly) | {x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def is_source(d):
    if d is None:
        return False
    p = d.split('.')
    return p[0] in SOURCES or p[0] == 'os' and any(x in OS for x in p[1:]) or d in ('builtins.id', 'builtins.hash')


class Follow:
    """flow-insensitive following of a value inside a function and across calls"""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.params, self.rets, self.attrs = set(), set(), set()
        self.done = set()
        self.found = []
        self.again = True

    def solve(self):
        while self.again:
            self.again = False
            self.found = []
            for fi in self.prog.all_functions():
                self.function(fi)
        return self.found

    def mark(self, s, x):
        if x not in s:
            s.add(x)
            self.again = True

    def function(self, fi):
        names = {p for q, p in self.params if q == fi.qual}
        parents = {}
        for n in ast.walk(fi.node):
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        src = [n for n in ast.walk(fi.node) if self.starts(fi, n, parents)]
        start = len(names)
        work = list(src)
        seen = set()
        loads = lambda nm: [x for x in ast.walk(fi.node) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
        for nm in sorted(names):
            work += loads(nm)
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            for kind, v in self.flows(fi, n, parents):
                if kind == 'name':
                    work += loads(v)
                elif kind == 'up':
                    work.append(v)
                elif kind == 'use':
                    self.found.append((fi, n, v, bool(src)))

    def starts(self, fi, n, parents):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load):
            if isinstance(parents.get(n), ast.Attribute):
                return False
            if is_source(dotted(self.prog, fi, n)):
                if isinstance(parents.get(n), ast.Compare) and isinstance(n, ast.Name):
                    return False          # the function itself, not what it returns
                return not (isinstance(n, ast.Name) and self.annotation(n, parents))
        if isinstance(n, ast.Call) and any(g.qual in self.rets for g in targets(self.prog, fi, n)):
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (n.attr in self.attrs or any(
                n.attr in c.getters and c.getters[n.attr].qual in self.rets for c in self.prog.classes.values())):
            return True
        return False

    @staticmethod
    def annotation(n, parents):
        x = n
        while x in parents:
            y = parents[x]
            if isinstance(y, ast.arg) or isinstance(y, ast.AnnAssign) and y.annotation is x:
                return True
            x = y
        return False

    def flows(self, fi, n, parents):
        p = parents.get(n)
        if p is None:
            return
        if isinstance(p, ast.Call):
            if n is p.func:
                yield 'up', p
                return
            f = p.func
            gs = targets(self.prog, fi, p)
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if isinstance(f, ast.Attribute) and nm in ('append', 'add', 'extend', 'insert', 'setdefault', 'update') and \
                    not (gs and not isinstance(f.value, (ast.Subscript, ast.Name))):
                yield 'use', p
                return
            if not gs:
                yield 'up', p
                return
            for g in gs:
                ps = g.args[1:] if g.cls is not None and g.kind != 'static' else g.args
                if n in p.args:
                    i = p.args.index(n)
                    if i < len(ps):
                        self.mark(self.params, (g.qual, ps[i]))
            yield 'up', p
            return
        if isinstance(p, ast.keyword):
            c = parents[p]
            for g in targets(self.prog, fi, c):
                if p.arg in list(g.args) + list(g.kwonly):
                    self.mark(self.params, (g.qual, p.arg))
            yield 'up', c
            return
        if isinstance(p, ast.Attribute):
            yield 'up', p
            return
        if isinstance(p, (ast.BinOp, ast.BoolOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue, ast.Subscript, ast.IfExp, ast.Starred,
                          ast.Tuple, ast.List, ast.Set)):
            if isinstance(p, ast.Subscript) and isinstance(p.ctx, (ast.Store, ast.Del)):
                yield 'use', p
            else:
                yield 'up', p
            return
        if isinstance(p, ast.Dict):
            if n in p.values:
                k = p.keys[p.values.index(n)]
                if isinstance(k, ast.Constant) and k.value in ('ID', 'label', 'text', 'level'):
                    yield 'use', p
                    return
            yield 'up', p
            return
        if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if isinstance(p, ast.NamedExpr):
                yield 'up', p
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name):
                        yield 'name', x.id
                    elif isinstance(x, ast.Attribute):
                        self.mark(self.attrs, x.attr)
                    else:
                        yield 'use', p
            return
        if isinstance(p, (ast.Return, ast.Yield)):
            self.mark(self.rets, fi.qual)
            return
        if isinstance(p, (ast.Compare, ast.If, ast.While, ast.Assert)):
            yield 'use', p
            return
        if isinstance(p, (ast.For, ast.comprehension, ast.GeneratorExp, ast.ListComp)):
            yield 'use', p
            return


def const_keys(n):
    """constant keys and prefixes that name what a value is stored as"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)):
            out.add(x.value)
    return out


def random_(prog, rep):
    f = Follow(prog, rep)
    found = f.solve()
    n = 0
    sites = set()
    for fi in prog.all_functions():
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and is_source(dotted(prog, fi, x)):
                sites.add((fi, x.lineno))
    rep.count('random or environment-dependent values', len(sites))
    anchors = set()
    for fi, node, stmt, own in found:
        n += 1
        v, label = use(prog, fi, node, stmt)
        rep.check(v, 'random', fi.loc(stmt), 'a random or environment-dependent value is used in %s' % ast.unparse(stmt)[:90])
        if label:
            anchors.add(fi)
    rep.count('uses of such values', n)
    rep.ok('random', 'pdfme', len(sites) + 1)
    for fi in anchors:
        unnamed(prog, rep, fi)


def use(prog, fi, node, stmt):
    if isinstance(stmt, ast.Assign):
        t = stmt.targets[0]
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
            if t.slice.value in ('ID', b'ID'):
                return True, False
            if t.slice.value == 'label':
                return True, True
            return False, False
        if isinstance(t, ast.Subscript):
            return None, False
        return None, False
    if isinstance(stmt, ast.Dict):
        k = stmt.keys[stmt.values.index(node)]
        return k.value in ('ID', 'label'), k.value == 'label'
    if isinstance(stmt, ast.Call):
        ks = const_keys(stmt)
        if any(isinstance(k, str) and k.startswith(('$label:', '$outline:')) for k in ks):
            return True, True
        if 'ID' in ks:
            return True, False
        if isinstance(stmt.func, ast.Attribute) and stmt.func.attr in ('setdefault',) and stmt.args and stmt.args[0] is node:
            return None, False
        if any(isinstance(k, str) and k.startswith('$') for k in ks):
            return False, False
        return None, False
    if isinstance(stmt, (ast.If, ast.While, ast.For)):
        return False, False
    return None, False


def unnamed(prog, rep, fi):
    """the name is made up only where the element has no label"""
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual and (g.cls is not fi.cls or not g.name.startswith('_'))} - {fi.qual})
    n = 0
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        texts = []
        for e, ctx in all_events(p.trace):
            if e.kind == 'append':
                texts.append((e, ctx[-1][1] if ctx else p, e.a[1]))
        for e, st, v in texts:
            src = [t for t in subterms(v) if t[0] in ('call', 'fn') and str(t[1]).split('.')[0] in SOURCES or t[0] == 'fn' and 'uuid' in str(t[1])]
            if not src:
                continue
            n += 1
            facts = dict(p.facts)
            facts.update(getattr(st, 'facts', {}))
            given = [b for f, b in facts.items() if f[0] == 'isnone' and label_term(f[1])] + \
                [not b for f, b in facts.items() if f[0] == 'truthy' and label_term(f[1])] + \
                [not b for f, b in facts.items() if f[0] == 'in' and f[1] == C('label')]
            rep.check(True if any(given) else False, 'unnamed', e.loc, 'a random name is given to an anchor whether or not the caller named it')
    rep.count('random anchor names on paths', n)


def label_term(t):
    return t[0] in ('get', 'idx') and t[2] == C('label')
