"""C19: styles cascade in one consistent order and never leak."""
import ast
from .common import *
from ..engine import State
from ..access import private_closure

TECHNIQUE = ('symbolic layering: on every path of every function that combines styles, the dictionary built is a stack of layers '
             '(parent, style string, own style) whose order and completeness are compared; effect check that inherited styles and '
             'formats are never changed in place; interprocedural check that each child is handed the combined style')

ANCHORS = ('PDFText._recursive_content_parse', 'PDFContentPart.get_element_styles', 'PDFTable.get_cell_style', 'PDF._init_text')


def run(prog, rep):
    rep.rule('order', 'own style over style string over the style of the parent')
    rep.rule('complete', 'style string and own style are applied whenever the element has them')
    rep.rule('source', 'the style string and own style applied are those of the element itself')
    rep.rule('named', 'a style given by name is the format of that name')
    rep.rule('leak', 'the style of a parent and the formats of the document are never changed by a child')
    rep.rule('handed', 'children and drawn parts get the combined style of the element')
    rep.section('named', named, prog, rep)
    rep.section('order', layers_all, prog, rep)
    rep.section('leak', leak, prog, rep)
    rep.section('handed', handed, prog, rep)
    rep.section('text', text, prog, rep)


# ------------------------------------------------------------------ helpers
def fns(prog):
    return prog.func('process_style'), prog.func('parse_style_str')


def direct(prog, quals):
    """functions that call one of these"""
    out = []
    for fi in prog.all_functions():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name):
                    r = prog.resolve_name(fi.module, f.id)
                    if r and r[0] == 'func' and r[1].qual in quals:
                        out.append(fi)
                        break
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and fi.args and f.value.id == fi.args[0] and fi.cls is not None:
                    m = prog.find_method(fi.cls, f.attr)
                    if m is not None and m.qual in quals:
                        out.append(fi)
                        break
    return out


def combiners(prog):
    own, dot = fns(prog)
    return [f for f in direct(prog, {own.qual, dot.qual}) if f.qual not in (own.qual, dot.qual)]


def helpers(prog, cls):
    """functions, of the class or of a module, that take part in combining styles and can be expanded"""
    own, dot = fns(prog)
    part, work = set(), {own.qual, dot.qual}
    while work:
        work = {g.qual for g in direct(prog, work) if g.qual not in part and g.qual not in (own.qual, dot.qual) and
                (g.cls is None or g.cls is cls and returns(g)) and g.name not in ('__init__', 'build_pdf') and not recursive(prog, g)}
        part |= work
    return part


def returns(g):
    return any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(g.node)) and \
        not g.name.startswith(('process', 'add_cell', 'run'))


def inline_set(prog, fi, extra=()):
    """everything is opaque except helpers that take part in combining styles"""
    own, dot = fns(prog)
    part, work = set(), [own.qual, dot.qual]
    while work:
        new = [g.qual for g in direct(prog, set(work)) if g.qual not in part and g.qual not in (own.qual, dot.qual)]
        part |= set(new)
        work = new
    keep = {fi.qual}
    for g in prog.all_functions():
        if g.qual in part and (g.cls is None and g.name != 'build_pdf' or g.cls is fi.cls and g.name.startswith('_') or g.qual in extra):
            if not recursive(prog, g):
                keep.add(g.qual)
        # small accessors of the same module or class that look nothing up elsewhere
        if g.cls is None and g.module is fi.module and g.name.startswith('_'):
            keep.add(g.qual)
        if g.cls is fi.cls and g.cls is not None and g.kind in ('static',):
            keep.add(g.qual)
    return {g.qual for g in prog.all_functions() if g.qual not in keep and not pure_access(prog, g)} | {own.qual, dot.qual}


def pure_access(prog, g):
    """a helper with a single return and no calls into the package"""
    body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) > 2 or not body or not isinstance(body[-1], ast.Return):
        return False
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            r = prog.resolve_name(g.module, n.func.id)
            if r and r[0] in ('func', 'class'):
                return False
    return g.kind != 'getter' and g.cls is not None and g.cls.name not in ('PDFColor', 'PDFObject')


def recursive(prog, g):
    from .. import flow
    return any(g in flow.callees(prog, h) for h in flow.reach(prog, g) if h.module is g.module and g in flow.callees(prog, h) and h in flow.reach(prog, g))


def strip(eng, st, t, n=0):
    """the value a copy was made of"""
    while n < 6:
        n += 1
        if t[0] == 'fn' and t[1] in ('copy', 'deepcopy', 'dict') and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'call' and t[1] in ('copy', 'copy.copy', 'copy.deepcopy'):
            t = t[2][0] if t[2] else t[3][0][1]
        elif t[0] == 'dict' and st is not None:
            ls = st.heap.get(('D', t[1]))
            if ls is not None and len(ls) == 1 and ls[0][0] == 'upd':
                t = ls[0][1]
            else:
                break
        else:
            break
    return t


class Kinds:
    def __init__(self, prog):
        self.own, self.dot = [f.qual for f in fns(prog)]

    def of(self, t, depth=0):
        if t[0] == 'call' and t[1] == self.own:
            return 'O'
        if t[0] == 'call' and t[1] == self.dot:
            return 'D'
        if t[0] in ('fn', 'call') and t[1] in ('copy', 'deepcopy', 'dict') and t[2]:
            return self.of(t[2][0])
        if t[0] in ('sym', 'attr', 'get', 'idx', 'head', 'out', 'call'):
            return 'P'
        return '?'


def flat(st, d, k, seen=()):
    """[(kind, term)] of the update layers of a dictionary, lowest first"""
    out = []
    for l in st.heap.get(('D', d), ()):
        if l[0] == 'upd':
            s = l[1]
            if s[0] == 'dict' and s[1] not in seen:
                out += flat(st, s[1], k, seen + (d,))
            elif s[0] == 'snap':
                out += snap(st, s, k)
            else:
                out.append((k.of(s), s))
        elif l[0] == 'star':
            out.append(('?', l))
        elif l[0] == 'kv':
            out.append(('K', l[1]))
    return out


def snap(st, s, k):
    out = []
    for l in s[1] if isinstance(s[1], tuple) else ():
        if isinstance(l, tuple) and l and l[0] == 'upd':
            out.append((k.of(l[1]), l[1]))
        elif isinstance(l, tuple) and l and l[0] == 'kv':
            out.append(('K', l[1]))
    return out


def args_of(t):
    return list(t[2]) + [v for _, v in t[3]]


# ------------------------------------------------------------------ formats
def named(prog, rep):
    own, _ = fns(prog)
    eng = Engine(prog)
    sp = ('sym', own.args[0])
    pp = ('sym', own.args[1]) if len(own.args) > 1 else None
    for p in eng.analyse(own):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        r = strip(eng, p.state, p.ret)
        is_str = p.facts.get(('inst', sp, 'str'))
        is_dict = p.facts.get(('inst', sp, 'dict'))
        none = p.facts.get(('isnone', sp))
        if is_str and pp is not None and not p.facts.get(('isnone', pp)):
            good = r[0] in ('idx', 'get') and r[2] == sp and r[1][0] == 'attr' and r[1][1] == pp
            rep.check(True if good else False if is_known(r) or r[0] == 'dict' else None, 'named', own.loc(),
                      'the style of a format name is %s' % show(r)[:60])
            if good:
                fresh = p.ret != r
                rep.check(True, 'named', own.loc(), 'copy') if fresh else None
        elif is_dict:
            rep.check(True if r == sp else False if is_known(r) else None, 'named', own.loc(), 'a style given as a dictionary becomes %s' % show(r)[:60])
        elif none:
            ls = p.state.heap.get(('D', p.ret[1]), None) if p.ret[0] == 'dict' else None
            rep.check(True if ls == () or ls == [] or ls is not None and len(ls) == 0 else None, 'named', own.loc(), 'no style is an empty style')


# ------------------------------------------------------------------ layers
def layers_all(prog, rep):
    k = Kinds(prog)
    names = [prog.func(a).qual for a in ANCHORS if prog.has_func(a)]
    done = set()
    fs = {f.qual: f for f in combiners(prog)}
    for q in names:
        fs.setdefault(q, prog.func(q))
    n = 0
    for q, fi in fs.items():
        n += layers(prog, rep, fi, k, q in names)
    rep.count('functions that combine styles', len(fs))
    rep.count('style dictionaries built on paths', n)
    for a in ANCHORS:
        if not prog.has_func(a):
            rep.unk('complete', a, 'not found')


def layers(prog, rep, fi, k, anchor):
    eng = Engine(prog, opaque=inline_set(prog, fi))
    eng.nomerge = fi.cls is None or not recursive(prog, fi)
    both = {'O': False, 'D': False}
    n = 0
    judged = []
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        calls = {}
        for e, ctx in all_events(p.trace):
            if e.kind == 'call' and e.a[0] in (k.own, k.dot):
                calls.setdefault(e.a[0], []).append(e)
        stack = None
        for key in p.heap:
            if key[0] != 'D':
                continue
            ls = flat(p.state, key[1], k)
            kinds = [a for a, _ in ls]
            if not ({'O', 'D'} & set(kinds)):
                continue
            own_style = [t for a, t in ls if a == 'O' and style_of(t)]
            n += 1
            if '?' in kinds:
                rep.unk('order', fi.loc(), 'layers of a style')
                continue
            order(rep, fi, ls)
            if 'P' in kinds or kinds[0] == 'K':
                if stack is None or len([x for x in kinds if x in 'DO']) >= len([x for x, _ in stack if x in 'DO']):
                    stack = ls
            for a, t in ls:
                if a in 'OD':
                    both[a] = True
                    source(rep, fi, a, t, p)
        judged.append((p, stack, calls))
    if not anchor:
        return n
    for what, q in (('O', k.own), ('D', k.dot)):
        nm = {'O': 'own style', 'D': 'style string'}[what]
        if not both[what]:
            called = any(q in c for _, _, c in judged)
            rep.check(False if judged else None, 'complete', fi.loc(), 'the %s of an element is never applied' % nm)
            continue
        for p, stack, calls in judged:
            has = stack is not None and any(a == what for a, _ in stack)
            if has:
                rep.ok('complete', fi.loc())
                continue
            v = excused(p, what)
            rep.check(v, 'complete', fi.loc(), 'the %s of an element is not applied where %s' % (nm, p.where()[:160]))
    for p, stack, calls in judged:
        if stack is None:
            continue
        kinds = [a for a, _ in stack]
        if 'O' in kinds and 'P' not in kinds and kinds[0] != 'K':
            rep.bad('complete', fi.loc(), 'the style of the parent is not taken over')
    return n


def style_of(t):
    return any(x[0] == 'get' and x[2] == C('style') or x[0] == 'idx' and x[2] == C('style') for a in args_of(t) for x in [a])


RANK = {'P': 0, 'D': 1, 'O': 2}
WORD = {'P': 'the style of the parent', 'D': 'the style string', 'O': 'the own style'}


def order(rep, fi, ls):
    top = None
    for a, t in ls:
        if a not in RANK:
            continue
        if top is not None and RANK[a] < RANK[top]:
            rep.bad('order', fi.loc(), '%s is applied over %s' % (WORD[a], WORD[top]))
            return
        top = a
    rep.ok('order', fi.loc())


def source(rep, fi, a, t, p):
    """the string is the dot key without its dot; the style is the element's entry"""
    s = args_of(t)[0] if args_of(t) else None
    if s is None:
        return
    if a == 'D':
        if is_c(s):
            rep.check(True if s[2] == '' else None, 'source', fi.loc(), 'style string')
        else:
            d = cut(s)
            rep.check(None if d is None else d == 1, 'source', fi.loc(), 'the style string is %s of its key, instead of what follows the dot'
                      % ('all' if d == 0 else 'not what follows the dot' if d == -1 else 'what follows the first %s characters' % d))
    else:
        if s[0] in ('get', 'idx'):
            rep.check(True if s[2] == C('style') else False if is_c(s[2]) else None, 'source', fi.loc(), 'the own style is read from %s' % show(s)[:60])


def cut(t):
    """how many leading characters of a key were dropped (-1: something else was done); None"""
    if t[0] == 'dkey':
        return 0
    if t[0] == 'slice':
        d = cut(t[1])
        if d is None or d < 0:
            return d
        if is_num_c(t[2]) and t[3] == NONE:
            return d + int(t[2][2])
        return -1 if is_num_c(t[3]) else None
    if t[0] in ('idx', 'get') and len(t) > 2 and t[1][0] == 'comp':
        t = t[1]
    if t[0] == 'comp':
        for x in t[4]:
            if x[0] is True:
                return cut(x[1])
    return None


def excused(p, what):
    """True: the path shows there is nothing to apply; False: it shows there may be; None"""
    empty = maybe = False
    for f, b in p.facts.items():
        if f[0] == 'truthy' and "startswith" in repr(f):
            if not b:
                empty = True
            else:
                maybe = True
        elif f[0] == 'eq' and 'startswith' in repr(f) and C(0) in f[1:]:
            if b:
                empty = True
            else:
                maybe = True
        elif f[0] == 'lt0' and 'startswith' in repr(f):
            v = one(f[1], b)
            if v is True:
                maybe = True
            elif v is False:
                empty = True
        elif f[0] == 'in' and b and f[1] == C('delayed'):
            return True
        elif f[0] == 'isnone' and b and f[1][0] == 'sym':
            return True          # no element
        elif f[0] == 'isnone' and b and f[1][0] in ('get', 'idx') and f[1][2] == C('style') and what == 'O':
            return True
        elif f[0] == 'in' and not b and f[1] == C('style') and what == 'O':
            return True
        elif f[0] == 'truthy' and not b and f[1][0] in ('get', 'idx') and f[1][2] == C('style') and what == 'O':
            return True
    isdict = [b for f, b in p.facts.items() if f[0] == 'inst' and f[2] == 'dict' and f[1][0] == 'sym']
    other = [b for f, b in p.facts.items() if f[0] == 'inst' and f[2] in ('str', 'list', 'tuple') and f[1][0] == 'sym' and b]
    notdict = other or isdict and not any(isdict)
    if notdict or (not isdict and any(f[0] == 'inst' and f[1][0] == 'sym' for f in p.facts)):
        return True
    if what == 'O':
        return False if isdict or not any(f[0] == 'inst' for f in p.facts) else None
    if maybe:
        return False
    if empty:
        return True
    # a search through the keys that found nothing
    for e, ctx in all_events(p.trace):
        if e.kind != 'loop':
            continue
        L = e.a if isinstance(e.a, Loop) else e.a[0]
        hit = [sig for s, sig in L.parts if any(f[0] == 'truthy' and b and 'startswith' in repr(f) for f, b in s.facts.items())]
        if hit:
            return True if all(h not in ('next', 'continue', None) for h in hit) else None
    return None


def one(poly, b):
    """does `poly < 0 is b` allow a list of one element"""
    ls = [x for x in subterms(poly) if x[0] in ('len', 'fn') and 'startswith' in repr(x)]
    if not ls:
        return None
    v = subst(poly, lambda x: C(1) if x == ls[0] else None)
    v = from_poly(to_poly(v)) if v[0] == 'poly' else v
    if not is_num_c(v):
        return None
    return (v[2] < 0) == b


# ------------------------------------------------------------------ leaks
def leak(prog, rep):
    k = Kinds(prog)
    n = 0
    todo = list(combiners(prog))
    comb = {f.qual for f in todo if not recursive(prog, f)}
    for f in carriers(prog) + direct(prog, comb):
        if f not in todo:
            todo.append(f)
    for fi in todo:
        eng = Engine(prog, opaque=inline_set(prog, fi) - (helpers(prog, fi.cls) if fi.cls is not None else set()))
        first = building(prog, fi)
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            if p.raised:
                continue
            inherited = set()
            for key in p.heap:
                if key[0] == 'D':
                    for a, t in flat(p.state, key[1], k):
                        if a in 'PO':
                            inherited.add(t)
            for e, ctx in all_events(p.trace):
                tgt = None
                if e.kind == 'setitem' or e.kind == 'del' and len(e.a) > 1:
                    tgt = e.a[0]
                elif e.kind in ('mut', 'mcall') and e.a[1] in ('update', 'pop', 'clear', 'setdefault', 'popitem', '__setitem__', '__delitem__'):
                    tgt = e.a[0]
                if tgt is None:
                    continue
                n += 1
                root = tgt
                st = ctx[-1][1] if ctx else p.state
                if tgt[0] == 'dict' or tgt[0] == 'new':
                    rep.ok('leak', e.loc)
                    continue
                own_dict = tgt[0] == 'attr' and tgt[1] == ('sym', 'self') and tgt[2] == 'style'
                if tgt in inherited and not (first and own_dict):
                    rep.bad('leak', e.loc, '%s, which others share, is changed in place' % show(tgt)[:60])
                elif own_dict and not first:
                    rep.bad('leak', e.loc, 'the style of the container is changed in place by one of its elements')
                elif tgt[0] == 'call' and tgt[1] == k.own:
                    rep.bad('leak', e.loc, 'a style of the caller or a format is changed in place')
                elif tgt[0] == 'idx' and 'formats' in repr(tgt) or tgt[0] == 'attr' and tgt[2] == 'formats':
                    rep.bad('leak', e.loc, 'the formats of the document are changed in place')
                else:
                    rep.ok('leak', e.loc)
    rep.count('in-place changes examined', n)


def building(prog, fi, seen=()):
    """only runs while the object is made"""
    if fi.name == '__init__':
        return True
    if fi.cls is None:
        return False
    m = prog.find_method(fi.cls, '__init__')
    return m is not None and fi in private_closure(prog, {m})


def carriers(prog):
    """functions that hold a `style` of a container"""
    out = []
    for fi in prog.all_functions():
        if fi.cls is None or fi.cls.name not in ('PDFContentPart', 'PDFTable'):
            continue
        if any(isinstance(n, ast.Attribute) and n.attr == 'style' for n in ast.walk(fi.node)):
            out.append(fi)
    return out


# ------------------------------------------------------------------ handed on
def handed(prog, rep):
    """which parameters carry the combined style, and what they are given"""
    k = Kinds(prog)
    n = 0
    for cname, roots in (('PDFContentPart', ('process', 'process_group_element')), ('PDFTable', ('add_cell',))):
        cls = prog.cls(cname)
        comb = helpers(prog, cls)
        carried = set()
        selfstyle = ('attr', ('sym', 'self'), 'style', 0)
        for r in roots:
            fi = prog.func('%s.%s' % (cname, r))
            eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != fi.qual and g.qual not in comb} | {k.own, k.dot})
            found = []
            for p in eng.analyse(fi):
                rep.functions |= eng.analysed
                if p.raised:
                    continue
                for e, ctx in all_events(p.trace):
                    if e.kind != 'call' or e.a[0] in (k.own, k.dot):
                        continue
                    st = ctx[-1][1] if ctx else p.state
                    found.append((e, st))
                    for nm, v in e.a[2]:
                        if strip(eng, st, v) == selfstyle:
                            rep.bad('handed', e.loc, 'an element is handled with the style of the box around it')
                    for nm, v in e.a[2]:
                        if v[0] == 'dict' and {'O'} & {a for a, _ in flat(st, v[1], k)}:
                            carried.add((e.a[0], nm))
            for e, st in found:
                for nm, v in e.a[2]:
                    if (e.a[0], nm) not in carried:
                        continue
                    n += 1
                    if v[0] == 'dict':
                        ls = [a for a, _ in flat(st, v[1], k)]
                        delayed = not ls and any(f[0] == 'in' and b and f[1] == C('delayed') for f, b in st.facts.items())
                        rep.check(True if 'O' in ls or delayed else None, 'handed', e.loc, 'style of an element')
                    elif v[0] in ('attr', 'sym'):
                        rep.bad('handed', e.loc, 'an element is handled with %s instead of its combined style' % show(v)[:60])
                    else:
                        rep.unk('handed', e.loc, 'style of an element')
        if not carried:
            rep.unk('handed', cname, 'no style handed on')
        # further down: the style of the element, not of the box around it
        nxt = set()
        for q in sorted({a for a, _ in carried}):
            g = prog.func(q)
            ps = {b for a, b in carried if a == q}
            par = {('sym', b) for b in ps}
            eng = Engine(prog, opaque={h.qual for h in prog.all_functions() if h.qual != q})
            for p in eng.analyse(g):
                if p.raised:
                    continue
                for e, ctx in all_events(p.trace):
                    st = ctx[-1][1] if ctx else p.state
                    given = []
                    if e.kind == 'call':
                        given = list(e.a[2])
                    elif e.kind == 'new' and len(e.a) > 2:
                        given = [a for a in e.a[2] if isinstance(a, tuple) and len(a) == 2]
                    for nm, v in given:
                        if not isinstance(v, tuple):
                            continue
                        s = strip(eng, st, v)
                        if s == selfstyle:
                            rep.bad('handed', e.loc, '%s is given the style of the box around the element' % nm)
                        elif s in par:
                            n += 1
                            if e.kind == 'call':
                                nxt.add((e.a[0], nm))
                            rep.ok('handed', e.loc)
                        elif v[0] == 'dict':
                            # an element whose own style was replaced by the combined one
                            ls = st.heap.get(('D', v[1]), ())
                            sty = [l[2] for l in ls if l[0] == 'kv' and l[1] == C('style')]
                            if sty:
                                n += 1
                                t = strip(eng, st, sty[-1])
                                rep.check(True if t in par else False if t == selfstyle or t[0] in ('get', 'idx') else None, 'handed', e.loc,
                                          'the text is built with %s instead of the combined style' % show(t)[:60])
                    built_text(prog, rep, e, st, given, par, eng)
        for q, nm in sorted(nxt):
            g = prog.func(q)
            if g.cls is not cls:
                continue
            eng = Engine(prog, opaque={h.qual for h in prog.all_functions() if h.qual != q and h.qual not in comb} | {k.own, k.dot})
            for p in eng.analyse(g):
                if p.raised:
                    continue
                for key in p.heap:
                    if key[0] != 'D':
                        continue
                    ls = flat(p.state, key[1], k)
                    if 'O' not in [a for a, _ in ls]:
                        continue
                    n += 1
                    base = [t for a, t in ls if a == 'P']
                    rep.check(True if ('sym', nm) in base else False if selfstyle in base else None, 'handed', g.loc(),
                              'an element of a group takes over the style of the box, not of its group')
    rep.count('styles handed on', n)


def built_text(prog, rep, e, st, given, par, eng):
    if e.kind != 'new' or not any(c in str(e.a[1]) for c in ('PDFText',)):
        return
    for nm, v in given[:1]:
        if v[0] == 'sym' and par:
            # the element as the caller gave it: its style was not replaced, unless set in place
            w = any(True for x, _ in all_events(st.trace) if x.kind == 'setitem' and x.a[0] == v and x.a[1] == C('style') and strip(eng, st, x.a[2]) in par)
            rep.check(w, 'handed', e.loc, 'a paragraph is built without the style of the box around it')


# ------------------------------------------------------------------ inside paragraphs
def text(prog, rep):
    fi = prog.func('PDFText._recursive_content_parse')
    k = Kinds(prog)
    new = [g for g in prog.cls('PDFText').methods.values() if g.qual != fi.qual and g.name not in ('__init__',)]
    eng = Engine(prog, opaque=inline_set(prog, fi, {g.qual for g in new}) - {g.qual for g in new})
    parent = ('sym', fi.args[2]) if len(fi.args) > 2 else None
    n = 0
    for p in eng.analyse(fi):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        for e, ctx in all_events(p.trace):
            st = ctx[-1][1] if ctx else p.state
            vals = []
            if e.kind == 'call' and e.a[0] == fi.qual:
                vals = [('the parts inside', v) for nm, v in e.a[2] if nm == fi.args[2]]
            elif e.kind == 'append' and e.a[1][0] == 'dict':
                vals = [('the text', l[2]) for l in st.heap.get(('D', e.a[1][1]), ()) if l[0] == 'kv' and l[1] == C('style')]
            for what, v in vals:
                n += 1
                if v[0] == 'dict':
                    ls = [a for a, _ in flat(st, v[1], k)] or [a for a, _ in flat(p.state, v[1], k)]
                    rep.check(True if 'O' in ls else None, 'handed', e.loc, what)
                elif strip(eng, st, v) == parent:
                    rep.bad('handed', e.loc, '%s get the style of the parent, not of their element' % what)
                else:
                    rep.unk('handed', e.loc, what)
    rep.count('parts of paragraphs given a style', n)
    # the text itself starts from the default text style
    ap = prog.func('PDFTextBase.add_part')
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual != ap.qual})
    for p in eng.analyse(ap):
        if p.raised:
            continue
        for key in p.heap:
            if key[0] != 'D':
                continue
            ls = flat(p.state, key[1], k)
            up = [t for a, t in ls if a in 'PDO?']
            if any(a == 'K' for a, _ in ls) and up:
                idx = [a for a, _ in ls]
                late = [t for i, (a, t) in enumerate(ls) if a == 'K' and any(b != 'K' for b in idx[:i])]
                rep.check(not late, 'order', ap.loc(), 'the default %s is applied over the style of the text' % (show(late[0]) if late else ''))
