"""C11: fonts and images are declared in the resources of the page that uses them.  The chain from a piece of text to the
page's resources is cut into links; each link is decided on the paths of the functions that implement it."""
import ast
from .common import *
from .objs import *
from .c08 import conds
from ..access import all_mutations
from ..flow import reach

TECHNIQUE = ('value-flow analysis of the chain text piece -> fonts used -> page resources, link by link, on every path; '
             'key/value agreement of the tables of fonts and images already added')

SELF = ('sym', 'self')


def run(prog, rep):
    rep.rule('select', 'the font selected in the contents is the one named by the (family, mode) of the state that selects it')
    rep.rule('piece', 'a piece put on a line adds its (family, mode) to the fonts of that line')
    rep.rule('line', 'the fonts of a line are fonts of the layout run it is added to; they are forgotten only with the lines')
    rep.rule('marker', 'text written with another state than that of a piece of the line adds its font')
    rep.rule('result', 'the fonts used are part of every result and each is declared on the page that gets the text')
    rep.rule('declare', 'declaring a font maps its name to its object in the resources of the current page')
    rep.rule('once', 'a font or image object is added at most once and looked up under the key it is stored by')
    rep.rule('names', 'two fonts never share a name; two images never share a name on a page')
    rep.rule('draw', 'the name an image is drawn by is the name its object has in the resources of that page')
    rep.section('select', select, prog, rep)
    rep.section('piece', pieces, prog, rep)
    rep.section('line', lines, prog, rep)
    rep.section('marker', marker, prog, rep)
    rep.section('result', result, prog, rep)
    rep.section('declare', declare, prog, rep)
    rep.section('names', names, prog, rep)
    rep.section('draw', draw, prog, rep)


def opaque_named(prog, *names):
    return {f.qual for f in prog.all_functions() if f.name in names}


def state_class(prog):
    """class whose instances hold the font in force: the one with attributes font and size set in its constructor"""
    return prog.cls('PDFState')


# ---------------------------------------------------------------- select
def select(prog, rep):
    st = state_class(prog)
    init = st.methods['__init__']
    eng = Engine(prog, opaque=opaque_named(prog, 'get_font') | {'PDFColor.__init__'})
    for p in eng.analyse(init):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        f, fam, mode = (wrote(p.state, SELF, a) for a in ('font', 'font_family', 'font_mode'))
        a = font_args(f)
        where = init.loc()
        if a is None:
            rep.unk('select', where, 'font is %s' % show(f))
            continue
        rep.check(a[0] == fam, 'select', where, 'the font is that of family %s but the state says %s' % (show(a[0]), show(fam)))
        rep.check(a[1] == mode, 'select', where, 'the font is that of mode %s but the state says %s where %s' % (show(a[1]), show(mode), p.where()))
    # every fragment with a font operator names the font of its own state
    n = 0
    for fi in prog.all_functions():
        if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) and ' Tf' in x.value and '{' in x.value or
                   isinstance(x, ast.JoinedStr) and any(isinstance(v, ast.Constant) and ' Tf' in str(v.value) for v in x.values)
                   for x in ast.walk(fi.node)):
            continue
        eng = Engine(prog)
        for p in eng.analyse(fi):
            if p.raised or p.ret is None:
                continue
            for name in named(p.ret, ' Tf'):
                n += 1
                ok = name[0] == 'attr' and name[2] in ('_ref', 'ref') and name[1][0] == 'attr' and name[1][2] == 'font' and name[1][1] == SELF
                rep.check(True if ok else (False if contains(name, SELF) or name[0] == 'c' or any(x[0] == 'sym' for x in subterms(name)) else None), 'select', fi.loc(),
                          'the font selected is named %s' % show(name))
        rep.functions |= eng.analysed
    rep.count('font selections', n)


def named(t, op):
    """names (after '/') used by operator `op` in a template"""
    if t[0] != 'cat':
        return []
    # tokens of the template: lists of parts separated by white space
    toks, cur = [], []
    for x in cat_parts(t):
        if x[0] == 'lit':
            for i, w in enumerate(x[1].replace('\n', ' ').split(' ')):
                if i and cur:
                    toks.append(cur)
                    cur = []
                if w:
                    cur.append(('lit', w))
        else:
            cur.append(x)
    if cur:
        toks.append(cur)
    r = []
    name = None
    for k in toks:
        if k[0][0] == 'lit' and k[0][1].startswith('/'):
            name = ([('lit', k[0][1][1:])] if len(k[0][1]) > 1 else []) + k[1:]
        elif len(k) == 1 and k[0] == ('lit', op.strip()):
            if name is not None:
                r.append(name[0][1] if len(name) == 1 and name[0][0] == 'hole' else C(name[0][1]) if len(name) == 1 else ('cat', 's', tuple(name)))
            name = None
    return r


def font_args(f):
    """(family, mode) given to get_font by the term of a font"""
    if f is not None and f[0] == 'call' and f[1].endswith('get_font'):
        d = dict(f[3])
        if len(d) == 2:
            return d.get('font_family'), d.get('mode')
        if len(f[2]) == 3:
            return f[2][1], f[2][2]
    return None


# ---------------------------------------------------------------- piece
def font_sets(prog):
    """attributes of a paragraph that hold the fonts used: the one in its result and the ones merged into it"""
    base = prog.cls('PDFTextBase')
    final = None
    for fi in list(base.methods.values()) + list(base.getters.values()):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and any(k.arg == 'used_fonts' for k in n.keywords):
                for k in n.keywords:
                    if k.arg == 'used_fonts':
                        for x in through(fi, k.value):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                                final = x.attr
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == 'used_fonts':
                        for x in through(fi, v):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                                final = x.attr
    if final is None:
        return None, set()
    feeding = set()
    for fi in base.methods.values():
        for n in ast.walk(fi.node):
            tgt = src = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'extend') and self_attr(n.func.value) == final and n.args:
                src = n.args[0]
            elif isinstance(n, ast.AugAssign) and self_attr(n.target) == final:
                src = n.value
            elif isinstance(n, ast.Assign) and any(self_attr(t) == final for t in n.targets):
                src = n.value
            if isinstance(n, ast.For) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add' and self_attr(c.func.value) == final for c in ast.walk(n)):
                src = n.iter
            if src is not None:
                for x in through(fi, src):
                    a = self_attr(x)
                    if a and a != final:
                        feeding.add(a)
    return final, feeding


def through(fi, e, depth=0):
    """an expression and the values of the local names in it that are assigned once, all nodes"""
    for x in ast.walk(e):
        yield x
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and depth < 5:
            vs = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets)]
            if len(vs) == 1:
                yield from through(fi, vs[0], depth + 1)


def self_attr(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' else None


def adds(evs, attrs):
    """elements added to one of the sets"""
    r = []
    for e in evs:
        if e.kind in ('mut', 'append'):
            b = e.a[0]
            if b[0] == 'attr' and b[1] == SELF and b[2] in attrs:
                if e.kind == 'append':
                    r.append((e, e.a[1]))
                elif e.a[1] == 'add':
                    r.append((e, e.a[2][0]))
                elif e.a[1] == 'update':
                    for x in e.a[2]:
                        if x[0] in ('tuple', 'set'):
                            r.extend((e, y) for y in x[1])
        elif e.kind == 'setitem' and e.a[0][0] == 'attr' and e.a[0][1] == SELF and e.a[0][2] in attrs:
            r.append((e, e.a[1]))
    return r


def key_matches(eng, s, el, state, part=None):
    """the set element is (family, mode) of the state term"""
    if el[0] != 'tuple' or len(el[1]) != 2:
        return None
    fam = wrote(s, state, 'font_family')
    mode = wrote(s, state, 'font_mode')
    want = [(fam, mode)]
    good = True
    for got, w, n in ((el[1][0], fam, 'font_family'), (el[1][1], mode, 'font_mode')):
        if w is not None and got == w:
            continue
        if got[0] == 'attr' and got[2] == n and (got[1] == state or got[1][0] == 'attr' and got[1][1] == part and got[1][2] == 'state'):
            continue
        good = False
    return good


def wrote(st, obj, name):
    """value last assigned to an attribute of an object on the path"""
    v = st.heap.get(('a', obj, name))
    if v is None:
        for e, _ in all_events(st.trace):
            if e.kind == 'write' and e.a[0] == obj and e.a[1] == name:
                v = e.a[2]
    return v


def text_roots(prog):
    base = prog.cls('PDFTextBase')
    return base


def pieces(prog, rep):
    base = prog.cls('PDFTextBase')
    final, feeding = font_sets(prog)
    if final is None:
        rep.unk('result', base.node and 'PDFTextBase', 'no result with fonts found')
        return
    sets = {final} | feeding
    makers = [fi for fi in base.methods.values() if reaches_new(prog, fi, 'PDFTextLinePart')]
    callers = {}
    lowest = [fi for fi in makers if not any(g in reach(prog, fi) and g is not fi for g in makers)]
    # functions that put pieces on a line and add the fonts: the smallest that do both, or the makers themselves
    n = 0
    judged = set()
    for fi in makers:
        if fi.name in ('run', '__init__') and len(makers) > 1:
            continue
        opq = opaque_named(prog, 'get_font', 'get_char_width', 'get_word_width', 'add_current_line', 'height', 'get_widths', 'min_width') | {'PDFColor.__init__'}
        opq |= {g.qual for g in reach(prog, fi) if g.cls is not None and g.cls.name == 'PDFTextLine' and g.name == 'add_word'}
        opq |= {'PDFState.__init__', 'PDFTextLinePart.__init__'}
        opq |= {g.qual for g in makers if g is not fi and any(h in makers for h in [g]) and separately(prog, g, sets)}
        eng = Engine(prog, opaque=opq)
        for p in eng.analyse(fi):
            if p.raised:
                continue
            for s, evs in paths(p):
                parts = [e for e in evs if e.kind == 'append' and e.a[1][0] == 'obj' and e.a[1][1] == 'PDFTextLinePart' and is_line_parts(e.a[0])]
                if not parts:
                    continue
                got = adds(evs, sets)
                for e in parts:
                    n += 1
                    state = wrote(s, e.a[1], 'state') or ('attr', e.a[1], 'state', 0)
                    ms = [key_matches(eng, s, el, state, e.a[1]) for _, el in got]
                    if any(ms):
                        rep.ok('piece', e.loc)
                    elif not got:
                        rep.bad('piece', fi.loc(), 'a piece of text is put on a line but its font is not added to the fonts used, where %s' % cond_text(s))
                    elif all(m is False for m in ms):
                        rep.bad('piece', got[0][0].loc, 'the font added, %s, is not the one of the piece put on the line' % show(got[0][1]))
                    else:
                        rep.unk('piece', got[0][0].loc, 'element %s' % show(got[0][1]))
        rep.functions |= eng.analysed
    rep.count('pieces put on a line', n)
    # pieces made by the line itself repeat one that is there
    for fi in prog.cls('PDFTextLine').methods.values():
        for c in ast.walk(fi.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'PDFTextLinePart' and c.args:
                a = c.args[0]
                if isinstance(a, ast.Attribute) and a.attr == 'style':
                    rep.ok('piece', fi.loc(c))


def separately(prog, g, sets):
    """g adds to the sets itself"""
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add', 'update', 'append') and self_attr(n.func.value) in sets:
            return True
    return False


def is_line_parts(t):
    return t[0] == 'attr' and t[2] == 'line_parts' or t[0] == 'list'


def reaches_new(prog, fi, cls):
    for g in {fi} | reach(prog, fi):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == cls:
                return True
    return False


def paths(p):
    """(state, events) for the whole path and for each path of an iteration (with what happens before it)"""
    yield p.state, [e for e in p.trace if e.kind != 'loop']
    for L, s, sig, own, path in walk_parts(p.trace):
        if sig is not None and sig[0] == 'raise':
            continue
        yield s, plain_events(s.trace)


def cond_text(s):
    return ' and '.join(('' if b else 'not ') + show(f) for f, b in s.facts.items())[:200] or 'always'


# ---------------------------------------------------------------- line
def lines(prog, rep):
    base = prog.cls('PDFTextBase')
    final, feeding = font_sets(prog)
    if final is None:
        return
    n = 0
    for fi in base.methods.values():
        w = {a for _, _, a, _ in [(0, 0, self_attr(t), 0) for x in ast.walk(fi.node) if isinstance(x, ast.Assign) for t in x.targets]}
        muts = {(self_attr(x.func.value), x.func.attr) for x in ast.walk(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        touches = any(a in feeding | {final} for a in w) or any(a in feeding | {final} and m in ('clear', 'discard', 'remove', 'pop', 'difference_update', 'update') for a, m in muts) \
            or ('lines', 'append') in muts
        if not touches:
            continue
        eng = Engine(prog, opaque={g.qual for g in reach(prog, fi) if g is not fi and not (g.cls is base and small(g))})
        for p in eng.analyse(fi):
            if p.raised:
                continue
            evs = [e for e, stk in all_events(p.trace)]
            put = [e for e in evs if e.kind == 'append' and e.a[0][0] == 'attr' and e.a[0][1] == SELF and e.a[0][2] == 'lines']
            merged = {x[2] for e in evs if e.kind == 'mut' and e.a[0][0] == 'attr' and e.a[0][2] == final and e.a[1] in ('update', '__ior__', 'augBitOr') for x in e.a[2] if x[0] == 'attr' and x[1] == SELF}
            newfinal = p.heap.get(('a', SELF, final))
            resets_lines = any(e.kind == 'write' and e.a[0] == SELF and e.a[1] == 'lines' for e in evs)
            for e, stk in all_events(p.trace):
                if e.kind == 'mut' and e.a[0][0] == 'attr' and e.a[0][2] == final and e.a[1] == 'add' and stk:
                    L, s = stk[-1]
                    if L.space is not None and L.space[0] == 'attr' and L.space[1] == SELF and e.a[2] == (('idx', L.space, L.ind),) and len(L.parts) == 1:
                        merged.add(L.space[2])
            if newfinal is not None:
                for a in feeding:
                    if contains(strip_ver(newfinal), ('attr', SELF, a, 0)):
                        merged.add(a)
            for e in put:
                n += 1
                for a in feeding:
                    if a in merged:
                        rep.ok('line', e.loc)
                    else:
                        rep.bad('line', e.loc, 'a line is added but the fonts in %s are not added to those used, where %s' % (a, cond_text(p.state)))
            for e in evs:
                if e.kind == 'write' and e.a[0] == SELF and e.a[1] in feeding | {final} or \
                        e.kind == 'mut' and e.a[0][0] == 'attr' and e.a[0][1] == SELF and e.a[0][2] in feeding | {final} and e.a[1] in ('clear', 'discard', 'remove', 'pop', 'difference_update'):
                    a = e.a[1] if e.kind == 'write' else e.a[0][2]
                    if e.kind == 'write' and contains(e.a[2], ('attr', SELF, a, 0)):
                        continue
                    if a in feeding and (a in merged or resets_lines):
                        if a in merged and not resets_lines and order(evs, e, final, a) is False:
                            rep.bad('line', e.loc, 'the fonts of the line are forgotten before they are added to those used')
                        else:
                            rep.ok('line', e.loc)
                    elif a == final and resets_lines:
                        rep.ok('line', e.loc)
                    else:
                        rep.bad('line', e.loc, 'the fonts in %s are forgotten although their text is kept, where %s' % (a, cond_text(p.state)))
        rep.functions |= eng.analysed
    rep.count('lines added', n)


def small(g):
    return sum(1 for _ in ast.walk(g.node)) < 150


def order(evs, e, final, a):
    """the merge comes before the reset"""
    i = evs.index(e)
    for j, x in enumerate(evs):
        if x.kind == 'mut' and x.a[0][0] == 'attr' and x.a[0][2] == final and x.a[1] in ('update', 'augBitOr') and any(y[0] == 'attr' and y[2] == a for y in x.a[2]):
            return j < i
    return None


# ---------------------------------------------------------------- marker
def marker(prog, rep):
    """text encoded with the font of some state: the state belongs to a piece of the line or its font is added here"""
    base = prog.cls('PDFTextBase')
    final, feeding = font_sets(prog)
    if final is None:
        rep.unk('marker', 'PDFTextBase', 'no result with fonts found')
        return
    sets = {final} | feeding
    n = 0
    for fi in base.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == 'compare' for x in ast.walk(fi.node)):
            continue
        opq = {g.qual for g in reach(prog, fi) if g is not fi and not (g.cls is base and small(g) and mentions_attr(g, sets))}
        eng = Engine(prog, opaque=opq)
        try:
            parts = eng.analyse(fi)
        except TooComplex:
            rep.unk('marker', fi.loc(), 'too complex')
            continue
        for p in parts:
            if p.raised:
                continue
            for s, evs in paths(p):
                for e in evs:
                    if e.kind == 'call' and e.a[0].endswith('.compare'):
                        recv = e.a[1]
                        n += 1
                        if recv[0] == 'attr' and recv[2] == 'state' and not (recv[1] == SELF):
                            rep.ok('marker', e.loc)         # state of a piece; see rule piece
                            continue
                        got = adds(evs, sets)
                        ms = [key_matches(eng, s, el, recv) for _, el in got]
                        if any(ms):
                            rep.ok('marker', e.loc)
                        elif any(m is None for m in ms):
                            rep.unk('marker', e.loc, 'font added is %s' % show(got[0][1]))
                        else:
                            rep.bad('marker', e.loc, 'text is written with the font of %s, which is not added to the fonts used in this run, where %s' % (show(recv), cond_text(s)))
        rep.functions |= eng.analysed
    rep.count('states text is written with', n)


def mentions_attr(g, attrs):
    return any(isinstance(x, ast.Attribute) and x.attr in attrs for x in ast.walk(g.node))


# ---------------------------------------------------------------- result
def result(prog, rep):
    pdf = prog.cls('PDF')
    n = 0
    fonts_page = [f for f in prog.all_functions() if f.name == 'add_font' and f.cls is not None and f.cls.name == 'PDFPage']
    for fi in pdf.methods.values():
        if 'used_fonts' not in {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs}:
            continue
        # results handed to this function as keywords
        opq = {g.qual for g in reach(prog, fi) if g is not fi and not is_getter(g) and (g.name in ('add_font', 'get_font') or not (reach(prog, g) & set(fonts_page)))}
        declaring = {g.qual for g in reach(prog, fi) if g.cls is pdf and reach(prog, g) & set(fonts_page)}
        opq |= {m.qual for m in prog.cls('PDFPage').methods.values()}
        eng = Engine(prog, opaque=(opq | declaring) - {fi.qual})
        F = ('sym', 'used_fonts')
        try:
            ps = eng.analyse(fi)
        except TooComplex as x:
            rep.unk('result', fi.loc(), str(x))
            continue
        rep.functions |= eng.analysed
        for p in ps:
            if p.raised:
                continue
            text = [e for e, stk in all_events(p.trace) if e.kind == 'call' and e.a[0] == 'PDFPage.add' and contains_sym(e.a[2], 'text')]
            if not any(e.kind == 'call' and e.a[0] == 'PDFPage.add' for e, _ in all_events(p.trace)):
                continue
            loops = [ev.a[0] for ev in p.trace if ev.kind == 'loop' and ev.a[0].space is not None and contains(ev.a[0].space, F)]
            if not loops:
                if p.facts.get(('truthy', F)) is False or p.facts.get(('isnone', F)) is True:
                    continue
                rep.bad('result', fi.loc(), 'text is added to the page but its fonts are not declared, where %s' % (p.where() or 'always')[:200])
                continue
            for L in loops:
                n += 1
                if L.space[0] == 'slice':
                    rep.bad('result', L.fi.loc(L.node), 'only some of the fonts used are declared')
                for s, sig in L.parts:
                    if sig is not None and sig[0] == 'raise':
                        continue
                    calls = [e for e in plain_events(s.trace[s.base:]) if e.kind == 'call' and (e.a[0] in declaring or e.a[0] == 'PDFPage.add_font')]
                    where = L.fi.loc(L.node)
                    if not calls:
                        rep.bad('result', where, 'a font used is not declared where %s' % conds(s, L))
                    elif sig == 'break':
                        rep.bad('result', where, 'not all fonts used are declared: the loop stops where %s' % conds(s, L))
                    else:
                        c = calls[0]
                        args = [a for _, a in c.a[2]]
                        el = ('idx', L.space, L.ind)
                        if c.a[0] in declaring and len(args) == 2:
                            ok = args == [('idx', args[0][1], C(0)), ('idx', args[0][1], C(1))] if args[0][0] == 'idx' else None
                            rep.check(True if ok else None if ok is None else False if swapped(args) else None, 'result', c.loc,
                                      'a font used is declared as %s' % ', '.join(show(a) for a in args))
                        else:
                            rep.ok('result', c.loc)
    rep.count('loops over the fonts used', n)
    # all results carry the fonts
    base = prog.cls('PDFTextBase')
    for fi in list(base.methods.values()) + list(base.getters.values()):
        for x in ast.walk(fi.node):
            keys = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'dict':
                keys = {k.arg for k in x.keywords}
            elif isinstance(x, ast.Dict):
                keys = {k.value for k in x.keys if isinstance(k, ast.Constant)}
            if keys and 'text_stream' in keys and 'ids' in keys:
                rep.check('used_fonts' in keys, 'result', fi.loc(x), 'a result without the fonts used')


def is_getter(g):
    return g.cls is not None and g in g.cls.getters.values()


def swapped(args):
    return args[0][0] == 'idx' and args[1][0] == 'idx' and args[0][1] == args[1][1]


def contains_sym(args, name):
    return any(contains(a, ('sym', name)) for _, a in args)


# ---------------------------------------------------------------- declare
def declare(prog, rep):
    pdf = prog.cls('PDF')
    page = prog.cls('PDFPage')
    af = page.methods['add_font']
    eng = Engine(prog)
    for p in eng.analyse(af):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        names_ = [a for a in af.args if a != 'self']
        sets = [e for e, _ in all_events(p.trace) if e.kind == 'setitem']
        good = [e for e in sets if e.a[1] == ('sym', names_[0]) and e.a[2] == ('sym', names_[1])]
        where = af.loc()
        if not good:
            # already there?
            if any(f[0] == 'in' and f[1] == ('sym', names_[0]) and b for f, b in p.facts.items()):
                continue
            rep.bad('declare', where, 'the name of the font is not mapped to its object where %s' % (p.where() or 'always'))
            continue
        d = good[-1].a[0]
        if path_keys(eng, p.state, d) == ['Resources', 'Font']:
            rep.ok('declare', good[-1].loc)
        else:
            ks = path_keys(eng, p.state, d)
            rep.check(False if ks else None, 'declare', good[-1].loc, 'the font is entered in %s' % '.'.join(ks))
    users = [fi for fi in pdf.methods.values() if any(isinstance(x, ast.Attribute) and x.attr == 'add_font' and ast.unparse(x.value).endswith('page') for x in ast.walk(fi.node))]
    opq = opaque_named(prog, 'add_font', 'get_font')
    n = 0
    for fi in users:
        eng = Engine(prog, opaque=opq)
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            if p.raised:
                continue
            evs = [e for e, _ in all_events(p.trace)]
            calls = [e for e in evs if e.kind == 'call' and e.a[0] == 'PDFPage.add_font']
            if not calls:
                rep.bad('declare', fi.loc(), 'the font is not declared on the page where %s' % (p.where() or 'always'))
                continue
            n += 1
            c = calls[-1]
            recv = c.a[1]
            cur = recv[0] == 'idx' and recv[1][0] == 'attr' and recv[1][2] == 'pages' and recv[2][0] == 'attr' and recv[2][2] == '_page_index'
            rep.check(True if cur else (False if recv[0] == 'idx' and is_c(recv[2]) else None), 'declare', c.loc, 'the font is declared on %s' % show(recv))
            ref, oid = [a for _, a in c.a[2]]
            made = [e for e in evs if e.kind == 'call' and e.a[0].endswith('.add_font') and e.a[0] != 'PDFPage.add_font']
            tables = {e.a[0] for e in evs if e.kind == 'setitem' and e.a[0][0] == 'attr' and e.a[0][1] == SELF}
            if made:
                m = made[-1]
                font, obj = m.a[1], m.a[3]
                okref = ref[0] == 'attr' and ref[2] in ('_ref', 'ref') and ref[1] == font
                okid = oid[0] == 'attr' and oid[2] == 'id' and oid[1] == obj
                rep.check(True if okref else (False if ref[0] in ('sym', 'c') or ref[0] == 'attr' and ref[1] == font else None), 'declare', c.loc, 'name of the font is %s' % show(ref))
                rep.check(True if okid else (False if oid[0] in ('sym', 'c') else None), 'declare', c.loc, 'object of the font is %s' % show(oid))
                fa = font_args(font)
                if fa is not None:
                    want = tuple(('sym', a) for a in fi.args if a != 'self')
                    if len(want) == 2:
                        rep.check(True if fa == want else (False if all(a[0] in ('sym', 'c') for a in fa) else None), 'declare', m.loc, 'the font declared is the one of %s' % ', '.join(show(a) for a in fa))
                # stored so that it is found again
                st = [e for e in evs if e.kind == 'setitem' and e.a[0][0] == 'attr' and e.a[0][1] == SELF and contains(e.a[2], oid)]
                if not st:
                    rep.bad('once', m.loc, 'a font is added to the document but not remembered')
                    continue
                key = st[-1].a[1]
                tab = st[-1].a[0][2]
                guard = [f for f, b in p.facts.items() if f[0] == 'in' and b is False and f[2][0] == 'attr' and f[2][2] == tab]
                guard += [('in', f[1][2], f[1][1]) for f, b in p.facts.items() if f[0] == 'isnone' and b and f[1][0] == 'get' and f[1][1][0] == 'attr' and f[1][1][2] == tab]
                if not any(f[1] == key for f in guard):
                    rep.check(False if guard or not loops_over(p, tab) else None, 'once', m.loc, 'a font is added to the document although it may have been added before: looked for as %s, remembered as %s' % (
                        ', '.join(show(f[1]) for f in guard) or 'nothing', show(key)))
                elif key == ref or key == font:
                    rep.ok('once', m.loc)
                else:
                    # keyed by (family, mode): two keys may have the same font
                    if shared_guard(eng, p, tab, ref):
                        rep.ok('once', m.loc)
                    elif loops_over(p, tab):
                        rep.unk('once', m.loc, 'fonts of other keys are looked at in a way not recognised')
                    else:
                        rep.bad('once', m.loc, 'fonts are remembered by %s: a font shared by several modes of a family is added once for each' % show(key))
            else:
                # looked up: both from the same entry
                same = ref[0] == 'idx' and oid[0] == 'idx' and ref[1] == oid[1] and (ref[2], oid[2]) == (C(0), C(1))
                rep.check(True if same else (False if ref[0] == 'idx' and oid[0] == 'idx' else None), 'declare', c.loc, 'name %s and object %s come from different entries' % (show(ref), show(oid)))
                if same:
                    look_up(rep, eng, p, ref[1], fi, c)
    rep.count('paths that declare a font', n)


def loops_over(p, tab):
    return [ev.a[0] for ev in p.trace if ev.kind == 'loop' and ev.a[0].space is not None and any(x[0] == 'attr' and x[2] == tab for x in subterms(ev.a[0].space))]


def shared_guard(eng, p, tab, ref):
    for L in loops_over(p, tab):
        for s, sig in L.parts:
            for f, b in s.facts.items():
                if f[0] == 'eq' and b and same_ref(ref, f) and sig is not None:
                    return True
    return False


def strip_ver(t):
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == 'attr':
            return ('attr', strip_ver(t[1]), t[2], 0)
        if len(t) == 5 and t[0] == 'call':
            return t[:4] + (0,)
        return tuple(strip_ver(x) for x in t)
    return t


def same_ref(ref, f):
    r = strip_ver(ref)
    a, b = strip_ver(f[1]), strip_ver(f[2])
    for x, y in ((a, b), (b, a)):
        if x == r and y[0] == 'idx' and y[2] == C(0):
            return True
        if x == r and y[0] in ('dkey', 'idx'):
            return True
    return False


def look_up(rep, eng, p, entry_, fi, c):
    want = tuple(('sym', a) for a in fi.args if a != 'self')
    if entry_[0] in ('idx', 'get') and entry_[2][0] == 'tuple':
        k = tuple(entry_[2][1])
        rep.check(True if k == want else (False if all(x[0] in ('sym', 'c') for x in k) else None), 'once', c.loc, 'the font looked up is the one of %s' % ', '.join(show(x) for x in k))
    else:
        rep.ok('once', c.loc) if any(f[0] == 'eq' and b for f, b in p.facts.items()) else rep.unk('once', c.loc, 'entry %s' % show(entry_))


def path_keys(eng, st, d, depth=0):
    """keys that lead from a page's dictionary to the dictionary term d"""
    if depth > 6:
        return []
    if d[0] in ('setdef', 'get', 'idx') and is_c(d[2]):
        return path_keys(eng, st, d[1], depth + 1) + [d[2][2]]
    if d[0] == 'dict':
        for k, v in st.heap.items():
            if k[0] == 'D':
                for l in v:
                    if l[0] == 'kv' and l[2] == d and is_c(l[1]):
                        return path_keys(eng, st, ('dict', k[1]), depth + 1) + [l[1][2]]
            elif k[0] == 'i' and v == d and is_c(k[2]):
                return path_keys(eng, st, k[1], depth + 1) + [k[2][2]]
    return []


# ---------------------------------------------------------------- names
def names(prog, rep):
    n = 0
    fonts = [c for c in prog.classes.values() if 'PDFFont' in [x.name for x in prog.mro(c)]] if not isinstance(prog.classes, list) else []
    cls = {c.name for c in fonts}
    for fi in prog.all_functions():
        hits = [x for x in ast.walk(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in cls]
        if not hits:
            continue
        eng = Engine(prog, opaque={m.qual for c in fonts for m in c.methods.values()})
        for p in eng.analyse(fi):
            rep.functions |= eng.analysed
            if p.raised:
                continue
            for s, evs, L in scoped(p):
                news = [e for e in evs if e.kind == 'new' and e.a[1] in cls]
                for e in news:
                    n += 1
                    args = dict(e.a[2])
                    ref = args.get('ref', next(iter(args.values()), None))
                    ctr = [x for x in subterms(ref) if x[0] in ('attr', 'head', 'poly') or x[0] == 'fn' and x[1] == 'len'] if ref is not None else []
                    base = ref_counter(ref)
                    if base is None:
                        rep.check(False if ref is not None and is_c(ref) else None, 'names', e.loc, 'a font is named %s' % (show(ref) if ref else None))
                        continue
                    ws = [x for x in evs if x.kind == 'write' and x.a[0] == SELF and x.a[1] == counter_attr(base)]
                    after = ws[-1].a[2] if ws else base
                    d = poly_const(p_sub(after, base)) if after is not None else None
                    if d is None and after == base:
                        d = 0
                    if len(news) > 1 and d is not None and d < len(news):
                        rep.bad('names', e.loc, 'two fonts may get the name %s' % show(ref))
                    else:
                        rep.check(True if d is not None and d >= 1 else (False if d is not None else None), 'names', e.loc,
                                  'the counter in the name %s does not advance after a font is made, where %s' % (show(ref), cond_text(s)))
    rep.count('fonts made', n)


def scoped(p):
    yield p.state, [e for e in p.trace if e.kind != 'loop'], None
    for L, s, sig, own, path in walk_parts(p.trace):
        if sig is not None and sig[0] == 'raise':
            continue
        yield s, plain_events(own), L


def ref_counter(ref):
    if ref is None or ref[0] != 'cat':
        return None
    holes = [x for x in cat_parts(ref) if x[0] == 'hole']
    if len(holes) != 1:
        return None
    t = holes[0][1]
    return t if t[0] in ('attr', 'head', 'c', 'poly') else None


def counter_attr(t):
    if t[0] == 'attr':
        return t[2]
    if t[0] == 'head' and t[2][0] == 'a':
        return t[2][2]
    return 'index'


# ---------------------------------------------------------------- draw
def draw(prog, rep):
    ai = prog.func('PDF.add_image')
    eng = Engine(prog, opaque={'PDFBase.add'} | opaque_named(prog, '__getitem__') & {'PDFBase.__getitem__'})
    img = ('sym', ai.args[1])
    n = 0
    for p in eng.analyse(ai):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        evs = [e for e, _ in all_events(p.trace)]
        # name -> object on this page
        put = [e for e in evs if e.kind == 'setitem' and path_keys(eng, p.state, e.a[0])[-1:] == ['XObject']]
        drawn = []
        for e in evs:
            if e.kind == 'setitem' and path_keys(eng, p.state, e.a[0])[-1:] == ['__stream__'] or e.kind == 'call' and e.a[0] == 'PDFPage.add':
                t = e.a[2] if e.kind == 'setitem' else e.a[2][0][1]
                for nm in named(decode(t), ' Do'):
                    drawn.append((e, nm))
        if not drawn:
            rep.bad('draw', ai.loc(), 'the image is not drawn where %s' % p.where()[:200]) if not any(e.kind == 'call' for e in evs) else \
                rep.unk('draw', ai.loc(), 'no drawing operator found')
            continue
        n += 1
        e, nm = drawn[-1]
        added = [x for x in evs if x.kind == 'call' and x.a[0] == 'PDFBase.add']
        # object meant
        tab = {x.a[0]: x for x in evs if x.kind == 'setitem' and x.a[0][0] == 'attr' and x.a[0][1] == SELF}
        if put:
            x = put[-1]
            rep.check(True if x.a[1] == nm else False if is_known(x.a[1]) and is_known(nm) else None, 'draw', e.loc, 'the image is drawn as %s but entered as %s' % (show(nm), show(x.a[1])))
            oid = x.a[2]
            meant = None
            if added:
                good = oid[0] == 'attr' and oid[2] == 'id' and oid[1] == added[-1].a[3]
                rep.check(True if good else None, 'draw', x.loc, 'the object entered is %s' % show(oid))
            fresh_name(rep, eng, p, x, nm)
            # remembered for the next time, under the same id
            mem = [y for y in evs if y.kind == 'setitem' and y.a[0][0] == 'attr' and y.a[0][2] != 'images' and y.a[1] == oid]
            for y in mem:
                rep.check(y.a[2] == nm, 'draw', y.loc, 'the name remembered for the image is %s' % show(y.a[2]))
        else:
            # looked up by the object's id in a table of the page
            if nm[0] in ('idx', 'get') and nm[1][0] == 'attr':
                rep.ok('draw', e.loc)
                good = image_id(nm[2], img, added)
                rep.check(good, 'draw', e.loc, 'the name is looked up for %s' % show(nm[2]))
            else:
                rep.check(False if is_c(nm) or nm[0] == 'cat' else None, 'draw', e.loc, 'the image is drawn as %s, which is not entered in the resources where %s' % (show(nm), p.where()[:150]))
        # added once per name
        if added:
            a = added[-1]
            mem = [y for y in evs if y.kind == 'setitem' and y.a[0][0] == 'attr' and y.a[0][1] == SELF]
            if not mem:
                rep.bad('once', a.loc, 'an image is added to the document but not remembered')
            else:
                k = mem[-1].a[1]
                t = mem[-1].a[0]
                g = [f for f, b in p.facts.items() if f[0] == 'in' and b is False and f[2][0] == 'attr' and f[2][2] == t[2]]
                g += [('in', f[1][2], f[1][1]) for f, b in p.facts.items() if f[0] == 'isnone' and b and f[1][0] == 'get' and f[1][1] == t]
                if any(f[1] == k for f in g):
                    rep.ok('once', a.loc)
                else:
                    rep.bad('once', a.loc, 'an image is looked for as %s but remembered as %s' % (', '.join(show(f[1]) for f in g) or 'nothing', show(k)))
                v = mem[-1].a[2]
                rep.check(True if v == ('attr', a.a[3], 'id', 0) or v == a.a[3] or v[0] == 'attr' and v[1] == a.a[3] else None, 'once', a.loc, 'what is remembered is %s' % show(v))
            rep.check(True if any(v == ('attr', img, 'pdf_obj', 0) for _, v in a.a[2]) else None, 'once', a.loc, 'object added is %s' % ', '.join(show(v) for _, v in a.a[2]))
    rep.count('paths that draw an image', n)
    # the per-page tables are only extended
    for fi, node, bt, attr, how in all_mutations(prog):
        if attr in ('x_objects',) and bt == 'PDFPage' or attr == 'images' and bt == 'PDF':
            if how in ('setitem',) or how == 'assign' and fi.name == '__init__':
                rep.ok('names', fi.loc(node))
            elif how in ('pop', 'del', 'delitem', 'clear', 'assign', 'popitem'):
                rep.bad('names', fi.loc(node), 'the table of images is changed by %s' % how)


def image_id(t, img, added):
    if added and t[0] == 'attr' and t[1] == added[-1].a[3]:
        return True
    if contains(t, ('attr', img, 'image_name', 0)):
        return True
    return None


def decode(t):
    if t[0] == 'fn' and t[1] in ('encode',) and t[2]:
        return t[2][0]
    if t[0] == 'cat':
        return t
    for x in subterms(t):
        if x[0] == 'cat':
            return x
    return t


def scaled(b, a):
    """b is a constant multiple of a plus a constant"""
    x = subst(b, lambda t: C(0) if t == a else None)
    y = subst(b, lambda t: C(1) if t == a else None)
    k = poly_const(p_sub(y, x))
    return k is not None and k != 0 and poly_const(p_sub(p_sub(b, x), p_mul(C(k), a))) == 0


def fresh_name(rep, eng, p, x, nm):
    """the name contains the size of the table it is entered in (which only grows) or a counter"""
    if nm[0] != 'cat':
        rep.check(False if is_c(nm) else None, 'names', x.loc, 'every image on a page is named %s' % show(nm))
        return
    holes = [h[1] for h in cat_parts(nm) if h[0] == 'hole']
    tab = x.a[0]
    for h in holes:
        if h[0] == 'fn' and h[1] == 'len' and h[2][0] == tab:
            rep.ok('names', x.loc)
            return
        if h[0] == 'fn' and h[1] == 'len' and h[2][0][0] == 'attr' and h[2][0][2] == 'x_objects':
            rep.ok('names', x.loc)
            return
        b = h
        while b[0] == 'fn' and b[1] in ('str', 'repr', 'int') and len(b[2]) == 1:
            b = b[2][0]
        if b == x.a[2] or b[0] == 'attr' and b[1] == x.a[2]:
            rep.ok('names', x.loc)
            return
        if b[0] == 'poly' and contains(b, x.a[2]) and scaled(b, x.a[2]):
            rep.ok('names', x.loc)
            return
    if holes and all(h[0] == 'fn' and h[1] == 'len' and path_keys(eng, p.state, h[2][0])[-1:] not in ([], ['XObject']) for h in holes):
        rep.bad('names', x.loc, 'the name of the image, %s, does not change with every image entered' % show(nm))
        return
    lossy = any(y[0] == 'slice' or y[0] == 'fn' and y[1] in ('mod', '%', 'floordiv', '//', 'and', '&', 'min', 'max', 'round', 'bool')
                for h in holes for y in subterms(h))
    rep.check(False if lossy and len(holes) == 1 else None if any(h[0] in ('attr', 'call', 'fn') for h in holes) else False, 'names', x.loc, 'the name of the image, %s, may be in use on the page' % show(nm))
