"""C08: the page tree.  The code that runs between the user's call to output and the writing of the objects is evaluated
once with a generic page; for every path of an iteration over the pages the effects on the tree are compared."""
from .common import *
from .objs import *
from ..access import all_mutations
from ..flow import reach

TECHNIQUE = ('value-flow analysis of the loops over the pages: on every path of a generic iteration the page is linked into '
             'exactly one node, which is the one recorded as its parent and whose count grows by the leaves added; writes to '
             'the list of pages are enumerated over the whole package')

SELF = ('sym', 'self')
PAGES = ('attr', SELF, 'pages', 0)


def focus(prog, fi, consts):
    """methods reached from fi that do not take part in the construction looked at"""
    m = {f for f in prog.all_functions() if mentions(f, consts)}
    keep_inline = {'add', '__getitem__', '__setitem__', '__contains__', '__delitem__', '__init__', '__new__', 'ref', '__len__', '__iter__'}
    return {g.qual for g in reach(prog, fi) if g is not fi and g.name not in keep_inline and not (reach(prog, g) & m)} | {'PDFBase.output'}


def run(prog, rep):
    rep.rule('kids', 'every path of an iteration over the pages links the page into exactly one node')
    rep.rule('parent', 'the node a page is linked into is the one recorded as its parent')
    rep.rule('count', 'the count of that node grows by the number of leaves linked')
    rep.rule('mediabox', 'the media box of a page is built from that page\'s own width and height')
    rep.rule('root', 'the catalogue refers to the one node left without parent')
    rep.rule('pages', 'a page is appended to the list of pages exactly when it is created and the list is never reordered')
    rep.section('kids', tree, prog, rep)
    rep.section('pages', pages, prog, rep)


def is_page(t):
    """t is the generic element of the list of pages"""
    return t[0] == 'idx' and t[1] == PAGES


def tree(prog, rep):
    out = prog.func('PDF.output')
    eng = Engine(prog, opaque=focus(prog, out, {'MediaBox', b'/Pages', 'Pages'}))
    eng.types[PAGES] = eng.types.get(PAGES, None) or 'list'
    parts = eng.analyse(out)
    rep.functions |= eng.analysed
    n = 0
    for p in parts:
        if p.raised:
            continue
        n += 1
        level(prog, rep, eng, p.trace, p, lambda t: t[0] == 'idx' and (t[1] == PAGES or t[1][0] in ('fn', 'slice', 'comp') and contains(t[1], PAGES)), lambda P: ('attr', P, 'page', 0), True, out)
        root(prog, rep, eng, p, out)
    rep.count('paths of output', n)


def elem(eng, st, t):
    """page whose dictionary object is t"""
    if t[0] == 'attr' and t[2] == 'page' and t[1][0] == 'idx':
        return t[1]
    return None


def level(prog, rep, eng, trace, p, isel, toobj, first, fi, depth=0):
    """one level of the tree: elements recognised by isel (generic element term); toobj gives the PDF object"""
    def element_of_obj(o):
        if first:
            return o[1] if o[0] == 'attr' and o[2] == 'page' and isel(o[1]) else None
        return o if isel(o) else None
    aspects = {}
    spaces = {}
    for L, s, sig, own, path in walk_parts(trace):
        if sig is not None and sig[0] == 'raise':
            continue
        got = {'parent': [], 'kids': [], 'media': [], 'count': []}
        for e in plain_events(own):
            if e.kind == 'setitem':
                b, k, v = e.a
                o = base_obj(eng, s, b)
                E = element_of_obj(o)
                if E is not None and k == C('Parent'):
                    got['parent'].append((e, E, v))
                elif E is not None and k == C('MediaBox'):
                    got['media'].append((e, E, v))
                elif k == C('Count'):
                    got['count'].append((e, o, v))
            elif e.kind == 'append':
                l, v = e.a[0], e.a[1]
                o = obj_of_id(eng, s, v)
                E = element_of_obj(o) if o is not None else None
                if E is not None:
                    got['kids'].append((e, E, l))
        for k, v in got.items():
            aspects.setdefault(L.id, {}).setdefault(k, []).append((L, s, v, sig))
    seen_kids = False
    for lid, asp in aspects.items():
        L = eng.loops[lid]
        if not any(v for k in ('parent', 'kids', 'media') for _, _, v, _ in asp[k]):
            continue
        over = elements_space(L, isel)
        for kind, rule in (('kids', 'kids'), ('parent', 'parent'), ('media', 'mediabox')):
            if not any(v for _, _, v, _ in asp[kind]):
                continue
            if kind == 'kids':
                seen_kids = True
            for L_, s, v, sig in asp[kind]:
                where = L.fi.loc(L.node)
                if over is False:
                    rep.bad(rule, where, 'the iteration does not visit the elements in order: %s' % show(L.space))
                    continue
                if len(v) == 1 or (kind != 'kids' and len(v) > 1):
                    rep.ok(rule, v[0][0].loc)
                elif not v:
                    rep.bad(rule, where, 'there is a path through the iteration on which the %s of a page is not set: %s' % (
                        {'kids': 'link from a node', 'parent': 'Parent', 'media': 'MediaBox'}[kind], conds(s, L)))
                else:
                    rep.bad(rule, v[1][0].loc, 'a page is linked %d times on one path' % len(v))
                if sig == 'break':
                    rep.bad(rule, where, 'the iteration over the pages stops early: %s' % conds(s, L))
                if L_.kind == 'for' and v and v[0][1][2] != L_.ind and first:
                    rep.bad(rule, v[0][0].loc, 'the page used is not the one iterated: %s' % show(v[0][1]))
        for _, s, kids, sig in asp['kids']:
            if not kids:
                continue
            e, E, l = kids[0]
            node, key = holder(eng, s, l)
            if node is None or key != C('Kids'):
                if key is not None and is_c(key):
                    rep.bad('kids', e.loc, 'pages are listed under %s' % show(key))
                else:
                    rep.unk('kids', e.loc, 'node of the list %s not recognised' % show(l))
                continue
            pars = [x for _, s2, v, _ in asp['parent'] if s2 is s for x in v]
            for pe, PE, pv in pars:
                o = obj_of_id(eng, s, pv)
                if o is None:
                    rep.bad('parent', pe.loc, 'Parent is %s, not a reference to a node' % show(pv)) if not ref_like(pv) else \
                        rep.unk('parent', pe.loc, 'Parent is %s' % show(pv))
                elif same_obj(o, node):
                    rep.ok('parent', pe.loc)
                else:
                    rep.bad('parent', pe.loc, 'the page is listed by %s but its Parent is %s' % (show(node), show(o)))
            if not pars and not any(v for lid2, a2 in aspects.items() if lid2 != lid for _, _, v, _ in a2.get('parent', ())):
                rep.bad('parent', e.loc, 'a page is linked into a node but no Parent is recorded')
            counts = [(ce, v) for _, s2, cs, _ in asp['count'] if s2 is s for ce, o, v in cs if same_obj(o, node)]
            ini = entry(eng, L.entry_state, node, 'Count')
            v = entry(eng, s, node, 'Count')
            judge_count(rep, eng, L, s, node, E, v, counts, first, e, l)
        for _, s, med, sig in asp['media']:
            for e, E, v in med:
                xs = items(eng, s, v)
                if xs is None and v[0] == 'tuple':
                    xs = v[1]
                if xs is None and is_concat(v) is not None:
                    xs = is_concat(v)
                want = (C(0), C(0), ('attr', E, 'width', 0), ('attr', E, 'height', 0))
                if xs is None or len(xs) != 4:
                    rep.unk('mediabox', e.loc, 'value %s' % show(v))
                elif tuple(xs) == want:
                    rep.ok('mediabox', e.loc)
                elif all(a == b or known_size(a) for a, b in zip(xs, want)):
                    rep.bad('mediabox', e.loc, 'MediaBox is [%s], the page is %s wide and %s high' % (
                        ', '.join(show(x) for x in xs), show(want[2]), show(want[3])))
                else:
                    rep.unk('mediabox', e.loc, 'MediaBox is [%s]' % ', '.join(show(x) for x in xs))
    if first and not seen_kids:
        comp_kids(prog, rep, eng, p, fi)
    # next level: the nodes made here are handed on
    if depth < 2:
        for e, stk in all_events(trace):
            if e.kind == 'call':
                qual, recv, args, t = e.a
                for name, a in args:
                    if a[0] == 'list' and any(x[0] == 'star' for x in p.heap.get(('L', a[1]), ())):
                        g = prog.func(qual)
                        if not mentions(g, {'Kids', 'Parent', b'/Pages'}):
                            continue
                        nodes = ('sym', '$nodes')
                        eng2 = Engine(prog, opaque=eng.opaque | {f.qual for f in [g] if False})
                        am = {n: v for n, v in args}
                        am[name] = nodes
                        st = State()
                        st.facts[('truthy', nodes)] = True
                        for q in eng2.analyse(g, args=am, state=st):
                            if not q.raised:
                                rep.functions |= eng2.analysed
                                level(prog, rep, eng2, q.trace, q, lambda t: t[0] == 'idx' and t[1] == nodes, None, False, g, depth + 1)
                                break


def ref_like(t):
    return t[0] in ('call', 'attr', 'idx', 'get', 'head', 'out', 'sym', 'fn')


def known_size(t):
    return all(x[0] in ('attr', 'idx', 'sym', 'c', 'poly', 'ind') for x in subterms(t)) and (
        t[0] in ('attr', 'c', 'poly'))


def is_concat(v):
    return None


def same_obj(a, b):
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == 'attr' and x[2] == 'value' and x[1] == y:
            return True
    return False


def conds(s, L):
    f = [('' if b else 'not ') + show(a) for a, b in s.facts.items() if a not in L.entry_state.facts]
    return ' and '.join(f)[:200] or 'always'


def elements_space(L, isel):
    sp = L.space
    if sp is None:
        return None
    while sp[0] == 'enumerate':
        sp = sp[1]
    if sp == PAGES or sp[0] == 'sym':
        return True
    if sp[0] in ('fn',) and sp[1] in ('reversed', 'sorted', 'set'):
        return False
    if sp[0] == 'slice' and sp[1] == PAGES:
        return False
    return None


def judge_count(rep, eng, L, s, node, E, v, counts, first, e, l):
    want = C(1) if first else None
    if not counts:
        if v is not None and v[0] == 'fn' and v[1] == 'len':
            return
        later = None
        rep.unk('count', e.loc, 'count of %s is not updated in the iteration' % show(node))
        return
    ce, val = counts[-1]
    # value before: what the iteration starts from, or the initial value of a node made in it
    if node[0] == 'obj' and node[2] > L.id:
        prev = C(0)
    else:
        prev = None
        for loc, h in L.head.items():
            if loc[0] == 'K' and loc[2] == C('Count') and same_obj(base_obj(eng, s, ('dict', loc[1])), node):
                prev = h
            if loc[0] == 'i' and loc[2] == C('Count') and same_obj(base_obj(eng, s, loc[1]), node):
                prev = h
    if val[0] == 'fn' and val[1] == 'len' or val == eng.len_of(l, s):
        rep.ok('count', ce.loc) if first else rep.bad('count', ce.loc, 'the count of an inner node is its number of kids, not of pages below it')
        return
    if prev is None:
        prev = ('idx', node, C('Count'))
        if not contains(val, prev):
            rep.unk('count', ce.loc, 'count becomes %s' % show(val))
            return
    d = p_sub(val, prev)
    if first:
        if d == C(1):
            rep.ok('count', ce.loc)
        elif poly_const(d) is not None or is_known(d):
            rep.bad('count', ce.loc, 'the count of the node grows by %s when one page is linked' % show(d))
        else:
            rep.unk('count', ce.loc, 'count grows by %s' % show(d))
        return
    child = [('idx', E, C('Count')), ('idx', ('attr', E, 'value', 0), C('Count'))]
    if d in child:
        rep.ok('count', ce.loc)
    elif poly_const(d) is not None:
        rep.bad('count', ce.loc, 'an inner node counts %s for each node linked, not the pages below it' % show(d))
    else:
        rep.unk('count', ce.loc, 'count of an inner node grows by %s' % show(d))


def comp_kids(prog, rep, eng, p, fi):
    """Kids built by a comprehension over the pages"""
    for k, v in p.heap.items():
        if k[0] != 'D':
            continue
        d = {l[1]: l[2] for l in v if l[0] == 'kv'}
        kids = d.get(C('Kids'))
        if kids is None:
            continue
        where = fi.loc()
        if kids[0] == 'comp' and kids[4] is None:
            el = kids[3]
            if contains(el, PAGES) and el[0] == 'attr' and el[2] == 'id':
                rep.check(kids[2] == PAGES or None, 'kids', where, 'pages listed: %s' % show(kids))
        elif kids[0] == 'comp':
            rep.bad('kids', where, 'only some pages are linked: %s' % show(kids))
        c = d.get(C('Count'))
        n = eng.len_of(PAGES, p.state)
        if c is not None:
            dd = differ(c, n)
            rep.check(True if dd else (False if dd is False else None), 'count', where, 'Count is %s for the pages listed' % show(c))


def root(prog, rep, eng, p, fi):
    where = fi.loc()
    r = ('attr', SELF, 'root', 0)
    sets = [e for e, stk in all_events(p.trace) if e.kind == 'setitem' and e.a[1] == C('Pages') and base_obj(eng, p.state, e.a[0]) == r]
    if not sets:
        if any(e.kind == 'call' and e.a[0] not in ('PDFBase.output',) and mentions(prog.func(e.a[0]), {'Pages'}) for e, _ in all_events(p.trace)):
            return
        rep.bad('root', where, 'the catalogue is not given the page tree on the path where %s' % (p.where() or 'always'))
        return
    e = sets[-1]
    o = obj_of_id(eng, p.state, e.a[2])
    if o is None:
        rep.unk('root', e.loc, 'Pages is %s' % show(e.a[2]))
        return
    if o[0] == 'obj':
        t = entry(eng, p.state, o, 'Type')
        rep.check(True if t == C(b'/Pages') else (False if t is not None and is_c(t) else None), 'root', e.loc, 'Pages refers to an object of Type %s' % (show(t) if t else t))
        return
    if o[0] == 'idx' and o[1][0] == 'list':
        xs = p.heap.get(('L', o[1][1]), ())
        st = [x for x in xs if x[0] == 'star']
        if len(st) == 1 and len(xs) == 1:
            L = eng.loops[st[0][1]]
            if single(eng, L, o[1], p):
                rep.ok('root', e.loc)
            elif single(eng, L, o[1], p) is False:
                rep.bad('root', e.loc, 'more than one node may be left without a parent; only one is referred to')
            else:
                rep.unk('root', e.loc, 'number of nodes made by the loop not known')
            return
    if o[0] in ('head', 'out'):
        # the last node made
        rep.unk('root', e.loc, 'Pages refers to %s' % show(o))
        return
    if obj_is_node(eng, p, o) is False:
        rep.bad('root', e.loc, 'Pages refers to %s, which is not a node of the tree' % show(o))
    else:
        rep.unk('root', e.loc, 'Pages refers to %s' % show(o))


def obj_is_node(eng, p, o):
    if o[0] == 'attr' and o[2] == 'page':
        o = o[1]
    if o[0] == 'idx' and o[1] == PAGES:
        return False
    return False if o[0] == 'attr' and o[1] == SELF else None


def single(eng, L, lst, p):
    """exactly one element is appended to lst by the whole loop"""
    # a counter that moves exactly with the appends and is known to be one
    cands = []
    for loc in L.head:
        if loc[0] != 'env':
            continue
        same = True
        for s in L.back():
            n = len([1 for e in s.trace[s.base:] if e.kind == 'append' and e.a[0] == lst])
            v = s.env.get(loc[1])
            h = L.head[loc]
            if v is None or differ(p_sub(v, h), C(n)) is not True:
                same = False
                break
        if same:
            cands.append(loc)
    for loc in cands:
        if loc in L.outvals and L.after.get(loc) == [C(1)] and L.entry.get(loc) == C(0):
            return True
        o = ('out', L.id, loc)
        for f, b in p.facts.items():
            if f[0] == 'eq' and b and o in f[1:] and C(1) in f[1:] and L.entry.get(loc) == C(0):
                return True
    n = eng.len_of(lst, p.state)
    for f, b in p.facts.items():
        if f[0] == 'eq' and b and n in f[1:] and C(1) in f[1:]:
            return True
    made = [len([1 for e in s.trace[s.base:] if e.kind == 'append' and e.a[0] == lst]) for s in L.back()]
    if made and all(m >= 1 for m in made):
        return False
    return None


# ---------------------------------------------------------------- the list of pages
def pages(prog, rep):
    n = 0
    creators = []
    for fi, node, bt, attr, how in all_mutations(prog):
        if attr != 'pages' or bt not in ('PDF', None):
            continue
        where = fi.loc(node)
        n += 1
        if how in ('append', 'extend') and fi.cls is not None:
            creators.append(fi)
        elif how == 'assign' and fi.name == '__init__':
            rep.ok('pages', where)
        elif how in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'del', 'delitem', 'setitem'):
            rep.bad('pages', where, 'the list of pages is changed by %s after pages were created' % how)
        elif how == 'assign':
            rep.bad('pages', where, 'the list of pages is replaced')
        else:
            rep.unk('pages', where, 'the list of pages is changed by %s' % how)
    rep.count('writes to the list of pages', n)
    add = prog.func('PDF.add_page')
    keep = reach(prog, prog.cls('PDFPage').methods['__init__']) | reach(prog, prog.func('PDFBase.add')) | {prog.func('PDFPage.go_to_beginning')}
    eng = Engine(prog, opaque={g.qual for g in reach(prog, add) if g is not add and g not in keep and not mentions(g, {b'/Page'})
                               and not any(f is g and a == 'pages' for f, _, _, a, _ in all_mutations(prog))})
    for p in eng.analyse(add):
        rep.functions |= eng.analysed
        if p.raised:
            continue
        apps = [e for e, stk in all_events(p.trace) if e.kind in ('append',) and e.a[0] == PAGES]
        ins = [e for e, stk in all_events(p.trace) if e.kind == 'mut' and e.a[0] == PAGES]
        if ins:
            continue        # reported above
        if len(apps) != 1:
            rep.bad('pages', add.loc(), 'a page is added %d times to the list of pages where %s' % (len(apps), p.where()))
            continue
        o = apps[0].a[1]
        if o[0] != 'obj':
            rep.unk('pages', apps[0].loc, 'page added is %s' % show(o))
            continue
        rep.ok('pages', apps[0].loc)
        # the page object is a fresh indirect object
        pg = p.heap.get(('a', o, 'page'))
        news = [e for e, stk in all_events(p.trace) if e.kind == 'append' and e.a[0][0] == 'attr' and e.a[0][2] == 'content' and e.a[1] == pg]
        if pg is not None and pg[0] == 'obj':
            rep.check(len(news) == 1, 'pages', apps[0].loc, 'the page dictionary is added %d times to the document' % len(news))
        elif pg is not None:
            rep.unk('pages', apps[0].loc, 'page dictionary is %s' % show(pg))
        ty = entry(eng, p.state, pg, 'Type') if pg is not None and pg[0] == 'obj' else None
        if ty is not None and is_c(ty):
            rep.check(ty == C(b'/Page'), 'pages', apps[0].loc, 'Type of a page is %s' % show(ty))
