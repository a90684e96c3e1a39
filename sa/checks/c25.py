"""C25: page sizes and margins are interpreted as documented."""
import ast
from .common import *
from .c21 import Maker, opaque_set
from .c22 import unv

TECHNIQUE = ('constant propagation and abstract interpretation of the page set-up on every form of page size and margin (numbers, every documented name, '
             'pairs, strings, one to five values as lists and tuples, whole and partial dictionaries; the values themselves symbolic): the geometry each '
             'page ends up with, compared with the size table and the side rules the documentation states')

SELF = ('sym', 'self')
SIDES = ('top', 'right', 'bottom', 'left')
# points; ISO sizes are given in millimetres and may be rounded
NAMES = {'a5': (148, 210), 'a4': (210, 297), 'a3': (297, 420), 'b5': (176, 250), 'b4': (250, 353), 'jis-b5': (182, 257), 'jis-b4': (257, 364)}
NAMES = {k: tuple(x * 72 / 25.4 for x in v) for k, v in NAMES.items()}
NAMES.update({'letter': (612, 792), 'legal': (612, 1008), 'ledger': (792, 1224)})


# what making a page involves besides its geometry
SERVICES = ('roman', 'number', 'font', 'content', 'text', 'table', 'image', 'output', 'outline', 'style', 'range', 'graphics', 'stream', 'escape', 'hex')


def S(x):
    return ('sym', x)


def run(prog, rep):
    rep.rule('size', 'a number is a square, a name one of the documented sizes, a pair width and height')
    rep.rule('margin', 'one to four values are the four sides in the CSS order')
    rep.rule('page', 'every page has the size and, side by side, the margins asked for')
    for form in sizes():
        rep.section('size', size_value, prog, rep, form)
        rep.section('page', page_of, prog, rep, form, None)
        rep.section('page', document_of, prog, rep, form, None)
    for form in margins():
        rep.section('margin', margin_value, prog, rep, form)
        rep.section('page', page_of, prog, rep, None, form)
        rep.section('page', document_of, prog, rep, None, form)


# ------------------------------------------------------------------ forms: (what, term given a Maker, meaning)
def sizes():
    n = S('n')
    yield 'a whole number', lambda m: C(500), (C(500), C(500))
    yield 'a fraction', lambda m: C(500.5), (C(500.5), C(500.5))
    yield 'a number', lambda m: n, (n, n)
    yield 'a list', lambda m: m.l([S('w'), S('h')]), (S('w'), S('h'))
    yield 'a tuple', lambda m: ('tuple', (S('w'), S('h'))), (S('w'), S('h'))
    yield 'a wide pair', lambda m: m.l([C(900), C(300)]), (C(900), C(300))
    yield 'a high pair', lambda m: ('tuple', (C(300.5), C(900))), (C(300.5), C(900))
    for k, (w, h) in NAMES.items():
        yield 'the name ' + k, lambda m, k=k: C(k), (C(w), C(h))


def margins():
    a, b, c, d, x = (S('m%d' % i) for i in range(5))
    for what, wrap in (('a list of', lambda m, v: m.l(v)), ('a tuple of', lambda m, v: ('tuple', tuple(v)))):
        for vals, want in (([a], (a, a, a, a)), ([a, b], (a, b, a, b)), ([a, b, c], (a, b, c, b)), ([a, b, c, d], (a, b, c, d))):
            yield '%s %d' % (what, len(vals)), lambda m, wrap=wrap, vals=vals: wrap(m, list(vals)), dict(zip(SIDES, want))
    yield 'a list of four numbers', lambda m: m.l([C(4), C(0), C(3.5), C(1)]), dict(zip(SIDES, map(C, (4, 0, 3.5, 1))))
    for v in (0, 12, 2.5):
        yield 'the number %s' % v, lambda m, v=v: C(v), dict.fromkeys(SIDES, C(v))
    yield 'a number', lambda m: a, dict.fromkeys(SIDES, a)
    for text, want in (('7', (7,) * 4), ('2.5', (2.5,) * 4), ('1,2', (1, 2, 1, 2)), ('1 2', (1, 2, 1, 2)), ('1, 2', (1, 2, 1, 2)), ('1.5 2 , 3', (1.5, 2, 3, 2)),
                       ('1,2,3', (1, 2, 3, 2)), (' 1 2  3   4 ', (1, 2, 3, 4)), ('10, 0, 30, 40', (10, 0, 30, 40)), ('0', (0,) * 4)):
        yield 'the string %r' % text, lambda m, text=text: C(text), dict(zip(SIDES, map(C, want)))
    yield 'a dictionary', lambda m: m.d([('left', d), ('bottom', c), ('right', b), ('top', a)]), dict(zip(SIDES, (a, b, c, d)))
    for s in SIDES:
        yield 'a dictionary with %s only' % s, lambda m, s=s: m.d([(s, a)]), {s: a}


def same(v, want, slack=0):
    """three-valued"""
    if v is None:
        return None
    v = unv(v)
    if is_num_c(v) and is_num_c(want):
        return abs(v[2] - want[2]) <= slack
    if v == want:
        return True
    d = poly_const(p_sub(v, want))
    if d is not None:
        return d == 0
    return False if all(x[0] in ('sym', 'c', 'poly', 'attr') for x in subterms(v)) else None


def words(t):
    return show(t)[:60] if t is not None else 'nothing'


def engine(prog, extra=()):
    keep = {g.qual for g in prog.all_functions() if g.cls is None} | set(extra)
    for c in ('PDF', 'PDFPage'):
        for g in list(prog.cls(c).methods.values()) + list(prog.cls(c).getters.values()) + list(prog.cls(c).setters.values()):
            keep.add(g.qual)
    keep = {q for q in keep if not any(w in q.split('.')[-1].lower() for w in SERVICES)}
    eng = Engine(prog, opaque={g.qual for g in prog.all_functions() if g.qual not in keep})
    eng.nomerge = True
    for q in eng.opaque:
        if prog.has_func(q) and any(w in q.split('.')[-1].lower() for w in SERVICES):
            eng.stubs[q] = lambda eng, st, recv, argmap, e: [(st, S('service'))]
    return eng


def number_facts(st, terms):
    for t in terms:
        st.facts[('inst', t, 'str')] = False
        st.facts[('inst', t, 'int')] = True
        st.facts[('inst', t, 'float')] = False
        for k in ('list', 'tuple', 'dict'):
            st.facts[('inst', t, k)] = False
        st.facts[('isnone', t)] = False


def state():
    st = State()
    number_facts(st, [S(x) for x in ('n', 'w', 'h', 'm0', 'm1', 'm2', 'm3', 'm4', 'W', 'H', 'M_top', 'M_right', 'M_bottom', 'M_left')])
    return st


def elements(p, t):
    if t[0] == 'tuple':
        return list(t[1])
    if t[0] == 'list':
        xs = p.heap.get(('L', t[1]))
        if xs is not None and not any(x[0] in ('star', 'unk') for x in xs):
            return list(xs)
    return None


# ------------------------------------------------------------------ the two functions
def size_value(prog, rep, form):
    what, make, want = form
    f = prog.func('get_page_size')
    st = state()
    eng = engine(prog)
    for p in eng.analyse(f, args={f.args[0]: make(Maker(st))}, state=st):
        rep.functions |= eng.analysed
        rep.count('forms of page size followed')
        if p.raised:
            rep.bad('size', f.loc(), '%s is refused as a page size' % what)
            continue
        got = elements(p, p.ret)
        if got is None:
            rep.unk('size', f.loc(), '%s: %s' % (what, words(p.ret)))
            continue
        if len(got) != 2:
            rep.bad('size', f.loc(), '%s becomes %d values' % (what, len(got)))
            continue
        for v, w, side in zip(got, want, ('width', 'height')):
            rep.check(same(v, w, 0.5 if what.startswith('the name') else 0), 'size', f.loc(), '%s given as page size means a %s of %s' % (what, side, words(v)))


def margin_value(prog, rep, form):
    what, make, want = form
    f = prog.func('parse_margin')
    st = state()
    mk = Maker(st)
    given = make(mk)
    eng = engine(prog)
    for p in eng.analyse(f, args={f.args[0]: given}, state=st):
        rep.functions |= eng.analysed
        rep.count('forms of margins followed')
        if p.raised:
            rep.bad('margin', f.loc(), '%s is refused as margins' % what)
            continue
        sides(rep, 'margin', f.loc(), eng, p, p.ret, want, what, absent=NONE)


def sides(rep, rule, loc, eng, p, d, want, what, absent):
    if d is None or d[0] != 'dict':
        rep.unk(rule, loc, '%s: %s' % (what, words(d)))
        return
    for s in SIDES:
        v = eng.dict_get(d, C(s), NONE, p.state)
        if s not in want:
            continue
        rep.check(same(v, want[s]) if v != NONE else False, rule, loc, '%s given as margins: the %s one is %s' % (what, s, words(v)))


# ------------------------------------------------------------------ pages
def new_page(prog, p):
    for e, _ in all_events(p.trace):
        if e.kind == 'append' and e.a[1][0] == 'obj' and e.a[1][1] == 'PDFPage':
            return e.a[1]
    return None


def page_facts(rep, p, page, loc, what, width, height, m, slack=0):
    for k, w in (('width', width), ('height', height)):
        if w is not None:
            v = p.attr(page, k)
            rep.check(same(v, w, slack), 'page', loc, '%s: the %s of the page is %s' % (what, k, words(v)))
    for s in SIDES:
        if s in m:
            v = p.attr(page, 'margin_' + s)
            rep.check(same(v, m[s]), 'page', loc, '%s: the %s margin of the page is %s' % (what, s, words(v)))


def page_of(prog, rep, size, margin):
    """a page added with its own size or margins; everything else is as in the document"""
    f = prog.func('PDF.add_page')
    for rotate in (NONE, C(True), C(False)):
        st = state()
        mk = Maker(st)
        own = {s: S('M_' + s) for s in SIDES}
        st.heap[('a', SELF, 'margin')] = mk.d(list(own.items()))
        st.heap[('a', SELF, 'page_width')] = S('W')
        st.heap[('a', SELF, 'page_height')] = S('H')
        st.heap[('a', SELF, 'rotate_page')] = C(False)
        st.heap[('a', SELF, 'running_sections')] = mk.l([])
        args = {'page_size': size[1](mk) if size else NONE, 'margin': margin[1](mk) if margin else NONE, 'rotate_page': rotate}
        eng = engine(prog)
        for p in eng.analyse(f, args=args, state=st):
            rep.functions |= eng.analysed
            rep.count('pages followed')
            what = (size or margin)[0] + ' given for one page'
            if p.raised:
                rep.bad('page', f.loc(), '%s is refused' % what)
                continue
            page = new_page(prog, p)
            if page is None:
                rep.unk('page', f.loc(), 'no page seen')
                continue
            w, h = size[2] if size else (S('W'), S('H'))
            if rotate == C(True):
                w, h = h, w
                what += ', turned'
            page_facts(rep, p, page, f.loc(), what, w, h, {**own, **(margin[2] if margin else {})}, 0.5 if size and size[0].startswith('the name') else 0)


def document_of(prog, rep, size, margin):
    """sizes and margins given to the document, and a page of it"""
    f = prog.func('PDF.__init__')
    g = prog.func('PDF.add_page')
    st = state()
    mk = Maker(st)
    args = {}
    if size:
        args['page_size'] = size[1](mk)
    if margin:
        args['margin'] = margin[1](mk)
    for a, node in f.defaults.items():
        if a not in args and isinstance(node, ast.Constant):
            args[a] = C(node.value)
    eng = engine(prog)
    what = (size or margin)[0] + ' given for the document'
    for p in eng.analyse(f, args=args, state=st):
        rep.functions |= eng.analysed
        if p.raised:
            rep.bad('page', f.loc(), '%s is refused' % what)
            continue
        st2 = p.state.copy()
        st2.heap[('a', SELF, 'running_sections')] = Maker(st2).l([])
        n = len(st2.trace)
        for q in engine(prog).analyse(g, args={a: NONE for a in g.args[1:]}, state=st2):
            rep.count('documents followed')
            if q.raised:
                rep.bad('page', g.loc(), '%s: no page can be added' % what)
                continue
            page = new_page(prog, q)
            if page is None:
                rep.unk('page', g.loc(), 'no page seen')
                continue
            w, h = size[2] if size else (None, None)
            page_facts(rep, q, page, g.loc(), what, w, h, margin[2] if margin else {}, 0.5 if size and size[0].startswith('the name') else 0)
